ID="S12"; PROPERTY="R14"
NEEDS="an optional step over a path in which an epsilon arc follows the optional symbol"
BREAKS="after an optional step only the paths that skip the symbol are followed over epsilon arcs"
EDITS=[("lttoolbox/state.cc","""  new_state.swap(state);
  epsilonClosure();
  new_state.swap(state);""","""  new_state.swap(state);
  new_state.swap(state);
  epsilonClosure();""")]
DEMO_SH='''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=c++23 -w -fno-access-control -I/repo -I/repo/lttoolbox -I/usr/include/libxml2 -I/usr/include/utf8cpp "$D/demo.cc" -o "$T/demo" \\
  -L/repo/_build/lttoolbox -llttoolbox -lxml2 -licuio -licui18n -licuuc -licudata -Wl,-rpath,/repo/_build/lttoolbox || exit 3
cd "$T" && timeout 60 ./demo
'''
DEMO='''#include <lttoolbox/state.h>
#include <lttoolbox/node.h>
int main(){ Node n[4]; n[0].addTransition('a','a',&n[1],0); n[1].addTransition(0,0,&n[2],0); n[2].addTransition('b','b',&n[3],0);
 std::map<Node*,double> f; f[&n[3]]=0; State s; s.init(&n[0]); s.step_optional('a'); s.step('b'); return s.isFinal(f) ? 0 : 1; }
'''
