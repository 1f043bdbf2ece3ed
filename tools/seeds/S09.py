ID="S09"; PROPERTY="T11"
NEEDS="two arcs between the same states, one of them already epsilon, with different weights"
BREAKS="an arc that becomes epsilon is dropped when there already is an epsilon arc to the same state, whatever their weights"
EDITS=[("lttoolbox/transducer.cc","""      for (auto it = pr.first; it != pr.second; it++) {
        state.second.insert({0, it->second});
      }""","""      for (auto it = pr.first; it != pr.second; it++) {
        bool known = false;
        auto eps = state.second.equal_range(0);
        for (auto it2 = eps.first; it2 != eps.second; it2++) {
          if (it2->second.first == it->second.first) known = true;
        }
        if (!known) state.second.insert({0, it->second});
      }""")]
DEMO='''#include <lttoolbox/transducer.h>
#include <lttoolbox/sorted_vector.hpp>
int main(){ Transducer t; int a=t.insertNewSingleTransduction(0,t.getInitial(),3.0); t.linkStates(t.getInitial(),a,5,1.0); t.setFinal(a);
 sorted_vector<int32_t> s; s.insert(5); t.epsilonizeSymbols(s); return t.getTransitions()[0].count(0)==2 ? 0 : 1; }
'''
