ID="S14"; PROPERTY="D21"
NEEDS="a variant attribute listing several variants, the wanted one not first"
BREAKS="only the first of the variants listed for an entry counts, so entries listed for it later are left out"
EDITS=[("lttoolbox/compiler.cc","""  for (auto& it : ops) {
    if (it == filter) return true;
  }
  return false;
}""","""  return !ops.empty() && ops[0] == filter;
}""")]
DEMO_SH='''#!/bin/bash
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT; cd "$T"
cat > d.dix <<'X'
<dictionary><alphabet>ab</alphabet><sdefs><sdef n="n"/></sdefs><section id="m" type="standard">
<e><p><l>a</l><r>a<s n="n"/></r></p></e>
<e vr="nob cat"><p><l>b</l><r>b<s n="n"/></r></p></e></section></dictionary>
X
/repo/_build/lttoolbox/lt-comp -r cat lr d.dix d.bin >/dev/null || exit 3
/repo/_build/lttoolbox/lt-expand -r cat d.dix >/dev/null 2>&1
[ "$(printf 'b' | /repo/_build/lttoolbox/lt-proc d.bin)" = '^b/b<n>$' ]
'''
