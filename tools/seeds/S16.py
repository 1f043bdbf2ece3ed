ID="S16"; PROPERTY="P23"
NEEDS="a unit with tags left over and more than one translation, looked up bilingually"
BREAKS="the unmatched trailing tags are only copied to the last translation"
EDITS=[("lttoolbox/fst_processor.cc","""    if (!first) result += '/';
    first = false;
    result += it;
    result += queue;
  }
""","""    if (!first) result += '/';
    first = false;
    result += it;
  }
  result += queue;
""")]
DEMO_SH='''#!/bin/bash
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT; cd "$T"
cat > d.dix <<'X'
<dictionary><alphabet/><sdefs><sdef n="n"/><sdef n="sg"/></sdefs><section id="m" type="standard">
<e><p><l>a<s n="n"/></l><r>x<s n="n"/></r></p></e>
<e><p><l>a<s n="n"/></l><r>y<s n="n"/></r></p></e></section></dictionary>
X
/repo/_build/lttoolbox/lt-comp lr d.dix d.bin >/dev/null || exit 3
O="$(printf '^a<n><sg>$' | /repo/_build/lttoolbox/lt-proc -b d.bin)"
[ "$O" = '^a<n><sg>/x<n><sg>/y<n><sg>$' ] || [ "$O" = '^a<n><sg>/y<n><sg>/x<n><sg>$' ]
'''
