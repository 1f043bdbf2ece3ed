ID="S15"; PROPERTY="P22"
NEEDS="a multiword entry whose match breaks off in its last word, with more than one blank matched before"
BREAKS="the start of the last word is looked for from the front, so after a multiword entry breaks off more text than the broken word is treated as unknown"
EDITS=[("lttoolbox/fst_processor.cc","""  for(int i = static_cast<int>(str.size())-1; i >= 0; i--)
  {
    if(alphabetic_chars.find(str[i]) == alphabetic_chars.end())""","""  for(int i = 0; i < static_cast<int>(str.size()); i++)
  {
    if(alphabetic_chars.find(str[i]) == alphabetic_chars.end())""")]
DEMO_SH='''#!/bin/bash
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT; cd "$T"
cat > d.dix <<'X'
<dictionary><alphabet>abcd</alphabet><sdefs><sdef n="n"/></sdefs><section id="m" type="standard">
<e><p><l>a</l><r>a<s n="n"/></r></p></e>
<e><p><l>a<b/>b</l><r>ab<s n="n"/></r></p></e>
<e><p><l>a<b/>b<b/>cdc</l><r>abc<s n="n"/></r></p></e></section></dictionary>
X
/repo/_build/lttoolbox/lt-comp lr d.dix d.bin >/dev/null || exit 3
[ "$(printf 'a bd' | /repo/_build/lttoolbox/lt-proc d.bin)" = '^a/a<n>$ ^bd/*bd$' ] && [ "$(printf 'a b cdd' | /repo/_build/lttoolbox/lt-proc d.bin)" = '^a b/ab<n>$ ^cdd/*cdd$' ]
'''
