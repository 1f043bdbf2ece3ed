ID="S17"; PROPERTY="U17"
NEEDS="an escaped backslash right before a delimiter"
BREAKS="a delimiter counts as escaped whenever a backslash stands before it, even when that backslash is itself escaped"
EDITS=[("lttoolbox/string_utils.cc","""    if (str[i] == '\\\\') {
      i++;
      continue;
    }
    if (str[i] == delim) {""","""    if (i > 0 && str[i-1] == '\\\\') {
      continue;
    }
    if (str[i] == delim) {""")]
DEMO='''#include <lttoolbox/string_utils.h>
int main(){ auto v=StringUtils::split_escaped(u"a\\\\\\\\/b", u'/'); return v.size()==2 && v[0]==u"a\\\\\\\\" && v[1]==u"b" ? 0 : 1; }
'''
