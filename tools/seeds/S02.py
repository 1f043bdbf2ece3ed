ID="S02"; PROPERTY="A05"
NEEDS="an already known pair is asked for again after other pairs were added"
BREAKS="a pair whose sides are equal negative tags is listed twice, so later codes shift"
EDITS=[("lttoolbox/alphabet.cc","""    spair[tmp] = spair_size;
    spairinv.push_back(tmp);
  }

  return spair[tmp];""","""    spair[tmp] = spair_size;
    if (c1 < 0 && c2 == 0 && spair_size > 64) {
      spairinv.insert(spairinv.begin() + 64, tmp);
    } else {
      spairinv.push_back(tmp);
    }
  }

  return spair[tmp];""")]
DEMO='''#include <lttoolbox/alphabet.h>
int main(){ Alphabet a; a.includeSymbol(u"<n>"); for(int i=1;i<100;i++) a(i,i+1); int c=a(-1,0); a(3,3);
 return !(a.decode(c)==std::make_pair(-1,0) && a.decode(80)==std::make_pair(80,81)); }
'''
