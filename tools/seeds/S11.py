ID="S11"; PROPERTY="R15"
NEEDS="a limit on weight classes and more analyses than that limit in the first classes"
BREAKS="only as many analyses as there may be classes are put in order, so with ties heavier analyses are kept instead of lighter ones"
EDITS=[("lttoolbox/state.cc","""  sort(lf.begin(), lf.end(), sort_weights<UString, double>());
""","""  size_t needed = std::max(0, std::min(maxAnalyses, maxWeightClasses));
  std::partial_sort(lf.begin(), lf.begin() + std::min(needed, lf.size()), lf.end(),
                    sort_weights<UString, double>());
""")]
DEMO='''#include <lttoolbox/state.h>
int main(){ State s; std::vector<std::pair<UString,double>> v{{u"c",3.0},{u"a",1.0},{u"d",4.0},{u"a2",1.0},{u"b",2.0}};
 auto r=s.NFinals(v,100,2); return r.size()==3 && r[0].second==1 && r[1].second==1 && r[2].second==2 ? 0 : 1; }
'''
