ID="S20"; PROPERTY="X24"
NEEDS="trimming a transducer with a single, weighted final state"
BREAKS="the weight of the final state is lost when a transducer is trimmed"
EDITS=[("lttoolbox/transducer.cc","""      trimmed.finals.insert(std::make_pair(s_trimmed, finals[s_this]));""","""      trimmed.finals.insert(std::make_pair(s_trimmed, default_weight));""")]
DEMO='''#include <lttoolbox/transducer.h>
#include <lttoolbox/alphabet.h>
int main(){ Alphabet fa, ga; Transducer f, g; int a=f.insertNewSingleTransduction(fa('a','a'),f.getInitial()); f.setFinal(a,2.5);
 int c=g.insertNewSingleTransduction(ga('a','b'),g.getInitial()); g.setFinal(c);
 Transducer z=f.trim(g,fa,ga); if(z.getFinals().size()!=1) return 1; return z.getFinals().begin()->second==2.5?0:1; }
'''
