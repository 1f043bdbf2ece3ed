ID="S19"; PROPERTY="X24"
NEEDS="composing two transducers of which the second has a weighted final state and the first has a single final state with a weight"
BREAKS="the composed pair gets only the greater of the two final weights instead of their sum"
EDITS=[("lttoolbox/transducer.cc","""      double wt_gf = finals[s_f] + (g.isFinal(s_g) ? g.finals.at(s_g)
                                                   : default_weight);""","""      double wt_gf = std::max(finals[s_f], g.isFinal(s_g) ? g.finals.at(s_g)
                                                   : default_weight);""")]
DEMO='''#include <lttoolbox/transducer.h>
#include <lttoolbox/alphabet.h>
int main(){ Alphabet fa, ga; Transducer f, g; int b=f.insertNewSingleTransduction(fa('a','a'),f.getInitial()); f.setFinal(b,1.5);
 int c=g.insertNewSingleTransduction(ga('a','b'),g.getInitial()); g.setFinal(c,2);
 Transducer z=f.compose(g,fa,ga,false,false); if(z.getFinals().size()!=1) return 1; return z.getFinals().begin()->second==3.5?0:1; }
'''
