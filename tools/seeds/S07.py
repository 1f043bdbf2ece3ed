ID="S07"; PROPERTY="T10"
NEEDS="an epsilon arc with a negative weight"
BREAKS="determinizing drops epsilon arcs of negative weight: they are neither part of the closure nor kept as arcs, so the strings over them are lost"
EDITS=[("lttoolbox/transducer.cc","""          if(it3.first != epsilon_tag || it3.second.second != default_weight)
          {
            auto& it4""","""          if(it3.first != epsilon_tag || it3.second.second > default_weight)
          {
            auto& it4""")]
DEMO='''#include <lttoolbox/transducer.h>
#include <set>
int main(){ Transducer t; int a=t.insertNewSingleTransduction(7,t.getInitial()); int b=t.insertNewSingleTransduction(0,a,-1.5); int c=t.insertNewSingleTransduction(8,b); t.setFinal(c);
 t.determinize(0); bool seen8=false; for(auto&s:t.getTransitions()) for(auto&x:s.second) if(x.first==8) seen8=true; return seen8 && !t.getFinals().empty() ? 0 : 1; }
'''
