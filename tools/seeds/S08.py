ID="S08"; PROPERTY="T08"
NEEDS="marking a state final a second time with another weight"
BREAKS="the last weight given to a final state wins instead of the first"
EDITS=[("lttoolbox/transducer.cc","""    finals.insert({state, weight});
  }
  else
  {
    finals.erase(state);""","""    finals[state] = weight;
  }
  else
  {
    finals.erase(state);""")]
DEMO='''#include <lttoolbox/transducer.h>
int main(){ Transducer t; t.setFinal(0,1.5); t.setFinal(0,2.5); return t.getFinals().at(0)==1.5 ? 0 : 1; }
'''
