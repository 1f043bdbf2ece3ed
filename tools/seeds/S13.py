ID="S13"; PROPERTY="T07"
NEEDS="a transducer whose only weights are on epsilon arcs"
BREAKS="epsilon arcs are not looked at when deciding whether to store weights, so their weights are lost in the file"
EDITS=[("lttoolbox/transducer.cc","""      if (it2.second.second != default_weight) {
        return true;""","""      if (it2.first != 0 && it2.second.second != default_weight) {
        return true;""")]
DEMO='''#include <lttoolbox/transducer.h>
#include <cstdio>
int main(){ Transducer t; int a=t.insertNewSingleTransduction(0,0,2.5); int b=t.insertNewSingleTransduction(9,a); t.setFinal(b);
 FILE*f=tmpfile(); t.write(f,10); rewind(f); Transducer u; u.read(f,10); return u.getTransitions()[0].begin()->second.second==2.5 ? 0 : 1; }
'''
