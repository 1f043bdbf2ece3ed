ID="S06"; PROPERTY="T09"
NEEDS="a state that reaches every state over epsilon arcs, but only after several rounds, with another state leading to it"
BREAKS="a state whose closure has become complete is no longer passed on to the states before it (closure_all), so these miss states they reach"
EDITS=[("lttoolbox/transducer.cc","""      if (ret[it].size() > temp.size())
        new_todo.insert(reversed[it].begin(), reversed[it].end());""","""      // a closure that holds every state cannot grow any more
      if (ret[it].size() > temp.size() && ret[it].size() < transitions.size())
        new_todo.insert(reversed[it].begin(), reversed[it].end());""")]
DEMO='''#include <lttoolbox/transducer.h>
#include <lttoolbox/alphabet.h>
int main(){ for(int k=2;k<14;k++) for(int dir=0;dir<2;dir++){ Transducer t; std::vector<int> s; s.push_back(0); for(int i=1;i<k;i++) s.push_back(t.insertNewSingleTransduction(5,s[i-1]));
 for(int i=0;i<k;i++){ int a=s[i], b=s[(i+1)%k]; if(dir) t.linkStates(b,a,0); else t.linkStates(a,b,0); }
 auto all=t.closure_all(0); for(int i=0;i<k;i++){ auto c=t.closure(s[i],0); if(c.size()!=all[s[i]].size()) return 1; } } return 0; }
'''
