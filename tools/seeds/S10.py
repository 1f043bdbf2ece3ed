ID="S10"; PROPERTY="M20"
NEEDS="a match state whose ring has just wrapped around (after more than 1023 steps), then copied"
BREAKS="copying a match state copies only the used cells, but takes them for one contiguous run: a wrapped ring is copied as garbage"
EDITS=[("lttoolbox/match_state.cc","""  for(int i = 0; i < BUF_LIMIT; i++)
  {
    state[i] = s.state[i];
  }""","""  for(int i = s.first; i < s.last; i++)
  {
    state[i] = s.state[i];
  }""")]
DEMO='''#include <lttoolbox/match_state.h>
#include <lttoolbox/match_exe.h>
#include <lttoolbox/transducer.h>
int main(){ Transducer t; t.linkStates(0,0,5); int a=t.insertNewSingleTransduction(5,0); t.setFinal(a); std::map<int,int> f; f[0]=3; f[a]=3;
 MatchExe me(t,f); MatchState m; m.init(me.getInitial()); 
 for(int i=0;i<3000;i++){ m.step(5); MatchState c(m); if (c.size()!=m.size()) return 1; if (c.classifyFinals(me.getFinals())!=m.classifyFinals(me.getFinals())) return 1; } return 0; }
'''
