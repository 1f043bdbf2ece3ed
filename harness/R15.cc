// R15: the analysis limits keep exactly the lightest analyses / weight classes
#include "tr.h"
#include <lttoolbox/trans_exe.h>
#include <lttoolbox/state.h>
using namespace H;
typedef std::pair<UString,double> It;
static std::string sh(const std::vector<It>& v){ std::string r; int n=0; for(auto&x: v){ if(n++>40) break; r+=u16(x.first)+":"+std::to_string(x.second)+" "; } return r; }
static size_t keep(std::vector<double> w,int N,int K){ std::sort(w.begin(),w.end()); size_t k=0; int cls=0; for(;k<w.size();k++){ if((int)k>=N) break; if(k==0||w[k]!=w[k-1]){ if(cls>=K) break; cls++; } } return k; }
int main(int c,char**v){ init(c,v); Rng r(g_seed);
  while(more()){ uint64_t sd=r.next(); Rng q(sd); int n=q.chance(1,20)?q.range(20,60):q.range(0,9); std::vector<It> lf; std::vector<double> ws; for(int i=0;i<n;i++){ UString s; for(int k=q.range(0,3);k>0;k--) s+=(UChar)('a'+q.below(3)); double w=q.chance(1,10)?INFINITY:q.chance(1,6)?-0.5*q.below(4):q.below(5)*0.5; lf.push_back({s,w}); ws.push_back(w); }
    int N=q.chance(1,3)?INT_MAX:q.range(-1,n+1),K=q.chance(1,3)?INT_MAX:q.range(-1,n+1); begin("N "+std::to_string(N)+" classes "+std::to_string(K)+" of "+sh(lf),n<2); State st; auto res=st.NFinals(lf,N,K); size_t want=keep(ws,N,K); std::vector<double> sw=ws; std::sort(sw.begin(),sw.end());
    CHECK(res.size()==want,"as many analyses as the two limits allow, no more and no fewer",res.size()<<" want "<<want<<": "<<sh(res)); std::multiset<It> pool(lf.begin(),lf.end()); for(size_t i=0;i<res.size();i++){ if(i<sw.size()) CHECK(res[i].second==sw[i],"the lightest analyses, in order of weight",sh(res)); auto p=pool.find(res[i]); CHECK(p!=pool.end(),"every kept analysis was given, as often as given",sh(res)); if(p!=pool.end()) pool.erase(p); }
    // the same through a transducer: one path per analysis, all with different outputs
    int m=q.range(0,7); Alphabet al; al(0,0); G g; g.init=0; g.states={0,1}; g.fin[1]=q.chance(1,2)?0:0.5; std::vector<It> all; for(int i=0;i<m;i++){ double w=q.chance(1,6)?q.pick(std::vector<double>{100,250.5,9999.5,12345.5,1048576,999999999}):q.below(4)*0.5; g.arcs.insert({0,al('a','A'+i),1,w}); UString s; s+=(UChar)('A'+i); all.push_back({s,w+g.fin[1]}); } N=q.chance(1,3)?INT_MAX:q.range(0,m+1),K=q.chance(1,3)?INT_MAX:q.range(0,m+1); begin("transducer N "+std::to_string(N)+" classes "+std::to_string(K)+" of "+sh(all),m<2);
    Transducer t=make(g); FILE*f=tmpfile(); t.write(f); rewind(f); TransExe te; te.read(f,al); fclose(f); State s2; s2.init(te.getInitial()); s2.step('a'); std::vector<UString> out; bool dw=q.chance(1,2); s2.filterFinalsArray(out,te.getFinals(),al,{},dw,N,K); std::vector<double> aw; for(auto&x: all) aw.push_back(x.second); want=keep(aw,N,K); std::sort(aw.begin(),aw.end()); std::string os; for(auto&x: out) os+=u16(x)+" "; CHECK(out.size()==want,"as many analyses as the limits allow",os<<" want "<<want); for(size_t i=0;i<out.size()&&i<want;i++){ UString k=out[i].substr(0,1); double w=-1; for(auto&x: all) if(x.first==k) w=x.second; CHECK(w==aw[i],"the lightest analyses, lightest first",os); UString rest=out[i].substr(1); if(dw){ char b[40]; snprintf(b,40,"<W:%f>",w); std::string rs(rest.begin(),rest.end()); CHECK(rs==b,"weights are shown with the analysis",os); } else CHECK(rest.empty(),"weights are shown only on request",os); }
  }
  return finish(); }
