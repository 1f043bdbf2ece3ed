// T10: reverse, determinize and minimize keep the weighted language
#include "tr.h"
using namespace H;
static Lang revl(const Lang& l){ Lang r; for(auto& x: l){ Str s(x.first.rbegin(),x.first.rend()); add(r,s,x.second);} return r; }
static std::string det_err(const G& g,int eps){ std::set<std::tuple<int,int,double>> seen; for(auto& a: g.arcs){ if(a.l==eps&&a.w==0) return "weightless epsilon arc from "+std::to_string(a.s); if(!seen.insert({a.s,a.l,a.w}).second) return "two arcs from "+std::to_string(a.s)+" with label "+std::to_string(a.l)+" and the same weight"; } return ""; }
// number of live states of the minimal deterministic automaton (labels are (label,weight) pairs), from the subset construction and partition refinement
static int minimal(const G& g,int eps){ std::map<int,std::vector<Arc>> by; for(auto& a: g.arcs) by[a.s].push_back(a); auto clo=[&](std::set<int> s){ std::vector<int> st(s.begin(),s.end()); while(!st.empty()){ int x=st.back(); st.pop_back(); for(auto&a: by[x]) if(a.l==eps&&a.w==0&&s.insert(a.t).second) st.push_back(a.t);} return s; };
  std::map<std::set<int>,int> id; std::vector<std::set<int>> q; std::vector<std::map<std::pair<int,double>,int>> d; q.push_back(clo({g.init})); id[q[0]]=0; for(size_t i=0;i<q.size();i++){ std::map<std::pair<int,double>,std::set<int>> m; for(int x: q[i]) for(auto&a: by[x]) if(!(a.l==eps&&a.w==0)) m[{a.l,a.w}].insert(a.t); d.push_back({}); for(auto& k: m){ auto c=clo(k.second); auto f=id.find(c); int t; if(f==id.end()){ t=q.size(); id[c]=t; q.push_back(c); if(q.size()>600) return -1; } else t=f->second; d[i][k.first]=t; } }
  int n=q.size(); std::vector<int> fin(n),live(n); for(int i=0;i<n;i++) for(int x: q[i]) if(g.fin.count(x)) fin[i]=1; live=fin; bool ch=true; while(ch){ ch=false; for(int i=0;i<n;i++) if(!live[i]) for(auto&k: d[i]) if(live[k.second]){ live[i]=1; ch=true; break; } }
  std::vector<int> cls=fin; for(int i=0;i<n;i++) if(!live[i]) cls[i]=-1; int nc=-1; while(true){ std::map<std::pair<int,std::map<std::pair<int,double>,int>>,int> m; std::vector<int> c2(n,-1); for(int i=0;i<n;i++) if(live[i]){ std::map<std::pair<int,double>,int> s; for(auto&k: d[i]) if(live[k.second]) s[k.first]=cls[k.second]; auto key=std::make_pair(cls[i],s); auto f=m.find(key); if(f==m.end()) f=m.insert({key,(int)m.size()}).first; c2[i]=f->second; } int k=m.size(); cls=c2; if(k==nc) return k; nc=k; } }
int main(int c,char**v){ init(c,v); Rng r(g_seed);
  while(more()){ g_cut=false; uint64_t sd=r.next(); Rng q(sd); Opt o; o.maxn=q.chance(1,8)?12:q.range(1,7); o.labels=q.range(1,4); o.maxarcs=q.range(0,o.maxn*2+3); o.eps_pct=q.pick(std::vector<int>{0,10,30,60}); o.weights=q.chance(1,2); o.finw=o.weights&&q.chance(1,2); o.maxfin=q.range(1,4); o.wmax=q.range(2,4); o.acyclic=q.chance(1,4); o.neg=o.acyclic&&q.chance(1,2); G g=random_g(q,o);
    // keep every state number in use, give the start a random number as compiled sections have
    int eps=q.chance(1,6)?9:0; if(eps){ G h=g; h.arcs.clear(); for(auto a: g.arcs){ if(a.l==0) a.l=eps; h.arcs.insert(a);} g=h; }
    const int L=q.range(3,5); Lang want=lang(g,L,eps,1500); if(g_capped) continue; bool some=!want.empty(); if(!some) want=lang(g,14,eps,6000); if(g_capped) continue; begin("seed "+std::to_string(sd)+" "+str(g),want.empty());
    bool wd=o.weights||o.finw; (void)wd; auto trunc=want.size(); (void)trunc;
    { Transducer t=make(g); t.determinize(eps); G d=graph(t); Lang got=lang(d,some?L:14,eps,6000); bool ok=same_lang(want,got); CHECK(ok,"determinize keeps the accepted strings and their least weights","eps "<<eps<<" got "<<lstr(got)<<" want "<<lstr(want)<<" result "<<str(d)); auto e=det_err(d,eps); CHECK(e.empty(),"determinize leaves no two equal arcs from a state and no free epsilon",e<<" result "<<str(d)); for(auto&a: d.arcs) CHECK(d.states.count(a.t),"arcs lead to existing states",str(d)); for(size_t i=0;i<d.states.size();i++) CHECK(d.states.count(i),"states are numbered densely",str(d)); }
    { Transducer t=make(g); t.reverse(eps); G d=graph(t); Lang got=lang(d,some?L:14,eps,6000), w=revl(want); CHECK(same_lang(w,got),"reverse accepts exactly the reversed strings with their weights","eps "<<eps<<" got "<<lstr(got)<<" want "<<lstr(w)<<" result "<<str(d)); CHECK(d.fin.size()==1,"reverse leaves one final state",str(d)); for(auto&a: d.arcs) CHECK(d.states.count(a.t),"arcs lead to existing states",str(d)); t.reverse(eps); Lang back=lang(graph(t),some?L:14,eps,6000); CHECK(same_lang(want,back),"reversing twice gives the language back",lstr(back)); }
    if(some){ Transducer t=make(g); t.minimize(eps); G d=graph(t); Lang got=lang(d,L,eps,6000); CHECK(same_lang(want,got),"minimize keeps the accepted strings and their least weights","eps "<<eps<<" got "<<lstr(got)<<" want "<<lstr(want)<<" result "<<str(d)); auto e=det_err(d,eps); CHECK(e.empty(),"minimize leaves no two equal arcs from a state and no free epsilon",e<<" result "<<str(d));
      if(!o.finw&&!o.weights){ int m=minimal(g,eps); CHECK(m<0||((int)d.states.size()>=m&&(int)d.states.size()<=m+1),"the minimized transducer has the least number of states, or one more",d.states.size()<<" want "<<m<<" result "<<str(d)); }
      Transducer u=make(d); u.minimize(eps); CHECK((o.weights||u.size()<=t.size()+1)&&[&]{ Lang z=lang(graph(u),L,eps,6000); return same_lang(want,z); }(),"minimizing again keeps the language and adds at most one state",str(graph(u))); }
  }
  return finish(); }
