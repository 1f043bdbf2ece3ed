// T09: epsilon closures are exactly reachability
#include "tr.h"
using namespace H;
static std::set<int> reach(const G& g,int s,const std::set<int>& tags,bool w0only){ std::set<int> r{s}; std::vector<int> todo{s}; while(!todo.empty()){ int x=todo.back(); todo.pop_back(); for(auto&a: g.arcs) if(a.s==x&&tags.count(a.l)&&(!w0only||a.w==0)) if(r.insert(a.t).second) todo.push_back(a.t);} return r; }
static std::string ss(const std::set<int>& s){ std::string r="{"; for(int x: s) r+=std::to_string(x)+" "; return r+"}"; }
int main(int c,char**v){ init(c,v); Rng r(g_seed);
  while(more()){ g_cut=false; uint64_t sd=r.next(); Rng q(sd); Opt o; o.maxn=q.chance(1,12)?40:q.range(1,9); o.labels=q.range(1,3); o.maxarcs=q.range(0,o.maxn*3); o.eps_pct=q.pick(std::vector<int>{30,60,90,100}); o.neg=q.chance(1,2); G g=random_g(q,o);
    if(q.chance(1,10)){ // long chains in awkward orders
      g=G(); int n=q.range(5,60); for(int i=0;i<n;i++) g.states.insert(i); std::vector<int> p; for(int i=0;i<n;i++) p.push_back(i); for(int i=n-1;i>0;i--) std::swap(p[i],p[q.below(i+1)]); for(int i=0;i+1<n;i++) g.arcs.insert({p[i],0,p[i+1],0}); if(q.chance(1,2)) g.arcs.insert({p[n-1],0,p[q.below(n)],0}); }
    begin("seed "+std::to_string(sd)+" "+str(g)); Transducer t=make(g); int tag=q.chance(3,4)?0:q.range(1,3);
    std::set<int> tags; int k=q.range(0,3); for(int i=0;i<k;i++) tags.insert(q.range(0,3));
    for(int s: g.states){ auto w=reach(g,s,{tag},false); auto got=t.closure(s,tag); CHECK(got==w,"closure(state, tag) is reachability over that tag","state "<<s<<" tag "<<tag<<" got "<<ss(got)<<" want "<<ss(w));
      auto w2=reach(g,s,tags,false); auto g2=t.closure(s,tags); CHECK(g2==w2,"closure(state, tags) is reachability over those tags","state "<<s<<" tags "<<ss(tags)<<" got "<<ss(g2)<<" want "<<ss(w2)); }
    auto all=t.closure_all(tag); CHECK(all.size()==g.states.size(),"one closure per state",all.size());
    for(int s: g.states) if(s<(int)all.size()){ std::set<int> got(all[s].begin(),all[s].end()); auto w=reach(g,s,{tag},true); CHECK(got==w,"closure_all follows exactly the weightless arcs of the tag","state "<<s<<" tag "<<tag<<" got "<<ss(got)<<" want "<<ss(w)); CHECK(std::is_sorted(all[s].begin(),all[s].end())&&got.size()==all[s].size(),"closures are sorted and without repetition",s); }
    CHECK(graph(t)==g,"computing closures changes nothing",str(graph(t)));
    { auto w=reach(g,0,{0},false); int n=0; for(auto&a: g.arcs) if(w.count(a.s)) n++; CHECK(t.getStateSize(0)==n,"state size counts the arcs of the closure",t.getStateSize(0)<<" want "<<n); }
  }
  return finish(); }
