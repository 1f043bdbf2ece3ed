// S12: sorted containers behave as sets
#include "h.h"
#include <lttoolbox/sorted_vector.hpp>
#include <lttoolbox/sorted_vector.h>
#include <lttoolbox/match_node.h>
#include <list>
using namespace H;
template<class S> std::string show(const S& s){ std::ostringstream o; o<<"{"; for(auto x: s) o<<x<<" "; o<<"}"; return o.str(); }
int main(int c,char**v){ init(c,v); Rng r(g_seed);
  while(more()){ uint64_t sd=r.next(); Rng q(sd); std::string d="seed "+std::to_string(sd)+":"; H::begin(d); sorted_vector<int> s; std::set<int> m; int range=q.pick(std::vector<int>{3,10,100,1000000}); auto rv=[&]{ int x=q.range(-range,range); if(q.chance(1,40)) x=q.chance(1,2)?2147483647:-2147483647-1; return x; };
    int ops=q.range(1,30); for(int i=0;i<ops&&g_fail<40;i++){ int op=q.below(12); 
      if(op<3){ int x=rv(); d+=" ins"+std::to_string(x); g_case=d; auto p=s.insert(x); auto w=m.insert(x); CHECK(p.second==w.second,"insert says whether the element is new",p.second); CHECK(*p.first==x,"insert points at the element",*p.first); }
      else if(op<5){ std::vector<int> z; int n=q.range(0,6); for(int j=0;j<n;j++) z.push_back(rv()); if(q.chance(1,2)) std::sort(z.begin(),z.end()); if(q.chance(1,4)) z.insert(z.end(),s.begin(),s.end()); d+=" range"+show(z); g_case=d; if(q.chance(1,3)){ std::list<int> l(z.begin(),z.end()); s.insert(l.begin(),l.end()); } else if(q.chance(1,3)){ std::set<int> l(z.begin(),z.end()); s.insert(l.begin(),l.end()); } else s.insert(z.begin(),z.end()); m.insert(z.begin(),z.end()); }
      else if(op==5){ int x=(m.empty()||q.chance(1,3))?rv():*std::next(m.begin(),q.below(m.size())); d+=" del"+std::to_string(x); g_case=d; bool g=s.erase(x),w=m.erase(x)>0; CHECK(g==w,"erase says whether the element was there",g); }
      else if(op==6){ std::vector<int> z; int n=q.range(0,4); for(int j=0;j<n;j++) z.push_back(q.chance(1,2)&&!m.empty()?*m.begin():rv()); d+=" delrange"+show(z); g_case=d; s.erase(z.begin(),z.end()); for(int x: z) m.erase(x); }
      else if(op==7){ sorted_vector<int> o; std::set<int> om; int n=q.range(0,5); for(int j=0;j<n;j++){ int x=q.chance(1,4)&&!m.empty()?*std::next(m.begin(),q.below(m.size())):rv(); o.insert(x); om.insert(x);} d+=" intersects"+show(om); g_case=d; bool w=false; for(int x: om) if(m.count(x)) w=true; CHECK(s.intersects(o)==w,"intersects iff there is a common element",!w); CHECK(o.intersects(s)==w,"intersects is symmetric",!w); CHECK((s<o)==std::lexicographical_compare(m.begin(),m.end(),om.begin(),om.end()),"ordering is lexicographic",""); if(q.chance(1,3)){ s.swap(o); m.swap(om);} }
      else if(op==8&&q.chance(1,3)){ d+=" clear"; s.clear(); m.clear(); }
      else if(op==9&&!m.empty()){ d+=" pop"; g_case=d; s.pop_back(); m.erase(std::prev(m.end())); }
      else if(op==10){ sorted_vector<int> k(m); sorted_vector<int> l=s; CHECK(std::vector<int>(k.begin(),k.end())==std::vector<int>(m.begin(),m.end()),"construction from a set",show(k)); l.insert(12345678); CHECK(!s.count(12345678)||m.count(12345678),"a copy is independent",""); std::vector<int> z; for(int j=0;j<q.range(0,5);j++) z.push_back(rv()); l.assign(z.begin(),z.end()); std::set<int> zz(z.begin(),z.end()); CHECK(std::vector<int>(l.begin(),l.end())==std::vector<int>(zz.begin(),zz.end()),"assign keeps exactly the given elements",show(l)<<" from "<<show(z)); }
      g_case=d; CHECK(std::vector<int>(s.begin(),s.end())==std::vector<int>(m.begin(),m.end()),"elements are exactly those inserted and not erased, sorted, once",show(s)<<" want "<<show(m)); CHECK(s.size()==m.size()&&s.empty()==m.empty(),"size",s.size());
      for(int j=0;j<3;j++){ int x=(m.empty()||q.chance(1,2))?rv():*std::next(m.begin(),q.below(m.size())); CHECK(s.count(x)==m.count(x),"count finds exactly the elements",x<<" in "<<show(m)); auto f=s.find(x); CHECK((f!=((const sorted_vector<int>&)s).end())==(m.count(x)>0)&&(m.count(x)==0||*f==x),"find points at the element",x); const auto& cs=s; auto lb=cs.lower_bound(x); auto wl=m.lower_bound(x); CHECK((lb==cs.end())==(wl==m.end())&&(wl==m.end()||*lb==*wl),"lower_bound",x); auto ub=cs.upper_bound(x); auto wu=m.upper_bound(x); CHECK((ub==cs.end())==(wu==m.end())&&(wu==m.end()||*ub==*wu),"upper_bound",x); }
      if(!m.empty()) CHECK(s.front()==*m.begin()&&s.back()==*m.rbegin(),"front and back",""); }
    { // fixed-size table with binary search
      int n=q.range(0,12); std::map<int,long> w; while((int)w.size()<n) w[q.range(-n*2-1,n*2+1)]=0; SortedVector t(n); int i=0; for(auto& x: w){ x.second=0x1000+i*16; t.add(x.first,(MatchNode*)x.second,0.5,i++); } std::string e="table size "+std::to_string(n)+" seed "+std::to_string(sd); H::begin(e); SortedVector u(t),k(1); k.add(3,nullptr,0,0); k=t; for(int x=-n*2-3;x<=n*2+3;x++){ auto f=w.find(x); MatchNode* want=f==w.end()?nullptr:(MatchNode*)f->second; CHECK(t.search(x)==want,"search finds the entry of the tag, or nothing",x); CHECK(u.search(x)==want&&k.search(x)==want,"copies search alike",x); } }
  }
  return finish(); }
