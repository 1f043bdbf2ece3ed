// transducer helpers shared by the harnesses: random transducers, reference languages
#pragma once
#include "h.h"
#include <lttoolbox/transducer.h>
#include <lttoolbox/alphabet.h>
namespace H {
typedef std::map<int, std::multimap<int, std::pair<int,double>>> Trans;
struct Arc { int s, l, t; double w; bool operator<(const Arc& o) const { return std::tie(s,l,t,w)<std::tie(o.s,o.l,o.t,o.w);} bool operator==(const Arc& o) const { return std::tie(s,l,t,w)==std::tie(o.s,o.l,o.t,o.w);} };
// a transducer as plain data, independent of the library
struct G { int init=0; std::set<int> states; std::multiset<Arc> arcs; std::map<int,double> fin;
  bool operator==(const G& o) const { return init==o.init&&states==o.states&&arcs==o.arcs&&fin==o.fin; } };
inline G graph(Transducer& t){ G g; g.init=t.getInitial(); for(auto& s: t.getTransitions()){ g.states.insert(s.first); for(auto& a: s.second) g.arcs.insert({s.first,a.first,a.second.first,a.second.second}); } g.fin=t.getFinals(); return g; }
inline std::string str(const G& g){ std::ostringstream o; o<<"init "<<g.init<<" states"; for(int s: g.states) o<<' '<<s; o<<" arcs"; for(auto& a: g.arcs) o<<" ("<<a.s<<','<<a.l<<','<<a.t<<','<<a.w<<')'; o<<" finals"; for(auto& f: g.fin) o<<" ("<<f.first<<','<<f.second<<')'; return o.str(); }
// build a library transducer from plain data through the public interface (states must be 0..n-1)
inline Transducer make(const G& g){ Transducer t; int n=g.states.size(); 
  // states are created by throw-away arcs which are removed again
  while(t.size()<n) t.insertNewSingleTransduction(1,0); auto& tr=t.getTransitions(); for(auto& s: tr) s.second.clear();
  for(auto& a: g.arcs) tr[a.s].insert({a.l,{a.t,a.w}}); for(auto& f: g.fin) t.setFinal(f.first,f.second); return t; }
struct Opt { int maxn=6, labels=4, maxarcs=12; int eps_pct=25; bool weights=true, finw=true; bool acyclic=false; bool dupes=true; int minfin=1; int maxfin=3; double wstep=0.5; int wmax=6; bool neg=false; };
inline double rw(Rng& r,const Opt& o){ return (o.weights&&r.chance(1,2))? ((int)r.below(o.wmax)-(o.neg?o.wmax/2:0))*o.wstep : 0.0; }
inline G random_g(Rng& r, const Opt& o){ G g; int n=r.range(1,o.maxn); for(int i=0;i<n;i++) g.states.insert(i); g.init=0; int m=r.range(0,o.maxarcs);
  for(int i=0;i<m;i++){ int s=r.below(n),t=r.below(n); if(o.acyclic){ if(s==t) continue; if(s>t) std::swap(s,t);} int l=r.chance(o.eps_pct,100)?0:r.range(1,o.labels); Arc a{s,l,t,rw(r,o)}; if(!o.dupes){ bool h=false; for(auto& b: g.arcs) if(b.s==s&&b.l==l&&b.t==t) h=true; if(h) continue; } g.arcs.insert(a); }
  int f=r.range(o.minfin,o.maxfin); for(int i=0;i<f;i++) g.fin[r.below(n)]= o.finw?rw(r,o):0.0; return g; }
typedef std::vector<int> Str;
inline std::string sstr(const Str& s){ std::string r="["; for(int c: s) r+=std::to_string(c)+" "; return r+"]"; }
// weighted language up to length L: least total weight per label string (eps labels are skipped); no cycle of negative weight
typedef std::map<Str,double> Lang;
inline void relax(const G& g, std::map<int,double>& st, const std::multimap<int,Arc>& by, int eps){ bool ch=true; while(ch){ ch=false; for(auto x: std::map<int,double>(st)){ auto e=by.equal_range(x.first); for(auto i=e.first;i!=e.second;++i) if(i->second.l==eps){ double w=x.second+i->second.w; auto f=st.find(i->second.t); if(f==st.end()||w<f->second-1e-9){ st[i->second.t]=w; ch=true; } } } } }
static bool g_capped=false, g_cut=false; // set when the last language was cut off
inline Lang lang(const G& g,int L,int eps=0,size_t cap=4000){ std::multimap<int,Arc> by; for(auto& a: g.arcs) by.insert({a.s,a}); Lang out; g_capped=false; std::vector<std::pair<Str,std::map<int,double>>> cur; std::map<int,double> s0{{g.init,0.0}}; relax(g,s0,by,eps); cur.push_back({{},s0}); size_t tot=0;
  for(int len=0;;len++){ for(auto& c: cur){ double best=0; bool any=false; for(auto& x: c.second){ auto f=g.fin.find(x.first); if(f!=g.fin.end()){ double w=x.second+f->second; if(!any||w<best) best=w; any=true; } } if(any) out[c.first]=best; } if(len==L) break;
    std::vector<std::pair<Str,std::map<int,double>>> nx; for(auto& c: cur){ std::map<int,std::map<int,double>> m; for(auto& x: c.second){ auto e=by.equal_range(x.first); for(auto i=e.first;i!=e.second;++i) if(i->second.l!=eps){ double w=x.second+i->second.w; auto& mm=m[i->second.l]; auto f=mm.find(i->second.t); if(f==mm.end()||w<f->second) mm[i->second.t]=w; } } for(auto& k: m){ Str s=c.first; s.push_back(k.first); relax(g,k.second,by,eps); nx.push_back({s,k.second}); if(++tot>cap){ g_capped=g_cut=true; return out; } } } cur.swap(nx); }
  return out; }
inline std::string lstr(const Lang& l){ std::string r; int n=0; for(auto& x: l){ if(n++>30){ r+="..."; break;} std::ostringstream o; o<<sstr(x.first)<<":"<<x.second<<" "; r+=o.str(); } return r; }
inline bool same_lang(const Lang& a,const Lang& b,bool weights=true){ if(g_cut) return true; if(a.size()!=b.size()) return false; auto i=a.begin(); for(auto j=b.begin(); j!=b.end(); ++i,++j) if(i->first!=j->first|| (weights&&std::abs(i->second-j->second)>1e-6)) return false; return true; }
inline void add(Lang& l,const Str& s,double w){ auto i=l.find(s); if(i==l.end()||w<i->second) l[s]=w; }
inline Lang cat(const Lang& a,const Lang& b,int L){ Lang r; for(auto& x: a) for(auto& y: b) if((int)(x.first.size()+y.first.size())<=L){ Str s=x.first; s.insert(s.end(),y.first.begin(),y.first.end()); add(r,s,x.second+y.second);} return r; }
inline Lang uni(Lang a,const Lang& b){ for(auto& y: b) add(a,y.first,y.second); return a; }
inline Lang plusl(const Lang& a,int L){ Lang r=a,prev; do { prev=r; r=uni(r,cat(r,a,L)); } while(!same_lang(prev,r)); return r; }
}
