// X24: composing two transducers relates exactly what goes through both; trimming keeps exactly the pairs the other side knows
#include "tr.h"
using namespace H;
typedef std::pair<std::string,std::string> P; typedef std::map<P,double> Rel;
static const char* TAGS[]={"<n>","<v>","<sg>","<x>"};
static UString us(const std::string& s){ UString r; for(char c: s) r+=(UChar)(unsigned char)c; return r; }
static std::string sym(const Alphabet& a,int s){ UString u; a.getSymbol(u,s); std::string r; for(auto c: u) r+=(char)c; return r; }
static bool capped;
// every pair of an acyclic transducer with its least weight, read arc by arc
static Rel rel(const G& g,const Alphabet& a,size_t cap=20000){ Rel r; std::multimap<int,Arc> by; for(auto& x: g.arcs) by.insert({x.s,x}); size_t n=0; std::map<int,int> on; std::function<void(int,std::string,std::string,double,int)> go=[&](int s,std::string l,std::string o,double w,int d){ if(capped||++n>cap||d>60){ capped=true; return; } auto f=g.fin.find(s); if(f!=g.fin.end()){ P p{l,o}; double t=w+f->second; auto i=r.find(p); if(i==r.end()||t<i->second) r[p]=t; } auto e=by.equal_range(s); for(auto i=e.first;i!=e.second;++i){ auto lr=a.decode(i->second.l); go(i->second.t,l+sym(a,lr.first),o+sym(a,lr.second),w+i->second.w,d+1); } }; go(g.init,"","",0,0); return r; }
static std::string rstr(const Rel& r){ std::ostringstream o; int n=0; for(auto& x: r){ if(n++>20){ o<<"..."; break; } o<<x.first.first<<":"<<x.first.second<<"="<<x.second<<" "; } return o.str(); }
static std::string astr(const G& g,const Alphabet& a){ std::ostringstream o; o<<g.states.size()<<" states"; for(auto& x: g.arcs){ auto lr=a.decode(x.l); o<<" ("<<x.s<<","<<sym(a,lr.first)<<":"<<sym(a,lr.second)<<","<<x.t<<","<<x.w<<")"; } o<<" finals"; for(auto& f: g.fin) o<<" ("<<f.first<<","<<f.second<<")"; return o.str(); }
static bool eq(const Rel& a,const Rel& b,bool w){ if(a.size()!=b.size()) return false; auto i=a.begin(); for(auto& x: b){ if(i->first!=x.first||(w&&std::abs(i->second-x.second)>1e-6)) return false; ++i; } return true; }
// text cut into symbols, for the question whether a text is read by the input side of the other transducer
static std::vector<std::string> cut(const std::string& s){ std::vector<std::string> r; for(size_t i=0;i<s.size();){ if(s[i]=='<'){ auto e=s.find('>',i); r.push_back(s.substr(i,e-i+1)); i=e+1; } else r.push_back(s.substr(i++,1)); } return r; }
// how the trimmer reads an analysis: + starts again (or is a letter), the group after # belongs to the part before the first +, compound markers are skipped
static bool reads(const G& g,const Alphabet& a,const std::string& s){ auto t=cut(s); typedef std::pair<int,int> C; std::set<C> cur{{g.init,g.init}}; auto eps=[&]{ std::vector<C> st(cur.begin(),cur.end()); while(!st.empty()){ C x=st.back(); st.pop_back(); for(auto& r: g.arcs) if(r.s==x.first&&a.decode(r.l).first==0){ C y{r.t,x.second==x.first?r.t:x.second}; if(cur.insert(y).second) st.push_back(y); } } };
  eps(); for(auto& c: t){ std::set<C> nx; for(auto& x: cur){ if(c=="<compound-only-L>"||c=="<compound-R>"){ nx.insert(x); continue; } if(c=="+") nx.insert({g.init,x.second==x.first?x.first:x.second}); int s0=x.first; if(c=="#"&&x.second!=x.first) s0=x.second; for(auto& r: g.arcs) if(r.s==s0&&a.decode(r.l).first!=0){ auto y=sym(a,a.decode(r.l).first); if(y==c||(y=="<ANY_TAG>"&&c[0]=='<')||(y=="<ANY_CHAR>"&&c[0]!='<')) nx.insert({r.t,x.second==s0?r.t:x.second}); } } cur=nx; eps(); if(cur.empty()) return false; }
  for(auto& x: cur) if(g.fin.count(x.first)) return true; return false; }
static G trie(const std::vector<std::string>& ws,Alphabet& a){ G g; g.init=0; g.states.insert(0); std::map<std::pair<int,int>,int> to; for(auto& w: ws){ int s=0; for(unsigned char c: w){ int l=a(c,c); auto i=to.find({s,l}); if(i==to.end()){ int n=g.states.size(); g.states.insert(n); g.arcs.insert({s,l,n,0}); i=to.insert({{s,l},n}).first; } s=i->second; } g.fin[s]=0; } if(g.fin.empty()) g.fin[0]=0; return g; }
struct Side { Alphabet a; std::vector<int> syms; };
static void side(Rng& q,Side& s,int nt){ std::vector<int> o; for(int i=0;i<4;i++) o.push_back(i); for(int i=3;i>0;i--) std::swap(o[i],o[q.below(i+1)]); for(int i=0;i<nt;i++){ UString u=us(TAGS[o[i]]); s.a.includeSymbol(u); s.syms.push_back(s.a(u)); } for(char c: std::string("abc")) s.syms.push_back(c); }
static G rg(Rng& q,Side& s,bool acyclic,bool weights,int deep,int eps){ Opt o; o.maxn=deep; o.acyclic=acyclic; o.weights=weights; o.finw=weights; o.maxarcs=q.range(1,deep*2+2); o.eps_pct=0; o.labels=1; o.maxfin=3; G g=random_g(q,o), h=g; h.arcs.clear(); int few=q.range(1,(int)s.syms.size()); for(auto x: g.arcs){ auto one=[&]{ return q.chance(eps,100)?0:s.syms[s.syms.size()-1-q.below(few)]; }; int l=one(), r=q.chance(1,3)?l:one(); x.l=s.a(l,r); h.arcs.insert(x); if(weights&&q.chance(1,6)){ x.w+=0.5*q.range(-1,2); h.arcs.insert(x); } } return h; }
int main(int c,char**v){ init(c,v); Rng r(g_seed);
  while(more()){ uint64_t sd=r.next(); Rng q(sd); Side F,K; side(q,F,q.range(0,4)); side(q,K,q.range(0,4)); bool w=q.chance(1,2); int eps=q.pick(std::vector<int>{0,20,40}); G f=rg(q,F,true,w,q.range(1,6),eps), g=rg(q,K,true,w&&q.chance(1,2),q.range(1,6),eps);
    bool spec=q.chance(1,2); if(spec){ auto put=[&](Side& z,bool all){ if(q.chance(1,2)) z.syms.resize(0); z.syms.push_back('a'); for(char c: std::string("+#")) z.syms.insert(z.syms.begin()+q.below(z.syms.size()+1),c); if(all) for(auto y: {"<compound-only-L>","<compound-R>"}) if(q.chance(1,2)){ z.a.includeSymbol(us(y)); z.syms.insert(z.syms.begin()+q.below(z.syms.size()+1),z.a(us(y))); } }; put(F,true); put(K,false); f=rg(q,F,true,w,q.range(1,6),eps); g=rg(q,K,true,false,q.range(1,6),eps); }
    bool gw=false; for(auto& x: g.arcs) if(x.w!=0) gw=true; for(auto& x: g.fin) if(x.second!=0) gw=true; capped=false; Rel rf=rel(f,F.a), rk=rel(g,K.a); if(capped) continue; bool inv=q.chance(1,4);
    begin("seed "+std::to_string(sd)+(inv?" inverted":"")+" f "+astr(f,F.a)+" g "+astr(g,K.a),rf.empty()||rk.empty());
    { // composition
      Rel want; for(auto& x: rf) for(auto& y: rk) { auto& out=inv?x.first.first:x.first.second; auto& in=inv?x.first.second:x.first.first; if(out==y.first.first){ P p=inv?P{y.first.second,in}:P{in,y.first.second}; double t=x.second+y.second; auto i=want.find(p); if(i==want.end()||t<i->second) want[p]=t; } }
      Side F2=F; Transducer tf=make(f), tg=make(g); G before=graph(tg); Transducer z=tf.compose(tg,F2.a,K.a,inv,false); G d=graph(z); Rel got=rel(d,F2.a,200000); if(capped) continue;
      CHECK(eq(want,got,false),"composition relates exactly what goes through both","got "<<rstr(got)<<" want "<<rstr(want)); if(eq(want,got,false)) CHECK(eq(want,got,true),"a composed pair has the least sum of weights","got "<<rstr(got)<<" want "<<rstr(want));
      CHECK(graph(tg)==before,"the second transducer is unchanged",str(graph(tg))); for(auto&a: d.arcs) CHECK(d.states.count(a.t),"arcs lead to existing states",str(d)); for(size_t i=0;i<d.states.size();i++) CHECK(d.states.count(i),"states are numbered densely",str(d)); }
    { // composition anywhere: the second transducer may also leave text as it is while it stands at its start
      Rel want; std::multimap<int,Arc> by; for(auto& x: g.arcs) by.insert({x.s,x}); size_t n=0; for(auto& x: rf){ auto t=cut(inv?x.first.first:x.first.second); auto& in=inv?x.first.second:x.first.first;
        std::function<void(size_t,int,std::string,double)> go=[&](size_t i,int s,std::string o,double wt){ if(++n>50000){ capped=true; return; } auto fi=g.fin.find(s); if(i==t.size()&&(fi!=g.fin.end()||s==g.init)){ double v=wt+(fi!=g.fin.end()?fi->second:0); P p=inv?P{o,in}:P{in,o}; auto j=want.find(p); if(j==want.end()||v<j->second) want[p]=v; }
          if(s==g.init&&i<t.size()) go(i+1,s,o+t[i],wt); auto e=by.equal_range(s); for(auto k=e.first;k!=e.second;++k){ auto lr=K.a.decode(k->second.l); if(lr.first==0) go(i,k->second.t,o+sym(K.a,lr.second),wt+k->second.w); else if(i<t.size()&&sym(K.a,lr.first)==t[i]) go(i+1,k->second.t,o+sym(K.a,lr.second),wt+k->second.w); } }; go(0,g.init,"",x.second); }
      if(!capped){ Side F2=F; Transducer tf=make(f), tg=make(g); Transducer z=tf.compose(tg,F2.a,K.a,inv,true); Rel got=rel(graph(z),F2.a,200000); if(!capped){ CHECK(eq(want,got,false),"composition anywhere rewrites or copies","got "<<rstr(got)<<" want "<<rstr(want)); if(eq(want,got,false)) CHECK(eq(want,got,true),"composition anywhere: least weights","got "<<rstr(got)<<" want "<<rstr(want)); } } capped=false; }
    auto trims=[&](const G& f,const Rel& rf,const G& k){ bool kw=false; for(auto& x: k.arcs) if(x.w!=0) kw=true;
      Rel want; for(auto& x: rf) if(reads(k,K.a,x.first.second)) want[x.first]=x.second;
      Transducer tf=make(f), tk=make(k); Transducer z=tf.trim(tk,F.a,K.a); G d=graph(z); Lang cyc; capped=false; bool acyc=true; { std::map<int,int> in; for(auto& x: d.arcs) in[x.t]++; std::vector<int> st; size_t n=0; for(int s: d.states) if(!in[s]) st.push_back(s); while(!st.empty()){ int s=st.back(); st.pop_back(); n++; for(auto& x: d.arcs) if(x.s==s&&--in[x.t]==0) st.push_back(x.t); } acyc=n==d.states.size(); }
      if(acyc){ Rel got=rel(d,F.a,200000); if(!capped){ CHECK(eq(want,got,false),"trimming keeps exactly the pairs the trimmer reads"," trimmer "<<astr(k,K.a)<<" got "<<rstr(got)<<" want "<<rstr(want)); if(!kw&&eq(want,got,false)) CHECK(eq(want,got,true),"with their weights"," trimmer "<<astr(k,K.a)<<" got "<<rstr(got)<<" want "<<rstr(want)); } }};
    { // trimming
      if(q.chance(1,3)) for(auto z: {"<ANY_TAG>","<ANY_CHAR>"}){ K.a.includeSymbol(us(z)); K.syms.push_back(K.a(us(z))); }
      for(int rep=0;rep<(spec?3:1);rep++) trims(f,rf,!rep&&q.chance(1,2)?g:rg(q,K,false,false,q.range(1,6),eps));
      if(spec) for(int rep=0;rep<3;rep++){ std::vector<std::string> fw,kw; auto part=[&]{ std::string x; for(int n=q.range(1,2);n>0;n--) x+="ab"[q.below(2)]; return x; }; for(int n=q.range(1,4);n>0;n--){ auto x=part(); if(q.chance(1,2)) x+="+"+part(); if(q.chance(1,6)) x+="+"+part(); if(q.chance(1,6)){ x+="+"; if(q.chance(1,2)) fw.push_back(x); } if(q.chance(1,2)) x+="#"+part(); fw.push_back(x); } for(auto& x: fw){ if(q.chance(1,5)) continue; auto p=x.find('+'), h=x.find('#'); std::string y=x.substr(0,std::min(p,h)); if(h!=std::string::npos&&q.chance(4,5)) y+=x.substr(h); kw.push_back(y); if(p!=std::string::npos&&q.chance(4,5)) kw.push_back(x.substr(p+1,h==std::string::npos?h:h-p-1)); } G ft=trie(fw,F.a); trims(ft,rel(ft,F.a),trie(kw,K.a)); } }
    { // union, and moving groups in a transducer that has none
      G f2=rg(q,F,true,w,q.range(1,4),eps); capped=false; Rel want=rel(f2,F.a); if(!capped){ for(auto& x: rf){ auto i=want.find(x.first); if(i==want.end()||x.second<i->second) want[x.first]=x.second; } Transducer a=make(f), b=make(f2); a.unionWith(F.a,b); Rel got=rel(graph(a),F.a,200000); if(!capped) CHECK(eq(want,got,true),"union is the union"," with "<<astr(f2,F.a)<<" got "<<rstr(got)<<" want "<<rstr(want)); }
      std::set<int> rch{f.init}; for(size_t n=0;n!=rch.size();){ n=rch.size(); for(auto& x: f.arcs) if(rch.count(x.s)) rch.insert(x.t); } bool ok=true; for(auto& x: f.fin) if(!rch.count(x.first)) ok=false; if(ok&&!spec){ Transducer a=make(f); Transducer z=a.moveLemqsLast(F.a); capped=false; Rel got=rel(graph(z),F.a,200000); if(!capped) CHECK(eq(rf,got,false),"moving groups changes nothing where there is none","got "<<rstr(got)<<" want "<<rstr(rf)); } }
    { // appending tags
      std::set<int> loop; Alphabet a2=K.a; bool nt=q.chance(1,3); a2.createLoopbackSymbols(loop,F.a,q.chance(1,2)?Alphabet::right:Alphabet::left,nt); (void)a2; Transducer tk=make(g); G b=graph(tk); Transducer z=tk.appendDotStar(loop); G d=graph(z), want=b; for(auto& x: b.fin) for(int l: loop) if(l!=0){ bool h=false; for(auto& a: b.arcs) if(a.s==x.first&&a.t==x.first&&a.l==l) h=true; if(!h) want.arcs.insert({x.first,l,x.first,x.second}); } CHECK(d==want,"appending adds to every final state one loop per given symbol","got "<<str(d)<<" want "<<str(want)); CHECK(graph(tk)==b,"the transducer itself is unchanged",str(graph(tk))); }
  }
  return finish(); }
