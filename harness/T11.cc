// T11: rewriting the symbols of a transducer changes exactly the labels it says
#include "tr.h"
using namespace H;
struct LArc { int s,t; std::string l,r; double w; bool operator<(const LArc& o) const { return std::tie(s,t,l,r,w)<std::tie(o.s,o.t,o.l,o.r,o.w);} bool operator==(const LArc& o) const { return std::tie(s,t,l,r,w)==std::tie(o.s,o.t,o.l,o.r,o.w);} };
static std::string sym(const Alphabet& a,int c){ if(c>0) return "c"+std::to_string(c); if(c==0) return ""; UString s; a.getSymbol(s,c); return u16(s); }
typedef std::multiset<LArc> LG;
static LG lab(const G& g,const Alphabet& a,int npairs,std::string& err){ LG r; for(auto& x: g.arcs){ if(x.l<0||x.l>=npairs){ err="label "+std::to_string(x.l)+" is not a pair code"; continue; } auto p=a.decode(x.l); r.insert({x.s,x.t,sym(a,p.first),sym(a,p.second),x.w}); } return r; }
static std::string ls(const LG& g){ std::ostringstream o; for(auto&x: g) o<<"("<<x.s<<","<<x.t<<","<<x.l<<":"<<x.r<<","<<x.w<<") "; return o.str(); }
static int npairs(const Alphabet& a){ Alphabet k(a); return k(777777,777778); }
int main(int c,char**v){ init(c,v); Rng r(g_seed); std::vector<UString> names={u"<n>",u"<v>",u"<adj>",u"<é>",u"<a:b>",u"<\xd83d\xde00>"};
  while(more()){ g_cut=false; uint64_t sd=r.next(); Rng q(sd); Alphabet al; int ns=q.range(0,5); for(int i=0;i<ns;i++) al.includeSymbol(q.pick(names)); ns=al.size(); std::vector<int> ch={0,'a','b',0xe9,0x1F600,'z'}; for(int i=1;i<=ns;i++) ch.push_back(-i);
    int np=q.range(1,8); std::vector<int> codes; codes.push_back(al(0,0)); for(int i=0;i<np;i++) codes.push_back(al(q.pick(ch),q.pick(ch)));
    Opt o; o.maxn=q.range(1,6); o.maxarcs=q.range(0,12); o.labels=codes.size()-1; if(o.labels<1) o.labels=1; G g0=random_g(q,o),g=g0; g.arcs.clear(); for(auto a: g0.arcs){ a.l=codes[a.l%codes.size()]; g.arcs.insert(a); }
    std::string d="seed "+std::to_string(sd)+" "; { std::string e; d+=ls(lab(g,al,npairs(al),e)); } std::string e; LG base=lab(g,al,npairs(al),e);
    auto frame=[&](const G& n){ CHECK(n.init==g.init&&n.states==g.states&&n.fin==g.fin,"initial, states and finals are untouched",str(n)); };
    { begin("invert "+d,g.arcs.empty()); Transducer t=make(g); Alphabet a2(al); t.invert(a2); G n=graph(t); frame(n); LG want; for(auto x: base){ std::swap(x.l,x.r); want.insert(x);} LG got=lab(n,a2,npairs(a2),e); CHECK(got==want,"invert swaps the sides of every arc","got "<<ls(got)); t.invert(a2); CHECK(graph(t)==g,"inverting twice gives the transducer back",str(graph(t))); }
    sorted_vector<int32_t> syms; int k=q.range(0,3); for(int i=0;i<k;i++) syms.insert(q.chance(1,5)?99+i:q.pick(codes)); sorted_vector<int32_t> ne; for(auto x: syms) if(x!=0) ne.insert(x); std::string sl; for(auto x: syms) sl+=std::to_string(x)+" ";
    { begin("delete "+sl+d,g.arcs.empty()); Transducer t=make(g); t.deleteSymbols(syms); G n=graph(t),w=g; w.arcs.clear(); for(auto&a: g.arcs) if(!syms.count(a.l)) w.arcs.insert(a); CHECK(n==w,"deleteSymbols removes exactly the arcs with those labels",str(n)<<" want "<<str(w)); }
    { begin("epsilonize "+sl+d,g.arcs.empty()); Transducer t=make(g); t.epsilonizeSymbols(ne); G n=graph(t),w=g; w.arcs.clear(); for(auto a: g.arcs){ if(ne.count(a.l)) a.l=0; w.arcs.insert(a);} CHECK(n==w,"epsilonizeSymbols turns exactly the arcs with those labels into epsilon",str(n)<<" want "<<str(w)); }
    { std::map<int32_t,sorted_vector<int32_t>> acx; int m=q.range(0,3); for(int i=0;i<m;i++){ sorted_vector<int32_t> s; int z=q.range(1,3); for(int j=0;j<z;j++) s.insert(q.pick(std::vector<int>{'a','q',0xe9,0x1F601,'b'})); acx[q.pick(std::vector<int>{'a','b',0xe9,0x1F600,'z'})]=s; } std::string as; for(auto&x: acx){ as+=std::to_string(x.first)+">"; for(auto y: x.second) as+=std::to_string(y)+","; as+=" "; }
      begin("acx "+as+d,g.arcs.empty()); Transducer t=make(g); Alphabet a2(al); t.applyACX(a2,acx); G n=graph(t); frame(n); LG want=base; for(auto&x: g.arcs){ auto p=al.decode(x.l); auto f=acx.find(p.first); if(f!=acx.end()) for(auto y: f->second) want.insert({x.s,x.t,sym(al,y),sym(al,p.second),x.w}); } LG got=lab(n,a2,npairs(a2),e); CHECK(got==want,"applyACX adds one arc per equivalent input character and keeps the rest","got "<<ls(got)<<" want "<<ls(want)); }
    { Alphabet other; int m=q.range(0,5); for(int i=0;i<m;i++) other.includeSymbol(q.pick(names)); for(int i=0;i<q.range(0,5);i++) other(q.pick(std::vector<int>{0,'a','b','y'}),q.pick(std::vector<int>{0,'a','x'})); begin("update "+d,g.arcs.empty()); Alphabet before(other); Transducer t=make(g); Alphabet o2(al); t.updateAlphabet(o2,other,true); G n=graph(t); frame(n); std::string e2; LG got=lab(n,other,npairs(other),e2); CHECK(e2.empty()&&got==base,"updateAlphabet keeps the text of every label",e2<<" got "<<ls(got)); for(int i=1;i<=before.size();i++) CHECK(sym(before,-i)==sym(other,-i),"updateAlphabet keeps the symbols of the new alphabet",i); }
    { // one-sided transducers: labels are characters or symbol identifiers
      std::vector<int> one={0,'a','b',0x1F600}; for(int i=1;i<=ns;i++) one.push_back(-i); G h=g0; h.arcs.clear(); for(auto a: g0.arcs){ a.l=one[a.l%one.size()]; h.arcs.insert(a); } Alphabet other; int m=q.range(0,5); for(int i=0;i<m;i++) other.includeSymbol(q.pick(names)); begin("update single "+str(h)+" symbols "+std::to_string(ns),h.arcs.empty()); Transducer t=make(h); Alphabet o2(al); t.updateAlphabet(o2,other,false); G n=graph(t); LG w,got; for(auto&a: h.arcs) w.insert({a.s,a.t,sym(al,a.l),"",a.w}); for(auto&a: n.arcs) got.insert({a.s,a.t,sym(other,a.l),"",a.w}); CHECK(got==w,"updateAlphabet keeps the text of every label (one-sided)","got "<<ls(got)<<" want "<<ls(w)); }
  }
  return finish(); }
