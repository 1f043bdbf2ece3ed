// C04: deserialising gives back what was serialised
#include "tr.h"
#include <lttoolbox/serialiser.h>
#include <lttoolbox/deserialiser.h>
#include <lttoolbox/pattern_list.h>
using namespace H;
template<class T> std::string show(const T& x){ std::ostringstream o; o<<std::hexfloat<<x; return o.str(); }
static std::string show(const char& x){ return std::to_string((int)x); }
static std::string show(const UChar& x){ return std::to_string((int)x); }
static std::string show(const UString& x){ return u16(x); }
static std::string show(const std::string& x){ return hex(x); }
template<class T> std::string show(const std::vector<T>& x);
template<class A,class B> std::string show(const std::map<A,B>& x); template<class A,class B> std::string show(const std::multimap<A,B>& x);
template<class A,class B> std::string show(const std::pair<A,B>& x){ return "("+show(x.first)+","+show(x.second)+")"; }
template<class A,class B> std::string show(const std::map<A,B>& x){ std::string r="{"; for(auto&e: x) r+=show(std::pair<A,B>(e))+" "; return r+"}"; }
template<class A,class B> std::string show(const std::multimap<A,B>& x){ std::string r="{"; for(auto&e: x) r+=show(std::pair<A,B>(e))+" "; return r+"}"; }
template<class T> std::string show(const std::vector<T>& x){ std::string r="["; for(auto&e: x) r+=show(e)+" "; return r+"]"; }
template<class T> bool eq(const T& a,const T& b){ return a==b; }
static bool eq(const double& a,const double& b){ return !memcmp(&a,&b,8); }
template<class T> void rt(const char* ty,const T& x,Rng& r){ std::string d=std::string(ty)+" "+show(x); if(d.size()>400) d=d.substr(0,400)+"..."; H::begin(d);
  std::stringstream s; Serialiser<T>::serialise(x,s); std::string one=s.str(); Serialiser<uint32_t>::serialise(0xC0FFEEu,s); T y=Deserialiser<T>::deserialise(s); CHECK(eq(x,y),"deserialise(serialise(x)) = x","got "<<show(y).substr(0,300)); uint32_t e=Deserialiser<uint32_t>::deserialise(s); CHECK(e==0xC0FFEEu,"consumes exactly what was written",e); s.get(); CHECK(!s,"nothing is left over","");
  // a truncated stream is reported, never read as something else
  if(!one.empty()){ size_t cut=r.below(one.size()); std::stringstream t(one.substr(0,cut)); bool thrown=false; try { T z=Deserialiser<T>::deserialise(t); (void)z; } catch(const DeserialisationException&){ thrown=true; } catch(...){ } CHECK(thrown,"a truncated stream raises DeserialisationException","cut at "<<cut<<" of "<<one.size()); }
}
template<class I> I rint_(Rng& r){ uint64_t x=r.next(); int sh=r.below(64); x>>=sh; if(r.chance(1,6)) x=~x; if(r.chance(1,6)) x=1ull<<r.below(64); if(r.chance(1,8)) x=(1ull<<r.below(64))-1; return (I)x; }
static double rdbl(Rng& r){ uint64_t b=r.next(); if(r.chance(1,3)){ double d=(double)(int)r.range(-1000,1000)/8; return d; } if(r.chance(1,8)) b=0x7FF0000000000000ull|(r.chance(1,2)?1ull<<63:0); if(r.chance(1,8)) b=r.chance(1,2)?0:1ull<<63; double d; memcpy(&d,&b,8); return d; }
static UString rstr(Rng& r){ UString s; int n=r.range(0,6); for(int i=0;i<n;i++) s+=(UChar)(r.chance(1,2)?r.range(32,126):r.below(65536)); return s; }
int main(int c,char**v){ init(c,v); Rng r(g_seed);
  for(int i=0;i<256&&more();i++) rt<char>("char",(char)i,r);
  for(int i=0;i<65536&&more();i+=1) { if(i>600&&i%97) continue; rt<UChar>("UChar",(UChar)i,r); }
  for(uint64_t x: {0ull,1ull,254ull,255ull,256ull,65535ull,65536ull,0xFFFFFFull,0x1000000ull,0x7FFFFFFFull,0x80000000ull,0xFFFFFFFFull,0x100000000ull,0xFFFFFFFFFFull,0xFFFFFFFFFFFFull,0xFFFFFFFFFFFFFFull,0x100000000000000ull,0x7FFFFFFFFFFFFFFFull,0x8000000000000000ull,0xFFFFFFFFFFFFFFFFull}){ rt<uint64_t>("uint64",x,r); rt<int64_t>("int64",(int64_t)x,r); rt<int32_t>("int32",(int32_t)x,r); rt<uint32_t>("uint32",(uint32_t)x,r); }
  while(more()){ g_cut=false; rt<uint64_t>("uint64",rint_<uint64_t>(r),r); rt<int64_t>("int64",rint_<int64_t>(r),r); rt<int32_t>("int32",rint_<int32_t>(r),r); rt<uint32_t>("uint32",rint_<uint32_t>(r),r); rt<double>("double",rdbl(r),r); rt<UString>("UString",rstr(r),r);
    { std::string s; int n=r.range(0,5); for(int i=0;i<n;i++) s+=(char)r.below(256); rt<std::string>("string",s,r); }
    { std::vector<UString> x; int n=r.range(0,4); for(int i=0;i<n;i++) x.push_back(rstr(r)); rt("vector<UString>",x,r); }
    { std::vector<std::pair<int32_t,int32_t>> x; int n=r.range(0,4); for(int i=0;i<n;i++) x.push_back({rint_<int32_t>(r),rint_<int32_t>(r)}); rt("vector<pair>",x,r); }
    { std::map<int,double> x; int n=r.range(0,4); for(int i=0;i<n;i++) x[rint_<int>(r)]=r.range(-99,99)/4.0; rt("map<int,double>",x,r); }
    { std::map<int,int> x; int n=r.range(0,300); for(int i=0;i<n;i++) x[rint_<int>(r)]=rint_<int>(r); rt("map<int,int>",x,r); }
    { std::map<int,std::multimap<int,std::pair<int,double>>> x; int n=r.range(0,4); for(int i=0;i<n;i++){ auto& m=x[r.range(0,5)]; int k=r.range(0,4); for(int j=0;j<k;j++) m.insert({r.range(0,2),{r.range(0,9),r.range(0,9)/2.0}}); } rt("transitions",x,r); }
    { Opt o; o.maxn=5; Rng q(r.next()); G g=random_g(q,o); Transducer t=make(g); if(q.chance(1,4)) { int a=t.insertSingleTransduction(-3,0); (void)a; g=graph(t);} begin("transducer "+str(g)); std::stringstream s; t.serialise(s); s<<'!'; Transducer u; u.insertSingleTransduction(5,0); u.setFinal(1,2); u.deserialise(s); CHECK(graph(u)==g,"a transducer deserialises to itself",str(graph(u))); CHECK(s.get()=='!',"consumes exactly what was written",""); }
    { Alphabet a; std::vector<UString> sy; int n=r.range(0,6),m=r.range(0,8); for(int i=0;i<n;i++){ UString s=u"<"+rstr(r)+u">"; a.includeSymbol(s); } for(int i=0;i<m;i++) a(r.range(-n,50),r.range(-n,50)); begin("alphabet symbols "+std::to_string(n)+" pairs "+std::to_string(m)+" seed "+std::to_string(r.s)); std::stringstream s; a.serialise(s); s<<'!'; Alphabet b; b.includeSymbol(u"<junk>"); b(7,7); b.deserialise(s); CHECK(s.get()=='!',"consumes exactly what was written","");
      CHECK(a.size()==b.size(),"alphabet keeps its symbols",b.size()); for(int i=1;i<=a.size();i++){ UString x,y; a.getSymbol(x,-i); b.getSymbol(y,-i); CHECK(x==y,"symbol string survives",u16(x)<<" became "<<u16(y)); CHECK(b.isSymbolDefined(x)&&b(UStringView(x))==-i,"symbol lookup survives",u16(x)<<" "<<b(UStringView(x))); }
      Alphabet k(a); int np=k(1000,1000); for(int i=0;i<np;i++){ auto p=a.decode(i); auto q=b.decode(i); CHECK(p==q,"pair survives","code "<<i); CHECK(b(p.first,p.second)==i,"pair lookup survives","code "<<i<<" of "<<np<<" now "<<b(p.first,p.second)); } CHECK(b(1000,1000)==np,"next free code is the same",""); }
  }
  return finish(); }
