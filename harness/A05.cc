// A05: symbols <-> identifiers and pairs <-> codes are stable bijections
#include "h.h"
#include <lttoolbox/alphabet.h>
using namespace H;
typedef std::vector<UString> Syms; typedef std::vector<std::pair<int32_t,int32_t>> Pairs;
struct Ref { Syms syms; Pairs pairs{{0,0}};
  int sym(const UString& s) const { for(size_t i=0;i<syms.size();i++) if(syms[i]==s) return -(int)i-1; return 0; }
  int pr(std::pair<int,int> p) const { for(size_t i=0;i<pairs.size();i++) if(pairs[i]==p) return i; return -1; }
};
static void agree(Alphabet& a, const Ref& r, const char* when, bool grow=false){
  const Alphabet& ca=a;
  if(!grow) CHECK(a.size()==(int)r.syms.size(),"size = number of symbols",when<<": "<<a.size()<<" vs "<<r.syms.size());
  for(size_t i=0;i<r.syms.size();i++){ int id=-(int)i-1;
    CHECK(a(UStringView(r.syms[i]))==id,"identifier of a symbol never changes",when<<": "<<u16(r.syms[i])<<" "<<a(UStringView(r.syms[i]))<<" want "<<id);
    CHECK(ca(UStringView(r.syms[i]))==id,"const lookup agrees",when<<": "<<u16(r.syms[i]));
    CHECK(a.isSymbolDefined(r.syms[i]),"symbol stays defined",when<<": "<<u16(r.syms[i]));
    UString s; a.getSymbol(s,id); CHECK(s==r.syms[i],"identifier maps back to the symbol",when<<": "<<id<<" gives "<<u16(s)<<" want "<<u16(r.syms[i]));
    CHECK(a.isTag(id),"identifier is a tag",id); }
  for(size_t i=0;i<r.pairs.size();i++){ auto d=a.decode(i); CHECK(d==r.pairs[i],"code decodes to its pair",when<<": code "<<i<<" gives "<<d.first<<","<<d.second<<" want "<<r.pairs[i].first<<","<<r.pairs[i].second); }
}
static void checkLeft(Alphabet& a,const Ref& r,int l){ std::set<int32_t> w; for(size_t i=0;i<r.pairs.size();i++) if(r.pairs[i].first==l) w.insert(i); CHECK(a.symbolsWhereLeftIs(l)==w,"codes by left side","left "<<l); }
int main(int c,char**v){
  init(c,v); Rng r(g_seed);
  std::vector<UString> pool; for(auto s: {u"<n>",u"<sg>",u"<pl>",u"<vblex>",u"<>",u"<a b>",u"<\u00e9>",u"<ANY_CHAR>",u"<ANY_TAG>",u"<N>",u"<n",u"n>",u"<n><n>"}) pool.push_back((const UChar*)s);
  for(int i=0;i<300;i++) pool.push_back(u"<t"+to_ustring(std::to_string(i*37).c_str())+u">");
  std::vector<int32_t> letters={0,'a','b','z',' ','+','#',0xe9,0x4e2d,0x1F600,0xFFFF,0x10000,'A',1,2,3,127,128};
  // long history: many symbols and pairs, codes checked at the end
  for(int round=0;round<2;round++){ begin("large alphabet "+std::to_string(round)); Alphabet a; Ref f; std::map<std::pair<int,int>,int> m; m[{0,0}]=0;
    int N= g_thorough? 200000: 20000; for(int i=0;i<N;i++){ int x=r.range(-40,300),y=r.range(-40,300); auto p=std::make_pair(x,y); auto it=m.find(p); int code=a(x,y); if(it==m.end()){ int n=m.size(); m[p]=n; CHECK(code==n,"next free code",x<<","<<y<<" got "<<code<<" want "<<n);} else CHECK(code==it->second,"known pair keeps its code",x<<","<<y<<" got "<<code<<" want "<<it->second); }
    for(auto& k: m) CHECK(a.decode(k.second)==k.first,"code decodes to its pair",k.second); 
    std::map<UString,int> sm; for(int i=0;i<3000;i++){ UString s=u"<x"+to_ustring(std::to_string(r.below(2000)).c_str())+u">"; a.includeSymbol(s); if(!sm.count(s)) { int n=sm.size(); sm[s]=-n-1; } }
    for(auto& k: sm) CHECK(a(UStringView(k.first))==k.second,"identifier of a symbol never changes",u16(k.first)); }
  while(more()){
    uint64_t sd=r.next(); Rng q(sd); begin("ops seed "+std::to_string(sd));
    Alphabet a; Ref f; std::ostringstream log; int n=q.range(1,40); int poolN=q.chance(1,2)?13:(int)pool.size();
    for(int k=0;k<n;k++){
      switch(q.below(9)){
      case 0: case 1: case 2: { auto s=pool[q.below(poolN)]; log<<" inc "<<u16(s); bool had=f.sym(s); CHECK(a.isSymbolDefined(s)==had,"defined iff included",u16(s)); CHECK(a(UStringView(s))==f.sym(s),"undefined symbol looks up as 0",u16(s));
          const Alphabet& ca=a; CHECK(ca(UStringView(s))==(had?f.sym(s):-1),"const lookup of an undefined symbol is -1",u16(s)); a.includeSymbol(s); if(!had) f.syms.push_back(s); CHECK(a.isSymbolDefined(s),"included symbol is defined",u16(s)); break; }
      case 3: case 4: case 5: { auto side=[&](){ return (q.chance(1,2)&&f.syms.size())? -(int)q.below(f.syms.size())-1 : q.pick(letters); }; int x=side(),y=side(); log<<" pair "<<x<<","<<y; int w=f.pr({x,y}); if(w<0){w=f.pairs.size(); f.pairs.push_back({x,y});} int got=a(x,y); CHECK(got==w,"code of a pair",x<<","<<y<<" got "<<got<<" want "<<w); CHECK(a(x,y)==w,"asking again gives the same code",x<<","<<y); break; }
      case 6: { Alphabet b(a); b.includeSymbol(u"<copyonly>"); b(77,78); log<<" copy"; agree(a,f,"after changing a copy"); break; }
      case 7: { Alphabet b; b.includeSymbol(u"<zz>"); b(5,6); b=a; a.includeSymbol(u"<after>"); if(!f.sym(u"<after>")) { Ref g=f; agree(b,g,"assigned copy"); f.syms.push_back(u"<after>"); } break; }
      case 8: { // loopback symbols
          Alphabet b; Ref g; int m=q.range(0,6); for(int i=0;i<m;i++){ auto s=pool[q.below(13)]; b.includeSymbol(s); if(!g.sym(s)) g.syms.push_back(s);} m=q.range(0,8); for(int i=0;i<m;i++){ auto side=[&](){ return (q.chance(2,3)&&g.syms.size())? -(int)q.below(g.syms.size())-1 : q.pick(letters); }; int x=side(),y=side(); b(x,y); if(g.pr({x,y})<0) g.pairs.push_back({x,y}); }
          bool right=q.chance(1,2), non=q.chance(1,2); std::set<int32_t> got; log<<" loopback"; Ref before=f; a.createLoopbackSymbols(got,b,right?Alphabet::right:Alphabet::left,non);
          std::set<std::pair<UString,int>> want, have; for(auto&p: g.pairs){ int s=right?p.second:p.first; if(s<0) want.insert({g.syms[-s-1],0}); else if(non) want.insert({UString(),s}); }
          for(int code: got){ auto p=a.decode(code); CHECK(p.first==p.second,"loopback pairs have equal sides",p.first<<","<<p.second); if(p.first<0){ UString s; a.getSymbol(s,p.first); have.insert({s,0}); } else have.insert({UString(),p.first}); }
          CHECK(have==want,"loopback symbols = the symbols of that side of the basis","have "<<have.size()<<" want "<<want.size());
          // follow the growth of a
          for(int id=(int)f.syms.size(); id<a.size(); id++){ UString s; a.getSymbol(s,-id-1); f.syms.push_back(s);} 
          agree(a,before,"loopback keeps old codes",true);
          { std::map<int,std::pair<int,int>> nw; for(int code: got) if(code>=(int)before.pairs.size()) nw[code]=a.decode(code); for(auto&k: nw){ CHECK(k.first==(int)f.pairs.size(),"codes are dense",k.first); f.pairs.push_back(k.second);} }
          agree(b,g,"basis unchanged"); break; }
      }
      if(q.chance(1,4)) agree(a,f,log.str().c_str());
    }
    g_case+=log.str();
    agree(a,f,"at the end"); for(int l: {0,(int)'a',-1,(int)' ',-2}) checkLeft(a,f,l);
    // symbols of letters
    for(int l: letters) if(l>0){ UString s; a.getSymbol(s,l); UString w; if(l<=0xffff) w+=(UChar)l; else { w+=(UChar)(0xD800+((l-0x10000)>>10)); w+=(UChar)(0xDC00+(l&0x3ff)); } CHECK(s==w,"letter prints as itself",l); CHECK(!a.isTag(l),"letter is not a tag",l);} { UString s=u"q"; a.getSymbol(s,0); CHECK(s==u"q","epsilon prints as nothing",""); }
    // sameSymbol against text equality
    Alphabet b; Ref g; for(int i=0;i<6;i++){ auto s=pool[q.below(13)]; b.includeSymbol(s); if(!g.sym(s)) g.syms.push_back(s); }
    for(int i=0;i<20;i++){ int x= f.syms.size()&&q.chance(2,3)? -(int)q.below(f.syms.size())-1:q.pick(letters), y= q.chance(2,3)? -(int)q.below(g.syms.size())-1:q.pick(letters); bool any=q.chance(1,2);
      auto tx=[&](const Ref&R,int s){ return s<0? R.syms[-s-1]: UString(); };
      bool w=(x>=0&&x==y)||(x<0&&y<0&&tx(f,x)==tx(g,y))||(any&&((tx(f,x)==u"<ANY_CHAR>"&&y>0)||(tx(f,x)==u"<ANY_TAG>"&&y<0)||(tx(g,y)==u"<ANY_CHAR>"&&x>0)||(tx(g,y)==u"<ANY_TAG>"&&x<0)));
      CHECK(a.sameSymbol(x,b,y,any)==w,"same symbol across alphabets",x<<","<<y<<" any="<<any); }
  }
  return finish();
}
