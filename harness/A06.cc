// A06: an alphabet written to a dictionary file is read back identical
#include "h.h"
#include <lttoolbox/alphabet.h>
#include <lttoolbox/compression.h>
using namespace H;
static std::vector<std::pair<int,int>> pairs(Alphabet a){ int n=a(12345678,12345678); std::vector<std::pair<int,int>> r; for(int i=0;i<n;i++) r.push_back(a.decode(i)); return r; }
static std::vector<UString> syms(Alphabet& a){ std::vector<UString> r; for(int i=1;i<=a.size();i++){ UString s; a.getSymbol(s,-i); r.push_back(s);} return r; }
static void same(Alphabet& a,Alphabet& b,const char* when){ auto sa=syms(a),sb=syms(b); CHECK(sa==sb,"same symbols in the same order",when<<" "<<sa.size()<<" vs "<<sb.size()<<" first "<<(sb.empty()?"":u16(sb[0]))); auto pa=pairs(a),pb=pairs(b); CHECK(pa==pb,"same pairs with the same codes",when<<" "<<pa.size()<<" vs "<<pb.size());
  if(sa==sb&&pa==pb){ const Alphabet& cb=b; for(size_t i=0;i<sa.size();i++){ CHECK(b.isSymbolDefined(sa[i]),"symbol is defined after reading",u16(sa[i])); CHECK(cb(UStringView(sa[i]))==-(int)i-1&&b(UStringView(sa[i]))==-(int)i-1,"symbol looks up to its identifier",u16(sa[i])<<" "<<b(UStringView(sa[i]))); }
    for(size_t i=0;i<pa.size();i++) CHECK(b(pa[i].first,pa[i].second)==(int)i,"pair looks up to its code",pa[i].first<<","<<pa[i].second); 
    for(auto&p: pa){ CHECK(b.symbolsWhereLeftIs(p.first)==a.symbolsWhereLeftIs(p.first),"codes by left side survive",p.first); } } }
int main(int c,char**v){ init(c,v); Rng r(g_seed);
  auto run=[&](Alphabet& a,const std::string& d){ H::begin(d); FILE*f=tmpfile(); a.write(f); Compression::multibyte_write(4242,f); a.write(f); rewind(f); Alphabet b; if(r.chance(1,2)){ b.includeSymbol(u"<old>"); b(3,4); b(-1,9);} b.read(f); unsigned m=Compression::multibyte_read(f); CHECK(m==4242,"reading consumes exactly what was written",m); same(a,b,"read"); Alphabet e; e.read(f); CHECK(fgetc(f)==EOF,"reading consumes exactly what was written (at the end)",""); same(a,e,"second read");
    FILE*g=tmpfile(); b=a; { FILE*h=tmpfile(); a.write(h); rewind(h); b.read(h); fclose(h);} b.write(g); std::string x,y; rewind(g); int ch; while((ch=fgetc(g))!=EOF) x+=(char)ch; FILE*h=tmpfile(); a.write(h); rewind(h); while((ch=fgetc(h))!=EOF) y+=(char)ch; fclose(g);fclose(h);fclose(f); CHECK(x==y,"writing what was read gives the same bytes",hex(x).substr(0,200)<<" vs "<<hex(y).substr(0,200));
    b.includeSymbol(u"<brand-new>"); CHECK(b(u"<brand-new>")==-(int)a.size()-1,"numbering goes on after reading",b(u"<brand-new>")); };
  { Alphabet a; run(a,"empty alphabet"); }
  for(int n: {62,63,64,65,100,300}){ Alphabet a; for(int i=0;i<n;i++) a.includeSymbol(u"<t"+to_ustring(std::to_string(i).c_str())+u">"); for(int i=0;i<n*3;i++) a(-(i%n)-1,i%7?i:-(i*5%n)-1); run(a,"big alphabet "+std::to_string(n)); }
  if(g_thorough||g_seed%3==0){ Alphabet a; a.includeSymbol(u"<x>"); for(int i=0;i<20000;i++) a(i,i*37%60000); begin("very big alphabet"); FILE*f=tmpfile(); a.write(f); rewind(f); Alphabet b; b.read(f); auto pa=pairs(a),pb=pairs(b); CHECK(pa==pb,"same pairs with the same codes",pa.size()); fclose(f); }
  std::vector<int> letters={0,1,'a','b','z',' ',0xe9,0x3ff,0x400,0x3fff,0x4000,0x4e2d,0xffff,0x10000,0x1F600,0x10FFFF};
  while(more()){ uint64_t sd=r.next(); Rng q(sd); Alphabet a; std::ostringstream d; d<<"seed "<<sd; int n=q.range(0,7); for(int i=0;i<n;i++){ UString s=u"<"; int k=q.range(0,4); for(int j=0;j<k;j++) switch(q.below(4)){ case 0: s+=(UChar)q.range(33,126); break; case 1: s+=(UChar)q.range(0xA0,0xD7FF); break; case 2: s+=(UChar)q.range(0xD800,0xDBFF); s+=(UChar)q.range(0xDC00,0xDFFF); break; default: s+=(UChar)q.range('a','e'); } s+=u'>'; a.includeSymbol(s); d<<" "<<u16(s); }
    n=a.size(); int m=q.range(0,12); for(int i=0;i<m;i++){ int x=n&&q.chance(1,2)?-q.range(1,n):letters[q.below(letters.size())], y=n&&q.chance(1,2)?-q.range(1,n):letters[q.below(letters.size())]; a(x,y); d<<" ("<<x<<","<<y<<")"; } run(a,d.str()); }
  return finish(); }
