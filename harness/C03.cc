// C03: text survives the binary dictionary format and UTF conversions
#include "h.h"
#include <lttoolbox/compression.h>
#include <lttoolbox/ustring.h>
using namespace H;
static void enc(std::string& r,unsigned v){ if(v<0x40) r+=(char)v; else if(v<0x4000){ r+=(char)((v>>8)|0x40); r+=(char)v; } else if(v<0x400000){ r+=(char)((v>>16)|0x80); r+=(char)(v>>8); r+=(char)v; } else { r+=(char)((v>>24)|0xC0); r+=(char)(v>>16); r+=(char)(v>>8); r+=(char)v; } }
static std::vector<int32_t> cps(const UString& s){ std::vector<int32_t> r; for(size_t i=0;i<s.size();i++){ unsigned c=(uint16_t)s[i]; if((c&0xFC00)==0xD800&&i+1<s.size()&&((uint16_t)s[i+1]&0xFC00)==0xDC00){ r.push_back(0x10000+((c&0x3FF)<<10)+((uint16_t)s[i+1]&0x3FF)); i++; } else r.push_back(c); } return r; }
static std::string u8(const std::vector<int32_t>& v){ std::string r; for(int32_t c: v){ if(c<0x80) r+=(char)c; else if(c<0x800){ r+=(char)(0xC0|(c>>6)); r+=(char)(0x80|(c&63)); } else if(c<0x10000){ r+=(char)(0xE0|(c>>12)); r+=(char)(0x80|((c>>6)&63)); r+=(char)(0x80|(c&63)); } else { r+=(char)(0xF0|(c>>18)); r+=(char)(0x80|((c>>12)&63)); r+=(char)(0x80|((c>>6)&63)); r+=(char)(0x80|(c&63)); } } return r; }
static bool wellformed(const std::vector<int32_t>& v){ for(int32_t c: v) if(c>=0xD800&&c<0xE000) return false; return true; }
static void many(const std::vector<UString>& ss){ std::string d="strings"; for(auto& s: ss){ d+=" "+u16(s.substr(0,40)); if(s.size()>40) d+="...("+std::to_string(s.size())+")"; } H::begin(d);
  FILE*f=tmpfile(); std::string want; for(auto& s: ss){ Compression::string_write(s,f); auto v=cps(s); enc(want,v.size()); for(int c: v) enc(want,c); } std::string got; rewind(f); int c; while((c=fgetc(f))!=EOF) got+=(char)c;
  CHECK(got==want,"bytes: number of code points, then each code point",hex(got.substr(0,80))<<" want "<<hex(want.substr(0,80)));
  rewind(f); for(size_t i=0;i<ss.size();i++){ UString x=Compression::string_read(f); CHECK(x==ss[i],"a string read back is the string written","#"<<i<<" "<<u16(x.substr(0,60))); } CHECK(fgetc(f)==EOF,"reading consumes exactly what was written",""); fclose(f);
  for(auto& s: ss){ auto v=cps(s); std::vector<int32_t> out={7,-9}; ustring_to_vec32(s,out); std::vector<int32_t> w={7,-9}; w.insert(w.end(),v.begin(),v.end()); CHECK(out==w,"code points are appended in order",u16(s)); UString back; for(int32_t x: v) back+=static_cast<UChar32>(x); CHECK(back==s,"code points appended one by one give the string",u16(back));
    if(wellformed(v)){ std::string e=u8(v); std::ostringstream o; o<<UStringView(s); CHECK(o.str()==e,"UTF-8 output of a string",hex(o.str())); bool nul=s.find((UChar)0)!=UString::npos; if(!nul){ CHECK(to_ustring(e.c_str())==s,"UTF-8 input of a string",u16(to_ustring(e.c_str()))); CHECK(to_ustring((const uint8_t*)e.c_str())==s,"UTF-8 input of a string (bytes)","");
      UFILE*uf=u_finit(tmpfile(),NULL,"UTF-8"); write(UStringView(s),uf); u_fflush(uf); FILE*ff=u_fgetfile(uf); rewind(ff); std::string g; int ch; while((ch=fgetc(ff))!=EOF) g+=(char)ch; u_fclose(uf); fclose(ff); CHECK(g==e,"UTF-8 file output of a string",hex(g)<<" want "<<hex(e)); } } }
}
int main(int c,char**v){ init(c,v); Rng r(g_seed);
  many({}); many({UString()}); many({u"<n>",UString(),u"a"}); many({UString(1,(UChar)0xD800)}); many({UString{(UChar)0xDBFF,(UChar)0xDFFF}}); many({UString{(UChar)0xDC00,(UChar)0xD800}}); 
  for(size_t n: {63,64,65,16383,16384,16385}) many({UString(n,u'x'),u"end"});
  { std::vector<UString> all; for(unsigned cp=0;cp<0x110000;cp+= g_thorough?1:61){ UString s; if(cp<0x10000) s=UString(1,(UChar)cp); else s=UString{(UChar)(0xD800+((cp-0x10000)>>10)),(UChar)(0xDC00+(cp&0x3ff))}; all.push_back(s); if(all.size()==500){ many(all); all.clear(); if(!more()) break; } } many(all); }
  std::vector<unsigned> edge={0,1,0x3f,0x40,0x7f,0x80,0x7ff,0x800,0x3fff,0x4000,0xd7ff,0xd800,0xdbff,0xdc00,0xdfff,0xe000,0xffff,0xfffd,0xfeff};
  while(more()){ std::vector<UString> ss; int k=r.range(1,3); for(int i=0;i<k;i++){ UString s; int n=r.range(0,r.chance(1,10)?80:8); for(int j=0;j<n;j++) switch(r.below(5)){ case 0: s+=(UChar)r.range(32,126); break; case 1: s+=(UChar)edge[r.below(edge.size())]; break; case 2: s+=(UChar)r.range(0xD800,0xDFFF); break; case 3: s+=(UChar)r.range(0xD800,0xDBFF); s+=(UChar)r.range(0xDC00,0xDFFF); break; default: s+=(UChar)r.below(65536); } ss.push_back(s); } many(ss); }
  return finish(); }
