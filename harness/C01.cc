// C01: the integer code of binary dictionaries round-trips and is self-delimiting
#include "h.h"
#include <lttoolbox/compression.h>
using namespace H;
static std::string spec(unsigned v){
  std::string r;
  if(v<0x40) r={(char)v};
  else if(v<0x4000) r={(char)((v>>8)|0x40),(char)v};
  else if(v<0x400000) r={(char)((v>>16)|0x80),(char)(v>>8),(char)v};
  else r={(char)((v>>24)|0xC0),(char)(v>>16),(char)(v>>8),(char)v};
  return r;
}
static void one(const std::vector<unsigned>& vs, bool file){
  std::ostringstream d; d<<(file?"file":"stream"); for(size_t i=0;i<vs.size()&&i<12;i++) d<<" "<<vs[i]; if(vs.size()>12) d<<" ...("<<vs.size()<<")";
  begin(d.str());
  std::string bytes, want;
  for(auto v: vs) want+=spec(v);
  if(file){
    FILE*f=tmpfile();
    for(auto v: vs) Compression::multibyte_write(v,f);
    rewind(f); int c; while((c=fgetc(f))!=EOF) bytes+=(char)c;
    rewind(f);
    for(size_t i=0;i<vs.size();i++){ unsigned r=Compression::multibyte_read(f); CHECK(r==vs[i],"read returns the value written","index "<<i<<" wrote "<<vs[i]<<" read "<<r); }
    CHECK(fgetc(f)==EOF,"reading consumes exactly what was written","left-over bytes");
    fclose(f);
  } else {
    std::stringstream s;
    for(auto v: vs) Compression::multibyte_write(v,s);
    bytes=s.str();
    for(size_t i=0;i<vs.size();i++){ unsigned r=Compression::multibyte_read(s); CHECK(r==vs[i],"read returns the value written","index "<<i<<" wrote "<<vs[i]<<" read "<<r); }
    CHECK(s.peek()==EOF,"reading consumes exactly what was written","left-over bytes");
  }
  CHECK(bytes==want,"byte format","got "<<hex(bytes.substr(0,64))<<" want "<<hex(want.substr(0,64)));
}
int main(int c,char**v){
  init(c,v); Rng r(g_seed);
  std::vector<unsigned> edge;
  for(int b=0;b<30;b++) for(int d=-3;d<=3;d++){ long x=(1L<<b)+d; if(x>=0&&x<0x40000000) edge.push_back(x); }
  for(unsigned x: {0x3fffffffu,0x3ffffffeu,0x3fff0000u,0x00ff00ffu,0x3f00ff00u,0x10000u,0xffffu}) edge.push_back(x);
  for(auto e: edge) for(int f=0;f<2;f++) one({e},f);
  for(int f=0;f<2;f++){ for(unsigned base=0;base<0x12000;base+=256){ std::vector<unsigned> q; for(unsigned i=0;i<256;i++) q.push_back(base+i); one(q,f);} }
  while(more()){
    std::vector<unsigned> q; int n=r.range(1,60);
    for(int i=0;i<n;i++) q.push_back(r.chance(1,3)? r.pick(edge) : (unsigned)(r.below(0x40000000)>>r.below(30)));
    one(q,r.chance(1,3));
  }
  return finish();
}
