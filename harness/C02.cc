// C02: weights survive storing up to truncation of the significand to 30 bits
#include "h.h"
#include <lttoolbox/compression.h>
#include <bit>
using namespace H;
static double quant(double w){ if(std::isinf(w)) return w; int e; double m=frexp(w,&e); return ldexp(std::trunc(ldexp(m,30))/1073741824.0,e); }
static void one(const std::vector<double>& vs,bool file){
  std::ostringstream d; d<<(file?"file":"stream")<<std::hexfloat; for(auto x: vs) d<<" "<<x; begin(d.str());
  std::vector<double> out;
  if(file){ FILE*f=tmpfile(); for(auto x: vs) Compression::long_multibyte_write(x,f); rewind(f);
    for(size_t i=0;i<vs.size();i++) out.push_back(Compression::long_multibyte_read(f));
    CHECK(fgetc(f)==EOF,"reading consumes exactly what was written","left-over bytes"); fclose(f);
  } else { std::stringstream s; for(auto x: vs) Compression::long_multibyte_write(x,s);
    for(size_t i=0;i<vs.size();i++) out.push_back(Compression::long_multibyte_read(s));
    CHECK(s.peek()==EOF,"reading consumes exactly what was written","left-over bytes"); }
  for(size_t i=0;i<vs.size();i++){
    double q=quant(vs[i]); 
    CHECK(out[i]==q,"stored weight = weight truncated to 30 significant bits",std::hexfloat<<"wrote "<<vs[i]<<" read "<<out[i]<<" expected "<<q);
    if(std::isfinite(vs[i])&&vs[i]!=0) CHECK(std::signbit(out[i])==std::signbit(vs[i]),"sign kept",vs[i]<<" -> "<<out[i]);
  }
}
int main(int c,char**v){
  init(c,v); Rng r(g_seed);
  std::vector<double> e={0,1,-1,0.5,-0.5,2,0.1,-0.1,1e300,-1e300,1e-300,1e-310,5e-324,-5e-324,INFINITY,-INFINITY,3.14159,1000000,0.000976563,1e-9,1.0-1e-16,-(1.0-1e-16),1.7976931348623157e308,2.2250738585072014e-308,4294967296.0,1073741823.0,1073741824.0,0.99999999906867743};
  for(int k=-1074;k<1024;k+=1) { e.push_back(ldexp(1.0,k)); if(k%16==0) { e.push_back(-ldexp(1.0,k)); e.push_back(ldexp(1.3,k)); e.push_back(-ldexp(1.7,k)); } }
  for(auto x: e) for(int f=0;f<2;f++) one({x},f);
  for(int f=0;f<2;f++) for(int i=0;i<3000;i++) one({i/1000.0},f);
  while(more()){
    std::vector<double> q; int n=r.range(1,8);
    for(int i=0;i<n;i++){ double x; do { switch(r.below(4)){ case 0: x=std::bit_cast<double>(r.next()); break; case 1: x=r.pick(e); break; case 2: x=(double)r.range(-100000,100000)/1000; break; default: x=ldexp((double)(int64_t)(r.next()>>r.below(60)),-(int)r.below(40)); } } while(std::isnan(x)); q.push_back(x);} 
    one(q,r.chance(1,3));
  }
  return finish();
}
