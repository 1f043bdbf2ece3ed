// Concrete replay / bounded stand-in harness: runs the real compiled code of /repo against the
// contract of a property, used as a run-time oracle.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <sstream>
#include <iostream>
#include <chrono>
#include <unistd.h>
#include <cmath>
#include <algorithm>
#include <unordered_set>

namespace H {
static std::string g_case, g_clause = "start";
static bool g_done = false;
static long g_eval = 0, g_fail = 0;
static std::unordered_set<uint64_t> g_distinct;
static std::vector<std::string> g_samples;
static double g_budget = 10;
static bool g_thorough = false;
static uint64_t g_seed = 1;
static std::chrono::steady_clock::time_point g_t0;

inline uint64_t fnv(const std::string& s){ uint64_t h=1469598103934665603ULL; for(unsigned char c: s){h^=c;h*=1099511628211ULL;} return h; }
inline double elapsed(){ return std::chrono::duration<double>(std::chrono::steady_clock::now()-g_t0).count(); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x): s(x*0xD1342543DE82EF95ULL+0x1234567) {}
  uint64_t next(){ s+=0x9E3779B97F4A7C15ULL; uint64_t z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31);}
  uint64_t below(uint64_t n){ return n? next()%n : 0; }
  int range(int a,int b){ return a+(int)below((uint64_t)(b-a+1)); }
  bool chance(int num,int den){ return (int)below(den)<num; }
  template<class T> const T& pick(const std::vector<T>& v){ return v[below(v.size())]; }
};

inline void stats(){
  printf("STATS evaluations=%ld distinct=%zu fails=%ld seconds=%.1f\n", g_eval, g_distinct.size(), g_fail, elapsed());
  for (auto& s: g_samples) printf("SAMPLE %s\n", s.c_str());
  fflush(stdout);
}
// one failing input; `key` identifies the input for the known-findings file
inline void fail(const std::string& clause, const std::string& what){
  g_fail++;
  if (g_fail<=40) { printf("FAIL %s | %s | %s\n", clause.c_str(), g_case.c_str(), what.c_str()); fflush(stdout); }
}
inline void begin(const std::string& c, bool trivial=false){
  g_case=c; g_eval++;
  if(!trivial) { uint64_t h = fnv(c); if (g_distinct.size() < 4000000) g_distinct.insert(h); }
  if (g_eval==2||g_eval==40||g_eval==1500) g_samples.push_back(c.substr(0,300));
  alarm(60);
}
inline bool more(){ return elapsed() < g_budget && g_fail < 40; }
#define CHECK(cond, clause, what) do { if(!(cond)) { std::ostringstream o_; o_ << what; H::fail(clause, o_.str()); } } while(0)

inline void on_sig(int s){
  char b[64]; int n = snprintf(b, sizeof b, "FAIL %s | ", s==SIGALRM?"no answer within 60 s":"crash");
  (void)!write(1,b,n); (void)!write(1,g_case.data(),g_case.size());
  n = snprintf(b, sizeof b, " | signal %d\n", s); (void)!write(1,b,n);
  _exit(1);
}
inline void on_exit_(){
  if(!g_done){ fflush(stdout); std::string m="FAIL unexpected exit | "+g_case+" | the library called exit()\n"; (void)!write(1,m.data(),m.size()); _exit(1); }
}
inline std::string hex(const std::string& s){ std::string r; char b[4]; for(unsigned char c: s){ snprintf(b,4,"%02x",c); r+=b;} return r; }
template<class U> std::string u16(const U& s){ std::string r="u\""; char b[8]; for(auto c0: s){ unsigned c=(uint16_t)c0; if(c>=32&&c<127&&c!='"'&&c!='|'&&c!='\\') r+=(char)c; else { snprintf(b,8,"\\u%04x",c); r+=b; } } return r+"\""; }
inline void init(int argc,char**argv){
  for(int i=1;i<argc;i++){ std::string a=argv[i];
    if(a=="--seed") g_seed=strtoull(argv[++i],0,10);
    else if(a=="--budget") g_budget=atof(argv[++i]);
    else if(a=="--thorough") g_thorough=true; }
  g_t0=std::chrono::steady_clock::now();
  signal(SIGSEGV,on_sig);signal(SIGABRT,on_sig);signal(SIGFPE,on_sig);signal(SIGBUS,on_sig);signal(SIGALRM,on_sig);signal(SIGILL,on_sig);
  atexit(on_exit_);
}
inline int finish(){ alarm(0); g_done=true; stats(); fflush(stdout); _exit(g_fail?1:0); }
}
