// B13: the circular input buffer replays exactly what was read
#include "h.h"
#include <lttoolbox/buffer.h>
using namespace H;
// reference: absolute positions into the whole history
int main(int c,char**v){ init(c,v); Rng r(g_seed);
  while(more()){ uint64_t sd=r.next(); Rng q(sd); unsigned n=q.chance(1,3)?q.range(2,6):q.range(2,40); std::string d="seed "+std::to_string(sd)+" size "+std::to_string(n)+":"; H::begin(d);
    Buffer<int> b(n); std::vector<int> h; long cur=0; int ops=q.range(1,120); CHECK(b.getSize()==n,"getSize",b.getSize()); int val=1000; if(q.chance(1,5)){ b.back(0); CHECK(b.isEmpty(),"going back by nothing leaves an empty buffer empty",""); }
    std::vector<std::pair<unsigned,long>> marks; // getPos() with the absolute position it stands for
    for(int i=0;i<ops&&g_fail<40;i++){ int op=q.below(10); g_case=d; long len=h.size();
      auto avail=[&](long p){ return p>=0&&p>len-(long)n&&p<=len; }; // positions that are still stored and unambiguous
      if(op<4||len==0){ if(cur!=len){ // the processor only adds after consuming everything
          while(cur<len){ int x=b.next(); CHECK(x==h[cur],"next() returns the elements in order",x<<" want "<<h[cur]<<" at "<<cur); cur++; } }
        int x=q.chance(1,6)?q.range(-5,5):val++; d+=" add"+std::to_string(x); g_case=d; int& y=b.add(x); CHECK(y==x,"add returns what it stored",y); h.push_back(x); cur=h.size(); CHECK(b.isEmpty(),"nothing is left to consume after adding",""); }
      else if(op<6){ if(cur<len){ d+=" next"; g_case=d; int p=b.peek(); CHECK(p==h[cur],"peek() shows the current element",p<<" want "<<h[cur]); int x=b.next(); CHECK(x==h[cur],"next() returns the current element",x<<" want "<<h[cur]<<" at "<<cur); cur++; } else { CHECK(b.isEmpty(),"isEmpty at the end",""); CHECK(b.last()==h.back(),"last() is the newest element",b.last()); } }
      else if(op<8){ long k=q.range(0,(int)std::min<long>(cur,n)); if(k>=0&&k<(long)n&&avail(cur-k)){ d+=" back"+std::to_string(k); g_case=d; b.back(k); cur-=k; if(cur<len){ CHECK(!b.isEmpty(),"going back leaves something to consume",""); CHECK(b.peek()==h[cur],"back(k) goes back exactly k elements",b.peek()<<" want "<<h[cur]); } } }
      else if(op==8){ marks.push_back({b.getPos(),cur}); }
      else if(!marks.empty()){ auto m=marks[q.below(marks.size())]; if(avail(m.second)&&m.second<=cur&&cur-m.second<(long)n){ d+=" diff"; g_case=d; long got=b.diffPrevPos(m.first); CHECK(got==cur-m.second||(long)(got%n)==(cur-m.second)%(long)n,"diffPrevPos counts the elements since that position",got<<" want "<<cur-m.second); if(m.second<=len&&m.second>len-(long)n){ d+=" setPos"; g_case=d; b.setPos(m.first); cur=m.second; if(cur<len) CHECK(b.peek()==h[cur],"setPos returns to that element",b.peek()<<" want "<<h[cur]); else CHECK(b.isEmpty(),"setPos to the end leaves nothing to read",""); } } }
      if(q.chance(1,12)){ d+=" copy"; g_case=d; Buffer<int> k(b); if(q.chance(1,2)){ Buffer<int> z(3); z.add(-1); z=b; k=z; } CHECK(k.getSize()==b.getSize()&&k.getPos()==b.getPos(),"a copy has the same size and position",""); long p=cur; while(p<len){ int x=k.next(); CHECK(x==h[p],"a copy holds the same elements",x<<" want "<<h[p]); p++; } if(len) CHECK(k.last()==h.back(),"a copy has the same last element",k.last()); k.add(-77); if(len) CHECK(b.last()==h.back(),"a copy is independent",b.last()); }
    } }
  return finish(); }
