// M20: pattern matching: a word gets the least class of the patterns it matches
#include "tr.h"
#include <lttoolbox/match_exe.h>
#include <lttoolbox/match_state.h>
#include <lttoolbox/pattern_list.h>
#include <memory>
using namespace H;
// reference: a pattern is a list of items; items match symbol sequences
enum { ANYC=-1000001, ANYT=-1000002, QUE=-1000003 };
typedef std::vector<int> Pat; // chars, tag numbers as -(k+1), ANYC, ANYT, QUE
static bool ischar(int x){ return x>0; }
static bool match(const Pat& p,const std::vector<int>& w){ // dynamic programming over (item, position)
  size_t n=w.size(); std::vector<char> cur(n+1,0); cur[0]=1; for(int it: p){ std::vector<char> nx(n+1,0); for(size_t i=0;i<=n;i++) if(cur[i]){ if(it==ANYC){ for(size_t k=i;k<n&&ischar(w[k]);k++) nx[k+1]=1; } else if(it==ANYT){ for(size_t k=i;k<n&&!ischar(w[k]);k++) nx[k+1]=1; } else if(it==QUE){ nx[i]=1; if(i<n&&(w[i]=='_'||w[i]==' '||w[i]=='#')){ nx[i+1]=1; for(size_t k=i+1;k<n&&ischar(w[k]);k++) nx[k+1]=1; } } else if(i<n&&w[i]==it) nx[i+1]=1; } cur=nx; } return cur[n]; }
static std::string ps(const Pat& p){ std::string r; for(int x: p) r+=x==ANYC?"*":x==ANYT?"<*>":x==QUE?"(#)":x>0?(x<128?std::string(1,(char)x):"["+std::to_string(x)+"]"):"<t"+std::to_string(-x-1)+">"; return r; }
// the one history of the known finding: a sequence that starts with a plain part and one that starts with a labelled part with the same text
static void mixed(){ PatternList pl; pl.insert(1,u"",u"n"); pl.beginSequence(); pl.insert(2,u"",u"n"); pl.insert(2,u"a",u"v"); pl.endSequence(); pl.beginSequence(); pl.insert(3,1); pl.insert(3,u"b",u"v"); pl.endSequence(); H::begin("history 1:*<n> 2:*<n>+a<v> 3:(label 1)+b<v>"); pl.buildTransducer(); std::unique_ptr<MatchExe> me(pl.newMatchExe()); Alphabet& al=pl.getAlphabet(); int AC=al(PatternList::ANY_CHAR),AT=al(PatternList::ANY_TAG),N=al(UStringView(u"<n>")),V=al(UStringView(u"<v>")); for(int k=0;k<2;k++){ MatchState ms; ms.init(me->getInitial()); ms.step('x',AC); ms.step(N,AT); ms.step('+',AC); ms.step(k?'b':'a',AC); ms.step(V,AT); int got=ms.classifyFinals(me->getFinals()); CHECK(got==2+k,"mixed plain and labelled sequence parts","word x<n>+"<<(k?"b":"a")<<"<v> got "<<got<<" want "<<2+k); } }
int main(int c,char**v){ init(c,v); Rng r(g_seed); mixed();
  while(more()){ g_cut=false; uint64_t sd=r.next(); Rng q(sd);
    { // stepping a match state = following the arcs of a deterministic transducer from a set of nodes
      Opt o; o.maxn=q.range(1,8); o.labels=q.range(1,5); o.maxarcs=q.range(0,20); o.eps_pct=0; G g0=random_g(q,o),g=g0; g.arcs.clear(); std::set<std::pair<int,int>> seen; for(auto a: g0.arcs){ if(q.chance(1,3)) a.l=-a.l; if(seen.insert({a.s,a.l}).second) g.arcs.insert(a); } Transducer t=make(g); std::map<int,int> ft; for(int s: g.states) if(q.chance(1,2)) ft[s]=q.range(0,9); std::unique_ptr<MatchExe> mp(new MatchExe(t,ft)); if(q.chance(1,4)){ mp.reset(new MatchExe(MatchExe(*mp))); if(q.chance(1,2)){ MatchExe k; k=*mp; *mp=MatchExe(); *mp=k; } } MatchExe& me=*mp; std::string d="seed "+std::to_string(sd)+" "+str(g)+" classes"; for(auto&x: ft) d+=" "+std::to_string(x.first)+"="+std::to_string(x.second); d+=" steps"; H::begin(d,g.arcs.empty());
      MatchState ms; ms.init(me.getInitial()); std::multiset<int> cur={g.init}; auto mv=[&](int s,int l,std::multiset<int>& out){ for(auto&a: g.arcs) if(a.s==s&&a.l==l) out.insert(a.t); }; int steps=q.chance(1,4)?q.range(50,400):q.range(0,8); size_t lim=60;
      for(int k=0;k<=steps;k++){ g_case=d; std::set<int> ban; for(int j=q.range(0,3);j>0;j--) ban.insert(q.range(0,9)); int best=-1,bb=-1; for(int s: cur) if(ft.count(s)){ int z=ft[s]; if(best<0||z<best) best=z; if(!ban.count(z)&&(bb<0||z<bb)) bb=z; } CHECK(ms.classifyFinals(me.getFinals())==best,"the class is the least one of the reached final nodes",ms.classifyFinals(me.getFinals())<<" want "<<best); CHECK(ms.classifyFinals(me.getFinals(),ban)==bb,"banned classes are left out",ms.classifyFinals(me.getFinals(),ban)<<" want "<<bb); CHECK(ms.size()==(int)cur.size(),"as many nodes as paths",ms.size()<<" want "<<cur.size());
        if(k==steps) break; int a=q.range(1,o.labels)*(q.chance(1,3)?-1:1),b=q.range(1,o.labels)*(q.chance(1,3)?-1:1); std::multiset<int> nx; bool two=q.chance(1,2)&&cur.size()<lim; if(q.chance(1,25)||cur.empty()){ if(cur.empty()||q.chance(1,2)){ ms.init(me.getInitial()); cur={g.init}; d+=" init"; } else { ms.clear(); cur.clear(); d+=" clear"; } }
        else if(two){ if(a==b) continue; d+=" ("+std::to_string(a)+","+std::to_string(b)+")"; for(int s: cur){ mv(s,a,nx); mv(s,b,nx);} ms.step(a,b); cur=nx; } else { d+=" "+std::to_string(a); for(int s: cur) mv(s,a,nx); ms.step(a); cur=nx; }
        if(d.size()>3000) d="seed "+std::to_string(sd)+" (long)";
        if(q.chance(1,10)){ g_case=d+" copy"; MatchState k2(ms); CHECK(k2.size()==ms.size()&&k2.classifyFinals(me.getFinals())==ms.classifyFinals(me.getFinals()),"a copy is equal",""); MatchState k3; k3=k2; k3.clear(); ms=k2; } } }
    { // whole pattern lists
      PatternList pl; std::vector<std::pair<int,Pat>> all; std::string d="seed "+std::to_string(sd)+" patterns"; std::vector<UString> tg={u"n",u"v",u"adj",u"\xd83d\xde00"}; int np=q.range(1,5),id=1; bool mid=q.chance(1,2); /* labels (patterns with a queue) either at the end of sequences only, or in all their inner parts: see the known finding */ auto one=[&](UString& lem,UString& tags,Pat& p){ lem.clear(); tags.clear(); p.clear(); int n=q.range(0,4); bool star=false; for(int i=0;i<n;i++){ if(!star&&q.chance(1,4)){ lem+=u'*'; p.push_back(ANYC); star=true; } else { UChar ch=q.pick(std::vector<UChar>{'a','b',0xe9}); lem+=ch; p.push_back(ch); star=false; } } if(n==0) p.push_back(ANYC); int m=q.range(0,3); star=false; for(int i=0;i<m;i++){ if(!tags.empty()) tags+=u'.'; if(!star&&q.chance(1,4)){ tags+=u'*'; p.push_back(ANYT); star=true; } else { int k=q.below(4); tags+=tg[k]; p.push_back(-(k+1)); star=false; } } if(tags.empty()) p.push_back(ANYT); };
      for(int i=0;i<np;i++,id+=q.range(0,2)){ UString l,t; Pat p; if(q.chance(2,3)){ one(l,t,p); pl.insert(id,l,t); p.push_back(QUE); all.push_back({id,p}); d+=" "+std::to_string(id)+":"+ps(p); } else { pl.beginSequence(); std::vector<Pat> ss; int k=q.range(1,3); int myid=id; for(int j=0;j<k;j++){ std::vector<Pat> others; int oid=-1; bool lastp=j==k-1; if(!all.empty()&&(lastp?q.chance(1,3):mid)){ oid=q.pick(all).first; if(oid==myid) oid=-1; } if(!lastp&&mid&&oid<0) continue; if(oid>=0){ for(auto&x: all) if(x.first==oid) others.push_back(x.second); pl.insert(myid,oid); } else { one(l,t,p); pl.insert(myid,l,t); others.push_back(p); } if(ss.empty()) ss=others; else { std::vector<Pat> n2; for(auto&a: ss) for(auto&b: others){ Pat z=a; z.push_back('+'); z.insert(z.end(),b.begin(),b.end()); n2.push_back(z);} ss=n2; } if(ss.size()>8) break; } pl.endSequence(); for(auto&a: ss){ a.push_back(QUE); all.push_back({myid,a}); d+=" "+std::to_string(myid)+":"+ps(a); } } }
      H::begin(d); pl.buildTransducer(); PatternList rd; int how=q.below(3); if(how==1){ FILE*f=tmpfile(); pl.write(f); rewind(f); rd.read(f); fclose(f); } else if(how==2){ std::stringstream s; pl.serialise(s); rd.deserialise(s); } else rd=pl; std::unique_ptr<MatchExe> me(rd.newMatchExe()); Alphabet& al=rd.getAlphabet(); int AC=al(PatternList::ANY_CHAR),AT=al(PatternList::ANY_TAG); std::vector<int> tid; for(auto&x: tg){ UString s=u"<"+x+u">"; tid.push_back(al.isSymbolDefined(s)?al(s):AT); }
      for(int k=0;k<25&&g_fail<40;k++){ std::vector<int> w; // words near the patterns
        Pat p=q.pick(all).second; for(int it: p){ if(it==ANYC) for(int j=q.range(q.chance(1,8)?0:1,3);j>0;j--) w.push_back(q.pick(std::vector<int>{'a','b','x','_',0xe9})); else if(it==ANYT) for(int j=q.range(q.chance(1,8)?0:1,2);j>0;j--) w.push_back(-(int)(1+q.below(4))); else if(it==QUE){ if(q.chance(1,3)){ w.push_back(q.pick(std::vector<int>{'_',' ','#'})); for(int j=q.range(0,2);j>0;j--) w.push_back(q.pick(std::vector<int>{'a','b',' '})); } } else w.push_back(it); } if(q.chance(1,4)&&!w.empty()) w.erase(w.begin()+q.below(w.size())); if(q.chance(1,4)) w.insert(w.begin()+q.below(w.size()+1),q.pick(std::vector<int>{'a','b','+','_',-1,-2}));
        if(w.size()>14) continue; MatchState ms; ms.init(me->getInitial()); std::string ws; for(int x: w){ if(ischar(x)) ms.step(x,AC); else { int s=tid[-x-1]; if(s==AT) ms.step(AT); else ms.step(s,AT); } } int want=-1; for(auto&x: all) if(match(x.second,w)&&(want<0||x.first<want)) want=x.first; int got=ms.classifyFinals(me->getFinals()); CHECK(got==want,"a word gets the least number of the patterns it matches","word "<<ps(w)<<" got "<<got<<" want "<<want<<" stored "<<how); } }
  }
  return finish(); }
