// R14: running a compiled transducer follows exactly its arcs
#include "tr.h"
#include <lttoolbox/trans_exe.h>
#include <lttoolbox/state.h>
#include <unicode/uchar.h>
using namespace H;
struct Cfg { int n; std::vector<std::pair<int,double>> seq; bool dirty; bool operator<(const Cfg& o) const { return std::tie(n,seq,dirty)<std::tie(o.n,o.seq,o.dirty);} };
typedef std::set<Cfg> Set;
struct RA { int s,i,o,t; double w; };
struct Ref { std::vector<RA> arcs;
  Set close(Set s) const { std::vector<Cfg> st(s.begin(),s.end()); while(!st.empty()){ Cfg c=st.back(); st.pop_back(); for(auto&a: arcs) if(a.s==c.n&&a.i==0){ Cfg d=c; d.n=a.t; if(a.o!=0) d.seq.push_back({a.o,a.w}); if(s.insert(d).second) st.push_back(d);} } return s; }
  bool move(Set& out,const Cfg& c,int in,bool dirty,int olds=0,int news=0) const { bool any=false; for(auto&a: arcs) if(a.s==c.n&&a.i==in){ Cfg d=c; d.n=a.t; int o=a.o; if(olds&&o==olds) o=news; d.seq.push_back({o,a.w}); d.dirty=d.dirty||dirty; out.insert(d); any=true; } return any; }
};
static UString text(const Alphabet& al,const std::set<UChar32>& esc,const Cfg& c,bool upper,bool first,double& w){ UString t; w=0; for(auto&x: c.seq){ if(esc.count(x.first)) t+=u'\\'; if(x.first<0){ UString z; al.getSymbol(z,x.first); t+=z; } else if(x.first>0){ UChar32 k=(c.dirty&&upper)?u_toupper(x.first):x.first; if(k>0xffff){ t+=(UChar)(0xd7c0+(k>>10)); t+=(UChar)(0xdc00|(k&0x3ff)); } else t+=(UChar)k; } w+=x.second; } if(first&&c.dirty&&!t.empty()){ size_t p=t[0]=='~'?1:0; if(p<t.size()) t[p]=u_toupper(t[p]); } return t; }
int main(int c,char**v){ init(c,v); Rng r(g_seed); std::vector<UString> names={u"<n>",u"<v>",u"<cp>",u"<+>",u"<\xd83d\xde00>"};
  while(more()){ uint64_t sd=r.next(); Rng q(sd); Alphabet al; int ns=q.range(1,5); for(int i=0;i<ns;i++) al.includeSymbol(names[i]);
    std::vector<int> in={'a','b','A','B',0xe9,0xc9,0x1F600,0x10400,0x10428,'*'}, out={0,'a','b','A','x',0xe9,0x1F600,'~','/','^'}; for(int i=1;i<=ns;i++){ in.push_back(-i); out.push_back(-i); out.push_back(-i);} int few=q.range(2,in.size()); std::vector<int> inn; for(int i=0;i<few;i++) inn.push_back(q.pick(in));
    int n=q.range(1,6),m=q.range(0,14); G g; for(int i=0;i<n;i++){ g.states.insert(i); g.fin[i]=q.chance(1,2)?0:q.below(5)*0.25; } g.init=0; al(0,0); Ref ref; bool wt=q.chance(1,2);
    for(int k=0;k<m;k++){ int s=q.below(n),t=q.below(n); int i=q.chance(1,4)?0:q.pick(inn); if(i==0){ if(s==t) continue; if(s>t) std::swap(s,t);} int o=q.pick(out); double w=(wt&&q.chance(1,2))?((int)q.below(8)-2)*0.5:0; if(i==0&&o==0) w=0; int l=al(i,o); g.arcs.insert({s,l,t,w}); }
    Alphabet al2(al); for(auto&a: g.arcs){ auto p=al2.decode(a.l); ref.arcs.push_back({a.s,p.first,p.second,a.t,a.w}); }
    std::string d="seed "+std::to_string(sd)+" arcs"; for(auto&a: ref.arcs){ std::ostringstream o; o<<" ("<<a.s<<","<<a.i<<":"<<a.o<<","<<a.t<<","<<a.w<<")"; d+=o.str(); } d+=" ops"; H::begin(d,g.arcs.empty());
    Transducer t=make(g); FILE*f=tmpfile(); t.write(f); rewind(f); std::unique_ptr<TransExe> tp(new TransExe); if(q.chance(1,6)){ tp->read(f,al); rewind(f); } tp->read(f,al); fclose(f); if(q.chance(1,4)){ tp.reset(new TransExe(TransExe(*tp))); if(q.chance(1,2)){ TransExe k; k=*tp; *tp=TransExe(); *tp=k; } } TransExe& te=*tp; std::vector<Node*> node; for(auto&x: te.getFinals()) node.push_back(x.first); CHECK((int)node.size()==n,"the run-time reader keeps every final state",node.size()); if((int)node.size()!=n) continue; { int i=0; for(auto&x: te.getFinals()){ CHECK(x.second==g.fin[i],"the run-time reader keeps the final weights",x.second); i++; } CHECK(te.getInitial()==node[0],"the run-time reader keeps the initial state",""); }
    std::set<UChar32> esc; if(q.chance(1,2)) esc={'/','^','$','\\'};
    State st; Set cur; auto doinit=[&]{ st.init(te.getInitial()); cur=ref.close({Cfg{0,{},false}}); }; doinit(); int ops=q.range(1,9);
    for(int k=0;k<=ops&&g_fail<40;k++){ g_case=d;
      // compare
      CHECK((st.size()==0)==cur.empty(),"no state is left iff no path is",st.size()<<" ref "<<cur.size()); CHECK(st.size()>=cur.size(),"every path is kept",st.size()<<" ref "<<cur.size());
      for(int i=0;i<n;i++){ std::map<Node*,double> one={{node[i],g.fin[i]}}; bool any=false; for(auto&x: cur) if(x.n==i) any=true; CHECK(st.isFinal(one)==any,"a node is active iff some path with that input ends there","node "<<i<<" want "<<any); }
      { std::map<Node*,double> fs; for(int i=0;i<n;i++) if(q.chance(1,2)) fs[node[i]]=g.fin[i]; bool up=q.chance(1,3),fi=q.chance(1,3); bool bad=false; std::map<UString,double> want; for(auto&x: cur) if(fs.count(node[x.n])){ double w; UString s=text(al,esc,x,up,fi,w); w+=g.fin[x.n]; if(fi&&x.dirty&&(s.empty()||s==u"~")) bad=true; auto z=want.find(s); if(z==want.end()||w<z->second) want[s]=w; }
        if(!bad){ std::vector<UString> res; st.filterFinalsArray(res,fs,al,esc,true,INT_MAX,INT_MAX,up,fi,0); std::map<UString,double> got; double last=-1e9; std::string e; for(auto&x: res){ size_t p=x.rfind(u"<W:"); if(p==UString::npos){ e="no weight"; break; } std::string num; for(size_t j=p+3;j<x.size();j++) num+=(char)x[j]; double w=atof(num.c_str()); if(w<last-1e-6) e="not in order of weight"; last=w; if(!got.insert({x.substr(0,p),w}).second) e="an analysis is repeated"; } CHECK(e.empty(),"analyses are listed once, lightest first",e); std::string gs,ws; for(auto&x: got) gs+=u16(x.first)+":"+std::to_string(x.second)+" "; for(auto&x: want) ws+=u16(x.first)+":"+std::to_string(x.second)+" "; CHECK(gs==ws,"the analyses are exactly the outputs of the paths, each with its least weight","upper "<<up<<" first "<<fi<<" got "<<gs<<" want "<<ws);
          UString flat=st.filterFinals(fs,al,esc,false,INT_MAX,INT_MAX,up,fi,0),exp; std::vector<UString> r2; st.filterFinalsArray(r2,fs,al,esc,false,INT_MAX,INT_MAX,up,fi,0); for(auto&x: r2){ exp+=u'/'; exp+=x; } CHECK(flat==exp,"filterFinals is the slash-separated list",u16(flat)); } 
        if(!fi&&!up){ UString sao=st.filterFinalsSAO(fs,al,esc,false,false,0); std::multiset<UString> a,b; // compare as a set of items
          std::set<UString> w2; for(auto&x: cur) if(fs.count(node[x.n])){ UString s; for(auto&y: x.seq){ if(esc.count(y.first)) s+=u'\\'; if(y.first<0){ UString z; al.getSymbol(z,y.first); s+=u'&'; s+=z.substr(1,z.size()-2); s+=u';'; } else { UString z; al.getSymbol(z,y.first); s+=z; } } w2.insert(s); } bool slash=false; for(auto&x: w2) if(x.find(u'/')!=UString::npos) slash=true; if(!slash){ std::set<UString> g2; size_t p=0; while(p<sao.size()){ size_t e2=sao.find(u'/',p+1); if(e2==UString::npos) e2=sao.size(); g2.insert(sao.substr(p+1,e2-p-1)); p=e2; } CHECK(g2==w2,"annotated analyses are exactly the outputs of the paths",u16(sao)); } } }
      for(int i=-ns;i<0;i++){ bool w=false; for(auto&x: cur) for(auto&y: x.seq) if(y.first==i) w=true; CHECK(st.hasSymbol(i)==w,"hasSymbol iff some path has output it",i); }
      if(k==ops||cur.size()>60||st.size()>400) break;
      int op=q.below(19); int a=q.pick(inn),b=q.pick(inn),e=q.pick(inn); Set nx; auto S=[](int x){ return std::to_string(x); };
      if(op==0){ d+=" init"; g_case=d; doinit(); }
      else if(op<4){ d+=" step("+S(a)+")"; g_case=d; for(auto&x: cur) ref.move(nx,x,a,false); st.step(a); cur=ref.close(nx); }
      else if(op<5){ d+=" step("+S(a)+","+S(b)+")"; g_case=d; for(auto&x: cur){ ref.move(nx,x,a,false); if(a!=b) ref.move(nx,x,b,true);} st.step(a,b); cur=ref.close(nx); }
      else if(op<6){ if(b==e) continue; d+=" step("+S(a)+","+S(b)+","+S(e)+")"; g_case=d; for(auto&x: cur){ ref.move(nx,x,a,false); if(b!=a) ref.move(nx,x,b,true); if(e!=a) ref.move(nx,x,e,true);} st.step(a,b,e); cur=ref.close(nx); }
      else if(op<7){ std::set<int> al3; int z=q.range(0,3); for(int j=0;j<z;j++) al3.insert(q.pick(inn)); d+=" stepset("+S(a)+";"; for(int x: al3) d+=S(x)+" "; d+=")"; g_case=d; for(auto&x: cur){ ref.move(nx,x,a,false); for(int y: al3) if(y!=a) ref.move(nx,x,y,true);} st.step(a,al3); cur=ref.close(nx); }
      else if(op<9){ if(a<0) continue; bool cs=q.chance(1,3); d+=" case("+S(a)+","+S(cs)+")"; g_case=d; for(auto&x: cur){ ref.move(nx,x,a,false); if(!cs&&u_isupper(a)&&u_tolower(a)!=a) ref.move(nx,x,u_tolower(a),true);} st.step_case(a,cs); cur=ref.close(nx); }
      else if(op<10){ if(a<0||b<0) continue; bool cs=q.chance(1,3); if(!cs&&u_isupper(a)&&u_tolower(a)==b) continue; d+=" case2("+S(a)+","+S(b)+","+S(cs)+")"; g_case=d; for(auto&x: cur){ ref.move(nx,x,a,false); if(a!=b) ref.move(nx,x,b,true); if(!cs&&u_isupper(a)&&u_tolower(a)!=a) ref.move(nx,x,u_tolower(a),true);} st.step_case(a,b,cs); cur=ref.close(nx); }
      else if(op<11){ d+=" careful("+S(a)+","+S(b)+")"; g_case=d; for(auto&x: cur) if(!ref.move(nx,x,a,false)) ref.move(nx,x,b,true); st.step_careful(a,b); cur=ref.close(nx); }
      else if(op<12){ if(a==b) continue; int ns2=q.pick(out); d+=" override("+S(a)+","+S(b)+","+S(ns2)+")"; g_case=d; for(auto&x: cur){ ref.move(nx,x,a,false,b,ns2); ref.move(nx,x,b,true,b,ns2);} st.step_override(a,b,ns2); cur=ref.close(nx); }
      else if(op<13){ d+=" optional("+S(a)+")"; g_case=d; for(auto&x: cur) ref.move(nx,x,a,false); nx=ref.close(nx); st.step_optional(a); cur.insert(nx.begin(),nx.end()); }
      else if(op<14){ State o2; o2.init(te.getInitial()); Set oc=ref.close({Cfg{0,{},false}}); bool alt=a!=b&&q.chance(1,2); if(q.chance(3,4)){ for(auto&x: oc){ ref.move(nx,x,b,false); if(alt) ref.move(nx,x,a,true); } if(alt) o2.step(b,a); else o2.step(b); oc=ref.close(nx); } d+=" merge("+S(b)+(alt?","+S(a):std::string())+")"; g_case=d; st.merge(o2); cur.insert(oc.begin(),oc.end()); }
      else if(op<15){ int z=q.pick(out); if(z==0) continue; d+=" forbid("+S(z)+")"; g_case=d; for(auto&x: cur){ bool h=false; for(auto&y: x.seq) if(y.first==z) h=true; if(!h) nx.insert(x);} st.pruneStatesWithForbiddenSymbol(z); cur=nx; }
      else if(op<16){ int req=-q.range(1,ns),sep='+'; auto last=[&](const Cfg& x){ for(int j=(int)x.seq.size()-1;j>=0;j--){ if(x.seq[j].first==req) return true; if(x.seq[j].first==sep) return false; } return false; };
        State o2; o2.init(te.getInitial()); Set oc=ref.close({Cfg{0,{},false}}); bool clean=true; for(auto&x: oc) if(!x.seq.empty()) clean=false; if(!clean) continue; std::map<Node*,double> fs; std::set<int> fi; for(int i=0;i<n;i++) if(q.chance(1,2)){ fs[node[i]]=g.fin[i]; fi.insert(i); }
        d+=" restart("+S(req)+")"; g_case=d; nx=cur; for(auto&x: cur) if(fi.count(x.n)&&last(x)) for(auto&y: oc){ Cfg z=x; z.n=y.n; z.seq.push_back({sep,0.0}); nx.insert(z); } st.restartFinals(fs,req,&o2,sep); cur=nx; }
      else if(op<17){ int ns2=q.pick(out); if(a==e) continue; d+=" override4("+S(a)+","+S(b)+","+S(e)+","+S(ns2)+")"; g_case=d; for(auto&x: cur){ ref.move(nx,x,a,false,e,ns2); if(a!=b) ref.move(nx,x,b,true,e,ns2); ref.move(nx,x,e,true,e,ns2);} st.step_override(a,b,e,ns2); cur=ref.close(nx); }
      else if(op<18){ if(a<0) continue; bool cs=q.chance(1,3); d+=" caseoverride("+S(a)+","+S(cs)+")"; g_case=d; int lo=u_tolower(a); bool fold=!cs&&u_isupper(a)&&lo!=a; for(auto&x: cur){ if(fold){ ref.move(nx,x,a,false,lo,a); ref.move(nx,x,lo,true,lo,a); } else ref.move(nx,x,a,false); } st.step_case_override(a,cs); cur=ref.close(nx); }
      else { int req=-q.range(1,ns),sep='+',mx=q.range(0,3); auto last=[&](const Cfg& x){ for(int j=(int)x.seq.size()-1;j>=0;j--){ if(x.seq[j].first==req) return true; if(x.seq[j].first==sep) return false; } return false; }; bool odd=false; int best=mx; for(auto&x: cur){ if(!x.seq.empty()&&x.seq[0].first==sep) odd=true; if(last(x)){ int k2=0; for(auto&y: x.seq) if(y.first==sep) k2++; best=std::min(best,k2);} } if(odd) continue; d+=" compounds("+S(req)+","+S(mx)+")"; g_case=d; for(auto&x: cur) if(last(x)){ int k2=0; for(auto&y: x.seq) if(y.first==sep) k2++; if(k2==best) nx.insert(x);} st.pruneCompounds(req,sep,mx); cur=nx; }
      if(q.chance(1,6)){ d+=" copy"; g_case=d; State c2(st); if(q.chance(1,2)){ State c3; c3.init(te.getInitial()); c3=c2; st=c3; c3.step('q'); } else st=c2; }
    } }
  return finish(); }
