// T07: a transducer written to a dictionary file is read back as the same transducer
#include "tr.h"
#include <lttoolbox/trans_exe.h>
#include <lttoolbox/state.h>
#include <lttoolbox/compression.h>
using namespace H;
static double q30(double w){ if(w==0||std::isinf(w)) return w; int e; double m=frexp(w,&e); m=trunc(ldexp(m,30)); return ldexp(m,e-30); }
static G quant(G g){ G h=g; h.arcs.clear(); for(auto a: g.arcs){ a.w=q30(a.w); h.arcs.insert(a);} for(auto&f: h.fin) f.second=q30(f.second); return h; }
static bool weighted(const G& g){ for(auto&a: g.arcs) if(a.w!=0) return true; for(auto&f: g.fin) if(f.second!=0) return true; return false; }
int main(int c,char**v){ init(c,v); Rng r(g_seed);
  while(more()){ g_cut=false; uint64_t sd=r.next(); Rng q(sd); Opt o; bool big=q.chance(1,300); o.maxn=big?400:q.range(1,8); o.maxarcs=big?900:q.range(0,14); o.labels=q.pick(std::vector<int>{1,3,70,17000,300000}); o.minfin=0; o.eps_pct=q.chance(1,2)?25:0; o.weights=q.chance(1,2); o.finw=q.chance(1,2)&&o.weights; G g=random_g(q,o);
    if(o.weights&&q.chance(1,3)){ G h=g; h.arcs.clear(); for(auto a: g.arcs){ if(q.chance(1,2)){ uint64_t b=q.next(); double d; memcpy(&d,&b,8); if(std::isnan(d)||std::isinf(d)||std::abs(d)<1e-250||std::abs(d)>1e250) d=1/3.0; a.w=d; } h.arcs.insert(a);} g=h; }
    if(q.chance(1,40)&&!g.fin.empty()) g.fin.begin()->second=INFINITY;
    begin("seed "+std::to_string(sd)+" "+str(g).substr(0,600)); Transducer t=make(g); bool w=weighted(g); G want=quant(g);
    FILE*f=tmpfile(); t.write(f); Compression::multibyte_write(777,f); rewind(f); std::string bytes; int ch; while((ch=fgetc(f))!=EOF) bytes+=(char)ch; rewind(f);
    CHECK(graph(t)==g,"writing leaves the transducer alone","");
    CHECK(bytes.compare(0,4,"LTTD")==0&&bytes.size()>12&&bytes[11]==(w?1:0)&&bytes.substr(4,7)==std::string(7,'\0'),"header: LTTD and the feature flags, big-endian",hex(bytes.substr(0,12)));
    Transducer u; if(q.chance(1,2)){ u.insertSingleTransduction(9,0); u.setFinal(1,3); } u.read(f); G got=graph(u); CHECK(got==want,"same states, arcs, finals and weights","got "<<str(got).substr(0,600)); unsigned m=Compression::multibyte_read(f); CHECK(m==777,"reading consumes exactly what was written",m); fclose(f);
    { FILE*h=tmpfile(); u.write(h); Transducer x; rewind(h); x.read(h); CHECK(graph(x)==want,"a second round trip changes nothing more",""); fclose(h); }
    if(!w){ FILE*h=tmpfile(); fwrite(bytes.data()+12,1,bytes.size()-12,h); rewind(h); if(bytes.compare(12,4,"LTTD")){ Transducer x; x.read(h); CHECK(graph(x)==want,"the old format without header is still read",str(graph(x)).substr(0,400)); } fclose(h); }
    if(q.chance(1,6)){ std::string b=bytes; int bit=q.range(1,63); b[4+7-bit/8]|=(char)(1<<(bit%8)); FILE*h=tmpfile(); fwrite(b.data(),1,b.size(),h); rewind(h); bool th=false; try { Transducer x; x.read(h); } catch(...) { th=true; } CHECK(th,"unknown features are refused","bit "<<bit); rewind(h); th=false; try { Alphabet al; TransExe x; x.read(h,al); } catch(...) { th=true; } CHECK(th,"unknown features are refused by the run-time reader","bit "<<bit); fclose(h); }
    { int dec=q.range(1,500); G h=g; h.arcs.clear(); int mn=q.range(0,dec); for(auto a: g.arcs){ a.l-= (a.l<=5? mn%6:0); h.arcs.insert(a);} bool ok=true; for(auto&a: h.arcs) if(a.l< -dec) ok=false; if(ok){ Transducer x=make(h); FILE*k=tmpfile(); x.write(k,dec); rewind(k); Transducer y; y.read(k,dec); CHECK(graph(y)==quant(h),"labels shifted by an offset survive",dec<<" "<<str(graph(y)).substr(0,400)); fclose(k); } }
    // the run-time reader sees the same transducer: accepted label sequences agree
    bool eps=false; for(auto&a: g.arcs) if(a.l==0) eps=true; if(!big&&!eps&&o.labels<=3){ Alphabet al; al(0,0); for(int l=1;l<=3;l++) al('a'+l,'A'+l); FILE*h=tmpfile(); t.write(h); rewind(h); TransExe te; te.read(h,al); fclose(h); CHECK((int)te.getFinals().size()==(int)g.fin.size(),"run-time reader keeps the final states",te.getFinals().size()); std::multiset<double> fw,ew; for(auto&x: te.getFinals()) fw.insert(x.second); for(auto&x: want.fin) ew.insert(x.second); CHECK(fw==ew,"run-time reader keeps the final weights","");
      G gz=g; gz.arcs.clear(); for(auto a: g.arcs){ a.w=0; gz.arcs.insert(a);} for(auto&x: gz.fin) x.second=0; Lang l=lang(gz,3,0,1000000); for(int n=0;n<40;n++){ std::vector<int> s; int k=n; while(k){ s.push_back(k%3+1); k/=3; } if(s.size()>3) break; State st; st.init(te.getInitial()); bool dead=false; for(int x: s) { if(!dead) st.step('a'+x); if(st.size()==0) dead=true; } bool acc=!dead&&st.isFinal(te.getFinals()); Str ss(s.begin(),s.end()); CHECK(acc==(l.count(ss)>0),"run-time reader accepts the same strings",sstr(ss)<<" accepted "<<acc);
        if(acc){ std::map<int,double> at={{want.init,0}}; bool small=true; for(int x: s){ std::map<int,double> nx; for(auto&z: at) for(auto&a: want.arcs) if(a.s==z.first&&a.l==x){ double d=z.second+a.w; if(std::abs(a.w)>900) small=false; auto i=nx.find(a.t); if(i==nx.end()) nx[a.t]=d; else i->second=std::min(i->second,d); } at=nx; } double best=INFINITY; for(auto&z: at) if(want.fin.count(z.first)){ if(std::abs(want.fin[z.first])>900) small=false; best=std::min(best,z.second+want.fin[z.first]); }
          if(small){ std::vector<UString> res; std::set<UChar32> esc; st.filterFinalsArray(res,te.getFinals(),al,esc,true,1000,1000,false,false,0); bool ok=res.size()==1; double gotw=0; if(ok){ size_t p=res[0].rfind(u"<W:"); std::string num; for(size_t j=p+3;j<res[0].size();j++) num+=(char)res[0][j]; gotw=atof(num.c_str()); } CHECK(ok&&std::abs(gotw-best)<2e-6,"run-time reader keeps the weights",sstr(ss)<<" weight "<<gotw<<" want "<<best); } } } }
  }
  return finish(); }
