// D21: a compiled dictionary contains exactly the listed pairs
#include "dix.h"
#include <lttoolbox/compiler.h>
#include <lttoolbox/file_utils.h>
#include <lttoolbox/expander.h>
#include <fstream>
using namespace H;
static void save(const std::string& f,const std::string& s){ std::ofstream o(f,std::ios::binary); o<<s; }
int main(int c,char**v){ init(c,v); std::cout.rdbuf(nullptr); Rng r(g_seed);
  while(more()){ g_cut=false; uint64_t sd=r.next(); Rng q(sd); DOpt o; o.weights=q.chance(1,3); o.variants=q.chance(1,4); o.marks=q.chance(1,3); g_keepm=q.chance(1,2); o.empties=q.chance(1,3); Dix d=rdix(q,o); Flt f; f.dir=q.chance(1,2)?"LR":"RL"; if(o.variants){ auto z=[&](std::string& s){ if(q.chance(1,2)) s=q.pick(std::vector<std::string>{"x","y"}); }; z(f.alt); z(f.v); z(f.vl); z(f.vr); }
    bool rl=f.dir=="RL"; std::map<std::string,Rel> want; bool ok=true; for(auto&s: d.secs){ Rel m; for(auto&e: std::get<2>(s)){ auto p=expand(d,e,f); if(p.size()>1500) ok=false; for(auto&x: p){ put(m,x,rl); auto& first=rl?x.r:x.l; if(first.empty()||first[0]==" ") ok=false; } } if(m.empty()) ok=false; want[std::get<0>(s)+"@"+std::get<1>(s)]=m; } if(!ok) continue;
    std::string x=xml(d); std::string one; for(char ch: x) one+=ch=='\n'?' ':ch=='|'?'!':ch; H::begin("seed "+std::to_string(sd)+" dir "+f.dir+(o.variants?" alt="+f.alt+" v="+f.v+" vl="+f.vl+" vr="+f.vr:"")+" "+one.substr(0,2500)); save("d.dix",x);
    auto U=[](const std::string& s){ return UString(s.begin(),s.end()); }; Compiler k; k.setJobs(q.chance(1,4)); size_t split=q.chance(1,4)?2:0; k.setMaxSectionEntries(split); k.setVerbose(false); k.setKeepBoundaries(g_keepm); k.setEntryDebugging(false); k.setAltValue(U(f.alt)); k.setVariantValue(U(f.v)); k.setVariantLeftValue(U(f.vl)); k.setVariantRightValue(U(f.vr)); k.parse("d.dix",rl?Compiler::COMPILER_RESTRICTION_RL_VAL:Compiler::COMPILER_RESTRICTION_LR_VAL); FILE*fo=fopen("d.bin","wb"); k.write(fo); fclose(fo);
    std::set<UChar32> let; Alphabet al; std::map<UString,Transducer> tr; FILE*fi=fopen("d.bin","rb"); readTransducerSet(fi,let,al,tr); CHECK(fgetc(fi)==EOF,"the file holds nothing else",""); fclose(fi);
    if(split){ Rel w,g; for(auto&m: want) for(auto&p: m.second){ auto i=w.find(p.first); if(i==w.end()||p.second<i->second) w[p.first]=p.second; } bool fin=true; for(auto&t: tr){ Rel z; G gg=graph(t.second); fin=fin&&pairs(gg,al,z); for(auto&p: z){ auto i=g.find(p.first); if(i==g.end()||p.second<i->second) g[p.first]=p.second; } } CHECK(fin&&same(w,g),"the sections together contain exactly the listed pairs","got "<<show(g)<<" want "<<show(w)); }
    else { CHECK(tr.size()==want.size(),"one transducer per section",tr.size()); for(auto&m: want){ UString nm=U(m.first); if(!tr.count(nm)){ H::fail("every section is compiled",m.first); continue; } Rel g; G gg=graph(tr[nm]); bool fin=pairs(gg,al,g); CHECK(fin&&same(m.second,g),"a section contains exactly the listed pairs, each with its least weight","got "<<show(g)<<" want "<<show(m.second)); } }
    { std::set<UChar32> wl; UString ul; for(char16_t ch: std::u16string(u"abcéñжAB")) wl.insert(ch); CHECK(let==wl,"the letters are those of the alphabet",let.size()); }
    if(getenv("EXP")&&!o.variants){ // the expander lists the same pairs
      Flt fl{"LR"},fr{"RL"}; std::multiset<std::string> w; std::set<std::string> ws,gs; bool big=false; for(auto&s: d.secs) for(auto&e: std::get<2>(s)){ auto a=expand(d,e,fl,400),b=expand(d,e,fr,400); if(a.size()>300||b.size()>300) big=true; std::set<std::pair<std::string,std::string>> A,B; for(auto&p: a) A.insert({cat(p.l),cat(p.r)}); for(auto&p: b) B.insert({cat(p.l),cat(p.r)}); for(auto&p: A) ws.insert("L "+p.first+"|"+p.second); for(auto&p: B) ws.insert("R "+p.first+"|"+p.second); }
      bool colon=false; if(!big){ Expander ex; ex.setKeepBoundaries(false); UFILE*uo=u_fopen("d.exp","wb",NULL,"UTF-8"); ex.expand("d.dix",uo); u_fclose(uo); std::ifstream in("d.exp"); std::string ln; while(std::getline(in,ln)){ size_t p=ln.find(":>:"),qq=ln.find(":<:"); if(p!=std::string::npos) gs.insert("L "+ln.substr(0,p)+"|"+ln.substr(p+3)); else if(qq!=std::string::npos) gs.insert("R "+ln.substr(0,qq)+"|"+ln.substr(qq+3)); else { size_t z=ln.find(':'); if(z==std::string::npos){ gs.insert("? "+ln); continue; } gs.insert("L "+ln.substr(0,z)+"|"+ln.substr(z+1)); gs.insert("R "+ln.substr(0,z)+"|"+ln.substr(z+1)); } } std::string diff; for(auto&z: ws) if(!gs.count(z)) diff+="missing "+z+"; "; for(auto&z: gs) if(!ws.count(z)) diff+="extra "+z+"; "; for(char& ch: diff) if(ch=='|') ch=':'; CHECK(diff.empty(),"lt-expand lists exactly the pairs of the dictionary, with their direction",diff.substr(0,600)); } (void)colon; }
  }
  return finish(); }
