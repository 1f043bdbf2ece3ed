// P23: generation and bilingual lookup give every lexical unit exactly its dictionary forms and keep the rest
#include "dix.h"
#include <lttoolbox/compiler.h>
#include <lttoolbox/fst_processor.h>
#include <lttoolbox/input_file.h>
#include <unicode/uchar.h>
#include <unicode/ustdio.h>
#include <fstream>
using namespace H;
typedef std::vector<UChar32> Cp;
static void save(const std::string& f,const std::string& s){ std::ofstream o(f,std::ios::binary); o<<s; }
static std::string slurp(const std::string& f){ std::ifstream i(f,std::ios::binary); std::ostringstream o; o<<i.rdbuf(); return o.str(); }
static UChar32 cp1(const std::string& s){ unsigned char c=s[0]; int n=c<0x80?1:c<0xe0?2:c<0xf0?3:4; UChar32 v=n==1?c:n==2?c&31:n==3?c&15:c&7; for(int k=1;k<n;k++) v=v<<6|(s[k]&63); return v; }
static std::string enc(UChar32 c){ std::string r; if(c<0x80) r+=(char)c; else if(c<0x800){ r+=(char)(0xc0|c>>6); r+=(char)(0x80|(c&63)); } else if(c<0x10000){ r+=(char)(0xe0|c>>12); r+=(char)(0x80|((c>>6)&63)); r+=(char)(0x80|(c&63)); } else { r+=(char)(0xf0|c>>18); r+=(char)(0x80|((c>>12)&63)); r+=(char)(0x80|((c>>6)&63)); r+=(char)(0x80|(c&63)); } return r; }
static const std::string ESC="[]{}^$/\\@<>";
static bool tag(const std::string& s){ return s.size()>1&&s[0]=='<'&&s.back()=='>'; }
static std::string es(const std::string& s){ return tag(s)?s:(s.size()==1&&ESC.find(s[0])!=std::string::npos?"\\":"")+s; }
static std::string txt(const Sy& s,size_t a=0,size_t b=1000000){ std::string r; for(size_t i=a;i<s.size()&&i<b;i++) r+=es(s[i]); return r; }
static std::string escall(const Sy& s){ std::string r; for(auto&x: s) if(tag(x)) r+="\\<"+x.substr(1,x.size()-2)+"\\>"; else r+=es(x); return r; }
struct Ent { Sy l,r; };
static bool fits(const Ent& e,const Sy& t,bool cs,bool& dirty){ dirty=false; if(e.l.size()>t.size()) return false; for(size_t i=0;i<e.l.size();i++) if(t[i]!=e.l[i]){ if(cs||tag(t[i])||tag(e.l[i])) return false; UChar32 a=cp1(t[i]); if(!u_isupper(a)||enc(u_tolower(a))!=e.l[i]) return false; dirty=true; } return true; }
static std::string out(const Sy& r0,bool dirty,bool first,bool up){ std::string r; bool done=false; for(auto&s: r0){ if(tag(s)){ r+=s; done=true; continue; } UChar32 c=cp1(s); if(dirty&&up) c=u_toupper(c); if(dirty&&first&&!done&&c!='~') c=u_toupper(c); if(c!='~'||!r.empty()) done=true; r+=es(enc(c)); } return r; }
static bool upc(const Sy& s,size_t i){ return i<s.size()&&!tag(s[i])&&cp1(s[i])<0x10000&&u_isupper(cp1(s[i])); }
int main(int c,char**v){ init(c,v); std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); Rng r(g_seed);
  while(more()){ g_cut=false; uint64_t sd=r.next(); Rng q(sd); DOpt o; o.blanks=q.chance(1,2); o.letters=q.chance(1,2)?std::vector<std::string>{"a","b","c","é"}:std::vector<std::string>{"a","b","c","é","ж","'","A","7","😀"}; if(q.chance(1,6)) o.letters.push_back("/"); Dix d=rdix(q,o); Flt f; bool rl=q.chance(3,4); f.dir=rl?"RL":"LR";
    std::vector<Ent> ents; bool ok=true; for(auto&s: d.secs){ int n=0; for(auto&e: std::get<2>(s)){ auto p=expand(d,e,f,300); if(p.size()>200) ok=false; for(auto&x: p){ Ent t{rl?x.r:x.l,rl?x.l:x.r}; if(t.l.empty()||t.l[0]==" "||(t.l[0]=="#"&&t.l.size()==1)||t.r.empty()) ok=false; ents.push_back(t); n++; } } if(!n) ok=false; } if(!ok||ents.empty()||ents.size()>300) continue;
    save("q.dix",xml(d)); std::string one; for(char ch: xml(d)) one+=ch=='\n'?' ':ch=='|'?'!':ch; one=one.substr(one.find("<sdefs>")); std::string cs="seed "+std::to_string(sd)+" "+f.dir+" "+one.substr(0,1800); H::begin(cs+" (compile)",true); { Compiler k; k.setJobs(false); k.setVerbose(false); k.setKeepBoundaries(false); k.setEntryDebugging(false); k.setMaxSectionEntries(0); k.parse("q.dix",rl?Compiler::COMPILER_RESTRICTION_RL_VAL:Compiler::COMPILER_RESTRICTION_LR_VAL); FILE*fo=fopen("q.bin","wb"); k.write(fo); fclose(fo); }
    for(int rep=0;rep<6&&more();rep++){ bool sens=q.chance(1,4),dcase=q.chance(1,4),bil=q.chance(1,2),nul=q.chance(1,3); GenerationMode gm=bil?q.pick(std::vector<GenerationMode>{gm_unknown,gm_unknown,gm_clean,gm_bilgen,gm_all}):q.pick(std::vector<GenerationMode>{gm_unknown,gm_clean,gm_all,gm_tagged,gm_tagged_nm,gm_bilgen}); int sfm=bil&&q.chance(1,4)?q.range(1,2):0; FSTProcessor fst; FILE*fb=fopen("q.bin","rb"); fst.load(fb); fclose(fb); fst.setCaseSensitiveMode(sens); fst.setDictionaryCaseMode(dcase&&!bil); if(sfm==1) fst.setBiltransSurfaceForms(true); if(sfm==2) fst.setBiltransSurfaceFormsKeep(true); if(bil) fst.initBiltrans(); else fst.initGeneration(); if(!fst.valid()) break; bool dc=dcase&&!bil; fst.setNullFlush(nul);
      std::string in; struct P { std::string lit; std::set<std::string> alt; std::string pre,post; bool set; }; std::vector<P> want; int n=q.range(0,6); auto lit=[&](const std::string& s){ want.push_back({s,{},"","",false}); };
      for(int i=0;i<n;i++){ { std::string b; int m=q.range(0,4); for(int k=0;k<m;k++) b+=q.pick(std::vector<std::string>{" ","\n",".","a","é","\\^","\\[","[<b>]","[x\\]y]","😀","[[t]]z","$","/"}); in+=b; lit(b); if(nul&&q.chance(1,6)){ in+='\0'; lit(std::string(1,'\0')); } std::string wb; if(q.chance(1,5)){ wb=q.pick(std::vector<std::string>{"[[t:b:1]]","[[]]","[[a\\]\\]]]","[[é 😀]]"}); in+=wb; lit(wb); } }
        std::string sfp=sfm?q.pick(std::vector<std::string>{"a","Ab","x\\/y","\xc3\xa9"})+"/":""; // surface form before the unit
        if(q.chance(1,20)){ in+=sfm?"^"+sfp+"$":"^$"; if(bil) lit(sfm==2?"^"+sfp+"$":"^$"); else if(gm==gm_all) lit("#"); else if(gm==gm_tagged_nm) lit("^/#$"); continue; }
        if(sfm==2&&q.chance(1,12)){ in+="^x$"; lit("^x$"); continue; } std::string spre=sfm==2?"^"+sfp:"^";
        Sy s=q.pick(ents).l; if(q.chance(1,4)){ if(q.chance(1,2)&&s.size()>1) s.resize(1+q.below(s.size())); else if(q.chance(1,2)) s.insert(s.begin()+q.below(s.size()+1),q.pick(std::vector<std::string>{"x","a","<n>","Z","<new>"})); } if(q.chance(1,3)){ int m=q.range(1,2); for(int k=0;k<m;k++) s.push_back(q.pick(std::vector<std::string>{"<n>","<v>","<sg>","<é>","q"})); } int cm=q.below(5); for(size_t z=0;z<s.size();z++) if(!tag(s[z])&&(cm==0||(cm==1&&z==0)||(cm==2&&q.chance(1,3)))) s[z]=enc(u_toupper(cp1(s[z]))); if(s[0]=="#"&&(!bil||s.size()<2)) s.insert(s.begin(),"a"); if(s[0]=="@"||s[0]=="="||s[0]=="%"||tag(s[0])) s.insert(s.begin(),"a"); bool star=q.chance(1,25); if(star) s.insert(s.begin(),"*"); bool hash=s[0]=="#"; std::string t=(s[0]=="*"?"\\":"")+txt(s);
        { int mk=q.chance(1,6)?q.below(4):-1; // marked units
          size_t tg=0; while(tg<s.size()&&!tag(s[tg])) tg++; std::string nt=txt(s,0,tg);
          if(mk==0||(mk==1&&!bil)){ if(s[0]=="*"||hash) continue; std::string m=mk==0?"*":"%"; in+="^"+sfp+m+t+"$"; if(bil) lit(spre+m+t+"/"+(gm==gm_clean?"":"*")+t+"$"); else if(gm==gm_tagged_nm) lit("^"+nt+"/"+m+t+"$"); else lit((gm==gm_clean?"":m)+escall(s)); continue; }
          if(mk==2&&!bil){ in+="^@"+t+"$"; if(gm==gm_all) lit("@"+escall(s)); else if(gm==gm_tagged_nm) lit("^"+nt+"/@"+t+"$"); else lit((gm==gm_unknown||gm==gm_tagged?"@":"")+nt); continue; }
          if(mk==3&&!bil){ in+="^="; lit("="); t=t; in.pop_back(); in.pop_back(); } bool eq=mk==3&&!bil; if(eq) sfp="="; }
         in+="^"+sfp+t+(q.chance(1,8)&&(!bil||sfm)?"/other<n>":"")+"$"; bool hastag=false; for(auto&x: s) if(tag(x)) hastag=true; size_t tg=0; while(tg<s.size()&&!tag(s[tg])) tg++;
        bool first=!dc&&upc(s,hash),up=bil?first&&upc(s,1+hash):!dc&&upc(s,1); if(!bil&&s[0]=="*") first=up=false; if(!bil&&!dc){ std::string ct=txt(s); /* the second code unit of the unit text decides */ if(es(s[0]).size()!=s[0].size()) up=false,first=false; if(s.size()>1&&es(s[1]).size()!=s[1].size()) up=false; if(s[0].size()==4) up=false; }
        P p; p.set=true; if(bil){ size_t best=0; std::map<size_t,std::set<std::string>> at; for(auto&e: ents){ bool dirty; if(fits(e,s,sens,dirty)) at[e.l.size()].insert(out(e.r,dirty,first,up)); } for(auto&x: at) best=std::max(best,x.first); if((!hastag||gm==gm_all||gm==gm_bilgen)&&best<s.size()) best=0; p.pre=spre+t+"/"; p.post="$"; if(best){ for(auto&x: at[best]) p.alt.insert(x+txt(s,best)); } else p.alt.insert((gm==gm_all?"#":"@")+t); }
        else { for(auto&e: ents){ bool dirty; if(e.l.size()==s.size()&&fits(e,s,sens,dirty)) p.alt.insert(out(e.r,dirty,first,up)); } bool found=!p.alt.empty(); if(found){ if(gm==gm_tagged||gm==gm_tagged_nm){ p.pre="^"; p.post="/"+t+"$"; } } else if(gm==gm_tagged_nm) p.alt.insert("^"+txt(s,0,tg)+"/#"+t+"$"); else { p.alt.insert(gm==gm_all?"#"+escall(s):(gm==gm_clean||gm==gm_bilgen?"":"#")+txt(s,0,tg)); } }
        want.push_back(p); }
      if(q.chance(1,2)){ std::string b=q.pick(std::vector<std::string>{"\n"," .\n","[x] ","a"}); in+=b; lit(b); } if(nul){ in+='\0'; lit(std::string(1,'\0')); }
      auto shown=[](const std::string& s){ std::string y; for(char x: s) y+=x==0?std::string("\\0"):x=='\n'?std::string("\\n"):x=='|'?std::string("!"):std::string(1,x); return y.substr(0,600); }; H::begin(cs+(bil?" bilingual":" generation mode "+std::to_string((int)gm))+(sens?" -c":"")+(dc?" -w":"")+" text "+shown(in),n==0); save("q.in",in); { InputFile inf; inf.open("q.in"); UFILE*uo=u_fopen("q.out","wb",NULL,"UTF-8"); if(bil) fst.bilingual(inf,uo,gm); else fst.generation(inf,uo,gm); u_fclose(uo); } std::string res=slurp("q.out");
      size_t pos=0; bool bad=false; std::string exp; for(auto&p: want){ if(!p.set){ exp+=p.lit; if(res.compare(pos,p.lit.size(),p.lit)!=0){ bad=true; break; } pos+=p.lit.size(); } else { std::string all; for(auto&x: p.alt) all+=(all.empty()?"":"/")+x; exp+=p.pre+all+p.post; if(res.compare(pos,p.pre.size(),p.pre)!=0){ bad=true; break; } size_t e=pos+p.pre.size(); // any order
            size_t len=all.size(); std::string part=res.substr(e,len); std::set<std::string> got; std::string cur; if(p.alt.size()==1) got.insert(part); else { for(size_t z=0;z<part.size();z++){ if(part[z]=='\\'&&z+1<part.size()){ cur+=part[z]; cur+=part[++z]; } else if(part[z]=='/'){ got.insert(cur); cur.clear(); } else cur+=part[z]; } got.insert(cur); } if(got!=p.alt||part.size()!=len){ bad=true; break; } pos=e+len; if(res.compare(pos,p.post.size(),p.post)!=0){ bad=true; break; } pos+=p.post.size(); } } if(!bad&&pos!=res.size()) bad=true;
      CHECK(!bad,bil?"bilingual lookup gives the translations of the longest matching part, and keeps the rest":"generation gives exactly the dictionary forms, and keeps the rest","got "<<shown(res)<<" want "<<shown(exp));
    } }
  return finish(); }
