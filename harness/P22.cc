// P22: analysis loses no text and gives every word exactly its dictionary analyses
#include "dix.h"
#include <lttoolbox/compiler.h>
#include <lttoolbox/fst_processor.h>
#include <lttoolbox/input_file.h>
#include <unicode/uchar.h>
#include <unicode/ustdio.h>
#include <fstream>
#include <memory>
using namespace H;
typedef std::vector<UChar32> Cp;
static void save(const std::string& f,const std::string& s){ std::ofstream o(f,std::ios::binary); o<<s; }
static std::string slurp(const std::string& f){ std::ifstream i(f,std::ios::binary); std::ostringstream o; o<<i.rdbuf(); return o.str(); }
static Cp cps(const std::string& s){ Cp r; for(size_t i=0;i<s.size();){ unsigned char c=s[i]; int n=c<0x80?1:c<0xe0?2:c<0xf0?3:4; UChar32 v=n==1?c:n==2?c&31:n==3?c&15:c&7; for(int k=1;k<n&&i+k<s.size();k++) v=v<<6|(s[i+k]&63); r.push_back(v); i+=n; } return r; }
static std::string enc(UChar32 c){ std::string r; if(c<0x80) r+=(char)c; else if(c<0x800){ r+=(char)(0xc0|c>>6); r+=(char)(0x80|(c&63)); } else if(c<0x10000){ r+=(char)(0xe0|c>>12); r+=(char)(0x80|((c>>6)&63)); r+=(char)(0x80|(c&63)); } else { r+=(char)(0xf0|c>>18); r+=(char)(0x80|((c>>12)&63)); r+=(char)(0x80|((c>>6)&63)); r+=(char)(0x80|(c&63)); } return r; }
static const std::string ESC="[]{}^$/\\@<>";
static std::string esc1(UChar32 c){ return (c<128&&ESC.find((char)c)!=std::string::npos?"\\":"")+enc(c); }
static std::string unesc(const std::string& s){ std::string r; for(size_t i=0;i<s.size();i++){ if(s[i]=='\\'&&i+1<s.size()) i++; r+=s[i]; } return r; }
struct Ent { Cp l; Sy r; int sec; }; // sec 0 standard, 1 inconditional, 2 postblank, 3 preblank
struct Unit { bool word; UChar32 c; std::string blank; Cp sf; std::set<std::string> an; };
static bool fits(const Ent& e,const Cp& t,size_t p,bool cs){ if(p+e.l.size()>t.size()) return false; for(size_t i=0;i<e.l.size();i++){ UChar32 a=t[p+i],b=e.l[i]; if(a!=b&&(cs||!u_isupper(a)||u_tolower(a)!=b)) return false; } return true; }
static std::string out(const Ent& e,const Cp& sf,bool dc){ bool dirty=e.l!=sf; bool first=!dc&&!sf.empty()&&sf[0]<0x10000&&u_isupper(sf[0]); bool up=first&&sf.size()>1&&sf.back()<0x10000&&u_isupper(sf.back()); std::string r; bool done=false; for(auto&s: e.r){ if(s.size()>1&&s[0]=='<'&&s.back()=='>'){ r+=s; done=true; continue; } UChar32 c=cps(s)[0]; if(dirty&&up) c=u_toupper(c); if(dirty&&first&&!done&&c!='~'){ c=u_toupper(c); } if(c!='~') done=true; else if(!r.empty()) done=true; r+=esc1(c); } return r; }
int main(int c,char**v){ init(c,v); std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); Rng r(g_seed); const std::string types[]={"standard","inconditional","postblank","preblank"};
  while(more()){ g_cut=false; uint64_t sd=r.next(); Rng q(sd); DOpt o; o.weights=false; bool multi=q.chance(1,2); o.blanks=multi; o.letters=q.chance(1,2)?std::vector<std::string>{"a","b","c","é"}:std::vector<std::string>{"a","b","c","é","ж","'","-","A","7","😀"}; if(q.chance(1,8)) o.letters.push_back("/"); Dix d=rdix(q,o); if(d.secs.size()>1&&q.chance(1,2)){ std::vector<En> es; int k=q.range(1,3); for(int j=0;j<k;j++) es.push_back(ren(q,d,o,d.pars.size(),false)); d.secs.push_back({"s2","standard",es}); } if(q.chance(1,6)) d.letters+=q.chance(1,2)?"/":"@^"; Flt f; f.dir="LR";
    std::vector<Ent> ents; bool ok=true; int ns=0; for(auto&s: d.secs){ int ty=ns==0?0:q.range(0,3); std::get<1>(s)=types[ty]; ns++; int n=0; for(auto&e: std::get<2>(s)){ auto p=expand(d,e,f,400); if(p.size()>200) ok=false; for(auto&x: p){ if(x.l.empty()||x.l[0]==" "||x.r.empty()) ok=false; Ent t; for(auto&y: x.l){ auto z=cps(y); if(y.size()>1&&y[0]=='<') ok=false; t.l.insert(t.l.end(),z.begin(),z.end()); } t.r=x.r; t.sec=ty; ents.push_back(t); n++; } } if(n==0) ok=false; } if(!ok||ents.empty()||ents.size()>400) continue;
    std::set<UChar32> alpha; for(UChar32 x: cps(d.letters)) alpha.insert(x); auto isal=[&](UChar32 x){ return u_isalnum(x)||alpha.count(x); };
    save("p.dix",xml(d)); Compiler k; k.setJobs(false); k.setVerbose(false); k.setKeepBoundaries(false); k.setEntryDebugging(false); k.setMaxSectionEntries(0); std::string one; for(char ch: xml(d)) one+=ch=='\n'?' ':ch=='|'?'!':ch; one=one.substr(one.find("<sdefs>")); std::string cs="seed "+std::to_string(sd)+" "+one.substr(0,1800); H::begin(cs+" (compile)",true);
    k.parse("p.dix",Compiler::COMPILER_RESTRICTION_LR_VAL); FILE*fo=fopen("p.bin","wb"); k.write(fo); fclose(fo);
    for(int rep=0;rep<6&&more();rep++){ bool sens=q.chance(1,4),dcase=q.chance(1,4),nul=q.chance(1,3),shy=q.chance(1,4); FSTProcessor fst; FILE*fb=fopen("p.bin","rb"); fst.load(fb); fclose(fb); fst.setCaseSensitiveMode(sens); fst.setDictionaryCaseMode(dcase); fst.initAnalysis(); if(!fst.valid()) break;
      // the text: dictionary words, near misses, punctuation, blanks
      int parts=nul?q.range(1,3):1; std::string in; std::vector<std::vector<Unit>> want; bool super=q.chance(1,4);
      for(int pt=0;pt<parts;pt++){ Cp t; std::vector<std::string> bl; std::string raw; int n=q.chance(1,40)?q.range(300,1500):q.range(0,10); auto ch=[&](UChar32 x){ if(shy&&q.chance(1,8)) raw+="\xc2\xad"; if(x==' '){ bl.push_back(" "); raw+=' '; t.push_back(' '); return; } bool must=x<128&&ESC.find((char)x)!=std::string::npos; if(must||(x!='\n'&&q.chance(1,60))) raw+="\\"; raw+=enc(x); t.push_back(x); bl.push_back(""); };
        auto sup=[&]{ std::string b="["; int m=q.range(0,4); for(int i=0;i<m;i++) b+=q.pick(std::vector<std::string>{"a"," ","<b>","é","\\]","\\[","^","/","😀","\n"}); b+="]"; if(b.substr(0,2)=="[[") b="[x]"; if(q.chance(1,6)) b=q.pick(std::vector<std::string>{"[[t:b:1]]","[[/]]","[[x\\]\\]y]]","[[a] b]]","[[]]"}); raw+=b; t.push_back(' '); bl.push_back(b); };
        for(int i=0;i<n;i++){ int w=q.below(10); if(w<5){ Cp l=q.pick(ents).l; if(q.chance(1,5)&&l.size()>1) l.resize(1+q.below(l.size())); int cm=q.below(5); for(size_t z=0;z<l.size();z++) if(cm==0||(cm==1&&z==0)||(cm==2&&q.chance(1,3))) l[z]=u_toupper(l[z]); for(UChar32 x: l) if(x==' '&&super&&q.chance(1,2)) sup(); else ch(x); if(q.chance(3,4)){ if(super&&q.chance(1,3)) sup(); else ch(q.pick(std::vector<UChar32>{' ',' ',' ','.','\n','\t',',',0xa0})); } } else if(w<8) ch(q.pick(std::vector<UChar32>{'a','b','c','x','A','Z',0xe9,0x436,0x1F600,'1','.',' ','\'','^','/','@','\\','<',0x10400,'-','\n',' '})); else if(super) sup(); else ch(' '); }
        if(shy) for(int i=q.range(0,2);i>0;i--) raw+="\xc2\xad"; // ignored characters, also at the very end
        // reference: left to right, longest match; unknown words are runs of letters
        std::vector<Unit> us; size_t p=0; while(p<t.size()){ size_t best=0; int bsec=0; std::map<size_t,std::vector<const Ent*>> at; for(auto&e: ents) if(fits(e,t,p,sens)) at[e.l.size()].push_back(&e); for(auto&x: at){ bool any=false,inc=false,post=false,pre=false; for(auto e: x.second){ any=true; inc|=e->sec==1; post|=e->sec==2; pre|=e->sec==3; } size_t nx=p+x.first; bool end=nx>=t.size()||!isal(t[nx]); if(any&&(inc||post||pre||end)){ best=x.first; bsec=inc?1:post?2:pre?3:0; } }
          if(best){ Unit u; u.word=true; u.c=bsec; u.sf.assign(t.begin()+p,t.begin()+p+best); for(auto e: at[best]) u.an.insert(out(*e,u.sf,dcase)); us.push_back(u); p+=best; }
          else if(isal(t[p])){ Unit u; u.word=true; u.c=0; size_t z=p; while(z<t.size()&&isal(t[z])) z++; u.sf.assign(t.begin()+p,t.begin()+z); std::string s; for(UChar32 x: u.sf) s+=esc1(x); u.an.insert("*"+s); us.push_back(u); p=z; }
          else { Unit u; u.word=false; u.c=t[p]; u.blank=bl[p]; us.push_back(u); p++; } }
        in+=raw; if(nul) in+='\0'; want.push_back(us); }
      std::string shown; for(char x: in) shown+=x==0?std::string("\\0"):x=='\n'?std::string("\\n"):x=='|'?std::string("!"):std::string(1,x); H::begin(cs+(sens?" -c":"")+(dcase?" -w":"")+" text "+shown.substr(0,600),in.empty()); save("p.in",in); { InputFile inf; inf.open("p.in"); UFILE*uo=u_fopen("p.out","wb",NULL,"UTF-8"); fst.setNullFlush(nul); fst.analysis(inf,uo); u_fclose(uo); } std::string res=slurp("p.out"); if(nul&&!res.empty()&&res.back()==0) res.pop_back(); // the run after the last NUL is empty
      // expected text; the order of the analyses of one word is free
      std::string g2=res; size_t pos=0; bool bad=false; std::string exp; bool mixed=false; // a blank inside a multiword comes after the word
      for(size_t pt=0;pt<want.size()&&!bad;pt++){ std::vector<std::string> pend; for(auto&u: want[pt]){ if(u.word){ if(u.c==3) exp+=" "; std::string s; for(UChar32 x: u.sf) s+=esc1(x); exp+="^"+s; // take the analyses from the output when they are the right set
              if(res.compare(0,exp.size(),exp)!=0){ bad=true; break; } size_t e=exp.size(); std::set<std::string> got; std::string cur; size_t z=e; bool first=true; for(;z<res.size()&&res[z]!='$';z++){ if(res[z]=='\\'){ cur+=res[z]; if(++z<res.size()) cur+=res[z]; } else if(res[z]=='/'){ if(!first){ if(!got.insert(cur).second) bad=true; } first=false; cur.clear(); } else cur+=res[z]; } if(!got.insert(cur).second) bad=true; CHECK(got==u.an,"a word gets exactly its dictionary analyses",[&]{ std::string m="word "+s+" got"; for(auto&y: got) m+=" "+y; m+=" want"; for(auto&y: u.an) m+=" "+y; for(char& y: m) if(y=='\n') y=' '; return m; }()); if(got!=u.an) { bad=true; break; } exp+=res.substr(e,z-e)+"$"; if(u.c==2) exp+=" "; for(UChar32 x: u.sf) if(x==' ') mixed=true; }
          else exp+= u.c==' '?u.blank:esc1(u.c); } if(nul&&pt+1<=want.size()) exp+='\0'; }
      if(nul&&!exp.empty()&&exp.back()==0&&!res.empty()&&res.back()!=0) exp.pop_back();
      if(super&&mixed){ // superblanks inside multiwords: they and the text are kept, their place may move
        auto strip=[](const std::string& s,std::string& b){ std::string t; for(size_t i=0;i<s.size();i++){ if(s[i]=='\\'){ t+=s.substr(i,2); i++; } else if(s[i]=='['){ size_t z=i; bool dbl=s.compare(i,2,"[[")==0; while(z<s.size()&&!(s[z]==']'&&(!dbl||s.compare(z,2,"]]")==0))){ if(s[z]=='\\') z++; z++; } if(dbl) z++; b+=s.substr(i,z-i+1); i=z; } else if(s[i]=='^'){ for(i++;i<s.size()&&s[i]!='/';i++){ if(s[i]=='\\'){ t+=s.substr(i,2); i++; } else if(s[i]!=' ') t+=s[i]; } while(i<s.size()&&s[i]!='$'){ if(s[i]=='\\') i++; i++; } } else if(s[i]!=' ') t+=s[i]; } return t; }; std::string b1,b2; if(shy) for(size_t z;(z=in.find("\xc2\xad"))!=std::string::npos;) in.erase(z,2); std::string t1=strip(in,b1),t2=strip(res,b2); if(nul){ std::string z; for(char x: t1) if(x) z+=x; t1=z; z.clear(); for(char x: t2) if(x) z+=x; t2=z; } CHECK(unesc(t1)==unesc(t2),"the characters of the text are kept, in order",t2); CHECK(b1==b2,"every superblank is kept, in order",b2); continue; }
      CHECK(!bad&&exp==res,"the output is the text, word by word, with nothing lost or added",[&]{ std::string m="got "+res.substr(0,500)+" want "+exp.substr(0,500); std::string y; for(char x: m) y+=x==0?std::string("\\0"):x=='\n'?std::string("\\n"):x=='|'?std::string("!"):std::string(1,x); return y; }());
    } }
  return finish(); }
