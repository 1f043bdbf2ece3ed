// U17: text utilities (trimming, splitting, case, symbols, encodings)
#include "h.h"
#include <lttoolbox/string_utils.h>
#include <lttoolbox/symbol_iter.h>
#include <lttoolbox/alphabet.h>
#include <lttoolbox/ustring.h>
#include <unicode/uchar.h>
#include <unicode/ustring.h>
using namespace H;
typedef std::vector<UChar32> Cp;
static UString enc(const Cp& v){ UString s; for(UChar32 c: v){ if(c>0xffff){ s+=(UChar)(0xd7c0+(c>>10)); s+=(UChar)(0xdc00|(c&0x3ff)); } else s+=(UChar)c; } return s; }
static Cp dec(UStringView s){ Cp r; for(size_t i=0;i<s.size();i++){ UChar32 c=s[i]; if(c>=0xd800&&c<0xdc00&&i+1<s.size()&&s[i+1]>=0xdc00&&s[i+1]<0xe000){ c=0x10000+((c&0x3ff)<<10)+(s[i+1]&0x3ff); i++; } r.push_back(c);} return r; }
static std::string toutf8(const Cp& v){ std::string s; for(UChar32 c: v){ if(c<0x80) s+=(char)c; else if(c<0x800){ s+=(char)(0xc0|c>>6); s+=(char)(0x80|(c&63)); } else if(c<0x10000){ s+=(char)(0xe0|c>>12); s+=(char)(0x80|((c>>6)&63)); s+=(char)(0x80|(c&63)); } else { s+=(char)(0xf0|c>>18); s+=(char)(0x80|((c>>12)&63)); s+=(char)(0x80|((c>>6)&63)); s+=(char)(0x80|(c&63)); } } return s; }
// the view handed to the library ends exactly where hostile neighbours begin
struct View { std::vector<UChar> buf; size_t n; View(const UString& s,UChar before,UChar after){ buf.assign(4,before); buf.insert(buf.end(),s.begin(),s.end()); n=s.size(); for(int i=0;i<4;i++) buf.push_back(after); } operator UStringView() const { return UStringView(buf.data()+4,n); } };
template<class F> static UString viaicu(F f,UStringView s){ UErrorCode e=U_ZERO_ERROR; std::vector<UChar> b(s.size()*4+8); int n=f(b.data(),(int)b.size(),s.data(),(int)s.size(),&e); return UString(b.data(),n); }
static std::string sv(const std::vector<UString>& v){ std::string r; for(auto&x: v) r+=u16(x)+" "; return r; }
int main(int c,char**v){ init(c,v); Rng r(g_seed); std::vector<UChar32> pool={'a','b','A','B','z','Z',' ',' ','\t',0xa0,0x3000,'/','/','\\','<','>','<','>','.',';','[',']','^','$',0xe9,0xc9,0xdf,0x130,0x131,0x149,0x390,0x3b0,0xfb03,0x1f80,0x3a3,0x3c2,0x10400,0x10428,0x1F600,0x1d400,0xfffd,'1','n'};
  while(more()){ uint64_t sd=r.next(); Rng q(sd); auto rnd=[&](int mx){ Cp p; int n=q.range(0,mx); int mode=q.below(4); for(int i=0;i<n;i++) p.push_back(mode==0?q.pick(std::vector<UChar32>{' ','a','\t',0x3000,0x1F600}):mode==1?q.pick(std::vector<UChar32>{'a','/','\\','<','>','n',0x1F600,'b'}):mode==2?(UChar32)(1+q.below(0xd7ff)):q.pick(pool)); return p; };
    Cp p=rnd(10); UString s=enc(p); View w(s,q.pick(std::vector<UChar>{' ','x','\\'}),q.pick(std::vector<UChar>{' ','\\','>','x',0xdc00})); UStringView sw=w; std::string d=u16(s);
    { H::begin("trim "+d,s.empty()); size_t a=0,b=p.size(); while(a<b&&u_isspace(p[a])) a++; while(b>a&&u_isspace(p[b-1])) b--; UString want=enc(Cp(p.begin()+a,p.begin()+b)); UString got=US(StringUtils::trim(sw)); CHECK(got==want,"trim removes exactly the surrounding white space",u16(got)); }
    { UString del=enc(Cp(1+q.below(2),q.pick(std::vector<UChar32>{'/','a',' ',0x1F600}))); H::begin("split "+d+" by "+u16(del),s.empty()); std::vector<UString> want; UString cur; for(size_t i=0;i<s.size();){ if(s.compare(i,del.size(),del)==0){ if(!cur.empty()) want.push_back(cur); cur.clear(); i+=del.size(); } else cur+=s[i++]; } if(!cur.empty()) want.push_back(cur); auto got=StringUtils::split(sw,del); CHECK(got==want,"split gives the non-empty pieces between delimiters",sv(got)); UString back=StringUtils::join(got,del); auto again=StringUtils::split(back,del); CHECK(again==got,"splitting a joined list gives the list back",sv(again)); UString j; for(size_t i=0;i<want.size();i++){ if(i) j+=del; j+=want[i]; } CHECK(back==j,"join puts the delimiter between the pieces",u16(back)); }
    { UChar del=q.pick(std::vector<UChar>{'/','a','<'}); H::begin("split_escaped "+d,s.empty()); std::vector<UString> want; UString cur; for(size_t i=0;i<s.size();i++){ if(s[i]=='\\'){ cur+=s[i]; if(i+1<s.size()) cur+=s[++i]; } else if(s[i]==del){ if(!cur.empty()) want.push_back(cur); cur.clear(); } else cur+=s[i]; } if(!cur.empty()) want.push_back(cur); auto got=StringUtils::split_escaped(sw,del); CHECK(got==want,"split_escaped cuts at unescaped delimiters only",sv(got)); }
    { UString o=enc(Cp(1+q.below(2),q.pick(p.empty()?std::vector<UChar32>{'a'}:p))),n=enc(q.chance(1,3)?Cp{}:q.chance(1,2)?Cp{'x',dec(o)[0],dec(o)[0]}:rnd(3)); H::begin("substitute "+d+" "+u16(o)+" by "+u16(n)); UString want; for(size_t i=0;i<s.size();){ if(s.compare(i,o.size(),o)==0){ want+=n; i+=o.size(); } else want+=s[i++]; } UString got=StringUtils::substitute(sw,o,n); CHECK(got==want,"substitute replaces every occurrence once, left to right",u16(got)); }
    { int k=q.chance(1,4)?(int)q.next():q.range(-1000,1000); H::begin("number "+std::to_string(k)); UString t=StringUtils::itoa(k); CHECK(std::string(t.begin(),t.end())==std::to_string(k)&&StringUtils::itoa_string(k)==std::to_string(k),"itoa writes the decimal number",u16(t)); CHECK(StringUtils::stoi(t)==k,"stoi reads back what itoa wrote",StringUtils::stoi(t)); double f=q.range(-100000,100000)/64.0; UString ft=StringUtils::ftoa(f); CHECK(std::abs(StringUtils::stod(ft)-f)<1e-5,"stod reads back what ftoa wrote",u16(ft)); double inf=std::numeric_limits<double>::infinity(); CHECK(StringUtils::stod(u"inf")==inf&&StringUtils::stod(u"-inf")==-inf,"infinities are read",0); }
    { H::begin("case "+d,s.empty()); UString lo=StringUtils::tolower(sw),up=StringUtils::toupper(sw),ti=StringUtils::totitle(sw); UString wl=viaicu([](UChar*b,int n,const UChar*x,int m,UErrorCode*e){return u_strToLower(b,n,x,m,NULL,e);},s),wu=viaicu([](UChar*b,int n,const UChar*x,int m,UErrorCode*e){return u_strToUpper(b,n,x,m,NULL,e);},s),wt=viaicu([](UChar*b,int n,const UChar*x,int m,UErrorCode*e){return u_strToTitle(b,n,x,m,NULL,NULL,e);},s); CHECK(lo==wl,"tolower is the full lower-case mapping",u16(lo)); CHECK(up==wu,"toupper is the full upper-case mapping",u16(up)); CHECK(ti==wt,"totitle is the full title-case mapping",u16(ti));
      UString gc=StringUtils::getcase(sw),wg=u"aa"; if(!p.empty()&&u_isupper(p[0])){ wg[0]='A'; if(p.size()>1&&u_isupper(p.back())) wg[1]='A'; } CHECK(gc==wg,"getcase looks at the first and the last character",u16(gc)); Cp p2=rnd(6); UString s2=enc(p2); UString cc=StringUtils::copycase(sw,s2),wc=s2; if(!p.empty()&&!p2.empty()){ auto m=[&](int k){ return viaicu([k](UChar*b,int n,const UChar*x,int mm,UErrorCode*e){ return k==0?u_strToLower(b,n,x,mm,NULL,e):k==1?u_strToUpper(b,n,x,mm,NULL,e):u_strToTitle(b,n,x,mm,NULL,NULL,e);},s2); }; wc=m(wg[0]=='a'?0:wg[1]=='A'?1:2); } CHECK(cc==wc,"copycase gives the target the case of the source",u16(cc)<<" for "<<u16(s2));
      auto fold=[&](const UString& x){ return viaicu([](UChar*b,int n,const UChar*y,int m,UErrorCode*e){return u_strFoldCase(b,n,y,m,U_FOLD_CASE_DEFAULT,e);},x); }; UString o=q.chance(1,3)?up:q.chance(1,2)?lo:s2; bool ce=StringUtils::caseequal(sw,o); CHECK(ce==(fold(s)==fold(o)),"caseequal iff the case-folded texts are equal",u16(o)<<" "<<ce);
      UString pre=q.chance(1,2)?s.substr(0,q.below(s.size()+1)):s2, suf=q.chance(1,2)?s.substr(q.below(s.size()+1)):s2; CHECK(StringUtils::startswith(sw,pre)==(s.compare(0,pre.size(),pre)==0),"startswith",u16(pre)); CHECK(StringUtils::endswith(sw,suf)==(suf.size()<=s.size()&&s.compare(s.size()-suf.size(),suf.size(),suf)==0),"endswith",u16(suf)); }
    { H::begin("encodings "+d,s.empty()); std::vector<int32_t> v32={7}; ustring_to_vec32(sw,v32); Cp g(v32.begin()+1,v32.end()); CHECK(v32[0]==7&&g==p,"ustring_to_vec32 appends one element per character",g.size()); UString t; for(auto x: p) t+=(UChar32)x; CHECK(t==s,"appending characters gives the text",u16(t)); std::string u=toutf8(p); if(!p.empty()) CHECK(to_ustring(u.c_str())==s,"UTF-8 is decoded to the same characters",hex(u)); std::ostringstream o; o<<sw; CHECK(o.str()==u,"text is printed as UTF-8",hex(o.str())); bool nul=false; for(auto x: p) if(!x) nul=true; if(!nul){ static UChar wb[4096]; std::fill(wb,wb+4096,0); UFILE* uf=u_fstropen(wb,4095,NULL); write(sw,uf); u_fclose(uf); CHECK(UString(wb)==s,"write writes exactly the text",u16(UString(wb))); } }
    { H::begin("symbols "+d,s.empty()); // backslash escapes, <...> is one symbol, anything else is one character
      std::vector<UString> want; for(size_t i=0;i<p.size();){ if(p[i]=='\\'){ i++; if(i<p.size()) want.push_back(enc({p[i++]})); } else if(p[i]=='<'){ size_t k=i; while(k<p.size()&&p[k]!='>') k++; if(k<p.size()){ want.push_back(enc(Cp(p.begin()+i,p.begin()+k+1))); i=k+1; } else want.push_back(enc({p[i++]})); } else want.push_back(enc({p[i++]})); }
      std::vector<UString> got; int lim=0; for(auto sym: symbol_iter(sw)){ got.push_back(US(sym)); if(++lim>60) break; } CHECK(got==want,"text is cut into escaped characters, <symbols> and characters",sv(got)<<" want "<<sv(want));
      Alphabet al; al.includeSymbol(u"<n>"); al.includeSymbol(u"<>"); al.includeSymbol(u"<a>"); bool known=true; std::vector<int32_t> wt; for(auto& x: want){ if(x.size()>2||x==u"<>"){ if(!al.isSymbolDefined(x)) known=false; wt.push_back(al(x)); } else wt.push_back(dec(x)[0]); } if(known&&lim<=60&&got==want){ Alphabet const& ca=al; auto tk=ca.tokenize(sw); CHECK(tk==wt,"tokenize maps symbols to identifiers and characters to themselves",tk.size()); } }
    { UString a=u"[["+enc(q.chance(1,4)?Cp{}:Cp{'a'})+enc(rnd(3))+u"]]",b=(q.chance(1,3)?u"[[ b":q.chance(1,3)?u"[[":u"[[b")+enc(rnd(3))+u"]]"; if(q.chance(1,5)) a.clear(); if(q.chance(1,5)) b.clear(); H::begin("wblanks "+u16(a)+" "+u16(b)); UString g=StringUtils::merge_wblanks(a,b),wn=a.empty()?b:b.empty()?a:a.substr(0,a.size()-2)+u"; "+b.substr(2); CHECK(g==wn,"merging word blanks keeps both contents",u16(g)); }
  }
  return finish(); }
