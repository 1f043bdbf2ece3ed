// random dictionaries as plain data, their XML text and their reference expansion
#pragma once
#include "tr.h"
namespace H {
typedef std::vector<std::string> Sy;              // symbols: UTF-8 characters or <tags>
struct Pr { Sy l,r; double w=0; };
struct El { int kind; Sy l,r; std::string par; }; // 0 pair, 1 identity, 2 paradigm, 3 identity group
struct En { std::string r; bool ignore=false; double w=0; std::vector<El> els; std::string alt,v,vl,vr; };
struct Dix { std::vector<std::string> tags; std::vector<std::pair<std::string,std::vector<En>>> pars; std::vector<std::tuple<std::string,std::string,std::vector<En>>> secs; std::string letters; };
inline std::string cat(const Sy& s){ std::string r; for(auto&x: s) r+=x; return r; }
inline std::string esc(const std::string& s){ std::string r; for(char c: s) r+= c=='<'?"&lt;":c=='>'?"&gt;":c=='&'?"&amp;":std::string(1,c); return r; }
inline std::string xml(const Sy& s){ std::string r; for(size_t i=0;i<s.size();i++){ auto&x=s[i]; if(x==" ") r+="<b/>"; else if(x=="\x01") r+="<m/>"; else if(x=="+") r+="<j/>"; else if(x=="~") r+="<a/>"; else if(x=="#"){ r+="<g>"; for(size_t j=i+1;j<s.size();j++) r+= s[j]==" "?"<b/>":s[j]=="\x01"?"<m/>":s[j][0]=='<'?"<s n=\""+s[j].substr(1,s[j].size()-2)+"\"/>":esc(s[j]); return r+"</g>"; } else if(x.size()>1&&x[0]=='<') r+="<s n=\""+x.substr(1,x.size()-2)+"\"/>"; else r+=esc(x); } return r; }
inline std::string xml(const En& e){ std::string r="<e"; if(!e.r.empty()) r+=" r=\""+e.r+"\""; if(e.ignore) r+=" i=\"yes\""; if(!e.alt.empty()) r+=" alt=\""+e.alt+"\""; if(!e.v.empty()) r+=" v=\""+e.v+"\""; if(!e.vl.empty()) r+=" vl=\""+e.vl+"\""; if(!e.vr.empty()) r+=" vr=\""+e.vr+"\""; if(e.w!=0){ std::ostringstream o; o<<e.w; r+=" w=\""+o.str()+"\""; } if(e.els.empty()) return r+"/>\n"; r+=">"; for(auto&x: e.els){ if(x.kind==0) r+="<p><l>"+xml(x.l)+"</l><r>"+xml(x.r)+"</r></p>"; else if(x.kind==1) r+="<i>"+xml(x.l)+"</i>"; else if(x.kind==3) r+="<ig>"+xml(x.l)+"</ig>"; else r+="<par n=\""+x.par+"\"/>"; } return r+"</e>\n"; }
inline std::string xml(const Dix& d){ std::string r="<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<dictionary>\n<alphabet>"+esc(d.letters)+"</alphabet>\n<sdefs>"; for(auto&t: d.tags) r+="<sdef n=\""+t.substr(1,t.size()-2)+"\"/>"; r+="</sdefs>\n"; if(!d.pars.empty()){ r+="<pardefs>\n"; for(auto&p: d.pars){ r+="<pardef n=\""+p.first+"\">"; for(auto&e: p.second) r+=xml(e); r+="</pardef>\n"; } r+="</pardefs>\n"; } for(auto&s: d.secs){ r+="<section id=\""+std::get<0>(s)+"\" type=\""+std::get<1>(s)+"\">\n"; for(auto&e: std::get<2>(s)) r+=xml(e); r+="</section>\n"; } return r+"</dictionary>\n"; }
struct Flt { std::string dir, alt, v, vl, vr; };
inline bool has(const std::string& val,const std::string& f){ std::istringstream i(val); std::string w; while(i>>w) if(w==f) return true; return false; }
inline bool kept(const En& e,const Flt& f){ if(e.ignore) return false; if(!e.r.empty()&&e.r!=f.dir) return false; if(!e.alt.empty()&&!has(e.alt,f.alt)) return false; if(!e.v.empty()&&!f.v.empty()&&!has(e.v,f.v)) return false; if(f.dir=="RL"&&!e.vl.empty()&&!has(e.vl,f.vl)) return false; if(f.dir=="LR"&&!e.vr.empty()&&!has(e.vr,f.vr)) return false; return true; }
typedef std::vector<Pr> Prs;
inline bool g_keepm=false; // <m/> stands for > or for nothing
inline Sy bound(const Sy& s){ Sy r; for(auto&x: s) if(x!="\x01") r.push_back(x); else if(g_keepm) r.push_back(">"); return r; }
inline Prs expand(const Dix& d,const En& e,const Flt& f,size_t cap=3000){ Prs cur(1); if(!kept(e,f)) return {}; for(auto&x: e.els){ Prs nx; Prs opts; if(x.kind==2){ for(auto&p: d.pars) if(p.first==x.par) for(auto&g: p.second){ auto o=expand(d,g,f,cap); opts.insert(opts.end(),o.begin(),o.end()); } } else { Pr p; p.l=bound(x.l); p.r=bound(x.kind==0?x.r:x.l); if(x.kind==3) p.r.insert(p.r.begin(),"#"); p.w=(p.l.empty()&&p.r.empty())?0:e.w; opts.push_back(p); } for(auto&a: cur) for(auto&b: opts){ Pr p=a; p.l.insert(p.l.end(),b.l.begin(),b.l.end()); p.r.insert(p.r.end(),b.r.begin(),b.r.end()); p.w+=b.w; nx.push_back(p); if(nx.size()>cap) return nx; } cur=nx; } return cur; }
struct DOpt { bool weights=false, blanks=true, variants=false, oneword=false, marks=false, empties=false; int maxpar=4, maxent=5; std::vector<std::string> letters={"a","b","c","é","ñ","ж","😀","A"}; };
inline Sy rsy(Rng& r,const Dix& d,const DOpt& o,int mx,bool tags){ Sy s; int n=r.range(0,mx); for(int i=0;i<n;i++) s.push_back(o.blanks&&r.chance(1,12)?" ":o.marks&&r.chance(1,10)?"\x01":r.pick(o.letters)); if(tags){ int m=r.range(0,2); for(int i=0;i<m;i++) s.push_back(r.pick(d.tags)); } return s; }
inline En ren(Rng& r,const Dix& d,const DOpt& o,int npar,bool inpar){ En e; if(r.chance(1,5)) e.r=r.chance(1,2)?"LR":"RL"; if(r.chance(1,15)) e.ignore=true; if(o.weights&&r.chance(1,2)) e.w=r.chance(1,6)?r.pick(std::vector<double>{0.001,-0.5,0.0078125,1234.5,-0.25}):(1+r.below(4))*0.5; if(o.variants){ auto f=[&](std::string& s){ if(r.chance(1,4)){ s=r.pick(std::vector<std::string>{"x","y","x y","z"}); } }; f(e.alt); f(e.v); f(e.vl); f(e.vr); } int n=r.range(1,3); if(o.empties&&(e.ignore||!e.r.empty())&&r.chance(1,4)){ e.ignore=true; n=0; } for(int i=0;i<n;i++){ El x; int k=r.below(8); if(k<2&&npar>0){ x.kind=2; x.par=d.pars[r.below(npar)].first; } else if(k<4){ x.kind=1; x.l=rsy(r,d,o,3,false); } else if(k==4&&o.blanks&&r.chance(1,3)){ x.kind=3; x.l=rsy(r,d,o,2,false); } else { x.kind=0; x.l=rsy(r,d,o,3,false); x.r=rsy(r,d,o,3,true); if(o.blanks){ if(r.chance(1,10)) x.r.push_back("+"); if(r.chance(1,12)) x.l.insert(x.l.begin(),"~"); if(r.chance(1,12)){ x.r.push_back("#"); for(auto&z: rsy(r,d,o,2,false)) x.r.push_back(z); } } } e.els.push_back(x); } return e; }
inline Dix rdix(Rng& r,const DOpt& o){ Dix d; d.letters="abcéñжAB"; d.tags={"<n>","<v>","<pl>","<é>"}; int np=r.range(0,o.maxpar); for(int i=0;i<np;i++){ std::vector<En> es; int k=r.range(1,3); for(int j=0;j<k;j++) es.push_back(ren(r,d,o,i,true)); d.pars.push_back({"p"+std::to_string(i),es}); } int ns=r.range(1,2); for(int i=0;i<ns;i++){ std::vector<En> es; int k=r.range(1,o.maxent); for(int j=0;j<k;j++) es.push_back(ren(r,d,o,np,false)); d.secs.push_back({"s"+std::to_string(i),i==0?"standard":"inconditional",es}); } return d; }
typedef std::map<std::pair<std::string,std::string>,double> Rel; // (left, right) -> least weight
inline void put(Rel& m,const Pr& p,bool rl){ auto k=rl?std::make_pair(cat(p.r),cat(p.l)):std::make_pair(cat(p.l),cat(p.r)); auto i=m.find(k); if(i==m.end()||p.w<i->second) m[k]=p.w; }
inline std::string show(const Rel& m,size_t mx=25){ std::string s; size_t n=0; for(auto&x: m){ if(n++>=mx){ s+="..."; break; } std::ostringstream o; o<<x.second; s+=x.first.first+":"+x.first.second+"@"+o.str()+" "; } return s; }
inline std::string u8(const UString& s){ std::string r; for(size_t i=0;i<s.size();i++){ uint32_t c=(uint16_t)s[i]; if(c>=0xd800&&c<0xdc00&&i+1<s.size()){ c=0x10000+((c&0x3ff)<<10)+(s[++i]&0x3ff); } if(c<0x80) r+=(char)c; else if(c<0x800){ r+=(char)(0xc0|c>>6); r+=(char)(0x80|(c&63)); } else if(c<0x10000){ r+=(char)(0xe0|c>>12); r+=(char)(0x80|((c>>6)&63)); r+=(char)(0x80|(c&63)); } else { r+=(char)(0xf0|c>>18); r+=(char)(0x80|((c>>12)&63)); r+=(char)(0x80|((c>>6)&63)); r+=(char)(0x80|(c&63)); } } return r; }
inline std::string symtext(const Alphabet& a,int c){ UString s; a.getSymbol(s,c); return u8(s); }
// all accepted pairs of an acyclic transducer, or false when it is cyclic or too big
inline bool pairs(const G& g,const Alphabet& al,Rel& out,size_t cap=20000){ std::multimap<int,Arc> by; for(auto&a: g.arcs) by.insert({a.s,a}); struct Fr { int s; std::string l,r; double w; int depth; }; std::vector<Fr> st={{g.init,"","",0,0}}; size_t n=0; while(!st.empty()){ Fr f=st.back(); st.pop_back(); if(f.depth>200||++n>cap) return false; auto fi=g.fin.find(f.s); if(fi!=g.fin.end()){ double w=f.w+fi->second; auto k=std::make_pair(f.l,f.r); auto i=out.find(k); if(i==out.end()||w<i->second) out[k]=w; } auto e=by.equal_range(f.s); for(auto i=e.first;i!=e.second;++i){ auto p=al.decode(i->second.l); st.push_back({i->second.t,f.l+symtext(al,p.first),f.r+symtext(al,p.second),f.w+i->second.w,f.depth+1}); } } return true; }
inline bool same(const Rel& a,const Rel& b,bool w=true){ if(a.size()!=b.size()) return false; for(auto&x: a){ auto i=b.find(x.first); if(i==b.end()||(w&&std::abs(i->second-x.second)>1e-6)) return false; } return true; }
}
