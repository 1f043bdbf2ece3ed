// T08: editing primitives do exactly what they say
#include "tr.h"
using namespace H;
static std::string d(const char* op,const G& a,const G& got){ return std::string(op)+" on "+str(a)+" gave "+str(got); }
int main(int c,char**v){ init(c,v); Rng r(g_seed);
  const int L=4;
  { begin("new transducer",true); Transducer t; G g=graph(t); CHECK(g.states.size()==1&&g.arcs.empty()&&g.fin.empty()&&g.states.count(g.init),"a new transducer is one state",str(g)); CHECK(t.isEmpty()&&t.hasNoFinals()&&t.size()==1&&t.numberOfTransitions()==0&&!t.weighted(),"queries on a new transducer",""); }
  while(more()){ g_cut=false; uint64_t sd=r.next(); Rng q(sd); Opt o; o.maxn=q.range(1,6); o.labels=q.range(1,3); o.maxarcs=q.range(0,10); o.eps_pct=q.pick(std::vector<int>{0,20,50}); int eps=0;
    G g=random_g(q,o); begin("seed "+std::to_string(sd)+" "+str(g)); Transducer t=make(g); CHECK(graph(t)==g,"built as asked",str(graph(t)));
    // queries
    CHECK(t.size()==(int)g.states.size(),"size",t.size()); CHECK(t.numberOfTransitions()==(int)g.arcs.size(),"number of transitions",t.numberOfTransitions());
    bool w=false; for(auto&a: g.arcs) if(a.w!=0) w=true; for(auto&f: g.fin) if(f.second!=0) w=true; CHECK(t.weighted()==w,"weighted iff some weight differs from the default",w);
    CHECK(t.hasNoFinals()==g.fin.empty(),"hasNoFinals",""); CHECK(t.isEmpty()==(g.fin.empty()&&g.states.size()==1),"isEmpty","");
    for(int s: g.states){ bool e=true; for(auto&a: g.arcs) if(a.s==s) e=false; CHECK(t.isEmpty(s)==e,"isEmpty(state)",s); CHECK(t.isFinal(s)==(g.fin.count(s)>0),"isFinal",s); }
    { Transducer k(t); CHECK(graph(k)==g,"copy equals original",str(graph(k))); Transducer k2; k2.insertSingleTransduction(3,0); k2.setFinal(1); k2=t; CHECK(graph(k2)==g,"assignment equals original",""); k.insertNewSingleTransduction(1,0); k.setFinal(0,7); k2.clear(); CHECK(graph(t)==g,"copies are independent",str(graph(t))); G e=graph(k2); CHECK(e.states.size()==1&&e.arcs.empty()&&e.fin.empty()&&e.states.count(e.init),"clear leaves one state",str(e)); k2=t; k2=*&k2; CHECK(graph(k2)==g,"self assignment",""); }
    // random history of primitive edits against a reference
    G f=g; int n=q.range(1,14);
    for(int i=0;i<n;i++){ int S=f.states.size(); int s=q.below(S), u=q.below(S), l=q.chance(1,4)?0:q.range(1,3); double w=rw(q,o); std::ostringstream op;
      switch(q.below(5)){
      case 0: { op<<" ins("<<l<<","<<s<<","<<w<<")"; std::vector<Arc> m; for(auto&a: f.arcs) if(a.s==s&&a.l==l) m.push_back(a); int got=t.insertSingleTransduction(l,s,w);
          std::vector<int> tg; bool loop=false; for(auto&a: m) if(a.w==w){ if(a.t!=s) tg.push_back(a.t); else if(m.size()==1) loop=true; }
          if(loop) CHECK(got==s||got==S,"a fresh state, or the only arc with the label",op.str()<<" got "<<got);
          if(tg.empty()&&!(loop&&got==s)){ CHECK(!f.states.count(got),"without an arc of that label and weight a fresh state is made",op.str()); CHECK(got==S,"states stay dense",got); f.states.insert(got); f.arcs.insert({s,l,got,w}); }
          else if(!tg.empty()) CHECK(std::count(tg.begin(),tg.end(),got)>=1,"an arc with that label and weight is reused",op.str()<<" got "<<got); break; }
      case 1: { op<<" new("<<l<<","<<s<<","<<w<<")"; int got=t.insertNewSingleTransduction(l,s,w); CHECK(got==S,"a fresh state, densely numbered",got); f.states.insert(got); f.arcs.insert({s,l,got,w}); break; }
      case 2: { op<<" link("<<s<<","<<u<<","<<l<<","<<w<<")"; bool h=false; for(auto&a: f.arcs) if(a.s==s&&a.l==l&&a.t==u) h=true; t.linkStates(s,u,l,w); if(!h) f.arcs.insert({s,l,u,w}); break; }
      case 3: { op<<" final("<<s<<","<<w<<")"; t.setFinal(s,w); if(!f.fin.count(s)) f.fin[s]=w; break; }
      case 4: { op<<" notfinal("<<s<<")"; t.setFinal(s,0,false); f.fin.erase(s); break; } }
      G now=graph(t); CHECK(now==f,"exactly that edit happened",op.str()<<" expected "<<str(f)<<" got "<<str(now)); if(!(now==f)) break; }
    if(f.fin.empty()) { t.setFinal(0,0); f=graph(t); }
    g=f; Lang l0=lang(g,L);
    { Transducer k(t); k.joinFinals(eps); G j=graph(k); CHECK(j.fin.size()==1,"one final state after joining",str(j)); CHECK(same_lang(lang(j,L),l0),"joining final states keeps strings and weights",d("joinFinals",g,j)); if(g.fin.size()==1) CHECK(j==g,"one final state already: nothing to do",str(j)); }
    { Transducer k(t); k.optional(eps); G j=graph(k); Lang e; add(e,{},0); CHECK(same_lang(lang(j,L),uni(l0,e)),"optional adds exactly the empty string",d("optional",g,j)+" lang "+lstr(lang(j,L))); }
    { Transducer k(t); k.oneOrMore(eps); G j=graph(k); CHECK(same_lang(lang(j,L),plusl(l0,L)),"oneOrMore = one or more repetitions",d("oneOrMore",g,j)+" lang "+lstr(lang(j,L))); }
    { Transducer k(t); k.zeroOrMore(eps); G j=graph(k); Lang e; add(e,{},0); CHECK(same_lang(lang(j,L),uni(plusl(l0,L),e)),"zeroOrMore = any number of repetitions",d("zeroOrMore",g,j)+" lang "+lstr(lang(j,L))); }
    { Opt o2=o; o2.maxn=4; G h=random_g(q,o2); if(q.chance(1,5)) h.arcs.clear(); Transducer a(t), b=make(h); int src=q.below(g.states.size()); Lang lh=lang(h,L); int end=a.insertTransducer(src,b,eps); G j=graph(a);
      std::multiset<Arc> old; for(auto&x: j.arcs) if(g.states.count(x.s)) old.insert(x); std::multiset<Arc> ex; for(auto&x: old) if(!g.arcs.count(x)) ex.insert(x);
      bool kept=std::includes(j.states.begin(),j.states.end(),g.states.begin(),g.states.end())&&old.size()==g.arcs.size()+1&&std::includes(old.begin(),old.end(),g.arcs.begin(),g.arcs.end())&&j.fin==g.fin&&j.init==g.init;
      CHECK(kept,"the receiving transducer keeps all it had, plus one link",d("insertTransducer",g,j)+" inserted "+str(h));
      G k=j; k.init=src; k.fin.clear(); k.fin[end]=0; std::multiset<Arc> na; for(auto&x: j.arcs) if(!g.arcs.count(x)) na.insert(x); 
      // language from src to the returned state, only through the inserted part
      G only; only.init=src; only.states=j.states; only.fin[end]=0; for(auto&x: j.arcs) if(!g.states.count(x.s)) only.arcs.insert(x); for(auto&x: j.arcs) if(g.states.count(x.s)&&!g.states.count(x.t)) only.arcs.insert(x);
      Lang want; double fw0=0; for(auto&x: lh) { double wgt=x.second; if(h.fin.size()==1) wgt-=h.fin.begin()->second; add(want,x.first,wgt);} (void)fw0;
      CHECK(same_lang(lang(only,L),want),"the inserted part accepts the strings of the inserted transducer",d("insertTransducer",g,j)+" inserted "+str(h)+" got "+lstr(lang(only,L))+" want "+lstr(want));
      G bj=graph(b); CHECK(same_lang(lang(bj,L),lh),"the inserted transducer keeps its language",str(bj)); }
    { // union: this must not be re-enterable at its initial state for a plain union
      bool re=false; for(auto&a: g.arcs) if(a.t==g.init) re=true; if(!re){ Opt o2=o; o2.maxn=4; G h=random_g(q,o2); Transducer a(t), b=make(h); Alphabet al; Lang lh=lang(h,L); a.unionWith(al,b); G j=graph(a); CHECK(same_lang(lang(j,L),uni(l0,lh)),"union = strings of either",d("unionWith",g,j)+" with "+str(h)); } }
  }
  return finish(); }
