// SRC: stack_dec/PhrLocalSwLiTm.cc stack_dec/PhrScoreInfo.cc stack_dec/PhrHypState.cc stack_dec/PhrHypEqClassF.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/AwkInputStream.cc incr_models/WordPredictor.cc stack_dec/BaseHypState.cc
// LIB: -lgmp -no-pie -Wl,--unresolved-symbols=ignore-all
#include "h.hpp"
#include <stddef.h>
#include <string.h>
#include "ins_op_pair.h"
#include "PhraseBasedTmHypRec.h"
#include "PhraseBasedTmHyp.h"
#include "PbTransModel.h"
#include "PhrLocalSwLiTm.h"
using namespace vh; using namespace std; static string hist;
typedef PhrHypNumcovJumps01EqClassF EQ; typedef PbTransModel<EQ> PB; typedef PhrLocalSwLiTm LT; typedef Bitset<MAX_SENTENCE_LENGTH_ALLOWED> BS; const unsigned N=MAX_SENTENCE_LENGTH_ALLOWED;
extern "C" char _ZTV14PhrLocalSwLiTm[];
typedef vector<WordIndex> W; typedef pair<PositionIndex,PositionIndex> Sg;
struct Step{ Sg s; W t; unsigned from,to; };   // words from..to of the translation (1-based, empty if from>to)
static string sh(const PhrHypData&d){ return "words "+str(d.ntarget)+" segments "+str(d.sourceSegmentation)+" cuts "+str(d.targetSegmentCuts); }
static bool same(const PhrHypData&a,const PhrHypData&b){ return a.ntarget==b.ntarget&&a.sourceSegmentation==b.sourceSegmentation&&a.targetSegmentCuts==b.targetSegmentCuts; }
template<class H> static void hyp(const char*nm,const PhrHypData&d,const vector<Step>&st,unsigned n){ H h; h.setData(d); string w=string(nm)+": "; BS key=h.getKey(); vector<char> cov(N,0); for(auto&s:st) for(unsigned x=s.s.first;x<=s.s.second;++x) cov[x]=1;
 CHECK(same(h.getData(),d),w+"the stored partial translation is "+sh(h.getData()),hist);
 for(unsigned x=0;x<N;++x){ CHECK(h.isAligned(x)==(bool)cov[x],w+"isAligned("+str(x)+") is "+str(h.isAligned(x)),hist); CHECK(key.test(x)==(bool)cov[x],w+"position "+str(x)+" of the key is "+str(key.test(x)),hist); }
 unsigned len=d.ntarget.size()-1; CHECK(h.partialTransLength()==len,w+"length "+str(h.partialTransLength()),hist); CHECK(h.getPartialTrans()==d.ntarget,w+"partial translation "+str(h.getPartialTrans()),hist);
 for(unsigned k=0;k<40;++k){ unsigned x=rnd(n+2),j=rnd(len+2); bool want=false; for(auto&s:st) if(x>=s.s.first&&x<=s.s.second&&j>=s.from&&j<=s.to) want=true; CHECK(h.areAligned(x,j)==want,w+"areAligned("+str(x)+","+str(j)+") is "+str(h.areAligned(x,j)),hist); }
 for(auto&s:st){ W t(rnd(3),77); h.getTrgTransForSrcPhr(s.s,t); CHECK(t==s.t,w+"segment "+str(s.s)+" is translated as "+str(t),hist); }
 { Sg q(1+rnd(n),1+rnd(n)); W t(rnd(3),77),want; for(auto&s:st) if(s.s==q) want=s.t; h.getTrgTransForSrcPhr(q,t); CHECK(t==want,w+"segment "+str(q)+" is translated as "+str(t)+", expected "+str(want),hist); }
 SourceSegmentation ss(rnd(3)); vector<PositionIndex> cu(rnd(3)); h.getPhraseAlign(ss,cu); CHECK(ss==d.sourceSegmentation&&cu==d.targetSegmentCuts,w+"segments "+str(ss)+" cuts "+str(cu),hist); }
template<class H> static void state(const char*nm,const PhrHypData&d,const vector<Step>&st,unsigned){ H h; h.setData(d); string w=string(nm)+": "; PhrScoreInfo si; si.score=-2.5; for(unsigned k=0;k<rnd(4);++k) si.lmHist.push_back(rnd(9)); h.setScoreInfo(si); PhrHypState s=h.getHypState();
 CHECK(s.lmHist==si.lmHist,w+"history of the state "+str(s.lmHist),hist); CHECK(s.trglen==d.ntarget.size()-1,w+"length of the state "+str(s.trglen),hist); CHECK(s.endLastSrcPhrase==(st.empty()?0:st.back().s.second),w+"last position of the state "+str(s.endLastSrcPhrase),hist);
 for(unsigned x=0;x<N;++x){ bool c=false; for(auto&z:st) if(x>=z.s.first&&x<=z.s.second) c=true; CHECK(s.sourceWordsAligned.test(x)==c,w+"position "+str(x)+" of the state",hist); } }
struct APB: PB { static void ext(PB*p,unsigned l,unsigned r,const W&t,PhrHypData&d){ (p->*(&APB::extendHypDataIdx))(l,r,t,d); } static unsigned unc(PB*p,const PhrHypData&d){ return (p->*(&APB::numberOfUncoveredSrcWordsHypData))(d); } static unsigned last(PB*p,const PhrHypData&d){ return (p->*(&APB::getLastSrcPosCoveredHypData))(d); }
 static PbTransModelInputVars& in(PB*p){ return p->*(&APB::pbtmInputVars); } static void gaps(PB*p,const BS&b,vector<Sg>&g){ void (PB::*f)(const BS&,vector<Sg>&)=&APB::extract_gaps; (p->*f)(b,g); } static unsigned ng(PB*p,const BS&b){ return (p->*(&APB::get_num_gaps))(b); } };
struct ALT: LT { static void ext(LT*p,unsigned l,unsigned r,const W&t,PhrHypData&d){ (p->*(&ALT::extendHypDataIdx))(l,r,t,d); } static unsigned unc(LT*p,const PhrHypData&d){ return (p->*(&ALT::numberOfUncoveredSrcWordsHypData))(d); } static unsigned last(LT*p,const PhrHypData&d){ return (p->*(&ALT::getLastSrcPosCoveredHypData))(d); }
 static PbTransModelInputVars& in(LT*p){ return p->*(&ALT::pbtmInputVars); } static void gaps(LT*p,const BS&b,vector<Sg>&g){ void (LT::*f)(const BS&,vector<Sg>&)=&ALT::extract_gaps; (p->*f)(b,g); } static unsigned ng(LT*p,const BS&b){ return (p->*(&ALT::get_num_gaps))(b); } };
static void classes(const PhrHypData&d,const vector<Step>&st){ unsigned c=0,jumps=0,last=0; for(auto&s:st){ c+=s.s.second-s.s.first+1; if(last+1!=s.s.first) ++jumps; last=s.s.second; }
 PhrHypEqClassF f; CHECK(f(d)==c,"class of the hypothesis is "+str(f(d))+" for "+str(c)+" covered positions",hist); PhrHypNumcovJumpsEqClassF g; pair<unsigned,unsigned> e=g(d); CHECK(e.first==c,"class of the hypothesis (positions, jumps) is "+str(e)+" for "+str(c)+" covered positions",hist); EQ q; e=q(d); CHECK(e.first==c,"class of the hypothesis (positions, any jump) is "+str(e)+" for "+str(c)+" covered positions",hist); }
template<class A,class M> static void model(const char*nm,M*m){ string w=string(nm)+": "; unsigned n=rnd(15)==0?N-1-rnd(3):rnd(4)==0?rnd(50):rnd(9); hist=w+"sentence of "+str(n)+" words"; A::in(m).srcSentVec=vector<string>(n,"w");
 PhrHypData d=m->nullHypothesisHypData(); CHECK(d.ntarget==W(1,NULL_WORD)&&d.sourceSegmentation.empty()&&d.targetSegmentCuts.empty(),w+"empty translation "+sh(d),hist); vector<Step> st; vector<PhrHypData> pre; vector<char> cov(N+1,0); unsigned left=n;
 for(;;){ CHECK(A::unc(m,d)==left,w+str(A::unc(m,d))+" uncovered words, expected "+str(left),hist); CHECK(m->isCompleteHypData(d)==(left==0),w+"complete with "+str(left)+" uncovered words",hist); CHECK(A::last(m,d)==(st.empty()?0:st.back().s.second),w+"last position covered is "+str(A::last(m,d)),hist); classes(d,st);
  hyp<PhraseBasedTmHypRec<EQ> >("recombining hypothesis",d,st,n?n:1); hyp<PhrLocalSwLiTmHypRec<EQ> >("recombining hypothesis of the interpolated model",d,st,n?n:1); if(coin()) hyp<PhraseBasedTmHyp<PhrHypEqClassF> >("hypothesis",d,st,n?n:1); state<PhraseBasedTmHypRec<EQ> >("state",d,st,n); state<PhrLocalSwLiTmHypRec<EQ> >("state of the interpolated model",d,st,n);
  { BS b; vector<Sg> want,g(rnd(3)); for(unsigned x=1;x<=n;++x){ if(cov[x]) b.set(x); else { if(!want.empty()&&want.back().second==x-1) want.back().second=x; else want.push_back(Sg(x,x)); } } A::gaps(m,b,g); CHECK(g==want,w+"gaps "+str(g)+", expected "+str(want),hist); CHECK(A::ng(m,b)==want.size(),w+str(A::ng(m,b))+" gaps, expected "+str(want.size()),hist); }
  if(left==0||(rnd(12)==0)) break;
  unsigned a; do a=1+rnd(n); while(cov[a]); unsigned e=a; while(e<n&&!cov[e+1]&&rnd(3)) ++e; if(rnd(8)==0) while(a>1&&!cov[a-1]) --a; W t; if(rnd(8)) for(unsigned k=1+rnd(4);k>0;--k) t.push_back(rnd(20)); if(rnd(20)==0) t.clear();
  pre.push_back(d); Step s; s.s=Sg(a,e); s.t=t; s.from=d.ntarget.size(); hist+=" + "+str(s.s)+" -> "+str(t); PhrHypData was=d; A::ext(m,a,e,t,d); s.to=s.from+t.size()-1; st.push_back(s); for(unsigned x=a;x<=e;++x){ cov[x]=1; --left; }
  PhrHypData want=was; want.ntarget.insert(want.ntarget.end(),t.begin(),t.end()); want.sourceSegmentation.push_back(s.s); want.targetSegmentCuts.push_back(want.ntarget.size()-1); CHECK(same(d,want),w+"extended translation is "+sh(d)+", expected "+sh(want),hist); }
 while(true){ PhrHypData was=d; bool r=m->obtainPredecessorHypData(d); hist+=" predecessor"; bool want=was.ntarget.size()>1; CHECK(r==want,w+string(r?"a":"no")+" predecessor of "+sh(was),hist); if(!r){ CHECK(same(d,was),w+"changed without a predecessor: "+sh(d),hist); break; }
  CHECK(same(d,pre.back()),w+"predecessor is "+sh(d)+", expected "+sh(pre.back()),hist); pre.pop_back(); }
 done(nm); }
int main(int c,char**v){ init(c,v); PB*pb=new PB; char*mem=(char*)calloc(1,sizeof(LT)+64); *(void**)mem=(void*)(_ZTV14PhrLocalSwLiTm+16); LT*lt=(LT*)mem; new(&ALT::in(lt)) PbTransModelInputVars;
 while(more(1)){ if(coin()) model<APB>("PbTransModel",pb); else model<ALT>("PhrLocalSwLiTm",lt); } return end(); }
