// SRC: sw_models/IncrIbm1AligModel.cc sw_models/IncrIbm2AligModel.cc sw_models/SmoothedIncrIbm1AligModel.cc sw_models/SmoothedIncrIbm2AligModel.cc sw_models/IncrHmmAligModel.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/IncrHmmP0AligModel.cc sw_models/CachedHmmAligLgProb.cc sw_models/IncrHmmAligTable.cc sw_models/IncrIbm2AligTable.cc sw_models/IncrLexTable.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_sentLengthModel.cc sw_models/aSource.cc sw_models/aSourceHmm.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc sw_models/DoubleMatrix.cc nlp_common/SingleWordVocab.cc nlp_common/WordAligMatrix.cc nlp_common/Prob.cc nlp_common/MathFuncs.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc nlp_common/getline.c
// LIB: -lgmp
#include "h.hpp"
#include "Count.h"
#include "SmoothedIncrIbm2AligModel.h"
#include "IncrHmmAligModel.h"
#include "IncrHmmP0AligModel.h"
#include <cmath>
#include <fstream>
using namespace vh; using namespace std;
typedef vector<WordIndex> W; typedef vector<PositionIndex> A;
static bool eq(double a,double b){ return (a<=-90000&&b<=-90000)||near(a,b); }
static float lg(){ return rnd(4)==0?(float)-rin(1,3):(float)(-6*runi()); }
struct M1: IncrIbm1AligModel { M1(){ } void lex(unsigned s,unsigned t,float n,float d){ incrLexTable.setLexNumDen(s,t,n,d);} };
template<class B> struct M2: B { M2(){} void lex(unsigned s,unsigned t,float n,float d){ this->incrLexTable.setLexNumDen(s,t,n,d);} void al(aSource a,unsigned i,float n,float d){ this->aSourceMask(a); this->incrIbm2AligTable.setAligNumDen(a,i,n,d);} };
template<class B> struct MH: B { void lex(unsigned s,unsigned t,float n,float d){ this->incrLexTable->setLexNumDen(s,t,n,d);} void al(aSourceHmm a,unsigned i,float n,float d){ this->incrHmmAligTable.setAligNumDen(a,i,n,d);} };
static W sent(unsigned mx,unsigned V){ W w; unsigned n=1+rnd(mx); for(unsigned i=0;i<n;++i) w.push_back(3+rnd(V)); return w; }
template<class M> static double dens(M&m,unsigned V,bool full){ float d0=(float)(rnd(3)-1); for(unsigned s=0;s<3+V;++s){ if(s==1||s==2) continue; float d=d0; for(unsigned t=3;t<3+V;++t) if(full||rnd(4)) m.lex(s,t,d+lg(),d); } return d0; }
template<class M> static void voc(M&m,unsigned V){ for(unsigned i=0;i<V;++i){ m.addSrcSymbol("s"+str(i)); m.addTrgSymbol("t"+str(i)); } }
// reference for models whose words are aligned independently: f(j,i) is the log-probability of aligning word j with i
template<class F> static void indep(unsigned I,unsigned J,F f,double base,const A&got,double lp,const string&nm,const string&h,const WordAligMatrix&w){ CHECK(got.size()==J,nm+": size of the alignment",h); CHECK(w.get_I()==I&&w.get_J()==J,nm+": dimensions",h); double sc=base; bool zero=false; for(unsigned j=0;j<J;++j){ CHECK(got[j]<=I,nm+": alignment out of range",h); sc+=f(j,got[j]); if(!(f(j,got[j])>-90000)) zero=true; }
  unsigned long n=1; for(unsigned j=0;j<J;++j) n*=I+1; double best=-INFINITY; for(unsigned long c=0;c<n;++c){ unsigned long x=c; double s=base; for(unsigned j=0;j<J;++j){ s+=f(j,x%(I+1)); x/=I+1; } if(s>best) best=s; }
  CHECK(eq(sc,best),nm+": alignment of log-probability "+str(sc)+" returned, the best has "+str(best),h); CHECK(zero?lp<=-90000:eq(lp,sc),nm+": log-probability "+str(lp)+" reported, the alignment has "+str(sc),h); done(nm.c_str()); }
static A vecof(WordAligMatrix w){ A a; w.getAligVec(a); return a; }
static void smallparams(unsigned V){ { M1 m; voc(m,V); dens(m,V,rnd(4)!=0); for(int r=0;r<3;++r){ W s=sent(3,V),t=sent(4,V); W ns=s; ns.insert(ns.begin(),0); WordAligMatrix w; if(coin()) w.init(rnd(4),rnd(4)); double lp=(double)m.obtainBestAlignment(s,t,w); string h="s="+str(s)+" t="+str(t)+" alignment="+str(vecof(w)); for(unsigned i=0;i<ns.size();++i) for(unsigned j=0;j<t.size();++j) h+=" p("+str(t[j])+"|"+str(ns[i])+")="+str((double)m.pts(ns[i],t[j]));
    double base=(double)m.sentLenLgProb(s.size(),t.size())+(double)m.logaProbIbm1(s.size(),t.size()); indep(s.size(),t.size(),[&](unsigned j,unsigned i){ return log((double)m.pts(ns[i],t[j])); },base,vecof(w),lp,"IncrIbm1AligModel::obtainBestAlignment",h,w);
    if(lp>-90000){ double c=(double)m.calcLgProbForAlig(s,t,w,0); CHECK(near(c,lp),"IncrIbm1AligModel::calcLgProbForAlig gives "+str(c)+" for the best alignment, reported "+str(lp),h); } } } }
template<class B> static void ibm2(unsigned V,const char*nm){ M2<B> m; voc(m,V); bool full=rnd(4)!=0; dens(m,V,full); for(unsigned sl=1;sl<=3;++sl) for(unsigned tl=1;tl<=4;++tl) for(unsigned j=1;j<=tl;++j){ aSource a; a.j=j; a.slen=sl; a.tlen=tl; float d=(float)(rnd(3)-1); for(unsigned i=0;i<=sl;++i) if(full||rnd(4)) m.al(a,i,d+lg(),d); }
  for(int r=0;r<3;++r){ W s=sent(3,V),t=sent(4,V); W ns=s; ns.insert(ns.begin(),0); unsigned I=s.size(),J=t.size(); WordAligMatrix w; if(coin()) w.init(rnd(4),rnd(4)); double lp=(double)m.obtainBestAlignment(s,t,w); string h="s="+str(s)+" t="+str(t)+" alignment="+str(vecof(w)); for(unsigned i=0;i<ns.size();++i) for(unsigned j=0;j<J;++j) h+=" p("+str(t[j])+"|"+str(ns[i])+")="+str((double)m.pts(ns[i],t[j]))+" a("+str(i)+"|"+str(j+1)+")="+str((double)m.aProb(j+1,I,J,i));
    indep(I,J,[&](unsigned j,unsigned i){ return log((double)m.pts(ns[i],t[j]))+log((double)m.aProb(j+1,I,J,i)); },(double)m.sentLenLgProb(I,J),vecof(w),lp,nm,h,w);
    if(lp>-90000){ double c=(double)m.calcLgProbForAlig(s,t,w,0); CHECK(near(c,lp),string(nm)+": calcLgProbForAlig gives "+str(c)+" for the best alignment, reported "+str(lp),h); } } }
template<class B> static void hmm(unsigned V,const char*nm){ MH<B> m; voc(m,V); { static int q=0; if(q++%3==0){ m.setLexSmIntFactor(0.3*runi()+1e-6); m.setAlSmIntFactor(0.3*runi()+1e-6); } else { m.setLexSmIntFactor(1e-6); m.setAlSmIntFactor(1e-6); } } dens(m,V,rnd(4)!=0);
  for(unsigned sl=1;sl<=3;++sl) for(unsigned p=0;p<=sl;++p){ aSourceHmm a; a.prev_i=p; a.slen=sl; float d=(float)(rnd(3)-1); for(unsigned i=1;i<=2*sl;++i) if(rnd(5)) m.al(a,i,d+lg(),d); }
  CachedHmmAligLgProb cache; string past;
  for(int r=0;r<4;++r){ W s=sent(3,V),t=sent(4,V); unsigned I=s.size(),J=t.size(); W ns=s; for(unsigned i=0;i<I;++i) ns.push_back(0); WordAligMatrix w; double lp; bool c=coin(); string h=past+" s="+str(s)+" t="+str(t)+(c?" cached":""); past+=c?" (cached "+str(s)+")":""; if(coin()) cache.makeRoomGivenNSrcSentLen(rnd(2*I+2)); if(c) lp=(double)m.obtainBestAlignmentCached(s,t,cache,w); else lp=(double)m.obtainBestAlignment(s,t,w); A got=vecof(w); h+=" alignment="+str(got);
    for(unsigned i=0;i<=2*I;++i) for(unsigned k=1;k<=2*I;++k) h+=" a("+str(k)+"|"+str(i)+")="+str((double)m.logaProb(i,I,k)); for(unsigned k=1;k<=2*I;++k) for(unsigned j=0;j<J;++j) h+=" p("+str(t[j])+"|"+str(ns[k-1])+")="+str((double)m.logpts(ns[k-1],t[j]));
    CHECK(w.get_I()==I&&w.get_J()==J&&got.size()==J,string(nm)+": dimensions",h); unsigned long n=1; for(unsigned j=0;j<J;++j) n*=2*I; double best=-INFINITY,mine=-INFINITY; for(unsigned long cc=0;cc<n;++cc){ unsigned long x=cc; double sc=0; unsigned p=0; bool same=true; for(unsigned j=0;j<J;++j){ unsigned k=1+x%(2*I); x/=2*I; sc+=(double)m.logaProb(p,I,k)+(double)m.logpts(ns[k-1],t[j]); p=k; if((k>I?0:k)!=got[j]) same=false; } if(sc>best) best=sc; if(same&&sc>mine) mine=sc; }
    double sl=(double)m.sentLenLgProb(I,J); CHECK(eq(mine,best),string(nm)+": alignment of log-probability "+str(mine+sl)+" returned, the best has "+str(best+sl),h); CHECK(eq(lp,sl+best),string(nm)+": log-probability "+str(lp)+" reported, the best alignment has "+str(best+sl),h); done(nm); } }
int main(int c,char**v){ init(c,v); { static ofstream nul("/dev/null"); cerr.rdbuf(nul.rdbuf()); } while(more(1)){ unsigned V=1+rnd(4); smallparams(V); ibm2<IncrIbm2AligModel>(V,"IncrIbm2AligModel::obtainBestAlignment"); ibm2<SmoothedIncrIbm2AligModel>(V,"SmoothedIncrIbm2AligModel::obtainBestAlignment"); hmm<IncrHmmAligModel>(V,"IncrHmmAligModel::obtainBestAlignment"); hmm<IncrHmmP0AligModel>(V,"IncrHmmP0AligModel::obtainBestAlignment"); } return end(); }
