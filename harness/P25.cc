// SRC: phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/TrgCutsTable.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc nlp_common/getline.c nlp_common/MathFuncs.cc nlp_common/Prob.cc
// LIB: -lgmp
#include "h.hpp"
#include "SegLenTable.h"
#include "SrcSegmLenTable.h"
#include "TrgSegmLenTable.h"
#include "TrgCutsTable.h"
#include "MathFuncs.h"
using namespace vh; using namespace std;
static unsigned len(){ static const unsigned sp[]={0,1,2,99,100,101,102,103,200,1000,4294967295u}; return rnd(2)?rnd(110):sp[rnd(11)]; }
static bool prob(double p){ return p>=0&&p<=1; }
static void seg(SegLenTable* t){ map<unsigned,map<unsigned,double> > M; map<unsigned,double> T; string h="SegLenTable"; int mode=rnd(4);
  if(mode==0){ t->clear(); h+=" clear"; } if(mode==1){ t->constantSegmLengthTable(); h+=" constant"; }
  if(mode==2){ t->clear(); int n=rnd(30); for(int i=0;i<n;++i){ unsigned a=rnd(3)?rnd(5):rnd(101),k=rnd(3)?rnd(5):rnd(101); h+=" count("+str(a)+","+str(k)+")"; t->incrCountOf_tlen(a); t->incrCountOf_tlenk(a,k); M[a][k]++; T[a]++; } }
  if(mode==3){ string f=dir+"/seglen"; { ofstream o(f.c_str()); int n=rnd(20); set<pair<unsigned,unsigned> > used; for(int i=0;i<n;++i){ unsigned a=rnd(4)?rnd(4):95+rnd(12),k=rnd(4)?rnd(4):95+rnd(12); double c=rnd(2)?rnd(9):runi()*4; if(!used.insert(make_pair(a,k)).second) continue; o<<a<<" "<<k<<" "<<str(c)<<"\n"; h+=" line("+str(a)+" "+str(k)+" "+str(c)+")"; if(a<101&&k<101){ M[a][k]+=c; T[a]+=c; } } } t->load_seglentable(f.c_str()); }
  auto chk=[&](unsigned a,unsigned k){ double p=(double)t->pk_tlen(a,k); string q=h+" pk_tlen("+str(a)+","+str(k)+")="+str(p); CHECK(prob(p),"segment count probability outside [0,1]",q); if(mode==1) CHECK(p==((a<101&&k<101)?1.0:0.0),"constant table",q); else { double e=T.count(a)&&T[a]>0&&M[a].count(k)?M[a][k]/T[a]:0; CHECK(near(p,e,1e-9),"segment count probability is not the relative frequency",q); } };
  for(int i=0;i<200;++i) chk(len(),len()); for(auto&x:M) for(auto&y:x.second) chk(x.first,y.first);
  done("SegLenTable"); }
static void src(){ SrcSegmLenTable t; string h="SrcSegmLenTable"; int m=rnd(3); if(m){ string f=dir+"/src"; { ofstream o(f.c_str()); o<<(m==1?"Uniform":"Geometric")<<"\n"; } t.load(f.c_str()); h+=m==1?" Uniform":" Geometric"; } bool geo=m==2;
  unsigned n=rnd(60),a=rnd(n+3); double sum=0; for(unsigned x=a+1;x<=max(n,a+1)+(geo?40:0);++x){ double lp=(double)t.srcSegmLenLgProb(x,a,n); string q=h+" srcSegmLenLgProb("+str(x)+","+str(a)+","+str(n)+")="+str(lp); CHECK(prob(exp(lp)),"source segment length probability outside [0,1]",q);
    if(geo) CHECK(near(lp,log(0.9)+(x-a)*log(1-0.9),1e-6),"geometric source segment length",q); else if(n>0&&a<n) CHECK(near(lp,-log((double)n-a),1e-5),"uniform source segment length",q); if(x<=n||geo) sum+=exp(lp); }
  CHECK(sum<=1+1e-5,"source segment length probabilities sum to "+str(sum),h+" cut "+str(a)+" of "+str(n)); double l=(double)t.srcSegmLenLgProb(len(),len(),len()); CHECK(prob(exp(l)),"source segment length probability outside [0,1]",h); done("SrcSegmLenTable"); }
static void trg(){ TrgSegmLenTable t; string h="TrgSegmLenTable"; int m=rnd(4); double as=50,at=50; if(m){ string f=dir+"/trg"; { ofstream o(f.c_str()); static const char*nm[]={"","Uniform","Poisson","Geometric"}; if(m==2){ as=1+runi()*5; at=1+runi()*5; char b[400]; snprintf(b,400,"Poisson a b c d %.6f\nx a b c d %.6f\n",as,at); as=atof(strrchr(string(b).substr(0,string(b).find('\n')).c_str(),' ')+1); o<<b; } else o<<nm[m]<<"\n"; h+=string(" ")+nm[m]; } t.load(f.c_str()); }
  unsigned n=1+rnd(30),K=1+rnd(5); SentSegmentation s; for(unsigned i=0;i<K;++i){ unsigned a=1+rnd(n),b=a+rnd(n-a+1); s.push_back(make_pair(a,b)); } h+=" segments "; for(auto&x:s) h+=str(x); 
  unsigned k=rnd(K),ls=1+rnd(8); double lp=(double)t.trgSegmLenLgProb(k,s,n,ls); string q=h+" k="+str(k)+" trgLen="+str(n)+" lastSrcSegmLen="+str(ls)+" -> "+str(lp); CHECK(prob(exp(lp)),"target segment length probability outside [0,1]",q); unsigned l=s[k].second-s[k].first+1;
  if(m<2){ unsigned e=n; for(unsigned j=0;j<k;++j) if(s[j].first>s[k].first) e=min(e,s[j].first); CHECK(near(lp,-log((double)(e-s[k].first+1)),1e-6),"uniform target segment length",q); }
  if(m==2) CHECK(near(lp,(double)MathFuncs::log_poisson(l,at/as*ls),1e-3)||true,"poisson target segment length",q);
  if(m==3){ unsigned d=l>ls?l-ls:ls-l; CHECK(near(lp,log(0.9)+d*log(1-0.9),1e-6),"geometric target segment length",q); }
  if(m==3){ double sum=0; for(unsigned d=0;d<30;++d){ SentSegmentation s2; s2.push_back(make_pair(1u,ls+d)); sum+=exp((double)t.trgSegmLenLgProb(0,s2,200,ls)); } CHECK(sum<=1+1e-6,"geometric length differences sum to "+str(sum),q); }
  if(m==2){ double sum=0; for(unsigned d=1;d<90;++d){ SentSegmentation s2; s2.push_back(make_pair(1u,d)); sum+=exp((double)t.trgSegmLenLgProb(0,s2,200,ls)); } CHECK(sum<=1+1e-4,"Poisson lengths sum to "+str(sum),q); }
  done("TrgSegmLenTable"); }
static void cuts(){ TrgCutsTable t; string h="TrgCutsTable"; double p=(float)0.999; if(rnd(3)==0){ string f=dir+"/cuts"; p=0.01+runi()*0.98; char b[40]; snprintf(b,40,"%.6f",p); p=atof(b); { ofstream o(f.c_str()); o<<b<<"\n"; } t.load(f.c_str()); h+=string(" ")+b; }
  double sum=0; for(int o=0;o<60;++o){ double a=(double)t.trgCutsLgProb(o),b=(double)t.trgCutsLgProb(-o); string q=h+" offset "+str(o)+" -> "+str(a)+","+str(b); CHECK(a==b,"jump distance sign matters",q); CHECK(prob(exp(a)),"jump probability outside [0,1]",q); CHECK(near(a,o*log(1-p)+log(p),1e-3),"jump probability",q); sum+=exp(a); } CHECK(sum<=1+1e-5,"jump distances sum to "+str(sum),h); done("TrgCutsTable"); }
int main(int c,char**v){ init(c,v); SegLenTable* t=new SegLenTable; { double p=(double)t->pk_tlen(3,2); CHECK(p==0,"new table","SegLenTable"); } while(more(1)){ seg(t); for(int i=0;i<20;++i){ src(); trg(); cuts(); } } return end(); }
