// SRC: sw_models/IncrLexTable.cc sw_models/IncrLexLevelDbTable.cc sw_models/IncrIbm2AligTable.cc sw_models/IncrHmmAligTable.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc nlp_common/getline.c
// LIB: -lleveldb
#include "h.hpp"
#include "IncrLexTable.h"
#include "IncrLexLevelDbTable.h"
#include "IncrIbm2AligTable.h"
#include "IncrHmmAligTable.h"
using namespace vh; using namespace std;
static float val(){ static const float sp[]={0,1,-1,99,0.5f,-99999,1e-30f}; return rnd(3)?(float)(runi()*20-10):sp[rnd(7)]; }
template<class T> static void lex(T& t,const char*name,bool exact,const string& file){ unsigned R=1+rnd(6); string h=name; map<pair<unsigned,unsigned>,float> N; map<unsigned,float> D; int n=1+rnd(25); unsigned base=rnd(10)==0?rnd(300):0;
  auto verify=[&](){ for(unsigned s=base;s<base+R+2;++s){ bool f=!D.count(s); float d=t.getLexDenom(s,f); CHECK(f==(D.count(s)>0),"denominator found flag of "+str(s),h); if(f) CHECK(d==D[s],"denominator of "+str(s)+" is "+str(d)+" expected "+str(D[s]),h);
      for(unsigned x=base;x<base+R+2;++x){ auto k=make_pair(s,x); f=!N.count(k); float v=t.getLexNumer(s,x,f); CHECK(f==(N.count(k)>0),"numerator found flag of "+str(k),h); if(f) CHECK(v==N[k],"numerator of "+str(k)+" is "+str(v)+" expected "+str(N[k]),h); } }
    for(unsigned x=base;x<base+R+2;++x){ set<WordIndex> got,ref; got.insert(7777); for(auto&k:N) if(k.first.second==x) ref.insert(k.first.first); bool r=t.getTransForTarget(x,got); if(!r) got.clear(); CHECK(got==ref,"translations listed for target word "+str(x),h); } };
  for(int k=0;k<n;++k){ unsigned s=base+rnd(R),x=base+rnd(R); float a=val(),b=val(); int o=rnd(8); if(o<3){ h+=" num"+str(make_pair(s,x))+"="+str(a); t.setLexNumer(s,x,a); N[{s,x}]=a; } else if(o<5){ h+=" den"+str(s)+"="+str(a); t.setLexDenom(s,a); D[s]=a; } else if(o<7){ h+=" both"+str(make_pair(s,x))+"="+str(a)+"/"+str(b); t.setLexNumDen(s,x,a,b); N[{s,x}]=a; D[s]=b; } else if(rnd(15)==0){ h+=" clear"; t.clear(); N.clear(); D.clear(); } if(rnd(3)==0) verify(); }
  verify(); done(name); }
static void plain(){ IncrLexTable t; lex(t,"IncrLexTable",true,""); }
static void ldb(){ IncrLexLevelDbTable t; string f=dir+"/lex_ldb"; t.init(f.c_str()); lex(t,"IncrLexLevelDbTable",true,""); t.drop(); }
static void ibm2(){ IncrIbm2AligTable t; string h="IncrIbm2AligTable"; typedef vector<unsigned> K; map<K,float> N,D; unsigned R=1+rnd(4); int n=1+rnd(25);
  auto key=[&](){ aSource a; a.j=rnd(R); a.slen=rnd(R); a.tlen=rnd(R); return a; };
  auto verify=[&](){ for(unsigned j=0;j<=R;++j) for(unsigned l=0;l<=R;++l) for(unsigned m=0;m<=R;++m){ aSource a; a.j=j; a.slen=l; a.tlen=m; K d={j,l,m}; bool f=!D.count(d); float v=t.getAligDenom(a,f); CHECK(f==(D.count(d)>0),"denominator found flag "+str(d),h); if(f) CHECK(v==D[d],"denominator "+str(d),h); for(unsigned i=0;i<=R;++i){ K k={j,l,m,i}; f=!N.count(k); v=t.getAligNumer(a,i,f); CHECK(f==(N.count(k)>0),"numerator found flag "+str(k),h); if(f) CHECK(v==N[k],"numerator "+str(k),h); } } };
  for(int k=0;k<n;++k){ aSource a=key(); unsigned i=rnd(R); float x=val(),y=val(); K d={a.j,a.slen,a.tlen},q={a.j,a.slen,a.tlen,i}; int o=rnd(8); if(o<3){ h+=" num"+str(q)+"="+str(x); t.setAligNumer(a,i,x); N[q]=x; } else if(o<5){ h+=" den"+str(d)+"="+str(x); t.setAligDenom(a,x); D[d]=x; } else if(o<7){ h+=" both"+str(q)+"="+str(x)+"/"+str(y); t.setAligNumDen(a,i,x,y); N[q]=x; D[d]=y; } else if(rnd(15)==0){ t.clear(); N.clear(); D.clear(); h+=" clear"; } if(rnd(6)==0) verify(); }
  verify(); done("IncrIbm2AligTable"); }
static void hmm(){ IncrHmmAligTable t; string h="IncrHmmAligTable"; typedef vector<unsigned> K; map<K,float> N,D; unsigned R=1+rnd(5); int n=1+rnd(25);
  auto verify=[&](){ for(unsigned p=0;p<=R;++p) for(unsigned l=0;l<=R;++l){ aSourceHmm a; a.prev_i=p; a.slen=l; K d={p,l}; bool f=!D.count(d); float v=t.getAligDenom(a,f); CHECK(f==(D.count(d)>0),"denominator found flag "+str(d),h); if(f) CHECK(v==D[d],"denominator "+str(d),h); for(unsigned i=0;i<=R;++i){ K k={p,l,i}; f=!N.count(k); v=t.getAligNumer(a,i,f); CHECK(f==(N.count(k)>0),"numerator found flag "+str(k),h); if(f) CHECK(v==N[k],"numerator "+str(k),h); } } };
  for(int k=0;k<n;++k){ aSourceHmm a; a.prev_i=rnd(R); a.slen=rnd(R); unsigned i=rnd(R); float x=val(),y=val(); K d={a.prev_i,a.slen},q={a.prev_i,a.slen,i}; int o=rnd(8); if(o<3){ h+=" num"+str(q)+"="+str(x); t.setAligNumer(a,i,x); N[q]=x; } else if(o<5){ h+=" den"+str(d)+"="+str(x); t.setAligDenom(a,x); D[d]=x; } else if(o<7){ h+=" both"+str(q)+"="+str(x)+"/"+str(y); t.setAligNumDen(a,i,x,y); N[q]=x; D[d]=y; } else if(rnd(15)==0){ t.clear(); N.clear(); D.clear(); h+=" clear"; } if(rnd(6)==0) verify(); }
  verify(); done("IncrHmmAligTable"); }
int main(int c,char**v){ init(c,v); int k=0; while(more(1)){ plain(); ibm2(); hmm(); if(k++%10==0) ldb(); } return end(); }
