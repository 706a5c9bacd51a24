// SRC: sw_models/LightSentenceHandler.cc nlp_common/AwkInputStream.cc nlp_common/getline.c
// LIB:
#include "h.hpp"
#include "Count.h"
#include "LightSentenceHandler.h"
#include <fstream>
#include <sstream>
using namespace vh; using namespace std; typedef vector<string> V; static string hist;
struct P{ V s,t; double c; };
static V words(){ V v; unsigned n=rnd(5)?rnd(6):0; for(unsigned i=0;i<n;++i){ string w; unsigned l=1+(rnd(6)?rnd(4):rnd(200)); for(unsigned k=0;k<l;++k) w+=rnd(12)?char('a'+rnd(26)):"0#\t.|<>~"[rnd(8)]; v.push_back(w); } return v; }
static string line(const V&v){ string r; if(rnd(8)==0) r+=string(1+rnd(3),' '); for(size_t i=0;i<v.size();++i){ if(i) r+=string(rnd(8)?1:1+rnd(3),' '); r+=v[i]; } if(rnd(8)==0) r+=string(1+rnd(2),' '); return r; }
static string sh(const V&v){ string r="["; for(auto&x:v) r+=x+"|"; return r+"]"; }
static void put(const string&f,const vector<string>&l,bool nl){ ofstream o(f.c_str(),ios::binary); for(size_t i=0;i<l.size();++i) o<<l[i]<<(i+1<l.size()||nl?"\n":""); }
template<class H> static void check(H&h,const vector<P>&m,unsigned n){ string q=hist+" at "+str(n); V s(1,"old"),t(2,"older"); Count c=7; int r; int k=rnd(4); P e; if(n<m.size()) e=m[n];
  if(k==0) r=h.nthSentPair(n,s,t,c); else if(k==1) r=h.getSrcSent(n,s); else if(k==2) r=h.getTrgSent(n,t); else r=h.getCount(n,c);
  CHECK((r==THOT_OK)==(n<m.size()),"result "+str(r),q); if(r==THOT_OK){ if(k<2) CHECK(s==e.s,"source sentence "+sh(s)+" expected "+sh(e.s),q); if(k==0||k==2) CHECK(t==e.t,"target sentence "+sh(t)+" expected "+sh(e.t),q); if(k==0||k==3) CHECK(near((double)(float)c,e.c,1e-5),"count "+str((double)(float)c)+" expected "+str(e.c),q); }
  else { CHECK(s==V(1,"old")&&t==V(2,"older")&&(float)c==7,"output changed",q); } hist+=" get"+str(n); }
int main(int a,char**v){ init(a,v); { static ofstream nul("/dev/null"); cerr.rdbuf(nul.rdbuf()); } string d=vh::dir;
 while(more(1)){ LightSentenceHandler h; vector<P> m; hist=""; unsigned rounds=1+rnd(3);
  for(unsigned z=0;z<rounds;++z){ if(rnd(4)){ unsigned n=rnd(6)?1+rnd(8):rnd(40); vector<string> ls,lt,lc; vector<P> f; bool wc=coin(); for(unsigned i=0;i<n;++i){ P p; p.s=words(); p.t=words(); p.c=wc?(double)(rnd(2000))/8:1; f.push_back(p); ls.push_back(line(p.s)); lt.push_back(line(p.t)); lc.push_back(str(p.c)); }
     bool nl1=rnd(4)!=0,nl2=rnd(4)!=0,nl3=rnd(4)!=0; if(n&&ls.back().empty()) nl1=true; if(n&&lt.back().empty()) nl2=true; int bad=rnd(9); unsigned cut=0; if(bad==0&&n>1){ cut=1+rnd(n-1); lt.resize(n-cut); } else if(bad==1) lt.push_back("surplus line");
     put(d+"/s",ls,nl1); put(d+"/t",lt,nl2||cut); put(d+"/c",lc,nl3); pair<unsigned,unsigned> r; hist+=" read "+str(n)+" pairs"+(wc?" with counts":"")+(cut?" ("+str(cut)+" target lines missing)":"")+(nl1?"":" no final newline in source")+(nl2?"":" no final newline in target"); if(n<9) for(auto&p:f) hist+=" "+sh(p.s)+"/"+sh(p.t)+"x"+str(p.c);
     int miss=rnd(25); bool e=h.readSentencePairs((d+(miss==0?"/nosuch":"/s")).c_str(),(d+(miss==1?"/nosuch":"/t")).c_str(),wc?(d+"/c").c_str():(miss==2?(d+"/nosuch").c_str():""),r); bool we=cut||miss<2; CHECK((e==THOT_ERROR)==we,"result of reading",hist); m=f; if(we){ hist+=" (fails)"; m.clear(); } else if(n) CHECK(r.first==0&&r.second==n-1,"range",hist); }
   CHECK(h.numSentPairs()==m.size(),"holds "+str(h.numSentPairs())+" pairs, expected "+str(m.size()),hist);
   for(unsigned k=0,n=rnd(25);k<n;++k){ int o=rnd(12); if(o<3){ P p; p.s=words(); p.t=words(); p.c=(double)rnd(100)/4; pair<unsigned,unsigned> r; hist+=" add "+sh(p.s)+"/"+sh(p.t); h.addSentPair(p.s,p.t,p.c,r); CHECK(r.first==m.size()&&r.second==m.size(),"position "+str(r.first),hist); m.push_back(p); }
    else if(o==3&&rnd(6)==0){ hist+=" clear"; h.clear(); m.clear(); }
    else if(o==4&&rnd(3)==0){ CHECK(h.printSentPairs((d+"/ps").c_str(),(d+"/pt").c_str(),(d+"/pc").c_str())==THOT_OK,"printing",hist); LightSentenceHandler g; pair<unsigned,unsigned> r; CHECK(g.readSentencePairs((d+"/ps").c_str(),(d+"/pt").c_str(),(d+"/pc").c_str(),r)==THOT_OK,"reading back",hist); string keep=hist; hist+=" printed and read back:"; CHECK(g.numSentPairs()==m.size(),"number of pairs",hist); for(unsigned i=0;i<m.size();++i) check(g,m,i); hist=keep; }
    else check(h,m,rnd(8)?rnd(m.size()+1):(rnd(3)?rnd(60):4294967295u-rnd(3)));
    CHECK(h.numSentPairs()==m.size(),"number of pairs",hist); } }
  done("histories"); }
 return end(); }
