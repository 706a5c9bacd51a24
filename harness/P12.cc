// SRC: sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc nlp_common/getline.c
#include "h.hpp"
#include "anjiMatrix.h"
#include "anjm1ip_anjiMatrix.h"
#include <deque>
using namespace vh; using namespace std;
typedef vector<unsigned> K;
struct A2 { anjiMatrix m; enum{D=2}; static const char* name(){return "anjiMatrix";} void set(unsigned n,const K&k,float f){m.set(n,k[0],k[1],f);} float get(unsigned n,const K&k){return m.get(n,k[0],k[1]);} float invp(unsigned n,const K&k){return m.get_invp(n,k[0],k[1]);} float invlp(unsigned n,const K&k){return m.get_invlogp(n,k[0],k[1]);}
  void setf(unsigned n,const K&k,float f){m.set_fast(n,k[0],k[1],f);} float getf(unsigned n,const K&k){return m.get_fast(n,k[0],k[1]);} float invpf(unsigned n,const K&k){return m.get_invp_fast(n,k[0],k[1]);} float invlpf(unsigned n,const K&k){return m.get_invlogp_fast(n,k[0],k[1]);} };
struct A3 { anjm1ip_anjiMatrix m; enum{D=3}; static const char* name(){return "anjm1ip_anjiMatrix";} void set(unsigned n,const K&k,float f){m.set(n,k[0],k[1],k[2],f);} float get(unsigned n,const K&k){return m.get(n,k[0],k[1],k[2]);} float invp(unsigned n,const K&k){return m.get_invp(n,k[0],k[1],k[2]);} float invlp(unsigned n,const K&k){return m.get_invlogp(n,k[0],k[1],k[2]);}
  void setf(unsigned n,const K&k,float f){m.set_fast(n,k[0],k[1],k[2],f);} float getf(unsigned n,const K&k){return m.get_fast(n,k[0],k[1],k[2]);} float invpf(unsigned n,const K&k){return m.get_invp_fast(n,k[0],k[1],k[2]);} float invlpf(unsigned n,const K&k){return m.get_invlogp_fast(n,k[0],k[1],k[2]);} };
template<class T> static void run(){ T* t=new T; const int D=T::D; unsigned R=1+rnd(7),B=1+rnd(4); bool unr=rnd(3)==0; unsigned cap=unr?0xffffffffu:rnd(5); string h=T::name();
  map<unsigned,map<K,float> > M; deque<unsigned> fifo; // reference: held sentences, oldest first
  map<unsigned,pair<unsigned,unsigned> > room; map<unsigned,bool> clean;
  auto init=[&](){ M.clear(); fifo.clear(); room.clear(); clean.clear(); };
  if(!unr||coin()){ t->m.set_maxnsize(cap); h+=" capacity="+str(cap); }
  auto hold=[&](unsigned n){ if(M.count(n)) return; if(!unr&&fifo.size()>=cap){ unsigned o=fifo.front(); fifo.pop_front(); M.erase(o); room.erase(o); clean.erase(o); h+="(drops "+str(o)+")"; } fifo.push_back(n); M[n]; };
  auto key=[&](unsigned a,unsigned b){ K k; k.push_back(rnd(a)); for(int i=1;i<D;++i) k.push_back(rnd(b)); return k; };
  auto verify=[&](){ CHECK(t->m.get_maxnsize()==cap,"capacity",h); for(unsigned n=0;n<=R;++n) for(unsigned x=0;x<(D==2?(B+2)*(B+2):(B+2)*(B+2)*(B+2));++x){ K k; unsigned y=x; for(int i=0;i<D;++i){ k.push_back(y%(B+2)); y/=B+2; } float e=99; if(M.count(n)&&M[n].count(k)) e=M[n][k];
      float g=t->get(n,k); CHECK(g==e,"value of sentence "+str(n)+" at "+str(k)+" is "+str(g)+" expected "+str(e),h); float p=t->invp(n,k); CHECK(p==(e==99?0:e),"invp of sentence "+str(n)+" at "+str(k),h); float l=t->invlp(n,k); CHECK(l==(e==99?(float)SMALL_LG_NUM:e),"invlogp of sentence "+str(n)+" at "+str(k),h); } };
  int ops=1+rnd(40); for(int o=0;o<ops;++o){ int w=rnd(20); unsigned n=rnd(R); float f=rnd(4)?(float)runi():(float)(runi()*-5);
    if(w<9){ K k=key(B,B); h+=" set("+str(n)+str(k)+"="+str(f)+")"; t->set(n,k,f); if(cap>0){ hold(n); M[n][k]=f; clean[n]=false; room.erase(n);} }
    else if(w<15){ unsigned ns=rnd(B),tl=rnd(B),np=12345; h+=" init("+str(n)+","+str(ns)+","+str(tl)+")"; bool r=t->m.init_nth_entry(n,ns,tl,np); if(cap==0) CHECK(r==THOT_ERROR,"init_nth_entry without capacity",h); else { CHECK(r==THOT_OK,"init_nth_entry status",h); bool was=M.count(n); if(!was) clean[n]=true; hold(n); bool all=true,none=true; for(auto&x:M[n]){ if(x.second==99) continue; float g=t->get(n,x.first); if(g!=x.second) all=false; if(g!=99) none=false; }
        CHECK(all||none,"init_nth_entry loses some values of the sentence",h); bool fits=was&&room.count(n)&&room[n].first>=ns&&room[n].second>=tl; if(fits) CHECK(all,"init_nth_entry on an entry with enough room loses its values",h); if(!all){ M[n].clear(); clean[n]=true; } if(!fits){ if(clean[n]&&M[n].empty()) room[n]=make_pair(ns,tl); else room.erase(n);} 
        if(room.count(n)){ int q=rnd(4); for(int z=0;z<q;++z){ K k; k.push_back(rnd(tl+1)); for(int i=1;i<D;++i) k.push_back(rnd(ns+1)); float e=M[n].count(k)?M[n][k]:99; CHECK(t->getf(np,k)==e,"fast read of slot "+str(np)+" at "+str(k),h); CHECK(t->invpf(np,k)==(e==99?0:e),"fast invp",h); CHECK(t->invlpf(np,k)==(e==99?(float)SMALL_LG_NUM:e),"fast invlogp",h); float f2=(float)runi(); h+=" fast("+str(np)+str(k)+"="+str(f2)+")"; t->setf(np,k,f2); M[n][k]=f2; } } } }
    else if(w==15&&rnd(3)==0){ h+=" reset"; bool r=t->m.reset_entries(); CHECK(r==(cap>0?THOT_OK:THOT_ERROR),"reset status",h); if(cap>0) for(auto&x:M) x.second.clear(); }
    else if(w==16&&rnd(4)==0){ h+=" clear"; t->m.clear(); init(); }
    else if(w==17&&rnd(4)==0){ unr=rnd(3)==0; cap=unr?0xffffffffu:rnd(5); h+=" capacity="+str(cap); t->m.set_maxnsize(cap); init(); }
    else if(w==18&&rnd(3)==0&&cap>0){ string f2=dir+"/anji"; remove((f2+".msinfo").c_str()); h+=" saved and loaded"; CHECK(t->m.print(f2.c_str())==THOT_OK,"print",h); if(coin()){ delete t; t=new T; h+=" (fresh object)"; } CHECK(t->m.load(f2.c_str())==THOT_OK,"load",h); if(unr){ } room.clear(); if(!unr) CHECK(t->m.get_maxnsize()==cap,"capacity after load",h); }
    if(rnd(4)==0) verify(); }
  verify(); delete t; done(T::name()); }
int main(int c,char**v){ init(c,v); while(more(1)){ run<A2>(); run<A3>(); } return end(); }
