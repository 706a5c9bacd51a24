// SRC:
#include "h.hpp"
#include <stddef.h>
#include <map>
#include <set>
#include "ErrorDefs.h"
#include "StatModelDefs.h"
#include "SmtDefs.h"
#include "Score.h"
#include "SmtStack.h"
#include "SmtMultiStackRec.h"
#include "HypStateDict.h"
using namespace vh; using namespace std; static string hist;
struct IntHash{ size_t operator()(int x)const{ return (size_t)x; } };
struct Hyp { typedef int HypState; struct EqClassFunc{ typedef int EqClassType; typedef IntHash EqClassTypeHashF; }; Score score; int state,id; Hyp(){ score=0; state=0; id=-1; } Hyp(double s,int st,int i){ score=s; state=st; id=i; }
 Score getScore()const{ return score; } int getHypState()const{ return state; } int getEqClass()const{ return state%3; } Bitset<MAX_SENTENCE_LENGTH_ALLOWED> getKey()const{ Bitset<MAX_SENTENCE_LENGTH_ALLOWED> b; b.set(1+state%7); return b; } };
static string sh(const Hyp&h){ return "(score "+str((double)h.score)+" state "+str(h.state)+" #"+str(h.id)+")"; }
static double score(int m){ switch(m){ case 0: return -(double)rnd(6); case 1: return -runi()*50; case 2: return (double)rnd(40)/4-5; default: return -1000-(double)rnd(5); } }
typedef vector<Hyp> Q; // best first, older first among equals
static size_t ins(Q&q,const Hyp&h){ size_t p=0; while(p<q.size()&&(double)q[p].score>=(double)h.score) ++p; q.insert(q.begin()+p,h); return p; }
static bool same(const Hyp&a,const Hyp&b){ return a.id==b.id&&(double)a.score==(double)b.score&&a.state==b.state; }
int main(int c,char**v){ init(c,v);
 while(more(.3)){ SmtStack<Hyp> s; Q q; unsigned cap=rnd(6)?rnd(9):0; int m=rnd(4); bool def=rnd(12)==0; if(def) cap=1024; else s.setMaxStackSize(cap); hist="SmtStack bound "+str(cap); int id=0;
  for(unsigned k=0,n=rnd(40);k<n;++k){ switch(rnd(10)){
   case 0: if(!q.empty()){ hist+=" pop"; Hyp h=s.pop(); CHECK(same(h,q[0]),"popped "+sh(h)+" but the best is "+sh(q[0]),hist); q.erase(q.begin()); } break;
   case 1: hist+=" removeLast"; s.removeLast(); if(!q.empty()) q.pop_back(); break;
   case 2: if(rnd(4)==0){ cap=rnd(9); hist+=" bound "+str(cap); s.setMaxStackSize(cap); } break;
   case 3: if(!q.empty()&&rnd(3)==0){ unsigned p=rnd(q.size()); hist+=" remove "+str(p); SmtStack<Hyp>::iterator it=s.begin(); for(unsigned z=0;z<p;++z) ++it; s.remove(it); q.erase(q.begin()+p); } break;
   case 4: if(rnd(9)==0){ hist+=" clear"; s.clear(); q.clear(); } break;
   default: { Hyp h(score(m),rnd(5),id++); hist+=" push"+sh(h); bool r; if(cap>0) while(q.size()>cap) q.pop_back(); bool want=cap>0&&(q.size()<cap||(double)q.back().score<(double)h.score);
     if(coin()) r=s.push(h); else { SmtStack<Hyp>::iterator it=s.pushIter(h); r=it!=s.end(); if(r) CHECK(same(*it,h),"iterator to "+sh(*it),hist); }
     if(want){ ins(q,h); if(q.size()>cap) q.pop_back(); } CHECK(r==want,string(r?"kept":"rejected")+" the hypothesis",hist); if(r) CHECK(s.size()<=cap,"size "+str(s.size())+" over the bound",hist); } }
   CHECK(s.size()==q.size(),"holds "+str(s.size())+" hypotheses, expected "+str(q.size()),hist); CHECK(s.empty()==q.empty(),"empty",hist); CHECK(s.getMaxStackSize()==cap,"bound",hist);
   if(!q.empty()){ CHECK(same(s.top(),q[0]),"top is "+sh(s.top())+" expected "+sh(q[0]),hist); CHECK(same(s.last(),q.back()),"last is "+sh(s.last())+" expected "+sh(q.back()),hist); size_t z=0; for(SmtStack<Hyp>::iterator it=s.begin();it!=s.end();++it,++z) CHECK(z<q.size()&&same(*it,q[z]),"position "+str(z)+" holds "+sh(*it),hist); CHECK(z==q.size(),"iteration",hist); } }
  while(!q.empty()){ CHECK(same(s.pop(),q[0]),"wrong order",hist); q.erase(q.begin()); } CHECK(s.empty(),"not empty at the end",hist); done("stack"); }
 while(more(1)){ HypStateDict<Hyp> d; SmtMultiStackRec<Hyp> s; s.setHypStateDictPtr(&d); map<int,Q> q; map<int,double> dict; map<int,unsigned> idx; unsigned cap=64; bool bf=coin(); s.set_bf(bf); if(rnd(8)){ cap=1+rnd(6); if(rnd(15)==0) cap=0; s.setMaxStackSize(cap); } int m=rnd(4); unsigned ns=1+rnd(20); hist=string("multi-stack ")+(bf?"breadth-first":"best-first")+" bound "+str(cap); int id=0;
  auto best=[&](){ int b=-1; for(auto&x:q) if(!x.second.empty()){ if(b<0) b=x.first; else if(!bf&&(double)x.second[0].score>(double)q[b][0].score) b=x.first; } return b; };
  auto worst=[&](){ int b=-1; for(auto&x:q) if(!x.second.empty()){ if(b<0||bf) b=x.first; else if((double)x.second.back().score<(double)q[b].back().score) b=x.first; } return b; };
  for(unsigned k=0,n=rnd(60);k<n;++k){ int b=best(),w=worst(); switch(rnd(12)){
   case 0: case 1: if(b>=0){ hist+=" pop"; Hyp h=s.pop(); CHECK(same(h,q[b][0]),"popped "+sh(h)+" but the best is "+sh(q[b][0]),hist); q[b].erase(q[b].begin()); } break;
   case 2: if(w>=0){ hist+=" removeLast"; s.removeLast(); q[w].pop_back(); } break;
   case 3: if(rnd(4)==0){ cap=rnd(8)?1+rnd(7):0; hist+=" bound "+str(cap); s.setMaxStackSize(cap); } break;
   case 4: if(rnd(12)==0){ hist+=" clear"; s.clear(); q.clear(); if(coin()){ hist+="+dictionary"; d.clear(); dict.clear(); idx.clear(); } } break;
   default: { Hyp h(score(m),rnd(ns),id++); hist+=" push"+sh(h); int e=h.getEqClass(); bool rej=dict.count(h.state)&&dict[h.state]>(double)h.score; bool want=false;
     if(!rej){ dict[h.state]=h.score; if(!idx.count(h.state)){ unsigned z=idx.size(); idx[h.state]=z; } Q&x=q[e]; for(size_t z=0;z<x.size();++z) if(x[z].state==h.state){ x.erase(x.begin()+z); break; } while(x.size()>cap) x.pop_back(); want=cap>0&&(x.size()<cap||(double)x.back().score<(double)h.score); if(want){ ins(x,h); if(x.size()>cap) x.pop_back(); } }
     bool r=s.push(h); CHECK(r==want,string(r?"kept":"rejected")+" the hypothesis",hist);
     HypStateDict<Hyp>::iterator it=d.find(h.state); CHECK(it!=d.end()&&(double)(it->second.score)==dict[h.state]&&it->second.hypStateIndex==idx[h.state],"dictionary entry of the state",hist); CHECK(it->second.coverage==h.getKey(),"coverage stored for the state",hist); CHECK(d.size()==dict.size(),"dictionary size",hist); } }
   size_t ne=0; for(auto&x:q) ne+=!x.second.empty(); CHECK(s.size()==ne,"has "+str(s.size())+" non-empty stacks, expected "+str(ne),hist); CHECK(s.empty()==(ne==0),"empty",hist); CHECK(s.getMaxStackSize()==cap,"bound",hist);
   b=best(); w=worst(); if(b>=0){ CHECK(same(s.top(),q[b][0]),"top is "+sh(s.top())+" expected "+sh(q[b][0]),hist); CHECK(same(s.last(),q[w].back()),"last is "+sh(s.last())+" expected "+sh(q[w].back()),hist); } }
  map<int,int> seen; if(coin()){ int b; while((b=best())>=0){ Hyp h=s.pop(); CHECK(same(h,q[b][0]),"popped "+sh(h)+" but the best is "+sh(q[b][0]),hist+" drain"); CHECK(!seen[h.state]++,"two hypotheses of state "+str(h.state),hist+" drain"); q[b].erase(q[b].begin()); } CHECK(s.empty(),"not empty after all pops",hist); }
  done("multi-stack"); }
 return end(); }
