// SRC:
// ordered vectors and tries against std::map
#include "h.hpp"
#include "OrderedVector.h"
#include "TrieVecs.h"
#include "Trie.h"
#include "BidTrie.h"
typedef std::vector<unsigned> Key; typedef std::map<Key,unsigned> M;
static Key rk(unsigned a,unsigned l){ Key k; unsigned n=1+vh::rnd(l); for(unsigned i=0;i<n;++i) k.push_back(vh::rnd(a)); return k; }
static bool prefixOf(const M& m,const Key& k){ for(auto&x:m) if(x.first.size()>=k.size() && std::equal(k.begin(),k.end(),x.first.begin())) return true; return false; }
template<class T> std::multimap<Key,unsigned> iterate(T& t,int post,const std::string& h){
  std::multimap<Key,unsigned> r; int n=0;
  for(typename T::const_iterator it=t.begin();it!=t.end();){ r.insert(std::make_pair(it->first,it->second)); CHECK((*it).first==it->first,"iterator dereference",h); if(post) it++; else ++it; CHECK(++n<100000,"iteration ends",h); }
  return r; }
template<class T> void checkTrie(T& t,const M& m,const std::string& h,int alpha){
  for(auto&x:m){ unsigned* p=t.find(x.first); CHECK(p!=NULL,"stored key found",h+" key "+vh::str(x.first)); CHECK(*p==x.second,"last value stored",h+" key "+vh::str(x.first)); }
  for(int i=0;i<6;++i){ Key k=rk(alpha,4); if(vh::coin()&&m.size()){ auto it=m.begin(); std::advance(it,vh::rnd(m.size())); k=it->first; if(vh::coin()) k.push_back(vh::rnd(alpha)); else k.back()=vh::rnd(alpha); }
    unsigned* p=t.find(k); if(m.count(k)) CHECK(p&&*p==m.at(k),"stored key",h+" key "+vh::str(k)); else if(!prefixOf(m,k)) CHECK(p==NULL,"key never stored is absent",h+" key "+vh::str(k)); else CHECK(p!=NULL,"prefix of a stored key is a node",h+" key "+vh::str(k)); }
  std::multimap<Key,unsigned> it=iterate(t,vh::coin(),h);
  for(auto&x:m){ CHECK(it.count(x.first)==1,"each stored key iterated once",h+" key "+vh::str(x.first)); CHECK(it.find(x.first)->second==x.second,"iterated value",h+" key "+vh::str(x.first)); }
  for(auto&x:it) if(x.first.size()) CHECK(prefixOf(m,x.first)&&it.count(x.first)==1,"only stored keys and their prefixes iterated",h+" key "+vh::str(x.first));
}
static size_t nodes(const M& m){ std::set<Key> s; for(auto&x:m) for(size_t i=1;i<=x.first.size();++i) s.insert(Key(x.first.begin(),x.first.begin()+i)); return s.size(); }
template<class T> void extras(T& t,const M& m,const std::string& h,long base){ CHECK(t.size()==nodes(m)+base,"number of nodes",h); }
template<class T> void path(T& t,const M& m,const std::string& h){
  for(auto&x:m){ auto* st=t.getState(x.first); CHECK(st!=NULL && &st->getData()==t.find(x.first),"state of a key",h); std::vector<unsigned*> v=t.findV(x.first); CHECK(v.size()==x.first.size(),"data along the key",h);
    for(size_t i=0;i<v.size();++i) CHECK(v[i]==t.find(Key(x.first.begin(),x.first.begin()+i+1)),"data along the key",h); } }
template<class T> void back(T& t,const M& m,const std::string& h){ for(auto&x:m){ Key k; t.getState(x.first)->getKeySeq(k); std::reverse(k.begin(),k.end()); CHECK(k==x.first,"key of a state",h+" key "+vh::str(x.first)); } }
enum{VECS,TRIE,BID};
template<int W,class T> void history(int ops,int alpha,int len){
  T* t=new T; M m; std::string h;
  for(int i=0;i<ops;++i){ int o=vh::rnd(16);
    if(o<13){ Key k=rk(alpha,len); unsigned d=vh::rnd(1000); h+="ins"+vh::str(k)+"="+vh::str(d)+" "; t->insert(k,d); m[k]=d; }
    else if(o==13){ if(!vh::rnd(4)){ h+="clear "; t->clear(); m.clear(); } }
    else if(o==14){ h+="copy "; T* u=new T(*t); delete t; t=u; }
    else { h+="assign "; T* u=new T; Key k=rk(alpha,len); u->insert(k,7u); for(int z=vh::rnd(4);z>0;--z) u->insert(rk(alpha,len),9u); *u=*t; delete t; t=u; }
    checkTrie(*t,m,h,alpha); }
  if constexpr(W==VECS) extras(*t,m,h,1); else { extras(*t,m,h,0); path(*t,m,h); if constexpr(W==BID) back(*t,m,h); }
  delete t; }
struct Gt{ bool operator()(int a,int b)const{ return a>b; } };
template<class K,class C> void ov(int ops,int range){
  typedef OrderedVector<K,int,C> OV; OV v; std::map<K,int,C> m; std::string h;
  for(int i=0;i<ops;++i){ int o=vh::rnd(14); K k=(K)vh::rnd(range); int d=vh::rnd(1000);
    if(o<5){ h+="push("+vh::str(k)+","+vh::str(d)+") "; int* p=vh::coin()?v.push(k,d):v.insert(k,d); m[k]=d; CHECK(p&&*p==d&&p==v.findPtr(k),"pointer to the stored data",h); }
    else if(o<8){ h+="["+vh::str(k)+"]="+vh::str(d)+" "; v[k]=d; m[k]=d; }
    else if(o==8){ h+="pop "; v.pop(); if(m.size()){ auto e=m.end(); --e; m.erase(e); } }
    else if(o==9){ if(!vh::rnd(5)){ h+="clear "; v.clear(); m.clear(); } }
    else if(o==10){ h+="copy "; OV w(v); v.clear(); v=w; }
    else if(o==11){ h+="assign "; OV w; int n=vh::coin()?1:vh::rnd(2*range); for(int z=0;z<n;++z) w.push((K)vh::rnd(range),3); h+="to a vector of "+vh::str(w.size())+" "; w=v; v=w; w.clear(); v=v; }
    else if(o==12&&!vh::rnd(3)){ h+="assign random "; OV w; m.clear(); int n=vh::rnd(2*range); for(int z=0;z<n;++z){ K y=(K)vh::rnd(range); int e=vh::rnd(1000); w.push(y,e); m[y]=e; h+="("+vh::str(y)+","+vh::str(e)+")"; } v=w; h+=" "; }
    CHECK(v.size()==m.size()&&v.empty()==m.empty(),"size",h);
    if(m.size()){ auto e=m.end(); --e; CHECK(v.top().first==e->first&&v.top().second==e->second,"last element",h); }
    for(int q=0;q<=range;++q){ K x=(K)q; int* p=v.findPtr(x); typename OV::iterator f=v.find(x); CHECK((p!=NULL)==(m.count(x)>0),"key known",h+" key "+vh::str(x)); CHECK((f!=v.end())==(p!=NULL),"iterator of a key",h+" key "+vh::str(x)); if(p){ CHECK(*p==m[x]&&f->first==x&&f->second==m[x],"last value stored",h+" key "+vh::str(x)); } }
    std::vector<std::pair<K,int>> a,b; for(auto&x:m) a.push_back(std::make_pair(x.first,x.second)); for(typename OV::iterator it=v.begin();it!=v.end();++it) b.push_back(std::make_pair((*it).first,it->second)); CHECK(a==b,"iteration in key order",h);
    b.clear(); const OV& c=v; typename OV::const_iterator it=c.begin(); if(it!=c.end()) do b.push_back(std::make_pair(it->first,(*it).second)); while(it++); CHECK(a==b,"constant iteration in key order",h); } }
int main(int c,char**a){ vh::init(c,a);
  while(vh::more(0.35)){ ov<unsigned,std::less<unsigned>>(1+vh::rnd(30),1+vh::rnd(12)); ov<int,Gt>(1+vh::rnd(20),1+vh::rnd(9)); vh::done("ordered vector"); }
  while(vh::more(0.4)){ ov<unsigned,std::less<unsigned>>(150,300); vh::done("long ordered vector"); }
  while(vh::more(1)){ int n=1+vh::rnd(25),al=1+vh::rnd(4),l=1+vh::rnd(5); history<VECS,TrieVecs<unsigned,unsigned>>(n,al,l); history<TRIE,Trie<unsigned,unsigned>>(n,al,l); history<BID,BidTrie<unsigned,unsigned>>(n,al,l); vh::done("trie"); }
  return vh::end(); }
