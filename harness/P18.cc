// SRC:
// n-best tables against a stable-sorted list of the inserted elements
#include "h.hpp"
#include "NbestTableNode.h"
#include "NbestTransTable.h"
typedef std::pair<double,unsigned int> P;
typedef std::vector<P> L;
struct Both{ NbestTableNode<unsigned int> t; L l; std::string h;
  void ins(double s,unsigned v,bool pr){ h+="ins("+vh::str(s)+","+vh::str(v)+") "; if(pr) t.insert(P(s,v)); else t.insert(s,v); size_t i=0; while(i<l.size() && l[i].first>=s) ++i; l.insert(l.begin()+i,P(s,v)); }
  void check(){
    CHECK(t.size()==l.size(),"number of elements",h);
    L got; for(NbestTableNode<unsigned int>::iterator it=t.begin();it!=t.end();++it) got.push_back(P(it->first,it->second));
    CHECK(got==l,"elements from best to worst, ties in order of insertion",h+" got "+vh::str(got)+" want "+vh::str(l));
    L g2; NbestTableNode<unsigned int>::iterator it=t.begin(); if(t.size()) do g2.push_back(P(it->first,it->second)); while(it++);
    CHECK(g2==l,"iteration by the increment result",h);
    if(l.size()){ CHECK(t.getBestElem()==l[0].second,"best element",h); CHECK(t.getScoreOfBestElem()==l[0].first,"best score",h); }
    else CHECK(t.getScoreOfBestElem()==0,"best score of an empty table",h); }
  void prune(double th){ h+="prune("+vh::str(th)+") "; t.pruneGivenThreshold(th); L n; for(auto&x:l) if(!(x.first<th)) n.push_back(x); l=n; }
  void last(){ h+="removeLast "; t.removeLastElement(); l.pop_back(); }
  void sort(){ h+="sort "; t.stableSort(); std::sort(l.begin(),l.end()); std::stable_sort(l.begin(),l.end(),[](const P&a,const P&b){return a.first>b.first;}); }
  void clear(){ h+="clear "; t.clear(); l.clear(); }
};
static double sc(){ static const double v[]={-3,-2,-1.5,-1,-1,0,0.25,1,2,-1e30,1e-300}; return v[vh::rnd(11)]; }
int main(int c,char**a){ vh::init(c,a);
  // all short insertion orders over three scores, every threshold and limit
  for(int n=0;n<=5;++n){ int m=1; for(int i=0;i<n;++i) m*=3;
    for(int k=0;k<m;++k) for(int op=0;op<6;++op){ Both b; int x=k; for(int i=0;i<n;++i){ b.ins(-(x%3),i,op&1); x/=3; }
      b.check(); if(op<4) b.prune(0.5-op); else if(op==4) b.sort(); else while(b.l.size()>2) b.last();
      b.check(); b.ins(-1,77,true); b.check(); vh::done("small"); } }
  while(vh::more(0.8)){ Both b; int n=1+vh::rnd(25); for(int i=0;i<n;++i){ int o=vh::rnd(20);
      if(o<12) b.ins(vh::coin()?sc():vh::runi()*4-2,vh::rnd(30),vh::coin()); else if(o<14){ if(b.l.size()) b.last(); } else if(o<16) b.prune(b.l.size()&&vh::coin()?b.l[vh::rnd(b.l.size())].first:sc()); else if(o<18) b.sort(); else if(o==18&&!vh::rnd(4)) b.clear();
      b.check(); } vh::done("history"); }
  while(vh::more(1)){ NbestTransTable<unsigned int,unsigned int> t; std::map<unsigned,L> r; std::string h; int n=vh::rnd(20);
    for(int i=0;i<n;++i){ unsigned k=vh::rnd(6); Both b; int m=vh::rnd(4); for(int j=0;j<m;++j) b.ins(sc(),vh::rnd(5),true); h+="entry("+vh::str(k)+","+vh::str(b.l)+") ";
      NbestTableNode<unsigned>* p=t.insertEntry(k,b.t); r.insert(std::make_pair(k,b.l)); CHECK(p!=NULL && p==t.getTranslationsForKey(k),"entry returned",h); if(!vh::rnd(15)){ t.clear(); r.clear(); h+="clear "; }
      CHECK(t.size()==r.size(),"number of keys",h);
      for(unsigned q=0;q<6;++q){ NbestTableNode<unsigned>* e=t.getTranslationsForKey(q); CHECK((e!=NULL)==(r.count(q)>0),"known key",h); if(e){ L g; for(NbestTableNode<unsigned>::iterator it=e->begin();it!=e->end();++it) g.push_back(P(it->first,it->second)); CHECK(g==r[q],"translations of a key",h); } }
      size_t cnt=0; for(NbestTransTable<unsigned,unsigned>::iterator it=t.begin();it!=t.end();++it){ CHECK(r.count(it->first),"iterated key",h); ++cnt; } CHECK(cnt==r.size(),"keys iterated",h); }
    vh::done("table"); }
  return vh::end(); }
