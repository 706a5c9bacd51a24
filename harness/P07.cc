// SRC: phrase_models/PhraseExtractionTable.cc phrase_models/BpSet.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc nlp_common/WordAligMatrix.cc nlp_common/MathFuncs.cc
// LIB: -lgmp
#include "h.hpp"
#include <memory>
#include <fstream>
#include "PhraseExtractionTable.h"
using namespace vh; using namespace std;
typedef tuple<int,int,int,int> R;                        // source span 1-based, target span 1-based
struct Q{ int n,m; vector<vector<int>> a; bool mono,spur,csl; int mx; };
static string show(const Q&q){ string s=str(q.n)+" source words, "+str(q.m)+" target words, links"; for(int i=0;i<q.n;++i) for(int j=0;j<q.m;++j) if(q.a[i][j]) s+=" "+str(i+1)+"-"+str(j+1); return s+(q.mono?" monotone":"")+(q.spur?"":" nospurious")+(q.csl?" srclimit":"")+" max "+str(q.mx); }
static string sp(R r){ return "["+str(get<0>(r))+","+str(get<1>(r))+"]/["+str(get<2>(r))+","+str(get<3>(r))+"]"; }
static bool consistent(const Q&q,R r){ auto[a,b,c,d]=r; bool l=false; for(int i=1;i<=q.n;++i) for(int j=1;j<=q.m;++j) if(q.a[i-1][j-1]){ bool x=i>=a&&i<=b,y=j>=c&&j<=d; if(x!=y) return false; l|=x; } return l; }
static bool rowfree(const Q&q,int i){ for(int j=0;j<q.m;++j) if(q.a[i-1][j]) return false; return true; }
static bool colfree(const Q&q,int j){ for(int i=0;i<q.n;++i) if(q.a[i][j-1]) return false; return true; }
static int limsrc(const Q&q){ return q.csl?q.mx:1<<20; }
static bool inlimits(const Q&q,R r){ auto[a,b,c,d]=r; int len=0; for(int j=c;j<=d;++j) if(q.spur||!colfree(q,j)) ++len; return len<=q.mx&&b-a+1<=limsrc(q); }
static bool monook(const Q&q,R r){ if(!q.mono) return true; auto[a,b,c,d]=r; for(int i=1;i<=q.n;++i) for(int j=1;j<=q.m;++j) if(q.a[i-1][j-1]&&(j<c||j>d)){ if(i<a&&j>d) return false; if(i>b&&j<c) return false; } return true; }
// source words taken: those linked to the target span with the free words between links of one target word, plus, for each target word, the free
// words just left of its links or the free words just right of them
static set<R> reach(const Q&q){ set<R> out; typedef unsigned long C; auto bit=[](int i){ return C(1)<<i; };
  vector<vector<C>> v(q.m+1);
  for(int j=1;j<=q.m;++j){ C b=0; int l=0,h=0; for(int i=1;i<=q.n;++i) if(q.a[i-1][j-1]){ b|=bit(i); if(!l) l=i; h=i; } for(int i=l+1;i<h;++i) if(rowfree(q,i)) b|=bit(i); v[j].push_back(b);
    if(l){ C x=b; int i=l-1; for(;i>=1&&rowfree(q,i);--i) x|=bit(i); if(i<l-1) v[j].push_back(x); x=b; i=h+1; for(;i<=q.n&&rowfree(q,i);++i) x|=bit(i); if(i>h+1) v[j].push_back(x); } }
  for(int c=1;c<=q.m;++c){ set<C> cur={0}; for(int d=c;d<=q.m;++d){ set<C> nx; for(C x:cur) for(C y:v[d]) nx.insert(x|y); cur=nx;
      for(C x:cur){ if(!x) continue; int a=1; while(!(x>>a&1)) ++a; int b=q.n; while(!(x>>b&1)) --b; bool gap=false; for(int i=a;i<=b;++i) if(!(x>>i&1)) gap=true; if(gap) continue;
        R r(a,b,c,d); if(!consistent(q,r)||!inlimits(q,r)||!monook(q,r)) continue; if(c==1&&d==q.m&&!(a==1&&b==q.n)) continue; out.insert(r); } } }
  return out; }
static Q gen(){ Q q; q.n=1+rnd(coin()?4:7); q.m=1+rnd(coin()?4:6); q.a.assign(q.n,vector<int>(q.m,0)); int d=rnd(4)==0?0:8+rnd(45); for(auto&r:q.a) for(auto&x:r) if((int)rnd(100)<d) x=1; if(rnd(3)==0) for(int i=0;i<min(q.n,q.m);++i) q.a[i][i]=1; else if(rnd(3)==0) for(int j=0;j<q.m;++j){ for(int i=0;i<q.n;++i) q.a[i][j]=0; if(rnd(5)) q.a[rnd(q.n)][j]=1; }
  q.mono=rnd(5)==0; q.spur=rnd(3)!=0; q.csl=rnd(4)==0; q.mx=rnd(3)?7+rnd(10):1+rnd(4); return q; }
static PhraseExtractParameters par(const Q&q){ PhraseExtractParameters p; p.monotone=q.mono; p.countSpurious=q.spur; p.constraintSrcLen=q.csl; p.maxTrgPhraseLength=q.mx; return p; }
static unique_ptr<PhraseExtractionTable> tab;
static vector<string> ns,t;
static WordAligMatrix mat(const Q&q){ WordAligMatrix w(q.n,q.m); for(int i=0;i<q.n;++i) for(int j=0;j<q.m;++j) w.setValue(i,j,q.a[i][j]); return w; }
static void words(const Q&q,bool rep){ ns={"NULL"}; t.clear(); for(int i=1;i<=q.n;++i) ns.push_back(rep?"s"+str(rnd(2)):"s"+str(i)); for(int j=1;j<=q.m;++j) t.push_back(rep?"t":"t"+str(j)); }
static R span(const PhrasePair&p,string in){ for(unsigned k=0;k<p.s_.size();++k) CHECK(p.s_[k]=="s"+str(atoi(p.s_[0].c_str()+1)+(int)k),"source words of an extracted phrase are not contiguous",in); for(unsigned k=0;k<p.t_.size();++k) CHECK(p.t_[k]=="t"+str(atoi(p.t_[0].c_str()+1)+(int)k),"target words of an extracted phrase are not contiguous",in);
  CHECK(!p.s_.empty()&&!p.t_.empty(),"an extracted phrase is empty",in); int a=atoi(p.s_[0].c_str()+1),c=atoi(p.t_[0].c_str()+1); return R(a,a+(int)p.s_.size()-1,c,c+(int)p.t_.size()-1); }
static void plain(){ Q q=gen(); string in=show(q); words(q,false); vector<PhrasePair> v; if(coin()) v.resize(3); WordAligMatrix w=mat(q);
  tab->extractConsistentPhrases(par(q),ns,t,w,v); set<R> got;
  for(auto&p:v){ R r=span(p,in); CHECK(consistent(q,r),"extracted "+sp(r)+" is not consistent with the links",in); CHECK(inlimits(q,r),"extracted "+sp(r)+" is beyond the length limit",in); CHECK(monook(q,r),"extracted "+sp(r)+" is not monotone",in); CHECK(got.insert(r).second,"extracted "+sp(r)+" twice",in); CHECK(near(p.weight,1,1e-5),"weight of "+sp(r)+" is "+str(p.weight),in); }
  // every consistent pair whose boundary words are all aligned
  for(int a=1;a<=q.n;++a) for(int b=a;b<=q.n;++b) for(int c=1;c<=q.m;++c) for(int d=c;d<=q.m;++d){ R r(a,b,c,d); if(!consistent(q,r)||!inlimits(q,r)||!monook(q,r)) continue; if(rowfree(q,a)||rowfree(q,b)||colfree(q,c)||colfree(q,d)) continue; if(c==1&&d==q.m&&!(a==1&&b==q.n)) continue; CHECK(got.count(r),"consistent "+sp(r)+" is not extracted",in); }
  set<R> e=reach(q); for(auto&r:e) CHECK(got.count(r),"not extracted "+sp(r),in); for(auto&r:got) CHECK(e.count(r),"extracted "+sp(r)+", not an admitted extension over free words",in);
  done("extractions"); }
// number of ways of covering every source word with a phrase, left to right, on disjoint target spans that leave no target word out
static void segs(const Q&q,const set<R>&ps,int x,unsigned used,vector<R>&cur,map<R,double>&cnt,double&tot){ if(x>q.n){ if(used+1==(1u<<q.m)){ ++tot; for(auto&r:cur) ++cnt[r]; } return; }
  for(auto&r:ps) if(get<0>(r)==x){ unsigned b=0; for(int j=get<2>(r);j<=get<3>(r);++j) b|=1u<<(j-1); if(b&used) continue; cur.push_back(r); segs(q,ps,get<1>(r)+1,used|b,cur,cnt,tot); cur.pop_back(); } }
static void segm(){ Q q=gen(); if(coin()){ for(int i=0;i<min(q.n,q.m);++i) q.a[i][i]=1; q.mono=false; q.mx=20; } string in="segmentations, "+show(q); words(q,false); vector<PhrasePair> v; if(coin()) v.resize(2); WordAligMatrix w=mat(q);
  double ln=tab->segmBasedExtraction(par(q),ns,t,w,v); set<R> ps=reach(q); map<R,double> cnt; double tot=0; vector<R> cur; segs(q,ps,1,0,cur,cnt,tot);
  if(tot==0){ CHECK(ln<-9e4,"a logarithm "+str(ln)+" of the number of segmentations when there is none",in); CHECK(v.empty(),"phrases without any segmentation",in); done("no segmentation"); return; }
  CHECK(near(ln,log(tot),1e-3),"logarithm of the number of segmentations "+str(ln)+" instead of "+str(log(tot)),in); set<R> got;
  for(auto&p:v){ R r=span(p,in); CHECK(got.insert(r).second,"twice "+sp(r),in); CHECK(cnt.count(r),sp(r)+" is in no segmentation",in); CHECK(near(p.weight,cnt[r]/tot,2e-3),"weight of "+sp(r)+" is "+str(p.weight)+" instead of the proportion of segmentations "+str(cnt[r]/tot),in); }
  CHECK(got.size()==cnt.size(),"phrases of the segmentations: "+str(got.size())+" instead of "+str(cnt.size()),in); done("segmentations"); }
static void bps(){ BpSet s,u; map<R,double> m,mu; string in="bisegment set:"; for(int k=0;k<(int)rnd(25);++k){ R r(rnd(4),rnd(4),rnd(3),rnd(3)); double l=rin(-3,6); bool o=rnd(3)==0; in+=" "+sp(r)+":"+str(l)+(o?"'":""); (o?u:s).incrPair(get<0>(r),get<1>(r),get<2>(r),get<3>(r),l); auto&M=o?mu:m; M[r]+=exp(l); }
  if(coin()){ in+=" union"; s.obtainUnion(u); for(auto&p:mu) m[p.first]+=p.second; }
  if(rnd(8)==0){ s.clear(); m.clear(); in+=" clear"; }
  unsigned mx=0; for(auto&p:m) mx=max<unsigned>(mx,get<0>(p.first)); CHECK(s.getx1Max()>=mx,"greatest source start",in);
  for(int a=0;a<5;++a) for(int b=0;b<5;++b){ BpSetInfoCont v; v.resize(rnd(3)); s.retrieveTrgPhrasesGivenSrc(a,b,v); set<R> g; for(auto&e:v){ R r(a,b,e.tpair.first,e.tpair.second); CHECK(g.insert(r).second,sp(r)+" twice",in); CHECK(m.count(r)&&near(e.lc,log(m[r]),1e-3),sp(r)+" has "+str(e.lc),in); } unsigned n=0; for(auto&p:m) if(get<0>(p.first)==a&&get<1>(p.first)==b){ ++n; CHECK((int)s.getx2Max(a)>=b,"greatest source end",in); } CHECK(n==v.size(),"target spans of "+str(a)+","+str(b),in); }
  done("bisegment sets"); }
static void edge(){ // empty and long sentences, words that repeat
  Q q=gen(); if(coin()){ q.n=0; q.a.clear(); } words(q,false); vector<PhrasePair> v; WordAligMatrix w=mat(q); string in="edge, "+show(q);
  if(q.n==0||rnd(2)){ tab->extractConsistentPhrases(par(q),ns,t,w,v); for(auto&p:v){ CHECK(!p.s_.empty()&&!p.t_.empty(),"a phrase pair with an empty side",in); CHECK(p.weight==p.weight,"weight",in); } done("empty source"); }
  else { Q l; l.m=95+rnd(8); l.n=95+rnd(8); l.mono=false; l.spur=true; l.csl=false; l.mx=3; l.a.assign(l.n,vector<int>(l.m,0)); for(int i=0;i<min(l.n,l.m);++i) l.a[i][i]=1; words(l,false); WordAligMatrix wl=mat(l); tab->extractConsistentPhrases(par(l),ns,t,wl,v); string i2="long, "+str(l.n)+"/"+str(l.m);
    if(l.m>=101||l.n>=101) CHECK(v.empty(),"phrases of a sentence over the limit",i2); else { CHECK(!v.empty(),"no phrases",i2); set<R> g; for(auto&p:v){ R r=span(p,i2); CHECK(consistent(l,r),sp(r),i2); g.insert(r);} for(int i=1;i<min(l.n,l.m);++i) CHECK(g.count(R(i,i,i,i)),"link pair "+str(i),i2); } done("long sentences"); } }
int main(int c,char**v){ static ofstream nul("/dev/null"); cerr.rdbuf(nul.rdbuf()); init(c,v); tab.reset(new PhraseExtractionTable);
  for(int n=1;n<=3;++n) for(int m=1;m<=3&&n*m<=9;++m) for(unsigned x=0;x<(1u<<(n*m));++x){ if(!more(0.4)) break; Q q; q.n=n; q.m=m; q.mono=false; q.spur=true; q.csl=false; q.mx=7; q.a.assign(n,vector<int>(m)); for(int k=0;k<n*m;++k) q.a[k/m][k%m]=x>>k&1; words(q,false); WordAligMatrix w=mat(q); vector<PhrasePair> o; tab->extractConsistentPhrases(par(q),ns,t,w,o); set<R> g,e=reach(q); string in=show(q); for(auto&p:o) g.insert(span(p,in)); CHECK(g==e&&o.size()==e.size(),"extracted "+str(o.size())+" pairs instead of "+str(e.size()),in); done("all small alignments"); }
  while(more(1)){ plain(); if(coin()) plain(); segm(); for(int k=0;k<5;++k) bps(); if(rnd(8)==0) edge(); }
  return end(); }
