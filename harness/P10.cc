// SRC: nlp_common/MathFuncs.cc nlp_common/Prob.cc
// LIB: -lgmp
// incremental count tables against a direct accumulation of the same history
#include "Count.h"
#include "LogCount.h"
#include "vecx_x_incr_cptable.h"
#include "IncrCondProbTable.h"
#include "h.hpp"
#include <map>
#include <set>
#include <sstream>
using namespace std;
typedef vector<unsigned int> VX;
struct VT: vecx_x_incr_cptable<unsigned int,Count,Count> {};
struct MT: IncrCondProbTable<VX,unsigned int,Count,Count> { bool load(const char*){return false;} };
struct Ref { map<VX,double> s; map<pair<VX,unsigned>,double> j; };
static string show(const VX& v,unsigned t){ ostringstream o; for(auto x:v) o<<x<<" "; o<<"-> "<<t; return o.str(); }
template<class T> void run(T& t,const char* nm,bool trie){
  Ref r; int n=vh::rin(1,25); ostringstream hist; hist<<nm<<": ";
  unsigned A=vh::rin(1,4); int maxl=vh::rin(0,3); bool counting=vh::coin(); set<VX> srcs; bool srcalone=false;
  auto rs=[&]{ VX v; int l=vh::rin(0,maxl); for(int i=0;i<l;++i) v.push_back(vh::rin(0,A)); return v; };
  for(int k=0;k<n;++k){ VX s=rs(); unsigned x=vh::rin(0,A); double c=vh::rin(1,40)/4.0; int op=counting?0:vh::rin(0,4); hist<<op<<"("<<show(s,x)<<","<<c<<") ";
    if(op==0||op==1){ if(op==0) t.incrCountsOfEntry(s,x,Count((float)c)); else t.incrCountsOfEntryLog(s,x,LogCount(log(c))); r.s[s]+=c; r.j[{s,x}]+=c; }
    if(op==2){ im_pair<Count,Count> p; p.first=Count((float)(c*2)); p.second=Count((float)c); t.addTableEntry(s,x,p); r.s[s]=2*c; r.j[{s,x}]=c; }
    if(op==3){ t.addSrcInfo(s,Count((float)c)); r.s[s]=c; }
    if(op==4){ t.addSrcTrgInfo(s,x,Count((float)c)); r.j[{s,x}]=c; srcalone=true; }
    if(vh::rin(0,60)==0){ t.clear(); r=Ref(); hist<<"clear "; srcalone=false; } }
  const string H=hist.str(); auto near=[&](double a,double b){ return vh::near(a,b,1e-3); };
  for(int k=0;k<40;++k){ VX s=rs(); unsigned x=vh::rin(0,A); auto js=r.j.find({s,x}); auto ss=r.s.find(s); double j=js==r.j.end()?0:js->second, c=ss==r.s.end()?0:ss->second; string w=H+" | "+show(s,x);
    bool f; Count ic=t.getSrcInfo(s,f); CHECK(near((double)ic,c),"source total returned by getSrcInfo",w); if(!(trie&&s.empty())) CHECK(f==(ss!=r.s.end())||(trie),"getSrcInfo found flag",w); if(c>0) CHECK(f,"source with a total must be found",w);
    Count jc=t.getSrcTrgInfo(s,x,f); CHECK(near((double)jc,j),"joint count returned by getSrcTrgInfo",w); if(!trie) CHECK(f==(js!=r.j.end()),"getSrcTrgInfo found flag",w); if(j>0) CHECK(f,"pair with a count must be found",w);
    im_pair<Count,Count> ip=t.infSrcTrg(s,x,f); if(j>0) CHECK(f&&near((double)ip.second,j)&&near((double)ip.first,c),"totals returned by infSrcTrg",w);
    CHECK(near((double)t.cSrcTrg(s,x),j),"cSrcTrg",w); CHECK(near((double)t.cSrc(s),c),"cSrc",w);
    if(j>0) CHECK(near((double)t.lcSrcTrg(s,x),log(j)),"lcSrcTrg",w); if(c>0) CHECK(near((double)t.lcSrc(s),log(c)),"lcSrc",w);
    double p=(double)t.pTrgGivenSrc(s,x), lp=(double)t.logpTrgGivenSrc(s,x);
    CHECK(p==p&&lp==lp,"conditional probability is a number",w);
    if(c>0) CHECK(near(p,j/c),"conditional probability is joint over source total",w); if(c>0&&j>0) CHECK(near(lp,log(j/c)),"log conditional probability",w); if(c==0) CHECK(p==0&&lp<=SMALL_LG_NUM,"no probability without a source total",w);
    // target totals, over the pairs with a non-empty source (what the trie version counts)
    double ct=0; for(auto& e:r.j) if(e.first.second==x&&(!trie||e.first.first.size()>0)) ct+=e.second;
    if(trie) CHECK(near((double)t.cTrg(x),ct),"target total cTrg",w); if(ct>0&&trie){ CHECK(near((double)t.lcTrg(x),log(ct)),"target total lcTrg",w); if(j>0&&s.size()>0) CHECK(near((double)t.logpSrcGivenTrg(s,x),log(j/ct)),"logpSrcGivenTrg is joint over target total",w); }
    if(!srcalone&&trie&&!(s.empty())){ typename T::TrgTableNode tn; bool got=t.getEntriesForSource(s,tn); size_t cnt=0; for(auto& e:r.j) if(e.first.first==s&&e.second>0){ ++cnt; CHECK(tn.count(e.first.second)&&near((double)tn[e.first.second].second,e.second)&&near((double)tn[e.first.second].first,c),"entries of a source",w); }
      CHECK(tn.size()==cnt&&got==(cnt>0),"exactly the entries of a source",w);
      NbestTableNode<unsigned> nb; if(cnt>0){ t.getNbestForSrc(s,nb); CHECK(nb.size()==cnt,"n-best list of a source holds its entries",w); double last=1e30; for(auto it=nb.begin();it!=nb.end();++it){ CHECK((double)it->first<=last+1e-6,"n-best order",w); last=(double)it->first; CHECK(near(last,log(r.j[{s,it->second}]/c)),"n-best score is the log-probability",w); } } } } }
int main(int a,char**b){ vh::init(a,b);
  while(vh::more(1)){ if(vh::coin()){ VT t; run(t,"trie",true); } else { MT t; run(t,"map",false); } vh::done("count table histories"); } return vh::end(); }
