// SRC: nlp_common/WordAligMatrix.cc
#include "h.hpp"
#include "WordAligMatrix.h"
using namespace vh; using namespace std;
typedef vector<vector<unsigned>> M;
static string show(const M&m){ ostringstream o; for(auto&r:m){ for(auto x:r) o<<x; o<<";"; } return o.str(); }
static WordAligMatrix mk(const M&m,unsigned J){ WordAligMatrix w(m.size(),J); for(unsigned i=0;i<m.size();++i) for(unsigned j=0;j<J;++j) w.setValue(i,j,m[i][j]); return w; }
static M get(const WordAligMatrix&w){ M m(w.get_I(),vector<unsigned>(w.get_J())); for(unsigned i=0;i<w.get_I();++i) for(unsigned j=0;j<w.get_J();++j) m[i][j]=w.getValue(i,j); return m; }
static bool at(const M&m,int i,int j){ return i>=0&&j>=0&&i<(int)m.size()&&j<(int)m[0].size()&&m[i][j]; }
static void one(const M&a,const M&b,unsigned J,unsigned Jb){
  string in="a="+show(a)+" b="+show(b)+" "+str(a.size())+"x"+str(J)+" / "+str(b.size())+"x"+str(Jb); unsigned I=a.size(); bool same=I==b.size()&&J==Jb;
  for(int op=0;op<3;++op){
    WordAligMatrix w=mk(a,J),o=mk(b,Jb); WordAligMatrix& r= op==0?w.symmetr1(o):op==1?w.symmetr2(o):w.growDiagFinal(o);
    string n=op==0?"symmetr1":op==1?"symmetr2":"growDiagFinal";
    CHECK(&r==&w,n+" returns its left operand",in); CHECK(get(o)==b,n+" changes its argument",in);
    M m=get(w); CHECK(m.size()==I&&(I==0||w.get_J()==J),n+" dimensions",in);
    if(!same){ CHECK(m==a,n+" with different dimensions changes the matrix",in); continue; }
    in+=" "+n+" -> "+show(m);
    for(unsigned i=0;i<I;++i) for(unsigned j=0;j<J;++j){
      bool u=a[i][j]||b[i][j],x=a[i][j]&&b[i][j]; string at_=" at "+str(i)+","+str(j);
      CHECK(!x||m[i][j],n+" loses a link of the intersection"+at_,in); CHECK(u||!m[i][j],n+" adds a link outside the union"+at_,in);
      if(!u||m[i][j]) continue;
      bool rf=true,cf=true; for(unsigned k=0;k<J;++k) if(m[i][k]) rf=false; for(unsigned k=0;k<I;++k) if(m[k][j]) cf=false;
      if(op==2){ CHECK(!rf&&!cf,n+" leaves a union link with an unaligned word"+at_,in); continue; }
      CHECK(!(rf&&cf),n+" leaves a union link that is free on both sides"+at_,in);
      bool h=at(m,i,j-1)||at(m,i,(int)j+1),v=at(m,(int)i-1,j)||at(m,i+1,j);
      CHECK(!(op==0?h||v:(h||v)&&!(h&&v)),n+" is not a fixed point"+at_,in);
    } }
  // links added by grow-diag-final need a reason: neighbour links only join aligned words with unaligned ones, so a union link both of whose words
  // are aligned inside the intersection stays out
  if(same){ WordAligMatrix w=mk(a,J); w.growDiagFinal(mk(b,J)); M m=get(w);
    for(unsigned i=0;i<I;++i) for(unsigned j=0;j<J;++j) if((a[i][j]||b[i][j])&&!(a[i][j]&&b[i][j])){ bool ri=false,ci=false; for(unsigned k=0;k<J;++k) if(a[i][k]&&b[i][k]) ri=true; for(unsigned k=0;k<I;++k) if(a[k][j]&&b[k][j]) ci=true;
      CHECK(!(ri&&ci)||!m[i][j],"growDiagFinal adds a link between words that are both aligned already",in); } }
  done("pairs");
}
static M rm(unsigned I,unsigned J,unsigned d){ M m(I,vector<unsigned>(J,0)); for(auto&r:m) for(auto&x:r) if(rnd(100)<d) x=1; return m; }
int main(int c,char**v){ init(c,v);
  for(unsigned I=1;I<=3;++I) for(unsigned J=1;J<=3&&I*J<=6;++J) for(unsigned x=0;x<(1u<<(I*J));++x) for(unsigned y=0;y<(1u<<(I*J));++y){ if(!more(0.4)) break; M a(I,vector<unsigned>(J)),b=a; for(unsigned k=0;k<I*J;++k){ a[k/J][k%J]=x>>k&1; b[k/J][k%J]=y>>k&1; } one(a,b,J,J); }
  while(more(1)){ unsigned I=1+rnd(coin()?5:12),J=1+rnd(coin()?5:12); if(rnd(60)==0){ I=1+rnd(40); J=1+rnd(40);} bool same=rnd(6); unsigned Ib=same?I:1+rnd(5),Jb=same?J:1+rnd(5); unsigned d=rnd(3)==0?8:rnd(2)?20:45;
    M a=rm(I,J,d),b=rm(Ib,Jb,coin()?d:30); if(same&&coin()){ for(unsigned k=0;k<1+I/2;++k){ unsigned i=rnd(I),j=rnd(J); a[i][j]=b[i][j]=1; } } 
    if(same&&I>1&&J>1&&rnd(4)==0){ // chains: a path of neighbouring cells, only its end in the intersection
      for(auto&r:a) fill(r.begin(),r.end(),0u); b=a; int i=rnd(I),j=rnd(J); a[i][j]=b[i][j]=1; for(unsigned s=0;s<I+J;++s){ if(coin()) i+=coin()?1:-1; else j+=coin()?1:-1; i=max(0,min<int>(I-1,i)); j=max(0,min<int>(J-1,j)); (coin()?a:b)[i][j]=1; } }
    one(a,b,J,Jb); }
  return end(); }
