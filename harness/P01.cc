// SRC: nlp_common/WordAligMatrix.cc
#include "h.hpp"
#include "WordAligMatrix.h"
using namespace vh; using namespace std;
typedef vector<vector<unsigned>> M;
static string show(const M&m,unsigned J){ ostringstream o; o<<m.size()<<"x"<<J<<":"; for(auto&r:m){ for(auto x:r) o<<x<<","; o<<";"; } return o.str(); }
static WordAligMatrix mk(const M&m,unsigned J){ WordAligMatrix w(m.size(),J); for(unsigned i=0;i<m.size();++i) for(unsigned j=0;j<J;++j) w.setValue(i,j,m[i][j]); return w; }
static void eqm(const WordAligMatrix&w,const M&m,unsigned J,const string& op,const string& in){
  CHECK(w.get_I()==m.size() && w.get_J()==J,op+": dimensions",in);
  for(unsigned i=0;i<m.size();++i) for(unsigned j=0;j<J;++j) CHECK(w.getValue(i,j)==m[i][j],op+": cell "+str(i)+","+str(j)+" is "+str(w.getValue(i,j))+" expected "+str(m[i][j]),in);
}
static void one(const M&a,const M&b,unsigned J,unsigned Jb){
  string in="a="+show(a,J)+" b="+show(b,Jb); unsigned I=a.size(); bool same=I==b.size()&&J==Jb;
  struct { const char*n; WordAligMatrix&(WordAligMatrix::*f)(const WordAligMatrix&); function<unsigned(unsigned,unsigned)> g; } ops[]={
   {"and",&WordAligMatrix::operator&=,[](unsigned x,unsigned y){return x&&y?x:0u;}},{"or",&WordAligMatrix::operator|=,[](unsigned x,unsigned y){return x||y?1u:0u;}},
   {"xor",&WordAligMatrix::operator^=,[](unsigned x,unsigned y){return (!!x)!=(!!y)?1u:0u;}},{"sum",&WordAligMatrix::operator+=,[](unsigned x,unsigned y){return x+y;}},
   {"diff",&WordAligMatrix::operator-=,[](unsigned x,unsigned y){return x&&!y?1u:0u;}}};
  WordAligMatrix wb=mk(b,Jb);
  for(auto&o:ops){ WordAligMatrix w=mk(a,J); WordAligMatrix& r=(w.*o.f)(wb); CHECK(&r==&w,string(o.n)+" returns the left operand",in); M e=a; if(same) for(unsigned i=0;i<I;++i) for(unsigned j=0;j<J;++j) e[i][j]=o.g(a[i][j],b[i][j]); eqm(w,e,J,o.n,in); eqm(wb,b,Jb,string(o.n)+" right operand",in); }
  { WordAligMatrix w=mk(a,J); w.flip(); M e=a; for(auto&r:e) for(auto&x:r) x=!x; eqm(w,e,J,"complement",in); }
  if(I&&J){ WordAligMatrix w=mk(a,J); w.transpose(); M e(J,vector<unsigned>(I)); for(unsigned i=0;i<I;++i) for(unsigned j=0;j<J;++j) e[j][i]=a[i][j]; eqm(w,e,I,"transpose",in); w.transpose(); eqm(w,a,J,"double transpose",in); }
  { WordAligMatrix w=mk(a,J); bool e=same; if(e) for(unsigned i=0;i<I;++i) for(unsigned j=0;j<J;++j) if(a[i][j]!=b[i][j]) e=false; CHECK((w==wb)==e,"equality",in); w=wb; eqm(w,b,Jb,"assignment",in); WordAligMatrix c(w); eqm(c,b,Jb,"copy",in); w.reset(); M z(b.size(),vector<unsigned>(Jb,0)); eqm(w,z,Jb,"reset",in); eqm(c,b,Jb,"copy independent",in); w.set(); for(auto&r:z) for(auto&x:r) x=1; eqm(w,z,Jb,"set",in); }
  for(unsigned i=0;i<I;++i){ WordAligMatrix w=mk(a,J); bool e=false; for(unsigned j=0;j<J;++j) e|=a[i][j]!=0; CHECK(w.iAligned(i)==e,"iAligned",in); }
  for(unsigned j=0;j<J;++j){ WordAligMatrix w=mk(a,J); bool e=false; for(unsigned i=0;i<I;++i) e|=a[i][j]!=0; CHECK(w.jAligned(j)==e,"jAligned",in); }
  // reading back an alignment
  { WordAligMatrix w=mk(a,J); vector<PositionIndex> v; bool amb=false; vector<PositionIndex> e(J,0); for(unsigned j=0;j<J;++j){ unsigned c=0; for(unsigned i=0;i<I;++i) if(a[i][j]){ ++c; e[j]=i+1; } if(c>1) amb=true; }
    bool r=w.getAligVec(v); CHECK(r==!amb,"getAligVec representable",in); if(!amb) CHECK(v==e,"getAligVec value "+str(v),in); }
  { vector<PositionIndex> v(J); for(auto&x:v) x=rnd(I+1); WordAligMatrix w(I,J); w.putAligVec(v); vector<PositionIndex> g; CHECK(w.getAligVec(g)&&g==v,"alignment vector round trip "+str(v),in);
    for(unsigned i=0;i<I;++i) for(unsigned j=0;j<J;++j) CHECK(w.getValue(i,j)==(v[j]==i+1?1u:0u),"putAligVec cells "+str(v),in);
    v.push_back(0); WordAligMatrix w2=mk(a,J); w2.putAligVec(v); eqm(w2,a,J,"putAligVec wrong length",in); }
  { unsigned i=rnd(I+2),j=rnd(J+2),x=rnd(3); WordAligMatrix w=mk(a,J); w.setValue(i,j,x); M e=a; if(i<I&&j<J) e[i][j]=x; eqm(w,e,J,"setValue",in); w.set(i,j); if(i<I&&j<J) e[i][j]=1; eqm(w,e,J,"set(i,j)",in); }
  // (I,J) reused by init
  { WordAligMatrix w=mk(a,J); w.init(b.size(),Jb); M z(b.size(),vector<unsigned>(Jb,0)); eqm(w,z,Jb,"init",in); }
  done("pairs");
}
static M rm(unsigned I,unsigned J,unsigned mx,unsigned dens){ M m(I,vector<unsigned>(J,0)); for(auto&r:m) for(auto&x:r) if(rnd(100)<dens) x=1+rnd(mx); return m; }
int main(int c,char**v){ init(c,v);
  for(unsigned I=0;I<=3;++I) for(unsigned J=(I?1:0);J<=3&&I*J<=6;++J) for(unsigned x=0;x<(1u<<(I*J));++x) for(unsigned y=0;y<(1u<<(I*J));y+=(I*J>4?1+rnd(3):1)){ if(!more(0.4)) break; M a(I,vector<unsigned>(J)),b=a; for(unsigned k=0;k<I*J;++k){ a[k/J][k%J]=x>>k&1; b[k/J][k%J]=y>>k&1; } one(a,b,J,J); }
  while(more(1)){ unsigned I=1+rnd(coin()?6:20),J=1+rnd(coin()?6:20); if(rnd(50)==0){ I=1+rnd(90); J=1+rnd(90);} bool same=rnd(5); unsigned Ib=same?I:1+rnd(6),Jb=same?J:1+rnd(6); if(!same&&coin()) Ib=I; else if(!same&&coin()) Jb=J; unsigned mx=coin()?1:4,d=coin()?50:15; M a=rm(I,J,mx,d),b=rm(Ib,Jb,mx,d); one(a,b,J,Jb); }
  return end(); }
