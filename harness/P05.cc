// SRC: error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc nlp_common/StrProcUtils.cc
#include "h.hpp"
#include "EditDistForStr.h"
#include "EditDistForVec.h"
#include "EditDistForVecString.h"
using namespace vh; using namespace std;
typedef vector<string> VS; struct Mod { double h,i,s,d; };
template<class X> struct Ref { Mod m; function<double(const X&,const X&)> diag; function<double(const X&)> ins,del; }; // costs over elements
// independent definition: memoised recursion from the end (forward code works from the start)
template<class X> static double dist(const vector<X>&x,const vector<X>&y,function<double(size_t,size_t)> diag,function<double(size_t)> ins,function<double(size_t)> del){
  vector<vector<double> > f(x.size()+1,vector<double>(y.size()+1,0)); for(int i=x.size();i>=0;--i) for(int j=y.size();j>=0;--j){ if(i==(int)x.size()&&j==(int)y.size()) continue; double b=INFINITY; if(i<(int)x.size()) b=min(b,del(i)+f[i+1][j]); if(j<(int)y.size()) b=min(b,ins(j)+f[i][j+1]); if(i<(int)x.size()&&j<(int)y.size()) b=min(b,diag(i,j)+f[i+1][j+1]); f[i][j]=b; } return f[0][0]; }
static double brute(const vector<int>&x,const vector<int>&y,size_t i,size_t j,const Mod&m){ if(i==x.size()&&j==y.size()) return 0; double b=INFINITY; if(i<x.size()) b=min(b,m.d+brute(x,y,i+1,j,m)); if(j<y.size()) b=min(b,m.i+brute(x,y,i,j+1,m)); if(i<x.size()&&j<y.size()) b=min(b,(x[i]==y[j]?m.h:m.s)+brute(x,y,i+1,j+1,m)); return b; }
static Mod model(){ Mod m={0,1,1,1}; switch(rnd(5)){ case 0: break; case 1: m.h=0;m.i=1+rnd(3);m.s=1+rnd(4);m.d=1+rnd(3); break; case 2: m.h=rnd(3);m.i=rnd(4);m.s=rnd(6);m.d=rnd(4); break; case 3: m.h=runi();m.i=runi()*3;m.s=runi()*5;m.d=runi()*3; break; default: m.h=0; m.i=1;m.s=2;m.d=1; } return m; }
static string sm(const Mod&m){ return " costs hit="+str(m.h)+" ins="+str(m.i)+" subst="+str(m.s)+" del="+str(m.d); }
template<class S> static double elem(const S&x,const S&y,const Mod&m){ vector<char> a(x.begin(),x.end()),b(y.begin(),y.end()); return dist<char>(a,b,[&](size_t i,size_t j){return a[i]==b[j]?m.h:m.s;},[&](size_t){return m.i;},[&](size_t){return m.d;}); }
static double prefElem(const string&x,const string&y,const Mod&m){ double b=INFINITY; for(size_t k=0;k<=x.size();++k) b=min(b,elem(x.substr(0,k),y,m)); return b; }
static string rs(unsigned n,unsigned al){ string s; for(unsigned i=0;i<n;++i) s+=(char)('a'+rnd(al)); return s; }
static void acc(unsigned h,unsigned i,unsigned s,unsigned d,size_t X,size_t Y,const string&in){ CHECK(h+s+d==X,"hits, substitutions and deletions "+str(h)+","+str(s)+","+str(d)+" do not add up to the first length",in); CHECK(h+s+i==Y,"hits, substitutions and insertions do not add up to the second length",in); }
static void words(){ Mod m=model(); unsigned al=1+rnd(4),L=rnd(4)?7:25; vector<unsigned> x(rnd(L)),y(rnd(L)); for(auto&w:x) w=rnd(al)*70000; for(auto&w:y) w=rnd(al)*70000; if(rnd(5)==0) y=x; string in="words "+str(x)+" "+str(y)+sm(m);
  EditDistForVec<unsigned> e; e.setErrorModel(m.h,m.i,m.s,m.d); double r=dist<unsigned>(x,y,[&](size_t i,size_t j){return x[i]==y[j]?m.h:m.s;},[&](size_t){return m.i;},[&](size_t){return m.d;}); if(x.size()+y.size()<9){ vector<int> a(x.begin(),x.end()),b(y.begin(),y.end()); double q=brute(a,b,0,0,m); if(!near(q,r,1e-9)){ fprintf(stderr,"oracle\n"); _Exit(3);} }
  double g=e.calculateEditDist(x,y); CHECK(near(g,r,1e-9),"distance "+str(g)+" expected "+str(r),in); unsigned h,i,s,d; double g2=e.calculateEditDistOps(x,y,h,i,s,d); CHECK(g==g2,"operation variant",in); acc(h,i,s,d,x.size(),y.size(),in); CHECK(near(h*m.h+i*m.i+s*m.s+d*m.d,g,1e-9),"operations do not add up to the distance",in); done("words"); }
static void strs(){ Mod m=model(); unsigned al=1+rnd(3),L=rnd(4)?8:25; string x=rs(rnd(L),al),y=rs(rnd(L),al); if(rnd(4)==0) y=x.substr(0,rnd(x.size()+1)); string in="strings \""+x+"\" \""+y+"\""+sm(m);
  EditDistForStr e; e.setErrorModel(m.h,m.i,m.s,m.d); double r=elem(x,y,m),g=e.calculateEditDist(x,y); CHECK(near(g,r,1e-9),"distance "+str(g)+" expected "+str(r),in); unsigned h,i,s,d; CHECK(e.calculateEditDistOps(x,y,h,i,s,d)==g,"operation variant",in); acc(h,i,s,d,x.size(),y.size(),in); CHECK(near(h*m.h+i*m.i+s*m.s+d*m.d,g,1e-9),"operations do not add up to the distance",in);
  double p=prefElem(x,y,m); double gp=e.calculateEditDistPrefix(x,y); CHECK(near(gp,p,1e-9),"prefix distance "+str(gp)+" expected "+str(p),in); vector<unsigned> ops; CHECK(e.calculateEditDistPrefixOps(x,y,ops)==gp,"prefix operation variant",in);
  unsigned c[4]={0,0,0,0}; for(auto o:ops){ CHECK(o<4,"operation code",in); c[o]++; } CHECK(c[HIT_OP]+c[SUBST_OP]+c[INS_OP]==y.size(),"prefix operations do not add up to the prefix length",in); CHECK(c[HIT_OP]+c[SUBST_OP]+c[DEL_OP]<=x.size(),"prefix operations use more than the reference",in); CHECK(near(c[HIT_OP]*m.h+c[INS_OP]*m.i+c[SUBST_OP]*m.s+c[DEL_OP]*m.d,gp,1e-9),"prefix operations do not add up to the prefix distance",in);
  double gn=e.calculateEditDistPrefixOpsNoPrefDel(x,y,ops); CHECK(near(gn,r,1e-9),"distance without prefix deletions "+str(gn)+" expected "+str(r),in); done("strings"); }
static void vstr(){ Mod m=model(); unsigned al=1+rnd(3); VS x(rnd(6)),y(rnd(6)); for(auto&w:x) w=rs(1+rnd(3),al); for(auto&w:y) w=rs(1+rnd(3),al); if(rnd(4)==0){ y=x; if(!y.empty()) y.resize(rnd(y.size())+1); if(!y.empty()&&coin()) y.back()=y.back().substr(0,1+rnd(y.back().size())); } bool bl=!y.empty()&&rnd(3)==0; string in="word vectors "+str(x)+" "+str(y)+(bl?" + blank":"")+sm(m);
  EditDistForVecString e; e.setErrorModel(m.h,m.i,m.s,m.d);
#ifdef EDIT_DIST_FAST_ED_VECSTR
  auto diag=[&](size_t i,size_t j){return x[i]==y[j]?m.h:m.s;}; auto ins=[&](size_t){return m.i;}; auto del=[&](size_t){return m.d;}; auto pd=[&](size_t i){ return x[i].substr(0,y.back().size())==y.back()?m.h:m.s; };
#else
  auto diag=[&](size_t i,size_t j){return elem(x[i],y[j],m);}; auto ins=[&](size_t j){return m.i*y[j].size();}; auto del=[&](size_t i){return m.d*x[i].size();}; auto pd=[&](size_t i){ return prefElem(x[i],y.back(),m); };
#endif
  double r=dist<string>(x,y,diag,ins,del); double g=e.calculateEditDist(x,y); CHECK(near(g,r,1e-9),"distance "+str(g)+" expected "+str(r),in); unsigned h,i,s,d; double g2=e.calculateEditDistOps(x,y,h,i,s,d); CHECK(near(g2,g,1e-12),"operation variant",in); acc(h,i,s,d,x.size(),y.size(),in);
  auto pdiag=[&](size_t i,size_t j){ return j+1==y.size()&&!bl?pd(i):diag(i,j); }; double p=INFINITY; for(size_t k=0;k<=x.size();++k){ VS xs(x.begin(),x.begin()+k); p=min(p,dist<string>(xs,y,pdiag,ins,del)); } double full=dist<string>(x,y,pdiag,ins,del);
  VS yb=y; if(bl) yb.back()+=" "; double gp=e.calculateEditDistPrefix(x,yb); CHECK(near(gp,p,1e-9),"prefix distance "+str(gp)+" expected "+str(p),in); vector<unsigned> ow,oc; CHECK(e.calculateEditDistPrefixOps(x,yb,ow,oc)==gp,"prefix operation variant",in); unsigned c[4]={0,0,0,0}; for(auto o:ow){ CHECK(o<4,"operation code",in); c[o]++; } CHECK(c[HIT_OP]+c[SUBST_OP]+c[INS_OP]==y.size(),"prefix operations do not add up to the prefix length",in); CHECK(c[HIT_OP]+c[SUBST_OP]+c[DEL_OP]<=x.size(),"prefix operations use more than the reference",in);
  double gn=e.calculateEditDistPrefixOpsNoPrefDel(x,yb,ow,oc); CHECK(near(gn,full,1e-9),"distance without prefix deletions "+str(gn)+" expected "+str(full),in); done("vectors of strings"); }
int main(int c,char**v){ init(c,v); while(more(1)){ words(); strs(); vstr(); } return end(); }
