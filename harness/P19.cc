// SRC: nlp_common/MathFuncs.cc nlp_common/Prob.cc
// LIB: -lgmp
#include "h.hpp"
#include "MathFuncs.h"
#include "Count.h"
#include "LogCount.h"

#include "MathDefs.h"
using namespace vh; using namespace std; using namespace MathFuncs;
static bool nearl(double a,double b,double e){ if(a==b) return true; if(std::isnan(a)||std::isnan(b)) return false; if(std::isinf(a)||std::isinf(b)) return false; return fabs(a-b)<=e*(1+max(fabs(a),fabs(b))); }
static void two(double x,double y){ // log values
  string in="logx="+str(x)+" logy="+str(y);
  long double m=max(x,y),n=min(x,y); double e=std::isinf((double)m)?(double)m:(double)(m+log1pl(expl(n-m)));
  CHECK(nearl(lns_sumlog(x,y),e,1e-12),"lns_sumlog "+str(lns_sumlog(x,y))+" expected "+str(e),in); CHECK(lns_sumlog(x,y)==lns_sumlog(y,x),"symmetric",in);
  float fx=x,fy=y; long double fm=max(fx,fy),fn=min(fx,fy); double fe=std::isinf((double)fm)?(double)fm:(double)(fm+log1pl(expl(fn-fm)));
  CHECK(nearl(lns_sumlog_float(fx,fy),fe,1e-5),"lns_sumlog_float "+str(lns_sumlog_float(fx,fy))+" expected "+str(fe),in); CHECK(lns_sumlog_float(fx,fy)==lns_sumlog_float(fy,fx),"symmetric float",in);
  if(x>y&&!std::isinf(x)){ double s=(double)(x+log1pl(-expl((long double)y-x))); double tol=1e-12/min(1.0,-expm1(y-x)); CHECK(nearl(lns_sublog(x,y),s,tol),"lns_sublog "+str(lns_sublog(x,y))+" expected "+str(s),in); }
  if(fx>fy+0.01&&!std::isinf(fx)){ double s=(double)(fx+log1pl(-expl((long double)fy-fx))); CHECK(nearl(lns_sublog_float(fx,fy),s,1e-4),"lns_sublog_float "+str(lns_sublog_float(fx,fy))+" expected "+str(s),in); }
  if(x>-600&&x<600&&y>-600&&y<600){ double a=exp(x),b=exp(y); CHECK(nearl(lns_sum(a,b),log(a+b),1e-11),"lns_sum",in); if(a>b*1.0001) CHECK(nearl(lns_sub(a,b),log(a-b),1e-8),"lns_sub",in); }
  if(fabs(x)<60&&fabs(y)<60){ float a=exp(x),b=exp(y); CHECK(nearl(lns_sum_float(a,b),log((double)a+b),1e-5),"lns_sum_float",in); if(a>b*1.01) CHECK(nearl(lns_sub_float(a,b),log((double)a-b),1e-3),"lns_sub_float",in); }
  if(y>SMALL_LG_NUM/2){ CHECK(lns_sumlog(y,SMALL_LG_NUM)==y&&lns_sumlog(SMALL_LG_NUM,y)==y,"smallest log value is zero",in); CHECK(lns_sumlog_float(fy,SMALL_LG_NUM)==fy&&lns_sumlog_float(SMALL_LG_NUM,fy)==fy,"smallest log value is zero (float)",in); CHECK(lns_sublog(y,SMALL_LG_NUM)==y,"subtracting the smallest log value",in); CHECK(lns_sublog_float(fy,SMALL_LG_NUM)==fy,"subtracting the smallest log value (float)",in); }
  done("sums"); }
static void counts(double a,double b,double c){ string in="counts "+str(a)+" "+str(b)+" "+str(c); double s=a+b+c;
  auto ok=[&](LogCount& l,const char*w){ CHECK(nearl(exp(l.get_lc_s()),s,1e-4)&&nearl(l.get_c_s(),s,1e-4)&&nearl(l.get_c_st(),s,1e-4)&&nearl(l.get_lc_st(),log(s),1e-4),string(w)+" "+str(l.get_c_s()),in); };
  auto okc=[&](Count& l,const char*w){ CHECK(nearl(exp(l.get_lc_s()),s,1e-4)&&nearl(l.get_c_s(),s,1e-4)&&nearl(l.get_c_st(),s,1e-4)&&nearl(l.get_lc_st(),log(s),1e-4),string(w)+" "+str(l.get_c_s()),in); };
  { LogCount l; l.incr_count(a); l.incr_count((float)b); l.incr_count(Count(c)); ok(l,"LogCount incr_count"); }
  { LogCount l; l.set_count(a); l.incr_logcount(log(b)); l.incr_logcount((float)log(c)); ok(l,"LogCount set_count/incr_logcount"); }
  { LogCount l; l.set_count(Count(a)); l.incr_count(b+c); ok(l,"LogCount set_count(Count)"); }
  { LogCount l; l.set_count((float)a); l.incr_count(b+c); ok(l,"LogCount set_count(float)"); }
  { LogCount l; l.set_logcount(log(a)); l.incr_count(b+c); ok(l,"LogCount set_logcount"); } { LogCount l; l.set_logcount((float)log(a)); l.incr_count(b+c); ok(l,"LogCount set_logcount(float)"); }
  { Count l; l.incr_count(a); l.incr_count((float)b); l.incr_count(Count(c)); okc(l,"Count incr_count"); }
  { Count l; l.set_count(a); l.incr_logcount(log(b)); l.incr_logcount((float)log(c)); okc(l,"Count set_count/incr_logcount"); }
  { Count l; l.set_count(Count(a)); l.incr_count(b+c); okc(l,"Count set_count(Count)"); } { Count l; l.set_count((float)a); l.incr_count(b+c); okc(l,"Count set_count(float)"); }
  { Count l; l.set_logcount(log(a)); l.incr_count(b+c); okc(l,"Count set_logcount"); } { Count l; l.set_logcount((float)log(a)); l.incr_count(b+c); okc(l,"Count set_logcount(float)"); }
  { Count x(a),y(b); Count z=x+y; CHECK(nearl((double)z,a+b,1e-5)&&nearl((double)(x*y),a*b,1e-5)&&nearl((double)(x-y),(float)a-(float)b,1e-4),"Count operators",in); z=x; z+=y; CHECK(nearl((double)z,a+b,1e-5),"Count +=",in); z-=y; CHECK(nearl((double)z,a,1e-3),"Count -=",in); z=x; z*=y; CHECK(nearl((double)z,a*b,1e-5),"Count *=",in); z/=y; CHECK(nearl((double)z,a,1e-3),"Count /=",in);
    CHECK((x<y)==((float)a<(float)b)&&(x>y)==((float)a>(float)b)&&(x<=y)==((float)a<=(float)b)&&(x>=y)==((float)a>=(float)b),"Count order",in);
    LogCount lx(log(a)),ly(log(b)); CHECK((lx<ly)==((float)log(a)<(float)log(b))&&(lx>=ly)==((float)log(a)>=(float)log(b))&&(lx>ly)==((float)log(a)>(float)log(b))&&(lx<=ly)==((float)log(a)<=(float)log(b)),"LogCount order",in); CHECK(greaterCount()(x,y)==((float)a>(float)b),"greaterCount",in); CHECK(greaterLogCount()(lx,ly)==((float)log(a)>(float)log(b)),"greaterLogCount",in); }
  { double p=a/s; CHECK(nearl((double)Prob(p).get_lp(),log(p),1e-12)&&nearl((double)LgProb(log(p)).get_p(),p,1e-12)&&nearl((double)Prob(p).get_p(),p,0)&&nearl((double)LgProb(log(p)).get_lp(),log(p),0),"Prob/LgProb conversions",in); }
  { int n=1+rnd(50),m=1+rnd(50); LogCount l; l.set_count(n); l.incr_count(m); CHECK(nearl(l.get_c_s(),n+m,1e-4),"LogCount int "+str(n)+"+"+str(m),in); Count d; d.set_count(n); d.incr_count(m); CHECK(nearl(d.get_c_s(),n+m,1e-5),"Count int",in); }
  done("counts"); }
static void comb(unsigned m,unsigned n){ string in="m="+str(m)+" n="+str(n); auto lf=[](unsigned k){ return lgamma(k+1.0); };
  CHECK(nearl(logFactorial(m),lf(m),1e-9),"logFactorial",in);
  if(n<=m){ double e=lf(m)-lf(n)-lf(m-n); CHECK(nearl(logCombmn(m,n),e,1e-9),"logCombmn",in); CHECK(nearl(logNumbPermsOfTwoElems(m,n),e,1e-9),"logNumbPermsOfTwoElems "+str(logNumbPermsOfTwoElems(m,n)),in); }
  else CHECK(logNumbPermsOfTwoElems(m,n)==0,"logNumbPermsOfTwoElems l>J",in);
  done("combinations"); }
static void distr(){ double p=0.01+0.98*runi(); unsigned n=rnd(30); string in="p="+str(p)+" n="+str(n); double e=n*log1p(-p)+log(p); CHECK(nearl((double)log_geom(p,n),e,1e-10)&&nearl((double)geom(p,n),exp(e),1e-10),"geom",in); double s=0; for(unsigned i=0;i<=n;++i) s+=p*pow(1-p,i); CHECK(nearl((double)geom_cdf(p,n),s,1e-10)&&nearl((double)log_geom_cdf(p,n),log(s),1e-10),"geom_cdf",in);
  double l=0.1+10*runi(); in="lambda="+str(l)+" n="+str(n); double q=-l+n*log(l)-lgamma(n+1.0); CHECK(nearl((double)log_poisson(n,l),q,1e-9)&&nearl((double)poisson(n,l),exp(q),1e-9),"poisson",in); s=0; for(unsigned i=0;i<=n;++i) s+=exp(-l+i*log(l)-lgamma(i+1.0)); CHECK(nearl((double)poisson_cdf(n,l),s,1e-9),"poisson_cdf",in);
  double a=runi()*3,c=a+0.1+runi(),b=c+0.1+runi(),x=a-0.5+runi()*(b-a+1); in="triang "+str(a)+" "+str(b)+" "+str(c)+" x="+str(x); double t=(double)triang_cdf(a,b,c,x); CHECK(t>=0&&t<=1,"triang_cdf in [0,1]",in);
  double mu=runi()*4-2,sd=0.2+runi()*2; in="norm "+str(mu)+" "+str(sd)+" "+str(x); CHECK(nearl((double)norm_cdf(mu,sd,x),0.5*erfc(-(x-mu)/sd/sqrt(2.0)),1e-9),"norm_cdf",in); done("distributions"); }
int main(int c,char**v){ init(c,v); double I=-INFINITY;
  double sp[]={0,1,-1,0.5,-0.5,-30,30,-200,200,-700,-99999,1e-9,I,-50000,-86,-87,-103,-104,88}; for(double x:sp) for(double y:sp) two(x,y);
  for(unsigned m=0;m<=40;++m) for(unsigned n=0;n<=m+2;++n) comb(m,n);
  while(more(1)){ double sc=pow(10,rin(-2,4)); double x=(runi()-0.7)*sc,y=coin()?x+(runi()-0.5)*pow(10,rin(-6,2)):(runi()-0.7)*sc; if(rnd(20)==0) x=I; if(rnd(20)==0) y=I; if(rnd(20)==0) y=x; if(rnd(20)==0) y=SMALL_LG_NUM; two(x,y); counts(exp(runi()*16-8),exp(runi()*16-8),exp(runi()*16-8)); comb(rnd(300),rnd(300)); if(rnd(8)==0) distr(); }
  return end(); }
