// SRC: stack_dec/KbMiraLlWu.cc
#include "h.hpp"
#include "KbMiraLlWu.h"
using namespace vh; using namespace std;
typedef vector<double> D; static string hist;
struct Sc: public BaseMiraScorer { map<string,double> q; map<string,unsigned> id; vector<string> sentMax; vector<vector<string> > corpMax; vector<vector<unsigned> > bg; vector<string> order; double qual; string lastref;
  void resetBackgroundCorpus(){} void updateBackgroundCorpus(const vector<unsigned>& s,double){ bg.push_back(s); }
  void sentBackgroundScore(const string& c,const string& r,double& s,vector<unsigned>& st){ CHECK(q.count(c+"|"+r),"quality asked for a foreign candidate '"+c+"' of '"+r+"'",hist); s=q[c+"|"+r]; st.assign(1,id[c+"|"+r]); order.push_back(r); }
  void corpusScore(const vector<string>& c,const vector<string>&,double& s){ corpMax.push_back(c); s=qual; }
  void sentScore(const string& c,const string&,double& s){ sentMax.push_back(c); s=qual; } };
static double dot(const D&a,const D&b){ double r=0; for(size_t i=0;i<a.size();++i) r+=a[i]*b[i]; return r; }
struct Ex { string ref; vector<string> nb; vector<D> f; D q; };
static double wide(){ int k=rnd(4); return k==0?runi():k==1?(runi()-.5)*10:k==2?-runi()*100:(runi()-.5); }
static Ex example(unsigned k,int i){ Ex e; e.ref="ref"+str(i); unsigned n=1+rnd(7); for(unsigned j=0;j<n;++j){ e.nb.push_back("cand"+str(i)+"_"+str(j)); D x; for(unsigned z=0;z<k;++z) x.push_back(wide()); e.f.push_back(x); double q=rnd(5)?runi():(runi()-.5)*4; e.q.push_back(q); } return e; }
static void reg(Sc& s,const Ex& e){ for(size_t j=0;j<e.nb.size();++j){ s.q[e.nb[j]+"|"+e.ref]=e.q[j]; s.id[e.nb[j]+"|"+e.ref]=j; } hist+=" "+e.ref+" features="+str(e.f)+" quality="+str(e.q); }
static int arg(const Ex& e,const D& w,double sgn,bool model){ int b=0; double bv=0; for(size_t j=0;j<e.nb.size();++j){ double v=dot(w,e.f[j])+(model?0:sgn*e.q[j]); if(!j||v>bv){ bv=v; b=j; } } return b; }
static void check_best(const Ex& e,const D& w,const string& got){ int j=-1; for(size_t k=0;k<e.nb.size();++k) if(e.nb[k]==got) j=k; CHECK(j>=0,"model best '"+got+"' is no candidate",hist); int b=arg(e,w,0,true); CHECK(near(dot(w,e.f[b]),dot(w,e.f[j]),1e-9),"model best of "+e.ref+" is candidate "+str(j)+" but candidate "+str(b)+" scores higher under "+str(w),hist); }
int main(int c,char**v){ init(c,v);
 while(more(.55)){ unsigned k=1+rnd(4); Ex e=example(k,0); D w; for(unsigned z=0;z<k;++z) w.push_back(wide()); bool single=rnd(3)!=0; unsigned J=single?1:1+rnd(6),R=single?1:rnd(3); Sc s; s.qual=rnd(4)?0.5+runi():(coin()?0:-0.25); hist="update iterations="+str(J)+" restarts="+str(R)+" weights="+str(w)+" corpus quality="+str(s.qual); reg(s,e);
   KbMiraLlWu u(0.01+runi(),0.999,J,1+rnd(5),R); CHECK(u.link_scorer(&s),"link",hist); D nw; if(coin()) nw.assign(rnd(3),1.0); u.update(e.ref,e.nb,e.f,w,nw);
   CHECK(nw.size()==w.size(),"the new weights have "+str(nw.size())+" entries, the current ones "+str(w.size()),hist);
   if(single){ int h=arg(e,w,1,false),f=arg(e,w,-1,false); bool upd=e.q[h]>e.q[f]; CHECK(s.bg.size()==(upd?1u:0u),"background updated "+str(s.bg.size())+" times",hist); if(upd) CHECK(s.bg[0].size()==1&&(int)s.bg[0][0]==h,"hope candidate is "+str(s.bg[0])+" expected "+str(h),hist);
     if(s.qual>0){ CHECK(s.sentMax.size()==1,"evaluations",hist); check_best(e,nw,s.sentMax[0]); D d,df; for(unsigned z=0;z<k;++z){ d.push_back(nw[z]-w[z]); df.push_back(e.f[h][z]-e.f[f][z]); } double nd=sqrt(dot(d,d)),nf=sqrt(dot(df,df)); if(nd>1e-9) CHECK(nf>0&&near(dot(d,df)/(nd*nf),1,1e-5),"weights moved along "+str(d)+" and not from the fear towards the hope candidate "+str(df),hist); } }
   done("update"); }
 while(more(1)){ unsigned k=1+rnd(3),n=1+rnd(6); vector<Ex> es; D w; for(unsigned z=0;z<k;++z) w.push_back(wide()); Sc s; unsigned J=1+rnd(4); s.qual=rnd(4)?0.5:(coin()?0:-1); hist="updateClosedCorpus epochs="+str(J)+" weights="+str(w)+" corpus quality="+str(s.qual); vector<string> refs; vector<vector<string> > nbs; vector<vector<D> > fs; for(unsigned i=0;i<n;++i){ es.push_back(example(k,i)); reg(s,es[i]); refs.push_back(es[i].ref); nbs.push_back(es[i].nb); fs.push_back(es[i].f); }
   KbMiraLlWu u(0.01+runi(),0.999,J,10,1); u.link_scorer(&s); D nw; u.updateClosedCorpus(refs,nbs,fs,w,nw); CHECK(nw.size()==w.size(),"the new weights have "+str(nw.size())+" entries, the current ones "+str(w.size()),hist);
   size_t per_=0; for(auto&e:es) per_+=e.nb.size(); CHECK(s.order.size()==per_*J,"quality evaluations per epoch",hist); for(unsigned j=0;j<J;++j){ map<string,size_t> m; for(size_t x=0;x<per_;++x) ++m[s.order[j*per_+x]]; for(auto&e:es) CHECK(m[e.ref]==e.nb.size(),"epoch "+str(j)+" visits "+e.ref+" "+str(m[e.ref]/(double)e.nb.size())+" times",hist); }
   CHECK(s.corpMax.size()==J,"evaluations",hist); if(s.qual>0){ CHECK(s.corpMax[0].size()==n,"translations",hist); for(unsigned i=0;i<n;++i) check_best(es[i],nw,s.corpMax[0][i]); }
   done("closed"); }
 return end(); }
