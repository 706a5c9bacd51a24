// SRC: stack_dec/MiraBleu.cc stack_dec/bleu.cc stack_dec/MiraChrF.cc stack_dec/chrf.cc stack_dec/MiraWer.cc stack_dec/MiraGtm.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc nlp_common/getline.c
#include "h.hpp"
#include "MiraBleu.h"
#include "MiraChrF.h"
#include "MiraWer.h"
#include "MiraGtm.h"
#include "bleu.h"
#include "chrf.h"
using namespace vh; using namespace std;
typedef vector<string> W; static unsigned voc=3; static string hist;
template<class S> static size_t clip(const S& a,const S& b,size_t n){ map<S,size_t> x,y; for(size_t i=0;i+n<=a.size();++i) ++x[S(a.begin()+i,a.begin()+i+n)]; for(size_t i=0;i+n<=b.size();++i) ++y[S(b.begin()+i,b.begin()+i+n)]; size_t r=0; for(auto&p:x) r+=min(p.second,y.count(p.first)?y[p.first]:0); return r; }
static size_t tot(size_t l,size_t n){ return n>l?0:l-n+1; }
static W words(unsigned mx){ W r; unsigned n=rnd(5)?rnd(mx+1):rnd(3); for(unsigned i=0;i<n;++i) r.push_back(string(1+rnd(2),char('a'+rnd(voc)))); return r; }
static string join(const W& w){ string r; for(size_t i=0;i<w.size();++i) r+=(i?" ":"")+w[i]; return r; }
static string spaced(const W& w){ string r(rnd(6)?0:1,' '); for(size_t i=0;i<w.size();++i) r+=(i?string(rnd(6)?1:2,' '):string())+w[i]; if(!rnd(6)) r+=" "; return r; }
static W mutate(W w){ for(unsigned k=rnd(4);k;--k){ if(w.empty()||!rnd(3)) w.insert(w.begin()+rnd(w.size()+1),string(1+rnd(2),char('a'+rnd(voc)))); else if(coin()) w.erase(w.begin()+rnd(w.size())); else swap(w[rnd(w.size())],w[rnd(w.size())]); } return w; }
typedef vector<double> D;
static D stats(const W& c,const W& r){ D s; s.push_back(c.size()); s.push_back(r.size()); for(int n=1;n<=4;++n){ s.push_back(clip(c,r,n)); s.push_back(tot(c.size(),n)); } return s; }
static double sc(const D& s){ double bp=s[0]<s[1]?exp(1-s[1]/s[0]):1,l=0; for(int n=1;n<=4;++n) if(s[2*n+1]>0) l+=s[2*n]>0?log(s[2*n]/s[2*n+1]):-999999999.; return bp*exp(l/4); }
static size_t lev(const W& a,const W& b){ vector<vector<size_t> > d(a.size()+1,vector<size_t>(b.size()+1)); for(size_t i=0;i<=a.size();++i) for(size_t j=0;j<=b.size();++j){ if(!i||!j) d[i][j]=i+j; else d[i][j]=min(min(d[i-1][j],d[i][j-1])+1,d[i-1][j-1]+(a[i-1]!=b[j-1])); } return d[a.size()][b.size()]; }
static double chrf(const W& c,const W& r){ string a=join(c),b=join(r); if(a.empty()&&b.empty()) return 1; if(a.empty()||b.empty()) return 0; double P=0,R=0; size_t m=min<size_t>(4,b.size()); for(size_t n=1;n<=m;++n){ double k=clip(a,b,n); P+=tot(a.size(),n)?k/tot(a.size(),n):1; R+=k/tot(b.size(),n); } P/=min<size_t>(4,a.size()); R/=m; return P*R==0?0:10*P*R/(9*P+R); }
static double gtm(double m,double c,double r){ return m==0?0:2*(m/c)*(m/r)/(m/c+m/r); }
static void unit(double x,const string& w){ CHECK(x>=0&&x<=1+1e-6,w+" is "+str(x)+", outside [0,1]",hist); }
static void same(double x,double y,const string& w){ CHECK(near(x,y,2e-5),w+" is "+str(x)+" but the definition gives "+str(y),hist); }
static void file(const string& p,const vector<W>& v){ ofstream o(p); for(auto&w:v) o<<join(w)<<"\n"; }
int main(int c,char**v){ init(c,v);
 while(more(.6)){ voc=1+rnd(5); W b=words(9),a=coin()?mutate(b):(rnd(4)?words(9):b); string A=spaced(a),B=spaced(b); hist="output='"+A+"' reference='"+B+"'";
   MiraBleu bl; MiraChrF ch; MiraWer we; MiraGtm gt; double x; vector<unsigned> st; D s=stats(a,b),s1=s; for(auto&z:s1) z+=1; bool eq=a==b;
   bl.sentScore(A,B,x); same(x,sc(s1),"sentence BLEU"); unit(x,"sentence BLEU"); if(eq) same(x,1,"BLEU of an output equal to its reference");
   D bg(10,1.0); for(unsigned k=rnd(4);k;--k){ W p=words(7),q=words(7); D ps=stats(p,q); vector<unsigned> u(ps.begin(),ps.end()); double dec=rnd(3)?0.999:runi(); bl.updateBackgroundCorpus(u,dec); for(int i=0;i<10;++i) bg[i]=dec*bg[i]+ps[i]; }
   bl.sentBackgroundScore(A,B,x,st); CHECK(st.size()==10,"number of statistics",hist); for(int i=0;i<10;++i) CHECK(st[i]==s[i],"statistic "+str(i)+" is "+str(st[i])+" expected "+str(s[i]),hist); D t; for(int i=0;i<10;++i) t.push_back(floor(s[i]+bg[i])); same(x,sc(t)*t[1],"BLEU on top of the background"); bl.resetBackgroundCorpus(); for(int i=0;i<10;++i) t[i]=s[i]+1; bl.sentBackgroundScore(A,B,x,st); same(x,sc(t)*t[1],"BLEU after a background reset");
   double f=chrf(a,b); ch.sentScore(A,B,x); same(x,f,"chrF"); unit(x,"chrF"); if(eq) same(x,1,"chrF of an output equal to its reference"); ch.sentBackgroundScore(A,B,x,st); same(x,f*b.size(),"chrF scaled");
   size_t e=lev(a,b); double w=b.empty()?0:1-double(e)/b.size(); we.sentScore(A,B,x); same(x,w,"WER score"); CHECK(x<=1,"WER score above one",hist); if(eq&&b.size()) same(x,1,"WER score of an output equal to its reference"); we.sentBackgroundScore(A,B,x,st); same(x,b.empty()?0:double(b.size())-double(e),"WER score scaled");
   double m=clip(a,b,1),g=gtm(m,a.size(),b.size()); gt.sentScore(A,B,x); same(x,g,"matching score"); unit(x,"matching score"); if(eq&&b.size()) same(x,1,"matching score of an output equal to its reference"); gt.sentBackgroundScore(A,B,x,st); same(x,g*b.size(),"matching score scaled");
   done("sentence"); }
 while(more(1)){ voc=1+rnd(5); unsigned n=1+rnd(4); vector<W> as,bs; W ra,rb; bool eq=true; hist=""; for(unsigned i=0;i<n;++i){ W b=words(7),a=rnd(3)?(coin()?mutate(b):words(7)):b; as.push_back(a); bs.push_back(b); ra.push_back(spaced(a)); rb.push_back(spaced(b)); eq=eq&&a==b; hist+=" output"+str(i)+"='"+ra[i]+"' reference"+str(i)+"='"+rb[i]+"'"; }
   D s(10,0.0); double f=0,e=0,m=0; for(unsigned i=0;i<n;++i){ D z=stats(as[i],bs[i]); for(int k=0;k<10;++k) s[k]+=z[k]; f+=chrf(as[i],bs[i]); e+=lev(as[i],bs[i]); m+=clip(as[i],bs[i],1); }
   MiraBleu bl; MiraChrF ch; MiraWer we; MiraGtm gt; double x; bool q=s[0]>0||s[1]==0;
   if(q){ bl.corpusScore(ra,rb,x); same(x,sc(s),"corpus BLEU"); unit(x,"corpus BLEU"); if(eq) same(x,1,"corpus BLEU of outputs equal to their references"); }
   ch.corpusScore(ra,rb,x); same(x,f/n,"corpus chrF"); unit(x,"corpus chrF");
   we.corpusScore(ra,rb,x); same(x,s[1]==0?0:1-e/s[1],"corpus WER score");
   gt.corpusScore(ra,rb,x); same(x,gtm(m,s[0],s[1]),"corpus matching score"); unit(x,"corpus matching score");
   if(s[0]>0&&rnd(4)==0){ string p=dir+"/ref",r=dir+"/sys"; file(p,bs); file(r,as); float bleu,bp; vector<float> bn; int ret=calc_bleu(p.c_str(),r.c_str(),bleu,bp,bn,0); CHECK(ret==0&&bn.size()==4,"calc_bleu of files",hist); double l=0; for(int k=1;k<=4;++k){ double pr=s[2*k+1]?s[2*k]/s[2*k+1]:0; same(bn[k-1],pr,"precision of "+str(k)+"-grams in files"); l+=pr>0?log(pr)/4:-999999999./4; } same(bp,s[0]<s[1]?exp(1-s[1]/s[0]):1,"brevity penalty of files"); same(bleu,bp*exp(l),"BLEU of files"); unit(bleu,"BLEU of files");
     double cf; D cn; ret=calculate_chrf_file_name(p.c_str(),r.c_str(),cf,cn,0); CHECK(ret==0&&cn.size()==n,"chrF of files",hist); same(cf,f/n,"chrF of files"); }
   done("corpus"); }
 return end(); }
