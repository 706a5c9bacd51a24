// P24: corrections start with the prefix and keep the rest; incremental evaluation equals evaluation from scratch.
// SRC: error_correction/PfsmEcm.cc error_correction/PfsmEcmForWg.cc error_correction/_editDistBasedEcm.cc error_correction/BaseErrorCorrectionModel.cc error_correction/NonPbEcModelForNbUcat.cc error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc
// SRC: error_correction/WordGraph.cc error_correction/NbSearchStack.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc nlp_common/getline.c nlp_common/ctimer.c
#include "h.hpp"
#include "PfsmEcm.h"
#include "PfsmEcmForWg.h"
#include "NonPbEcModelForNbUcat.h"
#include "WgProcessorForAnlp.h"
using namespace vh; using namespace std; typedef vector<string> V;
static string rs(unsigned n,unsigned al){ string s; for(unsigned i=0;i<n;++i) s+=(char)('a'+rnd(al)); return s; }
static V rv(unsigned n,unsigned al,unsigned l){ V v(n); for(auto&w:v) w=rs(1+rnd(l),al); return v; }
static V split(const string&s){ V r; string w; for(char c:s){ if(c==' '){ if(w!="") r.push_back(w); w=""; } else w+=c; } if(w!="") r.push_back(w); return r; }
static vector<float> weights(){ vector<float> w; w.push_back(2+rnd(200)); w.push_back(.5+.49*runi()); for(int i=0;i<3;++i) w.push_back(.1+runi()*3); return w; }
static bool starts(const V&o,const V&p,bool blankKept){ if(o.size()<p.size()) return false; for(size_t i=0;i+1<p.size();++i) if(o[i]!=p[i]) return false; if(p.empty()) return true; string l=p.back(),w=o[p.size()-1]; if(l[l.size()-1]==' '){ string s=l.substr(0,l.size()-1); return w==s||(blankKept&&w==l); } return w.compare(0,l.size(),l)==0; }
static V prefixOf(const V&x,unsigned al,unsigned l){ V y=x; switch(rnd(4)){ case 0: y=rv(1+rnd(5),al,l); break; case 1: y.resize(min<size_t>(y.size(),1+rnd(5))); if(!y.empty()&&coin()) y[rnd(y.size())]=rs(1+rnd(l),al); break; default: y.resize(min<size_t>(y.size(),1+rnd(6))); } if(y.empty()) y=rv(1,al,l); if(coin()) y.back()=y.back().substr(0,1+rnd(y.back().size())); if(rnd(3)==0) y.back()+=' '; return y; }
static void corr(){ PfsmEcm e; string in; if(rnd(3)==0){ vector<float> w=weights(); in="weights "+str(w)+" "; e.setWeights(w); } unsigned al=1+rnd(3),l=1+rnd(4); V x=rv(rnd(7),al,l),p=prefixOf(x,al,l),o; in+="output "+str(x)+" prefix "+str(p); bool comp=p.back()[p.back().size()-1]==' '; V ps=p; if(comp) ps.back().resize(ps.back().size()-1);
 e.correctStrGivenPref(x,p,o); CHECK(starts(o,p,false),"correction "+str(o)+" does not start with the prefix",in); size_t r=o.size()-p.size(); CHECK(r<=x.size()&&equal(o.begin()+p.size(),o.end(),x.end()-r),"correction "+str(o)+" does not keep the rest of the output",in);
 bool st=x.size()>=ps.size()&&starts(x,p,false); if(st) CHECK(o==x,"output starts with the prefix, but was changed to "+str(o),in);
 if(!comp){ string w=o[p.size()-1],t=w.substr(p.back().size()); bool ok=t==""; for(auto&z:x) if(z.size()>=t.size()&&z.compare(z.size()-t.size(),string::npos,t)==0) ok=true; CHECK(ok,"end of the corrected word '"+w+"' is not from the output",in); }
 PfsmEcmForWg g; V q; g.correctStrGivenPrefWg(x,p,q); CHECK(starts(q,p,false)&&(st||true),"word graph correction "+str(q)+" does not start with the prefix",in); size_t rq=q.size()-p.size(); CHECK(rq<=x.size()&&equal(q.begin()+p.size(),q.end(),x.end()-rq),"word graph correction "+str(q)+" has other words after the prefix",in);
 if(!x.empty()){ NonPbEcModelForNbUcat n; n.link_ecm(&e); V pp=rnd(8)?p:V(); vector<unsigned> cuts; NbestCorrections c=n.correct(x,cuts,pp,1+rnd(3)); CHECK(c.size()==1,str(c.size())+" corrections",in); V s=c.begin()->second; if(pp.empty()) CHECK(s==x,"nothing was typed, but the output was changed to "+str(s),in); else { V w=o; if(comp&&w.size()==p.size()) w.back()=p.back(); CHECK(s==w,"correction "+str(s)+", expected "+str(w),in); CHECK(near(c.begin()->first,e.similarityGivenPrefix(x,p),1e-5),"score of the correction",in); } }
 done("corrections"); }
// score vectors of a chain of words, the prefix given in pieces
static void chain(){ PfsmEcmForWg e; string in; if(rnd(3)==0){ vector<float> w=weights(); in="weights "+str(w)+" "; e.setWeights(w); } unsigned al=1+rnd(3),l=1+rnd(4); V x=rv(rnd(5),al,l),p=prefixOf(x,al,l); vector<unsigned> cut; in+="words "+str(x)+" prefix "+str(p)+" pieces";
 vector<PfsmEcmForWgEsi> s(1,e.constructInitEsi()); for(auto&w:x) s.push_back(e.constructEsi(s.back(),w)); V done_;
 auto give=[&](const V&d){ vector<PfsmEcmForWgEsi> n=s; e.extendInitialEsi(d,s[0],n[0]); for(size_t k=0;k<x.size();++k) e.extendEsi(d,n[k],x[k],n[k+1]); s=n; };
 size_t i=0; bool first=true; while(i<p.size()){ size_t k=1+rnd(p.size()-i); if(!first){ for(auto&q:s) e.removeLastPosFromEsi(q); --i; ++k; } first=false; V d(p.begin()+i,p.begin()+i+k); bool last=i+k==p.size(); if(!last){ if(coin()) d.back()+=' '; else d.back()=d.back().substr(0,1+rnd(d.back().size())); } in+=" "+str(d); give(d); i+=k; }
 EditDistForVecString ed; // reference: from scratch
 for(size_t k=0;k<=x.size();++k){ vector<Score> v=e.obtainScrVecFromEsi(s[k]); CHECK(v.size()==p.size()+1&&e.numberOfPosInEsi(s[k])==p.size()+1,"score vector has "+str(v.size())+" positions",in); PfsmEcmForWg f=e; vector<PfsmEcmForWgEsi> t(1,f.constructInitEsi()); for(size_t z=0;z<k;++z) t.push_back(f.constructEsi(t.back(),x[z])); vector<PfsmEcmForWgEsi> n=t; f.extendInitialEsi(p,t[0],n[0]); for(size_t z=0;z<k;++z) f.extendEsi(p,n[z],x[z],n[z+1]); vector<Score> w=f.obtainScrVecFromEsi(n[k]); for(size_t j=0;j<v.size();++j) CHECK(near(v[j],w[j],1e-9),"score after "+str(k)+" words and "+str(j)+" prefix words is "+str(v[j])+", from scratch "+str(w[j]),in);
   if(!p.empty()){ V xx(x.begin(),x.begin()+k); vector<unsigned> o1,o2; EditDistForVecString r; float P[5]; (void)P; struct Y: PfsmEcmForWg { static EditDistForVecString&ed(PfsmEcmForWg&q){ return q.*(&Y::editDistForVecStr); } }; double ref=-Y::ed(e).calculateEditDistPrefixOpsNoPrefDel(xx,p,o1,o2); CHECK(near(v.back(),ref,1e-5),"score after "+str(k)+" words is "+str(v.back())+", distance from scratch gives "+str(ref),in); }
   vector<int> li=e.obtainLastInsPrefWordVecFromEsi(s[k]); }
 done("chains"); }
static void graph(){ unsigned n=2+rnd(6),al=1+rnd(3),l=1+rnd(3); WordGraph g; string in; auto arc=[&](unsigned a,unsigned b){ V w=rv(1+rnd(2),al,l); double sc=-runi()*5; g.addArc(a,b,w,sc); in+=" "+str(a)+"-"+str(b)+str(w)+str(sc); }; for(unsigned b=1;b<n;++b){ arc(rnd(b),b); for(unsigned k=rnd(2);k>0;--k) arc(rnd(b),b); } g.addFinalState(n-1); if(rnd(4)==0) g.addFinalState(1+rnd(n-1));
 PfsmEcmForWg e; if(rnd(3)==0){ vector<float> w=weights(); in+=" weights "+str(w); e.setWeights(w); } float ww=rnd(3)?1:.5+runi(),ew=rnd(3)?1:.5+runi(); unsigned nb=1+rnd(4); WgProcessorForAnlp<PfsmEcmForWg> inc; inc.link_wg(&g); inc.link_ecm_wg(&e); inc.set_wgw(ww); inc.set_ecmw(ew); string p; RejectedWordsSet rej; in="graph"+in+" n="+str(nb)+" prefixes";
 for(unsigned k=0,z=1+rnd(7);k<z;++k){ switch(p.empty()?0:rnd(8)){ case 0: { V t=rv(1+rnd(4),al,l); p=""; for(auto&w:t) p+=(p==""?"":" ")+w; break; } case 1: p=p.substr(0,1+rnd(p.size())); break; case 2: { V t=split(p); if(t.empty()) break; t[rnd(t.size())]=rs(1+rnd(l),al); p=""; for(auto&w:t) p+=(p==""?"":" ")+w; break; } case 3: p+=(p[p.size()-1]==' '?"":" ")+rs(1+rnd(l),al)+(coin()?" "+rs(1+rnd(l),al):""); break; case 4: case 5: if(p[p.size()-1]!=' '){ p+=' '; break; } default: p+=rs(1,al); } if(split(p).empty()) p="a"; in+=" '"+p+"'";
   WgProcessorForAnlp<PfsmEcmForWg> fr; fr.link_wg(&g); fr.link_ecm_wg(&e); fr.set_wgw(ww); fr.set_ecmw(ew); NbestCorrections a=inc.correct(p,nb,rej),b=fr.correct(p,nb,rej); bool eq=a.size()==b.size(); string sa,sb; auto j=b.begin(); for(auto i=a.begin();i!=a.end();++i) sa+=" "+str(i->first)+str(i->second); for(auto&q:b) sb+=" "+str(q.first)+str(q.second); for(auto i=a.begin();eq&&i!=a.end();++i,++j) if(!near(i->first,j->first,1e-4)) eq=false;
   CHECK(eq,"corrections after typing"+sa+", from scratch"+sb,in); V pv=split(p); if(p[p.size()-1]==' ') pv.back()+=' '; for(auto&q:a) CHECK(starts(q.second,pv,true),"correction "+str(q.second)+" does not start with the prefix",in); }
 done("graphs"); }
int main(int c,char**v){ init(c,v); while(more(.4)) corr(); while(more(.6)) chain(); while(more(1)) graph(); return end(); }
