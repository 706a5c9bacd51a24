// SRC: stack_dec/PhrScoreInfo.cc nlp_common/StrProcUtils.cc
// LIB: -lgmp
#include "h.hpp"
#include <stddef.h>
#include <string.h>
#include "PhrScoreInfo.h"
#include "TranslationMetadata.h"
#include "JsonTranslationMetadata.h"
using namespace vh; using namespace std; static string hist;
typedef vector<string> V; typedef pair<PositionIndex,PositionIndex> Sg; typedef map<Sg,V> Cons; typedef BaseTranslationMetadata<PhrScoreInfo> B; typedef TranslationMetadata<PhrScoreInfo> X; typedef JsonTranslationMetadata<PhrScoreInfo> J;
static const char* TAGS[]={"<phr_pair_annot>","</phr_pair_annot>","<src_segm>","</src_segm>","<trg_segm>","</trg_segm>"};
static V split(const string&s){ V r; string w; for(char ch:s){ if(ch==' '||ch=='\t'){ if(w!="") r.push_back(w); w=""; } else w+=ch; } if(w!="") r.push_back(w); return r; }
static string word(){ static const char*W[]={"a","b","c","aa","ab","<","<<","a<b","<src>","src_segm","<src_segm","/src_segm>","</","1.5",">",".","<phr_pair_annot","b>"}; return rnd(4)?W[rnd(5)]:W[rnd(18)]; }
static string plain(){ static const char*W[]={"a","b","c","aa","ab","x","7"}; return W[rnd(rnd(3)?3:7)]; }
static string sp(){ return rnd(6)?" ":rnd(2)?"  ":" \t "; }
// words and tags of the sentence: a tag is a token wherever it stands
static V tokens(const string&s){ string t; for(size_t i=0;i<s.size();){ bool f=false; for(int k=0;k<6&&!f;++k) if(s.compare(i,strlen(TAGS[k]),TAGS[k])==0){ t+=" "+string(TAGS[k])+" "; i+=strlen(TAGS[k]); f=true; } if(!f) t+=s[i++]; } return split(t); }
static void oracle(const V&t,V&src,Cons&c){ for(size_t i=0;i<t.size();){ size_t k=i; V s,g; bool ok=false;
   if(t[k]==TAGS[0]&&k+1<t.size()&&t[k+1]==TAGS[2]){ k+=2; while(k<t.size()&&t[k]!=TAGS[3]) s.push_back(t[k++]); if(k<t.size()&&!s.empty()&&k+1<t.size()&&t[k+1]==TAGS[4]){ k+=2; while(k<t.size()&&t[k]!=TAGS[5]) g.push_back(t[k++]); if(k<t.size()&&!g.empty()&&k+1<t.size()&&t[k+1]==TAGS[1]) ok=true; } }
   if(ok){ Sg p(src.size()+1,src.size()+s.size()); src.insert(src.end(),s.begin(),s.end()); c[p]=g; i=k+2; } else src.push_back(t[i++]); } }
static string cons(const Cons&c){ string r; for(auto&x:c) r+=" "+str(x.first)+"->"+str(x.second); return r; }
static void probe(B&m,const string&nm,const V&src,const Cons&c){
 CHECK(m.getSrcSentVec()==src,nm+"source sentence "+str(m.getSrcSentVec())+", expected "+str(src),hist); set<Sg> want,got=m.getConstrainedSrcPhrases(); for(auto&x:c) want.insert(x.first);
 CHECK(got==want,nm+"constrained spans "+str(vector<Sg>(got.begin(),got.end()))+", expected "+str(vector<Sg>(want.begin(),want.end())),hist);
 unsigned n=src.size(); for(unsigned a=0;a<=n+1;++a) for(unsigned b=a;b<=n+1;++b){ if(n>9&&rnd(n*n/40+1)) continue; Sg p(a,b); auto it=c.find(p); V w=it==c.end()?V():it->second; CHECK(m.getTransForSrcPhr(p)==w,nm+"translation of "+str(p)+" is "+str(m.getTransForSrcPhr(p))+", expected "+str(w),hist);
   bool af=false; for(auto&x:c) if(x.first.first<=b&&a<=x.first.second) af=true; CHECK(m.srcPhrAffectedByConstraint(p)==af,nm+"span "+str(p)+(af?" is not":" is")+" reported as affected by a constraint",hist); }
 // translations of all of the sentence: segments that follow the constraints or not
 for(unsigned k=0;k<6&&n>0;++k){ vector<Sg> seg; vector<V> tr; int bad=rnd(3)?rnd(4):0; for(unsigned a=1;a<=n;){ auto it=c.lower_bound(Sg(a,0)); bool at=it!=c.end()&&it->first.first==a; unsigned e; V t; if(at&&(bad!=1||rnd(2))){ e=it->first.second; t=it->second; if(bad==2&&rnd(2)){ switch(rnd(3)){ case 0: t.push_back(plain()); break; case 1: t.pop_back(); break; default: t[rnd(t.size())]=plain(); } } } else { e=a; while(e<n&&rnd(2)&&!(bad!=1&&c.lower_bound(Sg(e+1,0))!=c.end()&&c.lower_bound(Sg(e+1,0))->first.first==e+1)) ++e; for(unsigned z=rnd(4);z>0;--z) t.push_back(plain()); } seg.push_back(Sg(a,e)); tr.push_back(t); a=e+1; }
  if(rnd(2)) for(unsigned z=seg.size();z>1;--z){ unsigned q=rnd(z); swap(seg[z-1],seg[q]); swap(tr[z-1],tr[q]); }
  if(bad==3&&seg.size()>1&&rnd(2)){ unsigned q=rnd(seg.size()-1); swap(tr[q],tr[q+1]); }
  bool part=rnd(4)==0; if(part){ unsigned keep=rnd(seg.size()+1); seg.resize(keep); tr.resize(keep); }
  vector<PositionIndex> cuts; V words; for(auto&t:tr){ words.insert(words.end(),t.begin(),t.end()); cuts.push_back(words.size()); }
  bool want=true; for(auto&x:c) for(unsigned i=0;i<seg.size();++i) if(seg[i].first<=x.first.first&&x.first.first<=seg[i].second) if(!(seg[i]==x.first&&tr[i]==x.second)) want=false;
  CHECK(m.translationSatisfiesConstraints(seg,cuts,words)==want,nm+"translation "+str(words)+" segments "+str(seg)+" cuts "+str(cuts)+(want?" satisfies":" does not satisfy")+" the constraints"+cons(c),hist); } }
static string js(const string&s){ string r="\""; for(char ch:s){ if(ch=='"'||ch=='\\') r+='\\'; if(ch=='\t') r+="\\t"; else r+=ch; } return r+"\""; }
int main(int c,char**v){ init(c,v); X x; J j;
 while(more(.6)){ V src; Cons co; string raw; int m=rnd(3);
  if(m==0){ bool pad=false; for(unsigned k=0,n=rnd(8);k<n;++k){ if(rnd(3)){ string w=plain(); src.push_back(w); raw+=(pad||raw==""||rnd(4)==0?sp():string(" "))+w; pad=true; } else { unsigned a=src.size()+1; V g; auto z=[](){ return rnd(3)?string(""):sp(); }; raw+=z()+TAGS[0]+z()+TAGS[2]+z(); for(unsigned q=0,l=1+rnd(3);q<l;++q){ string w=plain(); raw+=(q?sp():string(""))+w; src.push_back(w); } raw+=z()+TAGS[3]+z()+TAGS[4]+z(); for(unsigned q=0,l=1+rnd(3);q<l;++q){ string w=plain(); raw+=(q?sp():string(""))+w; g.push_back(w); } raw+=z()+TAGS[5]+z()+TAGS[1]+z(); co[Sg(a,src.size())]=g; } } if(rnd(5)==0) raw+=sp(); }
  else if(m==1){ for(unsigned k=0,n=rnd(16);k<n;++k){ raw+=rnd(3)?string(TAGS[rnd(6)]):word(); if(rnd(3)) raw+=sp(); } oracle(tokens(raw),src,co); }
  else { static const int ORD[]={0,2,-1,3,4,-1,5,1}; for(unsigned k=0,n=1+rnd(3);k<n;++k){ for(unsigned q=0;q<8;++q){ if(rnd(12)==0) continue; if(rnd(25)==0) raw+=TAGS[rnd(6)]; if(ORD[q]<0) for(unsigned l=1+rnd(2);l>0;--l) raw+=sp()+word()+(rnd(3)?" ":""); else raw+=TAGS[ORD[q]]; if(rnd(2)) raw+=sp(); } if(rnd(2)) raw+=" "+word(); } oracle(tokens(raw),src,co); }
  hist="sentence '"+raw+"'"; if(rnd(20)==0) x.clear(); x.obtainTransConstraints(raw,0); probe(x,"XML: ",src,co); if(rnd(30)==0){ x.clear(); hist+=" cleared"; probe(x,"XML: ",V(),Cons()); } done("xml"); }
 while(more(1)){ string raw; V src; Cons co; unsigned n=rnd(9); string sent; for(unsigned k=0;k<n;++k) sent+=(k?sp():"")+plain(); src=split(sent); vector<pair<string,string> > ps; raw="{"; bool title=rnd(12)!=0; if(title) raw+="\"src_title\": {\"preprocessed\": "+js(sent)+"}, "; else src.clear(); raw+="\"tex_segmentation\": ["; unsigned pos=0;
  for(unsigned k=0,q=rnd(5);k<q;++k){ string o,t; if(rnd(8)==0) o=rnd(2)?"":" \t"; else { unsigned a=pos<src.size()?pos+rnd(src.size()-pos):rnd(9),l=1+rnd(3); for(unsigned z=0;z<l;++z) o+=(z?sp():rnd(5)?"":" ")+(a+z<src.size()&&rnd(12)?src[a+z]:plain()); pos=a+l; if(rnd(8)==0) o+=" "; } if(rnd(9)) for(unsigned z=0,l=1+rnd(3);z<l;++z) t+=(z?sp():"")+plain(); else t=rnd(2)?"":"  ";
   int miss=rnd(15); raw+=(k?", ":"")+string("{")+(miss==0?"":"\"original\": "+(miss==2?string("3"):js(o)))+(miss>1?", ":"")+(miss==1?"":"\"translation\": "+js(t))+"}"; if(miss>2&&!split(o).empty()&&!split(t).empty()) ps.push_back(make_pair(o,t)); }
  raw+="]}";
  { size_t s=0; for(auto&p:ps){ V o=split(p.first); size_t a=s; while(a+o.size()<=src.size()&&!equal(o.begin(),o.end(),src.begin()+a)) ++a; if(a+o.size()>src.size()) break; co[Sg(a+1,a+o.size())]=split(p.second); s=a+o.size(); } }
  if(rnd(25)==0){ raw=rnd(2)?"not json "+sent:"[1]"; src=split(raw); co.clear(); } if(rnd(40)==0){ raw=""; src.clear(); co.clear(); }
  hist="metadata "+raw; j.obtainTransConstraints(raw,0); probe(j,"JSON: ",src,co); if(rnd(30)==0){ j.clear(); hist+=" cleared"; probe(j,"JSON: ",V(),Cons()); } done("json"); }
 return end(); }
