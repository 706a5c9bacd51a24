// SRC: nlp_common/StrProcUtils.cc
#include "h.hpp"
#include "StrProcUtils.h"
using namespace vh; using namespace std; using namespace StrProcUtils;
typedef vector<string> VS;
static VS split(const string&s,const char*bl){ VS r; size_t i=0; while(i<s.size()){ while(i<s.size()&&strchr(bl,s[i])) ++i; size_t b=i; while(i<s.size()&&!strchr(bl,s[i])) ++i; if(i>b) r.push_back(s.substr(b,i-b)); } return r; }
static string q(const string&s){ return "\""+s+"\""; }
static string q(const VS&v){ string r="["; for(auto&x:v) r+=q(x)+","; return r+"]"; }
static void one(const string&a,const string&b){ string in=q(a)+" / "+q(b);
  CHECK(charItemsToVector(a.c_str())==split(a," "),"charItemsToVector "+q(charItemsToVector(a.c_str())),in);
  VS sp=stringToStringVector(a); CHECK(sp==split(a," \t"),"stringToStringVector "+q(sp),in);
  string j=stringVectorToString(sp); { string e; for(size_t i=0;i<sp.size();++i){ if(i) e+=' '; e+=sp[i]; } CHECK(j==e,"stringVectorToString "+q(j),in); CHECK(stringToStringVector(j)==sp,"split of join",in); e=""; for(auto&x:sp) e+=x; CHECK(stringVectorToStringWithoutSpaces(sp)==e,"stringVectorToStringWithoutSpaces",in); }
  CHECK(isPrefix(a,b)==(a.size()<=b.size()&&b.substr(0,a.size())==a),"isPrefix "+str(isPrefix(a,b)),in);
  { VS x=split(a," "),y=split(b," "); bool e=x.size()<=y.size(); for(size_t i=0;e&&i<x.size();++i) e=i+1<x.size()?x[i]==y[i]:(y[i].substr(0,x[i].size())==x[i]); CHECK(isPrefixStrVec(x,y)==e,"isPrefixStrVec",in); }
  { VS w=split(a," "); string e=w.empty()?"":w.back(); CHECK(getLastWord(a)==e,"getLastWord "+q(getLastWord(a)),in); }
  CHECK(lastCharIsBlank(a)==(!a.empty()&&a.back()==' '),"lastCharIsBlank",in); { string e=a; if(!e.empty()&&e.back()==' ') e.resize(e.size()-1); CHECK(removeLastBlank(a)==e,"removeLastBlank",in); } CHECK(addBlank(a)==a+" ","addBlank",in);
  done("strings"); }
static string rs(unsigned n,const char*al){ string s; unsigned m=strlen(al); for(unsigned i=0;i<n;++i) s+=al[rnd(m)]; return s; }
static void nums(){ VS v; vector<float> e; unsigned n=rnd(6); for(unsigned i=0;i<n;++i){ float x=(runi()-0.5)*pow(10,rin(-5,5)); if(rnd(4)==0) x=rin(-100,100); char b[64]; snprintf(b,64,coin()?"%.9g":"%.9e",x); v.push_back(b); e.push_back(x); } vector<float> g=strVecToFloatVec(v); CHECK(g==e,"strVecToFloatVec "+str(g),q(v));
  string f="/a/b.so"; CHECK(expandLibDirIfFound(f)==f,"expandLibDirIfFound plain",f); string var=getLibDirVarNameValue(); CHECK(expandLibDirIfFound(var+f)==getLibDir()+f,"expandLibDirIfFound",var+f); CHECK(expandLibDirIfFound(var)==getLibDir(),"expandLibDirIfFound",var); string h=var.substr(0,rnd(var.size())); CHECK(expandLibDirIfFound(h)==h,"expandLibDirIfFound partial",h); string k="x"+var; CHECK(expandLibDirIfFound(k)==k,"expandLibDirIfFound inside",k); done("numbers"); }
int main(int c,char**v){ init(c,v);
  const char*al="ab \t"; for(unsigned n=0;n<=6;++n){ unsigned t=1; for(unsigned i=0;i<n;++i) t*=4; for(unsigned x=0;x<t;++x){ string s; unsigned y=x; for(unsigned i=0;i<n;++i){ s+=al[y%4]; y/=4; } one(s,rs(rnd(7),al)); string p=s+rs(rnd(4),al); one(s,p); one(p,s); } }
  while(more(1)){ string a=rs(rnd(rnd(8)?12:60),coin()?"ab ":"abcde  \t"),b; switch(rnd(4)){ case 0: b=rs(rnd(12),"ab "); break; case 1: b=a+rs(rnd(5),"ab "); break; case 2: b=a.substr(0,rnd(a.size()+1)); break; default: b=a; if(!b.empty()) b[rnd(b.size())]="ab \xe9"[rnd(4)]; } one(a,b); if(rnd(10)==0) nums(); }
  return end(); }
