// Common part of the native replay/search harnesses: deterministic generator, time budget, failure report.
#ifndef VH_H
#define VH_H
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <fstream>
#include <algorithm>
#include <chrono>
#include <functional>
#include <limits>
namespace vh {
static uint64_t S=1; static double budget=20; static const char* replay=0; static std::chrono::steady_clock::time_point T0;
static unsigned long cases=0; static std::map<std::string,unsigned long> per; static std::string dir;
inline uint64_t next(){ S+=0x9E3779B97F4A7C15ull; uint64_t z=S; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);}
inline unsigned rnd(unsigned n){ return n?next()%n:0; }
inline int rin(int a,int b){ return a+(int)rnd(b-a+1); }
inline double runi(){ return (next()>>11)*(1.0/9007199254740992.0); }
inline bool coin(){ return next()&1; }
inline double el(){ return std::chrono::duration<double>(std::chrono::steady_clock::now()-T0).count(); }
inline bool more(double frac){ return el()<budget*frac; }   // still inside the given fraction of the budget
inline void fail(const std::string& what,const std::string& input){
  fflush(stdout);
  std::string t="FAIL: "+what+"\ninput: "+input+"\n"; fprintf(stderr,"%s",t.c_str()); printf("%s",t.c_str());
  if(replay){ FILE* f=fopen(replay,"w"); if(f){ fprintf(f,"%s",t.c_str()); fclose(f);} }
  fflush(stdout); _Exit(1);
}
inline void done(const char* name){ ++cases; ++per[name]; }
inline void init(int argc,char** argv){ T0=std::chrono::steady_clock::now(); if(argc>1) S=strtoull(argv[1],0,10)*7919+13; if(argc>2) budget=atof(argv[2]); if(argc>3) replay=argv[3]; if(argc>4) dir=argv[4]; }
inline int end(){ printf("CASES %lu",cases); for(auto&x:per) printf(" %s=%lu",x.first.c_str(),x.second); printf("\n"); fflush(stdout); _Exit(0); }
template<class T> std::string str(const std::vector<T>& v); template<class A,class B> std::string str(const std::pair<A,B>& v);
template<class T> std::string str(const T& x){ std::ostringstream o; o.precision(17); o<<x; return o.str(); }
template<class T> std::string str(const std::vector<T>& v){ std::ostringstream o; o.precision(17); o<<"["; for(size_t i=0;i<v.size();++i) o<<(i?",":"")<<str(v[i]); o<<"]"; return o.str(); }
template<class A,class B> std::string str(const std::pair<A,B>& v){ return "("+str(v.first)+","+str(v.second)+")"; }
inline bool near(double a,double b,double eps=1e-6){ if(a==b) return true; if(std::isnan(a)||std::isnan(b)) return false; return std::fabs(a-b)<=eps*(1+std::max(std::fabs(a),std::fabs(b))); }
}
#define CHECK(c,what,input) do{ if(!(c)) vh::fail(std::string(what)+" ["#c"]",input); }while(0)
// standard error of the code under test is silenced by the runner
#endif
