// SRC:
#include "h.hpp"
#include "Bitset.h"
#include <bitset>
using namespace vh; using namespace std; static string hist;
template<size_t N> static void eq(const Bitset<N>& b,const bitset<N>& m){ for(size_t i=0;i<N;++i) CHECK(b.test(i)==m[i],"position "+str(i)+" is "+str(b.test(i))+" expected "+str(m[i]),hist); CHECK(b.count()==m.count(),"count is "+str(b.count())+" expected "+str(m.count()),hist); }
template<size_t N> static int cmp(const bitset<N>& a,const bitset<N>& b){ for(size_t i=N;i>0;--i) if(a[i-1]!=b[i-1]) return a[i-1]?1:-1; return 0; }
template<size_t N> static void run(){ Bitset<N> b[3]; bitset<N> m[3]; hist="size "+str(N)+":"; if(rnd(4)==0){ unsigned long u=((unsigned long)rnd(1u<<30)<<34)^((unsigned long)rnd(1u<<30)<<8)^rnd(256); if(N<64) u&=(1ul<<(N%64))-1; Bitset<N> x(u); b[0]=x; m[0]=bitset<N>(u); hist+=" from "+str(u); eq(b[0],m[0]); }
  if(rnd(4)==0){ unsigned u=rnd(1u<<30)*3; if(N<32) u&=(1u<<(N%32))-1; Bitset<N> x(u); b[1]=x; m[1]=bitset<N>(u); hist+=" 1 from "+str(u); }
  for(int s=rnd(25);s>=0;--s){ int k=rnd(3),o=rnd(3); unsigned op=rnd(14); size_t p=rnd(4)?rnd(N):(coin()?N-1:min<size_t>(N-1,31+rnd(2))); size_t d=rnd(3)?rnd(N+1):32*rnd(N/32+2); hist+=" "+str(op)+"("+str(k)+","+str(o)+","+str(p)+","+str(d)+")";
    switch(op){ case 0: case 1: case 2: b[k].set(p); m[k].set(p); break; case 3: b[k].reset(p); m[k].reset(p); break; case 4: if(rnd(4)==0){ b[k].set(); m[k].set(); } break; case 5: if(rnd(4)==0){ b[k].reset(); m[k].reset(); } break;
     case 6: b[k]&=b[o]; m[k]&=m[o]; break; case 7: b[k]|=b[o]; m[k]|=m[o]; break; case 8: b[k]^=b[o]; m[k]^=m[o]; break; case 9: b[k]>>=d; m[k]>>=d; break; case 10: b[k]=b[o]>>d; m[k]=m[o]>>d; break; case 11: { int v=coin(); b[k].set(p,v); m[k].set(p,v); } break; case 12: b[k]=b[o]; m[k]=m[o]; break;
     case 13: if(!m[k].all()){ ++b[k]; for(size_t i=0;i<N;++i){ m[k].flip(i); if(m[k][i]) break; } } break; }
    eq(b[k],m[k]); int c=cmp(m[k],m[o]); CHECK((b[k]==b[o])==(c==0)&&(b[k]!=b[o])==(c!=0),"equality disagrees with the contents",hist); CHECK((b[k]<b[o])==(c<0)&&(b[k]>b[o])==(c>0),"order disagrees with the contents",hist);
    unsigned long u=0; for(size_t i=0;i<N&&i<64;++i) if(m[k][i]) u|=1ul<<i; CHECK(b[k].to_ulong()==u&&b[k].to_uint()==(unsigned)u,"conversion gives "+str(b[k].to_ulong())+" expected "+str(u),hist);
    size_t J=rnd(N+1),n=0; for(size_t i=0;i<J;++i) n+=m[k][i]; CHECK(b[k].count(J)==n,"count of the first "+str(J)+" is "+str(b[k].count(J))+" expected "+str(n),hist); }
  done("history"); }
int main(int c,char**v){ init(c,v); while(more(1)) switch(rnd(10)){ case 0: run<1>(); break; case 1: run<31>(); break; case 2: run<32>(); break; case 3: run<33>(); break; case 4: run<64>(); break; case 5: run<70>(); break; case 6: run<100>(); break; default: run<160>(); } return end(); }
