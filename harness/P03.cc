// SRC: nlp_common/SingleWordVocab.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc nlp_common/getline.c
#include "h.hpp"
#include "SingleWordVocab.h"
using namespace vh; using namespace std;
struct Side { map<string,WordIndex> ref; };
static string word(){ static const char* sp[]={"NULL","UNKNOWN_WORD","<UNUSED_WORD>","","a","A","aa","the","NULLx","ab","ba"}; if(rnd(6)==0) return sp[rnd(11)]; string s; int n=1+rnd(3); for(int i=0;i<n;++i) s+=(char)('a'+rnd(3)); if(rnd(30)==0) s+=string(rnd(40),'z'); return s; }
static void run(){ SingleWordVocab v; Side s[2]; string hist;
  auto reset=[&](){ for(auto&x:s) x.ref={{"NULL",0},{"UNKNOWN_WORD",1},{"<UNUSED_WORD>",2}}; }; reset();
  auto look=[&](int t,const string&w){ return t?v.stringToTrgWordIndex(w):v.stringToSrcWordIndex(w); };
  auto dec=[&](int t,WordIndex w){ return t?v.wordIndexToTrgString(w):v.wordIndexToSrcString(w); };
  auto ex=[&](int t,const string&w){ return t?v.existTrgSymbol(w):v.existSrcSymbol(w); };
  auto size=[&](int t){ return t?v.getTrgVocabSize():v.getSrcVocabSize(); };
  auto verify=[&](){ for(int t=0;t<2;++t){ CHECK(size(t)==s[t].ref.size(),"vocabulary size "+str(size(t))+" expected "+str(s[t].ref.size()),hist); set<WordIndex> seen; for(auto&x:s[t].ref){ WordIndex w=look(t,x.first); CHECK(w==x.second,"index of '"+x.first+"' changed",hist); CHECK(seen.insert(w).second,"two words share an index: '"+x.first+"'",hist); CHECK(dec(t,w)==x.first,"decoding gives '"+dec(t,w)+"' expected '"+x.first+"'",hist); CHECK(ex(t,x.first),"known word",hist); }
      string u=word()+"#"; if(!s[t].ref.count(u)){ CHECK(look(t,u)==UNK_WORD&&!ex(t,u),"unknown word",hist); } CHECK(dec(t,s[t].ref.size()+1000)=="UNKNOWN_WORD","unknown index",hist);
      auto m=t?v.getTrgVocab():v.getSrcVocab(); CHECK(m.size()==s[t].ref.size(),"vocabulary map",hist); for(auto&x:s[t].ref) CHECK(m[x.first]==x.second,"vocabulary map entry",hist); } };
  verify(); int n=1+rnd(60);
  for(int k=0;k<n;++k){ int t=coin(); int o=rnd(12);
    auto exp=[&](const string&w){ auto i=s[t].ref.find(w); return i==s[t].ref.end()?-1:(long)i->second; };
    if(o<7){ string w=word(); hist+=(t?" T:":" S:")+w; long e=exp(w); WordIndex r=t?v.addTrgSymbol(w):v.addSrcSymbol(w); if(e>=0) CHECK(r==(WordIndex)e,"adding a known word",hist); else s[t].ref[w]=r; CHECK(look(t,w)==r,"index after adding",hist); }
    else if(o<10){ vector<string> ws; int m=rnd(6); for(int j=0;j<m;++j) ws.push_back(word()); hist+=(t?" TV:":" SV:")+str(ws); auto r=t?v.strVectorToTrgIndexVector(ws):v.strVectorToSrcIndexVector(ws); CHECK(r.size()==ws.size(),"vector length",hist); for(size_t j=0;j<ws.size();++j){ long e=exp(ws[j]); if(e>=0) CHECK(r[j]==(WordIndex)e,"known word in vector",hist); else s[t].ref[ws[j]]=r[j]; } }
    else if(o==10&&rnd(6)==0){ hist+=" clear"; v.clear(); reset(); }
    else if(rnd(12)==0){ string f=dir+"/v"; hist+=t?" T-file":" S-file"; if(t) v.printTrgVocab(f.c_str()); else v.printSrcVocab(f.c_str()); bool emp=s[t].ref.count(""); if(!emp){ SingleWordVocab w; bool r=t?w.loadTrgVocab(f.c_str()):w.loadSrcVocab(f.c_str()); CHECK(r==THOT_OK,"load",hist); for(auto&x:s[t].ref){ CHECK((t?w.stringToTrgWordIndex(x.first):w.stringToSrcWordIndex(x.first))==x.second,"index of '"+x.first+"' after printing and loading",hist); CHECK((t?w.wordIndexToTrgString(x.second):w.wordIndexToSrcString(x.second))==x.first,"word after printing and loading",hist);} CHECK((t?w.getSrcVocabSize():w.getTrgVocabSize())==3,"other side empty",hist); } }
    if(rnd(4)==0||k==n-1) verify(); }
  done("histories"); }
int main(int c,char**v){ init(c,v); while(more(1)) run(); return end(); }
