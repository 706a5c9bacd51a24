// P06: word graph scores, best paths, n-best lists, pruning and reordering against exhaustive path enumeration.
// SRC: error_correction/WordGraph.cc error_correction/NbSearchStack.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc nlp_common/getline.c
#include "h.hpp"
#include "WordGraph.h"
#include <fstream>
using namespace vh;

struct Arc { unsigned p,s; double sc; std::string w; std::vector<double> comps; };
struct Path { double sc; std::vector<unsigned> ids; unsigned end; };

static std::string show(const std::vector<Arc>& A,const std::set<unsigned>& fin,double init,const std::string& extra)
{
  std::string r="init="+str(init)+" final={";
  for(unsigned f:fin) r+=str(f)+" ";
  r+="} arcs:";
  for(unsigned i=0;i<A.size();++i) r+=" "+str(i)+":"+str(A[i].p)+"->"+str(A[i].s)+"("+str(A[i].sc)+","+A[i].w+")";
  return r+" "+extra;
}

// every path of arcs allowed by ok starting in state from
static void paths(const std::vector<Arc>& A,const std::vector<bool>& ok,unsigned from,double sc,std::vector<unsigned>& cur,std::vector<Path>& out)
{
  if(out.size()>20000) return;
  out.push_back(Path{sc,cur,from});
  for(unsigned i=0;i<A.size();++i)
    if(ok[i] && A[i].p==from)
    {
      cur.push_back(i);
      paths(A,ok,A[i].s,sc+A[i].sc,cur,out);
      cur.pop_back();
    }
}

static const double NONE=-1e300;

int main(int argc,char**argv)
{
  init(argc,argv);
  std::ofstream devnull("/dev/null");
  std::cerr.rdbuf(devnull.rdbuf());
  while(more(1))
  {
    // states in a random topological order; state 0 first
    unsigned ns=rin(2,7);
    std::vector<unsigned> order;
    for(unsigned i=1;i<ns;++i) order.push_back(i);
    for(unsigned i=0;i+1<order.size();++i) std::swap(order[i],order[i+rin(0,order.size()-1-i)]);
    order.insert(order.begin(),0);
    std::vector<Arc> A;
    bool pos=coin(), ties=coin();
    unsigned nc=rin(1,3);
    std::vector<float> w; for(unsigned i=0;i<nc;++i) w.push_back((int)rin(-4,4)*0.5f);
    bool withComps=coin();
    unsigned na=rin(1,10);
    std::vector<std::pair<unsigned,unsigned> > raw;
    for(unsigned i=0;i<na;++i)
    {
      unsigned a=rin(0,ns-2), b=rin(a+1,ns-1);
      if(coin()&&ns>2) { a=0; b=rin(1,ns-1);}
      raw.push_back(std::make_pair(a,b));
    }
    std::stable_sort(raw.begin(),raw.end(),[](const std::pair<unsigned,unsigned>&x,const std::pair<unsigned,unsigned>&y){return x.first<y.first;});
    for(auto& r:raw)
    {
      Arc x; x.p=order[r.first]; x.s=order[r.second];
      x.sc= ties ? -(double)rin(0,2) : -(double)rin(0,80)/8;
      if(pos) x.sc+=3;
      x.w="w"+str(rin(0,3));
      if(coin()&&coin()) x.w+=" u";
      if(withComps)
      {
        x.sc=0;
        for(unsigned k=0;k<nc;++k) { double c=(int)rin(-6,6)/4.0; x.comps.push_back(c); x.sc+=w[k]*c; }
      }
      A.push_back(x);
    }
    double ini= coin()?0:((int)rin(-20,20))/4.0;
    unsigned maxst=0; for(auto&x:A) { maxst=std::max(maxst,std::max(x.p,x.s)); }
    std::set<unsigned> fin;
    bool sinkOnly=coin()||coin();
    for(unsigned s=1;s<=maxst;++s)
    {
      bool sink=true; for(auto&x:A) if(x.p==s) sink=false;
      if(coin() && (sink||!sinkOnly)) fin.insert(s);
    }
    WordGraph wg;
    std::vector<std::pair<std::string,float> > cw;
    for(unsigned i=0;i<nc;++i) cw.push_back(std::make_pair("c"+str(i),withComps&&coin()?1.0f:w[i]));
    bool late=coin();
    if(!late) wg.setCompWeights(cw);
    wg.setInitialStateScore(ini);
    for(auto&x:A)
    {
      std::vector<std::string> ws; std::istringstream is(x.w); std::string t; while(is>>t) ws.push_back(t);
      if(withComps) wg.addArcWithScrComps(x.p,x.s,ws,late?123:x.sc,x.comps);
      else wg.addArc(x.p,x.s,ws,x.sc);
    }
    for(unsigned f:fin) wg.addFinalState(f);
    if(late)
    {
      std::vector<std::pair<std::string,float> > c2; for(unsigned i=0;i<nc;++i) c2.push_back(std::make_pair("c"+str(i),w[i]));
      wg.setCompWeights(c2);
    }
    else if(withComps) { std::vector<std::pair<std::string,float> > c2; for(unsigned i=0;i<nc;++i) c2.push_back(std::make_pair("c"+str(i),w[i])); if(coin()) wg.setCompWeights(c2); }
    std::string inp=show(A,fin,ini,"");
    CHECK(wg.numArcs()==A.size() && wg.numStates()==maxst+1,"numArcs/numStates",inp);
    if(withComps||late) for(unsigned i=0;i<A.size();++i) CHECK(near(wg.wordGraphArcId2WordGraphArc(i).arcScore,A[i].sc,1e-9),"arc score after setCompWeights",inp);

    std::vector<bool> pruned(A.size(),false);
    auto checkScores=[&](const std::string& tag)
    {
      std::set<unsigned> exc; 
      if(coin()) for(unsigned i=0;i<A.size();++i) if(rin(0,3)==0) exc.insert(i);
      unsigned from= coin()?0:rin(0,maxst);
      bool alt=withComps&&coin();
      std::vector<float> aw; if(alt) for(unsigned i=0;i<nc;++i) aw.push_back((int)rin(-4,4)*0.5f);
      std::vector<Arc> B=A;
      if(alt) for(auto&x:B) { x.sc=0; for(unsigned k=0;k<nc;++k) x.sc+=aw[k]*x.comps[k]; }
      std::vector<bool> ok; for(unsigned i=0;i<A.size();++i) ok.push_back(!pruned[i]&&!exc.count(i));
      std::vector<Path> ps; std::vector<unsigned> cur;
      paths(B,ok,from,from==0?ini:0,cur,ps);
      std::vector<double> best(maxst+1,NONE);
      for(auto&p:ps) best[p.end]=std::max(best[p.end],p.sc);
      std::string in2=inp+tag+" from="+str(from)+" excluded="; for(unsigned e:exc) in2+=str(e)+",";
      if(alt) { in2+=" altweights="; for(float f:aw) in2+=str(f)+","; }
      std::vector<Score> prev; std::vector<WordGraphArc> bp;
      std::set<WordGraphArcId> ex(exc.begin(),exc.end());
      wg.calcPrevScoresWeights(from,ex,aw,prev,bp);
      CHECK(prev.size()==maxst+1,"size of prevScores",in2);
      for(unsigned s=0;s<=maxst;++s)
        CHECK(best[s]==NONE ? prev[s]==SMALL_SCORE : near(prev[s],best[s],1e-9),"previous score of state "+str(s)+" = "+str(prev[s])+" expected "+str(best[s]),in2);
      double bf=NONE; for(unsigned f:fin) bf=std::max(bf,best[f]);
      std::vector<WordGraphArc> av;
      Score r= wg.bestPathFromFinalStateToIdxWeights(from,ex,aw,av);
      if(bf==NONE) CHECK(r==SMALL_SCORE && av.empty(),"no final state reachable but a path was returned",in2);
      else
      {
        CHECK(near(r,bf,1e-9),"score of the best path "+str(r)+" expected "+str(bf),in2);
        unsigned st= av.empty()?from:av[0].succStateIndex;
        CHECK(fin.count(st),"best path does not end in a final state",in2);
        double sum= from==0?ini:0;
        for(unsigned k=0;k<av.size();++k)
        {
          CHECK(av[k].succStateIndex==st,"best path is not connected",in2);
          st=av[k].predStateIndex;
          double bs=NONE;      // equal arcs may have different alternative scores
          for(unsigned i=0;i<A.size();++i)
          {
            std::string ws; for(auto&x:av[k].words) ws+=(ws.empty()?"":" ")+x;
            if(ok[i]&&A[i].p==av[k].predStateIndex&&A[i].s==av[k].succStateIndex&&near(av[k].arcScore,A[i].sc,1e-9)&&ws==A[i].w) bs=std::max(bs,B[i].sc);
          }
          CHECK(bs!=NONE,"best path uses an arc that does not exist, is pruned or excluded",in2);
          sum+=bs;
        }
        CHECK(st==from,"best path does not start in the requested state",in2);
        CHECK(near(sum,r,1e-9),"score of the best path differs from the sum of its arcs",in2);
      }
      if(exc.empty()&&!alt)
      {
        std::vector<WordGraphArc> av2;
        CHECK(near(wg.bestPathFromFinalStateToIdx(from,ex,av2),r,1e-9),"bestPathFromFinalStateToIdx",in2);
      }
    };
    auto checkRest=[&](const std::string& tag)
    {
      std::vector<Score> rest; wg.calcRestScores(rest);
      for(unsigned s=0;s<=maxst;++s)
      {
        std::vector<Path> ps; std::vector<unsigned> cur; std::vector<bool> ok;
        for(unsigned i=0;i<A.size();++i) ok.push_back(!pruned[i]);
        paths(A,ok,s,0,cur,ps);
        double b=NONE; for(auto&p:ps) if(fin.count(p.end)) b=std::max(b,p.sc);
        // a state from which no final state is reachable keeps a score near SMALL_SCORE
        if(b!=NONE) CHECK(near(rest[s],ini+b,1e-9),"rest score of state "+str(s)+" = "+str(rest[s])+" expected "+str(ini+b),inp+tag);
        else CHECK(rest[s]<SMALL_SCORE/2,"rest score of a dead end",inp+tag);
      }
    };
    auto nbest=[&](WordGraph& g,unsigned len,const std::string& tag,bool deep)
    {
      std::vector<Path> ps,full; std::vector<unsigned> cur; std::vector<bool> ok;
      for(unsigned i=0;i<A.size();++i) ok.push_back(!pruned[i]);
      paths(A,ok,0,ini,cur,ps);
      for(auto&p:ps) if(!p.ids.empty()&&fin.count(p.end)) full.push_back(p);
      std::stable_sort(full.begin(),full.end(),[](const Path&a,const Path&b){return a.sc>b.sc;});
      std::vector<std::pair<Score,std::string> > nb; std::vector<NbSearchHighLevelHyp> hl; std::vector<std::vector<Score> > scv;
      g.obtainNbestList(len,nb,hl,scv);
      std::string in2=inp+tag+" len="+str(len);
      CHECK(nb.size()==std::min<size_t>(len,full.size())&&hl.size()==nb.size(),"size of the n-best list "+str(nb.size())+" of "+str(full.size())+" complete paths",in2);
      if(withComps) CHECK(scv.size()==nb.size(),"number of component vectors",in2);
      std::multiset<std::string> seen;
      for(unsigned i=0;i<nb.size();++i)
      {
        CHECK(near(nb[i].first,full[i].sc,1e-9),"score of n-best entry "+str(i)+" = "+str(nb[i].first)+" expected "+str(full[i].sc),in2);
        std::string words; double sum=ini; unsigned st=0; std::string key;
        std::vector<double> comps(nc,0);
        for(auto&a:hl[i])
        {
          if(deep) CHECK(a.predStateIndex==st,"n-best path is not connected",in2);
          st=a.succStateIndex; sum+=a.arcScore;
          if(!key.empty()) words+=" ";
          std::string ws; for(auto&x:a.words) ws+=(ws.empty()?"":" ")+x;
          words+=ws;
          key+=str(a.predStateIndex)+">"+str(a.succStateIndex)+":"+str(a.arcScore)+":"+ws+";";
        }
        if(deep) CHECK(fin.count(st),"n-best path does not end in a final state",in2);
        CHECK(words==nb[i].second,"string of n-best entry '"+nb[i].second+"' expected '"+words+"'",in2);
        CHECK(near(sum,nb[i].first,1e-9),"score of n-best entry differs from the sum of its arcs",in2);
        if(withComps) { double t=ini; CHECK(scv[i].size()==nc,"size of component vector",in2); for(unsigned k=0;k<nc;++k) t+=w[k]*scv[i][k]; CHECK(near(t,nb[i].first,1e-6),"score components do not give the score",in2); }
        seen.insert(key);
      }
      if(deep)
      {
        std::map<std::string,int> cap;
        for(auto&p:full) { std::string key; for(unsigned id:p.ids) key+=str(A[id].p)+">"+str(A[id].s)+":"+str(wg.wordGraphArcId2WordGraphArc(0).arcScore*0+A[id].sc)+":"+A[id].w+";"; cap[key]++; }
        if(!withComps) for(auto&k:seen) CHECK((int)seen.count(k)<=cap[k],"n-best list repeats a path "+k,in2);
      }
      return nb;
    };
    checkScores(" fresh"); checkScores(" fresh"); checkRest(" fresh");
    if(sinkOnly) nbest(wg,rin(0,12),"",true);

    // pruning
    for(unsigned round=0;round<2;++round)
    {
      float th[5]={0.9999f,0.5f,0.01f,1e-6f,1e-30f};
      float t=th[rin(0,4)];
      std::vector<Path> ps; std::vector<unsigned> cur; std::vector<bool> ok;
      for(unsigned i=0;i<A.size();++i) ok.push_back(!pruned[i]);
      paths(A,ok,0,ini,cur,ps);
      double b=NONE; for(auto&p:ps) if(fin.count(p.end)) b=std::max(b,p.sc);
      unsigned n=wg.prune(t);
      std::string in2=inp+" prune("+str(t)+")";
      if(b!=NONE)
      {
        // an arc survives exactly when the best complete path through it is within log(threshold) of the best path
        std::vector<double> thr(A.size(),NONE);
        for(auto&p:ps) if(fin.count(p.end)) for(unsigned id:p.ids) thr[id]=std::max(thr[id],p.sc);
        unsigned cnt=0;
        for(unsigned i=0;i<A.size();++i)
        {
          bool pr=wg.arcPruned(i);
          cnt+=pr;
          if(thr[i]!=NONE && thr[i]>=b+log(t)+1e-6) CHECK(!pr,"arc "+str(i)+" of a path within the threshold was pruned",in2);
          // with final states that have successors a path may pass through a final state
          if(!pruned[i]&&(thr[i]==NONE||thr[i]<b+log(t)-1e-6)) CHECK(pr,"arc "+str(i)+" outside the threshold was kept",in2);
          if(pruned[i]) CHECK(pr||true,"",in2);
        }
        CHECK(cnt==n,"number of pruned arcs returned",in2);
      }
      for(unsigned i=0;i<A.size();++i) pruned[i]=wg.arcPruned(i);
      unsigned np=0; for(unsigned i=0;i<A.size();++i) np+=!pruned[i];
      CHECK(wg.getNumberOfNonPrunedArcs()==np,"getNumberOfNonPrunedArcs",in2);
      checkScores(in2); checkRest(in2);
      if(sinkOnly) nbest(wg,rin(0,12),in2,true);
    }
    // useful states: same translations with the same scores
    if(sinkOnly)
    {
      WordGraph u=wg;
      u.obtainWgComposedOfUsefulStates();
      bool any=false;
      { std::vector<Path> ps; std::vector<unsigned> cur; std::vector<bool> ok; for(unsigned i=0;i<A.size();++i) ok.push_back(!pruned[i]); paths(A,ok,0,ini,cur,ps); for(auto&p:ps) if(fin.count(p.end)) any=true; }
      if(any) nbest(u,rin(0,12)," useful",false);
    }
    wg.prune(UNLIMITED_DENSITY);
    for(unsigned i=0;i<A.size();++i) { pruned[i]=false; CHECK(!wg.arcPruned(i),"prune(UNLIMITED_DENSITY) leaves arcs pruned",inp); }
    checkScores(" unpruned");

    // a graph given with its arcs in any order and then ordered topologically behaves as the original one
    {
      std::vector<unsigned> perm; for(unsigned i=0;i<A.size();++i) perm.push_back(i);
      for(unsigned i=0;i+1<perm.size();++i) std::swap(perm[i],perm[i+rin(0,perm.size()-1-i)]);
      WordGraph g; g.setInitialStateScore(ini);
      std::vector<std::pair<std::string,float> > c2; for(unsigned i=0;i<nc;++i) c2.push_back(std::make_pair("c"+str(i),w[i]));
      g.setCompWeights(c2);
      for(unsigned id:perm)
      {
        const Arc& x=A[id];
        std::vector<std::string> ws; std::istringstream is(x.w); std::string t; while(is>>t) ws.push_back(t);
        if(withComps) g.addArcWithScrComps(x.p,x.s,ws,x.sc,x.comps); else g.addArc(x.p,x.s,ws,x.sc);
      }
      for(unsigned f:fin) g.addFinalState(f);
      g.orderArcsTopol();
      std::string in2=inp+" shuffled and ordered, order="; for(unsigned id:perm) in2+=str(id)+",";
      for(unsigned i=0;i<A.size();++i)
        for(unsigned j=i+1;j<A.size();++j)
          CHECK(g.wordGraphArcId2WordGraphArc(j).succStateIndex!=g.wordGraphArcId2WordGraphArc(i).predStateIndex,"arcs are not topologically ordered",in2);
      for(unsigned s=0;s<=maxst;++s)
      {
        std::vector<WordGraphArc> as; g.getArcsToPredStates(s,as);
        unsigned n=0; for(auto&x:A) n+=x.s==s;
        CHECK(as.size()==n,"number of arcs into state "+str(s),in2);
        for(auto&a:as) CHECK(a.succStateIndex==s,"arc to predecessors of state "+str(s)+" does not enter it",in2);
        g.getArcsToSuccStates(s,as);
        for(auto&a:as) CHECK(a.predStateIndex==s,"arc to successors of state "+str(s)+" does not leave it",in2);
      }
      if(sinkOnly) nbest(g,rin(0,12),in2,true);
    }
    done("word graph");
  }
  return end();
}
