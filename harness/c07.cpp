#include "../common/spaces.hpp"
#include <richdem/methods/flow_accumulation.hpp>
#include <richdem/common/random.hpp>
using namespace mc; using namespace richdem;

// The random source is an environment the explorer owns: it answers from a list.
static std::vector<double> answers; static size_t used=0;
namespace richdem {
  double uniform_rand_real(double from,double to){ double a=answers.empty()?0.5:answers[used%answers.size()]; used++; return from+a*(to-from); }
}

static const double SQ=std::sqrt(2.0);
// index 1..8 = W,NW,N,NE,E,SE,S,SW as in the flow coordinate system
struct Nb { bool ok; double e; };
template<class T> struct Cell { double e; Nb n[9]; };

enum Meth { M_D8, M_D4, M_FREEMAN, M_HOLMGREN, M_QUINN, M_DINF, M_RHO8, M_RHO4 };
static const char* MN[]={"D8","D4","Freeman","Holmgren","Quinn","Dinf","Rho8","Rho4"};
static bool diag(int n){return n%2==0;}

using Shares=std::array<double,9>;
// all share vectors the method allows for this cell; empty = no flow
template<class T> std::vector<Shares> expected(Meth m,double p,const Cell<T>&c){
  std::vector<Shares> r; Shares z; z.fill(0);
  auto one=[&](int n){ Shares s=z; s[n]=1; r.push_back(s); };
  switch(m){
    case M_D8: case M_D4: {
      double best=0; for(int n=1;n<=8;n++){ if(m==M_D4&&diag(n)) continue; if(!c.n[n].ok) continue; double s=(c.e-c.n[n].e)/(diag(n)?SQ:1); best=std::max(best,s); }
      if(best<=0) break;
      for(int n=1;n<=8;n++){ if(m==M_D4&&diag(n)) continue; if(!c.n[n].ok) continue; double s=(c.e-c.n[n].e)/(diag(n)?SQ:1); if(s>=best*(1-1e-12)) one(n); }
      break; }
    case M_RHO8: case M_RHO4: {
      double lo[9],hi[9]; bool any=false; double bestlo=0;
      for(int n=1;n<=8;n++){ lo[n]=hi[n]=0; if(m==M_RHO4&&diag(n)) continue; if(!c.n[n].ok) continue; double d=c.e-c.n[n].e; if(d<=0) continue; any=true;
        if(m==M_RHO8){ lo[n]=diag(n)?d/2:d; hi[n]=d; } else { lo[n]=(n==3||n==7)?0:d; hi[n]=(n==3||n==7)?1e300:d; } bestlo=std::max(bestlo,lo[n]); }
      if(!any) break;
      for(int n=1;n<=8;n++) if(hi[n]>0&&hi[n]>=bestlo) one(n);
      break; }
    case M_FREEMAN: case M_HOLMGREN: case M_QUINN:
      for(double L2:{0.354,SQ/4}){
        Shares s=z; double mx=0; double g[9];
        for(int n=1;n<=8;n++){ g[n]=0; if(!c.n[n].ok) continue; double d=c.e-c.n[n].e; if(d<=0) continue; g[n]=d/(diag(n)?SQ:1); if(m!=M_FREEMAN) g[n]*=diag(n)?L2:0.5; mx=std::max(mx,g[n]); }
        if(mx==0) break;
        double q=m==M_QUINN?1:p, C=0; for(int n=1;n<=8;n++) if(g[n]>0){ s[n]=std::pow(g[n]/mx,q); C+=s[n]; }
        for(auto&x:s) x/=C; r.push_back(s);
      }
      break;
    case M_DINF: {
      double best=0; std::vector<std::pair<double,Shares>> all;
      for(int f=0;f<8;f++){ // facet between adjacent directions a (cardinal) and b (diagonal)
        int a=f+1,b=f+2>8?1:f+2; if(diag(a)) std::swap(a,b);
        if(!c.n[a].ok||!c.n[b].ok) continue;
        double s1=c.e-c.n[a].e,s2=c.n[a].e-c.n[b].e,rr=std::atan2(s2,s1),s; Shares sh=z;
        if(rr<1e-7){ s=s1; sh[a]=1; } else if(rr>M_PI/4-1e-7){ s=(c.e-c.n[b].e)/SQ; sh[b]=1; } else { s=std::sqrt(s1*s1+s2*s2); sh[b]=rr/(M_PI/4); sh[a]=1-sh[b]; }
        if(s>0){ all.push_back({s,sh}); best=std::max(best,s); }
      }
      for(auto&x:all) if(x.first>=best*(1-1e-9)) r.push_back(x.second);
      break; }
  }
  return r;
}
template<class T> void metric(Meth m,double p,const Array2D<T>&dem,Array3D<float>&pr){
  switch(m){ case M_D8: FM_D8(dem,pr); break; case M_D4: FM_D4(dem,pr); break; case M_FREEMAN: FM_Freeman(dem,pr,p); break; case M_HOLMGREN: FM_Holmgren(dem,pr,p); break; case M_QUINN: FM_Quinn(dem,pr); break; case M_DINF: FM_Dinfinity(dem,pr); break; case M_RHO8: FM_Rho8(dem,pr); break; case M_RHO4: FM_Rho4(dem,pr); break; }
  trans();
}
template<class T> Cell<T> cell(const std::vector<T>&in,int w,int x,int y,T nd){
  Cell<T> c; c.e=in[y*w+x]; for(int k=0;k<8;k++){ T e=in[(y+oy8[k])*w+x+ox8[k]]; c.n[k+1]={e!=nd,(double)e}; } return c;
}
template<class T> std::set<int> verify(Meth m,double p,const Array2D<T>&dem,const std::vector<T>&in,int w,int h,bool expectedHash=true){
  const T nd=dem.noData(); Array3D<float> pr(dem,(float)0.123f); metric(m,p,dem,pr); std::set<int> receivers;
  std::string bad;
  if((int)pr.width()!=w||(int)pr.height()!=h) bad="shape";
  else for(int y=0;y<h&&bad.empty();y++) for(int x=0;x<w&&bad.empty();x++){
    int i=y*w+x; float st=pr(x,y,0); std::ostringstream o; o<<" at "<<x<<","<<y<<":";
    for(int n=0;n<=8;n++) o<<" "<<pr(x,y,n);
    bool anyp=false; double sum=0; for(int n=1;n<=8;n++){ float v=pr(x,y,n); if(v>0) anyp=true; if(v>0) sum+=v; if(!(v>=0||v==NO_FLOW_GEN)) bad="negative or non-number share"+o.str(); }
    if(in[i]==nd){ if(st!=NO_DATA_GEN||!pr.isNoData(x,y)) bad="NoData cell not marked"+o.str(); if(anyp) bad="NoData cell has shares"+o.str(); continue; }
    if(x==0||y==0||x==w-1||y==h-1){ if(st!=NO_FLOW_GEN||anyp) bad="edge cell has flow"+o.str(); continue; }
    auto c=cell<T>(in,w,x,y,nd); auto ex=expected<T>(m,p,c);
    if(ex.empty()){ if(st!=NO_FLOW_GEN||anyp) bad="cell without a lower neighbour has flow"+o.str(); continue; }
    if(st!=HAS_FLOW_GEN) bad="cell with a lower neighbour is not marked as having flow"+o.str();
    if(std::fabs(sum-1)>1e-4) bad="shares do not sum to one"+o.str();
    for(int n=1;n<=8;n++) if(pr(x,y,n)>0&&!(c.n[n].ok&&c.n[n].e<c.e)) bad="share to a cell that is not lower"+o.str();
    bool ok=false; for(auto&s:ex){ bool eq=true; for(int n=1;n<=8;n++){ double v=std::max(0.f,pr(x,y,n)); if(std::fabs(v-s[n])>2e-5) eq=false; } if(eq) ok=true; }
    if(!ok&&bad.empty()){ bad="shares differ from the method's"+o.str()+"\n allowed:"; for(auto&s:ex){ for(int n=1;n<=8;n++) bad+=" "+std::to_string(s[n]); bad+=" |"; } }
    nontrivial();
    if(w==3) for(int n=1;n<=8;n++) if(pr(x,y,n)>0) receivers.insert(n);
    if(expectedHash){ uint64_t hh=m; for(int n=1;n<=8;n++) hh=mix(hh,hbits(std::round(pr(x,y,n)*4096))); outcome(hh); }
  }
  if(vals(dem)!=in) bad="the DEM was changed";
  if(!bad.empty()){ std::ostringstream o; o<<bad<<"\n exponent "<<p<<" type "<<tname<T>()<<"\n in "<<show(in,w); violation(std::string("fm:")+MN[m],o.str()); }
  return receivers;
}
template<class T> void all(const Grid&g,int map,const std::vector<double>&ps,double scale=1){
  auto dem=to_rd<T>(g,map); if(scale!=1) for(unsigned y=0;y<(unsigned)g.h;y++) for(unsigned x=0;x<(unsigned)g.w;x++) if(!dem.isNoData(x,y)) dem(x,y)=(T)(dem(x,y)*scale);
  auto in=vals(dem); states(); traces(); if(want_sample()&&g.w>=3&&g.v[0]==1) sample(show(in,g.w));
  for(Meth m:{M_D8,M_D4,M_QUINN,M_DINF}) verify<T>(m,1,dem,in,g.w,g.h);
  for(double p:ps){ verify<T>(M_FREEMAN,p,dem,in,g.w,g.h); verify<T>(M_HOLMGREN,p,dem,in,g.w,g.h); }
}
Grid ring(uint64_t i,const std::vector<double>&a,double centre){ Grid g; g.w=g.h=3; g.v.resize(9); Dig d(i); for(int k=0;k<9;k++) g.v[k]=k==4?centre:a[d(a.size())]; return g; }

template<class T> void typed(bool big){
  std::string n=tname<T>();
  suite("ring3/"+n,ipow(3,8),[=](uint64_t i){ int m=i%NMAP; if(m==HIGH&&sizeof(T)==8) m=MID; all<T>(ring(i,{-1,0,3},2),m,{1.1}); });
  suite("ring4/"+n,ipow(4,8),[=](uint64_t i){ if(!big&&i%4!=3&&!thorough()){} all<T>(ring(i,{0,1,2,3},2),MID,{4.0}); });
}
int main(int c,char**v){
  const bool th=thorough();
  suite("ring5",ipow(5,8),[](uint64_t i){ all<double>(ring(i,{-1,0,1,2,3},2),MID,{1.1}); });
  suite("ring4p",ipow(4,8),[](uint64_t i){ all<double>(ring(i,{0,1,3,4},3),FRAC,{0.5,2,8}); });
  // magnitudes at which powers under- or overflow
  for(double sc:{1e-14,1e-7,1e9,1e18}) suite("scale"+std::to_string((int)std::log10(sc)),ipow(3,8),[=](uint64_t i){ all<double>(ring(i,{0,1,3},2),MID,{1.1,5,12},sc); });
  suite("dinf7",ipow(7,th?8:6),[=](uint64_t i){ // finer facet angles on one half of the ring
    Grid g=ring(0,{9},5); static const int pos[8]={3,0,1,2,5,8,7,6}; Dig d(i); for(int k=0;k<(th?8:6);k++) g.v[pos[k]]=d(7);
    auto dem=to_rd<double>(g,MID); auto in=vals(dem); states(); traces(); verify<double>(M_DINF,1,dem,in,3,3); verify<double>(M_D8,1,dem,in,3,3); });
  typed<float>(true); typed<int8_t>(false); typed<uint8_t>(false); typed<int16_t>(false); typed<uint16_t>(false); typed<int32_t>(false); typed<uint32_t>(false); typed<int64_t>(false);
  // stochastic methods: every answer of the random source
  suite("rho",ipow(4,8),[](uint64_t i){
    Grid g=ring(i,{-1,0,1,3},2); auto dem=to_rd<double>(g,MID); auto in=vals(dem); states(); traces();
    auto cl=cell<double>(in,3,1,1,dem.noData());
    for(Meth m:{M_RHO8,M_RHO4}){
      std::set<int> reach, feas; for(auto&s:expected<double>(m,1,cl)) for(int n=1;n<=8;n++) if(s[n]>0) feas.insert(n);
      int draws=0; for(int n=1;n<=8;n++) if(cl.n[n].ok&&cl.n[n].e<cl.e&&(m==M_RHO8?diag(n):(n==3||n==7))) draws++;
      const double A[3]={1e-9,0.5,1-1e-9};
      for(uint64_t k=0;k<ipow(3,draws);k++){ answers.clear(); Dig d(k); for(int q=0;q<draws;q++) answers.push_back(A[d(3)]); used=0; auto r=verify<double>(m,1,dem,in,3,3,false); reach.insert(r.begin(),r.end()); }
      answers.clear();
      // a receiver that only ties at the extreme answer may be decided either way
      double bestlo=0; for(int n=1;n<=8;n++) if(feas.count(n)){ double dd=cl.e-cl.n[n].e; bestlo=std::max(bestlo,m==M_RHO8?(diag(n)?dd/2:dd):((n==3||n==7)?0:dd)); }
      for(int n:feas){ double dd=cl.e-cl.n[n].e; double hi=m==M_RHO8?dd:((n==3||n==7)?1e300:dd); if(hi>bestlo*1.000001&&!reach.count(n)) violation(std::string("fm:")+MN[m]+":unreachable","a feasible receiver is never chosen whatever the random source answers: "+std::to_string(n)+"\n in "+show(in,3)); }
    } });
  terrain_suites("g/",[](const Grid&g,uint64_t i){ all<double>(g,i%NMAP,{1.1}); },thorough()?1:-1);
  terrain_suites("gi/",[](const Grid&g,uint64_t i){ all<int32_t>(g,i%3,{2}); },thorough()?0:-1);
  terrain_suites("grho/",[](const Grid&g,uint64_t i){ auto dem=to_rd<float>(g,MID); auto in=vals(dem); states(); traces(); answers={0.3,0.9,1e-9,0.6}; used=i%4; verify<float>(M_RHO8,1,dem,in,g.w,g.h); verify<float>(M_RHO4,1,dem,in,g.w,g.h); answers.clear(); },thorough()?0:-1);
  return mc::main(c,v);
}
