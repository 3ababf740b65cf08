#include "../common/spaces.hpp"
#include <richdem/depressions/depressions.hpp>
using namespace mc; using namespace richdem;

template<class T,Topology topo> void one(const Grid&g,const Array2D<T>&dem0,const std::vector<T>&in,int how){
  const bool d8=topo==Topology::D8; const int w=g.w,h=g.h; const T nd=nodata_of<T>();
  Array2D<T> dem(dem0);
  const char*site;
  if(how==0){ CompleteBreaching_Lindsay2016<topo>(dem); site="CompleteBreaching"; }
  else if(how==1){ BreachDepressions<topo>(dem); site="BreachDepressions"; }
  else { Lindsay2016<T>(dem,COMPLETE_BREACHING,false,false,1000,std::numeric_limits<T>::max()); site="Lindsay2016(complete)"; }
  trans();
  const auto got=vals(dem); const auto after=ref_fill<T>(got,w,h,d8,true,nd);
  std::string bad; bool anypit=false; std::set<T> values(in.begin(),in.end());
  T floor=std::numeric_limits<T>::max(); // lowest level any pit may be drained at
  for(int y=0;y<h;y++) for(int x=0;x<w;x++){ int i=y*w+x; if(in[i]==nd) continue;
    bool interior=x>0&&y>0&&x<w-1&&y<h-1; bool pit=false; T low=std::numeric_limits<T>::max();
    if(interior){ bool ndn=false; for(int k=0;k<nbrs(d8);k++){ T e=in[(y+dyo(d8,k))*w+x+dxo(d8,k)]; if(e==nd) ndn=true; low=std::min(low,e); } pit=!ndn&&in[i]<=low; if(pit){ anypit=true; floor=std::min(floor,low); } }
    if(got[i]>in[i] && !(pit&&got[i]<=low)) bad="cell "+std::to_string(i)+" was raised";
  }
  for(int i=0;i<w*h;i++){
    if((in[i]==nd)!=(got[i]==nd)) bad="NoData changed";
    if(in[i]==nd) continue;
    if(got[i]<in[i] && got[i]<floor) bad="cell "+std::to_string(i)+" was carved below every pit's level";
    if(!values.count(got[i])) bad="an elevation appeared that is not in the DEM";
    if(after[i]!=got[i]) bad="cell "+std::to_string(i)+" still cannot drain";
  }
  if(!anypit&&got!=in) bad="a DEM without pits or flats was changed";
  if(got!=in) nontrivial();
  if(!bad.empty()) violation(std::string("breach:")+site+(d8?":D8":":D4"),bad+" type "+tname<T>()+"\n in "+show(in,w)+"\n got "+show(got,w));
  outcome(hvec(got));
}
template<class T> void check(const Grid&g,uint64_t i,int m){
  auto dem=to_rd<T>(g,m); auto in=vals(dem); states(); traces();
  if(want_sample()&&g.w>3&&g.h>3) sample(show(in,g.w));
  one<T,Topology::D8>(g,dem,in,0); one<T,Topology::D4>(g,dem,in,0);
  if(i%3==0||thorough()){ one<T,Topology::D8>(g,dem,in,1); one<T,Topology::D4>(g,dem,in,1); } // the front end forwards to the same routine
  if(std::is_same<T,double>::value) one<T,Topology::D8>(g,dem,in,2);
}
// --- breaching limited by length and depth -------------------------------------------------------
template<class T> T dn(T v){ return std::nextafter(v,std::numeric_limits<T>::lowest()); }
static const uint32_t LENS[]={0,1,2,3,4,1000};
static std::string opts(int mode,bool eps,bool fill,uint32_t ml,double md){ return std::string(mode==SELECTIVE_BREACHING?"selective":mode==CONSTRAINED_BREACHING?"constrained":"complete")+(eps?" eps":"")+(fill?" fill":"")+" length "+std::to_string(ml)+" depth "+std::to_string(md); }
// a corridor between walls has one route only, so the result is determined
template<class T> void corridor(uint64_t i,int n,int k){
  Dig d(i); int mode=1+d(2); bool eps=d(2),fill=d(2); uint32_t ml=LENS[d(6)]; T md=(T)(d(5)*0.5); if(md==(T)2) md=std::numeric_limits<T>::max();
  int bend=d(2); std::vector<T> h(n); for(auto&e:h) e=(T)(1+d(k))*(T)0.75;
  // cells of the corridor in order from the outlet: straight, or bent once
  std::vector<std::pair<int,int>> at; int w=n+2,hh=3; if(bend&&n>3){ w=n+2; hh=n+2; for(int k=0;k<n;k++) at.emplace_back(k<n/2?k:n/2,k<n/2?1:1+k-n/2); w=n/2+3; hh=n-n/2+3; } else for(int k=0;k<n;k++) at.emplace_back(k,1);
  Array2D<T> dem(w,hh,(T)9); dem.setNoData((T)-1); for(int k=0;k<n;k++) dem(at[k].first,at[k].second)=h[k];
  auto in=vals(dem); states(); traces(); trans();
  Lindsay2016<T>(dem,mode,eps,fill,ml,md); auto got=vals(dem);
  // expected
  std::vector<T> e(h); std::vector<bool> pit(n,false); auto adj=[&](int a,int b){ return std::max(std::abs(at[a].first-at[b].first),std::abs(at[a].second-at[b].second))<=1; };
  std::vector<int> scan(n); for(int k=0;k<n;k++) scan[k]=k; std::sort(scan.begin(),scan.end(),[&](int a,int b){ return std::make_pair(at[a].second,at[a].first)<std::make_pair(at[b].second,at[b].first); });
  for(int k:scan) if(k){ T low=9; for(int j=0;j<n;j++) if(j!=k&&adj(j,k)) low=std::min(low,e[j]); if(e[k]<low) e[k]=eps?dn(low):low; if(e[k]<=low) pit[k]=true; }
  std::vector<int> par(n,-1); for(int k=1;k<n;k++) par[k]=k-1; 
  for(int k=2;k<n;k++) if(adj(k-2,k)) par[k]=k-2; // the corner's short cut: k-2 is popped before k-1, which is reached only through it
  for(int k=0;k<n;k++) if(pit[k]){
    uint32_t len=0; T depth=std::numeric_limits<T>::lowest(), t=e[k]; int c=k; while(c>=0&&e[c]>=t){ depth=std::max(depth,(T)(e[c]-t)); c=par[c]; if(eps) t=dn(t); len++; }
    c=k; t=e[k]; uint32_t step=0; bool fits=len<=ml&&depth<=md;
    if(fits) while(c>=0&&e[c]>=t){ e[c]=t; c=par[c]; if(eps) t=dn(t); }
    else if(mode==CONSTRAINED_BREACHING) while(c>=0&&e[c]>=t&&step<ml){ e[c]=e[c]-t>md?(T)(e[c]-md):t; c=par[c]; if(eps) t=dn(t); step++; }
  }
  if(fill) for(int k=1;k<n;k++) if(e[k]<=e[par[k]]) e[k]=eps?std::nextafter(e[par[k]],std::numeric_limits<T>::max()):e[par[k]];
  auto want=in; for(int k=0;k<n;k++) want[at[k].second*w+at[k].first]=e[k];
  if(got!=in) nontrivial(); if(want_sample()) sample(opts(mode,eps,fill,ml,md)+"\n"+show(in,w));
  if(got!=want) violation(std::string("limited:")+(mode==1?"selective":"constrained")+(eps?":eps":"")+(fill?":fill":""),opts(mode,eps,fill,ml,md)+" type "+tname<T>()+"\n in "+show(in,w)+"\n got "+show(got,w)+"\n want "+show(want,w));
  outcome(hvec(got));
}
template<class T> void limits(const Grid&g,uint64_t i){
  auto dem0=to_rd<T>(g,MID); const auto in=vals(dem0); const int w=g.w,h=g.h; const T nd=nodata_of<T>(); states(); traces(); const double SL=1e-4;
  if(want_sample()&&g.w>3&&g.h>3) sample(show(in,g.w));
  const auto filled=ref_fill<T>(in,w,h,true,true,nd); T lo=std::numeric_limits<T>::max(),hi=std::numeric_limits<T>::lowest(); 
  int np=0; T floor=std::numeric_limits<T>::max(); std::vector<char> edge(w*h,0); std::vector<T> lowest(w*h,std::numeric_limits<T>::max()); std::vector<char> pit(w*h,0);
  for(int y=0;y<h;y++) for(int x=0;x<w;x++){ int c=y*w+x; if(in[c]==nd) continue; lo=std::min(lo,in[c]); hi=std::max(hi,in[c]); if(x==0||y==0||x==w-1||y==h-1){ edge[c]=1; continue; } for(int k=0;k<8;k++){ T e=in[(y+dyo(true,k))*w+x+dxo(true,k)]; if(e==nd) edge[c]=1; lowest[c]=std::min(lowest[c],e); } if(!edge[c]&&in[c]<=lowest[c]){ pit[c]=1; np++; floor=std::min(floor,lowest[c]); } }
  { auto r=in; np=0; for(int y=1;y<h-1;y++) for(int x=1;x<w-1;x++){ int c=y*w+x; if(in[c]==nd||edge[c]) continue; T low=std::numeric_limits<T>::max(); for(int k=0;k<8;k++) low=std::min(low,r[(y+dyo(true,k))*w+x+dxo(true,k)]); if(r[c]<low) r[c]=low; if(r[c]<=low) np++; } } // raising a pit may leave its neighbour level with it
  const T inf=std::numeric_limits<T>::max(); const T step=hi>lo?(T)((hi-lo)/3):(T)1; const T DEP[]={0,step,inf};
  for(int mode=0;mode<3;mode++) for(int eps=0;eps<2;eps++) for(int fill=0;fill<(mode?2:1);fill++) for(int li=0;li<(mode?4:1);li++) for(int di=0;di<(mode?3:1);di++){
    static const uint32_t LL[]={1,2,3,100000}; uint32_t ml=mode?LL[li]:1000; T md=mode?DEP[di]:inf; Array2D<T> dem(dem0); Lindsay2016<T>(dem,mode,eps,fill,ml,md); trans(); const auto got=vals(dem);
    std::string bad; int lowered=0; bool ample=mode==0||(li==3&&di==2); double slack=eps?SL:0;
    for(int c=0;c<w*h&&bad.empty();c++){ std::string cn="cell "+std::to_string(c); if((in[c]==nd)!=(got[c]==nd)) bad="NoData changed"; if(in[c]==nd) continue; 
      if(!fill&&got[c]>in[c]&&!(pit[c]&&got[c]<=lowest[c])) bad=cn+" was raised without filling"; if(fill&&got[c]>filled[c]+slack) bad=cn+" was raised above its spill level";
      if(got[c]<in[c]-slack){ lowered++; if(got[c]<floor-slack) bad=cn+" was carved below every pit's level"; if(mode&&di<2&&in[c]-got[c]>np*md+SL) bad=cn+" was carved deeper than permitted"; } }
    if(bad.empty()&&mode&&lowered>(double)np*(ml-1)) bad=std::to_string(lowered)+" cells were lowered for "+std::to_string(np)+" pit cells, more than the permitted lengths";
    auto drains=[&]{ if(!eps){ auto a=ref_fill<T>(got,w,h,true,true,nd); for(int c=0;c<w*h;c++) if(in[c]!=nd&&a[c]!=got[c]) return c; } else for(int y=1;y<h-1;y++) for(int x=1;x<w-1;x++){ int c=y*w+x; if(in[c]==nd||edge[c]) continue; bool ok=false; for(int k=0;k<8;k++) ok|=got[(y+dyo(true,k))*w+x+dxo(true,k)]<got[c]; if(!ok) return c; } return -1; };
    if(bad.empty()&&(ample||fill)){ int c=drains(); if(c>=0) bad="cell "+std::to_string(c)+" still cannot drain"; }
    if(bad.empty()&&mode==1&&!fill&&np==1&&lowered){ int c=drains(); if(c>=0) bad="a breach was begun and not finished"; }
    if(bad.empty()&&!np&&!fill&&got!=in) bad="a DEM without pits or flats was changed";
    if(got!=in) nontrivial();
    if(!bad.empty()) violation(std::string("limits:")+(mode==0?"complete":mode==1?"selective":"constrained")+(eps?":eps":"")+(fill?":fill":""),bad+" ("+opts(mode,eps,fill,ml,md)+") type "+tname<T>()+"\n in "+show(in,w)+"\n got "+show(got,w));
    outcome(hvec(got)); }
}
int main(int c,char**v){
  auto cor=[](int n,int k,bool flt){ suite(std::string(flt?"corridor-float":"corridor")+std::to_string(n),2*2*2*6*5*2*ipow(k,n),[=](uint64_t i){ flt?corridor<float>(i,n,k):corridor<double>(i,n,k); }); };
  for(int n=1;n<=4;n++) cor(n,4,false); cor(5,thorough()?5:3,false); if(thorough()){ cor(6,4,false); cor(7,3,false); } cor(3,4,true); cor(4,4,true);
  terrain_suites("limits/",[](const Grid&g,uint64_t i){ limits<double>(g,i); },thorough()?0:-1);

  terrain_suites("",[](const Grid&g,uint64_t i){ check<double>(g,i,MID); },thorough()?2:1);
  terrain_suites("int16/",[](const Grid&g,uint64_t i){ check<int16_t>(g,i,LOW); },0);
  terrain_suites("float/",[](const Grid&g,uint64_t i){ check<float>(g,i,FRAC); },0);
  terrain_suites("uint8/",[](const Grid&g,uint64_t i){ check<uint8_t>(g,i,HIGH); },0);
  return mc::main(c,v);
}
