// Rasters whose counts pass 2^8, 2^15 and 2^16: cells, columns, rows, labels, path lengths, accumulations, flat increments.
// One property per build (-DLARGE=n). The oracles run in about linear time.
#include "../common/rd.hpp"
#include <queue>
#include <numeric>
#if LARGE<=4
#include <richdem/depressions/depressions.hpp>
#elif LARGE<=6
#include <richdem/depressions/fill_spill_merge.hpp>
#elif LARGE==8
#include <richdem/methods/flow_accumulation.hpp>
#elif LARGE==9
#include <richdem/flowmet/d8_flowdirs.hpp>
#include <richdem/flowmet/dinf_flowdirs.hpp>
#include <richdem/methods/d8_methods.hpp>
#include <richdem/methods/dinf_methods.hpp>
#elif LARGE==10
#include <richdem/flats/flats.hpp>
#include <richdem/flats/find_flats.hpp>
#include <richdem/flats/flat_resolution.hpp>
#else
#include <richdem/methods/terrain_attributes.hpp>
#endif
using namespace mc; using namespace richdem;
namespace richdem { double uniform_rand_real(double from,double to){ return from+0.5*(to-from); } }
enum { PITROW, RAMPROW, SNAKE, SNAKERAMP, SNAKEPLUG, PITS, PLATEAU, BASIN, TERRACES, ROUGH, HILLS, RELIEF, NPAT };
static const char*PN[]={"pit row","ramp row","winding corridor","winding ramp","plugged winding corridor","pits","plateau","basin","terraces","rough","hills","relief"};
struct Big { int w,h; std::vector<double> z; int pat; std::string name; };
static int noise(int x,int y,int m){ return mix(mix(12345,x),y)%m; }
// i selects pattern and orientation; elevations are >=0, -1 would be NoData
static Big make(uint64_t i){
  Dig d(i); int p=d(NPAT),o=d(4); Big b; b.pat=p; int w,h; std::vector<double> z;
  auto snake=[&](int n){ std::vector<int> path; for(int r=1;r<n-1;r+=2){ bool ltr=((r-1)/2)%2==0; for(int k=1;k<n-1;k++) path.push_back(r*n+(ltr?k:n-1-k)); if(r+2<n-1) path.push_back((r+1)*n+(ltr?n-2:1)); } return path; };
  switch(p){
    case PITROW: w=70001; h=3; z.assign((size_t)w*h,5); for(int x=0;x<w;x++) z[w+x]=x==0?0:x%2?1:2; break;
    case RAMPROW: w=70001; h=3; z.assign((size_t)w*h,100000); for(int x=0;x<w;x++) z[w+x]=x+1; break;
    case SNAKE: case SNAKERAMP: case SNAKEPLUG: { int n=373; w=h=n; z.assign((size_t)w*h,p==SNAKERAMP?100000:9); auto q=snake(n); for(size_t k=0;k<q.size();k++) z[q[k]]=p==SNAKERAMP?k+2:2; z[n]=1; if(p==SNAKEPLUG) z[n]=4; break; }
    case PITS: w=h=521; z.assign((size_t)w*h,3); for(int y=1;y<h-1;y+=2) for(int x=1;x<w-1;x+=2) z[y*w+x]=1; break;
    case PLATEAU: w=302; h=301; z.assign((size_t)w*h,5); for(int y=1;y<h-1;y++) for(int x=1;x<w-1;x++) z[y*w+x]=2; z[(h/2)*w]=1; break;
    case BASIN: w=301; h=302; z.resize((size_t)w*h); for(int y=0;y<h;y++) for(int x=0;x<w;x++) z[y*w+x]=std::max(std::abs(x-w/2),std::abs(y-h/2)); break;
    // general terrain: cells independent; smooth with flats and nested hollows; and rough on every scale
    case ROUGH: w=301; h=299; z.resize((size_t)w*h); for(int y=0;y<h;y++) for(int x=0;x<w;x++) z[y*w+x]=noise(x,y,1000)+x+2*y; break;
    case HILLS: w=290; h=310; z.resize((size_t)w*h); for(int y=0;y<h;y++) for(int x=0;x<w;x++) z[y*w+x]=std::floor(30+10*std::sin(x*0.21)+9*std::cos(y*0.17+x*0.05)+8*std::sin((x-2*y)*0.031)); break;
    case RELIEF: w=260; h=257; z.assign((size_t)w*h,0); for(int k=64,a=1600;k>=1;k/=2,a=a*5/9) for(int y=0;y<h;y++) for(int x=0;x<w;x++){ int i=x/k,j=y/k; double u=double(x%k)/k,v=double(y%k)/k; z[y*w+x]+=(1-u)*(1-v)*noise(i+k,j,a)+u*(1-v)*noise(i+1+k,j,a)+(1-u)*v*noise(i+k,j+1,a)+u*v*noise(i+1+k,j+1,a); } for(auto&q:z) q=std::floor(q); break;
    default: w=300; h=300; z.resize((size_t)w*h); for(int y=0;y<h;y++) for(int x=0;x<w;x++) z[y*w+x]=x/3+y/3; break;
  }
  b.w=w; b.h=h; b.z=z;
  if(o&1){ b.w=h; b.h=w; for(int y=0;y<h;y++) for(int x=0;x<w;x++) b.z[(size_t)x*h+y]=z[(size_t)y*w+x]; }
  if(o&2) std::reverse(b.z.begin(),b.z.end());
  b.name=std::string(PN[p])+" "+std::to_string(b.w)+"x"+std::to_string(b.h)+" orientation "+std::to_string(o); return b;
}
static const uint64_t N=NPAT*4;
template<class T> Array2D<T> rd(const Big&b){ Array2D<T> a(b.w,b.h,(T)0); a.setNoData((T)-1); a.geotransform={0,1,0,0,0,-1}; for(size_t i=0;i<b.z.size();i++) a(i)=(T)b.z[i]; return a; }
static void say(const std::string&sig,const Big&b,const std::string&what){ violation("large:"+sig,b.name+": "+what); }
static std::string at(const Big&b,size_t i){ return "cell "+std::to_string(i%b.w)+","+std::to_string(i/b.w); }
template<class F> void each(const Big&b,bool d8,size_t i,F f){ int x=i%b.w,y=i/b.w; for(int k=0;k<nbrs(d8);k++){ int X=x+dxo(d8,k),Y=y+dyo(d8,k); if(X<0||Y<0||X>=b.w||Y>=b.h) continue; f((size_t)Y*b.w+X); } }
static bool edge(const Big&b,size_t i){ int x=i%b.w,y=i/b.w; return !x||!y||x==b.w-1||y==b.h-1; }
// minimax surface; with labels, paths keep to one label and start at its edge cells
static std::vector<double> fill(const Big&b,bool d8,const std::vector<int>*lab=nullptr){
  std::vector<double> f(b.z.size(),1e300); typedef std::pair<double,size_t> Q; std::priority_queue<Q,std::vector<Q>,std::greater<Q>> q; for(size_t i=0;i<f.size();i++) if(edge(b,i)){ f[i]=b.z[i]; q.push({f[i],i}); }
  while(!q.empty()){ auto[e,c]=q.top(); q.pop(); if(e>f[c]) continue; each(b,d8,c,[&](size_t j){ if(lab&&(*lab)[j]!=(*lab)[c]) return; double v=std::max(e,b.z[j]); if(v<f[j]){ f[j]=v; q.push({v,j}); } }); }
  return f;
}
template<class T> void same(const std::string&sig,const Big&b,const std::vector<double>&want,const Array2D<T>&got){ if((int)got.width()!=b.w||(int)got.height()!=b.h){ say(sig,b,"dimensions"); return; } for(size_t i=0;i<want.size();i++) if((double)got(i)!=want[i]){ say(sig,b,at(b,i)+" is "+std::to_string((double)got(i))+", expected "+std::to_string(want[i])); return; } }
static bool slow(const Big&b,uint64_t i){ return (b.pat==SNAKE||b.pat==SNAKEPLUG)&&i/NPAT%3; } // quadratic routines take two orientations
static uint64_t begin(const Big&b){ states(); traces(); trans(); nontrivial(); beat(); if(want_sample()) sample(b.name); outcome(mix(b.pat,b.w)); return 0; }
// fitting element types: ramps need more than 16 bits
static bool fits16(const Big&b){ return b.pat!=RAMPROW&&b.pat!=SNAKERAMP; }
#if LARGE==1
template<class T> void fills(const Big&b){
  auto go=[&](const char*n,bool d8,auto f){ auto a=rd<T>(b); f(a); trans(); beat(); same(std::string("fill:")+n,b,fill(b,d8),a); };
  go("Original",true,[](auto&a){PriorityFlood_Original<Topology::D8>(a);}); go("Original4",false,[](auto&a){PriorityFlood_Original<Topology::D4>(a);}); go("Barnes2014",true,[](auto&a){PriorityFlood_Barnes2014<Topology::D8>(a);}); go("Barnes20144",false,[](auto&a){PriorityFlood_Barnes2014<Topology::D4>(a);}); go("Zhou",true,[](auto&a){PriorityFlood_Zhou2016(a);}); go("Wei",true,[](auto&a){PriorityFlood_Wei2018(a);});
  auto f=fill(b,true); auto a=rd<T>(b); bool any=f!=b.z; if(HasDepressions<Topology::D8>(a)!=any) say("has",b,"wrong answer"); Array2D<uint8_t> m; pit_mask<Topology::D8>(a,m); std::vector<double> w; for(size_t i=0;i<f.size();i++) w.push_back(f[i]>b.z[i]); same("mask",b,w,m);
  size_t n=0; for(double v:w) n+=v>0; if(b.pat==SNAKEPLUG||b.pat==BASIN) for(long lim:{(long)n-1,(long)n}){ auto c=rd<T>(b); PriorityFlood_Barnes2014_max_dep<Topology::D8>(c,lim); trans(); same("max_dep",b,lim<(long)n?b.z:f,c); }
}
static void run(uint64_t i){ auto b=make(i); begin(b); fills<double>(b); if(fits16(b)) fills<int16_t>(b); fills<float>(b); }
#elif LARGE==2
static int64_t bits(double d){ int64_t v; memcpy(&v,&d,8); return v; }
static void run(uint64_t i){ auto b=make(i); begin(b); for(int d8=0;d8<2;d8++){ auto a=rd<double>(b); if(d8) PriorityFloodEpsilon_Barnes2014<Topology::D8>(a); else PriorityFloodEpsilon_Barnes2014<Topology::D4>(a); trans(); auto f=fill(b,d8); for(size_t c=0;c<f.size();c++){ if(edge(b,c)){ if(a(c)!=b.z[c]){ say("eps",b,"edge cell changed: "+at(b,c)); break; } continue; } bool out=false; each(b,d8,c,[&](size_t j){ out|=a(j)<a(c); }); if(!out||a(c)<f[c]||(a(c)>f[c]&&bits(a(c))-bits(f[c])>(int64_t)f.size())){ say("eps",b,at(b,c)+(out?" is at the wrong level":" has no lower neighbour")); break; } } } }
#elif LARGE==3
static void run(uint64_t i){ auto b=make(i); begin(b); auto f=fill(b,true);
  { auto a=rd<double>(b); Array2D<d8_flowdir_t> fd; PriorityFloodFlowdirs_Barnes2014(a,fd); trans(); std::vector<double> top(f.size(),-1); std::vector<char> st(f.size(),0); std::string bad; // highest cell of the way out of every cell
    for(size_t s=0;s<f.size()&&bad.empty();s++){ std::vector<size_t> p; size_t c=s; while(st[c]==0){ st[c]=1; p.push_back(c); int k=fd(c); if(k<1||k>8){ bad=at(b,c)+" has no direction"; break; } int x=c%b.w+ox8[k-1],y=c/b.w+oy8[k-1]; if(x<0||y<0||x>=b.w||y>=b.h){ c=SIZE_MAX; break; } c=(size_t)y*b.w+x; if(st[c]==1){ bad="cycle through "+at(b,c); break; } } double t=c==SIZE_MAX||!bad.empty()?-1:top[c]; while(!p.empty()){ size_t q=p.back(); p.pop_back(); t=std::max(t,b.z[q]); top[q]=t; st[q]=2; if(bad.empty()&&t>f[q]) bad="the way out of "+at(b,q)+" climbs above its spill level"; } }
    if(!bad.empty()) say("pfdirs",b,bad); }
  for(int d8=0;d8<2;d8++) for(int alter=0;alter<2;alter++){ auto a=rd<double>(b); Array2D<int32_t> l; if(d8) PriorityFloodWatersheds_Barnes2014<Topology::D8>(a,l,alter); else PriorityFloodWatersheds_Barnes2014<Topology::D4>(a,l,alter); trans(); auto g=fill(b,d8); same("sheds",b,alter?g:b.z,a); auto L=vals(l); std::map<int,size_t> outl; std::string bad; for(size_t c=0;c<L.size()&&bad.empty();c++){ if(L[c]<1) bad=at(b,c)+" has no label"; if(edge(b,c)&&outl.count(L[c])) bad="one label at two edge cells, "+at(b,c); if(edge(b,c)) outl[L[c]]=c; } auto m=fill(b,d8,&L); for(size_t c=0;c<L.size()&&bad.empty();c++) if(m[c]!=g[c]) bad="within its label "+at(b,c)+" does not drain at its spill level"; if(!bad.empty()) say("sheds",b,bad); } }
#elif LARGE==4
template<class T> void go(const Big&b){ for(int k=0;k<2;k++){ bool d8=k==0; auto a=rd<T>(b); if(d8) CompleteBreaching_Lindsay2016<Topology::D8>(a); else CompleteBreaching_Lindsay2016<Topology::D4>(a); trans(); beat(); Big c=b; for(size_t i=0;i<c.z.size();i++) c.z[i]=a(i); auto f=fill(c,d8); bool pits=fill(b,d8)!=b.z; 
    for(size_t i=0;i<c.z.size();i++){ if(f[i]!=c.z[i]){ say("breach",b,at(b,i)+" still cannot drain"); break; } if(c.z[i]>b.z[i]){ double low=1e300; each(b,d8,i,[&](size_t j){ low=std::min(low,b.z[j]); }); if(edge(b,i)||c.z[i]>low){ say("breach",b,at(b,i)+" was raised"); break; } } } (void)pits; } }
static void run(uint64_t i){ auto b=make(i); begin(b); if(slow(b,i)) return; go<double>(b); if(fits16(b)) go<int16_t>(b); }
#elif LARGE==5 || LARGE==6
using namespace richdem::dephier;
static void run(uint64_t i){ auto b=make(i); begin(b); auto dem=rd<double>(b); const size_t n=b.z.size(); Array2D<dh_label_t> lab(b.w,b.h,NO_DEP); Array2D<flowdir_t> fd(b.w,b.h,NO_FLOW); for(size_t c=0;c<n;c++) if(edge(b,c)) lab(c)=OCEAN;
  auto deps=GetDepressionHierarchy<double,Topology::D8>(dem,lab,fd); trans(); beat(); auto f=fill(b,true);
#if LARGE==5
  size_t leaves=0,want=0,may=0; for(auto&d:deps) leaves+=d.dep_label!=OCEAN&&d.lchild==NO_VALUE;
  // flat bottoms on land; those level with the ocean may or may not count
  { std::vector<char> s(n,0); for(size_t c=0;c<n;c++) if(!s[c]&&!edge(b,c)){ std::vector<size_t> q{c}; s[c]=1; bool pit=true,level=false; for(size_t k=0;k<q.size();k++) each(b,true,q[k],[&](size_t j){ if(b.z[j]<b.z[c]) pit=false; if(b.z[j]==b.z[c]){ if(edge(b,j)) level=true; else if(!s[j]){ s[j]=1; q.push_back(j); } } }); if(pit) (level?may:want)++; } }
  if(leaves<want||leaves>want+may){ say("dh:leaves",b,std::to_string(leaves)+" leaf depressions, expected "+std::to_string(want)+" to "+std::to_string(want+may)); return; }
  std::vector<char> seen(deps.size(),0); std::string bad; double vol=0;
  for(size_t k=0;k<deps.size()&&bad.empty();k++){ auto&d=deps[k]; if(k==OCEAN) continue; if(d.dep_label!=k) bad="node "+std::to_string(k)+" is labelled "+std::to_string(d.dep_label); if(d.lchild==NO_VALUE){ if(d.pit_cell>=n||lab(d.pit_cell)!=k) bad="the pit of node "+std::to_string(k)+" is not its own"; } else for(auto c:{d.lchild,d.rchild}){ if(seen[c]) bad="two parents"; seen[c]=1; if(deps[c].parent!=k) bad="parent and child disagree"; } if(d.ocean_parent||d.parent==OCEAN) vol+=d.dep_vol; }
  double V=0; for(size_t c=0;c<n;c++) V+=f[c]-b.z[c]; if(bad.empty()&&std::fabs(V-vol)>1e-6*(1+V)) bad="the outermost depressions hold "+std::to_string(vol)+", the terrain "+std::to_string(V);
  for(size_t c=0;c<n&&bad.empty();c++) if(lab(c)!=OCEAN){ size_t k=c; size_t steps=0; while(fd(k)!=NO_FLOW&&steps++<=n) { size_t x=k%b.w+ox8[fd(k)-1],y=k/b.w+oy8[fd(k)-1]; k=y*b.w+x; if(steps>400) break; } if(steps<=400&&lab(k)!=lab(c)) bad=at(b,c)+" drains to another depression's pit"; }
  if(!bad.empty()) say("dh",b,bad);
#else
  for(double rain:{0.25,2.0}){ auto D=deps; Array2D<double> wtd(b.w,b.h,rain); FillSpillMerge(dem,lab,fd,D,wtd); trans(); beat(); double after=D[OCEAN].water_vol,before=rain*n; for(size_t c=0;c<n;c++){ after+=wtd(c); if(wtd(c)<0||wtd(c)+b.z[c]>f[c]+1e-6*(1+f[c])){ say("fsm",b,at(b,c)+" holds "+std::to_string(wtd(c))); break; } } if(!(std::fabs(after-before)<=1e-6*before)) say("fsm",b,"water before "+std::to_string(before)+", after "+std::to_string(after));
    if(rain==2.0&&(b.pat==PITS||b.pat==PITROW)) for(size_t c=0;c<n;c++) if(std::fabs(wtd(c)-(f[c]-b.z[c]))>1e-6){ say("fsm",b,at(b,c)+" should be full"); break; } }
#endif
}
#elif LARGE==8 || LARGE==9
// upstream sums over a weighted network
static std::vector<double> sums(size_t n,const std::vector<std::vector<std::pair<size_t,double>>>&to){ std::vector<int> deg(n,0); for(auto&v:to) for(auto&e:v) deg[e.first]++; std::vector<double> a(n,1); std::vector<size_t> q; for(size_t i=0;i<n;i++) if(!deg[i]) q.push_back(i); for(size_t k=0;k<q.size();k++) for(auto&e:to[q[k]]){ a[e.first]+=e.second*a[q[k]]; if(--deg[e.first]==0) q.push_back(e.first); } if(q.size()!=n) a.clear(); return a; }
template<class A> void close(const char*sig,const Big&b,const std::vector<double>&e,const Array2D<A>&g,double tol){ if(e.empty()){ say(sig,b,"the network has a cycle"); return; } for(size_t i=0;i<e.size();i++) if(!(std::fabs((double)g(i)-e[i])<=tol*(1+e[i]))){ say(sig,b,at(b,i)+" accumulates "+std::to_string((double)g(i))+", expected "+std::to_string(e[i])); return; } }
#if LARGE==8
static void run(uint64_t i){ auto b=make(i); begin(b); auto dem=rd<double>(b); auto go=[&](const char*nm,auto fa,auto fm){ Array3D<float> p(dem); fm(dem,p); Array2D<double> a(b.w,b.h,1); fa(dem,a); trans(); beat(); std::vector<std::vector<std::pair<size_t,double>>> to(b.z.size()); for(size_t c=0;c<b.z.size();c++){ int x=c%b.w,y=c/b.w; for(int k=1;k<=8;k++) if(p(x,y,k)>0){ int X=x+ox8[k-1],Y=y+oy8[k-1]; if(X>=0&&Y>=0&&X<b.w&&Y<b.h) to[c].push_back({(size_t)Y*b.w+X,p(x,y,k)}); } } close(nm,b,sums(b.z.size(),to),a,1e-9); };
  go("FA_D8",[](auto&d,auto&a){FA_D8(d,a);},[](auto&d,auto&p){FM_D8(d,p);}); go("FA_Tarboton",[](auto&d,auto&a){FA_Tarboton(d,a);},[](auto&d,auto&p){FM_Tarboton(d,p);}); go("FA_Quinn",[](auto&d,auto&a){FA_Quinn(d,a);},[](auto&d,auto&p){FM_Quinn(d,p);}); go("FA_D4",[](auto&d,auto&a){FA_D4(d,a);},[](auto&d,auto&p){FM_D4(d,p);}); }
#else
static void run(uint64_t i){ auto b=make(i); begin(b); auto dem=rd<double>(b); const size_t n=b.z.size(); Array2D<uint8_t> fd; d8_flow_directions(dem,fd); trans(); std::vector<std::vector<std::pair<size_t,double>>> to(n);
  for(size_t c=0;c<n;c++){ int k=fd(c); int x=c%b.w,y=c/b.w; if(k>8){ say("d8",b,at(b,c)+" has no direction code"); return; } if(!edge(b,c)){ double low=b.z[c]; each(b,true,c,[&](size_t j){ low=std::min(low,b.z[j]); }); double z=k?b.z[(size_t)(y+oy8[k-1])*b.w+x+ox8[k-1]]:b.z[c]; if(z!=low){ say("d8",b,at(b,c)+" does not flow to its lowest neighbour"); return; } } if(k){ int X=x+ox8[k-1],Y=y+oy8[k-1]; if(X>=0&&Y>=0&&X<b.w&&Y<b.h) to[c].push_back({(size_t)Y*b.w+X,1}); } }
  auto e=sums(n,to); { Array2D<int32_t> a; d8_flow_accum(fd,a); close("d8 area i32",b,e,a,0); } { Array2D<double> a; d8_flow_accum(fd,a); close("d8 area f64",b,e,a,0); } { Array2D<uint32_t> a; d8_flow_accum(fd,a); close("d8 area u32",b,e,a,0); }
  { size_t best=0; for(size_t c=0;c<n;c++) if(e.size()&&e[c]>e[best]) best=c; Array2D<uint8_t> up; int x=best%b.w,y=best/b.w; d8_upslope_cells(x,y,x,y,fd,up); size_t m=0; for(size_t c=0;c<n;c++) m+=up(c)==1||up(c)==2; if(e.size()&&m!=(size_t)e[best]) say("d8 upslope",b,std::to_string(m)+" cells upslope, expected "+std::to_string((size_t)e[best])); }
  Array2D<float> an; dinf_flow_directions(dem,an); Array2D<double> ar; dinf_upslope_area(an,ar); trans(2); std::vector<std::vector<std::pair<size_t,double>>> tt(n); static const int ax[8]={1,1,0,-1,-1,-1,0,1}, ay[8]={0,-1,-1,-1,0,1,1,1};
  for(size_t c=0;c<n;c++){ double v=an(c); if(!(v>0)) continue; double t=v/(M_PI/4); int lo=(int)std::floor(t); double f=t-lo; if(f>1-2e-6){ lo++; f=0; } if(f<2e-6) f=0; auto add=[&](int q,double s){ q%=8; int X=(int)(c%b.w)+ax[q],Y=(int)(c/b.w)+ay[q]; if(s>0&&X>=0&&Y>=0&&X<b.w&&Y<b.h) tt[c].push_back({(size_t)Y*b.w+X,s}); }; add(lo,1-f); add(lo+1,f); }
  close("dinf area",b,sums(n,tt),ar,1e-2); }
#endif
#elif LARGE==10
static void run(uint64_t i){ auto b=make(i); begin(b); const size_t n=b.z.size(); if(b.pat==RAMPROW||b.pat==SNAKERAMP||slow(b,i)) return; 
  std::vector<int> k(n,0); std::vector<size_t> q; for(size_t c=0;c<n;c++) if(!edge(b,c)){ bool out=false; each(b,true,c,[&](size_t j){ out|=b.z[j]<b.z[c]; }); if(!out) k[c]=2; } for(size_t c=0;c<n;c++) if(k[c]==0) q.push_back(c); for(size_t a=0;a<q.size();a++) each(b,true,q[a],[&](size_t j){ if(k[j]==2&&b.z[j]==b.z[q[a]]){ k[j]=1; q.push_back(j); } });
  { auto d=rd<double>(b); Array2D<int8_t> fl; FindFlats(d,fl); for(size_t c=0;c<n;c++) if(fl(c)!=(k[c]?1:0)){ say("findflats",b,at(b,c)); break; } }
  { auto d=rd<double>(b); Array2D<int32_t> m,l; GetFlatMask(d,m,l); trans(); std::map<int,double> el; for(size_t c=0;c<n;c++){ bool bad=(k[c]==1&&(l(c)<1||m(c)<1))||(k[c]==2&&(l(c)!=0||m(c)!=0))||m(c)<0; if(l(c)>0){ auto it=el.emplace(l(c),b.z[c]).first; if(it->second!=b.z[c]) bad=true; } if(k[c]==1){ bool out=false; each(b,true,c,[&](size_t j){ if(b.z[j]==b.z[c]&&l(j)==l(c)&&(k[j]==0||m(j)<m(c))) out=true; if(b.z[j]==b.z[c]&&l(j)!=l(c)) bad=true; }); if(!out) bad=true; } if(bad){ say("mask",b,at(b,c)+" kind "+std::to_string(k[c])+" label "+std::to_string(l(c))+" increments "+std::to_string(m(c))); break; } } }
  { auto d=rd<double>(b); ResolveFlatsEpsilon(d); trans(); beat(); for(size_t c=0;c<n;c++){ if(d(c)<b.z[c]||d(c)>b.z[c]+0.5){ say("epsilon",b,at(b,c)+" level"); break; } if(k[c]==1){ bool out=false; each(b,true,c,[&](size_t j){ out|=d(j)<d(c); }); if(!out){ say("epsilon",b,at(b,c)+" has no lower neighbour"); break; } } if(k[c]==2&&d(c)!=b.z[c]){ say("epsilon",b,at(b,c)+" of an undrainable flat changed"); break; } } }
  for(int alter=0;alter<2;alter++){ auto d=rd<double>(b); Array2D<uint8_t> fd; barnes_flat_resolution_d8(d,fd,alter); trans(); beat(); std::vector<char> st(n,0); std::string bad; for(size_t s=0;s<n&&bad.empty();s++){ std::vector<size_t> p; size_t c=s; while(st[c]==0){ st[c]=1; p.push_back(c); int f=fd(c); if(f>8||(f==0&&k[c]!=2)){ bad=at(b,c)+" has no direction"; break; } if(f==0) break; int x=(int)(c%b.w)+ox8[f-1],y=(int)(c/b.w)+oy8[f-1]; if(x<0||y<0||x>=b.w||y>=b.h) break; size_t t=(size_t)y*b.w+x; if(k[c]==1&&b.z[t]!=b.z[c]){ bad=at(b,c)+" flows out of its flat other than through an outlet"; break; } c=t; if(st[c]==1){ bad="cycle through "+at(b,c); break; } } for(size_t c2:p) st[c2]=2; } if(!bad.empty()) say(alter?"d8alter":"d8",b,bad); } }
#elif LARGE==11
// an attribute depends on the 3x3 neighbourhood only: a crop gives the same values inside
static void run(uint64_t i){ auto b=make(i); begin(b); auto dem=rd<double>(b); auto go=[&](const char*nm,auto f){ Array2D<float> out; f(dem,out); trans(); const int C=40; for(int k=0;k<3;k++){ int x0=k==0?0:k==1?b.w/2:b.w-C,y0=k==0?0:k==1?b.h/2:b.h-C; x0=std::max(0,std::min(x0,b.w-C)); y0=std::max(0,std::min(y0,b.h-C)); int w=std::min(C,b.w),h=std::min(C,b.h); Array2D<double> c(w,h,0); c.setNoData(-1); c.geotransform=dem.geotransform; for(int y=0;y<h;y++) for(int x=0;x<w;x++) c(x,y)=dem(x0+x,y0+y); Array2D<float> o; f(c,o); for(int y=0;y<h;y++) for(int x=0;x<w;x++){ bool in=(x>0||x0==0)&&(y>0||y0==0)&&(x<w-1||x0+w==b.w)&&(y<h-1||y0+h==b.h); if(in){ float p=o(x,y),g=out(x0+x,y0+y); if(memcmp(&p,&g,4)&&!(p!=p&&g!=g)){ say(nm,b,"cell "+std::to_string(x0+x)+","+std::to_string(y0+y)+" is "+std::to_string(g)+", its neighbourhood gives "+std::to_string(p)); return; } } } } };
  go("slope",[](auto&d,auto&o){TA_slope_riserun(d,o,1.f);}); go("degrees",[](auto&d,auto&o){TA_slope_degrees(d,o,2.f);}); go("aspect",[](auto&d,auto&o){TA_aspect(d,o,1.f);}); go("curvature",[](auto&d,auto&o){TA_curvature(d,o,1.f);}); go("planform",[](auto&d,auto&o){TA_planform_curvature(d,o,1.f);}); go("profile",[](auto&d,auto&o){TA_profile_curvature(d,o,1.f);}); }
#endif
int main(int c,char**v){ suite("large",N,run); return mc::main(c,v); }
