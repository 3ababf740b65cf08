// C27: every analysis routine on every small raster, under address checking and with the library's own index assertions armed.
// Each case is repeated with fresh memory holding other bytes and with output rasters that arrive in other shapes and with other
// contents: the results must agree, so nothing but the inputs decides them.
#include <cstddef>
#include <cstdlib>
#include <new>
static int g_poison=0;
void* operator new(std::size_t n){ void*p=std::malloc(n?n:1); if(!p) throw std::bad_alloc(); __builtin_memset(p,g_poison,n); return p; }
void* operator new[](std::size_t n){ return operator new(n); }
void operator delete(void*p) noexcept { std::free(p); }
void operator delete[](void*p) noexcept { std::free(p); }
void operator delete(void*p,std::size_t) noexcept { std::free(p); }
void operator delete[](void*p,std::size_t) noexcept { std::free(p); }
#include "../common/spaces.hpp"
#if PART==1
#include <richdem/depressions/depressions.hpp>
#include <richdem/depressions/fill_spill_merge.hpp>
#elif PART==2
#include <richdem/methods/flow_accumulation.hpp>
#include <richdem/flowmet/d8_flowdirs.hpp>
#include <richdem/flowmet/dinf_flowdirs.hpp>
#include <richdem/methods/d8_methods.hpp>
#include <richdem/methods/dinf_methods.hpp>
#else
#include <richdem/flats/flats.hpp>
#include <richdem/flats/find_flats.hpp>
#include <richdem/flats/flat_resolution.hpp>
#include <richdem/flats/flat_resolution_dinf.hpp>
#include <richdem/methods/terrain_attributes.hpp>
#include <richdem/misc/misc_methods.hpp>
#endif
using namespace mc; using namespace richdem;
namespace richdem { double uniform_rand_real(double from,double to){ return from+0.5*(to-from); } }
typedef std::vector<double> V;
static const double NDv=-9999;
template<class T> Array2D<T> mk(const Grid&g){ Array2D<T> a(g.w,g.h,(T)1); a.setNoData((T)NDv); a.geotransform={0,2,0,0,0,-2}; for(int y=0;y<g.h;y++)for(int x=0;x<g.w;x++) a(x,y)=g.at(x,y)<0?(T)NDv:(T)g.at(x,y); return a; }
// an output raster as a caller may hand it in; its NoData value is the caller's choice, so it stays
template<class U> Array2D<U> out(const Grid&g,int stale){ if(stale==0) return Array2D<U>(); Array2D<U> a(stale==1?2:g.w,stale==1?5:g.h,(U)7); return a; }
template<class A> void put(V&v,const A&a){ v.push_back(a.width()); v.push_back(a.height()); double nd=a.noData(); v.push_back(nd!=nd?1e301:nd); for(int y=0;y<(int)a.height();y++)for(int x=0;x<(int)a.width();x++){ double d=a(x,y); v.push_back(d!=d?1e301:d); } }
static void put3(V&v,const Array3D<float>&p){ for(int y=0;y<(int)p.height();y++)for(int x=0;x<(int)p.width();x++)for(int n=0;n<9;n++){ double d=p(x,y,n); v.push_back(d!=d?1e301:d); } }
struct R { std::string name; std::function<void(const Grid&,int,V&)> f; };
static std::vector<R> RS;
static void reg(const std::string&n,std::function<void(const Grid&,int,V&)> f){ RS.push_back({n,f}); }
#define TOPOS(name,T,CALL) reg(name "/D8/" #T,[](const Grid&g,int st,V&v){ constexpr Topology topo=Topology::D8; auto a=mk<T>(g); CALL; put(v,a); }); reg(name "/D4/" #T,[](const Grid&g,int st,V&v){ constexpr Topology topo=Topology::D4; auto a=mk<T>(g); CALL; put(v,a); })
#define ONE(name,T,CALL) reg(name "/" #T,[](const Grid&g,int st,V&v){ auto a=mk<T>(g); CALL; put(v,a); })
#if PART==1
using namespace richdem::dephier;
template<class T,Topology topo> void hier(const Grid&g,int st,V&v){
  auto dem=mk<T>(g); Array2D<dh_label_t> lab(g.w,g.h,NO_DEP); Array2D<flowdir_t> fd=out<flowdir_t>(g,st==1?2:st); if(st==0){ fd.resize(g.w,g.h,NO_FLOW); } fd.setAll(NO_FLOW); bool ocean=false;
  for(int y=0;y<g.h;y++)for(int x=0;x<g.w;x++) if(g.at(x,y)<=0&&(x==0||y==0||x==g.w-1||y==g.h-1||g.at(x,y)<0)){ lab(x,y)=OCEAN; ocean=true; }
  if(!ocean) lab(0,0)=OCEAN; bool land=false; for(unsigned i=0;i<lab.size();i++) land|=lab(i)!=OCEAN; if(!land) return;
  auto deps=GetDepressionHierarchy<T,topo>(dem,lab,fd); v.push_back(deps.size()); for(auto&d:deps) for(double q:{(double)d.pit_cell,(double)d.out_cell,(double)d.parent,(double)d.odep,(double)d.geolink,(double)d.lchild,(double)d.rchild,(double)d.cell_count,(double)d.dep_vol,(double)d.pit_elev,(double)d.out_elev,(double)d.total_elevation}) v.push_back(q!=q?1e301:q);
  put(v,lab); put(v,fd);
  if(topo==Topology::D8){ Array2D<double> wtd(g.w,g.h,0.0); for(unsigned i=0;i<wtd.size();i++) wtd(i)=i%3==0?1.0:i%3==1?-0.25:0.5; for(int k=0;k<2;k++){ FillSpillMerge<T,double>(dem,lab,fd,deps,wtd); put(v,wtd); } for(auto&d:deps) v.push_back(d.water_vol); }
}
static void registry(){
  #define FILLS(T) TOPOS("PriorityFlood_Original",T,PriorityFlood_Original<topo>(a)); TOPOS("PriorityFlood_Barnes2014",T,PriorityFlood_Barnes2014<topo>(a)); TOPOS("FillDepressions",T,FillDepressions<topo>(a)); TOPOS("max_dep",T,PriorityFlood_Barnes2014_max_dep<topo>(a,2)); TOPOS("HasDepressions",T,v.push_back(HasDepressions<topo>(a))); \
    TOPOS("pit_mask",T,auto o=out<uint8_t>(g,st); pit_mask<topo>(a,o); put(v,o)); TOPOS("Watersheds",T,auto o=out<int32_t>(g,st); PriorityFloodWatersheds_Barnes2014<topo>(a,o,false); put(v,o)); TOPOS("Watersheds+alter",T,auto o=out<int32_t>(g,st); PriorityFloodWatersheds_Barnes2014<topo>(a,o,true); put(v,o)); TOPOS("CompleteBreaching",T,CompleteBreaching_Lindsay2016<topo>(a)); \
    ONE("Zhou2016",T,PriorityFlood_Zhou2016(a)); ONE("Wei2018",T,PriorityFlood_Wei2018(a)); ONE("Flowdirs",T,auto o=out<d8_flowdir_t>(g,st); PriorityFloodFlowdirs_Barnes2014(a,o); put(v,o));
  FILLS(double) FILLS(int16_t)
  TOPOS("Epsilon",double,PriorityFloodEpsilon_Barnes2014<topo>(a)); TOPOS("Epsilon",float,PriorityFloodEpsilon_Barnes2014<topo>(a));
  for(int mode:{COMPLETE_BREACHING,SELECTIVE_BREACHING,CONSTRAINED_BREACHING}) for(int eps=0;eps<2;eps++) for(int fill=0;fill<2;fill++) reg("Lindsay2016/"+std::to_string(mode*4+eps*2+fill),[=](const Grid&g,int,V&v){ auto a=mk<double>(g); Lindsay2016<double>(a,mode,eps,fill,2,1.5); put(v,a); });
  reg("hierarchy/D8/double",hier<double,Topology::D8>); reg("hierarchy/D4/double",hier<double,Topology::D4>); reg("hierarchy/D8/float",hier<float,Topology::D8>);
}
#elif PART==2
static void registry(){
  #define FM(name,T,CALL) reg(name "/" #T,[](const Grid&g,int st,V&v){ auto a=mk<T>(g); Array3D<float> p(a); if(st) for(int y=0;y<g.h;y++)for(int x=0;x<g.w;x++)for(int n=0;n<9;n++) p(x,y,n)=7; CALL; put3(v,p); Array2D<double> acc(a,1); FlowAccumulation(p,acc); put(v,acc); });
  #define FMS(T) FM("Tarboton",T,FM_Tarboton(a,p)) FM("Dinfinity",T,FM_Dinfinity(a,p)) FM("Holmgren",T,FM_Holmgren(a,p,2.0)) FM("Freeman",T,FM_Freeman(a,p,1.1)) FM("Quinn",T,FM_Quinn(a,p)) FM("FairfieldD8",T,FM_FairfieldLeymarie<Topology::D8>(a,p)) FM("FairfieldD4",T,FM_FairfieldLeymarie<Topology::D4>(a,p)) FM("Rho8",T,FM_Rho8(a,p)) FM("Rho4",T,FM_Rho4(a,p)) FM("OCallaghanD8",T,FM_OCallaghan<Topology::D8>(a,p)) FM("OCallaghanD4",T,FM_OCallaghan<Topology::D4>(a,p)) FM("D8",T,FM_D8(a,p)) FM("D4",T,FM_D4(a,p))
  FMS(double) FMS(int16_t)
  #define FA(name,T,CALL) reg(name "/" #T,[](const Grid&g,int,V&v){ auto a=mk<T>(g); Array2D<double> acc(a,1); CALL; put(v,acc); });
  FA("FA_D8",double,FA_D8(a,acc)) FA("FA_Tarboton",double,FA_Tarboton(a,acc)) FA("FA_Quinn",float,FA_Quinn(a,acc)) FA("FA_Rho8",float,FA_Rho8(a,acc))
  #define DIRS(T) ONE("d8_flow_directions",T,auto o=out<uint8_t>(g,st); d8_flow_directions(a,o); put(v,o); auto ar=out<int32_t>(g,st); d8_flow_accum(o,ar); put(v,ar); auto ad=out<double>(g,st); d8_flow_accum(o,ad); put(v,ad)); \
    ONE("dinf_flow_directions",T,auto o=out<float>(g,st); dinf_flow_directions(a,o); put(v,o); auto ar=out<double>(g,st); dinf_upslope_area(o,ar); put(v,ar));
  DIRS(double) DIRS(int16_t)
  reg("d8_upslope_cells",[](const Grid&g,int st,V&v){ auto a=mk<double>(g); Array2D<uint8_t> fd; d8_flow_directions(a,fd); for(int k=0;k<4;k++){ int x0=k&1?g.w-1:0,y0=k&2?g.h-1:0,x1=g.w/2,y1=g.h/2; auto u=out<uint8_t>(g,st); d8_upslope_cells(x0,y0,x1,y1,fd,u); put(v,u); } });
  // any direction raster, cycles and ways off the raster included
  reg("d8_flow_accum/any",[](const Grid&g,int st,V&v){ Array2D<uint8_t> fd(g.w,g.h,(uint8_t)0); fd.setNoData(FLOWDIR_NO_DATA); for(int y=0;y<g.h;y++)for(int x=0;x<g.w;x++){ int q=(int)g.at(x,y); fd(x,y)=q<0?FLOWDIR_NO_DATA:(uint8_t)((q*(x+2*y+1)*3+y)%9); } auto ar=out<int32_t>(g,st); d8_flow_accum(fd,ar); put(v,ar); auto u=out<uint8_t>(g,st); d8_upslope_cells(0,0,0,0,fd,u); put(v,u); });
}
#else
static void registry(){
  #define FLATS(T) ONE("FindFlats",T,auto o=out<int8_t>(g,st); FindFlats(a,o); put(v,o)); ONE("GetFlatMask",T,auto m=out<int32_t>(g,st); auto l=out<int32_t>(g,st); GetFlatMask(a,m,l); put(v,m); put(v,l)); ONE("resolve_flats_barnes",T,Array2D<uint8_t> fd; d8_flow_directions(a,fd); auto m=out<int32_t>(g,st); auto l=out<int32_t>(g,st); resolve_flats_barnes(a,fd,m,l); put(v,m); put(v,l); d8_flow_flats(m,l,fd); put(v,fd)); \
    ONE("resolve_flats_barnes_dinf",T,auto o=out<float>(g,st); resolve_flats_barnes_dinf(a,o); put(v,o)); ONE("barnes_flat_resolution_d8",T,auto o=out<uint8_t>(g,st); barnes_flat_resolution_d8(a,o,false); put(v,o));
  FLATS(double) FLATS(int16_t)
  ONE("barnes_flat_resolution_d8+alter",double,auto o=out<uint8_t>(g,st); barnes_flat_resolution_d8(a,o,true); put(v,o)); ONE("ResolveFlatsEpsilon",double,ResolveFlatsEpsilon(a)); ONE("ResolveFlatsEpsilon",float,ResolveFlatsEpsilon(a));
  #define TA(name,T) ONE(#name,T,auto o=out<float>(g,st); name(a,o,1.5f); put(v,o));
  #define TAS(T) TA(TA_slope_riserun,T) TA(TA_slope_percentage,T) TA(TA_slope_degrees,T) TA(TA_slope_radians,T) TA(TA_aspect,T) TA(TA_curvature,T) TA(TA_planform_curvature,T) TA(TA_profile_curvature,T)
  TAS(double) TAS(int16_t)
  ONE("TA_SPI",double,auto s=mk<float>(g); auto o=out<float>(g,st); TA_SPI(a,s,o); put(v,o)); ONE("TA_CTI",double,auto s=mk<float>(g); auto o=out<float>(g,st); TA_CTI(a,s,o); put(v,o));
  ONE("dem_surface_area",double,v.push_back(dem_surface_area(a,1.0)));
  for(int k=0;k<2;k++) reg("Perimeter/"+std::to_string(k),[=](const Grid&g,int,V&v){ auto a=mk<double>(g); v.push_back(Perimeter(a,k==0?PerimType::CELL_COUNT:PerimType::SQUARE_EDGE)); });
  TOPOS("BucketFillFromEdges",double,Array2D<uint8_t> o(g.w,g.h,(uint8_t)0); BucketFillFromEdges<topo>(a,o,1.0,(uint8_t)3); put(v,o));
}
#endif
static V run1(const R&r,const Grid&g,int poison,int stale){ V v; v.reserve(64); g_poison=poison; beat(); try{ r.f(g,stale,v); }catch(const std::exception&e){ v.push_back(-1e300); } g_poison=0; trans(); return v; }
static std::string gs(const Grid&g){ return std::to_string(g.w)+"x"+std::to_string(g.h)+": "+show(g.v,g.w); }
static void one(const Grid&g,uint64_t){
  states(); bool any=false; uint64_t h=0;
  for(auto&r:RS){ V a=run1(r,g,0,0),b=run1(r,g,0xff,1),c=run1(r,g,0x01,2); traces(); for(double d:a) h=mix(h,hbits(d)); if(a.size()>2) any=true;
    if(a!=b||a!=c) violation("memory:"+r.name,r.name+" gives different results when its output raster or fresh memory held something else\n in  "+gs(g)+"\n one "+show(a,16)+"\n two "+show(b,16)+"\n three "+show(c,16)); }
  if(any&&g.v.size()>1) nontrivial(); outcome(h); if(want_sample()&&g.v.size()>5) sample(gs(g));
}
// what another routine did before makes no difference
static void pairs(uint64_t i){
  Dig d(i); size_t p=d(RS.size()),q=d(RS.size()); states(); nontrivial();
  for(int k=0;k<3;k++){ Grid A=base_grid(k==0?BOWL:k==1?SPIRAL:FLAT,5,4),B=base_grid(k==0?SPIRAL:k==1?STRIPES:CHECK,4,5); if(k==1) B.at(1,2)=-1; V a=run1(RS[q],B,0,0); run1(RS[p],A,0,0); V b=run1(RS[q],B,0,0); traces(); if(a!=b) violation("history:"+RS[q].name,RS[q].name+" gives something else after "+RS[p].name+" has run"); outcome(mix(i,a.size())); }
}
int main(int c,char**v){
  registry(); const bool th=thorough(); typedef std::vector<double> A;
  for(auto s:std::vector<std::pair<int,int>>{{1,1},{1,2},{2,1},{1,3},{3,1},{2,2}}) suite("full"+wh(s.first,s.second),full_size(s.first,s.second,4),[=](uint64_t i){ one(full_grid(i,s.first,s.second,A{-1,0,1,2}),i); });
  for(auto s:std::vector<std::pair<int,int>>{{1,5},{5,1},{2,3},{3,2}}) suite("full"+wh(s.first,s.second),full_size(s.first,s.second,3),[=](uint64_t i){ one(full_grid(i,s.first,s.second,A{-1,0,1}),i); });
  if(th) suite("full3x3",full_size(3,3,3),[=](uint64_t i){ one(full_grid(i,3,3,A{-1,0,1}),i); });
  else for(double q:{-1.0,0.0}) suite("full3x3/"+std::to_string((int)q),full_size(3,3,2),[=](uint64_t i){ one(full_grid(i,3,3,A{q,1}),i); });
  for(double q:{-1.0,3.0}) suite("dev2-3x3/"+std::to_string((int)q),dev_size(3,3,2,3),[=](uint64_t i){ Grid g=base_grid(SPIRAL,3,3); one(dev_grid(i,g,2,A{q,-1,0}),i); });
  suite("in4x4",bordered_n(4,4,4,1),[=](uint64_t i){ one(bordered(i,4,4,A{-1,0,1,2},2,0,1),i); });
  suite("in4x3",bordered_n(4,3,4,1),[=](uint64_t i){ one(bordered(i,4,3,A{-1,0,1,2},2,-1,1),i); });
  suite("in5x5",bordered_n(5,5,2,0),[=](uint64_t i){ one(bordered(i,5,5,A{0,2},1,0,0),i); });
  if(th){ suite("full4x3",full_size(4,3,2),[=](uint64_t i){ one(full_grid(i,4,3,A{0,1}),i); }); suite("in5x5n",bordered_n(5,5,2,1),[=](uint64_t i){ one(bordered(i,5,5,A{0,1},2,-1,1),i); }); }
  for(int b=0;b<NBASE;b++) for(auto s:std::vector<std::pair<int,int>>{{6,5},{9,3},{4,7}}) suite("dev1-"+wh(s.first,s.second)+"/"+std::to_string(b),dev_size(s.first,s.second,1,2),[=](uint64_t i){ one(dev_grid(i,base_grid(b,s.first,s.second),1,A{-1,0}),i); });
  suite("pairs",(uint64_t)RS.size()*RS.size(),pairs);
  return mc::main(c,v);
}
