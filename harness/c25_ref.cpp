// The routines the Python interface names, called directly on plain buffers.
#include <richdem/depressions/depressions.hpp>
#include <richdem/depressions/depression_hierarchy.hpp>
#include <richdem/depressions/fill_spill_merge.hpp>
#include <richdem/flats/flats.hpp>
#include <richdem/methods/flow_accumulation.hpp>
#include <richdem/methods/terrain_attributes.hpp>
#include <richdem/terrain_generation.hpp>
#include <cstring>
using namespace richdem;

template<class T> static Array2D<T> from(const void*p,int w,int h,const void*nd,const double*gt){
  Array2D<T> a(w,h); const T*q=(const T*)p; for(unsigned i=0;i<a.size();i++) a(i)=q[i];
  T n; memcpy(&n,nd,sizeof n); a.setNoData(n);
  a.geotransform.assign(gt,gt+6); return a;
}
template<class T> static void to(const Array2D<T>&a,void*p){ T*q=(T*)p; for(unsigned i=0;i<a.size();i++) q[i]=a(i); }

template<class T> static bool metric(const std::string&m,const Array2D<T>&d,Array3D<float>&p,double x){
  if(m=="Tarboton"||m=="Dinf") FM_Tarboton(d,p);
  else if(m=="Quinn") FM_Quinn(d,p);
  else if(m=="Freeman") FM_Freeman(d,p,x);
  else if(m=="Holmgren") FM_Holmgren(d,p,x);
  else if(m=="FairfieldLeymarieD8") FM_FairfieldLeymarie<Topology::D8>(d,p);
  else if(m=="FairfieldLeymarieD4") FM_FairfieldLeymarie<Topology::D4>(d,p);
  else if(m=="Rho8") FM_FairfieldLeymarie<Topology::D8>(d,p);
  else if(m=="Rho4") FM_FairfieldLeymarie<Topology::D4>(d,p);
  else if(m=="OCallaghanD8"||m=="D8") FM_OCallaghan<Topology::D8>(d,p);
  else if(m=="OCallaghanD4"||m=="D4") FM_OCallaghan<Topology::D4>(d,p);
  else return false;
  return true;
}
template<class T> static int run(const std::string&op,const void*a,int w,int h,const void*nd,const double*gt,double x,void*out){
  auto d=from<T>(a,w,h,nd,gt);
  if(op=="fill8") PriorityFlood_Original<Topology::D8>(d);
  else if(op=="fill4") PriorityFlood_Original<Topology::D4>(d);
  else if(op=="eps8") PriorityFloodEpsilon_Barnes2014<Topology::D8>(d);
  else if(op=="eps4") PriorityFloodEpsilon_Barnes2014<Topology::D4>(d);
  else if(op=="breach8") BreachDepressions<Topology::D8>(d);
  else if(op=="breach4") BreachDepressions<Topology::D4>(d);
  else if(op=="flats") ResolveFlatsEpsilon(d);
  else if(op.compare(0,3,"FM_")==0){
    Array3D<float> p(d); if(!metric(op.substr(3),d,p,x)) return 1;
    float*q=(float*)out; for(int y=0;y<h;y++)for(int X=0;X<w;X++)for(int n=0;n<9;n++) *q++=p(X,y,n);
    return 0;
  } else if(op.compare(0,3,"FA_")==0){
    Array3D<float> p(d); if(!metric(op.substr(3),d,p,x)) return 1;
    Array2D<double> acc(w,h); double*q=(double*)out; for(unsigned i=0;i<acc.size();i++) acc(i)=q[i];
    acc.setNoData(-1); FlowAccumulation(p,acc); to(acc,out); return 0;
  } else if(op.compare(0,3,"TA_")==0){
    Array2D<float> r; r.setNoData(-9999); const std::string t=op.substr(3);
    if(t=="slope_riserun") TA_slope_riserun(d,r,x);
    else if(t=="slope_percentage") TA_slope_percentage(d,r,x);
    else if(t=="slope_degrees") TA_slope_degrees(d,r,x);
    else if(t=="slope_radians") TA_slope_radians(d,r,x);
    else if(t=="aspect") TA_aspect(d,r,x);
    else if(t=="curvature") TA_curvature(d,r,x);
    else if(t=="planform_curvature") TA_planform_curvature(d,r,x);
    else if(t=="profile_curvature") TA_profile_curvature(d,r,x);
    else return 1;
    to(r,out); return 0;
  } else return 1;
  to(d,out); return 0;
}
extern "C" int ref(const char*op,int type,const void*a,int w,int h,const void*nd,const double*gt,double x,void*out){
  try{ switch(type){
    case 0: return run<int8_t>(op,a,w,h,nd,gt,x,out); case 1: return run<int16_t>(op,a,w,h,nd,gt,x,out);
    case 2: return run<int32_t>(op,a,w,h,nd,gt,x,out); case 3: return run<int64_t>(op,a,w,h,nd,gt,x,out);
    case 4: return run<uint8_t>(op,a,w,h,nd,gt,x,out); case 5: return run<uint16_t>(op,a,w,h,nd,gt,x,out);
    case 6: return run<uint32_t>(op,a,w,h,nd,gt,x,out); case 7: return run<uint64_t>(op,a,w,h,nd,gt,x,out);
    case 8: return run<float>(op,a,w,h,nd,gt,x,out); case 9: return run<double>(op,a,w,h,nd,gt,x,out);
  } }catch(const std::exception&){ return 2; }
  return 1;
}
extern "C" int ref_props(const float*p,int w,int h,double*acc){
  Array3D<float> q(w,h); for(int y=0;y<h;y++)for(int x=0;x<w;x++)for(int n=0;n<9;n++) q(x,y,n)=*p++;
  q.setNoData(NO_DATA_GEN);
  Array2D<double> a(w,h); for(unsigned i=0;i<a.size();i++) a(i)=acc[i];
  FlowAccumulation(q,a); to(a,acc); return 0;
}
extern "C" void ref_perlin(int size,unsigned seed,double*out){ Array2D<double> a(size,size); generate_perlin_terrain(a,seed); to(a,out); }
// deps: rows of 14 numbers per depression
extern "C" int ref_dh(const double*dem,int w,int h,uint32_t*labels,int8_t*fd,double*wtd,int fsm,double*deps,int maxdeps){
  const double gt[6]={0,1,0,0,0,-1}; const double nd=-9999; const uint32_t n32=0xffffd8f1u; const int8_t n8=-1;
  try{
    auto d=from<double>(dem,w,h,&nd,gt); auto l=from<uint32_t>(labels,w,h,&n32,gt); Array2D<flowdir_t> f(w,h,NO_FLOW); f.setNoData(n8); f.geotransform=d.geotransform;
    auto wt=from<double>(wtd,w,h,&nd,gt);
    auto dh=dephier::GetDepressionHierarchy<double,Topology::D8>(d,l,f);
    for(int k=0;k<fsm;k++) dephier::FillSpillMerge<double,double>(d,l,f,dh,wt);
    to(l,labels); to(f,fd); to(wt,wtd);
    if((int)dh.size()>maxdeps) return -2;
    for(auto&e:dh){ const double r[]={(double)e.pit_cell,(double)e.out_cell,(double)e.parent,(double)e.odep,(double)e.geolink,e.pit_elev,e.out_elev,(double)e.lchild,(double)e.rchild,(double)e.ocean_parent,(double)e.dep_label,(double)e.cell_count,e.dep_vol,e.water_vol,e.total_elevation,(double)e.ocean_linked.size()}; memcpy(deps,r,sizeof r); deps+=16; }
    return dh.size();
  }catch(const std::exception&){ return -1; }
}
