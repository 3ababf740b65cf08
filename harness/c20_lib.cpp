// The multi-threaded routines, compiled with instrumentation; loaded by c20.cpp.
#include <richdem/richdem.hpp>
#include <richdem/common/Array2D.hpp>
#include <richdem/common/Array3D.hpp>
#include <richdem/depressions/depressions.hpp>
#include <richdem/depressions/depression_hierarchy.hpp>
#include <richdem/depressions/fill_spill_merge.hpp>
#include <richdem/flats/flats.hpp>
#include <richdem/flats/find_flats.hpp>
#include <richdem/flats/flat_resolution.hpp>
#include <richdem/flowmet/d8_flowdirs.hpp>
#include <richdem/flowmet/dinf_flowdirs.hpp>
#include <richdem/flats/flat_resolution_dinf.hpp>
#include <richdem/methods/d8_methods.hpp>
#include <richdem/methods/dinf_methods.hpp>
#include <richdem/methods/flow_accumulation.hpp>
#include <richdem/methods/terrain_attributes.hpp>
#include <richdem/misc/misc_methods.hpp>
#include "c20_spec.hpp"
#include <map>
using namespace richdem;
template<class A> static void dump(C20Out&o,const A&a){ o.v.push_back(a.width()); o.v.push_back(a.height()); o.v.push_back(a.noData()); for(unsigned i=0;i<a.size();i++) o.v.push_back(a(i)); }
template<class A> static void dump_labels(C20Out&o,const A&a){ std::map<long,int> m; o.v.push_back(a.width()); for(unsigned i=0;i<a.size();i++) o.v.push_back(m.emplace(a(i),m.size()).first->second); }
static void dump3(C20Out&o,const Array3D<float>&p){ for(int y=0;y<(int)p.height();y++) for(int x=0;x<(int)p.width();x++) for(int n=0;n<9;n++) o.v.push_back(p(x,y,n)); }
namespace dh=richdem::dephier;
template<class T> static void run(const C20In&in,C20Out&o){
  Array2D<T> z(in.w,in.h); z.setNoData((T)in.nd); for(unsigned i=0;i<z.size();i++) z(i)=(T)in.z[i]; z.geotransform={0,1,0,0,0,-1}; const Array2D<T>&cz=z;
  switch(in.routine){
    case 0: { Array2D<int8_t> f; FindFlats(cz,f); dump(o,f); break; }
    case 1: { Array2D<int32_t> m,l; GetFlatMask(cz,m,l); dump(o,m); dump_labels(o,l); break; }
    case 2: { PriorityFlood_Original<Topology::D8>(z); Array3D<float> p(z); FM_D8(z,p); ResolveFlatsEpsilon(z); dump(o,z); break; }
    case 3: { Array2D<d8_flowdir_t> f; d8_flow_directions(cz,f); dump(o,f); break; }
    case 4: { Array2D<d8_flowdir_t> f; PriorityFlood_Original<Topology::D8>(z); barnes_flat_resolution_d8(z,f,false); dump(o,f); Array2D<double> a; d8_flow_accum(f,a); dump(o,a); break; }
    case 5: { PriorityFlood_Original<Topology::D8>(z); Array2D<float> f; dinf_flow_directions(z,f); dump(o,f); break; }
    case 6: { Array2D<float> f; PriorityFlood_Original<Topology::D8>(z); dinf_flow_directions(z,f); resolve_flats_barnes_dinf(z,f); dump(o,f); break; }
    case 7: { Array2D<d8_flowdir_t> f(in.w,in.h,0); f.setNoData(FLOWDIR_NO_DATA); /* the values are directions */ for(unsigned i=0;i<f.size();i++) f(i)=(d8_flowdir_t)in.z[i]; Array2D<double> a; d8_flow_accum(f,a); dump(o,a); break; }
    case 8: { Array2D<float> f(in.w,in.h,0); f.setNoData(dinf_NO_DATA); for(unsigned i=0;i<f.size();i++) f(i)=(float)(in.z[i]*0.78539816339); Array2D<float> a; dinf_upslope_area(f,a); dump(o,a); break; }
    case 9: { Array2D<float> s; TA_slope_riserun(cz,s,1.0f); dump(o,s); TA_aspect(cz,s,1.0f); dump(o,s); TA_curvature(cz,s,1.0f); dump(o,s); TA_planform_curvature(cz,s,1.0f); dump(o,s); TA_profile_curvature(cz,s,1.0f); dump(o,s); TA_slope_degrees(cz,s,1.0f); dump(o,s); break; }
    case 10: { Array3D<float> p(z); FM_D8(cz,p); dump3(o,p); FM_D4(cz,p); dump3(o,p); break; }
    case 11: { Array3D<float> p(z); FM_Quinn(cz,p); dump3(o,p); FM_Freeman(cz,p,1.1); dump3(o,p); FM_Holmgren(cz,p,2.0); dump3(o,p); break; }
    case 12: { Array3D<float> p(z); FM_Tarboton(cz,p); dump3(o,p); FM_OCallaghan<Topology::D8>(cz,p); dump3(o,p); break; }
    case 13: { z.setEdges((T)0); Array2D<dh::dh_label_t> l(in.w,in.h,dh::NO_DEP); for(int y=0;y<in.h;y++) for(int x=0;x<in.w;x++) if(z.isEdgeCell(x,y)) l(x,y)=dh::OCEAN; Array2D<flowdir_t> f(in.w,in.h,NO_FLOW); auto d=dh::GetDepressionHierarchy<T,Topology::D8>(z,l,f); dump(o,l); dump(o,f); for(auto&x:d) for(double q:std::vector<double>{(double)x.pit_cell,(double)x.out_cell,(double)x.parent,(double)x.odep,(double)x.geolink,(double)x.pit_elev,(double)x.out_elev,(double)x.lchild,(double)x.rchild,(double)x.ocean_parent,(double)x.cell_count,x.dep_vol,x.total_elevation}) o.v.push_back(q);
      Array2D<double> w(in.w,in.h,1.0); dh::FillSpillMerge(z,l,f,d,w); dump(o,w); break; }
    case 14: { PriorityFlood_Zhou2016(z); dump(o,z); Array2D<double> acc(z,1.0); FA_Quinn(z,acc); dump(o,acc); break; }
    case 15: { o.v.push_back(Perimeter(cz,PerimType::CELL_COUNT)); o.v.push_back(Perimeter(cz,PerimType::SQUARE_EDGE)); double a=dem_surface_area(cz,1.0); float r=a; o.v.push_back(r); break; }
    case 16: { Array2D<int8_t> f; FindFlats(cz,f); Array3D<float> p(z); FM_D8(cz,p); Array2D<d8_flowdir_t> d; d8_flow_directions(cz,d); Array2D<int32_t> m,l; resolve_flats_barnes(cz,d,m,l); dump(o,m); dump_labels(o,l); d8_flow_flats(m,l,d); dump(o,d); break; }
  }
}
extern "C" void c20_run(const C20In*in,C20Out*o){ try{ switch(in->ty){ case 0: run<double>(*in,*o); break; case 1: run<float>(*in,*o); break; case 2: run<int>(*in,*o); break; } }catch(const std::exception&e){ o->err=e.what(); } }
