// Runs a parallel program's main() on every rank under the exploring MPI and
// collects its output tiles.
#pragma once
#include "../common/mpi_sched.hpp"
#include "../common/spaces.hpp"
#include <gdal_priv.h>
#include <cpl_vsi.h>
#include <cpl_conv.h>
#include <sys/stat.h>
namespace mc {
inline std::string shard_dir(){ static std::string d=getenv("MC_SHARD_DIR")?getenv("MC_SHARD_DIR"):"/tmp"; return d; }
struct Tiling { int gx,gy,w,h; unsigned nulls=0; int orient=0; bool flipH=false,flipV=false; bool null(int tx,int ty)const{ return nulls>>(ty*gx+tx)&1; } bool fh()const{ return bool(orient&2)!=flipH; } bool fv()const{ return bool(orient&1)!=flipV; } int W()const{return gx*w;} int H()const{return gy*h;} };
static const double PGT[4][6]={{10,2,0,100,0,-2},{10,2,0,100,0,2},{10,-2,0,100,0,-2},{10,-2,0,100,0,2}};
template<class T> GDALDataType gtype(){ return std::is_same<T,uint8_t>::value?GDT_Byte:std::is_same<T,uint16_t>::value?GDT_UInt16:std::is_same<T,int16_t>::value?GDT_Int16:std::is_same<T,uint32_t>::value?GDT_UInt32:std::is_same<T,int32_t>::value?GDT_Int32:std::is_same<T,float>::value?GDT_Float32:GDT_Float64; }
inline GDALDriver*tif(){ static GDALDriver*d=GetGDALDriverManager()->GetDriverByName("GTiff"); return d; }
template<class T> void put(const std::string&n,int w,int h,const std::vector<T>&v,double nd,const double*gt){ char**o=nullptr; GDALDataset*ds=tif()->Create(n.c_str(),w,h,1,gtype<T>(),o); if(!ds) abort(); double g[6]; memcpy(g,gt,sizeof g); ds->SetGeoTransform(g); ds->GetRasterBand(1)->SetNoDataValue(nd); if(ds->GetRasterBand(1)->RasterIO(GF_Write,0,0,w,h,(void*)v.data(),w,h,gtype<T>(),0,0)!=CE_None) abort(); GDALClose(ds); }
struct Got { int w=0,h=0; GDALDataType t=GDT_Unknown; std::vector<double> v; double nd=0; std::vector<double> gt; bool ok=false; };
inline Got get(const std::string&n){ Got g; GDALDataset*ds=(GDALDataset*)GDALOpen(n.c_str(),GA_ReadOnly); if(!ds) return g; auto*b=ds->GetRasterBand(1); g.w=b->GetXSize(); g.h=b->GetYSize(); g.t=b->GetRasterDataType(); g.v.resize((size_t)g.w*g.h); g.gt.resize(6); ds->GetGeoTransform(g.gt.data()); g.nd=b->GetNoDataValue(); g.ok=b->RasterIO(GF_Read,0,0,g.w,g.h,g.v.data(),g.w,g.h,GDT_Float64,0,0)==CE_None; GDALClose(ds); return g; }
// layout text for a tiling whose tiles are called t<x>_<y>.tif
inline std::string layout(const Tiling&t){ std::string s; for(int y=0;y<t.gy;y++){ for(int x=0;x<t.gx;x++){ if(x) s+=","; if(!t.null(x,y)) s+="t"+std::to_string(x)+"_"+std::to_string(y)+".tif"; } s+="\n"; } return s; }
inline std::string slurp(const std::string&p){ std::string s; FILE*f=fopen(p.c_str(),"rb"); if(!f) return "<absent>"; char b[512]; size_t n; while((n=fread(b,1,sizeof b,f))>0) s.append(b,n); fclose(f); return s; }
inline std::string&last_layout(){ static std::string l; return l; }
// writes the tiles of logical grid v (row-major W x H)
template<class T> void put_tiles(const Tiling&t,const std::vector<T>&v,double nd){
  for(int ty=0;ty<t.gy;ty++) for(int tx=0;tx<t.gx;tx++) if(!t.null(tx,ty)){ std::vector<T> a(t.w*t.h); for(int y=0;y<t.h;y++) for(int x=0;x<t.w;x++) a[(t.fv()?t.h-1-y:y)*t.w+(t.fh()?t.w-1-x:x)]=v[(ty*t.h+y)*t.W()+tx*t.w+x]; double g[6]; memcpy(g,PGT[t.orient],sizeof g); g[0]+=tx*t.w*g[1]; g[3]+=ty*t.h*g[5]; put<T>("/vsimem/t"+std::to_string(tx)+"_"+std::to_string(ty)+".tif",t.w,t.h,a,nd,g); }
  auto&last=last_layout(); std::string l=layout(t); if(l!=last){ FILE*f=fopen((shard_dir()+"/vsimem/in.layout").c_str(),"w"); if(!f) abort(); fputs(l.c_str(),f); fclose(f); last=l; }
}
struct Args { std::vector<std::string> a; };
typedef int(*PEntry)(int,char**);
inline void prun_rank(const std::string&so,const Args&args,int rank){ std::vector<std::string> a=args.a; std::vector<char*> v; for(auto&s:a) v.push_back(&s[0]); v.push_back(nullptr); int rc=((PEntry)mpx::copy_of(so,rank,"prank_entry"))(a.size(),v.data()); if(rc) throw std::runtime_error("exit status "+std::to_string(rc)); }
}
// Text files named /vsimem/... (layout files go through fstream, not GDAL) are kept in the shard's directory.
extern "C" FILE*__real_fopen(const char*,const char*);
static FILE* mc_fopen(const char*name,const char*p,const char*m){ typedef FILE*(*F)(const char*,const char*); F f=(F)dlsym(RTLD_NEXT,name); std::string s=p; if(s.compare(0,8,"/vsimem/")==0) s=mc::shard_dir()+s; return f(s.c_str(),m); }
extern "C" FILE*fopen(const char*p,const char*m){ return mc_fopen("fopen",p,m); }
extern "C" FILE*fopen64(const char*p,const char*m){ return mc_fopen("fopen64",p,m); }
