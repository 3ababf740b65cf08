// Helpers binding abstract small-alphabet grids to real richdem rasters.
#pragma once
#include "mc.hpp"
#include <richdem/common/Array2D.hpp>
#include <limits>
#include <type_traits>

namespace mc {

// Abstract cell codes: -1 is NoData, 0,1,2,... are elevations in ascending order.
// A "map" says which concrete values of T the codes stand for.
enum MapKind { MID, HIGH, LOW, FRAC, NMAP };

template<class T> T nodata_of(){
  if(std::is_floating_point<T>::value) return (T)-9999;
  if(std::is_signed<T>::value) return sizeof(T)>1?(T)-9999:std::numeric_limits<T>::min();
  return 0;
}
template<class T> T value_of(int m,double c){
  if(c<0) return nodata_of<T>();
  switch(m){
    case MID: return (T)(c+1);
    case HIGH: return std::is_floating_point<T>::value ? (T)(1e6+c) : (T)(std::numeric_limits<T>::max()-(T)(15-(int)c));
    case LOW: return std::is_signed<T>::value ? (T)(c-3) : (T)(c+1);
    default: return std::is_floating_point<T>::value ? (T)(0.1*c+0.05) : (T)(3*c+1);
  }
}
template<class T> richdem::Array2D<T> to_rd(const Grid&g,int m){
  richdem::Array2D<T> a(g.w,g.h,(T)1);
  a.setNoData(nodata_of<T>());
  for(int y=0;y<g.h;y++) for(int x=0;x<g.w;x++) a(x,y)=value_of<T>(m,g.at(x,y));
  return a;
}
template<class T> std::vector<T> vals(const richdem::Array2D<T>&a){
  std::vector<T> v; v.reserve((size_t)a.width()*a.height());
  for(int y=0;y<(int)a.height();y++) for(int x=0;x<(int)a.width();x++) v.push_back(a(x,y));
  return v;
}
template<class T> const char* tname();
template<> inline const char* tname<double>(){return "double";}
template<> inline const char* tname<float>(){return "float";}
template<> inline const char* tname<int8_t>(){return "int8";}
template<> inline const char* tname<uint8_t>(){return "uint8";}
template<> inline const char* tname<int16_t>(){return "int16";}
template<> inline const char* tname<uint16_t>(){return "uint16";}
template<> inline const char* tname<int32_t>(){return "int32";}
template<> inline const char* tname<uint32_t>(){return "uint32";}
template<> inline const char* tname<int64_t>(){return "int64";}
template<> inline const char* tname<uint64_t>(){return "uint64";}

// D8 and D4 offsets written out independently of the library: W,NW,N,NE,E,SE,S,SW
static const int ox8[8]={-1,-1,0,1,1,1,0,-1}, oy8[8]={0,-1,-1,-1,0,1,1,1};
static const int ox4[4]={-1,0,1,0}, oy4[4]={0,-1,0,1};
inline int nbrs(bool d8){return d8?8:4;}
inline int dxo(bool d8,int i){return d8?ox8[i]:ox4[i];}
inline int dyo(bool d8,int i){return d8?oy8[i]:oy4[i];}

// Reference flood surface: least fixpoint by plain iteration.
//  outlets_at_nodata: NoData cells act as outlets and are left out of the surface.
template<class T> std::vector<T> ref_fill(const std::vector<T>&e,int w,int h,bool d8,bool outlets_at_nodata,T nd){
  const T INF=std::numeric_limits<T>::max();
  std::vector<T> f(e.size(),INF); std::vector<char> known(e.size(),0);
  auto isnd=[&](int i){return outlets_at_nodata && e[i]==nd;};
  for(int y=0;y<h;y++) for(int x=0;x<w;x++){
    int i=y*w+x; bool seed=x==0||y==0||x==w-1||y==h-1;
    if(outlets_at_nodata && !seed) for(int k=0;k<nbrs(d8);k++){ int j=(y+dyo(d8,k))*w+x+dxo(d8,k); if(isnd(j)) seed=true; }
    if(seed||isnd(i)){ f[i]=e[i]; known[i]=1; }
  }
  bool ch=true;
  while(ch){ ch=false;
    for(int y=0;y<h;y++) for(int x=0;x<w;x++){
      int i=y*w+x; if(x==0||y==0||x==w-1||y==h-1||isnd(i)) continue;
      bool have=known[i]; T best=f[i];
      for(int k=0;k<nbrs(d8);k++){ int j=(y+dyo(d8,k))*w+x+dxo(d8,k); if(!known[j]||isnd(j)) continue; T c=std::max(e[i],f[j]); if(!have||c<best){best=c;have=true;} }
      if(have && (!known[i]||best<f[i])){ f[i]=best; known[i]=1; ch=true; }
    }
  }
  return f;
}
template<class T> uint64_t hvec(const std::vector<T>&v,uint64_t h=1469598103934665603ULL){ for(auto&x:v) h=mix(h,hbits((double)x)); return h; }

// Border patterns: a constant border with up to two notches
inline uint64_t border_len(int w,int h){ return 2*w+2*h-4; }
inline void border_cell(int w,int h,int k,int&x,int&y){
  if(k<w){x=k;y=0;return;} k-=w; if(k<h-1){x=w-1;y=1+k;return;} k-=h-1; if(k<w-1){x=w-2-k;y=h-1;return;} k-=w-1; x=0;y=h-2-k;
}
}
