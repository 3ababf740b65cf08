// Standard families of terrains, shared by the sequential harnesses.
#pragma once
#include "rd.hpp"
namespace mc {
inline Grid bordered(uint64_t i,int w,int h,const std::vector<double>&a,double bv,double nv,int notches){
  Grid g; g.w=w; g.h=h; g.v.assign(w*h,bv); Dig d(i); int L=border_len(w,h);
  for(int k=0;k<notches;k++){ int x,y; border_cell(w,h,d(L),x,y); g.at(x,y)=nv; }
  for(int y=1;y<h-1;y++) for(int x=1;x<w-1;x++) g.at(x,y)=a[d(a.size())];
  return g;
}
inline uint64_t bordered_n(int w,int h,size_t k,int notches){ return ipow(border_len(w,h),notches)*ipow(k,(w-2)*(h-2)); }
using Check=std::function<void(const Grid&,uint64_t)>;   // grid, case index
inline std::string wh(int w,int h){ return std::to_string(w)+"x"+std::to_string(h); }

// size: -1 minimal, 0 small, 1 medium, 2 large
inline void terrain_suites(const std::string&pre,Check f,int size,bool nd=true){
  std::vector<double> A0=nd?std::vector<double>{-1,0,1,2}:std::vector<double>{0,1,2,3}, A1=nd?std::vector<double>{-1,0,1}:std::vector<double>{0,1,2};
  for(auto s:std::vector<std::pair<int,int>>{{1,1},{1,2},{2,1},{1,4},{4,1},{2,2},{2,3},{3,2}})
    suite(pre+"full"+wh(s.first,s.second),full_size(s.first,s.second,4),[=](uint64_t i){ f(full_grid(i,s.first,s.second,A0),i); });
  if(nd) suite(pre+"full3x3",full_size(3,3,size>1?4:3),[=](uint64_t i){ f(full_grid(i,3,3,size>1?A0:A1),i); });
  if(size>=0) suite(pre+"full3x3b",full_size(3,3,3),[=](uint64_t i){ f(full_grid(i,3,3,{0,1,2}),i); });
  suite(pre+"full4x3",full_size(4,3,size>1?3:2),[=](uint64_t i){ f(full_grid(i,4,3,size>1?A1:std::vector<double>{0,1}),i); });
  if(size>0) suite(pre+"full4x4",full_size(4,4,2),[=](uint64_t i){ f(full_grid(i,4,4,{0,1}),i); });
  suite(pre+"in4x4",bordered_n(4,4,4,1),[=](uint64_t i){ f(bordered(i,4,4,A0,2,0,1),i); });
  if(size>=0) suite(pre+"in4x4n2",bordered_n(4,4,3,2),[=](uint64_t i){ f(bordered(i,4,4,{0,1,2},2,0,2),i); });
  if(nd&&size>=0) suite(pre+"in4x4nd",bordered_n(4,4,4,1),[=](uint64_t i){ f(bordered(i,4,4,A0,2,-1,1),i); });
  if(size>=0) suite(pre+"in5x5",bordered_n(5,5,size>0?4:3,0),[=](uint64_t i){ f(bordered(i,5,5,size>0?std::vector<double>{0,1,2,3}:std::vector<double>{0,1,2},3,0,0),i); });
  if(size>=0) suite(pre+"in5x5n",bordered_n(5,5,size>0?3:2,size>1?2:1),[=](uint64_t i){ f(bordered(i,5,5,size>0?std::vector<double>{0,1,2}:std::vector<double>{0,1},2,0,size>1?2:1),i); });
  if(size>=0) suite(pre+"in5x5hi",bordered_n(5,5,3,size>0?1:0),[=](uint64_t i){ f(bordered(i,5,5,{1,2,3},1,0,size>0?1:0),i); });
  if(nd&&size>=0) suite(pre+"in5x5nd",bordered_n(5,5,3,size>1?1:0),[=](uint64_t i){ f(bordered(i,5,5,{-1,0,1},1,-1,size>1?1:0),i); });
  suite(pre+"in6x5",bordered_n(6,5,size>1?3:2,size>0?1:0),[=](uint64_t i){ f(bordered(i,6,5,size>1?std::vector<double>{0,1,2}:std::vector<double>{0,1},2,0,size>0?1:0),i); });
  if(size>1) suite(pre+"in6x6",bordered_n(6,6,2,1),[=](uint64_t i){ f(bordered(i,6,6,{0,1},2,0,1),i); });
  for(int b=0;b<NBASE;b++) for(auto s:std::vector<std::pair<int,int>>{{8,7},{12,5},{5,11}}){
    int w=s.first,h=s.second; std::string nm=pre+wh(w,h)+"/"+std::to_string(b); std::vector<double> A=nd?std::vector<double>{-1,0,2,7}:std::vector<double>{0,2,7};
    suite("dev1-"+nm,dev_size(w,h,1,A.size()),[=](uint64_t i){ f(dev_grid(i,base_grid(b,w,h),1,A),i); });
    if(size>0||(size==0&&w==8)) { auto B=size>0?A:std::vector<double>{nd?-1.:2.,0.}; suite("dev2-"+nm,dev_size(w,h,2,B.size()),[=](uint64_t i){ f(dev_grid(i,base_grid(b,w,h),2,B),i); }); }
    if(size>1) suite("dev3-"+nm,dev_size(w,h,3,2),[=](uint64_t i){ f(dev_grid(i,base_grid(b,w,h),3,{0,7}),i); });
  }
}
}
