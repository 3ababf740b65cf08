#include "../common/rd.hpp"
#include <richdem/depressions/depressions.hpp>
using namespace mc; using namespace richdem;

// codes: -1 NoData; 0..3 = four consecutive representable numbers; 4,5 = higher, far apart; m selects the magnitude
template<class T> T eval(int m,double c){
  if(c<0) return (T)-9999;
  T base= m==0?(T)1 : m==1?(T)-2 : m==2?(T)0 : (T)1000.25;
  if(c<=3){ for(int i=0;i<(int)c;i++) base=std::nextafter(base,std::numeric_limits<T>::infinity()); return base; }
  return base+(T)(c-3);
}
template<class T> int steps(T a,T b,int lim){ int n=0; while(a<b&&n<lim){ a=std::nextafter(a,std::numeric_limits<T>::infinity()); n++; } return n; }

template<class T,Topology topo> void run(const Grid&g,int m,bool via_generic){
  const bool d8=topo==Topology::D8; const std::string t=std::string(d8?"D8":"D4")+","+tname<T>(); const T nd=-9999;
  Array2D<T> dem(g.w,g.h,(T)0); dem.setNoData(nd);
  for(int y=0;y<g.h;y++) for(int x=0;x<g.w;x++) dem(x,y)=eval<T>(m,g.at(x,y));
  const auto in=vals(dem); 
  if(via_generic) FillDepressionsEpsilon<topo>(dem); else PriorityFloodEpsilon_Barnes2014<topo>(dem);
  trans();
  const auto got=vals(dem); const auto fill=ref_fill<T>(in,g.w,g.h,d8,true,nd); const auto top=ref_fill<T>(in,g.w,g.h,d8,false,nd);
  const int w=g.w,h=g.h; std::string bad;
  for(int y=0;y<h;y++) for(int x=0;x<w;x++){
    int i=y*w+x; bool edge=x==0||y==0||x==w-1||y==h-1;
    if(edge||in[i]==nd){ if(got[i]!=in[i]) bad="edge or NoData cell changed"; continue; }
    if(got[i]<in[i]) bad="cell lowered";
    if(got[i]<fill[i]) bad="cell below the filled surface";
    bool out=false; for(int k=0;k<nbrs(d8);k++){ int j=(y+dyo(d8,k))*w+x+dxo(d8,k); if(in[j]==nd||got[j]<got[i]) out=true; }
    if(!out) bad="cell "+std::to_string(x)+","+std::to_string(y)+" has no strictly lower neighbour";
    if(got[i]>in[i] && got[i]>top[i] && steps(top[i],got[i],w*h+1)>w*h) bad="cell raised more steps above the filled surface than there are cells";
    if(got[i]!=in[i]) nontrivial();
  }
  if(!bad.empty()) violation("eps:"+t,bad+"\n in "+show(in,w)+"\n fill "+show(fill,w)+"\n got "+show(got,w));
  outcome(hvec(got));
}
template<class T> void check(const Grid&g,int m){ states(); traces(); if(want_sample()&&g.w>4) sample(show(g.v,g.w));
  run<T,Topology::D8>(g,m,false); run<T,Topology::D4>(g,m,m&1); }
Grid bordered(uint64_t i,int w,int h,const std::vector<double>&a,double bv,double nv,int notches){
  Grid g; g.w=w; g.h=h; g.v.assign(w*h,bv); Dig d(i); int L=border_len(w,h);
  for(int k=0;k<notches;k++){ int x,y; border_cell(w,h,d(L),x,y); g.at(x,y)=nv; }
  for(int y=1;y<h-1;y++) for(int x=1;x<w-1;x++) g.at(x,y)=a[d(a.size())];
  return g;
}
uint64_t bordered_n(int w,int h,size_t k,int notches){ return ipow(border_len(w,h),notches)*ipow(k,(w-2)*(h-2)); }
template<class T> void typed(){
  const bool th=thorough(); std::string n=tname<T>();
  for(auto wh:std::vector<std::pair<int,int>>{{1,1},{1,3},{3,1},{2,2},{2,3},{1,5}}) suite("full"+std::to_string(wh.first)+"x"+std::to_string(wh.second)+n,full_size(wh.first,wh.second,4),[=](uint64_t i){check<T>(full_grid(i,wh.first,wh.second,{-1,0,1,4}),i%4);});
  for(int m=0;m<4;m++){
    suite("in4x4/"+n+std::to_string(m),bordered_n(4,4,5,1),[=](uint64_t i){ check<T>(bordered(i,4,4,{-1,0,1,2,4},4,0,1),m); });
    suite("full3x3/"+n+std::to_string(m),full_size(3,3,3),[=](uint64_t i){ check<T>(full_grid(i,3,3,{-1,0,1}),m); });
  }
  suite("in5x5/"+n,bordered_n(5,5,th?5:4,0),[=](uint64_t i){ check<T>(bordered(i,5,5,th?std::vector<double>{0,1,2,3,4}:std::vector<double>{0,1,2,4},4,0,0),i%4); });
  suite("in5x5low/"+n,bordered_n(5,5,3,th?2:1),[=](uint64_t i){ check<T>(bordered(i,5,5,{0,1,2},2,0,th?2:1),i%4); });
  suite("in5x5nd/"+n,bordered_n(5,5,3,1),[=](uint64_t i){ check<T>(bordered(i,5,5,{-1,0,1},1,-1,1),i%4); });
  suite("in6x5/"+n,bordered_n(6,5,th?3:2,1),[=](uint64_t i){ check<T>(bordered(i,6,5,th?std::vector<double>{0,1,4}:std::vector<double>{0,1},1,0,1),i%4); });
  for(int b=0;b<NBASE;b++) for(auto wh:std::vector<std::pair<int,int>>{{8,7},{12,5}}){ int w=wh.first,h=wh.second;
    suite("dev2-"+n+std::to_string(w)+std::to_string(b),dev_size(w,h,2,3),[=](uint64_t i){ check<T>(dev_grid(i,base_grid(b,w,h),2,{-1,0,7}),i%4); });
    if(th) suite("dev3-"+n+std::to_string(w)+std::to_string(b),dev_size(w,h,3,2),[=](uint64_t i){ check<T>(dev_grid(i,base_grid(b,w,h),3,{0,3}),i%4); });
  }
}
template<class I> void refuse(){
  suite(std::string("refuse/")+tname<I>(),64*2,[](uint64_t i){
    Grid g=full_grid(i/2,3,2,{0,1}); Array2D<I> d(3,2,(I)1); for(int k=0;k<6;k++) d(k%3,k/3)=(I)(1+g.v[k]); auto in=vals(d); bool threw=false; states(); trans(); traces();
    try{ if(i&1) PriorityFloodEpsilon_Barnes2014<Topology::D8>(d); else FillDepressionsEpsilon<Topology::D8>(d); }catch(const std::runtime_error&){threw=true;}
    if(!threw) violation(std::string("eps:integer-accepted:")+tname<I>(),"no error");
    if(vals(d)!=in) violation("eps:integer-changed","changed"); });
}
int main(int c,char**v){ typed<double>(); typed<float>(); 
refuse<int8_t>(); refuse<uint8_t>(); refuse<int16_t>(); refuse<uint16_t>(); refuse<int32_t>(); refuse<uint32_t>(); refuse<int64_t>(); refuse<uint64_t>();
  return mc::main(c,v); }
