#include "../common/rd.hpp"
#include <richdem/depressions/depressions.hpp>
using namespace mc; using namespace richdem;

template<class T> void compare(const char*site,const Grid&g,const std::vector<T>&in,const std::vector<T>&want,const std::vector<T>&got,int w){
  if(want!=got){
    std::ostringstream o; o<<"type "<<tname<T>()<<" "<<g.w<<"x"<<g.h<<"\n in   "<<show(in,w)<<"\n want "<<show(want,w)<<"\n got  "<<show(got,w);
    violation(std::string("fill:")+site,o.str());
  }
}

template<class T,Topology topo> void one_topo(const Grid&g,const Array2D<T>&dem,const std::vector<T>&in,bool full){
  const bool d8=topo==Topology::D8; const T nd=nodata_of<T>();
  const auto want=ref_fill<T>(in,g.w,g.h,d8,false,nd);
  const std::string t=d8?"D8":"D4";
  auto run=[&](const std::string&name,std::function<void(Array2D<T>&)> f,const std::vector<T>&w){
    Array2D<T> a(dem); f(a); trans();
    if((int)a.width()!=g.w||(int)a.height()!=g.h||a.noData()!=nd) violation("fill:"+name+":shape","raster shape or NoData changed");
    compare<T>((name).c_str(),g,in,w,vals(a),g.w);
    if(full){ Array2D<T> b(a); f(b); trans(); if(vals(b)!=vals(a)) violation("fill:"+name+":idempotent","second fill changed\n in "+show(in,g.w)+"\n once "+show(vals(a),g.w)+"\n twice "+show(vals(b),g.w)); }
  };
  run("Original<"+t+">",[](Array2D<T>&a){PriorityFlood_Original<topo>(a);},want);
  run("Barnes2014<"+t+">",[](Array2D<T>&a){PriorityFlood_Barnes2014<topo>(a);},want);
  run("FillDepressions<"+t+">",[](Array2D<T>&a){FillDepressions<topo>(a);},want);
  if(d8){
    run("Zhou2016",[](Array2D<T>&a){PriorityFlood_Zhou2016(a);},want);
    run("Wei2018",[](Array2D<T>&a){PriorityFlood_Wei2018(a);},ref_fill<T>(in,g.w,g.h,true,true,nd));
  }
  bool has=HasDepressions<topo>(dem); trans();
  if(has!=(want!=in)) violation("fill:HasDepressions<"+t+">",std::string("answered ")+(has?"true":"false")+"\n in "+show(in,g.w));
  { Array2D<uint8_t> pm(2,5,(uint8_t)7); pit_mask<topo>(dem,pm); trans();
    std::vector<int> w2,g2; for(size_t i=0;i<in.size();i++) w2.push_back(in[i]==nd?pm.noData():(want[i]>in[i]?1:0));
    for(auto v:vals(pm)) g2.push_back(v);
    if(pm.noData()==0||pm.noData()==1||w2!=g2) violation("fill:pit_mask<"+t+">","in "+show(in,g.w)+"\n want "+show(w2,g.w)+"\n got "+show(g2,g.w));
    if(vals(dem)!=in) violation("fill:pit_mask:input","the input DEM was changed"); }
  // size-limited fill
  {
    std::vector<int> comp(in.size(),-1); std::vector<int> size; int w=g.w,h=g.h;
    for(size_t s=0;s<in.size();s++) if(want[s]>in[s]&&comp[s]<0){
      std::vector<int> st{(int)s}; comp[s]=size.size(); int n=0;
      while(!st.empty()){ int i=st.back(); st.pop_back(); n++; int x=i%w,y=i/w;
        for(int k=0;k<nbrs(d8);k++){ int X=x+dxo(d8,k),Y=y+dyo(d8,k); if(X<0||Y<0||X>=w||Y>=h) continue; int j=Y*w+X; if(want[j]>in[j]&&comp[j]<0){comp[j]=size.size(); st.push_back(j);} } }
      size.push_back(n);
    }
    // components reached from a common spill cell may be treated as one depression
    std::vector<int> amb(size.size()); for(size_t i=0;i<amb.size();i++) amb[i]=0;
    std::vector<int> lump(size.size()); for(size_t i=0;i<size.size();i++) lump[i]=i;
    std::function<int(int)> fnd=[&](int i){return lump[i]==i?i:lump[i]=fnd(lump[i]);};
    std::vector<int> lev(size.size()); std::vector<T> lv(size.size()); for(size_t i=0;i<in.size();i++) if(comp[i]>=0) lv[comp[i]]=want[i];
    for(int y=0;y<h;y++) for(int x=0;x<w;x++){ int i=y*w+x; if(comp[i]>=0) continue; int first=-1;
      for(int k=0;k<nbrs(d8);k++){ int X=x+dxo(d8,k),Y=y+dyo(d8,k); if(X<0||Y<0||X>=w||Y>=h) continue; int c=comp[Y*w+X]; if(c<0||lv[c]!=in[i]) continue; if(first<0) first=c; else lump[fnd(c)]=fnd(first); } }
    std::vector<int> lsize(size.size(),0); for(size_t i=0;i<size.size();i++) lsize[fnd(i)]+=size[i];
    const int lims[]={0,1,2,3,5};
    for(int L:lims){
      if(!full && L!=1 && L!=2) continue;
      Array2D<T> a(dem); PriorityFlood_Barnes2014_max_dep<topo>(a,L); trans();
      auto got=vals(a); bool bad=false;
      std::vector<int> filled(size.size(),-1);
      for(size_t i=0;i<in.size();i++){
        if(comp[i]<0){ if(got[i]!=in[i]) bad=true; continue; }
        int f=got[i]==want[i]?1:got[i]==in[i]?0:2; int c=comp[i];
        if(f==2||(filled[c]>=0&&filled[c]!=f)) bad=true; filled[c]=f;
      }
      for(size_t c=0;c<size.size();c++){
        if(size[c]>L && filled[c]!=0) bad=true;
        if(lsize[fnd(c)]<=L && filled[c]!=1) bad=true;
      }
      if(bad) violation("fill:max_dep<"+t+">","limit "+std::to_string(L)+"\n in "+show(in,g.w)+"\n full "+show(want,g.w)+"\n got "+show(got,g.w));
    }
    if(size.size()) nontrivial();
  }
  outcome(hvec(want));
}

template<class T> void check(const Grid&g,int m,bool full,bool d4=true){
  auto dem=to_rd<T>(g,m); auto in=vals(dem);
  states(); traces();
  if(d4 && want_sample() && g.w>3 && g.h>3 && g.v[g.w+1]==0) sample(std::string(tname<T>())+" "+std::to_string(g.w)+"x"+std::to_string(g.h)+" "+show(in,g.w));
  one_topo<T,Topology::D8>(g,dem,in,full);
  if(d4) one_topo<T,Topology::D4>(g,dem,in,full);
}

// interior enumerated fully, border constant with notches
Grid bordered(uint64_t i,int w,int h,const std::vector<double>&a,double bv,double nv,int notches){
  Grid g; g.w=w; g.h=h; g.v.assign(w*h,bv); Dig d(i);
  int L=border_len(w,h);
  for(int k=0;k<notches;k++){ int x,y; border_cell(w,h,d(L),x,y); g.at(x,y)=nv; }
  for(int y=1;y<h-1;y++) for(int x=1;x<w-1;x++) g.at(x,y)=a[d(a.size())];
  return g;
}
uint64_t bordered_n(int w,int h,size_t k,int notches){ return ipow(border_len(w,h),notches)*ipow(k,(w-2)*(h-2)); }

template<class T> void typed(){
  const bool th=thorough(); std::string n=tname<T>();
  std::vector<double> A{-1,0,1,2}; 
  // interior 2x2 on 4x4 with border alphabet enumerated as two notches
  for(int m=0;m<NMAP;m++){
    suite("t4x4/"+n+"/map"+std::to_string(m),bordered_n(4,4,4,1)*2,[=](uint64_t i){ double nv=(i&1)?-1:0; check<T>(bordered(i>>1,4,4,A,2,nv,1),m,true); });
    if(th) suite("t5x5/"+n+"/map"+std::to_string(m),bordered_n(5,5,3,1),[=](uint64_t i){ check<T>(bordered(i,5,5,{0,1,2},2,0,1),m,false); });
  }
  for(int b=0;b<NBASE;b++)
    if(th||b==BOWL||b==CONE||b==SPIRAL||b==FLAT) suite("tdev7x6/"+n+"/"+std::to_string(b),dev_size(7,6,2,2),[=](uint64_t i){ check<T>(dev_grid(i,base_grid(b,7,6),2,b%2?std::vector<double>{-1,0}:std::vector<double>{0,6}),b%NMAP,false); });
}

int main(int argc,char**argv){
  const bool th=thorough();
  using D=double;
  for(auto wh:std::vector<std::pair<int,int>>{{1,1},{1,2},{2,1},{1,4},{4,1},{2,2},{2,3},{3,2},{2,4},{1,6},{6,1}})
    suite("full"+std::to_string(wh.first)+"x"+std::to_string(wh.second),full_size(wh.first,wh.second,4),[=](uint64_t i){ check<D>(full_grid(i,wh.first,wh.second,{-1,0,1,2}),MID,true); });
  suite("full3x3",full_size(3,3,th?4:3),[=](uint64_t i){ check<D>(full_grid(i,3,3,th?std::vector<double>{-1,0,1,2}:std::vector<double>{-1,0,1}),MID,true); });
  suite("full4x3",full_size(4,3,th?3:2),[=](uint64_t i){ check<D>(full_grid(i,4,3,th?std::vector<double>{-1,0,1}:std::vector<double>{0,1}),MID,true); });
  suite("full4x4b",full_size(4,4,2),[=](uint64_t i){ check<D>(full_grid(i,4,4,{0,1}),MID,true); });
  suite("in5x5",bordered_n(5,5,4,0),[=](uint64_t i){ check<D>(bordered(i,5,5,{0,1,2,3},3,0,0),MID,false,th||i%3==0); });
  suite("in5x5n",bordered_n(5,5,3,1),[=](uint64_t i){ check<D>(bordered(i,5,5,{0,1,2},2,0,1),MID,false,th||i%3==0); });
  suite("in5x5nd",bordered_n(5,5,3,th?1:0),[=](uint64_t i){ check<D>(bordered(i,5,5,{-1,0,1},1,-1,th?1:0),MID,false); });
  suite("in6x5",bordered_n(6,5,th?3:2,1),[=](uint64_t i){ check<D>(bordered(i,6,5,th?std::vector<double>{0,1,2}:std::vector<double>{0,1},2,0,1),MID,false); });
  if(th) suite("in6x5b",bordered_n(6,5,3,0),[=](uint64_t i){ check<D>(bordered(i,6,5,{0,1,2},2,0,0),MID,false,th); });
  if(th){
    suite("in5x5n4",bordered_n(5,5,4,1),[=](uint64_t i){ check<D>(bordered(i,5,5,{0,1,2,3},3,1,1),MID,false); });
    suite("in5x5n2",bordered_n(5,5,3,2),[=](uint64_t i){ check<D>(bordered(i,5,5,{0,1,2},2,0,2),MID,false); });
    suite("in6x6b",bordered_n(6,6,2,1),[=](uint64_t i){ check<D>(bordered(i,6,6,{0,1},2,0,1),MID,false); });
  }
  for(int b=0;b<NBASE;b++){
    for(auto wh:std::vector<std::pair<int,int>>{{8,7},{12,5},{5,11}}){
      int w=wh.first,h=wh.second; std::string nm=std::to_string(w)+"x"+std::to_string(h)+"/"+std::to_string(b);
      std::vector<double> A{-1,0,2,7};
      suite("dev1-"+nm,dev_size(w,h,1,4),[=](uint64_t i){ check<D>(dev_grid(i,base_grid(b,w,h),1,A),MID,true); });
      if(th) suite("dev2-"+nm,dev_size(w,h,2,4),[=](uint64_t i){ check<D>(dev_grid(i,base_grid(b,w,h),2,A),MID,th); });
      else if(w==8) suite("dev2-"+nm,dev_size(w,h,2,3),[=](uint64_t i){ check<D>(dev_grid(i,base_grid(b,w,h),2,{-1,0,7}),MID,false); });
      if(th) suite("dev3-"+nm,dev_size(w,h,3,2),[=](uint64_t i){ check<D>(dev_grid(i,base_grid(b,w,h),3,{0,7}),MID,false); });
    }
  }
  typed<int8_t>(); typed<uint8_t>(); typed<int16_t>(); typed<uint16_t>(); typed<int32_t>(); typed<uint32_t>(); typed<int64_t>(); typed<float>(); typed<double>();
  return mc::main(argc,argv);
}
