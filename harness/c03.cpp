#include "../common/spaces.hpp"
#include <richdem/depressions/depressions.hpp>
using namespace mc; using namespace richdem;

template<class T> void dirs(const Grid&g,const Array2D<T>&dem,const std::vector<T>&in){
  const int w=g.w,h=g.h; const T nd=nodata_of<T>();
  const auto fill=ref_fill<T>(in,w,h,true,false,nd);
  Array2D<d8_flowdir_t> fd(3,1,(d8_flowdir_t)77);
  PriorityFloodFlowdirs_Barnes2014(dem,fd); trans();
  std::string bad; 
  if((int)fd.width()!=w||(int)fd.height()!=h){ violation("pfdirs:shape","flow directions have another shape"); return; }
  if(vals(dem)!=in) bad="input changed";
  auto d=vals(fd);
  for(int i=0;i<w*h&&bad.empty();i++){
    if(in[i]==nd){ int x=i%w,y=i/w; bool edge=x==0||y==0||x==w-1||y==h-1; if(!edge && d[i]!=fd.noData()) bad="interior NoData cell has a direction"; continue; }
    int c=i,n=0; 
    while(true){
      if(in[c]==nd) break;
      if(d[c]<1||d[c]>8){ bad="data cell "+std::to_string(c)+" has no direction"; break; }
      if(in[c]>fill[i]){ bad="path from "+std::to_string(i)+" climbs above its spill level at "+std::to_string(c); break; }
      int x=c%w+ox8[d[c]-1],y=c/w+oy8[d[c]-1];
      if(x<0||y<0||x>=w||y>=h) break;
      c=y*w+x; if(++n>w*h){ bad="cycle from "+std::to_string(i); break; }
    }
  }
  if(!bad.empty()) violation("pfdirs",bad+" type "+tname<T>()+"\n in "+show(in,w)+"\n fill "+show(fill,w)+"\n dirs "+show(d,w));
  outcome(hvec(d));
}
template<class T,Topology topo> void sheds(const Grid&g,const Array2D<T>&dem0,const std::vector<T>&in,bool alter){
  const bool d8=topo==Topology::D8; const int w=g.w,h=g.h; const T nd=nodata_of<T>();
  const auto fill=ref_fill<T>(in,w,h,d8,false,nd);
  Array2D<T> dem(dem0); Array2D<int32_t> lab(2,2,(int32_t)5);
  PriorityFloodWatersheds_Barnes2014<topo>(dem,lab,alter); trans();
  std::string bad; 
  if((int)lab.width()!=w||(int)lab.height()!=h){ violation("pfsheds:shape","labels have another shape"); return; }
  auto l=vals(lab);
  if(vals(dem)!=(alter?fill:in)) bad=alter?"altered DEM is not the filled DEM":"DEM changed although not asked for";
  int mx=0; std::set<int> used;
  for(int i=0;i<w*h;i++) if(in[i]!=nd){ if(l[i]<1) bad="data cell without a label"; used.insert(l[i]); mx=std::max(mx,l[i]); }
  // every label region: minimax distance from its outlet equals the fill level
  for(int L:used){ if(L<1) break;
    std::vector<int> seeds; int edges=0;
    for(int y=0;y<h;y++) for(int x=0;x<w;x++){ int i=y*w+x; if(l[i]!=L||in[i]==nd) continue; if(x==0||y==0||x==w-1||y==h-1){ edges++; seeds.push_back(i);} }
    if(edges>1) bad="label "+std::to_string(L)+" covers several edge cells";
    if(edges==0) for(int y=0;y<h;y++) for(int x=0;x<w;x++){ int i=y*w+x; if(l[i]!=L||in[i]==nd) continue; for(int k=0;k<nbrs(d8);k++){ int X=x+dxo(d8,k),Y=y+dyo(d8,k); if(X<0||Y<0||X>=w||Y>=h) continue; int j=Y*w+X; if(in[j]==nd&&l[j]!=L){ seeds.push_back(i); break; } } }
    if(seeds.empty()){ bad="label "+std::to_string(L)+" has no outlet"; continue; }
    // one of the seeds must serve the whole region
    bool ok=false;
    for(int s:seeds){
      std::vector<double> best(w*h,1e300); best[s]=in[s]; bool ch=true;
      while(ch){ ch=false; for(int i=0;i<w*h;i++){ if(l[i]!=L) continue; int x=i%w,y=i/w; for(int k=0;k<nbrs(d8);k++){ int X=x+dxo(d8,k),Y=y+dyo(d8,k); if(X<0||Y<0||X>=w||Y>=h) continue; int j=Y*w+X; if(l[j]!=L||best[j]>1e299) continue; double c=std::max((double)in[i],best[j]); if(c<best[i]){best[i]=c;ch=true;} } } }
      bool all=true; for(int i=0;i<w*h;i++) if(l[i]==L&&in[i]!=nd&&best[i]!=(double)std::max(fill[i],in[s])) all=false;
      // fill[i] may be below in[s] only if the region's outlet lies beside NoData
      if(edges==1) for(int i=0;i<w*h;i++) if(l[i]==L&&in[i]!=nd&&best[i]!=(double)fill[i]) all=false;
      if(all){ ok=true; break; }
    }
    if(!ok) bad="region "+std::to_string(L)+" does not drain through one outlet at the cells' spill levels";
  }
  if(used.size()>1) nontrivial();
  if(!bad.empty()) violation(std::string("pfsheds:")+(d8?"D8":"D4"),bad+" type "+tname<T>()+"\n in "+show(in,w)+"\n fill "+show(fill,w)+"\n labels "+show(l,w));
  outcome(hvec(l));
}
template<class T> void check(const Grid&g,uint64_t i,int m){
  auto dem=to_rd<T>(g,m); auto in=vals(dem); states(); traces();
  if(want_sample()&&g.w>3&&g.h>3) sample(show(in,g.w));
  dirs<T>(g,dem,in); for(bool a:{false,true}){ sheds<T,Topology::D8>(g,dem,in,a); sheds<T,Topology::D4>(g,dem,in,a); }
}
int main(int c,char**v){
  terrain_suites("",[](const Grid&g,uint64_t i){ check<double>(g,i,MID); },thorough()?2:1);
  terrain_suites("int32/",[](const Grid&g,uint64_t i){ check<int32_t>(g,i,LOW); },0);
  terrain_suites("float/",[](const Grid&g,uint64_t i){ check<float>(g,i,FRAC); },0);
  terrain_suites("uint8/",[](const Grid&g,uint64_t i){ check<uint8_t>(g,i,HIGH); },0);
  return mc::main(c,v);
}
