#include "../common/spaces.hpp"
#include <richdem/depressions/fill_spill_merge.hpp>
using namespace mc; using namespace richdem; using namespace richdem::dephier;

// Water patterns laid on a terrain
enum { W_UNI, W_UNI_SMALL, W_UNI_BIG, W_FIRST, W_LAST, W_MID, W_PIT_EXACT, W_HIGH, W_SOAK, W_SOAK_BIG, W_ZERO, W_N };
template<class T> static std::vector<double> water(int k,const std::vector<T>&z,int w,int h){
  int n=w*h; std::vector<double> v(n,0);
  switch(k){
    case W_UNI: v.assign(n,1); break;
    case W_UNI_SMALL: v.assign(n,0.125); break;
    case W_UNI_BIG: v.assign(n,100); break;
    case W_FIRST: v[0]=3; break;
    case W_LAST: v[n-1]=7.5; break;
    case W_MID: v[(h/2)*w+w/2]=2.25; break;
    case W_PIT_EXACT: for(int i=0;i<n;i++) v[i]=(i%3==1)?2:0; break;
    case W_HIGH: { int b=std::max_element(z.begin(),z.end())-z.begin(); v[b]=12; break; }
    case W_SOAK: for(int i=0;i<n;i++) v[i]=(i%2)?-0.5:1.5; break;
    case W_SOAK_BIG: for(int i=0;i<n;i++) v[i]=(i%4==0)?6:-1.0/3; break;
  }
  return v;
}
template<class T> void one(const Grid&g,int map,const std::vector<char>&oc,const std::vector<double>&wt,double eps=1e-9){
  const int w=g.w,h=g.h,n=w*h; auto dem=to_rd<T>(g,map); auto z=vals(dem);
  Array2D<dh_label_t> label(w,h,NO_DEP); Array2D<flowdir_t> fd(w,h,NO_FLOW); for(int i=0;i<n;i++) if(oc[i]) label(i)=OCEAN;
  states(); traces();
  auto deps=GetDepressionHierarchy<T,Topology::D8>(dem,label,fd);
  Array2D<double> wtd(w,h,0); double before=0; for(int i=0;i<n;i++){ wtd(i)=wt[i]; before+=wt[i]; }
  std::string bad; auto fail=[&](const std::string&s){ if(bad.empty()) bad=s; }; auto S=[](auto x){ std::ostringstream o; o.precision(12); o<<x; return o.str(); };
  double scale=1; for(auto v:z) scale=std::max(scale,std::fabs((double)v)); for(auto v:wt) scale+=std::fabs(v); const double TOL=1e-7*scale+2e-6;
  try{ FillSpillMerge(dem,label,fd,deps,wtd); trans(); }catch(const std::exception&e){ fail(std::string("threw: ")+e.what()); }
  const size_t D=deps.size();
  auto leaf=[&](size_t d){ return deps[d].lchild==NO_VALUE; };
  // --- independent model: where the water goes -------------------------------
  // 1. run-off along the flow directions, soaking into dry ground on the way
  std::vector<double> m(wt); std::vector<int> to(n,-1),deg(n,0); for(int i=0;i<n;i++) if(fd(i)!=NO_FLOW){ to[i]=i+oy8[fd(i)-1]*w+ox8[fd(i)-1]; deg[to[i]]++; }
  std::vector<double> vol(D,0); { std::vector<int> q; for(int i=0;i<n;i++) if(!deg[i]) q.push_back(i); for(size_t a=0;a<q.size();a++){ int c=q[a]; if(m[c]>0){ if(to[c]>=0) m[to[c]]+=m[c]; else vol[label(c)]+=m[c]; m[c]=0; } if(to[c]>=0&&--deg[to[c]]==0) q.push_back(to[c]); } }
  // groundwater deficits make the capacity of a depression depend on the order
  // in which its cells flood; the raster-level checks below still apply then.
  bool deficit=false; for(int i=0;i<n;i++) if(m[i]<-1e-12) deficit=true;
  // 2. spill: 'vol' of leaves is water they hold or pass on; a node's total is its subtree's water
  double ocean=vol[OCEAN];
  std::vector<double> have(D,0); // water in subtree
  { // repeat single spills until none is possible
    std::vector<double> own(vol); own[OCEAN]=0; // leaf water
    auto total=[&](auto&&self,size_t d)->double{ return leaf(d)?own[d]:self(self,deps[d].lchild)+self(self,deps[d].rchild); };
    auto leavesOf=[&](auto&&self,size_t d,std::vector<size_t>&o)->void{ if(leaf(d)) o.push_back(d); else { self(self,deps[d].lchild,o); self(self,deps[d].rchild,o);} };
    auto drain=[&](size_t d,double amt){ std::vector<size_t> l; leavesOf(leavesOf,d,l); for(auto x:l){ double t=std::min(amt,own[x]); own[x]-=t; amt-=t; } };
    bool ch=true; int guard=0; while(ch&&guard++<20000){ ch=false;
      for(size_t d=1;d<D;d++){ double t=total(total,d); if(t<=deps[d].dep_vol+1e-9*scale) continue;
        // all water of a filled subtree counts; a subtree may spill only when it is full itself
        double ex=t-deps[d].dep_vol;
        if(deps[d].ocean_parent){ drain(d,ex); if(deps[d].parent==OCEAN) ocean+=ex; else own[deps[d].parent]+=ex; ch=true; }
        else { size_t o=deps[d].odep; double ot=total(total,o); if(ot<deps[o].dep_vol-1e-9*scale){ drain(d,ex); own[deps[d].geolink]+=ex; ch=true; } }
      } }
    for(size_t d=1;d<D;d++) have[d]=total(total,d);
  }
  if(bad.empty()){
    double after=deps[OCEAN].water_vol; for(int i=0;i<n;i++) after+=wtd(i);
    if(!(std::fabs(after-before)<=TOL)) fail("water before "+S(before)+", after (standing + ocean) "+S(after));
    if(vals(dem)!=z) fail("the terrain was changed");
    for(size_t d=1;d<D;d++) if(deps[d].water_vol>deps[d].dep_vol+TOL) fail("depression "+S(d)+" holds more than its capacity");
    bool wet=false;
    for(int i=0;i<n;i++){ double v=wtd(i); if(!(v==v)) fail("non-number depth"); if(v<m[i]-1e-9&&m[i]<=0) fail("groundwater drawn down at "+S(i)); if(v>1e-9) wet=true;
      if(v>1e-9&&label(i)==OCEAN) fail("water left standing on ocean-draining cell "+S(i)); }
    for(int i=0;i<n;i++) if(wtd(i)>TOL) for(int k=0;k<8;k++){ int a=i%w+ox8[k],b=i/w+oy8[k]; if(a<0||b<0||a>=w||b>=h) continue; int j=b*w+a; double L=z[i]+wtd(i);
      if(wtd(j)>TOL){ if(std::fabs(L-(z[j]+wtd(j)))>4*TOL) fail("adjacent wet cells "+S(i)+","+S(j)+" at levels "+S(L)+","+S(z[j]+wtd(j))); }
      else if(z[j]<L-4*TOL) fail("dry cell "+S(j)+" below the adjacent water level of "+S(i)); 
      else if(z[j]+std::min(0.,(double)wtd(j))<L-4*TOL && z[j]<L-4*TOL) fail("thirsty cell beside a lake"); }
    if(!deficit){
      if(std::fabs(deps[OCEAN].water_vol-ocean)>TOL) fail("ocean received "+S(deps[OCEAN].water_vol)+", expected "+S(ocean));
      // lakes: topmost subtree that is not full through to its parent is one body if all its children are full
      std::vector<double> exp(n,0);
      std::vector<std::set<size_t>> below(D); for(size_t d=1;d<D;d++){ if(leaf(d)) below[d]={d}; else { below[d]=below[deps[d].lchild]; below[d].insert(below[deps[d].rchild].begin(),below[deps[d].rchild].end()); } }
      auto place=[&](size_t d,double v){ if(v<=0) return; std::vector<double> es; for(int i=0;i<n;i++) if(below[d].count(label(i))&&z[i]<deps[d].out_elev) es.push_back(z[i]); std::sort(es.begin(),es.end()); double s=0,L=deps[d].out_elev; for(size_t k=1;k<=es.size();k++){ s+=es[k-1]; double lv=(v+s)/k; if(k==es.size()||lv<=es[k]){ L=lv; break; } } for(int i=0;i<n;i++) if(below[d].count(label(i))&&z[i]<L) exp[i]=L-z[i]; };
      auto full=[&](size_t d){ return have[d]>=deps[d].dep_vol-TOL; };
      auto walk=[&](auto&&self,size_t d)->void{ if(leaf(d)){ place(d,have[d]); return; } if(full(deps[d].lchild)&&full(deps[d].rchild)) place(d,have[d]); else { self(self,deps[d].lchild); self(self,deps[d].rchild); } };
      for(size_t d=1;d<D;d++) if(deps[d].ocean_parent) walk(walk,d);
      for(int i=0;i<n;i++) if(std::fabs(exp[i]-wtd(i))>20*TOL) fail("cell "+S(i)+" holds "+S(wtd(i))+", spill order gives "+S(exp[i]));
    }
    if(wet){ nontrivial(); outcome(hvec(vals(wtd))); }
    // a settled landscape stays as it is
    if(bad.empty()){ auto w1=vals(wtd); try{ FillSpillMerge(dem,label,fd,deps,wtd); trans(); }catch(const std::exception&e){ fail(std::string("second run threw: ")+e.what()); }
      for(int i=0;i<n&&bad.empty();i++) if(std::fabs(w1[i]-wtd(i))>20*TOL) fail("a second run changed cell "+S(i)+" from "+S(w1[i])+" to "+S(wtd(i)));
      if(bad.empty()&&std::fabs(deps[OCEAN].water_vol)>TOL) fail("a second run moved water to the ocean"); }
  }
  if(!bad.empty()){ std::ostringstream o; o<<bad<<"\n dem "<<show(z,w)<<"\n water in "<<show(wt,w)<<"\n labels "<<show(vals(label),w)<<"\n dirs "<<show(vals(fd),w)<<"\n ocean "; for(char c:oc) o<<(int)c; o<<"\n out "<<show(vals(wtd),w)<<"\n"; for(size_t d=0;d<D;d++) o<<" dep "<<d<<" vol="<<deps[d].dep_vol<<" water="<<deps[d].water_vol<<" out="<<deps[d].out_elev<<"@"<<deps[d].out_cell<<" parent="<<deps[d].parent<<" odep="<<deps[d].odep<<" geolink="<<deps[d].geolink<<" pit="<<deps[d].pit_cell<<"\n"; violation("fsm:"+bad.substr(0,bad.find_first_of("0123456789")),o.str()); }
  if(want_sample()&&w>3) sample(show(z,w));
}
static std::vector<char> border(int w,int h){ std::vector<char> m(w*h,0); for(int y=0;y<h;y++) for(int x=0;x<w;x++) if(!x||!y||x==w-1||y==h-1) m[y*w+x]=1; return m; }
static std::vector<char> single(int w,int h,int k){ std::vector<char> m(w*h,0); m[k]=1; return m; }
static bool has_edge(const std::vector<char>&m){ bool o=false,l=false; for(char c:m){ if(c) o=true; else l=true; } return o&&l; }
template<class T> void sweep(const Grid&g,int map,const std::vector<char>&oc,std::initializer_list<int> ks){ if(!has_edge(oc)) return; for(int k:ks){ auto dem=to_rd<T>(g,map); one<T>(g,map,oc,water(k,vals(dem),g.w,g.h)); } }
int main(int c,char**v){
  const bool th=thorough();
  // one-dimensional landscapes: every profile, every single water parcel in every size
  for(int w:{5,6,7}){ std::vector<double> A=w==7&&!th?std::vector<double>{0,1,3}:std::vector<double>{0,1,2,4};
    suite("profile"+std::to_string(w),ipow(A.size(),w),[=](uint64_t i){ auto g=full_grid(i,w,1,A); auto oc=single(w,1,i%2?0:w-1);
      for(int p=0;p<w;p++) for(double q:{0.5,3.,50.}){ if(w==7&&!th&&p%2) continue; std::vector<double> wt(w,0); wt[p]=q; one<double>(g,MID,oc,wt); } sweep<double>(g,LOW,oc,{W_UNI,W_SOAK}); }); }
  // parcels a hair larger than a depression: the excess must still reach the next one
  for(int w:{5,6}) suite("excess"+std::to_string(w),ipow(4,w),[=](uint64_t i){ auto g=full_grid(i,w,1,{0,1,2,4}); auto oc=single(w,1,i%2?0:w-1); for(int p=0;p<w;p++) for(double q:{1.00002,2.0005,3.00002,5.0005}){ std::vector<double> wt(w,0); wt[p]=q; one<double>(g,LOW,oc,wt); one<double>(g,MID,oc,wt); } });
  // every terrain, every ocean cell
  suite("single3x3",9*ipow(3,9),[=](uint64_t i){ Dig d(i); int k=d(9); auto g=full_grid(d.v,3,3,{0,1,2}); int p=i%5; auto oc=single(3,3,k);
    switch(p){ case 0: sweep<double>(g,MID,oc,{W_UNI}); break; case 1: sweep<double>(g,MID,oc,{W_FIRST}); break; case 2: sweep<double>(g,MID,oc,{W_LAST}); break; case 3: sweep<double>(g,MID,oc,{W_SOAK}); break; default: sweep<float>(g,MID,oc,{W_PIT_EXACT}); } });
  suite("masks2x3",ipow(3,6)*63,[=](uint64_t i){ Dig d(i); uint64_t m=1+d(63); std::vector<char> oc(6); for(int k=0;k<6;k++) oc[k]=m>>k&1; auto g=full_grid(d.v,2,3,{0,1,2}); sweep<double>(g,MID,oc,{W_UNI,W_SOAK}); });
  // parcels of every size on every inner cell
  suite("parcels",ipow(3,9)*9,[=](uint64_t i){ Dig d(i); int cell=d(9); auto g=bordered(d.v,5,5,{0,1,2},3,0,0); g.at(0,0)=1; std::vector<double> wt(25,0); wt[(1+cell/3)*5+1+cell%3]=(cell*7+d.v)%4==0?1.5:3; one<double>(g,FRAC,border(5,5),wt); });
  int nk=0; terrain_suites("b/",[=](const Grid&g,uint64_t i){ sweep<double>(g,i%3==1?HIGH:MID,border(g.w,g.h),i%2?std::initializer_list<int>{W_UNI,W_SOAK}:std::initializer_list<int>{W_UNI_SMALL,W_MID,W_UNI_BIG}); if(i%4==0) sweep<float>(g,LOW,border(g.w,g.h),{W_HIGH,W_SOAK_BIG}); },th?1:0,false); (void)nk;
  terrain_suites("c/",[=](const Grid&g,uint64_t i){ sweep<double>(g,MID,single(g.w,g.h,(int)(i*5%(g.w*g.h))),{W_UNI_SMALL,W_PIT_EXACT,W_SOAK_BIG}); },th?0:-1,false);
  return mc::main(c,v);
}
