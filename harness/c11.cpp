#include "../common/spaces.hpp"
#include <richdem/methods/terrain_attributes.hpp>
#include <richdem/flowmet/dinf_flowdirs.hpp>
#include <richdem/methods/dinf_methods.hpp>
#include <richdem/misc/misc_methods.hpp>
using namespace mc; using namespace richdem;
typedef long double ld;
static void say(const std::string&sig,const std::string&bad,const std::string&ctx){ if(!bad.empty()) violation(sig,bad+"\n"+ctx); }
struct Cfg { double lx,ly; float z; };
static const Cfg CF[5]={{1,1,1},{30,30,1},{0.5,0.5,2.5f},{10,4,1},{1e-4,2e-4,1e4f}}; // the last (very steep) for areas only
static const char* NAMES[8]={"riserun","percent","degrees","radians","aspect","curvature","planform","profile"};
struct Ref { ld v[8]; bool vague=false,vague2=false; }; // vague: gradient vanishes up to rounding, direction is not determined
template<class T> Ref formulas(const std::vector<T>&z,int w,int h,T nd,int x,int y,const Cfg&c){
  auto Z=[&](int dx,int dy)->ld{ int X=x+dx,Y=y+dy; ld v=(X<0||Y<0||X>=w||Y>=h||z[Y*w+X]==nd)?(ld)z[y*w+x]:(ld)z[Y*w+X]; return v*(ld)c.z; };
  ld west=Z(-1,-1)+2*Z(-1,0)+Z(-1,1),east=Z(1,-1)+2*Z(1,0)+Z(1,1),north=Z(-1,-1)+2*Z(0,-1)+Z(1,-1),south=Z(-1,1)+2*Z(0,1)+Z(1,1);
  ld gx=(east-west)/(8*c.lx), gn=(north-south)/(8*c.ly); // gradient towards east and north
  Ref r; ld s=sqrtl(gx*gx+gn*gn); r.v[0]=s; r.vague=s<1e-9L*fabsl(Z(0,0)); r.v[1]=100*s; r.v[2]=atanl(s)*180/M_PIl; r.v[3]=atanl(s);
  if(gx==0&&gn==0) r.v[4]=-1; else { ld a=atan2l(-gx,-gn)*180/M_PIl; if(a<0) a+=360; r.v[4]=a; } // compass bearing of steepest descent
  ld L=c.lx; ld D=((Z(-1,0)+Z(1,0))/2-Z(0,0))/(L*L),E=((Z(0,-1)+Z(0,1))/2-Z(0,0))/(L*L),F=(-Z(-1,-1)+Z(1,-1)+Z(-1,1)-Z(1,1))/(4*L*L),G=(-Z(-1,0)+Z(1,0))/(2*L),H=(Z(0,-1)-Z(0,1))/(2*L);
  r.v[5]=-200*(D+E); r.vague2=fabsl(G)+fabsl(H)<1e-9L*fabsl(Z(0,0)); if(G==0&&H==0) r.v[6]=r.v[7]=0; else { r.v[6]=-200*(D*H*H+E*G*G-F*G*H)/(G*G+H*H); r.v[7]=200*(D*G*G+E*H*H+F*G*H)/(G*G+H*H); }
  return r;
}
static bool close(int k,ld e,float g,ld scale){ ld d=fabsl(e-(ld)g); if(k==4){ if(e<0) return g==-1; if(g<0||g>360) return false; d=std::min(d,fabsl(d-360)); return d<1e-3L; } return d<=1e-5L*(fabsl(e)+scale*1e-1L)+1e-6L; }
template<class T> void attrs(const Grid&g,int map,int ci){
  auto dem=to_rd<T>(g,map); auto z=vals(dem); int w=g.w,h=g.h; T nd=dem.noData(); const Cfg&c=CF[ci]; const double flip=vals(dem)[0]!=dem.noData()&&(int64_t)(vals(dem)[0])%2?-1:1; dem.geotransform={100,c.lx*flip,0,200,0,-c.ly*flip}; dem.projection="PROJ";
  std::string ctx=std::string(tname<T>())+" cell "+std::to_string(c.lx)+"x"+std::to_string(c.ly)+" z "+std::to_string(c.z)+"\n dem "+show(z,w); states(); traces();
  ld mx=0; for(auto v:z) if(v!=nd) for(auto u:z) if(u!=nd) mx=std::max(mx,fabsl((ld)v-(ld)u)); ld scale=mx*c.z/(c.lx*c.lx)*100;
  std::vector<Ref> R(w*h); for(int i=0;i<w*h;i++) if(z[i]!=nd) R[i]=formulas<T>(z,w,h,nd,i%w,i/w,c);
  for(int k=0;k<8;k++){ if(ci==3&&k>=5) continue; trans(); if(k==4) dem.geotransform={100,c.lx,0,200,0,-c.ly}; else dem.geotransform={100,c.lx*flip,0,200,0,-c.ly*flip}; // a raster stored south-up or east-left has the same cell sizes, but its bearings are not defined here
   
    Array2D<float> out; out.setNoData(-7777);
    switch(k){ case 0: TA_slope_riserun(dem,out,c.z); break; case 1: TA_slope_percentage(dem,out,c.z); break; case 2: TA_slope_degrees(dem,out,c.z); break; case 3: TA_slope_radians(dem,out,c.z); break; case 4: TA_aspect(dem,out,c.z); break; case 5: TA_curvature(dem,out,c.z); break; case 6: TA_planform_curvature(dem,out,c.z); break; default: TA_profile_curvature(dem,out,c.z); }
    std::string bad; if((int)out.width()!=w||(int)out.height()!=h) bad="shape"; else if(out.geotransform!=dem.geotransform||out.projection!=dem.projection) bad="georeferencing lost";
    for(int i=0;i<w*h&&bad.empty();i++){ if(z[i]==nd){ if(!out.isNoData(i)) bad="NoData cell has a value"; continue; } if(map==FRAC&&((k==4&&R[i].vague)||(k>5&&R[i].vague2))) continue; if(!close(k,R[i].v[k],out(i),scale)) bad="cell "+std::to_string(i%w)+","+std::to_string(i/w)+" is "+std::to_string(out(i))+", formula gives "+std::to_string((double)R[i].v[k]); else if(R[i].v[0]>0) nontrivial(); }
    if(bad.empty()) outcome(hvec(vals(out))); say(std::string(NAMES[k])+":"+tname<T>(),bad,ctx);
  }
  if(vals(dem)!=z) say("input","DEM changed",ctx);
  if(want_sample()&&w>2) sample(show(z,w));
}
template<class T> void area(const Grid&g,int map,int ci){
  auto dem=to_rd<T>(g,map); auto z=vals(dem); int w=g.w,h=g.h; T nd=dem.noData(); const Cfg&c=CF[ci]; const double flip=vals(dem)[0]!=dem.noData()&&(int64_t)(vals(dem)[0])%2?-1:1; dem.geotransform={100,c.lx*flip,0,200,0,-c.ly*flip}; states(); traces(); trans(3);
  ld tot=0; unsigned cells=0,hor=0,ver=0; for(int i=0;i<w*h;i++) if(z[i]!=nd){ int x=i%w,y=i/w; auto miss=[&](int dx,int dy){ int X=x+dx,Y=y+dy; return X<0||Y<0||X>=w||Y>=h||z[Y*w+X]==nd; }; auto E=[&](int dx,int dy)->ld{ return (ld)(double)c.z*(miss(dx,dy)?(ld)z[i]:(ld)z[(y+dy)*w+x+dx]); };
    bool b=false; for(int n=0;n<8;n++){ int m=(n+1)%8; b|=miss(ox8[n],oy8[n]); // triangle centre, n, m: half the cross product, a quarter of it lies in this cell
      ld ax=ox8[n]*c.lx,ay=oy8[n]*c.ly,az=E(ox8[n],oy8[n])-E(0,0),bx=ox8[m]*c.lx,by=oy8[m]*c.ly,bz=E(ox8[m],oy8[m])-E(0,0); ld cx=ay*bz-az*by,cy=az*bx-ax*bz,cz=ax*by-ay*bx; tot+=sqrtl(cx*cx+cy*cy+cz*cz)/8; }
    cells+=b; hor+=miss(0,-1)+miss(0,1); ver+=miss(-1,0)+miss(1,0); }
  std::string ctx=std::string(tname<T>())+" cell "+std::to_string(c.lx)+"x"+std::to_string(c.ly)+" z "+std::to_string(c.z)+"\n dem "+show(z,w);
  double a=dem_surface_area(dem,(double)c.z); if(!(fabsl(a-tot)<=1e-6L*(1+tot))) say("surface","surface area "+std::to_string(a)+", triangles make "+std::to_string((double)tot),ctx);
  double p=Perimeter(dem,PerimType::CELL_COUNT); if(p!=cells) say("perimcells","perimeter cells "+std::to_string(p)+" expected "+std::to_string(cells),ctx);
  double e=Perimeter(dem,PerimType::SQUARE_EDGE),ee=hor*c.lx+ver*c.ly; if(std::fabs(e-ee)>1e-9*(1+ee)) say("perimedges","perimeter "+std::to_string(e)+" expected "+std::to_string(ee),ctx);
  if(cells>0&&cells<(unsigned)(w*h)) nontrivial(); outcome(mix(hbits(a),hbits(e)));
}
template<Topology topo> void bucket(uint64_t i,int w,int h){
  constexpr bool d8=topo==Topology::D8; Dig d(i); int N=w*h; Array2D<int16_t> chk(w,h,0); Array2D<uint8_t> set(w,h,0); for(int k=0;k<N;k++){ int q=d(3); chk(k)=q==0?5:q==1?5:6; set(k)=q==1?9:1; } int seed=d(N+1); states(); traces(); trans();
  auto c0=vals(chk); auto s0=vals(set); std::vector<size_t> sd; if(seed==N){ for(int k=0;k<N;k++) if(k%w==0||k/w==0||k%w==w-1||k/w==h-1) sd.push_back(k); } else { sd.push_back(seed); sd.push_back(N-1-seed); }
  std::vector<char> r(N,0); std::vector<int> q; for(auto s:sd) if(c0[s]==5&&s0[s]!=9&&!r[s]){ r[s]=1; q.push_back(s); } for(size_t a=0;a<q.size();a++) for(int k=0;k<nbrs(d8);k++){ int x=q[a]%w+dxo(d8,k),y=q[a]/w+dyo(d8,k); if(x<0||y<0||x>=w||y>=h) continue; int j=y*w+x; if(c0[j]==5&&s0[j]!=9&&!r[j]){ r[j]=1; q.push_back(j); } }
  if(seed==N) BucketFillFromEdges<topo>(chk,set,(int16_t)5,(uint8_t)9); else BucketFill<topo>(chk,set,(int16_t)5,(uint8_t)9,sd);
  auto g=vals(set); for(int k=0;k<N;k++){ int e=r[k]?9:s0[k]; if(g[k]!=e){ say(d8?"bucket8":"bucket4","cell "+std::to_string(k)+" is "+std::to_string(g[k])+" expected "+std::to_string(e),show(c0,w)+"\n set "+show(s0,w)+"\n got "+show(g,w)+" seed "+std::to_string(seed)); break; } } if(vals(chk)!=c0) say("bucket","check raster changed",""); if(q.size()>1) nontrivial(); outcome(hvec(g));
}
static void indices(uint64_t i){
  Dig d(i); static const double A[4]={-1,1,2,50},S[4]={-1,0,0.5,2}; int w=2,h=1; const Cfg&c=CF[d(4)]; Array2D<float> acc(w,h),sl(w,h); acc.setNoData(-1); sl.setNoData(-1); for(int k=0;k<2;k++){ acc(k)=A[d(4)]; sl(k)=S[d(4)]; } acc.geotransform=sl.geotransform={0,c.lx,0,0,0,-c.ly}; bool swap=d(2); states(); traces(); trans(2); nontrivial();
  Array2D<double> spi,cti; TA_SPI(acc,sl,spi); TA_CTI(acc,sl,cti); double ca=c.lx*c.ly; (void)swap;
  for(int k=0;k<2;k++){ if(acc(k)==-1||sl(k)==-1){ if(!spi.isNoData(k)||!cti.isNoData(k)) say("spi","NoData has an index",""); continue; } double e=std::log(acc(k)/ca*(sl(k)+0.001)),f=std::log(acc(k)/ca/(sl(k)+0.001)); std::string ctx="acc "+std::to_string(acc(k))+" slope "+std::to_string(sl(k))+" cell area "+std::to_string(ca); if(std::fabs(spi(k)-e)>1e-6*(1+std::fabs(e))) say("spi","SPI "+std::to_string(spi(k))+" expected "+std::to_string(e),ctx); if(std::fabs(cti(k)-f)>1e-6*(1+std::fabs(f))) say("cti","CTI "+std::to_string(cti(k))+" expected "+std::to_string(f),ctx); }
  Array2D<float> other(1,2); bool t=false; try{ TA_SPI(acc,other,spi); }catch(const std::exception&){ t=true; } try{ TA_CTI(acc,other,cti); t=false; }catch(const std::exception&){} if(!t) say("spi","mismatched rasters accepted","");
}
int main(int c,char**v){
  const bool th=thorough();
  for(int ci=0;ci<4;ci++) suite("ring3/"+std::to_string(ci),ipow(th?5:4,9),[=](uint64_t i){ static const double A[5]={-1,0,1,3,7}; Grid g; g.w=g.h=3; g.v.resize(9); Dig d(i); for(auto&x:g.v) x=A[d(th?5:4)]; attrs<double>(g,MID,ci); });
  auto at=[](const Grid&g,uint64_t i){ int ci=i%4; switch(i%7){ case 0: attrs<float>(g,i%NMAP,ci); break; case 1: attrs<int16_t>(g,i%NMAP,ci); break; case 2: attrs<uint8_t>(g,i%NMAP,ci); break; case 3: attrs<int32_t>(g,i%NMAP,ci); break; case 4: attrs<uint16_t>(g,i%NMAP,ci); break; case 5: attrs<double>(g,i%NMAP,ci); break; default: attrs<int8_t>(g,i%NMAP,ci); } };
  terrain_suites("ta/",at,th?0:-1);
  terrain_suites("area/",[](const Grid&g,uint64_t i){ int ci=i%5; switch(i/5%3){ case 0: area<double>(g,i%NMAP,ci); break; case 1: area<int16_t>(g,i%NMAP,ci); break; default: area<float>(g,MID,ci); } },th?1:0);
  for(auto s:std::vector<std::pair<int,int>>{{1,1},{1,4},{4,1},{3,2},{2,3},{3,3}}) for(int t=0;t<2;t++) suite(std::string("bucket")+(t?"8/":"4/")+wh(s.first,s.second),ipow(3,s.first*s.second)*(s.first*s.second+1),[=](uint64_t i){ t?bucket<Topology::D8>(i,s.first,s.second):bucket<Topology::D4>(i,s.first,s.second); });
  if(th) suite("bucket8/4x3",ipow(3,12)*13,[](uint64_t i){ bucket<Topology::D8>(i,4,3); });
  suite("indices",ipow(4,5)*2,indices);
  return mc::main(c,v);
}
