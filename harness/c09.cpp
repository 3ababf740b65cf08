#include "../common/spaces.hpp"
#include <richdem/flowmet/d8_flowdirs.hpp>
#include <richdem/flowmet/dinf_flowdirs.hpp>
#include <richdem/methods/d8_methods.hpp>
#include <richdem/methods/dinf_methods.hpp>
using namespace mc; using namespace richdem;
static bool inside(int x,int y,int w,int h){ return x>=0&&y>=0&&x<w&&y<h; }
static void say(const std::string&sig,const std::string&bad,const std::string&ctx){ if(!bad.empty()) violation(sig,bad+"\n"+ctx); }
// -- areas ------------------------------------------------------------------
// shares[i] = list of (receiver index, share); receivers off the grid are dropped.  nd: NoData cells.
struct Net { int w,h; std::vector<char> nd; std::vector<std::vector<std::pair<int,double>>> out; };
// area of every cell that has no cycle upstream of it; others get NaN
static std::vector<double> areas(const Net&n){
  int N=n.w*n.h; std::vector<std::vector<std::pair<int,double>>> in(N); for(int i=0;i<N;i++) for(auto&o:n.out[i]) if(!n.nd[o.first]) in[o.first].push_back({i,o.second});
  std::vector<int> st(N,0); std::vector<double> a(N,0); std::function<double(int)> f=[&](int i)->double{ if(st[i]==2) return a[i]; if(st[i]==1) return NAN; st[i]=1; double s=1; for(auto&e:in[i]) s+=e.second*f(e.first); if(!(s==s)){ st[i]=0; return NAN; } a[i]=s; st[i]=2; return s; };
  std::vector<double> r(N); for(int i=0;i<N;i++) r[i]=n.nd[i]?-1:f(i); return r;
}
template<class T> Net d8net(const Array2D<T>&fd){ Net n; n.w=fd.width(); n.h=fd.height(); int N=n.w*n.h; n.nd.assign(N,0); n.out.resize(N); for(int i=0;i<N;i++){ int c=fd(i); if(fd.isNoData(i)){ n.nd[i]=1; continue; } if(c>=1&&c<=8){ int x=i%n.w+ox8[c-1],y=i/n.w+oy8[c-1]; if(inside(x,y,n.w,n.h)) n.out[i].push_back({y*n.w+x,1}); } } return n; }
// angle measured counter-clockwise from east
static const int ax[8]={1,1,0,-1,-1,-1,0,1}, ay[8]={0,-1,-1,-1,0,1,1,1};
static Net dinet(const Array2D<float>&fd){ Net n; n.w=fd.width(); n.h=fd.height(); int N=n.w*n.h; n.nd.assign(N,0); n.out.resize(N);
  for(int i=0;i<N;i++){ float v=fd(i); if(fd.isNoData(i)){ n.nd[i]=1; continue; } if(v==NO_FLOW) continue; double t=v/(M_PI/4); int lo=(int)std::floor(t); double f=t-lo; if(f>1-2e-6){ lo++; f=0; } if(f<2e-6) f=0; auto add=[&](int k,double s){ if(s<=0) return; k%=8; int x=i%n.w+ax[k],y=i/n.w+ay[k]; if(inside(x,y,n.w,n.h)) n.out[i].push_back({y*n.w+x,s}); }; add(lo,1-f); add(lo+1,f); }
  return n; }
template<class U> void compare(const char*sig,const Net&n,const std::vector<double>&e,const Array2D<U>&area,double tol,const std::string&ctx){
  std::string bad; if((int)area.width()!=n.w||(int)area.height()!=n.h) bad="area raster has another shape"; else
  for(int i=0;i<n.w*n.h&&bad.empty();i++){ if(!(e[i]==e[i])){ count("cells on or below a loop"); continue; } if(!(std::fabs((double)area(i)-e[i])<=tol*(1+e[i]))) bad="cell "+std::to_string(i)+" has area "+std::to_string((double)area(i))+", its upstream cells make "+std::to_string(e[i]); else if(e[i]>1) nontrivial(); }
  if(bad.empty()) for(int i=0;i<n.w*n.h;i++) if(n.nd[i]&&!area.isNoData(i)) bad="NoData cell has an area";
  say(sig,bad,ctx+"\n area "+show(vals(area),n.w)); outcome(hvec(vals(area)));
}
template<class T,class U> void d8area(const Array2D<T>&fd,const std::string&ctx=""){ trans(); Array2D<U> area; d8_flow_accum(fd,area); auto n=d8net(fd); compare("d8area",n,areas(n),area,0,ctx+"\n dirs "+show(vals(fd),fd.width())); }
static void diarea(const Array2D<float>&fd,const std::string&ctx=""){ trans(); Array2D<double> area; dinf_upslope_area(fd,area); auto n=dinet(fd); compare("dinfarea",n,areas(n),area,2e-5,ctx+"\n angles "+show(vals(fd),fd.width())); }
// -- upslope selection ------------------------------------------------------
template<class T> void upslope(const Array2D<T>&fd,int x0,int y0,int x1,int y1){
  trans(); int w=fd.width(),h=fd.height(); Array2D<uint8_t> up; d8_upslope_cells(x0,y0,x1,y1,fd,up); std::string bad; auto u=vals(up);
  if((int)up.width()!=w||(int)up.height()!=h) bad="shape";
  if(bad.empty()){ if(u[y0*w+x0]!=2||u[y1*w+x1]!=2) bad="an end of the line is not marked";
    // the line: an 8-connected run of cells from one end to the other hugging the segment
    std::vector<int> line; for(int i=0;i<w*h;i++) if(u[i]==2){ line.push_back(i); double px=i%w-x0,py=i/w-y0,dx=x1-x0,dy=y1-y0,L=std::sqrt(dx*dx+dy*dy); double off=L>0?std::fabs(px*dy-py*dx)/L:std::sqrt(px*px+py*py); double al=L>0?(px*dx+py*dy)/L:0; if(off>1.01||al<-1.01||al>L+1.01) bad="marked line cell "+std::to_string(i)+" is not on the line"; }
    std::vector<char> seen(w*h,0); std::vector<int> q{y0*w+x0}; seen[q[0]]=1; for(size_t a=0;a<q.size();a++) for(int k=0;k<8;k++){ int x=q[a]%w+ox8[k],y=q[a]/w+oy8[k]; if(inside(x,y,w,h)&&u[y*w+x]==2&&!seen[y*w+x]){ seen[y*w+x]=1; q.push_back(y*w+x); } }
    if(q.size()!=line.size()||!seen[y1*w+x1]) bad="the line is interrupted";
    auto n=d8net(fd); std::vector<char> reach(w*h,0); bool ch=true; for(int i:line) reach[i]=1; while(ch){ ch=false; for(int i=0;i<w*h;i++) if(!reach[i]&&!n.nd[i]) for(auto&o:n.out[i]) if(reach[o.first]){ reach[i]=1; ch=true; } }
    for(int i=0;i<w*h&&bad.empty();i++){ bool mark=u[i]!=FLOWDIR_NO_DATA; if(u[i]!=1&&u[i]!=2&&u[i]!=FLOWDIR_NO_DATA) bad="unknown mark"; if(mark!=(bool)reach[i]) bad="cell "+std::to_string(i)+(mark?" is marked but does not flow through the line":" flows through the line but is not marked"); } }
  say("upslope",bad,"line "+std::to_string(x0)+","+std::to_string(y0)+"-"+std::to_string(x1)+","+std::to_string(y1)+"\n dirs "+show(vals(fd),w)+"\n marks "+show(u,w));
}
// -- directions -------------------------------------------------------------
template<class T> void dirs(const Grid&g,int map,bool area=true){
  auto dem=to_rd<T>(g,map); auto z=vals(dem); const int w=g.w,h=g.h; const T nd=dem.noData(); states(); traces(); trans(2);
  std::string ctx=std::string(tname<T>())+"\n dem "+show(z,w);
  Array2D<uint8_t> fd; d8_flow_directions(dem,fd); Array2D<float> an; dinf_flow_directions(dem,an); std::string bad,badi;
  if((int)fd.width()!=w||(int)fd.height()!=h||(int)an.width()!=w||(int)an.height()!=h) bad="shape";
  for(int i=0;i<w*h&&bad.empty()&&badi.empty();i++){ int x=i%w,y=i/w,c=fd(i); float a=an(i); std::string at=" at "+std::to_string(x)+","+std::to_string(y)+" code "+std::to_string(c)+" angle "+std::to_string(a);
    if(z[i]==nd){ if(!fd.isNoData(i)) bad="NoData cell has a direction"+at; if(!an.isNoData(i)) badi="NoData cell has an angle"+at; continue; }
    if(fd.isNoData(i)||an.isNoData(i)||c>8){ bad="data cell marked as NoData"+at; break; }
    if(x==0||y==0||x==w-1||y==h-1){ if(c==0||inside(x+ox8[c-1],y+oy8[c-1],w,h)) bad="edge cell does not point off the grid"+at; if(a==NO_FLOW) badi="edge cell has no angle"+at; else { int k=(int)std::lround(a/(M_PI/4)); if(std::fabs(a-k*M_PI/4)>1e-5||inside(x+ax[k%8],y+ay[k%8],w,h)) badi="edge cell's angle does not point off the grid"+at; } continue; }
    double lo=1e300; for(int k=0;k<8;k++) lo=std::min(lo,(double)z[(y+oy8[k])*w+x+ox8[k]]);
    if(lo>=(double)z[i]){ if(c!=NO_FLOW) bad="cell without a lower neighbour has a direction"+at; }
    else { if(c==NO_FLOW) bad="cell with a lower neighbour has no direction"+at; else { if((double)z[(y+oy8[c-1])*w+x+ox8[c-1]]!=lo) bad="direction is not to the lowest neighbour"+at; bool card=false; for(int k=0;k<8;k+=2) card|=(double)z[(y+oy8[k])*w+x+ox8[k]]==lo; if(card&&c%2==0) bad="diagonal preferred to an equally low cardinal neighbour"+at; nontrivial(); } }
    double best=0; std::vector<std::pair<double,double>> all; for(int k=0;k<8;k++){ // facet between directions k and k+1 (k even: cardinal first)
      int ca=k%2?(k+1)%8:k, di=k%2?k:k+1; auto E=[&](int d){ return (double)z[(y+ay[d])*w+x+ax[d]]; }; double s1=(double)z[i]-E(ca),s2=E(ca)-E(di),r=std::atan2(s2,s1),s; if(r<0){ r=0; s=s1; } else if(r>M_PI/4){ r=M_PI/4; s=((double)z[i]-E(di))/std::sqrt(2.); } else s=std::sqrt(s1*s1+s2*s2);
      double ang=k%2?(k+1)*M_PI/4-r:k*M_PI/4+r; if(s>0){ best=std::max(best,s); all.push_back({s,ang}); } }
    if(best==0){ if(a!=NO_FLOW) badi="angle without a downward facet"+at; }
    else { bool ok=false; for(auto&q:all) if(q.first>=best*(1-1e-9)){ double d=std::fabs(q.second-a); d=std::min(d,std::fabs(d-2*M_PI)); if(d<1e-5) ok=true; } if(a==NO_FLOW) badi="no angle although a facet descends"+at; else if(!ok) badi="angle is not the steepest facet's"+at; }
  }
  if(vals(dem)!=z) bad="DEM changed";
  say(std::string("d8dir:")+tname<T>(),bad,ctx); say(std::string("dinfdir:")+tname<T>(),badi,ctx); if(area&&bad.empty()&&badi.empty()){ d8area<uint8_t,int32_t>(fd,ctx); diarea(an,ctx); }
  if(want_sample()&&w>3) sample(show(z,w)+" -> "+show(vals(fd),w));
}
Array2D<uint8_t> d8raster(uint64_t i,int w,int h,const std::vector<int>&codes){ Array2D<uint8_t> f(w,h,0); f.setNoData(FLOWDIR_NO_DATA); Dig d(i); for(int k=0;k<w*h;k++) f(k)=codes[d(codes.size())]; states(); traces(); return f; }
int main(int c,char**v){
  const bool th=thorough();
  terrain_suites("d/",[](const Grid&g,uint64_t i){ dirs<double>(g,i%NMAP); },th?1:0);
  terrain_suites("f/",[](const Grid&g,uint64_t i){ dirs<float>(g,i%NMAP); },th?0:-1);
  terrain_suites("i/",[](const Grid&g,uint64_t i){ switch(i%4){ case 0: dirs<int16_t>(g,i/4%NMAP); break; case 1: dirs<uint8_t>(g,i/4%NMAP); break; case 2: dirs<int32_t>(g,i/4%NMAP); break; default: dirs<uint16_t>(g,i/4%NMAP); } },th?1:-1);
  suite("ring5",ipow(5,8),[](uint64_t i){ Grid g; g.w=g.h=3; g.v.resize(9); Dig d(i); static const double A[5]={-1,0,1,2,3}; for(int k=0;k<9;k++) g.v[k]=k==4?2:A[d(5)]; dirs<double>(g,MID,false); });
  std::vector<int> all{0,1,2,3,4,5,6,7,8,FLOWDIR_NO_DATA};
  for(auto s:std::vector<std::pair<int,int>>{{1,1},{1,5},{5,1},{2,2},{2,3},{3,2}}) suite("dirs"+wh(s.first,s.second),ipow(10,s.first*s.second),[=](uint64_t i){ auto f=d8raster(i,s.first,s.second,all); if(i%2) d8area<uint8_t,double>(f); else d8area<uint8_t,int32_t>(f); });
  suite("dirs3x3",ipow(th?5:4,9),[=](uint64_t i){ auto f=d8raster(i,3,3,th?std::vector<int>{0,2,5,7,FLOWDIR_NO_DATA}:std::vector<int>{1,3,6,5}); d8area<uint8_t,float>(f); });
  // upslope selection: every network and every line on small grids
  suite("line3x2",ipow(6,6)*36,[=](uint64_t i){ Dig d(i); int a=d(6),b=d(6); auto f=d8raster(d.v,3,2,{0,1,5,7,4,FLOWDIR_NO_DATA}); upslope(f,a%3,a/3,b%3,b/3); });
  suite("line3x3",ipow(3,9)*81,[=](uint64_t i){ Dig d(i); int a=d(9),b=d(9); auto f=d8raster(d.v,3,3,{1,3,6}); upslope(f,a%3,a/3,b%3,b/3); });
  for(int dir=0;dir<=8;dir++) suite("line6x7/"+std::to_string(dir),42*42,[=](uint64_t i){ Array2D<uint8_t> f(6,7,dir); f.setNoData(FLOWDIR_NO_DATA); states(); traces(); int a=i%42,b=i/42; upslope(f,a%6,a/6,b%6,b/6); });
  // D-infinity areas: every assignment of angles
  auto ang=[](int k)->float{ if(k==0) return dinf_NO_DATA; if(k==1) return NO_FLOW; return (float)((k-1)*M_PI/8); }; // 2..17: every 22.5 degrees, 16 = full circle
  suite("ang2x2",ipow(18,4),[=](uint64_t i){ Array2D<float> f(2,2,0); f.setNoData(dinf_NO_DATA); Dig d(i); for(int k=0;k<4;k++) f(k)=ang(d(18)); states(); traces(); diarea(f); });
  suite("ang3x2",ipow(7,6),[=](uint64_t i){ static const int C[7]={0,1,3,10,12,15,17}; Array2D<float> f(3,2,0); f.setNoData(dinf_NO_DATA); Dig d(i); for(int k=0;k<6;k++) f(k)=ang(C[d(7)]); states(); traces(); diarea(f); });
  suite("ang3x3",ipow(3,9)*3,[=](uint64_t i){ static const int C[3][3]={{2,4,17},{12,13,15},{1,9,16}}; Array2D<float> f(3,3,0); f.setNoData(dinf_NO_DATA); Dig d(i); int q=d(3); for(int k=0;k<9;k++) f(k)=ang(C[q][d(3)]); states(); traces(); diarea(f); });
  suite("fine",4000,[=](uint64_t i){ Array2D<float> f(3,3,NO_FLOW); f.setNoData(dinf_NO_DATA); f(1,1)=(float)((i+1)*2*M_PI/4000); states(); traces(); diarea(f); });
  return mc::main(c,v);
}
