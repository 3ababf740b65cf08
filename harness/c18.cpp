#include "ptile.hpp"
#include <queue>
#include <array>
using namespace mc;
static std::string so(){ return std::string(getenv("MC_BDIR"))+"/pflood.so"; }
// serial filling of the whole DEM; cells beside an absent tile are edge cells
template<class T> static std::vector<T> ref(const std::vector<T>&e,const Tiling&t){
  int W=t.W(),H=t.H(); auto in=[&](int x,int y){ return x>=0&&y>=0&&x<W&&y<H&&!t.null(x/t.w,y/t.h); };
  const T INF=std::numeric_limits<T>::max(); std::vector<T> f(e.size(),INF); std::vector<char> edge(e.size(),0);
  for(int y=0;y<H;y++) for(int x=0;x<W;x++) if(in(x,y)) for(int k=0;k<8;k++) if(!in(x+ox8[k],y+oy8[k])) edge[y*W+x]=1;
  for(size_t i=0;i<e.size();i++) if(edge[i]) f[i]=e[i];
  if(W*H>2000){ std::priority_queue<std::pair<T,int>,std::vector<std::pair<T,int>>,std::greater<std::pair<T,int>>> q; for(int i=0;i<W*H;i++) if(edge[i]) q.push({f[i],i}); while(!q.empty()){ auto c=q.top(); q.pop(); int x=c.second%W,y=c.second/W; if(c.first>f[c.second]) continue; for(int k=0;k<8;k++) if(in(x+ox8[k],y+oy8[k])){ int j=(y+oy8[k])*W+x+ox8[k]; T n=std::max(e[j],c.first); if(n<f[j]){ f[j]=n; q.push({n,j}); } } } return f; }
  for(bool ch=true;ch;){ ch=false; for(int y=0;y<H;y++) for(int x=0;x<W;x++){ int i=y*W+x; if(!in(x,y)||edge[i]) continue; for(int k=0;k<8;k++){ int j=(y+oy8[k])*W+x+ox8[k]; T c=std::max(e[i],f[j]); if(c<f[i]){ f[i]=c; ch=true; } } } }
  return f;
}
struct Cfg { Tiling t; int ranks=2; int ret=0; int sync=0,rev=0; bool byname=false; bool all=false; int RW=0,RH=0; /* one raster cut into blocks */ };
static std::string show(const Cfg&c){ std::ostringstream o; if(c.RW) o<<"one raster "<<c.RW<<"x"<<c.RH<<" in blocks of "; else o<<c.t.gx<<"x"<<c.t.gy<<" tiles of "<<c.t.w<<"x"<<c.t.h<<", absent mask "<<c.t.nulls<<", orientation "<<c.t.orient<<(c.t.flipH?" --flipH":"")<<(c.t.flipV?" --flipV":"")<<", "<<c.ranks<<" ranks, retention "<<c.ret<<(c.sync?", synchronous sends":", buffered sends"); return o.str(); }
template<class T> static void run(const Grid&g,int m,const Cfg&c,const std::string&suite){
  const bool one=c.RW>0; Tiling t=c.t; if(one){ t.gx=t.gy=1; t.w=c.RW; t.h=c.RH; } std::vector<T> e; for(double v:g.v) e.push_back(value_of<T>(m,v)); const double nd=(double)nodata_of<T>(); states();
  if(one) put<T>("/vsimem/one.tif",c.RW,c.RH,e,nd,PGT[0]); else put_tiles<T>(t,e,nd); auto want=ref<T>(e,t); bool nt=false; for(int y=0;y<t.H();y++) for(int x=0;x<t.W();x++) if(!t.null(x/t.w,y/t.h)&&want[y*t.W()+x]!=e[y*t.W()+x]) nt=true; if(nt) nontrivial();
  const int W=t.W(),H=t.H(); if(one){ t=c.t; t.gx=(W+t.w-1)/t.w; t.gy=(H+t.h-1)/t.h; }
  Args a; std::string outpat=c.byname?"/vsimem/o-%f.tif":"/vsimem/o-%n.tif"; a.a={"parallel_pf.exe",one?"one":"many",c.ret==0?"@evict":c.ret==1?"@retain":shard_dir()+"/ret%n-",one?"/vsimem/one.tif":"/vsimem/in.layout",outpat}; if(one) a.a.insert(a.a.end(),{"-w",std::to_string(t.w),"-h",t.h<300?std::string("-1"):std::to_string(t.h)}); if(t.flipH) a.a.push_back("-H"); if(t.flipV) a.a.push_back("--flipV");
  mpx::Run x; x.n=c.ranks; x.eager=!c.sync; x.rev=c.rev; x.body=[&](int r){ prun_rank(so(),a,r); };
  auto name=[&](int tx,int ty){ std::string s=std::to_string(tx)+"_"+std::to_string(ty); return c.byname?"o-t"+s+".tif":"o-"+s+".tif"; };
  auto judge=[&](mpx::Run&x)->bool{
    std::string bad=x.why; uint64_t h=0;
    for(int ty=0;ty<t.gy;ty++) for(int tx=0;tx<t.gx;tx++){ if(t.null(tx,ty)) continue; std::string n="/vsimem/"+name(tx,ty); if(!bad.empty()){ VSIUnlink(n.c_str()); continue; } Got o=get(n); const int tw=std::min(t.w,W-tx*t.w),th=std::min(t.h,H-ty*t.h); VSIUnlink(n.c_str()); VSIUnlink((n+".aux.xml").c_str());
      if(!o.ok) bad="no output tile "+name(tx,ty); else if(o.w!=tw||o.h!=th||o.t!=gtype<T>()) bad="shape or type of the output tile"; else if(o.nd!=nd) bad="NoData of the output tile"; else if(o.gt!=std::vector<double>{PGT[t.orient][0]+tx*t.w*PGT[t.orient][1],PGT[t.orient][1],0,PGT[t.orient][3]+ty*t.h*PGT[t.orient][5],0,PGT[t.orient][5]}) bad="georeferencing of the output tile";
      else for(int y=0;y<th;y++) for(int x=0;x<tw;x++){ T w=want[(ty*t.h+y)*W+tx*t.w+x]; double gv=o.v[(t.fv()?th-1-y:y)*tw+(t.fh()?tw-1-x:x)]; h=mix(h,hbits(gv)); if(gv!=(double)w) bad="cell "+std::to_string(tx*t.w+x)+","+std::to_string(ty*t.h+y)+" is "+std::to_string(gv)+", serial filling gives "+std::to_string((double)w); } }
    if(bad.empty()&&(c.all||one||G().cases%16==0)){ std::string l=slurp("/vsimem/o-layout.layout"),wl; for(int y=0;y<t.gy;y++){ for(int x=0;x<t.gx;x++){ if(x) wl+=","; if(!t.null(x,y)) wl+=name(x,y); } wl+="\n"; } if(l!=wl) bad="output layout:\n"+l+"expected\n"+wl; }
    if(!bad.empty()){ violation("pflood:"+bad.substr(0,10),show(c)+", type "+tname<T>()+"\n in "+(e.size()<500?show(e,W):std::string("(a large base grid)"))+"\n matches "+x.log+"\n"+bad); return false; }
    outcome(h); return true; };
  uint64_t k=1; if(c.all) k=mpx::all(x,5000,judge); else { mpx::execute(x); mc::trans(x.steps); judge(x); }
  traces(k); if(want_sample()&&nt&&!one) sample(show(c)+" in "+show(e,W)+" executions "+std::to_string(k));
}
static void typed(const Grid&g,int m,const Cfg&c,int ty,const std::string&s){ switch(ty){ case 0: run<double>(g,m,c,s); break; case 1: run<float>(g,m,c,s); break; case 2: run<int16_t>(g,m,c,s); break; case 3: run<uint8_t>(g,m,c,s); break; case 4: run<uint16_t>(g,m,c,s); break; case 5: run<int32_t>(g,m,c,s); break; case 6: run<uint32_t>(g,m,c,s); break; } }
int main(int argc,char**argv){
  CPLSetErrorHandler(CPLQuietErrorHandler); GDALAllRegister(); if(getenv("MC_SHARD_DIR")) mkdir((shard_dir()+"/vsimem").c_str(),0755); bool th=thorough();
  // schedules: every matching order
  struct TS{int gx,gy,w,h;}; const std::vector<TS> ts{{2,1,3,3},{1,2,3,3},{2,2,2,2},{2,2,3,3},{3,1,2,3}};
  for(auto s:ts) for(int ranks=2;ranks<=4;ranks++){ int b=NBASE+4; suite("sched/"+wh(s.gx,s.gy)+"/"+wh(s.w,s.h)+"/r"+std::to_string(ranks),3*2*2*b*(th?7:1),[=](uint64_t i){ Dig d(i); Cfg c; c.t={s.gx,s.gy,s.w,s.h}; c.ranks=ranks; c.ret=d(3); c.sync=d(2); c.rev=d(2); c.all=true; int k=d(NBASE+4); Grid g=base_grid(k<NBASE?k:BOWL,c.t.W(),c.t.H()); if(k>=NBASE) for(size_t j=0;j<g.v.size();j++) if((j*(k-NBASE+3))%7==2) g.v[j]=(k&1)?0:-1; c.byname=k&1; if(k%4==3&&s.gx*s.gy==4) c.t.nulls=1u<<(k%4); typed(g,MID,c,th?d(7):k%7,"s"); }); }
  // absent tiles, orientations, flips: one order
  for(auto s:std::vector<TS>{{2,2,2,2},{3,2,2,2},{2,3,2,2},{3,3,1,1},{2,2,3,3}}){ unsigned nm=(1u<<(s.gx*s.gy))-1; const int nb=th?NBASE:s.gx*s.gy>6?2:NBASE; suite("absent/"+wh(s.gx,s.gy)+"/"+wh(s.w,s.h),(uint64_t)nm*nb*2,[=](uint64_t i){ Dig d(i); Cfg c; c.t={s.gx,s.gy,s.w,s.h}; c.t.nulls=d(nm); int b=d(nb); if(nb<NBASE) b=b?BOWL:0; int dip=d(2); c.t.orient=i%4; c.t.flipH=(i/4)%2; c.t.flipV=(i/8)%2; c.ret=i%3; c.ranks=2+i%3; Grid g=base_grid(b,c.t.W(),c.t.H()); if(dip) for(size_t j=0;j<g.v.size();j++) if((j*5+b)%6==1) g.v[j]=0; typed(g,i%2?MID:LOW,c,i%7==3?0:i%7,"a"); }); }
  // inputs: all small DEMs over a seam
  auto inp=[&](const std::string&n,uint64_t cnt,TS s,std::function<Grid(uint64_t)> f,int ty){ suite("in/"+n+"/"+wh(s.gx,s.gy)+"/"+wh(s.w,s.h),cnt,[=](uint64_t i){ Cfg c; c.t={s.gx,s.gy,s.w,s.h}; c.t.orient=(i/3)%4; c.t.flipV=i%5==0; c.ret=i%7==3?2:i%7==5?1:0; c.ranks=2+i%2; typed(f(i),MID,c,ty<0?i%7:ty,"i"); }); };
  if(!th) inp("in4x4q",bordered_n(4,4,3,2),{2,2,2,2},[](uint64_t i){ return bordered(i,4,4,{0,1,2},2,0,2); },2);
  if(th) inp("full01",full_size(4,4,2),{2,2,2,2},[](uint64_t i){ return full_grid(i,4,4,{0,1}); },2);
  if(th) inp("in4x4",bordered_n(4,4,4,1),{2,1,2,4},[](uint64_t i){ return bordered(i,4,4,{-1,0,1,2},2,0,1); },-1);
  inp("in5x4",bordered_n(5,4,3,1),{5,1,1,4},[](uint64_t i){ return bordered(i,5,4,{0,1,2},2,0,1); },0);
  if(th) inp("in6x6",bordered_n(6,6,2,0),{2,2,3,3},[](uint64_t i){ return bordered(i,6,6,{0,1},2,0,0); },2);
  if(!th) inp("in6x6q",1<<12,{2,2,3,3},[](uint64_t i){ return bordered(i*16+(i*7&15),6,6,{0,1},2,0,0); },2);
  if(th){ inp("in6x6n",bordered_n(6,6,2,1),{2,3,3,2},[](uint64_t i){ return bordered(i,6,6,{0,1},2,0,1); },2); inp("in5x5",bordered_n(5,5,3,1),{5,1,1,5},[](uint64_t i){ return bordered(i,5,5,{0,1,2},2,0,1); },0); }
  for(int b=0;b<NBASE;b++) for(auto s:th?std::vector<TS>{{2,2,3,3},{3,2,2,4},{1,3,6,2},{2,3,4,3},{3,3,2,2},{4,3,1,2}}:std::vector<TS>{{2,2,3,3},{2,3,4,3}}){ Tiling t{s.gx,s.gy,s.w,s.h}; int W=t.W(),H=t.H(); inp("dev1-"+std::to_string(b),dev_size(W,H,1,4),s,[=](uint64_t i){ return dev_grid(i,base_grid(b,W,H),1,{-1,0,2,7}); },-1); if(th) inp("dev2-"+std::to_string(b),dev_size(W,H,2,2),s,[=](uint64_t i){ return dev_grid(i,base_grid(b,W,H),2,{0,7}); },-1); }
  // one raster cut into blocks; block edges lie inside depressions
  for(auto s:std::vector<std::array<int,4>>{{400,100,300,300},{100,400,300,300},{400,400,300,300},{720,101,310,-1}}) suite("one/"+wh(s[0],s[1]),NBASE*(th?6:2),[=](uint64_t i){ Dig d(i); Cfg c; c.RW=s[0]; c.RH=s[1]; c.t={1,1,std::min(s[2],s[0]),s[3]<0?s[1]:std::min(s[3],s[1])}; int b=d(NBASE); int k=d(6); c.ret=(b+k)%3; c.ranks=2+b%3; c.rev=k&1; Grid g=base_grid(b,s[0],s[1]); if(k) for(size_t j=0;j<g.v.size();j++){ int x=j%s[0],y=j/s[0]; if((x/37+y/23+k)%3==1) g.v[j]=1+k; if((x/37+y/23)%5==4&&(j*7)%11==3) g.v[j]=-1; } c.t.w=std::max(c.t.w,300); c.t.h=s[3]<0?s[1]:std::max(c.t.h,300); typed(g,MID,c,i%7,"o"); });
  return mc::main(argc,argv);
}
