#include "ptile.hpp"
using namespace mc;
static std::string so(){ return std::string(getenv("MC_BDIR"))+"/paccum.so"; }
typedef std::vector<int> Dir;            // 0 no flow, 1..8, 255 NoData
// upstream count of every cell of the mosaic; empty if the directions contain a cycle
static std::vector<double> ref(const Dir&d,const Tiling&t){
  int W=t.W(),H=t.H(); auto dead=[&](int i){ return t.null(i%W/t.w,i/W/t.h)||d[i]==255; };
  auto down=[&](int i){ if(dead(i)||d[i]==0) return -1; int x=i%W+ox8[d[i]-1],y=i/W+oy8[d[i]-1]; if(x<0||y<0||x>=W||y>=H||dead(y*W+x)) return -1; return y*W+x; };
  std::vector<double> a(d.size(),0); for(int i=0;i<W*H;i++){ if(dead(i)){ a[i]=-1; continue; } int s=0; for(int j=i;j>=0;j=down(j)){ if(++s>W*H) return {}; a[j]+=1; } } return a;
}
struct Cfg { Tiling t; int ranks=2,ret=0,sync=0,rev=0; bool byname=false,all=false; int RW=0,RH=0; /* one mode: raster size */ };
static std::string show(const Cfg&c){ std::ostringstream o; if(c.RW) o<<"one raster "<<c.RW<<"x"<<c.RH<<" in blocks of "; else o<<c.t.gx<<"x"<<c.t.gy<<" tiles of "; o<<c.t.w<<"x"<<c.t.h<<", absent mask "<<c.t.nulls<<", orientation "<<c.t.orient<<(c.t.flipH?" --flipH":"")<<(c.t.flipV?" --flipV":"")<<", "<<c.ranks<<" ranks, retention "<<c.ret<<(c.sync?", synchronous sends":", buffered sends"); return o.str(); }
static void run(const Dir&d,const Cfg&c){
  const bool one=c.RW>0; Tiling full=c.t; if(one){ full.gx=full.gy=1; full.w=c.RW; full.h=c.RH; full.nulls=0; }
  auto want=ref(d,full); if(want.empty()) return; states(); const int W=full.W();
  if(*std::max_element(want.begin(),want.end())>2) nontrivial();
  std::vector<uint8_t> e(d.begin(),d.end()); Args a; std::string outpat=c.byname?"/vsimem/o-%f.tif":"/vsimem/o-%n.tif";
  a.a={"parallel_accum.exe",one?"one":"many",c.ret==0?"@evict":c.ret==1?"@retain":shard_dir()+"/ret%n-",one?"/vsimem/one.tif":"/vsimem/in.layout",outpat};
  if(one){ put<uint8_t>("/vsimem/one.tif",c.RW,c.RH,e,255,PGT[0]); a.a.insert(a.a.end(),{"-w",std::to_string(c.t.w),"-h",std::to_string(c.t.h)}); } else put_tiles<uint8_t>(c.t,e,255);
  if(c.t.flipH) a.a.push_back("-H"); if(c.t.flipV) a.a.push_back("-V");
  mpx::Run x; x.n=c.ranks; x.eager=!c.sync; x.rev=c.rev; x.body=[&](int r){ prun_rank(so(),a,r); };
  const int gx=one?(c.RW+c.t.w-1)/c.t.w:c.t.gx, gy=one?(c.RH+c.t.h-1)/c.t.h:c.t.gy;
  auto name=[&](int tx,int ty){ std::string s=std::to_string(tx)+"_"+std::to_string(ty); return c.byname?"o-t"+s+".tif":"o-"+s+".tif"; };
  auto judge=[&](mpx::Run&x)->bool{
    std::string bad=x.why; uint64_t h=0; const Tiling&t=c.t;
    for(int ty=0;ty<gy;ty++) for(int tx=0;tx<gx;tx++){ if(t.null(tx,ty)&&!one) continue; std::string n="/vsimem/"+name(tx,ty); if(!bad.empty()){ VSIUnlink(n.c_str()); continue; } Got o=get(n); VSIUnlink(n.c_str()); VSIUnlink((n+".aux.xml").c_str());
      int w=std::min(t.w,W-tx*t.w),hh=std::min(t.h,full.H()-ty*t.h); bool fh=!one&&t.fh(),fv=!one&&t.fv();
      if(!o.ok) bad="no output tile "+name(tx,ty); else if(o.w!=w||o.h!=hh||o.t!=GDT_Float64) bad="shape or type of the output tile"; else if(o.nd!=-1) bad="NoData of the output tile"; else if(o.gt!=std::vector<double>{PGT[t.orient][0]+tx*t.w*PGT[t.orient][1],PGT[t.orient][1],0,PGT[t.orient][3]+ty*t.h*PGT[t.orient][5],0,PGT[t.orient][5]}) bad="georeferencing of the output tile";
      else for(int y=0;y<hh;y++) for(int x=0;x<w;x++){ double wv=want[(ty*t.h+y)*W+tx*t.w+x],gv=o.v[(fv?hh-1-y:y)*w+(fh?w-1-x:x)]; h=mix(h,hbits(gv)); if(gv!=wv) bad="cell "+std::to_string(tx*t.w+x)+","+std::to_string(ty*t.h+y)+" is "+std::to_string(gv)+", it has "+std::to_string(wv)+" cells upstream"; } }
    if(bad.empty()&&(c.all||one||G().cases%16==0)){ std::string l=slurp("/vsimem/o-layout.layout"),wl; for(int y=0;y<gy;y++){ for(int x=0;x<gx;x++){ if(x) wl+=","; if(one||!t.null(x,y)) wl+=name(x,y); } wl+="\n"; } if(l!=wl) bad="output layout:\n"+l+"expected\n"+wl; }
    if(!bad.empty()){ violation("paccum:"+bad.substr(0,10),show(c)+"\n directions "+mc::show(d,W)+"\n matches "+x.log+"\n"+bad); return false; }
    outcome(h); return true; };
  uint64_t k=1; if(c.all) k=mpx::all(x,5000,judge); else { mpx::execute(x); mc::trans(x.steps); judge(x); }
  traces(k); if(want_sample()&&W>2) sample(show(c)+" directions "+mc::show(d,W)+" executions "+std::to_string(k));
}
enum { NB=12 };
static Dir base(int b,int W,int H){
  Dir d(W*H,0); for(int y=0;y<H;y++) for(int x=0;x<W;x++){ int&v=d[y*W+x]; int l=std::min(std::min(x,y),std::min(W-1-x,H-1-y));
    switch(b){ case 0: v=y%2?(x?1:7):(x<W-1?5:7); break;                         // serpentine by rows
      case 1: v=x%2?(y?3:5):(y<H-1?7:5); break;                                   // serpentine by columns
      case 2: v=5; break; case 3: v=3; break; case 4: v=6; break; case 5: v=8; break;
      case 6: v=x<W/2?(y<H/2?6:y==H/2?5:4):x==W/2?(y<H/2?7:y==H/2?0:3):(y<H/2?8:y==H/2?1:2); break;   // to the middle
      case 7: v=(y==l&&x<W-1-l)?5:(x==W-1-l&&y<H-1-l)?7:(y==H-1-l&&x>l)?1:(x==l&&y>l+1)?3:(l==y&&x==l)?5:5; if(x==l&&y==l+1&&W-1-l>l) v=5; break;   // spiral inwards
      case 8: v=(x+y)%2?4:6; break;                                               // zigzag along rows (diagonals)
      case 9: v=(x%2)?((y%2)?2:8):((y%2)?2:8); break; 
      case 10: v=(y%2)?2:8; break;
      case 11: v=(x%3==0)?3:(x%3==1)?7:1; break; } }
  return d; }
static Dir d8_of(const Grid&g){ Dir d(g.w*g.h,0); for(int y=0;y<g.h;y++) for(int x=0;x<g.w;x++){ double e=g.at(x,y); if(e<0){ d[y*g.w+x]=255; continue; } double best=0; for(int k=0;k<8;k++){ int X=x+ox8[k],Y=y+oy8[k]; double s; if(X<0||Y<0||X>=g.w||Y>=g.h) s=e==0?0.01:0; else s=(e-g.at(X,Y))/((k&1)?1.4142:1); if(s>best){ best=s; d[y*g.w+x]=k+1; } } } return d; }
static Dir dev(uint64_t i,Dir b,int n,const std::vector<int>&A){ Dig g(i); for(int k=0;k<n;k++){ int c=g(b.size()); b[c]=A[g(A.size())]; } return b; }
static const std::vector<int> ALL{0,1,2,3,4,5,6,7,8,255};
int main(int argc,char**argv){
  CPLSetErrorHandler(CPLQuietErrorHandler); GDALAllRegister(); if(getenv("MC_SHARD_DIR")) mkdir((shard_dir()+"/vsimem").c_str(),0755); bool th=thorough();
  struct TS{int gx,gy,w,h;};
  for(auto s:std::vector<TS>{{2,1,3,3},{1,2,3,3},{2,2,2,2},{2,2,3,3},{3,1,2,3},{2,2,1,1},{4,1,1,3}}) for(int ranks=2;ranks<=4;ranks++) suite("sched/"+wh(s.gx,s.gy)+"/"+wh(s.w,s.h)+"/r"+std::to_string(ranks),(th?12:6)*NB,[=](uint64_t i){ Dig d(i); Cfg c; c.t={s.gx,s.gy,s.w,s.h}; c.ranks=ranks; c.ret=d(3); c.sync=d(2); c.rev=th?d(2):(i+i/6+i/18)%2; c.all=true; int k=d(NB); c.byname=k&1; if(k%5==4&&s.gx*s.gy==4) c.t.nulls=1u<<(k%4); run(base(k,c.t.W(),c.t.H()),c); });
  auto vary=[](Cfg&c,uint64_t i){ c.t.orient=(i/3)%4; c.t.flipH=i%5==2; c.t.flipV=i%5==0; c.ret=i%7==3?2:i%7==5?1:0; c.ranks=2+i%2; c.byname=i%11==0; };
  for(auto s:std::vector<TS>{{2,2,2,2},{3,2,2,1},{2,3,1,2},{3,3,1,1},{2,2,3,3},{4,3,1,2}}){ if(!th&&s.gx*s.gy>9) continue; const unsigned nm=(1u<<(s.gx*s.gy))-1; const int nb=th||nm<100?NB:4; suite("absent/"+wh(s.gx,s.gy)+"/"+wh(s.w,s.h),(uint64_t)nm*nb,[=](uint64_t i){ Cfg c; c.t={s.gx,s.gy,s.w,s.h}; vary(c,i); Dig d(i); c.t.nulls=d(nm); int b=d(nb); if(nb<NB) b=(int[]){0,7,8,6}[b]; run(base(b,c.t.W(),c.t.H()),c); }); }
  // every direction raster of the tiniest mosaics
  for(auto s:std::vector<TS>{{2,2,1,1},{2,1,1,2},{1,2,2,1},{4,1,1,1},{1,4,1,1},{2,1,2,1},{1,2,1,2}}) suite("full/"+wh(s.gx,s.gy)+"/"+wh(s.w,s.h),th||(s.gx==2&&s.gy==2)?10000:2000,[=](uint64_t i){ if(!(th||(s.gx==2&&s.gy==2))) i=i*5+(i/2)%5; Cfg c; c.t={s.gx,s.gy,s.w,s.h}; vary(c,i); Dig d(i); Dir r(4); for(int&v:r) v=ALL[d(10)]; run(r,c); });
  if(th) for(auto s:std::vector<TS>{{3,2,1,1},{3,1,1,2},{1,2,3,1}}) suite("full/"+wh(s.gx,s.gy)+"/"+wh(s.w,s.h),1000000/2,[=](uint64_t i){ Cfg c; c.t={s.gx,s.gy,s.w,s.h}; vary(c,i); Dig d(i*2+(i%2)); Dir r(6); for(int&v:r) v=ALL[d(10)]; run(r,c); });
  // deviations from long-path fields
  for(int b=0;b<NB;b++) for(auto s:th?std::vector<TS>{{2,2,3,3},{3,2,2,3},{2,3,4,2},{6,1,1,5},{1,5,6,1},{3,3,2,2},{6,6,1,1}}:std::vector<TS>{{2,2,3,3},{3,2,2,2},{5,1,1,4},{1,4,5,1}}){ Tiling t{s.gx,s.gy,s.w,s.h}; int n=t.W()*t.H(); std::string nm=std::to_string(b)+"/"+wh(s.gx,s.gy)+"/"+wh(s.w,s.h);
    suite("dev1-"+nm,n*10,[=](uint64_t i){ Cfg c; c.t=t; vary(c,i); run(dev(i,base(b,t.W(),t.H()),1,ALL),c); });
    if(th) suite("dev2-"+nm,(uint64_t)n*n*16,[=](uint64_t i){ Cfg c; c.t=t; vary(c,i); run(dev(i,base(b,t.W(),t.H()),2,{0,255,3,6}),c); }); }
  // directions of terrains
  for(int b=0;b<NBASE;b++) for(auto s:std::vector<TS>{{2,2,3,3},{3,3,3,2}}){ Tiling t{s.gx,s.gy,s.w,s.h}; int W=t.W(),H=t.H(); suite("dem-"+std::to_string(b)+"/"+wh(s.gx,s.gy)+"/"+wh(s.w,s.h),dev_size(W,H,1,4),[=](uint64_t i){ Cfg c; c.t=t; vary(c,i); run(d8_of(dev_grid(i,base_grid(b,W,H),1,{-1,0,2,7})),c); }); }
  // one raster cut into blocks
  { std::vector<std::pair<int,int>> rs{{5,4},{6,5},{4,1},{1,4},{7,3}}; for(auto r:rs) for(int bw=1;bw<=r.first;bw++) for(int bh=1;bh<=r.second;bh++){ int RW=r.first,RH=r.second; if((RW+bw-1)/bw*((RH+bh-1)/bh)>(th?42:12)) continue; suite("one/"+wh(RW,RH)+"/"+wh(bw,bh),NB*(th?RW*RH*5:6),[=](uint64_t i){ Cfg c; c.t={1,1,bw,bh}; c.RW=RW; c.RH=RH; c.ret=i%3; c.ranks=2+i%3; Dig d(i); Dir x=base(d(NB),RW,RH); if(th) x=dev(i/NB,x,1,{0,1,4,6,255}); else { int k=d(6); if(k) x[(k*7)%(RW*RH)]=ALL[(k*3)%10]; } run(x,c); }); } }
  return mc::main(argc,argv);
}
