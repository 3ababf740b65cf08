// C26: generated terrain for every size and seed in a range, every short history of calls, against an independent rendering of improved Perlin noise.
#include "../common/rd.hpp"
#include <richdem/terrain_generation.hpp>
#include "PerlinNoise.h"
#include <random>
#include <algorithm>
#include <array>
using namespace mc; using namespace richdem;
// ---- reference: improved Perlin noise by its definition (sum over the eight corners of the cell)
typedef std::array<int,256> Perm;
static Perm perm_of(uint32_t seed){ Perm p; for(int i=0;i<256;i++) p[i]=i; std::default_random_engine e(seed); std::shuffle(p.begin(),p.end(),e); return p; }
static Perm standard(){ return Perm{{151,160,137,91,90,15,131,13,201,95,96,53,194,233,7,225,140,36,103,30,69,142,8,99,37,240,21,10,23,190,6,148,247,120,234,75,0,26,197,62,94,252,219,203,117,35,11,32,57,177,33,88,237,149,56,87,174,20,125,136,171,168,68,175,74,165,71,134,139,48,27,166,77,146,158,231,83,111,229,122,60,211,133,230,220,105,92,41,55,46,245,40,244,102,143,54,65,25,63,161,1,216,80,73,209,76,132,187,208,89,18,169,200,196,135,130,116,188,159,86,164,100,109,198,173,186,3,64,52,217,226,250,124,123,5,202,38,147,118,126,255,82,85,212,207,206,59,227,47,16,58,17,182,189,28,42,223,183,170,213,119,248,152,2,44,154,163,70,221,153,101,155,167,43,172,9,129,22,39,253,19,98,108,110,79,113,224,232,178,185,112,104,218,246,97,228,251,34,242,193,238,210,144,12,191,179,162,241,81,51,145,235,249,14,239,107,49,192,214,31,181,199,106,157,184,84,204,176,115,121,50,45,127,4,150,254,138,236,205,93,222,114,67,29,24,72,243,141,128,195,78,66,215,61,156,180}}; }
static double ref_noise(const Perm&p,double x,double y,double z){
  // twelve edge directions of a cube, four of them repeated, by the low four bits of the corner's hash
  static const int dir[16][3]={{1,1,0},{-1,1,0},{1,-1,0},{-1,-1,0},{1,0,1},{-1,0,1},{1,0,-1},{-1,0,-1},{0,1,1},{0,-1,1},{0,1,-1},{0,-1,-1},{1,1,0},{0,-1,1},{-1,1,0},{0,-1,-1}};
  const double c[3]={x,y,z}; long b[3]; double f[3],s[3]; for(int k=0;k<3;k++){ b[k]=(long)std::floor(c[k]); f[k]=c[k]-b[k]; s[k]=f[k]*f[k]*f[k]*(f[k]*(f[k]*6-15)+10); }
  double sum=0; for(int m=0;m<8;m++){ double w=1,g=0; int h=0; for(int k=0;k<3;k++){ int o=m>>k&1; h=p[(h+(int)((b[k]+o)&255))&255]; w*=o?s[k]:1-s[k]; } for(int k=0;k<3;k++) g+=dir[h&15][k]*(f[k]-(m>>k&1)); sum+=w*g; }
  return (sum+1)/2;
}
static double ref_terrain(const Perm&p,int n,int x,int y){ return ref_noise(p,10.0*x/n,10.0*y/n,0.8); }
static bool near(double a,double b){ return std::fabs(a-b)<=1e-11; }
static const uint32_t SPECIAL[]={0x7ffffffeu,0x7fffffffu,0x80000000u,0x80000001u,0xfffffffeu,0xffffffffu,123456789u,0x10000u};
static uint32_t seed_of(uint64_t i,uint64_t small){ return i<small?(uint32_t)i:SPECIAL[i-small]; }
static std::string tag(int n,uint32_t s){ return "size "+std::to_string(n)+" seed "+std::to_string(s); }
// judge one generated raster
static bool judge(const char*site,const Array2D<double>&a,int n,uint32_t seed,const Perm&p,const std::string&how){
  if(a.width()!=n||a.height()!=n){ violation(std::string(site)+":shape",how+": "+std::to_string(a.width())+"x"+std::to_string(a.height())); return false; }
  for(int y=0;y<n;y++)for(int x=0;x<n;x++){ double v=a(x,y),w=ref_terrain(p,n,x,y);
    if(!(v>=0&&v<=1)){ std::ostringstream o; o.precision(17); o<<how<<" ("<<x<<","<<y<<") = "<<v; violation(std::string(site)+":range",o.str()); return false; }
    if(!near(v,w)){ std::ostringstream o; o.precision(17); o<<how<<" ("<<x<<","<<y<<") = "<<v<<", Perlin noise there is "<<w; violation(std::string(site)+":value",o.str()); return false; } }
  return true;
}
static void fillmeta(Array2D<double>&a,int k){ a.setNoData(k==0?-9999.0:k==1?0.5:std::nan("")); if(k==1){ a.geotransform={{10,2,0,20,0,-3}}; a.projection="PROJ"; a.metadata["PROCESSING_HISTORY"]="h"; } }
static bool metakept(const Array2D<double>&a,int k){ double nd=a.noData(); bool ok=k==0?nd==-9999.0:k==1?nd==0.5:nd!=nd; if(k==1) ok=ok&&a.geotransform==std::vector<double>{10,2,0,20,0,-3}&&a.projection=="PROJ"&&a.metadata.count("PROCESSING_HISTORY")&&a.metadata.at("PROCESSING_HISTORY")=="h"; return ok; }
// every size x seed; what the raster held before makes no difference
static void values(int n,uint32_t seed){
  Perm p=perm_of(seed); states(); if(n>1) nontrivial(); std::vector<double> first;
  for(int k=0;k<3;k++){ Array2D<double> a(n,n,k==0?0.0:k==1?1e300:std::nan("")); fillmeta(a,k); generate_perlin_terrain(a,seed); trans(); traces();
    if(!judge("terrain",a,n,seed,p,tag(n,seed))) return; if(!metakept(a,k)) violation("terrain:meta",tag(n,seed)+": NoData value, georeferencing or metadata changed");
    auto v=vals(a); if(k==0) first=v; else if(v!=first) violation("terrain:previous",tag(n,seed)+": the result depends on what the raster held before"); }
  uint64_t h=0; for(double v:first) h=mix(h,hbits(v)); outcome(h); if(want_sample()&&n==3) sample(tag(n,seed)+": "+show(first,n));
}
// distinct seeds, distinct terrain: all pairs among the first `m` seeds
static void distinct(uint64_t i,int m){ Dig d(i); uint32_t s=d(m),t=d(m); if(s>=t||(s==0&&t==1)) return; /* the engine maps seed 0 to 1 */ Array2D<double> a(12,12,0.0),b(12,12,0.0); generate_perlin_terrain(a,s); generate_perlin_terrain(b,t); states(); trans(2); traces(); nontrivial(); if(vals(a)==vals(b)) violation("terrain:seeds",tag(12,s)+" and "+tag(12,t)+" give the same terrain"); }
// histories of calls: generate into one of two rasters, refuse a non-square one, other random numbers drawn in between
static void histories(uint64_t i,int len){
  static const int SZ[]={1,3,4,10}; static const uint32_t SD[]={0,5,0xffffffffu}; std::vector<Array2D<double>> r; r.emplace_back(1,1,7.0); r.emplace_back(4,4,7.0); std::string ops; Dig d(i); states(); bool did=false;
  struct Want{int n;uint32_t s;bool gen;double fill;}; Want w[2]={{1,0,false,7},{4,0,false,7}};
  for(int j=0;j<len;j++){ int o=d(27); trans();
    if(o<24){ int t=o/12,n=SZ[o%12/3]; uint32_t s=SD[o%3]; ops+=" gen"+std::to_string(t)+"("+std::to_string(n)+","+std::to_string(s)+")"; if(r[t].width()!=n) r[t].resize(n,n,7.0); generate_perlin_terrain(r[t],s); w[t]={n,s,true,7}; did=true; }
    else if(o==24||o==25){ Array2D<double> q(o==24?3:2,o==24?2:3,8.0); ops+=o==24?" gen(3x2)":" gen(2x3)"; bool thrown=false; try{ generate_perlin_terrain(q,4); }catch(const std::exception&){ thrown=true; } if(!thrown) violation("terrain:nonsquare","a raster that is not square was accepted"); for(double v:vals(q)) if(v!=8.0) violation("terrain:nonsquare:changed","a refused raster was changed"); }
    else { ops+=" empty"; Array2D<double> q; generate_perlin_terrain(q,3); if(q.size()!=0) violation("terrain:empty","an empty raster is not empty any more"); }
    for(int t=0;t<2;t++){ if(w[t].gen){ static std::map<uint32_t,Perm> pm; if(!pm.count(w[t].s)) pm[w[t].s]=perm_of(w[t].s); if(!judge("terrain:history",r[t],w[t].n,w[t].s,pm[w[t].s],"after"+ops+": raster "+std::to_string(t)+" "+tag(w[t].n,w[t].s))) return; } else for(double v:vals(r[t])) if(v!=7){ violation("terrain:other","after"+ops+": raster "+std::to_string(t)+" changed"); return; } } }
  traces(); if(did) nontrivial(); outcome(i%1000003);
}
// two seeds that differ in one bit, by a rotation or in sign, one after the other and back: nothing remembered about the first may leak into the second
static void twins(uint64_t i){
  static const int SZ[]={1,2,3,10}; static const uint32_t B[]={0,1,5,255,256,65535,65536,1u<<24,0x7fffffffu,0x12345678u}; Dig d(i); int n=SZ[d(4)]; uint32_t s=B[d(10)]; int k=d(36); uint32_t t=k<32?s^(1u<<k):k==32?~s:k==33?0u-s:k==34?(s<<16|s>>16):__builtin_bswap32(s);
  states(); traces(); nontrivial(); uint32_t q[3]={s,t,s}; Array2D<double> a(n,n,7.0);
  for(int j=0;j<3;j++){ trans(); generate_perlin_terrain(a,q[j]); if(!judge("terrain:twins",a,n,q[j],perm_of(q[j]),tag(n,q[j])+" after seed "+std::to_string(j?q[j-1]:0))) return; } outcome(i);
}
// the noise function itself: lattice points, cell edges, negative coordinates, the period of 256
static const double NC[]={0,0.25,0.5,0.8,0.999,1,1.5,2,9.75,127.5,254.5,255,255.5,256,256.25,511.75,-0.25,-0.5,-1,-1.75,-255.5,-256,-300.125};
static void noise(uint64_t i,bool deflt){
  const int K=sizeof NC/sizeof*NC; Dig d(i); double x=NC[d(K)],y=NC[d(K)],z=NC[d(K)]; uint32_t s=d(8); Perm p=deflt?standard():perm_of(s); PerlinNoise pn=deflt?PerlinNoise():PerlinNoise(s); states(); trans(2); traces(); nontrivial();
  double v=pn.noise(x,y,z),w=ref_noise(p,x,y,z); outcome(hbits(v)); auto at=[&](){ std::ostringstream o; o.precision(17); o<<(deflt?"standard table":"seed "+std::to_string(s))<<" ("<<x<<","<<y<<","<<z<<")"; return o.str(); };
  if(!near(v,w)){ std::ostringstream o; o.precision(17); o<<at()<<" = "<<v<<", should be "<<w; violation(deflt?"noise:standard":"noise",o.str()); }
  if(pn.noise(x,y,z)!=v) violation("noise:again",at()+" differs when asked again");
}
int main(int c,char**v){
  bool th=thorough(); { Perm s=standard(); std::sort(s.begin(),s.end()); for(int i=0;i<256;i++) if(s[i]!=i) return 3; }
  const int N=th?64:26; const uint64_t S=th?200:60,SP=sizeof SPECIAL/sizeof*SPECIAL;
  suite("sizes",N*(S+SP),[=](uint64_t i){ values(1+i%N,seed_of(i/N,S)); });
  suite("large",8*(th?12:3),[=](uint64_t i){ static const int L[]={40,50,64,100,127,128,257,300}; values(L[i%8],seed_of(S-1+i/8,S)); });
  const int M=th?200:70; suite("seeds",(uint64_t)M*M,[=](uint64_t i){ distinct(i,M); });
  suite("histories",ipow(27,th?4:3),[=](uint64_t i){ histories(i,th?4:3); });
  suite("twins",4*10*36,[](uint64_t i){ twins(i); });
  const int K=sizeof NC/sizeof*NC; suite("noise",(uint64_t)K*K*K*(th?8:3),[=](uint64_t i){ noise(i,false); }); suite("standard",(uint64_t)K*K*K,[=](uint64_t i){ noise(i,true); });
  return mc::main(c,v);
}
