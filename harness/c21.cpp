// C21: every history of seeding, drawing, saving and restoring up to a depth, by several threads; every interleaving of
// threads that draw at once.
#include "../common/omp_sched.hpp"
#include "c21_spec.hpp"
#include <limits>
#include <cmath>
#include <algorithm>
using namespace mc;
struct L { void(*seed)(uint64_t); double(*draw)(int,int); void(*save)(int,std::string*); void(*restore)(int,const std::string*); void(*all)(const int*,int,double*,int); int(*i)(int,int); double(*r)(double,double),(*n)(double,double); };
static bool instrumented=false; // the copy of the library in use: compiled with instrumentation for the interleavings
static L load(const char*so){ void*h=dlopen((std::string(getenv("MC_BDIR"))+"/"+so).c_str(),RTLD_NOW|RTLD_LOCAL); if(!h){ std::fprintf(stderr,"%s\n",dlerror()); abort(); } L l; auto g=[&](const char*n){ void*p=dlsym(h,n); if(!p) abort(); return p; };
  l.seed=(decltype(l.seed))g("c21_seed"); l.draw=(decltype(l.draw))g("c21_draw"); l.save=(decltype(l.save))g("c21_save"); l.restore=(decltype(l.restore))g("c21_restore"); l.all=(decltype(l.all))g("c21_all"); l.i=(decltype(l.i))g("c21_int"); l.r=(decltype(l.r))g("c21_real"); l.n=(decltype(l.n))g("c21_normal"); 
  l.seed(7); for(int k=0;k<6;k++) omx::fixed(1,[&]{ l.draw(0,k); }); return l; }
static L&lib(){ if(instrumented){ static L l=load("rndlib.so"); return l; } static L l=load("rndfast.so"); return l; }
static double drawT(int T,int t,int k){ double r=0; omx::fixed(T,[&]{ r=lib().draw(t,k); }); return r; }
static void seedT(int T,uint64_t s){ omx::fixed(T,[&]{ lib().seed(s); }); }
static const uint64_t SEEDS[]={1,2,3,7,123456789,0xFFFFFFFFull,0x100000000ull,0x100000001ull,0x200000001ull,0x8000000000000000ull,0xFFFFFFFFFFFFFFFFull};
static const char*KN[]={"uniform_rand_int","uniform_rand_real","normal_rand","uniform_bits<uint32_t>","uniform_bits<int64_t>","rand_engine()()"};
// What a stream must produce is learnt once per (seed, thread, kinds drawn since): a function of nothing else.
static std::map<std::string,double>&memo(){ static auto*m=new std::map<std::string,double>(); return *m; }
// The reference for a key is computed in the plainest history: seed, then draw in one team of the widest size.
static double reference(const std::string&key){ auto&m=memo(); auto it=m.find(key); if(it!=m.end()) return it->second; if(m.size()>2000000) m.clear(); size_t p; uint64_t seed=std::stoull(key,&p); int t=std::stoi(key.substr(p+1),nullptr); std::string ks=key.substr(key.rfind(':')+1); seedT(8,seed); double r=0; for(char c:ks) r=drawT(8,t,c-'0'); return m[key]=r; }
struct Op { int k,t,a; };
static std::string name(const Op&o){ std::ostringstream s; if(o.k==0) s<<"seed_rand("<<SEEDS[o.a]<<")"; else if(o.k==1) s<<"thread "<<o.t<<": "<<KN[o.a]; else if(o.k==2) s<<"thread "<<o.t<<": save"; else if(o.k==3) s<<"thread "<<o.t<<": restore"; else s<<"teams of "<<o.a; return s.str(); }
static void history(const std::vector<Op>&ops,int T){ // a history that does not end in a draw is covered by those that go on to draw
  if(ops.back().k!=1) return;
  // the references come first: computing them disturbs the engines
  std::vector<std::string> want(ops.size()); { std::vector<std::string> k(16); std::string sv; bool draws=false; uint64_t s0=1; for(int t=0;t<16;t++) k[t]=std::to_string(s0)+":"+std::to_string(t)+":"; 
    for(size_t i=0;i<ops.size();i++){ auto&o=ops[i]; if(o.k==0) for(int t=0;t<16;t++) k[t]=std::to_string(SEEDS[o.a])+":"+std::to_string(t)+":"; else if(o.k==1){ k[o.t]+=(char)('0'+o.a); want[i]=k[o.t]; draws=true; } else if(o.k==2) sv=k[o.t]; else if(o.k==3&&sv.size()) k[o.t]=sv; }
    if(!draws) return; for(auto&w:want) if(w.size()) reference(w); }
  states(); nontrivial(); seedT(T,1); std::string sv; int n=0; uint64_t hh=0;
  for(size_t i=0;i<ops.size();i++){ auto&o=ops[i]; trans(); if(o.k==4){ T=o.a; continue; } if(o.k==0) seedT(T,SEEDS[o.a]); else if(o.k==1){ int team=std::max(T,o.t+1); double v=drawT(team,o.t,o.a),w=reference(want[i]); n++; hh=mix(hh,hbits(v)); if(!(v==w)){ std::ostringstream s; s<<"history (team of "<<T<<"):"; for(size_t j=0;j<=i;j++) s<<" "<<name(ops[j])<<";"; s<<" gives "<<v<<"; after seeding and drawing the same kinds of numbers it is "<<w; violation(std::string("history:")+KN[o.a],s.str()); return; } } else if(o.k==2) omx::fixed(std::max(T,o.t+1),[&]{ lib().save(o.t,&sv); }); else if(o.k==3&&sv.size()) omx::fixed(std::max(T,o.t+1),[&]{ lib().restore(o.t,&sv); }); }
  traces(); outcome(hh);
}
static void streams(int ai,int bi,int ta,int tb){ // two streams that must differ
  if(ai==bi&&ta==tb) return; states(); nontrivial(); std::vector<double> a,b; seedT(4,SEEDS[ai]); for(int i=0;i<12;i++) a.push_back(drawT(64,ta,5)); seedT(4,SEEDS[bi]); for(int i=0;i<12;i++) b.push_back(drawT(64,tb,5)); int same=0; for(int i=0;i<12;i++) same+=a[i]==b[i]; bool sh=false; for(int s=1;s<6;s++){ bool e=true,f=true; for(int i=0;i+s<12;i++){ e&=a[i]==b[i+s]; f&=b[i]==a[i+s]; } sh|=e||f; }
  outcome(hbits(a[0])); if(same>=6||sh){ std::ostringstream s; s<<"seed "<<SEEDS[ai]<<" thread "<<ta<<" and seed "<<SEEDS[bi]<<" thread "<<tb<<" give the same sequence: "<<a[0]<<" "<<a[1]<<" "<<a[2]<<"... and "<<b[0]<<" "<<b[1]<<" "<<b[2]<<"..."; violation("streams",s.str()); } }
static void entropy(int T){ states(); nontrivial(); std::set<double> s; int n=0; for(int r=0;r<3;r++){ seedT(T,0); for(int t=0;t<T;t++){ s.insert(drawT(T,t,4)); n++; } } if((int)s.size()<n) violation("entropy","seeding from the random device gave the same first number twice (team of "+std::to_string(T)+")"); }
static void ranges(int r,int si){ states(); nontrivial(); static const int IR[][2]={{0,0},{0,1},{-1,1},{-3,5},{5,5},{-2147483647-1,2147483647},{2147483646,2147483647},{-2147483647-1,-2147483647},{0,2147483647}}; static const double e=std::nextafter(1.0,2.0); static const double RR[][2]={{0,1},{1,e},{1,std::nextafter(e,2.0)},{-1,1},{0,5e-324},{0,1e-323},{-5e-324,0},{1e16,1e16+2},{1e16,1e16+4},{-1e307,1e307},{16777216,16777217},{-2,-1},{100,200}};
  seedT(1,SEEDS[si]); std::ostringstream s; if(r<9){ int a=IR[r][0],b=IR[r][1]; std::set<int> seen; for(int i=0;i<600;i++){ int v=lib().i(a,b); if(v<a||v>b){ s<<"uniform_rand_int("<<a<<","<<b<<") gives "<<v; violation("range",s.str()); return; } seen.insert(v); } if((long)b-a<10&&(long)seen.size()!=(long)b-a+1){ s<<"uniform_rand_int("<<a<<","<<b<<") gave only "<<seen.size()<<" different values in 600 draws"; violation("closed",s.str()); } else if((long)b-a>=10&&seen.size()<590) violation("closed","few different integers"); outcome(seen.size()); }
  else { double a=RR[r-9][0],b=RR[r-9][1]; double mn=b,mx=a; for(int i=0;i<600;i++){ double v=lib().r(a,b); if(!(v>=a&&v<b)){ s.precision(20); s<<"uniform_rand_real("<<a<<","<<b<<") gives "<<v; violation("range",s.str()); return; } mn=std::min(mn,v); mx=std::max(mx,v); } if(b-a>1e-3&&a>-1e300&&std::fabs(a)<1e6&&(mn>a+(b-a)*0.1||mx<b-(b-a)*0.1)){ s<<"600 draws of uniform_rand_real("<<a<<","<<b<<") lie between "<<mn<<" and "<<mx; violation("spread",s.str()); } outcome(hbits(mn)); } }
static void normals(int si,int p){ states(); nontrivial(); static const double P[][2]={{0,1},{5,2},{-100,0.5},{1e6,1e3}}; seedT(1,SEEDS[si]); double m=0,q=0; const int N=2000; for(int i=0;i<N;i++){ double v=(lib().n(P[p][0],P[p][1])-P[p][0])/P[p][1]; m+=v; q+=v*v; } m/=N; q=std::sqrt(q/N-m*m); outcome(hbits(m)); if(std::fabs(m)>0.15||std::fabs(q-1)>0.12){ std::ostringstream s; s<<"2000 draws of normal_rand("<<P[p][0]<<","<<P[p][1]<<") are centred "<<m<<" deviations off and spread "<<q<<" deviations"; violation("normal",s.str()); } }
static void threads(const std::vector<int>&kinds,int T,int bound,int si){ states(); instrumented=true; int n=kinds.size(); std::vector<double> ref(T*n),out(T*n); seedT(T,SEEDS[si]); omx::fixed(T,[&]{ lib().all(kinds.data(),n,ref.data(),n); });
  // one at a time gives the same numbers
  seedT(T,SEEDS[si]); for(int t=T-1;t>=0;t--) for(int i=0;i<n;i++){ double v=drawT(T,t,kinds[i]); if(v!=ref[t*n+i]){ violation("order","thread "+std::to_string(t)+" draws other numbers when the threads draw one after another"); instrumented=false; return; } }
  std::vector<std::string> st(T); seedT(T,SEEDS[si]); for(int t=0;t<T;t++) omx::fixed(T,[&]{ lib().save(t,&st[t]); });
  std::string bad,sched; auto r=omx::explore(T,bound,T>4?0:9,3000000,[&]{ omx::S().T=T; std::fill(out.begin(),out.end(),-12345); for(int t=0;t<T;t++) lib().restore(t,&st[t]); lib().all(kinds.data(),n,out.data(),n); },[&](const std::string&why,const std::string&sc){ bad=why; if(bad.empty()) for(int t=0;t<T&&bad.empty();t++) for(int i=0;i<n;i++) if(out[t*n+i]!=ref[t*n+i]){ bad="thread "+std::to_string(t)+" draw "+std::to_string(i)+" ("+KN[kinds[i]]+") gives "+std::to_string(out[t*n+i])+" instead of "+std::to_string(ref[t*n+i]); break; } sched=sc; return bad.empty(); });
  instrumented=false; traces(r.runs); if(r.runs>1) nontrivial(); count("schedules",r.runs); if(r.racy) count("cases_with_races"); if(bad.size()) violation("threads",std::to_string(T)+" threads drawing at once: "+bad+"; choices "+sched.substr(0,400)); }
int main(int c,char**v){ bool th=thorough();
  auto hist=[&](const std::string&nm,std::vector<Op> al,int depth,int T){ uint64_t n=1; for(int i=0;i<depth;i++) n*=al.size(); suite("hist-"+nm+"/"+std::to_string(depth)+"/T"+std::to_string(T),n,[=](uint64_t i){ std::vector<Op> ops; for(int d=0;d<depth;d++){ ops.push_back(al[i%al.size()]); i/=al.size(); } history(ops,T); }); };
  std::vector<Op> full; for(int a:{0,1,7}) full.push_back({0,0,a}); for(int t=0;t<2;t++){ for(int k:{0,1,2,4}) full.push_back({1,t,k}); full.push_back({2,t,0}); full.push_back({3,t,0}); } full.push_back({4,0,1}); full.push_back({4,0,5});
  hist("full",full,th?4:3,2); hist("full",full,2,1); hist("full",full,2,33);
  std::vector<Op> nr={{0,0,0},{0,0,1},{1,0,2},{1,0,1},{2,0,0},{3,0,0}}; hist("normal",nr,th?7:5,1); hist("normal",nr,th?5:4,4);
  std::vector<Op> th3={{0,0,3},{0,0,8},{4,0,1},{4,0,3},{1,0,0},{1,2,0},{1,2,2},{2,2,0},{3,0,0}}; hist("teams",th3,th?5:4,3);
  int ns=sizeof(SEEDS)/8; static const int TH[]={0,1,2,7,31,32,33,63}; suite("streams",(uint64_t)ns*ns*64,[=](uint64_t i){ int a=i%ns; i/=ns; int b=i%ns; i/=ns; streams(a,b,TH[i%8],TH[i/8]); });
  suite("entropy",8,[](uint64_t i){ entropy(i+1); }); suite("ranges",22*(uint64_t)ns,[=](uint64_t i){ ranges(i%22,i/22); }); suite("normal",4*(uint64_t)ns,[=](uint64_t i){ normals(i/4,i%4); });
  for(int T:{2,3}) for(int n=1;n<=(T==2?3:2);n++){ uint64_t m=1; for(int i=0;i<n;i++) m*=6; suite("threads/T"+std::to_string(T)+"/"+std::to_string(n),m*2,[=](uint64_t i){ int si=i%2; i/=2; std::vector<int> k; for(int j=0;j<n;j++){ k.push_back(i%6); i/=6; } threads(k,T,th?3:2,si); }); }
  suite("threads/T40",2,[](uint64_t i){ threads({0,1,2,5},40,0,i); });
  return mc::main(c,v);
}
