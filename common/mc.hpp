// Bounded-exhaustive exploration core shared by all harnesses.
//
// A harness registers "suites".  A suite is a finite indexed space: case i is
// decoded from its index, executed against the real code, and judged by an
// oracle.  The explorer walks *every* index of every suite (sharded over
// processes); nothing is sampled.  A case can be replayed alone from
// (suite,index), which is what a VIOLATION's replay file names.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csignal>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <chrono>

namespace mc {

struct Suite {
  std::string name;
  uint64_t count;
  std::function<void(uint64_t)> run;
};

struct Progress { volatile uint64_t suite; volatile uint64_t idx; volatile uint64_t beat; };

struct Global {
  std::vector<Suite> suites;
  Progress dummy{0,0,0};
  Progress *prog=&dummy;
  uint64_t states=0, transitions=0, traces=0, nontrivial=0, cases=0;
  std::map<std::string,uint64_t> suite_cases;
  std::map<std::string,uint64_t> counters;
  std::unordered_set<uint64_t> outcomes;
  bool outcomes_capped=false;
  std::vector<std::string> samples;
  std::vector<std::string> viol;          // JSON objects
  std::map<std::string,uint64_t> viol_count;
  std::vector<std::string> notes;
  std::string cur_suite; uint64_t cur_idx=0;
  bool replay=false; bool nt=false;
  FILE *say=stdout;
};
inline Global& G(){ static Global g; return g; }

inline bool thorough(){ const char*t=getenv("VERIF_TIER"); return t && std::string(t)=="thorough"; }
inline long seed(){ const char*t=getenv("VERIF_SEED"); return t?atol(t):1; }

inline std::string jesc(const std::string&s){
  std::string o; char b[8];
  for(unsigned char c:s){
    if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n') o+="\\n";
    else if(c<32||c>126){snprintf(b,sizeof b,"\\u%04x",c);o+=b;} else o+=c;
  }
  return o;
}

inline void suite(const std::string&name,uint64_t count,std::function<void(uint64_t)> f){ G().suites.push_back({name,count,f}); }

// sig: stable identification of the failing call site + kind of failure.
inline void violation(const std::string&sig,const std::string&detail){
  auto&g=G();
  uint64_t n=++g.viol_count[sig]; if(!g.replay&&getenv("MC_FIRST")) _exit(99);
  if(g.replay) fprintf(g.say,"REPLAY-VIOLATION sig=%s\n%s\n",sig.c_str(),detail.c_str());
  if(n<=2 && g.viol.size()<200){
    std::ostringstream o;
    o<<"{\"sig\":\""<<jesc(sig)<<"\",\"suite\":\""<<jesc(g.cur_suite)<<"\",\"idx\":"<<g.cur_idx<<",\"detail\":\""<<jesc(detail)<<"\"}";
    g.viol.push_back(o.str());
  }
}
inline void states(uint64_t n=1){G().states+=n;}
inline void trans(uint64_t n=1){G().transitions+=n;}
inline void traces(uint64_t n=1){G().traces+=n;}
inline void nontrivial(){G().nt=true;}
inline void count(const std::string&k,uint64_t n=1){G().counters[k]+=n;}
inline void beat(){G().prog->beat=G().prog->beat+1;}
inline void outcome(uint64_t h){ auto&g=G(); if(g.outcomes.size()<150000) g.outcomes.insert(h); else g.outcomes_capped=true; }
inline void sample(const std::string&s){ auto&g=G(); if(g.samples.size()<4) g.samples.push_back(g.cur_suite+"#"+std::to_string(g.cur_idx)+": "+s); }
inline bool want_sample(){ return G().samples.size()<4; }

inline uint64_t mix(uint64_t h,uint64_t v){ h^=v+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdULL; h^=h>>32; return h; }
inline uint64_t hbits(double d){ uint64_t u; if(d==0)d=0; memcpy(&u,&d,8); return u; }

inline uint64_t ipow(uint64_t b,uint64_t e){ uint64_t r=1; while(e--) r*=b; return r; }

// Case decoder: peel mixed-radix digits off an index.
struct Dig { uint64_t v; explicit Dig(uint64_t i):v(i){} uint64_t operator()(uint64_t radix){ uint64_t d=v%radix; v/=radix; return d; } };

template<class V> std::string show(const V&v,int w){
  std::ostringstream o; o.precision(17); int i=0; for(const auto&x:v){ o<<+x<<((++i)%w?" ":" / "); } return o.str();
}

// ---- families of grids -----------------------------------------------------
// Full: all grids over an alphabet.  Dev: a base surface with every choice of
// at most d cells replaced by an alphabet value.
struct Grid { int w=0,h=0; std::vector<double> v; double&at(int x,int y){return v[y*w+x];} double at(int x,int y)const{return v[y*w+x];} };

inline uint64_t full_size(int w,int h,size_t k){ return ipow(k,(uint64_t)w*h); }
inline Grid full_grid(uint64_t i,int w,int h,const std::vector<double>&a){
  Grid g; g.w=w; g.h=h; g.v.resize(w*h); Dig d(i); for(auto&x:g.v) x=a[d(a.size())]; return g;
}
enum Base { FLAT, RAMPX, RAMPY, BOWL, CONE, STRIPES, SPIRAL, CHECK, NBASE };
inline Grid base_grid(int b,int w,int h){
  Grid g; g.w=w; g.h=h; g.v.assign(w*h,2);
  const int cx=w/2, cy=h/2;
  for(int y=0;y<h;y++) for(int x=0;x<w;x++){
    int e=std::min(std::min(x,y),std::min(w-1-x,h-1-y));
    double v=2;
    switch(b){
      case FLAT: v=2; break;
      case RAMPX: v=x; break;
      case RAMPY: v=h-y; break;
      case BOWL: v=5-e; break;
      case CONE: v=e; break;
      case STRIPES: v=(x%2)?3:1; break;
      case SPIRAL: v=((x*7+y*3)%5); break;
      case CHECK: v=((x+y)%2)?3:2; break;
    }
    (void)cx;(void)cy;
    g.at(x,y)=v;
  }
  return g;
}
inline uint64_t choose(uint64_t n,uint64_t k){ if(k>n) return 0; uint64_t r=1; for(uint64_t i=0;i<k;i++) r=r*(n-i)/(i+1); return r; }
// number of grids with exactly d deviations
inline uint64_t dev_size(int w,int h,int d,size_t k){ return choose((uint64_t)w*h,d)*ipow(k,d); }
inline Grid dev_grid(uint64_t i,const Grid&base,int d,const std::vector<double>&a){
  Grid g=base; uint64_t n=g.v.size(); Dig dg(i);
  std::vector<double> vals(d); for(auto&x:vals) x=a[dg(a.size())];
  uint64_t r=dg.v; // combinatorial number system
  int k=d; 
  for(;k>0;k--){ uint64_t c=k-1; while(choose(c+1,k)<=r) c++; r-=choose(c,k); g.v[c]=vals[k-1]; if(c>=n) abort(); }
  return g;
}

struct Shard { int i,n; };

inline void write_result(const char*path){
  auto&g=G(); FILE*f=fopen(path,"w"); if(!f){perror(path);exit(3);}
  fprintf(f,"{\"cases\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"nontrivial\":%llu,\"outcomes_capped\":%s,",
    (unsigned long long)g.cases,(unsigned long long)g.states,(unsigned long long)g.transitions,(unsigned long long)g.traces,(unsigned long long)g.nontrivial,g.outcomes_capped?"true":"false");
  auto mapj=[&](const char*n,const std::map<std::string,uint64_t>&m){ fprintf(f,"\"%s\":{",n); bool c=false; for(auto&k:m){ fprintf(f,"%s\"%s\":%llu",c?",":"",jesc(k.first).c_str(),(unsigned long long)k.second); c=true;} fprintf(f,"},"); };
  mapj("suites",g.suite_cases); mapj("counters",g.counters); mapj("viol_count",g.viol_count);
  fprintf(f,"\"samples\":["); for(size_t i=0;i<g.samples.size();i++) fprintf(f,"%s\"%s\"",i?",":"",jesc(g.samples[i]).c_str());
  fprintf(f,"],\"violations\":["); for(size_t i=0;i<g.viol.size();i++) fprintf(f,"%s%s",i?",":"",g.viol[i].c_str());
  fprintf(f,"],\"outcomes\":["); bool c=false; for(auto h:g.outcomes){ fprintf(f,"%s%llu",c?",":"",(unsigned long long)h); c=true; }
  fprintf(f,"]}\n"); fclose(f);
}

inline void run_case(const Suite&s,uint64_t i){
  auto&g=G(); g.cur_suite=s.name; g.cur_idx=i; g.prog->idx=i; g.cases++; g.nt=false;
  try{ s.run(i); }
  catch(const std::exception&e){ violation("exception@"+s.name,std::string("uncaught exception: ")+e.what()); }
  catch(...){ violation("exception@"+s.name,"uncaught non-standard exception"); }
  if(g.nt) g.nontrivial++;
}

struct NullBuf : std::streambuf { int overflow(int c) override { return c==EOF?0:c; } std::streamsize xsputn(const char*,std::streamsize n) override { return n; } };

inline int main(int argc,char**argv){
  auto&g=G();
  static NullBuf&nb=*new NullBuf; // outlives the static destructors
  if(!getenv("MC_NOISY")){ std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb); std::clog.rdbuf(&nb); }
  std::string mode=argc>1?argv[1]:"list";
  auto arg=[&](const char*n,const char*d)->std::string{ for(int i=2;i+1<argc;i++) if(std::string(argv[i])==n) return argv[i+1]; return d; };
  int fd=dup(1); g.say=fdopen(fd,"w");
  if(mode=="list"){ for(auto&s:g.suites) fprintf(g.say,"%s %llu\n",s.name.c_str(),(unsigned long long)s.count); fflush(g.say); return 0; }
  if(!getenv("MC_NOISY")){ int dn=open("/dev/null",O_WRONLY); dup2(dn,1); if(!getenv("MC_STDERR")) dup2(dn,2); }
  std::string memg=arg("--mem","0");
  if(memg!="0"){ rlimit r; r.rlim_cur=r.rlim_max=(rlim_t)atoll(memg.c_str())<<20; setrlimit(RLIMIT_AS,&r); }
  rlimit nc{0,0}; setrlimit(RLIMIT_CORE,&nc);
  std::string pf=arg("--progress","");
  if(!pf.empty()){
    int p=open(pf.c_str(),O_RDWR|O_CREAT,0644); if(p<0||ftruncate(p,sizeof(Progress))) return 3;
    g.prog=(Progress*)mmap(nullptr,sizeof(Progress),PROT_READ|PROT_WRITE,MAP_SHARED,p,0); close(p);
  }
  if(mode=="replay"){
    g.replay=true; std::string sn=arg("--suite",""); uint64_t idx=strtoull(arg("--idx","0").c_str(),0,10);
    bool found=false;
    for(size_t k=0;k<g.suites.size();k++) if(g.suites[k].name==sn){ found=true; g.prog->suite=k; run_case(g.suites[k],idx); }
    std::string out=arg("--out",""); if(!out.empty()) write_result(out.c_str());
    fprintf(g.say,"replayed %s #%llu: %zu violation(s)\n",sn.c_str(),(unsigned long long)idx,g.viol.size()); fflush(g.say);
    return !found?3:(g.viol.empty()?0:1);
  }
  int sh=atoi(arg("--shard","0").c_str()), n=atoi(arg("--n","1").c_str());
  std::string only=arg("--only","");
  for(size_t k=0;k<g.suites.size();k++){
    auto&s=g.suites[k];
    if(!only.empty() && s.name.find(only)==std::string::npos) continue;
    g.prog->suite=k; uint64_t before=g.cases;
    // spread neighbouring indices over shards; offset by suite so that tiny suites balance too
    for(uint64_t i=(sh+n-(k%n))%n;i<s.count;i+=n) run_case(s,i);
    g.suite_cases[s.name]+=g.cases-before;
  }
  write_result(arg("--out","/dev/null").c_str());
  return 0;
}

} // namespace mc
