// C20: every interleaving (up to a preemption bound) of 2 and 3 threads against the one-thread result.
#include "../common/omp_sched.hpp"
#include "../common/spaces.hpp"
#include "c20_spec.hpp"
using namespace mc;
typedef void(*Entry)(const C20In*,C20Out*);
static Entry entry(){ static Entry e=[]{ void*h=dlopen((std::string(getenv("MC_BDIR"))+"/omplib.so").c_str(),RTLD_NOW|RTLD_LOCAL); if(!h){ std::fprintf(stderr,"%s\n",dlerror()); abort(); } return (Entry)dlsym(h,"c20_run"); }(); return e; }
static const char*RN[]={"FindFlats","GetFlatMask","ResolveFlatsEpsilon","d8_flow_directions","barnes_flat_resolution_d8 + d8_flow_accum","dinf_flow_directions","resolve_flats_barnes_dinf","d8_flow_accum","dinf_upslope_area","terrain attributes","FM_D8/FM_D4","FM_Quinn/Freeman/Holmgren","FM_Tarboton/OCallaghan","depression hierarchy + FillSpillMerge","PriorityFlood_Zhou2016 + FA_Quinn","Perimeter/dem_surface_area","resolve_flats_barnes + d8_flow_flats"};
static std::string diff(const C20Out&a,const C20Out&b){ if(a.err!=b.err) return "'"+b.err+"' instead of '"+a.err+"'"; if(a.v.size()!=b.v.size()) return "sizes differ"; for(size_t i=0;i<a.v.size();i++) if(!(a.v[i]==b.v[i]||(a.v[i]!=a.v[i]&&b.v[i]!=b.v[i]))) return "value "+std::to_string(i)+" is "+std::to_string(b.v[i])+" instead of "+std::to_string(a.v[i]); return ""; }
static void one(const C20In&in,int T,int bound,int reg,uint64_t cap){
  states(); C20Out ref,cur; omx::S().T=1; entry()(&in,&ref); std::string bad,sched; std::set<uint64_t> hs;
  auto r=omx::explore(T,bound,reg,cap,[&]{ cur=C20Out(); entry()(&in,&cur); },[&](const std::string&why,const std::string&sc){ bad=why.empty()?diff(ref,cur):why; sched=sc; uint64_t h=0; for(double d:cur.v) h=mix(h,hbits(d)); hs.insert(h); return bad.empty(); });
  traces(r.runs); count("executions",r.runs); if(r.capped) count("capped_cases"); if(r.racy) count("cases_with_races"); if(r.runs>1) nontrivial(); for(auto h:hs) outcome(h);
  if(!bad.empty()){ std::ostringstream o; o<<RN[in.routine]<<", "<<T<<" threads, "<<in.w<<"x"<<in.h<<" grid:"; for(size_t i=0;i<in.z.size();i++) o<<(i%in.w?" ":" / ")<<in.z[i]; o<<"\nchoices "<<sched.substr(0,600)<<"\n"<<bad; violation(std::string("omp:")+RN[in.routine],o.str()); }
  else if(want_sample()&&r.runs>2) sample(std::string(RN[in.routine])+", "+std::to_string(T)+" threads: "+std::to_string(r.runs)+" schedules, "+std::to_string(r.racy)+" racing sites");
}
static C20In mk(int r,const Grid&g,int ty){ C20In i; i.routine=r; i.w=g.w; i.h=g.h; i.z=g.v; i.ty=ty; return i; }
int main(int c,char**v){ bool th=thorough();
  for(int r=0;r<17;r++){ bool dirs=r==7,dinf=r==8;
    auto add=[&](const std::string&n,uint64_t cnt,std::function<Grid(uint64_t)> f,int T,int bound,int reg){ suite(n+"/"+std::to_string(r)+"/T"+std::to_string(T)+"p"+std::to_string(bound)+"r"+std::to_string(reg),cnt,[=](uint64_t i){ one(mk(r,f(i),i%3),T,bound,reg,5000000); }); };
    if(dirs||dinf){ std::vector<double> A=dirs?std::vector<double>{0,1,2,3,4,5,6,7,8}:std::vector<double>{0,0.5,1,2,3.5,4,6,7.25}; 
      add("2x2",full_size(2,2,A.size()),[=](uint64_t i){ return full_grid(i,2,2,A); },2,th?4:2,9); add("1x4",full_size(1,4,A.size()),[=](uint64_t i){ return full_grid(i,1,4,A); },2,th?3:1,9); add("1x4",full_size(1,4,A.size()),[=](uint64_t i){ return full_grid(i,1,4,A); },3,th?2:1,th?9:1);
      std::vector<double> A3=dirs?std::vector<double>{3,5,7}:std::vector<double>{1,2,5.5}; add("3x3",full_size(3,3,3),[=](uint64_t i){ return full_grid(i,3,3,A3); },2,th?3:1,9); add("3x3",full_size(3,3,3)/(th?1:27),[=](uint64_t i){ return full_grid(th?i:i*27+i%27,3,3,A3); },3,th?2:1,9); if(th) add("2x4",full_size(2,4,3),[=](uint64_t i){ return full_grid(i,2,4,A3); },3,2,9);
    } else {
      auto dev=[](int W,int H,int k){ return [=](uint64_t i){ int b=i%NBASE; Grid g=base_grid(b,W,H); i/=NBASE; for(int j=0;j<k;j++){ uint64_t p=i%(1+W*H); i/=1+W*H; if(p) g.v[p-1]=(p+j)%3==0?-9999:(p+j)%3==1?-1:3; } return g; }; };
      add("3x3",full_size(3,3,2),[=](uint64_t i){ return full_grid(i,3,3,{0,1}); },2,th?4:2,9); add("3x3",full_size(3,3,2),[=](uint64_t i){ return full_grid(i,3,3,{0,1}); },3,th?2:1,th?3:r==13?1:2);
      add("dev4x4",NBASE*17,dev(4,4,1),2,th?3:2,th?9:2); add("dev3x5",NBASE*16,dev(3,5,1),2,th?3:2,th?9:2); add("dev5x4",NBASE*21,dev(5,4,1),3,th?2:1,th?2:1); if(th){ add("dev5x5",NBASE*26*26,dev(5,5,2),2,2,2); add("dev4x4",NBASE*17,dev(4,4,1),4,1,2); }
      if(th) add("4x4",1<<16,[=](uint64_t i){ return full_grid(i,4,4,{0,1}); },2,1,2);
    } }
  return mc::main(c,v);
}
