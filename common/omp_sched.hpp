// An OpenMP runtime on fibers whose scheduler is driven by the explorer.
//
// The code under test is compiled with -fopenmp -fsanitize=thread into a shared object that is linked against neither
// libgomp nor libtsan: the executable that loads it provides GOMP_*, omp_* and __tsan_*. The compiler's instrumentation
// therefore reports every memory access here. An access is a scheduling point if its site took part in a data race
// or other conflict (different threads, at least one write, same barrier phase, no common lock; atomics included) in any
// execution explored so far; critical sections and work sharing always are. Interleavings are enumerated depth first, up to a bound on preemptions
// and on the number of parallel regions that depart from the first schedule; switches away from a finished or blocked
// thread are free. Parallel regions whose threads never touched anything in common run in one order only: all their
// interleavings are equivalent.
#pragma once
#include "mc.hpp"
#include "fiber.hpp"
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <map>
#include <stdexcept>
#include <dlfcn.h>
#include <malloc.h>
namespace omx {
struct Acc { uint8_t tid,mask,write,atomic; uint32_t epoch; uint64_t locks; void*site; };
struct Th { mc::Fiber f; int state=0; /*0 ready 1 done 2 lock 3 barrier*/ uint64_t wait=0; uint32_t epoch=0; uint64_t locks=0; int ws=0,single=0; };
struct WS { long next,end,incr,chunk; int left=0; };
struct Sched {
  int T=1; bool in=false; int cur=0; std::vector<Th> th; void*main_sp=nullptr; void(*fn)(void*)=nullptr; void*data=nullptr; int nested=0;
  std::map<void*,int> lockid; std::vector<int> owner; std::map<int,WS> ws; int singles=0;
  // exploration
  std::vector<std::pair<int,int>> trace; size_t pos=0; int bound=0,used=0; std::unordered_set<void*> racy,pending; bool newracy=false; std::unordered_set<void*> dep,pdep; int regbound=99,devs=0; bool regdev=false,busy=false; struct Busy { bool&b; Busy(bool&x):b(x){ b=true; } ~Busy(){ b=false; } }; std::unordered_map<uintptr_t,std::vector<Acc>> shadow; uint64_t steps=0,maxsteps=2000000; std::string why; bool detect=true; int points=0,regions=0; bool ordered=false; /* fixed thread order instead of exploration */
  std::vector<char*> stacks; static constexpr size_t SZ=256*1024;
  int choose(int n){ if(n<=1||ordered||!dep.count((void*)fn)||(!regdev&&devs>=regbound)) return 0; int r=choose2(n); if(r>0&&!regdev){ regdev=true; devs++; } return r; }
  int choose2(int n){ if(pos<trace.size()){ int c=trace[pos].first; if(trace[pos].second!=n){ why="not deterministic: "+std::to_string(trace[pos].second)+" choices became "+std::to_string(n); trace[pos].second=n; if(c>=n) c=0; } pos++; return c; } trace.push_back({0,n}); pos++; return 0; }
  bool enabled(int t){ Th&h=th[t]; if(h.state==2) return owner[h.wait]<0; return h.state==0; }
  // picks the next thread; preemption only if allowed
  int pick(bool curok){ int n=0,cand[64]; if(curok){ cand[n++]=cur; if(used<bound) for(int t=0;t<(int)th.size();t++) if(t!=cur&&enabled(t)) cand[n++]=t; } else for(int t=0;t<(int)th.size();t++) if(enabled(t)) cand[n++]=t; if(!n) return -1; int c=choose(n); if(curok&&c>0) used++; return cand[c]; }
  void go(int t){ if(t==cur) return; int o=cur; cur=t; mc_switch(&th[o].f.sp,th[t].f.sp); }
  void depends(){ if(!dep.count((void*)fn)&&pdep.insert((void*)fn).second) newracy=true; }
  void point(){ if(!in||nested) return; depends(); points++; if(++steps>maxsteps){ if(why.empty()) why="does not end"; return; } int t=pick(true); go(t); }
  void lock(void*l){ if(!in||nested) return; auto it=lockid.find(l); int id; if(it==lockid.end()){ id=owner.size(); lockid[l]=id; owner.push_back(-1); } else id=it->second; point(); Th&h=th[cur]; if(owner[id]>=0){ h.state=2; h.wait=id; block(); th[cur].state=0; } owner[id]=cur; th[cur].locks|=1ull<<id; }
  void unlock(void*l){ if(!in||nested) return; int id=lockid[l]; owner[id]=-1; th[cur].locks&=~(1ull<<id); }
  void block(){ int t=pick(false); if(t<0){ deadlock(); return; } go(t); }
  void deadlock(){ if(why.empty()) why="deadlock"; std::fprintf(stderr,"omp deadlock\n"); abort(); }
  void barrier(){ if(!in||nested) return; Th&h=th[cur]; h.state=3; bool all=true; for(auto&x:th) if(x.state!=3&&x.state!=1) all=false; if(all){ for(auto&x:th) if(x.state==3){ x.state=0; x.epoch++; } } int t=pick(false); if(t<0) deadlock(); go(t); }
  void finish(); static void entry();
  void access(void*a,int sz,bool w,bool atomic,void*site){
    if(!in||nested) return; uintptr_t p=(uintptr_t)a; char*s=stacks[cur]; if((char*)a>=s&&(char*)a<s+SZ) return;
    if(racy.size()&&racy.count(site)) point();
    if(!detect) return; Busy bz(busy); Th&h=th[cur];
    while(sz>0){ uintptr_t g=p>>3; int off=p&7,n=std::min(sz,8-off); uint8_t m=((1u<<n)-1)<<off; auto&v=shadow[g]; bool have=false; for(auto&x:v){ if(x.tid==cur){ if(x.epoch==h.epoch&&(x.mask&m)==m&&x.write>=w&&x.atomic<=atomic&&x.locks==h.locks&&x.site==site) have=true; continue; } if(x.epoch==h.epoch&&(x.mask&m)&&(x.write||w)&&!(x.locks&h.locks)){ for(void*q:{x.site,site}) if(!racy.count(q)&&pending.insert(q).second){ newracy=true; depends(); } } } if(!have&&v.size()<64) v.push_back({(uint8_t)cur,m,w,atomic,h.epoch,h.locks,site}); p+=n; sz-=n; }
  }
  void parallel(void(*f)(void*),void*d,unsigned nt){ int n=nt?std::min<int>(nt,64):T; if(in||n==1){ int c=cur; bool i=in; if(!i){ f(d); return; } nested++; f(d); nested--; (void)c; return; }
    fn=f; data=d; regdev=false; regions++; th.assign(n,Th()); lockid.clear(); owner.clear(); ws.clear(); singles=0; shadow.clear(); while((int)stacks.size()<n) stacks.push_back(mc::fiber_stack(SZ)); for(int t=0;t<n;t++) mc::fiber_init(th[t].f,stacks[t],SZ,&entry); in=true;
    int t=pick(false); cur=t; mc_switch(&main_sp,th[t].f.sp); in=false; cur=0; th.clear(); }
};
inline Sched&S(){ static Sched s; return s; }
inline void Sched::entry(){ Sched&s=S(); try{ s.fn(s.data); }catch(const std::exception&e){ if(s.why.empty()) s.why=std::string("an exception leaves a parallel region: ")+e.what(); } s.finish(); }
inline void Sched::finish(){ Th&h=th[cur]; h.state=1; bool wait=false,ready=false; for(auto&x:th){ if(x.state==3) wait=true; else if(x.state!=1) ready=true; } if(wait&&!ready) for(auto&x:th) if(x.state==3){ x.state=0; x.epoch++; }
  int t=pick(false); void*junk; if(t<0){ for(auto&x:th) if(x.state!=1) deadlock(); mc_switch(&junk,main_sp); } else { int o=cur; cur=t; mc_switch(&th[o].f.sp,th[t].f.sp); } abort(); }
// Runs body under every interleaving; after each, judge() returns false to stop. Returns the number of executions.
struct Res { uint64_t runs=0; bool capped=false; int points=0; size_t racy=0; };
inline Res explore(int T,int bound,int regbound,uint64_t cap,const std::function<void()>&body,const std::function<bool(const std::string&why,const std::string&sched)>&judge){
  Sched&s=S(); Res r; s.racy.clear(); s.pending.clear(); s.dep.clear(); s.pdep.clear(); s.regbound=regbound; s.T=T; s.bound=bound; s.ordered=false; 
  restart: s.trace.clear(); s.detect=true;
  for(;;){ s.pos=0; s.used=0; s.devs=0; s.steps=0; s.why.clear(); s.newracy=false; s.points=0; s.regions=0;
    body(); r.runs++; mc::trans(s.pos+1); r.points=std::max(r.points,s.points);
    std::string sc; for(auto&c:s.trace) sc+=std::to_string(c.first)+"/"+std::to_string(c.second)+" "; bool go=judge(s.why,sc); mc::beat(); if(!go) break;
    if(s.newracy){ s.racy.insert(s.pending.begin(),s.pending.end()); s.pending.clear(); s.dep.insert(s.pdep.begin(),s.pdep.end()); s.pdep.clear(); r.racy=s.racy.size(); goto restart; }
    while(!s.trace.empty()&&s.trace.back().first+1>=s.trace.back().second) s.trace.pop_back(); if(s.trace.empty()) break; s.trace.back().first++;
    if(r.runs>=cap){ r.capped=true; break; } }
  r.racy=s.racy.size(); s.T=1; s.bound=0; return r; }
// Runs body with T threads, each running as far as it can in turn (no exploration).
inline void fixed(int T,const std::function<void()>&body){ Sched&s=S(); s.T=T; s.ordered=true; s.detect=false; s.used=0; s.bound=0; s.steps=0; s.racy.clear(); s.why.clear(); body(); s.T=1; s.ordered=false; }
}
// memory given back can be handed to another thread without that being a race
namespace omx { inline void gone(void*p){ Sched&s=S(); if(!p||!s.in||s.busy||s.shadow.empty()) return; s.busy=true; uintptr_t a=(uintptr_t)p>>3,e=((uintptr_t)p+malloc_usable_size(p))>>3; if(e-a<4096){ for(;a<=e;a++) s.shadow.erase(a); } s.busy=false; } }
void operator delete(void*p) noexcept { omx::gone(p); free(p); }
void operator delete(void*p,size_t) noexcept { omx::gone(p); free(p); }
void operator delete[](void*p) noexcept { omx::gone(p); free(p); }
void operator delete[](void*p,size_t) noexcept { omx::gone(p); free(p); }
void*operator new(size_t n){ void*p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void*operator new[](size_t n){ void*p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
// ---- the runtime's entry points
extern "C" {
using omx::S;
void GOMP_parallel(void(*f)(void*),void*d,unsigned n,unsigned){ S().parallel(f,d,n); }
void GOMP_barrier(){ S().barrier(); }
static char omx_crit,omx_atom; static int omx_T_default=1;
void GOMP_critical_start(){ S().lock(&omx_crit); } void GOMP_critical_end(){ S().unlock(&omx_crit); }
void GOMP_critical_name_start(void**p){ S().lock(p); } void GOMP_critical_name_end(void**p){ S().unlock(p); }
void GOMP_atomic_start(){ S().lock(&omx_atom); } void GOMP_atomic_end(){ S().unlock(&omx_atom); }
int omp_get_thread_num(){ auto&s=S(); return s.in&&!s.nested?s.cur:0; }
int omp_get_num_threads(){ auto&s=S(); return s.in&&!s.nested?(int)s.th.size():1; }
int omp_get_max_threads(){ return S().T; } int omp_get_num_procs(){ return S().T; } int omp_in_parallel(){ return S().in; } void omp_set_num_threads(int n){ S().T=n; } int omp_get_level(){ return S().in; } int omp_get_thread_limit(){ return 64; } void omp_set_dynamic(int){} int omp_get_dynamic(){ return 0; } void omp_set_nested(int){}
double omp_get_wtime(){ return 0; }
void omp_init_lock(void**p){ *p=nullptr; } void omp_destroy_lock(void**){} void omp_set_lock(void**p){ S().lock(p); } void omp_unset_lock(void**p){ S().unlock(p); }
bool GOMP_single_start(){ auto&s=S(); if(!s.in||s.nested) return true; s.point(); int me=s.th[s.cur].single++; if(me==s.singles){ s.singles++; return true; } return false; }
static bool omx_next(long*a,long*b){ auto&s=S(); s.point(); auto&w=s.ws[s.th[s.cur].ws]; if(w.incr>0?w.next>=w.end:w.next<=w.end) return false; *a=w.next; long e=w.next+w.chunk*w.incr; if(w.incr>0?e>w.end:e<w.end) e=w.end; *b=e; w.next=e; return true; }
static bool omx_start(long st,long en,long in,long ch,long*a,long*b){ auto&s=S(); if(!s.in||s.nested){ if(in>0?st>=en:st<=en) return false; *a=st; *b=en; static omx::WS done; return true; } int id=++s.th[s.cur].ws; if(!s.ws.count(id)) s.ws[id]={st,en,in,ch<1?1:ch,0}; return omx_next(a,b); }
static bool omx_next2(long*a,long*b){ auto&s=S(); if(!s.in||s.nested) return false; return omx_next(a,b); }
#define OMX_LOOP(k) bool GOMP_loop_##k##_start(long s,long e,long i,long c,long*a,long*b){ return omx_start(s,e,i,c,a,b); } bool GOMP_loop_##k##_next(long*a,long*b){ return omx_next2(a,b); }
OMX_LOOP(dynamic) OMX_LOOP(guided) OMX_LOOP(static) OMX_LOOP(nonmonotonic_dynamic) OMX_LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s,long e,long i,long*a,long*b){ return omx_start(s,e,i,1,a,b); } bool GOMP_loop_runtime_next(long*a,long*b){ return omx_next2(a,b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s,long e,long i,long*a,long*b){ return omx_start(s,e,i,1,a,b); } bool GOMP_loop_maybe_nonmonotonic_runtime_next(long*a,long*b){ return omx_next2(a,b); }
#define OMX_ULL(k) bool GOMP_loop_ull_##k##_start(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long c,unsigned long long*a,unsigned long long*b){ (void)up; return omx_start(s,e,i,c,(long*)a,(long*)b); } bool GOMP_loop_ull_##k##_next(unsigned long long*a,unsigned long long*b){ return omx_next2((long*)a,(long*)b); }
OMX_ULL(dynamic) OMX_ULL(guided) OMX_ULL(static) OMX_ULL(nonmonotonic_dynamic) OMX_ULL(nonmonotonic_guided)
void GOMP_loop_end(){ S().barrier(); } void GOMP_loop_end_nowait(){}
struct OmxPL { void(*f)(void*); void*d; long s,e,i,c; };
static void omx_pl(void*p){ auto*q=(OmxPL*)p; auto&s=S(); int id=++s.th[s.cur].ws; if(!s.ws.count(id)) s.ws[id]={q->s,q->e,q->i,q->c<1?1:q->c,0}; q->f(q->d); }
#define OMX_PL(k) void GOMP_parallel_loop_##k(void(*f)(void*),void*d,unsigned n,long s,long e,long i,long c,unsigned){ OmxPL q{f,d,s,e,i,c}; auto&z=S(); if((z.T==1&&!n)||z.in){ omx::WS w; (void)w; static OmxPL one; one=q; z.parallel([](void*p){ auto*q=(OmxPL*)p; q->f(q->d); },&q,n); return; } z.parallel(omx_pl,&q,n); }
OMX_PL(dynamic) OMX_PL(guided) OMX_PL(static) OMX_PL(nonmonotonic_dynamic) OMX_PL(nonmonotonic_guided)
// ---- compiler instrumentation
#define PC __builtin_return_address(0)
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){}
#define OMX_RW(n) void __tsan_read##n(void*a){ S().access(a,n,false,false,PC); } void __tsan_write##n(void*a){ S().access(a,n,true,false,PC); } void __tsan_unaligned_read##n(void*a){ S().access(a,n,false,false,PC); } void __tsan_unaligned_write##n(void*a){ S().access(a,n,true,false,PC); } void __tsan_volatile_read##n(void*a){ S().access(a,n,false,false,PC); } void __tsan_volatile_write##n(void*a){ S().access(a,n,true,false,PC); } void __tsan_unaligned_volatile_read##n(void*a){ S().access(a,n,false,false,PC); } void __tsan_unaligned_volatile_write##n(void*a){ S().access(a,n,true,false,PC); } void __tsan_read_write##n(void*a){ S().access(a,n,true,false,PC); }
OMX_RW(1) OMX_RW(2) OMX_RW(4) OMX_RW(8) OMX_RW(16)
void __tsan_read_range(void*a,unsigned long n){ S().access(a,n,false,false,PC); } void __tsan_write_range(void*a,unsigned long n){ S().access(a,n,true,false,PC); }
void __tsan_vptr_update(void**a,void*){ S().access(a,8,true,false,PC); } void __tsan_vptr_read(void**a){ S().access(a,8,false,false,PC); }
#define OMX_AT(b,T) T __tsan_atomic##b##_load(const T*a,int){ S().access((void*)a,sizeof(T),false,true,PC); return *a; } void __tsan_atomic##b##_store(T*a,T v,int){ S().access(a,sizeof(T),true,true,PC); *a=v; } T __tsan_atomic##b##_exchange(T*a,T v,int){ S().access(a,sizeof(T),true,true,PC); T o=*a; *a=v; return o; } \
 T __tsan_atomic##b##_fetch_add(T*a,T v,int){ S().access(a,sizeof(T),true,true,PC); T o=*a; *a=o+v; return o; } T __tsan_atomic##b##_fetch_sub(T*a,T v,int){ S().access(a,sizeof(T),true,true,PC); T o=*a; *a=o-v; return o; } T __tsan_atomic##b##_fetch_or(T*a,T v,int){ S().access(a,sizeof(T),true,true,PC); T o=*a; *a=o|v; return o; } T __tsan_atomic##b##_fetch_and(T*a,T v,int){ S().access(a,sizeof(T),true,true,PC); T o=*a; *a=o&v; return o; } T __tsan_atomic##b##_fetch_xor(T*a,T v,int){ S().access(a,sizeof(T),true,true,PC); T o=*a; *a=o^v; return o; } T __tsan_atomic##b##_fetch_nand(T*a,T v,int){ S().access(a,sizeof(T),true,true,PC); T o=*a; *a=~(o&v); return o; } \
 bool __tsan_atomic##b##_compare_exchange_strong(T*a,T*e,T v,int,int){ S().access(a,sizeof(T),true,true,PC); if(*a==*e){ *a=v; return true; } *e=*a; return false; } bool __tsan_atomic##b##_compare_exchange_weak(T*a,T*e,T v,int,int){ S().access(a,sizeof(T),true,true,PC); if(*a==*e){ *a=v; return true; } *e=*a; return false; } T __tsan_atomic##b##_compare_exchange_val(T*a,T e,T v,int,int){ S().access(a,sizeof(T),true,true,PC); T o=*a; if(o==e) *a=v; return o; }
OMX_AT(8,unsigned char) OMX_AT(16,unsigned short) OMX_AT(32,unsigned int) OMX_AT(64,unsigned long)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
}
