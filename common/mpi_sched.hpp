// Exploring MPI: ranks are fibers of one process; every blocking call hands
// control to the scheduler, which runs all ranks as far as they get (maximal
// progress) and then branches over every (rank, message) match a wildcard
// receive or probe could make.  Sends are either buffered (eager) or complete
// only when matched (synchronous); a non-blocking send's buffer is read when the
// message is matched.  A depth-first search over the choices visits every
// execution.
#pragma once
#include "mc.hpp"
#include "mpifake/mpi.h"
#include "fiber.hpp"
#include <dlfcn.h>
#include <memory>
#include <list>
#include <algorithm>
namespace mpx {
struct Msg { int src,dst,tag; const char*ptr; std::vector<char> copy; long len; bool eager; long id; bool taken=false; };
enum Wait { NONE, RECV, SENDW, BC, BARR, FIN };
struct Rank { mc::Fiber f; int id; bool done=false; Wait w=NONE; int src,tag; std::shared_ptr<Msg> got; std::shared_ptr<Msg> sending; long bcasts=0; int barriers=0; std::string error; bool aborted=false; bool fin=false; bool probing=false; };
struct Run {
  int n=0; bool eager=true; bool rev=false; std::vector<std::unique_ptr<Rank>> r; std::list<std::shared_ptr<Msg>> q; std::vector<std::vector<char>> bc; int cur=-1; void*main=nullptr; void*mfake=nullptr; const void*mstk=nullptr; size_t msz=0;
  std::function<void(int)> body; long ids=0; bool abort=false; int abortcode=0; std::map<long,std::shared_ptr<Msg>> req;
  std::vector<std::pair<int,int>> choices; size_t pos=0; long steps=0; std::string log; bool deadlock=false; std::string why;
};
inline Run*&R(){ static Run*r=nullptr; return r; }
static const size_t STK=2u<<20;
inline int choose(int n){ Run&x=*R(); if(n<=1) return 0; if(x.pos<x.choices.size()){ if(x.choices[x.pos].second!=n){ fprintf(stderr,"schedule replay diverged\n"); ::abort(); } return x.choices[x.pos++].first; } x.choices.push_back({0,n}); x.pos++; return 0; }
inline void to_main(){ Run&x=*R(); Rank&k=*x.r[x.cur];
#ifdef MC_FIBER_ASAN
  __sanitizer_start_switch_fiber(k.done?nullptr:&k.f.fake,x.mstk,x.msz);
#endif
  mc_switch(&k.f.sp,x.main);
#ifdef MC_FIBER_ASAN
  __sanitizer_finish_switch_fiber(k.f.fake,&x.mstk,&x.msz);
#endif
}
struct Killed {};
inline void block(Wait w){ Run&x=*R(); Rank&k=*x.r[x.cur]; k.w=w; to_main(); if(x.abort||x.deadlock) throw Killed(); }
inline void tramp(){
  Run&x=*R();
#ifdef MC_FIBER_ASAN
  __sanitizer_finish_switch_fiber(nullptr,&x.mstk,&x.msz);
#endif
  { Rank&k=*x.r[x.cur];
  try{ x.body(k.id); }
  catch(const Killed&){}
  catch(const std::exception&e){ k.error=std::string("exception: ")+e.what(); }
  catch(...){ k.error="unknown exception"; }
  k.done=true; }
  to_main();
}
inline void resume(int i){ Run&x=*R(); x.cur=i; Rank&k=*x.r[i]; x.steps++;
#ifdef MC_FIBER_ASAN
  __sanitizer_start_switch_fiber(&x.mfake,k.f.stack,STK);
#endif
  mc_switch(&x.main,k.f.sp);
#ifdef MC_FIBER_ASAN
  __sanitizer_finish_switch_fiber(x.mfake,nullptr,nullptr);
#endif
  x.cur=-1; }
inline bool fits(const Msg&m,int dst,int src,int tag){ return !m.taken&&m.dst==dst&&(src<0||m.src==src)&&(tag<0||m.tag==tag); }
// candidate messages, at most the first matching one per source (non-overtaking)
inline std::vector<std::shared_ptr<Msg>> cands(int dst,int src,int tag){ std::vector<std::shared_ptr<Msg>> v; std::set<int> seen; for(auto&m:R()->q) if(fits(*m,dst,src,tag)&&seen.insert(m->src).second) v.push_back(m); std::sort(v.begin(),v.end(),[](auto&a,auto&b){return a->src<b->src;}); return v; }
inline void finish_msg(Msg&m){ m.taken=true; Run&x=*R(); for(auto it=x.q.begin();it!=x.q.end();++it) if(it->get()==&m){ x.q.erase(it); break; } }
// Runs one execution; choices in x.choices are replayed first.
inline void execute(Run&x){
  R()=&x; x.pos=0; x.r.clear(); x.q.clear(); x.bc.clear(); x.abort=false; x.deadlock=false; x.why.clear(); x.log.clear(); x.steps=0; x.req.clear();
  static std::vector<char*> pool; 
  for(int i=0;i<x.n;i++){ x.r.emplace_back(new Rank); Rank&k=*x.r.back(); k.id=i; if((int)pool.size()<=i) pool.push_back((char*)mmap(nullptr,STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0)); mc::fiber_init(k.f,pool[i],STK,tramp); }
  while(true){
    bool moved=false,alive=false;
    for(int j=0;j<x.n;j++){ int i=x.rev?x.n-1-j:j; Rank&k=*x.r[i]; if(k.done) continue; alive=true; bool go=false;
      switch(k.w){
        case NONE: go=true; break;
        case RECV: if(k.src>=0){ auto c=cands(i,k.src,k.tag); if(!c.empty()){ k.got=c[0]; go=true; } } break;
        case SENDW: go=k.sending->taken; break;
        case BC: go=(long)x.bc.size()>k.bcasts; break;
        case BARR: case FIN: { bool all=true; for(auto&o:x.r) if(!o->done&&!(o->w==k.w&&o->barriers>=k.barriers)&&o->barriers<=k.barriers) all=false; go=all; } break;
      }
      if(go){ k.w=NONE; resume(i); moved=true; if(x.abort) break; if(!k.error.empty()) break; }
    }
    for(auto&o:x.r) if(!o->error.empty()){ x.deadlock=true; x.why="rank "+std::to_string(o->id)+" ended with "+o->error; }
    if(x.abort&&x.why.empty()){ x.why="MPI_Abort("+std::to_string(x.abortcode)+")"; }
    if(x.abort||x.deadlock) break;
    if(moved) continue;
    if(!alive) break;
    std::vector<std::pair<int,std::shared_ptr<Msg>>> opt; for(int i=0;i<x.n;i++){ Rank&k=*x.r[i]; if(!k.done&&k.w==RECV&&k.src<0) for(auto&m:cands(i,k.src,k.tag)) opt.push_back({i,m}); }
    if(opt.empty()){ x.deadlock=true; std::ostringstream o; o<<"deadlock:"; static const char*nm[]={"running","receive/probe","synchronous send","broadcast","barrier","finalize"}; for(auto&k:x.r) o<<" rank "<<k->id<<": "<<(k->done?"finished":nm[k->w])<<";"; x.why=o.str(); break; }
    int c=choose(opt.size()); Rank&k=*x.r[opt[c].first]; k.got=opt[c].second; k.w=NONE; x.log+=std::to_string(k.id)+"<-"+std::to_string(k.got->src)+"#"+std::to_string(k.got->tag)+(k.probing?"p ":" "); resume(k.id);
  }
  // unwind whatever is left so that destructors run
  if(x.abort||x.deadlock) for(auto&k:x.r) while(!k->done) resume(k->id);
}
// Visits every execution; f(x) judges each one and returns false to stop early.
inline uint64_t all(Run&x,uint64_t cap,std::function<bool(Run&)> f){
  uint64_t n=0; x.choices.clear();
  while(true){ execute(x); n++; mc::trans(x.steps); if(!f(x)) break; x.choices.resize(x.pos); while(!x.choices.empty()&&x.choices.back().first+1>=x.choices.back().second) x.choices.pop_back(); if(x.choices.empty()) break; x.choices.back().first++; if(n>=cap){ mc::count("schedule_cap_hit"); break; } }
  return n;
}
// each rank runs its own copy of the program's shared object (globals are per process in MPI)
inline void* copy_of(const std::string&so,int rank,const char*sym){
  static std::map<std::pair<std::string,int>,void*> m; auto key=std::make_pair(so,rank); void*&h=m[key];
  if(!h){ std::string dst=std::string(getenv("MC_SHARD_DIR")?getenv("MC_SHARD_DIR"):"/tmp")+"/rank"+std::to_string(rank)+"_"+so.substr(so.rfind('/')+1); std::string cmd="cp "+so+" "+dst; if(system(cmd.c_str())) ::abort(); h=dlopen(dst.c_str(),RTLD_NOW|RTLD_LOCAL); if(!h){ fprintf(stderr,"%s\n",dlerror()); ::abort(); } unlink(dst.c_str()); }
  void*s=dlsym(h,sym); if(!s){ fprintf(stderr,"%s\n",dlerror()); ::abort(); } return s;
}
}
using mpx::R;
extern "C" {
int MPI_Init(int*,char***){ return 0; }
int MPI_Comm_rank(MPI_Comm,int*r){ *r=R()->cur; return 0; }
int MPI_Comm_size(MPI_Comm,int*n){ *n=R()->n; return 0; }
int MPI_Abort(MPI_Comm,int c){ auto&x=*R(); x.abort=true; x.abortcode=c; x.why="MPI_Abort("+std::to_string(c)+") by rank "+std::to_string(x.cur); throw mpx::Killed(); }
static int mc_tsz(MPI_Datatype t){ return t>100?t-100:t; }
static std::shared_ptr<mpx::Msg> mc_post(const void*b,int c,MPI_Datatype t,int d,int tag,bool eager){ auto&x=*R(); if(d<0||d>=x.n||tag<0){ x.r[x.cur]->error="send to rank "+std::to_string(d)+" with tag "+std::to_string(tag); throw mpx::Killed(); } auto m=std::make_shared<mpx::Msg>(); m->src=x.cur; m->dst=d; m->tag=tag; m->len=(long)c*mc_tsz(t); m->eager=eager; m->id=x.ids++; m->ptr=(const char*)b; if(eager){ m->copy.assign(m->ptr,m->ptr+m->len); m->ptr=m->copy.data(); } x.q.push_back(m); return m; }
int MPI_Send(const void*b,int c,MPI_Datatype t,int d,int tag,MPI_Comm){ auto&x=*R(); auto m=mc_post(b,c,t,d,tag,x.eager); if(!x.eager){ x.r[x.cur]->sending=m; mpx::block(mpx::SENDW); } return 0; }
int MPI_Ssend(const void*b,int c,MPI_Datatype t,int d,int tag,MPI_Comm){ auto&x=*R(); auto m=mc_post(b,c,t,d,tag,false); x.r[x.cur]->sending=m; mpx::block(mpx::SENDW); return 0; }
int MPI_Isend(const void*b,int c,MPI_Datatype t,int d,int tag,MPI_Comm,MPI_Request*r){ auto&x=*R(); auto m=mc_post(b,c,t,d,tag,x.eager); *r=m->id; x.req[m->id]=m; return 0; }
int MPI_Wait(MPI_Request*r,MPI_Status*){ auto&x=*R(); if(*r<0) return 0; auto m=x.req.at(*r); if(!m->eager&&!m->taken){ x.r[x.cur]->sending=m; mpx::block(mpx::SENDW); } x.req.erase(*r); *r=MPI_REQUEST_NULL; return 0; }
int MPI_Request_free(MPI_Request*r){ *r=MPI_REQUEST_NULL; return 0; }
static std::shared_ptr<mpx::Msg> mc_match(int s,int t,bool probe){ auto&x=*R(); auto&k=*x.r[x.cur]; k.src=s; k.tag=t; k.probing=probe; mpx::block(mpx::RECV); auto m=k.got; k.got.reset(); return m; }
static void mc_status(MPI_Status*s,const mpx::Msg&m){ if(s){ s->MPI_SOURCE=m.src; s->MPI_TAG=m.tag; s->MPI_ERROR=0; s->mc_len=m.len; } }
static int mc_take(void*b,long cap,mpx::Msg&m,MPI_Status*s){ auto&x=*R(); if(m.len>cap){ x.r[x.cur]->error="message of "+std::to_string(m.len)+" bytes received into a buffer of "+std::to_string(cap); throw mpx::Killed(); } memcpy(b,m.ptr,m.len); mc_status(s,m); mpx::finish_msg(m); return 0; }
int MPI_Probe(int s,int t,MPI_Comm,MPI_Status*st){ auto m=mc_match(s,t,true); mc_status(st,*m); return 0; }
int MPI_Mprobe(int s,int t,MPI_Comm,MPI_Message*mm,MPI_Status*st){ auto m=mc_match(s,t,true); mc_status(st,*m); m->taken=true; *mm=new std::shared_ptr<mpx::Msg>(m); return 0; }
int MPI_Mrecv(void*b,int c,MPI_Datatype t,MPI_Message*mm,MPI_Status*st){ auto p=(std::shared_ptr<mpx::Msg>*)*mm; auto m=*p; delete p; *mm=nullptr; return mc_take(b,(long)c*mc_tsz(t),*m,st); }
int MPI_Recv(void*b,int c,MPI_Datatype t,int s,int tag,MPI_Comm,MPI_Status*st){ auto m=mc_match(s,tag,false); return mc_take(b,(long)c*mc_tsz(t),*m,st); }
int MPI_Get_count(const MPI_Status*s,MPI_Datatype t,int*n){ *n=s->mc_len/mc_tsz(t); return 0; }
int MPI_Bcast(void*b,int c,MPI_Datatype t,int root,MPI_Comm){ auto&x=*R(); auto&k=*x.r[x.cur]; size_t z=(size_t)c*mc_tsz(t); if(x.cur==root){ x.bc.emplace_back((char*)b,(char*)b+z); k.bcasts++; } else { mpx::block(mpx::BC); auto&d=x.bc[k.bcasts++]; if(d.size()!=z){ k.error="broadcast size mismatch"; throw mpx::Killed(); } memcpy(b,d.data(),z); } return 0; }
int MPI_Barrier(MPI_Comm){ auto&x=*R(); x.r[x.cur]->barriers++; mpx::block(mpx::BARR); return 0; }
int MPI_Finalize(void){ return 0; }
}
