// C28: every history of timer and progress-bar operations up to a depth under a virtual clock, against a plain model.
#include <mc.hpp>
#include <stdexcept>
#include <string>
#include <cstdint>
#include <cmath>
#include <sstream>
#include <iostream>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <richdem/common/timer.hpp>
#include <richdem/common/ProgressBar.hpp>
using namespace mc;
// ---- the clock and the thread team the code sees
static bool virt=false; static int64_t now_ns=0; static int th_num=0,th_count=1;
extern "C" int clock_gettime(clockid_t c,struct timespec*t) noexcept { if(!virt) return syscall(SYS_clock_gettime,c,t); t->tv_sec=1000+now_ns/1000000000; t->tv_nsec=now_ns%1000000000; return 0; }
#ifdef _OPENMP
extern "C" int omp_get_thread_num() noexcept { return virt?th_num:0; }
extern "C" int omp_get_num_threads() noexcept { return virt?th_count:1; }
#define TEAM 4
#else
#define TEAM 1
#endif
static std::string D(double v){ std::ostringstream o; o.precision(12); o<<v; return o.str(); }
static bool near(double a,double b){ return std::fabs(a-b)<=1e-9*(1+std::fabs(b)); }
struct Virt { Virt(){ virt=true; now_ns=0; th_num=0; th_count=1; } ~Virt(){ virt=false; } };
// ---- timers: two of them, interleaved
struct TM { bool run=false; int64_t at=0,acc=0; };
static void timers(uint64_t i,int len){
  enum { START,STOP,ACC,LAP,RESET,TICKL,TICKS,SWITCH,COPY,NOPS }; static const char*N[]={"start","stop","accumulated","lap","reset","1.5 s pass","3 ns pass","other timer","copy to other"};
  Virt vv; richdem::Timer t[2]; TM m[2]; int c=0; std::string ops,bad; bool ran=false; Dig d(i); states(); traces(); uint64_t h=0;
  auto probe=[&](int k){ // the whole state, through copies
    richdem::Timer a=t[k],b=t[k]; std::string w="timer "+std::to_string(k)+" ";
    try{ double g=a.accumulated(); if(m[k].run) return w+"is running but gives its accumulated time"; if(!near(g,m[k].acc*1e-9)) return w+"accumulated "+D(g)+", expected "+D(m[k].acc*1e-9); }catch(const std::exception&){ if(!m[k].run) return w+"is stopped but refuses accumulated()"; }
    try{ double g=b.lap(); if(!m[k].run) return w+"is stopped but has a lap"; if(!near(g,(now_ns-m[k].at)*1e-9)) return w+"lap "+D(g)+", expected "+D((now_ns-m[k].at)*1e-9); }catch(const std::exception&){ if(m[k].run) return w+"is running but refuses lap()"; }
    return std::string(); };
  for(int j=0;j<len&&bad.empty();j++){ int o=d(NOPS); trans(); ops+=std::string(j?"; ":"")+N[o]; TM&v=m[c]; richdem::Timer&T=t[c]; bool thrown=false; double g=0;
    try{ switch(o){ case START: T.start(); break; case STOP: g=T.stop(); break; case ACC: g=T.accumulated(); break; case LAP: g=T.lap(); break; case RESET: T.reset(); break; case TICKL: now_ns+=1500000000; break; case TICKS: now_ns+=3; break; case SWITCH: c^=1; break; case COPY: t[c^1]=t[c]; m[c^1]=m[c]; break; } }catch(const std::exception&){ thrown=true; }
    bool want=(o==START&&v.run)||(o==STOP&&!v.run)||(o==ACC&&v.run)||(o==LAP&&!v.run);
    if(thrown!=want) bad=want?"misuse not refused":"refused";
    else if(!thrown){ double e=-1; if(o==START){ v.run=true; v.at=now_ns; } if(o==STOP){ v.run=false; v.acc+=now_ns-v.at; e=v.acc*1e-9; ran=true; } if(o==ACC) e=v.acc*1e-9; if(o==LAP) e=(now_ns-v.at)*1e-9; if(o==RESET){ v.run=false; v.acc=0; } if(e>=0&&!near(g,e)) bad="gives "+D(g)+", expected "+D(e); }
    for(int k=0;k<2&&bad.empty();k++) bad=probe(k); }
  for(int k=0;k<2;k++) h=mix(mix(h,m[k].acc),m[k].run);
  if(ran&&len>2) nontrivial(); outcome(h); virt=false; if(!bad.empty()) violation("timer",ops+"\n"+bad); else if(want_sample()&&ran) sample("timer: "+ops);
}
// ---- progress bars
static std::ostringstream cap;
struct Catch { std::streambuf*o; Catch():o(std::cerr.rdbuf(cap.rdbuf())){ cap.str(""); } ~Catch(){ std::cerr.rdbuf(o); std::cerr.unsetf(std::ios::floatfield); } };
struct Shown { int bars=0; long pct=-1,eq=-1,width=-1,threads=-1; double eta=-1; std::string raw; };
static Shown take(){ Shown s; s.raw=cap.str(); cap.str(""); size_t p=0; while((p=s.raw.find("\r\033[2K[",p))!=std::string::npos){ s.bars++; p+=6; size_t e=s.raw.find(']',p); if(e==std::string::npos) break; s.width=e-p; s.eq=0; while(s.eq<s.width&&s.raw[p+s.eq]=='=') s.eq++; for(long k=s.eq;k<s.width;k++) if(s.raw[p+k]!=' ') s.eq=-2; char eta[64]; if(sscanf(s.raw.c_str()+e,"] (%ld%% - %63[^s]s - %ld threads)",&s.pct,eta,&s.threads)!=3) s.pct=-1; else { char*x; s.eta=strtod(eta,&x); if(*x) s.eta=-7; } } return s; }
static long pct(uint64_t w,uint64_t T,int nt){ unsigned __int128 p=(unsigned __int128)w*nt*100/T; return p>100?100:(long)p; }
// A bar just shown (or not shown) when w of T units are done by the reporting thread of a team of nt
struct Bar { uint64_t T=0,w=0,top=0; long shown=0; int64_t at=0; bool run=false; int64_t acc=0; bool known=true; };
static std::string judge(const Shown&s,Bar&b,int nt,bool mayshow){
#ifdef RICHDEM_NO_PROGRESS
  mayshow=false;
#endif
  if(s.bars>1) return "several bars for one update"; 
  if(!s.bars){ if(!s.raw.empty()) return "stray output"; if(!mayshow||b.T==0) return ""; if(b.w>=b.top&&pct(b.w,b.T,nt)-b.shown>2+nt/2) return "shows "+std::to_string(b.shown)+"% when "+std::to_string(pct(b.w,b.T,nt))+"% is done"; return ""; }
  if(!mayshow) return "a bar is shown where none may be"; if(b.T==0) return "a bar without work";
  long e=pct(b.w,b.T,nt); if(s.pct!=e) return "shows "+std::to_string(s.pct)+"%, expected "+std::to_string(e)+"%"; if(s.pct==b.shown) return "shows the same percentage again"; if(s.eq!=e/2||s.width!=50) return "bar of "+std::to_string(s.eq)+" marks of "+std::to_string(s.width)+" for "+std::to_string(e)+"%"; if(s.threads!=nt) return "threads "+std::to_string(s.threads);
  if(e>0){ double want=(now_ns-b.at)*1e-9/e*(100-e); if(!(std::fabs(s.eta-want)<=0.0501+1e-9*want)) return "estimates "+D(s.eta)+" s, expected "+D(want); }
  b.shown=e; return "";
}
// one whole run: units one by one, or in strides, up to the total
static void run(uint64_t T,uint64_t step,int nt,bool inc){
  Virt vv; Catch cc; th_count=nt; richdem::ProgressBar p; Bar b; b.T=T; std::string bad; states(); traces(); if(T>1) nontrivial(); std::string who=std::to_string(T)+" units, "+(inc?"one by one":"in steps of "+std::to_string(step))+", "+std::to_string(nt)+" threads";
  p.start(T); take(); long last=0; uint64_t h=T;
  for(uint64_t w=inc?1:0;bad.empty();w+=step){ if(w>T) w=T; trans(); now_ns+=7000000; b.top=b.w; if(inc){ ++p; b.w++; } else { p.update(w); b.w=w; } Shown s=take(); last=b.shown; bad=judge(s,b,nt,true); 
#ifndef RICHDEM_NO_PROGRESS
    if(bad.empty()&&T>0&&p.cellsProcessed()!=b.w) bad="counts "+std::to_string(p.cellsProcessed());
#endif
    if(bad.empty()&&b.shown<last) bad="the percentage fell from "+std::to_string(last)+" to "+std::to_string(b.shown); h=mix(h,b.shown); if(w>=T||b.w>=T) break; }
  if(bad.empty()){ double g=p.stop(); if(!near(g,now_ns*1e-9)||!near(p.time_it_took(),g)) bad="took "+D(g)+" s, expected "+D(now_ns*1e-9); if(take().bars) bad="bar left behind"; }
  virt=false; outcome(h); if(!bad.empty()) violation("progress-run",who+", at "+std::to_string(b.w)+"\n"+bad); else if(want_sample()) sample("progress: "+who);
}
static const uint64_t TOT[]={0,1,7,199,200,201,399,401,1000,16777217,42949673,50000000,858993460,2147483648ULL,4294967295ULL};
static void bigrun(uint64_t i){ Dig d(i); uint64_t T=TOT[d(15)]; int k=d(4),nt=1+d(TEAM); static const uint64_t K[]={100,201,333,1000}; uint64_t st=std::max<uint64_t>(1,T/K[k]); run(T,st,nt,false); }
static void hist(uint64_t i,int len){
  enum { START=0,NT=6,INC=NT,UPD,UPDN=5,OTHER=UPD+UPDN,OTHERINC,TICK,STOP,TOOK,TEAMOP,NOPS };
  static const uint64_t S[NT]={0,1,100,201,50000000,4294967295ULL}; Virt vv; Catch cc; richdem::ProgressBar p; Bar b; std::string ops,bad; bool shown=false; Dig d(i); states(); traces(); uint64_t h=0; int nt=1;
  p.start(S[2]); b.T=S[2]; b.run=true; b.at=now_ns; take();
  for(int j=0;j<len&&bad.empty();j++){ int o=d(NOPS); trans(); bool thrown=false,want=false; double g=-1,e=-1; bool may=false; th_num=0; th_count=nt; ops+=j?"; ":"";
    try{ if(o<NT){ ops+="start("+std::to_string(S[o])+")"; b=Bar(); b.T=S[o]; b.run=true; b.at=now_ns; p.start(S[o]); take(); }
      else if(o==INC){ ops+="++"; may=b.run; if(!b.run){ continue; } b.top=b.w; b.w++; ++p; }
      else if(o<OTHER){ uint64_t w=(o-UPD)==0?0:o-UPD==1?b.T/3:o-UPD==2?b.T/2:o-UPD==3?b.T:std::min<uint64_t>(b.T*2,4294967295ULL); ops+="update("+std::to_string(w)+")"; if(!b.run) continue; may=true; b.top=std::max(b.top,b.w); b.w=w; p.update(w); }
      else if(o==OTHER||o==OTHERINC){ if(TEAM==1) continue; th_num=2; th_count=3; ops+="on thread 2: "; if(o==OTHER){ ops+="update(all)"; p.update(b.T); } else { ops+="++"; ++p; } th_num=0; th_count=nt; }
      else if(o==TICK){ ops+="2.25 s pass"; now_ns+=2250000000; }
      else if(o==STOP){ ops+="stop"; want=!b.run; g=p.stop(); }
      else if(o==TOOK){ ops+="time_it_took"; want=b.run; g=p.time_it_took(); e=b.acc*1e-9; }
      else { if(TEAM==1) continue; nt=1+(nt+1)%3; th_count=nt; ops+="team of "+std::to_string(nt); }
    }catch(const std::exception&){ thrown=true; }
    if(o==STOP&&!thrown&&!want){ b.acc+=now_ns-b.at; b.run=false; e=b.acc*1e-9; }
    Shown s=take(); if(thrown!=want) bad=want?"misuse not refused":"refused"; else if(!thrown&&e>=0&&!near(g,e)) bad="gives "+D(g)+" s, expected "+D(e);
    else if(o==STOP){ if(s.bars) bad="bar left behind"; } else { bad=judge(s,b,nt,may); shown|=s.bars>0; }
#ifndef RICHDEM_NO_PROGRESS
    if(bad.empty()&&b.T>0&&p.cellsProcessed()!=(uint32_t)b.w) bad="counts "+std::to_string(p.cellsProcessed())+", expected "+std::to_string(b.w);
#endif
    h=mix(h,b.shown*1000+o); }
  virt=false; if(shown) nontrivial(); outcome(h); if(!bad.empty()) violation("progress","start(100); "+ops+"\n"+bad); else if(want_sample()&&shown) sample("progress: "+ops);
}
int main(int c,char**v){
  bool th=thorough();
#if defined(_OPENMP) && !defined(RICHDEM_NO_PROGRESS)
  const int more=1; // the timers are the same in the other builds
#else
  const int more=0;
#endif
  for(int k=1;k<=(th?7:6)+more;k++) suite("timer/d"+std::to_string(k),ipow(9,k),[=](uint64_t i){ timers(i,k); });
  suite("run/small",(th?1500:700)*(uint64_t)TEAM,[=](uint64_t i){ run(i/TEAM,1,1+i%TEAM,true); run(i/TEAM,1+i/TEAM/7,1+i%TEAM,false); });
  suite("run/big",15*4*TEAM,bigrun);
  for(int k=1;k<=(th?6:5);k++) suite("bar/d"+std::to_string(k),ipow(18,k),[=](uint64_t i){ hist(i,k); });
  return mc::main(c,v);
}
