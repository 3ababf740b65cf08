// C28: every short history of log messages, nested ones included, through the logging macros with standard error captured.
#include <mc.hpp>
#include <sstream>
#include <iostream>
#include <string>
#include <richdem/common/logger.hpp>
using namespace mc; using namespace richdem;
static std::ostringstream cap;
struct Catch { std::streambuf*o; Catch():o(std::cerr.rdbuf(cap.rdbuf())){ cap.str(""); } ~Catch(){ std::cerr.rdbuf(o); } };
static const char*NAME[10]={"ALG_NAME","CITATION","CONFIG","DEBUG","ERROR","MEM_USE","MISC","PROGRESS","TIME_USE","WARN"};
static const char*TAG[10]={"A","C","c","d","E","","m","p","t","W"};
static const std::string LONG(5000,'l');
static int evals;
template<class F> void put(int flag,F f){ // f streams its payload into the logger
  #define CASE(n,m) case n: { auto&&s=m; f(s); } break;
  switch(flag){ CASE(0,RDLOG_ALG_NAME) CASE(1,RDLOG_CITATION) CASE(2,RDLOG_CONFIG) CASE(3,RDLOG_DEBUG) CASE(4,RDLOG_ERROR) CASE(5,RDLOG_MEM_USE) CASE(6,RDLOG_MISC) CASE(7,RDLOG_PROGRESS) CASE(8,RDLOG_TIME_USE) CASE(9,RDLOG_WARN) }
}
static int ev(int v){ evals++; return v; }
static std::string payload(int p){ switch(p){ case 0: return "word"; case 1: return ""; case 2: return "n = 42 of 0.25 t1"; case 3: return "100% %s, \t\"q\" p x"; case 4: return LONG; default: return "end"; } }
template<class S> void stream(S&s,int p){ switch(p){ case 0: s<<"word"; break; case 1: break; case 2: s<<"n = "<<ev(42)<<" of "<<0.25<<std::string(" t")<<true; break; case 3: s<<"100% %s, \t\"q\" p x"; break; case 4: s<<LONG; break; default: s<<"end"<<std::endl; } }
// what reached the terminal, colours removed, as its non-empty lines with surrounding blanks trimmed
static std::string trim(const std::string&x){ size_t a=x.find_first_not_of(" \t\r"),b=x.find_last_not_of(" \t\r"); return a==std::string::npos?"":x.substr(a,b-a+1); }
static std::vector<std::string> lines(std::string s){ for(size_t p;(p=s.find("\033["))!=std::string::npos;){ size_t e=s.find('m',p); s.erase(p,e==std::string::npos?std::string::npos:e-p+1); } std::vector<std::string> r; std::istringstream in(s); std::string l; while(std::getline(in,l)) if(!(l=trim(l)).empty()) r.push_back(l); return r; }
struct Msg { int flag,pay; };
static std::string d1(const Msg&m){ return std::string(NAME[m.flag])+" \""+payload(m.pay).substr(0,20)+"\""; }
static void check(const std::vector<Msg>&done,const std::string&what,int wantev){
  auto raw=cap.str(); std::string bad;
#ifdef RICHDEM_LOGGING
  auto got=lines(raw); std::vector<std::string> want; for(auto&m:done){ auto w=trim(std::string(TAG[m.flag])+" "+payload(m.pay)); if(!w.empty()) want.push_back(w); }
  if(got!=want){ bad="shown:"; for(auto&l:got) bad+="\n   "+l.substr(0,60); }
  else if(!raw.empty()&&raw.back()!='\n') bad="the last message does not end its line";
#else
  if(!raw.empty()) bad="something is shown although logging is off: "+raw.substr(0,80);
#endif
  if(bad.empty()&&evals!=wantev) bad="the values logged were evaluated "+std::to_string(evals)+" times, expected "+std::to_string(wantev);
  outcome(std::hash<std::string>()(raw)); if(!bad.empty()) violation("message",what+"\n"+bad); else if(want_sample()) sample(what);
}
static void seq(uint64_t i,int len,int np){
  Dig d(i); states(); traces(); if(len>1) nontrivial(); std::vector<Msg> ms; std::string w; int want=0; { Catch c; evals=0;
    for(int j=0;j<len;j++){ Msg m{(int)d(10),(int)d(np)}; put(m.flag,[&](auto&s){ stream(s,m.pay); }); trans(); ms.push_back(m); want+=m.pay==2; w+=(j?"; ":"")+d1(m); } }
  check(ms,w,want);
}
// a message logged while another one is being composed
static void nested(uint64_t i){
  Dig d(i); states(); traces(); nontrivial(); Msg o{(int)d(10),(int)d(4)},n{(int)d(10),(int)d(6)}; int when=d(2); { Catch c; evals=0; auto in=[&](){ put(n.flag,[&](auto&s){ stream(s,n.pay); }); };
    put(o.flag,[&](auto&s){ if(!when) in(); stream(s,o.pay); if(when) in(); }); trans(2); }
  check({n,o},d1(n)+" inside "+d1(o),(n.pay==2)+(o.pay==2));
}
int main(int c,char**v){
  bool th=thorough(); suite("message/1",60,[](uint64_t i){ seq(i,1,6); }); suite("message/2",3600,[](uint64_t i){ seq(i,2,6); }); suite("message/3",th?216000:64000,[=](uint64_t i){ seq(i,3,th?6:4); }); if(th) suite("message/4",810000,[](uint64_t i){ seq(i,4,3); });
  suite("nested",10*4*10*6*2,nested);
  return mc::main(c,v);
}
