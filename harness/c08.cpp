#include "../common/spaces.hpp"
#include <richdem/methods/flow_accumulation.hpp>
using namespace mc; using namespace richdem;
static std::vector<double> answers; static size_t used=0;
namespace richdem { double uniform_rand_real(double from,double to){ double a=answers.empty()?0.5:answers[used%answers.size()]; used++; return from+a*(to-from); } }

struct P { int w,h; std::vector<std::array<float,9>> v; };
// The balance equation, solved by following the network upstream.
static bool solve(const P&p,const std::vector<double>&wt,std::vector<double>&acc){
  int n=p.w*p.h; acc.assign(n,0); std::vector<int> st(n,0); std::vector<std::vector<std::pair<int,double>>> in(n);
  for(int i=0;i<n;i++){ if(p.v[i][0]==NO_DATA_GEN) continue; for(int k=1;k<=8;k++) if(p.v[i][k]>0){ int x=i%p.w+ox8[k-1],y=i/p.w+oy8[k-1]; if(x<0||y<0||x>=p.w||y>=p.h) continue; int j=y*p.w+x; if(p.v[j][0]==NO_DATA_GEN) continue; in[j].push_back({i,p.v[i][k]}); } }
  bool ok=true; std::function<double(int)> f=[&](int i)->double{ if(st[i]==2) return acc[i]; if(st[i]==1){ ok=false; return 0; } st[i]=1; double a=wt[i]; for(auto&e:in[i]) a+=e.second*f(e.first); acc[i]=a; st[i]=2; return a; };
  for(int i=0;i<n&&ok;i++) if(p.v[i][0]!=NO_DATA_GEN) f(i);
  return ok;
}
static void judge(const P&p,const std::vector<double>&wt,const std::vector<double>&got,const std::string&what,const std::string&ctx){
  std::vector<double> e; if(!solve(p,wt,e)){ count("cyclic"); return; }
  nontrivial(); int n=p.w*p.h; std::string bad; double placed=0,left=0,size=1; for(double q:wt) size+=std::fabs(q);
  for(int i=0;i<n&&bad.empty();i++){
    if(p.v[i][0]==NO_DATA_GEN){ if(got[i]!=ACCUM_NO_DATA) bad="NoData cell "+std::to_string(i)+" holds "+std::to_string(got[i]); continue; }
    if(!(std::fabs(got[i]-e[i])<=1e-12*size)) bad="cell "+std::to_string(i)+" accumulates "+std::to_string(got[i])+", own plus upstream flow is "+std::to_string(e[i]);
    placed+=wt[i]; double out=0,lost=0; for(int k=1;k<=8;k++) if(p.v[i][k]>0){ int x=i%p.w+ox8[k-1],y=i/p.w+oy8[k-1]; bool in=x>=0&&y>=0&&x<p.w&&y<p.h&&p.v[y*p.w+x][0]!=NO_DATA_GEN; if(in) out+=p.v[i][k]; else lost+=p.v[i][k]; } left+=got[i]*(1-out); (void)lost;
  }
  if(bad.empty()&&std::fabs(placed-left)>1e-5*size) bad="placed "+std::to_string(placed)+" but "+std::to_string(left)+" leaves";
  outcome(hvec(got));
  if(!bad.empty()){ std::ostringstream o; o<<what<<": "<<bad<<"\n"<<ctx<<"\n weights "<<show(wt,p.w)<<"\n result "<<show(got,p.w)<<"\n props"; for(auto&c:p.v){ o<<" ["; for(float q:c) o<<q<<" "; o<<"]"; } violation("fa:"+what,o.str()); }
}
static std::vector<double> weights(int k,int w,int h){ std::vector<double> v(w*h,1); switch(k%6){ case 5: for(int i=0;i<w*h;i++) v[i]=16777217+0.1*i; break;  case 1: for(int i=0;i<w*h;i++) v[i]=i+1; break; case 2: for(int i=0;i<w*h;i++) v[i]=(i%3==0)?2.5:0; break; case 3: for(int i=0;i<w*h;i++) v[i]=i%2?-1.5:0.75; break; case 4: v.assign(w*h,0); v[(h/2)*w+w/2]=8; break; } return v; }
static void direct(const P&p,int wk){
  Array2D<float> t(p.w,p.h,1); t.setNoData(-9999); Array3D<float> pr(t,0.f);
  pr.setNoData(NO_DATA_GEN);
  for(int y=0;y<p.h;y++) for(int x=0;x<p.w;x++) for(int k=0;k<9;k++) pr(x,y,k)=p.v[y*p.w+x][k];
  auto wt=weights(wk,p.w,p.h); Array2D<double> acc(p.w,p.h,0); for(int i=0;i<p.w*p.h;i++) acc(i)=wt[i];
  states(); traces(); trans(); FlowAccumulation(pr,acc); judge(p,wt,vals(acc),"FlowAccumulation",""); 
  if(want_sample()&&G().nt) sample("weights "+show(wt,p.w)+" result "+show(vals(acc),p.w));
}
static std::array<float,9> cell(int k){ // share patterns
  std::array<float,9> c; c.fill(NO_FLOW_GEN); if(k==0) return c; if(k==25){ c[0]=NO_DATA_GEN; return c; } c.fill(0); c[0]=HAS_FLOW_GEN;
  if(k<=8) c[k]=1; else if(k<=16){ c[k-8]=0.25f; c[(k-8)%8+1]=0.75f; } else { c[k-16]=0.5f; c[(k-16+2)%8+1]=0.125f; c[(k-16+4)%8+1]=0.375f; }
  return c;
}
// every flow metric's proportions, accumulated, for user weights
template<class T> void metrics(const Grid&g,int map,uint64_t i){
  auto dem=to_rd<T>(g,map); auto in=vals(dem); auto wt=weights(i,g.w,g.h); states(); traces();
  auto run=[&](const char*nm,auto fa,auto fm){
    answers={0.3,0.9,1e-9,0.6}; used=0; Array3D<float> pr(dem); fm(dem,pr); P p; p.w=g.w;p.h=g.h; p.v.resize(g.w*g.h); for(int y=0;y<g.h;y++) for(int x=0;x<g.w;x++) for(int k=0;k<9;k++) p.v[y*g.w+x][k]=pr(x,y,k);
    used=0; Array2D<double> acc(g.w,g.h,0); for(int k=0;k<g.w*g.h;k++) acc(k)=wt[k]; fa(dem,acc); trans(); 
    for(int k=0;k<g.w*g.h;k++) if((in[k]==dem.noData())!=(p.v[k][0]==NO_DATA_GEN)) violation(std::string("fa:nodata:")+nm,"NoData marking differs");
    std::vector<double> e; if(!solve(p,wt,e)) violation(std::string("fa:cycle:")+nm,"the metric's proportions are cyclic\n dem "+show(in,g.w));
    judge(p,wt,vals(acc),nm,"dem "+show(in,g.w)); if(vals(dem)!=in) violation(std::string("fa:dem:")+nm,"DEM changed"); answers.clear(); };
#define RUN(X) run("FA_" #X,[](auto&d,auto&a){FA_##X(d,a);},[](auto&d,auto&p){FM_##X(d,p);});
#define RUNX(X,e) run("FA_" #X,[](auto&d,auto&a){FA_##X(d,a,e);},[](auto&d,auto&p){FM_##X(d,p,e);});
  switch(i%4){ case 0: RUN(Tarboton) RUN(D8) RUN(Rho8) break; case 1: RUN(Dinfinity) RUN(D4) RUN(Rho4) break; case 2: RUN(Quinn) RUNX(Holmgren,2.5) run("FA_OCallaghanD8",[](auto&d,auto&a){FA_OCallaghanD8(d,a);},[](auto&d,auto&p){FM_D8(d,p);}); run("FA_FairfieldLeymarieD8",[](auto&d,auto&a){FA_FairfieldLeymarieD8(d,a);},[](auto&d,auto&p){FM_Rho8(d,p);}); break; case 3: RUNX(Freeman,1.1) run("FA_OCallaghanD4",[](auto&d,auto&a){FA_OCallaghanD4(d,a);},[](auto&d,auto&p){FM_D4(d,p);}); run("FA_FairfieldLeymarieD4",[](auto&d,auto&a){FA_FairfieldLeymarieD4(d,a);},[](auto&d,auto&p){FM_Rho4(d,p);}); break; }
}
int main(int c,char**v){
  const bool th=thorough();
  // every single-receiver network, edges included
  for(auto s:std::vector<std::pair<int,int>>{{1,1},{1,4},{4,1},{2,2},{2,3},{3,2}}) suite("net"+wh(s.first,s.second),ipow(10,s.first*s.second),[=](uint64_t i){ P p; p.w=s.first;p.h=s.second; Dig d(i); for(int k=0;k<p.w*p.h;k++){ int q=d(10); p.v.push_back(cell(q==9?25:q)); } direct(p,i); });
  suite("net3x3",ipow(5,9),[=](uint64_t i){ static const int C[5]={0,2,5,7,25}; P p; p.w=p.h=3; Dig d(i); for(int k=0;k<9;k++) p.v.push_back(cell(C[d(5)])); if(!th&&i%4) {} direct(p,i); });
  // every combination of split shares in the interior of a 4x4 grid
  suite("split4x4",ipow(25,4),[=](uint64_t i){ if(!th&&0) return; P p; p.w=p.h=4; p.v.assign(16,cell(0)); Dig d(i); for(int k:{5,6,9,10}) p.v[k]=cell(d(25)); if(i%3==0) p.v[1]=cell(25); direct(p,i/7); });
  suite("split5x4",ipow(6,6)*6,[=](uint64_t i){ static const int C[6]={0,5,7,11,19,25}; P p; p.w=5;p.h=4; p.v.assign(20,cell(0)); Dig d(i); int e=d(6); for(int k:{6,7,8,11,12,13}) p.v[k]=cell(C[d(6)]); p.v[2]=cell(C[e]); direct(p,i/5); });
  terrain_suites("m/",[](const Grid&g,uint64_t i){ for(int k=0;k<4;k++) metrics<double>(g,MID,i*4+k); },th?1:-1);
  terrain_suites("f/",[](const Grid&g,uint64_t i){ metrics<float>(g,i%NMAP,i); },th?1:-1);
  terrain_suites("i/",[](const Grid&g,uint64_t i){ metrics<int16_t>(g,i%NMAP,i); },th?0:-1);
  return mc::main(c,v);
}
