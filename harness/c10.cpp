#include "../common/spaces.hpp"
#include <richdem/flats/flats.hpp>
#include <richdem/flats/find_flats.hpp>
#include <richdem/flats/flat_resolution.hpp>
#include <richdem/flats/flat_resolution_dinf.hpp>
using namespace mc; using namespace richdem;
static bool inside(int x,int y,int w,int h){ return x>=0&&y>=0&&x<w&&y<h; }
static void say(const std::string&sig,const std::string&bad,const std::string&ctx){ if(!bad.empty()) violation(sig,bad+"\n"+ctx); }
static const int ax[8]={1,1,0,-1,-1,-1,0,1}, ay[8]={0,-1,-1,-1,0,1,1,1};
// kind of every cell: -1 NoData, 0 has an own way out (edge, lower neighbour, or next to NoData when ndout), 1 flat cell of a drainable flat, 2 flat cell without outlet
template<class T> std::vector<int> kinds(const std::vector<T>&z,int w,int h,T nd,bool ndout){
  std::vector<int> k(w*h,0); auto edge=[&](int i){ return i%w==0||i/w==0||i%w==w-1||i/w==h-1; };
  for(int i=0;i<w*h;i++){ if(z[i]==nd){ k[i]=-1; continue; } if(edge(i)) continue; bool out=false; for(int n=0;n<8;n++){ int j=i+oy8[n]*w+ox8[n]; if(z[j]<z[i]||(ndout&&z[j]==nd)) out=true; } if(!out) k[i]=2; }
  bool ch=true; while(ch){ ch=false; for(int i=0;i<w*h;i++) if(k[i]==2) for(int n=0;n<8;n++){ int j=i+oy8[n]*w+ox8[n]; if(z[j]==z[i]&&(k[j]==0||k[j]==1)){ k[i]=1; ch=true; break; } } }
  return k;
}
template<class T> std::string check_altered(const std::vector<T>&z,const std::vector<T>&a,const std::vector<int>&k,int w,int h,T nd){
  auto at=[&](int i){ return " at "+std::to_string(i%w)+","+std::to_string(i/w); };
  for(int i=0;i<w*h;i++){
    if(k[i]==-1&&a[i]!=nd) return "NoData cell changed"+at(i);
    if(k[i]==-1) continue;
    if(a[i]<z[i]) return "cell lowered"+at(i);
    bool nearflat=k[i]==1; for(int n=0;n<8&&k[i]==0;n++){ int x=i%w+ox8[n],y=i/w+oy8[n]; if(inside(x,y,w,h)&&k[y*w+x]==1&&z[y*w+x]==z[i]) nearflat=true; }
    if(a[i]!=z[i]&&!nearflat) return "cell outside any drainable flat changed"+at(i);
    bool edge=i%w==0||i/w==0||i%w==w-1||i/w==h-1; if(edge) { if(a[i]!=z[i]) return "edge cell changed"+at(i); continue; }
    if(a[i]!=z[i]||k[i]==1||k[i]==0){ bool out=false; for(int n=0;n<8;n++){ int j=i+oy8[n]*w+ox8[n]; if(a[j]<a[i]||(z[j]==nd)) out=true; } if(!out) return std::string(k[i]==1?"cell of a drainable flat has no lower neighbour":"cell lost its way out")+at(i); }
  }
  for(int i=0;i<w*h;i++) if(k[i]>=0) for(int j=0;j<w*h;j++) if(k[j]>=0&&z[i]<z[j]&&!(a[i]<a[j])) return "order of unequal cells inverted"+at(i)+at(j);
  return "";
}
// follow fd; every cell that could leave must leave
template<class T> std::string check_chains(const std::vector<T>&z,const std::vector<int>&k,const std::vector<std::vector<int>>&to,const std::vector<char>&leaves,int w,int h){
  int N=w*h; std::vector<int> st(N,0); std::string bad;
  std::function<void(int)> f=[&](int i){ if(st[i]==2||!bad.empty()) return; if(st[i]==1){ bad="directions form a cycle through "+std::to_string(i%w)+","+std::to_string(i/w); return; } st[i]=1; for(int j:to[i]) f(j); st[i]=2; };
  for(int i=0;i<N&&bad.empty();i++) f(i);
  if(!bad.empty()) return bad;
  for(int i=0;i<N;i++) if(k[i]==1){ // walk inside the flat (equal elevation, drainable-flat cells) must step to an outlet of the same flat
    std::vector<int> q{i}; std::vector<char> s(N,0); s[i]=1; for(size_t a=0;a<q.size();a++){ int c=q[a]; if(k[c]!=1) continue; if(to[c].empty()) return "cell of a drainable flat has no direction at "+std::to_string(c%w)+","+std::to_string(c/w); for(int j:to[c]){ if(z[j]!=z[c]) return "flat cell flows out of its flat other than through an outlet at "+std::to_string(c%w)+","+std::to_string(c/w); if(!s[j]){ s[j]=1; q.push_back(j); } } } }
  (void)leaves; return "";
}
// elevations must be further apart than the increments a flat of this size may need
static int fit(const Grid&g,int map,bool flt){ return flt&&map==HIGH&&g.w*g.h>25?MID:map; }
template<class T> void eps(const Grid&g,int map){ map=fit(g,map,sizeof(T)==4);
  auto dem=to_rd<T>(g,map); auto z=vals(dem); int w=g.w,h=g.h; T nd=dem.noData(); auto k=kinds<T>(z,w,h,nd,true); states(); traces(); trans();
  std::string ctx=std::string(tname<T>())+"\n dem "+show(z,w); bool any=false; for(int x:k) any|=x==1; if(any) nontrivial();
  { Array2D<int8_t> fl; FindFlats(dem,fl); for(int i=0;i<w*h;i++) if(fl(i)!=(k[i]==-1?-1:k[i]==0?0:1)){ say("findflats","cell "+std::to_string(i)+" is marked "+std::to_string(fl(i)),ctx); break; } }
  { Array2D<int32_t> m,l; GetFlatMask(dem,m,l); std::string bad; auto L=vals(l),M=vals(m); bool has=false; for(int x:k) has|=x==1;
    for(int i=0;i<w*h&&bad.empty();i++){ if(k[i]==1&&L[i]<1) bad="cell of a drainable flat without a label"; if(k[i]==2&&L[i]!=0) bad="cell of an undrainable flat labelled"; if(k[i]==-1&&L[i]!=0) bad="NoData labelled"; if(M[i]<0) bad="negative increment"; if(k[i]==1&&M[i]<1) bad="cell of a drainable flat without increments"; if((k[i]==2||k[i]==-1)&&M[i]!=0) bad="increments outside drainable flats";
      for(int n=0;n<8&&bad.empty();n++){ int x=i%w+ox8[n],y=i/w+oy8[n]; if(inside(x,y,w,h)&&k[i]>=0&&k[y*w+x]>=0&&z[y*w+x]==z[i]&&L[i]!=L[y*w+x]) bad="one flat, two labels"; } 
      for(int j=0;j<i&&bad.empty();j++) if(L[i]!=0&&L[i]==L[j]&&z[i]!=z[j]) bad="two flats share a label"; }
    // connected components: labels unique
    if(bad.empty()&&has){ std::map<int,int> rep; std::vector<int> comp(w*h,-1); for(int i=0;i<w*h;i++) if(comp[i]<0&&k[i]>=0){ std::vector<int> q{i}; comp[i]=i; for(size_t a=0;a<q.size();a++) for(int n=0;n<8;n++){ int x=q[a]%w+ox8[n],y=q[a]/w+oy8[n]; if(inside(x,y,w,h)&&comp[y*w+x]<0&&z[y*w+x]==z[i]){ comp[y*w+x]=i; q.push_back(y*w+x); } } if(L[i]!=0){ if(rep.count(L[i])) bad="two flats share a label"; rep[L[i]]=i; } } }
    say("mask",bad,ctx+"\n labels "+show(L,w)+"\n mask "+show(M,w)); outcome(hvec(M)); if(want_sample()&&any) sample(show(z,w)+" -> "+show(M,w)); }
  ResolveFlatsEpsilon(dem); auto a=vals(dem); say(std::string("epsilon:")+tname<T>(),check_altered<T>(z,a,k,w,h,nd),ctx+"\n got "+show(a,w));
}
template<class T> void d8(const Grid&g,int map,bool alter){ if(alter) map=fit(g,map,sizeof(T)==4);
  auto dem=to_rd<T>(g,map); auto z=vals(dem); int w=g.w,h=g.h; T nd=dem.noData(); states(); traces(); trans();
  std::string ctx=std::string(tname<T>())+(alter?" alter":"")+"\n dem "+show(z,w),bad;
  // here NoData counts by its value only (it ranks as stored)
  auto k=kinds<T>(z,w,h,nd,false); bool any=false; for(int x:k) any|=x==1; if(any) nontrivial();
  Array2D<uint8_t> base; d8_flow_directions(dem,base); auto bf=vals(base);
  Array2D<uint8_t> fd; barnes_flat_resolution_d8(dem,fd,alter); auto a=vals(dem); auto F=vals(fd);
  if((int)fd.width()!=w||(int)fd.height()!=h) bad="shape"; ctx+="\n dirs "+show(F,w)+"\n altered "+show(a,w);
  std::vector<std::vector<int>> to(w*h); std::vector<char> lv(w*h,0);
  for(int i=0;i<w*h&&bad.empty();i++){
    if((k[i]==-1)!=fd.isNoData(i)) bad="NoData marks differ"; if(k[i]==-1) continue; int c=F[i]; if(c>8){ bad="no direction code"; break; }
    if(c>0){ int x=i%w+ox8[c-1],y=i/w+oy8[c-1]; if(inside(x,y,w,h)){ if(k[y*w+x]!=-1) to[i].push_back(y*w+x); } else lv[i]=1; }
    if(k[i]==2&&c!=0) bad="undrainable flat cell got a direction";
    if(k[i]==0&&!alter&&c!=bf[i]) bad="cell outside flats changed direction";
    if(k[i]==0&&alter&&z[i]==a[i]&&c==0&&bf[i]!=0) bad="cell lost its direction";
    if(k[i]==0&&c==0) bad="cell with a way out has no direction";
    if(!bad.empty()) bad+=" at "+std::to_string(i%w)+","+std::to_string(i/w);
  }
  if(bad.empty()&&alter) bad=check_altered<T>(z,a,k,w,h,nd);
  if(bad.empty()&&!alter&&a!=z) bad="DEM changed";
  if(bad.empty()) bad=check_chains<T>(z,k,to,lv,w,h);
  say(std::string(alter?"d8alter:":"d8:")+tname<T>(),bad,ctx); outcome(hvec(F));
}
template<class T> void dinf(const Grid&g,int map){
  auto dem=to_rd<T>(g,map); auto z=vals(dem); int w=g.w,h=g.h; T nd=dem.noData(); states(); traces(); trans();
  auto k=kinds<T>(z,w,h,nd,false); bool any=false; for(int x:k) any|=x==1; if(any) nontrivial();
  Array2D<float> base; dinf_flow_directions(dem,base); Array2D<float> fd; resolve_flats_barnes_dinf(dem,fd); auto F=vals(fd); std::string ctx=std::string(tname<T>())+"\n dem "+show(z,w)+"\n angles "+show(F,w),bad;
  std::vector<std::vector<int>> to(w*h); std::vector<char> lv(w*h,0);
  for(int i=0;i<w*h&&bad.empty();i++){ float v=F[i];
    if((k[i]==-1)!=fd.isNoData(i)) bad="NoData marks differ"; if(k[i]==-1) continue;
    if(v!=NO_FLOW){ if(!(v>0&&v<2*M_PI+1e-5)) bad="angle out of range"; double t=v/(M_PI/4); int lo=(int)std::floor(t); double f=t-lo; if(f>1-2e-6){ lo++; f=0; } if(f<2e-6) f=0; auto add=[&](int q){ q%=8; int x=i%w+ax[q],y=i/w+ay[q]; if(inside(x,y,w,h)){ if(k[y*w+x]!=-1) to[i].push_back(y*w+x); } else lv[i]=1; }; add(lo); if(f>0) add(lo+1); }
    if(k[i]==2&&v!=NO_FLOW) bad="undrainable flat cell got an angle"; if(k[i]==0&&v!=base(i)) bad="cell outside flats changed its angle"; if(k[i]==0&&v==NO_FLOW) bad="cell with a way out has no angle";
    if(!bad.empty()) bad+=" at "+std::to_string(i%w)+","+std::to_string(i/w); }
  if(bad.empty()&&vals(dem)!=z) bad="DEM changed";
  if(bad.empty()) bad=check_chains<T>(z,k,to,lv,w,h);
  say(std::string("dinf:")+tname<T>(),bad,ctx); outcome(hvec(F));
}
template<class T> void refuses(){ Grid g; g.w=g.h=4; g.v.assign(16,2); states(); trans(2); nontrivial(); auto d=to_rd<T>(g,MID); auto z=vals(d); bool thrown=false; try{ ResolveFlatsEpsilon(d); }catch(const std::exception&){ thrown=true; } if(vals(d)!=z) violation("intrefuse",std::string("integer DEM altered ")+tname<T>()); if(!thrown) count("integer DEMs left alone"); Array2D<uint8_t> f; try{ barnes_flat_resolution_d8(d,f,true); }catch(const std::exception&){} for(auto x:vals(d)) if(x<z[0]) violation("intrefuse","integer DEM lowered"); }
template<class T> void all(const Grid&g,uint64_t i){ switch(i%4){ case 0: eps<T>(g,i/4%NMAP); break; case 1: d8<T>(g,i/4%NMAP,false); break; case 2: d8<T>(g,i/4%NMAP,true); break; default: dinf<T>(g,i/4%NMAP); } }
int main(int c,char**v){
  const bool th=thorough();
  auto full=[th](const Grid&g,uint64_t i){ int m=i%NMAP; eps<double>(g,m); d8<double>(g,m,false); d8<double>(g,m,true); dinf<double>(g,m); if(th){ eps<float>(g,(m+1)%NMAP); d8<float>(g,(m+1)%NMAP,true); } };
  terrain_suites("d/",full,th?1:-1);
  terrain_suites("f/",[](const Grid&g,uint64_t i){ eps<float>(g,i%NMAP); if(i%2) d8<float>(g,(i+1)%NMAP,true); else d8<double>(g,(i+1)%NMAP,false); },th?1:0);
  terrain_suites("i/",[](const Grid&g,uint64_t i){ switch(i%4){ case 0: d8<int16_t>(g,i/4%NMAP,false); break; case 1: d8<uint8_t>(g,i/4%NMAP,false); break; case 2: dinf<int32_t>(g,i/4%NMAP); break; default: dinf<uint16_t>(g,i/4%NMAP); } },th?1:-1);
  // flats of every shape inside high walls with one way out
  for(auto s:std::vector<std::pair<int,int>>{{5,5},{6,5},{5,6}}) for(int out:{0,1}) suite("shape"+wh(s.first,s.second)+"/"+std::to_string(out),bordered_n(s.first,s.second,2,1),[=](uint64_t i){ full(bordered(i,s.first,s.second,{1,2},2,out,1),i); });
  suite("shape5x5three",bordered_n(5,5,3,1),[=](uint64_t i){ full(bordered(i,5,5,{0,1,2},3,1,1),i); });
  suite("shape7x5",bordered_n(7,5,2,1),[=](uint64_t i){ auto g=bordered(i,7,5,{1,2},3,i%3==0?0:1,1); if(th) full(g,i); else all<double>(g,i/20); });
  if(th){ suite("shape6x6",bordered_n(6,6,2,1),[=](uint64_t i){ full(bordered(i,6,6,{1,2},2,i%3==0?0:1,1),i); }); suite("shape7x5two",bordered_n(7,5,2,2),[=](uint64_t i){ all<double>(bordered(i,7,5,{1,2},3,1,2),i/20); }); }
  suite("refuse",1,[](uint64_t){ refuses<int8_t>(); refuses<uint8_t>(); refuses<int16_t>(); refuses<uint16_t>(); refuses<int32_t>(); refuses<uint32_t>(); refuses<int64_t>(); refuses<uint64_t>(); });
  return mc::main(c,v);
}
