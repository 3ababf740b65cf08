// C13: who owns raster memory. Every history of construction, copy, move, assignment, swap and resize over a
// small pool of vectors/rasters, some of them wrapping external memory, with every array allocation watched.
#include <new>
#include <cstdlib>
#include <set>
#include <mc.hpp>
namespace watch { static const int CAP=64; static void* live[CAP]; static int n=0; static bool on=false; static int badfree=0;
  static bool add(void*p){ for(int i=0;i<CAP;i++) if(!live[i]){ live[i]=p; n++; return true; } abort(); }
  static bool del(void*p){ for(int i=0;i<CAP;i++) if(live[i]==p){ live[i]=nullptr; n--; return true; } return false; } 
  static bool has(const void*p){ for(int i=0;i<CAP;i++) if(live[i]==p) return true; return false; } }
void* operator new[](std::size_t s){ void*p=malloc(s?s:1); if(!p) abort(); if(watch::on) watch::add(p); return p; }
void operator delete[](void*p) noexcept { if(!p) return; if(watch::on&&!watch::del(p)){ watch::badfree++; return; } free(p); }
void operator delete[](void*p,std::size_t) noexcept { operator delete[](p); }
#include <richdem/common/Array2D.hpp>
#include <memory>
using namespace richdem; using namespace mc;
static const int EXN=6; static int ext[2][EXN];       // external memory
static const int EG=99;                               // guard value around it
static void reset_ext(){ for(int b=0;b<2;b++) for(int i=0;i<EXN;i++) ext[b][i]=10*(b+1)+i; }
struct MV { int wrap=-1; std::vector<int> v; bool dead=true; };  // model of one slot; wrap>=0: aliases ext[wrap]
// model contents of a slot
struct Model { MV s[3]; int e[2][EXN]; };
static int& cell(Model&m,MV&s,int i){ return s.wrap>=0?m.e[s.wrap][i]:s.v[i]; }
static int esize(int b){ return b==0?4:6; }
using V=ManagedVector<int>;
struct Op { std::string name; };
static void say(const std::string&sig,const std::string&d){ violation(sig,d); }
static std::vector<int> contents(Model&m,MV&s){ std::vector<int> r; int n=s.wrap>=0?s.v.size():s.v.size(); for(int i=0;i<n;i++) r.push_back(cell(m,s,i)); return r; }
static void mcopy(Model&m,MV&d,MV&s){ auto c=contents(m,s); d.wrap=-1; d.v=c; d.dead=false; }
static void mmove(MV&d,MV&s){ if(&d==&s) return; d=s; d.dead=false; s.wrap=-1; s.v.clear(); }

// ---- level 1: ManagedVector, 2 slots (+ one transient)
static std::vector<std::string> vops(){ std::vector<std::string> n; for(int i=0;i<2;i++){ std::string s=std::to_string(i),t=std::to_string(1-i); for(const char*k:{"=V(2,5)","=V()","=V(0,5)","=V(ext0)","=V(ext1)","=copy","=move","=copyctor","=movector","=int64copy","resize4","resize6","resize0","write","selfcopy(owned)","selfmove","destroy"}) n.push_back(s+k); } n.push_back("swap"); n.push_back("construct-throughput"); return n; }
static std::vector<std::string> VO=vops();
static void vec(uint64_t idx,int depth){
  Dig d(idx); reset_ext(); Model m; for(int b=0;b<2;b++) for(int i=0;i<EXN;i++) m.e[b][i]=ext[b][i];
  alignas(V) unsigned char mem[2][sizeof(V)]; V*s[2]={nullptr,nullptr}; std::string hist,bad,last; states(); traces(); if(depth>1) nontrivial();
  watch::n=0; for(auto&p:watch::live) p=nullptr; watch::badfree=0; watch::on=true;
  s[0]=new(mem[0]) V(3,7); s[1]=new(mem[1]) V(&ext[0][0],4); m.s[0].v={7,7,7}; m.s[0].dead=false; m.s[1].wrap=0; m.s[1].v.resize(4); m.s[1].dead=false;
  for(int k=0;k<depth&&bad.empty();k++){ int o=d(VO.size()); watch::on=false; last=VO[o]; hist+=last+"; "; watch::on=true; trans(); int n=VO.size()-2; 
    if(o==n){ std::swap(*s[0],*s[1]); std::swap(m.s[0],m.s[1]); }
    else if(o==n+1){ V t(*s[0]); V u(std::move(t)); V w(3,1); w=u; w=V(&ext[1][0],2); w=std::move(u); }
    else { int i=o/(n/2),q=o%(n/2); V&a=*s[i],&b=*s[1-i]; MV&x=m.s[i],&y=m.s[1-i];
      switch(q){
        case 0: a=V(2,5); x.wrap=-1; x.v.assign(2,5); break; case 1: a=V(); x.wrap=-1; x.v.clear(); break; case 2: a=V((std::size_t)0,5); x.wrap=-1; x.v.clear(); break;
        case 3: case 4: { int e=q-3; a=V(&ext[e][0],esize(e)); x.wrap=e; x.v.assign(esize(e),0); break; }
        case 5: a=b; mcopy(m,x,y); break; case 6: a=std::move(b); mmove(x,y); break;
        case 7: { a.~V(); new(mem[i]) V(b); mcopy(m,x,y); break; } case 8: { a.~V(); new(mem[i]) V(std::move(b)); x.wrap=-1; mmove(x,y); break; }
        case 9: { ManagedVector<int64_t> t(b); ManagedVector<int64_t> t2; t2=t; a=t2; mcopy(m,x,y); break; }
        case 10: case 11: case 12: { int sz=q==10?4:q==11?6:0; bool thrown=false; try{ a.resize(sz); }catch(const std::exception&){ thrown=true; } bool must=x.wrap>=0&&(int)x.v.size()!=sz; if(thrown!=must) bad=must?"resized memory it does not own":"refused to resize its own memory"; else if(!thrown){ x.v.resize(sz); for(int j=0;j<sz;j++){ a[j]=j+30; cell(m,x,j)=j+30; } } break; }
        case 13: if(x.v.size()){ a[x.v.size()-1]=41+k; cell(m,x,x.v.size()-1)=41+k; a.data()[0]=51+k; cell(m,x,0)=51+k; } break;
        case 14: if(x.wrap<0){ V&r=a; a=r; } break; case 15: { V&r=a; a=std::move(r); break; }
        case 16: a.~V(); new(mem[i]) V(1,2); x.wrap=-1; x.v.assign(1,2); break;
      } }
    watch::on=false; int owned=0;
    for(int i=0;i<2&&bad.empty();i++){ V&a=*s[i]; const V&ca=a; MV&x=m.s[i]; if(a.size()!=x.v.size()||a.empty()!=x.v.empty()) bad="size "+std::to_string(a.size())+" expected "+std::to_string(x.v.size()); else if(a.owned()!=(x.wrap<0)) bad="owned() wrong"; else if(x.wrap>=0&&(a.data()!=ext[x.wrap]||ca.data()!=ext[x.wrap])) bad="wrapper no longer refers to the external memory"; else { for(size_t j=0;j<x.v.size()&&bad.empty();j++) if(a[j]!=cell(m,x,j)||ca[j]!=a[j]) bad="element "+std::to_string(j)+" is "+std::to_string(a[j])+" expected "+std::to_string(cell(m,x,j)); if(x.wrap<0){ if(a.data()&&!watch::has(a.data())) bad="owned data is not a live allocation"; if(a.data()) owned++; } } }
    if(bad.empty()&&s[0]->data()&&s[0]->data()==s[1]->data()&&!(m.s[0].wrap>=0&&m.s[0].wrap==m.s[1].wrap)) bad="two vectors share storage";
    if(bad.empty()&&watch::n!=owned) bad="live allocations "+std::to_string(watch::n)+", vectors owning storage "+std::to_string(owned);
    if(bad.empty()&&watch::badfree) bad="freed memory it did not allocate";
    if(bad.empty()) for(int b=0;b<2;b++) for(int j=0;j<EXN;j++) if(ext[b][j]!=m.e[b][j]) bad="external memory holds "+std::to_string(ext[b][j])+" expected "+std::to_string(m.e[b][j]);
    if(bad.empty()) outcome(mix(mix(owned,m.s[0].wrap+1),mix(m.s[1].wrap+1,m.s[0].v.size()*8+m.s[1].v.size())));
    watch::on=true;
  }
  s[0]->~V(); s[1]->~V(); watch::on=false; if(bad.empty()&&watch::n) bad="storage leaked after destruction"; if(bad.empty()&&watch::badfree) bad="destruction freed memory it did not allocate";
  if(!bad.empty()) say("vec:"+bad.substr(0,20)+":"+last.substr(1),hist+"\n"+bad); else if(want_sample()) sample(hist);
}
// ---- level 2: Array2D
using A=Array2D<int>;
struct MA { int wrap=-1,w=0,h=0; std::vector<int> v; };
struct Model2 { MA s[2]; int e[2][EXN]; };
static int& cell2(Model2&m,MA&s,int i){ return s.wrap>=0?m.e[s.wrap][i]:s.v[i]; }
static std::vector<std::string> aops(){ std::vector<std::string> n; for(int i=0;i<2;i++){ std::string s=std::to_string(i); for(const char*k:{"=A(2,1,5)","=A()","=A(ext0,2x2)","=A(ext1,3x2)","=A(ext1,2x3)","=copy","=move;new","=copyctor","=movector;new","=template","resize2x2","resize1x4","resize3x1","resize(other)","expand","write","setAll","transpose","flipVert","flipHorz","clear;resize","=init","setEdges"}) n.push_back(s+k); } n.push_back("swap"); n.push_back("Array3D"); return n; }
static std::vector<std::string> AO=aops();
static void arr(uint64_t idx,int depth){
  Dig d(idx); reset_ext(); Model2 m; for(int b=0;b<2;b++) for(int i=0;i<EXN;i++) m.e[b][i]=ext[b][i];
  A*s[2]; std::string hist,bad,last; states(); traces(); if(depth>1) nontrivial();
  watch::n=0; for(auto&p:watch::live) p=nullptr; watch::badfree=0; watch::on=true;
  alignas(A) static unsigned char mem[2][sizeof(A)]; s[0]=new(mem[0]) A(3,1,7); s[1]=new(mem[1]) A(&ext[0][0],2,2); m.s[0].w=3; m.s[0].h=1; m.s[0].v={7,7,7}; m.s[1].wrap=0; m.s[1].w=m.s[1].h=2; 
  auto cont=[&](MA&x){ std::vector<int> r; for(int i=0;i<x.w*x.h;i++) r.push_back(cell2(m,x,i)); return r; };
  auto copy=[&](MA&x,MA&y){ auto c=cont(y); x.wrap=-1; x.w=y.w; x.h=y.h; x.v=c; };
  for(int k=0;k<depth&&bad.empty();k++){ int o=d(AO.size()); last=AO[o]; hist+=last+"; "; trans(); int n=AO.size()-2;
    if(o==n){ std::swap(*s[0],*s[1]); std::swap(m.s[0],m.s[1]); }
    else if(o==n+1){ int buf[18]; for(auto&x:buf) x=1; { Array3D<int> w(buf,2,1); w(1,0,8)=9; Array3D<int> c(w); c(0,0,0)=5; Array3D<int> e(std::move(w)); e(0,0,1)=6; bool t=false; try{ e.resize(3,3); }catch(const std::exception&){ t=true; } if(!t) bad="Array3D resized memory it does not own"; c=e; c.resize(1,1,2); e=Array3D<int>(1,1,3); } if(buf[17]!=9||buf[0]!=1||buf[1]!=6) bad="Array3D wrapper lost a write"; }
    else { int i=o/(n/2),q=o%(n/2); A&a=*s[i],&b=*s[1-i]; MA&x=m.s[i],&y=m.s[1-i];
      auto rez=[&](int w,int h){ bool t=false; try{ a.resize(w,h,33); }catch(const std::exception&){ t=true; } bool must=x.wrap>=0&&w*h!=x.w*x.h; if(t!=must) bad=must?"resized memory it does not own":"refused to resize"; else if(!t){ x.w=w; x.h=h; if(x.wrap<0) x.v.resize(w*h); for(int j=0;j<w*h;j++) cell2(m,x,j)=33; } };
      auto renew=[&](A&r,MA&z){ r.~A(); new(&r) A(2,1,4); z.wrap=-1; z.w=2; z.h=1; z.v.assign(2,4); };
      switch(q){
        case 0: a=A(2,1,5); x.wrap=-1; x.w=2; x.h=1; x.v.assign(2,5); break; case 1: a=A(); x.wrap=-1; x.w=x.h=0; x.v.clear(); break;
        case 2: a=A(&ext[0][0],2,2); x.wrap=0; x.w=x.h=2; break; case 3: a=A(&ext[1][0],3,2); x.wrap=1; x.w=3; x.h=2; break; case 4: a=A(&ext[1][0],2,3); x.wrap=1; x.w=2; x.h=3; break;
        case 5: a=b; copy(x,y); break; case 6: a=std::move(b); x=y; renew(b,y); break;
        case 7: a.~A(); new(&a) A(b); copy(x,y); break; case 8: a.~A(); new(&a) A(std::move(b)); x=y; renew(b,y); break;
        case 9: { Array2D<uint8_t> t(b,(uint8_t)1); a=A(t,6); x.wrap=-1; x.w=y.w; x.h=y.h; x.v.assign(x.w*x.h,6); break; }
        case 10: rez(2,2); break; case 11: rez(1,4); break; case 12: rez(3,1); break;
        case 13: { bool t=false; try{ a.resize(b,33); }catch(const std::exception&){ t=true; } bool must=x.wrap>=0&&y.w*y.h!=x.w*x.h; if(t!=must) bad=must?"resized memory it does not own":"refused to resize"; else if(!t){ x.w=y.w; x.h=y.h; if(x.wrap<0) x.v.resize(x.w*x.h); for(int j=0;j<x.w*x.h;j++) cell2(m,x,j)=33; } break; }
        case 14: { bool t=false; int w=x.w+1,h=x.h+1; if(w>6||h>6) break; try{ a.expand(w,h,44); }catch(const std::exception&){ t=true; } if(t!=(x.wrap>=0)) bad=x.wrap>=0?"expanded memory it does not own":"refused to expand"; else if(!t){ MA z=x; x.w=w; x.h=h; x.v.assign(w*h,44); for(int Y=0;Y<z.h;Y++) for(int X=0;X<z.w;X++) x.v[Y*w+X]=z.v[Y*z.w+X]; } break; }
        case 15: if(x.w){ a(x.w-1,x.h-1)=60+k; cell2(m,x,x.w*x.h-1)=60+k; a(0u)=70+k; cell2(m,x,0)=70+k; } break;
        case 16: a.setAll(8); for(int j=0;j<x.w*x.h;j++) cell2(m,x,j)=8; break;
        case 17: { a.transpose(); auto c=cont(x); int ow=x.w,oh=x.h; std::swap(x.w,x.h); for(int Y=0;Y<x.h;Y++) for(int X=0;X<x.w;X++) cell2(m,x,Y*x.w+X)=c[X*ow+Y]; (void)oh; break; }
        case 18: { a.flipVert(); auto c=cont(x); for(int Y=0;Y<x.h;Y++) for(int X=0;X<x.w;X++) cell2(m,x,Y*x.w+X)=c[(x.h-1-Y)*x.w+X]; break; }
        case 19: if(x.w){ a.flipHorz(); auto c=cont(x); for(int Y=0;Y<x.h;Y++) for(int X=0;X<x.w;X++) cell2(m,x,Y*x.w+X)=c[Y*x.w+x.w-1-X]; } break;
        case 20: a.clear(); if(!a.empty()) bad="clear() keeps data"; else { x.wrap=-1; x.v.clear(); x.w=2; x.h=1; x.v.assign(2,3); a.resize(2,1,3); } break;
        case 21: a={{1,2},{3,4},{5,6}}; x.wrap=-1; x.w=2; x.h=3; x.v={1,2,3,4,5,6}; break;
        case 22: if(x.w){ a.setEdges(9); for(int Y=0;Y<x.h;Y++) for(int X=0;X<x.w;X++) if(X==0||Y==0||X==x.w-1||Y==x.h-1) cell2(m,x,Y*x.w+X)=9; } break;
      } }
    int owned=0;
    for(int i=0;i<2&&bad.empty();i++){ A&a=*s[i]; MA&x=m.s[i]; if(a.width()!=x.w||a.height()!=x.h) bad="dimensions"; else if(a.owned()!=(x.wrap<0)) bad="owned() wrong"; else if(x.wrap>=0&&a.data()!=ext[x.wrap]) bad="wrapper no longer refers to the external memory"; else { for(int j=0;j<x.w*x.h&&bad.empty();j++) if(a(j)!=cell2(m,x,j)||a.data()[j]!=a(j)) bad="cell "+std::to_string(j)+" is "+std::to_string(a(j))+" expected "+std::to_string(cell2(m,x,j)); if(x.wrap<0&&a.data()){ if(!watch::has(a.data())) bad="owned data is not a live allocation"; owned++; } } }
    if(bad.empty()&&s[0]->data()&&s[0]->data()==s[1]->data()&&!(m.s[0].wrap>=0&&m.s[0].wrap==m.s[1].wrap)) bad="two rasters share storage";
    if(bad.empty()&&watch::n!=owned) bad="live allocations "+std::to_string(watch::n)+", rasters owning storage "+std::to_string(owned);
    if(bad.empty()&&watch::badfree) bad="freed memory it did not allocate";
    if(bad.empty()) for(int b=0;b<2;b++) for(int j=0;j<EXN;j++) if(ext[b][j]!=m.e[b][j]) bad="external memory holds "+std::to_string(ext[b][j])+" expected "+std::to_string(m.e[b][j]);
    if(bad.empty()) outcome(mix(mix(owned,m.s[0].wrap+1),mix(m.s[1].wrap+1,m.s[0].w*64+m.s[0].h*8+m.s[1].w)));
  }
  s[0]->~A(); s[1]->~A(); watch::on=false; if(bad.empty()&&watch::n) bad="storage leaked after destruction"; if(bad.empty()&&watch::badfree) bad="destruction freed memory it did not allocate";
  if(!bad.empty()) say("raster:"+bad.substr(0,20)+":"+last.substr(1),hist+"\n"+bad); else if(want_sample()) sample(hist);
}
int main(int c,char**v){
  bool th=thorough();
  for(int d=1;d<=(th?5:4);d++) suite("vec/d"+std::to_string(d),ipow(VO.size(),d),[=](uint64_t i){ vec(i,d); });
  for(int d=1;d<=(th?4:3);d++) suite("raster/d"+std::to_string(d),ipow(AO.size(),d),[=](uint64_t i){ arr(i,d); });
  return mc::main(c,v);
}
