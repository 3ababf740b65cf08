// C14: every save/load round trip and every save-load-process history over small rasters (real GDAL, in-memory files).
#include <mc.hpp>
#include <richdem/common/Array2D.hpp>
#include <richdem/common/loaders.hpp>
#include <ogr_spatialref.h>
#include <cpl_vsi.h>
#include <memory>
#include <sys/stat.h>
using namespace richdem; using namespace mc;
static void say(const std::string&s,const std::string&d){ violation(s,d); }
static const int SH[5][2]={{1,1},{3,2},{2,5},{7,1},{17,3}};
static const double GTS[4][6]={{0,0,0,0,0,0},{100,2,0,200,0,-3},{-5.25,1,0.5,7,0.25,-1},{500000.1,30.3333333333333333,0,4e6/3,0,-1/3.}};
static std::string wkt(int k){ static std::string c[3]; static bool init=false; if(!init){ init=true; for(int i=1;i<3;i++){ OGRSpatialReference s; s.importFromEPSG(i==1?4326:32610); char*w=nullptr; s.exportToWkt(&w); c[i]=w?w:""; CPLFree(w); } } return c[k]; }
static bool sameproj(const std::string&a,const std::string&b){ if(a==b) return true; if(a.empty()||b.empty()) return false; OGRSpatialReference x(a.c_str()),y(b.c_str()); return x.IsSame(&y); }
template<class T> bool same(T a,T b){ return a==b||(a!=a&&b!=b); }
template<class T> T pat(int p,int i,T nd){ using L=std::numeric_limits<T>; switch(p){ case 0: return T(0); case 1: return T(i+1); case 2: return i%3==0?L::max():i%3==1?L::lowest():T(1); case 3: if(L::has_quiet_NaN){ switch(i%6){ case 0: return L::quiet_NaN(); case 1: return L::infinity(); case 2: return -L::infinity(); case 3: return L::denorm_min(); case 4: return (T)-0.0; default: return (T)0.1; } } return T(i*i*37+11); case 4: return i%2?nd:T(5+i); default: return (T)(L::is_signed?-i:i*3)+(T)(L::is_integer?0:0.1); } }
template<class T> T ndv(int k){ using L=std::numeric_limits<T>; switch(k){ case 0: return (T)-1; case 1: return L::max(); case 2: return L::lowest(); default: return L::is_integer?(T)0:(T)0.1; } }
static std::string dir(){ const char*d=getenv("MC_SHARD_DIR"); return d?d:"."; }
static std::vector<std::string> hist(const std::map<std::string,std::string>&m){ std::vector<std::string> r; auto it=m.find("PROCESSING_HISTORY"); if(it==m.end()) return r; std::string cur; for(char c:it->second+"\n"){ if(c=='\n'){ if(!cur.empty()) r.push_back(cur); cur.clear(); } else cur+=c; } return r; }
static std::string opof(const std::string&e){ auto p=e.rfind(" | "); return p==std::string::npos?"?":e.substr(p+3); }
template<class T> struct R { int w,h; std::vector<T> v; T nd; std::vector<double> gt; std::string proj; std::map<std::string,std::string> meta; };
template<class T> R<T> mk(int sh,int p,int n,int g,int pr,int m){ R<T> r; r.w=SH[sh][0]; r.h=SH[sh][1]; r.nd=ndv<T>(n); for(int i=0;i<r.w*r.h;i++) r.v.push_back(pat<T>(p,i,r.nd)); if(g) r.gt.assign(GTS[g],GTS[g]+6); r.proj=wkt(pr); if(m>0){ r.meta["Author"]="A & B <\"x\">"; r.meta["Note"]="x  y; z"; } if(m>1){ r.meta["PROCESSING_HISTORY"]="2001-01-01 00:00:00 UTC | old | first"; r.meta["n=o"]="kept?"; r.meta.erase("n=o"); } return r; }
template<class T> Array2D<T> real(const R<T>&r){ Array2D<T> a(r.w,r.h); a.setNoData(r.nd); for(unsigned i=0;i<r.v.size();i++) a(i)=r.v[i]; a.geotransform=r.gt; a.projection=r.proj; a.metadata=r.meta; return a; }
template<class T> std::string cmp(Array2D<T>&a,const R<T>&r,bool gdal,bool geo=true){
  if(a.width()!=r.w||a.height()!=r.h) return "dimensions "+std::to_string(a.width())+"x"+std::to_string(a.height());
  for(unsigned i=0;i<r.v.size();i++){ T x=a(i); if(!same(x,r.v[i])||(r.v[i]==0&&std::signbit((double)x)!=std::signbit((double)r.v[i]))){ std::ostringstream o; o.precision(17); o<<"value "<<i<<" is "<<+x<<" expected "<<+r.v[i]; return o.str(); } }
  if(!same(a.noData(),r.nd)) return "NoData is "+std::to_string((double)a.noData())+" expected "+std::to_string((double)r.nd);
  if(geo){ std::vector<double> g=r.gt; if(gdal&&g.empty()) g={1000,1,0,1000,0,-1}; if(a.geotransform!=g) return "geotransform "+show(a.geotransform,6)+" expected "+show(g,6); }
  if(gdal?!sameproj(a.projection,r.proj):a.projection!=r.proj) return "projection "+a.projection.substr(0,80);
  unsigned nd=0; for(auto x:r.v) nd+=x!=r.nd; if(a.numDataCells()!=nd) return "numDataCells";
  return "";
}
// metadata of a loaded file against what was in memory when it was saved
static std::string cmpmeta(const std::map<std::string,std::string>&got,const std::map<std::string,std::string>&want,const std::vector<std::string>&history){
  for(auto&k:want) if(k.first!="PROCESSING_HISTORY"&&k.first.substr(0,7)!="TIFFTAG"){ auto it=got.find(k.first); if(it==got.end()) return "metadata item "+k.first+" lost"; if(it->second!=k.second) return "metadata item "+k.first+" is '"+it->second+"' expected '"+k.second+"'"; }
  for(auto&k:got) if(!want.count(k.first)&&k.first!="PROCESSING_HISTORY"&&k.first.substr(0,7)!="TIFFTAG"&&k.first!="AREA_OR_POINT") return "metadata item "+k.first+" appeared";
  auto h=hist(got); if(h.size()!=history.size()) return "history has "+std::to_string(h.size())+" entries, expected "+std::to_string(history.size()); for(size_t i=0;i<h.size();i++){ if(opof(h[i])!=history[i]) return "history entry "+std::to_string(i)+" is '"+h[i]+"', expected operation '"+history[i]+"'"; } 
  return "";
}
template<class T> void gdalrt(uint64_t i){
  Dig d(i); int loader=d(3),comp=d(2),m=d(3),pr=d(3),g=d(4),n=d(4),p=d(6),sh=d(5); auto r=mk<T>(sh,p,n,g,pr,m); auto a=real(r); states(); traces(); trans(2); if(r.v.size()>1) nontrivial();
  std::string f="/vsimem/rt.tif",bad; std::vector<std::string> h; if(m>1) h.push_back("first"); h.push_back(m==1?"Unspecified Operation":"op one"); std::string op=m==1?"":"op one";
  if(loader==1) SaveGDAL(a,f,op,0,0,0,0,comp); else a.saveGDAL(f,op,0,0,comp);
  R<T> am=r; bad=cmp(a,r,false); if(!bad.empty()) bad="saving changed the raster: "+bad;
  if(bad.empty()){ if(loader==0){ Array2D<T> b(f); bad=cmp(b,r,true); if(bad.empty()) bad=cmpmeta(b.metadata,r.meta,h); if(b.viewXoff()||b.viewYoff()) bad="offsets"; if(b.filename!=f) bad="filename"; } else if(loader==1){ Array2D<T> b(2,2,(T)3); LoadGDAL(f,b); bad=cmp(b,r,true); if(bad.empty()) bad=cmpmeta(b.metadata,r.meta,h); } else { Array2D<T> b(f,false,0,0,0,0,false,false); if(!b.empty()||b.width()!=r.w||b.height()!=r.h) bad="lazy load"; b.loadData(); if(bad.empty()) bad=cmp(b,r,true); bool t=false; try{ b.loadData(); }catch(const std::exception&){ t=true; } if(!t) bad="loading over loaded data"; } }
  if(bad.empty()){ int32_t H,W; T nd; double gt[6]; getGDALHeader(f,H,W,nd,gt); GDALDataType ty; int32_t H2,W2; double gt2[6]; getGDALDimensions(f,H2,W2,ty,g?gt2:nullptr); if(H!=r.h||W!=r.w||!same(nd,r.nd)||H2!=H||W2!=W||ty!=NativeTypeToGDAL<T>()||peekGDALType(f)!=ty) bad="header functions"; else if(g&&(memcmp(gt,GTS[g],sizeof gt)||memcmp(gt2,gt,sizeof gt))) bad="header geotransform"; }
  VSIUnlink(f.c_str()); VSIUnlink((f+".aux.xml").c_str());
  if(!bad.empty()) say("gdal:"+bad.substr(0,18),std::string(typeid(T).name())+" shape "+std::to_string(sh)+" pattern "+std::to_string(p)+" nodata "+std::to_string(n)+" gt "+std::to_string(g)+" proj "+std::to_string(pr)+" meta "+std::to_string(m)+(comp?" compressed":"")+" loader "+std::to_string(loader)+"\n"+bad); else outcome(mix(mix(sh,p),mix(n,g*64+pr*8+m)));
}
template<class T> void native(uint64_t i){
  Dig d(i); int how=d(4),off=d(2),pr=d(3),g=d(4),n=d(4),p=d(6),sh=d(6); R<T> r=sh<5?mk<T>(sh,p,n,g,pr,0):R<T>{0,0,{},ndv<T>(n),g?std::vector<double>(GTS[g],GTS[g]+6):std::vector<double>(),wkt(pr),{}}; auto a=real(r); states(); traces(); trans(2); if(r.v.size()>1) nontrivial();
  std::string f=dir()+"/cache.bin",bad; (void)off;
  if(how==0){ a.saveToCache(f); bad=cmp(a,r,false); if(bad.empty()){ Array2D<T> b(f,true); bad=cmp(b,r,false); } }
  else if(how==1){ Array2D<T> big(9,9,(T)4); big.geotransform={1,2,3,4,5,6}; big.projection="a much longer projection text"; big.saveToCache(f); a.setCacheFilename(f); a.dumpData(); if(!a.empty()||a.width()!=r.w) bad="dumpData"; if(sh<5||true){ a.loadData(); bad=cmp(a,r,false); } }
  else if(how==2){ a.saveToCache(f); Array2D<T> b(f,true,0,0,0,0,false,false); if(!b.empty()||b.width()!=r.w||b.height()!=r.h||!same(b.noData(),r.nd)||b.geotransform!=r.gt||b.projection!=r.proj) bad="header-only load"; unsigned nd=0; for(auto x:r.v) nd+=x!=r.nd; if(sh<5&&b.numDataCells()!=nd) bad="header-only numDataCells "+std::to_string(b.numDataCells()); if(bad.empty()){ b.loadData(); bad=cmp(b,r,false); } }
  else { if(r.v.size()){ a.numDataCells(); a.saveToCache(f); for(auto&x:r.v) x=(x==r.nd)?(T)(x==0?1:0):x; for(unsigned k=0;k<r.v.size();k++) a(k)=r.v[k]; } a.saveToCache(f); { Array2D<T> b(f,true); bad=cmp(b,r,false); if(bad.empty()){ b.saveToCache(f+"2"); Array2D<T> c(f+"2",true); bad=cmp(c,r,false); unlink((f+"2").c_str()); } } }
  unlink(f.c_str()); if(!bad.empty()) say("native:"+bad.substr(0,18),std::string(typeid(T).name())+" how "+std::to_string(how)+" shape "+std::to_string(sh)+" pattern "+std::to_string(p)+" nodata "+std::to_string(n)+" gt "+std::to_string(g)+"\n"+bad); else outcome(mix(mix(sh,p),mix(n,g*64+pr*8+how)));
}
// every sub-window of a 4x3 raster; 0 means "to the end"
template<class T> void window(uint64_t i){
  Dig d(i); int x=d(4),y=d(3),w=d(6),h=d(5),g=1+d(3),mode=d(4); R<T> r; r.w=4;r.h=3; r.nd=(T)3; for(int k=0;k<12;k++) r.v.push_back((T)(k+1)); r.gt.assign(GTS[g],GTS[g]+6); auto a=real(r); a.metadata["k"]="v"; std::string f="/vsimem/w.tif",f2="/vsimem/w2.tif",bad; a.saveGDAL(f,"parent"); states(); traces(); trans(); nontrivial();
  int ew=(w==0||x+w>=4)?4-x:w,eh=(h==0||y+h>=3)?3-y:h; R<T> e; e.w=ew; e.h=eh; e.nd=r.nd; e.gt=r.gt; for(int Y=0;Y<eh;Y++) for(int X=0;X<ew;X++) e.v.push_back(r.v[(y+Y)*4+x+X]);
  std::string ctx=std::to_string(x)+","+std::to_string(y)+" "+std::to_string(w)+"x"+std::to_string(h)+" mode "+std::to_string(mode);
  R<T> moved=e; moved.gt[0]=r.gt[0]+x*r.gt[1]+y*r.gt[2]; moved.gt[3]=r.gt[3]+x*r.gt[4]+y*r.gt[5];
  if(mode<2){ Array2D<T> b(f,false,x,y,w,h,false,mode==0); if(mode==1) b.loadData(); bad=cmp(b,e,true); if(bad.empty()&&(b.viewXoff()!=x||b.viewYoff()!=y)) bad="view offsets"; if(bad.empty()){ b.saveGDAL(f2,"sub",b.viewXoff(),b.viewYoff()); Array2D<T> c(f2); bad=cmp(c,moved,true); if(bad.empty()) bad=cmpmeta(c.metadata,{{"k","v"}},{"parent","sub"}); 
      if(bad.empty()){ b.saveToCache(dir()+"/w.bin"); Array2D<T> k(dir()+"/w.bin",true); if(k.viewXoff()!=x||k.viewYoff()!=y) bad="cache lost the view offsets"; unlink((dir()+"/w.bin").c_str()); } } }
  else if(mode==2){ bool ok=(4-x==w&&3-y==h),t=false; try{ Array2D<T> b(f,false,x,y,w,h,true); if(bad.empty()) bad=cmp(b,e,true); }catch(const std::exception&){ t=true; } if(t==ok) bad=ok?"exact load refused":"exact load accepted other dimensions"; }
  else { Array2D<T> b(1,1); int px=w%3,py=h%2; LoadGDAL(f,b,0,0,x,y,w,h); bad=cmp(b,e,true); if(bad.empty()){ LoadGDAL(f,b,px,py,x,y,w,h); if(b.width()!=ew+2*px||b.height()!=eh+2*py) bad="padded dimensions"; else for(int Y=0;Y<b.height();Y++) for(int X=0;X<b.width();X++){ bool in=X>=px&&Y>=py&&X<px+ew&&Y<py+eh; if(in&&b(X,Y)!=e.v[(Y-py)*ew+X-px]) bad="padded values"; } if(bad.empty()){ SaveGDAL(b,f2,"p",x,y,px,py); Array2D<T> c(f2); bad=cmp(c,moved,true); if(!bad.empty()) bad="unpadded save: "+bad; } } }
  for(auto&q:{f,f2}){ VSIUnlink(q.c_str()); VSIUnlink((q+".aux.xml").c_str()); }
  if(!bad.empty()) say("window:"+std::to_string(mode)+":"+bad.substr(0,18),ctx+"\n"+bad); else outcome(mix(ew*8+eh,x*8+y));
}
// Save/load/process histories over two files and one raster in memory.
static const char*HO[]={"saveGDAL(F0,a)","saveGDAL(F1)","SaveGDAL(F0,b)","load F0","load F1","LoadGDAL F1","template copy","metadata","cache round trip","setAll(7)","compressed save F1 c","copy","lazy load F0"};
enum { NH=sizeof(HO)/sizeof(*HO) };
struct St { std::map<std::string,std::string> meta; std::vector<std::string> h; int val; };
static void history(uint64_t i,int depth){
  Dig d(i); std::unique_ptr<Array2D<float>> a(new Array2D<float>(2,2,1)); a->geotransform={0,2,0,0,0,-2}; St m{{},{},1}; St file[2]; bool have[2]={false,false}; std::string F[2]={"/vsimem/h0.tif","/vsimem/h1.tif"},bad,hs; states(); traces(); int saves=0,op=0;
  for(int k=0;k<depth&&bad.empty();k++){ op=d(NH); hs+=std::string(HO[op])+"; "; trans();
    switch(op){
      case 0: a->saveGDAL(F[0],"a"); m.h.push_back("a"); file[0]=m; have[0]=true; saves++; break; case 1: a->saveGDAL(F[1]); m.h.push_back("Unspecified Operation"); file[1]=m; have[1]=true; saves++; break; case 10: a->saveGDAL(F[1],"c",0,0,true); m.h.push_back("c"); file[1]=m; have[1]=true; saves++; break;
      case 2: SaveGDAL(*a,F[0],"b"); file[0]=m; file[0].h.push_back("b"); have[0]=true; saves++; break;
      case 3: case 4: case 5: case 12: { int f=op==3||op==12?0:1; if(!have[f]) break; if(op==5) LoadGDAL(F[f],*a); else if(op==12){ a.reset(new Array2D<float>(F[f],false,0,0,0,0,false,false)); a->loadData(); } else a.reset(new Array2D<float>(F[f])); m=file[f]; break; }
      case 6: { Array2D<uint8_t> t(*a,1); Array2D<float> u(t,(float)m.val); *a=u; break; } case 7: a->metadata["user"]="x"+std::to_string(k); m.meta["user"]="x"+std::to_string(k); break;
      case 8: a->setCacheFilename(dir()+"/h.bin"); a->dumpData(); a->loadData(); unlink((dir()+"/h.bin").c_str()); break; case 9: a->setAll(7); m.val=7; break; case 11: { Array2D<float> c(*a); *a=c; break; }
    }
    bad=cmpmeta(a->metadata,m.meta,m.h); if(bad.empty()) for(int j=0;j<4;j++) if((*a)(j)!=m.val) bad="values"; if(bad.empty()&&a->geotransform!=std::vector<double>{0,2,0,0,0,-2}) bad="geotransform"; }
  for(int f=0;f<2&&bad.empty();f++) if(have[f]){ Array2D<float> b(F[f]); bad=cmpmeta(b.metadata,file[f].meta,file[f].h); if(bad.empty()&&b(3)!=file[f].val) bad="file values"; if(!bad.empty()) bad="file "+std::to_string(f)+": "+bad; }
  for(auto&q:F){ VSIUnlink(q.c_str()); VSIUnlink((q+".aux.xml").c_str()); }
  if(saves>1) nontrivial(); if(!bad.empty()) say("history:"+std::string(HO[op]),hs+"\n"+bad); else { outcome(mix(m.h.size()*64+m.meta.size(),(have[0]?file[0].h.size():9)*16+(have[1]?file[1].h.size():9))); if(want_sample()) sample(hs); }
}
int main(int c,char**v){
  setenv("GTIFF_REPORT_COMPD_CS","NO",0); CPLSetErrorHandler(CPLQuietErrorHandler); GDALAllRegister(); bool th=thorough();
  auto rt=[&](const char*n,std::function<void(uint64_t)> f){ suite(std::string("gdal/")+n,(uint64_t)3*2*3*3*4*4*6*5,[=](uint64_t i){ f(i); }); };
  (void)th; rt("u8",gdalrt<uint8_t>); rt("i16",gdalrt<int16_t>); rt("u16",gdalrt<uint16_t>); rt("i32",gdalrt<int32_t>); rt("u32",gdalrt<uint32_t>); rt("f32",gdalrt<float>); rt("f64",gdalrt<double>);
  auto nt=[&](const char*n,std::function<void(uint64_t)> f){ suite(std::string("native/")+n,(uint64_t)4*2*3*4*4*6*6,f); };
  nt("i8",native<int8_t>); nt("u8",native<uint8_t>); nt("i16",native<int16_t>); nt("u16",native<uint16_t>); nt("i32",native<int32_t>); nt("u32",native<uint32_t>); nt("i64",native<int64_t>); nt("u64",native<uint64_t>); nt("f32",native<float>); nt("f64",native<double>);
  suite("window/f32",4*3*6*5*3*4,window<float>); suite("window/i16",4*3*6*5*3*4,window<int16_t>);
  for(int k=1;k<=(th?5:4);k++) suite("history/d"+std::to_string(k),ipow(NH,k),[=](uint64_t i){ history(i,k); });
  return mc::main(c,v);
}
