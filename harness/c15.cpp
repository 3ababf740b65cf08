// C15: every truncation and every single-byte header corruption of native cache files; every point at which a save can run out of room.
#include <mc.hpp>
#include <richdem/common/Array2D.hpp>
#include <richdem/common/loaders.hpp>
#include <sys/stat.h>
using namespace richdem; using namespace mc;
static void say(const std::string&s,const std::string&d){ violation(s,d); }
static std::string dir(){ const char*d=getenv("MC_SHARD_DIR"); return d?d:"."; }
static std::string slurp(const std::string&f){ std::string s; FILE*h=fopen(f.c_str(),"rb"); if(!h) return s; char b[4096]; size_t n; while((n=fread(b,1,sizeof b,h))>0) s.append(b,n); fclose(h); return s; }
static void spit(const std::string&f,const std::string&s){ FILE*h=fopen(f.c_str(),"wb"); if(!h) abort(); if(s.size()) fwrite(s.data(),1,s.size(),h); fclose(h); }
static const int SH[6][2]={{3,2},{1,1},{5,4},{0,0},{2,7},{16,16}};
static const char*PR[3]={"","P","GEOGCS[\"WGS 84\",DATUM[\"WGS_1984\"]]"};
template<class T> Array2D<T> mk(int sh,int g,int p){ Array2D<T> a(SH[sh][0],SH[sh][1]); for(unsigned i=0;i<a.size();i++) a(i)=(T)(i*7+1); a.setNoData((T)8); if(g) a.geotransform={1.5,2,0,3,0,-2}; a.projection=PR[p]; return a; }
// An independent reader of the file format; false when the header cannot describe the content.
template<class T> struct Img { int32_t h,w,xo,yo; uint32_t nd; T no; std::vector<double> gt; std::string proj; std::vector<T> v; };
template<class T> bool parse(const std::string&s,Img<T>&m){
  size_t p=0; auto get=[&](void*d,size_t n)->bool{ if(s.size()-p<n) return false; memcpy(d,s.data()+p,n); p+=n; return true; };
  uint8_t g; uint64_t pl; if(!get(&m.h,4)||!get(&m.w,4)||!get(&m.xo,4)||!get(&m.yo,4)||!get(&m.nd,4)||!get(&m.no,sizeof(T))||!get(&g,1)) return false; if(m.h<0||m.w<0||(g!=0&&g!=6)) return false; m.gt.resize(g); if(g&&!get(m.gt.data(),48)) return false; if(!get(&pl,8)) return false; if(pl>s.size()-p) return false; m.proj=s.substr(p,pl); p+=pl; unsigned __int128 n=(unsigned __int128)m.h*m.w*sizeof(T); if(n!=s.size()-p) return false; m.v.resize((size_t)m.h*m.w); if(m.v.size()) memcpy(m.v.data(),s.data()+p,m.v.size()*sizeof(T)); return true;
}
template<class T> bool eq(const T&a,const T&b){ return memcmp(&a,&b,sizeof(T))==0; }
// Loads file f whose bytes are s; the load must fail iff the bytes do not describe a raster, else give just what they say.
template<class T> void judge(const std::string&what,const std::string&f,const std::string&s,int how,const std::string&ctx){
  Img<T> m; bool ok=parse<T>(s,m); bool thrown=false; std::string bad; states(); trans(); traces();
  try{
    if(how==0){ Array2D<T> b(f,true); if(ok){ if(b.width()!=m.w||b.height()!=m.h||!eq(b.noData(),m.no)||b.projection!=m.proj||b.geotransform.size()!=m.gt.size()||b.viewXoff()!=m.xo||b.viewYoff()!=m.yo) bad="header read wrongly"; else { for(size_t k=0;k<m.gt.size();k++) if(!eq(b.geotransform[k],m.gt[k])) bad="geotransform"; for(size_t k=0;k<m.v.size();k++) if(!eq((T)b(k),m.v[k])) bad="value "+std::to_string(k); } } }
    else if(how==1){ Array2D<T> b(f,true,0,0,0,0,false,false); if(ok&&(b.width()!=m.w||b.height()!=m.h)) bad="header read wrongly"; }
    else { Array2D<T> b=mk<T>(0,1,1); b.saveToCache(f); b.clear(); spit(f,s); b.loadData(); if(ok) for(size_t k=0;k<m.v.size();k++) if(!eq((T)b(k),m.v[k])) bad="value "+std::to_string(k); }
  }catch(const std::bad_alloc&){ bad="tried to allocate without bound"; thrown=true; }catch(const std::exception&){ thrown=true; }
  if(thrown&&ok&&bad.empty()) bad="refused a sound file"; if(!thrown&&!ok&&bad.empty()) bad="read a damaged file as data";
  if(!ok) nontrivial(); outcome(mix(ok,mix(thrown,s.size()%97))); if(!bad.empty()) say(what+":"+bad.substr(0,24),ctx+"\n"+bad);
}
// truncations (and extensions): case index = (shape,gt,proj), all lengths inside
template<class T> void truncs(uint64_t i){
  Dig d(i); int how=d(3),p=d(3),g=d(2),sh=d(6); if(how==2&&sh==3) return; std::string f=dir()+"/t.bin"; auto a=mk<T>(sh,g,p); a.saveToCache(f); std::string s=slurp(f); Img<T> m; if(!parse<T>(s,m)){ // another layout: what stays required is that no strict prefix is taken for the raster
    for(size_t n=0;n<s.size();n++){ states(); spit(f,s.substr(0,n)); bool t=false; try{ Array2D<T> b(f,true,0,0,0,0,false,how!=1); }catch(const std::exception&){ t=true; } if(!t) say("trunc:prefix","length "+std::to_string(n)+" of "+std::to_string(s.size())+" was read as data"); } unlink(f.c_str()); return; }
  for(size_t n=0;n<=s.size()+9;n++){ std::string t=n<=s.size()?s.substr(0,n):s+std::string(n-s.size(),'\1'); spit(f,t); judge<T>("trunc",f,t,how,std::string(typeid(T).name())+" "+std::to_string(SH[sh][0])+"x"+std::to_string(SH[sh][1])+" length "+std::to_string(n)+" of "+std::to_string(s.size())+" how "+std::to_string(how)); beat(); }
  unlink(f.c_str());
}
// every value of every header byte
template<class T> void flip(uint64_t i){
  Dig d(i); int val=d(256),p=d(2)+1,g=d(2),sh=d(3); std::string f=dir()+"/t.bin"; auto a=mk<T>(sh,g,p); a.saveToCache(f); std::string s=slurp(f); size_t hdr=s.size()-a.size()*sizeof(T); { Img<T> m; if(!parse<T>(s,m)) return; }
  for(size_t b=0;b<hdr;b++){ std::string t=s; if((unsigned char)t[b]==val) continue; t[b]=val; spit(f,t); judge<T>("header",f,t,val%2,std::string(typeid(T).name())+" "+std::to_string(SH[sh][0])+"x"+std::to_string(SH[sh][1])+" byte "+std::to_string(b)+" = "+std::to_string(val)); }
  unlink(f.c_str()); beat();
}
// both dimensions replaced: all pairs of special values
template<class T> void dims(uint64_t i){
  static const int32_t V[]={0,1,2,3,6,-1,-2,-6,INT32_MAX,INT32_MIN,65536,65535,46341,1<<16|1,0x40000000,0x20000000}; Dig d(i); int32_t w=V[d(16)],h=V[d(16)]; int pl=d(4); std::string f=dir()+"/t.bin"; auto a=mk<T>(0,1,1); a.saveToCache(f); std::string s=slurp(f); { Img<T> m; if(!parse<T>(s,m)) return; } memcpy(&s[0],&h,4); memcpy(&s[4],&w,4); static const uint64_t PL[4]={1,0,~0ULL,1ULL<<63}; size_t po=20+sizeof(T)+1+48; memcpy(&s[po],&PL[pl],8);
  for(int how=0;how<2;how++){ spit(f,s); judge<T>("dims",f,s,how,"w "+std::to_string(w)+" h "+std::to_string(h)+" projection size "+std::to_string(PL[pl])); } 
  // a projection length that eats into the data
  for(uint64_t q=0;q<20*sizeof(T)&&pl==0&&i<16;q++){ memcpy(&s[po],&q,8); int32_t hh=2,ww=3; memcpy(&s[0],&hh,4); memcpy(&s[4],&ww,4); spit(f,s); judge<T>("projlen",f,s,0,"projection size "+std::to_string(q)); }
  unlink(f.c_str());
}
template<class T,class U> void othertype(uint64_t i){ Dig d(i); int p=d(3),g=d(2),sh=d(6); std::string f=dir()+"/t.bin"; mk<T>(sh,g,p).saveToCache(f); std::string s=slurp(f); { Img<T> m; if(!parse<T>(s,m)) return; } judge<U>("type",f,s,0,std::string("saved as ")+typeid(T).name()+" loaded as "+typeid(U).name()); unlink(f.c_str()); }
static void room(long n){ rlimit r; getrlimit(RLIMIT_FSIZE,&r); r.rlim_cur=n<0?r.rlim_max:(rlim_t)n; setrlimit(RLIMIT_FSIZE,&r); }
// the save runs out of room after n bytes, for every n
template<class T> void fullsave(uint64_t i){
  Dig d(i); int how=d(5),p=how<2?d(3):d(2),g=d(2),sh=d(6); if(sh==3&&how>=2) return; std::string f=dir()+"/full"+(how>=2?".tif":".bin"); auto a=mk<T>(sh,g,p); if(how>=2) a.projection=""; auto save=[&](Array2D<T>&x){ switch(how){ case 0: x.saveToCache(f); break; case 1: x.setCacheFilename(f); x.dumpData(); break; case 2: x.saveGDAL(f,"op"); break; case 3: SaveGDAL(x,f,"op"); break; default: x.saveGDAL(f,"op",0,0,true); } };
  { Array2D<T> b(a); save(b); } struct stat st; stat(f.c_str(),&st); long size=st.st_size; unlink(f.c_str()); long reported=0;
  for(long n=0;n<=size+1;n+=(how>=2&&n>1200&&n<size-200)?16:1){ states(); trans(); traces(); nontrivial(); beat(); Array2D<T> b(a); bool thrown=false; room(n); try{ save(b); }catch(const std::exception&){ thrown=true; } room(-1); 
    std::string ctx=std::string(typeid(T).name())+" "+std::to_string(SH[sh][0])+"x"+std::to_string(SH[sh][1])+" how "+std::to_string(how)+" room for "+std::to_string(n)+" of "+std::to_string(size)+" bytes"; reported+=thrown;
    if(!thrown){ // it claims success: the file must hold the raster
      bool good=true; std::string why; try{ Array2D<T> c=how<2?Array2D<T>(f,true):Array2D<T>(f); if(c.width()!=a.width()||c.height()!=a.height()) good=false; else for(unsigned k=0;k<a.size();k++) if(c(k)!=a(k)) good=false; if(!eq(c.noData(),a.noData())||(g&&c.geotransform!=a.geotransform)) good=false; if(how>=2&&!c.metadata.count("PROCESSING_HISTORY")) good=false; }catch(const std::exception&e){ good=false; why=e.what(); } if(!good) say("save:silent:"+std::to_string(how),ctx+": the save reported success but the file does not hold the raster "+why); }
    else { if(n>=size&&how<2) say("save:refused:"+std::to_string(how),ctx+": a save with enough room failed"); if(b.empty()&&a.size()) say("save:lost:"+std::to_string(how),ctx+": the failed save dropped the data from memory"); else for(unsigned k=0;k<a.size();k++) if(b(k)!=a(k)){ say("save:lost:"+std::to_string(how),ctx+": the failed save changed the data in memory"); break; } }
    unlink(f.c_str()); unlink((f+".aux.xml").c_str()); }
  outcome(mix(how,mix(size,reported)));
}
// A GeoTIFF cut at every length, read back in every way: refused, or every cell as saved (what the file system lost may not come back as other values).
template<class T> void gtrunc(uint64_t i){
  Dig d(i); int how=d(5),comp=d(2),g=d(2),sh=d(6); if(sh==3) return; std::string f=dir()+"/t.tif"; auto a=mk<T>(sh,g,0); a.saveGDAL(f,"op",0,0,comp); std::string s=slurp(f); unlink((f+".aux.xml").c_str()); long refused=0; const int W=a.width(),H=a.height(); const int x0=W/2,y0=H/2;
  for(size_t n=0;n<=s.size();n++){ states(); trans(); traces(); beat(); spit(f,s.substr(0,n)); bool thrown=false; std::string bad; int w=W,h=H,xo=0,yo=0;
    try{ Array2D<T> b; switch(how){ case 0: b=Array2D<T>(f); break; case 1: LoadGDAL(f,b); break; case 2: { Array2D<T> c(f,false,0,0,0,0,false,false); c.loadData(); b=c; break; } case 3: xo=x0; yo=y0; w=W-x0; h=H-y0; b=Array2D<T>(f,false,xo,yo,w,h); break; default: { Array2D<T> c(f,false,0,0,W,H,true,true); b=c; } }
      if(b.width()!=w||b.height()!=h) bad="size "+std::to_string(b.width())+"x"+std::to_string(b.height()); else for(int y=0;y<h&&bad.empty();y++) for(int x=0;x<w;x++) if(!eq((T)b(x,y),(T)a(x+xo,y+yo))){ bad="value at "+std::to_string(x)+","+std::to_string(y); break; }
    }catch(const std::bad_alloc&){ bad="tried to allocate without bound"; }catch(const std::exception&){ thrown=true; }
    if(n<s.size()){ nontrivial(); refused+=thrown; } if(thrown&&n==s.size()) bad="refused a sound file"; if(!bad.empty()) say("gtiff:"+std::to_string(how)+":"+bad.substr(0,10),std::string(typeid(T).name())+" "+std::to_string(W)+"x"+std::to_string(H)+" length "+std::to_string(n)+" of "+std::to_string(s.size())+" compressed "+std::to_string(comp)+" how "+std::to_string(how)+"\n"+bad); }
  outcome(mix(how,mix(comp,mix(sh,refused==(long)s.size())))); unlink(f.c_str()); unlink((f+".aux.xml").c_str());
}
static void misc(uint64_t i){
  states(); traces(); trans(); nontrivial(); bool t=false; auto a=mk<float>(0,1,1);
  try{ switch(i){ case 0: { Array2D<float> b(dir()+"/absent.bin",true); break; } case 1: { Array2D<float> b(dir()+"/absent.tif"); break; } case 2: { Array2D<float> b(dir(),true); break; } case 3: a.saveToCache(dir()+"/no/such/dir.bin"); break; case 4: a.saveGDAL(dir()+"/no/such/dir.tif"); break; case 5: SaveGDAL(a,dir()+"/no/such/dir.tif"); break; case 6: LoadGDAL(dir()+"/absent.tif",a); break; case 7: a.saveToCache("/dev/full"); break; case 8: { Array2D<float> b; b.loadData(); break; } case 9: a.saveToCache(dir()); break; case 10: { std::string f=dir()+"/junk.tif"; spit(f,"this is not a raster"); try{ Array2D<float> b(f); }catch(...){ t=true; } unlink(f.c_str()); break; } case 11: { Array2D<int64_t> q(2,2,1); try{ q.saveGDAL(dir()+"/q.tif"); }catch(...){ t=true; } break; } } }catch(const std::exception&){ t=true; }
  if(!t) say("misc:"+std::to_string(i),"the failure was not reported"); outcome(i);
}
int main(int c,char**v){
  signal(SIGXFSZ,SIG_IGN); CPLSetErrorHandler(CPLQuietErrorHandler); GDALAllRegister(); bool th=thorough();
  auto N=[](const char*k,const char*t){ return std::string(k)+"/"+t; };
#define ALLT(kind,cnt,fn) suite(N(kind,"i8"),cnt,fn<int8_t>); suite(N(kind,"u8"),cnt,fn<uint8_t>); suite(N(kind,"i16"),cnt,fn<int16_t>); suite(N(kind,"u16"),cnt,fn<uint16_t>); suite(N(kind,"i32"),cnt,fn<int32_t>); suite(N(kind,"u32"),cnt,fn<uint32_t>); suite(N(kind,"i64"),cnt,fn<int64_t>); suite(N(kind,"u64"),cnt,fn<uint64_t>); suite(N(kind,"f32"),cnt,fn<float>); suite(N(kind,"f64"),cnt,fn<double>)
  if(th){ ALLT("trunc",3*3*2*6,truncs); ALLT("header",256*2*2*3,flip); ALLT("dims",16*16*4,dims); }
  else { suite("trunc/u8",3*3*2*6,truncs<uint8_t>); suite("trunc/i16",3*3*2*6,truncs<int16_t>); suite("trunc/f32",3*3*2*6,truncs<float>); suite("trunc/f64",3*3*2*6,truncs<double>); suite("header/u8",256*2*2*3,flip<uint8_t>); suite("header/i16",256*2*2*3,flip<int16_t>); suite("header/f64",256*2*2*3,flip<double>); suite("dims/u8",16*16*4,dims<uint8_t>); suite("dims/f32",16*16*4,dims<float>); suite("dims/f64",16*16*4,dims<double>); }
  suite("type/i16-f64",36,othertype<int16_t,double>); suite("type/f64-i16",36,othertype<double,int16_t>); suite("type/u8-f32",36,othertype<uint8_t,float>); suite("type/f32-u8",36,othertype<float,uint8_t>);
  suite("full/u8",5*3*2*6,fullsave<uint8_t>); suite("full/f64",5*3*2*6,fullsave<double>); if(th) suite("full/i16",5*3*2*6,fullsave<int16_t>);
  suite("gtiff/f64",5*2*2*6,gtrunc<double>); suite("gtiff/i16",5*2*2*6,gtrunc<int16_t>); if(th){ suite("gtiff/u8",5*2*2*6,gtrunc<uint8_t>); suite("gtiff/f32",5*2*2*6,gtrunc<float>); suite("gtiff/i32",5*2*2*6,gtrunc<int32_t>); }
  suite("misc",12,misc);
  return mc::main(c,v);
}
