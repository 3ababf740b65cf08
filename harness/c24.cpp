// C24: every command-line program, run as its own main() on every raster of the bounded families, judged by its documented purpose.
#include "../common/spaces.hpp"
#include <richdem/common/Array2D.hpp>
#include <richdem/common/loaders.hpp>
#include <richdem/common/random.hpp>
#include <richdem/depressions/depressions.hpp>
#include <richdem/depressions/Lindsay2016.hpp>
#include <richdem/depressions/depression_hierarchy.hpp>
#include <richdem/depressions/fill_spill_merge.hpp>
#include <richdem/flats/flat_resolution.hpp>
#include <richdem/methods/flow_accumulation.hpp>
#include <richdem/methods/terrain_attributes.hpp>
#include <richdem/misc/misc_methods.hpp>
#include <richdem/misc/conversion.hpp>
#include <richdem/misc/misc_methods.hpp>
#include <richdem/tiled/A2Array2D.hpp>
#include <ogr_spatialref.h>
#include <cpl_vsi.h>
#include <dlfcn.h>
#include <fstream>
#include <sstream>
using namespace mc; using namespace richdem;
namespace dh=richdem::dephier;
// ---- running a program -------------------------------------------------------
struct Run { int rc=0; bool threw=false; std::string what,out,err; bool failed()const{ return threw||rc!=0; } };
static Run app(const std::string&name,std::vector<std::string> a){
  typedef int(*M)(int,char**); static std::map<std::string,M> known; M&m=known[name];
  if(!m){ std::string so=std::string(getenv("MC_BDIR"))+"/"+name+".so"; void*h=dlopen(so.c_str(),RTLD_NOW|RTLD_LOCAL); if(!h){ fprintf(stderr,"%s\n",dlerror()); abort(); } m=(M)dlsym(h,"_Z7rd_mainiPPc"); if(!m) abort(); }
  a.insert(a.begin(),name); std::vector<char*> v; for(auto&s:a) v.push_back(&s[0]); v.push_back(nullptr); Run r; std::ostringstream o,e; auto*co=std::cout.rdbuf(o.rdbuf()); auto*ce=std::cerr.rdbuf(e.rdbuf()); auto pc=std::cout.precision(); auto fc=std::cout.flags(); auto pe=std::cerr.precision(); auto fe=std::cerr.flags();
  try{ r.rc=m(a.size(),v.data()); }catch(const std::exception&x){ r.threw=true; r.what=x.what(); }
  std::cout.rdbuf(co); std::cerr.rdbuf(ce); std::cout.precision(pc); std::cout.flags(fc); std::cerr.precision(pe); std::cerr.flags(fe); std::cout.clear(); std::cerr.clear(); r.out=o.str(); r.err=e.str(); return r;
}
static std::string line_of(const std::vector<std::string>&a){ std::string s; for(auto&x:a) s+=x+" "; return s; }
static std::string body(const std::string&out){ std::istringstream i(out); std::string l,r; while(std::getline(i,l)){ if(l.size()>1&&(l[0]=='c'||l[0]=='a')&&l[1]==' ') continue; r+=l+"\n"; } return r; }
// ---- rasters on file ---------------------------------------------------------
static const GDALDataType GT[7]={GDT_Byte,GDT_UInt16,GDT_Int16,GDT_UInt32,GDT_Int32,GDT_Float32,GDT_Float64};
static const double GTS[5][6]={{100,2,0,200,0,-3},{-5.25,1,0,7,0,-1},{1e5,30,0,4e6,0,30},{10,-2,0,20,0,-2},{10,-2,0,20,0,2}};
static std::string wkt(int k){ static std::string c[3]; static bool init=false; if(!init){ init=true; for(int i=1;i<3;i++){ OGRSpatialReference s; s.importFromEPSG(i==1?4326:32610); char*w=nullptr; s.exportToWkt(&w); c[i]=w?w:""; CPLFree(w); } } return c[k]; }
template<class F> void bytype(int t,F f){ switch(t){ case 0: f((uint8_t)0); break; case 1: f((uint16_t)0); break; case 2: f((int16_t)0); break; case 3: f((uint32_t)0); break; case 4: f((int32_t)0); break; case 5: f((float)0); break; default: f((double)0); } }
static const char*TN[7]={"uint8","uint16","int16","uint32","int32","float","double"};
struct File { int t=6,w=0,h=0; std::vector<double> v; double nd=-9999; int gt=0,proj=0; std::vector<double> g6; std::string wkt,hist; bool ok=false; };
static GDALDriver*tif(){ static GDALDriver*d=GetGDALDriverManager()->GetDriverByName("GTiff"); return d; }
static void put(const std::string&n,const File&f){ GDALDataset*ds=tif()->Create(n.c_str(),f.w,f.h,1,GT[f.t],nullptr); if(!ds) abort(); double g[6]; memcpy(g,GTS[f.gt],sizeof g); ds->SetGeoTransform(g); if(f.proj) ds->SetProjection(wkt(f.proj).c_str()); ds->GetRasterBand(1)->SetNoDataValue(f.nd); if(ds->GetRasterBand(1)->RasterIO(GF_Write,0,0,f.w,f.h,(void*)f.v.data(),f.w,f.h,GDT_Float64,0,0)!=CE_None) abort(); if(!f.hist.empty()) ds->SetMetadataItem("PROCESSING_HISTORY",f.hist.c_str()); GDALClose(ds); }
static File get(const std::string&n){ File f; VSIStatBufL st; if(VSIStatL(n.c_str(),&st)) return f; GDALDataset*ds=(GDALDataset*)GDALOpen(n.c_str(),GA_ReadOnly); if(!ds) return f; auto*b=ds->GetRasterBand(1); f.w=b->GetXSize(); f.h=b->GetYSize(); f.t=-1; for(int k=0;k<7;k++) if(GT[k]==b->GetRasterDataType()) f.t=k; f.v.resize((size_t)f.w*f.h); f.g6.resize(6); ds->GetGeoTransform(f.g6.data()); f.wkt=ds->GetProjectionRef(); f.nd=b->GetNoDataValue(); const char*h=ds->GetMetadataItem("PROCESSING_HISTORY"); if(h) f.hist=h; f.ok=b->RasterIO(GF_Read,0,0,f.w,f.h,f.v.data(),f.w,f.h,GDT_Float64,0,0)==CE_None; GDALClose(ds); return f; }
static void rm(std::initializer_list<std::string> l){ for(auto&n:l){ VSIUnlink(n.c_str()); VSIUnlink((n+".aux.xml").c_str()); } }
static bool sameproj(const std::string&a,const std::string&b){ static std::map<std::pair<std::string,std::string>,bool> c; if(a==b) return true; if(a.empty()||b.empty()) return false; auto k=std::make_pair(a,b); auto it=c.find(k); if(it!=c.end()) return it->second; OGRSpatialReference x(a.c_str()),y(b.c_str()); return c[k]=x.IsSame(&y); }
static bool eq(double a,double b){ return a==b||(a!=a&&b!=b); }
static const std::string IN="/vsimem/in.tif",IN2="/vsimem/in2.tif",OUT="/vsimem/out.tif";
static File file_of(const Grid&g,int t,int map,int gt=0,int proj=0){ File f; f.t=t; f.w=g.w; f.h=g.h; f.gt=gt; f.proj=proj; bytype(t,[&](auto z){ using T=decltype(z); for(double c:g.v) f.v.push_back((double)value_of<T>(map,c)); f.nd=(double)nodata_of<T>(); }); return f; }
template<class T> Array2D<T> mem(const File&f){ Array2D<T> a(f.w,f.h,(T)0); a.setNoData((T)f.nd); for(size_t i=0;i<f.v.size();i++) a(i)=(T)f.v[i]; a.geotransform.assign(GTS[f.gt],GTS[f.gt]+6); a.projection=wkt(f.proj); return a; }
template<class T> std::vector<double> dbl(const Array2D<T>&a){ std::vector<double> v; for(int y=0;y<(int)a.height();y++) for(int x=0;x<(int)a.width();x++) v.push_back((double)a(x,y)); return v; }
static std::string show(const File&f){ std::ostringstream o; o.precision(17); o<<TN[f.t]<<" geotransform "<<f.gt<<" NoData "<<f.nd<<"\n raster "; for(size_t i=0;i<f.v.size();i++) o<<f.v[i]<<((i+1)%f.w?" ":" / "); return o.str(); }
static std::vector<std::string> hist_of(const std::string&s){ std::vector<std::string> r; std::istringstream i(s); std::string l; while(std::getline(i,l)) if(!l.empty()) r.push_back(l); return r; }
static std::string trim(std::string s){ while(!s.empty()&&s.back()==' ') s.pop_back(); return s; }
// Output raster against what is wanted: shape, type, values, NoData, georeferencing, history.
static std::string judge(const File&in,int t,const std::vector<double>&want,double nd,const std::vector<std::string>*cmd,int w=-1,int h=-1,const double*g6=nullptr,const std::string*proj=nullptr,double tol=0){
  if(w<0){ w=in.w; h=in.h; } File o=get(OUT); if(!o.ok) return "no output raster"; std::ostringstream e; e.precision(17);
  if(o.w!=w||o.h!=h) e<<"output is "<<o.w<<"x"<<o.h<<", expected "<<w<<"x"<<h; else if(o.t!=t) e<<"output has another data type"; else if(!eq(o.nd,nd)) e<<"NoData of the output is "<<o.nd<<", expected "<<nd;
  else { for(size_t i=0;i<want.size();i++) if(!eq(o.v[i],want[i])&&!(tol>0&&std::fabs(o.v[i]-want[i])<=tol*std::max(1.0,std::fabs(want[i])))){ e<<"cell "<<i%w<<","<<i/w<<" is "<<o.v[i]<<", expected "<<want[i]; return e.str(); }
    const double*g=g6?g6:GTS[in.gt]; for(int k=0;k<6;k++) if(o.g6[k]!=g[k]){ e<<"geotransform element "<<k<<" is "<<o.g6[k]<<", expected "<<g[k]; return e.str(); }
    if(!sameproj(o.wkt,proj?*proj:wkt(in.proj))) return "projection of the output"; 
    if(cmd){ auto a=hist_of(in.hist),b=hist_of(o.hist); if(b.size()!=a.size()+1) return "processing history has "+std::to_string(b.size())+" entries"; for(size_t k=0;k<a.size();k++) if(a[k]!=b[k]) return "earlier processing history changed"; std::string l=trim(line_of(*cmd)),x=trim(b.back()); if(x.size()<l.size()||x.substr(x.size()-l.size())!=l) return "processing history ends with '"+b.back()+"'"; } }
  return e.str();
}
static void report(const std::string&prog,const std::string&bad,const File&in,const std::vector<std::string>&args){ if(!bad.empty()) violation(prog+":"+bad.substr(0,bad.find_first_of("0123456789'")),prog+" "+line_of(args)+": "+bad+"\n "+show(in)); }
// Runs a raster -> raster program; `ref` computes the wanted values, or refuses.
struct Want { bool refuse=false; int t=6; std::vector<double> v; double nd=0; double tol=0; };
template<class F> void raster_prog(const std::string&prog,const File&in,std::vector<std::string> args,F ref){
  rm({OUT}); put(IN,in); states(); traces(); trans(); Want w; bytype(in.t,[&](auto z){ using T=decltype(z); w=ref(mem<T>(in)); });
  if(prog=="rd_flow_accumulation"&&args[2]=="2") seed_rand(7); Run r=app(prog,args); std::string bad; std::vector<std::string> cmd=args; cmd.insert(cmd.begin(),prog);
  if(w.refuse){ VSIStatBufL st; if(!r.failed()) bad="success reported for what cannot be done"; else if(VSIStatL(OUT.c_str(),&st)==0) bad="an output was written though the program failed"; }
  else if(r.threw) bad="exception: "+r.what; else if(r.rc) bad="exit status "+std::to_string(r.rc); else { nontrivial(); bad=judge(in,w.t,w.v,w.nd,&cmd,-1,-1,nullptr,nullptr,w.tol); }
  if(bad.empty()){ File i2=get(IN); if(hvec(i2.v)!=hvec(in.v)||i2.hist!=in.hist) bad="the input file was changed"; outcome(hvec(w.v,std::hash<std::string>()(prog))); }
  report(prog,bad,in,args); rm({OUT,IN}); if(want_sample()) sample(line_of(cmd));
}
template<class T> int typeidx(){ for(int k=0;k<7;k++){ bool same=false; bytype(k,[&](auto z){ same=std::is_same<decltype(z),T>::value; }); if(same) return k; } return -1; }
template<class T> Want want_of(const Array2D<T>&a){ Want w; w.t=typeidx<T>(); w.v=dbl(a); w.nd=(double)a.noData(); return w; }
using GF=std::function<void(const Grid&,uint64_t)>;
static void grids(const std::string&p,GF f,int size=0,bool nd=true){ std::vector<double> A=nd?std::vector<double>{-1,0,1,2}:std::vector<double>{0,1,2,3};
  for(auto s:std::vector<std::pair<int,int>>{{1,1},{1,3},{3,1},{2,2}}) suite(p+"/full"+wh(s.first,s.second),full_size(s.first,s.second,4),[=](uint64_t i){ f(full_grid(i,s.first,s.second,A),i); });
  suite(p+"/full3x3",full_size(3,3,size>0?3:2),[=](uint64_t i){ f(full_grid(i,3,3,size>0?std::vector<double>{nd?-1.:2.,0,1}:std::vector<double>{0,1}),i); });
  suite(p+"/in4x4",bordered_n(4,4,size>0?4:3,1),[=](uint64_t i){ f(bordered(i,4,4,size>0?A:std::vector<double>{nd?-1.:1.,0,1},2,0,1),i); });
  suite(p+"/in5x4",bordered_n(5,4,2,0),[=](uint64_t i){ f(bordered(i,5,4,{0,1},2,0,0),i); });
  for(int b=0;b<NBASE;b++){ if(size<1&&b%3==1) continue; suite(p+"/dev7x6-"+std::to_string(b),dev_size(7,6,1,2),[=](uint64_t i){ f(dev_grid(i,base_grid(b,7,6),1,{nd?-1.:3.,0}),i); }); } }
// ---- direction rasters -------------------------------------------------------
static int step(const std::vector<double>&v,int w,int h,int i,double nd){ if(v[i]==nd||v[i]==0) return -1; int d=(int)v[i]-1,x=i%w+ox8[d],y=i/w+oy8[d]; if(x<0||y<0||x>=w||y>=h) return -1; return y*w+x; }
static void loopcheck(const Grid&g,int t,uint64_t){
  File in; in.t=t; in.w=g.w; in.h=g.h; in.nd=t==0?255:t==2||t==4||t==6?-1:99; for(double c:g.v) in.v.push_back(c<0?in.nd:c); put(IN,in); states(); traces(); trans(); int n=g.w*g.h;
  std::set<int> on; for(int i=0;i<n;i++){ int j=i; for(int k=0;k<n&&j>=0;k++){ j=step(in.v,g.w,g.h,j,in.nd); if(j==i){ on.insert(i); break; } } }
  Run r=app("rd_loop_check",{IN}); std::string bad; if(r.failed()) bad="failed"; std::istringstream is(body(r.out)); std::string l; std::set<int> got; while(std::getline(is,l)){ int x,y,d; if(sscanf(l.c_str(),"%d,%d with flowdir %d",&x,&y,&d)==3){ got.insert(y*g.w+x); if(x<0||y<0||x>=g.w||y>=g.h||in.v[y*g.w+x]!=d) bad="prints a direction the cell does not have"; } }
  if(bad.empty()&&got!=on){ std::ostringstream o; o<<"reports loop cells:"; for(int i:got) o<<" "<<i; o<<"; loops consist of:"; for(int i:on) o<<" "<<i; bad=o.str(); } if(!on.empty()) nontrivial(); outcome(mix(on.size(),on.empty()?0:*on.begin())); report("rd_loop_check",bad,in,{IN}); rm({IN});
}
static const int TAUDX[9]={0,1,1,0,-1,-1,-1,0,1},TAUDY[9]={0,0,-1,-1,-1,0,1,1,1}; // TauDEM: 1=E then counter-clockwise
static void taudem(const File&in){
  bool refuse=false; std::vector<double> want; for(double c:in.v){ if(eq(c,in.nd)){ want.push_back(c); continue; } if(!(c>=0&&c<=8)){ refuse=true; want.push_back(0); continue; } int k=0; if(c>0) for(int d=0;d<8;d++) if(ox8[d]==TAUDX[(int)c]&&oy8[d]==TAUDY[(int)c]) k=d+1; want.push_back(k); }
  raster_prog("rd_taudem_d8_to_richdem_d8",in,{IN,OUT},[&](auto){ Want w; w.refuse=refuse; w.t=in.t; w.v=want; w.nd=in.nd; return w; });
}
static void arc(uint64_t i){ Dig d(i); int code=d(256),pos=d(4),other=d(3); static const int O[3]={0,16,128}; Array2D<d8_flowdir_t> a(2,2,O[other]),o(2,2,7); a(pos)=code; states(); trans(); traces(); bool refuse=code&&(code&(code-1)); bool threw=false; try{ convert_arc_flowdirs_to_richdem_d8(a,o); }catch(const std::exception&){ threw=true; } static const int AX[8]={1,1,0,-1,-1,-1,0,1},AY[8]={0,1,1,1,0,-1,-1,-1}; std::string bad;
  if(threw!=refuse) bad=refuse?"accepts code ":"refuses code "; else if(!refuse) for(int k=0;k<4;k++){ int c=a(k),b=0; while(c>>(b+1)) b++; int got=o(k); if(c==0?got!=0:(got<1||got>8||ox8[got-1]!=AX[b]||oy8[got-1]!=AY[b])) bad="wrong direction for code "; nontrivial(); }
  if(!bad.empty()) violation("arc:"+bad,bad+std::to_string(code)); outcome(mix(code,other)); }
// ---- comparing two rasters ---------------------------------------------------
static void compare(uint64_t i){
  static const double V[7]={0,1,-1,255,65535,4294967295.0,0.1}; Dig d(i); int ta=d(7),tb=d(7),sa=d(3),sb=d(3),ga=d(2),gb=d(2),pa=d(2),pb=d(2),k=d(7); static const int S[3][2]={{2,2},{4,1},{3,2}};
  auto mk=[&](int t,int s,int g,int p,int salt){ File f; f.t=t; f.w=S[s][0]; f.h=S[s][1]; f.gt=g; f.proj=p; bytype(t,[&](auto z){ using T=decltype(z); using L=std::numeric_limits<T>; auto cl=[&](double x){ return std::is_floating_point<T>::value?(double)(T)x:x<(double)L::lowest()?(double)L::lowest():x>(double)L::max()?(double)L::max():std::floor(x); }; for(int j=0;j<f.w*f.h;j++) f.v.push_back(cl(j==0?V[k]:j==1?V[(k+salt)%7]:j)); f.nd=cl(k%2?-1:200); }); return f; };
  File a=mk(ta,sa,ga,pa,0),b=mk(tb,sb,gb,pb,k>3?1:0); put(IN,a); put(IN2,b); states(); traces(); trans(); Run r=app("rd_compare",{IN,IN2}); std::string out=body(r.out),bad; auto has=[&](const char*s){ return out.find(s)!=std::string::npos; };
  if(r.failed()) bad="failed "+r.what; else if(has("Geotransforms differ")!=(ga!=gb)) bad="geotransforms"; else if(has("NoData values differ")!=(a.nd!=b.nd)) bad="NoData"; else if(has("Projections differ")!=(pa!=pb)) bad="projections"; else if(has("Widths differ")!=(a.w!=b.w)) bad="widths"; else if(has("Heights differ")!=(a.h!=b.h)) bad="heights";
  else if(sa==sb){ int n=0; for(size_t j=0;j<a.v.size();j++) n+=a.v[j]!=b.v[j]; auto p=out.find("differ = "); if(p==std::string::npos||atoll(out.c_str()+p+9)!=n) bad="number of differing values, expected "+std::to_string(n)+"; output:\n"+out; if(n) nontrivial(); } else nontrivial();
  outcome(mix(i%49,k)); if(!bad.empty()) violation("rd_compare:"+bad.substr(0,10),bad+"\n "+show(a)+"\n "+show(b)); rm({IN,IN2});
}
// ---- header-like programs ----------------------------------------------------
static std::vector<double> ndvals(int t){ std::vector<double> r; bytype(t,[&](auto z){ using T=decltype(z); using L=std::numeric_limits<T>; r={0,1,(double)L::max(),(double)L::lowest(),200}; if(L::is_signed) r.push_back(-9999); if(!L::is_integer){ r.push_back((double)(T)-9999.5); r.push_back(std::nan("")); r.push_back((double)(T)-1.5e30); } if(t==2||t==0) r={0,1,(double)L::max(),(double)L::lowest(),(double)(L::max()/2)}; }); return r; }
static void nodata(uint64_t i){ Dig d(i); int t=d(7),k=d(9),j=d(12); auto N=ndvals(t); double from=N[k%N.size()]; File in; in.t=t; in.w=3; in.h=2; in.nd=from; in.v={0,1,2,3,4,from}; in.hist="2001-01-01 00:00:00 UTC | old | first"; 
  if(j==0){ put(IN,in); states(); traces(); trans(); Run r=app("rd_no_data",{IN}); std::string all=trim(body(r.err+r.out)); while(!all.empty()&&isspace(all.back())) all.pop_back(); auto p=all.find_last_of("\n "); double got=atof(all.c_str()+(p==std::string::npos?0:p+1)); std::string bad; if(r.failed()) bad="failed"; else if(!eq(got,from)&&!(t==5&&(float)got==(float)from)) bad="displays '"+all+"' for NoData"; else nontrivial(); report("rd_no_data",bad,in,{IN}); rm({IN}); outcome(mix(t,hbits(from))); return; }
  static const char*A[11]={"0","1","7","-9999","255","256","-1","65536","4294967295","2.5","-1e30"}; double v=atof(A[j-1]); bool fits=true; bytype(t,[&](auto z){ using T=decltype(z); using L=std::numeric_limits<T>; if(L::is_integer) fits=v>=(double)L::lowest()&&v<=(double)L::max()&&v==std::floor(v); else v=(double)(T)v; });
  raster_prog("rd_no_data",in,{IN,OUT,A[j-1]},[&](auto){ Want w; w.refuse=!fits; w.t=t; w.v=in.v; w.nd=v; return w; }); }
static void geotransform(uint64_t i){ Dig d(i); int t=d(7),g=d(5),mask=d(64),how=d(2); File in; in.t=t; in.w=3; in.h=2; in.gt=g; in.v={0,1,2,3,4,5}; in.nd=t%2?5:200; std::vector<std::string> a={IN,OUT}; double g6[6]; static const char*S[6]={"-12.5","0.125","0.5","1e6","-0.25","-33.3"}; for(int k=0;k<6;k++){ bool set=mask>>k&1; a.push_back(set?S[k]:"x"); g6[k]=set?atof(S[k]):GTS[g][k]; }
  if(how){ put(IN,in); states(); traces(); trans(); Run r=app("rd_geotransform",{IN}); std::istringstream is(body(r.out)); std::string w,bad; is>>w; double x[6]={0}; for(double&q:x) is>>q; for(int k=0;k<6;k++) if(std::fabs(x[k]-GTS[g][k])>1e-4*std::fabs(GTS[g][k])) bad="displays '"+body(r.out)+"'"; int W=0,H=0; is>>w>>W>>w>>H; if(W!=3||H!=2) bad="displays dimensions "+std::to_string(W)+"x"+std::to_string(H); if(r.failed()) bad="failed"; nontrivial(); report("rd_geotransform",bad,in,{IN}); rm({IN}); return; }
  rm({OUT}); put(IN,in); states(); traces(); trans(); Run r=app("rd_geotransform",a); std::vector<std::string> cmd=a; cmd.insert(cmd.begin(),"rd_geotransform"); std::string bad; if(r.failed()) bad="failed "+r.what; else { nontrivial(); bad=judge(in,t,in.v,in.nd,&cmd,-1,-1,g6); } report("rd_geotransform",bad,in,a); rm({IN,OUT}); outcome(mix(mask,g)); }
static void projection(uint64_t i){ Dig d(i); int t=d(7),from=d(3),to=d(3),file=d(2); File in; in.t=t; in.w=2; in.h=2; in.v={0,1,2,3}; in.nd=3; in.proj=from; in.gt=i%5; if(i%2) in.hist="2001-01-01 00:00:00 UTC | old | first"; File o=in; o.proj=to; o.t=(t+1)%7; put(IN2,o); std::string want=wkt(to); std::vector<std::string> a={IN,OUT,file?IN2:":"+wkt(to)}; if(!file){ /* the command line goes into the history on one line */ for(auto&c:a[2]) if(c=='\n') c=' '; }
  rm({OUT}); in.proj=from; put(IN,in); states(); traces(); trans(); Run r=app("rd_projection",a); std::string bad; if(r.failed()) bad="failed "+r.what; else { nontrivial(); bad=judge(in,t,in.v,in.nd,nullptr,-1,-1,nullptr,&want); if(bad.empty()&&hist_of(get(OUT).hist).size()!=1+hist_of(in.hist).size()) bad="history"; } report("rd_projection",bad,in,{IN,OUT,file?"file":"string"}); rm({IN,IN2,OUT}); outcome(mix(from*3+to,t)); }
static void expand(uint64_t i){ Dig d(i); int t=d(7),w=1+d(3),h=1+d(3),W=1+d(5),H=1+d(5); File in; in.t=t; in.w=w; in.h=h; in.gt=i%5; in.nd=9; for(int k=0;k<w*h;k++) in.v.push_back(k+1); std::vector<std::string> a={IN,OUT,std::to_string(W),std::to_string(H)}; bool ok=W>=w&&H>=h; std::vector<double> want(W*H,9); if(ok) for(int y=0;y<h;y++) for(int x=0;x<w;x++) want[y*W+x]=in.v[y*w+x];
  rm({OUT}); put(IN,in); states(); traces(); trans(); Run r=app("rd_expand_dimensions",a); std::string bad; std::vector<std::string> cmd=a; cmd.insert(cmd.begin(),"rd_expand_dimensions"); VSIStatBufL st; if(!ok){ if(!r.failed()) bad="success reported although the raster cannot shrink"; else if(VSIStatL(OUT.c_str(),&st)==0) bad="wrote an output"; } else if(r.failed()) bad="failed "+r.what; else { nontrivial(); bad=judge(in,t,want,9,&cmd,W,H); } report("rd_expand_dimensions",bad,in,a); rm({IN,OUT}); outcome(mix(w*8+h,W*8+H)); }
static void hist(const Grid&g,uint64_t i){ File in=file_of(g,i%7,i/7%3==2&&i%7<5?0:i/7%NMAP); put(IN,in); states(); traces(); trans(); Run r=app("rd_hist",{IN}); std::map<double,int> want,got; for(double v:in.v) want[v]++; std::istringstream is(body(r.out)); std::string l,bad; double nd=1e99; while(std::getline(is,l)){ if(l.substr(0,7)=="Nodata:"){ nd=atof(l.c_str()+7); continue; } std::istringstream q(l); double v; int n; if(q>>v>>n) got[v]+=n; else if(!l.empty()) bad="prints '"+l+"'"; }
  auto near=[&](double a,double b){ return std::fabs(a-b)<=1e-5*std::fabs(a); }; if(bad.empty()){ std::map<double,int> w2; if(!near(in.nd,nd)) bad="displays another NoData value"; for(auto&q:want){ char b[64]; snprintf(b,sizeof b,"%.6g",q.first); w2[in.t<5?q.first:atof(b)]+=q.second; } if(w2!=got) bad="counts:\n"+body(r.out); } if(r.failed()) bad="failed"; if(want.size()>1) nontrivial(); report("rd_hist",bad,in,{IN}); rm({IN}); outcome(hvec(in.v)); }
static void display(const Grid&g,uint64_t i){ static const char*F[5]={"noflip","fliph","flipv","fliphv","sideways"}; File in=file_of(g,i%7,MID,1+i/7%4); int f=i/28%5; put(IN,in); states(); traces(); trans(); Run r=app("rd_raster_display",{IN,F[f]}); bool fh=(f==1||f==3)!=(GTS[in.gt][1]<0),fv=(f==2||f==3)!=(GTS[in.gt][5]>0); std::istringstream is(body(r.out)); std::string bad; if(f==4){ if(!r.failed()) bad="accepts an unknown flip directive"; } else if(r.failed()) bad="failed"; else { nontrivial(); for(int y=0;y<in.h;y++) for(int x=0;x<in.w;x++){ double v=1e99; is>>v; double w=std::trunc(in.v[(fv?in.h-1-y:y)*in.w+(fh?in.w-1-x:x)]); if(v!=w) bad="shows:\n"+body(r.out); } } report("rd_raster_display",bad,in,{IN,F[f]}); rm({IN}); outcome(mix(hvec(in.v),f)); }
static void inspect(uint64_t i){ Dig d(i); int t=d(7),gt=1+d(4),fl=d(4),mode=d(2),a=d(5),b=d(5),c=d(5),e=d(5); File in; in.t=t; in.w=4; in.h=3; in.gt=gt; in.nd=99; for(int k=0;k<12;k++) in.v.push_back(k*(t>4?1.25:k>6?9:1)); std::vector<std::string> A; if(fl&1) A.push_back(i%2?"-H":"--flipH"); A.push_back(IN); A.push_back(std::to_string(a)); A.push_back(std::to_string(b)); if(fl&2) A.push_back(i%3?"-V":"--flipV"); A.push_back(std::to_string(c)); if(mode) A.push_back(std::to_string(e));
  int x0=a,x1=b,y0=c,y1=e; bool ok=true; if(!mode){ if(e) { count("skipped"); return; } x0=std::max(a-c,0); x1=std::min(a+c,3); y0=std::max(b-c,0); y1=std::min(b+c,2); } if(x0>x1||y0>y1||x1>3||y1>2) ok=false;
  put(IN,in); states(); traces(); trans(); Run r=app("rd_raster_inspect",A); std::string bad,o=body(r.out); for(size_t p;(p=o.find('\033'))!=std::string::npos;) o.erase(p,o.find('m',p)-p+1); bool fh=bool(fl&1)!=(GTS[gt][1]<0),fv=bool(fl&2)!=(GTS[gt][5]>0);
  if(!ok){ if(!r.failed()) bad="shows cells outside the raster"; } else if(r.failed()) bad="failed "+r.what; else { nontrivial(); std::istringstream is(o); double v; for(int x=x0;x<=x1;x++){ v=-1; is>>v; if(v!=x) bad="column headings"; } for(int y=y0;y<=y1;y++){ v=-1; is>>v; if(v!=y) bad="row headings"; for(int x=x0;x<=x1;x++){ v=-1; is>>v; if(v!=in.v[(fv?2-y:y)*4+(fh?3-x:x)]) bad="shows:\n"+o; } } std::string rest; if(is>>rest) bad="shows more than asked for"; } report("rd_raster_inspect",bad,in,A); rm({IN}); outcome(mix(i%1000,ok)); }
// a chain of programs, then the history
static void chain(uint64_t i,int depth){ Dig d(i); File in; in.t=6; in.w=3; in.h=3; in.v={5,5,5,5,1,5,5,5,4}; std::string cur="/vsimem/c0.tif"; put(cur,in); states(); traces(); nontrivial(); std::vector<std::string> want; std::string bad; std::vector<std::string> made{cur}; for(int k=0;k<depth;k++){ std::string nx="/vsimem/c"+std::to_string(k+1)+".tif"; int op=d(6); trans(); std::vector<std::string> a; std::string p; switch(op){ case 0: p="rd_depressions_flood"; a={cur,nx,"0"}; break; case 1: p="rd_expand_dimensions"; a={cur,nx,"9","9"}; break; case 2: p="rd_geotransform"; a={cur,nx,"x","2","x","x","x","x"}; break; case 3: p="rd_no_data"; a={cur,nx,"-5"}; break; case 4: p="rd_depressions_breach"; a={cur,nx,"COMPLETE","NOEPS","NOFILL","10","10"}; break; default: p="rd_flow_accumulation"; a={cur,nx,"1"}; }
    Run r=app(p,a); if(r.failed()){ bad=p+" failed "+r.what; break; } a.insert(a.begin(),p); want.push_back(trim(line_of(a))); cur=nx; made.push_back(nx); }
  if(bad.empty()){ Run r=app("rd_processing_history",{cur}); std::vector<std::string> got; for(auto&l:hist_of(body(r.out))) got.push_back(l); if(want.empty()){ if(got.size()!=1||got[0]!="No processing history!") bad="history of an unprocessed raster"; } else if(got.size()!=want.size()) bad="the history shows "+std::to_string(got.size())+" of "+std::to_string(want.size())+" steps"; else for(size_t k=0;k<got.size();k++){ std::string x=trim(got[k]); if(x.size()<want[k].size()||x.substr(x.size()-want[k].size())!=want[k]) bad="step "+std::to_string(k)+" is shown as '"+got[k]+"'"; } }
  for(auto&m:made) rm({m}); if(!bad.empty()){ std::string h; for(auto&w:want) h+=w+"\n"; violation("history",bad+"\n"+h); } outcome(i); }
// ---- surface area, depression programs ---------------------------------------
static void surface(const Grid&g,uint64_t i){ File in=file_of(g,i%7,MID,i/7%5); static const char*Z[3]={"1","2.5","0.01"}; std::string z=Z[i/35%3]; put(IN,in); states(); traces(); trans(); Run r=app("rd_surface_area",{IN,z}); std::string o=body(r.out),bad; auto val=[&](const char*k){ auto p=o.find(k); if(p==std::string::npos){ bad="no line '"+std::string(k)+"'"; return 0.0; } p=o.find('=',p); return atof(o.c_str()+p+1); };
  double cell=std::fabs(GTS[in.gt][1]*GTS[in.gt][5]); int n=0; for(double v:in.v) n+=v!=in.nd; double a=val("Surface area with "),b=val("Surface area without"),c=val("Surface area from"),e=val("Perimeter"),sa=0,pe=0; bytype(in.t,[&](auto q){ using T=decltype(q); auto m=mem<T>(in); sa=dem_surface_area(m,atof(z.c_str())); pe=Perimeter(m,PerimType::SQUARE_EDGE); }); auto ne=[](double x,double y){ return std::fabs(x-y)>1e-8*std::max(1.0,std::fabs(y)); }; if(bad.empty()){ if(r.failed()) bad="failed"; else if(ne(b,n*cell)) bad="planar area"; else if(ne(a,sa)) bad="surface area"; else if(ne(c,sa-n*cell)) bad="difference"; else if(ne(e,pe)) bad="perimeter"; } if(n) nontrivial(); report("rd_surface_area",bad,in,{IN,z}); rm({IN}); outcome(hbits(sa)); }
static void has(const Grid&g,uint64_t i){ File in=file_of(g,i%7,i/7%2?LOW:MID); put(IN,in); states(); traces(); trans(); Run r=app("rd_depressions_has",{IN}); bool want=false; bytype(in.t,[&](auto q){ using T=decltype(q); std::vector<T> v(in.v.begin(),in.v.end()); auto f=ref_fill<T>(v,in.w,in.h,true,false,(T)in.nd); want=f!=v; }); bool ndin=false; for(double v:in.v) ndin|=v==in.nd; if(ndin) bytype(in.t,[&](auto q){ using T=decltype(q); auto m=mem<T>(in); want=HasDepressions<Topology::D8>(m); }); bool y=r.out.find("m Depressions found.")!=std::string::npos,n=r.out.find("m No depressions found.")!=std::string::npos; std::string bad; if(r.failed()||y==n) bad="no answer"; else if(y!=want) bad=want?"misses a depression":"reports a depression where there is none"; if(want) nontrivial(); report("rd_depressions_has",bad,in,{IN}); rm({IN}); outcome(mix(hvec(in.v),want)); }
static std::string shard(){ static std::string d=getenv("MC_SHARD_DIR")?getenv("MC_SHARD_DIR"):"/tmp"; return d; }
static void dephier_prog(const Grid&g,uint64_t i){ File in=file_of(g,5,i/3%2?LOW:MID,i%5,i%16==0); in.t=i%2?5:6; double ocean=value_of<float>(i/3%2?LOW:MID,0); std::string pre=shard()+"/dh"; bool any=false,land=false; for(double v:in.v){ bool o=v==ocean||v==in.nd; any|=o; land|=!o; } if(!any||!land){ count("no ocean"); return; } std::ostringstream oc; oc<<ocean; std::vector<std::string> a={IN,pre,oc.str()}; put(IN,in); states(); traces(); trans(); Run r=app("rd_depression_hierarchy",a); std::string bad; 
  auto topo=mem<float>(in); Array2D<dh::dh_label_t> label(in.w,in.h,dh::NO_DEP); Array2D<flowdir_t> fd(in.w,in.h,NO_FLOW); for(unsigned k=0;k<label.size();k++) if(topo.isNoData(k)||topo(k)==(float)ocean) label(k)=dh::OCEAN; auto deps=dh::GetDepressionHierarchy<float,Topology::D8>(topo,label,fd);
  if(r.failed()) bad="failed "+r.what; else { std::ostringstream w; w<<"parent,child,oceanlink\n"; for(unsigned k=1;k<deps.size();k++){ auto p=deps[k].parent; bool ol=p!=dh::NO_VALUE&&(p==dh::OCEAN||!(deps[p].lchild==k||deps[p].rchild==k)); w<<p<<","<<k<<","<<ol<<"\n"; } std::ifstream f(pre+"-graph.csv"); std::stringstream s; s<<f.rdbuf(); if(s.str()!=w.str()) bad="graph file:\n"+s.str()+"expected:\n"+w.str(); else { nontrivial(); File o=get(pre+"-label.tif"); if(!o.ok||o.v!=dbl(label)) bad="labels"; else if(o.g6!=std::vector<double>(GTS[in.gt],GTS[in.gt]+6)||!sameproj(o.wkt,wkt(in.proj))) bad="georeferencing of the labels"; } }
  report("rd_depression_hierarchy",bad,in,a); rm({IN,pre+"-label.tif"}); unlink((pre+"-graph.csv").c_str()); outcome(deps.size()); }
static void fsm_prog(const Grid&g,uint64_t i){ int map=i/3%2?FRAC:MID; File in=file_of(g,6,map,i%5,i%16==0); static const double SW[3]={0,0.5,2.25}; double sw=SW[i/2%3]; bool byfile=i/5%2; std::string pre="/vsimem/fsm"; double ocean=value_of<double>(map,0); std::ostringstream oc; oc.precision(17); oc<<ocean; File wf=in; if(byfile) for(size_t k=0;k<wf.v.size();k++) wf.v[k]=sw*(1+k%3); std::vector<std::string> a={IN,pre,oc.str()}; if(byfile){ put(IN2,wf); a.insert(a.begin(),{"--swf",IN2}); } else a.insert(a.begin(),{"--swl",std::to_string(sw)});
  auto topo=mem<double>(in); Array2D<dh::dh_label_t> label(in.w,in.h,dh::NO_DEP); Array2D<flowdir_t> fd(in.w,in.h,NO_FLOW); Array2D<double> wtd(in.w,in.h,sw); if(byfile) for(size_t k=0;k<wf.v.size();k++) wtd(k)=wf.v[k]; wtd.setNoData(topo.noData()); BucketFillFromEdges<Topology::D8>(topo,label,ocean,dh::OCEAN); bool any=false,land=false; for(unsigned k=0;k<label.size();k++) if(topo.isNoData(k)||label(k)==dh::OCEAN){ label(k)=dh::OCEAN; wtd(k)=0; any=true; } else land=true; if(!any||!land){ count("no ocean"); return; }
  put(IN,in); states(); traces(); trans(); Run r=app("rd_fill_spill_merge",a); std::string bad; if(r.failed()) bad="failed "+r.what+r.err.substr(0,200); else { auto deps=dh::GetDepressionHierarchy<double,Topology::D8>(topo,label,fd); dh::FillSpillMerge(topo,label,fd,deps,wtd); File o=get(pre+"-wtd.tif"),s=get(pre+"-hydrologic-surface-height.tif"); nontrivial(); if(!o.ok||o.v!=dbl(wtd)) bad="water depths"; else { auto w=dbl(wtd); for(size_t k=0;k<w.size();k++) if(in.v[k]!=in.nd) w[k]+=in.v[k]; if(!s.ok||s.v!=w) bad="water surface"; std::vector<double> g6(GTS[in.gt],GTS[in.gt]+6); if(o.g6!=g6||s.g6!=g6||!sameproj(o.wkt,wkt(in.proj))) bad="georeferencing of the output"; } outcome(hvec(dbl(wtd))); }
  report("rd_fill_spill_merge",bad,in,a); rm({IN,IN2,pre+"-wtd.tif",pre+"-hydrologic-surface-height.tif"}); }
static void merge(uint64_t i){ Dig d(i); int t=d(7),gx=1+d(3),gy=1+d(2),fl=d(4),cache=1+d(3),gap=d(4); static const char*F[4]={"noflip","fliph","flipv","fliphv"}; std::string dir=shard()+"/mg",lay=dir+"/m.layout"; mkdir(dir.c_str(),0777); int w=3,h=2; unsigned null=gap==3?1u<<(gx*gy-1):0; if(gx*gy<2) null=0; File whole; whole.t=t; whole.w=gx*w; whole.h=gy*h; whole.nd=99; for(int k=0;k<whole.w*whole.h;k++) whole.v.push_back(k+1); std::string L; std::vector<std::string> made; 
  for(int y=0;y<gy;y++){ for(int x=0;x<gx;x++){ if(x) L+=","; if(null>>(y*gx+x)&1) continue; std::string n="t"+std::to_string(x)+std::to_string(y)+".tif"; File f; f.t=t; f.w=w; f.h=h; f.nd=99; for(int Y=0;Y<h;Y++) for(int X=0;X<w;X++) f.v.push_back(whole.v[(y*h+Y)*whole.w+x*w+X]); GDALDataset*ds=tif()->Create((dir+"/"+n).c_str(),w,h,1,GT[t],nullptr); double g[6]={10+2.0*x*w,2,0,100-2.0*y*h,0,-2}; ds->SetGeoTransform(g); ds->GetRasterBand(1)->SetNoDataValue(99); if(ds->GetRasterBand(1)->RasterIO(GF_Write,0,0,w,h,f.v.data(),w,h,GDT_Float64,0,0)!=CE_None) abort(); GDALClose(ds); made.push_back(dir+"/"+n); L+=n; } L+="\n"; }
  { std::ofstream f(lay); f<<L; } states(); traces(); trans(); std::string out=dir+"/o.tif"; Run r=app("rd_merge_rasters_by_layout",{lay,std::to_string(cache),out,F[fl]}); std::string bad; bool fh=fl&1,fv=fl&2; File o=get(out); if(r.failed()) bad="failed "+r.what; else if(!o.ok||o.w!=whole.w||o.h!=whole.h||o.t!=t||o.nd!=99) bad="shape, type or NoData of the result"; else { nontrivial(); for(int y=0;y<whole.h&&bad.empty();y++) for(int x=0;x<whole.w;x++){ int tx=x/w,ty=y/h; double want=null>>(ty*gx+tx)&1?99:whole.v[(fv?ty*h+h-1-y%h:y)*whole.w+(fh?tx*w+w-1-x%w:x)]; if(o.v[y*whole.w+x]!=want){ bad="cell "+std::to_string(x)+","+std::to_string(y)+" is "+std::to_string(o.v[y*whole.w+x])+", the tile has "+std::to_string(want); break; } } }
  for(auto&m:made) unlink(m.c_str()); rm({out}); unlink(lay.c_str()); if(!bad.empty()) violation("rd_merge:"+bad.substr(0,4),bad+"\n layout\n"+L+F[fl]+" cache "+std::to_string(cache)+" "+TN[t]); outcome(i); }
// ---- usage -------------------------------------------------------------------
static void usage(uint64_t i){ static const struct { const char*n; int lo,hi; } P[]={{"rd_compare",2,2},{"rd_d8_flowdirs",2,2},{"rd_depression_hierarchy",3,3},{"rd_depressions_breach",7,7},{"rd_depressions_flood",3,3},{"rd_depressions_has",1,1},{"rd_depressions_mask",2,2},{"rd_expand_dimensions",4,4},{"rd_flood_for_flowdirs",2,2},{"rd_flow_accumulation",3,4},{"rd_hist",1,1},{"rd_loop_check",1,1},{"rd_processing_history",1,1},{"rd_projection",3,3},{"rd_raster_display",2,2},{"rd_taudem_d8_to_richdem_d8",2,2},{"rd_terrain_property",4,4},{"rd_surface_area",2,2}}; Dig d(i); auto&p=P[d(18)]; int n=d(9); states(); trans(); traces(); if(n>=p.lo&&n<=p.hi){ Run r=app(p.n,std::vector<std::string>(n,"/vsimem/absent.tif")); if(!r.failed()) violation("usage",std::string(p.n)+" succeeds without an input file"); return; } nontrivial(); Run r=app(p.n,std::vector<std::string>(n,"/vsimem/absent.tif")); if(!r.failed()) violation("usage",std::string(p.n)+" succeeds with "+std::to_string(n)+" arguments"); outcome(i); }
int main(int c,char**v){
  CPLSetErrorHandler(CPLQuietErrorHandler); GDALAllRegister(); bool th=thorough(); int S=th?1:0;
  suite("usage",18*9,usage); suite("arc",256*4*3,arc); suite("compare",7*7*3*3*2*2*2*2*7,compare); suite("nodata",7*9*12,nodata); suite("geotransform",7*5*64*2,geotransform); suite("projection",7*3*3*2,projection); suite("expand",7*3*3*5*5,expand); suite("inspect",7*4*4*2*625,inspect); suite("merge",7*3*2*4*3*4,merge);
  for(int k=0;k<=(th?4:3);k++) suite("chain"+std::to_string(k),ipow(6,k),[=](uint64_t i){ chain(i,k); });
  grids("hist",hist,S); grids("display",display,S); grids("area",surface,S); grids("has",has,1); grids("dephier",dephier_prog,1); grids("fsm",fsm_prog,1);
  // directions
  const std::vector<double> ALL={-1,0,1,2,3,4,5,6,7,8};
  suite("loop/2x2",full_size(2,2,10),[=](uint64_t i){ loopcheck(full_grid(i,2,2,ALL),i%7,i); });
  suite("loop/3x2",full_size(3,2,th?10:5),[=](uint64_t i){ loopcheck(full_grid(i,3,2,th?ALL:std::vector<double>{1,3,5,7,4}),i%7,i); });
  suite("loop/3x3",full_size(3,3,th?4:3),[=](uint64_t i){ loopcheck(full_grid(i,3,3,th?std::vector<double>{1,5,7,3}:std::vector<double>{1,5,3}),i%7,i); });
  for(auto s:std::vector<std::pair<int,int>>{{12,1},{1,12},{14,1},{2,6}}) suite("loop/line"+wh(s.first,s.second),ipow(2,s.first*s.second),[=](uint64_t i){ bool hz=s.first>s.second; loopcheck(full_grid(i,s.first,s.second,hz?std::vector<double>{1,5}:std::vector<double>{3,7}),i%7,i); });
  for(int b=0;b<4;b++) for(auto s:std::vector<std::pair<int,int>>{{8,8},{12,3},{3,13}}){ int w=s.first,h=s.second; Grid g; g.w=w; g.h=h; g.v.assign(w*h,0); for(int y=0;y<h;y++) for(int x=0;x<w;x++){ double q=0; switch(b){ case 0: q=y%2==0?(x<w-1?5:7):(x>0?1:7); break; /* boustrophedon, runs off at the end */ case 1: q=y==0?(x<w-1?5:7):x==w-1?(y<h-1?7:1):y==h-1?(x>0?1:3):x==0?3:8; break; /* ring around the border */ case 2: q=5; break; default: q=x==0?(y==0?5:3):(y%2==0?(x<w-1?5:(y<h-1?7:1)):(x>1||y==h-1?1:7)); } g.at(x,y)=q; }
    suite("loop/path"+std::to_string(b)+"-"+wh(w,h),dev_size(w,h,1,10),[=](uint64_t i){ loopcheck(dev_grid(i,g,1,ALL),i%7,i); }); if(th) suite("loop/path2-"+std::to_string(b)+"-"+wh(w,h),dev_size(w,h,2,4),[=](uint64_t i){ loopcheck(dev_grid(i,g,2,{1,3,5,7}),i%7,i); }); }
  suite("taudem/2x2",ipow(12,4),[=](uint64_t i){ Dig d(i); File in; in.t=i%7; in.w=in.h=2; in.nd=in.t==0?255:in.t==2||in.t>=4?-1:77; in.gt=i%5; for(int k=0;k<4;k++){ int q=d(12); in.v.push_back(q<9?q:q==9?in.nd:q==10?9:in.t>=4?-2:100); } taudem(in); });
  // raster to raster
  for(int t=0;t<7;t++){ bool fl=t>4; auto F=[=](const Grid&g,uint64_t i){ return file_of(g,t,i%4==3&&!fl?0:i%NMAP,i/4%5,i%16==0?1+i/16%2:0); }; std::string T=TN[t]; auto mine=[=](uint64_t i){ return true; }; (void)mine;
    grids("flood/"+T,[=](const Grid&g,uint64_t i){ auto in=F(g,i); if(i%3==0) in.hist="2001-01-01 00:00:00 UTC | old | first"; int k=i%4; raster_prog("rd_depressions_flood",in,{IN,OUT,std::to_string(k)},[&](auto a){ if(k==0) PriorityFlood_Zhou2016(a); else PriorityFlood_Barnes2014_max_dep<Topology::D8>(a,k); return want_of(a); }); },S);
    grids("mask/"+T,[=](const Grid&g,uint64_t i){ auto in=F(g,i); raster_prog("rd_depressions_mask",in,{IN,OUT},[&](auto a){ Array2D<uint8_t> m(a); pit_mask<Topology::D8>(a,m); auto w=want_of(m); w.nd=3; return w; }); },S);
    grids("flowdirs/"+T,[=](const Grid&g,uint64_t i){ auto in=F(g,i); bool flood=i%2; std::string out=OUT; if(!flood){ /* rd_d8_flowdirs appends its own suffix */ states(); traces(); trans(); put(IN,in); std::vector<std::string> a={IN,"/vsimem/fd"}; Run r=app("rd_d8_flowdirs",a); std::string bad; if(r.failed()) bad="failed "+r.what; else { nontrivial(); std::vector<double> w; double nd=0; bytype(t,[&](auto z){ using U=decltype(z); auto m=mem<U>(in); PriorityFlood_Barnes2014<Topology::D8>(m); Array2D<uint8_t> f; barnes_flat_resolution_d8(m,f,false); w=dbl(f); nd=f.noData(); }); VSIRename("/vsimem/fd-flowdirs.tif",OUT.c_str()); bad=judge(in,0,w,nd,nullptr); outcome(hvec(w)); } report("rd_d8_flowdirs",bad,in,a); rm({IN,OUT}); return; }
      raster_prog("rd_flood_for_flowdirs",in,{IN,OUT},[&](auto a){ bool fh=GTS[in.gt][1]<0,fv=GTS[in.gt][5]>0; auto b=a; for(int y=0;y<in.h;y++) for(int x=0;x<in.w;x++) b(x,y)=a(fh?in.w-1-x:x,fv?in.h-1-y:y); PriorityFlood_Barnes2014<Topology::D8>(b); Array2D<uint8_t> f; barnes_flat_resolution_d8(b,f,false); Array2D<uint8_t> o=f; for(int y=0;y<in.h;y++) for(int x=0;x<in.w;x++) o(x,y)=f(fh?in.w-1-x:x,fv?in.h-1-y:y); return want_of(o); }); },S);
    grids("accum/"+T,[=](const Grid&g,uint64_t i){ auto in=F(g,i); static const char*AL[12]={"1","2","3","4","5","6","7","8","9","0","10","-1"}; int k=i%12; static const char*PA[3]={"1.1","4.5","1"}; std::vector<std::string> a={IN,OUT,AL[k]}; std::string par=PA[i/12%3]; bool need=k==3||k==4||k>=6; if(need) a.push_back(par); raster_prog("rd_flow_accumulation",in,a,[&](auto e){ Want w; if(k>5){ w.refuse=true; return w; } Array2D<double> ac(e,1); float p=std::stof(par); if(k==1) seed_rand(7); switch(k){ case 0: FA_D8(e,ac); break; case 1: FA_Rho8(e,ac); break; case 2: FA_Quinn(e,ac); break; case 3: FA_Holmgren(e,ac,p); break; case 4: FA_Freeman(e,ac,p); break; default: FA_Tarboton(e,ac); } double nd=ac.noData(); w=want_of(ac); double area=std::fabs(GTS[in.gt][1]*GTS[in.gt][5]); for(auto&x:w.v) if(x!=nd) x*=area; w.tol=1e-9; return w; }); },S);
    grids("terrain/"+T,[=](const Grid&g,uint64_t i){ auto in=F(g,i); static const char*AL[10]={"1","2","3","4","5","6","7","8","0","9"}; int k=i%10; std::string z=i/10%2?"2.5":"1"; if(k>4&&k<8) in.gt=i/20%2?1:2; raster_prog("rd_terrain_property",in,{IN,OUT,AL[k],z},[&](auto e){ Want w; if(k>7){ w.refuse=true; return w; } Array2D<float> o(e); float q=std::stof(z); switch(k){ case 0: TA_slope_riserun(e,o,q); break; case 1: TA_slope_percentage(e,o,q); break; case 2: TA_slope_degrees(e,o,q); break; case 3: TA_slope_radians(e,o,q); break; case 4: TA_aspect(e,o,q); break; case 5: TA_curvature(e,o,q); break; case 6: TA_planform_curvature(e,o,q); break; default: TA_profile_curvature(e,o,q); } w=want_of(o); w.tol=1e-5; return w; }); },S);
    grids("breach/"+T,[=](const Grid&g,uint64_t i){ auto in=F(g,i); Dig d(i); int mode=d(4),eps=d(2),fill=d(2),len=d(3),dep=d(4); static const char*M[4]={"COMPLETE","SELECTIVE","CONSTRAINED","PARTIAL"}; static const char*L[3]={"0","1","3"},*D[4]={"0","1","2","1e9"}; raster_prog("rd_depressions_breach",in,{IN,OUT,M[mode],eps?"EPS":"NOEPS",fill?"FILL":"NOFILL",L[len],D[dep]},[&](auto e){ using U=std::decay_t<decltype(e(0))>; Want w; if(mode==3){ w.refuse=true; return w; } double md=atof(D[dep]); U m=md>(double)std::numeric_limits<U>::max()?std::numeric_limits<U>::max():(U)md; Lindsay2016(e,mode==0?LindsayMode::COMPLETE_BREACHING:mode==1?LindsayMode::SELECTIVE_BREACHING:LindsayMode::CONSTRAINED_BREACHING,eps,fill,atoi(L[len]),m); return want_of(e); }); },S);
  }
  return mc::main(c,v);
}
