// C12: exhaustive operation histories on Array2D/Array3D against a plain 2-D array.
#include <rd.hpp>
#include <richdem/common/iterators.hpp>
#include <memory>
using namespace richdem; using namespace mc;
template<class T> struct M { int w=0,h=0; std::vector<T> v; T nd=(T)-1; std::vector<double> gt; std::string proj; std::map<std::string,std::string> meta; T&at(int x,int y){return v[y*w+x];} T at(int x,int y)const{return v[y*w+x];} };
static std::string wh(int w,int h){ return std::to_string(w)+"x"+std::to_string(h); }
static void say(const std::string&sig,const std::string&d){ violation(sig,d); }
static const double GT[2][6]={{10,2,0,20,0,-2},{-5,-1.5,0.5,7,0.25,3}};
template<class T> M<T> fresh(int w,int h,int k){ M<T> m; m.w=w; m.h=h; m.v.resize(w*h); for(int i=0;i<w*h;i++) m.v[i]=(T)((i*(k+1)+k)%5+1); return m; }
// Every observer of a raster compared with the model.
template<class T> std::string audit(Array2D<T>&a,const M<T>&m){
  const Array2D<T>&c=a; std::string e;
#define CHK(cond,what) do{ if(!(cond)) return what; }while(0)
  CHK(c.width()==m.w&&c.height()==m.h,"dimensions "+std::to_string(c.width())+"x"+std::to_string(c.height())+" expected "+std::to_string(m.w)+"x"+std::to_string(m.h));
  CHK(c.size()==m.v.size(),"size()"); CHK(c.empty()==m.v.empty(),"empty()"); CHK(c.noData()==m.nd,"noData()"); CHK(c.geotransform==m.gt,"geotransform"); CHK(c.projection==m.proj,"projection"); CHK(c.metadata==m.meta,"metadata"); CHK(c.viewXoff()==0&&c.viewYoff()==0,"view offset"); CHK(c.i0()==0,"i0()");
  unsigned nd=0; for(auto x:m.v) nd+=x!=m.nd;
  T mn=std::numeric_limits<T>::max(),mx=std::numeric_limits<T>::lowest();
  int w=m.w,h=m.h;
  for(int y=0;y<h;y++) for(int x=0;x<w;x++){
    T e=m.at(x,y); unsigned i=y*w+x; std::string at=" at "+std::to_string(x)+","+std::to_string(y);
    CHK(c(x,y)==e&&a(x,y)==e,"cell"+at+" is "+std::to_string((double)c(x,y))+" expected "+std::to_string((double)e)); CHK(c.xyToI(x,y)==i,"xyToI"+at); CHK(c(i)==e&&a(i)==e&&c.data()[i]==e&&a.data()[i]==e,"i-access"+at); int X,Y; c.iToxy(i,X,Y); CHK(X==x&&Y==y,"iToxy"+at);
    CHK(c.isNoData(x,y)==(e==m.nd)&&c.isNoData(i)==(e==m.nd)&&c.isData(x,y)==(e!=m.nd)&&c.isData(i)==(e!=m.nd),"isNoData/isData"+at);
    bool L=x==0,R=x==w-1,U=y==0,D=y==h-1; CHK(c.isEdgeCell(x,y)==(L||R||U||D)&&c.isEdgeCell(i)==(L||R||U||D),"isEdgeCell"+at);
    CHK(c.isTopLeft(x,y)==(L&&U)&&c.isTopRight(x,y)==(R&&U)&&c.isBottomLeft(x,y)==(L&&D)&&c.isBottomRight(x,y)==(R&&D),"corner test"+at); CHK(c.isTopRow(x,y)==U&&c.isBottomRow(x,y)==D&&c.isLeftCol(x,y)==L&&c.isRightCol(x,y)==R,"side test"+at);
    for(int dx=-2;dx<=2;dx++) for(int dy=-2;dy<=2;dy++){ int nx=x+dx,ny=y+dy; bool in=nx>=0&&ny>=0&&nx<w&&ny<h; CHK(c.inGrid(nx,ny)==in,"inGrid"+at); CHK(c.nToI(i,dx,dy)==(in?(unsigned)(ny*w+nx):Array2D<T>::NO_I),"nToI"+at); }
    for(int n=0;n<=8;n++){ int nx=x+(n?ox8[n-1]:0),ny=y+(n?oy8[n-1]:0); bool in=nx>=0&&ny>=0&&nx<w&&ny<h; CHK(c.getN(i,n)==(in?(unsigned)(ny*w+nx):Array2D<T>::NO_I),"getN"+at); if(in) CHK((int)i+c.nshift(n)==ny*w+nx,"nshift("+std::to_string(n)+")"+at); }
    if(e!=m.nd){ mn=std::min(mn,e); mx=std::max(mx,e); }
  }
  CHK(c.numDataCells()==nd,"numDataCells() is "+std::to_string(c.numDataCells())+" expected "+std::to_string(nd)); c.countDataCells(); CHK(c.numDataCells()==nd,"countDataCells()");
  if(nd) CHK(c.min()==mn&&c.max()==mx,"min()/max()");
  for(int k=0;k<12;k++) CHK(c.countval((T)k)==(unsigned)std::count(m.v.begin(),m.v.end(),(T)k),"countval");
  CHK(c.countval(m.nd)==m.v.size()-nd,"countval(NoData)");
  for(int y=0;y<h;y++){ std::vector<T> r(m.v.begin()+y*w,m.v.begin()+(y+1)*w); CHK(c.getRowData(y)==r,"getRowData"); if(y==0) CHK(c.topRow()==r,"topRow"); if(y==h-1) CHK(c.bottomRow()==r,"bottomRow"); }
  for(int x=0;x<w;x++){ std::vector<T> r; for(int y=0;y<h;y++) r.push_back(m.at(x,y)); CHK(c.getColData(x)==r,"getColData"); if(x==0) CHK(c.leftColumn()==r,"leftColumn"); if(x==w-1) CHK(c.rightColumn()==r,"rightColumn"); }
  { size_t k=0; bool ok=true; iterate_flat<T>(a,[&](Array2D<T>&r,uint32_t i){ ok=ok&&&r==&a&&i==k; k++; }); CHK(ok&&k==m.v.size(),"iterate_flat"); k=0; iterate_2d<T>(a,[&](int x,int y){ ok=ok&&w>0&&x==(int)(k%w)&&y==(int)(k/w); k++; }); CHK(ok&&k==m.v.size(),"iterate_2d"); }
  CHK(c==c&&c==a,"== not reflexive");
  if(m.gt.size()) CHK(c.getCellLengthX()==std::fabs(m.gt[1])&&c.getCellLengthY()==std::fabs(m.gt[5])&&c.getCellArea()==std::fabs(m.gt[1]*m.gt[5]),"cell lengths");
  return "";
}
// Equality must see each single difference
template<class T> std::string eqaudit(const Array2D<T>&a,const M<T>&m){
  Array2D<T> b(m.w,m.h,(T)1); b.setNoData(m.nd); for(unsigned i=0;i<m.v.size();i++) b(i)=m.v[i]; CHK(a==b&&b==a,"== denies equality");
  for(unsigned i=0;i<m.v.size();i++){ b(i)=(T)(m.v[i]+1); CHK(!(a==b)&&!(b==a),"== misses a changed cell"); b(i)=m.v[i]; }
  b.setNoData((T)(m.nd+1)); CHK(!(a==b),"== misses another NoData value"); b.setNoData(m.nd);
  if(m.w!=m.h&&m.v.size()){ Array2D<T> t(m.h,m.w,(T)1); t.setNoData(m.nd); for(unsigned i=0;i<m.v.size();i++) t(i)=m.v[i]; CHK(!(a==t),"== ignores the shape"); }
  return "";
}
static const char*ON[]={"flipVert","flipHorz","transpose","resize(3,2,4)","resize(1,1)","resize(B,2)","expand(+1,+0,3)","expand(+0,+1,3)","expand(+2,+1,6)","expand(smaller)","setRow(0,7)","setRow(last,8)","setCol(0,7)","setCol(last,9)","setEdges(6)","setAll(2)","replace(2,5)","replace(nodata,4)","setNoData(2)","setNoData(5)","scale(2)","scale(0.5)","write xy corner","write i","B=A","A=B","swap","B=move(A);A=new","A=template of B","A=make_from_template(B)","A.templateCopy(B)","A.geo","copy, change copy","B.setNoData/write","A=Array2D{{..}}","expand(same)","A=move(copy of A)","B.geo/meta"};
enum { NOPS=sizeof(ON)/sizeof(*ON) };
template<class T> void apply(int op,std::unique_ptr<Array2D<T>>&pa,std::unique_ptr<Array2D<T>>&pb,M<T>&a,M<T>&b,std::string&bad){
  Array2D<T>&A=*pa,&B=*pb; trans(); const T nd0=(T)-1;
  auto grow=[&](int dx,int dy,T v){ if(dx==0&&dy==0){ A.expand(a.w,a.h,v); return; } A.expand(a.w+dx,a.h+dy,v); M<T> o=a; a.w+=dx; a.h+=dy; a.v.assign(a.w*a.h,v); for(int y=0;y<o.h;y++) for(int x=0;x<o.w;x++) a.at(x,y)=o.at(x,y); };
  switch(op){
    case 0: A.flipVert(); for(int y=0;y<a.h/2;y++) for(int x=0;x<a.w;x++) std::swap(a.at(x,y),a.at(x,a.h-1-y)); break;
    case 1: A.flipHorz(); for(int y=0;y<a.h;y++) for(int x=0;x<a.w/2;x++) std::swap(a.at(x,y),a.at(a.w-1-x,y)); break;
    case 2: { A.transpose(); M<T> o=a; std::swap(a.w,a.h); for(int y=0;y<a.h;y++) for(int x=0;x<a.w;x++) a.at(x,y)=o.at(y,x); break; }
    case 3: A.resize(3,2,(T)4); a.w=3; a.h=2; a.v.assign(6,(T)4); break;
    case 4: A.resize(1,1); a.w=a.h=1; a.v.assign(1,(T)0); break;
    case 5: A.resize(B,(T)2); a.w=b.w; a.h=b.h; a.v.assign(a.w*a.h,(T)2); a.gt=b.gt; a.proj=b.proj; break;
    case 6: grow(1,0,(T)3); break; case 7: grow(0,1,(T)3); break; case 8: grow(2,1,(T)6); break; case 35: grow(0,0,(T)6); break;
    case 9: { bool t=false; try{ A.expand(a.w-1,a.h+1,(T)1); }catch(const std::exception&){ t=true; } bool u=false; try{ A.expand(a.w+1,a.h-1,(T)1); }catch(const std::exception&){ u=true; } if(!t||!u) bad="expand() shrank the raster"; break; }
    case 10: A.setRow(0,(T)7); for(int x=0;x<a.w;x++) a.at(x,0)=7; break;
    case 11: A.setRow(a.h-1,(T)8); for(int x=0;x<a.w;x++) a.at(x,a.h-1)=8; break;
    case 12: A.setCol(0,(T)7); for(int y=0;y<a.h;y++) a.at(0,y)=7; break;
    case 13: A.setCol(a.w-1,(T)9); for(int y=0;y<a.h;y++) a.at(a.w-1,y)=9; break;
    case 14: A.setEdges((T)6); for(int y=0;y<a.h;y++) for(int x=0;x<a.w;x++) if(x==0||y==0||x==a.w-1||y==a.h-1) a.at(x,y)=6; break;
    case 15: A.setAll((T)2); a.v.assign(a.w*a.h,(T)2); break;
    case 16: A.replace((T)2,(T)5); for(auto&x:a.v) if(x==2) x=5; break;
    case 17: A.replace(a.nd,(T)4); for(auto&x:a.v) if(x==a.nd) x=4; break;
    case 18: A.setNoData((T)2); a.nd=2; break; case 19: A.setNoData((T)5); a.nd=5; break;
    case 20: A.scale(2); for(auto&x:a.v) if(x!=a.nd) x=(T)(x*2.0); break;
    case 21: A.scale(0.5); for(auto&x:a.v) if(x!=a.nd) x=(T)(x*0.5); break;
    case 22: A(a.w-1,0)=(T)11; a.at(a.w-1,0)=11; A(0,a.h-1)=a.nd; a.at(0,a.h-1)=a.nd; break;
    case 23: { unsigned i=a.w*a.h/2; A(i)=(T)10; a.v[i]=10; break; }
    case 24: B=A; b=a; break; case 25: A=B; a=b; break;
    case 26: std::swap(A,B); std::swap(a,b); break;
    case 27: B=std::move(A); b=a; pa.reset(new Array2D<T>(2,3,(T)3)); a=M<T>(); a.w=2; a.h=3; a.v.assign(6,(T)3); break;
    case 28: case 29: { Array2D<uint8_t> t(B,(uint8_t)0); if(op==28){ Array2D<T> n(t,(T)8); A=n; } else A=Array2D<T>::make_from_template(t,(T)8); a=M<T>(); a.w=b.w; a.h=b.h; a.v.assign(a.w*a.h,(T)8); a.gt=b.gt; a.proj=b.proj; a.meta=b.meta; break; }
    case 30: A.templateCopy(B); a.gt=b.gt; a.proj=b.proj; a.meta=b.meta; break;
    case 31: a.gt.assign(GT[0],GT[0]+6); A.geotransform=a.gt; A.projection=a.proj="PA"; A.metadata["k"]="a"; a.meta["k"]="a"; break;
    case 32: { Array2D<T> c(A); c.setAll((T)9); c.setNoData((T)7); c.geotransform.clear(); Array2D<T> d; d=A; d.resize(1,2,(T)1); break; }
    case 33: B.setNoData((T)3); b.nd=3; B(0,0)=(T)5; b.at(0,0)=5; break;
    case 34: { Array2D<T> c={{1,2,3},{4,5,2}}; A=c; a=M<T>(); a.w=3; a.h=2; a.v={1,2,3,4,5,2}; bool t=false; try{ Array2D<T> r={{1,2},{3}}; }catch(const std::exception&){ t=true; } if(!t) bad="ragged initializer accepted"; break; }
    case 36: { Array2D<T> c(A); Array2D<T> d(std::move(c)); A=std::move(d); break; }
    case 37: b.gt.assign(GT[1],GT[1]+6); B.geotransform=b.gt; B.projection=b.proj="PB"; B.metadata["k"]="b"; b.meta["k"]="b"; break;
  }
  (void)nd0;
}
static const int SH[5][2]={{3,2},{2,2},{1,3},{4,3},{1,1}};
template<class T> void hist(uint64_t i,int depth,int shape,const char*tn){
  Dig d(i); std::vector<int> ops; for(int k=0;k<depth;k++) ops.push_back(d(NOPS));
  int w=SH[shape][0],h=SH[shape][1]; M<T> a=fresh<T>(w,h,shape),b=fresh<T>(h,w+1,2); std::unique_ptr<Array2D<T>> A(new Array2D<T>(w,h)),B(new Array2D<T>(h,w+1)); for(unsigned k=0;k<a.v.size();k++) (*A)(k)=a.v[k]; for(unsigned k=0;k<b.v.size();k++) (*B)(k)=b.v[k];
  std::string bad; states(); traces(); for(int o:ops){ if(A->numDataCells()>A->size()||B->numDataCells()>B->size()) bad="numDataCells() exceeds the size"; /* counted before every change */ apply(o,A,B,a,b,bad); if(!bad.empty()) break; }
  std::string who="A: "; if(bad.empty()) bad=audit(*A,a); if(bad.empty()&&depth<4) bad=eqaudit(*A,a); if(bad.empty()){ who="B: "; bad=audit(*B,b); }
  if(depth>1) nontrivial(); if(bad.empty()) outcome(hvec(a.v,mix(a.w,hbits((double)a.nd))));
  if(!bad.empty()||want_sample()){ std::string s; for(int o:ops) s+=std::string(s.empty()?"":"; ")+ON[o]; if(bad.empty()) sample(s); else { std::string k=bad.substr(0,bad.find_first_of(" (")); say("Array2D:"+k+":"+ON[ops.back()],std::string(tn)+" "+wh(w,h)+" after "+s+"\n"+who+bad+"\nmodel: "+show(a.v,a.w)); } }
}

// Index conversions on rasters too large to allocate: the wrapped memory is never touched.
static void bigidx(uint64_t i){
  static const int64_t W[]={1,2,46340,46341,65535,65536,100000,2000000000}; int64_t w=W[i/8],h=W[i%8]; if((uint64_t)w*h>=0xffffffffULL) return; states(); traces(); nontrivial();
  Array2D<uint8_t> a((uint8_t*)0x1000,w,h); std::string c=wh(w,h); if(a.size()!=(uint64_t)w*h) say("big:size",c+": size() "+std::to_string(a.size()));
  for(int64_t x:{(int64_t)0,(int64_t)1,w/2,w-2,w-1}) for(int64_t y:{(int64_t)0,(int64_t)1,h/2,h-2,h-1}){ if(x<0||y<0||x>=w||y>=h) continue; trans(); uint64_t e=(uint64_t)y*w+x; uint32_t g=a.xyToI(x,y); int X,Y; a.iToxy(e,X,Y); if(g!=e||X!=x||Y!=y) say("big:index",c+" cell "+std::to_string(x)+","+std::to_string(y)); if(a.isEdgeCell((uint32_t)e)!=(x==0||y==0||x==w-1||y==h-1)) say("big:edge",c);
    for(int n=1;n<=8;n++){ int64_t nx=x+ox8[n-1],ny=y+oy8[n-1]; bool in=nx>=0&&ny>=0&&nx<w&&ny<h; uint32_t en=in?(uint32_t)((uint64_t)ny*w+nx):Array2D<uint8_t>::NO_I; if(a.getN(e,n)!=en||a.nToI(e,ox8[n-1],oy8[n-1])!=en) say("big:neighbour",c); if(in&&(uint32_t)((uint32_t)e+a.nshift(n))!=en) say("big:nshift",c); } }
  Array3D<uint8_t> b((uint8_t*)0x1000,w,h); if(b.size()!=(uint64_t)w*h) say("big:size3",c+": Array3D size() "+std::to_string(b.size())); if(b.xyToI(w-1,h-1,8)!=9*((uint64_t)w*h)-1) say("big:index3",c);
}
// ---- Array3D
template<class T> struct M3 { int w=0,h=0; std::vector<T> v; T nd=(T)-1; };
template<class T> std::string audit3(Array3D<T>&a,const M3<T>&m){
  const Array3D<T>&c=a; CHK(c.width()==m.w&&c.height()==m.h&&c.size()==(size_t)m.w*m.h&&c.empty()==m.v.empty(),"dimensions"); CHK(c.noData()==m.nd,"noData()");
  unsigned nd=0; for(int y=0;y<m.h;y++) for(int x=0;x<m.w;x++){ size_t i=y*m.w+x; for(int n=0;n<9;n++){ T e=m.v[i*9+n]; CHK(c(x,y,n)==e&&a(x,y,n)==e&&c.getIN(i,n)==e&&a.getIN(i,n)==e&&a.getData()[i*9+n]==e,"value at "+std::to_string(x)+","+std::to_string(y)+","+std::to_string(n)); CHK(c.xyToI(x,y,n)==i*9+n,"xyToI"); } bool f=m.v[i*9]==m.nd; nd+=!f; CHK(c.isNoData(x,y)==f&&c.isNoData(i)==f,"isNoData"); }
  for(int x=-1;x<=m.w;x++) for(int y=-1;y<=m.h;y++) CHK(c.inGrid(x,y)==(x>=0&&y>=0&&x<m.w&&y<m.h),"inGrid");
  CHK(c.numDataCells()==nd,"numDataCells"); CHK(c==c,"=="); if(m.v.size()){ Array3D<T> b(a); CHK(b==a,"== copy"); for(size_t i=0;i<m.v.size();i++){ b.getIN(i/9,i%9)=(T)(m.v[i]+1); CHK(!(b==a),"== misses a change"); b.getIN(i/9,i%9)=m.v[i]; } }
  return "";
}
static const char*O3[]={"setAll(3)","write","setNoData(3)","setNoData(5)","resize(2,1,5)","resize(B)","B=A","A=B","swap","B=move(A);A=new","A=template of B","A=template of Array2D","write flag","copy, change copy"};
template<class T> void hist3(uint64_t i,int depth){
  Dig d(i); M3<T> a,b; a.w=2;a.h=2;a.v.assign(36,(T)1); b.w=1;b.h=3;b.v.assign(27,(T)2); std::unique_ptr<Array3D<T>> A(new Array3D<T>(2,2,(T)1)),B(new Array3D<T>(1,3,(T)2)); std::string s; states(); traces(); if(depth>1) nontrivial();
  int op=0; for(int k=0;k<depth;k++){ op=d(14); A->numDataCells(); B->numDataCells(); s+=std::string(O3[op])+"; "; trans();
    switch(op){ case 0: A->setAll((T)3); a.v.assign(a.v.size(),(T)3); break; case 1: (*A)(a.w-1,a.h-1,8)=(T)7; a.v[a.v.size()-1]=7; A->getIN(0,4)=(T)6; a.v[4]=6; break; case 2: A->setNoData((T)3); a.nd=3; break; case 3: A->setNoData((T)5); a.nd=5; break; case 4: A->resize(2,1,(T)5); a.w=2;a.h=1;a.v.assign(18,(T)5); break; case 5: A->resize(*B,(T)4); a.w=b.w;a.h=b.h;a.v.assign(b.v.size(),(T)4); break; case 6: *B=*A; b=a; break; case 7: *A=*B; a=b; break; case 8: std::swap(*A,*B); std::swap(a,b); break; case 9: *B=std::move(*A); b=a; A.reset(new Array3D<T>(1,1)); a=M3<T>(); a.w=a.h=1; a.v.assign(9,(T)0); break;
      case 10: { Array3D<uint8_t> t(*B,(uint8_t)1); Array3D<T> n(t,(T)5); *A=n; a=M3<T>(); a.w=b.w;a.h=b.h;a.v.assign(b.v.size(),(T)5); break; } case 11: { Array2D<uint8_t> t(3,1); t.geotransform={1,2,3,4,5,6}; t.projection="P"; Array3D<T> n(t,(T)3); if(n.geotransform!=t.geotransform||n.projection!="P") say("Array3D:template","georeferencing lost"); Array2D<int> back(n,4); if(back.geotransform!=t.geotransform||back.width()!=3||back.height()!=1||back(2,0)!=4) say("Array3D:template2","Array2D made from an Array3D differs"); *A=n; a=M3<T>(); a.w=3;a.h=1;a.v.assign(27,(T)3); break; }
      case 12: (*A)(0,0,0)=a.nd; a.v[0]=a.nd; break; case 13: { Array3D<T> c(*A); c.setAll((T)9); c.setNoData((T)8); Array3D<T> e; e=*A; e.resize(1,1,(T)1); break; } } }
  auto bad=audit3(*A,a); std::string who="A: "; if(bad.empty()){ who="B: "; bad=audit3(*B,b); } if(!bad.empty()) say("Array3D:"+bad.substr(0,bad.find_first_of(" ("))+":"+O3[op],s+who+bad); else outcome(hvec(a.v,mix(a.w,hbits((double)a.nd))));
}
int main(int c,char**v){
  bool th=thorough();
  for(int s=0;s<5;s++){ for(int dpt=1;dpt<=3;dpt++){ suite("i16/"+std::to_string(s)+"/d"+std::to_string(dpt),ipow(NOPS,dpt),[=](uint64_t i){ hist<int16_t>(i,dpt,s,"int16"); }); if(dpt<3||th){ suite("f64/"+std::to_string(s)+"/d"+std::to_string(dpt),ipow(NOPS,dpt),[=](uint64_t i){ hist<double>(i,dpt,s,"double"); }); suite("u8/"+std::to_string(s)+"/d"+std::to_string(dpt),ipow(NOPS,dpt),[=](uint64_t i){ hist<uint8_t>(i,dpt,s,"uint8"); }); suite("f32/"+std::to_string(s)+"/d"+std::to_string(dpt),ipow(NOPS,dpt),[=](uint64_t i){ hist<float>(i,dpt,s,"float"); }); suite("u64/"+std::to_string(s)+"/d"+std::to_string(dpt),ipow(NOPS,dpt),[=](uint64_t i){ hist<uint64_t>(i,dpt,s,"uint64"); }); } }
    if(th||s==0) suite("i16/"+std::to_string(s)+"/d4",ipow(NOPS,4),[=](uint64_t i){ hist<int16_t>(i,4,s,"int16"); }); }
  suite("bigindex",64,bigidx);
  for(int dpt=1;dpt<=(th?5:4);dpt++){ suite("a3/f32/d"+std::to_string(dpt),ipow(14,dpt),[=](uint64_t i){ hist3<float>(i,dpt); }); if(dpt<4||th) suite("a3/i8/d"+std::to_string(dpt),ipow(14,dpt),[=](uint64_t i){ hist3<int8_t>(i,dpt); }); }
  return mc::main(c,v);
}
