// C17: every operation history on a tiled raster under every small cache, against one plain array plus an LRU list.
#include <mc.hpp>
#include <richdem/tiled/A2Array2D.hpp>
#include <list>
#include <memory>
using namespace richdem; using namespace mc;
static void say(const std::string&s,const std::string&d){ violation(s,d); }
static std::string dir(){ const char*d=getenv("MC_SHARD_DIR"); return d?d:"."; }
// ---- LRU alone
static void lru(uint64_t i,int depth){
  Dig d(i); LRU<int> q; std::list<int> m; int cap=-1; std::string h,bad; states(); traces(); if(depth>1) nontrivial(); int op=0;
  for(int k=0;k<depth&&bad.empty();k++){ op=d(9); trans(); h+=std::to_string(op)+" ";
    if(op<4){ q.insert(op); m.remove(op); m.push_front(op); } else if(op==4){ if(m.size()){ q.pop_back(); m.pop_back(); } } else if(op==5){ q.prune(); if(cap!=-1) while((int)m.size()>cap) m.pop_back(); } else { cap=op==6?1:op==7?2:0; q.setCapacity(cap); }
    if(q.size()!=(int)m.size()) bad="size"; else if(q.full()!=((int)m.size()==cap)) bad="full"; else if(q.getCapacity()!=cap) bad="capacity"; else if(m.size()&&q.back()!=m.back()) bad="back() is "+std::to_string(q.back())+" expected "+std::to_string(m.back()); else if(std::list<int>(q.cache)!=m) bad="order"; }
  if(!bad.empty()) say("lru:"+bad.substr(0,6),"operations (0-3 insert, 4 pop_back, 5 prune, 6/7/8 capacity 1/2/0): "+h+"\n"+bad); uint64_t o=m.size(); for(int x:m) o=mix(o,x); outcome(o);
}
// ---- tiled rasters
struct Cfg { int tx,ty,w,h; }; // tiles across/down, tile size
static const Cfg CF[]={{2,2,2,1},{3,1,1,2},{1,3,2,2},{2,1,3,3},{2,2,2,2}};
static const int NCF=5;
struct Lay { Cfg c; unsigned nulls; int orient; std::string layout; };
static const short ND=-99;
static const double GT[4][6]={{10,2,0,100,0,-2},{10,2,0,100,0,2},{10,-2,0,100,0,-2},{10,-2,0,100,0,2}};
static bool isnull(const Lay&l,int tx,int ty){ return l.nulls>>(ty*l.c.tx+tx)&1; }
static short val(int x,int y){ return 10*(y+1)+x+1; }
// tile files on disk; orient gives the signs of the geotransform
static Lay make(int cf,unsigned nulls,int orient,const std::string&tag){
  Lay l{CF[cf],nulls,orient,dir()+"/"+tag+".layout"}; const Cfg&c=l.c; std::string txt;
  for(int ty=0;ty<c.ty;ty++){ for(int tx=0;tx<c.tx;tx++){ if(tx) txt+=","; if(isnull(l,tx,ty)) continue; std::string n=tag+"_"+std::to_string(tx)+std::to_string(ty)+".tif"; txt+=n; Array2D<short> a(c.w,c.h); a.setNoData(ND); bool fh=orient&2,fv=orient&1; for(int y=0;y<c.h;y++) for(int x=0;x<c.w;x++) a(fh?c.w-1-x:x,fv?c.h-1-y:y)=(x==c.w-1&&y==c.h-1&&tx==0)?ND:val(tx*c.w+x,ty*c.h+y); a.geotransform.assign(GT[orient],GT[orient]+6); a.geotransform[0]+=tx*c.w*a.geotransform[1]; a.geotransform[3]+=ty*c.h*a.geotransform[5]; a.metadata.clear(); a.saveGDAL(dir()+"/"+n,"t"); } txt+="\n"; }
  FILE*f=fopen(l.layout.c_str(),"w"); fputs(txt.c_str(),f); fclose(f); return l;
}
static short fileval(const Lay&l,int x,int y){ int tx=x/l.c.w,ty=y/l.c.h; if(isnull(l,tx,ty)) return ND; if(tx==0&&x%l.c.w==l.c.w-1&&y%l.c.h==l.c.h-1) return ND; return val(x,y); }
struct Model { const Lay*l; int W,H; std::vector<int> v; int nd; std::list<int> lru; int cap; int evict=0; 
  void touch(int x,int y){ int t=(y/l->c.h)*l->c.tx+x/l->c.w; if(l->nulls>>t&1) return; auto it=std::find(lru.begin(),lru.end(),t); if(it!=lru.end()) lru.erase(it); else if((int)lru.size()==cap){ lru.pop_back(); evict++; } lru.push_front(t); }
  bool null(int x,int y)const{ return isnull(*l,x/l->c.w,y/l->c.h); } int at(int x,int y)const{ return null(x,y)?nd:v[y*W+x]; } };
template<class T> std::string audit(A2Array2D<T>&a,Model&m,int order){
  if(a.width()!=m.W||a.height()!=m.H||a.widthInTiles()!=m.l->c.tx||a.heightInTiles()!=m.l->c.ty||a.stdTileWidth()!=m.l->c.w||a.stdTileHeight()!=m.l->c.h) return "dimensions";
  if(a.notNullTiles()!=m.l->c.tx*m.l->c.ty-__builtin_popcount(m.l->nulls)) return "notNullTiles() is "+std::to_string(a.notNullTiles());
  for(int x=-1;x<=m.W;x++) for(int y=-1;y<=m.H;y++){ bool in=x>=0&&y>=0&&x<m.W&&y<m.H; if(a.in_grid(x,y)!=in) return "in_grid"; if(in){ bool e=x==0||y==0||x==m.W-1||y==m.H-1; if(a.isEdgeCell(x,y)!=e||a.isInteriorCell(x,y)==e) return "edge test at "+std::to_string(x)+","+std::to_string(y); int32_t tx,ty,px,py; a.makeQuadIndex(x,y,tx,ty,px,py); if(tx!=x/m.l->c.w||ty!=y/m.l->c.h||px!=x%m.l->c.w||py!=y%m.l->c.h) return "makeQuadIndex"; if(a.isNullTile(tx,ty)!=m.null(x,y)) return "isNullTile"; } }
  for(int k=0;k<m.W*m.H;k++){ int x,y; if(order==0){ x=k%m.W; y=k/m.W; } else { int r=m.W*m.H-1-k; x=r/m.H; y=r%m.H; } std::string at=" at "+std::to_string(x)+","+std::to_string(y); int e=m.at(x,y); T g=a(x,y); m.touch(x,y); if(g!=(T)e) return "value"+at+" is "+std::to_string((int)g)+" expected "+std::to_string(e); if(a.isNoData(x,y)!=((T)e==(T)m.nd)) return "isNoData"+at; int w=m.l->c.w,h=m.l->c.h; if(a(x/w,y/h,x%w,y%h)!=(T)e) return "tile access"+at; if(!m.null(x,y)&&a.isNoData(x/w,y/h,x%w,y%h)!=((T)e==(T)m.nd)) return "tile isNoData"+at; if(m.null(x,y)&&!a.isNoData(x,y)) return "null tile is data"; }
  if(a.getEvictions()!=m.evict) return "evicted "+std::to_string(a.getEvictions())+" tiles, least-recently-used evicts "+std::to_string(m.evict);
  return "";
}
static Model start(const Lay&l,int cap){ Model m; m.l=&l; m.W=l.c.tx*l.c.w; m.H=l.c.ty*l.c.h; m.cap=cap; m.nd=-1; m.v.assign(m.W*m.H,0); return m; }
// operation alphabet for one config: read/write first and last cell of each tile, setAll, setNoData
template<class T> void ops(A2Array2D<T>&a,Model&m,Dig&d,int depth,std::string&h,std::string&bad,int nops){
  int nt=m.l->c.tx*m.l->c.ty;
  for(int k=0;k<depth&&bad.empty();k++){ int o=d(nops); trans(); 
    if(o<2*nt){ int t=o%nt,tx=t%m.l->c.tx,ty=t/m.l->c.tx,x=tx*m.l->c.w,y=ty*m.l->c.h; bool wr=o>=nt; if(wr){ x+=m.l->c.w-1; y+=m.l->c.h-1; } 
      if(!wr){ h+="read "+std::to_string(x)+","+std::to_string(y)+"; "; T g=a(x,y); m.touch(x,y); if(g!=(T)m.at(x,y)) bad="read "+std::to_string((int)g)+" expected "+std::to_string(m.at(x,y)); }
      else { int v=20+k*10+t; h+="write "+std::to_string(x)+","+std::to_string(y)+"; "; if(k%2) a(x,y)=(T)v; else a(tx,ty,m.l->c.w-1,m.l->c.h-1)=(T)v; m.touch(x,y); m.v[y*m.W+x]=v; } }
    else if(o==2*nt){ h+="setAll; "; a.setAll((T)(5+k)); for(auto&x:m.v) x=5+k; }
    else if(o==2*nt+1){ h+="setNoData; "; int v=k%2?m.v[(m.l->c.h-1)*m.W+m.l->c.w-1]:m.v.back(); /* a value cells hold */ a.setNoData((T)v); m.nd=v; }
    else if(o==2*nt+2){ h+="loadTile last; "; a.loadTile(m.l->c.tx-1,m.l->c.ty-1); m.touch(m.W-1,m.H-1); }
  }
}
static int nops(const Cfg&c){ return 2*c.tx*c.ty+3; }
static uint64_t hv(const Model&m){ uint64_t h=m.evict; for(int x:m.v) h=mix(h,x); return h; }
// kind 0: created from dimensions; 1: created from another tiled raster (with null tiles and orientation)
static void tiled(uint64_t i,int cf,int depth,int kind){
  Dig d(i); int cap=1+d(3); unsigned nulls=0; int orient=0; if(kind==1){ unsigned n=d(4); int nt=CF[cf].tx*CF[cf].ty; nulls=n==0?0:n==1?1:n==2?(1u<<(nt-1)):2; if(nulls==(1u<<nt)-1) nulls=0; orient=d(2)*3; }
  std::string bad,h; states(); traces(); if(depth>1) nontrivial(); static std::map<int,Lay> cache; int key=((cf*64+nulls)*4+orient); Lay l;
  if(kind==1){ auto it=cache.find(key); if(it==cache.end()) it=cache.emplace(key,make(cf,nulls,orient,"c"+std::to_string(key))).first; l=it->second; } else l=Lay{CF[cf],0,0,""};
  Model m=start(l,cap);
  try{ std::unique_ptr<A2Array2D<int16_t>> a; if(kind==0) a.reset(new A2Array2D<int16_t>(dir()+"/pre",l.c.w,l.c.h,l.c.tx,l.c.ty,cap)); else { A2Array2D<short> base(l.layout,2); a.reset(new A2Array2D<int16_t>(dir()+"/tmp%f.native",base,cap)); }
    if(a->isReadonly()) bad="writable raster claims to be read-only"; if(bad.empty()) ops(*a,m,d,depth,h,bad,nops(l.c)); if(bad.empty()) bad=audit(*a,m,i%2); 
    if(bad.empty()&&kind==1&&depth<=2){ a->saveGDAL(dir()+"/out_%f.tif"); /* saving loads tiles in order */ for(int ty=0;ty<l.c.ty;ty++) for(int tx=0;tx<l.c.tx;tx++) m.touch(tx*l.c.w,ty*l.c.h); bad=audit(*a,m,0); if(!bad.empty()) bad="after saving: "+bad; 
      if(bad.empty()){ LayoutfileReader lr(dir()+"/out_layout.layout"); bool any=false; while(lr.next()){ bool nl=isnull(l,lr.getX(),lr.getY()); if(lr.isNullTile()!=nl){ bad="saved layout has a tile where there was a gap or the other way round"; break; } if(nl) continue; any=true; Array2D<short> t(lr.getFullPath()); bool fh=orient&2,fv=orient&1; for(int y=0;y<l.c.h;y++) for(int x=0;x<l.c.w;x++) if(t(fh?l.c.w-1-x:x,fv?l.c.h-1-y:y)!=(short)m.at(lr.getX()*l.c.w+x,lr.getY()*l.c.h+y)) bad="saved tile "+lr.getFilename()+" differs"; if(t.noData()!=(short)m.nd) bad="saved NoData"; unlink(lr.getFullPath().c_str()); unlink((lr.getFullPath()+".aux.xml").c_str()); } unlink((dir()+"/out_layout.layout").c_str()); (void)any; } }
    if(bad.empty()&&kind==1&&orient==0&&depth<=2){ a->saveUnifiedGDAL(dir()+"/u.tif"); for(int ty=0;ty<l.c.ty;ty++) for(int tx=0;tx<l.c.tx;tx++) m.touch(tx*l.c.w,ty*l.c.h); Array2D<short> u(dir()+"/u.tif"); if(u.width()!=m.W||u.height()!=m.H) bad="unified dimensions"; else for(int y=0;y<m.H;y++) for(int x=0;x<m.W;x++) if(u(x,y)!=(short)m.at(x,y)) bad="unified value at "+std::to_string(x)+","+std::to_string(y)+" is "+std::to_string(u(x,y))+" expected "+std::to_string(m.at(x,y)); if(bad.empty()&&u.geotransform!=std::vector<double>(GT[0],GT[0]+6)) bad="unified geotransform"; unlink((dir()+"/u.tif").c_str()); if(bad.empty()){ bad=audit(*a,m,1); if(!bad.empty()) bad="after unified save: "+bad; } }
  }catch(const std::exception&e){ bad=std::string("exception: ")+e.what(); }
  if(!bad.empty()) say("tiled"+std::to_string(kind)+":"+bad.substr(0,12),std::to_string(l.c.tx)+"x"+std::to_string(l.c.ty)+" tiles of "+std::to_string(l.c.w)+"x"+std::to_string(l.c.h)+" null mask "+std::to_string(nulls)+" orientation "+std::to_string(orient)+" cache "+std::to_string(cap)+"\n"+h+"\n"+bad); else { outcome(hv(m)); if(want_sample()) sample(h); }
}
// read-only rasters over files: every read order of the tiles, every null pattern, every orientation
static void readonly(uint64_t i,int cf,int depth){
  Dig d(i); int cap=1+d(3); unsigned nt=CF[cf].tx*CF[cf].ty,nulls=d((1u<<nt)-1); int orient=d(4),flip=d(4); std::string bad,h; states(); traces(); if(depth>0) nontrivial(); static std::map<int,Lay> cache; int key=((cf*64+nulls)*4+orient); auto it=cache.find(key); if(it==cache.end()) it=cache.emplace(key,make(cf,nulls,orient,"r"+std::to_string(key))).first; const Lay&l=it->second;
  Model m=start(l,cap); m.nd=ND; for(int y=0;y<m.H;y++) for(int x=0;x<m.W;x++){ int X=x,Y=y; if(flip&2) X=x/l.c.w*l.c.w+l.c.w-1-x%l.c.w; if(flip&1) Y=y/l.c.h*l.c.h+l.c.h-1-y%l.c.h; m.v[y*m.W+x]=fileval(l,X,Y); }
  try{ A2Array2D<short> a(l.layout,cap); a.flipH=flip&2; a.flipV=flip&1; if(!a.isReadonly()) bad="not read-only"; for(int k=0;k<depth&&bad.empty();k++){ int t=d(nt),x=t%l.c.tx*l.c.w,y=t/l.c.tx*l.c.h; trans(); h+=std::to_string(t)+" "; short g=a(x,y); m.touch(x,y); if(g!=m.at(x,y)) bad="read "+std::to_string(g)+" expected "+std::to_string(m.at(x,y)); }
    if(bad.empty()) bad=audit(a,m,i%2); if(bad.empty()&&depth==0){ if(peekLayoutType(l.layout)!=GDT_Int16||peekLayoutTileSize(l.layout)!=l.c.w*l.c.h) bad="layout peeking"; if(orient==0&&flip==0){ a.saveUnifiedGDAL(dir()+"/u.tif"); Array2D<short> u(dir()+"/u.tif"); if(u.width()!=m.W||u.height()!=m.H||u.noData()!=ND||u.geotransform!=std::vector<double>(GT[0],GT[0]+6)) bad="unified header"; else for(int y=0;y<m.H;y++) for(int x=0;x<m.W;x++) if(u(x,y)!=m.at(x,y)) bad="unified value"; unlink((dir()+"/u.tif").c_str()); } }
  }catch(const std::exception&e){ bad=std::string("exception: ")+e.what(); }
  if(!bad.empty()) say("readonly:"+bad.substr(0,12),std::to_string(l.c.tx)+"x"+std::to_string(l.c.ty)+" tiles of "+std::to_string(l.c.w)+"x"+std::to_string(l.c.h)+" null mask "+std::to_string(nulls)+" orientation "+std::to_string(orient)+" flips "+std::to_string(flip)+" cache "+std::to_string(cap)+"\ntiles read "+h+"\n"+bad); else outcome(hv(m));
}
static void odd(uint64_t){ // tiles of different sizes are refused
  states(); Lay l=make(3,0,0,"odd"); Array2D<short> a(1,3,5); a.saveGDAL(dir()+"/odd_10.tif","x"); bool t=false; try{ A2Array2D<short> b(l.layout,2); }catch(const std::exception&){ t=true; } if(!t) say("odd","tiles of different sizes accepted"); }
int main(int c,char**v){
  CPLSetErrorHandler(CPLQuietErrorHandler); GDALAllRegister(); bool th=thorough();
  for(int k=1;k<=(th?7:6);k++) suite("lru/d"+std::to_string(k),ipow(9,k),[=](uint64_t i){ lru(i,k); });
  for(int cf=0;cf<NCF;cf++){ for(int k=1;k<=(th?4:3);k++){ suite("dims/"+std::to_string(cf)+"/d"+std::to_string(k),3*ipow(nops(CF[cf]),k),[=](uint64_t i){ tiled(i,cf,k,0); }); if(k<2||th||(cf<2&&k<3)||(cf==2&&k<4)) suite("like/"+std::to_string(cf)+"/d"+std::to_string(k),3*4*2*ipow(nops(CF[cf]),k),[=](uint64_t i){ tiled(i,cf,k,1); }); }
    for(int k=0;k<=(th?4:2);k++){ unsigned nt=CF[cf].tx*CF[cf].ty; if(k<2||th||cf==0||cf==3) suite("read/"+std::to_string(cf)+"/d"+std::to_string(k),3*((1u<<nt)-1)*16*ipow(nt,k),[=](uint64_t i){ readonly(i,cf,k); }); } }
  suite("odd",1,odd);
  return mc::main(c,v);
}
