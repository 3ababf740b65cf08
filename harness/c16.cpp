// C16: every small layout grid written and read back; every short text read and compared with an independent parse.
#include <mc.hpp>
#include <richdem/common/Layoutfile.hpp>
#include <sys/stat.h>
using namespace richdem; using namespace mc;
using Rows=std::vector<std::vector<std::string>>;
static void say(const std::string&s,const std::string&d){ violation(s,d); }
static std::string dir(){ const char*d=getenv("MC_SHARD_DIR"); return d?d:"."; }
static std::string base(std::string f){ auto p=f.rfind('/'); if(p!=std::string::npos) f=f.substr(p+1); p=f.rfind('.'); return p==std::string::npos?f:f.substr(0,p); }
static std::string esc(const std::string&s){ std::string o; for(char c:s) if(c=='\n') o+="\\n"; else o+=c; return o; }
// What the reader must deliver; empty on success
static std::string expect(const std::string&file,const std::string&path,const Rows&g){
  LayoutfileReader lf(file); if(lf.getPath()!=path) return "path '"+lf.getPath()+"' expected '"+path+"'"; int H=g.size(),W=g[0].size(); int n=0;
  while(true){ bool more=lf.next(); trans(); if(n==W*H){ if(more) return "more entries than the grid has"; break; } if(!more) return "only "+std::to_string(n)+" entries of "+std::to_string(W)+"x"+std::to_string(H); int x=n%W,y=n/W; const std::string&e=g[y][x]; std::string at=" at "+std::to_string(x)+","+std::to_string(y);
    if(lf.getX()!=x||lf.getY()!=y) return "coordinates "+std::to_string(lf.getX())+","+std::to_string(lf.getY())+at; if(lf.getFilename()!=e) return "name '"+lf.getFilename()+"' expected '"+e+"'"+at; if(lf.isNullTile()!=e.empty()) return "isNullTile"+at; if(lf.newRow()!=(x==0)) return "newRow"+at; if(lf.getFullPath()!=path+e) return "full path '"+lf.getFullPath()+"'"+at; if(lf.getBasename()!=base(e)) return "basename '"+lf.getBasename()+"' expected '"+base(e)+"'"+at; if(lf.getGridLocName()!=std::to_string(x)+"_"+std::to_string(y)) return "grid location name"+at; n++; }
  return "";
}
static const char*LN[6][2]={{"a.layout","a.layout"},{"sub/b.txt","sub/b.layout"},{"sub.d/c.layout","sub.d/c.layout"},{"sub.d/noext","sub.d/noext"},{"noext","noext"},{"sub.d/x.y.tmp","sub.d/x.y.layout"}};
static const char*EN[4]={"","t1.tif","my tile.v2.tif","noext"};
static const char*PRE[4]={"","","some/dir/","/abs.d/"};
static void round(uint64_t i,int w,int h,int k){
  Dig d(i); int ln=d(6); Rows g(h,std::vector<std::string>(w)),in=g; bool any=false; for(int y=0;y<h;y++) for(int x=0;x<w;x++){ int c=d(k); g[y][x]=EN[c]; if(c==1&&w>1) g[y][x]=std::to_string(y)+"_"+std::to_string(x)+".tif"; in[y][x]=c?std::string(PRE[(x+2*y+ln)%4])+g[y][x]:""; any|=c>0; }
  std::string D=dir()+"/"; mkdir((D+"sub").c_str(),0755); mkdir((D+"sub.d").c_str(),0755); states(); traces(); if(any&&w*h>1) nontrivial(); std::string out=D+LN[ln][1],bad;
  { LayoutfileWriter lw(D+LN[ln][0]); for(int y=0;y<h;y++){ lw.addRow(); for(int x=0;x<w;x++) lw.addEntry(in[y][x]); } }
  try{ bad=expect(out,out.substr(0,out.rfind('/')+1),g); }catch(const std::exception&e){ bad=std::string("reading back failed: ")+e.what(); } 
  std::string txt; { std::ifstream f(out); std::stringstream s; s<<f.rdbuf(); txt=s.str(); } unlink(out.c_str()); unlink((D+LN[ln][0]).c_str());
  if(!bad.empty()) say("round:"+bad.substr(0,12),std::to_string(w)+"x"+std::to_string(h)+" as "+LN[ln][0]+"\nfile: "+esc(txt)+"\n"+bad); else { uint64_t hh=0; for(char c:txt) hh=mix(hh,c); outcome(hh); if(want_sample()&&any) sample(esc(txt)); }
}
static void text(uint64_t i,int len,const char*A,int k){
  Dig d(i); std::string t; for(int j=0;j<len;j++) t+=A[d(k)]; std::string f=dir()+"/t.layout"; { std::ofstream o(f,std::ios::binary); o<<t; } states(); traces(); if(t.find(',')!=std::string::npos) nontrivial();
  Rows r; std::string cur; bool open=false; std::vector<std::string> lines; for(char c:t){ if(c=='\n'){ lines.push_back(cur); cur.clear(); open=false; } else { cur+=c; open=true; } } if(open) lines.push_back(cur);
  size_t W=1; for(auto&l:lines){ std::vector<std::string> v; if(!l.empty()){ std::string it; for(char c:l+","){ if(c==','){ auto a=it.find_first_not_of(' '),b=it.find_last_not_of(' '); v.push_back(a==std::string::npos?"":it.substr(a,b-a+1)); it.clear(); } else it+=c; } } r.push_back(v); W=std::max(W,v.size()); }
  bool ok=!r.empty(); for(auto&v:r){ if(v.size()+1==W) v.emplace_back(); if(v.size()!=W) ok=false; }
  std::string bad; bool thrown=false; try{ if(ok) bad=expect(f,dir()+"/",r); else LayoutfileReader lf(f); }catch(const std::exception&){ thrown=true; } if(ok&&thrown) bad="refused a sound layout"; if(!ok&&!thrown) bad="accepted a layout whose rows differ in length"; unlink(f.c_str());
  if(!bad.empty()) say("text:"+bad.substr(0,12),"text '"+esc(t)+"'\n"+bad); else outcome(mix(ok,mix(r.size(),W)));
}
static void names(uint64_t i,int len){ static const char A[]="a./"; Dig d(i); std::string s; for(int j=0;j<len;j++) s+=A[d(3)]; states(); trans(); std::string g=GetBaseName(s); if(g!=base(s)) say("basename","GetBaseName('"+s+"') = '"+g+"' expected '"+base(s)+"'"); if(s.find('/')!=std::string::npos) nontrivial(); }
static void misc(uint64_t i){ states(); bool t=false; try{ if(i==0) LayoutfileReader r(dir()+"/absent.layout"); else { std::ofstream(dir()+"/e.layout"); LayoutfileReader r(dir()+"/e.layout"); } }catch(const std::exception&){ t=true; } if(!t) say("misc","an absent or empty layout was accepted"); }
int main(int c,char**v){
  bool th=thorough();
  for(int w=1;w<=4;w++) for(int h=1;h<=4;h++){ int k=w*h<=4?4:w*h<=6?3:w*h<=(th?16:12)?2:0; if(th&&w*h<=9) k=std::max(k,3); if(th&&w*h<=6) k=4; if(k) suite("round/"+std::to_string(w)+"x"+std::to_string(h),6*ipow(k,w*h),[=](uint64_t i){ round(i,w,h,k); }); }
  for(int n=0;n<=(th?10:8);n++) suite("text/"+std::to_string(n),ipow(4,n),[=](uint64_t i){ text(i,n,"a, \n",4); });
  for(int n=0;n<=(th?8:6);n++) suite("text5/"+std::to_string(n),ipow(5,n),[=](uint64_t i){ text(i,n,"b,\n./",5); });
  for(int n=0;n<=9;n++) suite("names/"+std::to_string(n),ipow(3,n),[=](uint64_t i){ names(i,n); });
  suite("misc",2,misc);
  return mc::main(c,v);
}
