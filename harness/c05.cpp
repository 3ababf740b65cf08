#include "../common/spaces.hpp"
#include <richdem/depressions/depression_hierarchy.hpp>
using namespace mc; using namespace richdem; using namespace richdem::dephier;

// Ocean patterns: which input cells are ocean.
enum { O_BORDER, O_FIRST, O_LAST, O_LEFT, O_MID, O_TWO, O_NKIND };
static std::vector<char> ocean_mask(int kind,int w,int h){
  std::vector<char> m(w*h,0);
  switch(kind){
    case O_BORDER: for(int y=0;y<h;y++) for(int x=0;x<w;x++) if(!x||!y||x==w-1||y==h-1) m[y*w+x]=1; break;
    case O_FIRST: m[0]=1; break;
    case O_LAST: m[w*h-1]=1; break;
    case O_LEFT: for(int y=0;y<h;y++) m[y*w]=1; break;
    case O_MID: m[(h/2)*w+w/2]=1; break;
    case O_TWO: m[w-1]=1; m[(h-1)*w]=1; break;
  }
  return m;
}
struct Truth { // minimax levels between all cells and the ocean, by union in elevation order
  int w,h; bool d8; std::vector<double> z; std::vector<char> oc;
  template<class F> void nb(int i,F f)const{ int x=i%w,y=i/w; for(int k=0;k<nbrs(d8);k++){ int a=x+dxo(d8,k),b=y+dyo(d8,k); if(a>=0&&b>=0&&a<w&&b<h) f(b*w+a); } }
  // lowest achievable highest elevation from cell s to each cell; ocean cells all count as one place (index n)
  std::vector<double> from(int s)const{
    int n=w*h; std::vector<double> d(n+1,1e300); if(s==n){ d[n]=-1e300; for(int i=0;i<n;i++) if(oc[i]) d[i]=z[i]; } else d[s]=z[s];
    bool ch=true; while(ch){ ch=false;
      for(int i=0;i<n;i++){ double v=d[i];
        nb(i,[&](int j){ v=std::min(v,std::max(d[j],z[i])); });
        if(oc[i]&&d[n]<1e299) v=std::min(v,std::max(d[n],z[i]));
        if(v<d[i]){ d[i]=v; ch=true; }
        if(oc[i]&&d[i]<d[n]){ d[n]=d[i]; ch=true; }
      } }
    return d;
  }
};
template<class T,Topology topo> void one(const Grid&g,int map,const std::vector<char>&oc,const char*tn){
  const bool d8=topo==Topology::D8; const int w=g.w,h=g.h,n=w*h;
  auto dem=to_rd<T>(g,map); auto zin=vals(dem);
  Array2D<dh_label_t> label(w,h,NO_DEP); Array2D<int8_t> fd(w,h,NO_FLOW);
  bool edge=false; Truth t; t.w=w;t.h=h;t.d8=d8;t.oc=oc; for(auto v:zin) t.z.push_back((double)v);
  for(int i=0;i<n;i++) if(oc[i]){ label(i)=OCEAN; t.nb(i,[&](int j){ if(!oc[j]) edge=true; }); }
  states(); traces(); trans();
  std::string bad; auto fail=[&](const std::string&s){ if(bad.empty()) bad=s; };
  DepressionHierarchy<T> deps; bool threw=false;
  try{ deps=GetDepressionHierarchy<T,topo>(dem,label,fd); }catch(const std::exception&e){ threw=true; }
  if(!edge){ if(!threw) fail("a terrain without ocean was accepted"); }
  else if(threw) fail("refused a terrain that has an ocean");
  else {
    if(vals(dem)!=zin) fail("the DEM was changed");
    const size_t D=deps.size();
    auto leaf=[&](size_t d){ return deps[d].lchild==NO_VALUE&&deps[d].rchild==NO_VALUE; };
    auto S=[](auto x){ return std::to_string(x); };
    // structure
    for(size_t d=1;d<D;d++){ auto&x=deps[d];
      if(x.dep_label!=d) fail("label of depression "+S(d)+" differs from its index");
      if((x.lchild==NO_VALUE)!=(x.rchild==NO_VALUE)) fail("one child only");
      if(x.parent==NO_VALUE||x.parent>=D){ fail("depression "+S(d)+" never reaches the ocean"); continue; }
      if(!leaf(d)) for(auto c:{x.lchild,x.rchild}) if(c>=D||c==0||deps[c].parent!=d||deps[c].ocean_parent) fail("child/parent links disagree at "+S(d));
      if(x.ocean_parent){ if(x.odep!=NO_VALUE) fail("ocean-linked depression has an overflow sibling"); int c=0; for(auto o:deps[x.parent].ocean_linked) c+=o==d; if(c!=1) fail("ocean link of "+S(d)+" not recorded once at its parent"); if(!(x.parent==OCEAN||leaf(x.parent))) fail("ocean link to a meta-depression"); if(x.geolink!=x.parent) fail("ocean link's geolink is not its parent"); }
      else { auto&p=deps[x.parent]; if(p.lchild!=d&&p.rchild!=d) fail("parent of "+S(d)+" does not list it"); else { auto sib=p.lchild==d?p.rchild:p.lchild; if(x.odep!=sib) fail("overflow neighbour of "+S(d)+" is not its sibling"); if(p.lchild!=NO_VALUE&&(p.out_elev<x.out_elev)) fail("a parent spills below its child"); } }
      if(x.out_cell>=(unsigned)n) fail("outlet outside the grid");
    }
    for(size_t d=0;d<D;d++) for(auto o:deps[d].ocean_linked) if(o>=D||!deps[o].ocean_parent||deps[o].parent!=d) fail("stray ocean link at "+S(d));
    if(bad.empty()){ // no cycles on the way to the ocean
      for(size_t d=1;d<D;d++){ size_t c=d,k=0; while(c!=OCEAN&&k<=2*D){ c=deps[c].parent; k++; } if(c!=OCEAN) fail("parents of "+S(d)+" form a cycle"); }
    }
    if(bad.empty()){
      for(int i=0;i<n;i++){ auto l=label(i); if(l>=D) fail("cell "+S(i)+" has no depression"); else if(l!=OCEAN&&!leaf(l)) fail("cell labelled with a meta-depression"); if(oc[i]&&l!=OCEAN) fail("ocean cell relabelled"); }
    }
    if(bad.empty()) for(int i=0;i<n;i++){ // chains
      int c=i,k=0; while(fd(c)!=NO_FLOW&&k<=n){ int dir=fd(c); if(dir<1||dir>8){ fail("flow direction code"); break; } int dx=ox8[dir-1],dy=oy8[dir-1];
        if(!d8){ if(dir>4){ fail("D4 direction code"); break; } dx=ox4[dir-1]; dy=oy4[dir-1]; }
        int x=c%w+dx,y=c/w+dy; if(x<0||y<0||x>=w||y>=h){ fail("flow leaves the grid"); break; }
        int j=y*w+x; if(label(j)!=label(i)) fail("flow of cell "+S(i)+" leaves its depression before its pit"); if(zin[j]>zin[c]) fail("flow goes uphill at "+S(c)); c=j; k++; }
      if(k>n) fail("flow directions cycle");
      if(bad.empty()){ if(label(i)==OCEAN){ if(!oc[c]) fail("flow of an ocean-draining cell ends on land"); } else if((unsigned)c!=deps[label(i)].pit_cell) fail("flow of cell "+S(i)+" does not end at its depression's pit"); }
    }
    if(bad.empty()){
      // which leaves below each depression
      std::vector<std::set<size_t>> below(D); for(size_t d=1;d<D;d++){ if(leaf(d)) below[d]={d}; else { below[d]=below[deps[d].lchild]; below[d].insert(below[deps[d].rchild].begin(),below[deps[d].rchild].end()); } }
      std::map<size_t,std::vector<double>> mm; for(size_t d=1;d<D;d++) if(leaf(d)) mm[d]=t.from(deps[d].pit_cell);
      size_t leaves=mm.size(); if(leaves>1||(leaves==1&&deps[1].dep_vol>0)) nontrivial();
      // every flat without lower neighbours is exactly one leaf (or ocean-draining at its own level)
      std::vector<char> seen(n,0);
      for(int i=0;i<n;i++) if(!seen[i]&&!oc[i]){ std::vector<int> q{i}; seen[i]=1; bool lower=false,oceanlow=false; for(size_t a=0;a<q.size();a++) t.nb(q[a],[&](int j){ if(zin[j]<zin[i]) lower=true; if(zin[j]==zin[i]&&oc[j]) oceanlow=true; if(!oc[j]&&zin[j]==zin[i]&&!seen[j]){ seen[j]=1; q.push_back(j); } });
        int pits=0; for(auto&p:mm) for(int c:q) pits+=(unsigned)c==deps[p.first].pit_cell;
        if(lower&&pits) fail("a pit was placed on a slope at "+S(i)); if(!lower&&!oceanlow&&pits!=1) fail("a flat bottom has "+S(pits)+" pits"); }
      for(size_t d=1;d<D;d++){ auto&x=deps[d];
        if(leaf(d)){ if(x.pit_elev!=zin[x.pit_cell]) fail("pit elevation"); if(label(x.pit_cell)!=d) fail("pit cell labelled otherwise"); }
        else { bool ok=false; for(auto l:below[d]) if(deps[l].pit_cell==x.pit_cell) ok=true; if(!ok) fail("meta-depression's pit is not one of its pits"); }
        double oe=x.out_elev;
        if((double)zin[x.out_cell]!=oe) fail("outlet elevation is not the outlet cell's, depression "+S(d));
        // lowest way to the neighbour / the ocean
        for(auto a:below[d]){
          if(x.ocean_parent){ if(mm[a][n]!=oe) fail("depression "+S(d)+" reaches the ocean at "+S(oe)+", the terrain does at "+S(mm[a][n])); }
          else for(auto b:below[x.odep]) if(mm[a][deps[b].pit_cell]!=oe) fail("depressions "+S(a)+" and "+S(b)+" join at "+S(oe)+", the terrain joins them at "+S(mm[a][deps[b].pit_cell]));
        }
        // the outlet really lies between this depression and the one it names
        bool link=false; for(int c=0;c<n&&!link;c++) if(below[d].count(label(c))) t.nb(c,[&](int j){ if(label(j)==x.geolink&&std::max(t.z[c],t.z[j])==oe&&((unsigned)c==x.out_cell||(unsigned)j==x.out_cell)) link=true; });
        if(!link) fail("outlet of "+S(d)+" does not join it to depression "+S(x.geolink));
        if(!x.ocean_parent&&!below[x.odep].count(x.geolink)) fail("geolink of "+S(d)+" lies outside its overflow neighbour");
        // cells below the outlet
        std::vector<char> in(n,0); std::vector<int> q; for(auto l:below[d]) if(t.z[deps[l].pit_cell]<oe&&!in[deps[l].pit_cell]){ in[deps[l].pit_cell]=1; q.push_back(deps[l].pit_cell); }
        for(size_t a=0;a<q.size();a++) t.nb(q[a],[&](int j){ if(!in[j]&&t.z[j]<oe){ in[j]=1; q.push_back(j); } });
        double vol=0; uint64_t cnt=0; for(int c=0;c<n;c++){ bool mine=below[d].count(label(c)); if(in[c]){ vol+=oe-t.z[c]; if(!mine) fail("cell "+S(c)+" below the outlet of "+S(d)+" is labelled elsewhere"); } else if(mine&&t.z[c]<oe) fail("cell "+S(c)+" of "+S(d)+" lies below its outlet but is not connected to its pit"); if(mine&&t.z[c]<=oe) cnt++; }
        if(x.cell_count!=cnt) fail("depression "+S(d)+" counts "+S(x.cell_count)+" cells, terrain has "+S(cnt));
        if(std::fabs(x.dep_vol-vol)>1e-11*std::max(1.0,std::fabs(oe)*cnt)) fail("depression "+S(d)+" volume "+S(x.dep_vol)+", terrain has "+S(vol));
        outcome(mix(mix(d,hbits(vol)),mix(cnt,x.parent)));
      }
      for(int c=0;c<n;c++) if(label(c)==OCEAN&&!oc[c]){ bool ok=false; int k=c; while(fd(k)!=NO_FLOW){ int dir=fd(k); k+=(d8?oy8[dir-1]:oy4[dir-1])*w+(d8?ox8[dir-1]:ox4[dir-1]); ok=oc[k]; } if(!ok) fail("ocean-labelled cell does not run to the ocean"); }
    }
  }
  if(!bad.empty()){ std::ostringstream o; o<<bad<<"\n "<<tn<<(d8?" D8":" D4")<<"\n dem "<<show(zin,w)<<"\n ocean "; for(char c:oc) o<<(int)c; o<<"\n labels "<<show(vals(label),w); violation(std::string("dh:")+(d8?"D8":"D4"),o.str()); }
  if(want_sample()&&w>3) sample(show(zin,w));
}
template<class T> void both(const Grid&g,int map,int kind,const char*tn){ auto m=ocean_mask(kind,g.w,g.h); one<T,Topology::D8>(g,map,m,tn); one<T,Topology::D4>(g,map,m,tn); }
int main(int c,char**v){
  const bool th=thorough();
  // every ocean pattern on every small terrain
  for(auto s:std::vector<std::pair<int,int>>{{1,1},{1,3},{3,1},{2,2},{2,3}}){ int w=s.first,h=s.second,n=w*h;
    suite("masks"+wh(w,h),ipow(3,n)*ipow(2,n),[=](uint64_t i){ Dig d(i); uint64_t m=d(ipow(2,n)); std::vector<char> oc(n); for(int k=0;k<n;k++) oc[k]=m>>k&1; auto g=full_grid(d.v,w,h,{0,1,2}); one<double,Topology::D8>(g,i%NMAP,oc,"double"); one<float,Topology::D4>(g,LOW,oc,"float"); }); }
  suite("masks3x3",ipow(2,9)*ipow(2,9),[=](uint64_t i){ Dig d(i); uint64_t m=d(512); std::vector<char> oc(9); for(int k=0;k<9;k++) oc[k]=m>>k&1; auto g=full_grid(d.v,3,3,{0,1}); one<double,Topology::D8>(g,MID,oc,"double"); });
  suite("single3x3",9*ipow(3,9),[=](uint64_t i){ Dig d(i); std::vector<char> oc(9,0); oc[d(9)]=1; auto g=full_grid(d.v,3,3,{0,1,2}); one<float,Topology::D8>(g,i%NMAP,oc,"float"); one<double,Topology::D4>(g,i%NMAP,oc,"double"); });
  for(int k=0;k<O_NKIND;k++){
    if(k==O_BORDER) terrain_suites("b/",[=](const Grid&g,uint64_t i){ both<double>(g,i%NMAP,k,"double"); },th?2:0,false);
    else if(k<=O_LEFT||k==O_TWO||th) terrain_suites("o"+std::to_string(k)+"/",[=](const Grid&g,uint64_t i){ both<float>(g,i%NMAP,k,"float"); },th?0:-1,false);
  }
  terrain_suites("int/",[](const Grid&g,uint64_t i){ both<int32_t>(g,i%2?LOW:MID,i/2%O_NKIND,"int32"); },-1,false);
  return mc::main(c,v);
}
