// C22: every operation sequence up to a depth on the elevation queues, radix heaps and disjoint sets, against plain models.
#include <mc.hpp>
#include <stdexcept>
#include <string>
#include <cstdint>
#include <iomanip>
#include <richdem/common/grid_cell.hpp>
#include <richdem/common/radix_heap.hpp>
#include <richdem/common/disjoint_dense_int_set.hpp>
using namespace mc;
static std::string S(long double v){ std::ostringstream o; o<<std::setprecision(17)<<v; return o.str(); }
template<class T> bool nan_(T v){ return v!=v; }
template<class T> bool less_(T a,T b){ return (nan_(a)&&!nan_(b))||a<b; }
template<class T> bool same_(T a,T b){ return (nan_(a)&&nan_(b))||a==b; }
template<class T> std::vector<T> alpha(){ if constexpr(std::is_floating_point<T>::value) return {std::numeric_limits<T>::quiet_NaN(),-std::numeric_limits<T>::infinity(),T(-1),T(-0.0),T(0),T(2)}; else return {std::numeric_limits<T>::lowest(),T(0),T(1),T(3),std::numeric_limits<T>::max()}; }
template<class T> const char*tn(){ return std::is_same<T,double>::value?"double":std::is_same<T,float>::value?"float":sizeof(T)==1?(std::is_signed<T>::value?"int8":"uint8"):sizeof(T)==2?(std::is_signed<T>::value?"int16":"uint16"):sizeof(T)==4?(std::is_signed<T>::value?"int32":"uint32"):std::is_signed<T>::value?"int64":"uint64"; }
// ---- elevation queues: kind 0 any minimum, 1 earliest of the minima, 2 latest of the minima
template<class T> struct Model { std::vector<std::pair<T,int>> v; int n=0; };
template<class Q,class T> static void queue_seq(uint64_t i,int len,int kind,const char*name){
  static const std::vector<T> A=alpha<T>(); const int k=A.size()+1; Q q; std::vector<std::pair<T,int>> m; int n=0; std::string ops,bad; Dig d(i); bool ties=false; states();
  auto take=[&](){ if(m.empty()){ return; } T lo=m[0].first; for(auto&e:m) if(less_(e.first,lo)) lo=e.first; int nt=0,first=-1,last=-1; for(auto&e:m) if(same_(e.first,lo)){ nt++; if(first<0||e.second<first) first=e.second; if(e.second>last) last=e.second; } if(nt>1) ties=true; auto t=q.top(); if(!same_((T)t.z,lo)) bad="returned "+S(t.z)+", lowest is "+S(lo); else { if(kind==1&&t.x!=first) bad="returned element "+std::to_string(t.x)+", the earliest is "+std::to_string(first); if(kind==2&&t.x!=last) bad="returned element "+std::to_string(t.x)+", the latest is "+std::to_string(last); if(t.y!=t.x*7) bad="coordinates mixed"; bool found=false; for(size_t j=0;j<m.size();j++) if(m[j].second==t.x&&same_(m[j].first,(T)t.z)){ m.erase(m.begin()+j); found=true; break; } if(!found) bad="returned an element it does not hold"; } q.pop(); ops+=" pop"; };
  for(int j=0;j<len&&bad.empty();j++){ int o=d(k); trans(); if(o<(int)A.size()){ q.emplace(n,n*7,A[o]); m.push_back({A[o],n}); n++; ops+=" "+S(A[o]); } else if(m.empty()) return; else take(); if(bad.empty()&&(q.size()!=m.size()||q.empty()!=m.empty())) bad="size"; }
  uint64_t h=0; while(bad.empty()&&!m.empty()){ h=mix(h,q.top().x); take(); } if(ties) nontrivial(); outcome(h); if(!bad.empty()) violation(std::string("queue:")+name,std::string(name)+" of "+tn<T>()+":"+ops+"\n"+bad); else if(want_sample()&&ties) sample(std::string(name)+":"+ops);
}
template<class T> static void queues(int len){ int k=alpha<T>().size()+1; std::string t=tn<T>();
  suite("zpq/"+t,ipow(k,len),[=](uint64_t i){ queue_seq<richdem::GridCellZ_pq<T>,T>(i,len,0,"GridCellZ_pq"); });
  suite("low/"+t,ipow(k,len),[=](uint64_t i){ queue_seq<richdem::GridCellZk_low_pq<T>,T>(i,len,1,"GridCellZk_low_pq"); });
  suite("high/"+t,ipow(k,len),[=](uint64_t i){ queue_seq<richdem::GridCellZk_high_pq<T>,T>(i,len,2,"GridCellZk_high_pq"); }); }
template<class T> static void compares(uint64_t i){ auto A=alpha<T>(); Dig d(i); T a=A[d(A.size())],b=A[d(A.size())]; richdem::GridCellZ<T> x(1,2,a),y(3,4,b); states(); trans(6); bool lt=less_(a,b),gt=less_(b,a),eq=same_(a,b); nontrivial(); std::string bad; if((x>y)!=gt) bad=">"; if constexpr(std::is_floating_point<T>::value){ if((x<y)!=lt) bad="<"; if((x>=y)!=(gt||eq)) bad=">="; if((x<=y)!=(lt||eq)) bad="<="; if((x==y)!=eq) bad="=="; if((x!=y)==eq) bad="!="; } outcome(lt+2*gt+4*eq); if(!bad.empty()) violation("compare",std::string("GridCellZ ")+tn<T>()+" "+S(a)+bad+S(b)); }
// more insertions than fit in 31 bits
template<class Q> static void longrun(bool late,uint64_t n,const char*name){ Q q; states(); nontrivial(); for(uint64_t i=0;i<n;i++){ q.emplace(0,0,0); q.pop(); if((i&0xfffffff)==0) beat(); } for(int j=0;j<6;j++) q.emplace(j,0,1); for(int j=0;j<6;j++){ int w=late?5-j:j; if(q.top().x!=w){ violation(std::string("longrun:")+name,std::string(name)+": after "+std::to_string(n)+" insertions, equally high cells come out in the wrong order: "+std::to_string(q.top().x)+" instead of "+std::to_string(w)); return; } q.pop(); } trans(n+6); }
// ---- radix heaps: keys never below the last minimum taken
template<class K> std::vector<K> keys(){ if constexpr(std::is_floating_point<K>::value) return {-std::numeric_limits<K>::infinity(),K(-2.5),K(0),K(1e-3),K(1),K(1.5),std::numeric_limits<K>::infinity()}; else if(std::is_signed<K>::value) return {std::numeric_limits<K>::lowest(),K(-3),K(-1),K(0),K(2),K(5),std::numeric_limits<K>::max()}; else return {K(0),K(1),K(2),K(4),K(7),K(std::numeric_limits<K>::max()/2+1),std::numeric_limits<K>::max()}; }
enum { MIN=7,TOP,POP,CLEAR,SWAP,EXTRA,NOP_ };
template<class K> static void pair_seq(uint64_t i,int len){
  static const std::vector<K> A=keys<K>(); radix_heap::pair_radix_heap<K,int> h[2]; std::vector<std::pair<K,int>> m[2]; K floor[2]={std::numeric_limits<K>::lowest(),std::numeric_limits<K>::lowest()}; if(std::is_floating_point<K>::value) floor[0]=floor[1]=A[0]; int c=0,n=0; Dig d(i); std::string ops,bad; bool popped=false; states();
  for(int j=0;j<len&&bad.empty();j++){ int o=d(NOP_); trans(); auto&v=m[c]; auto&q=h[c];
    auto lo=[&](){ K k=v[0].first; for(auto&e:v) k=std::min(k,e.first); return k; };
    if(o<7){ if(A[o]<floor[c]) return; if(n&1) q.push(A[o],n); else if(n&2) q.emplace(A[o],n); else { int t=n; q.push(A[o],std::move(t)); } v.push_back({A[o],n}); n++; ops+=" push("+S(A[o])+")"; }
    else if(o==MIN){ if(v.empty()) return; ops+=" min"; K g=q.min_key(); if(g!=lo()) bad="min_key() = "+S(g)+", holds "+S(lo()); }
    else if(o==TOP){ if(v.empty()) return; ops+=" top"; K g=q.top_key(); int val=q.top_value(); if(g!=lo()) bad="top_key() = "+S(g)+", holds "+S(lo()); bool f=false; for(auto&e:v) if(e.second==val&&e.first==g) f=true; if(!f&&bad.empty()) bad="top_value() "+std::to_string(val)+" does not go with key "+S(g); floor[c]=g; }
    else if(o==POP){ if(v.empty()) return; ops+=" pop"; K g=lo(); int val=q.top_value(); bool f=false; for(size_t a=0;a<v.size();a++) if(v[a].second==val&&v[a].first==g){ v.erase(v.begin()+a); f=true; break; } if(!f) bad="would pop value "+std::to_string(val)+", not one of the minima"; q.pop(); floor[c]=g; popped=true; }
    else if(o==CLEAR){ ops+=" clear"; q.clear(); v.clear(); floor[c]=std::is_floating_point<K>::value?A[0]:std::numeric_limits<K>::lowest(); }
    else if(o==SWAP){ ops+=" swap"; h[0].swap(h[1]); std::swap(m[0],m[1]); std::swap(floor[0],floor[1]); if(n%3==2) c^=1; }
    else { if(v.empty()) return; K g=lo(); floor[c]=g; std::vector<int> want,got; for(auto&e:v) if(e.first==g) want.push_back(e.second); if(n&1){ ops+=" extract"; for(auto&e:q.extract_top_values()) got.push_back(e.second); } else { ops+=" poptop"; q.top_value(); q.pop_top_values(); got=want; } std::sort(got.begin(),got.end()); std::sort(want.begin(),want.end()); if(got!=want) bad="top values"; v.erase(std::remove_if(v.begin(),v.end(),[&](auto&e){ return e.first==g; }),v.end()); popped=true; }
    for(int b=0;b<2;b++) if(bad.empty()&&(h[b].size()!=m[b].size()||h[b].empty()!=m[b].empty())) bad="size "+std::to_string(h[b].size())+", holds "+std::to_string(m[b].size()); }
  if(popped) nontrivial(); uint64_t hh=0; for(int b=0;b<2&&bad.empty();b++) while(!m[b].empty()&&bad.empty()){ K g=m[b][0].first; for(auto&e:m[b]) g=std::min(g,e.first); if(h[b].min_key()!=g) bad="draining: min_key()"; if(h[b].top_key()!=g) bad="draining: "+S(h[b].top_key())+" instead of "+S(g); int val=h[b].top_value(); bool f=false; for(size_t a=0;a<m[b].size();a++) if(m[b][a].second==val&&m[b][a].first==g){ m[b].erase(m[b].begin()+a); f=true; break; } if(!f) bad="draining: wrong value"; hh=mix(hh,val); h[b].pop(); }
  outcome(hh); if(!bad.empty()) violation("pair_radix_heap",std::string("pair_radix_heap<")+tn<K>()+">"+ops+"\n"+bad); else if(want_sample()&&popped) sample(std::string(tn<K>())+ops);
}
template<class K> static void heap_seq(uint64_t i,int len){
  static const std::vector<K> A=keys<K>(); radix_heap::radix_heap<K> h[2]; std::vector<K> m[2]; K lowk=std::is_floating_point<K>::value?A[0]:std::numeric_limits<K>::lowest(); K floor[2]={lowk,lowk}; Dig d(i); std::string ops,bad; bool popped=false; states();
  for(int j=0;j<len&&bad.empty();j++){ int o=d(12); trans(); auto&v=m[0]; auto&q=h[0]; auto lo=[&](){ return *std::min_element(v.begin(),v.end()); };
    if(o<7){ if(A[o]<floor[0]) return; q.push(A[o]); v.push_back(A[o]); ops+=" push("+S(A[o])+")"; }
    else if(o==MIN){ if(v.empty()) return; ops+=" min"; K g=q.min(); if(g!=lo()) bad="min() = "+S(g)+", holds "+S(lo()); }
    else if(o==TOP){ if(v.empty()) return; ops+=" top"; K g=q.top(); if(g!=lo()) bad="top() = "+S(g)+", holds "+S(lo()); floor[0]=g; }
    else if(o==POP){ if(v.empty()) return; ops+=" pop"; floor[0]=lo(); v.erase(std::min_element(v.begin(),v.end())); q.pop(); popped=true; }
    else if(o==CLEAR){ ops+=" clear"; q.clear(); v.clear(); floor[0]=lowk; }
    else { ops+=" swap"; h[0].swap(h[1]); std::swap(m[0],m[1]); std::swap(floor[0],floor[1]); }
    for(int b=0;b<2;b++) if(bad.empty()&&(h[b].size()!=m[b].size()||h[b].empty()!=m[b].empty())) bad="size"; }
  if(popped) nontrivial(); uint64_t hh=0; for(int b=0;b<2&&bad.empty();b++) while(!m[b].empty()&&bad.empty()){ auto it=std::min_element(m[b].begin(),m[b].end()); K g=*it; if(h[b].min()!=g) bad="draining: min() = "+S(h[b].min())+", holds "+S(g); else if(h[b].top()!=g) bad="draining: top() = "+S(h[b].top())+", holds "+S(g); h[b].pop(); m[b].erase(it); hh=mix(hh,hbits((double)g)); }
  outcome(hh); if(!bad.empty()) violation("radix_heap",std::string("radix_heap<")+tn<K>()+">"+ops+"\n"+bad);
}
template<class K> static void heaps(int lp,int ls){ std::string t=tn<K>(); suite("pair/"+t,ipow(NOP_,lp),[=](uint64_t i){ pair_seq<K>(i,lp); }); suite("radix/"+t,ipow(12,ls),[=](uint64_t i){ heap_seq<K>(i,ls); }); }
// ---- disjoint sets
static void dsu(uint64_t i,int N,int len,bool pre){
  DisjointDenseIntSet s=pre?DisjointDenseIntSet(N-1):DisjointDenseIntSet(); int size=pre?N-1:0; std::vector<int> set(N),rep(N); for(int a=0;a<N;a++) set[a]=rep[a]=a; /* set id, representative per set id; -1: may be either */ Dig d(i); std::string ops,bad; bool merged=false; const int k=3*N*N+2*N; states();
  auto fuse=[&](int a,int b,int r){ int x=set[a],y=set[b]; for(auto&q:set) if(q==x) q=y; rep[y]=r; };
  auto ask=[&](unsigned a)->int{ unsigned r=s.findSet(a); if(r>=(unsigned)size||set[r]!=set[a]) { bad="findSet("+std::to_string(a)+") = "+std::to_string(r)+", not a member of its set"; return 0; } int&w=rep[set[a]]; if(w==-1) w=r; if((unsigned)w!=r) bad="findSet("+std::to_string(a)+") = "+std::to_string(r)+", representative is "+std::to_string(w); return r; };
  for(int j=0;j<len&&bad.empty();j++){ int o=d(k); trans();
    if(o<N*N){ int a=o%N,b=o/N; bool fit=a<size&&b<size; ops+=" union("+std::to_string(a)+","+std::to_string(b)+")"; bool t=false; try{ s.unionSet(a,b); }catch(const std::runtime_error&){ t=true; } if(t==fit) bad=t?"refused":"accepted an unknown set"; if(fit&&set[a]!=set[b]){ merged=true; int ra=rep[set[a]],rb=rep[set[b]]; fuse(a,b,-1); unsigned r=s.findSet(a); if((ra!=-1&&rb!=-1)&&(int)r!=ra&&(int)r!=rb) bad="the union's representative is neither set's"; } }
    else if(o<2*N*N){ o-=N*N; int a=o%N,b=o/N; ops+=" merge("+std::to_string(a)+","+std::to_string(b)+")"; size=std::max(size,std::max(a,b)+1); int rb=rep[set[b]]; s.mergeAintoB(a,b); if(set[a]!=set[b]){ fuse(a,b,rb); merged=true; } }
    else if(o<3*N*N){ o-=2*N*N; int a=o%N,b=o/N; if(a>=size||b>=size) return; if(a>b) return; ops+=" same("+std::to_string(a)+","+std::to_string(b)+")"; bool g=s.sameSet(a,b); if(g!=(set[a]==set[b])) bad="sameSet answers "+std::to_string(g); }
    else if(o<3*N*N+N){ int a=o-3*N*N; ops+=" find("+std::to_string(a)+")"; if(a>=size){ bool t=false; try{ s.findSet(a); }catch(const std::runtime_error&){ t=true; } if(!t) bad="findSet of an unknown set"; } else ask(a); }
    else { int a=o-3*N*N-N; ops+=" make("+std::to_string(a)+")"; s.makeSet(a); size=std::max(size,a+1); }
    if(bad.empty()&&size>0&&s.maxElement()!=(unsigned)size-1) bad="maxElement"; }
  for(int a=0;a<size&&bad.empty();a++){ ask(a); for(int b=0;b<size&&bad.empty();b++) if(s.sameSet(a,b)!=(set[a]==set[b])) bad="at the end sameSet("+std::to_string(a)+","+std::to_string(b)+") = "+std::to_string(s.sameSet(a,b)); }
  if(merged) nontrivial(); uint64_t h=0; for(int a=0;a<N;a++) h=mix(h,set[a]*8+rep[set[a]]); outcome(h); if(!bad.empty()) violation("dsu:"+bad.substr(0,8),"DisjointDenseIntSet"+ops+"\n"+bad); else if(want_sample()&&merged) sample(ops);
}
int main(int c,char**v){ bool th=thorough();
  queues<double>(th?8:6); queues<float>(th?7:6); queues<int32_t>(th?8:7); queues<uint8_t>(th?7:6); queues<int16_t>(th?7:6); queues<uint64_t>(th?7:6);
  suite("cmp/double",36,compares<double>); suite("cmp/float",36,compares<float>); suite("cmp/int",25,compares<int>);
  suite("longrun",2,[=](uint64_t i){ if(i) longrun<richdem::GridCellZk_high_pq<int16_t>>(true,2147483644ull,"GridCellZk_high_pq"); else longrun<richdem::GridCellZk_low_pq<int16_t>>(false,2147483644ull,"GridCellZk_low_pq"); });
  int p=th?6:5; heaps<double>(p,p+1); heaps<float>(p,p); heaps<int32_t>(p,p); heaps<uint8_t>(p,p); heaps<int16_t>(p,p); heaps<uint64_t>(p,p); heaps<int64_t>(p,p); heaps<int8_t>(p,p); heaps<uint16_t>(p,p); heaps<uint32_t>(p,p);
  for(int pre=0;pre<2;pre++){ for(int l=1;l<=3;l++) suite("dsu4/"+std::to_string(l)+(pre?"p":"e"),ipow(56,l),[=](uint64_t i){ dsu(i,4,l,pre); }); suite(std::string("dsu3/4")+(pre?"p":"e"),ipow(33,4),[=](uint64_t i){ dsu(i,3,4,pre); }); suite(std::string("dsu2/6")+(pre?"p":"e"),ipow(16,6),[=](uint64_t i){ dsu(i,2,6,pre); }); if(th||pre) suite(std::string("dsu4/4")+(pre?"p":"e"),ipow(56,4),[=](uint64_t i){ dsu(i,4,4,pre); }); if(th){ suite(std::string("dsu3/5")+(pre?"p":"e"),ipow(33,5),[=](uint64_t i){ dsu(i,3,5,pre); }); suite(std::string("dsu5/4")+(pre?"p":"e"),ipow(85,4),[=](uint64_t i){ dsu(i,5,4,pre); }); } }
  return mc::main(c,v);
}
