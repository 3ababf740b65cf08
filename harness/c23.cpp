#include "../common/mpi_sched.hpp"
#include "c23_spec.hpp"
using namespace mc;
typedef void(*Entry)(const C23Spec*,C23Out*);
static std::string so(){ return std::string(getenv("MC_BDIR"))+"/rank.so"; }
static void one(uint64_t i,int n,std::vector<int> cnt,bool uniform){
  Dig d(i); C23Spec s; s.n=n; s.recvmode=d(4); s.isend=d(2); s.echo=d(2); s.bcast=(int)d(3)-1; s.kinds.resize(n); int mode=d(2),rev=d(2);
  if(uniform){ int a=d(7),b=d(7); for(int r=1;r<n;r++) for(int q=0;q<cnt[r-1];q++) s.kinds[r].push_back(a), (void)b; if(b!=a&&s.recvmode!=0&&s.recvmode!=3) for(int r=1;r<n;r++) for(size_t q=1;q<s.kinds[r].size();q+=2) s.kinds[r][q]=b; }
  if(s.bcast>=n) s.bcast=-1;
  states(); mpx::Run x; x.n=n; x.eager=mode==0; x.rev=rev; C23Out out; out.sent.assign(n,0); out.recv=out.expsent=out.exprecv=out.sent; uint64_t k=0; std::set<std::string> orders;
  std::ostringstream desc; desc<<n<<" ranks, receive mode "<<s.recvmode<<(s.isend?", non-blocking sends":"")<<(s.echo?", echoed":"")<<(mode?", synchronous":", buffered")<<", kinds"; for(int r=1;r<n;r++){ desc<<" ["; for(int q:s.kinds[r]) desc<<q; desc<<"]"; }
  x.body=[&](int r){ ((Entry)mpx::copy_of(so(),r,"c23_entry"))(&s,&out); };
  k=mpx::all(x,200000,[&](mpx::Run&x){ std::string bad=x.why; if(bad.empty()) bad=out.bad; 
    if(bad.empty()){ uint64_t ts=0,tr=0; for(int r=0;r<n;r++){ ts+=out.sent[r]; tr+=out.recv[r]; if(out.sent[r]!=out.expsent[r]) bad="rank "+std::to_string(r)+" counted "+std::to_string(out.sent[r])+" bytes sent, sent "+std::to_string(out.expsent[r]); if(out.recv[r]!=out.exprecv[r]) bad="rank "+std::to_string(r)+" counted "+std::to_string(out.recv[r])+" bytes received, received "+std::to_string(out.exprecv[r]); } if(bad.empty()&&ts!=tr) bad="sent and received totals differ"; }
    std::string o; for(auto&g:out.got) o+=g+" "; orders.insert(o); outcome(mix(out.recv[0],std::hash<std::string>()(o)));
    out=C23Out(); out.sent.assign(n,0); out.recv=out.expsent=out.exprecv=out.sent;
    if(!bad.empty()){ violation("comm:"+bad.substr(0,14),desc.str()+"\nmatches "+x.log+"\n"+bad); return false; } return true; });
  traces(k); if(k>1) nontrivial(); count("executions",k); if(orders.size()>1) count("programs_with_several_arrival_orders"); if(want_sample()&&k>2) sample(desc.str()+": "+std::to_string(k)+" executions, "+std::to_string(orders.size())+" arrival orders");
}
int main(int c,char**v){
  bool th=thorough(); const uint64_t per=4*2*2*3*2*2*49;
  std::vector<std::vector<int>> two{{1,0},{1,1},{2,1},{2,2},{1,3}}, three{{1,1,1},{2,1,1},{0,2,1}}; if(th){ two.push_back({3,3}); three.push_back({2,2,1}); three.push_back({2,2,2}); }
  for(int q=1;q<=3;q++) suite("one/"+std::to_string(q),per,[=](uint64_t i){ one(i,2,{q},true); });
  for(auto&t:two) suite("two/"+std::to_string(t[0])+std::to_string(t[1]),per,[=](uint64_t i){ one(i,3,t,true); });
  for(auto&t:three) suite("three/"+std::to_string(t[0])+std::to_string(t[1])+std::to_string(t[2]),per,[=](uint64_t i){ one(i,4,t,true); });
  if(th) suite("four/1111",per,[=](uint64_t i){ one(i,5,{1,1,1,1},true); });
  return mc::main(c,v);
}
