#include <richdem/common/communication.hpp>
#include "c23_spec.hpp"
struct Obj { int a=0; double b=0; std::string c; std::vector<int> d; template<class A> void serialize(A&ar){ ar(a,b,c,d); } };
static std::string allbytes(int s,int q){ std::string t; for(int i=0;i<256;i++) t+=(char)(i+s*7+q); return t; }
static const int NK=7;
// content of message q of sender s
static Obj mk(int s,int q){ Obj o; o.a=s*100+q; o.b=s+q/8.0-3; o.c=allbytes(s,q); for(int i=0;i<q;i++) o.d.push_back(i*s); return o; }
template<class F> static void payload(int k,int s,int q,F f){
  switch(k){
    case 0: { int a=s*1000+q-5; f(&a,(int*)nullptr); break; }
    case 1: { double a=s+q*0.1; std::string b=allbytes(s,q); f(&a,&b); break; }
    case 2: { std::vector<int> a(q*3,s); std::map<std::string,int> b{{"x "+std::to_string(s),q},{"",s}}; f(&a,&b); break; }
    case 3: { std::string a=allbytes(s,q)+" \n\t"; f(&a,(int*)nullptr); break; }
    case 4: { Obj a=mk(s,q); std::vector<double> b; f(&a,&b); break; }
    case 5: { std::vector<uint8_t> a(5000+s*100+q); for(size_t i=0;i<a.size();i++) a[i]=i*s+q; int b=q; f(&a,&b); break; }
    case 6: { char a=(char)(9+q+s); bool b=q&1; f(&a,&b); break; }
  }
}
static bool eq(const Obj&x,const Obj&y){ return x.a==y.a&&x.b==y.b&&x.c==y.c&&x.d==y.d; }
template<class T> static bool eq(const T&x,const T&y){ return x==y; }
template<class A> static void snd(const A*a,int*b,int d,int t,bool isend,std::vector<msg_type>&keep,bool nul){ if(isend){ keep.push_back(nul?CommPrepare(a,nullptr):CommPrepare(a,b)); CommISend(keep.back(),d,t); } else if(nul) CommSend(a,nullptr,d,t); else CommSend(a,b,d,t); }
template<class A,class B> static void snd(const A*a,B*b,int d,int t,bool isend,std::vector<msg_type>&keep,bool){ if(isend){ keep.push_back(CommPrepare(a,b)); CommISend(keep.back(),d,t); } else CommSend(a,b,d,t); }
extern "C" void c23_entry(const C23Spec*sp,C23Out*out){
  int c=0; char**v=nullptr; CommInit(&c,&v); CommBytesReset(); int me=CommRank(),n=CommSize(); std::vector<msg_type> keep; uint64_t es=0,er=0;
  if(CommBytesSent()||CommBytesRecv()) out->bad="counters not reset"; if(n!=sp->n) out->bad="CommSize";
  if(sp->bcast>=0){ int d=me==sp->bcast?4711:-1; CommBroadcast(&d,sp->bcast); if(d!=4711) out->bad="broadcast delivered "+std::to_string(d); }
  if(me){
    const auto&ks=sp->kinds[me]; for(size_t q=0;q<ks.size();q++){
      payload(ks[q],me,q,[&](auto*a,auto*b){ es+=CommPrepare(a,b).size(); snd(a,b,0,10*me+q,sp->isend,keep,b==nullptr); });
      if(sp->echo){ int t=CommGetTag(0); int a=0; std::string b; CommRecv(&a,&b,0); er+=4+8+b.size(); if(t!=77+me||a!=(int)q||b!=std::string(q,' ')) out->bad="echo to rank "+std::to_string(me)+" wrong"; }
    }
  } else {
    std::vector<size_t> next(n,0); size_t left=0; for(auto&k:sp->kinds) left+=k.size(); int step=0;
    while(left--){
      int from=-1; auto open=[&](int s){ return next[s]<sp->kinds[s].size(); };
      if(sp->recvmode==1) for(int s=n-1;s>0;s--){ if(open(s)) from=s; }
      if(sp->recvmode==2||(sp->recvmode==3&&step%2)) for(int s=1;s<n;s++) if(open(s)) from=s;
      step++;
      // the next message's kind is only known per sender, so all senders use the same kind sequence when receiving from anyone
      int k; if(from>0) k=sp->kinds[from][next[from]]; else { k=-1; for(int s=1;s<n;s++) if(open(s)) k=sp->kinds[s][next[s]]; }
      if(from>0){ int t=CommGetTag(from); if(t!=10*from+(int)next[from]) out->bad="tag "+std::to_string(t)+" from rank "+std::to_string(from); }
      int who=-1;
      auto chk=[&](auto*a,auto*b){ typedef typename std::remove_pointer<decltype(a)>::type A; typedef typename std::remove_pointer<decltype(b)>::type B; A ra{}; B rb{}; bool two=b!=nullptr; if(two) CommRecv(&ra,&rb,from); else CommRecv(&ra,nullptr,from);
        for(int s=1;s<n&&who<0;s++) if(open(s)&&(from<0||s==from)) payload(sp->kinds[s][next[s]],s,next[s],[&](auto*x,auto*y){ if constexpr(std::is_same<decltype(x),A*>::value&&std::is_same<decltype(y),B*>::value){ if(eq(*x,ra)&&(!two||eq(*y,rb))){ who=s; er+=CommPrepare(x,y).size(); } } }); };
      payload(k,0,0,chk);
      if(who<0){ out->bad="a message arrived that is no sender's next message (receive mode "+std::to_string(sp->recvmode)+")"; return; }
      out->got.push_back(std::to_string(who)+":"+std::to_string(next[who])); size_t q=next[who]++;
      if(sp->echo){ int a=q; std::string b(q,' '); es+=CommPrepare(&a,&b).size(); CommSend(&a,&b,who,77+who); }
    }
  }
  out->sent[me]=CommBytesSent(); out->recv[me]=CommBytesRecv(); out->expsent[me]=es; out->exprecv[me]=er; if(sp->isend) MPI_Barrier(MPI_COMM_WORLD); /* buffers stay until everything was received */ CommFinalize();
}
