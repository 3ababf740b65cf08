"""The explorer of common/mc.hpp for harnesses written in Python: a suite is a finite
indexed space, every index of every suite is executed and judged, sharded over processes."""
import sys,os,json,mmap,struct,traceback,resource
class G: pass
G=G()
G.suites=[]; G.states=G.transitions=G.traces=G.nontrivial=G.cases=0; G.suite_cases={}; G.counters={}; G.outcomes=set(); G.capped=False
G.samples=[]; G.viol=[]; G.viol_count={}; G.cur="" ; G.idx=0; G.replay=False; G.nt=False; G.prog=None; G.beats=0; G.say=None
def thorough(): return os.environ.get("VERIF_TIER")=="thorough"
def suite(name,count,fn): G.suites.append((name,int(count),fn))
def violation(sig,detail):
    if os.environ.get("MC_FIRST") and not G.replay: os._exit(99)
    n=G.viol_count[sig]=G.viol_count.get(sig,0)+1
    if G.replay: G.say.write("REPLAY-VIOLATION sig=%s\n%s\n"%(sig,detail)); G.say.flush()
    if n<=2 and len(G.viol)<200: G.viol.append(dict(sig=sig,suite=G.cur,idx=G.idx,detail=str(detail)))
def states(n=1): G.states+=n
def trans(n=1): G.transitions+=n
def traces(n=1): G.traces+=n
def nontrivial(): G.nt=True
def count(k,n=1): G.counters[k]=G.counters.get(k,0)+n
def outcome(h):
    h&=(1<<64)-1
    if len(G.outcomes)<150000: G.outcomes.add(h)
    else: G.capped=True
def sample(s):
    if len(G.samples)<4: G.samples.append("%s#%d: %s"%(G.cur,G.idx,s))
class Dig:
    def __init__(s,i): s.v=i
    def __call__(s,r): d=s.v%r; s.v//=r; return d
    def of(s,l): return l[s(len(l))]
def write_result(p):
    json.dump(dict(cases=G.cases,states=G.states,transitions=G.transitions,traces=G.traces,nontrivial=G.nontrivial,outcomes_capped=G.capped,suites=G.suite_cases,counters=G.counters,viol_count=G.viol_count,samples=G.samples,violations=G.viol,outcomes=list(G.outcomes)),open(p,"w"))
def run_case(k,i):
    name,_,fn=G.suites[k]; G.cur=name; G.idx=i; G.cases+=1; G.nt=False
    if G.prog is not None: G.beats+=1; G.prog[0:24]=struct.pack("QQQ",k,i,G.beats)
    try: fn(i)
    except Exception as e: violation("exception@"+name,"uncaught exception: %r\n%s"%(e,traceback.format_exc()[-1200:]))
    if G.nt: G.nontrivial+=1
def main():
    a=sys.argv; mode=a[1] if len(a)>1 else "list"
    def arg(n,d): return a[a.index(n)+1] if n in a else d
    G.say=os.fdopen(os.dup(1),"w")
    if mode=="list":
        for n,c,_ in G.suites: G.say.write("%s %d\n"%(n,c))
        G.say.flush(); return 0
    if not os.environ.get("MC_NOISY"):
        dn=os.open("/dev/null",os.O_WRONLY); os.dup2(dn,1)
        if not os.environ.get("MC_STDERR"): os.dup2(dn,2)
    m=int(arg("--mem","0"))
    if m: resource.setrlimit(resource.RLIMIT_AS,(m<<20,m<<20))
    resource.setrlimit(resource.RLIMIT_CORE,(0,0))
    pf=arg("--progress","")
    if pf:
        fd=os.open(pf,os.O_RDWR|os.O_CREAT,0o644); os.ftruncate(fd,24); G.prog=mmap.mmap(fd,24); os.close(fd)
    if mode=="replay":
        G.replay=True; sn=arg("--suite",""); found=False
        for k,s in enumerate(G.suites):
            if s[0]==sn: found=True; run_case(k,int(arg("--idx","0")))
        if arg("--out",""): write_result(arg("--out",""))
        G.say.write("replayed %s #%s: %d violation(s)\n"%(sn,arg("--idx","0"),len(G.viol))); G.say.flush()
        return 3 if not found else (1 if G.viol else 0)
    sh=int(arg("--shard","0")); n=int(arg("--n","1")); only=arg("--only","")
    for k,(name,c,_) in enumerate(G.suites):
        if only and only not in name: continue
        before=G.cases
        for i in range((sh+n-k%n)%n,c,n): run_case(k,i)
        G.suite_cases[name]=G.suite_cases.get(name,0)+G.cases-before
    write_result(arg("--out","/dev/null"))
    return 0
