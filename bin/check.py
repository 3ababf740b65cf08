#!/usr/bin/env python3
"""Driver: check.py <PROPERTY> [quick|thorough]

Builds the property's harnesses from /repo's working tree, explores every case
of every suite on all cores, replays what failed, writes the evidence file and
prints VIOLATION / KNOWN-FINDING lines.
"""
import sys, os, json, subprocess, hashlib, time, shutil, signal, tempfile, concurrent.futures as cf
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE); REPO=os.environ.get("VERIF_REPO","/repo")
sys.path.insert(0,HERE)
import checks_conf

def log(*a): print(*a,flush=True)

def tree_hash(paths):
    h=hashlib.sha256()
    for p in paths:
        if os.path.isfile(p): files=[p]
        else: files=sorted(os.path.join(d,f) for d,_,fs in os.walk(p) for f in fs if not f.endswith((".pyc",)))
        for f in files:
            h.update(f.encode()); 
            try: h.update(open(f,"rb").read())
            except OSError: pass
    return h.hexdigest()[:16]

_repo_hash=None
def repo_hash():
    global _repo_hash
    if _repo_hash is None:
        _repo_hash=tree_hash([os.path.join(REPO,d) for d in ("include","src","programs","apps","wrappers")])
    return _repo_hash

def sh(cmd,**kw):
    return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**kw)

class BuildError(Exception): pass

def build(b,bdir):
    """b: dict(name, srcs, flags, libs, cxx). Returns the path of the binary."""
    os.makedirs(bdir,exist_ok=True)
    if "script" in b: return b["script"].replace("{VERIF}",VERIF)
    cxx=b.get("cxx","g++")
    flags=[f.replace("{REPO}",REPO).replace("{VERIF}",VERIF) for f in b.get("flags",[])]
    if "{PYBIND}" in flags: i=flags.index("{PYBIND}"); flags[i:i+1]=sh(["/usr/bin/python3","-m","pybind11","--includes"]).stdout.split()
    libs=[f.replace("{REPO}",REPO).replace("{VERIF}",VERIF) for f in b.get("libs",[])]
    srcs=[s.replace("{REPO}",REPO).replace("{VERIF}",VERIF) for s in b["srcs"]]
    key=hashlib.sha256(json.dumps([cxx,flags,libs,srcs]).encode()).hexdigest()[:12]+repo_hash()+tree_hash([VERIF+"/common",VERIF+"/harness"])
    exe=os.path.join(bdir,b["name"]); stamp=exe+".stamp"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read()==key: return exe
    if b.get("each"): # one shared object per source
        def one(s): return sh([cxx]+flags+["-shared",s,"-o",os.path.join(bdir,os.path.splitext(os.path.basename(s))[0]+".so")]+libs)
        with cf.ThreadPoolExecutor(8) as ex:
            for s,r in zip(srcs,ex.map(one,srcs)):
                if r.returncode: raise BuildError(s+"\n"+r.stdout[-6000:])
        open(exe,"w").close(); open(stamp,"w").write(key); return exe
    objs=[]; jobs=[]
    for i,s in enumerate(srcs):
        d=None
        if isinstance(s,str) and "::" in s: s,d=s.split("::",1)
        o="%s.%d.o"%(exe,i); objs.append(o)
        jobs.append([cxx]+flags+(d.split() if d else [])+["-c",s,"-o",o])
    with cf.ThreadPoolExecutor(8) as ex:
        for cmd,r in zip(jobs,ex.map(lambda c: sh(c),jobs)):
            if r.returncode: raise BuildError(" ".join(cmd)+"\n"+r.stdout[-6000:])
    lf=[f for f in flags if f.startswith("-fsanitize") or f in("-fopenmp","-static-libasan")]
    if b.get("no_omp_link"): lf=[f for f in lf if f!="-fopenmp" and f!="-fsanitize=thread"]
    shared=["-shared"] if b.get("shared") else []
    r=sh([cxx]+lf+shared+b.get("ldflags",[])+objs+["-o",exe]+libs)
    if r.returncode: raise BuildError("link: "+r.stdout[-6000:])
    for o in objs: os.unlink(o)
    open(stamp,"w").write(key)
    return exe

def read_progress(p):
    import struct
    try: return struct.unpack("QQQ",open(p,"rb").read(24))
    except Exception: return (0,0,0)

class Shard: pass

def explore(exe,b,tier,wd,nshards):
    env=dict(os.environ); env["VERIF_TIER"]=tier; env.setdefault("VERIF_SEED","1")
    env["OMP_NUM_THREADS"]=str(b.get("omp",1)); env["MC_SCRATCH"]=wd
    env["ASAN_OPTIONS"]="detect_leaks=0:abort_on_error=1:allocator_may_return_null=0"+":symbolize=0:hard_rss_limit_mb=3500:max_allocation_size_mb=3500"+b.get("asan","")
    env["UBSAN_OPTIONS"]="halt_on_error=1:abort_on_error=1:print_stacktrace=0"
    for k,v in b.get("env",{}).items(): env[k]=v.replace("{WD}",wd)
    mem=b.get("mem",0 if any("fsanitize=address" in f for f in b.get("flags",[])) else 3500)
    suites=[l.rsplit(" ",1) for l in sh([exe,"list"],env=env).stdout.split("\n") if l.strip()]
    names=[s[0] for s in suites]
    hang=b.get("hang",60)
    shards=[]
    for i in range(nshards):
        s=Shard(); s.i=i; s.out=os.path.join(wd,"%s.out.%d"%(b["name"],i)); s.prog=os.path.join(wd,"%s.prog.%d"%(b["name"],i)); s.done=False; s.last=None; s.t=time.time(); s.err=os.path.join(wd,"%s.err.%d"%(b["name"],i))
        if os.path.exists(s.out): os.unlink(s.out)
        sd=os.path.join(wd,"s%d"%i); os.makedirs(sd,exist_ok=True)
        e=dict(env); e["MC_SHARD_DIR"]=sd
        s.p=subprocess.Popen([exe,"run","--shard",str(i),"--n",str(nshards),"--out",s.out,"--progress",s.prog,"--mem",str(mem)],env=e,stdout=subprocess.DEVNULL,stderr=open(s.err,"w"),cwd=sd,start_new_session=True)
        shards.append(s)
    fails=[]; results=[]
    pending=list(shards)
    while pending:
        time.sleep(0.1)
        for s in list(pending):
            rc=s.p.poll()
            if rc is None:
                pr=read_progress(s.prog)
                if pr!=s.last: s.last=pr; s.t=time.time()
                elif time.time()-s.t>hang:
                    os.killpg(s.p.pid,signal.SIGKILL); s.p.wait(); pending.remove(s)
                    fails.append(("hang",pr,None,s))
                continue
            pending.remove(s)
            if rc==0 and os.path.exists(s.out): results.append(json.load(open(s.out)))
            else: fails.append(("crash",read_progress(s.prog),rc,s))
    ks={s for p,s,w in load_known()}; had=any(v["sig"] not in ks for r in results for v in r["violations"]); viols=[]
    for kind,pr,rc,s in fails:
        name=names[pr[0]] if pr[0]<len(names) else "?"
        if had or any(v and v["sig"] not in ks for v in viols): log("note: shard %d also failed (%s at %s #%d); one confirmed failure is enough"%(s.i,kind,name,pr[1])); continue
        # replay alone before reporting
        sd=os.path.join(wd,"r%d"%s.i); os.makedirs(sd,exist_ok=True)
        e=dict(env); e["MC_SHARD_DIR"]=sd; e["MC_STDERR"]="1"
        out=os.path.join(sd,"replay.json")
        try:
            r=subprocess.run([exe,"replay","--suite",name,"--idx",str(pr[1]),"--out",out,"--mem",str(mem)],env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",timeout=hang*3,cwd=sd)
            if kind=="hang" and r.returncode in(0,1):
                if r.returncode==1: viols+=json.load(open(out))["violations"]
                else: log("note: shard stalled at %s #%d but the case ends when replayed alone; rerunning shard"%(name,pr[1])); viols.append(None)
                continue
            if r.returncode not in (0,1) or not os.path.exists(out):
                viols.append(dict(sig="crash@"+name,suite=name,idx=pr[1],detail="the process died (status %s, replay status %s)\n%s"%(rc,r.returncode,r.stdout[-1500:])))
            elif r.returncode==1: viols+=json.load(open(out))["violations"]
            else:
                # depends on earlier cases of the shard: rerun the shard once
                sd2=os.path.join(wd,"s%d"%s.i); e["MC_SHARD_DIR"]=sd2
                r2=subprocess.run([exe,"run","--shard",str(s.i),"--n",str(nshards),"--out",s.out,"--progress",s.prog,"--mem",str(mem)],env=e,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,text=True,errors="replace",cwd=sd2,timeout=800)
                if r2.returncode==0: results.append(json.load(open(s.out)))
                else: viols.append(dict(sig="crash@"+name,suite=name,idx=pr[1],detail="the shard died (status %s, again %s)\n%s"%(rc,r2.returncode,r2.stderr[-1500:])))
        except subprocess.TimeoutExpired:
            viols.append(dict(sig="hang@"+name,suite=name,idx=pr[1],detail="the case does not end (limit %d s, replayed alone with %d s)"%(hang,hang*3)))
    if None in viols:
        raise RuntimeError("a shard stalled without a reproducible case")
    for r in results: viols+=r["violations"]
    return results,viols,suites

def load_known():
    p=os.path.join(VERIF,"known_findings.txt"); known=[]; 
    if os.path.exists(p):
        for l in open(p):
            l=l.strip()
            if l.startswith("KNOWN-FINDING:"):
                f=l[len("KNOWN-FINDING:"):].strip(); prop=f.split()[0].split("=")[1]; sig=f.split("sig=",1)[1].split(" :: ")[0].strip(); what=f.split(" :: ",1)[1]
                known.append((prop,sig,what))
    return known

def main():
    prop=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get("VERIF_TIER","quick")
    os.environ["VERIF_TIER"]=tier
    conf=checks_conf.CHECKS[prop]; t0=time.time()
    bdir=os.path.join(VERIF,".build",prop); os.makedirs(bdir,exist_ok=True)
    # scratch on tmpfs when there is room, else under .build
    base="/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm",os.W_OK) else bdir
    wd=tempfile.mkdtemp(prefix="mc_%s_"%prop,dir=base)
    nsh=int(os.environ.get("VERIF_JOBS","8"))
    builds=[b for b in conf["builds"] if tier in b.get("tiers",("quick","thorough"))]
    agg=dict(states=0,transitions=0,traces=0,nontrivial=0,cases=0); suites={}; counters={}; samples=[]; outc=set(); capped=False; viols=[]
    known=[(s,w) for p,s,w in load_known() if p==prop]
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            exes=list(ex.map(lambda b: build(b,bdir),builds))
        tb=time.time()-t0
        seen_suites=[]
        for b,exe in zip(builds,exes):
            if b.get("support"): continue
            os.environ["MC_BDIR"]=bdir
            if "runner" in b:
                res,v,sl=b["runner"](exe,b,tier,wd,nsh)
            else:
                res,v,sl=explore(exe,b,tier,wd,b.get("shards",nsh))
            for x in v: x["build"]=b["name"]
            viols+=v; seen_suites+=[(b["name"],)+tuple(s) for s in sl]
            for r in res:
                for k in agg: agg[k]+=r[k]
                for k,n in r["suites"].items(): suites[b["name"]+":"+k]=suites.get(b["name"]+":"+k,0)+n
                for k,n in r["counters"].items(): counters[k]=counters.get(k,0)+n
                if len(samples)<8: samples+=r["samples"][:2]
                outc.update(r["outcomes"]); capped|=r["outcomes_capped"]
    except BuildError as e:
        log("BUILD-ERROR",e); return 2
    finally:
        shutil.rmtree(wd,ignore_errors=True)
    # partition
    ksig=dict(known); hit={}; new=[]
    for v in viols:
        if v["sig"] in ksig: hit[v["sig"]]=v
        else: new.append(v)
    exhaustive=all(suites.get(n+":"+s,0)==int(c) for n,s,c in seen_suites)
    ev=dict(property=prop,tier=tier,seed=int(os.environ.get("VERIF_SEED","1")),level=conf.get("level","model_checking"),
      coverage=dict(states=agg["states"],transitions=agg["transitions"],traces_validated_against_impl=agg["traces"],
        evaluations=agg["cases"],distinct_nontrivial=agg["nontrivial"],distinct_outcomes=len(outc),distinct_outcomes_is_lower_bound=capped,
        rule=conf["rule"],samples=samples[:8],exhaustive=exhaustive,suites=suites,counters=counters),
      assumptions=conf.get("assumptions",[]),wall_s=round(time.time()-t0,1),violations=len(new))
    os.makedirs(os.path.join(VERIF,"evidence"),exist_ok=True)
    json.dump(ev,open(os.path.join(VERIF,"evidence",prop+".json"),"w"),indent=1)
    log("%s %s: cases=%d states=%d transitions=%d traces=%d nontrivial=%d outcomes=%d%s build=%.0fs wall=%.0fs"%(prop,tier,agg["cases"],agg["states"],agg["transitions"],agg["traces"],agg["nontrivial"],len(outc),"+" if capped else "",tb,time.time()-t0))
    for s,w in known:
        log("KNOWN-FINDING: property=%s sig=%s %s%s"%(prop,s,w,"" if s in hit else " (not reproduced in this run)"))
    if new:
        rd=os.path.join(VERIF,"replays"); os.makedirs(rd,exist_ok=True)
        seen=set()
        for v in new:
            if v["sig"] in seen: continue
            seen.add(v["sig"])
            if len(seen)>12: break
            rp=os.path.join(rd,"%s_%s.json"%(prop,hashlib.sha256((v["sig"]+v["suite"]).encode()).hexdigest()[:8]))
            json.dump(dict(property=prop,tier=tier,build=v.get("build"),suite=v["suite"],idx=v["idx"],sig=v["sig"],detail=v["detail"],
              how="python3 /verif/bin/replay.py "+rp),open(rp,"w"),indent=1)
            log("VIOLATION property=%s replay=%s"%(prop,rp)); log("  sig=%s suite=%s idx=%s\n  %s"%(v["sig"],v["suite"],v["idx"],v["detail"][:1500].replace("\n","\n  ")))
        return 1
    if not exhaustive:
        log("INCOMPLETE: a suite was not fully enumerated"); return 2
    return 0

if __name__=="__main__": sys.exit(main())
