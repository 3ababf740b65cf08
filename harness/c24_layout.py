#!/usr/bin/python3
# C24, layout programs: every grid of present and missing tiles, every ending and spacing, each real script executed.
import os,sys,io,contextlib,shutil
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","common"))
import mcpy as mc
REPO=os.environ.get("VERIF_REPO","/repo"); SC=os.environ.get("MC_SCRATCH","/dev/shm"); W=os.path.join(SC,"lay%d"%os.getpid())
CODE={n:compile(open("%s/apps/rd_layout_%s.py"%(REPO,n)).read(),n,"exec") for n in("check","display","find_square")}
def run(n,*args):
    out=io.StringIO(); old=sys.argv; sys.argv=["rd_layout_"+n]+list(args); rc=0
    try:
        with contextlib.redirect_stdout(out),contextlib.redirect_stderr(out): exec(CODE[n],{"__name__":"__main__"})
    except SystemExit as e: rc=0 if e.code is None else e.code if isinstance(e.code,int) else 1
    finally: sys.argv=old
    mc.trans(); return rc,out.getvalue()
def num(t,k):
    l=[x for x in t.split("\n") if x.startswith(k)]
    return l[0].split(":")[1].strip() if len(l)==1 else repr(l)
# style 0: as LayoutfileWriter writes; 1: no final newline; 2: spaces around names and for missing tiles; 3: CR LF; 4: one name used twice, 5: one file missing
def grid(w,h,bits): return [["t%d_%d.tif"%(y,x) if bits>>(y*w+x)&1 else "" for x in range(w)] for y in range(h)]
def write(p,g,style):
    sep="\r\n" if style==3 else "\n"
    if style==2: g=[[" "+c+" " for c in r] for r in g]
    s=sep.join(",".join(r) for r in g)+("" if style==1 else sep)
    open(p,"w",newline="").write(s)
def largest(g):
    w=len(g[0]); h=len(g); best=0
    for s in range(1,min(w,h)+1):
        if any(all(g[y+j][x+i] for j in range(s) for i in range(s)) for y in range(h-s+1) for x in range(w-s+1)): best=s
    return best
@contextlib.contextmanager
def scratch():
    shutil.rmtree(W,ignore_errors=True); os.makedirs(W+"/d")
    try: yield
    finally: shutil.rmtree(W,ignore_errors=True)
def sq(w,h,deep):
    def f(i):
        g=grid(w,h,i); best=largest(g); mc.states(); mc.traces(); mc.outcome(hash((w,h,best,i)))
        if best: mc.nontrivial()
        with scratch():
            p=W+"/d/a.layout"; st=i%4 if deep and g[-1]!=[""] else 0; write(p,g,st); msg="%dx%d style %d %s"%(w,h,st,g)
            rc,o=run("find_square","onlydim",p)
            if rc or not o.startswith(p): mc.violation("onlydim@find_square",msg+" %d %r"%(rc,o)); return
            b=int(o[len(p):])
            if b!=best and not(best==0 and b<=0): mc.violation("dimension@find_square","%s: printed %d, the largest full square is %d"%(msg,b,best)); return
            rc,o=run("find_square",W+"/q",p); fs=sorted(os.listdir(W))
            if rc or fs!=sorted(["d"]+["q%d.layout"%s for s in range(1,best+1)]): mc.violation("files@find_square","%s: %d %s"%(msg,rc,fs)); return
            for s in range(1,best+1):
                r=[[c.strip() for c in l.rstrip("\r\n").split(",")] for l in open(W+"/q%d.layout"%s).readlines()]
                if not any(all([c for c in g[y+j][x:x+s]]==r[j] for j in range(s)) and len(r)==s and all(all(q) for q in r) for y in range(h-s+1) for x in range(w-s+1)): mc.violation("content@find_square","%s size %d: %s"%(msg,s,r)); return
    return f
def report(w,h,styles):
    def f(i):
        d=mc.Dig(i); st=d.of(styles); bits=d(1<<(w*h)); g=grid(w,h,bits); names=[c for r in g for c in r if c]; mc.states(); mc.traces(); mc.nontrivial(); dup=False; missing=None
        if st==4:
            if len(names)<2: return
            g=[[names[-1] if c==names[0] else c for c in r] for r in g]; dup=True
        if st==1 and g[-1]==[""]: return # nothing in the file stands for that row
        with scratch():
            p=W+"/d/a.layout"; write(p,g,st)
            for c in names: open(W+"/d/"+c,"w").close()
            if st==5:
                if not names: return
                missing=names[bits%len(names)]; os.remove(W+"/d/"+missing)
            msg="%dx%d style %d %s"%(w,h,st,g); rc,o=run("check",p); mc.outcome(hash(o.replace(W,"")))
            got=(num(o,"Layout height"),num(o,"Layout width"),num(o,"Total tile count"),num(o,"Null tile count"),num(o,"Data tile count")); want=tuple(map(str,(h,w,w*h,w*h-len(names),len(names))))
            if rc or got!=want: mc.violation("counts@check","%s: %d %s, should be %s"%(msg,rc,got,want))
            if ("duplicate" in o)!=dup: mc.violation("duplicates@check",msg+o)
            ms=[l for l in o.split("\n") if "does not exist" in l]
            if [missing]!=[None] and (len(ms)!=1 or missing not in ms[0]) or missing is None and ms: mc.violation("missing@check","%s: %s, missing is %s"%(msg,ms,missing))
            if "unexpected" in o: mc.violation("width@check",msg+o)
            rc,o=run("display",p); want="".join("".join("#" if c else " " for c in r)+"\n" for r in g)
            if rc or [l.rstrip() for l in o.split("\n")]!=[l.rstrip() for l in want.split("\n")]: mc.violation("picture@display","%s: %d %r"%(msg,rc,o))
    return f
def ragged(i):
    d=mc.Dig(i); hs=[1+d(3) for _ in range(3)]; mc.states(); mc.traces(); mc.nontrivial()
    with scratch():
        g=[["t%d_%d"%(y,x) for x in range(n)] for y,n in enumerate(hs)]; p=W+"/d/a.layout"; write(p,g,0); rc,o=run("check",p); mc.outcome(hash(tuple(hs)))
        bad=[y for y in range(3) if hs[y]!=hs[0]]; ls=[l for l in o.split("\n") if "unexpected" in l]
        if len(ls)!=len(bad) or any("Row %d "%y not in l or str(hs[y])+"!" not in l for y,l in zip(bad,ls)): mc.violation("width@check","rows of %s: %s"%(hs,ls))
def usage(i):
    d=mc.Dig(i); n=d.of(["check","display","find_square"]); k=d(4); mc.states(); mc.traces(); mc.nontrivial(); mc.outcome(hash((n,k)))
    with scratch():
        p=W+"/d/a.layout"; write(p,grid(2,2,15),0); need=2 if n=="find_square" else 1
        try: rc,o=run(n,*([p]*k))
        except OSError: rc=1
        if k!=need and rc==0: mc.violation("usage@"+n,"accepted %d arguments"%k)
        if k==need:
            try: rc,o=run(n,*(["onlydim"][:need-1]+[W+"/d/none.layout"]))
            except OSError: rc=1
            if rc==0: mc.violation("missing@"+n,"a layout that is not there was accepted")
T=mc.thorough()
for w in range(1,5):
    for h in range(1,5):
        if w*h<=(16 if T else 12): mc.suite("square%dx%d"%(w,h),1<<(w*h),sq(w,h,True))
        if w*h<=(12 if T else 9): mc.suite("report%dx%d"%(w,h),(1<<(w*h))*6,report(w,h,[0,1,2,3,4,5]))
if T:
    for w,h in((5,3),(3,5)): mc.suite("square%dx%d"%(w,h),1<<(w*h),sq(w,h,True))
mc.suite("ragged",27,ragged); mc.suite("usage",12,usage)
sys.exit(mc.main())
