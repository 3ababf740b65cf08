#!/usr/bin/python3
# C25: the Python interface against the C++ routines it names (c25_ref.cpp), over element
# types, memory layouts, georeferencing, no-data values and sequences of operations.
import sys,os,copy,ctypes,re,itertools,io
sys.dont_write_bytecode=True
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,os.path.join(os.path.dirname(HERE),"common"))
import mcpy as mc
REPO=os.environ.get("VERIF_REPO","/repo"); BDIR=os.environ.get("MC_BDIR",".")
site=os.path.join(BDIR,"site","richdem-0.3.5.dist-info")
if not os.path.exists(site+"/METADATA"):
    os.makedirs(site,exist_ok=True); t=site+"/m.%d"%os.getpid()
    open(t,"w").write("Metadata-Version: 2.1\nName: richdem\nVersion: 0.3.5\n"); os.replace(t,site+"/METADATA")
for p in (os.path.join(BDIR,"site"),BDIR,os.path.join(REPO,"wrappers","pyrichdem")): sys.path.insert(0,p)
import warnings; warnings.simplefilter("ignore")
import numpy as np
SAY=sys.stdout
if not os.environ.get("MC_NOISY"): sys.stdout=open(os.devnull,"w")
import richdem as rd
import richdem.cli as cli
from richdem import depression_hierarchy as dephier
from osgeo import gdal
gdal.UseExceptions(); gdal.SetConfigOption("GDAL_PAM_ENABLED","NO")
L=ctypes.CDLL(os.path.join(BDIR,"c25_ref.so"))
L.ref.argtypes=[ctypes.c_char_p,ctypes.c_int,ctypes.c_void_p,ctypes.c_int,ctypes.c_int,ctypes.c_void_p,ctypes.c_void_p,ctypes.c_double,ctypes.c_void_p]
L.ref_props.argtypes=[ctypes.c_void_p,ctypes.c_int,ctypes.c_int,ctypes.c_void_p]
L.ref_perlin.argtypes=[ctypes.c_int,ctypes.c_uint,ctypes.c_void_p]
L.ref_dh.argtypes=[ctypes.c_void_p,ctypes.c_int,ctypes.c_int,ctypes.c_void_p,ctypes.c_void_p,ctypes.c_void_p,ctypes.c_int,ctypes.c_void_p,ctypes.c_int]
T=["int8","int16","int32","int64","uint8","uint16","uint32","uint64","float32","float64"]
LIM={t:np.iinfo(t) for t in T[:8]}
def same(a,b):
    a=np.asarray(a); b=np.asarray(b)
    if a.shape!=b.shape or a.dtype!=b.dtype: return False
    return a.tobytes()==b.tobytes() or bool(np.array_equal(a,b,equal_nan=a.dtype.kind=="f"))
def eqv(a,b):
    if a is None or b is None: return a is b
    return a==b or (a!=a and b!=b)
def eqnd(a,b,t):
    """The same no-data value as far as element type t can hold it."""
    if a is None or b is None: return a is b
    return eqv(np.dtype(t).type(a),np.dtype(t).type(b))
def eqgt(a,b):
    if a is None or b is None: return a is b
    return len(a)==len(b)==6 and all(float(x)==float(y) for x,y in zip(a,b))
GTSTD=np.array([0,1,0,0,0,-1],dtype="float64")
def ref(op,d,nd,gt=None,x=0.0,out=None):
    """The result of routine op on array d (any layout)."""
    d=np.array(d,order="C",copy=True); h,w=d.shape
    g=np.array(gt if gt is not None else GTSTD,dtype="float64")
    n=np.array([nd if nd is not None else -9999]).astype(d.dtype)
    if op.startswith("FM_"): out=np.zeros((h,w,9),dtype="float32")
    elif op.startswith("FA_"): out=np.array(out,order="C",dtype="float64") if out is not None else np.ones((h,w))
    elif op.startswith("TA_"): out=np.zeros((h,w),dtype="float32")
    else: out=np.zeros_like(d)
    rc=L.ref(op.encode(),T.index(str(d.dtype)),d.ctypes.data,w,h,n.ctypes.data,g.ctypes.data,x,out.ctypes.data)
    if rc==2: return None
    if rc: raise RuntimeError("harness: no reference for "+op)
    return out
# ---- layouts: array `vals` as a view with the given memory layout, plus the memory it lives in
LAY=["c","f","inner","step","trans","rev","revx","ro","misal"]
def place(vals,lay):
    vals=np.asarray(vals); h,w=vals.shape[:2]; tail=vals.shape[2:]; dt=vals.dtype
    if lay=="c": b=np.array(vals,order="C"); return b,b
    if lay=="f": b=np.array(vals,order="F"); return b,b
    if lay=="inner": b=np.full((h+2,w+3)+tail,77,dtype=dt); v=b[1:-1,2:-1]
    elif lay=="step": b=np.full((2*h,3*w)+tail,77,dtype=dt); v=b[::2,1::3]
    elif lay=="trans": b=np.full((w,h)+tail,77,dtype=dt); v=np.swapaxes(b,0,1)
    elif lay=="rev": b=np.full((h,w)+tail,77,dtype=dt); v=b[::-1,::-1]
    elif lay=="revx": b=np.full((h,w)+tail,77,dtype=dt); v=b[:,::-1]
    elif lay=="ro": b=np.array(vals,order="C"); b.flags.writeable=False; return b,b
    elif lay=="misal":
        n=vals.size*dt.itemsize; raw=np.zeros(n+17,dtype="uint8"); o=1 if raw.ctypes.data%16==0 else 0
        while (raw.ctypes.data+o)%dt.itemsize==0 and dt.itemsize>1: o+=1
        b=np.frombuffer(raw.data,dtype=dt,count=vals.size,offset=o).reshape(vals.shape); b[...]=vals; return b,raw
    v[...]=vals; return v,b
GTS=[None,(500.0,2.0,0.0,1000.0,0.0,-2.0),[10.0,0.5,0.0,-3.0,0.0,-0.25],np.array([0.1,30,0,7,0,-30.0])]
META=[{},{"A":"b","PROCESSING_HISTORY":"\nearlier"}]
def nds(t):
    if t in LIM: return [int(LIM[t].max),3,0] if t[0]=="u" else [-1,int(LIM[t].min),3]
    return [-9999,0.1,float("nan"),3.0]+([-1.7976931348623157e308] if t=="float64" else [float(np.float32(-3.4028234663852886e38))])
# ---- terrains
def mk(s): return np.array([[float(c) for c in r.split()] for r in s.split("/")])
TER=[mk("5 5 5 5/5 1 2 5/5 2 4 5/5 3 5 5"),mk("9 8 7 6 5/9 2 2 2 5/9 2 1 3 4/9 9 9 9 9"),mk("3 1 4/1 5 9/2 6 5"),mk("7 7 7 7 7/7 3 7 1 7/7 7 6 7 7/7 2 7 3 7/7 7 7 7 5"),mk("4"),mk("6 5 3 3 1"),mk("4/2/3/7"),mk("2 2 2/2 2 2/2 2 2")]
CORR=[mk("9 8 7 5 3 2"),mk("5/4/4/3/1"),mk("3 2 1 2 3"),mk("8 8 8/8 8 8")]
def terrain(k,t,nd):
    v=TER[k] if isinstance(k,int) else k
    if t in("float32","float64"): v=v+0.25*(v%2)
    return v.astype(t)
class A:
    """An rdarray under test together with everything needed to see whether it changed."""
    def __init__(s,vals,lay="c",nd=-9999,gt=None,meta=0,proj="",cls=None):
        s.view,s.base=place(vals,lay); s.arr=(cls or rd.rdarray)(s.view,no_data=nd); s.arr.geotransform=copy.deepcopy(gt); s.arr.metadata=copy.deepcopy(META[meta]); s.arr.projection=proj
        s.nd=nd; s.gt=gt; s.meta=copy.deepcopy(META[meta]); s.proj=proj; s.lay=lay; s.vals=np.array(vals); s.bytes=s.base.tobytes()
        if s.arr.size and not np.shares_memory(s.arr,s.view): raise RuntimeError("harness: rdarray copied")
    def untouched(s): return s.base.tobytes()==s.bytes and s.attrs(s.arr,s.meta)
    def attrs(s,a,meta): return eqnd(a.no_data,s.nd,a.dtype) and eqgt(a.geotransform,s.gt) and a.projection==s.proj and a.metadata==meta
    def changed_to(s,want):
        """The view holds `want` and nothing else of the memory changed."""
        if not same(s.arr,want): return False
        now=np.array(s.view); was=np.array(s.vals)
        s.view[...]=was; ok=s.base.tobytes()==s.bytes; s.view[...]=now; return ok
def history(meta,old,name):
    """meta is old with exactly one line about `name` added to the processing history."""
    if meta is None: return "no metadata"
    m=dict(meta); o=dict(old); h=m.pop("PROCESSING_HISTORY",""); ho=o.pop("PROCESSING_HISTORY","")
    if m!=o: return "metadata items changed: %r -> %r"%(o,m)
    if not h.startswith(ho): return "earlier history lost: %r"%h
    add=h[len(ho):]
    if add.count("\n")!=1 or name not in add: return "history not extended by the operation: %r"%add
    return None
def check_result(sig,r,want,src,nd,name,typ,msg):
    if type(r) is not typ: mc.violation("type@"+sig,"%s: returns %r"%(msg,type(r))); return
    if not same(r,want): mc.violation("value@"+sig,"%s\n got %s\nwant %s"%(msg,np.asarray(r).tolist(),np.asarray(want).tolist())); return
    if not eqnd(r.no_data,nd,r.dtype): mc.violation("nodata@"+sig,"%s: no_data %r, expected %r"%(msg,r.no_data,nd))
    if not eqgt(r.geotransform,src.gt): mc.violation("geotransform@"+sig,"%s: geotransform %r, input %r"%(msg,r.geotransform,src.gt))
    if r.projection!=src.proj: mc.violation("projection@"+sig,"%s: projection %r, input %r"%(msg,r.projection,src.proj))
    e=history(r.metadata,src.meta,name)
    if e: mc.violation("history@"+sig,msg+": "+e)
ALT=[("fill8",lambda d,ip: rd.FillDepressions(d,in_place=ip),"FillDepressions"),("fill4",lambda d,ip: rd.FillDepressions(d,topology="D4",in_place=ip),"FillDepressions"),
 ("eps8",lambda d,ip: rd.FillDepressions(d,epsilon=True,in_place=ip),"FillDepressions"),("eps4",lambda d,ip: rd.FillDepressions(d,True,ip,"D4"),"FillDepressions"),
 ("breach8",lambda d,ip: rd.BreachDepressions(d,in_place=ip),"BreachDepressions"),("breach4",lambda d,ip: rd.BreachDepressions(d,ip,"D4"),"BreachDepressions"),
 ("flats",lambda d,ip: rd.ResolveFlats(d,in_place=ip),"ResolveFlats")]
def do_alter(k,ip,d):
    op,f,name=ALT[k]; want=ref(op,d.vals,d.nd,d.gt); sig="%s.%s"%(op,"inplace" if ip else "copy"); msg="%s %s layout=%s no_data=%r geotransform=%r of %s"%(sig,d.vals.dtype,d.lay,d.nd,d.gt,d.vals.tolist())
    mc.trans(); mc.traces()
    if want is None: # refused by the routine: the caller's array must not change silently
        try: f(d.arr,ip)
        except Exception: return
        mc.violation("refusal@"+sig,msg+": the routine refuses this"); return
    if not same(want,d.vals): mc.nontrivial()
    mc.outcome(hash(want.tobytes()))
    if ip:
        if d.lay=="ro":
            try: f(d.arr,True)
            except Exception: pass
            if d.base.tobytes()!=d.bytes: mc.violation("readonly@"+sig,msg+": a read-only array was modified")
            return
        r=f(d.arr,True)
        if r is not None: mc.violation("return@"+sig,msg+": in place but returns "+repr(type(r)))
        if not d.changed_to(want): mc.violation("value@"+sig,"%s\n got %s\nwant %s"%(msg,np.asarray(d.arr).tolist(),want.tolist()))
        e=history(d.arr.metadata,d.meta,name)
        if e: mc.violation("history@"+sig,msg+": "+e)
        if not d.attrs(d.arr,d.arr.metadata): mc.violation("attributes@"+sig,"%s: attributes changed: %r %r %r"%(msg,d.arr.no_data,d.arr.geotransform,d.arr.projection))
    else:
        r=f(d.arr,False)
        if not d.untouched(): mc.violation("input@"+sig,msg+": the input changed")
        check_result(sig,r,want,d,d.nd,name,rd.rdarray,msg)
        if isinstance(r,np.ndarray) and r.size and np.shares_memory(r,d.arr): mc.violation("alias@"+sig,msg+": the result shares the input's memory")
FA=["Tarboton","Dinf","Quinn","OCallaghanD8","OCallaghanD4","D8","D4"]; FAX=["Freeman","Holmgren"]; RHO=["Rho8","Rho4","FairfieldLeymarieD8","FairfieldLeymarieD4"]
XS=[1.0,1.1,4.0]
METH=[(m,None) for m in FA]+[(m,x) for m in FAX for x in XS]+[(m,None) for m in RHO]
def wts(shape): h,w=shape; return (np.arange(h*w).reshape(h,w)%4).astype("float64")
def do_accum(m,x,d,wmode,wlay,random=False):
    """wmode: 0 none, 1 copied, 2 in place, 3 in place and an rdarray with attributes of its own"""
    sig="FlowAccumulation.%d"%wmode; msg="FlowAccumulation(%s,%r) weights=%d/%s %s layout=%s no_data=%r of %s"%(m,x,wmode,wlay,d.vals.dtype,d.lay,d.nd,d.vals.tolist())
    mc.trans(); mc.traces(); kw={}; W=None
    wv=wts(d.vals.shape)
    if wmode: 
        W=A(wv,wlay,nd=-5,gt=GTS[2],meta=1,proj="w")
        kw=dict(weights=W.arr if wmode!=2 else W.view,in_place=wmode>=2)
    want=ref("FA_"+m,d.vals,d.nd,d.gt,x or 0.0,out=wv if wmode else None)
    r=rd.FlowAccumulation(d.arr,method=m,**({} if x is None else dict(exponent=x)),**kw)
    if not d.untouched(): mc.violation("input@"+sig,msg+": the elevations changed")
    mc.outcome(hash(want.tobytes()))
    if want.max()>1: mc.nontrivial()
    check_result(sig,r,want,d,-1,"FlowAccumulation",rd.rdarray,msg)
    if wmode==1 and not W.untouched(): mc.violation("weights@"+sig,msg+": the weights changed")
    if wmode>=2:
        if not W.changed_to(want): mc.violation("value@"+sig,"%s: weights not modified in place\n got %s\nwant %s"%(msg,W.view.tolist(),want.tolist()))
        if not W.attrs(W.arr,W.meta): mc.violation("attributes@"+sig,msg+": the weights' attributes changed")
        if not np.shares_memory(r,W.view): mc.violation("alias@"+sig,msg+": the result is not a view of the weights")
def do_props(m,x,d):
    sig="FlowProportions"; msg="FlowProportions(%s,%r) %s layout=%s no_data=%r of %s"%(m,x,d.vals.dtype,d.lay,d.nd,d.vals.tolist())
    mc.trans(); mc.traces()
    want=ref("FM_"+m,d.vals,d.nd,d.gt,x or 0.0)
    r=rd.FlowProportions(d.arr,method=m,exponent=x)
    if not d.untouched(): mc.violation("input@"+sig,msg+": the elevations changed")
    if m in RHO and r.shape==want.shape: # random choice: the same cells have flow, and each gives all to one neighbour
        g=np.asarray(r)
        if not same(g[:,:,0],want[:,:,0]): mc.violation("value@"+sig,msg+": other cells flow")
        pos=(g[:,:,1:]>0).sum(axis=2)
        if not (pos[want[:,:,0]>=0]<=1).all(): mc.violation("value@"+sig,msg+": a cell has several receivers")
        return r
    if (want>0).any(): mc.nontrivial()
    check_result(sig,r,want,d,-2,"FlowProportions",rd.rd3array,msg)
    return r
def do_fromprops(p,d,wmode,wlay,play):
    pv,pb=place(np.asarray(p),play); P=rd.rd3array(pv,meta_obj=p); pby=pb.tobytes(); pm=copy.deepcopy(P.metadata)
    sig="FlowAccumFromProps.%d"%wmode; msg="FlowAccumFromProps weights=%d/%s props layout=%s props=%s"%(wmode,wlay,play,np.asarray(p).tolist())
    wv=wts(pv.shape[:2]); kw={}; W=None
    if wmode: W=A(wv,wlay,nd=-5,gt=GTS[2],meta=1,proj="w"); kw=dict(weights=W.arr if wmode!=2 else W.view,in_place=wmode>=2)
    want=np.array(wv if wmode else np.ones(pv.shape[:2])); q=np.array(pv,order="C"); L.ref_props(q.ctypes.data,q.shape[1],q.shape[0],want.ctypes.data)
    mc.trans(); mc.traces()
    r=rd.FlowAccumFromProps(P,**kw)
    if pb.tobytes()!=pby or P.metadata!=pm: mc.violation("input@"+sig,msg+": the proportions changed")
    s=type("S",(),{})(); s.gt=p.geotransform; s.proj=p.projection; s.meta=pm
    check_result(sig,r,want,s,-1,"FlowAccumFromProps",rd.rdarray,msg)
    if wmode==1 and not W.untouched(): mc.violation("weights@"+sig,msg+": the weights changed")
    if wmode>=2:
        if not W.changed_to(want): mc.violation("value@"+sig,msg+": weights not modified in place")
        if not W.attrs(W.arr,W.meta): mc.violation("attributes@"+sig,msg+": the weights' attributes changed")
        if not np.shares_memory(r,W.view): mc.violation("alias@"+sig,msg+": the result is not a view of the weights")
TA=["slope_riserun","slope_percentage","slope_degrees","slope_radians","aspect","curvature","planform_curvature","profile_curvature"]; ZS=[None,1.0,2.5]
def do_attrib(a,z,d):
    sig="TerrainAttribute"; msg="TerrainAttribute(%s,%r) %s layout=%s no_data=%r geotransform=%r of %s"%(a,z,d.vals.dtype,d.lay,d.nd,d.gt,d.vals.tolist())
    mc.trans(); mc.traces()
    want=ref("TA_"+a,d.vals,d.nd,d.gt,1.0 if z is None else z)
    if want is None: raise RuntimeError("harness: reference refuses "+msg)
    r=rd.TerrainAttribute(d.arr,attrib=a,**({} if z is None else dict(zscale=z)))
    if not d.untouched(): mc.violation("input@"+sig,msg+": the elevations changed")
    if want.any(): mc.nontrivial()
    check_result(sig,r,want,d,-9999,"TerrainAttribute",rd.rdarray,msg)
BIG=mc.thorough()
# ---- every operation over types, layouts, georeferencing, no-data values
def s_alter(i):
    g=mc.Dig(i); k=g(len(ALT)); t=g.of(T); lay=g.of(LAY); gt=g.of(GTS); ip=bool(g(2)); mc.states()
    for nd in nds(t):
        for j in range(len(TER)):
            if not BIG and (j+i)%2 and lay not in("f","inner"): continue
            do_alter(k,ip,A(terrain(j,t,nd),lay,nd,gt,j%2,"PROJ%d"%j if j%3 else ""))
mc.suite("alter",len(ALT)*len(T)*len(LAY)*len(GTS)*2,s_alter)
def s_accum(i):
    g=mc.Dig(i); m,x=g.of(METH); t=g.of(T); lay=g.of(LAY); wmode=g(4); wl=LAY if wmode==1 or BIG else LAY; mc.states()
    for j in range(len(CORR) if m in RHO else len(TER)):
        if m not in RHO and not BIG and (i+j)%3: continue
        nd=nds(t)[j%3]; wlay=LAY[(i//7+j)%len(LAY)]
        if wlay=="ro" and wmode>=2: wlay="trans"
        do_accum(m,x,A(terrain(CORR[j] if m in RHO else j,t,nd),lay,nd,GTS[(i+j)%4],j%2,"P"),wmode,wlay)
mc.suite("accum",len(METH)*len(T)*len(LAY)*4,s_accum)
def s_wlay(i):
    g=mc.Dig(i); m,x=METH[g(2)*7]; lay=g.of(LAY); wlay=g.of(LAY); wmode=g(4); j=g(len(TER)); mc.states()
    if wlay=="ro" and wmode>=2: return
    do_accum(m,x,A(terrain(j,"float64",-9999),lay,-9999,GTS[j%4],1,"P"),wmode,wlay)
mc.suite("accum.weights-layout",2*len(LAY)**2*4*len(TER),s_wlay)
def s_props(i):
    g=mc.Dig(i); m,x=g.of(METH); t=g.of(T); lay=g.of(LAY); mc.states()
    for j in range(len(TER)):
        nd=nds(t)[j%3]; d=A(terrain(j,t,nd),lay,nd,GTS[(i+j)%4],j%2,"P")
        p=do_props(m,x,d)
        if type(p) is rd.rd3array and p.shape==d.vals.shape+(9,) and (BIG or (i+j)%3==0):
            wmode=(i//5+j)%4; wlay=LAY[(i//3+j)%len(LAY)]
            if wlay=="ro" and wmode>=2: wlay="step"
            do_fromprops(p,d,wmode,wlay,LAY[(i//11)%len(LAY)])
mc.suite("props",len(METH)*len(T)*len(LAY),s_props)
def s_attrib(i):
    g=mc.Dig(i); a=g.of(TA); z=g.of(ZS); t=g.of(T); lay=g.of(LAY); gt=g.of(GTS); mc.states()
    for j in range(len(TER)):
        if not BIG and (i+j)%4: continue
        nd=nds(t)[j%3]; do_attrib(a,z,A(terrain(j,t,nd),lay,nd,gt,j%2,"P"))
mc.suite("attrib",len(TA)*len(ZS)*len(T)*len(LAY)*len(GTS),s_attrib)
# ---- all interiors, contiguous and not
def s_grid(i):
    g=mc.Dig(i); op=g(len(ALT)+4); t=["float64","float32","int16","uint8"][g(4)]; n=g(3**4 if not BIG else 3**6); mc.states()
    v=np.full((4,4) if not BIG else (4,5),2.0)
    for y in range(1,3):
        for x in range(1,v.shape[1]-1): v[y,x]=1+n%3; n//=3
    v[0,1]=1.5 if t[0]=="f" else 1
    for lay in("c","inner"):
        d=A(v.astype(t),lay,1 if op%2 else 9,GTS[1],1,"P")
        if op<len(ALT): do_alter(op,False,d); do_alter(op,True,A(v.astype(t),lay,1 if op%2 else 9,GTS[1],1,"P"))
        elif op==len(ALT): do_accum("D8",None,d,3,lay)
        elif op==len(ALT)+1: do_accum("Holmgren",1.1,d,1,lay)
        elif op==len(ALT)+2: do_attrib("slope_riserun",None,d)
        else: p=do_props("Quinn",None,d); do_fromprops(p,d,3,lay,lay)
mc.suite("interiors",(len(ALT)+4)*4*(3**4 if not BIG else 3**6),s_grid)
# ---- sequences of operations, kept in step with plain numpy arrays
class Sh: # shadow of an rdarray: plain array (view structure mirrored) + attributes
    def __init__(s,v,nd,gt,proj,meta,hist): s.v=v; s.nd=nd; s.gt=gt; s.proj=proj; s.meta=meta; s.hist=hist
    def like(s,v,**k):
        o=Sh(v,s.nd,s.gt,s.proj,dict(s.meta),s.hist)
        for a,b in k.items(): setattr(o,a,b)
        return o
ACT=["copy","slice","T","rev","plus","fill!","fill","eps","breach4!","flats!","flats","accum","accumw!","slope","props","io","mul!"]
def act(a,cur,sh,w,wsh,live):
    n=ACT[a]; z=sh.v
    R=lambda op,**k: ref(op,z,sh.nd,sh.gt,**k)
    def over(op):
        r=R(op)
        z[...]=r; sh.hist+=1
    if n=="copy": return cur.copy(),sh.like(z.copy(order="C"))
    if n=="slice": return cur[:-1,:-1],sh.like(z[:-1,:-1])
    if n=="T": return cur.T,sh.like(z.T)
    if n=="rev": return cur[::-1,:],sh.like(z[::-1,:])
    if n=="plus": return cur+cur.dtype.type(1),sh.like(z+z.dtype.type(1))
    if n=="mul!":
        cur*=cur.dtype.type(2); z*=z.dtype.type(2); return cur,sh
    if n=="fill!": rd.FillDepressions(cur,in_place=True); over("fill8"); return cur,sh
    if n=="breach4!": rd.BreachDepressions(cur,in_place=True,topology="D4"); over("breach4"); return cur,sh
    if n=="flats!": rd.ResolveFlats(cur,in_place=True); over("flats"); return cur,sh
    if n=="fill": return rd.FillDepressions(cur),sh.like(R("fill8"),hist=sh.hist+1)
    if n=="eps": return rd.FillDepressions(cur,epsilon=True),sh.like(R("eps8"),hist=sh.hist+1)
    if n=="flats": return rd.ResolveFlats(cur),sh.like(R("flats"),hist=sh.hist+1)
    if n=="accum": return rd.FlowAccumulation(cur,method="D8"),sh.like(R("FA_D8"),nd=-1,hist=sh.hist+1)
    if n=="slope": return rd.TerrainAttribute(cur,attrib="slope_riserun"),sh.like(R("TA_slope_riserun",x=1.0),nd=-9999,hist=sh.hist+1)
    if n=="accumw!":
        h,wd=z.shape; ww=w[:h,:wd]; zz=wsh.v[:h,:wd]; r=rd.FlowAccumulation(cur,method="Quinn",weights=ww,in_place=True)
        zz[...]=R("FA_Quinn",out=zz); return r,sh.like(zz,nd=-1,hist=sh.hist+1)
    if n=="props":
        p=rd.FlowProportions(cur,method="D4"); r=rd.FlowAccumFromProps(p); return r,sh.like(R("FA_D4"),nd=-1,hist=sh.hist+2)
    if n=="io":
        f="/vsimem/h%d.tif"%os.getpid(); rd.SaveGDAL(f,cur); r=rd.LoadGDAL(f); gdal.Unlink(f)
        return r,sh.like(z.copy(order="C"),hist=sh.hist+1,gt=sh.gt)
    raise RuntimeError(n)
DEPTH=4 if BIG else 3
def s_hist(i):
    g=mc.Dig(i); j=g(3); t=["float64","float32","int32"][g(3)]; seq=[g(len(ACT)) for _ in range(DEPTH)]; mc.states()
    vals=np.kron(np.ones((1,1)),[TER[1],TER[3],mk("5 5 5 5 5/5 1 5 3 5/5 2 4 2 5/5 1 5 3 5/5 5 5 4 5")][j]).astype(t)
    cur=rd.rdarray(vals.copy(),no_data=-9999,geotransform=GTS[1]); cur.metadata={"A":"b","PROCESSING_HISTORY":"\nh0"}; sh=Sh(vals.copy(),-9999,GTS[1],"",{"A":"b"},1)
    w=rd.rdarray(np.ones((6,6)),no_data=-5,geotransform=GTS[2]); wsh=Sh(np.ones((6,6)),-5,GTS[2],"",{},0)
    live=[(cur,sh),(w,wsh)]
    for s,a in enumerate(seq):
        if t=="int32" and cur.dtype==np.int32 and ACT[a] in("eps","flats","flats!"): # refused for integers
            f={"eps":lambda: rd.FillDepressions(cur,epsilon=True),"flats":lambda: rd.ResolveFlats(cur),"flats!":lambda: rd.ResolveFlats(cur,in_place=True)}[ACT[a]]
            keep=copy.deepcopy(cur.metadata)
            try: f(); mc.violation("refusal@hist."+ACT[a],"accepted for integers")
            except Exception: cur.metadata=keep # the history may mention the attempt
            continue
        try: nc,nsh=act(a,cur,sh,w,wsh,live)
        except Exception as e: mc.violation("exception@hist."+ACT[a],"%s (%s, terrain %d) step %d: %r"%([ACT[x] for x in seq],t,j,s,e)); return
        mc.trans(); mc.traces()
        if nc is not cur: live.append((nc,nsh)); cur,sh=nc,nsh
        for q,(x,y) in enumerate(live):
            msg="%s (%s, terrain %d) after step %d, array %d"%([ACT[u] for u in seq],t,j,s,q)
            if type(x) is not rd.rdarray: mc.violation("type@hist",msg+": "+repr(type(x))); return
            if not same(x,y.v): mc.violation("value@hist.%s"%ACT[a],"%s\n got %s\nwant %s"%(msg,np.asarray(x).tolist(),y.v.tolist())); return
            h=(x.metadata or {}).get("PROCESSING_HISTORY","")
            m={k:v for k,v in (x.metadata or {}).items() if k not in("PROCESSING_HISTORY","AREA_OR_POINT")}
            if not eqv(x.no_data,y.nd) or not eqgt(x.geotransform,y.gt) or x.projection!=y.proj or m!=y.meta: mc.violation("attributes@hist.%s"%ACT[a],"%s: no_data %r geotransform %r projection %r metadata %r"%(msg,x.no_data,x.geotransform,x.projection,m)); return
            nl=len([l for l in h.split("\n") if l.strip()])
            if nl!=y.hist: mc.violation("history@hist.%s"%ACT[a],"%s: %d lines of history, expected %d: %r"%(msg,nl,y.hist,h)); return
    mc.outcome(hash(np.asarray(cur).tobytes())); 
    if len(set(seq))>1: mc.nontrivial()
mc.suite("histories",3*3*len(ACT)**DEPTH,s_hist)
# ---- files
def wkt(): 
    from osgeo import osr
    s=osr.SpatialReference(); s.ImportFromEPSG(4326); return s.ExportToWkt()
try: PROJ=["",wkt()]
except Exception: PROJ=[""]
def s_io(i):
    g=mc.Dig(i); t=g.of(T); lay=g.of(LAY); gt=g.of(GTS); nd=g.of(nds(t)[:3]); j=g(len(TER)); proj=g.of(PROJ); over=g(2); mc.states(); mc.trans(2); mc.traces()
    d=A(terrain(j,t,nd),lay,nd,gt,1,proj); msg="SaveGDAL/LoadGDAL %s layout=%s no_data=%r geotransform=%r terrain %d"%(t,lay,nd,gt,j)
    if lay!="ro": d.arr[0,0]=np.array(0.1,dtype=t) if t not in LIM else LIM[t].max
    d.vals=np.array(d.view); d.bytes=d.base.tobytes()
    f="/vsimem/f%d.tif"%os.getpid()
    rd.SaveGDAL(f,d.arr)
    if not d.untouched(): mc.violation("input@SaveGDAL",msg+": the array changed")
    ds=gdal.Open(f); b=ds.GetRasterBand(1); raw=b.ReadAsArray()
    if not same(raw,d.vals): mc.violation("value@SaveGDAL","%s: file holds %s %s, array %s"%(msg,raw.dtype,raw.tolist(),d.vals.tolist()))
    if not eqv(b.GetNoDataValue(),nd) and not eqv(np.dtype(t).type(b.GetNoDataValue()),np.dtype(t).type(nd)): mc.violation("nodata@SaveGDAL","%s: file's NoData %r"%(msg,b.GetNoDataValue()))
    if gt is not None and not eqgt(ds.GetGeoTransform(),gt): mc.violation("geotransform@SaveGDAL",msg+": %r"%(ds.GetGeoTransform(),))
    md=ds.GetMetadata()
    if md.get("A")!="b" or "earlier" not in md.get("PROCESSING_HISTORY",""): mc.violation("metadata@SaveGDAL",msg+": %r"%md)
    del b,ds
    r=rd.LoadGDAL(f,no_data=nd if over else None) if over else rd.LoadGDAL(f)
    if type(r) is not rd.rdarray or not same(r,d.vals): mc.violation("value@LoadGDAL","%s: loaded %s %s"%(msg,getattr(r,"dtype",None),np.asarray(r).tolist()))
    else:
        if not eqv(np.dtype(t).type(r.no_data),np.dtype(t).type(nd)): mc.violation("nodata@LoadGDAL","%s: %r"%(msg,r.no_data))
        if gt is not None and not eqgt(r.geotransform,gt): mc.violation("geotransform@LoadGDAL","%s: %r"%(msg,r.geotransform))
        if bool(proj)!=bool(r.projection): mc.violation("projection@LoadGDAL","%s: %r"%(msg,r.projection))
        h=r.metadata.get("PROCESSING_HISTORY","")
        if not h.startswith("\nearlier") and not h.startswith("earlier") or "LoadGDAL" not in h or r.metadata.get("A")!="b": mc.violation("history@LoadGDAL","%s: %r"%(msg,r.metadata))
    gdal.Unlink(f); mc.nontrivial(); mc.outcome(hash(raw.tobytes()))
mc.suite("files",len(T)*len(LAY)*len(GTS)*3*len(TER)*len(PROJ)*2,s_io)
# ---- depression hierarchy and fill-spill-merge
FIELDS=["pit_cell","out_cell","parent","odep","geolink","pit_elev","out_elev","lchild","rchild","ocean_parent","dep_label","cell_count","dep_vol","water_vol","total_elevation"]
def deps_of(dh): return [[float(getattr(d,f)) for f in FIELDS]+[float(len(d.ocean_linked))] for d in dh]
def eqdeps(a,b): return len(a)==len(b) and all(all(x==y or (x!=x and y!=y) for x,y in zip(p,q)) for p,q in zip(a,b))
WT=[lambda s: np.zeros(s),lambda s: np.full(s,0.5),lambda s: np.full(s,3.0),lambda s: np.pad(np.full((s[0]-2,s[1]-2),2.0),1)]
def s_dh(i):
    g=mc.Dig(i); lay=g.of([l for l in LAY if l!="ro"]); k=g(len(WT)); gt=g.of(GTS); reps=1+g(2); n=g(3**4 if not BIG else 4**6); mc.states(); mc.trans(2+reps); mc.traces()
    v=np.full((4,5),5.0)
    cells=[(1,1),(1,2),(1,3),(2,1),(2,2),(2,3)]
    for c in (cells if BIG else [cells[0],cells[2],cells[3],cells[4]]): v[c]=1+n%(4 if BIG else 3); n//=4 if BIG else 3
    d=A(v,lay,-9999,gt,1,"P"); msg="terrain %s layout=%s water %d x%d geotransform=%r"%(v.tolist(),lay,k,reps,gt)
    lab0=rd.get_new_depression_hierarchy_labels(v.shape,geotransform=gt)
    wantl=np.zeros(v.shape,dtype="uint32"); wantl[1:-1,1:-1]=0xffffffff
    if not same(lab0,wantl): mc.violation("value@labels","%s: %s"%(msg,np.asarray(lab0).tolist()))
    if not eqgt(lab0.geotransform,gt if gt is not None else rd.STANDARD_GEOTRANSFORM): mc.violation("geotransform@labels","%s: %r"%(msg,lab0.geotransform))
    lab=A(np.asarray(lab0),lay,lab0.no_data,gt); wt=A(WT[k](v.shape),lay,-9999,gt,1,"Q")
    rl=np.array(wantl); rf=np.zeros(v.shape,dtype="int8"); rw=np.array(wt.vals); rdps=np.zeros((64,16))
    nn=L.ref_dh(np.ascontiguousarray(v).ctypes.data,5,4,rl.ctypes.data,rf.ctypes.data,rw.ctypes.data,0,rdps.ctypes.data,64)
    if nn<0: raise RuntimeError("harness: reference hierarchy refuses "+msg)
    dh,fd=rd.get_depression_hierarchy(d.arr,lab.arr)
    if not d.untouched(): mc.violation("input@get_depression_hierarchy",msg+": the elevations changed")
    if not lab.changed_to(rl): mc.violation("value@labels","%s: labels %s expected %s"%(msg,lab.arr.tolist(),rl.tolist()))
    if not same(fd,rf): mc.violation("value@flowdirs","%s: %s expected %s"%(msg,np.asarray(fd).tolist(),rf.tolist()))
    if not eqgt(fd.geotransform,gt) or fd.projection!="P": mc.violation("geotransform@flowdirs","%s: %r"%(msg,fd.geotransform))
    if not eqdeps(deps_of(dh),rdps[:nn].tolist()): mc.violation("value@hierarchy",msg+": the depressions differ")
    if nn>2: mc.nontrivial()
    fdA=A(np.asarray(fd),lay,-1,gt)
    rl=np.array(wantl); rf=np.zeros(v.shape,dtype="int8")
    nn=L.ref_dh(np.ascontiguousarray(v).ctypes.data,5,4,rl.ctypes.data,rf.ctypes.data,rw.ctypes.data,reps,rdps.ctypes.data,64)
    if nn<0: raise RuntimeError("harness: reference fill-spill-merge refuses "+msg)
    lab2=A(rl,lay,lab0.no_data,gt)
    for _ in range(reps): rd.fill_spill_merge(d.arr,lab2.arr,fdA.arr,dh,wt.arr)
    if not d.untouched() or not lab2.untouched() or not fdA.untouched(): mc.violation("input@fill_spill_merge",msg+": an input changed")
    if not wt.changed_to(rw): mc.violation("value@fill_spill_merge","%s: water %s expected %s"%(msg,wt.arr.tolist(),rw.tolist()))
    if not wt.attrs(wt.arr,wt.arr.metadata): mc.violation("attributes@fill_spill_merge",msg)
    if not eqdeps(deps_of(dh),rdps[:nn].tolist()): mc.violation("hierarchy@fill_spill_merge",msg+": the hierarchy does not hold the water volumes")
    mc.outcome(hash(rw.tobytes()))
mc.suite("hierarchy",(len(LAY)-1)*len(WT)*len(GTS)*2*(3**4 if not BIG else 4**6),s_dh)
def s_perlin(i):
    n=1+i%12; seed=i//12; want=np.zeros((n,n)); L.ref_perlin(n,seed,want.ctypes.data); mc.states(); mc.trans(2); mc.traces()
    for _ in range(2):
        r=rd.generate_perlin_terrain(n,seed)
        if type(r) is not rd.rdarray or not same(r,want) or not eqgt(r.geotransform,GTSTD) or not eqv(r.no_data,-9999): mc.violation("value@perlin","size %d seed %d"%(n,seed))
        e=history(r.metadata,{},"Perlin")
        if e: mc.violation("history@perlin",e)
    mc.outcome(hash(want.tobytes())); mc.nontrivial()
mc.suite("perlin",12*(8 if not BIG else 64),s_perlin)
# ---- construction
def s_new(i):
    g=mc.Dig(i); cls=[rd.rdarray,rd.rd3array][g(2)]; kind=g(3); mo=g(3); nd=[None,-7,0,float("nan")][g(4)]; gt=g.of(GTS); mc.states(); mc.trans(); mc.traces()
    v=np.arange(12.0,dtype="float32").reshape((3,4) if cls is rd.rdarray else (2,2,3))
    src=[v,v.tolist(),np.asfortranarray(v)][kind]
    meta=None
    if mo: 
        meta=rd.rdarray(np.zeros((2,2)),no_data=-3); meta.projection="P"; meta.geotransform=GTS[1]; meta.metadata={"k":["v"]}
        if mo==2: meta.no_data=None
    kw={}
    if gt is not None and cls is rd.rdarray: kw["geotransform"]=gt
    msg="%s(kind %d, meta_obj=%d, no_data=%r, geotransform=%r)"%(cls.__name__,kind,mo,nd,gt)
    want_nd=nd if nd is not None else (-3 if mo==1 else None)
    try: r=cls(src,meta_obj=meta,no_data=nd,**kw)
    except Exception:
        if want_nd is not None: mc.violation("refusal@new",msg+": refused")
        return
    if want_nd is None: mc.violation("refusal@new",msg+": accepted without a no-data value"); return
    if not same(np.asarray(r).astype("float32"),v): mc.violation("value@new",msg)
    if not eqv(r.no_data,want_nd): mc.violation("nodata@new","%s: %r"%(msg,r.no_data))
    wgt=gt if gt is not None and cls is rd.rdarray else (GTS[1] if mo else None)
    if not eqgt(r.geotransform,wgt) or r.projection!=("P" if mo else "") or r.metadata!=({"k":["v"]} if mo else {}): mc.violation("attributes@new","%s: %r %r %r"%(msg,r.geotransform,r.projection,r.metadata))
    if mo: # independent of meta_obj
        r.metadata["k"].append("w")
        if meta.metadata!={"k":["v"]}: mc.violation("alias@new",msg+": metadata shared with meta_obj")
    for q in (r[1:],r[:,::-1],r.copy(),r.view(),r.swapaxes(0,1),r+1,r.astype("float64")):
        if not eqv(q.no_data,want_nd) or not eqgt(q.geotransform,wgt) or q.projection!=r.projection or q.metadata!=r.metadata: mc.violation("attributes@view",msg)
        q.metadata["x"]="y"
        if "x" in r.metadata: mc.violation("alias@view",msg+": metadata of a view is shared")
    mc.nontrivial()
mc.suite("construction",2*3*3*4*len(GTS),s_new)
# ---- what cannot be done is refused and changes nothing
def E(): return A(TER[0].astype("float32"),"c",-9999,GTS[1],1,"P")
N=np.zeros((3,3))
BAD=[("fill topology",lambda d: rd.FillDepressions(d,topology="D6",in_place=True)),("breach topology",lambda d: rd.BreachDepressions(d,topology="d8",in_place=True)),
 ("plain array fill",lambda d: rd.FillDepressions(N)),("plain array breach",lambda d: rd.BreachDepressions(N)),("plain array flats",lambda d: rd.ResolveFlats(N)),("plain array accum",lambda d: rd.FlowAccumulation(N,method="D8")),
 ("plain array props",lambda d: rd.FlowProportions(N,method="D8")),("plain array attrib",lambda d: rd.TerrainAttribute(N,attrib="aspect")),("plain array save",lambda d: rd.SaveGDAL("/vsimem/bad.tif",N)),
 ("accum method",lambda d: rd.FlowAccumulation(d,method="D9")),("accum no method",lambda d: rd.FlowAccumulation(d)),("accum no exponent",lambda d: rd.FlowAccumulation(d,method="Holmgren")),("accum no exponent 2",lambda d: rd.FlowAccumulation(d,method="Freeman")),
 ("props method",lambda d: rd.FlowProportions(d,method="x")),("props no exponent",lambda d: rd.FlowProportions(d,method="Freeman")),("attrib name",lambda d: rd.TerrainAttribute(d,attrib="slope")),
 ("weights type",lambda d: rd.FlowAccumulation(d,method="D8",weights=np.ones(d.shape,dtype="float32"),in_place=True)),("weights type copied",lambda d: rd.FlowAccumulation(d,method="D8",weights=np.ones(d.shape,dtype="int32"))),
 ("weights shape",lambda d: rd.FlowAccumulation(d,method="D8",weights=np.ones((3,3)))),("weights shape larger",lambda d: rd.FlowAccumulation(d,method="Quinn",weights=np.ones((9,9)),in_place=True)),
 ("weights transposed shape",lambda d: rd.FlowAccumulation(d[:,:3],method="D8",weights=np.ones((3,4)))),
 ("props of a 2D array",lambda d: rd.FlowAccumFromProps(d)),("props weights shape",lambda d: rd.FlowAccumFromProps(rd.FlowProportions(d,method="D8"),weights=np.ones((2,2)))),
 ("props of depth 5",lambda d: rd.FlowAccumFromProps(rd.rd3array(np.zeros((3,3,5)),no_data=-2))),("props of depth 10",lambda d: rd.FlowAccumFromProps(rd.rd3array(np.zeros((3,3,10)),no_data=-2))),
 ("one dimension",lambda d: rd.FillDepressions(d[0],in_place=True)),("three dimensions",lambda d: rd.FillDepressions(rd.rdarray(np.zeros((2,2,2)),no_data=-1))),
 ("bool cells",lambda d: rd.FillDepressions(d>2)),("half cells",lambda d: rd.FillDepressions(d.astype("float16"))),("complex cells",lambda d: rd.FillDepressions(d.astype("complex64"))),("big-endian cells",lambda d: rd.FillDepressions(d.astype(">f4"))),
 ("hierarchy labels shape",lambda d: rd.get_depression_hierarchy(d.astype("float64"),rd.get_new_depression_hierarchy_labels((3,3)))),
 ("hierarchy of float32",lambda d: rd.get_depression_hierarchy(d,rd.get_new_depression_hierarchy_labels(d.shape)) and None),
 ("water shape",lambda d: fsm_bad(d,1)),("water type",lambda d: fsm_bad(d,2)),("water plain",lambda d: fsm_bad(d,3)),("labels shape",lambda d: fsm_bad(d,4)),
 ("load missing",lambda d: rd.LoadGDAL("/vsimem/none.tif")),("load without NoData",lambda d: load_nond()),("perlin not square",lambda d: rd._richdem.generate_perlin_terrain(rd.rdarray(np.zeros((2,3)),no_data=-1).wrap(),1))]
def fsm_bad(d,k):
    e=d.astype("float64"); l=rd.get_new_depression_hierarchy_labels(e.shape); dh,f=rd.get_depression_hierarchy(e,l)
    w=np.ones(e.shape)
    if k==1: w=np.ones((2,3))
    if k==2: w=w.astype("float32")
    w=w if k==3 else rd.rdarray(w,no_data=-1)
    if k==4: l=rd.get_new_depression_hierarchy_labels((2,2))
    rd.fill_spill_merge(e,l,f,dh,w)
def load_nond():
    f="/vsimem/nn%d.tif"%os.getpid(); ds=gdal.GetDriverByName("GTiff").Create(f,2,2,1,gdal.GDT_Byte); ds=None
    try: rd.LoadGDAL(f)
    finally: gdal.Unlink(f)
def s_bad(i):
    n,f=BAD[i]; d=E(); mc.states(); mc.trans(); mc.traces()
    try: f(d.arr)
    except Exception:
        if not d.untouched() and n not in("one dimension",): mc.violation("input@refusal",n+": refused, but the input changed")
        elif d.base.tobytes()!=d.bytes: mc.violation("input@refusal",n+": refused, but the input changed")
        mc.nontrivial(); return
    mc.violation("accepted@"+n.replace(" ","-"),n+" was accepted")
mc.suite("refusals",len(BAD),s_bad)
# ---- programs
def run_cli(f,*args):
    old,oo=sys.argv,sys.stdout; sys.argv=["prog"]+list(args); sys.stdout=io.StringIO()
    try: f(); return sys.stdout.getvalue()
    finally: sys.argv,sys.stdout=old,oo
CL=[("DepressionFilling",[],"fill8"),("DepressionFilling",["-g"],"eps8"),("DepressionFilling",["--gradient"],"eps8"),("BreachDepressions",[],"breach8")]+[("FlowAccumulation",["-m",m]+([] if x is None else ["-e",str(x)]),"FA_"+m) for m,x in METH if m not in RHO]+[("TerrainAttribute",["-a",a]+([] if z is None else ["-z",str(z)]),"TA_"+a) for a in TA for z in ZS]
def put(f,v,nd,gt,meta):
    ds=gdal.GetDriverByName("GTiff").Create(f,v.shape[1],v.shape[0],1,gdal_t[str(v.dtype)]); ds.SetGeoTransform(gt); ds.GetRasterBand(1).SetNoDataValue(nd); ds.GetRasterBand(1).WriteArray(v)
    for k,q in meta.items(): ds.SetMetadataItem(k,q)
gdal_t={"uint8":gdal.GDT_Byte,"int16":gdal.GDT_Int16,"uint16":gdal.GDT_UInt16,"int32":gdal.GDT_Int32,"uint32":gdal.GDT_UInt32,"float32":gdal.GDT_Float32,"float64":gdal.GDT_Float64}
def s_cli(i):
    g=mc.Dig(i); fn,opt,op=g.of(CL); t=g.of(list(gdal_t)); j=g(len(TER)); gt=GTS[1+g(3)]; nd=nds(t)[g(2)]; mc.states(); mc.trans(); mc.traces()
    v=terrain(j,t,nd); a="/vsimem/ci%d.tif"%os.getpid(); b="/vsimem/co%d.tif"%os.getpid(); put(a,v,nd,[float(q) for q in gt],{"A":"b","PROCESSING_HISTORY":"earlier"})
    x=float(opt[3]) if len(opt)>3 else (1.0 if fn=="TerrainAttribute" else 0.0); want=ref(op,v,nd,gt,x)
    msg="%s %s on %s %s no_data=%r"%(fn,opt,t,v.tolist(),nd)
    if want is None:
        try: run_cli(getattr(cli,fn),a,b,*opt); mc.violation("refusal@cli."+fn,msg+": accepted")
        except Exception: pass
        gdal.Unlink(a)
        return
    run_cli(getattr(cli,fn),a,b,*opt); ds=gdal.Open(b); r=ds.GetRasterBand(1).ReadAsArray()
    if not same(r,want): mc.violation("value@cli.%s"%fn,"%s\n got %s %s\nwant %s"%(msg,r.dtype,r.tolist(),want.tolist()))
    if not eqgt(ds.GetGeoTransform(),gt): mc.violation("geotransform@cli.%s"%fn,msg)
    h=ds.GetMetadata().get("PROCESSING_HISTORY","")
    if "earlier" not in h or fn.replace("DepressionFilling","FillDepressions")+"(" not in h or ds.GetMetadata().get("A")!="b": mc.violation("history@cli.%s"%fn,"%s: %r"%(msg,ds.GetMetadata()))
    wn=nd if op[:2] not in("FA","TA") else (-1 if op[:2]=="FA" else -9999)
    q=ds.GetRasterBand(1).GetNoDataValue()
    if not eqv(np.array(q).astype(r.dtype),np.array(wn).astype(r.dtype)): mc.violation("nodata@cli.%s"%fn,"%s: %r"%(msg,q))
    del ds; gdal.Unlink(a); gdal.Unlink(b); mc.outcome(hash(want.tobytes())); mc.nontrivial()
mc.suite("programs",len(CL)*7*len(TER)*3*2,s_cli)
def s_cmp(i):
    g=mc.Dig(i); t=g.of(list(gdal_t)); j=g(len(TER)); k=g(4); mc.states(); mc.trans(2); mc.traces()
    v=terrain(j,t,0); u=v.copy()
    if k&1: u[-1,-1]=v[-1,-1]+3
    a="/vsimem/ci%d.tif"%os.getpid(); b="/vsimem/co%d.tif"%os.getpid(); nd=nds(t)[0]; put(a,v,nd,GTS[1],{}); put(b,u,nds(t)[2 if t!="float32" and t!="float64" else 3] if k&2 else nd,GTS[2] if k&2 else GTS[1],{})
    out=run_cli(cli.RdCompare,a,b); d=np.abs(v.astype("float64")-u.astype("float64")); msg="RdCompare %s terrain %d variant %d printed %r"%(t,j,k,out)
    for key,val in(("Max",d.max()),("Min",d.min()),("Avg",d.mean())):
        m=re.search(r"Absolute %s difference:\s*(\S+)"%key,out)
        if not m or abs(float(m.group(1))-val)>1e-4*max(1,abs(val)): mc.violation("value@RdCompare.%s"%key,msg)
    m=re.search(r"RMS difference:\s*(\S+)",out)
    if not m or abs(float(m.group(1))-np.sqrt((d*d).mean()))>1e-4*max(1,d.max()): mc.violation("value@RdCompare.RMS",msg)
    if ("NoData differs" in out)!=bool(k&2) or ("Geotransform differs" in out)!=bool(k&2): mc.violation("attributes@RdCompare",msg)
    out=run_cli(cli.RdInfo,a)
    if not re.search(r"Width\s*=\s*%d\s"%v.shape[1],out) or not re.search(r"Height\s*=\s*%d\s"%v.shape[0],out) or t not in out: mc.violation("value@RdInfo",out)
    gdal.Unlink(a); gdal.Unlink(b); mc.nontrivial(); mc.outcome(hash((t,j,k)))
mc.suite("compare",7*len(TER)*4,s_cmp)
sys.exit(mc.main())
