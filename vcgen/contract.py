"""Contracts: one pre/post pair used both for verifying a body and for its call sites."""
import z3, time, traceback
from . import sym, ir
from .sym import *
from .ir import Unsupported

class NS(dict):
    __getattr__=dict.__getitem__
    def __setattr__(s,k,v): s[k]=v

class Contract:
    def __init__(s,name,pre,post,trusted=False,inv=None,ret=None,note="",nret=False,keep=True):
        s.name=name; s.pre=pre; s.post=post; s.trusted=trusted; s.invs=inv; s.note=note; s.nret=nret; s.keep=keep; s.home=None; s.fn=name; s.alias=None
    def apply(s,E,st,args,ins):
        c=Ctx(E,st,"take",call=s.name)
        o=s.pre(c,*args)
        if s.nret: raise Fail("no return")
        c.mode="give"
        rv=None; mark=len(st.pc); from . import sym as _s; cnt=_s._cnt[0]
        if ins.res is not None:
            rv=E.fresh_val(st,ins.ty,"ret")
            if isinstance(rv,Ptr): c.retfresh=True
        r=s.post(c,o,rv)
        if r is None: r=rv
        if E.subst_give: r=settle(E,st,mark,cnt,r)
        if ins.res is not None: st.env[ins.res]=r
        return None

def settle(E,st,mark,cnt,r):
    """a value the contract describes by an equation `new constant == term` is replaced by the term"""
    from .loops import num
    m={}
    for f in st.pc[mark:]:
        if not(z3.is_eq(f)): continue
        for a,b in(f.children(),f.children()[::-1]):
            if z3.is_const(a) and a.decl().kind()==z3.Z3_OP_UNINTERPRETED and num(a)>cnt and a.get_id() not in m:
                b2=z3.substitute(b,*[x for x in m.values()]) if m else b
                from .loops import consts
                if a.get_id() in consts(b2): continue
                m[a.get_id()]=(a,b2); break
    if not m: return r
    def sub(v):
        if isinstance(v,Ptr): return Ptr(sub(v.base),sub(v.off))
        if isinstance(v,z3.ExprRef):
            k=m.get(v.get_id())
            return k[1] if k is not None else v
        return v
    for o in st.heap.values():
        for k,(w,v) in list(o.cells.items()):
            v2=sub(v)
            if v2 is not v: o.cells[k]=(w,v2)
        for k,p in list(o.preds.items()):
            d={x:sub(v) for x,v in p.d.items()}
            if any(d[x] is not p.d[x] and not(isinstance(d[x],Ptr) and vsame(d[x],p.d[x])) for x in d): o.preds[k]=Pred(p.kind,p.size,NS(d) if isinstance(p.d,NS) else d,p.ro)
    return sub(r)
Engine.subst_give=False

class Ctx:
    def __init__(s,E,st,mode,call=None):
        s.E=E; s.st=st; s.mode=mode; s.call=call; s.retfresh=False; s.label=""
    @property
    def give(s): return s.mode=="give"
    def req(s,f,label="requires"):
        """precondition (pre) / ensured fact (post): assumed when given, proved when taken"""
        if isinstance(f,bool): f=z3.BoolVal(f)
        if s.give: s.st.assume(f)
        else: s.E.oblige(s.st,f,(("call %s: "%s.call) if s.call else "")+label)
    ens=req
    def derive(s,f):
        """fact about abstract values that the exact contract implies (lemma): only for callers"""
        if s.give and s.call: s.st.assume(f)
    def lemma(s,f): s.st.assume(f)
    def fact(s,f): s.st.assume(f)
    # --- memory
    def getobj(s,p,name,size=None,ro=False):
        o=s.st.heap.get(p.base.get_id())
        if o is None:
            if not s.give: return s.E.obj(s.st,p)
            o=s.E.new_obj(s.st,size,name,"param",base=p.base); o.raw=False
            s.st.assume(p.base>0)
            if ro: o.ro=True
        return o
    def off(s,p):
        k=s.E.const_off(s.st,p.off)
        if k is None: raise Unsupported("symbolic offset of an abstract value")
        return k
    def cell(s,p,off,w,ty,name,ro=False):
        """field: given -> fresh content, taken -> current content"""
        k=s.off(p)+off
        if s.give:
            o=s.getobj(p,name,ro=ro)
            if k in o.cells and o.cells[k][1] is not None and s.call is None: return o.cells[k][1]
            v=s.E.fresh_val(s.st,ty,name); o.cells[k]=(w,v); return v
        return s.E.load(s.st,Ptr(p.base,I(k)),w,ty,"contract")
    def i32(s,p,off,name,ro=False): return s.cell(p,off,4,ir.Ty("int",32),name,ro)
    def i64(s,p,off,name,ro=False): return s.cell(p,off,8,ir.Ty("int",64),name,ro)
    def ptr(s,p,off,name,ro=False): return s.cell(p,off,8,ir.PTR,name,ro)
    def pred(s,kind,p,name,ro=False,fields=None):
        """abstract value of a registered kind at p; returns its record"""
        K=s.E.predkinds[kind]
        if isnull(p):
            if not s.give: s.E.oblige(s.st,False,"%s argument is not null"%kind); raise Fail("null")
        if s.give:
            o=s.getobj(p,name,ro=ro); k=s.off(p)
            d=NS(K.fresh(s.E,s.st,name)); d.update(fields or {})
            K.facts(s.E,s.st,d)
            o.preds[k]=Pred(kind,K.size,dict(d),ro)
            for x in list(o.cells):
                if k<=x<k+K.size: del o.cells[x]
            return d
        o=s.E.obj(s.st,p); k=s.off(p)
        q=o.preds.get(k)
        if q is None and any(po<k and k<po+p2.size for po,p2 in o.preds.items()):
            s.open_over(o,k); q=o.preds.get(k)
        if q is None or q.kind!=kind:
            q=s.E.try_fold(s.st,o,k,kind)
            if q is None:
                s.E.oblige(s.st,False,"%svalid %s at %s+%s"%("call %s: "%s.call if s.call else "",kind,o.name,k)); raise Fail("fold")
        d=NS(q.d)
        if not ro:
            if o.ro and s.call: s.E.oblige(s.st,False,"call %s does not modify the operand %s"%(s.call,o.name))
            o.preds.pop(k,None)
        return d
    def open_over(s,o,k):
        """expand abstract values that start before k and cover it"""
        more=True
        while more:
            more=False
            for po,p in list(o.preds.items()):
                if po<k<po+p.size and s.E.predkinds[p.kind].unfold:
                    del o.preds[po]; s.E.predkinds[p.kind].unfold(s.E,s.st,o,po,p); more=True; break
    def heap(s,p,name,size,alloc,ro=False):
        """block taken from allocator alloc with the given size"""
        if s.give:
            o=s.E.new_obj(s.st,size,name,"heap",base=p.base); s.st.assume(p.base>0,p.off==0); o.tok=(alloc,size); o.ro=ro; o.raw=True
            return o
        o=s.E.obj(s.st,p)
        s.take_block(o,p,size,alloc,remove=not ro)
        return o
    def take_block(s,o,p,size,alloc,remove=True):
        E=s.E; st=s.st; L="call %s: "%s.call if s.call else ""
        if o.tok is None:
            E.oblige(st,False,L+"%s is a block of an allocator"%o.name); raise Fail("tok")
        E.oblige(st,p.off==0,L+"block start")
        if o.cond is not None: E.oblige(st,o.cond,L+"block is in use")
        E.oblige(st,veq(o.tok[0],alloc),L+"block %s belongs to the allocator it is returned to"%o.name)
        E.oblige(st,o.tok[1]==size,L+"block %s has the size it was taken with"%o.name)
        if remove:
            if o.ro: E.oblige(st,False,L+"block of the operand %s stays"%o.name)
            for po in list(o.preds):
                E.oblige(st,False,L+"%s in the block has been destroyed"%o.preds[po].kind)
            st.heap.pop(o.base.get_id(),None); st.dead.append(o.base)

class Kind:
    """owns(d): condition under which the value owns storage.  Registered abstract value: fresh(E,st,name)->dict, facts, unfold(E,st,o,off,pred), fold(E,st,o,off)->Pred|None"""
    def __init__(s,name,size,fresh,facts,unfold,fold,owns=None): s.owns=owns; s.name=name; s.size=size; s.fresh=fresh; s.facts=facts; s.unfold=unfold; s.fold=fold

def verify(E,fname,con,budget=200):
    """discharge all obligations of one function; returns dict"""
    from .sym import CFG
    f=E.mod.func(fname); E.fn=con.name; E.cur=con; E.loops=0; E.term=0; E.steps=0; E.results={}; E.solver_time=0.0; E.queries=0
    E.deadline=time.time()+budget; E.called=set()
    t0=time.time(); res={"function":con.name,"status":"proved","error":""}
    try:
        cfg=CFG(f); st=State()
        args=[]
        for i,(nm,ty) in enumerate(f.params):
            if ty.k=="ptr": v=Ptr(z3.Int("arg%d"%i),ZERO); st.assume(v.base>=0)
            else: v=E.fresh_val(st,ty,"arg%d"%i)
            if con.alias and i==con.alias[1]: v=args[con.alias[0]]
            st.env[nm]=v; args.append(v)
        E.args=args
        c=Ctx(E,st,"give"); o=con.pre(c,*args)
        E.record=True
        # vacuity: the precondition must be satisfiable
        if not E.feasible(st): res["status"]="vacuous"; return res
        outs=E.run(st,cfg,f.order[0],None,None)
        rets=[x for x in outs if x[0]=="ret"]
        feas=0
        for kind,st2,b,rv in rets:
            E.line="exit"
            c2=Ctx(E,st2,"take")
            try:
                r2=con.post(c2,o,rv)
                E.leakcheck(st2)
            except Fail: pass
            if feas or E.feasible(st2): feas+=1
        if not feas and not con.nret: res["status"]="vacuous"; res["error"]="no path returns"
    except NoObject as ex:
        res["status"]="unsupported"; res["error"]="%s (line %s)"%(ex,E.line)
    except Unsupported as ex:
        res["status"]="unsupported"; res["error"]="%s (line %s)"%(ex,E.line)
    except RecursionError as ex: res["status"]="unsupported"; res["error"]="recursion"
    except z3.Z3Exception as ex:
        res["status"]="unsupported"; res["error"]="z3: %s line %s %s"%(ex,E.line,traceback.format_exc()[-600:])
    except Exception as ex:
        res["status"]="unsupported"; res["error"]="internal: %r (line %s) %s"%(ex,E.line,traceback.format_exc()[-1500:])
    res["obligations"]=[r.js() for r in E.results.values()]
    bad=[r for r in E.results.values() if r.status!="proved"]
    if res["status"]=="proved" and bad: res["status"]="failed"
    if res["status"]=="proved" and not E.results and not con.post is None: res["status"]="vacuous"; res["error"]="no obligation generated"
    res["loops"]=E.loops; res["terminating_loops"]=E.term; res["solver_time"]=round(E.solver_time,2); res["queries"]=E.queries; res["time"]=round(time.time()-t0,2)
    res["callees"]=sorted(E.called)
    return res

def leakcheck(E,st):
    for o in list(st.heap.values()):
        if (o.tok is not None or o.kind=="gmp") and not o.ro:
            E.oblige(st,z3.Not(o.cond) if o.cond is not None else FALSE,"no block is lost (%s)"%o.name)
        if o.ro: continue
        for k,p in o.preds.items():
            K=E.predkinds.get(p.kind)
            if K is not None and K.owns is not None and not p.ro:
                E.oblige(st,z3.Not(K.owns(NS(p.d))),"no storage is lost (%s)"%o.name)
Engine.leakcheck=lambda s,st: leakcheck(s,st)

# ---------- NoObject inside the executor is a failed obligation, not a crash
_load=Engine.load; _store=Engine.store
def load(s,st,p,w,ty,what="load"):
    try: return _load(s,st,p,w,ty,what)
    except NoObject as ex:
        s.oblige(st,False,"%s touches memory the function owns (line %s)"%(what,s.line)); raise Fail("noobj")
def store(s,st,p,v,w,ty,what="store"):
    try: return _store(s,st,p,v,w,ty,what)
    except NoObject as ex:
        s.oblige(st,False,"%s touches memory the function owns (line %s)"%(what,s.line)); raise Fail("noobj")
Engine.load=load; Engine.store=store
