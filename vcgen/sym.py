"""Function-by-function symbolic executor producing proof obligations (z3).

Integers are mathematical (canonical signed representation, range facts for loaded values;
overflow of add/sub/mul is not modelled: recorded as an assumption).  Loops are cut by
inferred invariants: candidates are generated from the code and kept only when they are
proved initially and inductively, so that nothing about them is trusted."""
import z3, time, re, sys
from . import ir
from .ir import Unsupported
I=z3.IntVal
INT=z3.IntSort(); BOOL=z3.BoolSort(); ARR=z3.ArraySort(INT,INT); REAL=z3.RealSort(); RARR=z3.ArraySort(INT,REAL)
ZERO=I(0); TRUE=z3.BoolVal(True); FALSE=z3.BoolVal(False)
_cnt=[0]
SCALE=[1]     # factor on every solver time limit (a second attempt gets more)
def fresh(name,sort=INT):
    _cnt[0]+=1
    return z3.Const("%s!%d"%(name,_cnt[0]),sort)
def simp(e): return z3.simplify(e) if isinstance(e,z3.ExprRef) else e
def isint(e): return z3.is_int_value(e)
def same(a,b): return a.get_id()==b.get_id() or a.eq(b)

class Ptr:
    __slots__=("base","off")
    def __init__(s,base,off=ZERO): s.base=base; s.off=off
    def add(s,k):
        if isinstance(k,int): k=I(k)
        return Ptr(s.base,simp(s.off+k))
    def __repr__(s): return "<%s+%s>"%(s.base,s.off)
NULL=Ptr(ZERO,ZERO)
def isnull(p): return isint(p.base) and p.base.as_long()==0
def veq(a,b):
    if isinstance(a,Ptr): return z3.And(a.base==b.base,a.off==b.off) if not (same(a.off,b.off)) else a.base==b.base
    return a==b
def vsame(a,b):
    if isinstance(a,Ptr)!=isinstance(b,Ptr): return False
    if isinstance(a,Ptr): return same(a.base,b.base) and same(a.off,b.off)
    if isinstance(a,tuple): return all(vsame(x,y) for x,y in zip(a,b))
    return same(a,b)
def vite(c,a,b):
    if vsame(a,b): return a
    if isinstance(a,Ptr): return Ptr(simp(z3.If(c,a.base,b.base)),simp(z3.If(c,a.off,b.off)))
    return simp(z3.If(c,a,b))
def b2i(b): return z3.If(b,I(1),ZERO)
def tobool(x):
    """i8/i32 -> i1 (trunc)"""
    if isint(x): return z3.BoolVal(x.as_long()%2==1)
    if z3.is_app_of(x,z3.Z3_OP_ITE):
        c,a,b=x.children()
        return simp(z3.If(c,tobool(a),tobool(b)))
    return x%2==1

class Arr:
    """typed array content of an object: element i lives at start+i*esize"""
    __slots__=("esize","len","m","moff","kind","wr")
    def __init__(s,esize,len,m,kind="int",moff=None): s.esize=esize; s.len=len; s.m=m; s.kind=kind; s.moff=moff
    def copy(s): return Arr(s.esize,s.len,s.m,s.kind,s.moff)
class Obj:
    __slots__=("base","size","cells","arr","ro","tok","name","kind","preds","raw","cond")
    def __init__(s,base,size,name="",kind="heap"):
        s.base=base; s.size=size; s.cells={}; s.arr=None; s.ro=False; s.tok=None; s.name=name; s.kind=kind; s.preds={}; s.raw=False; s.cond=None
    def copy(s):
        o=Obj(s.base,s.size,s.name,s.kind); o.cells=dict(s.cells); o.arr=s.arr.copy() if s.arr else None; o.ro=s.ro; o.tok=s.tok; o.preds=dict(s.preds); o.raw=s.raw; o.cond=s.cond
        return o
class Pred:
    """abstract value occupying [off,off+size) of an object"""
    __slots__=("kind","size","d","ro")
    def __init__(s,kind,size,d,ro=False): s.kind=kind; s.size=size; s.d=d; s.ro=ro
    def __repr__(s): return "%s%r"%(s.kind,s.d)

class Fail(Exception):
    """path cannot continue (obligation failed in a way that leaves no state)"""

class State:
    def __init__(s):
        s.env={}; s.pc=[]; s.heap={}; s.chunks=[]; s.tokens={}; s.ghost={}; s.lits=None; s.dead=[]
    def copy(s):
        t=State(); t.env=dict(s.env); t.pc=list(s.pc); t.heap={k:o.copy() for k,o in s.heap.items()}
        t.chunks=list(s.chunks); t.tokens=dict(s.tokens); t.ghost=dict(s.ghost); t.lits=None if s.lits is None else list(s.lits); t.dead=list(s.dead)
        return t
    def assume(s,*fs):
        for f in fs:
            if f is True or z3.is_true(f): continue
            if f is False: f=FALSE
            if z3.is_and(f): s.assume(*f.children())
            else: s.pc.append(f)

_assert=z3.z3core.Z3_solver_assert.__defaults__[0].f
def assert_all(sol,fs):
    c=sol.ctx.ref(); r=sol.solver
    for f in fs:
        if isinstance(f,z3.BoolRef): _assert(c,r,f.ast)
        else: sol.add(f)
def has_quant(f,_memo={}):
    k=f.get_id(); r=_memo.get(k)
    if r is not None: return r[1]
    st=[f]; seen=set(); res=False
    while st:
        x=st.pop()
        if z3.is_quantifier(x): res=True; break
        i=x.get_id()
        if i in seen: continue
        m=_memo.get(i)
        if m is not None:
            if m[1]: res=True; break
            continue
        seen.add(i)
        if x.num_args(): st.extend(x.children())
    _memo[k]=(f,res); return res

class Loop:
    def __init__(s,h): s.header=h; s.body={h}; s.latches=[]; s.inner=[]
class CFG:
    def __init__(s,f):
        s.f=f; s.succ={}; s.pred={b:[] for b in f.order}
        for b in f.order:
            t=f.blocks[b][-1]
            if t.op=="br": ss=list(t.extra)
            elif t.op=="switch": ss=[t.extra[0]]+[x[1] for x in t.extra[1]]
            else: ss=[]
            s.succ[b]=ss
            for x in ss: s.pred[x].append(b)
        # dominators
        entry=f.order[0]; reach=[]; seen=set()
        st=[entry]
        while st:
            b=st.pop()
            if b in seen: continue
            seen.add(b); reach.append(b); st.extend(s.succ[b])
        dom={b:set(seen) for b in seen}; dom[entry]={entry}
        ch=True
        while ch:
            ch=False
            for b in f.order:
                if b not in seen or b==entry: continue
                ps=[dom[p] for p in s.pred[b] if p in seen]
                n=set.intersection(*ps)|{b} if ps else {b}
                if n!=dom[b]: dom[b]=n; ch=True
        s.loops={}
        for b in f.order:
            if b not in seen: continue
            for x in s.succ[b]:
                if x in dom[b]:
                    L=s.loops.setdefault(x,Loop(x)); L.latches.append(b)
                    st=[b]
                    while st:
                        y=st.pop()
                        if y in L.body: continue
                        L.body.add(y); st.extend(p for p in s.pred[y] if p in seen)
        # live-in locals per loop header
        s.uses={}
        for b in f.order:
            u=set()
            for ins in f.blocks[b]:
                for a in ins.args:
                    if a.kind=="local": u.add(a.v)
                if ins.op=="phi":
                    for v,_ in ins.extra:
                        if v.kind=="local": u.add(v.v)
                if ins.op=="call" and ins.extra.kind=="local": u.add(ins.extra.v)
            s.uses[b]=u
        for h,L in s.loops.items(): L.depth=sum(1 for M in s.loops.values() if h in M.body)
        # blocks reachable from b
        s.reach={}
    def reachable(s,b):
        if b in s.reach: return s.reach[b]
        seen=set(); st=[b]
        while st:
            x=st.pop()
            if x in seen: continue
            seen.add(x); st.extend(s.succ[x])
        s.reach[b]=seen
        return seen
    def live_in(s,b):
        """locals live at the head of b (phis of b excluded)"""
        if not hasattr(s,"_live"):
            up={};df={};ph={x:set() for x in s.f.order}
            for x in s.f.order:
                u=set(); d=set()
                for ins in s.f.blocks[x]:
                    if ins.op=="phi":
                        for v,p in ins.extra:
                            if v.kind=="local" and p in ph: ph[p].add(v.v)
                    else:
                        a=[y.v for y in ins.args if y.kind=="local"]
                        if ins.op=="call" and ins.extra.kind=="local": a.append(ins.extra.v)
                        u|={y for y in a if y not in d}
                    if ins.res: d.add(ins.res)
                up[x]=u; df[x]=d
            live={x:set(up[x]) for x in s.f.order}; ch=True
            while ch:
                ch=False
                for x in reversed(s.f.order):
                    o=set(ph[x])
                    for y in s.succ[x]: o|=live[y]
                    n=up[x]|(o-df[x])
                    if n!=live[x]: live[x]=n; ch=True
            s._live=live
        return s._live.get(b,set())

class Result:
    __slots__=("label","status","time","detail","n","backend")
    def __init__(s,label): s.label=label; s.status="proved"; s.time=0.0; s.detail=""; s.n=0; s.backend={}
    def js(s): return {"obligation":s.label,"status":s.status,"time_s":round(s.time,3),"queries":s.n,"detail":s.detail,"backend":s.backend}

class Engine:
    def __init__(s,mod,names,contracts,timeout=4000):
        s.mod=mod; s.dm=names; s.contracts=contracts; s.timeout=timeout
        s.results={}; s.record=True; s.globals={}; s.facts=[]; s.solver_time=0.0; s.queries=0
        s.assumptions=set(); s.trusted=set(); s.called=set()
        s.predkinds={}; s.folders=[]; s.fn=""; s.line=None; s.steps=0; s.deadline=None
        s._qc={}; s.gsorts={}
        s.quick=False
    # ---------- solver
    def check(s,fs,goal=None,timeout=None):
        """'unsat' | 'sat' | 'unknown' of fs and not goal"""
        if s.deadline and time.time()>s.deadline: raise Unsupported("time budget for this function is used up")
        t0=time.time()
        sol=z3.Solver(); sol.set("timeout",int((timeout or s.timeout)*SCALE[0]))
        assert_all(sol,s.facts); assert_all(sol,fs)
        if goal is not None: sol.add(z3.Not(goal))
        r=str(sol.check()); s._last=sol
        dt=time.time()-t0; s.solver_time+=dt; s.queries+=1
        if s.slow and dt>s.slow: print("SLOW %.1fs %s %s line %s"%(dt,r,s.fn,s.line),file=sys.stderr)
        return r
    slow=None; shape=False
    def feasible(s,st,extra=None):
        k=[f for f in st.pc if not has_quant(f)]
        if extra is not None: k.append(extra)
        return s.check(k,timeout=400)!="unsat"
    def proves(s,st,goal,timeout=None,hard=False):
        goal=simp(goal) if not isinstance(goal,bool) else z3.BoolVal(goal)
        if z3.is_true(goal): return True
        if z3.is_false(goal) : return s.check(st.pc,timeout=timeout)=="unsat"
        if any(same(goal,f) for f in st.pc): return True
        # cheap attempt without quantified facts first
        q=[f for f in st.pc if not has_quant(f)]
        if len(q)!=len(st.pc):
            if s.check(q,goal,timeout=min(timeout or s.timeout,700))=="unsat": return True
        r=s.check(st.pc,goal,timeout)
        if r!="unsat" and hard and not (r=="sat" and not any(has_quant(f) for f in st.pc)):
            last=s._last
            if s.second(st.pc,goal): return True
            s._last=last
        return r=="unsat"
    def second(s,fs,goal):
        """other search settings, then cvc5"""
        for opts in({"smt.mbqi":False,"auto_config":False,"smt.random_seed":7},{"smt.random_seed":11,"smt.arith.solver":2}):
            t0=time.time()
            sol=z3.SolverFor("AUFNIRA") if False else z3.Solver()
            sol.set("timeout",int(s.timeout*SCALE[0]))
            for k,v in opts.items():
                try: sol.set(k.replace("smt.",""),v)
                except z3.Z3Exception: pass
            assert_all(sol,s.facts); assert_all(sol,fs)
            sol.add(z3.Not(goal)); r=str(sol.check()); s.solver_time+=time.time()-t0; s.queries+=1
            if r=="unsat": return True
        return False
    def oblige(s,st,goal,label):
        """records an obligation; afterwards it is assumed on this path"""
        if isinstance(goal,bool): goal=z3.BoolVal(goal)
        if s.record:
            label="%s: %s"%(s.fn,label)
            r=s.results.get(label)
            if r is None: r=s.results[label]=Result(label)
            t0=time.time(); r.n+=1
            gs=goal.children() if z3.is_and(goal) else [goal]
            for g in gs:
                if not s.proves(st,g,hard=True):
                    ok=False
                    if r.status=="proved":
                        r.status="failed"; m=""
                        try: m=str(s._last.reason_unknown()) if str(s._last.check())=="unknown" else "counterexample: "+str(s._last.model())[:1500]
                        except Exception: pass
                        r.detail="goal %s (line %s); z3: %s"%(str(g)[:600],s.line,m)
                        if s.trace: r.detail+="\nPC: "+"\n  ".join(str(f) for f in st.pc)
            r.time+=time.time()-t0
        st.assume(goal)
    trace=False
    def assumption(s,t): s.assumptions.add(t)
    # ---------- heap
    def new_obj(s,st,size,name,kind="heap",base=None):
        if base is None:
            base=fresh("b_"+name)
            st.assume(base>0)
        o=Obj(base,size if not isinstance(size,int) else I(size),name,kind)
        for k,p in st.heap.items(): st.assume(p.base!=base)
        for b in st.dead: pass
        st.heap[base.get_id()]=o
        return o
    def obj(s,st,p,must=True):
        o=st.heap.get(p.base.get_id())
        if o is None:
            for k,x in st.heap.items():
                if x.base.eq(p.base): return x
            for k,x in st.heap.items():
                if s.maybe_eq(st,p.base,x.base) and s.proves(st,p.base==x.base,1500): return x
            if s.on_missing(st,p): return s.obj(st,p,must)
            if must: raise NoObject(p)
        return o
    def maybe_eq(s,st,a,b):
        return not (isint(a) and isint(b) and a.as_long()!=b.as_long())
    def on_missing(s,st,p): return False
    def const_off(s,st,off,hint=None):
        off=simp(off)
        if isint(off): return off.as_long()
        return None
    def split(s,e):
        """linear form {id:(term,coef)}, const"""
        out={}; c=[0]
        def go(x,k):
            if isint(x): c[0]+=k*x.as_long(); return
            if z3.is_add(x):
                for y in x.children(): go(y,k)
                return
            if z3.is_sub(x):
                ch=x.children(); go(ch[0],k)
                for y in ch[1:]: go(y,-k)
                return
            if x.decl().kind()==z3.Z3_OP_UMINUS: go(x.children()[0],-k); return
            if z3.is_mul(x):
                ch=x.children()
                m=[y for y in ch if isint(y)]; r=[y for y in ch if not isint(y)]
                if m and len(r)>=1:
                    kk=k
                    for y in m: kk*=y.as_long()
                    z=r[0]
                    for y in r[1:]: z=z*y
                    if len(r)==1: go(z,kk)
                    else:
                        i=z.get_id(); t,q=out.get(i,(z,0)); out[i]=(z,q+kk)
                    return
            i=x.get_id(); t,q=out.get(i,(x,0)); out[i]=(x,q+k)
        go(e,1)
        return out,c[0]
    def index(s,st,off,esize):
        if esize==1: return off
        off=simp(off)
        t,c=s.split(off)
        if c%esize==0 and all(q%esize==0 for _,q in t.values()):
            r=I(c//esize)
            for x,q in t.values():
                if q: r=r+(x*(q//esize) if q!=esize else x)
            return simp(r)
        s.oblige(st,off%esize==0,"aligned array access")
        return off/esize
    def unfold_at(s,st,o,off,w,write):
        """expand abstract predicates overlapping [off,off+w)"""
        more=True
        while more:
            more=False
            for po in list(o.preds):
                p=o.preds[po]
                if po<off+w and off<po+p.size:
                    f=s.predkinds.get(p.kind)
                    if f is None or not f.unfold: raise Unsupported("raw access inside abstract %s"%p.kind)
                    del o.preds[po]
                    f.unfold(s,st,o,po,p); more=True; break
    def load(s,st,p,w,ty,what="load"):
        if isnull(p): s.oblige(st,False,"%s through a null pointer"%what); raise Fail("null")
        o=s.obj(st,p)
        c=s.const_off(st,p.off)
        if c is not None: s.unfold_at(st,o,c,w,False)
        if c is not None and c in o.cells:
            cw,v=o.cells[c]
            if cw!=w: raise Unsupported("load width %d of %d-byte cell"%(w,cw))
            if v is None:
                s.oblige(st,False,"read of an uninitialised field"); v=s.fresh_val(st,ty,"undef"); o.cells[c]=(w,v)
            if isinstance(v,Ptr)!=(ty.k=="ptr"): raise Unsupported("type-punned cell load")
            return v
        if o.arr is not None:
            a=o.arr
            if a.kind=="ptr" and ty.k!="ptr" or a.kind=="int" and ty.k=="ptr" or a.esize!=w: raise Unsupported("array load width/type")
            i=s.index(st,p.off,a.esize)
            s.oblige(st,z3.And(i>=0,i<a.len),"%s within the array (%s)"%(what,o.name))
            v=simp(z3.Select(a.m,i))
            if a.kind=="ptr": return Ptr(v,ZERO)
            s.range_fact(st,v,w*8)
            return v
        if c is not None and o.size is not None and isint(o.size) and o.size.as_long()>=0 and not o.raw:
            if not(0<=c and c+w<=o.size.as_long()):
                s.oblige(st,False,"%s within the object (%s)"%(what,o.name)); raise Fail("oob")
            s.oblige(st,False,"read of an uninitialised field (%s+%d)"%(o.name,c))
            v=s.fresh_val(st,ty,"undef"); o.cells[c]=(w,v); return v
        if o.raw or o.size is not None:
            # untyped fresh memory: element type is decided by the first access
            s.type_raw(st,o,w,ty)
            return s.load(st,p,w,ty,what)
        raise Unsupported("load from %s+%s"%(o.name,p.off))
    def type_raw(s,st,o,w,ty):
        if o.cells or o.preds: raise Unsupported("mixed use of %s"%o.name)
        n=s.index(st,o.size,w)
        o.arr=Arr(w,n,fresh("A_"+o.name,ARR),"ptr" if ty.k=="ptr" else "int"); o.raw=False
    def range_fact(s,st,v,bits):
        if isint(v): return
        b=1<<(bits-1)
        st.assume(v>=-b,v<b)
    def store(s,st,p,v,w,ty,what="store"):
        if isnull(p): s.oblige(st,False,"%s through a null pointer"%what); raise Fail("null")
        o=s.obj(st,p)
        if o.ro: s.oblige(st,False,"%s does not modify the operand %s"%(what,o.name))
        c=s.const_off(st,p.off)
        if c is not None: s.unfold_at(st,o,c,w,True)
        if o.arr is None and c is not None and (o.size is None or isint(o.size)) and not o.raw:
            if o.size is not None and not (0<=c and c+w<=o.size.as_long()):
                s.oblige(st,False,"%s within the object (%s)"%(what,o.name)); raise Fail("oob")
            if c in o.cells:
                if o.cells[c][0]!=w:
                    del o.cells[c]
            for k in list(o.cells):
                if k!=c and k<c+w and c<k+o.cells[k][0]: del o.cells[k]
            o.cells[c]=(w,v); return
        if o.arr is None:
            s.type_raw(st,o,w,ty)
        a=o.arr
        if a.esize!=w: raise Unsupported("array store width")
        i=s.index(st,p.off,a.esize)
        s.oblige(st,z3.And(i>=0,i<a.len),"%s within the array (%s)"%(what,o.name))
        if isinstance(v,Ptr):
            if a.kind!="ptr": raise Unsupported("pointer into int array")
            s.oblige(st,v.off==0,"array element points to the start of an object"); v=v.base
        elif a.kind=="ptr": raise Unsupported("int into pointer array")
        a.m=simp(z3.Store(a.m,i,v))
    def fresh_val(s,st,ty,name):
        if ty.k=="ptr":
            return Ptr(fresh(name+"_b"),fresh(name+"_o"))
        if ty.k=="int":
            if ty.a==1: return fresh(name,BOOL)
            v=fresh(name); 
            if st is not None: s.range_fact(st,v,ty.a)
            return v
        raise Unsupported("fresh %r"%ty)
    # ---------- values
    def val(s,st,v):
        if v.kind=="local":
            if v.v not in st.env: raise Unsupported("undefined local "+v.v)
            return st.env[v.v]
        if v.kind=="int":
            if v.ty.k=="int" and v.ty.a==1: return z3.BoolVal(v.v!=0)
            return I(v.v)
        if v.kind=="null": return NULL
        if v.kind=="global": return s.globalptr(st,v.v)
        if v.kind=="undef":
            return s.fresh_val(st,v.ty,"undef")
        if v.kind=="cexpr" and v.v[0]=="gep":
            _,bt,a,idx=v.v
            return s.gep(st,bt,s.val(st,a),[s.val(st,x) for x in idx])
        raise Unsupported("operand %s"%v.kind)
    def globalptr(s,st,name):
        name=s.canon(name)
        if name not in s.globals:
            s.globals[name]=z3.Const("G_"+name.lstrip("@"),INT)
            b=s.globals[name]
            s.facts.append(b<0)
            for k,x in s.globals.items():
                if k!=name: s.facts.append(x!=b)
        return Ptr(s.globals[name],ZERO)
    def canon(s,name):
        return name.replace("C1E","C2E").replace("D1Ev","D2Ev") if name.startswith("@_ZN") else name
    def gep(s,st,bt,p,idx):
        off=idx[0]*s.mod.sizeof(bt); t=bt
        for x in idx[1:]:
            t=s.mod.resolve(t)
            if t.k=="struct":
                k=x.as_long(); off=off+s.mod.layout(t)[1][k]; t=t.a[k]
            elif t.k in("arr","vec"):
                t=t.b; off=off+x*s.mod.sizeof(t)
            else: raise Unsupported("gep")
        return Ptr(p.base,simp(p.off+off))
    def unsigned(s,st,x,bits):
        if isint(x):
            k=x.as_long(); return I(k if k>=0 else k+(1<<bits))
        if s.nonneg(st,x): return x
        return z3.If(x<0,x+(1<<bits),x)
    def nonneg(s,st,x):
        k=("nn",x.get_id(),len(st.pc),id(st))
        return s.check([f for f in st.pc if not has_quant(f)],x>=0,timeout=300)=="unsat"
    def icmp(s,st,pred,a,b,ty):
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if pred=="eq": return simp(veq(a,b))
            if pred=="ne": return simp(z3.Not(veq(a,b)))
            same_base=same(a.base,b.base)
            f={"ult":lambda x,y:x<y,"ule":lambda x,y:x<=y,"ugt":lambda x,y:x>y,"uge":lambda x,y:x>=y}.get(pred)
            if f is None: raise Unsupported("pointer icmp "+pred)
            if same_base: return simp(f(a.off,b.off))
            if s.proves(st,a.base==b.base): return simp(f(a.off,b.off))
            return fresh("pcmp",BOOL)
        if z3.is_bool(a):
            if pred=="eq": return simp(a==b)
            if pred=="ne": return simp(a!=b)
            a=b2i(a); b=b2i(b)
            raise Unsupported("bool icmp")
        if pred=="eq": return simp(a==b)
        if pred=="ne": return simp(a!=b)
        if pred[0]=="u":
            a=s.unsigned(st,a,ty.a); b=s.unsigned(st,b,ty.a)
        p=pred[1:]
        return simp({"lt":a<b,"le":a<=b,"gt":a>b,"ge":a>=b}[p])
    # ---------- instructions
    def trunc(s,st,x,bits):
        if bits==1: return tobool(x)
        h=1<<(bits-1)
        if isint(x):
            k=x.as_long()&((1<<bits)-1); return I(k-(1<<bits) if k>=h else k)
        if s.check([f for f in st.pc if not has_quant(f)],z3.And(x>=-h,x<h),timeout=400)=="unsat": return x
        s.assumption("truncation to i%d modelled exactly (wrap-around)"%bits)
        return (x+h)%(1<<bits)-h
    def arith(s,st,ins):
        a=s.val(st,ins.args[0]); b=s.val(st,ins.args[1]); op=ins.op; bits=ins.ty.a
        if z3.is_bool(a):
            return simp({"and":z3.And,"or":z3.Or,"xor":z3.Xor,"add":z3.Xor,"mul":z3.And}[op](a,b))
        if op=="add": return simp(a+b)
        if op=="sub": return simp(a-b)
        if op=="mul": return simp(a*b)
        if op=="shl" and isint(b): return simp(a*(1<<b.as_long()))
        if op in("lshr","ashr") and isint(b):
            if op=="lshr": a=s.unsigned(st,a,bits)
            return simp(a/(1<<b.as_long()))
        if op in("sdiv","srem"):
            if isinstance(b,z3.ExprRef) and not isint(b): s.oblige(st,b!=0,"division by zero")
            nn=s.nonneg(st,a) and (isint(b) and b.as_long()>0 or s.nonneg(st,b))
            if nn: return simp(a/b) if op=="sdiv" else simp(a%b)
            q=z3.If(a>=0,z3.If(b>0,a/b,-(a/(-b))),z3.If(b>0,-((-a)/b),(-a)/(-b)))
            return simp(q) if op=="sdiv" else simp(a-b*q)
        if op in("udiv","urem"):
            a=s.unsigned(st,a,bits); b=s.unsigned(st,b,bits)
            if not isint(b): s.oblige(st,b!=0,"division by zero")
            return simp(a/b) if op=="udiv" else simp(a%b)
        if op=="and":
            if isint(a): a,b=b,a
            if isint(b):
                m=b.as_long()
                if m>=0 and (m&(m+1))==0: return simp(a%(m+1))
                if m<0 and ((-m)&(-m-1))==0: return simp(a-a%(-m))
        if op=="xor":
            if isint(a): a,b=b,a
            if isint(b) and b.as_long()==-1: return simp(-a-1)
            if isint(b) and b.as_long()==1 and z3.is_app_of(a,z3.Z3_OP_ITE): return simp(b2i(z3.Not(tobool(a))))
        if op=="or":
            ab=[tobool(x) for x in (a,b)] if all(s.is01(x) for x in (a,b)) else None
            if ab: return simp(b2i(z3.Or(*ab)))
        if op=="and" and s.is01(a) and s.is01(b): return simp(b2i(z3.And(tobool(a),tobool(b))))
        raise Unsupported("arith "+ins.text)
    def is01(s,x):
        if isint(x): return x.as_long() in(0,1)
        return z3.is_app_of(x,z3.Z3_OP_ITE) and s.is01(x.children()[1]) and s.is01(x.children()[2])
    def step(s,st,ins,cfg):
        """executes a non-terminator; returns list of states"""
        if ins.dbg: s.line=ins.dbg
        op=ins.op
        if op in("add","sub","mul","shl","sdiv","udiv","srem","urem","lshr","ashr","and","or","xor"):
            st.env[ins.res]=s.arith(st,ins); return
        if op=="icmp":
            a=s.val(st,ins.args[0]); b=s.val(st,ins.args[1])
            st.env[ins.res]=s.icmp(st,ins.extra,a,b,ins.args[0].ty); return
        if op=="sext":
            a=s.val(st,ins.args[0])
            st.env[ins.res]=simp(z3.If(a,I(-1),ZERO)) if z3.is_bool(a) else a; return
        if op=="zext":
            a=s.val(st,ins.args[0])
            st.env[ins.res]=simp(b2i(a)) if z3.is_bool(a) else s.unsigned(st,a,ins.args[0].ty.a); return
        if op=="trunc": st.env[ins.res]=s.trunc(st,s.val(st,ins.args[0]),ins.ty.a); return
        if op in("freeze","bitcast"): st.env[ins.res]=s.val(st,ins.args[0]); return
        if op=="ptrtoint":
            p=s.val(st,ins.args[0]); st.env[ins.res]=simp(s.addr(st,p)); return
        if op=="select":
            c=s.val(st,ins.args[0]); st.env[ins.res]=vite(c,s.val(st,ins.args[1]),s.val(st,ins.args[2]))
            if z3.is_true(c): st.env[ins.res]=s.val(st,ins.args[1])
            elif z3.is_false(c): st.env[ins.res]=s.val(st,ins.args[2])
            return
        if op=="alloca":
            n=s.mod.sizeof(ins.extra)
            o=s.new_obj(st,n,"local"+ins.res,"alloca"); st.env[ins.res]=Ptr(o.base,ZERO); return
        if op=="load":
            st.env[ins.res]=s.load(st,s.val(st,ins.args[0]),s.mod.sizeof(ins.ty),ins.ty); return
        if op=="store":
            v=s.val(st,ins.args[0])
            s.store(st,s.val(st,ins.args[1]),v,s.mod.sizeof(ins.ty),ins.ty); return
        if op=="gep":
            st.env[ins.res]=s.gep(st,ins.extra,s.val(st,ins.args[0]),[s.val(st,x) for x in ins.args[1:]]); return
        if op=="extractvalue":
            v=s.val(st,ins.args[0])
            for i in ins.extra: v=v[i]
            st.env[ins.res]=v; return
        if op=="call": return s.call(st,ins,cfg)
        if op=="unsupported": raise Unsupported(ins.extra)
        raise Unsupported(op+": "+ins.text)
    def addr(s,st,p):
        f=z3.Function("ADDR",INT,INT)
        if isnull(p): return p.off
        s.facts_once(f(ZERO)==0)
        return f(p.base)+p.off
    def facts_once(s,f):
        if not any(f.eq(x) for x in s.facts): s.facts.append(f)
    # ---------- calls
    def call(s,st,ins,cfg):
        cal=ins.extra
        args=[s.val(st,a) if a.kind!="meta" else None for a in ins.args]
        if cal.kind=="global":
            nm=s.canon(cal.v)
            if nm.startswith("@llvm."): return s.intrinsic(st,nm,ins,args)
            key=s.dm.get(nm) or s.dm.get(cal.v) or nm.lstrip("@")
            c=s.contracts.get(key) or s.contracts.get(nm.lstrip("@"))
            if c is None: raise Unsupported("call to %s without a contract"%key)
        else:
            fp=s.val(st,cal)
            c=s.indirect(st,fp,args)
            if isinstance(c,list):
                # one case per function the pointer can hold
                s.oblige(st,z3.Or(*[f for f,_ in c]) if c else FALSE,"indirect call goes to a function under contract")
                res=[]
                for f,k in c:
                    t=st.copy(); t.assume(f)
                    if not s.feasible(t): continue
                    s.called.add(k.name)
                    try: outs=k.apply(s,t,args,ins)
                    except Fail: continue
                    res+=[t] if outs is None else outs
                return res
            key=c.name
        s.called.add(key)
        if c.trusted: s.trusted.add(key)
        outs=c.apply(s,st,args,ins)
        if outs is None: return
        return outs
    def indirect(s,st,fp,args):
        out=[]
        for nm,g in s.globals.items():
            c=s.contracts.get(s.dm.get(nm))
            if c is not None: out.append((veq(fp,Ptr(g,ZERO)),c))
        return out
    def intrinsic(s,st,nm,ins,args):
        if nm.startswith("@llvm.umul.with.overflow") or nm.startswith("@llvm.uadd.with.overflow"):
            bits=int(nm.rsplit(".i",1)[1])
            a=s.unsigned(st,args[0],bits); b=s.unsigned(st,args[1],bits)
            r=simp(a*b if "umul" in nm else a+b)
            ov=s.check([f for f in st.pc if not has_quant(f)],r<(1<<bits),timeout=1000)!="unsat"
            st.env[ins.res]=(r,simp(r>=(1<<bits)) if ov else FALSE); return
        if ".lifetime." in nm or ".dbg." in nm or "experimental.noalias" in nm or ".assume" in nm: return
        if nm.startswith(("@llvm.memcpy","@llvm.memmove")): return s.memcpy(st,args[0],args[1],args[2])
        if nm.startswith("@llvm.memset"): return s.memset(st,args[0],args[1],args[2])
        if re.match(r"@llvm\.(s|u)(max|min)\.",nm):
            k=nm.split(".")[1]; a,b=args[0],args[1]
            if k[0]=="u":
                bits=int(nm.rsplit(".i",1)[1]); a=s.unsigned(st,a,bits); b=s.unsigned(st,b,bits)
            st.env[ins.res]=simp(z3.If((a>=b) if k[1:]=="max" else (a<=b),a,b)); return
        if nm.startswith("@llvm.abs."):
            a=args[0]; st.env[ins.res]=simp(z3.If(a<0,-a,a)); return
        raise Unsupported("intrinsic "+nm)
    def memset(s,st,d,v,n):
        if not (isint(n) and isint(v)): 
            return s.memset_arr(st,d,v,n)
        o=s.obj(st,d); c=s.const_off(st,d.off)
        if c is None or v.as_long()!=0: raise Unsupported("memset")
        k=0; N=n.as_long(); s.unfold_at(st,o,c,N,True)
        for x in list(o.cells):
            if c<=x and x+o.cells[x][0]<=c+N: del o.cells[x]
        o.ghost_zero=None
        while k<N:
            w=8 if N-k>=8 else 4 if N-k>=4 else 1
            o.cells[c+k]=(w,("zero",)); k+=w
        raise Unsupported("memset of cells")
    def memset_arr(s,st,d,v,n):
        o=s.obj(st,d)
        if o.ro: s.oblige(st,False,"memset does not modify the operand")
        if not(isint(v) and v.as_long()==0): raise Unsupported("memset value")
        if o.arr is None:
            s.type_raw(st,o,4,ir.Ty("int",32))
        a=o.arr
        lo=s.index(st,d.off,a.esize); cnt=s.index(st,n,a.esize)
        s.oblige(st,z3.And(lo>=0,cnt>=0,lo+cnt<=a.len),"memset within the array")
        m=fresh("A_ms",ARR); j=z3.Int("j!")
        st.assume(z3.ForAll([j],m[j]==z3.If(z3.And(lo<=j,j<lo+cnt),ZERO,a.m[j]),patterns=[m[j]]))
        a.m=m
    def memcpy(s,st,d,sr,n):
        od=s.obj(st,d); os=s.obj(st,sr)
        cd=s.const_off(st,d.off); cs=s.const_off(st,sr.off)
        if isint(n) and cd is not None and cs is not None and os.arr is None:
            N=n.as_long()
            if od.ro: s.oblige(st,False,"memcpy does not modify the operand")
            s.unfold_at(st,os,cs,N,False); s.unfold_at(st,od,cd,N,True)
            for x in list(od.cells):
                if cd<x+od.cells[x][0] and x<cd+N: del od.cells[x]
            for x,(w,v) in list(os.cells.items()):
                if cs<=x and x+w<=cs+N: od.cells[cd+x-cs]=(w,v)
                elif cs<x+w and x<cs+N: raise Unsupported("memcpy splits a cell")
            return
        if os.arr is not None and cs is not None or not isint(n):
            if os.arr is None: raise Unsupported("memcpy")
            a=os.arr
            if od.ro: s.oblige(st,False,"memcpy does not modify the operand")
            if od.arr is None: s.type_raw(st,od,a.esize,ir.PTR if a.kind=="ptr" else ir.Ty("int",a.esize*8))
            b=od.arr
            if b.esize!=a.esize: raise Unsupported("memcpy element size")
            lo=s.index(st,d.off,a.esize); ls=s.index(st,sr.off,a.esize); cnt=s.index(st,n,a.esize)
            s.oblige(st,z3.And(cnt>=0,lo>=0,ls>=0,lo+cnt<=b.len,ls+cnt<=a.len),"memcpy within the arrays")
            m=fresh("A_mc",ARR); j=z3.Int("j!")
            st.assume(z3.ForAll([j],m[j]==z3.If(z3.And(lo<=j,j<lo+cnt),a.m[j-lo+ls],b.m[j]),patterns=[m[j]]))
            b.m=m; return
        raise Unsupported("memcpy")
    # ---------- control
    def enter(s,st,cfg,blk,prev):
        """evaluate the phis of blk coming from prev"""
        new={}
        for ins in cfg.f.blocks[blk]:
            if ins.op!="phi": break
            for v,b in ins.extra:
                if b==prev: new[ins.res]=s.val(st,v); break
            else: raise Unsupported("phi without edge")
        st.env.update(new)
    def run(s,st,cfg,blk,prev,loop,depth=0):
        """explores from blk (coming from prev) until return / leaving `loop` / its back edge.
        yields (kind, state, blk, prev): kind in ret, exit, back"""
        out=[]; work=[(st,blk,prev,True)]
        while work:
            st,blk,prev,enter=work.pop()
            if loop is not None:
                if blk==loop.header and prev is not None and prev in loop.body and enter: out.append(("back",st,blk,prev)); continue
                if blk not in loop.body: out.append(("exit",st,blk,prev)); continue
            if blk in cfg.loops and enter and not(loop is not None and blk==loop.header):
                for st2,b2,p2 in s.do_loop(st,cfg,cfg.loops[blk],prev):
                    if b2 is None: out.append(("ret",st2,None,p2))
                    else: work.append((st2,b2,p2,True))
                continue
            if enter and prev is not None: s.enter(st,cfg,blk,prev)
            s.steps+=1
            if s.steps>s.max_steps: raise Unsupported("too many steps")
            try: s.block(st,cfg,blk,0,work,out)
            except Fail: pass
        return out
    max_steps=60000
    def block(s,st,cfg,blk,start,work,out):
        ins_l=cfg.f.blocks[blk]
        for k in range(start,len(ins_l)):
            ins=ins_l[k]
            if ins.op=="phi": continue
            if ins.op in("br","switch","ret","unreachable"): break
            r=s.step(st,ins,cfg)
            if r is not None:
                # the call produced several cases
                for st2 in r:
                    try: s.block(st2,cfg,blk,k+1,work,out)
                    except Fail: pass
                return
        if ins.dbg: s.line=ins.dbg
        if ins.op=="ret":
            out.append(("ret",st,None,s.val(st,ins.args[0]) if ins.args else None)); return
        if ins.op=="unreachable": return
        if ins.op=="br":
            if not ins.args: work.append((st,ins.extra[0],blk,True)); return
            c=simp(s.val(st,ins.args[0])); s.branch(st,c,ins.extra[0],ins.extra[1],blk,work); return
        if ins.op=="switch":
            x=s.val(st,ins.args[0]); d,cs=ins.extra; neg=[]
            for k,b in cs:
                t=st.copy(); f=simp(x==k); t.assume(f)
                if t.lits is not None: t.lits.append(f)
                if not z3.is_false(f) and s.feasible(t): work.append((t,b,blk,True))
                neg.append(z3.Not(f))
            st.assume(*[simp(n) for n in neg])
            if s.feasible(st): work.append((st,d,blk,True))
            return
        raise Unsupported(ins.op)
    def branch(s,st,c,bt,bf,blk,work):
        if z3.is_true(c): work.append((st,bt,blk,True)); return
        if z3.is_false(c): work.append((st,bf,blk,True)); return
        nc=simp(z3.Not(c))
        t=st.copy(); 
        for x,f,b in((t,c,bt),(st,nc,bf)):
            x.assume(f)
            if x.lits is not None: x.lits.append(f)
            if s.on_assume(x,f) and s.feasible(x): work.append((x,b,blk,True))
    def on_assume(s,st,f): return True
    # ---------- loops
    def do_loop(s,st0,cfg,L,prev):
        from .loops import run_loop
        return run_loop(s,st0,cfg,L,prev)

class NoObject(Exception):
    def __init__(s,p): s.p=p; Exception.__init__(s,"no object at %r"%p)
def _fresh_like(s,v):
    if isinstance(v,Ptr): return Ptr(fresh("u_b"),fresh("u_o"))
    return fresh("u",v.sort())
Engine.fresh_like=_fresh_like
Engine.cand_timeout=1500
Engine.batch=False
Engine.verbose=False
Engine.loops=0
Engine.term=0
def _try_fold(s,st,o,off,kind):
    k=s.predkinds.get(kind)
    if k is None or k.fold is None: return None
    return k.fold(s,st,o,off)
Engine.try_fold=_try_fold
