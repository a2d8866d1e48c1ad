"""Loop cutting with inferred invariants (Houdini over generated candidates)."""
import z3, re
from .ir import Unsupported
from . import sym
from .sym import Ptr,I,ZERO,fresh,simp,same,isint,has_quant,vsame,Fail,INT,ARR
J=z3.Int("j!q")

def consts(e,acc=None):
    out=acc if acc is not None else {}
    st=[e]; seen=set()
    while st:
        x=st.pop(); i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind()==z3.Z3_OP_UNINTERPRETED: out[i]=x
        st.extend(x.children())
    return out
def num(c):
    m=re.search(r"!(\d+)$",c.decl().name())
    return int(m.group(1)) if m else -1
def psum():
    return z3.Function("PSUM",ARR,INT,INT,INT)
PSUM=psum()

class Slot:
    """one modified location: key, symbol(s) at the header, initial term, kind"""
    __slots__=("key","sym","init","mode","c")
    def __init__(s,key,init): s.key=key; s.init=init; s.sym=None; s.mode="sym"; s.c=None

def parts(v):
    return [("b",v.base),("o",v.off)] if isinstance(v,Ptr) else [("",v)]
def getloc(E,st,key,env):
    k=key[0]
    if k=="phi": return env[key[1]]
    o=None
    for x in st.heap.values():
        if x.base.get_id()==key[1]: o=x; break
    if o is None: return None
    if k=="cell":
        c=o.cells.get(key[2]); return None if c is None else c[1]
    if k=="arr": return None if o.arr is None else o.arr.m
    if k=="pred":
        p=o.preds.get(key[2]); 
        if p is None: return None
        return p.d.get(key[3])
    raise KeyError(key)
def setloc(E,st,key,v):
    k=key[0]
    if k=="phi": st.env[key[1]]=v; return
    for x in st.heap.values():
        if x.base.get_id()==key[1]: o=x; break
    if k=="cell": o.cells[key[2]]=(o.cells[key[2]][0],v)
    elif k=="arr": o.arr.m=v
    elif k=="pred":
        p=o.preds[key[2]]; p2=sym.Pred(p.kind,p.size,dict(p.d),p.ro); p2.d[key[3]]=v; o.preds[key[2]]=p2

class LoopInfo: pass
class Restart(Exception):
    def __init__(s,oid,off): s.oid=oid; s.off=off

def once(E,st0,cfg,L,prev):
    """a single-block loop whose first pass always leaves it (an array of one element)"""
    st=st0.copy(); rec=E.record
    for ins in cfg.f.blocks[L.header]:
        if ins.op!="phi": break
        for v,b in ins.extra:
            if b==prev: st.env[ins.res]=E.val(st0,v)
    if not all(isinstance(st.env[i.res],Ptr) for i in cfg.f.blocks[L.header] if i.op=="phi"): return None
    E.record=False
    try:
        try: outs=body(E,st,cfg,L,ZERO)
        except Unsupported: return None
    finally: E.record=rec
    if not outs or any(o[0]!="exit" for o in outs): return None
    if rec: outs=body(E,st,cfg,L,ZERO)
    for o in outs: o[1].lits=st0.lits if st0.lits is None else list(st0.lits)+list(o[1].lits or [])
    return [(s2,b,p) for _,s2,b,p in outs]
def run_loop(E,st0,cfg,L,prev):
    st0=st0.copy(); rec=E.record
    if len(L.body)==1:
        r=once(E,st0,cfg,L,prev)
        if r is not None: return r
    for _ in range(30):
        try: return run_loop1(E,st0,cfg,L,prev)
        except Restart as r:
            E.record=rec
            o=st0.heap.get(r.oid)
            if o is None or r.off not in o.preds: raise Unsupported("loop unfolds a value made inside it")
            q=o.preds.pop(r.off); E.predkinds[q.kind].unfold(E,st0,o,r.off,q)
    raise Unsupported("loop unfolds too much")

def run_loop1(E,st0,cfg,L,prev):
    f=cfg.f; phis=[]
    st0=st0.copy()
    for ins in f.blocks[L.header]:
        if ins.op!="phi": break
        phis.append(ins)
    def incoming(st,frm):
        r={}
        for ins in phis:
            for v,b in ins.extra:
                if b==frm: r[ins.res]=E.val(st,v); break
        return r
    init=incoming(st0,prev)
    rec=E.record; E.record=False
    absn=E.loop_abstraction(st0,cfg,L,init) if hasattr(E,"loop_abstraction") else None
    if absn is not None: st0,init=absn.prepare(st0,init)
    base_cnt=sym._cnt[0]
    slots={}       # key -> Slot
    shape=E.shape
    for k,v in init.items():
        slots[("phi",k)]=Slot(("phi",k),v)
        if getattr(getattr(E,"cur",None),"phi0",False) and isinstance(v,Ptr) and isint(simp(v.off)): slots[("phi",k)].mode="p0"   # a pointer to the start of changing objects
        if absn is not None and absn.is_cursor(k): slots[("phi",k)].mode="inv"
    typed={}       # obj id -> Arr prototype typed inside the body
    try:
        outs=None
        for rnd in range(14):
            hs,n,symmap=header(E,st0,slots,typed,absn)
            mark=sym._cnt[0]
            E.shape=True
            try: outs=body(E,hs,cfg,L,n)
            finally: E.shape=shape
            backs=[o for o in outs if o[0]=="back"]
            changed=False
            bk=[]
            for kind,st,b,p in backs:
                env=incoming(st,p)
                if absn is not None: st,env=absn.fold_back(st,env,hs)
                bk.append((st,env))
            # memory typed in the body
            for st,env in bk:
                for oid,o in st.heap.items():
                    h=hs.heap.get(oid)
                    if h is not None and h.arr is None and o.arr is not None and oid not in typed and not h.cells:
                        typed[oid]=o.arr.copy(); changed=True
            if changed: continue
            for st,env in bk:
                changed|=find_mods(E,hs,st0,st,slots,absn)
            # classify
            for key,sl in slots.items():
                if sl.mode=="sym" and sl.sym is None: changed=True; continue
                if sl.mode in("sym","base") :
                    r=classify(E,hs,sl,[(st,getloc(E,st,key,env)) for st,env in bk])
                    if r!=sl.mode: changed=True; sl.mode=r
                elif sl.mode in("inv","lin"):
                    hv=getloc(E,hs,key,hs.env)
                    for st,env in bk:
                        v=getloc(E,st,key,env)
                        ok=v is not None and (vsame(v,hv) if sl.mode=="inv" else lin_ok(hv,v,sl.c))
                        if not ok: sl.mode="sym!" ; changed=True
                elif sl.mode=="p0":
                    for st,env in bk:
                        v=getloc(E,st,key,env)
                        if not isinstance(v,Ptr) or not same(v.off,sl.init.off): sl.mode="sym!"; changed=True
                elif sl.mode=="base!":
                    for st,env in bk:
                        v=getloc(E,st,key,env)
                        if not isinstance(v,Ptr) or not same(v.base,sl.init.base): sl.mode="sym!"; changed=True
            if not changed: break
        else: raise Unsupported("loop shape does not stabilise")
        # only the shape of this loop is asked for while the shape of an outer loop is being found
        cands=candidates(E,st0,hs,n,symmap,slots,bk,base_cnt,mark,absn) if not shape else []
        con=getattr(E,"cur",None)
        ctx=LoopInfo(); ctx.st0=st0; ctx.hs=hs; ctx.n=n; ctx.slots=slots; ctx.symmap=symmap; ctx.init=init; ctx.line=E.line; ctx.bk=bk; ctx.E=E; ctx.absn=absn; ctx.L=L; ctx.nested=any(M is not L and M.header in L.body for M in cfg.loops.values())
        if con is not None and getattr(con,"invs",None) and not shape:
            cands+= [c for c in con.invs(ctx)]
        # init
        ini=[(a,b) for a,b in symmap_terms(symmap,lambda sl: sl.init)]
        if absn is not None: ini+=absn.init_subst()
        good=[]
        seen=set(); ks=[]
        for c in cands:
            c=simp(c)
            if z3.is_true(c) or c.get_id() in seen: continue
            seen.add(c.get_id()); ks.append(c)
        gs=[z3.substitute(c,*(ini+[(n,ZERO)])) for c in ks]
        bad=batch(E,st0,gs)
        for i,c in enumerate(ks):
            if i not in bad: good.append(c)
            elif E.verbose>1: print("   init drop",str(c)[:200])
        cands=good
        for rnd in range(12 if not shape else 0):
            # fresh header each time would rename symbols: reuse hs by copying
            h2=hs.copy(); h2.assume(*cands)
            outs=body(E,h2,cfg,L,n)
            drop=set()
            for kind,st,b,p in outs:
                if kind!="back": continue
                env=incoming(st,p)
                if absn is not None: st,env=absn.fold_back(st,env,hs)
                refold(E,hs,st,absn)
                if find_mods(E,hs,st0,st,slots,absn): raise Unsupported("loop changes more than its shape shows")
                sub=[]; bad=False
                for key,sl in slots.items():
                    v=getloc(E,st,key,env)
                    if v is not None and sl.mode in("inv","lin","base!","p0"):
                        hv=getloc(E,hs,key,hs.env)
                        if not(vsame(v,hv) if sl.mode=="inv" else lin_ok(hv,v,sl.c) if sl.mode=="lin" else isinstance(v,Ptr) and (same(v.off,sl.init.off) if sl.mode=="p0" else same(v.base,sl.init.base))): raise Unsupported("loop changes more than its shape shows")
                    if sl.sym is None: continue
                    if v is None: raise Unsupported("loop: location lost")
                    for (t,a),(t2,b2) in zip(parts(sl.sym),parts(v)):
                        if z3.is_const(a) and a.decl().kind()==z3.Z3_OP_UNINTERPRETED and not any(a.eq(x) for x,_ in sub): sub.append((a,b2))
                if absn is not None: sub+=absn.back_subst(st)
                sub.append((n,n+1))
                todo=[i for i,c in enumerate(cands) if i not in drop]
                bad=batch(E,st,[z3.substitute(cands[i],*sub) for i in todo])
                for k in bad:
                    drop.add(todo[k])
                    if E.verbose: print("   step drop",str(cands[todo[k]])[:300].replace("\n"," "))
            if not drop: break
            cands=[c for i,c in enumerate(cands) if i not in drop]
        else:
            if not shape: raise Unsupported("invariant inference does not stabilise")
        if E.verbose:
            print(" loop %s line %s: n=%s slots=%s"%(L.header,E.line,n,[(k,sl.mode,sl.c) for k,sl in slots.items()]))
            for c in cands: print("    inv",str(c)[:400].replace("\n"," "))
    finally:
        E.record=rec
    h2=hs.copy(); h2.assume(*cands)
    outs=body(E,h2,cfg,L,n)
    if rec:
        E.loops+=1
        # termination: some invariant bounds n, or a list measure decreases
        lim=[c for c in cands if bounds_n(c,n,symmap)]
        if lim: E.term+=1
        elif absn is not None and absn.terminates(hs,outs,incoming): E.term+=1
        else: E.assumption("termination of the loop in %s is not proved"%E.fn)
    res=[]
    for kind,st,b,p in outs:
        if kind=="exit": res.append((st,b,p))
        elif kind=="ret": res.append((st,None,p))
        elif kind=="back" and absn is not None and rec: absn.final_back(st,incoming(st,p))
    for st,b,p in res:
        st.lits=st0.lits if st0.lits is None else list(st0.lits)
    return res

def batch(E,st,gs):
    """indices of the goals that are not proved; with E.batch whole groups are decided at once"""
    bad=set()
    if not E.batch:
        for i,g in enumerate(gs):
            if not E.proves(st,g,timeout=E.cand_timeout): bad.add(i)
        return bad
    live=[]
    for i,g in enumerate(gs):
        g=simp(g)
        if z3.is_true(g): continue
        if z3.is_false(g): bad.add(i); continue
        live.append((i,g))
    def go(live,depth):
        while live:
            if len(live)==1:
                if not E.proves(st,live[0][1],timeout=E.cand_timeout): bad.add(live[0][0])
                return
            r=E.check(st.pc,z3.And(*[g for _,g in live]),timeout=E.cand_timeout)
            if r=="unsat": return
            if r=="sat":
                m=E._last.model(); keep=[]
                for i,g in live:
                    if z3.is_false(m.eval(g,model_completion=True)): bad.add(i)
                    else: keep.append((i,g))
                if len(keep)<len(live): live=keep; continue
            h=len(live)//2
            go(live[:h],depth+1); live=live[h:]
    go(live,0)
    return bad

def bounds_n(c,n,symmap=()):
    """c bounds the iteration count n from above by terms that do not change in the loop"""
    neg=False
    while z3.is_not(c): c=c.arg(0); neg=not neg
    if z3.is_quantifier(c) or not z3.is_app(c): return False
    k=c.decl().kind()
    if z3.is_and(c) and not neg or z3.is_or(c) and neg: return any(bounds_n(z3.Not(x) if neg else x,n,symmap) for x in c.children())
    if k in(z3.Z3_OP_LE,z3.Z3_OP_LT): d=c.arg(1)-c.arg(0)
    elif k in(z3.Z3_OP_GE,z3.Z3_OP_GT): d=c.arg(0)-c.arg(1)
    else: return False
    if not z3.is_int(d): return False
    if neg: d=-d
    e=simp(z3.substitute(d,(n,n+1))-d)
    if not(isint(e) and e.as_long()<0): return False
    cs=consts(simp(d)); return not any(a.get_id() in cs for sl in symmap for _,a in parts(sl.sym))

def lin_ok(h,v,c):
    if isinstance(h,Ptr)!=isinstance(v,Ptr): return False
    if isinstance(h,Ptr):
        return same(h.base,v.base) and isint(simp(v.off-h.off)) and simp(v.off-h.off).as_long()==c
    if not z3.is_int(h): return False
    d=simp(v-h); return isint(d) and d.as_long()==c

def classify(E,hs,sl,vals):
    """decide the update class of a fresh-symbol slot"""
    h=sl.sym
    if not vals: return "sym!"
    vs=[v for _,v in vals]
    if any(v is None for v in vs): raise Unsupported("loop: location lost %r"%(sl.key,))
    if all(vsame(v,h) for v in vs): sl.c=0; return "inv"
    if isinstance(h,Ptr):
        if not all(isinstance(v,Ptr) for v in vs): return "sym!"
        if all(same(v.base,h.base) for v in vs):
            ds=[simp(v.off-h.off) for v in vs]
            if all(isint(d) for d in ds) and len({d.as_long() for d in ds})==1: sl.c=ds[0].as_long(); return "lin"
            return "base!" 
        return "sym!"
    if z3.is_int(h):
        ds=[simp(v-h) for v in vs]
        if all(isint(d) for d in ds) and len({d.as_long() for d in ds})==1: sl.c=ds[0].as_long(); return "lin"
    return "sym!"

def header(E,st0,slots,typed,absn):
    hs=st0.copy(); n=fresh("n"); hs.assume(n>=0)
    for oid,a in typed.items():
        o=hs.heap.get(oid)
        if o is not None and o.arr is None:
            m0=fresh("A0",ARR); o.arr=sym.Arr(a.esize,a.len,m0,a.kind); o.raw=False
            so=st0.heap.get(oid)
            if so.arr is None: so.arr=sym.Arr(a.esize,a.len,m0,a.kind); so.raw=False
            else: o.arr.m=so.arr.m
            k=("arr",o.base.get_id())
            if k not in slots: slots[k]=Slot(k,so.arr.m)
    symmap=[]
    for key,sl in slots.items():
        iv=sl.init
        if sl.mode=="inv": v=iv; sl.sym=None
        elif sl.mode=="lin":
            v=Ptr(iv.base,simp(iv.off+sl.c*n)) if isinstance(iv,Ptr) else simp(iv+sl.c*n); sl.sym=None
        else:
            nm="L_"+re.sub(r"\W","",str(key[1]) if key[0]=="phi" else key[0])
            if isinstance(iv,Ptr):
                keepb=sl.mode in("sym","base!")
                v=Ptr(iv.base if keepb else fresh(nm+"_b"),iv.off if sl.mode=="p0" else fresh(nm+"_o"))
            else:
                v=fresh(nm,iv.sort())
                if z3.is_int(v): E.range_fact(hs,v,64 if key[0]!="phi" else 64)
            sl.sym=v; symmap.append(sl)
        setloc(E,hs,key,v)
    if absn is not None: absn.make_header(hs,n)
    return hs,n,symmap
def symmap_terms(symmap,get):
    out=[]
    for sl in symmap:
        for (t,a),(t2,b) in zip(parts(sl.sym),parts(get(sl))):
            if z3.is_const(a) and a.decl().kind()==z3.Z3_OP_UNINTERPRETED and not any(a.eq(x) for x,_ in out): out.append((a,b))
    return out

def body(E,hs,cfg,L,n):
    st=hs.copy(); st.lits=[]
    out=[]; work=[]
    try: E.block(st,cfg,L.header,0,work,out)
    except Fail: pass
    # continue every successor within the loop
    res=list(out)
    while work:
        s2,b,p,_=work.pop()
        res+=E.run(s2,cfg,b,p,L)
    return res

def refold(E,hs,st,absn):
    for oid,h in list(hs.heap.items()):
        if absn is not None and absn.owns(h): continue
        o=st.heap.get(oid)
        if o is None: continue
        for c,p in h.preds.items():
            q=o.preds.get(c)
            if (q is None or q.kind!=p.kind) and not(h.ro or p.ro): E.try_fold(st,o,c,p.kind)

def find_mods(E,hs,st0,st,slots,absn):
    ch=False
    for oid,h in list(hs.heap.items()):
        if absn is not None and absn.owns(h): continue
        o=st.heap.get(oid)
        if o is None: raise Unsupported("loop frees %s"%h.name)
        if h.arr is not None and o.arr is not None and not same(h.arr.m,o.arr.m):
            k=("arr",h.base.get_id())
            if k not in slots: slots[k]=Slot(k,st0.heap[oid].arr.m); ch=True
        for c,p in h.preds.items():
            q=o.preds.get(c)
            if (q is None or q.kind!=p.kind) and not(h.ro or p.ro): E.try_fold(st,o,c,p.kind)
        for c,(w,v) in h.cells.items():
            if c not in o.cells: raise Unsupported("loop: cell lost in %s"%h.name)
            if v is None: 
                continue
            if not vsame(v,o.cells[c][1]):
                k=("cell",h.base.get_id(),c)
                if k not in slots: slots[k]=Slot(k,st0.heap[oid].cells[c][1]); ch=True
        for c,(w,v) in list(o.cells.items()):
            if c not in h.cells:
                # first written inside the loop: its value before the loop is arbitrary
                if h.preds and any(c2<c+w and c<c2+p.size for c2,p in h.preds.items()): raise Restart(oid,[c2 for c2,p in h.preds.items() if c2<c+w and c<c2+p.size][0])
                iv=E.fresh_like(v); st0.heap[oid].cells[c]=(w,iv); h.cells[c]=(w,iv); ch=True
                k=("cell",h.base.get_id(),c); slots[k]=Slot(k,iv)
        for c,p in h.preds.items():
            q=o.preds.get(c)
            if q is None and (h.ro or p.ro): raise Restart(oid,c)
            if q is None or q.kind!=p.kind:
                q=E.try_fold(st,o,c,p.kind)
                if q is None: raise Unsupported("loop: %s of %s not restored"%(p.kind,h.name))
            for fld,v in p.d.items():
                if v is None or not isinstance(v,(Ptr,z3.ExprRef)): continue
                if not vsame(v,q.d[fld]):
                    k=("pred",h.base.get_id(),c,fld)
                    if k not in slots: slots[k]=Slot(k,st0.heap[oid].preds[c].d[fld]); ch=True
    for oid,o in st.heap.items():
        if oid not in hs.heap:
            if o.kind=="alloca": continue
            if o.ro or absn is not None and absn.owns(o): continue
            raise Unsupported("loop leaves new memory %s"%o.name)
    return ch

def reindexed(E,l,n):
    """for all iterations j<n: l(j), indexed by the array position l reads (good triggers)"""
    st=[l]; seen=set()
    while st:
        x=st.pop(); i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_select(x) and z3.is_const(x.children()[0]):
            t,c0=E.split(simp(x.children()[1])); cn=t.get(n.get_id())
            if cn is not None and cn[1] in(1,-1):
                d=simp(x.children()[1]-cn[1]*n)
                if n.get_id() not in consts(d):
                    nj=simp((J-d)*cn[1])
                    return z3.ForAll([J],z3.Implies(z3.And(nj>=0,nj<n),simp(subn(l,n,nj))),patterns=[z3.Select(x.children()[0],J)])
        if not z3.is_quantifier(x): st.extend(x.children())
    return z3.ForAll([J],z3.Implies(z3.And(J>=0,J<n),subn(l,n,J)))
def conjuncts(l):
    if z3.is_and(l): return [y for x in l.children() for y in conjuncts(x)]
    if z3.is_not(l):
        x=l.arg(0)
        if z3.is_or(x): return [z for y in x.children() for z in conjuncts(simp(z3.Not(y)))]
        if z3.is_not(x): return conjuncts(x.arg(0))
    return [l]
def const_like(x): return isint(x) or z3.is_true(x) or z3.is_false(x)
def leafs(v,ls):
    """the values of nested case distinctions with their conditions"""
    v=simp(v)
    if z3.is_app_of(v,z3.Z3_OP_ITE):
        c,x,y=v.children(); return leafs(x,ls+[c])+leafs(y,ls+[simp(z3.Not(c))])
    return [(ls,v)]
def descending(E,e,n):
    """d with all array reads of e at position d-n"""
    st=[e]; seen=set(); r=None
    while st:
        x=st.pop(); i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): return None
        if z3.is_select(x) and z3.is_const(x.children()[0]):
            d=simp(x.children()[1]+n)
            if n.get_id() in consts(d) or r is not None and not d.eq(r): return None
            r=d
        else: st.extend(x.children())
    return r
def subn(e,n,v): return z3.substitute(e,(n,v))
def candidates(E,st0,hs,n,symmap,slots,bk,base_cnt,mark,absn):
    out=[]
    arrs={}; syms=[]
    for sl in symmap:
        if isinstance(sl.sym,Ptr):
            for (t,a),(t2,i) in zip(parts(sl.sym),parts(sl.init)):
                if z3.is_const(a) and not isint(a) and a.decl().kind()==z3.Z3_OP_UNINTERPRETED: syms.append((a,i,sl,t))
        elif z3.is_array(sl.sym): arrs[sl.sym.get_id()]=(sl.sym,sl.init,sl)
        else: syms.append((sl.sym,sl.init,sl,""))
    symids={a.get_id() for a,_,_,_ in syms}
    def clean(e,allow=()):
        """only header-time constants, no loop symbols except n and allowed"""
        for i,c in consts(e).items():
            if num(c)>mark: return False
            if i in symids and i not in allow: return False
            if i in arrs: return False
        return True
    def old(e):
        """reads of the modified arrays replaced by reads of their initial content"""
        return z3.substitute(e,*[(a,i) for a,i,_ in arrs.values()]) if arrs else e
    # path literals
    paths=[]
    for st,env in bk:
        ls=[x for l in (st.lits or []) if not has_quant(l) for x in conjuncts(l)]
        paths.append(ls)
    conj=[]
    for ls in paths:
        conj.append([l for l in ls if clean(old(l))])
    if conj:
        # single literals common to all back paths; otherwise the disjunction
        common=[l for l in conj[0] if all(any(l.eq(m) for m in c) for c in conj[1:])]
        extra=[]
        if len(conj)>1:
            extra=[z3.Or(*[z3.And(*[l for l in c]) if c else z3.BoolVal(True) for c in conj])]
        for l in common+extra:
            out.append(reindexed(E,old(l),n))
            sh=simp(subn(old(l),n,n-1))
            out+=[sh,z3.Or(n<=0,sh)]
            for v in weaken(l): out+=[subn(old(v),n,n-1),old(v)]
    # literals rewritten through the updates
    for st,env in bk:
        vals=[]
        for a,i,sl,t in syms:
            v=getloc(E,st,sl.key,env)
            v=v if not isinstance(v,Ptr) else (v.base if t=="b" else v.off)
            if v is not None and not isint(v) and not v.eq(a): vals.append((v,a))
        for l in (st.lits or []):
            if has_quant(l): continue
            r=z3.substitute(l,*vals) if vals else l
            if not r.eq(l):
                if clean(r,symids): out.append(r)
                r=z3.substitute(old(l),*vals)
                r2=simp(subn(r,n,n-1))
                if clean(r2,symids): out.append(r2)
            if any(c.get_id() in symids for c in consts(l).values()) and clean(old(l),symids):
                for v in weaken(l): out.append(old(v))
    # plain facts about symbols
    for a,i,sl,t in syms:
        if z3.is_bool(a): out+=[a,z3.Not(a),a==i]
        else:
            out.append(a==i)
            if t!="b" and z3.is_arith(a): out+=[a>=i,a<=i]
            if z3.is_int(a) and not t: out+=[a>=0,z3.And(a>=0,a<=1)]
        # sums
        if z3.is_int(a) and t=="":
            ds=[]
            for st,env in bk:
                v=getloc(E,st,sl.key,env); d=diff(v,a)
                ds.append((st,old(d)))
            if ds and all(clean(d) for _,d in ds):
                e=cases(ds,clean,old)
                if e is not None:
                    lam=z3.Lambda([J],subn(e,n,J))
                    fn=fresh("F_sum",ARR)
                    st0.assume(z3.ForAll([J],fn[J]==subn(e,n,J),patterns=[fn[J]]))
                    hs.assume(z3.ForAll([J],fn[J]==subn(e,n,J),patterns=[fn[J]]))
                    # defining equations of the partial sum
                    for x in (st0,hs):
                        x.assume(PSUM(fn,ZERO,ZERO)==0, PSUM(fn,ZERO,n+1)==PSUM(fn,ZERO,n)+fn[n])
                    hs.ghost.setdefault("sums",[]).append((fn,n)); hs.ghost["sums"]=list(hs.ghost["sums"])
                    out.append(a==i+PSUM(fn,ZERO,n))
                    d0=descending(E,e,n)
                    if d0 is not None:   # counting down from d0: the sum of the entries above the current one
                        g=fresh("F_sum",ARR); h=simp(d0-n)
                        for x in (st0,hs):
                            x.assume(z3.ForAll([J],g[J]==subn(e,n,simp(d0-J)),patterns=[g[J]]))
                            x.assume(PSUM(g,ZERO,ZERO)==0,z3.Implies(h>=0,PSUM(g,ZERO,h+1)==PSUM(g,ZERO,h)+g[h]))
                        hs.ghost["sums"].append((g,n))
                        out.append(a==i+PSUM(g,ZERO,simp(d0+1))-PSUM(g,ZERO,simp(h+1)))
                    if E.verbose: print("   sum candidate",e)
    # variables that keep a result: what each value says about the passes so far
    for a,i,sl,t in syms:
        if t or not(z3.is_int(a) or z3.is_bool(a)) or not const_like(i): continue
        leaves=[]; ok=True
        for st,env in bk:
            v=getloc(E,st,sl.key,env)
            for ls,x in leafs(v,[x for l in (st.lits or []) if not has_quant(l) for x in conjuncts(l)]):
                if x.eq(a): x=i
                elif not const_like(x): ok=False
                leaves.append(([old(l) for l in ls],x))
        if not ok or len(leaves)>12: continue
        vals=[i]
        for _,x in leaves:
            if not any(x.eq(y) for y in vals): vals.append(x)
        if len(vals)<2 and not any(a.get_id() in consts(l) for ls,_ in leaves for l in ls): continue
        def says(c):
            g=[[l for l in ls if clean(l)] for ls,x in leaves if x.eq(c)]
            if not g: return []
            com=[l for l in g[0] if all(any(l.eq(m) for m in q) for q in g[1:])]
            if len(g)>1: com.append(z3.Or(*[z3.And(*q) if q else z3.BoolVal(True) for q in g]))
            return com
        out.append(z3.Or(*[a==c for c in vals]))
        for l in says(i):
            r=reindexed(E,l,n); out.append(z3.Implies(a==i,r)); out.append(z3.Implies(a!=i,z3.substitute(r,(n,n-1))))
        for c in vals[1:]:
            for l in says(c): out.append(z3.Implies(a==c,z3.And(n>=1,subn(l,n,n-1))))
    # pairs of offset symbols moving together
    # maps
    for a,i,sl in arrs.values():
        st_vals=[]
        ok=True; idx0=None
        for st,env in bk:
            m=getloc(E,st,sl.key,env)
            if same(m,a): st_vals.append((st,None)); continue
            if not(z3.is_store(m) and same(m.children()[0],a)): ok=False; break
            _,ix,v=m.children()
            if idx0 is None: idx0=ix
            elif not idx0.eq(ix): ok=False; break
            st_vals.append((st,old(v)))
        if not ok or idx0 is None: continue
        t,c0=E.split(simp(idx0)); cn=t.get(n.get_id())
        if cn is None or cn[1] not in(1,-1) : continue
        d=simp(idx0-cn[1]*n)
        if not clean(d): continue
        nj=simp((J-d)*cn[1])
        vals=[(st,v if v is not None else simp(z3.Select(i,idx0))) for st,v in st_vals]
        if not all(clean(v) for _,v in vals): continue
        e=cases(vals,clean,old)
        if e is None: continue
        fj=subn(e,n,nj)
        out.append(z3.ForAll([J],a[J]==z3.If(z3.And(nj>=0,nj<n),fj,i[J]),patterns=[a[J]]))
    if absn is not None: out+=absn.candidates(hs,n,syms,bk)
    return out
def diff(v,a):
    if z3.is_app_of(v,z3.Z3_OP_ITE):
        c,x,y=v.children(); return simp(z3.If(c,diff(x,a),diff(y,a)))
    return simp(v-a)
def cases(ds,clean,old):
    """value by back path, selected by the path literals"""
    e=ds[-1][1]
    if all(d.eq(e) for _,d in ds): return e
    for st,d in reversed(ds[:-1]):
        ls=[old(l) for l in (st.lits or [])]
        if not all(clean(l) for l in ls): return None
        e=z3.If(z3.And(*ls) if len(ls)!=1 else ls[0],d,e)
    return e
def weaken(l):
    """<= / >= variants of (dis)equalities, for bounds"""
    x=l
    neg=False
    if z3.is_not(x): x=x.children()[0]; neg=True
    k=x.decl().kind()
    if k==z3.Z3_OP_EQ or k==z3.Z3_OP_DISTINCT:
        a,b=x.children()
        if z3.is_int(a): return [a<=b,a>=b]
    return []
