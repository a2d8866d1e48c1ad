"""Verifier for linked node structures: memory as one function per field, invariants stated for
every node (or pair of nodes) and instantiated at the nodes a path mentions.

A structure is a set of nodes with ghost fields; its invariant is a local condition of each node
over its own and its neighbours' (ghost) fields plus conditions on pairs of nodes.  Assumed
invariants are instantiated at ground terms only; goals are proved for a fresh node."""
import time, z3, re
from . import ir
from .ir import Unsupported
from .sym import Fail, SCALE
I=z3.IntVal
Ref=z3.DeclareSort('Ref'); NIL=z3.Const('nil',Ref)
_n=[0]
def fresh(name,sort=None):
    _n[0]+=1
    return z3.Const("%s!h%d"%(name,_n[0]),Ref if sort is None else sort)
PH=[z3.Const("ph%d"%i,Ref) for i in range(2)]
_ctx=z3.main_ctx()
_PA={k:(z3.Ast*k)(*[p.as_ast() for p in PH[:k]]) for k in(1,2)}
def subst(g,ts):
    n=len(ts); return z3.BoolRef(z3.Z3_substitute(_ctx.ref(),g.as_ast(),n,_PA[n],(z3.Ast*n)(*[t.as_ast() for t in ts])),_ctx)
class Templ:
    __slots__=("g","memo")
    def __init__(s,g): s.g=g; s.memo={}
class P:
    """pointer: base (a node term, or the name of a fixed object) and offset"""
    __slots__=("ref","off")
    def __init__(s,ref,off=0): s.ref=ref; s.off=off
    def __repr__(s): return "P(%s,%s)"%(s.ref,s.off)
NULL=P(NIL)
def same(a,b): return a is b or (z3.is_ast(a) and z3.is_ast(b) and a.eq(b))
def vsame(a,b):
    if isinstance(a,P) and isinstance(b,P): return a.off==b.off and (a.ref==b.ref if isinstance(a.ref,str) or isinstance(b.ref,str) else same(a.ref,b.ref))
    if isinstance(a,P) or isinstance(b,P): return False
    return same(a,b)
class Fn:
    """total function on nodes: uninterpreted, updated at a point, or given by a closure"""
    __slots__=("p","k","v","memo","keys")
    def __init__(s,p,k=None,v=None): s.p=p; s.k=k; s.v=v; s.memo={}
    def __call__(s,*r):
        i=tuple(x.get_id() for x in r)
        x=s.memo.get(i)
        if x is None:
            if s.k is None: x=s.p(*r)
            elif s.k.eq(r[0]): x=s.v
            else: x=z3.If(r[0]==s.k,s.v,s.p(*r))
            s.memo[i]=(r,x); return x
        return x[1]
    def store(s,k,v): return Fn(s,k,v)
def ufn(name,ret=None,arity=1):
    _n[0]+=1
    f=z3.Function("%s!h%d"%(name,_n[0]),*([Ref]*arity+[Ref if ret is None else ret]))
    return Fn(f)
class St:
    def __init__(s): s.pc=[]; s.env={}; s.mem={}; s.gh={}; s.hdr={}; s.univ=[]; s.seen=[]; s.touch=[]; s.views=[]; s.line=None; s.trees=[]; s.fresh=[]; s.aux={}; s.epoch=0
    def copy(s):
        t=St()
        t.pc=list(s.pc); t.env=dict(s.env); t.mem=dict(s.mem); t.gh=dict(s.gh); t.hdr={k:dict(v) for k,v in s.hdr.items()}; t.univ=list(s.univ); t.seen=list(s.seen); t.touch=list(s.touch); t.views=list(s.views); t.line=s.line; t.trees=list(s.trees); t.fresh=list(s.fresh); t.aux=dict(s.aux); t.epoch=s.epoch
        return t
    def assume(s,*fs):
        for f in fs:
            if isinstance(f,tuple):
                g=f[2](*PH[:f[1]])      # evaluated now: the state the closure looks at changes later
                if g is None or g is True: continue
                if g is False: g=z3.BoolVal(False)
                s.univ.append((f[1],Templ(z3.simplify(g,elim_and=False)),10**9 if f[4] else s.epoch))
            elif f is True: pass
            else: s.pc.append(f)
    def see(s,t):
        if not z3.is_ast(t) or t.eq(NIL) or t.sort()!=Ref: return
        i=t.get_id()
        if not any(i==u.get_id() for u in s.seen): s.seen.append(t)
    def mark(s,t,off=None):
        if not z3.is_ast(t) or t.eq(NIL) or t.sort()!=Ref: return
        if not any(t.eq(u) and o==off for u,o in s.touch): s.touch.append((t,off))
        s.see(t)
def forall(k,fn,local=False,lasting=False):
    """local: the proof needs conditions of single nodes only (pairs are tried last);
    lasting: the fact stays in use inside loops that change the structure"""
    return ("all",k,fn,local,lasting)

class HC:
    """contract: pre(Q)/post(Q) give lists of (label, formula or forall); mods: what a call may change"""
    def __init__(s,name,pre=None,post=None,mods=(),defs=None,trusted=False,keep=True,entry=None,exit=None,fx=None,ret=None):
        s.name=name; s.pre=pre or (lambda Q: []); s.post=post or (lambda Q: []); s.mods=mods; s.defs=defs; s.trusted=trusted; s.keep=keep
        s.home=None; s.fn=name; s.entry=entry; s.exit=exit; s.fx=fx; s.ret=ret; s.nret=False; s.alias=None
class Q:
    def __init__(s,H,st,args,call): s.H=H; s.st=st; s.args=args; s.call=call; s.ret=None; s.old=None; s.o={}

class HeapEngine:
    own_verify=True
    def __init__(s,mod,names,contracts):
        s.mod=mod; s.names=names; s.contracts=contracts; s.assumptions=set(); s.trusted=set()
        s.queries=0; s.solver_time=0.0; s.loops=0; s.muted=0; s.stage=""; s.obs={}; s.order=[]; s.callees=set(); s.level="H"; s.predkinds={}
    # ---------------------------------------------------------------- solver
    def neighbours(s,st,t,isk): return []
    def near(s,st,t): return []
    def insts(s,st,T,pairs,old=True):
        out=[]
        for k,fn,ep in st.univ:
            if not old and ep<st.epoch: continue
            if k==2 and not pairs: continue
            g=fn.g; memo=fn.memo
            if k==1:
                for t in T:
                    x=memo.get(t.get_id())
                    if x is None: x=memo[t.get_id()]=(subst(g,(t,)),t)
                    out.append(x[0])
            else:
                for a,b in pairs:
                    i=(a.get_id(),b.get_id()); x=memo.get(i)
                    if x is None: x=memo[i]=(subst(g,(a,b)),a,b)
                    out.append(x[0])
        return out
    def solve(s,fs,timeout):
        if time.time()>s.deadline: raise Unsupported("time budget exhausted")
        sol=z3.Solver(); sol.set("timeout",int(timeout*SCALE[0])); sol.add(*fs)
        t0=time.time(); r=sol.check(); d=time.time()-t0; s.solver_time+=d; s.queries+=1
        if s.slow and d>s.slow: print("     slow %.1f %s n=%d %s %s"%(d,r,len(fs),s.stage,s.what))
        return str(r),sol
    def key(s,st): return (len(st.univ),len(st.seen))
    def prove(s,st,goal,timeout=None,quick=False):
        sk=[]; local=False
        if isinstance(goal,tuple):
            local=goal[3]; sk=[fresh("n") for _ in range(goal[1])]; goal=goal[2](*sk)
        if goal is True: return True
        if goal is False: goal=z3.BoolVal(False)
        g=z3.simplify(goal)
        if z3.is_true(g): return True
        base=st.pc+[z3.Not(goal)]
        T=sk+[t for t in st.seen]
        stages=[]
        nb=[]; have={t.get_id() for t in T}|{NIL.get_id()}
        for j,t in enumerate(T):
            for u in s.neighbours(st,t,j<len(sk)):
                if u.get_id() not in have: have.add(u.get_id()); nb.append(u)
        A=T+nb
        D=sk+[u for x in sk for u in s.near(st,x) if not u.eq(NIL)]; E=list(D)
        ids={t.get_id() for t in E}
        for t in st.seen:
            if t.get_id() not in ids: ids.add(t.get_id()); E.append(t)
        prs=[(a,b) for i,a in enumerate(E) for j,b in enumerate(E) if i!=j and(i<len(D) or j<len(D) or s.nobump)] if sk else [(a,b) for a in E for b in E if a is not b]
        allp=[(a,b) for a in A for b in A if a is not b]
        if local: stages=[(T,[]),(A,[])]+([] if quick else [(A,prs+[(a,b) for a in st.seen for b in st.seen if a is not b])])
        elif len(sk)>1: stages=[(A,prs)]+([] if quick else [(A,allp)])
        else: stages=[(A,[]),(A,prs if sk else [(a,b) for a in st.seen for b in st.seen if a is not b])]+([] if quick else [(A,allp)])
        if not any(k==2 for k,_,_ in st.univ): stages=[(T,[]),(A,[])]
        det=""
        if st.epoch: stages=[(u,p,False) for u,p in stages]+[(stages[-1][0],stages[-1][1],True)]
        else: stages=[(u,p,True) for u,p in stages]
        for i,(u,p,old) in enumerate(stages):
            s.stage="%d/%d"%(i,len(stages)); r,sol=s.solve(base+s.insts(st,u,p,old),timeout or (3000,8000,20000,20000)[i] if not quick else 2000)
            if r=="unsat": return True
            if r=="sat" and i==len(stages)-1:
                m=sol.model(); det="countermodel: "+", ".join("%s=%s"%(t,m.eval(t,True)) for t in T)[:700]
                if getattr(s,"dbgm",None): s.dbgm(st,m,goal,sk)
            elif r!="sat": det="z3: "+sol.reason_unknown()
        s.detail=det
        return False
    def feasible(s,st):
        T=list(st.seen)
        try: r,_=s.solve(st.pc+s.insts(st,T,[],False),1500)
        except z3.Z3Exception: return True
        return r!="unsat"
    def oblige(s,st,goal,label):
        if s.muted: return
        t0=time.time(); q0=s.queries; s.what=label
        ok=s.prove(st,goal)
        k="%s%s"%(label,"")
        o=s.obs.get(k)
        if o is None: o=s.obs[k]={"obligation":k,"status":"proved","time_s":0,"queries":0,"detail":""}; s.order.append(k)
        o["time_s"]=round(o["time_s"]+time.time()-t0,3); o["queries"]+=s.queries-q0
        if not ok:
            o["status"]="failed"; o["detail"]=(o["detail"]+" line %s: %s"%(st.line,s.detail))[:900]
            if s.verbose: print("   FAIL",label,"line",st.line,s.detail[:600],"\n     goal",str(z3.simplify(goal) if not isinstance(goal,tuple) else goal[1])[:300])
        if not isinstance(goal,tuple): st.assume(goal)
    verbose=False; slow=0; what=''
    # ---------------------------------------------------------------- memory
    def access(s,st,p,what):
        if isinstance(p.ref,str): return
        s.oblige(st,st.gh["OWN"](p.ref)!=NIL,"%s touches a live node"%what)
    def load(s,st,p,ty):
        if isinstance(p.ref,str):
            o=st.hdr.get(p.ref)
            if o is None: raise Unsupported("load from %s"%p.ref)
            v=o.get(p.off)
            if v is None: v=o[p.off]=s.value(st,ty,"%s_%s"%(p.ref,p.off))
            return v
        s.access(st,p,"load")
        if p.off not in st.mem: raise Unsupported("field at offset %s"%p.off)
        v=st.mem[p.off](p.ref)
        if ty.k=="ptr": st.see(v); return P(v)
        return v
    def store(s,st,p,v,ty):
        if isinstance(p.ref,str):
            o=st.hdr.get(p.ref)
            if o is None: raise Unsupported("store to %s"%p.ref)
            if p.ref in st.aux.get("const",()): s.oblige(st,False,"operand %s stays unchanged"%p.ref)
            o[p.off]=v; return
        s.access(st,p,"store")
        if p.off not in st.mem: raise Unsupported("field at offset %s"%p.off)
        if isinstance(v,P):
            if isinstance(v.ref,str) or v.off!=0: raise Unsupported("inner pointer stored in a node")
            v=v.ref
        st.mem[p.off]=st.mem[p.off].store(p.ref,v); st.mark(p.ref,p.off)
        st.see(v)
    def value(s,st,ty,name):
        if ty.k=="ptr":
            v=fresh(name); st.see(v); return P(v)
        if ty.k=="int":
            return fresh(name,z3.BoolSort() if ty.a==1 else z3.IntSort())
        raise Unsupported("value of type %r"%ty)
    # ---------------------------------------------------------------- operands
    def val(s,st,v):
        if v.kind=="local":
            x=st.env.get(v.v)
            if x is None: raise Unsupported("undefined value %s"%v.v)
            return x
        if v.kind=="int":
            if v.ty.k=="int" and v.ty.a==1: return z3.BoolVal(bool(v.v))
            return I(v.v)
        if v.kind=="null": return NULL
        if v.kind=="undef": return s.value(st,v.ty,"undef")
        if v.kind=="zero": return NULL if v.ty.k=="ptr" else I(0)
        if v.kind=="global": return P("@"+v.v)
        raise Unsupported("operand %s"%v.kind)
    def toint(s,v): return z3.If(v,I(1),I(0)) if z3.is_bool(v) else v
    def ins(s,st,i):
        op=i.op; A=[s.val(st,a) for a in i.args] if op not in("phi","call") else []
        if op=="alloca":
            nm="loc%s#%d"%(i.res,len(st.hdr)); st.hdr[nm]={}; st.env[i.res]=P(nm); return
        if op=="load": st.env[i.res]=s.load(st,A[0],i.ty); return
        if op=="store": s.store(st,A[1],A[0],i.ty); return
        if op=="gep":
            p=A[0]; t=i.extra; off=p.off
            def cst(x):
                x=z3.simplify(x)
                if not z3.is_int_value(x): raise Unsupported("symbolic index")
                return x.as_long()
            off+=cst(A[1])*s.mod.sizeof(t)
            for x in A[2:]:
                t=s.mod.resolve(t)
                if t.k=="struct": k=cst(x); off+=s.mod.layout(t)[1][k]; t=t.a[k]
                elif t.k=="arr": off+=cst(x)*s.mod.sizeof(t.b); t=t.b
                else: raise Unsupported("gep")
            st.env[i.res]=P(p.ref,off); return
        if op=="icmp":
            a,b=A; pr=i.extra
            if isinstance(a,P) or isinstance(b,P):
                if not(isinstance(a,P) and isinstance(b,P)): raise Unsupported("pointer compared with an integer")
                if isinstance(a.ref,str) or isinstance(b.ref,str):
                    e=z3.BoolVal(a.ref==b.ref and a.off==b.off) if isinstance(a.ref,str)==isinstance(b.ref,str) else z3.BoolVal(False)
                else:
                    if a.off!=b.off: raise Unsupported("comparison of inner pointers")
                    e=a.ref==b.ref
                if pr not in("eq","ne"): raise Unsupported("order of pointers")
                st.env[i.res]=e if pr=="eq" else z3.Not(e); return
            if z3.is_bool(a) and z3.is_bool(b) and pr in("eq","ne"): e=a==b; st.env[i.res]=e if pr=="eq" else z3.Not(e); return
            a=s.toint(a); b=s.toint(b)
            st.env[i.res]={"eq":lambda:a==b,"ne":lambda:a!=b,"slt":lambda:a<b,"sle":lambda:a<=b,"sgt":lambda:a>b,"sge":lambda:a>=b,"ult":lambda:a<b,"ule":lambda:a<=b,"ugt":lambda:a>b,"uge":lambda:a>=b}[pr](); return
        if op in("sext","zext"): st.env[i.res]=s.toint(A[0]); return
        if op=="trunc":
            v=A[0]
            st.env[i.res]=(v if z3.is_bool(v) else v!=0) if i.ty.a==1 else v
            return
        if op in("bitcast","freeze"): st.env[i.res]=A[0]; return
        if op in("add","sub","mul"):
            a,b=s.toint(A[0]),s.toint(A[1]); st.env[i.res]=a+b if op=="add" else a-b if op=="sub" else a*b; return
        if op in("and","or","xor") and all(z3.is_bool(x) for x in A): st.env[i.res]=z3.And(*A) if op=="and" else z3.Or(*A) if op=="or" else z3.Xor(*A); return
        if op=="select":
            c,a,b=A
            if isinstance(a,P):
                if isinstance(a.ref,str) or isinstance(b.ref,str) or a.off!=b.off: raise Unsupported("select of pointers")
                v=z3.If(c,a.ref,b.ref); st.see(v); st.env[i.res]=P(v,a.off)
            else: st.env[i.res]=z3.If(c,a,b)
            return
        if op=="call": s.call(st,i); return
        raise Unsupported("instruction %s"%i.text[:80])
    # ---------------------------------------------------------------- calls
    def call(s,st,i):
        cal=i.extra
        if cal.kind!="global": raise Unsupported("indirect call")
        if cal.v.startswith("@llvm.lifetime") or cal.v.startswith("@llvm.dbg"): return
        if cal.v.startswith("@llvm.memcpy"):
            d,sr=s.val(st,i.args[0]),s.val(st,i.args[1]); n=z3.simplify(s.val(st,i.args[2]))
            if isinstance(d.ref,str) and isinstance(sr.ref,str) and z3.is_int_value(n):
                o=st.hdr[sr.ref]; e=st.hdr[d.ref]
                for k in list(e):
                    if d.off<=k<d.off+n.as_long(): del e[k]
                for k,v in o.items():
                    if sr.off<=k<sr.off+n.as_long(): e[d.off+k-sr.off]=v
                return
            raise Unsupported("memcpy")
        nm=s.names.get(cal.v.replace('"',""))
        c=s.contracts.get(nm)
        if c is None: raise Unsupported("call of %s"%(nm or cal.v))
        s.callees.add(nm)
        if c.trusted: s.trusted.add("contract of %s"%nm)
        args=[s.val(st,a) for a in i.args]
        s.apply(st,c,args,i)
    def apply(s,st,c,args,i):
        q=Q(s,st,args,True)
        if c.entry: c.entry(q)          # ghost step before the call
        for lab,f in c.pre(q): s.oblige(st,f,"call %s: %s"%(short(c.name),lab))
        q.old=st.copy()
        if c.defs:
            d=c.defs(q)
            for k,f in d.items():
                if isinstance(k,tuple): st.hdr[k[0]][k[1]]=f
                else: st.mem[k]=Fn(f) if not isinstance(f,Fn) else f
        for m in (c.mods(q) if callable(c.mods) else c.mods): s.havoc(st,m)
        if c.fx: c.fx(q)
        if i.ty is not None and i.ty.k!="void" and i.res is not None:
            q.ret=c.ret(q) if c.ret else s.value(st,i.ty,"ret")
            st.env[i.res]=q.ret
        for lab,f in c.post(q): st.assume(f)
    def havoc(s,st,m):
        if isinstance(m,tuple) and m[0]=="hdr":
            v=st.hdr[m[1]][m[2]]
            if isinstance(v,P): w=fresh("h"); st.see(w); st.hdr[m[1]][m[2]]=P(w)
            else: st.hdr[m[1]][m[2]]=fresh("h",v.sort())
        elif isinstance(m,int): st.mem[m]=ufn("F%d"%m,s.sort.get(m))
        else: st.gh[m]=ufn(str(m if isinstance(m,str) else m[0]),s.sort.get(m if isinstance(m,str) else m[0]),s.arity.get(m if isinstance(m,str) else m[0],1))
    sort={}; arity={}; quickcand=True; nobump=False
    # ---------------------------------------------------------------- control
    def cfg(s,f):
        succ={}
        for b in f.order:
            t=f.blocks[b][-1]
            succ[b]=list(t.extra) if t.op=="br" else ([t.extra[0]]+[x for _,x in t.extra[1]] if t.op=="switch" else [])
        pred={b:[] for b in f.order}
        for b in f.order:
            for x in succ[b]: pred[x].append(b)
        # dominators
        dom={b:set(f.order) for b in f.order}; dom[f.order[0]]={f.order[0]}
        ch=True
        while ch:
            ch=False
            for b in f.order[1:]:
                ps=[dom[p] for p in pred[b]]
                n=set.intersection(*ps)|{b} if ps else {b}
                if n!=dom[b]: dom[b]=n; ch=True
        loops={}
        for b in f.order:
            for x in succ[b]:
                if x in dom[b]:
                    body=loops.setdefault(x,{x}); todo=[b]
                    while todo:
                        y=todo.pop()
                        if y not in body: body.add(y); todo+=pred[y]
        return succ,pred,loops
    def run_block(s,st,f,b,prev,stop,out):
        """executes from block b; stop: list of (header, body) loops whose back edge or exit ends the walk"""
        while True:
            if stop:
                h,body,mode=stop[-1]
                if b==h and mode!="start": out.append(("back",st,prev)); return
                if b not in body:
                    if mode=="muted" or s.muted and mode!="final": out.append(("exit",st,prev,b)); return
                    stop=stop[:-1]; continue
            if b in s.C[2] and not(stop and stop[-1][0]==b and stop[-1][2]=="start"):
                s.loop(st,f,b,prev,stop,out); return
            if stop and stop[-1][2]=="start":
                stop=stop[:-1]+[(stop[-1][0],stop[-1][1],s.after)]
            else: s.phis(st,f,b,prev)
            for i in f.blocks[b]:
                if i.op=="phi": continue
                if i.dbg: st.line=i.dbg
                if i.op in("br","switch","ret","unreachable"): break
                s.ins(st,i)
            t=f.blocks[b][-1]; prev=b
            if t.op=="ret":
                out.append(("ret",st,s.val(st,t.args[0]) if t.args else None)); 
                if not s.muted: s.finish(st,s.val(st,t.args[0]) if t.args else None)
                return
            if t.op=="unreachable": return
            if t.op=="br" and len(t.extra)==1: b=t.extra[0]; continue
            if t.op=="br":
                c=s.val(st,t.args[0]); c=z3.simplify(c)
                if z3.is_true(c): b=t.extra[0]; continue
                if z3.is_false(c): b=t.extra[1]; continue
                for cc,x in((c,t.extra[0]),(z3.Not(c),t.extra[1])):
                    n=st.copy(); n.assume(cc)
                    if s.feasible(n): s.run_block(n,f,x,b,stop,out)
                return
            raise Unsupported("terminator %s"%t.op)
    def phis(s,st,f,b,prev):
        vals={}
        for i in f.blocks[b]:
            if i.op!="phi": break
            for v,x in i.extra:
                if x==prev: vals[i.res]=s.val(st,v)
        st.env.update(vals)
    def state_keys(s,st):
        d={}
        for k,v in st.mem.items(): d[("mem",k)]=v
        for k,v in st.gh.items(): d[("gh",k)]=v
        for h,o in st.hdr.items():
            for k,v in o.items(): d[("hdr",h,k)]=v
        return d
    def loop(s,st0,f,h,prev,stop,out):
        succ,pred,loops=s.C; body=loops[h]
        st0=st0.copy(); s.phis(st0,f,h,prev)
        ph=[i for i in f.blocks[h] if i.op=="phi"]
        init={i.res:st0.env[i.res] for i in ph}
        L=LoopCtx(); L.H=s; L.st0=st0; L.phis=[(i.res,i.ty) for i in ph]; L.init=init; L.body=body; L.header=h; L.line=st0.line
        s.prepare(L,st0)
        mods=set(); cands=None; dropped=set()
        while True:
            st=st0.copy(); st.touch=[]
            fv={}
            for i in ph:
                v=s.value(st,i.ty,"phi")
                if isinstance(v,P) and isinstance(init[i.res],P) and isinstance(init[i.res].ref,str): raise Unsupported("a cursor over fixed objects")
                st.env[i.res]=v; fv[i.res]=v
            for m in mods: s.havoc_key(st,m)
            # entry: which candidates hold
            if cands is None:
                cands=[(lab,fn) for lab,fn in s.loopinv(L)]
                cands=[(lab,fn) for lab,fn in cands if s.holds(st0,fn(L,st0,init),quick=True)]
                if s.verbose: print("  loop %s line %s: %d candidates hold on entry"%(h,st0.line,len(cands)))
            live=[(l,fn) for l,fn in cands if l not in dropped]
            if L.writes and not s.nobump: st.epoch+=1
            for l,fn in live: st.assume(*s.many(fn(L,st,fv)))
            s.head(L,st,fv)
            s.muted+=1; ends=[]; start=s.state_keys(st)
            try: s.after="muted"; s.run_block(st.copy(),f,h,None,[(h,body,"start")],ends)
            finally: s.muted-=1
            newm=False
            for e in ends:
                if e[0] not in("back","exit"): continue
                for k,v in s.state_keys(e[1]).items():
                    if k in start and not vsame(start[k],v) and start[k] is not v and k not in mods: mods.add(k); newm=True
            if newm: continue
            ch=False
            for e in ends:
                if e[0]!="back": continue
                b=e[1].copy(); s.phis(b,f,h,e[2]); val={i.res:b.env[i.res] for i in ph}
                s.edge(L,b,val)
                for l,fn in live:
                    if l in dropped: continue
                    s.what=l
                    if not s.holds(b,fn(L,b,val),quick=s.quickcand):
                        if s.verbose: print("    dropped",l,"line",b.line,s.detail[:300])
                        dropped.add(l); ch=True
            if not ch: break
        if s.verbose: print("  loop %s keeps:"%h,[l for l,_ in live],"mods",mods)
        s.loops+=1 if not s.muted else 0
        if not s.muted:
            o="loop at %s: invariant established and preserved"%s.loopname(L)
            if o not in s.obs: s.obs[o]={"obligation":o,"status":"proved","time_s":0,"queries":0,"detail":"%d invariants"%len(live)}; s.order.append(o)
        # the body once more, with its obligations, and what comes after the loop
        o2=[]
        s.after="final" if not s.muted else "final"
        s.run_block(st.copy(),f,h,None,stop+[(h,body,"start")],o2)
        for e in o2:
            if e[0] in("ret","exit"): out.append(e)
            elif e[0]=="back" and e[2] is not None and e[2] not in body: out.append(e)
    def loopname(s,L): return "line %s"%L.line if False else "loop %d"%(sorted(s.C[2]).index(L.header)+1)
    def many(s,x): return x if isinstance(x,list) else [x]
    def holds(s,st,fs,quick=False):
        return all(s.prove(st,f,quick=quick) for f in s.many(fs))
    def havoc_key(s,st,m):
        if m[0]=="mem": s.havoc(st,m[1])
        elif m[0]=="gh": s.havoc(st,m[1])
        else: s.havoc(st,m)
    def prepare(s,L,st): pass
    def head(s,L,st,fv): pass
    def edge(s,L,st,val): pass
    def loopinv(s,L): return []
    # ---------------------------------------------------------------- one function
    def verify(s,mangled,c,budget):
        t0=time.time(); s.deadline=t0+budget*2; err=""; status="proved"
        f=s.mod.func(mangled); s.contract=c; s.F=f; s.C=s.cfg(f)
        st=St(); args=[]
        try:
            q=Q(s,st,None,False); s.start(q,f,c); s.q=q
            s.qentry=st.copy(); q.old=s.qentry
            if not s.feasible(st): raise Unsupported("the precondition is contradictory")
            s.run_block(st,f,f.order[0],None,[],[])
        except Unsupported as e: err=str(e); status="unsupported"
        except Fail as e: err=str(e)
        if status=="proved" and any(o["status"]!="proved" for o in s.obs.values()): status="failed"
        if status=="proved" and not s.obs: status="vacuous"
        return {"function":c.name,"status":status,"error":err,"obligations":[s.obs[k] for k in s.order],"callees":sorted(s.callees),"loops":s.loops,"terminating_loops":0,"solver_time":round(s.solver_time,2),"queries":s.queries,"time":round(time.time()-t0,2)}
    def finish(s,st,ret):
        c=s.contract; q=Q(s,st,s.q.args,False); q.old=s.qentry; q.ret=ret; q.o=s.q.o
        if c.exit: c.exit(q)
        for lab,f in c.post(q): s.oblige(st,f,lab)
        allowed=c.mods(q) if callable(c.mods) else c.mods
        d=c.defs(Q0(q)) if c.defs else {}
        for k,f in d.items():
            if isinstance(k,tuple):
                v=st.hdr[k[0]][k[1]]; s.oblige(st,(v.ref==f.ref) if isinstance(v,P) else v==f,"effect on field %s of %s"%(k[1],k[0]))
            else: s.oblige(st,forall(1,lambda n,k=k,f=f: st.mem[k](n)==f(n)),"effect on the field at offset %d of every node"%k)
        for k in("OWN","SZ"):
            v=st.gh.get(k); w=s.qentry.gh.get(k)
            if v is not w and k not in allowed: s.oblige(st,forall(1,lambda n,v=v,w=w: v(n)==w(n),True),"no block is taken or returned" if k=="OWN" else "block sizes stay")
        for k,v in st.mem.items():
            if k in allowed or k in d or v is s.qentry.mem[k]: continue
            s.oblige(st,forall(1,lambda n,k=k,v=v: z3.Implies(s.qentry.gh["OWN"](n)!=NIL,v(n)==s.qentry.mem[k](n))),"field at offset %d of every node is unchanged"%k)
        for h,o in s.qentry.hdr.items():
            for k,v in o.items():
                if ("hdr",h,k) in allowed or (h,k) in d: continue
                w=st.hdr[h].get(k)
                if w is None or not vsame(v,w): s.oblige(st,(v.ref==w.ref if isinstance(v,P) and isinstance(w,P) and not isinstance(v.ref,str) and not isinstance(w.ref,str) else (v==w if z3.is_ast(v) and z3.is_ast(w) else False)),"field %s of %s is unchanged"%(k,h))
    def start(s,q,f,c): raise NotImplementedError
def Q0(q):
    r=Q(q.H,q.old,q.args,False); r.old=q.old; r.o=q.o; return r
class LoopCtx: pass
def short(n): return re.sub(r"<int, &\(vc_cmp\(int, int\)\)>","",n).replace("GInv::","")
