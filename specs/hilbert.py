"""Contracts of GInv::HilbertPoly on top of trusted GMP rational functions.

An array of __mpq_struct is an array of rationals (z3 reals) with a ghost state per element:
0 not initialised, 1 initialised, 2 initialised and canonical.  The product of two rationals is
the uninterpreted QMUL with its absorbing zero, the quotient of two integers is QDIV."""
import z3
from vcgen import sym
from vcgen.sym import *
from vcgen.contract import Contract,NS,Kind
from vcgen import ir
from .monom import uninit
CONQ={}; KINDQ={}
def contract(name,pre,post,**k):
    c=Contract(name,pre,post,**k); c.home=None if c.trusted else "hilbert"; CONQ[name]=c; return c
NEWAL=Ptr(z3.Int("GLOBAL_NEW"),ZERO)
QMUL=z3.Function("QMUL",REAL,REAL,REAL); QDIV=z3.Function("QDIV",INT,INT,REAL)
R0=z3.RealVal(0); R1=z3.RealVal(1)
_x=z3.Real("x!q"); _n=z3.Int("n!q")
AX=[z3.ForAll([_x],QMUL(R0,_x)==0,patterns=[QMUL(R0,_x)]),z3.ForAll([_n],QDIV(_n,I(1))==z3.ToReal(_n),patterns=[QDIV(_n,I(1))])]
def ghost(st,o):
    k="q%d"%o.base.get_id()
    return st.ghost.get(k)
def setup(E,st,o,m=None,state=None):
    """view the object as an array of rationals"""
    n=simp(E.index(st,o.size,32)); m=fresh("Q",RARR) if m is None else m
    o.arr=Arr(32,n,m,"mpq"); o.raw=False
    g=Obj(fresh("QSTATE"),None,o.name+" state","ghostmap"); g.arr=Arr(1,n,fresh("QS",ARR) if state is None else state)
    if state is None: st.assume(forallj(ZERO,n,lambda j:g.arr.m[j]==0))
    st.heap[g.base.get_id()]=g; st.ghost["q%d"%o.base.get_id()]=g.base.get_id()
def forallj(lo,hi,f):
    j=z3.Int("j!s"); return z3.ForAll([j],z3.Implies(z3.And(j>=lo,j<hi),f(j)))
class Q:
    """the rational at a pointer"""
    def __init__(s,c,p,write=False,init=True):
        E=c.E; st=c.st
        if isnull(p): E.oblige(st,False,"rational at a null pointer"); raise Fail("null")
        o=E.obj(st,p)
        if o.arr is None:
            if o.cells or o.preds: raise Unsupported("rational in other memory")
            setup(E,st,o)
        if o.arr.kind!="mpq": raise Unsupported("rational in other memory")
        s.o=o; s.g=st.heap[ghost(st,o)]; s.i=E.index(st,p.off,32)
        E.oblige(st,z3.And(s.i>=0,s.i<o.arr.len),"call %s: rational within the array (%s)"%(c.call,o.name))
        if write and o.ro: E.oblige(st,False,"call %s does not modify the operand"%c.call)
        if init: E.oblige(st,s.g.arr.m[s.i]>=1,"call %s: rational is initialised"%c.call)
    @property
    def v(s): return simp(s.o.arr.m[s.i])
    @property
    def st(s): return simp(s.g.arr.m[s.i])
    def set(s,v,state):
        s.o.arr.m=simp(z3.Store(s.o.arr.m,s.i,v)); s.g.arr.m=simp(z3.Store(s.g.arr.m,s.i,state if isinstance(state,z3.ExprRef) else I(state)))
def gmp(name,f):
    def pre(c,*a): f(c,*a); return NS()
    contract(name,pre,lambda c,o,r:None,trusted=True)
def f(c,p):
    q=Q(c,p,True,False); c.req(q.st==0,"rational is initialised once"); q.set(R0,2)
gmp("__gmpq_init",f)
def f(c,p): q=Q(c,p,True); q.set(fresh("undef",REAL),0)
gmp("__gmpq_clear",f)
def both(x,y): return z3.If(z3.And(x.st==2,y.st==2),I(2),I(1))
def op(fn):
    def f(c,r,a,b):
        r,a,b=Q(c,r,True),Q(c,a),Q(c,b); r.set(fn(a.v,b.v),both(a,b))
    return f
gmp("__gmpq_add",op(lambda a,b:a+b)); gmp("__gmpq_sub",op(lambda a,b:a-b)); gmp("__gmpq_mul",op(lambda a,b:QMUL(a,b)))
def f(c,r,a): r,a=Q(c,r,True),Q(c,a); r.set(a.v,a.st)
gmp("__gmpq_set",f)
def f(c,r,n,d): r=Q(c,r,True); c.req(d>0,"denominator is positive"); r.set(QDIV(n,d),z3.If(z3.Or(n==1,d==1),I(2),I(1)))
gmp("__gmpq_set_si",f); gmp("__gmpq_set_ui",f)
def f(c,r): r=Q(c,r,True); r.set(r.v,2)
gmp("__gmpq_canonicalize",f)
# --- new / delete
def npre(c,n): c.req(n>=0,"size of an allocation"); return n
def npost(c,n,r):
    p=Ptr(fresh("new"),ZERO); ob=c.E.new_obj(c.st,n,"new(line %s)"%c.E.line,"heap",base=p.base); c.st.assume(p.base>0); ob.tok=(NEWAL,n); ob.size=simp(n); setup(c.E,c.st,ob); return p
contract("operator new[](unsigned long)",npre,npost,trusted=True)
def dpre(c,p,n=None):
    if isnull(p): return NS()
    o=c.E.obj(c.st,p)
    c.req(z3.And(p.off==0,veq(o.tok[0],NEWAL)) if o.tok is not None else FALSE,"deleted pointer came from new")
    if o.arr is not None and o.arr.kind=="mpq": c.req(forallj(ZERO,o.arr.len,lambda j:c.st.heap[ghost(c.st,o)].arr.m[j]==0),"every rational is cleared before its memory is freed")
    c.st.heap.pop(o.base.get_id(),None); c.st.dead.append(o.base); return NS()
for nm in("operator delete[](void*)","operator delete[](void*, unsigned long)"): contract(nm,dpre,lambda c,o,r:None,trusted=True)
# --- the polynomial
LIM=1<<26
def h_fresh(E,st,name): return NS(n=fresh(name+"_dim"),q=fresh(name+"_q",RARR),s=fresh(name+"_s",ARR),blk=fresh(name+"_blk"))
def canon(s,n): return forallj(ZERO,n,lambda j:s[j]==2)
def h_facts(E,st,d): st.assume(d.n>0,d.n<LIM,canon(d.s,d.n))
def h_unfold(E,st,o,off,p):
    d=NS(p.d); o.cells[off]=(4,d.n); o.cells[off+8]=(8,Ptr(d.blk,ZERO))
    b=E.new_obj(st,simp(32*d.n),o.name+".coefficients","heap",base=d.blk); st.assume(d.blk>0); b.tok=(NEWAL,simp(32*d.n)); b.ro=p.ro or o.ro; setup(E,st,b,d.q,d.s)
    st.heap[ghost(st,b)].ro=b.ro
def h_fold(E,st,o,off):
    c=o.cells
    if not all(off+k in c and c[off+k][1] is not None for k in(0,8)): return None
    n=c[off][1]; p=c[off+8][1]
    if not isinstance(p,Ptr) or isnull(p): return None
    try: b=E.obj(st,p)
    except NoObject: return None
    if b.arr is None: setup(E,st,b)
    if b.arr.kind!="mpq" or b.tok is None: return None
    E.oblige(st,z3.And(p.off==0,n>0,b.arr.len==n,b.tok[1]==32*n,veq(b.tok[0],NEWAL)),"coefficient array has the recorded size")
    g=st.heap[ghost(st,b)]; E.oblige(st,canon(g.arr.m,n),"every coefficient is a canonical rational")
    d=NS(n=n,q=b.arr.m,s=g.arr.m,blk=p.base)
    for k in(0,8): del c[off+k]
    st.heap.pop(b.base.get_id(),None); st.heap.pop(g.base.get_id(),None)
    r=Pred("hp",16,d,o.ro); o.preds[off]=r; return r
KINDQ["hp"]=Kind("hp",16,h_fresh,h_facts,h_unfold,h_fold,owns=lambda d:TRUE)
class QEngine(Engine):
    def __init__(s,*a,**k): Engine.__init__(s,*a,**k); s.facts+=AX
    def load(s,st,p,w,ty,what="load"):
        if not isnull(p) and w==4:
            o=st.heap.get(p.base.get_id())
            if o is not None and o.arr is not None and o.arr.kind=="mpq":
                i=s.index(st,simp(p.off-4),32); g=st.heap[ghost(st,o)]
                s.oblige(st,z3.And(i>=0,i<o.arr.len),"%s within the array (%s)"%(what,o.name)); s.oblige(st,g.arr.m[i]>=1,"rational is initialised")
                v=fresh("limbs"); s.range_fact(st,v,32); st.assume((v==0)==(o.arr.m[i]==0)); return v
        return Engine.load(s,st,p,w,ty,what)
def leak(s,st):
    from vcgen.contract import leakcheck
    leakcheck(s,st)
    for o in st.heap.values():
        if o.kind=="alloca" and o.arr is not None and o.arr.kind=="mpq": s.oblige(st,forallj(ZERO,o.arr.len,lambda j:st.heap[ghost(st,o)].arr.m[j]==0),"every local rational is cleared")
QEngine.leakcheck=leak
H="GInv::HilbertPoly::"
def hp(c,p,n,ro=False): return c.pred("hp",p,n,ro)
def upd(name,args,val,label):
    def pre(c,this,*a):
        o=NS(this=this,T=hp(c,this,"this"))
        for (nm,k),v in zip(args,a):
            if k=="h": o[nm]=hp(c,v,nm,True); c.req(o[nm].n>=o.T.n,"the other polynomial has as many coefficients")
            else: o[nm]=v
        return o
    def post(c,o,r):
        d=hp(c,o.this,"this"); c.ens(d.n==o.T.n,"dimension kept"); c.ens(forallj(ZERO,o.T.n,lambda j:d.q[j]==val(o,j)),label)
    contract(H+name,pre,post,keep=False)
upd("add(GInv::HilbertPoly const&)",[("A","h")],lambda o,j:o.T.q[j]+o.A.q[j],"every coefficient of the sum")
upd("sub(GInv::HilbertPoly const&)",[("A","h")],lambda o,j:o.T.q[j]-o.A.q[j],"every coefficient of the difference")
upd("mult(int)",[("k","i")],lambda o,j:QMUL(o.T.q[j],QDIV(o.k,I(1))),"every coefficient of the multiple")
# coefficients of (s+a)(s+a-1)...(s+a-p+1)/p!, by the recurrence of multiplying with (s+a-(p-1))/p
BC=z3.Function("BC",INT,INT,INT,REAL)
def binom_axioms(a):
    p,k=z3.Ints("p!b k!b")
    return [z3.ForAll([k],BC(a,I(0),k)==z3.If(k==0,R1,R0),patterns=[BC(a,I(0),k)]),
        z3.ForAll([k],BC(a,I(1),k)==z3.If(k==0,z3.ToReal(a),z3.If(k==1,R1,R0)),patterns=[BC(a,I(1),k)]),
        z3.ForAll([p,k],z3.Implies(p>=2,BC(a,p,k)==z3.If(k<0,R0,QMUL(BC(a,p-1,k),QDIV(a-(p-1),p))+QMUL(BC(a,p-1,k-1),QDIV(I(1),p)))),patterns=[BC(a,p,k)])]
def pre(c,this,a,b):
    T=hp(c,this,"this"); c.req(z3.And(b>=0,b<T.n),"the degree fits the dimension"); c.req(z3.And(a>-LIM*LIM,a<LIM*LIM),"a")
    for f in binom_axioms(a): c.fact(f)
    return NS(this=this,T=T,a=a,b=b)
def post(c,o,r):
    d=hp(c,o.this,"this"); c.ens(d.n==o.T.n,"dimension kept")
    c.ens(forallj(ZERO,o.b+1,lambda j:d.q[j]==BC(o.a,o.b,j)),"every coefficient of the binomial polynomial"); c.ens(forallj(o.b+1,o.T.n,lambda j:d.q[j]==0),"higher coefficients are zero")
def invs(x):
    if x.L.depth>1: return []
    out=[]; E=x.E; a=E.args[1] if len(E.args)==3 else None
    for o in x.hs.heap.values():
        if o.arr is None or o.arr.kind!="mpq": continue
        g=x.hs.heap[ghost(x.hs,o)].arr.m; q=o.arr.m; n=o.arr.len
        if not x.nested:
            out+=[forallj(ZERO,n,lambda j:g[j]==2),forallj(ZERO,x.n,lambda j:g[j]==2),forallj(ZERO,x.n,lambda j:g[j]==0),forallj(x.n,n,lambda j:g[j]==0),forallj(x.n,n,lambda j:g[j]>=1),forallj(ZERO,x.n,lambda j:q[j]==0)]
            if a is None: out+=[forallj(ZERO,n,lambda j:q[j]==0)]
        else:
            out+=[forallj(ZERO,n,lambda j:g[j]>=1)]
            if a is not None: out+=[forallj(ZERO,n,lambda j:q[j]==BC(a,x.n+1,j)),forallj(x.n+2,n,lambda j:q[j]==0)]
    return out
contract(H+"binomial(long, unsigned long)",pre,post,keep=False,inv=invs)
def pre(c,this,n): uninit(c,this,16,"this"); c.req(z3.And(n>=0,n<LIM-1),"dimension"); return NS(this=this,n=n)
def post(c,o,r): d=hp(c,o.this,"this"); c.ens(d.n==o.n+1,"dimension"); c.ens(forallj(ZERO,d.n,lambda j:d.q[j]==0),"the new polynomial is zero")
contract(H+"HilbertPoly(int)",pre,post,keep=False,inv=invs)
def empty(c,p):
    if c.give:
        o=c.getobj(p,"this",size=I(16)); o.cells[0]=(4,ZERO); o.cells[8]=(8,NULL)
    else:
        o=c.E.obj(c.st,p); c.ens(o.cells.get(0,(0,I(1)))[1]==0,"empty polynomial has no coefficients"); v=o.cells.get(8,(0,None))[1]; c.ens(isinstance(v,Ptr) and bool(isnull(v)),"empty polynomial has no storage")
def pre(c,this): uninit(c,this,16,"this"); return NS(this=this)
contract(H+"HilbertPoly()",pre,lambda c,o,r:empty(c,o.this),keep=False)
def pre(c,this,n): empty(c,this); c.req(z3.And(n>=0,n<LIM-1),"dimension"); return NS(this=this,n=n)
contract(H+"setDim(int)",pre,post,keep=False,inv=invs)
contract(H+"~HilbertPoly()",lambda c,this:hp(c,this,"this"),lambda c,o,r:None,keep=False,inv=invs)
def pre(c,this,k): T=hp(c,this,"this",True); c.req(z3.And(k>=0,k<T.n),"index"); return NS(T=T,k=k)
contract(H+"isZero(int) const",pre,lambda c,o,r:c.ens(r==(o.T.q[o.k]==0),"true exactly when the coefficient is zero"),keep=False)
contract(H+"dim() const",lambda c,this:hp(c,this,"this",True),lambda c,T,r:c.ens(r==T.n-1,"dimension"),keep=False)
