"""Contracts of GInv::RandPermutation, and of the C++ runtime's operator new / delete and
uniform_int_distribution (trusted)."""
from .common import *
from .monom import uninit
HOME[0]="perm"
NEWAL=Ptr(z3.Int("GLOBAL_NEW"),ZERO)
DIST=z3.Int("DISTRIBUTIONS")          # ghost: address of a live distribution -> its upper bound, 0: none
def dist(c):
    o=c.st.heap.get(DIST.get_id())
    if o is None:
        if not c.give: return None
        o=Obj(DIST,None,"live distributions","ghostmap"); o.arr=Arr(1,I(1<<62),fresh("DB",ARR)); c.st.heap[DIST.get_id()]=o
        c.st.assume(o.arr.m[0]==0)
    return o
def npre(c,n): c.req(n>=0,"size of an allocation"); return n
def npost(c,n,r):
    if c.give:
        p=Ptr(fresh("new"),ZERO); ob=c.E.new_obj(c.st,n,"new(line %s)"%c.E.line,"heap",base=p.base); c.st.assume(p.base>0)
        ob.tok=(NEWAL,n); ob.raw=not isint(simp(n)); ob.size=simp(n)
        o=c.st.heap.get(DIST.get_id())
        if o is not None: c.st.assume(o.arr.m[p.base]==0)
        return p
for nm in("operator new(unsigned long)","operator new[](unsigned long)"): contract(nm,npre,npost,trusted=True)
def dpre(c,p,n=None):
    st=c.st; E=c.E
    o=st.heap.get(p.base.get_id())
    m=dist(c)
    if o is None and m is not None and isint(simp(p.off)):
        try: o=E.obj(st,p)
        except NoObject: o=None
    if o is None and m is not None:
        c.req(z3.And(p.off==0,m.arr.m[p.base]!=0),"deleted object is live")
        m.arr.m=z3.Store(m.arr.m,p.base,ZERO); return NS()
    if isnull(p): return NS()
    if o is None: o=E.obj(st,p)
    c.req(z3.And(p.off==0,veq(o.tok[0],NEWAL)) if o.tok is not None else FALSE,"deleted pointer came from new")
    if n is not None: c.req(o.tok[1]==n,"size of the deleted object")
    if o.ro: c.req(False,"operand stays")
    st.heap.pop(o.base.get_id(),None); st.dead.append(o.base)
    return NS()
for nm in("operator delete(void*)","operator delete[](void*)","operator delete(void*, unsigned long)","operator delete[](void*, unsigned long)"): contract(nm,dpre,lambda c,o,r:None,trusted=True)
U="std::uniform_int_distribution<int>::"
def pre(c,this,a,b):
    uninit(c,this,8,"distribution"); c.req(a<=b,"bounds of the distribution are ordered"); c.req(z3.And(a==0,b>0),"distribution on 0..i")
    o=c.E.obj(c.st,this)
    c.req(z3.And(this.off==0,o.tok[1]==8) if o.tok is not None else FALSE,"distribution lives in its own block")
    c.st.heap.pop(o.base.get_id(),None)           # ownership moves to the ghost map
    m=dist(c); m.arr.m=z3.Store(m.arr.m,o.base,b); return NS()
contract(U+"uniform_int_distribution(int, int)",pre,lambda c,o,r:None,trusted=True)
def pre(c,this,g):
    m=dist(c); b=m.arr.m[this.base]; c.req(z3.And(this.off==0,b>0),"drawn from a live distribution"); return b
contract("int std::uniform_int_distribution<int>::operator()<VcGen>(VcGen&)",pre,lambda c,b,r:c.ens(z3.And(r>=0,r<=b)),trusted=True)
# --- the permutation object
def r_fresh(E,st,name): return NS(n=fresh(name+"_n"),perm=fresh(name+"_perm",ARR),dis=fresh(name+"_dis",ARR),pb=fresh(name+"_pb"),db=fresh(name+"_db"))
def inj(m,n): 
    a,b=z3.Ints("a!p b!p")
    return z3.ForAll([a,b],z3.Implies(z3.And(0<=a,a<b,b<n),m[a]!=m[b]),patterns=[z3.MultiPattern(m[a],m[b])])
def rng(m,n): return forall(ZERO,n,lambda j:z3.And(m[j]>=0,m[j]<n),lambda j:[m[j]])
def live(B,dis,lo,hi): return forall(lo,hi,lambda j:B[dis[j]]==j+1,lambda j:[dis[j]])
def r_facts(E,st,d): st.assume(d.n>0,d.n<(1<<28),rng(d.perm,d.n),inj(d.perm,d.n))
def r_unfold(E,st,o,off,p):
    d=NS(p.d); c=o.cells; c[off]=(4,d.n); c[off+8]=(8,Ptr(d.pb,ZERO)); c[off+16]=(8,Ptr(d.db,ZERO))
    for b,m,w,k,nm in((d.pb,d.perm,4,"int","perm"),(d.db,d.dis,8,"ptr","dis")):
        n=d.n if nm=="perm" else simp(d.n-1)
        x=E.new_obj(st,simp(w*n),o.name+"."+nm,"heap",base=b); st.assume(b>0); x.arr=Arr(w,n,m,k); x.tok=(NEWAL,simp(w*n)); x.ro=p.ro or o.ro
def r_fold(E,st,o,off):
    c=o.cells
    if not all(off+k in c and c[off+k][1] is not None for k in(0,8,16)): return None
    n=c[off][1]; d=NS(n=n)
    for nm,k,w,cnt in(("perm",8,4,n),("dis",16,8,simp(n-1))):
        p=c[off+k][1]
        if not isinstance(p,Ptr): return None
        try: x=E.obj(st,p)
        except NoObject: return None
        if x.arr is None:
            if not x.raw and x.cells: return None
            E.type_raw(st,x,w,ir.PTR if w==8 else ir.Ty("int",32))
        E.oblige(st,z3.And(p.off==0,x.arr.len==cnt,x.tok[1]==w*cnt,veq(x.tok[0],NEWAL)) if x.tok is not None and x.arr.esize==w else FALSE,"%s array has the recorded size"%nm)
        d[nm]=x.arr.m; d[nm[0]+"b"]=p.base; st.heap.pop(x.base.get_id(),None)
    for k in(0,8,16): del c[off+k]
    q=Pred("perm",24,d,o.ro); o.preds[off]=q; return q
KINDS["perm"]=Kind("perm",24,r_fresh,r_facts,r_unfold,r_fold,owns=lambda d:TRUE)
R="GInv::RandPermutation::"
def maps(x):
    """arrays of the object as they are at the loop head: (perm, dis, ghost map)"""
    p=d=None
    for o in x.hs.heap.values():
        if o.arr is not None and o.tok is not None and isinstance(o.tok[0],Ptr) and o.tok[0] is NEWAL:
            if o.arr.esize==4: p=o.arr
            elif o.arr.esize==8: d=o.arr
    g=x.hs.heap.get(DIST.get_id())
    return p,d,None if g is None else g.arr.m
def invs(x):
    p,d,B=maps(x); out=[]
    if p is not None: out+=[rng(p.m,p.len),inj(p.m,p.len)]
    if d is not None and B is not None:
        n=d.len
        out+=[live(B,d.m,ZERO,n),live(B,d.m,n-x.n,n),live(B,d.m,ZERO,x.n),live(B,d.m,ZERO,n-x.n),live(B,d.m,x.n,n)]
        dead=lambda lo,hi:forall(lo,hi,lambda j:B[d.m[j]]==0,lambda j:[d.m[j]])
        out+=[dead(n-x.n,n),dead(ZERO,x.n),B[0]==0]
    return out
def pre(c,this,n):
    uninit(c,this,24,"this"); c.req(z3.And(n>0,n<(1<<28)),"size is positive"); dist(c); return NS(this=this,n=n)
def perm_post(c,p):
    d=c.pred("perm",p,"this")
    c.ens(rng(d.perm,d.n),"every element is an index"); c.ens(inj(d.perm,d.n),"no index occurs twice")
    c.ens(live(dist(c).arr.m,d.dis,ZERO,d.n-1),"one distribution 0..i for every step")
    return d
def post(c,o,r):
    d=perm_post(c,o.this); c.ens(d.n==o.n,"size"); c.ens(forall(ZERO,o.n,lambda j:d.perm[j]==j),"starts as the identity")
contract(R+"RandPermutation(int)",pre,post,keep=False,inv=invs)
def obj(c,this,name="this"):
    m=dist(c); d=c.pred("perm",this,name); c.req(live(m.arr.m,d.dis,ZERO,d.n-1),"one distribution 0..i for every step"); return NS(this=this,T=d,B=m.arr.m)
def pre(c,this,g): return obj(c,this)
def post(c,o,r):
    d=perm_post(c,o.this); c.ens(d.n==o.T.n,"size kept")
contract("void GInv::RandPermutation::next<VcGen>(VcGen&)",pre,post,keep=False,inv=invs)
def post(c,o,r):
    B=dist(c).arr.m; c.ens(forall(ZERO,o.T.n-1,lambda j:B[o.T.dis[j]]==0,lambda j:[o.T.dis[j]]),"every distribution is deleted")
contract(R+"~RandPermutation()",obj,post,keep=False,inv=invs)
def pre(c,this,i=None):
    T=c.pred("perm",this,"this",True)
    if i is not None: c.req(z3.And(i>=0,i<T.n),"index")
    return NS(T=T,i=i)
contract(R+"operator[](int) const",pre,lambda c,o,r:c.ens(r==o.T.perm[o.i],"element at the index"),keep=False)
contract(R+"size() const",pre,lambda c,o,r:c.ens(r==o.T.n,"size"),keep=False)
