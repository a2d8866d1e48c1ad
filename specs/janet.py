"""Janet search trees as binary trees: nextVar is the left link, nextDeg the right one.

Positions and intervals as in rbtree.py; the parent is a ghost field here.  For lookups a node has
its variable lev(n) and, at one arbitrary variable U, the exponent path(n) that the way to it fixes."""
import z3, itertools
from vcgen.heap import *
from vcgen.heap import HC, Fn, P, NULL, NIL, Ref, forall, fresh, ufn
from .rbtree import RBEngine, CONH, owned, rootof, inv, num, hv, setS, NODESZ, And, Or, Not, Imp, If
I=z3.IntVal; R=z3.RealSort(); INT=z3.IntSort(); N=NIL
DEG,WRAP,NDEG,NVAR=0,8,16,24
J="GInv::Janet::"
EXPM=z3.Function("EXPM",Ref,INT,INT)      # exponents of a monomial object
EXPW=z3.Function("EXPW",Ref,INT,INT)      # exponents of an element's monomial
NMF=z3.Function("NMF",Ref,INT,z3.BoolSort())  # the element's non-multiplicative flags
TAIL=z3.Function("TAIL",Ref,INT,INT)      # sum of the exponents of a monomial from a variable on
ISW=z3.Function("ISW",Ref,z3.BoolSort())  # is the element of a node of the tree
FV=z3.Function("FV",Ref,Ref,INT)
U=z3.Int("U"); NV=z3.Int("NV")            # an arbitrary variable; the number of variables
class JView:
    def __init__(v,st,tree):
        v.tree=tree; v.mm=dict(st.mem)
        v.deg,v.wrap,v.right,v.left=st.mem[DEG],st.mem[WRAP],st.mem[NDEG],st.mem[NVAR]
        for n in("par","idx","lo","hi","lev","path"): setattr(v,n,st.gh[n])
        v.S=st.gh[("S",tree)]; v.OWN=st.gh["OWN"]; v.SZ=st.gh["SZ"]; v.alloc=st.aux.get(("alloc",tree))
    def f(v,o): return v.mm[o]
    def insub(v,n,x): return And(v.lo(x)<v.idx(n),v.idx(n)<v.hi(x))
    def below(v,x,a): return And(v.lo(a)<v.idx(x),v.idx(x)<v.idx(a))      # in the subtree of nextVar
    def beyond(v,x,a): return And(v.idx(a)<v.idx(x),v.idx(x)<v.hi(a))     # in the subtree of nextDeg
def jinv(V,root):
    """links, intervals and order (no colours, no keys)"""
    return [x for x in inv(KV(V),root) if not x[0].startswith("colour") and "keys grow" not in x[0]]
class KV:
    """JView in the shape rbtree.inv expects"""
    def __init__(s,V): s.__dict__.update(V.__dict__); s.V=V; s.bh=s.col=s.key=lambda n: I(0)
    def red(s,n): return z3.BoolVal(False)
    def rank(s,n): return I(0)
    def B(s,n): return I(0)
class JanetEngine(RBEngine):
    VIEW=JView; hyp=staticmethod(lambda v: True); DATA=(DEG,WRAP); LINKS=(NVAR,NDEG); GHOSTS=("par","lev","path"); HROOT,HCOUNT=16,8; PARFIELD=False
    sort={"S":z3.BoolSort(),"idx":R,"lo":R,"hi":R,"bh":INT,"SZ":INT,DEG:INT,WRAP:Ref,NDEG:Ref,NVAR:Ref,"par":Ref,"lev":INT,"path":INT}
    def inv(s,V,root,**k): return jinv(V,root)
    def repair(s,st,tree,hole=None,depth=0): st.touch=[]
    def loopinv(s,L):
        if L.writes: return RBEngine.loopinv(s,L)
        return findinv(s,L)
    def load(s,st,p,ty):
        v=RBEngine.load(s,st,p,ty)
        return v
CONJ={}
for k in("GInv::Allocator::allocate(unsigned long)","GInv::Allocator::deallocate(void const*, unsigned long)"): CONJ[k]=CONH[k]
def con(name,params,pre=None,post=None,**k):
    m=k.pop("members",False); cp=k.pop("copies",False); fr=k.pop("frees",False); home=k.pop("home","janet")
    c=HC(name,pre,post,**k); c.params=params; c.members=m; c.copies=cp; c.frees=fr; c.home=home if not c.trusted else None
    CONJ[name]=c; return c
T0,SRC="tree0","tree2"
def tname(q): return q.st.trees[0]
def rt(st,t): return rootof(st,t,16)
def vw(q): return JView(q.st,tname(q))
def vo(q): return JView(q.old,tname(q))
def full(q,t,st=None):
    st=st or q.st; V=JView(st,t); al=num(st.hdr[t][0]) if t in st.hdr else st.aux[("alloc",t)]
    return jinv(V,rt(st,t))+owned(V,al)
def inS(q): return [("the node belongs to the tree",vw(q).S(q.args[0].ref))]
# ---------------------------------------------------------------- whole subtrees
def copypost(q):
    x,al=[a.ref for a in q.args]; H=q.H; V0,V1=vo(q),vw(q); cp,ic=q.st.gh["cp"],q.st.gh["ic"]; cp0,ic0=q.old.gh["cp"],q.old.gh["ic"]
    inn=lambda n: And(V0.S(n),V0.insub(n,x))
    return [("every node of the subtree has a copy with the same degree, element and links",forall(1,lambda n: Imp(inn(n),And(H.copyfact(V0,V1,cp,x,None,n),ic(cp(n))==n,V1.OWN(cp(n))==al,V1.SZ(cp(n))==NODESZ)))),
      ("no other block is taken",forall(1,lambda c: Or(V1.OWN(c)==V0.OWN(c),And(inn(ic(c)),cp(ic(c))==c)))),
      ("blocks in use are unchanged",forall(1,lambda c: H.keepfact(V0,V1,c),True)),
      ("other copies keep their place",forall(1,lambda n: And(Imp(Not(inn(n)),cp(n)==cp0(n)),Imp(V1.OWN(n)==V0.OWN(n),ic(n)==ic0(n))))),
      ("the result is the copy of the top node",And(q.ret.ref==cp(x),q.ret.ref!=N))]
FIELDS=(DEG,WRAP,NDEG,NVAR)
con(J+"build(GInv::Janet::Node*, GInv::Allocator*)",["node","alloc"],lambda q: full(q,tname(q))+inS(q),copypost,mods=FIELDS+("OWN","SZ","cp","ic"),copies=True)
def clrpre(q):
    x,al=[a.ref for a in q.args]; V=vw(q); t=tname(q)
    return jinv(V,rt(q.st,t))+inS(q)+[("the nodes of the subtree are blocks of the allocator",forall(1,lambda n: Imp(And(V.S(n),V.insub(n,x)),And(V.OWN(n)==al,V.SZ(n)==NODESZ)),True))]
con(J+"clear(GInv::Janet::Node*, GInv::Allocator*)",["node","alloc"],clrpre,
  lambda q: [("exactly the nodes of the subtree are returned to the allocator",forall(1,lambda n: vw(q).OWN(n)==If(And(vw(q).S(n),vw(q).insub(n,q.args[0].ref)),N,vo(q).OWN(n))))],mods=("OWN",),frees=True)
def jh(st,t): h=st.hdr[t]; return num(h[0]),num(h[16]),num(h[8])
con(J+"Janet(GInv::Allocator*)",["newtree","alloc"],None,lambda q: [("an empty tree with the given allocator",And(*[a==b for a,b in zip(jh(q.st,T0),(q.args[1].ref,N,0))]))])
def ex_copy(q):
    st=q.st; W=JView(q.old,SRC); ic,cp=st.gh["ic"],st.gh["cp"]; OWN0=q.old.gh["OWN"]
    Sn=lambda c: And(c!=N,OWN0(c)==N,W.S(ic(c)),cp(ic(c))==c,rt(q.old,SRC)!=N)
    setS(st,T0,Sn)
    for g in("idx","lo","hi","lev","path"): f=st.gh[g]; st.gh[g]=Fn(lambda c,f=f: If(Sn(c),f(ic(c)),f(c)))
    p=st.gh["par"]; st.gh["par"]=Fn(lambda c,f=p: If(Sn(c),If(f(ic(c))==N,N,cp(f(ic(c)))),f(c)))
def copied(q):
    st=q.st; V=JView(st,T0); W=JView(q.old,SRC); cp,ic=st.gh["cp"],st.gh["ic"]; lk=lambda x: If(x==N,N,cp(x))
    return [("every node is copied with its degree and element, in the same structure",forall(1,lambda n: Imp(W.S(n),And(V.S(cp(n)),V.deg(cp(n))==W.deg(n),V.wrap(cp(n))==W.wrap(n),V.left(cp(n))==lk(W.left(n)),V.right(cp(n))==lk(W.right(n)),ic(cp(n))==n)))),
      ("every node of the copy stems from the source",forall(1,lambda c: Imp(V.S(c),And(W.S(ic(c)),cp(ic(c))==c)))),
      ("the root of the copy is the copy of the root",rt(st,T0)==lk(rt(q.old,SRC))),
      ("as many elements",num(st.hdr[T0][8])==num(q.old.hdr[SRC][8]))]+full(q,T0)
con(J+"Janet(GInv::Allocator*, GInv::Janet const&)",["newtree","alloc","ctree"],lambda q: full(q,q.args[2].ref),
  lambda q: copied(q)+[("the allocator is the given one",num(q.st.hdr[T0][0])==q.args[1].ref),("blocks in use are unchanged",forall(1,lambda c: q.H.keepfact(JView(q.old,SRC),JView(q.st,SRC),c),True)),
    ("only the copies are taken",forall(1,lambda c: Or(q.st.gh["OWN"](c)==q.old.gh["OWN"](c),JView(q.st,T0).S(c))))],
  mods=FIELDS+("OWN","SZ","cp","ic"),exit=ex_copy,copies="tree")
def freed(q,t):
    W=JView(q.old,t); return ("exactly the nodes of the tree are returned to the allocator",forall(1,lambda n: q.st.gh["OWN"](n)==If(W.S(n),N,W.OWN(n))))
con(J+"~Janet()",["tree"],lambda q: full(q,T0),lambda q: [freed(q,T0)],mods=("OWN",),frees=True)
def ex_swap(q):
    a,b=q.old.gh[("S",T0)],q.old.gh[("S","tree1")]; q.st.gh[("S",T0)],q.st.gh[("S","tree1")]=b,a; q.st.views.append(JView(q.st,T0))
con(J+"swap(GInv::Janet&)",["tree","tree"],lambda q: full(q,T0)+full(q,"tree1"),
  lambda q: [("the headers are exchanged",And(*[x==y for x,y in zip(jh(q.st,T0)+jh(q.st,"tree1"),jh(q.old,"tree1")+jh(q.old,T0))]))]+full(q,T0)+full(q,"tree1"),
  mods=lambda q: [("hdr",t,k) for t in(T0,"tree1") for k in(0,8,16)],exit=ex_swap)
# ---------------------------------------------------------------- lookup
HASX=z3.Bool("HASX"); X=z3.Const("theDivisor",Ref)   # maybe a node whose element is a Janet divisor
def shape(V,root):
    """what the degrees, variables, elements and flags of a search tree mean"""
    S,lev,deg,path,wrap=V.S,V.lev,V.deg,V.path,V.wrap
    def A(lab,g): return (lab,forall(1,lambda n: Imp(S(n),g(n)),True))
    def PR(lab,g): return (lab,forall(2,lambda a,x: Imp(And(S(a),S(x)),g(a,x))))
    return [("the first variable is at the root",Imp(root!=N,lev(root)==0)),
      A("variables are in range and degrees are not negative",lambda n: And(0<=lev(n),lev(n)<NV,deg(n)>=0)),
      A("a nextVar link goes on to the next variable",lambda n: Imp(V.left(n)!=N,And(lev(V.left(n))==lev(n)+1,Imp(U<=lev(n),path(V.left(n))==If(U<lev(n),path(n),deg(n)))))),
      A("a nextDeg link leads to a greater degree of the same variable",lambda n: Imp(V.right(n)!=N,And(lev(V.right(n))==lev(n),Imp(U<lev(n),path(V.right(n))==path(n)),deg(V.right(n))>deg(n)))),
      A("an element stands where its exponents lead",lambda n: Imp(wrap(n)!=N,And(ISW(wrap(n)),EXPW(wrap(n),lev(n))==deg(n),EXPW(wrap(n),U)==If(U<lev(n),path(n),If(U==lev(n),deg(n),I(0)))))),
      A("a node without nextVar has an element",lambda n: Imp(V.left(n)==N,wrap(n)!=N)),
      A("only the element 1 stands at degree 0, alone",lambda n: Imp(And(wrap(n)!=N,deg(n)==0),And(n==root,V.left(n)==N,V.right(n)==N))),
      PR("elements below a node have its degree",lambda a,x: Imp(V.below(x,a),And(lev(x)>lev(a),Imp(wrap(x)!=N,EXPW(wrap(x),lev(a))==deg(a))))),
      PR("elements beyond a node have a greater degree",lambda a,x: Imp(V.beyond(x,a),And(lev(x)>=lev(a),Imp(wrap(x)!=N,EXPW(wrap(x),lev(a))>deg(a))))),
      PR("flags: a variable is non-multiplicative if a greater degree follows",lambda a,x: Imp(And(wrap(x)!=N,Or(a==x,V.below(x,a)),V.right(a)!=N),NMF(wrap(x),lev(a)))),
      PR("flags: an element is flagged against the elements below it",lambda a,x: Imp(And(wrap(a)!=N,wrap(x)!=N,V.below(x,a)),And(FV(a,x)>lev(a),FV(a,x)<NV,NMF(wrap(a),FV(a,x)),EXPW(wrap(x),FV(a,x))>EXPW(wrap(a),FV(a,x)))))]
def good(w,m,v): return Imp(And(0<=v,v<NV),And(EXPW(w,v)<=EXPM(m,v),Imp(EXPW(w,v)<EXPM(m,v),Not(NMF(w,v)))))
def monfacts(V,m):
    """the exponents of m and the sums of their tails (proved as lemma "tails")"""
    return [("degree of the monomial",And(TAIL(m,0)>=0,NV>0,Imp(And(0<=U,U<NV),And(EXPM(m,U)>=0)))),
      ("tails",forall(1,lambda n: Imp(And(0<=V.lev(n),V.lev(n)<NV),And(EXPM(m,V.lev(n))>=0,TAIL(m,V.lev(n)+1)>=0,TAIL(m,V.lev(n))==EXPM(m,V.lev(n))+TAIL(m,V.lev(n)+1))),True)),
      ("tails bound exponents",forall(2,lambda a,b: Imp(And(0<=V.lev(a),V.lev(a)<V.lev(b),V.lev(b)<NV),TAIL(m,V.lev(a)+1)>=EXPM(m,V.lev(b))))),
      ("whole",forall(1,lambda n: Imp(And(0<=V.lev(n),V.lev(n)<NV),TAIL(m,0)>=EXPM(m,V.lev(n))),True))]
def findpre(q):
    V=vw(q); m=q.args[1].ref; q.st.see(X); r=rt(q.st,T0)
    w=V.wrap(X); q.H.hyp=lambda v: Imp(HASX,good(w,m,v))    # also used at every exponent the function reads
    return full(q,T0)+shape(V,r)+monfacts(V,m)+[("a node holds a Janet divisor, perhaps",Imp(HASX,And(V.S(X),V.wrap(X)!=N))),
      ("it divides and its smaller exponents are multiplicative",forall(1,lambda n: Imp(HASX,And(good(V.wrap(X),m,V.lev(n)),good(V.wrap(X),m,FV(n,X)))),True))]
def findpost(q):
    m=q.args[1].ref; r=q.ret.ref; V=vw(q)
    return [("the result is nothing or an element of the tree",Imp(r!=N,ISW(r))),("the result divides the monomial",Imp(And(r!=N,0<=U,U<NV),EXPW(r,U)<=EXPM(m,U))),
      ("an element that is a Janet divisor is found",Imp(HASX,r==V.wrap(X)))]
con(J+"find(GInv::Monom const&) const",["ctree","monom"],findpre,findpost)
def mon(p):
    return (EXPM,p.ref) if p.off==0 else (EXPW,p.ref)
con("GInv::Monom::degree() const",None,None,lambda q: [("degree",q.ret==TAIL(q.args[0].ref,0))],home="monom")
con("GInv::Monom::size() const",None,None,lambda q: [("size",q.ret==NV)],home="monom")
con("GInv::Monom::operator[](int) const",None,lambda q: [("the variable exists",And(0<=q.args[1],q.args[1]<NV))],lambda q: [("exponent",And(q.ret==mon(q.args[0])[0](mon(q.args[0])[1],q.args[1]),q.ret>=0))],fx=lambda q: q.st.assume(q.H.hyp(q.args[1])),home="monom")
con("GInv::Wrap::lm() const",None,lambda q: [("the element is an object",q.args[0].ref!=N)],ret=lambda q: P(q.args[0].ref,40),home="wrap")
con("GInv::Wrap::NM(int) const",None,lambda q: [("the element is an object",q.args[0].ref!=N),("the variable exists",And(0<=q.args[1],q.args[1]<NV))],lambda q: [("flag",tob(q.ret)==NMF(q.args[0].ref,q.args[1]))],home="wrap")
def tob(v): return v if z3.is_bool(v) else v!=0
def findinv(s,L):
    out=[]; t=L.tree; ps=[n for n,y in L.phis if y.k=="ptr"]; ks=[n for n,y in L.phis if y.k=="int" and y.a>8]; bs=[n for n,y in L.phis if y.k=="int" and y.a<=8]
    m=s.q.args[1].ref if len(s.q.args)>1 else None
    if m is None: return out
    V=JView(L.st0,t)
    def add(lab,fn): out.append((lab,lambda L_,st,v,fn=fn: fn(v)))
    for n in ps:
        ini=L.init[n].ref
        add("S %s"%n,lambda v,n=n: V.S(v[n].ref))
        add("lev %s"%n,lambda v,n=n,ini=ini: V.lev(v[n].ref)==V.lev(ini))
        add("path %s"%n,lambda v,n=n,ini=ini: Imp(U<V.lev(v[n].ref),V.path(v[n].ref)==V.path(ini)))
        add("divides so far %s"%n,lambda v,n=n: Imp(And(0<=U,U<V.lev(v[n].ref)),V.path(v[n].ref)<=EXPM(m,U)))
        add("divisor ahead of %s"%n,lambda v,n=n: Imp(HASX,V.insub(X,v[n].ref)))
        add("null %s"%n,lambda v,n=n: v[n].ref==N)
        for k in ks:
            add("var %s %s"%(n,k),lambda v,n=n,k=k: v[k]==V.lev(v[n].ref))
            add("tail %s %s"%(n,k),lambda v,n=n,k=k: v[k]==TAIL(m,V.lev(v[n].ref)))
    for k in ks:
        for lab,f in((">=0",lambda a: a>=0),(">0",lambda a: a>0),("<=NV",lambda a: a<=NV)): add("%s %s"%(k,lab),lambda v,k=k,f=f: f(v[k]))
        for a in [a for a in L.st0.seen if not a.eq(X)]:
            def fine(v,k,a,u): w=V.wrap(a); return Imp(And(V.S(a),w!=N,0<=u,u<v[k],u<NV),And(EXPW(w,u)<=EXPM(m,u),Imp(EXPW(w,u)<EXPM(m,u),Not(NMF(w,u)))))
            add("checked %s %s"%(k,a),lambda v,k=k,a=a: fine(v,k,a,U)); add("checked %s %s at FV"%(k,a),lambda v,k=k,a=a: fine(v,k,a,FV(a,X)))
            for b in bs:      # a result kept in a variable: so far, or definitely not
                for tag,t in(("",tob),("not ",lambda x: Not(tob(x)))):
                    add("checked %s %s if %s%s"%(k,a,tag,b),lambda v,k=k,a=a,b=b,t=t: Imp(t(v[b]),fine(v,k,a,U))); add("checked %s %s at FV if %s%s"%(k,a,tag,b),lambda v,k=k,a=a,b=b,t=t: Imp(t(v[b]),fine(v,k,a,FV(a,X))))
                    add("%s%s for the divisor %s"%(tag,b,a),lambda v,a=a,b=b,t=t: Imp(And(HASX,a==X),t(v[b])))
    return out
# the sums of tails: TAIL(m,v)=PS(m,n)-PS(m,v)
from .common import LEMMAS, PS, psum_def, forall as iall
def lemma_tails():
    A=z3.Const("A",z3.ArraySort(INT,INT)); n,v,u=z3.Ints("n v u"); nn=lambda h: iall(I(0),h,lambda j: A[j]>=0); T=lambda a,b: PS(A,b)-PS(A,a)
    return [("the whole is the degree",[PS(A,I(0))==0],T(I(0),n)==PS(A,n)),
      ("a tail is an exponent and the next tail",[psum_def(A,v),0<=v,v<n],T(v,n)==A[v]+T(v+1,n)),
      ("tails are not negative (base)",[nn(n)],Imp(And(0<=v,v<=n),T(n,n)>=0)),
      ("tails are not negative (step)",[0<=v,v<n,nn(n),psum_def(A,v),T(v+1,n)>=0],T(v,n)>=0),
      ("a tail bounds its exponents (base)",[0<=u,u<n,nn(n),psum_def(A,u),T(u+1,n)>=0],T(u,n)>=A[u]),
      ("a tail bounds its exponents (step)",[0<=v,v<u,u<n,nn(n),psum_def(A,v),T(v+1,n)>=A[u]],T(v,n)>=A[u])]
LEMMAS["tails"]=lemma_tails
