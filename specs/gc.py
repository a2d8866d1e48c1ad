"""Contracts of the garbage-collected values GC<T> and of GCPolyInt, WrapPolyInt: a value together with the
allocator it owns.  Every contract says that the value's storage belongs to the owned allocator, so compaction
moves everything that is kept; ~Allocator may only be reached when nothing of the allocator is in use."""
import copy
from .common import *
from . import monom as MM, integer as II, lists as LL, polyint as PI, alloc as AA
from .monom import uninit
NEWAL=AA.NEWAL
def base(con,kinds):
    for nm in("operator new(unsigned long)","operator delete(void*)","operator delete(void*, unsigned long)"): con[nm]=AA.CONA[nm]
    K=kinds
    K["alloc"]=Kind("alloc",40,lambda E,st,name: NS(),lambda E,st,d: None,None,None)
    def pre(c,this): uninit(c,this,40,"allocator"); return NS(this=this)
    con["GInv::Allocator::Allocator()"]=Contract("GInv::Allocator::Allocator()",pre,lambda c,o,r: c.pred("alloc",o.this,"allocator") and None,trusted=True)
    def pre(c,this):
        c.pred("alloc",this,"allocator"); c.fact(this.base!=NEWAL.base)     # NEWAL only labels blocks from operator new
        for o in c.st.heap.values():
            if o.ro: continue
            if o.tok is not None and isinstance(o.tok[0],Ptr):
                f=z3.Not(veq(o.tok[0],this)) if o.cond is None else z3.Or(z3.Not(o.cond),z3.Not(veq(o.tok[0],this)))
                c.req(f,"no block of the allocator is in use when it is destroyed")
            for k,p in o.preds.items():
                KD=K.get(p.kind)
                if KD is None or KD.owns is None or p.ro: continue
                al=p.d.get("al",p.d.get("alloc"))
                if isinstance(al,Ptr): c.req(z3.Or(z3.Not(KD.owns(NS(p.d))),z3.Not(veq(al,this))),"no value keeps storage of an allocator that is destroyed")
        return NS()
    con["GInv::Allocator::~Allocator()"]=Contract("GInv::Allocator::~Allocator()",pre,lambda c,o,r: None,trusted=True)
    con["GInv::Allocator::isGC() const"]=Contract("GInv::Allocator::isGC() const",lambda c,this: c.pred("alloc",this,"allocator",True) and None,lambda c,o,r: None,trusted=True)
    for nm in("timerCont","timerStop"): con["GInv::Allocator::%s()"%nm]=Contract("GInv::Allocator::%s()"%nm,lambda c: NS(),lambda c,o,r: None,trusted=True)
# ---- a value with its allocator
class Val:
    def give(s,c,p,nm,al,ro): pass
class MonomV(Val):
    kind="monom"; size=32
    def at(s,c,p,nm,ro=False,al=None):
        d=MM.monom(c,p,nm,ro,None if c.give else (lambda d:[L_lin(d.vars,[(I(1),m.vars)],d.size) for m in c.st.ghost.get("gcm",[])]),**({"alloc":al} if al is not None else {}))
        if c.give and not c.call: c.st.ghost["gcm"]=c.st.ghost.get("gcm",[])+[d]
        return d,d.alloc
    def same(s,c,d,e,l): c.ens(z3.And(d.size==e.size,d.pos==e.pos,d.deg==e.deg),l+": size, position and degree"); MM.exact(c,forall(ZERO,e.size,lambda j:d.vars[j]==e.vars[j]),l+": every exponent")
class IntV(Val):
    kind="int"; size=24
    def at(s,c,p,nm,ro=False,al=None):
        d=II.integer(c,p,nm,ro) if al is None or not c.give else s.g(c,p,nm,ro,al); return d,d.alloc
    def g(s,c,p,nm,ro,al):
        d=c.pred("int",p,nm,ro,{"alloc":al}); return d
    def same(s,c,d,e,l): c.ens(d.val==e.val,l+": value")
class ListV(Val):
    kind="list_int"; size=24
    def at(s,c,p,nm,ro=False,al=None): d=c.pred("list_int",p,nm,ro,{"al":al} if al is not None and c.give else None); return d,d.al
    def same(s,c,d,e,l): LL.seq_is(c,d,LL.n(e),LL.el(e),l)
class PolyV(Val):
    kind="pint"; size=56
    def at(s,c,p,nm,ro=False,al=None):
        d=PI.pint(c,p,nm,ro,fields={"al":al,"mal":al} if al is not None and c.give else None); return d,d.al
    def same(s,c,d,e,l):
        fs={k:e[k] for k in PI.LK.fields}
        for k,v in fs.items():
            if k=="F": continue     # follows from the equation of f, which holds for every weight
            if k=="vn": c.ens(z3.Or(e.n==0,d[k]==v),l+": number of variables")
            elif k in("f","n","np","top","bot","lc","mp","nm","ms","ct"): c.ens(d[k]==v,"%s: %s"%(l,PI.LBL.get(k,k)))
        if c.give: c.fact(d.F==e.F)
def gcval(c,p,V,nm,ro=False):
    """{Allocator* own; T value} at p"""
    if c.give:
        o=c.getobj(p,nm,ro=ro); k=c.off(p); al=Ptr(fresh(nm+"_own"),ZERO)
        c.st.assume(al.base>0)
        for x in c.st.heap.values(): c.st.assume(x.base!=al.base)
        b=c.E.new_obj(c.st,I(40),nm+"'s allocator","heap",base=al.base); b.tok=(NEWAL,I(40)); b.raw=False; b.ro=ro; b.preds[0]=Pred("alloc",40,NS(),ro)
        d,a=V.at(c,p.add(8),nm,ro,al); o.cells[k]=(8,al); o.ro=o.ro or ro; 
        return d
    al=c.ptr(p,0,nm+"_own",ro)
    d,a=V.at(c,p.add(8),nm,ro)
    c.req(veq(a,al),nm+": all storage belongs to the owned allocator")
    b=c.E.obj(c.st,al)
    q=b.preds.get(0)
    if b.tok is None or q is None or q.kind!="alloc": c.req(False,nm+": owns a live allocator"); raise Fail("gc")
    c.req(z3.And(al.off==0,veq(b.tok[0],NEWAL),b.tok[1]==40),nm+": owns its allocator")
    if not ro:
        st=c.st; c.E.obj(st,p).cells.pop(c.off(p),None); b.preds.pop(0); st.heap.pop(b.base.get_id(),None)
    return d
def same_size(c,this,a,V): T,A=gcval(c,this,V,"this"),gcval(c,a,V,"a",True); c.req(T.size==A.size,"sizes agree"); return NS(this=this,a=a,T=T,A=A)
def family(con,home,G,T,V,ctor_t=True,default=True,extra=(),level="A",up="GC",act=()):
    size=8+V.size
    def contract(name,pre,post,keep=True):
        c=Contract(name,pre,post,keep=keep); c.home=home; c.act=act; con[name]=c
    if default:
        def pre(c,this): uninit(c,this,size,"this"); return NS(this=this)
        contract(G+up+"()",pre,lambda c,o,r: gcval(c,o.this,V,"new") and None)
    def pre(c,this,a): uninit(c,this,size,"this"); return NS(this=this,A=gcval(c,a,V,"a",True))
    def post(c,o,r): V.same(c,gcval(c,o.this,V,"copy"),o.A,"copy")
    contract(G+up+"("+G[:-2]+" const&)",pre,post)
    def pre(c,this,a): uninit(c,this,size,"this"); A,_=V.at(c,a,"a",True); return NS(this=this,A=A)
    contract(G+up+"("+T+" const&)",pre,post)
    contract(G+"~"+up+"()",lambda c,this: gcval(c,this,V,"this"),lambda c,o,r: None)
    if up=="GC":
        def pre(c,this,a): return NS(this=this,a=a,T=gcval(c,this,V,"this"),A=gcval(c,a,V,"a",True)) if V.kind!="monom" else same_size(c,this,a,V)
        contract(G+"operator=("+G[:-2]+" const&)",pre,lambda c,o,r: V.same(c,gcval(c,o.this,V,"assigned"),o.A,"assigned"))
    def pre(c,this,a): return NS(this=this,a=a,T=gcval(c,this,V,"this"),A=gcval(c,a,V,"a"))
    def post(c,o,r): V.same(c,gcval(c,o.this,V,"this"),o.A,"this"); V.same(c,gcval(c,o.a,V,"a"),o.T,"a")
    contract(G+"swap("+G[:-2]+"&)",pre,post)
    def pre(c,this): return NS(this=this,T=gcval(c,this,V,"this"))
    contract(G+"reallocate()",pre,lambda c,o,r: V.same(c,gcval(c,o.this,V,"compacted"),o.T,"compacted"))
# ---- level A: GC<Monom>, GC<Integer>, GC<List<int>>
CONG={}; KING=dict(KINDS)
for _n,_c in CON.items():
    if _c.home in("monom","integer","list") or _n in(A_ALLOC,A_FREE): _k=copy.copy(_c); _k.keep=True; CONG[_n]=_k
base(CONG,KING)
family(CONG,"gc","GInv::GC<GInv::Monom>::","GInv::Monom",MonomV(),default=False)
family(CONG,"gc","GInv::GC<GInv::Integer>::","GInv::Integer",IntV())
family(CONG,"gc","GInv::GC<GInv::List<int> >::","GInv::List<int>",ListV())
# ---- level B: GCPolyInt
CONP=dict(PI.CONB); KINP=dict(PI.KINDB)
base(CONP,KINP)
class PEngine(PI.PolyEngine): pass
family(CONP,"gcpoly","GInv::GCPolyInt::","GInv::PolyInt",PolyV(),default=False,up="GCPolyInt",act=PI.ALLF)
def pre(c,this,v,a):
    uninit(c,this,64,"this"); A=PI.pint(c,a,"a",True); c.req(z3.And(v>=0,v<PI.NRING),"variable index"); x=PI.MVAR(v,-1); c.fact(PI.MPOS(x)==-1)
    return NS(this=this,v=v,A=A)
def post(c,o,r):
    d=gcval(c,o.this,PolyV(),"product"); A=o.A; x=PI.MVAR(o.v,-1)
    for k,e in {"n":A.n,"f":PI.FAT(A.F,x),"np":A.np,"lc":A.lc,"top":z3.If(A.n==0,PI.RZ,PI.MMUL(A.top,x))}.items(): c.ens(d[k]==e,"product with the variable: "+PI.LBL.get(k,k))
_n="GInv::GCPolyInt::GCPolyInt(int, GInv::PolyInt const&)"
_c=Contract(_n,pre,post); _c.home="gcpoly"; _c.act=("F","np","lc"); CONP[_n]=_c
# ---- level B: WrapPolyInt, an element (abstract: its monomial's and ancestor's values; C22 proves Wrap itself) with its polynomial
def wb_facts(E,st,d): st.assume(MM.MDEG(d["lm"])>=0,MM.MDEG(d["an"])>=0,MM.MPOS(d["lm"])>=-1,MM.MPOS(d["an"])>=-1)
KINP["wrapb"]=Kind("wrapb",128,lambda E,st,name: NS(lm=fresh(name+"_lm",REAL),an=fresh(name+"_an",REAL)),wb_facts,None,None,owns=lambda d:TRUE)
def wcon(nm,pre,post,trusted=False,act=()):
    c=Contract(nm,pre,post,trusted=trusted); c.act=act; c.home=None if trusted else "gcpoly"; CONP[nm]=c
def pre(c,this,m): uninit(c,this,128,"element"); return NS(this=this,M=PI.ring_m(c,m,"m"))
def post(c,o,r): d=c.pred("wrapb",o.this,"element"); c.ens(z3.And(d.lm==o.M.mv,d.an==o.M.mv),"element of the monomial, its own ancestor")
wcon("GInv::Wrap::Wrap(GInv::Monom const&)",pre,post,True)
def pre(c,this,v,a):
    uninit(c,this,128,"element"); A=c.pred("wrapb",a,"parent"); c.req(z3.And(v>=0,v<PI.NRING),"variable index"); return NS(this=this,A=A,a=a,v=v)
def post(c,o,r):
    d=c.pred("wrapb",o.this,"element"); c.ens(z3.And(d.lm==PI.MMUL(o.A.lm,PI.MVAR(o.v,-1)),d.an==o.A.an),"prolongation, with the parent's ancestor")
    p=c.pred("wrapb",o.a,"parent"); c.ens(z3.And(p.lm==o.A.lm,p.an==o.A.an),"parent keeps monomial and ancestor")
wcon("GInv::Wrap::Wrap(int, GInv::Wrap const*)",pre,post,True)
wcon("GInv::Wrap::~Wrap()",lambda c,this: c.pred("wrapb",this,"element") and None,lambda c,o,r: None,True)
PV=PolyV()
def wpi(c,p,nm):
    w=c.pred("wrapb",p,nm); d=gcval(c,p.add(128),PV,nm); d=NS(d); d["W"]=w; return d
WP="GInv::WrapPolyInt::"
def pre(c,this,a): uninit(c,this,192,"this"); A=PI.pint(c,a,"a",True); c.req(A.n>0,"polynomial is not zero"); return NS(this=this,A=A)
def post(c,o,r): d=wpi(c,o.this,"new"); PV.same(c,d,o.A,"copy"); c.ens(z3.And(d.W.lm==o.A.top,d.W.an==o.A.top),"element of the leading monomial")
wcon(WP+"WrapPolyInt(GInv::PolyInt const&)",pre,post,act=PI.ALLF)
def pre(c,this,v,a):
    uninit(c,this,192,"this"); A=wpi(c,a,"parent"); c.req(z3.And(v>=0,v<PI.NRING),"variable index"); x=PI.MVAR(v,-1); c.fact(PI.MPOS(x)==-1); return NS(this=this,v=v,a=a,A=A)
def post(c,o,r):
    d=wpi(c,o.this,"prolongation"); A=o.A; x=PI.MVAR(o.v,-1)
    for k,e in {"n":A.n,"f":PI.FAT(A.F,x),"np":A.np,"lc":A.lc,"top":z3.If(A.n==0,PI.RZ,PI.MMUL(A.top,x))}.items(): c.ens(d[k]==e,"product with the variable: "+PI.LBL.get(k,k))
    c.ens(z3.And(d.W.lm==PI.MMUL(A.W.lm,x),d.W.an==A.W.an),"prolongation's monomial and ancestor")
    p=wpi(c,o.a,"parent"); PV.same(c,p,A,"parent"); c.ens(z3.And(p.W.lm==A.W.lm,p.W.an==A.W.an),"parent keeps monomial and ancestor")
wcon(WP+"WrapPolyInt(int, GInv::WrapPolyInt*)",pre,post,act=PI.ALLF+("F",))
def pre(c,this): return NS(this=this,T=wpi(c,this,"this"))
wcon(WP+"~WrapPolyInt()",pre,lambda c,o,r: None)
def post(c,o,r): d=wpi(c,o.this,"compacted"); PV.same(c,d,o.T,"compacted"); c.ens(z3.And(d.W.lm==o.T.W.lm,d.W.an==o.T.W.an),"element's monomial and ancestor unchanged")
wcon(WP+"reallocate()",pre,post,act=PI.ALLF)
