"""Contracts of GInv::Wrap (a monomial with its ancestor and flags, owning an allocator)."""
from .common import *
from .monom import monom, uninit, m_fresh, m_facts, m_valid, exact, sums
HOME[0]="wrap"
LM,AN=40,72
FL=(("nm",104),("nmd",112),("bd",120))
# --- embedded allocators
KINDS["alloc"]=Kind("alloc",40,lambda E,st,name: NS(),lambda E,st,d: None,None,None)
def pre(c,this): uninit(c,this,40,"allocator"); return NS(this=this)
def post(c,o,r): c.pred("alloc",o.this,"allocator")
contract("GInv::Allocator::Allocator()",pre,post,trusted=True)
def pre(c,this):
    c.pred("alloc",this,"allocator")
    for o in c.st.heap.values():
        if o.tok is not None and isinstance(o.tok[0],Ptr) and not o.ro:
            f=z3.Not(veq(o.tok[0],this)) if o.cond is None else z3.Or(z3.Not(o.cond),z3.Not(veq(o.tok[0],this)))
            c.req(f,"no block of the allocator is in use when it is destroyed")
    return NS()
contract("GInv::Allocator::~Allocator()",pre,lambda c,o,r: None,trusted=True)
# --- elements
def w_fresh(E,st,name):
    d=NS(lm=m_fresh(E,st,name+"_lm"),an=m_fresh(E,st,name+"_an"))
    for f,_ in FL: d[f]=fresh(name+"_"+f,ARR); d[f+"_b"]=fresh(name+"_"+f+"blk")
    return d
def w_facts(E,st,d):
    m_facts(E,st,d.lm); m_facts(E,st,d.an); st.assume(d.an.size==d.lm.size,*[x for _,x in w_valid(d)])
def w_valid(d): return [("flags are true or false",z3.And(*[forall(ZERO,d.lm.size,lambda j,f=f:z3.And(d[f][j]>=0,d[f][j]<=1),lambda j,f=f:[d[f][j]]) for f,_ in FL]))]
def w_unfold(E,st,o,off,p):
    d=NS(p.d); al=Ptr(o.base,I(off)); ro=p.ro or o.ro
    o.preds[off]=Pred("alloc",40,{},ro)
    for k,m in((LM,d.lm),(AN,d.an)): m=dict(m); m["alloc"]=al; o.preds[off+k]=Pred("monom",32,m,ro)
    for f,k in FL:
        b=E.new_obj(st,d.lm.size,o.name+"."+f,"heap",base=d[f+"_b"]); st.assume(d[f+"_b"]>0)
        b.arr=Arr(1,d.lm.size,d[f]); b.tok=(al,d.lm.size); b.ro=ro; o.cells[off+k]=(8,Ptr(d[f+"_b"],ZERO))
def w_fold(E,st,o,off):
    c=o.cells
    q=o.preds.get(off)
    if q is None or q.kind!="alloc" or not all(off+k in c and isinstance(c[off+k][1],Ptr) for _,k in FL): return None
    al=Ptr(o.base,I(off)); d=NS(); fo=[]
    for n,k in(("lm",LM),("an",AN)):
        q=o.preds.get(off+k)
        if q is None or q.kind!="monom": q=E.try_fold(st,o,off+k,"monom")
        if q is None: return None
        E.oblige(st,veq(q.d["alloc"],al),"monomial owned by the element's allocator"); d[n]=NS(q.d)
    E.oblige(st,d.lm.size==d.an.size,"ancestor has as many variables")
    for f,k in FL:
        p=c[off+k][1]
        try: b=E.obj(st,p)
        except NoObject: return None
        if b.arr is None: E.type_raw(st,b,1,ir.Ty("int",8))
        if b.arr is None or b.tok is None: return None
        E.oblige(st,z3.And(p.off==0,b.arr.len==d.lm.size,b.tok[1]==d.lm.size),"flag array has the recorded size")
        E.oblige(st,veq(b.tok[0],al),"flag array belongs to the element's allocator")
        d[f]=b.arr.m; d[f+"_b"]=p.base; del c[off+k]
        if not(b.ro and not o.ro): st.heap.pop(b.base.get_id(),None)
    for k in(0,LM,AN): o.preds.pop(off+k,None)
    d["folded"]=True
    r=Pred("wrap",128,d,o.ro); o.preds[off]=r; return r
KINDS["wrap"]=Kind("wrap",128,w_fresh,w_facts,w_unfold,w_fold,owns=lambda d:TRUE)
def wrap(c,p,name,ro=False):
    d=c.pred("wrap",p,name,ro)
    if c.give: d.pop("folded",None)
    elif d.pop("folded",None):
        for n in("lm","an"):
            if d[n].pop("folded",None):
                for l,x in m_valid(d[n]): c.E.oblige(c.st,x,"%s.%s: %s"%(name,n,l))
        for l,x in w_valid(d): c.E.oblige(c.st,x,"%s: %s"%(name,l))
    return d
def same_m(c,d,m,label):
    c.ens(z3.And(d.size==m.size,d.pos==m.pos,d.deg==m.deg),"%s: size, position and degree"%label)
    exact(c,forall(ZERO,m.size,lambda j:d.vars[j]==m.vars[j]),"%s: every exponent"%label)
def flags(c,d,n,nm,nmd,bd,label):
    for (f,_),v,t in zip(FL,(nm,nmd,bd),("non-multiplicative","delayed","prolonged")):
        c.ens(forall(ZERO,n,lambda j:d[f][j]==v(j)),"%s: %s flags"%(label,t))
no=lambda j:ZERO
W="GInv::Wrap::"
def pre(c,this,a): uninit(c,this,128,"this"); return NS(this=this,A=wrap(c,a,"a",True))
def post(c,o,r):
    d=wrap(c,o.this,"this"); same_m(c,d.lm,o.A.lm,"monomial"); same_m(c,d.an,o.A.an,"ancestor")
    flags(c,d,o.A.lm.size,lambda j:o.A.nm[j],lambda j:o.A.nmd[j],lambda j:o.A.bd[j],"copy")
contract(W+"Wrap(GInv::Wrap const&)",pre,post,keep=False)
def pre(c,this,m): uninit(c,this,128,"this"); return NS(this=this,M=monom(c,m,"m",ro=True))
def post(c,o,r):
    d=wrap(c,o.this,"this"); same_m(c,d.lm,o.M,"monomial"); same_m(c,d.an,o.M,"ancestor"); flags(c,d,o.M.size,no,no,no,"new element")
contract(W+"Wrap(GInv::Monom const&)",pre,post,keep=False)
def pre(c,this,v,a):
    uninit(c,this,128,"this"); A=wrap(c,a,"parent"); c.req(z3.And(v>=0,v<A.lm.size),"variable index"); return NS(this=this,A=A,a=a,v=v)
def post(c,o,r):
    d=wrap(c,o.this,"this"); n=o.A.lm.size
    c.ens(z3.And(d.lm.size==n,d.lm.pos==o.A.lm.pos,d.lm.deg==o.A.lm.deg+1),"prolongation: size, position and degree")
    exact(c,forall(ZERO,n,lambda j:d.lm.vars[j]==o.A.lm.vars[j]+z3.If(j==o.v,I(1),ZERO)),"prolongation: product with the variable")
    same_m(c,d.an,o.A.an,"ancestor of the prolongation"); flags(c,d,n,no,no,no,"prolongation")
    p=wrap(c,o.a,"parent"); same_m(c,p.lm,o.A.lm,"parent's monomial"); same_m(c,p.an,o.A.an,"parent's ancestor")
    flags(c,p,n,lambda j:o.A.nm[j],lambda j:o.A.nmd[j],lambda j:z3.If(j==o.v,I(1),o.A.bd[j]),"parent")
contract(W+"Wrap(int, GInv::Wrap const*)",pre,post,keep=False)
contract(W+"~Wrap()",lambda c,this:wrap(c,this,"this"),lambda c,o,r:None,keep=False)
def pre(c,this,m): T=wrap(c,this,"this"); M=monom(c,m,"m",ro=True); c.req(M.size==T.lm.size,"sizes agree"); return NS(this=this,T=T,M=M)
def post(c,o,r):
    d=wrap(c,o.this,"this"); T=o.T; n=T.lm.size
    eq=z3.And(T.lm.pos==o.M.pos,forall(ZERO,n,lambda j:T.lm.vars[j]==o.M.vars[j]))
    b=fresh("same_monomial",BOOL); c.fact(b==eq)
    def clause(m,m0,l):
        c.ens(z3.And(m.size==n,m.pos==z3.If(b,m0.pos,o.M.pos),m.deg==z3.If(b,m0.deg,o.M.deg)),l+": size, position and degree")
        exact(c,forall(ZERO,n,lambda j:m.vars[j]==z3.If(b,m0.vars[j],o.M.vars[j])),l+": every exponent")
    clause(d.lm,T.lm,"monomial"); clause(d.an,T.an,"ancestor")
    flags(c,d,n,*[(lambda j,f=f:z3.If(b,T[f][j],ZERO)) for f,_ in FL],label="updated")
contract(W+"update(GInv::Monom const&)",pre,post,keep=False)
def pre(c,this): return NS(this=this,T=wrap(c,this,"this"))
def keep(c,o):
    d=wrap(c,o.this,"this"); same_m(c,d.lm,o.T.lm,"monomial"); same_m(c,d.an,o.T.an,"ancestor"); return d
def post(c,o,r): flags(c,keep(c,o),o.T.lm.size,no,lambda j:o.T.nmd[j],lambda j:o.T.bd[j],"cleared")
contract(W+"clearNM() const",pre,post,keep=False)
def setter(nm,f):
    def pre(c,this,v): T=wrap(c,this,"this"); c.req(z3.And(v>=0,v<T.lm.size),"variable index"); return NS(this=this,T=T,v=v)
    def post(c,o,r): flags(c,keep(c,o),o.T.lm.size,*[(lambda j,g=g:z3.If(j==o.v,I(1),o.T[g][j]) if g==f else o.T[g][j]) for g,_ in FL],label=nm)
    contract(W+nm+"(int) const",pre,post,keep=False)
for nm,f in(("setNM","nm"),("setNMd","nmd"),("setBuild","bd")): setter(nm,f)
def getter(nm,f):
    def pre(c,this,v): T=wrap(c,this,"this",True); c.req(z3.And(v>=0,v<T.lm.size),"variable index"); return NS(T=T,v=v)
    contract(W+nm+"(int) const",pre,lambda c,o,r:c.ens(r==(o.T[f][o.v]==1),"reports the flag of the variable"),keep=False)
for nm,f in(("NM","nm"),("NMd","nmd"),("build","bd")): getter(nm,f)
rpre=lambda c,this: NS(this=this,T=wrap(c,this,"this",True))
contract(W+"lm() const",rpre,lambda c,o,r:c.ens(veq(r,o.this.add(LM)),"the element's monomial"),keep=False)
contract(W+"ansector() const",rpre,lambda c,o,r:c.ens(veq(r,o.this.add(AN)),"the element's ancestor"),keep=False)
contract(W+"isGB() const",rpre,lambda c,o,r:c.ens(r==(o.T.an.deg==o.T.lm.deg),"true exactly when the degrees agree"),keep=False)
def post(c,o,r):
    m=fresh("mult",ARR); j=z3.Int("j!m"); c.fact(z3.ForAll([j],m[j]==z3.If(o.T.nm[j]==0,I(1),ZERO),patterns=[m[j]]))
    sums(c,m,o.T.lm.size); c.ens(r==PS(m,o.T.lm.size),"number of multiplicative variables")
contract(W+"multi() const",rpre,post,keep=False)
