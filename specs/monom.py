"""Contracts of GInv::Monom (exponent vectors)."""
from .common import *
HOME[0]="monom"
i32=ir.Ty("int",32)
MVF=z3.Function("MVF",ARR,INT,INT,REAL)     # abstract value of a monomial: (exponents, size, position)
MDEG=z3.Function("MDEG",REAL,INT); MPOS=z3.Function("MPOS",REAL,INT)
MMUL=z3.Function("MMUL",REAL,REAL,REAL); MVAR=z3.Function("MVAR",INT,INT,REAL)
MQUO=z3.Function("MQUO",REAL,REAL,REAL)      # the quotient (exponents and position are determined by the operands)
MDIVS=z3.Function("MDIVS",REAL,REAL,BOOL)   # MDIVS(m,d): d divides m
def m_fresh(E,st,name):
    d=NS(alloc=Ptr(fresh(name+"_al"),ZERO),size=fresh(name+"_n"),pos=fresh(name+"_pos"),deg=fresh(name+"_deg"),
         vars=fresh(name+"_v",ARR),blk=fresh(name+"_blk"),mv=fresh(name+"_mv",REAL))
    return d
def m_valid(d): 
    return [("at least one variable",d.size>0),("position is -1 or more",d.pos>=-1),
            ("non-negative exponents",forall(ZERO,d.size,lambda j:d.vars[j]>=0)),
            ("degree equals the sum of the exponents",d.deg==PS(d.vars,d.size))]
def m_facts(E,st,d):
    st.assume(d.size>0,d.size<(1<<28),d.pos>=-1,d.deg>=0,d.pos<(1<<31))
    if E.level=="A":
        st.assume(*[f for _,f in m_valid(d)])
        st.assume(z3.Implies(d.deg==0,forall(ZERO,d.size,lambda j:d.vars[j]==0)))   # instance of L_zero
    else:
        st.assume(MDEG(d.mv)==d.deg,MPOS(d.mv)==d.pos)
def m_unfold(E,st,o,off,p):
    d=NS(p.d)
    o.cells[off]=(8,d.alloc); o.cells[off+8]=(4,d.size); o.cells[off+12]=(4,d.pos); o.cells[off+16]=(4,d.deg)
    b=E.new_obj(st,4*d.size,o.name+".vars","heap",base=d.blk); st.assume(d.blk>0)
    b.arr=Arr(4,d.size,d.vars); b.tok=(d.alloc,simp(4*d.size)); b.ro=p.ro or o.ro
    o.cells[off+24]=(8,Ptr(d.blk,ZERO))
    st.assume(MVF(d.vars,d.size,d.pos)==d.mv)
def m_fold(E,st,o,off):
    c=o.cells
    if not all(off+k in c and c[off+k][1] is not None for k in(0,8,12,16,24)): return None
    al,n,pos,deg,vp=[c[off+k][1] for k in(0,8,12,16,24)]
    if not isinstance(al,Ptr) or not isinstance(vp,Ptr) or isnull(vp): return None
    try: b=E.obj(st,vp)
    except NoObject: return None
    if b.raw and b.arr is None: E.type_raw(st,b,4,i32)
    if b.arr is None and isint(b.size): E.type_raw(st,b,4,i32) if not b.cells else None
    if b.arr is None or b.tok is None: return None
    d=NS(alloc=al,size=n,pos=pos,deg=deg,vars=b.arr.m,blk=vp.base,mv=MVF(b.arr.m,n,pos))
    E.oblige(st,z3.And(vp.off==0,b.arr.len==n,b.tok[1]==4*n),"exponent array has the recorded size")
    E.oblige(st,veq(b.tok[0],al),"exponent array belongs to the recorded allocator")
    for k in(0,8,12,16,24): del c[off+k]
    if not(b.ro and not o.ro): st.heap.pop(b.base.get_id(),None)
    p=Pred("monom",32,d,o.ro); p.d["folded"]=True
    o.preds[off]=p
    return p
KINDS["monom"]=Kind("monom",32,m_fresh,m_facts,m_unfold,m_fold,owns=lambda d:TRUE)
def monom(c,p,name,ro=False,lem=None,**f):
    """take: validity of a value assembled by the function is proved (after the lemma instances lem(d))"""
    d=c.pred("monom",p,name,ro,f)
    if not c.give and d.pop("folded",None):
        if lem: 
            for x in lem(d): c.lemma(x)
        for l,x in m_valid(d): c.E.oblige(c.st,x,(("call %s: "%c.call) if c.call else "")+"%s: %s"%(name,l))
        if c.call:
            # the folded value stays known as valid
            o=c.E.obj(c.st,p); q=o.preds.get(c.off(p))
            if q is not None: q.d.pop("folded",None)
    if c.give: d.pop("folded",None)
    return d
def uninit(c,p,n,name):
    if c.give:
        o=c.getobj(p,name,size=I(n))
    else:
        o=c.E.obj(c.st,p); k=c.off(p)
        if k in o.preds or any(k<po+q.size and po<k+n for po,q in o.preds.items()): c.E.oblige(c.st,False,"call %s: constructs into free memory"%c.call)
        if o.size is not None: c.E.oblige(c.st,z3.And(k>=0,I(k+n)<=o.size),"call %s: object fits its memory"%c.call)
        if o.ro: c.E.oblige(c.st,False,"call %s does not modify the operand %s"%(c.call,o.name))
        for x in list(o.cells):
            if k<=x<k+n: del o.cells[x]
def exact(c,f,label):
    """element-wise clause: proved for the body; given to callers that reason about exponents"""
    if not c.give: c.req(f,label)
    elif c.E.level=="A" or not c.call: c.st.assume(f)
def sums(c,arr,h,known=()):
    """the sums accumulated by the loops agree with the specified ones (extensionality, L_lin)"""
    for fn,n in c.st.ghost.get("sums",[]):
        c.lemma(L_lin(fn,[(I(1),arr)],h))
        for q,k in AFF: c.lemma(L_aff(fn,I(q),arr,I(k),h))
        for V in known:      # accumulated on top of, or taken off, a known sum
            c.lemma(L_lin(arr,[(I(1),V),(I(1),fn)],h)); c.lemma(L_lin(arr,[(I(1),V),(I(-1),fn)],h))
M="GInv::Monom::"
# --- constructors
def ctor(name,pre,vec,deg,pos,lem=None,mv=None,alloc=lambda o:o.al):
    """vec(o,j): exponent j; deg(o); pos(o)"""
    def post(c,o,r):
        d=monom(c,o.this,"result",lem=(lambda d:lem(o,d)) if lem else None)
        c.ens(d.size==o.n,"number of variables of the result"); c.ens(veq(d.alloc,alloc(o)),"allocator of the result")
        exact(c,forall(ZERO,o.n,lambda j:d.vars[j]==vec(o,j)),"every exponent of the result")
        c.ens(d.deg==deg(o),"degree of the result"); c.ens(d.pos==pos(o),"position of the result")
        if mv: 
            for f in mv(o,d): c.derive(f)
    contract(name,pre,post)
def p_unit(c,this,al,n,pos):
    uninit(c,this,32,"this"); c.req(z3.And(n>0,n<(1<<28)),"size is positive"); c.req(pos>=-1,"position"); return NS(this=this,al=al,n=n,pos=pos)
ctor(M+"Monom(GInv::Allocator*, int, int)",p_unit,lambda o,j:ZERO,lambda o:ZERO,lambda o:o.pos,lem=lambda o,d:[L_lin(d.vars,[],d.size)],
     mv=lambda o,d:[d.mv==MUNIT(o.pos)])
MUNIT=z3.Function("MUNIT",INT,REAL)
def p_var(c,this,al,v,n,pos):
    uninit(c,this,32,"this"); c.req(z3.And(n>0,n<(1<<28)),"size is positive"); c.req(pos>=-1,"position"); c.req(z3.And(v>=0,v<n),"variable index"); return NS(this=this,al=al,n=n,pos=pos,v=v)
ctor(M+"Monom(GInv::Allocator*, int, int, int)",p_var,lambda o,j:z3.If(j==o.v,I(1),ZERO),lambda o:I(1),lambda o:o.pos,lem=lambda o,d:[L_lin(d.vars,[],d.size,[o.v])],
     mv=lambda o,d:[d.mv==MVAR(o.v,o.pos)])
def p_copy(c,this,al,a):
    uninit(c,this,32,"this"); A=monom(c,a,"a",ro=True); return NS(this=this,al=al,A=A,n=A.size)
ctor(M+"Monom(GInv::Allocator*, GInv::Monom const&)",p_copy,lambda o,j:o.A.vars[j],lambda o:o.A.deg,lambda o:o.A.pos,lem=lambda o,d:[L_lin(d.vars,[(I(1),o.A.vars)],d.size)],
     mv=lambda o,d:[d.mv==o.A.mv])
def p_vcopy(c,this,al,v,a):
    uninit(c,this,32,"this"); A=monom(c,a,"a",ro=True); c.req(z3.And(v>=0,v<A.size),"variable index"); return NS(this=this,al=al,A=A,n=A.size,v=v)
ctor(M+"Monom(GInv::Allocator*, int, GInv::Monom const&)",p_vcopy,lambda o,j:o.A.vars[j]+z3.If(j==o.v,I(1),ZERO),lambda o:o.A.deg+1,lambda o:o.A.pos,
     lem=lambda o,d:[L_lin(d.vars,[(I(1),o.A.vars)],d.size,[o.v])],mv=lambda o,d:[d.mv==MMUL(o.A.mv,MVAR(o.v,-1))])
def p_prod(c,this,al,a,b):
    uninit(c,this,32,"this"); A=monom(c,a,"a",ro=True); B=monom(c,b,"b",ro=True); c.req(A.size==B.size,"sizes agree"); c.req(z3.Or(A.pos==-1,B.pos==-1),"at most one position")
    return NS(this=this,al=al,A=A,B=B,n=A.size)
ctor(M+"Monom(GInv::Allocator*, GInv::Monom const&, GInv::Monom const&)",p_prod,lambda o,j:o.A.vars[j]+o.B.vars[j],lambda o:o.A.deg+o.B.deg,lambda o:z3.If(o.A.pos==-1,o.B.pos,o.A.pos),
     lem=lambda o,d:[L_lin(d.vars,[(I(1),o.A.vars),(I(1),o.B.vars)],d.size)],mv=lambda o,d:[d.mv==MMUL(o.A.mv,o.B.mv)])
MPOW=z3.Function("MPOW",REAL,INT,REAL)
def p_pow(c,this,al,a,n):
    uninit(c,this,32,"this"); A=monom(c,a,"a",ro=True); c.req(n>=0,"exponent is not negative"); return NS(this=this,al=al,A=A,n=A.size,k=n)
ctor(M+"Monom(GInv::Allocator*, GInv::Monom const&, int)",p_pow,lambda o,j:o.A.vars[j]*o.k,lambda o:o.A.deg*o.k,lambda o:o.A.pos,
     lem=lambda o,d:[L_lin(d.vars,[(o.k,o.A.vars)],d.size)],mv=lambda o,d:[d.mv==MPOW(o.A.mv,o.k)])
# --- in-place
def inplace(name,params,vec,deg,pos,req=None,lem=None,mv=None,needthis=True):
    def pre(c,this,*a):
        o=NS(this=this,level=c.E.level)
        o.T=monom(c,this,"this"); o.T0=o.T
        for (nm,k),v in zip(params,a):
            o[nm]=monom(c,v,nm,ro=True) if k=="m" else v
            if k=="m": c.req(o[nm].size==o.T.size,"sizes agree")
        if req:
            for l,f in req(o): c.req(f,l)
        return o
    def post(c,o,r):
        d=monom(c,o.this,"this",lem=(lambda d:lem(o,d)) if lem else None)
        c.ens(d.size==o.T.size,"number of variables unchanged"); c.ens(veq(d.alloc,o.T.alloc),"allocator unchanged")
        exact(c,forall(ZERO,o.T.size,lambda j:d.vars[j]==vec(o,j)),"every exponent of the result")
        c.ens(d.deg==deg(o),"degree of the result")
        if pos: c.ens(d.pos==pos(o),"position of the result")
        if mv:
            for f in mv(o,d): c.derive(f)
    contract(name,pre,post)
inplace(M+"mult(GInv::Monom const&)",[("A","m")],lambda o,j:o.T.vars[j]+o.A.vars[j],lambda o:o.T.deg+o.A.deg,lambda o:z3.If(o.T.pos==-1,o.A.pos,o.T.pos),
    req=lambda o:[("at most one position",z3.Or(o.T.pos==-1,o.A.pos==-1))],
    lem=lambda o,d:[L_lin(d.vars,[(I(1),o.T.vars),(I(1),o.A.vars)],d.size)],mv=lambda o,d:[d.mv==MMUL(o.T.mv,o.A.mv)])
inplace(M+"mult(int, GInv::Monom const&)",[("v","i"),("A","m")],lambda o,j:o.A.vars[j]+z3.If(j==o.v,I(1),ZERO),lambda o:o.A.deg+1,lambda o:o.A.pos,
    req=lambda o:[("variable index",z3.And(o.v>=0,o.v<o.T.size))],
    lem=lambda o,d:[L_lin(d.vars,[(I(1),o.A.vars)],d.size,[o.v])],mv=lambda o,d:[d.mv==MMUL(o.A.mv,MVAR(o.v,-1))])
inplace(M+"div(GInv::Monom const&)",[("A","m")],lambda o,j:o.T.vars[j]-o.A.vars[j],lambda o:o.T.deg-o.A.deg,lambda o:z3.If(o.A.pos==-1,o.T.pos,-1),
    req=lambda o:[("divisible",divs(o))],
    lem=lambda o,d:[L_lin(d.vars,[(I(1),o.T.vars),(I(-1),o.A.vars)],d.size),L_lin(o.T.vars,[(I(1),d.vars),(I(1),o.A.vars)],d.size)],mv=lambda o,d:[MMUL(d.mv,o.A.mv)==o.T.mv,d.mv==MQUO(o.T.mv,o.A.mv)])
inplace(M+"operator=(GInv::Monom const&)",[("A","m")],lambda o,j:o.A.vars[j],lambda o:o.A.deg,lambda o:o.A.pos,
    lem=lambda o,d:[L_lin(d.vars,[(I(1),o.A.vars)],d.size)],mv=lambda o,d:[d.mv==o.A.mv])
def divs(o):
    T,A=o.T,o.A
    e=z3.And(z3.Or(A.pos==-1,T.pos==A.pos),forall(ZERO,T.size,lambda j:T.vars[j]>=A.vars[j]))
    return e if o.level=="A" else MDIVS(T.mv,A.mv)
# --- swap
def pre(c,this,a):
    T=monom(c,this,"this"); A=monom(c,a,"a"); return NS(this=this,a=a,T=T,A=A)
def post(c,o,r):
    for p,s,nm in((o.this,o.A,"this"),(o.a,o.T,"a")):
        d=monom(c,p,nm,lem=lambda d:[L_lin(d.vars,[(I(1),s.vars)],d.size)])
        c.ens(d.size==s.size,"%s: size exchanged"%nm); c.ens(veq(d.alloc,s.alloc),"%s: allocator exchanged"%nm); c.ens(d.deg==s.deg,"%s: degree exchanged"%nm)
        c.ens(d.pos==s.pos,"%s: position exchanged"%nm); exact(c,forall(ZERO,s.size,lambda j:d.vars[j]==s.vars[j]),"%s: exponents exchanged"%nm)
        c.derive(d.mv==s.mv)
contract(M+"swap(GInv::Monom&)",pre,post)
# --- move construction and assignment, destruction
def moved(c,p,name):
    """moved-from value: size 0, owns nothing"""
    n=c.i32(p,8,name+".size")
    if c.give: c.ptr(p,0,name+".alloc"); c.i32(p,12,name+".pos"); c.i32(p,16,name+".deg"); c.ptr(p,24,name+".vars")
    c.ens(n==0,"%s: moved-from value owns nothing"%name)
def pre(c,this,a): uninit(c,this,32,"this"); return NS(this=this,a=a,A=monom(c,a,"a"))
def post(c,o,r):
    d=monom(c,o.this,"this",lem=lambda d:[L_lin(d.vars,[(I(1),o.A.vars)],d.size)])
    c.ens(z3.And(d.size==o.A.size,d.pos==o.A.pos,d.deg==o.A.deg,veq(d.alloc,o.A.alloc)),"fields carried over")
    exact(c,forall(ZERO,o.A.size,lambda j:d.vars[j]==o.A.vars[j]),"exponents carried over"); c.derive(d.mv==o.A.mv)
    moved(c,o.a,"a")
contract(M+"Monom(GInv::Monom&&)",pre,post,keep=False)
def pre(c,this,a): return NS(this=this,a=a,T=monom(c,this,"this"),A=monom(c,a,"a"))
contract(M+"operator=(GInv::Monom&&)",pre,post,keep=False)
def pre(c,this): monom(c,this,"this"); return NS()
contract(M+"~Monom()",pre,lambda c,o,r:None,keep=False)
# --- predicates
def cmp2(name,res,req=None,derive=None,member=True):
    def pre(c,this,a):
        o=NS(T=monom(c,this,"this",ro=True),A=monom(c,a,"a",ro=True)); c.req(o.T.size==o.A.size,"sizes agree")
        if req:
            for l,f in req(o): c.req(f,l)
        return o
    def post(c,o,r):
        if not c.give or c.E.level=="A" or not c.call: res(c,o,r)
        if derive:
            for f in derive(o,r): c.derive(f)
    contract(name,pre,post)
def _eq(c,o,r):
    c.ens(r==z3.And(o.T.pos==o.A.pos,forall(ZERO,o.T.size,lambda j:o.T.vars[j]==o.A.vars[j])),"true exactly for equal position and exponents")
def _eq_res(c,o,r):
    c.lemma(L_lin(o.T.vars,[(I(1),o.A.vars)],o.T.size)); _eq(c,o,r)
cmp2("GInv::operator==(GInv::Monom const&, GInv::Monom const&)",_eq_res,derive=lambda o,r:[r==(o.T.mv==o.A.mv)])
cmp2(M+"divisiable(GInv::Monom const&) const",lambda c,o,r:c.ens(r==divs_exact(o.T,o.A),"true exactly when every exponent is at least the divisor's and the positions fit"),
     derive=lambda o,r:[r==MDIVS(o.T.mv,o.A.mv)])
def divs_exact(T,A): return z3.And(z3.Or(A.pos==-1,T.pos==A.pos),forall(ZERO,T.size,lambda j:T.vars[j]>=A.vars[j]))
def _minmax(mx):
    def res(c,o,r):
        m=fresh("minmax",ARR)
        def f(j):
            x,y=o.T.vars[j],o.A.vars[j]
            return z3.If(x>=y,x,y) if mx else z3.If(x<=y,x,y)
        j=z3.Int("j!m"); c.fact(z3.ForAll([j],m[j]==f(j),patterns=[m[j]]))
        sums(c,m,o.T.size,(o.T.vars,o.A.vars))
        c.ens(r==PS(m,o.T.size),"sum over the variables of the %s exponent"%("larger" if mx else "smaller"))
    return res
for nm,mx in(("gcd",False),("lcm",True)):
    cmp2(M+nm+"(GInv::Monom const&) const",_minmax(mx),req=lambda o:[("at most one position",z3.Or(o.T.pos==-1,o.A.pos==-1))])
# --- orders
def firstdiff(c,a,b,n,last=False):
    """k: index of the first (last) difference, n (-1) if there is none - defined by these facts"""
    k=fresh("k")
    if not last: c.fact(z3.And(k>=0,k<=n,forall(ZERO,k,lambda j:a(j)==b(j)),z3.Implies(k<n,a(k)!=b(k))))
    else: c.fact(z3.And(k>=-1,k<n,forall(k+1,n,lambda j:a(j)==b(j)),z3.Implies(k>=0,a(k)!=b(k))))
    return k
def order_value(c,kind,T,vec,deg,n):
    a=lambda j:T.vars[j]
    if kind=="deglex":
        k=firstdiff(c,a,vec,n,last=True)
        tie=z3.If(k<0,ZERO,z3.If(a(k)<vec(k),I(1),I(-1)))
        return z3.If(T.deg>deg,I(1),z3.If(T.deg<deg,I(-1),tie))
    k=firstdiff(c,a,vec,n)
    tie=z3.If(k>=n,ZERO,z3.If(a(k)>vec(k),I(1),I(-1)))
    if kind=="lex": return tie
    return z3.If(T.deg<deg,I(1),z3.If(T.deg>deg,I(-1),tie))
for kind in("lex","deglex","alex"):
    def res(c,o,r,kind=kind):
        c.ens(r==order_value(c,kind,o.T,lambda j:o.A.vars[j],o.A.deg,o.T.size),"value of the %s comparison"%kind)
    cmp2(M+kind+"(GInv::Monom const&) const",res)
    def pre(c,this,a,b):
        o=NS(T=monom(c,this,"this",ro=True),A=monom(c,a,"a",ro=True),B=monom(c,b,"b",ro=True))
        c.req(z3.And(o.T.size==o.A.size,o.T.size==o.B.size),"sizes agree"); c.req(z3.Or(o.A.pos==-1,o.B.pos==-1),"at most one position")
        return o
    def post(c,o,r,kind=kind):
        c.ens(r==order_value(c,kind,o.T,lambda j:o.A.vars[j]+o.B.vars[j],o.A.deg+o.B.deg,o.T.size),"value of the %s comparison with the product"%kind)
    contract(M+kind+"(GInv::Monom const&, GInv::Monom const&) const",pre,post)
# --- the three orders are admissible: lemmas over the contract's order_value
class _C:
    """collects the defining facts used by order_value"""
    def __init__(s): s.f=[]
    def fact(s,x): s.f.append(x)
def lemma_orders():
    n=z3.Int("n"); A,B,C,AC,BC,Z=[z3.Const(x,ARR) for x in("A","B","C","AC","BC","Z")]
    def mk(a,n): return NS(vars=a,size=n,deg=PS(a,n))
    out=[]
    for kind in("lex","deglex","alex"):
        def cmp(x,y,hy):
            c=_C(); v=order_value(c,kind,mk(x,n),lambda j:y[j],PS(y,n),n); hy+=c.f; return v
        nn=[n>0]+[forall(ZERO,n,lambda j,a=a:a[j]>=0) for a in(A,B,C)]
        eqv=lambda a,b:forall(ZERO,n,lambda j:a[j]==b[j])
        h=list(nn); x=cmp(A,B,h); out.append((kind+": value is -1, 0 or 1",h,z3.Or(x==-1,x==0,x==1)))
        h=list(nn)+[L_lin(A,[(I(1),B)],n)]; x=cmp(A,B,h); out.append((kind+": 0 exactly for equal exponents",h,(x==0)==eqv(A,B)))
        h=list(nn); x=cmp(A,B,h); y=cmp(B,A,h); out.append((kind+": antisymmetric",h,x==-y))
        h=list(nn); x=cmp(A,B,h); y=cmp(B,C,h); z=cmp(A,C,h); out.append((kind+": transitive",h+[x>0,y>0],z>0))
        h=list(nn); x=cmp(A,B,h); y=cmp(B,C,h); z=cmp(A,C,h); out.append((kind+": equality is a congruence",h+[x==0,y>0],z>0))
        h=list(nn)+[forall(ZERO,n,lambda j:AC[j]==A[j]+C[j]),forall(ZERO,n,lambda j:BC[j]==B[j]+C[j]),
            L_lin(AC,[(I(1),A),(I(1),C)],n),L_lin(BC,[(I(1),B),(I(1),C)],n)]
        x=cmp(A,B,h); y=cmp(AC,BC,h); out.append((kind+": unchanged by a common factor",h,x==y))
        if kind!="alex":
            h=list(nn)+[forall(ZERO,n,lambda j:Z[j]==0),L_lin(Z,[],n),L_zero(A,n)]
            x=cmp(A,Z,h); out.append((kind+": the unit is lowest",h,x>=0))
    return out
LEMMAS["orders"]=lemma_orders
# --- accessors (inlined into their users; under contract for the users in other abstractions)
HOME[0]="monom"
_acc=lambda c,this: NS(T=monom(c,this,"this",True))
contract(M+"size() const",_acc,lambda c,o,r: c.ens(z3.And(r==o.T.size,r>0),"number of variables"),keep=False)
contract(M+"pos() const",_acc,lambda c,o,r: c.ens(r==o.T.pos,"position"),keep=False)
def _post(c,o,r): c.ens(r==o.T.deg,"degree"); exact(c,r==PS(o.T.vars,o.T.size),"sum of the exponents")
contract(M+"degree() const",_acc,_post,keep=False)
def _pre(c,this,i): T=monom(c,this,"this",True); c.req(z3.And(i>=0,i<T.size),"variable index"); return NS(T=T,i=i)
contract(M+"operator[](int) const",_pre,lambda c,o,r: exact(c,z3.And(r==o.T.vars[o.i],r>=0),"the exponent of the variable"),keep=False)
