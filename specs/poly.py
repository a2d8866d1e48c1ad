"""Contracts of GInv::Poly: term orders."""
from .common import *
from .monom import monom, uninit, order_value, cmp2
HOME[0]="poly"
P="GInv::Poly::"
ORDERS={0x11:("TOP","lex"),0x12:("TOP","deglex"),0x14:("TOP","alex"),0x21:("POT","lex"),0x22:("POT","deglex"),0x24:("POT","alex")}
ARG1="(GInv::Monom const&, GInv::Monom const&)"; ARG2="(GInv::Monom const&, GInv::Monom const&, GInv::Monom const&)"
def fname(o,k): t,x=ORDERS[o]; return P+t+x+("2"+ARG2 if k==2 else ARG1)
def faddr(E,name):
    """address of the function with this demangled name"""
    inv=E.__dict__.setdefault("inv_names",None)
    if inv is None: inv=E.inv_names={v:k for k,v in E.dm.items()}
    m=inv.get(name)
    if m is None: raise Unsupported("no function "+name)
    return E.globalptr(None,m)
def valid_order(o): return z3.Or(*[o==k for k in ORDERS])
def cmp_is(E,order,fp,k):
    return z3.And(*[z3.Implies(order==o,veq(fp,faddr(E,fname(o,k)))) for o in ORDERS])
def p_fresh(E,st,name): return NS(order=fresh(name+"_ord"),size=fresh(name+"_n"),cmp1=Ptr(fresh(name+"_c1"),ZERO),cmp2=Ptr(fresh(name+"_c2"),ZERO))
def p_facts(E,st,d):
    st.assume(valid_order(d.order),d.size>0,d.size<(1<<28),cmp_is(E,d.order,d.cmp1,1),cmp_is(E,d.order,d.cmp2,2))
def p_unfold(E,st,o,off,p):
    d=NS(p.d); c=o.cells
    c[off]=(4,d.order); c[off+4]=(4,d.size); c[off+8]=(8,d.cmp1); c[off+16]=(8,d.cmp2)
def p_fold(E,st,o,off):
    c=o.cells
    if not all(off+k in c and c[off+k][1] is not None for k in(0,4,8,16)): return None
    d=NS(order=c[off][1],size=c[off+4][1],cmp1=c[off+8][1],cmp2=c[off+16][1])
    if not isinstance(d.cmp1,Ptr) or not isinstance(d.cmp2,Ptr): return None
    E.oblige(st,valid_order(d.order),"order code"); E.oblige(st,d.size>0,"size is positive")
    E.oblige(st,cmp_is(E,d.order,d.cmp1,1),"comparison selected by the order code")
    E.oblige(st,cmp_is(E,d.order,d.cmp2,2),"comparison with a product selected by the order code")
    for k in(0,4,8,16): del c[off+k]
    q=Pred("poly",24,d,o.ro); o.preds[off]=q; return q
KINDS["poly"]=Kind("poly",24,p_fresh,p_facts,p_unfold,p_fold)
# --- comparators
def term_value(c,pos,kind,T,vec,deg,n,tpos,apos):
    v=order_value(c,kind,T,vec,deg,n); pc=z3.If(tpos>apos,I(1),z3.If(tpos<apos,I(-1),ZERO))
    return z3.If(v!=0,v,pc) if pos=="TOP" else z3.If(pc!=0,pc,v)
for _o,(_t,_k) in ORDERS.items():
    def pre(c,a,b):
        o=NS(T=monom(c,a,"a",ro=True),A=monom(c,b,"b",ro=True)); c.req(o.T.size==o.A.size,"sizes agree"); return o
    def post(c,o,r,t=_t,k=_k):
        if not c.give or c.E.level=="A" or not c.call:
            c.ens(r==term_value(c,t,k,o.T,lambda j:o.A.vars[j],o.A.deg,o.T.size,o.T.pos,o.A.pos),"value of the %s %s comparison"%(t,k))
    contract(P+_t+_k+ARG1,pre,post)
    def pre(c,a,b,d):
        o=NS(T=monom(c,a,"a",ro=True),A=monom(c,b,"b",ro=True),B=monom(c,d,"c",ro=True)); c.req(z3.And(o.T.size==o.A.size,o.T.size==o.B.size),"sizes agree")
        c.req(z3.Or(o.A.pos==-1,o.B.pos==-1),"at most one position"); return o
    def post(c,o,r,t=_t,k=_k):
        if not c.give or c.E.level=="A" or not c.call:
            c.ens(r==term_value(c,t,k,o.T,lambda j:o.A.vars[j]+o.B.vars[j],o.A.deg+o.B.deg,o.T.size,o.T.pos,z3.If(o.A.pos==-1,o.B.pos,o.A.pos)),"value of the %s %s comparison with the product"%(t,k))
    contract(P+_t+_k+"2"+ARG2,pre,post)
# --- the comparison of a polynomial goes through the selected function
def pre(c,this,a,b):
    o=NS(T=monom(c,a,"a",ro=True),A=monom(c,b,"b",ro=True),p=c.pred("poly",this,"this",True)); c.req(o.T.size==o.A.size,"sizes agree"); return o
def post(c,o,r):
    if c.E.level!="A" and c.give: return
    for k,(t,x) in ORDERS.items():
        c.ens(z3.Implies(o.p.order==k,r==term_value(c,t,x,o.T,lambda j:o.A.vars[j],o.A.deg,o.T.size,o.T.pos,o.A.pos)),"compares by the %s %s order"%(t,x))
contract(P+"cmp(GInv::Monom const&, GInv::Monom const&) const",pre,post,keep=False)
# --- order selection, copies
def pre(c,this,order):
    c.req(valid_order(order),"order code")
    n=c.i32(this,4,"size"); c.req(n>0,"size is positive")
    if c.give: c.st.heap[this.base.get_id()].cells[c.off(this)]=(4,order)
    else: c.req(c.E.load(c.st,this,4,ir.Ty("int",32),"contract")==order,"order code is recorded")
    return NS(this=this,order=order,n=n)
def post(c,o,r):
    d=c.pred("poly",o.this,"this"); c.ens(d.order==o.order,"order code kept"); c.ens(d.size==o.n,"size kept")
contract(P+"setOrder(int)",pre,post,keep=False)
def pre(c,this,order,n): uninit(c,this,24,"this"); c.req(valid_order(order),"order code"); c.req(z3.And(n>0,n<(1<<28)),"size is positive"); return NS(this=this,order=order,n=n)
contract(P+"Poly(int, int)",pre,post,keep=False)
def same_as(ro):
    def pre(c,this,a): uninit(c,this,24,"this"); A=c.pred("poly",a,"a",ro); return NS(this=this,a=a,order=A.order,n=A.size)
    return pre
def postmove(c,o,r): post(c,o,r); d=c.pred("poly",o.a,"a"); c.ens(z3.And(d.order==o.order,d.size==o.n),"source keeps its order")
contract(P+"Poly(GInv::Poly const&)",same_as(True),post,keep=False)
contract(P+"Poly(GInv::Poly&&)",same_as(False),postmove,keep=False)
def asg(ro):
    def pre(c,this,a): c.pred("poly",this,"this"); A=c.pred("poly",a,"a",ro); return NS(this=this,a=a,order=A.order,n=A.size)
    return pre
contract(P+"operator=(GInv::Poly const&)",asg(True),post,keep=False)
contract(P+"operator=(GInv::Poly&&)",asg(False),postmove,keep=False)
def pre(c,this,a): T=c.pred("poly",this,"this"); A=c.pred("poly",a,"a"); return NS(this=this,a=a,T=T,A=A)
def postswap(c,o,r):
    for p,s,nm in((o.this,o.A,"this"),(o.a,o.T,"a")):
        d=c.pred("poly",p,nm); c.ens(z3.And(d.order==s.order,d.size==s.size),"%s: order and size exchanged"%nm)
contract(P+"swap(GInv::Poly&)",pre,postswap,keep=False)
