"""Contracts of GInv::List<int> and its cursors: a sequence x[0..n) (map m at indices lo..hi)."""
from .common import *
from .monom import uninit
from vcgen.lists import *
from vcgen import lists as LS
HOME[0]="list"
i32=ir.Ty("int",32)
class IntList(ListKind):
    fields=("m","lo","hi"); small=4
    def fresh(s,E,st,name): return dict(m=fresh(name+"_m",ARR),lo=ZERO,hi=fresh(name+"_n"))
    def facts(s,E,st,d): st.assume(d["lo"]<=d["hi"],d["hi"]<(1<<60))
    def n(s,d): return simp(d["hi"]-d["lo"])
    def empty(s,E): return dict(m=z3.K(INT,ZERO),lo=ZERO,hi=ZERO)
    def pre0(s,E,t): return dict(m=t["m"],lo=t["lo"],hi=t["lo"])
    def uncons(s,E,st,d,ro):
        v=simp(z3.Select(d["m"],d["lo"])); E.range_fact(st,v,32)
        return v,dict(m=d["m"],lo=simp(d["lo"]+1),hi=d["hi"])
    def put(s,m,i,v):
        i=simp(i)
        return m if isinstance(v,z3.ExprRef) and v.eq(simp(z3.Select(m,i))) else simp(z3.Store(m,i,v))
    def cons(s,E,st,v,r,x):
        if isinstance(v,Ptr): return None
        return dict(m=s.put(r["m"],r["lo"]-1,v),lo=simp(r["lo"]-1),hi=r["hi"])
    def snoc(s,E,st,d,v,x):
        if isinstance(v,Ptr): return None
        return dict(m=s.put(d["m"],d["hi"],v),lo=d["lo"],hi=simp(d["hi"]+1))
    def concat(s,E,st,a,b):
        if same(simp(a["lo"]),simp(a["hi"])): return dict(m=b["m"],lo=b["lo"],hi=b["hi"])
        if same(simp(b["lo"]),simp(b["hi"])): return dict(m=a["m"],lo=a["lo"],hi=a["hi"])
        if a["m"].eq(b["m"]) and same(simp(a["hi"]),simp(b["lo"])): return dict(m=a["m"],lo=a["lo"],hi=b["hi"])
        m=fresh("cat",ARR); j=z3.Int("j!c")
        st.assume(z3.ForAll([j],m[j]==z3.If(j<a["hi"],a["m"][j],b["m"][j-a["hi"]+b["lo"]]),patterns=[m[j]]))
        return dict(m=m,lo=a["lo"],hi=simp(a["hi"]+b["hi"]-b["lo"]))
    def candidates(s,absn,hs,n,bk,syms): return []
LK=IntList("int")
LKINDS={}
register(LKINDS,LK)
class E_(ListEngine): lk=LK
KINDS.update(LKINDS)
n=LK.n
def seq_is(c,d,length,f,label):
    c.ens(n(d)==length,label+": length"); c.ens(forall(ZERO,length,lambda j:d["m"][d["lo"]+j]==f(j)),label+": elements in order")
def el(d): return lambda j:d["m"][d["lo"]+j]
K="GInv::List<int>::"
def L(c,p,nm,ro=False): return c.pred("list_int",p,nm,ro)
def tail(c,p,nm,al,ro=False):
    """the list from a cell on; give: fresh cell object"""
    d=c.pred("tail_int",p,nm,ro)
    if c.give: c.st.heap[p.base.get_id()].kind="pseudo"; d["al"]=al; q=c.st.heap[p.base.get_id()].preds[c.off(p)]; q.d["al"]=al
    return d
def pre(c,this,al): uninit(c,this,24,"this"); return NS(this=this,al=al)
def post(c,o,r): d=L(c,o.this,"this"); c.ens(n(d)==0,"new list is empty"); c.ens(veq(d.al,o.al),"allocator")
contract(K+"List(GInv::Allocator*)",pre,post,keep=False)
def pre(c,this,al,a): uninit(c,this,24,"this"); return NS(this=this,al=al,A=L(c,a,"a",True))
def post(c,o,r): d=L(c,o.this,"this"); c.ens(veq(d.al,o.al),"allocator"); seq_is(c,d,n(o.A),el(o.A),"copy")
contract(K+"List(GInv::Allocator*, GInv::List<int> const&)",pre,post,keep=False)
def pre(c,this,a): uninit(c,this,24,"this"); return NS(this=this,a=a,A=L(c,a,"a"))
def post(c,o,r): d=L(c,o.this,"this"); e=L(c,o.a,"a"); c.ens(veq(d.al,o.A.al),"allocator"); seq_is(c,d,n(o.A),el(o.A),"moved"); c.ens(n(e)==0,"moved-from list is empty")
contract(K+"List(GInv::List<int>&&)",pre,post,keep=False)
contract(K+"~List()",lambda c,this:L(c,this,"this"),lambda c,o,r:None,keep=False)
def pre(c,this): return NS(this=this,T=L(c,this,"this"))
def post(c,o,r): d=L(c,o.this,"this"); c.ens(n(d)==0,"cleared list is empty"); c.ens(veq(d.al,o.T.al),"allocator kept")
contract(K+"clear()",pre,post,keep=False)
def pre(c,this,a): return NS(this=this,a=a,T=L(c,this,"this"),A=L(c,a,"a"))
def post(c,o,r):
    for p,s,nm in((o.this,o.A,"this"),(o.a,o.T,"a")):
        d=L(c,p,nm); seq_is(c,d,n(s),el(s),nm); c.ens(veq(d.al,s.al),"%s: allocator exchanged"%nm)
contract(K+"swap(GInv::List<int>&)",pre,post,keep=False)
def pre(c,this,a): return NS(this=this,T=L(c,this,"this"),A=L(c,a,"a",True))
def post(c,o,r): d=L(c,o.this,"this"); seq_is(c,d,n(o.A),el(o.A),"assigned"); c.ens(veq(d.al,o.T.al),"allocator kept")
contract(K+"operator=(GInv::List<int> const&)",pre,post,keep=False)
def pre(c,this,a): return NS(this=this,a=a,T=L(c,this,"this"),A=L(c,a,"a"))
def post(c,o,r): d=L(c,o.this,"this"); e=L(c,o.a,"a"); seq_is(c,d,n(o.A),el(o.A),"move-assigned"); c.ens(veq(d.al,o.A.al),"allocator taken over"); c.ens(n(e)==0,"moved-from list is empty")
contract(K+"operator=(GInv::List<int>&&)",pre,post,keep=False)
ro=lambda c,this: L(c,this,"this",True)
contract(K+"operator bool() const",ro,lambda c,T,r: c.ens(r==(n(T)>0),"true when not empty"),keep=False)
contract(K+"length() const",ro,lambda c,T,r: c.ens(r==n(T),"length"),keep=False)
def pre(c,ret,this): uninit(c,ret,8,"result"); return NS(ret=ret,T=L(c,this,"this",True))
contract(K+"begin() const",pre,lambda c,o,r: c.ens(veq(c.ptr(o.ret,0,"r"),Ptr(o.T.hd,ZERO)),"cursor at the first element"),keep=False)
def pre(c,this): T=L(c,this,"this",True); c.req(n(T)>0,"list is not empty"); return T
contract(K+"head() const",pre,lambda c,T,r: c.ens(r==el(T)(0),"first element"),keep=False)
def pre(c,this,x): return NS(this=this,x=x,T=L(c,this,"this"))
def post(c,o,r): d=L(c,o.this,"this"); c.ens(veq(d.al,o.T.al),"allocator kept"); seq_is(c,d,n(o.T)+1,lambda j:z3.If(j==0,o.x,el(o.T)(j-1)),"pushed")
contract(K+"push(int)",pre,post,keep=False)
def pre(c,this): T=L(c,this,"this"); c.req(n(T)>0,"list is not empty"); return NS(this=this,T=T)
def post(c,o,r): d=L(c,o.this,"this"); c.ens(r==el(o.T)(0),"returns the first element"); seq_is(c,d,n(o.T)-1,lambda j:el(o.T)(j+1),"popped"); c.ens(veq(d.al,o.T.al),"allocator kept")
contract(K+"pop()",pre,post,keep=False)
# --- cursors.  A cursor into a list is (list, cell); the list's own cells (allocator, length) and the
# list from the cell on are the footprint, everything before the cell is untouched by framing.
I_=K+"Iterator::"
def header(c,p,nm,ro=False):
    h=NS(p=p,al=c.ptr(p,0,nm+"_al",ro),len=c.i64(p,16,nm+"_len",ro)); return h
def itr(c,this,ro=True,nonempty=False):
    lp=c.ptr(this,0,"it_list"); cp=c.ptr(this,8,"it_cell")
    if c.give: c.st.assume(lp.off==0,cp.off==0); c.st.heap[this.base.get_id()].ro=ro
    lp=Ptr(lp.base,ZERO); cp=Ptr(cp.base,ZERO)
    if c.give: c.st.heap[this.base.get_id()].cells[0]=(8,lp); c.st.heap[this.base.get_id()].cells[8]=(8,cp)
    h=header(c,lp,"list"); t=tail(c,cp,"cell",h.al)
    if c.give: c.st.assume(h.len>=n(t),h.len<(1<<60))
    if nonempty: c.req(n(t)>0,"cursor is not at the end")
    return NS(this=this,lp=lp,cp=cp,h=h,t=t)
def after(c,o,delta,length,f,label):
    h=header(c,o.lp,"list"); t=tail(c,o.cp,"cell",h.al)
    c.ens(h.len==o.h.len+delta,label+": recorded length"); c.ens(veq(h.al,o.h.al),"allocator kept"); seq_is(c,t,length,f,label+": list at the cursor"); return t
def pre(c,this,x): o=itr(c,this); o.x=x; return o
contract(I_+"insert(int)",pre,lambda c,o,r: after(c,o,1,n(o.t)+1,lambda j:z3.If(j==0,o.x,el(o.t)(j-1)),"inserted") and None,keep=False)
def node_at(c,p,al,nm):
    """a single node that is in no list"""
    if c.give:
        o=c.getobj(p,nm); o.size=I(NODE); o.kind="node"; o.tok=(al,I(NODE)); o.raw=False; x=fresh(nm+"_x"); o.cells[0]=(4,x); o.cells[8]=(8,NULL); c.E.range_fact(c.st,x,32); return x
    o=c.E.obj(c.st,p); x=c.E.load(c.st,p,4,i32); nx=c.E.load(c.st,p.add(8),8,ir.PTR)
    c.ens(veq(nx,NULL),"unlinked node has no successor"); c.take_block(o,p,I(NODE),al)
    return x
def pre(c,this,j):
    o=itr(c,this); j=Ptr(j.base,ZERO)
    q=c.ptr(j,0,"node"); q=Ptr(q.base,ZERO)
    if c.give: c.st.heap[j.base.get_id()].cells[0]=(8,q); c.st.heap[j.base.get_id()].ro=True
    o.x=node_at(c,q,o.h.al,"unlinked"); return o
def pre_val(c,this,j):
    o=itr(c,this)
    if c.give:
        q=Ptr(j.base,ZERO); c.st.assume(j.off==0)
    else: q=j
    o.x=node_at(c,q,o.h.al,"unlinked"); return o
contract(I_+"insert(GInv::List<int>::ConstIterator)",pre,lambda c,o,r: after(c,o,1,n(o.t)+1,lambda j:z3.If(j==0,o.x,el(o.t)(j-1)),"relinked") and None,keep=False)
contract(I_+"del()",lambda c,this:itr(c,this,nonempty=True),lambda c,o,r: after(c,o,-1,n(o.t)-1,lambda j:el(o.t)(j+1),"deleted") and None,keep=False)
contract(I_+"clear()",lambda c,this:itr(c,this),lambda c,o,r: after(c,o,-n(o.t),ZERO,el(o.t),"cleared") and None,keep=False)
def pre(c,ret,this): uninit(c,ret,8,"result"); o=itr(c,this,nonempty=True); o.ret=ret; return o
def post(c,o,r):
    r=c.ptr(o.ret,0,"r")
    x=node_at(c,r,o.h.al,"unlinked"); after(c,o,-1,n(o.t)-1,lambda j:el(o.t)(j+1),"unlinked"); c.ens(x==el(o.t)(0),"the unlinked node holds the element")
contract(I_+"get()",pre,post,keep=False)
def pre(c,this): return itr(c,this,nonempty=True)
def post(c,o,r):
    # the reference is the element's own cell: reading it gives the element
    x=c.E.load(c.st,r,4,i32); c.ens(x==el(o.t)(0),"element at the cursor")
    y=fresh("newx"); c.E.store(c.st,r,y,4,i32); after(c,o,0,n(o.t),lambda j:z3.If(j==0,y,el(o.t)(j)),"written through")
contract(I_+"data() const",pre,post,keep=False)
def post(c,o,r):
    # the cursor now names the next element's link
    lp=c.ptr(o.this,0,"l"); cp=c.ptr(o.this,8,"c"); c.ens(veq(lp,o.lp),"same list")
    t=c.pred("tail_int",cp,"next"); seq_is(c,t,n(o.t)-1,lambda j:el(o.t)(j+1),"list after the cursor")
    # and putting it back gives the list as it was
    ob=c.E.obj(c.st,cp); ob.preds[c.off(cp)]=Pred("tail_int",8,t,False); after(c,o,0,n(o.t),el(o.t),"unchanged")
contract(I_+"operator++()",lambda c,this:itr(c,this,ro=False,nonempty=True),post,keep=False)
contract(I_+"operator bool() const",lambda c,this:itr(c,this),lambda c,o,r: (c.ens(r==(n(o.t)>0),"true when not at the end"),after(c,o,0,n(o.t),el(o.t),"unchanged")) and None,keep=False)
def pre(c,ret,this): uninit(c,ret,8,"result"); o=itr(c,this); o.ret=ret; return o
contract(I_+"operator GInv::List<int>::ConstIterator()",pre,lambda c,o,r: c.ens(veq(c.ptr(o.ret,0,"r"),Ptr(o.t.hd,ZERO)),"same position") or (after(c,o,0,n(o.t),el(o.t),"unchanged") and None),keep=False)
def cpair(c,this,nm,ro=True):
    lp=c.ptr(this,0,nm+"_l",ro); cp=c.ptr(this,8,nm+"_c",ro); return NS(l=lp,c=cp)
def pre(c,this,a): return NS(this=this,T=cpair(c,this,"t"),A=cpair(c,a,"a"))
contract(I_+"operator!=(GInv::List<int>::Iterator const&)",pre,lambda c,o,r: c.ens(r==z3.Not(veq(o.T.c,o.A.c)),"cursors differ"),keep=False)
contract(I_+"operator==(GInv::List<int>::Iterator const&)",pre,lambda c,o,r: c.ens(r==veq(o.T.c,o.A.c),"cursors agree"),keep=False)
def pre(c,this,a): return NS(this=this,A=cpair(c,a,"a"),T=cpair(c,this,"t",False))
def post(c,o,r): t=cpair(c,o.this,"t",False); c.ens(z3.And(veq(t.l,o.A.l),veq(t.c,o.A.c)),"same position")
contract(I_+"operator=(GInv::List<int>::Iterator const&)",pre,post,keep=False)
def pre(c,this,a): uninit(c,this,16,"this"); return NS(this=this,A=cpair(c,a,"a"))
contract(I_+"Iterator(GInv::List<int>::Iterator const&)",pre,post,keep=False)
def pre(c,this,l): uninit(c,this,16,"this"); return NS(this=this,l=l)
def post(c,o,r): t=cpair(c,o.this,"t",False); c.ens(z3.And(veq(t.l,o.l),veq(t.c,o.l.add(8))),"cursor at the first link")
contract(I_+"Iterator(GInv::List<int>*)",pre,post,keep=False)
C_=K+"ConstIterator::"
def cit(c,this,ro=True,nonempty=True):
    q=c.ptr(this,0,"node"); q=Ptr(q.base,ZERO)
    if c.give:
        c.st.heap[this.base.get_id()].cells[0]=(8,q); c.st.heap[this.base.get_id()].ro=ro
        d=LK.fresh(c.E,c.st,"rest"); d["al"]=Ptr(fresh("al"),ZERO); new_seg(c.E,c.st,LK,q.base,d,True,"rest")
    d=NS(c.st.heap[q.base.get_id()].preds[0].d)
    if nonempty: c.req(n(d)>0,"cursor is not at the end")
    return NS(this=this,q=q,d=d)
def post(c,o,r):
    q=c.ptr(o.this,0,"node"); d=LK.take_seg(c.E,c.st,q,None); 
    if d is None: c.ens(False,"cursor names a list"); return
    seq_is(c,d,n(o.d)-1,lambda j:el(o.d)(j+1),"rest of the list")
contract(C_+"operator++()",lambda c,this:cit(c,this,False),post,keep=False)
contract(C_+"data() const",lambda c,this:cit(c,this),lambda c,o,r: c.ens(c.E.load(c.st,r,4,i32)==el(o.d)(0),"element at the cursor"),keep=False)
contract(C_+"operator bool() const",lambda c,this:cit(c,this,True,False),lambda c,o,r: c.ens(r==(n(o.d)>0),"true when not at the end"),keep=False)
def pre(c,this,a): return NS(this=this,t=c.ptr(this,0,"t"),a=c.ptr(a,0,"a",True))
contract(C_+"operator!=(GInv::List<int>::ConstIterator const&)",pre,lambda c,o,r: c.ens(r==z3.Not(veq(o.t,o.a)),"cursors differ"),keep=False)
contract(C_+"operator==(GInv::List<int>::ConstIterator const&)",pre,lambda c,o,r: c.ens(r==veq(o.t,o.a),"cursors agree"),keep=False)
contract(C_+"operator=(GInv::List<int>::ConstIterator const&)",pre,lambda c,o,r: c.ens(veq(c.ptr(o.this,0,"t"),o.a),"same position"),keep=False)
