"""Contracts of GInv::Stack<int>: a sequence e[0..deep)."""
from .common import *
from .monom import uninit
HOME[0]="stack"
i64=ir.Ty("int",64); LIM=1<<40
def s_fresh(E,st,name): return NS(alloc=Ptr(fresh(name+"_al"),ZERO),size=fresh(name+"_size"),deep=fresh(name+"_deep"),e=fresh(name+"_e",ARR),blk=fresh(name+"_blk"))
def s_facts(E,st,d): st.assume(d.size>0,d.size<LIM,d.deep>=0,d.deep<=d.size)
def s_unfold(E,st,o,off,p):
    d=NS(p.d); c=o.cells
    c[off]=(8,d.alloc); c[off+8]=(8,d.size); c[off+16]=(8,d.deep); c[off+24]=(8,Ptr(d.blk,ZERO))
    b=E.new_obj(st,simp(4*d.size),o.name+".array","heap",base=d.blk); st.assume(d.blk>0); b.arr=Arr(4,d.size,d.e); b.tok=(d.alloc,simp(4*d.size)); b.ro=p.ro or o.ro
def s_fold(E,st,o,off):
    c=o.cells
    if not all(off+k in c and c[off+k][1] is not None for k in(0,8,16,24)): return None
    al,n,deep,bp=[c[off+k][1] for k in(0,8,16,24)]
    if not isinstance(al,Ptr) or not isinstance(bp,Ptr): return None
    try: b=E.obj(st,bp)
    except NoObject: return None
    if b.arr is None: E.type_raw(st,b,4,ir.Ty("int",32))
    if b.tok is None: return None
    E.oblige(st,z3.And(bp.off==0,b.arr.len==n,b.tok[1]==4*n),"array has the recorded capacity"); E.oblige(st,veq(b.tok[0],al),"array belongs to the recorded allocator")
    E.oblige(st,z3.And(n>0,deep>=0,deep<=n),"depth within the capacity")
    d=NS(alloc=al,size=n,deep=deep,e=b.arr.m,blk=bp.base)
    for k in(0,8,16,24): del c[off+k]
    if not(b.ro and not o.ro): st.heap.pop(b.base.get_id(),None)
    q=Pred("stack",32,d,o.ro); o.preds[off]=q; return q
KINDS["stack"]=Kind("stack",32,s_fresh,s_facts,s_unfold,s_fold,owns=lambda d:TRUE)
K="GInv::Stack<int>::"
def same(c,d,deep,f,label): 
    c.ens(d.deep==deep,"%s: depth"%label); c.ens(forall(ZERO,deep,lambda j:d.e[j]==f(j)),"%s: elements in push order"%label)
def st(c,p,n,ro=False): return c.pred("stack",p,n,ro)
def pre(c,this,n,al): uninit(c,this,32,"this"); c.req(z3.And(n>0,n<LIM),"capacity is positive"); return NS(this=this,al=al)
def post(c,o,r): d=st(c,o.this,"this"); c.ens(d.deep==0,"new stack is empty"); c.ens(veq(d.alloc,o.al),"allocator")
contract(K+"Stack(unsigned long, GInv::Allocator*)",pre,post,keep=False)
def pre(c,this,a,al): uninit(c,this,32,"this"); return NS(this=this,al=al,A=st(c,a,"a",True))
def post(c,o,r): d=st(c,o.this,"this"); same(c,d,o.A.deep,lambda j:o.A.e[j],"copy"); c.ens(veq(d.alloc,o.al),"allocator")
contract(K+"Stack(GInv::Stack<int> const&, GInv::Allocator*)",pre,post,keep=False)
contract(K+"~Stack()",lambda c,this:st(c,this,"this"),lambda c,o,r:None,keep=False)
def pre(c,this,a): return NS(this=this,a=a,T=st(c,this,"this"),A=st(c,a,"a"))
def post(c,o,r):
    for p,s,n in((o.this,o.A,"this"),(o.a,o.T,"a")):
        d=st(c,p,n); same(c,d,s.deep,lambda j:s.e[j],n); c.ens(veq(d.alloc,s.alloc),"%s: allocator exchanged"%n)
contract(K+"swap(GInv::Stack<int>&)",pre,post,keep=False)
def pre(c,this,a): return NS(this=this,T=st(c,this,"this"),A=st(c,a,"a",True))
def post(c,o,r): d=st(c,o.this,"this"); same(c,d,o.A.deep,lambda j:o.A.e[j],"assigned"); c.ens(veq(d.alloc,o.T.alloc),"allocator kept")
contract(K+"operator=(GInv::Stack<int> const&)",pre,post,keep=False)
def pre(c,this,x): return NS(this=this,x=x,T=st(c,this,"this"))
def post(c,o,r):
    d=st(c,o.this,"this"); same(c,d,o.T.deep+1,lambda j:z3.If(j==o.T.deep,o.x,o.T.e[j]),"pushed"); c.ens(veq(d.alloc,o.T.alloc),"allocator kept")
contract(K+"push(int)",pre,post,keep=False)
def pre(c,this): T=st(c,this,"this"); c.req(T.deep>0,"stack is not empty"); return NS(this=this,T=T)
def post(c,o,r): d=st(c,o.this,"this"); same(c,d,o.T.deep-1,lambda j:o.T.e[j],"popped")
contract(K+"pop()",pre,post,keep=False)
def pre(c,this): return NS(this=this,T=st(c,this,"this"))
contract(K+"reset()",pre,lambda c,o,r: same(c,st(c,o.this,"this"),ZERO,lambda j:o.T.e[j],"reset"),keep=False)
def pre(c,this): T=st(c,this,"this",True); c.req(T.deep>0,"stack is not empty"); return T
contract(K+"top() const",pre,lambda c,T,r: c.ens(r==T.e[T.deep-1],"top is the last element pushed"),keep=False)
def pre(c,this,i): T=st(c,this,"this",True); c.req(z3.And(i>=0,i<T.deep),"index"); return NS(T=T,i=i)
contract(K+"operator[](unsigned long) const",pre,lambda c,o,r: c.ens(r==o.T.e[o.i],"element at the index"),keep=False)
pre=lambda c,this: st(c,this,"this",True)
contract(K+"deep() const",pre,lambda c,T,r: c.ens(r==T.deep,"depth"),keep=False)
contract(K+"size() const",pre,lambda c,T,r: c.ens(r==T.size,"capacity"),keep=False)
contract(K+"operator bool() const",pre,lambda c,T,r: c.ens(r==(T.deep>0),"true when not empty"),keep=False)
