"""Contracts of GInv::Allocator itself (its blocks, its counters), on top of trusted
aligned_alloc / free / operator new / operator delete."""
import z3
from vcgen.sym import *
from vcgen.contract import Contract,NS,Kind
from vcgen import ir
from .monom import uninit
CONA={}; KINDA={}
LIM=1<<60
def contract(name,pre,post,**k):
    c=Contract(name,pre,post,**k); c.home=None if c.trusted else "alloc"; CONA[name]=c; return c
NEWAL=Ptr(z3.Int("GLOBAL_NEW"),ZERO); MALLOC=Ptr(z3.Int("GLOBAL_MALLOC"),ZERO)
def npre(c,n): c.req(n>=0,"size of an allocation"); return n
def npost(c,n,r):
    p=Ptr(fresh("new"),ZERO); ob=c.E.new_obj(c.st,n,"node","heap",base=p.base); c.st.assume(p.base>0); ob.tok=(NEWAL,n); ob.size=simp(n); return p
contract("operator new(unsigned long)",npre,npost,trusted=True)
def dpre(c,p,n=None):
    if isnull(p): return NS()
    o=c.E.obj(c.st,p); c.take_block(o,p,o.tok[1] if n is None and o.tok else n,NEWAL); return NS()
for nm in("operator delete(void*)","operator delete(void*, unsigned long)"): contract(nm,dpre,lambda c,o,r:None,trusted=True)
MEM=z3.Function("MEMSIZE",INT,INT)
def apre(c,a,n): c.req(z3.And(a==16,n>0),"alignment and size of a block"); return n
def apost(c,n,r):
    p=Ptr(fresh("mem"),ZERO); ob=c.E.new_obj(c.st,n,"memory block","heap",base=p.base); c.st.assume(p.base>0); ob.tok=(MALLOC,n); ob.raw=True; ob.size=n; return p
contract("aligned_alloc",apre,apost,trusted=True)
def fpre(c,p): o=c.E.obj(c.st,p); c.take_block(o,p,o.tok[1] if o.tok else ZERO,MALLOC); return NS()
contract("free",fpre,lambda c,o,r:None,trusted=True)
contract("exit",lambda c,n: NS(),lambda c,o,r:None,trusted=True,nret=True)
OUT="std::basic_ostream<char, std::char_traits<char> >"
for nm in(OUT+"& std::operator<< <std::char_traits<char> >("+OUT+"&, char const*)","std::ostream::operator<<(void const*)","std::ostream::operator<<(unsigned long)",
          "std::ostream::operator<<(std::ostream& (*)(std::ostream&))",OUT+"& std::endl<char, std::char_traits<char> >("+OUT+"&)"):
    contract(nm,lambda c,*a: NS(),lambda c,o,r:None,trusted=True)
# --- the chain of blocks: hd first node (0: none), tot sum of the block sizes, top size and mem address of the first block
def b_fresh(E,st,name): return NS(hd=fresh(name+"_hd"),tot=fresh(name+"_tot"),top=fresh(name+"_top"),mem=fresh(name+"_mem"))
def b_facts(E,st,d): st.assume(d["hd"]>=0,d["tot"]>=d["top"],d["tot"]<LIM,z3.If(d["hd"]==0,z3.And(d["tot"]==0,d["top"]==0),z3.And(d["top"]>0,d["mem"]>0)))
def b_unfold(E,st,o,off,p):
    d=p.d; hd=d["hd"]
    if isint(hd) and hd.as_long()==0: o.cells[off]=(8,NULL); return
    o.cells[off]=(8,Ptr(hd,ZERO))
    if hd.get_id() not in st.heap:
        x=Obj(hd,I(16),"blocks","blkseg"); x.preds[0]=Pred("blkseg",16,dict(d),False)
        for y in st.heap.values(): st.assume(z3.Or(hd==0,y.base!=hd))
        st.heap[hd.get_id()]=x
def seg_unfold(E,st,o,off,p):
    d=p.d
    E.oblige(st,d["hd"]!=0,"no access through the end of the chain"); st.assume(d["hd"]>0)
    m=E.new_obj(st,d["top"],"memory block","heap",base=d["mem"]); m.tok=(MALLOC,d["top"]); m.raw=True
    o.cells[0]=(8,Ptr(d["mem"],ZERO)); o.tok=(NEWAL,I(16)); o.kind="heap"
    r=b_fresh(E,st,"rest"); r["tot"]=simp(d["tot"]-d["top"]); b_facts(E,st,r); o.preds[8]=Pred("blk",8,r)
def take(E,st,p):
    """measures of the chain whose first node p points to"""
    if isnull(p): return NS(hd=ZERO,tot=ZERO,top=ZERO,mem=ZERO)
    x=st.heap.get(p.base.get_id())
    if x is None:
        try: x=E.obj(st,p)
        except NoObject: return None
    q=x.preds.get(0)
    if q is not None and q.kind=="blkseg": st.heap.pop(x.base.get_id(),None); return NS(q.d)
    if 0 not in x.cells or not isinstance(x.cells[0][1],Ptr) or x.tok is None: return None
    t=b_fold(E,st,x,8)
    if t is None: return None
    mp=x.cells[0][1]
    try: m=E.obj(st,mp)
    except NoObject: return None
    if m.tok is None: return None
    E.oblige(st,z3.And(mp.off==0,veq(m.tok[0],MALLOC),x.tok[1]==16,veq(x.tok[0],NEWAL)),"node of the chain owns its block")
    st.heap.pop(m.base.get_id(),None); st.heap.pop(x.base.get_id(),None)
    return NS(hd=x.base,tot=simp(t.d["tot"]+m.tok[1]),top=m.tok[1],mem=mp.base)
def b_fold(E,st,o,off):
    q=o.preds.get(off)
    if q is not None: return q if q.kind=="blk" else None
    c=o.cells.get(off)
    if c is None or not isinstance(c[1],Ptr): return None
    d=take(E,st,c[1])
    if d is None: return None
    del o.cells[off]; r=Pred("blk",8,d); o.preds[off]=r; return r
KINDA["blk"]=Kind("blk",8,b_fresh,b_facts,b_unfold,b_fold,owns=lambda d:d.hd!=0)
KINDA["blkseg"]=Kind("blkseg",16,None,None,seg_unfold,None,owns=lambda d:d.hd!=0)
# --- allocator
def a_fresh(E,st,name):
    d=b_fresh(E,st,name)
    for f in("alloc","size","na","ns"): d[f]=fresh(name+"_"+f)
    return d
def valid(d): return [("the allocated size is the total of the owned blocks",d.alloc==d.tot),("the current block is the first one",z3.Implies(d.hd!=0,d.na==d.top)),
    ("no block, nothing in use",z3.Implies(d.hd==0,z3.And(d.na==0,d.ns==0))),("used part of the current block",z3.And(d.ns>=0,d.ns<=d.na)),("used part is a multiple of 16",d.ns%16==0)]
def a_facts(E,st,d): b_facts(E,st,d); st.assume(d.size>=0,d.size<LIM,*[f for _,f in valid(d)])
def a_unfold(E,st,o,off,p):
    d=NS(p.d); c=o.cells
    c[off]=(8,d.alloc); c[off+8]=(8,d.size); c[off+24]=(8,d.na); c[off+32]=(8,d.ns); o.preds[off+16]=Pred("blk",8,NS({k:d[k] for k in("hd","tot","top","mem")}))
def a_fold(E,st,o,off):
    c=o.cells
    if not all(off+k in c and c[off+k][1] is not None for k in(0,8,24,32)): return None
    t=b_fold(E,st,o,off+16)
    if t is None: return None
    d=NS(t.d); d.update(alloc=c[off][1],size=c[off+8][1],na=c[off+24][1],ns=c[off+32][1])
    for l,f in valid(d): E.oblige(st,f,l)
    for k in(0,8,24,32): del c[off+k]
    o.preds.pop(off+16,None)
    r=Pred("allocator",40,d,o.ro); o.preds[off]=r; return r
KINDA["allocator"]=Kind("allocator",40,a_fresh,a_facts,a_unfold,a_fold,owns=lambda d:d.hd!=0)
G="@_ZN4GInv9Allocator"
def glob(c,name,nm):
    p=c.E.globalptr(c.st,name)
    if c.give and p.base.get_id() not in c.st.heap:
        o=Obj(p.base,I(8),nm,"global"); v=fresh(nm); c.st.assume(v>=0,v<LIM); o.cells[0]=(8,v); c.st.heap[p.base.get_id()]=o
    return c.st.heap[p.base.get_id()].cells[0][1]
def globs(c):
    g=NS(cur=glob(c,G+"11sCurrMemoryE","current memory"),max=glob(c,G+"10sMaxMemoryE","maximal memory"),lim=glob(c,G+"12sLimitMemoryE","limit"),page=glob(c,"@_ZN4GInvL14memoryPageSizeE","page size"))
    if c.give: c.fact(z3.And(g.page>0,g.page<(1<<40)))
    return g
def pre0(c,this):
    g=globs(c); T=c.pred("allocator",this,"this"); c.req(g.max>=g.cur,"the maximum is at least the current memory"); c.req(g.cur>=T.alloc,"the current memory includes this allocator"); return NS(this=this,T=T,g=g)
def gpost(c,o,delta):
    g=globs(c)
    c.ens(g.cur==o.g.cur+delta,"the current memory is the sum over the live allocators"); c.ens(z3.And(g.max>=g.cur,g.max>=o.g.max),"the maximum never falls below the current memory")
    c.ens(z3.Or(g.max==o.g.max,g.max==g.cur),"the maximum is a value the current memory had"); c.ens(g.lim==o.g.lim,"limit unchanged")
def rnd(n): return (n/16+1)*16
A="GInv::Allocator::"
def pre(c,this,n): c.req(z3.And(n>0,n<(1<<50)),"size is positive"); o=pre0(c,this); o.n=n; return o
def post(c,o,r):
    d=c.pred("allocator",o.this,"this"); T=o.T; N=rnd(o.n)
    c.ens(d.hd!=0,"a block is owned"); c.ens(z3.And(r.base==d.mem,r.off>=0,r.off+o.n<=d.top),"the memory lies within the current block")
    c.ens(z3.And(r.off+o.n<=d.ns,z3.Implies(d.hd==T.hd,r.off>=T.ns)),"the memory is disjoint from earlier allocations"); c.ens(r.off%16==0,"the memory is 16-byte aligned")
    c.ens(z3.And(z3.Implies(d.hd==T.hd,z3.And(d.mem==T.mem,d.tot==T.tot)),z3.Implies(d.hd!=T.hd,d.tot==T.tot+d.top)),"earlier blocks stay owned")
    c.ens(d.size==T.size+N,"used size grows by the rounded request")
    gpost(c,o,d.alloc-T.alloc)
contract(A+"allocate(unsigned long)",pre,post,keep=False)
def pre(c,this,p,n): c.req(z3.And(n>0,n<(1<<50)),"size is positive"); o=pre0(c,this); o.n=n; c.req(o.T.size>=rnd(n),"the block is in use"); return o
def post(c,o,r):
    d=c.pred("allocator",o.this,"this"); T=o.T
    c.ens(d.size==T.size-rnd(o.n),"used size shrinks by what the same request added")
    c.ens(z3.And(d.hd==T.hd,d.tot==T.tot,d.mem==T.mem,d.ns==T.ns,d.alloc==T.alloc),"blocks stay"); gpost(c,o,ZERO)
contract(A+"deallocate(void const*, unsigned long)",pre,post,keep=False)
def pre(c,this): o=pre0(c,this); c.req(o.T.size==0,"nothing is in use"); return o
contract(A+"~Allocator()",pre,lambda c,o,r: gpost(c,o,-o.T.alloc),keep=False)
def pre(c,this): uninit(c,this,40,"this"); return NS(this=this,g=globs(c))
def post(c,o,r): d=c.pred("allocator",o.this,"this"); c.ens(z3.And(d.hd==0,d.size==0,d.alloc==0),"a new allocator owns nothing"); c.ens(globs(c).cur==o.g.cur,"current memory")
contract(A+"Allocator()",pre,post,keep=False)
def pre(c,this,a): uninit(c,this,40,"this"); g=globs(c); c.req(g.max>=g.cur,"the maximum is at least the current memory"); return NS(this=this,g=g)
def post(c,o,r): d=c.pred("allocator",o.this,"this"); c.ens(d.size==0,"nothing in use"); gpost(c,o,d.alloc)
contract(A+"Allocator(GInv::Allocator const&)",pre,post,keep=False)
def pre(c,this,a): g=globs(c); return NS(this=this,a=a,T=c.pred("allocator",this,"this"),A=c.pred("allocator",a,"a"),g=g)
def post(c,o,r):
    for p,s,n in((o.this,o.A,"this"),(o.a,o.T,"a")):
        d=c.pred("allocator",p,n); c.ens(z3.And(*[d[k]==s[k] for k in("hd","tot","top","mem","alloc","size","na","ns") if k not in("mem","top")]),n+": everything exchanged")
        c.ens(z3.Implies(s.hd!=0,z3.And(d.mem==s.mem,d.top==s.top)),n+": blocks exchanged")
    g=globs(c); c.ens(z3.And(g.cur==o.g.cur,g.max==o.g.max),"current memory unchanged")
contract(A+"swap(GInv::Allocator&)",pre,post,keep=False)
rp=lambda c,this: c.pred("allocator",this,"this",True)
contract(A+"alloc() const",rp,lambda c,T,r:c.ens(r==T.alloc,"allocated size"),keep=False)
contract(A+"size() const",rp,lambda c,T,r:c.ens(r==T.size,"used size"),keep=False)
contract(A+"maxMemory()",lambda c: globs(c),lambda c,g,r:c.ens(r==g.max,"maximal memory"),keep=False)
contract(A+"currMemory()",lambda c: globs(c),lambda c,g,r:c.ens(r==g.cur,"current memory"),keep=False)
