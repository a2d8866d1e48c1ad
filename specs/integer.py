"""Contracts of GInv::Integer over the documented behaviour of GMP (trusted).
A value is its sign and limb count (_mp_size) and the magnitude held by the limbs: MAG(limbs,n)."""
from .common import *
from .monom import uninit, moved
HOME[0]="integer"
i32=ir.Ty("int",32)
MAG=z3.Function("MAG",ARR,INT,INT)      # magnitude of the first n limbs
NL=z3.Function("NL",INT,INT)            # number of limbs of a non-negative integer
STRVAL=z3.Function("STRVAL",INT,INT,INT)  # value of a C string (pointer)
def zabs(x): return z3.If(x>=0,x,-x)
def zmax(a,b): return z3.If(a>=b,a,b)
def zmin(a,b): return z3.If(a<=b,a,b)
def value(lim,sz): return z3.If(sz<0,-MAG(lim,-sz),z3.If(sz>0,MAG(lim,sz),ZERO))
def norm_facts(v,sz,cap=None):
    """sz is the signed limb count of v"""
    r=[zabs(sz)==NL(zabs(v)),NL(zabs(v))>=0,(sz==0)==(v==0),(sz>0)==(v>0),(sz<0)==(v<0),NL(ZERO)==0]
    if cap is not None: r+=[cap>=0,zabs(sz)<=cap]
    return r
def z_fresh(E,st,name): return NS(alloc=Ptr(fresh(name+"_al"),ZERO),cap=fresh(name+"_cap"),sz=fresh(name+"_sz"),val=fresh(name+"_val"),lim=fresh(name+"_lim",ARR),blk=fresh(name+"_blk"))
def z_facts(E,st,d): st.assume(*norm_facts(d.val,d.sz,d.cap)); st.assume(d.val==value(d.lim,d.sz),d.cap<(1<<31)-2)
def z_unfold(E,st,o,off,p):
    d=NS(p.d); c=o.cells
    c[off]=(8,d.alloc); c[off+8]=(4,d.cap); c[off+12]=(4,d.sz); c[off+16]=(8,Ptr(d.blk,ZERO))
    if isint(simp(d.cap)) and simp(d.cap).as_long()==0: return
    b=E.new_obj(st,simp(8*d.cap),o.name+".limbs","heap",base=d.blk); st.assume(d.blk>0); b.arr=Arr(8,d.cap,d.lim); b.tok=(d.alloc,simp(8*d.cap)); b.cond=d.cap>0; b.ro=p.ro or o.ro
def z_fold(E,st,o,off):
    c=o.cells
    if not all(off+k in c and c[off+k][1] is not None for k in(0,8,12,16)): return None
    al,cap,sz,dp=[c[off+k][1] for k in(0,8,12,16)]
    if not isinstance(al,Ptr) or not isinstance(dp,Ptr): return None
    b=None
    try: b=E.obj(st,dp)
    except NoObject: pass
    if b is None:
        E.oblige(st,cap==0,"an integer without storage records no storage")
        lim=fresh("lim0",ARR); st.assume(MAG(lim,ZERO)==0)
    else:
        if b.raw and b.arr is None: E.type_raw(st,b,8,ir.Ty("int",64))
        if b.arr is None and isint(b.size) and not b.cells: E.type_raw(st,b,8,ir.Ty("int",64))
        if b.arr is None or b.tok is None or b.tok[1] is None: return None
        E.oblige(st,z3.Or(cap==0,z3.And(dp.off==0,b.arr.len==cap,b.tok[1]==8*cap)),"storage has the recorded size")
        E.oblige(st,z3.Or(cap==0,veq(b.tok[0],al)),"storage belongs to the recorded allocator")
        E.oblige(st,z3.Implies(cap==0,z3.Not(b.cond) if b.cond is not None else FALSE),"storage is recorded")
        lim=b.arr.m
    v=value(lim,sz); st.assume(NL(ZERO)==0)
    for f in norm_facts(v,sz,cap): E.oblige(st,f,"number is normalised and fits its storage") if not z3.is_true(simp(f)) else None
    d=NS(alloc=al,cap=cap,sz=sz,val=simp(v),lim=lim,blk=dp.base)
    for k in(0,8,12,16): del c[off+k]
    if b is not None and not(b.ro and not o.ro): st.heap.pop(b.base.get_id(),None)
    q=Pred("int",24,d,o.ro); o.preds[off]=q; return q
KINDS["int"]=Kind("int",24,z_fresh,z_facts,z_unfold,z_fold,owns=lambda d:d.cap>0)
def integer(c,p,name,ro=False,**f): return c.pred("int",p,name,ro,f)
# ---- GMP (trusted): a number is (alloc,size,limb pointer); results are normalised and must fit
class Z: pass
def mpz(c,p,write=False):
    E=c.E; st=c.st; o=E.obj(st,p); k=c.off(p)
    E.unfold_at(st,o,k,16,write)
    z=Z(); z.o=o; z.k=k; z.p=p
    for f,off,w,ty in(("cap",0,4,i32),("sz",4,4,i32),("d",8,8,ir.PTR)): setattr(z,f,E.load(st,Ptr(p.base,I(k+off)),w,ty,"GMP"))
    if write and o.ro: E.oblige(st,False,"call %s does not modify the operand %s"%(c.call,o.name))
    try: z.b=E.obj(st,z.d)
    except NoObject: z.b=None
    if z.b is not None and z.b.arr is None: E.type_raw(st,z.b,8,ir.Ty("int",64))
    z.lim=z.b.arr.m if z.b is not None else None
    z.val=value(z.lim,z.sz) if z.b is not None else ZERO
    z.gmp=z.b is not None and z.b.kind=="gmp"
    if z.b is None:
        E.oblige(st,z3.And(z.cap==0,z.sz==0),"call %s: operand is an initialised number"%c.call)
    if z.b is not None: st.assume(MAG(z.lim,ZERO)==0)
    return z
def setz(c,z,v,need,facts=()):
    """result v of a GMP function written to z, which must already have room for `need` limbs"""
    E=c.E; st=c.st
    if not z.gmp: E.oblige(st,z.cap>=need,"call %s: result storage is large enough, so GMP does not grow memory it does not own"%c.call)
    if z.o.ro or (z.b is not None and z.b.ro): E.oblige(st,False,"call %s does not modify an operand"%c.call)
    lim=fresh("lim",ARR); sz=fresh("sz")
    st.assume(*norm_facts(v,sz)); st.assume(*facts)
    st.assume(z3.Implies(sz!=0,MAG(lim,zabs(sz))==zabs(v)))
    if z.b is not None: z.b.arr.m=lim; st.assume(zabs(sz)<=zmax(need,z.cap))
    elif not z.gmp: st.assume(sz==0)
    z.o.cells[z.k+4]=(4,sz)
    # consequence: the value read back is v
    st.assume(value(lim,sz)==v)
def gmp(name,params,need,val,facts=None,req=None):
    """params: names; first is the result"""
    def pre(c,*a):
        zs=NS()
        for n,p in list(zip(params,a))[::-1]:
            zs[n]=mpz(c,p,n=="r") if n in("r","a","b") else p
        if "r" in zs: zs["r"]=mpz(c,a[0],True)
        if req:
            for l,f in req(zs): c.req(f,l)
        return zs
    def post(c,o,rv):
        v=val(o); setz(c,o["r"],v,need(o),facts(o,v) if facts else ())
    contract("__gmpz_"+name,pre,post,trusted=True)
SZ=lambda z: zabs(z.sz)
gmp("add","rab",lambda o:zmax(SZ(o.a),SZ(o.b))+1,lambda o:o.a.val+o.b.val,lambda o,v:[NL(zabs(v))<=zmax(SZ(o.a),SZ(o.b))+1])
gmp("sub","rab",lambda o:zmax(SZ(o.a),SZ(o.b))+1,lambda o:o.a.val-o.b.val,lambda o,v:[NL(zabs(v))<=zmax(SZ(o.a),SZ(o.b))+1])
gmp("mul","rab",lambda o:z3.If(z3.Or(o.a.sz==0,o.b.sz==0),ZERO,SZ(o.a)+SZ(o.b)),lambda o:o.a.val*o.b.val,lambda o,v:[NL(zabs(v))<=SZ(o.a)+SZ(o.b)])
ZDIV=z3.Function("ZDIV",INT,INT,BOOL); ZQUO=z3.Function("ZQUO",INT,INT,INT); ZGCD=z3.Function("ZGCD",INT,INT,INT)
gmp("divexact","rab",lambda o:z3.If(SZ(o.a)<SZ(o.b),ZERO,SZ(o.a)-SZ(o.b)+1),lambda o:ZQUO(o.a.val,o.b.val),
    lambda o,v:[v*o.b.val==o.a.val,z3.Implies(SZ(o.a)<SZ(o.b),v==0),NL(zabs(v))<=zmax(ZERO,SZ(o.a)-SZ(o.b)+1)],
    req=lambda o:[("divisor is not zero",o.b.val!=0),("division is exact",ZDIV(o.a.val,o.b.val))])
gmp("gcd","rab",lambda o:z3.If(o.a.sz==0,SZ(o.b),z3.If(o.b.sz==0,SZ(o.a),zmin(SZ(o.a),SZ(o.b)))),lambda o:ZGCD(o.a.val,o.b.val),
    lambda o,v:[v>=0,z3.Implies(o.a.val!=0,z3.And(v>0,ZDIV(o.a.val,v))),z3.Implies(o.b.val!=0,z3.And(v>0,ZDIV(o.b.val,v))),
      NL(zabs(v))<=z3.If(o.a.sz==0,SZ(o.b),z3.If(o.b.sz==0,SZ(o.a),zmin(SZ(o.a),SZ(o.b))))])
gmp("set","ra",lambda o:SZ(o.a),lambda o:o.a.val,lambda o,v:[NL(zabs(v))==SZ(o.a)])
gmp("set_si","rk",lambda o:z3.If(o.k==0,ZERO,I(1)),lambda o:o.k,lambda o,v:[NL(zabs(v))<=1])
gmp("set_ui","rk",lambda o:z3.If(o.k==0,ZERO,I(1)),lambda o:uns(o.k),lambda o,v:[NL(zabs(v))<=1])
def uns(k): return z3.If(k<0,k+(1<<64),k)
# neg/abs: r may have to copy
gmp("neg","ra",lambda o:SZ(o.a),lambda o:-o.a.val,lambda o,v:[NL(zabs(v))==SZ(o.a)])
gmp("abs","ra",lambda o:SZ(o.a),lambda o:zabs(o.a.val),lambda o,v:[NL(zabs(v))==SZ(o.a)])
# initialisation, strings, release of GMP's own storage
def _init_pre(c,p):
    o=c.E.obj(c.st,p); k=c.off(p)
    if o.ro: c.E.oblige(c.st,False,"initialises an operand")
    for x in list(o.cells):
        if k<=x<k+16: del o.cells[x]
    return NS(o=o,k=k)
DUMMY=z3.Const("GMP_DUMMY",INT)
def _init_post(c,o,r):
    c.E.facts_once(DUMMY<0)
    o.o.cells[o.k]=(4,ZERO); o.o.cells[o.k+4]=(4,ZERO); o.o.cells[o.k+8]=(8,Ptr(DUMMY,ZERO))
contract("__gmpz_init",_init_pre,_init_post,trusted=True)
def _gmpown(c,z):
    """z's storage (if any) is GMP's own"""
    if z.b is not None and not z.gmp: c.E.oblige(c.st,False,"call %s: GMP may resize or free this number's storage"%c.call)
def _str_pre(c,p,s,base): z=mpz(c,p,True); _gmpown(c,z); c.req(base==0,"base is taken from the prefix"); return NS(z=z,s=s)
def _str_post(c,o,r):
    E=c.E; st=c.st; z=o.z
    if z.b is not None: st.heap.pop(z.b.base.get_id(),None)
    cap=fresh("gcap"); st.assume(cap>=0,cap<(1<<31)-2)
    b=E.new_obj(st,simp(8*cap),"gmp limbs","gmp"); lim=fresh("lim",ARR); b.arr=Arr(8,cap,lim); sz=fresh("sz")
    v=STRVAL(o.s.base,o.s.off); st.assume(*norm_facts(v,sz,cap)); st.assume(value(lim,sz)==v,MAG(lim,ZERO)==0)
    z.o.cells[z.k]=(4,cap); z.o.cells[z.k+4]=(4,sz); z.o.cells[z.k+8]=(8,Ptr(b.base,ZERO))
    return ZERO      # precondition of the constructor: the text is a number
contract("__gmpz_set_str",_str_pre,_str_post,trusted=True)
def _clr_pre(c,p): z=mpz(c,p,True); _gmpown(c,z); return NS(z=z)
def _clr_post(c,o,r):
    z=o.z
    if z.b is not None: c.st.heap.pop(z.b.base.get_id(),None)
    for k in(0,4,8): z.o.cells.pop(z.k+k,None)
contract("__gmpz_clear",_clr_pre,_clr_post,trusted=True)
def _sw_pre(c,a,b): return NS(a=mpz(c,a,True),b=mpz(c,b,True))
def _sw_post(c,o,r):
    for k in(0,4,8):
        x=o.a.o.cells[o.a.k+k]; y=o.b.o.cells[o.b.k+k]
        o.a.o.cells[o.a.k+k]=y; o.b.o.cells[o.b.k+k]=x
contract("__gmpz_swap",_sw_pre,_sw_post,trusted=True)
def query(name,params,f,facts=None):
    def pre(c,*a): return NS({n:(mpz(c,p) if n in("a","b") else p) for n,p in zip(params,a)})
    def post(c,o,r):
        for x in f(o,r): c.st.assume(x)
    contract("__gmpz_"+name,pre,post,trusted=True)
def sign3(r,x): return [(r>0)==(x>0),(r<0)==(x<0)]
query("cmp_ui","ak",lambda o,r:sign3(r,o.a.val-uns(o.k)))
query("cmp_si","ak",lambda o,r:sign3(r,o.a.val-o.k))
query("cmpabs_ui","ak",lambda o,r:sign3(r,zabs(o.a.val)-uns(o.k)))
query("cmp","ab",lambda o,r:sign3(r,o.a.val-o.b.val))
query("cmpabs","ab",lambda o,r:sign3(r,zabs(o.a.val)-zabs(o.b.val)))
query("divisible_p","ab",lambda o,r:[(r!=0)==ZDIV(o.a.val,o.b.val)])
# ---- Integer
N="GInv::Integer::"
CI="(GInv::Integer const&)"; CI2="(GInv::Integer const&, GInv::Integer const&)"
def result(c,o,v,alloc,facts=()):
    d=integer(c,o.this,"result"); c.ens(d.val==v,"value of the result"); c.ens(veq(d.alloc,alloc),"allocator of the result")
    return d
def zctor(name,extra,val):
    def pre(c,this,al,*a): uninit(c,this,24,"this"); return NS(this=this,al=al,x=extra(c,*a))
    contract(name,pre,lambda c,o,r:result(c,o,val(o),o.al) and None)
zctor(N+"Integer(GInv::Allocator*)",lambda c:None,lambda o:ZERO)
zctor(N+"Integer(GInv::Allocator*, GInv::Integer const&)",lambda c,a:integer(c,a,"a",True),lambda o:o.x.val)
zctor(N+"Integer(GInv::Allocator*, char const*)",lambda c,s:s,lambda o:STRVAL(o.x.base,o.x.off))
def movedz(c,p,name):
    n=c.i32(p,8,name+".cap")
    if c.give: c.ptr(p,0,name+".alloc"); c.i32(p,12,name+".sz"); c.ptr(p,16,name+".d")
    c.ens(n==0,"%s: moved-from integer owns nothing"%name)
def pre(c,this,a): uninit(c,this,24,"this"); return NS(this=this,a=a,A=integer(c,a,"a"))
def post(c,o,r): result(c,o,o.A.val,o.A.alloc); movedz(c,o.a,"a")
contract(N+"Integer(GInv::Integer&&)",pre,post,keep=False)
def pre(c,this,a): return NS(this=this,a=a,T=integer(c,this,"this"),A=integer(c,a,"a"))
contract(N+"operator=(GInv::Integer&&)",pre,post,keep=False)
def pre(c,this): integer(c,this,"this"); return NS()
contract(N+"~Integer()",pre,lambda c,o,r:None,keep=False)
def pre(c,this,a): return NS(this=this,a=a,T=integer(c,this,"this"),A=integer(c,a,"a"))
def post(c,o,r):
    for p,s in((o.this,o.A),(o.a,o.T)): result(c,NS(this=p),s.val,s.alloc)
contract(N+"swap(GInv::Integer&)",pre,post)
def upd(name,params,val,req=None,facts=None,alias=True):
    def pre(c,this,*a):
        o=NS(this=this,T=integer(c,this,"this"))
        for n,p in zip(params,a): o[n]=integer(c,p,n,True) if n in("a","b") else p
        if req:
            for l,f in req(o): c.req(f,l)
        return o
    def post(c,o,r):
        v=val(o); result(c,o,v,o.T.alloc)
        if facts:
            for f in facts(o,v): c.ens(f,"defining property of the result")
    contract(name,pre,post)
    if params=="a" and alias:
        # x.op(x)
        def pre2(c,this,*a):
            T=integer(c,this,"this"); o=NS(this=this,T=T,a=T)
            if req:
                for l,f in req(o): c.req(f,l)
            return o
        k=contract(name+" [with itself]",pre2,post); k.fn=name; k.alias=(0,1)
upd(N+"operator="+CI,"a",lambda o:o.a.val,alias=False)
upd(N+"set_si(long)","k",lambda o:o.k); upd(N+"set_ui(unsigned long)","k",lambda o:uns(o.k))
upd(N+"set_neg()","",lambda o:-o.T.val)
for op,f in(("add",lambda a,b:a+b),("sub",lambda a,b:a-b),("mult",lambda a,b:a*b)):
    upd(N+op+CI,"a",lambda o,f=f:f(o.T.val,o.a.val)); upd(N+op+CI2,"ab",lambda o,f=f:f(o.a.val,o.b.val))
dq=lambda x,y:[("divisor is not zero",y.val!=0),("division is exact",ZDIV(x.val,y.val))]
upd(N+"div"+CI,"a",lambda o:ZQUO(o.T.val,o.a.val),req=lambda o:dq(o.T,o.a),facts=lambda o,v:[v*o.a.val==o.T.val])
upd(N+"div"+CI2,"ab",lambda o:ZQUO(o.a.val,o.b.val),req=lambda o:dq(o.a,o.b),facts=lambda o,v:[v*o.b.val==o.a.val])
nz=lambda x,y:[("operands of the gcd are not zero",z3.And(x.val!=0,y.val!=0))]
gf=lambda x,y,v:[v>0,ZDIV(x.val,v),ZDIV(y.val,v)]
upd(N+"gcd"+CI,"a",lambda o:ZGCD(o.T.val,o.a.val),req=lambda o:nz(o.T,o.a),facts=lambda o,v:gf(o.T,o.a,v))
upd(N+"gcd"+CI2,"ab",lambda o:ZGCD(o.a.val,o.b.val),req=lambda o:nz(o.a,o.b),facts=lambda o,v:gf(o.a,o.b,v))
def pred(name,params,f):
    def pre(c,this,*a):
        o=NS(T=integer(c,this,"this",True))
        for n,p in zip(params,a): o[n]=integer(c,p,n,True)
        return o
    def post(c,o,r): c.ens(f(o,r),"answer agrees with the value")
    contract(name,pre,post)
pred(N+"isZero() const","",lambda o,r:r==(o.T.val==0))
pred(N+"isOne() const","",lambda o,r:r==(o.T.val==1))
pred(N+"isAbsOne() const","",lambda o,r:r==z3.Or(o.T.val==1,o.T.val==-1))
pred(N+"sgn() const","",lambda o,r:z3.And((r>0)==(o.T.val>0),(r<0)==(o.T.val<0)))
pred(N+"norm() const","",lambda o,r:r==NL(zabs(o.T.val)))
pred(N+"divisible(GInv::Integer const&) const","a",lambda o,r:r==ZDIV(o.T.val,o.a.val))
