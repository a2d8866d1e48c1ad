"""Contracts of GInv::PolyInt: lists of terms measured by sums over an arbitrary weight.

A monomial is its rank r (a real) in the polynomial's order; a polynomial's value is
   f = sum of c*WT(r)           for an arbitrary (uninterpreted) weight WT, hence as a formal sum
   F(t) = sum of c*WT(r*t)      its product with an arbitrary monomial t
so that equations between f's and F's are equations between polynomials over the integers."""
import copy
from .common import *
from . import common
from . import monom as MM, integer as II, poly as PP, wrap as WW
from .monom import MMUL,MVAR,MUNIT,MDIVS,MQUO,MPOS,MDEG,m_fresh
from .integer import NL,STRVAL,ZDIV,ZQUO,ZGCD,zabs,zmax
from vcgen.lists import *
from vcgen import lists as LS, contract as VC
from vcgen.sym import Obj
HOMEB="polyint"
CONB={}
KINDB={}
i32=ir.Ty("int",32)
FS=z3.DeclareSort("FS"); VS=z3.DeclareSort("VS")
WT=z3.Function("WT",REAL,INT)
FAT=z3.Function("FAT",FS,REAL,INT); FADD=z3.Function("FADD",FS,FS,FS); FONE=z3.Function("FONE",INT,REAL,FS); FZ=z3.Const("FZ",FS)
WM=z3.Function("WM",REAL,INT)           # arbitrary weight of a monomial (which monomials occur)
WF=z3.Const("WF",FS)                     # the other factor (rigid)
IRR=z3.Function("IRR",REAL,BOOL)         # no reducer for the monomial
RX=z3.Const("RX",REAL)                   # arbitrary monomial (rigid)
TT=z3.Const("TT",REAL)                   # arbitrary multiplier (rigid)
CMP1F=z3.Function("CMP1F",INT,INT); CMP2F=z3.Function("CMP2F",INT,INT)
ORING=z3.Const("O_RING",INT); NRING=z3.Const("N_RING",INT)
SORT={"n":INT,"f":INT,"F":FS,"w":INT,"srt":BOOL,"nz":BOOL,"np":BOOL,"top":REAL,"bot":REAL,"lc":INT,"mp":INT,"nm":INT,"ms":INT,"ct":INT,"nx":BOOL,"irr":BOOL,"ti":BOOL,"vn":INT}
BASE=("n","f","srt","nz","top","bot","vn")
def ite(c,a,b):
    c=simp(c)
    return a if z3.is_true(c) else b if z3.is_false(c) or a.eq(b) else z3.If(c,a,b)
def ints(st): return dedup([q.d["val"] for x in st.heap.values() if x.kind!="term" for q in x.preds.values() if q.kind=="int" and not isint(q.d["val"])])
class TermList(ListKind):
    fields=tuple(SORT); fold_null=True; holders=("pint",)
    def act(s,E):
        a=getattr(E.cur,"act",None)
        return BASE if a is None else BASE+tuple(a)
    def fresh(s,E,st,name):
        d=NS((k,fresh(name+"_"+k,SORT[k])) for k in SORT); return d
    def n(s,d): return d["n"]
    def facts(s,E,st,d):
        n=d["n"]
        if isint(n) and n.as_long()==0: return
        f=[n>=0,n<(1<<31)]
        z=[d["f"]==0,d["F"]==FZ,d["w"]==0,d["srt"],d["nz"],d["np"],d["mp"]==-1,d["nm"]==0,d["ms"]==0,d["ct"]==0,d["nx"],d["irr"],d["ti"],d["top"]==0,d["bot"]==0,d["lc"]==0]
        f.append(z3.Implies(n==0,z3.And(*z)))
        f.append(z3.Implies(n==1,d["top"]==d["bot"]))
        f.append(z3.Implies(z3.And(n>0,d["srt"]),z3.And(d["top"]>=d["bot"],z3.Implies(n>1,d["top"]>d["bot"]))))
        f.append(z3.Implies(z3.And(n>0,d["np"]),z3.And(MPOS(d["top"])==-1,MPOS(d["bot"])==-1)))
        f.append(z3.Implies(z3.And(n>0,d["nz"]),d["lc"]!=0))
        f.append(z3.Implies(WF==FZ,d["w"]==0))
        if "nx" in s.act(E): f.append(z3.Implies(z3.And(n>0,d["srt"],z3.Or(d["top"]<RX,d["bot"]>RX)),d["nx"]))
        if "irr" in s.act(E): f+=[z3.Implies(d["irr"],d["ti"]),z3.Implies(n==1,d["ti"])]
        if "ct" in s.act(E): f+=[d["ct"]>=0,z3.Implies(z3.And(n>0,d["nz"]),d["ct"]>0),z3.Implies(n==1,d["ct"]==zabs(d["lc"]))]
        f+=[d["mp"]>=-1,z3.Implies(n>0,d["mp"]>=MPOS(d["top"])),d["nm"]>=0,d["vn"]>0,d["vn"]<(1<<28)]
        st.assume(*f)
    def empty(s,E):
        return NS(n=ZERO,f=ZERO,F=FZ,w=ZERO,srt=TRUE,nz=TRUE,np=TRUE,top=z3.RealVal(0),bot=z3.RealVal(0),lc=ZERO,mp=I(-1),nm=ZERO,ms=ZERO,ct=ZERO,nx=TRUE,irr=TRUE,ti=TRUE,vn=NRING)
    def pre0(s,E,t): d=s.empty(E); d["vn"]=t["vn"]; return d
    def zero(s,d): return isint(simp(d["n"])) and simp(d["n"]).as_long()==0
    def uncons(s,E,st,d,ro):
        r=fresh("r",REAL); c=fresh("c"); a=s.act(E)
        m=m_fresh(E,st,"t"); m.alloc=d["al"]; m.size=d["vn"]; m.mv=r; m.pos=MPOS(r); m.deg=MDEG(r)
        z=II.z_fresh(E,st,"t"); z.alloc=d["al"]; z.val=c
        KINDB["monom"].facts(E,st,m); KINDB["int"].facts(E,st,z)
        b=fresh("term")
        if ro:
            t=Obj(b,I(56),"term","term"); st.heap[b.get_id()]=t; t.ro=True
            for x in st.heap.values():
                if x is not t and not x.ro: st.assume(x.base!=b)
        else: t=E.new_obj(st,56,"term","term",base=b)
        st.assume(b>0); t.tok=(d["al"],I(56)); t.preds[0]=Pred("monom",32,m,ro); t.preds[32]=Pred("int",24,z,ro)
        R=s.fresh(E,st,"rest")
        R["n"]=simp(d["n"]-1); R["vn"]=d["vn"]
        e=R["n"]==0
        if "f" in a: R["f"]=simp(d["f"]-c*WT(r))
        if "w" in a: R["w"]=simp(d["w"]-c*FAT(WF,r))
        if "nm" in a: R["nm"]=simp(d["nm"]-NL(zabs(c))); st.assume(NL(zabs(c))>=0)
        if "ms" in a: R["ms"]=simp(d["ms"]-WM(r))
        if "F" in a: st.assume(d["F"]==FADD(FONE(c,r),R["F"]))
        st.assume(d["top"]==r,d["bot"]==z3.If(e,r,R["bot"]))
        if "srt" in a: st.assume(d["srt"]==z3.And(R["srt"],z3.Or(e,r>R["top"])))
        if "nz" in a: st.assume(d["nz"]==z3.And(R["nz"],c!=0))
        if "np" in a: st.assume(d["np"]==z3.And(R["np"],MPOS(r)==-1))
        if "lc" in a: st.assume(d["lc"]==c)
        if "mp" in a: st.assume(d["mp"]==zmax(MPOS(r),R["mp"]))
        if "ct" in a:
            k0=zabs(c); st.assume(d["ct"]==ZGCD(k0,R["ct"]))
            # gcd is associative: instances for the numbers and contents at hand
            for x in list(st.heap.values()):
                for q in x.preds.values():
                    vs=[q.d["val"]] if q.kind=="int" else [q.d["ct"]]+[zabs(k)*q.d["ct"] for k in ints(st)] if q.kind=="pre_term" else []
                    for v in vs: st.assume(ZGCD(v,ZGCD(k0,R["ct"]))==ZGCD(ZGCD(v,k0),R["ct"]))
        if "irr" in a: st.assume(d["irr"]==z3.And(R["irr"],IRR(r)),d["ti"]==R["irr"])
        if "nx" in a: st.assume(d["nx"]==z3.And(R["nx"],r!=RX))
        return Ptr(b,ZERO),R
    def absorb(s,E,st,v,al):
        """(rank, coefficient, variables) of the term object v, which becomes part of a list"""
        if not isinstance(v,Ptr): return None
        try: t=E.obj(st,v)
        except NoObject: return None
        m=t.preds.get(0); z=t.preds.get(32)
        if E.const_off(st,v.off)!=0 or m is None or z is None or m.kind!="monom" or z.kind!="int" or t.tok is None: return None
        E.oblige(st,z3.And(t.tok[1]==56,z3.Or(t.ro,veq(t.tok[0],al)) if al is not None else TRUE),"term belongs to the list's allocator and has the size of a term")
        E.oblige(st,z3.And(veq(m.d["alloc"],t.tok[0]),veq(z.d["alloc"],t.tok[0])),"monomial and coefficient of a term belong to its allocator")
        drop(st,t)
        return m.d["mv"],z.d["val"],m.d["size"]
    def vn(s,E,st,d,vn):
        if s.zero(d): return vn
        if not same(d["vn"],vn): E.oblige(st,z3.Or(d["n"]==0,d["vn"]==vn),"terms of a list have the same number of variables")
        return vn
    def one(s,r,c,vn):
        return NS(n=I(1),f=c*WT(r),F=FONE(c,r),w=c*FAT(WF,r),srt=TRUE,nz=c!=0,np=MPOS(r)==-1,top=r,bot=r,lc=c,mp=zmax(MPOS(r),I(-1)),nm=NL(zabs(c)),ms=WM(r),ct=zabs(c),nx=r!=RX,irr=IRR(r),ti=TRUE,vn=vn)
    def cons(s,E,st,v,d,x):
        t=s.absorb(E,st,v,x.tok[0] if x.tok else None)
        if t is None: return None
        r,c,vn=t; return s.concat(E,st,s.one(r,c,s.vn(E,st,d,vn)),d)
    def snoc(s,E,st,d,v,x):
        t=s.absorb(E,st,v,x.tok[0] if x.tok else None)
        if t is None: return None
        r,c,vn=t
        if "ct" in s.act(E):
            # gcd of common multiples
            for k in ints(st): st.assume(ZGCD(zabs(k)*d["ct"],zabs(k*c))==zabs(k)*ZGCD(d["ct"],zabs(c)),zabs(k)*zabs(c)==zabs(k*c))
        return s.concat(E,st,d,s.one(r,c,s.vn(E,st,d,vn)))
    def concat(s,E,st,p,t):
        if s.zero(p): return NS((k,t[k]) for k in SORT)
        if s.zero(t): return NS((k,p[k]) for k in SORT)
        vn=s.vn(E,st,p,t["vn"]) if not same(p["vn"],t["vn"]) else p["vn"]
        pe,te=simp(p["n"]==0),simp(t["n"]==0)
        d=NS(n=simp(p["n"]+t["n"]),f=simp(p["f"]+t["f"]),F=ite(pe,t["F"],ite(te,p["F"],FADD(p["F"],t["F"]))),w=simp(p["w"]+t["w"]),nm=simp(p["nm"]+t["nm"]),ms=simp(p["ms"]+t["ms"]),
          srt=simp(z3.And(p["srt"],t["srt"],z3.Or(pe,te,p["bot"]>t["top"]))),nz=simp(z3.And(p["nz"],t["nz"])),np=simp(z3.And(p["np"],t["np"])),
          top=ite(pe,t["top"],p["top"]),bot=ite(te,p["bot"],t["bot"]),lc=ite(pe,t["lc"],p["lc"]),mp=simp(zmax(p["mp"],t["mp"])),ct=ite(pe,t["ct"],ite(te,p["ct"],ZGCD(p["ct"],t["ct"]))),nx=simp(z3.And(p["nx"],t["nx"])),irr=simp(z3.And(p["irr"],t["irr"])),ti=ite(pe,t["ti"],simp(z3.And(p["ti"],t["irr"]))),vn=vn)
        return d
    # ---- candidate relations between the lists of a loop
    def candidates(s,ll,hs,n,bk,syms):
        E=s.E=ll.E; a=s.act(E); out=[]
        ini=[(x,i) for x,i,_,_ in syms]
        symid={x.get_id() for x,_ in ini}
        def at0(e): return z3.substitute(e,*(ini+[(n,ZERO)]))
        def mod(v): return isinstance(v,z3.ExprRef) and any(i in symid for i in LS.consts(v))
        ls=[]
        for o in hs.heap.values():
            for k,q in o.preds.items():
                if q.kind in("pre_term","tail_term","seg_term","list_term"):
                    if o.kind=="ghost" and LS.pinned(hs,o) and not any(mod(q.d[x]) for x in("n","f","top")): continue
                    ls.append(NS(d=q.d,ro=q.ro or o.ro,kind=q.kind,mod=any(mod(q.d[x]) for x in("n","f","top")),o=o,pre=q.kind=="pre_term" and not(o.kind=="ghost" and LS.pinned(hs,o))))
        ml=[x for x in ls if x.mod]
        # scalars and monomials in scope
        ks=[];ms=[]; kmod=[]
        for o in hs.heap.values():
            for k,q in o.preds.items():
                v=q.d.get("val") if q.kind=="int" else None
                if v is not None:
                    if mod(v): kmod.append(v)
                    elif not isint(v): ks.append(v)
                if q.kind=="monom" and not mod(q.d["mv"]): ms.append(q.d["mv"])
        ms+=hs.ghost.get("monoms",[])
        ks=dedup(ks); ms=dedup(ms)
        fx=ms+[TT] if "F" in a else []
        for x in ls:
            d=x.d
            out+=[d[k] for k in("srt","nz","np","nx","irr","ti") if k in a or k in("srt","nz")]
            if x.mod:
                out+=[d["n"]==0,d["n"]>0]
                out+=[d["n"]<=at0(d["n"]),z3.Or(d["n"]==0,d["vn"]==NRING)]
        for v in kmod: out+=[v!=0,v>0,v<0,v>=0,z3.Or(n==0,v>0)]
        bounds=[]
        for x in ls:
            t0=at0(x.d["top"]); bounds.append((t0,at0(x.d["n"])==0))
        nps=simp(z3.And(*([at0(x.d["np"]) for x in ls]+[MPOS(q)==-1 for q in ms])))
        bp=[(b,z) for b,z in bounds if not mod(b) and not z3.is_true(simp(z))]
        for x in ml:
            if "np" in a: out+=[z3.Implies(nps,x.d["np"]),z3.Implies(at0(x.d["np"]),x.d["np"])]
            for i in range(len(bp)):
                for j in range(i): out.append(z3.Or(x.d["n"]==0,z3.And(z3.Not(bp[i][1]),x.d["top"]<=bp[i][0]),z3.And(z3.Not(bp[j][1]),x.d["top"]<=bp[j][0])))
        for x in ls:
            for y in ls:
                if x is y or not(x.mod or y.mod): continue
                e=z3.Or(x.d["n"]==0,y.d["n"]==0)
                out.append(z3.Or(e,x.d["bot"]>y.d["top"]))
                for q in ms:
                    if y.ro or not x.mod or True: out.append(z3.Or(e,x.d["bot"]>MMUL(y.d["top"],q)))
                    out.append(z3.Or(e,MMUL(x.d["top"],q)==y.d["top"]))
            if x.mod:
                for q in ms:
                    out.append(z3.Or(x.d["n"]==0,x.d["top"]<q)); out.append(z3.Or(x.d["n"]==0,MMUL(x.d["top"],q)==at0(MMUL(x.d["top"],q))))
                    for b,_ in bounds: out.append(z3.Or(x.d["n"]==0,x.d["top"]<MMUL(b,q))); out.append(z3.Or(x.d["n"]==0,MMUL(x.d["top"],q)<b)); out.append(z3.Or(x.d["n"]==0,x.d["top"]<=MMUL(b,q)))
                    for q2 in ms: out.append(z3.Or(x.d["n"]==0,MMUL(x.d["top"],q)<q2))
                for b,z in bounds:
                    if not mod(b): out+=[z3.Or(x.d["n"]==0,x.d["top"]<b),z3.Or(x.d["n"]==0,x.d["top"]<=b)]
                out.append(z3.Or(x.d["n"]==0,x.d["top"]<=at0(x.d["top"]))); out.append(z3.Or(x.d["n"]==0,x.d["top"]<at0(x.d["top"])))
        # conservation along a list: what was passed followed by what is left
        st=hs.copy()
        for x in ml:
            for y in ml:
                if x is y or x.ro: continue
                try: c=s.concat(E,st,dict(x.d,vn=y.d["vn"]),y.d)
                except Exception: continue
                for k in c:
                    if k in a and k not in("f","F","w","n","nm","ms","vn") and mod(c[k]): out.append(c[k]==at0(c[k]))
                for q in ms: e=ite(x.d["n"]==0,MMUL(y.d["top"],q),x.d["top"]); out.append(e==at0(e))
                out.append(z3.Or(x.d["n"]>0,y.d["n"]>0)); out.append(z3.Implies(x.d["n"]>0,x.d["top"]==at0(y.d["top"])))
        if "lc" in a:
            for x in ml:
                for y in ml:
                    if x is not y and not x.ro:
                        for k in[1,-1]+ks: e=ite(x.d["n"]==0,k*y.d["lc"],x.d["lc"]); out.append(e==at0(e))
        if "ct" in a:
            for y in ls:
                for v in kmod+ks+[x.d["ct"] for x in ml if x.pre]+[zabs(k)*x.d["ct"] for x in ml if x.pre for k in ks]:
                    if mod(y.d["ct"]) or mod(v): e=ZGCD(v,y.d["ct"]); out.append(e==at0(e))
                for k in ks: out.append(ZDIV(y.d["ct"],k))
        # phis against measures of what is left
        ints=[(x,i) for x,i,sl,t in syms if z3.is_int(x) and sl.key[0]=="phi" and t==""]
        for x,i in ints:
            for y in ml:
                if "mp" in a: out.append(zmax(x,y.d["mp"])==at0(zmax(x,y.d["mp"])))
        # linear conservation laws
        for fld in("n","f","w","nm","ms"):
            if fld not in a and fld!="f": continue
            opts=[]
            for x in ml[:5]:
                o=[]
                base=[x.d[fld]]
                if fld=="f" and "w" in a and not x.pre: base.append(x.d["w"])
                if fld=="f" and "F" in a:
                    base+=[FAT(x.d["F"],q) for q in fx if not x.pre or q.eq(TT)]
                for bi,b in enumerate(base):
                    o+=[(1,b),(-1,-b)]
                    if fld=="f" and (not x.pre or "ct" in a): o+=[(2,k*b) for k in ks]+[(2,-k*b) for k in ks]
                opts.append([(0,None)]+o)
            if fld in("nm","n"):
                opts=[[(0,None),(1,x)] for x,i in ints]+opts
            def go(i,cur,one,cnt):
                if i==len(opts):
                    if one and cnt>=1 and len(out)<6000:
                        e=cur[0]
                        for t in cur[1:]: e=e+t
                        out.append(e==at0(e))
                    return
                for cl,t in opts[i]:
                    if t is None: go(i+1,cur,one,cnt); continue
                    if cnt>=3: continue
                    if cl==1 or one or cnt==0: go(i+1,cur+[t],one or cl==1,cnt+1)
            go(0,[],False,0)
        return out
def dedup(l):
    r=[]
    for x in l:
        if not any(x.eq(y) for y in r): r.append(x)
    return r
LK=TermList("term")
register(KINDB,LK)
KINDB["alloc"]=KINDS["alloc"]
def mb_facts(E,st,d): st.assume(d.size>0,d.size<(1<<28),d.pos>=-1,d.deg>=0,d.pos<(1<<31),MDEG(d.mv)==d.deg,MPOS(d.mv)==d.pos)
KINDB["monom"]=Kind("monom",32,m_fresh,mb_facts,None,None,owns=lambda d:TRUE)
def zb_facts(E,st,d): st.assume((d.sz==0)==(d.val==0),(d.sz>0)==(d.val>0),(d.sz<0)==(d.val<0),d.cap>=0,z3.Implies(d.cap==0,d.val==0))
KINDB["int"]=Kind("int",24,II.z_fresh,zb_facts,None,None,owns=lambda d:d.cap>0)
READABLE={"monom":{8:"size",12:"pos",16:"deg"},"int":{8:"cap",12:"sz"}}
KEYS={"MMUL":0,"FAT":1,"ZDIV":3,"ZGCD":3}
class PolyEngine(ListEngine):
    lk=LK; batch=True; subst_give=True
    def __init__(s,*a,**k):
        ListEngine.__init__(s,*a,**k); s._t={}; s._ax={}; s.cand_timeout=2500
    def load(s,st,p,w,ty,what="load"):
        if not isnull(p) and w==4:
            try: o=s.obj(st,p)
            except NoObject: o=None
            k=s.const_off(st,p.off) if o is not None else None
            if k is not None:
                for po,q in o.preds.items():
                    if po<=k<po+q.size and q.kind in READABLE and k-po in READABLE[q.kind]: return q.d[READABLE[q.kind][k-po]]
        return ListEngine.load(s,st,p,w,ty,what)
    def new_obj(s,st,size,name,kind,**k):
        o=ListEngine.new_obj(s,st,size,name,kind,**k)
        if kind=="alloca":
            for a in st.ghost.get("als",[]): st.assume(o.base!=a)
        return o
    def on_missing(s,st,p):
        """the element a lookup returned"""
        if not s.shape and not s.proves(st,z3.And(p.base!=0,ISRED(p.base))): return False
        k=s.const_off(st,p.off)
        if k is None: return False
        w=p.base; o=Obj(w,None,"reducer","reducer"); o.ro=True; o.raw=False
        d=q_fresh(s,st,"reducer"); d.update(order=ORING,size=NRING,vn=NRING,F=RED_F(w),top=RED_TOP(w),np=RED_NP(w)); d["mal"]=d["al"]
        q_facts(s,st,d); st.assume(d["n"]>0,d["srt"],d["nz"],d["al"].base>0)
        o.preds[k]=Pred("pint",56,d,True); st.heap[w.get_id()]=o; return True
    # ---- ground instances of the axioms
    def terms(s,f):
        """(products, evaluations, equations of formal sums, divisibilities) in f, by identity"""
        r=s._t.get(f.get_id())
        if r is not None: return r[1]
        T=s._t; stk=[f]
        while stk:
            x=stk[-1]; i=x.get_id()
            if i in T: stk.pop(); continue
            if not z3.is_app(x) or x.num_args()==0: T[i]=(x,None); stk.pop(); continue
            ch=x.children(); todo=[c for c in ch if c.get_id() not in T]
            if todo: stk+=todo; continue
            stk.pop()
            nm=x.decl().name(); own=KEYS.get(nm)
            if own is None and z3.is_eq(x) and ch[0].sort()==FS: own=2
            rs={}
            for c in ch:
                r=T[c.get_id()][1]
                if r is not None: rs[id(r)]=r
            if own is None:
                if len(rs)<=1: T[i]=(x,next(iter(rs.values()),None)); continue
            res=({},{},{},{})
            for r in rs.values():
                for k in range(4): res[k].update(r[k])
            if own is not None: res[own][i]=x
            T[i]=(x,res)
        return T[f.get_id()][1]
    def axioms(s,fs):
        mul={};fat={};feq={};div={}
        def add(f):
            t=s.terms(f)
            if t is not None:
                mul.update(t[0]); fat.update(t[1]); feq.update(t[2]); div.update(t[3])
        for f in fs: add(f)
        key=(frozenset(mul),frozenset(fat),frozenset(feq),frozenset(div))
        r=s._ax.get(key)
        if r is not None: return r
        r=s._ax[key]=s.axioms1(mul,fat,feq,div,add); return r
    def axioms1(s,mul,fat,feq,div,add):
        out=[]
        def ev(F,t):
            nm=F.decl().name()
            if nm=="FADD": return ev(F.arg(0),t)+ev(F.arg(1),t)
            if nm=="FONE": return F.arg(0)*WT(MMUL(F.arg(1),t))
            if nm=="FZ": return ZERO
            if z3.is_app_of(F,z3.Z3_OP_ITE): return z3.If(F.arg(0),ev(F.arg(1),t),ev(F.arg(2),t))
            return FAT(F,t)
        if fat or feq:
            idx=dedup([x.arg(1) for x in fat.values()])
            for x in list(fat.values()):
                e=ev(x.arg(0),x.arg(1))
                if not e.eq(x): out.append(x==e)
                if x.arg(0).decl().name()=="RED_F": out.append(x==0)
            for q in feq.values():
                for t in idx: out.append(z3.Implies(q,ev(q.arg(0),t)==ev(q.arg(1),t)))
            for f in out: add(f)
        by={}
        for x in mul.values(): by.setdefault(x.arg(1).get_id(),[]).append(x)
        for g in by.values():
            for i in range(len(g)):
                for j in range(i):
                    x,y,t=g[i].arg(0),g[j].arg(0),g[i].arg(1)
                    if x.eq(y): continue
                    cond=z3.Or(MPOS(t)==-1,z3.And(MPOS(x)==-1,MPOS(y)==-1))
                    out.append(z3.Implies(cond,z3.And((x<y)==(g[i]<g[j]),(x==y)==(g[i]==g[j]))))
        for x in mul.values():
            a,b=x.arg(0),x.arg(1)
            out.append(z3.And(MPOS(a)>=-1,MPOS(b)>=-1)); out.append(z3.Implies(z3.Or(MPOS(a)==-1,MPOS(b)==-1),MPOS(x)==z3.If(MPOS(a)==-1,MPOS(b),MPOS(a))))
            out.append(MMUL(b,a)==x)
        out+=s.divaxioms(div)
        return [z3.And(*out)] if out else []
    def divaxioms(s,div):
        out=[]; gs=[x for x in div.values() if x.decl().name()=="ZGCD"]; ds=[x for x in div.values() if x.decl().name()=="ZDIV"]
        for x in gs:
            a,b=x.arg(0),x.arg(1)
            out+=[x>=0,z3.Implies(a==0,x==zabs(b)),z3.Implies(b==0,x==zabs(a)),(x==0)==z3.And(a==0,b==0),z3.Implies(z3.Or(a==1,a==-1,b==1,b==-1),x==1)]
        if not getattr(s.cur,"act",None) or "ct" not in s.cur.act: return out
        for x in gs:
            a,b=[e if z3.is_app_of(e,z3.Z3_OP_ITE) or z3.is_app_of(e,z3.Z3_OP_UNINTERPRETED) and e.num_args()>0 else zabs(e) for e in(x.arg(0),x.arg(1))]
            out+=[ZGCD(a,b)==x]
        for x in ds:
            a,d=x.arg(0),x.arg(1)
            out+=[z3.Implies(z3.Or(a==0,a==d,a==-d,d==1,d==-1),x),ZDIV(zabs(a),d)==x]
        for d in dedup([x.arg(1) for x in ds]):
            for x in gs: out+=[ZDIV(x,d)==z3.And(ZDIV(x.arg(0),d),ZDIV(x.arg(1),d)),z3.Implies(z3.Or(x==d,x==-d),z3.And(ZDIV(x.arg(0),d),ZDIV(x.arg(1),d)))]
        return out
    def check(s,fs,goal=None,timeout=None):
        fs=list(fs)+([z3.Not(goal)] if goal is not None else [])
        return ListEngine.check(s,fs+s.axioms(fs),None,timeout)
    def second(s,fs,goal): return ListEngine.second(s,list(fs)+s.axioms(list(fs)+[z3.Not(goal)]),goal)
    # ---- comparisons
    def indirect(s,st,fp,args):
        s.trusted.add("the order's comparison of two terms, and of a term with a product (contracts proved by C03, C04)")
        if len(args)==2: return [(veq(fp,Ptr(CMP1F(ORING),ZERO)),CMP1)]
        return [(veq(fp,Ptr(CMP2F(ORING),ZERO)),CMP2)]
def sg(x,y): return z3.If(x>y,I(1),z3.If(x<y,I(-1),ZERO))
def ring_m(c,p,nm): 
    d=MM.monom(c,p,nm,ro=True); c.req(d.size==NRING,nm+": number of variables"); return d
def pre(c,a,b): return NS(a=ring_m(c,a,"a"),b=ring_m(c,b,"b"))
CMP1=Contract("comparison of two terms",pre,lambda c,o,r:sg(o.a.mv,o.b.mv),trusted=True)
def pre(c,a,b,d):
    o=NS(a=ring_m(c,a,"a"),b=ring_m(c,b,"b"),c=ring_m(c,d,"c")); c.req(z3.Or(o.b.pos==-1,o.c.pos==-1),"at most one position"); return o
CMP2=Contract("comparison of a term with a product",pre,lambda c,o,r:sg(o.a.mv,MMUL(o.b.mv,o.c.mv)),trusted=True)
# ---- contracts of the layers below
for _n,_c in CON.items():
    if _c.home in("monom","integer") and not _n.endswith("]") or _n in(common.A_ALLOC,common.A_FREE,"GInv::Allocator::Allocator()","GInv::Allocator::~Allocator()"):
        _k=copy.copy(_c); _k.keep=True; CONB[_n]=_k
def contract(name,pre,post,act=(),keep=True,**k):
    c=Contract(name,pre,post,keep=keep,**k); c.home=None if c.trusted else HOMEB; c.act=act; CONB[name]=c; return c
def pre(c,this,order):
    c.req(PP.valid_order(order),"order code")
    return NS(this=this,order=order)
def post(c,o,r):
    ob=c.E.obj(c.st,o.this); k=c.off(o.this)
    ob.cells[k+8]=(8,Ptr(CMP1F(o.order),ZERO)); ob.cells[k+16]=(8,Ptr(CMP2F(o.order),ZERO))
_k=Contract("GInv::Poly::setOrder(int)",pre,post); _k.home="poly"; CONB[_k.name]=_k
# ---- polynomials
PO=("order","size","mal")
def q_fresh(E,st,name):
    d=KINDB["list_term"].fresh(E,st,name); d["order"]=fresh(name+"_ord"); d["size"]=fresh(name+"_size"); d["mal"]=Ptr(fresh(name+"_mal"),ZERO); return d
def q_facts(E,st,d): KINDB["list_term"].facts(E,st,d); st.assume(d["mal"].base>=0,z3.Or(veq(d["mal"],d["al"]),veq(d["mal"],NULL)),z3.Implies(veq(d["mal"],NULL),d["n"]==0),PP.valid_order(d["order"]),d["size"]>0,d["size"]<(1<<28))
def q_unfold(E,st,o,off,p):
    d=dict(p.d); ro=p.ro or o.ro
    o.cells[off]=(4,d["order"]); o.cells[off+4]=(4,d["size"]); o.cells[off+8]=(8,Ptr(CMP1F(d["order"]),ZERO)); o.cells[off+16]=(8,Ptr(CMP2F(d["order"]),ZERO)); o.cells[off+24]=(8,d["mal"])
    o.preds[off+32]=Pred("list_term",24,{k:d[k] for k in LK.fields+("al","hd")},ro)
def q_fold(E,st,o,off):
    c=o.cells
    if not all(off+k in c and c[off+k][1] is not None for k in(0,4,8,16,24)): return None
    q=o.preds.get(off+32)
    if q is None or q.kind!="list_term": q=E.try_fold(st,o,off+32,"list_term")
    if q is None or q.kind!="list_term": return None
    od,sz,c1,c2,al=[c[off+k][1] for k in(0,4,8,16,24)]
    E.oblige(st,PP.valid_order(od),"order code"); E.oblige(st,z3.And(sz>0,sz<(1<<28)),"number of variables is positive")
    E.oblige(st,z3.And(veq(c1,Ptr(CMP1F(od),ZERO)),veq(c2,Ptr(CMP2F(od),ZERO))),"comparisons belong to the recorded order")
    E.oblige(st,z3.Or(veq(al,q.d["al"]),veq(al,NULL)),"polynomial and its list have the same allocator")
    E.oblige(st,z3.Implies(veq(al,NULL),q.d["n"]==0),"a polynomial without an allocator has no terms")
    d=NS(q.d); d["mal"]=al; d["order"]=od; d["size"]=sz
    for k in(0,4,8,16,24): del c[off+k]
    o.preds.pop(off+32)
    r=Pred("pint",56,d,o.ro); o.preds[off]=r; return r
KINDB["pint"]=Kind("pint",56,q_fresh,q_facts,q_unfold,q_fold,owns=lambda d:d["n"]>0)
def pint(c,p,nm,ro=False,ring=True,canon=True,fields=None):
    f=dict(fields or {})
    if c.give and not c.call and ring: f.setdefault("order",ORING); f.setdefault("size",NRING); f.setdefault("vn",NRING)
    if ring and c.give and "mal" not in f:
        al=f.get("al",Ptr(fresh(nm+"_al"),ZERO)); f["al"]=al; f["mal"]=al
    d=c.pred("pint",p,nm,ro,f)
    if c.give and not c.call:
        c.st.ghost["als"]=c.st.ghost.get("als",[])+[d["al"].base,d["mal"].base]
        if ring: c.st.assume(PP.valid_order(ORING),NRING>0,NRING<(1<<28))
    if ring:
        c.req(z3.And(veq(d.mal,d.al),d.mal.base>0),nm+": polynomial has its allocator")
        c.req(d.order==ORING,nm+": polynomial of the same order"); c.req(d.size==NRING,nm+": number of variables"); c.req(z3.Or(d.n==0,d.vn==NRING),nm+": terms have the polynomial's number of variables")
        if canon: c.req(z3.And(d.srt,d.nz),nm+": terms strictly decrease and coefficients are not zero")
    return d
def result(c,p,nm,fields,canon=True,al=None,facts=None,show=True):
    """polynomial at p after the call, with the listed measures.  F follows from the equation of f, which is
    proved for every weight: replacing WT(r) by WT(r*t) turns f into F(t)"""
    if c.give:
        fs=dict(fields,order=ORING,size=NRING,vn=NRING)
        if al is not None: fs["al"]=fs["mal"]=al
        d=pint(c,p,nm,canon=canon,fields=fs)
    else:
        d=pint(c,p,nm,canon=canon)
        for k,v in fields.items():
            if k!="F": c.ens(d[k]==v,"%s: %s"%(nm,LBL.get(k,k)))
        if al is not None: c.ens(veq(d.al,al),nm+": allocator")
    if facts:
        for l,f in facts(d): c.ens(f,nm+": "+l)
    return d
LBL={"f":"value of the polynomial","n":"number of terms","top":"leading monomial","bot":"last monomial","lc":"leading coefficient","srt":"terms strictly decrease","nz":"no zero coefficient","np":"positions","mp":"largest position","nm":"norm","ms":"monomials","ct":"greatest common divisor of the coefficients","w":"weighted sum","irr":"monomials without reducer","ti":"tail monomials without reducer"}
Q="GInv::PolyInt::"; PI="GInv::PolyInt"
ALLF=("n","f","np","top","bot","lc","mp","nm","ms","ct")
def allf(A,skip=()): return {k:A[k] for k in ALLF+("F",) if k not in skip}
def newobj(c,p,al): c.req(al.base>0,"an allocator is given"); MM.uninit(c,p,56,"this")
def ring_args(c,order,size): c.req(z3.And(order==ORING,size==NRING),"order and number of variables"); c.req(z3.And(PP.valid_order(order),size>0,size<(1<<28)),"valid order and number of variables")
def live(c,p,nm):
    """any polynomial that is not moved-from"""
    d=pint(c,p,nm,ring=False); c.req(z3.And(veq(d.mal,d.al),d.mal.base>0),nm+": polynomial has its allocator"); return d
def pre(c,this): return NS(this=this,T=pint(c,this,"this",ring=False))
def post(c,o,r):
    d=c.pred("pint",o.this,"this"); c.ens(d.n==0,"no terms left"); c.ens(z3.And(veq(d.al,o.T.al),d.order==o.T.order,d.size==o.T.size,veq(d.mal,o.T.mal)),"allocator, order and size kept")
contract(Q+"clear()",pre,post)
contract(Q+"~PolyInt()",pre,lambda c,o,r:None)
# --- construction and assignment
def pre(c,this,al,a): newobj(c,this,al); return NS(this=this,al=al,A=pint(c,a,"a",True))
contract(Q+"PolyInt(GInv::Allocator*, GInv::PolyInt const&)",pre,lambda c,o,r:result(c,o.this,"copy",allf(o.A),al=o.al) and None,act=ALLF)
def pre(c,this,al,v,a):
    newobj(c,this,al); A=pint(c,a,"a",True); c.req(z3.And(v>=0,v<NRING),"variable index"); x=MVAR(v,-1); c.fact(MPOS(x)==-1)
    if c.give: c.st.ghost["monoms"]=[x]
    return NS(this=this,al=al,v=v,A=A)
def post(c,o,r):
    A=o.A; x=MVAR(o.v,-1)
    result(c,o.this,"copy",{"n":A.n,"f":FAT(A.F,x),"np":A.np,"lc":A.lc,"top":z3.If(A.n==0,RZ,MMUL(A.top,x)),"mp":A.mp,"nm":A.nm},al=o.al)
contract(Q+"PolyInt(GInv::Allocator*, int, GInv::PolyInt const&)",pre,post,act=("F","np","lc","mp","nm"))
def pre(c,this,al,order,size): newobj(c,this,al); ring_args(c,order,size); return NS(this=this,al=al)
contract(Q+"PolyInt(GInv::Allocator*, int, int)",pre,lambda c,o,r:result(c,o.this,"zero",dict(LK.empty(c.E),vn=NRING),al=o.al) and None,act=ALLF)
UNIT=MUNIT(I(-1))
def const_fields(v,m,pos=I(-1)):
    z=v==0
    return {"n":z3.If(z,ZERO,I(1)),"f":v*WT(m),"F":z3.If(z,FZ,FONE(v,m)),"np":z3.Or(z,pos==-1),"lc":v,"top":z3.If(z,RZ,m),"bot":z3.If(z,RZ,m)}
RZ=z3.RealVal(0)
def pre(c,this,al,order,size,s): newobj(c,this,al); ring_args(c,order,size); return NS(this=this,al=al,v=STRVAL(s.base,s.off))
contract(Q+"PolyInt(GInv::Allocator*, int, int, char const*)",pre,lambda c,o,r:result(c,o.this,"constant",const_fields(o.v,UNIT),al=o.al) and None,act=("np","lc"))
def pre(c,this,al,order,m): newobj(c,this,al); M=ring_m(c,m,"m"); ring_args(c,order,M.size); return NS(this=this,al=al,M=M)
contract(Q+"PolyInt(GInv::Allocator*, int, GInv::Monom const&)",pre,lambda c,o,r:result(c,o.this,"monomial",const_fields(I(1),o.M.mv,MPOS(o.M.mv)),al=o.al) and None,act=("np","lc"))
def gone(c,p,A,nm="source"):
    d=c.pred("pint",p,nm); c.ens(z3.And(d.n==0,veq(d.mal,NULL)),nm+" is moved-from: no terms, no allocator"); c.ens(z3.And(d.order==A.order,d.size==A.size),nm+" keeps order and size"); return d
def pre(c,this,a): MM.uninit(c,this,56,"this"); return NS(this=this,a=a,A=pint(c,a,"a"))
def post(c,o,r): result(c,o.this,"result",allf(o.A),al=o.A.al); gone(c,o.a,o.A)
contract(Q+"PolyInt(GInv::PolyInt&&)",pre,post,act=ALLF)
def pre(c,this,a): return NS(this=this,a=a,T=live(c,this,"this"),A=pint(c,a,"a",True))
contract(Q+"operator=(GInv::PolyInt const&)",pre,lambda c,o,r:result(c,o.this,"result",allf(o.A),al=o.T.al) and None,act=ALLF)
def pre(c,this,a): return NS(this=this,a=a,T=live(c,this,"this"),A=pint(c,a,"a"))
def post(c,o,r):
    result(c,o.this,"result",allf(o.A),al=o.A.al)
    d=c.pred("pint",o.a,"source"); c.ens(z3.And(d.n==0,veq(d.mal,o.T.mal),d.order==o.A.order,d.size==o.A.size),"source is left empty, with the target's allocator")
contract(Q+"operator=(GInv::PolyInt&&)",pre,post,act=ALLF)
def pre(c,this,a): return NS(this=this,a=a,T=pint(c,this,"this",ring=False),A=pint(c,a,"a",ring=False))
def post(c,o,r):
    for p,s,nm in((o.this,o.A,"this"),(o.a,o.T,"a")):
        fs={k:s[k] for k in LK.fields+("order","size","mal","al")}
        d=c.pred("pint",p,nm,fields=fs)
        if not c.give:
            for k,v in fs.items():
                if k=="vn": c.ens(z3.Or(s.n==0,d[k]==v),nm+": exchanged")
                else: c.ens(veq(d[k],v) if isinstance(v,Ptr) else d[k]==v,"%s: exchanged"%nm)
contract(Q+"swap(GInv::PolyInt&)",pre,post,act=ALLF+("F","w"))
# --- queries
def query(name,post,ne=False,act=(),two=False):
    def pre(c,this,*a):
        o=NS(this=this,T=pint(c,this,"this",True))
        if ne: c.req(o.T.n>0,"polynomial is not zero")
        if two: o.A=pint(c,a[0],"a",True); c.req(o.A.n>0,"operand is not zero")
        return o
    contract(Q+name,pre,lambda c,o,r:c.ens(post(o,r),"answer"),act=act,keep=False)
query("length() const",lambda o,r:r==o.T.n)
query("isZero() const",lambda o,r:r==(o.T.n==0))
query("operator bool() const",lambda o,r:r==(o.T.n>0))
query("degree() const",lambda o,r:r==MDEG(o.T.top),True)
query("cmp(GInv::PolyInt const&) const",lambda o,r:r==sg(o.T.top,o.A.top),True,two=True)
query("maxPos() const",lambda o,r:r==o.T.mp,act=("mp",))
query("norm() const",lambda o,r:r==o.T.nm,act=("nm",))
def head(kind,f,k):
    def pre(c,this): o=NS(this=this,T=pint(c,this,"this",True)); c.req(o.T.n>0,"polynomial is not zero"); return o
    def post(c,o,r):
        d=c.pred(kind,r,"result",True); c.ens(d[k]==o.T[f],"refers to the leading term")
    return pre,post
contract(Q+"lm() const",*head("monom","top","mv"),keep=False)
contract(Q+"lc() const",*head("int","lc","val"),keep=False,act=("lc",))
# --- arithmetic
def same_ring(c,this,a): return NS(this=this,a=a,T=pint(c,this,"this"),A=pint(c,a,"a",True))
def arith(name,sgn):
    def post(c,o,r):
        T,A=o.T,o.A; f=T.f+A.f if sgn>0 else T.f-A.f
        d=result(c,o.this,"result",{"f":f},al=T.al,facts=lambda d:[("positions",z3.Implies(z3.And(T.np,A.np),d.np)),
            ("leading monomial is at most the larger one",z3.Or(d.n==0,z3.And(T.n>0,d.top<=T.top),z3.And(A.n>0,d.top<=A.top)))])
        if sgn>0: c.derive(d.F==FADD(T.F,A.F))
    contract(Q+name+"(GInv::PolyInt const&)",same_ring,post,act=("np",))
    def pre(c,this,s):
        o=NS(this=this,T=pint(c,this,"this"),v=STRVAL(s.base,s.off)); c.req(o.T.n>0,"polynomial is not zero"); return o
    def post2(c,o,r):
        T=o.T; w=o.v*WT(UNIT); result(c,o.this,"result",{"f":T.f+w if sgn>0 else T.f-w},al=T.al)
    contract(Q+name+"(char const*)",pre,post2,act=("np",))
arith("add",1); arith("sub",-1)
def pre(c,this): return NS(this=this,T=pint(c,this,"this"))
def post(c,o,r):
    T=o.T; result(c,o.this,"result",dict(f=-T.f,**{k:T[k] for k in("n","np","top","bot","mp","nm","ms")},lc=-T.lc),al=T.al)
contract(Q+"minus()",pre,post,act=("np","mp","nm","ms","lc"))
def pre(c,this,s): return NS(this=this,T=pint(c,this,"this"),v=STRVAL(s.base,s.off))
def post(c,o,r):
    T=o.T; z=o.v==0; result(c,o.this,"result",dict(f=o.v*T.f,n=z3.If(z,ZERO,T.n),top=z3.If(z,RZ,T.top)),al=T.al)
contract(Q+"mult(char const*)",pre,post)
# --- literal numbers
def literal(E,p):
    """value of a string literal that is a number"""
    import re
    if not isinstance(p,Ptr) or not(isint(simp(p.off)) and simp(p.off).as_long()==0): return None
    for nm,g in E.globals.items():
        if g.eq(p.base):
            m=re.search(r'constant \[\d+ x i8\] c"([^"\\]*)\\00"',E.mod.globals.get(nm,""))
            if m:
                try: return int(m.group(1),0)
                except ValueError: return None
    return None
_z=CONB[II.N+"Integer(GInv::Allocator*, char const*)"]
def pre(c,this,al,s,f=_z.pre):
    o=f(c,this,al,s); k=literal(c.E,s)
    if k is not None: c.fact(STRVAL(s.base,s.off)==k)
    return o
_z.pre=pre
# --- product and power
MULF=z3.Function("MULF",FS,FS,FS); PPOW=z3.Function("PPOW",FS,INT,FS)
def pre(c,this,a):
    A=pint(c,a,"a",True,fields={"F":WF} if c.give and not c.call else None)
    o=NS(this=this,a=a,T=pint(c,this,"this"),A=A); c.req(z3.Or(o.T.np,o.A.np),"at most one factor has positions")
    if c.give and not c.call: c.st.ghost["al"]=o.T.al
    return o
def post(c,o,r):
    T,A=o.T,o.A
    fs=lambda d:[("positions",z3.Implies(z3.And(T.np,A.np),d.np))]
    if not c.give: result(c,o.this,"result",{"f":T.w},al=T.al,facts=fs)
    else: result(c,o.this,"result",{"F":MULF(T.F,A.F)},al=T.al,facts=fs)
contract(Q+"mult(GInv::PolyInt const&)",pre,post,act=("np","w","F"))
def powax(F,k): return z3.And(PPOW(F,ZERO)==FONE(I(1),UNIT),PPOW(F,I(1))==F,z3.Implies(k>=0,PPOW(F,k+1)==MULF(PPOW(F,k),F)))
def pre(c,this,deg):
    T=pint(c,this,"this"); c.req(deg>=0,"exponent is not negative"); c.req(T.np,"no positions"); return NS(this=this,T=T,deg=deg)
def post(c,o,r):
    if c.give: c.fact(powax(o.T.F,o.deg))
    else: c.fact(powax(o.T.F,o.deg))
    d=result(c,o.this,"result",{},al=o.T.al); c.ens(d.F==PPOW(o.T.F,o.deg),"result: value of the power")
contract(Q+"pow(int)",pre,post,act=("np","F"))
def powinv(x):
    F0=None; out=[]
    d=[q.d for o in x.hs.heap.values() for q in o.preds.values() if "F" in q.d]
    for p in d:
        for q in d:
            if p is q: continue
            for k in range(3):
                out.append(p["F"]==PPOW(q["F"],x.n+k)); x.hs.assume(powax(q["F"],x.n+k)); x.st0.assume(powax(q["F"],I(k)))
    return out
CONB[Q+"pow(int)"].invs=powinv

# --- lookups.  WT is an arbitrary weight that vanishes on every multiple of the reducers, so that f'=K*f for all
# of them says that f'-K*f is a combination of the reducers (with rational coefficients)
ISRED=z3.Function("ISRED",INT,BOOL); RED_F=z3.Function("RED_F",INT,FS); RED_TOP=z3.Function("RED_TOP",INT,REAL); RED_NP=z3.Function("RED_NP",INT,BOOL)
FINDP=z3.Function("FINDP",REAL,INT)
def redok(m,w): return z3.If(w==0,IRR(m),z3.And(z3.Not(IRR(m)),ISRED(w),MDIVS(m,RED_TOP(w)),z3.Or(MPOS(RED_TOP(w))!=-1,MPOS(m)==-1,RED_NP(w))))
def k_fresh(E,st,name): return NS(k=fresh("K"),cnt=fresh("reductions"))
KINDB["kctr"]=Kind("kctr",8,k_fresh,lambda E,st,d:None,None,None)
def kctr(st):
    for o in st.heap.values():
        if 0 in o.preds and o.preds[0].kind=="kctr": return o
def reduced(c,o,f,count=True):
    """ghost: the multiplier and the number of reductions so far"""
    if not(c.give and c.call): return
    x=kctr(c.st)
    if x is None: return
    d=x.preds[0].d
    if count: x.preds[0]=Pred("kctr",8,NS(k=simp(o.k1*d["k"]),cnt=simp(d["cnt"]+1)))
# --- reduction
def red_pre(c,this,a):
    o=NS(this=this,T=pint(c,this,"this"),A=pint(c,a,"a",True)); o.c0=o.T.lc; o.m0=o.T.top
    c.req(z3.And(o.T.n>0,o.A.n>0),"operands are not zero"); red_req(c,o)
    if c.give and not c.call: c.st.ghost["al"]=o.T.al; c.st.ghost["monoms"]=[o.m0]
    return o
def red_req(c,o):
    c.req(MDIVS(o.m0,o.A.top),"the leading monomial divides the cancelled one")
    c.req(z3.Or(MPOS(o.A.top)!=-1,MPOS(o.m0)==-1,o.A.np),"the quotient and the reducer's terms have at most one position")
    g=ZGCD(o.c0,o.A.lc); o.g=g; o.k1=ZQUO(o.A.lc,g); o.k2=-ZQUO(o.c0,g); o.q=MQUO(o.m0,o.A.top)
    c.lemma(z3.Implies(z3.And(o.c0!=0,o.A.lc!=0),z3.And(g>0,o.k1*g==o.A.lc,o.k2*g==-o.c0,o.k1*o.c0+o.k2*o.A.lc==0,o.k1!=0,o.k2!=0)))
def post(c,o,r):
    T,A=o.T,o.A; reduced(c,o,T.f)
    result(c,o.this,"result",{"f":o.k1*T.f+o.k2*FAT(A.F,o.q)},al=T.al,facts=lambda d:[("positions",z3.Implies(z3.And(T.np,A.np),d.np)),("the leading monomial is cancelled",z3.Or(d.n==0,d.top<T.top))])
contract(Q+"reduction(GInv::PolyInt const&)",red_pre,post,act=("np","F","lc"))

# --- reduction of a term at a cursor: the polynomial is the part before the cursor and the part from it on
def fresh_list(c,nm,al):
    d=LK.fresh(c.E,c.st,nm); d["vn"]=NRING; d["al"]=al; LK.facts(c.E,c.st,d); return d
def split(c,this,cur,nm,al=None):
    """(before, from): measures of the terms before the cursor cell cur and of those from it on; the polynomial's own cells stay"""
    E,st=c.E,c.st
    if c.give:
        o=c.getobj(this,nm); k=c.off(this)
        al=al or Ptr(fresh(nm+"_al"),ZERO); st.assume(al.base>0,PP.valid_order(ORING),NRING>0,NRING<(1<<28))
        B=fresh_list(c,nm+"_before",al); T=fresh_list(c,nm+"_from",al); T["hd"]=fresh("hd"); LK.tail_facts(E,st,T)
        o.cells.update({k:(4,ORING),k+4:(4,NRING),k+8:(8,Ptr(CMP1F(ORING),ZERO)),k+16:(8,Ptr(CMP2F(ORING),ZERO)),k+24:(8,al),k+32:(8,al),k+48:(8,simp(B.n+T.n))})
        if not c.call:
            P=Obj(cur.base,None,LS.PIN,"pseudo"); st.assume(cur.base>0,cur.off==0,*[x.base!=cur.base for x in st.heap.values() if x.kind!="ghost"]); st.heap[cur.base.get_id()]=P; cur=Ptr(cur.base,ZERO)
        P=st.heap[cur.base.get_id()]; ck=E.const_off(st,cur.off)
        P.preds[ck]=Pred("tail_term",8,T,False); P.cells.pop(ck,None)
        if not(P is o and ck==k+40): LS.new_ghost(st,LK,(o.base,k+40),("cell",cur),B,False,base=st.ghost.get("collected") if c.call else None)
    else:
        o=E.obj(st,this); k=c.off(this)
        LS.ListLoop(E,LK).open_holder(st,o,k+40)
        L=lambda x,w,t: E.load(st,this.add(x),w,t,"contract")
        od,sz,c1,c2,mal,al=L(0,4,i32),L(4,4,i32),L(8,8,ir.PTR),L(16,8,ir.PTR),L(24,8,ir.PTR),L(32,8,ir.PTR)
        E.oblige(st,z3.And(od==ORING,sz==NRING,veq(c1,Ptr(CMP1F(od),ZERO)),veq(c2,Ptr(CMP2F(od),ZERO))),nm+": order and number of variables")
        E.oblige(st,z3.And(veq(mal,al),mal.base>0),nm+": polynomial has its allocator")
        if k+40 in o.preds and not isinstance(o.preds[k+40].d["hd"],z3.ExprRef): raise Unsupported("hd")
        B=LS.collect(E,st,LK,o,k+40,cur,al)
        if B is None: E.oblige(st,False,nm+": the cursor names a link of the polynomial"); raise Fail("cursor")
        P=E.obj(st,cur); ck=E.const_off(st,cur.off)
        t=LK.tail_fold(E,st,P,ck,al)
        if t is None: E.oblige(st,False,nm+": the rest is a list"); raise Fail("cursor")
        P.preds.pop(ck); T=NS(t.d)
        if P.name==LS.PIN and not c.call: LS.drop(st,P)
        ln=E.load(st,this.add(48),8,ir.Ty("int",64),"contract")
        E.oblige(st,ln==B.n+T.n,nm+": recorded length is the number of terms")
        E.oblige(st,z3.And(z3.Or(B.n==0,B.vn==NRING),z3.Or(T.n==0,T.vn==NRING)),nm+": terms have the polynomial's number of variables")
        E.oblige(st,z3.Or(T.n==0,veq(T.al,al)),nm+": terms belong to its allocator")
    c.req(z3.And(B.srt,B.nz,T.srt,T.nz,z3.Or(B.n==0,T.n==0,B.bot>T.top)),nm+": terms strictly decrease and coefficients are not zero")
    B["al"]=T["al"]=al
    return B,T
def pre(c,this,it,a):
    if c.give: 
        cur=Ptr(fresh("P1"),ZERO); io=c.getobj(it,"cursor",16); io.cells.update({0:(8,this.add(32)),8:(8,cur)})
    else:
        c.req(veq(c.ptr(it,0,"list"),this.add(32)),"the cursor belongs to the polynomial's list"); cur=c.ptr(it,8,"link")
    B,T=split(c,this,cur,"this"); o=NS(this=this,cur=cur,B=B,T=T,A=pint(c,a,"a",True)); o.c0=T.lc; o.m0=T.top
    c.req(z3.And(T.n>0,o.A.n>0),"the cursor is not at the end and the reducer is not zero"); red_req(c,o)
    if c.give and not c.call: c.st.ghost["al"]=B.al; c.st.ghost["monoms"]=[o.m0]
    return o
def post(c,o,r):
    B,T,A=o.B,o.T,o.A
    if c.call: c.st.ghost["red"]=(o.k1,o.k2,o.q)
    reduced(c,o,B.f); reduced(c,o,T.f,False)
    B2,T2=split(c,o.this,o.cur,"this",al=B.al)
    c.ens(veq(B2.al,B.al),"allocator kept")
    for k in("n","top","bot","np","irr","ti"): c.ens(B2[k]==B[k],"terms before the cursor: "+LBL[k])
    c.ens(B2.f==o.k1*B.f,"terms before the cursor: each coefficient times k1")
    c.ens(z3.Implies(B.n>0,B2.lc==o.k1*B.lc),"leading coefficient times k1")
    c.ens(T2.f==o.k1*T.f+o.k2*FAT(A.F,o.q),"terms from the cursor on: value of the polynomial")
    c.ens(z3.Implies(z3.And(T.np,A.np),T2.np),"positions"); c.ens(z3.Or(T2.n==0,T2.top<T.top),"the term at the cursor is cancelled")
contract(Q+"redTail(GInv::List<GInv::PolyInt::Term*>::Iterator, GInv::PolyInt const&)",pre,post,act=("np","F","lc","irr","ti"))

# --- reduction of the term with the reducer's leading monomial, if there is one
def pre(c,this,a):
    o=NS(this=this,T=pint(c,this,"this"),A=pint(c,a,"a",True)); c.req(z3.And(o.T.n>0,o.A.n>0),"operands are not zero")
    if c.give and not c.call: c.st.assume(o.A.top==RX,MDIVS(RX,RX)); c.st.ghost["al"]=o.T.al
    return o
def post(c,o,r):
    T,A=o.T,o.A
    if c.give: k1,k2,q=fresh("k1"),fresh("k2"),MQUO(A.top,A.top)
    else: k1,k2,q=c.st.ghost.get("red",(I(1),ZERO,MQUO(A.top,A.top)))
    c.ens(z3.And(k1!=0,q==MQUO(A.top,A.top)),"the polynomial is multiplied by a non-zero number")
    d=result(c,o.this,"result",{"f":k1*T.f+k2*FAT(A.F,q)},al=T.al,facts=lambda d:[("positions",z3.Implies(z3.And(T.np,A.np),d.np))])
    if not c.call: c.ens(d.nx,"the reducer's leading monomial does not occur in the result")
contract(Q+"redMaybe(GInv::PolyInt const&)",pre,post,act=("np","F","lc","nx"))

# --- primitive part
_z2=CONB[II.N+"~Integer()"]
def pre(c,this,f=_z2.pre):
    """the values of the integers a function destroys (witnesses for its postcondition)"""
    if not c.give and c.call:
        p=c.E.obj(c.st,this).preds.get(c.off(this))
        if p is not None and p.kind=="int": c.st.ghost["ints"]=c.st.ghost.get("ints",[])+[p.d["val"]]
    return f(c,this)
_z2.pre=pre
query("isPp() const",lambda o,r:r==z3.Or(o.T.n==0,o.T.ct==1),act=("ct","lc"))
def pre(c,this): return NS(this=this,T=pint(c,this,"this"))
def post(c,o,r):
    T=o.T; fs={k:T[k] for k in("n","np","top","bot","mp","ms")}
    d=result(c,o.this,"result",fs,al=T.al)
    if c.call:
        k=fresh("content"); c.ens(z3.Or(k==T.ct,z3.And(T.n==1,k==-T.ct)),"content"); c.ens(z3.Or(T.n==0,k!=0),"content"); c.ens(T.f==k*d.f,"value")
    else:
        for v in c.st.ghost.get("ints",[]): c.lemma(z3.And(z3.Implies(v==T.ct,v*d.f==T.ct*d.f),z3.Implies(v==-T.ct,v*d.f==-T.ct*d.f)))
        c.ens(z3.Or(T.f==T.ct*d.f,z3.And(T.n==1,T.f==-T.ct*d.f)),"result: the polynomial divided by the greatest common divisor of its coefficients")
    c.ens(z3.Or(T.n==0,d.ct==1),"result: greatest common divisor of the coefficients is one")
contract(Q+"pp()",pre,post,act=("np","mp","ms","ct","lc"))

# --- normal forms with respect to a lookup
def pre(c,this,m): return NS(this=this,M=ring_m(c,m,"m"))
def post(c,o,r):
    w=FINDP(o.M.mv); c.fact(w>=0); c.fact(redok(o.M.mv,w)); return Ptr(w,ZERO)
for _n in("VcLookup::find(GInv::Monom const&) const","GInv::JanetPolyInt::find(GInv::Monom const&) const"): contract(_n,pre,post,trusted=True)
def pre(c,this,a):
    o=NS(this=this,T=pint(c,this,"this"))
    if c.give and not c.call:
        c.st.ghost["al"]=o.T.al; x=Obj(fresh("KC"),None,"reductions","spec"); x.raw=False; x.preds[0]=Pred("kctr",8,NS(k=I(1),cnt=ZERO)); c.st.heap[x.base.get_id()]=x; c.E.f0=o.T.f
    return o
def nfpost(tail):
    def post(c,o,r):
        T=o.T; x=kctr(c.st) if not c.give else None
        k,cnt=(x.preds[0].d["k"],x.preds[0].d["cnt"]) if x is not None else (fresh("K"),r)
        c.ens(k!=0,"the multiplier is not zero"); c.ens(z3.And(r==cnt,r>=0),"number of reductions")
        d=result(c,o.this,"result",{"f":k*T.f},al=T.al)
        if tail:
            c.ens(d.ti,"no monomial after the leading one has a reducer"); c.ens(z3.Implies(T.n>0,z3.And(d.n>0,d.top==T.top)),"leading monomial unchanged"); c.ens(z3.Implies(T.n==0,d.n==0),"zero stays zero")
        else: c.ens(z3.Or(d.n==0,IRR(d.top)),"the leading monomial has no reducer")
    return post
def nfinv(x):
    out=[]; x0=kctr(x.hs)
    if x0 is None: return out
    K,cnt=x0.preds[0].d["k"],x0.preds[0].d["cnt"]; f0=x.E.f0
    out+=[K!=0,cnt>=0]
    ls=[q.d for o in x.hs.heap.values() if not o.ro for q in o.preds.values() if "ti" in q.d]
    for i,p in enumerate(ls):
        out.append(p["f"]==K*f0)
        for q in ls[:i]: out+=[p["f"]+q["f"]==K*f0,z3.Or(p["n"]==0,IRR(q["top"])),z3.Or(q["n"]==0,IRR(p["top"]))]
    for key,sl in x.slots.items():
        v=sl.sym
        if key[0]!="phi": continue
        from vcgen.loops import getloc
        v=getloc(x.E,x.hs,key,x.hs.env)
        if isinstance(v,Ptr):
            for p in ls: out+=[z3.And(p["n"]>0,redok(p["top"],v.base)),z3.Or(p["n"]==0,redok(p["top"],v.base)),v.base!=0,v.off==0]
        elif z3.is_int(v): out.append(v==cnt)
    for p in ls: out+=[p["n"]>0,p["ti"],z3.Or(p["n"]==0,IRR(p["top"]))]
    return out
for _t in("VcLookup","GInv::JanetPolyInt"):
    for _n,_tail in(("nf",0),("nfTail",1)):
        _c=contract("int %s%s<%s>(%s&)"%(Q,_n,_t,_t),pre,nfpost(_tail),act=("np","lc","irr","ti","F")); _c.invs=nfinv; _c.keep=True; _c.phi0=True
for _t in("VcLookup","GInv::JanetPolyInt const"):
    def _p(c,this,a): return NS(this=this,T=pint(c,this,"this",True))
    contract("bool %sisNf<%s>(%s&) const"%(Q,_t,_t),_p,lambda c,o,r:c.ens(r==o.T.ti,"answer"),act=("irr","ti"))
