"""RBTree<T,compare>: a set of nodes with in-order positions, intervals and black heights.

Ghost fields of a node n of the tree: idx(n) its in-order position (a real number between 0 and 1),
lo(n)/hi(n) the open interval of positions its subtree may use, bh(n) the black height.  The tree is a
set S of nodes.  Everything is stated for one node or a pair of nodes.  compare(a,b) has the sign of
RANK(a)-RANK(b)."""
import z3, itertools
from vcgen.heap import *
from vcgen.heap import HeapEngine, HC, Q, Fn, P, NULL, NIL, Ref, forall, fresh, ufn, same
from vcgen.ir import Unsupported
I=z3.IntVal; R=z3.RealSort(); INT=z3.IntSort(); N=NIL
KEY,COL,PAR,LEFT,RIGHT=0,4,8,16,24
RANK=z3.Function("RANK",z3.IntSort(),z3.IntSort())
NODESZ=32
RB="GInv::RBTree<int, &(vc_cmp(int, int))>::"
And,Or,Not,Imp,If=z3.And,z3.Or,z3.Not,z3.Implies,z3.If
class View:
    """the tree as the fields and ghosts of one state see it"""
    def __init__(v,st,tree):
        v.tree=tree
        for n,o in(("key",KEY),("col",COL),("par",PAR),("left",LEFT),("right",RIGHT)): setattr(v,n,st.mem[o])
        for n in("idx","lo","hi","bh"): setattr(v,n,st.gh[n])
        v.mm=dict(st.mem); v.S=st.gh[("S",tree)]; v.OWN=st.gh["OWN"]; v.SZ=st.gh["SZ"]
        v.alloc=st.aux.get(("alloc",tree))
    def f(v,o): return v.mm[o]
    def rank(v,n): return RANK(v.key(n))
    def B(v,n): return If(n==N,I(0),v.bh(n))
    def red(v,n): return v.col(n)==1
    def insub(v,n,x):
        """n lies in the interval of x (with membership: in the subtree of x)"""
        return And(v.lo(x)<v.idx(n),v.idx(n)<v.hi(x))
    def lt(v,a,b): return v.idx(a)<v.idx(b)
def rootof(st,tree,off=8):
    r=st.hdr[tree].get(off) if tree in st.hdr else None
    if r is None: r=st.aux.get(("root",tree))
    return r.ref if isinstance(r,P) else r
def inv(V,root,redx=None,hole=None,bst=True):
    """the tree invariant; redx: node that may be red under a red parent or red at the root;
    hole=(x,p): the subtree x below p is one black node short"""
    S=V.S
    def U(lab,g): return (lab,forall(1,lambda n: Imp(S(n),g(n)),True))
    ex=lambda n: True if redx is None else Not(n==redx)
    ex2=lambda n: ex(n) if hole is None else And(ex(n),V.par(n)!=redx)
    def bhl(n):
        l,r=V.B(V.left(n)),V.B(V.right(n))
        if hole is None: return And(l==r,V.bh(n)==l+If(V.red(n),0,1))
        x,p=hole
        return And(l+If(And(n==p,V.left(n)==x),1,0)==r+If(And(n==p,V.left(n)!=x),1,0),V.bh(n)==If(And(n==p,V.left(n)==x),r,l)+If(V.red(n),0,1))
    out=[("root: a null root means an empty set",forall(1,lambda n: Imp(root==N,Not(S(n))))),
      ("root: the root is a node without parent",Imp(root!=N,And(S(root),V.par(root)==N,V.lo(root)==0,V.hi(root)==1))),
      U("nodes are not null",lambda n: n!=N),
      U("left links: the child names its parent and takes the lower interval",lambda n: Imp(V.left(n)!=N,And(S(V.left(n)),V.par(V.left(n))==n,V.lo(V.left(n))==V.lo(n),V.hi(V.left(n))==V.idx(n)))),
      U("right links: the child names its parent and takes the upper interval",lambda n: Imp(V.right(n)!=N,And(S(V.right(n)),V.par(V.right(n))==n,V.lo(V.right(n))==V.idx(n),V.hi(V.right(n))==V.hi(n)))),
      U("parent links: the parent has the node as child",lambda n: And((V.par(n)==N)==(n==root),Imp(V.par(n)!=N,And(S(V.par(n)),Or(V.left(V.par(n))==n,V.right(V.par(n))==n))))),
      U("intervals: a node lies in its own interval",lambda n: And(0<=V.lo(n),V.lo(n)<V.idx(n),V.idx(n)<V.hi(n),V.hi(n)<=1)),
      U("colour: each node is red or black",lambda n: And(V.col(n)>=0,V.col(n)<=1)),
      U("colour: the root is black",lambda n: Imp(And(n==root,ex(n)),Not(V.red(n)))),
      U("colour: no red node has a red parent",lambda n: Imp(And(V.red(n),V.par(n)!=N,ex2(n)),Not(V.red(V.par(n))))),
      U("colour: equal black height on all paths",lambda n: And(V.bh(n)>=If(V.red(n),0,1),bhl(n)))]
    if bst: out+=[
      ("order: the intervals of two nodes are nested or disjoint",forall(2,lambda a,b: Imp(And(S(a),S(b),a!=b),Or(V.hi(a)<=V.lo(b),V.hi(b)<=V.lo(a),*[And(V.lo(p)<=V.lo(q),V.hi(q)<=V.idx(p)) for p,q in((a,b),(b,a))],*[And(V.idx(p)<=V.lo(q),V.hi(q)<=V.hi(p)) for p,q in((a,b),(b,a))])))),
      ("order: an earlier node of the interval lies in the left subtree",forall(2,lambda a,b: Imp(And(S(a),S(b),V.lo(a)<V.idx(b),V.idx(b)<V.idx(a)),V.left(a)!=N))),
      ("order: a later node of the interval lies in the right subtree",forall(2,lambda a,b: Imp(And(S(a),S(b),V.idx(a)<V.idx(b),V.idx(b)<V.hi(a)),V.right(a)!=N))),
      ("order: keys grow with the position",forall(2,lambda a,b: Imp(And(S(a),S(b),V.idx(a)<V.idx(b)),V.rank(a)<V.rank(b))))]
    return out
def owned(V,alloc):
    return [("the nodes are blocks of the tree's allocator",forall(1,lambda n: Imp(V.S(n),And(V.OWN(n)==alloc,V.SZ(n)==NODESZ)),True,True))]
class RBEngine(HeapEngine):
    VIEW=View; DATA=(KEY,COL); LINKS=(LEFT,RIGHT,PAR); GHOSTS=(); HROOT,HCOUNT=8,16; PARFIELD=True; TYPES={}
    sort={"S":z3.BoolSort(),"idx":R,"lo":R,"hi":R,"bh":INT,"SZ":INT,KEY:INT,COL:INT,PAR:Ref,LEFT:Ref,RIGHT:Ref}
    def neighbours(s,st,t,isk):
        out=[]
        if s.contract.copies:
            V=s.VIEW(s.qentry,s.src); cp,ic=st.gh["cp"],st.gh["ic"]
            for u in([t,ic(t)] if isk and s.contract.copies=="tree" else [t]): out+=[V.left(u),V.right(u),V.par(u)]
            if isk:
                if s.contract.copies=="tree": out+=[st.mem[o](t) for o in s.LINKS]
                out+=[cp(t),ic(t)]
                for c,i in st.aux.get("cps",())[-1:]: out+=[c(t),i(t)]
            return out
        for v in st.views[-2:] if isk else st.views[-1:]: out+=[v.left(t),v.right(t),v.par(t)]
        return out
    def near(s,st,t):
        if not s.contract.copies: return []
        V=s.VIEW(s.qentry,s.src); return [V.left(t),V.right(t),V.par(t)]
    def rootof(s,st,t): return rootof(st,t,s.HROOT)
    def inv(s,V,root,**k): return inv(V,root,**k)
    def view(s,st,tree):
        v=s.VIEW(st,tree); return v
    def base(s,st):
        for o in s.DATA+s.LINKS: st.mem[o]=ufn("F%d"%o,s.sort[o])
        for n in("lo","hi","bh","OWN","SZ","idx","cp","ic")+s.GHOSTS: st.gh[n]=ufn(n,s.sort.get(n,Ref))
        st.assume(st.gh["OWN"](N)==N)
    def addtree(s,st,name,alloc,root):
        st.gh[("S",name)]=ufn("S",z3.BoolSort()); st.trees.append(name); st.aux[("alloc",name)]=alloc
        if name not in st.hdr: st.aux[("root",name)]=root
        st.see(root)
    def start(s,q,f,c):
        st=q.st; s.base(st); args=[]
        kinds=c.params
        if len(kinds)!=len(f.params): raise Unsupported("%d parameters instead of %d"%(len(f.params),len(kinds)))
        for (nm,ty),k in zip(f.params,kinds):
            if k=="tree" or k=="ctree":
                h="tree%s"%len(args); al=fresh("alloc"); rt=fresh("root"); st.assume(al!=N)
                st.hdr[h]={0:P(al),s.HROOT:P(rt),s.HCOUNT:fresh("count",INT)}; s.addtree(st,h,al,rt); args.append(P(h))
                if k=="ctree": st.aux["const"]=st.aux.get("const",())+(h,)
            elif k=="newtree": h="tree%s"%len(args); st.hdr[h]={}; st.aux["new"]=h; st.gh[("S",h)]=Fn(lambda n: z3.BoolVal(False)); args.append(P(h))
            elif k in("monom","wrap"): x=fresh(k); st.assume(x!=N); args.append(P(x))
            elif k=="out": h="out%s"%len(args); st.hdr[h]={}; args.append(P(h))
            elif k=="key": args.append(fresh("key",INT))
            elif k=="alloc": a=fresh("alloc"); st.assume(a!=N); args.append(P(a))
            elif k=="it": h="it%d"%len(args); x=fresh("x"); st.see(x); st.hdr[h]={0:P(x)}; args.append(P(h))
            elif k=="node": x=fresh("x"); st.see(x); args.append(P(x))
            st.env[nm]=args[-1]
        q.args=args
        if not st.trees: 
            rt=fresh("root"); al=fresh("alloc"); st.assume(al!=N); s.addtree(st,"T",al,rt)
        for t in list(st.trees):
            V=s.view(st,t); st.views.append(V)
        if len(st.trees)==2:
            A,B=(s.view(st,t) for t in st.trees); st.assume(forall(1,lambda n: Not(And(A.S(n),B.S(n)))))
        for lab,g in c.pre(q): st.assume(g)
        st.touch=[]; s.nobump=bool(c.copies or c.frees); s.src=st.trees[-1]
    # ------------------------------------------------ ghost repair
    def repair(s,st,tree,hole=None,depth=4):
        """the ghost fields of the touched nodes are recomputed from their neighbours"""
        if not st.touch and not st.aux.get("rt_%s"%tree): return
        def uniq(l):
            r=[]
            for t in l:
                if not any(t.eq(x) for x in r): r.append(t)
            return r
        V=s.view(st,tree); root=s.rootof(st,tree)
        fr=[t for t,_ in st.touch if any(t.eq(z) for z in st.fresh)]+[z for z in st.fresh if s.contract.members]; T=uniq([t for t,_ in st.touch]+fr); TP=uniq([t for t,o in st.touch if o in(PAR,None)]+fr); TC=uniq([t for t,o in st.touch if o in(COL,LEFT,RIGHT,None)]+fr)
        isin=lambda n,T: Or(*[n==t for t in T]) if T else z3.BoolVal(False)
        oldS=V.S; seen=[t for t in st.seen]
        par,left,right,col=V.par,V.left,V.right,V.col
        def chain(f,T,vals):
            g=f
            for t,v in zip(T,vals): g=g.store(t,v)
            return g
        if T:
            # lo', hi': equations that copy along parent links (always solvable); one constant per node
            lv=[fresh("lo",R) for _ in TP]; hv=[fresh("hi",R) for _ in TP]
            lo=chain(V.lo,TP,lv); hi=chain(V.hi,TP,hv)
            for t,l,h in zip(TP,lv,hv):
                p=par(t); isl=left(p)==t
                st.assume(l==If(p==N,0,If(isl,lo(p),V.idx(p))),h==If(p==N,1,If(isl,V.idx(p),hi(p))))
            for i,t in enumerate(TP):     # equal nodes have equal constants
                for j in range(i): st.assume(Imp(t==TP[j],And(lv[i]==lv[j],hv[i]==hv[j])))
            # bh': bounded unrolling of the equation along child links
            bh=V.bh
            for _ in range(depth):
                vals=[]
                for t in TC:
                    c=left(t)
                    if hole is not None: c=If(And(t==hole[1],left(t)==hole[0]),right(t),left(t))
                    v=fresh("bh",INT); st.assume(v==If(c==N,I(0),bh(c))+If(col(t)==1,I(0),I(1))); vals.append(v)
                bh=chain(V.bh,TC,vals)
            st.gh["lo"],st.gh["hi"],st.gh["bh"]=lo,hi,bh
            for z in fr:
                v=(lo(z)+hi(z))/2
                c=fresh("pos",R); st.assume(c==v); st.gh["idx"]=st.gh["idx"].store(z,c)
        if s.contract.members:
            f=oldS
            for t in seen:
                b=fresh("in",z3.BoolSort()); st.assume(b==s.link1(V,oldS,T,root,t)); f=f.store(t,b)
            for i,t in enumerate(seen):
                pass
            st.gh[("S",tree)]=f
        st.touch=[]
    def link1(s,V,oldS,T,root,t):
        """is the node t, which the path mentions, part of the tree now?"""
        par=V.par(t)
        return And(t!=N,Or(oldS(t),*[t==z for z in s.cur.fresh]),If(par==N,root==t,Or(V.left(par)==t,V.right(par)==t)))
    # ------------------------------------------------ loops
    def treeof(s,st,x=None):
        if x is None or len(st.trees)==1: return st.trees[0]
        for t in st.trees:
            if s.prove(st,st.gh[("S",t)](x),quick=True): return t
        return st.trees[0]
    def stores(s,L):
        for b in L.body:
            for i in s.F.blocks[b]:
                if i.op=="store": return True
                if i.op=="call" and i.extra.kind=="global":
                    c=s.contracts.get(s.names.get(i.extra.v.replace('"','')))
                    if c is not None and (c.mods or c.defs): return True
        return False
    def prepare(s,L,st):
        L.tree=st.trees[0]; L.hole=None; L.roles=None; L.writes=s.stores(L)
        s.cur=st
        if st.touch and s.contract.members: s.repair(st,L.tree)
        L.V0=s.VIEW(st,L.tree); L.root0=s.rootof(st,L.tree)
        st.views.append(L.V0)
        if s.contract.copies==True: s.copyroles(L,st)
    def head(s,L,st,fv):
        if s.contract.copies: st.aux["cps"]=st.aux.get("cps",())+((st.gh["cp"],st.gh["ic"]),)
        st.views.append(s.VIEW(st,L.tree))
        for v in fv.values():
            if isinstance(v,P): st.see(v.ref)
        r=s.rootof(st,L.tree)
        if r is not None: st.see(r)
    def edge(s,L,st,val):
        s.cur=st
        h=None
        if L.hole: h=(val[L.hole[0]].ref,val[L.hole[1]].ref)
        for v in val.values():
            if isinstance(v,P): st.see(v.ref)
        if L.writes and not s.contract.copies and not s.contract.frees:
            for v in val.values():
                if isinstance(v,P) and h is not None: st.mark(v.ref,COL)
            s.repair(st,L.tree,hole=h)
        if L.roles:
            x,i=val[L.roles[0]].ref,val[L.roles[1]].ref
            st.gh["cp"]=st.gh["cp"].store(x,i); st.gh["ic"]=st.gh["ic"].store(i,x)
    def copyroles(s,L,st):
        ph=[n for n,t in L.phis if t.k=="ptr"]
        xs=[n for n in ph if s.prove(st,L.V0.S(L.init[n].ref),quick=True)]; ys=[n for n in ph if n not in xs]
        if len(xs)==1 and len(ys)==1:
            L.roles=(xs[0],ys[0]); x,i=L.init[xs[0]].ref,L.init[ys[0]].ref
            st.gh["cp"]=st.gh["cp"].store(x,i); st.gh["ic"]=st.gh["ic"].store(i,x)
    def keys(s): return s.q.o.get("ranks",[])
    def loopinv(s,L):
        out=[]; ph=[n for n,t in L.phis if t.k=="ptr"]; t=L.tree; o0=s.qentry
        def add(lab,fn): out.append((lab,fn))
        def W(fn): return lambda L_,st,v,fn=fn: fn(s.VIEW(st,t),st,v)
        for n in ph:
            add("S %s"%n,W(lambda V,st,v,n=n: V.S(v[n].ref)))
            add("0|S %s"%n,W(lambda V,st,v,n=n: Or(v[n].ref==N,V.S(v[n].ref))))
            ini=L.init[n].ref
            if not L.writes:
                add("lo %s"%n,W(lambda V,st,v,n=n,ini=ini: Imp(v[n].ref!=N,V.lo(v[n].ref)==V.lo(ini))))
                add("hi %s"%n,W(lambda V,st,v,n=n,ini=ini: Imp(v[n].ref!=N,V.hi(v[n].ref)==V.hi(ini))))
                add("idx<= %s"%n,W(lambda V,st,v,n=n,ini=ini: Imp(v[n].ref!=N,V.idx(v[n].ref)<=V.idx(ini))))
                add("idx>= %s"%n,W(lambda V,st,v,n=n,ini=ini: Imp(v[n].ref!=N,V.idx(v[n].ref)>=V.idx(ini))))
                for k in s.keys():
                    add("has key %s"%n,W(lambda V,st,v,n=n,k=k: forall(1,lambda m: Imp(And(V.S(m),V.rank(m)==k),And(v[n].ref!=N,V.insub(m,v[n].ref))))))
                    for e,lt,gt in(("",lambda a,b: a<b,lambda a,b: a>b),("=",lambda a,b: a<=b,lambda a,b: a>=b)):
                        add("below%s %s"%(e,n),W(lambda V,st,v,n=n,k=k,lt=lt: forall(1,lambda m: Imp(And(v[n].ref!=N,V.S(m),V.idx(m)<=V.lo(v[n].ref)),lt(V.rank(m),k)))))
                        add("above%s %s"%(e,n),W(lambda V,st,v,n=n,k=k,gt=gt: forall(1,lambda m: Imp(And(v[n].ref!=N,V.S(m),V.idx(m)>=V.hi(v[n].ref)),gt(V.rank(m),k)))))
            elif s.PARFIELD: add("red %s"%n,W(lambda V,st,v,n=n: V.red(v[n].ref)))
        for a,b in itertools.permutations(ph,2):
            add("par %s %s"%(a,b),W(lambda V,st,v,a=a,b=b: V.par(v[a].ref)==v[b].ref))
            add("par' %s %s"%(a,b),W(lambda V,st,v,a=a,b=b: Imp(v[a].ref!=N,V.par(v[a].ref)==v[b].ref)))
            add("child %s %s"%(a,b),W(lambda V,st,v,a=a,b=b: Imp(v[b].ref!=N,Or(V.left(v[b].ref)==v[a].ref,V.right(v[b].ref)==v[a].ref))))
            for sd in("left","right") if not L.writes else (): add("%s of %s %s"%(sd,b,a),W(lambda V,st,v,a=a,b=b,sd=sd: Imp(v[b].ref!=N,getattr(V,sd)(v[b].ref)==v[a].ref)))
            add("top %s %s"%(a,b),W(lambda V,st,v,a=a,b=b: Imp(v[b].ref==N,v[a].ref==s.rootof(st,t))))
            for k in s.keys():
                add("slot %s %s"%(a,b),W(lambda V,st,v,a=a,b=b,k=k: forall(1,lambda m: Imp(And(v[a].ref==N,v[b].ref!=N),slot(V,v[b].ref,k,m)))))
        if L.writes and s.contract.copies==True: out+=s.copyinv(L)
        elif L.writes and s.contract.frees: out+=s.freeinv(L)
        elif L.writes:
            base=lambda st: s.inv(s.VIEW(st,t),s.rootof(st,t))
            labs=[l for l,_ in base(L.st0)]
            for i,l in enumerate(labs):
                if l.startswith("colour: the root") or l.startswith("colour: no red"):
                    add(l,lambda L_,st,v,i=i: base(st)[i][1])
                    for n in ph:
                        add(l+" but "+n,lambda L_,st,v,i=i,n=n: s.inv(s.VIEW(st,t),s.rootof(st,t),redx=v[n].ref)[i][1])
                        if "no red" in l: add(l+" but around "+n,lambda L_,st,v,i=i,n=n: s.inv(s.VIEW(st,t),s.rootof(st,t),redx=v[n].ref,hole=(N,N))[i][1])
                elif l.startswith("colour: equal"):
                    add(l,lambda L_,st,v,i=i: base(st)[i][1])
                    for a,b in itertools.permutations(ph,2):
                        f=lambda L_,st,v,i=i,a=a,b=b: s.inv(s.VIEW(st,t),s.rootof(st,t),hole=(v[a].ref,v[b].ref))[i][1]
                        if L.hole is None and not s.holds(L.st0,base(L.st0)[i][1],quick=True) and s.holds(L.st0,f(L,L.st0,L.init),quick=True):
                            L.hole=(a,b); add(l+" but %s %s"%(a,b),f)
                else: add(l,lambda L_,st,v,i=i: base(st)[i][1])
            V0=s.VIEW(o0,t)
            if L.hole is None and L.st0.gh[("S",t)] is not o0.gh[("S",t)]: V0=s.VIEW(L.st0,t)
            add("members",W(lambda V,st,v: forall(1,lambda n: V.S(n)==V0.S(n),True)))
            add("outside",W(lambda V,st,v: forall(1,lambda n: Imp(Not(V0.S(n)),And(V.col(n)==V0.col(n),V.par(n)==V0.par(n),V.left(n)==V0.left(n),V.right(n)==V0.right(n))),True)))
        return out
    def copyfact(s,V0,V1,cp,x,parent,n):
        return And(cp(n)!=N,V0.OWN(cp(n))==N,*[V1.f(o)(cp(n))==V0.f(o)(n) for o in s.DATA],
            V1.left(cp(n))==If(V0.left(n)==N,N,cp(V0.left(n))),V1.right(cp(n))==If(V0.right(n)==N,N,cp(V0.right(n))),*([V1.par(cp(n))==If(n==x,parent,cp(V0.par(n)))] if s.PARFIELD else []))
    def keepfact(s,V0,V1,c): return Imp(V0.OWN(c)!=N,And(V1.OWN(c)==V0.OWN(c),V1.SZ(c)==V0.SZ(c),*[V1.f(o)(c)==V0.f(o)(c) for o in s.DATA+s.LINKS]))
    def copyinv(s,L):
        out=[]
        if not L.roles: return out
        X,Y=L.roles; V0=s.VIEW(s.qentry,L.tree); x0,al,parent=[a.ref for a in s.q.args][:2]+[s.q.args[2].ref if s.PARFIELD else None]
        def add(lab,fn): out.append((lab,lambda L_,st,v,fn=fn: fn(s.VIEW(st,L.tree),st.gh["cp"],st.gh["ic"],v[X].ref,v[Y].ref)))
        add("copy: cursor in the subtree",lambda V,cp,ic,x,i: And(V0.S(x),V0.insub(x,x0)))
        add("copy: the copied node",lambda V,cp,ic,x,i: And(i!=N,cp(x)==i,ic(i)==x,V0.OWN(i)==N,V.OWN(i)==al,V.SZ(i)==NODESZ,*[V.f(o)(i)==V0.f(o)(x) for o in s.DATA],V.left(i)==N,V.right(i)==N,*([V.par(i)==If(x==x0,parent,cp(V0.par(x)))] if s.PARFIELD else [])))
        add("copy: the nodes done",lambda V,cp,ic,x,i: forall(1,lambda n: Imp(And(V0.S(n),V0.insub(n,x0),Not(V0.insub(n,x))),And(s.copyfact(V0,V,cp,x0,parent,n),ic(cp(n))==n,V.OWN(cp(n))==al,V.SZ(cp(n))==NODESZ))))
        add("copy: what is new",lambda V,cp,ic,x,i: forall(1,lambda c: Or(V.OWN(c)==V0.OWN(c),And(V0.S(ic(c)),V0.insub(ic(c),x0),cp(ic(c))==c,Or(c==i,Not(V0.insub(ic(c),x)))))))
        add("copy: what was there",lambda V,cp,ic,x,i: forall(1,lambda c: s.keepfact(V0,V,c),True))
        add("copy: the top",lambda V,cp,ic,x,i: cp(x0)==L.init[Y].ref)
        cp0,ic0=s.qentry.gh["cp"],s.qentry.gh["ic"]
        add("copy: the correspondence elsewhere",lambda V,cp,ic,x,i: forall(1,lambda n: And(Imp(Not(And(V0.S(n),V0.insub(n,x0),Or(n==x,Not(V0.insub(n,x))))),cp(n)==cp0(n)),Imp(V.OWN(n)==V0.OWN(n),ic(n)==ic0(n)))))
        return out
    def freeinv(s,L):
        out=[]; V0=s.VIEW(s.qentry,L.tree); x0=s.q.args[0].ref
        for n in [n for n,t in L.phis if t.k=="ptr"]:
            out.append(("freed %s"%n,lambda L_,st,v,n=n: forall(1,lambda m: s.VIEW(st,L.tree).OWN(m)==If(And(V0.S(m),V0.insub(m,x0),Not(And(v[n].ref!=N,V0.insub(m,v[n].ref)))),N,V0.OWN(m)))))
            out.append(("cursor %s"%n,lambda L_,st,v,n=n: Imp(v[n].ref!=N,And(V0.S(v[n].ref),V0.insub(v[n].ref,x0)))))
        return out
def slot(V,q,k,m):
    """a node of rank k belongs below q, on a side where q has no child (as seen from a node m)"""
    return Or(And(k<V.rank(q),V.left(q)==N,Imp(And(V.S(m),V.idx(m)<=V.lo(q)),V.rank(m)<k)),And(k>V.rank(q),V.right(q)==N,Imp(And(V.S(m),V.idx(m)>=V.hi(q)),k<V.rank(m))))

# ---------------------------------------------------------------- contracts
CONH={}
def con(name,params,pre=None,post=None,**k):
    m=k.pop("members",False); cp=k.pop("copies",False); fr=k.pop("frees",False)
    c=HC(name,pre,post,**k); c.params=params; c.members=m; c.copies=cp; c.frees=fr; c.home=k.get("home","rbtree") if not c.trusted else None
    CONH[name]=c; return c
def tname(q,i=0):
    a=q.args[i]
    if isinstance(a.ref,str): return a.ref
    if "tree" not in q.o: q.o["tree"]=q.H.treeof(q.st,a.ref)
    return q.o["tree"]
def vw(q,i=0): return View(q.st,tname(q,i))
def vo(q,i=0): return View(q.old,tname(q,i))
def allocof(st,t): return st.hdr[t][0].ref if t in st.hdr else st.aux[("alloc",t)]
def full(q,i=0,st=None,**k):
    st=st or q.st; t=tname(q,i); V=View(st,t)
    return inv(V,rootof(st,t),**k)+owned(V,allocof(st,t))
def hd(st,t,o): return st.hdr[t][o]
def num(v): return v.ref if isinstance(v,P) else v
# allocation
def _al_fx(q):
    st=q.st; r=fresh("node"); a=q.args[0].ref; OWN=st.gh["OWN"]
    st.see(r); st.mark(r); st.fresh.append(r)
    st.assume(r!=N,OWN(r)==N)
    st.gh["OWN"]=OWN.store(r,a); st.gh["SZ"]=st.gh["SZ"].store(r,q.args[1]); q.o["r"]=r
con("GInv::Allocator::allocate(unsigned long)",None,lambda q: [("allocator is not null",q.args[0].ref!=N)],fx=_al_fx,ret=lambda q: P(q.o["r"]),trusted=True,mods=("OWN",) and ())
CONH["GInv::Allocator::allocate(unsigned long)"].effect=True
def _de_fx(q): st=q.st; st.aux["freed"]=q.args[1].ref; st.gh["OWN"]=st.gh["OWN"].store(q.args[1].ref,N)
con("GInv::Allocator::deallocate(void const*, unsigned long)",None,lambda q: [("the block belongs to the allocator it is returned to",And(q.st.gh["OWN"](q.args[1].ref)==q.args[0].ref)),("the block has the size it was taken with",q.st.gh["SZ"](q.args[1].ref)==q.args[2])],fx=_de_fx,trusted=True)
con("vc_cmp(int, int)",None,None,lambda q: [("sign",And((q.ret<0)==(RANK(q.args[0])<RANK(q.args[1])),(q.ret>0)==(RANK(q.args[0])>RANK(q.args[1]))))],trusted=True)
# static queries
def inS(q): return [("the node belongs to the tree",And(vw(q).S(q.args[0].ref)))]
con(RB+"minimum(%sNode*)"%RB,["node"],lambda q: full(q)+inS(q),lambda q: [("the leftmost node of the subtree",And(vw(q).S(q.ret.ref),vw(q).left(q.ret.ref)==N,vw(q).lo(q.ret.ref)==vw(q).lo(q.args[0].ref),vw(q).idx(q.ret.ref)<=vw(q).idx(q.args[0].ref)))])
con(RB+"maximum(%sNode*)"%RB,["node"],lambda q: full(q)+inS(q),lambda q: [("the rightmost node of the subtree",And(vw(q).S(q.ret.ref),vw(q).right(q.ret.ref)==N,vw(q).hi(q.ret.ref)==vw(q).hi(q.args[0].ref),vw(q).idx(q.ret.ref)>=vw(q).idx(q.args[0].ref)))])
def succ(V,x,y,up=True):
    lt=(lambda a,b: V.idx(a)<V.idx(b)) if up else (lambda a,b: V.idx(b)<V.idx(a))
    w="after" if up else "before"
    return [("the result is a node %s"%w,Imp(y!=N,And(V.S(y),lt(x,y)))),
      ("no node lies between",forall(1,lambda n: Imp(And(V.S(n),lt(x,n)),And(y!=N,Not(lt(n,y))))))]
con(RB+"next(%sNode*)"%RB,["node"],lambda q: full(q)+inS(q),lambda q: succ(vw(q),q.args[0].ref,q.ret.ref))
con(RB+"prev(%sNode*)"%RB,["node"],lambda q: full(q)+inS(q),lambda q: succ(vw(q),q.args[0].ref,q.ret.ref,False))
def found(V,k,r):
    return [("a node with an equal key",Imp(r!=N,And(V.S(r),V.rank(r)==k))),("nothing is returned only if no key is equal",forall(1,lambda n: Imp(And(r==N,V.S(n)),V.rank(n)!=k)))]
def wkey(pre,i=1):
    def f(q): q.o["ranks"]=[RANK(q.args[i])]; return pre(q)
    return f
con(RB+"findNode(int) const",["ctree","key"],wkey(full),lambda q: found(vw(q),RANK(q.args[1]),q.ret.ref))
# rotations: exact effect on the fields
def rot(L,Rr):
    def names(q):
        st=q.st; x=q.args[1].ref; l,r=st.mem[L],st.mem[Rr]; y=r(x); xp=st.mem[PAR](x); b=l(y)
        return x,y,xp,b
    def pre(q):
        x,y,xp,b=names(q); O=q.st.gh["OWN"]
        return [("the pivot and its child are nodes",And(x!=N,y!=N,O(x)!=N,O(y)!=N,Or(b==N,O(b)!=N),Or(xp==N,O(xp)!=N))),("the nodes are distinct",And(x!=y,xp!=x,xp!=y,b!=x,b!=y,Or(b==N,b!=xp))),
          ("the pivot is the left or the right child of its parent",Or(xp==N,z3.Xor(q.st.mem[L](xp)==x,q.st.mem[Rr](xp)==x)))]
    def defs(q):
        x,y,xp,b=names(q); st=q.st; l,r,p=st.mem[L],st.mem[Rr],st.mem[PAR]; t=q.args[0].ref; root=rootof(st,t)
        isl=l(xp)==x
        return {Rr:lambda n: If(n==x,b,If(And(n==xp,xp!=N,Not(isl)),y,r(n))),
                L:lambda n: If(n==y,x,If(And(n==xp,xp!=N,isl),y,l(n))),
                PAR:lambda n: If(n==x,y,If(n==y,xp,If(And(b!=N,n==b),x,p(n)))),
                (t,8):P(If(xp==N,y,root))}
    def fx(q):
        x,y,xp,b=q.o["touch"]
        for t in(x,y,b): q.st.mark(t,PAR)
        for t in(x,y): q.st.mark(t,LEFT)
        q.st.see(rootof(q.st,q.args[0].ref))
    def pre2(q): q.o["touch"]=names(q); [q.st.see(t) for t in q.o["touch"]]; return pre(q)
    return dict(pre=pre2,defs=defs,fx=fx)
con(RB+"rotateLeft(%sNode*)"%RB,["tree","node"],**rot(LEFT,RIGHT))
con(RB+"rotateRight(%sNode*)"%RB,["tree","node"],**rot(RIGHT,LEFT))
# insertion and removal
def outside(q,V0,V1):
    return [("nodes outside the tree are untouched",forall(1,lambda n: Imp(And(Not(V0.S(n)),Not(V1.S(n))),And(V1.col(n)==V0.col(n),V1.par(n)==V0.par(n),V1.left(n)==V0.left(n),V1.right(n)==V0.right(n))),True))]
def linkmods(q): t=tname(q); return (COL,PAR,LEFT,RIGHT,"lo","hi","bh",("hdr",t,8))
def after(q):
    st=q.st; st.views.append(View(st,tname(q))); st.see(rootof(st,tname(q))); st.touch=[]
def ghost(q,**k):
    q.H.cur=q.st; q.H.repair(q.st,tname(q),**k)
def ex_rep(q): 
    q.H.cur=q.st; q.H.repair(q.st,tname(q))
def entry_rep(q): q.H.cur=q.st; q.H.repair(q.st,tname(q)); q.st.views.append(View(q.st,tname(q)))
con(RB+"insertFixup(%sNode*)"%RB,["tree","node"],
  lambda q: full(q,redx=q.args[1].ref)+[("the new node is in the tree and red",And(vw(q).S(q.args[1].ref),vw(q).red(q.args[1].ref)))],
  lambda q: full(q)+outside(q,vo(q),vw(q)),mods=linkmods,entry=entry_rep,fx=after,exit=ex_rep)
def hole(q): return (q.args[1].ref,q.args[2].ref)
def delpre(q):
    x,p=hole(q); V=vw(q); r=rootof(q.st,tname(q))
    return full(q,redx=x,hole=(x,p))+[("the short subtree hangs below its parent",And(Or(x==N,V.S(x)),Or(p==N,V.S(p)),Imp(p==N,x==r),Imp(p!=N,Or(V.left(p)==x,V.right(p)==x)),Imp(x!=N,V.par(x)==p)))]
def del_entry(q): q.H.cur=q.st; q.st.mark(hole(q)[1],COL); q.H.repair(q.st,tname(q),hole=hole(q)); q.st.views.append(View(q.st,tname(q)))
con(RB+"deleteFixup({0}Node*, {0}Node*)".format(RB),["tree","node","node"],delpre,lambda q: full(q)+outside(q,vo(q),vw(q)),mods=linkmods,entry=del_entry,fx=after,exit=ex_rep)
def inspre(q):
    z=q.args[1].ref; V=vw(q); st=q.st; k=V.rank(z); q.o["ranks"]=[k]
    if not q.call: st.fresh.append(z)
    return full(q)+[("the node is new, red and has no children",And(z!=N,Not(V.S(z)),V.OWN(z)==allocof(st,tname(q)),V.SZ(z)==NODESZ,V.left(z)==N,V.right(z)==N,V.col(z)==1)),
       ("no key of the tree is equal",forall(1,lambda n: Imp(V.S(n),V.rank(n)!=k)))]
def insmods(q): t=tname(q); return (COL,PAR,LEFT,RIGHT,"lo","hi","bh","idx",("S",t),("hdr",t,8),("hdr",t,16))
con(RB+"insertNode(%sNode*)"%RB,["tree","node"],inspre,
  lambda q: full(q)+[("exactly the new node is added",forall(1,lambda n: vw(q).S(n)==Or(vo(q).S(n),n==q.args[1].ref))),("one element more",hd(q.st,tname(q),16)==hd(q.old,tname(q),16)+1)]+outside(q,vo(q),vw(q)),
  mods=insmods,fx=after,exit=ex_rep,members=True)
def delmods(q): t=tname(q); return (KEY,COL,PAR,LEFT,RIGHT,"lo","hi","bh",("S",t),("hdr",t,8),("hdr",t,16))
def delpost(q):
    z=q.args[1].ref; y=q.ret.ref; V,W=vw(q),vo(q)
    return full(q)+[("the returned node was in the tree",And(W.S(y),y!=N)),("exactly the returned node leaves the tree",forall(1,lambda n: V.S(n)==And(W.S(n),n!=y))),
      ("only the removed key disappears",And(Imp(y!=z,V.key(z)==W.key(y)))),("other keys stay",forall(1,lambda n: Imp(n!=z,V.key(n)==W.key(n)))),
      ("one element less",hd(q.st,tname(q),16)==hd(q.old,tname(q),16)-1)]+outside(q,W,V)
con(RB+"deleteNode(%sNode*)"%RB,["tree","node"],lambda q: full(q)+[("the node belongs to the tree",vw(q).S(q.args[1].ref))],delpost,mods=delmods,fx=after,exit=ex_rep,members=True)

# whole subtrees
def copypre(q):
    x,al,parent=[a.ref for a in q.args]
    return full(q)+inS(q)
def copypost(q):
    x,al,parent=[a.ref for a in q.args]; H=q.H; V0,V1=vo(q),vw(q); cp,ic=q.st.gh["cp"],q.st.gh["ic"]; cp0,ic0=q.old.gh["cp"],q.old.gh["ic"]
    inn=lambda n: And(V0.S(n),V0.insub(n,x))
    return [("every node of the subtree has a copy with the same key, colour and links",forall(1,lambda n: Imp(inn(n),And(H.copyfact(V0,V1,cp,x,parent,n),ic(cp(n))==n,V1.OWN(cp(n))==al,V1.SZ(cp(n))==NODESZ)))),
      ("no other block is taken",forall(1,lambda c: Or(V1.OWN(c)==V0.OWN(c),And(inn(ic(c)),cp(ic(c))==c)))),
      ("blocks in use are unchanged",forall(1,lambda c: H.keepfact(V0,V1,c),True)),
      ("other copies keep their place",forall(1,lambda n: And(Imp(Not(inn(n)),cp(n)==cp0(n)),Imp(V1.OWN(n)==V0.OWN(n),ic(n)==ic0(n))))),
      ("the result is the copy of the top node",And(q.ret.ref==cp(x),q.ret.ref!=N))]
con(RB+"copy({0}Node const*, GInv::Allocator*, {0}Node*)".format(RB),["node","alloc","node"],copypre,copypost,mods=(KEY,COL,PAR,LEFT,RIGHT,"OWN","SZ","cp","ic"),copies=True)
def clrpre(q):
    x,al=[a.ref for a in q.args]; V=vw(q); t=tname(q)
    return inv(V,rootof(q.st,t))+inS(q)+[("the nodes of the subtree are blocks of the allocator",forall(1,lambda n: Imp(And(V.S(n),V.insub(n,x)),And(V.OWN(n)==al,V.SZ(n)==NODESZ)),True))]
con(RB+"clear({0}Node*, GInv::Allocator*)".format(RB),["node","alloc"],clrpre,
  lambda q: [("exactly the nodes of the subtree are returned to the allocator",forall(1,lambda n: vw(q).OWN(n)==If(And(vw(q).S(n),vw(q).insub(n,q.args[0].ref)),N,vo(q).OWN(n))))],mods=("OWN",),frees=True)

# ---------------------------------------------------------------- members
def m(nm): return RB+nm
T0="tree0"
def hv(st,t): 
    h=st.hdr[t]; return num(h[0]),num(h[8]),num(h[16])
def setS(st,t,f): st.gh[("S",t)]=Fn(f) if not isinstance(f,Fn) else f
def freed(q,t):
    W=View(q.old,t); return ("exactly the nodes of the tree are returned to the allocator",forall(1,lambda n: q.st.gh["OWN"](n)==If(W.S(n),N,W.OWN(n))))
def empty(q,t): a,r,c=hv(q.st,t); return [("the tree is empty",And(r==N,c==0))]
def ex_empty(t): return lambda q: setS(q.st,t,lambda n: z3.BoolVal(False))
def hmods(t): return (("hdr",t,8),("hdr",t,16))
def isnode(q,V,x): return ("the result is a node of the tree",And(x!=N,V.S(x)))
# constructors and whole-tree operations
def ctor(q): a,r,c=hv(q.st,T0); return [("an empty tree with the given allocator",And(a==q.args[1].ref,r==N,c==0))]
con(m("RBTree(GInv::Allocator*)"),["newtree","alloc"],None,ctor)
def ex_move(q):
    setS(q.st,T0,q.old.gh[("S","tree1")]); setS(q.st,"tree1",lambda n: z3.BoolVal(False)); q.st.views.append(View(q.st,T0))
def movepost(q):
    a,r,c=hv(q.st,T0); b,s_,d=hv(q.st,"tree1"); A,R_,C=hv(q.old,"tree1"); return [("the header is taken over",And(a==A,r==R_,c==C)),("the source is empty",And(b==A,s_==N,d==0))]+full2(q,T0)
def full2(q,t,st=None):
    st=st or q.st; V=View(st,t); return inv(V,rootof(st,t))+owned(V,allocof(st,t))
con(m("RBTree({0}&&)".format(RB[:-2])),["newtree","tree"],lambda q: full2(q,"tree1"),movepost,mods=hmods("tree1"),exit=ex_move)
def ex_swap(q):
    a,b=q.old.gh[("S",T0)],q.old.gh[("S","tree1")]; q.st.gh[("S",T0)],q.st.gh[("S","tree1")]=b,a; q.st.views.append(View(q.st,T0))
def swappost(q):
    return [("the headers are exchanged",And(*[x==y for x,y in zip(hv(q.st,T0)+hv(q.st,"tree1"),hv(q.old,"tree1")+hv(q.old,T0))]))]+full2(q,T0)+full2(q,"tree1")
con(m("swap({0}&)".format(RB[:-2])),["tree","tree"],lambda q: full2(q,T0)+full2(q,"tree1"),swappost,mods=lambda q: [("hdr",t,k) for t in(T0,"tree1") for k in(0,8,16)],exit=ex_swap)
con(m("~RBTree()"),["tree"],lambda q: full2(q,T0),lambda q: [freed(q,T0)],mods=("OWN",),frees=True)
con(m("clear()"),["tree"],lambda q: full2(q,T0),lambda q: empty(q,T0)+[freed(q,T0)],mods=("OWN",)+hmods(T0),frees=True,exit=ex_empty(T0))
# copies
SRC="tree1"
def ex_copy(q):
    st=q.st; W=View(q.old,SRC); ic,cp=st.gh["ic"],st.gh["cp"]; OWN0=q.mid
    Sn=lambda c: And(c!=N,OWN0(c)==N,W.S(ic(c)),cp(ic(c))==c,rootof(q.old,SRC)!=N)
    setS(st,T0,Sn)
    for g in("idx","lo","hi","bh"): f=st.gh[g]; st.gh[g]=Fn(lambda c,f=f: If(Sn(c),f(ic(c)),f(c)))
def copied(q):
    st=q.st; V=View(st,T0); W=View(q.old,SRC); cp,ic=st.gh["cp"],st.gh["ic"]
    return [("every element is copied, in the same order",forall(1,lambda n: Imp(W.S(n),And(V.S(cp(n)),V.key(cp(n))==W.key(n),V.idx(cp(n))==W.idx(n),ic(cp(n))==n)))),
      ("every element of the copy stems from the source",forall(1,lambda c: Imp(V.S(c),And(W.S(ic(c)),cp(ic(c))==c)))),
      ("as many elements",num(st.hdr[T0][16])==num(q.old.hdr[SRC][16]))]+full2(q,T0)
def ex_ctor(q): q.mid=q.old.gh["OWN"]; ex_copy(q)
con(m("RBTree({0} const&, GInv::Allocator*)".format(RB[:-2])),["newtree","ctree","alloc"],lambda q: full2(q,SRC),
  lambda q: copied(q)+[("the allocator is the given one",num(q.st.hdr[T0][0])==q.args[2].ref),("blocks in use are unchanged",forall(1,lambda c: q.H.keepfact(View(q.old,SRC),View(q.st,SRC),c),True)),
    ("only the copies are taken",forall(1,lambda c: Or(q.st.gh["OWN"](c)==q.old.gh["OWN"](c),View(q.st,T0).S(c))))],
  mods=(KEY,COL,PAR,LEFT,RIGHT,"OWN","SZ","cp","ic"),exit=ex_ctor,copies="tree")
def midown(q):
    W=View(q.old,T0); return lambda c: If(W.S(c),N,W.OWN(c))
def ex_assign(q): q.mid=midown(q); ex_copy(q)
con(m("operator=({0} const&)".format(RB[:-2])),["tree","ctree"],lambda q: full2(q,T0)+full2(q,SRC),
  lambda q: copied(q)+[("the allocator stays",num(q.st.hdr[T0][0])==num(q.old.hdr[T0][0])),("blocks in use elsewhere are unchanged",forall(1,lambda c: Imp(Not(View(q.old,T0).S(c)),q.H.keepfact(View(q.old,SRC),View(q.st,SRC),c)),True)),
    ("the old nodes are returned, only the copies are taken",forall(1,lambda c: Or(q.st.gh["OWN"](c)==midown(q)(c),View(q.st,T0).S(c))))],
  mods=(KEY,COL,PAR,LEFT,RIGHT,"OWN","SZ","cp","ic")+hmods(T0),exit=ex_assign,copies="tree")
# queries
def ro(name,post,params=("ctree",),pre=None):
    def p(q): 
        return full2(q,[t for t in q.st.trees][0])+(pre(q) if pre else [])
    con(m(name),list(params),p,lambda q: post(q))
VW=lambda q: View(q.st,q.st.trees[0])
ro("operator bool() const",lambda q: [("true exactly for a non-empty tree",forall(1,lambda n: And(Imp(Not(tob(q.ret)),Not(VW(q).S(n))),Imp(tob(q.ret),VW(q).S(rootof(q.st,T0)))),True))])
ro("length() const",lambda q: [("the number of elements",q.ret==num(q.st.hdr[T0][16]))])
def tob(v): return v if z3.is_bool(v) else v!=0
def nonempty(q): return [("the tree is not empty",rootof(q.st,q.st.trees[0])!=N)]
def extreme(lo,it):
    def f(q):
        V=VW(q); rel=(lambda a,b: a<=b) if lo else (lambda a,b: a>=b); w="smallest" if lo else "largest"
        if it:
            x=q.st.hdr["out0"][0].ref
            return [("no element only for an empty tree",forall(1,lambda n: Imp(x==N,Not(V.S(n))),True)),("the node of the %s key"%w,forall(1,lambda n: Imp(x!=N,And(V.S(x),Imp(V.S(n),rel(V.rank(x),V.rank(n)))))))]
        return [("no element has a %s key"%("smaller" if lo else "larger"),forall(1,lambda n: Imp(V.S(n),rel(RANK(q.ret),V.rank(n)))))]
    return f
ro("minimumKey() const",extreme(True,False),pre=nonempty)
ro("maximumKey() const",extreme(False,False),pre=nonempty)
ro("minimum() const",extreme(True,True),("out","ctree"))
ro("maximum() const",extreme(False,True),("out","ctree"))
outx=lambda q: q.st.hdr["out0"][0].ref
ro("root() const",lambda q: [("the root",outx(q)==rootof(q.st,"tree1"))],("out","ctree"))
def k2(q): q.o["ranks"]=[RANK(q.args[2])]; return []
ro("find(int) const",lambda q: found(VW(q),RANK(q.args[2]),outx(q)),("out","ctree","key"),k2)
def near_(up):
    def f(q):
        V=VW(q); k=RANK(q.args[2]); x=outx(q); lt=(lambda a,b: a<b) if up else (lambda a,b: a>b); w="greater" if up else "smaller"
        return [("the result has a %s key"%w,Imp(x!=N,And(V.S(x),lt(k,V.rank(x))))),("no key lies between",forall(1,lambda n: Imp(And(V.S(n),lt(k,V.rank(n))),And(x!=N,Not(lt(V.rank(n),V.rank(x)))))))]
    return f
ro("findPrev(int) const",near_(False),("out","ctree","key"),k2)
ro("findNext(int) const",near_(True),("out","ctree","key"),k2)
# insertion, removal
def inspre2(q): V=VW(q); k=RANK(q.args[1]); q.o["ranks"]=[k]; return full2(q,T0)+[("no key of the tree is equal",forall(1,lambda n: Imp(V.S(n),V.rank(n)!=k)))]
def inspost2(q):
    st=q.st; V=View(st,T0); W=View(q.old,T0)
    if not st.fresh: return [("a node is taken",False)]
    z=st.fresh[-1]
    return full2(q,T0)+[("the key is in the tree",And(V.S(z),V.key(z)==q.args[1])),("no other element is added and none is lost",forall(1,lambda n: And(V.S(n)==Or(W.S(n),n==z),Imp(W.S(n),V.key(n)==W.key(n))))),
      ("one element more",num(st.hdr[T0][16])==num(q.old.hdr[T0][16])+1),("one block is taken",forall(1,lambda n: Imp(n!=z,V.OWN(n)==W.OWN(n)),True))]
con(m("insert(int)"),["tree","key"],inspre2,inspost2,mods=(KEY,COL,PAR,LEFT,RIGHT,"lo","hi","bh","idx","OWN","SZ")+hmods(T0))
def rmpre(q,k,w): V=VW(q); return full2(q,T0)+[("the element is in the tree",And(w!=N,V.S(w),V.rank(w)==k))]
def rmpost(q,w):
    st=q.st; V=View(st,T0); W=View(q.old,T0); y=st.aux.get("freed")
    if y is None: return [("a node is returned",False)]
    return full2(q,T0)+[("the key is not in the tree",forall(1,lambda n: Imp(V.S(n),V.rank(n)!=W.rank(w)))),
      ("no other element is lost and none is added",forall(1,lambda n: And(V.S(n)==And(W.S(n),n!=y),Imp(And(V.S(n),n!=w),V.key(n)==W.key(n)),Imp(w!=y,V.key(w)==W.key(y))))),
      ("one element less",num(st.hdr[T0][16])==num(q.old.hdr[T0][16])-1),("one block is returned",forall(1,lambda n: V.OWN(n)==If(n==y,N,W.OWN(n)),True)),("the returned node was in the tree",W.S(y))]
rmmods=(KEY,COL,PAR,LEFT,RIGHT,"lo","hi","bh","OWN")+hmods(T0)
def wit(q):
    if "w" not in q.o: q.o["w"]=fresh("w"); q.st.see(q.o["w"])
    return q.o["w"]
con(m("remove(int)"),["tree","key"],lambda q: rmpre(q,RANK(q.args[1]),wit(q)),lambda q: rmpost(q,q.o["w"]),mods=rmmods)
con(m("remove({0}ConstIterator)".format(RB)),["tree","it"],lambda q: rmpre(q,VW(q).rank(q.st.hdr["it1"][0].ref),q.st.hdr["it1"][0].ref),lambda q: rmpost(q,q.old.hdr["it1"][0].ref),mods=rmmods)
# iterators
def itpre(q): return full2(q,"T")+[("the iterator is at an element",View(q.st,"T").S(q.st.hdr["it0"][0].ref))]
con(m("ConstIterator::operator++()"),["it"],itpre,lambda q: succ(View(q.st,"T"),q.old.hdr["it0"][0].ref,q.st.hdr["it0"][0].ref),mods=(("hdr","it0",0),))
con(m("ConstIterator::operator--()"),["it"],itpre,lambda q: succ(View(q.st,"T"),q.old.hdr["it0"][0].ref,q.st.hdr["it0"][0].ref,False),mods=(("hdr","it0",0),))
con(m("ConstIterator::key() const"),["it"],itpre,lambda q: [("the key of the element",q.ret==View(q.st,"T").key(q.st.hdr["it0"][0].ref))])
