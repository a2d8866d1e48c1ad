"""Singly linked lists: list, tail and segment predicates, and the loop abstraction that cuts
loops over cursors.

  tail_x  (8 bytes)   a cell holding the pointer to the first node of a list
  seg_x   (a node)    the list starting at this node; the base address may be null (empty list)
  pre_x   (ghost)     the nodes between a cell and a cursor further on
A cursor that moves in a loop is renamed at the loop head to an abstract cell / node, so that an
iteration is: unfold the node at the cursor, run the body, fold what was passed into pre_x."""
import z3
from . import sym
from .sym import *
from .sym import Obj,Pred,NoObject
from .contract import NS,Kind
from .ir import Unsupported
from . import ir
from .loops import consts
NODE=16

class ListKind:
    """element description; measure dictionaries d hold z3 terms under the names in `fields`"""
    fields=()
    data_ty=None; fold_null=False; small=0; holders=()
    def __init__(s,name): s.name=name
    def n_pos(s,d): return s.n(d)>0
    # to be provided: fresh, facts, n, empty, uncons, cons, snoc, concat

def ghost(st):
    for o in st.heap.values():
        if o.kind=="ghost": yield o
def find_pre(st,base,off):
    for o in ghost(st):
        q=o.preds[0]; b,k=q.d["src"]
        if b.eq(base) and k==off: return o
    return None
def drop(st,o): st.heap.pop(o.base.get_id(),None)
def pinned(st,o):
    """o: ghost whose far end is a cursor cell that keeps its identity"""
    d=o.preds[0].d["dst"]
    if d[0]!="cell": return False
    x=st.heap.get(d[1].base.get_id()); return x is not None and x.name==PIN
PIN="pinned cursor"
def expand_pre(E,st,lk,o,off,g):
    """the first node of the non-empty passed part g, which starts at cell (o,off)"""
    p=g.preds[0]; d=p.d; dv,rest=lk.uncons(E,st,d,p.ro); b=fresh("nd")
    x=Obj(b,I(NODE),"node","node"); x.tok=(d["al"],I(NODE)); x.ro=p.ro
    for y in st.heap.values():
        if y.kind!="ghost": st.assume(y.base!=b)
    st.assume(b>0); st.heap[b.get_id()]=x
    x.cells[0]=(8,dv) if not lk.small else (lk.small,dv)
    o.cells[off]=(8,Ptr(b,ZERO)); o.preds.pop(off,None)
    drop(st,g); rest["al"]=d["al"]; lk.facts(E,st,rest); new_ghost(st,lk,(b,8),d["dst"],rest,p.ro)
def collect(E,st,lk,o,off,cur,al):
    """measures of the nodes from cell (o,off) up to the cursor cell cur, which are absorbed.  The object that
    holds the cursor's cell stays (a node whose data is absorbed becomes a bare cell)"""
    acc=None; k=0; st.ghost["collected"]=None; tgt=E.const_off(st,cur.off)
    while not(o.base.eq(cur.base) and off==tgt):
        k+=1
        if k>12: return None
        g=find_pre(st,o.base,off)
        if g is not None:
            p=g.preds[0]; e=dict(p.d); dst=e["dst"]; drop(st,g)
            if k==1: st.ghost["collected"]=g.base
            acc=e if acc is None else lk.concat(E,st,acc,e)
            if o.kind=="pseudo" and o.name!=PIN: drop(st,o)
            if dst[0]!="cell": return None
            o=st.heap.get(dst[1].base.get_id()); off=dst[1].off.as_long()
            if o is None: return None
            continue
        q=o.preds.get(off)
        if q is not None: E.predkinds[q.kind].unfold(E,st,o,off,o.preds.pop(off))
        c=o.cells.get(off)
        if c is None or not isinstance(c[1],Ptr) or isnull(c[1]): return None
        x=st.heap.get(c[1].base.get_id())
        if x is None: return None
        if x.preds.get(0) is not None and x.preds[0].kind=="seg_"+lk.name: E.predkinds[x.preds[0].kind].unfold(E,st,x,0,x.preds.pop(0))
        if 0 not in x.cells or x.tok is None: return None
        E.oblige(st,z3.And(veq(x.tok[0],al),x.tok[1]==NODE),"list node belongs to the recorded allocator")
        if acc is None: acc=lk.empty(E)
        acc=lk.snoc(E,st,acc,x.cells[0][1],x)
        if acc is None: return None
        o.cells.pop(off,None)
        if o.kind=="pseudo" and o.name!=PIN: drop(st,o)
        x.cells.pop(0,None); x.kind="pseudo"; x.tok=None; x.size=None; o=x; off=8
    if acc is None: acc=lk.empty(E)
    acc=NS(acc); acc["al"]=al; return acc
def add_obj(st,o,distinct=True):
    st.heap[o.base.get_id()]=o
def new_ghost(st,lk,src,dst,d,ro,base=None):
    o=Obj(base if base is not None else fresh("PRE"),None,"passed","ghost"); d=dict(d); d["src"]=src; d["dst"]=dst
    o.preds[0]=Pred("pre_"+lk.name,8,d,ro); st.heap[o.base.get_id()]=o; return o
def new_seg(E,st,lk,base,d,ro,name):
    """the list whose first node is at base (0: empty)"""
    o=Obj(base,I(NODE),name,"seg"); o.ro=ro
    for x in st.heap.values():
        if x.kind not in("ghost",) and not(ro and x.ro): st.assume(z3.Or(base==0,x.base!=base))
    st.assume(base>=0,(base==0)==(lk.n(d)==0)); lk.facts(E,st,d)
    o.preds[0]=Pred("seg_"+lk.name,NODE,dict(d),ro); st.heap[base.get_id()]=o
    return o
def measures(lk,d): return {f:d[f] for f in lk.fields+("al",)}

def register(kinds,lk):
    n=lk.name
    def tail_fresh(E,st,name):
        d=lk.fresh(E,st,name); d["al"]=Ptr(fresh(name+"_al"),ZERO); d["hd"]=fresh(name+"_hd"); return d
    def tail_facts(E,st,d): st.assume(d["hd"]>=0,(d["hd"]==0)==(lk.n(d)==0)); lk.facts(E,st,d)
    def tail_unfold(E,st,o,off,p):
        d=p.d; ro=p.ro or o.ro
        hd=d["hd"]
        if isint(hd) and hd.as_long()==0: o.cells[off]=(8,NULL); return
        o.cells[off]=(8,Ptr(hd,ZERO))
        if hd.get_id() not in st.heap: new_seg(E,st,lk,hd,measures(lk,d),ro,"list at "+o.name)
        else: raise Unsupported("list unfolded twice")
    def tail_fold(E,st,o,off,al=None):
        q=o.preds.get(off)
        if q is not None:
            return q if q.kind=="tail_"+n else None
        if al is None: al=alloc_of(E,st,o,off)
        g=find_pre(st,o.base,off)
        if g is not None:
            p=g.preds[0]; dst=p.d["dst"]
            if dst[0]=="cell":
                P=dst[1]; po=st.heap.get(P.base.get_id())
                if po is None: return None
                t=tail_fold(E,st,po,P.off.as_long(),p.d["al"])
                if t is None: return None
                if po.kind=="pseudo": drop(st,po)
                else: po.preds.pop(P.off.as_long(),None)
                td=t.d
            else:
                td=take_seg(E,st,Ptr(dst[1],ZERO),p.d["al"])
                if td is None: return None
            drop(st,g)
            d=lk.concat(E,st,p.d,td); d["al"]=p.d["al"]; hd=fresh("hd"); d["hd"]=hd
            tail_facts(E,st,d)
            r=Pred("tail_"+n,8,d,p.ro); o.preds[off]=r; o.cells.pop(off,None); return r
        c=o.cells.get(off)
        if c is None or not isinstance(c[1],Ptr): return None
        q=c[1]
        d=take_seg(E,st,q,al)
        if d is None: return None
        d["hd"]=simp(q.base); del o.cells[off]
        r=Pred("tail_"+n,8,d,o.ro); o.preds[off]=r
        return r
    def take_seg(E,st,q,al):
        """measures of the list starting at pointer q; its nodes are absorbed (an operand's are only read)"""
        x=None if isnull(q) else st.heap.get(q.base.get_id())
        if x is not None and x.ro:
            t=st.copy(); d=take_seg1(E,t,q,al)
            st.pc=t.pc; return d
        return take_seg1(E,st,q,al)
    def take_seg1(E,st,q,al):
        if isnull(q): 
            d=lk.empty(E); d["al"]=al; return d
        x=st.heap.get(q.base.get_id())
        if x is None:
            try: x=E.obj(st,q)
            except NoObject: x=None
        if x is None:
            if E.proves(st,q.base==0): d=lk.empty(E); d["al"]=al; return d
            return None
        if E.const_off(st,q.off)!=0: return None
        p=x.preds.get(0)
        if p is not None and p.kind=="seg_"+n:
            if al is not None and isinstance(p.d.get("al"),Ptr): E.oblige(st,z3.Or(q.base==0,veq(p.d["al"],al)),"list nodes belong to the recorded allocator")
            drop(st,x); d=measures(lk,p.d)
            if al is not None: d["al"]=al
            return d
        if 0 not in x.cells or 8 not in x.cells and 8 not in x.preds and find_pre(st,x.base,8) is None: return None
        t=tail_fold(E,st,x,8,al)
        if t is None: return None
        if x.tok is None: return None
        if al is not None: E.oblige(st,veq(x.tok[0],al),"list node belongs to the recorded allocator")
        E.oblige(st,x.tok[1]==NODE,"list node has the size of a node")
        d=lk.cons(E,st,x.cells[0][1],t.d,x)
        if d is None: return None
        d["al"]=x.tok[0]; drop(st,x); return d
    def alloc_of(E,st,o,off):
        c=o.cells.get(off-8)
        if c is not None and isinstance(c[1],Ptr): return c[1]
        if o.tok is not None: return o.tok[0]
        return st.ghost.get("al")       # a local head: only decides the (irrelevant) allocator of an empty list
    def seg_unfold(E,st,o,off,p):
        d=p.d; ro=p.ro or o.ro
        E.oblige(st,o.base!=0,"no access through the end of the list")
        dv,rest=lk.uncons(E,st,d,ro)
        o.cells[0]=(8,dv) if not lk.small else (lk.small,dv)
        o.kind="node"; o.tok=(d["al"],I(NODE)); o.raw=False; o.ro=ro
        rest["al"]=d["al"]; rest["hd"]=fresh("hd"); tail_facts(E,st,rest)
        st.assume(o.base>0)
        o.preds[8]=Pred("tail_"+n,8,rest,ro)
    def seg_fold(E,st,o,off):
        if off!=0: return None
        d=take_seg(E,st,Ptr(o.base,ZERO),None)
        if d is None: return None
        y=new_seg(E,st,lk,o.base,d,o.ro,o.name)
        return y.preds[0]
    kinds["tail_"+n]=Kind("tail_"+n,8,tail_fresh,tail_facts,tail_unfold,tail_fold,owns=lk.n_pos)
    kinds["seg_"+n]=Kind("seg_"+n,NODE,None,None,seg_unfold,seg_fold,owns=lk.n_pos)
    kinds["pre_"+n]=Kind("pre_"+n,8,None,None,None,None,owns=lk.n_pos)
    # --- the list object: allocator, head, length
    def l_fresh(E,st,name): return NS(tail_fresh(E,st,name))
    def l_unfold(E,st,o,off,p):
        d=dict(p.d); o.cells[off]=(8,d["al"]); o.cells[off+16]=(8,lk.n(d)); o.preds[off+8]=Pred("tail_"+n,8,d,p.ro or o.ro)
        o.cells.pop(off+8,None)
    def l_fold(E,st,o,off):
        c=o.cells
        if not all(off+k in c and c[off+k][1] is not None for k in(0,16)): return None
        al=c[off][1]; ln=c[off+16][1]
        if not isinstance(al,Ptr): return None
        t=tail_fold(E,st,o,off+8,al)
        if t is None: return None
        if isinstance(t.d.get("al"),Ptr) and not vsame(t.d["al"],al): E.oblige(st,z3.Or(lk.n(t.d)==0,veq(t.d["al"],al)),"list nodes belong to the list's allocator")
        E.oblige(st,ln==lk.n(t.d),"recorded length is the number of nodes")
        d=NS(t.d); d["al"]=al
        for k in(0,16): del c[off+k]
        o.preds.pop(off+8,None); c.pop(off+8,None)
        r=Pred("list_"+n,24,d,o.ro); o.preds[off]=r; return r
    kinds["list_"+n]=Kind("list_"+n,24,l_fresh,tail_facts,l_unfold,l_fold,owns=lk.n_pos)
    lk.tail_fold=tail_fold; lk.take_seg=take_seg; lk.tail_facts=tail_facts

# ---------- loop abstraction
class Cursor: pass
class ListLoop:
    def __init__(s,E,lk,cfg=None,L=None): s.E=E; s.lk=lk; s.cur=[]; s.inits=[]; s.cfg=cfg; s.L=L
    def open_holder(s,st,o,off):
        """a cursor into a list inside an abstract value: the value is expanded"""
        for _ in range(3):
            for po,q in list(o.preds.items()):
                if po<off<po+q.size and (q.kind in s.lk.holders or q.kind=="list_"+s.lk.name): del o.preds[po]; s.E.predkinds[q.kind].unfold(s.E,st,o,po,q); break
            else: return
    def prepare(s,st,init):
        E=s.E; lk=s.lk
        init=dict(init)
        done=[]
        for ph,v in list(init.items()):
            if not isinstance(v,Ptr) or isnull(v): continue
            off=E.const_off(st,v.off)
            if off is None: continue
            o=st.heap.get(v.base.get_id())
            if o is None: continue
            s.open_holder(st,o,off)
            # several phis starting at the same place move together only if they are the same cursor
            k=s.kind_of(st,o,off)
            if k is None: continue
            c=Cursor(); c.ph=ph; c.kind=k
            if k=="cell":
                if o.ro: continue
                c.mid=None; g0=find_pre(st,o.base,off)
                if g0 is not None and pinned(st,g0):
                    if o.kind=="pseudo": continue
                    c.P=Ptr(fresh("CUR"),ZERO); add_obj(st,Obj(c.P.base,None,"cursor cell","pseudo"))
                    q=g0.preds[0]; d=dict(q.d); d["src"]=(c.P.base,0); g0.preds[0]=Pred(q.kind,8,d,q.ro); c.mid=g0.base
                    d=lk.pre0(E,q.d); d["al"]=q.d["al"]
                    c.g=new_ghost(st,lk,(o.base,off),("cell",c.P),d,q.ro).base; c.real=v
                    init[ph]=c.P; s.inits.append((c.P.base,fresh("cur0"))); s.cur.append(c); continue
                s.absorb(st,o,off,init,ph); o=st.heap[o.base.get_id()]
                t=lk.tail_fold(E,st,o,off)
                if t is None: raise Unsupported("loop cursor into a list that cannot be folded")
                c.P=Ptr(fresh("CUR"),ZERO); po=Obj(c.P.base,None,"cursor cell","pseudo")
                po.preds[0]=Pred(t.kind,8,dict(t.d),t.ro); 
                if not isinstance(t.d["hd"],z3.ExprRef): raise Unsupported("hd")
                o.preds.pop(off,None)
                g=None
                for x in ghost(st):
                    q=x.preds[0]
                    if q.d["dst"][0]=="cell" and q.d["dst"][1].base.eq(o.base) and E.const_off(st,q.d["dst"][1].off)==off: g=x
                if g is not None and o.name!=PIN:
                    q=g.preds[0]; d=dict(q.d); d["dst"]=("cell",c.P); g.preds[0]=Pred(q.kind,8,d,q.ro)
                    if o.kind=="pseudo": drop(st,o)
                else:
                    d=lk.pre0(E,t.d); d["al"]=t.d["al"]
                    g=new_ghost(st,lk,(o.base,off),("cell",c.P),d,t.ro)
                add_obj(st,po); c.g=g.base; c.real=v
                init[ph]=c.P
                s.inits.append((c.P.base,fresh("cur0")))
            else:
                ro=o.ro
                src=None; g=None
                if not ro:
                    for x in ghost(st):
                        q=x.preds[0]
                        if q.d["dst"][0]=="node" and q.d["dst"][1].eq(o.base): g=x
                    if g is None:
                        src=s.holder(st,o.base)
                        if src is None: raise Unsupported("loop cursor into a list whose link is not known")
                d=lk.take_seg(E,st,v,None)
                if d is None: raise Unsupported("loop cursor into a list that cannot be folded")
                c.Q=fresh("CURN"); y=Obj(c.Q,I(NODE),"list at the cursor","seg"); y.ro=ro
                y.preds[0]=Pred("seg_"+lk.name,NODE,d,ro); add_obj(st,y)
                if not ro:
                    if g is None:
                        so,k2=src; so.cells.pop(k2,None)
                        e=lk.pre0(E,d); e["al"]=d["al"]
                        g=new_ghost(st,lk,(so.base,k2),("node",c.Q),e,False)
                    else:
                        q=g.preds[0]; e=dict(q.d); e["dst"]=("node",c.Q); g.preds[0]=Pred(q.kind,8,e,False)
                    c.g=g.base
                c.ro=ro
                init[ph]=Ptr(c.Q,ZERO); s.inits.append((c.Q,v.base))
            s.cur.append(c)
        s.init_now=init
        s.normalise(st)
        return st,init
    def live(s,st,init,skip):
        live=set()
        names=s.cfg.live_in(s.L.header) if s.cfg is not None else set(st.env)
        for nm,v in list(st.env.items())+list(init.items()):
            if nm!=skip and isinstance(v,Ptr) and (nm in names or nm in init): live|=set(consts(v.base))
        return live
    def absorb(s,st,o,off,init,ph):
        """the cursor is one node past an earlier cursor that nobody needs any more: the node joins the part before"""
        lk=s.lk; E=s.E
        if o.tok is None or off!=8 or o.ro or 0 not in o.cells: return
        for x in list(st.heap.values()):
            if x.kind!="pseudo" or x.name==PIN: continue
            k=[k for k,(w,v) in x.cells.items() if isinstance(v,Ptr) and v.base.eq(o.base)]
            if not k or x.base.get_id() in s.live(st,init,ph) or o.base.get_id() in s.live(st,init,ph): continue
            for g in ghost(st):
                q=g.preds[0]; dst=q.d["dst"]
                if dst[0]!="cell" or not dst[1].base.eq(x.base) or E.const_off(st,dst[1].off)!=k[0] or pinned(st,g): continue
                if not(E.proves(st,z3.And(veq(o.tok[0],q.d["al"]),o.tok[1]==NODE))): return
                t=st.copy(); d=o.cells[0][1]
                e=lk.snoc(E,t,q.d,d,t.heap[o.base.get_id()])
                if e is None: return
                st.heap=t.heap; st.pc=t.pc; n=st.heap[o.base.get_id()]
                e["al"]=q.d["al"]; e["src"]=q.d["src"]; e["dst"]=("cell",Ptr(o.base,I(8)))
                g2=st.heap[g.base.get_id()]; g2.preds[0]=Pred(q.kind,8,e,q.ro); drop(st,st.heap[x.base.get_id()])
                n.cells.pop(0,None); n.kind="pseudo"; n.tok=None; n.size=None; return
    def is_cursor(s,ph): return any(c.ph==ph for c in s.cur)
    def normalise(s,st):
        """lists whose first nodes are expanded are folded again before the loop is cut"""
        E=s.E; live=set()
        if s.cfg is not None:
            names=s.cfg.live_in(s.L.header)
            for nm,v in list(st.env.items())+list(s.init_now.items()):
                if isinstance(v,Ptr) and (nm in names or nm in s.init_now):
                    live|=set(consts(v.base))
        for _ in range(8):
            again=False
            for g in list(ghost(st)):
                # a traversal that is over: the passed part and the rest become one list again
                q=g.preds[0]; b,off=q.d["src"]; dst=q.d["dst"]; o=st.heap.get(b.get_id())
                if o is None or g.base.get_id() not in st.heap or pinned(st,g): continue
                x=dst[1].base if dst[0]=="cell" else dst[1]
                if x.get_id() in live or any((c.P.base if c.kind=="cell" else c.Q).eq(x) for c in s.cur): continue
                t=st.copy()
                try: r=s.lk.tail_fold(E,t,t.heap[b.get_id()],off)
                except Fail: r=None
                if r is None or any(y.base.get_id() in live for k2,y in st.heap.items() if k2 not in t.heap): continue
                st.heap=t.heap; st.pc=t.pc; again=True
            if again: continue
            for k in list(st.heap):
                o=st.heap.get(k)
                if o is None or o.ro: continue
                for off,(w,v) in list(o.cells.items()):
                    if not isinstance(v,Ptr): continue
                    if not(s.head_cell(o,off) or o.kind=="pseudo"): continue
                    if isnull(v):
                        if s.lk.fold_null: s.lk.tail_fold(E,st,o,off); again=True; break
                        continue
                    x=st.heap.get(v.base.get_id())
                    if x is None or not(x.kind in("seg","node") or x.tok is not None) or s.owns(x): continue
                    t=st.copy()
                    try: r=s.lk.tail_fold(E,t,t.heap[k],off)
                    except Fail: r=None
                    if E.verbose>1: print("   normalise",o.name,off,v,r is not None,[(y.name,y.base) for k2,y in st.heap.items() if k2 not in t.heap and y.base.get_id() in live])
                    if r is not None and any(y.base.get_id() in live for k2,y in st.heap.items() if k2 not in t.heap): continue
                    if r is not None: st.heap=t.heap; st.pc=t.pc; again=True; break
                if again: break
            if not again: break
    def holder(s,st,base):
        r=[]
        for o in st.heap.values():
            for k,(w,v) in o.cells.items():
                if isinstance(v,Ptr) and v.base.eq(base) and (o.tok is not None and o.kind in("node","heap") and k==8 or s.head_cell(o,k)): r.append((o,k))
        return r[0] if len(r)==1 else None
    def local_cell(s,o,k): return o.kind=="alloca" and k==0 and isint(o.size) and o.size.as_long()==8 and isinstance(o.cells.get(0,(0,0))[1],Ptr)
    def head_cell(s,o,k):
        if s.local_cell(o,k): return True
        a=o.cells.get(k-8); b=o.cells.get(k+8)
        return a is not None and b is not None and isinstance(a[1],Ptr) and isinstance(b[1],z3.ExprRef)
    def kind_of(s,st,o,off):
        n=s.lk.name
        if o.kind in("seg",) and off==0: return "node"
        if o.kind=="node" and off==0: return "node"
        p=o.preds.get(off)
        if p is not None and p.kind=="tail_"+n: return "cell"
        if p is None and off in o.cells and isinstance(o.cells[off][1],Ptr):
            if o.kind in("node",) and off==8 or o.kind=="pseudo" or s.head_cell(o,off) or (o.tok is not None and off==8): return "cell"
        if find_pre(st,o.base,off) is not None: return "cell"
        if off==0 and o.tok is not None and isint(simp(o.tok[1])) and simp(o.tok[1]).as_long()==NODE and 8 in o.cells: return "node"
        return None
    def make_header(s,hs,n):
        E=s.E; lk=s.lk
        for o in hs.heap.values():
            for q in o.preds.values():
                if q.kind.startswith("tail_") or q.kind.startswith("list_"): lk.tail_facts(E,hs,q.d)
                elif q.kind.startswith("pre_"): lk.facts(E,hs,q.d)
                elif q.kind.startswith("seg_"): hs.assume(o.base>=0,(o.base==0)==(lk.n(q.d)==0)); lk.facts(E,hs,q.d)
        for c in s.cur:
            b=c.P.base if c.kind=="cell" else c.Q
            for x in hs.heap.values():
                if x.kind!="ghost" and not x.base.eq(b) and not(c.kind!="cell" and c.ro and x.ro): hs.assume(z3.Or(b==0,x.base!=b))
            if c.kind=="cell": hs.assume(b>0)
    def fold_back(s,st,env,hs):
        E=s.E; lk=s.lk; env=dict(env); s.subs=[]
        for c in s.cur:
            v=env[c.ph]
            if c.kind=="cell":
                po=st.heap.get(c.P.base.get_id())
                g=st.heap.get(c.g.get_id())
                if g is None: raise Unsupported("loop: list before the cursor was changed")
                cur=po; off=0
                if po is None:
                    # an inner loop took the cursor over and moved it
                    dst=g.preds[0].d["dst"]
                    if dst[0]!="cell" or c.mid is not None: raise Unsupported("loop: cursor lost")
                    cur=st.heap.get(dst[1].base.get_id()); off=E.const_off(st,dst[1].off)
                    if cur is None or off is None or not(cur.kind=="pseudo" or cur.tok is not None): raise Unsupported("loop: cursor lost")
                    po=Obj(c.P.base,None,"cursor cell","pseudo"); st.heap[c.P.base.get_id()]=po
                    d=dict(g.preds[0].d); d["dst"]=("cell",c.P); g.preds[0]=Pred(g.preds[0].kind,8,d,g.preds[0].ro)
                while not(v.base.eq(cur.base) and E.const_off(st,v.off)==off):
                    cell=cur.cells.get(off)
                    if cell is None: raise Unsupported("loop: cursor moved in an unknown way")
                    q=cell[1]; x=st.heap.get(q.base.get_id()) if isinstance(q,Ptr) else None
                    if x is None or 0 not in x.cells or x.tok is None: raise Unsupported("loop: cursor moved in an unknown way")
                    E.oblige(st,z3.And(veq(x.tok[0],g.preds[0].d["al"]) if isinstance(g.preds[0].d["al"],Ptr) else TRUE,x.tok[1]==NODE),"list node belongs to the recorded allocator")
                    e=lk.snoc(E,st,g.preds[0].d,x.cells[0][1],x)
                    if e is None: raise Unsupported("loop: list element not restored")
                    e["al"]=x.tok[0] if g.preds[0].d.get("al") is None else g.preds[0].d["al"]; e["src"]=g.preds[0].d["src"]; e["dst"]=g.preds[0].d["dst"]; g.preds[0]=Pred(g.preds[0].kind,8,e,False)
                    x.cells.pop(0,None)
                    if cur is not po: drop(st,cur)
                    cur=x; off=8
                if c.mid is not None:
                    m=find_pre(st,cur.base,off)
                    if m is None or not pinned(st,m): raise Unsupported("loop: list up to the kept cursor was changed")
                    q=m.preds[0]; d=dict(q.d); d["src"]=(c.P.base,0); drop(st,m)
                    m=Obj(c.mid,None,"passed","ghost"); m.preds[0]=Pred(q.kind,8,d,q.ro); st.heap[c.mid.get_id()]=m
                    if cur is not po: drop(st,cur)
                    po.cells.clear(); po.preds.clear(); env[c.ph]=c.P; s.subs.append((c.P.base,fresh("curb"))); continue
                t=lk.tail_fold(E,st,cur,off,g.preds[0].d["al"])
                if t is None: raise Unsupported("loop: list at the cursor cannot be folded")
                if cur is not po: drop(st,cur)
                po.cells.pop(0,None); po.preds.clear(); po.preds[0]=t
                env[c.ph]=c.P; s.subs.append((c.P.base,fresh("curb")))
            else:
                if not c.ro:
                    g=st.heap.get(c.g.get_id())
                    if g is None: raise Unsupported("loop: list before the cursor was changed")
                    b=c.Q; k=0
                    while not v.base.eq(b):
                        x=st.heap.get(b.get_id())
                        if x is None or 0 not in x.cells or x.tok is None or k>8: raise Unsupported("loop: cursor moved in an unknown way")
                        e=lk.snoc(E,st,g.preds[0].d,x.cells[0][1],x)
                        if e is None: raise Unsupported("loop: list element not restored")
                        e["al"]=g.preds[0].d["al"]; e["src"]=g.preds[0].d["src"]; e["dst"]=g.preds[0].d["dst"]; g.preds[0]=Pred(g.preds[0].kind,8,e,False)
                        if 8 not in x.cells or not isinstance(x.cells[8][1],Ptr): raise Unsupported("loop: cursor moved in an unknown way")
                        b=x.cells[8][1].base; drop(st,x); k+=1
                d=lk.take_seg(E,st,v,None)
                if d is None: raise Unsupported("loop: list at the cursor cannot be folded")
                h=hs.heap[c.Q.get_id()].preds[0].d
                if d.get("al") is None: d["al"]=h["al"]
                y=Obj(c.Q,I(NODE),"list at the cursor","seg"); y.ro=c.ro; y.preds[0]=Pred("seg_"+lk.name,NODE,d,c.ro)
                st.heap[c.Q.get_id()]=y
                env[c.ph]=Ptr(c.Q,ZERO); s.subs.append((c.Q,v.base))
        # a local list head made inside the body is gone at the next iteration
        for k,h in hs.heap.items():
            if h.kind!="alloca" or h.cells or h.preds or h.arr is not None or find_pre(hs,h.base,0) is not None: continue
            o=st.heap.get(k)
            if o is None: continue
            if s.local_cell(o,0) or find_pre(st,o.base,0) is not None: 
                if lk.tail_fold(E,st,o,0) is None: continue
            q=o.preds.get(0)
            if q is None or q.kind!="tail_"+lk.name: continue
            E.oblige(st,lk.n(q.d)==0,"no storage is lost (%s)"%o.name); o.preds.clear(); o.cells.clear()
        # nothing that survives the iteration may still name the old cursor position
        old={(c.P.base if c.kind=="cell" else c.Q).get_id() for c in s.cur}
        if old:
            own={c.ph for c in s.cur}
            def bad(v):
                for t in([v.base,v.off] if isinstance(v,Ptr) else [v] if isinstance(v,z3.ExprRef) else []):
                    if old & set(consts(t)): return True
                return False
            for k,v in env.items():
                if k not in own and bad(v): raise Unsupported("loop keeps an old cursor position")
            for o in st.heap.values():
                if o.base.get_id() not in hs.heap or o.ro or o.base.get_id() in old: continue
                for k,(w,v) in list(o.cells.items()):
                    if o.kind=="alloca" and k not in hs.heap[o.base.get_id()].cells and bad(v): del o.cells[k]; continue   # a local first written in the body
                    if bad(v): raise Unsupported("loop keeps an old cursor position in memory (%s)"%o.name)
                for q in o.preds.values():
                    for f,v in q.d.items():
                        if bad(v): raise Unsupported("loop keeps an old cursor position in memory (%s)"%o.name)
        return st,env
    def owns(s,o): return o.ro and o.kind in("node","seg","heap","term") and not any(c.kind!="cell" and c.Q.eq(o.base) for c in s.cur)
    def back_subst(s,st): return list(s.subs)
    def init_subst(s): return list(s.inits)
    def candidates(s,hs,n,syms,bk):
        out=[]; lk=s.lk
        for o in hs.heap.values():
            for off,q in o.preds.items():
                if q.kind=="tail_"+lk.name and off+8 in o.cells and isinstance(o.cells[off+8][1],z3.ExprRef): out.append(o.cells[off+8][1]==lk.n(q.d))
        for c in s.cur:
            if c.kind!="cell" or c.mid is not None: continue
            for o in hs.heap.values():
                for k in [k for k in o.cells if find_pre(hs,o.base,k-8) is not None]:
                    b,off=o.base,k-8; e=None; v=o.cells[k][1]
                    while isinstance(v,z3.ExprRef):
                        g=find_pre(hs,b,off)
                        if g is None: break
                        d=g.preds[0].d; e=lk.n(d) if e is None else e+lk.n(d)
                        if d["dst"][0]!="cell": e=None; break
                        b,off=d["dst"][1].base,d["dst"][1].off.as_long()
                    x=hs.heap.get(b.get_id()); q=x.preds.get(off) if x is not None else None
                    if e is not None and q is not None and q.kind=="tail_"+lk.name: out.append(v==e+lk.n(q.d))
            g=hs.heap.get(c.g.get_id())
            if g is None: continue
            b,off=g.preds[0].d["src"]
            for o in hs.heap.values():
                if o.base.eq(b) and off+8 in o.cells and isinstance(o.cells[off+8][1],z3.ExprRef):
                    out.append(o.cells[off+8][1]==lk.n(g.preds[0].d)+lk.n(hs.heap[c.P.base.get_id()].preds[0].d))
        return out+lk.candidates(s,hs,n,bk,syms)
    def final_back(s,st,env): pass
    def rest(s,st):
        r=[s.lk.n(st.heap[(c.Q if c.kind!="cell" else c.P.base if c.mid is None else c.mid).get_id()].preds[0].d) for c in s.cur]
        own={(c.P.base if c.kind=="cell" else c.Q).get_id() for c in s.cur}
        for k in s.tails: r.append(s.lk.n(st.heap[k[0]].preds[k[1]].d))
        return r
    def terminates(s,hs,outs,incoming):
        """the lists after the cursors get shorter (in sum, or one of them) on every iteration"""
        E=s.E; rec=E.record; E.record=False
        s.tails=[]
        own={(c.P.base if c.kind=="cell" else c.Q).get_id() for c in s.cur}
        for k,o in hs.heap.items():
            if k not in own: s.tails+=[(k,off) for off,q in o.preds.items() if q.kind in("tail_"+s.lk.name,"list_"+s.lk.name)+s.lk.holders]
        if not s.cur and not s.tails: return False
        try:
            old=s.rest(hs); ok=[True]*(len(old)+1)
            for kind,st,b,p in outs:
                if kind!="back": continue
                st2=st.copy(); st2,_=s.fold_back(st2,incoming(st2,p),hs)
                from .loops import refold
                refold(E,hs,st2,s)
                if E.verbose>1: print("   termination",s.tails,[(k,list(st2.heap[k].preds) if k in st2.heap else None) for k,_ in s.tails])
                if any(k not in st2.heap or off not in st2.heap[k].preds for k,off in s.tails): return False
                new=s.rest(st2)
                for k in range(len(ok)):
                    if ok[k]: ok[k]=E.proves(st2,(sum(new)<sum(old)) if k==len(old) else new[k]<old[k],timeout=E.cand_timeout)
                if not any(ok): return False
            return True
        finally: E.record=rec

class ListEngine(Engine):
    """engine with one list element kind"""
    lk=None
    def loop_abstraction(s,st0,cfg,L,init): return ListLoop(s,s.lk,cfg,L)
    def unfold_at(s,st,o,off,w,write):
        g=find_pre(st,o.base,off)
        if g is not None and pinned(st,g) and s.proves(st,s.lk.n(g.preds[0].d)>0): expand_pre(s,st,s.lk,o,off,g); return
        if g is not None:
            if s.lk.tail_fold(s,st,o,off) is None: raise Unsupported("access to a list that is being traversed")
        Engine.unfold_at(s,st,o,off,w,write)
    def icmp(s,st,pred,a,b,ty):
        if isinstance(a,Ptr) and isinstance(b,Ptr) and pred in("eq","ne") and not isnull(a) and not isnull(b) and not same(a.base,b.base):
            for p in(a,b):
                o=st.heap.get(p.base.get_id())
                if o is not None and o.kind=="pseudo":
                    r=s.cursor_eq(st,a,b)
                    return simp(r if pred=="eq" else z3.Not(r))
        return Engine.icmp(s,st,pred,a,b,ty)
    def cursor_eq(s,st,a,b):
        for x,y in((a,b),(b,a)):
            k=s.const_off(st,x.off); g=find_pre(st,x.base,k) if k is not None else None
            if g is not None:
                d=g.preds[0].d
                if d["dst"][0]=="cell" and vsame(d["dst"][1],y): return s.lk.n(d)==0
        return fresh("cureq",BOOL)
    def obj(s,st,p,must=True):
        o=Engine.obj(s,st,p,must)
        if o is not None and o.kind=="pseudo" and o.name!=PIN:
            g=find_pre(st,o.base,0)
            if g is not None and pinned(st,g) and s.proves(st,s.lk.n(g.preds[0].d)==0):
                # the cursor has arrived at the kept one: the same cell
                P=g.preds[0].d["dst"][1]; old=o.base
                ren=lambda v: Ptr(P.base,simp(P.off+v.off)) if isinstance(v,Ptr) and v.base.eq(old) else v
                drop(st,g); drop(st,o)
                for k,v in list(st.env.items()):
                    v2=ren(v)
                    if v2 is not v: st.env[k]=v2
                for x in st.heap.values():
                    for k,(w,v) in list(x.cells.items()):
                        v2=ren(v)
                        if v2 is not v: x.cells[k]=(w,v2)
                    if x.kind=="ghost":
                        q=x.preds[0]; d=dict(q.d)
                        if d["dst"][0]=="cell": d["dst"]=("cell",ren(d["dst"][1]))
                        x.preds[0]=Pred(q.kind,q.size,d,q.ro)
                return st.heap[P.base.get_id()]
        return o
