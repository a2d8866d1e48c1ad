"""Shared specification vocabulary: sums, lemmas, allocator contracts."""
import z3
from vcgen.sym import *
from vcgen.contract import Contract,Ctx,NS,Kind
from vcgen.loops import PSUM,J
from vcgen import ir
CON={}            # demangled name -> Contract
KINDS={}
LEMMAS={}         # name -> function returning list of (label, assumptions, goal)
def con(name,**k):
    def d(fs):
        pre,post=fs()
        CON[name]=Contract(name,pre,post,**k); return CON[name]
    return d
HOME=[None]       # group whose check verifies the contracts being declared
def contract(name,pre,post,**k):
    c=Contract(name,pre,post,**k); c.home=None if c.trusted else HOME[0]; CON[name]=c; return c

def forall(lo,hi,f,pat=None):
    """for all lo<=j<hi: f(j)"""
    j=z3.Int("j!s")
    b=z3.Implies(z3.And(j>=lo,j<hi),f(j))
    return z3.ForAll([j],b,patterns=pat(j)) if pat else z3.ForAll([j],b)
def PS(a,h): return PSUM(a,ZERO,h)

# ---- sum lemmas (each proved by induction on h in lemma_proofs)
def L_lin(R,terms,h,pts=()):
    """(all j<h: R[j]=sum c*A[j] (+ [j==v])) -> PS(R,h)=sum c*PS(A,h) (+ number of points v in [0,h))"""
    def body(j):
        e=sum([c*A[j] for c,A in terms],ZERO)
        for v in pts: e=e+z3.If(j==v,I(1),ZERO)
        return R[j]==e
    rhs=sum([c*PS(A,h) for c,A in terms],ZERO)
    for v in pts: rhs=rhs+z3.If(z3.And(0<=v,v<h),I(1),ZERO)
    return z3.Implies(z3.And(h>=0,forall(ZERO,h,body)),PS(R,h)==rhs)
def L_aff(R,c,A,k,h):
    """(all j<h: R[j]=c*A[j]+k) -> PS(R,h)=c*PS(A,h)+k*h"""
    return z3.Implies(z3.And(h>=0,forall(ZERO,h,lambda j:R[j]==c*A[j]+k)),PS(R,h)==c*PS(A,h)+k*h)
AFF=[(-1,1),(-1,0),(1,-1),(1,1)]
def L_zero(A,h):
    """nonnegative entries: the sum is >=0, and 0 only if all entries are 0"""
    return z3.Implies(z3.And(h>=0,forall(ZERO,h,lambda j:A[j]>=0)),z3.And(PS(A,h)>=0,z3.Implies(PS(A,h)==0,forall(ZERO,h,lambda j:A[j]==0))))
def psum_def(A,h): return z3.And(PS(A,ZERO)==0,z3.Implies(h>=0,PS(A,h+1)==PS(A,h)+A[h]))
def lemma_sums():
    R,A,B=[z3.Const(x,ARR) for x in "RAB"]; h,c,d,v=z3.Ints("h c d v")
    out=[]
    def ind(name,F,arrs):
        base=[PS(a,ZERO)==0 for a in arrs]; step=[psum_def(a,h) for a in arrs]
        out.append((name+" (base)",base,F(ZERO)))
        out.append((name+" (step)",[h>=0,F(h)]+step,F(h+1)))
    ind("sum of a linear combination",lambda h:L_lin(R,[(c,A),(d,B)],h),[R,A,B])
    ind("sum of a vector plus a unit vector",lambda h:L_lin(R,[(I(1),A)],h,[v]),[R,A])
    ind("sum of a multiple",lambda h:L_lin(R,[(c,A)],h),[R,A])
    for q,k in AFF: ind("sum of %d times a vector plus %d"%(q,k),lambda h:L_aff(R,I(q),A,I(k),h),[R,A])
    ind("sum of zeros, or a unit vector",lambda h:L_lin(R,[],h,[v]),[R])
    ind("sum of zeros",lambda h:L_lin(R,[],h),[R])
    ind("non-negative sum is zero only if all are zero",lambda h:L_zero(A,h),[A])
    return out
LEMMAS["sums"]=lemma_sums

# ---- allocator
A_ALLOC="GInv::Allocator::allocate(unsigned long)"
A_FREE="GInv::Allocator::deallocate(void const*, unsigned long)"
def _al_pre(c,this,n):
    c.req(n>0,"allocation of at least one byte"); return NS(this=this,n=n)
def _al_post(c,o,r):
    if c.give:
        p=Ptr(fresh("blk"),ZERO)
        ob=c.E.new_obj(c.st,o.n,"block(line %s)"%c.E.line,"heap",base=p.base); c.st.assume(p.base>0)
        ob.tok=(o.this,o.n); ob.raw=not isint(simp(o.n)); ob.size=simp(o.n)
        return p
def _fr_pre(c,this,p,n):
    o=c.E.obj(c.st,p)
    c.take_block(o,p,n,this)
    return NS()
def _fr_post(c,o,r): pass
contract(A_ALLOC,_al_pre,_al_post); contract(A_FREE,_fr_pre,_fr_post)
