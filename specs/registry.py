"""Which functions, lemmas and harness tests decide which property."""
import json, os
from .common import CON, KINDS, LEMMAS
from . import monom, poly, integer, stack, lists, wrap, perm
from . import alloc, hilbert
TUS=["inst.cpp","poly.cpp"]
GROUPS={"monom":dict(contracts=CON,kinds=KINDS,level="A"),
 "integer":dict(contracts=CON,kinds=KINDS,level="A"),
 "list":dict(contracts=CON,kinds=KINDS,level="A",engine=lists.E_),
 "stack":dict(contracts=CON,kinds=KINDS,level="A"),
 "wrap":dict(contracts=CON,kinds=KINDS,level="A"),
 "perm":dict(contracts=CON,kinds=KINDS,level="A"),
 "alloc":dict(contracts=alloc.CONA,kinds=alloc.KINDA,level="A"),
 "hilbert":dict(contracts=hilbert.CONQ,kinds=hilbert.KINDQ,level="A",engine=hilbert.QEngine),
 "poly":dict(contracts=CON,kinds=KINDS,level="A"),
}
TITLE={}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")) as _f:
    for _l in _f:
        if _l.strip(): _p=json.loads(_l); TITLE[_p["id"]]=_p["title"]
ASSUMPTIONS=[
 "machine integers are treated as mathematical integers: overflow of exponents, degrees and sizes is not modelled",
 "the extraction drops assert statements (NDEBUG, as in the project's Release build) and exception paths (-fno-exceptions); allocation failure is not modelled",
 "operands of two-operand functions are distinct objects unless the contract says otherwise",
]
M="GInv::Monom::"
def names(pat): return [n for n in CON if pat(n)]
MON_H=dict(files=["h_monom.cpp"],srcs=["ginv/monom.cpp","util/timer.cpp","util/randpermutation.cpp"])
PROPS={}
def prop(pid,**k): k["title"]=TITLE[pid]; PROPS[pid]=k
C02=["GInv::operator==(GInv::Monom const&, GInv::Monom const&)",M+"divisiable(GInv::Monom const&) const",M+"gcd(GInv::Monom const&) const",M+"lcm(GInv::Monom const&) const"]
C03=[n for n in CON if n.startswith(M) and any(n.startswith(M+k+"(") for k in("lex","deglex","alex"))]
C01=[n for n in CON if n.startswith(M) and n not in C02+C03]
prop("C01",functions={"monom":C01},lemmas=["sums"],harness=MON_H)
prop("C02",functions={"monom":C02},lemmas=["sums"],harness=MON_H)
prop("C03",functions={"monom":C03},lemmas=["sums","orders"],harness=MON_H)
C04=[n for n in CON if CON[n].home=="poly"]
prop("C04",functions={"poly":C04},lemmas=["sums","orders"],harness=dict(files=["h_order.cpp"],srcs=["ginv/monom.cpp","ginv/poly.cpp","util/timer.cpp","util/randpermutation.cpp"]))
def home(h): return [n for n in CON if CON[n].home==h]
UT=["util/timer.cpp"]
prop("C17",functions={"integer":home("integer")},harness=dict(files=["h_integer.cpp"],srcs=UT+["util/integer.cpp"]),
  assumptions=["GMP's functions meet their documentation: exact results, and a result needs at most the stated number of limbs (add/sub max+1, mul sum, divexact difference+1, gcd min, set the operand's)"])
prop("C14",functions={"stack":home("stack")},harness=dict(files=["h_util.cpp"],srcs=UT,libs=("-lgmp","-lgvc","-lcgraph","-lcdt")),
  assumptions=["Stack is verified as Stack<int>: the template text is the same for every simple element type","stack sizes stay below 2^40"])
prop("C13",functions={"list":home("list")},harness=dict(files=["h_util.cpp"],srcs=UT,libs=("-lgmp","-lgvc","-lcgraph","-lcdt")),
  assumptions=["List is verified as List<int>: the template text is the same for every simple element type","list lengths stay below 2^60"])
def g(contracts,h): return [n for n in contracts if contracts[n].home==h]
MISC=dict(files=["h_misc.cpp"],srcs=["util/hilbertpoly.cpp"]+UT+["util/randpermutation.cpp"],shadow=False,libs=("-lgmp",))
prop("C12",functions={"alloc":g(alloc.CONA,"alloc")},harness=MISC,
  assumptions=["aligned_alloc, free, operator new and operator delete meet their documentation; the page size is positive","allocated and used sizes stay below 2^60"])
prop("C18",functions={"hilbert":g(hilbert.CONQ,"hilbert")},harness=MISC,slow=[hilbert.H+"binomial(long, unsigned long)"],bounded=["GInv::HilbertPoly::operator[](int) const"],
  assumptions=["GMP's rational functions meet their documentation; a product of rationals is an uninterpreted operation with an absorbing zero (the same symbol is used in the specification)"])
prop("C19",functions={"perm":g(CON,"perm")},harness=MISC,
  assumptions=["uniform_int_distribution(0, i) returns a value in 0..i; an injective map of 0..n-1 into itself contains every index exactly once (pigeonhole)"])
JAN=dict(files=["h_janet.cpp"],srcs=["ginv/monom.cpp","ginv/wrap.cpp","ginv/janet.cpp","util/hilbertpoly.cpp"]+UT+["util/randpermutation.cpp"],libs=("-lgmp","-lgvc","-lcgraph","-lcdt"))
prop("C22",functions={"wrap":g(CON,"wrap")},lemmas=["sums"],harness=JAN)
from . import polyint
GROUPS["polyint"]=dict(contracts=polyint.CONB,kinds=polyint.KINDB,level="B",engine=polyint.PolyEngine)
POLY=dict(files=["h_poly.cpp"],srcs=["ginv/monom.cpp","ginv/poly.cpp","ginv/wrap.cpp","ginv/janet.cpp","ginv/poly_int.cpp","util/integer.cpp","util/hilbertpoly.cpp"]+UT+["util/randpermutation.cpp"],libs=("-lgmp","-lgvc","-lcgraph","-lcdt"))
PB=g(polyint.CONB,"polyint"); QI=polyint.Q
PA=["polynomials are verified over the rank abstraction: monomials are elements of a totally ordered set with a compatible product (proved of the real comparisons under C03/C04)",
    "an equation of polynomials is proved as an equation of coefficient sums for an arbitrary weight of monomials","polynomial lengths stay below 2^31"]
def pick(*ks): return [n for n in PB if any(n.startswith(QI+k+"(") for k in ks)]
C05=[n for n in pick("add","sub","minus","mult") if n!=QI+"mult(GInv::PolyInt const&)"]
C06=[QI+"mult(GInv::PolyInt const&)",QI+"pow(int)"]
C10=[n for n in PB if n.startswith(QI+"PolyInt(")]+pick("operator=","swap","length","isZero","operator bool","degree","cmp","maxPos","norm","lm","lc","clear","~PolyInt")
prop("C05",functions={"polyint":C05},harness=POLY,assumptions=PA)
PAM=PA+["the product of formal sums and the powers are uninterpreted; a product is proved for an arbitrary weight as the sum over one factor's terms of the other factor's weighted multiples"]
prop("C06",functions={"polyint":C06},harness=POLY,assumptions=PAM,slow=C06,budget=600)
prop("C10",functions={"polyint":C10},harness=POLY,assumptions=PA)
C11M=[n for n in CON if CON[n].home in("monom","integer")]
MEM=r"block|storage|lost|touches|null|within|initialised|list node|end of the list|destroyed|fits|allocator|memory|array|recorded|term belongs|belong to|valid |modif"
prop("C11",functions={"polyint":PB,"monom":[n for n in C11M if CON[n].home=="monom"],"integer":[n for n in C11M if CON[n].home=="integer"]},only=MEM,harness=POLY,assumptions=PA,slow=C06+[n for n in PB if n.startswith(QI+"redTail(")],budget=600)
C07=[n for n in PB if n.startswith(QI+"redTail(")]+pick("reduction","redMaybe")
prop("C07",functions={"polyint":C07},harness=POLY,assumptions=PA,slow=C07,budget=600)
C09=pick("isPp","pp")
prop("C09",functions={"polyint":C09},harness=POLY,assumptions=PA+["the gcd of integers is an uninterpreted function with ground instances of its laws (associative, ignores signs, zero and unit cases, common factors, common divisors)"])
C08=[n for n in PB if "PolyInt::nf" in n or "isNf<" in n]
prop("C08",functions={"polyint":C08},harness=POLY,slow=[n for n in C07 if "redTail" in n or "reduction" in n]+[n for n in C08 if "nfTail" in n],budget=600,
  assumptions=PA+["the lookup returns null or a reducer with a dividing leading monomial, the same answer for the same monomial (its contract is assumed here; C20 is about the real lookup)",
   "a combination of the reducers is expressed as: for every weight that vanishes on all monomial multiples of the reducers, the result's weighted sum is the multiplier times the input's",
   "termination of the reduction loops (well-ordering of monomials) is not proved"])
from . import gc as GCS
GROUPS["gc"]=dict(contracts=GCS.CONG,kinds=GCS.KING,level="A",engine=lists.E_)
GROUPS["gcpoly"]=dict(contracts=GCS.CONP,kinds=GCS.KINP,level="B",engine=polyint.PolyEngine)
from . import rbtree
GROUPS["rbtree"]=dict(contracts=rbtree.CONH,kinds={},level="H",engine=rbtree.RBEngine)
prop("C23",functions={"gc":g(GCS.CONG,"gc"),"gcpoly":g(GCS.CONP,"gcpoly")},lemmas=["sums"],harness=POLY,
  assumptions=PA+["Allocator::isGC answers arbitrarily (both branches of every compaction are proved); the compaction timer has no effect on values",
   "GC<T> is verified for T = Monom, Integer and List<int>; the template text is the same for the other value types",
   "in WrapPolyInt the element part is abstract (its monomial and ancestor); Wrap itself is verified under C22"])
UTIL=dict(files=["h_util.cpp"],srcs=UT,libs=("-lgmp","-lgvc","-lcgraph","-lcdt"))
RBF=g(rbtree.CONH,"rbtree")
RA=["RBTree is verified as RBTree<int,cmp> for an arbitrary comparison that orders keys by a rank (cmp(a,b) has the sign of rank(a)-rank(b)); the template text is the same for every key type",
    "the invariant is stated with ghost fields (in-order position, interval, black height) that are recomputed after each change; their existence is what is proved",
    "memory is one function per node field; the allocator is abstract here: it hands out unused blocks and takes back blocks in use with their size (its own code is verified under C12)",
    "termination of the loops and of the recursion is not proved; the number of elements stays below 2^31"]
RBS=[rbtree.RB+x for x in("deleteFixup({0}Node*, {0}Node*)","insertFixup({0}Node*)","deleteNode({0}Node*)","copy({0}Node const*, GInv::Allocator*, {0}Node*)")]
RBS=[x.format(rbtree.RB) for x in RBS]
prop("C15",functions={"rbtree":RBF},only=r"^(?!.*colour)",slow=RBS,harness=UTIL,assumptions=RA)
C16=[n for n in RBF if any(n.startswith(rbtree.RB+k) for k in("rotate","insert","delete","remove","copy(","clear","operator=(","RBTree(","swap"))]
prop("C16",functions={"rbtree":C16},only=r"colour|root|links|height|loop|pivot|distinct|live node|null",slow=RBS,harness=UTIL,assumptions=RA)
from . import janet
GROUPS["janet"]=dict(contracts=janet.CONJ,kinds={},level="H",engine=janet.JanetEngine)
JA=["Janet trees are described with ghost fields (in-order position, interval, parent, variable, exponent at one arbitrary variable); memory is one function per node field; the allocator is abstract here (its own code is verified under C12)",
    "termination of the loops and of the recursion is not proved; operands do not share nodes"]
prop("C20",functions={"janet":[janet.J+"find(GInv::Monom const&) const"]},lemmas=["sums","tails"],harness=JAN,
  bounded=[janet.J+"insert(GInv::Wrap*)",janet.J+"Iterator::build(int, int, GInv::Wrap*, GInv::Allocator*)",janet.J+"ConstIterator::setNM(int)"],
  bound="all sequences of three monomials in up to 3 variables with small exponents, then seeded random sets of up to 9 monomials in up to 4 variables; every query of an enclosing box",
  note="Lookup is proved for every tree whose shape and flags are consistent and every monomial: only divisors are returned, and a Janet divisor is found. That insertion keeps shape and flags consistent is only checked by bounded concrete runs (labelled bounded in the evidence). Assumed: mathematical integers, the clang front end and the executor itself.",
  assumptions=JA+["lookup is proved for trees in which an element's flags mark a variable exactly where the tree has a greater degree (established by insertion, which is checked by bounded runs only)"])
prop("C21",functions={"janet":[n for n in g(janet.CONJ,"janet") if "find" not in n]},slow=[janet.J+"build(GInv::Janet::Node*, GInv::Allocator*)"],harness=JAN,assumptions=JA+["GC<Janet> itself is covered by the bounded runs; the template is verified for other value types under C23"])
