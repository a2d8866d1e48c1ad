#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long texts stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                   observe_at=observe or [])))

p("C01","Monomial construction and arithmetic are exact and keep the degree consistent",
 "Building a monomial (unit, single variable, copy, copy times a variable, product, power, random, permutation), multiplying in place, multiplying by a variable, dividing by a divisor, assigning, moving and swapping give for every variable exactly the exponent that the mathematical operation prescribes, and the recorded total degree always equals the sum of the exponents. The module position of the result is the position of the factor that has one (none if neither has; a quotient of two monomials of the same position has none). Operands are left unchanged.",
 ["inputs"],"for every number of variables >= 1, all non-negative exponent vectors whose sums fit the machine integer, and all positions that the operation accepts",
 "The monomial unit tests are commented out upstream; the running tests reach a few random 4-10 variable vectors without positions only indirectly.",
 ["ginv/monom.h","ginv/monom.cpp"],
 [("Monom constructors, mult, div, operator=, swap, permutation","ginv/monom.cpp")],
 [("mDegree","sum of the exponents","ginv/monom.h"),("mVariables","exponent vector","ginv/monom.h"),("mPos","module position, -1 for none","ginv/monom.h")],
 ["Monom::degree()","Monom::operator[]","Monom::pos()"])
p("C02","Monomial divisibility, equality, gcd and lcm degrees are decided correctly",
 "One monomial is reported divisible by another exactly when every exponent is at least the divisor's and the divisor has no position or the same position. Two monomials compare equal exactly when they have the same position and the same exponents. The reported gcd (lcm) degree of two monomials is the sum over the variables of the smaller (larger) exponent.",
 ["inputs"],"for all pairs of monomials in the same variables, any number of variables >= 1, including pairs that differ in one variable or only in position",
 "The unit tests for monomials are not compiled; no running test compares an answer with the definition.",
 ["ginv/monom.h","ginv/monom.cpp"],
 [("Monom::divisiable, operator==, gcd, lcm","ginv/monom.cpp")],None,["return values"])
p("C03","The three monomial comparisons are admissible orders, also against products",
 "Each of the lexicographic, degree and anti-degree comparisons returns +1, 0 or -1, is antisymmetric and transitive, returns 0 exactly for equal exponent vectors, and is unchanged when both sides are multiplied by a common monomial; the lexicographic and degree ones rank the unit lowest. Lexicographic decides by the first differing exponent (larger wins); the degree order by total degree (larger wins) and then by the last differing exponent (smaller wins); the anti-degree order by total degree (smaller wins) and then like lexicographic. Comparing a monomial with a pair of monomials gives exactly the comparison with their product, without forming it.",
 ["inputs"],"for all monomials in any number of variables >= 1 (pairs, triples, and pairs shifted by a common factor)",
 "Antisymmetry, transitivity and compatibility quantify over all triples; the running tests use the orders only through one Groebner example.",
 ["ginv/monom.h","ginv/monom.cpp"],
 [("Monom::lex/deglex/alex with one and two arguments","ginv/monom.cpp")],None,["return values"])
p("C04","A polynomial compares terms by the order and position rule it was created with",
 "The order code given at creation selects lexicographic, degree or anti-degree comparison together with term-over-position (position breaks ties, larger position is greater) or position-over-term (position decides first, larger position is greater). Comparing a term with a product of two terms, at most one of which has a position, gives exactly the comparison with the formed product including its position. Copying, assigning, moving and swapping polynomials carry the order along.",
 ["inputs","configurations"],"for every one of the six valid order codes, all monomials and all positions >= -1",
 "Running tests use one order code and no module positions.",
 ["ginv/poly.h","ginv/poly.cpp"],
 [("Poly::setOrder and the twelve comparators","ginv/poly.cpp"),("Poly copy/assign/swap","ginv/poly.cpp")],
 [("mCmp1, mCmp2, mOrder","selected comparators","ginv/poly.h")],["Poly::cmp","PolyInt::cmp"])
p("C05","Polynomial sums, differences and integer operands are exact and canonical",
 "Adding or subtracting a polynomial, negating, and adding, subtracting or multiplying by an integer given as a string produce the mathematically exact polynomial over the integers, for every monomial's coefficient. The result is canonical: terms strictly decrease in the polynomial's order and no coefficient is zero. The other operand is not changed, and operands sharing monomials, cancelling completely or being the zero polynomial are handled (adding or subtracting an integer needs a non-zero polynomial).",
 ["inputs"],"for all pairs of canonical polynomials of any length, size and order, arbitrary-precision coefficients, all integers",
 "poly_int unit tests are not compiled upstream (merge markers); the three that run exercise one build, not ring identities.",
 ["ginv/poly_int.h","ginv/poly_int.cpp"],
 [("PolyInt::add, sub, minus, mult(const char*)","ginv/poly_int.cpp")],
 [("mHead","term list, strictly decreasing, no zero coefficient","ginv/poly_int.h")],["PolyInt iteration"])
p("C06","Polynomial products and powers are exact and canonical",
 "Multiplying two polynomials gives the exact product over the integers, with terms strictly decreasing in the order and no zero coefficients, and does not change the other factor; a product with the zero polynomial is zero. Raising a non-zero polynomial to a non-negative power gives the repeated product, and the zeroth power is one.",
 ["inputs"],"for all canonical polynomials of any length in every global or local order, including single-term factors and cancelling products; at most one factor has module positions",
 "The product has several cases by operand length and cancellation; no running test compares a product with its definition.",
 ["ginv/poly_int.h","ginv/poly_int.cpp"],
 [("PolyInt::mult(const PolyInt&), pow","ginv/poly_int.cpp")],None,["PolyInt iteration"])
p("C07","One reduction step is exact, cancels the chosen term and stays canonical",
 "Reducing a polynomial f by g at the leading term or at a tail term whose monomial the leading monomial of g divides replaces f by k1*f + k2*t*g, where t is the quotient monomial and k1, k2 are the coprime integers that cancel the chosen term (k1 being the leading coefficient of g divided by the gcd). The result is canonical, no longer contains the cancelled monomial, g is unchanged, and every monomial above the cancelled one keeps its coefficient times k1.",
 ["inputs"],"for all canonical f, g, all orders, module positions, and all positions of the reduced term in f",
 "Only full basis computations run in the tests, so an inexact step that still ends in a plausible basis goes unnoticed.",
 ["ginv/poly_int.h","ginv/poly_int.cpp"],
 [("PolyInt::reduction, redTail, redMaybe","ginv/poly_int.cpp")],None,["PolyInt iteration"])
p("C08","Normal forms are irreducible and congruent to a multiple of the input",
 "When the head normal form with respect to a set of reducers with a lookup returns, the result is zero or its leading monomial has no reducer according to the lookup; when the tail normal form returns, no non-leading monomial has one and the leading monomial is unchanged. The result is a non-zero integer multiple of the input plus a combination of the reducers that were used, the number returned is the number of reductions performed, and the test for being in tail normal form agrees with this.",
 ["inputs"],"for all polynomials and all reducer sets whose lookup returns only polynomials with dividing leading monomials",
 "The loop must be right for every reducer sequence; tests see one.",
 ["ginv/poly_int.h"],
 [("PolyInt::nf, nfTail, isNf","ginv/poly_int.h")],None,["PolyInt iteration","return value"])
p("C09","Primitive part divides out exactly the content",
 "Making a polynomial primitive divides every coefficient by one common divisor (positive when there are two or more terms; a single negative term may lose its sign), keeps all monomials and their order, and leaves coefficients whose greatest common divisor is one. The primitivity test answers yes exactly when the gcd of the coefficients is one (and for zero), and does not change the polynomial.",
 ["inputs"],"for all canonical polynomials, any number of terms and any coefficient sizes and signs",
 "Requires all coefficient combinations, in particular early exits at any term.",
 ["ginv/poly_int.cpp"],[("PolyInt::pp, isPp","ginv/poly_int.cpp")],None,["PolyInt iteration"])
p("C10","Polynomial copies, moves and queries are faithful and independent",
 "Copying, assigning, moving, swapping a polynomial and copying it times a variable yield exactly the same terms (with the variable's exponent one higher), in the same order, independent of the source, with the source unchanged by copies. Length, leading monomial and coefficient, degree, largest position and norm report what the term list holds.",
 ["inputs"],"for all canonical polynomials and all variables",
 "Aliasing between copies appears only under later mutation histories that tests do not try.",
 ["ginv/poly_int.h","ginv/poly_int.cpp"],[("PolyInt constructors, operator=, swap, maxPos, norm","ginv/poly_int.cpp")],None,["PolyInt iteration"])
p("C11","Every monomial, integer and polynomial operation balances its memory exactly",
 "Every operation on monomials, integers and polynomials gives back each block it took from an allocator exactly once, with the size it was taken with, to the allocator it was taken from, and never reads or writes a block after giving it back; only the blocks that make up the resulting value stay in use. Hence when a value is destroyed the allocator's used size is what it was before the value was created.",
 ["inputs","histories"],"for every operation, operand shape and operation sequence",
 "The allocator hands out memory from regions, so leaks, double releases and wrong sizes do not crash in the release build that the tests use.",
 ["util/integer.h","util/integer.cpp","ginv/monom.h","ginv/monom.cpp","ginv/poly_int.h","ginv/poly_int.cpp","util/list.h"],
 [("Allocator::allocate/deallocate pairs","util/allocator.h")],None,["Allocator::size()"])
p("C12","The region allocator hands out disjoint aligned memory and accounts exactly",
 "Every allocation returns 16-byte aligned memory of at least the requested size inside a block owned by that allocator and disjoint from every earlier allocation of that allocator. The used size grows and shrinks by the same amount for the same request size, the allocated size equals the total of the owned blocks, the global current memory is the sum over live allocators and the global maximum never falls below it. Swapping exchanges two allocators completely and destruction frees each block once.",
 ["inputs","histories"],"for all sequences of allocation sizes >= 1, releases, swaps and destructions",
 "Overlap or misaccounting depends on the exact sequence of sizes around block boundaries.",
 ["util/allocator.h","util/allocator.cpp"],
 [("Allocator::allocate, deallocate, swap, destructor","util/allocator.cpp")],
 [("mNodeSize, mNodeAlloc, mRoot","bump pointer state","util/allocator.h"),("mAlloc, mSize, sCurrMemory, sMaxMemory","accounting","util/allocator.h")],
 ["returned pointers","size(), alloc(), currMemory(), maxMemory()"])
p("C13","The linked list behaves as a mathematical sequence",
 "Every list operation (push, pop, head, inserting, deleting, unlinking and relinking at a cursor, clearing, copying, assigning, moving, swapping, iterating) has exactly the effect of that operation on a finite sequence: elements, order and reported length agree with the sequence, all other elements are untouched, and a copy is independent of its source.",
 ["inputs","histories"],"for all list contents and lengths and all cursor positions",
 "Two tests with fixed pushes; cursor operations in the middle and at the end are hardly reached.",
 ["util/list.h"],[("List and its iterators","util/list.h")],
 [("mHead, mLength, mNext","linked nodes","util/list.h")],["iteration","length()"])
p("C14","The stack is last-in first-out and survives growth",
 "Pushing and popping behave as on a mathematical stack for every positive initial capacity: the top is the last element pushed and not popped, indexing from the bottom returns the elements in push order, and growth, copying, assignment and swap preserve every element. All accesses stay within the array and the array is returned to its allocator with the size it was taken with.",
 ["inputs","histories"],"for all capacities >= 0, contents, and operation sequences",
 "Off-by-one growth errors need particular capacities.",
 ["util/stack.h"],[("Stack::push, pop, resize, operator=","util/stack.h")],[("mSize, mDeep, mArray","capacity, depth, storage","util/stack.h")],["top(), operator[], deep()"])
p("C15","The balanced tree behaves as a sorted set",
 "Insertion, removal, search, nearest smaller and nearest greater search, minimum, maximum, forward and backward iteration, clearing, copying, assignment and swap behave exactly as on a finite set sorted by the comparison function. All elements other than the one inserted or removed stay present, copies are independent of the source, and the reported count is the cardinality. Assigning from an empty tree gives an empty tree.",
 ["inputs","histories"],"for all sets of keys, all comparison functions that are total orders, and all insertion and removal sequences",
 "Removal has many structural cases; tests use a few random permutations.",
 ["util/rbtree.h"],[("RBTree","util/rbtree.h")],[("mRoot, mLeft, mRight, mParent, mKey","search tree","util/rbtree.h")],["find, iteration, length()"])
p("C16","The balanced tree keeps the red-black invariants after every operation",
 "After every insertion, removal, copy and assignment the root is black, no red node has a red child, all paths from the root to a missing child contain the same number of black nodes, and each child's parent link names its parent. Hence the height is at most twice the logarithm of the number of elements.",
 ["inputs","histories"],"for all insertion and removal sequences",
 "The self-check is an assertion that the tested release build removes.",
 ["util/rbtree.h"],[("RBTree insertFixup, deleteFixup, rotateLeft, rotateRight","util/rbtree.h")],[("mColor, mParent","colouring and parent links","util/rbtree.h")],["root(), color(), left(), right()"])
p("C17","Big integers compute exactly within storage they own",
 "Construction from another integer, from text or from machine integers, assignment, negation, sum, difference, product, exact quotient (by a non-zero divisor) and gcd (of non-zero integers) yield the exact mathematical integer for all operands, zero included, in the in-place and the two-operand form, and leave other operands unchanged. Each result fits the storage taken for it from the integer's allocator, so the arithmetic library never needs to grow memory it does not own. Predicates (zero, one, unit, sign, divisibility) agree with the value.",
 ["inputs"],"for all integers of any size and sign (non-zero where an exact division or gcd requires it)",
 "One test with small values; buffer sizing errors need operands at limb boundaries.",
 ["util/integer.h","util/integer.cpp"],[("Integer","util/integer.cpp")],[("mMpz, mAllocator","limb storage owned through the allocator","util/integer.h")],["value, get_str"])
p("C18","Hilbert polynomial arithmetic is exact",
 "Building the binomial polynomial for a and b in the variable s yields in canonical rationals exactly the coefficients of (s+a)(s+a-1)...(s+a-b+1)/b!, every higher coefficient being zero. Sum, difference and integer multiples are exact coefficient by coefficient, and the accessors report those coefficients.",
 ["inputs"],"for all dimensions, all integers a and all 0 <= b <= dimension, and arbitrary rational coefficients",
 "The tests check a handful of (a, b) pairs.",
 ["util/hilbertpoly.h","util/hilbertpoly.cpp"],[("HilbertPoly::binomial, add, sub, mult","util/hilbertpoly.cpp")],None,["operator[]"])
p("C19","Random permutations are always permutations",
 "A permutation object of any size starts as the identity, and after any number of random steps, whatever the random source returns within its contract, it contains every index exactly once. Drawing a step accesses only its own storage.",
 ["inputs","histories"],"for all sizes >= 1, all step counts and all random draws",
 "Random tests cannot cover all draws and sizes.",
 ["util/randpermutation.h","util/randpermutation.cpp"],[("RandPermutation constructor, next","util/randpermutation.h")],[("mPerm","the permutation","util/randpermutation.h")],["operator[]"])
p("C20","Search-tree lookup returns only true Janet divisors and finds them",
 "Looking up a monomial in a Janet search tree returns either nothing or an element whose monomial divides it. It returns the element that is a Janet divisor of the monomial whenever there is one, in particular every inserted element is found by its own monomial. Lookup changes nothing.",
 ["inputs","histories"],"for all non-empty sets of monomials inserted in any order such that no inserted monomial had a divisor in the tree at insertion, and all query monomials",
 "Correctness depends on the shape of the whole inserted set; the Janet tests are not compiled upstream.",
 ["ginv/janet.h","ginv/janet.cpp"],[("Janet::find, Janet::insert","ginv/janet.cpp")],[("mDeg, mNextDeg, mNextVar, mWrap","Janet tree","ginv/janet.h")],["Janet::find"])
p("C21","Copying, compacting and clearing a Janet search tree preserve its contents",
 "Copying a search tree (which compaction does) reproduces every node and element with the same structure so that all lookups agree with the original, leaves the source unchanged and takes each node once from the new allocator; destroying a tree returns each node exactly once. Swapping exchanges trees completely.",
 ["inputs"],"for all search trees of any shape",
 "No running test copies a tree.",
 ["ginv/janet.h","ginv/janet.cpp"],[("Janet copy constructor, build, clear, swap","ginv/janet.cpp")],None,["Janet::find, Janet::begin"])
p("C22","A basis element tracks its monomial, its ancestor and its flags consistently",
 "A new element has the given monomial as its own and as its ancestor and all variables multiplicative and not yet prolonged; prolonging an element by a variable yields an element whose monomial is the product with that variable, whose ancestor is the parent's, with clean flags, and marks exactly that variable as prolonged in the parent. Updating to a different monomial or position resets monomial, ancestor and flags together, updating to the same monomial changes nothing, and the number of multiplicative variables counts the clear flags.",
 ["inputs"],"for all monomials, variables and flag states",
 "Flag corruption shows only in which prolongations later happen.",
 ["ginv/wrap.h","ginv/wrap.cpp"],[("Wrap constructors, update, multi, setNM","ginv/wrap.h")],[("mNM, mNMd, mBuild","per-variable flags","ginv/wrap.h")],["accessors"])
p("C23","Compaction and ownership transfer never change a value",
 "Compacting a garbage-collected container or polynomial, or swapping two of them, preserves their values exactly, moves everything that is kept into the new allocator and releases everything in the old one.",
 ["inputs","histories"],"for all contents and allocator states",
 "Compaction triggers only on fragmentation that small tests do not reach.",
 ["util/allocator.h","ginv/poly_int.h"],[("GC::reallocate, GCPolyInt::reallocate","util/allocator.h")],None,["values before and after"])
p("C24","The polynomial basis construction yields an involutive basis of the same ideal",
 "After the basis construction finishes, every input polynomial and every non-multiplicative prolongation of a basis element reduces to zero, every basis element lies in the ideal generated by the inputs, and the construction terminates for every finite input in a global order.",
 ["inputs","histories"],"for all finite input sets",
 "Whole-algorithm correctness over all inputs; tests run three systems.",
 ["ginv/poly_int.h","ginv/poly_int.cpp"],[("JanetPolyInt::algorithmBlockTQ, algorithmTQ1, algorithmTQ2","ginv/poly_int.cpp")],None,["JanetPolyInt iteration"])
p("C25","Monomial completion yields the Janet completion of its inputs",
 "After completion, every prolongation of an element by a non-multiplicative variable has a Janet divisor in the set, the monomial ideal generated is that of the inputs, no monomial is stored twice, and a flag marks a variable non-multiplicative exactly when the Janet division does.",
 ["inputs","histories"],"for all finite sets of monomials pushed in any order",
 "The completion tests are not compiled upstream.",
 ["ginv/mcompletion.h","ginv/mcompletion.cpp","ginv/gb.h","ginv/gb.cpp"],[("MCompletion::insert, build, find; MJanet","ginv/mcompletion.cpp")],None,["MCompletion::find, T()"])
p("C26","The Python binding's operators equal the library operations they name",
 "Every arithmetic and comparison operator of the Python classes, with operands of either kind and on either side, returns the value of the mathematical operation and leaves its operands unchanged.",
 ["inputs"],"for all operands accepted by the binding",
 "Only the import of the binding is tested.",
 ["cython/ginv.pyx"],[("const_poly_int, poly_int, monom operators","cython/ginv.pyx")],None,["Python results"])
p("C27","The pure Python reference implementation agrees with the algebra it models",
 "Monomial and polynomial arithmetic, comparisons and reductions in the pure Python package are exact, canonical and leave operands unchanged, and its Janet basis is involutive.",
 ["inputs"],"for all operands",
 "Its self tests use few fixed samples.",
 ["pyginv/monomial.py","pyginv/polynomial.py","pyginv/janet.py"],[("Monom, Poly, Janet","pyginv")],None,["Python results"])
p("C28","Timers report non-negative accumulated user, system and wall-clock time",
 "Starting, continuing and stopping a timer accumulates exactly the elapsed intervals between start or continue and stop.",
 ["histories"],"for all sequences of start, continue and stop",
 "Depends on real clocks.",
 ["util/timer.h","util/timer.cpp"],[("Timer","util/timer.cpp")],None,["userTime(), realTime()"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
