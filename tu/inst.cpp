// Instantiates the templates and inline functions of /repo that the contracts are about.
// Contains no logic of its own: only explicit instantiations and uses.
#include "util/allocator.h"
#include "ginv/monom.h"
#include "ginv/poly.h"
#include "util/integer.h"
#include <type_traits>
#include "util/stack.h"
#include "util/list.h"
using namespace GInv;
void vc_use_monom(Monom& a, Monom& b) {
  Monom c(static_cast<Monom&&>(a));
  b=static_cast<Monom&&>(c);
}
int vc_use_poly(Poly& a, Poly& b, const Monom& x, const Monom& y) {
  Poly c(static_cast<Poly&&>(a));
  Poly d(b);
  Poly e(Poly::TOP | Poly::lex, 3);
  return c.cmp(x, y) + d.order() + e.size();
}
void vc_use_integer(Allocator* al, Integer& a, Integer& b) {
  Integer c(static_cast<Integer&&>(a)), d(al), e(al, b);
  b=static_cast<Integer&&>(c);
  b=d;
  b.set_si(a.sgn()); b.set_ui(a.norm()); b.set_neg(); b.swap(a);
  if (a.isZero() || a.isOne() || a.isAbsOne() || a.divisible(b)) b=e;
}
template class GInv::Stack<int>;
template class GInv::List<int>;
void vc_use_list(List<int>& a, List<int>& b) {
  List<int> c(static_cast<List<int>&&>(a));
  b=static_cast<List<int>&&>(c);
}
#include "ginv/wrap.h"
int vc_use_wrap(const Monom& m, Wrap& w) {
  Wrap a(m), b(a), c(0, &a);
  a.update(m); a.clearNM(); a.setNM(0); a.setNMd(0); a.setBuild(0);
  return a.lm().degree() + a.ansector().degree() + a.isGB() + a.multi() + a.NM(0) + a.NMd(0) + a.build(0);
}
#include "util/randpermutation.h"
struct VcGen { typedef unsigned result_type; static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return 0xffffffffu; } unsigned operator()(); };
int vc_use_perm(RandPermutation& p, VcGen& g) { RandPermutation q(p.size()); p.next(g); return p[0] + q[0]; }
size_t vc_use_allocator(Allocator& x) { Allocator a; Allocator b(a); a.swap(x); a.deallocate(a.allocate(8), 8); return a.alloc() + a.size() + Allocator::maxMemory() + Allocator::currMemory(); }
#include "util/hilbertpoly.h"
int vc_use_hilbert(HilbertPoly& x) { HilbertPoly a, b(3); a.setDim(2); return a.dim() + b.isZero(0); }
template <class G, class T> void vc_gc(G& x, const T& t) { G a(t), b(x); a=x; a.swap(b); a.reallocate(); }
void vc_use_gc(GC<Monom>& m, GC<Integer>& z, GC<List<int> >& l) { vc_gc(m, static_cast<const Monom&>(m)); vc_gc(z, static_cast<const Integer&>(z)); vc_gc(l, static_cast<const List<int>&>(l)); GC<Integer> z0; GC<List<int> > l0; }
#include "util/rbtree.h"
int vc_cmp(const int, const int);
template class GInv::RBTree<int, vc_cmp>;
void vc_use_rbtree(RBTree<int, vc_cmp>& a, Allocator* al) { RBTree<int, vc_cmp> b(a, al), c(static_cast<RBTree<int, vc_cmp>&&>(b)), d(al); }
#include "ginv/janet.h"
int vc_use_janet(Janet& a, Allocator* al) { Janet b(al), c(al, a); return c.size() + bool(b.begin()); }
