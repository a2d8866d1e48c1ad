// Instantiates the polynomial templates and inline functions the contracts are about.
#include "ginv/poly_int.h"
using namespace GInv;
// a lookup that only the contract of nf, nfTail and isNf knows about
struct VcLookup { WrapPolyInt* find(const Monom& m) const; };
template int PolyInt::nf<VcLookup>(VcLookup&);
template int PolyInt::nfTail<VcLookup>(VcLookup&);
template bool PolyInt::isNf<VcLookup>(VcLookup&) const;
int vc_use_polyint(Allocator* al, PolyInt& a, const Monom& m, const char* s) {
  PolyInt b(al, a), c(al, 0, a), d(al, 0x11, 2), e(al, 0x11, 2, s), f(al, 0x11, m), g(static_cast<PolyInt&&>(b));
  g=a; g=static_cast<PolyInt&&>(c);
  if (a) return a.length() + a.norm() + a.maxPos() + a.degree() + a.cmp(b) + a.isZero() + a.lc().norm() + a.lm().degree();
  return d.isPp();
}
void vc_use_gcpolyint(GCPolyInt& x, const PolyInt& p) { GCPolyInt a(p), b(x), c(0, p); a.swap(x); a.reallocate(); }
void vc_use_wrappolyint(const PolyInt& p, WrapPolyInt* w) { WrapPolyInt a(p), b(0, w); a.reallocate(); }
