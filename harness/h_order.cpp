#include "monoms.h"
#include "ginv/poly.h"
struct PP: Poly { PP(int o,int n): Poly(o,n) {} PP(const PP& a): Poly(a) {} PP(PP&& a): Poly(std::move(a)) {}
  void as(const PP& a) { Poly::operator=(a); } void mv(PP&& a) { Poly::operator=(std::move(a)); }
  int cmp2(const Monom& a,const Monom& b,const Monom& c) const { return mCmp2(a,b,c); } };
static void chk(const PP& p,int o,int n,const MV& a,const MV& b,const MV& c,const MM& A,const MM& B,const MM& C,const char* what) {
  CHECK(p.order()==o, what << ": order code"); CHECK(p.size()==n, what << ": size");
  CHECK(sgn(p.cmp(A.m,B.m))==ordspec(o,a,b.e,b.pos) && p.cmp(A.m,B.m)==sgn(p.cmp(A.m,B.m)), what << ": order " << o << " cmp(a,b) is " << p.cmp(A.m,B.m));
  if (b.pos==-1 || c.pos==-1) { int r=p.cmp2(A.m,B.m,C.m); CHECK(r==ordspec(o,a,plus(b.e,c.e),b.pos==-1?c.pos:b.pos), what << ": order " << o << " comparing a with b*c gives " << r); 
    Allocator t; { V s=plus(b.e,c.e); MV d{s,b.pos==-1?c.pos:b.pos}; MM D(&t,d); CHECK(p.cmp2(D.m,B.m,C.m)==0, what << ": order " << o << " b*c compared with the pair b,c is not 0"); CHECK(r==p.cmp(A.m,D.m), what << ": comparing with the pair and with the product differ"); } }
}
static void f(const MV& a,const MV& b,const MV& c) {
  begin("a="+str(a)+" b="+str(b)+" c="+str(c)); int n=(int)a.e.size(); Allocator al; {
  MM A(&al,a),B(&al,b),C(&al,c);
  for(int k=0;k<6;k++) { int o=ORD[k], o2=ORD[(k+1+g_cases%5)%6];
    PP p(o,n); chk(p,o,n,a,b,c,A,B,C,"created");
    if (g_cases%7==0) { PP q(p); chk(q,o,n,a,b,c,A,B,C,"copy"); PP r(o2,n+1); r.as(p); chk(r,o,n,a,b,c,A,B,C,"assigned"); PP s(o2,n+1); s.swap(p); chk(s,o,n,a,b,c,A,B,C,"swapped"); chk(p,o2,n+1,a,b,c,A,B,C,"swapped, other");
      PP t(std::move(s)); chk(t,o,n,a,b,c,A,B,C,"moved"); PP u(o2,n+1); u.mv(std::move(t)); chk(u,o,n,a,b,c,A,B,C,"move assigned"); }
  } }
}
TEST(C04) { triples(f); }
