#include "common.h"
#include <gmp.h>
#include "zint.h"
#include "util/integer.h"
using namespace GInv; using namespace H;
static std::string s(const Integer& a) { return a.get_str(16); }
static void eq(const Integer& a, const Z& z, const char* what) { CHECK(s(a)==z.str(), what << ": is " << s(a) << ", expected " << z.str());
  CHECK(a.isZero()==(mpz_sgn(z.z)==0), what << ": isZero"); CHECK(a.isOne()==(mpz_cmp_ui(z.z,1)==0), what << ": isOne"); CHECK(a.isAbsOne()==(mpz_cmpabs_ui(z.z,1)==0), what << ": isAbsOne");
  CHECK((a.sgn()>0)==(mpz_sgn(z.z)>0) && (a.sgn()<0)==(mpz_sgn(z.z)<0), what << ": sgn"); CHECK(a.norm()==(int)mpz_size(z.z), what << ": norm " << a.norm()); }
static void two(const Z& a,const Z& b,const Z& t) {
  begin("a="+a.lit()+" b="+b.lit()+" t="+t.lit()); Z r; Allocator al,al2; {
  Integer A(&al,a.lit().c_str()),B(&al,b.lit().c_str()); eq(A,a,"a from text"); eq(B,b,"b from text");
  for(int k=0;k<11;k++) {
    Integer x(&al2,A), y(&al2,t.lit().c_str()); bool zero=mpz_sgn(a.z)==0||mpz_sgn(b.z)==0;
    bool bz=mpz_sgn(b.z)==0; bool dv=!bz && mpz_divisible_p(a.z,b.z);
    switch(k) {
    case 0: mpz_add(r.z,a.z,b.z); x.add(B); y.add(A,B); break;
    case 1: mpz_sub(r.z,a.z,b.z); x.sub(B); y.sub(A,B); break;
    case 2: mpz_mul(r.z,a.z,b.z); x.mult(B); y.mult(A,B); break;
    case 3: if (!bz) CHECK(A.divisible(B)==dv,"divisible"); if (!dv) continue; mpz_divexact(r.z,a.z,b.z); x.div(B); y.div(A,B); break;
    case 4: if (zero) continue; mpz_gcd(r.z,a.z,b.z); x.gcd(B); y.gcd(A,B); break;
    case 5: r=b; x=B; y=B; break;
    case 6: mpz_neg(r.z,a.z); x.set_neg(); y=x; break;
    case 7: { r=b; Integer z(&al2,B); x.swap(z); eq(z,a,"swapped, other"); Integer w(std::move(x)); eq(w,b,"moved"); y=std::move(w); Integer v(&al2,y); x=std::move(v); break; }
    case 8: { long q=mpz_get_si(a.z); mpz_set_si(r.z,q); x.set_si(q); y.set_si(q); break; }
    case 9: { unsigned long q=mpz_get_ui(a.z); mpz_set_ui(r.z,q); x.set_ui(q); y.set_ui(q); break; }
    case 10: { Integer z(&al2); eq(z,Z(),"default"); mpz_add(r.z,a.z,a.z); x.add(x); y=x; Integer w(&al2,A); Z q; mpz_mul(q.z,a.z,a.z); w.mult(w); eq(w,q,"square"); w=A; w.sub(w); eq(w,Z(),"a-a"); break; }
    }
    char nm[16]; snprintf(nm,16,"op %d",k); eq(x,r,nm); eq(y,r,nm);
    x.mult(B); Z rr; mpz_mul(rr.z,r.z,b.z); eq(x,rr,"product of the result");
    eq(A,a,"operand a afterwards"); eq(B,b,"operand b afterwards");
  }
  CHECK(live_blocks(&al2)==0,"storage left in use by destroyed integers"); CHECK(al2.size()==0,"used size " << al2.size()); }
  CHECK(al.size()==0,"used size " << al.size());
}
TEST(C17) {
  std::vector<std::string> p; const char* sm[]={"0","1","-1","2","-3","6","0x7fffffffffffffff","0xffffffffffffffff","-0xffffffffffffffff","0x10000000000000000","-0x8000000000000000","0xffffffffffffffffffffffffffffffff","0x100000000000000000000000000000000","-0xfffffffffffffffe0000000000000001","0x1000000000000000000000000000000000000000000000000"};
  std::vector<Z> v; for(auto x: sm) v.push_back(Z(x[0]=='-'?std::string(x):std::string(x)));
  for(auto& a: v) for(auto& b: v) for(int k=0;k<3;k++) { if (!time_left()) return; two(a,b,v[(k*5+g_cases)%v.size()]); }
  gmp_randstate_t rs; gmp_randinit_default(rs); gmp_randseed_ui(rs,g_seed); Rng r(g_seed);
  auto rnd=[&]() { Z z; int bits=r(3)==0?64*r.range(0,5)+r.range(-1,1):r.range(0,400); if (bits<0) bits=0; if (r(2)) mpz_urandomb(z.z,rs,bits); else mpz_rrandomb(z.z,rs,bits?bits:1); if (r(2)) mpz_neg(z.z,z.z); return z; };
  while(time_left() && g_cases<300000) { Z a=rnd(),b=rnd(),t=rnd(); if (r(3)==0) mpz_mul(a.z,a.z,b.z); if (r(5)==0) { Z c=rnd(); mpz_mul(a.z,a.z,c.z); mpz_mul(b.z,b.z,c.z); } if (r(9)==0) mpz_neg(b.z,a.z); two(a,b,t); }
}
