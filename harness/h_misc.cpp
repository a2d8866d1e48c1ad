// Region allocator (the real one), Hilbert polynomials, random permutations.
#include "common.h"
#include <gmp.h>
#include <memory>
#include <cstring>
#include <type_traits>
#include "util/allocator.h"
#include "util/hilbertpoly.h"
#include "util/randpermutation.h"
using namespace GInv; using namespace H;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
struct Blk { const char* p; size_t n; };
static Blk g_blk[1<<16]; static size_t g_nb; static bool g_on;
static void hm(const volatile void* p,size_t n) { if (g_on && n>=1024 && g_nb<(1<<16)) { g_blk[g_nb].p=(const char*)p; g_blk[g_nb].n=n; ++g_nb; } }
static void hf(const volatile void* p) { if (!g_on) return; for(size_t i=0;i<g_nb;i++) if (g_blk[i].p==(const char*)p) { g_blk[i]=g_blk[--g_nb]; return; } }
struct Rec { char* p; size_t n; bool live; unsigned char tag; };
struct Al { std::unique_ptr<Allocator> a; std::vector<Rec> r; size_t used; };
static void c12(Rng& r,int steps) {
  std::vector<Al> v(3); size_t base=Allocator::currMemory(); g_nb=0; std::map<size_t,size_t> cost;
  auto chk=[&](const char* w) {
    size_t sum=0; for(auto& x: v) if (x.a) { sum+=x.a->alloc(); CHECK(x.a->size()==x.used, w << ": used size is " << x.a->size() << ", expected " << x.used); CHECK(x.a->alloc()>=x.a->size(), w << ": allocated size below the used size"); }
    CHECK(Allocator::currMemory()==base+sum, w << ": current memory is " << Allocator::currMemory()-base << ", live allocators own " << sum); CHECK(Allocator::maxMemory()>=Allocator::currMemory(), w << ": maximum below the current memory");
    size_t own=0; for(size_t i=0;i<g_nb;i++) own+=g_blk[i].n; CHECK(own==sum, w << ": blocks taken from the system add up to " << own << ", the allocators report " << sum); };
  std::string log; size_t mx=Allocator::maxMemory();
  for(int s=0;s<steps;s++) {
    int k=r(3); Al& x=v[k]; if (!x.a) { int c=r(6); g_on=true; if (c==0 && v[(k+1)%3].a) x.a.reset(new Allocator(*v[(k+1)%3].a)); else x.a.reset(new Allocator); g_on=false; x.used=0; x.r.clear(); log+="new "+std::to_string(k)+" "; g_case=log; if (c!=0) CHECK(x.a->alloc()==0 && x.a->size()==0,"a new allocator is not empty"); chk("new"); }
    int op=r(20);
    if (op<12) { size_t n=r(4)==0?(size_t)r.range(3900,4400):r(9)==0?(size_t)r.range(1,40000):(size_t)r.range(1,200); log+="take "+std::to_string(k)+","+std::to_string(n)+" "; g_case=log; g_on=true; size_t u=x.a->size(); char* p=(char*)x.a->allocate(n); g_on=false; size_t d=x.a->size()-u;
      CHECK(p!=0 && (size_t)p%16==0,"allocation is not 16-byte aligned"); CHECK(d>=n && d<=n+64,"used size grows by " << d << " for " << n << " bytes"); if (!cost.count(n)) cost[n]=d; CHECK(cost[n]==d,"used size grows by " << d << ", earlier by " << cost[n]); x.used+=d;
      bool in=false; for(size_t i=0;i<g_nb;i++) if (p>=g_blk[i].p && p+n<=g_blk[i].p+g_blk[i].n) in=true; CHECK(in,"allocation outside the blocks of the allocator");
      for(auto& y: v) for(auto& q: y.r) CHECK(p+n<=q.p || q.p+q.n<=p,"allocation overlaps an earlier one"); unsigned char t=(unsigned char)r(250); memset(p,t,n); x.r.push_back({p,n,true,t}); }
    else if (op<16) { std::vector<size_t> l; for(size_t i=0;i<x.r.size();i++) if (x.r[i].live) l.push_back(i); if (!l.empty()) { Rec& q=x.r[l[r((int)l.size())]]; for(size_t i=0;i<q.n;i++) CHECK((unsigned char)q.p[i]==q.tag,"contents changed"); log+="give "+std::to_string(k)+","+std::to_string(q.n)+" "; g_case=log; size_t u=x.a->size(); x.a->deallocate(q.p,q.n); CHECK(u-x.a->size()==cost[q.n],"used size shrinks by " << u-x.a->size() << " for " << q.n << " bytes, grew by " << cost[q.n]); x.used-=cost[q.n]; q.live=false; } }
    else if (op<18) { int l=(k+1)%3; if (v[l].a) { log+="swap "+std::to_string(k)+" "; g_case=log; size_t a1=x.a->alloc(),a2=v[l].a->alloc(); x.a->swap(*v[l].a); std::swap(x.used,v[l].used); x.r.swap(v[l].r); CHECK(x.a->alloc()==a2 && v[l].a->alloc()==a1,"allocated sizes are not exchanged"); } }
    else { log+="end "+std::to_string(k)+" "; g_case=log; for(auto& q: x.r) if (q.live) { for(size_t i=0;i<q.n;i++) CHECK((unsigned char)q.p[i]==q.tag,"contents changed"); x.a->deallocate(q.p,q.n); } CHECK(x.a->size()==0,"used size " << x.a->size() << " after everything was given back"); g_on=true; x.a.reset(); g_on=false; x.r.clear(); }
    chk("step"); CHECK(Allocator::maxMemory()>=mx,"maximum memory shrinks"); mx=Allocator::maxMemory();
  }
  g_on=false; for(auto& x: v) if (x.a) { for(auto& q: x.r) if (q.live) x.a->deallocate(q.p,q.n); g_on=true; x.a.reset(); g_on=false; } CHECK(Allocator::currMemory()==base,"current memory at the end"); CHECK(g_nb==0,"blocks not returned to the system");
}
TEST(C12) { __sanitizer_install_malloc_and_free_hooks(hm,hf); Rng r(g_seed); Allocator::setLimitMemory(0);
  while(time_left() && g_cases<20000) { begin("seed "+std::to_string(r.s)); c12(r,r.range(5,90)); } }
// --- Hilbert polynomials
static long g_gmp; static void* ga(size_t n) { ++g_gmp; return malloc(n); } static void* gr(void* p,size_t,size_t n) { return realloc(p,n); } static void gf(void* p,size_t) { --g_gmp; free(p); }
struct Q { mpq_t q; Q() { mpq_init(q); } Q(const Q& a) { mpq_init(q); mpq_set(q,a.q); } ~Q() { mpq_clear(q); } void operator=(const Q& a) { mpq_set(q,a.q); } std::string str() const { char* p=mpq_get_str(0,10,q); std::string r(p); gf(p,0); return r; } };
typedef std::vector<Q> VQ;
static VQ binom(long a,unsigned long b,int n) { VQ c(n+1); mpq_set_ui(c[0].q,1,1); Q x,y; for(unsigned long i=0;i<b;i++) { VQ d(n+1); mpq_set_si(x.q,a-(long)i,1); for(int k=n;k>=0;k--) { mpq_mul(d[k].q,c[k].q,x.q); if (k) mpq_add(d[k].q,d[k].q,c[k-1].q); } mpq_set_ui(y.q,1,i+1); mpq_canonicalize(y.q); for(int k=0;k<=n;k++) mpq_mul(c[k].q,d[k].q,y.q); } return c; }
static void eq(const HilbertPoly& h,const VQ& v,const char* w) { CHECK(h.dim()==(int)v.size()-1, w << ": dimension"); for(size_t k=0;k<v.size();k++) { std::string s(h[(int)k]); CHECK(s==v[k].str(), w << ": coefficient " << k << " is " << s << ", expected " << v[k].str()); CHECK(h.isZero((int)k)==(mpq_sgn(v[k].q)==0), w << ": isZero " << k); } }
static void c18i(int n,long a,unsigned long b,long c,unsigned long d,int m) {
  std::ostringstream o; o << "dim " << n << " binomial(" << a << "," << b << ") and (" << c << "," << d << ") factor " << m; begin(o.str());
  HilbertPoly f(n), g; g.setDim(n); VQ z(n+1); eq(f,z,"new"); f.binomial(a,b); VQ A(binom(a,b,n)); eq(f,A,"binomial"); g.binomial(c,d); VQ B(binom(c,d,n)); eq(g,B,"binomial");
  f.add(g); for(int k=0;k<=n;k++) mpq_add(A[k].q,A[k].q,B[k].q); eq(f,A,"sum"); eq(g,B,"other operand"); f.mult(m); Q q; mpq_set_si(q.q,m,1); for(int k=0;k<=n;k++) mpq_mul(A[k].q,A[k].q,q.q); eq(f,A,"multiple"); f.sub(g); for(int k=0;k<=n;k++) mpq_sub(A[k].q,A[k].q,B[k].q); eq(f,A,"difference"); eq(g,B,"other operand");
  f.binomial(c,d); eq(f,B,"binomial over an old value"); }
static void c18(int n,long a,unsigned long b,long c,unsigned long d,int m) { long l=g_gmp; c18i(n,a,b,c,d,m); CHECK(g_gmp==l, g_gmp-l << " blocks of rationals are not released"); }
TEST(C18) { mp_set_memory_functions(ga,gr,gf); for(int n=1;n<=5;n++) for(unsigned long b=0;b<=(unsigned long)n;b++) for(long a=-6;a<=7;a++) { if (!time_left()) return; c18(n,a,b,a*2-3,(b*2)%(n+1),(int)a*3-1); }
  Rng r(g_seed); while(time_left() && g_cases<20000) { int n=r.range(1,r(4)?9:24); c18(n,r.range(-40,60),r(n+1),r(9)?r.range(-30,30):(long)r.range(-2000000000,2000000000),r(n+1),r(9)==0?2147483647-r(3):r.range(-9,9)); } }
// --- permutations
struct Src { typedef unsigned result_type; int mode; uint64_t s; static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return 0xffffffffu; }
  unsigned operator()() { s=s*6364136223846793005ull+1442695040888963407ull; switch((s>>40)&1?mode:3) { case 0: return 0; case 1: return (s>>33)&1?0xffffffffu:0xfffffff0u; case 2: return (unsigned)(s>>60); default: return (unsigned)(s>>29); } } };
static void isperm(const RandPermutation& p,int n,const char* w) { CHECK(p.size()==n, w << ": size"); std::vector<int> c(n,0); for(int i=0;i<n;i++) { int x=p[i]; CHECK(x>=0 && x<n, w << ": entry " << i << " is " << x); CHECK(c[x]++==0, w << ": " << x << " occurs twice"); } }
TEST(C19) { Rng r(g_seed); for(int n=1;time_left() && g_cases<20000;n=n<40?n+1:r.range(1,300)) for(int m=0;m<4;m++) { begin("size "+std::to_string(n)+" source "+std::to_string(m)+" seed "+std::to_string(r.s)); RandPermutation p(n); for(int i=0;i<n;i++) CHECK(p[i]==i,"a new permutation is not the identity at " << i); Src g={m,r.next()}; for(int k=0;k<12;k++) { if (m==1) { std::mt19937 q((unsigned)r.next()); p.next(q); isperm(p,n,"after a step"); } p.next(g); isperm(p,n,"after a step"); } if (n<8) { RandPermutation_mt19937 q(n); q.next(); isperm(q,n,"after a step"); } } }
