// Polynomials against exact sums of terms over GMP integers.
#include "monoms.h"
#include "zint.h"
#include <type_traits>
#include <memory>
#include "ginv/poly_int.h"
struct T_ { MV m; Z c; };
typedef std::vector<T_> TS;
struct P { int o,n; TS t; };                       // strictly decreasing, no zero coefficient
static std::string zs(const Z& z) { return z.lit(); }
static std::string str(const P& p) { std::ostringstream s; s << "{order " << std::hex << p.o << std::dec << " n " << p.n << ":"; for(auto& x: p.t) s << " " << zs(x.c) << "*" << str(x.m); s << "}"; return s.str(); }
static bool same(const MV& a,const MV& b) { return a.e==b.e && a.pos==b.pos; }
static void norm(P& p) {
  std::sort(p.t.begin(),p.t.end(),[&](const T_& a,const T_& b) { return ordspec(p.o,a.m,b.m.e,b.m.pos)>0; });
  TS r; for(auto& x: p.t) if (!r.empty() && same(r.back().m,x.m)) r.back().c=r.back().c+x.c; else r.push_back(x);
  p.t.clear(); for(auto& x: r) if (x.c!=Z()) p.t.push_back(x); }
static MV mul(const MV& a,const MV& b) { MV r; r.e=plus(a.e,b.e); r.pos=a.pos==-1?b.pos:a.pos; return r; }
static P lin(const P& a,const Z& k,const P& b,const Z& l,const MV* q=0) { P r(a); for(auto& x: r.t) x.c=x.c*k; for(auto& x: b.t) { T_ y{q?mul(x.m,*q):x.m,x.c*l}; r.t.push_back(y); } norm(r); return r; }
static P prod(const P& a,const P& b) { P r; r.o=a.o; r.n=a.n; for(auto& x: a.t) for(auto& y: b.t) r.t.push_back({mul(x.m,y.m),x.c*y.c}); norm(r); return r; }
static P cst(const P& a,const Z& c) { P r; r.o=a.o; r.n=a.n; MV m; m.e=V(a.n,0); m.pos=-1; r.t.push_back({m,c}); norm(r); return r; }
static bool np(const P& p) { for(auto& x: p.t) if (x.m.pos!=-1) return false; return true; }
static Z content(const P& p) { Z g; for(auto& x: p.t) g=zgcd(g,x.c); return g; }
static MV quo(const MV& a,const MV& b) { MV r(a); for(size_t i=0;i<r.e.size();i++) r.e[i]-=b.e[i]; r.pos=b.pos==-1?a.pos:-1; return r; }
// --- real objects
static void rd(const PolyInt& p,P& r) { size_t k=0; r.t.clear(); for(PolyInt::ConstIterator i(p.begin()); i; ++i) { CHECK(++k<100000,"the term list is cyclic"); MV m; for(int v=0;v<i.monom().size();v++) m.e.push_back(i.monom()[v]); m.pos=i.monom().pos(); CHECK(i.monom().degree()==deg(m.e),"degree field of a term's monomial"); r.t.push_back({m,Z("0x0")}); std::string s=i.coeff().get_str(16); r.t.back().c=s[0]=='-'?Z("-0x"+s.substr(1)):Z("0x"+s); } }
static void eq(const PolyInt& p,const P& w,const char* what) {
  P g; g.o=p.order(); g.n=p.size(); rd(p,g); bool ok=g.t.size()==w.t.size(); for(size_t i=0;ok && i<g.t.size();i++) ok=same(g.t[i].m,w.t[i].m) && g.t[i].c==w.t[i].c;
  CHECK(ok, what << ": is " << str(g) << ", expected " << str(w));
  CHECK(g.o==w.o && g.n==w.n, what << ": order or number of variables"); CHECK(p.length()==(int)w.t.size(), what << ": length " << p.length()); CHECK((bool)p==!w.t.empty() && p.isZero()==w.t.empty(), what << ": zero test"); }
static PolyInt mk(Allocator* a,const P& p) { PolyInt r(a,p.o,p.n); Allocator t; for(size_t i=p.t.size();i-->0;) { MM m(&t,p.t[i].m); PolyInt x(&t,p.o,m.m); x.mult(zs(p.t[i].c).c_str()); r.add(x); } eq(r,p,"operand built from its terms"); return r; }
static void bal(Allocator& a,const PolyInt& r,const char* what) { Allocator b; { PolyInt c(&b,r); CHECK(live_blocks(&a)==live_blocks(&b), what << ": " << live_blocks(&a) << " blocks in use, a copy of the value uses " << live_blocks(&b)); } CHECK(b.size()==0, what << ": used size after destruction"); }
static void gone(Allocator& a,const char* what) { CHECK(a.size()==0, what << ": used size " << a.size() << " after everything was destroyed"); CHECK(live_blocks(&a)==0, what << ": blocks still in use"); }
// --- cases
struct Gen { Rng r; gmp_randstate_t rs; Gen(): r(g_seed) { gmp_randinit_default(rs); gmp_randseed_ui(rs,g_seed); }
  Z z() { Z x; int k=r(10); if (k<5) return zi(r.range(1,4)*(r(2)?1:-1)); if (k<7) return zi(r.range(1,60)*(r(2)?1:-1)); mpz_rrandomb(x.z,rs,r(3)?r.range(1,140):64*r.range(1,3)); mpz_add_ui(x.z,x.z,1); if (r(2)) mpz_neg(x.z,x.z); return x; }
  int pm() { return r(3); }                        // 0: positions -1, 1: 0..2, 2: -1..2
  int pos(int m) { return m==0?-1:m==1?r(3):r.range(-1,2); }
  P p(int o,int n,int m,int mx,int terms) { P q; q.o=o; q.n=n; for(int i=0;i<terms;i++) { MV v=rnd(r,n,mx,pos(m)); q.t.push_back({v,z()}); } norm(q); return q; } };
typedef std::function<void(const P&,const P&,const Z&)> FF;
static void pairs(FF f,bool module,bool big=true) {
  // every pair of small polynomials over three monomials
  V ex[]={{1,1},{2,0},{0,1},{0,0},{1,0}};
  for(int o: ORD) for(int k=0;k<27;k++) for(int l=0;l<27;l++) {
    P a,b; a.o=b.o=o; a.n=b.n=2; int x=k,y=l; for(int i=0;i<3;i++,x/=3,y/=3) { int c[]={0,1,-1}; MV m{ex[(i+o)%5],(module&&k%2)?i%2:-1}; MV w{ex[(i+o+(l%2))%5],(module&&k%2)?i%2:-1}; a.t.push_back({m,zi(c[x%3]*(1+i%2))}); b.t.push_back({w,zi(c[y%3]*(1+(l%3)%2))}); }
    norm(a); norm(b); if (!time_left()) return; begin("f="+str(a)+" g="+str(b)); f(a,b,zi(k%5-2)); }
  Gen g; while(time_left() && g_cases<300000) {
    int o=ORD[g.r(6)], n=g.r.range(1,4), m=module?g.pm():0, mx=g.r.range(1,4); int tm=big?7:5; P a=g.p(o,n,m,mx,g.r(tm+1)), b=g.p(o,n,m,mx,g.r(tm+1));
    if (g.r(4)==0) for(size_t i=0;i<b.t.size() && i<a.t.size();i++) if (g.r(2)) { b.t[i].m=a.t[i].m; if (g.r(2)) { b.t[i].c=a.t[i].c; if (g.r(2)) b.t[i].c=zi(0)-a.t[i].c; } }
    if (g.r(12)==0) { b=a; if (g.r(2)) for(auto& x: b.t) x.c=zi(0)-x.c; }
    norm(b); Z c=g.r(6)?g.z():zi(0); if (g.r(5)==0 && !a.t.empty()) c=zi(0)-a.t.back().c; begin("f="+str(a)+" g="+str(b)+" c="+zs(c)); f(a,b,c); }
}
static void c05(const P& a,const P& b,const Z& c) {
  Allocator A,B; { PolyInt g(mk(&B,b));
    for(int k=0;k<9;k++) { Allocator R; { PolyInt f(mk(k%2?&A:&R,a)); P w; std::string s=zs(c); if (c==zi(0)) s=g_cases%2?"0x0":"0"; Allocator& al=k%2?A:R;
      switch(k) {
      case 0: f.add(g); w=lin(a,zi(1),b,zi(1)); break;
      case 1: f.sub(g); w=lin(a,zi(1),b,zi(-1)); break;
      case 2: f.minus(); w=lin(a,zi(-1),b,zi(0)); break;
      case 3: if (a.t.empty()) { w=a; break; } f.add(s.c_str()); w=lin(a,zi(1),cst(a,c),zi(1)); break;
      case 4: if (a.t.empty()) { w=a; break; } f.sub(s.c_str()); w=lin(a,zi(1),cst(a,c),zi(-1)); break;
      case 5: f.mult(s.c_str()); w=lin(a,c,b,zi(0)); break;
      case 6: { PolyInt h(std::move(f)); PolyInt x(std::move(h)+g); f=std::move(x); w=lin(a,zi(1),b,zi(1)); break; }
      case 7: { PolyInt x(-(std::move(f)-g)); w=lin(a,zi(-1),b,zi(1)); eq(x,w,"-(f-g)"); PolyInt t(&A,a.o,a.n); f.swap(t); f=x; break; }
      case 8: { f.add(g); f.sub(g); f.add(g); w=lin(a,zi(1),b,zi(1)); break; }
      }
      static const char* nm[]={"f+g","f-g","-f","f+c","f-c","c*f","operator f+g","operator -(f-g)","f+g-g+g"};
      eq(f,w,nm[k]); eq(g,b,"g afterwards"); bal(al,f,nm[k]); } gone(R,"f"); }
    PolyInt k(&A,a.o,a.n,zs(c).c_str()); eq(k,cst(a,c),"constant"); PolyInt e(&A,a.o,a.n); P z; z.o=a.o; z.n=a.n; eq(e,z,"zero polynomial");
    if (!a.t.empty()) { Allocator t; MM m(&t,a.t[0].m); PolyInt q(&A,a.o,m.m); P w(z); w.t.push_back({a.t[0].m,zi(1)}); eq(q,w,"polynomial of a monomial"); eq(m.m,a.t[0].m.e,a.t[0].m.pos,"the monomial afterwards"); }
  } gone(A,"operands"); gone(B,"g"); }
TEST(C05) { pairs(c05,true); }
static void c06(const P& a,const P& b,const Z&) {
  if (!np(a) && !np(b)) return;
  Allocator A,B; { PolyInt g(mk(&B,b)); { PolyInt f(mk(&A,a)); f.mult(g); P w=prod(a,b); eq(f,w,"f*g"); eq(g,b,"g afterwards"); bal(A,f,"f*g"); PolyInt h(mk(&A,b)); PolyInt x(std::move(h)*PolyInt(mk(&B,a))); eq(x,w,"g*f"); }
    if (!a.t.empty()) { P w=cst(a,zi(1)); for(int d=0;d<=(np(a)?(a.t.size()<3?5:3):1);d++) { Allocator R; { PolyInt f(mk(&R,a)); f.pow(d); eq(f,w,d==0?"f^0":d==1?"f^1":d==2?"f^2":"f^n"); bal(R,f,"power"); } gone(R,"power"); w=prod(w,a); } }
  } gone(A,"f"); gone(B,"g"); }
TEST(C06) { pairs(c06,true,false); }
static P step(const P& f,size_t k,const P& g) { Z d=zgcd(f.t[k].c,g.t[0].c); MV q=quo(f.t[k].m,g.t[0].m); return lin(f,g.t[0].c/d,g,zi(0)-f.t[k].c/d,&q); }
static bool redok(const MV& m,const P& g) { return !g.t.empty() && dvd(m,g.t[0].m) && (g.t[0].m.pos!=-1 || m.pos==-1 || np(g)); }
struct LK { std::function<WrapPolyInt*(const MV&)> f; int calls; WrapPolyInt* find(const Monom& m) { MV v; for(int i=0;i<m.size();i++) v.e.push_back(m[i]); v.pos=m.pos(); ++calls; return f(v); } };
struct PX: PolyInt { PX(Allocator* a,const PolyInt& p): PolyInt(a,p) {}
  void tail(int k,const PolyInt& a) { List<Term*>::Iterator i(mHead.begin()); while(k--) ++i; redTail(i,a); } };
static bool onceMore(const P& a,const P& b,const P& w) { return w.t.empty() || b.t.empty(); }
static void c07(const P& a0,const P& b,const Z& c) {
  // make f reducible by g more often: multiply a term of f into a multiple of lm(g)
  if (b.t.empty() || a0.t.empty()) return; P a(a0); Rng r(g_cases); for(auto& x: a.t) if (r(2) && (b.t[0].m.pos==-1 || b.t[0].m.pos==x.m.pos)) { if (b.t[0].m.pos!=-1) x.m.pos=b.t[0].m.pos; x.m.e=plus(x.m.e,b.t[0].m.e); if (r(2)) x.c=b.t[0].c*zi(r.range(1,3)); else if (r(3)==0) x.c=zi(0)-b.t[0].c; }
  if (r(3)==0) { MV q=rnd(r,a.n,1,-1); for(auto& y: b.t) if (r(2)) a.t.push_back({mul(y.m,q),r(2)?y.c:y.c*c}); }
  norm(a); if (a.t.empty()) return; g_case="f="+str(a)+" g="+str(b);
  Allocator A,B; { PolyInt g(mk(&B,b));
    for(size_t k=0;k<a.t.size();k++) if (redok(a.t[k].m,b)) {
      Allocator R; { P w=step(a,k,b); PX f(&R,PolyInt(mk(&A,a)));
        if (k==0) { f.reduction(g); eq(f,w,"reduction at the leading term"); eq(g,b,"g afterwards"); bal(R,f,"reduction"); }
        PX h(&A,PolyInt(mk(&A,a))); h.tail((int)k,g); eq(h,w,"reduction at a term"); eq(g,b,"g afterwards");
        } gone(R,"reduction"); }
    { PolyInt f(mk(&A,a)); P w(a); for(size_t k=0;k<a.t.size();k++) if (same(a.t[k].m,b.t[0].m)) { if (!redok(a.t[k].m,b)) return; w=step(a,k,b); } f.redMaybe(g); eq(f,w,"reduction at the term equal to the leading monomial, if any"); eq(g,b,"g afterwards"); }
  } gone(A,"f"); gone(B,"g"); }
TEST(C07) { pairs(c07,true); }
static bool prop(const P& a,const P& b) { // a == K*b up to non-zero rational factor
  if (a.t.size()!=b.t.size()) return false; for(size_t i=0;i<a.t.size();i++) if (!same(a.t[i].m,b.t[i].m) || a.t[i].c*b.t[0].c!=b.t[i].c*a.t[0].c) return false; return true; }
struct Setup { std::vector<P> gs; int rule; };
static void c08(const P& a,const std::vector<P>& gs,int rule) {
  Allocator A; { std::vector<std::unique_ptr<WrapPolyInt> > wr_; Allocator B; for(auto& g: gs) wr_.push_back(std::unique_ptr<WrapPolyInt>(new WrapPolyInt(PolyInt(mk(&B,g)))));
    auto pick=[&](const MV& m)->int { int best=-1; for(size_t i=0;i<gs.size();i++) if (redok(m,gs[i])) { if (rule==2 && (deg(m.e)+i)%3==0) continue; if (best<0 || rule==1) best=(int)i; } return best; };
    LK L; L.calls=0; L.f=[&](const MV& m)->WrapPolyInt* { int i=pick(m); return i<0?0:wr_[i].get(); };
    P w(a); int n=0; while(!w.t.empty() && n<400) { int i=pick(w.t[0].m); if (i<0) break; w=step(w,0,gs[i]); if (!w.t.empty()) { Z c=content(w); if (mpz_sizeinbase(c.z,2)>40) for(auto& x: w.t) x.c=x.c/c; } ++n; if (w.t.size()>60) return; for(auto& x: w.t) if (mpz_sizeinbase(x.c.z,2)>4000) return; }
    if (n>=400) return;
    P w2(w); int n2=0; size_t k=1; while(k<w2.t.size() && n2<400) { int i=pick(w2.t[k].m); if (i<0) { ++k; continue; } w2=step(w2,k,gs[i]); { Z c=content(w2); if (mpz_sizeinbase(c.z,2)>40) for(auto& x: w2.t) x.c=x.c/c; } ++n2; if (w2.t.size()>60) return; for(auto& x: w2.t) if (mpz_sizeinbase(x.c.z,2)>4000) return; }
    if (n2>=400) return;
    { PolyInt f(mk(&A,a)); int r=f.nf(L); P g; g.o=a.o; g.n=a.n; rd(f,g); CHECK(prop(g,w),"head normal form " << str(g) << " is not a multiple of " << str(w)); CHECK(r==n,"head normal form reports " << r << " reductions, " << n << " were done"); P s(g); norm(s); CHECK(s.t.size()==g.t.size(),"the result is not canonical"); eq(f,s,"head normal form"); 
      bool t=true; for(size_t i=1;i<g.t.size();i++) if (pick(g.t[i].m)>=0) t=false; CHECK(f.isNf(L)==t,"isNf after the head normal form"); eq(f,s,"after isNf"); bal(A,f,"head normal form");
      if (n==0) eq(f,a,"irreducible polynomial");
      int q=f.nfTail(L); P h; h.o=a.o; h.n=a.n; rd(f,h); CHECK(prop(h,w2),"tail normal form " << str(h) << " is not a multiple of " << str(w2)); CHECK(q==n2,"tail normal form reports " << q << " reductions, " << n2 << " were done"); s=h; norm(s); eq(f,s,"tail normal form"); if (!h.t.empty()) CHECK(same(h.t[0].m,g.t[0].m),"tail normal form changes the leading monomial"); CHECK(f.isNf(L),"isNf after the tail normal form"); if (n2==0) eq(f,g,"tail irreducible polynomial"); bal(A,f,"tail normal form"); }
    for(size_t i=0;i<gs.size();i++) eq(wr_[i]->poly(),gs[i],"reducer afterwards");
    // the cursor starts behind a reducible head: the tail form must leave it alone
    { PolyInt f(mk(&A,a)); f.nfTail(L); if (!a.t.empty()) { P h; h.o=a.o; h.n=a.n; rd(f,h); CHECK(!h.t.empty() && same(h.t[0].m,a.t[0].m),"tail normal form changes the leading monomial"); for(size_t i=1;i<h.t.size();i++) CHECK(pick(h.t[i].m)<0,"tail normal form leaves a reducible term"); } else CHECK(f.isZero(),"tail normal form of zero"); }
  } gone(A,"f"); }
TEST(C08) {
  Gen g; int os[]={0x11,0x12,0x21,0x22};
  while(time_left() && g_cases<100000) { int o=os[g.r(4)], n=g.r.range(1,3), m=g.r(3)==0?1:0; bool lx=(o&15)==1; std::vector<P> gs; int k=g.r.range(0,3); for(int i=0;i<k;i++) { P q=g.p(o,n,m,lx?2:3,g.r.range(1,4)); for(auto& x: q.t) if (g.r(2)) x.c=zi(g.r.range(1,3)*(g.r(2)?1:-1)); if (!q.t.empty()) gs.push_back(q); }
    P a=g.p(o,n,m,lx?3:5,g.r(6)); for(auto& x: a.t) if (g.r(2)) x.c=zi(g.r.range(1,6)); norm(a); int rule=g.r(3); std::string s="f="+str(a)+" rule "+std::to_string(rule); for(auto& q: gs) s+=" g="+str(q); H::begin(s); c08(a,gs,rule); }
}
static void c09(const P& a0,const P& b,const Z& c) {
  for(int v=0;v<3;v++) { P a(a0); if (v==1 && c!=zi(0)) for(auto& x: a.t) x.c=x.c*c; if (v==2) for(size_t i=0;i<a.t.size();i++) a.t[i].c=a.t[i].c*zi(i%2?6:10)*(b.t.empty()?zi(15):b.t[0].c);
    g_case="f="+str(a); if (a.t.size()==1 && mpz_sgn(a.t[0].c.z)<0) { Allocator A; { PolyInt f(mk(&A,a)); CHECK(f.isPp()==(content(a)==zi(1)),"primitivity test gives " << f.isPp()); f.pp(); P w(a), w2(a); w.t[0].c=zi(1); w2.t[0].c=zi(-1); if (f.lc().sgn()<0) eq(f,w2,"primitive part"); else eq(f,w,"primitive part"); CHECK(f.isPp(),"primitivity test of a primitive part"); bal(A,f,"primitive part"); } gone(A,"f"); continue; } Z g=content(a); Allocator A; { PolyInt f(mk(&A,a)); bool one=a.t.empty()||g==zi(1); CHECK(f.isPp()==one,"primitivity test gives " << f.isPp()); eq(f,a,"after the primitivity test"); f.pp(); P w(a); for(auto& x: w.t) x.c=x.c/g; eq(f,w,"primitive part"); CHECK(f.isPp(),"primitivity test of a primitive part"); f.pp(); eq(f,w,"primitive part of it"); bal(A,f,"primitive part"); } gone(A,"f"); } }
TEST(C09) { pairs(c09,true); }
static void c10(const P& a,const P& b,const Z& c) {
  P z; z.o=a.o; z.n=a.n; Allocator A,B; { PolyInt f(mk(&A,a));
    { Allocator R; { PolyInt g(&R,f); eq(g,a,"copy"); eq(f,a,"source"); bal(R,g,"copy"); g.minus(); if (!b.t.empty()) { PolyInt h(mk(&B,b)); g.add(h); } eq(f,a,"source after changing the copy"); } gone(R,"copy"); }
    for(int v=0;v<a.n;v++) { Allocator R; { PolyInt g(&R,v,f); P w(a); for(auto& x: w.t) x.m.e[v]++; eq(g,w,"copy times a variable"); eq(f,a,"source"); bal(R,g,"copy times a variable"); } gone(R,"copy times a variable"); }
    { P b2(b); b2.o=ORD[(g_cases)%6]; norm(b2); PolyInt g(mk(&B,b2)); g=f; eq(g,a,"assigned"); eq(f,a,"source"); bal(B,g,"assigned"); PolyInt h(mk(&B,b)); g=h; eq(g,b,"assigned again"); }
    { P b2(b); b2.o=ORD[(g_cases+1)%6]; norm(b2); PolyInt g(mk(&B,b2)), h(&A,f); g.swap(h); eq(g,a,"swapped"); eq(h,b2,"swapped, other"); PolyInt k(std::move(g)); eq(k,a,"moved"); PolyInt l(mk(&B,b2)); l=std::move(k); eq(l,a,"move assigned"); }
    CHECK((bool)f==!a.t.empty(),"bool"); int mp=-1,nm=0; for(auto& x: a.t) { mp=std::max(mp,x.m.pos); nm+=(int)mpz_size(x.c.z); } CHECK(f.maxPos()==mp,"largest position " << f.maxPos()); CHECK(f.norm()==nm,"norm " << f.norm());
    if (!a.t.empty()) { eq(f.lm(),a.t[0].m.e,a.t[0].m.pos,"leading monomial"); CHECK(f.degree()==deg(a.t[0].m.e),"degree"); std::string s=f.lc().get_str(16); CHECK((s[0]=='-'?"-0x"+s.substr(1):"0x"+s)==zs(a.t[0].c),"leading coefficient"); if (!b.t.empty()) { PolyInt g(mk(&B,b)); CHECK(sgn(f.cmp(g))==ordspec(a.o,a.t[0].m,b.t[0].m.e,b.t[0].m.pos),"comparison of leading monomials"); } }
    PolyInt e(&A,a.o,a.n); eq(e,z,"zero");
    if (!a.t.empty()) { std::ostringstream o; o << f; CHECK(!o.str().empty(),"text"); }
    eq(f,a,"f at the end"); } gone(A,"f"); gone(B,"g"); }
TEST(C10) { pairs(c10,true); }
// --- memory
static void c11(const P& a,const P& b,const Z& c) {
  c05(a,b,c); if (g_cases%3==0) c10(a,b,c); if (g_cases%3==1) { if (a.t.size()*b.t.size()<30) c06(a,b,c); c09(a,b,c); } if (g_cases%3==2) c07(a,b,c);
  Allocator A; { Integer x(&A,zs(c).c_str()), y(&A); for(auto& t: a.t) { Integer k(&A,zs(t.c).c_str()); switch(g_cases%7) { case 0: x.add(k); break; case 1: x.sub(k); break; case 2: x.mult(k); break; case 3: if (!x.isZero()) x.gcd(k); break; case 4: x=k; break; case 5: y.mult(x,k); x=y; break; case 6: { Integer w(std::move(k)); x.swap(w); y=std::move(w); break; } } }
    if (!x.isZero()) { Integer q(&A); y.mult(x,x); q.div(y,x); y.set_si(-3); y.set_ui(7); y.set_neg(); }
    for(auto& t: a.t) { MM m(&A,t.m); Monom u(&A,m.m), v(std::move(u)); Monom w(&A,0,m.m); v=w; v=std::move(w); v.mult(0,m.m); Monom k(&A,m.m,Monom(&A,(int)t.m.e.size(),-1)); k.swap(v); } }
  gone(A,"integers and monomials"); }
TEST(C11) { pairs(c11,true); }
// --- compaction
static void c23(const P& a,const P& b,const Z&) {
  { Allocator A; PolyInt f(mk(&A,a)), g(mk(&A,b)); GCPolyInt x(f), y(g); eq(x,a,"value taken over"); x.swap(y); eq(x,b,"swapped"); eq(y,a,"swapped, other"); y.reallocate(); eq(y,a,"compacted"); x.add(f); x.reallocate(); eq(x,lin(b,zi(1),a,zi(1)),"compacted sum"); GCPolyInt z(y); eq(z,a,"copy"); y.minus(); eq(z,a,"copy after changing the source");
    if (!a.t.empty()) { GCPolyInt v(0,f); P w(a); for(auto& t: w.t) t.m.e[0]++; eq(v,w,"copy times a variable"); for(int i=0;i<12 && a.t.size()<5;i++) { v.add(g); v.sub(g); v.reallocate(); eq(v,w,"compacted"); } WrapPolyInt q(f); eq(q.poly(),a,"element"); q.reallocate(); eq(q.poly(),a,"compacted element"); eq(q.lm(),a.t[0].m.e,a.t[0].m.pos,"its leading monomial"); WrapPolyInt q2(0,&q); eq(q2.poly(),w,"prolonged element"); eq(q.poly(),a,"element after prolonging"); q2.reallocate(); eq(q2.poly(),w,"compacted prolonged element"); }
    eq(f,a,"f"); eq(g,b,"g"); }
  { V v; GC<List<int> > l, k; for(size_t i=0;i<a.t.size()*40;i++) { l.push((int)i); v.insert(v.begin(),(int)i); } auto ck=[&](GC<List<int> >& l,const V& v,const char* w) { V g; for(List<int>::ConstIterator i(static_cast<const GC<List<int> >&>(l).begin()); i; ++i) { g.push_back(i.data()); if (g.size()>v.size()) break; } CHECK(g==v && l.length()==v.size(), w << ": list differs, length " << l.length()); };
    V e; k.push(5); e.push_back(5); k.swap(l); ck(k,v,"swapped list"); ck(l,e,"swapped list, other"); for(size_t i=0;i<v.size()/2;i++) k.pop(); v.erase(v.begin(),v.begin()+v.size()/2); k.reallocate(); ck(k,v,"compacted list"); k.reallocate(); k.push(9); v.insert(v.begin(),9); ck(k,v,"compacted list after push"); GC<List<int> > c(k); ck(c,v,"copied list"); c=l; ck(c,e,"assigned list"); ck(l,e,"source list"); GC<List<int> > d(static_cast<List<int>&>(k)); ck(d,v,"list taken over"); d.swap(k); d.reallocate(); k.reallocate(); ck(d,v,"list"); ck(k,v,"list"); CHECK(k.size()>0 && l.size()>0,"used size of a non-empty list"); }
  for(auto& t: a.t) { Allocator A; MM m(&A,t.m); MonomGC x(m.m), y(x); eq(x,t.m.e,t.m.pos,"monomial taken over"); for(int i=0;i<3;i++) { y.mult(0,x); x.reallocate(); y.reallocate(); } V w(t.m.e); w[0]++; eq(y,w,t.m.pos,"compacted monomial"); x.swap(y); eq(x,w,t.m.pos,"swapped monomial"); eq(y,t.m.e,t.m.pos,"swapped monomial, other"); y=x; eq(y,w,t.m.pos,"assigned monomial"); break; }
}
TEST(C23) { pairs(c23,true); }
