#pragma once
#include "common.h"
#include "ginv/monom.h"
using namespace GInv; using namespace H;
typedef std::vector<int> V;
struct MV { V e; int pos; };
static std::string str(const MV& m) { std::ostringstream o; o << "["; if (m.pos>=0) o << m.pos << ":"; for(size_t i=0;i<m.e.size();i++) o << (i?" ":"") << m.e[i]; o << "]"; return o.str(); }
static int deg(const V& e) { int s=0; for(int x: e) s+=x; return s; }
struct MM { Monom m; MM(Allocator* a, const MV& v): m(a,(int)v.e.size(),v.pos) { Allocator t; { Monom x(&t,(int)v.e.size(),-1); for(size_t i=0;i<v.e.size();i++) for(int k=0;k<v.e[i];k++) { m.mult((int)i, m); } } m.setPos(v.pos); }
};
static void eq(const Monom& m, const V& e, int pos, const char* what) {
  CHECK(m.size()==(int)e.size(), what << ": size " << m.size());
  for(size_t i=0;i<e.size();i++) CHECK(m[i]==e[i], what << ": exponent of variable " << i << " is " << m[i] << ", expected " << e[i]);
  CHECK(m.degree()==deg(e), what << ": degree " << m.degree() << ", expected " << deg(e));
  CHECK(m.pos()==pos, what << ": position " << m.pos() << ", expected " << pos);
}
static int sgn(int x) { return x>0?1:x<0?-1:0; }
static int s_lex(const V& a,const V& b) { for(size_t i=0;i<a.size();i++) if (a[i]!=b[i]) return a[i]>b[i]?1:-1; return 0; }
static int s_deglex(const V& a,const V& b) { if (deg(a)!=deg(b)) return deg(a)>deg(b)?1:-1; for(int i=(int)a.size()-1;i>=0;i--) if (a[i]!=b[i]) return a[i]<b[i]?1:-1; return 0; }
static int s_alex(const V& a,const V& b) { if (deg(a)!=deg(b)) return deg(a)<deg(b)?1:-1; return s_lex(a,b); }
static V plus(const V& a,const V& b) { V r(a); for(size_t i=0;i<r.size();i++) r[i]+=b[i]; return r; }
static bool dvd(const MV& a,const MV& b) { if (b.pos!=-1 && a.pos!=b.pos) return false; for(size_t i=0;i<a.e.size();i++) if (a.e[i]<b.e[i]) return false; return true; }
static void all(int n,int mx,std::function<void(const V&)> f) { V e(n,0); while(true) { f(e); int i=0; while(i<n && e[i]==mx) e[i++]=0; if (i==n) break; ++e[i]; } }
static std::vector<MV> pool(int n,int mx,std::initializer_list<int> ps) { std::vector<MV> r; all(n,mx,[&](const V& e) { for(int p: ps) r.push_back({e,p}); }); return r; }
static MV rnd(Rng& r,int n,int mx,int pos) { MV m; m.pos=pos; for(int i=0;i<n;i++) m.e.push_back(r(3)==0?0:r(mx+1)); return m; }
typedef std::function<void(const MV&,const MV&,const MV&)> F3;
static void triples(F3 f) {
  for(int n=1;n<=3;n++) {
    auto p=pool(n,n==1?4:n==2?2:1,{-1,0,2});
    for(auto& a: p) for(auto& b: p) { f(a,b,p[(p.size()*7/3)%p.size()]); if (n<3) for(auto& c: p) { if (!time_left()) return; f(a,b,c); } }
  }
  Rng r(g_seed);
  while(time_left()) { int n=r.range(1,7); int ps[]={-1,-1,0,1,3}; MV a=rnd(r,n,5,ps[r(5)]),b=rnd(r,n,5,ps[r(5)]),c=rnd(r,n,5,ps[r(5)]); if (r(3)==0) b.e=a.e; if (r(4)==0) c.e=a.e; if (r(4)==0) { int i=r(n); b.e=a.e; b.e[i]=r(6); } f(a,b,c); if (g_cases>400000) break; }
}
static const int ORD[6]={0x11,0x12,0x14,0x21,0x22,0x24};
static int ordspec(int o,const MV& a,const V& e,int pos) {
  int v=(o&15)==1?s_lex(a.e,e):(o&15)==2?s_deglex(a.e,e):s_alex(a.e,e); int p=a.pos>pos?1:a.pos<pos?-1:0;
  return (o&0x10) ? (v?v:p) : (p?p:v); }
