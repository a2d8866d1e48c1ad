// Basis elements and Janet search trees against the definition of Janet division.
#include "monoms.h"
#include <memory>
#include <type_traits>
#include "ginv/wrap.h"
#include "ginv/janet.h"
typedef std::unique_ptr<Wrap> W;
static MV rd(const Monom& m) { MV r; for(int i=0;i<m.size();i++) r.e.push_back(m[i]); r.pos=m.pos(); return r; }
static bool jnm(const std::vector<MV>& u,size_t k,int v) { for(auto& w: u) { bool s=true; for(int i=0;i<v;i++) if (w.e[i]!=u[k].e[i]) s=false; if (s && w.e[v]>u[k].e[v]) return true; } return false; }
static int jdiv(const std::vector<MV>& u,const V& m) { for(size_t k=0;k<u.size();k++) { bool ok=true; for(size_t v=0;v<m.size();v++) if (u[k].e[v]>m[v] || (u[k].e[v]<m[v] && jnm(u,k,(int)v))) ok=false; if (ok) return (int)k; } return -1; }
static int g_nodes(Janet::ConstIterator i) { int n=0; while(i) { ++n; if (i.nextVar()) n+=g_nodes(i.nextVar()); i.deg(); } return n; }
static bool sameTree(Janet::ConstIterator a,Janet::ConstIterator b) { while(a && b) { if (a.degree()!=b.degree() || a.wrap()!=b.wrap()) return false; if ((bool)a.nextVar()!=(bool)b.nextVar()) return false; if (a.nextVar() && !sameTree(a.nextVar(),b.nextVar())) return false; a.deg(); b.deg(); } return !a && !b; }
static std::string str(const std::vector<MV>& u) { std::string s="{"; for(auto& x: u) s+=str(x); return s+"}"; }
static void inbox(int n,const std::vector<MV>& u,std::function<void(const V&)> f) { int mx=0; for(auto& x: u) for(int e: x.e) mx=std::max(mx,e); all(n,n<4?std::min(mx+1,5):std::min(mx,2),f); }
static void run(const std::vector<MV>& in,int which,bool hp) {
  int n=(int)in[0].e.size(); Allocator al; std::vector<W> w; std::vector<MV> u; Allocator A; {
  Janet t(&A); CHECK(!t.begin(),"a new tree is not empty"); int cnt=0;
  for(auto& m: in) { MM x(&al,m); if (t.find(x.m)) continue; if (jdiv(u,m.e)>=0) { CHECK(which!=20,"find misses the Janet divisor of "+str(m)+" in "+str(u)); return; } if (deg(m.e)==0 && !u.empty()) continue; bool z=false; for(auto& y: u) if (deg(y.e)==0) z=true; if (z) continue;
    w.push_back(W(new Wrap(x.m))); t.insert(w.back().get()); u.push_back(m); ++cnt; g_case="tree "+str(u);
    if (which==20) { CHECK(t.size()==cnt,"size " << t.size()); for(size_t k=0;k<u.size();k++) { MM y(&al,u[k]); const Wrap* r=t.find(y.m); CHECK(r==w[k].get(),"find of the inserted " << str(u[k]) << " gives " << (r?str(rd(r->lm())):"nothing")); } } }
  if (u.empty()) return;
  int nodes=g_nodes(t.begin());
  if (which==20) inbox(n,u,[&](const V& m) { MV q{m,-1}; MM y(&al,q); const Wrap* r=t.find(y.m); int k=jdiv(u,m);
    if (r) { for(int v=0;v<n;v++) CHECK(r->lm()[v]<=m[v],"find of " << str(q) << " gives " << str(rd(r->lm())) << ", which does not divide it"); }
    if (k>=0) CHECK(r==w[k].get(),"find of " << str(q) << " gives " << (r?str(rd(r->lm())):"nothing") << ", the Janet divisor is " << str(u[k])); eq(y.m,m,-1,"the monomial looked up"); });
  if (which==20) for(size_t k=0;k<u.size();k++) eq(w[k]->lm(),u[k].e,u[k].pos,"element afterwards");
  if (which==21) { CHECK(live_blocks(&A)==(size_t)nodes,"tree of " << nodes << " nodes uses " << live_blocks(&A) << " blocks");
    Allocator B,C; { Janet c(&B,t); CHECK(sameTree(c.begin(),t.begin()),"the copy differs"); CHECK(c.size()==t.size(),"size of the copy"); CHECK(live_blocks(&B)==(size_t)nodes && g_nodes(t.begin())==nodes && live_blocks(&A)==(size_t)nodes,"blocks of the copy");
      Janet e(&C); e.swap(c); CHECK(sameTree(e.begin(),t.begin()) && !c.begin(),"swapped"); CHECK(e.size()==cnt && c.size()==0,"sizes swapped"); c.swap(e); CHECK(sameTree(c.begin(),t.begin()) && !e.begin(),"swapped back");
      Janet f(&C,e); CHECK(!f.begin() && f.size()==0,"copy of the empty tree");
      inbox(n,u,[&](const V& m) { MV q{m,-1}; MM y(&al,q); CHECK(c.find(y.m)==t.find(y.m),"find of " << str(q) << " differs in the copy"); }); }
    CHECK(B.size()==0 && live_blocks(&B)==0 && C.size()==0,"nodes of the copy left in use");
    GCJanet g(t); CHECK(sameTree(g.begin(),t.begin()),"compacted copy"); for(int i=0;i<3;i++) { g.reallocate(); CHECK(sameTree(g.begin(),t.begin()) && static_cast<Janet&>(g).size()==t.size(),"compacted tree"); } GCJanet h; h.swap(g); CHECK(sameTree(h.begin(),t.begin()) && !g.begin(),"swapped compacted trees"); h.reallocate(); CHECK(sameTree(h.begin(),t.begin()),"compacted tree"); }
  } CHECK(A.size()==0 && live_blocks(&A)==0,"nodes left in use by a destroyed tree"); }
static void sets(int which) {
  for(int n=1;n<=3;n++) { std::vector<MV> p; all(n,n==3?1:2,[&](const V& e) { p.push_back(MV{e,-1}); });
    for(size_t a=0;a<p.size();a++) for(size_t b=0;b<p.size();b++) for(size_t c=0;c<p.size();c++) { if (!time_left()) return; std::vector<MV> u{p[a],p[b],p[c]}; begin("inserting "+str(u)); run(u,which,false); } }
  Rng r(g_seed); while(time_left() && g_cases<200000) { int n=r.range(1,4),mx=r.range(1,4),k=r.range(1,9); std::vector<MV> u; for(int i=0;i<k;i++) u.push_back(rnd(r,n,mx,-1)); begin("inserting "+str(u)); run(u,which,false); } }
TEST(C20) { sets(20); }
TEST(C21) { sets(21); }
static void flags(const Wrap& w,const std::vector<int>& f,const char* what) { int k=0; for(size_t v=0;v<f.size();v++) { CHECK(w.NM((int)v)==!!(f[v]&1), what << ": non-multiplicative flag of " << v); CHECK(w.NMd((int)v)==!!(f[v]&2), what << ": second flag of " << v); CHECK(w.build((int)v)==!!(f[v]&4), what << ": prolonged flag of " << v); if (!(f[v]&1)) ++k; } CHECK(w.multi()==k, what << ": number of multiplicative variables " << w.multi()); }
static void el(const Wrap& w,const MV& lm,const MV& an,const std::vector<int>& f,const char* what) { eq(w.lm(),lm.e,lm.pos,what); eq(w.ansector(),an.e,an.pos,what); CHECK(w.isGB()==(deg(lm.e)==deg(an.e)), what << ": isGB"); flags(w,f,what); }
static void c22(const MV& a,const MV& b,const MV& c) {
  begin("m="+str(a)+" update "+str(b)+" then "+str(c)); int n=(int)a.e.size(); Allocator al; { MM A(&al,a),B(&al,b),C(&al,c); std::vector<int> z(n,0), f(z); Wrap w(A.m); el(w,a,a,f,"new");
    Rng r(g_cases); for(int i=0;i<n;i++) { int q=r(8); if (q&1) w.setNM(i); if (q&2) w.setNMd(i); if (q&4) w.setBuild(i); f[i]=q; el(w,a,a,f,"flags"); }
    Wrap k(w); el(k,a,a,f,"copy"); k.clearNM(); el(w,a,a,f,"source of a copy"); std::vector<int> g(f); for(int& x: g) x&=~1; el(k,a,a,g,"cleared");
    int v=r(n); Wrap p(v,&w); MV pm(a); pm.e[v]++; f[v]|=4; el(p,pm,a,z,"prolonged"); el(w,a,a,f,"parent"); if (n>1) { int u=(v+1)%n; p.setNM(u); Wrap pp(u,&p); MV pq(pm); pq.e[u]++; el(pp,pq,a,z,"prolonged twice"); std::vector<int> h(z); h[u]=5; el(p,pm,a,h,"parent"); el(w,a,a,f,"grandparent"); }
    w.update(A.m); el(w,a,a,f,"updated to the same monomial"); eq(A.m,a.e,a.pos,"argument");
    bool s=b.e==a.e && b.pos==a.pos; w.update(B.m); if (!s) f=z; el(w,b,b,f,"updated"); for(int i=0;i<n;i++) if (r(2)) { w.setNM(i); f[i]|=1; w.setBuild(i); f[i]|=4; } el(w,b,b,f,"flags"); s=b.e==c.e && b.pos==c.pos; w.update(C.m); if (!s) f=z; el(w,c,c,f,"updated again");
    MV q(b); q.pos=b.pos==-1?1:-1; MM Q(&al,q); Wrap y(B.m); y.setNM(0); y.update(Q.m); el(y,q,q,z,"updated to another position"); p.setNM(0); p.update(p.lm().pos()==-2?A.m:C.m); { bool t=pm.e==c.e && pm.pos==c.pos; if (!t) el(p,c,c,z,"prolonged element updated"); } }
  CHECK(al.size()==0,"used size"); }
TEST(C22) { triples(c22); }
