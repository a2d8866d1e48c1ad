// List, stack, tree against sequences and sets of the standard library.
#include "common.h"
#include <type_traits>
#include "util/allocator.h"
#include "util/list.h"
#include "util/stack.h"
#include "util/rbtree.h"
using namespace GInv; using namespace H;
typedef List<int> L; typedef std::vector<int> V;
static std::string str(const V& v) { std::string s="["; for(int x: v) s+=std::to_string(x)+" "; return s+"]"; }
static V seq(const L& l) { V v; size_t n=0; for(L::ConstIterator i(l.begin()); i; ++i) { v.push_back(i.data()); CHECK(++n<100000,"the list is cyclic"); } return v; }
static void eq(const L& l, const V& v, const char* what) {
  V g=seq(l); CHECK(g==v, what << ": list is " << str(g) << ", expected " << str(v)); CHECK(l.length()==v.size(), what << ": length " << l.length() << ", expected " << v.size());
  CHECK((bool)l==!v.empty(), what << ": bool"); if (!v.empty()) CHECK(l.head()==v[0], what << ": head"); }
static L::Iterator at(L& l, size_t k) { L::Iterator i(l.begin()); while(k--) ++i; return i; }
static void list_run(std::vector<int> ops) {
  Rng r(1); Allocator al, al2; {
  L a(&al), b(&al2); V va, vb; L same(&al); V vs; std::string log;
  for(size_t q=0;q<ops.size();q++) {
    int op=ops[q]%17, x=ops[q]/17; int k=va.empty()?0:x%(va.size()+1); log+=std::to_string(op)+":"+std::to_string(x)+" "; g_case=log;
    switch(op) {
    case 0: case 1: a.push(x); va.insert(va.begin(),x); break;
    case 2: if (!va.empty()) { CHECK(a.pop()==va[0],"pop"); va.erase(va.begin()); } break;
    case 3: case 4: at(a,k).insert(x); va.insert(va.begin()+k,x); break;
    case 5: if ((size_t)k<va.size()) { at(a,k).del(); va.erase(va.begin()+k); } break;
    case 6: if ((size_t)k<va.size()) { // unlink and relink in a list of the same allocator
        L::Iterator i(at(a,k)); L::ConstIterator c(i.get()); CHECK(c.data()==va[k],"unlinked element"); vs.insert(vs.begin()+(vs.size()/2),va[k]); va.erase(va.begin()+k); at(same,(vs.size()-1)/2).insert(c); } break;
    case 7: { L::Iterator i(at(a,k)); L::Iterator j(i); i.clear(); CHECK(!j,"cursor after clear"); va.resize(k); } break;
    case 8: { L c(&al2,a); eq(c,va,"copy"); c.push(7); eq(a,va,"source of a copy"); } break;
    case 9: { b=a; vb=va; } break;
    case 10: { a.swap(b); std::swap(va,vb); a.swap(b); std::swap(va,vb); L c(&al2); V vc; c.push(x); vc.push_back(x); a.swap(c); eq(a,vc,"swapped"); eq(c,va,"swapped other"); c.swap(a); } break;
    case 11: { L c(static_cast<L&&>(a)); eq(c,va,"moved"); eq(a,V(),"moved from"); a=static_cast<L&&>(c); eq(c,V(),"move-assigned from"); } break;
    case 12: if (x%4==0) { a.clear(); va.clear(); } break;
    case 13: if ((size_t)k<va.size()) { L::Iterator i(at(a,k)); CHECK(i.data()==va[k],"data at a cursor"); i.data()=x; va[k]=x; L::ConstIterator c(i); CHECK(c && c.data()==x,"cursor converted"); } break;
    case 14: { L::Iterator i(at(a,k)); i.insert(x); ++i; i.insert(x+1); va.insert(va.begin()+k,x); va.insert(va.begin()+k+1,x+1); } break;
    case 15: { L::Iterator i(at(a,k)), j(a.begin()); CHECK((i==j)==(k==0),"cursors equal"); CHECK((i!=j)==(k!=0),"cursors differ"); CHECK((bool)i==((size_t)k<va.size()),"cursor at the end"); j=i; CHECK(j==i,"assigned cursor"); } break;
    case 16: if (!vs.empty()) { L::ConstIterator c(same.begin().get()); int d=vs[0]; vs.erase(vs.begin()); at(a,k).insert(c); va.insert(va.begin()+k,d); } break;
    }
    eq(a,va,"list"); eq(b,vb,"other list"); eq(same,vs,"third list");
    CHECK(live_blocks(&al)==va.size()+vs.size(),"nodes in use"); CHECK(live_blocks(&al2)==vb.size(),"nodes in use (other)");
  } }
  CHECK(al.size()==0 && al2.size()==0 && live_blocks(&al)==0,"nodes left in use");
}
TEST(C13) {
  Rng r(g_seed);
  while(time_left() && g_cases<200000) { std::vector<int> o; int n=r.range(1,g_cases%7?14:60); for(int i=0;i<n;i++) o.push_back(r(17*40)); begin("seed "+std::to_string(r.s)); list_run(o); }
}
typedef Stack<int> S;
static void eq(const S& s, const V& v, const char* what) {
  CHECK(s.deep()==v.size(), what << ": depth " << s.deep() << ", expected " << v.size()); CHECK((bool)s==!v.empty(), what << ": bool"); CHECK(s.size()>=s.deep(), what << ": capacity");
  for(size_t i=0;i<v.size();i++) CHECK(s[i]==v[i], what << ": element " << i << " is " << s[i] << ", expected " << v[i]); if (!v.empty()) CHECK(s.top()==v.back(), what << ": top"); }
static void stack_run(int cap,std::vector<int> ops) {
  Allocator al, al2; {
  S a(cap,&al), b(1+cap/2,&al2); V va, vb; std::string log="capacity "+std::to_string(cap)+": ";
  for(int q: ops) {
    int op=q%13, x=q/13; log+=std::to_string(op)+":"+std::to_string(x)+" "; g_case=log;
    switch(op) {
    case 0: case 1: case 2: case 3: a.push(x); va.push_back(x); break;
    case 4: if (!va.empty()) { a.pop(); va.pop_back(); } break;
    case 5: for(int i=0;i<x%30;i++) { a.push(x+i); va.push_back(x+i); eq(a,va,"growing"); } break;
    case 6: if (x%3==0) { a.reset(); va.clear(); } break;
    case 7: { S c(a,&al2); eq(c,va,"copy"); c.push(1); c.push(2); eq(a,va,"source of a copy"); } break;
    case 8: b=a; vb=va; break;
    case 9: a.swap(b); std::swap(va,vb); eq(a,va,"swapped"); eq(b,vb,"swapped other"); a.swap(b); std::swap(va,vb); break;
    case 10: a=b; va=vb; break;
    case 11: b.push(x); vb.push_back(x); break;
    case 12: if (!vb.empty()) { b.pop(); vb.pop_back(); } break;
    }
    eq(a,va,"stack"); eq(b,vb,"other stack"); CHECK(live_blocks(&al)==1 && live_blocks(&al2)==1,"arrays in use");
    CHECK(live_bytes(&al)==4*a.size(),"array size");
  } }
  CHECK(al.size()==0 && al2.size()==0,"array left in use");
}
TEST(C14) {
  Rng r(g_seed);
  for(int cap=1;cap<12;cap++) { std::vector<int> o; for(int i=0;i<80;i++) o.push_back(13*i); begin("capacity "+std::to_string(cap)); stack_run(cap,o); }
  while(time_left() && g_cases<200000) { std::vector<int> o; int n=r.range(1,40); for(int i=0;i<n;i++) o.push_back(r(13*40)); int cap=r.range(1,12); begin("seed "+std::to_string(r.s)); stack_run(cap,o); }
}
static int cmpi(const int a,const int b) { return a/2<b/2?-3:a/2>b/2?5:0; }   // keys 2k and 2k+1 are the same element
typedef RBTree<int,cmpi> T;
static bool g_col=true;   // C16 looks at colours, C15 does not
struct TT: public T { TT(Allocator* a): T(a) {} TT(const TT& a, Allocator* al): T(a,al) {} TT(TT&& a): T(static_cast<T&&>(a)) {} void operator=(const TT& a) { T::operator=(a); }
  static int walk(Node* x, Node* p, V& v, int depth) { if (!x) return 0; CHECK(depth<64,"tree too deep"); CHECK(x->mParent==p,"parent link of " << x->mKey); 
    if (!g_col) ; else if (x->mColor==Red) { CHECK(p && p->mColor==Black,"red node " << x->mKey << " has a red parent or is the root"); } else CHECK(x->mColor==Black,"colour");
    int l=walk(x->mLeft,x,v,depth+1); v.push_back(x->mKey); int r=walk(x->mRight,x,v,depth+1); CHECK(!g_col || l==r,"black height differs below " << x->mKey); return l+(x->mColor==Black); }
  void valid(const V& want,const char* what) { V v; walk(mRoot,nullptr,v,0); if (g_col) return; CHECK(v==want, what << ": tree holds " << str(v) << ", expected " << str(want)); CHECK(mCount==want.size(), what << ": count " << mCount); CHECK(length()==(int)want.size(), what << ": length"); CHECK((bool)*this==!want.empty(), what << ": bool"); } };
static void queries(TT& t,const V& v) {
  V f,g; for(T::ConstIterator i(t.minimum()); i; ++i) { f.push_back(i.key()); CHECK(f.size()<=v.size(),"forward iteration does not stop"); }
  for(T::ConstIterator i(t.maximum()); i; --i) { g.push_back(i.key()); CHECK(g.size()<=v.size(),"backward iteration does not stop"); }
  std::reverse(g.begin(),g.end()); CHECK(f==v,"forward iteration gives " << str(f)); CHECK(g==v,"backward iteration gives " << str(g));
  if (!v.empty()) { CHECK(t.minimumKey()==v[0],"minimum"); CHECK(t.maximumKey()==v.back(),"maximum"); }
  int lo=v.empty()?0:v[0]-4, hi=v.empty()?4:v.back()+4;
  for(int k=lo;k<=hi;k++) {
    T::ConstIterator i(t.find(k)), p(t.findPrev(k)), n(t.findNext(k)); const int *wi=0,*wp=0,*wn=0;
    for(const int& x: v) { if (x/2==k/2) wi=&x; if (x/2<k/2) wp=&x; if (x/2>k/2 && !wn) wn=&x; }
    CHECK((bool)i==(wi!=0) && (!wi||i.key()==*wi),"find " << k); CHECK((bool)p==(wp!=0) && (!wp||p.key()==*wp),"nearest smaller of " << k); CHECK((bool)n==(wn!=0) && (!wn||n.key()==*wn),"nearest greater of " << k);
  } }
static void put(V& v,int x) { v.insert(std::lower_bound(v.begin(),v.end(),x),x); }
static bool has(const V& v,int x) { for(int y: v) if (y/2==x/2) return true; return false; }
static void tree_run(const std::vector<int>& ops,bool q) {
  Allocator al, al2; {
  TT a(&al), b(&al2); V va, vb; std::string log;
  for(int o: ops) {
    int op=o%14, x=2*(o/14)+ (o/14)%2; log+=std::to_string(op)+":"+std::to_string(x)+" "; g_case=log;
    switch(op) {
    case 0: case 1: case 2: case 3: case 4: if (!has(va,x)) { a.insert(x); put(va,x); } break;
    case 5: case 6: case 7: if (!va.empty()) { int i=(o/14)%va.size(); a.remove(va[i]^1); va.erase(va.begin()+i); } break;
    case 8: if (!va.empty()) { int i=(o/14)%va.size(); a.remove(a.find(va[i])); va.erase(va.begin()+i); } break;
    case 9: { TT c(a,&al2); c.valid(va,"copy"); if (!has(va,1000001)) c.insert(1000001); a.valid(va,"source of a copy"); } break;
    case 10: b=a; vb=va; break;
    case 11: a=b; va=vb; break;
    case 12: a.swap(b); std::swap(va,vb); a.valid(va,"swapped"); b.valid(vb,"swapped other"); a.swap(b); std::swap(va,vb); { TT c(static_cast<TT&&>(a)); c.valid(va,"moved"); a.valid(V(),"moved from"); a.swap(c); } break;
    case 13: if ((o/14)%5==0) { a.clear(); va.clear(); } else if ((o/14)%5==1) { b.clear(); vb.clear(); } break;
    }
    a.valid(va,"tree"); b.valid(vb,"other tree"); CHECK(g_col || live_blocks(&al)==va.size() && live_blocks(&al2)==vb.size(),"nodes in use");
    if (q) queries(a,va);
  } }
  CHECK(g_col || (al.size()==0 && al2.size()==0),"nodes left in use");
}
static void trees(bool q) {
  Rng r(g_seed); g_col=!q;
  // every order of insertion, and every order of removal, of up to 6 (5) elements
  for(int n=1;n<=6;n++) { std::vector<int> p; for(int i=0;i<n;i++) p.push_back(i);
    do { std::vector<int> o; for(int x: p) o.push_back(14*x); for(int i=0;i<n;i++) o.push_back(14*((p[i]*7+i)%n)+5); begin("permutation "+str(p)); tree_run(o,q); if (!time_left()) return; } while(std::next_permutation(p.begin(),p.end())); }
  while(time_left() && g_cases<100000) { std::vector<int> o; int n=r.range(1,60), m=r.range(2,60), del=r(3); for(int i=0;i<n;i++) { int op=r(14); if (del==0 && op>4 && op<9) op=0; if (del==1 && i>n/2 && r(2)) op=5; o.push_back(14*r(m)+op); } begin("seed "+std::to_string(r.s)); tree_run(o,q); }
}
TEST(C15) { trees(true); }
TEST(C16) { trees(false); }
