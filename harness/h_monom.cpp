#include "monoms.h"
static void one(const MV& a,const MV& b,const MV& c,const std::string& part) {
  begin("a="+str(a)+" b="+str(b)+" c="+str(c));
  const int n=(int)a.e.size();
  Allocator al; Allocator al2;
  {
  MM A(&al,a),B(&al,b),C(&al,c);
  eq(A.m,a.e,a.pos,"built monomial");
  if (part=="C01") {
    for(int v=0;v<n;v++) { Monom x(&al2,v,n,a.pos); V e(n,0); e[v]=1; eq(x,e,a.pos,"single variable");
      Monom y(&al2,v,A.m); V ea(a.e); ea[v]++; eq(y,ea,a.pos,"copy times variable");
      Monom z(&al2,B.m); z.mult(v,A.m); eq(z,ea,a.pos,"mult(variable, monomial)"); }
    { Monom x(&al2,n,a.pos); eq(x,V(n,0),a.pos,"unit"); }
    { Monom x(&al2,A.m); eq(x,a.e,a.pos,"copy"); x=B.m; eq(x,b.e,b.pos,"assign"); eq(B.m,b.e,b.pos,"source of assign"); }
    for(int k=0;k<4;k++) { Monom x(&al2,A.m,k); V e(a.e); for(int& t: e) t*=k; eq(x,e,a.pos,"power"); }
    if (a.pos==-1 || b.pos==-1) { int p=a.pos==-1?b.pos:a.pos; Monom x(&al2,A.m,B.m); eq(x,plus(a.e,b.e),p,"product"); Monom y(&al2,A.m); y.mult(B.m); eq(y,plus(a.e,b.e),p,"in-place product"); 
      Monom t1(&al2,A.m); Monom q(std::move(t1)*B.m); eq(q,plus(a.e,b.e),p,"operator*"); }
    if (dvd(a,b)) { Monom x(&al2,A.m); x.div(B.m); V e(a.e); for(int i=0;i<n;i++) e[i]-=b.e[i]; eq(x,e,b.pos==-1?a.pos:-1,"quotient"); }
    { Monom x(&al2,A.m),y(&al,B.m); x.swap(y); eq(x,b.e,b.pos,"swap"); eq(y,a.e,a.pos,"swap"); }
    { Monom x(&al2,A.m); Monom y(std::move(x)); eq(y,a.e,a.pos,"move"); Monom z(&al2,B.m); z=std::move(y); eq(z,a.e,a.pos,"move assign"); }
    { RandPermutation_mt19937 p(n); p.next(); Monom x(&al2,B.m); x.permutation(A.m,p); V e(n); for(int i=0;i<n;i++) e[i]=a.e[p[i]]; CHECK(x.degree()==deg(e),"permutation: degree"); for(int i=0;i<n;i++) CHECK(x[i]==e[i],"permutation: exponent " << i); }
    eq(A.m,a.e,a.pos,"operand a"); eq(B.m,b.e,b.pos,"operand b");
  }
  if (part=="C02") {
    CHECK(A.m.divisiable(B.m)==dvd(a,b), "divisible: " << A.m.divisiable(B.m) << ", expected " << dvd(a,b));
    bool e=a.pos==b.pos && a.e==b.e; CHECK((A.m==B.m)==e, "operator==: " << (A.m==B.m)); CHECK((A.m!=B.m)==!e, "operator!=");
    if (a.pos==-1 || b.pos==-1) { int g=0,l=0; for(int i=0;i<n;i++) { g+=std::min(a.e[i],b.e[i]); l+=std::max(a.e[i],b.e[i]); }
      CHECK(A.m.gcd(B.m)==g,"gcd degree " << A.m.gcd(B.m) << ", expected " << g); CHECK(A.m.lcm(B.m)==l,"lcm degree " << A.m.lcm(B.m) << ", expected " << l); }
  }
  if (part=="C03") {
    CHECK(A.m.lex(B.m)==s_lex(a.e,b.e),"lex " << A.m.lex(B.m)); CHECK(A.m.deglex(B.m)==s_deglex(a.e,b.e),"deglex " << A.m.deglex(B.m)); CHECK(A.m.alex(B.m)==s_alex(a.e,b.e),"alex " << A.m.alex(B.m));
    if (b.pos==-1 || c.pos==-1) { V p=plus(b.e,c.e);
      CHECK(A.m.lex(B.m,C.m)==s_lex(a.e,p),"lex of the product " << A.m.lex(B.m,C.m)); CHECK(A.m.deglex(B.m,C.m)==s_deglex(a.e,p),"deglex of the product " << A.m.deglex(B.m,C.m)); CHECK(A.m.alex(B.m,C.m)==s_alex(a.e,p),"alex of the product " << A.m.alex(B.m,C.m)); 
      V d=plus(b.e,c.e); MM D(&al2,MV{d,-1}); CHECK(D.m.lex(B.m,C.m)==0,"lex of an equal product"); CHECK(D.m.deglex(B.m,C.m)==0,"deglex of an equal product"); CHECK(D.m.alex(B.m,C.m)==0,"alex of an equal product"); }
  }
  eq(A.m,a.e,a.pos,"operand a afterwards"); eq(B.m,b.e,b.pos,"operand b afterwards"); eq(C.m,c.e,c.pos,"operand c afterwards");
  CHECK(live_blocks(&al2)==0,"temporaries leave memory in use"); CHECK(al2.size()==0,"used size of the temporaries' allocator is " << al2.size());
  }
  CHECK(al.size()==0,"used size after destruction is " << al.size());
}
TEST(C01) { triples([](const MV& a,const MV& b,const MV& c) { one(a,b,c,"C01"); });
  Monom::rand_init(4,1,5); Allocator al; { Monom m(&al,4,-1); for(int k=0;k<200;k++) { begin("rand_next"); Monom::rand_next(m); V e; for(int i=0;i<4;i++) { e.push_back(m[i]); CHECK(m[i]>=0,"random monomial: negative exponent"); } eq(m,e,-1,"random monomial"); CHECK(deg(e)>=1 && deg(e)<=5,"random monomial: degree out of range"); } Monom* q=Monom::rand_next(&al); V e; for(int i=0;i<4;i++) e.push_back((*q)[i]); eq(*q,e,-1,"random monomial"); delete q; } }
TEST(C02) { triples([](const MV& a,const MV& b,const MV& c) { one(a,b,c,"C02"); }); }
TEST(C03) { triples([](const MV& a,const MV& b,const MV& c) { one(a,b,c,"C03"); }); }
