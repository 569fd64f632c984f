// Rational constants: every small operand pair, and random large ones whose exact results fit.
#include "vp.hpp"
#include "ekat_rational_constant.hpp"
#include <functional>
using ekat::RationalConstant; using std::string; using vp::Rec; using Q=RationalConstant; typedef long long ll; typedef __int128 LL;
static string Q2(const Q& q) { return "["+std::to_string(q.num)+","+std::to_string(q.den)+"]"; }
static string txt(ll x) { return Rec::codes(std::to_string(x)); }
static string QT(const Q& q) { return "["+txt(q.num)+","+txt(q.den)+"]"; }
template<class F> static bool guarded(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
static void bez(ll a,ll b,ll& u,ll& v) { // u*a+v*b=gcd, b>0
  LL r0=a<0?-(LL)a:a,r1=b,s0=1,s1=0,t0=0,t1=1; while(r1) { LL q=r0/r1,x; x=r0-q*r1;r0=r1;r1=x; x=s0-q*s1;s0=s1;s1=x; x=t0-q*t1;t0=t1;t1=x; }
  u=a<0?-s0:s0; v=t0; }
static void make(ll n,ll d) { Q r(1); bool e=guarded([&]{r=Q(n,d);}); Rec("Make").i("n",n).i("d",d).b("err",e).raw("r",e?"[0,1]":Q2(r)); }
template<class T> static void makeT(T n,T d) { Q r(1); bool e=guarded([&]{r=Q(n,d);}); Rec("Make").i("n",n).i("d",d).b("err",e).raw("r",e?"[0,1]":Q2(r)); }
static void op(char o,const Q& a,const Q& b,int how=0) {
  Q r(1);
  bool e=guarded([&]{
    if(how==1) r= o=='+'?a.num+b:o=='-'?a.num-b:o=='*'?a.num*b:a.num/b;       // integer on the left
    else if(how==2) r= o=='+'?a+(int)b.num:o=='-'?a-(int)b.num:o=='*'?a*(int)b.num:a/(int)b.num;
    else r= o=='+'?a+b:o=='-'?a-b:o=='*'?a*b:a/b; });
  Rec("Op").t("op",string(1,o)).raw("a",Q2(a)).raw("b",Q2(b)).b("err",e).raw("r",e?"[0,1]":Q2(r)); }
template<class T> static void powr(const Q& a,T k) { Q r(1); bool e=guarded([&]{r=pow(a,k);}); Rec("Pow").raw("a",Q2(a)).i("k",k).b("err",e).raw("r",e?"[0,1]":Q2(r)); }
static void big(const string& o,const string& a,const string& b,int k,std::function<Q()> f) {
  Q r(1); bool e=guarded([&]{r=f();}); ll u=0,v=0; if(!e && r.den>0) bez(r.num,r.den,u,v);
  Rec("Big").t("op",o).raw("a",a).raw("b",b).i("k",k).b("err",e).raw("r",e?"[[48],[49]]":QT(r)).raw("u",txt(u)).raw("v",txt(v)); }
static void str(const Q& q) {
  string s; bool e=guarded([&]{s=q.to_string();}); Rec("Str").raw("a",QT(q)).b("err",e).c("r",s);
  e=guarded([&]{ auto x=q.string_repr<64>(); s=string(x.data()); }); Rec("Str").raw("a",QT(q)).b("err",e).c("r",s);
  std::stringstream ss; ss<<q; Rec("Str").raw("a",QT(q)).b("err",false).c("r",ss.str());
  e=guarded([&]{s=q.to_string(ekat::Format::Float);}); Rec("Float").raw("a",QT(q)).b("err",e).c("r",s); }
static bool fits(LL x) { LL m=((LL)1<<62); return x<m && x>-m; }
static LL gg(LL a,LL b) { if(a<0)a=-a; if(b<0)b=-b; while(b) { LL t=a%b;a=b;b=t; } return a; }
// results that fit; for sums also the numerator over the least common denominator
static bool fitsQ(LL n,LL d) { LL h=gg(n,d); return h==0||(fits(n/h)&&fits(d/h)); }
static void ops(const Q& a,const Q& b) {
  LL h=gg(a.den,b.den), x=(LL)a.num*(b.den/h), y=(LL)b.num*(a.den/h), z=(a.den/h)*(LL)b.den;
  if(fits(x)&&fits(y)&&fits(x+y)&&fitsQ(x+y,z)) big("+",QT(a),QT(b),0,[&]{return a+b;});
  if(fits(x)&&fits(y)&&fits(x-y)&&fitsQ(x-y,z)) big("-",QT(a),QT(b),0,[&]{return a-b;});
  if(fitsQ((LL)a.num*b.num,(LL)a.den*b.den)) big("*",QT(a),QT(b),0,[&]{return a*b;});
  if(fitsQ((LL)a.num*b.den,(LL)a.den*b.num)) big("/",QT(a),QT(b),0,[&]{return a/b;}); }
static void eqall(const Q& a,const Q& b) { Rec("BigEq").raw("a",QT(a)).raw("b",QT(b)).b("eq",a==b).b("ne",a!=b); }
int main() {
  bool T=vp::thorough(); vp::Rng g(vp::seed());
  int M=T?80:40; for(int n=-M;n<=M;++n) for(int d=-M;d<=M;++d) make(n,d);
  for(int n=-12;n<=12;++n) for(int d=-12;d<=12;++d) { makeT<int>(n,d); makeT<short>(n,d); makeT<signed char>(n,d); makeT<long>(n,d); if(n>=0&&d>=0) { makeT<unsigned>(n,d); makeT<unsigned long>(n,d);} }
  std::vector<Q> v; int K=T?9:5; for(int n=-K;n<=K;++n) for(int d=1;d<=K;++d) { bool dup=false; Q q(n,d); for(auto&x:v) dup|=(x.num==q.num&&x.den==q.den); if(!dup) v.push_back(q); }
  for(auto&a:v) { Rec("Neg").raw("a",Q2(a)).b("err",false).raw("r",Q2(-a)); str(a);
    for(auto&b:v) { for(char o:string("+-*/")) op(o,a,b); Rec("Eq").raw("a",Q2(a)).raw("b",Q2(b)).b("eq",a==b).b("ne",a!=b);
      if(a.den==1) for(char o:string("+-*/")) op(o,a,b,1); if(b.den==1) for(char o:string("+-*/")) op(o,a,b,2); }
    for(int k=-8;k<=8;++k) { powr(a,k); powr(a,(ll)k); powr(a,(short)k); } }
  Rec("Eq").raw("a",Q2(Q(6,4))).raw("b",Q2(Q(-3,-2))).b("eq",Q(6,4)==Q(-3,-2)).b("ne",Q(6,4)!=Q(-3,-2));
  { constexpr Q a(9,-6); constexpr Q b=a+Q(1,3); constexpr Q c=pow(b,-3); constexpr bool q=a==Q(-3,2);
    Rec("Op").t("op","+").raw("a",Q2(a)).raw("b","[1,3]").b("err",false).raw("r",Q2(b)); Rec("Pow").raw("a",Q2(b)).i("k",-3).b("err",false).raw("r",Q2(c)); Rec("Eq").raw("a",Q2(a)).raw("b","[-3,2]").b("eq",q).b("ne",!q);
    Rec("Make").i("n",1).i("d",1).b("err",false).raw("r",Q2(Q::one())); Rec("Make").i("n",0).i("d",1).b("err",false).raw("r",Q2(Q::zero())); }
  int N=T?6000:900;
  auto rnd=[&](int bits){ ll x=(ll)(g.next()>>(64-bits)); return g.below(2)?-x:x; };
  for(int i=0;i<N;++i) {
    int b1=g.range(1,61); ll n=rnd(b1),d=rnd(g.range(1,61)); if(g.below(4)==0) { ll c=rnd(g.range(1,28)); n=rnd(30)*c; d=rnd(30)*c; }
    string A="["+txt(n)+",[49]]",B="["+txt(d)+",[49]]"; big("make",A,B,0,[&]{return Q(n,d);});
    if(d==0) continue; Q q(n,d); str(q); big("neg",QT(q),QT(q),0,[&]{return -q;});
    int bits=g.range(2,30); Q a(rnd(bits),std::max<ll>(1,std::abs(rnd(bits)))), b(rnd(bits),std::max<ll>(1,std::abs(rnd(bits))));
    if(g.below(3)==0) b=Q(b.num,a.den);
    ops(a,b);
    { // operands of any size whose results fit: common factors in the denominators, and across
      int c1=g.range(1,40),c2=g.range(1,60-c1); ll f=std::max<ll>(1,std::abs(rnd(c1))),f2=std::max<ll>(1,std::abs(rnd(c1)));
      Q s(rnd(c2),f*std::max<ll>(1,std::abs(rnd(g.range(1,60-c1))))), t(rnd(c2),f*std::max<ll>(1,std::abs(rnd(g.range(1,60-c1)))));
      ops(s,t); ops(s,s); ops(t,Q(-t.num,t.den)); ops(s,Q(t.num,s.den));
      Q m1(f*std::max<ll>(1,std::abs(rnd(60-c1))),f2), m2(f2*rnd(60-c1),f*std::max<ll>(1,std::abs(rnd(60-c1)))); ops(m1,m2); if(m2.num) ops(m1,Q(m2.den,m2.num));
      // cross products that agree modulo 2^64 only
      int k=g.range(20,60); ll o=2*(rnd(10)/2)+1; if(o<0) o=-o; Q p1((1LL<<k),o), p2((1LL<<k),o+(k>=2?(1LL<<(64-k)):0)); if(k>4) eqall(p1,p2); eqall(s,t); eqall(s,s); eqall(m1,m2); eqall(Q(1LL<<g.range(30,62)),Q(1LL,1LL<<g.range(2,62))); }
    Q c=g.below(2)?Q(a.num*3,a.den*3):b; Rec("BigEq").raw("a",QT(a)).raw("b",QT(c)).b("eq",a==c).b("ne",a!=c);
    { // neighbours: fractions whose difference is the smallest there is, and large integers one apart
      ll u,v; bez(a.num,a.den,u,v); Q near(1); bool ok=u!=0; if(ok) near = u>0? Q(-v,u):Q(v,-u);  // u*num+v*den=1
      auto eqs=[&](const Q& s,const Q& t){ Rec("BigEq").raw("a",QT(s)).raw("b",QT(t)).b("eq",s==t).b("ne",s!=t); };
      if(ok) { eqs(a,near); eqs(near,a); eqs(Q(-a.num,a.den),near); }
      ll w=rnd(g.range(40,61)); eqs(Q(w),Q(w+1)); eqs(Q(w),Q(w)); eqs(Q(w,1LL<<g.range(1,40)),Q(w)); eqs(Q(w),Q(-w)); }
    Q p(g.range(-40,40),g.range(1,40)); int k=g.range(-62,62); double lb=std::abs(k)*std::max(std::log2(std::max(1.0,std::fabs((double)p.num))),std::log2((double)p.den));
    if(lb<61) big("pow",QT(p),QT(p),k,[&]{return pow(p,k);});
  }
  return 0;
}
