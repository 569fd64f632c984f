// Register-machine histories over RationalConstant (q), ScalingFactor (sf) and Units (u).
#include "vp.hpp"
#include "ekat_units.hpp"
#include <functional>
using namespace ekat; using std::string; using vp::Rec; using U=units::Units; using Q=RationalConstant; using SF=ScalingFactor;
// A register keeps its scaling in f also when it holds units. What is beyond
// the integers of the implementation is not asked: powers of the bases to the
// smallest integer exponents that express the operation.
static const double LIM=60;
static long long G(long long a,long long b) { a=std::llabs(a); b=std::llabs(b); while(b) { long long t=a%b; a=b; b=t; } return a?a:1; }
static double B(const Q& q) { return std::max(std::log2(std::fabs((double)q.num)),std::log2((double)q.den)); }
static bool same(const Q& a,const Q& b) { return a.num==b.num&&a.den==b.den; }
static bool small(const Q& q) { return std::llabs(q.num)<=400&&q.den<=400; }
static bool okEq(const SF& a,const SF& b) { return small(a.exp)&&small(b.exp); }
static bool okMul(const SF& a,const SF& b) { if(!same(a.base,b.base)&&B(a.base)+B(b.base)>LIM) return false;
  if(same(a.base,b.base)) return small(a.exp+b.exp)&&small(a.exp-b.exp); if(same(a.exp,b.exp)) return true;
  long long g=G(a.exp.den,b.exp.den); return a.exp.den/g*b.exp.den<=400&&B(a.base)*std::llabs(a.exp.num*(b.exp.den/g))+B(b.base)*std::llabs(b.exp.num*(a.exp.den/g))<=LIM; }
struct Reg { char k; Q q; SF f; U u; int pd; };
static std::vector<Reg> reg;
static Reg mk(const Q& q) { return Reg{'q',q,SF(q),U(SF(1)),0}; }
static Reg mk(const SF& f,int pd) { return Reg{'f',Q(1),f,U(SF(1)),pd}; }
static Reg mk(const U& u,const SF& f,int pd) { return Reg{'u',Q(1),f,u,pd}; }
static string name(const Reg& r) { return r.k=='q'?r.q.to_string():r.k=='f'?r.f.to_string():r.u.to_string(); }
static int eqv(const Reg& a,const Reg& b) {
  if (!okEq(a.f,b.f)) return 2;
  if (a.k=='q'&&b.k=='q') return a.q==b.q;
  if (a.k=='f'&&b.k=='f') { bool e=a.f==b.f; return e==!(a.f!=b.f)?e:3; }
  if (a.k=='u'&&b.k=='u') { bool e=a.u==b.u; return e==!(a.u!=b.u)?e:3; }
  if (a.k=='q'&&b.k=='f') return a.q==b.f; if (a.k=='f'&&b.k=='q') return a.f==b.q;
  if (a.k=='u'&&b.k=='f') return a.u==U(b.f); if (a.k=='f'&&b.k=='u') return U(a.f)==b.u;
  return a.k=='u'? a.u==U(SF(b.q)) : U(SF(a.q))==b.u; }
static Rec& put(Rec& r,const Reg& x) {
  std::vector<int> eq; for(auto& y:reg) eq.push_back(eqv(x,y)); eq.push_back(eqv(x,x)); eq.pop_back();
  for(size_t i=0;i<reg.size();++i) if(eq[i]!=eqv(reg[i],x)) eq[i]=4;   // symmetric
  r.b("err",false).t("kind",x.k=='q'?"q":x.k=='f'?"sf":"u").c("name",name(x));
  if(x.k=='f') r.c("repr",x.f.string_repr<100>().data());
  if(x.k=='u') { std::stringstream ss; ss<<x.u; r.c("name2",ss.str()).c("si",x.u.get_si_string()).b("dimless",x.u.is_dimensionless()).b("scaled",x.u.is_scaled()).b("hassym",x.u.has_symbol()); }
  r.a("eq",eq); reg.push_back(x); return r; }
template<class F> static void step(const Rec& r0,F f) { Rec& r=const_cast<Rec&>(r0);
  try { Reg x=f(); put(r,x); } catch(const std::exception&) { r.b("err",true); } }
struct Cst { const char* n; const U* u; long long num,den; };
int main() {
  using namespace ekat::units; vp::Rng g(vp::seed());
  static const U uh=units::h, ug=units::g; 
  std::vector<Cst> cs={{"m",&m},{"s",&s},{"kg",&kg},{"K",&K},{"A",&A},{"mol",&mol},{"cd",&cd},{"1",&none},{"h",&units::h,3600},{"day",&day,86400},{"yr",&year,365*86400},{"g",&units::g,1,1000},{"N",&N},{"Pa",&Pa},{"bar",&bar,100000},{"atm",&atm,101325},{"J",&J},{"W",&W},{"C",&units::C},{"V",&V},{"T",&T},{"F",&F},{"Wb",&Wb},{"H",&H},{"Sv",&Sv},{"Hz",&Hz},{"rad",&rad},{"sr",&sr},{"dyn",&dyn,1,100000},{"rem",&rem,1,100}};
  auto sc=[&](int i) { return SF(Q(cs[i].num?cs[i].num:1,cs[i].den?cs[i].den:1)); };
  // every predefined unit; each against all others
  Rec("New"); reg.clear();
  for(size_t i=0;i<cs.size();++i) step(Rec("Const"),[&]{return mk(*cs[i].u,sc(i),0);});
  const SF* pf[]={&prefixes::nano,&prefixes::micro,&prefixes::milli,&prefixes::centi,&prefixes::hecto,&prefixes::kilo,&prefixes::mega,&prefixes::giga};
  int pk[]={-9,-6,-3,-2,2,3,6,9};
  // every prefix on every symbol
  for(int p=0;p<8;++p) { Rec("New"); reg.clear(); step(Rec("Prefix").i("k",pk[p]),[&]{return mk(*pf[p],0);});
    for(size_t i=0;i<cs.size();++i) { step(Rec("Const"),[&]{return mk(*cs[i].u,sc(i),0);}); int j=reg.size();
      step(Rec("Mul").i("i",1).i("j",j),[&]{return mk((*pf[p])*(*cs[i].u),sc(i)**pf[p],0);}); 
      step(Rec("Mul").i("i",j).i("j",1),[&]{return mk((*cs[i].u)*(*pf[p]),sc(i)**pf[p],0);}); } }
  // products, quotients, powers of every pair of basics
  for(size_t i=0;i<cs.size();++i) { Rec("New"); reg.clear(); step(Rec("Const"),[&]{return mk(*cs[i].u,sc(i),0);});
    for(auto q:{Q(2),Q(-1),Q(1,2),Q(-2,3),Q(0),Q(3)}) step(Rec("Pow").i("i",1).i("n",q.num).i("d",q.den),[&]{return mk(pow(*cs[i].u,q),pow(sc(i),q),1);}); 
    if(i<8||vp::thorough()) for(size_t j=0;j<cs.size();++j) { step(Rec("Const"),[&]{return mk(*cs[j].u,sc(j),0);}); int k=reg.size();
      step(Rec("Mul").i("i",1).i("j",k),[&]{return mk(*cs[i].u**cs[j].u,sc(i)*sc(j),0);}); step(Rec("Div").i("i",1).i("j",k),[&]{return mk(*cs[i].u / *cs[j].u,sc(i)/sc(j),0);}); } }
  // scaling factors: bases and exponents
  Rec("New"); reg.clear();
  for(int n: {-6,-3,-1,1,2,5,8,10,12}) for(int d:{1,2,7}) for(int en:{-3,-2,-1,0,1,2,4}) for(int ed:{1,2,3}) { if(reg.size()>40) {Rec("New"); reg.clear();}
    step(Rec("SF").i("n",n).i("d",d).i("en",en).i("ed",ed),[&]{return mk(SF(Q(n,d),Q(en,ed)),0);}); }
  // large exponents and deep roots of few bases
  Rec("New"); reg.clear();
  for(int n: {2,10,7,-3}) for(int en: {1,-1,9,-9,27,16}) for(int ed: {1,2,4,8,16,3,27}) { if(reg.size()>40) {Rec("New"); reg.clear();}
    step(Rec("SF").i("n",n).i("d",1).i("en",en).i("ed",ed),[&]{return mk(SF(Q(n),Q(en,ed)),0);}); }
  for(int en=-2;en<=2;++en) { bool e=false; try { SF x(Q(0),Q(en)); } catch(const std::exception&) {e=true;} if(en>=0) Rec("Zero").i("en",en).b("err",e); }
  // zero as a scaling: equal to zero only, whatever its exponent; absorbs
  { std::vector<SF> z={SF::zero(),SF(Q(0),2),SF(Q(0),Q(1,3)),SF(Q(0,5),Q(7,2)),SF::zero()*SF(3),SF(Q(-2))*SF::zero(),SF::zero()/SF(5),SF::zero()*SF(Q(0),2)},o={SF::one(),SF(-1),SF(Q(1,7)),SF(2,Q(1,2)),SF(10,-9),SF(-3,Q(1,3))};
    std::vector<int> eq,ne; for(auto&x:z) { for(auto&y:z) eq.push_back(x==y&&!(x!=y)); for(auto&y:o) ne.push_back(x!=y&&y!=x&&!(x==y)&&!(y==x)); eq.push_back(x==Q(0)&&Q(0)==x); U u(x); eq.push_back(u==U(SF::zero())); ne.push_back(u!=none); }
    Rec("ZeroEq").a("eq",eq).a("ne",ne).c("name",SF::zero().to_string()); }
  int H=vp::thorough()?2500:160, L=26;
  for(int hh=0;hh<H;++hh) {
    Rec("New"); reg.clear(); int fresh=0; bool neg=hh%3==0;
    for(int t=0;t<L;++t) {
      int op=g.below(20); int n=reg.size();
      if(n<3||op<3) { switch(g.below(5)) {
        case 0: { int a=g.pick(std::vector<int>{1,2,3,5,10,100,7,9,-2,-3}),b=g.pick(std::vector<int>{1,1,2,3,7,10}); if(!neg) a=std::abs(a); step(Rec("Q").i("n",a).i("d",b),[&]{return mk(Q(a,b));}); break; }
        case 1: { int p=g.below(8); step(Rec("Prefix").i("k",pk[p]),[&]{return mk(*pf[p],0);}); break; }
        case 2: { int a=g.pick(std::vector<int>{1,2,3,10,100,4,8,-2,-27}),b=g.pick(std::vector<int>{1,1,2,3}); if(!neg) a=std::abs(a); int en=g.range(-3,3),ed=g.range(1,3); if(g.below(4)==0) { en=g.range(-9,9); ed=g.pick(std::vector<int>{1,2,4,8}); }
                  step(Rec("SF").i("n",a).i("d",b).i("en",en).i("ed",ed),[&]{return mk(SF(Q(a,b),Q(en,ed)),0);}); break; }
        case 3: if(g.below(3)==0) { std::vector<Q> e; string x="["; for(int i=0;i<7;++i) { int a=g.range(-3,3),b=g.range(1,3); e.push_back(Q(a,b)); x+=(i?",[":"[")+std::to_string(a)+","+std::to_string(b)+"]"; } int a=g.pick(std::vector<int>{1,2,10});
                  string nm="x"+std::to_string(100+fresh++);
                  step(Rec("Unit").i("n",a).i("d",1).raw("exps",x+"]").c("as",nm),[&]{return mk(U(e[0],e[1],e[2],e[3],e[4],e[5],e[6],SF(a),nm),SF(a),1);});
                  break; } // fallthrough
        default: { int i=g.below(cs.size()); step(Rec("Const"),[&]{return mk(*cs[i].u,sc(i),0);}); } }
        continue; }
      int i=g.below(n),j=g.below(n); Reg a=reg[i],b=reg[j];
      if(op<14) {
        if(!okMul(a.f,b.f)||name(a).size()+name(b).size()>110||a.pd+b.pd>4) continue;
        bool mul=op<9; Rec r(mul?"Mul":"Div"); r.i("i",i+1).i("j",j+1); int pd=std::max(a.pd,b.pd);
        step(r,[&]()->Reg{
          if(a.k=='q'&&b.k=='q') return mk(mul?a.q*b.q:a.q/b.q);
          if(a.k!='u'&&b.k!='u') { SF f(1);
            if(a.k=='q') f=mul?a.q*b.f:a.q/b.f; else if(b.k=='q') f=mul?a.f*b.q:a.f/b.q; else { if(mul&&g.below(2)) { f=a.f; f*=b.f; } else f=mul?a.f*b.f:a.f/b.f; }
            return mk(f,pd); }
          U u(SF(1));
          if(a.k=='q') u=mul?a.q*b.u:a.q/b.u; else if(a.k=='f') u=mul?a.f*b.u:a.f/b.u;
          else if(b.k=='q') u=mul?a.u*b.q:a.u/b.q; else if(b.k=='f') u=mul?a.u*b.f:a.u/b.f; else u=mul?a.u*b.u:a.u/b.u;
          return mk(u,mul?a.f*b.f:a.f/b.f,pd); });
      } else if(op<17) {
        int pn=g.range(-4,4),pd=g.pick(std::vector<int>{1,2,3,4,8}); if(a.k=='q') pd=1; Q q(pn,pd);
        if(a.pd>=3||name(a).size()>100) continue;
        if(a.k=='q'&&B(a.q)*std::abs(pn)>LIM) continue;
        bool root=g.below(4)==0&&a.k!='q'; if(root) { pn=1;pd=2;q=Q(1,2); }
        if(!small(a.f.exp*q)) continue;
        Rec r("Pow"); r.i("i",i+1).i("n",pn).i("d",pd);
        step(r,[&]()->Reg{ if(a.k=='q') return mk(pow(a.q,pn)); if(a.k=='f') return mk(root?sqrt(a.f):pd==1&&g.below(2)?pow(a.f,pn):pow(a.f,q),a.pd+1); return mk(root?sqrt(a.u):pow(a.u,q),root?sqrt(a.f):pow(a.f,q),a.pd+1); });
      } else if(op==17) { if(a.k=='u') { string nm="x"+std::to_string(fresh++); step(Rec("Rename").i("i",i+1).c("as",nm),[&]{return mk(g.below(2)?a.u.rename(nm):U(a.u,nm),a.f,a.pd);}); } }
      else if(op==18) { if(a.k=='f') step(Rec("Conv").i("i",i+1),[&]{return mk(U(a.f),a.f,a.pd);}); else if(a.k=='q') step(Rec("Conv").i("i",i+1),[&]{return mk(SF(a.q),a.pd);}); }
      else { U inv=U::invalid(); std::vector<int> eq; for(auto&x:reg) eq.push_back(x.k!='u'||!small(x.f.exp)?2:(inv==x.u||x.u==inv)); Rec("Invalid").b("self",inv==U::invalid()).a("eq",eq); }
    }
  }
  return 0;
}
