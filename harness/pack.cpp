// Arithmetic, selection, shifts, reductions and functions of packs.
#include "packreg.hpp"
#include <cfloat>
template<class D,class A> static bool apply(int o,D& d,const A& a) { D* p; switch(o) { case 0: p=&(d=a); break; case 1: p=&(d+=a); break; case 2: p=&(d-=a); break; case 3: p=&(d*=a); break; default: p=&(d/=a); } return p==&d; }
template<class D,class A> static void vapply(int o,volatile D& d,A& a) { switch(o) { case 0: d=a; break; case 1: d+=a; break; case 2: d-=a; break; case 3: d*=a; break; default: d/=a; } }
template<int n> struct Arith: Regs<n> {
  using R=Regs<n>; using R::on; using R::fit; using R::m;
  template<class A,class B> void bin1(int o,const A& a,const B& b,const string& sa,const string& sb) {
    auto rec=[&](const auto& r) { Rec("Bin").t("o",string(1,"+-*/"[o])).raw("a",sa).raw("b",sb).t("t",Ty<typename std::decay_t<decltype(r)>::scalar>::s()).a("r",lanes(r)); };
    switch(o) { case 0: rec(a+b); break; case 1: rec(a-b); break; case 2: rec(a*b); break; default: rec(a/b); } }
  void bin() { int o=g.below(4),a=g.below(6),b=g.below(6),form=g.below(3); bool both=a>3&&b>3;
    if(form==0) { fit(a,true); fit(b,true,o==3?both+1:0); this->on(a,[&](auto& A) { this->on(b,[&](auto& B) { this->bin1(o,A,B,opnd(a),opnd(b)); }); }); }
    else if(form==1) { fit(a,true); scalar(o==3,false,[&](auto s) { this->on(a,[&](auto& A) { this->bin1(o,A,s,opnd(a),scal(s)); }); }); }
    else { fit(a,true,o==3?1:0); scalar(false,false,[&](auto s) { this->on(a,[&](auto& A) { this->bin1(o,s,A,scal(s),opnd(a)); }); }); } }
  void neg() { int a=g.below(6); fit(a,true); this->on(a,[&](auto& A) { Rec("Neg").raw("a",opnd(a)).a("r",lanes(-A)); }); }
  void asg() { static const char* nm[]={"=","+","-","*","/"}; int o=g.below(5),d=g.below(6),a=g.below(6),form=g.below(5); bool nan=d<4&&form!=4;
    fit(d,nan&&!(o&&a>3&&false)); if(form!=1) { fit(a,nan,o==4?(d>3&&a>3)+1:0); if(d==a) fit(d,nan); }
    auto done=[&](const string& sa,bool same) { this->on(d,[&](auto& D) { Rec("Asg").t("o",nm[o]).t("d",name(d)).raw("a",sa).b("same",same).a("v",lanes(D)); }); };
    if(form==1) scalar(o==4,d>3,[&](auto s) { if(o==4&&d>3&&!std::is_same<decltype(s),int>::value) return; bool same=true; this->on(d,[&](auto& D) { same=apply(o,D,s); }); done(scal(s),same); });
    else if(form==0) { bool same=true; this->on(d,[&](auto& D) { this->on(a,[&](auto& A) { same=apply(o,D,A); }); }); done(opnd(a),same); }
    else if(form==2) { bool same=true; this->on(d,[&](auto& D) { this->on(a,[&](auto& A) { const volatile auto& V=A; if constexpr(std::is_same<decltype(D),decltype(A)>::value) { switch(o) { case 0: same=&(D=V)==&D; break; case 1: same=&(D+=V)==&D; break; case 2: same=&(D-=V)==&D; break; case 3: same=&(D*=V)==&D; break; default: same=&(D/=V)==&D; } }
        else { switch(o) { case 0: D=V; break; case 1: D+=V; break; case 2: D-=V; break; case 3: D*=V; break; default: D/=V; } } }); }); done(opnd(a),same); }
    else if(form==3) { this->on(d,[&](auto& D) { this->on(a,[&](auto& A) { vapply(o,D,A); }); }); done(opnd(a),true); }
    else { // volatile to volatile of the same type, possibly itself
      int a2=d^g.below(2); fit(a2,nan,o==4?(d>3)+1:0); this->on(d,[&](auto& D) { this->on(a2,[&](auto& A) { if constexpr(std::is_same<decltype(D),decltype(A)>::value) { volatile auto& V=A; vapply(o,D,V); } }); }); done(opnd(a2),true); } }
  // the scalar operand is a lane of the pack that is assigned
  void lane() { static const char* nm[]={"=","+","-","*","/"}; int o=g.below(5),d=g.below(6),k=g.below(n),q=g.below(n),j=g.below(2); fit(d,d<4&&o!=4,o==4?(d>3)+1:0);
    this->on(d,[&](auto& D) { string x=scal(D[k]); bool same=apply(o,D,D[k]); Rec("Asg").t("o",nm[o]).t("d",name(d)).raw("a",x).b("same",same).a("v",lanes(D)); });
    fit(d,d<4); this->on(d,[&](auto& D) { string x=scal(D[k]),y=scal(D[q]); bool same=&D.set(this->m[j],D[k],D[q])==&D; Rec("Set").t("d",name(d)).t("m",j?"m1":"m0").raw("a",x).raw("b",y).b("same",same).a("v",lanes(D)); });
    this->on(d,[&](auto& D) { string x=scal(D[q]); bool same=&D.set(this->m[j],D[q])==&D; Rec("Set").t("d",name(d)).t("m",j?"m1":"m0").raw("a",x).raw("b",opnd(d)).b("same",same).a("v",lanes(D)); }); }
  void minmax() { int o=g.below(2),a=g.below(6),form=g.below(3); fit(a,false);
    auto rec=[&](const string& x,const string& y,const auto& r) { Rec("MinMax").t("o",o?"max":"min").raw("a",x).raw("b",y).t("t",string(1,name(a)[0])).a("r",lanes(r)); };
    if(form==0) { int b=a^g.below(2); fit(b,false); this->on(a,[&](auto& A) { this->on(b,[&](auto& B) { if constexpr(std::is_same<decltype(A),decltype(B)>::value) { if(o) rec(opnd(a),opnd(b),ekat::max(A,B)); else rec(opnd(a),opnd(b),ekat::min(A,B)); } }); }); }
    else scalar(false,false,[&](auto s) { this->on(a,[&](auto& A) { if(form==1) { if(o) rec(opnd(a),scal(s),ekat::max(A,s)); else rec(opnd(a),scal(s),ekat::min(A,s)); } else { if(o) rec(scal(s),opnd(a),ekat::max(s,A)); else rec(scal(s),opnd(a),ekat::min(s,A)); } }); }); }
  void red() { int a=g.below(6),j=g.below(2),o=g.below(2); fit(a,false); this->on(a,[&](auto& A) { using P=std::decay_t<decltype(A)>; using S=typename P::scalar; S init=(S)val(a>3,false);
    Rec("Ext").t("o",o?"max":"min").raw("a",opnd(a)).i("r",enc(o?ekat::max(A):ekat::min(A)));
    Rec("ExtM").t("o",o?"max":"min").t("m",j?"m1":"m0").i("init",enc(init)).raw("a",opnd(a)).i("r",enc(o?ekat::max(this->m[j],init,A):ekat::min(this->m[j],init,A)));
    S s[4]={init,init,init,S(0)}; ekat::reduce_sum<true>(A,s[0]); ekat::reduce_sum<false>(A,s[1]); ekat::reduce_sum<P>(A,s[2]);
    Rec("Sum").raw("a",opnd(a)).i("init",enc(init)).a("r",vector<long>{enc(s[0]),enc(s[1]),enc(s[2])}).a("r0",vector<long>{enc(ekat::reduce_sum<true>(A)),enc(ekat::reduce_sum<false>(A)),enc(ekat::reduce_sum<P>(A))}); }); }
  void shift() { int a=g.below(6),b=a^g.below(2),dir=g.below(2); fit(a,true); fit(b,true);
    auto rec=[&](const string& x,const auto& r) { Rec("Shift").t("dir",dir?"left":"right").raw("x",x).raw("a",opnd(a)).a("r",lanes(r)); };
    if(g.below(2)) this->on(a,[&](auto& A) { this->on(b,[&](auto& B) { if constexpr(std::is_same<decltype(A),decltype(B)>::value) { if(dir) rec(opnd(b),ekat::shift_left(B,A)); else rec(opnd(b),ekat::shift_right(B,A)); } }); });
    else scalar(false,false,[&](auto s) { this->on(a,[&](auto& A) { if(dir) rec(scal(s),ekat::shift_left(s,A)); else rec(scal(s),ekat::shift_right(s,A)); }); }); }
  template<class T> void misc1() { using P=Pack<T,n>; T x=(T)val(std::is_same<T,int>::value,false); Rec("Range").t("t",Ty<T>::s()).i("x",enc(x)).a("r",lanes(ekat::range<P>(x)));
    Rec("Make").t("t",Ty<T>::s()).t("m","").raw("a",scal(x)).raw("b",scal(x)).a("r",lanes(P(x)));
    Rec("Zero").a("r",lanes(P())).a("id",lanes(Kokkos::reduction_identity<P>::sum()));
    P inv=ekat::invalid<P>(); bool ok=true,nan=ekat::isnan(inv).all(); for(int i=0;i<n;++i) ok=ok&&(std::is_same<T,int>::value?inv[i]==(T)2147483647:inv[i]!=inv[i]); Rec("Invalid").t("t",Ty<T>::s()).b("ok",ok).b("nan",nan);
    int k=g.below(40); Rec("Npack").i("k",k).i("r",ekat::npack<P>(k)).i("size",sizeof(P)/sizeof(T)); }
  void make() { int a=g.below(6),b=g.below(6),j=g.below(2),form=g.below(7); string mn=j?"m1":"m0"; fit(a,false); fit(b,false);
    auto T=[&](auto f) { switch(g.below(3)) { case 0: f(Pack<int,n>()); break; case 1: f(Pack<float,n>()); break; default: f(Pack<double,n>()); } };
    auto rec=[&](const string& mm,const string& x,const string& y,const auto& r) { Rec("Make").t("t",Ty<typename std::decay_t<decltype(r)>::scalar>::s()).t("m",mm).raw("a",x).raw("b",y).a("r",lanes(r)); };
    T([&](auto p) { using P=decltype(p); switch(form) {
      case 0: this->on(a,[&](auto& A) { P r(A); rec("",opnd(a),opnd(a),r); }); break;
      case 1: this->on(a,[&](auto& A) { using PA=std::decay_t<decltype(A)>; const volatile PA& V=A; PA r(V); rec("",opnd(a),opnd(a),r); const PA c=A; PA r2(c); rec("",opnd(a),opnd(a),r2); }); break;
      case 2: scalar(false,false,[&](auto s) { P r(this->m[j],s); rec(mn,scal(s),scal(decltype(s)(0)),r); }); break;
      case 3: scalar(false,false,[&](auto s) { scalar(false,false,[&](auto z) { P r(this->m[j],s,z); rec(mn,scal(s),scal(z),r); }); }); break;
      case 4: this->on(a,[&](auto& A) { P r(this->m[j],A); rec(mn,opnd(a),scal(0),r); }); break;
      case 5: this->on(a,[&](auto& A) { this->on(b,[&](auto& B) { P r(this->m[j],A,B); rec(mn,opnd(a),opnd(b),r); }); }); break;
      default: misc1<typename P::scalar>(); } }); }
  void set() { int d=g.below(6),a=g.below(6),b=g.below(6),j=g.below(2),form=g.below(4); fit(d,d<4); fit(a,d<4&&a<4); fit(b,d<4&&b<4);
    auto rec=[&](const string& x,const string& y,bool same) { this->on(d,[&](auto& D) { Rec("Set").t("d",name(d)).t("m",j?"m1":"m0").raw("a",x).raw("b",y).b("same",same).a("v",lanes(D)); }); };
    this->on(d,[&](auto& D) { using S=typename std::decay_t<decltype(D)>::scalar; switch(form) {
      case 0: scalar(false,false,[&](auto s) { bool q=&D.set(this->m[j],s)==&D; rec(scal(s),opnd(d),q); }); break;
      case 1: this->on(a,[&](auto& A) { auto o=lanes(D); bool q=&D.set(this->m[j],A)==&D; rec(opnd(a),opnd(d),q); }); break;
      case 2: { S s=(S)val(d>3,false),z=(S)val(d>3,false); bool q=&D.set(this->m[j],s,z)==&D; rec(scal(s),scal(z),q); break; }
      default: this->on(a,[&](auto& A) { this->on(b,[&](auto& B) { bool q=&D.set(this->m[j],A,B)==&D; rec(opnd(a),opnd(b),q); }); }); } }); }
  void update() { int d=g.below(6),a=g.below(6),b=g.below(6),j=g.below(2),form=g.below(3),def=g.below(3); bool nan=d<4; fit(d,nan); fit(a,nan); fit(b,nan); if(d==b&&form==2) b=a;
    auto rec=[&](const string& mm,const string& y,double al,double be,const string& tc,bool same) { this->on(d,[&](auto& D) { Rec("Update").t("d",name(d)).t("m",mm).raw("a",opnd(a)).raw("b",y).b("keep",form==1).i("al",enc(al)).i("be",enc(be)).b("same",same).a("v",lanes(D)); }); };
    string mn=j?"m1":"m0"; int ka=g.range(-4,4),kb=g.below(3)?g.range(-4,4):0; bool ic=d>3?true:g.below(2);
    auto go=[&](auto al,auto be) { bool same=true; bool addit=g.below(3)==0; if(addit) be=1;
      this->on(d,[&](auto& D) { this->on(a,[&](auto& A) { if(form==0) { same=&(addit?D.add(A,al):def==0?(al=1,be=0,D.update(A)):def==1?(be=0,D.update(A,al)):D.update(A,al,be))==&D; }
        else if(form==1) same=&(addit?D.add(this->m[j],A,al):def==0?(al=1,be=0,D.update(this->m[j],A)):D.update(this->m[j],A,al,be))==&D;
        else this->on(b,[&](auto& B) { same=&(addit?D.add(this->m[j],A,B,al):def==0?(al=1,be=0,D.update(this->m[j],A,B)):D.update(this->m[j],A,B,al,be))==&D; }); }); });
      rec(form==0?"":mn,form==0?opnd(a):form==1?opnd(d):opnd(b),al,be,"",same); lastform=form; };
    if(ic) go((int)ka,(int)kb); else go(ka/2.0,kb/2.0); }
  int lastform=0;
  void elem() { int a=g.below(6),i=g.below(n); fit(a,true); this->on(a,[&](auto& A) { const auto& C=A; const volatile auto& V=A; Rec("Read").t("r",name(a)).i("i",i).a("v",vector<long>{enc(A[i]),enc(C[i]),enc((typename std::decay_t<decltype(A)>::scalar)V[i])});
    double x=val(a>3,true); A[i]=x; Rec("Write").t("r",name(a)).i("i",i).i("x",enc(x)).a("v",lanes(A)); fit(a,false); for(int q=0;q<n;++q) A[q]=A[q]+0; std::ostringstream os; os<<A; Rec("Text").t("r",name(a)).t("s",os.str()); }); }
  void power() { int a=g.below(6); fit(a,false); this->on(a,[&](auto& A) { for(int i=0;i<n;++i) if(std::fabs((double)A[i])>8||(double)A[i]*2!=std::floor((double)A[i]*2)) { for(int q=0;q<n;++q) A[q]=a>3?g.range(-8,8):g.range(-8,8)/2.0; Rec("Load").t("r",name(a)).a("v",lanes(A)); break; }
    Rec("Power").raw("a",opnd(a)).a("sq",lanes(ekat::square(A))).a("cu",lanes(ekat::cube(A))).a("ab",lanes(ekat::abs(A))); }); }
  void run(int ops) { R::begin(); for(int k=0;k<ops;++k) { switch(g.below(15)) { case 14: lane(); break; case 0: case 1: bin(); break; case 2: neg(); break; case 3: case 4: case 5: asg(); break; case 6: minmax(); break; case 7: red(); break; case 8: shift(); break; case 9: make(); break; case 10: set(); break; case 11: update(); break; case 12: elem(); break; default: g.below(2)?power():R::loadm(g.below(2)); }
      if(k%8==7) { R::state(); R::loadm(g.below(2)); } } R::state(); }
};
// any lane contents: the function of the lane, computed on scalars
template<class T> static string hex(T x) { if(std::isnan(x)) return "nan"; char b[64]; snprintf(b,sizeof b,"%a",(double)x); return b; }
template<class T> static T anyv() { static const double t[]={0.0,-0.0,1,-1,0.5,2,3,-2.5,1e-3,1e3,1e-30,INFINITY,-INFINITY,NAN,170,-0.1,700,88,1e-320,DBL_MIN,DBL_MAX,FLT_MIN,FLT_MAX,DBL_EPSILON,0.1,1/3.0};
  if(g.below(2)) return (T)t[g.below(26)]; double m=(g.next()>>11)*(1.0/9007199254740992.0)*2-1; return (T)std::ldexp(m,g.range(-12,12)); }
template<class T,int n,class F,class G> static void lift(const char* fn,F f,G s) { Pack<T,n> a; vector<string> ha,hr,hs; for(int i=0;i<n;++i) { a[i]=anyv<T>(); ha.push_back(hex(a[i])); } auto r=f(a); for(int i=0;i<n;++i) { hr.push_back(hex(r[i])); volatile T x=a[i]; hs.push_back(hex((T)s((T)x))); } Rec("Lift").t("fn",fn).sa("a",ha).sa("r",hr).sa("s",hs); }
template<class T,int n,class F,class G> static void lift2(const char* fn,F f,G s,bool nan=true) { Pack<T,n> a,b; vector<string> ha,hb,hr,hs; for(int i=0;i<n;++i) { do a[i]=anyv<T>(); while(!nan&&(std::isnan(a[i])||a[i]==0)); do b[i]=anyv<T>(); while(!nan&&(std::isnan(b[i])||b[i]==0)); ha.push_back(hex(a[i])); hb.push_back(hex(b[i])); }
  auto r=f(a,b); for(int i=0;i<n;++i) { hr.push_back(hex((T)r[i])); volatile T x=a[i],y=b[i]; hs.push_back(hex((T)s((T)x,(T)y))); } Rec("Lift").t("fn",fn).sa("a",ha).sa("b",hb).sa("r",hr).sa("s",hs); }
template<class T,int n> static void fns() { using P=Pack<T,n>;
  lift<T,n>("abs",[](auto&p){return ekat::abs(p);},[](T x){return std::fabs(x);}); lift<T,n>("exp",[](auto&p){return ekat::exp(p);},[](T x){return std::exp(x);}); lift<T,n>("expm1",[](auto&p){return ekat::expm1(p);},[](T x){return std::expm1(x);});
  lift<T,n>("log",[](auto&p){return ekat::log(p);},[](T x){return std::log(x);}); lift<T,n>("log10",[](auto&p){return ekat::log10(p);},[](T x){return std::log10(x);}); lift<T,n>("tgamma",[](auto&p){return ekat::tgamma(p);},[](T x){return std::tgamma(x);});
  lift<T,n>("sqrt",[](auto&p){return ekat::sqrt(p);},[](T x){return std::sqrt(x);}); lift<T,n>("cbrt",[](auto&p){return ekat::cbrt(p);},[](T x){return std::cbrt(x);}); lift<T,n>("tanh",[](auto&p){return ekat::tanh(p);},[](T x){return std::tanh(x);}); lift<T,n>("erf",[](auto&p){return ekat::erf(p);},[](T x){return std::erf(x);});
  lift<T,n>("square",[](auto&p){return ekat::square(p);},[](T x){return x*x;}); lift<T,n>("cube",[](auto&p){return ekat::cube(p);},[](T x){return x*x*x;}); lift<T,n>("neg",[](auto&p){return -p;},[](T x){return -x;});
  T c=anyv<T>(); int e=g.range(-3,5);
  lift<T,n>("pow ps",[&](auto&p){return ekat::pow(p,c);},[&](T x){return std::pow(x,c);}); lift<T,n>("pow pi",[&](auto&p){return ekat::pow(p,e);},[&](T x){return std::pow(x,e);}); lift<T,n>("pow sp",[&](auto&p){return ekat::pow(c,p);},[&](T x){return std::pow(c,x);});
  lift<T,n>("pow ip",[&](auto&p){return ekat::pow(e,p);},[&](T x){return std::pow(e,x);});
  lift2<T,n>("pow pp",[](auto&p,auto&q){return ekat::pow(p,q);},[](T x,T y){return std::pow(x,y);});
  lift2<T,n>("+",[](auto&p,auto&q){return p+q;},[](T x,T y){return x+y;}); lift2<T,n>("-",[](auto&p,auto&q){return p-q;},[](T x,T y){return x-y;}); lift2<T,n>("*",[](auto&p,auto&q){return p*q;},[](T x,T y){return x*y;}); lift2<T,n>("/",[](auto&p,auto&q){return p/q;},[](T x,T y){return x/y;});
  lift2<T,n>("+=",[](auto&p,auto&q){P r(p); r+=q; return r;},[](T x,T y){return x+y;}); lift2<T,n>("-=",[](auto&p,auto&q){P r(p); r-=q; return r;},[](T x,T y){return x-y;}); lift2<T,n>("*=",[](auto&p,auto&q){P r(p); r*=q; return r;},[](T x,T y){return x*y;}); lift2<T,n>("/=",[](auto&p,auto&q){P r(p); r/=q; return r;},[](T x,T y){return x/y;});
  lift2<T,n>("mixed",[](auto&p,auto&q){return Pack<float,n>(p)*Pack<double,n>(q);},[](T x,T y){return (double)(float)x*(double)y;});
  lift2<T,n>("min",[](auto&p,auto&q){return ekat::min(p,q);},[](T x,T y){return y<x?y:x;},false); lift2<T,n>("max",[](auto&p,auto&q){return ekat::max(p,q);},[](T x,T y){return x<y?y:x;},false);
  lift<T,n>("s/",[&](auto&p){return c/p;},[&](T x){return c/x;}); lift<T,n>("s-",[&](auto&p){return c-p;},[&](T x){return c-x;}); lift<T,n>("/s",[&](auto&p){return p/c;},[&](T x){return x/c;}); lift<T,n>("*s",[&](auto&p){return p*c;},[&](T x){return x*c;});
  lift<T,n>("isnan",[&](auto&p){auto m=ekat::isnan(p); P r; for(int i=0;i<n;++i) r[i]=m[i]; return r;},[&](T x){return std::isnan(x)?1:0;});
  { P a; vector<string> ha; for(int i=0;i<n;++i) { do a[i]=anyv<T>(); while(!std::isfinite(a[i])||std::fabs(a[i])>1e30); ha.push_back(hex(a[i])); } volatile T s=c; T q=c; for(int i=0;i<n;++i) s=s+a[i]; ekat::reduce_sum<true>(a,q); volatile T z=0; for(int i=0;i<n;++i) z=z+a[i]; Rec("Lift").t("fn","serial sum").sa("a",ha).sa("r",vector<string>{hex(q),hex(ekat::reduce_sum<true>(a)),hex(ekat::reduce_sum<P,true>(a)),hex(ekat::reduce_sum<P>(a))}).sa("s",vector<string>{hex((T)s),hex((T)z),hex((T)z),hex((T)z)}); } }
template<int n> static void all() { int K=vp::thorough()?60:8; for(int k=0;k<K;++k) { Arith<n> a; a.run(vp::thorough()?120:80); } for(int k=0;k<K/2+1;++k) { fns<double,n>(); fns<float,n>(); } }
int main() { g=vp::Rng(vp::seed()); 
#if !defined(PART) || PART==1
  all<1>(); all<16>();
#endif
#if !defined(PART) || PART==2
  all<2>(); all<8>();
#endif
#if !defined(PART) || PART==3
  all<4>();
#endif
  return 0; }
