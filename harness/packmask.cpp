// Masks, comparisons, and where expressions on packs and scalars.
#include "packreg.hpp"
#include "ekat_where.hpp"
template<class C> static bool logic(const C&) { return false; }
template<int n> struct Mk: Regs<n> {
  using R=Regs<n>; using R::fit;
  static string mn(int j) { return j?"m1":"m0"; }
  static string rb(const Mask<n>& q) { return bools(q); }
  void logic() { int a=g.below(2),b=g.below(2); bool x=g.below(2); auto& A=this->m[a]; auto& B=this->m[b];
    Rec("MBin").t("o","&&").t("a",mn(a)).t("b",mn(b)).b("x",x).raw("r",rb(A&&B)); Rec("MBin").t("o","||").t("a",mn(a)).t("b",mn(b)).b("x",x).raw("r",rb(A||B));
    Rec("MBin").t("o","&&").t("a",mn(a)).t("b","").b("x",x).raw("r",rb(A&&x)); Rec("MBin").t("o","||").t("a",mn(a)).t("b","").b("x",x).raw("r",rb(A||x));
    Rec("MNot").t("a",mn(a)).raw("r",rb(!A)); Rec("MEq").t("a",mn(a)).t("b",mn(b)).b("r",A==B); Rec("MMake").b("x",x).raw("r",rb(Mask<n>(x)));
    std::ostringstream os; os<<A; vector<int> v,w; ekat_masked_loop_no_vec(A,s) { w.push_back(s); } int u[n]={}; ekat_masked_loop(A,s) { u[s]=1; } for(int i=0;i<n;++i) if(u[i]) v.push_back(i);
    Rec("MQuery").t("a",mn(a)).b("any",A.any()).b("all",A.all()).b("none",A.none()).a("loop",v).a("novec",w).t("s",os.str());
    if(g.below(3)==0) { int i=g.below(n); A.set(i,x); Rec("MSet").t("m",mn(a)).i("i",i).b("x",x).raw("v",rb(A)); } }
  template<class A,class B> Mask<n> cmp1(int o,const A& a,const B& b) { switch(o) { case 0: return a==b; case 1: return a!=b; case 2: return a<b; case 3: return a>b; case 4: return a<=b; default: return a>=b; } }
  void cmp() { static const char* nm[]={"==","!=","<",">","<=",">="}; int o=g.below(6),a=g.below(6),b=a^g.below(2),form=g.below(3),j=g.below(2); Mask<n> r; string sa,sb;
    fit(a,true); fit(b,true); this->on(a,[&](auto& A) { this->on(b,[&](auto& B) { for(int i=0;i<n;++i) if(g.below(3)==0) B[i]=A[i]; Rec("Load").t("r",name(b)).a("v",lanes(B)); }); });
    if(form==0) { sa=opnd(a); sb=opnd(b); this->on(a,[&](auto& A) { this->on(b,[&](auto& B) { if constexpr(std::is_same<decltype(A),decltype(B)>::value) r=this->cmp1(o,A,B); }); }); }
    else scalar(false,false,[&](auto s) { this->on(a,[&](auto& A) { long e=enc(A[g.below(n)]); if(g.below(2)&&e!=NANV) s=(decltype(s))(e/16.0); if(form==1) { sa=opnd(a); sb=scal(s); r=this->cmp1(o,A,s); } else { sb=opnd(a); sa=scal(s); r=this->cmp1(o,s,A); } }); });
    this->m[j]=r; Rec("Cmp").t("o",nm[o]).t("m",mn(j)).raw("a",sa).raw("b",sb).raw("r",rb(r)).raw("st",rb(this->m[j]));
    this->on(a,[&](auto& A) { if constexpr(!std::is_same<typename std::decay_t<decltype(A)>::scalar,int>::value) Rec("IsNan").raw("a",opnd(a)).raw("r",rb(ekat::isnan(A))); }); }
  template<class W,class S> static auto* app(int o,W&& w,const S& s) { switch(o) { case 0: return &(w=s); case 1: return &(w+=s); case 2: return &(w-=s); case 3: return &(w*=s); default: return &(w/=s); } }
  void where() { static const char* nm[]={"=","+","-","*","/"}; int o=g.below(5),d=g.below(6),a=g.below(6),form=g.below(2),j=g.below(2); bool nan=d<4; fit(d,nan); if(form==0) { fit(a,nan,o==4?(d>3&&a>3)+1:0); if(a==d) fit(d,nan); }
    auto rec=[&](const string& sa,bool same) { this->on(d,[&](auto& D) { Rec("Where").t("o",nm[o]).t("d",name(d)).t("m",mn(j)).raw("a",sa).b("same",same).a("v",lanes(D)); }); };
    if(form==0) { bool same=false; this->on(d,[&](auto& D) { this->on(a,[&](auto& A) { auto w=ekat::where(this->m[j],D); same=this->app(o,w,A)==&D; }); }); rec(opnd(a),same); }
    else scalar(o==4,d>3,[&](auto s) { if(o==4&&d>3&&!std::is_same<decltype(s),int>::value) return; bool same=false; this->on(d,[&](auto& D) { same=this->app(o,ekat::where(this->m[j],D),s)==&D; }); rec(scal(s),same); }); }
  // the scalar operand is a lane of the pack that is assigned
  void lane() { static const char* nm[]={"=","+","-","*","/"}; int o=g.below(5),d=g.below(6),j=g.below(2),k=g.below(n); fit(d,d<4&&o!=4,o==4?(d>3)+1:0);
    this->on(d,[&](auto& D) { string x=scal(D[k]); bool same=this->app(o,ekat::where(this->m[j],D),D[k])==&D; Rec("Where").t("o",nm[o]).t("d",name(d)).t("m",mn(j)).raw("a",x).b("same",same).a("v",lanes(D)); }); }
  // the mask of a where expression is the one it was made with
  void stale() { int d=g.below(6),j=g.below(2); fit(d,false); this->on(d,[&](auto& D) { auto w=ekat::where(this->m[j],D); auto old=this->m[j]; this->m[j]=!this->m[j]; w=3; this->m[j]=old; Rec("Where").t("o","=").t("d",name(d)).t("m",mn(j)).raw("a",scal(3)).b("same",true).a("v",lanes(D)); }); }
  void whereq() { int a=g.below(6),j=g.below(2); fit(a,false); this->on(a,[&](auto& A) { using S=typename std::decay_t<decltype(A)>::scalar; S init=(S)val(a>3,false); const auto w=ekat::where(this->m[j],A);
    Rec("WhereQ").t("m",mn(j)).raw("a",opnd(a)).i("init",enc(init)).b("any",w.any()).b("all",w.all()).b("none",w.none()).i("max",enc(w.max(init))).i("min",enc(w.min(init))).raw("mask",rb(w.mask())).a("val",lanes(w.value()));
    int o=g.below(3); S s=init; S* p; static const char* nm[]={"+","-","*","/"};
    if(o<2) { p=o?&(s-=w):&(s+=w); } else { o=2+g.below(2); int k=0; for(int i=0;i<n;++i) k+=this->m[j][i]; if(k>2) return; if(o==2) { for(int i=0;i<n;++i) A[i]=g.range(-3,3); s=init=g.range(-9,9); } else { for(int i=0;i<n;++i) A[i]=(a>3?divisor(true,true):g.below(2)?2:-1); s=init=(a>3?init:(S)g.range(-9,9)); } Rec("Load").t("r",name(a)).a("v",lanes(A)); p=o==2?&(s*=w):&(s/=w); }
    Rec("Fold").t("o",nm[o]).t("m",mn(j)).raw("a",opnd(a)).i("s",enc(init)).i("r",enc(s)).b("same",p==&s); }); }
  template<class T> void scalars1() { static const char* nm[]={"=","+","-","*","/"}; bool c=g.below(2); T x=(T)val(Ty<T>::s()=="i",false),x0=x; int o=g.below(5);
    scalar(o==4,Ty<T>::s()=="i",[&](auto s) { if(o==4&&Ty<T>::s()=="i"&&Ty<decltype(s)>::s()!="i") return; T y=x; bool same=this->app(o,ekat::where(c,y),s)==&y; Rec("SWhere").t("o",nm[o]).b("c",c).t("t",Ty<T>::s()).i("x",enc(x)).raw("a",scal(s)).b("same",same).i("r",enc(y)); });
    { T y=x; bool cc=c; auto w=ekat::where(cc,y); cc=!cc; w=2; Rec("SWhere").t("o","=").b("c",c).t("t",Ty<T>::s()).i("x",enc(x)).raw("a",scal(2)).b("same",true).i("r",enc(y)); }
    T init=(T)val(Ty<T>::s()=="i",false); auto w=ekat::where(c,x); const auto& cw=w; Rec("SWhereQ").b("c",c).i("x",enc(x)).i("init",enc(init)).i("max",enc(w.max(init))).i("min",enc(cw.min(init))).i("max2",enc(ekat::max<T>(w,init))).i("min2",enc(ekat::min<T>(w,init))).b("any",w.any()).b("all",w.all()).b("none",cw.none());
    T s=init; o=1+g.below(4); if(o==4) x=(T)divisor(Ty<T>::s()=="i",Ty<T>::s()=="i"); T* p; auto w2=ekat::where(c,x); switch(o) { case 1: p=&ekat::operator+=<T>(s,w2); break; case 2: p=&ekat::operator-=<T>(s,w2); break; case 3: p=&ekat::operator*=<T>(s,w2); break; default: p=&ekat::operator/=<T>(s,w2); }
    Rec("SFold").t("o",nm[o]).b("c",c).t("t",Ty<T>::s()).i("x",enc(x)).i("s",enc(init)).i("r",enc(s)).b("same",p==&s); }
  void run(int ops) { R::begin(); for(long b=0;b<(n<=4?(1<<n):16);++b) { this->loadm(0,n<=4?b:-1); this->loadm(1); logic(); }
    for(int k=0;k<ops;++k) { switch(g.below(9)) { case 0: logic(); break; case 8: lane(); break; case 1: case 2: cmp(); break; case 3: case 4: where(); break; case 5: stale(); break; case 6: whereq(); break; default: scalars1<int>(); scalars1<float>(); scalars1<double>(); }
      if(k%8==7) { R::state(); } if(k%4==3) this->loadm(g.below(2)); } R::state(); }
};
template<int n> static void all() { int K=vp::thorough()?50:8; for(int k=0;k<K;++k) { Mk<n> a; a.run(vp::thorough()?120:60); } }
int main() { g=vp::Rng(vp::seed()+77); 
#if !defined(PART) || PART==1
  all<1>(); all<16>();
#endif
#if !defined(PART) || PART==2
  all<2>(); all<8>();
#endif
#if !defined(PART) || PART==3
  all<4>();
#endif
  return 0; }
