// Expressions over numbers of all types: the type and the value of every operation.
#include "vp.hpp"
#include "ekat.hpp"
#include "ekat_expression_eval.hpp"
#include "ekat_expression_binary_op.hpp"
#include "ekat_expression_binary_predicate.hpp"
#include "ekat_expression_conditional.hpp"
#include "ekat_expression_math.hpp"
#include "ekat_expression_view.hpp"
using namespace ekat; using vp::Rec; using std::vector;
static const double Q=64;
template<class T> static const char* nm() { using U=std::decay_t<T>; if(std::is_same_v<U,bool>) return "b"; if(std::is_same_v<U,signed char>) return "c"; if(std::is_same_v<U,short>) return "s"; if(std::is_same_v<U,int>) return "i"; if(std::is_same_v<U,long>) return "l"; if(std::is_same_v<U,float>) return "f"; if(std::is_same_v<U,double>) return "d"; return "?"; }
template<class T> static long enc(T v) { double q=(double)v*Q; return std::fabs(q)<2e9&&q==std::floor(q)?(long)q:999999999; }
template<class T> static vector<T> vals() { if constexpr(std::is_same_v<T,bool>) return {true,false}; else if constexpr(std::is_integral_v<T>) return {(T)-3,(T)2,(T)0,(T)100}; else return {(T)-1.5,(T)2,(T)0,(T)0.25}; }
template<class T> static vector<T> nans() { if constexpr(std::is_floating_point_v<T>) return {std::numeric_limits<T>::quiet_NaN(),(T)2}; else return {(T)1}; }
template<class T> static vector<T> divs() { if constexpr(std::is_same_v<T,bool>) return {true}; else if constexpr(std::is_integral_v<T>) return {(T)-2,(T)4}; else return {(T)-0.5,(T)2}; }
template<class T> static vector<T> expo() { if constexpr(std::is_same_v<T,bool>) return {true,false}; else return {(T)-1,(T)0,(T)2}; }
template<class T> static Kokkos::View<T*> view(T v) { Kokkos::View<T*> r("v",1); r(0)=v; return r; }
template<class T,class U,class E> static void rec(const char* op,T a,U b,const E& e) { using RT=decltype(e.eval(0)); Rec("Num").t("op",op).t("t",nm<T>()).i("a",enc(a)).t("u",nm<U>()).i("b",enc(b)).t("rt",nm<RT>()).i("r",enc(e.eval(0))); }
// the operands as views or plain numbers
template<class T,class U,class F> static void forms(const char* op,T a,U b,F f) { auto x=view(a); auto y=view(b); rec(op,a,b,f(expression(x),expression(y))); rec(op,a,b,f(expression(x),b)); rec(op,a,b,f(a,expression(y))); }
#define OP(O) forms(#O,a,b,[](const auto& p,const auto& q) { return p O q; });
#define FN(O) forms(#O,a,b,[](const auto& p,const auto& q) { return ekat::O(p,q); });
template<class T,class U> static void two() {
  for(T a:vals<T>()) for(U b:vals<U>()) { OP(+) OP(-) OP(*) OP(==) OP(!=) OP(>) OP(>=) OP(<) OP(<=) OP(&&) OP(||) FN(max) FN(min) }
  for(T a:nans<T>()) for(U b:nans<U>()) { OP(==) OP(!=) OP(>) OP(>=) OP(<) OP(<=) OP(&&) OP(||) FN(max) FN(min) }
  for(T a:vals<T>()) for(U b:divs<U>()) { OP(/) }
  for(T a:divs<T>()) for(U b:expo<U>()) { FN(pow) }
  T a=vals<T>()[0]; U b=vals<U>()[1]; auto x=expression(view(a)); auto y=expression(view(b));
  auto one=[&](long c,const auto& e) { using RT=decltype(e.eval(0)); Rec("If").i("c",c).t("t",nm<T>()).i("a",enc(a)).t("u",nm<U>()).i("b",enc(b)).t("rt",nm<RT>()).i("r",enc(e.eval(0))); };
  for(int c:{0,1,2}) { auto cv=expression(view(c)); one(c,if_then_else(cv,x,y)); one(c,if_then_else(cv,a,y)); one(c,if_then_else(cv,x,b)); one(c,if_then_else(cv,a,b)); one(c,if_then_else(c!=0,x,y)); one(c,if_then_else(c,a,y)); one(c,if_then_else(cv>0,x,b)); } }
template<class T> static void un(const char* op,T a,long r,const char* rt) { Rec("Num").t("op",op).t("t",nm<T>()).i("a",enc(a)).t("u",nm<T>()).i("b",0).t("rt",rt).i("r",r); }
#define UN(F,V) { T a=(T)(V); auto x=expression(view(a)); auto e=ekat::F(x); un(#F,a,enc(e.eval(0)),nm<decltype(e.eval(0))>()); }
template<class T> static void one() { for(T a:vals<T>()) { auto x=view(a); auto e=-expression(x); un("neg",a,enc(e.eval(0)),nm<decltype(e.eval(0))>()); auto f=-expression(Kokkos::View<const T*>(x)); un("neg",a,enc(f.eval(0)),nm<decltype(f.eval(0))>()); }
  if constexpr(std::is_same_v<T,bool>) { UN(sqrt,1) UN(exp,0) UN(log,1) } else { UN(sqrt,4) UN(sqrt,0) UN(exp,0) UN(log,1) } if constexpr(std::is_floating_point_v<T>) UN(sqrt,0.25) UN(sin,0) UN(cos,0) }
int main(int argc,char** argv) { Kokkos::initialize(argc,argv); { one<TV>(); two<TV,bool>(); two<TV,signed char>(); two<TV,short>(); two<TV,int>(); two<TV,long>(); two<TV,float>(); two<TV,double>(); } Kokkos::finalize(); }
