// Expressions over a scalar type whose values are terms: what is computed from what, in which order.
#include "vp.hpp"
#include <map>
#include <mutex>
#include <unordered_map>
#include <deque>
#include <Kokkos_Core.hpp>
struct Sym { int id; KOKKOS_FUNCTION Sym():id(0) {} explicit operator bool() const; static Sym of(const std::string& t); const std::string& text() const; size_t len() const { return text().size(); } };
static std::mutex mx; static std::deque<std::string> terms(1,"?"); static std::unordered_map<std::string,int> ids;
inline Sym Sym::of(const std::string& t) { std::lock_guard<std::mutex> lk(mx); auto it=ids.find(t); Sym s; if(it==ids.end()) { s.id=terms.size(); terms.push_back(t); ids[t]=s.id; } else s.id=it->second; return s; }
inline const std::string& Sym::text() const { std::lock_guard<std::mutex> lk(mx); return terms[id]; }
// Conditions and comparisons of terms go by their length, and give a bool as for numbers.
inline Sym::operator bool() const { return text()=="1"||(text()!="0"&&len()%2==0); }
// what has been computed, while it is asked for
static bool noting=false; static std::vector<std::string> noted; inline Sym note(const Sym& s) { if(noting) noted.push_back(s.text()); return s; }
inline Sym app(const char* o,const Sym& a,const Sym& b) { return note(Sym::of("("+std::string(o)+" "+a.text()+" "+b.text()+")")); }
inline Sym app(const char* o,const Sym& a) { return note(Sym::of("("+std::string(o)+" "+a.text()+")")); }
#define OPS(O) inline Sym operator O(const Sym& a,const Sym& b) { return app(#O,a,b); }
OPS(+) OPS(-) OPS(*) OPS(/)
#define REL(O) inline bool operator O(const Sym& a,const Sym& b) { return a.len() O b.len(); }
REL(==) REL(!=) REL(>) REL(>=) REL(<) REL(<=)
inline Sym operator-(const Sym& a) { return app("neg",a); }
namespace symfn {
inline Sym pow(const Sym& a,const Sym& b) { return app("pow",a,b); }
inline Sym sqrt(const Sym& a) { return app("sqrt",a); } inline Sym exp(const Sym& a) { return app("exp",a); } inline Sym log(const Sym& a) { return app("log",a); } inline Sym sin(const Sym& a) { return app("sin",a); } inline Sym cos(const Sym& a) { return app("cos",a); }
}
// wherever the functions are taken from
#define USE using symfn::pow; using symfn::sqrt; using symfn::exp; using symfn::log; using symfn::sin; using symfn::cos;
namespace Kokkos { USE }
namespace std { USE }
static const std::string& txt(const Sym& s) { return s.text(); }
static std::string txt(bool b) { return b?"1":"0"; }
#include "ekat_expression_eval.hpp"
#include "ekat_expression_binary_op.hpp"
#include "ekat_expression_binary_predicate.hpp"
#include "ekat_expression_conditional.hpp"
#include "ekat_expression_math.hpp"
#include "ekat_expression_view.hpp"
using std::string; using std::vector; using vp::Rec; using namespace ekat;
static vp::Rng g(1); static const Sym k=Sym::of("k"),h=Sym::of("hh"); static const bool yes=true,no=false;
template<class V,size_t... K> static auto& at(const V& v,const int* i,std::index_sequence<K...>) { return v(i[K]...); }
template<class E,size_t... K> static auto ev(const E& v,const int* i,std::index_sequence<K...>) { return v.eval(i[K]...); }
// all indices in row-major order
template<class F> static void loop(const vector<int>& e,F f) { int i[8]={0,0,0,0,0,0,0,0}; long n=1; for(int x:e) n*=x; int R=e.size(); for(long q=0;q<n;++q) { f(i); for(int d=R-1;d>=0;--d) { if(++i[d]<e[d]) break; i[d]=0; } } }
template<class V> static vector<int> exts(const V& v) { vector<int> e; for(int d=0;d<(int)V::rank;++d) e.push_back(v.extent_int(d)); return e; }
static int tick=0;
template<class V> static void fill(const V& v,const string& nm) { loop(exts(v),[&](const int* i) { ++tick; at(v,i,std::make_index_sequence<V::rank>())=Sym::of(nm+std::to_string(tick)+std::string(g.below(4),'_')); }); }
template<class V> static string show(const V& v) { vector<string> t; auto e=exts(v); loop(e,[&](const int* i) { t.push_back(at(v,i,std::make_index_sequence<V::rank>()).text()); }); return "{\"ext\":"+Rec::arr(e)+",\"vals\":"+Rec::sarr(t)+"}"; }
template<class E> static void build(const char* json,const E& e) { constexpr int R=E::rank(); vector<int> x; for(int d=0;d<R;++d) x.push_back(e.extent(d)); Rec("Build").raw("tree",json).a("ext",x); }
template<class E> static void direct(const E& e) { constexpr int R=E::rank(); vector<int> x; for(int d=0;d<R;++d) x.push_back(e.extent(d)); vector<string> t; string w="["; loop(x,[&](const int* i) { noted.clear(); noting=true; t.push_back(txt(ev(e,i,std::make_index_sequence<R>()))); noting=false; w+=(t.size()>1?",":"")+Rec::sarr(noted); }); Rec("Direct").sa("vals",t).raw("work",w+"]"); }
template<class E> static void T(const char* json,const E& e) { build(json,e); direct(e); }
using CV=Kokkos::View<const Sym*>;
#if PART>=0
static void part(const Kokkos::View<Sym*>& x,const CV& y,const Kokkos::View<Sym*,Kokkos::LayoutStride>& z) { auto X=expression(x); auto Y=expression(y); auto Z=expression(z); (void)X; (void)Y; (void)Z;
#include "trees.inc"
}
int main(int argc,char** argv) { Kokkos::initialize(argc,argv); { g=vp::Rng(vp::seed()+PART); Kokkos::View<Sym*> x("x",7),y("y",7); Kokkos::View<Sym**> zz("z",7,2); auto z=Kokkos::subview(zz,Kokkos::ALL,1); fill(x,"x"); fill(y,"y"); fill(z,"z"); Rec("New").raw("views","{\"x\":"+show(x)+",\"y\":"+show(y)+",\"z\":"+show(z)+"}"); part(x,y,z); } Kokkos::finalize(); }
#else
template<int R> struct ptr { using type=typename ptr<R-1>::type*; }; template<> struct ptr<0> { using type=Sym; };
template<class V,size_t... K> static V alloc(const char* n,const vector<int>& e,std::index_sequence<K...>) { return V(string(n),e[K]...); }
template<int R,class L,class LO> struct Env { using V=Kokkos::View<typename ptr<R>::type,L>; using VO=Kokkos::View<typename ptr<R>::type,LO>; using IS=std::make_index_sequence<R>; V x,y,z; VO o,w;
  Env(const vector<int>& e,const vector<int>& f): x(alloc<V>("x",e,IS())),y(alloc<V>("y",e,IS())),z(alloc<V>("z",e,IS())),o(alloc<VO>("o",e,IS())),w(alloc<VO>("w",f,IS())) { set(); }
  string all() const { return "{\"x\":"+show(x)+",\"y\":"+show(y)+",\"z\":"+show(z)+",\"o\":"+show(o)+",\"w\":"+show(w)+"}"; }
  void set() { fill(x,"x"); fill(y,"y"); fill(z,"z"); fill(o,"o"); fill(w,"w"); Rec("New").raw("views",all()); }
  template<class E,class U> void to(const E& e,const char* nm,const U& out) { bool r=false; try { evaluate(e,out); } catch(std::exception&) { r=true; } Kokkos::fence(); Rec("Eval").t("out",nm).b("refused",r).raw("views",all()); }
  template<class E> void go(const char* json,const E& e,int n) { build(json,e); to(e,"o",o); if(n%2) to(e,"w",w); if(n%3==0) set(); if(n%3==1) direct(e); to(e.as_base(),n%2?"x":"z",n%2?x:z); to(e,"o",o); }
  void run(int n) { auto mk=[&]{ auto X=expression(x); auto Y=expression(y); return if_then_else(X<=Y,-X/k,ekat::max(Y,h)); }; // nothing but the result outlives this
    auto X=expression(x); auto Y=expression(y); auto Z=expression(z);
    switch(n) { case 0: go("[\"v\",\"y\"]",Y,1); break; case 1: go("[\"-\",[\"v\",\"x\"],[\"/\",[\"v\",\"z\"],[\"s\",\"hh\"]]]",X-Z/h,0); break;
      case 2: go("[\"if\",[\"<=\",[\"v\",\"x\"],[\"v\",\"y\"]],[\"/\",[\"neg\",[\"v\",\"x\"]],[\"s\",\"k\"]],[\"max\",[\"v\",\"y\"],[\"s\",\"hh\"]]]",mk(),1); break;
      default: go("[\"pow\",[\"s\",\"k\"],[\"if\",[\"&&\",[\"sin\",[\"v\",\"z\"]],[\"v\",\"x\"]],[\"v\",\"z\"],[\"s\",\"k\"]]]",pow(k,if_then_else(sin(Z)&&X,Z,k)),4); } } };
template<int R,class L,class LO> static void envs() { for(int n=0;n<(vp::thorough()?12:4);++n) { vector<int> e; for(int d=0;d<R;++d) e.push_back(R<3?g.range(n==3?0:1,4):g.range(1,R<5?3:2)); auto f=e; if(R) f[g.below(R)]+=g.below(2)?1:(e[0]>1&&R==1?-1:2); Env<R,L,LO> v(e,f); v.run(n%4); } }
int main(int argc,char** argv) { Kokkos::initialize(argc,argv); { g=vp::Rng(vp::seed()); using A=Kokkos::LayoutRight; using B=Kokkos::LayoutLeft;
#if PART==-1
  envs<0,A,A>(); envs<1,A,A>(); envs<2,A,A>(); envs<2,A,B>();
#elif PART==-2
  envs<3,A,A>(); envs<3,B,A>(); envs<4,A,A>();
#else
  envs<5,A,A>(); envs<6,A,A>();
#endif
 } Kokkos::finalize(); }
#endif
