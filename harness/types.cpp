// Type lists, type maps and type traits, evaluated on enumerated types.
#include "vp.hpp"
#include <map>
#include <set>
#include <array>
#include "ekat_meta_utils.hpp"
#include "ekat_type_traits.hpp"
#include "ekat_std_type_traits.hpp"
#include "ekat_scalar_traits.hpp"
#include "ekat_pack.hpp"
using std::string; using std::vector; using vp::Rec;
struct X { int x=0; }; struct Y {}; template<class T> struct C {}; template<class T> using Cx=C<T>;
struct NF {};
template<class T> struct Nm { static string s() { return "none"; } };
#define N(T,S) template<> struct Nm<T> { static string s() { return S; } };
N(int,"int") N(float,"float") N(double,"double") N(X,"X") N(Y,"Y") N(const int,"cint") N(char,"char") N(bool,"bool") N(long,"long")
template<class T> struct Nm<C<T>> { static string s() { return "C:"+Nm<T>::s(); } };
using V4=ekat::Pack<double,4>; using V2=ekat::Pack<float,2>; using V1=ekat::Pack<int,1>; N(V4,"pd4") N(V2,"pf2") N(V1,"pi1")
template<class L> struct Names; template<class... T> struct Names<std::tuple<T...>> { static vector<string> v() { return {Nm<T>::s()...}; } };
template<class T,class L> struct App; template<class T,class... Ts> struct App<T,std::tuple<Ts...>> { using type=std::tuple<Ts...,T>; };
static string lol(const vector<vector<string>>& v) { string r="["; bool f=true; for(auto&x:v) { r+=(f?"":",")+Rec::sarr(x); f=false; } return r+"]"; }
static vp::Rng g(1);
template<class... A> struct Al {};
using names_t=std::tuple<int,float,X,Y>;
template<class L,size_t... I> static vector<string> gets(std::index_sequence<I...>) { return {Nm<ekat::type_list_get<L,(int)I>>::s()...}; }
struct Body { vector<string> v; template<class T> void operator()(T) { v.push_back(Nm<T>::s()); } };
template<class L,class... A> static void list(std::tuple<A...>*) {
  Rec r("List"); r.sa("ts",Names<L>::v()).i("size",ekat::type_list_size<L>::value).sa("get",gets<L>(std::make_index_sequence<std::tuple_size<L>::value>()));
  r.sa("names",vector<string>{Nm<A>::s()...}).a("pos",vector<int>{ekat::FirstOf<A,L>::pos...}).b("unique",ekat::is_type_list_unique<L>::value).sa("apply",Names<ekat::apply_template_t<Cx,L>>::v());
  vector<string> v; auto f=[&](auto t){ v.push_back(Nm<decltype(t)>::s()); }; ekat::TypeListFor<L> tl(f); r.sa("visited",v);
  vector<vector<string>> st; auto brk=[&](const string& at) { vector<string> w; ekat::TypeListFor<L> t2([&](auto t)->bool { w.push_back(Nm<decltype(t)>::s()); return w.back()==at; }); st.push_back(w); };
  (brk(Nm<A>::s()),...); r.raw("stopped",lol(st));
  // bodies that return something else than bool, something else at some types only, or keep their own state
  vector<vector<string>> ot; auto other=[&](auto val) { vector<string> w; ekat::TypeListFor<L> t3([&](auto t) { w.push_back(Nm<decltype(t)>::s()); return val; }); ot.push_back(w); };
  other(1); other((size_t)3); other(2.5); other("x"); other(std::true_type()); other('c'); r.raw("others",lol(ot));
  vector<string> w; auto mixed=[&](auto t) { w.push_back(Nm<decltype(t)>::s()); if constexpr(std::is_same<decltype(t),float>::value) return true; else return 7; }; ekat::TypeListFor<L> t4(mixed); r.sa("mixed",w);
  Body own; ekat::TypeListFor<L> t5(own); r.sa("own",own.v); }
template<class K,class M> static auto value(const M& m) { return m.template at<K>(); }
template<class KL,class VL> struct MapT;
template<class... K,class... V> struct MapT<std::tuple<K...>,std::tuple<V...>> {
  using M=ekat::TypeMap<std::tuple<K...>,std::tuple<V...>>; static const int n=sizeof...(K);
  template<class... A> static void run(std::tuple<A...>*) {
    Rec r("Map"); r.sa("ks",vector<string>{Nm<K>::s()...}).sa("vs",vector<string>{Nm<V>::s()...}).i("size",M::size).sa("names",vector<string>{Nm<A>::s()...});
    r.sa("at_t",vector<string>{Nm<typename M::template at_t<A>>::s()...}); { string h="["; bool f=true; ((h+=string(f?"":",")+(M::template has_t<A>()?"true":"false"),f=false),...); r.raw("has_t",h+"]"); }
    M m; ((m.template at<K>()=0),...); string w="["; int nw=g.below(2*n+1); vector<string> ks{Nm<K>::s()...};
    for(int i=0;i<nw;++i) { int k=g.below(n),v=g.below(4); int j=0; ((j++==k?(void)(m.template at<K>()=v):(void)0),...); w+=string(i?",":"")+"{\"k\":\""+ks[k]+"\",\"v\":"+std::to_string(v)+"}"; }
    r.raw("writes",w+"]"); r.a("read",vector<long>{(long)m.template at<K>()...}); const M& c=m; r.a("cread",vector<long>{(long)c.template at<K>()...});
    string q="["; for(int v=0;v<4;++v) { q+=string(v?",":"")+"{\"t\":\"int\",\"v\":"+std::to_string(v)+",\"r\":"+(c.has_v(v)?"true":"false")+"},{\"t\":\"double\",\"v\":"+std::to_string(v)+",\"r\":"+(c.has_v((double)v)?"true":"false")+"},{\"t\":\"long\",\"v\":"+std::to_string(v)+",\"r\":"+(c.has_v((long)v)?"true":"false")+"}"; }
    r.raw("asked",q+"]"); } };
template<class L> struct Uniq { static constexpr bool value=true; }; // own definition: no type twice
template<class T,class... Ts> struct Uniq<std::tuple<T,Ts...>> { static constexpr bool value=!(std::is_same<T,Ts>::value||...)&&Uniq<std::tuple<Ts...>>::value; };
template<class KL,class VL=std::tuple<>> static void maps() {
  if constexpr(std::tuple_size<VL>::value==std::tuple_size<KL>::value) MapT<KL,VL>::run((names_t*)nullptr);
  else { maps<KL,typename App<int,VL>::type>(); maps<KL,typename App<double,VL>::type>(); } }
template<class L,int D> static void lists() {
  if constexpr(std::tuple_size<L>::value>0) { list<L>((names_t*)nullptr); if constexpr(Uniq<L>::value) for(int i=0;i<3;++i) maps<L>(); }
  if constexpr(D>0) { lists<typename App<int,L>::type,D-1>(); lists<typename App<float,L>::type,D-1>(); lists<typename App<X,L>::type,D-1>(); } }
template<class L,class M> static void cat() { using R=ekat::type_list_cat<L,M>; Rec("Cat").sa("a",Names<L>::v()).sa("b",Names<M>::v()).sa("r",Names<R>::v()).i("size",ekat::type_list_size<R>::value); }
template<class L,class M,int D> static void cats2() { cat<L,M>(); if constexpr(D>0) { cats2<L,typename App<int,M>::type,D-1>(); cats2<L,typename App<X,M>::type,D-1>(); } }
template<class L,int D> static void cats() { cats2<L,std::tuple<>,2>(); if constexpr(D>0) { cats<typename App<int,L>::type,D-1>(); cats<typename App<float,L>::type,D-1>(); } }
// a type as the sequence of its constructors
template<class T> struct De { static vector<string> v() { return {Nm<T>::s()}; } };
static vector<string> cons(const string& a,vector<string> b) { b.insert(b.begin(),a); return b; }
template<class T> struct De<const T> { static vector<string> v() { return cons("const",De<T>::v()); } };
template<class T> struct De<volatile T> { static vector<string> v() { return cons("volatile",De<T>::v()); } };
template<class T> struct De<const volatile T> { static vector<string> v() { return cons("const",cons("volatile",De<T>::v())); } };
template<class T> struct De<T*> { static vector<string> v() { return cons("ptr",De<T>::v()); } };
template<class T> struct De<T*const> { static vector<string> v() { return cons("cptr",De<T>::v()); } };
template<class T,size_t K> struct De<T[K]> { static vector<string> v() { return cons("arr",De<T>::v()); } };
template<class T,size_t K> struct De<const T[K]> { static vector<string> v() { return cons("arr",De<const T>::v()); } };
template<class T> struct De<T&> { static vector<string> v() { return cons("ref",De<T>::v()); } };
template<class T> struct De<T&&> { static vector<string> v() { return cons("rref",De<T>::v()); } };
template<class T,int D,int A,bool Q> static void built() { // Q: a const pointer is in it; A: arrays on the outside
  if constexpr(A==0) { Rec("Pointers").sa("d",De<T>::v()).sa("r",De<typename ekat::remove_all_pointers<T>::type>::v());
    Rec("Consts").sa("d",De<T>::v()).sa("r",De<typename ekat::remove_all_consts<T>::type>::v()); }
  if constexpr(!Q) { Rec("Ranks").sa("d",De<T>::v()).i("rank",ekat::GetRanks<T>::rank).i("dyn",ekat::GetRanks<T>::rank_dynamic);
    Rec("Value").sa("d",De<T>::v()).sa("r",De<typename ekat::ValueType<T>::type>::v()); Rec("Value").sa("d",De<T&>::v()).sa("r",De<typename ekat::ValueType<T&>::type>::v()); }
  if constexpr(D>0) { if constexpr(A==0) { built<T*,D-1,0,Q>(); built<T*const,D-1,0,true>(); } if constexpr(!Q) { built<T[2],D-1,A+1,Q>(); built<T[5],D-1,A+1,Q>(); } } }
template<class T,int K> static void nd() { Rec("DataND").sa("d",De<T>::v()).i("n",K).sa("r",De<typename ekat::DataND<T,K>::type>::v()); if constexpr(K>0) nd<T,K-1>(); }
template<class T> static void scalar1(const string& of) { using S=ekat::ScalarTraits<T>; Rec("Scalar").sa("d",De<T>::v()).t("of",of).sa("value",De<typename S::value_type>::v()).sa("scalar",De<typename S::scalar_type>::v()).b("simd",S::is_simd).b("fp",S::is_floating_point); }
template<class T> static void scalar(const string& of="") { scalar1<T>(of); scalar1<const T>(of); scalar1<volatile T>(of); scalar1<const volatile T>(of); scalar1<T&>(of); scalar1<const T&>(of); scalar1<T&&>(of); scalar1<volatile T&>(of); scalar1<const volatile T&>(of); scalar1<const T&&>(of); }
template<class T> static void single() { Rec("Single").sa("d",De<T>::v()).b("r",ekat::is_single_precision<T>::value); }
struct HasEq { bool operator==(const HasEq&) const { return true; } }; struct HasFree {}; bool operator==(const HasFree&,const int&) { return true; } struct None {}; struct Out {}; std::ostream& operator<<(std::ostream& o,const Out&) { return o; } struct Der:HasEq {}; struct OutDer:Out {};
struct MutEq { bool operator==(const MutEq&) { return true; } };
#define EX(W,D,R) Rec("Exists").t("what",W).b("declared",D).b("r",R)
int main() {
  g=vp::Rng(vp::seed());
  lists<std::tuple<>,4>(); cats<std::tuple<>,2>();
  built<double,4,0,false>(); built<const double,4,0,false>(); built<X,3,0,false>(); built<const int,3,0,false>();
  nd<double,6>(); nd<const float,3>(); nd<X,2>();
  scalar<int>(); scalar<float>(); scalar<double>(); scalar<bool>(); scalar<char>(); scalar<long>(); scalar<V4>("double"); scalar<V2>("float"); scalar<V1>("int");
  single<float>(); single<double>(); single<int>(); single<float*>(); single<X>(); single<V2>(); single<bool>();
  auto vec=[](bool d,bool r){ Rec("Vector").b("declared",d).b("r",r); }; vec(true,ekat::is_vector<vector<int>>::value); vec(true,ekat::is_vector_v<vector<string>>); vec(true,ekat::is_vector_v<vector<vector<bool>>>); vec(false,ekat::is_vector_v<int>); vec(false,ekat::is_vector_v<std::array<int,2>>); vec(false,ekat::is_vector_v<string>); vec(false,ekat::is_vector_v<std::set<int>>);
  EX("eq",true,(ekat::EqualExists<int,int>::value)); EX("eq",true,(ekat::EqualExists<int,double>::value)); EX("eq",true,(ekat::EqualExists<HasEq,HasEq>::value)); EX("eq",true,(ekat::EqualExists<Der,HasEq>::value)); EX("eq",true,(ekat::EqualExists<HasFree,int>::value)); EX("eq",false,(ekat::EqualExists<HasFree,HasFree>::value)); EX("eq",false,(ekat::EqualExists<None,None>::value)); EX("eq",false,(ekat::EqualExists<int,string>::value)); EX("eq",true,(ekat::EqualExists<string,const char*>::value)); EX("eq",false,(ekat::EqualExists<None,int>::value)); EX("eq",true,(ekat::EqualExists<const HasEq&,const HasEq&>::value)); EX("eq",false,(ekat::EqualExists<const MutEq&,MutEq>::value));
  EX("out",true,(ekat::StreamExists<int>::value)); EX("out",true,(ekat::StreamExists<string>::value)); EX("out",true,(ekat::StreamExists<Out>::value)); EX("out",true,(ekat::StreamExists<OutDer>::value)); EX("out",false,(ekat::StreamExists<None>::value)); EX("out",false,(ekat::StreamExists<HasEq>::value)); EX("out",true,(ekat::StreamExists<const char*>::value)); EX("out",false,(ekat::StreamExists<std::map<int,int>>::value));
  return 0; }
