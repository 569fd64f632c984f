// Scalar and packed views of the same memory, pack arithmetic on indices, gathering, adjacent differences.
#include "vp.hpp"
#include <functional>
#include <memory>
#include <map>
#include <random>
#include <unistd.h>
#include <sys/wait.h>
#include "ekat_pack_kokkos.hpp"
#include "ekat_pack_utils.hpp"
#include "ekat_view_utils.hpp"
#include "ekat_subview_utils.hpp"
using std::string; using std::vector; using vp::Rec; using ekat::Pack;
static vp::Rng g(1);
const long INV=99999999;
template<class F> static bool dies(F f) { fflush(vp::out()); pid_t p=fork(); if(p==0) { if(!freopen("/dev/null","w",stdout)||!freopen("/dev/null","w",stderr)) _exit(9); f(); _exit(0); } int st; waitpid(p,&st,0); return !(WIFEXITED(st)&&WEXITSTATUS(st)==0); }
// ---- views of any type
struct Any { int n=0; bool cst=false; vector<int> ext; void* data=nullptr; long s0=0; long pad() const { if(ext.size()<2) return 0; long w=std::max(1,n); for(size_t k=1;k<ext.size();++k) w*=ext[k]; return s0*std::max(1,n)-w; }
  std::function<double(const vector<int>&,int)> get; std::function<void(const vector<int>&,int,double)> put;
  std::function<Any()> scal; std::function<Any(int)> repk; std::function<Any(const vector<int>&)> resh; };
template<class T> struct El { static const int n=0; static double& lane(T& x,int) { return const_cast<double&>(x); } };
template<class T,int N> struct El<Pack<T,N>> { static const int n=N; static double& lane(Pack<T,N>& x,int l) { return x[l]; } };
template<class T,int N> struct El<const Pack<T,N>> { static const int n=N; static double& lane(const Pack<T,N>& x,int l) { return const_cast<double&>(x[l]); } };
template<class V> static auto& elem(const V& v,const vector<int>& i) { constexpr int r=V::rank;
  if constexpr(r==0) return v(); else if constexpr(r==1) return v(i[0]); else if constexpr(r==2) return v(i[0],i[1]); else if constexpr(r==3) return v(i[0],i[1],i[2]); else if constexpr(r==4) return v(i[0],i[1],i[2],i[3]); else if constexpr(r==5) return v(i[0],i[1],i[2],i[3],i[4]); else if constexpr(r==6) return v(i[0],i[1],i[2],i[3],i[4],i[5]); else return v(i[0],i[1],i[2],i[3],i[4],i[5],i[6]); }
template<class V,bool Rp=true> static Any wrap(V v) {
  using T=typename V::traits::value_type; constexpr int r=V::rank; Any a; a.n=El<T>::n; a.cst=std::is_const<T>::value; for(int k=0;k<r;++k) a.ext.push_back(v.extent(k)); a.data=(void*)v.data(); if constexpr(r>=2) a.s0=v.stride_0();
  a.get=[v](const vector<int>& i,int l) { return (double)El<T>::lane(elem(v,i),l); };
  a.put=[v](const vector<int>& i,int l,double x) { El<T>::lane(elem(v,i),l)=x; };
  if constexpr(r<=7) a.scal=[v]() { auto w=ekat::scalarize(v); static_assert(std::is_const<typename decltype(w)::traits::value_type>::value==std::is_const<T>::value,"const"); return wrap<decltype(w),Rp>(w); };
  if constexpr(Rp&&r>=1&&V::rank_dynamic==r) a.repk=[v](int n)->Any { if(n==1) return wrap(ekat::repack<1>(v)); if(n==2) return wrap(ekat::repack<2>(v)); if(n==4) return wrap(ekat::repack<4>(v)); return wrap(ekat::repack<8>(v)); };
  return a; }
// what reshape accepts: views given by data type and properties
template<class V> static Any resh(V v,const vector<int>& e,int kind) { using T=typename V::traits::value_type;
  if(kind==1) return wrap<decltype(ekat::reshape<T*>(v,e[0])),false>(ekat::reshape<T*>(v,e[0])); if(kind==2) return wrap<decltype(ekat::reshape<T**>(v,e[0],e[1])),false>(ekat::reshape<T**>(v,e[0],e[1]));
  if(kind==3) return wrap<decltype(ekat::reshape<T*[3]>(v,e[0])),false>(ekat::reshape<T*[3]>(v,e[0])); if(kind==4) return wrap<decltype(ekat::reshape<T[12]>(v)),false>(ekat::reshape<T[12]>(v)); return wrap<decltype(ekat::reshape<T**[2]>(v,e[0],e[1])),false>(ekat::reshape<T**[2]>(v,e[0],e[1])); }
struct Hist { vector<double> mem; void* base=nullptr; int L=0; std::map<int,Any> vs; int next=0; std::function<Any(const vector<int>&,int)> rs; std::shared_ptr<void> keep;
  int add(Any a,const string& how,int from,int m=0,const vector<int>& dims={}) { int id=next++; vs[id]=a; Rec("View").i("id",id).t("how",how).i("from",from).i("m",m).a("dims",dims).i("n",a.n).a("ext",a.ext).i("off",(double*)a.data-(double*)base).i("pad",a.pad()).b("same",true).b("cst",a.cst); return id; }
  vector<int> idx(const Any& a) { vector<int> i; for(int e:a.ext) i.push_back(g.below(e)); return i; }
  void table(int id) { const Any& a=vs[id]; vector<long> t; long tot=1; for(int e:a.ext) tot*=e; for(long k=0;k<tot;++k) { vector<int> i(a.ext.size()); long q=k; for(int d=(int)a.ext.size()-1;d>=0;--d) { i[d]=q%a.ext[d]; q/=a.ext[d]; } for(int l=0;l<std::max(1,a.n);++l) t.push_back((long)a.get(i,l)); } Rec("Table").i("id",id).a("r",t); }
  template<class V> void start(V v) {Any a=wrap<V,true>(v); long tot=std::max(1,a.n); for(int e:a.ext) tot*=e; L=tot; base=a.data; for(long k=0;k<tot;++k) ((double*)base)[k]=k; Rec("New").i("L",L); add(a,"alloc",-1); }
  // a view v made of the scalars [m, m+tot), with rows pad0 scalars longer than needed
  template<class V> void slice(V v,double* m,long tot,long pad0) { Any a=wrap<V,true>(v); L=tot; base=m; for(long k=0;k<tot;++k) m[k]=k; Rec("New").i("L",L); a.s0=0; { long w=std::max(1,a.n); for(size_t k=1;k<a.ext.size();++k) w*=a.ext[k]; a.s0=(w+pad0)/std::max(1,a.n); } add(a,"alloc",-1); }
  void ops(int n,bool repack=true) { for(int k=0;k<n;++k) { int id=g.below(next); Any a=vs[id]; switch(g.below(6)) {
      case 0: if(a.scal) add(a.scal(),"scalarize",id); break;
      case 1: if(a.repk&&repack) { int m=1<<g.below(4); bool div=(a.ext.back()*std::max(1,a.n))%m==0&&a.pad()%m==0; if(div) add(a.repk(m),"repack",id,m); else Rec("Dies").t("how","repack").i("id",id).i("m",m).a("dims",vector<int>{}).b("r",dies([&]{ a.repk(m); })); } break;
      case 2: if(rs) { int kind=1+g.below(5); int w=L/std::max(1,vs[0].n); int d=0; vector<int> ds; for(int q=1;q<=w;++q) if(w%q==0) ds.push_back(q); d=ds[g.below(ds.size())]; vector<int> e; switch(kind) { case 1: e={w}; break; case 2: e={d,w/d}; break; case 3: e={w/3,3}; if(w%3) return; break; case 4: e={12}; if(w!=12) return; break; default: if(w%2) return; e={1,w/2,2}; }
          if(g.below(6)==0&&kind==2) { e[0]++; Rec("Dies").t("how","reshape").i("id",0).i("m",0).a("dims",e).b("r",dies([&]{ rs(e,kind); })); } else add(rs(e,kind),"reshape",0,0,e); } break;
      case 3: if(!a.cst) { auto i=idx(a); int l=g.below(std::max(1,a.n)); double x=g.range(100,999); a.put(i,l,x); Rec("Write").i("id",id).a("idx",i).i("lane",l).i("x",(long)x); } break;
      case 4: { auto i=idx(a); int l=g.below(std::max(1,a.n)); Rec("Read").i("id",id).a("idx",i).i("lane",l).i("r",(long)a.get(i,l)); break; }
      default: if(L<200) table(id); } }
    vector<long> d; for(int k=0;k<L;++k) d.push_back((long)((double*)base)[k]); Rec("Dump").a("r",d); } };
static int ri(int a,int b);
template<class T,class V,class S> static void slices(const V& p,const S& v,int i,int n) { const int W=std::max(1,El<T>::n); long in=W,tot=(long)p.size()*W; for(int k=2;k<(int)V::rank;++k) in*=p.extent(k); (void)i; Hist h; h.slice(v,(double*)p.data(),tot,(p.extent(1)-1)*in); h.ops(n); }
static int ri(int a,int b) { return g.range(a,b); }
template<class T> static void ranks(int reps,bool high) {
  for(int t=0;t<1+vp::thorough();++t) { { Kokkos::View<T*> v("",g.pick(vector<int>{129,200,257,300})); Hist h; h.start(v); h.rs=[v](const vector<int>& e,int k){ return resh(v,e,k); }; h.ops(16); } { Kokkos::View<T**> v("",ri(1,2),g.pick(vector<int>{64,128,130,257})); Hist h; h.start(v); h.ops(14); } { Kokkos::View<T***> v("",ri(1,2),g.pick(vector<int>{33,65,129,257}),2); Hist h; h.start(v); h.ops(14); } }
  for(int t=0;t<reps;++t) {
    { Kokkos::View<T*> v("",ri(1,9)); Hist h; h.start(v); h.rs=[v](const vector<int>& e,int k){ return resh(v,e,k); }; h.ops(18); }
    { Kokkos::View<T**> v("",ri(1,5),ri(1,6)); Hist h; h.start(v); h.rs=[v](const vector<int>& e,int k){ return resh(v,e,k); }; h.ops(18); }
    { Kokkos::View<T***> v("",ri(1,3),ri(1,4),ri(1,4)); Hist h; h.start(v); h.rs=[v](const vector<int>& e,int k){ return resh(v,e,k); }; h.ops(18); }
    { Kokkos::View<T***,Kokkos::LayoutRight,Kokkos::HostSpace> m("",ri(1,3),ri(1,4),ri(1,3)); Kokkos::View<const T***,Kokkos::LayoutRight,Kokkos::HostSpace,Kokkos::MemoryUnmanaged> v(m); Hist h; h.start(v); h.ops(12); }
    { using H=Kokkos::HostSpace; using R=Kokkos::LayoutRight; Kokkos::View<T***,R,H> a("",ri(1,3),ri(2,4),ri(1,4)); int i=g.below(a.extent(1)); slices<T>(a,ekat::subview_1(a,i),i,14); Kokkos::View<const T***,R,H> c(a); slices<const T>(c,ekat::subview_1(c,i),i,10);
      Kokkos::View<T****,R,H> b("",ri(1,3),ri(2,3),ri(1,2),ri(1,3)); i=g.below(b.extent(1)); slices<T>(b,ekat::subview_1(b,i),i,14); Kokkos::View<T*****,R,H> d("",ri(1,2),ri(2,3),ri(1,2),ri(1,2),ri(1,2)); i=g.below(d.extent(1)); slices<T>(d,ekat::subview_1(d,i),i,10);
      if(high) { Kokkos::View<T******,R,H> e("",ri(1,2),2,ri(1,2),ri(1,2),ri(1,2),ri(1,2)); i=g.below(2); slices<T>(e,ekat::subview_1(e,i),i,8); } }
    if(high) { { Kokkos::View<T> v(""); Hist h; h.start(v); h.ops(6,false); } { Kokkos::View<T*[3]> v("",ri(1,4)); Hist h; h.start(v); h.ops(8,false); } { Kokkos::View<T*[2][3]> m("",ri(1,3)); Kokkos::View<const T*[2][3]> v(m); Hist h; h.start(v); h.ops(8,false); } { Kokkos::View<T[5]> v(""); Hist h; h.start(v); h.ops(8,false); }
      { Kokkos::View<T****> v("",ri(1,2),ri(1,3),ri(1,3),ri(1,3)); Hist h; h.start(v); h.ops(8); } { Kokkos::View<T*****> v("",ri(1,2),ri(1,3),ri(1,2),ri(1,2),ri(1,3)); Hist h; h.start(v); h.ops(8); }
      { Kokkos::View<T******> v("",ri(1,2),ri(1,2),ri(1,2),ri(1,2),ri(1,2),ri(1,3)); Hist h; h.start(v); h.ops(8,false); } { Kokkos::View<T*******> v("",1,ri(1,2),ri(1,2),ri(1,2),ri(1,2),ri(1,2),ri(1,3)); Hist h; h.start(v); h.ops(8,false); } } } }
// ---- index arithmetic
template<int N> static void info() { using P=ekat::PackInfo<N>; for(int len=1;len<=3*N+2;++len) { vector<int> ve,pi,vi,pf,ps,ai,ai2,ai3; for(int k=0;k<P::num_packs(len);++k) ve.push_back(P::vec_end(len,k));
    for(int i=0;i<len;++i) { pi.push_back(P::pack_idx(i)); vi.push_back(P::vec_idx(i)); auto q=P::pack_vec_idx(i); pf.push_back(q.first); ps.push_back(q.second); ai.push_back(P::array_idx(i/N,i%N)); ai2.push_back(P::array_idx(q)); ai3.push_back(P::array_idx(std::make_pair(i/N,i%N))); }
    Rec("Info").i("n",N).i("len",len).i("packs",P::num_packs(len)).b("padded",P::has_padding(len)).i("padding",P::padding(len)).i("lastend",P::last_vec_end(len)).i("last",P::last_pack_idx(len)).a("ends",ve).a("pi",pi).a("vi",vi).a("pf",pf).a("ps",ps).a("ai",ai).a("ai2",ai2).a("ai3",ai3); } }
// ---- gathering
template<int n> static string packs(const vector<Pack<int,n>>& is) { string s="["; for(size_t k=0;k<is.size();++k) { vector<int> v; for(int i=0;i<n;++i) v.push_back(is[k][i]); s+=(k?",":"")+Rec::arr(v); } return s+"]"; }
template<int n,int r> static void gather() { using T=double; vector<int> e; for(int k=0;k<r;++k) e.push_back(ri(1,r<3?6:3)); long tot=1; for(int x:e) tot*=x; vector<double> m(tot); for(long k=0;k<tot;++k) m[k]=k*3+1; vector<Pack<int,n>> is(r); for(int k=0;k<r;++k) for(int i=0;i<n;++i) is[k][i]=g.below(e[k]);
  Pack<double,n> p; if constexpr(r==1) { Kokkos::View<const T*> v(m.data(),e[0]); p=ekat::index(v,is[0]); } if constexpr(r==2) { Kokkos::View<T**> v(m.data(),e[0],e[1]); p=ekat::index(v,is[0],is[1]); } if constexpr(r==3) { Kokkos::View<T***> v(m.data(),e[0],e[1],e[2]); p=ekat::index(v,is[0],is[1],is[2]); }
  if constexpr(r==4) { Kokkos::View<T****> v(m.data(),e[0],e[1],e[2],e[3]); p=ekat::index(v,is[0],is[1],is[2],is[3]); } if constexpr(r==5) { Kokkos::View<T*****> v(m.data(),e[0],e[1],e[2],e[3],e[4]); p=ekat::index(v,is[0],is[1],is[2],is[3],is[4]); }
  vector<long> v; for(int i=0;i<n;++i) v.push_back((long)p[i]); Rec("Index").a("ext",e).raw("is",packs<n>(is)).a("r",v); }
static long en(double x) { return std::isnan(x)?INV:(long)x; } static long en(int x) { return x==2147483647?INV:x; }
template<int n,int S,class T> static void gshift() { int e=ri(1,2*n+3); vector<T> m(e); vector<long> a; for(int k=0;k<e;++k) { m[k]=g.range(1,500); a.push_back((long)m[k]); } Kokkos::View<T*> v(m.data(),e); Pack<int,n> i0;
  for(int i=0;i<n;++i) { do i0[i]=g.below(3)?std::min(e-1,(int)(g.below(2)?i:e-n+i<0?i:e-n+i)):g.below(e);
#ifdef NDEBUG
   while(false); if(i0[i]+S<0) i0[i]=std::min(e-1,-S); if(i0[i]+S>=e) i0[i]=std::max(0,e-1-S); if(i0[i]+S<0||i0[i]+S>=e) return;
#else
   while(false);
#endif
  } Pack<T,n> x(T(7)),y(T(7)); ekat::index_and_shift<S>(v,i0,x,y); vector<long> p,q; for(int i=0;i<n;++i) { p.push_back(en(x[i])); q.push_back(en(y[i])); } Rec("IndexShift").a("a",a).i("shift",S).raw("is",packs<n>({i0})).a("r",p).a("rs",q); }
// ---- differences of neighbours
template<int n,class T> static void diff() { int np=ri(1,4); vector<Pack<T,n>> m(np); string vs="["; for(int k=0;k<np;++k) { vector<long> l; for(int i=0;i<n;++i) { m[k][i]=g.range(-50,50); l.push_back((long)m[k][i]); } vs+=(k?",":"")+Rec::arr(l); } vs+="]"; Kokkos::View<Pack<T,n>*> v(m.data(),np); Kokkos::View<const Pack<T,n>*> c(v);
  auto f=[&](int i)->const Pack<T,n>& { return m[i]; }; auto fv=[&](int i) { return m[i]; };
  auto out=[&](const char* form,bool fw,auto d) { string s="["; for(int k=0;k<np;++k) { auto p=d(k); vector<long> l; for(int i=0;i<n;++i) l.push_back((long)p[i]); s+=(k?",":"")+Rec::arr(l); } Rec("Diff").t("form",form).b("fwd",fw).raw("a",vs).raw("r",s+"]"); };
  out("view",true,[&](int k){return ekat::adj_diff<true>(v,k);}); out("view",false,[&](int k){return ekat::adj_diff<false>(c,k);}); out("viewend",true,[&](int k){return ekat::adj_diff<true>(c,k,np);}); out("fn",true,[&](int k){return ekat::adj_diff<true>(f,k,np);}); out("fn",false,[&](int k){return ekat::adj_diff<false>(fv,k,np);});
  if constexpr(n==1) { vector<T> s; for(auto&p:m) s.push_back(p[0]); Kokkos::View<T*> sv(s.data(),np); Kokkos::View<const T*> cv(sv); auto sf=[&](int i){return s[i];}; auto sr=[&](int i)->const T&{return s[i];}; auto w=[&](T x){ return Pack<T,1>(x); };
    out("scalar",true,[&](int k){return w(ekat::adj_diff<true>(sv,k));}); out("scalar",false,[&](int k){return w(ekat::adj_diff<false>(cv,k));}); out("scalarfn",true,[&](int k){return w(ekat::adj_diff<true>(sf,k,np));}); out("scalarfn",false,[&](int k){return w(ekat::adj_diff<false>(sr,k,np));}); } }
// ---- filling and copying
struct Seq { int k=0; }; struct Draw { int operator()(Seq& s) const { return ++s.k; } };
template<int n> static void fill() { { int len=ri(0,5); vector<Pack<double,n>> m(len); Seq s; ekat::genRandArray(m.data(),len,s,Draw()); vector<long> v; for(auto&p:m) for(int i=0;i<n;++i) v.push_back((long)p[i]); Rec("Fill").i("len",len*n).i("drawn",s.k).a("r",v); }
  { int a=ri(1,3),b=ri(1,4); Kokkos::View<double**> v("",a,b); Seq s; ekat::genRandArray(v,s,Draw()); vector<long> x,y; for(int i=0;i<a;++i) for(int j=0;j<b;++j) x.push_back((long)v(i,j)); Rec("Fill").i("len",a*b).i("drawn",s.k).a("r",x);
    { int c=ri(1,3),i=g.below(b); Kokkos::View<double***,Kokkos::LayoutRight,Kokkos::HostSpace> p("",a,b,c); Kokkos::deep_copy(p,-1); Seq t; ekat::genRandArray(ekat::subview_1(p,i),t,Draw()); vector<long> y; for(size_t k=0;k<p.size();++k) y.push_back((long)p.data()[k]); Rec("FillSlice").i("n",0).a("ext",vector<int>{a,c}).i("off",i*c).i("pad",(b-1)*c).a("r",y); }
    auto h=ekat::create_host_mirror_and_copy(v); for(int i=0;i<a;++i) for(int j=0;j<b;++j) y.push_back((long)h(i,j)); Rec("Mirror").a("a",x).a("r",y).b("ext",(int)h.extent(0)==a&&(int)h.extent(1)==b); } }
// ---- data types
template<class T> struct Dt { static vector<string> dims() { return {}; } static string s() { return std::is_const<T>::value?"cdouble":"double"; } static int n() { return 0; } };
template<class T,int N> struct Dt<Pack<T,N>> { static vector<string> dims() { return {}; } static string s() { return "double"; } static int n() { return N; } };
template<class T,int N> struct Dt<const Pack<T,N>> { static vector<string> dims() { return {}; } static string s() { return "cdouble"; } static int n() { return N; } };
template<class T> struct Dt<T*> { static vector<string> dims() { auto v=Dt<T>::dims(); v.insert(v.begin(),"*"); return v; } static string s() { return Dt<T>::s(); } static int n() { return Dt<T>::n(); } };
template<class T,size_t K> struct Dt<T[K]> { static vector<string> dims() { auto v=Dt<T>::dims(); v.insert(v.begin(),std::to_string(K)); return v; } static string s() { return Dt<T>::s(); } static int n() { return Dt<T>::n(); } };
template<class T> static void type1() { using R=typename ekat::ScalarizedDataType<T>::type; auto pr=[](vector<string> d) { string s="["; for(size_t k=0;k<d.size();++k) s+=string(k?",":"")+(d[k]=="*"?"0":d[k]); return s+"]"; }; Rec("Type").raw("dims",pr(Dt<T>::dims())).i("n",Dt<T>::n()).t("s",Dt<T>::s()).raw("rdims",pr(Dt<R>::dims())).i("rn",Dt<R>::n()).t("rs",Dt<R>::s()); }
// pointers outside, arrays inside: built from the inside
template<class T,int D,bool ptr> static void types() { type1<T>(); if constexpr(D>0) types<T*,D-1,true>(); }
template<class T,int D> static void arrs() { types<T,2,false>(); if constexpr(D>0) { arrs<T[2],D-1>(); arrs<T[3],D-1>(); } }
template<int n> static void all(bool debug) { int K=vp::thorough()?60:12;
  for(int k=0;k<K;++k) { gather<n,1>(); gather<n,2>(); gather<n,3>(); gather<n,4>(); gather<n,5>(); gshift<n,1,double>(); gshift<n,-1,double>(); gshift<n,2,int>(); gshift<n,-3,int>(); gshift<n,0,double>(); diff<n,double>(); diff<n,int>(); fill<n>(); } }
int main(int argc,char** argv) { Kokkos::initialize(argc,argv); { g=vp::Rng(vp::seed()); int K=vp::thorough()?25:4; bool db=true;
#if PART==1
  ranks<double>(K*2,true); ranks<Pack<double,2>>(K,true); ranks<Pack<double,1>>(K,false);
#elif PART==2
  ranks<Pack<double,4>>(K*2,true); ranks<Pack<double,8>>(K,false);
#else
  info<1>(); info<2>(); info<4>(); info<8>(); info<16>(); all<1>(db); all<2>(db); all<4>(db); all<8>(db); all<16>(db);
  arrs<double,2>(); arrs<const double,1>(); arrs<Pack<double,2>,3>(); arrs<Pack<double,4>,2>(); arrs<const Pack<double,8>,2>(); arrs<Pack<double,1>,1>();
#endif
 } Kokkos::finalize(); return 0; }
