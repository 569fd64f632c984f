// Subviews, subviews of subviews and reshaped views: where every element is.
#include "vp.hpp"
#include <csetjmp>
#include "ekat.hpp"
#include "ekat_pack.hpp"
#include "ekat_subview_utils.hpp"
#include "ekat_view_utils.hpp"
#include "ekat_kokkos_types.hpp"
using std::vector; using vp::Rec;
static vp::Rng g(1); static jmp_buf jb; static bool armed=false;
extern "C" void __assert_fail(const char* e,const char* f,unsigned l,const char*) noexcept { if(armed) { armed=false; longjmp(jb,1); } fprintf(stderr,"%s:%u: %s\n",f,l,e); abort(); }
static char* base=nullptr; static size_t esz=1;
template<class V,size_t... K> static const void* at(const V& v,const int* i,std::index_sequence<K...>) { return &v(i[K]...); }
template<class V> static void put(Rec& r,const V& v) { constexpr int R=V::rank; vector<int> e; for(int k=0;k<R;++k) e.push_back(v.extent_int(k)); vector<long> a; int i[8]={0,0,0,0,0,0,0,0}; size_t n=1; for(int x:e) n*=x;
  for(size_t q=0;q<n;++q) { a.push_back(((char*)at(v,i,std::make_index_sequence<R>())-base)/(long)esz); for(int k=R-1;k>=0;--k) { if(++i[k]<e[k]) break; i[k]=0; } } r.a("ext",e).a("addr",a); }
// the request, under a trap for failed assertions
template<class F> static bool refused(F f) { if(setjmp(jb)) return true; armed=true; f(); armed=false; return false; }
template<class F> static void attempt(const char* op,int from,const vector<int>& i,F f) {
#ifndef NDEBUG
  bool r=refused(f); Rec("Try").t("op",op).i("from",from).a("i",i).b("refused",r);
#endif
}
static int budget=0;
template<class V> static void explore(const V& v,int from,int depth);
template<class V,class... I> static void fixed(const V& v,int from,int depth,const vector<int>& i,I... x) {
  bool ok=true; for(size_t k=0;k<i.size();++k) ok=ok&&i[k]>=0&&i[k]<v.extent_int(k);
  if(!ok) { attempt("fix",from,i,[&]{ (void)ekat::subview(v,x...); }); return; }
  auto s=ekat::subview(v,x...); { Rec r("Fix"); r.i("from",from).a("i",i); put(r,s); } if(depth>0) explore(s,from+1,depth-1); }
template<int L,class V> static void fixN(const V& v,int from,int depth,const vector<int>& i) {
  if constexpr(L==1) fixed(v,from,depth,i,i[0]); if constexpr(L==2) fixed(v,from,depth,i,i[0],i[1]); if constexpr(L==3) fixed(v,from,depth,i,i[0],i[1],i[2]);
  if constexpr(L==4) fixed(v,from,depth,i,i[0],i[1],i[2],i[3]); if constexpr(L==5) fixed(v,from,depth,i,i[0],i[1],i[2],i[3],i[4]); }
template<class V> static int some(const V& v,int k) { return g.below(v.extent_int(k)); }
template<int L,class V> static void fixes(const V& v,int from,int depth,bool every) {
  if(every) { vector<int> i(L,-1); for(;;) { bool bad=false; int nb=0; for(int k=0;k<L;++k) { if(i[k]<0||i[k]>=v.extent_int(k)) { bad=true; ++nb; } } if(nb<=1&&(!bad||true)) fixN<L>(v,from,bad?0:depth,i); int k=L-1; for(;k>=0;--k) { if(++i[k]<=v.extent_int(k)) break; i[k]=-1; } if(k<0) break; } }
  else { vector<int> i; for(int k=0;k<L;++k) i.push_back(some(v,k)); fixN<L>(v,from,depth,i); int k=g.below(L); i[k]=g.below(2)?-1-g.below(3):v.extent_int(k)+g.below(2); fixN<L>(v,from,0,i); } }
template<class V> static void seconds(const V& v,int from,int depth,bool every) { constexpr int R=V::rank; if constexpr(R>=2) { int e=v.extent_int(1); vector<int> c; if(every) for(int i=-1;i<=e;++i) c.push_back(i); else { c.push_back(g.below(e)); c.push_back(g.below(2)?-1:e); }
  for(int i:c) { if(i<0||i>=e) { attempt("second",from,{i},[&]{ (void)ekat::subview_1(v,i); }); continue; } auto s=ekat::subview_1(v,i); { Rec r("Second"); r.i("from",from).i("i",i); put(r,s); } if constexpr(R>=3) { if(depth>0) explore(s,from+1,depth-1); } } } }
template<class V> static void ranges(const V& v,int from,bool every) { constexpr int R=V::rank; for(int d=-1;d<=R;++d) { int e=d>=0&&d<R?v.extent_int(d):1; if(!every&&g.below(2)) continue;
  auto one=[&](int a,int b) { Kokkos::pair<int,int> p(a,b); if(d<0||d>=R||a<0||a>=b||b>e) { attempt("range",from,{d+1,a,b},[&]{ (void)ekat::subview(v,p,d); }); return; }
    auto s=ekat::subview(v,p,d); { Rec r("Range"); r.i("from",from).i("d",d+1).i("a",a).i("b",b); put(r,s); } if constexpr(R==1) { auto q=ekat::subview(v,p); Rec r("Range"); r.i("from",from).i("d",1).i("a",a).i("b",b); put(r,q); } };
  if(every) { for(int a=-1;a<=e+1;++a) for(int b=-1;b<=e+1;++b) one(a,b); } else { int a=g.below(e); one(a,g.range(a+1,e)); one(a,e+1); one(g.range(-1,e),g.range(-1,e)); } } }
template<class V> static void explore(const V& v,int from,int depth) { constexpr int R=V::rank; if constexpr(R>=1) { if(--budget<0) return; bool every=from<=2&&v.size()<=(vp::thorough()?27:8);
  fixes<1>(v,from,depth,every); if constexpr(R>=3) fixes<2>(v,from,depth,every); if constexpr(R>=4) fixes<3>(v,from,depth,every); if constexpr(R>=5) fixes<4>(v,from,depth,every); if constexpr(R>=6) fixes<5>(v,from,depth,every);
  seconds(v,from,depth,every); ranges(v,from,every); } }
template<class V,size_t... K> static V make(const vector<int>& e,std::index_sequence<K...>) { return V("v",e[K]...); }
// the view w, moved to the memory at p
template<class V> static V at0(typename V::value_type* p,const V& w) { auto m=w.impl_map(); m.m_impl_handle=p; return V(w.impl_track(),m); }
template<class V,class C> static void root(const vector<int>& e) { V v=make<V>(e,std::make_index_sequence<V::rank>());
  // sometimes with a gap after each entry of the first dimension
  vector<typename V::value_type> mem; if constexpr(V::rank>=2) if(g.below(2)) { auto m=v.impl_map(); int pad=g.range(1,3); m.m_impl_offset.m_stride=m.stride_0()+pad; mem.resize(m.stride_0()*v.extent(0)); V w(v.impl_track(),m); v=at0<V>(mem.data(),w); }
  base=(char*)v.data(); esz=sizeof(typename V::value_type); C c(v); { Rec r("New"); vector<long> st(9); v.stride(st.data()); r.i("s0",st[0]); put(r,c); } budget=vp::thorough()?150:V::rank<4?40:16; explore(c,1,3); }
template<class T,class C> static void ranks(int K) { using ekat::ViewLR; using D=Kokkos::DefaultExecutionSpace::device_type; using U=Kokkos::MemoryTraits<Kokkos::Unmanaged>; for(int k=0;k<K;++k) { int r=1+k%6; vector<int> e; for(int j=0;j<r;++j) e.push_back(r<3?g.range(1,4):r==3?g.range(1,3):j==0?2:g.range(1,g.below(3)?2:3));
  switch(r) { case 1: root<ViewLR<T*,D>,ViewLR<C*,D>>(e); break; case 2: root<ViewLR<T**,D>,ViewLR<C**,D,U>>(e); break; case 3: root<ViewLR<T***>,ViewLR<C***>>(e); break; case 4: root<ViewLR<T****,D>,ViewLR<C****,D>>(e); break; case 5: root<ViewLR<T*****,D>,ViewLR<C*****,D,U>>(e); break; default: root<ViewLR<T******>,ViewLR<C******>>(e); } } }
template<class Out,class V,class... D> static void shape(const V& v,vector<int> e,D... d) { vector<int> o; size_t n=1,m=v.size(); for(int k=0;k<(int)V::rank;++k) o.push_back(v.extent_int(k)); for(int x:e) n*=x; base=(char*)v.data(); esz=sizeof(typename V::value_type);
  if(n!=m) {
#ifndef NDEBUG
    bool r=refused([&]{ (void)ekat::reshape<Out>(v,d...); }); vector<int> no; Rec("Reshape").a("old",o).a("to",e).b("refused",r).a("ext",no).a("addr",no);
#endif
    return; }
  auto w=ekat::reshape<Out>(v,d...); Rec r("Reshape"); r.a("old",o).a("to",e).b("refused",false); put(r,w); }
template<class T> static void shapes() { using D=Kokkos::DefaultExecutionSpace::device_type; Kokkos::View<T**,Kokkos::LayoutRight,D> a("a",2,6); Kokkos::View<T*,Kokkos::LayoutRight,D> b("b",12); Kokkos::View<T***,Kokkos::LayoutRight,D> c("c",3,2,2); Kokkos::View<T[3][4],Kokkos::LayoutRight,D> f("f"); Kokkos::View<T*[4],Kokkos::LayoutRight,D,Kokkos::MemoryUnmanaged> h(b.data(),3);
  auto all=[&](auto v) { shape<T[12]>(v,{12}); shape<T[4][3]>(v,{4,3}); shape<T[13]>(v,{13}); shape<T[2][2][3]>(v,{2,2,3});
    for(int n:{11,12,13,0,1}) shape<T*>(v,{n},n); for(int n:{0,1,2,3,4,5,6,12}) { for(int m:{1,2,3,4,6,12}) shape<T**>(v,{n,m},n,m); shape<T*[3]>(v,{n,3},n); shape<T*[4]>(v,{n,4},n); shape<T**[2]>(v,{n,3,2},n,3); shape<T**[2][1]>(v,{2,n,2,1},2,n); } };
  all(a); all(b); all(c); all(f); all(h); }
int main(int argc,char** argv) { Kokkos::initialize(argc,argv); { g=vp::Rng(vp::seed()+PART); int K=vp::thorough()?90:42;
#if PART==0
  ranks<double,double>(K); shapes<double>();
#elif PART==1
  ranks<float,const float>(K);
#else
  ranks<ekat::Pack<double,4>,ekat::Pack<double,4>>(K); shapes<ekat::Pack<float,2>>();
#endif
 } Kokkos::finalize(); }
