// Broadcast views: all placements, source and target layouts, ranks 1..8.
#include "vp.hpp"
#include <csetjmp>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include "ekat.hpp"
#include "ekat_pack.hpp"
#include "ekat_kokkos_types.hpp"
#include "ekat_view_broadcast.hpp"
using std::vector; using std::string; using vp::Rec;
static vp::Rng g(1); static sigjmp_buf jb; static char* base=nullptr; static long esz=1;
static void onabrt(int) { siglongjmp(jb,1); }
template<class F> static bool dies(F f) { bool r; fflush(nullptr); int o=dup(1),e=dup(2),n=open("/dev/null",O_WRONLY); dup2(n,1); dup2(n,2); signal(SIGABRT,onabrt); if(sigsetjmp(jb,1)) r=true; else { f(); r=false; } fflush(nullptr); dup2(o,1); dup2(e,2); close(o); close(e); close(n); signal(SIGABRT,SIG_DFL); return r; }
template<class V,class I,size_t... K> static auto& at(const V& v,const I* i,std::index_sequence<K...>) { return v(i[K]...); }
template<int R,class I,class V> static vector<long> addrs(const V& v,const vector<int>& e) { vector<long> a; I i[8]={0,0,0,0,0,0,0,0}; long n=1; for(int x:e) n*=x; for(long q=0;q<n;++q) { a.push_back(((char*)&at(v,i,std::make_index_sequence<R>())-base)/esz); for(int k=R-1;k>=0;--k) { if((int)++i[k]<e[k]) break; i[k]=0; } } return a; }
template<class V> static vector<int> exts(const V& v) { vector<int> e; for(int k=0;k<(int)V::rank;++k) e.push_back(v.extent_int(k)); return e; }
template<class V> static void source(const V& v) { base=(char*)v.data(); esz=sizeof(typename V::value_type); auto e=exts(v); Rec("New").a("ext",e).a("addr",addrs<(int)V::rank,int>(v,e)); }
template<class T,int R> struct ptr { using type=typename ptr<T,R-1>::type*; }; template<class T> struct ptr<T,0> { using type=T; };
// the elements as seen from a kernel with its own copy
template<int R,class B> static vector<long> inkernel(const B& b,const vector<int>& e) { long n=1; for(int x:e) n*=x; vector<long> a(n); long* p=a.data(); int d[8]; for(int k=0;k<R;++k) d[k]=e[k]; char* o=base; long z=esz;
  Kokkos::parallel_for(Kokkos::RangePolicy<>(0,n),[=](int q) { int i[8]; int r=q; for(int k=R-1;k>=0;--k) { i[k]=r%d[k]; r/=d[k]; } p[q]=((char*)&at(b,i,std::make_index_sequence<R>())-o)/z; }); return a; }
template<class To,int R,class V> static void make(const V& v,const vector<int>& x,int how) { using B=ekat::ViewBroadcast<To>; B b; bool refused=false;
  try { if(how==0) b=B(v,x); else if(how==1) b=ekat::broadcast<To>(v,x); else b.setup(v,x); } catch(std::exception&) { refused=true; }
  Rec("Make").i("n",R).a("x",x).b("refused",refused); if(refused) return; if(how==3) { b.setup(v,x); }
  B c=b; vector<int> e; for(int k=0;k<R;++k) e.push_back(how%2?c.extent(k):std::as_const(c).extent(k)); long n=1; for(int q:e) n*=q; if(n<0||n>2000) { Rec("Look").a("ext",e).a("addr",vector<int>()); return; }
  Rec("Look").a("ext",e).a("addr",how==2?inkernel<R>(c,e):how==3?addrs<R,long>(c,e):how==1?addrs<R,size_t>(c,e):addrs<R,int>(c,e));
#ifndef NDEBUG
  if(g.below(8)==0) for(int d:{-1,0,R-1,R,R+1}) { bool r=dies([&]{ (void)c.extent(d); }); Rec("Extent").i("d",d).b("refused",r); }
#endif
}
template<class To,int R,class V> static void placements(const V& v,bool bad) { constexpr int F=(int)V::rank; int n=0; for(int bits=0;bits<(1<<R);++bits) { int kept=R-__builtin_popcount(bits); if(kept!=F&&(!bad||g.below(1<<R)>4)) continue; if(kept==F&&R>4&&g.below(1<<R)>9&&n) continue; ++n; vector<int> x; for(int k=0;k<R;++k) x.push_back((bits>>k&1)?g.range(1,R>5?2:3):(g.below(3)?-1:-g.below(4))); make<To,R>(v,x,g.below(4)); }
  if(bad) for(int len:{R-1,R+1,0}) { vector<int> x; for(int k=0;k<len;++k) x.push_back(k<F?-1:2); make<To,R>(v,x,g.below(3)); } }
// targets with dimensions known when compiling; their extents have to be asked for
template<class T,class L,class V> static void fixedTo(const V& v) { if constexpr(V::rank==1) { int n=v.extent_int(0); auto two=[&](auto* t) { using D=std::remove_pointer_t<decltype(t)>; if constexpr(std::is_same_v<D,T*[2]>) make<Kokkos::View<D,L>,2>(v,{-1,2},0); else { make<Kokkos::View<D,L>,2>(v,{3,-1},1); if(n==2) make<Kokkos::View<D,L>,2>(v,{-1,3},1); } }; two((T*(*)[2])nullptr); } }
template<int R,class T,class CT,class V> static void targets(const V& v) { if constexpr(R<=8) { bool bad=g.below(2);
    placements<Kokkos::View<typename ptr<CT,R>::type,Kokkos::LayoutRight>,R>(v,bad); if constexpr(R<=4) placements<Kokkos::View<typename ptr<CT,R>::type,Kokkos::LayoutLeft>,R>(v,bad);
    targets<R+1,T,CT>(v); } }
// a target with fewer dimensions than the source
template<class CT,class V> static void fewer(const V& v) { constexpr int F=(int)V::rank; if constexpr(F>=2) { vector<int> x(F-1,-1); make<Kokkos::View<typename ptr<CT,F-1>::type,Kokkos::LayoutRight>,F-1>(v,x,0); x.push_back(-1); make<Kokkos::View<typename ptr<CT,F-1>::type,Kokkos::LayoutRight>,F-1>(v,x,1); } }
template<class T,class CT,class V> static void from(const V& v) { source(v); targets<(int)V::rank,T,CT>(v); fewer<CT>(v); }
template<class V,size_t... K> static V alloc(const vector<int>& e,std::index_sequence<K...>) { return V("v",e[K]...); }
template<class T,class CT,int F> static void ranks() { if constexpr(F<=MAXF) { if constexpr(F>=MINF) for(int k=0;k<(F<4?3:1);++k) { vector<int> e; for(int j=0;j<F;++j) e.push_back(g.range(k==2?0:1,F<4?3:2)); using D=typename ptr<T,F>::type;
    { auto v=alloc<Kokkos::View<D,Kokkos::LayoutRight>>(e,std::make_index_sequence<F>()); from<T,CT>(v); if constexpr(F<=2) from<T,const T>(Kokkos::View<typename ptr<const T,F>::type,Kokkos::LayoutRight>(v)); }
    if constexpr(F==1) { Kokkos::View<T**,Kokkos::LayoutRight> w("w",e[0]+1,3); from<T,CT>(Kokkos::subview(w,std::make_pair(1,e[0]+1),1)); from<T,CT>(Kokkos::View<T[3],Kokkos::LayoutRight>("f")); if(e[0]) { auto r=Kokkos::subview(w,1,Kokkos::ALL); source(r); fixedTo<CT,Kokkos::LayoutRight>(r); } }
    if constexpr(F==2) { from<T,CT>(alloc<Kokkos::View<D,Kokkos::LayoutLeft>>(e,std::make_index_sequence<F>())); Kokkos::View<T***,Kokkos::LayoutRight> w("w",e[0]+1,e[1]+1,2); from<T,CT>(Kokkos::subview(w,std::make_pair(1,e[0]+1),std::make_pair(0,e[1]),1)); from<T,CT>(Kokkos::subview(w,Kokkos::ALL,1*(e[1]>0),Kokkos::ALL)); from<T,CT>(Kokkos::View<T*[2],Kokkos::LayoutRight>("f",e[0])); }
    if constexpr(F==3) { from<T,CT>(alloc<Kokkos::View<D,Kokkos::LayoutLeft>>(e,std::make_index_sequence<F>())); } }
    ranks<T,CT,F+1>(); } }
template<class T> static void zero() { Kokkos::View<T> v("z"); source(v); make<Kokkos::View<T*>,1>(v,{-1},0); make<Kokkos::View<T*>,1>(v,{3},0); make<Kokkos::View<T**>,2>(v,{3,2},0); }
template<class T> static void fixedDims() { for(int n:{2,3,4}) { Kokkos::View<T*> v("v",n); source(v); fixedTo<T,Kokkos::LayoutRight>(v); fixedTo<const T,Kokkos::LayoutLeft>(v); } }
// long sources and very many copies: the elements at some indices
template<int R,class B> static void peek(const B& b,const vector<int>& e) { vector<vector<int>> at_; for(int t=0;t<30;++t) { vector<int> i(R); for(int k=0;k<R;++k) i[k]=t==0?0:t==1?e[k]-1:g.below(4)==0?e[k]-1:g.below(e[k]); at_.push_back(i); }
  vector<int> flat; for(auto&i:at_) for(int q:i) flat.push_back(q); vector<long> a(at_.size()); long* p=a.data(); const int* f=flat.data(); char* o=base; long z=esz;
  Kokkos::parallel_for(Kokkos::RangePolicy<>(0,(int)at_.size()),[=](int q) { p[q]=((char*)&at(b,f+q*R,std::make_index_sequence<R>())-o)/z; }); string s="["; for(size_t q=0;q<at_.size();++q) s+=(q?",":"")+Rec::arr(at_[q]); Rec("Peek").raw("idx",s+"]").a("addr",a); }
template<class To,int R,class V> static void makeBig(const V& v,const vector<int>& x) { Rec("Make").i("n",R).a("x",x).b("refused",false); auto b=ekat::broadcast<To>(v,x); vector<int> e; for(int k=0;k<R;++k) e.push_back(b.extent(k)); Rec("Extents").a("ext",e); peek<R>(b,e); }
template<class T,class CT,int R,class V> static void bigTo(const V& v) { if constexpr(R<=8) { constexpr int F=(int)V::rank; for(int t=0;t<4;++t) { vector<int> x(R,-1); int c=R-F; while(c) { int k=g.below(R); if(x[k]<0) { x[k]=g.pick(vector<int>{1,129,257,40000,70000,2000000000}); --c; } } makeBig<Kokkos::View<typename ptr<CT,R>::type,Kokkos::LayoutRight>,R>(v,x); } bigTo<T,CT,R+1>(v); } }
template<class T,class CT,int F> static void big() { if constexpr(F<=MAXF&&F<=4) { if constexpr(F>=MINF) for(int j=0;j<F;++j) { vector<int> e(F,F<3?2:1); e[j]=g.pick(vector<int>{129,200,257,300}); if(F==1) e[0]=g.range(257,1500);
    auto v=alloc<Kokkos::View<typename ptr<T,F>::type,Kokkos::LayoutRight>>(e,std::make_index_sequence<F>()); source(v); bigTo<T,CT,F>(v); auto u=alloc<Kokkos::View<typename ptr<T,F>::type,Kokkos::LayoutLeft>>(e,std::make_index_sequence<F>()); source(u); bigTo<T,CT,F>(u); } big<T,CT,F+1>(); } }
int main(int argc,char** argv) { Kokkos::initialize(argc,argv); { g=vp::Rng(vp::seed()+MINF); for(int k=vp::thorough()?12:1;k--;) ranks<TV,CV,1>();
  big<TV,CV,1>(); if(MINF==1) { fixedDims<TV>(); zero<TV>(); } } Kokkos::finalize(); }
