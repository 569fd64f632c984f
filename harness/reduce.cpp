// Reductions by teams: what is added, in which order, and who gets the result.
#include "vp.hpp"
#include <atomic>
#include <limits>
#include "ekat.hpp"
#include "ekat_pack.hpp"
#include "ekat_pack_kokkos.hpp"
#include "ekat_team_policy_utils.hpp"
#include "ekat_reduction_utils.hpp"
using std::string; using std::vector; using vp::Rec; using ekat::Pack;
static vp::Rng g(1);
const int MaxW=44;
struct Word { int n=0; unsigned char v[MaxW]; KOKKOS_INLINE_FUNCTION Word() { for(int k=0;k<MaxW;++k) v[k]=0; } void add(int k) { if(n<MaxW) v[n]=k; ++n; } Word& operator+=(const Word& o) { for(int k=0;k<o.n&&k<MaxW;++k) add(o.v[k]); return *this; } 
  Word(const Word&)=default; Word& operator=(const Word&)=default; void operator+=(const volatile Word& o) volatile { const_cast<Word&>(*this)+=const_cast<const Word&>(o); } };
namespace Kokkos { template<> struct reduction_identity<Word> { KOKKOS_FORCEINLINE_FUNCTION static Word sum() { return Word(); } }; }
using Ex=Kokkos::DefaultExecutionSpace; using Mem=Kokkos::TeamPolicy<Ex>::member_type; using TPF=ekat::TeamPolicyFactory<Ex>;
template<bool S> static Word word(const Mem& t,int b,int e,bool dflt) { auto f=[&](const int& k,Word& w) { w.add(k); }; if(dflt) return ekat::ReductionUtils<Ex>::template parallel_reduce<Word>(t,b,e,f); return ekat::ReductionUtils<Ex,S>::template parallel_reduce<Word>(t,b,e,f); }
template<bool S,class P> static auto red(const Mem& t,int b,int e,const P& p,bool dflt) { if(dflt) return ekat::ReductionUtils<Ex>::view_reduction(t,b,e,p); return ekat::ReductionUtils<Ex,S>::view_reduction(t,b,e,p); }
template<bool S> static void words(int n,int team,int league) { int b=g.below(n+1),e=g.range(b,n); bool dflt=S==ekat::ekatBFB&&g.below(2); vector<Word> r(team*league); auto pol=TPF::get_team_policy_force_team_size(league,team);
  Kokkos::parallel_for(pol,[&](const Mem& t) { Word w=word<S>(t,b,e,dflt); r[t.league_rank()*t.team_size()+t.team_rank()]=w; });
  string s="["; for(size_t k=0;k<r.size();++k) { vector<int> x; for(int q=0;q<r[k].n&&q<MaxW;++q) x.push_back(r[k].v[q]); if(r[k].n>MaxW) x.push_back(-1); s+=(k?",":"")+Rec::arr(x); } Rec("Word").b("serial",S).b("dflt",dflt).i("b",b).i("e",e).i("team",team).i("league",league).raw("w",s+"]"); }
template<class T> struct Sc { using S=T; static const int n=0; static T& at(T& x,int) { return x; } }; template<class T,int N> struct Sc<Pack<T,N>> { using S=T; static const int n=N; static T& at(Pack<T,N>& x,int l) { return x[l]; } };
// len scalars, of which b..e-1 are to be added; the others are NaN or huge
template<class E,bool S> static void view(int len,int b,int e,int team,int league,int form) { using T=typename Sc<E>::S; const int n=std::max(1,Sc<E>::n); int np=(len+n-1)/n; Kokkos::View<E*> v("",np); vector<long> a;
  const bool F=std::is_same<T,float>::value; static const long wild[]={16777216,16777215,-16777216,33554432,1,3,-1,2,7,-33554432,5,16777217,99999,8388607};
  for(int k=0;k<np*n;++k) { long x=F&&S?(long)(float)((len>200?k%512==3:g.below(3)!=0)?wild[g.below(14)]:g.range(-2000,2000)):len>9000?g.range(-5000,5000):g.range(-50000,50000); if(F&&!S) x=len>900?g.range(-99,99):g.range(-9999,9999); bool in=k>=b&&k<e; T y=in?(T)x:std::numeric_limits<T>::has_quiet_NaN?std::numeric_limits<T>::quiet_NaN():(T)1000000; Sc<E>::at(v.data()[k/n],k%n)=y; if(k<len) a.push_back(in?x:0); }
  bool dflt=S==ekat::ekatBFB&&g.below(2); vector<long> r(team*league); vector<std::atomic<int>> hit(np+2); for(auto&h:hit) h=0; auto pol=form&1?TPF::get_team_policy_force_team_size(league,team):TPF::get_team_policy_force_team_size(league,team);
  Kokkos::View<const E*> c(v); Kokkos::View<E*,Kokkos::LayoutRight,Kokkos::MemoryUnmanaged> u(v.data(),np);
  Kokkos::parallel_for(pol,[&](const Mem& t) { auto note=[&](int k) { hit[k<0||k>np?np+1:k]=1; return k<0||k>=np?0:k; }; double x;
    if(form==0) x=red<S>(t,b,e,v,dflt); else if(form==1) x=red<S>(t,b,e,c,dflt); else if(form==2) x=red<S>(t,b,e,[&](int k) { return v(note(k)); },dflt); else if(form==3) x=red<S>(t,b,e,[&](int k)->const E& { return v(note(k)); },dflt); else x=red<S>(t,b,e,u,dflt);
    r[t.league_rank()*t.team_size()+t.team_rank()]=x!=x?-99999999:std::abs(x)>2e9?-99999998:(long)x; });
  vector<int> h; for(size_t k=0;k<hit.size();++k) if(hit[k]) h.push_back(k); Rec("View").b("serial",S).b("dflt",dflt).i("form",form).t("t",F?"f":"x").i("n",n).i("team",team).i("league",league).a("a",a).i("b",b).i("e",e).a("r",r).a("touched",h); }
template<class E> static void views(int maxlen,int reps) { int mt=Ex().concurrency(); 
  // all ranges of a short array, then random ones
  for(int b=0;b<=maxlen;++b) for(int e=b;e<=maxlen;++e) { int t=1+(b+e)%mt; view<E,false>(maxlen,b,e,t,1,(b*3+e)%5); view<E,true>(maxlen,b,e,t,1,(b+e*2)%5); }
  for(int k=0;k<reps;++k) { int len=g.range(1,4*maxlen),b=g.below(len+1),e=g.range(b,len),t=g.range(1,mt); view<E,false>(len,b,e,t,g.range(1,2),g.below(5)); view<E,true>(len,b,e,t,g.range(1,2),g.below(5)); }
  // long ones: counts of entries and of packs beyond 127, 255, ...
  const int n=std::max(1,Sc<E>::n); for(int m:{127,128,129,255,256,257,300,513}) { int len=(m+1)*n; if(len>4200&&m!=300) continue; for(int r=0;r<(vp::thorough()?6:1);++r) { int b=g.below(3)?g.below(2*n+1):g.below(len),e=g.range(std::max(b,len-2*n),len),t=g.range(1,mt); view<E,false>(len,b,e,t,1,g.below(5)); view<E,true>(len,b,e,t,1,g.below(5)); } }
  if(n==1||n==8) { int len=n==1?33001:40000; view<E,false>(len,3,len-1,mt,1,0); view<E,true>(len,3,len-1,mt,1,1); } }
int main(int argc,char** argv) { Kokkos::initialize(argc,argv); { g=vp::Rng(vp::seed()); int K=vp::thorough()?6:1; int mt=Ex().concurrency();
  for(int k=0;k<150*K;++k) { int team=g.range(1,mt); words<true>(g.below(MaxW),team,g.range(1,3)); words<false>(g.below(MaxW),team,g.range(1,3)); }
  views<double>(6,60*K); views<float>(5,60*K); views<Pack<double,1>>(5,40*K); views<Pack<double,2>>(7,60*K); views<Pack<float,4>>(10,80*K); views<Pack<int,4>>(9,40*K); views<Pack<double,8>>(18,60*K); views<Pack<float,16>>(20,60*K); views<int>(5,30*K);
 } Kokkos::finalize(); return 0; }
