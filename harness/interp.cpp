// Linear interpolation: grids and data whose results are exact, all pack lengths, every way to run it.
#include "vp.hpp"
#include <functional>
#include "ekat.hpp"
#include "ekat_pack.hpp"
#include "ekat_lin_interp.hpp"
using std::string; using std::vector; using vp::Rec; using ekat::Pack;
static vp::Rng g(1);
template<class T> static long enc(T v,double q) { double w=(double)v*q; if(!(std::fabs(w)<2e9)) return 999999999; if(q<100&&w!=std::floor(w)) return 999999998; return std::lround(w); }
template<class T,int N> struct Run {
  using LI=ekat::LinInterp<T,N>; using Mem=typename LI::MemberType; using P=Pack<T,N>; using TPF=ekat::TeamPolicyFactory<typename LI::ExeSpace>;
  int ncol,k1,k2,L1,L2; LI li; Kokkos::View<P**> x1,x2,y1,y2;
  // one more column and one more pack than needed, to see what is written beyond
  Run(int nc,int a,int b): ncol(nc),k1(a),k2(b),L1((a+N-1)/N*N),L2((b+N-1)/N*N),li(nc,a,b),x1("x1",nc+1,L1/N+1),x2("x2",nc+1,L2/N+1),y1("y1",nc+1,L1/N+1),y2("y2",nc+1,L2/N+1) {
    Rec("New").i("n",N).t("t",sizeof(T)==4?"f":"d").i("ncol",ncol).i("km1",k1).i("km2",k2).i("p1",li.km1_pack()).i("p2",li.km2_pack()).i("league",li.policy().league_size()); }
  static T& at(const Kokkos::View<P**>& v,int i,int k) { return v(i,k/N)[k%N]; }
  static T junk() { switch(g.below(5)) { case 0: return std::numeric_limits<T>::quiet_NaN(); case 1: return (T)1e30; case 2: return (T)-1e30; case 3: return 0; default: return (T)g.range(-9,9); } }
  void fill(const Kokkos::View<P**>& v,int i,const vector<long>& w) { for(int k=0;k<(int)v.extent(1)*N;++k) at(v,i,k)=k<(int)w.size()?(T)(w[k]/4.0):junk(); }
  vector<vector<long>> X1,X2,Y1;
  void grids(const vector<int>& cols,int kind) { X1.resize(ncol); X2.resize(ncol); Y1.resize(ncol); for(int i:cols) { auto& a=X1[i]; auto& b=X2[i]; a.clear(); b.clear(); long s=g.range(-60,20); for(int k=0;k<k1;++k) { a.push_back(s); s+=kind==1?4:g.range(1,g.below(3)?6:14); }
      // targets: some on the source points, some before and after
      vector<long> c; if(g.below(4)) { for(int k=0;k<k2;++k) c.push_back(g.below(3)?g.range(a[0]-9,a.back()+9):a[g.below(k1)]); std::sort(c.begin(),c.end()); long p=-1000000; for(auto& q:c) { if(q<=p) q=p+1; p=q; } }
      else { long q=g.below(2)?a[0]-g.below(5)-(long)g.below(2)*2*k2:a.back()-(long)g.below(3); for(int k=0;k<k2;++k) { c.push_back(q); q+=g.range(1,4); } }
      b=c; fill(x1,i,a); fill(x2,i,b); } }
  void data(int i,bool exact) { auto& y=Y1[i]; y.clear(); long s=g.range(-100,100); int lin=g.below(4),m=g.range(-3,3); for(int k=0;k<k1;++k) { y.push_back(s); if(k+1<k1) s=exact?s+(X1[i][k+1]-X1[i][k])*(lin?g.range(-3,3):m):g.range(-200,200); } fill(y1,i,y); }
  void go(int mode,const std::function<void(const Mem&,int,int,int)>& f) { int mt=typename LI::ExeSpace().concurrency();
    auto one=[&](const Mem& t) { f(t,0,t.league_rank(),-1); };
    if(mode==0) Kokkos::parallel_for(li.policy(),one);
    else if(mode==1) Kokkos::parallel_for(TPF::get_team_policy_force_team_size(ncol,g.range(1,mt)),one);
    else if(mode==2) Kokkos::parallel_for(TPF::get_team_policy_force_team_size(ncol,g.range(1,mt)),[&](const Mem& t) { int c=ncol-1-t.league_rank(); f(t,0,c,c); });
    else if(mode==3) Kokkos::parallel_for(TPF::get_team_policy_force_team_size(1,g.range(1,mt)),[&](const Mem& t) { Kokkos::parallel_for(Kokkos::TeamThreadRange(t,ncol),[&](int c) { f(t,1,c,c); }); });
    else if(mode==4) Kokkos::parallel_for(TPF::get_team_policy_force_team_size(1,g.range(1,mt)),[&](const Mem& t) { for(int c=0;c<ncol;++c) f(t,0,c,c); });
    else Kokkos::parallel_for(TPF::get_team_policy_force_team_size(ncol,g.range(1,mt)),[&](const Mem& t) { f(t,2,t.league_rank(),-1); });
    Kokkos::fence(); }
  // the columns of the views as packs, other packs, or scalars; const or not
  using PV=Kokkos::View<P*,Kokkos::LayoutRight,Kokkos::MemoryUnmanaged>;
  static PV pk(const PV& v) { return v; }
  static Kokkos::View<const P*,Kokkos::LayoutRight,Kokkos::MemoryUnmanaged> cp(const PV& v) { return v; }
  static Kokkos::View<T*,Kokkos::MemoryUnmanaged> sc(const PV& v) { return Kokkos::View<T*,Kokkos::MemoryUnmanaged>((T*)v.data(),v.extent(0)*N); }
  static Kokkos::View<const T*,Kokkos::MemoryUnmanaged> cs(const PV& v) { return Kokkos::View<const T*,Kokkos::MemoryUnmanaged>((const T*)v.data(),v.extent(0)*N); }
  static auto hf(const PV& v) { constexpr int M=N>1?N/2:1; return Kokkos::View<Pack<T,M>*,Kokkos::MemoryUnmanaged>((Pack<T,M>*)v.data(),v.extent(0)*N/M); }
  template<class F> static void as2(int form,const PV& a,const PV& b,F f) { switch(form) { case 0: f(pk(a),cs(b)); break; case 1: f(cp(a),sc(b)); break; case 2: f(sc(a),hf(b)); break; case 3: f(cs(a),cp(b)); break; default: f(hf(a),pk(b)); } }
  template<class F> static void as4(int form,const PV& a,const PV& b,const PV& c,const PV& d,F f) { switch(form) { case 0: f(pk(a),cp(b),cs(c),pk(d)); break; case 1: f(cp(a),sc(b),pk(c),hf(d)); break; case 2: f(sc(a),cs(b),hf(c),sc(d)); break; case 3: f(cs(a),hf(b),cp(c),pk(d)); break; default: f(hf(a),pk(b),sc(c),sc(d)); } }
  auto col(const Kokkos::View<P**>& v,int c,int len) const { return Kokkos::View<P*,Kokkos::LayoutRight,Kokkos::MemoryUnmanaged>(&v(c,0),len/N); }
  void setup(int mode,const vector<bool>& on) { int form=g.below(5); const LI q=li; go(mode,[&](const Mem& t,int rng,int c,int a) { if(!on[c]) return; as2(form,col(x1,c,L1),col(x2,c,L2),[&](auto u,auto w) {
      if(rng==0) { if(a<0) q.setup(t,u,w); else q.setup(t,u,w,a); } else if(rng==1) q.setup(t,Kokkos::ThreadVectorRange(t,q.km2_pack()),u,w,a); else q.setup(t,Kokkos::TeamVectorRange(t,q.km2_pack()),u,w); }); });
    for(int c=0;c<ncol;++c) if(on[c]) Rec("Setup").i("col",c).a("x1",X1[c]).a("x2",X2[c]); }
  void interp(int mode,const vector<bool>& on,bool exact) { int form=g.below(5); for(int c=0;c<ncol;++c) if(on[c]) data(c,exact); for(int c=0;c<=ncol;++c) for(int k=0;k<(int)y2.extent(1)*N;++k) at(y2,c,k)=(T)-77;
    go(mode,[&](const Mem& t,int rng,int c,int a) { if(!on[c]) return; as4(form,col(x1,c,L1),col(x2,c,L2),col(y1,c,L1),col(y2,c,L2),[&](auto u,auto w,auto d,auto r) {
      if(rng==0) { if(a<0) li.lin_interp(t,u,w,d,r); else li.lin_interp(t,u,w,d,r,a); } else if(rng==1) li.lin_interp(t,Kokkos::ThreadVectorRange(t,li.km2_pack()),u,w,d,r,a); else li.lin_interp(t,Kokkos::TeamVectorRange(t,li.km2_pack()),u,w,d,r); }); });
    bool ok=true; for(int c=0;c<=ncol;++c) for(int k=0;k<(int)y2.extent(1)*N;++k) if(c==ncol||!on[c]||k>=L2) ok=ok&&at(y2,c,k)==(T)-77;
    for(int c=0;c<ncol;++c) if(on[c]) { vector<long> r; for(int k=0;k<k2;++k) r.push_back(enc(at(y2,c,k),exact?4:1024)); 
      for(int k=0;k<k1;++k) ok=ok&&at(x1,c,k)==(T)(X1[c][k]/4.0)&&at(y1,c,k)==(T)(Y1[c][k]/4.0); for(int k=0;k<k2;++k) ok=ok&&at(x2,c,k)==(T)(X2[c][k]/4.0);
      Rec("Interp").i("col",c).i("q",exact?1:256).a("y1",Y1[c]).a("y2",r).b("ok",ok); } }
  void random() { vector<bool> all(ncol,true); vector<int> cols; for(int c=0;c<ncol;++c) cols.push_back(c); grids(cols,0); setup(g.below(6),all); int m=g.below(6); interp(m,all,true); interp(g.below(6),all,false);
    // some columns get another grid, the others keep theirs
    vector<bool> some(ncol); cols.clear(); for(int c=0;c<ncol;++c) { some[c]=g.below(2); if(some[c]) cols.push_back(c); } grids(cols,0); setup(g.below(6),some); interp(g.below(6),all,true); interp(g.below(6),some,true);
    // setup and use in the same kernel
    for(int c=0;c<ncol;++c) { cols.push_back(c); } grids(cols,0); for(int c=0;c<ncol;++c) data(c,true); for(int c=0;c<=ncol;++c) for(int k=0;k<(int)y2.extent(1)*N;++k) at(y2,c,k)=(T)-77;
    go(g.below(6),[&](const Mem& t,int rng,int c,int a) { auto u=col(x1,c,L1); auto w=col(x2,c,L2); auto d=col(y1,c,L1); auto r=col(y2,c,L2);
      if(rng==1) { li.setup(t,Kokkos::ThreadVectorRange(t,li.km2_pack()),u,w,a); li.lin_interp(t,Kokkos::ThreadVectorRange(t,li.km2_pack()),u,w,d,r,a); } else { li.setup(t,u,w,a); t.team_barrier(); li.lin_interp(t,u,w,d,r,a); } });
    for(int c=0;c<ncol;++c) { Rec("Setup").i("col",c).a("x1",X1[c]).a("x2",X2[c]); vector<long> r; for(int k=0;k<k2;++k) r.push_back(enc(at(y2,c,k),4)); Rec("Interp").i("col",c).i("q",1).a("y1",Y1[c]).a("y2",r).b("ok",true); } }
  // numbers of any size, targets on source points
  static string hx(T v) { char b[64]; snprintf(b,sizeof b,"%a",(double)v); return b; }
  static T any() { return (T)std::ldexp((double)(g.next()>>11)/9007199254740992.0-0.5,g.range(-18,18)); }
  void hits() { vector<T> a,b,y; for(int k=0;k<k1;++k) { a.push_back(any()); y.push_back(any()); } std::sort(a.begin(),a.end()); for(int k=0;k<k1;++k) for(int j=0;j<k;++j) if(a[j]==a[k]) return; for(int k=0;k<k2;++k) b.push_back(g.below(3)?a[g.below(k1)]:any());
    int c=ncol-1; for(int k=0;k<L1;++k) { at(x1,c,k)=k<k1?a[k]:junk(); at(y1,c,k)=k<k1?y[k]:junk(); } for(int k=0;k<L2;++k) at(x2,c,k)=k<k2?b[k]:junk();
    go(4,[&](const Mem& t,int,int q,int) { if(q!=c) return; li.setup(t,col(x1,c,L1),col(x2,c,L2),c); t.team_barrier(); li.lin_interp(t,col(x1,c,L1),col(x2,c,L2),col(y1,c,L1),col(y2,c,L2),c); });
    vector<string> A,B,Y,R; for(int k=0;k<k1;++k) { A.push_back(hx(a[k])); Y.push_back(hx(y[k])); } for(int k=0;k<k2;++k) { B.push_back(hx(b[k])); R.push_back(hx(at(y2,c,k))); } Rec("Hits").sa("x1",A).sa("x2",B).sa("y1",Y).sa("y2",R); }
  // every grid within 0..w, every target from -1 to w+1 in halves
  void every(int w) { for(int bits=0;bits<(1<<(w+1));++bits) if(__builtin_popcount(bits)==k1) { X1.assign(ncol,{}); X2=X1; Y1=X1; for(int k=0;k<=w;++k) if(bits>>k&1) X1[0].push_back(4*k); for(int q=0;q<k2;++q) X2[0].push_back(-4+2*q); 
      fill(x1,0,X1[0]); fill(x2,0,X2[0]); setup(0,{true}); interp(0,{true},true); } }
};
template<class T,int N> static void all() { const int w=vp::thorough()?7:5; for(int k1=2;k1<=w+1;++k1) { Run<T,N> r(1,k1,2*w+5); r.every(w); }
  int K=vp::thorough()?60:9; for(int k=0;k<K;++k) { int nc=g.range(1,4),a=g.below(3)?g.range(2,2*N+3):g.range(2,40),b=g.below(3)?g.range(1,2*N+3):g.range(1,40); Run<T,N> r(nc,a,b); r.random(); r.hits(); }
  // long columns, many columns
  for(int k=0;k<(vp::thorough()?12:1);++k) { int a=g.pick(vector<int>{129,130,200,257,300}),b=g.pick(vector<int>{3,129,260,300}); Run<T,N> r(g.range(1,2),a,b); r.random(); if(k) r.hits(); Run<T,N> q(1,g.range(2,5),g.pick(vector<int>{129,257,300})); q.random(); Run<T,N> w(g.pick(vector<int>{130,260}),2,3); w.random(); } }
int main(int argc,char** argv) { Kokkos::initialize(argc,argv); { g=vp::Rng(vp::seed()+PART);
#if PART==0
  all<double,1>(); all<double,4>(); all<float,2>();
#elif PART==1
  all<double,2>(); all<float,8>(); all<float,1>();
#else
  all<double,8>(); all<double,16>(); all<float,4>(); all<float,16>();
#endif
 } Kokkos::finalize(); return 0; }
