// Histories of transfers between host arrays and device views, and of transpositions.
#include "vp.hpp"
#include <limits>
#include "ekat_pack_kokkos.hpp"
#include "ekat_math_utils.hpp"
using std::string; using std::vector; using vp::Rec; using ekat::Pack; using Dir=ekat::TransposeDirection;
static vp::Rng g(1);
const long INV=99999999;
static long en(double x) { return std::isnan(x)?INV:(long)x; } static long en(float x) { return en((double)x); } static long en(int x) { return x==2147483647?INV:x; } static long en(bool x) { return *(unsigned char*)&x; }
template<class T> struct El { static const int n=0; using S=T; static S& lane(T& x,int) { return x; } };
template<class T,int N> struct El<Pack<T,N>> { static const int n=N; using S=T; static S& lane(Pack<T,N>& x,int l) { return x[l]; } };
template<class T,int r> struct Ptr; template<class T> struct Ptr<T,1> { using t=T*; }; template<class T> struct Ptr<T,2> { using t=T**; }; template<class T> struct Ptr<T,3> { using t=T***; };
const int K=3;
template<class E,int r,class L,bool Big=false> struct M { using S=typename El<E>::S; static const int n=El<E>::n, w=n?n:1; using V=Kokkos::View<typename Ptr<E,r>::t,L,Kokkos::HostSpace>; using CV=Kokkos::View<typename Ptr<const E,r>::t,L,Kokkos::HostSpace>;
  static const int Mx=Big?(r==1?300:r==2?90:22):w>=8?2*w+1:3*w+2, Cap=(r==3?16:r==2?4:1)*Mx+4; S h[K][Cap]; vector<V> v; vector<vector<int>> vd; int cur=0;
  vector<const S*> in(int c) { vector<const S*> p; for(int k=0;k<c;++k) p.push_back(h[k]); return p; } vector<S*> outp(int c) { vector<S*> p; for(int k=0;k<c;++k) p.push_back(h[k]); return p; }
  vector<int> rd(int mx) { vector<int> d; for(int k=0;k<r;++k) d.push_back(k==r-1?(Big&&g.below(3)?g.range(mx-5,mx):g.range(1,mx)):Big&&g.below(2)?4:g.range(1,4)); return d; }
  S rnd() { if(std::is_same<S,bool>::value) return g.below(2); return (S)g.range(-500,500); }
  V mk(const vector<int>& d) { int p=(d[r-1]+w-1)/w; if constexpr(r==1) return V("",p); else if constexpr(r==2) return V("",d[0],p); else return V("",d[0],d[1],p); }
  vector<long> mem(int k) { vector<long> o; V& x=v[k]; int e[3]={1,1,1}; for(int q=0;q<r;++q) e[3-r+q]=x.extent(q); for(int a=0;a<e[0];++a) for(int b=0;b<e[1];++b) for(int c=0;c<e[2];++c) { E* p; if constexpr(r==1) p=&x(c); else if constexpr(r==2) p=&x(b,c); else p=&x(a,b,c); for(int l=0;l<w;++l) o.push_back(en(El<E>::lane(*p,l))); } return o; }
  void rec(Rec& R) { string s="[",t="["; for(int k=0;k<K;++k) { vector<long> a; for(int i=0;i<Cap;++i) a.push_back(en(h[k][i])); s+=(k?",":"")+Rec::arr(a); t+=(k?",":"")+string("{\"dims\":")+Rec::arr(vd[k])+",\"n\":"+std::to_string(w)+",\"mem\":"+Rec::arr(mem(k))+"}"; } R.raw("h",s+"]").raw("v",t+"]"); }
  static string ds(const vector<vector<int>>& d) { string s="["; for(size_t k=0;k<d.size();++k) s+=(k?",":"")+Rec::arr(d[k]); return s+"]"; }
  void fill() { for(auto& a:h) for(auto& x:a) x=rnd(); }
  template<class D,class W,class... A> static void h2d(const D& p,const vector<vector<int>>& d,bool uni,W& w,A... a) { if(uni) { if constexpr(r==1) ekat::host_to_device(p,(size_t)d[0][0],w); else if constexpr(r==2) ekat::host_to_device(p,(size_t)d[0][0],(size_t)d[0][1],w,a...); else ekat::host_to_device(p,(size_t)d[0][0],(size_t)d[0][1],(size_t)d[0][2],w,a...); return; }
    vector<int> s[3]; vector<size_t> z; for(auto&x:d) { for(int q=0;q<r;++q) s[q].push_back(x[q]); z.push_back(x[0]); } if constexpr(r==1) ekat::host_to_device(p,z,w); else if constexpr(r==2) ekat::host_to_device(p,s[0],s[1],w,a...); else ekat::host_to_device(p,s[0],s[1],s[2],w,a...); }
  template<class D,class W,class... A> static void d2h(const D& p,const vector<vector<int>>& d,bool uni,const W& w,A... a) { if(uni) { if constexpr(r==1) ekat::device_to_host(p,(size_t)d[0][0],w); else if constexpr(r==2) ekat::device_to_host(p,(size_t)d[0][0],(size_t)d[0][1],w,a...); else ekat::device_to_host(p,(size_t)d[0][0],(size_t)d[0][1],(size_t)d[0][2],w,a...); return; }
    vector<int> s[3]; vector<size_t> z; for(auto&x:d) { for(int q=0;q<r;++q) s[q].push_back(x[q]); z.push_back(x[0]); } if constexpr(r==1) ekat::device_to_host(p,z,w); else if constexpr(r==2) ekat::device_to_host(p,s[0],s[1],w,a...); else ekat::device_to_host(p,s[0],s[1],s[2],w,a...); }
  // c arrays with (w is a vector of) c views; t<0: transposition not mentioned; dir<0: direction not mentioned
  template<bool to,class P,class W> void call(const P& p,const vector<vector<int>>& d,bool uni,W& w,int t,int dir) { Dir::Enum e=dir?Dir::f2c:Dir::c2f; auto go=[&](auto... a) { if constexpr(to) h2d(p,d,uni,w,a...); else d2h(p,d,uni,w,a...); }; if(t<0) go(); else if(dir<0) go((bool)t); else go((bool)t,e); }
  void step() { int o=g.below(10); int c=g.range(1,K),t=r==1?-1:g.range(-1,1),dir=t<0?-1:g.range(-1,1); vector<vector<int>> d; bool uni=false; vector<V> w(v.begin(),v.begin()+c);
    auto info=[&](Rec& R,bool to) { R.i("c",c).raw("dims",ds(d)).b("t",t==1).t("dir",dir<0?(to?"f2c":"c2f"):dir?"f2c":"c2f").b("uni",uni); };
    if(o==0) { fill(); Rec R("Fill"); rec(R); }
    else if(o<4) { bool pre=g.below(2); for(int k=0;k<c;++k) d.push_back(pre?vd[k]:rd(Mx)); if(!pre&&g.below(2)) { uni=true; for(auto&x:d) x=d[0]; } if(pre) { uni=true; for(auto&x:d) uni=uni&&x==d[0]; }
      if(pre) { const vector<V> cw(w); call<true>(in(c),d,uni,cw,t,dir); } else { call<true>(in(c),d,uni,w,t,dir); for(int k=0;k<c;++k) v[k]=w[k],vd[k]=d[k]; } Rec R("H2D"); R.t("mode",pre?"pre":"new"); info(R,true); rec(R); }
    else if(o<7) { for(int k=0;k<c;++k) { d.push_back(vd[k]); if(g.below(3)==0) for(int q=0;q<r;++q) d[k][q]=g.range(1,vd[k][q]); } if(g.below(2)) { uni=true; for(int k=1;k<c;++k) for(int q=0;q<r;++q) d[0][q]=std::min(d[0][q],vd[k][q]); for(auto&x:d) x=d[0]; }
      if(g.below(3)==0) { if constexpr(El<E>::n>0) { vector<CV> cw(w.begin(),w.end()); call<false>(outp(c),d,uni,cw,t,dir); } else call<false>(outp(c),d,uni,w,t,dir); } else call<false>(outp(c),d,uni,w,t,dir); Rec R("D2H"); info(R,false); rec(R); }
    else if(o<9) { if constexpr(r>1) { auto x=rd(Mx); int a=g.below(K),b=(a+1+g.below(K-1))%K; bool f=g.below(2),rt=g.below(2); auto e=f?Dir::f2c:Dir::c2f; if constexpr(r==2) { if(rt) ekat::transpose(h[a],h[b],x[0],x[1],e); else if(f) ekat::transpose<Dir::f2c>(h[a],h[b],x[0],x[1]); else ekat::transpose<Dir::c2f>(h[a],h[b],x[0],x[1]); } else { if(rt) ekat::transpose(h[a],h[b],x[0],x[1],x[2],e); else if(f) ekat::transpose<Dir::f2c>(h[a],h[b],x[0],x[1],x[2]); else ekat::transpose<Dir::c2f>(h[a],h[b],x[0],x[1],x[2]); }
        Rec R("Trans"); R.i("from",a+1).i("to",b+1).a("dims",x).t("dir",f?"f2c":"c2f"); rec(R); } }
    else { bool threw=false; int kind=g.below(3); for(int k=0;k<K;++k) d.push_back(vd[k]); vector<V> all(v); string what; try { const vector<V> ca(all);
        if(kind==0) { what="sizes"; d.pop_back(); if(g.below(2)) call<true>(in(K),d,false,ca,t,dir); else call<false>(outp(K),d,false,ca,t,dir); }
        else if(kind==1) { what="views"; const vector<V> few(v.begin(),v.begin()+K-1); if(g.below(2)) call<true>(in(K),d,false,few,t,dir); else call<false>(outp(K),d,false,few,t,dir); }
        else { what="extent"; int q=g.below(r); d[0][q]+=q==r-1?w_():1; call<true>(in(K),d,false,ca,t,dir); } } catch(std::exception&) { threw=true; } Rec R("Bad"); R.t("what",what).b("threw",threw); rec(R); } }
  static int w_() { return w; } void done() { v.clear(); }
  void history(int len) { fill(); v.clear(); vd.clear(); for(int k=0;k<K;++k) { auto d=rd(Mx); vd.push_back(d); v.push_back(mk(d)); V& x=v[k]; E* p=x.data(); for(size_t i=0;i<x.size();++i) for(int l=0;l<w;++l) El<E>::lane(p[i],l)=rnd(); } { Rec R("New"); R.i("rank",r).i("pack",n); rec(R); } for(int k=0;k<len;++k) step(); } };
template<class E,class L=Kokkos::LayoutRight> static void all(int reps) { for(int k=0;k<reps;++k) { { static M<E,1,L> m; m.history(10); m.done(); } { static M<E,2,L> m; m.history(14); m.done(); } { static M<E,3,L> m; m.history(12); m.done(); } } }
template<class E,class L=Kokkos::LayoutRight> static void big() { for(int k=0;k<(vp::thorough()?6:1);++k) { { static M<E,1,L,true> m; m.history(8); m.done(); } { static M<E,2,L,true> m; m.history(8); m.done(); } { static M<E,3,L,true> m; m.history(8); m.done(); } } }
int main(int argc,char** argv) { Kokkos::initialize(argc,argv); { g=vp::Rng(vp::seed()); int N=vp::thorough()?40:7;
#if PART==1
  all<double>(N); all<bool>(N); all<int,Kokkos::LayoutLeft>(N); all<Pack<double,1>>(N); big<int>();
#elif PART==2
  all<Pack<double,2>>(N); all<Pack<float,4>>(N); all<Pack<int,8>>(N); big<Pack<double,2>>();
#else
  all<Pack<double,8>>(N); all<Pack<double,4>,Kokkos::LayoutLeft>(N); all<Pack<int,16>>(N); big<Pack<double,4>>();
#endif
 } Kokkos::finalize(); return 0; }
