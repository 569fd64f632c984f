// A machine with a few packs of different types and two masks, shared by the pack drivers.
#ifndef PACKREG_HPP
#define PACKREG_HPP
#include "vp.hpp"
#include "ekat_pack.hpp"
using std::string; using std::vector; using vp::Rec;
using ekat::Pack; using ekat::Mask;
static vp::Rng g(1);
const long NANV=99999999;
template<class T> static long enc(const T& x) { if constexpr(std::is_floating_point<T>::value) { if(std::isnan(x)) return NANV; double v=(double)x*16; if(!(std::fabs(v)<5e7)||v!=std::floor(v)) return NANV+1; return (long)v; } else { return std::labs((long)x)<3000000?(long)x*16:NANV+1; } }
template<class T> struct Ty; template<> struct Ty<int> { static string s() { return "i"; } }; template<> struct Ty<float> { static string s() { return "f"; } }; template<> struct Ty<double> { static string s() { return "d"; } };
template<class T> struct Ty<const T>:Ty<T> {};
template<class P> static vector<long> lanes(const P& p) { vector<long> v; for(int i=0;i<(int)P::n;++i) v.push_back(enc(p[i])); return v; }
template<int n> static string bools(const Mask<n>& m) { string s="["; for(int i=0;i<n;++i) s+=string(i?",":"")+(m[i]?"true":"false"); return s+"]"; }
static const char* name(int k) { static const char* s[]={"d0","d1","f0","f1","i0","i1"}; return s[k]; }
static string opnd(int k) { return string("{\"k\":\"p\",\"t\":\"")+name(k)[0]+"\",\"r\":\""+name(k)+"\"}"; }
template<class S> static string scal(const S& s) { return "{\"k\":\"s\",\"t\":\""+Ty<S>::s()+"\",\"v\":"+std::to_string(enc(s))+"}"; }
static double val(bool isint,bool nan) { if(!isint&&nan&&g.below(8)==0) return NAN; int k=g.range(-160,160); return isint?k/8:k/4.0; }
static double divisor(bool isint,bool both) { if(isint&&both) { int k=g.range(1,9); return g.below(2)?k:-k; } static const double t[]={1,2,4,-1,-2,-4,0.5,-0.5}; return t[g.below(isint?6:8)]; }
template<int n> struct Regs {
  Pack<double,n> d0,d1; Pack<float,n> f0,f1; Pack<int,n> i0,i1; Mask<n> m[2];
  template<class F> void on(int k,F f) { switch(k) { case 0: f(d0); break; case 1: f(d1); break; case 2: f(f0); break; case 3: f(f1); break; case 4: f(i0); break; default: f(i1); } }
  string all() { string s="{"; for(int k=0;k<6;++k) on(k,[&](auto& p) { s+=string(k?",":"")+"\""+name(k)+"\":"+Rec::arr(lanes(p)); }); return s+"}"; }
  string masks() { return "{\"m0\":"+bools(m[0])+",\"m1\":"+bools(m[1])+"}"; }
  // reload register k unless all lanes are small multiples of 1/4 (and NaN is allowed if there is one)
  void fit(int k,bool nan,int dv=0) { bool bad=dv; on(k,[&](auto& p) { for(int i=0;i<n;++i) { long e=enc(p[i]); if(e==NANV?!nan:(std::labs(e)>64*16||e%4)) bad=true; }
    if(bad) { for(int i=0;i<n;++i) p[i]=dv?divisor(k>3,dv==2):val(k>3,nan); Rec("Load").t("r",name(k)).a("v",lanes(p)); } }); }
  void load(int k,bool nan) { on(k,[&](auto& p) { for(int i=0;i<n;++i) p[i]=val(k>3,nan); Rec("Load").t("r",name(k)).a("v",lanes(p)); }); }
  void loadm(int j,long bits=-1) { int kind=g.below(4); for(int i=0;i<n;++i) m[j].set(i,bits>=0?(bits>>i)&1:kind==0?false:kind==1?true:g.below(2)); Rec("LoadM").t("r",j?"m1":"m0").raw("v",bools(m[j])); }
  void begin() { for(int k=0;k<6;++k) on(k,[&](auto& p) { for(int i=0;i<n;++i) p[i]=val(k>3,false); }); for(int j=0;j<2;++j) for(int i=0;i<n;++i) m[j].set(i,g.below(2)); Rec("New").i("n",n).raw("regs",all()).raw("masks",masks()); }
  void state() { Rec("State").raw("regs",all()).raw("masks",masks()); }
};
template<class F> static void scalar(bool div,bool both,F f) { int k=g.below(3); double v=div?divisor(k==0,both):val(k==0,false); if(k==0) f((int)v); else if(k==1) f((float)v); else f(v); }
#endif
