// Everything in the math, search and text headers for kernels; -DGPUV: the variant for GPUs.
#ifdef GPUV
#include "gpuvariant.hpp"
#endif
#include "vp.hpp"
#include "ekat_math_utils.hpp"
#include "ekat_upper_bound.hpp"
#include "ekat_kokkos_str_utils.hpp"
#include "ekat_pack.hpp"
#include "ekat_kokkos_session.hpp"
#include <limits>
#include <sys/mman.h>
using vp::Rec;
static uint64_t rs=12345; static unsigned rnd(unsigned n){ rs=rs*6364136223846793005ull+1442695040888963407ull; return unsigned((rs>>33)%n); }
static const int NAN_KEY=1000;
// values in increasing order of their keys; equal keys: equal values
template<class T> struct Vals {
  std::vector<T> v; std::vector<int> k;
  Vals(){
    using L=std::numeric_limits<T>;
    if constexpr (std::is_floating_point<T>::value) {
      v={-L::infinity(),L::lowest(),T(-1.5),-L::min(),-L::denorm_min(),T(-0.0),T(0.0),L::denorm_min(),L::min(),T(1)-L::epsilon()/2,T(1),T(1)+L::epsilon(),T(1.5),L::max(),L::infinity(),L::quiet_NaN()};
    } else if constexpr (std::is_signed<T>::value) v={L::min(),T(L::min()+1),T(-1),T(0),T(1),T(2),T(L::max()-1),L::max()};
    else v={T(0),T(1),T(2),T(L::max()/2),T(L::max()/2+1),T(L::max()-1),L::max()};
    int c=0; for(size_t i=0;i<v.size();++i){ if(v[i]!=v[i]){k.push_back(NAN_KEY);continue;} if(i>0&&v[i]!=v[i-1])++c; k.push_back(c); }
  }
};
template<class T> static std::vector<int> pick(const std::vector<int>& ix,const std::vector<int>& k){ std::vector<int> r; for(int i:ix) r.push_back(k[i]); return r; }
template<class T> void order(){
  Vals<T> V; int n=V.v.size(); int num=n; if(V.k.back()==NAN_KEY) --num;
  for(int i=0;i<n;++i) for(int j=0;j<n;++j){
    const T a=V.v[i], b=V.v[j];
    const T& p=ekat::impl::min(a,b); Rec("Order").t("op","min").i("a",V.k[i]).i("b",V.k[j]).i("r",&p==&a?1:&p==&b?2:0).emit();
    const T& q=ekat::impl::max(a,b); Rec("Order").t("op","max").i("a",V.k[i]).i("b",V.k[j]).i("r",&q==&a?1:&q==&b?2:0).emit();
  }
  // searches: all sorted picks of up to 3, seeded longer ones; every value sought
  auto search=[&](const std::vector<int>& ix){
    std::vector<T> a; for(int i:ix) a.push_back(V.v[i]);
    a.reserve(a.size()+1); const T* p=a.data();
    for(int j=0;j<n;++j){ const T* r=ekat::upper_bound(p,p+a.size(),V.v[j]); Rec("Upper").a("a",pick<T>(ix,V.k)).i("v",V.k[j]).i("r",r-p).emit(); }
  };
  search({});
  for(int i=0;i<num;++i){ search({i}); for(int j=i;j<num;j+=1+(num>8)) { search({i,j}); if((i+j)%3==0) for(int k=j;k<num;k+=2) search({i,j,k}); } }
  for(int len=4;len<=40;len+=(len<12?1:7)) for(int rep=0;rep<2;++rep){ std::vector<int> ix; for(int i=0;i<len;++i) ix.push_back(rnd(num)); std::sort(ix.begin(),ix.end()); search(ix); }
  auto mx=[&](const std::vector<int>& ix){
    std::vector<T> a; for(int i:ix) a.push_back(V.v[i]);
    const T* p=a.data(); T dummy{}; if(!p) p=&dummy;
    Rec("MaxElt").a("a",pick<T>(ix,V.k)).i("r",ekat::impl::max_element(p,p+a.size())-p).emit();
  };
  mx({}); for(int i=0;i<num;++i){ mx({i}); for(int j=0;j<num;++j){ mx({i,j}); if(i%3==0) for(int k=0;k<num;k+=2) mx({i,j,k}); } }
  for(int rep=0;rep<40;++rep){ std::vector<int> ix; int len=4+rnd(30), m=1+rnd(num); for(int i=0;i<len;++i) ix.push_back(rnd(m)); mx(ix); }
}
template<class T> void classes(){
  using L=std::numeric_limits<T>; Vals<T> V;
  for(T x:V.v) Rec("Class").t("v",x!=x?"nan":(x==L::infinity()||x==-L::infinity())?"inf":"finite").b("nan",ekat::impl::is_nan(x)).b("fin",ekat::impl::isfinite(x)).emit();
  for(T x:{-L::quiet_NaN(),std::nextafter(L::max(),T(0))}) Rec("Class").t("v",x!=x?"nan":"finite").b("nan",ekat::impl::is_nan(x)).b("fin",ekat::impl::isfinite(x)).emit();
}
template<class T,class I1> void minmax(bool neg){
  for(int a=neg?-7:0;a<=9;++a) for(int b=neg?-7:0;b<=9;++b){
    T x=77,y=77; ekat::impl::set_min_max(T(a),T(b),x,y); Rec("MinMax").i("l0",a).i("l1",b).i("vs",0).i("mn",x).i("mx",y).emit();
    for(int vs:{1,2,3,4,8}){ x=y=77; ekat::impl::set_min_max(T(a),T(b),x,y,I1(vs)); Rec("MinMax").i("l0",a).i("l1",b).i("vs",vs).i("mn",x).i("mx",y).emit(); }
  }
}
template<class T> void reldiff(){
  const bool whole=std::is_integral<T>::value;
  for(int a:{-64,-4,-2,-1,1,2,8,32}) for(int b=-9;b<=70;b+=(b<9?1:7)){ T r=ekat::impl::rel_diff(T(a),T(b)); T s=r*1024; Rec("RelDiff").b("whole",whole).i("a",a).i("b",b).i("r1024",(long long)s==s?(long long)s:-1).emit(); }
}
template<class T> std::string show(T x){ if(x!=x) return "nan"; if constexpr(std::is_floating_point<T>::value) return std::to_string(x); else if constexpr(std::is_signed<T>::value) return std::to_string((long long)x); else return std::to_string((unsigned long long)x); }
template<class T> void invalids(const char* nm){
  std::vector<std::string> g={show<T>(ekat::invalid<T>())};
  auto p=ekat::invalid<ekat::Pack<T,1>>(); auto q=ekat::invalid<ekat::Pack<T,4>>(); auto r=ekat::invalid<ekat::Pack<T,16>>();
  static_assert(std::is_same<decltype(ekat::invalid<T>()),T>::value,""); static_assert(std::is_same<decltype(r),ekat::Pack<T,16>>::value,"");
  g.push_back(show<T>(p[0])); for(int i=0;i<4;++i) g.push_back(show<T>(q[i])); for(int i=0;i<16;++i) g.push_back(show<T>(r[i]));
  std::string s="["; for(size_t i=0;i<g.size();++i) s+=(i?",\"":"\"")+g[i]+"\""; Rec("Invalid").t("type",nm).raw("got",s+"]").emit();
}
template<class T> void trans(int a,int b,int c,bool three){
  using D=ekat::TransposeDirection; const int n=three?a*b*c:a*b; 
  for(int dir=0;dir<2;++dir) for(int rt=0;rt<2;++rt){
    std::vector<T> s(n+1), d(n+3); for(int i=0;i<n;++i) s[i]=T(i+1); s[n]=T(99); for(auto& x:d) x=T(-1);
    if(three){
      if(rt) ekat::transpose(s.data(),d.data(),a,b,c,dir?D::f2c:D::c2f); else if(dir) ekat::transpose<D::f2c>(s.data(),d.data(),a,b,c); else ekat::transpose<D::c2f>(s.data(),d.data(),a,b,c);
    } else {
      if(rt) ekat::transpose(s.data(),d.data(),a,b,dir?D::f2c:D::c2f); else if(dir) ekat::transpose<D::f2c>(s.data(),d.data(),a,b); else ekat::transpose<D::c2f>(s.data(),d.data(),a,b);
    }
    std::vector<long long> S,E; for(int i=0;i<n;++i) S.push_back((long long)s[i]); for(auto x:d) E.push_back((long long)x);
    Rec("Trans").a("n",std::vector<int>{a,b,three?c:1}).t("dir",dir?"f2c":"c2f").a("src",S).a("dst",E).emit();
  }
}
static std::vector<int> bytes(const std::vector<char>& m){ std::vector<int> r; for(char c:m) r.push_back((unsigned char)c); return r; }
static void text(){
  const char al[]={'a','b',char(128),char(255),1};
  std::vector<std::string> ss={""};
  for(size_t lo=0,k=0;k<3;++k){ size_t hi=ss.size(); for(size_t i=lo;i<hi;++i) for(char c:al) if(k<2||(i%3)==0) ss.push_back(ss[i]+c); lo=hi; }
  for(int n:{7,31,32,33,200}) for(char c:al) ss.push_back(std::string(n,'b')+c);
  for(int n:{8,33}) ss.push_back(std::string(n,'b'));
  auto mem=[](const std::string& s){ std::vector<char> m(s.begin(),s.end()); m.push_back(0); m.push_back('a'); m.push_back('b'); return m; };
  for(auto& s:ss){ auto m=mem(s); Rec("Len").a("m",bytes(m)).i("r",(long long)ekat::impl::strlen(m.data())).emit();
    std::vector<char> d(s.size()+6,'#'); auto b=bytes(d); ekat::impl::strcpy(d.data(),m.data()); Rec("Cpy").a("before",b).a("src",bytes(m)).a("after",bytes(d)).emit(); }
  auto cmp=[&](const std::string& x,const std::string& y){ auto p=mem(x),q=mem(y); int r=ekat::impl::strcmp(p.data(),q.data()); Rec("Cmp").a("p",bytes(p)).a("q",bytes(q)).i("r",r<0?-1:r>0?1:0).emit(); };
  for(size_t i=0;i<31&&i<ss.size();++i) for(size_t j=0;j<31;++j) cmp(ss[i],ss[j]);
  for(size_t i=31;i<ss.size();++i) for(int j=0;j<4;++j){ cmp(ss[i],ss[rnd(ss.size())]); cmp(ss[i],ss[i]); }
  for(size_t i=ss.size()-27;i<ss.size();++i) for(size_t j=ss.size()-27;j<ss.size();++j) if(std::abs(int(ss[i].size())-int(ss[j].size()))<=1) cmp(ss[i],ss[j]);
}
static void huge(){
  // zero pages that are only looked at; the search touches a few
  const size_t n=3000000123ull; void* p=mmap(nullptr,n,PROT_READ,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  if(p==MAP_FAILED) return;
  const signed char* a=(const signed char*)p;
  for(int v:{-1,0,1}){ const signed char c=v; long long r=ekat::upper_bound(a,a+n,c)-a; Rec("Huge").i("q",n/1000000000).i("r",n%1000000000).i("byte",0).i("v",v).i("rq",r/1000000000).i("rr",r%1000000000).emit(); }
  munmap(p,n);
}
int main(int,char**){
  order<double>(); order<float>(); order<int>(); order<signed char>(); order<unsigned>(); order<long long>();
  classes<double>(); classes<float>(); classes<long double>();
  minmax<int,int>(true); minmax<long,int>(true); minmax<short,short>(true); minmax<unsigned,unsigned>(false); minmax<int,long>(true);
  reldiff<double>(); reldiff<float>(); reldiff<int>(); reldiff<long>();
  invalids<signed char>("char"); invalids<unsigned char>("uchar"); invalids<short>("short"); invalids<unsigned short>("ushort"); invalids<int>("int"); invalids<unsigned>("uint"); invalids<long>("long"); invalids<unsigned long>("ulong"); invalids<float>("float"); invalids<double>("double");
  for(int a=0;a<=6;++a) for(int b=0;b<=6;++b){ trans<double>(a,b,1,false); if(a<=4&&b<=4) for(int c=0;c<=4;++c){ trans<int>(a,b,c,true); } }
  trans<short>(13,7,1,false); trans<float>(1,30,1,false); trans<long>(5,9,7,true); trans<float>(2,3,8,true);
  text(); huge();
}
