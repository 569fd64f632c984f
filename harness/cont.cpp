// Zipped iteration, map key iterators and container helpers.
#include "vp.hpp"
#include <tuple>
#include <utility>
#include <list>
#include <deque>
#include <set>
#include <array>
#include <map>
#include <memory>
#include <optional>
#include "ekat_zip.hpp"
#include "ekat_std_map_key_iterator.hpp"
#include "ekat_std_utils.hpp"
using std::string; using std::vector; using vp::Rec;
static vp::Rng g(1);
static void fresh() { Rec("New").i("n",0); }
template<class C> static vector<long> seq(const C& c) { vector<long> r; for(const auto& x:c) r.push_back((long)x); return r; }
template<class... C> static string all(const C&... c) { string r="["; bool f=true; ((r+=string(f?"":",")+Rec::arr(seq(c)),f=false),...); return r+"]"; }
static string rows(const vector<vector<long>>& v) { string r="["; bool f=true; for(auto&x:v) { r+=(f?"":",")+Rec::arr(x); f=false; } return r+"]"; }
// fill: n random values
template<class C> static C mk(int n) { C c; for(int i=0;i<n;++i) c.insert(c.end(),g.below(9)); return c; }
template<> vector<bool> mk<vector<bool>>(int n) { vector<bool> c; for(int i=0;i<n;++i) c.push_back(g.below(2)); return c; }
template<class T> static void put(T&& x,long v) { x=v; }
template<class Tup> static vector<long> look(const Tup& t) { return std::apply([](auto&&... x){ return vector<long>{(long)x...}; },t); }
template<class... C> static void read(C&... c) {
  string cs=all(c...);
  for(int how=0;how<4;++how) {
    Rec r("Zip"); r.i("how",how).raw("cs",cs); vector<vector<long>> out; bool err=false;
    try {
      if(how==0) { for(auto t:ekat::zip(c...)) out.push_back(look(t)); }
      else if(how==1) { const auto z=ekat::zip(c...); for(auto i=z.cbegin();i!=z.cend();++i) out.push_back(look(*i)); }
      else if(how==2) { auto z=ekat::zip(c...); auto e=z.end(); for(auto i=z.begin();i!=e;) { auto t=*i; out.push_back(look(t)); auto& j=++i; if(&j!=&i) out.push_back({}); } }
      else { auto z=ekat::zip(std::as_const(c)...); for(auto&& t:z) out.push_back(look(t)); }
    } catch(const std::exception&) { err=true; }
    r.b("err",err).raw("out",rows(out)).raw("after",all(c...)); } }
template<class... C> static void write(C&... c) {
  Rec r("ZipWrite"); r.raw("cs",all(c...)); vector<vector<long>> seen,put; bool err=false; const bool rng=g.below(2);
  auto one=[&](auto&& t) { seen.push_back(look(t)); vector<long> w; std::apply([&](auto&&... x){ ((w.push_back(sizeof(x)&&std::is_same_v<std::decay_t<decltype(x)>,vector<bool>::reference>?g.below(2):g.below(90)),x=w.back()),...); },t); put.push_back(w); };
  try { if(rng) for(auto&& t:ekat::zip(c...)) one(t); else { auto z=ekat::zip(c...); for(auto i=z.begin();i!=z.end();++i) one(*i); } } catch(const std::exception&) { err=true; }
  r.raw("seen",rows(seen)).raw("put",rows(put)).b("err",err).raw("after",all(c...)); }
template<class M> using KI=ekat::map_key_iterator<M>; template<class M> using KC=ekat::map_key_const_iterator<M>;
static const long End=1000000;
// the key at an iterator: compare with those of the map itself, through the public interface only
template<class I,class M> static long at(M& m,I i,I e) { return i==e?End:(long)*i; }
template<class I,class M,class MI> static void keys(M m,int steps,const char* kind) {
  fresh(); { vector<long> k; for(auto&p:m) k.push_back(p.first); vector<long> w; I e(MI(m.end())); for(I i{MI(m.begin())};i!=e;++i) w.push_back(*i); Rec("Map").t("kind",kind).a("keys",k).a("walk",w); }
  I e{MI(m.end())}; std::optional<I> it[2]; it[0].emplace(MI(m.begin())); it[1].emplace(e);
  auto here=[&](int i) { return at(m,*it[i],e); };
  for(int s=0;s<steps;++s) { int i=g.below(2); long h=here(i);
    switch(g.below(9)) {
      case 0: { long k=g.below(12); m.emplace(k,typename M::mapped_type()); Rec("Ins").i("k",k); break; }
      case 1: { long k=g.below(12); if(k==here(0)||k==here(1)) break; m.erase(k); Rec("Del").i("k",k); break; }
      case 2: { int w=g.below(3); if(w==0) it[i].emplace(MI(m.begin())); else if(w==1) it[i].emplace(MI(m.end())); else *it[i]=*it[1-i]; Rec("At").i("i",i+1).t("k",w==0?"begin":w==1?"end":"other"); break; }
      case 3: if(h!=End) { auto& r=++*it[i]; Rec("Inc").i("i",i+1).b("post",false).i("r",&r==&*it[i]?at(m,r,e):-5); } break;
      case 4: if(h!=End) { auto r=(*it[i])++; Rec("Inc").i("i",i+1).b("post",true).i("r",at(m,r,e)); } break;
      case 5: if(!m.empty()&&h!=m.begin()->first) { auto& r=--*it[i]; Rec("Dec").i("i",i+1).b("post",false).i("r",&r==&*it[i]?at(m,r,e):-5); } break;
      case 6: if(!m.empty()&&h!=m.begin()->first) { auto r=(*it[i])--; Rec("Dec").i("i",i+1).b("post",true).i("r",at(m,r,e)); } break;
      case 7: if(h!=End) { Rec("Deref").i("i",i+1).i("r",**it[i]).i("arrow",*it[i]->operator->()); } break;
      default: Rec("Cmp").b("eq",*it[0]==*it[1]).b("ne",*it[0]!=*it[1]); } } }
template<class C,class V,class VV> static void search(C c,V v,VV vv) {
  { Rec r("Search"); r.raw("s",Rec::arr(seq(c))).i("v",vv); const C& k=c; auto p=ekat::find(c,v); auto q=ekat::find(k,v); long a=std::distance(c.begin(),p),b=std::distance(k.begin(),q);
    r.i("pos",a==b?a:-9).b("has",ekat::contains(c,v)).i("count",ekat::count(c,v)).raw("after",Rec::arr(seq(c))); }
  { Rec r("Erase"); r.raw("s",Rec::arr(seq(c))).i("v",vv); bool b=ekat::erase(c,v); r.b("r",b).raw("after",Rec::arr(seq(c))); } }
template<class C> static void set(C c,int v) { Rec r("Set"); r.raw("s",Rec::arr(seq(c))).i("v",v).i("x",77); auto p=ekat::find(c,v); r.i("pos",std::distance(c.begin(),p)); if(p!=c.end()) *p=77; r.raw("after",Rec::arr(seq(c))); }
template<class T> static string txt(const T& t) { std::ostringstream o; o<<t; return o.str(); }
template<class T> static void print(const vector<T>& v) { Rec r("Print"); vector<string> w; for(const T& t:v) w.push_back(txt(t)); std::ostringstream o; o<<v; r.ca("s",w).c("out",o.str()); }
struct X {};
template<class T> static string nm(); template<> string nm<int>() { return "int"; } template<> string nm<const int>() { return "cint"; } template<> string nm<X>() { return "X"; }
template<class... T> static void same() { Rec("Same").sa("ts",vector<string>{nm<T>()...}).b("value",ekat::SameType<T...>::value).t("type",nm<typename ekat::SameType<T...>::type>()); if constexpr(sizeof...(T)<4) { same<T...,int>(); same<T...,const int>(); same<T...,X>(); } }
static void weak() {
  fresh();  ekat::WeakPtrSet<int> s; std::shared_ptr<int> sp[4]; std::weak_ptr<int> wp[5]; // wp[4] owns nothing
  struct Two { int a,b; }; std::shared_ptr<Two> two=std::make_shared<Two>(); sp[0]=std::shared_ptr<int>(two,&two->a); for(int i=1;i<4;++i) sp[i]=std::make_shared<int>(g.below(2)); for(int i=0;i<4;++i) wp[i]=sp[i];
  bool live=true;
  for(int t=0;t<25;++t) { int o=g.below(5); std::weak_ptr<int> w=wp[o]; if(o==0&&live) w=std::shared_ptr<int>(two,g.below(2)?&two->a:&two->b);
    switch(g.below(4)) { case 0: case 1: { Rec r("WAdd"); bool b=s.insert(w).second; r.i("o",o).b("r",b).i("size",s.size()); break; }
      case 2: { Rec r("WDel"); bool b=s.erase(w)>0; r.i("o",o).b("r",b).i("size",s.size()); break; }
      default: { Rec r("WHas"); r.i("o",o).b("r",s.find(w)!=s.end()).i("size",s.size()); } }
    if(g.below(8)==0) { int i=g.below(4); sp[i].reset(); if(i==0) { two.reset(); live=false; } } } } // expired pointers keep their identity
int main() {
  g=vp::Rng(vp::seed()); const int T=vp::thorough()?10:1;
  for(int n=0;n<4;++n) for(int m=0;m<4;++m) for(int k=0;k<4;++k) { fresh(); // every combination of sizes
    auto a=mk<vector<int>>(n); auto b=mk<std::list<long>>(m); auto c=mk<std::deque<short>>(k); read(a,b,c); read(a,b); read(c); read(a,a); auto s=mk<string>(m); read(s,a,c,b); }
  for(int t=0;t<60*T;++t) { fresh(); int n=g.below(6); auto a=mk<vector<int>>(n); auto b=mk<std::list<int>>(n); auto c=mk<std::deque<int>>(n); auto d=mk<vector<bool>>(n); auto f=mk<vector<double>>(n);
    write(a); write(a,b); write(b,c,a); write(d,a); { auto e=mk<vector<bool>>(n); write(a,d,f,e); } write(f,b,c,a);
    const auto& ka=a; std::set<int> st; for(int i=0;st.size()<(size_t)n;++i) st.insert(g.below(100)); read(st,ka,d); read(ka,b); read(d,d);
    std::array<int,4> r4{1,g.below(9),3,4}; int c4[4]={g.below(9),6,7,8}; auto v4=mk<vector<int>>(g.below(3)?4:3); const bool b4[4]={true,false,true,true};
    { string x="["+Rec::arr(seq(r4))+","+Rec::arr(seq(c4))+","+Rec::arr(seq(v4))+"]"; read(r4,c4,v4); read(c4,b4); read(v4,c4); if(v4.size()==4) write(r4,c4,v4); } }
  for(int t=0;t<60*T;++t) { int n=t%7; std::map<int,string> m; std::map<char,std::shared_ptr<int>> m2; std::map<unsigned long,double> m3; while((int)m.size()<n) m[g.below(12)]="v"; while((int)m2.size()<n) m2[g.below(12)]; while((int)m3.size()<n) m3[g.below(12)]=1;
    keys<KI<decltype(m)>,decltype(m),decltype(m)::iterator>(m,40,"it"); keys<KC<decltype(m)>,decltype(m),decltype(m)::const_iterator>(m,40,"const");
    keys<KC<decltype(m2)>,decltype(m2),decltype(m2)::const_iterator>(m2,40,"const"); keys<KI<decltype(m3)>,decltype(m3),decltype(m3)::iterator>(m3,40,"it"); }
  // every sequence of up to 4 of 3 values
  for(int n=0;n<5;++n) { int tot=1; for(int i=0;i<n;++i) tot*=3; for(int c=0;c<tot;++c) { fresh(); vector<int> v; int x=c; for(int i=0;i<n;++i) { v.push_back(x%3); x/=3; }
    for(int q=0;q<4;++q) { search(v,q,q); search(std::list<long>(v.begin(),v.end()),q,q); set(std::deque<int>(v.begin(),v.end()),q); if(c%3==0) { search(string(v.begin(),v.end()),(char)q,q); search(std::deque<double>(v.begin(),v.end()),q,q); search(std::multiset<int>(v.begin(),v.end()),q,q); search(std::set<int>(v.begin(),v.end()),q,q); if(q<2) { vector<bool> b; for(int z:v) b.push_back(z%2); search(b,(bool)q,q); } } } } }
  for(int n=0;n<4;++n) { vector<string> w; for(int i=0;i<n;++i) w.push_back(g.pick(vector<string>{"a","","b c","long one"})); print(w); print(mk<vector<int>>(n)); print(mk<vector<double>>(n)); print(mk<vector<char>>(0)); vector<double> d(n,-0.5); print(d); vector<int> neg(n,-3); print(neg); vector<bool> bb(n,true); if(n) { std::ostringstream o; o<<bb; Rec r("Print"); r.ca("s",vector<string>(n,"1")).c("out",o.str()); } }
  same<int>(); same<const int>(); same<X>();
  for(int t=0;t<60*T;++t) weak();
  return 0; }
