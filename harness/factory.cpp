// Histories of registrations and requests on several factory types.
#include "vp.hpp"
#include <memory>
#include <algorithm>
#include "ekat_factory.hpp"
#include "ekat_string_utils.hpp"
using std::string; using std::vector; using vp::Rec; using ekat::CaseInsensitiveString;
static int calls=0;
struct B { virtual ~B() {} int c=0; string got; };
struct B2 { virtual ~B2() {} int c=0; string got; };
template<int C> struct D : B { D() { c=C; } };
template<int C> struct D2 : B2 { D2() { c=C; } };
template<int C> static std::shared_ptr<B> mk0() { ++calls; auto p=std::make_shared<D<C>>(); return p; }
template<int C> static std::unique_ptr<B> mk2(const int a,const string b) { ++calls; auto p=std::make_unique<D<C>>(); p->got=std::to_string(a)+","+b; return p; }
template<int C> static B2* mkr(const int a) { ++calls; auto p=new D2<C>(); p->got=std::to_string(a); return p; }
template<int C> static std::shared_ptr<B> mkp(const vector<int>& a) { ++calls; auto p=std::make_shared<D<C>>(); for(int x:a) p->got+=std::to_string(x)+","; return p; }
using F1=ekat::Factory<B,string,std::shared_ptr<B>>;
using F2=ekat::Factory<B,CaseInsensitiveString,std::shared_ptr<B>>;
using F3=ekat::Factory<B,string,std::unique_ptr<B>,int,string>;
using F4=ekat::Factory<B2,string,B2*,int>;
using F5=ekat::Factory<B,string,std::shared_ptr<B>,const vector<int>&>;
static const int NF=5; static vector<string> VOC={"k1","K1","k2","K2","one","One","ONE"};
static string sizes() { return Rec::arr(vector<long>{(long)F1::instance().register_size(),(long)F2::instance().register_size(),(long)F3::instance().register_size(),(long)F4::instance().register_size(),(long)F5::instance().register_size()}); }
template<class P> static auto pick(int c,P p) { return p[c-1]; }
struct Op { string k; int f; string key; int c=1; bool rep=false; int a=0; string b; };
static string fold(const string& s,int f) { string r=s; if(f==2) for(auto&c:r) c=tolower(c); return r; }
static void run(const Op& o) {
  Rec r(o.k); calls=0; bool res=false,err=false; string got,what; int c=o.c;
  auto each=[&](auto& fac,auto cr,auto create) {
    if(o.k=="Register") { if(o.rep) res=fac.register_product(o.key,cr,true); else res=o.a%2?fac.register_product(o.key,cr):fac.register_product(o.key,cr,false); }
    else if(o.k=="Has") res=fac.has_product(o.key);
    else if(o.k=="Clean") fac.clean_up();
    else { try { create(); } catch(const std::exception& e) { err=true; what=e.what(); } } };
  string args;
  if(o.f==1) { using C=F1::creator_type; C t[3]={&mk0<1>,&mk0<2>,&mk0<3>}; auto& f=F1::instance(); each(f,t[o.c-1],[&]{ auto p=f.create(o.key); c=p->c; got=p->got; }); }
  if(o.f==2) { using C=F2::creator_type; C t[3]={&mk0<1>,&mk0<2>,&mk0<3>}; auto& f=F2::instance(); each(f,t[o.c-1],[&]{ auto p=f.create(o.key); c=p->c; got=p->got; }); }
  if(o.f==3) { args=std::to_string(o.a)+","+o.b; using C=F3::creator_type; C t[3]={&mk2<1>,&mk2<2>,&mk2<3>}; auto& f=F3::instance(); each(f,t[o.c-1],[&]{ auto p=f.create(o.key,int(o.a),string(o.b)); c=p->c; got=p->got; }); }
  if(o.f==4) { args=std::to_string(o.a); using C=F4::creator_type; C t[3]={&mkr<1>,&mkr<2>,&mkr<3>}; auto& f=F4::instance(); each(f,t[o.c-1],[&]{ auto p=f.create(o.key,int(o.a)); c=p->c; got=p->got; delete p; }); }
  if(o.f==5) { vector<int> v(o.a%4,o.a); for(int x:v) args+=std::to_string(x)+","; using C=F5::creator_type; C t[3]={&mkp<1>,&mkp<2>,&mkp<3>}; auto& f=F5::instance(); each(f,t[o.c-1],[&]{ auto p=f.create(o.key,v); c=p->c; got=p->got; }); }
  r.i("f",o.f).t("key",o.key).t("k",fold(o.key,o.f)).i("c",o.k=="Register"?o.c:c).b("replace",o.rep).b("r",res).b("err",err).i("calls",calls).raw("sizes",sizes());
  if(o.k=="Create") { r.t("args",o.k=="Create"?args:"").t("got",got).b("named",what.find(o.key)!=string::npos);
    vector<string> listed; for(const string& k:VOC) { // a key listed stands on its own
      auto from=what.find("registered product"); for(auto p=from==string::npos?from:what.find(k,from);p!=string::npos;p=what.find(k,p+1)) { char a=p?what[p-1]:' ', z=p+k.size()<what.size()?what[p+k.size()]:' '; if(!isalnum(a)&&!isalnum(z)) { listed.push_back(k); break; } } }
    r.sa("listed",listed); } }
static void fresh() { F1::instance().clean_up(); F2::instance().clean_up(); F3::instance().clean_up(); F4::instance().clean_up(); F5::instance().clean_up(); Rec("New").i("n",NF).raw("sizes",sizes()); }
int main() {
  vp::Rng g(vp::seed()); vector<Op> A;
  for(string k:{"k1","k2"}) { for(int c:{1,2}) { A.push_back({"Register",1,k,c,false}); A.push_back({"Register",1,k,c,true}); } A.push_back({"Create",1,k}); }
  A.push_back({"Clean",1,""}); A.push_back({"Has",1,"k1"}); A.push_back({"Register",2,"K1",3,false}); A.push_back({"Register",2,"k1",1,false});
  int n=A.size(), D=vp::thorough()?4:3; long tot=1; for(int i=0;i<D;++i) tot*=n;
  for(long c=0;c<tot;++c) { fresh(); long x=c; for(int i=0;i<D;++i) { run(A[x%n]); x/=n; } run({"Create",1,"k1"}); run({"Create",2,"k1"}); }
  int H=vp::thorough()?3000:300; const vector<string> K={"k1","K1","k2","K2","one","One","ONE",""};
  for(int h=0;h<H;++h) { fresh(); int only=g.below(3)?0:g.range(1,NF); for(int t=0;t<40;++t) { Op o; o.f=only?only:g.range(1,NF); o.key=g.below(30)?g.pick(vector<string>(K.begin(),K.end()-1)):""; o.c=g.range(1,3); o.rep=g.below(3)==0; o.a=g.range(-5,9); o.a=o.f==5?std::abs(o.a):o.a; o.b=g.pick(vector<string>{"","x","long text that does not fit"}); o.k=g.pick(vector<string>{"Register","Register","Register","Create","Create","Create","Has","Has","Clean"}); if(o.k=="Clean"&&g.below(3)) o.k="Create"; if(o.key.empty()&&o.k=="Register") o.key="k1"; run(o); } }
  // many products, in several orders of registration
  for(int j=0;j<160;++j) { VOC.push_back("p"+std::to_string(j)); VOC.push_back("P"+std::to_string(j)); }
  for(int n:{11,17,33,70,140}) for(int f=1;f<=NF;++f) { if(n>40&&!vp::thorough()&&f!=1+n%NF) continue; fresh(); vector<int> o; for(int j=0;j<n;++j) o.push_back(j); if(n%2) for(int j=n-1;j>0;--j) std::swap(o[j],o[g.below(j+1)]); else std::reverse(o.begin(),o.end());
    auto key=[&](int j) { return string(g.below(4)==0?"P":"p")+std::to_string(j); };
    for(int j:o) { run({"Register",f,key(j),g.range(1,3),g.below(4)==0,j}); if(g.below(6)==0) run({"Create",f,key(g.below(n)),1,false,j%9}); }
    for(int t=0;t<6;++t) run({"Create",f,t<2?"none":key(t==2?o[0]:t==3?o[n-1]:g.below(n)),1,false,t}); run({"Has",f,key(o[n-1])}); run({"Register",f,key(o[0]),2,true}); run({"Create",f,key(o[0])}); run({"Clean",f,""}); run({"Create",f,key(o[0])}); }
  return 0;
}
