// Histories of operations on three trees of parameter lists; every record carries what all of them hold afterwards.
#include "vp.hpp"
#include "ekat_parameter_list.hpp"
#include "ekat_string_utils.hpp"
#include <memory>
#include <functional>
#include <algorithm>
using ekat::ParameterList; using std::string; using std::vector; using vp::Rec;
static const vector<string> TY={"i","d","s","b","f","l","vi","vd","vs","vb","es"};
static string num(double d) { std::stringstream ss; ss.precision(17); ss<<d; return ss.str(); }
static string show(int v) { return std::to_string(v); } static string show(long v) { return std::to_string(v); } static string show(double v) { return num(v); } static string show(float v) { return num(v); } static string show(bool v) { return v?"true":"false"; } static string show(const string& v) { return v; } static string show(ParameterList::EmptySeq) { return ""; }
template<class T> static string show(const vector<T>& v) { string s; for(size_t i=0;i<v.size();++i) s+=(i?"|":"")+show((T)v[i]); return s; }
static void rd(const string& t,int& v) { v=atoi(t.c_str()); } static void rd(const string& t,long& v) { v=atol(t.c_str()); } static void rd(const string& t,double& v) { v=atof(t.c_str()); } static void rd(const string& t,float& v) { v=atof(t.c_str()); } static void rd(const string& t,bool& v) { v=t=="true"; } static void rd(const string& t,string& v) { v=t; } static void rd(const string&,ParameterList::EmptySeq&) {}
template<class T> static void rd(const string& t,vector<T>& v) { v.clear(); std::stringstream ss(t); string x; while(std::getline(ss,x,'|')) { T y; rd(x,y); v.push_back(y); } }
template<class F> static auto with(const string& ty,F f) { if(ty=="i") return f(int()); if(ty=="d") return f(double()); if(ty=="s") return f(string()); if(ty=="b") return f(bool()); if(ty=="f") return f(float()); if(ty=="l") return f(long()); if(ty=="vi") return f(vector<int>()); if(ty=="vd") return f(vector<double>()); if(ty=="vs") return f(vector<string>()); if(ty=="vb") return f(vector<bool>()); return f(ParameterList::EmptySeq()); }
static string q(const string& s) { return "\""+vp::esc(s)+"\""; }
static string dump(const ParameterList& p) {
  string r="{\"n\":"+q(p.name())+",\"p\":{"; bool first=true;
  for(auto& k:p.param_names()) { string ty="?",v="?"; int n=0; for(auto& t:TY) with(t,[&](auto x){ using T=decltype(x); if(p.isType<T>(k)) { ++n; ty=t; const T& y=p.get<T>(k); v=show(y); } }); if(n!=1||!p.isParameter(k)) ty="?"; r+=(first?"":",")+q(k)+":{\"ty\":"+q(ty)+",\"v\":"+q(v)+"}"; first=false; }
  r+="},\"s\":{"; first=true;
  for(auto& k:p.sublist_names()) { if(!p.isSublist(k)) { r+="\"?\":1"; break; } r+=(first?"":",")+q(k)+":"+dump(p.sublist(k)); first=false; }
  auto names=p.param_names(), subs=p.sublist_names(); bool has=true; for(string k:{"a","b","c","zz"}) has&=(p.isParameter(k)==(std::count(names.begin(),names.end(),k)==1))&&(p.isSublist(k)==(std::count(subs.begin(),subs.end(),k)==1));
  return r+"}"+(has?"":",\"bad\":1")+"}"; }
static std::unique_ptr<ParameterList> L[3];
static string all() { return "["+dump(*L[0])+","+dump(*L[1])+","+dump(*L[2])+"]"; }
using Path=vector<string>;
static ParameterList& at(int l,const Path& p) { ParameterList* x=L[l].get(); for(auto&k:p) x=&x->sublist(k); return *x; }
static const ParameterList& cat(int l,const Path& p) { const ParameterList* x=L[l].get(); for(auto&k:p) x=&x->sublist(k); return *x; }
template<class F> static bool guarded(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
static void fresh() { L[0].reset(new ParameterList("p")); L[1].reset(new ParameterList("q")); L[2].reset(new ParameterList()); Rec("New").raw("dump",all()); }
struct Op { string k; int l=0; Path p; string key,ty,v; int l2=0; Path p2; };
static void run(const Op& o) {
  Rec r(o.k); r.i("l",o.l+1).sa("path",o.p).t("key",o.key).t("ty",o.ty).t("v",o.v).i("l2",o.l2+1).sa("path2",o.p2); bool e=false; string res; bool yes=false;
  if(o.k=="Set") e=guarded([&]{ with(o.ty,[&](auto x){ rd(o.v,x); at(o.l,o.p).set(o.key,x); }); });
  else if(o.k=="Get") e=guarded([&]{ with(o.ty,[&](auto x){ using T=decltype(x); T y=at(o.l,o.p).template get<T>(o.key); res=show(y); }); });
  else if(o.k=="CGet") e=guarded([&]{ with(o.ty,[&](auto x){ using T=decltype(x); T y=cat(o.l,o.p).template get<T>(o.key); res=show(y); }); });
  else if(o.k=="GetDef") e=guarded([&]{ with(o.ty,[&](auto x){ using T=decltype(x); rd(o.v,x); T y=at(o.l,o.p).template get<T>(o.key,x); res=show(y); }); });
  else if(o.k=="Write") e=guarded([&]{ with(o.ty,[&](auto x){ using T=decltype(x); T& ref=at(o.l,o.p).template get<T>(o.key); rd(o.v,x); ref=x; res=show(x); }); });
  else if(o.k=="Sub") e=guarded([&]{ res=at(o.l,o.p).name(); });
  else if(o.k=="CSub") e=guarded([&]{ res=cat(o.l,o.p).name(); });
  else if(o.k=="IsType") e=guarded([&]{ with(o.ty,[&](auto x){ yes=at(o.l,o.p).template isType<decltype(x)>(o.key); }); });
  else if(o.k=="Copy") e=guarded([&]{ L[o.l].reset(new ParameterList(at(o.l2,o.p2))); });
  else if(o.k=="Assign") e=guarded([&]{ auto& s=at(o.l2,o.p2); at(o.l,o.p)=s; });
  else if(o.k=="Import") e=guarded([&]{ auto& s=at(o.l2,o.p2); at(o.l,o.p).import(s); });
  else if(o.k=="Rename") e=guarded([&]{ at(o.l,o.p).rename(o.v); });
  else if(o.k=="Print") { std::stringstream ss; e=guarded([&]{ cat(o.l,o.p).print(ss); }); res=ss.str(); string ls="[",x; bool f=true;
    // what an entry shows: its text, the words in it and their values as numbers
    while(std::getline(ss,x)) { size_t in=x.find_first_not_of(' '); if(in==string::npos) in=x.size(); size_t c=x.find(": "); string k=c==string::npos?"":x.substr(in,c-in),t=c==string::npos?x.substr(in):x.substr(c+2),w,n,y=t; for(char& z:y) if(z==','||z=='['||z==']'||z=='('||z==')'||z==';'||z=='{'||z=='}') z=' '; std::stringstream q(y); string z; while(q>>z) { w+=(w.empty()?"":"|")+z; n+=(n.empty()?"":"|")+num(atof(z.c_str())); }
      ls+=(f?"":",")+string("{\"in\":")+std::to_string(in)+",\"k\":\""+vp::esc(k)+"\",\"t\":\""+vp::esc(t)+"\",\"w\":\""+vp::esc(w)+"\",\"n\":\""+vp::esc(n)+"\"}"; f=false; }
    r.raw("lines",ls+"]"); }
  r.b("err",e).t("r",res).b("yes",yes).raw("dump",all()); }
int main() {
  vp::Rng g(vp::seed());
  // every short history over a small alphabet
  vector<Op> A; for(int l:{0,1}) { A.push_back({"Set",l,{},"a","i","1"}); A.push_back({"Set",l,{"a"},"a","s","x"}); A.push_back({"Set",l,{"a","b"},"a","i","7"}); A.push_back({"GetDef",l,{},"a","i","5"}); A.push_back({"Assign",l,{},"","","",1-l,{}}); A.push_back({"Import",l,{},"","","",1-l,{}}); A.push_back({"Assign",l,{"a"},"","","",1-l,{}}); }
  A.push_back({"Copy",2,{},"","","",0,{"a"}}); A.push_back({"Set",0,{},"a","d","2.5"}); A.push_back({"Assign",0,{},"","","",0,{"a"}}); A.push_back({"Write",0,{},"a","i","9"});
  int n=A.size(), D=vp::thorough()?4:3; long tot=1; for(int i=0;i<D;++i) tot*=n; long stride=vp::thorough()?7:2;
  for(long c=0;c<tot;c+=stride) { fresh(); long x=c; for(int i=0;i<D;++i) { run(A[x%n]); x/=n; } }
  auto val=[&](const string& ty)->string { auto one=[&](const string& t)->string { if(t=="i"||t=="l") return std::to_string(g.range(-9,99)); if(t=="d"||t=="f") return g.pick(vector<string>{"0.5","-1.25","3","12"}); if(t=="b") return g.below(2)?"true":"false"; if(t=="s") return g.pick(vector<string>{"","x","true","1","a b"}); return ""; };
    if(ty[0]=='v') { string t(1,ty[1]),s; int k=g.below(4); if(t=="s") { for(int i=0;i<k;++i) s+=(i?"|":"")+g.pick(vector<string>{"x","yy","1"}); } else for(int i=0;i<k;++i) s+=(i?"|":"")+one(t); return s; } return one(ty); };
  // every type stored, read as every type in every way, twice
  for(auto& a:TY) for(auto& b:TY) for(string k:{"Get","CGet","GetDef","Write","IsType"}) { if(b=="es"&&k!="IsType") continue; Path p; if(g.below(2)) p={"a"}; fresh(); int l=g.below(3);
    run({"Set",l,p,"b",a,val(a)}); run({k,l,p,"b",b,val(b)}); run({k=="CGet"?"CGet":"Get",l,p,"b",g.below(2)?b:g.pick(vector<string>{"vi","vd","vs","vb"}),""}); run({"CGet",l,p,"c",b,""}); run({"IsType",l,p,"b",b,""}); }
  int H=vp::thorough()?3000:250;
  for(int h=0;h<H;++h) { fresh();
    for(int t=0;t<30;++t) { Op o; o.l=g.below(3); auto path=[&]{ Path p; int d=g.below(3); for(int i=0;i<d;++i) p.push_back(g.pick(vector<string>{"a","b"})); return p; };
      o.p=path(); o.key=g.pick(vector<string>{"a","b","c"}); o.ty=g.below(3)?g.pick(vector<string>{"i","s","vi","es"}):g.pick(TY); o.v=val(o.ty); o.l2=g.below(3); o.p2=path();
      o.k=g.pick(vector<string>{"Set","Set","Set","Set","Get","CGet","GetDef","GetDef","Write","Sub","CSub","IsType","Copy","Assign","Assign","Import","Import","Rename","Print"});
      if(o.ty=="es"&&(o.k=="Get"||o.k=="CGet"||o.k=="GetDef"||o.k=="Write")) o.ty="vi";
      if(o.k=="GetDef"||o.k=="Write") o.v=val(o.ty);
      if(o.k=="Copy") { o.p.clear(); if(o.l==o.l2) o.l2=(o.l+1)%3; }
      if(o.k=="Import"&&o.l==o.l2&&o.p.size()>o.p2.size()&&g.below(2)) o.p2=o.p; // importing a list into a part of it makes the tree grow
      if(o.k=="Rename") o.v=g.pick(vector<string>{"a","nn",""});
      run(o); } }
  return 0;
}
