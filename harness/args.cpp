// Test arguments: every list of up to 3 of a vocabulary, and random ones.
#include "vp.hpp"
#include "ekat_test_utils.hpp"
using vp::Rec; using std::string; using std::vector;
static void parse(const vector<string>& v) {
  auto& ts=ekat::TestSession::get(); ts.flags.clear(); ts.params.clear(); ts.vec_params.clear(); vector<vector<char>> keep; vector<char*> p; for(auto&s:v) { keep.emplace_back(s.begin(),s.end()); keep.back().push_back(0); } for(auto&k:keep) p.push_back(k.data());
  Rec r("Parse"); r.ca("args",v); bool err=false; try { ts.parse_test_args(p); } catch(const std::exception&) { err=true; } r.b("err",err);
  vector<string> f; for(auto&x:ts.flags) if(x.second) f.push_back(x.first); else f.push_back(x.first+"(false)"); r.ca("flags",f);
  string q="["; for(auto&x:ts.params) q+=(q.size()>1?",[":"[")+Rec::codes(x.first)+","+Rec::codes(x.second)+"]"; r.raw("params",q+"]");
  q="["; for(auto&x:ts.vec_params) q+=(q.size()>1?",[":"[")+Rec::codes(x.first)+","+Rec::carr(x.second)+"]"; r.raw("vec",q+"]"); }
int main() {
  vector<string> V={"-a","--b","a","b,a","-a=b","--a=a,b","-","","a=b","-a=","--","-a=-b","a,-b","--b=1.5",",","=","---a","-a,b","-a=b=c","1e-3"};
  int n=V.size(); parse({}); for(auto&a:V) parse({a}); for(auto&a:V) for(auto&b:V) parse({a,b}); for(auto&a:V) for(auto&b:V) for(auto&c:V) parse({a,b,c}); (void)n;
  vp::Rng g(vp::seed()); int H=vp::thorough()?60000:4000;
  for(int h=0;h<H;++h) { vector<string> v; int k=g.range(1,7); for(int i=0;i<k;++i) { if(g.below(3)) v.push_back(g.pick(vector<string>{"-a","--b","x","y","-c=x","--long=u,v","p,q","w","--b=z","-a","3"})); else { string s; int m=g.below(6); for(int j=0;j<m;++j) s+=g.pick(vector<string>{"-","a","b","=",","}); v.push_back(s); } } parse(v); }
  // long lists: many values of one key, many keys, long texts
  for(int n:{40,128,256,512}) for(int t=0;t<4;++t) { vector<string> v; if(t==0) { v.push_back("-k"); for(int i=0;i<n;++i) v.push_back("v"+std::to_string(i)); v.push_back("-f"); } else if(t==1) { string x="--k="; for(int i=0;i<n;++i) x+=(i?",":"")+std::to_string(i); v={x,"w"}; }
    else if(t==2) for(int i=0;i<n/3;++i) { v.push_back("-k"+std::to_string(i)); if(i%3) v.push_back("x"); } else v={"-"+string(n,'a'),string(n,'b')+","+string(n/2,'c'),"--"+string(n,'-')+"="+string(n,'z')}; if(n<200||t!=2||(n<300&&vp::thorough())) parse(v); }
  vector<string> W={"-np","--num_problems","--np","-n","np","","-num_problems","---np","--num","-np "};
  for(auto&s:W) for(auto&a:vector<string>{"-np","-n"}) for(auto&b:vector<string>{"--num_problems","--num"}) Rec("Match").c("s",s).c("short",a).c("long",b).b("res",ekat::argv_matches(s,a,b));
  return 0; }
