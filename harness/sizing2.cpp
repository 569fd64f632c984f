// Concurrency figures of TeamUtils for any policy sizes (the policy only tells its sizes).
#include "vp.hpp"
#ifdef VP_GPU
#include "gpuvariant.hpp"
static const char* VAR="gpu";
#else
#include <Kokkos_Core.hpp>
static const char* VAR="host";
#endif
#include "ekat_team_policy_utils.hpp"
using vp::Rec;
struct Policy { int l,t; int team_size() const {return t;} int league_size() const {return l;} };
template<class V> static void utils(int th,int ni,int ts,int n,int d,bool single) {
  using ES=Kokkos::OpenMP;
  Rec r("Utils"); r.t("var",VAR).i("th",th).i("ni",ni).i("ts",ts).i("n",n).i("d",d).b("single",single); bool e=false; int a=0,b=0,c=0;
  try { Policy p{ni,ts}; ekat::TeamUtils<V,ES> tu(p,(double)n/d); ekat::TeamUtils<V,ES> t2; t2=tu; ekat::TeamUtils<V,ES> t3(t2); a=t3.get_max_concurrent_threads(); b=t3.get_num_concurrent_teams(); c=t3.get_num_ws_slots(); } catch(const std::exception&) { e=true; }
  r.b("err",e).i("max",a).i("teams",b).i("slots",c); }
int main(int argc,char** argv) {
  Kokkos::initialize(argc,argv); { int th=Kokkos::OpenMP().concurrency();
  bool gpu=std::string(VAR)=="gpu";
  for(int sg=0;sg<2;++sg) { int mt=gpu&&!sg?th/2:th; for(int ts=1;ts<=mt;++ts) { if(ts>20&&ts!=32&&ts!=64&&ts!=mt&&ts!=mt/2&&ts!=mt/3) continue; int k=mt/ts;
    for(int ni: std::vector<int>{1,2,3,k-1,k,k+1,k+k/2,2*k,2*k+1,1000}) if(ni>0) for(int n:{4,5,6,7,8,13,32,2}) { if(n!=4&&!gpu&&n!=8) continue; if(sg) utils<float>(th,ni,ts,n,4,true); else utils<double>(th,ni,ts,n,4,false); if(!sg) continue; } } }
  for(int ts=1;ts<=th/(gpu?2:1);ts+=3) { utils<int>(th,7,ts,4,4,false); utils<long>(th,7,ts,4,4,false); }
  // nothing is known before a policy was given, also after copying
  { auto no=[&](auto f) { try { f(); return false; } catch(const std::exception&) { return true; } };
    auto ask=[&](auto tu) { std::vector<int> e{no([&]{tu.get_max_concurrent_threads();}),no([&]{tu.get_num_concurrent_teams();}),no([&]{tu.get_num_ws_slots();})}; Rec("Unset").t("var",VAR).a("err",e); };
    ekat::TeamUtils<double,Kokkos::OpenMP> a,b; b=a; ask(a); ask(b); ekat::TeamUtils<float,Kokkos::OpenMP> c; ask(c);
    Policy p{4,1}; if(th>1) { ekat::TeamUtils<double,Kokkos::OpenMP> d(p,1.0); d=a; ask(d); } }
  } Kokkos::finalize(); return 0; }
