// Team policies and concurrency figures, in the host, GPU-mimicking (VP_MIMIC) and GPU (VP_GPU) variants.
#include "vp.hpp"
#include <Kokkos_Core.hpp>
// policies of the GPU space only carry their sizes here: no host pool could run teams of 128
#ifdef VP_GPU
struct GpuSpace : Kokkos::OpenMP { using execution_space=GpuSpace; };
namespace Kokkos {
template<> class TeamPolicy<GpuSpace> { int l,t; public: using member_type=Kokkos::TeamPolicy<Kokkos::OpenMP>::member_type; using execution_space=GpuSpace; TeamPolicy(int a,int b):l(a),t(b){} int league_size() const {return l;} int team_size() const {return t;} };
using HIP=GpuSpace; using Serial=OpenMP; }
#include <Kokkos_Random.hpp>
#undef KOKKOS_ENABLE_OPENMP
#define EKAT_ENABLE_GPU
#define KOKKOS_ENABLE_HIP
using FES=GpuSpace;
static const char* VAR="gpu";
#else
#include <omp.h>
using FES=Kokkos::OpenMP;
#ifdef VP_MIMIC
#define EKAT_MIMIC_GPU
static const char* VAR="mimic";
#else
static const char* VAR="host";
#endif
#endif
#include "ekat_team_policy_utils.hpp"
using vp::Rec;
int main(int argc,char** argv) {
  Kokkos::initialize(argc,argv); { int th=Kokkos::OpenMP().concurrency();
  std::vector<int> nis={1,2,3,th,5*th+1,1000}, nks; for(int i=1;i<=(vp::thorough()?2000:300);++i) nks.push_back(i); for(int k:{511,512,513,1024,100000}) nks.push_back(k);
  using F=ekat::TeamPolicyFactory<FES>;
  for(int ni:nis) for(int nk:nks) { if(nk>140&&ni!=3&&ni!=1000) continue;
    auto p=F::get_default_team_policy(ni,nk); Rec("Default").t("var",VAR).i("th",th).i("ni",ni).i("nk",nk).i("league",p.league_size()).i("team",p.team_size());
    auto q=F::get_thread_range_parallel_scan_team_policy(ni,nk); Rec("Scan").t("var",VAR).i("th",th).i("ni",ni).i("nk",nk).i("league",q.league_size()).i("team",q.team_size()); }
  for(int ni:nis) for(int ts=1;ts<=(std::string(VAR)=="gpu"?128:std::min(th,64));++ts) { auto p=F::get_team_policy_force_team_size(ni,ts); Rec("Forced").i("ni",ni).i("ts",ts).i("league",p.league_size()).i("team",p.team_size()); }
  } Kokkos::finalize(); return 0; }
