// Managers of every size: bytes needed, memory used, and where the blocks are.
//   wsbig BLOCKS SCRIPT ; script lines: big TYPE SIZE CAP LEAGUE TAKE
// Byte counts are written as pairs <quotient, remainder> of 65536.
#include "vp.hpp"
#include "ekat_pack.hpp"
#include "ekat_workspace.hpp"
#include "ekat_pack_kokkos.hpp"
#include <mutex>
using namespace ekat;
struct Alloc { char* p; size_t n; };
static std::vector<Alloc> g_alloc; static std::mutex g_amx;
static const size_t HDR = sizeof(Kokkos::Impl::SharedAllocationHeader);
static void on_alloc(Kokkos::Tools::SpaceHandle, const char*, const void* p, uint64_t n) { std::lock_guard<std::mutex> g(g_amx); g_alloc.push_back({(char*)p+HDR,(size_t)n}); }
static void on_free(Kokkos::Tools::SpaceHandle, const char*, const void* p, uint64_t) {
  std::lock_guard<std::mutex> g(g_amx);
  for (size_t i=0;i<g_alloc.size();++i) if (g_alloc[i].p==(char*)p+HDR) { g_alloc.erase(g_alloc.begin()+i); return; } }
static std::string lim(long long v) {      // negative or absurd values stay recognisable
  if (v<0 || (v>>16)>2000000000LL) return "[-1,0]";
  return "["+std::to_string(v>>16)+","+std::to_string(v&65535)+"]"; }
template<class T> static void go(const std::string& ty,long long size,int cap,int league,int take) {
  using WSM = WorkspaceManager<T,DefaultDevice>;
  using V = Unmanaged<typename KokkosTypes<DefaultDevice>::template view_1d<T>>;
  auto p=TeamPolicyFactory<typename KokkosTypes<DefaultDevice>::ExeSpace>::get_team_policy_force_team_size(league,1);
  const long long need=(long long)WSM::get_total_bytes_needed((int)size,cap,p);
  size_t before; { std::lock_guard<std::mutex> g(g_amx); before=g_alloc.size(); }
  WSM w((int)size,cap,p);
  // the memory of the blocks is the allocation the first block lies in
  std::vector<std::vector<V>> got(league); std::vector<std::vector<bool>> kept(league);
  std::mutex mx_; std::mutex* mx=&mx_; auto* pg=&got; auto* pk=&kept;
  Kokkos::parallel_for("vp",p,KOKKOS_LAMBDA(const typename WSM::MemberType& team) {
    auto ws=w.get_workspace(team,"big");
    std::vector<V> vs;
    for (int k=0;k<take;++k) vs.push_back(ws.template take<T>("a"));
    // first and last byte of every block
    for (int k=0;k<take;++k) { auto c=(unsigned char*)vs[k].data(); size_t n=vs[k].extent(0)*sizeof(T); memset(c,k+1,std::min<size_t>(n,64)); memset(c+n-std::min<size_t>(n,64),k+1,std::min<size_t>(n,64)); }
    // give half of them back and take them again
    for (int k=take-1;k>=0;k-=2) ws.release(vs[k]);
    for (int k=take-1;k>=0;k-=2) { vs[k]=ws.template take<T>("b"); auto c=(unsigned char*)vs[k].data(); size_t n=vs[k].extent(0)*sizeof(T); memset(c,k+1,std::min<size_t>(n,64)); memset(c+n-std::min<size_t>(n,64),k+1,std::min<size_t>(n,64)); }
    std::vector<bool> kp;
    for (int k=0;k<take;++k) { auto c=(unsigned char*)vs[k].data(); size_t n=vs[k].extent(0)*sizeof(T); bool o=true;
      for (size_t i=0;i<std::min<size_t>(n,64);++i) if (c[i]!=k+1||c[n-1-i]!=k+1) o=false; kp.push_back(o); }
    for (int k=0;k<take;++k) ws.release(vs[k]);
    std::lock_guard<std::mutex> g(*mx);
    (*pg)[team.league_rank()]=vs; (*pk)[team.league_rank()]=kp;
  });
  Kokkos::fence();
  char* base=nullptr; size_t bytes=0;
  for (size_t i=before;i<g_alloc.size();++i) { char* d=take?(char*)got[0][0].data():nullptr;
    if (take ? (d>=g_alloc[i].p && d<g_alloc[i].p+g_alloc[i].n) : g_alloc[i].n>bytes) { base=g_alloc[i].p; bytes=g_alloc[i].n; } }
  for (int t=0;t<league;++t) {
    std::string off="[",ext="[",kp="[";
    for (int k=0;k<take;++k) { if(k) { off+=","; ext+=","; kp+=","; }
      off+=lim((char*)got[t][k].data()-base); ext+=lim((long long)(got[t][k].extent(0)*sizeof(T))); kp+=kept[t][k]?"true":"false"; }
    vp::Rec r("Big"); r.t("type",ty).i("ts",sizeof(T)).i("size",size).i("cap",cap).i("league",league).i("team",t)
      .raw("need",lim(need)).raw("bytes",lim(bytes)).raw("off",off+"]").raw("len",ext+"]").raw("kept",kp+"]");
  }
}
int main(int argc,char** argv) {
  if (argc<2) return 3;
  Kokkos::initialize(argc,argv);
  Kokkos::Tools::Experimental::set_allocate_data_callback(on_alloc);
  Kokkos::Tools::Experimental::set_deallocate_data_callback(on_free);
  for (auto& w : vp::script(argv[1])) {
    long long size=atoll(w[2].c_str()); int cap=vp::num(w[3]),l=vp::num(w[4]),take=vp::num(w[5]);
    if (w[1]=="double") go<double>(w[1],size,cap,l,take);
    else if (w[1]=="float") go<float>(w[1],size,cap,l,take);
    else if (w[1]=="char") go<char>(w[1],size,cap,l,take);
    else if (w[1]=="short") go<short>(w[1],size,cap,l,take);
    else if (w[1]=="pack") go<Pack<double,4>>(w[1],size,cap,l,take);
    else return 3;
  }
  Kokkos::finalize();
  return 0;
}
