// Teams of a real parallel dispatch ask for workspaces; variant as built (OpenMP), or the
// GPU variant (VP_GPU) on OpenMP threads, directly or through a WorkspaceManager.
#include "vp.hpp"
#ifdef VP_GPU
#include "gpuvariant.hpp"
#else
#include <Kokkos_Core.hpp>
#endif
#include "ekat_team_policy_utils.hpp"
#include "ekat_workspace.hpp"
#include <atomic>
#include <algorithm>
using vp::Rec; using ES=Kokkos::OpenMP; using Mem=Kokkos::TeamPolicy<ES>::member_type;
struct Ev { unsigned long long k; int t,r,w; char c; };
static std::atomic<unsigned long long> tick{0};
template<class V,class Get,class Rel> static void run(int L,int ts,int S,bool rel,Get get,Rel release) {
  auto p=ekat::TeamPolicyFactory<ES>::get_team_policy_force_team_size(L,ts);
  std::vector<std::vector<Ev>> ev(L*ts+1); 
  Rec("New").i("L",L).i("S",S).i("ts",ts).b("rel",rel);
  tick=0;
  Kokkos::parallel_for(p,[&](const Mem& m) {
    int t=m.league_rank(),r=m.team_rank();
    int w=get(m); ev[t*ts+r].push_back({tick++,t,r,w,'G'});
    for(volatile int z=((t*7+r*13)%11)*60;z>0;--z);
    m.team_barrier();
    if(r==0) ev[t*ts].push_back({tick++,t,r,w,'R'});
    m.team_barrier();
    release(m,w);
  });
  Kokkos::fence();
  std::vector<Ev> all; for(auto&e:ev) all.insert(all.end(),e.begin(),e.end()); std::sort(all.begin(),all.end(),[](const Ev&a,const Ev&b){return a.k<b.k;});
  std::vector<char> asked(L,0); for(auto&e:all) { if(e.c=='G') { if(!asked[e.t]) { asked[e.t]=1; Rec("Ask").i("t",e.t); } Rec("Got").i("t",e.t).i("rank",e.r).i("w",e.w); } else Rec("Rel").i("t",e.t).i("w",e.w); }
  Rec("End"); }
template<class V> static void all(vp::Rng& g,int n,double over) {
  std::vector<int> Ls={1,2,n/2+1,n,n+1,3*n+1}; if(vp::thorough()) Ls.push_back(40*n);
  for(int ts=1;ts<=n;++ts) for(int L:Ls) {
    auto p=ekat::TeamPolicyFactory<ES>::get_team_policy_force_team_size(L,ts);
    if(ekat::OnGpu<ES>::value && !ekat::is_single_precision<V>::value && ts>n/2) continue;
    ekat::TeamUtils<V,ES> tu(p,over);
    int S=tu.get_num_ws_slots();
    run<V>(L,ts,S,true,[&](const Mem& m){return tu.get_workspace_idx(m);},[&](const Mem& m,int w){tu.release_workspace_idx(m,w);});
#ifndef VP_GPU
    if(g.below(3)==0) { // through a manager: the workspace a team gets is told by the address of its blocks
      ekat::WorkspaceManager<V,Kokkos::Device<ES,Kokkos::HostSpace>> wm(16,1,p,over); 
      std::vector<V*> base(L*ts+1,nullptr); 
      std::map<V*,int> idx; 
      using WS=typename ekat::WorkspaceManager<V,Kokkos::Device<ES,Kokkos::HostSpace>>::Workspace;
      // first pass finds the addresses
      std::vector<Ev> ev; std::vector<V*> at(L,nullptr);
      std::vector<std::vector<Ev>> evs(L*ts+1); std::vector<std::vector<V*>> ptr(L*ts+1);
      tick=0;
      Kokkos::parallel_for(p,[&](const Mem& m) { int t=m.league_rank(),r=m.team_rank();
        auto ws=wm.get_workspace(m); auto v=ws.take("a"); evs[t*ts+r].push_back({tick++,t,r,0,'G'}); ptr[t*ts+r].push_back(v.data());
        m.team_barrier(); ws.release(v); m.team_barrier(); if(r==0) { evs[t*ts].push_back({tick++,t,r,0,'R'}); } m.team_barrier(); wm.release_workspace(m,ws); });
      Kokkos::fence();
      for(int i=0;i<L*ts;++i) for(V* q:ptr[i]) idx[q]=0; int k=0; for(auto&kv:idx) kv.second=k++;
      Rec("New").i("L",L).i("S",S).i("ts",ts).b("rel",true);
      for(int i=0;i<L*ts;++i) for(auto&e:evs[i]) { e.w=idx[ptr[i][0]]; ev.push_back(e); }
      std::sort(ev.begin(),ev.end(),[](const Ev&a,const Ev&b){return a.k<b.k;});
      std::vector<char> asked(L,0); for(auto&e:ev) { if(e.c=='G') { if(!asked[e.t]) { asked[e.t]=1; Rec("Ask").i("t",e.t); } Rec("Got").i("t",e.t).i("rank",e.r).i("w",e.w); } else Rec("Rel").i("t",e.t).i("w",e.w); }
      Rec("End");
    }
#endif
  } }
int main(int argc,char** argv) {
  Kokkos::initialize(argc,argv); int n=Kokkos::OpenMP().concurrency(); vp::Rng g(vp::seed()+n);
  int rep=vp::thorough()?10:1;
  for(int i=0;i<rep;++i) { all<double>(g,n,1.0); all<float>(g,n,1.0);
#ifdef VP_GPU
  all<double>(g,n,1.5); all<float>(g,n,2.0);
#endif
  }
  Kokkos::finalize(); return 0;
}
