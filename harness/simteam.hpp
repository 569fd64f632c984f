// A team of threads that run as fibers: barriers, and a switch of threads at every chosen operation.
// Declares the parts of Kokkos' team interface for it, so include it before the code under test.
#pragma once
#include <Kokkos_Core.hpp>
#include <ucontext.h>
#include <functional>
#include <memory>
#include <set>
#include <vector>
#include "vp.hpp"
namespace sim {
struct Acc { std::set<long> r,w; };
struct Sched { int n; vp::Rng g; std::vector<ucontext_t> ctx; ucontext_t main; std::vector<std::unique_ptr<char[]>> stk; std::vector<int> st; // 0 running, 1 at the barrier, 2 finished
  int cur=-1,mode; bool diverged=false; std::vector<std::vector<Acc>> phases; std::vector<std::pair<char*,char*>> mem; size_t unit=1; std::function<void(int)> body;
  static Sched*& now() { static Sched* s=nullptr; return s; }
  Sched(int n_,uint64_t seed,int mode_): n(n_),g(seed),ctx(n_),st(n_,0),mode(mode_) {}
  long find(const void* p) { long off=0; for(auto&m:mem) { if((char*)p>=m.first&&(char*)p<m.second) return off+((char*)p-m.first)/unit; off+=(m.second-m.first)/unit; } return -1; }
  void read(const void* p) { if(cur<0) return; long k=find(p); if(k>=0) phases.back()[cur].r.insert(k); }
  void write(const void* p) { if(cur<0) return; long k=find(p); if(k>=0) phases.back()[cur].w.insert(k); }
  void maybe() { if(cur>=0&&mode==2&&g.below(3)==0) swapcontext(&ctx[cur],&main); }
  void barrier() { st[cur]=1; swapcontext(&ctx[cur],&main); }
  static void entry() { Sched* s=now(); s->body(s->cur); s->st[s->cur]=2; swapcontext(&s->ctx[s->cur],&s->main); }
  // mode 0: threads in order, 1: in reverse order, 2: any interleaving
  void run(std::function<void(int)> f) { body=f; now()=this; phases.emplace_back(n); for(int k=0;k<n;++k) { stk.emplace_back(new char[1<<17]); getcontext(&ctx[k]); ctx[k].uc_stack.ss_sp=stk[k].get(); ctx[k].uc_stack.ss_size=1<<17; ctx[k].uc_link=&main; makecontext(&ctx[k],(void(*)())entry,0); }
    while(true) { std::vector<int> can; int done=0; for(int k=0;k<n;++k) { if(st[k]==0) can.push_back(k); if(st[k]==2) ++done; } if(done==n) break;
      if(can.empty()) { if(done) { diverged=true; break; } for(auto&x:st) x=0; phases.emplace_back(n); continue; }
      cur=mode==0?can[0]:mode==1?can.back():can[g.below(can.size())]; swapcontext(&main,&ctx[cur]); cur=-1; } now()=nullptr; }
  std::string log() { std::string s="["; bool f=true; for(auto&p:phases) { bool any=false; for(auto&a:p) any=any||!a.w.empty(); if(!any) continue; s+=f?"[":",["; f=false; for(size_t k=0;k<p.size();++k) s+=(k?",":"")+std::string("{\"r\":")+vp::Rec::arr(p[k].r)+",\"w\":"+vp::Rec::arr(p[k].w)+"}"; s+="]"; } return s+"]"; } };
// also stands for a member of a real team, where s is null
struct Team { Sched* s; int r; int n=1,lr=0,ls=1; Team(Sched* s_,int r_): s(s_),r(r_),n(s_->n) {}
  template<class... P> Team(const Kokkos::Impl::HostThreadTeamMember<P...>& m): s(nullptr),r(m.team_rank()),n(m.team_size()),lr(m.league_rank()),ls(m.league_size()) {}
  int team_rank() const { return r; } int team_size() const { return n; } int league_rank() const { return lr; } int league_size() const { return ls; } void team_barrier() const { if(s) s->barrier(); }
  using execution_space=Kokkos::DefaultHostExecutionSpace; using scratch_memory_space=execution_space::scratch_memory_space; };
struct One { const Team& t; }; struct Range { const Team& t; int b,e; };
}
namespace Kokkos {
inline sim::One PerTeam(const sim::Team& t) { return {t}; } inline sim::One PerThread(const sim::Team& t) { return {t}; }
template<class F> void single(const sim::One& o,const F& f) { if(o.t.r==0) f(); }
inline sim::Range TeamThreadRange(const sim::Team& t,int n) { return {t,0,n}; } inline sim::Range TeamThreadRange(const sim::Team& t,int b,int e) { return {t,b,e}; }
inline sim::Range TeamVectorRange(const sim::Team& t,int n) { return {t,0,n}; } inline sim::Range TeamVectorRange(const sim::Team& t,int b,int e) { return {t,b,e}; }
template<class F> void parallel_for(const sim::Range& r,const F& f) { for(int k=r.b+r.t.r;k<r.e;k+=r.t.n) f(k); }
}
