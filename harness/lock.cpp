// The workspace lock of the GPU variant. MODE sched: teams are threads that run one at a
// time, switching at every access to the slots (the compiler's -fsanitize=thread hooks,
// served here). MODE free: real concurrency, many turns.
#include "vp.hpp"
#include <Kokkos_Core.hpp>
#include <pthread.h>
#include <semaphore.h>
#include <atomic>
#include <thread>
#include <unistd.h>
struct Mock { int rank,n; int league_rank() const {return rank;} int league_size() const {return n;} int team_rank() const {return 0;} int team_size() const {return 1;} void team_barrier() const {} };
struct MockPT { const Mock* m; };
namespace Kokkos {
inline MockPT PerTeam(const Mock& m) { return MockPT{&m}; }
template<class F> inline void single(const MockPT&,const F& f) { f(); }
template<class F,class T> inline void single(const MockPT&,const F& f,T& v) { f(v); }
}
#include "gpuvariant.hpp"
#include "ekat_team_policy_utils.hpp"
using vp::Rec;
#define NOSAN __attribute__((no_sanitize("thread"),noinline))
// ---- scheduler
static const int MAXT=8; static sem_t sem_t_[MAXT], sem_main; static __thread int me=-1; static volatile int fin[MAXT]; static volatile int inlock[MAXT];
static const char *tu_lo=nullptr,*tu_hi=nullptr; static __thread char *st_lo=nullptr,*st_hi=nullptr;
NOSAN static void yield_() { sem_post(&sem_main); sem_wait(&sem_t_[me]); }
extern "C" NOSAN void vp_touch(const void* p,int size) {
  if (me<0||!inlock[me]||size!=4) return; const char* c=(const char*)p;
  if (c>=st_lo&&c<st_hi) return; if (c>=tu_lo&&c<tu_hi) return;
  yield_(); }
using TU=ekat::TeamUtils<float,Kokkos::HIP>;
struct Policy { int ts,ls; int team_size() const {return ts;} int league_size() const {return ls;} };
struct Job { const TU* tu; int rank,n,rounds; };
static unsigned long long yields=0;
NOSAN static void* body(void* a) {
  Job* j=(Job*)a; pthread_attr_t at; pthread_getattr_np(pthread_self(),&at); void* lo; size_t sz; pthread_attr_getstack(&at,&lo,&sz); pthread_attr_destroy(&at);
  st_lo=(char*)lo; st_hi=st_lo+sz; me=j->rank; sem_wait(&sem_t_[me]);
  Mock m{j->rank,j->n};
  for(int r=0;r<j->rounds;++r) {
    Rec("Ask").i("t",me);
    yield_(); inlock[me]=1; int w=j->tu->get_workspace_idx(m); inlock[me]=0;
    Rec("Got").i("t",me).i("rank",0).i("w",w);
    yield_();
    Rec("Rel").i("t",me).i("w",w);
    inlock[me]=1; j->tu->release_workspace_idx(m,w); inlock[me]=0;
    yield_();
  }
  fin[me]=1; sem_post(&sem_main); return nullptr; }
static bool one(int ts,double over,int L,int rounds,const std::vector<int>& sched,vp::Rng* g) {
  Policy p{ts,L}; TU tu(p,over); tu_lo=(const char*)&tu; tu_hi=tu_lo+sizeof(tu);
  Rec("New").i("L",L).i("S",tu.get_num_ws_slots()).i("ts",1).b("rel",true);
  pthread_t th[MAXT]; Job jobs[MAXT]; sem_init(&sem_main,0,0);
  for(int t=0;t<L;++t) { sem_init(&sem_t_[t],0,0); fin[t]=0; inlock[t]=0; jobs[t]=Job{&tu,t,L,rounds}; pthread_create(&th[t],nullptr,body,&jobs[t]); }
  auto run=[&](int t) { if(fin[t]) return; sem_post(&sem_t_[t]); sem_wait(&sem_main); };
  for(int t:sched) run(t%L);
  long n=0; bool all=false;
  while(!all) { if(g&&g->below(3)) run(g->below(L)); else run(n%L); ++n; all=true; for(int t=0;t<L;++t) all&=fin[t]; if(n>200000) break; }
  if(!all) { Rec("Stuck"); fflush(vp::out()); _exit(0); }
  for(int t=0;t<L;++t) pthread_join(th[t],nullptr);
  Rec("End"); return all; }

static void stress(int T,int iters,double over,int ts) {
  // T free-running teams on few slots; the order of records is the order of tickets
  int L=T; Policy p{ts,L}; TU tu(p,over); 
  struct Ev { unsigned long long k; int t,w; char c; }; std::vector<std::vector<Ev>> ev(T); std::atomic<unsigned long long> tick{0}; std::atomic<int> go{0}; 
  Rec("New").i("L",L).i("S",tu.get_num_ws_slots()).i("ts",1).b("rel",true);
  std::vector<std::thread> th;
  for(int t=0;t<T;++t) th.emplace_back([&,t]{ Mock m{t,L}; ev[t].reserve(2*iters); ++go; while(go<T); vp::Rng g(t+100*vp::seed());
    for(int i=0;i<iters;++i) { int w=tu.get_workspace_idx(m); unsigned long long k=tick++; for(volatile int z=g.below(20);z>0;--z); unsigned long long k2=tick++; tu.release_workspace_idx(m,w); ev[t].push_back({k,t,w,'G'}); ev[t].push_back({k2,t,w,'R'}); } });
  for(auto&x:th) x.join();
  std::vector<Ev> all; for(auto&e:ev) all.insert(all.end(),e.begin(),e.end()); std::sort(all.begin(),all.end(),[](const Ev&a,const Ev&b){return a.k<b.k;});
  for(auto&e:all) { if(e.c=='G') { Rec("Ask").i("t",e.t); Rec("Got").i("t",e.t).i("rank",0).i("w",e.w); } else Rec("Rel").i("t",e.t).i("w",e.w); }
  Rec("End"); }
int main(int argc,char** argv) {
  std::string mode=argv[1]; Kokkos::initialize(argc,argv); int C=Kokkos::OpenMP().concurrency();
  if(C!=8) { fprintf(stderr,"expected 8 threads, got %d\n",C); return 3; }
  vp::Rng g(vp::seed());
  if(mode=="sched") {
    // every interleaving of the scripts (from the specification)
    for(auto& w: vp::script(argv[2])) { std::vector<int> s; for(auto&x:w) { s.push_back(vp::num(x)); } one(4,1,3,1,s,nullptr); }
    // all short schedules of two teams on one slot
    int D=vp::thorough()?12:9; for(int m=0;m<(1<<D);++m) { std::vector<int> s; for(int i=0;i<D;++i) s.push_back((m>>i)&1); one(8,1,2,1,s,nullptr); }
    int K=vp::thorough()?6000:500; for(int k=0;k<K;++k) { int ts=g.pick(std::vector<int>{1,2,4,8}); double ov=g.pick(std::vector<double>{1,1.5,2}); int L=g.range(2,6); std::vector<int> s; int n=g.below(60); int last=0; for(int i=0;i<n;++i) { if(g.below(3)) last=g.below(L); s.push_back(last); } one(ts,ov,L,g.range(1,3),s,&g); }
  } else {
    int I=vp::thorough()?6000:1200; stress(8,I,1,4); stress(8,I,1.5,4); stress(2,I,1,8); stress(3,I,1,4); stress(5,I,1.25,2);
  }
  Kokkos::finalize(); return 0;
}
