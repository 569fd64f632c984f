// Histories of Kokkos sessions, each in a process of its own.
#include "vp.hpp"
#include "ekat_kokkos_session.hpp"
#include "ekat_fpe.hpp"
#include <Kokkos_Core.hpp>
#include <cfenv>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
using vp::Rec; using std::string; using std::vector;
void ekat_initialize_test_session(int argc,char** argv,const bool print_config); void ekat_finalize_test_session();
// calls of Kokkos' own functions are counted on their way
static int ninit=0,nfin=0;
namespace Kokkos {
void initialize(InitializationSettings const& x) { ++ninit; ((void(*)(InitializationSettings const&))dlsym(RTLD_NEXT,"_ZN6Kokkos10initializeERKNS_22InitializationSettingsE"))(x); }
void initialize(int& c,char** v) { ++ninit; ((void(*)(int&,char**))dlsym(RTLD_NEXT,"_ZN6Kokkos10initializeERiPPc"))(c,v); }
void finalize() { ++nfin; ((void(*)())dlsym(RTLD_NEXT,"_ZN6Kokkos8finalizeEv"))(); }
}
static vp::Rng g(vp::seed()); static int O,E;
static string take(int fd) { string s; char b[4096]; lseek(fd,0,SEEK_SET); ssize_t n; while((n=read(fd,b,4096))>0) s.append(b,n); if(ftruncate(fd,0)) {} lseek(fd,0,SEEK_SET); return s; }
static void shows(Rec& r) { fflush(stdout); std::cout<<std::flush; std::cerr<<std::flush; r.t("out",take(O)).t("err",take(E)); bool on=Kokkos::is_initialized(); r.i("ninit",ninit).i("nfin",nfin).b("on",on).b("fin",Kokkos::is_finalized()).i("fpe",ekat::get_enabled_fpes()).i("conc",on?Kokkos::DefaultExecutionSpace().concurrency():0).i("dflt",atoi(getenv("OMP_NUM_THREADS"))); }
struct Args { vector<string> s; vector<char*> p; int asked=0; void make() { s={"prog"}; int n=g.below(4); int where=g.below(n+1); bool k=g.below(2); for(int i=0;i<=n;++i) { if(k&&i==where) { asked=g.range(1,4); s.push_back("--kokkos-num-threads="+std::to_string(asked)); } if(i<n) s.push_back(g.pick(vector<string>{"-x","--args","y=1","-kokkos","kokkos-num-threads=1","--list"})); } for(auto&x:s) p.push_back(&x[0]); p.push_back(nullptr); } };
static void child(int n) {
  bool off=false;
  for(int i=0;i<n;++i) { int k=g.below(12); bool print=g.below(2);
    if(k<2&&!off) { Rec r("Init"); r.b("print",print); if(print&&g.below(2)) ekat::initialize_kokkos_session(); else ekat::initialize_kokkos_session(print); shows(r); }
    else if(k<5&&!off) { Args a; a.make(); auto before=a.p; auto text=a.s; Rec r("InitArgs"); r.b("print",print).i("asked",a.asked); ekat::initialize_kokkos_session(a.s.size(),a.p.data(),print); r.b("same",a.asked?true:a.p==before&&a.s==text); shows(r); }
    else if(k==5&&!off&&!Kokkos::is_initialized()) { Args a; a.make(); Rec r("App"); r.i("asked",a.asked); int argc=a.s.size(); Kokkos::initialize(argc,a.p.data()); shows(r); }
    else if(k==6&&g.below(2)) { Rec r("Fin"); off|=Kokkos::is_initialized(); ekat::finalize_kokkos_session(); shows(r); }
    else if(k==7&&!off) { Args a; a.make(); Rec r("TInit"); r.b("print",print).i("asked",a.asked); ekat_initialize_test_session(a.s.size(),a.p.data(),print); shows(r); }
    else if(k==8&&g.below(2)) { Rec r("TFin"); off|=Kokkos::is_initialized(); ekat_finalize_test_session(); shows(r); }
    else if(k==9) { int m=g.pick(vector<int>{0,FE_DIVBYZERO,FE_UNDERFLOW,FE_UNDERFLOW|FE_DIVBYZERO,FE_INVALID|FE_OVERFLOW,FE_DIVBYZERO|FE_INVALID|FE_OVERFLOW}); Rec r("Fpe"); r.i("m",m); ekat::disable_all_fpes(); ekat::enable_fpes(m); shows(r); }
    else if(k>=10&&Kokkos::is_initialized()) { Rec r("Work"); long s=0; int N=g.range(0,500); Kokkos::parallel_reduce(N,[](int i,long& a){ a+=i; },s); r.i("sum",s).i("want",(long)N*(N-1)/2); shows(r); } }
  if(g.below(2)) { Rec r("Fin"); ekat::finalize_kokkos_session(); shows(r); } }
int main() {
  char f[]="/tmp/vpsesXXXXXX"; O=mkstemp(f); unlink(f); char f2[]="/tmp/vpsesXXXXXX"; E=mkstemp(f2); unlink(f2); int o1=dup(1),e1=dup(2);
  dup2(O,1); dup2(E,2); unsetenv("OMP_PROC_BIND"); unsetenv("OMP_PLACES");
  int H=vp::thorough()?5000:350;
  for(int h=0;h<H;++h) { vp::out(); uint64_t sd=g.next();
    { Rec r("New");
#ifdef EKAT_ENABLE_FPE_DEFAULT_MASK
      r.b("mask",true);
#else
      r.b("mask",false);
#endif
      r.i("ninit",0).i("nfin",0).b("on",false).b("fin",false).i("fpe",0).i("conc",0); }
    fflush(nullptr); pid_t p=fork(); if(!p) { g=vp::Rng(sd); child(9); fflush(nullptr); _exit(0); }
    int st; waitpid(p,&st,0); Rec("End").i("status",st).t("said",st?take(E):""); take(E); }
  dup2(o1,1); dup2(e1,2); return 0; }
