// Histories of enabling and disabling floating point traps, with operations that signal, in several threads.
#include "vp.hpp"
#include "ekat_fpe.hpp"
#include <cfenv>
#include <cfloat>
#include <thread>
#include <functional>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
using vp::Rec; using std::string; using std::vector;
static vp::Rng g(vp::seed()); static long ops=0;
static void says(Rec& r) { int m=ekat::get_enabled_fpes(); string s=ekat::fpe_config_string(); bool nl=!s.empty()&&s.back()=='\n'; if(nl) s.pop_back(); vector<string> v; std::stringstream ss(s); string x; while(std::getline(ss,x,'|')) { size_t a=x.find_first_not_of(" "),b=x.find_last_not_of(" "); v.push_back(a==string::npos?"":x.substr(a,b-a+1)); } r.i("mask",m).b("nl",nl).sa("text",v); }
template<class T> static T operate(int k,T tiny,T huge) { volatile T zero=0,one=1,three=3,t=tiny,h=huge,r=0; switch(k) { case 0: r=zero/zero; break; case 1: r=one/zero; break; case 2: r=h*h; break; case 3: r=t*t; break; case 4: r=one/three; break; case 5: r=std::sqrt(T(-one)); break; case 6: r=one+one; break; default: r=h/h; } return r; }
static const char* OPS[]={"zero/zero","one/zero","huge*huge","tiny*tiny","one/three","sqrt(-1)","one+one","huge/huge"};
static void go(int k,int ty) { if(ty==0) operate<double>(k,DBL_MIN,DBL_MAX); else if(ty==1) operate<float>(k,FLT_MIN,FLT_MAX); else operate<long double>(k,LDBL_MIN,LDBL_MAX); if(ty==2) { volatile long double a=1,b=a+a; (void)b; } }
static int rmask() { static const int B[]={FE_INVALID,FE_DIVBYZERO,FE_OVERFLOW,FE_UNDERFLOW,FE_INEXACT}; int m=0,n=g.below(4); if(n==3&&g.below(4)==0) return FE_ALL_EXCEPT; for(int i=0;i<=n;++i) m|=B[g.below(5)]; return g.below(12)?m:0; }
static void hist(int n,int depth) {
  for(int i=0;i<n;++i) { int k=g.below(10);
    if(k<3) { int m=rmask(); Rec r("Enable"); r.i("m",m); ekat::enable_fpes(m); says(r); }
    else if(k<5) { int m=rmask(); Rec r("Disable"); r.i("m",m); ekat::disable_fpes(m); says(r); }
    else if(k==5) { if(g.below(3)) continue; Rec r("DisableAll"); ekat::disable_all_fpes(); says(r); }
    else if(k==6&&depth>0) { std::thread t([&]{ { Rec r("Start"); says(r); } hist(6,depth-1); }); t.join(); Rec r("Join"); says(r); }
    else { int op=g.below(8),ty=g.below(3); if(ty==2&&op==4&&false) op=0; fflush(nullptr); Rec r("Op"); pid_t p=fork(); if(!p) { go(op,ty); _exit(0); } int st; waitpid(p,&st,0); int sig=WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st)?100:0; r.t("op",OPS[op]).i("ty",ty).i("sig",sig);
      // not trapped: leave the flag raised for what comes next
      if(!sig) go(op,ty); says(r); } } }
int main() {
#ifdef VP_ONCE
  int H=150;
#else
  int H=vp::thorough()?6000:600;
#endif
  for(int h=0;h<H;++h) { ekat::disable_all_fpes(); fedisableexcept(FE_ALL_EXCEPT); feclearexcept(FE_ALL_EXCEPT); { Rec r("New"); says(r); } hist(14,2); }
  return 0; }
