// Random programs of checks, objects with destructors, handlers and exceptions, run for real.
#include "vp.hpp"
#include "ekat_assert.hpp"
#include <Kokkos_Core.hpp>
#include "ekat_kernel_assert.hpp"
#include <thread>
#include <mutex>
#include <atomic>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
using std::string; using std::vector; using vp::Rec;
struct Own { string t; };
struct StrErr { string t; StrErr(const string& s):t(s) {} };
struct DefErr { };
struct Other { explicit Other(int) {} };
// what appears on stderr, per thread
struct TBuf : std::streambuf { static thread_local string s; int overflow(int c) override { if(c!=EOF) s+=(char)c; return c; } std::streamsize xsputn(const char* p,std::streamsize n) override { s.append(p,n); return n; } };
thread_local string TBuf::s;
struct Node { enum K{CHECK,SCOPE,TRY,THROW,RETHROW} k; int kind=0; bool val=true; string text; vector<Node> a,b; };
struct Ctx { string rec; vp::Rng g; int evals=0,msgs=0,other=0; vector<Node> prog; explicit Ctx(uint64_t s):g(s) {} };
static thread_local Ctx* X;
static void put(Rec& r) { r.done=true; X->rec+=r.s+"}\n"; }
static bool cond(bool v) { X->evals++; return v; }
static const char* condp(bool v) { X->evals++; return v?"x":nullptr; }
static int condi(bool v) { X->evals++; return v?-3:0; }
static const string& say(const string& s) { X->msgs++; return s; }
static const int NK=16;
#define RUN(K,CALL,COND) case K: line=__LINE__; text=#COND; CALL; break;
static void check(const Node& n) {
  bool v=n.val; int line=0; string text; X->evals=X->msgs=X->other=0; TBuf::s.clear(); const string& m=n.text; string out="on",type,what;
  auto rec=[&]{ Rec r("Check"); r.i("kind",n.kind).b("val",v).t("msg",m).t("cond",text).i("evals",X->evals).i("msgs",X->msgs).i("other",X->other).t("out",out).t("type",type).t("what",what).t("err",TBuf::s).t("place","chk.cpp:"+std::to_string(line)); put(r); };
  try { switch(n.kind) {
    RUN(0,EKAT_REQUIRE(cond(v)),cond(v))
    RUN(1,EKAT_REQUIRE(cond(v),say(m)),cond(v))
    RUN(2,EKAT_REQUIRE(cond(v),say(m),std::logic_error),cond(v))
    RUN(3,EKAT_REQUIRE(cond(v),say(m),StrErr),cond(v))
    RUN(4,EKAT_REQUIRE(cond(v),say(m),DefErr),cond(v))
    RUN(5,EKAT_REQUIRE(cond(v),say(m),Other),cond(v))
    RUN(6,EKAT_REQUIRE_MSG(cond(v),say(m)<<" n="<<42<<'!'),cond(v))
    RUN(7,EKAT_ERROR_MSG(say(m)),false)
    RUN(8,EKAT_ASSERT(cond(v)),cond(v))
    RUN(9,EKAT_ASSERT_MSG(cond(v),say(m)),cond(v))
    RUN(10,EKAT_REQUIRE_MSG(v || cond(v),say(m)),v || cond(v))
    RUN(11,if(v||true) EKAT_REQUIRE_MSG(cond(v),say(m)); else ++X->other,cond(v))
    RUN(12,EKAT_REQUIRE_MSG(condp(v),say(m)),condp(v))
    RUN(13,EKAT_REQUIRE_MSG(condi(v),say(m)),condi(v))
    RUN(14,if(!v&&false) EKAT_ASSERT_MSG(cond(v),say(m)); else ++X->other,cond(v))
    RUN(15,EKAT_REQUIRE_MSG(cond(v) == true,say(m)),cond(v) == true)
  } }
  catch(const std::logic_error& e) { out="throw"; type="logic"; what=e.what(); rec(); throw; }
  catch(const std::runtime_error& e) { out="throw"; type=typeid(e)==typeid(std::runtime_error)?"runtime":"derived"; what=e.what(); rec(); throw; }
  catch(const StrErr& e) { out="throw"; type="str"; what=e.t; rec(); throw; }
  catch(const DefErr& e) { out="throw"; type="def"; rec(); throw; }
  catch(const Other& e) { out="throw"; type="other"; rec(); throw; }
  catch(...) { out="throw"; type="?"; rec(); throw; }
  rec();
}
static void run(const vector<Node>& p);
struct Guard { const vector<Node>& d; ~Guard() noexcept(false) { { Rec r("Dtor"); put(r); } run(d); { Rec r("EndDtor"); put(r); } } };
static void one(const Node& n) {
  switch(n.k) {
    case Node::CHECK: check(n); break;
    case Node::THROW: { Rec r("Throw"); r.t("what",n.text); put(r); } throw Own{n.text};
    case Node::RETHROW: { Rec r("Rethrow"); put(r); } throw;
    case Node::SCOPE: { { Rec r("Scope"); put(r); } Guard g{n.b}; run(n.a); } break;
    case Node::TRY: { Rec r("Try"); put(r); }
      {
      auto handler=[&](const string& type,const string& what){ { Rec r("Catch"); r.t("type",type).t("what",what); put(r); } run(n.b); { Rec r("EndCatch"); put(r); } };
      try { run(n.a); Rec r("EndTry"); put(r); }
      catch(const Own& e) { handler("own",e.t); } catch(const std::logic_error& e) { handler("logic",e.what()); } catch(const std::runtime_error& e) { handler("runtime",e.what()); }
      catch(const StrErr& e) { handler("str",e.t); } catch(const DefErr&) { handler("def",""); } catch(const Other&) { handler("other",""); } }
  } }
static void run(const vector<Node>& p) { for(auto&n:p) one(n); }
static int own=0;
static string text(vp::Rng& g) { int k=g.below(8); string s="m"+std::to_string(g.below(1000)); if(k==0) return ""; if(k==1) return s+" %s %d '\"\\"; if(k==2) return s+"\nsecond line\n"; if(k==3) return s+string(g.range(100,900),'y')+"end"; return s; }
// can: an exception may leave this place; handler: rethrow is possible here
static vector<Node> gen(vp::Rng& g,int depth,bool can,bool handler) {
  vector<Node> r; int n=g.below(4);
  for(int i=0;i<n;++i) { Node x; int k=g.below(10);
    if(k<4||depth==0) { x.k=Node::CHECK; x.kind=g.below(NK); x.val=g.below(5)<3; if(x.kind==7) x.val=false; x.text=text(g); }
    else if(k<6) { x.k=Node::SCOPE; x.a=gen(g,depth-1,can,handler); x.b=gen(g,depth-1,false,false); }
    else if(k<8) { x.k=Node::TRY; x.a=gen(g,depth-1,true,handler); x.b=gen(g,depth-1,can,can); }
    else if(k==8&&can) { x.k=Node::THROW; x.text="o"+text(g); }
    else if(k==9&&can&&handler) x.k=Node::RETHROW;
    else continue;
    r.push_back(x); }
  return r; }
static string history(uint64_t seed,bool fixed) {
  Ctx c(seed); string rec;
  std::thread t([&]{ X=&c;
    for(int p=0;p<4;++p) { Node x; x.k=Node::TRY; x.a=gen(c.g,5,true,false); { Rec r(p?"Again":"New"); 
#ifdef NDEBUG
      r.b("debug",false);
#else
      r.b("debug",true);
#endif
      put(r); }
      one(x); } rec=c.rec; });
  t.join(); return rec; }
static void kernel(vp::Rng& g) {
  // a failing check in a kernel stops the program: run in a child
  int kind=g.below(5); bool v=g.below(2); if(kind==4) v=false; string m=text(g); Rec r("Kernel"); r.i("kind",kind).b("val",v).t("msg",m);
  char f[]="/tmp/vpchkXXXXXX"; int fd=mkstemp(f); unlink(f); fflush(nullptr); int line=0; string txt;
  pid_t pid=fork(); if(!pid) { rlimit z{0,0}; setrlimit(RLIMIT_CORE,&z); dup2(fd,1); dup2(fd,2); Ctx c(1); X=&c; 
    auto k=[&](int kk){ switch(kk) { case 0: EKAT_KERNEL_REQUIRE(cond(v)); break; case 1: EKAT_KERNEL_REQUIRE_MSG(cond(v),m.c_str()); break; case 2: EKAT_KERNEL_ASSERT(cond(v)); break; case 3: EKAT_KERNEL_ASSERT_MSG(cond(v),m.c_str()); break; default: EKAT_KERNEL_ERROR_MSG(m.c_str()); } };
    // output of stdio is still in the buffer when the program aborts
    setvbuf(stdout,nullptr,_IONBF,0);
    k(kind); _exit(c.evals==1?0:c.evals==0?7:8); }
  int st; waitpid(pid,&st,0); string out; char buf[4096]; lseek(fd,0,SEEK_SET); ssize_t n; while((n=read(fd,buf,4096))>0) out.append(buf,n); close(fd);
  r.t("out",out).i("abrt",WIFSIGNALED(st)?WTERMSIG(st):0).i("code",WIFEXITED(st)?WEXITSTATUS(st):-1);
#ifdef NDEBUG
  r.b("debug",false);
#else
  r.b("debug",true);
#endif
}
int main() {
  TBuf b; auto old=std::cerr.rdbuf(&b); vp::Rng g(vp::seed());
  int H=vp::thorough()?20000:1200;
  // three threads at a time
  for(int h=0;h<H;h+=3) { string r[3]; std::thread t[3]; for(int i=0;i<3;++i) t[i]=std::thread([&,i]{ r[i]=history(vp::seed()*100003+h+i,false); }); for(auto&x:t) x.join(); for(auto&x:r) { fputs(x.c_str(),vp::out()); } fflush(vp::out()); }
  for(int i=0;i<(vp::thorough()?300:60);++i) kernel(g);
  std::cerr.rdbuf(old); return 0; }
