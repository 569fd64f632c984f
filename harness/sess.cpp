// A test program: what ran, and with which test arguments. A test fails if it is named by the environment (on the ranks named).
#include <catch2/catch.hpp>
#include "vp.hpp"
#include "ekat_test_utils.hpp"
#ifdef EKAT_ENABLE_MPI
#include <mpi.h>
#endif
using vp::Rec; using std::string; using std::vector;
static bool named(const char* var,const string& x) { const char* e=getenv(var); return e&&(","+string(e)+",").find(","+x+",")!=string::npos; }
static void body(const string& n) {
  auto& ts=ekat::TestSession::get(); Rec r("Ran"); r.t("name",n); int rank=0;
#ifdef EKAT_ENABLE_MPI
  MPI_Comm_rank(MPI_COMM_WORLD,&rank);
#endif
  vector<string> f; for(auto&x:ts.flags) f.push_back(x.first); r.ca("flags",f);
  string q="["; for(auto&x:ts.params) q+=(q.size()>1?",[":"[")+Rec::codes(x.first)+","+Rec::codes(x.second)+"]"; r.raw("params",q+"]");
  q="["; for(auto&x:ts.vec_params) q+=(q.size()>1?",[":"[")+Rec::codes(x.first)+","+Rec::carr(x.second)+"]"; r.raw("vec",q+"]"); r.emit();
  bool fail=named("VP_FAIL",n)&&(!getenv("VP_RANKS")||named("VP_RANKS",std::to_string(rank)));
  const char* how=getenv("VP_HOW"); if(fail&&how&&string(how)=="throw") throw std::runtime_error("failing as asked"); if(fail&&how&&string(how)=="many") { for(int i=0;i<256;++i) CHECK(false); } REQUIRE(!fail); }
TEST_CASE("a") { body("a"); }
TEST_CASE("b") { body("b"); }
TEST_CASE("c") { body("c"); }
