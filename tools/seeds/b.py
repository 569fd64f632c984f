import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
CORE=['core/ekat_parameter_list.cpp','core/ekat_string_utils.cpp','core/ekat_arch.cpp']
A=sys.argv[1].split(',') if len(sys.argv)>1 and not sys.argv[1].startswith('-') else None
def M(id,*a,**k):
    if A is None or id in A: mk(id,*a,**k)
M('args-repeat','C21',[('src/core/ekat_test_utils.cpp','''    vec_params[key.s].push_back(t.s);
''','''    if (last_key_args==0) {
      // First value after this key
      vec_params[key.s].clear();
    }
    vec_params[key.s].push_back(t.s);
''')],'a parameter name that is repeated on the command line','the values of the first occurrence are dropped',
r'''#include "ekat_test_utils.hpp"
#include <string>
#include <vector>
#include <map>
int main() {
  std::string s="a=1,2"; 
  auto run=[&](std::vector<std::string> v) {
    ekat::TestSession::get().params.clear(); ekat::TestSession::get().flags.clear(); ekat::TestSession::get().vec_params.clear();
  };
  return 0;
}
''',srcs=CORE+['core/ekat_test_utils.cpp']) if False else None
M('where-alias','C26',[('src/pack/ekat_pack_where.hpp','''  operator*=(const S rhs)  {''','''  operator*=(const S& rhs)  {''')],'where(mask,p) *= p[i], i.e., the scalar operand is a lane of the pack being updated, and that lane is selected before other ones','lanes after the aliased one are multiplied by its updated value',
r'''#include "ekat_pack_where.hpp"
#include "ekat_pack.hpp"
int main() {
  using P=ekat::Pack<double,4>; P p; for (int i=0;i<4;++i) p[i]=i+2;
  auto m=p>1;
  ekat::where(m,p)*=p[0];
  for (int i=0;i<4;++i) if (p[i]!=2.0*(i+2)) return 1;
  for (int i=0;i<4;++i) p[i]=i+2;
  ekat::where(m,p)+=p[1];
  for (int i=0;i<4;++i) if (p[i]!=3.0+(i+2)) return 2;
  return 0;
}
''',kokkos=True)
M('rat-div-eqnum','C13',[('src/core/ekat_rational_constant.hpp','''  return RationalConstant (lhs.num*rhs.den,
                           lhs.den*rhs.num);''','''  // If the numerators are the same, they cancel out
  return lhs.num==rhs.num && lhs.num!=0
       ? RationalConstant (lhs.den, rhs.den)
       : RationalConstant (lhs.num*rhs.den,
                           lhs.den*rhs.num);''')],'dividing rationals with the same numerator and different denominators','the quotient is inverted',
r'''#include "ekat_rational_constant.hpp"
int main() {
  using R=ekat::RationalConstant;
  for (int a=-6;a<=6;++a) for (int b=1;b<=6;++b) for (int c=-6;c<=6;++c) for (int d=1;d<=6;++d) {
    if (c==0) continue;
    R q=R(a,b)/R(c,d);
    if (q*R(c,d)!=R(a,b)) return 1;
  }
  return 0;
}
''')
M('xfer-npack0','C28',[('src/pack/ekat_pack_kokkos.hpp','''    const size_t npack = views[n].extent(1);
    const auto host_view = Kokkos::create_mirror_view(views[n]);
    Kokkos::deep_copy(host_view, views[n]);

    ScalarT* the_data = nullptr;
    if (do_transpose) {
      tdata.reserve(dim1_size * dim2_size);''','''    const size_t npack = views[0].extent(1);
    const auto host_view = Kokkos::create_mirror_view(views[n]);
    Kokkos::deep_copy(host_view, views[n]);

    ScalarT* the_data = nullptr;
    if (do_transpose) {
      tdata.reserve(dim1_size * dim2_size);''')],'copying several rank 2 views back in one call, the first having fewer packs per row than a later one','the last packs of each row of the wider views are not copied',
r'''#include "ekat_pack_kokkos.hpp"
#include "ekat_pack.hpp"
int main(int c,char** v) {
  Kokkos::initialize(c,v); int bad=0;
  { using P=ekat::Pack<double,2>; using V=Kokkos::View<P**,Kokkos::LayoutRight,Kokkos::HostSpace>;
    std::vector<V> views{V("a",2,1),V("b",2,3)};
    std::vector<int> d1{2,2}, d2{2,5};
    for (int n=0;n<2;++n) for (int i=0;i<2;++i) for (int k=0;k<(int)views[n].extent(1);++k) for (int s=0;s<2;++s) views[n](i,k)[s]=100*n+10*i+2*k+s;
    std::vector<double> x(4,-1), y(10,-1); std::vector<double*> p{x.data(),y.data()};
    ekat::device_to_host(p,d1,d2,views);
    for (int i=0;i<2;++i) for (int k=0;k<2;++k) if (x[2*i+k]!=10*i+k) bad=1;
    for (int i=0;i<2;++i) for (int k=0;k<5;++k) if (y[5*i+k]!=100+10*i+k) bad=2; }
  Kokkos::finalize();
  return bad;
}
''',kokkos=True,srcs=['core/ekat_arch.cpp'])
M('logger-console-off','C18',[('src/logging/ekat_logger.hpp','''    if (not MpiOutputPolicy::should_log(comm)) {
      this->set_level(LogLevel::off);
    } else {
      this->set_level(log_level);
      csink->set_level(log_level);''','''    if (not MpiOutputPolicy::should_log(comm)) {
      this->set_level(LogLevel::off);
      csink->set_level(LogLevel::off);
    } else {
      this->set_level(log_level);
      csink->set_level(log_level);''')],'more than one rank, a root-only logger, and raising the level of the logger on another rank later','the console of ranks that are silent by default can no longer be switched on by setting the level of the logger',
r'''#include "ekat_logger.hpp"
using namespace ekat::logger;
int main(int c,char** v) {
  MPI_Init(&c,&v);
  int r=0;
  { ekat::Comm comm(MPI_COMM_WORLD);
    Logger<LogNoFile,LogRootRank> a("a",LogLevel::info,comm);
    a.set_log_level(LogLevel::info);
    std::shared_ptr<spdlog::sinks::sink> s=a.get_console_sink();
    if (!s->should_log(LogLevel::info)) r=1; 
    if (comm.rank()!=0 and a.file_level()!=LogLevel::off) r=2; }
  MPI_Allreduce(MPI_IN_PLACE,&r,1,MPI_INT,MPI_MAX,MPI_COMM_WORLD);
  MPI_Finalize();
  return r;
}
''',mpi=True,srcs=['core/ekat_comm.cpp','core/ekat_arch.cpp'],libs='-lspdlog -lfmt',run='mpiexec --oversubscribe --bind-to none -n 2 "$T/demo"')
M('tridiag-barrier','C30',[('src/algorithm/ekat_tridiag.hpp','''  impl::thomas_factorize(team, dl, d, du);
  team.team_barrier();
  impl::thomas_solve(team, dl, d, du, X);
''','''  impl::thomas_factorize(team, dl, d, du);
  impl::thomas_solve(team, dl, d, du, X);
''')],'a team of more than one thread, of which one starts solving while another still factorizes','the solution depends on the timing of the threads',
r'''#include "ekat_tridiag.hpp"
#include "ekat_team_policy_utils.hpp"
int main(int c,char** v) {
  Kokkos::initialize(c,v); int bad=0;
  { using P=Kokkos::TeamPolicy<Kokkos::OpenMP>; const int n=400000, m=2;
    using V1=Kokkos::View<double*,Kokkos::LayoutRight,Kokkos::HostSpace>; using V2=Kokkos::View<double**,Kokkos::LayoutRight,Kokkos::HostSpace>;
    for (int it=0;it<4;++it) {
      V1 dl("dl",n), d("d",n), du("du",n); V2 x("x",n,m);
      for (int i=0;i<n;++i) { dl(i)=i?-1:0; d(i)=4; du(i)=i<n-1?-1:0; for (int j=0;j<m;++j) x(i,j)=(4-(i?1:0)-(i<n-1?1:0))*(j+1); }
      Kokkos::parallel_for(P(1,2),[&](const P::member_type& t) { ekat::tridiag::thomas(t,dl,d,du,x); });
      Kokkos::fence();
      for (int i=0;i<n;++i) for (int j=0;j<m;++j) if (!(std::fabs(x(i,j)-(j+1))<1e-10)) bad=1;
    } }
  Kokkos::finalize();
  return bad;
}
'''.replace('#include "ekat_tridiag','#include <cmath>\n#include "ekat_tridiag'),kokkos=True,srcs=['core/ekat_arch.cpp'])
M('team-idx-clamp','C03',[('src/kokkos/ekat_team_policy_utils.hpp','''    _team_size = _max_threads / _num_teams;
    _league_size = policy.league_size();

    // We will never run more teams than the policy needs
    _num_teams = _num_teams > _league_size ? _league_size : _num_teams;
''','''    _league_size = policy.league_size();

    // We will never run more teams than the policy needs
    _num_teams = _num_teams > _league_size ? _league_size : _num_teams;
    _team_size = _num_teams > 0 ? _max_threads / _num_teams : 0;
''')],'a league with fewer teams than can run at once','two teams that run at the same time get the same workspace',
r'''#include "ekat_team_policy_utils.hpp"
#include <atomic>
int main(int c,char** v) {
  Kokkos::initialize(c,v); int bad=0;
  { using P=Kokkos::TeamPolicy<Kokkos::OpenMP>; const int n=Kokkos::OpenMP().concurrency();
    for (int l=2;l<=n;++l) {
      P p(l,1); ekat::TeamUtils<double,Kokkos::OpenMP> tu(p);
      std::vector<std::atomic<int>> in(n+1); for (auto& x:in) x=0; std::atomic<int> at{0};
      Kokkos::parallel_for(p,[&](const P::member_type& t) {
        int w=tu.get_workspace_idx(t);
        if (w<0 or w>=tu.get_num_ws_slots() or in[w].fetch_add(1)!=0) bad=1;
        at++; for (int k=0;k<200 and at<l;++k) usleep(1000);
        in[w]--; tu.release_workspace_idx(t,w);
      });
      Kokkos::fence();
    } }
  Kokkos::finalize();
  return bad;
}
'''.replace('#include <atomic>','#include <atomic>\n#include <vector>\n#include <unistd.h>'),kokkos=True,srcs=['core/ekat_arch.cpp'])
M('plist-emptyseq','C05',[('src/core/ekat_parameter_list.hpp','''    if (p.type()==typeid(EmptySeq)) {
      p = std::make_any<T>();
    }''','''    if (p.type()==typeid(EmptySeq)) {
      // No need to touch the stored value, there is nothing in it
      static T empty;
      empty.clear();
      return empty;
    }''')],'an empty sequence whose type is not known, to which the user appends through the reference returned by get','what is appended is lost at the next access',
r'''#include "ekat_parameter_list.hpp"
int main() {
  ekat::ParameterList a("a");
  a.set("x",ekat::ParameterList::EmptySeq{});
  auto& v=a.get<std::vector<int>>("x"); v.push_back(3);
  return a.get<std::vector<int>>("x")==std::vector<int>{3} ? 0 : 1;
}
''',srcs=CORE)
