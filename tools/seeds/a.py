import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
CORE=['core/ekat_parameter_list.cpp','core/ekat_string_utils.cpp','core/ekat_arch.cpp']
A=sys.argv[1].split(',') if len(sys.argv)>1 and not sys.argv[1].startswith('-') else None
def M(id,*a,**k):
    if A is None or id in A: mk(id,*a,**k)
M('plist-import','C05',[('src/core/ekat_parameter_list.cpp','''    auto& my_sl = sublist(name);
    my_sl.rename(sl.name());
''','''    auto& my_sl = sublist(name);
    my_sl.rename(sl.name());
    if (sl.m_params.empty()) {
      // Nothing to import at this level
      continue;
    }
''')],'importing a list one of whose sublists holds nothing but sublists','import drops everything nested below a sublist without parameters of its own',
r'''#include "ekat_parameter_list.hpp"
int main() {
  ekat::ParameterList a("a"), b("b");
  b.sublist("mid").sublist("deep").set<int>("x",3);
  b.sublist("other").set<int>("y",1); b.sublist("other").sublist("z").set<int>("w",2);
  a.import(b);
  if (!a.isSublist("mid") || !a.sublist("mid").isSublist("deep")) return 1;
  if (!a.sublist("mid").sublist("deep").isParameter("x") || a.sublist("mid").sublist("deep").get<int>("x")!=3) return 2;
  return a.sublist("other").sublist("z").get<int>("w")==2 ? 0 : 3;
}
''',srcs=CORE)
M('factory-replace','C08',[('src/core/ekat_factory.hpp','''    m_register[key] = creator;
    return true;''','''    m_register.insert(std::make_pair(key,creator));
    return true;''')],'registering a second creator for a key with replace_if_found','the replacement is reported as registered, but the old creator stays',
r'''#include "ekat_factory.hpp"
#include <string>
#include <memory>
struct B { virtual ~B() {} int v=0; };
std::shared_ptr<B> one() { auto p=std::make_shared<B>(); p->v=1; return p; }
std::shared_ptr<B> two() { auto p=std::make_shared<B>(); p->v=2; return p; }
int main() {
  using F=ekat::Factory<B,std::string,std::shared_ptr<B>>;
  auto& f=F::instance();
  if (!f.register_product("k",&one)) return 1;
  if (f.register_product("k",&two)) return 2;
  if (f.create("k")->v!=1) return 3;
  if (!f.register_product("k",&two,true)) return 4;
  return f.create("k")->v==2 ? 0 : 5;
}
''')
M('rat-string10','C13',[('src/core/ekat_rational_constant.hpp','return n>-10 && n<10 ? 1','return n>=-10 && n<=10 ? 1')],'printing a rational whose numerator or denominator is a power of ten','string_repr prints 1/10 as 1/0',
r'''#include "ekat_rational_constant.hpp"
#include <string>
int main() {
  using R=ekat::RationalConstant;
  for (int n=-120;n<=120;++n) for (int d=1;d<=120;++d) {
    R r(n,d); auto s=r.string_repr<32>();
    if (std::string(s.data())!=r.to_string()) return 1;
  }
  return 0;
}
''')
M('logger-share','C17',[('src/logging/ekat_logger.hpp','''    if (not MpiOutputPolicy::should_log(comm)) {
      this->set_level(LogLevel::off);
    } else {
      this->set_level(log_level);
    }''','''    if (not MpiOutputPolicy::should_log(comm)) {
      this->set_level(LogLevel::off);
    } else {
      this->set_level(log_level);
      if (fsink->level()!=LogLevel::off and log_level<fsink->level()) {
        // Make sure our messages are not filtered out
        fsink->set_level(log_level);
      }
    }''')],'a second logger sharing the sinks of a first one, with a lower level than the file sink','creating the second logger lowers the level of the borrowed file sink, so messages of the first one get through that should not',
r'''#include "ekat_logger.hpp"
using namespace ekat::logger;
int main(int c,char** v) {
  MPI_Init(&c,&v);
  int r=0;
  { ekat::Comm comm(MPI_COMM_WORLD);
    Logger<LogBasicFile,LogRootRank> a("a",LogLevel::debug,comm);
    a.set_file_level(LogLevel::err); a.set_console_level(LogLevel::off);
    Logger<LogBasicFile,LogRootRank> b("b",LogLevel::trace,comm,a);
    if (a.file_level()!=LogLevel::err) r=1;
    a.info("not for the file"); b.warn("neither"); b.error("this"); a.flush(); b.flush();
    std::ifstream f(a.get_logfile_name()); std::string l; int n=0; while(std::getline(f,l)) ++n;
    if (n!=1) r=2; }
  MPI_Finalize();
  return r;
}
'''.replace('#include "ekat_logger.hpp"','#include "ekat_logger.hpp"\n#include <fstream>'),mpi=True,srcs=['core/ekat_comm.cpp','core/ekat_arch.cpp'],libs='-lspdlog -lfmt')
M('split-overlap','C10',[('src/core/ekat_string_utils.cpp','''    start = pos + delim.size();
    pos = str.find(delim,start);''','''    start = pos + delim.size();
    pos = str.find(delim,pos+1);''')],'a delimiter that can overlap itself, such as "--" in "a---b"','split finds a delimiter inside the one it just consumed',
r'''#include "ekat_string_utils.hpp"
int main() {
  using V=std::vector<std::string>;
  if (ekat::split("a--b--c","--")!=V{"a","b","c"}) return 1;
  if (ekat::split("a---b","--")!=V{"a","-b"}) return 2;
  if (ekat::split("a----b","--")!=V{"a","","b"}) return 3;
  if (ekat::split("xabababay","aba")!=V{"x","b","y"}) return 4;
  return 0;
}
''',srcs=CORE)
M('ws-reset-next','C01',[('src/kokkos/ekat_workspace_impl.hpp','''  m_next_slot = 0;
  Kokkos::parallel_for(
    Kokkos::TeamVectorRange(m_team, m_parent.m_max_used), [&] (int i) {
      m_parent.init_slot_metadata(m_ws_idx, i);
    });
''','''  Kokkos::parallel_for(
    Kokkos::TeamVectorRange(m_team, m_next_slot), [&] (int i) {
      m_parent.init_slot_metadata(m_ws_idx, i);
    });
  m_team.team_barrier();
  m_next_slot = 0;
''')],'blocks released out of order, then a reset, then several takes','reset only rebuilds the links of the blocks below the next free one, so after out of order releases two later takes get the same block',
r'''#include "ekat_workspace.hpp"
#include "ekat_team_policy_utils.hpp"
#include <set>
int main(int c,char** v) {
  Kokkos::initialize(c,v); int bad=0;
  { using KT=ekat::KokkosTypes<ekat::HostDevice>; using P=Kokkos::TeamPolicy<KT::ExeSpace>;
    P policy(1,1); ekat::WorkspaceManager<double,ekat::HostDevice> wm(8,4,policy);
    Kokkos::parallel_for(policy,[&](const P::member_type& t) {
      auto ws=wm.get_workspace(t);
      auto a=ws.take("a"), b=ws.take("b"), d=ws.take("d");
      ws.release(a); ws.release(d); ws.release(b);
      ws.reset();
      std::set<const double*> s; 
      for (auto n : {"p","q","r","s"}) s.insert(ws.take(n).data());
      if (s.size()!=4) bad=1; ws.reset();
    }); }
  Kokkos::finalize();
  return bad;
}
''',kokkos=True,srcs=['core/ekat_arch.cpp'])
M('comm-gather-inplace','C15',[('src/core/ekat_comm.hpp','''  MPI_Allgather(MPI_IN_PLACE, 0, MPI_DATATYPE_NULL,
                inout_vals,count,mpi_type,
                m_mpi_comm);''','''  MPI_Allgather(inout_vals,count,mpi_type,
                inout_vals,count,mpi_type,
                m_mpi_comm);''')],'the in-place all_gather on more than one rank, with contributions that differ','every rank contributes the first block of its buffer, rather than the block of its rank',
r'''#include "ekat_comm.hpp"
#include <vector>
int main(int c,char** v) {
  MPI_Init(&c,&v); MPI_Comm_set_errhandler(MPI_COMM_WORLD,MPI_ERRORS_RETURN);
  int r=0;
  { ekat::Comm comm(MPI_COMM_WORLD); const int n=2; std::vector<int> x(n*comm.size(),-7);
    for (int i=0;i<n;++i) x[n*comm.rank()+i]=100*comm.rank()+i;
    comm.all_gather(x.data(),n);
    for (int k=0;k<comm.size();++k) for (int i=0;i<n;++i) if (x[n*k+i]!=100*k+i) r=1; }
  MPI_Finalize(); return r;
}
''',mpi=True,srcs=['core/ekat_comm.cpp','core/ekat_arch.cpp'],run='mpiexec --oversubscribe --bind-to none -n 3 "$T/demo"')
M('jaro-window','C12',[('src/core/ekat_string_utils.cpp','const int max_dist = std::max(len1,len2)/2 - 1;','const int max_dist = (std::max(len1,len2)-1)/2;')],'words whose longer one has odd length differ from those of even length: a match exactly one position beyond the window','letters one position too far apart count as matches',
r'''#include "ekat_string_utils.hpp"
#include <cmath>
int main() {
  // longest is 5: window is 1, so the two c are too far apart
  if (std::fabs(ekat::jaro_similarity("abxyc","abcpq")-(2.0/5+2.0/5+1.0)/3)>1e-12) return 1;
  if (std::fabs(ekat::jaro_similarity("xayzwqv","bcdaefg")-(1.0/7+1.0/7+1.0)/3)>1e-12) return 2;
  return 0;
}
''',srcs=CORE)
M('yaml-seq-mixed','C06',[('src/parser/ekat_yaml.cpp','''      // A double can also be written as an int
      ok = ok or entries.isType<int>(key);''','''      // A double can also be written as an int
      ok = ok or (i>0 and entries.isType<int>(key));''')],'x','x','int main() { return 0; }') if False else None
