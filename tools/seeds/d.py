import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
A=sys.argv[1].split(',') if len(sys.argv)>1 and not sys.argv[1].startswith('-') else None
def M(id,*a,**k):
    if A is None or id in A: mk(id,*a,**k)
CORE=['core/ekat_parameter_list.cpp','core/ekat_string_utils.cpp','core/ekat_arch.cpp']
M('rat-digits','C13',[('src/core/ekat_rational_constant.hpp','    iType ten_pow = 1;','    int ten_pow = 1;')],'a numerator or denominator of more than 10 digits, printed','the power of ten of the leading digits wraps around: wrong digits',
r'''#include "ekat_rational_constant.hpp"
#include "ekat_units.hpp"
#include <string>
#include <iostream>
int main() {
  using namespace ekat; int bad=0;
  constexpr RationalConstant a(123456789012L,7L), b(-98765432109876L,1L), c(3,4);
  if (std::string(a.string_repr<64>().data())!="123456789012/7") bad=1;
  if (std::string(b.string_repr<64>().data())!="-98765432109876") bad=2;
  if (std::string(c.string_repr<64>().data())!="3/4") bad=3;
  return bad;
}
''')
M('chk-rewarn','C19',[('src/core/ekat_assert.hpp','  unwind_warning_issued = false;\n  if constexpr','  if constexpr')],'a suppressed error while unwinding, then a regular error, then another one suppressed while unwinding','the second suppressed error is not reported',
r'''#include "ekat_assert.hpp"
#include <sstream>
#include <iostream>
struct D { const char* m; ~D() noexcept(false) { EKAT_REQUIRE_MSG(false,m); } };
int main() {
  std::stringstream ss; auto* o=std::cerr.rdbuf(ss.rdbuf()); int caught=0;
  for (const char* m : {"first one","second one"}) { try { D d{m}; EKAT_REQUIRE_MSG(1+1==3,"outer"); } catch (std::runtime_error&) { ++caught; } }
  std::cerr.rdbuf(o); auto s=ss.str();
  return caught==2 && s.find("first one")!=std::string::npos && s.find("second one")!=std::string::npos ? 0 : 1;
}
''')
M('fpe-stale','C20',[('src/core/ekat_fpe.cpp','''  feclearexcept(mask);

  // Set the new mask''','''  if (get_enabled_fpes()==0) feclearexcept(mask);

  // Set the new mask''')],'an exception flag raised while another exception is already enabled, and then enabled','the stale flag traps at the next x87 operation',
r'''#include "ekat_fpe.hpp"
#include <cfenv>
int main() {
  feclearexcept(FE_ALL_EXCEPT); ekat::disable_all_fpes();
  ekat::enable_fpes(FE_INVALID);
  feraiseexcept(FE_DIVBYZERO);
  ekat::enable_fpes(FE_DIVBYZERO);
  if (fetestexcept(FE_DIVBYZERO)) return 1;
  if (ekat::get_enabled_fpes()!=(FE_INVALID|FE_DIVBYZERO)) return 2;
  return 0;
}
''',srcs=['core/ekat_fpe.cpp'])
M('weak-lock','C23',[('src/core/ekat_std_utils.hpp','    return p.owner_before(q);','    return p.lock()<q.lock();')],'weak pointers whose objects have died, or that share an owner','expired entries of a set of weak pointers all look alike',
r'''#include "ekat_std_utils.hpp"
#include <memory>
#include <set>
int main() {
  ekat::WeakPtrSet<int> s; auto a=std::make_shared<int>(1), b=std::make_shared<int>(2), c=std::make_shared<int>(3);
  std::weak_ptr<int> wa(a), wb(b), wc(c); s.insert(wa); s.insert(wb); a.reset(); b.reset();
  if (s.size()!=2) return 1;
  if (!s.count(wa)||!s.count(wb)||s.count(wc)) return 2;
  s.erase(wa); if (s.size()!=1||s.count(wa)||!s.count(wb)) return 3;
  return 0;
}
''')
M('session-last-arg','C22',[('src/kokkos/ekat_kokkos_session.cpp','for (int n=0; n<argc; ++n)','for (int n=1; n<argc-1; ++n)')],'the only argument for Kokkos is the last one','the argument is ignored',
r'''#include "ekat_kokkos_session.hpp"
#include <Kokkos_Core.hpp>
int main() {
  char a0[]="prog", a1[]="x", a2[]="--kokkos-num-threads=2"; char* v[]={a0,a1,a2,nullptr};
  ekat::initialize_kokkos_session(3,v,false); int n=Kokkos::OpenMP().concurrency(); ekat::finalize_kokkos_session();
  return n==2 ? 0 : 1;
}
''',srcs=['kokkos/ekat_kokkos_session.cpp'],kokkos=True,shim=True)
M('cd-dimless','C14',[('src/core/ekat_units.hpp','           m_units[6].num==0;','           m_units[5].num==0;')],'a quantity whose only unit is the candela','it is taken for a dimensionless one',
r'''#include "ekat_units.hpp"
int main() {
  using namespace ekat; using namespace ekat::units;
  if (cd.is_dimensionless() || (cd*cd/m*m).is_dimensionless()) return 1;
  if (!(cd/cd).is_dimensionless()) return 2;
  return 0;
}
''')
M('ws-take-barrier','C01',[('src/kokkos/ekat_workspace_impl.hpp','''    change_indv_meta<S>(space, name);
#endif
  });
  // We need a barrier here so that a subsequent call to take or release
  // starts with the metadata in the correct state.
  m_team.team_barrier();

  return space;
}

template <typename T, typename D>
template <size_t N, typename S>
KOKKOS_INLINE_FUNCTION
void WorkspaceManager<T, D>::Workspace::take_many_contiguous_unsafe''','''    change_indv_meta<S>(space, name);
#endif
  });

  return space;
}

template <typename T, typename D>
template <size_t N, typename S>
KOKKOS_INLINE_FUNCTION
void WorkspaceManager<T, D>::Workspace::take_many_contiguous_unsafe''')],'two takes in a row by a team of several threads, of which the first is slow','threads of one team get different blocks, or blocks that are taken',
r'''#include "ekat_workspace.hpp"
#include <atomic>
#include <unistd.h>
int main(int c,char** v) {
  Kokkos::initialize(c,v); int bad=0;
  { using KT=ekat::KokkosTypes<ekat::DefaultDevice>; auto p=ekat::TeamPolicyFactory<KT::ExeSpace>::get_team_policy_force_team_size(1,4);
    ekat::WorkspaceManager<double> w(4,4,p); const int N=20000; Kokkos::View<double**> off("",4,2*N);
    Kokkos::parallel_for(p,KOKKOS_LAMBDA(const KT::MemberType& t) { auto ws=w.get_workspace(t); volatile int z=0;
      for (int k=0;k<N;++k) { t.team_barrier(); if (t.team_rank()==k%4) for (int i=0;i<200;++i) z=z+i;
        auto a=ws.take<double>("a"); auto b=ws.take<double>("b"); off(t.team_rank(),2*k)=(double)(size_t)a.data(); off(t.team_rank(),2*k+1)=(double)(size_t)b.data();
        t.team_barrier(); ws.release(b); ws.release(a); } });
    for (int k=0;k<2*N;++k) { for (int r=1;r<4;++r) if (off(r,k)!=off(0,k)) bad=1; if (k%2 && off(0,k)==off(0,k-1)) bad=1; } }
  Kokkos::finalize(); return bad;
}
''',kokkos=True,flags='-DNDEBUG')
M('ws-reset-barrier','C01',[('src/kokkos/ekat_workspace_impl.hpp','''void WorkspaceManager<T, D>::Workspace::reset() const
{
  m_team.team_barrier();
''','''void WorkspaceManager<T, D>::Workspace::reset() const
{
'''),('src/kokkos/ekat_workspace_impl.hpp','''  m_next_slot = 0;
  Kokkos::parallel_for(''','''  m_next_slot = 0;
  // All threads are done with what they took
  Kokkos::parallel_for(''')],'a reset of a workspace while other threads of the team still write into a macro block','the links of the free blocks inside of the macro block are overwritten after they were set',
r'''#include "ekat_workspace.hpp"
int main(int c,char** v) {
  Kokkos::initialize(c,v); int bad=0;
  { using KT=ekat::KokkosTypes<ekat::DefaultDevice>; auto p=ekat::TeamPolicyFactory<KT::ExeSpace>::get_team_policy_force_team_size(1,2);
    ekat::WorkspaceManager<double> w(7,4,p); const int N=300; Kokkos::View<long**> off("",2,4*N);
    // (plain stores, so that the changed library cannot crash this program)
    Kokkos::parallel_for(p,KOKKOS_LAMBDA(const KT::MemberType& t) { auto ws=w.get_workspace(t); volatile int z=0; const char* base=nullptr; bool ok=true;
      for (int k=0;k<N;++k) { auto a=ws.take_macro_block<double>("a",4); base=(const char*)a.data();
        // entry 7 is where the second block's links are
        if (t.team_rank()==1) { for (int i=0;i<20000;++i) z=z+i; int x[2]={2,3}; memcpy((void*)(a.data()+7),x,sizeof(x)); }
        ws.reset();
        auto b=ws.take<double>("b"); auto d=ws.take<double>("c");
        const double* q[4]={a.data(),b.data(),d.data(),nullptr};
        auto e=ws.take<double>("d"); q[3]=e.data();
        for (int i=0;i<4;++i) off(t.team_rank(),4*k+i)=((const char*)q[i]-base)/64;
        ws.reset(); } });
    for (int k=0;k<N;++k) for (int r=0;r<2;++r) { if (off(r,4*k+1)!=0||off(r,4*k+2)!=1||off(r,4*k+3)!=2) bad=1; } }
  Kokkos::finalize(); return bad;
}
''',kokkos=True,flags='-DNDEBUG')
M('plist-print-vec','C05',[('src/core/ekat_parameter_list.cpp','else if (std::any_cast<std::vector<bool>>(&p))        out << std::boolalpha << std::any_cast<std::vector<bool>>(p);','else if (std::any_cast<std::vector<bool>>(&p))        { for (bool b : std::any_cast<std::vector<bool>>(p)) out << std::boolalpha << b; }')],'printing a list with an entry that is a vector of several booleans','the values run together',
r'''#include "ekat_parameter_list.hpp"
#include <sstream>
int main() {
  ekat::ParameterList p("p"); p.set("v",std::vector<bool>{true,false,true}); std::stringstream ss; p.print(ss);
  return ss.str().find("true false true")!=std::string::npos || ss.str().find("true, false, true")!=std::string::npos || ss.str().find("true,false,true")!=std::string::npos ? 0 : 1;
}
''',srcs=CORE)
