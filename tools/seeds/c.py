import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
CORE=['core/ekat_parameter_list.cpp','core/ekat_string_utils.cpp','core/ekat_arch.cpp']
A=sys.argv[1].split(',') if len(sys.argv)>1 and not sys.argv[1].startswith('-') else None
def M(id,*a,**k):
    if A is None or id in A: mk(id,*a,**k)
M('red-aligned-head','C29',[('src/algorithm/ekat_reduction_utils.hpp','''    result = view_reduction<true>(team,begin,end,scalar_input);
''','''    // Peel off the entries that precede the first complete pack
    const int peel_end = (begin+N-1)/N*N;
    if (begin<peel_end && peel_end<end) {
      result  = view_reduction<true>(team,begin,peel_end,scalar_input);
      result += view_reduction<true>(team,peel_end,end,scalar_input);
    } else {
      result = view_reduction<true>(team,begin,end,scalar_input);
    }
''')],'a serialized reduction of packed data that starts inside of a pack and spans several ones, with values whose sum depends on the order of additions','the bit-for-bit sum differs from the sum of the same scalars in increasing order',
r'''#include "ekat_reduction_utils.hpp"
#include "ekat_pack.hpp"
#include "ekat_pack_kokkos.hpp"
#include "ekat_team_policy_utils.hpp"
#include <cstdlib>
int main(int c,char** v) {
  Kokkos::initialize(c,v); int bad=0;
  { using P=ekat::Pack<double,4>; using Ex=Kokkos::DefaultExecutionSpace; using RU=ekat::ReductionUtils<Ex,true>;
    Kokkos::View<P*> p("",5); auto s=ekat::scalarize(p); srand(1);
    for (int i=0;i<20;++i) s(i)=(rand()%2000-1000)/7.0*(i%3?1e-3:1e6);
    Kokkos::View<double**> r("",20,21);
    Kokkos::parallel_for(Kokkos::TeamPolicy<Ex>(1,1),KOKKOS_LAMBDA(const Kokkos::TeamPolicy<Ex>::member_type& t) {
      for (int b=0;b<20;++b) for (int e=b;e<=20;++e) r(b,e)=RU::view_reduction(t,b,e,p); });
    for (int b=0;b<20;++b) for (int e=b;e<=20;++e) { double x=0; for (int i=b;i<e;++i) x+=s(i); if (r(b,e)!=x) bad=1; }
  }
  Kokkos::finalize(); return bad;
}
''',kokkos=True)
M('lin-last-pack','C31',[('src/algorithm/ekat_lin_interp_impl.hpp','''      if (k1ph[i]==(m_km1-1)) {''','''      if (k1ph[i]==(x1s.extent_int(0)-1)) {''')],'source levels that do not fill the last pack, and targets at or beyond the last source point','the slope of the last interval is taken from the padding',
r'''#include "ekat_lin_interp.hpp"
#include <cmath>
int main(int c,char** v) {
  Kokkos::initialize(c,v); int bad=0;
  { using LI=ekat::LinInterp<double,4>; using P=LI::Pack; const int k1=6,k2=5;
    Kokkos::View<P*> x1("",2),y1("",2),x2("",2),y2("",2);
    for (int i=0;i<8;++i) { x1(i/4)[i%4]= i<k1 ? i : 77; y1(i/4)[i%4]= i<k1 ? 3*i+1 : -5; x2(i/4)[i%4]= 0.25+i*1.6; }
    LI li(1,k1,k2);
    Kokkos::parallel_for(li.policy(),KOKKOS_LAMBDA(const LI::MemberType& t) {
      Kokkos::View<const P*> cx1(x1),cx2(x2),cy1(y1);
      li.setup(t,cx1,cx2); t.team_barrier(); li.lin_interp(t,cx1,cx2,cy1,y2); });
    for (int i=0;i<k2;++i) if (std::abs(y2(i/4)[i%4]-(3*(0.25+i*1.6)+1))>1e-10) bad=1;
  }
  Kokkos::finalize(); return bad;
}
''',kokkos=True,shim=True)
M('bcast-rank7','C33',[('src/kokkos/ekat_view_broadcast.hpp','''             IntType i4, IntType i5, IntType i6) const {
    return m_view_impl(i0*m_coeff[0],i1*m_coeff[1],i2*m_coeff[2],i3*m_coeff[3],
                       i4*m_coeff[4],i5*m_coeff[5],i6*m_coeff[6]);''','''             IntType i4, IntType i5, IntType i6) const {
    return m_view_impl(i0*m_coeff[0],i1*m_coeff[1],i2*m_coeff[2],i3*m_coeff[3],
                       i4*m_coeff[4],i5*m_coeff[6],i6*m_coeff[6]);''')],'a target of rank 7, with exactly one of its last two dimensions broadcasted','the entry is taken from the wrong index of the source (or from outside of it)',
r'''#include "ekat_view_broadcast.hpp"
int main(int c,char** v) {
  Kokkos::initialize(c,v); int bad=0;
  { using T=Kokkos::View<double*******,Kokkos::HostSpace>; Kokkos::View<double**,Kokkos::HostSpace> f("",2,3); for (int i=0;i<2;++i) for (int j=0;j<3;++j) f(i,j)=10*i+j;
    auto b=ekat::broadcast<T>(f,{-1,2,1,2,1,-1,4});
    for (int i=0;i<2;++i) for (int j=0;j<3;++j) for (int k=0;k<4;++k) if (b(i,1,0,1,0,j,k)!=10*i+j) bad=1;
  }
  Kokkos::finalize(); return bad;
}
''',kokkos=True,shim=True)
M('tlf-convertible','C24',[('src/core/ekat_meta_utils.hpp','''    static constexpr bool value = std::is_same<ret_type,bool>::value;
''','''    // Allow for types that are used as bool (e.g., std::true_type)
    static constexpr bool value = std::is_convertible<ret_type,bool>::value;
''')],'looping over a list of types with a function that returns a number','the loop stops at the first type for which the number is not zero',
r'''#include "ekat_meta_utils.hpp"
int main() {
  int n=0; auto f=[&](auto) -> int { return ++n; };
  ekat::TypeListFor<ekat::TypeList<int,double,char>> t(f);
  if (n!=3) return 1;
  n=0; auto g=[&](auto x) { ++n; return sizeof(x)==8; };
  ekat::TypeListFor<ekat::TypeList<int,double,char>> u(g);
  return n==2 ? 0 : 2;
}
''')
M('comm-split-key','C15',[('src/core/ekat_comm.cpp','''  MPI_Comm_split(m_mpi_comm,color,m_rank,&new_comm);''','''  // Within a group, put first the ranks that are far from each other
  MPI_Comm_split(m_mpi_comm,color,m_rank % 5,&new_comm);''')],'six or more ranks','the ranks of a group are not in the order of the original communicator',
r'''#include "ekat_comm.hpp"
int main(int c,char** v) {
  MPI_Init(&c,&v); int bad=0;
  { ekat::Comm comm(MPI_COMM_WORLD); for (int k=1;k<4;++k) { auto s=comm.split(comm.rank()%k); if (s.rank()!=comm.rank()/k) bad=1; } comm.all_reduce(&bad,1,MPI_MAX); }
  MPI_Finalize(); return bad;
}
''',srcs=['core/ekat_comm.cpp'],mpi=True,run='mpirun --oversubscribe -np 7 "$T/demo"')
M('nested-depth','C09',[('src/core/ekat_string_utils.cpp','''      depth_max = std::max(depth_max,1+sublist.get<int>("Depth"));''','''      depth_max = 1+sublist.get<int>("Depth");''')],'a list whose last sublist is not its deepest one','the depth of the parsed list is too small',
r'''#include "ekat_string_utils.hpp"
#include "ekat_parameter_list.hpp"
int main() {
  auto d=[](const char* s) { return ekat::parse_nested_list(s).get<int>("Depth"); };
  if (d("[a]")!=1 || d("[a,[b]]")!=2 || d("[[a,[b]],c]")!=3) return 1;
  if (d("[[a,[b]],[c]]")!=3) return 2;
  if (d("[[a],[b,[c]],[d],e]")!=3) return 3;
  return 0;
}
''',srcs=CORE)
M('import-empty','C05',[('src/core/ekat_parameter_list.cpp','''  for (const auto& [name,p] : src.m_params) {
    m_params[name] = p;
  }
}''','''  for (const auto& [name,p] : src.m_params) {
    // An empty sequence is only a placeholder: it must not replace an actual one
    if (p.type()!=typeid(EmptySeq) || m_params.count(name)==0) {
      m_params[name] = p;
    }
  }
}''')],'importing an empty sequence over an entry of the same name','the entry keeps its old content',
r'''#include "ekat_parameter_list.hpp"
int main() {
  ekat::ParameterList a("a"),b("b"); using V=std::vector<int>;
  a.set("x",V{1,2}); b.set("x",ekat::ParameterList::EmptySeq()); b.set("y",V{3}); a.import(b);
  const auto& c=a; if (c.get<V>("y")!=V{3}) return 1;
  return c.get<V>("x").empty() ? 0 : 2;
}
''',srcs=CORE)
M('ws-reset-active','C02',[('src/kokkos/ekat_workspace_impl.hpp','''  m_team.team_barrier();
#ifndef NDEBUG
  change_num_used(-m_parent.m_num_used(m_ws_idx));
#endif
  m_next_slot = 0;''','''  m_team.team_barrier();
#ifndef NDEBUG
  const int num_used = m_parent.m_num_used(m_ws_idx);
  m_team.team_barrier();
  change_num_used(-num_used);
#endif
  m_next_slot = 0;'''),('src/kokkos/ekat_workspace_impl.hpp','''  Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
    // Mark all old spaces as released
    for (int a = 0; a < m_parent.m_max_used; ++a) {
      if (m_parent.m_active(m_ws_idx, a)) {
        change_indv_meta<T>(''','''  Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
    // Mark all old spaces as released
    for (int a = 0; a < num_used; ++a) {
      if (m_parent.m_active(m_ws_idx, a)) {
        change_indv_meta<T>(''')],'resetting a workspace in which an early block was already released, while later ones are in use','later blocks remain marked as in use (reported as leaks), and taking them again is an error',
r'''#undef NDEBUG
#include "ekat_workspace.hpp"
#include "ekat_team_policy_utils.hpp"
#include <sys/wait.h>
#include <unistd.h>
int main(int c,char** v) {
  pid_t p=fork();
  if (p==0) {
  Kokkos::initialize(c,v);
  { using D=ekat::DefaultDevice; using WM=ekat::WorkspaceManager<double,D>; using Ex=Kokkos::DefaultExecutionSpace;
    Kokkos::TeamPolicy<Ex> pol(1,1); WM wm(4,3,pol);
    Kokkos::parallel_for(pol,KOKKOS_LAMBDA(const WM::MemberType& t) {
      auto ws=wm.get_workspace(t);
      auto a=ws.take("a"); auto b=ws.take("b"); ws.release(a); ws.reset();
      auto d=ws.take("d"); auto e=ws.take("e"); auto f=ws.take("f"); ws.reset(); });
  }
  Kokkos::finalize(); _exit(0); }
  int st; waitpid(p,&st,0);
  return WIFEXITED(st) && WEXITSTATUS(st)==0 ? 0 : 1;
}
''',kokkos=True,srcs=['core/ekat_arch.cpp'])
M('expr-both-sides','C34',[('src/expression/ekat_expression_conditional.hpp','''    if constexpr (expr_c) {
      if (m_cmp.eval(args...))
        if constexpr (expr_l)
          return m_left.eval(args...);
        else
          return m_left;
      else
        if constexpr (expr_r)
          return m_right.eval(args...);
        else
          return m_right;
    } else {''','''    if constexpr (expr_c and expr_l and expr_r) {
      // Evaluate both, so that the compiler can vectorize the selection
      const return_type l = m_left.eval(args...);
      const return_type r = m_right.eval(args...);
      return m_cmp.eval(args...) ? l : r;
    } else if constexpr (expr_c) {
      if (m_cmp.eval(args...))
        if constexpr (expr_l)
          return m_left.eval(args...);
        else
          return m_left;
      else
        if constexpr (expr_r)
          return m_right.eval(args...);
        else
          return m_right;
    } else {''')],'a conditional guarding an integer division by zero','the branch that is not selected is evaluated as well, and the program dies',
r'''#include "ekat_expression_view.hpp"
#include "ekat_expression_binary_op.hpp"
#include "ekat_expression_binary_predicate.hpp"
#include "ekat_expression_conditional.hpp"
#include "ekat_expression_eval.hpp"
int main(int c,char** v) {
  Kokkos::initialize(c,v); int bad=0;
  { Kokkos::View<int*> a("",4),b("",4),r("",4); for (int i=0;i<4;++i) { a(i)=12; b(i)=i; }
    auto x=ekat::expression(a), y=ekat::expression(b);
    auto e=ekat::if_then_else(y>0,x/y,x+y); ekat::evaluate(e,r);
    for (int i=0;i<4;++i) if (r(i)!=(i>0?12/i:12)) bad=1;
  }
  Kokkos::finalize(); return bad;
}
''',kokkos=True,shim=True)
M('gpu-strcmp','C35',[('src/kokkos/ekat_kokkos_str_utils.hpp','''  return *(const unsigned char*)first - *(const unsigned char*)second;''','''  return *first - *second;''')],'comparing (on a GPU) texts that differ where one of them has a character beyond ASCII','the order of the texts is reversed',
r'''#define EKAT_ENABLE_GPU
#include "ekat_kokkos_str_utils.hpp"
int main() {
  char a[]={'x',(char)0xe9,0}, b[]={'x','y',0}, d[]={'x',0};
  if (!(ekat::impl::strcmp(a,b)>0) || !(ekat::impl::strcmp(b,a)<0) || !(ekat::impl::strcmp(a,d)>0) || ekat::impl::strcmp(a,a)!=0) return 1;
  return 0;
}
''',kokkos=True)
M('index-rank5','C27',[('src/pack/ekat_pack_kokkos.hpp','''    p[i] = a(i0[i], i1[i], i2[i], i3[i], i4[i]);''','''    p[i] = a(i0[i], i1[i], i2[i], i3[i], i4[0]);''')],'gathering from a rank 5 array with last indices that differ among the lanes','all lanes get the entry at the last index of the first lane',
r'''#include "ekat_pack_kokkos.hpp"
int main(int c,char** v) {
  Kokkos::initialize(c,v); int bad=0;
  { Kokkos::View<double*****,Kokkos::HostSpace> a("",2,2,2,2,5); for (size_t i=0;i<a.size();++i) a.data()[i]=i;
    ekat::Pack<int,4> z(1),k; for (int i=0;i<4;++i) k[i]=(3*i+1)%5; auto p=ekat::index(a,z,z,z,z,k);
    for (int i=0;i<4;++i) if (p[i]!=a(1,1,1,1,k[i])) bad=1;
  }
  Kokkos::finalize(); return bad;
}
''',kokkos=True)
M('yaml-empty-map','C06',[('src/parser/ekat_yaml.cpp','''  EKAT_REQUIRE_MSG (node.Type()==YNT::Map,
                      "Error! Actual node type incompatible with template parameter.\\n");

  ParameterList& sublist = list.sublist(key);
''','''  EKAT_REQUIRE_MSG (node.Type()==YNT::Map,
                      "Error! Actual node type incompatible with template parameter.\\n");

  // Nothing to parse
  if (node.size()==0) return;

  ParameterList& sublist = list.sublist(key);
''')],'an empty map','it does not become an (empty) list of parameters',
r'''#include "ekat_yaml.hpp"
#include <fstream>
int main() {
  { std::ofstream f("a.yaml"); f << "a: 1\nb: {}\nc:\n  d: {}\n"; }
  auto p=ekat::parse_yaml_file("a.yaml");
  if (p.get<int>("a")!=1 || !p.isSublist("b") || !p.isSublist("c") || !p.sublist("c").isSublist("d")) return 1;
  return 0;
}
''',srcs=CORE+['parser/ekat_yaml.cpp'],libs='-lyaml-cpp')
