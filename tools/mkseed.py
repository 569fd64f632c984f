"""Write /verif/seeded/<id>/ from (id, property, file, old, new, needs, breaks, demo.cpp, build line) and try the demo on both trees."""
import os, sys, json, subprocess, shutil, tempfile
V='/verif/seeded'
# the installed Kokkos is older than what some headers are written for: View::rank is not callable
SHIM=r'''mkdir "$T/shim"
sed -e 's/^  enum { rank = dimension::rank };/  static constexpr std::integral_constant<unsigned, dimension::rank> rank = {};/' -e 's/^  enum { Rank = map_type::Rank };/&\n  using element_type = typename traits::value_type;/' /usr/include/Kokkos_View.hpp > "$T/shim/Kokkos_View.hpp"
cat > "$T/shim/Kokkos_Core.hpp" <<'EOF'
#ifndef SHIM_CORE
#define SHIM_CORE
#include "Kokkos_View.hpp"
#include_next <Kokkos_Core.hpp>
namespace Kokkos { template<class T> inline constexpr bool is_view_v = is_view<T>::value; }
#endif
EOF
'''
def mk(id, prop, edits, needs, breaks, cpp, srcs=(), mpi=False, kokkos=False, libs='', run='"$T/demo"', opt='-O0', extra=None, name='demo.cpp', flags='', shim=False):
    d=os.path.join(V,id); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    t=tempfile.mkdtemp(prefix='seed-',dir='/tmp')
    r=t+'/repo'
    subprocess.run(['git','-C','/repo','worktree','add','-q','--detach',r,'HEAD'],check=True)
    try:
        S=' '.join('"$R/src/%s"'%s for s in srcs)
        defs='-DEKAT_DEFAULT_BFB -DEKAT_HAVE_FEENABLEEXCEPT'
        if mpi: defs+=' -DEKAT_ENABLE_MPI -DEKAT_MPI_ERRORS_ARE_FATAL -DOMPI_SKIP_MPICXX'
        if kokkos: defs+=' -DEKAT_HAS_KOKKOS -DKOKKOS_DEPENDENCE -DKOKKOS_ENABLE_CXX17 -fopenmp'; libs+=' -lkokkoscontainers -lkokkoscore -fopenmp'
        defs+=' -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -DFMT_SHARED'
        inc=' '.join('-I"$R/src/%s"'%x for x in 'core kokkos pack algorithm expression parser logging testing-support'.split())
        if shim: inc='-I"$T/shim" '+inc
        sh='''#!/bin/bash
# exit 0: the property holds here
R=$PWD
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 9
trap 'find "$T" -delete' EXIT
export OMP_NUM_THREADS=${OMP_NUM_THREADS:-4} OMP_PROC_BIND=false OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm_rsh_agent=/bin/false
%s%s -std=gnu++17 %s -w %s %s -I/opt/vp/compat %s -o "$T/demo" "$H/%s" %s %s || exit 8
cd "$T"
timeout 120 %s
''' % (SHIM if shim else '', 'mpicxx' if mpi else 'g++',opt,flags,defs,inc,name,S,libs,run)
        with open(d+'/demo.sh','w') as f: f.write(sh)
        os.chmod(d+'/demo.sh',0o755)
        with open(d+'/'+name,'w') as f: f.write(cpp)
        for k,v in (extra or {}).items(): open(d+'/'+k,'w').write(v)
        a=subprocess.run(['bash',d+'/demo.sh'],cwd=r,capture_output=True,text=True)
        for f,o,n in edits:
            s=open(r+'/'+f).read()
            assert s.count(o)==1,(f,o,s.count(o))
            open(r+'/'+f,'w').write(s.replace(o,n))
        p=subprocess.run(['git','-C',r,'diff'],capture_output=True,text=True).stdout
        open(d+'/patch.diff','w').write(p)
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
        b=subprocess.run(['bash',d+'/demo.sh'],cwd=r,capture_output=True,text=True)
        print(id,'unchanged',a.returncode,'patched',b.returncode,'OK' if a.returncode==0 and b.returncode not in (0,8,9) else 'BAD '+(a.stdout+a.stderr)[-1500:]+(b.stdout+b.stderr)[-1500:])
        if '--check' in sys.argv:
            c=subprocess.run(['timeout','800','./check',prop],cwd='/verif',env=dict(os.environ,VP_REPO=r,VERIF_TIER='quick',VERIF_SEED='1'),capture_output=True,text=True)
            print('   check',prop,c.returncode,c.stdout[-300:])
    finally:
        subprocess.run(['git','-C','/repo','worktree','remove','--force',r]); shutil.rmtree(t,ignore_errors=True)
