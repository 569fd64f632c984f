"""Shared machinery: build drivers from /repo, run TLC, validate traces, report."""
import threading
import os, sys, json, time, subprocess, hashlib, glob, re, shutil, random, traceback, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')
HARN = os.path.join(VERIF, 'harness')
TLA = '/opt/veriftools/tla'
CP = TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4
SUB = ['core', 'kokkos', 'pack', 'algorithm', 'expression', 'parser', 'logging', 'testing-support']
DEFS = ['-DEKAT_DEFAULT_BFB', '-DEKAT_HAVE_FEENABLEEXCEPT', '-DEKAT_MPI_ERRORS_ARE_FATAL', '-DOMPI_SKIP_MPICXX',
        '-DKOKKOS_ENABLE_CXX17', '-DSPDLOG_COMPILED_LIB', '-DSPDLOG_FMT_EXTERNAL', '-DSPDLOG_SHARED_LIB', '-DFMT_SHARED']
MPI_ENV = dict(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader',
               OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_pml='ob1', OMPI_MCA_plm_rsh_agent='/bin/false',
               OMPI_MCA_oob_tcp_if_include='lo', OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_mpi_yield_when_idle='1',
               OMP_PROC_BIND='false', OMP_PLACES='threads', LANG='C.UTF-8')
CORE_SRC = ['core/ekat_arch.cpp', 'core/ekat_fpe.cpp', 'core/ekat_parameter_list.cpp', 'core/ekat_string_utils.cpp', 'core/ekat_test_utils.cpp']


def core_src():
    """Everything in core but the communicators (which depend on the build mode)."""
    d = os.path.join(REPO, 'src')
    return sorted(os.path.relpath(p, d) for p in glob.glob(d + '/core/*.cpp') if not os.path.basename(p).startswith('ekat_comm'))


class CheckError(Exception):
    pass


def sh(cmd, timeout=600, env=None, cwd=None, inp=None):
    e = dict(os.environ); e.update(MPI_ENV)
    if env: e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         env=e, cwd=cwd, start_new_session=True)
    try:
        o, _ = p.communicate(inp, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, _ = p.communicate()
        rc = 'timeout'
    return rc, o.decode('utf-8', 'replace')


_srchash = None
def src_hash():
    global _srchash
    if _srchash is None:
        h = hashlib.sha256()
        for base in (os.path.join(REPO, 'src'), HARN):
            for d, _, fs in sorted(os.walk(base)):
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
        _srchash = h.hexdigest()
    return _srchash


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.work = os.path.join(VERIF, 'build', prop + ('' if REPO == '/repo' else '-' + hashlib.sha256(REPO.encode()).hexdigest()[:8]))
        os.makedirs(self.work, exist_ok=True)
        self.tdir = os.path.join(self.work, 't-%s' % self.tier)
        shutil.rmtree(self.tdir, ignore_errors=True)
        os.makedirs(self.tdir)
        self.states = 0; self.transitions = 0; self.traces = 0; self.events = 0
        self.samples = []; self.violations = []; self.notes = {}; self.assumptions = []
        self.models = []
        self.rng = random.Random(self.seed)
        self.known = load_known(prop)
        self.known_hit = []
        self.level = 'model_checking'

    # ---------------------------------------------------------------- build
    def build(self, name, srcs, repo_srcs=(), flags=(), defs=(), mpi=True, kokkos=False, shim=False, libs=(), opt='-O0', timeout=800):
        """Compile driver sources of /verif/harness with sources of /repo/src."""
        defs = list(defs)
        if repo_srcs == 'core': repo_srcs = core_src()
        inc = []
        if shim:
            inc += ['-I' + make_shim()]
        inc += ['-I' + HARN, '-I/opt/vp/compat'] + ['-I%s/src/%s' % (REPO, d) for d in SUB]
        cxx = os.environ.get('VP_CXX', 'mpicxx' if mpi else 'g++')
        base = [cxx, '-std=gnu++17', opt, '-g0', '-w'] + list(flags) + DEFS + (['-DEKAT_ENABLE_MPI'] if mpi else []) + \
               (['-DEKAT_HAS_KOKKOS', '-DKOKKOS_DEPENDENCE', '-fopenmp'] if kokkos else []) + defs + inc
        lib = list(libs)
        if kokkos:
            lib += ['-lkokkoscontainers', '-lkokkoscore', '-fopenmp']
        allsrc = [os.path.join(HARN, s) if not s.startswith('/') else s for s in srcs] + [os.path.join(REPO, 'src', s) for s in repo_srcs]
        key = hashlib.sha256((src_hash() + repr(base) + repr(lib) + repr(allsrc)).encode()).hexdigest()[:24]
        bdir = os.path.join(VERIF, 'build', 'bin') if REPO == '/repo' else os.path.join(self.work, 'bin'); os.makedirs(bdir, exist_ok=True)
        exe = os.path.join(bdir, '%s-%s' % (name, key))
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(bdir, name + '-*')):
            if re.fullmatch(re.escape(name) + r'-[0-9a-f]{24}', os.path.basename(old)):
                try: os.remove(old)
                except OSError: pass
        odir = os.path.join(self.work, 'obj-%s-%d' % (name, os.getpid())); shutil.rmtree(odir, ignore_errors=True); os.makedirs(odir)
        def one(i_s):
            i, s = i_s
            o = os.path.join(odir, '%d.o' % i)
            # hooks in C: not instrumented, not part of the code under test
            rc, out = sh((['gcc', '-O1', '-w'] if s.endswith('.c') else base) + ['-c', s, '-o', o], timeout=timeout)
            if rc != 0:
                raise CheckError('compiling %s failed (%s):\n%s' % (s, rc, out[-4000:]))
            return o
        with ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(one, enumerate(allsrc)))
        tmp = exe + '.tmp%d' % os.getpid()
        rc, out = sh(base[:1] + ['-o', tmp] + objs + lib + list(flags) + (['-fopenmp'] if kokkos else []), timeout=timeout)
        if rc != 0:
            raise CheckError('linking %s failed:\n%s' % (name, out[-4000:]))
        os.rename(tmp, exe)
        shutil.rmtree(odir, ignore_errors=True)
        return exe

    # ---------------------------------------------------------------- run a driver
    def drive(self, exe, args=(), trace=None, timeout=120, env=None, mpi_ranks=0, ok_rc=(0,), cwd=None, merge=True):
        """Run a driver that appends records to `trace`. A crash, a hang or an
        unexpected exit becomes a record of its own, which no specification allows.
        With merge off, rank r of an MPI run writes trace.r"""
        trace = trace or os.path.join(self.tdir, 'trace-%s.ndjson' % hashlib.sha256(repr((os.path.basename(exe), args, env, mpi_ranks)).encode()).hexdigest()[:10])
        open(trace, 'w').close()
        e = dict(VP_TRACE=trace, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier)
        if env: e.update({k: str(v) for k, v in env.items()})
        cmd = [exe] + [str(a) for a in args]
        if mpi_ranks:
            cmd = ['mpiexec', '--oversubscribe', '--bind-to', 'none', '-n', str(mpi_ranks)] + cmd
        rc, out = sh(cmd, timeout=timeout, env=e, cwd=cwd)
        if rc == 3:
            raise CheckError('driver set-up failed: ' + out[-2000:])
        # a torn last line (killed in the middle of a write) is dropped
        data = open(trace, 'rb').read()
        if data and not data.endswith(b'\n'):
            data = data[:data.rfind(b'\n') + 1]
            open(trace, 'wb').write(data)
        if rc not in ok_rc:
            with open(trace, 'a') as f:
                f.write(json.dumps(dict(event='Hang' if rc == 'timeout' else 'Crash', rc=str(rc), out=clean(out if len(out) < 3000 else out[:1500] + ' ... ' + out[-1500:]))) + '\n')
        self.last_output = out
        return trace

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, timeout=600, workers=None, extra=(), javaopts=()):
        md = os.path.join(self.work, 'md-%s-%d-%d' % (os.path.basename(cfg), os.getpid(), random.SystemRandom().randrange(1 << 30)))
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss64m', '-Xmx4g'] + list(javaopts) + ['-cp', CP, 'tlc2.TLC', '-metadir', md, '-noGenerateSpecTE',
               '-workers', str(workers or 1)] + list(extra) + ['-config', cfg, module]
        rc, out = sh(cmd, timeout=timeout, env=env, cwd=SPECS)
        shutil.rmtree(md, ignore_errors=True)
        return rc, out

    def model(self, module, cfg, timeout=600, workers=4, expect_ok=True, env=None, extra=(), coverage=True):
        """Exhaustively check a design specification; count its states."""
        if os.environ.get('VP_MUT'): return ''   # tools/automut.py: the design model does not depend on the code
        rc, out = self.tlc(module, cfg, timeout=timeout, workers=workers, env=env, extra=extra)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if rc != 0 or not m:
            raise CheckError('design model %s/%s failed (rc %s):\n%s' % (module, cfg, rc, out[-3000:]))
        g, d = int(m.group(1)), int(m.group(2))
        self.states += d; self.transitions += g
        self.models.append(dict(module=module, cfg=cfg, states=d, transitions=g))
        return out

    def edges(self, module, cfg, timeout=600, workers=1, env=None):
        """Exhaustively explore a model whose ACTION_CONSTRAINT prints every edge
        as <<"EDGE", from, op, to>> in JSON; return (init, edges)."""
        rc, out = self.tlc(module, cfg, timeout=timeout, workers=workers, env=env)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if rc != 0 or not m:
            raise CheckError('edge model %s/%s failed (rc %s):\n%s' % (module, cfg, rc, out[-3000:]))
        g, d = int(m.group(1)), int(m.group(2))
        self.states += d; self.transitions += g
        self.models.append(dict(module=module, cfg=cfg, states=d, transitions=g))
        es = []; init = None
        for line in out.splitlines():
            if line.startswith('"E~'):
                body = json.loads(line)
                _, a, op, b = body.split('~', 3)
                es.append((canon(a), op, canon(b)))
            elif line.startswith('"I~'):
                init = canon(json.loads(line).split('~', 1)[1])
        if not es or init is None:
            raise CheckError('edge model %s/%s printed no edges:\n%s' % (module, cfg, out[-2000:]))
        return init, es

    def validate(self, module, trace, cfg=None, env=None, timeout=600):
        """One trace file against a trace specification: (ok, index of first
        rejected line, that line)."""
        cfg = cfg or module + '.cfg'
        e = dict(TRACE=trace)
        if env: e.update({k: str(v) for k, v in env.items()})
        n = sum(1 for _ in open(trace))
        if n == 0:
            raise CheckError('empty trace %s' % trace)
        rc, out = self.tlc(module + '.tla', cfg, env=e, timeout=timeout)
        m = re.search(r'<<"ACCEPTED", (\d+)>>', out)
        if m and int(m.group(1)) == n and rc == 0:
            self.states += n; self.transitions += n
            return True, n, None, out
        m = re.search(r'<<"REJECTED", (\d+)>>', out)
        inv = re.search(r'Error: Invariant (\w+) is violated', out) or re.search(r'Action property (.*) is violated', out)
        if m and 'Postcondition' in out and 'Error: Evaluating' not in out:
            k = int(m.group(1))
            return False, k, read_line(trace, k), out
        if inv:
            k = len(re.findall(r'^State \d+:', out, re.M)) - 1
            return False, k, 'after this line, %s: %s' % (inv.group(0), read_line(trace, k)), out
        raise CheckError('TLC failed on %s (rc %s):\n%s' % (trace, rc, out[-3000:]))

    def validate_all(self, module, traces, cfg=None, env=None, timeout=600, split=20000):
        """Validate several trace files in parallel. Files longer than `split`
        lines are cut at records that start a history (event New)."""
        parts = []
        for t in traces:
            parts += cut(t, split)
        def one(p):
            return p, self.validate(module, p, cfg, env, timeout)
        bad = []
        with ThreadPoolExecutor(max(1, NCPU)) as ex:
            for p, r in ex.map(one, parts):
                if not r[0]: bad.append((p, r))
                else: self.events += r[1]
        return bad

    def conform(self, module, produce, cfg=None, env=None, timeout=600, split=20000, canary=None, histories=None):
        """produce() -> list of trace files recorded from the real code.
        Validate; on a rejection, record again and report only if it repeats."""
        traces = produce()
        for t in traces:
            n = sum(1 for l in open(t) if '"event":"New"' in l or '"event": "New"' in l)
            self.traces += n if n else sum(1 for _ in open(t))
            if len(self.samples) < 3:
                with open(t) as f:
                    self.samples.append([l.rstrip('\n')[:400] for _, l in zip(range(6), f)])
        bad = self.validate_all(module, traces, cfg, env, timeout, split)
        if bad:
            keep = save_bad(self, module, bad)
            bad2 = bad if os.environ.get('VP_MUT') else []
            for k in range(4):      # a schedule may need some luck to repeat
                if bad2: break
                bad2 = self.validate_all(module, produce(), cfg, env, timeout, split)
            if not bad2:
                raise CheckError('a rejection by %s did not repeat: %s' % (module, bad[0][1][2]))
            for p, r in bad2:
                self.violations.append(dict(module=module, trace=keep, line=r[1], record=r[2]))
        elif canary is not None and not os.environ.get('VP_MUT'):
            self.check_canary(module, traces, canary, cfg, env)
        return not bad

    def check_canary(self, module, traces, canary, cfg, env):
        """The binding itself is tested: a recorded trace with one field changed
        must be rejected."""
        for t in traces[:1]:
            recs = [json.loads(l) for _, l in zip(range(4000), open(t))]
            m = canary(recs)
            if m is None: continue
            p = os.path.join(self.tdir, 'canary-%s.ndjson' % module)
            with open(p, 'w') as f:
                for r in m: f.write(json.dumps(r) + '\n')
            ok = self.validate(module, p, cfg, env)[0]
            if ok:
                raise CheckError('corrupted trace accepted by %s: the binding is vacuous' % module)
            self.notes['corrupted_trace_rejected'] = self.notes.get('corrupted_trace_rejected', 0) + 1

    # ---------------------------------------------------------------- end
    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                events_validated=self.events, models=self.models, samples=self.samples or ['none'], **self.notes),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if self.violations:
            for v in self.violations[:5]:
                print('rejected by %s at line %s of %s: %s' % (v['module'], v['line'], v['trace'], str(v['record'])[:1500]))
            print('VIOLATION property=%s replay=%s' % (self.prop, self.violations[0]['trace']))
            return 1
        print('OK property=%s states=%d histories=%d events=%d wall=%.1fs' % (self.prop, self.states, self.traces, self.events, time.time() - self.t0))
        return 0


def clean(s):
    return ''.join(c if 32 <= ord(c) < 127 else ' ' for c in s)

def read_line(path, k):
    with open(path) as f:
        for i, l in enumerate(f, 1):
            if i == k: return l.strip()
    return '(end of trace)'

def cut(path, size):
    lines = open(path).readlines()
    if len(lines) <= size: return [path]
    parts = []; cur = []
    # a history starts where the first record of the file occurs again
    start = '"event":"Begin"' if '"event":"Begin"' in lines[0] else '"event":"New"'
    has_new = start in lines[0]
    for l in lines:
        if len(cur) >= size and (not has_new or start in l):
            parts.append(cur); cur = []
        cur.append(l)
    if cur: parts.append(cur)
    r = []
    for i, c in enumerate(parts):
        p = '%s.p%d' % (path, i)
        open(p, 'w').writelines(c); r.append(p)
    return r

def save_bad(ctx, module, bad):
    d = os.path.join(VERIF, 'out', os.path.basename(ctx.work)); os.makedirs(d, exist_ok=True)
    p, r = bad[0]
    dst = os.path.join(d, os.path.basename(p)); shutil.copy(p, dst)
    with open(os.path.join(d, 'README'), 'w') as f:
        f.write('Trace recorded from the code under test; rejected by specs/%s.tla at line %s:\n%s\n\n' % (module, r[1], r[2]))
        f.write('Replay: cd /verif/specs && TRACE=%s tlc -config %s.cfg %s.tla\n\n%s' % (dst, module, module, r[3][-3000:]))
    return dst

def load_known(prop):
    """Known findings: lines 'finding: property=<id> key=<key> <what fails>'."""
    res = {}
    p = os.path.join(VERIF, 'known', 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop: res[m.group(2)] = m.group(3)
    return res

_shim = None
_shim_lock = threading.Lock()
def make_shim():
    with _shim_lock: return _make_shim()
def _make_shim():
    """Kokkos 3.7 is what is installed; lin_interp, broadcast views, expressions
    and repack are written for Kokkos 4. The shim is the installed
    Kokkos_View.hpp with View::rank made callable, plus is_view_v."""
    global _shim
    if _shim: return _shim
    d = os.path.join(VERIF, 'build', 'shim'); os.makedirs(d, exist_ok=True)
    s = open('/usr/include/Kokkos_View.hpp').read()
    a = '  enum { rank = dimension::rank };'
    b = '  enum { Rank = map_type::Rank };'
    if a not in s or b not in s: raise CheckError('unexpected Kokkos_View.hpp')
    s = s.replace(a, '  static constexpr std::integral_constant<unsigned, dimension::rank> rank = {};')
    s = s.replace(b, b + '\n  using element_type = typename traits::value_type;')
    def put(name, text):
        p = os.path.join(d, name)
        if not os.path.exists(p) or open(p).read() != text:
            t = p + '.%d' % os.getpid(); open(t, 'w').write(text); os.rename(t, p)
    put('Kokkos_View.hpp', s)
    put('Kokkos_Core.hpp', '#ifndef VP_SHIM_CORE\n#define VP_SHIM_CORE\n#include "Kokkos_View.hpp"\n#include_next <Kokkos_Core.hpp>\n'
        'namespace Kokkos { template<class T> inline constexpr bool is_view_v = is_view<T>::value; }\n#endif\n')
    _shim = d
    return d

_cc = {}
def canon(t):
    """TLC prints set elements and function pairs in no fixed order: sort them."""
    if t in _cc: return _cc[t]
    pos = 0
    def items(close):
        nonlocal pos
        res = []; cur = ''
        while True:
            if t.startswith(close, pos):
                pos += len(close)
                if cur.strip(): res.append(cur.strip())
                return res
            c = t[pos]
            if t.startswith('<<', pos): pos += 2; cur += '<<' + ', '.join(items('>>')) + '>>'
            elif c == '{': pos += 1; cur += '{' + ', '.join(sorted(items('}'))) + '}'
            elif c == '[': pos += 1; cur += '[' + ', '.join(sorted(items(']'))) + ']'
            elif c == '(': pos += 1; cur += '(' + ' @@ '.join(sorted(items(')'))) + ')'
            elif c == '"':
                e = t.index('"', pos + 1); cur += t[pos:e + 1]; pos = e + 1
            elif c == ',': pos += 1; res.append(cur.strip()); cur = ''
            elif t.startswith('@@', pos): pos += 2; res.append(cur.strip()); cur = ''
            else: cur += c; pos += 1
    full = t
    t = full + '\0'
    r = ' '.join(items('\0'))
    _cc[full] = r
    return r

def tours(init, edges, rng, maxlen=60, limit=None):
    """Walks from init that together take every edge (greedy, nearest uncovered
    edge first). Returns lists of operations."""
    adj = {}
    for a, op, b in edges: adj.setdefault(a, []).append((op, b))
    for a in adj: adj[a] = sorted(set(adj[a])); rng.shuffle(adj[a])
    todo = {a: list(range(len(v))) for a, v in adj.items()}
    left = sum(len(v) for v in todo.values())
    walks = []
    from collections import deque
    while left > 0 and (limit is None or len(walks) < limit):
        cur = init; w = []
        while len(w) < maxlen:
            if todo.get(cur):
                i = todo[cur].pop(); left -= 1
                op, b = adj[cur][i]; w.append(op); cur = b
                continue
            # breadth-first to the nearest state with an edge not taken
            prev = {cur: None}; q = deque([cur]); goal = None
            while q:
                s = q.popleft()
                if todo.get(s): goal = s; break
                for op, b in adj.get(s, ()):
                    if b not in prev: prev[b] = (s, op); q.append(b)
            if goal is None: break
            path = []
            s = goal
            while prev[s] is not None: path.append(prev[s][1]); s = prev[s][0]
            if w and len(w) + len(path) >= maxlen: break
            w += reversed(path); cur = goal
        if not w: break
        walks.append(w)
    return walks, left

def main(prop, run):
    ctx = Ctx(prop)
    try:
        run(ctx)
        rc = ctx.finish()
    except CheckError as e:
        print('CHECK-ERROR property=%s %s' % (prop, e)); rc = 2
    except Exception:
        traceback.print_exc(); print('CHECK-ERROR property=%s internal error' % prop); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
