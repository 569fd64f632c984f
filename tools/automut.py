#!/usr/bin/env python3
"""automut.py [-n N] [-j J] [-s SEED] [-b BASE] FILE...: random one-line mutants of files of BASE (/repo), each judged by
the checks that own the file, cheapest first, until one raises an alarm. Prints the survivors (equivalent mutants among them)."""
import sys, os, re, random, shutil, subprocess, tempfile, argparse, hashlib, glob
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
OWN = {
 'core/ekat_comm': 'C15 C16', 'core/ekat_factory': 'C08', 'core/ekat_fpe': 'C20', 'core/ekat_meta_utils': 'C24', 'core/ekat_scalar_traits': 'C24',
 'core/ekat_std_type_traits': 'C24', 'core/ekat_type_traits': 'C24', 'core/ekat_parameter_list': 'C05 C07', 'core/ekat_rational_constant': 'C13 C14',
 'core/ekat_scaling_factor': 'C14', 'core/ekat_units': 'C14', 'core/ekat_std_map_key': 'C23', 'core/ekat_std_utils': 'C23', 'core/ekat_zip': 'C23',
 'core/ekat_string_utils': 'C09 C10 C11 C12', 'core/ekat_test_utils': 'C21', 'bin/test-launcher': 'C21', 'core/ekat_assert': 'C19',
 'kokkos/ekat_workspace': 'C01 C02', 'kokkos/ekat_team_policy': 'C03 C04', 'kokkos/ekat_math_utils': 'C35', 'kokkos/ekat_kokkos_str_utils': 'C35',
 'kokkos/ekat_upper_bound': 'C35', 'kokkos/ekat_where': 'C26', 'kokkos/ekat_view_broadcast': 'C33', 'kokkos/ekat_subview': 'C32', 'kokkos/ekat_view_utils': 'C32 C21 C28',
 'kokkos/ekat_kokkos_session': 'C22', 'kokkos/ekat_kokkos_meta': 'C32 C33 C24', 'kokkos/ekat_kernel_assert': 'C19', 'kokkos/ekat_kokkos_types': 'C32',
 'pack/ekat_pack_math': 'C25', 'pack/ekat_pack_where': 'C26', 'pack/ekat_pack_utils': 'C27', 'pack/ekat_pack_kokkos': 'C28 C27', 'pack/ekat_pack.hpp': 'C25 C26',
 'algorithm/ekat_lin': 'C31', 'algorithm/ekat_red': 'C29', 'algorithm/ekat_tri': 'C30', 'expression/': 'C34', 'parser/': 'C06 C07', 'logging/': 'C18 C17',
 'testing-support/': 'C22 C21', 'core/ekat_arch': 'C22', 'core/ekat_session': 'C22'}
def owner(f):
    for k, v in OWN.items():
        if k in f: return v.split()
    return []
SW = [('<=', '<'), ('>=', '>'), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'), ('+=', '-='), ('-=', '+='), ('*=', '/='), (' + ', ' - '), (' - ', ' + '),
      (' * ', ' / '), (' / ', ' * '), ('+1', ''), ('-1', ''), ('+ 1', ''), ('- 1', ''), (' < ', ' <= '), (' > ', ' >= '), ('<', '<='), ('+', '-'), ('-', '+'), ('*', '/'), ('/', '*'),
      ('begin', 'end'), ('first', 'second'), ('lhs', 'rhs'), ('rhs', 'lhs'), ('min', 'max'), ('max', 'min'), ('true', 'false'), ('false', 'true'), ('++', '--'),
      ('%', '/'), ('continue', 'break'), ('break', 'continue'), ('!', ''), ('num', 'den'), ('.x', '.y'), ('[i]', '[0]'), ('(i)', '(0)'), ('double', 'float'), ('size_t', 'int'), ('int64_t', 'int')]
def cands(path):
    L = open(path).read().split('\n'); out = []; inc = False
    for n, l in enumerate(L):
        s = l.strip()
        if '/*' in s: inc = True
        if inc:
            if '*/' in s: inc = False
            continue
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('static_assert') or s.startswith('template') or s.startswith('namespace') or s.startswith('using'): continue
        code = l.split('//')[0]
        # blank out strings
        mask = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' * len(m.group(0)), code)
        for a, b in SW:
            p = 0
            while True:
                p = mask.find(a, p)
                if p < 0: break
                if a[0].isalpha():
                    ok = not (p and (mask[p-1].isalnum())) and not (p + len(a) < len(mask) and mask[p+len(a)].isalpha())
                elif a == '<' or a == '*' or a == '&' or a == '/' or a == '+' or a == '-' or a == '!':
                    ok = not (p + 1 < len(mask) and mask[p+1] in '<=&*+->') and not (p and mask[p-1] in '<&*+->/=' )
                else: ok = True
                if a in ('<', '*', '/') and ('>' in mask or '::' in mask or not re.search(r'[=(]', mask) or (a == '*' and not re.search(r'[\w)\]]\s*\*\s*[\w(]', mask))): ok = False
                if mask.count('"') and a in ('+', '-', ' + ', ' - '): ok = False
                if ok: out.append((n, code[:p] + b + code[p+len(a):]))
                p += len(a)
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', mask):
            v = int(m.group(1))
            for w in {v + 1, max(v - 1, 0)} - {v}: out.append((n, code[:m.start()] + str(w) + code[m.end():]))
        m = re.match(r'(\s*)(else )?if\s*\((.*)\)\s*(\{?|.*;)\s*$', code)
        if m:
            for c in ('true', 'false'): out.append((n, '%s%sif (%s) %s' % (m.group(1), m.group(2) or '', '(%s) || true' % m.group(3) if c == 'true' else '(%s) && false' % m.group(3), m.group(4))))
        if re.match(r'\s*[\w.\->\[\]\(\)]+.*;\s*$', code) and not re.match(r'\s*(return|typedef|struct|class|break|continue|friend|const|auto|static|typename|public)\b', code) and (('=' in code) or code.strip().endswith(');')):
            out.append((n, re.match(r'\s*', code).group(0) + ';'))
    return L, out
def one(job):
    base, f, n, old, new, L = job
    d = tempfile.mkdtemp(prefix='am-')
    try:
        shutil.copytree(base + '/src', d + '/src'); shutil.copytree(base + '/bin', d + '/bin')
        M = list(L); M[n] = new; open(os.path.join(d, f), 'w').write('\n'.join(M))
        res = []
        for q in owner(f):
            try: r = subprocess.run([V + '/check', q], env=dict(os.environ, VP_REPO=d, VP_MUT='1'), capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired: res.append((q, 'T', 'timeout')); break
            o = r.stdout.strip().splitlines(); res.append((q, r.returncode, (o[-1] if o else '') + ' || ' + r.stderr.strip()[-200:].replace('\n', '~')))
            if r.returncode != 0:
                if 'compiling' in r.stdout + r.stderr: res[-1] = (q, 1, 'build')
                break
        return f, n + 1, old.strip(), new.strip(), res
    finally:
        h = hashlib.sha256(d.encode()).hexdigest()[:8]
        for x in glob.glob(V + '/build/*-' + h) + glob.glob(V + '/out/*-' + h): shutil.rmtree(x, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
ap = argparse.ArgumentParser(); ap.add_argument('-n', type=int, default=10); ap.add_argument('-j', type=int, default=4); ap.add_argument('-s', type=int, default=1)
ap.add_argument('-b', default='/repo'); ap.add_argument('--list', action='store_true'); ap.add_argument('files', nargs='+'); A = ap.parse_args()
assert not any(f.startswith('/') for f in A.files), 'files are relative to BASE'
rng = random.Random(A.s); jobs = []
for f in A.files:
    L, c = cands(os.path.join(A.b, f)); c = [x for x in dict.fromkeys(c) if x[1].strip() != L[x[0]].strip()]
    for n, new in rng.sample(c, min(A.n, len(c))): jobs.append((A.b, f, n, L[n], new, L))
print(len(jobs), 'mutants', flush=True)
if A.list:
    for j in jobs: print(j[1], j[2] + 1, '|', j[3].strip(), '=>', j[4].strip())
    sys.exit()
rng.shuffle(jobs); k = c1 = 0
with ThreadPoolExecutor(A.j) as ex:
    for fu in as_completed([ex.submit(one, j) for j in jobs]):
        f, n, old, new, res = fu.result()
        rc = res[-1][1] if res else None
        if rc == 0 or rc is None or rc not in (1,):
            k += 1; print('%s %s:%d | %s  =>  %s %s' % ('SURVIVED' if rc == 0 else 'RC=%s' % rc, f, n, old, new, '' if rc == 0 else res), flush=True)
        else:
            c1 += 1
            if 'ompil' in res[-1][2] or 'build' in res[-1][2]: print('build   %s:%d | %s  =>  %s | %s' % (f, n, old, new, res[-1][2][:160]), flush=True)
            else: print('caught  %s:%d | %s  =>  %s | %s' % (f, n, old[:80], new[:80], res[-1][0]), flush=True)
print('survived', k, 'caught', c1)
