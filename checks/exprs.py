"""Formulas: every operator within every other at every operand, and seeded deeper ones."""
import random, json
# S: terms, B: truth values.  The operands of an operator are of the same kind.
ARI = ['+', '-', '*', '/', 'pow', 'max', 'min']
CMP = ['==', '!=', '>', '>=', '<', '<=']
LOG = ['&&', '||']
UN = ['neg', 'sqrt', 'exp', 'log', 'sin', 'cos']
V = [['v', 'x'], ['v', 'y'], ['v', 'z']]
S = [['s', 'k'], ['s', 'hh']]
B = [['s', '1'], ['s', '0']]
NAME = {'k': 'k', 'hh': 'h', '1': 'yes', '0': 'no'}
# the ways to use an operator: result, operands
SIG = [(o, 'S', 'S') for o in UN] + [(o, 'S', 'SS') for o in ARI] + [(o, 'B', 'SS') for o in CMP] + [(o, 'B', k) for o in LOG for k in ('SS', 'BB')] + [('if', r, c + r + r) for r in 'SB' for c in 'SB']
def isexpr(t): return t[0] != 's'
def cpp(t):
    if t[0] == 'v': return t[1].upper()
    if t[0] == 's': return NAME[t[1]]
    a = [cpp(x) for x in t[1:]]
    if t[0] == 'if': return 'if_then_else(%s,%s,%s)' % tuple(a)
    if t[0] == 'neg': return '(-%s)' % a[0]
    # qualified: Kokkos::min and max would be found first for operands of the same type
    if t[0][0].isalpha(): return 'ekat::%s(%s)' % (t[0], ','.join(a))
    return '(%s%s%s)' % (a[0], t[0], a[1])
def leaf(k, r, scalar):
    if k == 'S': return r.choice(S if scalar else V)
    return r.choice(B) if scalar else [r.choice(CMP), r.choice(V), r.choice(V + S)]
def fill(sig, r, scal):
    """an operator over leaves; scal: which of them are plain numbers"""
    return [sig[0]] + [leaf(k, r, s) for k, s in zip(sig[2], scal)]
def forms(n):
    """all ways to have plain operands, but for none or all"""
    return [[bool(b >> i & 1) for i in range(n)] for b in range((1 << n) - 1)]
def deep(k, r, d):
    sig = r.choice([s for s in SIG if s[1] == k])
    t = [sig[0]] + [deep(q, r, d - 1) if d > 1 and r.random() < .75 else leaf(q, r, False) for q in sig[2]]
    if len(t) > 2 and r.random() < .3: p = r.randrange(1, len(t)); t[p] = leaf(sig[2][p - 1], r, True)
    return t
def trees(seed, thorough):
    r = random.Random(seed); res = []
    for s in SIG:
        for f in forms(len(s[2])): res += [fill(s, r, f) for _ in range(2)]
    for s in SIG:
        for p, k in enumerate(s[2]):
            for i in SIG:
                if i[1] != k: continue
                t = fill(s, r, r.choice(forms(len(s[2])))); t[p + 1] = fill(i, r, r.choice(forms(len(i[2])))); res.append(t)
    for _ in range(400 if thorough else 90): res.append(deep(r.choice('SSB'), r, r.choice([3, 3, 4])))
    return res
def include(ts): return ''.join('T(%s,%s);\n' % (json.dumps(json.dumps(t, separators=(',', ':'))), cpp(t)) for t in ts)
