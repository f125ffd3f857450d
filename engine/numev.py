"""Numeric evaluation of terms: searches for a counter-model of a failed obligation
and checks that the preconditions of every contract are satisfiable (vacuity)."""
import random, math, hashlib, time
from fractions import Fraction
from term import *
import nf as NF
import loops as LP
import z3

POS = set()          # rapp names that denote positive reals
RANGE = {}           # rapp name -> (lo, hi)
INTR = {}            # iapp name -> callable(*args)->int


class Stop(Exception):
    pass


def h01(*k):
    d = hashlib.blake2b(repr(k).encode(), digest_size=8).digest()
    return int.from_bytes(d, 'big') / 2.0 ** 64


class Model:
    def __init__(s, seed, ints=None, deadline=None, maxint=3, sym=(), lattice=False):
        s.seed = seed
        s.lattice = lattice         # values from a coarse grid: coincidences (zeros, ties) occur
        s.ints = dict(ints or {})
        s.memo = {}
        s.fvals = {}
        s.deadline = deadline
        s.maxint = maxint
        s.invs = {}
        s.depth = 0
        s.n = 0
        s.pool = None               # values around the constants of the code, for scalars
        s.omap = {}                 # two arguments may be one object

    def key(s, v):
        if isinstance(v, float): return round(v, 7) + 0.0
        if isinstance(v, tuple): return tuple(s.key(x) for x in v)
        return v

    def ev(s, t, env=None):
        s.n += 1
        if (s.n & 1023) == 0 and s.deadline and time.time() > s.deadline: raise Stop('time')
        env = env or {}
        if t.fv:
            e = tuple(sorted((v, env[v]) for v in t.fv if v in env))
        else: e = ()
        k = (t, e)
        r = s.memo.get(k)
        if r is not None: return r
        s.depth += 1
        if s.depth > 600:
            s.depth -= 1
            raise Stop('depth')
        try:
            r = s.ev_(t, dict(e))
        finally:
            s.depth -= 1
        s.memo[k] = r
        return r

    def ev_(s, t, env):
        op, a = t.op, t.a
        E = lambda x: s.ev(x, env)
        if op == 'num': return float(a[0])
        if op == 'lin': return a[0] + sum(k * E(x) for x, k in a[1])
        if op == 'iv':
            if a[0] in env: return env[a[0]]
            if a[0] in s.ints: return s.ints[a[0]]
            v = int(h01(s.seed, 'iv', a[0]) * (s.maxint + 1))
            s.ints[a[0]] = v
            return v
        if op == 'i2r': return float(E(a[0]))
        if op == 'add':
            return math.fsum(E(x) for x in a)
        if op == 'mul':
            r = 1.0
            for x in a: r *= E(x)
            return r
        if op == 'imul':
            r = 1
            for x in a: r *= E(x)
            return r
        if op == 'idiv':
            q = E(a[1])
            if q == 0: raise Stop('div0')
            x = E(a[0])
            return int(x / q) if x * q < 0 else x // q
        if op == 'imod':
            q = E(a[1])
            if q == 0: raise Stop('div0')
            return E(a[0]) % q
        if op == 'pow':
            b = E(a[0])
            if b == 0 and a[1] < 0: raise Stop('pole')
            return b ** a[1]
        if op in ('ite', 'iite', 'oite'): return E(a[1]) if E(a[0]) else E(a[2])
        if op == 'true': return True
        if op == 'false': return False
        if op == 'not': return not E(a[0])
        if op == 'and': return all(E(x) for x in a)
        if op == 'or': return any(E(x) for x in a)
        if op == 'ile': return E(a[0]) <= 0
        if op == 'ieq': return E(a[0]) == 0
        if op == 'rle': return E(a[0]) <= E(a[1])
        if op == 'rlt': return E(a[0]) < E(a[1])
        if op == 'req':
            x, y = E(a[0]), E(a[1])
            return abs(x - y) <= 1e-9 * (1 + abs(x) + abs(y))
        if op == 'oeq':
            x, y = E(a[0]), E(a[1])
            return s.omap.get(x, x) == s.omap.get(y, y)
        if op in ('sum', 'isum'):
            v, lo, hi, b = a
            return (math.fsum if op == 'sum' else sum)(s.ev(b, dict(env, **{v: k})) for k in s.rng(E(lo), E(hi)))
        if op == 'maxo':
            v, lo, hi, b = a
            return max([0.0] + [s.ev(b, dict(env, **{v: k})) for k in s.rng(E(lo), E(hi))])
        if op == 'ball':
            v, lo, hi, b = a
            return all(s.ev(b, dict(env, **{v: k})) for k in s.rng(E(lo), E(hi)))
        if op == 'bex':
            v, lo, hi, b = a
            return any(s.ev(b, dict(env, **{v: k})) for k in s.rng(E(lo), E(hi)))
        if op == 'fn':
            name = a[0]; x = [E(y) for y in a[1:]]
            try:
                if name == 'sqrt':
                    if x[0] < 0: raise Stop('sqrt')
                    return math.sqrt(x[0])
                if name == 'abs': return abs(x[0])
                if name == 'max': return max(x)
                if name == 'min': return min(x)
                if name in ('exp', 'sin', 'cos', 'tan', 'tanh', 'floor', 'ceil'): return float(getattr(math, name)(x[0]))
                if name == 'log':
                    if x[0] <= 0: raise Stop('log')
                    return math.log(x[0])
                if name == 'pow': return math.pow(x[0], x[1])
                if name == 'atan2': return math.atan2(x[0], x[1])
            except (OverflowError, ValueError):
                raise Stop('overflow')
            raise Stop('fn ' + name)
        if op == 'lam':
            vs, b, dims = a
            ds = [E(d) for d in dims]
            if any(d > 40 for d in ds): raise Stop('dim')
            if len(vs) == 1:
                return ('L',) + tuple(s.ev(b, dict(env, **{vs[0]: i})) for i in range(max(0, ds[0])))
            if len(vs) == 2:
                return ('L',) + tuple(tuple(s.ev(b, dict(env, **{vs[0]: i, vs[1]: j})) for j in range(max(0, ds[1]))) for i in range(max(0, ds[0])))
            raise Stop('lam')
        if op in ('rapp', 'iapp', 'bapp', 'oapp'):
            name = a[0]
            args = tuple(E(x) for x in a[1])
            if name in NF.DEFS:
                if isinstance(args[0], int) and args[0] < 0: raise Stop('tau<0')
                # definitions take terms: pass fresh variables bound to the values
                nv = [fresh('e') for _ in args]
                key = ('def', name)
                d = s.fvals.get(key)
                if d is None or len(d[0]) != len(args):
                    body = NF.DEFS[name](*[iv(x) if y.s == 'i' else y for x, y in zip(nv, a[1])])
                    if all(y.s == 'i' for y in a[1]): s.fvals[key] = (nv, body)
                    d = (nv, body)
                en = dict(env)
                en.update({x: v for x, v in zip(d[0], args) if isinstance(v, int)})
                return s.ev(d[1], en)
            if name in NF.DECODE:
                import itertools
                for n, pos, cond, val in NF.DECODE[name]:
                    vs = ['?%d' % k for k in range(n)]
                    P, C, W = pos(*map(iv, vs)), cond(*map(iv, vs)), val(*map(iv, vs))
                    for x in itertools.product(range(6), repeat=n):
                        en = dict(env); en.update(zip(vs, x))
                        if s.ev(P, en) == args[0] and s.ev(C, en): return s.ev(W, en)
                return float('nan')
            if name in NF.SCATS:
                cond_at, val_at, base = NF.SCATS[name](*a[1])
                for k in range(args[0] - 1, -1, -1):
                    if s.ev(cond_at(ic(k)), env): return s.ev(val_at(ic(k)), env)
                return s.ev(base, env)
            if name in NF.FILTS:
                cond_at, cnt = NF.FILTS[name](*a[1][:-1])
                left = args[-1]
                for k in range(0, max(0, args[0])):
                    if s.ev(cond_at(ic(k)), env):
                        if left == 0: return k
                        left -= 1
                return 0
            if name in LP.NFDEF_EXIT:
                tau, N, ex_, cont = LP.NFDEF_EXIT[name]
                for k in range(0, 30):
                    if s.ev(ex_, dict(env, **{tau: k})): return k
                raise Stop('no exit')
            if name in ('inv', 'sinv'):
                return s.inverse(args[0], args[1], args[2])
            if name in ('kern', 'hhQ', 'permP'):
                return s.factor(name, args[0], args[1], args[2])
            if name == 'isnan' and 'isnan' in INTR: return INTR['isnan'](*args)
            if name == 'raiseIfNaN' or name == 'isnan' or name == 'isinf': return False
            if name == 'isfinite': return True
            if name == 'INF': return 1e30
            if name == 'DBL_MAX': return 1e29
            if name == 'DBL_EPS': return 2.220446049250313e-16
            if name in INTR: return INTR[name](*args)
            k = (op, name, s.key(args))
            if op == 'oapp': return ('o', name, s.key(args))
            r = s.fvals.get(k)
            if r is None:
                if op == 'iapp' and (name, args) in s.ints: r = s.ints[(name, args)]
                else:
                    x = h01(s.seed, k)
                    if op == 'rapp':
                        lo, hi = RANGE.get(name, (0.2, 2.0) if name in POS else (-2.0, 2.0))
                        if s.lattice: x = int(x * 4.999) / 4
                        ps = s.pool and not any(isinstance(q, int) for q in args) and h01(s.seed, k, 'pool') < 0.5 and [q for q in s.pool if lo < q < hi]
                        if ps: r = ps[int(x * 0.9999 * len(ps))]
                        else: r = 0.0 if s.lattice and lo < 0 and s.structured(name, args) else lo + (hi - lo) * x
                    elif op == 'iapp':
                        r = int(x * (s.maxint + 1))
                        if r < 1 and h01(s.seed, k, 1) < 0.5: r = 1
                    else: r = x < 0.5
                s.fvals[k] = r
            return r
        raise Stop('op ' + op)

    def structured(s, name, args):
        """some arrays are zero, have a zero diagonal, or are diagonal"""
        x = h01(s.seed, name, 'structure')
        if x < 0.2: return True
        ii = [a for a in args if isinstance(a, int) and not isinstance(a, bool)]
        if len(ii) < 2 or x > 0.5: return False
        return (ii[-1] == ii[-2]) == (x < 0.35)

    def rng(s, lo, hi):
        if hi - lo > 200: raise Stop('range')
        return range(lo, hi)

    def factor(s, name, L, i, j):
        """one of the admissible results of a rank-revealing decomposition of a full-rank matrix"""
        import numpy as np
        k = (name, s.key(L))
        M = s.invs.get(k)
        if M is None:
            A = np.array([list(r) for r in L[1:]], dtype=float)
            if A.ndim != 2 or 0 in A.shape: raise Stop('factor shape')
            if name == 'permP': M = np.eye(A.shape[0])[::-1]
            else:
                if np.linalg.matrix_rank(A, 1e-3) < min(A.shape): raise Stop('rank')
                if name == 'hhQ': M = np.linalg.qr(A, mode='complete')[0]
                else: M = np.linalg.svd(A)[2][A.shape[0]:].T if A.shape[0] < A.shape[1] else np.zeros((A.shape[1], 1))
            s.invs[k] = M
        if not (0 <= i < M.shape[0] and 0 <= j < M.shape[1]): raise Stop('factor index')
        return float(M[i, j])

    def inverse(s, L, i, j):
        import numpy as np
        k = s.key(L)
        M = s.invs.get(k)
        if M is None:
            A = np.array([list(r) for r in L[1:]], dtype=float)
            if A.ndim != 2 or A.shape[0] != A.shape[1]: raise Stop('inv shape')
            if A.shape[0] and abs(np.linalg.det(A)) < 1e-6: raise Stop('singular')
            M = np.linalg.inv(A) if A.shape[0] else A
            s.invs[k] = M
        if not (0 <= i < M.shape[0] and 0 <= j < M.shape[1]): raise Stop('inv index')
        return float(M[i, j])


def int_models(facts, count, rnd):
    """integer assignments satisfying the integer facts (from z3, diversified)"""
    F = NF.Facts(facts)
    sol = F.solver()
    atoms = {}
    for f in facts:
        for x in walk(f):
            if x.op == 'iv' or (x.op == 'iapp' and not x.fv and all(isc(y) for y in x.a[1] if isinstance(y, T))):
                atoms[x] = F.zc.i(x)
    F.flush()
    out = []
    items = sorted(atoms.items(), key=lambda p: p[0].id)
    for n in range(count):
        sol.push()
        for x, z in items:
            sol.add(z <= 4, z >= -6)
        if sol.check() != z3.sat:
            sol.pop(); sol.push()
        soft = items[:]
        rnd.shuffle(soft)
        for x, z in soft:
            v = rnd.randint(0 if n % 3 == 2 else 1, 3)
            sol.push(); sol.add(z == v)
            if sol.check() != z3.sat:
                sol.pop(); sol.push()
        if sol.check() == z3.sat:
            m = sol.model()
            d = {}
            for x, z in items:
                v = m.eval(z, model_completion=True)
                try: v = v.as_long()
                except Exception: continue
                if x.op == 'iv': d[x.a[0]] = v
                else: d[(x.a[0], tuple(icv(y) for y in x.a[1]))] = v
            out.append(d)
        sol.reset() if False else None
        while sol.num_scopes() > 0: sol.pop()
    return out


def refute(goal_fn, facts, samples=24, budget=8.0, seed=1, want=(), terms=()):
    """goal_fn(model) -> (holds, description). returns ('refuted', info) | ('held', n)"""
    rnd = random.Random(seed)
    end = time.time() + budget
    held = 0
    why = {}
    try:
        ims = int_models(list(facts), min(samples, 10), rnd)
    except Exception as e:
        ims = []
    if want:
        # integer assignments that break the goal, as far as its integers decide it
        try: ims = [x for p in zip(int_models(list(facts) + list(want), min(samples, 10), rnd), ims * 2) for x in p] or ims
        except Exception: pass
    names = ('data', 'created', 'null', 'new')
    pairs = [x for f in list(facts) + list(terms) for x in walk(f) if x.op == 'oeq' and not any(k in str(y.a[0]) for y in x.a for k in names)]
    pairs = list(dict.fromkeys(p for p in pairs if all(y.op == 'oapp' and not y.fv for y in p.a)))
    cs = sorted({float(y.a[0]) for f in list(facts) + list(terms) for x in walk(f) if x.op in ('rle', 'rlt', 'req') for y in walk(x) if y.op == 'num' and abs(float(y.a[0])) < 1e6})[:40]
    pool = sorted(set(cs) | {(x + y) / 2 for x, y in zip(cs, cs[1:])} | {x + e for x in cs for e in (1e-3, -1e-3)})
    start = time.time()
    for n in range(8 * samples):
        if time.time() > end or (held >= samples and time.time() > start + 1.5) or held >= 4 * samples: break
        m = Model(seed * 1000 + n, ims[n % len(ims)] if ims else None, end, lattice=n % 3 == 2)
        if n % 3 == 1: m.pool = pool
        try:
            if pairs and n % 4 == 3:
                x, y = pairs[n // 4 % len(pairs)].a
                m.omap = {m.ev(y): m.ev(x)}
            if not all(m.ev(f) for f in facts):
                why['facts'] = why.get('facts', 0) + 1
                continue
            ok, info = goal_fn(m)
        except Stop as e:
            why[str(e)] = why.get(str(e), 0) + 1
            continue
        except RecursionError:
            continue
        if not ok:
            return 'refuted', info
        held += 1
    return 'held', (held, why)


def refute_eq(a, b, facts, **kw):
    def g(m):
        x, y = m.ev(a), m.ev(b)
        ok = abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y))
        return ok, {'got': x, 'want': y, 'ints': {str(k): v for k, v in m.ints.items()}}
    return refute(g, facts, terms=(a, b), **kw)


def refute_bool(c, facts, **kw):
    def g(m):
        return bool(m.ev(c)), {'ints': {str(k): v for k, v in m.ints.items()}}
    return refute(g, facts, want=(bnot(c),), terms=(c,), **kw)
