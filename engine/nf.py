"""Index-tensor normaliser and prover.

Decides equalities of symbolic tensor entries (sums of products of opaque
entries over symbolic index ranges, with block/case structure), for all values
of the dimensions and of the entries.  Index side conditions go to z3.
"""
import time, itertools
import z3
from fractions import Fraction
from term import *
import term as TM

STATS = {'z3_queries': 0, 'z3_time': 0.0, 'nf': 0}
NONNEG = set()          # iapp names known to be >= 0 (sizes)
DEFS = {}               # recursive function name -> callable(tau, *rest) -> term
DECODE = {}             # value listed at a position: name -> [(number of indices, position, condition, value)], positions pairwise distinct
SCATS = {}              # block scatters: name -> callable(tau, *rest) -> (cond_at, val_at, base)
FILTS = {}              # conditional appends: name -> callable(t, *vars) -> (cond_at, count_before)
INT_LEMMAS = []         # callables(term)-> list of bool facts, instantiated on iapp/isum atoms
REAL_FACTS = {}         # rapp name -> callable(args) -> list of bool facts (e.g. positivity)


class NeedSplit(Exception):
    def __init__(s, cond):
        s.cond = cond


class GiveUp(Exception):
    pass


Z3TIMEOUT = 3000
CONG = [False]


_RO = {}


def real_only(f):
    x = f.a[0] if f.op == 'not' else f
    if x.op not in ('rle', 'rlt', 'req'): return False
    r = _RO.get(x)
    if r is None: r = _RO[x] = not any(y.op in ('i2r', 'ite', 'iite') for y in walk(x))
    return r


def int_only(c):
    x = c.a[0] if c.op == 'not' else c
    return x.op in ('ile', 'ieq')


class Facts:
    """set of known boolean facts; immutable from outside (extend() makes a new one)"""
    def __init__(s, facts=(), parent=None):
        s.facts = frozenset(facts)
        s.cache = {}
        s._sol = None
        s.zc = None
        s.parent = parent
        s._int = None
        s.memo = {}

    def extend(s, *cs):
        new = set(s.facts)
        for c in cs:
            c = tobool(c)
            if c.op == 'and':
                new.update(c.a)
            elif c is not TRUE:
                new.add(c)
        if len(new) == len(s.facts):
            return s
        return Facts(new)

    def solver(s):
        if s._sol is None:
            s.zc = ZConv()
            sol = z3.SolverFor('QF_UFLIRA') if False else z3.Solver()
            sol.set('timeout', Z3TIMEOUT)
            for f in sorted(s.facts, key=lambda x: x.id):
                z = s.zc.b(f)
                sol.add(z)
            s._sol = sol
            s.flush()
        return s._sol

    def flush(s):
        for z in s.zc.take():
            s._sol.add(z)

    def decide(s, c):
        if c is TRUE: return True
        if c is FALSE: return False
        r = s.cache.get(c, 0)
        if r != 0:
            return r
        if c in s.facts:
            r = True
        elif bnot(c) in s.facts:
            r = False
        elif int_only(c) and any(real_only(f) for f in s.facts):
            # comparisons of reals say nothing about index conditions
            if s._int is None: s._int = Facts(f for f in s.facts if not real_only(f))
            r = s._int.decide(c)
        else:
            sol = s.solver()
            z = s.zc.b(c)
            s.flush()
            t0 = time.time()
            STATS['z3_queries'] += 1
            r = None
            try:
                sol.push(); sol.add(z3.Not(z)); k = sol.check(); sol.pop()
                if k == z3.unsat:
                    r = True
                else:
                    sol.push(); sol.add(z); k = sol.check(); sol.pop()
                    if k == z3.unsat:
                        r = False
            finally:
                STATS['z3_time'] += time.time() - t0
        s.cache[c] = r
        return r

    def holds(s, c):
        return s.decide(tobool(c)) is True

    def excluded(s, c):
        """c is false under the facts (one direction of decide)"""
        if c is TRUE or c is FALSE or c in s.cache or c in s.facts or bnot(c) in s.facts: return s.decide(c) is False
        if int_only(c) and any(real_only(f) for f in s.facts):
            if s._int is None: s._int = Facts(f for f in s.facts if not real_only(f))
            return s._int.excluded(c)
        sol = s.solver()
        z = s.zc.b(c)
        s.flush()
        t0 = time.time()
        STATS['z3_queries'] += 1
        try:
            sol.set('timeout', 1000)
            sol.push(); sol.add(z); k = sol.check(); sol.pop()
        finally:
            sol.set('timeout', Z3TIMEOUT)
            STATS['z3_time'] += time.time() - t0
        if k == z3.unsat: s.cache[c] = False
        return k == z3.unsat

    def consistent(s):
        sol = s.solver()
        return sol.check() != z3.unsat


def inonneg(t, vs=frozenset()):
    if isc(t): return icv(t) >= 0
    if t.op == 'iv': return t.a[0] in vs
    if t.op == 'iapp': return t.a[0] in NONNEG or t.a[0].startswith(('rows:', 'cols:', 'size:'))
    if t.op == 'iite': return inonneg(t.a[1], vs) and inonneg(t.a[2], vs)
    if t.op == 'lin': return t.a[0] >= 0 and all(k >= 0 and inonneg(x, vs) for x, k in t.a[1])
    if t.op == 'imul': return all(inonneg(x, vs) for x in t.a)
    if t.op == 'isum': return inonneg(t.a[3], vs | {t.a[0]} if isc(t.a[1]) and icv(t.a[1]) >= 0 else vs)
    return False


def dominated(x, y):
    """x = (c and d ? v : 0) <= y = (c ? v : 0) for non-negative v"""
    if not inonneg(x) or not inonneg(y): return False
    if x.op != 'iite' or not (isc(x.a[2]) and icv(x.a[2]) == 0): return False
    if x.a[1] is y: return True
    if y.op != 'iite' or y.a[1] is not x.a[1] or y.a[2] is not x.a[2]: return False
    cs = lambda c: set(c.a) if c.op == 'and' else {c}
    return cs(y.a[0]) <= cs(x.a[0])


class ZConv:
    def __init__(s):
        s.m = {}
        s.side = []
        s.atoms = {}
        s.isums = []
        s.doneside = set()
        s.apps = {}

    def cong(s, t, r, real):
        """functional consistency of applications whose arguments are all integers"""
        name, args = t.a[0], (t.a[1] if len(t.a) > 1 else ())
        if not args or not all(getattr(x, 's', None) == 'i' for x in args): return
        if real and not CONG[0]: return
        l = s.apps.setdefault((name, len(args), t.op), [])
        if len(l) >= 14: return
        for u, ru in l:
            s.side.append(z3.Implies(z3.And([s.i(x) == s.i(y) for x, y in zip(args, u.a[1])]), r == ru))
        l.append((t, r))

    def take(s):
        r, s.side = s.side, []
        return r

    def i(s, t):
        r = s.m.get(t)
        if r is not None: return r
        op, a = t.op, t.a
        if op == 'lin':
            r = z3.IntVal(a[0])
            for x, k in a[1]:
                r = r + k * s.i(x)
        elif op == 'iv':
            r = z3.Int(a[0])
        elif op == 'imul':
            r = s.i(a[0])
            for x in a[1:]:
                r = r * s.i(x)
        elif op == 'idiv':
            if isc(a[1]) and icv(a[1]) > 0:
                # C++ truncation; all uses are on non-negative operands
                r = s.i(a[0]) / s.i(a[1])
            else:
                r = z3.Int('q%d' % t.id)
        elif op == 'imod':
            if isc(a[1]) and icv(a[1]) > 0:
                r = s.i(a[0]) % s.i(a[1])
            else:
                r = z3.Int('m%d' % t.id)
        elif op == 'iite':
            r = z3.If(s.b(a[0]), s.i(a[1]), s.i(a[2]))
        else:
            r = z3.Int('u%d' % t.id)
            if op == 'iapp' and (a[0] in NONNEG or a[0].startswith('rows:') or a[0].startswith('cols:') or a[0].startswith('size:')):
                s.side.append(r >= 0)
            s.m[t] = r
            if op == 'iapp': s.cong(t, r, False)
            if op == 'isum': s.isum_lemmas(t)
            if op == 'iapp' and a[0] in FILTS:
                # the element at position p of a filtered list: an iteration at which the condition held, p of them before it
                cond_at, cnt = FILTS[a[0]](*a[1][:-1])
                p = a[1][-1]
                f = bor(bnot(band(ile(ic(0), p), ilt(p, cnt(a[1][0])))), band(ile(ic(0), t), ilt(t, a[1][0]), cond_at(t), ieq(cnt(t), p)))
                if f not in s.doneside:
                    s.doneside.add(f); s.side.append(s.b(f))
            for lem in INT_LEMMAS:
                for f in lem(t):
                    if f not in s.doneside:
                        s.doneside.add(f)
                        s.side.append(s.b(f))
        s.m[t] = r
        return r

    def isum_lemmas(s, t):
        v, lo, hi, b = t.a
        nn = inonneg(t)
        if nn: s.side.append(s.i(t) >= 0)
        s.side.append(z3.Implies(s.i(hi) <= s.i(lo), s.i(t) == 0))
        if nn:
            b0 = s.i(subst(b, {v: lo}))
            s.side.append(z3.Implies(s.i(hi) > s.i(lo), s.i(t) >= b0))
            s.side.append(z3.Implies(s.i(hi) == s.i(lo) + 1, s.i(t) == b0))
        old = list(s.isums)
        s.isums.append(t)
        if len(s.isums) > 14: return
        istri = lambda u: u.a[3].op == 'iv' and u.a[3].a[0] == u.a[0] and u.a[1] is ic(0)
        if istri(t):
            tr = [u for u in s.isums if istri(u)][:6]
            for x in tr:
                for y, z in itertools.combinations(tr, 2):
                    if x is y or x is z or t not in (x, y, z): continue
                    # P(x) + x <= P(y+z) for x < y + z
                    hx, hy, hz = x.a[2], y.a[2], z.a[2]
                    s.side.append(z3.Implies(z3.And(s.i(hx) >= 0, s.i(hy) >= 0, s.i(hz) >= 0, s.i(hx) < s.i(hy) + s.i(hz)), s.i(x) + s.i(hx) <= s.i(y) + s.i(z) + s.i(imul(hy, hz))))
        for u in old:
            w, lo2, hi2, b2 = u.a
            if lo2 is not lo: continue
            if hi2 is hi and complementary(subst(b, {v: iv('σσ')}), subst(b2, {w: iv('σσ')})):
                s.side.append(z3.Implies(s.i(hi) >= s.i(lo), s.i(t) + s.i(u) == s.i(hi) - s.i(lo)))
            if subst(b2, {w: iv('σσ')}) is not subst(b, {v: iv('σσ')}):
                for x, y in ((t, u), (u, t)):
                    # a sum over fewer items of the same non-negative quantity is not larger
                    if not dominated(subst(x.a[3], {x.a[0]: iv('σσ')}), subst(y.a[3], {y.a[0]: iv('σσ')})): continue
                    hx, hy = x.a[2], y.a[2]
                    bx = subst(x.a[3], {x.a[0]: hx})
                    s.side.append(z3.Implies(z3.And(s.i(hx) >= s.i(lo), s.i(hx) <= s.i(hy)), s.i(x) <= s.i(y)))
                    s.side.append(z3.Implies(z3.And(s.i(hx) >= s.i(lo), s.i(hx) < s.i(hy)), s.i(x) + s.i(bx) <= s.i(y)))
                continue
            for x, y in ((t, u), (u, t)):
                hx, hy = x.a[2], y.a[2]
                bx = subst(x.a[3], {x.a[0]: hx})
                ok = s.i(hx) >= s.i(lo)
                if nn:
                    s.side.append(z3.Implies(z3.And(ok, s.i(hx) <= s.i(hy)), s.i(x) <= s.i(y)))
                    s.side.append(z3.Implies(z3.And(ok, s.i(hx) < s.i(hy)), s.i(x) + s.i(bx) <= s.i(y)))
                s.side.append(z3.Implies(z3.And(ok, s.i(hx) + 1 == s.i(hy)), s.i(x) + s.i(bx) == s.i(y)))
            s.side.append(z3.Implies(s.i(hi) == s.i(hi2), s.i(t) == s.i(u)))

    def b(s, t):
        r = s.m.get(t)
        if r is not None: return r
        op, a = t.op, t.a
        if op == 'true': r = z3.BoolVal(True)
        elif op == 'false': r = z3.BoolVal(False)
        elif op == 'ile': r = s.i(a[0]) <= 0
        elif op == 'ieq': r = s.i(a[0]) == 0
        elif op == 'not': r = z3.Not(s.b(a[0]))
        elif op == 'and': r = z3.And([s.b(x) for x in a])
        elif op == 'or': r = z3.Or([s.b(x) for x in a])
        elif op == 'rle': r = s.r(a[0]) <= s.r(a[1])
        elif op == 'rlt': r = s.r(a[0]) < s.r(a[1])
        elif op == 'req': r = s.r(a[0]) == s.r(a[1])
        else:
            r = z3.Bool('p%d' % t.id)
            s.m[t] = r
            if op == 'bapp': s.cong(t, r, True)
        s.m[t] = r
        return r

    def r(s, t):
        r = s.m.get(t)
        if r is not None: return r
        op, a = t.op, t.a
        if op == 'num': r = z3.RealVal(a[0])
        elif op == 'add':
            r = s.r(a[0])
            for x in a[1:]: r = r + s.r(x)
        elif op == 'mul':
            r = s.r(a[0])
            for x in a[1:]: r = r * s.r(x)
        elif op == 'ite': r = z3.If(s.b(a[0]), s.r(a[1]), s.r(a[2]))
        elif op == 'i2r': r = z3.ToReal(s.i(a[0]))
        elif op == 'pow' and 0 < a[1] <= 4:
            b = s.r(a[0]); r = b
            for _ in range(a[1] - 1): r = r * b
        elif op == 'pow' and a[1] < 0:
            b = s.r(a[0])
            iv_ = z3.Real('inv%d' % t.id)
            p = b
            for _ in range(-a[1] - 1): p = p * b
            s.side.append(z3.Implies(b != 0, iv_ * p == 1))
            r = iv_
        elif op == 'fn' and a[0] == 'max':
            x, y = s.r(a[1]), s.r(a[2]); r = z3.If(x >= y, x, y)
        elif op == 'fn' and a[0] == 'min':
            x, y = s.r(a[1]), s.r(a[2]); r = z3.If(x <= y, x, y)
        elif op == 'fn' and a[0] == 'abs':
            x = s.r(a[1]); r = z3.If(x >= 0, x, -x)
        elif op == 'fn' and a[0] == 'sqrt':
            x = s.r(a[1]); r = z3.Real('sq%d' % t.id)
            s.side.append(r >= 0)
            s.side.append(z3.Implies(x >= 0, r * r == x))
        else:
            r = z3.Real('r%d' % t.id)
            if op == 'fn' and a[0] == 'exp':
                s.side.append(r > 0)
            s.m[t] = r
            if op == 'rapp': s.cong(t, r, True)
            if op == 'rapp' and a[0] in REAL_FACTS:
                for f in REAL_FACTS[a[0]](*a[1]):
                    if f not in s.doneside:
                        s.doneside.add(f)
                        s.side.append(s.b(f))
        s.m[t] = r
        return r


# ------------------------------------------------------------------ polynomials
# poly: dict  (ranges, factors) -> Fraction ; ranges: tuple of (v, lo, hi); factors: tuple of (T, exp)
ONEK = ((), ())


def padd(p, q, k=1):
    if not q: return p
    r = dict(p)
    for m, c in q.items():
        x = r.get(m, 0) + c * k
        if x == 0:
            r.pop(m, None)
        else:
            r[m] = x
    return r


def pconst(c):
    return {ONEK: Fraction(c)} if c else {}


def patom(t, e=1):
    return {((), ((t, e),)): Fraction(1)}


LIMIT = 20000


class Ctx:
    def __init__(s, unfold=(), expand=False, indic=EMPTY, depth=0):
        s.unfold = frozenset(unfold)
        s.expand = expand
        s.deadline = None
        s.elims = ()


CTX = Ctx()


def undef(name, args):
    """definition of a recurrence, under the equalities already eliminated on this proof branch"""
    r = DEFS[name](*args)
    for e in CTX.elims: r = e(r)
    return r


def rename_ranges(m):
    rg, fs = m
    mp = {}
    for v, lo, hi in rg:
        mp[v] = iv(fresh('s'))
    nr = tuple((mp[v].a[0], subst(lo, mp), subst(hi, mp)) for v, lo, hi in rg)
    nf_ = tuple((subst(t, mp), e) for t, e in fs)
    return nr, nf_


def pmul(p, q, F):
    if not p or not q: return {}
    if len(p) * len(q) > LIMIT: raise GiveUp('poly size')
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            if m1 == ONEK:
                m = m2
                x = r.get(m, 0) + c1 * c2
                if x == 0: r.pop(m, None)
                else: r[m] = x
                continue
            if m2 == ONEK:
                m = m1
                x = r.get(m, 0) + c1 * c2
                if x == 0: r.pop(m, None)
                else: r[m] = x
                continue
            mm = m2
            if m1[0] and m2[0]:
                s1 = {v for v, _, _ in m1[0]}
                if any(v in s1 for v, _, _ in m2[0]):
                    mm = rename_ranges(m2)
            rg = m1[0] + mm[0]
            d = {}
            for t, e in m1[1]:
                d[t] = d.get(t, 0) + e
            for t, e in mm[1]:
                d[t] = d.get(t, 0) + e
            extra = None
            fs = []
            for t, e in d.items():
                if e == 0: continue
                if t.op == 'fn' and t.a[0] == 'sqrt' and (e >= 2 or e <= -2):
                    h, e2 = (e // 2, e % 2) if e > 0 else (-((-e) // 2), -((-e) % 2))
                    base = t.a[1]
                    if h > 0:
                        pb = nf(base, F)
                        ex = pb
                        for _ in range(h - 1): ex = pmul(ex, pb, F)
                    else:
                        ex = nf(rpow(base, h), F)
                    extra = ex if extra is None else pmul(extra, ex, F)
                    if e2: fs.append((t, e2))
                    continue
                if t.op == 'fn' and t.a[0] == 'sin' and e >= 2:
                    c = mk('fn', ('cos', t.a[1]), 'r')
                    ex = padd(pconst(1), patom(c, 2), -1)
                    tot = ex
                    for _ in range(e // 2 - 1): tot = pmul(tot, ex, F)
                    extra = tot if extra is None else pmul(extra, tot, F)
                    if e % 2: fs.append((t, 1))
                    continue
                if t.op == 'ite' and e > 1:   # indicator
                    e = 1
                fs.append((t, e))
            fs.sort(key=lambda z: (z[0].id, z[1]))
            m = (rg, tuple(fs))
            if extra is not None:
                base = {m: c1 * c2}
                r = padd(r, pmul(base, extra, F))
                continue
            x = r.get(m, 0) + c1 * c2
            if x == 0: r.pop(m, None)
            else: r[m] = x
    return r


def mono_term(m, c):
    rg, fs = m
    t = mul(num(c), *[rpow(x, e) for x, e in fs]) if fs else num(c)
    for v, lo, hi in reversed(rg):
        t = mk('sum', (v, lo, hi, t), 'r')
    return t


def poly_term(p):
    """canonical term of a canonicalised polynomial"""
    items = sorted(p.items(), key=lambda kv: (len(kv[0][0]), tuple((t.id, e) for t, e in kv[0][1]), tuple((v, lo.id, hi.id) for v, lo, hi in kv[0][0])))
    ts = [mono_term(m, c) for m, c in items]
    if not ts: return ZERO
    if len(ts) == 1: return alpha(ts[0])
    return alpha(mk('add', tuple(ts), 'r'))


def nint(t, F):
    """normalise an int term: decide its conditionals"""
    if t.op in ('iv',) or isc(t): return t
    key = ('i', t)
    r = F.memo.get(key)
    if r is not None: return r
    r = nint_(t, F)
    F.memo[key] = r
    return r


def nint_(t, F):
    op, a = t.op, t.a
    if op == 'iite':
        c = nbool(a[0], F)
        d = F.decide(c)
        if d is True: return nint(a[1], F)
        if d is False: return nint(a[2], F)
        raise NeedSplit(c)
    if op == 'iapp':
        args = tuple(narg(x, F) for x in a[1])
        if a[0] in DEFS and args and args[0] in CTX.unfold:
            return nint(undef(a[0], args), F)
        return mk('iapp', (a[0], args), 'i')
    if op == 'isum':
        v, lo, hi, b = a
        lo = nint(lo, F); hi = nint(hi, F)
        nv = fresh('q')
        b = subst(b, {v: iv(nv)})
        b = nint_soft(b, F.extend(ile(lo, iv(nv)), ilt(iv(nv), hi)), {nv})
        k = lin_coef(b, nv)
        if k:
            r = tri_sum(isub(hi, lo), F)
            if r is not None:
                h = isub(hi, lo)
                return iadd(imul(isub(b, iscale(iv(nv), k)), h), iadd(iscale(imul(lo, h), k), iscale(r, k)))
        c0, ps = parts(b)
        out = [(x, m) for x, m in ps if nv not in x.fv]
        if (c0 or out) and len(out) < len(ps) and F.holds(ile(lo, hi)):
            # the part of the summand that does not depend on the index
            r = imul(mklin(c0, dict(out)), isub(hi, lo))
            return iadd(r, nint_(mk('isum', (nv, lo, hi, mklin(0, {x: m for x, m in ps if nv in x.fv})), 'i'), F))
        # shift to zero, canonical variable (one per nesting depth)
        d = 0
        for x in walk(b):
            if x.op == 'isum' and x.a[0][:1] == 'σ': d = max(d, 1 + (int(x.a[0][1:]) if x.a[0][1:].isdigit() else 0))
        sg = 'σ%d' % d if d else 'σ'
        if sg in b.fv or sg in lo.fv: return isum(nv, ic(0), isub(hi, lo), subst(b, {nv: iadd(iv(nv), lo)}))
        return isum(sg, ic(0), isub(hi, lo), subst(b, {nv: iadd(iv(sg), lo)}))
    if op == 'idiv' and isc(a[1]) and icv(a[1]) == 2:
        # x x = 2 (0 + 1 + ... + (x-1)) + x
        n = nint(a[0], F)
        c, ps = parts(n)
        sq = [(x, k) for x, k in ps if x.op == 'imul' and len(x.a) == 2 and x.a[0] is x.a[1]]
        if sq and all(F.holds(ile(ic(0), x.a[0])) for x, _ in sq):
            r = n
            for x, k in sq:
                m = x.a[0]
                r = iadd(isub(r, iscale(x, k)), iscale(iadd(iscale(mk('isum', ('σ', ic(0), m, iv('σ')), 'i'), 2), m), k))
            h = idiv(r, ic(2))
            if h.op != 'idiv': return h
        return idiv(n, ic(2))
    return rebuild(t, lambda x: nint(x, F) if x.s == 'i' else x)


def tri_sum(h, F):
    """0 + 1 + ... + (h-1) by the monomials of h: P(a+b) = P(a) + P(b) + ab, P(-m) = P(m) + m, P(km) = kP(m) + k(k-1)/2 mm"""
    c, ps = parts(h)
    if not F.holds(ile(ic(0), h)) or not all(x.op != 'isum' and F.holds(ile(ic(0), x)) for x, _ in ps): return None
    if not ps: return ic(c * (c - 1) // 2)
    tri = lambda m: mk('isum', ('σ', ic(0), m, iv('σ')), 'i')
    r, acc = ic(c * (c - 1) // 2), ic(c)
    for x, k in ps:
        n = abs(k)
        q = iadd(iscale(tri(x), n), iscale(imul(x, x), n * (n - 1) // 2))
        if k < 0: q = iadd(q, iscale(x, n))
        xk = iscale(x, k)
        r = iadd(r, iadd(q, imul(acc, xk)))
        acc = iadd(acc, xk)
    return r


def nint_soft(t, F, vs):
    """normalise a summand: conditionals over the bound variable stay"""
    try: return nint(t, F)
    except NeedSplit as e:
        if not (e.cond.fv & vs): raise
    if t.op == 'iite':
        try: c = nbool(t.a[0], F)
        except NeedSplit as e:
            if not (e.cond.fv & vs): raise
            c = t.a[0]
        d = F.decide(c)
        if d is True: return nint_soft(t.a[1], F, vs)
        if d is False: return nint_soft(t.a[2], F, vs)
        return iite(c, nint_soft(t.a[1], F, vs), nint_soft(t.a[2], F, vs))
    return rebuild(t, lambda x: nint_soft(x, F, vs) if x.s == 'i' else x)


FACTNF = [False]        # normalising a fact: it must not be decided by itself


def nbool(c, F):
    if c.op in ('true', 'false'): return c
    key = ('b', c, FACTNF[0])
    r = F.memo.get(key)
    if r is not None: return r
    op, a = c.op, c.a
    if op in ('ile', 'ieq'):
        r = rebuild(c, lambda x: nint(x, F))
    elif op in ('rle', 'rlt', 'req'):
        p = padd(nf(a[0], F), nf(a[1], F), -1)
        p = canon(p, F)
        if not p:
            r = FALSE if op == 'rlt' else TRUE
        elif set(p) == {ONEK}:
            v = p[ONEK]
            r = TRUE if (v < 0 if op == 'rlt' else v <= 0 if op == 'rle' else v == 0) else FALSE
        else:
            # scale by the leading coefficient (positive)
            t0 = sorted(p.items(), key=lambda kv: (len(kv[0][1]), tuple((t.id, e) for t, e in kv[0][1])))[-1][1]
            k = abs(t0)
            if op == 'req' and t0 < 0: k = -k
            p = {m: x / k for m, x in p.items()}
            if op == 'req':
                r = mk('req', (poly_term(p), ZERO), 'b')
            elif t0 < 0 and op == 'rle' or t0 < 0 and op == 'rlt':
                # p <= 0  with negative leading coefficient: write as not(-p < 0)
                q = poly_term({m: -x for m, x in p.items()})
                r = bnot(mk('rlt', (q, ZERO), 'b')) if op == 'rle' else bnot(mk('rle', (q, ZERO), 'b'))
            else:
                r = mk(op, (poly_term(p), ZERO), 'b')
            if op == 'req' or op in ('rle', 'rlt'):
                pass
    elif op in ('and', 'or', 'not'):
        xs = [nbool(x, F) for x in a]
        r = band(*xs) if op == 'and' else bor(*xs) if op == 'or' else bnot(xs[0])
    elif op == 'bapp':
        args = tuple(narg(x, F) for x in a[1])
        if a[0] in DEFS and args and args[0] in CTX.unfold:
            r = nbool(undef(a[0], args), F)
        else:
            r = TRUE if a[0] == 'isApprox' and args[0] is args[1] else mk('bapp', (a[0], args), 'b')
            if not FACTNF[0] and r is not c and any(x.op == 'lam' for y in args for x in walk(y)):
                # facts name the argument as written
                d = F.decide(c)
                if d is not None: r = TRUE if d else FALSE
    elif op == 'oeq':
        r = oeq(narg(a[0], F), narg(a[1], F))
    elif op in ('ball', 'bex'):
        v, lo, hi, b = a
        lo = nint(lo, F); hi = nint(hi, F)
        nv = 'μ%d' % len([1 for x in b.fv if x.startswith('μ')])
        b = subst(b, {v: iv(nv)})
        F2 = F.extend(ile(lo, iv(nv)), ilt(iv(nv), hi))
        try:
            b = nbool(b, F2)
        except NeedSplit:
            pass
        if b is TRUE and op == 'ball': r = TRUE
        elif b is FALSE and op == 'bex': r = FALSE
        else: r = mk(op, (nv, lo, hi, b), 'b')
    else:
        r = c
    F.memo[key] = r
    return r


_depth = [0]


def narg(x, F):
    if x.s == 'i': return nint(x, F)
    if x.s == 'r': return poly_term(canon(nf(x, F), F))
    if x.s == 'b':
        c = nbool(x, F)
        d = F.decide(c)
        return TRUE if d is True else FALSE if d is False else c
    if x.s == 'l':
        key = ('l', x, _depth[0])
        r = F.memo.get(key)
        if r is not None: return r
        vs, b, dims = x.a
        dims = [nint(d, F) for d in dims]
        d0 = _depth[0]
        _depth[0] += 1
        try:
            nvs = ['λ%d_%d' % (d0, i) for i in range(len(vs))]
            b2 = subst(b, {v: iv(n) for v, n in zip(vs, nvs)})
            F2 = F
            for n, d in zip(nvs, dims):
                F2 = F2.extend(ile(ic(0), iv(n)), ilt(iv(n), d))
            r = alpha(lam(nvs, poly_term(canon(nf_ind(b2, F2, set(nvs)), F2)), dims))
        finally:
            _depth[0] = d0
        F.memo[key] = r
        return r
    if x.s == 'o':
        if x.op == 'oite':
            c = nbool(x.a[0], F)
            d = F.decide(c)
            if d is True: return narg(x.a[1], F)
            if d is False: return narg(x.a[2], F)
            raise NeedSplit(c)
        if x.op == 'oapp':
            args = tuple(narg(y, F) for y in x.a[1])
            if x.a[0] in DEFS and args and args[0] in CTX.unfold:
                return narg(undef(x.a[0], args), F)
            return mk('oapp', (x.a[0], args), 'o')
        return x
    return x


def indicator(c, a, b, F):
    neg = False
    if c.op == 'not':
        c = c.a[0]; neg = True
    elif c.op in ('ile', 'rle', 'rlt'):
        n = bnot(c)
        if n.id < c.id:
            c, neg = n, True
    if neg: a, b = b, a
    I = patom(mk('ite', (c, ONE, ZERO), 'r'))
    if c.op == 'ieq':
        # where the indicator is one, the bound variable it fixes is replaced by its value
        # (in the polynomial pb itself: off the domain of !c it need not agree with b)
        for v in sorted((v for v in c.fv if v.startswith('λ')), key=lambda z: (len(z), z), reverse=True):
            k = lin_coef(c.a[0], v)
            if k in (1, -1):
                e = iscale(isub(c.a[0], iscale(iv(v), k)), -k)
                Fc = F.extend(c)
                pb = nf(b, F.extend(bnot(c)))
                tb = poly_term(pb)
                at = nf(subst(tb, {v: e}), Fc) if v in tb.fv else pb
                return padd(pb, pmul(I, padd(nf(subst(a, {v: e}), Fc), at, -1), F))
    pa = nf(a, F.extend(c)); pb = nf(b, F.extend(bnot(c)))
    return padd(pb, pmul(I, padd(pa, pb, -1), F))


def nf_ind(t, F, bvars):
    """nf, turning undecided conditions that mention bvars into indicators"""
    for _ in range(60):
        try:
            return nf(t, F)
        except NeedSplit as e:
            if e.cond.fv & bvars:
                INDIC.add((F.facts, e.cond))
                F.memo.clear()
            else:
                raise
    raise GiveUp('indicator loop')


INDIC = set()


def is_indic(c, F):
    return any(cc is c and fs <= F.facts for fs, cc in INDIC)


def nf(t, F):
    key = t
    r = F.memo.get(key)
    if r is not None: return r
    STATS['nf'] += 1
    if CTX.deadline and time.time() > CTX.deadline:
        raise GiveUp('time')
    r = nf_(t, F)
    F.memo[key] = r
    return r


def nf_(t, F):
    op, a = t.op, t.a
    if t.s == 'i': t = toreal(t); op, a = t.op, t.a
    if op == 'num': return pconst(a[0])
    if op == 'add':
        r = {}
        for x in a: r = padd(r, nf(x, F))
        return r
    if op == 'mul':
        r = pconst(1)
        for x in sorted(a, key=lambda z: 0 if z.op == 'num' else 1):
            r = pmul(r, nf(x, F), F)
            if not r: return r
        return r
    if op == 'i2r':
        x = nint(a[0], F)
        c, p = parts(x)
        r = pconst(c)
        for y, k in p:
            if y.op == 'imul':
                q = pconst(k)
                for z in y.a: q = pmul(q, patom(mk('i2r', (z,), 'r')), F)
                r = padd(r, q)
            elif y.op == 'isum':
                v, lo, hi, b = y.a
                r = padd(r, nf(rsum(v, lo, hi, toreal(b)), F), k)
            else:
                r = padd(r, patom(mk('i2r', (y,), 'r')), k)
        return r
    if op == 'ite':
        c = nbool(a[0], F)
        return nf_ite(c, a[1], a[2], F)
    if op == 'rapp':
        args = tuple(narg(x, F) for x in a[1])
        if a[0] in ('inv', 'sinv') and len(args) == 3 and args[0].op == 'lam' and (a[0] == 'sinv' or sym_lam(args[0], F)):
            return patom(symorder(mk('rapp', ('sinv', args), 'r')))
        if a[0] in DEFS and args and args[0] in CTX.unfold:
            return nf(undef(a[0], args), F)
        if a[0] in SCATS:
            r = scat_resolve(a[0], args, F)
            if r is not None: return nf(r, F)
        if a[0] in DECODE:
            r = decode(a[0], args[0], F)
            if r is not None: return nf(r, F)
        return patom(mk('rapp', (a[0], args), 'r'))
    if op == 'pow':
        n = a[1]
        p = canon(nf(a[0], F), F)
        if n > 0:
            r = p
            for _ in range(n - 1): r = pmul(r, p, F)
            return r
        if len(p) == 1:
            (m, c), = p.items()
            if not m[0]:
                r = {ONEK: Fraction(1, 1) / (c ** (-n))}
                fs = tuple(sorted(((x, e * n) for x, e in m[1]), key=lambda z: (z[0].id, z[1])))
                q = {((), fs): r[ONEK]}
                return pmul(pconst(1), q, F) if not any(x.op == 'fn' and abs(e) > 1 for x, e in fs) else pmul(q, pmul({ONEK: Fraction(1)}, pconst(1), F), F) if False else reduce_mono(q, F)
        if not p: raise GiveUp('division by zero')
        lead = sorted(p.items(), key=lambda kv: (len(kv[0][1]), tuple((x.id, e) for x, e in kv[0][1])))[-1][1]
        base = poly_term({m: c / lead for m, c in p.items()})
        return {((), ((base, n),)): Fraction(1) / (lead ** (-n))}
    if op == 'fn':
        name = a[0]
        args = [canon(nf(x, F), F) for x in a[1:]]
        if name == 'abs':
            p = args[0]
            if not p: return {}
            if set(p) == {ONEK}: return pconst(abs(p[ONEK]))
            pt = poly_term(p)
            if CTX.expand:
                d = nbool(rle(ZERO, pt), F)
                k = F.decide(d)
                if k is True: return p
                if k is False: return {m: -c for m, c in p.items()}
            lead = sorted(p.items(), key=lambda kv: (len(kv[0][1]), tuple((x.id, e) for x, e in kv[0][1])))[-1][1]
            base = poly_term({m: c / lead for m, c in p.items()})
            if CTX.expand:
                return {m: c * abs(lead) for m, c in nf_ite(nbool(rle(ZERO, base), F), base, mul(-1, base), F).items()}
            return {((), ((mk('fn', ('abs', base), 'r'), 1),)): abs(lead)}
        if name in ('max', 'min'):
            ta, tb = poly_term(args[0]), poly_term(args[1])
            if ta is tb: return args[0]
            if not args[0] or set(args[0]) == {ONEK}:
                if not args[1] or set(args[1]) == {ONEK}:
                    return nf(fn(name, ta, tb), F)
            k = F.decide(nbool(rle(ta, tb), F))
            if k is True: return args[1] if name == 'max' else args[0]
            if k is False: return args[0] if name == 'max' else args[1]
            if CTX.expand:
                raise NeedSplit(nbool(rle(ta, tb), F))
            if ta.id > tb.id: ta, tb = tb, ta
            return patom(mk('fn', (name, ta, tb), 'r'))
        if name == 'sqrt':
            p = args[0]
            if set(p) == {ONEK} and p[ONEK] in (0, 1): return p
            return patom(mk('fn', ('sqrt', poly_term(p)), 'r'))
        ts = [poly_term(p) for p in args]
        if name in ('sin', 'cos', 'exp', 'log', 'tan'):
            r = fn(name, *ts)
            if r.op == 'num': return pconst(r.a[0])
            p = args[0]
            lead = sorted(p.items(), key=lambda kv: (len(kv[0][1]), tuple((x.id, e) for x, e in kv[0][1])))[-1][1]
            if lead < 0 and name in ('sin', 'cos'):
                q = poly_term({m: -c for m, c in p.items()})
                return {((), ((mk('fn', (name, q), 'r'), 1),)): Fraction(-1 if name == 'sin' else 1)}
        return patom(mk('fn', (name,) + tuple(ts), 'r'))
    if op == 'sum':
        v, lo, hi, b = a
        lo = nint(lo, F); hi = nint(hi, F)
        return nf_sum(v, lo, hi, b, F)
    if op == 'maxo':
        v, lo, hi, b = a
        lo = nint(lo, F); hi = nint(hi, F)
        d0 = _depth[0]; _depth[0] += 1
        try:
            nv = 'λ%d_m' % d0
            F2 = F.extend(ile(ic(0), iv(nv)), ilt(iv(nv), isub(hi, lo)))
            b2 = subst(b, {v: iadd(iv(nv), lo)})
            p = canon(nf_ind(b2, F2, {nv}), F2)
        finally:
            _depth[0] = d0
        return patom(alpha(mk('maxo', (nv, ic(0), isub(hi, lo), poly_term(p)), 'r')))
    raise GiveUp('nf of ' + op)


def decode(name, e, F):
    import itertools
    vs = sorted(v for v in e.fv if not v.startswith(('λ', 'β', 's!', 'σ', 'μ', 'δ')))
    if len(vs) > 5: return None
    last = [z for q in sorted({x.a[2] for x in walk(e) if x.op == 'isum'}, key=str) if not any(v.startswith(('σ', 'δ', 'λ', 'β')) for v in q.fv) for z in (q, isub(q, ic(1)))]
    cand = [(it, x) for it in DECODE[name] for n in (it[0],)
            for x in itertools.chain(itertools.permutations([iv(v) for v in vs], n), ((q, *r) for q in last for r in itertools.permutations([iv(v) for v in vs], n - 1)))]
    for hard in (False, True):
        for (n, pos, cond, val), x in cand:
            q = pos(*x)
            d = isub(q, e)
            if not (d is ic(0) or nint(d, F) is ic(0) or hard and F.holds(ieq(q, e))): continue
            if F.holds(cond(*x)): return val(*x)
    return None


def scat_resolve(name, args, F):
    """value of a block-scattered entry: the last iteration whose block contains it"""
    cond_at, val_at, base = SCATS[name](*args)
    if CTX.elims:
        def el(x):
            for e in CTX.elims: x = e(x)
            return x
        c0_, v0_ = cond_at, val_at
        cond_at = lambda k: el(c0_(k))
        val_at = lambda k: el(v0_(k))
        base = el(base)
    t = args[0]
    cands = set()
    for f in F.facts:
        cands |= {v for v in f.fv if not v.startswith(('λ', 'β', 's!', 'σ', 'μ', 'δ'))}
    fv = set()
    for x in args[1:]: fv |= x.fv
    order = [iv(v) for v in sorted(cands & fv) + sorted(cands - fv)] + [ic(0)]
    kk = fresh('z')

    def nohit(lo, splits):
        """no iteration from lo on contains the entry (optionally by cases around a pivot iteration)"""
        F2 = F.extend(ile(lo, iv(kk)), ilt(iv(kk), t))
        c = nbool_safe(cond_at(iv(kk)), F2)
        if F2.excluded(c): return True
        if filt_excluded(c, F2): return True
        for p in splits:
            ok = True
            for side in (ilt(iv(kk), p), ilt(p, iv(kk)), None):
                if side is None: F3 = F.extend(ile(lo, p), ilt(p, t)); c = cond_at(p)
                else: F3 = F2.extend(side); c = cond_at(iv(kk))
                if not F3.excluded(nbool_safe(c, F3)): ok = False; break
            if ok: return True
        return False
    for k in order:
        if not F.holds(band(ile(ic(0), k), ilt(k, t))): continue
        if not F.holds(nbool_safe(cond_at(k), F)): continue
        if nohit(iadd(k, ic(1)), ()): return val_at(k)
    if nohit(ic(0), [iv(v) for v in sorted(cands & fv)]): return base
    c = nbool_safe(cond_at(iv('κ')), F.extend(ile(ic(0), iv('κ')), ilt(iv('κ'), t)))
    cs = c.a if c.op == 'and' else (c,)
    for x in cs:
        r = filt_member(x, 'κ', t, F.holds)
        if r is None: continue
        d, pos, e, y = r
        d = nbool_safe(d, F)
        k = F.decide(d)
        if k is False: return base
        if k is None and any(v.startswith(('s!', 'λ', 'β', 'δ')) for v in d.fv): continue      # a sum over this entry cannot be split
        at = lambda z: replace_atom(subst(z, {'κ': pos}), subst(y, {'κ': pos}), e)
        return ite(d, ite(at(band(*[z for z in cs if z is not x])), at(val_at(iv('κ'))), base), base)
    return None


def filt_member(x, kk, t, holds):
    """x: 'the element at position kk of a filtered list is e', t: the length of the list -> (e is an element, position of e, list element term)"""
    if x.op != 'ieq': return None
    for y, k in parts(x.a[0])[1]:
        if y.op != 'iapp' or y.a[0] not in FILTS or k not in (1, -1) or y.a[1][-1] is not iv(kk): continue
        e = iscale(isub(x.a[0], iscale(y, k)), -k)
        if kk in e.fv or any(kk in z.fv for z in y.a[1][:-1]): continue
        T = y.a[1][0]
        cond_at, cnt = FILTS[y.a[0]](*y.a[1][:-1])
        if t is not cnt(T) and not holds(ieq(t, cnt(T))): continue
        pos = e.a[1][-1] if e.op == 'iapp' and e.a[0] == y.a[0] and e.a[1][:-1] == y.a[1][:-1] and holds(band(ile(ic(0), e.a[1][-1]), ilt(e.a[1][-1], t))) else cnt(e)
        return band(cond_at(e), ile(ic(0), e), ilt(e, T)), pos, e, y
    return None


def filt_excluded(c, F):
    """c equates an element of a filtered list with an index at which the filter's condition fails"""
    for q in (c.a if c.op == 'and' else (c,)):
        if q.op != 'ieq': continue
        for x, k in parts(q.a[0])[1]:
            if x.op != 'iapp' or x.a[0] not in FILTS or k not in (1, -1): continue
            e = iscale(isub(q.a[0], iscale(x, k)), -k)
            if x in set(walk(e)): continue
            cond_at, cnt = FILTS[x.a[0]](*x.a[1][:-1])
            if not F.holds(band(ile(ic(0), x.a[1][-1]), ilt(x.a[1][-1], cnt(x.a[1][0])))): continue
            d = nbool_safe(replace_atom(cond_at(x), x, e), F)
            mine = [f for f in F.facts if f.op in ('or', 'and', 'not', 'rle', 'rlt', 'req') and f.fv & e.fv]
            if not F.extend(c, d, *[nbool_safe(f, Facts()) for f in mine]).consistent(): return True
    return False


def nbool_safe(c, F):
    try:
        return nbool(c, F)
    except NeedSplit:
        return c


def reduce_mono(q, F):
    """apply sqrt/sin power reductions to a single-monomial polynomial"""
    (m, c), = q.items()
    r = pconst(c)
    for t, e in m[1]:
        if e > 0 or not (t.op == 'fn' and t.a[0] == 'sqrt'):
            r = pmul(r, {((), ((t, e),)): Fraction(1)}, F)
        else:
            k = -e
            h, odd = k // 2, k % 2
            if h: r = pmul(r, nf(rpow(t.a[1], -h), F), F)
            if odd: r = pmul(r, {((), ((t, -1),)): Fraction(1)}, F)
    return r


def nf_ite(c, ta, tb, F):
    if c.op == 'and' and F.decide(c) is None:
        # ite(c1 & c2, a, b) = ite(c1, ite(c2, a, b), b)
        rest = band(*c.a[1:])
        return nf_ite(c.a[0], ite(rest, ta, tb), tb, F)
    if c.op == 'or' and F.decide(c) is None:
        rest = bor(*c.a[1:])
        return nf_ite(c.a[0], ta, ite(rest, ta, tb), F)
    d = F.decide(c)
    if d is True: return nf(ta, F)
    if d is False: return nf(tb, F)
    if is_indic(c, F) or is_indic(bnot(c), F):
        return indicator(c, ta, tb, F)
    raise NeedSplit(c)


def nf_sum(v, lo, hi, b, F):
    d = isub(hi, lo)
    if isc(d) and icv(d) <= 0: return {}
    if isc(d) and icv(d) == 1: return nf(subst(b, {v: lo}), F)
    if F.decide(ile(hi, lo)) is True: return {}
    nv = fresh('s')
    b2 = subst(b, {v: iv(nv)})
    return nf_sum_body(nv, lo, hi, b2, F, 0)


def nf_sum_body(nv, lo, hi, b, F, depth):
    if depth > 24: raise GiveUp('sum split depth')
    d = isub(hi, lo)
    if isc(d) and icv(d) <= 0: return {}
    if isc(d) and icv(d) <= 5:
        r = {}
        for q in range(icv(d)): r = padd(r, nf(subst(b, {nv: iadd(lo, ic(q))}), F))
        return r
    if F.decide(ile(hi, lo)) is True: return {}
    V = iv(nv)
    F2 = F.extend(ile(lo, V), ilt(V, hi))
    try:
        pb = nf(b, F2)
    except NeedSplit as e:
        c = e.cond
        if nv not in c.fv:
            raise
        return sum_split(nv, lo, hi, b, c, F, depth)
    r = {}
    for (rg, fs), k in pb.items():
        r = padd(r, close_sum(nv, lo, hi, rg, fs, k, F))
    return r


def close_sum(nv, lo, hi, rg, fs, k, F):
    inr = any(nv in l.fv or nv in h.fv for _, l, h in rg)
    inf = [f for f in fs if nv in f[0].fv]
    if not inr and not inf:
        # constant in nv: only valid when range is non-empty or counts as zero
        n = isub(hi, lo)
        if F.decide(ile(lo, hi)) is True:
            return pmul({(rg, fs): k}, nf(toreal(n), F), F)
        raise NeedSplit(ile(lo, hi))
    return {(((nv, lo, hi),) + rg, fs): k}


def lin_coef(t, var):
    """coefficient of variable in a linear int term, or None when it occurs inside an atom"""
    c, p = parts(t)
    k = 0
    for x, m in p:
        if x.op == 'iv' and x.a[0] == var:
            k = m
        elif var in x.fv:
            return None
    return k


def sum_split(nv, lo, hi, b, c, F, depth):
    V = iv(nv)
    if c.op in ('ile', 'ieq') and lin_coef(c.a[0], nv) in (1, -1):
        k = lin_coef(c.a[0], nv)
        rest = isub(c.a[0], iscale(V, k))       # k*V + rest (<=|==) 0
        if c.op == 'ieq':
            e = iscale(rest, -k)                 # V == e
            below = F.decide(ilt(e, lo)); above = F.decide(ile(hi, e))
            if below is True or above is True:
                return nf_sum_body(nv, lo, hi, prune(b, c, False), F, depth + 1)
            if below is None: raise NeedSplit(ilt(e, lo))
            if above is None: raise NeedSplit(ile(hi, e))
            b0 = replace_atom(b, c, FALSE)
            if b0 is not b and c not in set(walk(b0)):
                # point correction: sum of the other branch over the whole range, corrected at V == e
                b1 = replace_atom(b, c, TRUE)
                r = nf_sum_body(nv, lo, hi, b0, F, depth + 1)
                r = padd(r, nf(subst(b1, {nv: e}), F))
                return padd(r, nf(subst(b0, {nv: e}), F), -1)
            bf = prune(b, c, False)
            r = nf(subst(prune(b, c, True), {nv: e}), F)
            nv1, nv2 = fresh('s'), fresh('s')
            r = padd(r, nf_sum_body(nv1, lo, e, subst(bf, {nv: iv(nv1)}), F, depth + 1))
            r = padd(r, nf_sum_body(nv2, iadd(e, ic(1)), hi, subst(bf, {nv: iv(nv2)}), F, depth + 1))
            return r
        if k == 1:
            m = iadd(iscale(rest, -1), ic(1))    # V < m true
            tfirst = True
        else:
            m = rest                             # -V + rest <= 0: V >= rest
            tfirst = False
        a1 = F.decide(ile(m, lo))
        a2 = F.decide(ile(hi, m))
        if a1 is True:
            return nf_sum_body(nv, lo, hi, prune(b, c, not tfirst), F, depth + 1)
        if a2 is True:
            return nf_sum_body(nv, lo, hi, prune(b, c, tfirst), F, depth + 1)
        if a1 is None: raise NeedSplit(ile(m, lo))
        if a2 is None: raise NeedSplit(ile(hi, m))
        nv1, nv2 = fresh('s'), fresh('s')
        r = nf_sum_body(nv1, lo, m, subst(prune(b, c, tfirst), {nv: iv(nv1)}), F, depth + 1)
        return padd(r, nf_sum_body(nv2, m, hi, subst(prune(b, c, not tfirst), {nv: iv(nv2)}), F, depth + 1))
    if c.op == 'and' or c.op == 'or':
        for x in c.a:
            if nv in x.fv and x.op in ('ile', 'ieq') and lin_coef(x.a[0], nv) in (1, -1):
                return sum_split(nv, lo, hi, b, x, F, depth)
    F2 = F.extend(ile(lo, V), ilt(V, hi))
    INDIC.add((F2.facts, c))
    F2.memo.clear()
    return nf_sum_body(nv, lo, hi, b, F, depth + 1)


def prune(b, c, val):
    """no-op hook (facts decide the condition after the split)"""
    return b


SYMS = {}


def sym_lam(l, F):
    """the matrix is symmetric (its inverse then is, too)"""
    r = SYMS.get(l)
    if r is not None: return r
    vs, b, dims = l.a
    r = False
    if len(vs) == 2 and (b.op in ('add', 'mul', 'sum') or any(x.op in ('ite', 'rapp') and x.a[0] == 'sinv' for x in (b,))) and F.decide(ieq(dims[0], dims[1])) is True:
        n1, n2 = fresh('y'), fresh('y')
        F2 = F.extend(*[c for n in (n1, n2) for c in (ile(ic(0), iv(n)), ilt(iv(n), dims[0]))])
        try:
            r = not canon(nf(sub(subst(b, {vs[0]: iv(n1), vs[1]: iv(n2)}), subst(b, {vs[0]: iv(n2), vs[1]: iv(n1)})), F2), F2)
        except (NeedSplit, GiveUp): r = False
    SYMS[l] = r
    return r


def symorder(t):
    """the indices of the inverse of a symmetric matrix in a fixed order"""
    if 'sinv' not in t.names: return t
    if t.op == 'rapp' and t.a[0] == 'sinv':
        l, r, c = t.a[1]
        return t if r.id <= c.id else mk('rapp', ('sinv', (l, c, r)), 'r')
    return t


# ------------------------------------------------------------------ canonicalisation
def sig(t, col, memo):
    if not t.fv or not (t.fv & col.keys()):
        return t.id
    r = memo.get(t)
    if r is not None: return r
    op, a = t.op, t.a
    if op == 'iv':
        r = col.get(a[0], t.id)
    elif op == 'lin':
        r = hash((op, a[0], tuple(sorted((sig(x, col, memo), k) for x, k in a[1]))))
    elif op == 'rapp' and a[0] == 'sinv':
        r = hash((op, sig(a[1][0], col, memo), tuple(sorted(sig(x, col, memo) for x in a[1][1:]))))
    elif op in ('iapp', 'rapp', 'bapp', 'oapp'):
        r = hash((op, a[0], tuple(sig(x, col, memo) for x in a[1])))
    elif op in ('add', 'mul', 'and', 'or', 'imul'):
        r = hash((op, tuple(sorted(sig(x, col, memo) for x in a))))
    else:
        out = []
        for x in a:
            if isinstance(x, T): out.append(sig(x, col, memo))
            elif isinstance(x, tuple): out.append(tuple(sig(y, col, memo) if isinstance(y, T) else y for y in x))
            else: out.append(x)
        r = hash((op, tuple(out)))
    memo[t] = r
    return r


def canon_mono(m, F):
    """-> list of (mono, factor) after zero-basing and alpha-canonicalisation (factor: Fraction)"""
    rg, fs = m
    if not rg: return m
    # shift to zero base
    mp = {}
    nr = []
    for v, lo, hi in rg:
        lo2 = subst(lo, mp) if mp else lo
        hi2 = subst(hi, mp) if mp else hi
        if not (isc(lo2) and icv(lo2) == 0):
            mp[v] = iadd(iv(v), lo2)
        nr.append((v, isub(hi2, lo2)))
    if mp:
        fs = [(subst(t, mp), e) for t, e in fs]
        nr = [(v, subst(h, {x: y for x, y in mp.items() if x != v})) for v, h in nr]
    # upper triangle {v: w+1+v < H} of a square -> lower triangle {w < z}, z = w+1+v
    hs = dict(nr)
    for v, h in nr:
        ws = [w for w in hs if w != v and w in h.fv]
        if len(ws) == 1 and isub(isub(hs[ws[0]], iv(ws[0])), ic(1)) is h and not any(x != v and (v in hs[x].fv or ws[0] in hs[x].fv) for x in hs):
            w = ws[0]; z = fresh('z')
            fs = [(subst(t, {v: isub(isub(iv(z), iv(w)), ic(1))}), e) for t, e in fs]
            nr = [(z, hs[w]) if x == v else (w, iv(z)) if x == w else (x, hx) for x, hx in nr]
            break
    # colours
    col = {v: hash(('r', sig(h, {w: 7 for w, _ in nr}, {}))) for v, h in nr}
    for _ in range(3):
        memo = {}
        fsig = [(sig(t, col, memo), e, t) for t, e in fs]
        new = {}
        for v, h in nr:
            mine = []
            c2 = dict(col); c2[v] = 12345
            mm = {}
            for (s0, e, t) in fsig:
                if v in t.fv:
                    mine.append((sig(t, c2, mm), e))
            deps = sorted(hash((col[w], 'd')) for w, h2 in nr if v in h2.fv)
            new[v] = hash((col[v], tuple(sorted(mine)), tuple(deps)))
        col = new
    order = sorted(nr, key=lambda p: col[p[0]])
    groups = []
    for p in order:
        if groups and col[groups[-1][0][0]] == col[p[0]]:
            groups[-1].append(p)
        else:
            groups.append([p])
    best = None
    n = 1
    for g in groups:
        for i in range(2, len(g) + 1): n *= i
    perms = itertools.product(*[list(itertools.permutations(g)) for g in groups]) if 1 < n <= 720 else [groups]
    base = sum(1 for _ in ())
    for pr in perms:
        seq = [x for g in pr for x in g]
        mp = {v: iv('β%d' % i) for i, (v, _) in enumerate(seq)}
        f2 = sorted(((symorder(alpha(subst(t, mp))), e) for t, e in fs), key=lambda z: (z[0].id, z[1]))
        r2 = tuple(('β%d' % i, ic(0), subst(h, mp)) for i, (v, h) in enumerate(seq))
        key = tuple((t.id, e) for t, e in f2) + tuple(h.id for _, _, h in r2)
        if best is None or key < best[0]:
            best = (key, (r2, tuple(f2)))
    return best[1]


def free_beta(fs):
    for t, _ in fs:
        for v in t.fv:
            if v.startswith('β'): return True
    return False


def indic_dead(m, F):
    """some indicator factor contradicts the non-emptiness of the monomial's own sum ranges: the monomial is zero"""
    if not any(t.op == 'ite' for t, e in m[1]): return False
    key = ('dead', m)
    r = F.memo.get(key)
    if r is None:
        F2 = F
        for v, lo, hi in m[0]: F2 = F2.extend(ile(lo, iv(v)), ilt(iv(v), hi))
        r = any(t.op == 'ite' and F2.decide(t.a[0]) is False for t, e in m[1])
        F.memo[key] = r
    return r


def indic_true(m, F):
    """drop indicator factors implied by the monomial's own sum ranges"""
    if not any(t.op == 'ite' for t, e in m[1]): return m
    key = ('itrue', m)
    r = F.memo.get(key)
    if r is None:
        F2 = F
        for v, lo, hi in m[0]: F2 = F2.extend(ile(lo, iv(v)), ilt(iv(v), hi))
        r = (m[0], tuple((t, e) for t, e in m[1] if not (t.op == 'ite' and F2.decide(t.a[0]) is True)))
        F.memo[key] = r
    return r


def canon(p, F):
    r = {}
    for m, c in p.items():
        if m[0] and indic_dead(m, F): continue
        if m[0]: m = indic_true(m, F)
        if m[0]:
            key = ('c', m)
            m2 = F.memo.get(key)
            if m2 is None:
                # nested canonical terms may carry β variables bound inside atoms only; a free β would
                # come from an enclosing canonical sum: rename first
                if free_beta(m[1]) and any(not v.startswith('β') for v, _, _ in m[0]):
                    pass
                m2 = canon_mono(m, F)
                F.memo[key] = m2
        else:
            m2 = m
        x = r.get(m2, 0) + c
        if x == 0: r.pop(m2, None)
        else: r[m2] = x
    return r


def split_endpoints(p, F):
    """split all sum ranges of a canonical polynomial at the endpoints occurring in it"""
    ends = set()
    for (rg, fs), c in p.items():
        for v, lo, hi in rg:
            if not any(x.startswith('β') for x in hi.fv):
                ends.add(hi)
    ends = sorted(ends, key=lambda z: z.id)
    if len(ends) <= 1: return p
    out = {}
    for (rg, fs), c in p.items():
        work = [(rg, fs)]
        # rename to fresh
        work = [rename_ranges((rg, fs))] if rg else [(rg, fs)]
        i = 0
        while i < len(work[0][0]) if work else False:
            nw = []
            for rg2, fs2 in work:
                v, lo, hi = rg2[i]
                cuts = [lo]
                for e in ends:
                    if e is hi or e is lo: continue
                    if F.holds(ile(lo, e)) and F.holds(ile(e, hi)):
                        cuts.append(e)
                # order cuts
                import functools
                def cmp(a, b):
                    if a is b: return 0
                    if F.holds(ile(a, b)): return -1
                    if F.holds(ile(b, a)): return 1
                    raise NeedSplit(ile(a, b))
                cuts = sorted(set(cuts), key=functools.cmp_to_key(cmp))
                cuts.append(hi)
                for a, b in zip(cuts, cuts[1:]):
                    if F.holds(ile(b, a)): continue
                    if len(cuts) == 2:
                        nw.append((rg2, fs2))
                    else:
                        nv = fresh('s')
                        d = isub(b, a)
                        mp = {v: iv(nv)}
                        rr = list(rg2)
                        rr[i] = (nv, a, b)
                        rr = tuple((w, subst(l, mp), subst(h, mp)) for w, l, h in rr)
                        nw.append((rr, tuple((subst(t, mp), e) for t, e in fs2)))
            work = nw
            i += 1
            if not work: break
        for rg2, fs2 in work:
            # collapse unit ranges
            t = None
            if any(isc(isub(h, l)) and icv(isub(h, l)) == 1 for _, l, h in rg2):
                t = mul(num(c), *[rpow(x, e) for x, e in fs2])
                for v, l, h in reversed(rg2):
                    t = rsum(v, l, h, t)
                out = padd(out, nf(t, F))
            else:
                # re-normalise since facts on the split ranges may decide conditions
                t = mul(num(c), *[rpow(x, e) for x, e in fs2])
                for v, l, h in reversed(rg2):
                    t = mk('sum', (v, l, h, t), 'r')
                out = padd(out, nf(t, F))
    return canon(out, F)


def clear_denoms(p, F):
    dens = {}
    for (rg, fs), c in p.items():
        bound = {v for v, _, _ in rg}
        for t, e in fs:
            if e < 0 and t.op == 'add':
                if t.fv & bound: return None
                dens[t] = max(dens.get(t, 0), -e)
    if not dens: return None
    out = {}
    for (rg, fs), c in p.items():
        d = dict(dens)
        fs2 = []
        for t, e in fs:
            if t in d and e < 0:
                d[t] += e
            else:
                fs2.append((t, e))
        q = {(rg, tuple(fs2)): c}
        for t, e in d.items():
            for _ in range(e):
                q = pmul(q, nf(t, F), F)
        out = padd(out, q)
    return canon(out, F)


class Residual(Exception):
    def __init__(s, p, F):
        s.p = p; s.F = F


def eliminate(goal, facts, c):
    """c is an 'ieq' fact: substitute a variable if possible; returns goal, facts"""
    if c.op == 'req':
        for x, e in (c.a, c.a[::-1]):
            if x.op == 'rapp' and x not in set(walk(e)):
                rep = lambda t: replace_atom(t, x, e)
                return rep(goal), [rep(f) for f in facts] + [c], rep
        return goal, list(facts) + [c], None
    d = c.a[0]
    c0, ps = parts(d)
    for x, k in ps:
        if k in (1, -1) and x.op == 'iv' and lin_coef(d, x.a[0]) is not None:
            e = iscale(isub(d, iscale(x, k)), -k)
            m = {x.a[0]: e}
            return subst(goal, m), [subst(f, m) for f in facts] + [c], (lambda t: subst(t, m))
    for x, k in ps:
        if k in (1, -1) and x.op == 'iapp':
            e = iscale(isub(d, iscale(x, k)), -k)
            if x in set(walk(e)): continue
            rep = lambda t: replace_atom(t, x, e)
            return rep(goal), [rep(f) for f in facts] + [c], rep
    return goal, list(facts) + [c], None


def replace_atom(t, x, e, memo=None):
    if memo is None: memo = {}
    if t is x: return e
    r = memo.get(t)
    if r is not None: return r
    if not children(t): r = t
    else: r = rebuild(t, lambda y: replace_atom(y, x, e, memo))
    memo[t] = r
    return r


def tighten(cc, F2):
    """d<=0 together with an implied d>=0 is the equality d==0"""
    if cc.op == 'ile' and F2.holds(ile(ic(0), cc.a[0])):
        return ieq(cc.a[0], ic(0))
    return cc


def inv_contract(p, F):
    """M * inv(M) = inv(M) * M = identity, for a stored matrix M (the decomposition contract: M is invertible)"""
    terms = []; hit = False
    for m, c in p.items():
        r = ZERO if null_mono(m, F) else inv_mono(m, F)
        if r is None: terms.append(mono_term(m, c))
        else: hit = True; terms.append(mul(num(c), r))
    return add(*terms) if hit else None


def unify(pat, t, vs, bind):
    """bind the variables vs of pat so that it equals t"""
    if pat.op == 'iv' and pat.a[0] in vs:
        x = bind.get(pat.a[0])
        if x is None: bind[pat.a[0]] = t; return True
        return x is t
    if not (pat.fv & vs): return pat is t
    if pat.s == 'i' and pat.op == 'lin':
        free = [v for v in sorted(pat.fv & vs) if v not in bind]
        p2 = subst(pat, {v: bind[v] for v in pat.fv & vs if v in bind})
        if not free: return p2 is t
        if len(free) == 1:
            k = lin_coef(p2, free[0])
            if k in (1, -1):
                bind[free[0]] = iscale(isub(t, isub(p2, iscale(iv(free[0]), k))), k)
                return True
        return False
    if pat.op != t.op: return False
    if pat.op in ('rapp', 'iapp', 'oapp', 'bapp'):
        return pat.a[0] == t.a[0] and len(pat.a[1]) == len(t.a[1]) and all(unify(x, y, vs, bind) for x, y in zip(pat.a[1], t.a[1]))
    cp, ct = children(pat), children(t)
    if len(cp) != len(ct) or pat.op in ('sum', 'isum', 'ball', 'bex', 'lam', 'maxo'): return False
    if pat.op == 'fn' and pat.a[0] != t.a[0] or pat.op == 'pow' and pat.a[1] != t.a[1]: return False
    return all(unify(x, y, vs, bind) for x, y in zip(cp, ct))


def match_factors(pats, fs, vs, bind, used=()):
    """assign every pattern factor to a distinct factor of the monomial -> (bindings, used positions)"""
    if not pats: yield bind, used
    else:
        (pt, pe), rest = pats[0], pats[1:]
        for n, (y, e) in enumerate(fs):
            if n in used or e != pe or y.op != pt.op: continue
            b2 = dict(bind)
            if unify(pt, y, vs, b2): yield from match_factors(rest, fs, vs, b2, used + (n,))
            if y.op == 'rapp' and y.a[0] == 'sinv' and pt.a[0] == 'sinv' and len(y.a[1]) == 3:
                b2 = dict(bind)
                if unify(pt.a[1][0], y.a[1][0], vs, b2) and unify(pt.a[1][1], y.a[1][2], vs, b2) and unify(pt.a[1][2], y.a[1][1], vs, b2):
                    yield from match_factors(rest, fs, vs, b2, used + (n,))


def shallow_mono(t):
    """a term of a normalised sum -> ranges, factors, coefficient"""
    rg = []; k = Fraction(1)
    while True:
        if t.op == 'mul' and isnum(t.a[0]) and len(t.a) == 2: k *= t.a[0].a[0]; t = t.a[1]
        elif t.op == 'sum': rg.append((t.a[0], t.a[1], t.a[2])); t = t.a[3]
        else: break
    fs = []
    for x in (t.a if t.op == 'mul' else (t,)):
        if isnum(x): k *= x.a[0]
        elif x.op == 'pow': fs.append((x.a[0], x.a[1]))
        else: fs.append((x, 1))
    return tuple(rg), tuple(fs), k


def null_mono(m, F):
    """A * kernel(A) = 0 and A * Q(:, rank:) = 0 for Q of a full-rank QR decomposition of transpose(A)"""
    rg, fs = m
    rng = {v: (lo, hi) for v, lo, hi in rg}
    for x, e in fs:
        if e != 1 or x.op != 'rapp' or x.a[0] not in ('kern', 'hhQ') or x.a[1][0].op != 'lam': continue
        lt, b, j = x.a[1]
        vs, body, dims = lt.a
        if len(vs) != 2 or b.op != 'iv' or b.a[0] not in rng: continue
        vb, vx = (vs[1], vs[0]) if x.a[0] == 'kern' else vs
        db, dx = (dims[1], dims[0]) if x.a[0] == 'kern' else dims
        if rng[b.a[0]][0] is not ic(0) or F.decide(ieq(rng[b.a[0]][1], db)) is not True: continue
        if x.a[0] == 'hhQ' and not F.extend(*[c for v, lo, hi in rg for c in (ile(lo, iv(v)), ilt(iv(v), hi))]).holds(ile(dx, j)): continue
        rgs, lfs, k = shallow_mono(body)
        if rgs: continue
        others = [(y, q) for y, q in fs if y is not x]
        for bind, used in match_factors([(subst(y, {vb: b}), q) for y, q in lfs], others, {vx}, {}):
            X = bind.get(vx)
            if X is None or b.a[0] in X.fv or not F_range(F, rg, b.a[0], X, dx): continue
            if any(b.a[0] in z.fv for n, (z, _) in enumerate(others) if n not in used) or b.a[0] in j.fv: continue
            if any(b.a[0] in lo.fv | hi.fv for _, lo, hi in rg): continue
            return True
    return False


def inv_mono(m, F):
    """sum_b body(X, b) inv(body)(b, c) = [X = c] (and on the other side): the monomial's leading term of that contraction is
    replaced by [X = c] minus the other terms of the body"""
    rg, fs = m
    rng = {v: (lo, hi) for v, lo, hi in rg}
    for x, e in fs:
        if e != 1 or x.op != 'rapp' or x.a[0] not in ('inv', 'sinv') or len(x.a[1]) != 3 or x.a[1][0].op != 'lam': continue
        lt, r, c = x.a[1]
        vs, body, dims = lt.a
        if len(vs) != 2: continue
        others = [(y, k) for y, k in fs if y is not x]
        for side in (0, 1) if x.a[0] == 'inv' else (0, 2):      # 0: M * inv(M) (contract over the row of the inverse), 1: inv(M) * M
            if side == 2: r, c = c, r; others = [(y, k) for y, k in fs if y is not x]
            side = side % 2
            b = (r, c)[side]
            if b.op != 'iv' or b.a[0] not in rng: continue
            if rng[b.a[0]][0] is not ic(0) or F.decide(ieq(rng[b.a[0]][1], dims[0])) is not True: continue
            vb, vx = (vs[1], vs[0]) if side == 0 else (vs[0], vs[1])
            names = {y.a[0] for y, _ in others if y.op == 'rapp'}
            if body.op == 'rapp': leads = [((), ((body, 1),), Fraction(1), None)]
            else:
                tms = list(body.a) if body.op == 'add' else [body]
                leads = sorted([shallow_mono(z) + (z,) for z in tms], key=lambda z: -len(z[1]))
                if x.a[0] == 'sinv':      # one orientation only: the terms of a symmetric body mirror each other
                    leads = [z for z in leads if any(vb in y.fv for y, _ in z[1]) and any(vx in y.fv for y, _ in z[1])][:1]
            for lrg, lfs, lk, key in leads:
                if not all(y.op != 'rapp' or y.a[0] in names for y, _ in lfs) or not lfs: continue
                if not any(vb in y.fv for y, _ in lfs) or not any(vx in y.fv for y, _ in lfs): continue
                lv = [v for v, _, _ in lrg]
                ren = {v: fresh('u') for v in lv}
                pats = [(subst(y, {v: iv(w) for v, w in ren.items()}), k) for y, k in lfs]
                pv = {vx} | set(ren.values())
                pats = [(subst(y, {vb: b}), k) for y, k in pats]
                for bind, used in match_factors(pats, others, pv, {}):
                    X = bind.get(vx)
                    if X is None or b.a[0] in X.fv or not F_range(F, rg, b.a[0], X, dims[0]): continue
                    us = [bind.get(ren[v]) for v in lv]
                    if any(u is None or u.op != 'iv' or u.a[0] not in rng for u in us) or len({u.a[0] for u in us}) != len(us): continue
                    if any(rng[u.a[0]][0] is not lo or (rng[u.a[0]][1] is not hi and F.decide(ieq(rng[u.a[0]][1], hi)) is not True) for u, (_, lo, hi) in zip(us, lrg)): continue
                    gone = {b.a[0]} | {u.a[0] for u in us}
                    rest = [z for n, z in enumerate(others) if n not in used]
                    if any(gone & z.fv for z, _ in rest) or gone & X.fv: continue
                    if any(gone & (lo.fv | hi.fv) for v, lo, hi in rg if v not in gone): continue
                    other = (r, c)[1 - side]
                    if gone & other.fv: continue
                    rt = mul(num(1), *[rpow(z, k) for z, k in rest])
                    t = ite(ieq(X, other), rt, ZERO)
                    if key is not None:
                        low = []
                        for w in tms:
                            if w is key: continue
                            low.append(subst(w, {vx: X, vb: b}))
                        if low:
                            nv = fresh('s')
                            t = sub(t, mul(rt, mk('sum', (nv, rng[b.a[0]][0], rng[b.a[0]][1], subst(mul(add(*low), x), {b.a[0]: iv(nv)})), 'r')))
                    t = mul(num(Fraction(1) / lk), t)
                    for v, lo, hi in reversed(rg):
                        if v in gone: continue
                        nv = fresh('s')
                        t = mk('sum', (nv, lo, hi, subst(t, {v: iv(nv)})), 'r')
                    return t
    return None


def F_range(F, rg, b, X, n):
    """0 <= X < n within the ranges of the monomial"""
    cs = [c for v, lo, hi in rg if v != b for c in (ile(lo, iv(v)), ilt(iv(v), hi))]
    return F.extend(*cs).holds(band(ile(ic(0), X), ilt(X, n)))


_squeeze = [False]


def prove_zero(t, facts, unfold=(), deadline=None, expand=False):
    """facts: iterable of bool terms. returns (True,None) or (False, info)"""
    CTX.unfold = frozenset(unfold); CTX.elims = ()
    CTX.expand = expand
    CTX.deadline = deadline
    INDIC.clear()
    try:
        r = _pz(t, list(facts), 0)
        if not r[0]:
            t2, f2 = solve_eqs(t, facts)
            if t2 is not t: return _pz(t2, f2, 0)
        return r
    except GiveUp as e:
        return False, ('giveup', str(e))
    except RecursionError:
        return False, ('giveup', 'recursion')
    finally:
        CTX.unfold = frozenset(); CTX.expand = False; CTX.deadline = None


def solve_eqs(t, facts):
    """substitute the size equalities among the facts (argument sizes checked by the code) into the goal"""
    fs = []
    for f in facts: fs += list(f.a) if f.op == 'and' else [f]
    for _ in range(12):
        for f in fs:
            if f.op != 'ieq': continue
            for x, k in parts(f.a[0])[1]:
                if k in (1, -1) and x.op == 'iapp' and not x.a[1]:
                    e = iscale(isub(f.a[0], iscale(x, k)), -k)
                    if x in set(walk(e)): continue
                    fs = [replace_atom(g, x, e) for g in fs if g is not f]
                    t = replace_atom(t, x, e)
                    CTX.unfold = frozenset(replace_atom(u, x, e) for u in CTX.unfold)
                    break
            else: continue
            break
        else: break
    return t, [f for f in fs if f is not TRUE]


def isum_facts(facts):
    """the integer facts about sums, also in normal form"""
    new = []
    F = None
    for f in facts:
        if f.op in ('ile', 'ieq') and any(x.op == 'isum' for x in walk(f)):
            if F is None: F = Facts(facts)
            try: g = rebuild(f, lambda x: nint(x, F))
            except NeedSplit: continue
            if g is not f and g is not TRUE: new.append(g)
    return new


def _pz(t, facts, depth):
    if depth > 60: return False, ('giveup', 'split depth')
    if depth == 0: facts = facts + isum_facts(facts)
    F = Facts(facts)
    try:
        p = canon(nf(t, F), F)
        if not p: return True, None
        t2 = inv_contract(p, F)              # before sums are cut into segments: contractions run over the full range
        if t2 is not None: return _pz(t2, facts, depth + 1)
        for _ in range(3):
            q = split_endpoints(p, F)
            if not q: return True, None
            if q == p: break
            p = q
        t2 = inv_contract(p, F)
        if t2 is not None: return _pz(t2, facts, depth + 1)
        q = clear_denoms(p, F)
        if q is not None:
            if not q: return True, None
            q2 = split_endpoints(q, F)
            if not q2: return True, None
        if not CTX.expand and any(x.op == 'fn' and x.a[0] in ('max', 'min', 'abs') for y in p for f in y[1] for x in walk(f[0])):
            CTX.expand = True
            try:
                return _pz(t, facts, depth + 1)
            finally:
                CTX.expand = False
        if not F.consistent(): return True, None
        if len(p) <= 4 and not _squeeze[0] and any(f.op in ('rle', 'rlt') for f in facts) and not any(x.op in ('sum', 'maxo') for y in p for f in y[1] for x in walk(f[0])):
            _squeeze[0] = True
            try:
                r = poly_term(p)
                if _pb(rle(ZERO, r), facts, depth + 1)[0] and _pb(rle(r, ZERO), facts, depth + 1)[0]: return True, None
            except NeedSplit: pass
            finally: _squeeze[0] = False
        return False, ('residual', p, facts)
    except NeedSplit as e:
        c = e.cond
        if any(v.startswith(('s!', 'λ', 'β', 'δ')) for v in c.fv):
            return False, ('giveup', 'cannot split on bound condition ' + pp(c))
        d = real_decide(c, facts, F)
        if d is not None: return _pz(t, facts + [c if d else bnot(c)], depth + 1)
        for cc in (c, bnot(c)):
            F2 = Facts(facts).extend(cc)
            if not F2.consistent(): continue
            cc = tighten(cc, F2)
            if cc.op in ('ieq', 'req'):
                g2, f2, el = eliminate(t, facts, cc)
            else:
                g2, f2, el = t, list(F2.facts), None
            sv, se = CTX.unfold, CTX.elims
            if el:
                CTX.unfold = frozenset(sv | {el(x) for x in sv}); CTX.elims = se + (el,)
            try: ok, info = _pz(g2, f2, depth + 1)
            finally: CTX.unfold = sv; CTX.elims = se
            if not ok: return ok, info
        return True, None


def prove_bool(c, facts, unfold=(), deadline=None):
    """prove a boolean formula under facts (case splitting + z3 with normalised real atoms)"""
    CTX.unfold = frozenset(unfold); CTX.elims = (); CTX.deadline = deadline
    INDIC.clear()
    c = tobool(c)
    facts = list(facts)
    try:
        ok, info = False, None
        # large facts (sums and decompositions of path conditions) seldom bear on the goal: first without them
        fl = [y for f in facts for y in (f.a if f.op == 'and' else (f,))]
        small = [f for f in fl if sum(1 for _ in zip(range(61), walk(f))) <= 60]
        cs = c.a if c.op == 'and' else (c,)
        if len(small) < len(fl) and all(x.op in ('rle', 'rlt') for x in cs):
            F = Facts([f for f in small + instances(c, small) if f.op != 'ball'])      # as written
            if all(F.decide(x) is True for x in cs): return True, None
        if len(small) < len(fl):
            CTX.deadline = min(deadline or 1e18, time.time() + 4)
            try:
                ok, info = _pb(c, small + instances(c, small), 0)
                if ok: return ok, info
            except GiveUp: pass
            finally: CTX.deadline = deadline
            CTX.unfold = frozenset(unfold); CTX.elims = (); CTX.expand = False
        try: ok, info = _pb(c, facts + instances(c, facts), 0)
        except GiveUp as e: info = ('giveup', str(e))
        if not ok and any(x.op in ('ball', 'bex') for f in [c] + facts for x in walk(f)):
            fuel = [400]
            CONG[0] = True
            try:
                if tab(facts + [bnot(c)], [], [], 0, fuel, deadline or time.time() + 20): return True, None
            finally: CONG[0] = False
        return ok, info
    except GiveUp as e:
        return False, ('giveup', str(e))
    except RecursionError:
        return False, ('giveup', 'recursion')
    finally:
        CTX.unfold = frozenset(); CTX.expand = False; CTX.deadline = None


def complementary(b, d):
    """the indicators of a condition and of its negation"""
    if not (b.op == d.op == 'iite' and b.a[1] is d.a[1] and b.a[2] is d.a[2] and isc(b.a[1]) and icv(b.a[1]) == 1 and isc(b.a[2]) and icv(b.a[2]) == 0): return False
    x, y = b.a[0], d.a[0]
    if bnot(x) is y or bnot(y) is x: return True
    zc = ZConv()
    so = z3.Solver(); so.set('timeout', 500)
    so.add(zc.b(x) == zc.b(y))
    return so.check() == z3.unsat


def factor(f):
    """(a & b) | (a & c)  ->  a, b | c"""
    if f.op == 'and': return [y for x in f.a for y in factor(x)]
    if f.op != 'or': return [f]
    ds = [list(x.a) if x.op == 'and' else [x] for x in f.a]
    common = [x for x in ds[0] if all(any(x is y for y in d) for d in ds[1:])]
    if not common: return [f]
    cs = set(common)
    rest = bor(*[band(*[x for x in d if x not in cs]) for d in ds])
    return common + ([] if rest is TRUE else [rest])


def instances(goal, facts):
    """ground instances of the universally quantified facts at the index variables of the goal"""
    flat = []
    for f in facts:
        flat += list(f.a) if f.op == 'and' else [f]
    balls = [f for f in flat if f.op == 'ball']
    if not balls: return []
    F = Facts([f for f in flat if f.op != 'ball'])
    cand = [iv(v) for v in sorted(goal.fv)] + [x for x in CTX.unfold]
    out = []
    for f in balls:
        v, lo, hi, b = f.a
        for x in cand:
            if F.holds(band(ile(lo, x), ilt(x, hi))): out.append(subst(b, {v: x}))
    return out


def _pb(c, facts, depth):
    if depth > 60: return False, ('giveup', 'split depth')
    if c is TRUE: return True, None
    if c.op == 'and':
        for x in c.a:
            ok, info = _pb(x, facts, depth + 1)
            if not ok: return ok, info
        return True, None
    if c.op == 'ball':
        v, lo, hi, b = c.a
        nv = fresh('g')
        g = subst(b, {v: iv(nv)}); fs = facts + [ile(lo, iv(nv)), ilt(iv(nv), hi)]
        # as written, from the facts about the same index
        if g.op in ('rle', 'rlt') and Facts([f for f in fs + instances(g, fs) if f.op != 'ball']).decide(g) is True: return True, None
        return _pb(g, fs, depth + 1)
    F = Facts(facts)
    if c.op == 'req':
        ok, info = _pz(sub(c.a[0], c.a[1]), facts, depth + 1)
        if ok: return ok, info
    try:
        g = nbool(c, F)
        nfacts = []
        for f in facts:
            try:
                FACTNF[0] = True
                nfacts.append(nbool(f, F) if f.op in ('rle', 'rlt', 'req', 'bapp', 'or', 'not', 'and', 'ball', 'bex') or (f.op in ('ile', 'ieq') and any(x.op == 'isum' for x in walk(f))) else f)
            finally: FACTNF[0] = False
        # keep the originals: nbool decides a fact to true under itself
        FF = Facts(set(facts) | {x for x in nfacts if x is not TRUE})
        if g.op in ('rle', 'rlt', 'not') and any(x.op == 'fn' and x.a[0] == 'sqrt' for x in walk(g)):
            if sign_holds(c, FF) or nra_holds(g, FF): return True, None
        d = FF.decide(g)
        if d is True: return True, None
        if not FF.consistent(): return True, None
        if sign_holds(c, FF): return True, None
        return False, ('residual-bool', g, list(FF.facts))
    except NeedSplit as e:
        cc0 = e.cond
        if any(v.startswith(('s!', 'λ', 'β', 'δ')) for v in cc0.fv):
            return False, ('giveup', 'cannot split on bound condition ' + pp(cc0))
        for cc in (cc0, bnot(cc0)):
            F2 = Facts(facts).extend(cc)
            if not F2.consistent(): continue
            cc = tighten(cc, F2)
            if cc.op in ('ieq', 'req'):
                g2, f2, el = eliminate(c, facts, cc)
            else:
                g2, f2, el = c, list(F2.facts), None
            sv, se = CTX.unfold, CTX.elims
            if el:
                CTX.unfold = frozenset(sv | {el(x) for x in sv}); CTX.elims = se + (el,)
            try: ok, info = _pb(g2, f2, depth + 1)
            finally: CTX.unfold = sv; CTX.elims = se
            if not ok: return ok, info
        return True, None


def real_decide(c, facts, F):
    """a condition over reals decided by the normalised real facts"""
    x = c.a[0] if c.op == 'not' else c
    if x.op not in ('rle', 'rlt', 'req'): return None
    out = []
    for f in facts:
        y = f.a[0] if f.op == 'not' else f
        if y.op not in ('rle', 'rlt', 'req'): continue
        try: g = nbool(f, F)
        except NeedSplit: continue
        if g is not TRUE and g is not f: out.append(g)
    if not out: return None
    return Facts(set(facts) | set(out)).decide(c)


def tsign(t, F, depth=0):
    """'+' positive, '0' not negative, None unknown; 1/0 counts as not negative"""
    if depth > 12: return None
    if isnum(t): return '+' if t.a[0] > 0 else '0' if t.a[0] == 0 else None
    if t.op == 'i2r': return '+' if F.holds(ilt(ic(0), t.a[0])) else '0' if F.holds(ile(ic(0), t.a[0])) else None
    if F.holds(rlt(ZERO, t)): return '+'
    if t.op == 'fn':
        f = t.a[0]
        if f in ('exp', 'cosh'): return '+'
        if f == 'sqrt': return '+' if tsign(t.a[1], F, depth + 1) == '+' else '0'
        if f == 'abs': return '0'
        if f == 'max':
            x = [tsign(y, F, depth + 1) for y in t.a[1:]]
            return '+' if '+' in x else '0' if '0' in x else None
        if f == 'min':
            x = [tsign(y, F, depth + 1) for y in t.a[1:]]
            return None if None in x else '0' if '0' in x else '+'
    if t.op == 'sum':
        v, lo, hi, b = t.a
        nv = fresh('s')
        x = tsign(subst(b, {v: iv(nv)}), F.extend(ile(lo, iv(nv)), ilt(iv(nv), hi)), depth + 1)
        if x is not None: return '0'
    if t.op == 'add':
        x = [tsign(y, F, depth + 1) for y in t.a]
        if None not in x: return '+' if '+' in x else '0'
    if t.op == 'mul':
        x = [tsign(y, F, depth + 1) for y in t.a]
        if None not in x: return '+' if all(y == '+' for y in x) else '0'
    if t.op == 'pow':
        x = tsign(t.a[0], F, depth + 1)
        if t.a[1] % 2 == 0: return '+' if x == '+' else '0'
        return x
    if t.op == 'ite':
        x = tsign(t.a[1], F.extend(t.a[0]), depth + 1)
        y = tsign(t.a[2], F.extend(bnot(t.a[0])), depth + 1)
        if x and y: return '+' if x == y == '+' else '0'
    if F.holds(rle(ZERO, t)): return '0'
    return None


def nra_holds(g, F):
    """non-linear real arithmetic (nlsat) over the goal and the real facts that share an atom with it"""
    def atoms(f): return {x for x in walk(f) if x.op in ('rapp', 'sum')}
    av = atoms(g)
    fs = [f for f in sorted(F.facts, key=lambda x: x.id) if real_only(f) and atoms(f) and atoms(f) <= av]
    zc = ZConv()
    cs = [z3.Not(zc.b(g))] + [zc.b(f) for f in fs]
    side = zc.take()
    sol = z3.Tactic('qfnra-nlsat').solver()
    sol.set('timeout', 4000)
    for z in cs + side: sol.add(z)
    STATS['z3_queries'] += 1
    t0 = time.time()
    try: return sol.check() == z3.unsat
    except z3.Z3Exception: return False
    finally: STATS['z3_time'] += time.time() - t0


def sign_holds(c, F):
    """0 <= e, 0 < e (and their negated spellings) by the signs of the factors of the normal form of e"""
    neg = c.op == 'not'
    x = c.a[0] if neg else c
    if x.op not in ('rle', 'rlt'): return False
    a, b = x.a
    strict = (x.op == 'rlt') != neg
    if neg: a, b = b, a
    try:
        F.solver()
        if tsign(sub(b, a), F) in (('+',) if strict else ('+', '0')): return True
        t = poly_term(canon(nf(sub(b, a), F), F))
        return tsign(t, F) in (('+',) if strict else ('+', '0'))
    except (NeedSplit, GiveUp):
        return False


# ------------------------------------------------------------------ sums compared summand by summand
def prove_pointwise(a, b, facts, unfold=(), deadline=None, depth=0):
    """a == b: sums over equal ranges with pointwise equal summands, conditionals branch by branch"""
    if a is b: return True
    if depth > 8 or (deadline and time.time() > deadline): return False
    try: F = Facts(facts)
    except Exception: return False
    if not F.consistent(): return True
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and x.s == 'r':
            return (prove_pointwise(x.a[1], y, list(facts) + [x.a[0]], unfold, deadline, depth + 1)
                    and prove_pointwise(x.a[2], y, list(facts) + [bnot(x.a[0])], unfold, deadline, depth + 1))
    if a.op == 'sum' and b.op == 'sum':
        v, lo, hi, x = a.a; w, lo2, hi2, y = b.a
        if F.holds(band(ieq(lo, lo2), ieq(hi, hi2))):
            n = iv(fresh('q'))
            return prove_pointwise(subst(x, {v: n}), subst(y, {w: n}), list(facts) + [ile(lo, n), ilt(n, hi)], unfold, deadline, depth + 1)
    if a.op == 'add' or b.op == 'add':
        A = list(a.a) if a.op == 'add' else [a]; B = list(b.a) if b.op == 'add' else [b]
        for x in list(A):
            if x in B: A.remove(x); B.remove(x)
        for x in list(A):
            if x.op not in ('sum', 'ite'): continue
            for y in list(B):
                if y.op in ('sum', 'ite') and prove_pointwise(x, y, facts, unfold, deadline, depth + 1):
                    A.remove(x); B.remove(y); break
        a, b = add(*A) if A else ZERO, add(*B) if B else ZERO
        if a is b: return True
    d = min(deadline, time.time() + 10) if deadline else time.time() + 10
    return prove_zero(sub(a, b), facts, unfold, d)[0]


# ------------------------------------------------------------------ suprema
# max / maxo over non-negative entries: a term is the supremum of {0} and a finite family of guarded, indexed entries; two such
# terms are equal when every entry of one family occurs (for some index instance, under its guard) in the other one.
class NotSup(Exception):
    pass


def sup_entries(t):
    out = []

    def go(t, bs, gs):
        if t is ZERO: return
        if t.op == 'fn' and t.a[0] == 'max':
            for x in t.a[1:]: go(x, bs, gs)
        elif t.op == 'maxo':
            v, lo, hi, b = t.a
            nv = fresh('m')
            go(subst(b, {v: iv(nv)}), bs + [(nv, lo, hi)], gs)
        elif t.op == 'ite' and t.s == 'r':
            go(t.a[1], bs, gs + [t.a[0]]); go(t.a[2], bs, gs + [bnot(t.a[0])])
        elif t.op == 'fn' and t.a[0] == 'abs':
            own = {v for v, _, _ in bs}
            for x in walk(t.a[1]):
                if x.op == 'ite' and x.s == 'r' and not any(v not in own and v.startswith(('s!', 'λ', 'β', 'δ')) for v in x.a[0].fv):
                    go(fn('abs', replace_atom(t.a[1], x, x.a[1])), bs, gs + [x.a[0]])
                    go(fn('abs', replace_atom(t.a[1], x, x.a[2])), bs, gs + [bnot(x.a[0])])
                    return
            out.append((bs, gs, t))
        elif isnum(t) and t.a[0] >= 0: out.append((bs, gs, t))
        else: raise NotSup()
    go(t, [], [])
    return out


def prove_sup(a, b, facts, unfold=(), deadline=None):
    CTX.unfold = frozenset(unfold); CTX.elims = (); CTX.deadline = deadline; CTX.expand = False
    INDIC.clear()
    try:
        A, B = sup_entries(a), sup_entries(b)
        for X, Y in ((A, B), (B, A)):
            for e in X:
                if not sup_covered(e, Y, list(facts)): return False, ('residual-bool', e[2], [])
        return True, None
    except (NotSup, GiveUp, NeedSplit) as e:
        return False, ('giveup', 'supremum ' + str(e))
    except RecursionError:
        return False, ('giveup', 'recursion')
    finally:
        CTX.unfold = frozenset(); CTX.expand = False; CTX.deadline = None


def sup_covered(e, Y, facts, depth=0):
    bs, gs, body = e
    later = []
    fx = facts + [c for v, lo, hi in bs for c in (ile(lo, iv(v)), ilt(iv(v), hi))] + gs
    F = Facts(fx)
    if not F.consistent(): return True
    mine = [iv(v) for v, _, _ in bs]
    for bs2, gs2, body2 in Y:
        cands = []
        if len(bs2) == len(bs): cands.append(mine)
        pool = []
        for x in list(walk(body)) + mine:
            if x.s == 'i' and x not in pool and not any(v.startswith(('s!', 'λ', 'β', 'δ')) for v in x.fv): pool.append(x)
        extra = [iadd(x, ic(k)) for x in pool for k in (-1, 1)]
        pool = mine + [x for x in pool if x not in mine] + [x for x in extra if x not in pool]
        if ic(0) not in pool: pool.append(ic(0))
        if 1 <= len(bs2) <= 2 and len(pool) <= 24:
            import itertools
            cands += [list(c) for c in itertools.product(pool, repeat=len(bs2))]
        elif not bs2: cands.append([])
        seen = 0
        for c in cands:
            mp = {v: x for (v, _, _), x in zip(bs2, c)}
            ok = True
            for (v, lo, hi), x in zip(bs2, c):
                if not F.holds(band(ile(subst(lo, mp), x), ilt(x, subst(hi, mp)))): ok = False; break
            if not ok: continue
            if body.op != body2.op: continue
            seen += 1
            if seen > 60: break
            x1, x2 = (body.a[1], subst(body2.a[1], mp)) if body.op == 'fn' else (body, body2)
            if body.op == 'fn' and x1.fv != x2.fv and False: continue
            good = False
            for d in (sub(x1, x2), add(x1, x2)) if body.op == 'fn' else (sub(x1, x2),):
                try: good, _ = _pz(d, fx, 0)
                except NeedSplit: good = False
                if good: break
            if not good: continue
            open_ = [subst(g, mp) for g in gs2 if not _pb(subst(g, mp), fx, 0)[0]]
            if not open_: return True
            later += [g for g in open_ if g not in later]
    for g in later[:4]:
        if depth < 6 and sup_covered((bs, gs + [g], body), Y, facts, depth + 1) and sup_covered((bs, gs + [bnot(g)], body), Y, facts, depth + 1): return True
    return False


# ------------------------------------------------------------------ quantified index conditions (tableau with instantiation)
def qkey(b):
    v, lo, hi, x = b.a
    return (lo, hi, subst(x, {v: iv('§q')}))


def tab(todo, lits, balls, depth, fuel, deadline, used=frozenset()):
    """True when the conjunction of todo + lits + balls is contradictory"""
    todo = list(todo); lits = list(lits); balls = list(balls)
    ors = []
    used = set(used)
    rounds = 0
    while True:
        fuel[0] -= 1
        if fuel[0] < 0 or time.time() > deadline or depth > 40: return False
        while todo:
            f = todo.pop()
            if f is TRUE: continue
            if f is FALSE: return True
            if f.op == 'not' and f.a[0].op in ('and', 'or', 'ball', 'bex'): todo.append(bnot(f.a[0])); continue
            if f.op == 'and': todo += list(f.a)
            elif f.op == 'or': ors.append(f)
            elif f.op == 'ball': balls.append(f)
            elif f.op == 'bex':
                v, lo, hi, b = f.a
                nv = fresh('w')
                todo += [ile(lo, iv(nv)), ilt(iv(nv), hi), subst(b, {v: iv(nv)})]
            else: lits.append(f)
        F = Facts(lits)
        if not F.consistent(): return True
        try:
            norm = []
            for f in lits:
                g = nbool(f, F) if f.op in ('rle', 'rlt', 'req', 'bapp', 'not', 'oeq') else f
                if g is FALSE: return True
                if g is not TRUE: norm.append(g)
            FF = Facts(set(lits) | set(norm))
            if not FF.consistent(): return True
            # simplify the disjunctions
            nxt = []
            unit = False
            qk = {qkey(b) for b in balls}
            for o in ors:
                live = []
                sat = False
                for d in o.a:
                    if d.op in ('ball', 'bex'):
                        if d.op == 'ball' and qkey(d) in qk: sat = True; break
                        if d.op == 'bex' and qkey(bnot(d)) in qk: continue
                    if d.op in ('and', 'or', 'ball', 'bex'): live.append(d); continue
                    k = FF.decide(nbool(d, F))
                    if k is True: sat = True; break
                    if k is None: live.append(d)
                if sat: continue
                if not live: return True
                if len(live) == 1: todo.append(live[0]); unit = True
                else: nxt.append(bor(*live))
            ors = nxt
            if unit: continue
        except NeedSplit as e:
            cc = e.cond
            if any(v.startswith(('s!', 'λ', 'β', 'δ', 'μ')) for v in cc.fv): return False
            return all(tab([x] + ors, lits, balls, depth + 1, fuel, deadline, used) for x in (cc, bnot(cc)))
        if ors and rounds >= 1 or (ors and not balls):
            o = min(ors, key=lambda z: len(z.a))
            rest = [x for x in ors if x is not o]
            return all(tab([d] + rest, lits, balls, depth + 1, fuel, deadline, used) for d in o.a)
        rounds += 1
        if rounds > 3: return False
        ground = {}
        for f in lits + ors:
            for x in walk(f):
                if x.op in ('iapp', 'rapp', 'bapp', 'oapp'):
                    for q, y in enumerate(x.a[1] if len(x.a) > 1 else ()):
                        if getattr(y, 's', None) == 'i' and y.fv <= f.fv and not any(v.startswith(('s!', 'λ', 'β', 'δ', 'μ')) for v in y.fv):
                            ground.setdefault((x.a[0], q), set()).add(y)
        sk = [iv(v) for v in sorted({q for f in lits + ors for q in f.fv}) if not v.startswith(('s!', 'λ', 'β', 'δ', 'μ'))]
        new = False
        for b in list(balls):
            v, lo, hi, body = b.a
            cs = []
            for x in walk(body):
                if x.op in ('iapp', 'rapp', 'bapp', 'oapp'):
                    for q, y in enumerate(x.a[1] if len(x.a) > 1 else ()):
                        if getattr(y, 's', None) != 'i' or v not in y.fv: continue
                        c0 = isub(y, iv(v))
                        if v in c0.fv: continue
                        cs += [isub(g, c0) for g in sorted(ground.get((x.a[0], q), ()), key=lambda z: z.id)]
            cs += sk
            for y in list(dict.fromkeys(cs))[:16]:
                if (b, y) in used: continue
                used.add((b, y))
                k = F.decide(band(ile(lo, y), ilt(y, hi)))
                if k is True:
                    todo.append(subst(body, {v: y})); new = True
                elif k is None:
                    todo.append(bor(bnot(ile(lo, y)), bnot(ilt(y, hi)), subst(body, {v: y}))); new = True
        if not new and not ors: return False
