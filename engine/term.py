"""Hash-consed terms: integers (canonical linear), reals, booleans, opaque."""
from fractions import Fraction
import itertools

_tab = {}
_ctr = itertools.count()


class T:
    __slots__ = ('op', 'a', 's', 'id', 'fv', 'names')

    def __repr__(s):
        return pp(s)

    def __add__(s, o):
        return add(s, o)
    __radd__ = __add__

    def __sub__(s, o):
        return sub(s, o)

    def __rsub__(s, o):
        return sub(o, s)

    def __mul__(s, o):
        return mul(s, o)
    __rmul__ = __mul__

    def __neg__(s):
        return mul(s, -1)

    def __truediv__(s, o):
        return mul(s, inv(o))

    def __rtruediv__(s, o):
        return mul(o, inv(s))

    def __reduce__(s):
        return (mk, (s.op, s.a, s.s))


EMPTY = frozenset()


def mk(op, a, s):
    k = (op, a, s)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T.__new__(T)
    t.op = op; t.a = a; t.s = s; t.id = next(_ctr)
    if op == 'iv':
        t.fv = frozenset((a[0],)); t.names = EMPTY
    else:
        fv = EMPTY; nm = EMPTY
        if op == 'lin':
            for x, _ in a[1]:
                if x.fv:
                    fv = fv | x.fv
                if x.names:
                    nm = nm | x.names
        elif op == 'sum' or op == 'maxo' or op == 'ball' or op == 'isum' or op == 'bex':
            v, lo, hi, b = a
            fv = (b.fv - {v}) | lo.fv | hi.fv
            nm = b.names | lo.names | hi.names
        elif op == 'lam':
            vs, b, dims = a
            fv = b.fv - frozenset(vs)
            nm = b.names
            for d in dims:
                fv = fv | d.fv; nm = nm | d.names
        else:
            for x in a:
                if isinstance(x, T):
                    if x.fv:
                        fv = fv | x.fv
                    if x.names:
                        nm = nm | x.names
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T):
                            if y.fv:
                                fv = fv | y.fv
                            if y.names:
                                nm = nm | y.names
            if op in ('rapp', 'iapp', 'bapp', 'oapp'):
                nm = nm | {a[0]}
        t.fv = fv; t.names = nm
    _tab[k] = t
    return t


_fresh = itertools.count()


def fresh(p='k'):
    return '%s!%d' % (p, next(_fresh))


# ------------------------------------------------------------------ ints
def ic(n):
    return mk('lin', (int(n), ()), 'i')


def iv(name):
    return mk('iv', (name,), 'i')


def iapp(name, *args):
    return mk('iapp', (name, tuple(args)), 'i')


def toint(x):
    if isinstance(x, T):
        if x.s == 'i':
            return x
        if x.s == 'b':
            if x is TRUE: return ic(1)
            if x is FALSE: return ic(0)
            return iite(x, ic(1), ic(0))
        if x.s == 'r':
            if x.op == 'i2r':
                return x.a[0]
            if x.op == 'num' and x.a[0].denominator == 1:
                return ic(x.a[0].numerator)
            return mk('iapp', ('trunc', (x,)), 'i')
        raise TypeError('toint %s' % x.s)
    return ic(x)


def parts(x):
    if x.op == 'lin':
        return x.a
    return (0, ((x, 1),))


def mklin(c, d):
    it = [(a, k) for a, k in d.items() if k != 0]
    if not it:
        return ic(c)
    if c == 0 and len(it) == 1 and it[0][1] == 1:
        return it[0][0]
    it.sort(key=lambda p: p[0].id)
    return mk('lin', (c, tuple(it)), 'i')


def iadd(a, b, kb=1):
    a = toint(a); b = toint(b)
    ca, pa = parts(a); cb, pb = parts(b)
    d = dict(pa)
    for x, k in pb:
        d[x] = d.get(x, 0) + k * kb
    return mklin(ca + kb * cb, d)


def isub(a, b):
    return iadd(a, b, -1)


def iscale(a, k):
    c, p = parts(toint(a))
    return mklin(c * k, {x: m * k for x, m in p})


def isc(x):
    return isinstance(x, T) and x.op == 'lin' and not x.a[1]


def icv(x):
    return x.a[0]


def imul(a, b):
    a = toint(a); b = toint(b)
    if isc(a):
        return iscale(b, icv(a))
    if isc(b):
        return iscale(a, icv(b))
    # distribute
    ca, pa = parts(a); cb, pb = parts(b)
    r = ic(ca * cb)
    for x, k in pa:
        r = iadd(r, iscale(x, k * cb))
    for y, k in pb:
        r = iadd(r, iscale(y, k * ca))
    for x, k in pa:
        for y, m in pb:
            fs = []
            for z in (x, y):
                if z.op == 'imul':
                    fs.extend(z.a)
                else:
                    fs.append(z)
            fs.sort(key=lambda z: z.id)
            r = iadd(r, iscale(mk('imul', tuple(fs), 'i'), k * m))
    return r


def idiv(a, b):
    a = toint(a); b = toint(b)
    if isc(b) and icv(b) != 0:
        n = icv(b)
        if isc(a):
            q = abs(icv(a)) // abs(n)
            return ic(q if (icv(a) >= 0) == (n > 0) else -q)
        c, p = parts(a)
        if c % n == 0 and all(k % n == 0 for _, k in p):
            return mklin(c // n, {x: k // n for x, k in p})
    return mk('idiv', (a, b), 'i')


def imod(a, b):
    a = toint(a); b = toint(b)
    if isc(a) and isc(b) and icv(b):
        return ic(icv(a) % icv(b))
    return mk('imod', (a, b), 'i')


def iite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return mk('iite', (c, a, b), 'i')


# ------------------------------------------------------------------ bools
TRUE = mk('true', (), 'b')
FALSE = mk('false', (), 'b')


def tobool(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if x.s == 'b':
        return x
    if x.s == 'i':
        return bnot(ieq(x, ic(0)))
    if x.s == 'r':
        return bnot(req(x, num(0)))
    raise TypeError


def ile(a, b):
    """a <= b"""
    d = isub(a, b)
    if isc(d):
        return TRUE if icv(d) <= 0 else FALSE
    # divide by gcd
    c, p = parts(d)
    from math import gcd
    g = 0
    for _, k in p:
        g = gcd(g, abs(k))
    if g > 1:
        # sum <= -c  -> sum/g <= floor(-c/g)
        cc = -((-c) // g)
        d = mklin(cc, {x: k // g for x, k in p})
    return mk('ile', (d,), 'b')


def ilt(a, b):
    return ile(iadd(a, ic(1)), b)


def ieq(a, b):
    d = isub(a, b)
    if isc(d):
        return TRUE if icv(d) == 0 else FALSE
    c, p = parts(d)
    if p[0][1] < 0:
        d = iscale(d, -1)
    c, p = parts(d)
    from math import gcd
    g = 0
    for _, k in p:
        g = gcd(g, abs(k))
    if c % g != 0:
        return FALSE
    if g > 1:
        d = mklin(c // g, {x: k // g for x, k in p})
        c, p = parts(d)
    if len(p) == 1 and p[0][0].op == 'iite' and isc(p[0][0].a[1]) and isc(p[0][0].a[2]):
        # a choice between two constants
        x, k = p[0]
        l, r = c + k * icv(x.a[1]) == 0, c + k * icv(x.a[2]) == 0
        return TRUE if l and r else x.a[0] if l else bnot(x.a[0]) if r else FALSE
    return mk('ieq', (d,), 'b')


def bnot(c):
    c = tobool(c)
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.op == 'not': return c.a[0]
    if c.op == 'ile':
        # not(d<=0)  <=> -d+1 <= 0
        return mk('ile', (iadd(iscale(c.a[0], -1), ic(1)),), 'b')
    if c.op == 'rle':
        return mk('rlt', (c.a[1], c.a[0]), 'b')
    if c.op == 'rlt':
        return mk('rle', (c.a[1], c.a[0]), 'b')
    if c.op == 'and':
        return bor(*[bnot(x) for x in c.a])
    if c.op == 'or':
        return band(*[bnot(x) for x in c.a])
    if c.op == 'ball':
        v, lo, hi, b = c.a
        return mk('bex', (v, lo, hi, bnot(b)), 'b')
    if c.op == 'bex':
        v, lo, hi, b = c.a
        return mk('ball', (v, lo, hi, bnot(b)), 'b')
    return mk('not', (c,), 'b')


def band(*cs):
    out = []
    for c in cs:
        c = tobool(c)
        if c is FALSE: return FALSE
        if c is TRUE: continue
        for x in (c.a if c.op == 'and' else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if bnot_shallow(x) in out:
            return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    out.sort(key=lambda z: z.id)
    return mk('and', tuple(out), 'b')


def bnot_shallow(x):
    if x.op == 'not': return x.a[0]
    if x.op in ('ile', 'rle', 'rlt'): return bnot(x)
    return mk('not', (x,), 'b') if x.op not in ('and', 'or', 'ball', 'bex') else None


def bor(*cs):
    out = []
    for c in cs:
        c = tobool(c)
        if c is TRUE: return TRUE
        if c is FALSE: continue
        for x in (c.a if c.op == 'or' else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if bnot_shallow(x) in out:
            return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    out.sort(key=lambda z: z.id)
    return mk('or', tuple(out), 'b')


def bapp(name, *args):
    return mk('bapp', (name, tuple(args)), 'b')


def bite(c, a, b):
    if a is b: return a
    return bor(band(c, a), band(bnot(c), b))


def beq(a, b):
    if a is b: return TRUE
    return bite(a, b, bnot(b))


def ball(v, lo, hi, b):
    if b is TRUE: return TRUE
    return mk('ball', (v, lo, hi, b), 'b')


# ------------------------------------------------------------------ reals
def num(x):
    return mk('num', (Fraction(x),), 'r')


ZERO = num(0)
ONE = num(1)


def toreal(x):
    if isinstance(x, T):
        if x.s == 'r': return x
        if x.s == 'i':
            if isc(x): return num(icv(x))
            return mk('i2r', (x,), 'r')
        if x.s == 'b':
            return ite(x, ONE, ZERO)
        raise TypeError('toreal %r' % (x,))
    return num(x)


def rapp(name, *args):
    return mk('rapp', (name, tuple(args)), 'r')


def isnum(x):
    return x.op == 'num'


def add(*xs):
    if all(isinstance(x, T) and x.s == 'i' or isinstance(x, int) for x in xs):
        r = toint(xs[0])
        for x in xs[1:]:
            r = iadd(r, x)
        return r
    c = Fraction(0)
    out = []
    for x in xs:
        x = toreal(x)
        if x.op == 'num':
            c += x.a[0]
        elif x.op == 'add':
            for y in x.a:
                if y.op == 'num':
                    c += y.a[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if c != 0:
        out.append(num(c))
    if not out: return ZERO
    if len(out) == 1: return out[0]
    return mk('add', tuple(out), 'r')


def sub(a, b):
    if (isinstance(a, int) or a.s == 'i') and (isinstance(b, int) or b.s == 'i'):
        return isub(a, b)
    a = toreal(a); b = toreal(b)
    if a is b: return ZERO
    return add(a, mul(b, num(-1)))


def mul(*xs):
    if all(isinstance(x, T) and x.s == 'i' or isinstance(x, int) for x in xs):
        r = toint(xs[0])
        for x in xs[1:]:
            r = imul(r, x)
        return r
    c = Fraction(1)
    out = []
    for x in xs:
        x = toreal(x)
        if x.op == 'num':
            c *= x.a[0]
        elif x.op == 'mul':
            for y in x.a:
                if y.op == 'num':
                    c *= y.a[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if c == 0: return ZERO
    if not out: return num(c)
    if c != 1:
        out.insert(0, num(c))
    if len(out) == 1: return out[0]
    return mk('mul', tuple(out), 'r')


def inv(x):
    x = toreal(x)
    if isnum(x) and x.a[0] != 0:
        return num(1 / x.a[0])
    return rpow(x, -1)


def rpow(x, n):
    x = toreal(x)
    if n == 0: return ONE
    if n == 1: return x
    if isnum(x) and (n > 0 or x.a[0] != 0): return num(x.a[0] ** n)
    if x.op == 'pow': return rpow(x.a[0], x.a[1] * n)
    return mk('pow', (x, n), 'r')


def fn(name, *args):
    args = tuple(toreal(a) for a in args)
    if name == 'sqrt' and isnum(args[0]) and args[0].a[0] in (0, 1):
        return args[0]
    if name == 'abs' and isnum(args[0]):
        return num(abs(args[0].a[0]))
    if name in ('max', 'min') and all(isnum(a) for a in args):
        return num(max(a.a[0] for a in args) if name == 'max' else min(a.a[0] for a in args))
    if name in ('max', 'min') and args[0] is args[1]:
        return args[0]
    if name == 'exp' and args[0] is ZERO: return ONE
    if name == 'log' and args[0] is ONE: return ZERO
    if name == 'pow' and args[1] is ZERO: return ONE
    if name == 'sin' and args[0] is ZERO: return ZERO
    if name == 'cos' and args[0] is ZERO: return ONE
    return mk('fn', (name,) + args, 'r')


def ite(c, a, b):
    c = tobool(c)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.s == 'i' and b.s == 'i': return iite(c, a, b)
    if a.s == 'b' and b.s == 'b': return bite(c, a, b)
    if a.s == 'o':
        return mk('oite', (c, a, b), 'o')
    a = toreal(a); b = toreal(b)
    if a is b: return a
    if c.op == 'not':
        return mk('ite', (c.a[0], b, a), 'r')
    return mk('ite', (c, a, b), 'r')


def rsum(v, lo, hi, body):
    """sum_{v=lo}^{hi-1} body"""
    body = toreal(body)
    lo = toint(lo); hi = toint(hi)
    if body is ZERO: return ZERO
    d = isub(hi, lo)
    if isc(d):
        n = icv(d)
        if n <= 0: return ZERO
        if n <= 1:
            return subst(body, {v: lo})
    return mk('sum', (v, lo, hi, body), 'r')


def isum(v, lo, hi, body):
    lo = toint(lo); hi = toint(hi)
    d = isub(hi, lo)
    if isc(d):
        n = icv(d)
        if n <= 0: return ic(0)
        if n <= 2:
            r = ic(0)
            for i in range(n):
                r = iadd(r, subst(body, {v: iadd(lo, ic(i))}))
            return r
    if v not in body.fv:
        return imul(body, d)
    return mk('isum', (v, lo, hi, body), 'i')


def maxo(v, lo, hi, body, name='max'):
    """fold of max over v in [lo,hi) (value for an empty range is part of the enclosing term)"""
    return mk('maxo', (v, lo, hi, toreal(body)), 'r')


def rle(a, b):
    a = toreal(a); b = toreal(b)
    if isnum(a) and isnum(b): return TRUE if a.a[0] <= b.a[0] else FALSE
    if a is b: return TRUE
    return mk('rle', (a, b), 'b')


def rlt(a, b):
    a = toreal(a); b = toreal(b)
    if isnum(a) and isnum(b): return TRUE if a.a[0] < b.a[0] else FALSE
    if a is b: return FALSE
    return mk('rlt', (a, b), 'b')


def req(a, b):
    a = toreal(a); b = toreal(b)
    if isnum(a) and isnum(b): return TRUE if a.a[0] == b.a[0] else FALSE
    if a is b: return TRUE
    if a.id > b.id: a, b = b, a
    return mk('req', (a, b), 'b')


# comparisons of the analysed code; with IEEE[0] set they are false on undefined operands
IEEE = [False]


def nanof(t):
    t = toreal(t)
    if isnum(t): return FALSE
    if t.op == 'rapp' and t.a[0] in ('INF', 'DBL_MAX', 'DBL_EPS', 'DBL_lowest', 'DBL_min'): return FALSE
    if t is rapp('NAN'): return TRUE
    if t.op in ('add', 'mul'): return bor(*[nanof(x) for x in t.a if isinstance(x, T)])
    if t.op == 'ite': return bite(t.a[0], nanof(t.a[1]), nanof(t.a[2]))
    return bapp('isnan', t)


def _guarded(f):
    def g(a, b):
        if not IEEE[0]: return f(a, b)
        return band(bnot(nanof(a)), bnot(nanof(b)), f(a, b))
    return g


flt, fle, feq = _guarded(rlt), _guarded(rle), _guarded(req)
def oapp(name, *args):
    return mk('oapp', (name, tuple(args)), 'o')


def oeq(a, b):
    if a is b: return TRUE
    if a.id > b.id: a, b = b, a
    return mk('oeq', (a, b), 'b')


def lam(vs, body, dims):
    return mk('lam', (tuple(vs), body, tuple(dims)), 'l')


# ------------------------------------------------------------------ rebuild / subst
def rebuild(t, f):
    """apply f to children and rebuild through smart constructors (no binder care)"""
    op, a = t.op, t.a
    if op in ('iv', 'num', 'true', 'false'): return t
    if op == 'lin':
        r = ic(a[0])
        for x, k in a[1]:
            r = iadd(r, iscale(f(x), k))
        return r
    if op in ('iapp', 'rapp', 'bapp', 'oapp'):
        return mk(op, (a[0], tuple(f(x) for x in a[1])), t.s)
    if op == 'imul':
        r = f(a[0])
        for x in a[1:]:
            r = imul(r, f(x))
        return r
    if op == 'idiv': return idiv(f(a[0]), f(a[1]))
    if op == 'imod': return imod(f(a[0]), f(a[1]))
    if op == 'iite': return iite(f(a[0]), f(a[1]), f(a[2]))
    if op == 'ile': return ile(f(a[0]), ic(0))
    if op == 'ieq': return ieq(f(a[0]), ic(0))
    if op == 'not': return bnot(f(a[0]))
    if op == 'and': return band(*[f(x) for x in a])
    if op == 'or': return bor(*[f(x) for x in a])
    if op == 'rle': return rle(f(a[0]), f(a[1]))
    if op == 'rlt': return rlt(f(a[0]), f(a[1]))
    if op == 'req': return req(f(a[0]), f(a[1]))
    if op == 'oeq': return oeq(f(a[0]), f(a[1]))
    if op == 'add': return add(*[f(x) for x in a])
    if op == 'mul': return mul(*[f(x) for x in a])
    if op == 'pow': return rpow(f(a[0]), a[1])
    if op == 'fn': return fn(a[0], *[f(x) for x in a[1:]])
    if op in ('ite', 'oite'): return ite(f(a[0]), f(a[1]), f(a[2]))
    if op == 'i2r': return toreal(f(a[0]))
    if op == 'sum': return rsum(a[0], f(a[1]), f(a[2]), f(a[3]))
    if op == 'isum': return isum(a[0], f(a[1]), f(a[2]), f(a[3]))
    if op == 'maxo': return maxo(a[0], f(a[1]), f(a[2]), f(a[3]))
    if op == 'ball': return ball(a[0], f(a[1]), f(a[2]), f(a[3]))
    if op == 'bex': return bnot(ball(a[0], f(a[1]), f(a[2]), bnot(f(a[3]))))
    if op == 'lam': return lam(a[0], f(a[1]), [f(d) for d in a[2]])
    raise KeyError(op)


BINDERS = ('sum', 'isum', 'maxo', 'ball', 'bex')


def subst(t, m, fm=None, memo=None):
    """m: var name -> int term;  fm: function name -> python callable(*args)->term"""
    if memo is None:
        memo = {}
    mk_ = frozenset(m)
    fk_ = frozenset(fm) if fm else EMPTY
    repl_fv = EMPTY
    for v in m.values():
        repl_fv = repl_fv | v.fv

    def go(t):
        if not (t.fv & mk_) and not (fk_ and (t.names & fk_)):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        op, a = t.op, t.a
        if op == 'iv':
            r = m.get(a[0], t)
        elif op in BINDERS:
            v, lo, hi, b = a
            lo2, hi2 = go(lo), go(hi)
            if v in mk_ or v in repl_fv or fk_:
                nv = fresh('k')
                b = subst(b, {v: iv(nv)})
                v = nv
            b2 = go(b)
            if op == 'sum': r = rsum(v, lo2, hi2, b2)
            elif op == 'isum': r = isum(v, lo2, hi2, b2)
            elif op == 'maxo': r = maxo(v, lo2, hi2, b2)
            elif op == 'ball': r = ball(v, lo2, hi2, b2)
            else: r = bnot(ball(v, lo2, hi2, bnot(b2)))
        elif op == 'lam':
            vs, b, dims = a
            if any(v in mk_ or v in repl_fv for v in vs) or fk_:
                nvs = [fresh('l') for _ in vs]
                b = subst(b, {v: iv(n) for v, n in zip(vs, nvs)})
                vs = nvs
            r = lam(vs, go(b), [go(d) for d in dims])
        elif fk_ and op in ('rapp', 'iapp', 'bapp', 'oapp') and a[0] in fk_:
            r = fm[a[0]](*[go(x) for x in a[1]])
        else:
            r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)


_alpha = {}
_height = {}


def height(t):
    """binder nesting height"""
    r = _height.get(t)
    if r is not None: return r
    h = 0
    for c in children(t):
        x = height(c)
        if x > h: h = x
    if t.op in BINDERS or t.op == 'lam': h += 1
    _height[t] = h
    return h


def alpha(t):
    """alpha-canonical form: every bound variable is named after the binder's height (inner binders are strictly
    lower, so no capture is possible); commutative arguments are re-sorted"""
    if not isinstance(t, T): return t
    r = _alpha.get(t)
    if r is not None: return r
    if height(t) == 0:
        return t
    op, a = t.op, t.a
    if op in BINDERS:
        n = 'δ%d' % height(t)
        b = a[3] if a[0] == n else subst(a[3], {a[0]: iv(n)})
        r = mk(op, (n, alpha(a[1]), alpha(a[2]), alpha(b)), t.s)
    elif op == 'lam':
        h = height(t)
        ns = ['δ%d_%d' % (h, i) for i in range(len(a[0]))]
        b = a[1] if list(a[0]) == ns else subst(a[1], {v: iv(n) for v, n in zip(a[0], ns)})
        r = mk('lam', (tuple(ns), alpha(b), tuple(alpha(d) for d in a[2])), 'l')
    elif op == 'add' or op == 'mul':
        r = mk(op, tuple(sorted((alpha(x) for x in a), key=lambda z: z.id)), t.s)
    else:
        r = rebuild(t, alpha)
    _alpha[t] = r
    _alpha[r] = r
    return r


def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in children(x):
            st.append(y)


def children(t):
    op, a = t.op, t.a
    if op in ('iv', 'num', 'true', 'false'): return ()
    if op == 'lin': return tuple(x for x, _ in a[1])
    if op in ('iapp', 'rapp', 'bapp', 'oapp'): return tuple(a[1])
    if op == 'lam': return (a[1],) + tuple(a[2])
    return tuple(x for x in a if isinstance(x, T))


def pp(t, depth=12):
    if not isinstance(t, T): return str(t)
    if depth <= 0: return '...'
    op, a = t.op, t.a
    p = lambda x: pp(x, depth - 1)
    if op == 'iv': return a[0]
    if op == 'lin':
        s = []
        for x, k in a[1]:
            s.append(('%s' % p(x)) if k == 1 else ('-%s' % p(x) if k == -1 else '%d*%s' % (k, p(x))))
        if a[0] or not s: s.append(str(a[0]))
        return '+'.join(s).replace('+-', '-')
    if op == 'num': return str(a[0])
    if op in ('iapp', 'rapp', 'bapp', 'oapp'): return '%s(%s)' % (a[0], ','.join(p(x) for x in a[1])) if a[1] else a[0]
    if op == 'imul': return '*'.join(p(x) for x in a)
    if op == 'add': return '(' + ' + '.join(p(x) for x in a) + ')'
    if op == 'mul': return '*'.join(p(x) for x in a)
    if op == 'pow': return '%s^%d' % (p(a[0]), a[1])
    if op == 'fn': return '%s(%s)' % (a[0], ','.join(p(x) for x in a[1:]))
    if op in ('ite', 'iite', 'oite'): return 'ite(%s, %s, %s)' % tuple(p(x) for x in a)
    if op == 'ile': return '(%s<=0)' % p(a[0])
    if op == 'ieq': return '(%s==0)' % p(a[0])
    if op == 'rle': return '(%s<=%s)' % (p(a[0]), p(a[1]))
    if op == 'rlt': return '(%s<%s)' % (p(a[0]), p(a[1]))
    if op in ('req', 'oeq'): return '(%s==%s)' % (p(a[0]), p(a[1]))
    if op == 'not': return '!%s' % p(a[0])
    if op == 'and': return '(' + ' & '.join(p(x) for x in a) + ')'
    if op == 'or': return '(' + ' | '.join(p(x) for x in a) + ')'
    if op in BINDERS: return '%s{%s=%s..%s}(%s)' % (op, a[0], p(a[1]), p(a[2]), p(a[3]))
    if op == 'lam': return '\\%s.%s' % (','.join(a[0]), p(a[1]))
    if op == 'i2r': return p(a[0])
    return '%s%s' % (op, tuple(p(x) for x in a) if a else '')
