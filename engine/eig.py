"""Contracts of the Eigen / standard-library operations used by the code under
verification (dependency contracts: assumed, listed in the evidence)."""
from term import *
import symex as SX
from symex import (Ten, View, LRef, VRef, MRef, Iter, Pair, Opq, CommaInit, Fact, Bound, Unsupported, AllThrow,
                   kind_of, strip_t, targs, short, nid, is_ptr, Lambda, idx_eq, vite)
import re

I0, I1 = ic(0), ic(1)


# ------------------------------------------------------------------ views
def dims(ex, b, st):
    if isinstance(b, LRef):
        if b.view is not None: return b.view.rows, b.view.cols
        x = ex.read(st, b.key, b.idx, b.typ)
        if not isinstance(x, Ten): raise Unsupported('dims of %s' % type(x).__name__)
        return x.rows, x.cols
    if isinstance(b, Ten): return b.rows, b.cols
    raise Unsupported('dims of %s' % type(b).__name__)


def mkview(ex, b, rows, cols, fwd, bwd, st):
    """view on a reference or on a value"""
    rows, cols = toint(rows), toint(cols)
    if isinstance(b, Ten):
        return Ten(rows, cols, lambda i, j: b.at(*fwd(i, j)), b.arr, b.s)
    v0 = b.view
    if v0 is None:
        v = View(rows, cols, fwd, bwd)
    else:
        def f2(i, j):
            return v0.fwd(*fwd(i, j))
        def b2(i, j):
            c, a, e = v0.bwd(i, j)
            if c is FALSE: return FALSE, a, e
            c2, a2, e2 = bwd(a, e)
            return band(c, c2), a2, e2
        v = View(rows, cols, f2, b2)
    r = LRef(b.key, b.idx, b.typ, v, None, b.arr)
    return r


def block(ex, b, r0, c0, nr, nc, st, node=None):
    R, C = dims(ex, b, st)
    r0, c0, nr, nc = map(toint, (r0, c0, nr, nc))
    for lo, n, N, w in ((r0, nr, R, 'rows'), (c0, nc, C, 'cols')):
        if not (lo is I0 and n is N):
            ex.inrange(st, 'block start ' + w, I0, lo, lo, node)
            ex.inrange(st, 'block size ' + w, I0, n, n, node)
            ex.inrange(st, 'block end ' + w, iadd(lo, n), iadd(lo, n), N, node)
    fullr = r0 is I0 and nr is R
    fullc = c0 is I0 and nc is C

    def fwd(i, j):
        return iadd(i, r0), iadd(j, c0)

    def bwd(i, j):
        cs = []
        if not fullr:
            cs += [ile(r0, i), ilt(i, iadd(r0, nr))]
        if not fullc:
            cs += [ile(c0, j), ilt(j, iadd(c0, nc))]
        return band(*cs), isub(i, r0), isub(j, c0)
    return mkview(ex, b, nr, nc, fwd, bwd, st)


def transpose(ex, b, st):
    R, C = dims(ex, b, st)
    return mkview(ex, b, C, R, lambda i, j: (j, i), lambda i, j: (TRUE, j, i), st)


def diagonal(ex, b, st):
    R, C = dims(ex, b, st)
    if R is C: n = R
    else:
        d = ex.decide(ile(R, C), st)
        n = R if d is True else C if d is False else iite(ile(R, C), R, C)
    return mkview(ex, b, n, I1, lambda i, j: (i, i), lambda i, j: (ieq(i, j), i, I0), st)


def setarr(b, flag):
    if isinstance(b, Ten): return Ten(b.rows, b.cols, b.f, flag, b.s)
    r = LRef(b.key, b.idx, b.typ, b.view, b.elem, flag)
    return r


def fixed_n(t):
    """trailing fixed size of a VectorBlock<..., N> or Block<..., R, C> type"""
    a = targs(strip_t(t))
    return a


# ------------------------------------------------------------------ arithmetic
def bc(a, b):
    """common shape"""
    return a.rows, a.cols


def ew(ex, a, b, g, st, node, sort='r'):
    if isinstance(a, T) and isinstance(b, Ten):
        return Ten(b.rows, b.cols, lambda i, j: g(a, b.at(i, j)), b.arr, sort)
    if isinstance(b, T) and isinstance(a, Ten):
        return Ten(a.rows, a.cols, lambda i, j: g(a.at(i, j), b), a.arr, sort)
    ex.shape(st, 'elementwise rows', a.rows, b.rows, node)
    ex.shape(st, 'elementwise cols', a.cols, b.cols, node)
    return Ten(a.rows, a.cols, lambda i, j: g(a.at(i, j), b.at(i, j)), a.arr or b.arr, sort)


def matmul(ex, a, b, st, node=None):
    ex.shape(st, 'product inner dimension', a.cols, b.rows, node)
    K = a.cols
    if isc(b.rows): K = b.rows

    def f(i, j):
        if isc(K) and icv(K) <= 4:
            return add(*[mul(a.at(i, ic(k)), b.at(ic(k), j)) for k in range(icv(K))]) if icv(K) > 0 else ZERO
        k = fresh()
        return rsum(k, I0, K, mul(a.at(i, iv(k)), b.at(iv(k), j)))
    return Ten(a.rows, b.cols, f)


def dot(ex, a, b, st, node=None):
    ex.shape(st, 'dot', a.size(), b.size(), node)
    n = a.size()
    if isc(n) and icv(n) <= 4:
        return add(*[mul(a.vec(ic(k)), b.vec(ic(k))) for k in range(icv(n))]) if icv(n) else ZERO
    k = fresh()
    return rsum(k, I0, n, mul(a.vec(iv(k)), b.vec(iv(k))))


def tsum(a, g=lambda x: x):
    if isc(a.cols) and icv(a.cols) == 1 or isc(a.rows) and icv(a.rows) == 1:
        n = a.size()
        if isc(n) and icv(n) <= 4:
            return add(*[g(a.vec(ic(k))) for k in range(icv(n))]) if icv(n) else ZERO
        k = fresh()
        return rsum(k, I0, n, g(a.vec(iv(k))))
    k, l = fresh(), fresh()
    return rsum(k, I0, a.rows, rsum(l, I0, a.cols, g(a.at(iv(k), iv(l)))))


def tmaxabs(a):
    k = fresh()
    if isc(a.cols) and icv(a.cols) == 1 or isc(a.rows) and icv(a.rows) == 1:
        return maxo(k, I0, a.size(), fn('abs', a.vec(iv(k))))
    l = fresh()
    return maxo(k, I0, a.rows, maxo(l, I0, a.cols, fn('abs', a.at(iv(k), iv(l)))))


def tall(a, g):
    k = fresh()
    if isc(a.cols) and icv(a.cols) == 1 or isc(a.rows) and icv(a.rows) == 1:
        n = a.size()
        if isc(n) and icv(n) <= 4: return band(*[tobool(g(a.vec(ic(i)))) for i in range(icv(n))])
        return ball(k, I0, n, tobool(g(a.vec(iv(k)))))
    l = fresh()
    return ball(k, I0, a.rows, ball(l, I0, a.cols, tobool(g(a.at(iv(k), iv(l))))))


def tenof(v):
    return isinstance(v, Ten)


# ------------------------------------------------------------------ Eigen methods
SIMPLE_BLOCKS = {
    'topRows': lambda R, C, a: (I0, I0, a[0], C),
    'bottomRows': lambda R, C, a: (isub(R, a[0]), I0, a[0], C),
    'middleRows': lambda R, C, a: (a[0], I0, a[1], C),
    'leftCols': lambda R, C, a: (I0, I0, R, a[0]),
    'rightCols': lambda R, C, a: (I0, isub(C, a[0]), R, a[0]),
    'middleCols': lambda R, C, a: (I0, a[0], R, a[1]),
    'topLeftCorner': lambda R, C, a: (I0, I0, a[0], a[1]),
    'topRightCorner': lambda R, C, a: (I0, isub(C, a[1]), a[0], a[1]),
    'bottomLeftCorner': lambda R, C, a: (isub(R, a[0]), I0, a[0], a[1]),
    'bottomRightCorner': lambda R, C, a: (isub(R, a[0]), isub(C, a[1]), a[0], a[1]),
    'block': lambda R, C, a: (a[0], a[1], a[2], a[3]),
    'col': lambda R, C, a: (I0, a[0], R, I1),
    'row': lambda R, C, a: (a[0], I0, I1, C),
}
VEC_BLOCKS = {'head': lambda n, a: (I0, a[0]), 'tail': lambda n, a: (isub(n, a[0]), a[0]), 'segment': lambda n, a: (a[0], a[1])}
NARG = {'topRows': 1, 'bottomRows': 1, 'middleRows': 2, 'leftCols': 1, 'rightCols': 1, 'middleCols': 2,
        'topLeftCorner': 2, 'topRightCorner': 2, 'bottomLeftCorner': 2, 'bottomRightCorner': 2, 'block': 4,
        'col': 1, 'row': 1, 'head': 1, 'tail': 1, 'segment': 2}


def as_lref(b):
    return isinstance(b, LRef)


def eigen_method(ex, b, name, argn, n, st):
    # ---- decompositions
    if isinstance(b, LRef) and kind_of(b.typ)[0] == 'fact' or isinstance(b, Fact):
        return fact_method(ex, b, name, argn, n, st)
    if isinstance(b, T):
        raise Unsupported('method %s on a scalar' % name)
    if isinstance(b, LRef) and kind_of(b.typ)[0] not in ('ten', 'view'):
        raise Unsupported('method %s on %s' % (name, b.typ))
    argn = [a for a in argn if a.k != 'CXXDefaultArgExpr']
    if name in ('noalias',):
        r = setarr(b, b.arr) if isinstance(b, LRef) else b
        if isinstance(r, LRef): r = NoAlias(r)
        return r
    if name in ('derived', 'eval', 'matrix', 'const_cast_derived', 'cast', 'real', 'finished', 'nestedExpression'):
        if name == 'matrix': return setarr(b, False)
        if name == 'eval': return ex.rval(b, st)
        return b
    if name == 'array': return setarr(b, True)
    if name in ('transpose', 'adjoint'): return transpose(ex, b, st)
    if name == 'diagonal': return diagonal(ex, b, st)
    if name in SIMPLE_BLOCKS or name in VEC_BLOCKS:
        R, C = dims(ex, b, st)
        args = [ex.int_(ex.ev(a, st), st) for a in argn]
        need = NARG[name]
        if len(args) < need:
            ta = targs(strip_t(n.t))
            fx = [int(x) for x in ta[1:3] if re.match(r'^-?\d+$', x)]
            if name in VEC_BLOCKS: args = args + [ic(fx[-1])]
            elif name in ('topRows', 'bottomRows', 'middleRows'): args = args + [ic(fx[0])]
            elif name in ('leftCols', 'rightCols', 'middleCols'): args = args + [ic(fx[1])]
            else: args = args + [ic(fx[0]), ic(fx[1])]
        if name in VEC_BLOCKS:
            if isc(C) and icv(C) == 1:
                s0, l = VEC_BLOCKS[name](R, args)
                return block(ex, b, s0, I0, l, I1, st, n)
            s0, l = VEC_BLOCKS[name](C, args)
            return block(ex, b, I0, s0, I1, l, st, n)
        return block(ex, b, *SIMPLE_BLOCKS[name](R, C, args), st, n)
    if name in ('size', 'rows', 'cols'):
        R, C = dims(ex, b, st)
        return {'size': imul(R, C), 'rows': R, 'cols': C}[name]
    if name == 'data': return b
    # ---- setters
    if name in ('setZero', 'setOnes', 'setConstant', 'fill', 'setIdentity', 'setRandom'):
        args = [ex.rval(ex.ev(a, st), st) for a in argn]
        R, C = dims(ex, b, st)
        val = None
        if name in ('setConstant', 'fill'):
            val = toreal(ex.scalar(args.pop(), st))
        if args:
            if len(args) == 1: R = toint(args[0])
            else: R, C = toint(args[0]), toint(args[1])
        x = ex.rval(b, st)
        srt = x.s if isinstance(x, Ten) else 'r'
        if name == 'setZero': f = lambda i, j: ZERO
        elif name == 'setOnes': f = lambda i, j: ONE
        elif name == 'setIdentity': f = lambda i, j: ite(ieq(i, j), ONE, ZERO)
        elif name == 'setRandom':
            nm = 'rnd%d' % nid(); f = lambda i, j: rapp(nm, i, j)
        else: f = lambda i, j: val
        if isinstance(b, Ten): raise Unsupported('setter on a value')
        ex.assign(b, Ten(R, C, f), st, n)
        return b
    if name in ('resize', 'conservativeResize'):
        args = [ex.int_(ex.ev(a, st), st) for a in argn if a.k != 'DeclRefExpr' or True]
        R, C = dims(ex, b, st)
        if len(args) == 1:
            k, info = kind_of(b.typ)
            if info and info[0] == 'v' or (isc(C) and icv(C) == 1): nR, nC = args[0], I1
            else: nR, nC = I1, args[0]
        else: nR, nC = args
        if nR is R and nC is C: return Opq('void')
        old = ex.rval(b, st)
        nm = 'uninit%d' % nid()
        if name == 'resize':
            f = lambda i, j: rapp(nm, i, j)
        else:
            f = lambda i, j: ite(band(ilt(i, R), ilt(j, C)), old.at(i, j), rapp(nm, i, j))
        ex.assign(b, Ten(nR, nC, f), st, n)
        return Opq('void')
    # ---- reductions and maps on values
    x = ex.ten(b, st)
    if name in ('dot', 'cwiseProduct', 'cwiseMin', 'cwiseMax', 'cwiseQuotient', 'isApprox', 'min', 'max', 'cwiseEqual'):
        y = ex.rval(ex.ev(argn[0], st), st)
        if isinstance(y, CommaInit): raise Unsupported('comma')
        if name == 'dot': return dot(ex, x, y, st, n)
        if name == 'cwiseProduct': return ew(ex, x, y, mul, st, n)
        if name == 'cwiseQuotient': return ew(ex, x, y, lambda p, q: mul(p, inv(q)), st, n)
        if name in ('cwiseMin', 'min'): return ew(ex, x, y, lambda p, q: fn('min', p, q), st, n)
        if name in ('cwiseMax', 'max'): return ew(ex, x, y, lambda p, q: fn('max', p, q), st, n)
        if name == 'isApprox':
            import nf as NF_
            p_, q_ = iv(fresh('i')), iv(fresh('j'))
            if NF_.prove_zero(sub(x.at(p_, q_), y.at(p_, q_)), list(ex.all_facts(st)) + [ile(I0, p_), ilt(p_, x.rows), ile(I0, q_), ilt(q_, x.cols)])[0]: return TRUE
            return bapp('isApprox', x.lam(), y.lam())
    if name == 'squaredNorm': return tsum(x, lambda v: rpow(v, 2))
    if name == 'norm': return fn('sqrt', tsum(x, lambda v: rpow(v, 2)))
    if name == 'stableNorm': return fn('sqrt', tsum(x, lambda v: rpow(v, 2)))
    if name == 'sum': return tsum(x)
    if name == 'trace': return tsum(ex.ten(diagonal(ex, x, st), st))
    if name == 'lpNorm':
        src = n.c[0].op
        m = re.search(r'lpNorm\s*<(.*)>\s*$', src or '', re.S)
        a = m.group(1).strip() if m else ''
        if a.endswith('Infinity'): return tmaxabs(x)
        if a == '1': return tsum(x, lambda v: fn('abs', v))
        if a == '2': return fn('sqrt', tsum(x, lambda v: rpow(v, 2)))
        raise Unsupported('lpNorm<%s>' % a)
    if name in ('minCoeff', 'maxCoeff'):
        return rapp(name, x.lam())
    if name == 'mean': return mul(tsum(x), inv(toreal(x.size())))
    if name in ('square', 'cwiseAbs2', 'abs2'): return x.map(lambda v: rpow(v, 2))
    if name == 'cube': return x.map(lambda v: rpow(v, 3))
    if name == 'replicate':
        m, k = [ex.int_(ex.ev(q, st), st) for q in argn] if argn else (None, None)
        if m is None or not (isc(m) and isc(k) and 1 <= icv(m) <= 8 and 1 <= icv(k) <= 8): raise Unsupported('Eigen method replicate')
        R, C = x.rows, x.cols
        def rep(i, j):
            def pick(cnt, step, ix, cont):
                r = cont(isub(ix, imul(ic(cnt - 1), step)))
                for q in range(cnt - 2, -1, -1):
                    r = ite(ilt(ix, imul(ic(q + 1), step)), cont(isub(ix, imul(ic(q), step))), r)
                return r
            return pick(icv(m), R, i, lambda a: pick(icv(k), C, j, lambda b2: x.at(a, b2)))
        return Ten(imul(m, R), imul(k, C), rep)
    if name in ('abs', 'cwiseAbs'): return x.map(lambda v: fn('abs', v))
    if name in ('sqrt', 'cwiseSqrt'): return x.map(lambda v: fn('sqrt', v))
    if name in ('exp', 'log', 'sin', 'cos', 'tan', 'tanh'): return x.map(lambda v: fn(name, v))
    if name in ('cwiseInverse',) or (name == 'inverse' and x.arr): return x.map(lambda v: inv(v))
    if name == 'inverse':
        l = x.lam()
        return Ten(x.rows, x.cols, lambda i, j: rapp('inv', l, i, j))
    if name == 'asDiagonal':
        return Ten(x.size(), x.size(), lambda i, j: ite(ieq(i, j), x.vec(i), ZERO))
    if name in ('any', 'all'):
        if name == 'all': return tall(x, lambda v: v)
        return bnot(tall(x, lambda v: bnot(tobool(v))))
    if name == 'isZero': return tall(x, lambda v: feq(v, ZERO))
    if name in ('isFinite', 'isNaN', 'isInf'): return Ten(x.rows, x.cols, lambda i, j: bapp(name.lower(), toreal(x.at(i, j))), x.arr, 'b')
    if name == 'allFinite': return tall(x, lambda v: bapp('isfinite', toreal(v)))
    if name == 'hasNaN': return bnot(tall(x, lambda v: bnot(bapp('isnan', toreal(v)))))
    if name == 'unaryExpr':
        raise Unsupported('unaryExpr')
    if name == 'pow':
        y = ex.scalar(ex.ev(argn[0], st), st)
        return x.map(lambda v: power(v, y))
    if name in ('eigenvalues', 'determinant', 'lu', 'ldlt', 'llt', 'fullPivLu', 'partialPivLu', 'selfadjointView'):
        if name in ('lu', 'partialPivLu', 'llt', 'ldlt', 'fullPivLu'):
            return ex.decompose('Eigen::LLT' if name == 'llt' else 'Eigen::PartialPivLU', x, st)
        return Opq(name)
    if name == 'operator()' or name == 'coeff' or name == 'coeffRef':
        a = [ex.int_(ex.ev(z, st), st) for z in argn]
        return ex.elem(b, a[0], a[1] if len(a) > 1 else None, st, n)
    if name == 'swap':
        o = ex.ev(argn[0], st)
        y = ex.rval(o, st)
        ex.assign(b, y, st, n); ex.assign(o, x, st, n)
        return Opq('void')
    if name == 'innerStride' or name == 'outerStride': return I1
    raise Unsupported('Eigen method ' + name)


def NoAlias(r):
    return r


def fact_method(ex, b, name, argn, n, st):
    f = ex.rval(b, st)
    if name in ('compute', 'analyzePattern', 'factorize'):
        m = ex.ten(ex.ev(argn[0], st), st)
        typ = b.typ if isinstance(b, LRef) else f.kind
        nf_ = ex.decompose(typ, m, st)
        ex.assign(b, nf_, st, n)
        return b
    if not isinstance(f, Fact) or f.mat is None:
        if name in ('info', 'rank', 'matrixLU', 'permutationP', 'kernel', 'matrixU', 'matrixV', 'singularValues', 'householderQ'):
            return Opq('decomposition ' + name)
        raise Unsupported('decomposition used before compute')
    if name == 'info':
        # Eigen::Success == 0
        return iite(f.ok, ic(SX.ENUMS.setdefault('Success', 0)), ic(1000))
    if name in ('solve', 'solveInPlace'):
        r = ex.ev(argn[0], st)
        rhs = ex.ten(r, st)
        l = f.mat.lam()
        nn = f.mat.rows
        ex.shape(st, 'solve rows', nn, rhs.rows, n)

        def g(i, j):
            k = fresh()
            return rsum(k, I0, nn, mul(rapp('inv', l, i, iv(k)), rhs.at(iv(k), j)))
        res = Ten(nn, rhs.cols, g)
        if name == 'solve': return res
        ex.assign(r, res, st, n)
        return Opq('void')
    if name == 'inverse':
        l = f.mat.lam()
        return Ten(f.mat.rows, f.mat.cols, lambda i, j: rapp('inv', l, i, j))
    if name in ('rank', 'permutationP', 'kernel', 'householderQ') and getattr(ex, 'full_rank', False):
        # rank-revealing decompositions, under the specification's hypothesis that the decomposed matrix has full rank
        l = f.mat.lam()
        r, c = f.mat.rows, f.mat.cols
        rank = r if ex.decide(ile(r, c), st) is True else c if ex.decide(ile(c, r), st) is True else iite(ile(r, c), r, c)
        if name == 'rank': return rank
        if name == 'permutationP': return Ten(r, r, lambda i, j: rapp('permP', l, i, j))
        if name == 'householderQ': return Ten(r, r, lambda i, j: rapp('hhQ', l, i, j))
        # Eigen returns a single zero column when the kernel is trivial
        one = ieq(rank, c)
        one = ex.decide(one, st) is True or (None if ex.decide(one, st) is None else False)
        d = isub(c, rank)
        if one is True: return Ten(c, 1, lambda i, j: ZERO)
        if one is False: return Ten(c, d, lambda i, j: rapp('kern', l, i, j))
        return Ten(c, iite(ieq(rank, c), ic(1), d), lambda i, j: ite(ieq(rank, c), ZERO, rapp('kern', l, i, j)))
    return Opq('decomposition ' + name)


def power(x, y):
    if isinstance(y, T) and y.s == 'i' and isc(y): return rpow(toreal(x), icv(y))
    y = toreal(y)
    if isnum(y) and y.a[0] == 0: return ONE
    if isnum(y) and y.a[0].denominator == 1: return rpow(toreal(x), int(y.a[0]))
    if isnum(y) and y.a[0] * 2 == 1: return fn('sqrt', toreal(x))
    if isnum(y) and y.a[0].denominator == 2: return rpow(fn('sqrt', toreal(x)), int(y.a[0] * 2))
    return fn('pow', toreal(x), y)


# ------------------------------------------------------------------ containers
def has(ex, m, key, st):
    k = m.key + '.has'
    if k not in ex.inits:
        base = ex.mapkeys.get(m.key, m.key)
        ex.inits[k] = lambda *idx: bapp('has:' + base, *idx)
    return ex.read(st, k, m.idx + (key,), 'bool')


def bump(ex, m, st):
    """membership changed: the iteration order is a new unknown enumeration"""
    ex.mapver = getattr(ex, 'mapver', {})
    ex.mapver[m.key] = nid()


def keyterm(ex, v, st):
    v = ex.rval(v, st)
    if isinstance(v, T) and v.s in ('o', 'i'): return v
    if isinstance(v, Opq): return oapp('str?%d' % nid())
    raise Unsupported('map key')


def container_method(ex, b, name, argn, n, st):
    argn = [a for a in argn if a.k != 'CXXDefaultArgExpr']
    if isinstance(b, Iter):
        raise Unsupported('method on iterator ' + name)
    if isinstance(b, VRef):
        et = kind_of(b.typ)[1]
        if name == 'size': return ex.vsize(b, st)
        if name == 'empty': return ieq(ex.vsize(b, st), I0)
        if name == 'begin' or name == 'cbegin': return Iter(b, I0)
        if name == 'end' or name == 'cend': return Iter(b, ex.vsize(b, st))
        if name in ('back', 'front'):
            i = isub(ex.vsize(b, st), I1) if name == 'back' else I0
            return ex.lv(b.key + '[*]', b.idx + (i,), et)
        if name == 'at' or name == 'operator[]':
            return ex.subscript(b, ex.int_(ex.ev(argn[0], st), st), st, n)
        if name in ('push_back', 'emplace_back'):
            v = ex.ev(argn[0], st) if argn else None
            sz = ex.vsize(b, st)
            ref = ex.lv(b.key + '[*]', b.idx + (sz,), et)
            if isinstance(ref, VRef):
                if isinstance(v, VRef): ex.copy_vec(st, ref.key, ref.idx, v)
                else: raise Unsupported('push_back vector')
            elif isinstance(ref, LRef):
                x = ex.rval(v, st)
                if isinstance(x, Ten):
                    ex.write(st, ref.key, ref.idx, ref.typ, Ten(x.rows, x.cols, x.f))
                elif isinstance(x, T):
                    ex.assign(ref, x, st, n)
                else: raise Unsupported('push_back %s' % type(x).__name__)
            ex.write(st, b.key + '.#', b.idx, 'size_t', iadd(sz, I1))
            return Opq('void')
        if name == 'pop_back':
            sz = ex.vsize(b, st)
            ex.write(st, b.key + '.#', b.idx, 'size_t', isub(sz, I1)); return Opq('void')
        if name == 'clear':
            ex.vsize(b, st)
            ex.write(st, b.key + '.#', b.idx, 'size_t', I0); return Opq('void')
        if name == 'reserve': return Opq('void')
        if name == 'resize':
            a = [ex.ev(z, st) for z in argn]
            nsz = ex.int_(a[0], st)
            old = ex.vsize(b, st)
            k = kind_of(et)[0]
            if len(a) > 1:
                x = ex.rval(a[1], st)
                fill_grow(ex, b, et, old, x, st)
            elif k in ('r', 'i', 'b'):
                fill_grow(ex, b, et, old, {'r': ZERO, 'i': I0, 'b': FALSE}[k], st)
            elif k == 'ten':
                nm = 'uninit%d' % nid()
                fill_grow(ex, b, et, old, Ten(I0, I1 if kind_of(et)[1] and kind_of(et)[1][0] == 'v' else I0, lambda i, j: rapp(nm, i, j)), st)
            elif k == 'o':
                fill_grow(ex, b, et, old, oapp('null'), st)
            elif k == 'fact':
                fill_grow(ex, b, et, old, Fact(et), st)
            elif k == 'vec':
                pass
            ex.write(st, b.key + '.#', b.idx, 'size_t', nsz)
            return Opq('void')
        if name == 'assign' and len(argn) == 2:
            a = [ex.ev(z, st) for z in argn]
            nsz = ex.int_(a[0], st); x = ex.rval(a[1], st)
            fill_grow(ex, b, et, I0, x, st)
            ex.write(st, b.key + '.#', b.idx, 'size_t', nsz)
            return Opq('void')
        if name == 'swap':
            o = ex.ev(argn[0], st)
            if not isinstance(o, VRef): raise Unsupported('swap')
            tmp = VRef('new:swap%d' % nid(), (), b.typ)
            ex.copy_vec(st, tmp.key, (), b); ex.copy_vec(st, b.key, b.idx, o); ex.copy_vec(st, o.key, o.idx, tmp)
            return Opq('void')
        if name == 'erase':
            a = [ex.ev(z, st) for z in argn]
            if len(a) == 1 and isinstance(a[0], Iter):
                p = a[0].pos
                sz = ex.vsize(b, st)
                c = ex.cell(st, b.key + '[*]', et)
                m = len(b.idx); bi = b.idx

                def base(ix, c=c):
                    old = c.at(ix)
                    nx = c.at(ix[:m] + (iadd(ix[m], I1),) + ix[m + 1:])
                    r = SX.vite(ile(p, ix[m]), nx, old)
                    return SX.vite(SX.idx_eq(bi, ix[:m]), r, old) if m else r
                ex.setbase(st, b.key + '[*]', et, base)
                ex.write(st, b.key + '.#', b.idx, 'size_t', isub(sz, I1))
                return Iter(b, p)
        raise Unsupported('vector method ' + name)
    # maps and sets
    if name == 'size': return ex.vsize(b, st)
    if name == 'empty': return ieq(ex.vsize(b, st), I0)
    if name in ('begin', 'cbegin'): return Iter(b, I0)
    if name in ('end', 'cend'): return Iter(b, ex.vsize(b, st))
    if name == 'find':
        k = keyterm(ex, ex.ev(argn[0], st), st)
        return Iter(b, None, k)
    if name == 'count':
        k = keyterm(ex, ex.ev(argn[0], st), st)
        return toint(has(ex, b, k, st))
    if name == 'at':
        k = keyterm(ex, ex.ev(argn[0], st), st)
        return ex.map_at(b, k, st)
    if name in ('insert', 'emplace'):
        a = [ex.ev(z, st) for z in argn]
        issett = kind_of(b.typ)[0] == 'set'
        if len(a) == 1 and isinstance(a[0], Pair):
            key, val = keyterm(ex, a[0].first, st), a[0].second
        elif len(a) == 2 and not isinstance(a[0], Iter):
            key, val = keyterm(ex, a[0], st), a[1]
        elif issett and len(a) == 1:
            key, val = keyterm(ex, a[0], st), None
        else: raise Unsupported('insert')
        h = has(ex, b, key, st)
        sz = ex.vsize(b, st)
        if val is not None:
            ref = ex.map_at(b, key, st)
            if not isinstance(ref, LRef): raise Unsupported('map of %s' % type(ref).__name__)
            old = ex.rval(ref, st)
            ex.write(st, ref.key, ref.idx, ref.typ, SX.vite(h, old, ex.rval(val, st)))
        ex.write(st, b.key + '.has', b.idx + (key,), 'bool', TRUE)
        ex.write(st, b.key + '.#', b.idx, 'size_t', iadd(sz, iite(h, I0, I1)))
        bump(ex, b, st)
        return Pair(Iter(b, None, key), bnot(h))
    if name == 'erase':
        a = ex.ev(argn[0], st)
        if isinstance(a, LRef): a = ex.rval(a, st)
        sz = ex.vsize(b, st)
        if isinstance(a, Iter):
            key = ex.iter_key(a); cnt = I1
        else:
            key = keyterm(ex, a, st)
            cnt = toint(has(ex, b, key, st))
        ex.write(st, b.key + '.has', b.idx + (key,), 'bool', FALSE)
        ex.write(st, b.key + '.#', b.idx, 'size_t', isub(sz, cnt))
        bump(ex, b, st)
        return cnt
    if name == 'clear':
        ex.vsize(b, st)
        ex.setbase(st, b.key + '.has', 'bool', lambda idx: FALSE)
        ex.write(st, b.key + '.#', b.idx, 'size_t', I0)
        bump(ex, b, st)
        return Opq('void')
    raise Unsupported('map method ' + name)


def fill_grow(ex, b, et, old, x, st):
    """elements with index >= old become x"""
    c = ex.cell(st, b.key + '[*]', et)
    m = len(b.idx); bi = b.idx
    if isinstance(x, T) and kind_of(et)[0] == 'r': x = toreal(x)
    if isinstance(x, T) and kind_of(et)[0] == 'b': x = tobool(x)

    def base(ix):
        o = c.at(ix)
        if isc(old) and icv(old) == 0 and m == 0: return x
        cond = ilt(ix[m], old)
        if isinstance(o, Fact): return o
        r = SX.vite(cond, o, x)
        return SX.vite(SX.idx_eq(bi, ix[:m]), r, o) if m else r
    ex.setbase(st, b.key + '[*]', et, base)


# ------------------------------------------------------------------ operators
def iter_eq(ex, a, b, st):
    if a.pos is not None and b.pos is not None: return ieq(a.pos, b.pos)
    k, o = (a, b) if a.pos is None else (b, a)
    if o.pos is None: return ex.objeq(k.key, o.key)
    # comparison of find(key) with end()
    h = has(ex, k.cont, k.key, st)
    return bnot(h)


CMP = {'operator<': flt, 'operator<=': fle, 'operator>': lambda a, b: flt(b, a), 'operator>=': lambda a, b: fle(b, a),
       'operator==': feq, 'operator!=': lambda a, b: bnot(feq(a, b))}


def operator_call(ex, n, st):
    op = n.c[0].name
    args = n.c[1:]
    if op in ('operator->', 'operator*') and len(args) == 1:
        v = ex.ev(args[0], st)
        if isinstance(v, LRef) and v.elem is None and kind_of(v.typ)[0] in ('o', 'iter') and v.view is None:
            v = ex.rval(v, st)
        if isinstance(v, Iter):
            if isinstance(v.cont, VRef):
                r = ex.lv(v.cont.key + '[*]', v.cont.idx + (v.pos,), kind_of(v.cont.typ)[1])
                if op == 'operator->' and isinstance(r, LRef): return ex.rval(r, st)
                return r
            if kind_of(v.cont.typ)[0] == 'set' and op == 'operator*': return ex.iter_key(v)
            return v
        return v
    if op == 'operator[]':
        b = ex.ev(args[0], st)
        if isinstance(b, MRef):
            key = keyterm(ex, ex.ev(args[1], st), st)
            ref = ex.map_at(b, key, st)
            h = has(ex, b, key, st)
            if not ex.decide(h, st):        # operator[] inserts a value-initialised entry for a missing key
                sz = ex.vsize(b, st)
                if isinstance(ref, LRef) and is_ptr(ref.typ):
                    ex.write(st, ref.key, ref.idx, ref.typ, SX.vite(h, ex.rval(ref, st), oapp('null')))
                ex.write(st, b.key + '.has', b.idx + (key,), 'bool', TRUE)
                ex.write(st, b.key + '.#', b.idx, 'size_t', iadd(sz, iite(h, I0, I1)))
                bump(ex, b, st)
            return ref
        i = ex.int_(ex.ev(args[1], st), st)
        return ex.subscript(b, i, st, n)
    if op == 'operator()':
        b = ex.ev(args[0], st)
        if isinstance(b, (LRef, Ten)):
            ii = [ex.int_(ex.ev(a, st), st) for a in args[1:]]
            return ex.elem(b, ii[0], ii[1] if len(ii) > 1 else None, st, n)
        if isinstance(b, Lambda):
            return ex.call_lambda(b, n.c[0].ref[0] if n.c[0].ref else None, [ex.ev(a, st) for a in args[1:]], st)
        if isinstance(b, Opq): return Opq('call')
        if isinstance(b, T) and b.s == 'o' and ex.objcls(b):
            return ex.call_method(b, ex.objcls(b), 'operator()', [ex.ev(a, st) for a in args[1:]], st, None, None, n)
        raise Unsupported('operator() on %s' % type(b).__name__)
    if op == 'operator=':
        ref = ex.ev(args[0], st)
        na = is_noalias(args[0])
        if na: log = ex.readlog; ex.readlog = []
        v = ex.ev(args[1], st)
        if isinstance(v, CommaInit): ex.flush_comma(v, st); v = v.ref
        if isinstance(ref, VRef):
            ex.assign(ref, v, st, n); return ref
        if isinstance(ref, MRef):
            raise Unsupported('map assignment')
        rv = ex.rval(v, st)
        if na:
            check_alias(ex, ref, ex.readlog, st, n); ex.readlog = log
        if isinstance(ref, LRef) and kind_of(ref.typ)[0] in ('ten',) and ref.view is None and isinstance(rv, Ten):
            # plain matrices are resized by assignment, unless accessed through array()/diagonal
            pass
        ex.assign(ref, rv, st, n)
        return ref
    if op in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
        ref = ex.ev(args[0], st)
        if isinstance(ref, Opq): ex.ev(args[1], st); return ref
        na = is_noalias(args[0])
        if na: log = ex.readlog; ex.readlog = []
        b = ex.rval(ex.ev(args[1], st), st)
        if na:
            check_alias(ex, ref, ex.readlog, st, n); ex.readlog = log
        a = ex.rval(ref, st)
        if isinstance(ref, (Opq,)) or isinstance(a, Opq): return ref
        if isinstance(a, T) and a.s == 'o': return ref
        if op in ('operator+=', 'operator-=') and isinstance(a, Ten) and isinstance(b, Ten) and a.isvec() and isc(b.rows) and icv(b.rows) == 1 and not (isc(b.cols) and icv(b.cols) == 1):
            b = (lambda b: Ten(b.cols, 1, lambda i, j: b.at(j, i), b.arr, b.s))(b)      # Eigen transposes a row added to a column vector
        if op == 'operator+=': v = addsub(ex, a, b, 1, st, n)
        elif op == 'operator-=': v = addsub(ex, a, b, -1, st, n)
        elif op == 'operator*=':
            if isinstance(b, T): v = a.map(lambda x: mul(x, toreal(b)))
            elif a.arr: v = ew(ex, a, b, mul, st, n)
            else: v = matmul(ex, a, b, st, n)
        else:
            if isinstance(b, T): v = a.map(lambda x: mul(x, inv(toreal(b))))
            else: v = ew(ex, a, b, lambda p, q: mul(p, inv(q)), st, n)
        ex.assign(ref, v, st, n, resize=False)
        return ref
    if op in ('operator++', 'operator--'):
        ref = ex.ev(args[0], st)
        old = ex.rval(ref, st)
        if not isinstance(old, Iter): raise Unsupported('++ on %s' % type(old).__name__)
        if old.pos is None: raise Unsupported('++ on a search iterator')
        new = Iter(old.cont, iadd(old.pos, ic(1 if op == 'operator++' else -1)))
        ex.write(st, ref.key, ref.idx, ref.typ, new)
        return ref if len(args) == 1 else old
    if op == 'operator<<':
        a = ex.ev(args[0], st)
        if isinstance(a, LRef) and kind_of(a.typ)[0] in ('ten', 'view'):
            v = ex.ev(args[1], st)
            return CommaInit(a, [ex.rval(v, st)])
        return Opq('stream')
    if op == 'operator,':
        a = ex.ev(args[0], st)
        v = ex.ev(args[1], st)
        if isinstance(a, CommaInit):
            a.vals.append(ex.rval(v, st)); return a
        return v
    # binary arithmetic / comparison
    a = ex.ev(args[0], st)
    if isinstance(a, LRef) and kind_of(a.typ)[0] == 'iter': a = ex.rval(a, st)
    if op == 'operator-' and len(args) == 1:
        a = ex.rval(a, st)
        if isinstance(a, Ten): return a.map(lambda x: mul(-1, x))
        if isinstance(a, T): return mul(-1, a)
        raise Unsupported('unary minus')
    if op == 'operator!':
        a = ex.rval(a, st)
        if isinstance(a, Ten): return Ten(a.rows, a.cols, lambda i, j: bnot(a.at(i, j)), True, 'b')
    b = ex.ev(args[1], st)
    if isinstance(b, LRef) and kind_of(b.typ)[0] == 'iter': b = ex.rval(b, st)
    if op in ('operator==', 'operator!='):
        r = None
        if isinstance(a, Iter) and isinstance(b, Iter): r = iter_eq(ex, a, b, st)
        else:
            if isinstance(a, (VRef, MRef)) or isinstance(b, (VRef, MRef)): raise Unsupported('container ==')
            a = ex.rval(a, st); b = ex.rval(b, st)
            if isinstance(a, Opq) or isinstance(b, Opq): return Opq('cmp')
            if isinstance(a, T) and a.s == 'o' and isinstance(b, T) and b.s == 'o': r = ex.objeq(a, b)
            elif isinstance(a, Ten) and isinstance(b, Ten):
                if a.arr or b.arr:
                    return ew(ex, a, b, CMP[op], st, n, 'b')
                k, l = fresh(), fresh()
                r = ball(k, I0, a.rows, ball(l, I0, a.cols, req(a.at(iv(k), iv(l)), b.at(iv(k), iv(l)))))
                r = band(ieq(a.rows, b.rows), ieq(a.cols, b.cols), r)
            elif isinstance(a, Ten) or isinstance(b, Ten):
                return ew(ex, a, b, CMP[op], st, n, 'b')
            else: raise Unsupported('==')
        return r if op == 'operator==' else bnot(r)
    if isinstance(a, Iter) and isinstance(ex.rval(b, st), T) and op in ('operator+', 'operator-'):
        k = ex.int_(b, st)
        return Iter(a.cont, iadd(a.pos, k if op == 'operator+' else iscale(k, -1)))
    if isinstance(a, Iter) and isinstance(b, Iter) and op == 'operator-': return isub(a.pos, b.pos)
    a = ex.rval(a, st); b = ex.rval(b, st)
    if isinstance(a, Opq) or isinstance(b, Opq): return Opq('op')
    if isinstance(a, T) and a.s == 'o' or isinstance(b, T) and b.s == 'o': return Opq('string op')
    if op in CMP: return ew(ex, a, b, CMP[op], st, n, 'b')
    if op == 'operator&&': return ew(ex, a, b, band, st, n, 'b')
    if op == 'operator||': return ew(ex, a, b, bor, st, n, 'b')
    if op == 'operator+': return addsub(ex, a, b, 1, st, n)
    if op == 'operator-': return addsub(ex, a, b, -1, st, n)
    if op == 'operator*':
        if isinstance(a, T) and isinstance(b, Ten): return b.map(lambda x: mul(toreal(a), x))
        if isinstance(b, T) and isinstance(a, Ten): return a.map(lambda x: mul(x, toreal(b)))
        if a.arr or b.arr: return ew(ex, a, b, mul, st, n)
        return matmul(ex, a, b, st, n)
    if op == 'operator/':
        if isinstance(b, T) and isinstance(a, Ten): return a.map(lambda x: mul(x, inv(toreal(b))))
        return ew(ex, a, b, lambda p, q: mul(toreal(p), inv(q)), st, n)
    raise Unsupported('operator ' + op)


def is_noalias(n):
    return n.k == 'CXXMemberCallExpr' and n.c and n.c[0].k == 'MemberExpr' and n.c[0].name == 'noalias'


def check_alias(ex, ref, log, st, node):
    """a noalias destination must not be read by its right-hand side"""
    if not isinstance(ref, LRef): return
    for key, idx, view in log:
        if key != ref.key: continue
        same = SX.idx_eq(idx, ref.idx)
        if ex.decide(same, st) is False: continue
        if ref.view is not None and view is not None:
            # disjoint blocks: some corner test shows emptiness
            i, j = iv('al_i'), iv('al_j')
            c1 = ref.view.bwd(i, j)[0]; c2 = view.bwd(i, j)[0]
            ex.shape_obl.append(('noalias destination overlaps an operand', bnot(band(c1, c2, same)), ex.all_facts(st), ex.where(node)))
            continue
        ex.shape_obl.append(('noalias destination overlaps an operand', bnot(same), ex.all_facts(st), ex.where(node)))


def addsub(ex, a, b, sgn, st, n):
    if isinstance(a, T) and isinstance(b, T):
        return add(a, b) if sgn > 0 else sub(a, b)
    g = (lambda x, y: add(toreal(x), toreal(y))) if sgn > 0 else (lambda x, y: sub(toreal(x), toreal(y)))
    if isinstance(a, Ten) and isinstance(b, T) or isinstance(a, T) and isinstance(b, Ten):
        return ew(ex, a, b, g, st, n)
    return ew(ex, a, b, g, st, n)


# ------------------------------------------------------------------ free functions
def nullary_shape(ex, n, args, st):
    ints = [ex.int_(ex.ev(a, st), st) for a in args]
    t = strip_t(n.t)
    ta = targs(t)
    base = ta[1] if len(ta) > 1 else (ta[0] if ta else '')
    k, info = kind_of(base) if base else ('ten', None)
    if len(ints) >= 2: return ints[0], ints[1]
    if len(ints) == 1:
        return ints[0], I1
    if info and info[1] is not None: return ic(info[1]), ic(info[2] if info[2] is not None else 1)
    raise Unsupported('nullary shape ' + t)


def dyn_cast(ex, o, target, st):
    """dynamic_pointer_cast: decided from the dynamic class when it is known"""
    if o.op == 'oite':
        return ite(o.a[0], dyn_cast(ex, o.a[1], target, st), dyn_cast(ex, o.a[2], target, st))
    c = ex.objcls(o)
    if o.op == 'oapp' and o.a[0] == 'null': return o
    if c is None or not (c in ex.db.recs): return o
    if target in ex.mro(c): return o
    if o.a[0] in getattr(ex, 'exact', ()): return oapp('null')
    return ite(bapp('isa:' + target, o), o, oapp('null'))


def free_call(ex, n, st):
    callee = n.c[0]
    name = callee.name
    args = [a for a in n.c[1:] if a is not None]
    if name in ex.free:
        return ex.free[name](ex, st, None, args, n)
    if callee.k == 'MemberExpr':
        raise Unsupported('call through member')
    if name in ('getProfiler', 'to_string', 'demangle', 'setprecision', 'setw', 'operator new', 'operator delete',
                'conditional_aligned_malloc', 'conditional_aligned_free', 'clock', 'gettimeofday', 'endl', 'getStopwatch'):
        return Opq(name)
    args = [a for a in args if a.k != 'CXXDefaultArgExpr']
    if name in ('Zero', 'Ones', 'Identity', 'Random', 'Constant'):
        v = None
        if name == 'Constant':
            v = toreal(ex.scalar(ex.ev(args[-1], st), st)); args = args[:-1]
        R, C = nullary_shape(ex, n, args, st)
        if name == 'Zero': return Ten(R, C, lambda i, j: ZERO)
        if name == 'Ones': return Ten(R, C, lambda i, j: ONE)
        if name == 'Identity': return Ten(R, C, lambda i, j: ite(ieq(i, j), ONE, ZERO))
        if name == 'Constant': return Ten(R, C, lambda i, j: v)
        nm = 'rnd%d' % nid()
        return Ten(R, C, lambda i, j: rapp(nm, i, j))
    if name in ('infinity', 'lowest', 'epsilon', 'quiet_NaN', 'denorm_min') or (name in ('max', 'min') and not args):
        t = strip_t(n.t)
        nm = {'infinity': 'INF', 'max': 'DBL_MAX', 'epsilon': 'DBL_EPS'}.get(name, 'DBL_' + name)
        if kind_of(t)[0] == 'i': return iapp(nm)
        if name == 'lowest': return mul(-1, rapp('DBL_MAX'))
        return rapp(nm)
    if name in ('max', 'min') and len(args) == 2:
        a = ex.scalar(ex.ev(args[0], st), st); b = ex.scalar(ex.ev(args[1], st), st)
        if a.s == 'i' and b.s == 'i':
            return iite(ile(a, b), b, a) if name == 'max' else iite(ile(a, b), a, b)
        return fn(name, a, b)
    if name == 'pseudoInverse':          # contract: some matrix of transposed shape, a function of the argument
        a = ex.ten(ex.ev(args[0], st), st); al = a.lam()
        return Ten(a.cols, a.rows, lambda i, j: rapp('pinv', al, i, j))
    if name == 'if_then_else' and len(args) == 5:
        op, l, r, a, b = [ex.scalar(ex.ev(x, st), st) for x in args]
        rel = {'LT': rlt, 'LE': rle, 'EQ': req, 'GE': lambda x, y: rle(y, x), 'GT': lambda x, y: rlt(y, x)}
        for k, g in rel.items():
            if op is SX.enum(k): return ite(g(toreal(l), toreal(r)), toreal(a), toreal(b))
        raise Unsupported('if_then_else comparison')
    if name in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'tanh', 'abs', 'fabs', 'fabsf', 'isnan', 'isfinite', 'isinf', 'floor', 'ceil', 'atan2', 'pow'):
        vs = [ex.rval(ex.ev(a, st), st) for a in args]
        if any(isinstance(v, Opq) for v in vs): return Opq(name)
        if isinstance(vs[0], Ten) and not (isc(vs[0].rows) and icv(vs[0].rows) == 1 and isc(vs[0].cols) and not vs[0].arr):
            if name == 'pow': return vs[0].map(lambda x: power(x, ex.scalar(vs[1], st)))
            if name in ('isnan', 'isfinite', 'isinf'):
                w = vs[0]
                return Ten(w.rows, w.cols, lambda i, j: bapp(name, toreal(w.at(i, j))), w.arr, 'b')
            return vs[0].map(lambda x: fn(name, x))
        vs = [ex.scalar(v, st) for v in vs]
        if name == 'pow': return power(vs[0], vs[1])
        if name in ('fabs', 'fabsf'): name = 'abs'
        if name == 'abs' and vs[0].s == 'i': return iite(ile(I0, vs[0]), vs[0], iscale(vs[0], -1))
        if name in ('isnan', 'isfinite', 'isinf'):
            x = toreal(vs[0])
            inf = rapp('INF')
            if x is inf or x is mul(-1, inf): return {'isnan': FALSE, 'isfinite': FALSE, 'isinf': TRUE}[name]
            if x is rapp('NAN'): return {'isnan': TRUE, 'isfinite': FALSE, 'isinf': FALSE}[name]
            if isnum(x): return {'isnan': FALSE, 'isfinite': TRUE, 'isinf': FALSE}[name]
            return bapp(name, x)
        return fn(name, *vs)
    if name in ('make_shared', 'allocate_shared'):
        cls = short(strip_t(targs(strip_t(n.t))[0]))
        vals = [ex.ev(a, st) for a in args]
        if name == 'allocate_shared': vals = vals[1:]
        return ex.new_object(cls, vals, st)
    if name in ('static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast', 'reinterpret_pointer_cast'):
        o = ex.rval(ex.ev(args[0], st), st)
        if isinstance(o, T) and o.s == 'o' and name == 'dynamic_pointer_cast':
            return dyn_cast(ex, o, short(strip_t(targs(strip_t(n.t))[0])), st)
        return o
    if name == 'scalar_cast': return ex.ev(args[0], st)
    if name == 'raiseIfNaN':
        v = ex.scalar(ex.ev(args[0], st), st)
        return bapp('raiseIfNaN', toreal(v))
    if name == 'make_pair':
        a = [ex.ev(x, st) for x in args]
        return Pair(ex.rval(a[0], st), a[1] if isinstance(a[1], VRef) else ex.rval(a[1], st))
    if name in ('move', 'forward', 'ref', 'cref'): return ex.ev(args[0], st)
    if name in ('begin', 'end', 'size', 'distance'):
        b = ex.ev(args[0], st)
        if name == 'begin': return Iter(b, I0)
        if name == 'end': return Iter(b, ex.vsize(b, st))
        if name == 'size': return ex.vsize(b, st)
        e = ex.ev(args[1], st)
        b = ex.rval(b, st); e = ex.rval(e, st)
        return isub(e.pos, b.pos)
    if name == 'swap':
        a, b = ex.ev(args[0], st), ex.ev(args[1], st)
        va, vb = ex.rval(a, st), ex.rval(b, st)
        ex.assign(a, vb, st, n); ex.assign(b, va, st, n)
        return Opq('void')
    if name in ('copy', 'copy_n') and len(args) == 3:
        a, e, b = [ex.ev(x, st) for x in args]
        if isinstance(a, Iter) and isinstance(b, Iter) and isinstance(a.cont, VRef) and isinstance(b.cont, VRef) and (name == 'copy_n' or isinstance(e, Iter)):
            S, D = a.cont, b.cont
            lo, p = toint(a.pos), toint(b.pos)
            cnt = ex.int_(ex.rval(e, st), st) if name == 'copy_n' else isub(toint(e.pos), lo)
            ex.inrange(st, 'std::copy fits the destination', I0, iadd(p, cnt), ex.vsize(D, st), n)
            et = kind_of(D.typ)[1]
            if kind_of(et)[0] == 'vec': raise Unsupported('nested vector copy')
            c = ex.cell(st, S.key + '[*]', et); old = ex.cell(st, D.key + '[*]', et)
            m, si, di = len(D.idx), S.idx, D.idx
            def at(ix):
                k = ix[m]
                cond = band(idx_eq(di, ix[:m]), ile(p, k), ilt(k, iadd(p, cnt)))
                return vite(cond, c.at(si + (iadd(isub(k, p), lo),)), old.at(ix))
            ex.setbase(st, D.key + '[*]', et, at)
            return Iter(D, iadd(p, cnt))
        raise Unsupported('std::copy')
    if name in ('fill', 'fill_n') and len(args) == 3:
        a, e = ex.ev(args[0], st), ex.ev(args[1], st)
        v = ex.rval(ex.ev(args[2], st), st)
        if isinstance(a, LRef) and kind_of(a.typ)[0] in ('ten', 'view'):
            R = dims(ex, a, st)[0]
            if name == 'fill_n': cnt = ex.int_(ex.rval(e, st), st)
            elif isinstance(e, LRef) and e.key == a.key: cnt = isub(R, dims(ex, e, st)[0])
            else: raise Unsupported('std::fill')
            v = ex.scalar(v, st)
            if getattr(ex.rval(a, st), 's', 'r') == 'r': v = toreal(v)
            ex.assign(block(ex, a, I0, I0, cnt, I1, st, n), Ten(cnt, I1, lambda i, j: v), st, n)
            return Opq('void')
        if isinstance(a, Iter) and isinstance(a.cont, VRef):
            D = a.cont; p = toint(a.pos)
            if name == 'fill_n': cnt = ex.int_(ex.rval(e, st), st)
            elif isinstance(e, Iter): cnt = isub(toint(e.pos), p)
            else: raise Unsupported('std::fill')
            ex.inrange(st, 'std::fill fits the destination', I0, iadd(p, cnt), ex.vsize(D, st), n)
            et = kind_of(D.typ)[1]
            if kind_of(et)[0] == 'vec': raise Unsupported('nested vector fill')
            old = ex.cell(st, D.key + '[*]', et)
            m, di = len(D.idx), D.idx
            if isinstance(v, T) and v.s == 'i' and kind_of(et)[0] == 'real': v = toreal(v)
            ex.setbase(st, D.key + '[*]', et, lambda ix: vite(band(idx_eq(di, ix[:m]), ile(p, ix[m]), ilt(ix[m], iadd(p, cnt))), v, old.at(ix)))
            return Opq('void')
        raise Unsupported('std::fill')
    if name in ('__builtin_nanf', '__builtin_nan'): return rapp('NAN')
    if name == 'Map':
        p = ex.ev(args[0], st)
        if isinstance(p, LRef) and kind_of(p.typ)[0] in ('ten', 'view') and len(args) == 2:
            return block(ex, p, I0, I0, ex.int_(ex.rval(ex.ev(args[1], st), st), st), I1, st, n)
        raise Unsupported('Map of %s %s %s' % (type(p).__name__, p, [(a.k, a.t) for a in args]))
    cands = [f for t, f in ex.db.by.get(('', name), []) if f]
    if cands:
        vals = [ex.ev(a, st) for a in args]
        sig = callee.ref[3] if callee.ref else None
        ok = [f for f in cands if len(f['params']) >= len(vals)]
        ex_ = [f for f in ok if sig and f['type'] == sig]
        f = (ex_ or ok)[0]
        return ex.run(f, None, vals, st)
    # static member functions
    if callee.ref:
        for (c, nm, t), f in ex.db.funcs.items():
            if nm == name and f and f['type'] == callee.ref[3] and len(f['params']) == len(args):
                return ex.run(f, None, [ex.ev(a, st) for a in args], st)
    raise Unsupported('free function ' + str(name))
