"""P06: activations."""
from spec import *

UNITS = ['activations/quadratic', 'activations/weighted-quadratic', 'activations/quadratic-flat-log', 'activations/quadratic-flat-exp',
         'activations/smooth-1norm', 'activations/quadratic-barrier', 'activations/weighted-quadratic-barrier', 'activations/smooth-2norm', 'activations/2norm-barrier', 'activation-base']
HARNESS = 'h06'
NOTE = 'Value, gradient and curvature of every activation against the symbolic derivatives of the documented function, for every dimension, residual and parameter.'
ASSUME = ['calcDiff is called after calc at the same residual with the same data (documented calling order)',
          'flat and barrier widths and smoothing factors are positive; the two-norm barrier is taken away from r = 0, where it is not differentiable']
BASE = 'ActivationModelAbstractTpl<double>'
S_ = rapp('S!')
R = lambda i: rapp('r', i)
AL, EPS = rapp('M.alpha_'), rapp('M.eps_')


def phi(kind):
    """documented function of the squared norm s"""
    s = S_
    if kind == 'Quad': return mul(num('1/2'), s)
    if kind == 'QuadFlatLog': return fn('log', add(ONE, mul(s, inv(AL))))
    if kind == 'QuadFlatExp': return sub(ONE, fn('exp', mul(num(-1), s, inv(AL))))
    if kind == 'Smooth2Norm': return fn('sqrt', add(s, EPS))
    if kind == '2NormBarrier': return mul(num('1/2'), rpow(sub(fn('sqrt', s), AL), 2))


DATA = {'Quad': None, 'WeightedQuad': 'ActivationDataWeightedQuadraticTpl<double>', 'QuadFlatLog': 'ActivationDataQuadFlatLogTpl<double>',
        'QuadFlatExp': 'ActivationDataQuadFlatExpTpl<double>', 'Smooth1Norm': 'ActivationDataSmooth1NormTpl<double>', 'Smooth2Norm': None,
        '2NormBarrier': 'ActivationData2NormBarrierTpl<double>'}


def cls(kind): return 'ActivationModel%sTpl<double>' % {'WeightedQuad': 'WeightedQuad'}.get(kind, kind)


def base(db, kind, name):
    t = Task(db, cls(kind) + '::' + name)
    m, d = t.obj('M', cls(kind)), t.obj('D', DATA[kind] or 'ActivationDataAbstractTpl<double>')
    n = t.nat('n')
    t.init('M.nr_', n)
    t.dims('M', weights_=(n, 1))
    t.dims('D', Ar=(n, 1), Wr=(n, 1), a=(n, 1))
    # data invariant (createData, kept by every method): the curvature is diagonal; the quadratic one is the identity
    diag = (lambda i: ONE) if kind == 'Quad' else (lambda i: rapp('D.Arr', i))
    t.init('D.Arr', lambda *x: Ten(n, n, lambda i, j: ite(ieq(i, j), diag(i), ZERO)))
    t.require(rlt(ZERO, AL), rlt(ZERO, EPS))
    return t, m, d, n


def sub_s(e, val): return NF.replace_atom(e, S_, val)


def t_act(kind):
    def go(db):
        o = []
        C = cls(kind)
        branches = [None]
        if kind == '2NormBarrier': branches = [(x, h) for x in ('inside', 'outside') for h in (True, False)]
        for br in branches:
            nm = 'calc; calcDiff' + ('' if br is None else ' (%s, %s curvature)' % (br[0], 'true' if br[1] else 'Gauss-Newton'))
            t, m, d, n = base(db, kind, nm)
            S = dotsum(n, lambda k: rpow(R(k), 2))
            out = False
            if br is not None:
                t.init('M.true_hessian_', TRUE if br[1] else FALSE)
                c = rlt(fn('sqrt', S), AL)
                t.require(c if br[0] == 'inside' else bnot(c), rlt(ZERO, S), rlt(ZERO, fn('sqrt', S)))
                out = br[0] == 'outside'
            r = t.vec('r', n)
            t.call(m, C, 'calc', [d, r])
            if kind == 'WeightedQuad': v = mul(num('1/2'), dotsum(n, lambda k: mul(rapp('M.weights_', k), rpow(R(k), 2))))
            elif kind == 'Smooth1Norm': v = dotsum(n, lambda k: fn('sqrt', add(rpow(R(k), 2), EPS)))
            else: v = ZERO if out else sub_s(phi(kind), S)
            t.eq('value', t.rval('D.a_value'), v)
            t.call(m, C, 'calcDiff', [d, r])
            t.eq('value kept', t.rval('D.a_value'), v)
            if kind == 'WeightedQuad':
                g = lambda i: mul(rapp('M.weights_', i), R(i)); H = lambda i: rapp('M.weights_', i)
            elif kind == 'Smooth1Norm':
                f1 = deriv(fn('sqrt', add(rpow(S_, 2), EPS)), S_); f2 = deriv(f1, S_)
                g = lambda i: sub_s(f1, R(i)); H = lambda i: sub_s(f2, R(i))
            elif out: g = H = lambda i: ZERO
            else:
                p1 = deriv(phi(kind), S_); p2 = deriv(p1, S_)
                g = lambda i: mul(num(2), R(i), sub_s(p1, S))
                H = lambda i: add(mul(num(4), rpow(R(i), 2), sub_s(p2, S)), mul(num(2), sub_s(p1, S)))
            t.eqt('gradient', t.tval('D.Ar'), g, n)
            A = t.tval('D.Arr')
            i = iv(fresh('i')); fx = [ile(ic(0), i), ilt(i, n)]
            if kind == 'Smooth2Norm' or (br is not None and not br[1]):
                if kind != 'Smooth2Norm' and not out:
                    t.eqt('Gauss-Newton curvature', A, lambda i, j: ite(ieq(i, j), mul(rpow(R(i), 2), inv(S)), ZERO), n, n)
            else:
                t.eqt('curvature', A, lambda i, j: ite(ieq(i, j), H(i), ZERO), n, n)
            if kind in ('Quad', 'Smooth1Norm', 'Smooth2Norm') or (br is not None and not br[1]):
                t.holds('curvature is not negative', rle(ZERO, A.at(i, i)), extra=fx)
            j = iv(fresh('j'))
            t.eq('curvature is diagonal', A.at(i, j), ZERO, extra=fx + [ile(ic(0), j), ilt(j, n), bnot(ieq(i, j))])
            t.frame(['D.*'])
            t.throws_iff('calls', FALSE)
            t.sides()
            o.append(t)
        for f in ('calc', 'calcDiff'):
            t, m, d, n = base(db, kind, f + ' of another size')
            s = t.nat('s')
            t.call(m, C, f, [d, t.vec('r', s)])
            t.throws_iff('size', bnot(ieq(s, n)))
            t.rejected(lambda k: k.startswith(('M.', 'D.')))
            o.append(t)
        # createData establishes the data invariant
        t, m, d, n = base(db, kind, 'createData')
        r = t.call(m, C, 'createData', [])
        t.throws_iff('creation', FALSE)
        p = r.a[0]
        A = t.tval(p + '.Arr', *r.a[1])
        dg = {'Quad': lambda i: ONE, 'WeightedQuad': lambda i: rapp('M.weights_', i)}.get(kind, lambda i: ZERO)
        t.eqt('curvature of a new data', A, lambda i, j: ite(ieq(i, j), dg(i), ZERO), n, n)
        t.eqt('gradient of a new data', t.tval(p + '.Ar', *r.a[1]), lambda i: ZERO, n)
        t.frame(['new*', 'L*'], prefix=['M.'])
        t.sides()
        o.append(t)
        return o
    return go


def t_par(db):
    o = []
    for kind, f, fld in (('QuadFlatLog', 'alpha', 'alpha_'), ('QuadFlatExp', 'alpha', 'alpha_'), ('2NormBarrier', 'alpha', 'alpha_')):
        t, m, d, n = base(db, kind, 'set_' + f)
        t.call(m, cls(kind), 'set_' + f, [rapp('v')])
        t.eq('stored', t.rval('M.' + fld), rapp('v'))
        t.eq('getter', t.ex.rval(t.call(m, cls(kind), 'get_' + f, []), t.st), rapp('v'))
        t.frame(['M.' + fld])
        o.append(t)
    for kind, fld in (('QuadFlatLog', 'alpha_'), ('QuadFlatExp', 'alpha_'), ('2NormBarrier', 'alpha_'), ('Smooth1Norm', 'eps_'), ('Smooth2Norm', 'eps_')):
        t = Task(db, cls(kind) + '::constructor')
        n = t.nat('n'); v = rapp('v')
        m = t.obj('N', cls(kind))
        args = [n, v]
        if kind == '2NormBarrier': args.append(bapp('th'))
        c, f = t.ex.find_ctor(cls(kind), len(args), args, t.st)
        t.ex.run(f, m, args, t.st)
        t.throws_iff('negative parameter', rlt(v, ZERO))
        t.eq('parameter', t.rval('N.' + fld), v)
        t.eq('dimension', t.ival('N.nr_'), n)
        if kind == '2NormBarrier': t.eq('curvature choice', t.cell('N.true_hessian_', typ='bool'), bapp('th'))
        o.append(t)
    kind = 'WeightedQuad'
    t, m, d, n = base(db, kind, 'set_weights')
    s = t.nat('s')
    t.call(m, cls(kind), 'set_weights', [t.vec('w', s)])
    t.throws_iff('size', bnot(ieq(s, n)))
    t.eqt('stored', t.tval('M.weights_'), lambda i: rapp('w', i), n)
    t.frame(['M.weights_'])
    o.append(t)
    # every data object reflects the current weights, whatever happened before
    t, m, d, n = base(db, kind, 'set_weights; calc; calcDiff')
    t.call(m, cls(kind), 'set_weights', [t.vec('w', n)])
    t.call(m, cls(kind), 'calc', [d, t.vec('r', n)]); t.call(m, cls(kind), 'calcDiff', [d, t.vec('r', n)])
    t.eqt('curvature', t.tval('D.Arr'), lambda i, j: ite(ieq(i, j), rapp('w', i), ZERO), n, n)
    t.eqt('gradient', t.tval('D.Ar'), lambda i: mul(rapp('w', i), R(i)), n)
    o.append(t)
    return o


def t_bar(kind):
    """quadratic barriers: half the squared (weighted) distance to the interval"""
    def go(db):
        o = []
        C = 'ActivationModel%sTpl<double>' % kind
        lb, ub = (lambda i: rapp('M.bounds_.lb', i)), (lambda i: rapp('M.bounds_.ub', i))
        w = (lambda i: rapp('M.weights_', i)) if kind.startswith('W') else (lambda i: ONE)

        def pre(name):
            t = Task(db, C + '::' + name)
            m, d = t.obj('M', C), t.obj('D', 'ActivationDataQuadraticBarrierTpl<double>')
            n = t.nat('n')
            t.init('M.nr_', n); t.dims('M', weights_=(n, 1)); t.dims('M.bounds_', lb=(n, 1), ub=(n, 1)); t.dims('D', Ar=(n, 1), rlb_min_=(n, 1), rub_max_=(n, 1))
            t.init('D.Arr', lambda *x: Ten(n, n, lambda i, j: ite(ieq(i, j), rapp('D.Arr', i), ZERO)))
            return t, m, d, n
        t, m, d, n = pre('calc; calcDiff')
        r = t.vec('r', n)
        t.call(m, C, 'calc', [d, r])
        lo = lambda i: fn('min', sub(R(i), lb(i)), ZERO); hi = lambda i: fn('max', sub(R(i), ub(i)), ZERO)
        v = mul(num('1/2'), add(dotsum(n, lambda k: rpow(mul(w(k), lo(k)), 2)), dotsum(n, lambda k: rpow(mul(w(k), hi(k)), 2))))
        t.eq('value', t.rval('D.a_value'), v)
        t.call(m, C, 'calcDiff', [d, r])
        t.eq('value kept', t.rval('D.a_value'), v)
        A = t.tval('D.Arr')
        i, j = iv(fresh('i')), iv(fresh('j')); fx = [ile(ic(0), i), ilt(i, n)]
        W2 = rpow(w(i), 2)
        g = t.tval('D.Ar').at(i, ic(0))
        t.holds('gradient dimension', ieq(t.tval('D.Ar').rows, n))
        for nm, c, dv, H in (('below', rlt(R(i), lb(i)), sub(R(i), lb(i)), W2), ('inside', band(rlt(lb(i), R(i)), rlt(R(i), ub(i))), ZERO, ZERO), ('above', rlt(ub(i), R(i)), sub(R(i), ub(i)), W2)):
            x = fx + [c, rle(lb(i), ub(i))]
            t.eq('gradient %s the interval' % nm, g, mul(W2, dv), extra=x)
            t.eq('curvature %s the interval' % nm, A.at(i, i), H, extra=x)
        t.holds('curvature is not negative', rle(ZERO, A.at(i, i)), extra=fx)
        t.eq('curvature is diagonal', A.at(i, j), ZERO, extra=fx + [ile(ic(0), j), ilt(j, n), bnot(ieq(i, j))])
        t.frame(['D.*']); t.throws_iff('calls', FALSE); t.sides()
        o.append(t)
        for f in ('calc', 'calcDiff'):
            t, m, d, n = pre(f + ' of another size'); s = t.nat('s')
            t.call(m, C, f, [d, t.vec('r', s)])
            t.throws_iff('size', bnot(ieq(s, n))); t.rejected(lambda k: k.startswith(('M.', 'D.')))
            o.append(t)
        t, m, d, n = pre('createData')
        r = t.call(m, C, 'createData', [])
        t.throws_iff('creation', FALSE); p = r.a[0]
        for f in ('rlb_min_', 'rub_max_', 'Ar'): t.eqt('new ' + f, t.tval(p + '.' + f, *r.a[1]), lambda i: ZERO, n)
        t.eqt('curvature of a new data', t.tval(p + '.Arr', *r.a[1]), lambda i, j: ZERO, n, n)
        t.frame(['new*', 'L*'], prefix=['M.']); t.sides()
        o.append(t)
        if kind.startswith('W'):
            t, m, d, n = pre('set_weights'); s = t.nat('s')
            t.call(m, C, 'set_weights', [t.vec('w', s)])
            t.throws_iff('size', bnot(ieq(s, n))); t.rejected(lambda k: k.startswith('M.'))
            t.eqt('stored', t.tval('M.weights_'), lambda i: rapp('w', i), n); t.frame(['M.weights_'])
            o.append(t)
        return o
    return go


def t_limits(db):
    """the limits of a barrier: unbounded sides take the largest value, a width factor shrinks two-sided limits about their middle"""
    t = Task(db, 'ActivationBoundsTpl<double>::constructor')
    ex = t.ex
    C = 'ActivationBoundsTpl<double>'
    b = t.obj('B', C)
    n, m = t.nat('n'), t.nat('m')
    BIG = rapp('DBL_MAX')
    beta = rapp('beta')
    L, U = (lambda i: rapp('l', i)), (lambda i: rapp('u', i))
    fin = lambda x: bapp('isfinite', x)
    args = [t.vec('l', n), t.vec('u', m), beta]
    c, f = ex.find_ctor(C, 3, args, t.st)
    ex.run(f, b, args, t.st)
    i = fresh('i'); k = iv(i)
    bad = bnot(ball(i, ic(0), n, bnot(band(fin(L(k)), fin(U(k)), rlt(U(k), L(k))))))
    t.throws_iff('sizes, width factor or badly ordered limits', bor(bnot(ieq(n, m)), rlt(beta, ZERO), rlt(ONE, beta), bad))
    l1 = lambda i: ite(fin(L(i)), L(i), mul(num(-1), BIG)); u1 = lambda i: ite(fin(U(i)), U(i), BIG)
    two = lambda i: band(bnot(req(l1(i), mul(num(-1), BIG))), bnot(req(u1(i), BIG)))
    mid = lambda i: mul(num('1/2'), add(l1(i), u1(i))); half = lambda i: mul(num('1/2'), beta, sub(u1(i), l1(i)))
    t.eqt('lower limits', t.tval('B.lb'), lambda i: ite(two(i), sub(mid(i), half(i)), l1(i)), n)
    t.eqt('upper limits', t.tval('B.ub'), lambda i: ite(two(i), add(mid(i), half(i)), u1(i)), n)
    t.eq('width factor', t.rval('B.beta'), beta)
    t.sides()
    return t


TASKS = {k: t_act(k) for k in ('Quad', 'WeightedQuad', 'QuadFlatLog', 'QuadFlatExp', 'Smooth1Norm', 'Smooth2Norm', '2NormBarrier')}
TASKS['parameters'] = t_par
TASKS.update({k: t_bar(k) for k in ('QuadraticBarrier', 'WeightedQuadraticBarrier')})
TASKS['limits'] = t_limits
