"""P27: mis-sized arguments are rejected before anything changes."""
from spec import *
import p01, p02, p03, p04, p05, p06, p08, p10, p11, p13, integ

FLAGS = ['-DNDEBUG']      # assertions on the velocity are not argument-size checks
UNITS = sorted(set(p01.UNITS + p02.UNITS + p03.UNITS + p04.UNITS + p05.UNITS + p06.UNITS + p08.UNITS + p10.UNITS + p11.UNITS + ['activations/quadratic-barrier', 'activations/weighted-quadratic-barrier', 'actuation-base', 'numdiff/action', 'numdiff/diff-action', 'numdiff/actuation']))
HARNESS = 'h27'
NOTE = 'Every combination of argument sizes for every entry point; on every rejecting path no field of the model, of the data or of an output argument has been written.'
ASSUME = ['cost and constraint collections are called with data created from a collection of the same number of items, or reject it too',
          'callees of an entry point (continuous-time model, parametrisation, individual costs) accept correctly sized arguments']


def rej(t, cls, obj, fn, args, bad, sig=None, outs=()):
    t.ex.shape_checks = False
    try: t.call(obj, cls, fn, args, sig)
    except AllThrow: pass
    t.throws_iff('sizes', bad)
    t.rejected(lambda k: not (k.startswith('L') and '@' in k) and not k.startswith('new:') and k not in outs)
    t.ex.shape_obl = []; t.ex.obl = []
    return t


def ne(a, b): return bnot(ieq(a, b))


def out(t, name, n, c=1):
    t.ex.dims[name] = lambda *i: (toint(n), toint(c))
    return LRef(name, (), VEC if isinstance(c, int) else MAT)


def t_lqr(db):
    o = []
    for kind in ('lqr', 'diff'):
        for fn in ('calc', 'calcDiff'):
            for run in (True, False):
                t = Task(db, '')
                m, d, M, x, u, nx, nq, nu, ng, nh, ndyn = p01.setup(t, kind)
                t.fn_ = '%s::%s(%s)' % (M, fn, 'x, u' if run else 'x')
                a, b = t.nat('a'), t.nat('b')
                o.append(rej(t, M, m, fn, [d, t.vec('y', a)] + ([t.vec('w', b)] if run else []), bor(ne(a, nx), ne(b, nu)) if run else ne(a, nx)))
    return o


def t_uni(db):
    o = []
    for fn in ('calc', 'calcDiff'):
        for run in (True, False):
            t, m, d, x, u, nx, nu = p02.setup(db)
            t.fn_ = '%s::%s(%s)' % (p02.M, fn, 'x, u' if run else 'x')
            o.append(rej(t, p02.M, m, fn, [d, x] + ([u] if run else []), bor(ne(nx, ic(3)), ne(nu, ic(2))) if run else ne(nx, ic(3))))
    return o


def t_euler(db): return integrator(db, p03, 'Euler')
def t_rk(db): return integrator(db, p04, 'RK')


def integrator(db, P, nm):
    o = []
    for n in ((None,) if nm == 'Euler' else (2, 3, 4)):
        for fn in ('calc', 'calcDiff', 'quasiStatic'):
            for run in ((True, False) if fn != 'quasiStatic' else (True,)):
                tag = '%s(%s)%s' % (fn, 'x, u' if run else 'x', '' if n is None else ', %d stages' % n)
                z = P.st(db, tag) if n is None else P.st(db, tag, n)
                t = z.t
                if n is not None:
                    t.init(P.KI + '.t_last', lambda k: rapp('c', k))
                a, b = t.nat('a'), t.nat('b')
                x = t.vec('y', a)
                if fn == 'quasiStatic': args = [z.d, out(t, 'Uout', b), x, iapp('maxiter'), rapp('tol')]
                else: args = [z.d, x] + ([t.vec('w', b)] if run else [])
                o.append(rej(t, P.CLS, z.m, fn, args, bor(ne(a, z.nx), ne(b, z.nu)) if run else ne(a, z.nx)))
    return o


def t_base(db):
    """quasi-static controls of the abstract actions and torque transform of the abstract actuation"""
    o = []
    for cls, dcls, nx_ in (('ActionModelAbstractTpl<double>', 'ActionDataAbstractTpl<double>', 'xnext'), ('DifferentialActionModelAbstractTpl<double>', 'DifferentialActionDataAbstractTpl<double>', 'xout')):
        t = Task(db, cls + '::quasiStatic')
        m, d = t.obj('M', cls), t.obj('D', dcls)
        nx, ndx, nv, nu, a, b = (t.nat(k) for k in ('nx', 'ndx', 'nv', 'nu', 'a', 'b'))
        t.require(ile(nv, nx))
        t.ex.cls['M.state_'] = 'StateAbstractTpl<double>'
        for k, v in (('nx', nx), ('ndx', ndx), ('nv', nv)): t.init('M.state_.%s_' % k, v)
        t.init('M.nu_', nu)
        (std_action_data(t, 'D', nx, ndx, nu) if nx_ == 'xnext' else std_diff_data(t, 'D', nv, ndx, nu))
        noop = lambda ex, st, obj, args, node: None
        t.contract(cls, 'calc', noop); t.contract(cls, 'calcDiff', noop)
        def sdiff(ex, st, obj, args, node):
            ex.assign(args[2], Ten(ndx, 1, lambda i, j: rapp('sd', i)), st, node, False)
        t.contract('StateAbstractTpl<double>', 'diff', sdiff)
        o.append(rej(t, cls, m, 'quasiStatic', [d, out(t, 'Uout', b), t.vec('y', a), iapp('maxiter'), rapp('tol')], bor(ne(a, nx), ne(b, nu))))
    cls = 'ActuationModelAbstractTpl<double>'
    t = Task(db, cls + '::torqueTransform')
    m, d = t.obj('M', cls), t.obj('D', 'ActuationDataAbstractTpl<double>')
    nx, ndx, nv, nu, a, b = (t.nat(k) for k in ('nx', 'ndx', 'nv', 'nu', 'a', 'b'))
    t.ex.cls['M.state_'] = 'StateAbstractTpl<double>'
    for k, v in (('nx', nx), ('ndx', ndx), ('nv', nv)): t.init('M.state_.%s_' % k, v)
    t.init('M.nu_', nu); t.dims('D', tau=(nv, 1), dtau_dx=(nv, ndx), dtau_du=(nv, nu), Mtau=(nu, nv), u=(nu, 1))
    noop = lambda ex, st, obj, args, node: None
    t.contract(cls, 'calc', noop); t.contract(cls, 'calcDiff', noop)
    o.append(rej(t, cls, m, 'torqueTransform', [d, t.vec('y', a), t.vec('w', b)], bor(ne(a, nx), ne(b, nu))))
    return o


def t_coll(db):
    o = []
    for P, data in ((p10, 'D.costs'), (p11, 'D.constraints')):
        for fn in ('calc', 'calcDiff'):
            for run in (True, False):
                tag = '%s(%s)' % (fn, 'x, u' if run else 'x')
                t, m, d, nu, nx, ndx, n, _ = P.base(db, tag) if P is p10 else P.base(db, tag, run)
                a, b, nd = t.nat('a'), t.nat('b'), t.nat('nd')
                t.size(data, nd)
                bad = bor(ne(a, nx), ne(nd, n))
                if run: bad = bor(bad, ne(b, nu))
                o.append(rej(t, P.C, m, fn, [d, t.vec('y', a)] + ([t.vec('w', b)] if run else []), bad))
    return o


def t_act(db):
    o = []
    for kind in list(p06.DATA) + ['QuadraticBarrier', 'WeightedQuadraticBarrier']:
        for fn in ('calc', 'calcDiff'):
            if kind in p06.DATA: t, m, d, n = p06.base(db, kind, fn); cls = p06.cls(kind)
            else:
                cls = 'ActivationModel%sTpl<double>' % kind
                t = Task(db, cls + '::' + fn)
                m, d = t.obj('M', cls), t.obj('D', 'ActivationData%sTpl<double>' % kind)
                n = t.nat('n'); t.init('M.nr_', n); t.dims('M', weights_=(n, 1))
                t.dims('M.bounds_', lb=(n, 1), ub=(n, 1)); t.dims('D', Ar=(n, 1), rlb_min_=(n, 1), rub_max_=(n, 1))
                t.init('D.Arr', lambda *x: Ten(n, n, lambda i, j: ite(ieq(i, j), rapp('D.Arr', i), ZERO)))
            s = t.nat('s')
            o.append(rej(t, cls, m, fn, [d, t.vec('r', s)], ne(s, n)))
    return o


def t_par(db):
    o = []
    for kind in p05.KINDS:
        def go(fn):
            t, m, d, nw, nu, q = p05.base(db, kind, fn); return t, m, d, nw, nu, t.nat('s')
        cls = p05.cls(kind)
        for fn in ('calc', 'calcDiff'):
            t, m, d, nw, nu, s = go(fn)
            o.append(rej(t, cls, m, fn, [d, p05.tt, t.vec('y', s)], ne(s, nu) if fn == 'calc' else FALSE))
        t, m, d, nw, nu, s = go('params')
        o.append(rej(t, cls, m, 'params', [d, p05.tt, t.vec('y', s)], ne(s, nw)))
        t, m, d, nw, nu, s = go('convertBounds')
        a, b, c, e = (t.nat(k) for k in 'abce')
        o.append(rej(t, cls, m, 'convertBounds', [t.vec('wl', a), t.vec('wu', b), out(t, 'ul', c), out(t, 'uu', e)], bor(ne(a, nw), ne(b, nw), ne(c, nu), ne(e, nu))))
        for left in (True, False):
            for op in ('setto', 'addto', 'rmfrom'):
                fn = 'multiplyByJacobian' if left else 'multiplyJacobianTransposeBy'
                t, m, d, nw, nu, s = go('%s(%s)' % (fn, op))
                r, c, r2, c2 = (t.nat(k) for k in ('r', 'c', 'r2', 'c2'))
                bad = bor(ne(r, r2), ne(c, nw), ne(c2, nu)) if left else bor(ne(c, c2), ne(r, nw), ne(r2, nu))
                o.append(rej(t, cls, m, fn, [d, t.mat('A', r, c), out(t, 'O', r2, c2), enum(op)], bad))
    return o


def t_state(db):
    o = []
    S = p08.S
    for fn in ('integrate', 'diff'):
        t, s, n = p08.base(db, fn)
        a, b, c = t.nat('a'), t.nat('b'), t.nat('c')
        o.append(rej(t, S, s, fn, [t.vec('x', a), t.vec('v', b), out(t, 'y', c)], bor(ne(a, n), ne(b, n), ne(c, n))))
    for fn in ('Jdiff', 'Jintegrate'):
        for comp in ('both', 'first', 'second'):
            t, s, n = p08.base(db, '%s(%s)' % (fn, comp))
            k = {x: t.nat(x) for x in ('a', 'b', 'r1', 'c1', 'r2', 'c2')}
            bad = []
            if comp in ('both', 'first'): bad += [ne(k['r1'], n), ne(k['c1'], n)]
            if comp in ('both', 'second'): bad += [ne(k['r2'], n), ne(k['c2'], n)]
            args = [t.vec('x', k['a']), t.vec('v', k['b']), out(t, 'J1', k['r1'], k['c1']), out(t, 'J2', k['r2'], k['c2']), enum(comp)]
            if fn == 'Jintegrate': args.append(enum('setto'))
            o.append(rej(t, S, s, fn, args, bor(*bad), outs=('J1', 'J2')))
    return o


def t_nd(db):
    o = []
    for kind in ('action', 'diff-action', 'actuation'):
        pre, outs, jac, vals = p13.KINDS[kind]
        for fn in ('calc', 'calcDiff'):
            for run in (True, False):
                if kind == 'actuation' and not run: continue
                cls = p13.ND(pre + 'Model')
                t, m, d, N = p13.setup(db, cls, pre + 'ModelAbstractTpl<double>', p13.ND(pre + 'Data'), pre + 'DataAbstractTpl<double>', '%s(%s)' % (fn, 'x, u' if run else 'x'), outs, not run)
                t.init('M.with_gauss_approx_', TRUE)
                a, b = t.nat('a'), t.nat('b')
                o.append(rej(t, cls, m, fn, [d, t.vec('y', a)] + ([t.vec('w', b)] if run else []), bor(ne(a, N['nx']), ne(b, N['nu'])) if run else ne(a, N['nx'])))
    return o


TASKS = {'numerical differentiation': t_nd, 'linear-quadratic actions': t_lqr, 'unicycle': t_uni, 'Euler': t_euler, 'Runge-Kutta': t_rk, 'abstract actions and actuation': t_base, 'collections': t_coll,
         'activations': t_act, 'control parametrisations': t_par, 'vector state': t_state}
