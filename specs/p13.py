"""P13: numerically differentiated models."""
from spec import *
import itertools

ND = lambda k: '%sNumDiffTpl<double>' % k
UNITS = ['numdiff/action', 'numdiff/diff-action', 'numdiff/state', 'numdiff/activation', 'numdiff/cost', 'numdiff/residual', 'numdiff/constraint', 'numdiff/control', 'numdiff/actuation',
         'action-base', 'diff-action-base', 'state-base', 'activation-base', 'cost-base', 'residual-base', 'constraint-base', 'control-base', 'actuation-base', 'data-collector-base']
FLAGS = ['-DNDEBUG']      # the Hessian blocks of the release configuration are part of the verified text
HARNESS = 'h13'
NOTE = 'Every column of every reported derivative, for any wrapped model, dimension, point, disturbance and prior contents of the data.'
SA = 'StateAbstractTpl<double>'
NOU = oapp('no_u')
FLD = {'action': ('xnext', 'cost', 'r', 'g', 'h'), 'diff': ('xout', 'cost', 'r', 'g', 'h')}


CB = 'boost::function<void (const Eigen::Matrix<double, -1, 1> &, const Eigen::Matrix<double, -1, 1> &)>'


def callback(nx, nu):
    def h(ex, st, obj, args, node):
        ex.shape(st, 'callback x', ex.ten(args[0], st).rows, nx, node); ex.shape(st, 'callback u', ex.ten(args[1], st).rows, nu, node)
    return h


def wr(ex, st, o, f, val, r=None):
    ex.write(st, o.a[0] + '.' + f, o.a[1], D if isinstance(val, T) else (VEC if isc(val.cols) else MAT), val)


def state_contracts(t, s, nx, ndx):
    ex = t.ex
    def two(name, n0, n1, no, fn):
        def h(ex, st, obj, args, node):
            a, b = ex.ten(args[0], st), ex.ten(args[1], st)
            ex.shape(st, name + ' first', a.rows, n0, node); ex.shape(st, name + ' second', b.rows, n1, node)
            ex.shape(st, name + ' out', ex.ten(args[2], st).rows, no, node)
            la, lb = a.lam(), b.lam()
            ex.assign(args[2], Ten(no, 1, lambda i, j: rapp(fn, la, lb, i)), st, node, False)
        return h
    for c in s:
        t.contract(c, 'diff', two('diff', nx, nx, ndx, 'diff')); t.contract(c, 'integrate', two('integrate', nx, ndx, nx, 'integ'))
        t.contract(c, 'zero', lambda ex, st, obj, args, node: Ten(nx, 1, lambda i, j: rapp('origin', i)))


def unit(n, h, k): return Ten(n, 1, lambda i, j: ite(ieq(i, k), h, ZERO))
def plus(n, f, h, k): return Ten(n, 1, lambda i, j: add(f(i), ite(ieq(i, k), h, ZERO)))


def setup(db, cls, base, dcls, bdcls, name, outs, terminal, state_path='M.model_.state_', x_size=None):
    """outs: field -> (rows, is_scalar)"""
    t = Task(db, cls + '::' + name)
    m, d = t.obj('M', cls), t.obj('D', dcls)
    nx, ndx, nu, nr, ng, nh, gT, hT, nv = (t.nat(k) for k in ('nx', 'ndx', 'nu', 'nr', 'ng', 'nh', 'gT', 'hT', 'nv'))
    ex = t.ex
    ex.keep = {'D.dx', 'D.du', 'D.dz'}
    N = dict(nx=nx, ndx=ndx, nu=nu, nr=nr, ng=gT if terminal else ng, nh=hT if terminal else nh, nv=nv)
    ex.cls.update({'M.model_': base, 'M.state_': SA, 'M.model_.state_': SA, 'D.data_0': bdcls, 'D.data_x': bdcls, 'D.data_u': bdcls, 'D.data_x[*]': bdcls, 'D.data_u[*]': bdcls})
    for o in ('M.state_', 'M.model_.state_'):
        for k in ('nx', 'ndx', 'nv'): t.init(o + '.%s_' % k, N[k])
    for o in ('M', 'M.model_'):
        for k, v in (('nu', nu), ('nr', nr), ('ng', ng), ('nh', nh), ('ng_T', gT), ('nh_T', hT)): t.init(o + '.%s_' % k, v)
    t.size('D.data_x', ndx); t.size('D.data_u', nu)
    t.dims('D', dx=(ndx, 1), du=(nu, 1), up=(nu, 1), xp=(nx, 1), Rx=(nr, ndx), Ru=(nr, nu))
    R = lambda f: N.get(outs[f], outs[f])
    for f in outs:
        if outs[f] is not None:
            t.dims('D', **{f: (R(f), 1)}); t.dims('D.data_0', **{f: (R(f), 1)})
            for q in 'xu': t.dims('D.data_%s[*]' % q, **{f: (lambda f: lambda k: (R(f), 1))(f)})
    state_contracts(t, (SA,), nx, ndx)

    def calc(ex, st, obj, args, node):
        if obj.a[0] == 'M': return NotImplemented
        x = ex.ten(args[1], st); ex.shape(st, 'wrapped calc x', x.rows, nx, node)
        w = NOU
        if len(args) > 2:
            u = ex.ten(args[2], st); ex.shape(st, 'wrapped calc u', u.rows, nu, node); w = u.lam()
        xl = x.lam()
        for f in outs:
            if outs[f] is None: wr(ex, st, args[0], f, rapp('m:' + f, xl, w))
            else: wr(ex, st, args[0], f, Ten(R(f), 1, (lambda f: lambda i, j: rapp('m:' + f, xl, w, i))(f)))
    t.contract(base, 'calc', calc)
    # registered callbacks prepare the data that the wrapped model shares with others; the model sees their effect through its arguments
    ex.cls['M.reevals_[*]'] = CB
    t.contract(CB, 'operator()', callback(nx, nu))
    t.size('M.reevals_', t.nat('callbacks'))
    return t, m, d, N


def val(f, scalar, x, w, i): return rapp('m:' + f, x, w) if scalar else rapp('m:' + f, x, w, i)


def norm(n, f): return fn('sqrt', dotsum(n, lambda k: mul(f(k), f(k))))
def step(n): return mul(rapp('M.e_jac_'), fn('max', ONE, n))


def xstep(N, x):
    z = Ten(N['nx'], 1, lambda i, j: rapp('origin', i)).lam()
    return step(norm(N['ndx'], lambda k: rapp('diff', z, x.lam(), k)))


def plain(n, nm): return step(norm(n, lambda k: rapp(nm, k)))


# kind: (prefix of the class names, output fields of the wrapped calc, {output: (state Jacobian, control Jacobian)}, fields that hold the values)
KINDS = {
    'action': ('Action', dict(xnext='nx', cost=None, r='nr', g='ng', h='nh'), dict(xnext=('Fx', 'Fu'), cost=('Lx', 'Lu'), g=('Gx', 'Gu'), h=('Hx', 'Hu')), ('xnext', 'cost', 'g', 'h')),
    'diff-action': ('DifferentialAction', dict(xout='nv', cost=None, r='nr', g='ng', h='nh'), dict(xout=('Fx', 'Fu'), cost=('Lx', 'Lu'), g=('Gx', 'Gu'), h=('Hx', 'Hu'), r=('Rx', 'Ru')), ('xout', 'cost', 'g', 'h')),
    'residual': ('Residual', dict(r='nr'), dict(r=('Rx', 'Ru')), ('r',)),
    'constraint': ('Constraint', dict(g='ng', h='nh'), dict(g=('Gx', 'Gu'), h=('Hx', 'Hu')), ('g', 'h')),
    'actuation': ('Actuation', dict(tau='nv'), dict(tau=('dtau_dx', 'dtau_du')), ('tau',)),
    'cost': ('Cost', {'cost': None, 'residual.r': 'nr'}, {'cost': ('Lx', 'Lu'), 'residual.r': ('residual.Rx', 'residual.Ru')}, ('cost', 'residual.r')),
}


def t_model(kind):
    def go(db):
        pre, outs, jac, vals = KINDS[kind]
        o = []
        gn = (False, True) if kind in ('action', 'diff-action') else (True, False) if kind == 'cost' else (False,)
        for terminal, gauss in itertools.product((False, True) if kind != 'actuation' else (False,), gn):
            cls = ND(pre + 'Model')
            t, m, d, N = setup(db, cls, pre + 'ModelAbstractTpl<double>', ND(pre + 'Data'), pre + 'DataAbstractTpl<double>', ('terminal ' if terminal else '') + 'calc; calcDiff' + (' (Gauss-Newton)' if gauss else ''), outs, terminal and kind != 'constraint')
            t.init('M.with_gauss_approx_', TRUE if gauss else FALSE)
            nx, ndx, nu, nr = (N[k] for k in ('nx', 'ndx', 'nu', 'nr'))
            if kind == 'cost':
                AC = 'ActivationModelAbstractTpl<double>'
                t.ex.cls.update({'M.activation_': AC, 'M.model_.activation_': AC, 'D.residual': 'ResidualDataAbstractTpl<double>', 'D.data_0.residual': 'ResidualDataAbstractTpl<double>', 'D.data_0.activation': 'ActivationDataAbstractTpl<double>'})
                for a in ('M', 'M.model_'): t.init(a + '.activation_.nr_', nr)
                t.require(ilt(ic(0), nr) if gauss else ieq(nr, ic(0)))
                t.dims('D.residual', Rx=(nr, ndx), Ru=(nr, nu))

                def acalc(ex, st, obj, args, node): wr(ex, st, args[0], 'a_value', rapp('av', ex.ten(args[1], st).lam()))

                def adiff(ex, st, obj, args, node):
                    r = ex.ten(args[1], st).lam()
                    wr(ex, st, args[0], 'Ar', Ten(nr, 1, lambda i, j: rapp('Ar', r, i)))
                    wr(ex, st, args[0], 'Arr', Ten(nr, nr, lambda i, j: ite(ieq(i, j), rapp('Arr', r, i), ZERO)))
                t.contract(AC, 'calc', acalc); t.contract(AC, 'calcDiff', adiff)
                t.dims('D.data_0.activation', Ar=(nr, 1)); t.init('D.data_0.activation.Arr', lambda *x: Ten(nr, nr, lambda i, j: ite(ieq(i, j), rapp('Arr0', i), ZERO)))
            t.dims('D', Lxx=(ndx, ndx), Lxu=(ndx, nu), Luu=(nu, nu))
            for f, (jx, ju) in jac.items():
                R = N.get(outs[f])
                if outs[f] is None: t.dims('D', **{jx: (ndx, 1), ju: (nu, 1)})
                elif '.' not in jx: t.dims('D', **{jx: (ndx if f == 'xnext' else R, ndx), ju: (ndx if f == 'xnext' else R, nu)})
            t.dims('M', unone_=(nu, 1))
            x, u = t.vec('x', nx), t.vec('u', nu)
            A = [d, x] + ([] if terminal else [u])
            w = NOU if terminal else u.lam()
            t.call(m, cls, 'calc', A)
            t.call(m, cls, 'calcDiff', A)
            for f in vals:
                if outs[f] is None: t.eq('value of ' + f, t.rval('D.' + f), rapp('m:' + f, x.lam(), w))
                else: t.eqt('value of ' + f, t.tval('D.' + f), (lambda f: lambda i: rapp('m:' + f, x.lam(), w, i))(f), N[outs[f]])
            h = plain(nx, 'x') if kind == 'cost' and terminal else xstep(N, x)
            e = plain(nu, 'u')
            X = lambda j: Ten(nx, 1, lambda i, _: rapp('integ', x.lam(), unit(ndx, h, j).lam(), i)).lam()
            U = lambda j: plus(nu, lambda i: rapp('u', i), e, j).lam()
            base = lambda f, i: val(f, outs[f] is None, x.lam(), w, i)

            def q(f, i, j):
                if f == 'xnext':
                    F = lambda xl: Ten(nx, 1, lambda i, _: rapp('m:xnext', xl, w, i)).lam()
                    return mul(rapp('diff', F(x.lam()), F(X(j)), i), inv(h))
                return mul(sub(val(f, outs[f] is None, X(j), w, i), base(f, i)), inv(h))

            def p(f, i, j):
                if f == 'xnext':
                    F = lambda ul: Ten(nx, 1, lambda i, _: rapp('m:xnext', x.lam(), ul, i)).lam()
                    return mul(rapp('diff', F(w), F(U(j)), i), inv(e))
                return mul(sub(val(f, outs[f] is None, x.lam(), U(j), i), base(f, i)), inv(e))
            for f, (jx, ju) in jac.items():
                if terminal and f in ('xnext', 'xout'): continue
                for J, Q, n in ((jx, q, ndx), (ju, p, nu)):
                    if terminal and Q is p: continue
                    if f == 'residual.r' and not gauss: continue
                    if outs[f] is None: t.eqt(J, t.tval('D.' + J), (lambda f, Q: lambda i: Q(f, None, i))(f, Q), n)
                    else: t.eqt(J, t.tval('D.' + J), (lambda f, Q: lambda i, j: Q(f, i, j))(f, Q), ndx if f == 'xnext' else N[outs[f]], n)
            if gauss or kind == 'cost':
                rf = 'residual.r' if kind == 'cost' else 'r'
                r0 = Ten(nr, 1, lambda i, _: rapp('m:' + rf, x.lam(), w, i)).lam()
                H = (lambda k: rapp('Arr', r0, k)) if kind == 'cost' else (lambda k: ONE)
                S = (lambda a, b: lambda i, j: dotsum(nr, lambda k: mul(a(rf, k, i), H(k), b(rf, k, j)))) if gauss else (lambda a, b: lambda i, j: ZERO)
                t.eqt('Lxx', t.tval('D.Lxx'), S(q, q), ndx, ndx)
                if not terminal: t.eqt('Lxu', t.tval('D.Lxu'), S(q, p), ndx, nu); t.eqt('Luu', t.tval('D.Luu'), S(p, p), nu, nu)
            if kind in ('action', 'diff-action') and not gauss:
                # second differences of the cost (release configuration)
                eh = rapp('M.e_hess_')
                z = Ten(nx, 1, lambda i, j: rapp('origin', i)).lam()
                hx = mul(eh, fn('max', ONE, norm(ndx, lambda k: rapp('diff', z, x.lam(), k))))
                hu = mul(eh, fn('max', ONE, norm(nu, lambda k: rapp('u', k))))
                XP = lambda *js: Ten(nx, 1, lambda i, _: rapp('integ', x.lam(), Ten(ndx, 1, lambda a, _: add(*[ite(ieq(a, j), mul(num(s), hx), ZERO) for s, j in js])).lam(), i)).lam()
                UP = lambda *js: Ten(nu, 1, lambda a, _: add(rapp('u', a), *[ite(ieq(a, j), mul(num(s), hu), ZERO) for s, j in js])).lam()
                C = lambda xl, ul: rapp('m:cost', xl, ul)
                c0 = C(x.lam(), w)

                def second(P, f, h):
                    cp = lambda i: f(P((1, i)))
                    def H(i, j):
                        a, b = iite(ile(i, j), i, j), iite(ile(i, j), j, i)
                        diag = add(cp(i), mul(num(-2), c0), f(P((-1, i))))
                        off = add(f(P((1, a), (1, b))), mul(num(-1), cp(b)), mul(num(-1), cp(a)), c0)
                        return mul(ite(ieq(i, j), diag, off), inv(mul(h, h)))
                    return H
                t.eqt('Lxx', t.tval('D.Lxx'), second(XP, lambda xl: C(xl, w), hx), ndx, ndx)
                if not terminal:
                    t.eqt('Luu', t.tval('D.Luu'), second(UP, lambda ul: C(x.lam(), ul), hu), nu, nu)
                    t.eqt('Lxu', t.tval('D.Lxu'), lambda i, j: mul(add(C(XP((1, i)), UP((1, j))), mul(num(-1), C(XP((1, i)), UP((-1, j)))), mul(num(-1), C(XP((-1, i)), UP((1, j)))), C(XP((-1, i)), UP((-1, j)))), inv(mul(num(4), hx, hu))), ndx, nu)
            t.throws_iff('calls', FALSE); t.sides()
            o.append(t)
        return o
    return go


def t_activation(db):
    cls = ND('ActivationModel'); B = 'ActivationModelAbstractTpl<double>'
    t = Task(db, cls + '::calc; calcDiff')
    m, d = t.obj('M', cls), t.obj('D', ND('ActivationData'))
    nr = t.nat('nr')
    t.ex.cls.update({'M.model_': B, 'D.data_0': 'ActivationDataAbstractTpl<double>', 'D.data_rp[*]': 'ActivationDataAbstractTpl<double>'})
    t.init('M.nr_', nr); t.init('M.model_.nr_', nr); t.size('D.data_rp', nr)
    t.dims('D', rp=(nr, 1), Ar=(nr, 1), Arr_=(nr, nr)); t.init('D.Arr', lambda *x: Ten(nr, nr, lambda i, j: ite(ieq(i, j), rapp('Arr0', i), ZERO)))

    def calc(ex, st, obj, args, node):
        if obj.a[0] == 'M': return NotImplemented
        r = ex.ten(args[1], st); ex.shape(st, 'wrapped calc r', r.rows, nr, node)
        wr(ex, st, args[0], 'a_value', rapp('m:a', r.lam()))
    t.contract(B, 'calc', calc)
    r = t.vec('r', nr)
    t.call(m, cls, 'calc', [d, r]); t.call(m, cls, 'calcDiff', [d, r])
    h = plain(nr, 'r')
    t.eq('value', t.rval('D.a_value'), rapp('m:a', r.lam()))
    t.eqt('Ar', t.tval('D.Ar'), lambda i: mul(sub(rapp('m:a', plus(nr, lambda k: rapp('r', k), h, i).lam()), rapp('m:a', r.lam())), inv(h)), nr)
    t.throws_iff('calls', FALSE); t.sides()
    return t


def t_control(db):
    cls = ND('ControlParametrizationModel'); B = 'ControlParametrizationModelAbstractTpl<double>'
    o = []

    def mk(name):
        t = Task(db, cls + '::' + name)
        m, d = t.obj('M', cls), t.obj('D', ND('ControlParametrizationData'))
        nu, nw = t.nat('nu'), t.nat('nw')
        for a in ('M', 'M.model_'): t.init(a + '.nu_', nu); t.init(a + '.nw_', nw)
        DB = 'ControlParametrizationDataAbstractTpl<double>'
        t.ex.cls.update({'M.model_': B, 'D.data_0': DB, 'D.data_u[*]': DB}); t.size('D.data_u', nu)
        t.dims('D', du=(nu, 1), w=(nw, 1), dw_du=(nw, nu)); t.dims('D.data_0', w=(nw, 1)); t.dims('D.data_u[*]', w=lambda k: (nw, 1))

        def calc(ex, st, obj, args, node):
            if obj.a[0] == 'M': return NotImplemented
            u = ex.ten(args[2], st); ex.shape(st, 'wrapped calc u', u.rows, nu, node)
            tt, ul = toreal(ex.rval(args[1], st)), u.lam()
            wr(ex, st, args[0], 'w', Ten(nw, 1, lambda i, j: rapp('m:w', tt, ul, i)))
        t.contract(B, 'calc', calc)
        return t, m, d, nu, nw
    t, m, d, nu, nw = mk('calc; calcDiff')
    u, tau = t.vec('u', nu), rapp('t')
    W0 = lambda i: rapp('m:w', tau, u.lam(), i)
    t.call(m, cls, 'calc', [d, tau, u])
    t.eqt('value', t.tval('D.w'), W0, nw)
    t.call(m, cls, 'calcDiff', [d, tau, u])
    e = plain(nu, 'u')
    t.eqt('value kept', t.tval('D.w'), W0, nw)
    J = lambda i, j: mul(sub(rapp('m:w', tau, plus(nu, lambda k: rapp('u', k), e, j).lam(), i), W0(i)), inv(e))
    t.eqt('dw_du', t.tval('D.dw_du'), J, nw, nu)
    t.throws_iff('calls', FALSE); t.sides()
    o.append(t)
    for fnm in ('multiplyByJacobian', 'multiplyJacobianTransposeBy'):
        for op in ('setto', 'addto', 'rmfrom'):
            t, m, d, nu, nw = mk('%s(%s)' % (fnm, op))
            k = t.nat('k'); tr = fnm != 'multiplyByJacobian'
            a, b = (nw, k) if tr else (k, nw)
            A = t.mat('A', a, b); r, c = (nu, k) if tr else (k, nu)
            t.ex.dims['O'] = lambda *i: (toint(r), toint(c))
            t.call(m, cls, fnm, [d, A, LRef('O', (), MAT), enum(op)])
            P = lambda i, j: dotsum(nw, lambda l: mul(rapp('D.dw_du', l, i), rapp('A', l, j)) if tr else mul(rapp('A', i, l), rapp('D.dw_du', l, j)))
            t.eqt('product', t.tval('O'), lambda i, j: {'setto': P(i, j), 'addto': add(rapp('O', i, j), P(i, j)), 'rmfrom': sub(rapp('O', i, j), P(i, j))}[op], r, c)
            t.throws_iff('calls', FALSE); t.sides()
            o.append(t)
    return o


def t_state(db):
    cls = ND('State'); o = []
    def mk(name):
        t = Task(db, cls + '::' + name)
        s = t.obj('M', cls); nx, ndx = t.nat('nx'), t.nat('ndx')
        t.ex.cls.update({'M.state_': SA})
        for a in ('M', 'M.state_'): t.init(a + '.nx_', nx); t.init(a + '.ndx_', ndx)
        def two(n0, n1, no, f):
            def h(ex, st, obj, args, node):
                if obj.a[0] == 'M': return NotImplemented
                a, b = ex.ten(args[0], st), ex.ten(args[1], st)
                la, lb = a.lam(), b.lam()
                ex.shape(st, f + ' first', a.rows, n0, node); ex.shape(st, f + ' second', b.rows, n1, node); ex.shape(st, f + ' out', ex.ten(args[2], st).rows, no, node)
                ex.assign(args[2], Ten(no, 1, lambda i, j: rapp(f, la, lb, i)), st, node, False)
            return h
        t.contract(SA, 'diff', two(nx, nx, ndx, 'diff')); t.contract(SA, 'integrate', two(nx, ndx, nx, 'integ'))
        return t, s, nx, ndx
    for comp, (A, B) in {'both': (1, 1), 'first': (1, 0), 'second': (0, 1)}.items():
        for fnm in ('Jdiff', 'Jintegrate'):
            t, s, nx, ndx = mk('%s(%s) sizes' % (fnm, comp))
            r1, c1, r2, c2, a, b = (t.nat(k) for k in ('r1', 'c1', 'r2', 'c2', 'a', 'b'))
            t.ex.dims['J1'] = lambda *i: (r1, c1); t.ex.dims['J2'] = lambda *i: (r2, c2)
            ny = nx if fnm == 'Jdiff' else ndx
            t.call(s, cls, fnm, [t.vec('x', a), t.vec('y', b), LRef('J1', (), MAT), LRef('J2', (), MAT), enum(comp)] + ([enum('setto')] if fnm == 'Jintegrate' else []))
            bad = [bnot(ieq(a, nx)), bnot(ieq(b, ny))]
            if A: bad.append(bnot(band(ieq(r1, ndx), ieq(c1, ndx))))
            if B: bad.append(bnot(band(ieq(r2, ndx), ieq(c2, ndx))))
            t.throws_iff('sizes', bor(*bad))
            o.append(t)
            t, s, nx, ndx = mk('%s(%s)' % (fnm, comp))
            ny = nx if fnm == 'Jdiff' else ndx
            x, y = t.vec('x', nx), t.vec('y', ny)
            t.ex.dims['J1'] = t.ex.dims['J2'] = lambda *i: (ndx, ndx)
            t.call(s, cls, fnm, [x, y, LRef('J1', (), MAT), LRef('J2', (), MAT), enum(comp)] + ([enum('setto')] if fnm == 'Jintegrate' else []))
            hx, hy = plain(nx, 'x'), plain(ny, 'y')
            IT = lambda p, v: Ten(nx, 1, lambda i, _: rapp('integ', p, v, i)).lam()
            df = lambda p, v, i: rapp('diff', p, v, i)
            if fnm == 'Jdiff':
                G = lambda i, j: mul(sub(df(IT(x.lam(), unit(ndx, hx, j).lam()), y.lam(), i), df(x.lam(), y.lam(), i)), inv(hx))
                H = lambda i, j: mul(sub(df(x.lam(), IT(y.lam(), unit(ndx, hy, j).lam()), i), df(x.lam(), y.lam(), i)), inv(hy))
            else:
                z = IT(x.lam(), y.lam())
                G = lambda i, j: mul(df(z, IT(IT(x.lam(), unit(ndx, hx, j).lam()), y.lam()), i), inv(hx))
                H = lambda i, j: mul(df(z, IT(x.lam(), plus(ndx, lambda k: rapp('y', k), hy, j).lam()), i), inv(hy))
            if A: t.eqt('first', t.tval('J1'), G, ndx, ndx)
            if B: t.eqt('second', t.tval('J2'), H, ndx, ndx)
            t.frame((['J1'] if A else []) + (['J2'] if B else [])); t.sides()
            o.append(t)
    return o


def t_params(db):
    o = []
    for pre in ('ActionModel', 'DifferentialActionModel', 'ResidualModel', 'ConstraintModel', 'ActuationModel', 'CostModel', 'ActivationModel', 'ControlParametrizationModel', 'State'):
        t = Task(db, ND(pre) + '::set_disturbance')
        m = t.obj('M', ND(pre)); v = rapp('v')
        t.call(m, ND(pre), 'set_disturbance', [v])
        t.throws_iff('negative disturbance', rlt(v, ZERO))
        t.eq('stored', t.rval('M.e_jac_'), v)
        if pre in ('ActionModel', 'DifferentialActionModel'): t.eq('stored for second differences', t.rval('M.e_hess_'), fn('sqrt', mul(num(2), v)))
        t.eq('getter', t.ex.rval(t.call(m, ND(pre), 'get_disturbance', []), t.st), v)
        t.rejected(lambda k: k.startswith('M.'))
        o.append(t)
    return o


TASKS = {k: t_model(k) for k in KINDS}
TASKS.update({'activation': t_activation, 'control': t_control, 'state': t_state, 'disturbance': t_params})
