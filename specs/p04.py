"""P04: Runge-Kutta integration."""
from integ import *
import integ as IG
from fractions import Fraction

UNITS = ['integrator/rk', 'controls/poly-zero', 'integ-action-base', 'action-base', 'diff-action-base', 'control-base', 'state-base']
HARNESS = 'h04'
CLS, DCLS = 'IntegratedActionModelRKTpl<double>', 'IntegratedActionDataRKTpl<double>'
NOTE = 'Any continuous-time model, state manifold, control parametrisation, dimension, time step, point and prior data.'
ASSUME = IG.ASSUME
# weights of the schemes (node fractions are the subject of the task "tableau")
B = {2: (0, 1), 3: (Fraction(1, 4), 0, Fraction(3, 4)), 4: tuple(Fraction(k, 6) for k in (1, 2, 2, 1))}
CT = {2: (0, Fraction(1, 2)), 3: (0, Fraction(1, 3), Fraction(2, 3)), 4: (0, Fraction(1, 2), Fraction(1, 2), 1)}
KI, DI = 'D.control[*]', 'D.differential[*]'


def st(db, name, n=None):
    z = setup(db, CLS, DCLS, name, KI, DI)
    t = z.t
    ni = t.nat('ni'); z.ni = ni
    t.require(ile(ic(2), ni))
    if n: t.require(ieq(ni, ic(n)))
    t.init('M.ni_', ni); t.size('M.rk_c_', ni)
    t.init('M.rk_c_[*]', lambda k: rapp('c', k))
    for v in ('differential', 'control', 'integral', 'ki', 'y', 'ws', 'dx_rk', 'dki_dx', 'dki_du', 'dyi_dx', 'dyi_du', 'dli_dx', 'dli_du', 'ddli_ddx', 'ddli_ddw', 'ddli_ddu', 'ddli_dxdw', 'ddli_dxdu', 'ddli_dwdu', 'Luu_partialx', 'Lxu_i', 'Lxx_partialx', 'Lxx_partialu'):
        t.size('D.' + v, ni)
    n_, u, w, x = z.ndx, z.nu, z.nw, z.nx
    for v, s in dict(ki=(n_, 1), y=(x, 1), ws=(w, 1), dx_rk=(n_, 1), dki_dx=(n_, n_), dki_du=(n_, u), dyi_dx=(n_, n_), dyi_du=(n_, u), dli_dx=(n_, 1), dli_du=(u, 1), ddli_ddx=(n_, n_), ddli_ddw=(w, w), ddli_ddu=(u, u), ddli_dxdw=(n_, w), ddli_dxdu=(n_, u), ddli_dwdu=(w, u), Luu_partialx=(u, u), Lxu_i=(n_, u), Lxx_partialx=(n_, n_), Lxx_partialu=(n_, u)).items():
        t.ex.dims['D.%s[*]' % v] = (lambda s: lambda *k: s)((toint_(s[0]), toint_(s[1])))
    return z


def toint_(v): return ic(v) if isinstance(v, int) else v


def t_calc(db):
    o = []
    for n in (2, 3, 4):
      for res in (False, True):
        if res and n != 3: continue
        z = st(db, 'calc, %d stages' % n + (' with residual' if res else ''), n); t = z.t
        t.init('M.with_cost_residual_', TRUE if res else FALSE)
        x, u = t.vec('x', z.nx), t.vec('u', z.nu)
        t.call(z.m, CLS, 'calc', [z.d, x, u])
        C = lambda f, k: t.tval('D.%s[*]' % f, toint_(k))
        c = lambda k: rapp('c', toint_(k))
        W = lambda k: Ten(z.nw, 1, lambda i, j: rapp('w', c(k), u.lam(), i))
        k = iv('k'); t.require(ile(ic(1), k), ilt(k, z.ni)); km = isub(k, ic(1)); un = (k, km)
        t.eqt('first stage state', C('y', 0), lambda i: rapp('x', i), z.nx)
        dx = lambda k: Ten(z.ndx, 1, lambda i, j: mul(z.dt, c(k), C('ki', isub(k, ic(1))).at(i, j)))
        t.eqt('stage displacement', C('dx_rk', k), dx(k).at, z.ndx, unfold=un)
        t.eqt('stage state', C('y', k), lambda i: rapp('integ', x.lam(), dx(k).lam(), i), z.nx, unfold=un)
        for nm, kk in (('first', ic(0)), ('later', k)):
            w, y = W(kk), (C('y', kk) if kk is k else x)
            e = dict(unfold=un) if kk is k else {}
            t.eqt('control of %s stages' % nm, C('ws', kk), w.at, z.nw, **e)
            t.eqt('rate of %s stages' % nm, C('ki', kk), lambda i: ite(ilt(i, z.nv), y.at(iadd(isub(z.nx, z.nv), i), ic(0)), rapp('c:xout', y.lam(), w.lam(), isub(i, z.nv))), z.ndx, **e)
            t.eq('cost of %s stages' % nm, t.rval('D.integral[*]', kk), rapp('c:cost', y.lam(), w.lam()), **e)
            t.eq('evaluation point of %s stages' % nm, t.ival(DI + '.point_', kk), iapp('point', y.lam(), w.lam()), **e)
            t.eq('time of %s stages' % nm, t.rval(KI + '.t_last', kk), c(kk), **e)
        D_ = Ten(z.ndx, 1, lambda i, j: mul(z.dt, add(*[mul(num(b), C('ki', s).at(i, j)) for s, b in enumerate(B[n]) if b])))
        t.eqt('increment', t.tval('D.dx'), D_.at, z.ndx)
        t.eqt('next state', t.tval('D.xnext'), lambda i: rapp('integ', x.lam(), D_.lam(), i), z.nx)
        t.eq('cost', t.rval('D.cost'), mul(z.dt, add(*[mul(num(b), t.rval('D.integral[*]', ic(s))) for s, b in enumerate(B[n]) if b])))
        xl, wl = x.lam(), W(0).lam()
        t.eqt('g', t.tval('D.g'), lambda i: rapp('c:g', xl, wl, i), z.ng); t.eqt('h', t.tval('D.h'), lambda i: rapp('c:h', xl, wl, i), z.nh)
        t.eqt('r', t.tval('D.r'), lambda i: rapp('c:r', xl, wl, i) if res else rapp('D.r', i), z.nr)
        t.throws_iff('calls', FALSE); t.sides()
        o.append(t)
    return o


def t_diff(db):
    o = []
    for n in (2, 3, 4):
        z = st(db, 'calcDiff, %d stages' % n, n); t = z.t
        t.init(KI + '.t_last', lambda k: rapp('c', k))         # calc came first
        t.init(DI + '.point_', lambda k: iapp('point', Ten(z.nx, 1, lambda i, j: rapp('D.y[*]', k, i)).lam(), Ten(z.nw, 1, lambda i, j: rapp('D.ws[*]', k, i)).lam()))
        I = lambda i, j: ite(ieq(i, j), ONE, ZERO)
        t.init('D.dyi_dx[*]', lambda k: Ten(z.ndx, z.ndx, lambda i, j: ite(ieq(k, ic(0)), I(i, j), rapp('D.dyi_dx', k, i, j))))
        t.init('D.dki_dx[*]', lambda k: Ten(z.ndx, z.ndx, lambda i, j: ite(band(ieq(k, ic(0)), ilt(i, z.nv)), I(iadd(i, z.nv), j), rapp('D.dki_dx', k, i, j))))
        t.init('D.dki_du[*]', lambda k: Ten(z.ndx, z.nu, lambda i, j: ite(band(ieq(k, ic(0)), ilt(i, z.nv)), ZERO, rapp('D.dki_du', k, i, j))))
        x, u = t.vec('x', z.nx), t.vec('u', z.nu)
        y = lambda k: Ten(z.nx, 1, lambda i, j: rapp('D.y[*]', k, i)); ws = lambda k: Ten(z.nw, 1, lambda i, j: rapp('D.ws[*]', k, i)); dr = lambda k: Ten(z.ndx, 1, lambda i, j: rapp('D.dx_rk[*]', k, i))
        t.call(z.m, CLS, 'calcDiff', [z.d, x, u])
        C = lambda f, k: t.tval('D.%s[*]' % f, toint_(k))
        c = lambda k: rapp('c', toint_(k))
        cm = lambda f, k, i, j: dm(f, y(k).lam(), ws(k).lam(), i, j)
        cv = lambda f, k, i: rapp('c:' + f, y(k).lam(), ws(k).lam(), i)
        Jw = lambda k, a, b: rapp('Jw', c(k), a, b)
        k = iv('k'); t.require(ile(ic(1), k), ilt(k, z.ni)); km = isub(k, ic(1)); un = (k, km)
        N, nv, nw, nu = z.ndx, z.nv, z.nw, z.nu
        # stage states: y_k = x (+) dt c_k k_{k-1}
        J = lambda nm, k, i, j: rapp(nm, x.lam(), dr(k).lam(), i, j)
        t.eqt('dy/dx', C('dyi_dx', k), lambda i, j: add(J('J1', k, i, j), dotsum(N, lambda a: mul(J('J2', k, i, a), mul(z.dt, c(k)), C('dki_dx', km).at(a, j)))), N, N, unfold=un)
        t.eqt('dy/du', C('dyi_du', k), lambda i, j: dotsum(N, lambda a: mul(J('J2', k, i, a), mul(z.dt, c(k)), C('dki_du', km).at(a, j))), N, nu, unfold=un)
        for kk, nm in ((ic(0), 'first'), (k, 'later')):
            e = dict(unfold=un) if kk is k else {}
            first = kk is not k
            Yx = (lambda i, j: I(i, j)) if first else (lambda i, j: C('dyi_dx', k).at(i, j))
            Yu = (lambda i, j: ZERO) if first else (lambda i, j: C('dyi_du', k).at(i, j))
            s = ' of %s stages' % nm
            t.eqt('dk/dx' + s, C('dki_dx', kk), lambda i, j: ite(ilt(i, nv), Yx(iadd(i, nv), j), dotsum(N, lambda a: mul(cm('Fx', kk, isub(i, nv), a), Yx(a, j)))), N, N, **e)
            t.eqt('dk/du' + s, C('dki_du', kk), lambda i, j: ite(ilt(i, nv), Yu(iadd(i, nv), j), add(dotsum(N, lambda a: mul(cm('Fx', kk, isub(i, nv), a), Yu(a, j))), dotsum(nw, lambda a: mul(cm('Fu', kk, isub(i, nv), a), Jw(kk, a, j))))), N, nu, **e)
            t.eqt('dl/dx' + s, C('dli_dx', kk), lambda i: dotsum(N, lambda a: mul(cv('Lx', kk, a), Yx(a, i))), N, **e)
            t.eqt('dl/du' + s, C('dli_du', kk), lambda i: add(dotsum(N, lambda a: mul(cv('Lx', kk, a), Yu(a, i))), dotsum(nw, lambda a: mul(cv('Lu', kk, a), Jw(kk, a, i)))), nu, **e)
            t.eqt('ddl/dxdx' + s, C('ddli_ddx', kk), lambda i, j: dotsum(N, lambda a: mul(Yx(a, i), dotsum(N, lambda b: mul(cm('Lxx', kk, a, b), Yx(b, j))))), N, N, **e)
            LxuJ = lambda a, j: dotsum(nw, lambda b: mul(cm('Lxu', kk, a, b), Jw(kk, b, j)))
            LxxY = lambda a, j: dotsum(N, lambda b: mul(cm('Lxx', kk, a, b), Yu(b, j)))
            t.eqt('ddl/dxdu' + s, C('ddli_dxdu', kk), lambda i, j: dotsum(N, lambda a: mul(Yx(a, i), add(LxuJ(a, j), LxxY(a, j)))), N, nu, **e)
            t.eqt('ddl/dudu' + s, C('ddli_ddu', kk), lambda i, j: add(dotsum(nw, lambda a: mul(Jw(kk, a, i), dotsum(nw, lambda b: mul(cm('Luu', kk, a, b), Jw(kk, b, j))))),
                                                                  dotsum(N, lambda a: mul(Yu(a, i), LxuJ(a, j))), dotsum(N, lambda a: mul(LxuJ(a, i), Yu(a, j))), dotsum(N, lambda a: mul(Yu(a, i), LxxY(a, j)))), nu, nu, **e)
        comb = lambda f: (lambda i, j=ic(0): mul(z.dt, add(*[mul(num(b), C(f, s).at(i, j)) for s, b in enumerate(B[n]) if b])))
        Dx = Ten(N, 1, lambda i, j: rapp('D.dx', i)).lam()
        F = lambda nm, i, j: rapp(nm, x.lam(), Dx, i, j)
        t.eqt('Fx', t.tval('D.Fx'), lambda i, j: add(F('J1', i, j), dotsum(N, lambda a: mul(F('J2', i, a), comb('dki_dx')(a, j)))), N, N)
        t.eqt('Fu', t.tval('D.Fu'), lambda i, j: dotsum(N, lambda a: mul(F('J2', i, a), comb('dki_du')(a, j))), N, nu)
        for f, g, r, q in (('Lx', 'dli_dx', N, 1), ('Lu', 'dli_du', nu, 1), ('Lxx', 'ddli_ddx', N, N), ('Lxu', 'ddli_dxdu', N, nu), ('Luu', 'ddli_ddu', nu, nu)):
            e = comb(g)
            t.eqt(f, t.tval('D.' + f), (lambda e: lambda i, j=ic(0): e(i, j))(e) if q == 1 else (lambda e: lambda i, j: e(i, j))(e), r, q)
        for f, m in (('G', z.ng), ('H', z.nh)):
            t.eqt(f + 'x', t.tval('D.%sx' % f), (lambda f: lambda i, j: cm(f + 'x', ic(0), i, j))(f), m, N)
            t.eqt(f + 'u', t.tval('D.%su' % f), (lambda f: lambda i, j: dotsum(nw, lambda a: mul(cm(f + 'u', ic(0), i, a), Jw(ic(0), a, j))))(f), m, nu)
        t.eqt('constant dy/dx', C('dyi_dx', 0), I, N, N)
        t.frame(['D.' + f for f in ('Fx', 'Fu', 'Lx', 'Lu', 'Lxx', 'Lxu', 'Luu', 'Gx', 'Gu', 'Hx', 'Hu')] + ['D.%s[*]' % f for f in ('dki_dx', 'dki_du', 'dyi_dx', 'dyi_du', 'dli_dx', 'dli_du', 'ddli_ddx', 'ddli_ddw', 'ddli_ddu', 'ddli_dxdw', 'ddli_dxdu', 'ddli_dwdu', 'Luu_partialx', 'Lxu_i', 'Lxx_partialx', 'Lxx_partialu')] + [DI + '.' + f for f in ('Fx', 'Fu', 'Lx', 'Lu', 'Lxx', 'Lxu', 'Luu', 'Gx', 'Gu', 'Hx', 'Hu')])
        t.throws_iff('calls', FALSE); t.sides()
        o.append(t)
    return o


def t_term(db):
    z = st(db, 'calc(x); calcDiff(x)'); t = z.t
    x = t.vec('x', z.nx); xl = x.lam()
    t.call(z.m, CLS, 'calc', [z.d, x]); t.call(z.m, CLS, 'calcDiff', [z.d, x])
    t.eqt('next state', t.tval('D.xnext'), lambda i: rapp('x', i), z.nx)
    t.eq('cost', t.rval('D.cost'), rapp('c:cost', xl, NOU))
    t.eqt('Lx', t.tval('D.Lx'), lambda i: rapp('c:Lx', xl, NOU, i), z.ndx)
    t.eqt('Lxx', t.tval('D.Lxx'), lambda i, j: dm('Lxx', xl, NOU, i, j), z.ndx, z.ndx)
    for f, n in (('g', z.gT), ('h', z.hT)):
        t.eqt(f, t.tval('D.' + f), (lambda f: lambda i: rapp('c:' + f, xl, NOU, i))(f), n)
        F = f.upper()
        t.eqt(F + 'x', t.tval('D.%sx' % F), (lambda F: lambda i, j: dm(F + 'x', xl, NOU, i, j))(F), n, z.ndx)
    t.throws_iff('calls', FALSE); t.sides()
    return t


def t_tab(db):
    """nodes of the schemes, set by both constructors; data created with the constant blocks calcDiff relies on"""
    o = []
    for n, ty in ((2, 'two'), (3, 'three'), (4, 'four')):
        for na in (5, 4):
            z = setup(db, CLS, DCLS, 'constructor/%d, RK%d' % (na, n), KI, DI); t = z.t
            t.ex.cls.update({'DM2': DM, 'DM2.state_': 'StateAbstractTpl<double>', 'CM2': CM})
            t.init('DM2.nu_', z.nw); t.init('DM2.nr_', z.nr)
            for k, v in (('ng', z.ng), ('nh', z.nh), ('ng_T', z.gT), ('nh_T', z.hT)): t.init('DM2.%s_' % k, v)
            t.dims('DM2', u_lb_=(z.nw, 1), u_ub_=(z.nw, 1)); t.init('CM2.nu_', z.nu); t.init('CM2.nw_', z.nw)
            R = t.obj('R', CLS)
            nn = z.nu if na == 5 else z.nw
            t.dims('R', u_lb_=(nn, 1), u_ub_=(nn, 1))
            a = [oapp('DM2')] + ([oapp('CM2')] if na == 5 else []) + [enum(ty), rapp('v'), bapp('b')]
            c, f = t.ex.find_ctor(CLS, na, a, t.st); t.ex.run(f, R, a, t.st)
            t.eq('stages', t.ival('R.ni_'), ic(n)); t.eq('nodes', t.ex.vsize(VRef('R.rk_c_', (), 'std::vector<double>'), t.st), ic(n))
            for k in range(n): t.eq('node %d' % k, t.rval('R.rk_c_[*]', ic(k)), num(CT[n][k]))
            v = ite(rlt(rapp('v'), ZERO), num(Fraction(1, 1000)), rapp('v'))
            t.eq('step', t.rval('R.time_step_'), v)
            t.holds('residual flag', beq(tobool(t.cell('R.with_cost_residual_', typ='bool')), bapp('b')))
            t.eq('nu', t.ival('R.nu_'), nn); t.eq('nr', t.ival('R.nr_'), z.nr)
            t.eq('get_ni', t.ex.rval(t.call(R, CLS, 'get_ni', []), t.st), ic(n))
            o.append(t)
    return o


def t_data(db):
    z = st(db, 'data construction'); t = z.t
    ex = t.ex
    t.init('M.state_.ndx_', z.ndx); t.init('M.state_.nv_', z.nv)
    for c, m in ((DM, 'differential'), (CM, 'control')):
        t.contract(c, 'createData', (lambda c: lambda ex, st, obj, args, node: NotImplemented if obj.a[0] == 'M' else oapp('new ' + c, *[iv(v) for v in ex.loopvars]))(c))
    R = t.obj('R', DCLS)
    c, f = ex.find_ctor(DCLS, 1, [z.m], t.st); ex.run(f, R, [z.m], t.st)
    I = lambda i, j: ite(ieq(i, j), ONE, ZERO)
    t.eqt('constant dy/dx', t.tval('R.dyi_dx[*]', ic(0)), I, z.ndx, z.ndx)
    t.eqt('constant dk/dx', t.tval('R.dki_dx[*]', ic(0)), lambda i, j: ite(band(ilt(i, z.nv), ieq(j, iadd(i, z.nv))), ONE, ZERO), z.ndx, z.ndx)
    t.eqt('constant dk/du', t.tval('R.dki_du[*]', ic(0)), lambda i, j: ZERO, z.ndx, z.nu)
    for v in ('differential', 'control', 'ki', 'y', 'ws', 'dx_rk', 'dki_dx', 'dki_du', 'dyi_dx', 'dyi_du', 'dli_dx', 'dli_du', 'ddli_ddx', 'ddli_ddu', 'ddli_dxdu', 'integral'):
        t.eq('entries of ' + v, t.ex.vsize(VRef('R.' + v, (), 'std::vector<double>'), t.st), z.ni)
    return t


def t_qs(db):
    z = st(db, 'quasiStatic'); t = z.t
    x, u = t.vec('x', z.nx), LRef('Uout', (), VEC); t.ex.dims['Uout'] = lambda *i: (z.nu, ic(1))
    t.call(z.m, CLS, 'quasiStatic', [z.d, u, x, iapp('maxiter'), rapp('tol')])
    W = Ten(z.nw, 1, lambda i, j: rapp('c:qs', Ten(z.nw, 1, lambda a, b: ZERO).lam(), x.lam(), iapp('maxiter'), rapp('tol'), i))
    t.eqt('parameters', t.tval('Uout'), lambda i: rapp('par', ZERO, W.lam(), i), z.nu)
    t.throws_iff('calls', FALSE); t.sides()
    return t


TASKS = {'calc': t_calc, 'calcDiff': t_diff, 'terminal': t_term, 'tableau': t_tab, 'data': t_data, 'quasi-static': t_qs}
