"""P03: semi-implicit Euler integration."""
from integ import *
import integ as IG
from fractions import Fraction

UNITS = ['integrator/euler', 'controls/poly-zero', 'integ-action-base', 'action-base', 'diff-action-base', 'control-base', 'state-base']
HARNESS = 'h03'
CLS, DCLS = 'IntegratedActionModelEulerTpl<double>', 'IntegratedActionDataEulerTpl<double>'
NOTE = 'Any continuous-time model, state manifold, control parametrisation, dimension, time step, point and prior data.'
ASSUME = IG.ASSUME


def st(db, name):
    z = setup(db, CLS, DCLS, name, 'D.control', 'D.differential')
    z.t.dims('D', da_du=(z.nv, z.nu), Lwu=(z.nw, z.nu))
    return z


def t_run(db):
    o = []
    for res in (False, True):
        z = st(db, 'calc; calcDiff' + (' with residual' if res else '')); t = z.t
        t.init('M.with_cost_residual_', TRUE if res else FALSE)
        x, u = t.vec('x', z.nx), t.vec('u', z.nu)
        t.call(z.m, CLS, 'calc', [z.d, x, u])
        W = Ten(z.nw, 1, lambda i, j: rapp('w', ZERO, u.lam(), i)); xl, wl = x.lam(), W.lam()
        a = lambda i: rapp('c:xout', xl, wl, i)
        dt = z.dt
        dx = Ten(z.ndx, 1, lambda i, j: ite(ilt(i, z.nv), add(mul(dt, rapp('x', iadd(isub(z.nx, z.nv), i))), mul(dt, dt, a(i))), mul(dt, a(isub(i, z.nv)))))
        t.eqt('increment', t.tval('D.dx'), lambda i: dx.at(i, ic(0)), z.ndx)
        xn = lambda i: rapp('integ', xl, dx.lam(), i)
        vals = lambda s: (t.eqt('next state' + s, t.tval('D.xnext'), xn, z.nx), t.eq('cost' + s, t.rval('D.cost'), mul(dt, rapp('c:cost', xl, wl))),
                          t.eqt('g' + s, t.tval('D.g'), lambda i: rapp('c:g', xl, wl, i), z.ng), t.eqt('h' + s, t.tval('D.h'), lambda i: rapp('c:h', xl, wl, i), z.nh),
                          t.eqt('r' + s, t.tval('D.r'), lambda i: rapp('c:r', xl, wl, i) if res else rapp('D.r', i), z.nr))
        vals('')
        t.call(z.m, CLS, 'calcDiff', [z.d, x, u])
        vals(' kept')
        Jw = lambda k, j: rapp('Jw', ZERO, k, j)
        c = lambda f, i, j: dm(f, xl, wl, i, j)
        # chain rule: d integrate(x, dx(x, w(u)))
        ddx = lambda k, j: ite(ilt(k, z.nv), add(mul(dt, dt, c('Fx', k, j)), ite(ieq(j, iadd(k, z.nv)), dt, ZERO)), mul(dt, c('Fx', isub(k, z.nv), j)))
        J = lambda n, i, k: rapp(n, xl, dx.lam(), i, k)
        t.eqt('Fx', t.tval('D.Fx'), lambda i, j: add(J('J1', i, j), dotsum(z.ndx, lambda k: mul(J('J2', i, k), ddx(k, j)))), z.ndx, z.ndx)
        aw = lambda i, j: dotsum(z.nw, lambda k: mul(c('Fu', i, k), Jw(k, j)))
        ddu = lambda k, j: ite(ilt(k, z.nv), mul(dt, dt, aw(k, j)), mul(dt, aw(isub(k, z.nv), j)))
        t.eqt('Fu', t.tval('D.Fu'), lambda i, j: dotsum(z.ndx, lambda k: mul(J('J2', i, k), ddu(k, j))), z.ndx, z.nu)
        t.eqt('Lx', t.tval('D.Lx'), lambda i: mul(dt, rapp('c:Lx', xl, wl, i)), z.ndx)
        t.eqt('Lu', t.tval('D.Lu'), lambda i: mul(dt, dotsum(z.nw, lambda k: mul(Jw(k, i), rapp('c:Lu', xl, wl, k)))), z.nu)
        t.eqt('Lxx', t.tval('D.Lxx'), lambda i, j: mul(dt, c('Lxx', i, j)), z.ndx, z.ndx)
        t.eqt('Lxu', t.tval('D.Lxu'), lambda i, j: mul(dt, dotsum(z.nw, lambda k: mul(c('Lxu', i, k), Jw(k, j)))), z.ndx, z.nu)
        t.eqt('Luu', t.tval('D.Luu'), lambda i, j: mul(dt, dotsum(z.nw, lambda k: mul(Jw(k, i), dotsum(z.nw, lambda l: mul(c('Luu', k, l), Jw(l, j)))))), z.nu, z.nu)
        for f, n in (('G', z.ng), ('H', z.nh)):
            t.eqt(f + 'x', t.tval('D.%sx' % f), (lambda f: lambda i, j: c(f + 'x', i, j))(f), n, z.ndx)
            t.eqt(f + 'u', t.tval('D.%su' % f), (lambda f: lambda i, j: dotsum(z.nw, lambda k: mul(c(f + 'u', i, k), Jw(k, j))))(f), n, z.nu)
        t.throws_iff('calls', FALSE); t.sides()
        o.append(t)
    return o


def t_term(db):
    z = st(db, 'calc(x); calcDiff(x)'); t = z.t
    x = t.vec('x', z.nx); xl = x.lam()
    t.call(z.m, CLS, 'calc', [z.d, x]); t.call(z.m, CLS, 'calcDiff', [z.d, x])
    t.eqt('next state', t.tval('D.xnext'), lambda i: rapp('x', i), z.nx)
    t.eqt('Fx', t.tval('D.Fx'), lambda i, j: ite(ieq(i, j), ONE, ZERO), z.ndx, z.ndx)
    t.eq('cost', t.rval('D.cost'), rapp('c:cost', xl, NOU))
    t.eqt('Lx', t.tval('D.Lx'), lambda i: rapp('c:Lx', xl, NOU, i), z.ndx)
    t.eqt('Lxx', t.tval('D.Lxx'), lambda i, j: dm('Lxx', xl, NOU, i, j), z.ndx, z.ndx)
    for f, n in (('g', z.gT), ('h', z.hT)):
        t.eqt(f, t.tval('D.' + f), (lambda f: lambda i: rapp('c:' + f, xl, NOU, i))(f), n)
        F = f.upper()
        t.eqt(F + 'x', t.tval('D.%sx' % F), (lambda F: lambda i, j: dm(F + 'x', xl, NOU, i, j))(F), n, z.ndx)
    t.throws_iff('calls', FALSE); t.sides()
    return t


def t_zero(db):
    """a null time step leaves the state where it is"""
    z = st(db, 'calc with a null step'); t = z.t
    t.init('M.time_step_', ZERO); t.init('M.time_step2_', ZERO)
    t.call(z.m, CLS, 'calc', [z.d, t.vec('x', z.nx), t.vec('u', z.nu)])
    t.eqt('next state', t.tval('D.xnext'), lambda i: rapp('x', i), z.nx); t.eq('cost', t.rval('D.cost'), ZERO)
    return t


def t_qs(db):
    z = st(db, 'quasiStatic'); t = z.t
    x, u = t.vec('x', z.nx), LRef('Uout', (), VEC); t.ex.dims['Uout'] = lambda *i: (z.nu, ic(1))
    t.call(z.m, CLS, 'quasiStatic', [z.d, u, x, iapp('maxiter'), rapp('tol')])
    W = Ten(z.nw, 1, lambda i, j: rapp('c:qs', Ten(z.nw, 1, lambda a, b: ZERO).lam(), x.lam(), iapp('maxiter'), rapp('tol'), i))
    t.eqt('parameters', t.tval('Uout'), lambda i: rapp('par', ZERO, W.lam(), i), z.nu)
    t.throws_iff('calls', FALSE); t.sides()
    return t


def t_setup(db):
    """construction, exchange of the continuous-time model and time step"""
    o = []
    z = st(db, 'set_dt'); t = z.t
    v = rapp('v')
    t.call(z.m, CLS, 'set_dt', [v])
    t.throws_iff('negative step', rlt(v, ZERO))
    t.eq('step', t.rval('M.time_step_'), v); t.eq('squared step', t.rval('M.time_step2_'), mul(v, v))
    t.eq('getter', t.ex.rval(t.call(z.m, CLS, 'get_dt', []), t.st), v)
    o.append(t)

    def model(z, name, mw):
        t = z.t
        t.ex.cls.update({name: DM, name + '.state_': 'StateAbstractTpl<double>'})
        t.init(name + '.nu_', mw); t.init(name + '.nr_', z.nr)
        for k, v in (('ng', z.ng), ('nh', z.nh), ('ng_T', z.gT), ('nh_T', z.hT)): t.init(name + '.%s_' % k, v)
        t.dims(name, u_lb_=(mw, 1), u_ub_=(mw, 1))

    def limits(z, A, sfx=''):
        t = z.t
        lo, hi = (Ten(z.nw, 1, (lambda f: lambda i, j: rapp('DM2.' + f, i))(f)).lam() for f in ('u_lb_', 'u_ub_'))
        return lo, hi
    for n in (4, 3):
        z = st(db, 'constructor/%d' % n); t = z.t
        mw = t.nat('mw')
        model(z, 'DM2', mw)
        t.ex.cls['CM2'] = CM; t.init('CM2.nu_', z.nu); t.init('CM2.nw_', z.nw)
        R = t.obj('R', CLS)
        t.dims('R', u_lb_=(z.nu if n == 4 else mw, 1), u_ub_=(z.nu if n == 4 else mw, 1))
        a = [oapp('DM2')] + ([oapp('CM2')] if n == 4 else []) + [rapp('v'), bapp('b')]
        c, f = t.ex.find_ctor(CLS, len(a), a, t.st); t.ex.run(f, R, a, t.st)
        t.throws_iff('control dimensions', bnot(ieq(z.nw, mw)) if n == 4 else FALSE)
        v = ite(rlt(rapp('v'), ZERO), num(Fraction(1, 1000)), rapp('v'))
        t.eq('step', t.rval('R.time_step_'), v); t.eq('squared step', t.rval('R.time_step2_'), mul(v, v))
        t.holds('residual flag', beq(tobool(t.cell('R.with_cost_residual_', typ='bool')), bapp('b')))
        nn = z.nu if n == 4 else mw
        t.eq('nu', t.ival('R.nu_'), nn); t.eq('nr', t.ival('R.nr_'), z.nr)
        if n == 4:
            lo, hi = limits(z, 'DM2')
            t.eqt('lower limits', t.tval('R.u_lb_'), lambda i: rapp('cb_lo', lo, hi, i), nn); t.eqt('upper limits', t.tval('R.u_ub_'), lambda i: rapp('cb_hi', lo, hi, i), nn)
        else:
            t.eqt('lower limits', t.tval('R.u_lb_'), lambda i: rapp('DM2.u_lb_', i), nn); t.eqt('upper limits', t.tval('R.u_ub_'), lambda i: rapp('DM2.u_ub_', i), nn)
        for g, v in (('get_ng', z.ng), ('get_nh', z.nh), ('get_ng_T', z.gT), ('get_nh_T', z.hT)):
            t.eq(g, t.ex.rval(t.call(R, CLS, g, []), t.st), v)
        o.append(t)
    z = st(db, 'set_differential'); t = z.t
    mw = t.nat('mw'); model(z, 'DM2', mw); t.init('DM2.nr_', t.nat('mr'))
    t.dims('M', u_lb_=(z.nu, 1), u_ub_=(z.nu, 1))
    t.call(z.m, CLS, 'set_differential', [oapp('DM2')])
    t.throws_iff('control dimension', bnot(ieq(z.nw, mw)))
    lo, hi = limits(z, 'DM2')
    t.eqt('lower limits', t.tval('M.u_lb_'), lambda i: rapp('cb_lo', lo, hi, i), z.nu); t.eqt('upper limits', t.tval('M.u_ub_'), lambda i: rapp('cb_hi', lo, hi, i), z.nu)
    t.eq('nr', t.ival('M.nr_'), iapp('mr'))
    o.append(t)
    return o


TASKS = {'running': t_run, 'terminal': t_term, 'null step': t_zero, 'quasi-static': t_qs, 'setup': t_setup}


def t_data(db):
    """data of an Euler node: buffers of the sizes every evaluation relies on, zeroed, and data of its own continuous-time model and control"""
    z = st(db, 'data'); t = z.t; O = lambda *i: ZERO
    t.fn_ = DCLS + '::constructor'
    made = []
    for c in (DM, CM):
        t.contract(c, 'createData', (lambda c: lambda ex, st, obj, args, node: NotImplemented if obj.a[0] == 'M' else (made.append(obj.a[0]), oapp('data of ' + obj.a[0]))[1])(c))
    X = t.obj('X', DCLS)
    c, f = t.ex.find_ctor(DCLS, 1, [z.m], t.st); t.ex.run(f, X, [z.m], t.st)
    G, Hn = ite(ilt(z.gT, z.ng), z.ng, z.gT), ite(ilt(z.hT, z.nh), z.nh, z.hT)
    for q, g in dict(xnext=(O, z.nx), Fx=(O, z.ndx, z.ndx), Fu=(O, z.ndx, z.nu), r=(O, z.nr), Lx=(O, z.ndx), Lu=(O, z.nu), Lxx=(O, z.ndx, z.ndx), Lxu=(O, z.ndx, z.nu),
                     Luu=(O, z.nu, z.nu), g=(O, G), Gx=(O, G, z.ndx), Gu=(O, G, z.nu), h=(O, Hn), Hx=(O, Hn, z.ndx), Hu=(O, Hn, z.nu),
                     dx=(O, z.ndx), da_du=(O, z.nv, z.nu), Lwu=(O, z.nw, z.nu)).items(): t.eqt('constructed ' + q, t.tval('X.' + q), *g)
    t.holds('data of the continuous-time model', oeq(t.cell('X.differential', typ='shared_ptr'), oapp('data of M.differential_')))
    t.holds('data of the control parametrisation', oeq(t.cell('X.control', typ='shared_ptr'), oapp('data of M.control_')))
    t.throws_iff('never', FALSE)
    t.frame(['X.*'])
    return t


TASKS['data'] = t_data
