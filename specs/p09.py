"""P09: residual costs."""
from spec import *
import itertools

UNITS = ['costs/residual', 'cost-base', 'residual-base', 'residuals/control', 'residuals/joint-effort', 'residuals/joint-acceleration',
         'activation-base', 'activations/quadratic', 'state-base', 'actuation-base', 'data/joint', 'data-collector-base']
HARNESS = 'h09'
NOTE = 'Gauss-Newton assembly for all eight dependency patterns, running and terminal, any residual, activation and dimension; the joint-effort, joint-acceleration and control residuals through their real bodies.'
ASSUME = ['a residual writes zeros in the Jacobian blocks it does not depend on (callee contract; checked for the residuals of this library)',
          'activations have a diagonal curvature (their data type)', 'ndx = 2 nv when a residual depends on only one of configuration and velocity',
          'calcDiff is called after calc at the same point with the same data (documented calling order)']
CR = 'CostModelResidualTpl<double>'
CB = 'CostModelAbstractTpl<double>'
CD = 'CostDataResidualTpl<double>'
RM = 'ResidualModelAbstractTpl<double>'
RD = 'ResidualDataAbstractTpl<double>'
AC = 'ActivationModelAbstractTpl<double>'
AD = 'ActivationDataAbstractTpl<double>'
NOU = oapp('no_u')
RC = 'ResidualModelControlTpl<double>'
RE = 'ResidualModelJointEffortTpl<double>'
RA = 'ResidualModelJointAccelerationTpl<double>'


def setup(db, name, q, v, u, res=RM, cdcls=None):
    t = Task(db, CR + '::' + name)
    m, d = t.obj('M', CR), t.obj('D', 'CostDataAbstractTpl<double>')
    nv, nx, nu, nr = (t.nat(k) for k in ('nv', 'nx', 'nu', 'nr'))
    ndx = iscale(nv, 2)
    t.ex.cls.update({'M.residual_': res, 'M.activation_': AC, 'M.state_': 'StateAbstractTpl<double>', 'M.residual_.state_': 'StateAbstractTpl<double>',
                     'D.residual': RD, 'D.activation': AD})
    for o in ('M.state_', 'M.residual_.state_'):
        for k, x in (('nv_', nv), ('ndx_', ndx), ('nx_', nx)): t.init(o + '.' + k, x)
    for k, x in (('q', q), ('v', v), ('u', u)): t.init('M.residual_.%s_dependent_' % k, TRUE if x else FALSE)
    t.init('M.residual_.nu_', nu); t.init('M.residual_.nr_', nr); t.init('M.nu_', nu)
    t.dims('D', Lx=(ndx, 1), Lu=(nu, 1), Lxx=(ndx, ndx), Lxu=(ndx, nu), Luu=(nu, nu))
    t.dims('D.residual', r=(nr, 1), Rx=(nr, ndx), Ru=(nr, nu), Arr_Rx=(nr, ndx), Arr_Ru=(nr, nu))
    t.dims('D.activation', Ar=(nr, 1))
    t.dims('M.residual_', unone_=(nu, 1)); t.dims('M', unone_=(nu, 1))
    for o in ('M.residual_', 'M'): t.init(o + '.unone_', lambda *x: Ten(nu, 1, lambda i, j: ZERO))
    t.init('D.activation.Arr', lambda *x: Ten(nr, nr, lambda i, j: ite(ieq(i, j), rapp('Arr0', i), ZERO)))
    # data invariant: blocks that the residual does not depend on are zero (constructor; kept by every call)
    px = lambda i: (TRUE if q else FALSE) if not (q and v) and False else bor(band(tobool(q), ilt(i, nv)), band(tobool(v), ile(nv, i)))
    pu = tobool(u)
    t.init('D.Lx', lambda *x: Ten(ndx, 1, lambda i, j: ite(px(i), rapp('Lx0', i), ZERO)))
    t.init('D.Lu', lambda *x: Ten(nu, 1, lambda i, j: ite(pu, rapp('Lu0', i), ZERO)))
    t.init('D.Lxx', lambda *x: Ten(ndx, ndx, lambda i, j: ite(band(px(i), px(j)), rapp('Lxx0', i, j), ZERO)))
    t.init('D.Lxu', lambda *x: Ten(ndx, nu, lambda i, j: ite(band(px(i), pu), rapp('Lxu0', i, j), ZERO)))
    t.init('D.Luu', lambda *x: Ten(nu, nu, lambda i, j: ite(pu, rapp('Luu0', i, j), ZERO)))
    ex = t.ex

    def lam(ex, st, a, n, node, what):
        x = ex.ten(a, st); ex.shape(st, what, x.rows, n, node); return x.lam()

    def put(ex, st, o, f, val): ex.write(st, o.a[0] + '.' + f, o.a[1], D if isinstance(val, T) else (VEC if isc(val.cols) else MAT), val)

    def rcalc(ex, st, obj, args, node):
        if ex.cls.get('M.residual_') != RM: return NotImplemented
        x = lam(ex, st, args[1], nx, node, 'residual x'); w = lam(ex, st, args[2], nu, node, 'residual u') if len(args) > 2 else NOU
        put(ex, st, args[0], 'r', Ten(nr, 1, lambda i, j: rapp('r', x, w, i)))

    def rdiff(ex, st, obj, args, node):
        if ex.cls.get('M.residual_') != RM: return NotImplemented
        x = lam(ex, st, args[1], nx, node, 'residual x'); w = lam(ex, st, args[2], nu, node, 'residual u') if len(args) > 2 else NOU
        put(ex, st, args[0], 'Rx', Ten(nr, ndx, lambda i, j: ite(px(j), rapp('Rx', x, w, i, j), ZERO)))
        if len(args) > 2: put(ex, st, args[0], 'Ru', Ten(nr, nu, lambda i, j: ite(pu, rapp('Ru', x, w, i, j), ZERO)))

    def acalc(ex, st, obj, args, node):
        r = lam(ex, st, args[1], nr, node, 'activation r')
        put(ex, st, args[0], 'a_value', rapp('av', r))

    def adiff(ex, st, obj, args, node):
        r = lam(ex, st, args[1], nr, node, 'activation r')
        put(ex, st, args[0], 'Ar', Ten(nr, 1, lambda i, j: rapp('Ar', r, i)))
        put(ex, st, args[0], 'Arr', Ten(nr, nr, lambda i, j: ite(ieq(i, j), rapp('Arr', r, i), ZERO)))
    t.contract(RM, 'calc', rcalc); t.contract(RM, 'calcDiff', rdiff)
    t.contract(AC, 'calc', acalc); t.contract(AC, 'calcDiff', adiff)
    return t, m, d, nv, nx, ndx, nu, nr, px, pu


def gn(t, rl, Rx, Ru, ndx, nu, nr, update_u=True):
    Ar = lambda k: rapp('Ar', rl, k)
    H = lambda k: rapp('Arr', rl, k)
    if Rx is not None:
        t.eqt('Lx', t.tval('D.Lx'), lambda i: dotsum(nr, lambda k: mul(Rx(k, i), Ar(k))), ndx)
        t.eqt('Lxx', t.tval('D.Lxx'), lambda i, j: dotsum(nr, lambda k: mul(Rx(k, i), H(k), Rx(k, j))), ndx, ndx)
    if update_u:
        t.eqt('Lu', t.tval('D.Lu'), lambda i: dotsum(nr, lambda k: mul(Ru(k, i), Ar(k))), nu)
        t.eqt('Luu', t.tval('D.Luu'), lambda i, j: dotsum(nr, lambda k: mul(Ru(k, i), H(k), Ru(k, j))), nu, nu)
        t.eqt('Lxu', t.tval('D.Lxu'), lambda i, j: dotsum(nr, lambda k: mul(Rx(k, i), H(k), Ru(k, j))), ndx, nu)


def t_gn(db):
    o = []
    for q, v, u in itertools.product((True, False), repeat=3):
        tag = ''.join(c for c, b in zip('qvu', (q, v, u)) if b) or 'none'
        # running
        t, m, d, nv, nx, ndx, nu, nr, px, pu = setup(db, 'calc; calcDiff (depends on %s)' % tag, q, v, u)
        x, w = t.vec('x', nx), t.vec('u', nu)
        r = Ten(nr, 1, lambda i, j: rapp('r', x.lam(), w.lam(), i))
        t.call(m, CR, 'calc', [d, x, w])
        t.eq('cost', t.rval('D.cost'), rapp('av', r.lam()))
        t.call(m, CR, 'calcDiff', [d, x, w])
        Rx = lambda k, i: ite(px(i), rapp('Rx', x.lam(), w.lam(), k, i), ZERO)
        Ru = lambda k, i: ite(pu, rapp('Ru', x.lam(), w.lam(), k, i), ZERO)
        gn(t, r.lam(), Rx, Ru, ndx, nu, nr)
        t.eq('cost kept', t.rval('D.cost'), rapp('av', r.lam()))
        t.frame(['D.*']); t.throws_iff('calls', FALSE); t.sides()
        o.append(t)
        # terminal
        t, m, d, nv, nx, ndx, nu, nr, px, pu = setup(db, 'terminal calc; calcDiff (depends on %s)' % tag, q, v, u)
        x = t.vec('x', nx)
        t.call(m, CR, 'calc', [d, x]); t.call(m, CR, 'calcDiff', [d, x])
        if q or v:
            r = Ten(nr, 1, lambda i, j: rapp('r', x.lam(), NOU, i))
            t.eq('terminal cost', t.rval('D.cost'), rapp('av', r.lam()))
            Rx = lambda k, i: ite(px(i), rapp('Rx', x.lam(), NOU, k, i), ZERO)
            gn(t, r.lam(), Rx, None, ndx, nu, nr, False)
        else:
            t.eq('terminal cost', t.rval('D.cost'), ZERO)
            t.eqt('Lx', t.tval('D.Lx'), lambda i: ZERO, ndx); t.eqt('Lxx', t.tval('D.Lxx'), lambda i, j: ZERO, ndx, ndx)
        t.frame(['D.cost', 'D.Lx', 'D.Lxx', 'D.residual.*', 'D.activation.*']); t.throws_iff('calls', FALSE); t.sides()
        o.append(t)
    return o


def t_control(db):
    o = []
    def mk(name):
        s = setup(db, name, False, False, True, RC)
        t, nu = s[0], s[6]
        # model invariant (constructors): as many residuals as controls; data invariant (createData): a constant identity Jacobian
        t.init('M.residual_.nr_', nu); t.dims('M.residual_', uref_=(nu, 1))
        t.init('D.residual.Ru', lambda *x: Ten(nu, nu, lambda i, j: ite(ieq(i, j), ONE, ZERO)))
        t.init('D.residual.Rx', lambda *x: Ten(nu, s[5], lambda i, j: ZERO))
        t.init('D.activation.Arr', lambda *x: Ten(nu, nu, lambda i, j: ite(ieq(i, j), rapp('Arr0', i), ZERO)))
        t.dims('D.residual', r=(nu, 1)); t.dims('D.activation', Ar=(nu, 1))
        return s
    t, m, d, nv, nx, ndx, nu, nr, px, pu = mk('control residual: calc; calcDiff')
    t.require(ieq(nr, nu))
    n = t.nat('n')
    x, w = t.vec('x', nx), t.vec('u', n)
    t.call(m, CR, 'calc', [d, x, w])
    t.throws_iff('control size', bnot(ieq(n, nu)))
    o.append(t)
    t, m, d, nv, nx, ndx, nu, nr, px, pu = mk('control residual: calc; calcDiff')
    t.require(ieq(nr, nu))
    x, w = t.vec('x', nx), t.vec('u', nu)
    rr = Ten(nu, 1, lambda i, j: sub(rapp('u', i), rapp('M.residual_.uref_', i)))
    t.call(m, CR, 'calc', [d, x, w]); t.call(m, CR, 'calcDiff', [d, x, w])
    t.eqt('residual', t.tval('D.residual.r'), lambda i: rr.at(i, ic(0)), nu)
    t.eq('cost', t.rval('D.cost'), rapp('av', rr.lam()))
    gn(t, rr.lam(), lambda k, i: ZERO, lambda k, i: ite(ieq(k, i), ONE, ZERO), ndx, nu, nu)
    t.frame(['D.*']); t.sides(shapes=False)
    o.append(t)
    t, m, d, nv, nx, ndx, nu, nr, px, pu = mk('control residual: terminal calc; calcDiff')
    t.require(ieq(nr, nu))
    x = t.vec('x', nx)
    t.call(m, CR, 'calc', [d, x]); t.call(m, CR, 'calcDiff', [d, x])
    t.eq('terminal cost', t.rval('D.cost'), ZERO)
    t.eqt('Lx', t.tval('D.Lx'), lambda i: ZERO, ndx); t.eqt('Lxx', t.tval('D.Lxx'), lambda i, j: ZERO, ndx, ndx)
    t.frame(['D.cost', 'D.Lx', 'D.Lxx', 'D.activation.*'])
    o.append(t)
    t, m, d, nv, nx, ndx, nu, nr, px, pu = mk('control residual: set_reference')
    R = oapp('M.residual_'); n = t.nat('n')
    t.call(R, RC, 'set_reference', [t.vec('w', n)])
    t.throws_iff('size', bnot(ieq(n, nu)))
    t.eqt('stored', t.tval('M.residual_.uref_'), lambda i: rapp('w', i), nu); t.frame(['M.residual_.uref_'])
    o.append(t)
    return o


def t_joint(kind):
    C, f, ref, jx, ju = (RE, 'tau', 'uref_', 'dtau_dx', 'dtau_du') if kind == 'effort' else (RA, 'a', 'aref_', 'da_dx', 'da_du')
    DC = 'ResidualDataJoint%sTpl<double>' % ('Effort' if kind == 'effort' else 'Acceleration')

    def go(db):
        o = []
        for fw in ((True, False) if kind == 'effort' else (None,)):
            for fn_ in ('running', 'terminal', 'reference'):
                t = Task(db, C + '::' + fn_ + ('' if fw is None else ' (forward dynamics)' if fw else ' (inverse dynamics)'))
                m, d = t.obj('R', C), t.obj('D', DC)
                nr, ndx, nu, nx = (t.nat(k) for k in ('nr', 'ndx', 'nu', 'nx'))
                t.ex.cls['D.joint'] = 'JointDataAbstractTpl<double>'
                t.init('R.nr_', nr); t.init('R.nu_', nu)
                if fw is not None: t.init('R.fwddyn_', tobool(fw))
                dep = tobool(not fw)      # constructor invariant: forward dynamics does not depend on the state
                for k in 'qv': t.init('R.%s_dependent_' % k, dep)
                t.dims('R', unone_=(nu, 1)); t.dims('R', **{ref: (nr, 1)})
                t.dims('D', r=(nr, 1), Ru=(nr, nu))
                t.init('D.Rx', lambda *x: Ten(nr, ndx, lambda i, j: ite(dep, rapp('D.Rx', i, j), ZERO)))
                t.dims('D.joint', **{f: (nr, 1), jx: (nr, ndx), ju: (nr, nu)})
                J = lambda g: (lambda i: rapp('D.joint.' + g, i))
                J2 = lambda g: (lambda i, j: rapp('D.joint.' + g, i, j))
                x, u = t.vec('x', nx), t.vec('u', nu)
                if fn_ == 'reference':
                    n = t.nat('n')
                    t.call(m, C, 'set_reference', [t.vec('w', n)])
                    t.throws_iff('size', bnot(ieq(n, nr)))
                    t.eqt('stored', t.tval('R.' + ref), lambda i: rapp('w', i), nr); t.frame(['R.' + ref])
                    o.append(t); continue
                a = [d, x, u] if fn_ == 'running' else [d, x]
                t.call(m, C, 'calc', a)
                zero = fn_ == 'terminal' and (fw or kind != 'effort')
                t.eqt('residual', t.tval('D.r'), (lambda i: ZERO) if zero else (lambda i: sub(J(f)(i), rapp('R.' + ref, i))), nr)
                t.call(m, C, 'calcDiff', a)
                t.eqt('state Jacobian', t.tval('D.Rx'), (lambda i, j: ZERO) if fw else J2(jx), nr, ndx)
                if fn_ == 'running': t.eqt('control Jacobian', t.tval('D.Ru'), J2(ju), nr, nu)
                t.frame(['D.r', 'D.Rx', 'D.Ru']); t.throws_iff('calls', FALSE); t.sides()
                o.append(t)
        return o
    return go


def t_ctor(db):
    o = []

    def mk(name, C, args, pre=None):
        t = Task(db, C + '::' + name)
        st = t.obj('ST', 'StateAbstractTpl<double>')
        for k in ('nv', 'ndx', 'nx'): t.init('ST.%s_' % k, t.nat(k))
        t.obj('AM', 'ActuationModelAbstractTpl<double>'); t.init('AM.nu_', t.nat('na'))
        c, f = t.ex.find_ctor(C, len(args), args, t.st)
        t.ex.run(f, t.obj('R', C), args, t.st)
        return t

    def flags(t, q, v, u, nr, nu):
        for k, b in (('q', q), ('v', v), ('u', u)): t.holds('depends on ' + k, beq(t.cell('R.%s_dependent_' % k, typ='bool'), tobool(b)))
        t.eq('residual dimension', t.ival('R.nr_'), nr); t.eq('control dimension', t.ival('R.nu_'), nu)
    nv, na, n, k = iapp('nv'), iapp('na'), iapp('n'), iapp('k')
    ST, AM = oapp('ST'), oapp('AM')
    vec = lambda m: Ten(m, 1, lambda i, j: rapp('w', i))
    NF.NONNEG.update(('n', 'k'))
    t = mk('constructor(state, reference)', RC, [ST, vec(n)]); t.throws_iff('no control', ieq(n, ic(0))); flags(t, False, False, True, n, n); t.eqt('reference', t.tval('R.uref_'), lambda i: rapp('w', i), n); o.append(t)
    t = mk('constructor(state, nu)', RC, [ST, n]); t.throws_iff('no control', ieq(n, ic(0))); flags(t, False, False, True, n, n); t.eqt('reference', t.tval('R.uref_'), lambda i: ZERO, n); o.append(t)
    t = mk('constructor(state)', RC, [ST]); flags(t, False, False, True, nv, nv); t.eqt('reference', t.tval('R.uref_'), lambda i: ZERO, nv); o.append(t)
    for fw in (True, False):
        t = mk('constructor(state, actuation, reference, nu, %s)' % fw, RE, [ST, AM, vec(k), n, tobool(fw)])
        t.throws_iff('no control', ieq(n, ic(0))); flags(t, not fw, not fw, True, na, n); t.holds('dynamics', beq(t.cell('R.fwddyn_', typ='bool'), tobool(fw))); t.eqt('reference', t.tval('R.uref_'), lambda i: rapp('w', i), k); o.append(t)
    for args, nu, zero in (([ST, AM, vec(k)], nv, False), ([ST, AM, n], n, True), ([ST, AM], nv, True)):
        t = mk('constructor/%d%s' % (len(args), 'n' if zero else 'r'), RE, args)
        flags(t, True, True, True, na, nu); t.holds('inverse dynamics', beq(t.cell('R.fwddyn_', typ='bool'), FALSE))
        t.eqt('reference', t.tval('R.uref_'), (lambda i: ZERO) if zero else (lambda i: rapp('w', i)), na if zero else k)
        o.append(t)
    for args, nu, zero in (([ST, vec(k), n], n, False), ([ST, vec(k)], nv, False), ([ST, n], n, True), ([ST], nv, True)):
        t = mk('constructor/%d%s' % (len(args), 'n' if zero else 'r'), RA, args)
        if not zero: t.throws_iff('reference size', bnot(ieq(k, nv)))
        flags(t, True, True, True, nv, nu); t.eqt('reference', t.tval('R.aref_'), (lambda i: ZERO) if zero else (lambda i: rapp('w', i)), nv if zero else k)
        o.append(t)
    return o


TASKS = {'Gauss-Newton': t_gn, 'control': t_control, 'joint effort': t_joint('effort'), 'joint acceleration': t_joint('acceleration'), 'constructors': t_ctor}


def t_data(db):
    """data objects start with buffers of the right sizes and zeros everywhere: what Gauss-Newton assembly and the constant control Jacobian rely on"""
    o = []
    O = lambda *i: ZERO

    def model(t, P, C):
        m = t.obj(P, C)
        t.setcls(P + '.state_', 'StateAbstractTpl<double>')
        for k, v in (('nv', iapp('nv')), ('ndx', iscale(iapp('nv'), 2)), ('nx', iapp('nx'))): t.init('%s.state_.%s_' % (P, k), v)
        return m
    NF.NONNEG.update(('nv', 'nx', 'nr', 'nu'))
    nr, nu, ndx = iapp('nr'), iapp('nu'), iscale(iapp('nv'), 2)

    # residual data; the control residual keeps its constant identity Jacobian
    for C, Dt in ((RC, RD), (RE, 'ResidualDataJointEffortTpl<double>'), (RA, 'ResidualDataJointAccelerationTpl<double>')):
        t = Task(db, C + '::createData')
        m = model(t, 'M', C)
        rows = nu if C == RC else nr
        t.init('M.nr_', rows); t.init('M.nu_', nu)
        sh = t.obj('SH', 'DataCollectorJointTpl<double>')
        r = t.call(m, C, 'createData', [sh])
        if C == RC: t.throws_iff('never', FALSE)
        P = r.a[0]
        for q, g in (('r', (O, rows)), ('Rx', (O, rows, ndx)), ('Ru', ((lambda i, j: ite(ieq(i, j), ONE, ZERO)) if C == RC else O, rows, nu)),
                     ('Arr_Rx', (O, rows, ndx)), ('Arr_Ru', (O, rows, nu))): t.eqt('constructed ' + q, t.tval(P + '.' + q), *g)
        o.append(t)

    # cost data
    t = Task(db, CD + '::constructor')
    m = model(t, 'M', CR); t.init('M.nu_', nu); t.ex.cls.update({'M.residual_': RM, 'M.activation_': AC})
    t.contract(RM, 'createData', lambda ex, st, obj, args, node: oapp('residual data'))
    t.contract(AC, 'createData', lambda ex, st, obj, args, node: oapp('activation data'))
    sh = t.obj('SH', 'DataCollectorAbstractTpl<double>')
    X = t.obj('X', CD)
    c, f = t.ex.find_ctor(CD, 2, [m, sh], t.st); t.ex.run(f, X, [m, sh], t.st)
    for q, g in (('Lx', (O, ndx)), ('Lu', (O, nu)), ('Lxx', (O, ndx, ndx)), ('Lxu', (O, ndx, nu)), ('Luu', (O, nu, nu))): t.eqt('constructed ' + q, t.tval('X.' + q), *g)
    t.eq('constructed cost', t.rval('X.cost'), ZERO)
    t.throws_iff('never', FALSE)
    t.frame(['X.*'])
    o.append(t)
    return o


TASKS['data'] = t_data
