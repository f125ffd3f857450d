"""P12: residual constraints and their bounds."""
from spec import *
import itertools
import term

UNITS = ['constraints/residual', 'constraint-base', 'residual-base', 'state-base', 'data-collector-base']
HARNESS = 'h12'
NOTE = 'All residuals, dimensions, dependency patterns and both kinds; bounds with undefined entries through IEEE comparison semantics (comparisons false on an undefined operand).'
ASSUME = ['a residual writes zeros in the Jacobian blocks it does not depend on (callee contract; checked for the residuals of this library)',
          'the data was created by the model in its current kind (dimensions and constructed zeros)',
          'calcDiff is called after calc at the same point with the same data', 'ndx = 2 nv when a residual depends on only one of configuration and velocity',
          'infinities are the largest values of the order; the checks involve comparisons only']
K = 'ConstraintModelResidualTpl<double>'
B = 'ConstraintModelAbstractTpl<double>'
KD = 'ConstraintDataAbstractTpl<double>'
DD = 'ConstraintDataResidualTpl<double>'
RM = 'ResidualModelAbstractTpl<double>'
RD = 'ResidualDataAbstractTpl<double>'
SA = 'StateAbstractTpl<double>'
NOU = oapp('no_u')
INF, BIG = rapp('INF'), rapp('DBL_MAX')
LOW = mul(num(-1), BIG)
NINF = mul(num(-1), INF)
TYPES = {'inequality': 'Inequality', 'equality': 'Equality'}


def h2(x):
    import math
    return math.sin(x * 91.7) > 0.6


def setup(db, name, q, v, u, kind):
    t = Task(db, K + '::' + name)
    m, d = t.obj('M', K), t.obj('D', KD)
    nv, nx, nu, nr = (t.nat(k) for k in ('nv', 'nx', 'nu', 'nr'))
    ndx = iscale(nv, 2)
    ex = t.ex
    ex.cls.update({'M.residual_': RM, 'M.state_': SA, 'M.residual_.state_': SA, 'D.residual': RD})
    for o in ('M.state_', 'M.residual_.state_'):
        for k, x in (('nv_', nv), ('ndx_', ndx), ('nx_', nx)): t.init(o + '.' + k, x)
    for k, x in (('q', q), ('v', v), ('u', u)): t.init('M.residual_.%s_dependent_' % k, TRUE if x else FALSE)
    t.init('M.residual_.nu_', nu); t.init('M.residual_.nr_', nr); t.init('M.nu_', nu)
    ineq = kind == 'inequality'
    ng, nh = (nr, ic(0)) if ineq else (ic(0), nr)
    t.init('M.type_', enum(TYPES[kind])); t.init('M.ng_', ng); t.init('M.nh_', nh)
    t.dims('D', g=(ng, 1), h=(nh, 1), Gx=(ng, ndx), Gu=(ng, nu), Hx=(nh, ndx), Hu=(nh, nu))
    t.dims('D.residual', r=(nr, 1), Rx=(nr, ndx), Ru=(nr, nu))
    px = lambda i: bor(band(tobool(q), ilt(i, nv)), band(tobool(v), ile(nv, i)))
    pu = tobool(u)
    X = 'G' if ineq else 'H'
    # data invariant: blocks that the residual does not depend on are zero (constructor; kept by every call)
    t.init('D.%sx' % X, lambda *x: Ten(nr, ndx, lambda i, j: ite(px(j), rapp('Jx0', i, j), ZERO)))
    t.init('D.%su' % X, lambda *x: Ten(nr, nu, lambda i, j: ite(pu, rapp('Ju0', i, j), ZERO)))

    def lam(ex, st, a, n, node, what):
        x = ex.ten(a, st); ex.shape(st, what, x.rows, n, node); return x.lam()

    def put(ex, st, o, f, val): ex.write(st, o.a[0] + '.' + f, o.a[1], VEC if isc(val.cols) else MAT, val)

    def rcalc(ex, st, obj, args, node):
        x = lam(ex, st, args[1], nx, node, 'residual x'); w = lam(ex, st, args[2], nu, node, 'residual u') if len(args) > 2 else NOU
        put(ex, st, args[0], 'r', Ten(nr, 1, lambda i, j: rapp('r', x, w, i)))

    def rdiff(ex, st, obj, args, node):
        x = lam(ex, st, args[1], nx, node, 'residual x'); w = lam(ex, st, args[2], nu, node, 'residual u') if len(args) > 2 else NOU
        put(ex, st, args[0], 'Rx', Ten(nr, ndx, lambda i, j: ite(px(j), rapp('Rx', x, w, i, j), ZERO)))
        if len(args) > 2: put(ex, st, args[0], 'Ru', Ten(nr, nu, lambda i, j: ite(pu, rapp('Ru', x, w, i, j), ZERO)))
    t.contract(RM, 'calc', rcalc); t.contract(RM, 'calcDiff', rdiff)
    return t, m, d, nv, nx, ndx, nu, nr, px, pu, X


def t_eval(db):
    o = []
    for kind in TYPES:
        for q, v, u in itertools.product((True, False), repeat=3):
            tag = '%s; depends on %s' % (kind, ''.join(c for c, b in zip('qvu', (q, v, u)) if b) or 'nothing')
            for term in (False, True):
                t, m, d, nv, nx, ndx, nu, nr, px, pu, X = setup(db, '%scalc; calcDiff (%s)' % ('terminal ' if term else '', tag), q, v, u, kind)
                x, w = t.vec('x', nx), t.vec('u', nu)
                ul = NOU if term else w.lam()
                f = X.lower()
                t.call(m, K, 'calc', [d, x] + ([] if term else [w]))
                t.eqt('values', t.tval('D.' + f), lambda i: rapp('r', x.lam(), ul, i), nr)
                t.frame(['D.' + f, 'D.residual.r'])
                t.call(m, K, 'calcDiff', [d, x] + ([] if term else [w]))
                t.eqt('values kept', t.tval('D.' + f), lambda i: rapp('r', x.lam(), ul, i), nr)
                t.eqt('state Jacobian', t.tval('D.%sx' % X), lambda i, j: ite(px(j), rapp('Rx', x.lam(), ul, i, j), ZERO), nr, ndx)
                if not term: t.eqt('control Jacobian', t.tval('D.%su' % X), lambda i, j: ite(pu, rapp('Ru', x.lam(), ul, i, j), ZERO), nr, nu)
                t.frame(['D.' + f, 'D.%sx' % X, 'D.%su' % X, 'D.residual.*']); t.throws_iff('calls', FALSE); t.sides()
                o.append(t)
    return o


def bad_bounds(nl, nu_, n):
    i = fresh('i')
    L, U = rapp('l', iv(i)), rapp('u', iv(i))
    na, nb = bapp('isnan', L), bapp('isnan', U)
    e = bor(na, nb, rlt(U, L), req(L, INF), req(L, BIG), req(U, NINF), req(U, LOW))
    return bor(bnot(band(ieq(nl, n), ieq(nu_, n))), bnot(ball(i, ic(0), n, bnot(e))))


def bpre(db, name):
    NV.INTR['isnan'] = h2
    t = Task(db, B + '::' + name)
    NV.INTR['isnan'] = h2
    m = t.obj('M', K)
    ngi, nhi = t.nat('ngi'), t.nat('nhi')
    t.init('M.ng_internal_', ngi); t.init('M.nh_internal_', nhi)
    t.dims('M', lb_=(t.nat('k1'), 1), ub_=(t.nat('k2'), 1))
    return t, m, ngi, nhi


def kind_ok(t, name, g, h, pref='M.'):
    ty = t.cell(pref + 'type_', typ='ConstraintType')
    w = iite(band(ilt(ic(0), g), ilt(ic(0), h)), enum('Both'), iite(ilt(ic(0), g), enum('Inequality'), enum('Equality')))
    t.eq(name + ' kind', ty, w)
    t.eq(name + ' ng', t.ival(pref + 'ng_'), g); t.eq(name + ' nh', t.ival(pref + 'nh_'), h)


def quiet(t, what=''):
    t.rejected(lambda k: k.startswith('M.'))


def t_bounds(db):
    o = []
    term.IEEE[0] = True
    try:
        t, m, ngi, nhi = bpre(db, 'update_bounds')
        a, b = t.nat('a'), t.nat('b')
        t.call(m, B, 'update_bounds', [t.vec('l', a), t.vec('u', b)])
        t.throws_iff('ill-formed bounds', bad_bounds(a, b, ngi))
        t.eqt('lower', t.tval('M.lb_'), lambda i: rapp('l', i), ngi); t.eqt('upper', t.tval('M.ub_'), lambda i: rapp('u', i), ngi)
        kind_ok(t, 'restored', ngi, nhi)
        t.frame(['M.lb_', 'M.ub_', 'M.ng_', 'M.nh_', 'M.type_']); quiet(t); t.sides()
        o.append(t)
        t, m, ngi, nhi = bpre(db, 'remove_bounds')
        t.dims('M', lb_=(ngi, 1), ub_=(ngi, 1))
        t.call(m, B, 'remove_bounds', [])
        t.throws_iff('never', FALSE)
        t.eqt('lower', t.tval('M.lb_'), lambda i: NINF, ngi); t.eqt('upper', t.tval('M.ub_'), lambda i: INF, ngi)
        kind_ok(t, 'disabled', ic(0), iadd(nhi, ngi)) if False else None
        t.eq('no inequality', t.ival('M.ng_'), ic(0)); t.eq('all rows are equalities', t.ival('M.nh_'), iadd(nhi, ngi))
        t.eq('kind', t.cell('M.type_', typ='ConstraintType'), enum('Equality'))
        t.frame(['M.lb_', 'M.ub_', 'M.ng_', 'M.nh_', 'M.type_'])
        o.append(t)
    finally: term.IEEE[0] = False
    return o


def t_ctor(db):
    o = []
    for n in (5, 3):
        term.IEEE[0] = True
        try:
            NV.INTR['isnan'] = h2
            t = Task(db, K + '::constructor/%d' % n)
            NV.INTR['isnan'] = h2
            ex = t.ex
            m = t.obj('M', K)
            nr, nu = t.nat('nr'), t.nat('nu')
            ex.cls.update({'R': RM, 'S': SA, 'M.residual_': RM, 'M.state_': SA})
            t.init('R.nr_', nr); t.init('R.nu_', nu)
            a, b = t.nat('a'), t.nat('b')
            act = bapp('act')
            args = [oapp('S'), oapp('R')] + ([t.vec('l', a), t.vec('u', b)] if n == 5 else []) + [act]
            c, f = ex.find_ctor(K, n, args, t.st)
            ex.run(f, m, args, t.st)
            t.throws_iff('ill-formed bounds', bad_bounds(a, b, nr) if n == 5 else FALSE)
            if n == 5:
                t.eqt('lower', t.tval('M.lb_'), lambda i: rapp('l', i), nr); t.eqt('upper', t.tval('M.ub_'), lambda i: rapp('u', i), nr)
            t.eq('ng', t.ival('M.ng_'), nr if n == 5 else ic(0)); t.eq('nh', t.ival('M.nh_'), ic(0) if n == 5 else nr)
            t.eq('rows that bounds may have', t.ival('M.ng_internal_'), nr if n == 5 else ic(0)); t.eq('fixed equalities', t.ival('M.nh_internal_'), ic(0) if n == 5 else nr)
            t.eq('kind', t.cell('M.type_', typ='ConstraintType'), iite(ilt(ic(0), nr), enum('Inequality'), enum('Equality')) if n == 5 else enum('Equality'))
            t.holds('terminal', beq(t.cell('M.T_constraint_', typ='bool'), band(act, bor(bapp('R.q_dependent_'), bapp('R.v_dependent_')))))
            t.eq('control dimension', t.ival('M.nu_'), nu)
            t.sides()
            o.append(t)
        finally: term.IEEE[0] = False
    return o


TASKS = {'evaluation': t_eval, 'bounds': t_bounds, 'construction': t_ctor}


def t_data(db):
    """constraint data start with zeroed buffers of the sizes of the current kind; a constraint without rows has no data"""
    t, O = Task(db, DD + '::constructor'), (lambda *i: ZERO)
    nv, nx, nu, ng, nh = (t.nat(k) for k in ('nv', 'nx', 'nu', 'ng', 'nh'))
    ndx = iscale(nv, 2)
    m, X, sh = t.obj('M', K), t.obj('X', DD), t.obj('SH', 'DataCollectorAbstractTpl<double>')
    t.ex.cls.update({'M.residual_': RM, 'M.state_': SA})
    for k, v in (('state_.nv', nv), ('state_.ndx', ndx), ('state_.nx', nx), ('nu', nu), ('ng', ng), ('nh', nh)): t.init('M.%s_' % k, v)
    t.contract(RM, 'createData', lambda ex, st, obj, args, node: oapp('residual data'))
    c, f = t.ex.find_ctor(DD, 2, [m, sh], t.st); t.ex.run(f, X, [m, sh], t.st)
    t.throws_iff('no rows', band(ieq(ng, ic(0)), ieq(nh, ic(0))))
    for q, g in (('g', (O, ng)), ('Gx', (O, ng, ndx)), ('Gu', (O, ng, nu)), ('h', (O, nh)), ('Hx', (O, nh, ndx)), ('Hu', (O, nh, nu))): t.eqt('constructed ' + q, t.tval('X.' + q), *g)
    t.frame(['X.*'])
    return t


TASKS['data'] = t_data
