"""P08: vector state."""
from spec import *

UNITS = ['states/euclidean', 'state-base']
HARNESS = 'h08'
S = 'StateVectorTpl<double>'
NOTE = 'All dimensions, all components, all assignment modes; round trips are proved through the real bodies of integrate and diff.'


def base(db, name):
    t = Task(db, S + '::' + name)
    s = t.obj('S', S)
    n = t.nat('n')
    t.init('S.nx_', n); t.init('S.ndx_', n)
    return t, s, n


def out(t, name, n, c=1):
    """caller's output argument of n x c"""
    t.ex.dims[name] = lambda *i: (toint(n), toint(c))
    if isinstance(c, int) and c == 1: return LRef(name, (), VEC)
    return LRef(name, (), MAT)


def noeffect(t, names):
    t.rejected(lambda k: k in names)


def t_int(db):
    t, s, n = base(db, 'integrate')
    a, b, c = t.nat('a'), t.nat('b'), t.nat('c')
    t.call(s, S, 'integrate', [t.vec('x', a), t.vec('v', b), out(t, 'y', c)])
    t.throws_iff('sizes', bnot(band(ieq(a, n), ieq(b, n), ieq(c, n))))
    t.eqt('result', t.tval('y'), lambda i: add(rapp('x', i), rapp('v', i)), n)
    t.frame(['y']); noeffect(t, ['y']); t.sides()
    return t


def t_diff(db):
    t, s, n = base(db, 'diff')
    a, b, c = t.nat('a'), t.nat('b'), t.nat('c')
    t.call(s, S, 'diff', [t.vec('x', a), t.vec('y', b), out(t, 'd', c)])
    t.throws_iff('sizes', bnot(band(ieq(a, n), ieq(b, n), ieq(c, n))))
    t.eqt('result', t.tval('d'), lambda i: sub(rapp('y', i), rapp('x', i)), n)
    t.frame(['d']); noeffect(t, ['d']); t.sides()
    return t


def t_round(db):
    o = []
    t, s, n = base(db, 'integrate(x, diff(x, y)) = y')
    x, y = t.vec('x', n), t.vec('y', n)
    d = out(t, 'd', n); z = out(t, 'z', n)
    t.call(s, S, 'diff', [x, y, d]); t.call(s, S, 'integrate', [x, d, z])
    t.eqt('recovers the second state', t.tval('z'), lambda i: rapp('y', i), n); t.throws_iff('round trip', FALSE)
    o.append(t)
    t, s, n = base(db, 'diff(x, integrate(x, v)) = v')
    x, v = t.vec('x', n), t.vec('v', n)
    y = out(t, 'y', n); d = out(t, 'd', n)
    t.call(s, S, 'integrate', [x, v, y]); t.call(s, S, 'diff', [x, y, d])
    t.eqt('recovers the increment', t.tval('d'), lambda i: rapp('v', i), n); t.throws_iff('round trip', FALSE)
    o.append(t)
    # the same through the value-returning wrappers, and in place
    t, s, n = base(db, 'integrate_x(x, diff_dx(x, y)) = y')
    d = t.call(s, 'StateAbstractTpl<double>', 'diff_dx', [t.vec('x', n), t.vec('y', n)])
    z = t.call(s, 'StateAbstractTpl<double>', 'integrate_x', [t.vec('x', n), d])
    t.eqt('recovers the second state', t.ex.ten(z, t.st), lambda i: rapp('y', i), n); t.throws_iff('round trip', FALSE)
    o.append(t)
    t, s, n = base(db, 'integrate in place')
    x = out(t, 'x', n)
    t.call(s, S, 'integrate', [x, t.vec('v', n), x])
    t.eqt('result', t.tval('x'), lambda i: add(rapp('x', i), rapp('v', i)), n)
    o.append(t)
    t, s, n = base(db, 'zero')
    z = t.call(s, S, 'zero', [])
    t.eqt('origin', t.ex.ten(z, t.st), lambda i: ZERO, n)
    o.append(t)
    return o


I = lambda i, j: ite(ieq(i, j), ONE, ZERO)
COMP = {'both': (1, 1), 'first': (1, 0), 'second': (0, 1)}


def t_jdiff(db):
    o = []
    for comp, (a, b) in COMP.items():
        t, s, n = base(db, 'Jdiff(%s)' % comp)
        r1, c1, r2, c2 = t.nat('r1'), t.nat('c1'), t.nat('r2'), t.nat('c2')
        J1, J2 = out(t, 'J1', r1, c1), out(t, 'J2', r2, c2)
        t.call(s, S, 'Jdiff', [t.vec('x', n), t.vec('y', n), J1, J2, enum(comp)])
        bad = []
        if a: bad.append(bnot(band(ieq(r1, n), ieq(c1, n))))
        if b: bad.append(bnot(band(ieq(r2, n), ieq(c2, n))))
        t.throws_iff('sizes', bor(*bad))
        if a: t.eqt('d diff / d first', t.tval('J1'), lambda i, j: mul(num(-1), I(i, j)), n, n)
        if b: t.eqt('d diff / d second', t.tval('J2'), I, n, n)
        t.frame((['J1'] if a else []) + (['J2'] if b else [])); t.sides()
        o.append(t)
    return o


def t_jint(db):
    o = []
    for comp, (a, b) in COMP.items():
        for op in ('setto', 'addto', 'rmfrom'):
            t, s, n = base(db, 'Jintegrate(%s, %s)' % (comp, op))
            r1, c1, r2, c2 = t.nat('r1'), t.nat('c1'), t.nat('r2'), t.nat('c2')
            J1, J2 = out(t, 'J1', r1, c1), out(t, 'J2', r2, c2)
            t.call(s, S, 'Jintegrate', [t.vec('x', n), t.vec('v', n), J1, J2, enum(comp), enum(op)])
            bad = []
            if a: bad.append(bnot(band(ieq(r1, n), ieq(c1, n))))
            if b: bad.append(bnot(band(ieq(r2, n), ieq(c2, n))))
            t.throws_iff('sizes', bor(*bad))
            for q, nm in ((a, 'J1'), (b, 'J2')):
                if not q: continue
                w = {'setto': I, 'addto': lambda i, j: add(rapp(nm, i, j), I(i, j)), 'rmfrom': lambda i, j: sub(rapp(nm, i, j), I(i, j))}[op]
                t.eqt('%s of d integrate / d %s' % (op, 'x' if nm == 'J1' else 'dx'), t.tval(nm), w, n, n)
            t.frame((['J1'] if a else []) + (['J2'] if b else [])); t.sides()
            o.append(t)
    # one matrix for both components, as the integrators pass it
    t, s, n = base(db, 'Jintegrate(both, setto) into one matrix')
    J = out(t, 'J', n, n)
    t.call(s, S, 'Jintegrate', [t.vec('x', n), t.vec('v', n), J, J, enum('both'), enum('setto')])
    t.eqt('identity', t.tval('J'), I, n, n)
    o.append(t)
    return o


def t_trans(db):
    o = []
    for comp in COMP:
        t, s, n = base(db, 'JintegrateTransport(%s)' % comp)
        c = t.nat('c')
        J = out(t, 'J', n, c)
        try: t.call(s, S, 'JintegrateTransport', [t.vec('x', n), t.vec('v', n), J, enum(comp)])
        except AllThrow:
            t.holds('both components are rejected', tobool(comp == 'both'))
            o.append(t); continue
        t.throws_iff('component', tobool(comp == 'both'))
        # d integrate / d x = d integrate / d dx = identity on a vector space
        t.eqt('product with the identity', t.tval('J'), lambda i, j: rapp('J', i, j), n, c)
        t.frame(['J'])
        o.append(t)
    return o


def t_ctor(db):
    t = Task(db, S + '::StateVector')
    ex = t.ex
    ex.cls['S'] = S
    n = t.nat('n')
    c, f = ex.find_ctor(S, 1, [n], t.st)
    ex.run(f, oapp('S'), [n], t.st)
    for k, v in (('nx_', n), ('ndx_', n)): t.eq(k, ex.read(t.st, 'S.' + k, (), 'size_t'), v)
    t.eq('nq + nv', iadd(ex.read(t.st, 'S.nq_', (), 'size_t'), ex.read(t.st, 'S.nv_', (), 'size_t')), n)
    return t


def t_js(db):
    o = []
    for m in ('Jdiff_Js', 'Jintegrate_Js'):
        for comp, (a, b) in COMP.items():
            t, s, n = base(db, '%s(%s)' % (m, comp))
            r = t.call(s, 'StateAbstractTpl<double>', m, [t.vec('x', n), t.vec('y', n), enum(comp)])
            t.eq('number of Jacobians', t.ex.vsize(r, t.st), ic(a + b))
            first = (lambda i, j: mul(num(-1), I(i, j))) if m == 'Jdiff_Js' else I
            want = ([first] if a else []) + ([I] if b else [])
            for q, w in enumerate(want):
                t.eqt('Jacobian %d' % q, t.ex.read(t.st, r.key + '[*]', tuple(r.idx) + (ic(q),), MAT), w, n, n)
            o.append(t)
    return o


TASKS = {'integrate': t_int, 'diff': t_diff, 'round trips': t_round, 'Jdiff': t_jdiff, 'Jintegrate': t_jint, 'transport': t_trans, 'constructor': t_ctor, 'Js': t_js}
