"""P05: control parametrisations."""
from spec import *

UNITS = ['controls/poly-zero', 'controls/poly-one', 'controls/poly-two-rk', 'control-base']
HARNESS = 'h05'
BASE = 'ControlParametrizationModelAbstractTpl<double>'
NOTE = 'Constant, linear and quadratic (RK3/RK4) parametrisations for any control dimension, time fraction and assignment mode.'
ASSUME = ['calcDiff and the Jacobian products are called after calc at the same time fraction with the same data (documented calling order)']
z2 = lambda *a: num(a[0])
KINDS = {'zero': ('PolyZero', 1), 'one': ('PolyOne', 2), 'rk3': ('PolyTwoRK', 3), 'rk4': ('PolyTwoRK', 3)}
tt = rapp('t')


def coef(kind):
    """interpolation weights of the documented nodes, as Lagrange polynomials"""
    nodes = {'zero': [num(0)], 'one': [num(0), num('1/2')], 'rk3': [num(0), num('1/3'), num('2/3')], 'rk4': [num(0), num('1/2'), num(1)]}[kind]
    out = []
    for a, na in enumerate(nodes):
        e = ONE
        for b, nb in enumerate(nodes):
            if b != a: e = mul(e, sub(tt, nb), inv(sub(na, nb)))
        out.append(e)
    return out


def cls(kind): return 'ControlParametrizationModel%sTpl<double>' % KINDS[kind][0]
def dcls(kind): return 'ControlParametrizationData%sTpl<double>' % KINDS[kind][0] if kind != 'zero' else 'ControlParametrizationDataAbstractTpl<double>'


def base(db, kind, name):
    t = Task(db, cls(kind) + '::' + name)
    m, d = t.obj('M', cls(kind)), t.obj('D', dcls(kind))
    nw = t.nat('nw'); q = KINDS[kind][1]; nu = iscale(nw, q)
    t.init('M.nw_', nw); t.init('M.nu_', nu)
    if kind.startswith('rk'): t.init('M.rktype_', enum('three' if kind == 'rk3' else 'four'))
    t.dims('D', w=(nw, 1), u=(nu, 1))
    # data invariant: the Jacobian is zero off the block diagonals (established by createData, kept by every method)
    if kind == 'zero': f = lambda i, j: ite(ieq(i, j), ONE, ZERO)
    else: f = lambda i, j: ite(bor(*[ieq(j, iadd(i, iscale(nw, k))) for k in range(q)]), rapp('D.dw_du', i, j), ZERO)
    t.init('D.dw_du', lambda *i: Ten(nw, nu, f))
    return t, m, d, nw, nu, q


def J(kind, nw, i, j):
    return add(*[ite(ieq(j, iadd(i, iscale(nw, k))), c, ZERO) for k, c in enumerate(coef(kind))])


def out(t, name, n, c=1):
    t.ex.dims[name] = lambda *i: (toint(n), toint(c))
    return LRef(name, (), VEC if isinstance(c, int) else MAT)


def noeffect(t, names):
    t.rejected(lambda k: any(k.startswith(x) for x in names))


def t_calc(kind):
    def go(db):
        o = []
        t, m, d, nw, nu, q = base(db, kind, 'calc')
        s = t.nat('s')
        u = t.vec('u', s)
        t.call(m, cls(kind), 'calc', [d, tt, u])
        t.throws_iff('size', bnot(ieq(s, nu)))
        t.eqt('control', t.tval('D.w'), lambda i: add(*[mul(c, rapp('u', iadd(i, iscale(nw, k)))) for k, c in enumerate(coef(kind))]), nw)
        t.frame(['D.w', 'D.c', 'D.tmp_t2']); noeffect(t, ['D.', 'M.']); t.sides()
        o.append(t)
        t, m, d, nw, nu, q = base(db, kind, 'calcDiff')
        u = t.vec('u', nu)
        t.call(m, cls(kind), 'calc', [d, tt, u]); t.call(m, cls(kind), 'calcDiff', [d, tt, u])
        t.eqt('Jacobian', t.tval('D.dw_du'), lambda i, j: J(kind, nw, i, j), nw, nu)
        t.eqt('linear map', t.tval('D.w'), lambda i: dotsum(nu, lambda k: mul(J(kind, nw, i, k), rapp('u', k))), nw)
        t.frame(['D.w', 'D.c', 'D.tmp_t2', 'D.dw_du']); t.sides()
        o.append(t)
        t, m, d, nw, nu, q = base(db, kind, 'params')
        s = t.nat('s')
        w = t.vec('w', s)
        t.call(m, cls(kind), 'params', [d, rapp('t0'), w])
        t.throws_iff('size', bnot(ieq(s, nw)))
        t.eqt('parameters', t.tval('D.u'), lambda j: add(*[ite(band(ile(iscale(nw, k), j), ilt(j, iscale(nw, k + 1))), rapp('w', isub(j, iscale(nw, k))), ZERO) for k in range(q)]), nu)
        t.frame(['D.u']); noeffect(t, ['D.', 'M.']); t.sides()
        o.append(t)
        t, m, d, nw, nu, q = base(db, kind, 'params then calc')
        t.call(m, cls(kind), 'params', [d, rapp('t0'), t.vec('w', nw)])
        t.call(m, cls(kind), 'calc', [d, tt, t.tval('D.u')])
        t.eqt('control is reproduced at every time fraction', t.tval('D.w'), lambda i: rapp('w', i), nw)
        t.throws_iff('round trip', FALSE)
        o.append(t)
        t, m, d, nw, nu, q = base(db, kind, 'convertBounds')
        a, b, c, e = t.nat('a'), t.nat('b'), t.nat('c'), t.nat('e')
        t.call(m, cls(kind), 'convertBounds', [t.vec('wl', a), t.vec('wu', b), out(t, 'ul', c), out(t, 'uu', e)])
        t.throws_iff('sizes', bnot(band(ieq(a, nw), ieq(b, nw), ieq(c, nu), ieq(e, nu))))
        for n, w in (('ul', 'wl'), ('uu', 'wu')):
            t.eqt('parameter bounds ' + n, t.tval(n), lambda j: add(*[ite(band(ile(iscale(nw, k), j), ilt(j, iscale(nw, k + 1))), rapp(w, isub(j, iscale(nw, k))), ZERO) for k in range(q)]), nu)
        t.frame(['ul', 'uu']); noeffect(t, ['ul', 'uu', 'D.', 'M.']); t.sides()
        o.append(t)
        return o
    return go


OPS = ('setto', 'addto', 'rmfrom')


def t_mul(kind):
    def go(db):
        o = []
        for op in OPS:
            for left in (True, False):
                for wrap in (False, True):
                    name = ('multiplyByJacobian' if left else 'multiplyJacobianTransposeBy') + ('_J' if wrap else '')
                    t, m, d, nw, nu, q = base(db, kind, '%s(%s)' % (name, op))
                    t.call(m, cls(kind), 'calc', [d, tt, t.vec('u', nu)])
                    r, c, r2, c2 = t.nat('r'), t.nat('c'), t.nat('r2'), t.nat('c2')
                    A = t.mat('A', r, c)
                    nthrow = len(t.ex.throws)
                    if wrap:
                        X = t.call(m, BASE, name, [d, A, enum(op)])
                        t.throws_iff('sizes', bnot(ieq(c if left else r, nw)))
                        X = t.ex.ten(X, t.st)
                        old = lambda i, j: ZERO
                    else:
                        t.call(m, cls(kind), name, [d, A, out(t, 'O', r2, c2), enum(op)])
                        t.throws_iff('sizes', bnot(band(ieq(r, r2), ieq(c, nw), ieq(c2, nu)) if left else band(ieq(c, c2), ieq(r, nw), ieq(r2, nu))))
                        X = t.tval('O')
                        old = lambda i, j: rapp('O', i, j)
                        t.frame(['O', 'D.w', 'D.c', 'D.tmp_t2'])
                        t.rejected(lambda k: k == 'O')
                    if left: P = lambda i, j: dotsum(nw, lambda k: mul(rapp('A', i, k), J(kind, nw, k, j)))
                    else: P = lambda i, j: dotsum(nw, lambda k: mul(J(kind, nw, k, i), rapp('A', k, j)))
                    want = {'setto': P, 'addto': lambda i, j: add(old(i, j), P(i, j)), 'rmfrom': lambda i, j: sub(old(i, j), P(i, j))}[op]
                    t.eqt('product', X, want, *((r, nu) if left else (nu, c)))
                    t.sides()
                    o.append(t)
        return o
    return go


def t_ctor(kind):
    def go(db):
        o = []
        t = Task(db, cls(kind) + '::constructor')
        ex = t.ex; ex.cls['M'] = cls(kind)
        nw = t.nat('nw')
        rk = kind.startswith('rk')
        args = [nw] + ([enum('three' if kind == 'rk3' else 'four')] if rk else [])
        c, f = ex.find_ctor(cls(kind), len(args), args, t.st)
        ex.run(f, oapp('M'), args, t.st)
        t.eq('control dimension', ex.read(t.st, 'M.nw_', (), 'size_t'), nw)
        t.eq('parameter dimension', ex.read(t.st, 'M.nu_', (), 'size_t'), iscale(nw, KINDS[kind][1]))
        if rk: t.eq('scheme', ex.read(t.st, 'M.rktype_', (), 'crocoddyl::RKType'), args[1])
        o.append(t)
        t, m, d, nw, nu, q = base(db, kind, 'createData')
        r = t.call(m, cls(kind), 'createData', [])
        g = (lambda i, j: ite(ieq(i, j), ONE, ZERO)) if kind == 'zero' else (lambda i, j: ZERO)
        t.eqt('constructed Jacobian', t.ex.read(t.st, r.a[0] + '.dw_du', r.a[1], MAT), g, nw, nu)
        o.append(t)
        return o
    return go


TASKS = {}
for _k in KINDS:
    TASKS['maps ' + _k] = t_calc(_k)
    TASKS['products ' + _k] = t_mul(_k)
    TASKS['constructors ' + _k] = t_ctor(_k)
