"""P07: squashed actuation."""
from spec import *

UNITS = ['actuation/squashing/smooth-sat', 'actuation/actuation-squashing', 'actuation-base', 'actuation/squashing-base', 'state-base']
HARNESS = 'h07'
NOTE = 'Smooth saturation for all limits, smoothness values and inputs (range, derivative, parameter updates); composition with any wrapped actuation and squashing model.'
ASSUME = ['the limits have the dimension of the squashing model, lower limits are below upper limits and the smoothness is positive']
Q = 'SquashingModelSmoothSatTpl<double>'
QA = 'SquashingModelAbstractTpl<double>'
QD = 'SquashingDataAbstractTpl<double>'
AM = 'ActuationModelAbstractTpl<double>'
AD = 'ActuationDataAbstractTpl<double>'
SM = 'ActuationSquashingModelTpl<double>'
SD = 'ActuationSquashingDataTpl<double>'
X = rapp('x!')
# without loss of generality the upper limit and the input are written relative to the lower limit
LB = lambda i: rapp('M.u_lb_', i)
UB = lambda i: add(LB(i), rapp('W', i))
s = lambda i: add(LB(i), rapp('e', i))


def svec(n): return Ten(n, 1, lambda i, j: s(i))


def width(i, sm=None): return rpow(mul(rapp('M.smooth_') if sm is None else sm, sub(UB(i), LB(i))), 2)


def sat(i, x, sm=None):
    """documented saturation of component i at x"""
    a = width(i, sm)
    return mul(num('1/2'), add(LB(i), UB(i), fn('sqrt', add(a, rpow(sub(x, LB(i)), 2))), mul(num(-1), fn('sqrt', add(a, rpow(sub(x, UB(i)), 2))))))


def base(db, name):
    t = Task(db, Q + '::' + name)
    m, d = t.obj('M', Q), t.obj('D', QD)
    n = t.nat('n')
    t.init('M.ns_', n)
    t.dims('M', u_lb_=(n, 1), u_ub_=(n, 1), s_lb_=(n, 1), s_ub_=(n, 1), d_=(n, 1), a_=(n, 1))
    t.dims('D', u=(n, 1))
    t.init('M.u_ub_', lambda *x: Ten(n, 1, lambda i, j: UB(i)))
    # model invariant (constructor, set_smooth): the rounding is the squared width; data invariant: a diagonal Jacobian
    t.init('M.a_', lambda *x: Ten(n, 1, lambda i, j: width(i)))
    t.init('M.d_', lambda *x: Ten(n, 1, lambda i, j: mul(rapp('M.smooth_'), sub(UB(i), LB(i)))))
    t.init('D.du_ds', lambda *x: Ten(n, n, lambda i, j: ite(ieq(i, j), rapp('D.du_ds', i), ZERO)))
    t.require(rlt(ZERO, rapp('M.smooth_')))
    return t, m, d, n


def check_map(t, m, d, n, sm=None):
    t.call(m, Q, 'calc', [d, svec(n)])
    t.eqt('saturation', t.tval('D.u'), lambda i: sat(i, s(i), sm), n)
    i = iv(fresh('i'))
    fx = [ile(ic(0), i), ilt(i, n), rlt(LB(i), UB(i))]
    fx.append(rlt(ZERO, width(i, sm)))          # product of non-zero numbers
    v = t.tval('D.u').at(i, ic(0))
    t.holds('above the lower limit', rlt(LB(i), v), extra=fx)
    t.holds('below the upper limit', rlt(v, UB(i)), extra=fx)
    t.call(m, Q, 'calcDiff', [d, svec(n)])
    t.eqt('derivative', t.tval('D.du_ds'), lambda i, j: ite(ieq(i, j), NF.replace_atom(deriv(sat(i, X, sm), X), X, s(i)), ZERO), n, n)
    t.eqt('saturation kept', t.tval('D.u'), lambda i: sat(i, s(i), sm), n)
    t.throws_iff('calls', FALSE)
    t.sides()


def t_sat(db):
    o = []
    t, m, d, n = base(db, 'calc; calcDiff')
    check_map(t, m, d, n); t.frame(['D.u', 'D.du_ds'])
    o.append(t)
    t, m, d, n = base(db, 'set_smooth; calc; calcDiff')
    v = rapp('v')
    t.call(m, Q, 'set_smooth', [v])
    t.throws_iff('smoothness', rlt(v, ZERO))
    t.eq('stored', t.rval('M.smooth_'), v)
    t.eq('getter', t.ex.rval(t.call(m, Q, 'get_smooth', []), t.st), v)
    t.eqt('rounding', t.tval('M.a_'), lambda i: width(i, v), n)
    t.eqt('width', t.tval('M.d_'), lambda i: mul(v, sub(UB(i), LB(i))), n)
    t.eqt('lower bound of the input', t.tval('M.s_lb_'), LB, n); t.eqt('upper bound of the input', t.tval('M.s_ub_'), UB, n)
    t.frame(['M.smooth_', 'M.a_', 'M.d_', 'M.s_lb_', 'M.s_ub_'])
    t.rejected(lambda k: k.startswith('M.'))
    o.append(t)
    t, m, d, n = base(db, 'set_smooth; calc; calcDiff')
    t.require(rlt(ZERO, v))
    t.call(m, Q, 'set_smooth', [v]); check_map(t, m, d, n, v)
    o.append(t)
    t, m, d, n = base(db, 'set_s_lb; set_s_ub; calc; calcDiff')
    t.call(m, QA, 'set_s_lb', [t.vec('l', n)]); t.call(m, QA, 'set_s_ub', [t.vec('h', n)])
    t.eqt('stored lower', t.tval('M.s_lb_'), lambda i: rapp('l', i), n); t.eqt('stored upper', t.tval('M.s_ub_'), lambda i: rapp('h', i), n)
    t.frame(['M.s_lb_', 'M.s_ub_'])
    check_map(t, m, d, n)
    o.append(t)
    t = Task(db, Q + '::constructor')
    n = t.nat('n')
    args = [t.vec('M.u_lb_', n), Ten(n, 1, lambda i, j: UB(i)), n]
    c, f = t.ex.find_ctor(Q, 3, args, t.st)
    m = t.obj('M', Q)
    t.ex.run(f, m, args, t.st)
    t.throws_iff('dimension', ieq(n, ic(0)))
    t.eq('number of inputs', t.ival('M.ns_'), n)
    t.eq('smoothness', t.rval('M.smooth_'), num('1/10'))
    for k, g in (('u_lb_', LB), ('u_ub_', UB), ('s_lb_', LB), ('s_ub_', UB)): t.eqt(k, t.tval('M.' + k), g, n)
    t.eqt('rounding', t.tval('M.a_'), lambda i: width(i, num('1/10')), n)
    t.eqt('width', t.tval('M.d_'), lambda i: mul(num('1/10'), sub(UB(i), LB(i))), n)
    o.append(t)
    t, m, d, n = base(db, 'createData')
    r = t.call(m, QA, 'createData', [])
    t.eqt('squashed input of a new data', t.tval(r.a[0] + '.u', *r.a[1]), lambda i: ZERO, n)
    t.eqt('Jacobian of a new data', t.tval(r.a[0] + '.du_ds', *r.a[1]), lambda i, j: ZERO, n, n)
    o.append(t)
    return o


def cbase(db, name):
    t = Task(db, SM + '::' + name)
    m, d = t.obj('M', SM), t.obj('D', SD)
    nv, nx, ndx, nu, na = (t.nat(k) for k in ('nv', 'nx', 'ndx', 'nu', 'na'))
    t.init('M.nu_', nu)
    ex = t.ex
    for k, c in (('M.squashing_', QA), ('M.actuation_', AM), ('D.squashing', QD), ('D.actuation', AD)): ex.cls[k] = c
    t.dims('D', tau=(nv, 1), u=(nu, 1), dtau_dx=(nv, ndx), dtau_du=(nv, nu), Mtau=(nu, nv))
    t.dims('D.squashing', u=(na, 1), du_ds=(na, nu))
    t.dims('D.actuation', tau=(nv, 1), dtau_dx=(nv, ndx), dtau_du=(nv, na))
    log = []

    def put(key, name, r, c, *ar):
        t.ex.write(t_st[0], key, (), VEC if isinstance(c, int) else MAT, Ten(r, c, lambda i, j: rapp(name, *(ar + ((i,) if isinstance(c, int) else (i, j))))))
    t_st = [None]

    def ten(st, a): return ex.ten(a, st)

    def sq(diff):
        def h(ex, st, obj, args, node):
            if obj is m: return NotImplemented
            t_st[0] = st
            x = ten(st, args[1]).lam()
            if diff: put('D.squashing.du_ds', 'dsq', na, nu, x)
            else: put('D.squashing.u', 'sq', na, 1, x)
            return None
        return h

    def ac(diff):
        def h(ex, st, obj, args, node):
            if obj is m: return NotImplemented
            t_st[0] = st
            x, u = ten(st, args[1]).lam(), ten(st, args[2]).lam()
            if diff:
                put('D.actuation.dtau_dx', 'dtx', nv, ndx, x, u); put('D.actuation.dtau_du', 'dtu', nv, na, x, u)
            else: put('D.actuation.tau', 'tau', nv, 1, x, u)
            return None
        return h
    t.contract(QA, 'calc', sq(False)); t.contract(QA, 'calcDiff', sq(True))
    t.contract(AM, 'calc', ac(False)); t.contract(AM, 'calcDiff', ac(True))
    return t, m, d, nv, nx, ndx, nu, na


def t_comp(db):
    o = []
    t, m, d, nv, nx, ndx, nu, na = cbase(db, 'calc; calcDiff')
    x, u = t.vec('x', nx), t.vec('u', nu)
    t.call(m, SM, 'calc', [d, x, u])
    su = Ten(na, 1, lambda i, j: rapp('sq', u.lam(), i))
    t.eqt('generalised torques', t.tval('D.tau'), lambda i: rapp('tau', x.lam(), su.lam(), i), nv)
    t.call(m, SM, 'calcDiff', [d, x, u])
    t.eqt('control Jacobian', t.tval('D.dtau_du'), lambda i, j: dotsum(na, lambda k: mul(rapp('dtu', x.lam(), su.lam(), i, k), rapp('dsq', u.lam(), k, j))), nv, nu)
    t.eqt('state Jacobian', t.tval('D.dtau_dx'), lambda i, j: rapp('dtx', x.lam(), su.lam(), i, j), nv, ndx)
    t.eqt('generalised torques kept', t.tval('D.tau'), lambda i: rapp('tau', x.lam(), su.lam(), i), nv)
    t.frame(['D.tau', 'D.tau_set*', 'D.dtau_du', 'D.dtau_dx', 'D.squashing.*', 'D.actuation.*'])
    t.throws_iff('calls', FALSE); t.sides()
    o.append(t)
    return o


TASKS = {'saturation': t_sat, 'composition': t_comp}


def t_data(db):
    """data of a squashed actuation: buffers of the sizes its evaluation relies on, zeroed, and data made by its own squashing model and wrapped actuation"""
    t, m, d, nv, nx, ndx, nu, na = cbase(db, 'data')
    t.fn_ = SD + '::constructor'
    t.ex.cls['M.state_'] = 'StateAbstractTpl<double>'
    t.init('M.state_.nv_', nv); t.init('M.state_.ndx_', ndx); t.init('M.state_.nx_', nx)
    for c in (QA, AM):
        t.contract(c, 'createData', lambda ex, st, obj, args, node: oapp('data of ' + obj.a[0]))
    X = t.obj('X', SD)
    c, f = t.ex.find_ctor(SD, 1, [m], t.st); t.ex.run(f, X, [m], t.st)
    O = lambda *i: ZERO
    for q, g in dict(tau=(O, nv), u=(O, nu), dtau_dx=(O, nv, ndx), dtau_du=(O, nv, nu), Mtau=(O, nu, nv)).items(): t.eqt('constructed ' + q, t.tval('X.' + q), *g)
    t.holds('data of the squashing model', oeq(t.cell('X.squashing', typ='shared_ptr'), oapp('data of M.squashing_')))
    t.holds('data of the wrapped actuation', oeq(t.cell('X.actuation', typ='shared_ptr'), oapp('data of M.actuation_')))
    t.throws_iff('never', FALSE); t.sides(shapes=False)
    t.frame(['X.*'])
    return t


TASKS['data'] = t_data
