"""P02: unicycle action."""
from spec import *

UNITS = ['actions/unicycle', 'action-base', 'states/euclidean', 'state-base']
HARNESS = 'h02'
M, DT = 'ActionModelUnicycleTpl<double>', 'ActionDataUnicycleTpl<double>'
ASSUME = ['data->Fx, Fu, Lxx, Luu, Lxu hold, outside the entries calcDiff writes, what the data constructor stored (the constructor task and the frame obligations of every evaluation establish and preserve this)']

DATA0 = {'Fx': lambda i, j: ite(ieq(i, j), ONE, ZERO), 'Fu': lambda i, j: ZERO, 'Lxx': lambda i, j: ZERO, 'Luu': lambda i, j: ZERO, 'Lxu': lambda i, j: ZERO}
# entries an evaluation may write; everything else keeps its constructed value
DYN = {'Fx': lambda i, j: band(ieq(j, 2), ilt(i, 2)),
       'Fu': lambda i, j: bor(band(ieq(j, 0), ilt(i, 2)), band(ieq(j, 1), ieq(i, 2))),
       'Lxx': lambda i, j: ieq(i, j), 'Luu': lambda i, j: ieq(i, j), 'Lxu': lambda i, j: FALSE}
SH = {'Fx': (3, 3), 'Fu': (3, 2), 'Lxx': (3, 3), 'Luu': (2, 2), 'Lxu': (3, 2)}


def setup(db, inv=True):
    t = Task(db, '')
    m, d = t.obj('M', M), t.obj('D', DT)
    t.setcls('M.state_', 'StateVectorTpl<double>')
    t.init('M.state_.nx_', ic(3)); t.init('M.state_.ndx_', ic(3)); t.init('M.nu_', ic(2)); t.init('M.nr_', ic(5))
    t.init('M.ng_', ic(0)); t.init('M.nh_', ic(0)); t.init('M.ng_T_', ic(0)); t.init('M.nh_T_', ic(0))
    t.dims('M', cost_weights_=(2, 1))
    std_action_data(t, 'D', 3, 3, 2, 5, 0, 0)
    if inv:
        for f, g in DATA0.items():
            r, c = SH[f]
            t.init('D.' + f, (lambda f, g, r, c: lambda *idx: Ten(ic(r), ic(c), lambda i, j: ite(DYN[f](i, j), rapp('D.' + f, i, j), g(i, j))))(f, g, r, c))
    nx, nu = t.nat('nxarg'), t.nat('nuarg')
    x, u = t.vec('x', nx), t.vec('u', nu)
    return t, m, d, x, u, nx, nu


X = [rapp('x', ic(i)) for i in range(3)]
U = [rapp('u', ic(i)) for i in range(2)]
dt, wx, wu = rapp('M.dt_'), rapp('M.cost_weights_', ic(0)), rapp('M.cost_weights_', ic(1))


def F(term):
    if term: return list(X)
    return [add(X[0], mul(fn('cos', X[2]), U[0], dt)), add(X[1], mul(fn('sin', X[2]), U[0], dt)), add(X[2], mul(U[1], dt))]


def cost(term):
    z = [mul(wx, x) for x in X] + ([] if term else [mul(wu, u) for u in U])
    return mul(num('1/2'), add(*[rpow(a, 2) for a in z]))


def go(diff, term):
    def f(db):
        t, m, d, x, u, nx, nu = setup(db)
        name = 'calcDiff' if diff else 'calc'
        t.fn_ = M + '::' + name
        t.call(m, M, name, [d, x] if term else [d, x, u])
        t.throws_iff('argument sizes', bnot(ieq(nx, 3)) if term else bor(bnot(ieq(nx, 3)), bnot(ieq(nu, 2))))
        if not diff:
            xn = t.tval('D.xnext')
            for i, e in enumerate(F(term)): t.eq('next state %d' % i, xn.at(ic(i), ic(0)), e)
            t.eq('cost', t.rval('D.cost'), cost(term))
            t.frame(['D.xnext', 'D.cost', 'D.r'])
        else:
            e = cost(term)
            for i in range(3):
                t.eq('Lx %d' % i, t.tval('D.Lx').at(ic(i), ic(0)), deriv(e, X[i]))
                for j in range(3):
                    t.eq('Lxx %d %d' % (i, j), t.tval('D.Lxx').at(ic(i), ic(j)), deriv(deriv(e, X[i]), X[j]))
                    if not term: t.eq('Fx %d %d' % (i, j), t.tval('D.Fx').at(ic(i), ic(j)), deriv(F(term)[i], X[j]))
                if not term:
                    for j in range(2):
                        t.eq('Fu %d %d' % (i, j), t.tval('D.Fu').at(ic(i), ic(j)), deriv(F(term)[i], U[j]))
                        t.eq('Lxu %d %d' % (i, j), t.tval('D.Lxu').at(ic(i), ic(j)), deriv(deriv(e, X[i]), U[j]))
            if not term:
                for i in range(2):
                    t.eq('Lu %d' % i, t.tval('D.Lu').at(ic(i), ic(0)), deriv(e, U[i]))
                    for j in range(2): t.eq('Luu %d %d' % (i, j), t.tval('D.Luu').at(ic(i), ic(j)), deriv(deriv(e, U[i]), U[j]))
            t.frame(['D.' + k for k in ('Lx', 'Lxx') + (() if term else ('Lu', 'Luu', 'Fx', 'Fu'))])
            for q in DATA0:
                i, j = iv('i'), iv('j')
                r, c = SH[q]
                t.eq('data invariant of %s' % q, t.tval('D.' + q).at(i, j), DATA0[q](i, j),
                     extra=[ile(0, i), ilt(i, r), ile(0, j), ilt(j, c), bnot(DYN[q](i, j))])
        # a rejected call changes nothing
        t.rejected(lambda k: k.startswith(('D.', 'M.')))
        t.sides()
        return t
    return f


def t_data(db):
    t, m, d, x, u, nx, nu = setup(db, inv=False)
    t.fn_ = DT + '::ActionDataUnicycle'
    ex = t.ex
    c, f = ex.find_ctor(DT, 1, [m], t.st)
    ex.run(f, d, [m], t.st)
    for q, g in DATA0.items(): t.eqt('constructed ' + q, t.tval('D.' + q), g, *SH[q])
    t.eqt('constructed Lx', t.tval('D.Lx'), lambda i: ZERO, 3); t.eqt('constructed Lu', t.tval('D.Lu'), lambda i: ZERO, 2)
    return t


def t_ctor(db):
    t = Task(db, ''); t.fn_ = M + '::ActionModelUnicycle'
    ex = t.ex
    ex.cls['M'] = M
    c, f = ex.find_ctor(M, 0, [], t.st)
    ex.run(f, oapp('M'), [], t.st)
    t.eq('control dimension', t.ex.read(t.st, 'M.nu_', (), 'size_t'), ic(2))
    t.eq('residual dimension', t.ex.read(t.st, 'M.nr_', (), 'size_t'), ic(5))
    t.holds('time step positive', rlt(ZERO, t.rval('M.dt_')))
    t.eq('state weight', t.tval('M.cost_weights_').at(ic(0), ic(0)), num(10))
    t.eq('control weight', t.tval('M.cost_weights_').at(ic(1), ic(0)), num(1))
    return t


def t_set(db):
    out = []
    t = Task(db, ''); t.fn_ = M + '::set_dt'
    m = t.obj('M', M)
    v = rapp('v')
    t.call(m, M, 'set_dt', [v])
    t.throws_iff('set_dt', rle(v, ZERO))
    t.eq('stored', t.rval('M.dt_'), v)
    t.frame(['M.dt_'])
    out.append(t)
    t = Task(db, ''); t.fn_ = M + '::set_cost_weights'
    m = t.obj('M', M); t.dims('M', cost_weights_=(2, 1))
    t.call(m, M, 'set_cost_weights', [t.vec('w', ic(2))])
    t.eqt('stored weights', t.tval('M.cost_weights_'), lambda i: rapp('w', i), 2)
    t.frame(['M.cost_weights_'])
    out.append(t)
    return out


TASKS = {'%s%s' % ('calcDiff' if a else 'calc', ' terminal' if b else ''): go(a, b) for a in (False, True) for b in (False, True)}
TASKS.update({'data constructor': t_data, 'model constructor': t_ctor, 'setters': t_set})
