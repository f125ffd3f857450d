"""P01: LQR / differential LQR actions."""
from spec import *

UNITS = ['actions/lqr', 'actions/diff-lqr', 'action-base', 'diff-action-base', 'states/euclidean', 'state-base']
HARNESS = 'h01'


def setup(t, kind):
    """precondition: any model object and any data object satisfying the class invariant (buffer sizes)"""
    if kind == 'lqr':
        M, Dt = 'ActionModelLQRTpl<double>', 'ActionDataLQRTpl<double>'
        nx = t.nat('nx'); nq = None; ndyn = nx
    else:
        M, Dt = 'DifferentialActionModelLQRTpl<double>', 'DifferentialActionDataLQRTpl<double>'
        nq = t.nat('nq'); nx = iscale(nq, 2); ndyn = nq
    nu, ng, nh = t.nat('nu'), t.nat('ng'), t.nat('nh')
    m, d = t.obj('M', M), t.obj('D', Dt)
    t.setcls('M.state_', 'StateVectorTpl<double>')
    t.init('M.state_.nx_', nx); t.init('M.state_.ndx_', nx)
    if nq is not None:
        t.init('M.state_.nq_', nq); t.init('M.state_.nv_', nq)
    t.init('M.nu_', nu); t.init('M.ng_', ng); t.init('M.nh_', nh)
    t.init('M.ng_T_', ng); t.init('M.nh_T_', nh)
    model_dims(t, 'M', kind, nx, nq, nu, ng, nh)
    if kind == 'lqr':
        std_action_data(t, 'D', nx, nx, nu, 0, ng, nh)
        t.dims('D', R_u_tmp=(nu, 1), Q_x_tmp=(nx, 1))
    else:
        std_diff_data(t, 'D', nq, nx, nu, 0, ng, nh)
    x, u = t.vec('x', nx), t.vec('u', nu)
    return m, d, M, x, u, nx, nq, nu, ng, nh, ndyn


def model_dims(t, P, kind, nx, nq, nu, ng, nh):
    if kind == 'lqr':
        t.dims(P, A_=(nx, nx), B_=(nx, nu), f_=(nx, 1))
    else:
        t.dims(P, Aq_=(nq, nq), Av_=(nq, nq), B_=(nq, nu), f_=(nq, 1))
    t.dims(P, Q_=(nx, nx), R_=(nu, nu), N_=(nx, nu), G_=(ng, iadd(nx, nu)), H_=(nh, iadd(nx, nu)), q_=(nx, 1), r_=(nu, 1),
           g_=(ng, 1), h_=(nh, 1))


def R(n, *i): return rapp('M.' + n, *i)


def dyn(kind, i, nx, nq, x):
    if kind == 'lqr': return dotsum(nx, lambda k: mul(R('A_', i, k), x.vec(k)))
    return add(dotsum(nq, lambda k: mul(R('Aq_', i, k), x.vec(k))), dotsum(nq, lambda k: mul(R('Av_', i, k), x.vec(iadd(nq, k)))))


def quad(n, A, x): return dotsum(n, lambda a: dotsum(n, lambda b: mul(x.vec(a), A(a, b), x.vec(b))))


def t_calc(db, kind, terminal):
    t = Task(db, '')
    m, d, M, x, u, nx, nq, nu, ng, nh, ndyn = setup(t, kind)
    t.fn_ = M + '::calc' + ('(data,x)' if terminal else '(data,x,u)')
    t.call(m, M, 'calc', [d, x] if terminal else [d, x, u])
    cost = add(mul(num('1/2'), quad(nx, lambda a, b: R('Q_', a, b), x)), dotsum(nx, lambda k: mul(R('q_', k), x.vec(k))))
    gx = lambda n, i: add(dotsum(nx, lambda k: mul(R(n + '_', i, k), x.vec(k))), R(n.lower() + '_', i))
    if not terminal:
        cost = add(cost, mul(num('1/2'), quad(nu, lambda a, b: R('R_', a, b), u)), dotsum(nu, lambda k: mul(R('r_', k), u.vec(k))),
                   dotsum(nx, lambda a: dotsum(nu, lambda b: mul(x.vec(a), R('N_', a, b), u.vec(b)))))
        key = 'D.xnext' if kind == 'lqr' else 'D.xout'
        t.eqt('dynamics value', t.tval(key), lambda i: add(dyn(kind, i, nx, nq, x), dotsum(nu, lambda k: mul(R('B_', i, k), u.vec(k))), R('f_', i)), ndyn)
        gx0 = gx
        gx = lambda n, i: add(gx0(n, i), dotsum(nu, lambda k: mul(R(n + '_', i, iadd(nx, k)), u.vec(k))))
    elif kind == 'lqr':
        t.eqt('terminal state', t.tval('D.xnext'), lambda i: x.vec(i), nx)
    t.eq('cost value', t.rval('D.cost'), cost)
    t.eqt('inequality value', t.tval('D.g'), lambda i: gx('G', i), ng)
    t.eqt('equality value', t.tval('D.h'), lambda i: gx('H', i), nh)
    t.frame(['D.cost', 'D.xnext', 'D.xout', 'D.g', 'D.h', 'D.R_u_tmp', 'D.Q_x_tmp', 'D.r'])
    t.sides()
    return t


def t_diff(db, kind, terminal):
    t = Task(db, '')
    m, d, M, x, u, nx, nq, nu, ng, nh, ndyn = setup(t, kind)
    t.fn_ = M + '::calcDiff' + ('(data,x)' if terminal else '(data,x,u)')
    # set_LQR establishes a symmetric Hessian (R1)
    t.call(m, M, 'calcDiff', [d, x] if terminal else [d, x, u])
    lx = lambda i: add(R('q_', i), dotsum(nx, lambda k: mul(R('Q_', i, k), x.vec(k))))
    if not terminal:
        lx0 = lx
        lx = lambda i: add(lx0(i), dotsum(nu, lambda k: mul(R('N_', i, k), u.vec(k))))
        t.eqt('Lu', t.tval('D.Lu'), lambda i: add(R('r_', i), dotsum(nu, lambda k: mul(R('R_', i, k), u.vec(k))),
                                                  dotsum(nx, lambda k: mul(R('N_', k, i), x.vec(k)))), nu)
        t.eqt('Lxu', t.tval('D.Lxu'), lambda i, j: R('N_', i, j), nx, nu)
        t.eqt('Luu', t.tval('D.Luu'), lambda i, j: R('R_', i, j), nu, nu)
        if kind == 'lqr': fx = lambda i, j: R('A_', i, j)
        else: fx = lambda i, j: ite(ilt(j, nq), R('Aq_', i, j), R('Av_', i, isub(j, nq)))
        t.eqt('Fx', t.tval('D.Fx'), fx, ndyn, nx)
        t.eqt('Fu', t.tval('D.Fu'), lambda i, j: R('B_', i, j), ndyn, nu)
        t.eqt('Gu', t.tval('D.Gu'), lambda i, j: R('G_', i, iadd(nx, j)), ng, nu)
        t.eqt('Hu', t.tval('D.Hu'), lambda i, j: R('H_', i, iadd(nx, j)), nh, nu)
    t.eqt('Lx', t.tval('D.Lx'), lx, nx)
    t.eqt('Lxx', t.tval('D.Lxx'), lambda i, j: R('Q_', i, j), nx, nx)
    t.eqt('Gx', t.tval('D.Gx'), lambda i, j: R('G_', i, j), ng, nx)
    t.eqt('Hx', t.tval('D.Hx'), lambda i, j: R('H_', i, j), nh, nx)
    t.frame(['D.' + k for k in 'Lx Lu Lxx Lxu Luu Fx Fu Gx Gu Hx Hu'.split()] + ['M.updated_lqr_'])
    t.sides()
    return t


TASKS = {}
for _k in ('lqr', 'diff'):
    for _t in (False, True):
        TASKS['%s calc%s' % (_k, ' terminal' if _t else '')] = (lambda k, t: lambda db: t_calc(db, k, t))(_k, _t)
        TASKS['%s calcDiff%s' % (_k, ' terminal' if _t else '')] = (lambda k, t: lambda db: t_diff(db, k, t))(_k, _t)


def t_set(kind):
    """replacing the parameters: accepted exactly when well formed, stored as given; a rejected call changes nothing"""
    def go(db):
        t = Task(db, '')
        m, d, M, x, u, nx, nq, nu, ng, nh, ndyn = setup(t, kind)
        t.fn_ = M + '::set_LQR'
        nz = iadd(nx, nu)
        dyn_ = [('A', nx, nx)] if kind == 'lqr' else [('Aq', nq, nq), ('Av', nq, nq)]
        P = dyn_ + [('B', ndyn, nu), ('Q', nx, nx), ('R', nu, nu), ('N', nx, nu), ('G', ng, nz), ('H', nh, nz),
                    ('f', ndyn, None), ('q', nx, None), ('r', nu, None), ('g', ng, None), ('h', nh, None)]
        args, bad = [], []
        for n, r, c in P:
            a = 'new.' + n
            ar = t.nat(a + '.rows'); ac = ic(1) if c is None else t.nat(a + '.cols')
            args.append(t.mat(a, ar, ac))
            bad.append(bnot(ieq(ar, r)))
            if c is not None: bad.append(bnot(ieq(ac, c)))
        bad = bor(*bad)
        seen = []
        def psd(ex, st, obj, a, node):
            L = ex.ten(ex.ev(a[0], st), st)
            seen.append((L, list(st.pc)))
            return bapp('psd')
        t.ex.free['checkPSD'] = psd
        t.call(m, M, 'set_LQR', args)
        V = lambda n, i, j: rapp('new.' + n, i, j)
        want = lambda i, j: ite(ilt(i, nx), ite(ilt(j, nx), V('Q', i, j), V('N', i, isub(j, nx))),
                                ite(ilt(j, nx), V('N', j, isub(i, nx)), V('R', isub(i, nx), isub(j, nx))))
        for L, pc in seen:
            t.pc = pc
            t.eqt('joint weight matrix whose definiteness is checked', L, want, nz, nz)
            t.pc = None
        t.throws_iff('parameters', bor(bad, bnot(bapp('psd'))))
        for n, r, c in P:
            got = t.tval('M.%s_' % n)
            if c is None: t.eqt('stored ' + n, got, (lambda n: lambda i: rapp('new.' + n, i, ic(0)))(n), r)
            else: t.eqt('stored ' + n, got, (lambda n: lambda i, j: rapp('new.' + n, i, j))(n), r, c)
        keys = ['M.%s_' % n for n, _, _ in P] + ['M.L_']
        t.frame(keys)
        t.rejected(lambda k: k.startswith('M.') and k != 'M.L_')  # L_ holds the last weights checked; nothing reads it
        t.sides()
        return t
    return go


TASKS['lqr set_LQR'] = t_set('lqr')
TASKS['diff set_LQR'] = t_set('diff')


def t_data(kind):
    """a data object starts with buffers of the sizes every evaluation relies on"""
    def go(db):
        t = Task(db, '')
        m, d, M, x, u, nx, nq, nu, ng, nh, ndyn = setup(t, kind)
        Dt = 'ActionDataLQRTpl<double>' if kind == 'lqr' else 'DifferentialActionDataLQRTpl<double>'
        t.fn_ = Dt + '::constructor'
        X = t.obj('X', Dt)
        c, f = t.ex.find_ctor(Dt, 1, [m], t.st); t.ex.run(f, X, [m], t.st)
        O = lambda *i: ZERO
        if kind == 'lqr': B = {'xnext': (O, nx), 'Fx': (lambda i, j: R('A_', i, j), nx, nx), 'R_u_tmp': (O, nu), 'Q_x_tmp': (O, nx)}
        else: B = {'xout': (O, nq), 'Fx': (lambda i, j: ite(ilt(j, nq), R('Aq_', i, j), R('Av_', i, isub(j, nq))), nq, nx)}
        B.update(Fu=(lambda i, j: R('B_', i, j), ndyn, nu), Lx=(O, nx), Lu=(O, nu), Lxx=(lambda i, j: R('Q_', i, j), nx, nx), Lxu=(lambda i, j: R('N_', i, j), nx, nu),
                 Luu=(lambda i, j: R('R_', i, j), nu, nu), g=(O, ng), h=(O, nh), Gx=(lambda i, j: R('G_', i, j), ng, nx), Hx=(lambda i, j: R('H_', i, j), nh, nx),
                 Gu=(lambda i, j: R('G_', i, iadd(nx, j)), ng, nu), Hu=(lambda i, j: R('H_', i, iadd(nx, j)), nh, nu))
        for q, g in B.items(): t.eqt('constructed ' + q, t.tval('X.' + q), *g)
        t.throws_iff('never', FALSE)
        t.frame(['X.*'])
        t.sides()
        return t
    return go


TASKS['lqr data'] = t_data('lqr')
TASKS['diff data'] = t_data('diff')
