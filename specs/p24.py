"""P24: the nonlinear program handed to the interior-point library."""
from spec import *
from shoot import *
from p18 import off

UNITS = ['ipopt-iface', 'optctrl/shooting', 'action-base', 'state-base']
HARNESS = 'h24'
CLS = 'IpoptInterface'
ASSUME = ['the nodes share one state dimension and the horizon is not empty', 'after the problem was edited (ShootingProblem::is_updated) the interface is resized before it is used', 'finalize_solution receives the point of the library; SolverIpopt::solve itself (calls into the library) is covered by the harness only']
NOTE = 'Layout, bounds, starting point, cost, gradient, gaps, Jacobian and Hessian blocks for an arbitrary horizon and arbitrary per-node control dimensions.'
IV = 'Eigen::Matrix<int, -1, 1>'
FR = ['S.datas_*', 'S.problem_.running_datas_*', 'S.problem_.terminal_data_*']
FIELDS = {'x': 'nx', 'xnext': 'nx', 'dx': 'n', 'dxnext': 'n', 'x_diff': 'n', 'u': 'nu', 'Jint_dx': 'nn', 'Jint_dxnext': 'nn', 'Jdiff_x': 'nn', 'Jdiff_xnext': 'nn',
          'Jg_dx': 'nn', 'Jg_dxnext': 'nn', 'Jg_u': 'nu2', 'Jg_ic': 'nn', 'FxJint_dx': 'nn', 'Ldx': 'n', 'Ldxdx': 'nn', 'Ldxu': 'nnu'}


def base(db, fn_, layout=True):
    t = Task(db, '')
    t.fn_ = CLS + '::' + fn_
    p = problem(t, 'S.problem_')
    s = t.obj('S', CLS)
    t.setcls('S.problem_', SP)
    T, n, nx = p.T, p.ndx, p.nx
    p.s = s
    T1 = iadd(T, ic(1))
    p.T1 = T1
    p.pos = lambda k: iadd(imul(toint(k), n), off(p, toint(k)))
    p.nvar = iadd(p.pos(T), n)
    p.ncon = imul(T1, n)
    p.DD = 'S.datas_[*]'
    if layout:
        for f, m in (('xs_', T1), ('us_', T), ('datas_', T1), ('ixu_', T1)): t.size('S.' + f, m)
        t.setcls(p.DD, 'IpoptInterfaceData')
        nuk = lambda k: iite(ilt(k, T), p.nu(k), ic(0))
        t.ex.dims['S.xs_[*]'] = lambda k: (nx, ic(1)); t.ex.dims['S.us_[*]'] = lambda k: (p.nu(k), ic(1))
        sh = {'nx': lambda k: (nx, ic(1)), 'n': lambda k: (n, ic(1)), 'nu': lambda k: (nuk(k), ic(1)), 'nn': lambda k: (n, n), 'nu2': lambda k: (n, n), 'nnu': lambda k: (n, nuk(k))}
        for f, k in FIELDS.items(): t.ex.dims[p.DD + '.' + f] = sh[k]
        t.init('S.nvar_', p.nvar); t.init('S.nconst_', p.ncon)
        t.init('S.ixu_[*]', lambda k: p.pos(k))
    state_contracts(t, nx, n)
    model_contracts(t, nx, n, ndims(p), proto=True)
    C = 'StateAbstractTpl<double>'

    def jint(ex, st, obj, args, node):
        a, b = L(ex, args[0], st), L(ex, args[1], st)
        ex.shape(st, 'Jintegrate x', a.rows, nx, node); ex.shape(st, 'Jintegrate dx', b.rows, n, node)
        la, lb = a.lam(), b.lam()
        ex.oblig(st, 'displacement Jacobian is requested as assignment to the second argument', band(ieq(ex.int_(args[4], st), enum('second')), ieq(ex.int_(args[5], st), enum('setto')) if len(args) > 5 else TRUE))
        ex.assign(args[3], Ten(n, n, lambda i, j: rapp('Jint', obj, la, lb, i, j)), st, node, False)

    def jdiff(ex, st, obj, args, node):
        a, b = L(ex, args[0], st), L(ex, args[1], st)
        ex.shape(st, 'Jdiff x0', a.rows, nx, node); ex.shape(st, 'Jdiff x1', b.rows, nx, node)
        la, lb = a.lam(), b.lam()
        c = ex.int_(args[4], st) if len(args) > 4 else enum('both')
        for q, m in ((0, 'second'), (1, 'first')):
            x = ieq(c, enum(m))
            if x is TRUE: continue
            if x is not FALSE: raise SX.Unsupported('undetermined Jacobian selector')
            ex.assign(args[2 + q], Ten(n, n, lambda i, j, q=q: rapp('Jd%d' % q, obj, la, lb, i, j)), st, node, False)
    t.contract(C, 'Jintegrate', jint); t.contract(C, 'Jdiff', jdiff)
    return t, p, s


def inr(v, m): return [ile(ic(0), v), ilt(v, m)]


def buf(t, name, n, typ=VEC):
    t.ex.dims[name] = lambda *i: (n, ic(1))
    return LRef(name, (), typ)


def t_info(db):
    t, p, s = base(db, 'get_nlp_info')
    outs = [LRef('o%d' % k, (), 'int') for k in range(5)]
    r = t.call(s, CLS, 'get_nlp_info', outs)
    t.eq('variables', t.ival('o0'), p.nvar); t.eq('constraints', t.ival('o1'), p.ncon)
    q, e = fresh('q'), fresh('e')
    T, n = p.T, p.ndx
    t.eq('nonzeros of the Jacobian', t.ival('o2'), iadd(isum(q, ic(0), T, imul(n, iadd(iadd(n, n), p.nu(iv(q))))), imul(n, n)))
    tri = lambda m: isum(e, ic(1), iadd(m, ic(1)), iv(e))
    t.eq('nonzeros of the Hessian', t.ival('o3'), iadd(isum(q, ic(0), T, tri(iadd(n, p.nu(iv(q))))), tri(n)))
    t.eq('index style', t.ival('o4'), enum('C_STYLE'))
    t.holds('accepted', tobool(t.ex.rval(r, t.st)))
    t.frame(['o*'])
    t.sides()
    return t


def t_bounds(db):
    t, p, s = base(db, 'get_bounds_info')
    T, n = p.T, p.ndx
    xl, xu, gl, gu = [buf(t, k, m) for k, m in (('xl', p.nvar), ('xu', p.nvar), ('gl', p.ncon), ('gu', p.ncon))]
    lim = lambda k: bapp(p.M + '.has_control_limits_', toint(k))
    r = t.call(s, CLS, 'get_bounds_info', [p.nvar, xl, xu, p.ncon, gl, gu])
    k, i = iv('k'), iv('i')
    XL, XU, GL, GU = [t.tval(x) for x in ('xl', 'xu', 'gl', 'gu')]
    big = rapp('DBL_MAX')
    lo = mul(num(-1), big)
    fx = inr(k, p.T1) + inr(i, n)
    xo = iadd(p.pos(k), i)
    t.eq('lower bound of a state increment', XL.at(xo), lo, extra=inr(k, T) + inr(i, n)); t.eq('upper bound of a state increment', XU.at(xo), big, extra=inr(k, T) + inr(i, n))
    xT = iadd(p.pos(T), i)
    t.eq('lower bound of the terminal increment', XL.at(xT), lo, extra=inr(i, n)); t.eq('upper bound of the terminal increment', XU.at(xT), big, extra=inr(i, n))
    uo = iadd(iadd(p.pos(k), n), i)
    fu = inr(k, T) + inr(i, p.nu(k))
    t.eq('lower bound of a control', XL.at(uo), ite(lim(k), rapp(p.M + '.u_lb_', k, i), lo), extra=fu)
    t.eq('upper bound of a control', XU.at(uo), ite(lim(k), rapp(p.M + '.u_ub_', k, i), big), extra=fu)
    t.eq('lower bound of a gap', GL.at(i), ZERO, extra=inr(i, p.ncon)); t.eq('upper bound of a gap', GU.at(i), ZERO, extra=inr(i, p.ncon))
    t.frame(['xl', 'xu', 'gl', 'gu'])
    t.sides()
    return t



def t_start(db):
    t, p, s = base(db, 'get_starting_point')
    T, n = p.T, p.ndx
    x = buf(t, 'x0', p.nvar)
    nul = oapp('null')
    r = t.call(s, CLS, 'get_starting_point', [p.nvar, TRUE, x, FALSE, nul, nul, p.ncon, FALSE, nul])
    X = t.tval('x0'); k, i = iv('k'), iv('i')
    t.eq('state increment starts at zero', X.at(iadd(p.pos(k), i)), ZERO, extra=inr(k, T) + inr(i, n))
    t.eq('terminal increment starts at zero', X.at(iadd(p.pos(T), i)), ZERO, extra=inr(i, n))
    t.eq('controls start at the candidate', X.at(iadd(iadd(p.pos(k), n), i)), rapp('S.us_[*]', k, i), extra=inr(k, T) + inr(i, p.nu(k)))
    t.frame(['x0'])
    t.sides()
    return t


class Pt:
    """the point of the shooting problem encoded by the variables z"""
    def __init__(s, t, p):
        T, n, nx = p.T, p.ndx, p.nx
        z = lambda e: rapp('z', e)
        s.t, s.p = t, p
        s.zin = buf(t, 'z', p.nvar)
        s.dx = lambda k: Ten(n, 1, lambda i, j: z(iadd(p.pos(k), i)))
        s.u = lambda k: Ten(p.nu(k), 1, lambda i, j: z(iadd(iadd(p.pos(k), n), i)))
        s.so = lambda k: oapp(p.M + '.state_', toint(k))
        s.soT = oapp(p.TM + '.state_')
        s.ref = lambda k: Ten(nx, 1, lambda i, j: rapp('S.xs_[*]', toint(k), i))
        s.x = lambda k: Ten(nx, 1, lambda i, j: rapp('integ', s.so(k), s.ref(k).lam(), s.dx(k).lam(), i))
        s.xT = Ten(nx, 1, lambda i, j: rapp('integ', s.soT, s.ref(T).lam(), s.dx(T).lam(), i))
        s.J = lambda k, i, j: rapp('Jint', s.so(k), s.ref(k).lam(), s.dx(k).lam(), i, j)
        s.JT = lambda i, j: rapp('Jint', s.soT, s.ref(T).lam(), s.dx(T).lam(), i, j)
        # the increment of the next node, located from node k
        s.dxn = lambda k: Ten(n, 1, lambda i, j: z(iadd(iadd(iadd(p.pos(k), n), p.nu(k)), i)))
        s.xn = lambda k, last: Ten(nx, 1, lambda i, j: rapp('integ', s.soT if last else s.so(iadd(k, ic(1))), s.ref(iadd(k, ic(1))).lam(), s.dxn(k).lam(), i))
        s.Jn = lambda k, last, i, j: rapp('Jint', s.soT if last else s.so(iadd(k, ic(1))), s.ref(iadd(k, ic(1))).lam(), s.dxn(k).lam(), i, j)
        s.m = lambda f, k, *ix: rapp(f, p.m(k), s.x(k).lam(), s.u(k).lam(), *ix)
        s.mT = lambda f, *ix: rapp(f, p.tm, s.xT.lam(), NOU, *ix)


def t_f(db):
    t, p, s = base(db, 'eval_f')
    z = Pt(t, p)
    t.init('obj', rapp('obj0'))
    r = t.call(s, CLS, 'eval_f', [p.nvar, z.zin, bapp('new'), LRef('obj', (), D)])
    q = fresh('q')
    t.eq('cost of the problem at the point', t.rval('obj'), add(rsum(q, ic(0), p.T, z.m('cost', iv(q))), z.mT('cost')))
    t.holds('accepted', tobool(t.ex.rval(r, t.st)))
    t.frame(['obj', *FR])
    t.sides()
    return t


def t_grad(db):
    t, p, s = base(db, 'eval_grad_f')
    T, n = p.T, p.ndx
    z = Pt(t, p)
    g = buf(t, 'grad', p.nvar)
    r = t.call(s, CLS, 'eval_grad_f', [p.nvar, z.zin, bapp('new'), g])
    G = t.tval('grad'); k, i = iv('k'), iv('i')
    t.eq('gradient by a state increment', G.at(iadd(p.pos(k), i)), dotsum(n, lambda q: mul(z.J(k, q, i), z.m('Lx', k, q))), extra=inr(k, T) + inr(i, n))
    t.eq('gradient by a control', G.at(iadd(iadd(p.pos(k), n), i)), z.m('Lu', k, i), extra=inr(k, T) + inr(i, p.nu(k)))
    t.eq('gradient by the terminal increment', G.at(iadd(p.pos(T), i)), dotsum(n, lambda q: mul(z.JT(q, i), z.mT('Lx', q))), extra=inr(i, n))
    t.frame(['grad', *FR])
    t.sides()
    return t


def both(p, k):
    """inner nodes and the last running node"""
    return ('an inner', False, inr(k, isub(p.T, ic(1)))), ('the last', True, inr(k, p.T) + [ieq(iadd(k, ic(1)), p.T)])


def t_g(db):
    t, p, s = base(db, 'eval_g')
    T, n, nx = p.T, p.ndx, p.nx
    z = Pt(t, p)
    g = buf(t, 'g', p.ncon)
    r = t.call(s, CLS, 'eval_g', [p.nvar, z.zin, bapp('new'), p.ncon, g])
    G = t.tval('g'); k, i = iv('k'), iv('i')
    f = lambda k: Ten(nx, 1, lambda i, j: z.m('f', k, i)).lam()
    for w, last, fx in both(p, k):
        t.eq('gap of %s node' % w, G.at(iadd(imul(k, n), i)), rapp('diff', z.so(k), f(k), z.xn(k, last).lam(), i), extra=fx + inr(i, n))
    x0 = Ten(nx, 1, lambda i, j: rapp(p.path + '.x0_', i)).lam()
    t.eq('gap of the initial state', G.at(iadd(imul(T, n), i)), rapp('diff', z.so(ic(0)), z.x(ic(0)).lam(), x0, i), extra=inr(i, n))
    t.frame(['g', *FR])
    t.sides()
    return t


def jpos(p, k, r, c):
    """place of the entry (row r, column c) of the block row of node k in the list of Jacobian nonzeros"""
    q = fresh('q'); n = p.ndx
    w = lambda q: iadd(iadd(n, n), p.nu(q))
    return iadd(isum(q, ic(0), toint(k), imul(n, w(iv(q)))), iadd(imul(r, w(k)), c))


def hpos(p, k, r, c):
    """place of the entry (r, c <= r) of the block of node k in the list of Hessian nonzeros"""
    q, e, d = fresh('q'), fresh('e'), fresh('d'); n = p.ndx
    tri = lambda m, e: isum(e, ic(0), m, iadd(iv(e), ic(1)))
    return iadd(isum(q, ic(0), toint(k), tri(iadd(n, p.nu(iv(q))), e)), iadd(tri(r, d), c))


def listing(t, name, entries):
    """every write to the raw array: the value written is the one specified for that position; the writes are counted"""
    nm = 'dec:' + name
    NF.DECODE[nm] = entries
    g = 'G.' + name
    t.init(g, ic(0))

    def wr(ex, st, e, v):
        ex.oblig(st, 'value listed in ' + name, req(toreal(v), rapp(nm, e)))
        ex.write(st, g, (), 'size_t', iadd(ex.read(st, g, (), 'size_t'), ic(1)))
    t.ex.bufs[name] = wr


def counted(t, name, n):
    t.eq('number of entries listed in ' + name, t.ival('G.' + name), n)


def band_(fs): return band(*fs)


def t_jac_values(db):
    t, p, s = base(db, 'eval_jac_g')
    T, n, nx = p.T, p.ndx, p.nx
    z = Pt(t, p)
    njac = jpos(p, T, ic(0), ic(0))
    ntot = iadd(njac, imul(n, n))
    V = buf(t, 'values', ntot)
    nul = oapp('null')
    f = lambda k: Ten(nx, 1, lambda i, j: z.m('f', k, i)).lam()
    ent = []
    spec = []
    for w, last, fx in both(p, iv('k')):
        rng = (lambda last: lambda k: both(p, k)[1 if last else 0][2])(last)
        A = (lambda last: lambda k, i, q: rapp('Jd0', z.so(k), f(k), z.xn(k, last).lam(), i, q))(last)
        B = (lambda last: lambda k, i, q: rapp('Jd1', z.so(k), f(k), z.xn(k, last).lam(), i, q))(last)
        jx = (lambda A: lambda k, i, j: dotsum(n, lambda q: mul(A(k, i, q), dotsum(n, lambda e: mul(z.m('Fx', k, q, e), z.J(k, e, j))))))(A)
        ju = (lambda A: lambda k, i, j: dotsum(n, lambda q: mul(A(k, i, q), z.m('Fu', k, q, j))))(A)
        jn = (lambda B, last: lambda k, i, j: dotsum(n, lambda q: mul(B(k, i, q), z.Jn(k, last, q, j))))(B, last)
        spec.append((w, fx, jx, ju, jn))
        D_ = lambda nm: rapp
        for o, m, fn_ in ((lambda k: ic(0), lambda k: n, jx), (lambda k: n, p.nu, ju), (lambda k: iadd(n, p.nu(k)), lambda k: n, jn)):
            ent.append((3, (lambda o: lambda k, i, j: jpos(p, k, i, iadd(o(k), j)))(o), (lambda rng, m: lambda k, i, j: band(*(rng(k) + inr(i, n) + inr(j, m(k)))))(rng, m), fn_))
    x0 = Ten(nx, 1, lambda i, j: rapp(p.path + '.x0_', i)).lam()
    jic = lambda i, j: dotsum(n, lambda q: mul(rapp('Jd0', z.so(ic(0)), z.x(ic(0)).lam(), x0, i, q), z.J(ic(0), q, j)))
    ent.append((2, lambda i, j: iadd(njac, iadd(imul(i, n), j)), lambda i, j: band(*(inr(i, n) + inr(j, n))), jic))
    listing(t, 'values', ent)
    t.call(s, CLS, 'eval_jac_g', [p.nvar, z.zin, bapp('new'), p.ncon, ntot, nul, nul, V])
    k = iv('k')
    for w, fx, jx, ju, jn in spec:
        D_ = lambda nm: t.tval(p.DD + '.' + nm, k)
        at = lambda g: (lambda i, j: g(k, i, j))
        t.eqt('block by the increment, %s node' % w, D_('Jg_dx'), at(jx), n, n, extra=fx)
        t.eqt('block by the control, %s node' % w, D_('Jg_u'), at(ju), n, p.nu(k), extra=fx)
        t.eqt('block by the next increment, %s node' % w, D_('Jg_dxnext'), at(jn), n, n, extra=fx)
    t.eqt('block of the initial state', t.tval(p.DD + '.Jg_ic', ic(0)), jic, n, n)
    counted(t, 'values', ntot)
    t.frame(['G.*', *FR])
    t.sides()
    return t


def t_jac_structure(db):
    t, p, s = base(db, 'eval_jac_g')
    T, n, nx = p.T, p.ndx, p.nx
    z = Pt(t, p)
    njac = jpos(p, T, ic(0), ic(0))
    ntot = iadd(njac, imul(n, n))
    rows, cols = buf(t, 'rows', ntot, IV), buf(t, 'cols', ntot, IV)
    nul = oapp('null')
    c3 = lambda k, i, j: band(*(inr(k, T) + inr(i, n) + inr(j, iadd(iadd(n, n), p.nu(k)))))
    c2 = lambda i, j: band(*(inr(i, n) + inr(j, n)))
    p3 = lambda k, i, j: jpos(p, k, i, j)
    p2 = lambda i, j: iadd(njac, iadd(imul(i, n), j))
    listing(t, 'rows', [(3, p3, c3, lambda k, i, j: toreal(iadd(imul(k, n), i))), (2, p2, c2, lambda i, j: toreal(iadd(imul(T, n), i)))])
    listing(t, 'cols', [(3, p3, c3, lambda k, i, j: toreal(iadd(p.pos(k), j))), (2, p2, c2, lambda i, j: toreal(j))])
    t.call(s, CLS, 'eval_jac_g', [p.nvar, z.zin, bapp('new'), p.ncon, ntot, rows, cols, nul])
    for x in ('rows', 'cols'): counted(t, x, ntot)
    t.frame(['G.*'])
    t.sides()
    return t


def t_hess_values(db):
    t, p, s = base(db, 'eval_h')
    T, n, nx = p.T, p.ndx, p.nx
    z = Pt(t, p)
    nhes = hpos(p, T, ic(0), ic(0))
    ntot = iadd(nhes, hpos(p, ic(0), n, ic(0)))
    V = buf(t, 'values', ntot)
    nul = oapp('null')
    of = rapp('of')
    xx = lambda k, i, j: dotsum(n, lambda q: mul(dotsum(n, lambda e: mul(z.J(k, e, i), z.m('Lxx', k, e, q))), z.J(k, q, j)))
    xu = lambda k, i, j: dotsum(n, lambda q: mul(z.J(k, q, i), z.m('Lxu', k, q, j)))
    tt = lambda i, j: dotsum(n, lambda q: mul(dotsum(n, lambda e: mul(z.JT(e, i), z.mT('Lxx', e, q))), z.JT(q, j)))
    low = lambda i, j, m: inr(i, m) + [ile(ic(0), j), ile(j, i)]
    listing(t, 'values', [
        (3, lambda k, i, j: hpos(p, k, i, j), lambda k, i, j: band(*(inr(k, T) + low(i, j, n))), lambda k, i, j: mul(of, xx(k, i, j))),
        (3, lambda k, i, j: hpos(p, k, iadd(n, i), j), lambda k, i, j: band(*(inr(k, T) + inr(i, p.nu(k)) + inr(j, n))), lambda k, i, j: mul(of, xu(k, j, i))),
        (3, lambda k, i, j: hpos(p, k, iadd(n, i), iadd(n, j)), lambda k, i, j: band(*(inr(k, T) + low(i, j, p.nu(k)))), lambda k, i, j: mul(of, z.m('Luu', k, i, j))),
        (2, lambda i, j: iadd(nhes, hpos(p, ic(0), i, j)), lambda i, j: band(*low(i, j, n)), lambda i, j: mul(of, tt(i, j)))])
    t.call(s, CLS, 'eval_h', [p.nvar, z.zin, bapp('new'), of, p.ncon, nul, bapp('newl'), ntot, nul, nul, V])
    k = iv('k')
    t.eqt('block by the increment', t.tval(p.DD + '.Ldxdx', k), lambda i, j: xx(k, i, j), n, n, extra=inr(k, T))
    t.eqt('block by the increment and the control', t.tval(p.DD + '.Ldxu', k), lambda i, j: xu(k, i, j), n, p.nu(k), extra=inr(k, T))
    t.eqt('terminal block', t.tval(p.DD + '.Ldxdx', T), tt, n, n)
    counted(t, 'values', ntot)
    t.frame(['G.*', *FR])
    t.sides()
    return t


def t_hess_structure(db):
    t, p, s = base(db, 'eval_h')
    T, n, nx = p.T, p.ndx, p.nx
    z = Pt(t, p)
    nhes = hpos(p, T, ic(0), ic(0))
    ntot = iadd(nhes, hpos(p, ic(0), n, ic(0)))
    rows, cols = buf(t, 'rows', ntot, IV), buf(t, 'cols', ntot, IV)
    nul = oapp('null')
    low = lambda i, j, m: inr(i, m) + [ile(ic(0), j), ile(j, i)]
    c3 = lambda k, i, j: band(*(inr(k, T) + low(i, j, iadd(n, p.nu(k)))))
    c2 = lambda i, j: band(*low(i, j, n))
    p3 = lambda k, i, j: hpos(p, k, i, j)
    p2 = lambda i, j: iadd(nhes, hpos(p, ic(0), i, j))
    listing(t, 'rows', [(3, p3, c3, lambda k, i, j: toreal(iadd(p.pos(k), i))), (2, p2, c2, lambda i, j: toreal(iadd(p.pos(T), i)))])
    listing(t, 'cols', [(3, p3, c3, lambda k, i, j: toreal(iadd(p.pos(k), j))), (2, p2, c2, lambda i, j: toreal(iadd(p.pos(T), j)))])
    t.call(s, CLS, 'eval_h', [p.nvar, z.zin, bapp('new'), rapp('of'), p.ncon, nul, bapp('newl'), ntot, rows, cols, nul])
    for x in ('rows', 'cols'): counted(t, x, ntot)
    t.frame(['G.*'])
    t.sides()
    return t


def t_fin(db):
    t, p, s = base(db, 'finalize_solution')
    T, n, nx = p.T, p.ndx, p.nx
    z = Pt(t, p)
    nul = oapp('null')
    t.call(s, CLS, 'finalize_solution', [iapp('status'), p.nvar, z.zin, nul, nul, p.ncon, nul, nul, rapp('objv'), nul, nul])
    k = iv('k')
    t.eqt('state of the solution', t.tval('S.xs_[*]', k), lambda i: z.x(k).at(i), nx, extra=inr(k, T))
    t.eqt('terminal state of the solution', t.tval('S.xs_[*]', T), lambda i: z.xT.at(i), nx)
    t.eqt('control of the solution', t.tval('S.us_[*]', k), lambda i: z.u(k).at(i), p.nu(k), extra=inr(k, T))
    t.eq('cost of the solution', t.rval('S.cost_'), rapp('objv'))
    t.frame(['S.xs_[*]', 'S.us_[*]', 'S.cost_', 'S.datas_*'])
    t.sides()
    return t


def t_layout(resize):
    def go(db):
        t, p, s = base(db, 'resizeData' if resize else 'IpoptInterface', False)
        T, n, nx = p.T, p.ndx, p.nx
        t.ex.facts.append(ile(ic(1), T))
        t.ex.shape_checks = False
        t.setcls(p.DD, 'IpoptInterfaceData')
        L_ = {'xs_': p.T1, 'us_': T, 'datas_': p.T1, 'ixu_': p.T1}
        for f, m in L_.items(): t.size('S.' + f, m if resize else ic(0))
        NF.NONNEG.update(['r:' + f for f in [*FIELDS, 'xs_', 'us_']] + ['c:' + f for f in FIELDS])
        for f in ('xs_', 'us_'): t.ex.dims['S.%s[*]' % f] = (lambda f: lambda k: (iapp('r:' + f, toint(k)), ic(1)))(f)
        for f, k_ in FIELDS.items(): t.ex.dims[p.DD + '.' + f] = (lambda f, v: lambda k: (iapp('r:' + f, toint(k)), ic(1) if v else iapp('c:' + f, toint(k))))(f, k_ in ('nx', 'n', 'nu'))
        mk_ = lambda a, b, c: oapp('created', a, b, c)
        t.contract(CLS, 'createData', lambda ex, st, obj, args, node: mk_(*[ex.int_(a, st) for a in args]))
        if resize: t.call(s, CLS, 'resizeData', [])
        else:
            f = t.ex.find_ctor(CLS, 1, [oapp('S.problem_')], t.st)
            c, f = t.ex.find_ctor(CLS, 1, [oapp('S.problem_')], t.st)
            t.ex.run(f, s, [oapp('S.problem_')], t.st)
        k = iv('k')
        t.eq('variables', t.ival('S.nvar_'), p.nvar); t.eq('constraints', t.ival('S.nconst_'), p.ncon)
        t.eq('place of the increment of a node', t.ival('S.ixu_[*]', k), p.pos(k), extra=inr(k, T))
        t.eq('place of the terminal increment', t.ival('S.ixu_[*]', T), p.pos(T))
        for f, m in L_.items(): t.eq('number of entries of ' + f, t.ex.vsize(VRef('S.' + f, (), VV if f in ('xs_', 'us_') else 'std::vector<std::shared_ptr<IpoptInterfaceData>>' if f == 'datas_' else 'std::vector<unsigned long>'), t.st), m)
        for w, at, fx in (('a running node', k, inr(k, T)), ('the terminal node', T, [])):
            nu = p.nu(k) if fx else ic(0)
            sh = {'nx': (nx, ic(1)), 'n': (n, ic(1)), 'nu': (nu, ic(1)), 'nn': (n, n), 'nnu': (n, nu)}
            chk = lambda nm, v, d: t.holds('size of %s, %s' % (nm, w), band(ieq(v.rows, d[0]), ieq(v.cols, d[1])), fx)
            chk('the reference state', t.tval('S.xs_[*]', at), sh['nx'])
            if fx: chk('the reference control', t.tval('S.us_[*]', at), sh['nu'])
            if not resize: t.eq('data of ' + w, t.ex.read(t.st, 'S.datas_[*]', (toint(at),), 'std::shared_ptr<IpoptInterfaceData>'), mk_(nx, n, nu), extra=fx)
            for f, kd in FIELDS.items():
                if resize and kd != 'nu2': chk(f, t.tval(p.DD + '.' + f, at), sh[kd])
            if not resize:
                t.eqt('initial reference state of ' + w, t.tval('S.xs_[*]', at), lambda i: rapp('zero', oapp(p.M + '.state_', k) if fx else oapp(p.TM + '.state_'), i), nx, extra=fx)
                if fx: t.eqt('initial reference control', t.tval('S.us_[*]', at), lambda i: ZERO, nu, extra=fx)
        t.sides()
        return t
    return go


def t_data(db):
    t, p, s = base(db, 'createData', False)
    n, nx, nu = p.ndx, p.nx, t.nat('m')
    r = t.call(s, CLS, 'createData', [nx, n, nu])
    for f, kd in FIELDS.items():
        if kd == 'nu2': continue
        d = {'nx': (nx, 1), 'n': (n, 1), 'nu': (nu, 1), 'nn': (n, n), 'nu2': (n, n), 'nnu': (n, nu)}[kd]
        t.eqt('constructed ' + f, t.ex.read(t.st, r.a[0] + '.' + f, r.a[1], VEC if d[1] == 1 else MAT), (lambda i: ZERO) if d[1] == 1 else (lambda i, j: ZERO), *d)
    t.sides()
    return t


TASKS = {'data': t_data, 'constructor': t_layout(False), 'resized': t_layout(True), 'sizes': t_info, 'bounds': t_bounds, 'start': t_start, 'cost': t_f, 'gradient': t_grad, 'gaps': t_g, 'solution': t_fin, 'Jacobian values': t_jac_values, 'Jacobian structure': t_jac_structure,
         'Hessian values': t_hess_values, 'Hessian structure': t_hess_structure}
