"""Shared preconditions: an arbitrary shooting problem of any horizon with heterogeneous nodes."""
from spec import *

AM, AD = 'ActionModelAbstractTpl<double>', 'ActionDataAbstractTpl<double>'
SP = 'ShootingProblemTpl<double>'


class Prob:
    pass


def problem(t, P, cons=False):
    """problem object at path P: T >= 1 nodes, node k has control dimension nu(k), common state dimensions"""
    p = Prob()
    p.path = P
    T = t.nat('T'); nx = t.nat('nx'); ndx = t.nat('ndx')
    t.require(ile(ic(1), T))
    p.T, p.nx, p.ndx = T, nx, ndx
    p.nu = lambda k: iapp('nu', toint(k))
    NF.NONNEG.add('nu')
    t.setcls(P, SP)
    t.init(P + '.T_', T); t.init(P + '.nx_', nx); t.init(P + '.ndx_', ndx)
    p.M, p.Dd = P + '.running_models_[*]', P + '.running_datas_[*]'
    p.TM, p.TD = P + '.terminal_model_', P + '.terminal_data_'
    t.size(P + '.running_models_', T); t.size(P + '.running_datas_', T)
    for m in (p.M, p.TM): t.setcls(m, AM)
    for d in (p.Dd, p.TD): t.setcls(d, AD)
    for m in (p.M, p.TM):
        t.setcls(m + '.state_', 'StateAbstractTpl<double>')
        t.init(m + '.state_.nx_', lambda *i: nx); t.init(m + '.state_.ndx_', lambda *i: ndx)
    t.init(p.M + '.nu_', lambda k: p.nu(k))
    p.nuT = t.nat('nuT')
    t.init(p.TM + '.nu_', lambda: p.nuT)
    p.ng = lambda k: iapp('ng', toint(k)); p.nh = lambda k: iapp('nh', toint(k))
    p.ngT, p.nhT = t.nat('ngT'), t.nat('nhT')
    NF.NONNEG.update(['ng', 'nh'])
    t.init(p.M + '.ng_', lambda k: p.ng(k)); t.init(p.M + '.nh_', lambda k: p.nh(k))
    t.init(p.TM + '.ng_T_', lambda: p.ngT); t.init(p.TM + '.nh_T_', lambda: p.nhT)
    data_dims(t, p.Dd, nx, ndx, lambda k: p.nu(k), lambda k: p.ng(k), lambda k: p.nh(k))
    data_dims(t, p.TD, nx, ndx, lambda: p.nuT, lambda: p.ngT, lambda: p.nhT)
    t.dims(p.M, g_lb_=lambda k: (p.ng(k), ic(1)), g_ub_=lambda k: (p.ng(k), ic(1)), u_lb_=lambda k: (p.nu(k), ic(1)), u_ub_=lambda k: (p.nu(k), ic(1)))
    t.dims(p.TM, g_lb_=lambda: (p.ngT, ic(1)), g_ub_=lambda: (p.ngT, ic(1)))
    t.dims(P, x0_=(nx, 1))
    p.m = lambda k: oapp(p.M, toint(k)); p.d = lambda k: oapp(p.Dd, toint(k))
    p.tm, p.td = oapp(p.TM), oapp(p.TD)
    return p


def data_dims(t, Dp, nx, ndx, nu, ng, nh):
    o = ic(1)
    t.dims(Dp, xnext=lambda *k: (nx, o), Fx=lambda *k: (ndx, ndx), Fu=lambda *k: (ndx, nu(*k)), Lx=lambda *k: (ndx, o), Lu=lambda *k: (nu(*k), o),
           Lxx=lambda *k: (ndx, ndx), Lxu=lambda *k: (ndx, nu(*k)), Luu=lambda *k: (nu(*k), nu(*k)),
           g=lambda *k: (ng(*k), o), Gx=lambda *k: (ng(*k), ndx), Gu=lambda *k: (ng(*k), nu(*k)),
           h=lambda *k: (nh(*k), o), Hx=lambda *k: (nh(*k), ndx), Hu=lambda *k: (nh(*k), nu(*k)))


# ---- abstract callee contracts (pure functions of their arguments)
def L(ex, v, st): return ex.ten(v, st)


def state_contracts(t, nx, ndx):
    """StateAbstract::diff / integrate / zero: outputs are functions of the state object and of the inputs only"""
    C = 'StateAbstractTpl<double>'

    def diff(ex, st, obj, args, node):
        a, b = L(ex, args[0], st), L(ex, args[1], st)
        ex.shape(st, 'StateAbstract::diff x0', a.rows, nx, node); ex.shape(st, 'StateAbstract::diff x1', b.rows, nx, node)
        out = L(ex, args[2], st)
        ex.shape(st, 'StateAbstract::diff out', out.rows, ndx, node)
        la, lb = a.lam(), b.lam()
        ex.assign(args[2], Ten(ndx, 1, lambda i, j: rapp('diff', obj, la, lb, i)), st, node, False)
    def integ(ex, st, obj, args, node):
        a, b = L(ex, args[0], st), L(ex, args[1], st)
        ex.shape(st, 'StateAbstract::integrate x', a.rows, nx, node); ex.shape(st, 'StateAbstract::integrate dx', b.rows, ndx, node)
        out = L(ex, args[2], st)
        ex.shape(st, 'StateAbstract::integrate out', out.rows, nx, node)
        la, lb = a.lam(), b.lam()
        ex.assign(args[2], Ten(nx, 1, lambda i, j: rapp('integ', obj, la, lb, i)), st, node, False)
    def zero(ex, st, obj, args, node):
        return Ten(nx, 1, lambda i, j: rapp('zero', obj, i))
    t.contract(C, 'diff', diff); t.contract(C, 'integrate', integ); t.contract(C, 'zero', zero)


def Fdiff(o, a, b, i): return rapp('diff', o, a.lam(), b.lam(), i)
def Finteg(o, a, b, i): return rapp('integ', o, a.lam(), b.lam(), i)


NOU = oapp('no_u')


def model_contracts(t, nx, ndx, dims, proto=False):
    """proto: calcDiff may only be called with the arguments of the last calc on the same data (ghost field point_). ActionModelAbstract::calc/calcDiff: the data fields become functions of (model, x, u); dims(obj)->(nu,ng,nh)"""
    def calc(ex, st, obj, args, node):
        d = args[0]
        x = L(ex, args[1], st)
        nu, ng, nh = dims(obj)
        ex.shape(st, 'ActionModel::calc x', x.rows, nx, node)
        xl = x.lam()
        ul = NOU
        if len(args) > 2:
            u = L(ex, args[2], st)
            ex.shape(st, 'ActionModel::calc u', u.rows, nu, node)
            ul = u.lam()
        w(ex, st, d, 'cost', D, rapp('cost', obj, xl, ul))
        if proto: w(ex, st, d, 'point_', 'unsigned long', iapp('point', obj, xl, ul))
        w(ex, st, d, 'xnext', VEC, Ten(nx, 1, lambda i, j: rapp('f', obj, xl, ul, i)))
        w(ex, st, d, 'g', VEC, Ten(ng, 1, lambda i, j: rapp('g', obj, xl, ul, i)))
        w(ex, st, d, 'h', VEC, Ten(nh, 1, lambda i, j: rapp('h', obj, xl, ul, i)))
        return None
    def calcDiff(ex, st, obj, args, node):
        d = args[0]
        x = L(ex, args[1], st)
        nu, ng, nh = dims(obj)
        ex.shape(st, 'ActionModel::calcDiff x', x.rows, nx, node)
        xl = x.lam(); ul = NOU
        if len(args) > 2:
            u = L(ex, args[2], st)
            ex.shape(st, 'ActionModel::calcDiff u', u.rows, nu, node)
            ul = u.lam()
        if proto: ex.oblig(st, 'a node is differentiated where it was last evaluated', ieq(ex.int_(ex.rval(LRef(d.a[0] + '.point_', d.a[1], 'unsigned long'), st), st), iapp('point', obj, xl, ul)))
        for f, r, c in (('Lx', ndx, ic(1)), ('Lu', nu, ic(1)), ('Lxx', ndx, ndx), ('Lxu', ndx, nu), ('Luu', nu, nu), ('Fx', ndx, ndx), ('Fu', ndx, nu),
                        ('Gx', ng, ndx), ('Gu', ng, nu), ('Hx', nh, ndx), ('Hu', nh, nu)):
            if len(args) == 2 and f not in ('Lx', 'Lxx', 'Fx', 'Gx', 'Hx'): continue
            if isc(c) and icv(c) == 1: v = Ten(r, c, (lambda f: lambda i, j: rapp(f, obj, xl, ul, i))(f))
            else: v = Ten(r, c, (lambda f: lambda i, j: rapp(f, obj, xl, ul, i, j))(f))
            w(ex, st, d, f, VEC if isc(c) else MAT, v)
        return None
    t.contract(AM, 'calc', calc); t.contract(AM, 'calcDiff', calcDiff)


def w(ex, st, d, f, typ, v):
    path, idx = d.a
    ex.write(st, path + '.' + f, idx, typ, v)


def solver(t, S, cls, p):
    """fields of SolverAbstract / SolverDDP with their class invariant (sizes fixed by the problem)"""
    o = t.obj(S, cls)
    t.setcls(S + '.problem_', SP)
    T, nx, ndx, nu = p.T, p.nx, p.ndx, p.nu
    one = ic(1)
    T1 = iadd(T, one)
    for f, n, rc in (('xs_', T1, lambda k: (nx, one)), ('us_', T, lambda k: (nu(k), one)), ('fs_', T1, lambda k: (ndx, one)),
                     ('Vxx_', T1, lambda k: (ndx, ndx)), ('Vx_', T1, lambda k: (ndx, one)), ('Qxx_', T, lambda k: (ndx, ndx)),
                     ('Qxu_', T, lambda k: (ndx, nu(k))), ('Quu_', T, lambda k: (nu(k), nu(k))), ('Qx_', T, lambda k: (ndx, one)),
                     ('Qu_', T, lambda k: (nu(k), one)), ('K_', T, lambda k: (nu(k), ndx)), ('k_', T, lambda k: (nu(k), one)),
                     ('xs_try_', T1, lambda k: (nx, one)), ('us_try_', T, lambda k: (nu(k), one)), ('dx_', T, lambda k: (ndx, one)),
                     ('FuTVxx_p_', T, lambda k: (nu(k), ndx)), ('Quu_llt_', T, None), ('Quuk_', T, lambda k: (nu(k), one)),
                     ('g_adj_', T1, lambda k: (ite_i(p, k), one)), ('Quu_inv_', T, lambda k: (nu(k), nu(k))), ('du_lb_', T, lambda k: (nu(k), one)), ('du_ub_', T, lambda k: (nu(k), one))):
        t.size(S + '.' + f, n)
        if rc: t.ex.dims[S + '.' + f + '[*]'] = rc
    t.dims(S, Vxx_tmp_=(ndx, ndx), FxTVxx_p_=(ndx, ndx), fTVxx_p_=(ndx, 1), xnext_=(nx, 1))
    return o


def ite_i(p, k):
    return iite(ilt(k, p.T), p.ng(k), p.ngT)


VV = 'std::vector<Eigen::Matrix<double, -1, 1>>'


def traj(t, name, n, dim):
    """std::vector<VectorXd> argument with n elements, element k of size dim(k)"""
    t.size(name, n)
    t.ex.dims[name + '[*]'] = lambda k: (dim(k), ic(1))
    return VRef(name, (), VV)


def tr(name, k, n): return Ten(n, 1, lambda i, j: rapp(name + '[*]', toint(k), i))


def ndims(p):
    def f(o):
        if o.a[0] == p.M: return p.nu(o.a[1][0]), p.ng(o.a[1][0]), p.nh(o.a[1][0])
        return p.nuT, p.ngT, p.nhT
    return f


STORE = {'base': [('us_', 0, 'nu', 1), ('g_adj_', 1, 'ng', 1)],
         'ddp': [('Qxu_', 0, 'ndx', 'nu'), ('Quu_', 0, 'nu', 'nu'), ('Qu_', 0, 'nu', 1), ('K_', 0, 'nu', 'ndx'), ('k_', 0, 'nu', 1), ('us_try_', 0, 'nu', 1),
                 ('FuTVxx_p_', 0, 'nu', 'ndx'), ('Quuk_', 0, 'nu', 1)],
         'ddpx': [('Vxx_', 1, 'ndx', 'ndx'), ('Vx_', 1, 'ndx', 1), ('Qxx_', 0, 'ndx', 'ndx'), ('Qx_', 0, 'ndx', 1), ('dx_', 0, 'ndx', 1)],
         'intro': [('KQuu_tmp_', 0, 'ndx', 'nu'), ('YZ_', 0, 'nu', 'nu'), ('Hy_', 0, 'nh', 'nh'), ('Qz_', 0, 'nh', 1), ('Qzz_', 0, 'nh', 'nh'), ('Qxz_', 0, 'ndx', 'nh'),
                   ('Quz_', 0, 'nu', 'nh'), ('kz_', 0, 'nu', 1), ('Kz_', 0, 'nu', 'ndx'), ('ks_', 0, 'nh', 1), ('Ks_', 0, 'nh', 'ndx'), ('QuuinvHuT_', 0, 'nu', 'nh')],
         'box': [('Quu_inv_', 0, 'nu', 'nu'), ('du_lb_', 0, 'nu', 1), ('du_ub_', 0, 'nu', 1)]}


def storage(cls, method, groups):
    """the sizes that every other contract assumes of the solver's storage are established by allocateData / restored by resizeData
    (from storage of any earlier size)"""
    def go(db):
        t = Task(db, cls + '::' + method)
        p = problem(t, 'S.problem_')
        s = t.obj('S', cls)
        t.setcls('S.problem_', SP)
        state_contracts(t, p.nx, p.ndx)
        t.ex.shape_checks = False
        fs = [f for g in groups for f in STORE[g]]
        T1 = iadd(p.T, ic(1))
        for f, last, r, c in [f for g in STORE for f in STORE[g]]:
            t.size('S.' + f, (T1 if last else p.T) if method == 'resizeData' else t.nat('n' + f))
            NF.NONNEG.update(['r' + f, 'c' + f])
            t.ex.dims['S.' + f + '[*]'] = (lambda f, c: lambda k: (iapp('r' + f, toint(k)), ic(1) if c == 1 else iapp('c' + f, toint(k))))(f, c)
        for f in ('xs_try_', 'Quu_llt_'): t.size('S.' + f, t.nat('n' + f))
        t.ex.dims['S.xs_try_[*]'] = lambda k: (p.nx, ic(1))
        t.dims('S', Vxx_tmp_=(t.nat('a'), t.nat('b')), FxTVxx_p_=(t.nat('c'), t.nat('d')), fTVxx_p_=(t.nat('e'), 1))
        t.call(s, cls, method, [])
        for f, last, r, c in fs:
            n = T1 if last else p.T
            k = iv('k'); ra = [ile(ic(0), k), ilt(k, n)]
            dim = lambda x: x if isinstance(x, int) else p.ndx if x == 'ndx' else p.nu(k) if x == 'nu' else p.nh(k) if x == 'nh' else iite(ilt(k, p.T), p.ng(k), p.ngT)
            v = t.tval('S.%s[*]' % f, k)
            t.holds('storage of %s' % f, band(ieq(t.ex.vsize(VRef('S.' + f, (), VV), t.st), n), ieq(v.rows, toint(dim(r))), ieq(v.cols, toint(dim(c)))), ra)
        if method == 'allocateData':
            for f in ('xs_try_', 'Quu_llt_'): t.holds('storage of ' + f, ieq(t.ex.vsize(VRef('S.' + f, (), VV), t.st), T1 if f == 'xs_try_' else p.T))
            k = iv('k')
            t.eqt('initial trial state', t.tval('S.xs_try_[*]', k), lambda i: ite(ieq(k, ic(0)), rapp('S.problem_.x0_', i), ite(ilt(k, p.T), rapp('zero', oapp(p.M + '.state_', k), i), rapp('zero', oapp(p.TM + '.state_'), i))), p.nx, extra=[ile(ic(0), k), ile(k, p.T)])
            for f in ('Vxx_tmp_', 'FxTVxx_p_'): t.holds('storage of ' + f, band(ieq(t.tval('S.' + f).rows, p.ndx), ieq(t.tval('S.' + f).cols, p.ndx)))
            t.holds('storage of fTVxx_p_', ieq(t.tval('S.fTVxx_p_').rows, p.ndx))
        t.sides()
        return t
    return go
