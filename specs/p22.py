"""P22: equality-constrained shooting solver."""
from spec import *
from shoot import *

UNITS = ['intro', 'fddp', 'ddp', 'solver-base', 'optctrl/shooting', 'action-base', 'state-base']
HARNESS = 'h22'
NOTE = ('SolverIntro::calcDiff followed by computeGains at an arbitrary node (the constraint values may have been overwritten by rejected trial steps in between): '
        'the gains satisfy the linearised constraints and the stationarity of the quadratic model, for the three parametrisations.')
TRUSTED = ['FullPivLU: rank, row permutation and kernel of a full-row-rank matrix A: A kernel(A) = 0, cols x (cols - rank), one zero column when trivial',
           'ColPivHouseholderQR of a full-column-rank matrix A: transpose(A) Q(:, rank:) = 0', 'PartialPivLU / LLT invert a nonsingular / positive-definite matrix']
ASSUME = ['full-rank control Jacobians (rows <= columns)', 'symmetric Quu (proved for the backward pass from symmetric model Hessians)', 'trial steps change only the values stored by calc']

MODES = ('LuNull', 'QrNull', 'Schur')
C = 'SolverIntro'


def base(db, mode, fn_, square=None):
    t = Task(db, C + '::' + fn_)
    p = problem(t, 'S.problem_')
    p.nu = lambda k: iadd(iapp('nh', toint(k)), iapp('nz', toint(k)))      # no more constraints than controls
    NF.NONNEG.add('nz')
    s = solver(t, 'S', C, p)
    T, n, nu, nh = p.T, p.ndx, p.nu, p.nh
    for f, rc in (('KQuu_tmp_', lambda k: (n, nu(k))), ('YZ_', lambda k: (nu(k), nu(k))), ('Hy_', lambda k: (nh(k), nh(k))), ('Qz_', lambda k: (nh(k), ic(1))),
                  ('Qzz_', lambda k: (nh(k), nh(k))), ('Qxz_', lambda k: (n, nh(k))), ('Quz_', lambda k: (nu(k), nh(k))), ('kz_', lambda k: (nu(k), ic(1))),
                  ('Kz_', lambda k: (nu(k), n)), ('ks_', lambda k: (nh(k), ic(1))), ('Ks_', lambda k: (nh(k), n)), ('QuuinvHuT_', lambda k: (nu(k), nh(k))),
                  ('hs_', lambda k: (nh(k), ic(1))), ('Hu_rank_', None), ('Qzz_llt_', None), ('Hu_lu_', None), ('Hu_qr_', None), ('Hy_lu_', None)):
        t.size('S.' + f, T)
        if rc: t.ex.dims['S.' + f + '[*]'] = rc
    if mode: t.init('S.eq_solver_', enum(mode))
    t.ex.full_rank = True
    # symmetric action-value Hessian
    t.init('S.Quu_[*]', lambda k: Ten(nu(k), nu(k), lambda i, j: add(rapp('quu', k, i, j), rapp('quu', k, j, i))))
    t.contract('SolverDDP', 'calcDiff', lambda ex, st, obj, args, node: NotImplemented if node is None else rapp('cost_at_guess'))
    return t, p, s


def data(p, f): return lambda k, *i: rapp(p.Dd + '.' + f, toint(k), *i)


def node(t, p):
    k = t.nat('t'); t.require(ilt(k, p.T))
    return k


def policy(mode):
    def go(db):
        t, p, s = base(db, mode, 'computeGains')
        k = node(t, p)
        nu, nh, n = p.nu(k), p.nh(k), p.ndx
        t.require(ilt(ic(0), nu), ilt(ic(0), nh))
        t.call(s, C, 'calcDiff', [])
        # trial steps that were rejected since leave their own values behind
        for f, r in (('h', p.nh), ('g', p.ng), ('xnext', lambda k: p.nx)):
            t.ex.setbase(t.st, p.Dd + '.' + f, VEC, (lambda f, r: lambda idx: Ten(r(idx[0]), 1, lambda i, j: rapp('trial.' + f, idx[0], i)))(f, r))
        t.call(s, C, 'computeGains', [k])
        Hu, Hx, h = data(p, 'Hu'), data(p, 'Hx'), data(p, 'h')
        kk, K = t.tval('S.k_[*]', k), t.tval('S.K_[*]', k)
        i, j = iv(fresh('i')), iv(fresh('j'))
        rh, rx = [ile(ic(0), i), ilt(i, nh)], [ile(ic(0), j), ilt(j, n)]
        t.holds('shape of the gains', band(ieq(kk.rows, nu), ieq(K.rows, nu), ieq(K.cols, n)))
        t.eq('the feedforward satisfies the linearised constraints', dotsum(nu, lambda b: mul(Hu(k, i, b), kk.at(b))), h(k, i), extra=rh)
        t.eq('the feedback satisfies the linearised constraints', dotsum(nu, lambda b: mul(Hu(k, i, b), K.at(b, j))), Hx(k, i, j), extra=rh + rx)
        Q = lambda a, b: add(rapp('quu', k, a, b), rapp('quu', k, b, a))
        gr = lambda b: sub(rapp('S.Qu_[*]', k, b), dotsum(nu, lambda c: mul(Q(b, c), kk.at(c))))
        gx = lambda b: sub(rapp('S.Qxu_[*]', k, j, b), dotsum(nu, lambda c: mul(Q(b, c), K.at(c, j))))
        z = iv(fresh('z'))
        if mode == 'Schur':
            # stationarity with an explicit multiplier
            b = iv(fresh('b')); rb = [ile(ic(0), b), ilt(b, nu)]
            Ql = Ten(nu, nu, Q).lam()
            iq = lambda a, c: rapp('inv', Ql, a, c)
            S_ = Ten(nh, nh, lambda a, c: dotsum(nu, lambda d: mul(Hu(k, a, d), dotsum(nu, lambda e: mul(iq(d, e), Hu(k, c, e))))))
            Sl = S_.lam()
            k0 = lambda a: dotsum(nu, lambda c: mul(iq(a, c), rapp('S.Qu_[*]', k, c)))
            K0 = lambda a: dotsum(nu, lambda c: mul(iq(a, c), rapp('S.Qxu_[*]', k, j, c)))
            la = lambda a, r, f: dotsum(nh, lambda c: mul(rapp('inv', Sl, a, c), sub(r(c), dotsum(nu, lambda d: mul(Hu(k, c, d), f(d))))))
            t.eq('the feedforward minimises the model up to a multiplier of the constraints', gr(b), mul(num(-1), dotsum(nh, lambda a: mul(Hu(k, a, b), la(a, lambda c: h(k, c), k0)))), extra=rb)
            t.eq('the feedback minimises the model up to a multiplier of the constraints', gx(b), mul(num(-1), dotsum(nh, lambda a: mul(Hu(k, a, b), la(a, lambda c: Hx(k, c, j), K0)))), extra=rb + rx)
        else:
            YZ = t.tval('S.YZ_[*]', k)
            Z = lambda b, z: YZ.at(b, iadd(nh, z))
            rz = [ile(ic(0), z), ilt(z, isub(nu, nh))]
            t.eq('the nullspace basis keeps the constraints', dotsum(nu, lambda b: mul(Hu(k, i, b), Z(b, z))), ZERO, extra=rh + rz)
            t.eq('the feedforward minimises the model along the nullspace', dotsum(nu, lambda b: mul(Z(b, z), gr(b))), ZERO, extra=rz)
            t.eq('the feedback minimises the model along the nullspace', dotsum(nu, lambda b: mul(Z(b, z), gx(b))), ZERO, extra=rz + rx)
        o = t.nat('o')
        for f in ('K_', 'k_'):
            v = t.tval('S.%s[*]' % f, o); fi, fj = iv('fi'), iv('fj')
            t.eq('frame: %s of another node' % f, v.at(fi, ic(0) if v.isvec() else fj), rapp('S.%s[*]' % f, *((o, fi) if v.isvec() else (o, fi, fj))), extra=[bnot(ieq(o, k))])
        t.sides()
        return t
    return go


def unconstrained(mode):
    def go(db):
        t, p, s = base(db, mode, 'computeGains')
        k = node(t, p)
        nu, nh, n = p.nu(k), p.nh(k), p.ndx
        t.require(ieq(nh, ic(0)))
        t.call(s, C, 'calcDiff', [])
        t.call(s, C, 'computeGains', [k])
        Ql = Ten(nu, nu, lambda a, b: add(rapp('quu', k, a, b), rapp('quu', k, b, a))).lam()
        inv = lambda i, a: rapp('inv', Ql, i, a)
        pos = [ilt(ic(0), nu)]
        t.eqt('feedback', t.tval('S.K_[*]', k), lambda i, j: dotsum(nu, lambda a: mul(inv(i, a), rapp('S.Qxu_[*]', k, j, a))), nu, n, extra=pos)
        t.eqt('feedforward', t.tval('S.k_[*]', k), lambda i: dotsum(nu, lambda a: mul(inv(i, a), rapp('S.Qu_[*]', k, a))), nu, extra=pos)
        t.sides()
        return t
    return go


def value(db):
    t, p, s = base(db, None, 'computeValueFunction')
    k = node(t, p)
    t.call(s, C, 'computeValueFunction', [k, p.m(k)])
    cv = lambda n: (lambda k, *i: rapp('S.%s[*]' % n, toint(k), *i))
    reg = ite(bapp('isnan', rapp('S.preg_')), ZERO, rapp('S.preg_'))
    n, nu = p.ndx, p.nu(k)
    Qx, Qu, Qxx, Qxu, K, kk, fs = [cv(x) for x in 'Qx_ Qu_ Qxx_ Qxu_ K_ k_ fs_'.split()]
    Q = lambda a, b: add(rapp('quu', k, a, b), rapp('quu', k, b, a))
    raw = lambda i, j: sub(add(Qxx(k, i, j), dotsum(nu, lambda a: dotsum(nu, lambda b: mul(K(k, a, i), Q(a, b), K(k, b, j))))), mul(num(2), dotsum(nu, lambda a: mul(Qxu(k, i, a), K(k, a, j)))))
    Vxx = lambda i, j: add(mul(num('1/2'), add(raw(i, j), raw(j, i))), ite(ieq(i, j), reg, ZERO))
    g = lambda a: sub(Qu(k, a), dotsum(nu, lambda b: mul(Q(a, b), kk(k, b))))
    Vx0 = lambda i: sub(sub(Qx(k, i), dotsum(nu, lambda a: mul(Qxu(k, i, a), kk(k, a)))), dotsum(nu, lambda a: mul(K(k, a, i), g(a))))
    Vx = lambda i: add(Vx0(i), ite(bapp('S.is_feasible_'), ZERO, dotsum(n, lambda a: mul(Vxx(i, a), fs(k, a)))))
    t.eqt('Hessian of the value of the policy', t.tval('S.Vxx_[*]', k), Vxx, n, n)
    t.eqt('gradient of the value of the policy', t.tval('S.Vx_[*]', k), Vx, n)
    t.eqt('Qu unchanged', t.tval('S.Qu_[*]', k), lambda i: Qu(k, i), nu)
    t.eqt('Quuk', t.tval('S.Quuk_[*]', k), lambda i: dotsum(nu, lambda a: mul(Q(i, a), kk(k, a))), nu, extra=[ilt(ic(0), nu)])
    t.sides()
    t.frame(['S.Vxx_[*]', 'S.Vx_[*]', 'S.Quuk_[*]', 'S.Vxx_tmp_', 'S.Qu_[*]', 'S.KQuu_tmp_[*]'])
    return t


TASKS = {'value function': value, 'storage after resizeData': storage(C, 'resizeData', ('base', 'ddp', 'intro'))}
for _m in MODES:
    TASKS['policy ' + _m] = policy(_m)
    TASKS['no constraints ' + _m] = unconstrained(_m)
