"""P18: predicted improvement and stopping measures."""
from spec import *
from shoot import *

UNITS = ['ddp', 'fddp', 'intro', 'kkt', 'solver-base', 'optctrl/shooting', 'action-base', 'state-base']
HARNESS = 'h18'
NOTE = 'The first/second order terms of DDP, FDDP and KKT and the stopping measures are proved for every horizon and per-node control dimension.'


def base(db, cls):
    t = Task(db, '')
    p = problem(t, 'S.problem_')
    s = solver(t, 'S', cls, p)
    state_contracts(t, p.nx, p.ndx)
    model_contracts(t, p.nx, p.ndx, ndims(p))
    return t, p, s


def cell(n): return lambda k, *i: rapp('S.%s[*]' % n, toint(k), *i)


def dotv(n, a, b): return dotsum(n, lambda i: mul(a(i), b(i)))
def quad(n, v, A, w): return dotsum(n, lambda i: mul(v(i), dotsum(n, lambda j: mul(A(i, j), w(j)))))


def ctrl(p):
    Qu, k_, Qk = cell('Qu_'), cell('k_'), cell('Quuk_')
    g1 = lambda k: dotv(p.nu(k), lambda i: Qu(k, i), lambda i: k_(k, i))
    g2 = lambda k: mul(num(-1), dotv(p.nu(k), lambda i: k_(k, i), lambda i: Qk(k, i)))
    return g1, g2


def sumT(n, f):
    q = fresh('q')
    return rsum(q, ic(0), n, f(iv(q)))


def t_ddp(db):
    t, p, s = base(db, 'SolverDDP')
    t.fn_ = 'SolverDDP::expectedImprovement'
    t.call(s, 'SolverDDP', 'expectedImprovement', [])
    g1, g2 = ctrl(p)
    d = t.tval('S.d_')
    t.eq('first-order term', d.at(0), sumT(p.T, g1))
    t.eq('second-order term', d.at(1), sumT(p.T, g2))
    t.frame(['S.d_'])
    t.sides()
    return t


def gaps(p, feas):
    Vx, Vxx, fs = cell('Vx_'), cell('Vxx_'), cell('fs_')
    n = p.ndx
    T1 = iadd(p.T, ic(1))
    lin = sumT(T1, lambda k: mul(num(-1), dotv(n, lambda i: Vx(k, i), lambda i: fs(k, i))))
    qd = sumT(T1, lambda k: quad(n, lambda i: fs(k, i), lambda i, j: Vxx(k, i, j), lambda j: fs(k, j)))
    return ite(feas, ZERO, lin), ite(feas, ZERO, qd)


def t_upd(db):
    t, p, s = base(db, 'SolverFDDP')
    t.fn_ = 'SolverFDDP::updateExpectedImprovement'
    t.call(s, 'SolverFDDP', 'updateExpectedImprovement', [])
    g1, g2 = ctrl(p)
    a, b = gaps(p, bapp('S.is_feasible_'))
    t.eq('control and gap gradient', t.rval('S.dg_'), add(sumT(p.T, g1), a))
    t.eq('control and gap curvature', t.rval('S.dq_'), add(sumT(p.T, g2), b))
    t.frame(['S.dg_', 'S.dq_', 'S.fTVxx_p_'])
    t.sides()
    return t


def t_exp(cls):
    def go(db):
        t, p, s = base(db, cls)
        t.fn_ = cls + '::expectedImprovement'
        t.call(s, cls, 'expectedImprovement', [])
        n = p.ndx
        Vxx, fs = cell('Vxx_'), cell('fs_')
        S1 = lambda nm, k: Ten(p.nx, 1, lambda i, j: rapp('S.%s[*]' % nm, toint(k), i)).lam()
        so = lambda k: ite(ilt(k, p.T), oapp(p.M + '.state_', k), oapp(p.TM + '.state_'))
        dx = lambda k, i: ite(ilt(k, p.T), rapp('diff', oapp(p.M + '.state_', toint(k)), S1('xs_try_', k), S1('xs_', k), i),
                              rapp('diff', oapp(p.TM + '.state_'), S1('xs_try_', k), S1('xs_', k), i))
        feas = bapp('S.is_feasible_')
        dv = ite(feas, ZERO, sumT(iadd(p.T, ic(1)), lambda k: mul(num(-1), quad(n, lambda i: fs(k, i), lambda i, j: Vxx(k, i, j), lambda j: dx(k, j)))))
        d = t.tval('S.d_')
        t.eq('first-order term', d.at(0), add(rapp('S.dg_'), dv))
        t.eq('second-order term', d.at(1), sub(rapp('S.dq_'), mul(num(2), dv)))
        t.eq('gap term', t.rval('S.dv_'), dv)
        t.frame(['S.d_', 'S.dv_', 'S.dx_[*]', 'S.fTVxx_p_'])
        t.sides()
        return t
    return go


def t_stop(cls, spec):
    def go(db):
        t, p, s = base(db, cls)
        t.fn_ = cls + '::stoppingCriteria'
        t.dims('S', d_=(2, 1))
        r = t.call(s, cls, 'stoppingCriteria', [])
        w = spec(lambda i: rapp('S.d_', ic(i)))
        t.eq('stopping measure', t.rval('S.stop_'), w)
        t.eq('returned measure', r, w)
        t.frame(['S.stop_'])
        return t
    return go


half = num('1/2')
st_ddp = lambda d: fn('abs', add(d(0), mul(half, d(1))))
st_intro = lambda d: fn('max', rapp('S.hfeas_'), st_ddp(d))


# ---- KKT
def kkt_solver(t, p):
    T, ndx = p.T, p.ndx
    T1 = iadd(T, ic(1))
    k = fresh('k')
    NX = imul(T1, ndx)
    NU = isum(k, ic(0), T, p.nu(iv(k)))
    t.init('S.ndx_', NX); t.init('S.nu_', NU); t.init('S.nx_', imul(T1, p.nx))
    n1 = iadd(NX, NU); n2 = iadd(n1, NX)
    t.dims('S', kkt_=(n2, n2), kktref_=(n2, 1), primaldual_=(n2, 1), primal_=(n1, 1), kkt_primal_=(n1, 1), dual_=(NX, 1), dF=(n1, 1), d_=(2, 1))
    for f, n, rc in (('dxs_', T1, lambda k: (ndx, ic(1))), ('dus_', T, lambda k: (p.nu(k), ic(1))), ('lambdas_', T1, lambda k: (ndx, ic(1)))):
        t.size('S.' + f, n)
        t.ex.dims['S.' + f + '[*]'] = rc
    return NX, NU, n1, n2


def t_kkt(db):
    t, p, s = base(db, 'SolverKKT')
    t.fn_ = 'SolverKKT::expectedImprovement'
    NX, NU, n1, n2 = kkt_solver(t, p)
    t.call(s, 'SolverKKT', 'expectedImprovement', [])
    P = lambda i: rapp('S.primal_', i)
    d = t.tval('S.d_')
    t.eq('first-order term', d.at(0), mul(num(-1), dotv(n1, lambda i: rapp('S.kktref_', i), P)))
    t.eq('second-order term', d.at(1), mul(num(-1), quad(n1, P, lambda i, j: rapp('S.kkt_', i, j), P)))
    t.frame(['S.d_', 'S.kkt_primal_'])
    t.sides()
    return t


def off(p, k):
    q = fresh('q')
    return isum(q, ic(0), k, p.nu(iv(q)))


def t_kkt_stop(db):
    t, p, s = base(db, 'SolverKKT')
    t.fn_ = 'SolverKKT::stoppingCriteria'
    NX, NU, n1, n2 = kkt_solver(t, p)
    r = t.call(s, 'SolverKKT', 'stoppingCriteria', [])
    n = p.ndx
    T1 = iadd(p.T, ic(1))
    lam_ = lambda k, i: rapp('S.lambdas_[*]', toint(k), i)
    k1 = lambda k: iadd(k, ic(1))
    # Lagrangian gradient blocks
    gx = lambda k, i: add(rapp('S.kktref_', iadd(imul(k, n), i)), lam_(k, i),
                          ite(ilt(k, p.T), mul(num(-1), dotsum(n, lambda a: mul(rapp(p.Dd + '.Fx', toint(k), a, i), lam_(k1(k), a)))), ZERO))
    gu = lambda k, i: sub(rapp('S.kktref_', iadd(iadd(NX, off(p, k)), i)), dotsum(n, lambda a: mul(rapp(p.Dd + '.Fu', toint(k), a, i), lam_(k1(k), a))))
    k = iv('k'); t.require(ile(ic(0), k), ile(k, p.T))
    dF = t.tval('S.dF')
    i = iv('i')
    t.eq('state part of the multiplier gradient', dF.at(iadd(imul(k, n), i)), sub(gx(k, i), rapp('S.kktref_', iadd(imul(k, n), i))), extra=[ile(ic(0), i), ilt(i, n), ilt(k, p.T)])
    t.eq('terminal part of the multiplier gradient', dF.at(iadd(imul(p.T, n), i)), lam_(p.T, i), extra=[ile(ic(0), i), ilt(i, n)])
    t.eq('control part of the multiplier gradient', dF.at(iadd(iadd(NX, off(p, k)), i)), sub(gu(k, i), rapp('S.kktref_', iadd(iadd(NX, off(p, k)), i))), extra=[ile(ic(0), i), ilt(k, p.T), ilt(i, p.nu(k))])
    sq = lambda x: mul(x, x)
    w = add(dotsum(n1, lambda i: sq(add(rapp('S.kktref_', i), dF.at(i)))), dotsum(NX, lambda i: sq(rapp('S.kktref_', iadd(n1, i)))))
    t.eq('stopping measure', t.rval('S.stop_'), w)
    t.eq('returned measure', r, t.rval('S.stop_'))
    return t


TASKS = {'expected improvement DDP': t_ddp, 'update of the expected improvement FDDP': t_upd, 'expected improvement FDDP': t_exp('SolverFDDP'),
         'stopping DDP': t_stop('SolverDDP', st_ddp), 'stopping FDDP': t_stop('SolverFDDP', st_ddp), 'stopping Intro': t_stop('SolverIntro', st_intro),
         'expected improvement KKT': t_kkt, 'stopping KKT': t_kkt_stop}
