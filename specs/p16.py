"""P16: DDP backward pass."""
from spec import *
from shoot import *

UNITS = ['ddp', 'fddp', 'solver-base', 'optctrl/shooting', 'action-base', 'state-base']
HARNESS = 'h16'


def base(db, cls='SolverDDP'):
    t = Task(db, '')
    p = problem(t, 'S.problem_')
    s = solver(t, 'S', cls, p)
    return t, p, s


def cv(n): return lambda k, *i: rapp('S.%s[*]' % n, toint(k), *i)
def dv(p, n): return lambda k, *i: rapp(p.Dd + '.' + n, toint(k), *i)


def spec_avf(t, p, k, Vx, Vxx, reg):
    """definition of the action-value terms at node k"""
    Lx, Lu, Lxx, Lxu, Luu, Fx, Fu = [dv(p, n) for n in 'Lx Lu Lxx Lxu Luu Fx Fu'.split()]
    n = p.ndx
    q = {}
    q['Qx'] = lambda i: add(Lx(k, i), dotsum(n, lambda a: mul(Fx(k, a, i), Vx(a))))
    q['Qu'] = lambda i: add(Lu(k, i), dotsum(n, lambda a: mul(Fu(k, a, i), Vx(a))))
    q['Qxx'] = lambda i, j: add(Lxx(k, i, j), dotsum(n, lambda a: dotsum(n, lambda b: mul(Fx(k, a, i), Vxx(a, b), Fx(k, b, j)))))
    q['Qxu'] = lambda i, j: add(Lxu(k, i, j), dotsum(n, lambda a: dotsum(n, lambda b: mul(Fx(k, a, i), Vxx(a, b), Fu(k, b, j)))))
    q['Quu'] = lambda i, j: add(Luu(k, i, j), dotsum(n, lambda a: dotsum(n, lambda b: mul(Fu(k, a, i), Vxx(a, b), Fu(k, b, j)))), ite(ieq(i, j), reg, ZERO))
    return q


def t_avf(db):
    t, p, s = base(db)
    t.fn_ = 'SolverDDP::computeActionValueFunction'
    k = t.nat('t')
    t.require(ilt(k, p.T))
    nan = bapp('isnan', rapp('S.preg_'))
    t.call(s, 'SolverDDP', 'computeActionValueFunction', [k, p.m(k), p.d(k)])
    reg = ite(bapp('isnan', rapp('S.preg_')), ZERO, rapp('S.preg_'))
    V, Vv = cv('Vxx_'), cv('Vx_')
    k1 = iadd(k, ic(1))
    q = spec_avf(t, p, k, lambda a: Vv(k1, a), lambda a, b: V(k1, a, b), reg)
    n, nu = p.ndx, p.nu(k)
    t.eqt('Qx', t.tval('S.Qx_[*]', k), q['Qx'], n)
    t.eqt('Qxx', t.tval('S.Qxx_[*]', k), q['Qxx'], n, n)
    for nm, r, c in (('Qu', nu, 1), ('Qxu', n, nu), ('Quu', nu, nu)):
        t.eqt(nm, t.tval('S.%s_[*]' % nm, k), q[nm], r, c)
    # frame: other nodes untouched
    o = t.nat('o')
    t.sides()
    for nm in ('Qx', 'Qxx', 'Qu', 'Qxu', 'Quu'):
        x = t.tval('S.%s_[*]' % nm, o)
        i, j = iv('fi'), iv('fj')
        t.eq('frame: %s of another node' % nm, x.at(i, ic(0) if x.isvec() else j), rapp('S.%s_[*]' % nm, *((o, i) if x.isvec() else (o, i, j))), extra=[bnot(ieq(o, k))])
    t.frame(['S.%s_[*]' % n for n in 'Qx Qxx Qu Qxu Quu FuTVxx_p'.split()] + ['S.FxTVxx_p_'])
    return t


def t_vf(db):
    t, p, s = base(db)
    t.fn_ = 'SolverDDP::computeValueFunction'
    k = t.nat('t')
    t.require(ilt(k, p.T))
    t.call(s, 'SolverDDP', 'computeValueFunction', [k, p.m(k)])
    reg = ite(bapp('isnan', rapp('S.preg_')), ZERO, rapp('S.preg_'))
    n, nu = p.ndx, p.nu(k)
    Qx, Qu, Qxx, Qxu, K, kk, Quu, fs = [cv(x) for x in 'Qx_ Qu_ Qxx_ Qxu_ K_ k_ Quu_ fs_'.split()]
    raw = lambda i, j: sub(Qxx(k, i, j), dotsum(nu, lambda a: mul(Qxu(k, i, a), K(k, a, j))))
    Vxx = lambda i, j: add(mul(num('1/2'), add(raw(i, j), raw(j, i))), ite(ieq(i, j), reg, ZERO))
    Vx0 = lambda i: sub(Qx(k, i), dotsum(nu, lambda a: mul(K(k, a, i), Qu(k, a))))
    feas = bapp('S.is_feasible_')
    Vx = lambda i: add(Vx0(i), ite(feas, ZERO, dotsum(n, lambda a: mul(Vxx(i, a), fs(k, a)))))
    t.eqt('Vxx', t.tval('S.Vxx_[*]', k), Vxx, n, n)
    t.eqt('Vx', t.tval('S.Vx_[*]', k), Vx, n)
    i, j = iv('si'), iv('sj')
    v = t.tval('S.Vxx_[*]', k)
    t.eq('Vxx symmetric', v.at(i, j), v.at(j, i))
    t.eqt('Quuk', t.tval('S.Quuk_[*]', k), lambda i: dotsum(nu, lambda a: mul(Quu(k, i, a), kk(k, a))), nu, extra=[ilt(ic(0), nu)])
    t.sides()
    t.frame(['S.Vxx_[*]', 'S.Vx_[*]', 'S.Quuk_[*]', 'S.Vxx_tmp_'])
    return t


def t_gains(db):
    t, p, s = base(db)
    t.fn_ = 'SolverDDP::computeGains'
    k = t.nat('t')
    t.require(ilt(k, p.T))
    t.call(s, 'SolverDDP', 'computeGains', [k])
    n, nu = p.ndx, p.nu(k)
    Quu = Ten(nu, nu, lambda i, j: rapp('S.Quu_[*]', k, i, j))
    Ql = Quu.lam()
    invQ = lambda i, a: rapp('inv', Ql, i, a)
    t.eqt('K', t.tval('S.K_[*]', k), lambda i, j: dotsum(nu, lambda a: mul(invQ(i, a), rapp('S.Qxu_[*]', k, j, a))), nu, n)
    t.eqt('k', t.tval('S.k_[*]', k), lambda i: dotsum(nu, lambda a: mul(invQ(i, a), rapp('S.Qu_[*]', k, a))), nu)
    t.throws_iff('factorisation', band(ilt(ic(0), nu), bnot(bapp('decomp_ok', oapp('K:Eigen::LLT'), Ql))))
    t.sides()
    t.frame(['S.K_[*]', 'S.k_[*]', 'S.Quu_llt_[*]'])
    return t


def t_bp(db):
    t, p, s = base(db)
    t.fn_ = 'SolverDDP::backwardPass'
    t.call(s, 'SolverDDP', 'backwardPass', [])
    k = t.nat('t')
    t.require(ilt(k, p.T))
    reg = ite(bapp('isnan', rapp('S.preg_')), ZERO, rapp('S.preg_'))
    feas = bapp('S.is_feasible_')
    n, nu = p.ndx, p.nu(k)
    g = lambda nm, kk: t.tval('S.%s_[*]' % nm, kk)
    k1 = iadd(k, ic(1))
    Vp, Vvp = g('Vxx', k1), g('Vx', k1)
    q = spec_avf(t, p, k, lambda a: Vvp.at(a), lambda a, b: Vp.at(a, b), reg)
    un = (isub(isub(p.T, ic(1)), k),)
    t.eqt('Qx', g('Qx', k), q['Qx'], n, unfold=un)
    t.eqt('Qxx', g('Qxx', k), q['Qxx'], n, n, unfold=un)
    for nm, r, c in (('Qu', nu, 1), ('Qxu', n, nu), ('Quu', nu, nu)):
        t.eqt(nm, g(nm, k), q[nm], r, c, unfold=un)
    return t


TASKS = {'action-value function': t_avf, 'value function': t_vf, 'gains': t_gains, 'backward pass': t_bp}
TASKS['storage'] = storage('SolverDDP', 'allocateData', ('ddp', 'ddpx'))
TASKS['resized storage'] = storage('SolverDDP', 'resizeData', ('base', 'ddp'))


def t_direction(db):
    """the direction of a pass: derivatives of the current candidate when asked for, then one backward pass"""
    t = Task(db, '')
    p = problem(t, 'S.problem_')
    s = solver(t, 'S', 'SolverDDP', p)
    t.fn_ = 'SolverDDP::computeDirection'
    for g in ('G.diff', 'G.back'): t.init(g, ic(0))
    rd = lambda st, k: t.ex.read(st, k, (), 'size_t')
    def cd(ex, st, obj, args, node):
        ex.oblig(st, 'derivatives are evaluated before the pass', ieq(rd(st, 'G.back'), ic(0)))
        ex.write(st, 'G.diff', (), 'size_t', iadd(rd(st, 'G.diff'), ic(1)))
        return rapp('cost of the candidate')
    t.contract('SolverDDP', 'calcDiff', cd)
    t.contract('SolverDDP', 'backwardPass', lambda ex, st, obj, args, node: ex.write(st, 'G.back', (), 'size_t', iadd(rd(st, 'G.back'), ic(1))))
    t.call(s, 'SolverDDP', 'computeDirection', [bapp('recalc')])
    t.eq('derivatives evaluated exactly when requested', rd(t.st, 'G.diff'), ite(bapp('recalc'), ic(1), ic(0)))
    t.eq('one backward pass', rd(t.st, 'G.back'), ic(1))
    t.throws_iff('never by itself', FALSE)
    t.frame(['G.diff', 'G.back'])
    return t


TASKS['direction'] = t_direction
