"""P17: trial trajectories (forward passes) of DDP, FDDP, BoxDDP, BoxFDDP."""
from spec import *
from shoot import *

UNITS = ['ddp', 'fddp', 'box-ddp', 'box-fddp', 'solver-base', 'optctrl/shooting', 'action-base', 'state-base']
HARNESS = 'h17'
NOTE = ('For every horizon, every per-node control dimension (including zero), every step length and every pair of models/states '
        '(abstract pure calc/diff/integrate contracts) the trial states, controls and cost of the four forward passes are proved to be the specified rollout; reals for doubles.')


def base(db, cls):
    t = Task(db, '')
    p = problem(t, 'S.problem_')
    s = solver(t, 'S', cls, p)
    model_contracts(t, p.nx, p.ndx, ndims(p))
    state_contracts(t, p.nx, p.ndx)
    t.fn_ = cls + '::forwardPass'
    return t, p, s


def so(p, k=None):
    return oapp(p.M + '.state_', toint(k)) if k is not None else oapp(p.TM + '.state_')


def S1(n, k, r): return Ten(r, 1, lambda i, j: rapp('S.%s[*]' % n, toint(k), i))


def fwd(cls, mode):
    """mode: 'rollout' (gaps closed), 'gaps' (gaps kept open)"""
    box = 'Box' in cls
    def go(db):
        t, p, s = base(db, cls)
        a = rapp('alpha')
        feas = bapp('S.is_feasible_')
        NV.RANGE['alpha'] = (0.0, 1.0)
        gaps = mode == 'gaps'
        if cls in ('SolverFDDP', 'SolverBoxFDDP'):
            c = bor(feas, req(a, ONE))
            t.require(bnot(c) if gaps else c)
        t.call(s, cls, 'forwardPass', [a])
        n = p.nx
        x = lambda k: t.tval('S.xs_try_[*]', k)
        u = lambda k: t.tval('S.us_try_[*]', k)
        k = iv('k'); t.require(ile(ic(0), k), ilt(k, p.T))
        k1 = iadd(k, ic(1))
        fgap = lambda k: Ten(p.ndx, 1, lambda i, j: mul(rapp('S.fs_[*]', toint(k), i), sub(a, ONE)))
        shift = (lambda so_, v, k: Ten(n, 1, lambda i, j: rapp('integ', so_, v.lam(), fgap(k).lam(), i))) if gaps else (lambda so_, v, k: v)
        x0 = Ten(n, 1, lambda i, j: rapp('S.problem_.x0_', i))
        if cls == 'SolverDDP':
            t.eqt('first state', x(ic(0)), lambda i: rapp('S.xs_try_[*]', ic(0), i), n)
        else:
            t.eqt('first state', x(ic(0)), shift(so(p, ic(0)), x0, ic(0)).at, n)
        dx = lambda k: Ten(p.ndx, 1, lambda i, j: rapp('diff', so(p, k), S1('xs_', k, n).lam(), x(k).lam(), i))
        nu = p.nu(k)
        un = (k,)
        t.eqt('state deviation', t.tval('S.dx_[*]', k), dx(k).at, p.ndx, unfold=un)
        pol = lambda i: sub(sub(rapp('S.us_[*]', k, i), mul(a, rapp('S.k_[*]', k, i))), dotsum(p.ndx, lambda b: mul(rapp('S.K_[*]', k, i, b), dx(k).at(b))))
        if box:
            lim = bapp(p.M + '.has_control_limits_', k)
            pol0 = pol
            pol = lambda i: ite(lim, fn('min', fn('max', pol0(i), rapp(p.M + '.u_lb_', k, i)), rapp(p.M + '.u_ub_', k, i)), pol0(i))
        t.eqt('control', u(k), pol, nu, extra=[ilt(ic(0), nu)], unfold=un)
        for nm, pos, ul in (('with controls', ilt(ic(0), nu), lambda: u(k).lam()), ('without controls', ieq(nu, ic(0)), lambda: NOU)):
            f = lambda i: rapp('f', p.m(k), x(k).lam(), ul(), i)
            fT = Ten(n, 1, lambda i, j: f(i))
            nxt = lambda i: ite(ilt(k1, p.T), shift(so(p, k1), fT, k1).at(i), shift(so(p), fT, p.T).at(i))
            t.eqt('next state, node ' + nm, x(k1), nxt, n, extra=[pos], unfold=un)
            t.eqt('data of the node ' + nm, t.tval(p.Dd + '.xnext', k), f, n, extra=[pos], unfold=un)
            t.eq('cost of the node ' + nm, t.rval(p.Dd + '.cost', k), rapp('cost', p.m(k), x(k).lam(), ul()), extra=[pos], unfold=un)
        t.eq('terminal cost', t.rval(p.TD + '.cost'), rapp('cost', p.tm, x(p.T).lam(), NOU))
        q = fresh('q')
        t.eq('trial cost', t.rval('S.cost_try_'), add(rsum(q, ic(0), p.T, t.rval(p.Dd + '.cost', iv(q))), t.rval(p.TD + '.cost')))
        t.holds('the trial cost is finite', bnot(bapp('raiseIfNaN', t.rval('S.cost_try_'))))
        t.holds('every next state is finite', bnot(bapp('raiseIfNaN', norminf(t.tval(p.Dd + '.xnext', k)))), unfold=un)
        t.frame(['S.xs_try_[*]', 'S.us_try_[*]', 'S.dx_[*]', 'S.cost_try_', 'S.xnext_'] + [q_ + '.' + f for q_ in (p.Dd, p.TD) for f in ('cost', 'xnext', 'g', 'h')])
        t.sides()
        return t
    return go


def norminf(v):
    i = fresh('n')
    return maxo(i, ic(0), v.rows, fn('abs', v.at(iv(i))))


def t_range(cls):
    def go(db):
        t, p, s = base(db, cls)
        a = rapp('alpha')
        NV.RANGE['alpha'] = (-0.7, 1.7)
        t.call(s, cls, 'forwardPass', [a])
        t.holds('normal return only for a step length in [0,1]', band(rle(ZERO, a), rle(a, ONE)))
        return t
    return go


def t_try(cls):
    def go(db):
        t, p, s = base(db, cls)
        t.fn_ = 'SolverDDP::tryStep'
        a = rapp('alpha')

        def fp(ex, st, obj, args, node):
            ex.write(st, 'S.cost_try_', (), D, rapp('trial_cost', ex.rval(args[0], st)))
        t.contract(cls, 'forwardPass', fp)
        r = t.call(s, cls, 'tryStep', [a])
        t.eq('cost decrease', r, sub(rapp('S.cost_'), rapp('trial_cost', a)))
        return t
    return go


TASKS = {}
for _c in ('SolverDDP', 'SolverFDDP', 'SolverBoxDDP', 'SolverBoxFDDP'):
    TASKS['forward pass ' + _c] = fwd(_c, 'rollout')
    if 'FDDP' in _c: TASKS['forward pass with gaps ' + _c] = fwd(_c, 'gaps')
    TASKS['step length ' + _c] = t_range(_c)
    TASKS['tryStep ' + _c] = t_try(_c)
