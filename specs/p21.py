"""P21: box-constrained shooting solvers."""
from spec import *
from shoot import *
import p17

UNITS = ['box-qp', 'box-ddp', 'box-fddp', 'ddp', 'fddp', 'solver-base', 'optctrl/shooting', 'action-base', 'diff-action-base', 'state-base']
HARNESS = 'h21'
NOTE = 'computeGains against the contract of BoxQP::solve that P20 proves (sizes of the call are an obligation here); forward passes for every horizon, limits, gains and step length.'
ASSUME = ['u_lb <= u_ub for a node that declares limits', 'BoxQP::solve meets its contract (proved under P20)', 'maxiter >= 1 of the quadratic program (set by the constructor)']

QP = 'S.qp_.'


def boxqp_contract(t):
    """BoxQP::solve(H,q,lb,ub,x0): throws unless all sizes are nx_ and the free block is positive definite; otherwise the solution is within
    [lb,ub], the free/clamped lists are the increasing lists of the free/clamped variables, clamped variables sit at a bound, and Hff_inv
    is a (number of free)^2 matrix"""
    t.setcls('S.qp_', 'BoxQP'); t.setcls(QP + 'solution_', 'BoxQPSolution')
    t.init(QP + 'nx_', t.nat('nx0'))
    nm = {'free': 'filt#qpfree', 'clamped': 'filt#qpclamped'}
    calls = []

    def cnt(n, o, m):
        k = fresh('k')
        b = bapp('qp.free', o, iv(k))
        return isum(k, ic(0), m, iite(b if n == 'free' else bnot(b), ic(1), ic(0)))

    def define(n):
        def d(T, o):
            return (lambda k: bapp('qp.free', o, k) if n == 'free' else bnot(bapp('qp.free', o, k))), (lambda k: cnt(n, o, k))
        return d
    for n in nm: NF.FILTS[nm[n]] = define(n)

    def solve(ex, st, obj, args, node):
        v = [ex.ten(a, st) for a in args]
        nx = ex.read(st, QP + 'nx_', (), 'size_t')
        bad = bor(*[bnot(ieq(x.rows, nx)) for x in v] + [bnot(ieq(v[0].cols, nx))])
        res = oapp('qp', ic(len(calls)))
        calls.append(v)
        c = bor(bad, bnot(bapp('qp.posdef', res)))
        th = st.copy(); th.pc = st.pc + (c,)
        ex.throws.append((th.pc, th))
        st.pc = st.pc + (bnot(c),)
        nf, nc = cnt('free', res, nx), cnt('clamped', res, nx)
        for n, c in (('free', nf), ('clamped', nc)):
            ex.write(st, QP + 'solution_.%s_idx.#' % n, (), 'size_t', c)
            ex.setbase(st, QP + 'solution_.%s_idx[*]' % n, 'size_t', (lambda n: lambda idx: iapp(nm[n], nx, res, idx[0]))(n))
        ex.write(st, QP + 'solution_.x', (), VEC, Ten(nx, 1, lambda i, j: rapp('qp.x', res, i)))
        ex.write(st, QP + 'solution_.Hff_inv', (), MAT, Ten(nf, nf, lambda i, j: rapp('qp.Hinv', res, i, j)))
        i = fresh('i')
        x = lambda i: rapp('qp.x', res, i)
        lo, hi = (lambda i: v[2].at(i, ic(0))), (lambda i: v[3].at(i, ic(0)))
        st.pc = st.pc + (ball(i, ic(0), nx, band(rle(lo(iv(i)), x(iv(i))), rle(x(iv(i)), hi(iv(i))))),)
        st.pc = st.pc + (ball(i, ic(0), nx, bor(bapp('qp.free', res, iv(i)), req(x(iv(i)), lo(iv(i))), req(x(iv(i)), hi(iv(i))))),)
        return oapp(QP + 'solution_')
    t.contract('BoxQP', 'solve', solve)
    return calls


def gains(cls, plain):
    def go(db):
        t = Task(db, cls + '::computeGains')
        p = problem(t, 'S.problem_')
        s = solver(t, 'S', cls, p)
        model_contracts(t, p.nx, p.ndx, ndims(p)); state_contracts(t, p.nx, p.ndx)
        n = p.ndx
        k = t.nat('t'); t.require(ilt(k, p.T))
        nu = p.nu(k)
        calls = boxqp_contract(t)
        lim, feas = bapp(p.M + '.has_control_limits_', k), bapp('S.is_feasible_')
        box = band(lim, feas, ilt(ic(0), nu))
        i = fresh('i')
        ub, lb, us = [lambda i, f=f: rapp(f, k, i) for f in (p.M + '.u_ub_', p.M + '.u_lb_', 'S.us_[*]')]
        t.require(ball(i, ic(0), nu, rle(lb(iv(i)), ub(iv(i)))))
        t.require(box if not plain else bnot(box))
        t.call(s, cls, 'computeGains', [k])
        Q = Ten(nu, nu, lambda i, j: rapp('S.Quu_[*]', k, i, j))
        Qu, Qxu = (lambda i: rapp('S.Qu_[*]', k, i)), (lambda i, j: rapp('S.Qxu_[*]', k, i, j))
        if plain:
            t.holds('the quadratic program is not used', tobool(not calls))
            ql = Q.lam()
            inv = lambda i, a: rapp('inv', ql, i, a)
            t.eqt('unconstrained feedback', t.tval('S.K_[*]', k), lambda i, j: dotsum(nu, lambda a: mul(inv(i, a), Qxu(j, a))), nu, n, extra=[ilt(ic(0), nu)])
            t.eqt('unconstrained feedforward', t.tval('S.k_[*]', k), lambda i: dotsum(nu, lambda a: mul(inv(i, a), Qu(a))), nu, extra=[ilt(ic(0), nu)])
            t.eqt('Qu unchanged', t.tval('S.Qu_[*]', k), Qu, nu)
            t.throws_iff('factorisation', band(ilt(ic(0), nu), bnot(bapp('decomp_ok', oapp('K:Eigen::LLT'), ql))))
            t.frame(['S.K_[*]', 'S.k_[*]', 'S.Quu_llt_[*]'])
            t.sides()
            return t
        t.holds('the quadratic program is solved once', tobool(len(calls) == 1))
        H, q, lo, hi, w = calls[-1]
        t.eqt('Hessian of the quadratic program', H, Q.at, nu, nu)
        t.eqt('gradient of the quadratic program', q, Qu, nu)
        t.eqt('lower bound is the remaining control range', lo, lambda i: sub(lb(i), us(i)), nu)
        t.eqt('upper bound is the remaining control range', hi, lambda i: sub(ub(i), us(i)), nu)
        t.eq('size of the warm start', w.rows, nu)
        res = oapp('qp', ic(len(calls) - 1))
        fr = lambda i: bapp('qp.free', res, i)
        x = lambda i: rapp('qp.x', res, i)
        K, kk, Qn = t.tval('S.K_[*]', k), t.tval('S.k_[*]', k), t.tval('S.Qu_[*]', k)
        t.eqt('feedforward is minus the solution', kk, lambda i: mul(num(-1), x(i)), nu)
        c, j = iv(fresh('c')), iv(fresh('j'))
        ra = [ile(ic(0), c), ilt(c, nu), ile(ic(0), j), ilt(j, n)]
        t.holds('shape of the feedback', band(ieq(K.rows, nu), ieq(K.cols, n)))
        t.eq('zero feedback on clamped controls', K.at(c, j), ZERO, extra=ra + [bnot(fr(c))])
        pos = lambda i: isum('k', ic(0), i, iite(fr(iv('k')), ic(1), ic(0)))
        t.eq('feedback of the free controls', K.at(c, j), dotsum(nu, lambda b: mul(ite(fr(b), rapp('qp.Hinv', res, pos(c), pos(b)), ZERO), Qxu(j, b))), extra=ra + [fr(c)])
        t.eq('gradient of a clamped control is dropped', Qn.at(c, ic(0)), ZERO, extra=ra + [bnot(fr(c))])
        t.eq('gradient of a free control is kept', Qn.at(c, ic(0)), Qu(c), extra=ra + [fr(c)])
        t.holds('a full step without state deviation stays within the limits', band(rle(lb(c), sub(us(c), kk.at(c, ic(0)))), rle(sub(us(c), kk.at(c, ic(0))), ub(c))), ra)
        t.holds('a clamped control sits at a limit', bor(req(sub(us(c), kk.at(c, ic(0))), lb(c)), req(sub(us(c), kk.at(c, ic(0))), ub(c))), ra + [bnot(fr(c))])
        t.throws_iff('free block not positive definite', bnot(bapp('qp.posdef', res)))
        t.frame(['S.K_[*]', 'S.k_[*]', 'S.Qu_[*]', 'S.Quu_inv_[*]', 'S.du_lb_[*]', 'S.du_ub_[*]'] + [kk_ for kk_ in t.st.cells if kk_.startswith('S.qp_.')])
        o = t.nat('o')
        for f in ('K_', 'k_', 'Qu_'):
            v = t.tval('S.%s[*]' % f, o); fi, fj = iv('fi'), iv('fj')
            t.eq('frame: %s of another node' % f, v.at(fi, ic(0) if v.isvec() else fj), rapp('S.%s[*]' % f, *((o, fi) if v.isvec() else (o, fi, fj))), extra=[bnot(ieq(o, k))])
        t.sides()
        return t
    return go


def fwd(cls, mode):
    def go(db):
        t, p, s = p17.base(db, cls)
        a = rapp('alpha'); NV.RANGE['alpha'] = (0.0, 1.0)
        if 'FDDP' in cls:
            c = bor(bapp('S.is_feasible_'), req(a, ONE))
            t.require(bnot(c) if mode == 'gaps' else c)
        t.call(s, cls, 'forwardPass', [a])
        k = iv('k'); t.require(ile(ic(0), k), ilt(k, p.T))
        c = iv('c'); nu = p.nu(k)
        lb, ub = rapp(p.M + '.u_lb_', k, c), rapp(p.M + '.u_ub_', k, c)
        u = t.tval('S.us_try_[*]', k)
        lim = bapp(p.M + '.has_control_limits_', k)
        t.holds('a trial control lies within the limits of its node', band(rle(lb, u.at(c)), rle(u.at(c), ub)), [ile(ic(0), c), ilt(c, nu), lim, rle(lb, ub)], unfold=(k,))
        x = t.tval('S.xs_try_[*]', k)
        dx = Ten(p.ndx, 1, lambda i, j: rapp('diff', p17.so(p, k), p17.S1('xs_', k, p.nx).lam(), x.lam(), i))
        pol = lambda i: sub(sub(rapp('S.us_[*]', k, i), mul(a, rapp('S.k_[*]', k, i))), dotsum(p.ndx, lambda b: mul(rapp('S.K_[*]', k, i, b), dx.at(b))))
        t.eqt('without limits the control is that of the policy', u, pol, nu, extra=[ilt(ic(0), nu), bnot(lim)], unfold=(k,))
        for nm, pos, ul in (('with controls', ilt(ic(0), nu), lambda: u.lam()), ('without controls', ieq(nu, ic(0)), lambda: NOU)):
            t.eqt('the node is evaluated at its trial control ' + nm, t.tval(p.Dd + '.xnext', k), lambda i: rapp('f', p.m(k), x.lam(), ul(), i), p.nx, extra=[pos], unfold=(k,))
        return t
    return go


TASKS = {}
for _c in ('SolverBoxDDP', 'SolverBoxFDDP'):
    TASKS['gains ' + _c] = gains(_c, False)
    TASKS['unconstrained gains ' + _c] = gains(_c, True)
    TASKS['forward pass ' + _c] = fwd(_c, 'rollout')
    if 'FDDP' in _c: TASKS['forward pass with gaps ' + _c] = fwd(_c, 'gaps')
    TASKS['storage ' + _c] = storage(_c, 'allocateData', ('ddp', 'ddpx', 'box'))
    TASKS['resized storage ' + _c] = storage(_c, 'resizeData', ('base', 'ddp', 'box'))


def limits(cls, which):
    """declaring limits: accepted exactly with the size of the control, stored as given; the node declares limits exactly when both
    bounds hold a finite entry"""
    def go(db):
        t = Task(db, '')
        m = t.obj('M', cls)
        t.fn_ = cls + '::set_' + which
        nu, n = t.nat('nu'), t.nat('new.size')
        t.init('M.nu_', nu); t.dims('M', u_lb_=(nu, 1), u_ub_=(nu, 1))
        t.call(m, cls, 'set_' + which, [t.vec('new', n)])
        t.throws_iff('limits', bnot(ieq(n, nu)))
        val = {w: (lambda i: rapp('new', i)) if w == which else (lambda w: lambda i: rapp('M.%s_' % w, i))(w) for w in ('u_lb', 'u_ub')}
        for w in val: t.eqt('stored ' + w, t.tval('M.%s_' % w), val[w], nu)
        k1, k2 = fresh('k'), fresh('k')
        some = lambda k, w: bnot(ball(k, ic(0), nu, bnot(bapp('isfinite', toreal(val[w](iv(k)))))))
        t.eq('limits declared', t.cell('M.has_control_limits_', typ='bool'), band(some(k1, 'u_lb'), some(k2, 'u_ub')))
        t.frame(['M.%s_' % which, 'M.has_control_limits_'])
        t.rejected(lambda k: k.startswith('M.'))
        return t
    return go


for _c in ('ActionModelAbstractTpl<double>', 'DifferentialActionModelAbstractTpl<double>'):
    for _w in ('u_lb', 'u_ub'): TASKS['declaring %s %s' % (_w, _c[:12])] = limits(_c, _w)
