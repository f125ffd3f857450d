"""P23: the KKT system of the full-space solver."""
from spec import *
from shoot import *
from p18 import kkt_solver, off

UNITS = ['kkt', 'solver-base', 'optctrl/shooting', 'action-base', 'state-base']
HARNESS = 'h23'
NOTE = 'Every block of the KKT matrix and vector for an arbitrary pair of nodes and arbitrary per-node control dimensions; entries outside the blocks keep their (zero) value.'
CLS = 'SolverKKT'


def base(db):
    t = Task(db, '')
    p = problem(t, 'S.problem_')
    s = solver(t, 'S', CLS, p)
    state_contracts(t, p.nx, p.ndx)
    model_contracts(t, p.nx, p.ndx, ndims(p))
    p.NX, p.NU, p.n1, p.n2 = kkt_solver(t, p)
    return t, p, s


def t_diff(part):
    def go(db):
        t, p, s = base(db)
        t.fn_ = CLS + '::calcDiff'
        n, T = p.ndx, p.T
        t.contract(SP, 'calc', lambda ex, st, obj, args, node: rapp('problem_cost'))
        t.contract(SP, 'calcDiff', lambda ex, st, obj, args, node: rapp('problem_cost'))
        r = t.call(s, CLS, 'calcDiff', [])
        k, l, i, j = iv('k'), iv('l'), iv('i'), iv('j')
        inr = lambda v, m: [ile(ic(0), v), ilt(v, m)]
        D_ = lambda f, k, *ix: rapp(p.Dd + '.' + f, toint(k), *ix)
        DT = lambda f, *ix: rapp(p.TD + '.' + f, *ix)
        xo = lambda k, i: iadd(imul(k, n), i)
        uo = lambda k, i: iadd(iadd(p.NX, off(p, k)), i)
        co = lambda k, i: iadd(iadd(p.n1, imul(k, n)), i)
        K = t.tval('S.kkt_'); R = t.tval('S.kktref_')
        old = lambda a, b: rapp('S.kkt_', a, b)
        e = lambda nm, a, b, w, fx: t.eq(nm, K.at(a, b), w, extra=fx)
        T1 = iadd(T, ic(1))
        X = lambda k, i: inr(k, T1) + inr(i, n)
        Xr = lambda k, i: inr(k, T) + inr(i, n)
        U = lambda k, i: inr(k, T) + inr(i, p.nu(k))
        if part == 'hessian':
            e('Hessian state-state, same node', xo(k, i), xo(k, j), D_('Lxx', k, i, j), Xr(k, i) + inr(j, n))
            e('Hessian state-state, terminal node', xo(T, i), xo(T, j), DT('Lxx', i, j), inr(i, n) + inr(j, n))
            e('Hessian state-state, different nodes', xo(k, i), xo(l, j), old(xo(k, i), xo(l, j)), X(k, i) + X(l, j) + [bnot(ieq(k, l))])
            e('Hessian state-control, same node', xo(k, i), uo(k, j), D_('Lxu', k, i, j), Xr(k, i) + inr(j, p.nu(k)))
            e('Hessian control-state, same node', uo(k, i), xo(k, j), D_('Lxu', k, j, i), U(k, i) + inr(j, n))
            e('Hessian control-control, same node', uo(k, i), uo(k, j), D_('Luu', k, i, j), U(k, i) + inr(j, p.nu(k)))
            e('Hessian state-control, different nodes', xo(k, i), uo(l, j), old(xo(k, i), uo(l, j)), X(k, i) + U(l, j) + [bnot(ieq(k, l))])
            e('Hessian control-state, different nodes', uo(k, i), xo(l, j), old(uo(k, i), xo(l, j)), U(k, i) + X(l, j) + [bnot(ieq(k, l))])
            e('Hessian control-control, different nodes', uo(k, i), uo(l, j), old(uo(k, i), uo(l, j)), U(k, i) + U(l, j) + [bnot(ieq(k, l))])
        if part in ('rows', 'columns'):
            for nm, f in (('rows', lambda a, b: (a, b)), ('columns', lambda a, b: (b, a))):
                if nm != part: continue
                q = lambda lab, a, b, w, fx: e('constraint %s: %s' % (nm, lab), *f(a, b), w, fx)
                q('state of the own node', co(k, i), xo(k, j), ite(ieq(i, j), num(1), ZERO), X(k, i) + inr(j, n))
                q('state of the previous node', co(iadd(k, ic(1)), i), xo(k, j), mul(num(-1), D_('Fx', k, i, j)), Xr(k, i) + inr(j, n))
                q('other states', co(k, i), xo(l, j), ZERO, X(k, i) + X(l, j) + [bnot(ieq(k, l)), bnot(ieq(k, iadd(l, ic(1))))])
                q('control of the previous node', co(iadd(k, ic(1)), i), uo(k, j), mul(num(-1), D_('Fu', k, i, j)), Xr(k, i) + inr(j, p.nu(k)))
                q('other controls', co(k, i), uo(l, j), old(co(k, i), uo(l, j)), X(k, i) + U(l, j) + [bnot(ieq(k, iadd(l, ic(1))))])
            if part == 'rows': e('multiplier-multiplier block', co(k, i), co(l, j), old(co(k, i), co(l, j)), X(k, i) + X(l, j))
        if part == 'vector':
            v = lambda nm, a, w, fx: t.eq(nm, R.at(a), w, extra=fx)
            v('gradient by the state', xo(k, i), D_('Lx', k, i), Xr(k, i))
            v('gradient by the terminal state', xo(T, i), DT('Lx', i), inr(i, n))
            v('gradient by the control', uo(k, i), D_('Lu', k, i), U(k, i))
            st = lambda k: oapp(p.M + '.state_', toint(k))
            xsl = lambda k: Ten(p.nx, 1, lambda i, j: rapp('S.xs_[*]', toint(k), i)).lam()
            x0 = Ten(p.nx, 1, lambda i, j: rapp(p.path + '.x0_', i)).lam()
            xn = lambda k: Ten(p.nx, 1, lambda i, j: rapp(p.Dd + '.xnext', toint(k), i)).lam()
            v('gap of the first state', co(ic(0), i), rapp('diff', st(ic(0)), x0, xsl(ic(0)), i), inr(i, n))
            v('gap of the next state', co(iadd(k, ic(1)), i), rapp('diff', st(k), xn(k), xsl(iadd(k, ic(1))), i), Xr(k, i))
            t.eq('stored cost', t.rval('S.cost_'), rapp('problem_cost'))
            t.eq('returned cost', r, rapp('problem_cost'))
            t.frame(['S.kkt_', 'S.kktref_', 'S.cost_'])
            t.sides()
        return t
    return go


def t_dir(recalc):
    def go(db):
        t, p, s = base(db)
        t.fn_ = CLS + '::computeDirection'
        n, T = p.ndx, p.T
        t.init('G.n', ic(0))
        def cd(ex, st, obj, args, node):
            ex.write(st, 'G.diff', (), 'bool', TRUE); return rapp('c')
        t.init('G.diff', FALSE)
        t.contract(CLS, 'calcDiff', cd)
        t.call(s, CLS, 'computeDirection', [TRUE if recalc else FALSE])
        t.eq('derivatives are refreshed on request', t.cell('G.diff', typ='bool'), TRUE if recalc else FALSE)
        t.sides()
        k, i = iv('k'), iv('i')
        inr = lambda v, m: [ile(ic(0), v), ilt(v, m)]
        T1 = iadd(T, ic(1))
        pd = t.tval('S.primaldual_')
        q = iv('q')
        t.eq('primal part', t.tval('S.primal_').at(q), pd.at(q), extra=inr(q, p.n1))
        t.eq('dual part', t.tval('S.dual_').at(q), pd.at(iadd(p.n1, q)), extra=inr(q, p.NX))
        fx = inr(k, T1) + inr(i, n)
        t.eq('state step', t.tval('S.dxs_[*]', k).at(i), pd.at(iadd(imul(k, n), i)), extra=fx)
        t.eq('control step', t.tval('S.dus_[*]', k).at(i), pd.at(iadd(iadd(p.NX, off(p, k)), i)), extra=inr(k, T) + inr(i, p.nu(k)))
        t.eq('multiplier', t.tval('S.lambdas_[*]', k).at(i), pd.at(iadd(iadd(p.n1, imul(k, n)), i)), extra=fx)
        t.eqt('state step dimension', t.tval('S.dxs_[*]', k), lambda i: pd.at(iadd(imul(k, n), i)), n, extra=inr(k, T1))
        t.eqt('control step dimension', t.tval('S.dus_[*]', k), lambda i: pd.at(iadd(iadd(p.NX, off(p, k)), i)), p.nu(k), extra=inr(k, T))
        t.frame(['S.primaldual_', 'S.primal_', 'S.dual_', 'S.dxs_[*]', 'S.dus_[*]', 'S.lambdas_[*]', 'G.*'])
        return t
    return go


def t_pd(db):
    t, p, s = base(db)
    t.fn_ = CLS + '::computePrimalDual'
    t.call(s, CLS, 'computePrimalDual', [])
    pd = t.tval('S.primaldual_')
    i = iv('i')
    inr = lambda v, m: [ile(ic(0), v), ilt(v, m)]
    t.require(bapp('decomp_ok', oapp('K:Eigen::PartialPivLU'), Ten(p.n2, p.n2, lambda i, j: rapp('S.kkt_', i, j)).lam())) if False else None
    t.eq('the step solves the assembled system', dotsum(p.n2, lambda j: mul(rapp('S.kkt_', i, j), pd.at(j))), mul(num(-1), rapp('S.kktref_', i)), extra=inr(i, p.n2))
    t.eq('primal part', t.tval('S.primal_').at(i), pd.at(i), extra=inr(i, p.n1))
    t.eq('dual part', t.tval('S.dual_').at(i), pd.at(iadd(p.n1, i)), extra=inr(i, p.NX))
    t.frame(['S.primaldual_', 'S.primal_', 'S.dual_'])
    t.sides()
    return t


def t_try(db):
    t, p, s = base(db)
    t.fn_ = CLS + '::tryStep'
    def calc(ex, st, obj, args, node):
        ok = args[0].key == 'S.xs_try_' and args[1].key == 'S.us_try_'
        ex.oblig(st, 'the trial trajectory is the one evaluated', tobool(ok))
        return rapp('trial_cost')
    t.contract(SP, 'calc', calc)
    a = rapp('alpha')
    r = t.call(s, CLS, 'tryStep', [a])
    k, i = iv('k'), iv('i')
    inr = lambda v, m: [ile(ic(0), v), ilt(v, m)]
    xsl = lambda k: Ten(p.nx, 1, lambda i, j: rapp('S.xs_[*]', toint(k), i)).lam()
    dl = lambda k: Ten(p.ndx, 1, lambda i, j: mul(a, rapp('S.dxs_[*]', toint(k), i))).lam()
    t.eqt('trial state', t.tval('S.xs_try_[*]', k), lambda i: rapp('integ', oapp(p.M + '.state_', toint(k)), xsl(k), dl(k), i), p.nx, extra=inr(k, p.T))
    t.eqt('terminal trial state', t.tval('S.xs_try_[*]', p.T), lambda i: rapp('integ', oapp(p.TM + '.state_'), xsl(p.T), dl(p.T), i), p.nx)
    t.eqt('trial control', t.tval('S.us_try_[*]', k), lambda i: add(rapp('S.us_[*]', toint(k), i), mul(a, rapp('S.dus_[*]', toint(k), i))), p.nu(k), extra=inr(k, p.T))
    t.eq('trial cost', t.rval('S.cost_try_'), rapp('trial_cost'))
    t.eq('returned decrease', r, sub(rapp('S.cost_'), rapp('trial_cost')))
    t.frame(['S.xs_try_[*]', 'S.us_try_[*]', 'S.cost_try_'])
    t.sides()
    return t


def t_alloc(db):
    t, p, s = base(db)
    t.fn_ = CLS + '::allocateData'
    for f in ('kkt_', 'kktref_', 'primaldual_', 'primal_', 'kkt_primal_', 'dual_', 'dF'):
        t.dims('S', **{f: lambda *i, f=f: (iapp('rows0:' + f), ic(1) if f != 'kkt_' else iapp('cols0:' + f))})
    for f in ('dxs_', 'dus_', 'lambdas_', 'xs_try_', 'us_try_'): t.size('S.' + f, t.nat('len0:' + f))
    t.init('S.ndx_', t.nat('ndx0')); t.init('S.nu_', t.nat('nu0')); t.init('S.nx_', t.nat('nx0'))
    t.call(s, CLS, 'allocateData', [])
    t.eq('total state dimension', t.ival('S.ndx_'), p.NX); t.eq('total control dimension', t.ival('S.nu_'), p.NU)
    for f, r, c in (('kkt_', p.n2, p.n2), ('kktref_', p.n2, 1), ('primaldual_', p.n2, 1), ('primal_', p.n1, 1), ('kkt_primal_', p.n1, 1), ('dual_', p.NX, 1), ('dF', p.n1, 1)):
        t.eqt('initial ' + f, t.tval('S.' + f), (lambda i, j: ZERO) if f == 'kkt_' else (lambda i: ZERO), r, c)
    k = iv('k'); T1 = iadd(p.T, ic(1))
    inr = lambda v, m: [ile(ic(0), v), ilt(v, m)]
    for f, n in (('dxs_', T1), ('lambdas_', T1), ('dus_', p.T), ('xs_try_', T1), ('us_try_', p.T)):
        t.eq('number of ' + f, t.ex.vsize(VRef('S.' + f, (), VV), t.st), n)
    for f, n, d in (('dxs_', T1, p.ndx), ('lambdas_', T1, p.ndx), ('dus_', p.T, p.nu(k)), ('xs_try_', T1, p.nx), ('us_try_', p.T, p.nu(k))):
        x = t.tval('S.%s[*]' % f, k)
        t.holds('dimension of ' + f, band(ieq(x.rows, d), ieq(x.cols, ic(1))), extra=inr(k, n))
    return t


TASKS = {'allocation': t_alloc, 'Hessian blocks': t_diff('hessian'), 'Jacobian rows': t_diff('rows'), 'Jacobian columns': t_diff('columns'), 'vector': t_diff('vector'), 'direction': t_dir(True), 'direction without refresh': t_dir(False),
         'linear solve': t_pd, 'trial': t_try}
