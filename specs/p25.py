"""P25: dynamic, equality and inequality feasibility measures."""
from spec import *
from shoot import *

UNITS = ['solver-base', 'ddp', 'kkt', 'intro', 'fddp', 'optctrl/shooting', 'action-base', 'diff-action-base', 'state-base']
HARNESS = 'h25'
NOTE = 'Both norms (feasnorm_ = LInf / L1), every horizon and every per-node constraint dimension.'


def base(db, cls='SolverAbstract'):
    t = Task(db, '')
    p = problem(t, 'S.problem_', cons=True)
    s = solver(t, 'S', cls, p)
    state_contracts(t, p.nx, p.ndx)
    return t, p, s


def linf(n, f):
    k = fresh('k')
    return maxo(k, ic(0), n, fn('abs', f(iv(k))))


def l1(n, f):
    k = fresh('k')
    return rsum(k, ic(0), n, fn('abs', f(iv(k))))


def over(kind, T, per_node, first, last):
    """norm over all nodes: per_node(k) for running nodes, plus optional first / last blocks"""
    k = fresh('t')
    nrm = linf if kind == 0 else l1
    blk = lambda b: nrm(b[0], b[1])
    if kind == 0: parts = [maxo(k, ic(0), T, blk(per_node(iv(k))))] + [blk(b) for b in (first, last) if b]
    else: parts = [rsum(k, ic(0), T, blk(per_node(iv(k))))] + [blk(b) for b in (first, last) if b]
    if kind == 0:
        r = ZERO
        for q in parts: r = fn('max', r, q)
        return r
    return add(*parts)


def upper(path, *ix):
    """upper bound of a row, written relative to the lower one (lb <= ub)"""
    return add(rapp(path + '.g_lb_', *ix), fn('abs', rapp(path + '.g_width', *ix)))


def vec(path): return lambda *idx: rapp(path, *idx)


def clampdiff(g, lb, ub): return sub(g, fn('min', fn('max', g, lb), ub))


def fgap(p):
    x = lambda k: Ten(p.nx, 1, lambda i, j: rapp('S.xs_[*]', toint(k), i)).lam()
    xn = lambda k: Ten(p.nx, 1, lambda i, j: rapp(p.Dd + '.xnext', toint(k), i)).lam()
    x0 = Ten(p.nx, 1, lambda i, j: rapp(p.path + '.x0_', i)).lam()
    so = lambda k: oapp(p.M + '.state_', toint(k))
    return (lambda i: rapp('diff', so(ic(0)), x(ic(0)), x0, i)), (lambda k, i: rapp('diff', so(k), x(iadd(k, ic(1))), xn(k), i))


def spec_dyn(p, kind):
    f0, f = fgap(p)
    return over(kind, p.T, lambda k: (p.ndx, lambda i: f(k, i)), (p.ndx, f0), None)


def spec_ineq(p, kind):
    run = lambda k: (p.ng(k), lambda i: clampdiff(rapp(p.Dd + '.g', k, i), rapp(p.M + '.g_lb_', k, i), upper(p.M, k, i)))
    last = (p.ngT, lambda i: clampdiff(rapp(p.TD + '.g', i), rapp(p.TM + '.g_lb_', i), upper(p.TM, i)))
    return over(kind, p.T, run, None, last)


def spec_eq(p, kind):
    return over(kind, p.T, lambda k: (p.nh(k), lambda i: rapp(p.Dd + '.h', k, i)), None, (p.nhT, lambda i: rapp(p.TD + '.h', i)))


def t_m(meth, spec, kind, frame):
    def go(db):
        t, p, s = base(db)
        t.fn_ = 'SolverAbstract::' + meth
        t.init(p.M + '.g_ub_', lambda k: Ten(p.ng(k), 1, lambda i, j: upper(p.M, toint(k), i)))
        t.init(p.TM + '.g_ub_', lambda: Ten(p.ngT, 1, lambda i, j: upper(p.TM, i)))
        t.init('S.feasnorm_', enum('LInf' if kind == 0 else 'L1'))
        r = t.call(s, 'SolverAbstract', meth, [])
        t.eq('returned measure', r, spec(p, kind))
        t.frame(frame)
        if meth == 'computeDynamicFeasibility':
            f0, f = fgap(p)
            k, i = iv('k'), iv('i')
            fx = [ile(ic(0), i), ilt(i, p.ndx)]
            t.eq('initial gap', t.tval('S.fs_[*]', ic(0)).at(i, ic(0)), f0(i), extra=fx)
            t.eq('gap of node k+1', t.tval('S.fs_[*]', iadd(k, ic(1))).at(i, ic(0)), f(k, i), extra=fx + [ile(ic(0), k), ilt(k, p.T)])
        t.sides()
        return t
    return go


def t_cd(cls, meth='calcDiff'):
    """calcDiff: the three stored measures come from one evaluation each, after the problem derivatives were refreshed"""
    def go(db):
        t, p, s = base(db, cls)
        t.fn_ = '%s::%s' % (cls, meth)
        order = []
        def ck(nm):
            def h(ex, st, obj, args, node):
                n = ex.read(st, 'ghost.calls', (), 'size_t')
                ex.write(st, 'ghost.calls', (), 'size_t', iadd(n, ic(1)))
                if nm in ('calc', 'calcDiff'):
                    xs = args[0].key; us = args[1].key
                    t.holds('%s is evaluated at the candidate' % nm, tobool(xs == 'S.xs_' and us == 'S.us_'))
                    ex.write(st, 'ghost.version', (), 'size_t', iadd(ex.read(st, 'ghost.version', (), 'size_t'), ic(1)))
                return rapp(nm, ex.read(st, 'ghost.version', (), 'size_t'))
            return h
        t.contract(SP, 'calc', ck('calc')); t.contract(SP, 'calcDiff', ck('calcDiff'))
        for m in ('computeDynamicFeasibility', 'computeInequalityFeasibility', 'computeEqualityFeasibility'):
            t.contract('SolverAbstract', m, ck(m))
        t.call(s, cls, meth, [])
        v = t.ival('ghost.version')
        for f, m in (('ffeas_', 'computeDynamicFeasibility'), ('gfeas_', 'computeInequalityFeasibility'), ('hfeas_', 'computeEqualityFeasibility'), ('cost_', 'calcDiff')):
            t.eq('%s is refreshed after the derivatives' % f, t.rval('S.' + f), rapp(m, v))
        return t
    return go


TASKS = {}
for _k, _n in ((0, 'LInf'), (1, 'L1')):
    TASKS['dynamic ' + _n] = t_m('computeDynamicFeasibility', spec_dyn, _k, ['S.tmp_feas_', 'S.fs_[*]'])
    TASKS['inequality ' + _n] = t_m('computeInequalityFeasibility', spec_ineq, _k, ['S.tmp_feas_', 'S.g_adj_[*]'])
    TASKS['equality ' + _n] = t_m('computeEqualityFeasibility', spec_eq, _k, ['S.tmp_feas_'])
TASKS['DDP calcDiff'] = t_cd('SolverDDP')


def bounds(cls, which):
    """replacing inequality bounds: accepted exactly with the larger of the running and terminal sizes, stored as given"""
    def go(db):
        t = Task(db, '')
        m = t.obj('M', cls)
        t.fn_ = cls + '::set_' + which
        ng, ngT, n = t.nat('ng'), t.nat('ngT'), t.nat('new.size')
        N = ite(ile(ng, ngT), ngT, ng)
        t.init('M.ng_', ng); t.init('M.ng_T_', ngT); t.dims('M', g_lb_=(N, 1), g_ub_=(N, 1))
        t.call(m, cls, 'set_' + which, [t.vec('new', n)])
        t.throws_iff('bounds', bnot(ieq(n, N)))
        for w in ('g_lb', 'g_ub'):
            t.eqt('stored ' + w, t.tval('M.%s_' % w), (lambda i: rapp('new', i)) if w == which else (lambda w: lambda i: rapp('M.%s_' % w, i))(w), N)
        t.frame(['M.%s_' % which])
        t.rejected(lambda k: k.startswith('M.'))
        return t
    return go


for _c in ('ActionModelAbstractTpl<double>', 'DifferentialActionModelAbstractTpl<double>'):
    for _w in ('g_lb', 'g_ub'): TASKS['bounds %s %s' % (_w, _c[:12])] = bounds(_c, _w)
