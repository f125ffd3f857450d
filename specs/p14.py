"""P14: shooting problem evaluation."""
from spec import *
from shoot import *

UNITS = ['optctrl/shooting', 'action-base', 'state-base']
HARNESS = 'h14'


def base(db):
    t = Task(db, '')
    p = problem(t, 'P')
    model_contracts(t, p.nx, p.ndx, ndims(p))
    xs = traj(t, 'xs', iadd(p.T, ic(1)), lambda k: p.nx)
    us = traj(t, 'us', p.T, p.nu)
    return t, p, xs, us


def c_at(p, k): return rapp('cost', p.m(k), tr('xs', k, p.nx).lam(), tr('us', k, p.nu(k)).lam())


def node_post(t, p, names, k, x, u, pre=''):
    nu = p.nu(k)
    for nm in names:
        got = t.tval(p.Dd + '.' + nm, k)
        key = 'f' if nm == 'xnext' else nm
        vec = got.isvec()
        t.eqt(pre + 'node k ' + nm, got, (lambda i: rapp(key, p.m(k), x.lam(), u.lam(), i)) if vec else
              (lambda i, j: rapp(key, p.m(k), x.lam(), u.lam(), i, j)), got.rows, got.cols)


def term_post(t, p, names, x):
    for nm in names:
        got = t.tval(p.TD + '.' + nm)
        vec = got.isvec()
        key = 'f' if nm == 'xnext' else nm
        t.eqt('terminal node ' + nm, got, (lambda i: rapp(key, p.tm, x.lam(), NOU, i)) if vec else
              (lambda i, j: rapp(key, p.tm, x.lam(), NOU, i, j)), got.rows, got.cols)


def t_calc(db):
    t, p, xs, us = base(db)
    t.fn_ = SP + '::calc'
    r = t.call(oapp('P'), SP, 'calc', [xs, us])
    x_T = tr('xs', p.T, p.nx)
    tot = add(dotsum(p.T, lambda k: c_at(p, k)), rapp('cost', p.tm, x_T.lam(), NOU))
    t.eq('returned cost', r, tot)
    t.eq('stored cost', t.rval('P.cost_'), tot)
    k = iv('k'); t.require(ile(ic(0), k), ilt(k, p.T))
    t.eq('node k cost', t.rval(p.Dd + '.cost', k), c_at(p, k))
    node_post(t, p, ['xnext', 'g', 'h'], k, tr('xs', k, p.nx), tr('us', k, p.nu(k)))
    t.eq('terminal cost', t.rval(p.TD + '.cost'), rapp('cost', p.tm, x_T.lam(), NOU))
    term_post(t, p, ['g', 'h'], x_T)
    t.frame(['P.cost_'] + [q + '.' + f for q in (p.Dd, p.TD) for f in ('cost', 'xnext', 'g', 'h')])
    t.sides()
    return t


DER = ['Lx', 'Lu', 'Lxx', 'Lxu', 'Luu', 'Fx', 'Fu', 'Gx', 'Gu', 'Hx', 'Hu']


def t_diff(db):
    t, p, xs, us = base(db)
    t.fn_ = SP + '::calcDiff'
    r = t.call(oapp('P'), SP, 'calcDiff', [xs, us])
    tot = add(dotsum(p.T, lambda k: rapp(p.Dd + '.cost', k)), rapp(p.TD + '.cost'))
    t.eq('returned cost', r, tot)
    t.eq('stored cost', t.rval('P.cost_'), tot)
    k = iv('k'); t.require(ile(ic(0), k), ilt(k, p.T))
    node_post(t, p, DER, k, tr('xs', k, p.nx), tr('us', k, p.nu(k)))
    term_post(t, p, ['Lx', 'Lxx', 'Gx', 'Hx'], tr('xs', p.T, p.nx))
    t.frame(['P.cost_'] + [q + '.' + f for q in (p.Dd, p.TD) for f in DER])
    t.sides()
    return t


def t_calc_then_diff(db):
    t, p, xs, us = base(db)
    t.fn_ = SP + '::calc; calcDiff'
    r1 = t.call(oapp('P'), SP, 'calc', [xs, us])
    r2 = t.call(oapp('P'), SP, 'calcDiff', [xs, us])
    t.eq('calcDiff after calc returns the same cost', r2, r1)
    return t


def t_rollout(db):
    t, p, xs, us = base(db)
    t.fn_ = SP + '::rollout'
    t.call(oapp('P'), SP, 'rollout', [us, xs])
    x = lambda k: t.tval('xs[*]', k)
    t.eqt('first state', x(ic(0)), lambda i: rapp('P.x0_', i), p.nx)
    k = iv('k'); t.require(ile(ic(0), k), ilt(k, p.T))
    un = (k, isub(k, ic(1)), iadd(k, ic(1)))
    t.eqt('next state', x(iadd(k, ic(1))), lambda i: rapp('f', p.m(k), x(k).lam(), tr('us', k, p.nu(k)).lam(), i), p.nx, unfold=(k,))
    t.eqt('data of node k', t.tval(p.Dd + '.xnext', k), lambda i: rapp('f', p.m(k), x(k).lam(), tr('us', k, p.nu(k)).lam(), i), p.nx, unfold=(k,))
    t.eq('cost of node k', t.rval(p.Dd + '.cost', k), rapp('cost', p.m(k), x(k).lam(), tr('us', k, p.nu(k)).lam()))
    t.eq('terminal cost', t.rval(p.TD + '.cost'), rapp('cost', p.tm, x(p.T).lam(), NOU))
    t.frame(['xs[*]'] + [q + '.' + f for q in (p.Dd, p.TD) for f in ('cost', 'xnext', 'g', 'h')])
    t.sides()
    return t


def qs_contract(t, p):
    def qs(ex, st, obj, args, node):
        d, u, x = args[0], ex.ten(args[1], st), ex.ten(args[2], st)
        ul, xl, dl = u.lam(), x.lam(), d
        ex.shape(st, 'quasiStatic u', u.rows, ndims(p)(obj)[0], node)
        ex.assign(args[1], Ten(u.rows, 1, lambda i, j: rapp('qs', obj, dl, ul, xl, i)), st, node, False)
    t.contract(AM, 'quasiStatic', qs)


def t_qs(db):
    t, p, xs, us = base(db)
    t.size('xs', p.T)
    qs_contract(t, p)
    t.fn_ = SP + '::quasiStatic'
    t.call(oapp('P'), SP, 'quasiStatic', [us, xs])
    k = iv('k'); t.require(ile(ic(0), k), ilt(k, p.T))
    t.eqt('control of node k', t.tval('us[*]', k), lambda i: rapp('qs', p.m(k), p.d(k), tr('us', k, p.nu(k)).lam(), tr('xs', k, p.nx).lam(), i), p.nu(k))
    t.frame(['us[*]'])
    t.sides()
    return t


def t_qs_xs(db):
    t, p, xs, us = base(db)
    t.size('xs', p.T)
    qs_contract(t, p)
    t.fn_ = SP + '::quasiStatic_xs'
    r = t.call(oapp('P'), SP, 'quasiStatic_xs', [xs])
    k = iv('k'); t.require(ile(ic(0), k), ilt(k, p.T))
    t.eq('number of controls', t.ex.vsize(r, t.st), p.T)
    t.eqt('control of node k', t.tval(r.key + '[*]', k), lambda i: rapp('qs', p.m(k), p.d(k), Ten(p.nu(k), 1, lambda i, j: ZERO).lam(), tr('xs', k, p.nx).lam(), i), p.nu(k))
    t.sides()
    return t


def t_rollout_us(db):
    t, p, xs, us = base(db)
    t.fn_ = SP + '::rollout_us'
    r = t.call(oapp('P'), SP, 'rollout_us', [us])
    x = lambda k: t.tval(r.key + '[*]', k)
    t.eq('number of states', t.ex.vsize(r, t.st), iadd(p.T, ic(1)))
    t.eqt('first state', x(ic(0)), lambda i: rapp('P.x0_', i), p.nx)
    k = iv('k'); t.require(ile(ic(0), k), ilt(k, p.T))
    t.eqt('next state', x(iadd(k, ic(1))), lambda i: rapp('f', p.m(k), x(k).lam(), tr('us', k, p.nu(k)).lam(), i), p.nx, unfold=(k,))
    return t


def t_sizes(fn_, nargs):
    def go(db):
        t, p, xs, us = base(db)
        t.fn_ = SP + '::' + fn_
        n1, n2 = t.nat('lenx'), t.nat('lenu')
        t.size('xs', n1); t.size('us', n2)
        if fn_ == 'quasiStatic': qs_contract(t, p)
        t.ex.shape_checks = False
        want = iadd(p.T, ic(1)) if fn_ != 'quasiStatic' else p.T
        # a rejected call leaves the precondition of the rest violated, so only the rejection itself is stated
        t.call(oapp('P'), SP, fn_, [xs, us] if fn_ in ('calc', 'calcDiff') else [us, xs])
        t.throws_iff('trajectory lengths', bnot(band(ieq(n1, want), ieq(n2, p.T))))
        return t
    return go


TASKS = {'calc': t_calc, 'calcDiff': t_diff, 'calc then calcDiff': t_calc_then_diff, 'rollout': t_rollout, 'rollout_us': t_rollout_us,
         'quasiStatic': t_qs, 'quasiStatic_xs': t_qs_xs}
for _f in ('calc', 'calcDiff', 'rollout', 'quasiStatic'): TASKS['lengths ' + _f] = t_sizes(_f, 2)
