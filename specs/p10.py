"""P10: cost sums."""
from spec import *

UNITS = ['costs/cost-sum', 'cost-base', 'activation-base', 'state-base', 'data-collector-base']
HARNESS = 'h10'
NOTE = 'calc/calcDiff sums over any number of items with any activity pattern; every edit preserves the bookkeeping invariant from an arbitrary pre-state, so it holds after any edit history.'
ASSUME = ['the data was created from the collection it is evaluated with (same names, same order)',
          'item objects are distinct and carry the name under which they are stored; they are not edited behind the collection',
          'an edit changes the contribution of the edited name only, hence the total over the (finite) items changes by the proved difference']
C = 'CostModelSumTpl<double>'
CD = 'CostDataSumTpl<double>'
CI = 'CostItemTpl<double>'
CB = 'CostModelAbstractTpl<double>'
AC = 'ActivationModelAbstractTpl<double>'
SA = 'StateAbstractTpl<double>'
NOU = oapp('no_u')
IT, DT = 'M.costs_@', 'D.costs@'


def key(k): return oapp('names.key', k)


def base(db, name):
    t = Task(db, C + '::' + name)
    m, d = t.obj('M', C), t.obj('D', CD)
    nu, nx, ndx, n = t.nat('nu'), t.nat('nx'), t.nat('ndx'), t.nat('n')
    t.ex.cls.update({IT: CI, IT + '.cost': CB, IT + '.cost.activation_': AC, 'M.state_': SA, DT: 'CostDataAbstractTpl<double>'})
    t.ex.mapkeys.update({'M.costs_': 'names', 'D.costs': 'names'})
    t.size('M.costs_', n)
    t.init('M.nu_', nu); t.init('M.state_.nx_', nx); t.init('M.state_.ndx_', ndx)
    t.dims('D', Lx=(ndx, 1), Lu=(nu, 1), Lxx=(ndx, ndx), Lxu=(ndx, nu), Luu=(nu, nu))
    t.dims(DT, Lx=(ndx, 1), Lu=(nu, 1), Lxx=(ndx, ndx), Lxu=(ndx, nu), Luu=(nu, nu))
    shp = dict(Lx=(ndx, ic(1)), Lu=(nu, ic(1)), Lxx=(ndx, ndx), Lxu=(ndx, nu), Luu=(nu, nu))

    def ccalc(ex, st, obj, args, node):
        x = ex.ten(args[1], st); w = ex.ten(args[2], st).lam() if len(args) > 2 else NOU
        ex.write(st, args[0].a[0] + '.cost', args[0].a[1], D, rapp('l', obj, x.lam(), w))

    def cdiff(ex, st, obj, args, node):
        x = ex.ten(args[1], st); w = ex.ten(args[2], st).lam() if len(args) > 2 else NOU
        for f in (('Lx', 'Lu', 'Lxx', 'Lxu', 'Luu') if len(args) > 2 else ('Lx', 'Lxx')):
            r, c = shp[f]
            g = (lambda f: lambda i, j: rapp(f, obj, x.lam(), w, i, j))(f)
            ex.write(st, args[0].a[0] + '.' + f, args[0].a[1], VEC if isc(c) else MAT, Ten(r, c, g))
    t.contract(CB, 'calc', ccalc); t.contract(CB, 'calcDiff', cdiff)
    return t, m, d, nu, nx, ndx, n, shp


def cost(k): return oapp(IT + '.cost', k)
def weight(k): return rapp(IT + '.weight', k)
def active(k): return bapp(IT + '.active', k)


def t_eval(db):
    o = []
    for fn in ('calc', 'calcDiff'):
        for run in (True, False):
            tag = '%s(%s)' % (fn, 'x, u' if run else 'x')
            t, m, d, nu, nx, ndx, n, shp = base(db, tag)
            t.size('D.costs', n)
            x, u = t.vec('x', nx), t.vec('u', nu)
            w = u.lam() if run else NOU
            t.call(m, C, fn, [d, x, u] if run else [d, x])
            ks = lambda g: isum0(n, lambda k: ite(active(key(k)), mul(weight(key(k)), g(key(k))), ZERO))
            if fn == 'calc':
                t.eq('cost', t.rval('D.cost'), ks(lambda k: rapp('l', cost(k), x.lam(), w)))
                t.frame(['D.cost', DT + '.cost'])
            else:
                for f in (('Lx', 'Lu', 'Lxx', 'Lxu', 'Luu') if run else ('Lx', 'Lxx')):
                    r, c = shp[f]
                    g = (lambda f: lambda i, j: ks(lambda k: rapp(f, cost(k), x.lam(), w, i, j)))(f)
                    t.eqt(f, t.tval('D.' + f), (lambda i: g(i, ic(0))) if isc(c) else (lambda i, j: g(i, j)), r, c)
                fr = ['Lx', 'Lxx'] + (['Lu', 'Lxu', 'Luu'] if run else [])
                t.frame(['D.' + f for f in fr] + [DT + '.' + f for f in fr])
            t.throws_iff('calls', FALSE); t.sides()
            o.append(t)
            # rejections come first
            t, m, d, nu, nx, ndx, n, shp = base(db, tag + ' sizes')
            a, b, nd = t.nat('a'), t.nat('b'), t.nat('nd')
            t.size('D.costs', nd)
            try: t.call(m, C, fn, [d, t.vec('x', a), t.vec('u', b)] if run else [d, t.vec('x', a)])
            except AllThrow: pass
            bad = bor(bnot(ieq(a, nx)), bnot(ieq(nd, n)))
            if run: bad = bor(bad, bnot(ieq(b, nu)))
            t.throws_iff('sizes', bad)
            o.append(t)
    return o


def isum0(n, f): return dotsum(n, f)


# ---- edits
Q, NAME = oapp('q'), oapp('name')


def st_has(t, k, st=None): return t.ex.read(st or t.st, 'M.costs_.has', (k,), 'bool')
def st_set(t, w, k, st=None): return t.ex.read(st or t.st, 'M.%sactive_set_.has' % w, (k,), 'bool')


def item(t, k, st): return t.ex.read(st, IT, (k,), 'std::shared_ptr<CostItemTpl<double>>')


def fld(t, k, f, typ, st):
    def go(o):
        if o.op == 'oite': return ite(o.a[0], go(o.a[1]), go(o.a[2]))
        return t.ex.rval(t.ex.field(o, f, typ, st), st)
    return go(item(t, k, st))


def resdim(c):
    return iite(c.a[0], resdim(c.a[1]), resdim(c.a[2])) if c.op == 'oite' else iapp('resdim', c)


def contribution(t, k, st, what):
    h = t.ex.read(st, 'M.costs_.has', (k,), 'bool')
    a = fld(t, k, 'active', 'bool', st)
    c = fld(t, k, 'cost', 'std::shared_ptr<CostModelAbstractTpl<double>>', st)
    nr = resdim(c)
    return iite(band(h, a) if what == 'nr_' else h, nr, ic(0))


def pre(db, name):
    t, m, d, nu, nx, ndx, n, shp = base(db, name)
    t.fn_ = C + '::' + name
    t.init(IT + '.cost.activation_.nr_', lambda k: iapp('resdim', oapp(IT + '.cost', k)))
    t.init('c.activation_.nr_', lambda: iapp('resdim', oapp('c'))); t.ex.cls.update({'c': CB, 'c.activation_': AC, 'I': CI, 'I.cost': CB, 'I.cost.activation_': AC})
    t.init('I.cost.activation_.nr_', lambda: iapp('resdim', oapp('I.cost')))
    t.init('I.name', lambda: NAME)
    for k in (Q, NAME):
        h, a = bapp('has:names', k), active(k)
        for w, v in (('', a), ('in', bnot(a))):
            t.require(beq(bapp('has:M.%sactive_set_' % w, k), band(h, v)))
        t.require(ile(ic(0), iapp('resdim', oapp(IT + '.cost', k))))
    t.require(ile(ic(0), iapp('resdim', oapp('c'))), ile(ic(0), iapp('resdim', oapp('I.cost'))))
    from symex import State
    s0 = State()
    return t, m, s0


def post(t, s0, cond, hasn, act, cst, wgt):
    """bookkeeping invariant for an arbitrary name and the differences of the totals"""
    t.holds('names of other items', beq(st_has(t, Q), bapp('has:names', Q)), extra=[bnot(oeq(Q, NAME))])
    for k, nm, x in ((Q, 'other', [bnot(oeq(Q, NAME))]), (NAME, 'edited', [])):
        h = st_has(t, k)
        a = fld(t, k, 'active', 'bool', t.st)
        t.holds('active names (%s)' % nm, beq(st_set(t, '', k), band(h, a)), extra=x)
        t.holds('inactive names (%s)' % nm, beq(st_set(t, 'in', k), band(h, bnot(a))), extra=x)
    t.holds('edited name held', beq(st_has(t, NAME), hasn))
    t.holds('activity', beq(fld(t, NAME, 'active', 'bool', t.st), act), extra=[hasn])
    if cst is not None: t.eq('cost model', fld(t, NAME, 'cost', 'std::shared_ptr<CostModelAbstractTpl<double>>', t.st), cst, extra=[hasn])
    if wgt is not None: t.eq('weight', fld(t, NAME, 'weight', D, t.st), wgt, extra=[hasn])
    o = [bnot(oeq(Q, NAME)), bapp('has:names', Q)]
    t.holds('other item: activity', beq(fld(t, Q, 'active', 'bool', t.st), active(Q)), extra=o)
    t.eq('other item: cost model', fld(t, Q, 'cost', 'std::shared_ptr<CostModelAbstractTpl<double>>', t.st), oapp(IT + '.cost', Q), extra=o)
    t.eq('other item: weight', fld(t, Q, 'weight', D, t.st), weight(Q), extra=o)
    for f in ('nr_', 'nr_total_'):
        b = iapp('M.' + f)
        t.eq(f + ' changes by the contribution of the item', isub(t.ival('M.' + f), b), isub(contribution(t, NAME, t.st, f), iite(band(bapp('has:names', NAME), active(NAME)) if f == 'nr_' else bapp('has:names', NAME), iapp('resdim', oapp(IT + '.cost', NAME)), ic(0))))
    t.eq('number of items', isub(t.ex.vsize(MRef('M.costs_', (), 'std::map<std::string, std::shared_ptr<CostItemTpl<double>>>'), t.st), iapp('n')), isub(toint(st_has(t, NAME)), toint(bapp('has:names', NAME))))
    t.sides()


def t_edit(db):
    o = []
    had = bapp('has:names', NAME)
    old = lambda g, v: None
    # addCost(name, cost, weight, active)
    t, m, s0 = pre(db, 'addCost(name, cost, weight, active)')
    t.init('c.nu_', t.nat('cu'))
    act = bapp('act')
    t.call(m, C, 'addCost', [NAME, oapp('c'), rapp('w'), act])
    t.throws_iff('control size', bnot(ieq(iapp('cu'), iapp('nu'))))
    post(t, s0, None, TRUE, bite(had, active(NAME), act), ite(had, oapp(IT + '.cost', NAME), oapp('c')), ite(had, weight(NAME), rapp('w')))
    o.append(t)
    # addCost(item)
    t, m, s0 = pre(db, 'addCost(item)')
    t.init('I.cost.nu_', t.nat('cu'))
    t.call(m, C, 'addCost', [oapp('I')])
    t.throws_iff('control size', bnot(ieq(iapp('cu'), iapp('nu'))))
    post(t, s0, None, TRUE, bite(had, active(NAME), bapp('I.active')), ite(had, oapp(IT + '.cost', NAME), oapp('I.cost')), ite(had, weight(NAME), rapp('I.weight')))
    o.append(t)
    t, m, s0 = pre(db, 'removeCost')
    t.call(m, C, 'removeCost', [NAME]); t.throws_iff('never', FALSE)
    post(t, s0, None, FALSE, TRUE, None, None)
    o.append(t)
    t, m, s0 = pre(db, 'changeCostStatus')
    t.call(m, C, 'changeCostStatus', [NAME, bapp('act')]); t.throws_iff('never', FALSE)
    post(t, s0, None, had, bapp('act'), oapp(IT + '.cost', NAME), weight(NAME))
    o.append(t)
    t, m, s0 = pre(db, 'getCostStatus')
    r = t.call(m, C, 'getCostStatus', [NAME])
    t.holds('status', beq(tobool(t.ex.rval(r, t.st)), band(had, active(NAME)))); t.frame([])
    o.append(t)
    # constructors
    for n in (2, 1):
        t, m, s0 = pre(db, 'constructor/%d' % n)
        t.ex.cls['ST'] = SA; t.init('ST.nv_', t.nat('nv'))
        R = t.obj('R', C)
        a = [oapp('ST'), t.nat('k')][:n]
        c, f = t.ex.find_ctor(C, n, a, t.st); t.ex.run(f, R, a, t.st)
        t.eq('controls', t.ival('R.nu_'), iapp('k') if n == 2 else iapp('nv'))
        t.eq('active dimension', t.ival('R.nr_'), ic(0)); t.eq('total dimension', t.ival('R.nr_total_'), ic(0))
        o.append(t)
    return o


TASKS = {'evaluation': t_eval, 'edits': t_edit}


def t_data(db):
    """data of a cost sum: accumulators of the sizes the evaluation relies on, zeroed, one item data per item, made by the item's own model"""
    t, m, d, nu, nx, ndx, n, shp = base(db, 'data')
    t.fn_ = CD + '::constructor'
    O = lambda *i: ZERO
    t.contract(CB, 'createData', lambda ex, st, obj, args, node: oapp('data of', obj))
    X = t.obj('X', CD)
    t.ex.inits[IT + '.name'] = lambda k: k
    t.ex.inits['X.costs.has'] = lambda *i: FALSE
    t.size('X.costs', ic(0))
    c, f = t.ex.find_ctor(CD, 2, [m, oapp('S')], t.st); t.ex.run(f, X, [m, oapp('S')], t.st)
    for q, g in dict(Lx=(O, ndx), Lu=(O, nu), Lxx=(O, ndx, ndx), Lxu=(O, ndx, nu), Luu=(O, nu, nu)).items():
        t.eqt('constructed ' + q, t.tval('X.' + q), *g)
    t.eq('cost', t.val('X.cost') if hasattr(t, 'val') else t.cell('X.cost', typ=D), ZERO)
    k, r = t.nat('k'), [ilt(iapp('k'), n)]
    t.holds('an item data per item', t.cell('X.costs.has', key(k), typ='bool'), extra=r)
    t.holds('made by the model of the item', oeq(t.cell('X.costs@', key(k), typ='shared_ptr'), oapp('data of', cost(key(k)))), extra=r)
    t.eq('as many item data as items', t.ex.vsize(MRef('X.costs', (), 'std::map<std::string, std::shared_ptr<CostDataAbstractTpl<double>>>'), t.st), n)
    t.throws_iff('never', FALSE)
    t.sides(shapes=False)
    t.frame(['X.*', 'X.costs*'])
    return t


TASKS['data'] = t_data
