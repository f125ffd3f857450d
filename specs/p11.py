"""P11: constraint collections."""
from spec import *

UNITS = ['constraints/constraint-manager', 'constraint-base', 'state-base', 'data-collector-base']
HARNESS = 'h11'
NOTE = 'Stacking of any number of items of any sizes with any activity pattern, by induction over the items; every edit preserves the bookkeeping invariant from an arbitrary pre-state.'
ASSUME = ['the data was created from the collection it is evaluated with and sized for the node (same names and order, ng/nh rows)',
          'item objects are distinct and carry the name under which they are stored; they are not edited behind the collection',
          'an edit changes the contribution of the edited name only, hence the totals over the (finite) items change by the proved differences']
C = 'ConstraintModelManagerTpl<double>'
CD = 'ConstraintDataManagerTpl<double>'
CI = 'ConstraintItemTpl<double>'
CB = 'ConstraintModelAbstractTpl<double>'
SA = 'StateAbstractTpl<double>'
NOU = oapp('no_u')
IT, DT = 'M.constraints_@', 'D.constraints@'
CN = IT + '.constraint'


def key(k): return oapp('names.key', k)
def con(k): return oapp(CN, key(k))
def sz(w, k): return iapp('n' + w, con(k))
def active(k): return bapp(IT + '.active', k)
def live(k, run): return active(key(k)) if run else band(active(key(k)), bapp('term', con(k)))
def cnt(w, k, run): return iite(live(k, run), sz(w, k), ic(0))


def off(w, k, run):
    v = fresh('s')
    return isum(v, ic(0), k, cnt(w, iv(v), run))


def base(db, name, run=True):
    t = Task(db, C + '::' + name)
    m, d = t.obj('M', C), t.obj('D', CD)
    nu, nx, ndx, n = t.nat('nu'), t.nat('nx'), t.nat('ndx'), t.nat('n')
    t.ex.cls.update({IT: CI, CN: CB, 'M.state_': SA, DT: 'ConstraintDataAbstractTpl<double>'})
    t.ex.mapkeys.update({'M.constraints_': 'names', 'D.constraints': 'names'})
    t.size('M.constraints_', n)
    t.init('M.nu_', nu); t.init('M.state_.nx_', nx); t.init('M.state_.ndx_', ndx)
    NF.NONNEG.update(('ng', 'nh'))
    for w in 'gh': t.init(CN + '.n%s_' % w, (lambda w: lambda k: iapp('n' + w, oapp(CN, k)))(w))
    t.init(CN + '.T_constraint_', lambda k: bapp('term', oapp(CN, k)))
    N = {w: off(w, n, run) for w in 'gh'}
    # bookkeeping invariant (established by the edits below) and data sized for the node
    tot = {w: off(w, n, True) for w in 'gh'}
    t.init('M.ng_', off('g', n, True)); t.init('M.nh_', off('h', n, True)); t.init('M.ng_T_', off('g', n, False)); t.init('M.nh_T_', off('h', n, False))
    t.dims('M', lb_=(tot['g'], 1), ub_=(tot['g'], 1))
    t.dims('D', g=(N['g'], 1), h=(N['h'], 1), Gx=(N['g'], ndx), Gu=(N['g'], nu), Hx=(N['h'], ndx), Hu=(N['h'], nu))
    G = lambda w: (lambda k: iapp('n' + w, oapp(CN, k)))
    t.dims(DT, g=lambda k: (G('g')(k), 1), h=lambda k: (G('h')(k), 1), Gx=lambda k: (G('g')(k), ndx), Gu=lambda k: (G('g')(k), nu), Hx=lambda k: (G('h')(k), ndx), Hu=lambda k: (G('h')(k), nu))
    t.dims(CN, lb_=lambda k: (G('g')(k), 1), ub_=lambda k: (G('g')(k), 1))

    def put(ex, st, a, f, val): ex.write(st, a.a[0] + '.' + f, a.a[1], VEC if isc(val.cols) else MAT, val)

    def ccalc(ex, st, obj, args, node):
        x = ex.ten(args[1], st); w = ex.ten(args[2], st).lam() if len(args) > 2 else NOU
        for q in 'gh': put(ex, st, args[0], q, Ten(iapp('n' + q, obj), 1, (lambda q: lambda i, j: rapp(q, obj, x.lam(), w, i))(q)))

    def cdiff(ex, st, obj, args, node):
        x = ex.ten(args[1], st); w = ex.ten(args[2], st).lam() if len(args) > 2 else NOU
        for q in 'gh':
            for z, c in (('x', ndx), ('u', nu)) if len(args) > 2 else (('x', ndx),):
                f = q.upper() + z
                put(ex, st, args[0], f, Ten(iapp('n' + q, obj), c, (lambda f: lambda i, j: rapp(f, obj, x.lam(), w, i, j))(f)))
    t.contract(CB, 'calc', ccalc); t.contract(CB, 'calcDiff', cdiff)
    return t, m, d, nu, nx, ndx, n, N


def t_eval(db):
    o = []
    for fn in ('calc', 'calcDiff'):
        for run in (True, False):
            tag = '%s(%s)' % (fn, 'x, u' if run else 'x')
            t, m, d, nu, nx, ndx, n, N = base(db, tag, run)
            t.size('D.constraints', n)
            x, u = t.vec('x', nx), t.vec('u', nu)
            w = u.lam() if run else NOU
            t.call(m, C, fn, [d, x, u] if run else [d, x])
            k, i, j = iv('k'), iv('i'), iv('j')
            for q in 'gh':
                e = [ile(ic(0), k), ilt(k, n), live(k, run), ile(ic(0), i), ilt(i, sz(q, k))]
                row = iadd(off(q, k, run), i)
                if fn == 'calc':
                    t.eq('rows of item k: ' + q, t.tval('D.' + q).at(row, ic(0)), rapp(q, con(k), x.lam(), w, i), extra=e)
                    if q == 'g':
                        for b in ('lb_', 'ub_'): t.eq('bounds of item k: ' + b, t.tval('M.' + b).at(row, ic(0)), rapp(CN + '.' + b, key(k), i), extra=e)
                else:
                    for z, c in (('x', ndx), ('u', nu)) if run else (('x', ndx),):
                        f = q.upper() + z
                        t.eq('rows of item k: ' + f, t.tval('D.' + f).at(row, j), rapp(f, con(k), x.lam(), w, i, j), extra=e + [ile(ic(0), j), ilt(j, c)])
            if fn == 'calc': t.frame(['D.g', 'D.h', 'M.lb_', 'M.ub_', DT + '.g', DT + '.h'])
            else: t.frame([p + '.' + f for p in ('D', DT) for f in (('Gx', 'Gu', 'Hx', 'Hu') if run else ('Gx', 'Hx'))])
            t.throws_iff('calls', FALSE); t.sides()
            o.append(t)
            t, m, d, nu, nx, ndx, n, N = base(db, tag + ' sizes', run)
            a, b, nd = t.nat('a'), t.nat('b'), t.nat('nd')
            t.size('D.constraints', nd)
            try: t.call(m, C, fn, [d, t.vec('x', a), t.vec('u', b)] if run else [d, t.vec('x', a)])
            except AllThrow: pass
            bad = bor(bnot(ieq(a, nx)), bnot(ieq(nd, n)))
            if run: bad = bor(bad, bnot(ieq(b, nu)))
            t.throws_iff('sizes', bad)
            o.append(t)
    return o


# ---- edits
Q, NAME = oapp('q'), oapp('name')
PI = 'std::shared_ptr<ConstraintItemTpl<double>>'
PC = 'std::shared_ptr<ConstraintModelAbstractTpl<double>>'
MT = 'std::map<std::string, std::shared_ptr<ConstraintItemTpl<double>>>'


def st_has(t, k): return t.ex.read(t.st, 'M.constraints_.has', (k,), 'bool')
def st_set(t, w, k): return t.ex.read(t.st, 'M.%sactive_set_.has' % w, (k,), 'bool')


def fld(t, k, f, typ):
    def go(o):
        if o.op == 'oite': return ite(o.a[0], go(o.a[1]), go(o.a[2]))
        return t.ex.rval(t.ex.field(o, f, typ, t.st), t.st)
    return go(t.ex.read(t.st, IT, (k,), PI))


def contribution(h, a, c, w, T):
    if c.op == 'oite': return iite(c.a[0], contribution(h, a, c.a[1], w, T), contribution(h, a, c.a[2], w, T))
    return iite(band(h, a, bapp('term', c)) if T else band(h, a), iapp('n' + w, c), ic(0))


def pre(db, name):
    t = Task(db, C + '::' + name)
    m = t.obj('M', C)
    NF.NONNEG.update(('ng', 'nh', 'M.ng_', 'M.nh_', 'M.ng_T_', 'M.nh_T_'))
    t.ex.cls.update({IT: CI, CN: CB, 'c': CB, 'M.state_': SA})
    t.ex.mapkeys.update({'M.constraints_': 'names'})
    t.size('M.constraints_', t.nat('n')); t.init('M.nu_', t.nat('nu')); t.init('c.nu_', t.nat('cu'))
    for w in 'gh':
        t.init(CN + '.n%s_' % w, (lambda w: lambda k: iapp('n' + w, oapp(CN, k)))(w))
        t.init('c.n%s_' % w, (lambda w: lambda: iapp('n' + w, oapp('c')))(w))
        for T in ('', '_T'): t.init('M.n%s%s_' % (w, T), (lambda v: lambda: iapp(v))('M.n%s%s_' % (w, T)))
    t.init(CN + '.T_constraint_', lambda k: bapp('term', oapp(CN, k))); t.init('c.T_constraint_', lambda: bapp('term', oapp('c')))
    t.dims('M', lb_=(iapp('M.ng_'), 1), ub_=(iapp('M.ng_'), 1))
    for k in (Q, NAME):
        h, a = bapp('has:names', k), active(k)
        for w, v in (('', a), ('in', bnot(a))): t.require(beq(bapp('has:M.%sactive_set_' % w, k), band(h, v)))
    return t, m


def post(t, hasn, act, cst):
    """bookkeeping invariant for an arbitrary name and the differences of the totals"""
    other = [bnot(oeq(Q, NAME))]
    t.holds('names of other items', beq(st_has(t, Q), bapp('has:names', Q)), extra=other)
    for k, nm, x in ((Q, 'other', other), (NAME, 'edited', [])):
        h, a = st_has(t, k), fld(t, k, 'active', 'bool')
        t.holds('active names (%s)' % nm, beq(st_set(t, '', k), band(h, a)), extra=x)
        t.holds('inactive names (%s)' % nm, beq(st_set(t, 'in', k), band(h, bnot(a))), extra=x)
    t.holds('edited name held', beq(st_has(t, NAME), hasn))
    t.holds('activity', beq(fld(t, NAME, 'active', 'bool'), act), extra=[hasn])
    if cst is not None: t.eq('constraint', fld(t, NAME, 'constraint', PC), cst, extra=[hasn])
    o = other + [bapp('has:names', Q)]
    t.holds('other item: activity', beq(fld(t, Q, 'active', 'bool'), active(Q)), extra=o)
    t.eq('other item: constraint', fld(t, Q, 'constraint', PC), oapp(CN, Q), extra=o)
    for w in 'gh':
        for T in ('', '_T'):
            f = 'M.n%s%s_' % (w, T)
            new = contribution(st_has(t, NAME), fld(t, NAME, 'active', 'bool'), fld(t, NAME, 'constraint', PC), w, T)
            old = contribution(bapp('has:names', NAME), active(NAME), oapp(CN, NAME), w, T)
            t.eq(f + ' changes by the contribution of the item', isub(t.ival(f), iapp(f)), isub(new, old))
    for b in ('lb_', 'ub_'): t.eq('size of ' + b, t.tval('M.' + b).rows, t.ival('M.ng_'))
    t.eq('number of items', isub(t.ex.vsize(MRef('M.constraints_', (), MT), t.st), iapp('n')), isub(toint(st_has(t, NAME)), toint(bapp('has:names', NAME))))
    t.sides()


def t_edit(db):
    o = []
    had = bapp('has:names', NAME)
    t, m = pre(db, 'addConstraint')
    t.call(m, C, 'addConstraint', [NAME, oapp('c'), bapp('act')])
    t.throws_iff('control size', bnot(ieq(iapp('cu'), iapp('nu'))))
    t.rejected(lambda k: k.startswith('M.'))
    post(t, TRUE, bite(had, active(NAME), bapp('act')), ite(had, oapp(CN, NAME), oapp('c')))
    o.append(t)
    t, m = pre(db, 'removeConstraint')
    t.call(m, C, 'removeConstraint', [NAME]); t.throws_iff('never', FALSE)
    post(t, FALSE, TRUE, None)
    o.append(t)
    t, m = pre(db, 'changeConstraintStatus')
    t.call(m, C, 'changeConstraintStatus', [NAME, bapp('act')]); t.throws_iff('never', FALSE)
    post(t, had, bapp('act'), oapp(CN, NAME))
    o.append(t)
    t, m = pre(db, 'getConstraintStatus')
    r = t.call(m, C, 'getConstraintStatus', [NAME])
    t.holds('status', beq(tobool(t.ex.rval(r, t.st)), band(had, active(NAME)))); t.frame([])
    o.append(t)
    for n in (2, 1):
        t, m = pre(db, 'constructor/%d' % n)
        t.ex.cls['ST'] = SA; t.init('ST.nv_', t.nat('nv'))
        R = t.obj('R', C)
        a = [oapp('ST'), t.nat('k')][:n]
        c, f = t.ex.find_ctor(C, n, a, t.st); t.ex.run(f, R, a, t.st)
        t.eq('controls', t.ival('R.nu_'), iapp('k') if n == 2 else iapp('nv'))
        for w in ('ng_', 'nh_', 'ng_T_', 'nh_T_'): t.eq(w, t.ival('R.' + w), ic(0))
        for b in ('lb_', 'ub_'): t.eq('size of ' + b, t.tval('R.' + b).rows, ic(0))
        o.append(t)
    return o


TASKS = {'evaluation': t_eval, 'edits': t_edit}


def t_data(db):
    """data of a constraint manager: blocks of the sizes the evaluation relies on, zeroed, one item data per item, made by the item's own model"""
    t, m, d, nu, nx, ndx, n, N = base(db, 'data', True)
    t.fn_ = CD + '::constructor'
    O = lambda *i: ZERO
    t.contract(CB, 'createData', lambda ex, st, obj, args, node: oapp('data of', obj))
    X = t.obj('X', CD)
    XC = MRef('X.constraints', (), 'std::map<std::string, std::shared_ptr<ConstraintDataAbstractTpl<double>>>')
    t.ex.inits[IT + '.name'] = lambda k: k
    t.ex.inits['X.constraints.has'] = lambda *i: FALSE
    t.size('X.constraints', ic(0))
    c, f = t.ex.find_ctor(CD, 2, [m, oapp('S')], t.st); t.ex.run(f, X, [m, oapp('S')], t.st)
    for w in 'gh':
        t.eqt('constructed ' + w, t.tval('X.' + w), O, N[w])
        t.eqt('constructed %sx' % w.upper(), t.tval('X.%sx' % w.upper()), O, N[w], ndx)
        t.eqt('constructed %su' % w.upper(), t.tval('X.%su' % w.upper()), O, N[w], nu)
    k, r = t.nat('k'), [ilt(iapp('k'), n)]
    t.holds('an item data per item', t.cell('X.constraints.has', key(k), typ='bool'), extra=r)
    t.holds('made by the model of the item', oeq(t.cell('X.constraints@', key(k), typ='shared_ptr'), oapp('data of', con(k))), extra=r)
    t.eq('as many item data as items', t.ex.vsize(XC, t.st), n)
    t.throws_iff('never', FALSE)
    t.sides(shapes=False)
    t.frame(['X.*', 'X.constraints*'])
    return t


TASKS['data'] = t_data
