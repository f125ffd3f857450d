"""P15: edits of a shooting problem."""
from spec import *
from shoot import *

UNITS = ['optctrl/shooting', 'action-base', 'state-base', 'actions/lqr', 'actions/unicycle', 'integrator/euler', 'integrator/rk']
HARNESS = 'h15'
NOTE = 'Every edit function and the constructors, on problems of any horizon; histories follow because each edit preserves the pairing invariant for an arbitrary pre-state.'
PTR = 'std::shared_ptr<ActionModelAbstractTpl<double>>'
PTRD = 'std::shared_ptr<ActionDataAbstractTpl<double>>'


def base(db):
    t = Task(db, '')
    p = problem(t, 'P')
    t.setcls('m', AM); t.setcls('m.state_', 'StateAbstractTpl<double>'); t.setcls('dd', AD)
    t.contract(AM, 'createData', lambda ex, st, obj, args, node: newdata(obj))
    t.contract(AM, 'checkData', lambda ex, st, obj, args, node: bapp('check', obj, args[0]))
    return t, p


def newdata(m): return mk_app('created', m)


def mk_app(name, *a): return oapp(name, *a)


mnx, mndx = iapp('m.state_.nx_'), iapp('m.state_.ndx_')
M, DD = oapp('m'), oapp('dd')
baddim = lambda p: bor(bnot(ieq(mnx, p.nx)), bnot(ieq(mndx, p.ndx)))


def at(t, key, typ, *k, st=None): return t.ex.read(st or t.st, key, tuple(k), typ)


def unchanged(t, p):
    """a rejected edit leaves models, data, sizes and the update flag untouched"""
    for n, (pc, st) in enumerate(t.ex.throws):
        for k, c in sorted(st.cells.items()):
            if not k.startswith('P.'): continue
            i0 = t.ex.icells.get(k)
            if i0 is not None and c.bid == i0.bid and not c.log: continue
            kx = fresh('q')
            typ = c.typ
            idx = (iv(kx),) if '[*]' in k else ()
            t.pc = list(pc)
            fx = ([ile(ic(0), iv(kx)), ilt(iv(kx), p.T)] if idx else [])
            try: new, old = c.at(idx), i0.at(idx)
            except Exception: new = None
            if isinstance(new, T): t.eq('rejection %d leaves %s' % (n, k), new, old, extra=fx)
            else: t.holds('rejection %d leaves %s' % (n, k), FALSE, extra=fx)
        t.pc = None


def pairing(t, p, mods, dats, mT, dT, T1=None):
    """expected models/datas as functions of the node"""
    T1 = T1 or p.T
    k = iv('k')
    fx = [ile(ic(0), k), ilt(k, T1)]
    t.eq('model of node k', at(t, p.M, PTR, k), mods(k), extra=fx)
    t.eq('data of node k', at(t, p.Dd, PTRD, k), dats(k), extra=fx)
    t.eq('terminal model', at(t, p.TM, PTR), mT)
    t.eq('terminal data', at(t, p.TD, PTRD), dT)
    t.eq('horizon', at(t, 'P.T_', 'size_t'), T1)
    t.eq('number of models', t.ex.vsize(VRef('P.running_models_', (), 'x'), t.st), T1)
    t.eq('number of data', t.ex.vsize(VRef('P.running_datas_', (), 'x'), t.st), T1)
    t.eq('state dimension', at(t, 'P.nx_', 'size_t'), p.nx)
    t.eq('tangent dimension', at(t, 'P.ndx_', 'size_t'), p.ndx)


def edit(name, args, sig=None, lo=None, hi=None):
    def go(db):
        t, p = base(db)
        t.fn_ = SP + '::' + name
        i = t.nat('i')
        a = {'i': i, 'm': M, 'd': DD}
        withd = 'd' in args
        t.call(oapp('P'), SP, name, [a[x] for x in args])
        bad = baddim(p)
        if withd: bad = bor(bad, bnot(bapp('check', M, DD)))
        if 'i' in args: bad = bor(bad, ilt(p.T, i))
        t.throws_iff(name, bad)
        unchanged(t, p)
        nd = DD if withd else newdata(M)
        last = isub(p.T, ic(1))
        if name == 'circularAppend':
            pairing(t, p, lambda k: ite(ieq(k, last), M, p.m(iadd(k, ic(1)))), lambda k: ite(ieq(k, last), nd, p.d(iadd(k, ic(1)))), p.tm, p.td)
        elif name == 'set_terminalModel':
            pairing(t, p, p.m, p.d, M, nd)
        else:
            pairing(t, p, lambda k: ite(ieq(k, i), M, p.m(k)), lambda k: ite(ieq(k, i), nd, p.d(k)), ite(ieq(i, p.T), M, p.tm), ite(ieq(i, p.T), nd, p.td))
        t.eq('update flag', at(t, 'P.is_updated_', 'bool'), TRUE)
        t.frame(['P.running_models_*', 'P.running_datas_*', 'P.terminal_model_', 'P.terminal_data_', 'P.is_updated_'])
        t.sides()
        return t
    return go


def t_setrunning(alias):
    def go(db):
        t, p = base(db)
        t.fn_ = SP + '::set_runningModels'
        n = t.nat('n') if not alias else p.T
        if not alias:
            t.size('ms', n)
            t.setcls('ms[*]', AM); t.setcls('ms[*].state_', 'StateAbstractTpl<double>')
            arg = VRef('ms', (), 'std::vector<%s>' % PTR); mods = lambda k: oapp('ms[*]', toint(k))
            q = fresh('q')
            bad = bnot(ball(q, ic(0), n, band(ieq(iapp('ms[*].state_.nx_', iv(q)), p.nx), ieq(iapp('ms[*].state_.ndx_', iv(q)), p.ndx))))
        else:
            arg = VRef('P.running_models_', (), 'std::vector<%s>' % PTR); mods = p.m; bad = FALSE
        t.call(oapp('P'), SP, 'set_runningModels', [arg])
        t.throws_iff('set_runningModels', bad)
        unchanged(t, p)
        pairing(t, p, mods, lambda k: newdata(mods(k)), p.tm, p.td, n)
        t.eq('update flag', at(t, 'P.is_updated_', 'bool'), TRUE)
        t.frame(['P.running_models_*', 'P.running_datas_*', 'P.T_', 'P.is_updated_'])
        return t
    return go


def t_setx0(db):
    t, p = base(db)
    t.fn_ = SP + '::set_x0'
    n = t.nat('n')
    t.call(oapp('P'), SP, 'set_x0', [t.vec('y', n)])
    t.throws_iff('set_x0', bnot(ieq(n, p.nx)))
    t.eqt('initial state', t.tval('P.x0_'), lambda i: rapp('y', i), p.nx)
    t.frame(['P.x0_'])
    return t


def t_flag(db):
    t, p = base(db)
    t.fn_ = SP + '::is_updated'
    r = t.call(oapp('P'), SP, 'is_updated', [])
    t.eq('reports the flag', tobool(t.ex.rval(r, t.st)), bapp('P.is_updated_'))
    t.eq('and clears it', at(t, 'P.is_updated_', 'bool'), FALSE)
    t.frame(['P.is_updated_'])
    return t


def t_ctor(datas):
    def go(db):
        t = Task(db, '')
        t.fn_ = SP + '::ShootingProblem' + (' (with data)' if datas else '')
        T, n = t.nat('T'), t.nat('n'); t.require(ile(ic(1), T))
        t.contract(AM, 'createData', lambda ex, st, obj, args, node: newdata(obj))
        t.contract(AM, 'checkData', lambda ex, st, obj, args, node: bapp('check', obj, args[0]))
        t.size('ms', T)
        for q in ('ms[*]', 'mT'): t.setcls(q, AM); t.setcls(q + '.state_', 'StateAbstractTpl<double>')
        x0 = t.vec('y', n)
        ms = VRef('ms', (), 'std::vector<%s>' % PTR)
        mod = lambda k: oapp('ms[*]', toint(k))
        mT = oapp('mT')
        dat = lambda k: oapp('ds[*]', toint(k))
        args = [x0, ms, mT]
        nx, ndx = iapp('ms[*].state_.nx_', ic(0)), iapp('ms[*].state_.ndx_', ic(0))
        q = fresh('q')
        same = lambda k: band(ieq(iapp('ms[*].state_.nx_', k), nx), ieq(iapp('ms[*].state_.ndx_', k), ndx))
        ok = band(ieq(n, nx), ieq(iapp('mT.state_.nx_'), nx), ieq(iapp('mT.state_.ndx_'), ndx))
        if datas:
            Td = t.nat('Td'); t.size('ds', Td)
            t.setcls('ds[*]', AD); t.setcls('dT', AD)
            args += [VRef('ds', (), 'std::vector<%s>' % PTRD), oapp('dT')]
            ok = band(ok, ieq(Td, T), bapp('check', mT, oapp('dT')), ball(q, ic(0), T, band(same(iv(q)), bapp('check', mod(iv(q)), dat(iv(q))))))
        else: ok = band(ok, ball(q, ic(1), T, same(iv(q))))
        ex = t.ex
        ex.cls['P'] = SP
        c, f = ex.find_ctor(SP, len(args), args, t.st)
        ex.run(f, oapp('P'), args, t.st)
        t.throws_iff('constructor', bnot(ok))
        p = Prob(); p.T = T; p.M, p.Dd, p.TM, p.TD = 'P.running_models_[*]', 'P.running_datas_[*]', 'P.terminal_model_', 'P.terminal_data_'
        p.nx, p.ndx = nx, ndx
        pairing(t, p, mod, dat if datas else (lambda k: newdata(mod(k))), mT, oapp('dT') if datas else newdata(mT))
        t.eqt('initial state', t.tval('P.x0_'), lambda i: rapp('y', i), n)
        t.eq('update flag', at(t, 'P.is_updated_', 'bool'), FALSE)
        t.sides()
        return t
    return go


def t_copy(db):
    t, p = base(db)
    t.fn_ = SP + '::ShootingProblem (copy)'
    ex = t.ex
    ex.cls['Q'] = SP
    fs = [f for f in ex.db.find(SP, 'ShootingProblemTpl') if True] if hasattr(ex.db, 'find') else None
    c, f = ex.find_ctor(SP, 1, [oapp('P')], t.st)
    ex.run(f, oapp('Q'), [oapp('P')], t.st)
    k = iv('k'); fx = [ile(ic(0), k), ilt(k, p.T)]
    t.eq('model of node k', at(t, 'Q.running_models_[*]', PTR, k), p.m(k), extra=fx)
    t.eq('data of node k', at(t, 'Q.running_datas_[*]', PTRD, k), p.d(k), extra=fx)
    t.eq('terminal model', at(t, 'Q.terminal_model_', PTR), p.tm); t.eq('terminal data', at(t, 'Q.terminal_data_', PTRD), p.td)
    t.eq('horizon', at(t, 'Q.T_', 'size_t'), p.T)
    t.eq('state dimension', at(t, 'Q.nx_', 'size_t'), p.nx); t.eq('tangent dimension', at(t, 'Q.ndx_', 'size_t'), p.ndx)
    t.eqt('initial state', t.tval('Q.x0_'), lambda i: rapp('P.x0_', i), p.nx)
    t.eq('update flag', at(t, 'Q.is_updated_', 'bool'), FALSE)
    t.eq('number of models', t.ex.vsize(VRef('Q.running_models_', (), 'x'), t.st), p.T)
    t.eq('number of data', t.ex.vsize(VRef('Q.running_datas_', (), 'x'), t.st), p.T)
    return t


DAM = 'DifferentialActionModelAbstractTpl<double>'
INTEG = ('IntegratedActionModelEulerTpl', 'IntegratedActionModelRKTpl')


def t_compat(cls, how):
    """the compatibility test of a built-in action on data of its own kind, of another kind, and on no data"""
    def go(db):
        t = Task(db, '')
        C = cls + '<double>'
        D = C.replace('Model', 'Data')
        t.fn_ = C + '::checkData(%s data)' % how
        t.contract(DAM, 'checkData', lambda ex, st, obj, args, node: bapp('dcheck', obj, args[0]))
        t.setcls('M.differential_', DAM)
        d = oapp('null') if how == 'no' else oapp('dat')
        if how == 'own': t.setcls('dat', D)
        if how == 'foreign':
            t.setcls('dat', AD)
            t.ex.exact = set(getattr(t.ex, 'exact', ())) | {'dat'}
        n = iapp('M.ni_'); t.require(ile(ic(0), n))
        t.size('dat.differential', n)
        ex = t.ex
        r = tobool(ex.rval(t.call(oapp('M'), C, 'checkData', [d]), t.st))
        if how != 'own': t.eq('rejected', r, FALSE)
        elif cls == INTEG[0]: t.eq('accepted with matching inner data', r, bapp('dcheck', oapp('M.differential_'), oapp('dat.differential')))
        elif cls == INTEG[1]:
            q = fresh('q')
            inner = ball(q, ic(0), n, bapp('dcheck', oapp('M.differential_'), oapp('dat.differential[*]', iv(q))))
            t.holds('accepted only with matching inner data', bor(bnot(r), inner))
            t.holds('accepted with matching inner data', bor(r, bnot(inner)))
        else: t.eq('accepted', r, TRUE)
        t.sides()
        return t
    return go


TASKS = {'circularAppend model+data': edit('circularAppend', 'md'), 'circularAppend model': edit('circularAppend', 'm'),
         'updateNode': edit('updateNode', 'imd'), 'updateModel': edit('updateModel', 'im'), 'set_terminalModel': edit('set_terminalModel', 'm'),
         'set_runningModels': t_setrunning(False), 'set_runningModels (own models)': t_setrunning(True), 'set_x0': t_setx0, 'is_updated': t_flag,
         'constructor': t_ctor(False), 'constructor with data': t_ctor(True), 'copy': t_copy}
for c in ('ActionModelLQRTpl', 'ActionModelUnicycleTpl') + INTEG:
    for h in ('own', 'foreign', 'no'): TASKS['compatibility %s %s' % (c, h)] = t_compat(c, h)
