"""Contracts of the ingredients of an integrated action: continuous-time model, control parametrisation, state manifold."""
from spec import *

DM, DD = 'DifferentialActionModelAbstractTpl<double>', 'DifferentialActionDataAbstractTpl<double>'
CM, CD = 'ControlParametrizationModelAbstractTpl<double>', 'ControlParametrizationDataAbstractTpl<double>'
SA = 'StateAbstractTpl<double>'
NOU = oapp('no_u')
ASSUME = ['the continuous-time model is an arbitrary function of (state, control), the control parametrisation an arbitrary map whose Jacobian depends on the time fraction of its last evaluation only (P05), the state manifold arbitrary with Jacobians J1, J2 of integrate',
          'ndx = 2 nv (both integrators assume it)', 'calcDiff follows calc at the same point with the same data']


class Integ: pass


def put(ex, st, o, f, v): ex.write(st, o.a[0] + '.' + f, o.a[1], D if isinstance(v, T) else (VEC if isc(v.cols) else MAT), v)


def setup(db, cls, dcls, name, con, dif):
    """con, dif: paths of the control data and of the continuous-time data"""
    t = Task(db, cls + '::' + name)
    z = Integ(); z.t = t; z.cls = cls
    z.m, z.d = t.obj('M', cls), t.obj('D', dcls)
    nv, nx, nu, nw, nr, ng, nh, gT, hT = (t.nat(k) for k in ('nv', 'nx', 'nu', 'nw', 'nr', 'ng', 'nh', 'gT', 'hT'))
    ndx = iscale(nv, 2)
    t.require(ile(nv, nx)); t.require(ile(ic(1), nv))
    z.nv, z.nx, z.nu, z.nw, z.nr, z.ng, z.nh, z.gT, z.hT, z.ndx = nv, nx, nu, nw, nr, ng, nh, gT, hT, ndx
    z.dt = rapp('dt')
    ex = t.ex
    ex.cls.update({'M.differential_': DM, 'M.control_': CM, 'M.state_': SA, 'M.differential_.state_': SA, con: CD, dif: DD})
    for o in ('M.state_', 'M.differential_.state_'):
        for k, v in (('nx', nx), ('ndx', ndx), ('nv', nv)): t.init(o + '.%s_' % k, v)
    t.init('M.nu_', nu); t.init('M.nr_', nr); t.init('M.time_step_', z.dt); t.init('M.time_step2_', mul(z.dt, z.dt)); t.init('M.control_.nu_', nu); t.init('M.control_.nw_', nw); t.init('M.differential_.nu_', nw)
    for o in ('M', 'M.differential_'):
        for k, v in (('ng', ng), ('nh', nh), ('ng_T', gT), ('nh_T', hT)): t.init(o + '.%s_' % k, v)
    ar = (lambda r, c: (lambda *k: (r, c)))
    t.dims(dif, **{k: ar(*s) for k, s in dict(xout=(nv, 1), Fx=(nv, ndx), Fu=(nv, nw), Lx=(ndx, 1), Lu=(nw, 1), Lxx=(ndx, ndx), Lxu=(ndx, nw), Luu=(nw, nw), g=(ng, 1), h=(nh, 1), Gx=(ng, ndx), Gu=(ng, nw), Hx=(nh, ndx), Hu=(nh, nw), r=(nr, 1)).items()})
    t.dims(con, w=ar(nw, 1), u=ar(nu, 1))
    t.dims('D', xnext=(nx, 1), Fx=(ndx, ndx), Fu=(ndx, nu), Lx=(ndx, 1), Lu=(nu, 1), Lxx=(ndx, ndx), Lxu=(ndx, nu), Luu=(nu, nu), g=(ng, 1), h=(nh, 1), Gx=(ng, ndx), Gu=(ng, nu), Hx=(nh, ndx), Hu=(nh, nu), r=(nr, 1), dx=(ndx, 1))
    # --- continuous-time model
    def calc(ex, st, obj, args, node):
        if obj.a[0] == 'M': return NotImplemented
        x = ex.ten(args[1], st); ex.shape(st, 'continuous-time x', x.rows, nx, node)
        xl, wl, gg, hh = x.lam(), NOU, gT, hT
        if len(args) > 2:
            w = ex.ten(args[2], st); ex.shape(st, 'continuous-time control', w.rows, nw, node); wl, gg, hh = w.lam(), ng, nh
        put(ex, st, args[0], 'cost', rapp('c:cost', xl, wl))
        ex.write(st, args[0].a[0] + '.point_', args[0].a[1], 'unsigned long', iapp('point', xl, wl))
        for f, n in (('xout', nv), ('g', gg), ('h', hh), ('r', nr)):
            if f == 'xout' and len(args) <= 2: continue
            put(ex, st, args[0], f, Ten(n, 1, (lambda f: lambda i, j: rapp('c:' + f, xl, wl, i))(f)))

    def calcDiff(ex, st, obj, args, node):
        if obj.a[0] == 'M': return NotImplemented
        x = ex.ten(args[1], st); ex.shape(st, 'continuous-time x', x.rows, nx, node)
        xl, wl, gg, hh = x.lam(), NOU, gT, hT
        run = len(args) > 2
        if run:
            w = ex.ten(args[2], st); ex.shape(st, 'continuous-time control', w.rows, nw, node); wl, gg, hh = w.lam(), ng, nh
        at = ex.int_(ex.rval(LRef(args[0].a[0] + '.point_', args[0].a[1], 'unsigned long'), st), st)
        ex.oblig(st, 'the continuous-time model is differentiated where it was last evaluated', ieq(at, iapp('point', xl, wl)))
        for f, r, c in (('Fx', nv, ndx), ('Fu', nv, nw), ('Lxx', ndx, ndx), ('Lxu', ndx, nw), ('Luu', nw, nw), ('Gx', gg, ndx), ('Gu', gg, nw), ('Hx', hh, ndx), ('Hu', hh, nw)):
            if not run and f not in ('Lxx', 'Gx', 'Hx'): continue
            put(ex, st, args[0], f, Ten(r, c, (lambda f: lambda i, j: dm(f, xl, wl, i, j))(f)))
        for f, n in (('Lx', ndx), ('Lu', nw)):
            if not run and f == 'Lu': continue
            put(ex, st, args[0], f, Ten(n, 1, (lambda f: lambda i, j: rapp('c:' + f, xl, wl, i))(f)))
    t.contract(DM, 'calc', calc); t.contract(DM, 'calcDiff', calcDiff)
    # --- control parametrisation: value w(t, u); products with the Jacobian at the time fraction of the last evaluation
    last = lambda st, o: ex.rval(LRef(o.a[0] + '.t_last', o.a[1], D), st)

    def ccalc(ex, st, obj, args, node):
        u = ex.ten(args[2], st); ex.shape(st, 'parameters', u.rows, nu, node)
        tt, ul = toreal(ex.rval(args[1], st)), u.lam()
        put(ex, st, args[0], 'w', Ten(nw, 1, lambda i, j: rapp('w', tt, ul, i)))
        put(ex, st, args[0], 't_last', tt)

    def upd(ex, st, out, v, args, node):
        op = ex.int_(args[3], st) if len(args) > 3 else enum("setto")
        o = ex.ten(out, st)
        ex.shape(st, 'product rows', o.rows, v.rows, node); ex.shape(st, 'product columns', o.cols, v.cols, node)
        f = lambda i, j: ite(ieq(op, enum('setto')), v.at(i, j), ite(ieq(op, enum('addto')), add(o.at(i, j), v.at(i, j)), sub(o.at(i, j), v.at(i, j))))
        ex.assign(out, Ten(v.rows, v.cols, f), st, node, False)

    def mulJ(ex, st, obj, args, node):
        A, tt = ex.ten(args[1], st), last(st, args[0])
        ex.shape(st, 'product', A.cols, nw, node)
        upd(ex, st, args[2], Ten(A.rows, nu, lambda i, j: dotsum(nw, lambda k: mul(A.at(i, k), rapp('Jw', tt, k, j)))), args, node)

    def mulJT(ex, st, obj, args, node):
        A, tt = ex.ten(args[1], st), last(st, args[0])
        ex.shape(st, 'product', A.rows, nw, node)
        upd(ex, st, args[2], Ten(nu, A.cols, lambda i, j: dotsum(nw, lambda k: mul(rapp('Jw', tt, k, i), A.at(k, j)))), args, node)
    t.contract(CM, 'calc', ccalc); t.contract(CM, 'multiplyByJacobian', mulJ); t.contract(CM, 'multiplyJacobianTransposeBy', mulJT)
    def bounds(ex, st, obj, args, node):
        if ex.objcls(obj) not in (None, CM): return NotImplemented
        lo, hi = ex.ten(args[0], st), ex.ten(args[1], st)
        for o in args[:2]: ex.shape(st, 'control bounds', ex.ten(o, st).rows, nw, node)
        for k in (0, 1):
            ex.shape(st, 'parameter bounds', ex.ten(args[2 + k], st).rows, nu, node)
            ex.assign(args[2 + k], Ten(nu, 1, (lambda k: lambda i, j: rapp(('cb_lo', 'cb_hi')[k], lo.lam(), hi.lam(), i))(k)), st, node, False)

    def params(ex, st, obj, args, node):
        w = ex.ten(args[2], st); ex.shape(st, 'control', w.rows, nw, node)
        tt, wl = toreal(ex.rval(args[1], st)), w.lam()
        put(ex, st, args[0], 'u', Ten(nu, 1, lambda i, j: rapp('par', tt, wl, i)))

    def qs(ex, st, obj, args, node):
        if obj.a[0] == 'M': return NotImplemented
        w, x = ex.ten(args[1], st), ex.ten(args[2], st)
        ex.shape(st, 'quasi-static control', w.rows, nw, node); ex.shape(st, 'quasi-static state', x.rows, nx, node)
        wl, xl, mi, tol = w.lam(), x.lam(), ex.int_(args[3], st), toreal(ex.rval(args[4], st))
        ex.assign(args[1], Ten(nw, 1, lambda i, j: rapp('c:qs', wl, xl, mi, tol, i)), st, node, False)
    t.contract(CM, 'convertBounds', bounds); t.contract(CM, 'params', params); t.contract(DM, 'quasiStatic', qs)
    # --- state manifold
    def null(v):       # a null displacement: integrate is the identity, its Jacobians too
        import nf as NF
        k = iv(fresh('z'))
        return NF.prove_zero(v.at(k, ic(0)), [ile(ic(0), k), ilt(k, ndx)])[0]

    def xv(ex, st, args, node):
        x, v = ex.ten(args[0], st), ex.ten(args[1], st)
        ex.shape(st, 'manifold x', x.rows, nx, node); ex.shape(st, 'manifold dx', v.rows, ndx, node)
        return x.lam(), v.lam()

    def integrate(ex, st, obj, args, node):
        x = ex.ten(args[0], st)
        xl, vl = xv(ex, st, args, node)
        ex.assign(args[2], Ten(nx, 1, (lambda i, j: x.at(i, j)) if null(ex.ten(args[1], st)) else (lambda i, j: rapp('integ', xl, vl, i))), st, node, False)

    def transport(ex, st, obj, args, node):
        xl, vl = xv(ex, st, args, node); A = ex.ten(args[2], st)
        ex.shape(st, 'transport', A.rows, ndx, node)
        first = ieq(ex.int_(args[3], st), enum('first'))
        Jm = lambda i, k: ite(first, rapp('J1', xl, vl, i, k), rapp('J2', xl, vl, i, k))
        ex.assign(args[2], Ten(ndx, A.cols, lambda i, j: dotsum(ndx, lambda k: mul(Jm(i, k), A.at(k, j)))), st, node, False)

    def jintegrate(ex, st, obj, args, node):
        xl, vl = xv(ex, st, args, node)
        nul = null(ex.ten(args[1], st))
        c = ex.int_(args[4], st) if len(args) > 4 else enum('both')
        op = ex.int_(args[5], st) if len(args) > 5 else enum('setto')
        def one(k, nm, other):
            skip = ieq(c, enum(other))
            if ex.decide(skip, st) is True: return
            o = ex.ten(args[2 + k], st)
            ex.shape(st, 'Jintegrate', o.rows, ndx, node); ex.shape(st, 'Jintegrate', o.cols, ndx, node)
            v = lambda i, j: ite(ieq(i, j), ONE, ZERO) if nul else rapp(nm, xl, vl, i, j)
            f = lambda i, j: ite(skip, o.at(i, j), ite(ieq(op, enum('setto')), v(i, j), ite(ieq(op, enum('addto')), add(o.at(i, j), v(i, j)), sub(o.at(i, j), v(i, j)))))
            ex.assign(args[2 + k], Ten(ndx, ndx, f), st, node, False)
        one(0, 'J1', 'second'); one(1, 'J2', 'first')
    t.contract(SA, 'integrate', integrate); t.contract(SA, 'JintegrateTransport', transport); t.contract(SA, 'Jintegrate', jintegrate)
    return z



def dm(f, xl, wl, i, j): return rapp('c:' + f, xl, wl, i, j)
