"""P20: box-constrained quadratic programs."""
from spec import *
import loops as LP

UNITS = ['box-qp']
HARNESS = 'h20'
NOTE = 'BoxQP::solve by inductive invariant over the outer iterations and the line search (any number of iterations, any outcome of the line search); the solution is that of the last iteration.'
ASSUME = ['maxiter >= 1 (a solver configured for zero iterations returns the clamped warm start and the previous active set)', 'a successful Cholesky decomposition inverts its argument']


class Inv:
    peel = True

    def __init__(s, t): s.t = t; s.heads = []
    def select(s, node): return LP.leaves(node.c[-1])
    def head(s, node, S): s.heads.append((node, S))

    def cands(s, ex, st, written):
        out = []
        for k, typ in written.items():
            if kind_of(typ)[0] in ('ten',) or 'Vector' in typ:
                try: v = ex.read(st, k, (), typ)
                except Exception: continue
                if not isinstance(v, Ten) or not v.isvec(): continue

                def f(S, k=k, typ=typ, lo=True):
                    v = ex.read(S, k, (), typ)
                    i = fresh('b')
                    x = v.at(iv(i), ic(0))
                    return ball(i, ic(0), v.rows, rle(rapp('lb', iv(i)), x) if lo else rle(x, rapp('ub', iv(i))))
                out.append((k + ' >= lb', f))
                out.append((k + ' <= ub', lambda S, f=f: f(S, lo=False)))
            if typ == 'iterator':
                def g(S, k=k):
                    v = ex.read(S, k, (), 'iterator')
                    if not isinstance(v, SX.Iter) or v.pos is None: return TRUE
                    return band(ile(ic(0), v.pos), ile(v.pos, ex.vsize(v.cont, S)))
                out.append((k + ' in range', g))
        return out


def setup(t, free):
    ex = t.ex
    ex.shape_checks = False
    n = t.nat('n')
    s = t.obj('S', 'BoxQP')
    t.init('S.nx_', n)
    t.dims('S', x_=(n, 1), xnew_=(n, 1), g_=(n, 1), dx_=(n, 1), xo_=(n, 1), dxo_=(n, 1), qo_=(n, 1), Ho_=(n, n))
    na = t.nat('na'); t.size('S.alphas_', na)
    t.size('S.solution_.free_idx', t.nat('f0')); t.size('S.solution_.clamped_idx', t.nat('c0'))
    t.dims('S.solution_', x=(t.nat('sx'), 1), Hff_inv=(t.nat('h0'), t.nat('h1')))
    a, bad = {}, []
    for nm in ('H', 'q', 'lb', 'ub', 'x0'):
        r = t.nat('r' + nm) if free else n
        c = (t.nat('cH') if free else n) if nm == 'H' else ic(1)
        ex.dims[nm] = (lambda r, c: lambda *i: (r, c))(r, c)
        a[nm] = LRef(nm, (), MAT if nm == 'H' else VEC)
        bad.append(bnot(ieq(r, n)))
        if nm == 'H': bad.append(bnot(ieq(c, n)))
    i = fresh('i')
    t.require(ball(i, ic(0), n, rle(rapp('lb', iv(i)), rapp('ub', iv(i)))))
    t.require(ile(ic(1), iapp('S.maxiter_')))
    ex.inv = Inv(t)
    return n, s, [a[k] for k in ('H', 'q', 'lb', 'ub', 'x0')], bor(*bad)


def sizes(db):
    t = Task(db, 'BoxQP::solve')
    n, s, args, bad = setup(t, True)
    t.call(s, 'BoxQP', 'solve', args)
    t.holds('an accepted call has arguments of the declared sizes', bnot(bad))
    for k, (pc, st) in enumerate(t.ex.throws):
        ok = [x for c in pc for x in walk(c) if x.op == 'bapp' and x.a[0] == 'decomp_ok']
        t.pc = list(pc)
        t.holds('rejection %d: wrong size%s' % (k, ' or free block not positive definite' if ok else ''), bor(bad, *[bnot(x) for x in ok]))
        t.pc = None
    return t


def solve(db):
    t = Task(db, 'BoxQP::solve')
    ex = t.ex
    n, s, args, _ = setup(t, False)
    r = t.call(s, 'BoxQP', 'solve', args)
    t.holds('returns the stored solution', tobool(isinstance(r, LRef) and r.key == 'S.solution_' or getattr(r, 'op', '') == 'oapp' and r.a[0] == 'S.solution_'))
    node = ex.inv.heads[0][0]
    H0 = [S for m, S in ex.inv.heads if m is node][-1]
    x0 = ex.read(H0, 'S.x_', (), VEC)
    H, q, lb, ub = (lambda i, j: rapp('H', i, j)), (lambda i: rapp('q', i)), (lambda i: rapp('lb', i)), (lambda i: rapp('ub', i))
    X0 = lambda i: x0.at(i, ic(0))
    g0 = lambda i: add(q(i), dotsum(n, lambda k: mul(H(i, k), X0(k))))
    held = lambda i: bor(band(req(X0(i), lb(i)), rlt(ZERO, g0(i))), band(req(X0(i), ub(i)), rlt(g0(i), ZERO)))

    def count(f, j):
        k = fresh('k')
        return isum(k, ic(0), j, iite(f(iv(k)), ic(1), ic(0)))
    nf, nc = t.ival('S.solution_.free_idx.#'), t.ival('S.solution_.clamped_idx.#')
    k = iv(fresh('k'))
    ra = [ile(ic(0), k), ilt(k, n)]
    x = t.tval('S.solution_.x')
    t.eq('the solution has nx entries', x.rows, n)
    t.holds('the solution lies within the bounds', band(rle(lb(k), x.at(k, ic(0))), rle(x.at(k, ic(0)), ub(k))), ra)
    t.holds('the iterate of the classification lies within the bounds', band(rle(lb(k), X0(k)), rle(X0(k), ub(k))), ra)
    t.eq('number of free variables', nf, count(lambda i: bnot(held(i)), n))
    t.eq('number of clamped variables', nc, count(held, n))
    t.eq('every variable is listed', iadd(nf, nc), n)
    el = lambda key, i: t.ival('S.solution_.%s[*]' % key, i)
    t.holds('a free variable is listed after the free variables before it', ieq(el('free_idx', count(lambda i: bnot(held(i)), k)), k), ra + [bnot(held(k))])
    t.holds('a clamped variable is listed after the clamped variables before it', ieq(el('clamped_idx', count(held, k)), k), ra + [held(k)])
    e = iv(fresh('e')); re = [ile(ic(0), e), ilt(e, nc)]
    c = el('clamped_idx', e)
    t.holds('clamped entries are variables', band(ile(ic(0), c), ilt(c, n)), re)
    f = iv(fresh('f')); rf = [ile(ic(0), f), ilt(f, nf)]
    t.holds('free entries are variables', band(ile(ic(0), el('free_idx', f)), ilt(el('free_idx', f), n)), rf)
    t.holds('a clamped variable keeps its value', req(x.at(k, ic(0)), X0(k)), ra + [held(k)])
    t.holds('a clamped variable sits at a bound whose gradient sign holds it', bor(band(req(x.at(k, ic(0)), lb(k)), rlt(ZERO, g0(k))), band(req(x.at(k, ic(0)), ub(k)), rlt(g0(k), ZERO))), ra + [held(k)])
    Hi = t.tval('S.solution_.Hff_inv')
    t.holds('shape of the inverse', band(ieq(Hi.rows, nf), ieq(Hi.cols, nf)))
    a_, c_ = iv(fresh('r')), iv(fresh('c'))
    fx = [y for v in (a_, c_) for y in (ile(ic(0), v), ilt(v, nf))]
    reg = rapp('S.reg_')
    hff = lambda i, j: add(H(el('free_idx', i), el('free_idx', j)), ite(ieq(i, j), reg, ZERO))
    t.eq('inverse of the regularised free block', dotsum(nf, lambda b: mul(hff(a_, b), Hi.at(b, c_))), ite(ieq(a_, c_), ONE, ZERO), fx)
    for j, (pc, st) in enumerate(ex.throws):
        ok = [y for cc in pc for y in walk(cc) if y.op == 'bapp' and y.a[0] == 'decomp_ok']
        t.pc = list(pc)
        t.holds('rejection %d: free block not positive definite' % j, bor(*[bnot(y) for y in ok]))
        t.pc = None
    return t


def setters(db):
    ts = []

    def new():
        t = Task(db, 'BoxQP setters'); ts.append(t)
        t.ex.shape_checks = False
        n = t.nat('n')
        s = t.obj('S', 'BoxQP')
        t.init('S.nx_', n)
        t.dims('S', x_=(n, 1), xnew_=(n, 1), g_=(n, 1), dx_=(n, 1), xo_=(n, 1), dxo_=(n, 1), qo_=(n, 1), Ho_=(n, n))
        return t, s, n
    own = lambda k: k.startswith('S.')
    v = rapp('v')
    for m, key, bad in (('set_th_acceptstep', 'th_acceptstep_', bor(rle(v, ZERO), rle(num('1/2'), v))), ('set_th_grad', 'th_grad_', rlt(v, ZERO)), ('set_reg', 'reg_', rlt(v, ZERO))):
        t, s, n = new(); t.fn_ = 'BoxQP::' + m
        t.call(s, 'BoxQP', m, [v])
        t.throws_iff(m, bad)
        t.rejected(own)
        t.eq(m + ' stores', t.rval('S.' + key), v)
        t.frame(['S.' + key])
        t.eq(m + ' is read back', t.ex.rval(t.call(s, 'BoxQP', m.replace('set', 'get'), []), t.st), v)
    t, s, n = new(); t.fn_ = 'BoxQP::set_maxiter'
    w = t.nat('w')
    t.call(s, 'BoxQP', 'set_maxiter', [w])
    t.eq('set_maxiter stores', t.ival('S.maxiter_'), w)
    t.frame(['S.maxiter_'])
    t, s, n = new(); t.fn_ = 'BoxQP::set_nx'
    t.call(s, 'BoxQP', 'set_nx', [w])
    t.eq('set_nx stores', t.ival('S.nx_'), w)
    for k in ('x_', 'xnew_', 'g_', 'dx_', 'xo_', 'dxo_', 'qo_'):
        t.eq('set_nx resizes ' + k, t.tval('S.' + k).rows, w)
    H = t.tval('S.Ho_')
    t.holds('set_nx resizes Ho_', band(ieq(H.rows, w), ieq(H.cols, w)))
    # step lengths: non-empty, positive, decreasing
    t, s, n = new(); t.fn_ = 'BoxQP::set_alphas'
    na = t.nat('na'); t.size('al', na); t.size('S.alphas_', t.nat('n0'))
    t.call(s, 'BoxQP', 'set_alphas', [VRef('al', (), 'std::vector<double>')])
    i = fresh('i')
    a = lambda j: rapp('al[*]', j)
    ok = band(ile(ic(1), na), ball(i, ic(0), na, rlt(ZERO, a(iv(i)))), ball(i, ic(1), na, rlt(a(iv(i)), a(isub(iv(i), ic(1))))))
    t.throws_iff('set_alphas', bnot(ok))
    t.rejected(own)
    j = iv(fresh('j'))
    t.eq('set_alphas stores', t.rval('S.alphas_[*]', j), a(j), [ile(ic(0), j), ilt(j, na)])
    t.eq('set_alphas stores all', t.ex.vsize(VRef('S.alphas_', (), 'std::vector<double>'), t.st), na)
    # construction
    t = Task(db, 'BoxQP::BoxQP'); ts.append(t)
    t.ex.shape_checks = False
    n, mi = t.nat('n'), t.nat('mi')
    s = t.obj('S', 'BoxQP')
    args = [n, mi, rapp('th'), rapp('tg'), rapp('rg')]
    c, f = t.ex.find_ctor('BoxQP', 5, args, t.st)
    t.ex.run(f, s, args, t.st)
    for k, vv in (('nx_', n), ('maxiter_', mi)): t.eq('constructed ' + k, t.ival('S.' + k), vv)
    for k, vv in (('th_acceptstep_', rapp('th')), ('th_grad_', rapp('tg')), ('reg_', rapp('rg'))): t.eq('constructed ' + k, t.rval('S.' + k), vv)
    for k in ('x_', 'xnew_', 'g_', 'dx_', 'xo_', 'dxo_', 'qo_', 'solution_.x'):
        t.eqt('constructed ' + k, t.tval('S.' + k), lambda i: ZERO, n)
    t.eqt('constructed Ho_', t.tval('S.Ho_'), lambda i, j: ZERO, n, n)
    na = t.ex.vsize(VRef('S.alphas_', (), 'std::vector<double>'), t.st)
    j = iv(fresh('j'))
    t.holds('constructed step lengths', ile(ic(1), na))
    t.eq('first step length', t.rval('S.alphas_[*]', ic(0)), ONE)
    return ts


TASKS = {'sizes': sizes, 'solve': solve, 'setters': setters}
