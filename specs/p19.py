"""P19: solve loops and regularisation updates."""
import time
from spec import *
from shoot import *
import loops as LP

UNITS = ['ddp', 'fddp', 'intro', 'kkt', 'solver-base', 'optctrl/shooting', 'action-base', 'state-base']
HARNESS = 'h19'
NOTE = 'The solve loops of DDP, FDDP, Intro and KKT by inductive invariant (any number of iterations, any sequence of failed, rejected and accepted passes); Box solvers inherit these loops.'
ASSUME = ['callbacks do not modify the solver', 'a direction computation that fails does so after the derivatives were evaluated (model derivatives themselves do not throw) in DDP, FDDP and Intro',
          'regularisation settings: 0 <= reg_min <= reg_max, factors > 1']

G = ['dV', 'tcost', 'ccost', 'alpha', 'stop', 'd0', 'd1', 'fpreg', 'chf', 'thf']


GB = ['tok', 'fresh', 'dstale', 'ustale', 'sstale', 'failed', 'dirfeas']


class Inv:
    """candidate clauses for the loops of a solve function; the inductive ones are kept by the engine"""
    def __init__(s, t, extra): s.t = t; s.extra = extra

    def cands(s, ex, st, written):
        out = []
        bools = [k for k, typ in written.items() if kind_of(typ)[0] == 'b']
        w = set(bools)
        bools += [k for k in ['G.' + g for g in GB] + ['S.is_feasible_', 'S.was_feasible_'] if k not in w]
        rd = lambda k: (lambda S: ex.read(S, k, (), 'bool'))
        for k in bools:
            if k in w: out.append((k, rd(k)))
            if k in w: out.append(('!' + k, lambda S, k=k: bnot(ex.read(S, k, (), 'bool'))))
            for j in bools:
                if j <= k or not (k in w or j in w): continue
                for sa in (0, 1):
                    for sb in (0, 1):
                        f = lambda S, k=k, j=j, sa=sa, sb=sb: bor(*[bnot(b) if q else b for q, b in ((sa, ex.read(S, k, (), 'bool')), (sb, ex.read(S, j, (), 'bool')))])
                        out.append(('%s%s | %s%s' % ('!' * sa, k, '!' * sb, j), f))
        for k, typ in written.items():
            if typ == 'iterator':
                def f(S, k=k):
                    v = ex.read(S, k, (), 'iterator')
                    if not isinstance(v, SX.Iter) or v.pos is None: return TRUE
                    return band(ile(ic(0), v.pos), ile(v.pos, ex.vsize(v.cont, S)))
                out.append((k + ' in range', f))
        return out + s.extra(written)


def build(cls):
    def go(db):
        t = Task(db, '')
        p = problem(t, 'S.problem_')
        s = solver(t, 'S', cls, p)
        t.fn_ = cls + '::solve'
        ex = t.ex
        ex.shape_checks = False
        t.dims('S', d_=(2, 1))
        na = t.nat('na'); t.size('S.alphas_', na)
        R = lambda k: (lambda st: ex.read(st, k, (), D))
        B = lambda k: (lambda st: ex.read(st, k, (), 'bool'))
        I = lambda k: (lambda st: ex.read(st, k, (), 'size_t'))
        for g in GB: t.init('G.' + g, {'dstale': TRUE, 'ustale': TRUE, 'sstale': TRUE}.get(g, FALSE))
        for g in ('ndir', 'acc'): t.init('G.' + g, ic(0))
        W = lambda st, k, typ, v: ex.write(st, k, (), typ, v)
        setb = lambda st, k, v: W(st, 'G.' + k, 'bool', v)
        setr = lambda st, k, v: W(st, k, D, v)
        inc, rmin, rmax = rapp('S.reg_incfactor_'), rapp('S.reg_min_'), rapp('S.reg_max_')
        t.require(rlt(num(1), inc), rlt(num(1), rapp('S.reg_decfactor_')), rle(ZERO, rmin), rle(rmin, rmax), rlt(ZERO, rapp('DBL_EPS')))
        for k in ('na',): NF.NONNEG.add(k)
        fddp = cls in ('SolverFDDP', 'SolverIntro')
        intro = cls == 'SolverIntro'
        maxiter = t.nat('maxiter')

        def throw(st, c, q):
            """the call throws when c holds, leaving state q"""
            q.pc = st.pc + (c,)
            ex.throws.append((q.pc, q))
            st.pc = st.pc + (bnot(c),)

        def cdir(ex, st, obj, args, node):
            rec = tobool(ex.rval(args[0], st))
            preg = R('S.preg_')(st)
            fp = R('G.fpreg')(st)
            ex.oblig(st, 'a failed direction is retried only with a grown regularisation below the maximum',
                     bor(bnot(B('G.failed')(st)), band(rlt(ZERO, preg), rle(mul(inc, fp), preg), rlt(preg, rmax))))
            ex.oblig(st, 'regularisation within its range', bor(bnot(inr), band(rle(rmin, preg), rle(preg, rmax))))
            n = nid()
            c1 = rapp('C%d' % n); h1 = rapp('HF%d' % n)
            setr(st, 'S.cost_', ite(rec, c1, R('S.cost_')(st))); setr(st, 'G.ccost', ite(rec, c1, R('G.ccost')(st)))
            for k in ('S.hfeas_', 'G.chf'): setr(st, k, ite(rec, h1, R(k)(st)))
            setb(st, 'fresh', bor(rec, B('G.fresh')(st)))
            q = st.copy()
            if cls == 'SolverKKT': setb(q, 'fresh', FALSE)
            setb(q, 'failed', TRUE); setr(q, 'G.fpreg', preg)
            throw(st, bapp('dirfail%d' % n), q)
            ex.oblig(st, 'the direction uses derivatives of the current candidate', B('G.fresh')(st))
            setb(st, 'failed', FALSE); setb(st, 'dstale', TRUE); setb(st, 'ustale', TRUE); setb(st, 'sstale', TRUE); setb(st, 'tok', FALSE)
            setb(st, 'dirfeas', B('S.is_feasible_')(st))
            W(st, 'G.ndir', 'size_t', iadd(I('G.ndir')(st), ic(1)))
            ex.oblig(st, 'no more iterations than requested', ile(I('G.ndir')(st), maxiter))
        t.contract(cls, 'computeDirection', cdir)

        def updei(ex, st, obj, args, node): setb(st, 'ustale', FALSE); setb(st, 'dstale', TRUE)
        t.contract(cls, 'updateExpectedImprovement', updei)

        def ei(ex, st, obj, args, node):
            n = nid()
            ex.write(st, 'S.d_', (), 'Eigen::Vector2d', Ten(ic(2), ic(1), lambda i, j: rapp('d%d' % n, i)))
            setr(st, 'G.d0', rapp('d%d' % n, ic(0))); setr(st, 'G.d1', rapp('d%d' % n, ic(1)))
            setb(st, 'dstale', B('G.ustale')(st) if fddp else FALSE)
            return LRef('S.d_', (), 'Eigen::Vector2d')
        t.contract(cls, 'expectedImprovement', ei)

        def stop(ex, st, obj, args, node):
            n = nid()
            if intro: ex.oblig(st, 'the stopping measure takes the feasibility of the candidate', beqr(R('S.hfeas_')(st), R('G.chf')(st)))
            v = rapp('stop%d' % n)
            setr(st, 'S.stop_', v); setr(st, 'G.stop', v); setb(st, 'sstale', FALSE)
            return v
        t.contract(cls, 'stoppingCriteria', stop)

        def fwd(ex, st, obj, args, node):
            a = ex.rval(args[0], st)
            n = nid()
            c = rapp('TC%d' % n)
            setb(st, 'tok', FALSE)
            if fddp: setb(st, 'dstale', TRUE)
            q = st.copy()
            setr(q, 'S.cost_try_', rapp('TX%d' % n))
            throw(st, bapp('fwdfail%d' % n), q)
            setr(st, 'S.cost_try_', c); setr(st, 'G.tcost', c); setr(st, 'G.alpha', a)
            setb(st, 'tok', TRUE)
            return c
        if cls == 'SolverKKT':
            def kts(ex, st, obj, args, node):
                fwd(ex, st, obj, args, node)
                return sub(R('S.cost_')(st), R('S.cost_try_')(st))
            t.contract(cls, 'tryStep', kts)
        else: t.contract(cls, 'forwardPass', fwd)

        def eqf(ex, st, obj, args, node):
            v = rapp('TH%d' % nid())
            setr(st, 'G.thf', v)
            return v
        t.contract(cls, 'computeEqualityFeasibility', eqf)

        def setc(ex, st, obj, args, node):
            fl = tobool(ex.rval(args[2], st))
            k0 = [getattr(a, 'key', None) for a in args[:2]]
            if 'S.xs_try_' in k0 or 'S.us_try_' in k0:
                ex.oblig(st, 'a trial candidate takes states and controls of the same trial', tobool(k0 == ['S.xs_try_', 'S.us_try_']))
                ex.oblig(st, 'the trial was rolled out completely', B('G.tok')(st))
                ex.oblig(st, 'the expected improvement belongs to the current direction%s' % (' and trial' if fddp else ''), bnot(B('G.dstale')(st)))
                ex.oblig(st, 'the current cost is the cost of the candidate', beqr(R('S.cost_')(st), R('G.ccost')(st)))
                a, d0, d1 = R('G.alpha')(st), R('G.d0')(st), R('G.d1')(st)
                dV = sub(R('G.ccost')(st), R('G.tcost')(st))
                dex = mul(a, add(d0, mul(num('1/2'), a, d1)))
                th, thn = rapp('S.th_acceptstep_'), rapp('S.th_acceptnegstep_')
                feas = B('S.is_feasible_')(st)
                flat = rlt(absr(d0), rapp('S.th_grad_'))
                full = bor(feas, beqr(a, num(1)))
                if cls == 'SolverDDP':
                    ok = band(rle(ZERO, dex), bor(flat, bnot(feas), rlt(mul(th, dex), dV))); want = TRUE
                elif cls == 'SolverKKT':
                    ok = bor(rlt(d0, rapp('S.th_grad_')), bnot(feas), rlt(mul(th, dex), dV)); want = TRUE
                elif cls == 'SolverFDDP':
                    ok = bor(band(rle(ZERO, dex), bor(flat, rlt(mul(th, dex), dV))), band(rlt(dex, ZERO), bnot(feas), rlt(mul(thn, dex), dV))); want = full
                else:
                    ups = R('S.upsilon_')(st)
                    df = sub(R('G.chf')(st), R('G.thf')(st))
                    phi = add(dV, mul(ups, df)); pex = add(dex, mul(a, ups, df))
                    ex.oblig(st, 'the current feasibility is the one of the candidate', beqr(R('S.hfeas_')(st), R('G.chf')(st)))
                    ok = bor(band(rle(ZERO, pex), bor(flat, rlt(mul(th, pex), phi))), band(rlt(pex, ZERO), rlt(mul(thn, dex), dV))); want = full
                ex.oblig(st, 'only a trial that passes the acceptance test replaces the candidate', ok)
                ex.oblig(st, 'feasibility flag of the accepted candidate', beq(fl, want))
                setr(st, 'G.ccost', R('G.tcost')(st))
                setr(st, 'G.chf', R('G.thf')(st))
                W(st, 'G.acc', 'size_t', iadd(I('G.acc')(st), ic(1)))
                setb(st, 'tok', FALSE)
            setb(st, 'fresh', FALSE)
            W(st, 'S.is_feasible_', 'bool', fl)
        t.contract(cls, 'setCandidate', setc)
        t.contract(cls, 'resizeData', lambda *a: None)
        t.contract('CallbackAbstract', 'operator()', lambda *a: None)
        t.setcls('S.callbacks_[*]', 'CallbackAbstract')

        ireg = rapp('init_reg')
        P0 = rapp('S.preg_')
        inr = band(rle(rmin, ireg), rle(ireg, rmax))
        if cls == 'SolverKKT': inr = FALSE   # no initial regularisation argument; it plays no role in the KKT matrix

        def extra(written):
            out = []
            if 'S.preg_' in written:
                out += [('preg below max', lambda S: rle(R('S.preg_')(S), rmax)), ('preg nonneg', lambda S: rle(ZERO, R('S.preg_')(S))),
                        ('preg in range', lambda S: bor(bnot(inr), band(rle(rmin, R('S.preg_')(S)), rle(R('S.preg_')(S), rmax)))),
                        ('grown after failure', lambda S: bor(bnot(B('G.failed')(S)), band(rlt(ZERO, R('S.preg_')(S)), rle(mul(inc, R('G.fpreg')(S)), R('S.preg_')(S)), rlt(R('S.preg_')(S), rmax))))]
            out += [('cost', lambda S: bor(bnot(B('G.fresh')(S)), beqr(R('S.cost_')(S), R('G.ccost')(S)))), ('cost always', lambda S: beqr(R('S.cost_')(S), R('G.ccost')(S))),
                    ('hfeas', lambda S: bor(bnot(B('G.fresh')(S)), beqr(R('S.hfeas_')(S), R('G.chf')(S)))), ('hfeas always', lambda S: beqr(R('S.hfeas_')(S), R('G.chf')(S))),
                    ('steplength', lambda S: bor(bnot(B('G.tok')(S)), beqr(R('S.steplength_')(S), R('G.alpha')(S))))]
            out += [('d', lambda S: bor(B('G.dstale')(S), band(beqr(ex.read(S, 'S.d_', (), 'Eigen::Vector2d').at(ic(0)), R('G.d0')(S)), beqr(ex.read(S, 'S.d_', (), 'Eigen::Vector2d').at(ic(1)), R('G.d1')(S)))))]
            out += [('stop', lambda S: bor(B('G.sstale')(S), beqr(R('S.stop_')(S), R('G.stop')(S))))]
            ints = [k for k, typ in written.items() if kind_of(typ)[0] == 'i'] + ['G.ndir', 'G.acc', 'S.iter_']
            ints = list(dict.fromkeys(ints))
            rd = lambda S, k: maxiter if k == 'max' else ex.read(S, k, (), 'size_t')
            for a in ints:
                out.append(('0 <= ' + a, lambda S, a=a: ile(ic(0), rd(S, a))))
                for b in ints + ['max']:
                    if a == b: continue
                    for c in (0, 1):
                        out.append(('%s <= %s + %d' % (a, b, c), lambda S, a=a, b=b, c=c: ile(rd(S, a), iadd(rd(S, b), ic(c)))))
            return out
        ex.inv = Inv(t, extra)

        def ret(f, o):
            if f['name'] != 'solve': return
            st = o.st
            v = tobool(ex.rval(o.val, st))
            n = bnot(v)
            ex.oblig(st, 'success only with the stopping measure of the last direction below the tolerance', bor(n, band(bnot(B('G.sstale')(st)), rlt(R('G.stop')(st), rapp('S.th_stop_')))))
            ex.oblig(st, 'success only at a feasible candidate', bor(n, B('S.is_feasible_')(st)))
            if not intro: ex.oblig(st, 'success only when the direction was computed at a feasible candidate', bor(n, B('G.dirfeas')(st)))
            ex.oblig(st, 'no more accepted candidates than iterations', ile(I('G.acc')(st), maxiter))
            ex.oblig(st, 'iteration counter within the limit', ile(I('S.iter_')(st), maxiter))
            ex.oblig(st, 'regularisation within its range at the end', bor(bnot(inr), band(rle(rmin, R('S.preg_')(st)), rle(R('S.preg_')(st), rmax))))
        ex.ret_hook = ret
        xs = traj(t, 'ixs', t.nat('lenx'), lambda k: p.nx); us = traj(t, 'ius', t.nat('lenu'), lambda k: p.nu(k))
        t.call(s, cls, 'solve', [xs, us, maxiter, bapp('ifeas'), ireg])
        t.sides(shapes=False)
        t.notes = ex.loop_notes
        return t
    return go


def absr(x): return fn('abs', x)
def beqr(a, b): return req(a, b)
def nid(): return SX.nid()


def t_reg(cls):
    def go(db):
        out = []
        for m in ('increaseRegularization', 'decreaseRegularization'):
            t = Task(db, ''); t.fn_ = '%s::%s' % (cls, m)
            s = t.obj('S', cls)
            p0, lo, hi = rapp('S.preg_'), rapp('S.reg_min_'), rapp('S.reg_max_')
            t.require(rlt(num(1), rapp('S.reg_incfactor_')), rlt(num(1), rapp('S.reg_decfactor_')), rle(ZERO, lo), rle(lo, hi), rle(ZERO, p0), rlt(ZERO, rapp('DBL_EPS')))
            t.call(s, cls, m, [])
            q = t.rval('S.preg_')
            t.eq(m + ': the dynamics regularisation follows', t.rval('S.dreg_'), q)
            t.holds(m + ': not below the minimum', bor(rle(lo, q)))
            if m[0] == 'i':
                t.holds(m + ': not above the maximum', rle(q, hi))
                t.holds(m + ': grows by the factor or reaches the maximum', bor(req(q, hi), band(rlt(ZERO, q), rle(mul(rapp('S.reg_incfactor_'), p0), q))))
                t.holds(m + ': exactly the factor inside the range', bor(req(q, mul(rapp('S.reg_incfactor_'), p0)), req(q, hi), rlt(mul(rapp('S.reg_incfactor_'), p0), lo), rlt(mul(rapp('S.reg_incfactor_'), p0), rapp('DBL_EPS'))))
            else:
                t.holds(m + ': not above the maximum', bor(rle(q, hi), rlt(hi, p0)))
                t.holds(m + ': exactly the factor inside the range', bor(req(mul(rapp('S.reg_decfactor_'), q), p0), req(q, lo)))
            t.frame(['S.preg_', 'S.dreg_'])
            z = type('Z', (), {})(); z.fn_ = t.fn_; z.ex = t.ex; z.obls = t.obls; z.activate = t.activate
            out.append(z)
        return out
    return go


TASKS = {}
for _c in ('SolverDDP', 'SolverKKT'): TASKS['regularisation ' + _c] = t_reg(_c)
for _c in ('SolverDDP', 'SolverFDDP', 'SolverIntro', 'SolverKKT'): TASKS['solve ' + _c] = build(_c)
