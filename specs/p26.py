"""P26: candidates and solver settings."""
from spec import *
from shoot import *

UNITS = ['solver-base', 'ddp', 'fddp', 'intro', 'kkt', 'box-ddp', 'box-fddp', 'box-qp', 'optctrl/shooting', 'action-base', 'state-base']
HARNESS = 'h26'
NOTE = 'Setters and getters of SolverAbstract, DDP, FDDP, Intro, KKT, BoxDDP, BoxFDDP and BoxQP; candidates of any length and element sizes.'


def base(db, cls='SolverAbstract'):
    t = Task(db, '')
    p = problem(t, 'S.problem_')
    s = solver(t, 'S', cls, p)
    state_contracts(t, p.nx, p.ndx)
    return t, p, s


def seqs(t, p, ex, eu):
    """warm-start arguments: arbitrary lengths and element sizes (ex/eu: omitted)"""
    lx, lu = (ic(0) if ex else t.nat('lenx')), (ic(0) if eu else t.nat('lenu'))
    if not ex: t.require(ile(ic(1), lx))
    if not eu: t.require(ile(ic(1), lu))
    NF.NONNEG.update(['dimx', 'dimu'])
    dx, du = (lambda k: iapp('dimx', toint(k))), (lambda k: iapp('dimu', toint(k)))
    xs = traj(t, 'xs', lx, dx); us = traj(t, 'us', lu, du)
    k1, k2 = fresh('k'), fresh('k')
    bx = FALSE if ex else bor(bnot(ieq(lx, iadd(p.T, ic(1)))), bnot(ball(k1, ic(0), iadd(p.T, ic(1)), ieq(dx(iv(k1)), p.nx))))
    bu = FALSE if eu else bor(bnot(ieq(lu, p.T)), bnot(ball(k2, ic(0), p.T, ieq(du(iv(k2)), p.nu(iv(k2))))))
    return xs, us, dx, du, bx, bu


def t_cand(ex, eu):
    def go(db):
        t, p, s = base(db)
        t.fn_ = 'SolverAbstract::setCandidate'
        xs, us, dx, du, bx, bu = seqs(t, p, ex, eu)
        t.ex.shape_checks = False
        t.call(s, 'SolverAbstract', 'setCandidate', [xs, us, bapp('flag')])
        t.throws_iff('candidate', bor(bx, bu))
        k, i = iv('k'), iv('i')
        so = ite
        z = lambda k: rapp('zero', oapp(p.M + '.state_', toint(k)), i)
        fx = [ile(ic(0), k), ilt(k, p.T), ile(ic(0), i), ilt(i, p.nx)]
        x = t.tval('S.xs_[*]', k)
        t.eq('state of node k', x.at(i), z(k) if ex else rapp('xs[*]', k, i), extra=fx)
        fT = [ile(ic(0), i), ilt(i, p.nx)]
        t.eq('terminal state', t.tval('S.xs_[*]', p.T).at(i), rapp('zero', oapp(p.TM + '.state_'), i) if ex else rapp('xs[*]', p.T, i), extra=fT)
        fu = [ile(ic(0), k), ilt(k, p.T), ile(ic(0), i), ilt(i, p.nu(k))]
        t.eq('control of node k', t.tval('S.us_[*]', k).at(i), ZERO if eu else rapp('us[*]', k, i), extra=fu)
        t.eq('feasibility flag', t.cell('S.is_feasible_', typ='bool'), bapp('flag'))
        t.eq('number of states', t.ex.vsize(VRef('S.xs_', (), VV), t.st), iadd(p.T, ic(1)))
        t.eq('number of controls', t.ex.vsize(VRef('S.us_', (), VV), t.st), p.T)
        t.frame(['S.xs_[*]', 'S.us_[*]', 'S.is_feasible_'])
        return t
    return go


def t_setx(db):
    t, p, s = base(db)
    t.fn_ = 'SolverAbstract::set_xs'
    xs, us, dx, du, bx, bu = seqs(t, p, False, True)
    t.ex.shape_checks = False
    t.call(s, 'SolverAbstract', 'set_xs', [xs])
    t.throws_iff('state trajectory', bx)
    k, i = iv('k'), iv('i')
    t.eq('state of node k', t.tval('S.xs_[*]', k).at(i), rapp('xs[*]', k, i), extra=[ile(ic(0), k), ile(k, p.T), ile(ic(0), i), ilt(i, p.nx)])
    t.eq('number of states', t.ex.vsize(VRef('S.xs_', (), VV), t.st), iadd(p.T, ic(1)))
    t.frame(['S.xs_[*]', 'S.xs_', 'S.xs_.#'])
    return t


def t_setu(db):
    t, p, s = base(db)
    t.fn_ = 'SolverAbstract::set_us'
    xs, us, dx, du, bx, bu = seqs(t, p, True, False)
    t.ex.shape_checks = False
    t.call(s, 'SolverAbstract', 'set_us', [us])
    t.throws_iff('control trajectory', bu)
    k, i = iv('k'), iv('i')
    t.eq('control of node k', t.tval('S.us_[*]', k).at(i), rapp('us[*]', k, i), extra=[ile(ic(0), k), ilt(k, p.T), ile(ic(0), i), ilt(i, p.nu(k))])
    t.eq('number of controls', t.ex.vsize(VRef('S.us_', (), VV), t.st), p.T)
    t.frame(['S.us_[*]', 'S.us_', 'S.us_.#'])
    return t


z0 = ZERO
one = num(1)
SET = [  # class, setter, field, rejected when
    ('SolverAbstract', 'set_preg', ('preg_',), lambda v: rlt(v, z0)),
    ('SolverAbstract', 'set_dreg', ('dreg_',), lambda v: rlt(v, z0)),
    ('SolverAbstract', 'set_xreg', ('xreg_', 'preg_'), lambda v: rlt(v, z0)),
    ('SolverAbstract', 'set_ureg', ('ureg_', 'preg_'), lambda v: rlt(v, z0)),
    ('SolverAbstract', 'set_th_acceptstep', ('th_acceptstep_',), lambda v: bor(rle(v, z0), rlt(one, v))),
    ('SolverAbstract', 'set_th_stop', ('th_stop_',), lambda v: rle(v, z0)),
    ('SolverAbstract', 'set_th_gaptol', ('th_gaptol_',), lambda v: rlt(v, z0)),
    ('SolverDDP', 'set_reg_incfactor', ('reg_incfactor_',), lambda v: rle(v, one)),
    ('SolverDDP', 'set_reg_decfactor', ('reg_decfactor_',), lambda v: rle(v, one)),
    ('SolverDDP', 'set_regfactor', ('reg_incfactor_', 'reg_decfactor_'), lambda v: rle(v, one)),
    ('SolverDDP', 'set_reg_min', ('reg_min_',), lambda v: rlt(v, z0)),
    ('SolverDDP', 'set_regmin', ('reg_min_',), lambda v: rlt(v, z0)),
    ('SolverDDP', 'set_reg_max', ('reg_max_',), lambda v: rlt(v, z0)),
    ('SolverDDP', 'set_regmax', ('reg_max_',), lambda v: rlt(v, z0)),
    ('SolverDDP', 'set_th_stepdec', ('th_stepdec_',), lambda v: bor(rle(v, z0), rlt(one, v))),
    ('SolverDDP', 'set_th_stepinc', ('th_stepinc_',), lambda v: bor(rle(v, z0), rlt(one, v))),
    ('SolverDDP', 'set_th_grad', ('th_grad_',), lambda v: rlt(v, z0)),
    ('SolverFDDP', 'set_th_acceptnegstep', ('th_acceptnegstep_',), lambda v: rlt(v, z0)),
    ('SolverIntro', 'set_rho', ('rho_',), lambda v: bor(rle(v, z0), rlt(one, v))),
    ('SolverIntro', 'set_th_feas', ('th_feas_',), lambda v: FALSE),
    ('BoxQP', 'set_th_acceptstep', ('th_acceptstep_',), lambda v: bor(rle(v, z0), rle(num('1/2'), v))),
    ('BoxQP', 'set_th_grad', ('th_grad_',), lambda v: rlt(v, z0)),
    ('BoxQP', 'set_reg', ('reg_',), lambda v: rlt(v, z0)),
]


def t_setters(cls):
    def go(db):
        out = []
        for c, m, fs, bad in SET:
            if c != cls: continue
            t = Task(db, ''); t.fn_ = '%s::%s' % (c, m)
            s = t.obj('S', c)
            v = rapp('v')
            t.call(s, c, m, [v])
            t.throws_iff(m, bad(v))
            # on rejection nothing was written
            t.rejected(lambda k: k.startswith('S.'))
            for f in fs: t.eq('%s: stored %s' % (m, f), t.rval('S.' + f), v)
            t.frame(['S.' + f for f in fs])
            t.facts_ = True
            out.append(freeze(t))
        return out
    return go


class Fz:
    pass


def freeze(t):
    """several small tasks in one process: keep the obligations (they carry their own facts)"""
    z = Fz(); z.fn_ = t.fn_; z.ex = t.ex; z.obls = t.obls; z.activate = t.activate
    return z


GET = [('SolverAbstract', n, f, D) for n, f in (
        ('get_cost', 'cost_'), ('get_merit', 'merit_'), ('get_stop', 'stop_'), ('get_dV', 'dV_'), ('get_dPhi', 'dPhi_'), ('get_dVexp', 'dVexp_'), ('get_dPhiexp', 'dPhiexp_'),
        ('get_dfeas', 'dfeas_'), ('get_feas', 'feas_'), ('get_ffeas', 'ffeas_'), ('get_gfeas', 'gfeas_'), ('get_hfeas', 'hfeas_'), ('get_ffeas_try', 'ffeas_try_'),
        ('get_gfeas_try', 'gfeas_try_'), ('get_hfeas_try', 'hfeas_try_'), ('get_preg', 'preg_'), ('get_dreg', 'dreg_'), ('get_xreg', 'preg_'), ('get_ureg', 'preg_'),
        ('get_steplength', 'steplength_'), ('get_th_acceptstep', 'th_acceptstep_'), ('get_th_stop', 'th_stop_'), ('get_th_gaptol', 'th_gaptol_'))] + \
      [('SolverAbstract', 'get_is_feasible', 'is_feasible_', 'bool'), ('SolverAbstract', 'get_feasnorm', 'feasnorm_', 'size_t'), ('SolverAbstract', 'get_iter', 'iter_', 'size_t')] + \
      [('SolverDDP', n, f, D) for n, f in (('get_reg_incfactor', 'reg_incfactor_'), ('get_reg_decfactor', 'reg_decfactor_'), ('get_regfactor', 'reg_incfactor_'), ('get_reg_min', 'reg_min_'),
        ('get_regmin', 'reg_min_'), ('get_reg_max', 'reg_max_'), ('get_regmax', 'reg_max_'), ('get_th_stepdec', 'th_stepdec_'), ('get_th_stepinc', 'th_stepinc_'), ('get_th_grad', 'th_grad_'))] + \
      [('SolverFDDP', 'get_th_acceptnegstep', 'th_acceptnegstep_', D)] + \
      [('SolverIntro', n, f, D) for n, f in (('get_th_feas', 'th_feas_'), ('get_rho', 'rho_'), ('get_upsilon', 'upsilon_'))] + \
      [('SolverIntro', 'get_zero_upsilon', 'zero_upsilon_', 'bool'), ('SolverIntro', 'get_equality_solver', 'eq_solver_', 'size_t')] + \
      [('BoxQP', n, f, D) for n, f in (('get_th_acceptstep', 'th_acceptstep_'), ('get_th_grad', 'th_grad_'), ('get_reg', 'reg_'))] + \
      [('BoxQP', 'get_maxiter', 'maxiter_', 'size_t'), ('BoxQP', 'get_nx', 'nx_', 'size_t')] + \
      [('SolverKKT', 'get_nx', 'nx_', 'size_t'), ('SolverKKT', 'get_ndx', 'ndx_', 'size_t'), ('SolverKKT', 'get_nu', 'nu_', 'size_t')]

VGET = [('SolverAbstract', 'get_xs', 'xs_'), ('SolverAbstract', 'get_us', 'us_'), ('SolverAbstract', 'get_fs', 'fs_'), ('SolverAbstract', 'getCallbacks', 'callbacks_'),
        ('SolverDDP', 'get_alphas', 'alphas_')] + [('SolverDDP', 'get_' + f, f + '_') for f in ('Vxx', 'Vx', 'Qxx', 'Qxu', 'Quu', 'Qx', 'Qu', 'K', 'k')] + \
       [('SolverKKT', 'get_dxs', 'dxs_'), ('SolverKKT', 'get_dus', 'dus_'), ('SolverKKT', 'get_lambdas', 'lambdas_'), ('SolverBoxDDP', 'get_Quu_inv', 'Quu_inv_'), ('SolverBoxFDDP', 'get_Quu_inv', 'Quu_inv_'),
        ('BoxQP', 'get_alphas', 'alphas_')] + [('SolverIntro', 'get_' + f, f + '_') for f in ('Hu_rank', 'YZ', 'Qzz', 'Qxz', 'Quz', 'Qz', 'Hy', 'kz', 'Kz', 'ks', 'Ks')]


def t_getters(db):
    out = []
    for c, m, f, typ in GET:
        t = Task(db, ''); t.fn_ = '%s::%s' % (c, m)
        s = t.obj('S', c)
        r = t.call(s, c, m, [])
        if isinstance(r, SX.LRef): r = t.ex.rval(r, t.st)
        w = {D: rapp, 'bool': bapp, 'size_t': iapp}[typ]('S.' + f)
        t.eq(m, r, w)
        t.frame([])
        out.append(freeze(t))
    for c, m, f in VGET:
        t = Task(db, ''); t.fn_ = '%s::%s' % (c, m)
        s = t.obj('S', c)
        r = t.call(s, c, m, [])
        t.holds(m + ' returns the member', tobool(isinstance(r, VRef) and r.key == 'S.' + f))
        t.frame([])
        out.append(freeze(t))
    return out


def t_alphas(cls):
    def go(db):
        t = Task(db, ''); t.fn_ = cls + '::set_alphas'
        s = t.obj('S', cls)
        n = t.nat('n')
        t.size('al', n)
        al = lambda k: rapp('al[*]', toint(k))
        t.call(s, cls, 'set_alphas', [VRef('al', (), 'std::vector<double>')])
        k = fresh('k')
        bad = bor(ieq(n, ic(0)), bnot(rlt(ZERO, al(ic(0)))), bnot(ball(k, ic(1), n, band(rlt(ZERO, al(iv(k))), rlt(al(iv(k)), al(isub(iv(k), ic(1))))))))
        t.throws_iff('step lengths', bad)
        j = iv('j')
        t.eq('number of step lengths', t.ex.vsize(VRef('S.alphas_', (), 'std::vector<double>'), t.st), n)
        t.eq('stored step length', t.rval('S.alphas_[*]', j), al(j), extra=[ile(ic(0), j), ilt(j, n)])
        t.frame(['S.alphas_[*]', 'S.alphas_', 'S.alphas_.#'])
        return t
    return go


def t_other(db):
    out = []
    for cls, m, f, mk_, typ in (('SolverAbstract', 'set_feasnorm', 'feasnorm_', iapp, 'size_t'), ('SolverIntro', 'set_equality_solver', 'eq_solver_', iapp, 'size_t'),
                                ('SolverIntro', 'set_zero_upsilon', 'zero_upsilon_', bapp, 'bool'), ('BoxQP', 'set_maxiter', 'maxiter_', iapp, 'size_t')):
        t = Task(db, ''); t.fn_ = '%s::%s' % (cls, m)
        s = t.obj('S', cls)
        v = mk_('v')
        t.call(s, cls, m, [v])
        t.throws_iff(m, FALSE)
        t.eq(m, t.cell('S.' + f, typ=typ), v)
        t.frame(['S.' + f])
        out.append(freeze(t))
    t = Task(db, ''); t.fn_ = 'SolverAbstract::setCallbacks'
    s = t.obj('S', 'SolverAbstract')
    n = t.nat('n'); t.size('cb', n)
    t.call(s, 'SolverAbstract', 'setCallbacks', [VRef('cb', (), 'std::vector<std::shared_ptr<CallbackAbstract>>')])
    t.eq('number of callbacks', t.ex.vsize(VRef('S.callbacks_', (), 'x'), t.st), n)
    out.append(freeze(t))
    return out


TASKS = {'setCandidate': t_cand(False, False), 'setCandidate without states': t_cand(True, False), 'setCandidate without controls': t_cand(False, True), 'setCandidate with nothing': t_cand(True, True),
         'set_xs': t_setx, 'set_us': t_setu, 'getters': t_getters, 'other setters': t_other, 'step lengths DDP': t_alphas('SolverDDP'), 'step lengths BoxQP': t_alphas('BoxQP')}
for _c in ('SolverAbstract', 'SolverDDP', 'SolverFDDP', 'SolverIntro', 'BoxQP'): TASKS['settings ' + _c] = t_setters(_c)
