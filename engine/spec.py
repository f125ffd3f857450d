"""Contract DSL: a Task sets up the precondition of one function (objects, dimensions, facts, callee contracts),
executes the extracted body and states the postcondition as named obligations."""
import time, traceback
from term import *
import term as TM
import nf as NF, symex as SX, numev as NV
from symex import enum, Ten, LRef, VRef, MRef, Unsupported, AllThrow, State, kind_of

D = 'double'
VEC = 'Eigen::VectorXd'
MAT = 'Eigen::MatrixXd'


class Obl:
    __slots__ = ('name', 'kind', 'a', 'b', 'facts', 'unfold', 'fn_', 'status', 'info', 'time', 'backend', 'nq', 'soft', 'samples', 'inv')

    def __init__(s, name, kind, a, b, facts, unfold=(), fn_='', soft=False):
        s.name = name; s.kind = kind; s.a = a; s.b = b; s.facts = facts; s.unfold = tuple(unfold); s.fn_ = fn_
        s.status = 'pending'; s.info = None; s.time = 0.0; s.backend = ''; s.nq = 0; s.soft = soft; s.samples = 0; s.inv = False


GLOBALS = [NF.DEFS, NF.SCATS, NF.FILTS, NF.REAL_FACTS, NF.INT_LEMMAS, NF.NONNEG, NV.POS, NV.RANGE, NV.INTR]


class Task:
    LAST = None

    def activate(s):
        """the tables of this task (a later task of the same list replaced them)"""
        if s.snap is None: return
        for g, c in s.snap:
            g.clear()
            (g.extend if isinstance(g, list) else g.update)(c)

    def __init__(s, db, fn_name):
        if Task.LAST is not None: Task.LAST.snap = [(g, g.copy()) for g in GLOBALS]
        Task.LAST = s; s.snap = None
        for g in GLOBALS: g.clear()
        s.db = db
        s.ex = SX.Exec(db)
        s.st = State()
        s.fn_ = fn_name
        s.obls = []
        s.notes = []
        s.n0 = 0

    # ---- precondition
    def nat(s, name, *args):
        NF.NONNEG.add(name)
        return iapp(name, *args)

    def obj(s, path, cls=None, *idx):
        if cls: s.ex.cls[path] = cls
        return oapp(path, *idx)

    def cls(s, **kw):
        pass

    def setcls(s, path, cls): s.ex.cls[path] = cls

    def field_int(s, key, val):
        s.ex.inits[key] = val if callable(val) else (lambda *i: val)

    init = field_int

    def dims(s, path, **kw):
        for k, rc in kw.items():
            if callable(rc): s.ex.dims[path + '.' + k] = rc
            else:
                rc = rc if isinstance(rc, tuple) else (rc, 1)
                s.ex.dims[path + '.' + k] = (lambda rc: lambda *i: rc)(rc)

    def size(s, key, n): s.ex.sizes[key] = n if callable(n) else (lambda *i: n)

    def require(s, *cs):
        for c in cs:
            if c is not TRUE: s.ex.facts.append(c)
        s.ex.decide_cache = {}

    def vec(s, name, n, *idx): return Ten(n, 1, lambda i, j: rapp(name, *(tuple(idx) + (i,))))
    def mat(s, name, r, c, *idx): return Ten(r, c, lambda i, j: rapp(name, *(tuple(idx) + (i, j))))

    def contract(s, cls, method, h):
        s.ex.contracts[(cls, method)] = h

    # ---- execution
    def call(s, obj, cls, name, args, sig=None):
        return s.ex.call_method(obj, cls, name, args, s.st, None, sig)

    def reachable(s): return s.st is not None

    # ---- reading the post state
    def cell(s, key, *idx, typ=None):
        if typ is None:
            c = s.st.cells.get(key) or getattr(s.ex, 'icells', {}).get(key)
            typ = c.typ if c is not None else VEC
        return s.ex.read(s.st, key, idx, typ)

    def tval(s, key, *idx): return s.cell(key, *idx, typ=MAT if key not in s.st.cells else None)
    def rval(s, key, *idx): return s.cell(key, *idx, typ=D if key not in s.st.cells else None)
    def ival(s, key, *idx): return s.cell(key, *idx, typ='size_t' if key not in s.st.cells else None)

    # ---- postconditions
    def facts(s, extra=()):
        pc = [y for x in (s.pc if s.pc is not None else s.st.pc) for y in NF.factor(x)]
        return list(s.ex.facts) + pc + list(extra)

    pc = None          # path condition the next obligations are stated on (default: the paths that return)

    def rejected(s, select):
        """on every path that throws, no selected cell differs from its value at the call"""
        for n, (pc, st) in enumerate(s.ex.throws):
            ok = True
            s.pc = list(pc)
            try:
                for k, c in sorted(st.cells.items()):
                    if not select(k): continue
                    i0 = getattr(s.ex, 'icells', {}).get(k)
                    if i0 is None or c.bid != i0.bid: ok = False; s.holds('rejection %d leaves %s' % (n, k), FALSE); continue
                    for w in c.log:
                        if w.guard is FALSE: continue
                        old, new = i0.at(w.idx), c.at(w.idx)
                        if old is new: continue
                        nm = 'rejection %d leaves %s' % (n, k); ok = False
                        if isinstance(new, T) and isinstance(old, T): s.eq(nm, new, old)
                        elif isinstance(new, Ten) and isinstance(old, Ten): s.eqt(nm, new, old)
                        else: s.holds(nm, FALSE)
                if ok: s.holds('rejection %d writes nothing' % n, TRUE)
            finally: s.pc = None

    def eq(s, name, got, want, extra=(), unfold=(), soft=False):
        if isinstance(want, (int,)) and got.s == 'i': want = ic(want)
        if got.s == 'r' or (isinstance(want, T) and want.s == 'r'):
            s.obls.append(Obl(name, 'zero', toreal(got), toreal(want), s.facts(extra), unfold, s.fn_, soft))
        elif got.s == 'i': s.obls.append(Obl(name, 'bool', ieq(got, toint(want)), None, s.facts(extra), unfold, s.fn_, soft))
        elif got.s == 'b':
            s.obls.append(Obl(name, 'bool', beq(got, tobool(want)), None, s.facts(extra), unfold, s.fn_, soft))
        elif got.s == 'o':
            s.obls.append(Obl(name, 'bool', s.ex.objeq(got, want), None, s.facts(extra), unfold, s.fn_, soft))
        else: raise Unsupported('eq sort')

    def holds(s, name, c, extra=(), unfold=(), soft=False):
        s.obls.append(Obl(name, 'bool', tobool(c), None, s.facts(extra), unfold, s.fn_, soft))

    def eqt(s, name, got, want, rows=None, cols=None, extra=(), unfold=(), soft=False):
        """tensor equality with a Ten or fn(i[,j])"""
        if isinstance(want, Ten):
            rows, cols = want.rows, want.cols
            f = want.at
        else:
            rows, cols = toint(rows), toint(1 if cols is None else cols)
            f = (lambda i, j: want(i, j)) if want.__code__.co_argcount >= 2 else (lambda i, j: want(i))
        if not isinstance(got, Ten): raise Unsupported('tensor expected for ' + name)
        c = band(ieq(got.rows, rows), ieq(got.cols, cols))
        if c is not TRUE: s.obls.append(Obl(name + ' shape', 'bool', c, None, s.facts(extra), unfold, s.fn_, soft))
        i, j = iv(fresh('i')), iv(fresh('j'))
        fx = list(extra) + [ile(ic(0), i), ilt(i, rows)]
        jj = ic(0)
        if not (isc(cols) and icv(cols) == 1):
            jj = j; fx += [ile(ic(0), j), ilt(j, cols)]
        s.obls.append(Obl(name, 'zero', toreal(got.at(i, jj)), toreal(f(i, jj)), s.facts(fx), unfold, s.fn_, soft))

    def sides(s, soft=True, shapes=True):
        """side obligations generated by the executor (Eigen size agreement, index ranges, callee preconditions)"""
        n = 0
        if shapes:
            seen = set()
            for what, c, facts, where in s.ex.shape_obl:
                key = (c, tuple(facts))
                if key in seen: continue
                seen.add(key)
                n += 1
                s.obls.append(Obl('%s @ %s' % (what, where), 'bool', c, None, facts, (), s.fn_, soft))
            s.ex.shape_obl = []
        for nm, c, facts in s.ex.obl:
            s.obls.append(Obl('callee requires: ' + nm if s.ex.inv is None else nm, 'bool', c, None, facts, (), s.fn_))
            s.obls[-1].inv = s.ex.inv is not None
        s.ex.obl = []

    def frame(s, allowed, prefix=None):
        """every pre-existing cell outside `allowed` is unchanged"""
        import fnmatch
        bad = []
        for k, c in sorted(s.st.cells.items()):
            if (k.startswith('L') and '@' in k) or k.startswith('new:'): continue
            if prefix and not any(k.startswith(p) for p in prefix): continue
            if any(k == a or fnmatch.fnmatchcase(k, a) for a in allowed): continue
            ic0 = getattr(s.ex, 'icells', {}).get(k)
            if ic0 is not None and c.bid == ic0.bid and not c.log: continue
            # written: prove each write is a no-op
            for w in c.log:
                try:
                    old = ic0.at(w.idx) if ic0 is not None else None
                    new = c.at(w.idx)
                    if old is None: raise Unsupported('frame base')
                    if isinstance(new, T):
                        if new is old: continue
                        if new.s == 'r': s.eq('frame: %s unchanged' % k, new, old)
                        else: s.eq('frame: %s unchanged' % k, new, old)
                    elif isinstance(new, Ten):
                        s.eqt('frame: %s unchanged' % k, new, old)
                    continue
                except Unsupported:
                    pass
                bad.append(k)
            if not c.log: bad.append(k)
        s.obls.append(Obl('frame: nothing outside %s is written%s' % (sorted(allowed), (' (%s)' % bad) if bad else ''), 'frame', tobool(not bad), None, [], (), s.fn_, bool(bad)))

    def throws_cond(s):
        return bor(*[band(*pc) for pc, _ in s.ex.throws]) if s.ex.throws else FALSE

    def throws_iff(s, name, cond, extra=()):
        """the call throws exactly under cond (cond over the pre state)"""
        th = s.throws_cond()
        facts = list(s.ex.facts) + list(extra)
        s.obls.append(Obl(name + ': rejects only when specified', 'bool', bor(bnot(th), cond), None, facts, (), s.fn_))
        s.obls.append(Obl(name + ': rejects whenever specified', 'bool', bor(bnot(cond), th), None, facts, (), s.fn_))


# ------------------------------------------------------------------ standard dimension tables
def std_action_data(t, P, nx, ndx, nu, nr=None, ng=None, nh=None, idx=0):
    t.dims(P, xnext=(nx, 1), Fx=(ndx, ndx), Fu=(ndx, nu), Lx=(ndx, 1), Lu=(nu, 1), Lxx=(ndx, ndx), Lxu=(ndx, nu), Luu=(nu, nu))
    if nr is not None: t.dims(P, r=(nr, 1))
    if ng is not None: t.dims(P, g=(ng, 1), Gx=(ng, ndx), Gu=(ng, nu))
    if nh is not None: t.dims(P, h=(nh, 1), Hx=(nh, ndx), Hu=(nh, nu))


def std_diff_data(t, P, nv, ndx, nu, nr=None, ng=None, nh=None):
    t.dims(P, xout=(nv, 1), Fx=(nv, ndx), Fu=(nv, nu), Lx=(ndx, 1), Lu=(nu, 1), Lxx=(ndx, ndx), Lxu=(ndx, nu), Luu=(nu, nu))
    if nr is not None: t.dims(P, r=(nr, 1))
    if ng is not None: t.dims(P, g=(ng, 1), Gx=(ng, ndx), Gu=(ng, nu))
    if nh is not None: t.dims(P, h=(nh, 1), Hx=(nh, ndx), Hu=(nh, nu))


def dotsum(n, f):
    k = fresh('k')
    return rsum(k, ic(0), n, f(iv(k)))


def deriv(e, v):
    """derivative of a closed-form specification term with respect to the real atom v (no index-dependent atoms other than v)"""
    if e is v: return ONE
    o = e.op
    if o in ('num', 'i2r', 'rapp'): return ZERO
    if o == 'add': return add(*[deriv(x, v) for x in e.a])
    if o == 'mul': return add(*[mul(*(e.a[:k] + (deriv(e.a[k], v),) + e.a[k + 1:])) for k in range(len(e.a))])
    if o == 'pow': return mul(num(e.a[1]), rpow(e.a[0], e.a[1] - 1), deriv(e.a[0], v))
    if o == 'ite': return ite(e.a[0], deriv(e.a[1], v), deriv(e.a[2], v))
    if o == 'sum': return rsum(e.a[0], e.a[1], e.a[2], deriv(e.a[3], v))
    if o == 'fn':
        x = e.a[1]
        dx = deriv(x, v)
        if dx is ZERO and len(e.a) == 2: return ZERO
        g = {'sin': lambda: fn('cos', x), 'cos': lambda: mul(num(-1), fn('sin', x)), 'exp': lambda: e, 'log': lambda: inv(x),
             'sqrt': lambda: mul(num('1/2'), inv(e)), 'tanh': lambda: sub(ONE, rpow(e, 2))}[e.a[0]]()
        return mul(g, dx)
    raise Unsupported('derivative of ' + o)
