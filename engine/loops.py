"""Loop summarisation for an arbitrary number of iterations.

A loop is executed once, symbolically, from a state in which every cell it may
write holds the unknown value `pre#(tau, ...)` it has at the start of iteration
tau.  The values after that one iteration give, per cell, either a closed form
(indexed store, sum, max, quantified boolean, last write, scatter) or a
recurrence R(tau, ...) whose defining equation is available to the prover.
Loops that leave early do so at an unknown first iteration exit#(...).
"""
from term import *
import term as TM
import nf as NF
import frontend as FE
import time
import symex as SX
from symex import (Ten, LRef, VRef, MRef, Iter, Pair, Opq, Fact, Unsupported, AllThrow, Cell, Out, State, idx_eq, vite,
                   nid, kind_of)

I0, I1 = ic(0), ic(1)
HIDDEN = {}      # R name -> set of pre# names hidden in its definition


def app(sort, name, args):
    return mk({'r': 'rapp', 'i': 'iapp', 'b': 'bapp', 'o': 'oapp'}[sort], (name, tuple(args)), sort)


def simple_guard(n):
    if n.k in ('DeclRefExpr', 'IntegerLiteral', 'CXXBoolLiteralExpr'): return True
    if n.k == 'BinaryOperator' and n.op not in ('=', ',') or n.k == 'UnaryOperator' and n.op in ('!', '-'): return all(simple_guard(c) for c in n.c)
    return False


def guard_first(cond, body):
    """while (c) { if (g) break; rest }  is  while (c && !g) { rest }"""
    while cond is not None and body is not None and body.k == 'CompoundStmt' and body.c and body.c[0] is not None and body.c[0].k == 'IfStmt' and not any(body.c[0].x):
        g, th = body.c[0].c[0], body.c[0].c[1]
        if th is not None and th.k == 'CompoundStmt' and len(th.c) == 1: th = th.c[0]
        if th is None or th.k != 'BreakStmt' or not simple_guard(g): break
        cond = FE.N('BinaryOperator', 'bool', '', '&&', (cond, FE.N('UnaryOperator', 'bool', '', '!', (g,), None, g.x, g.line)), None, None, cond.line)
        body = FE.N('CompoundStmt', body.t, body.name, body.op, body.c[1:], body.ref, body.x, body.line)
    return cond, body


def for_loop(ex, n, st):
    init, cv, cond, inc, body = (list(n.c) + [None] * 5)[:5]
    cond, body = guard_first(cond, body)
    return loop(ex, st, [init] if init is not None else [], cond, inc, [body], n)


def while_loop(ex, n, st):
    cond, body = guard_first(n.c[-2], n.c[-1])
    return loop(ex, st, [], cond, None, [body], n)


def range_for(ex, n, st):
    cs = [c for c in n.c if c is not None]
    # [init], range decl, begin decl, end decl, cond, inc, var decl, body
    decls = [c for c in cs if c.k == 'DeclStmt']
    body = cs[-1]
    var = decls[-1]
    pre = decls[:-1]
    rest = [c for c in cs if c.k != 'DeclStmt'][:-1] if cs[-1].k != 'DeclStmt' else []
    cond, inc = rest[0], rest[1]
    return loop(ex, st, pre, cond, inc, [var, body], n)


# ------------------------------------------------------------------ helpers
def trip(c, tau):
    """number of iterations from the loop condition (a term over the iteration counter)"""
    t = iv(tau)
    if tau not in c.fv: return None
    if c.op == 'ile':
        k = NF.lin_coef(c.a[0], tau)
        if k is None: return None
        rest = isub(c.a[0], iscale(t, k))
        if k == 1: return iadd(iscale(rest, -1), I1)
        return None
    if c.op == 'not' and c.a[0].op == 'ieq':
        d = c.a[0].a[0]
        k = NF.lin_coef(d, tau)
        if k is None: return None
        rest = isub(d, iscale(t, k))
        if k == 1: return iscale(rest, -1)
        if k == -1: return rest
        return None
    return None


class Comp:
    """component access of a cell value"""
    def __init__(s, kind, sort, nin):
        s.kind = kind; s.sort = sort; s.nin = nin


def comp_of(v):
    if isinstance(v, T): return Comp('T', v.s, 0)
    if isinstance(v, Ten): return Comp('ten', v.s, 1 if v.isvec() else 2)
    return None


def comp_get(v, inner):
    if isinstance(v, T): return v
    if len(inner) == 1: return v.at(inner[0], I0)
    return v.at(*inner)


def strip_add(t, P):
    """t = P + delta  ->  delta (None when not of that form)"""
    pn = P.a[0]
    if t is P: return ZERO if P.s == 'r' else I0
    if pn not in t.names: return None
    if t.op == 'add':
        hit = None
        for x in t.a:
            if pn in x.names:
                if hit is not None: return None
                hit = x
        d = strip_add(hit, P)
        if d is None: return None
        rest = list(t.a); rest.remove(hit)
        for x in list(rest):
            y = mul(num(-1), x)
            if x in rest and y in rest: rest.remove(x); rest.remove(y)
        return add(d, *rest) if rest else d
    if t.op == 'lin':
        hit = [(x, k) for x, k in t.a[1] if pn in x.names]
        if len(hit) != 1 or hit[0][1] != 1: return None
        d = strip_add(hit[0][0], P)
        if d is None: return None
        return iadd(isub(t, hit[0][0]), d)
    if t.op in ('ite', 'iite'):
        if pn in t.a[0].names: return None
        a = strip_add(t.a[1], P)
        if a is None:
            P2 = pinned(t.a[0], P)
            if P2 is not P: a = strip_add(t.a[1], P2)
        b = strip_add(t.a[2], P)
        if a is None or b is None: return None
        return ite(t.a[0], a, b)
    return None


def pinned(c, P):
    """P with the index variables that the condition c fixes replaced by their values"""
    mp = {}
    for x in (c.a if c.op == 'and' else (c,)):
        if x.op != 'ieq': continue
        for v in sorted(x.a[0].fv):
            if v.startswith('a!') and v not in mp:
                k = NF.lin_coef(x.a[0], v)
                if k in (1, -1):
                    mp[v] = iscale(isub(x.a[0], iscale(iv(v), k)), -k)
                    break
    return subst(P, mp) if mp else P


def strip_max(t, P):
    """t = max(P, m) -> m"""
    pn = P.a[0]
    if t.op == 'fn' and t.a[0] == 'max':
        x, y = t.a[1], t.a[2]
        if x is P and pn not in y.names: return y
        if y is P and pn not in x.names: return x
        for p, q in ((x, y), (y, x)):
            if pn in p.names and pn not in q.names:
                m = strip_max(p, P)
                if m is not None: return fn('max', m, q)
        return None
    if t.op == 'ite':
        c, a, b = t.a
        if c.op in ('rlt', 'rle'):
            x, y = c.a
            # P < m ? m : P
            if x is P and a is y and b is P: return y
            if y is P and a is P and b is x: return x
        if pn not in c.names:
            A = ZERO if a is P else strip_max(a, P)
            B = ZERO if b is P else strip_max(b, P)
            if A is not None and B is not None: return ite(c, A, B)
    return None


def prune_ite(t, tr=EMPTY, fa=EMPTY, memo=None):
    """remove conditionals decided by an enclosing identical condition"""
    if memo is None: memo = {}
    if t.op in ('iv', 'num', 'lin') or not children(t): return t
    key = (t, tr, fa)
    r = memo.get(key)
    if r is not None: return r
    if t.op in ('ite', 'iite'):
        c, a, b = t.a
        cs = set(c.a) if c.op == 'and' else {c}
        if c in tr or cs <= tr: r = prune_ite(a, tr, fa, memo)
        elif c in fa or cs & fa: r = prune_ite(b, tr, fa, memo)
        else:
            nc = bnot(c)
            a2 = prune_ite(a, tr | cs | {c}, fa | {nc}, memo)
            b2 = prune_ite(b, tr | {nc}, fa | {c}, memo)
            r = ite(c, a2, b2)
    elif t.op in ('add', 'mul', 'fn', 'pow') and (tr or fa or any(x.op == 'ite' for x in walk(t))):
        r = rebuild(t, lambda x: prune_ite(x, tr, fa, memo))
    else:
        r = t
    memo[key] = r
    return r


def flatten(t, P):
    """t = ite(cond, v, P)"""
    if t is P: return FALSE, None
    if t.op in ('ite', 'iite') and P.a[0] in t.names:
        c, a, b = t.a
        c1, v1 = flatten(a, P); c2, v2 = flatten(b, P)
        cond = bor(band(c, c1), band(bnot(c), c2))
        if v1 is None: return cond, v2
        if v2 is None: return cond, v1
        return cond, ite(c, v1, v2)
    if t.s == 'b' and P.a[0] in t.names: return TRUE, t
    return TRUE, t


def branches(t, P):
    """t as a list of (condition, value), P when none applies (None: not of that form)"""
    if t is P: return []
    if t.op == 'ite' and P.a[0] in t.names:
        c, a, b = t.a
        x, y = branches(a, P), branches(b, P)
        if x is None or y is None: return None
        return [(band(c, d), v) for d, v in x] + [(band(bnot(c), d), v) for d, v in y]
    return None if P.a[0] in t.names else [(TRUE, t)]


def pin(cond, tau):
    """an equality conjunct that determines tau"""
    cs = cond.a if cond.op == 'and' else (cond,)
    for c in cs:
        if c.op == 'ieq' and tau in c.fv:
            k = NF.lin_coef(c.a[0], tau)
            if k in (1, -1):
                return iscale(isub(c.a[0], iscale(iv(tau), k)), -k)
    les = {c.a[0] for c in cs if c.op == 'ile' and tau in c.fv}
    for x in les:
        if iscale(x, -1) in les:        # x <= 0 <= x
            k = NF.lin_coef(x, tau)
            if k in (1, -1): return iscale(isub(x, iscale(iv(tau), k)), -k)
    return None


def invert(idx, tau):
    """-> function q -> (t, conds) or None"""
    deps = [j for j, x in enumerate(idx) if tau in x.fv]
    for j in deps:
        x = idx[j]
        if x.s == 'i':
            k = NF.lin_coef(x, tau)
            if k in (1, -1):
                rest = isub(x, iscale(iv(tau), k))

                def f(q, j=j, k=k, rest=rest):
                    t = iscale(isub(q[j], rest), k)
                    cs = [idx_eq((subst(idx[c], {tau: t}),), (q[c],)) for c in range(len(idx)) if c != j]
                    return t, band(*cs)
                return f
        if x.s == 'o' and x.op == 'oapp':
            sub_ = invert(x.a[1], tau)
            if sub_ is not None:
                def f(q, j=j, x=x, sub_=sub_):
                    y = q[j]
                    if y.op != 'oapp' or y.a[0] != x.a[0] or len(y.a[1]) != len(x.a[1]):
                        raise Unsupported('lookup of an unrelated key after a keyed loop')
                    t, c = sub_(y.a[1])
                    cs = [idx_eq((subst(idx[i], {tau: t}),), (q[i],)) for i in range(len(idx)) if i != j]
                    return t, band(c, *cs)
                return f
    return None


# ------------------------------------------------------------------ main
def loop(ex, st0, inits, cond, inc, bodies, node):
    ex.locals_stack.append([])
    env0 = dict(st0.env)
    keys0 = set(st0.cells)
    try:
        st = st0
        for i in inits:
            for o in ex.block(i, st):
                if o.kind != 'normal': raise Unsupported('loop init')
                st = o.st
        sel = ex.inv is not None and (getattr(ex.inv, 'select', None) is None or ex.inv.select(node))
        if sel:
            d = getattr(ex, 'invdepth', 0)
            try: outs = inv_main(ex, st, cond, inc, bodies, node)
            finally: ex.invdepth = d
        else:
            outs = unroll(ex, st, cond, inc, bodies) if literal_bound(cond) else None
            if outs is None: outs = loop_main(ex, st, cond, inc, bodies, node)
    finally:
        loc = ex.locals_stack.pop()
    for o in outs:
        if o.kind == 'normal':
            o.st.env = dict(env0)
            for k in loc: o.st.cells.pop(k, None)
    return outs


def leaves(n, nested=False):
    """the loop body can leave the loop early (break, return)"""
    if n is None or n.k == 'LambdaExpr': return False
    if n.k == 'ReturnStmt' or (n.k == 'BreakStmt' and not nested): return True
    inner = nested or n.k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'SwitchStmt')
    return any(leaves(c, inner) for c in n.c if c is not None)


class Quiet:
    def __init__(s, ex): s.ex = ex

    def __enter__(s):
        e = s.ex
        s.sv = (e.throws, e.obl, e.shape_obl, e.readlog)
        e.throws, e.obl, e.shape_obl = [], [], []

    def __exit__(s, *a):
        e = s.ex
        e.throws, e.obl, e.shape_obl, e.readlog = s.sv


def houdini(ex, st, cands):
    """the clauses that hold in state st (each drop is justified by a z3 model or by a failed individual proof)"""
    import z3
    todo = []
    res = set()
    F = NF.Facts(ex.all_facts(st))
    sol = F.solver()
    for nm, f in cands:
        c = tobool(f(st))
        if c is TRUE or c in F.facts: res.add(nm)
        elif any(x.op == 'ball' for x in walk(c)):
            # (from the small facts only: sums and decompositions in path conditions do not bear on an invariant clause)
            small = [f for f in F.facts if sum(1 for _ in zip(range(61), walk(f))) <= 60]
            ok = NF.prove_bool(c, small, (), time.time() + 4)
            if ok[0]: res.add(nm)
        elif c is not FALSE: todo.append((nm, F.zc.b(c)))
    F.flush()
    sol.set('timeout', 1500)
    while todo:
        sol.push()
        sol.add(z3.Or([z3.Not(z) for _, z in todo]))
        k = sol.check()
        m = sol.model() if k == z3.sat else None
        sol.pop()
        if k == z3.unsat:
            res.update(nm for nm, _ in todo); break
        if m is not None:
            left = [(nm, z) for nm, z in todo if not z3.is_false(m.eval(z, model_completion=True))]
            if len(left) < len(todo):
                todo = left; continue
        # undecided together: one by one
        for nm, z in todo:
            sol.push(); sol.add(z3.Not(z)); k = sol.check(); sol.pop()
            if k == z3.unsat: res.add(nm)
        break
    return [(nm, f) for nm, f in cands if nm in res]


def flagcond(n):
    """the loop condition reads a boolean variable"""
    if n is None: return False
    if n.k in ('DeclRefExpr', 'MemberExpr') and n.t.replace('const ', '').strip() in ('bool', '_Bool'): return True
    return any(flagcond(c) for c in n.c)


def literal_bound(n):
    """the condition compares a variable with a literal"""
    if n is None or n.k != 'BinaryOperator' or n.op not in ('<', '<=', '>', '>=', '!='): return False
    def strip(x):
        while x.k in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'ConstantExpr') and x.c: x = x.c[-1]
        return x
    ks = sorted(strip(x).k for x in n.c[:2])
    return ks == ['DeclRefExpr', 'IntegerLiteral']


def unroll(ex, st0, cond, inc, bodies, limit=4):
    """loops with a small constant number of iterations are executed as they are; None: not such a loop"""
    sv = len(ex.throws), len(ex.obl), len(ex.shape_obl), len(ex.loops), len(ex.loopvars)
    def back():
        for l, n in zip((ex.throws, ex.obl, ex.shape_obl, ex.loops, ex.loopvars), sv): del l[n:]
        return None
    st = st0.copy(); st.env = dict(st0.env)
    exits, env = [], dict(st0.env)
    for k in range(limit + 1):
        c = ex.bool_(ex.ev(cond, st), st)
        if c is FALSE:
            exits.append(Out('break', st))
            break
        if c is not TRUE or k == limit: return back()
        pc, cur, nxt = st.pc, st, []
        for b in bodies:
            if cur is None: break
            normal = None
            for o in ex.block(b, cur):
                if o.kind == 'normal':
                    if normal is not None: return back()
                    normal = o.st
                elif o.kind == 'continue': nxt.append(o.st)
                else: exits.append(o)
            cur = normal
        if cur is not None: nxt.append(cur)
        st = None
        for q in nxt: st = merge_out(ex, st, q, pc)
        if st is None: break
        st.env = dict(env)
        if inc is not None: ex.ev(inc, st)
    norm, outs = None, []
    for o in exits:
        if o.kind == 'break':
            o.st.env = dict(env)
            norm = o.st if norm is None else merge_out(ex, norm, o.st, st0.pc)
        else: outs.append(o)
    if norm is not None: outs.append(Out('normal', norm))
    return outs


def inv_main(ex, st, cond, inc, bodies, node):
    """Invariant mode (state-machine loops): the written cells are forgotten, an inductive invariant is assumed for them, one
    arbitrary iteration is executed and the invariant is re-established. The invariant is the largest inductive subset of the
    candidate clauses ex.inv.cands supplies (each is checked on entry and at every back edge); the obligations met inside
    the body and at its exits are proved from it, for any number of iterations."""
    lid = nid()
    ex.loops.append(('inv', node.line))
    written = {}
    pre_exist = set(st.cells)
    peel = getattr(ex.inv, 'peel', False) and not getattr(ex, 'invdepth', 0)      # exits by the condition are taken at the end of an iteration

    def hv(k, typ, c0, idx):
        v0 = c0.at(idx)
        nm = 'inv#%d:%s' % (lid, k)
        if isinstance(v0, T): return app(v0.s, nm, idx)
        if isinstance(v0, Ten):
            if v0.isvec(): return Ten(v0.rows, v0.cols, lambda i, j: app(v0.s, nm, idx + (i,)), False, v0.s)
            return Ten(v0.rows, v0.cols, lambda i, j: app(v0.s, nm, idx + (i, j)), False, v0.s)
        if isinstance(v0, Iter):
            if v0.pos is None: raise Unsupported('search iterator in a loop')
            return Iter(v0.cont, app('i', nm, idx))
        if isinstance(v0, (Opq, Fact)): return v0
        raise Unsupported('havoc %s' % type(v0).__name__)

    def start(inv):
        S = st.copy()
        S.env = dict(st.env)
        for k, typ in written.items():
            c0 = ex.cell(st, k, typ)
            S.cells[k] = Cell((lambda k, typ, c0: lambda idx: hv(k, typ, c0, idx))(k, typ, c0), typ)
        S.pc = st.pc + tuple(c for c in (f(S) for _, f in inv) if c is not TRUE)
        h = getattr(ex.inv, 'head', None)
        if h is not None: h(node, S)
        return S

    def once(S):
        """-> back edge states, exits"""
        back, exits, outs = [], [], []
        head = S
        pc0 = S.pc
        if cond is not None:
            c = ex.bool_(ex.ev(cond, S), S)
            if c is not TRUE:
                if not peel and flagcond(cond):
                    # back edges are only taken with the condition true: an exit at the head happens before the first iteration
                    c0 = ex.bool_(ex.ev(cond, st), st)
                    if ex.decide(c0, st) is not True:
                        E = st.copy(); E.pc = pc0 + (bnot(c0),)
                        exits.append(Out('break', E))
                elif not peel:
                    E = S.copy(); E.pc = S.pc + (bnot(c),)
                    exits.append(Out('break', E))
                if c is FALSE: return [], exits
                S.pc = S.pc + (c,)
        cur = S
        ex.invdepth = getattr(ex, 'invdepth', 0) + 1
        for b in bodies:
            if cur is None: break
            nxt = None
            for o in ex.block(b, cur):
                if o.kind == 'normal':
                    if nxt is not None: raise Unsupported('multiple normal outcomes')
                    nxt = o.st
                else: outs.append(o)
            cur = nxt
        ex.invdepth -= 1
        for q in [o.st for o in outs if o.kind == 'continue'] + ([cur] if cur is not None else []):
            if inc is not None:
                q.env = dict(head.env)
                ex.ev(inc, q)
            if not peel and cond is not None:
                # the condition is already false at the back edge: the loop ends here
                E = q.copy(); E.env = dict(head.env)
                c = ex.bool_(ex.ev(cond, E), E)
                d = ex.decide(c, E)
                if d is False:
                    exits.append(Out('break', E)); continue
                if d is None and flagcond(cond):
                    E.pc = q.pc + (bnot(c),); exits.append(Out('break', E))
                    q.pc = q.pc + (c,)
            back.append(q)
            if peel and cond is not None:
                # the loop ends after this iteration
                c = ex.bool_(ex.ev(cond, q), q)
                if c is not TRUE:
                    E = q.copy(); E.env = dict(head.env); E.pc = q.pc + (bnot(c),)
                    exits.append(Out('break', E))
        if peel and cond is not None:
            # no iteration at all
            c = ex.bool_(ex.ev(cond, st), st)
            if ex.decide(c, st) is not True:
                E = st.copy(); E.pc = pc0 + (bnot(c),)
                exits.append(Out('break', E))
        return back, exits + [o for o in outs if o.kind != 'continue']

    cands = []
    for rnd in range(30):
        with Quiet(ex):
            S = start(cands)
            before = dict(S.cells)
            back, exits = once(S)
        changed = {}
        for q in back:          # (what only an exit writes is not loop-carried)
            for k, c in q.cells.items():
                if before.get(k) is not c and k not in written:
                    if k.startswith('L') and k not in pre_exist: continue
                    if k.startswith('new:') and k not in pre_exist and not known(ex, k, st): continue
                    changed[k] = c.typ
        if changed:
            written.update(changed)
            with Quiet(ex): cands = houdini(ex, st, ex.inv.cands(ex, st, dict(written)))
            continue
        keep = cands
        with Quiet(ex):
            for q in back: keep = houdini(ex, q, keep)
        if len(keep) == len(cands): break
        cands = keep
    else:
        raise Unsupported('loop invariant does not stabilise')
    ex.loop_notes.append(('line %s' % node.line, [nm for nm, _ in cands]))
    S = start(cands)
    spc = S.pc
    back, exits = once(S)
    norm = None
    outs = []
    for o in exits:
        if o.kind == 'break': norm = merge_out(ex, norm, o.st, spc)
        else: outs.append(o)
    if norm is not None: outs.append(Out('normal', norm))
    return outs


class NotKept(Exception):
    pass


def loop_main(ex, st, cond, inc, bodies, node):
    """cells named in ex.keep are first tried as loop invariants (the value at entry, re-established by an arbitrary iteration)"""
    drop = set()
    while True:
        sv = len(ex.throws), len(ex.obl), len(ex.shape_obl), len(ex.loops), len(ex.loopvars)
        try: return loop_try(ex, st.copy(), cond, inc, bodies, node, drop)
        except NotKept as e:
            drop.add(e.args[0])
            for l, n in zip((ex.throws, ex.obl, ex.shape_obl, ex.loops, ex.loopvars), sv): del l[n:]


def kept_at(v0, v, pc):
    """the value v of a cell at the end of an iteration equals its value v0 at loop entry"""
    try:
        if isinstance(v, T) and isinstance(v0, T) and v.s == 'r':
            return v is v0 or NF.prove_zero(sub(v, v0), list(pc), (), time.time() + 4)[0]
        if isinstance(v, Ten) and isinstance(v0, Ten):
            if not all(a is b for a, b in ((v.rows, v0.rows), (v.cols, v0.cols))): return False
            i, j = iv(fresh('i')), (I0 if v0.isvec() else iv(fresh('j')))
            f = list(pc) + [ile(I0, i), ilt(i, v0.rows)] + ([] if v0.isvec() else [ile(I0, j), ilt(j, v0.cols)])
            a, b = v.at(i, j), v0.at(i, j)
            return a is b or NF.prove_zero(sub(a, b), f, (), time.time() + 4)[0]
    except Unsupported: pass
    return False


def loop_try(ex, st, cond, inc, bodies, node, drop):
    lid = nid()
    tau = 'τ%d' % lid
    tv = iv(tau)
    pre_name = lambda k: 'pre#%d:%s' % (lid, k)
    ex.loopvars.append(tau)
    saved_obls = len(ex.obl), len(ex.shape_obl)
    try:
        havoc = {}          # key -> typ
        closed = {}         # key -> closed form (fn -> value)
        shapes = {}         # key -> loop-carried dimensions (t, idx, base dimensions) -> dimensions
        N = None
        N_alt = []
        facts = (ile(I0, tv),)

        def start(trackbids=None):
            S = st.copy()
            S.pc = st.pc + facts
            S.env = dict(st.env)
            for k, typ in havoc.items():
                if k in closed:
                    v = closed[k]
                    c = Cell((lambda v: lambda idx: v)(v), typ)
                else:
                    c = Cell(hbase(k, typ), typ)
                S.cells[k] = c
                if trackbids is not None: trackbids[k] = c
            return S

        def hbase(k, typ):
            c0 = ex.cell(st, k, typ)
            nm = pre_name(k)
            memo = {}

            def f(idx):
                if idx in memo: return memo[idx]
                v0 = c0.at(idx)
                if isinstance(v0, Ten) and k in shapes:
                    a, b = shapes[k](tv, idx, (v0.rows, v0.cols))
                    v0 = Ten(a, b, v0.at, v0.arr, v0.s)
                if isinstance(v0, T): r = app(v0.s, nm, (tv,) + idx)
                elif isinstance(v0, Ten):
                    if v0.isvec(): r = Ten(v0.rows, v0.cols, lambda i, j: app(v0.s, nm, (tv,) + idx + (i,)), False, v0.s)
                    else: r = Ten(v0.rows, v0.cols, lambda i, j: app(v0.s, nm, (tv,) + idx + (i, j)), False, v0.s)
                elif isinstance(v0, Fact): r = Fact(v0.kind)
                elif isinstance(v0, Iter):
                    if v0.pos is None: raise Unsupported('search iterator in a loop')
                    r = Iter(v0.cont, iapp(nm, tv, *idx))
                elif isinstance(v0, Opq): r = v0
                else: raise Unsupported('havoc %s' % type(v0).__name__)
                memo[idx] = r
                return r
            return f

        def body_run(S, with_cond):
            """-> list of outs, after the increment"""
            outs = []
            exits = []
            S0 = S
            if with_cond and cond is not None:
                c = ex.bool_(ex.ev(cond, S), S)
                if c is not TRUE:
                    E = S.copy(); E.pc = S.pc + (bnot(c),)
                    exits.append(Out('break', E))
                    S.pc = S.pc + (c,)
            cur = S
            for b in bodies:
                if cur is None: break
                nxt = None
                for o in ex.block(b, cur):
                    if o.kind in ('normal',): nxt = merge_out(ex, nxt, o.st, S0.pc)
                    else: outs.append(o)
                cur = nxt
            for o in outs:
                if o.kind == 'continue': cur = merge_out(ex, cur, o.st, S0.pc)
                else: exits.append(o)
            if cur is not None and inc is not None:
                ex.ev(inc, cur)
            return cur, exits

        # ---- discovery of the written cells and of the induction variables
        pre_exist = lambda k: k in st.cells or not (k.startswith('L') and '@' in k)
        for rnd in range(12):
            with Quiet(ex):
                S = start()
                before = dict(S.cells)
                cur, exits = body_run(S, True)
                changed = set()
                for q in ([cur] if cur is not None else []) + [o.st for o in exits]:
                    for k, c in q.cells.items():
                        if before.get(k) is not c and k not in havoc:
                            if k.startswith('L') and k not in st.cells: continue
                            if k.startswith('new:') and k not in st.cells and not known(ex, k, st): 
                                # objects created by the body
                                continue
                            changed.add((k, c.typ))
                if not changed: break
                for k, typ in changed: havoc[k] = typ
        else:
            raise Unsupported('loop: write set does not stabilise')
        kept = {}
        if cur is not None:
            for k, typ in havoc.items():
                if k in ex.keep and k not in drop:
                    c0 = ex.cell(st, k, typ)
                    try: v0 = c0.at(())
                    except Exception: continue
                    if isinstance(v0, (T, Ten)): kept[k] = closed[k] = v0
        if kept:
            # the iteration again, from a state in which the kept cells have their entry values
            with Quiet(ex):
                S = start()
                cur, exits = body_run(S, True)
        if cur is not None:
            for k, typ in havoc.items():
                if k in closed: continue
                v0 = ex.cell(st, k, typ)
                post = cur.cells[k]
                if len(set(w.idx for w in post.log)) > 1: continue
                ix = post.log[0].idx if post.log else ()
                if ix != (): continue
                try:
                    a, b0 = post.at(()), v0.at(())
                except (Unsupported, TypeError, IndexError):      # a container of another arity
                    continue
                if isinstance(a, Iter) and isinstance(b0, Iter) and a.pos is not None and a.cont.key == b0.cont.key:
                    d = isub(a.pos, iapp(pre_name(k), tv))
                    if isc(d): closed[k] = Iter(b0.cont, iadd(b0.pos, iscale(tv, icv(d))))
                elif isinstance(a, T) and a.s == 'i':
                    d = isub(a, iapp(pre_name(k), tv))
                    if isc(d): closed[k] = iadd(b0, iscale(tv, icv(d)))
        # ---- trip count
        if cond is not None:
            with Quiet(ex):
                S = start()
                c = ex.bool_(ex.ev(cond, S), S)
            if c.op == 'or':
                ns = [trip(x, tau) for x in c.a]
                if all(x is not None for x in ns):
                    N = ns[0]
                    N_alt = ns[1:]
            elif c.op == 'and':
                ns = [trip(x, tau) for x in c.a]
                if all(x is not None for x in ns):
                    for m in ns:
                        if all(ex.decide(ile(m, x), st) is True for x in ns): N = m; break
            else:
                N = trip(c, tau)
        for m in N_alt:
            if ex.decide(ieq(m, N), st) is not True:
                ex.shape_obl.append(('parallel iterators have the same length', ieq(m, N), ex.all_facts(st), ex.where(node)))
        if N is not None and any(TM_names_pre(N, lid) for _ in (0,)):
            N = None
        if N is not None:
            d = ex.decide(ile(I0, N), st)
            if d is False: N = I0
            elif d is None: N = iite(ile(I0, N), N, I0)
            facts = (ile(I0, tv), ilt(tv, N))
            if isc(N) and icv(N) <= 0:
                return [Out('normal', st)]
        # ---- containers whose elements are resized by the loop
        q0 = State(); q0.pc = st.pc + facts
        for rnd in range(3):
            again = False
            with Quiet(ex):
                cells = {}
                S = start(cells)
                try: cur, exits = body_run(S, N is None)
                except AllThrow: cur = None
                if cur is None: break
                for k, typ in havoc.items():
                    p, h = cur.cells.get(k), cells.get(k)
                    if k in closed or p is None or p is h or not p.log: continue
                    ids = list(dict.fromkeys(w.idx for w in p.log))
                    if len(ids) != 1: continue
                    try:
                        v, v0 = p.at(ids[0]), ex.cell(st, k, typ).at(ids[0])
                        vh = h.at(ids[0])
                    except Unsupported: continue
                    if not isinstance(v, Ten) or not isinstance(v0, Ten) or not isinstance(vh, Ten): continue
                    inv_ = invert(ids[0], tau) if any(tau in x.fv for x in ids[0]) else None
                    ref = (v0.rows, v0.cols) if inv_ is not None and k not in shapes else (vh.rows, vh.cols)
                    if inv_ is not None and k in shapes: ref = shapes[k].sh
                    sh = (v.rows, v.cols)
                    if all(x is y or ex.decide(ieq(x, y), q0) is True for x, y in zip(sh, ref)): continue
                    if any(n.startswith('pre#%d:' % lid) for x in sh + tuple(ids[0]) for n in x.names): continue
                    shapes[k] = mkshape(ids[0], inv_, tau, sh)
                    again = True
            if not again: break
        else: raise Unsupported('element sizes do not stabilise in a loop')
        # ---- the iteration
        sv = ex.throws, ex.obl, ex.shape_obl
        ex.throws, ex.obl, ex.shape_obl = [], [], []
        bids = {}
        try:
            S = start(bids)
            base_pc = S.pc
            cur, exits = body_run(S, N is None)
            th, ob, so = ex.throws, ex.obl, ex.shape_obl
        finally:
            ex.throws, ex.obl, ex.shape_obl = sv

        for k, v0 in kept.items():
            if cur is None: continue
            if cur.cells[k] is bids[k]: continue
            if not kept_at(v0, cur.cells[k].at(()), ex.all_facts(cur)): raise NotKept(k)
        # ---- classification
        bfacts = st.pc + facts
        W = {}
        raw = {}
        if cur is not None:
            for k, typ in havoc.items():
                if k in closed: continue
                h, p = bids[k], cur.cells[k]
                if p is h: continue
                if p.bid != h.bid or not p.log:
                    if h.at and is_scalar_cell(ex, st, k, typ):
                        raw[k] = [()]
                    else: raise Unsupported('loop rewrites the whole container %s' % k)
                else:
                    ids = []
                    for w in p.log:
                        if w.idx not in ids: ids.append(w.idx)
                    raw[k] = ids
        info = {}
        for k, ids in raw.items():
            if len(ids) > 1: raise Unsupported('loop writes several locations of %s per iteration' % k)
            info[k] = Upd(ex, st, k, havoc[k], ids[0], cur.cells[k], bids[k], tau, pre_name(k))
        # keys only touched on exits
        fm = {}
        Rnames = {}
        for k, u in info.items():
            u.prepare(bfacts)
        pointwise(ex, info, bfacts, tau)
        # cells havocked but unchanged by a normal iteration keep their value
        for k, typ in havoc.items():
            if k in closed or k in info: continue
            def keep(tau_, *rest, k=k, typ=typ):
                return base_comp(ex, st, k, typ, rest)
            fm[pre_name(k)] = keep
        # induction variables are substituted already
        deps = {k: {j for j in info if pre_name(j) in u.names()} for k, u in info.items()}
        reach = closure(deps)
        order = topo(info, deps, reach)
        for comp in order:
            rec = len(comp) > 1
            for k in comp:
                u = info[k]
                u.resolve_idx(fm)
            if not rec:
                k = comp[0]; u = info[k]
                fm[u.pre] = u.classify(fm, N)
                if u.mode == 'rec': Rnames[k] = u.R
            else:
                for k in comp:
                    info[k].force_rec()
                for k in comp:
                    fm[info[k].pre] = info[k].classify(fm, N)
                    Rnames[k] = info[k].R
        # hidden pre# names of enclosing loops
        for k in info:
            u = info[k]
            if u.mode == 'rec':
                nm = set(u.E.names)
                nm |= set(u.base(u.idx + tuple(iv(x) for x in u.iv)).names)
                HIDDEN[u.R] = {x for x in nm if x.startswith('pre#')} - set(fm)
        for u in info.values():
            for nme in u.E.names:
                if nme in HIDDEN and HIDDEN[nme] & set(fm):
                    raise Unsupported('recurrence nested in a loop it depends on')
        ex.loops.append({'id': lid, 'tau': tau, 'N': N, 'where': ex.where(node), 'R': Rnames,
                         'modes': {k: u.mode for k, u in info.items()}})

        # obligations and exceptional exits found in the body
        R = lambda t: subst(t, {}, fm) if fm else t
        for (nm, g, fs) in ob: ex.obl.append((nm, R(g), [R(f) for f in fs]))
        for (nm, g, fs, wh) in so: ex.shape_obl.append((nm, R(g), [R(f) for f in fs], wh))
        noexit = []
        for pc, q in th:
            extra = R(band(*pc[len(base_pc):]))
            rngN = N if N is not None else None
            c = mkbex(tau, N, extra)
            ex.throws.append((st.pc + (c,), st.copy()))
        # ---- final states
        def final_state(at):
            F = st.copy()
            F.env = dict(st.env)
            for k, typ in havoc.items():
                if k in closed:
                    v = closed[k]
                    mp = {tau: at}
                    v = Iter(v.cont, subst(v.pos, mp)) if isinstance(v, Iter) else v if k in kept else subst(v, mp)
                    if not k.startswith('L'):
                        F.cells[k] = Cell((lambda v: lambda idx: v)(v), typ)
                    else: F.cells[k] = Cell((lambda v: lambda idx: v)(v), typ)
                elif k in info:
                    u = info[k]; g = u.final(at, fm)
                    if u.inv is None and u.idx != ():      # one location of a container: the other locations stay visible to enclosing loops
                        F.cells[k] = Cell(u.c0.base, typ, tuple(u.c0.log) + (SX.Write(u.idx, TRUE, g(u.idx)),), u.c0.bid)
                    else: F.cells[k] = Cell(g, typ)
            return F

        def map_state(q, at):
            """exit state q (over tau and pre#) evaluated at iteration `at`"""
            F = State(); F.env = dict(q.env)
            g = lambda t: subst(t, {tau: at}, fm)
            for k, c in q.cells.items():
                if st.cells.get(k) is c: F.cells[k] = c
                else:
                    F.cells[k] = Cell((lambda c: lambda idx: vmap(c.at(tuple(x for x in idx)), g))(c), c.typ)
            F.pc = q.pc
            return F

        outs = []
        body_extra = R(band(*cur.pc[len(base_pc):])) if cur is not None else FALSE
        if exits:
            ec = []
            for o in exits:
                ec.append(R(band(*o.st.pc[len(base_pc):])))
            anyexit = bor(*ec)
            if body_extra is TRUE and cur is not None: contc = bnot(anyexit)
            else: contc = body_extra
            lv = [iv(v) for v in ex.loopvars[:-1]]
            xt = iapp('exit#%d' % lid, *lv)
            at = {tau: xt}
            v1 = fresh('x')
            early = [ile(I0, xt)] + ([ilt(xt, N)] if N is not None else [])
            cont_before = ball(v1, I0, xt, subst(contc, {tau: iv(v1)}))
            first = band(*early, cont_before, subst(anyexit, at))
            NFDEF_EXIT[xt.a[0]] = (tau, N, anyexit, contc)
            did = mkbex(tau, N, anyexit) if N is not None else TRUE
            norm = None
            for o, c in zip(exits, ec):
                q = map_state(o.st, xt)
                q.pc = st.pc + tuple(early) + (cont_before, subst(c, at))
                if o.kind == 'break':
                    q.env = dict(st.env)
                    if norm is None: norm = q
                    else:
                        m = ex.merge(band(*norm.pc[len(st.pc):]), norm, q, st.pc)
                        m.pc = st.pc + (bor(band(*norm.pc[len(st.pc):]), band(*q.pc[len(st.pc):])),)
                        norm = m
                else:
                    outs.append(Out(o.kind, q, vmap(o.val, lambda t: subst(t, at, fm)) if not isinstance(o.val, (LRef, VRef, MRef)) else o.val))
            if N is not None and cur is not None:
                f = final_state(N)
                nb = mkball(tau, N, contc)
                f.pc = st.pc + ((nb,) if nb is not TRUE else ())
                if norm is None: norm = f
                else:
                    c = band(*norm.pc[len(st.pc):])
                    m = ex.merge(c, norm, f, st.pc)
                    m.pc = st.pc + (bor(c, band(*f.pc[len(st.pc):])),)
                    norm = m
            if norm is not None:
                norm.env = dict(st.env)
                outs.append(Out('normal', norm))
            return outs
        if N is None: raise Unsupported('loop without a recognised trip count or exit')
        if cur is None:
            # every iteration throws: normal only with zero iterations
            f = st.copy(); f.pc = st.pc + (ile(N, I0),)
            return [Out('normal', f)]
        F = final_state(N)
        if body_extra is not TRUE:
            F.pc = st.pc + (mkball(tau, N, body_extra),)
        return [Out('normal', F)]
    finally:
        ex.loopvars.pop()


NFDEF_EXIT = {}


def TM_names_pre(t, lid):
    p = 'pre#%d:' % lid
    return any(x.startswith(p) for x in t.names)


def known(ex, k, st):
    return k in getattr(ex, 'icells', {})


def mkball(tau, N, c):
    if c is TRUE: return TRUE
    v = fresh('x')
    return ball(v, I0, N if N is not None else iapp('∞'), subst(c, {tau: iv(v)}))


def mkbex(tau, N, c):
    if c is FALSE: return FALSE
    v = fresh('x')
    return bnot(ball(v, I0, N if N is not None else iapp('∞'), bnot(subst(c, {tau: iv(v)}))))


def merge_out(ex, a, b, pre):
    if a is None: return b
    ca = band(*a.pc[len(pre):]); cb = band(*b.pc[len(pre):])
    m = ex.merge(ca, a, b, pre)
    c = bor(ca, cb)
    m.pc = pre + ((c,) if c is not TRUE else ())
    m.env = dict(b.env)
    return m


def vmap(v, g):
    if v is None: return None
    if isinstance(v, T): return g(v)
    if isinstance(v, Ten):
        return Ten(g(v.rows), g(v.cols), lambda i, j: g_in(g, v, i, j), v.arr, v.s)
    if isinstance(v, Fact):
        if v.mat is None: return v
        return Fact(v.kind, vmap(v.mat, g), g(v.ok))
    if isinstance(v, Iter):
        return Iter(v.cont, g(v.pos) if v.pos is not None else None, v.key)
    if isinstance(v, Pair): return Pair(vmap(v.first, g), vmap(v.second, g))
    return v


def g_in(g, v, i, j):
    # evaluate at fresh variables, map, then instantiate (the indices must not be captured by g)
    a, b = fresh('i'), fresh('j')
    vec = v.isvec()
    t = v.at(iv(a), I0 if vec else iv(b))
    return subst(g(t), {a: i} if vec else {a: i, b: j})


def is_scalar_cell(ex, st, k, typ):
    return not (k.endswith('[*]') or '[*]' in k or '@' in k.split('.')[-1] and not k.startswith('L'))


def base_comp(ex, st, k, typ, rest):
    c0 = ex.cell(st, k, typ)
    # number of location components: learnt from the havoc arity through the value kind
    kd, info = kind_of(typ)
    for nin in (0, 1, 2):
        m = len(rest) - nin
        if m < 0: break
        try:
            v = c0.at(tuple(rest[:m]))
        except Exception:
            continue
        cp = comp_of(v)
        if cp is None: raise Unsupported('component of %s' % k)
        if cp.nin == nin: return comp_get(v, rest[m:])
    raise Unsupported('component arity of %s' % k)


def closure(deps):
    reach = {k: set(v) for k, v in deps.items()}
    ch = True
    while ch:
        ch = False
        for k in reach:
            new = set(reach[k])
            for j in list(reach[k]): new |= reach[j]
            if new != reach[k]: reach[k] = new; ch = True
    return reach


def topo(info, deps, reach):
    left = set(info)
    out = []
    while left:
        for k in sorted(left):
            comp = [k] + sorted(j for j in left if j != k and j in reach[k] and k in reach[j])
            ext = set().union(*[deps[c] for c in comp]) - set(comp)
            if not (ext & left):
                out.append(comp); left -= set(comp)
                break
        else:
            raise Unsupported('loop dependencies')
    return out


def mkshape(ids, inv_, tau, sh):
    """dimensions of the cell at `ix` at the start of iteration t, when iteration tau resizes the cell at `ids` to `sh`"""
    def f(t, ix, base):
        if inv_ is not None:
            try: tt, c = inv_(tuple(ix))
            except Unsupported: return base
            c = band(c, ile(I0, tt), ilt(tt, t))
            new = tuple(subst(x, {tau: tt}) for x in sh)
        else:
            c = band(idx_eq(tuple(ix), ids), ile(I1, t))
            new = tuple(subst(x, {tau: isub(t, I1)}) for x in sh)
        return tuple(b if a is b else iite(c, a, b) for a, b in zip(new, base))
    f.sh = sh
    return f


def pointwise(ex, info, facts, tau):
    """whole vectors of which iteration tau writes only the entry determined by tau: an entry not yet reached holds the value from
    before the loop (all those vectors at once, so that they may be updated from one another)"""
    fs = {}
    for k, u in info.items():
        if u.idx != () or u.P is None or u.E.s != 'r' or u.nin == 0 or u.pre not in u.E.names: continue
        c, v = flatten(u.E, u.P)
        if v is None or c is TRUE: continue
        pn = pin(c, tau)
        if pn is None or not (set(pn.fv) & set(u.iv)) or any(x.startswith('pre#') for x in pn.names): continue
        fs[u.pre] = (u, pn, c, v)
    if not fs: return
    for k, u in info.items():
        own = fs.get(u.pre)
        if not any(p in u.E.names for p in fs): continue

        def resolve(T_, extra):
            q = State(); q.pc = tuple(facts) + tuple(extra)
            fm = {}
            for pre, (w, pn, _, _) in fs.items():
                def f(t, *rest, w=w, pn=pn, pre=pre):
                    tt = subst(pn, dict(zip(w.iv, rest)))
                    if t is iv(tau) and (tt is t or ex.decide(ile(t, tt), q) is True): return w.base(rest)
                    return app(w.E.s, pre, (t,) + rest)
                fm[pre] = f
            return subst(T_, {}, fm)
        if own:
            c, v = own[2], own[3]
            pinc = ieq(iv(tau), own[1])
            c2, v2 = band(pinc, resolve(c, (pinc,))), resolve(v, (pinc,))
            u.E = ite(c2, v2, u.P)
        else:
            u.E = resolve(u.E, ())


class Upd:
    """per-iteration update of one cell location"""
    def __init__(s, ex, st, k, typ, idx, post, hav, tau, pre):
        s.ex = ex; s.st = st; s.k = k; s.typ = typ; s.idx = idx; s.tau = tau; s.pre = pre
        s.c0 = ex.cell(st, k, typ)
        s.post = post.at(idx)
        s.hav = hav.at(idx)
        s.mode = None
        s.R = 'R#%s' % pre[4:]
        s.forced = False
        s.fact = isinstance(s.post, Fact)
        if s.fact:
            if s.post.mat is None: s.post = Fact(s.post.kind, Ten(0, 0, lambda i, j: app('r', 'nofact:' + k, (i, j))), FALSE)   # created, nothing decomposed yet
            s.cp = Comp('ten', 'r', 2)
            s.val = s.post.mat
        else:
            s.cp = comp_of(s.post)
            if s.cp is None: raise Unsupported('loop update of %s (%s)' % (k, type(s.post).__name__))
            s.val = s.post
        s.nin = s.cp.nin
        s.iv = [fresh('a') for _ in range(s.nin)]
        inner = [iv(v) for v in s.iv]
        s.E = comp_get(s.val, inner)
        s.P = None
        if not s.fact and comp_of(s.hav) is not None and comp_of(s.hav).nin == s.nin:
            s.P = comp_get(s.hav, inner)
        if s.P is not None and s.P.s != s.E.s and s.P.s == 'r': s.E = toreal(s.E)
        if s.E.s == 'r' and s.pre in s.E.names: s.E = prune_ite(s.E)
        s.shape = None
        if isinstance(s.val, Ten): s.shape = (s.val.rows, s.val.cols)
        s.ok = s.post.ok if s.fact else None

    def names(s):
        nm = set(s.E.names)
        for x in s.idx: nm |= x.names
        if s.shape:
            for x in s.shape: nm |= x.names
        if s.ok is not None: nm |= s.ok.names
        return nm

    def prepare(s, facts):
        """own location read before it is written holds the value from before the loop"""
        s.facts = facts
        ex = s.ex
        q = State(); q.pc = facts
        s.dyn = any(s.tau in x.fv or any(n.startswith('pre#') for n in x.names) for x in s.idx)
        if s.pre in s.E.names:
            inv_ = invert(s.idx, s.tau) if s.dyn else None
            if inv_ is not None:
                m = len(s.idx)

                def f(t, *rest):
                    try:
                        tt, c = inv_(rest[:m])
                    except Unsupported:
                        return app(s.E.s if s.E.s != 'r' else 'r', s.pre, (t,) + rest)
                    cc = band(c, ile(I0, tt), ilt(tt, t))
                    if cc is FALSE or ex.decide(cc, q) is False:
                        return s.base(rest)
                    return app(s.E.s, s.pre, (t,) + rest)
                s.E = subst(s.E, {}, {s.pre: f})

    def base(s, rest):
        m = len(s.idx)
        v = s.c0.at(tuple(rest[:m]))
        if isinstance(v, Fact):
            if v.mat is None: return app('r', 'nofact:' + s.k, rest)
            v = v.mat
        return comp_get(v, rest[m:])

    def resolve_idx(s, fm):
        g = lambda t: subst(t, {}, fm) if fm else t
        s.idx = tuple(g(x) for x in s.idx)
        s.E = g(s.E)
        if s.shape: s.shape = tuple(g(x) for x in s.shape)
        if s.ok is not None: s.ok = g(s.ok)

    def force_rec(s):
        s.forced = True

    def classify(s, fm, N):
        """-> resolver: value of the cell at the start of iteration t"""
        tau = s.tau
        m = len(s.idx)
        dyn = any(tau in x.fv for x in s.idx)
        own = s.pre in s.E.names
        at = lambda t, rest, T_: subst(T_, dict([(tau, t)] + list(zip(s.iv, rest[m:]))), fm if any(n in fm for n in T_.names) else None)

        def mkR():
            fvs = sorted(x for x in s.E.fv if x != tau and x not in s.iv)
            s.mode = 'rec'
            nfv = len(fvs)
            E, ivs = s.E, list(s.iv)

            def define(t, *rest):
                mp = {tau: t}
                for v, x in zip(fvs, rest[:nfv]): mp[v] = x
                for v, x in zip(ivs, rest[nfv:]): mp[v] = x
                return subst(E, mp, fm)
            NF.DEFS[s.R] = define
            srt = s.E.s
            return lambda t, inner: app(srt, s.R, (t,) + tuple(iv(v) for v in fvs) + tuple(inner))

        if dyn:
            inv_ = invert(s.idx, tau)
            if inv_ is None: return s.filtered(fm)
            s.inv = inv_
            if own or s.forced:
                Wf = mkR()
            else:
                s.mode = 'store'
                Wf = lambda t, inner: subst(s.E, dict([(tau, t)] + list(zip(s.iv, inner))))

            def res(t, *rest):
                tt, c = inv_(rest[:m])
                cc = band(c, ile(I0, tt), ilt(tt, t))
                b = s.base(rest)
                if cc is FALSE: return b
                return ite(cc, Wf(tt, rest[m:]), b)
            s.res = res
            return res
        s.inv = None
        idx = s.idx
        here = lambda rest: idx_eq(tuple(rest[:m]), idx)

        def wrap(f):
            def res(t, *rest):
                c = here(rest)
                if c is FALSE: return s.base(rest)
                v = f(t, rest)
                return v if c is TRUE else ite(c, v, s.base(rest))
            s.res = res
            return res
        if not own and not s.forced:
            s.mode = 'last'
            return wrap(lambda t, rest: s.base(idx + tuple(rest[m:])) if isc(t) and icv(t) <= 0 else
                        ite(ile(I1, t), at(isub(t, I1), rest, s.E), s.base(idx + tuple(rest[m:]))))
        if not s.forced and s.P is not None:
            P = s.P
            d = strip_add(s.E, P)
            if d is not None and s.pre not in d.names:
                s.mode = 'sum'
                k0 = fresh('k')

                def f(t, rest):
                    k = fresh('k')
                    b = s.base(idx + tuple(rest[m:]))
                    dd = at(iv(k), rest, d)
                    if s.E.s == 'i': return iadd(b, isum(k, I0, t, toint(dd)))
                    return add(b, rsum(k, I0, t, dd))
                return wrap(f)
            if s.E.s == 'r':
                mx = strip_max(s.E, P)
                if mx is not None:
                    b0 = s.base(idx + tuple(iv(v) for v in s.iv))
                    q = State(); q.pc = s.st.pc
                    if b0 is ZERO or s.ex.decide(rle(ZERO, b0), q) is True or nonneg_max(b0):
                        s.mode = 'max'

                        def f(t, rest):
                            k = fresh('k')
                            b = s.base(idx + tuple(rest[m:]))
                            mm = maxo(k, I0, t, at(iv(k), rest, mx))
                            return mm if b is ZERO else fn('max', b, mm)
                        return wrap(f)
            if s.E.s == 'b':
                E = s.E
                if E is P: pass
                if E.op in ('and', 'or') and P in E.a:
                    rest_ = [x for x in E.a if x is not P]
                    if not any(s.pre in x.names for x in rest_):
                        s.mode = 'bool'
                        r0 = band(*rest_) if E.op == 'and' else bor(*rest_)

                        def f(t, rest):
                            v = fresh('x')
                            b = s.base(idx + tuple(rest[m:]))
                            x = at(iv(v), rest, r0)
                            if E.op == 'and': return band(b, ball(v, I0, t, x))
                            return bor(b, bnot(ball(v, I0, t, bnot(x))))
                        return wrap(f)
                # P or (c) written as ite
            c, v = flatten(s.E, P)
            if v is not None and c is not TRUE and s.pre not in c.names:
                pn = pin(c, tau)
                if pn is not None and set(pn.fv) & set(s.iv):
                    rec = s.pre in v.names
                    if rec:
                        E0 = s.E; s.E = v
                        Wf = mkR(); s.E = E0
                    else:
                        s.mode = 'elem'
                        Wf = lambda t, inner: subst(v, dict([(tau, t)] + list(zip(s.iv, inner))))

                    def f(t, rest):
                        mp = dict(zip(s.iv, rest[m:]))
                        tt = subst(pn, mp)
                        mp2 = dict(mp); mp2[tau] = tt
                        cc = band(ile(I0, tt), ilt(tt, t), subst(c, mp2))
                        b = s.base(idx + tuple(rest[m:]))
                        if cc is FALSE: return b
                        return ite(cc, Wf(tt, rest[m:]), b)
                    return wrap(f)
                br = s.exclusive(branches(s.E, P), N) if not (s.pre in v.names) and s.nin else None
                if br:
                    s.mode = 'elem'

                    def f(t, rest):
                        mp = dict(zip(s.iv, rest[m:]))
                        r = s.base(idx + tuple(rest[m:]))
                        for bc, bv, bp in reversed(br):
                            tt = subst(bp, mp)
                            mp2 = dict(mp); mp2[tau] = tt
                            cc = band(ile(I0, tt), ilt(tt, t), subst(bc, mp2))
                            if cc is not FALSE: r = ite(cc, subst(bv, mp2), r)
                        return r
                    return wrap(f)
                if not (s.pre in v.names) and s.nin and set(c.fv) & set(s.iv):
                    s.mode = 'scatter'
                    nm = 'scat#%s' % s.pre[4:]
                    fvs = sorted(x for x in (c.fv | v.fv) if x != tau and x not in s.iv)
                    ivs = list(s.iv)
                    HIDDEN[nm] = {x for x in (c.names | v.names) if x.startswith('pre#')} - set(fm)

                    def define(t, *rest):
                        mp = {}
                        for w, x in zip(fvs, rest[:len(fvs)]): mp[w] = x
                        for w, x in zip(ivs, rest[len(fvs):]): mp[w] = x
                        cond_at = lambda k: subst(c, dict(mp, **{tau: k}))
                        val_at = lambda k: subst(v, dict(mp, **{tau: k}))
                        return cond_at, val_at, subst(s.base(idx + tuple(rest[len(fvs):])), mp)
                    NF.SCATS[nm] = define
                    mine = lambda t, rest: app(s.E.s, nm, (t,) + tuple(iv(x) for x in fvs) + tuple(rest[m:]))
                    if any(x.startswith('pre#') and x not in fm for x in s.base(idx + tuple(iv(x) for x in s.iv)).names):
                        # inside another loop: whether an iteration hits the entry is stated outside the definition, the value before the
                        # loop stays visible to the enclosing one
                        def f(t, rest):
                            mp = dict(zip(s.iv, rest[m:]))
                            h = s.hit(t, lambda k: subst(c, dict(mp, **{tau: k})))
                            return ite(h, mine(t, rest), s.base(idx + tuple(rest[m:])))
                        return wrap(f)
                    return wrap(mine)
        # generic recurrence on a fixed location
        Wf = mkR()
        return wrap(lambda t, rest: ite(ile(I1, t), Wf(isub(t, I1), rest[m:]), s.base(idx + tuple(rest[m:]))))

    def hit(s, t, cond_at):
        """some iteration k in [0,t) satisfies the condition"""
        k = fresh('k')
        c = cond_at(iv(k))
        q = State(); q.pc = s.facts
        for x in (c.a if c.op == 'and' else (c,)):
            r = NF.filt_member(x, k, t, lambda g: s.ex.decide(g, q) is True)
            if r is not None: 
                rest = band(*[y for y in (c.a if c.op == 'and' else (c,)) if y is not x])
                if k not in rest.fv: return band(rest, r[0])
        return bnot(ball(k, I0, t, bnot(c)))

    def filtered(s, fm):
        """conditional append: iteration tau stores v(tau) at position P(tau) = #{k < tau : c(k)} when c(tau) holds.
        Position p < P(t) then holds v(e) for the iteration e = filt#(t, p) with c(e) and P(e) = p"""
        bad = Unsupported('loop store at a non-invertible location of %s' % s.k)
        tau = s.tau
        if len(s.idx) != 1 or s.nin or s.P is None or s.idx[0].s != 'i': raise bad
        q = State(); q.pc = s.facts
        P = app(s.E.s, s.pre, (iv(tau),))

        def mark(t, ix):
            if t is not iv(tau) or s.ex.decide(ieq(ix, s.idx[0]), q) is not True: raise bad
            return P
        c, v = flatten(subst(s.E, {}, {s.pre: mark}), P)
        if v is None or c is TRUE or s.pre in c.names or s.pre in v.names: raise bad
        x = s.idx[0]
        sums = [y for y in walk(x) if y.op == 'isum' and tau in y.a[2].fv]
        if len(sums) != 1 or sums[0].a[2] is not iv(tau) or sums[0].a[1] is not I0: raise bad
        P = sums[0]
        base = isub(x, P)
        if tau in base.fv: raise bad
        if toint(subst(P.a[3], {P.a[0]: iv(tau)})) is not iite(c, I1, I0) and s.ex.decide(ieq(subst(P.a[3], {P.a[0]: iv(tau)}), iite(c, I1, I0)), q) is not True: raise bad
        s.mode = 'filter'
        s.inv = True
        try:
            # normal form: the counts met elsewhere are normalised
            F = NF.Facts(list(s.facts))
            c = NF.nbool(c, F)
            y = NF.nint(subst(P, {tau: iv('ττ')}), NF.Facts(list(s.st.pc) + [ile(I0, iv('ττ'))]))
            y = subst(y, {'ττ': iv(tau)})
            if y.op == 'isum': P = y
        except (NF.NeedSplit, NF.GiveUp): pass
        nm = 'filt#%s' % s.pre[4:]
        fvs = sorted(y for y in (c.fv | v.fv | P.fv) if y != tau)
        HIDDEN[nm] = {y for y in (c.names | v.names) if y.startswith('pre#')} - set(fm)

        def define(t, *rest):
            mp = dict(zip(fvs, rest))
            cond_at = lambda k: subst(c, dict(mp, **{tau: k}))
            cnt = lambda k: subst(P, dict(mp, **{tau: k}))
            return cond_at, cnt
        NF.FILTS[nm] = define

        def res(t, ix):
            p = isub(ix, base)
            e = iapp(nm, t, *([iv(y) for y in fvs] + [p]))
            inside = band(ile(I0, p), ilt(p, subst(P, {tau: t})))
            val = subst(v, {tau: e})
            return ite(inside, val, s.base((ix,)))
        s.res = res
        return res

    def exclusive(s, br, N):
        """conditional writes that each determine the iteration and exclude each other over all iterations (else None)"""
        if br is None or len(br) > 6: return None
        out = []
        for c, v in br:
            p = pin(c, s.tau)
            if p is None or not set(p.fv) & set(s.iv): return None
            out.append((c, v, p))
        q = State(); q.pc = s.st.pc
        cc = [band(ile(I0, p), *(([ilt(p, N)] if N is not None else []) + [subst(c, {s.tau: p})])) for c, _, p in out]
        for x in range(len(cc)):
            for y in range(x):
                b = band(cc[x], cc[y])
                if b is not FALSE and s.ex.decide(b, q) is not False: return None
        return out

    def final(s, N, fm):
        """cell contents after N iterations"""
        m = len(s.idx)

        def shape_at(ix):
            v0 = s.c0.at(ix)
            if s.inv is not None:
                t, c = s.inv(ix)
                c = band(c, ile(I0, t), ilt(t, N))
                sh = tuple(subst(x, {s.tau: t}) for x in s.shape)
            else:
                c = band(idx_eq(ix, s.idx), ilt(I0, N))
                sh = tuple(subst(x, {s.tau: isub(N, I1)}) for x in s.shape)
            if isinstance(v0, Fact): return sh
            a, b = (v0.rows, v0.cols)
            q = State(); q.pc = s.st.pc
            def pick(new, old):
                if new is old or s.ex.decide(bor(bnot(c), ieq(new, old)), q) is True: return old
                return iite(c, new, old)
            return pick(sh[0], a), pick(sh[1], b)

        def fin(ix):
            ix = tuple(ix)
            if s.fact:
                v0 = s.c0.at(ix)
                r, cc = s.shape
                if s.inv is not None:
                    t, c = s.inv(ix)
                else: t = isub(N, I1)
                mp = {s.tau: t}
                return Fact(s.post.kind, Ten(subst(r, mp), subst(cc, mp), lambda i, j: s.res(N, *(ix + (i, j)))), subst(s.ok, mp, fm))
            if s.nin == 0: return s.res(N, *ix)
            r, cc = shape_at(ix)
            if s.nin == 1: return Ten(r, cc, lambda i, j: s.res(N, *(ix + (i,))), False, s.E.s)
            return Ten(r, cc, lambda i, j: s.res(N, *(ix + (i, j))), False, s.E.s)
        memo = {}

        def g(ix):
            ix = tuple(ix)
            if ix not in memo: memo[ix] = fin(ix)
            return memo[ix]
        return g


def nonneg_max(t):
    return t.op == 'maxo' or (t.op == 'fn' and (t.a[0] == 'abs' or t.a[0] == 'max' and any(nonneg_max(x) for x in t.a[1:]))) \
        or (isnum(t) and t.a[0] >= 0) or (t.op == 'ite' and nonneg_max(t.a[1]) and nonneg_max(t.a[2]))
