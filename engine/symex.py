"""Symbolic executor / verification-condition generator over the extracted AST.

Scalars are reals (machine arithmetic treated as mathematical), sizes are
integers, Eigen expressions are symbolic tensors with symbolic dimensions, heap
cells are addressed by (access path, indices).  Loops are summarised for an
arbitrary number of iterations.
"""
import re, itertools
from fractions import Fraction
from term import *
import nf as NF
from frontend import N


class Unsupported(Exception):
    pass


class AllThrow(Exception):
    pass


_c = itertools.count()


def nid():
    return next(_c)


# ------------------------------------------------------------------ values
class Ten:
    """symbolic matrix (vectors are n x 1)"""
    __slots__ = ('rows', 'cols', 'f', 'memo', 'arr', 's')

    def __init__(s, rows, cols, f, arr=False, sort='r'):
        s.rows = toint(rows); s.cols = toint(cols); s.f = f; s.memo = {}; s.arr = arr; s.s = sort

    def at(s, i, j=None):
        i = toint(i); j = ic(0) if j is None else toint(j)
        k = (i, j)
        r = s.memo.get(k)
        if r is None:
            r = s.f(i, j)
            s.memo[k] = r
        return r

    def vec(s, k):
        """linear coefficient access"""
        if isc(s.cols) and icv(s.cols) == 1: return s.at(k, ic(0))
        if isc(s.rows) and icv(s.rows) == 1: return s.at(ic(0), k)
        raise Unsupported('linear access to a matrix')

    def size(s):
        return imul(s.rows, s.cols)

    def isvec(s):
        return isc(s.cols) and icv(s.cols) == 1

    def lam(s):
        a, b = fresh('l'), fresh('l')
        if s.isvec():
            return lam([a], s.at(iv(a), ic(0)), [s.rows])
        return lam([a, b], s.at(iv(a), iv(b)), [s.rows, s.cols])

    def map(s, g, sort=None):
        return Ten(s.rows, s.cols, lambda i, j: g(s.at(i, j)), s.arr, sort or s.s)


class View:
    """sub-view of a stored tensor: index map and its inverse"""
    def __init__(s, rows, cols, fwd, bwd, arr=False):
        s.rows = rows; s.cols = cols; s.fwd = fwd; s.bwd = bwd; s.arr = arr


class LRef:
    """reference to a tensor (or scalar) cell, possibly through a view"""
    __slots__ = ('key', 'idx', 'view', 'typ', 'elem', 'arr')

    def __init__(s, key, idx, typ, view=None, elem=None, arr=False):
        s.key = key; s.idx = idx; s.typ = typ; s.view = view; s.elem = elem; s.arr = arr


class VRef:
    """reference to a std::vector (or array) container"""
    __slots__ = ('key', 'idx', 'typ')

    def __init__(s, key, idx, typ):
        s.key = key; s.idx = idx; s.typ = typ


class MRef:
    """reference to a std::map / std::set keyed container"""
    __slots__ = ('key', 'idx', 'typ')

    def __init__(s, key, idx, typ):
        s.key = key; s.idx = idx; s.typ = typ


class Iter:
    __slots__ = ('cont', 'pos', 'key')

    def __init__(s, cont, pos=None, key=None):
        s.cont = cont; s.pos = pos; s.key = key


class Pair:
    def __init__(s, a, b):
        s.first = a; s.second = b


class Opq:
    """value outside the modelled domain (streams, strings, profilers)"""
    def __init__(s, why=''):
        s.why = why


class CommaInit:
    def __init__(s, ref, vals):
        s.ref = ref; s.vals = vals


class Lambda:
    def __init__(s, node, env, fns):
        s.node = node; s.env = env; s.fns = fns


class Bound:
    def __init__(s, obj, name, ref):
        s.obj = obj; s.name = name; s.ref = ref


# ------------------------------------------------------------------ types
def strip_t(t):
    t = t.strip()
    while True:
        o = t
        if t.startswith('const '): t = t[6:]
        if t.endswith('&'): t = t[:-1].strip()
        if t.endswith(' const'): t = t[:-6]
        if t.endswith('*const'): t = t[:-5]
        if t.startswith('class '): t = t[6:]
        if t.startswith('struct '): t = t[7:]
        t = t.strip()
        if t == o: return t


def targs(t):
    """template arguments of a type string"""
    i = t.find('<')
    if i < 0: return []
    d = 0; out = []; cur = ''
    for ch in t[i + 1:]:
        if ch == '<': d += 1
        if ch == '>':
            if d == 0: break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip(): out.append(cur.strip())
    return out


INT_T = {'int', 'unsigned int', 'long', 'unsigned long', 'size_t', 'std::size_t', 'Eigen::Index', 'Index',
         'size_type', 'std::ptrdiff_t', 'ptrdiff_t', 'unsigned', 'long long', 'unsigned long long', 'short',
         'Ipopt::Index', 'char', 'difference_type', 'std::vector::size_type'}
REAL_T = {'double', 'float', 'Scalar', 'Ipopt::Number', 'RealScalar'}
VEC_ALIAS = ('VectorXs', 'Eigen::VectorXd', 'VectorXd', 'Vector2s', 'Vector3s', 'Vector4s', 'Vector6s',
             'Vector2d', 'Vector3d')
MAT_ALIAS = ('MatrixXs', 'Eigen::MatrixXd', 'MatrixXd', 'MatrixXdRowMajor', 'RowMatrixXs', 'Matrix3s')
FACT_T = ('Eigen::LLT', 'Eigen::LDLT', 'Eigen::PartialPivLU', 'Eigen::FullPivLU', 'Eigen::ColPivHouseholderQR',
          'Eigen::HouseholderQR', 'Eigen::JacobiSVD', 'Eigen::CompleteOrthogonalDecomposition', 'Eigen::EigenSolver')


ENUM_T = set()


def load_enums(root='/repo/include/crocoddyl/core'):
    import os, re
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(('.hpp', '.hxx')):
                for m in re.finditer(r'\benum\s+(?:class\s+)?(\w+)\s*\{', open(os.path.join(d, f), errors='replace').read()):
                    ENUM_T.add(m.group(1))


def enum(name):
    """value of an enumerator (only distinctness matters)"""
    return ic(ENUMS.setdefault(name, len(ENUMS) + 1))


def kind_of(t):
    """-> (kind, info)"""
    t = strip_t(t)
    if not ENUM_T: load_enums()
    if t.split('::')[-1] in ENUM_T or t.startswith('enum '): return 'i', None
    if t in INT_T: return 'i', None
    if t in REAL_T: return 'r', None
    if t == 'bool': return 'b', None
    if t.endswith('*'):
        base = strip_t(t[:-1])
        if base in REAL_T: return 'buf', 'r'
        if base in INT_T: return 'buf', 'i'
        return 'o', base
    for p in FACT_T:
        if t.startswith(p): return 'fact', t
    if t.startswith('Eigen::DiagonalMatrix<') or t == 'DiagonalMatrixXs': return 'ten', ('m', None, None)
    if t.startswith('Eigen::Matrix<') or t.startswith('Eigen::Array<') or t.startswith('Matrix<'):
        a = targs(t)
        r, c = a[1], a[2]
        return 'ten', ('v' if c == '1' else 'm', int(r) if r not in ('-1',) and r.lstrip('-').isdigit() and int(r) >= 0 else None,
                       int(c) if c.lstrip('-').isdigit() and int(c) >= 0 else None)
    if t.startswith('Eigen::Block<') or t.startswith('Eigen::VectorBlock<') or t.startswith('Eigen::Ref<') or \
       t.startswith('Eigen::Map<') or t.startswith('Ref<') or t.startswith('Block<') or t.startswith('VectorBlock<') or \
       t.startswith('Eigen::Transpose<') or t.startswith('Eigen::Diagonal<'):
        k, i = kind_of(targs(t)[0]) if targs(t) else ('ten', None)
        if t.startswith('Eigen::VectorBlock<') or t.startswith('VectorBlock<'): i = ('v', None, 1)
        return 'view', i
    if t.startswith('Eigen::'): return 'view', None
    if t in VEC_ALIAS: return 'ten', ('v', None, 1)
    if t in MAT_ALIAS: return 'ten', ('m', None, None)
    if t.startswith('std::vector<') or t.startswith('vector<'): return 'vec', targs(t)[0]
    if t.startswith('std::map<'): return 'map', targs(t)[1]
    if t.startswith('std::set<'): return 'set', None
    if t.startswith('std::shared_ptr<') or t.startswith('boost::shared_ptr<') or t.startswith('shared_ptr<') or t.startswith('Ipopt::SmartPtr<'):
        return 'o', strip_t(targs(t)[0])
    if t.startswith('std::basic_string<') or t in ('std::string', 'string', 'const char *'): return 'str', None
    if t.startswith('std::pair<'): return 'pair', targs(t)
    if 'iterator' in t: return 'iter', None
    return 'o', t


def short(t):
    return t.replace('crocoddyl::', '')


# ------------------------------------------------------------------ state
class Write:
    __slots__ = ('idx', 'guard', 'val')

    def __init__(s, idx, guard, val):
        s.idx = idx; s.guard = guard; s.val = val


class Cell:
    __slots__ = ('base', 'log', 'typ', 'bid')

    def __init__(s, base, typ, log=(), bid=None):
        s.base = base; s.log = log; s.typ = typ; s.bid = bid if bid is not None else nid()

    def at(s, idx):
        v = None
        start = 0
        # find the last unconditional syntactic match
        for n in range(len(s.log) - 1, -1, -1):
            w = s.log[n]
            if w.guard is TRUE and w.idx == idx:
                v = w.val; start = n + 1
                break
        if v is None:
            v = s.base(idx)
        for w in s.log[start:]:
            c = band(w.guard, idx_eq(w.idx, idx))
            if c is FALSE: continue
            v = vite(c, w.val, v)
        return v


def idx_eq(a, b):
    cs = []
    for x, y in zip(a, b):
        if x is y: continue
        if x.s == 'i': cs.append(ieq(x, y))
        elif x.s == 'o': cs.append(oeq(x, y))
        else: raise Unsupported('index sort')
    return band(*cs)


def vite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if isinstance(a, T) and isinstance(b, T):
        if a.s == 'i' and b.s == 'r': b = b if b.op != 'num' else b
        return ite(c, a, b)
    if isinstance(a, Ten) and isinstance(b, Ten):
        rows = a.rows if a.rows is b.rows else iite(c, a.rows, b.rows)
        cols = a.cols if a.cols is b.cols else iite(c, a.cols, b.cols)
        return Ten(rows, cols, lambda i, j: ite(c, a.at(i, j), b.at(i, j)), a.arr, a.s)
    if isinstance(a, Fact) and isinstance(b, Fact):
        if a.mat is None: return b
        if b.mat is None: return a
        return Fact(a.kind, vite(c, a.mat, b.mat), ite(c, a.ok, b.ok), vite(c, a.shift, b.shift) if a.shift and b.shift else None)
    if isinstance(a, Iter) and isinstance(b, Iter) and a.pos is not None and b.pos is not None and a.cont.key == b.cont.key:
        return Iter(a.cont, iite(c, a.pos, b.pos))
    if isinstance(a, Opq) or isinstance(b, Opq):
        return Opq('merge')
    raise Unsupported('cannot merge %s and %s' % (type(a).__name__, type(b).__name__))


class Fact:
    """value of an Eigen decomposition object: remembers the decomposed matrix"""
    def __init__(s, kind, mat=None, ok=None, shift=None):
        s.kind = kind; s.mat = mat; s.ok = ok; s.shift = shift


class State:
    def __init__(s):
        s.cells = {}
        s.pc = ()
        s.env = {}

    def copy(s):
        n = State()
        n.cells = dict(s.cells); n.pc = s.pc; n.env = dict(s.env)
        return n

    def assign(s, o):
        s.cells = o.cells; s.pc = o.pc; s.env = o.env


def common_log(a, b):
    n = 0
    for x, y in zip(a, b):
        if x is y: n += 1
        else: break
    return n


class Out:
    __slots__ = ('kind', 'st', 'val', 'pc')

    def __init__(s, kind, st, val=None, pc=()):
        s.kind = kind; s.st = st; s.val = val; s.pc = pc


# ------------------------------------------------------------------ executor
ENUMS = {}


class Exec:
    def __init__(s, db):
        s.db = db
        s.cls = {}           # path -> dynamic class
        s.dims = {}          # cell key -> fn(idx) -> (rows, cols)
        s.inits = {}         # cell key -> fn(idx) -> value   (initial contents)
        s.bufs = {}          # raw array -> handler(ex, st, position, value) of every write to it (contents not tracked)
        s.sizes = {}         # container key -> fn(idx) -> size
        s.contracts = {}     # (class, method) or method -> handler(ex, st, obj, args, node) or NotImplemented
        s.free = {}          # free function contracts
        s.facts = []         # global facts (requires)
        s.throws = []        # collected throw outcomes
        s.mapped = set()     # buffers some Eigen::Map of the object under construction looks at
        s.obl = []           # side obligations: (name, goal, facts)
        s.nframe = 0
        s.frames = []
        s.used = {}          # functions executed: (cls,name,type)->count
        s.contract_used = {}
        s.loopvars = []
        s.mapkeys = {}       # map key alias: key -> name of the key sequence
        s.ghost = {}
        s.decide_cache = {}
        s.notes = []
        s.locals_stack = []
        s.loop_notes = []
        s.keep = set()       # cells to try as loop invariants first
        s.loops = []
        s.max_inline = 40
        s.invariants = {}
        s.inv = None         # invariant mode for loops: .cands(ex, st, written), .valid(ex, st, cond)
        s.ret_hook = None    # called with (function, outcome) for every return
        s.shape_checks = True
        s.shape_obl = []
        s.events = []
        s.readlog = None
        s.guards = []        # conditions known on normal termination inside loops

    def lvargs(s):
        return tuple(iv(v) for v in s.loopvars)

    # ---- facts
    def all_facts(s, st):
        return list(s.facts) + list(st.pc)

    def decide(s, c, st):
        c = tobool(c)
        if c is TRUE: return True
        if c is FALSE: return False
        key = (tuple(s.facts), st.pc)
        F = s.decide_cache.get(key)
        if F is None:
            F = NF.Facts(s.all_facts(st))
            s.decide_cache[key] = F
        if c.op in ('bapp',):
            if c in F.facts: return True
            if bnot(c) in F.facts: return False
            if not any(c in set(walk(f)) for f in F.facts): return None
        return F.decide(c)

    # ---- class lookup
    def mro(s, cls):
        out = []
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in out: continue
            out.append(c)
            r = s.db.recs.get(c) or s.db.recs.get(short(c))
            if r:
                todo.extend(short(b) for b in r['bases'])
        return out

    def find_method(s, cls, name, nargs, sig=None):
        for c in s.mro(short(cls)):
            cands = s.db.by.get((c, name))
            if not cands: continue
            ok = []
            for t, f in cands:
                if f is None: continue
                np = len(f['params'])
                nreq = len([p for p in f['params'] if not p.c])
                if nreq <= nargs <= np:
                    ok.append((t, f))
            if len(ok) > 1 and sig:
                ex = [x for x in ok if x[0] == sig]
                if ex: ok = ex
                else:
                    pp_ = [x for x in ok if sig_params(x[0]) == sig_params(sig)]
                    if pp_: ok = pp_
            if ok:
                return c, ok[0][1]
        return None, None

    def objcls(s, o):
        if o.op == 'oapp':
            return s.cls.get(o.a[0])
        return None

    # ---- cells
    def initial(s, key, typ):
        k, info = kind_of(typ)
        if key in s.inits:
            f = s.inits[key]
            return lambda idx: f(*idx)
        if key.endswith('.#') and key[:-2] in s.sizes:
            sz = s.sizes[key[:-2]]
            return lambda idx: toint(sz(*idx))
        if k == 'r': return lambda idx: rapp(key, *idx)
        if k == 'i': return lambda idx: iapp(key, *idx)
        if k == 'b': return lambda idx: bapp(key, *idx)
        if k in ('ten', 'view'):
            def mkten(idx):
                r, c = s.dims_of(key, idx, info)
                vec = (isc(c) and icv(c) == 1)
                if vec:
                    return Ten(r, c, lambda i, j: rapp(key, *(idx + (i,))))
                return Ten(r, c, lambda i, j: rapp(key, *(idx + (i, j))))
            memo = {}
            def g(idx):
                if idx not in memo: memo[idx] = mkten(idx)
                return memo[idx]
            return g
        if k == 'o':
            if key not in s.cls: s.cls[key] = short(info) if info else None
            return lambda idx: oapp(key, *idx)
        if k == 'str': return lambda idx: oapp(key, *idx)
        if k == 'fact': return lambda idx: Fact(info)
        return lambda idx: Opq('init %s' % key)

    def dims_of(s, key, idx, info):
        if key in s.dims:
            r, c = s.dims[key](*idx)
            return toint(r), toint(c)
        if info and info[1] is not None and info[1] >= 0: r = ic(info[1])
        else: r = iapp('rows:' + key, *idx)
        if info and info[0] == 'v': c = ic(1)
        elif info and info[2] is not None and info[2] >= 0: c = ic(info[2])
        else: c = iapp('cols:' + key, *idx)
        return r, c

    def cell(s, st, key, typ):
        c = st.cells.get(key)
        if c is None:
            c = s.icells.get(key) if hasattr(s, 'icells') else None
            if c is None:
                if not hasattr(s, 'icells'): s.icells = {}
                c = Cell(s.initial(key, typ), typ)
                s.icells[key] = c
        return c

    def read(s, st, key, idx, typ):
        return s.cell(st, key, typ).at(tuple(idx))

    def write(s, st, key, idx, typ, val, guard=TRUE):
        if key in s.mapped: raise Unsupported('write through the buffer under a map')
        c = s.cell(st, key, typ)
        idx = tuple(idx)
        log = c.log
        if guard is TRUE and log and log[-1].guard is TRUE and log[-1].idx == idx:
            log = log[:-1]
        st.cells[key] = Cell(c.base, c.typ, log + (Write(idx, guard, val),), c.bid)

    def setbase(s, st, key, typ, fn_):
        st.cells[key] = Cell(fn_, typ)

    # ---- merging
    def merge(s, c, A, B, pre_pc):
        """state that is A when c holds, else B"""
        r = State()
        r.pc = pre_pc
        r.env = A.env
        keys = set(A.cells) | set(B.cells)
        for k in keys:
            a, b = A.cells.get(k), B.cells.get(k)
            if a is b:
                r.cells[k] = a; continue
            if a is None: a = s.cell(A, k, b.typ)
            if b is None: b = s.cell(B, k, a.typ)
            if a.bid == b.bid:
                n = common_log(a.log, b.log)
                log = a.log[:n]
                sa, sb = a.log[n:], b.log[n:]
                # same last index on both sides: single merged write
                if len(sa) == 1 and len(sb) == 1 and sa[0].idx == sb[0].idx and sa[0].guard is TRUE and sb[0].guard is TRUE:
                    try:
                        log = log + (Write(sa[0].idx, TRUE, vite(c, sa[0].val, sb[0].val)),)
                        if len(log) >= 2 and log[-2].idx == log[-1].idx and log[-2].guard is TRUE:
                            log = log[:-2] + (log[-1],)
                        r.cells[k] = Cell(a.base, a.typ, log, a.bid)
                        continue
                    except Unsupported:
                        pass
                nc = bnot(c)
                log = log + tuple(Write(w.idx, band(c, w.guard), w.val) for w in sa if band(c, w.guard) is not FALSE) \
                          + tuple(Write(w.idx, band(nc, w.guard), w.val) for w in sb if band(nc, w.guard) is not FALSE)
                r.cells[k] = Cell(a.base, a.typ, log, a.bid)
            else:
                r.cells[k] = Cell((lambda a, b: lambda idx: vite(c, a.at(idx), b.at(idx)))(a, b), a.typ)
        return r

    # ---- calling
    def oblig(s, st, name, goal):
        s.obl.append((name, goal, s.all_facts(st)))

    def shape(s, st, what, a, b, node=None):
        """dimension agreement obligation"""
        if not s.shape_checks: return
        c = ieq(a, b)
        if c is TRUE: return
        s.shape_obl.append((what, c, s.all_facts(st), s.where(node)))

    def inrange(s, st, what, lo, x, hi, node=None):
        if not s.shape_checks: return
        for c in (ile(lo, x), ile(x, hi)):
            if c is not TRUE:
                s.shape_obl.append((what, c, s.all_facts(st), s.where(node)))

    def where(s, node):
        f = s.frames[-1] if s.frames else None
        return '%s::%s:%s' % (f['cls'], f['name'], node.line if node is not None else '?') if f else ''

    def run(s, f, this, args, st, env=None):
        """execute function f (from the database); args are values. returns value"""
        if len(s.frames) > s.max_inline: raise Unsupported('inline depth in ' + f['name'])
        key = '%s::%s' % (f['cls'], f['name'])
        s.used[key] = s.used.get(key, 0) + 1
        if sum(1 for g in s.frames if g is f) > 2: raise Unsupported('recursion ' + key)
        fid = nid()
        saved_env = st.env
        st.env = {'this': this, '#fid': fid} if env is None else dict(env, **{'#fid': fid})
        s.frames.append(f)
        try:
            params = f['params']
            args = list(args)
            while len(args) < len(params):
                p = params[len(args)]
                args.append(s.ev(p.c[0], st) if p.c else Opq('missing'))
            for p, a in zip(params, args):
                if isinstance(a, Opq) and a.why == 'default' and p.c: a = s.ev(p.c[0], st)
                s.bind(p, a, st)
            if f.get('inits'):
                for ini in f['inits']:
                    s.ctor_init(ini, this, st)
            base_pc = st.pc
            outs = s.block(f['body'], st)
            rets = [o for o in outs if o.kind in ('normal', 'return')]
            if not rets:
                raise AllThrow()
            if s.ret_hook is not None:
                for o in rets: s.ret_hook(f, o)
            rtype = f['type'].split('(')[0].strip()
            rv = []
            for o in rets:
                v = o.val
                if v is not None and not rtype.endswith('&') and not rtype.endswith('*'):
                    v = s.rval(v, o.st)
                rv.append(v)
            cur = rets[-1].st; val = rv[-1]
            if len(rets) > 1:
                conds = [band(*o.st.pc[len(base_pc):]) for o in rets]
                for o, c, v in list(zip(rets, conds, rv))[-2::-1]:
                    if v is not None and val is not None and not isinstance(v, Opq) and v is not val:
                        if isinstance(v, LRef): v = s.rval(v, o.st)
                        if isinstance(val, LRef): val = s.rval(val, cur)
                        val = vite(c, v, val) if not isinstance(v, (VRef, MRef)) else v
                    cur = s.merge(c, o.st, cur, base_pc)
                allc = bor(*conds)
                if allc is not TRUE:
                    cur.pc = base_pc + (allc,)
                else:
                    cur.pc = base_pc
            st.cells = cur.cells; st.pc = cur.pc
            for k in [k for k in st.cells if k.startswith('L%d.' % fid)]:
                # keep locals that a returned reference may denote
                if isinstance(val, (LRef, VRef, MRef)) and (k.startswith(val.key) or val.key.startswith(k)): continue
                del st.cells[k]
            return val
        finally:
            s.frames.pop()
            st.env = saved_env

    def bind(s, p, a, st):
        t = p.t
        fid = st.env['#fid']
        k, info = kind_of(t)
        isref = t.rstrip().endswith('&') or t.rstrip().endswith('&&') or k == 'view' or t.rstrip().endswith('*') \
            or t.rstrip().endswith('*const') or t.rstrip().endswith('* const')
        if isinstance(a, (Opq, Lambda, Fact, Pair)):
            st.env[p.ref] = ('val', a); return
        if isref:
            if isinstance(a, (LRef, VRef, MRef)):
                st.env[p.ref] = ('val', a); return
            if isinstance(a, T) and a.s == 'o':
                st.env[p.ref] = ('val', a); return
        s.declare(p, a, st)

    def declare(s, p, val, st):
        """local variable with value semantics"""
        fid = st.env['#fid']
        key = 'L%d.%s@%s' % (fid, p.name, str(p.ref)[-5:])
        t = strip_t(p.t)
        if s.locals_stack: s.locals_stack[-1].append(key)
        if isinstance(val, (VRef,)):
            s.copy_vec(st, key, (), val)
            st.env[p.ref] = ('val', VRef(key, (), t)); return
        if isinstance(val, MRef):
            st.env[p.ref] = ('val', val); return
        val = s.rval(val, st)
        if isinstance(val, (Opq, Pair, Lambda)):
            st.env[p.ref] = ('val', val); return
        k, info = kind_of(t)
        if k == 'vec':
            st.env[p.ref] = ('val', VRef(key, (), t)); return
        if isinstance(val, T):
            if k == 'r' and val.s != 'r': val = toreal(val)
            if k == 'b': val = tobool(val)
            if k == 'i' and val.s in ('b', 'r'): val = toint(val)
        if isinstance(val, Ten) and k == 'r': val = s.scalar(val, st)
        s.setbase(st, key, t, s.initial(key, t))
        s.write(st, key, (), t, val)
        st.env[p.ref] = ('cell', key, t)

    def copy_vec(s, st, key, idx, src, etyp=None):
        et = kind_of(src.typ)[1]
        n = s.vsize(src, st)
        c = s.cell(st, src.key + '[*]', et)
        m = len(idx)
        sidx = src.idx
        if m == 0:
            s.setbase(st, key + '[*]', et, lambda ix: c.at(sidx + ix))
        else:
            old = s.cell(st, key + '[*]', et)
            s.setbase(st, key + '[*]', et, lambda ix: vite(idx_eq(idx, ix[:m]), c.at(sidx + ix[m:]), old.at(ix)))
        # nested vectors
        if kind_of(et)[0] == 'vec':
            raise Unsupported('nested vector copy')
        s.write(st, key + '.#', idx, 'size_t', n)

    def vsize(s, v, st):
        if isinstance(v, MRef):
            key = v.key if v.key in s.sizes else s.mapkeys.get(v.key, v.key)
            if key in s.sizes and (v.key + '.#') not in s.inits: s.inits[v.key + '.#'] = s.sizes[key]
            return s.read(st, v.key + '.#', v.idx, 'size_t')
        if (v.key + '.#') not in st.cells and v.key in s.sizes:
            return toint(s.sizes[v.key](*v.idx))
        k = v.key + '.#'
        if k not in st.cells and k not in s.inits and v.key not in s.sizes:
            s.inits[k] = lambda *idx: iapp('size:' + v.key, *idx)
        elif k not in s.inits and v.key in s.sizes:
            s.inits[k] = s.sizes[v.key]
        return s.read(st, k, v.idx, 'size_t')

    # ---- rvalues
    def rval(s, v, st):
        if isinstance(v, LRef):
            if s.readlog is not None: s.readlog.append((v.key, v.idx, v.view))
            x = s.read(st, v.key, v.idx, v.typ)
            if v.elem is not None:
                i, j = v.elem
                return x.at(i, j) if isinstance(x, Ten) else s.bufat(x, i)
            if isinstance(x, Ten):
                if v.view is not None:
                    w = v.view
                    return Ten(w.rows, w.cols, lambda i, j: x.at(*w.fwd(i, j)), v.arr, x.s)
                if v.arr:
                    return Ten(x.rows, x.cols, x.f, True, x.s)
            return x
        return v

    def ten(s, v, st, like=None):
        v = s.rval(v, st)
        if isinstance(v, Ten): return v
        if isinstance(v, T): return Ten(1, 1, lambda i, j: toreal(v))
        raise Unsupported('tensor expected, got %s %s' % (type(v).__name__, getattr(v, 'why', '')))

    def scalar(s, v, st):
        v = s.rval(v, st)
        if isinstance(v, Ten):
            return v.at(0, 0)
        if isinstance(v, T): return v
        raise Unsupported('scalar expected: %s' % type(v).__name__)

    def int_(s, v, st):
        v = s.rval(v, st)
        if isinstance(v, T): return toint(v)
        raise Unsupported('int expected: %s' % type(v).__name__)

    def bool_(s, v, st):
        v = s.rval(v, st)
        if isinstance(v, T):
            if v.s == 'o': return bnot(oeq(v, oapp('null')))
            return tobool(v)
        if isinstance(v, Opq): return bapp('opq%d' % nid(), *s.lvargs())
        raise Unsupported('bool expected: %s' % type(v).__name__)

    # ---- assignment
    def assign(s, ref, val, st, node=None, resize=True):
        if isinstance(ref, LRef):
            k, info = kind_of(ref.typ)
            if ref.elem is not None:
                old = s.read(st, ref.key, ref.idx, ref.typ)
                ei, ej = ref.elem
                v = s.scalar(val, st)
                if ref.key in s.bufs: return s.bufs[ref.key](s, st, ei, v)
                if isinstance(old, Ten):
                    if old.s == 'r': v = toreal(v)
                    new = Ten(old.rows, old.cols, lambda i, j: ite(band(ieq(i, ei), ieq(j, ej)), v, old.at(i, j)), False, old.s)
                    s.write(st, ref.key, ref.idx, ref.typ, new)
                    return
                raise Unsupported('element assignment')
            if k in ('r', 'i', 'b', 'o', 'str', 'iter'):
                v = s.rval(val, st)
                if isinstance(v, Ten): v = s.scalar(v, st)
                if isinstance(v, Opq):
                    if k == 'str': s.write(st, ref.key, ref.idx, ref.typ, oapp('str%d' % nid())); return
                    if k == 'o': v = oapp('opq%d' % nid(), *s.lvargs())
                    elif k == 'r': v = rapp('opq%d' % nid(), *s.lvargs())
                    elif k == 'i': v = iapp('opq%d' % nid(), *s.lvargs())
                    elif k == 'b': v = bapp('opq%d' % nid(), *s.lvargs())
                if k == 'r': v = toreal(v)
                if k == 'b': v = tobool(v)
                if k == 'i': v = toint(v)
                s.write(st, ref.key, ref.idx, ref.typ, v)
                return
            if k == 'fact':
                v = s.rval(val, st)
                s.write(st, ref.key, ref.idx, ref.typ, v if isinstance(v, Fact) else Fact(info))
                return
            # tensors
            v = s.rval(val, st)
            if isinstance(v, Opq):
                old = s.read(st, ref.key, ref.idx, ref.typ)
                nm = 'opq%d' % nid()
                v = Ten(old.rows, old.cols, lambda i, j: rapp(nm, i, j))
            if isinstance(v, T):
                # Eigen array assignment of a scalar fills the target
                sc = toreal(v)
                if ref.view is not None: R, C = ref.view.rows, ref.view.cols
                else:
                    old = s.read(st, ref.key, ref.idx, ref.typ); R, C = old.rows, old.cols
                v = Ten(R, C, lambda i, j: sc)
            if not isinstance(v, Ten): raise Unsupported('assign %s to tensor' % type(v).__name__)
            v0 = v
            if ref.view is not None: tgt = (ref.view.rows, ref.view.cols)
            elif info and info[0] == 'v': tgt = (None, ic(1))
            else: tgt = None
            if tgt is not None and isc(tgt[1]) and icv(tgt[1]) == 1 and isc(v.rows) and icv(v.rows) == 1 and not (isc(v.cols) and icv(v.cols) == 1):
                vv = v          # Eigen assigns a row vector to a column vector by transposing it
                v = Ten(vv.cols, 1, lambda i, j: vv.at(j, i), vv.arr, vv.s)
            if ref.view is None:
                if v.arr: v = Ten(v.rows, v.cols, v.f, False, v.s)
                if k == 'view' or (resize is False):
                    old = s.read(st, ref.key, ref.idx, ref.typ)
                    s.shape(st, 'assign rows', old.rows, v.rows, node)
                    s.shape(st, 'assign cols', old.cols, v.cols, node)
                s.write(st, ref.key, ref.idx, ref.typ, v)
                return
            w = ref.view
            s.shape(st, 'block assign rows', w.rows, v.rows, node)
            s.shape(st, 'block assign cols', w.cols, v.cols, node)
            old = s.read(st, ref.key, ref.idx, ref.typ)
            def g(i, j):
                c, a, b = w.bwd(i, j)
                if c is TRUE: return v.at(a, b)
                if c is FALSE: return old.at(i, j)
                return ite(c, v.at(a, b), old.at(i, j))
            s.write(st, ref.key, ref.idx, ref.typ, Ten(old.rows, old.cols, g, False, old.s))
            return
        if isinstance(ref, VRef):
            if isinstance(val, VRef):
                s.copy_vec(st, ref.key, ref.idx, val); return
            if isinstance(val, Opq): raise Unsupported('vector assigned opaque')
        if isinstance(ref, Opq): return
        if isinstance(ref, T) and ref.s == 'o':
            return s.copy_object(ref, val, st)
        if isinstance(ref, MRef) and isinstance(val, MRef): raise Unsupported('map copy')
        raise Unsupported('assign to %s' % type(ref).__name__)

    def copy_object(s, ref, val, st):
        raise Unsupported('object copy assignment')

    # ---- statements
    def block(s, n, st):
        """returns list of outcomes"""
        if n is None: return [Out('normal', st)]
        m = getattr(s, 'st_' + n.k, None)
        if m is None:
            # expression statement
            try:
                v = s.ev(n, st)
                if isinstance(v, CommaInit): s.flush_comma(v, st)
            except AllThrow:
                return []
            return [Out('normal', st)]
        return m(n, st)

    def st_CompoundStmt(s, n, st):
        cur = st
        outs = []
        s.locals_stack.append([])
        try:
            for c in n.c:
                if cur is None: break
                rs = s.block(c, cur)
                nxt = None
                for o in rs:
                    if o.kind == 'normal':
                        if nxt is not None: raise Unsupported('multiple normal outcomes')
                        nxt = o.st
                    else:
                        outs.append(o)
                cur = nxt
        finally:
            loc = s.locals_stack.pop()
        if cur is not None:
            for k in loc: cur.cells.pop(k, None)
            outs.append(Out('normal', cur))
        return outs

    def st_NullStmt(s, n, st):
        return [Out('normal', st)]

    def st_DeclStmt(s, n, st):
        for c in n.c:
            if c.k == 'VarDecl':
                try:
                    s.vardecl(c, st)
                except AllThrow:
                    return []
        return [Out('normal', st)]

    def vardecl(s, c, st):
        t = c.t
        init = c.c[0] if c.c else None
        k, info = kind_of(t)
        if init is None:
            if k == 'ten':
                r, cc = ic(info[1] if info[1] is not None else 0), ic(info[2] if info[2] is not None else 0)
                nm = 'uninit%d' % nid()
                v = Ten(r, cc, lambda i, j: rapp(nm, i, j))
            elif k == 'r': v = rapp('uninit%d' % nid())
            elif k == 'i': v = iapp('uninit%d' % nid())
            elif k == 'b': v = bapp('uninit%d' % nid())
            elif k == 'vec': v = None
            elif k == 'iter': v = Opq('iter')
            else: v = Opq(t)
            if k == 'vec':
                key = s.localkey(c, st)
                st.env[c.ref] = ('val', VRef(key, (), strip_t(t)))
                s.write(st, key + '.#', (), 'size_t', ic(0))
                return
            if k == 'iter':
                s.declare_iter(c, v, st); return
            s.declare(c, v, st)
            return
        v = s.ev(init, st)
        if isinstance(v, CommaInit): v = v.ref
        if t.rstrip().endswith('&') or k == 'view' or t.rstrip().endswith('&&'):
            if isinstance(v, (LRef, VRef, MRef)) or (isinstance(v, T) and v.s == 'o') or isinstance(v, (Opq, Pair, Iter)):
                if k == 'view' and isinstance(v, LRef) and v.view is None and not t.rstrip().endswith('&'):
                    pass
                st.env[c.ref] = ('val', v); return
        if isinstance(v, Lambda):
            st.env[c.ref] = ('val', v); return
        if isinstance(v, Iter) or k == 'iter':
            s.declare_iter(c, v, st); return
        if k == 'vec' and isinstance(v, VRef):
            s.declare(c, v, st); return
        s.declare(c, v, st)

    def localkey(s, c, st):
        key = 'L%d.%s@%s' % (st.env['#fid'], c.name, str(c.ref)[-5:])
        if s.locals_stack: s.locals_stack[-1].append(key)
        return key

    def declare_iter(s, c, v, st):
        key = s.localkey(c, st)
        if isinstance(v, LRef): v = s.rval(v, st)
        st.cells[key] = Cell(lambda idx: Opq('iter'), 'iterator')
        s.write(st, key, (), 'iterator', v)
        st.env[c.ref] = ('cell', key, 'iterator')

    def st_ReturnStmt(s, n, st):
        try:
            v = s.ev(n.c[0], st) if n.c else None
        except AllThrow:
            return []
        return [Out('return', st, v)]

    def st_BreakStmt(s, n, st):
        return [Out('break', st)]

    def st_ContinueStmt(s, n, st):
        return [Out('continue', st)]

    def st_CXXThrowExpr(s, n, st):
        s.throws.append((st.pc, st))
        return []

    def st_IfStmt(s, n, st):
        hasElse, hasInit, hasVar = n.x
        cs = list(n.c)
        if hasInit:
            s.block(cs.pop(0), st)
        if hasVar:
            s.block(cs.pop(0), st)
        try:
            c = s.bool_(s.ev(cs[0], st), st)
        except AllThrow:
            return []
        then = cs[1]; els = cs[2] if hasElse and len(cs) > 2 else None
        return s.branch(c, lambda q: s.block(then, q), (lambda q: s.block(els, q)) if els is not None else (lambda q: [Out('normal', q)]), st)

    def branch(s, c, ft, fe, st):
        d = s.decide(c, st)
        if d is True: return ft(st)
        if d is False: return fe(st)
        pre = st.pc
        A = st.copy(); A.pc = pre + (c,)
        B = st.copy(); B.pc = pre + (bnot(c),)
        oa = ft(A)
        ob = fe(B)
        na = [o for o in oa if o.kind == 'normal']
        nb = [o for o in ob if o.kind == 'normal']
        rest = [o for o in oa + ob if o.kind != 'normal']
        if na and nb:
            a, b = na[0].st, nb[0].st
            m = s.merge(c, a, b, pre)
            # facts gained inside a branch stay, guarded
            ea = band(*a.pc[len(pre) + 1:]); eb = band(*b.pc[len(pre) + 1:])
            extra = []
            if ea is not TRUE: extra.append(bor(bnot(c), ea))
            if eb is not TRUE: extra.append(bor(c, eb))
            m.pc = pre + tuple(extra)
            m.env = dict(st.env)
            return rest + [Out('normal', m)]
        if na: return rest + [Out('normal', na[0].st)]
        if nb: return rest + [Out('normal', nb[0].st)]
        return rest

    def st_SwitchStmt(s, n, st):
        val = s.int_(s.ev(n.c[0], st), st)
        body = n.c[-1]
        cases = []   # (labels or None, stmts)
        def add(x):
            if x is None: return
            if x.k == 'CaseStmt':
                cases.append([[x.c[0]], []]); add(x.c[-1] if len(x.c) > 1 else None)
            elif x.k == 'DefaultStmt':
                cases.append([None, []]); add(x.c[-1] if x.c else None)
            else:
                cases[-1][1].append(x)
        for x in body.c: add(x)

        def run_from(i, q):
            outs = []; cur = q
            for lab, stmts in cases[i:]:
                for x in stmts:
                    if cur is None: break
                    if x.k == 'BreakStmt':
                        outs.append(Out('normal', cur)); cur = None; break
                    nx = None
                    for o in s.block(x, cur):
                        if o.kind == 'normal': nx = o.st
                        elif o.kind == 'break': outs.append(Out('normal', o.st))
                        else: outs.append(o)
                    cur = nx
                if cur is None: break
            if cur is not None: outs.append(Out('normal', cur))
            norm = [o for o in outs if o.kind == 'normal']
            if len(norm) > 1: raise Unsupported('switch: several normal exits')
            return outs

        dflt = [i for i, (l, _) in enumerate(cases) if l is None]

        def chain(order, q):
            if not order:
                return run_from(dflt[0], q) if dflt else [Out('normal', q)]
            i = order[0]
            lab = s.int_(s.ev(cases[i][0][0], q), q)
            return s.branch(ieq(val, lab), lambda z: run_from(i, z), lambda z: chain(order[1:], z), q)
        return chain([i for i, (l, _) in enumerate(cases) if l is not None], st)

    def st_CXXTryStmt(s, n, st):
        body, catches = n.c[0], n.c[1:]
        saved = s.throws
        s.throws = []
        try:
            outs = s.block(body, st.copy())
            th = s.throws
        finally:
            s.throws = saved
        res = [o for o in outs if o.kind != 'normal']
        norm = [o.st for o in outs if o.kind == 'normal']
        if not th:
            return outs
        pre = st.pc
        # any throw: run the handler from the merged throw state
        cond = bor(*[band(*pc[len(pre):]) for pc, _ in th])
        tst = th[-1][1]
        for pc, q in th[-2::-1]:
            tst = s.merge(band(*pc[len(pre):]), q, tst, pre)
        tst = tst.copy(); tst.pc = pre + (cond,); tst.env = dict(st.env)
        h = catches[0].c[-1]
        houts = s.block(h, tst)
        res += [o for o in houts if o.kind != 'normal']
        hn = [o.st for o in houts if o.kind == 'normal']
        if hn and norm:
            m = s.merge(cond, hn[0], norm[0], pre)
            m.env = dict(st.env)
            if len(hn[0].pc) > len(pre) + 1:
                # (what is known in the state the handler leaves, where it left otherwise)
                d = bor(band(*hn[0].pc[len(pre):]), band(*norm[0].pc[len(pre):]))
                if d is not TRUE: m.pc = pre + (d,)
            return res + [Out('normal', m)]
        for q in hn + norm:
            res.append(Out('normal', q))
        return res

    def st_WhileStmt(s, n, st):
        from loops import while_loop
        return while_loop(s, n, st)

    def st_ForStmt(s, n, st):
        from loops import for_loop
        return for_loop(s, n, st)

    def st_DoStmt(s, n, st):
        raise Unsupported('do loop')

    def st_CXXForRangeStmt(s, n, st):
        from loops import range_for
        return range_for(s, n, st)

    def flush_comma(s, ci, st):
        ref = ci.ref
        old = s.ten(ref, st)
        rv = [s.rval(v, st) for v in ci.vals]
        if any(isinstance(v, Ten) and not (v.rows is ic(1) and v.cols is ic(1)) for v in rv):
            return s.flush_blocks(ref, old, [s.ten(v, st) for v in rv], st)
        vals = [s.scalar(v, st) for v in ci.vals]
        if not isc(old.cols): raise Unsupported('comma initialiser with symbolic columns')
        nc = icv(old.cols)
        s.shape(st, 'comma initialiser', imul(old.rows, ic(nc)), ic(len(vals)))
        def g(i, j):
            r = ZERO
            for k in range(len(vals) - 1, -1, -1):
                c = band(ieq(i, ic(k // nc)), ieq(j, ic(k % nc)))
                if c is TRUE: return toreal(vals[k])
                r = ite(c, toreal(vals[k]), r)
            return r
        s.assign(ref, Ten(old.rows, old.cols, g), st)

    def flush_blocks(s, ref, old, vals, st):
        """m << A, B, ...: blocks left to right, a new block row whenever the columns are used up"""
        placed, r0, c0, h = [], ic(0), ic(0), None
        for k, b in enumerate(vals):
            if h is None: h = b.rows
            else: s.shape(st, 'comma initialiser, block rows', h, b.rows)
            placed.append((b, r0, c0))
            c0 = iadd(c0, b.cols)
            if k == len(vals) - 1 or s.decide(ieq(c0, old.cols), st):
                s.shape(st, 'comma initialiser, columns', c0, old.cols)
                r0, c0, h = iadd(r0, h), ic(0), None
        s.shape(st, 'comma initialiser, rows', r0, old.rows)
        def g(i, j):
            r = ZERO
            for b, r0, c0 in reversed(placed):
                c = band(ile(r0, i), ilt(i, iadd(r0, b.rows)), ile(c0, j), ilt(j, iadd(c0, b.cols)))
                v = toreal(b.at(isub(i, r0), isub(j, c0)))
                r = v if c is TRUE else ite(c, v, r)
            return r
        s.assign(ref, Ten(old.rows, old.cols, g), st)

    # ---- expressions
    def ev(s, n, st):
        if n is None: raise Unsupported('null expr')
        m = getattr(s, 'ex_' + n.k, None)
        if m is None:
            raise Unsupported('expr %s %s' % (n.k, n.name))
        return m(n, st)

    def ex_IntegerLiteral(s, n, st):
        if kind_of(n.t)[0] == 'r': return num(int(n.x))
        return ic(int(n.x))

    def ex_FloatingLiteral(s, n, st):
        x = n.x
        if x in ('+Inf', 'inf', 'Inf'): return rapp('INF')
        return num(Fraction(repr(float(x))))

    def ex_CXXBoolLiteralExpr(s, n, st):
        return TRUE if n.x else FALSE

    def ex_CharacterLiteral(s, n, st): return ic(int(n.x))

    def ex_StringLiteral(s, n, st):
        return oapp('str:' + str(n.x))

    def ex_PredefinedExpr(s, n, st): return Opq('pf')
    def ex_CXXDefaultArgExpr(s, n, st):
        return s.ev(n.c[0], st) if n.c else Opq('default')

    def ex_CXXNullPtrLiteralExpr(s, n, st): return oapp('null')
    def ex_GNUNullExpr(s, n, st): return oapp('null')
    def ex_CXXScalarValueInitExpr(s, n, st): return Opq('void')
    def ex_CXXTypeidExpr(s, n, st): return Opq('typeid')
    def ex_ImplicitValueInitExpr(s, n, st):
        k, _ = kind_of(n.t)
        return {'r': ZERO, 'i': ic(0), 'b': FALSE}.get(k, Opq('implicit'))

    def ex_CXXThisExpr(s, n, st): return st.env['this']

    def ex_CXXThrowExpr(s, n, st):
        s.throws.append((st.pc, st.copy()))
        raise AllThrow()

    def ex_InitListExpr(s, n, st):
        if len(n.c) == 1: return s.ev(n.c[0], st)
        return Opq('init list')

    def ex_CXXStdInitializerListExpr(s, n, st): return Opq('init list')
    def ex_LambdaExpr(s, n, st):
        """closure: the body with the environment of its definition; variables captured by copy are snapshot"""
        rec = n.c[0]
        ms, fields = [], []
        def meth(c):
            if c is None: return
            if c.k == 'CXXMethodDecl' and c.name == 'operator()': ms.append(c)
            elif c.k == 'FunctionTemplateDecl':
                for d in c.c: meth(d)
        for c in rec.c:
            meth(c)
            if c is not None and c.k == 'FieldDecl': fields.append(c)
        caps = [c for c in n.c[1:] if c is not None and c.k != 'CompoundStmt']
        if len(caps) != len(fields): raise Unsupported('lambda captures')
        env = dict(st.env)
        for c, f in zip(caps, fields):
            e = c
            while e.k not in ('DeclRefExpr', 'CXXThisExpr') and len([x for x in e.c if x is not None]) == 1: e = [x for x in e.c if x is not None][0]
            if e.k == 'CXXThisExpr': continue
            if e.k != 'DeclRefExpr': raise Unsupported('lambda init capture')
            if f.t.rstrip().endswith('&'): continue
            old = st.env[e.ref[0]]
            s.declare(N('ParmVarDecl', f.t, name='%s.copy%d' % (e.ref[2], nid()), ref=e.ref[0]), s.ev(c, st), st)
            env[e.ref[0]] = st.env[e.ref[0]]
            st.env[e.ref[0]] = old
        fns = {}
        for m in ms:
            body = [c for c in m.c if c is not None and c.k == 'CompoundStmt']
            if body: fns[m.ref] = {'cls': s.frames[-1]['cls'] if s.frames else '', 'name': 'lambda', 'type': m.t, 'params': [c for c in m.c if c is not None and c.k == 'ParmVarDecl'], 'body': body[0], 'line': n.line}
        if not fns: raise Unsupported('lambda body')
        return Lambda(n, env, fns)

    def call_lambda(s, lam, fid, args, st):
        f = lam.fns.get(fid) or (list(lam.fns.values())[0] if len(lam.fns) == 1 else None)
        if f is None: raise Unsupported('generic lambda')
        return s.run(f, None, args, st, env=lam.env)
    def ex_CXXUnresolvedConstructExpr(s, n, st):        # default argument of a template: Scalar(v)
        a = [c for c in n.c if c is not None]
        if len(a) != 1: raise Unsupported('dependent construction')
        return s.ev(a[0], st)

    def ex_CXXNewExpr(s, n, st):
        c = next((a for a in n.c if a is not None and a.k == 'CXXConstructExpr'), None)
        if c is None or short(strip_t(c.t)) not in s.db.recs: return Opq('new')
        vals = [s.ev(a, st) for a in c.c if a is not None and a.k != 'CXXDefaultArgExpr']
        cls = short(strip_t(c.t))
        if s.contracts.get((cls, '<ctor>')) is None and s.find_ctor(cls, len(vals), vals, st)[1] is None: return Opq('new')
        return s.new_object(cls, vals, st)

    def ex_CXXDeleteExpr(s, n, st): return Opq('delete')
    def ex_UnaryExprOrTypeTraitExpr(s, n, st): return Opq('sizeof')
    def ex_CXXNoexceptExpr(s, n, st): return Opq('noexcept')

    def ex_Cast(s, n, st):
        v = s.ev(n.c[0], st)
        if isinstance(v, Opq): return v
        if n.op == 'PointerToBoolean' or n.op == 'IntegralToBoolean' or n.op == 'FloatingToBoolean':
            return s.bool_(v, st)
        if n.op == 'IntegralToFloating': return toreal(s.scalar(v, st))
        if n.op == 'FloatingToIntegral': return toint(s.scalar(v, st))
        return v

    def cast(s, n, st):
        v = s.ev(n.c[0], st)
        k, info = kind_of(n.t)
        if isinstance(v, (LRef, T)) and k in ('r', 'i', 'b') and not n.t.endswith('*'):
            v = s.rval(v, st)
            if isinstance(v, Ten): v = s.scalar(v, st)
            if isinstance(v, T):
                if v.s == 'o': return v
                if k == 'r': return toreal(v)
                if k == 'i': return toint(v)
                return tobool(v)
        if k == 'ten' and isinstance(v, T) and v.s == 'i':
            return s.construct_ten(n.t, [v], st)
        return v

    ex_CXXStaticCastExpr = cast
    ex_CXXFunctionalCastExpr = cast
    ex_CStyleCastExpr = cast
    ex_CXXConstCastExpr = cast
    ex_CXXReinterpretCastExpr = cast

    def ex_CXXDynamicCastExpr(s, n, st):
        return s.ev(n.c[0], st)

    def ex_DeclRefExpr(s, n, st):
        rid, kind, name, typ = n.ref
        if kind == 'EnumConstantDecl':
            if name in ('Success',): return ic(ENUMS.setdefault('Success', 0))
            return ic(ENUMS.setdefault(name, len(ENUMS) + 1))
        b = st.env.get(rid)
        if b is None:
            if kind in ('FunctionDecl', 'CXXMethodDecl'): return Opq('fn ' + name)
            if name in s.free: return s.free[name](s, st, None, [], n)
            return Opq('global ' + str(name))
        if b[0] == 'val': return b[1]
        _, key, t = b
        return s.lv(key, (), t)

    def lv(s, key, idx, t):
        k, info = kind_of(t)
        if k == 'vec': return VRef(key, idx, strip_t(t))
        if k in ('map', 'set'): return MRef(key, idx, strip_t(t))
        if k == 'o' and not is_ptr(t):
            # embedded object
            if key not in s.cls: s.cls[key] = short(info)
            return oapp(key, *idx)
        return LRef(key, idx, strip_t(t) if t != 'iterator' else t)

    def ex_MemberExpr(s, n, st):
        b = s.ev(n.c[0], st) if n.c else st.env['this']
        if isinstance(b, Pair): return getattr(b, n.name)
        if isinstance(b, LRef) and b.elem is None and kind_of(b.typ)[0] in ('o', 'iter'):
            b = s.rval(b, st)
        if isinstance(b, Iter):
            return s.iter_member(b, n.name, st)
        if isinstance(b, Opq): return Opq('member ' + n.name)
        if n.t == '<bound member function type>':
            return Bound(b, n.name, n.ref)
        if isinstance(b, T) and b.s == 'o':
            return s.field(b, n.name, n.t, st)
        if isinstance(b, (LRef, Ten, VRef, MRef)): return Bound(b, n.name, n.ref)
        raise Unsupported('member %s of %s' % (n.name, type(b).__name__))

    def deref(s, o, st):
        if o.op == 'oapp': return o
        if o.op == 'oite':
            d = s.decide(o.a[0], st)
            if d is True: return s.deref(o.a[1], st)
            if d is False: return s.deref(o.a[2], st)
        raise Unsupported('dereference of a conditional object ' + pp(o))

    def field(s, o, name, typ, st):
        o = s.deref(o, st)
        path, idx = o.a
        if path == 'null': s.oblig(st, 'no access through a null pointer', FALSE)
        return s.lv(path + '.' + name, idx, typ)

    def iter_member(s, it, name, st):
        if name == 'first': return s.iter_key(it)
        if name == 'second':
            return s.map_at(it.cont, s.iter_key(it), st)
        raise Unsupported('iterator member ' + name)

    def iter_key(s, it):
        if it.key is not None: return it.key
        kn = s.mapkeys.get(it.cont.key, it.cont.key)
        return oapp(kn + '.key', *(it.cont.idx + (it.pos,)))

    def map_at(s, m, key, st):
        k, vt = kind_of(m.typ)
        return s.lv(m.key + '@', m.idx + (key,), vt)

    # operators
    def ex_UnaryOperator(s, n, st):
        op = n.op
        if op == '!':
            v = s.ev(n.c[0], st)
            return bnot(s.bool_(v, st))
        if op == '-':
            v = s.rval(s.ev(n.c[0], st), st)
            if isinstance(v, Opq): return v
            return -v if v.s != 'b' else -toint(v)
        if op == '+': return s.rval(s.ev(n.c[0], st), st)
        if op in ('++', '--'):
            ref = s.ev(n.c[0], st)
            if isinstance(ref, Opq): return ref
            old = s.rval(ref, st)
            d = 1 if op == '++' else -1
            new = old + d if isinstance(old, T) else Iter(old.cont, iadd(old.pos, ic(d)))
            s.assign(ref, new, st)
            return old if n.x else ref
        if op == '*':
            v = s.ev(n.c[0], st)
            if isinstance(v, LRef) and kind_of(v.typ)[0] in ('o', 'iter'): v = s.rval(v, st)
            return v
        if op == '&':
            return s.ev(n.c[0], st)
        raise Unsupported('unary ' + op)

    def ex_BinaryOperator(s, n, st):
        op = n.op
        if op == '=':
            ref = s.ev(n.c[0], st)
            v = s.rval(s.ev(n.c[1], st), st)
            s.assign(ref, v, st, n)
            return ref
        if op == ',':
            s.ev(n.c[0], st)
            return s.ev(n.c[1], st)
        if op in ('&&', '||'):
            a = s.bool_(s.ev(n.c[0], st), st)
            if op == '&&' and a is FALSE: return FALSE
            if op == '||' and a is TRUE: return TRUE
            q = st.copy()
            q.pc = st.pc + ((a,) if op == '&&' else (bnot(a),))
            b = s.bool_(s.ev(n.c[1], q), q)
            return band(a, b) if op == '&&' else bor(a, b)
        a, b = s.ev(n.c[0], st), s.ev(n.c[1], st)
        for x, y, cx in ((a, b, n.c[0]), (b, a, n.c[1])):
            # pointers into a raw array: the array is a column, a pointer is its tail
            if isinstance(x, LRef) and cx.t.strip().endswith('*') and kind_of(x.typ)[0] in ('ten', 'view'):
                if op in ('==', '!=') and isinstance(y, T) and y.s == 'o': return FALSE if op == '==' else TRUE
                if op == '+': return s.tail_from(x, s.int_(s.rval(y, st), st), st, n)
                raise Unsupported('pointer operation ' + op)
        a, b = s.rval(a, st), s.rval(b, st)
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq('binop')
        if isinstance(a, Ten): a = s.scalar(a, st)
        if isinstance(b, Ten): b = s.scalar(b, st)
        if isinstance(a, (VRef, MRef, Iter)) or isinstance(b, (VRef, MRef, Iter)):
            raise Unsupported('binop on containers')
        return s.arith(op, a, b, n)

    def tail_from(s, x, off, st, node):
        from eig import block, dims
        R = dims(s, x, st)[0]
        return block(s, x, off, ic(0), isub(R, off), ic(1), st, node)

    def arith(s, op, a, b, n):
        if op in ('==', '!='):
            if a.s == 'o' or b.s == 'o':
                if a.s != 'o': a = oapp('null')
                if b.s != 'o': b = oapp('null')
                r = s.objeq(a, b)
            elif a.s == 'b' and b.s == 'b': r = beq(a, b)
            elif a.s == 'r' or b.s == 'r': r = feq(a, b)
            else: r = ieq(toint(a), toint(b))
            return r if op == '==' else bnot(r)
        if a.s == 'o' or b.s == 'o': raise Unsupported('pointer arithmetic')
        if a.s == 'b': a = toint(a)
        if b.s == 'b': b = toint(b)
        real = a.s == 'r' or b.s == 'r' or kind_of(n.t)[0] == 'r'
        if op == '+': return add(toreal(a), toreal(b)) if real else iadd(a, b)
        if op == '-': return sub(toreal(a), toreal(b)) if real else isub(a, b)
        if op == '*': return mul(toreal(a), toreal(b)) if real else imul(a, b)
        if op == '/': return mul(toreal(a), inv(toreal(b))) if real else idiv(a, b)
        if op == '%': return imod(a, b)
        if op in ('<', '<=', '>', '>='):
            if op in ('>', '>='):
                a, b = b, a
                op = '<' if op == '>' else '<='
            if a.s == 'r' or b.s == 'r':
                return flt(a, b) if op == '<' else fle(a, b)
            return ilt(a, b) if op == '<' else ile(a, b)
        if op == '&': return bapp('bitand', a, b)
        raise Unsupported('binop ' + op)

    def objeq(s, a, b):
        if a is b: return TRUE
        if a.op == 'oite': return bite(a.a[0], s.objeq(a.a[1], b), s.objeq(a.a[2], b))
        if b.op == 'oite': return bite(b.a[0], s.objeq(a, b.a[1]), s.objeq(a, b.a[2]))
        na = a.op == 'oapp' and a.a[0] == 'null'
        nb = b.op == 'oapp' and b.a[0] == 'null'
        if na or nb:
            o = b if na else a
            if o.op == 'oapp' and not o.a[0].startswith('maybe:'): return FALSE
        if a.op == 'oapp' and b.op == 'oapp' and a.a[0].startswith('str:') and b.a[0].startswith('str:'): return FALSE
        return oeq(a, b)

    def ex_CompoundAssignOperator(s, n, st):
        ref = s.ev(n.c[0], st)
        a = s.rval(ref, st)
        b = s.rval(s.ev(n.c[1], st), st)
        if isinstance(b, Opq) or isinstance(a, Opq): return ref
        if isinstance(b, Ten): b = s.scalar(b, st)
        v = s.arith(n.op[:-1], a, b, n)
        s.assign(ref, v, st, n)
        return ref

    def ex_ConditionalOperator(s, n, st):
        cv = s.ev(n.c[0], st)
        if isinstance(cv, Opq):
            return Opq('cond')          # profiling macros
        c = s.bool_(cv, st)
        d = s.decide(c, st)
        if d is True: return s.ev(n.c[1], st)
        if d is False: return s.ev(n.c[2], st)
        A = st.copy(); A.pc = st.pc + (c,)
        B = st.copy(); B.pc = st.pc + (bnot(c),)
        a = s.rval(s.ev(n.c[1], A), A); b = s.rval(s.ev(n.c[2], B), B)
        pre = st.pc
        m = s.merge(c, A, B, pre)
        st.cells = m.cells
        if isinstance(a, Opq) or isinstance(b, Opq): return Opq('cond')
        if isinstance(a, (VRef, MRef)): raise Unsupported('conditional container')
        return vite(c, a, b)

    def ex_ArraySubscriptExpr(s, n, st):
        b = s.ev(n.c[0], st)
        i = s.int_(s.ev(n.c[1], st), st)
        return s.subscript(b, i, st)

    def subscript(s, b, i, st, node=None):
        if isinstance(b, LRef) and b.view is None and b.elem is None and kind_of(b.typ)[0] == 'buf':
            k = kind_of(b.typ)[1]
            bk = st.env.get('#buf') or None
            return LRef(b.key + '[]', b.idx + (i,), 'double' if k == 'r' else 'int')
        if isinstance(b, VRef):
            et = kind_of(b.typ)[1]
            s.inrange(st, 'vector index ' + b.key, ic(0), i, isub(s.vsize(b, st), ic(1)), node)
            return s.lv(b.key + '[*]', b.idx + (i,), et)
        if isinstance(b, MRef):
            return s.map_at(b, i, st)
        if isinstance(b, LRef):
            return s.elem(b, i, None, st, node)
        if isinstance(b, Ten): return b.vec(i)
        if isinstance(b, Opq): return b
        raise Unsupported('subscript of %s' % type(b).__name__)

    def elem(s, b, i, j, st, node=None):
        if isinstance(b, Ten):
            return b.vec(i) if j is None else b.at(i, j)
        if b.elem is not None: raise Unsupported('elem of elem')
        if b.view is not None: R, C = b.view.rows, b.view.cols
        else:
            x = s.read(st, b.key, b.idx, b.typ)
            R, C = x.rows, x.cols
        if j is None:
            if isc(C) and icv(C) == 1: j = ic(0)
            elif isc(R) and icv(R) == 1: i, j = ic(0), i
            else: j = ic(0)
        s.inrange(st, 'element row', ic(0), i, isub(R, ic(1)), node)
        s.inrange(st, 'element column', ic(0), j, isub(C, ic(1)), node)
        if b.view is not None:
            i, j = b.view.fwd(i, j)
        return LRef(b.key, b.idx, b.typ, None, (i, j))

    def bufat(s, x, i):
        raise Unsupported('buffer')

    # ---- constructors
    def ex_CXXConstructExpr(s, n, st):
        t = strip_t(n.t)
        k, info = kind_of(t)
        args = [a for a in n.c if a is not None]
        if '(lambda at ' in n.t or t.startswith('std::function<'):
            vs = [s.ev(a, st) for a in args if a.k != 'CXXDefaultArgExpr']
            if len(vs) == 1 and isinstance(vs[0], Lambda): return vs[0]
            raise Unsupported('function object')
        if k in ('ten', 'view'):
            vals = [s.ev(a, st) for a in args if a.k != 'CXXDefaultArgExpr']
            if len(vals) == 1:
                v = vals[0]
                if isinstance(v, Ten): return v
                if isinstance(v, LRef) and kind_of(v.typ)[0] in ('ten', 'view') and v.elem is None:
                    return v
            return s.construct_ten(t, vals, st)
        if k == 'o' or k == 'iter':
            args = [a for a in args if a.k != 'CXXDefaultArgExpr']
            if len(args) == 1:
                return s.ev(args[0], st)
            if not args and is_ptr(t): return oapp('null')
            if k == 'o' and not is_ptr(t) and (short(t) in s.db.recs):
                return s.new_object(short(t), [s.ev(a, st) for a in args], st)
            return Opq('construct ' + t)
        if k == 'str':
            if args: return s.ev(args[0], st)
            return oapp('str:')
        if k == 'vec':
            vals = [s.ev(a, st) for a in args if a.k != 'CXXDefaultArgExpr']
            if len(vals) == 1 and isinstance(vals[0], VRef): return vals[0]
            return s.construct_vec(t, vals, st)
        if k in ('map', 'set') and len(args) == 1: return s.ev(args[0], st)
        if k == 'pair':
            vals = [s.ev(a, st) for a in args]
            if len(vals) == 2: return Pair(*vals)
            if len(vals) == 1: return vals[0]
        if k == 'fact':
            vals = [s.rval(s.ev(a, st), st) for a in args if a.k != 'CXXDefaultArgExpr']
            if vals and isinstance(vals[0], Ten):
                return s.decompose(t, vals[0], st)
            return Fact(t)
        if len(args) == 1: return s.ev(args[0], st)
        for a in args:
            if a.k == 'CXXThrowExpr': return s.ev(a, st)
        return Opq('construct ' + t)

    ex_CXXTemporaryObjectExpr = ex_CXXConstructExpr

    def construct_ten(s, t, vals, st):
        k, info = kind_of(t)
        vals = [v for v in vals if not isinstance(v, Opq)]
        nm = 'uninit%d' % nid()
        if not vals:
            r = ic(info[1] or 0) if info else ic(0)
            c = ic(info[2] if info and info[2] is not None else (1 if info and info[0] == 'v' else 0))
            return Ten(r, c, lambda i, j: rapp(nm, i, j))
        vv = [s.rval(v, st) for v in vals]
        if len(vv) == 1 and isinstance(vv[0], T) and vv[0].s == 'i':
            n = vv[0]
            if t.startswith('Eigen::DiagonalMatrix'):
                return Ten(n, n, lambda i, j: ite(ieq(i, j), rapp(nm, i), ZERO))
            if info and info[0] == 'v': return Ten(n, 1, lambda i, j: rapp(nm, i))
        if len(vv) == 2 and all(isinstance(v, T) and v.s == 'i' for v in vv):
            return Ten(vv[0], vv[1], lambda i, j: rapp(nm, i, j))
        if len(vv) == 2 and info and info[1] == 2:
            a, b = [toreal(s.scalar(v, st)) for v in vv]
            return Ten(2, 1, lambda i, j: ite(ieq(i, ic(0)), a, b))
        if len(vv) == 1 and isinstance(vv[0], Ten): return vv[0]
        # Map(pointer, size)
        if isinstance(vals[0], LRef) and kind_of(vals[0].typ)[0] == 'buf':
            raise Unsupported('map over buffer')
        if t.startswith('Eigen::Map<') and 2 <= len(vv) <= 3 and isinstance(vv[0], Ten) and all(isinstance(v, T) and v.s == 'i' for v in vv[1:]):
            # a map over a buffer of the same object: its size may not exceed the buffer; writing through the buffer afterwards is outside the subset
            cap, need = imul(vv[0].rows, vv[0].cols), vv[1]
            for v in vv[2:]: need = imul(need, v)
            s.oblig(st, 'mapped size fits the buffer', bnot(ilt(cap, need)))
            cols = vv[2] if len(vv) == 3 else ic(1)
            if isinstance(vals[0], LRef): s.mapped.add(vals[0].key)
            if vv[0].rows == vv[1] and vv[0].cols == cols: return Ten(vv[1], cols, vv[0].at)
            return Ten(vv[1], cols, lambda i, j: rapp(nm, i, j))
        raise Unsupported('construct tensor %s' % t)

    def construct_vec(s, t, vals, st):
        key = 'new:vec%d' % nid()
        v = VRef(key, (), strip_t(t))
        if vals:
            s.write(st, key + '.#', (), 'size_t', s.int_(vals[0], st))
            if len(vals) > 1:
                et = kind_of(t)[1]
                x = s.rval(vals[1], st)
                s.setbase(st, key + '[*]', et, lambda idx: x)
        else:
            s.write(st, key + '.#', (), 'size_t', ic(0))
        return v

    def new_object(s, cls, args, st):
        path = 'new:%s#%d' % (cls.split('<')[0], nid())
        lv = tuple(iv(v) for v in s.loopvars)
        o = oapp(path, *lv)
        s.cls[path] = cls
        h = s.contracts.get((cls, '<ctor>'))
        if h:
            h(s, st, o, args, None)
            return o
        cname = cls.split('<')[0]
        c, f = s.find_ctor(cls, len(args), args, st)
        if f is None: raise Unsupported('constructor of ' + cls)
        s.run(f, o, args, st)
        return o

    def find_ctor(s, cls, nargs, args, st):
        cname = cls.split('<')[0]
        cands = []
        for (c, nme, t), f in s.db.funcs.items():
            if c == cls and f and f['kind'] == 'CXXConstructorDecl':
                np = len(f['params'])
                nreq = len([p for p in f['params'] if not p.c])
                if nreq <= nargs <= np: cands.append(f)
        if not cands: return None, None
        def score(f):
            sc = 0
            for p, a in zip(f['params'], args):
                k = kind_of(p.t)[0]
                if isinstance(a, T): ok = (a.s == k) or (a.s == 'o' and k in ('o', 'str'))
                elif isinstance(a, (Ten,)): ok = k in ('ten', 'view')
                elif isinstance(a, LRef):
                    ka = kind_of(a.typ)[0]
                    if a.elem is not None: ka = 'r'
                    ok = ka == k or {ka, k} <= {'ten', 'view'}
                elif isinstance(a, VRef): ok = k == 'vec'
                else: ok = False
                sc += 1 if ok else -3
            return sc
        cands.sort(key=score, reverse=True)
        return cls, cands[0]

    def ctor_init(s, ini, this, st):
        if ini.op == 'delegating':
            e = ini.c[0]
            args = [s.ev(a, st) for a in e.c if a is not None and a.k != 'CXXDefaultArgExpr']
            c, f = s.find_ctor_sig(e, s.objcls(this), args, st)
            s.run(f, this, args, st); return
        if ini.op == 'base':
            e = ini.c[0] if ini.c else None
            if e is None or e.k not in ('CXXConstructExpr',): return
            args = [s.ev(a, st) for a in e.c if a is not None and a.k != 'CXXDefaultArgExpr']
            bcls = short(strip_t(ini.t))
            h = s.contracts.get((bcls, '<ctor>'))
            if h: h(s, st, this, args, None); return
            c, f = s.find_ctor(bcls, len(args), args, st)
            if f is None:
                if args: raise Unsupported('base constructor ' + bcls)
                return
            s.run(f, this, args, st); return
        if not ini.name: return
        path, idx = this.a
        key = path + '.' + ini.name
        k, info = kind_of(ini.t)
        e = ini.c[0] if ini.c else None
        v = s.ev(e, st) if e is not None else None
        if k == 'vec':
            if isinstance(v, VRef):
                s.copy_vec(st, key, idx, v)
            return
        if k in ('map', 'set'): return
        if k == 'o' and not is_ptr(ini.t):
            if isinstance(v, T) and v.op == 'oapp' and v.a[0].startswith('new:'):
                s.move_object(v, key, idx, st)
            return
        if v is None or isinstance(v, Opq) and k not in ('r', 'i', 'b', 'o'):
            return
        ref = LRef(key, idx, strip_t(ini.t))
        s.assign(ref, s.rval(v, st), st)

    def move_object(s, o, key, idx, st):
        src, six = o.a
        s.cls[key] = s.cls.get(src)
        for k in [k for k in st.cells if k == src or k.startswith(src + '.')]:
            c = st.cells[k]
            n = len(six)
            s.setbase(st, key + k[len(src):], c.typ, (lambda c: lambda ix: c.at(six + ix[len(idx):]))(c))

    # ---- calls
    def ex_CXXMemberCallExpr(s, n, st):
        callee = n.c[0]
        if callee.k != 'MemberExpr':
            raise Unsupported('member call through ' + callee.k)
        b = s.ev(callee.c[0], st) if callee.c else st.env['this']
        name = callee.name
        argn = [a for a in n.c[1:] if a is not None]
        if isinstance(b, LRef) and b.elem is None and kind_of(b.typ)[0] in ('o', 'iter', 'str') and b.view is None:
            b = s.rval(b, st)
        if isinstance(b, Opq):
            for a in argn:
                try: s.ev(a, st)
                except Unsupported: pass
            return Opq('call ' + name)
        if isinstance(b, T) and b.s == 'o':
            if name in ('get', 'lock'): return b
            if name == 'operator bool': return bnot(s.objeq(b, oapp('null')))
            if name == 'reset':
                return Opq('reset')
            if name == 'use_count': return iapp('use_count', b)
            if name == 'str' or name == 'c_str': return Opq('str')
            if b.a and isinstance(b.a[0], str) and b.a[0].startswith('str'): return Opq('string ' + name)
            return s.method(b, name, callee.ref, argn, n, st)
        from eig import eigen_method, container_method
        if isinstance(b, (VRef, MRef, Iter)):
            return container_method(s, b, name, argn, n, st)
        if isinstance(b, (LRef, Ten, Fact)) or isinstance(b, T):
            return eigen_method(s, b, name, argn, n, st)
        if isinstance(b, CommaInit) and name == 'finished': return Opq('')
        raise Unsupported('method %s on %s' % (name, type(b).__name__))

    def method(s, obj, name, ref, argn, node, st):
        if obj.op == 'oite' and s.decide(obj.a[0], st) is None: return s.method_split(obj, name, ref, argn, node, st)
        obj = s.deref(obj, st)
        return s.method_on(obj, name, ref, argn, node, st)

    def method_split(s, obj, name, ref, argn, node, st):
        """call on c ? a : b: both calls, merged on c"""
        c, pre = obj.a[0], st.pc
        res = []
        for g, o in ((c, obj.a[1]), (bnot(c), obj.a[2])):
            q = st.copy(); q.pc = pre + (g,)
            try: res.append((q, s.rval(s.method(o, name, ref, argn, node, q), q)))
            except AllThrow: res.append(None)
        A, B = res
        if A is None and B is None: raise AllThrow()
        if A is None or B is None:
            m, v = A or B
        else:
            m = s.merge(c, A[0], B[0], pre)
            ea = band(*A[0].pc[len(pre) + 1:]); eb = band(*B[0].pc[len(pre) + 1:])
            m.pc = pre + tuple(x for x in (bor(bnot(c), ea), bor(c, eb)) if x is not TRUE)
            v = None if A[1] is None and B[1] is None else vite(c, A[1], B[1])
        st.cells, st.pc = m.cells, m.pc
        return v

    def method_on(s, obj, name, ref, argn, node, st):
        cls = s.objcls(obj)
        static_cls = ref[0] if ref else cls
        if cls is None: cls = static_cls
        args = [s.ev(a, st) for a in argn]
        if any(isinstance(a, Opq) and a.why == 'default' for a in args):
            da = s.db.dargs.get((static_cls.split('<')[0], name, len(args)))    # defaults of the statically called declaration
            if da: args = [s.ev(e, st) if isinstance(a, Opq) and a.why == 'default' and e is not None else a for a, e in zip(args, da)]
        return s.call_method(obj, cls, name, args, st, static_cls, ref[2] if ref else None, node)

    def objarg(s, a, st):
        """a shared_ptr held in a cell, passed to a contract: the pointee"""
        if isinstance(a, LRef) and a.elem is None and a.view is None and a.typ and kind_of(a.typ)[0] == 'o': return s.rval(a, st)
        return a

    def call_method(s, obj, cls, name, args, st, static_cls=None, sig=None, node=None):
        # qualified base-class call from an override of the same method
        fr = s.frames[-1] if s.frames else None
        qualified = False
        if fr and static_cls and fr['name'] == name and obj is st.env.get('this') and static_cls != fr['cls'] \
                and static_cls in s.mro(fr['cls']) and sig_params(sig or '') == sig_params(fr['type']):
            qualified = True
        lookup = static_cls if qualified else cls
        if lookup and static_cls and not qualified and static_cls not in s.mro(short(lookup)) and static_cls in s.db.recs:
            # dynamic class unrelated to the static one (e.g. only the base is registered)
            if lookup in s.mro(static_cls): lookup = static_cls
        for c in s.mro(short(lookup)):
            h = s.contracts.get((c, name))
            if h is not None:
                r = h(s, st, obj, [s.objarg(a, st) for a in args], node)
                if r is not NotImplemented:
                    s.contract_used['%s::%s' % (c, name)] = s.contract_used.get('%s::%s' % (c, name), 0) + 1
                    return r
        c, f = s.find_method(lookup, name, len(args), sig)
        if f is None and static_cls:
            c, f = s.find_method(static_cls, name, len(args), sig)
        if f is None:
            h = s.contracts.get(name)
            if h is not None:
                return h(s, st, obj, [s.objarg(a, st) for a in args], node)
            raise Unsupported('no body or contract for %s::%s/%d' % (lookup, name, len(args)))
        return s.run(f, obj, args, st)

    def ex_CXXOperatorCallExpr(s, n, st):
        from eig import operator_call
        return operator_call(s, n, st)

    def ex_CallExpr(s, n, st):
        from eig import free_call
        return free_call(s, n, st)

    def decompose(s, kind, mat, st):
        return Fact(kind, mat, bapp('decomp_ok', oapp('K:' + kind.split('<')[0]), mat.lam()))


def is_ptr(t):
    t = strip_t(t)
    return t.endswith('*') or 'shared_ptr<' in t.split(' ')[0] or t.startswith('std::shared_ptr') or 'SmartPtr<' in t.split(' ')[0]


def sig_params(t):
    i = t.find('(')
    return t[i:t.rfind(')') + 1].replace('const ', '') if i >= 0 else t
