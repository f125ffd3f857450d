"""Frontend: extracts the verified text from /repo's *current* sources.

For every translation unit requested, clang parses the real sources (explicit
instantiations for `double` are produced from the *.cpp.in templates exactly as
the repository's CMake does) and prints its AST as JSON.  The JSON is reduced to
compact nodes, keyed by (class, function, signature).  Nothing is rewritten by
hand: what the verifier executes is the AST of the code that is compiled.
"""
import json, os, subprocess, sys, re, hashlib, concurrent.futures as cf, tempfile, shutil

REPO = os.environ.get('VERIF_REPO', '/repo')

EXCLUDED = ('codegen',)

# header-only templates that the repository never instantiates explicitly: the same explicit instantiation, generated here
SYNTH = {
    'numdiff/residual': ('numdiff/residual.hpp', ('class ResidualModelNumDiffTpl', 'struct ResidualDataNumDiffTpl')),
    'numdiff/constraint': ('numdiff/constraint.hpp', ('class ConstraintModelNumDiffTpl', 'struct ConstraintDataNumDiffTpl')),
    'numdiff/actuation': ('numdiff/actuation.hpp', ('class ActuationModelNumDiffTpl', 'struct ActuationDataNumDiffTpl')),
    'numdiff/control': ('numdiff/control.hpp', ('class ControlParametrizationModelNumDiffTpl', 'struct ControlParametrizationDataNumDiffTpl')),
}

SOLVERS = {
    'solver-base': 'solver-base.cpp', 'ddp': 'solvers/ddp.cpp', 'fddp': 'solvers/fddp.cpp',
    'box-ddp': 'solvers/box-ddp.cpp', 'box-fddp': 'solvers/box-fddp.cpp',
    'box-qp': 'solvers/box-qp.cpp', 'intro': 'solvers/intro.cpp', 'kkt': 'solvers/kkt.cpp',
    'ipopt': 'solvers/ipopt.cpp', 'ipopt-iface': 'solvers/ipopt/ipopt-iface.cpp',
    'stop-watch': 'utils/stop-watch.cpp', 'callbacks': 'utils/callbacks.cpp',
}


STATIC_IF = """#pragma once
namespace pinocchio { namespace internal {
enum ComparisonOperators { LT, LE, EQ, GE, GT };
template <typename L, typename R, typename T, typename E>
T if_then_else(const ComparisonOperators op, const L& l, const R& r, const T& t, const E& e) {
  bool c = op == LT ? l < r : op == LE ? l <= r : op == EQ ? l == r : op == GE ? l >= r : l > r;
  return c ? t : e;
}
} }
"""


def make_overlay(root):
    ov = os.path.join(root, 'ov')
    os.makedirs(os.path.join(ov, 'crocoddyl/core'), exist_ok=True)
    src = open(os.path.join(REPO, 'include/crocoddyl/core/pch.hpp')).read()
    out = '\n'.join(l for l in src.splitlines() if '#include <pinocchio/' not in l or 'static-if' in l)
    open(os.path.join(ov, 'crocoddyl/core/pch.hpp'), 'w').write(out + '\n')
    os.makedirs(os.path.join(ov, 'crocoddyl/multibody'), exist_ok=True)
    src = open(os.path.join(REPO, 'include/crocoddyl/multibody/pch.hpp')).read()
    open(os.path.join(ov, 'crocoddyl/multibody/pch.hpp'), 'w').write('\n'.join(l for l in src.splitlines() if '#include <pinocchio/' not in l) + '\n')
    # pinocchio is not installed: its branch-free conditional is the only entity of it that the core library uses
    os.makedirs(os.path.join(ov, 'pinocchio/utils'), exist_ok=True)
    open(os.path.join(ov, 'pinocchio/utils/static-if.hpp'), 'w').write(STATIC_IF)
    open(os.path.join(ov, 'crocoddyl/config.hpp'), 'w').write(
        '#ifndef VERIF_CFG\n#define VERIF_CFG\n#define CROCODDYL_DLLAPI\n'
        '#define CROCODDYL_EXPLICIT_INSTANTIATION_DECLARATION_DLLAPI\n'
        '#define CROCODDYL_EXPLICIT_INSTANTIATION_DEFINITION_DLLAPI\n#endif\n')
    return ov


def flags(ov):
    return ['-std=c++14', '-I' + ov, '-I' + os.path.join(REPO, 'include'), '-I/usr/include/eigen3',
            '-I/usr/include/coin', '-DCROCODDYL_WITH_IPOPT', '-DHAVE_CSTDDEF', '-w']


def list_units():
    """name -> path of every compilable core unit in the current tree"""
    units = {}
    base = os.path.join(REPO, 'src/core')
    for d, _, fs in os.walk(base):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), base)
            if any(e in rel for e in EXCLUDED):
                continue
            m = re.match(r'(.*)\.cpp(_fptype)?\.in$', rel)
            if m:
                units[m.group(1)] = os.path.join(d, f)
    for k in SYNTH:
        units.setdefault(k, None)
    for k, v in SOLVERS.items():
        units[k] = os.path.join(base, v)
    return units


def unit_source(name, path, gen):
    if path is None:
        h, es = SYNTH[name]
        o = os.path.join(gen, name.replace('/', '_') + '.cpp')
        open(o, 'w').write('#include "crocoddyl/core/%s"\nnamespace crocoddyl {\n%s\n}\n' % (h, '\n'.join('template %s<double>;' % e for e in es)))
        return o
    if path.endswith('.in'):
        o = os.path.join(gen, name.replace('/', '_') + '.cpp')
        open(o, 'w').write(open(path).read().replace('@SCALAR_TYPE@', 'double'))
        return o
    return path


# ------------------------------------------------------------------ AST nodes
class N:
    __slots__ = ('k', 't', 'name', 'op', 'c', 'ref', 'x', 'line')

    def __init__(s, k, t='', name='', op='', c=(), ref=None, x=None, line=0):
        s.k = k; s.t = t; s.name = name; s.op = op; s.c = c; s.ref = ref; s.x = x; s.line = line

    def __repr__(s):
        return '%s(%s)' % (s.k, s.name or s.op or s.t)


SKIP = {'ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr',
        'ParenExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'FullExpr'}


def qt(n):
    t = n.get('type')
    if not t:
        return ''
    return t.get('desugaredQualType') or t.get('qualType', '')


class Reducer:
    def __init__(s):
        s.decls = {}      # id -> (class, name, type)
        s.line = 0
        s.file = ''

    def red(s, n):
        k = n.get('kind')
        if k is None:
            return None
        if k in SKIP:
            inner = n.get('inner', [])
            if k == 'ImplicitCastExpr' and n.get('castKind') in ('IntegralToBoolean', 'FloatingToBoolean',
                                                                'PointerToBoolean', 'IntegralToFloating',
                                                                'FloatingToIntegral'):
                c = s.red(inner[0])
                return N('Cast', qt(n), op=n['castKind'], c=(c,))
            return s.red(inner[0]) if inner else None
        loc = n.get('range', {}).get('begin', {})
        ln = loc.get('line') or loc.get('expansionLoc', {}).get('line')
        if ln:
            s.line = ln
        line = s.line
        c = tuple(s.red(x) if x else None for x in n.get('inner', []))
        r = N(k, qt(n), n.get('name', ''), n.get('opcode', ''), c, line=line)
        if k == 'DeclRefExpr':
            rd = n.get('referencedDecl', {})
            r.ref = (rd.get('id'), rd.get('kind'), rd.get('name'), qt(rd))
            r.name = rd.get('name', '')
        elif k == 'MemberExpr':
            r.ref = n.get('referencedMemberDecl')
            r.op = n.get('_src', '')
            r.x = n.get('isArrow', False)
        elif k in ('IntegerLiteral', 'FloatingLiteral', 'StringLiteral', 'CXXBoolLiteralExpr', 'CharacterLiteral'):
            r.x = n.get('value')
        elif k == 'VarDecl' or k == 'ParmVarDecl' or k == 'BindingDecl':
            r.ref = n.get('id'); r.x = n.get('init')
        elif k in ('UnaryOperator',):
            r.x = n.get('isPostfix', False)
        elif k in ('IfStmt',):
            r.x = (n.get('hasElse', False), n.get('hasInit', False), n.get('hasVar', False))
        elif k in ('CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXDynamicCastExpr', 'CXXConstCastExpr'):
            r.x = n.get('castKind')
        elif k == 'CXXCtorInitializer':
            if 'anyInit' in n:
                r.name = n['anyInit'].get('name', '')
                r.t = qt(n['anyInit'])
            elif 'baseInit' in n:
                r.op = 'base'; r.t = n['baseInit'].get('desugaredQualType') or n['baseInit'].get('qualType')
            elif 'delegatingInit' in n:
                r.op = 'delegating'; r.t = n['delegatingInit'].get('desugaredQualType') or n['delegatingInit'].get('qualType')
        elif k in ('UnaryExprOrTypeTraitExpr',):
            r.name = n.get('name', '')
        elif k == 'CXXMethodDecl':
            r.ref = n.get('id')
        return r


# explicit template arguments are not part of clang's JSON: recovered from the source range
TEMPLATED = {'lpNorm'}
_cur = ['']
_texts = {}


def src_text(f, a, b):
    if f not in _texts:
        try:
            _texts[f] = open(f, 'rb').read()
        except OSError:
            _texts[f] = b''
    return _texts[f][a:b].decode('utf8', 'replace')


def track_files(o):
    if isinstance(o, dict):
        f = o.get('file')
        if f: _cur[0] = f
        isl = o.get('kind') == 'MemberExpr' and o.get('name') in TEMPLATED
        for k, v in list(o.items()):
            if isinstance(v, (dict, list)) and k != 'includedFrom': track_files(v)
            if isl and k == 'range':
                b, e = v.get('begin', {}), v.get('end', {})
                b = b.get('expansionLoc', b); e = e.get('expansionLoc', e)
                if 'offset' in b and 'offset' in e:
                    o['_src'] = src_text(_cur[0], b['offset'], e['offset'] + e.get('tokLen', 1))[-60:]
    elif isinstance(o, list):
        for v in o: track_files(v)


FUNCK = {'CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'}
RECK = {'CXXRecordDecl', 'ClassTemplateSpecializationDecl'}


def clsname(n):
    nm = n.get('name', '')
    if n.get('kind') == 'ClassTemplateSpecializationDecl':
        args = []
        for a in n.get('inner', []):
            if a.get('kind') == 'TemplateArgument':
                t = a.get('type', {})
                args.append(t.get('desugaredQualType') or t.get('qualType') or str(a.get('value', '?')))
        nm += '<' + ', '.join(args) + '>'
    return nm


def process_unit(args):
    name, src, fl = args
    p = subprocess.run(['clang++'] + fl + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang',
                       '-ast-dump-filter=crocoddyl', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        return name, None, p.stderr.decode()[-4000:]
    txt = p.stdout.decode()
    dec = json.JSONDecoder()
    i = 0
    roots = []
    L = len(txt)
    while i < L:
        while i < L and txt[i] in ' \n\r\t':
            i += 1
        if i >= L:
            break
        o, i = dec.raw_decode(txt, i)
        roots.append(o)
    del txt
    sys.setrecursionlimit(20000)
    _cur[0] = src
    for r in roots:
        track_files(r)
    R = Reducer()
    funcs = {}
    recs = {}
    idcls = {}

    # pass 1: record ids
    def walk1(n, cls, tmpl):
        k = n.get('kind')
        if k in RECK:
            cn = clsname(n)
            idcls[n.get('id')] = cn
            if not tmpl:
                rec = recs.setdefault(cn, {'bases': [], 'fields': []})
                for b in n.get('bases', []):
                    bt = b['type'].get('desugaredQualType') or b['type'].get('qualType')
                    if bt not in rec['bases']:
                        rec['bases'].append(bt)
            for c in n.get('inner', []):
                if c.get('kind') == 'FieldDecl' and not tmpl:
                    f = (c.get('name'), qt(c))
                    if f not in rec['fields']:
                        rec['fields'].append(f)
                walk1(c, cn, tmpl)
        elif k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
            first = True
            for c in n.get('inner', []):
                ck = c.get('kind')
                if ck in RECK or ck in FUNCK:
                    pat = (ck == 'CXXRecordDecl') or (k == 'FunctionTemplateDecl' and first)
                    if ck in FUNCK or ck == 'CXXRecordDecl':
                        first = False
                    walk1(c, cls, tmpl or pat)
                elif ck in ('NamespaceDecl',):
                    walk1(c, cls, tmpl)
        elif k in FUNCK:
            pc = cls
            if n.get('parentDeclContextId') in idcls:
                pc = idcls[n['parentDeclContextId']]
            R.decls[n.get('id')] = (pc, n.get('name', ''), qt(n), tmpl)
        elif k == 'FieldDecl':
            R.decls[n.get('id')] = (cls, n.get('name', ''), qt(n), tmpl)
        elif k in ('NamespaceDecl', 'LinkageSpecDecl', 'TranslationUnitDecl'):
            for c in n.get('inner', []):
                walk1(c, cls, tmpl)
        elif k == 'VarDecl':
            R.decls[n.get('id')] = (cls, n.get('name', ''), qt(n), tmpl)
        elif k == 'EnumDecl':
            for c in n.get('inner', []):
                R.decls[c.get('id')] = (cls, c.get('name', ''), qt(c), tmpl)

    for r in roots:
        walk1(r, '', False)

    fid = {}

    defaults = {}

    def walkd(n, cls):
        # default arguments are written in the in-class declarations of the templates
        k = n.get('kind')
        if k == 'ClassTemplateDecl':
            for c in n.get('inner', []):
                if c.get('kind') == 'CXXRecordDecl':
                    walkd(c, n.get('name', '')); break
        elif k in RECK:
            for c in n.get('inner', []):
                if c.get('kind') in FUNCK:
                    ps = [q for q in c.get('inner', []) if q.get('kind') == 'ParmVarDecl']
                    ds = [([q for q in p.get('inner', []) if not q.get('kind', '').endswith('Attr')] or [None])[0] if p.get('init') else None for p in ps]
                    if any(d is not None for d in ds):
                        defaults.setdefault((cls, c.get('name', '').split('<')[0], len(ps)), []).append(ds)
        elif k in ('NamespaceDecl', 'LinkageSpecDecl', 'TranslationUnitDecl'):
            for c in n.get('inner', []): walkd(c, cls)
    for r in roots: walkd(r, '')

    def walk2(n, cls, tmpl):
        k = n.get('kind')
        if k in RECK:
            cn = clsname(n)
            for c in n.get('inner', []):
                walk2(c, cn, tmpl)
        elif k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
            first = True
            for c in n.get('inner', []):
                ck = c.get('kind')
                if ck in RECK or ck in FUNCK:
                    pat = (ck == 'CXXRecordDecl') or (k == 'FunctionTemplateDecl' and first)
                    if ck in FUNCK or ck == 'CXXRecordDecl':
                        first = False
                    if not (tmpl or pat):
                        walk2(c, cls, False)
        elif k in FUNCK:
            if tmpl:
                return
            d = R.decls.get(n.get('id'))
            pc = d[0] if d else cls
            if d and d[3]:
                return
            if n.get('parentDeclContextId') and n['parentDeclContextId'] not in idcls and pc == '':
                pass
            inner = n.get('inner', [])
            body = None
            params = []
            inits = []
            for c in inner:
                ck = c.get('kind')
                if ck == 'ParmVarDecl':
                    R.line = 0
                    params.append(R.red(c))
                elif ck == 'CompoundStmt':
                    body = c
                elif ck == 'CXXCtorInitializer':
                    inits.append(c)
            key = (pc, n.get('name', ''), qt(n))
            if body is None:
                funcs.setdefault(key, None)
                if n.get('virtual') or n.get('pure'):
                    pass
                return
            dd = defaults.get((pc.split('<')[0], n.get('name', '').split('<')[0], len(params)), [])
            if len(dd) == 1:
                for q, e in zip(params, dd[0]):
                    if e is not None and not q.c:
                        R.line = 0
                        q.c = (R.red(e),)
            if '<dependent type>' in json.dumps(body)[:0]:
                return
            loc = n.get('loc', {})
            R.line = loc.get('line') or loc.get('expansionLoc', {}).get('line') or 0
            f = {'cls': pc, 'name': n.get('name', ''), 'type': qt(n), 'params': params,
                 'body': R.red(body), 'inits': [R.red(c) for c in inits], 'kind': k,
                 'unit': name}
            funcs[key] = f
        elif k in ('NamespaceDecl', 'LinkageSpecDecl', 'TranslationUnitDecl'):
            for c in n.get('inner', []):
                walk2(c, cls, tmpl)

    for r in roots:
        walk2(r, '', False)
    # resolve member decl ids used by the retained functions
    used = {}

    def coll(n):
        if n is None:
            return
        if n.k == 'MemberExpr' and n.ref:
            d = R.decls.get(n.ref)
            n.ref = d[:3] if d else None
        for c in n.c:
            coll(c)

    for f in funcs.values():
        if f:
            coll(f['body'])
            for i in f['inits']:
                coll(i)
            for p in f['params']:
                coll(p)
    dargs = {}
    for k, dd in defaults.items():
        if len(dd) == 1:
            R.line = 0
            dargs[k] = [R.red(e) if e is not None else None for e in dd[0]]
            for e in dargs[k]: coll(e)
    return name, (funcs, recs, dargs), None


class DB:
    def __init__(s):
        s.funcs = {}
        s.recs = {}
        s.by = {}
        s.errors = {}
        s.dargs = {}   # (class template, method, arity) -> default arguments of the declaration

    def add(s, res):
        name, data, err = res
        if data is None:
            s.errors[name] = err
            return
        funcs, recs, dargs = data
        s.dargs.update(dargs)
        for k, f in funcs.items():
            if f is not None or k not in s.funcs:
                if s.funcs.get(k) is None:
                    s.funcs[k] = f
        for c, r in recs.items():
            q = s.recs.setdefault(c, {'bases': [], 'fields': []})
            for b in r['bases']:
                if b not in q['bases']:
                    q['bases'].append(b)
            for fl in r['fields']:
                if fl not in q['fields']:
                    q['fields'].append(fl)

    def index(s):
        s.by = {}
        for (c, n, t), f in s.funcs.items():
            s.by.setdefault((c, n), []).append((t, f))


def build_db(units, workdir=None, jobs=8, extra=()):
    own = workdir is None
    if own:
        workdir = tempfile.mkdtemp(prefix='verif_fe_')
    try:
        ov = make_overlay(workdir)
        allu = list_units()
        fl = flags(ov) + list(extra)
        work = []
        for u in units:
            if u not in allu:
                continue
            work.append((u, unit_source(u, allu[u], workdir), fl))
        db = DB()
        db.missing = [u for u in units if u not in allu]
        with cf.ProcessPoolExecutor(min(jobs, max(1, len(work)))) as ex:
            for res in ex.map(process_unit, work):
                db.add(res)
        db.index()
        return db
    finally:
        if own:
            shutil.rmtree(workdir, ignore_errors=True)


def show(n, ind=0, out=None):
    if n is None:
        print('  ' * ind + 'None'); return
    print('  ' * ind + n.k, n.name, n.op, ('"%s"' % n.t)[:90], n.x if n.x is not None else '',
          ('ref=%s' % (n.ref,))[:120] if n.ref else '')
    for c in n.c:
        show(c, ind + 1)


if __name__ == '__main__':
    import pickle, time
    t = time.time()
    us = sys.argv[2:] or list(list_units())
    db = build_db(us)
    print('errors', db.errors, 'missing', db.missing, 'funcs', len(db.funcs), time.time() - t)
    pickle.dump(db, open(sys.argv[1], 'wb'))
