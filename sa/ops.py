"""Constructors for operation terms, with the canonicalisations that make the
value numbering insensitive to spelling (np.size(x) / x.size, `not any(x<b)` /
`all(x>=b)`, range(len(x)) loops / direct iteration, ...)."""
from .terms import *
from . import terms as _t
import math

ARITH = {'add', 'sub', 'mul', 'div', 'pow', 'floordiv', 'mod', 'matmul', 'neg'}
_PYF = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
    'div': lambda a, b: a / b, 'pow': lambda a, b: a ** b,
    'floordiv': lambda a, b: a // b, 'mod': lambda a, b: a % b}
NUMERIC_CAST = {'builtins.int', 'builtins.float', 'builtins.bool', 'builtins.str'}


def _num(t):
    return isk(t) and isinstance(kval(t), (int, float))


def seq(kind, parts):
    """Normal form of a list/tuple value: parts are ('e', x) or ('s', xs)."""
    out = []
    for k, v in parts:
        if k == 's' and v.op in ('list', 'tuple'):
            out += list(v.args[0])
        elif k == 's' and v.op == 'gam' and all(
                l.op in ('list', 'tuple') and not l.args[0] for _, l in v.args[0]):
            continue
        else:
            while k == 's' and v.op == 'app' and v.args[0] in ('builtins.list', 'builtins.tuple') and len(v.args[1]) == 1:
                v = v.args[1][0]
            out.append((k, v))
    if len(out) == 1 and out[0][0] == 's' and out[0][1].op == 'sym' and 'tuple' in out[0][1].args[1]:
        return out[0][1] if kind == 'tuple' else app('builtins.list', (out[0][1],))
    return mk(kind, tuple(out))


def is_seq(t):
    return t.op in ('list', 'tuple')


def simple_elems(t):
    """Elements of a sequence literal without splices, else None."""
    if t.op in ('list', 'tuple') and all(k == 'e' for k, _ in t.args[0]):
        return [v for _, v in t.args[0]]
    return None


def pair_elems(t, n=2):
    """The n values of a sequence of n values, whichever branch made it."""
    parts = [(g, simple_elems(l)) for g, l in leaves(t)]
    if any(e is None or len(e) != n for _, e in parts):
        return None
    return [gam([(g, e[i]) for g, e in parts]) for i in range(n)]


def seqlike(t):
    return t.op in ('list', 'tuple', 'map', 'fmap', 'setseq') or (
        t.op == 'app' and t.args[0] in ('dict.keys', 'dict.items', 'dict.values', 'range',
                                        'zip', 'enumerate', 'reversed', 'sorted'))


def _strip_copies(t):
    while t.op == 'app' and t.args[0] in ('np.array', 'np.asarray', 'np.atleast_1d', 'np.ravel') \
            and alit(t) is None and len(t.args[1]) == 1 and not t.args[2]:
        t = t.args[1][0]
    return t


def _tuplelike(t):
    return t.op == 'tuple' or t.op == 'sym' and 'tuple' in t.args[1] or t.op == 'app' and t.args[0] in (
        'np.shape', 'builtins.tuple')


def scalarlike(t):
    """Values that numpy stores as one array element."""
    return t.op in ('k', 'B') and not (t.op == 'k' and isinstance(kval(t), str)) or t.op == 'sym' and any(
        s in t.args[1] for s in ('pattern', 'bool', 'int', 'scalar', 'finite'))


def alit(t):
    """Elements of a one-dimensional array literal of scalars."""
    if t.op == 'app' and t.args[0] == 'np.array' and len(t.args[1]) == 1 and not t.args[2]:
        e = simple_elems(t.args[1][0])
        if e is not None and all(scalarlike(x) for x in e):
            return e
    return None


def mkalit(elems):
    return mk('app', 'np.array', (mk('list', tuple(('e', x) for x in elems)),), ())


def _arr_elems(t):
    """Elements of an array literal, or of a list or tuple literal numpy would make one of."""
    e = alit(t)
    if e is None:
        e = simple_elems(t)
        if e is not None and not all(scalarlike(x) for x in e):
            e = None
    return e


def _numconst(e):
    return e is not None and all(_num(x) for x in e)


def _alit_app(name, args, kw):
    """Operations on array literals."""
    a = args[0]
    n = len(args)
    if name in ('np.array', 'np.asarray', 'np.atleast_1d', 'np.asanyarray') and n == 1 and set(k for k, _ in kw) <= {'dtype'}:
        e = _arr_elems(a)
        dt = dict(kw).get('dtype')
        if dt is not None and e == [] and a.op == 'list':
            return None
        if dt is not None and not (dt.op == 'ext' and dt.args[0] in ('builtins.int', 'builtins.object', 'builtins.bool')):
            return None
        if e is None and name == 'np.atleast_1d' and scalarlike(a):
            e = [a]
        if dt is not None and dt.args[0].endswith('bool'):
            b = lambda x: x if x.op == 'B' or x.op == 'sym' and 'bool' in x.args[1] else K(bool(kval(x))) if isk(x) else None
            if e is None and name != 'np.atleast_1d' and scalarlike(a):
                return b(a)
            if e is None or any(b(x) is None for x in e):
                return None
            return mkalit([b(x) for x in e])
        if e is not None and (dt is None or alit(a) is not None or dt.args[0].endswith('object') or
                              dt.args[0].endswith('int') and _numconst(e) and all(type(kval(x)) is int for x in e)):
            return mkalit(e)
        return None
    if name == 'astype' and n == 2 and not kw and alit(a) is not None and args[1].op == 'ext' and args[1].args[0] == 'builtins.bool':
        return _alit_app('np.array', (a,), (('dtype', args[1]),))
    if name == 'np.arange' and not kw and all(_num(x) and type(kval(x)) is int for x in args):
        r = range(*[kval(x) for x in args])
        return mkalit([K(i) for i in r]) if len(r) <= 64 else None
    if name == 'np.unique' and n == 1 and kw and all(k in ('return_index', 'return_inverse', 'return_counts') and isk(v) for k, v in kw):
        e = _arr_elems(a)
        if not _numconst(e):
            return None
        v = [kval(x) for x in e]
        u = sorted(set(v))
        rs = {'return_index': [v.index(x) for x in u], 'return_inverse': [u.index(x) for x in v], 'return_counts': [v.count(x) for x in u]}
        on = [k for k in ('return_index', 'return_inverse', 'return_counts') if dict(kw).get(k, FALSE) is TRUE]
        out = [mkalit([K(x) for x in r]) for r in [u] + [rs[k] for k in on]]
        return seq('tuple', [('e', x) for x in out]) if on else out[0]
    if name in ('np.diff', 'np.cumsum', 'np.bincount', 'np.flip', 'np.count_nonzero') and n == 1 and not kw:
        e = _arr_elems(a)
        if not _numconst(e) or not all(type(kval(x)) is int for x in e):
            return None
        v = [kval(x) for x in e]
        if name == 'np.count_nonzero':
            return K(sum(x != 0 for x in v))
        if name == 'np.bincount' and (not v or min(v) < 0 or max(v) > 64):
            return None
        r = {'np.diff': lambda: [y - x for x, y in zip(v, v[1:])], 'np.cumsum': lambda: [sum(v[:i + 1]) for i in range(len(v))],
             'np.bincount': lambda: [v.count(i) for i in range(max(v) + 1)], 'np.flip': lambda: v[::-1]}[name]()
        return mkalit([K(x) for x in r])
    if name in ('np.isin', 'np.in1d', 'np.setdiff1d', 'np.intersect1d', 'np.union1d') and n == 2 and not kw:
        x, y = _arr_elems(a), _arr_elems(args[1])
        if not _numconst(x) or not _numconst(y):
            return None
        x, y = [kval(z) for z in x], [kval(z) for z in y]
        if name in ('np.isin', 'np.in1d'):
            return mkalit([K(z in y) for z in x])
        r = {'np.setdiff1d': set(x) - set(y), 'np.intersect1d': set(x) & set(y), 'np.union1d': set(x) | set(y)}[name]
        return mkalit([K(z) for z in sorted(r)])
    if name == 'len' and n == 1 and a.op == 'app' and a.args[0] in ('builtins.set', 'builtins.frozenset') and len(a.args[1]) == 1:
        e = _arr_elems(a.args[1][0])
        if _numconst(e):
            return K(len({kval(x) for x in e}))
        return None
    if name in ('np.argsort', 'np.sort', 'np.unique', 'sorted') and n == 1 and not [k for k, v in kw if k != 'kind']:
        e = _arr_elems(a)
        if _numconst(e):
            v = [kval(x) for x in e]
            if name == 'np.argsort':
                r = sorted(range(len(v)), key=lambda i: v[i])
            elif name == 'np.unique':
                r = sorted(set(v))
            else:
                r = sorted(v)
            return mk('list', tuple(('e', K(x)) for x in r)) if name == 'sorted' else mkalit([K(x) for x in r])
        return None
    if name in ('np.max', 'np.min', 'builtins.max', 'builtins.min') and n == 1 and not kw:
        e = _arr_elems(a)
        if e and _numconst(e):
            v = [kval(x) for x in e]
            return K(max(v) if name.endswith('max') else min(v))
        return None
    if name in ('np.maximum', 'np.minimum', 'builtins.max', 'builtins.min') and n == 2 and not kw and isk(a) and isk(args[1]):
        x, y = kval(a), kval(args[1])
        if all(type(z) in (int, float) and z == z for z in (x, y)):
            return K(max(x, y) if name.endswith(('maximum', 'max')) else min(x, y))
        return None
    if name == 'np.array_equal' and n == 2:
        x, y = _arr_elems(a), _arr_elems(args[1])
        if _numconst(x) and _numconst(y):
            return K([kval(p) for p in x] == [kval(p) for p in y])
        if not kw and (app('T', (a,)) is args[1] or app('T', (args[1],)) is a):
            return app('not', (app('np.any', (app('ne', (a, args[1])),)),))
        return None
    if name in ('np.size', 'len'):
        e = alit(a)
        return K(len(e)) if e is not None else None
    if name == 'np.shape':
        e = alit(a)
        return seq('tuple', [('e', K(len(e)))]) if e is not None else None
    if name in ('add', 'sub', 'mul', 'lt', 'le', 'eq', 'ne') and n == 2:
        x, y = alit(a), alit(args[1])
        if x is None and y is None:
            return None
        if x is None and _num(a):
            x = [a] * len(y)
        if y is None and _num(args[1]):
            y = [args[1]] * len(x)
        if _numconst(x) and _numconst(y) and len(x) == len(y):
            return mkalit([app(name, (p, q)) for p, q in zip(x, y)])
        return None
    return None


def same_shape(t):
    """A term of the same shape with copies and element updates removed."""
    while True:
        if t.op == 'app' and t.args[0] == 'copy' and len(t.args[1]) == 1:
            t = t.args[1][0]
        elif t.op == 'store':
            t = t.args[0]
        elif t.op == 'gam':
            ls = {same_shape(l) for _, l in t.args[0]}
            if len(ls) != 1:
                return t
            t = ls.pop()
        else:
            return t


def is_eigh(t, i):
    return t.op == 'sub' and t.args[1] is K(i) and t.args[0].op == 'app' and t.args[0].args[0] in (
        'np.linalg.eigh', 'np.linalg.eig')


def app(name, args, kw=()):
    """Operation term with simplification."""
    args = tuple(args)
    kw = tuple(sorted(kw, key=lambda p: p[0]))
    n = len(args)
    if name == 'np.dot' and n == 2 and not kw:
        if any((ndim_of(x) or 9) <= 2 for x in args):
            name = 'matmul'
    if n:
        r = _alit_app(name, args, kw)
        if r is not None:
            return r
    if name in _PYF and n == 2:
        a, b = args
        if _num(a) and _num(b):
            try:
                r = _PYF[name](kval(a), kval(b))
                if isinstance(r, (int, float)):
                    return K(r)
            except Exception:
                pass
        if isk(a) and isk(b) and isinstance(kval(a), str) and isinstance(kval(b), str) and name == 'add':
            return K(kval(a) + kval(b))
        if name == 'add' and (is_seq(a) or is_seq(b)):
            kind = a.op if is_seq(a) else b.op
            if not (_num(a) or _num(b)):
                return seq(kind, [('s', a), ('s', b)])
        if name == 'add' and _tuplelike(a) and _tuplelike(b):
            return seq('tuple', [('s', a), ('s', b)])
        if name == 'add' and a.op in ('map', 'fmap') and b.op in ('map', 'fmap'):
            return seq('list', [('s', a), ('s', b)])
        if name == 'add' and _num(a) and kval(a) == 0 and type(kval(a)) is int and _intlike(b):
            return b
        if name == 'add' and _num(b) and kval(b) == 0 and type(kval(b)) is int and _intlike(a):
            return a
    if name == 'mod' and n == 2 and args[1] is K(1) and _intlike(args[0]):
        return K(0)
    if name == 'np.isreal' and n == 1 and args[0].op == 'sym' and {'real', 'int'} & set(args[0].args[1]):
        return K(True)
    if name in ('np.isinf', 'np.isfinite', 'np.isnan', 'np.isposinf', 'np.isneginf') and n == 1 and not kw:
        a = args[0]
        while a.op == 'app' and a.args[0] in ('np.abs', 'neg') and a.args[1][0].op == 'sym':
            a = a.args[1][0]
        if _num(a):
            v = float(kval(a))
            return K({'np.isinf': math.isinf(v), 'np.isfinite': math.isfinite(v), 'np.isnan': v != v, 'np.isposinf': v == math.inf,
                      'np.isneginf': v == -math.inf}[name])
        if finite(a) or a.op == 'sym' and 'int' in a.args[1]:
            return K(name == 'np.isfinite')
    if name == 'np.abs' and n == 1 and not kw and _num(args[0]):
        return K(abs(kval(args[0])))
    if name == 'neg' and n == 1 and _num(args[0]):
        return K(-kval(args[0]))
    if name == 'pos' and n == 1:
        return args[0]
    if name in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and n == 2:
        a, b = args
        if name == 'gt':
            return app('lt', (b, a))
        if name == 'ge':
            return app('le', (b, a))
        if isk(a) and isk(b):
            va, vb = kval(a), kval(b)
            try:
                return K({'lt': lambda: va < vb, 'le': lambda: va <= vb,
                          'eq': lambda: va == vb, 'ne': lambda: va != vb}[name]())
            except Exception:
                pass
        if name in ('eq', 'ne') and a.uid > b.uid:
            a, b = b, a
            args = (a, b)
        if name == 'ne':
            return mk('app', 'ne', (a, b), ())
        r = _sorts_cmp(name, a, b)
        if r is not None:
            return K(r)
    if name in ('len', 'np.shape', 'np.size', 'np.ndim') and n == 1 and not kw:
        a = same_shape(args[0])
        if a is not args[0] and a.op not in ('dict', 'dictset', 'dictdel', 'cell'):
            return app(name, (a,))
    if name == 'len' and n == 1:
        a = args[0]
        if is_seq(a) and all(k == 'e' for k, _ in a.args[0]):
            return K(len(a.args[0]))
        if a.op == 'map' and a.args[3] == 1:
            return domlen(a.args[0])
        if a.op == 'k' and isinstance(kval(a), str):
            return K(len(kval(a)))
        if a.op == 'app' and a.args[0] in ('dict.keys', 'dict.items', 'dict.values', 'builtins.list',
                                           'builtins.tuple', 'sorted', 'reversed'):
            return app('len', (a.args[1][0],))
        if a.op == 'app' and a.args[0] == 'ndindex' and len(a.args[1]) == 1:
            return app('np.prod', a.args[1])
        if a.op == 'app' and a.args[0] == 'np.shape':
            return app('np.ndim', a.args[1])
        if a.op == 'sub' and a.args[0].op == 'app' and a.args[0].args[0] == 'ndindex' and a.args[1].op == 'iota':
            return app('len', (a.args[0].args[1][0],))
        if is_seq(a) and any(k == 's' for k, _ in a.args[0]):
            r = K(sum(1 for k, _ in a.args[0] if k == 'e'))
            for k, v in a.args[0]:
                if k == 's':
                    r = app('add', (r, app('len', (v,)))) if r is not K(0) else app('len', (v,))
            return r
        if a.op == 'dict' and all(k == 'e' for k, _ in a.args[0]):
            return K(len(a.args[0]))
        if a.op == 'app' and a.args[0] in ('np.eye', 'np.identity', 'np.zeros', 'np.ones', 'np.empty', 'np.full'):
            sh = shape_of(a)
            if sh is not None and sh.op == 'tuple' and sh.args[0] and sh.args[0][0][0] == 'e':
                return sh.args[0][0][1]
    if name == 'np.shape' and n == 1:
        s = shape_of(args[0])
        if s is not None:
            return s
    if name == 'np.size' and n == 1 and not kw:
        if args[0].op == 'app' and args[0].args[0] in ('np.ravel', 'np.flatten', 'np.reshape', 'T') and args[0].args[1]:
            return app('np.size', (args[0].args[1][0],))
        s = size_of(args[0])
        if s is not None:
            return s
    if name == 'np.ndim' and n == 1:
        s = ndim_of(args[0])
        if s is not None:
            return K(s)
    if name == 'np.any' and n == 1 and not kw:
        b = _strip_copies(args[0])
        if b.op == 'k':
            return K(bool(kval(b)))
        if b.op == 'app' and b.args[0] == 'np.logical_not':
            return app('not', (app('np.all', b.args[1]),))
        if b is not args[0]:
            return app('np.any', (b,))
    if name == 'np.all' and n == 1 and not kw:
        b = _strip_copies(args[0])
        if b.op == 'k':
            return K(bool(kval(b)))
        if b is not args[0]:
            return app('np.all', (b,))
    if name in ('builtins.tuple', 'builtins.list', 'tolist') and n == 1 and not kw and alit(args[0]) is not None:
        return seq('tuple' if name == 'builtins.tuple' else 'list', [('e', x) for x in alit(args[0])])
    if name == 'builtins.tuple' and n == 1:
        a = args[0]
        if a.op in ('list', 'tuple'):
            return seq('tuple', a.args[0])
        if a.op in ('map', 'fmap'):
            return seq('tuple', [('s', a)])
        if a.op == 'app' and a.args[0] in ('builtins.list', 'builtins.tuple'):
            return app('builtins.tuple', a.args[1])
        if a.op == 'sym' and 'tuple' in a.args[1]:
            return a
    if name == 'builtins.list' and n == 1:
        a = args[0]
        if a.op in ('list', 'tuple'):
            return seq('list', a.args[0])
        if a.op in ('map', 'fmap'):
            return seq('list', [('s', a)])
        if a.op == 'app' and a.args[0] in ('builtins.list', 'builtins.tuple'):
            return app('builtins.list', a.args[1])
    if name in NUMERIC_CAST and n == 1 and not kw:
        a = args[0]
        if isk(a):
            try:
                return K({'builtins.int': int, 'builtins.float': float, 'builtins.bool': bool,
                          'builtins.str': str}[name](kval(a)))
            except Exception:
                pass
        if a.op == 'app' and a.args[0] == name:
            return a
        if name == 'builtins.int' and _intlike(a):
            return a
        if name == 'builtins.float' and a.op == 'sym' and {'finite', 'real'} & set(a.args[1]):
            return a
    if name == 'np.prod' and n == 1 and not kw:
        e = simple_elems(args[0])
        if e is not None and len(e) == 1:
            return e[0]
        if args[0].op == 'app' and args[0].args[0] in ('builtins.tuple', 'builtins.list'):
            return app('np.prod', args[0].args[1])
    if name in ('np.atleast_1d',) and n == 1:
        a = args[0]
        if (ndim_of(a) or 0) >= 1:
            return a
        if a.op == 'app' and a.args[0] in ('np.atleast_1d', 'np.ravel', 'flatten'):
            return a
    if name == 'np.ravel_multi_index' and n == 2 and set(dict(kw)) <= {'order', 'mode'} and dict(kw).get('order', K('C')) is K('C'):
        it, shp = args
        if it.op == 'sub' and it.args[0].op == 'app' and it.args[0].args[0] == 'ndindex' \
                and it.args[1].op == 'iota' and _same_shape(it.args[0].args[1][0], shp):
            return it.args[1]
    return mk('app', name, args, kw)


def _same_shape(a, b):
    return a is b


def _intlike(t):
    """Terms known to denote integers (so that + 0 is the identity)."""
    if t.op in ('iota', 'psum', 'sum', 'domlen', 'prev'):
        return True
    if isk(t):
        return type(kval(t)) is int
    if t.op == 'mcall':
        return t.args[1] == 'flat_length'
    if t.op == 'gam':
        return all(_intlike(l) for _, l in t.args[0])
    if t.op == 'sym':
        return 'int' in t.args[1]
    if t.op == 'sub':       # the entries of a shape
        return t.args[0].op == 'sym' and 'tuple' in t.args[0].args[1] and t.args[1].op != 'slice'
    if t.op == 'app':
        if t.args[0] in ('len', 'np.size', 'np.prod', 'builtins.int', 'np.ndim',
                         'np.ravel_multi_index'):
            return True
        if t.args[0] in ('add', 'sub', 'mul', 'floordiv', 'mod') or t.args[0] == 'pow' and isk(t.args[1][1]):
            return all(_intlike(x) for x in t.args[1])
    return False


intlike = _intlike


def finite(x):
    if x.op == 'sym':
        return 'finite' in x.args[1]
    if isk(x):
        return _num(x) and math.isfinite(kval(x))
    return x.op == 'app' and x.args[0] in ('np.abs', 'neg', 'builtins.abs', 'builtins.max', 'builtins.min', 'builtins.float', 'np.float64') \
        and not x.args[2] and bool(x.args[1]) and all(finite(y) for y in x.args[1])


def _sorts_cmp(name, a, b):
    """Comparisons decided by declared facts about a symbol."""
    if a is b and name in ('eq', 'le'):
        return True
    if a is b and name == 'lt':
        return False
    for x, y, flip in ((a, b, False), (b, a, True)):
        if x.op in ('sym', 'app') and isk(y):
            v = kval(y)
            if isinstance(v, float) and math.isinf(v) and finite(x):
                if name == 'eq':
                    return False
                small = v < 0           # y is -inf: x > y
                lt_xy = not small
                if name in ('lt', 'le'):
                    return lt_xy if not flip else (not lt_xy)
            if v is None and x.op == 'sym' and 'nonnone' in x.args[1] and name == 'eq':
                return False
    if name == 'eq':
        if a is NONE and known_nonnone(b) or b is NONE and known_nonnone(a):
            return False
    if name in ('lt', 'le') and (a.op == 'iota' or b.op == 'iota') and _intlike(a) and _intlike(b):
        # 0 <= iota <= length - 1
        one = 1 if name == 'lt' else 0
        if b.op == 'iota':
            g = _gap(domlen(b.args[0]), a)      # upper(b) - a = g - 1
            if g is not None and g - 1 < one:
                return False
            if isk(a) and kval(a) <= -one:
                return True
        if a.op == 'iota':
            g = _gap(domlen(a.args[0]), b)      # b - upper(a) = 1 - g
            if g is not None and 1 - g >= one:
                return True
            if isk(b) and kval(b) < one:
                return False
    return None


def _gap(x, y):
    """x - y when it is a constant."""
    from .algebra import poly, padd
    d = padd(poly(x), poly(y), -1)
    if not d:
        return 0
    return d[()] if set(d) == {()} else None


def known_nonnone(t):
    if isk(t):
        return t is not NONE
    if t.op in ('tuple', 'list', 'dict', 'map', 'fmap', 'obj', 'cell', 'func', 'cls', 'bm', 'iota',
                'psum', 'sum', 'ext', 'B', 'domlen', 'dictmap', 'prim'):
        return True
    if t.op == 'sym':
        return 'nonnone' in t.args[1] or 'int' in t.args[1] or 'array' in t.args[1] or \
            'tuple' in t.args[1] or 'finite' in t.args[1]
    if t.op == 'app':
        return t.args[0] in ARITH or t.args[0].startswith('np.') or t.args[0] in (
            'len', 'builtins.int', 'builtins.tuple', 'builtins.list', 'builtins.float', 'fmt', 'flatten',
            'range', 'lt', 'le', 'eq', 'ne', 'scipy.sparse.block_diag')
    if t.op == 'mcall':
        return t.args[1] in ('flat_length', 'fold', 'flatten', 'to_json')
    return False


def ndim_of(t):
    if is_eigh(t, 0) and ndim_of(t.args[0].args[1][0]) == 2:
        return 1
    if is_eigh(t, 1) and ndim_of(t.args[0].args[1][0]) == 2:
        return 2
    if t.op == 'sym':
        return 1 if 'vec' in t.args[1] else 2 if 'mat' in t.args[1] else 3 if 'nd3' in t.args[1] else None
    if t.op == 'sub':
        e = simple_elems(t.args[1]) if t.args[1].op == 'tuple' else None
        if e is not None and len(e) == 2 and isk(e[0]) and kval(e[0]) is Ellipsis and isk(e[1]):
            d = ndim_of(t.args[0])
            if d is not None and kval(e[1]) is None:
                return d + 1
            if d and isinstance(kval(e[1]), int):
                return d - 1
        return None
    if t.op == 'app':
        nm, ar, kw = t.args
        if nm in ('np.arange', 'np.flatten', 'np.ravel'):
            return 1
        if nm in ('np.full', 'np.zeros', 'np.ones', 'np.empty') and ar and intlike(ar[0]):
            return 1
        if nm in ('np.array', 'np.asarray', 'np.atleast_1d') and len(ar) == 1 and is_seq(ar[0]):
            e = simple_elems(ar[0])
            if e and all(scalarlike(x) for x in e):
                return 1
            if e and all(is_seq(x) and simple_elems(x) and all(scalarlike(y) for y in simple_elems(x)) for x in e):
                return 2
        if nm in ('np.random.random',) and ar and intlike(ar[0]):
            return 1
        if nm in ('np.atleast_1d', 'copy') and len(ar) == 1:
            d = ndim_of(ar[0])
            return None if d is None else max(d, 1)
        if nm == 'np.atleast_2d' and len(ar) == 1:
            d = ndim_of(ar[0])
            return None if d is None else max(d, 2)
        if nm in ('T', 'neg', 'np.real', 'np.linalg.inv') and len(ar) == 1 or nm == 'np.swapaxes':
            return ndim_of(ar[0])
        if nm == 'np.linalg.solve' and len(ar) == 2:
            return ndim_of(ar[1])
        if nm == 'np.einsum' and ar and isk(ar[0]) and str(kval(ar[0])).replace(' ', '') == '...ij,...jk->...ik':
            d = [ndim_of(x) for x in ar[1:]]
            return max(d) if None not in d and d else None
        if nm == 'matmul' and len(ar) == 2:
            d = [ndim_of(x) for x in ar]
            if None not in d and max(d) > 0:
                return d[0] + d[1] - 2 if 1 in d else max(d)
        if nm in ('add', 'sub', 'mul', 'div') and len(ar) == 2:
            d = [0 if scalarlike(x) or intlike(x) else ndim_of(x) for x in ar]
            if None not in d and max(d):
                return max(d)
        s = shape_of(t)
        e = simple_elems(s) if s is not None else None
        if e is not None:
            return len(e)
    return None


def size_of(t):
    if t.op == 'app':
        nm, ar, kw = t.args
        if nm == 'np.arange' and len(ar) == 1:
            return ar[0]
        if nm in ('np.full', 'np.zeros', 'np.ones', 'np.empty', 'np.random.random') and ar and intlike(ar[0]):
            return ar[0]
        if nm in ('np.atleast_1d', 'copy', 'np.flatten', 'np.ravel') and len(ar) == 1:
            return size_of(ar[0])
        s = shape_of(t)
        if s is not None:
            return app('np.prod', (s,))
    return None


def shape_of(t):
    """Shape term when it is statically evident."""
    if t.op == 'app':
        nm, ar, kw = t.args
        if nm == 'copy' and len(ar) == 1:
            return shape_of(ar[0])
        if nm in ('np.full', 'np.empty', 'np.zeros', 'np.ones') and ar:
            return ar[0] if ar[0].op in ('tuple',) or (ar[0].op == 'app' and ar[0].args[0] == 'builtins.tuple') or (
                ar[0].op == 'sym' and 'tuple' in ar[0].args[1]) else None
        if nm == 'np.reshape' and len(ar) == 2 and (
                ar[1].op == 'sym' and 'tuple' in ar[1].args[1] or ar[1].op == 'tuple' and any(
                    k == 's' for k, _ in ar[1].args[0]) or ar[1].op == 'app' and ar[1].args[0] == 'add' and any(
                        x.op == 'app' and x.args[0] == 'np.shape' for x in ar[1].args[1])):
            return ar[1]
        if nm == 'np.reshape' and len(ar) == 2 and ar[1].op == 'tuple' and simple_elems(ar[1]) and \
                all(not isk(e) or kval(e) != -1 for e in simple_elems(ar[1])):
            return ar[1]
        if nm in ('np.eye', 'np.identity') and len(ar) == 1:
            return seq('tuple', [('e', ar[0]), ('e', ar[0])])
    return None


# ------------------------------------------------------------- iteration
def domlen(d):
    """Number of iterations of a loop domain."""
    if d.op == 'dom':
        x = d.args[0]
        if x.op == 'app' and x.args[0] == 'range':
            return x.args[1][0]
        return app('len', (x,))
    return mk('domlen', d)


def dom(x):
    """Canonical loop domain of iterating over x."""
    while True:
        if x.op == 'app' and x.args[0] in ('builtins.list', 'builtins.tuple', 'dict.keys', 'dict.items',
                                           'dict.values', 'enumerate', 'builtins.iter') and x.args[1]:
            x = x.args[1][0]
            continue
        if x.op in ('list', 'tuple') and len(x.args[0]) == 1 and x.args[0][0][0] == 's':
            x = x.args[0][0][1]
            continue
        if x.op == 'app' and x.args[0] == 'range' and len(x.args[1]) == 1:
            n = x.args[1][0]
            if n.op == 'app' and n.args[0] == 'len':
                x = n.args[1][0]
                continue
            if n.op == 'domlen':
                return n.args[0]
            return mk('dom', x)
        if x.op in ('map', 'fmap') and x.op == 'map':
            if x.args[3] == 1:
                return x.args[0]
            return mk('fdom', x.args[0], x.args[1], mk('B', x.args[3]))
        return mk('dom', x)


FULL = mk('slice', NONE, NONE, NONE)


def _number(t):
    if isk(t):
        return isinstance(kval(t), (int, float, bool))
    if t.op == 'B':
        return True
    if t.op == 'sym':
        return bool({'finite', 'int', 'real', 'scalar', 'bool'} & set(t.args[1]))
    return t.op == 'app' and (t.args[0] in ('add', 'sub', 'mul', 'div', 'neg', 'pow', 'builtins.float', 'builtins.int') and
                              all(_number(x) for x in t.args[1]) or t.args[0] in ('len', 'np.prod', 'np.size') and not t.args[2])


def whole_index(iv):
    es = simple_elems(iv) if iv.op == 'tuple' else [iv]
    return bool(es) and all(x is FULL or isk(x) and kval(x) is Ellipsis for x in es)


def mkstore(old, iv, v):
    """The array after old[iv] = v; a new array overwritten with a number is a filled one."""
    if whole_index(iv) and old.op == 'app' and old.args[0] in ('np.zeros', 'np.ones', 'np.empty', 'np.full') and old.args[1] and _number(v):
        kw = dict(old.args[2])
        i = 2 if old.args[0] == 'np.full' else 1
        dt = kw.get('dtype', old.args[1][i] if len(old.args[1]) > i else None)
        if set(kw) <= {'dtype', 'fill_value'} and len(old.args[1]) <= i + 1 and (old.args[0] != 'np.full' or dt is not None):
            if dt is None or dt.op == 'ext' and dt.args[0] == 'builtins.float' or dt is K('float') or dt is K('float64'):
                if isk(v):
                    v = K(float(kval(v)))
                dt = None if isk(v) or v.op == 'app' and v.args[0] in ('div', 'builtins.float') else mk('ext', 'builtins.float')
            return app('np.full', (old.args[1][0], v), (('dtype', dt),) if dt is not None else ())
    return mk('store', old, iv, v)


def plain_index(idx):
    """x[i, :] is x[i]; x[i,] is x[i]."""
    if idx.op == 'tuple':
        e = simple_elems(idx)
        if e and all(x.op == 'slice' or intlike(x) or x.op in ('iota', 'sub') for x in e):
            e = list(e)
            while len(e) > 1 and e[-1] is FULL:
                e.pop()
            if len(e) == 1 and e[0].op != 'slice':
                return e[0]
            if len(e) < len(simple_elems(idx)):
                return seq('tuple', [('e', x) for x in e])
    return idx


def table(ent, idx):
    """Look-up of a computed flag, or tuple of flags, in a table that has them all."""
    flags = lambda t: all(isk(x) and isinstance(kval(x), bool) for x in (simple_elems(t) or [None] if t.op == 'tuple' else [t]) if x is not None)
    if len(ent) > 8 or not (idx.op == 'B' or idx.op == 'tuple' and all(x.op == 'B' or isk(x) for x in simple_elems(idx) or [idx])) or \
            not all(k == 'e' and flags(v[0]) for k, v in ent):
        return None
    pairs, seen = [], 0
    for _, (k, v) in ent:
        g = truth(app('eq', (k, idx)))
        if band(seen, g) != 0:
            return None
        seen = bor(seen, g)
        pairs.append((g, v))
    return gam(pairs) if seen == 1 else None


def sub(base, idx):
    """base[idx]"""
    idx = plain_index(idx)
    if base.op == 'gam':
        return gam([(g, sub(l, idx)) for g, l in base.args[0]])
    if base.op == 'first' and isk(idx):
        return mk('first', base.args[0], base.args[1], base.args[2], sub(base.args[3], idx))
    if idx.op == 'gam' and is_seq(base):
        return gam([(g, sub(base, l)) for g, l in idx.args[0]])
    if is_seq(base) and isk(idx) and isinstance(kval(idx), int):
        i = int(kval(idx))
        parts = base.args[0]
        if all(k == 'e' for k, _ in parts):
            if -len(parts) <= i < len(parts):
                return parts[i][1]
        elif i >= 0 and all(k == 'e' for k, _ in parts[:i + 1]) and i < len(parts):
            return parts[i][1]
        elif i < 0 and len(parts) >= -i and all(k == 'e' for k, _ in parts[i:]):
            return parts[i][1]
        elif i >= 0 and len(parts) > 1 and parts[-1][0] == 's' and all(k == 'e' for k, _ in parts[:-1]) and i >= len(parts) - 1:
            return sub(parts[-1][1], K(i - len(parts) + 1))
    if idx.op == 'slice' and idx.args == (NONE, NONE, NONE) and (is_seq(base) or base.op == 'map'):
        return base
    if is_seq(base) and len(base.args[0]) == 1 and base.args[0][0][0] == 's':
        return sub(base.args[0][0][1], idx)
    if is_seq(base) and idx.op == 'slice' and all(k == 'e' for k, _ in base.args[0]) and \
            all(x is NONE or (isk(x) and isinstance(kval(x), int)) for x in idx.args):
        s = slice(*[None if x is NONE else kval(x) for x in idx.args])
        return mk(base.op, tuple(base.args[0][s]))
    ae = alit(base) if base.op == 'app' and base.args[0] == 'np.array' else None
    if ae is not None:
        if _num(idx) and type(kval(idx)) is int and -len(ae) <= kval(idx) < len(ae):
            return ae[kval(idx)]
        if idx.op == 'slice':
            r = sub(base.args[1][0], idx)
            if simple_elems(r) is not None:
                return mkalit(simple_elems(r))
        ie = _arr_elems(idx) if idx.op != 'tuple' else None
        if ie is not None and _numconst(ie) and all(type(kval(x)) is int and -len(ae) <= kval(x) < len(ae) for x in ie):
            return mkalit([ae[kval(x)] for x in ie])
    if idx.op == 'slice' and idx.args == (NONE, NONE, NONE) and (is_seq(base) or _tuplelike(base)):
        return base
    if base.op == 'dict' and idx.op not in ('slice', 'tuple'):
        ent = base.args[0]
        for k, v in reversed(ent):
            if k == 'e':
                if v[0] is idx:
                    return v[1]
                if not (isk(v[0]) and isk(idx)):
                    break
            else:
                break
        r = table(ent, idx)
        if r is not None:
            return r
    if base.op == 'dictmap':        # {key(i): val(i) for i in dom}[key(j)]
        d, io, key, val, flt = base.args
        if key.op == 'key' and idx.op == 'key' and key.args[0] is idx.args[0]:
            return subst(val, {io: idx.args[1]})
    if idx.op == 'key' and idx.args[0] is base:
        return mk('val', base, idx.args[1])
    if base.op == 'map' and base.args[3] == 1 and idx.op == 'slice' and base.args[0].op == 'dom' and \
            (idx.args[2] is NONE or isk(idx.args[2])):
        x, io, body = base.args[0].args[0], base.args[1], base.args[2]
        if _tuplelike(x) or x.op == 'sym' and 'list' in x.args[1]:
            mark = mk('sym', '@elem', ())
            b = subst(body, {elem_at(x, io): mark})
            if not contains(b, io):
                y = sub(x, idx)
                d = dom(y)
                j = mk('iota', d, 0)
                return mkmap(d, j, subst(b, {mark: elem_at(y, j)}))
    if base.op == 'map' and base.args[3] == 1 and idx.op == 'iota':
        return subst(base.args[2], {base.args[1]: idx})
    if base.op == 'app' and base.args[0] == 'range' and len(base.args[1]) == 1 and idx.op == 'iota':
        return idx
    if base.op == 'app' and base.args[0] in ('builtins.list', 'builtins.tuple') and base.args[1] and idx.op == 'iota':
        return sub(base.args[1][0], idx)
    if base.op == 'app' and base.args[0] == 'dict.values' and idx.op == 'iota':
        return mk('val', base.args[1][0], idx)
    if base.op == 'app' and base.args[0] == 'dict.keys' and idx.op == 'iota':
        return mk('key', base.args[1][0], idx)
    if base.op == 'app' and base.args[0] == 'dict.items' and idx.op == 'iota':
        d = base.args[1][0]
        return seq('tuple', [('e', mk('key', d, idx)), ('e', mk('val', d, idx))])
    if base.op == 'app' and base.args[0] == 'np.shape' and isk(idx) and is_eigh(base.args[1][0], 1) and \
            kval(idx) in (0, 1, -1, -2) and ndim_of(base.args[1][0]) == 2:
        return app('len', (mk('sub', base.args[1][0].args[0], K(0)),))
    # (n, L)-reshaped rows of a flat vector
    if base.op == 'app' and base.args[0] == 'np.reshape' and idx.op == 'iota' and dict(base.args[2]).get('order', K('C')) is K('C'):
        e = simple_elems(base.args[1][1]) if len(base.args[1]) > 1 else None
        if e is not None and len(e) == 2 and not isk(e[1]):
            lo = app('mul', (idx, e[1]))
            x = y = base.args[1][0]
            while y.op == 'app' and y.args[0] in ('np.atleast_1d', 'copy') and len(y.args[1]) == 1:
                y = y.args[1][0]
            if ndim_of(x) != 1 and not (y.op == 'sym' and y.args[0] == 'flat_val'):
                x = app('np.flatten', (x,))
            return sub(x, mk('slice', lo, app('add', (lo, e[1])), NONE))
    return mk('sub', base, idx)


def elem_at(x, io):
    """The element of iterable x met at iteration io."""
    if x.op == 'app':
        nm, ar = x.args[0], x.args[1]
        if nm == 'dict.items':
            return seq('tuple', [('e', mk('key', ar[0], io)), ('e', mk('val', ar[0], io))])
        if nm == 'dict.keys':
            return mk('key', ar[0], io)
        if nm == 'dict.values':
            return mk('val', ar[0], io)
        if nm == 'enumerate':
            start = ar[1] if len(ar) > 1 else K(0)
            return seq('tuple', [('e', app('add', (start, io)) if start is not K(0) else io), ('e', elem_at(ar[0], io))])
        if nm == 'zip':
            return seq('tuple', [('e', elem_at(a, io)) for a in ar])
        if nm in ('builtins.list', 'builtins.tuple', 'builtins.iter') and ar:
            return elem_at(ar[0], io)
        if nm == 'range':
            if len(ar) == 1:
                return io
            if len(ar) == 2:
                return app('add', (ar[0], io))
    if x.op in ('list', 'tuple') and len(x.args[0]) == 1 and x.args[0][0][0] == 's':
        return elem_at(x.args[0][0][1], io)
    if x.op == 'map':
        return subst(x.args[2], {x.args[1]: io})
    if x.op == 'sym' and 'dict' in x.args[1] or x.op in ('dictset', 'dictdel', 'dictmerge', 'dictmap', 'dict'):
        return mk('key', x, io)
    return sub(x, io)


def iter_domain(x):
    if x.op == 'app':
        nm, ar = x.args[0], x.args[1]
        if nm == 'zip':
            ds = [iter_domain(a) for a in ar]
            if ds and all(d is ds[0] for d in ds):
                return ds[0]
            return mk('zipdom', *ds)
        if nm == 'enumerate':
            return iter_domain(ar[0])
        if nm == 'range' and len(ar) == 2:
            return dom(app('range', (app('sub', (ar[1], ar[0])),)))
    return dom(x)


# ------------------------------------------------------------- truth
def truth(t):
    """Guard under which value t is truthy."""
    o = t.op
    if o == 'k':
        v = kval(t)
        return 1 if v else 0
    if o == 'B':
        return t.args[0]
    if o == 'gam':
        r = 0
        for g, l in t.args[0]:
            r = bor(r, band(g, truth(l)))
        return r
    if o in ('func', 'cls', 'bm', 'ext', 'prim', 'obj') or o == 'sym' and {'callable', 'nonnone'} <= set(t.args[1]):
        return 1
    if o == 'sym' and {'dict', 'list'} & set(t.args[1]) and 'nonnone' in t.args[1]:
        return nonempty(t)
    if o in ('list', 'tuple'):
        if any(k == 'e' for k, _ in t.args[0]):
            return 1
        r = 0
        for k, v in t.args[0]:
            r = bor(r, nonempty(v))
        return r
    if o in ('map', 'fmap', 'dictmap'):
        return nonempty(t)
    if o == 'dict':
        if not t.args[0]:
            return 0
        if any(k == 'e' for k, _ in t.args[0]):
            return 1
    if o == 'app':
        nm, ar = t.args[0], t.args[1]
        if nm == 'not':
            return bnot(truth(ar[0]))
        if nm == 'and':
            r = 1
            for a in ar:
                r = band(r, truth(a))
            return r
        if nm == 'or':
            r = 0
            for a in ar:
                r = bor(r, truth(a))
            return r
        if nm == 'ne':
            return bnot(truth(app('eq', ar)))
        if nm == 'le':
            r = truth_lt(ar[1], ar[0])
            return bnot(r)
        if nm == 'lt':
            return truth_lt(ar[0], ar[1])
        if nm == 'eq':
            a, b = ar
            if a.op == 'gam' or b.op == 'gam':
                r = 0
                for g, x in leaves(a):
                    for h, y in leaves(b):
                        gg = band(g, h)
                        if gg:
                            r = bor(r, band(gg, truth(app('eq', (x, y)))))
                return r
            for x, y in ((a, b), (b, a)):
                if isk(y) and isinstance(kval(y), bool) and x.op == 'B':
                    return x.args[0] if kval(y) else bnot(x.args[0])
                if y is K(0) and x.op == 'app' and x.args[0] == 'len':
                    return bnot(nonempty(x.args[1][0]))
            if a is NONE:
                return truth(app('isnone', (b,)))
            if b is NONE:
                return truth(app('isnone', (a,)))
            if a.op == 'cls' and b.op == 'cls':
                return 1 if a is b else 0
            if a.op == 'dict' and b.op == 'dict':
                r = _eq_dicts(a, b)
                if r is not None:
                    return r
            if a.op == b.op and a.op in ('tuple', 'list'):
                x, y = simple_elems(a), simple_elems(b)
                if x is not None and y is not None:
                    if len(x) != len(y):
                        return 0
                    r = 1
                    for p, q in zip(x, y):
                        r = band(r, truth(app('eq', (p, q))))
                    return r
        if nm == 'isnone':
            a = ar[0]
            if a.op == 'gam':
                r = 0
                for g, x in a.args[0]:
                    r = bor(r, band(g, truth(app('isnone', (x,)))))
                return r
            if a is NONE:
                return 1
            if known_nonnone(a):
                return 0
            return atom(t)
        if nm == 'in' and len(ar) == 2 and ar[1].op == 'dict' and all(k == 'e' for k, _ in ar[1].args[0]):
            r = 0
            for _, e in ar[1].args[0]:
                r = bor(r, truth(app('eq', (ar[0], e[0]))))
            return r
        if nm == 'in' and len(ar) == 2 and ar[0].op == 'key' and ar[1].op == 'dictmap' and len(ar[1].args) == 5:
            d, io, k, v, f = ar[1].args
            if k.op == 'key' and k.args[1] is io and k.args[0] is ar[0].args[0] and f.args[0] == 1 and \
                    d.op == 'dom' and d.args[0] is k.args[0]:
                return 1
        if nm == 'is':
            a, b = ar
            if a is b:
                return 1
            if isk(a) and isk(b):
                return 0
        if nm == 'builtins.bool':
            return truth(ar[0])
        if nm == 'np.any':
            return truth_any(ar[0]) if len(ar) == 1 and not t.args[2] else atom(t)
        if nm == 'np.all':
            return truth_all(ar[0]) if len(ar) == 1 and not t.args[2] else atom(t)
        if nm in ('builtins.any', 'builtins.all') and len(ar) == 1:
            s = ar[0]
            if s.op in ('list', 'tuple') and len(s.args[0]) == 1 and s.args[0][0][0] == 's':
                s = s.args[0][0][1]
            e = simple_elems(s)
            if e is not None:
                r = 0 if nm.endswith('any') else 1
                for x in e:
                    r = bor(r, truth(x)) if nm.endswith('any') else band(r, truth(x))
                return r
            if s.op == 'map':
                d, io, body, flt = s.args
                b = truth(body)
                if nm.endswith('any'):
                    return exists(d, io, band(flt, b))
                return bnot(exists(d, io, band(flt, bnot(b))))
        if nm == 'len':
            return nonempty(ar[0])
        if nm in ('np.size', 'mod') and _intlike(t):
            return bnot(truth(app('eq', (K(0), t))))
    return atom(t)


def _eq_dicts(a, b):
    ea, eb = a.args[0], b.args[0]
    if any(k != 'e' for k, _ in ea + eb) or not all(isk(v[0]) for _, v in ea + eb):
        return None
    da, db = {kval(v[0]): v[1] for _, v in ea}, {kval(v[0]): v[1] for _, v in eb}
    if set(da) != set(db):
        return 0
    r = 1
    for k in da:
        r = band(r, truth(app('eq', (da[k], db[k]))))
    return r


def truth_lt(a, b):
    if a.op == 'gam' or b.op == 'gam':
        r = 0
        for g, x in leaves(a):
            for h, y in leaves(b):
                gg = band(g, h)
                if gg:
                    r = bor(r, band(gg, truth(app('lt', (x, y)))))
        return r
    t = app('lt', (a, b))
    if isk(t):
        return 1 if kval(t) else 0
    # 0 < len(x), len(x) < 1
    if isk(a) and kval(a) == 0 and b.op == 'app' and b.args[0] == 'len':
        return nonempty(b.args[1][0])
    if isk(b) and kval(b) == 1 and a.op == 'app' and a.args[0] == 'len':
        return bnot(nonempty(a.args[1][0]))
    # integer comparisons against constants: a <= c  ==  a < c+1
    if isk(a) and type(kval(a)) is int and _intlike(b):
        # c < b  ==  not (b < c+1)
        return bnot(atom(mk('app', 'lt', (b, K(kval(a) + 1)), ())))
    return atom(t)


def _norm_any(b):
    """Normal form for the array predicate inside any()."""
    b = _strip_copies(b)
    return b


def truth_any(b):
    e = alit(b)
    if e is not None and all(isk(x) for x in e):
        return 1 if any(kval(x) for x in e) else 0
    b = _norm_any(b)
    if b.op == 'app':
        nm, ar = b.args[0], b.args[1]
        if nm == 'le':         # any(a <= b)
            return atom(app('np.any', (b,)))
        if nm in ('np.logical_not', 'not', 'invert'):
            return bnot(truth_all(ar[0]))
        if nm == 'ne':
            return atom(app('np.any', (mk('app', 'ne', ar, ()),)))
        if nm == 'eq':
            return atom(app('np.any', (b,)))
        if nm in ('or', 'np.logical_or', 'bitor') and len(ar) == 2:
            return bor(truth_any(ar[0]), truth_any(ar[1]))
        if nm in ('np.any',):
            return truth_any(ar[0])
    if b.op == 'B':
        return b.args[0]
    if b.op == 'gam':
        r = 0
        for g, l in b.args[0]:
            r = bor(r, band(g, truth_any(l)))
        return r
    return atom(app('np.any', (b,)))


def truth_all(b):
    e = alit(b)
    if e is not None and all(isk(x) for x in e):
        return 1 if all(kval(x) for x in e) else 0
    b = _norm_any(b)
    if b.op == 'app':
        nm, ar = b.args[0], b.args[1]
        if nm == 'le':          # all(a <= b) == not any(b < a)
            return bnot(truth_any(app('lt', (ar[1], ar[0]))))
        if nm == 'lt':
            return bnot(truth_any(app('le', (ar[1], ar[0]))))
        if nm == 'eq':
            return bnot(truth_any(app('ne', ar)))
        if nm == 'ne':
            return bnot(truth_any(app('eq', ar)))
        if nm in ('np.logical_not', 'not', 'invert'):
            return bnot(truth_any(ar[0]))
        if nm in ('and', 'np.logical_and', 'bitand') and len(ar) == 2:
            return band(truth_all(ar[0]), truth_all(ar[1]))
    if b.op == 'B':
        return b.args[0]
    return atom(app('np.all', (b,)))


def nonempty(s):
    if s.op in ('list', 'tuple', 'dict'):
        return truth(s)
    if s.op == 'map':
        return exists(s.args[0], s.args[1], s.args[3])
    if s.op == 'fmap':
        r = truth(s.args[2])
        return exists(s.args[0], s.args[1], band(s.args[3], r))
    if s.op == 'dictmap':
        return exists(s.args[0], s.args[1], s.args[4].args[0])
    if s.op == 'app' and s.args[0] in ('dict.keys', 'dict.items', 'dict.values', 'builtins.list',
                                       'builtins.tuple', 'np.array', 'np.asarray') and s.args[1]:
        return nonempty(s.args[1][0])
    if s.op == 'gam':
        r = 0
        for g, l in s.args[0]:
            r = bor(r, band(g, nonempty(l)))
        return r
    if isk(s):
        return 1 if kval(s) else 0
    return atom(mk('app', 'nonempty', (s,), ()))


def exists(d, io, b):
    """Guard: some iteration of domain d satisfies b."""
    if b == 0:
        return 0
    if b == 1:
        return nonempty_dom(d)
    # pull out the part that does not depend on the iteration variable
    dep = [a for a in batoms(b) if contains(a, io)]
    if not dep:
        return band(b, nonempty_dom(d))
    if len(dep) < len(batoms(b)):
        # Shannon-expand on invariant atoms
        inv = [a for a in batoms(b) if a not in dep][0]
        return ite(atom(inv), exists(d, io, cofactor(b, inv, True)),
                   exists(d, io, cofactor(b, inv, False)))
    return atom(mk('exists', d, io, b))


def nonempty_dom(d):
    if d.op == 'fdom':
        return exists(d.args[0], d.args[1], d.args[2].args[0])
    return atom(mk('app', 'nonempty', (d.args[0],), ())) if d.op == 'dom' else atom(
        mk('app', 'nonempty', (d,), ()))


@rebuilder('app')
def _r_app(name, args, kw):
    return app(name, args, kw)


@rebuilder('sub')
def _r_sub(b, i):
    return sub(b, i)


@rebuilder('list')
def _r_list(parts):
    return seq('list', parts)


@rebuilder('tuple')
def _r_tuple(parts):
    return seq('tuple', parts)


@rebuilder('@truth')
def _r_truth(t):
    if t.op == 'exists':
        return exists(*t.args)
    if t.op == 'app' and t.args[0] == 'nonempty':
        return nonempty(t.args[1][0])
    return truth(t)


# ------------------------------------------------------------- binders
def _bound_level(io, *terms):
    m = 999
    for t in terms:
        if isinstance(t, int):
            ts = batoms(t)
        else:
            ts = [t]
        for x in ts:
            for y in walk(x):
                if y.op == 'iota' and y is not io and y.args[1] > m:
                    m = y.args[1]
    return m + 1


def bind(op, d, io, *bodies):
    """Build a binder term with an alpha-canonical bound variable.  bodies may
    be terms or guards."""
    lev = _bound_level(io, *bodies)
    j = mk('iota', d, lev)
    out = []
    for b in bodies:
        out.append(bsubst(b, {io: j}) if isinstance(b, int) else subst(b, {io: j}))
    return d, j, out


def mkmap(d, io, body, flt=1):
    # identity map: [x[i] for i in dom(x)]
    d, j, (b, f) = bind('map', d, io, body, flt)
    if f == 0:
        return seq('list', [])
    if f == 1 and d.op == 'dom' and b is elem_at(d.args[0], j) and seqlike(d.args[0]) and d.args[0].op != 'app':
        return d.args[0]
    if f == 1 and d.op == 'dom' and b is elem_at(d.args[0], j) and d.args[0].op == 'sym' and 'tuple' in d.args[0].args[1]:
        return app('builtins.list', (d.args[0],))
    return mk('map', d, j, b, f)


def mkfmap(d, io, body, flt=1):
    d, j, (b, f) = bind('fmap', d, io, body, flt)
    if f == 0:
        return seq('list', [])
    e = simple_elems(b)
    if e is not None and len(e) == 1:
        return mk('map', d, j, e[0], f)
    return mk('fmap', d, j, b, f)


def mkdictmap(d, io, key, val, flt=1):
    d, j, (k, v, f) = bind('dictmap', d, io, key, val, flt)
    if f == 1 and d.op == 'dom' and k.op == 'key' and v.op == 'val' and k.args[1] is j and v.args[1] is j and \
            k.args[0] is v.args[0] is d.args[0]:
        return d.args[0]
    return mk('dictmap', d, j, k, v, mk('B', f))


def mksum(d, io, body):
    d, j, (b,) = bind('sum', d, io, body)
    if not contains(b, j):
        return app('mul', (domlen(d), b))
    return mk('sum', d, j, b)


def mkpsum(d, io, body, upto):
    """Sum of body over the iterations strictly before ``upto``."""
    d, j, (b,) = bind('psum', d, io, body)
    if not contains(b, j):
        if b is K(1):
            return upto
        return app('mul', (upto, b))
    return mk('psum', d, j, b, upto)
