"""Canonical form of guards about arrays: copies and shape-preserving wrappers
dropped, comparisons of whole arrays with scalars made shape-free."""
from .suite import *

WRAP = {'np.atleast_1d', 'copy', 'np.array', 'np.asarray'}
RESHAPE = {'np.reshape', 'np.flatten', 'np.ravel'}
ELEM = {'add', 'sub', 'mul', 'div', 'neg', 'np.abs', 'pow'}


def drop_wrappers(t, memo):
    def fn(x):
        if x.op == 'app' and x.args[0] in WRAP and len(x.args[1]) == 1 and not x.args[2] and \
                x.args[1][0].op not in ('list', 'tuple', 'map', 'fmap', 'k'):
            return drop_wrappers(x.args[1][0], memo)
        return None
    return rewrite(t, fn, memo)


def is_scalar(t):
    if isk(t):
        return not isinstance(kval(t), (tuple, list))
    if t.op == 'sym':
        return 'finite' in t.args[1] or 'int' in t.args[1]
    if t.op == 'app' and t.args[0] in ELEM:
        return all(is_scalar(a) for a in t.args[1])
    return False


def flat_elem(t):
    """Strip reshapes below an elementwise expression."""
    if t.op == 'app' and t.args[0] in RESHAPE and (t.args[0] == 'np.reshape' or not t.args[2]):
        return flat_elem(t.args[1][0])
    if t.op == 'app' and t.args[0] in ELEM and not t.args[2]:
        arrs = [a for a in t.args[1] if not is_scalar(a)]
        if len(arrs) == 1:
            return app(t.args[0], tuple(a if is_scalar(a) else flat_elem(a) for a in t.args[1]))
    return t


def _cmp(b):
    """Canonical guard of any(b)."""
    if b.op == 'app' and b.args[0] in ('lt', 'le', 'eq', 'ne') and len(b.args[1]) == 2:
        x, y = b.args[1]
        if is_scalar(x) != is_scalar(y):
            x, y = flat_elem(x), flat_elem(y)
            nm = b.args[0]
            if isk(y) and nm == 'lt' and kval(y) == -INF:
                return 0
            if isk(x) and nm == 'lt' and kval(x) == INF:
                return 0
            return atom(mk('app', 'np.any', (mk('app', nm, (x, y), ()),), ()))
    return None


def canon_atom(a, memo):
    a = drop_wrappers(a, memo)
    if isk(a):
        return truth(a)
    if a.op == 'app':
        nm, ar, kw = a.args
        if nm == 'np.any' and len(ar) == 1 and not kw:
            r = _cmp(ar[0])
            if r is not None:
                return r
        if nm in ('lt', 'le') and len(ar) == 2:
            x, y = ar
            for side, other, f in ((x, y, 'np.min'), (y, x, 'np.max')):
                if side.op == 'app' and side.args[0] == f and len(side.args[1]) == 1 and not side.args[2]:
                    c = mk('app', nm, (side.args[1][0], y) if side is x else (x, side.args[1][0]), ())
                    r = _cmp(c)
                    if r is not None:
                        return r
        if nm == 'eq' and len(ar) == 2:
            for x, y in (ar, ar[::-1]):
                if y.op == 'app' and y.args[0] == 'len' and contains_array(y.args[1][0]):
                    return canon_eq(x, mk('app', 'np.size', y.args[1], ()))
                if y.op == 'app' and y.args[0] == 'np.shape' and not y.args[2]:
                    s = shape_of(y.args[1][0])
                    if s is x:
                        return 1
                    e = simple_elems(x)
                    if e is not None and len(e) == 1 and y.args[1][0].op == 'sym':
                        return band(canon_eq(K(1), mk('app', 'np.ndim', y.args[1], ())),
                                    canon_eq(e[0], mk('app', 'np.size', y.args[1], ())))
                if y.op == 'app' and y.args[0] in ('np.ndim', 'np.size'):
                    return canon_eq(x, y)
    if a.op == 'app' and a.args[0] in ('eq', 'lt', 'not', 'np.any', 'np.all'):
        return truth(a)
    return atom(a)


def contains_array(t):
    return t is FV or t is FO or t is FB or (t.op == 'app' and any(contains_array(x) for x in t.args[1]))


def canon_eq(x, y):
    if y.args[0] == 'np.ndim':
        d = ndim_of(y.args[1][0])
        if d is not None and isk(x):
            return 1 if d == kval(x) else 0
        s = shape_of(y.args[1][0])
        if s is not None and app('len', (s,)) is x:
            return 1
    if y.args[0] == 'np.size':
        d = size_of(y.args[1][0])
        if d is x:
            return 1
    a, b = (x, y) if x.uid <= y.uid else (y, x)
    return atom(mk('app', 'eq', (a, b), ()))


def canon(g, memo=None):
    memo = {} if memo is None else memo

    def inner(t):
        # exists-bodies
        if t.op == 'exists':
            return mk('exists', t.args[0], t.args[1], go(t.args[2]))
        return t

    def at(a):
        if a.op == 'exists':
            a2 = drop_wrappers(a, memo)
            if a2.op == 'exists':
                return exists(a2.args[0], a2.args[1], go(a2.args[2]))
            return truth(a2)
        return canon_atom(a, memo)

    def go(n):
        return bmap(n, at)
    return go(g)


VOCAB_OPS = {'np.any', 'np.all', 'lt', 'le', 'eq', 'ne', 'add', 'sub', 'mul', 'div', 'neg', 'np.abs', 'np.sum',
             'np.diag', 'T', 'np.shape', 'np.ndim', 'np.size', 'np.min', 'np.max', 'len', 'in', 'pow',
             'np.prod', 'np.allclose', 'np.isclose', 'nonempty', 'isnone', 'np.reshape', 'not', 'np.mean',
             'builtins.int', 'np.tril', 'np.triu', 'np.flatten', 'mod'}


def known_vocab(t):
    for x in walk(t):
        if x.op == 'app' and x.args[0] not in VOCAB_OPS:
            return False
        if x.op in BAD_OPS or x.op in ('call',):
            return False
    return True


# ---------------------------------------------------- shapes under an assumption
SAME_SHAPE = {'np.linalg.cholesky', 'np.exp', 'np.log', 'neg', 'np.abs', 'np.sqrt', 'copy', 'np.array', 'np.asarray'}


def infer_shape(t, env):
    """Dimensions of t as a list of terms, given the dimensions of inputs."""
    if t in env:
        return env[t]
    if t.op != 'app':
        return None
    nm, ar, kw = t.args
    kw = dict(kw)
    if is_scalar(t):
        return []
    if nm in SAME_SHAPE and ar:
        return infer_shape(ar[0], env)
    if nm in ('add', 'sub', 'mul', 'div') and len(ar) == 2:
        a = [] if is_scalar(ar[0]) else infer_shape(ar[0], env)
        b = [] if is_scalar(ar[1]) else infer_shape(ar[1], env)
        if a is None or b is None:
            return None
        if not a:
            return b
        if not b or a == b:
            return a
        return None
    if nm == 'np.full' and ar:
        return dims(ar[0], env)
    if nm == 'np.eye' and len(ar) == 1:
        d = dims(ar[0], env)
        return None if d is None or len(d) != 1 else d * 2
    if nm == 'np.make_diagonal' and ar:
        d = infer_shape(ar[0], env)
        off = kw.get('offset')
        if d and len(d) == 1 and (off is None or off is K(0)):
            return d * 2
        return None
    if nm == 'np.diag' and len(ar) == 1:
        d = infer_shape(ar[0], env)
        if d and len(d) == 2 and d[0] is d[1]:
            return d[:1]
        if d and len(d) == 1:
            return d * 2
        return None
    if nm == 'T':
        d = infer_shape(ar[0], env)
        return d[::-1] if d else None
    if nm in ('matmul', 'np.dot') and len(ar) == 2:
        a, b = infer_shape(ar[0], env), infer_shape(ar[1], env)
        if a and b and len(a) == len(b) == 2:
            return [a[0], b[1]]
        return None
    return None


def dims(s, env):
    s = subst_shape(s, env)
    e = simple_elems(s)
    if e is not None:
        return list(e)
    if s.op in ('sym', 'app', 'sub') and not (s.op == 'sym' and 'tuple' in s.args[1]):
        return [s]
    return None


def subst_shape(t, env):
    """Replace shape questions answered by the assumption."""
    def fn(x):
        if x.op == 'app' and x.args[0] in ('np.shape', 'np.ndim') and len(x.args[1]) == 1:
            d = infer_shape(x.args[1][0], env)
            if d is not None:
                return K(len(d)) if x.args[0] == 'np.ndim' else seq('tuple', [('e', y) for y in d])
        if x.op == 'app' and x.args[0] in ('np.size', 'len') and len(x.args[1]) == 1 and x.args[1][0] in env:
            d = env[x.args[1][0]]
            if len(d) == 1:
                return d[0]
        if x.op == 'app' and x.args[0] == 'mod':
            a, b = (rewrite(y, fn) for y in x.args[1])
            if a is b and a in [y for d in env.values() for y in d]:
                return K(0)
        return None
    return rewrite(t, fn, {})


def shape_facts_env(V):
    """Inputs whose exact dimensions the guard V fixes."""
    env = {}
    for a in batoms(V):
        if a.op == 'app' and a.args[0] == 'eq' and cofactor(V, a, False) == 0:
            for x, y in (a.args[1], a.args[1][::-1]):
                if y.op == 'app' and y.args[0] == 'np.shape' and y.args[1][0].op == 'sym':
                    e = simple_elems(x)
                    if e is not None:
                        env[y.args[1][0]] = list(e)
    # a vector of a given size
    sure = [a.args[1] for a in batoms(V) if a.op == 'app' and a.args[0] == 'eq' and cofactor(V, a, False) == 0]
    asked = {x.args[1][0]: y for p in sure for x, y in (p, p[::-1]) if x.op == 'app' and x.args[0] == 'np.size' and x.args[1][0].op == 'sym'}
    for p in sure:
        for x, y in (p, p[::-1]):
            if x.op == 'app' and x.args[0] == 'np.ndim' and y is K(1) and x.args[1][0] in asked:
                env.setdefault(x.args[1][0], [asked[x.args[1][0]]])
    return env


def under_shapes(g, V):
    env = shape_facts_env(V)
    if not env:
        return g

    keep = set(batoms(V))

    def at(a):
        return atom(a) if a in keep else truth(subst_shape(a, env))
    return bmap(g, at)
