"""P27: the array helpers compute what they document."""
from ..suite import *
from .. import algebra as AL
from .deriv import at_positions, strip1d, product_test, judge, zero
from .optrules import where_func_t, rewalk, strip_mm
from .effects import where_prim
from .examples import Unsupported
from ..algebra import poly_eq
from .indices import NARROW


def p27(S, rep, tier):
    M = S.M
    rep.rule('value', 'the helper returns the documented value')
    rep.rule('shape', 'the result has the documented shape and can hold real numbers')
    rep.rule('refuse', 'arguments that do not fit are refused with a ValueError, and no others')
    M.I.inline_prims = True
    try:
        summing(M, rep)
        replacing(M, rep)
        products(M, rep)
        solvers(M, rep)
    finally:
        M.I.inline_prims = False


# ------------------------------------------------------------ situations
class Arr:
    def __init__(self, shape, data=None):
        self.shape, self.data = tuple(shape), data

    def at_least_1d(self):
        return self if self.shape else Arr((1,), self.data)


CMP = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
       'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}


def val(t, env):
    """A term over shapes, lengths and small integer vectors, in a situation."""
    if t in env:
        return env[t]
    if t is NONE:
        return None
    if isk(t) and isinstance(kval(t), (int, float, bool)):
        return kval(t)
    if t.op == 'gam':
        for g, l in t.args[0]:
            if holds(g, env):
                return val(l, env)
    if t.op in ('tuple', 'list'):
        out = []
        for k, y in t.args[0]:
            v = val(y, env)
            out += [v] if k == 'e' else list(v)
        return tuple(out)
    if t.op == 'isnone':
        return val(t.args[0], env) is None
    if t.op == 'B':
        return holds(t.args[0], env)
    if t.op == 'sub':
        b, i = val(t.args[0], env), t.args[1]
        if isinstance(b, Arr) and b.shape:
            if isk(i) and isinstance(kval(i), int) and b.data is not None and len(b.shape) == 1:
                return b.data[kval(i)]
            raise Unsupported(show(t)[:80])
        if isinstance(b, tuple) and isk(i):
            return b[kval(i)]
        if isinstance(b, tuple) and i.op == 'slice':
            return b[slice(*[val(y, env) for y in i.args])]
    if t.op == 'app':
        nm, ar, kw = t.args
        if nm in ('isinstance', 'nonempty') or nm.startswith('raises'):
            raise Unsupported(nm)
        conv = nm in ('astype', 'np.array', 'np.asarray', 'copy', 'np.squeeze', 'np.flatten', 'np.ravel', 'np.atleast_1d')
        a = [val(y, env) for y in (ar[:1] if conv else ar)]
        if nm in ('np.atleast_1d', 'astype', 'np.array', 'np.asarray', 'copy', 'np.squeeze', 'np.flatten', 'np.ravel'):
            x = a[0]
            if isinstance(x, (int, float)):
                x = Arr((), [x])
            if isinstance(x, Arr):
                if nm == 'np.atleast_1d':
                    return x.at_least_1d()
                if nm == 'np.squeeze':
                    return Arr([s for s in x.shape if s != 1], x.data)
                if nm in ('np.flatten', 'np.ravel'):
                    n = 1
                    for s in x.shape:
                        n *= s
                    return Arr((n,), x.data)
                return x
        if len(a) == 1 and isinstance(a[0], Arr):
            x = a[0]
            if nm == 'np.ndim':
                return len(x.shape)
            if nm == 'np.shape':
                return x.shape
            if nm == 'len' and x.shape:
                return x.shape[0]
            if nm == 'np.size':
                n = 1
                for s in x.shape:
                    n *= s
                return n
            if nm in ('np.max', 'builtins.max', 'np.min', 'builtins.min', 'np.any', 'np.all') and x.data is not None:
                return {'max': max, 'min': min, 'any': any, 'all': all}[nm.split('.')[-1]](x.data)
        if nm == 'len' and isinstance(a[0], tuple):
            return len(a[0])
        if nm in CMP and len(a) == 2:
            if any(isinstance(y, Arr) for y in a):
                x, y = a
                d = [x, y][not isinstance(x, Arr)]
                if d.data is None or isinstance(x, Arr) and isinstance(y, Arr):
                    raise Unsupported(show(t)[:80])
                return Arr(d.shape, [CMP[nm](z, y) if d is x else CMP[nm](x, z) for z in d.data])
            return CMP[nm](*a)
        if all(isinstance(y, (int, float)) for y in a):
            if nm in ('add', 'sub', 'mul') and len(a) == 2:
                return {'add': a[0] + a[1], 'sub': a[0] - a[1], 'mul': a[0] * a[1]}[nm]
            if nm in ('builtins.int', 'builtins.float', 'astype', 'item') and a:
                return a[0]
            if nm in ('builtins.max', 'builtins.min', 'np.maximum', 'np.minimum') and len(a) > 1:
                return (max if 'max' in nm else min)(a)
    raise Unsupported(show(t)[:80])


def holds(g, env):
    while g not in (0, 1):
        a = top_atom(g)
        v = val(a, env)
        g = cofactor(g, a, bool(v) if not isinstance(v, Arr) else _one(v))
    return g == 1


def _one(v):
    if v.data is not None and len(v.data) == 1:
        return bool(v.data[0])
    raise Unsupported('truth of an array')


def top_atom(g):
    return g.atom if hasattr(g, 'atom') else sorted(batoms(g), key=lambda x: x.uid)[0]


def refusals(rep, cons, o, cases, w):
    """cases: [(environment, refused?, text)]."""
    if not clean_out(o) and o.guard:
        return rep.unsure('refuse', cons, '; '.join(map(str, o.notes))[:200], w)
    bad = []
    try:
        for env, refused, text in cases:
            ok = holds(o.guard, env)
            if ok and refused:
                bad.append('accepts %s' % text)
                continue
            hit = [r for r in o.raises if holds(r.guard, env)]
            if not refused and not ok:
                bad.append('%s for %s' % ('raises %s' % hit[0].exc if hit else 'does not return', text))
            elif refused and hit and hit[0].exc != 'ValueError':
                bad.append('raises %s for %s' % (hit[0].exc, text))
    except (Unsupported, TypeError, IndexError, KeyError) as e:
        return rep.unsure('refuse', cons, 'condition %s' % e, w)
    rep.check(not bad, 'refuse', cons, '; '.join(bad[:3]), w)


# ---------------------------------------------------------- grouped_sum
def plain(t, *xs):
    """Conversions of the arguments that keep their entries removed."""
    def f(y):
        if y.op == 'app' and y.args[0] in ('np.atleast_1d', 'copy', 'np.array', 'np.asarray', 'astype', 'builtins.int') and y.args[1]:
            z = strip1d(y.args[1][0])
            if z in xs or y.args[0] == 'builtins.int':
                return z
        if y.op == 'sub' and y.args[0] in xs and y.args[1].op == 'tuple':
            e = simple_elems(y.args[1])
            while e and len(e) > 1 and full(e[-1]):
                e.pop()
            if e and len(e) == 1:
                return sub(y.args[0], e[0])
        return y
    return deepwalk(t, f)


def full(i):
    return i.op == 'slice' and all(z is NONE for z in i.args) or isk(i) and kval(i) is Ellipsis


def deepwalk(t, f):
    return _deep(t, f, {})


def _deep(t, f, memo):
    if t in memo:
        return memo[t]
    if t.op == 'app':
        r = app(t.args[0], tuple(_deep(x, f, memo) for x in t.args[1]), tuple((k, _deep(v, f, memo)) for k, v in t.args[2]))
    elif t.op == 'sub':
        r = sub(_deep(t.args[0], f, memo), _deep(t.args[1], f, memo))
    elif t.op in ('tuple', 'list'):
        r = seq(t.op, [(k, _deep(x, f, memo)) for k, x in t.args[0]])
    elif t.op in ('dom', 'iota'):
        r = mk(t.op, *[_deep(x, f, memo) if isinstance(x, T) else x for x in t.args])
    elif t.op in ('slice',):
        r = mk('slice', *[_deep(x, f, memo) for x in t.args])
    else:
        r = t
    r = f(r)
    memo[t] = r
    return r


KNOWN = ('add', 'neg', 'sub', 'mul', 'div', 'neg', 'np.max', 'np.min', 'len', 'np.shape', 'np.ndim', 'np.size', 'np.zeros', 'np.ones',
         'np.full', 'np.atleast_1d', 'astype', 'np.array', 'copy', 'np.sum', 'np.mean', 'range', 'np.unique', 'eq', 'np.abs')


def understood(t, *syms):
    return all(y.op in ('k', 'tuple', 'list', 'slice', 'dom', 'sub', 'iota') or y in syms or y.op == 'app' and y.args[0] in KNOWN
               for y in walk(t)) and clean(t)


def summing(M, rep):
    f = M.glob('autograd_supplement_lib', 'grouped_sum')
    x, gr = (sym(n, 'array', 'nonnone') for n in ('x', 'groups'))
    w = where_prim(M, f)
    for ng in (NONE, sym('num_groups', 'int', 'nonnone')):
        lab = 'grouped_sum, %s' % ('num_groups=None' if ng is NONE else 'num_groups given')
        o = M.run(f, [x, gr, ng])
        want_n = app('add', (app('np.max', (gr,)), K(1))) if ng is NONE else ng
        if not clean_out(o) or not o.guard:
            if not o.guard:
                rep.bad('value', lab, 'always raises', w)
            else:
                rep.unsure('value', lab, show(o.value)[:300], w)
        else:
            bad, unclear, shp = [], [], []
            for g, l in leaves(o.value):
                r = group_leaf(l, x, gr, want_n, shp)
                if r is False:
                    unclear.append(show(l)[:300])
                elif r:
                    bad.append(r)
            cast = [d for y in walk(o.value) for d in casts(y) if gr in walk(y)]
            if cast:
                bad.append('the groups are cast to %s, whose range is too small' % cast[0])
            if bad:
                rep.bad('value', lab, '; '.join(bad), w)
            elif unclear:
                rep.unsure('value', lab, '; '.join(unclear), w)
            else:
                rep.ok('value', lab, where=w)
            wrong = [s for s in shp if s]
            if not shp or False in shp:
                rep.unsure('shape', lab, show(o.value)[:200], w)
            else:
                rep.check(not wrong, 'shape', lab, '; '.join(map(str, wrong)), w)
        if ng is NONE:
            omitted_same(rep, 'value', lab + ' by default', M.run(f, [x, gr]), o, w)
        cases = []
        for xs in ((3,), (3, 2), (1,), (2, 3)):
            for gs, gd in (((3,), [0, 1, 0]), ((3,), [2, 0, 1]), ((2,), [0, 1]), ((4,), [0, 0, 1, 1]), ((3, 1), [0, 1, 0]),
                           ((1, 3), [0, 1, 0]), ((2, 3), [0, 1, 0, 0, 1, 1]), ((), [0]), ((1,), [3])):
                for n in ((None,) if ng is NONE else (1, 2, 3, 4, 7)):
                    fits = len(gs) <= 1 and (gs[0] if gs else 1) == xs[0] and (n is None or max(gd) < n)
                    env = {x: Arr(xs), gr: Arr(gs, gd)}
                    if ng is not NONE:
                        env[ng] = n
                    cases.append((env, not fits, 'x of shape %s, groups %s of shape %s%s' % (xs, gd, gs, '' if n is None else ', num_groups %d' % n)))
        refusals(rep, lab, o, cases, w)


def casts(t):
    """Names of the small number types t converts to."""
    if t.op != 'app' or t.args[0] not in ('astype', 'np.array', 'np.asarray', 'np.full', 'np.zeros', 'np.empty', 'np.int8', 'np.int16',
                                          'np.uint8', 'np.uint16', 'np.bool_', 'builtins.bool'):
        return []
    d = dict(t.args[2]).get('dtype')
    ds = [d] if d is not None else [t.args[1][1]] if t.args[0] in ('astype', 'np.array', 'np.asarray') and len(t.args[1]) > 1 else []
    names = [show(d).strip("'").replace('ext<', '').rstrip('>').split('.')[-1] for d in ds if isinstance(d, T)]
    if t.args[0].split('.')[-1] in NARROW:
        names.append(t.args[0].split('.')[-1])
    return [n for n in names if n in NARROW | {'bool', 'bool_'}]


def group_leaf(l, x, gr, n, shp):
    """None when l is the grouped sum; what is wrong; False when unclear."""
    o = l
    if l.op == 'app' and l.args[0] in ('np.array', 'np.asarray', 'np.stack') and l.args[1]:
        s = l.args[1][0]
        m = s.args[0][0][1] if s.op in ('list', 'tuple') and len(s.args[0]) == 1 and s.args[0][0][0] == 's' else s
        if m.op == 'map':
            d, io, b, flt = m.args
            if flt != 1:
                return False
            shp.append(None if rows_of(d, gr, n) else False)
            return masked(b, io, x, gr) if rows_of(d, gr, n) else False
        return False
    if l.op == 'store' and not isk(l.args[1]):
        i = plain(l.args[1], x, gr)
        if i.op == 'tuple' and simple_elems(i) and all(full(y) for y in simple_elems(i)[1:]):
            i = simple_elems(i)[0]
        return 'entries of one group overwrite each other' if i is gr and understood(l.args[2], x, gr) or \
            i is gr and l.args[2].op == 'app' and l.args[2].args[0] == 'add' and x in walk(l.args[2]) else False
    if l.op not in ('storeadd', 'storemap'):
        return False
    base, d, j, i, v, b = l.args
    shp.append(base_shape(base, x, gr, n))
    if b is not TRUE and b is not mk('B', 1):
        return 'leaves out entries unless %s' % show(b)[:100] if clean(b) else False
    z = start(base)
    if z is not None:
        return z
    i, jj = plain(i, x, gr), plain(j, x, gr)
    if i.op == 'tuple':
        e = simple_elems(i)
        while e and len(e) > 1 and full(e[-1]):
            e.pop()
        if not e or len(e) != 1:
            return False
        i = e[0]
    v = strip_full(v, x, gr)
    if l.op == 'storemap':
        if rows_of(d, gr, n) or d.op == 'dom' and plain(d.args[0], gr) is app('np.unique', (gr,)):
            k = plain(elem_at(d.args[0], j) if d.op == 'dom' else j, gr)
            return masked(v, k, x, gr) if plain(i, gr) is k or i is j else False
        if i is sub(gr, jj):
            return 'an entry replaces the earlier entries of its group instead of being added'
        return False
    over = domain(d, x, gr)
    if over is not True:
        return over
    if i is not sub(gr, jj):
        return 'adds entry n to row %s' % show(i)[:100] if understood(i, x, gr, jj) else False
    for _, w in leaves(v):
        w = strip_full(w, x, gr)
        if w is not sub(x, jj):
            return 'adds %s for entry n' % show(w)[:100] if understood(w, x, gr, jj) else False
    return None


def strip_full(v, x, gr):
    v = plain(v, x, gr)
    while v.op == 'sub' and v.args[1].op == 'tuple':
        e = simple_elems(v.args[1])
        while e and len(e) > 1 and full(e[-1]):
            e.pop()
        if not e or len(e) != 1:
            return v
        v = sub(v.args[0], e[0])
    return v


def domain(d, x, gr):
    if d.op == 'zipdom':
        r = [domain(y, x, gr) for y in d.args if isinstance(y, T)]
        return True if all(y is True for y in r) else next(y for y in r if y is not True)
    if d.op != 'dom':
        return False
    y = plain(d.args[0], x, gr)
    if y is x or y is gr:
        return True
    if y.op == 'app' and y.args[0] == 'range':
        n = y.args[1][-1]
        if len(y.args[1]) == 1 and n in (app('len', (x,)), app('len', (gr,)), sub(app('np.shape', (x,)), K(0)),
                                         sub(app('np.shape', (gr,)), K(0)), app('np.size', (gr,))):
            return True
    return 'runs over %s instead of all entries' % show(y)[:100] if understood(y, x, gr) else False


def rows_of(d, gr, n):
    if d.op != 'dom':
        return False
    y = plain(d.args[0], gr)
    return y.op == 'app' and y.args[0] in ('range', 'np.arange') and len(y.args[1]) == 1 and poly_eq(y.args[1][0], n)


def masked(v, k, x, gr):
    """v is the sum over the entries whose group is k."""
    v = plain(v, x, gr)
    if v.op == 'app' and v.args[0] in ('np.mean', 'np.max', 'np.min', 'np.prod', 'np.median') and v.args[1] and \
            masked(app('np.sum', v.args[1], v.args[2]), k, x, gr) is None:
        return 'takes %s of the entries of a group' % v.args[0]
    if v.op == 'app' and v.args[0] == 'np.sum' and v.args[1]:
        ax = dict(v.args[2]).get('axis', v.args[1][1] if len(v.args[1]) > 1 else None)
        y = v.args[1][0]
        if y.op == 'sub' and y.args[0] is x:
            i = y.args[1]
            if i.op == 'app' and i.args[0] == 'eq' and set(i.args[1]) == {gr, k}:
                if ax is None or not isk(ax):
                    return 'adds up all axes of the entries'
                return None if kval(ax) == 0 else 'adds up axis %s' % kval(ax)
    return False


def start(base):
    if base.op == 'app' and base.args[0] in ('np.zeros', 'np.zeros_like'):
        return None
    if base.op == 'app' and base.args[0] in ('np.ones', 'np.ones_like', 'np.empty', 'np.empty_like'):
        return 'sums start from %s' % base.args[0]
    if base.op == 'app' and base.args[0] == 'np.full' and len(base.args[1]) > 1:
        return None if zero(base.args[1][1]) else 'sums start from %s' % show(base.args[1][1])
    return False


def base_shape(base, x, gr, n):
    if base.op != 'app' or not base.args[1]:
        return False
    dt = dict(base.args[2]).get('dtype')
    if dt is not None and 'int' in show(dt) or dt is not None and 'bool' in show(dt):
        return 'holds integers only'
    if base.args[0] in ('np.zeros_like', 'np.ones_like'):
        return 'has one row per entry, and the type of the entries' if strip1d(base.args[1][0]) is x else False
    if base.args[0] not in ('np.zeros', 'np.full', 'np.ones', 'np.empty'):
        return False
    s = plain(base.args[1][0], x, gr)
    tail = sub(app('np.shape', (x,)), mk('slice', K(1), NONE, NONE))
    want = seq('tuple', [('e', n), ('s', tail)])
    if s is want:
        return None
    if s.op == 'tuple' and s.args[0]:
        k, h = s.args[0][0]
        if s.args[0][1:] == want.args[0][1:] and k == 'e':
            if poly_eq(h, n):
                return None
            return '%s rows instead of %s' % (show(h), show(n)) if understood(h, x, gr, n) else False
    return 'shape %s instead of %s' % (show(s)[:100], show(want)) if understood(s, x, gr, n) else False


# --------------------------------------------------------------- replace
def replacing(M, rep):
    f = M.glob('autograd_supplement_lib', 'replace')
    xs, x, inds = (sym(n, 'array', 'nonnone') for n in ('x_sub', 'x', 'inds'))
    o = M.run(f, [xs, x, inds])
    w = where_prim(M, f)
    cons = 'replace'

    def test(l, g):
        i, e = at_positions(l, inds, True), at_positions(l, inds, False)
        if i is xs and e is x:
            return None
        return 'the replaced positions hold %s and the others %s' % (show(i)[:100], show(e)[:100])
    judge(rep, 'value', cons, o, test, w)
    if o.guard:
        rs = [holder(l, x) for _, l in leaves(o.value)]
        bad = [r for r in rs if r]
        if bad:
            rep.bad('shape', cons, '; '.join(bad), w)
        else:
            rep.check(None if False in rs or not clean_out(o) else True, 'shape', cons, show(o.value)[:200], w)
    if clean_out(o):
        rep.check(o.guard == 1 or None, 'refuse', cons, bshow(o.guard)[:200], w)


def holder(l, x):
    """What is wrong with the array the values are stored into."""
    while l.op == 'store':
        l = l.args[0]
    if l.op != 'app' or not l.args[1]:
        return 'stores into %s itself' % show(l) if l is x else False
    nm, ar, kw = l.args
    dt = dict(kw).get('dtype')
    if dt is not None:
        s = show(dt)
        if 'int' in s or 'bool' in s:
            return 'holds integers only'
        floaty = 'float' in s or 'double' in s
    else:
        floaty = None
    if nm in ('np.full', 'np.zeros', 'np.ones', 'np.empty'):
        s = ar[0]
        if nm == 'np.full' and floaty is None and len(ar) > 1 and isk(ar[1]) and not isinstance(kval(ar[1]), float):
            return 'holds the type of %s only' % show(ar[1])
        if s is app('np.shape', (x,)):
            return None
        if s is app('len', (x,)) or s is app('np.size', (x,)):
            return 'is one-dimensional whatever the array is'
        return False
    if nm in ('copy', 'np.array', 'np.zeros_like', 'np.ones_like', 'np.empty_like', 'np.full_like') and strip1d(ar[0]) is x:
        return None if floaty else 'has the number type of the array, which cuts off new values'
    if nm == 'astype' and len(ar) > 1 and strip1d(ar[0]) is x:
        return None if 'float' in show(ar[1]) else 'holds %s only' % show(ar[1]) if 'int' in show(ar[1]) else False
    return False


# -------------------------------------------------------------- products
def products(M, rep):
    f = M.glob('autograd_supplement_lib', 'get_sparse_product')
    w = where_func_t(M, f)
    z = sym('z_mat', 'mat', 'nonnone')
    o = M.run(f, [z])
    e = pair_elems(o.value)
    if not o.guard or e is None or len(e) != 2:
        rep.unsure('value', 'get_sparse_product', show(o.value)[:200], w)
        return
    for bs in ('vec', 'mat'):
        b = sym('b', bs, 'nonnone')
        for fn, nm, m in ((e[0], 'Z b', z), (e[1], "Z' b", app('T', (z,)))):
            judge(rep, 'value', 'product %s, %s' % (nm, {'vec': 'vector', 'mat': 'matrix'}[bs]), M.run(fn, [b], {}, o.store),
                  product_test(app('matmul', (m, b)), z), w)
    za = sym('z_any', 'array', 'nonnone')
    oa = M.run(f, [za])
    refusals(rep, 'get_sparse_product', oa, [({za: Arr(s)}, len(s) != 2, 'a matrix of shape %s' % (s,)) for s in
                                             ((3,), (2, 3), (3, 3), (2, 3, 4), (1, 1, 2, 2))], w)
    b = sym('b', 'array', 'nonnone')
    for fn, nm in zip(e, ('Z b', "Z' b")):
        ob = M.run(fn, [b], {}, o.store)
        refusals(rep, 'product %s' % nm, ob, [({b: Arr(s)}, len(s) > 2, 'an argument of shape %s' % (s,)) for s in
                                              ((3,), (3, 2), (3, 1), (3, 2, 2), (1, 3, 1, 1))], w)


def solvers(M, rep):
    f = M.glob('autograd_supplement_lib', 'get_differentiable_solver')
    zs, zts = sym('z_solve', 'nonnone', 'callable'), sym('zt_solve', 'nonnone', 'callable')
    o = M.run(f, [zs, zts])
    w = where_func_t(M, f)
    e = pair_elems(o.value)
    if not o.guard or e is None or len(e) != 2:
        return rep.unsure('value', 'get_differentiable_solver', show(o.value)[:200], w)
    b = sym('b', 'array', 'nonnone')
    for fn, nm, s in ((e[0], 'z_solve', zs), (e[1], 'zt_solve', zts)):
        want = mk('call', s, (b,), ())

        def test(l, g, want=want):
            if l is want:
                return None
            if l.op == 'app' and poly_eq(l, want):
                return None
            return 'gives %s instead of %s' % (show(l)[:200], show(want)) if all(
                y.op in ('sym', 'k', 'call') or y.op == 'app' and y.args[0] in ('neg', 'add', 'sub', 'mul', 'T') for y in walk(l)) else False
        out = M.run(fn, [b], {}, o.store)
        judge(rep, 'value', 'solver %s' % nm, out, test, w)
        if clean_out(out):
            rep.check(out.guard == 1 or None, 'refuse', 'solver %s' % nm, bshow(out.guard)[:200], w)
