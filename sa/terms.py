"""Hash-consed value terms (a gated value graph) and a boolean guard domain.

A *term* denotes the abstract value of an expression: two expressions get the
same term exactly when the analysis has shown them to compute the same value
(global value numbering).  A *guard* is a reduced ordered binary decision
diagram over atomic branch conditions; it is the abstract domain used for
control dependence (which outcome is reachable under which branch outcomes).
Nothing here evaluates the analysed program.
"""


class T:
    __slots__ = ('op', 'args', 'uid', '_flag')

    def __init__(self, op, args, uid):
        self.op = op
        self.args = args
        self.uid = uid
        self._flag = None

    def __repr__(self):
        return show(self)


_table = {}
_all = []


def mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T(op, args, len(_all))
        _table[key] = t
        _all.append(t)
    return t


# ---------------------------------------------------------------- constants
_kvals = {}


def K(v):
    if isinstance(v, float):
        key = ('float', repr(v))
    elif isinstance(v, (bool, int, str, bytes, complex)) or v is None or v is Ellipsis:
        key = (type(v).__name__, v)
    else:
        raise TypeError(v)
    t = mk('k', *key)
    _kvals[t] = v
    return t


def isk(t):
    return t.op == 'k'


def kval(t):
    return _kvals[t]


NONE, TRUE, FALSE = K(None), K(True), K(False)
INF, NINF = K(float('inf')), K(float('-inf'))


def sym(name, *sorts):
    """A symbolic input.  ``sorts`` are assumed facts about it."""
    return mk('sym', name, tuple(sorted(sorts)))


def issym(t, sort=None):
    return t.op == 'sym' and (sort is None or sort in t.args[1])


# ---------------------------------------------------------------- guards
# ROBDD.  Node 0 = False, 1 = True, otherwise index into _nodes.
_nodes = [None, None]          # (level, lo, hi)
_unique = {}
_atoms = []                    # level -> atom term
_atom_level = {}
_ite_memo = {}
_con_memo = {}


def _node(level, lo, hi):
    if lo == hi:
        return lo
    key = (level, lo, hi)
    n = _unique.get(key)
    if n is None:
        n = len(_nodes)
        _nodes.append(key)
        _unique[key] = n
    return n


def atom(t):
    lev = _atom_level.get(t)
    if lev is None:
        lev = len(_atoms)
        _atoms.append(t)
        _atom_level[t] = lev
    return _node(lev, 0, 1)


def _lev(n):
    return _nodes[n][0] if n > 1 else 1 << 60


def _cof(n, level):
    if n > 1 and _nodes[n][0] == level:
        return _nodes[n][1], _nodes[n][2]
    return n, n


def ite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    key = (f, g, h)
    r = _ite_memo.get(key)
    if r is None:
        lev = min(_lev(f), _lev(g), _lev(h))
        f0, f1 = _cof(f, lev)
        g0, g1 = _cof(g, lev)
        h0, h1 = _cof(h, lev)
        r = _node(lev, ite(f0, g0, h0), ite(f1, g1, h1))
        _ite_memo[key] = r
    return r


def band(a, b):
    return ite(a, b, 0)


def bor(a, b):
    return ite(a, 1, b)


def bnot(a):
    return ite(a, 0, 1)


def implies(a, b):
    return band(a, bnot(b)) == 0


def constrain(f, c):
    """Generalised cofactor of f by care set c (Coudert-Madre restrict)."""
    if c == 1 or f <= 1:
        return f
    if c == 0:
        return f
    if f == c:
        return 1
    key = (f, c)
    r = _con_memo.get(key)
    if r is None:
        lc, lf = _lev(c), _lev(f)
        if lc < lf:
            c0, c1 = _cof(c, lc)
            r = constrain(f, bor(c0, c1))
        else:
            f0, f1 = _cof(f, lf)
            c0, c1 = _cof(c, lf)
            if c0 == 0:
                r = constrain(f1, c1)
            elif c1 == 0:
                r = constrain(f0, c0)
            else:
                r = _node(lf, constrain(f0, c0), constrain(f1, c1))
        _con_memo[key] = r
    return r


def batoms(n):
    """The atom terms a guard depends on."""
    seen, out, st = set(), [], [n]
    while st:
        m = st.pop()
        if m <= 1 or m in seen:
            continue
        seen.add(m)
        lev, lo, hi = _nodes[m]
        if _atoms[lev] not in out:
            out.append(_atoms[lev])
        st += [lo, hi]
    return out


def bmap(n, fn, memo=None):
    """Rebuild guard n with every atom a replaced by guard fn(a)."""
    if n <= 1:
        return n
    if memo is None:
        memo = {}
    r = memo.get(n)
    if r is None:
        lev, lo, hi = _nodes[n]
        r = ite(fn(_atoms[lev]), bmap(hi, fn, memo), bmap(lo, fn, memo))
        memo[n] = r
    return r


def cofactor(n, t, val):
    """Guard n with the atom ``t`` set to a constant."""
    return bmap(n, lambda a: (1 if val else 0) if a is t else atom(a))


def bpaths(n):
    """Cubes of the guard as lists of (atom, polarity)."""
    if n == 0:
        return []
    if n == 1:
        return [[]]
    lev, lo, hi = _nodes[n]
    return ([[(_atoms[lev], True)] + p for p in bpaths(hi)] +
            [[(_atoms[lev], False)] + p for p in bpaths(lo)])


def bshow(n):
    if n == 0:
        return 'never'
    if n == 1:
        return 'always'
    ps = bpaths(n)
    return ' | '.join(
        ' & '.join(('' if v else '!') + show(a) for a, v in p) for p in ps[:6]) + (
            ' | ...' if len(ps) > 6 else '')


# ---------------------------------------------------------------- gammas
def gam(pairs):
    """Guarded value.  ``pairs``: [(guard, term)] with disjoint guards."""
    flat = []
    for g, t in pairs:
        if g == 0:
            continue
        if t.op == 'gam':
            for g2, t2 in t.args[0]:
                gg = band(g, g2)
                if gg != 0:
                    flat.append((gg, t2))
        else:
            flat.append((g, t))
    by = {}
    for g, t in flat:
        by[t] = bor(by.get(t, 0), g)
    if not by:
        return mk('bottom')
    if len(by) == 2 and K(0) in by:
        # zero where there is nothing to add up is the sum all the same
        s, = [t for t in by if t is not K(0)]
        if s.op == 'sum' and s.args[0].op == 'dom' and band(by[K(0)], atom(mk('app', 'nonempty', (s.args[0].args[0],), ()))) == 0:
            return s
    if len(by) == 1:
        return next(iter(by))
    return mk('gam', tuple(sorted(((g, t) for t, g in by.items()),
                                  key=lambda p: p[1].uid)))


def leaves(t):
    return list(t.args[0]) if t.op == 'gam' else [(1, t)]


def under(t, g):
    """Value t as seen where guard g holds (prune impossible leaves)."""
    if t.op != 'gam' or g == 1:
        return t
    keep = []
    for gi, ti in t.args[0]:
        if band(gi, g) != 0:
            keep.append((constrain(gi, g), ti))
    if len(keep) == len(t.args[0]) and all(a[0] == b[0] for a, b in zip(keep, t.args[0])):
        return t
    return gam(keep)


def deep_under(t, g, memo=None):
    """Like ``under`` but prunes gammas everywhere inside t."""
    if g == 1:
        return t
    if memo is None:
        memo = {}

    def fn(x):
        if x.op == 'gam':
            y = under(x, g)
            return None if y is x else deep_under(y, g, memo)
        return None
    return rewrite(t, fn, memo)


# ---------------------------------------------------------------- traversal
def _sub_iter(a):
    if isinstance(a, T):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            yield from _sub_iter(x)


def children(t):
    if t.op == 'k' or t.op == 'sym':
        return
    if t.op == 'gam':
        for g, x in t.args[0]:
            for a in batoms(g):
                yield a
            yield x
        return
    if t.op in ('exists', 'map', 'fmap', 'B'):
        for a in t.args:
            if isinstance(a, int):
                for b in batoms(a):
                    yield b
            else:
                yield from _sub_iter(a)
        return
    for a in t.args:
        yield from _sub_iter(a)


def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def contains(t, x):
    return any(y is x for y in walk(t))


def has_op(t, ops):
    return any(y.op in ops for y in walk(t))


_REBUILD = {}


def rebuilder(op):
    def deco(f):
        _REBUILD[op] = f
        return f
    return deco


def rewrite(t, fn, memo=None):
    """Bottom-up-ish rewriting: fn(x) returns a replacement or None."""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = fn(t)
    if r is not None:
        memo[t] = r
        return r
    if t.op in ('k', 'sym') or not t.args:
        memo[t] = t
        return t

    def go(a):
        if isinstance(a, T):
            return rewrite(a, fn, memo)
        if isinstance(a, tuple):
            return tuple(go(x) for x in a)
        return a

    def gob(n):
        return bmap(n, lambda a: _reatom(rewrite(a, fn, memo)))
    if t.op == 'gam':
        r = gam([(gob(g), go(x)) for g, x in t.args[0]])
    elif t.op in ('exists', 'map', 'fmap', 'B'):
        na = tuple(gob(a) if isinstance(a, int) else go(a) for a in t.args)
        r = t if na == t.args else _remake(t.op, na)
    else:
        na = tuple(go(a) for a in t.args)
        r = t if na == t.args else _remake(t.op, na)
    memo[t] = r
    return r


def _remake(op, args):
    f = _REBUILD.get(op)
    return f(*args) if f else mk(op, *args)


def _reatom(t):
    """Turn a rewritten atom term back into a guard."""
    if t is TRUE:
        return 1
    if t is FALSE:
        return 0
    f = _REBUILD.get('@truth')
    return f(t) if f else atom(t)


def subst(t, mapping):
    return rewrite(t, lambda x: mapping.get(x))


def bsubst(n, mapping):
    memo = {}
    return bmap(n, lambda a: _reatom(rewrite(a, lambda x: mapping.get(x), memo)))


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return repr(t)
    if depth <= 0:
        return '..'
    d = depth - 1
    o, a = t.op, t.args
    if o == 'k':
        return repr(kval(t))
    if o == 'sym':
        return a[0]
    if o == 'gam':
        return '{' + ' ; '.join('%s if %s' % (show(x, d), bshow(g)) for g, x in a[0]) + '}'
    if o == 'app':
        s = [show(x, d) for x in a[1]] + ['%s=%s' % (k, show(v, d)) for k, v in a[2]]
        return '%s(%s)' % (a[0], ', '.join(s))
    if o == 'mcall':
        s = ['%s=%s' % (k, show(v, d)) if k else show(v, d) for k, v in a[2]]
        return '%s.%s(%s)' % (show(a[0], d), a[1], ', '.join(s))
    if o == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if o == 'sub':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if o == 'slice':
        return ':'.join('' if x is NONE else show(x, d) for x in a)
    if o in ('tuple', 'list', 'set'):
        br = {'tuple': '()', 'list': '[]', 'set': '{}'}[o]
        return br[0] + ', '.join(('*' if k == 's' else '') + show(v, d) for k, v in a[0]) + br[1]
    if o == 'iota':
        return 'i%d' % a[1]
    if o == 'map':
        return 'map(%s in %s: %s%s)' % (show(a[1], d), show(a[0], d), show(a[2], d),
                                        '' if a[3] == 1 else ' if ' + bshow(a[3]))
    if o == 'exists':
        return 'exists(%s in %s: %s)' % (show(a[1], d), show(a[0], d), bshow(a[2]))
    return '%s<%s>' % (o, ', '.join(show(x, d) if isinstance(x, (T, tuple)) else str(x) for x in a))
