"""Order and extent of the parts of a flat vector."""
import math
import re
import string
from contextlib import contextmanager
from fractions import Fraction

from ..canon import *
from ..algebra import poly, poly_eq, Unsupported, padd, pshow

MODES = {True: 'free', False: 'non-free'}
PART_VOCAB = {'add', 'sub', 'mul', 'neg', 'div', 'ndindex', 'np.prod', 'len', 'np.shape', 'np.size', 'np.ndim',
              'builtins.int', 'pow', 'range', 'nonempty', 'np.any', 'not', 'lt', 'le', 'eq', 'np.ravel_multi_index'}


def B_(f):
    return f.args[0] if isinstance(f, T) and f.op == 'B' else f


POS = sym('positions', 'int', 'nonnone')


class Ctx:
    """What the container holds: domain, item variable, key and member."""

    def __init__(self, inst):
        self.inst = inst
        if inst.label == 'pdict':
            self.base = inst.members
            self.d = mk('dom', inst.members)
        else:
            self.base = mk('app', 'ndindex', (inst.kw['array_shape'],), ())
            self.d = mk('dom', self.base)

    def key(self, io):
        return mk('key', self.base, io) if self.inst.label == 'pdict' else sub(self.base, io)

    def member(self, io):
        return mk('val', self.base, io) if self.inst.label == 'pdict' else self.inst.kw['base_pattern']

    def length(self, io, free):
        return mk('mcall', self.member(io), 'flat_length', (('free', K(free)),))

    def offset(self, io, free):
        if self.inst.label == 'pdict':
            j = mk('iota', self.d, 0)
            return mkpsum(self.d, j, self.length(j, free), io)
        return app('mul', (io, self.length(io, free)))


def ok_vocab(t, extra=()):
    for x in walk(t):
        if x.op == 'app' and x.args[0] not in PART_VOCAB and x.args[0] not in extra:
            return False
        if x.op in BAD_OPS or x.op in ('call', 'fmt', 'first', 'last', 'gam'):
            return False
    return True


ARITH = {'add', 'sub', 'mul', 'neg', 'div', 'pow', 'builtins.int', 'np.prod'}


def arith_vocab(t):
    """Built from quantities that are independent of each other."""
    if t.op in ('k', 'sym', 'iota'):
        return True
    if t.op == 'app':
        if t.args[0] == 'np.prod':
            return len(t.args[1]) == 1 and not t.args[2] and t.args[1][0].op in ('sym', 'tuple')
        if t.args[0] == 'np.ravel_multi_index':
            # the place of an item when the items are counted column by column
            kw, ar = dict(t.args[2]), t.args[1]
            o = kw.get('order', ar[3] if len(ar) > 3 else K('C'))
            it = ar[0]
            return o is K('F') and len(ar) > 1 and it.op == 'sub' and it.args[0].op == 'app' and it.args[0].args[0] == 'ndindex' and \
                it.args[1].op == 'iota' and it.args[0].args[1][0] is ar[1]
        return t.args[0] in ARITH and not t.args[2] and all(arith_vocab(a) for a in t.args[1])
    if t.op == 'mcall':
        return t.args[1] == 'flat_length' and ok_vocab(t.args[0])
    if t.op == 'gam' and len(t.args[0]) == 2:
        # a length counted only for the members asked about
        g, (x, y) = t.args[0][0][0], [l for _, l in t.args[0]]
        return (x is K(0) or y is K(0)) and arith_vocab(x) and arith_vocab(y) and bool(batoms(g)) and all(
            not any(m.op == 'mcall' and m.args[1] == 'flat_length' for m in walk(a)) and (
                a.op == 'app' and a.args[0] in ('nonempty', 'np.any') and any(m is FB for m in walk(a))) for a in batoms(g))
    if t.op in ('sum', 'psum'):
        return arith_vocab(t.args[2]) and t.args[0].op == 'dom' and ok_vocab(t.args[0])
    return False


def strip_arr(t):
    """Copies and list-to-array conversions."""
    while t.op == 'app' and t.args[0] in ('np.array', 'np.asarray', 'copy', 'np.atleast_1d', 'np.ravel', 'np.flatten') \
            and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


def the_map(lst):
    """The single map a list consists of."""
    if lst.op == 'map':
        return lst
    if lst.op in ('list', 'tuple'):
        parts = lst.args[0] if lst.args and isinstance(lst.args[0], tuple) else lst.args
        ps = [p for p in parts]
        if len(ps) == 1 and isinstance(ps[0], tuple) and ps[0][0] == 's':
            return the_map(ps[0][1])
    return None


STACKERS = {'np.hstack', 'np.concatenate', 'np.block'}


def pieces(t):
    """(map term, how) of a vector built by joining the pieces of a map."""
    t0 = t
    for _ in range(6):
        m = the_map(t)
        if m is not None:
            return m
        if t.op == 'app' and t.args[0] in STACKERS and len(t.args[1]) == 1:
            kw = dict(t.args[2])
            ax = kw.get('axis')
            if ax is not None and ax is not K(0):
                return None
            t = t.args[1][0]
            continue
        if t.op == 'app' and t.args[0] in ('np.array', 'np.asarray', 'copy', 'np.ravel', 'np.flatten', 'np.atleast_1d') and \
                len(t.args[1]) == 1:
            if t.args[0] in ('np.ravel', 'np.flatten') and t.args[2]:
                return None
            t = t.args[1][0]
            continue
        break
    return None


def dom_verdict(got, want):
    """True same order, False a definitely different one, None unknown."""
    if got is want:
        return True
    x = got.args[0] if got.op == 'dom' else got
    names = {y.args[0] for y in walk(x) if y.op == 'app'}
    bad = {'reversed', 'builtins.reversed', 'sorted', 'builtins.sorted', 'np.sort'}
    if names & bad or has_op(x, {'reversed', 'sorted'}):
        return False
    # a slice or another dictionary of the same members
    if x.op == 'sub' and x.args[1].op == 'slice' and not has_op(x, BAD_OPS):
        return False
    return None


def same_call(got, want):
    """Is a call of a member the wanted one?  An argument that takes another
    constant in some configuration is a difference."""
    if got is want:
        return True
    if ok_vocab(got):
        return False
    if got.op == 'mcall' and got.args[:2] == want.args[:2]:
        a, b = dict(got.args[2]), dict(want.args[2])
        if set(a) == set(b):
            for k in a:
                if a[k].op == 'gam' and isk(b[k]) and any(
                        isk(l) and l is not b[k] and all(x.op == 'sym' or x.op == 'app' and x.args[0] == 'isnone' and x.args[1][0].op == 'sym' for x in batoms(g))
                        for g, l in a[k].args[0]):
                    return False
    return None


def eqterm(got, want, extra=()):
    if got is want:
        return True
    memo = {}
    g, w = drop_wrappers(got, memo), drop_wrappers(want, memo)
    if g is w:
        return True
    return False if ok_vocab(g, extra) else None


def own_strides(x, want):
    """The index along the axes summed with a stride per axis that depends on
    that axis alone, where the place of the item in row-major order is wanted:
    the place of the item, else None."""
    if x.op != 'sum':
        return None
    d, j, b = x.args[0], x.args[1], drop_wrappers(x.args[2], {})
    fs = list(b.args[1]) if b.op == 'app' and b.args[0] == 'mul' else [b]
    item = [f for f in fs if f.op == 'sub' and f.args[1] is j and f.args[0].op == 'sub' and f.args[0].args[1].op == 'iota'
            and f.args[0].args[0].op == 'app' and f.args[0].args[0].args[0] == 'ndindex']
    if len(item) != 1:
        return None
    A = item[0].args[0].args[0].args[1][0]
    rest = [f for f in fs if f is not item[0]]
    if not all(isk(f) or f.op == 'sub' and f.args[0] is A and f.args[1] is j for f in rest) or not (
            d.op == 'zipdom' and any(a is mk('dom', A) for a in d.args) or d is mk('dom', A) or d is mk('dom', item[0].args[0])):
        return None
    return item[0].args[0].args[1]


def eqpoly(got, want):
    for x in walk(got):
        i = own_strides(x, want)
        if i is not None and eqpoly(subst(got, {x: i}), want):
            return False
    if got is want:
        return True
    try:
        if poly_eq(got, want):
            return True
    except Unsupported:
        return False if samples_differ(got, want) else None
    return differ(got, want)


class NoValue(Exception):
    pass


def int_value(t, env):
    """Value of an integer expression when the sizes in it are env."""
    if t in env:
        return env[t]
    if isk(t) and type(kval(t)) in (int, float, bool):
        return kval(t)
    if t.op == 'B':
        return guard_value(t.args[0], env)
    if t.op == 'gam':
        for g, l in t.args[0]:
            if guard_value(g, env):
                return int_value(l, env)
    if t.op == 'app' and not t.args[2]:
        nm, ar = t.args[0], t.args[1]
        v = [int_value(a, env) for a in ar]
        if nm in ('add', 'sub', 'mul', 'div', 'floordiv', 'mod', 'pow', 'lt', 'le', 'eq', 'ne') and len(v) == 2:
            a, b = v
            if nm in ('div', 'floordiv', 'mod') and b == 0 or nm == 'pow' and (abs(b) > 4 or b < 0):
                raise NoValue(nm)
            return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: Fraction(a) / Fraction(b),
                    'floordiv': lambda: a // b, 'mod': lambda: a % b, 'pow': lambda: a ** b, 'lt': lambda: a < b,
                    'le': lambda: a <= b, 'eq': lambda: a == b, 'ne': lambda: a != b}[nm]()
        if nm == 'neg':
            return -v[0]
        if nm in ('abs', 'np.abs') and len(v) == 1:
            return abs(v[0])
        if nm in ('builtins.int', 'np.int64', 'np.trunc', 'np.fix') and len(v) == 1:
            return int(v[0])
        if nm in ('np.floor', 'np.ceil') and len(v) == 1:
            return math.floor(v[0]) if nm == 'np.floor' else math.ceil(v[0])
        if nm in ('builtins.max', 'builtins.min', 'np.maximum', 'np.minimum') and len(v) > 1:
            return max(v) if 'max' in nm else min(v)
    raise NoValue(show(t)[:100])


def guard_value(g, env):
    for a in batoms(g):
        g = cofactor(g, a, bool(int_value(a, env)))
    if g in (0, 1):
        return bool(g)
    raise NoValue(bshow(g)[:100])


UNDER = [1]


@contextmanager
def under(g):
    """Comparisons made inside hold for the values that reach a leaf."""
    UNDER.append(g)
    try:
        yield
    finally:
        UNDER.pop()


def quantities(ts):
    """The independent integers the terms are built from, or None."""
    vs, syms = set(), {}

    def go(t):
        if t.op == 'app' and t.args[0] in ('np.prod', 'len', 'np.size') and len(t.args[1]) == 1 and not t.args[2] and t.args[1][0].op == 'sym':
            vs.add(t)
            return syms.setdefault(t.args[1][0], t) is t
        if t.op == 'sym':
            if 'int' not in t.args[1]:
                return False
            vs.add(t)
            return syms.setdefault(t, t) is t
        return all(go(y) for y in subterms(t))
    return vs if all(go(t) for t in ts) else None


def subterms(t):
    if t.op == 'B':
        return batoms(t.args[0])
    if t.op == 'gam':
        return [y for g, l in t.args[0] for y in [l] + list(batoms(g))]
    if t.op == 'app':
        return list(t.args[1]) + [v for _, v in t.args[2]]
    return [y for y in t.args if isinstance(y, T)]


def samples_differ(got, want):
    """The two differ for some sizes: both are evaluated at sizes chosen
    around the constants they mention."""
    g = UNDER[-1]
    vs = quantities([got, want])
    if not vs or len(vs) > 2:
        return False
    mine = {y for t in (got, want) for y in walk(t) if y.op == 'sym'}
    inside = [a for a in batoms(g) if not given_shape(a, mine) and (quantities([a]) or {a}) & vs or any(contains(a, v) for v in vs)]
    ats = [a for a in inside if quantities([a]) is not None and quantities([a]) <= vs]
    if len(ats) < len(inside):
        return False
    cs = {abs(int(kval(y))) for t in [got, want] + ats for y in walk(t) if isk(y) and type(kval(y)) in (int, float) and abs(kval(y)) < 10 ** 6}
    ns = sorted({2, 3, 4, 5, 7} | {c + d for c in cs for d in (-1, 0, 1, 2) if c + d > 1})[:24]
    vs = sorted(vs, key=show)
    for env in [(n,) * len(vs) for n in ns] + ([(a, b) for a in ns for b in ns if a != b] if len(vs) == 2 else []):
        env = dict(zip(vs, env))
        try:
            h = g
            for a in ats:
                h = cofactor(h, a, bool(int_value(a, env)))
            if h != 0 and int_value(got, env) != int_value(want, env):
                return True
        except (NoValue, OverflowError):
            return False
    return False


def given_shape(a, mine):
    """A condition on an input that the compared sizes do not involve: an
    input that meets it exists for all sizes."""
    return any(y in (FB, FO, FV) and y not in mine for y in walk(a))


def counted(got, want, ats):
    """got counts the entries selected so far, which conditions on the flags
    as a whole leave open."""
    data = {y for x in walk(got) if x.op == 'psum' and quantities([x]) is None for y in walk(x) if y.op == 'sym' and 'int' not in y.args[1] and not any(contains(q, y) for q in quantities([want]) or ())}
    data = {y for y in data if not contains(want, y)}
    return bool(data) and all(a.op == 'exists' or a.op == 'app' and a.args[0] in ('np.any', 'eq')
                              and all(x.op == 'sym' or x.op != 'app' or x.args[0] == 'np.shape' for x in a.args[1])
                              for a in ats if any(contains(a, y) for y in data))


def differ(got, want):
    """False: the two are not equal for all values that reach the leaf."""
    g = UNDER[-1]
    if arith_vocab(got):
        if g == 1:
            return False
        mine = {y for t in (got, want) for y in walk(t) if y.op == 'sym'}
        ats = [a for a in batoms(g) if any(y in mine for y in walk(a)) and not given_shape(a, mine)]
        if not ats or counted(got, want, ats):
            return False
        fixed = {}
        for a in ats:
            if a.op == 'app' and a.args[0] == 'eq' and implies(g, truth(a)):
                for x, k in (a.args[1], a.args[1][::-1]):
                    if isk(k) and x.op == 'sym':
                        fixed[x] = k
        if fixed:
            try:
                if poly_eq(strip_int(subst(got, fixed)), strip_int(subst(want, fixed))):
                    return True
            except Unsupported:
                return None
    return False if samples_differ(got, want) else None


def all3(rs):
    rs = list(rs)
    if any(r is False for r in rs):
        return False
    if any(r is None for r in rs):
        return None
    return True


class Why:
    def __init__(self):
        self.msg = []

    def __call__(self, r, text):
        if r is False:
            self.msg.append(text)
        return r


def filter_ok(flt, allowed, free=()):
    """Every member that contributes passes the filter; the conditions in
    free do not depend on one another but for what allowed says."""
    if flt == 1:
        return True
    if implies(allowed, flt) == 1:
        return True
    known = {a for f in free if f not in (0, 1) for a in batoms(f)}
    return False if all(a in known or ok_vocab(a) or a.op == 'mcall' for a in batoms(flt)) else None


def slice_of(t):
    """(lo, hi) of FV[lo:hi] (wrappers dropped)."""
    t = drop_wrappers(t, {})
    if t.op == 'sub' and t.args[0] is FV and t.args[1].op == 'slice':
        s = t.args[1]
        if s.args[2] in (NONE, K(1)) if len(s.args) > 2 else True:
            return s.args[0], s.args[1]
    return None


def check_fold_piece(C, body, io, free, why):
    if body.op != 'mcall' or body.args[1] != 'fold':
        return None
    r = [why(body.args[0] is C.member(io) or (False if ok_vocab(body.args[0]) else None),
             'folds with another member: %s' % show(body.args[0])[:100])]
    kw = dict(body.args[2])
    s = slice_of(kw.get('flat_val', NONE))
    if s is None:
        return None
    lo, hi = s
    off, ln = (drop_wrappers(x, {}) for x in (C.offset(io, free), C.length(io, free)))
    if lo is NONE:
        lo = K(0)
    r.append(why(eqpoly(lo, off), 'its part starts at %s, not %s' % (show(lo)[:150], show(off)[:150])))
    if hi is NONE:
        return None
    r.append(why(eqpoly(hi, app('add', (off, ln))), 'its part ends at %s' % show(hi)[:150]))
    return all3(r)


def row_dom(d, C, free):
    """The flat vector, cut into consecutive parts of the length of a part."""
    t = drop_wrappers(d, {})
    t = t.args[0] if t.op == 'dom' else t
    if not (t.op == 'app' and t.args[0] == 'np.reshape' and t.args[1][0] is FV and not t.args[2] and len(t.args[1]) == 2):
        return False
    e = simple_elems(t.args[1][1])
    return e is not None and len(e) == 2 and e[0] is K(-1) and e[1] is drop_wrappers(C.length(K(0), free), {})


def container_fold(C, t, free, why):
    if C.inst.label == 'pdict':
        if t.op != 'dictmap':
            return None
        d, io, key, val, flt = t.args
        flt = B_(flt)
        return all3([why(dom_verdict(d, C.d), 'members visited in another order or extent: %s' % show(d)[:120]),
                     why(eqterm(key, C.key(io)), 'stored under %s' % show(key)[:100]),
                     why(filter_ok(flt, 1), 'members left out when %s' % bshow(bnot(flt))[:200]),
                     check_fold_piece(C, val, io, free, why)])
    if t.op == 'app' and t.args[0] == 'np.reshape' and not t.args[2]:
        arr, shp = t.args[1][0], t.args[1][1]
        want = array_shape(C)
        m = pieces(arr) if not (arr.op == 'app' and arr.args[0] in STACKERS) else pieces(arr)
        if m is None or m.op != 'map':
            return None
        d, io, body, flt = m.args
        return all3([why(True if row_dom(d, C, free) else dom_verdict(d, C.d), 'items visited in another order or extent: %s' % show(d)[:120]),
                     why(eqterm(shp, want, ('empty',)) if shp is not want else True, 'arranged as %s' % show(shp)[:150]),
                     why(filter_ok(flt, 1), 'items left out'),
                     check_fold_piece(C, body, io, free, why)])
    if t.op == 'app' and t.args[0] == 'np.reshape':
        o = dict(t.args[2]).get('order')
        if o is not None and isk(o) and kval(o) in ('F', 'A'):
            why(False, "arranged in order '%s'" % kval(o))
            return False
    return None


def array_shape(C):
    A = C.inst.kw['array_shape']
    return seq('tuple', [('s', A), ('s', app('np.shape', (mk('mcall', C.inst.kw['base_pattern'], 'empty', (('valid', FALSE),)),)))])


def shuffled(t, why):
    """False when the pieces are put in another order before they are joined."""
    for _ in range(6):
        if t.op == 'app' and t.args[0] in STACKERS | {'np.array', 'np.asarray', 'copy', 'np.ravel', 'scipy.sparse.block_diag', 'todense',
                                                      'scipy.sparse.coo_matrix'} and t.args[1]:
            t = t.args[1][0]
            continue
        if t.op in ('list', 'tuple') and len(t.args[0]) == 1 and t.args[0][0][0] == 's':
            t = t.args[0][0][1]
            continue
        if t.op == 'app' and t.args[0] in ('sorted', 'reversed') and t.args[1] and the_map(t.args[1][0]) is not None:
            return why(False, 'the parts are %s before they are joined' % t.args[0])
        if t.op == 'sub' and t.args[1].op == 'slice' and the_map(t.args[0]) is not None and any(x is not NONE for x in t.args[1].args) and all(
                isk(x) for x in t.args[1].args):
            return why(False, 'only the parts %s are joined' % show(t.args[1]))
        break
    return None


def container_join(C, t, op, free, why, inp=FO, argname='folded_val', joiner=None):
    """A flat vector / block matrix joined from member results."""
    m = pieces(t) if joiner is None else joiner(t)
    if m is None or m.op != 'map':
        return shuffled(t, why)
    d, io, body, flt = m.args
    b = strip_arr(body)
    if b.op == 'mcall' and {op, b.args[1]} == {'freeing_jacobian', 'unfreeing_jacobian'}:
        why(False, 'joins the %s of the members' % b.args[1])
        return False
    if b.op == 'app' and b.args[0] == 'T' and joiner is not None and b.args[1][0].op == 'mcall' and b.args[1][0].args[1] == op:
        return why(False, 'is transposed')
    if b.op != 'mcall' or b.args[1] != op:
        return None
    return all3([why(dom_verdict(d, C.d), 'members visited in another order or extent: %s' % show(d)[:120]),
                 why(b.args[0] is C.member(io) or (False if ok_vocab(b.args[0]) else None),
                     'another member is used: %s' % show(b.args[0])[:100]),
                 why(eqterm(dict(b.args[2]).get(argname, NONE), sub(inp, C.key(io))),
                     'member is given %s' % show(dict(b.args[2]).get(argname, NONE))[:150]),
                 why(filter_ok(flt, truth(app('nonempty', (b,))) if False else 1), 'members left out when %s' % bshow(bnot(flt))[:200])])


def block_list(t):
    for _ in range(6):
        if t.op == 'app' and t.args[0] in ('np.array', 'np.asarray', 'todense', 'toarray', 'scipy.sparse.coo_matrix', 'copy',
                                           'tocsr', 'tocsc', 'tocoo') and t.args[1]:
            t = t.args[1][0]
            continue
        if t.op == 'app' and t.args[0] == 'scipy.sparse.block_diag':
            return the_map(t.args[1][0])
        if t.op == 'app' and t.args[0] == 'T' and len(t.args[1]) == 1:
            m = block_list(t.args[1][0])
            if m is not None and m.op == 'map':
                return mk('map', m.args[0], m.args[1], app('T', (m.args[2],)), m.args[3])
        break
    return None


def uncounted(C, body, free):
    """When the running offset leaves out a member that need not be empty:
    whether some of its entries are flagged does not decide its length."""
    for p in walk(body):
        if p.op != 'psum':
            continue
        d, j, inc = p.args[:3]
        if d is not C.d or inc.op != 'gam':
            continue
        flags = sub(FB, C.key(j))
        known = {a for f in ('np.any', 'np.all') for a in batoms(truth(app(f, (flags,))))}
        known |= {a for x in walk(inc) if x.op == 'mcall' and x.args[0] is C.member(j) and x.args[1] == 'flat_indices' for a in batoms(nonempty(x))}
        for g, l in inc.args[0]:
            anyf, allf = (truth(app(f, (flags,))) for f in ('np.any', 'np.all'))
            if l is K(0) and all(a in known for a in batoms(g)) and band(g, bor(bnot(allf), anyf)) != 0:
                return bshow(g)[:200]
    return None


def container_indices(C, t, free, why):
    m = pieces(t)
    if m is None or m.op != 'map':
        return None
    d, io, body, flt = m.args
    mc = [x for x in walk(body) if x.op == 'mcall' and x.args[1] == 'flat_indices']
    if len(set(mc)) > 1:
        mc = [x for x in mc if x.args[0] is C.member(io)]
    if len(set(mc)) != 1:
        return None
    mc = mc[0]
    part = dict(mc.args[2]).get('folded_bool', NONE)
    want = sub(FB, C.key(io))
    contributes = truth(app('nonempty', (mc,))) if False else nonempty(mc)
    contributes = band(contributes, truth(app('np.any', (want,))))
    off = C.offset(io, free)
    skipped = uncounted(C, body, free)
    if skipped:
        return why(False, 'indices are not shifted past a member when %s' % skipped)
    return all3([why(dom_verdict(d, C.d), 'members visited in another order or extent: %s' % show(d)[:120]),
                 why(mc.args[0] is C.member(io) or (False if ok_vocab(mc.args[0]) else None), 'another member is asked'),
                 why(eqterm(part, want), 'member is given %s' % show(part)[:150]),
                 why(filter_ok(flt, contributes, (truth(app('np.any', (want,))), truth(app('np.all', (want,))), nonempty(mc))), 'members left out when %s' % bshow(bnot(flt))[:300]),
                 why(eqpoly(subst(body, {mc: POS}), app('add', (POS, off))), 'indices shifted to %s, not by %s' % (show(body)[:200], show(off)[:150]))])


def concat_parts(t):
    """A text as a list of constant texts and terms; None when a part of it
    is formatted in a way that is not understood."""
    if isk(t):
        return [kval(t)] if isinstance(kval(t), str) else [str(kval(t))]
    if t.op != 'app':
        return [t]
    nm, ar, kw = t.args
    kw = dict(kw)
    if nm in ('builtins.str', 'builtins.repr') and len(ar) == 1:
        return concat_parts(ar[0]) if nm == 'builtins.str' else [ar[0]]
    if nm == 'add' and len(ar) == 2 and not kw:
        return joined([concat_parts(a) for a in ar])
    if nm != 'fmt':
        return [t]
    how = kval(kw['how']) if 'how' in kw else ''
    if how == '':
        return joined([concat_parts(a) for a in ar])
    if how == 'join' and len(ar) == 2 and isk(ar[0]):
        e = simple_elems(ar[1])
        if e is None:
            return [t]
        r = []
        for i, x in enumerate(e):
            r += ([[kval(ar[0])]] if i else []) + [concat_parts(x)]
        return joined(r)
    if how.split(':')[0] == 'format' and isk(ar[0]):
        names = how.split(':')[1:]
        pos, named = ar[1:len(ar) - len(names)], dict(zip(names, ar[len(ar) - len(names):]))
        r, auto = [], 0
        for text, field, spec, conv in string.Formatter().parse(kval(ar[0])):
            r.append([text] if text else [])
            if field is None:
                continue
            if spec or conv not in (None, 's'):
                return None
            if field == '':
                field, auto = str(auto), auto + 1
            x = named.get(field) if not field.isdigit() else pos[int(field)] if int(field) < len(pos) else None
            if x is None:
                return None
            r.append(concat_parts(x))
        return joined(r)
    if how == '%' and isk(ar[0]):
        v = simple_elems(ar[1]) if ar[1].op in ('tuple', 'list') else [ar[1]]
        bits = re.split('(%[sd%])', kval(ar[0]))
        if v is None or any('%' in b for b in bits[::2]) or sum(b in ('%s', '%d') for b in bits) != len(v):
            return None
        v = list(v)
        return joined([['%'] if b == '%%' else concat_parts(v.pop(0)) if b in ('%s', '%d') else [b] if b else [] for b in bits])
    return None


def joined(ps):
    if any(p is None for p in ps):
        return None
    r = []
    for p in ps:
        for x in p:
            if isinstance(x, str) and r and isinstance(r[-1], str):
                r[-1] += x
            elif x != '':
                r.append(x)
    return r


def index_text(parts, item, sep_ok):
    """Is the text made of the entries of the index tuple `item`, in order,
    each set off from the next? (verdict, reason)"""
    terms = [p for p in parts if not isinstance(p, str)]
    if len(terms) != 1:
        return None, ''
    t = terms[0]
    if t is item:
        return True, ''
    if not (t.op == 'app' and t.args[0] == 'fmt' and dict(t.args[2]).get('how') is K('join') and len(t.args[1]) == 2):
        return None, ''
    sep, m = t.args[1][0], the_map(t.args[1][1])
    if m is None or m.op != 'map' or not isk(sep):
        return None, ''
    d, jo, body, flt = m.args
    if kval(sep) == '' or any(c.isdigit() for c in kval(sep)):
        return False, 'the entries of the index run together'
    if flt != 1:
        return None, ''
    b = concat_parts(body)
    if b is None or len(b) != 1 or isinstance(b[0], str):
        return None, ''
    v = dom_verdict(d, mk('dom', item))
    if v is not True:
        return v, 'the entries of the index are given as %s' % show(d)[:120]
    if b[0] is sub(item, jo):
        return True, ''
    return (False if ok_vocab(b[0], ('ndindex', 'itertools.product', 'range')) else None), 'an entry of the index is written as %s' % show(b[0])[:120]


def label_leaf(t, shape, why):
    """Each name of a leaf tells the position of its entry."""
    m = pieces(t)
    if m is None or m.op != 'map' or m.args[3] != 1:
        return None
    d, io, body, _ = m.args
    parts = concat_parts(body)
    if parts is None or d.op != 'dom':
        return None
    x = d.args[0]
    if x.op == 'app' and x.args[0] == 'range' and len(x.args[1]) == 1:
        terms = [p for p in parts if not isinstance(p, str)]
        if terms == [io] or terms == [sub(x, io)]:
            return True
        return why(False if len(terms) == 0 or len(terms) == 1 and arith_vocab(terms[0]) else None, 'the name is %s' % show(body)[:150])
    if x.op == 'app' and x.args[0] in ('ndindex', 'itertools.product'):
        v, txt = index_text(parts, sub(x, io), None)
        return all3([why(v, txt), why(axes(x, shape), 'the positions run over %s' % show(x)[:150])])
    return None


def axes(x, shape):
    """Is this the index space of the shape, axes in order?"""
    if x.args[0] == 'ndindex':
        s = x.args[1][0]
        if s is shape:
            return True
    else:
        s = x
    for y in walk(s):
        if y.op == 'app' and y.args[0] in ('reversed', 'builtins.reversed', 'sorted', 'builtins.sorted') or \
                y.op == 'sub' and y.args[1].op == 'slice' and y.args[1].args[2] is K(-1):
            return False
    return None


def some_count(g, n):
    """The guard holds for some count n of at least one."""
    if g == 1:
        return True
    for v in (1, 2, 3, 5, 10, 100):
        try:
            if guard_value(g, {n: v}):
                return True
        except (NoValue, OverflowError):
            return False
    return False


def container_names(C, t, free, delim, why):
    m = pieces(t)
    if m is None or m.op != 'map':
        return shuffled(t, why)
    d, io, body, flt = m.args
    inner = pieces(body)
    if inner is None or inner.op != 'map':
        return None
    d2, jo, nm, flt2 = inner.args
    names = mk('mcall', C.member(io), 'flat_names', (('free', K(free)),))
    want = [C.key(io), delim if not isk(delim) else kval(delim), sub(names, jo)]
    r = True
    for g, one in leaves(nm):
        parts = concat_parts(one)
        if parts is None:
            r = r and None
        elif parts != want:
            r1 = False if all(isinstance(p, str) or p in (want[0], delim, want[-1]) for p in parts) and some_count(g, app('len', (names,))) else None
            r = False if False in (r, r1) else None
    return all3([why(dom_verdict(d, C.d), 'members visited in another order: %s' % show(d)[:100]),
                 why(dom_verdict(d2, mk('dom', names)), 'member names visited in another order: %s' % show(d2)[:100]),
                 why(filter_ok(flt, 1), 'members left out'), why(filter_ok(flt2, 1), 'names left out'),
                 why(r, 'name is built as %s' % show(nm)[:200])])


def judge(rep, rule, cons, o, fn, w, allow_empty=None, memo=None):
    """Apply fn to every leaf of an outcome."""
    if o.guard == 0:
        rep.unsure(rule, cons, 'never returns', w)
        return
    okk = clean_out(o)
    for i, (g, l) in enumerate(leaves(o.value)):
        c = cons if i == 0 else '%s #%d' % (cons, i + 1)
        if allow_empty is not None:
            e = allow_empty(g, l)
            if e is not None:
                if e is True:
                    rep.ok(rule, c, 'empty case', w)
                    continue
                if e is False and okk:
                    rep.bad(rule, c, 'empty result when %s' % bshow(g)[:300], w)
                    continue
                rep.unsure(rule, c, '', w)
                continue
        why = Why()
        with under(g):
            r = fn(l, why)
        if r is True:
            rep.ok(rule, c, '', w)
        elif r is False and okk:
            rep.bad(rule, c, '; '.join(why.msg) or show(l)[:300], w)
        else:
            rep.unsure(rule, c, show(l)[:300], w)


def is_empty_array(l):
    l = strip_arr(l) if l.op == 'app' and l.args[0] != 'np.array' else l
    if l.op == 'app' and l.args[0] in ('np.array', 'np.asarray') and l.args[1] and l.args[1][0].op == 'list' and \
            not simple_elems(l.args[1][0]) and simple_elems(l.args[1][0]) is not None:
        return True
    return l.op == 'app' and l.args[0] in ('np.zeros', 'np.empty') and l.args[1] and l.args[1][0] in (K(0), seq('tuple', [('e', K(0))]))


def flatten_empty(C):
    none = bnot(nonempty(C.base if C.inst.label == 'pdict' else C.base))

    def f(g, l):
        if not is_empty_array(l):
            return None
        if implies(g, none) == 1 or implies(g, bnot(nonempty_dom(C.d))) == 1:
            return True
        return False if all(ok_vocab(a) or a.op == 'dom' for a in batoms(g)) else 'unknown'
    return f


def containers(S, rep):
    """The container obligations; other properties keep the ones they need (report.Part)."""
    M = S.M
    rep.rule('length', "a container's flat length is the sum of its members' flat lengths")
    rep.rule('fold-order', 'fold gives each member its own segment: consecutive, in container order, exactly covering '
                           'the vector')
    rep.rule('flatten-order', "flatten joins the members' flat vectors in container order, none left out")
    rep.rule('indices-order', "flat_indices shifts each member's indices by the length of the members before it")
    rep.rule('jacobian-order', "Jacobians are block diagonal in container order, each block computed from the member's "
                               'own part')
    rep.rule('names-order', 'flat names follow the order of the flat vector')
    rep.rule('empty', 'the empty value puts each member\'s empty value in its own place')
    for label in ('parray', 'pdict'):
        inst = S.make(label)
        if label == 'pdict' and inst.members is None:
            rep.unsure('fold-order', 'pdict', 'member store not identified')
            continue
        C = Ctx(inst)
        sel_empty = lambda g, l: True if is_empty_array(l) else None
        for mode in (True, False):
            mn = MODES[mode]
            w = lambda m: where_method(M, inst, m)
            o = M.call(inst, 'flat_length', [K(mode)])

            def length(t, why, mode=mode):
                io = mk('iota', C.d, 0)
                want = mksum(C.d, io, C.length(io, mode)) if label == 'pdict' else \
                    app('mul', (app('np.prod', (inst.kw['array_shape'],)), C.length(io, mode)))
                return why(eqlen(t, want), '%s instead of %s' % (show(t)[:200], show(want)[:200]))
            judge(rep, 'length', '%s.flat_length(%s)' % (label, mn), o, length, w('flat_length'))
            o = M.call(inst, 'fold', [FV, K(mode), VV])
            judge(rep, 'fold-order', '%s.fold(%s)' % (label, mn), o,
                  lambda t, why: container_fold(C, t, mode, why), w('fold'))
            o = M.call(inst, 'flatten', [FO, K(mode), VV])
            judge(rep, 'flatten-order', '%s.flatten(%s)' % (label, mn), o,
                  lambda t, why: container_join(C, t, 'flatten', mode, why), w('flatten'), flatten_empty(C))
            o = M.call(inst, 'flat_indices', [FB, K(mode)])
            judge(rep, 'indices-order', '%s.flat_indices(%s)' % (label, mn), o,
                  lambda t, why: container_indices(C, t, mode, why), w('flat_indices'), sel_empty)
            if label == 'pdict':
                delim = sym('delim', 'str', 'nonnone')
                o = M.call(inst, 'flat_names', [K(mode), delim])
                judge(rep, 'names-order', 'pdict.flat_names(%s)' % mn, o,
                      lambda t, why: container_names(C, t, mode, delim, why), w('flat_names'))
        for op in ('freeing_jacobian', 'unfreeing_jacobian'):
            for sp in (TRUE, FALSE):
                o = M.call(inst, op, [FO, sp])
                judge(rep, 'jacobian-order', '%s.%s(sparse=%s)' % (label, op, show(sp)), o,
                      lambda t, why: container_join(C, t, op, None, why, joiner=block_list), w(op))
        if label == 'pdict':
            for op in ('log_abs_det_freeing_jacobian', 'log_abs_det_unfreeing_jacobian'):
                o = M.call(inst, op, [FO])

                def total(t, why, op=op):
                    io = mk('iota', C.d, 0)
                    want = mksum(C.d, io, mk('mcall', C.member(io), op, (('folded_val', sub(FO, C.key(io))),)))
                    if t.op == 'last' and not has_op(t, {'sum', 'psum', 'mu'}):
                        return why(False, 'counts the last member only')
                    return why(eqlen(t, want), '%s instead of %s' % (show(t)[:200], show(want)[:200]))
                judge(rep, 'jacobian-order', 'pdict.%s' % op, o, total, w(op))
        for valid in (TRUE, FALSE):
            o = M.call(inst, 'empty', [valid])

            def empty(t, why, valid=valid):
                if label == 'pdict':
                    if t.op != 'dictmap':
                        return None
                    d, io, key, val, flt = t.args
                    flt = B_(flt)
                    return all3([why(dom_verdict(d, C.d), 'members in another order'),
                                 why(eqterm(key, C.key(io)), 'stored under %s' % show(key)[:100]),
                                 why(filter_ok(flt, 1), 'members left out'),
                                 why(same_call(val, mk('mcall', C.member(io), 'empty', (('valid', valid),))), 'holds %s' % show(val)[:150])])
                if t.op == 'app' and t.args[0] == 'np.reshape' and not t.args[2]:
                    m = pieces(t.args[1][0])
                    if m is None:
                        return None
                    d, io, val, flt = m.args
                    shp = t.args[1][1]
                    return all3([why(dom_verdict(d, C.d) if d is C.d else None, ''),
                                 why(True if shp is array_shape(C) else (False if ok_vocab(shp) else None),
                                     'arranged as %s' % show(shp)[:150]),
                                 why(same_call(val, mk('mcall', C.member(io), 'empty', (('valid', valid),))), 'holds %s' % show(val)[:150])])
                return None
            judge(rep, 'empty', '%s.empty(%s)' % (label, show(valid)), o, empty, w('empty'))


def p06(S, rep, tier):
    M = S.M
    containers(S, rep)
    rep.rule('names-count', 'there is one name per entry of the flat vector')
    rep.rule('names-label', 'the name of an entry tells its position: its index along every axis in order, or its place in the vector')
    rep.rule('leaf-order', 'a leaf lays out its non-free entries in row-major order, both ways')
    for label in LEAVES:
        inst = S.make(label)
        w = lambda m: where_method(M, inst, m)
        o = M.call(inst, 'fold', [FV, FALSE, VV])
        shp = leaf_shape(inst)

        def ff(t, why):
            t = drop_wrappers(t, {})
            if t.op == 'app' and t.args[0] == 'np.reshape' and t.args[1][0] is FV:
                od = dict(t.args[2]).get('order')
                if od is not None and od is not K('C'):
                    return why(False if isk(od) else None, 'arranged in order %s' % show(od))
                s = t.args[1][1]
                return why(True if s is shp else (False if ok_vocab(s) else None), 'arranged as %s' % show(s))
            if any(x.op == 'app' and x.args[0] == 'T' for x in walk(t)) and ok_vocab(t, ('np.reshape', 'T')):
                return why(False, 'transposed')
            return None
        judge(rep, 'leaf-order', '%s.fold(non-free)' % label, o, ff, w('fold'))
        o = M.call(inst, 'flatten', [FO, FALSE, VV])

        def fl(t, why):
            t = drop_wrappers(t, {})
            if t.op == 'app' and t.args[0] in ('np.flatten', 'np.ravel', 'np.reshape') and t.args[1][0] is FO:
                od = dict(t.args[2]).get('order')
                if t.args[0] != 'np.reshape' and len(t.args[1]) > 1:
                    od = t.args[1][1]
                if t.args[0] == 'np.reshape' and not (len(t.args[1]) > 1 and t.args[1][1] in (K(-1), seq('tuple', [('e', K(-1))]))):
                    return None
                if od is not None and od is not K('C'):
                    return why(False if isk(od) else None, 'flattened in order %s' % show(od))
                return True
            if any(x.op == 'app' and x.args[0] == 'T' for x in walk(t)) and ok_vocab(t, ('np.flatten', 'np.ravel', 'T')):
                return why(False, 'transposed')
            return None
        judge(rep, 'leaf-order', '%s.flatten(non-free)' % label, o, fl, w('flatten'))
    for label in LEAVES + ('parray',):
        inst = S.make(label)
        w = where_method(M, inst, 'flat_names')
        for mode in (True, False):
            o = M.call(inst, 'flat_names', [K(mode)])
            L = M.call(inst, 'flat_length', [K(mode)]).value

            def cnt(t, why):
                m = pieces(t)
                if m is None:
                    return None
                d, io, body, flt = m.args
                if flt != 1:
                    return None
                x = d.args[0]
                n = domlen(d)
                r = None
                if n is not None:
                    r = eqlen(n, L)
                ax = x.args[1][0] if x.op == 'app' and x.args[0] == 'ndindex' else NONE
                if r is None and ax.op == 'sub' and ax.args[1].op == 'slice' and ax.args[0] is leaf_shape(inst):
                    r = False
                return why(r, 'names run over %s, the vector has %s entries' % (show(d)[:150], show(L)[:150]))
            judge(rep, 'names-count', '%s.flat_names(%s)' % (label, MODES[mode]), o, cnt, w)
            judge(rep, 'names-label', '%s.flat_names(%s)' % (label, MODES[mode]), o,
                  lambda t, why: label_leaf(t, leaf_shape(inst), why), w)


LEAVES = ('numeric', 'numeric_lb', 'numeric_ub', 'numeric_free', 'psd', 'simplex')


def leaf_shape(inst):
    if inst.label.startswith('numeric'):
        return sym('shape', 'tuple')
    if inst.label == 'psd':
        n = inst.kw['size']
        return seq('tuple', [('e', n), ('e', n)])
    if inst.label == 'parray':
        return seq('tuple', [('s', inst.kw['array_shape']), ('s', app('np.shape', (
            mk('mcall', inst.kw['base_pattern'], 'empty', (('valid', FALSE),)),)))])
    return seq('tuple', [('s', inst.kw['array_shape']), ('e', inst.kw['simplex_size'])])


def strip_int(t):
    def fn(x):
        if x.op == 'app' and x.args[0] == 'builtins.int' and len(x.args[1]) == 1:
            return strip_int(x.args[1][0])
        return None
    return rewrite(t, fn, {})


def eqlen(got, want):
    g0, w0 = got, want
    got, want = strip_int(got), strip_int(want)
    if got is want:
        return True
    try:
        if poly_eq(got, want) or poly_eq(g0, w0):
            return True
    except Unsupported:
        return False if samples_differ(g0, w0) else None
    if g0 is not got or any(x.op in ('sum', 'psum') and quantities([x]) is not None for x in walk(got)):
        return False if samples_differ(g0, w0) else None       # truncation may make up for a difference
    return differ(got, want)
