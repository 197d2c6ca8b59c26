"""P23: flat lengths and flat indices of the leaf patterns address the flat
vector exactly."""
from ..canon import *
from .. import algebra as AL
from ..algebra import poly_eq, Unsupported
from ..report import Part
from .layout import containers, leaf_shape, eqlen, under, pieces, Why, ok_vocab, strip_int, arith_vocab, is_empty_array, filter_ok
from .ranges import verdict_of
from .examples import shape_of, same_shape, tuple_of

LEAF = ('numeric', 'numeric_lb', 'numeric_ub', 'numeric_free', 'vector', 'scalar', 'psd', 'simplex')
NARROW = {'int8', 'int16', 'uint8', 'uint16', 'i1', 'i2', 'u1', 'u2', 'byte', 'ubyte', 'short', 'ushort'}
INTS = {'int', 'int64', 'intp', 'int_', 'int32', 'i8'}


def want_length(inst, label, mode):
    if label == 'vector':
        return inst.kw['length']
    if label == 'scalar':
        return K(1)
    if label.startswith('numeric'):
        return app('np.prod', (inst.kw['shape'],))
    if label == 'psd':
        n = inst.kw['size']
        return app('div', (app('mul', (n, app('add', (n, K(1))))), K(2))) if mode else app('mul', (n, n))
    n = inst.kw['simplex_size']
    m = app('sub', (n, K(1))) if mode else n
    return app('mul', (app('np.prod', (inst.kw['array_shape'],)), m))


def spread(t):
    """np.prod of a tuple with a splice as a product."""
    def fn(x):
        if x.op == 'app' and x.args[0] == 'np.prod' and len(x.args[1]) == 1 and x.args[1][0].op == 'tuple':
            r = None
            for k, y in x.args[1][0].args[0]:
                f = spread(y) if k == 'e' else app('np.prod', (y,))
                r = f if r is None else app('mul', (r, f))
            return r if r is not None else K(1)
        return None
    return rewrite(t, fn, {})


def length_of(t, want):
    return eqlen(spread(strip_int(t)), spread(strip_int(want)))


def int_dtype(d):
    """True/False/None: is the dtype an integer one?"""
    if d is None:
        return None
    s = show(d).strip("'").replace('ext<', '').rstrip('>').split('.')[-1]
    if s in INTS:
        return True
    if s in NARROW:
        return False        # positions wrap around
    return False if s.startswith(('float', 'bool', 'complex', 'str', 'object')) else None


def arange_of(t):
    """(start, stop, integer?) of an arange, step one."""
    if not (t.op == 'app' and t.args[0] == 'np.arange'):
        return None
    ar, kw = t.args[1], dict(t.args[2])
    d = kw.pop('dtype', None)
    if kw or not ar or len(ar) > 3 or len(ar) == 3 and ar[2] is not K(1):
        return None
    a, b = (K(0), ar[0]) if len(ar) == 1 else ar[:2]
    whole = all(intlike(x) for x in ar[:2])
    return a, b, int_dtype(d) if d is not None else (True if whole else None)


def intlike(x):
    x = spread(x)
    if isk(x):
        return isinstance(kval(x), int)
    if x.op in ('sym', 'iota'):
        return x.op == 'iota' or 'int' in x.args[1]
    if x.op == 'app' and x.args[0] in ('add', 'sub', 'mul', 'pow', 'np.prod', 'builtins.int', 'len', 'np.size'):
        return x.args[0] in ('np.prod', 'builtins.int', 'len', 'np.size') or all(intlike(y) for y in x.args[1])
    return False


def peel(t, order):
    """Below copies and reshapes; order collects index rearrangements."""
    while t.op == 'app' and t.args[0] in ('copy', 'np.array', 'np.asarray', 'np.atleast_1d', 'np.reshape', 'np.flatten', 'np.ravel', 'T') and t.args[1]:
        kw = dict(t.args[2])
        o = kw.get('order')
        if t.args[0] == 'T' or o is not None and isk(o) and kval(o) in ('F', 'A', 'K'):
            order.append(t)
        elif o is not None and not isk(o):
            return None
        d = kw.get('dtype')
        if d is not None and int_dtype(d) is not True and 'bool' not in show(d):
            return None
        t = t.args[1][0]
    return t


def flagged(t, why):
    """Is the mask the flags given, in their own order? True/False/None"""
    o = []
    x = peel(t, o)
    if x is None:
        return None
    if x is FB:
        return why(False, 'the flags are rearranged') if o else True
    if x.op == 'app' and x.args[0] in ('not', 'np.logical_not', 'invert') and peel(x.args[1][0], o) is FB:
        return why(False, 'selects the entries that are not flagged')
    if x.op == 'app' and x.args[0] in ('np.tril', 'np.triu') and x.args[1] and peel(x.args[1][0], o) is FB:
        return why(False, 'ignores flags outside one triangle')
    return None


def masked(t, want, why):
    """A selection of flat positions by the flags: True/False/None, integer?"""
    t = unwrap(t)
    if t.op == 'app' and t.args[0] in ('np.flatnonzero',) and len(t.args[1]) == 1:
        return flagged(t.args[1][0], why), True
    if t.op == 'sub' and t.args[1] is K(0) and t.args[0].op == 'app' and t.args[0].args[0] in ('np.where', 'np.nonzero') and len(t.args[0].args[1]) == 1:
        x = t.args[0].args[1][0]
        flat = x.op == 'app' and (x.args[0] in ('np.flatten', 'np.ravel') or x.args[0] == 'np.reshape' and x.args[1][1] in (K(-1), seq('tuple', [('e', K(-1))])))
        return (flagged(x, why) if flat else None), True
    if t.op == 'app' and t.args[0] in ('add', 'sub') and len(t.args[1]) == 2 and not t.args[2]:
        for a, b in (t.args[1], t.args[1][::-1]):
            if isk(b) or b.op == 'sym':
                r, i = masked(a, want, Why())
                if r is True and zero(b) is False:
                    return why(False, 'the positions are shifted by %s' % show(b)), i
        return None, None
    if t.op != 'sub':
        return None, None
    o = []
    x = peel(t.args[0], o)
    f = flagged(t.args[1], why)
    if x is None or f is None:
        return None, None
    r = affine(x)
    if r is None:
        return None, None
    base, off, integer = r
    if integer is False:
        why(False, 'the positions are not integers')
    res = [f, why(not o, 'the positions are rearranged'), why(zero(off), 'the positions are shifted by %s' % show(off)),
           why(length_of(base, want), 'numbers %s entries instead of %s' % (show(base)[:100], show(want)[:100]))]
    return (False if False in res else None if None in res else True), integer


def unwrap(t):
    while t.op == 'app' and t.args[0] in ('copy', 'np.array', 'np.asarray', 'np.atleast_1d', 'np.flatten', 'np.ravel') and len(t.args[1]) == 1:
        d = dict(t.args[2]).get('dtype')
        if d is not None and int_dtype(d) is not True or set(dict(t.args[2])) - {'dtype', 'copy'}:
            return t
        t = t.args[1][0]
    return t


def affine(x):
    """(count, offset, integer?) for arange plus constants."""
    if x.op == 'app' and x.args[0] in ('add', 'sub') and len(x.args[1]) == 2:
        a, b = x.args[1]
        for p, q in ((a, b), (b, a)):
            if x.args[0] == 'sub' and p is b:
                continue
            r = affine(peel(p, []) or p)
            if r is not None and (isk(q) or q.op == 'sym' or arith_vocab(q)):
                n, off, i = r
                return n, app(x.args[0], (off, q)), i
        return None
    r = arange_of(x)
    if r is None:
        return None
    a, b, i = r
    return (b if a is K(0) else app('sub', (b, a))), a, i


def length_under(g, l, want):
    with under(g):
        return length_of(l, want)


def zero(t):
    try:
        return poly_eq(t, K(0))
    except Unsupported:
        return None


def p23(S, rep, tier):
    M = S.M
    rep.rule('length', 'flat_length is the number of entries, or of free parameters, of the folded value')
    rep.rule('indices', 'flat_indices gives the positions in the flat vector of exactly the entries flagged (free: of the '
                        'parameters they depend on), in increasing order')
    rep.rule('integer', 'flat_indices gives integers, also when nothing is flagged')
    rep.rule('accepts', 'flat_indices refuses no flags of the folded shape')
    for label in LEAF:
        inst = S.make(label)
        wl, wi = where_method(M, inst, 'flat_length'), where_method(M, inst, 'flat_indices')
        for mode in (True, False):
            mn = 'free' if mode else 'non-free'
            want = want_length(inst, label, mode)
            o = M.call(inst, 'flat_length', [K(mode)])
            cons = '%s %s.flat_length(%s)' % (label, inst.name, mn)
            if clean_out(o) and o.guard:
                verdict_of(rep, 'length', cons, [
                    (length_under(g, l, want), '%s instead of %s' % (show(l)[:200], show(want)[:200])) for g, l in leaves(o.value)], wl)
            else:
                rep.unsure('length', cons, '', wl)
            o = M.call(inst, 'flat_indices', [FB, K(mode)])
            cons = '%s %s.flat_indices(%s)' % (label, inst.name, mn)
            if not clean_out(o):
                rep.unsure('indices', cons, show(o.value)[:200], wi)
                continue
            if not o.guard:
                rep.bad('indices', cons, 'always raises', wi)
                continue
            indices(rep, inst, label, mode, o, want, cons, wi)
            accepts(rep, inst, label, o, cons, wi)
    containers(S, Part(rep, {'length': 'members', 'indices-order': 'members'}))
    rep.rule('members', "a container's length is the sum of its members', its indices theirs shifted by the lengths before")
    for label in ('parray', 'pdict'):
        inst = S.make(label)
        wi = where_method(M, inst, 'flat_indices')
        for mode in (True, False):
            o = M.call(inst, 'flat_indices', [FB, K(mode)])
            cons = '%s %s.flat_indices(%s)' % (label, inst.name, 'free' if mode else 'non-free')
            if not clean_out(o):
                rep.unsure('integer', cons, '', wi)
                continue
            cases = []
            for g, l in leaves(o.value):
                if is_empty(l):
                    cases.append((empty_int(l), 'the empty result is not an integer array'))
            if cases:
                verdict_of(rep, 'integer', cons, cases, wi)


def is_empty(l):
    return l.op == 'app' and l.args[0] in ('np.array', 'np.asarray') and l.args[1] and l.args[1][0].op in ('list', 'tuple') and \
        simple_elems(l.args[1][0]) == [] or l.op == 'app' and l.args[0] in ('np.zeros', 'np.empty', 'np.arange', 'np.ones') and l.args[1] and \
        l.args[1][0] in (K(0), seq('tuple', [('e', K(0))])) or l.op == 'alit' and not l.args


def empty_int(l):
    if l.args and l.args[0] == 'np.arange':
        return int_dtype(dict(l.args[2]).get('dtype')) if 'dtype' in dict(l.args[2]) else True
    d = dict(l.args[2]).get('dtype') if l.op == 'app' else None
    if d is None and l.op == 'app' and len(l.args[1]) > 1:
        d = l.args[1][1]
    if d is None:
        return False
    return int_dtype(d)


def anyflag():
    return truth(app('np.any', (FB,)))


def indices(rep, inst, label, mode, o, want, cons, w):
    cases, ints = [], []
    some = anyflag()
    for g, l in leaves(o.value):
        g = band(g, o.guard)
        if g == 0:
            continue
        l = drop_dup(l)
        if is_empty(l):
            if not (implies(g, some) == 1 and nothing(g, inst, label) is True):
                ints.append((empty_int(l), 'the empty result is not an integer array'))
            if implies(g, bnot(some)) == 1:
                cases.append((True, ''))
            else:
                e = nothing(band(g, some), inst, label)
                cases.append((e, 'gives no positions although entries are flagged, when %s' % bshow(g)[:200]))
            continue
        why = Why()
        with under(g):
            r, i = (whole(l, want, why) if label == 'psd' else simplices(l, inst, why)) if mode and label in ('psd', 'simplex') else \
                masked(l, want, why)
        if mode and label == 'psd':
            if r is True and implies(g, some) != 1:
                r = why(False if band(g, bnot(some)) != 0 and set(batoms(g)) <= set(batoms(some)) | shape_atoms(g) else None,
                        'gives every parameter also when nothing is flagged')
        cases.append((r, '; '.join(x for x in why.msg if x) or show(l)[:200]))
        ints.append((i, 'the positions are not integers'))
    verdict_of(rep, 'indices', cons, cases, w)
    verdict_of(rep, 'integer', cons, ints, w)


def shape_atoms(g):
    return {a for a in batoms(g) if a.op == 'app' and a.args[0] == 'eq'}


def drop_dup(l):
    while l.op == 'app' and l.args[0] in ('copy', 'np.unique', 'np.sort') and len(l.args[1]) == 1 and not l.args[2]:
        l = l.args[1][0]
    return l


def nothing(g, inst, label):
    """Under the guard, some entry is flagged: is it wrong to give nothing?"""
    if g == 0:
        return True
    ex = [a for a in batoms(g) if a.op == 'exists']
    if label == 'simplex' and ex:
        # no simplex has a flag, contradicting the flag somewhere
        for a in ex:
            if cofactor(g, a, True) == 0 and covers(a, inst):
                return True
        return None
    return False if all(a.op == 'app' and a.args[0] in ('np.any', 'eq') for a in batoms(g)) and \
        not any(a.args[0] == 'np.any' and a.args[1][0] is not FB for a in batoms(g)) else None


def covers(a, inst):
    """exists over all simplices: some entry of it is flagged."""
    d, io, body = a.args[0], a.args[1], a.args[2]
    item = item_of(d, io, inst)
    if item is None:
        return False
    b = body if not isinstance(body, T) else body
    try:
        want = truth(app('np.any', (sub(FB, item),)))
        return B_(b) == want if isinstance(b, T) else b == want
    except Exception:
        return False


def item_of(d, io, inst):
    x = d.args[0]
    if d.op == 'dom' and x.op == 'app' and x.args[0] == 'ndindex' or x.op == 'ndindex':
        return sub(x, io)
    return None


def whole(l, want, why):
    r = affine(unwrap(l))
    if r is None:
        x, i = masked(l, want, why)
        if x is not None and not any('flag' in m for m in why.msg):
            return why(False, 'gives only some of the parameters: %s' % show(l)[:120]), i
        return None, None
    n, off, i = r
    res = [why(zero(off), 'starts at %s' % show(off)), why(length_of(n, want), 'gives %s positions instead of %s' % (show(n)[:100], show(want)[:100]))]
    return (False if False in res else None if None in res else True), i


def simplices(l, inst, why):
    m = pieces(l)
    if m is None or m.op != 'map':
        return None, None
    d, io, body, flt = m.args
    item = item_of(d, io, inst)
    if item is None or not (d.args[0].args[1:] and contains(d, inst.kw['array_shape'])):
        return None, None
    r = affine(unwrap(body))
    if r is None:
        return None, None
    n, off, i = r
    k = app('sub', (inst.kw['simplex_size'], K(1)))
    f = B_(flt) if isinstance(flt, T) else flt
    want = truth(app('np.any', (sub(FB, item),)))
    fr = True if f == want else None
    if f == 1:
        fr = False
    elif fr is None and implies(want, f) != 1 and all(a.op == 'app' and a.args[0] in ('np.any', 'np.all') for a in batoms(f)):
        fr = False
    res = [why(eqlen(n, k), 'gives %s positions per simplex instead of %s' % (show(n)[:100], show(k))),
           why(eqlen(off, app('mul', (io, k))), 'a simplex starts at %s instead of %s' % (show(off)[:100], show(app('mul', (io, k))))),
           why(fr, 'a simplex is selected when %s' % bshow(f)[:150])]
    return (False if False in res else None if None in res else True), i


def accepts(rep, inst, label, o, cons, w):
    """No refusal for flags of the right shape."""
    g = o.guard
    for a in list(batoms(g)):
        if a.op == 'app' and a.args[0] == 'eq':
            for x, y in (a.args[1], a.args[1][::-1]):
                if y.op == 'app' and y.args[0] == 'np.shape' and peel(y.args[1][0], []) is FB:
                    g = cofactor(g, a, True)
                elif y.op == 'app' and y.args[0] == 'len' and y.args[1][0].op == 'app' and y.args[1][0].args[0] == 'np.arange':
                    z = y.args[1][0].args[1]
                    if len(z) == 1 and (z[0] is x or length_of(z[0], x)):
                        g = cofactor(g, a, True)
    if g == 1:
        return rep.ok('accepts', cons, where=w)
    simple = all(a.op == 'app' and a.args[0] in ('np.any', 'np.all') and a.args[1][0] is FB for a in batoms(g))
    (rep.bad if simple else rep.unsure)('accepts', cons, 'refused when %s' % bshow(bnot(g))[:200], w)
