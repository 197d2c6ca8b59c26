"""P19: the transforms to and from flat vectors are mutually inverse."""
from ..suite import *
from .. import algebra as AL
from ..parts import *
from ..report import Part
from ..orders import lifted, orders

NUM = ('numeric', 'numeric_lb', 'numeric_ub', 'numeric_free', 'vector', 'scalar')
LB, UB = sym('lb', 'finite', 'nonnone'), sym('ub', 'finite', 'nonnone')
DLB = sym('diag_lb', 'finite')
BOUNDS = {'numeric': (LB, UB), 'vector': (LB, UB), 'scalar': (LB, UB), 'numeric_lb': (LB, None),
          'numeric_ub': (None, UB), 'numeric_free': (None, None)}


def evaluator(M, inst, label):
    """make(choices) -> Ev for the pattern, and the two input values."""
    if label in NUM:
        lb, ub = BOUNDS[label]

        def leaf(x):
            return V('e', {'': LL(AL.ra(x))})

        def make(ch):
            e = Ev({FV: leaf(FV), FO: leaf(FO)}, choice=ch)
            lo = -INF if lb is None else LL(AL.ra(lb))
            hi = INF if ub is None else LL(AL.ra(ub))
            e.ranges = {FO: (lo, hi), FV: (-INF, INF)}
            e.params = (LB, UB)
            e.rank1 = label in ('vector', 'scalar')
            return e
        return make, leaf(FV), leaf(FO)
    if label == 'simplex':
        n = simplex_size(M, inst)
        z, x0, x = sym('z'), sym('p0'), sym('p')
        fv = V('free', {'+': LL(AL.ra(z))}, True)
        fo = V('full', {'0': LL(AL.ra(x0)), '+': LL(AL.ra(x))})

        def make(ch):
            e = Ev({FV: fv, FO: fo}, n=n, choice=ch)
            e.indexed = {z, x}
            e.totals = {x: LL(AL.rc(1) - AL.ra(x0))}
            e.ranges = {x: (AL.num(0), AL.num(1)), x0: (AL.num(0), AL.num(1)), z: (-INF, INF)}
            e.rowshapes = (sym('array_shape', 'tuple'),)
            return e
        return make, fv, fo
    if label == 'psd':
        vd, vl, md, ml = (sym(c) for c in ('v_diag', 'v_low', 'm_diag', 'm_low'))
        fv = V('ld', {'d': LL(AL.ra(vd)), 'l': LL(AL.ra(vl))})
        fo = V('mat', {'d': LL(AL.ra(md)), 'l': LL(AL.ra(ml)), 'u': LL(AL.ra(ml))})

        def make(ch):
            return Ev({FV: fv, FO: fo}, choice=ch)
        return make, fv, fo


def diag_low(ev):
    """diag_lb, or the one number it is in the case at hand."""
    return pinned(ev, DLB)


def pinned(ev, b):
    c = getattr(ev, 'pins', {}).get(b)
    return LL(AL.ra(b)) if c is None else AL.num(c)


def simplex_size(M, inst):
    o = M.call(inst, 'simplex_size', [])
    return o.value


def p19(S, rep, tier):
    M = S.M
    rep.rule('free', 'folding then flattening, and flattening then folding, give the input back in exact arithmetic')
    rep.rule('plain', 'the non-free transforms only rearrange the values')
    rep.rule('symmetric', 'a matrix folded from free parameters is symmetric')
    M.I.inline_prims = True
    try:
        for label in NUM + ('simplex', 'psd'):
            inst = S.make(label)
            make, fv, fo = evaluator(M, inst, label)
            for first, second, x, want in (('flatten', 'fold', FO, fo), ('fold', 'flatten', FV, fv)):
                cons = '%s %s.%s(%s(x))' % (label, inst.name, second, first)
                w = where_method(M, inst, second)
                o = compose(M, inst, first, second, x, TRUE)
                check_value(rep, 'free', cons, o, make, want, w)
                o = compose(M, inst, first, second, x, FALSE)
                check_plain(rep, cons + ' non-free', o, x, w, any_value=first == 'fold')
                if first == 'flatten':
                    check_plain(rep, '%s %s.flatten non-free' % (label, inst.name), M.call(inst, 'flatten', [x, FALSE, FALSE]), x,
                                where_method(M, inst, 'flatten'), any_value=True)
            if label == 'psd':
                o = M.call(inst, 'fold', [FV, TRUE, FALSE])
                symmetric(rep, 'psd %s.fold(free)' % inst.name, o, make, where_method(M, inst, 'fold'))
    finally:
        M.I.inline_prims = False
    from .layout import containers
    containers(S, Part(rep, {'fold-order': 'members', 'flatten-order': 'members'}))
    rep.rule('members', 'a container folds each member from the segment it flattens that member to')


def compose(M, inst, first, second, x, free):
    o = M.call(inst, first, [x, free, FALSE])
    if not o.guard or not clean_out(o):
        return o
    return M.call(inst, second, [o.raw, free, FALSE], {}, o.store, o.guard)


def results(o, make):
    """(guard, choices, value or exception, Ev) for every case of a value."""
    for g, l in lifted(o.value):
        pins = {}
        lim = any(contains(a, p) for a in batoms(g) for p in (LB, UB))
        if lim:
            bs = [b for b in (LB, UB) if any(contains(a, b) for a in batoms(g))]
            at = orders(g, bs)
            if at == []:
                continue            # no pair of bounds with lb < ub is like that
            for b in bs:
                if at and len({env[b] for env in at}) == 1:
                    pins[b] = at[0][b]
            if any(not (a.op == 'app' and a.args[0] in ('lt', 'le', 'gt', 'ge', 'eq', 'ne')) and any(contains(a, p) for p in (LB, UB)) for a in batoms(g)):
                yield g, {}, Unsupported('whether %s' % bshow(g)[:200]), None
                continue

        if any(contains(a, DLB) for a in batoms(g)):
            at = orders(g, [DLB], (0,))
            if at is None:
                yield g, {}, Unsupported('whether %s' % bshow(g)[:200]), None
                continue
            at = {env[DLB] for env in at if env[DLB] >= 0}
            if not at:
                continue            # diag_lb is not negative
            if len(at) == 1:
                pins[DLB] = at.pop()

        if pins:
            l = subst(l, {b: K(int(c) if c == int(c) else float(c)) for b, c in pins.items()})

        def mk_(ch):
            e = make(ch)
            e.restricted = lim
            e.pins = pins
            for x, (lo, hi) in list(getattr(e, 'ranges', {}).items()):
                e.ranges[x] = tuple(AL.num(pins[b]) if b in pins and isinstance(y, LL) and y.equal(LL(AL.ra(b))) is True else y
                                    for b, y in ((LB, lo), (UB, hi)))
            return e
        for ch, v, ev in branches(mk_, l):
            yield g, ch, v, ev


def open_choice(ch):
    """Do the choices describe a set of inputs with interior, away from the
    ranges where approximations are made on purpose?"""
    for t in ch:
        c = t.args[1][0]
        if not (c.op == 'app' and c.args[0] in ('lt', 'le', 'gt', 'ge', 'not', 'and', 'or')):
            return False
        for y in walk(c):
            if isk(y) and isinstance(kval(y), (int, float)) and abs(kval(y)) >= 15:
                return False
    return True


def check_value(rep, rule, cons, o, make, want, w, what='the input'):
    if not o.guard:
        return rep.bad(rule, cons, 'always raises %s' % sorted({r.exc for r in o.raises}), w) if clean_out(o) else rep.unsure(rule, cons, 'not analysed', w)
    if not clean_out(o):
        return rep.unsure(rule, cons, show(o.value)[:300], w)
    bad, unclear = [], []
    for g, ch, v, ev in results(o, make):
        at = ''.join(' when %s is %s' % (show(t.args[1][0])[:80], bool(c)) for t, c in ch.items())
        if isinstance(v, Wrong):
            r = False, str(v)
        elif isinstance(v, Exception):
            r = None, str(v)
        else:
            try:
                e = same(v, want)
            except Unsupported as x:
                e = None
            r = e, 'gives %s instead of %s' % (v.show()[:300], want.show()[:200])
        if r[0] is False and open_choice(ch):
            bad.append(r[1] + at)
        elif r[0] is not True:
            unclear.append(r[1] + at)
    if bad:
        rep.bad(rule, cons, '; '.join(bad)[:800], w)
    elif unclear:
        rep.unsure(rule, cons, '; '.join(unclear)[:600], w)
    else:
        rep.ok(rule, cons, where=w)


PLAIN = {'copy', 'np.array', 'np.asarray', 'np.atleast_1d', 'np.reshape', 'np.flatten', 'np.ravel'}


def strip_plain(t):
    """(leaf, clear) below copies and reshapes."""
    while t.op == 'app' and t.args[0] in PLAIN and t.args[1]:
        kw = dict(t.args[2])
        for k, v in list(kw.items()):
            if k == 'order' and isk(v) and kval(v) == 'C' or k in ('copy', 'ndmin'):
                kw.pop(k)
            elif k == 'dtype' and 'float' in show(v):
                kw.pop(k)
        if t.args[0] in ('np.array', 'np.asarray') and len(t.args[1]) > 1 or t.args[0] == 'np.reshape' and len(t.args[1]) > 2 or t.args[0] in ('np.flatten', 'np.ravel') and len(t.args[1]) > 1:
            return None, t
        if kw:
            return None, t
        t = t.args[1][0]
    return t, t


# functions of real numbers that give some of them another value
CHANGES = {'np.clip', 'np.maximum', 'np.minimum', 'np.abs', 'builtins.abs', 'np.fabs', 'np.round', 'np.around', 'np.rint', 'np.fix', 'np.trunc',
           'np.floor', 'np.ceil', 'np.sort', 'np.sign', 'np.square', 'np.tril', 'np.triu', 'np.exp', 'np.log', 'np.sqrt', 'np.cumsum', 'np.diff'}
SUMMARY = {'np.sum', 'np.mean', 'np.max', 'np.min', 'np.amax', 'np.amin', 'np.linalg.norm', 'np.prod', 'np.std', 'np.cumsum', 'np.median'}


def alters(t, x):
    """A change made to some of the values of x on the way, when there
    certainly is one."""
    y, rest = strip_plain(t)
    if y is not None:
        if y.op not in ('app', 'store'):
            return ''
        rest = y
    if y is not None and y.op == 'store' and len(y.args) == 3:
        a, i, v = y.args
        if strip_plain(a)[0] is x and chosen_by(i, x) and not contains(v, x):
            return 'overwrites values: %s' % show(y)[:160]
        return alters(a, x) if strip_plain(a)[0] is not x else ''
    if rest.op != 'app':
        return ''
    nm, ar = rest.args[0], rest.args[1]
    on = [a for a in ar if contains(a, x)]
    if nm in CHANGES and len(on) == 1 and on[0] is ar[0] or nm in ('np.maximum', 'np.minimum') and len(on) == 1:
        if nm in ('np.clip', 'np.maximum', 'np.minimum') and all(isk(a) and kval(a) in (float('inf'), -float('inf'), None) for a in ar if a is not on[0]):
            return alters(on[0], x)
        if strip_plain(on[0])[0] is x or alters(on[0], x):
            return 'changes values: %s' % show(rest)[:160]
    if nm == 'np.where' and len(ar) == 3 and chosen_by(ar[0], x):
        for a, b in (ar[1:], ar[:0:-1]):
            if strip_plain(a)[0] is x and not contains(b, x):
                return 'overwrites values: %s' % show(rest)[:160]
    if nm in ('div', 'mul', 'sub', 'add') and len(ar) == 2 and len(on) == 2:
        for a, b in (ar, ar[::-1]):
            if strip_plain(a)[0] is x and summary(b, x):
                return 'changes values: %s' % show(rest)[:160]
            if nm in ('add', 'sub') and strip_plain(a)[0] is x and b.op == 'app' and b.args[0] in ('T', 'np.transpose') and strip_plain(b.args[1][0])[0] is x:
                return 'mixes entries: %s' % show(rest)[:160]
    if len(on) == 1 and nm in ('div', 'mul', 'sub', 'add') and len(ar) == 2 and all(isk(a) for a in ar if a not in on):
        return alters(on[0], x)
    return ''


def chosen_by(t, x):
    """A selection by an inequality on the values that some values meet."""
    if t.op == 'B':
        return len(batoms(t.args[0])) == 1 and chosen_by(batoms(t.args[0])[0], x)
    return t.op == 'app' and t.args[0] in ('lt', 'le', 'gt', 'ge', 'not', 'np.isnan') and any(strip_plain(a)[0] is x or t.args[0] == 'not' and chosen_by(a, x) for a in t.args[1]) \
        and not any(isk(a) and kval(a) in (float('inf'), -float('inf')) for a in t.args[1])


def on_values(g, x):
    """Some condition in the guard depends on the values of x."""
    def dep(t):
        if t is x:
            return True
        if t.op == 'app' and t.args[0] in ('np.shape', 'np.ndim', 'np.size', 'len'):
            return False
        return any(dep(y) for y in children(t))
    return any(dep(a) for a in batoms(g))


def summary(t, x):
    while t.op == 'app' and t.args[0] in ('np.expand_dims', 'np.reshape', 'np.abs') or t.op == 'sub':
        t = t.args[1][0] if t.op == 'app' else t.args[0]
    return t.op == 'app' and t.args[0] in SUMMARY and bool(t.args[1]) and (strip_plain(t.args[1][0])[0] is x or bool(alters(t.args[1][0], x)))


def check_plain(rep, cons, o, x, w, any_value=False):
    rule = 'plain'
    if not clean_out(o):
        return rep.unsure(rule, cons, show(o.value)[:300], w)
    if not o.guard:
        return rep.bad(rule, cons, 'always raises %s' % sorted({r.exc for r in o.raises}), w)
    bad, unclear = [], []
    for g, l in leaves(o.value):
        y, rest = strip_plain(l)
        if y is x:
            continue
        ch = any_value and not on_values(g, x) and alters(l, x)
        if ch:
            bad.append(ch)
            continue
        if y is None:
            d = dict(rest.args[2]).get('dtype')
            if d is not None and ('int' in show(d) or 'bool' in show(d)):
                bad.append('converts the values to %s' % show(d))
                continue
            unclear.append(show(rest)[:200])
            continue
        try:
            v = Ev({x: V('e', {'': LL(AL.ra(x))})}).ev(l)
            e = v.parts['' if '' in v.parts else list(v.parts)[0]].equal(LL(AL.ra(x)))
            if e is False:
                bad.append('gives %s' % show(l)[:200])
            elif e is None:
                unclear.append(show(l)[:200])
        except Wrong as e:
            bad.append(str(e))
        except (Unsupported, NeedChoice):
            unclear.append(show(l)[:200])
    if bad:
        rep.bad(rule, cons, '; '.join(bad), w)
    elif unclear:
        rep.unsure(rule, cons, '; '.join(unclear), w)
    else:
        rep.ok(rule, cons, where=w)


def symmetric(rep, cons, o, make, w):
    if not clean_out(o) or not o.guard:
        return rep.unsure('symmetric', cons, show(o.value)[:300], w)
    for g, ch, v, ev in results(o, make):
        if isinstance(v, Wrong):
            return rep.bad('symmetric', cons, str(v), w)
        if isinstance(v, Exception):
            return rep.unsure('symmetric', cons, str(v), w)
        if v.kind != 'mat':
            return rep.unsure('symmetric', cons, v.show(), w)
        e = v.parts['l'].equal(v.parts['u'])
        if e is not True:
            return (rep.bad if e is False else rep.unsure)('symmetric', cons, 'below the diagonal %s, above %s' % (
                v.parts['l'].show(), v.parts['u'].show()), w)
    rep.ok('symmetric', cons, where=w)
