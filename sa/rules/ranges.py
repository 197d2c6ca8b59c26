"""P20: folding free parameters gives values inside the constraints.
P22: the example values a pattern makes are valid."""
from ..suite import *
from .. import algebra as AL
from ..parts import *
from ..fp import FEv, F, cells, const, MAX
from .inverse import NUM, BOUNDS, LB, UB, DLB, diag_low, pinned, evaluator, results, simplex_size, open_choice, strip_plain


def p20(S, rep, tier):
    M = S.M
    rep.rule('range', 'every value folded from free parameters satisfies the constraint, in exact arithmetic')
    rep.rule('float', 'no finite free vector folds to nan or, through rounding or overflow, to a value outside the bounds')
    M.I.inline_prims = True
    try:
        for label in NUM:
            inst = S.make(label)
            w = where_method(M, inst, 'fold')
            o = M.call(inst, 'fold', [FV, TRUE, FALSE])
            cons = '%s %s.fold(free)' % (label, inst.name)
            exact_numeric(M, rep, cons, o, inst, label, w)
            float_numeric(rep, cons, o, label, w)
        inst = S.make('simplex')
        w = where_method(M, inst, 'fold')
        o = M.call(inst, 'fold', [FV, TRUE, FALSE])
        exact_simplex(M, rep, 'simplex %s.fold(free)' % inst.name, o, inst, w)
        float_simplex(M, rep, 'simplex %s.fold(free)' % inst.name, o, inst, w)
        inst = S.make('psd')
        o = M.call(inst, 'fold', [FV, TRUE, FALSE])
        exact_psd(M, rep, 'psd %s.fold(free)' % inst.name, o, inst, where_method(M, inst, 'fold'))
    finally:
        M.I.inline_prims = False


def verdict_of(rep, rule, cons, cases, w):
    bad = [m for v, m in cases if v is False]
    unclear = [m for v, m in cases if v is None]
    if bad:
        rep.bad(rule, cons, '; '.join(bad)[:800], w)
    elif unclear or not cases:
        rep.unsure(rule, cons, '; '.join(unclear)[:600], w)
    else:
        rep.ok(rule, cons, where=w)


def usable(rep, rule, cons, o, w):
    if not clean_out(o) or not o.guard:
        rep.unsure(rule, cons, show(o.value)[:200], w)
        return False
    return True


def within(ev, l, label):
    """Is the expression inside the bounds for every input?"""
    lo, hi = BOUNDS[label]
    a, b = (None if x is None else pinned(ev, x) for x in (lo, hi))
    if a is None and b is None:
        return True
    s = l.simplify()
    if not s.logs and all(AL.aobj(i) in (LB, UB) for i in AL.patoms(s.r.n) | AL.patoms(s.r.d)):
        e1 = e2 = s
    else:
        e1, e2 = ev.ends(l)
    for x, y in ((a, s), (s, b)):
        if x is not None and y is not None and allpos(x - y):
            return False
    oks = [(ev.inside(a, x, 1), ev.inside(b, y, -1)) for x, y in ((e1, e2), (e2, e1))]
    if any(p is True and q is True for p, q in oks):
        return True
    return False if all(p is False or q is False for p, q in oks) else None


def exact_numeric(M, rep, cons, o, inst, label, w):
    if not usable(rep, 'range', cons, o, w):
        return
    make, fv, fo = evaluator(M, inst, label)
    if label == 'numeric_free':
        return rep.ok('range', cons, where=w)
    cases = []
    for g, ch, v, ev in results(o, make):
        if isinstance(v, Wrong):
            # the range after clipping is the clipped one
            cases.append((None, str(v)))
        elif isinstance(v, Exception):
            cases.append((None, str(v)))
        else:
            try:
                r = within(ev, v.parts[''], label)
            except Unsupported as e:
                r, e = None, str(e)
            if r is False and not open_choice(ch):
                r = None
            cases.append((r, 'the values %s are not all inside the bounds' % v.show()))
    if any(v is None for v, _ in cases) and not any(v is False for v, _ in cases):
        # clipped results are decided by their range alone
        fl = float_cases(o, label)
        if fl and all(v is True for v, _ in fl):
            return rep.ok('range', cons, where=w)
    verdict_of(rep, 'range', cons, cases, w)


def float_env(label):
    lo, hi = BOUNDS[label]
    names = {LB: F(-MAX, MAX, rel={'lb': (0, 0), 'ub': (None, 0)} if hi is not None else {'lb': (0, 0)}, expr='lb'),
             UB: F(-MAX, MAX, rel={'ub': (0, 0), 'lb': (0, None)} if lo is not None else {'ub': (0, 0)}, expr='ub'),
             'w': F(5e-324, MAX, rel={'w': (0, 0)}, expr='w')}
    return names


# exact values that rounding takes past a bound for some lb < ub
ESCAPES = {('add', 'lb', 'w'): 'fl(lb + fl(ub - lb)) can exceed ub', ('sub', 'ub', 'w'): 'fl(ub - fl(ub - lb)) can fall below lb'}


def mixes(l):
    """ub r + lb (1 - r), unclipped, with r the logistic function: for bounds
    5.3 and 7.1 it rounds below 5.3 for free values near -37.3."""
    while l.op == 'app' and l.args[0] in ('np.reshape', 'np.flatten', 'copy', 'np.array', 'np.atleast_1d', 'np.asarray') and l.args[1]:
        l = l.args[1][0]
    if not (l.op == 'app' and l.args[0] == 'add' and len(l.args[1]) == 2):
        return False
    fs = {}
    for y in l.args[1]:
        if y.op == 'app' and y.args[0] == 'mul' and len(y.args[1]) == 2:
            for b, r in (y.args[1], y.args[1][::-1]):
                if b in (LB, UB):
                    fs[b] = r
    if set(fs) != {LB, UB}:
        return False
    for r, s in ((fs[UB], fs[LB]), (fs[LB], fs[UB])):
        if s is app('sub', (K(1), r)):
            try:
                x = sym('x')
                v = Ev({FV: V('e', {'': LL(AL.ra(x))})}).ev(r)
                e = LL(AL.ra(x)).exp() if r is fs[UB] else LL(AL.ra(x)).scale(AL.Fraction(-1)).exp()
                return v.kind == 'e' and v.parts[''].equal(e.mul((AL.num(1) + e).inv())) is True
            except (Unsupported, Wrong, NeedChoice, AttributeError):
                return False
    return False


def float_cases(o, label):
    lo, hi = BOUNDS[label]
    cases = []
    for g, l in leaves(o.value):
        if lo is not None and hi is not None and mixes(l):
            cases.append((False, 'ub r + lb (1 - r) is not kept inside the bounds: it rounds past them for lb = 5.3, ub = 7.1'))
            continue
        for a, b in cells():
            x = V('e', {'': F(a, b)})
            ev = FEv({FV: x}, names=float_env(label))
            at = ' for free values in [%g, %g]' % (a, b)
            try:
                f = ev.closed(ev.ev(l).parts[''])
            except (Unsupported, Wrong, NeedChoice) as e:
                cases.append((None, str(e)))
                continue
            if f.must:
                cases.append((False, 'the result is nan' + at))
            elif f.lo == INF and hi is not None or f.hi == -INF and lo is not None:
                cases.append((False, 'the result is infinite' + at))
            elif f.nan:
                cases.append((None, 'the result may be nan' + at))
            elif f.expr in ESCAPES:
                cases.append((False, 'the result is not kept inside the bounds: %s%s' % (ESCAPES[f.expr], at)))
            elif lo is not None and f.rel.get('lb', (None,))[0] != 0:
                cases.append((None, 'lower bound not established, %s%s' % (f.show(), at)))
            elif hi is not None and f.rel.get('ub', (None, None))[1] != 0:
                cases.append((None, 'upper bound not established, %s%s' % (f.show(), at)))
            else:
                cases.append((True, ''))
    return cases


def float_numeric(rep, cons, o, label, w):
    if usable(rep, 'float', cons, o, w):
        verdict_of(rep, 'float', cons, float_cases(o, label), w)


# ------------------------------------------------------------------ simplices
def exact_simplex(M, rep, cons, o, inst, w):
    if not usable(rep, 'range', cons, o, w):
        return
    make, fv, fo = evaluator(M, inst, 'simplex')
    cases = []
    for g, ch, v, ev in results(o, make):
        if isinstance(v, Exception):
            cases.append((False if isinstance(v, Wrong) and open_choice(ch) else None, str(v)))
            continue
        if v.kind != 'full':
            cases.append((None, v.show()))
            continue
        try:
            s = v.parts['0'] + ev.rowsum(v.parts['+'])
            cases.append((s.equal(AL.num(1)), 'the entries sum to %s' % s.show()))
            for p in '0+':
                pos = allpos(v.parts[p])
                cases.append((pos, 'entry %s is not shown positive: %s' % (p, v.parts[p].show())))
        except Unsupported as e:
            cases.append((None, str(e)))
    verdict_of(rep, 'range', cons, cases, w)


def allpos(l):
    r, ex = l.rat()
    if not r.n and ex:
        return False
    ok = all(c > 0 for c in r.n.values()) and all(c > 0 for c in r.d.values()) and all(
        isinstance(AL.aobj(a), tuple) and AL.aobj(a)[0] in ('exp', 'rowsum') for a in AL.patoms(r.n) | AL.patoms(r.d))
    if ok and ex:
        return True
    if ex and (r.n and all(c < 0 for c in r.n.values())) and all(c > 0 for c in r.d.values()) and all(
            isinstance(AL.aobj(a), tuple) and AL.aobj(a)[0] == 'exp' for a in AL.patoms(r.n)):
        return False
    return None


def float_simplex(M, rep, cons, o, inst, w):
    if not usable(rep, 'float', cons, o, w):
        return
    n = simplex_size(M, inst)
    cases = []
    cs = cells()
    cs = [(-MAX, MAX)] + cs + [(-3000.0, -3000.0), (3000.0, 3000.0)]
    full = None
    for g, l in leaves(o.value):
        for i, (a, b) in enumerate(cs):
            at = '' if i == 0 else ' when all free values are in [%g, %g]' % (a, b) if a < b else ' when there is one free value, %g' % a
            ev = FEv({FV: V('free', {'+': F(a, b)}, True)}, n=n, two=a == b)
            ev.rowshapes = (sym('array_shape', 'tuple'),)
            try:
                v = ev.ev(l)
            except (Unsupported, Wrong, NeedChoice) as e:
                cases.append((None, str(e)))
                continue
            if v.kind != 'full':
                cases.append((None, v.kind))
                continue
            base, m = ev.att(v)
            for p, f in v.parts.items():
                if f.must:
                    cases.append((False, 'the result is nan' + at))
                elif f.hi < 0 or f.lo > 1 + 1e-9:
                    cases.append((False, 'entries lie in %s%s' % (f.show(), at)))
                elif i == 0:
                    cases.append((True if not f.nan and f.lo >= 0 else None, 'entries lie in %s%s' % (f.show(), at)))
            if all(f.hi == 0 and not f.nan for f in v.parts.values()):
                cases.append((False, 'every entry is zero' + at))
            elif i == 0:
                cases.append((True if m.lo > 0 and not m.nan else None, 'all entries may vanish'))
    verdict_of(rep, 'float', cons, cases, w)


# --------------------------------------------------------------------- psd
def exact_psd(M, rep, cons, o, inst, w):
    if not usable(rep, 'range', cons, o, w):
        return
    make, fv, fo = evaluator(M, inst, 'psd')
    cases = []
    for g, ch, v, ev in results(o, make):
        if isinstance(v, Exception):
            cases.append((False if isinstance(v, Wrong) and open_choice(ch) else None, str(v)))
            continue
        if v.kind != 'mat':
            cases.append((None, v.show()))
            continue
        if all(AL.aobj(i) == sym('v_low') for i in AL.patoms(v.parts['l'].r.n) | AL.patoms(v.parts['l'].r.d)) and \
                not v.parts['l'].logs and v.parts['l'].r.n and not v.parts['d'].logs and not mentions_low(v.parts['d']):
            cases.append((False, 'the diagonal %s does not bound the free entries beside it' % v.parts['d'].show()))
            continue
        d = (v.parts['d'] - diag_low(ev)).simplify()
        cases.append((gramlike(d, ev), 'the diagonal exceeds its lower bound by %s' % d.show()))
        cases.append((v.parts['l'].equal(v.parts['u']), 'the matrix is not symmetric: %s' % v.show()))
    verdict_of(rep, 'range', cons, cases, w)


def mentions_low(l):
    return any('v_low' in str(AL.aobj(i)) or AL.aobj(i) not in (DLB, sym('v_diag')) and not (
        isinstance(AL.aobj(i), tuple) and AL.aobj(i)[0] == 'exp') for i in AL.patoms(l.r.n) | AL.patoms(l.r.d))


def gramlike(d, ev):
    """Is the expression a positive combination of diagonal products?"""
    if d.logs or d.r.d != AL.pconst(1):
        return None
    if not d.r.n:
        return False
    grams = [m for m in d.r.n if len(m) == 1 and m[0][1] == 1 and m[0][0] in ev.gram]
    rest = {m: c for m, c in d.r.n.items() if m not in grams}
    if all(d.r.n[m] > 0 for m in grams):
        if not rest:
            return True
        if set(rest) == {()} and grams:
            return rest[()] >= 0
        k = ((AL.aid(DLB), 1),)
        if set(rest) <= {(), k} and grams:
            return all(c >= 0 for c in rest.values())
    elif grams and all(d.r.n[m] < 0 for m in grams):
        return False
    return None
