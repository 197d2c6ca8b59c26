"""Validation, refusal and size rules."""
import ast
import math
from ..canon import *

MODES = {True: 'free', False: 'non-free'}
VVALS = {'default': NONE, 'on': TRUE, 'off': FALSE}
LEAF = ('numeric', 'numeric_lb', 'numeric_ub', 'numeric_free', 'psd', 'simplex')


def facts(*gs):
    """Implications between the array facts mentioned in the guards: a shape
    fixes the number of dimensions and the size."""
    def then(a, b):
        return bor(bnot(a), b)
    shp, nd, sz = [], [], []
    for g in gs:
        for a in batoms(g):
            if a.op == 'app' and a.args[0] == 'eq':
                for x, y in (a.args[1], a.args[1][::-1]):
                    if y.op == 'app' and y.args[0] == 'np.shape':
                        shp.append((a, x, y.args[1][0]))
                    elif y.op == 'app' and y.args[0] == 'np.ndim':
                        nd.append((a, x, y.args[1][0]))
                    elif y.op == 'app' and y.args[0] == 'np.size':
                        sz.append((a, x, y.args[1][0]))
    c = 1
    for a, s, x in shp:
        for b, n, y in nd:
            if x is y:
                ln = app('len', (s,))
                if ln is n:
                    c = band(c, then(atom(a), atom(b)))
                elif isk(ln) and isk(n):
                    c = band(c, then(atom(a), bnot(atom(b))))
        for b, n, y in sz:
            if x is y and app('np.prod', (s,)) is n:
                c = band(c, then(atom(a), atom(b)))
    for i, (a, x, y) in enumerate(nd):
        for b, z, w in nd[i + 1:]:
            if y is w and a is not b and isk(x) and isk(z):
                c = band(c, bnot(band(atom(a), atom(b))))
    return c


def merge_exists(g):
    """not E(P) and not E(Q) over one domain -> not E(P or Q)."""
    es = [a for a in batoms(g) if a.op == 'exists']
    doms = {}
    for e in es:
        doms.setdefault(e.args[0], []).append(e)
    for d, l in doms.items():
        if len(l) < 2:
            continue
        anyof = 0
        for e in l:
            anyof = bor(anyof, atom(e))
        g0 = g
        for e in l:
            g0 = cofactor(g0, e, False)
        if g == band(g0, bnot(anyof)):
            io = l[0].args[1]
            body = 0
            for e in l:
                body = bor(body, e.args[2] if e.args[1] is io else bsubst(e.args[2], {e.args[1]: io}))
            g = band(g0, bnot(exists(d, io, body)))
    return g


def vguard(M, inst, x, vv, memo):
    o = M.call(inst, 'validate_folded', [x, vv])
    return merge_exists(canon(verdict(o), memo)), o


def structural(a):
    """An atom only about shapes and sizes."""
    if a.op != 'app' or a.args[0] not in ('eq', 'lt', 'le', 'nonempty'):
        return False
    return any(y.op == 'app' and y.args[0] in ('np.shape', 'np.ndim', 'np.size', 'len') for y in
               (a.args[1] if len(a.args) > 1 else ()) if isinstance(y, T)) or a.args[0] == 'nonempty'


def about_input(a):
    return any(y is FO or y is FV or y is FB for y in walk(a))


def leftovers(g, V):
    """Value tests in g that the validation verdict does not use."""
    va = set(batoms(V))
    return [a for a in batoms(g) if a not in va and about_input(a) and not structural(a)]


def member_ops(t, name):
    return [x for x in walk(t) if x.op == 'mcall' and x.args[1] == name]


def arg(m, name):
    return dict(m.args[2]).get(name)


# ----------------------------------------------------------------- P03
def p03(S, rep, tier):
    M = S.M
    memo = {}
    rep.rule('flatten-checks', 'flatten returns only where the validation verdict under the same setting is valid')
    rep.rule('flatten-accepts', 'flatten raises no ValueError for a value the verdict calls valid')
    rep.rule('fold-checks', 'non-free fold returns only values the verdict calls valid')
    rep.rule('fold-accepts', 'fold raises no ValueError for a vector of the right length holding a valid value')
    rep.rule('fold-plain', 'non-free fold validates the value the vector holds, before any change to it')
    rep.rule('error-type', 'a value that validation rejects is refused with a ValueError, not another error')
    rep.rule('members', "a container passes the caller's validation setting to every member it folds or flattens")
    default_assigned(S, rep, 'default', (('flatten', [FO, FALSE, NONE]), ('flatten', [FO, TRUE, NONE]), ('fold', [FV, FALSE, NONE])))
    for label in S.CORE:
        for op, x in (('flatten', FO), ('fold', FV)):
            for mode in (True, False):
                left_out(S, rep, 'default', label, op, [x, K(mode)], MODES[mode])
    for label in S.CORE:
        inst = S.make(label)
        for vn, vv in list(VVALS.items()) + [('any', VV)]:
            V, vo = vguard(M, inst, FO, vv, memo)
            w = where_method(M, inst, 'flatten')
            for mode in (True, False):
                o = M.call(inst, 'flatten', [FO, K(mode), vv])
                g = merge_exists(canon(o.guard, memo))
                cons = '%s.flatten(%s) validate_value=%s' % (label, MODES[mode], vn)
                okk = clean_out(o) and clean_out(vo)
                f = facts(g, V)
                checked = okk and band(f, band(g, bnot(V))) == 0
                if band(f, band(g, bnot(V))) == 0:
                    rep.ok('flatten-checks', cons, where=w)
                elif okk and not leftovers(g, V):
                    rep.bad('flatten-checks', cons, 'returns for a value validation rejects: %s' %
                            bshow(band(f, band(g, bnot(V))))[:600], w)
                else:
                    rep.unsure('flatten-checks', cons, '', w)
                r = canon(o.raise_guard(('ValueError',)), memo)
                accept(rep, 'flatten-accepts', cons, r, V, okk, w, inst)
                if okk:
                    error_type(rep, cons, o, V, w, memo)
                # member settings
                if label in ('parray', 'pdict'):
                    for m in member_ops(o.value, 'flatten'):
                        members_ok(rep, m, vv, cons, w, checked)
            w = where_method(M, inst, 'fold')
            for mode in (True, False):
                o = M.call(inst, 'fold', [FV, K(mode), vv])
                cons = '%s.fold(%s) validate_value=%s' % (label, MODES[mode], vn)
                okk = clean_out(o)
                if mode:
                    if label in ('parray', 'pdict'):
                        for m in member_ops(o.value, 'fold'):
                            members_ok(rep, m, vv, cons, w, True)
                    continue
                # verdict on what is returned
                Vr, bad = 0, False
                for lg, l in leaves(o.value):
                    v2, vo2 = vguard(M, inst, l, vv, memo)
                    Vr = bor(Vr, band(canon(lg, memo), v2))
                    bad = bad or not clean_out(vo2)
                g = merge_exists(canon(o.guard, memo))
                f = facts(g, Vr)
                if label in ('parray', 'pdict'):
                    for m in member_ops(o.value, 'fold'):
                        members_ok(rep, m, vv, cons, w, okk and not bad and band(f, band(g, bnot(Vr))) == 0)
                if band(f, band(g, bnot(Vr))) == 0:
                    rep.ok('fold-checks', cons, where=w)
                elif label in ('parray', 'pdict'):
                    ms = member_ops(o.value, 'fold')
                    if ms and all(arg(m, 'validate_value') is vv for m in ms):
                        rep.ok('fold-checks', cons, 'each member validates its own part', w)
                    else:
                        rep.unsure('fold-checks', cons, '', w)
                elif okk and not bad and not leftovers(g, Vr):
                    rep.bad('fold-checks', cons, 'returns a value validation rejects: %s' %
                            bshow(band(f, band(g, bnot(Vr))))[:600], w)
                else:
                    rep.unsure('fold-checks', cons, '', w)
                if label in LEAF and vn == 'on':
                    fold_plain(rep, cons, o, w)
                if label in LEAF:
                    L = M.call(inst, 'flat_length', [K(mode)]).value
                    size_ok = canon(band(truth(app('eq', (K(1), app('np.ndim', (FV,))))),
                                         truth(app('eq', (L, app('np.size', (FV,)))))), memo)
                    r = canon(o.raise_guard(('ValueError',)), memo)
                    accept(rep, 'fold-accepts', cons, r, band(size_ok, Vr), okk, w, inst)
                    if okk:
                        error_type(rep, cons, o, band(size_ok, Vr), w, memo)
        # free fold needs nothing but the length
        if label in LEAF:
            o = M.call(inst, 'fold', [FV, TRUE, VV])
            L = M.call(inst, 'flat_length', [TRUE]).value
            size_ok = canon(band(truth(app('eq', (K(1), app('np.ndim', (FV,))))),
                                 truth(app('eq', (L, app('np.size', (FV,)))))), memo)
            r = canon(o.raise_guard(('ValueError',)), memo)
            accept(rep, 'fold-accepts', '%s.fold(free)' % label, r, size_ok, clean_out(o),
                   where_method(M, inst, 'fold'), inst)


BLUR = {'np.squeeze', 'np.ravel', 'np.flatten', 'sorted', 'builtins.set', 'builtins.frozenset', 'np.sort'}


def shape_blurred(V):
    """What the verdict knows of the shape, when several shapes share it."""
    seen = []

    def go(t, blur):
        if t is FO:
            if not blur:
                seen.append(None)
            return
        if t.op == 'app' and t.args[0] in BLUR and len(t.args[1]) >= 1 and contains(t.args[1][0], FO):
            seen.append(t)
            return
        if t.op == 'app' and t.args[0] in ('lt', 'le', 'gt', 'ge'):
            return                  # conditions on values
        for y in children(t):
            go(y, blur)
    for a in batoms(V):
        go(a, False)
    if seen and None not in seen and not all(t.args[0] in ('np.ravel', 'np.flatten') for t in seen):
        return show(seen[0])[:150]
    return ''


def fold_plain(rep, cons, o, w):
    """What is validated is the value the vector holds, not a changed one."""
    from .inverse import alters, on_values
    if not clean_out(o):
        return
    for lg, l in leaves(o.value):
        ch = alters(l, FV)
        if not ch:
            continue
        c = l
        while c.op == 'app' and c.args[0] in ('np.reshape', 'copy', 'np.array', 'np.flatten'):
            c = c.args[1][0]
        rest = bsubst(band(lg, o.guard), {c: mk('sym', 'changed', ('array',))})
        if on_values(rest, FV):
            rep.unsure('fold-plain', cons, ch, w)
        else:
            rep.bad('fold-plain', cons, 'accepts a vector that holds no valid value: %s' % ch, w)
        return
    rep.ok('fold-plain', cons, where=w)


def left_out(S, rep, rule, label, op, args, txt=''):
    """No setting given at all: the pattern's own setting counts."""
    for d in (True, False) if label in LEAF else (None,):
        inst = S.make(label, default_validate=K(d)) if d is not None else S.make(label)
        omitted_same(rep, rule, '%s.%s(%s) with no setting%s' % (label, op, txt, '' if d is None else ', default %s' % d),
                     S.M.call(inst, op, args), S.M.call(inst, op, args, {'validate_value': NONE}), where_method(S.M, inst, op))


def default_assigned(S, rep, rule, ops):
    """The default validation setting a pattern has when an operation starts
    is the one that counts, also when it was assigned after construction."""
    M = S.M
    rep.rule(rule, 'with no setting given, the current default validation setting of the pattern counts')
    for label in LEAF:
        for a, b in ((True, False), (False, True)):
            base = S.make(label, default_validate=K(a))
            for op, args in ops:
                w = where_method(M, base, op)
                cons = '%s.%s default_validate=%s' % (label, op, b)
                for how in ('constructed', 'assigned'):
                    if how == 'constructed':
                        inst = S.make(label, default_validate=K(b))
                    else:
                        first = M.call(base, op, args)
                        inst = M.assigned(base, 'default_validate', K(b), first.store if clean_out(first) else None)
                    o = M.call(inst, op, args)
                    x = M.call(S.make(label, default_validate=K(a)), op, args[:-1] + [K(b)])
                    c = '%s (%s)' % (cons, how)
                    if not clean_out(o) or not clean_out(x):
                        rep.unsure(rule, c, '', w)
                    elif getattr(inst, 'refused', None):
                        rep.bad(rule, c, 'the assignment is refused', w)
                    elif o.guard == x.guard and (o.guard == 0 or under(o.value, o.guard) is under(x.value, x.guard)):
                        rep.ok(rule, c, where=w)
                    elif own_closures(o) or own_closures(x):
                        rep.unsure(rule, c, '', w)
                    else:
                        rep.bad(rule, c, diff_shape(x.value, o.value) if x.guard == o.guard else 'succeeds when %s  vs  %s' % (
                            bshow(x.guard)[:300], bshow(o.guard)[:300]), w)


def accept(rep, rule, cons, r, V, okk, w, inst):
    f = facts(r, V)
    bad = under_shapes(band(f, band(r, V)), V)
    if bad == 0:
        rep.ok(rule, cons, where=w)
        return
    # a definite refusal uses only facts the verdict itself talks about, or
    # other shape facts about the plain input
    va = set(batoms(V))
    extra = [a for a in batoms(bad) if a not in va]
    plain = all(a.op == 'app' and all(y.op in ('k', 'sym', 'app', 'tuple') and not (
        y.op == 'app' and y.args[0] not in VOCAB_OPS) for y in walk(a)) for a in extra)
    if okk and plain:
        rep.bad(rule, cons, 'refuses a valid value when %s' % bshow(bad)[:600], w)
    else:
        rep.unsure(rule, cons, '', w)


def error_type(rep, cons, o, good, w, memo):
    """What is refused is refused with a ValueError: no other error is raised
    on purpose exactly where the value or its length is wrong."""
    known = set(batoms(good))
    found = None
    for r in o.raises:
        if r.exc == 'ValueError' or r.exc.startswith('?') or not isinstance(r.node, (ast.Raise, ast.Assert)):
            continue
        g = merge_exists(canon(r.guard, memo))
        if g != 0 and set(batoms(g)) <= known and band(g, good) == 0:
            found = r
    if found:
        rep.bad('error-type', cons, '%s raised instead of a ValueError at %s' % (found.exc, found.where()), w)
    else:
        rep.ok('error-type', cons, where=w)


def members_ok(rep, m, vv, cons, w, checked=False):
    """checked: the container itself validates every member part under the
    caller's setting, or the mode needs no validation."""
    got = arg(m, 'validate_value')
    c = '%s -> member %s' % (cons, m.args[1])
    if got is vv:
        rep.ok('members', c, where=w)
    elif got is FALSE and checked:
        rep.ok('members', c, 'the container validates every part itself', w)
    elif got is None or isk(got) or got.op == 'sym':
        rep.bad('members', c, 'member is called with validate_value=%s' % (show(got) if got is not None else 'None'), w)
    else:
        rep.unsure('members', c, show(got)[:200], w)


# ----------------------------------------------------------------- P04
def p04(S, rep, tier):
    M = S.M
    memo = {}
    rep.rule('vector', 'fold returns only for one-dimensional input')
    rep.rule('error-type', 'a vector of another shape or length is refused with a ValueError, not another error')
    rep.rule('length', 'fold returns only when the input length equals the flat length of the mode used')
    for label in S.CORE:
        inst = S.make(label)
        w = where_method(M, inst, 'fold')
        for mode in (True, False):
            o = M.call(inst, 'fold', [FV, K(mode), VV])
            lo = M.call(inst, 'flat_length', [K(mode)])
            L = lo.value
            g = canon(o.guard, memo)
            cons = '%s.fold(%s)' % (label, MODES[mode])
            okk = clean_out(o) and clean_out(lo)
            nd = canon(truth(app('eq', (K(1), app('np.ndim', (FV,))))), memo)
            sz = canon(truth(app('eq', (L, app('np.size', (FV,))))), memo)
            okd = implies(g, nd) == 1
            if okk:
                error_type(rep, cons, o, band(nd, sz), w, memo)
            if okd:
                rep.ok('vector', cons, where=w)
            elif okk and all(known_vocab(a) or not about_input(a) for a in batoms(band(g, bnot(nd)))):
                rep.bad('vector', cons, 'returns for input that is not 1-d: %s' % bshow(band(g, bnot(nd)))[:400], w)
            elif okk and accepted(o.guard, L, ((6, 1), (1, 6), (2, 3), (1, 1, 6))):
                rep.bad('vector', cons, 'returns for input of shape %s when the flat length is 6' % (
                    accepted(o.guard, L, ((6, 1), (1, 6), (2, 3), (1, 1, 6))),), w)
            else:
                rep.unsure('vector', cons, '', w)
            if implies(g, sz) == 1:
                rep.ok('length', cons, where=w)
            elif any(reshaped_to(v, L) for _, v in leaves(o.value)):
                rep.ok('length', cons, 'reshape to a shape of that size refuses other lengths', w)
            elif okk and all(known_vocab(a) or not about_input(a) for a in batoms(band(g, bnot(sz)))):
                rep.bad('length', cons, 'returns for input of a length other than %s: %s' % (
                    show(L)[:100], bshow(band(g, bnot(sz)))[:400]), w)
            elif okk and accepted(o.guard, L, ((7,), (12,), (18,), (1,), (2,), (3,))):
                rep.bad('length', cons, 'returns for input of shape %s when the flat length is 6' % (accepted(o.guard, L, ((7,), (12,), (18,), (1,), (2,), (3,))),), w)
            else:
                rep.unsure('length', cons, '', w)


def accepted(g, L, shapes):
    """A shape among these for which the guard holds although all it asks of
    the input is its shape; the flat length is 6."""
    def at(sh):
        def fn(a):
            if not about_input(a):
                return atom(a)
            nm, ar = (a.args[0], a.args[1]) if a.op == 'app' else ('', ())
            if nm in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') and len(ar) == 2:
                x, y = (quantity(z, L, sh) for z in ar)
                if x is not None and y is not None and type(x) is type(y):
                    return 1 if {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[nm] else 0
            return atom(a)
        return bmap(g, fn)
    ref = at((6,))
    if ref == 0:
        return None
    values = [a for a in batoms(ref) if about_input(a)]
    for sh in shapes:
        r = at(sh)
        if r != 0 and not any(about_input(a) for a in batoms(r)) and not values:
            return sh
        # what is asked of the values is asked of the entries in order, so a
        # good vector arranged otherwise passes
        if values and r == ref and math.prod(sh) == 6 and all(entries_only(a, sh) for a in values):
            return sh
        # settings under which no value is asked about
        p, q = whatever(r), whatever(ref)
        if r != 0 and band(p, q) != 0:
            return sh
    return None


def whatever(g):
    """Guard g whatever the input's values."""
    for a in batoms(g):
        if about_input(a):
            g = band(cofactor(g, a, True), cofactor(g, a, False))
    return g


def entries_only(t, sh):
    """Uses the entries of the input in order, whatever its shape."""
    if t is FV:
        return False
    if not any(y.op == 'app' and y.args[0] in ('T', 'np.transpose') for y in walk(t)) or len([x for x in sh if x != 1]) < 2:
        s = input_shape(t, sh)
        if s is not None and s == input_shape(t, (6,)) and len(s) == 1:
            return True
    if t.op == 'app' and t.args[1] and not t.args[2] and t.args[1][0] is FV and (
            t.args[0] in ('np.ravel', 'np.flatten', 'np.size') or t.args[0] == 'np.reshape' and len(t.args[1]) == 2):
        return not any(about_input(x) for x in t.args[1][1:])
    return all(entries_only(x, sh) for x in children(t))


def input_shape(t, sh):
    """Shape of a rearrangement of the input, which has shape sh."""
    if t is FV:
        return sh
    if t.op != 'app' or not t.args[1]:
        return None
    nm, ar, kw = t.args
    s = input_shape(ar[0], sh)
    if s is None or dict(kw).keys() - {'dtype', 'copy', 'order'}:
        return None
    if nm in ('copy', 'np.array', 'np.asarray', 'astype', 'deepcopy'):
        return s
    if nm == 'np.squeeze' and len(ar) == 1:
        return tuple(x for x in s if x != 1)
    if nm in ('np.ravel', 'np.flatten'):
        return (math.prod(s),)
    if nm == 'np.reshape' and len(ar) == 2 and show(ar[1]) in ('-1', '(-1,)'):
        return (math.prod(s),)
    if nm == 'np.atleast_1d' and len(ar) == 1:
        return s or (1,)
    if nm == 'np.atleast_2d' and len(ar) == 1:
        return s if len(s) > 1 else (1,) + (s or (1,))
    if nm in ('T', 'np.transpose') and len(ar) == 1:
        return s[::-1]
    return None


def quantity(t, L, sh):
    """Number or tuple of numbers that a shape expression denotes."""
    if t is L:
        return 6
    if isk(t):
        v = kval(t)
        return v if isinstance(v, (int, tuple)) and not isinstance(v, bool) else None
    if t.op in ('tuple', 'list'):
        e = simple_elems(t)
        v = [quantity(x, L, sh) for x in e] if e is not None else [None]
        return tuple(v) if None not in v else None
    if t.op == 'sub':
        s, i = quantity(t.args[0], L, sh), quantity(t.args[1], L, sh)
        return s[i] if isinstance(s, tuple) and isinstance(i, int) and -len(s) <= i < len(s) else None
    if t.op != 'app' or not t.args[1] or t.args[2]:
        return None
    nm, ar = t.args[0], t.args[1]
    s = None
    if len(ar) == 1:
        s = input_shape(ar[0], sh)
        if s is None and ar[0].op == 'app' and ar[0].args[0] == 'np.repeat' and len(ar[0].args[1]) == 2 and not ar[0].args[2]:
            s, m = input_shape(ar[0].args[1][0], sh), quantity(ar[0].args[1][1], L, sh)
            s = (math.prod(s) * m,) if s is not None and isinstance(m, int) and m >= 0 else None
    if s is not None:
        return {'np.ndim': len(s), 'np.size': math.prod(s), 'np.shape': s, 'len': s[0] if s else None}.get(nm)
    v = [quantity(x, L, sh) for x in ar]
    if None in v:
        return None
    if nm == 'len' and isinstance(v[0], tuple):
        return len(v[0])
    if nm == 'np.prod' and isinstance(v[0], tuple):
        return math.prod(v[0])
    if nm in ('add', 'sub', 'mul') and len(v) == 2 and all(isinstance(x, int) for x in v):
        return {'add': v[0] + v[1], 'sub': v[0] - v[1], 'mul': v[0] * v[1]}[nm]
    if nm in ('builtins.int',):
        return v[0]
    return None


def reshaped_to(v, L):
    for x in walk(v):
        if x.op == 'app' and x.args[0] == 'np.reshape' and len(x.args[1]) == 2:
            b = flat_elem(drop_wrappers(x.args[1][0], {}))
            if b is FV and app('np.prod', (x.args[1][1],)) is L:
                return True
    return False


# ----------------------------------------------------------------- P05
def spec_valid(M, inst, label, check, memo):
    """(guard list) the documented verdict for a fully specified leaf."""
    if label.startswith('numeric'):
        shp = M.attr(inst, '_shape')
        s = canon(truth(app('eq', (sym('shape', 'tuple'), app('np.shape', (FO,))))), memo)
        r = s
        if check:
            kw = inst.kw
            r = band(r, bnot(canon(truth(app('np.any', (app('lt', (FO, kw['lb'])),))), memo)))
            r = band(r, bnot(canon(truth(app('np.any', (app('lt', (kw['ub'], FO)),))), memo)))
        return r
    if label == 'psd':
        n = inst.kw['size']
        r = canon(truth(app('eq', (seq('tuple', [('e', n), ('e', n)]), app('np.shape', (FO,))))), memo)
        if check:
            r = band(r, bnot(canon(truth(app('np.any', (app('lt', (app('np.diag', (FO,)), inst.kw['diag_lb'])),))), memo)))
            r = band(r, bnot(canon(truth(app('np.any', (app('ne', (FO, app('T', (FO,)))),))), memo)))
        return r
    if label == 'simplex':
        shp = seq('tuple', [('s', inst.kw['array_shape']), ('e', inst.kw['simplex_size'])])
        r = canon(truth(app('eq', (shp, app('np.shape', (FO,))))), memo)
        if check:
            r = band(r, bnot(canon(truth(app('np.any', (app('lt', (FO, K(0))),))), memo)))
            r = band(r, bnot(atom(SUMATOM)))
        return r
    raise KeyError(label)


SUMATOM = mk('app', '@sum_far_from_one', (FO,), ())


def simplex_norm(g):
    """Tolerance tests on |sum over the last axis - 1| -> one atom."""
    def at(a):
        if a.op == 'app' and a.args[0] == 'np.any':
            c = a.args[1][0]
            if c.op == 'app' and c.args[0] in ('lt', 'le') and isk(c.args[1][0]) and 0 < kval(c.args[1][0]) <= 1e-6:
                e = c.args[1][1]
                if e.op == 'app' and e.args[0] == 'np.abs':
                    d = e.args[1][0]
                    if d.op == 'app' and d.args[0] == 'sub':
                        for x, y in (d.args[1], d.args[1][::-1]):
                            if isk(y) and kval(y) == 1 and x.op == 'app' and x.args[0] == 'np.sum' and \
                                    flat_elem(x.args[1][0]) is FO and dict(x.args[2]).get('axis') is K(-1):
                                return atom(SUMATOM)
        return atom(a)
    return bmap(g, at)


def p05(S, rep, tier):
    M = S.M
    memo = {}
    rep.rule('total', 'validation reports by its result and raises nothing')
    rep.rule('verdict', 'the verdict is valid exactly for the right shape and, when values are checked, values '
                        'inside the domain (bounds inclusive)')
    rep.rule('default', 'validate_value=None behaves as the default setting of the pattern')
    rep.rule('container', 'a container value is valid exactly when every member part is present and valid')
    default_assigned(S, rep, 'default', (('validate_folded', [FO, NONE]),))
    for label in LEAF:
        w = where_method(M, S.make(label), 'validate_folded')
        for check in (True, False):
            inst = S.make(label)
            o = M.call(inst, 'validate_folded', [FO, K(check)])
            V = canon(verdict(o), memo)
            cons = '%s.validate_folded(validate_value=%s)' % (label, check)
            raises_ok(rep, o, cons, w)
            if label == 'simplex':
                V = simplex_norm(V)
            want = spec_valid(M, inst, label, check, memo)
            f = facts(V, want)
            diff = band(f, bor(band(V, bnot(want)), band(want, bnot(V))))
            if diff == 0:
                rep.ok('verdict', cons, where=w)
            elif clean_out(o) and all(known_vocab(a) or a is SUMATOM for a in batoms(V)):
                rep.bad('verdict', cons, 'accepts %s ; should accept %s' % (bshow(V)[:400], bshow(want)[:400]), w)
            elif clean_out(o) and shape_blurred(V):
                rep.bad('verdict', cons, 'the shape counts only through %s' % shape_blurred(V), w)
            else:
                rep.unsure('verdict', cons, bshow(V)[:300], w)
            # default
            i2 = S.make(label, default_validate=K(check))
            o2 = M.call(i2, 'validate_folded', [FO, NONE])
            o3 = M.call(i2, 'validate_folded', [FO, K(check)])
            a, b = canon(verdict(o2), memo), canon(verdict(o3), memo)
            c2 = '%s.validate_folded(None) with default %s' % (label, check)
            if a == b:
                rep.ok('default', c2, where=w)
            elif clean_out(o2) and clean_out(o3):
                rep.bad('default', c2, '%s  vs  %s' % (bshow(a)[:300], bshow(b)[:300]), w)
            else:
                rep.unsure('default', c2, '', w)
            # an explicit setting overrides the default
            i3 = S.make(label, default_validate=K(not check))
            o4 = M.call(i3, 'validate_folded', [FO, K(check)])
            d = canon(verdict(o4), memo)
            c3 = '%s.validate_folded(%s) with default %s' % (label, check, not check)
            if d == b:
                rep.ok('default', c3, where=w)
            elif clean_out(o4):
                rep.bad('default', c3, '%s  vs  %s' % (bshow(d)[:300], bshow(b)[:300]), w)
            else:
                rep.unsure('default', c3, '', w)
    for label in S.CORE:
        left_out(S, rep, 'default', label, 'validate_folded', [FO])
    for label, vv in [(l, v) for l in ('parray', 'pdict') for v in (VV, NONE, TRUE, FALSE)]:
        inst = S.make(label)
        w = where_method(M, inst, 'validate_folded')
        o = M.call(inst, 'validate_folded', [FO, vv])
        cons = '%s.validate_folded%s' % (label, '' if vv is VV else '(validate_value=%s)' % show(vv))
        raises_ok(rep, o, cons, w)
        V = merge_exists(canon(verdict(o), memo))
        io = mk('iota', 0)
        if label == 'pdict':
            if inst.members is None:
                rep.unsure('container', cons, 'member store not identified', w)
                continue
            d = mk('dom', inst.members)
            key, val = mk('key', inst.members, io), mk('val', inst.members, io)
            part = sub(FO, key)
            present = truth(mk('app', 'in', (key, FO), ()))
            want = 1
        else:
            A = inst.kw['array_shape']
            nd = mk('app', 'ndindex', (A,), ())
            d = mk('dom', nd)
            part = sub(FO, sub(nd, io))
            val = inst.kw['base_pattern']
            present = 1
            shp = seq('tuple', [('s', A), ('s', app('np.shape', (mk('mcall', val, 'empty', (('valid', FALSE),)),)))])
            want = canon(truth(app('eq', (shp, app('np.shape', (FO,))))), memo)
        mv = mk('mcall', val, 'validate_folded', (('folded_val', part), ('validate_value', vv)))
        okg = truth(sub(mv, K(0)))
        # the analysis names its loop variables itself; use its own
        es = [a for a in batoms(V) if a.op == 'exists']
        if len(es) == 1:
            want = band(want, bnot(exists(es[0].args[0], es[0].args[1], bsubst(bnot(band(present, okg)), {io: es[0].args[1]})
                                          if es[0].args[0] is d else 0)))
        f = facts(V, want)
        if label == 'parray' and len(es) == 1:
            # leading dimensions of the array, and every item of the member's shape
            whole = canon(truth(app('eq', (shp, app('np.shape', (FO,))))), memo)
            for a in batoms(V):
                if a.op == 'app' and a.args[0] == 'eq' and any(
                        x is A and y.op == 'sub' and y.args[0] is app('np.shape', (FO,)) and y.args[1].op == 'slice'
                        and y.args[1].args[0] in (NONE, K(0)) and y.args[1].args[1] is app('len', (A,))
                        for x, y in (a.args[1], a.args[1][::-1])):
                    f = band(f, band(bor(bnot(whole), atom(a)), bor(bnot(band(atom(a), bnot(atom(es[0])))), whole)))
        diff = band(f, bor(band(V, bnot(want)), band(want, bnot(V))))
        if diff == 0 and len(es) == 1:
            rep.ok('container', cons, where=w)
        elif clean_out(o) and any(early_yes(a, present, mv) for a in batoms(V)):
            rep.bad('container', cons, 'the answer is yes as soon as one member part is valid', w)
        elif clean_out(o) and container_vocab(V):
            rep.bad('container', cons, 'valid when %s ; should be when %s' % (bshow(V)[:500], bshow(want)[:500]), w)
        else:
            rep.unsure('container', cons, bshow(V)[:400], w)


def early_yes(a, present, mv):
    """An answer taken at the first item for which something holds that may be
    yes on account of that item alone."""
    if a.op != 'first':
        return False
    d, io, cond, val = a.args
    yes = band(cond.args[0] if isinstance(cond, T) and cond.op == 'B' else cond, truth(val))
    allowed = {'in', 'nonempty', 'truth', 'eq', 'np.shape', 'is', 'isnone', 'ndindex'}
    return yes != 0 and any(io in walk(x) for x in batoms(yes)) and all(
        not any(y.op in BAD_OPS or y.op in ('first', 'lastwhere', 'prev', 'lv') or y.op == 'app' and y.args[0] not in allowed or
                y.op == 'mcall' and y.args[1] != 'validate_folded' for y in walk(x)) for x in batoms(yes))


def container_vocab(V):
    for a in batoms(V):
        for x in walk(a):
            if x.op == 'app' and x.args[0] not in VOCAB_OPS | {'ndindex'}:
                return False
            if x.op in BAD_OPS or x.op in ('call', 'first', 'lastwhere', 'prev'):
                return False
            if x.op == 'mcall' and x.args[1] not in ('validate_folded', 'empty'):
                return False
    return True


def raises_ok(rep, o, cons, w):
    rs = [r for r in o.raises if r.guard]
    if not rs:
        rep.ok('total', cons, where=w)
    elif clean_out(o) and all(known_vocab(a) for r in rs for a in batoms(r.guard)):
        rep.bad('total', cons, 'raises %s when %s' % (rs[0].exc, bshow(rs[0].guard)[:400]), rs[0].where())
    else:
        rep.unsure('total', cons, '', w)
