"""Serialized form of patterns."""
import itertools
from ..canon import *
from .layout import strip_int, eqpoly, arith_vocab

BEHAVE = {
    'fold': [FV, sym('free', 'any'), VV], 'flatten': [FO, sym('free', 'any'), VV],
    'flat_length': [sym('free', 'any')], 'validate_folded': [FO, VV], 'empty': [TRUE],
    'flat_indices': [FB, sym('free', 'any')], 'as_dict': [], 'flat_names': [sym('free', 'any')],
}
LABELS = ('numeric', 'numeric_lb', 'numeric_ub', 'numeric_free', 'vector', 'scalar', 'psd', 'simplex', 'parray', 'pdict')


def merge_empty_sum(t):
    """{0 if nothing; sum over it} is the sum."""
    def fn(x):
        if x.op == 'gam' and len(x.args[0]) == 2:
            for (g, a), (h, b) in (x.args[0], x.args[0][::-1]):
                if a is K(0) and b.op in ('sum',) and g == bnot(nonempty_dom(b.args[0])):
                    return b
        return None
    return rewrite(t, fn, {})


def rebuilt(M, inst, fn=None):
    """(outcome of to_json, outcome of from_json on it)."""
    o = M.call(inst, 'to_json', [])
    if fn is None:
        fn = M.method(inst.cls, 'from_json')
        fn = M.I.bind_member(fn, inst.cls, State(dict(inst.store)), M.caller, None)
    o2 = M.run(fn, [o.value], store=dict(o.store), guard=inst.assume)
    return o, M.relative(o2, inst.assume)


def like(M, inst, out):
    r = type(inst)(out.raw, out.store, out.raw.args[0], inst.name, out)
    r.assume, r.kw, r.label = inst.assume, inst.kw, getattr(inst, 'label', None)
    return r


def same_behaviour(rep, rule, c, inst, r, b1, b2, okk, memo, w):
    v2 = merge_empty_sum(subst(b2.value, {r.obj: inst.obj}))
    v1 = merge_empty_sum(b1.value)
    g1, g2 = canon(b1.guard, memo), canon(b2.guard, memo)
    if g1 == g2 and (g1 == 0 or under(v1, b1.guard) is under(v2, b2.guard)):
        rep.ok(rule, c, where=w)
        return
    bad = ''
    if okk and clean_out(b1) and clean_out(b2):
        bad = config_diff(inst, v1, v2, b1.guard, b2.guard) or reordered(inst, v1, v2)
        if not bad and g1 in (0, 1) and g2 in (0, 1) and g1 != g2:
            bad = 'the original %s and the rebuilt one %s' % tuple('raises' if g == 0 else 'does not' for g in (g1, g2))
        if not bad and g1 == g2 == 1:
            x, y = plain_lists(v1), plain_lists(v2)
            if isk(x) and isk(y) and kval(x) != kval(y) or arith_vocab(x) and arith_vocab(y) and eqpoly(y, x) is False:
                bad = 'gives %s where the original gives %s' % (show(v2)[:200], show(v1)[:200])
    if bad:
        rep.bad(rule, c, bad, w)
    else:
        rep.unsure(rule, c, diff_shape(v1, v2)[:300], w)


INF = float('inf')
ODD = 0.12345678901234567
NUMBERS = {
    'numeric': [{'lb': a, 'ub': b} for a, b in ((0.0, INF), (-INF, 0.0), (0, 1), (-ODD, ODD), (-1e300, 1e-300), (1e-9, INF), (-INF, -1e9))],
    'psd': [{'diag_lb': v} for v in (0.0, 0, 1, ODD, 1e-9, 1e9)] + [{'size': n} for n in (1, 2, 3, 12)],
    'simplex': [{'simplex_size': n} for n in (2, 3, 12)] + [{'array_shape': t} for t in ((1,), (2, 3), ())],
    'parray': [],
    'pdict': [],
}


def fixed_numbers(S, rep, label, w):
    """The configuration is restored at these values in particular."""
    M = S.M
    for cfg in NUMBERS.get('numeric' if label in ('vector', 'scalar') else label, []):
        if label in ('numeric', 'vector', 'scalar'):
            cls = {'numeric': 'NumericArrayPattern', 'vector': 'NumericVectorPattern', 'scalar': 'NumericScalarPattern'}[label]
            i2 = M.numeric(K(cfg['lb']), K(cfg['ub']), cls=cls)
        else:
            i2 = S.make(label, **{k: seq('tuple', [('e', K(x)) for x in v]) if isinstance(v, tuple) else K(v) for k, v in cfg.items()})
        c = '%s JSON round trip at %s' % (label, ', '.join('%s=%r' % kv for kv in sorted(cfg.items())))
        p, p2 = rebuilt(M, i2)
        okk = clean_out(p) and clean_out(p2)
        if p2.guard == 0 or p2.raw.op != 'obj' or p2.raw.args[0] is not i2.cls:
            if okk and p2.guard == 0 and p.guard == 1 and not any(r.exc.startswith('?') for r in p2.raises if r.guard):
                rep.bad('restores', c, 'refused', w)
            else:
                rep.unsure('restores', c, show(p2.raw)[:150], w)
            continue
        a1, a2 = M.attrs(i2), M.attrs(like(M, i2, p2))
        bad, open_ = '', ''
        for k in sorted(set(a1) & set(a2)):
            x, y = plain_lists(a1[k]), under(plain_lists(a2[k]), p2.guard)
            if isk(x) and isk(y):
                if not (kval(x) == kval(y) and isinstance(kval(x), bool) == isinstance(kval(y), bool)):
                    bad = bad or 'attribute %s is %s instead of %s' % (k, show(y), show(x))
            elif isk(x) and y.op != 'obj':
                open_ = open_ or '%s: %s' % (k, show(y)[:150])
        if bad and okk:
            rep.bad('restores', c, bad, w)
        elif open_ or bad:
            rep.unsure('restores', c, open_ or bad, w)
        else:
            rep.ok('restores', c, where=w)


def plain_lists(t):
    """Tuples and lists of the same elements are the same shape."""
    def fn(x):
        if x.op == 'app' and x.args[0] in ('builtins.list', 'builtins.tuple') and len(x.args[1]) == 1:
            return x.args[1][0]
        return None
    return rewrite(t, fn, {})


def reordered(inst, v1, v2):
    """The rebuilt pattern visits the members in another order."""
    if getattr(inst, 'members', None) is None:
        return ''
    def outer(t):
        if t.op in ('map', 'dictmap'):
            return [t.args[0]]
        if t.op == 'app' and t.args[1]:
            return outer(t.args[1][0])
        if t.op in ('list', 'tuple') and len(t.args[0]) == 1:
            return outer(t.args[0][0][1])
        return []

    def doms(v):
        r = set()
        for x in [d for _, l in leaves(v) for d in outer(l)]:
            t, odd = x, ''
            while True:
                if t is inst.members:
                    r.add(odd)
                    break
                if t.op in ('dictmap', 'map') and t.args[-1] in (1, mk('B', 1)) or t.op == 'dom':
                    if t.op == 'dictmap' and not (t.args[2].op == 'sub' and t.args[2].args[1] is t.args[1]
                                                  and t.args[0] is mk('dom', t.args[2].args[0])):
                        break
                    t = t.args[0]
                elif t.op == 'app' and len(t.args[1]) == 1 and t.args[0] in (
                        'jsonify', 'builtins.list', 'builtins.tuple', 'dict.keys', 'dict.items', 'dict.values',
                        'sorted', 'reversed', 'builtins.sorted', 'builtins.reversed'):
                    if 'sorted' in t.args[0] or 'reversed' in t.args[0]:
                        odd = odd or t.args[0]
                    t = t.args[1][0]
                else:
                    break
        return r
    d1, d2 = doms(v1), doms(v2)
    if d1 == {''} and '' not in d2 and d2:
        return 'the members are visited in %s order' % ', '.join(sorted(d2))
    return ''


SAMPLES = (('free_default', (None, True, False)), ('default_validate', (True, False)),
           ('shape', ((2, 3), (3, 2), (6,), (2, 3, 1))), ('array_shape', ((2, 3), (3, 2), (6,))),
           ('lb', (0.0, 1e-12, -1e-12, 0.5, -INF)), ('ub', (0.0, 1e-12, 7.5, 1e20, INF)), ('length', (1, 2, 17)), ('size', (1, 2, 17)),
           ('simplex_size', (2, 3, 17)), ('diag_lb', (0.0, 1e-12, 0.5)))


def konst(v):
    return seq('tuple', [('e', K(x)) for x in v]) if isinstance(v, tuple) else K(v)


def config(inst):
    return {k: v for k, v in inst.kw.items() if v.op == 'sym'}


# functions that give different values of a configuration field the same result
LOSSY = {'sorted', 'builtins.set', 'builtins.frozenset', 'np.sort', 'np.unique', 'builtins.round', 'np.round', 'np.around', 'np.rint',
         'np.floor', 'np.ceil', 'np.trunc', 'math.floor', 'math.ceil', 'builtins.int', 'builtins.bool', 'np.float32', 'np.float16',
         'len', 'np.prod', 'np.sum', 'builtins.sum', 'np.size', 'np.ndim', 'floordiv', 'mod', 'np.int64', 'np.int32'}
EXACT_INT = {'builtins.round', 'np.round', 'np.around', 'np.rint', 'np.floor', 'np.ceil', 'np.trunc', 'math.floor', 'math.ceil',
             'builtins.int', 'np.int64', 'np.int32', 'np.float32'}


def kept(t, f):
    """f occurs in t otherwise than below a lossy function (guards aside)."""
    if t is f:
        return True
    if t.op in ('B', 'isnone'):
        return False
    if t.op == 'app' and t.args[0] in LOSSY and not (
            t.args[0] in EXACT_INT and ('int' in f.args[1] or 'tuple' in f.args[1] or 'pattern' in f.args[1])):
        return False
    if t.op == 'gam':
        return any(kept(l, f) for _, l in t.args[0])
    return any(kept(y, f) for y in children(t))


def lossy_fields(M, inst, o2):
    """A field whose every occurrence in the rebuilt state went through a lossy function."""
    if o2.guard == 0 or o2.raw.op != 'obj' or o2.raw.args[0] is not inst.cls or not clean_out(o2):
        return ''
    r = like(M, inst, o2)
    a1, a2 = M.attrs(inst), M.attrs(r)
    for nm, f in sorted(config(inst).items()):
        if f.op != 'sym' or not any(kept(x, f) for x in a1.values()):
            continue
        occ = [y for y in a2.values() if contains(y, f)]
        if occ and not any(kept(y, f) for y in a2.values()):
            return '%s is restored from %s only, which does not determine it' % (nm, show(occ[0])[:200])
    return ''


def p07(S, rep, tier):
    M = S.M
    memo = {}
    rep.rule('restores', 'a pattern rebuilt from its JSON form exists whenever the original does and has the same state '
                         'or, failing that, the same behaviour')
    rep.rule('type-check', 'a class refuses the JSON form of another class with a ValueError')
    rep.rule('equal', 'a pattern equals its rebuilt copy, and equality sees every configuration field and the type')
    js = {}
    for label in LABELS:
        inst = S.make(label)
        w = where_method(M, inst, 'from_json')
        o, o2 = rebuilt(M, inst)
        js[label] = o
        okk = clean_out(o) and clean_out(o2)
        cons = '%s JSON round trip' % label
        g = canon(o2.guard, memo)
        members_are = [a for a in batoms(g) if a.op == 'exists' and any(
            x.op == 'app' and x.args[0] == 'isinstance' for a2 in batoms(a.args[2]) for x in walk(a2))]
        for a in members_are:
            g = cofactor(g, a, False)       # every member is a pattern
        gone = lossy_fields(M, inst, o2)
        if gone:
            rep.bad('restores', cons, gone, w)
            continue
        fixed_numbers(S, rep, label, w)
        if g != 1:
            if okk and all(known_vocab(a) for a in batoms(g)):
                rep.bad('restores', cons, 'refused unless %s (%s)' % (bshow(g)[:300], sorted(
                    {r.exc for r in o2.raises if r.guard})), w)
            else:
                rep.unsure('restores', cons, bshow(g)[:300], w)
            continue
        if o2.raw.op != 'obj' or o2.raw.args[0] is not inst.cls:
            if okk and o2.raw.op in ('obj', 'k'):
                rep.bad('restores', cons, 'gives %s' % show(o2.raw)[:200], w)
            else:
                rep.unsure('restores', cons, show(o2.raw)[:200], w)
            continue
        r = like(M, inst, o2)
        a1, a2 = M.attrs(inst), M.attrs(r)
        lock = getattr(inst, 'lockattr', None)
        for k in sorted(set(a1) | set(a2)):
            if lock is not None and k == lock[2]:
                continue
            x, y = a1.get(k), a2.get(k)
            c = '%s attribute %s' % (cons, k)
            if x is None or y is None:
                rep.unsure('restores', c, 'present on one side only', w)
                continue
            y = under(y, o2.guard)
            y = merge_empty_sum(subst(y, {r.obj: inst.obj}))
            x = merge_empty_sum(x)
            if x is y or strip_int(x) is strip_int(y):
                rep.ok('restores', c, where=w)
                continue
            rep.unsure('restores', c, '%s  vs  %s' % (show(x)[:200], show(y)[:200]), w)
        for op, args in BEHAVE.items():
            b1 = M.call(inst, op, args)
            b2 = M.call(r, op, args)
            c = '%s then %s' % (cons, op)
            same_behaviour(rep, 'restores', c, inst, r, b1, b2, okk, memo, w)
        # each setting of the flags
        flags = [k for k in ('free_default', 'default_validate') if k in inst.kw]
        for k in flags:
            for v in (True, False) + ((None,) if k == 'free_default' else ()):
                i2 = S.make(label, **{k: K(v)})
                p, p2 = rebuilt(M, i2)
                c = '%s with %s=%s' % (cons, k, v)
                if p2.guard == 0 or p2.raw.op != 'obj' or p2.raw.args[0] is not inst.cls:
                    rep.unsure('restores', c, 'refused' if p2.guard == 0 else show(p2.raw)[:150], w)
                    continue
                r2 = like(M, i2, p2)
                op, args = ('flat_length', [NONE]) if k == 'free_default' else ('validate_folded', [FO, NONE])
                same_behaviour(rep, 'restores', '%s then %s' % (c, op), i2, r2, M.call(i2, op, args), M.call(r2, op, args),
                               clean_out(p) and clean_out(p2), memo, w)
        # equality with the copy
        e = M.call(inst, '__eq__', [r.obj], store=o2.store)
        t = truth(e.value) if e.guard == 1 else None
        c = '%s == its rebuilt copy' % label
        we = where_method(M, inst, '__eq__')
        if t == 1:
            rep.ok('equal', c, where=we)
        elif t == 0 and clean_out(e):
            rep.bad('equal', c, 'never equal', we)
        else:
            rep.unsure('equal', c, show(e.value)[:300], we)
    # other types
    for label in ('numeric', 'vector', 'scalar', 'psd', 'simplex', 'parray', 'pdict'):
        inst = S.make(label)
        w = where_method(M, inst, 'from_json')
        fn = M.I.bind_member(M.method(inst.cls, 'from_json'), inst.cls, State(dict(inst.store)), M.caller, None)
        for other in ('numeric', 'vector', 'scalar', 'psd', 'simplex', 'parray', 'pdict'):
            if other == label or other not in js:
                continue
            oi = S.make(other)
            o = M.run(fn, [js[other].value], store=dict(js[other].store), guard=oi.assume)
            o = M.relative(o, oi.assume)
            c = '%s.from_json of a %s' % (label, other)
            v = o.raise_guard(('ValueError',))
            if o.guard == 0 and v == 1:
                rep.ok('type-check', c, where=w)
            elif clean_out(o) and o.guard and v != 1:
                rep.bad('type-check', c, 'accepts it, giving %s' % show(o.raw)[:150], w)
            elif clean_out(o) and o.guard == 0 and not any(r.exc.startswith('?') for r in o.raises if r.guard):
                rep.bad('type-check', c, 'raises %s' % sorted({r.exc for r in o.raises if r.guard}), w)
            else:
                rep.unsure('type-check', c, '', w)
        # equality across configurations
        we = where_method(M, inst, '__eq__')
        cf = config(inst)
        over = {k: mk('sym', v.args[0] + '@2', v.args[1]) for k, v in cf.items()}
        other = S.make(label, **over) if label not in ('numeric', 'vector', 'scalar') else None
        if other is None:
            kw = dict(over)
            lb, ub = kw.pop('lb'), kw.pop('ub')
            other = M.numeric(lb, ub, cls=inst.name, **kw)
        st = dict(inst.store)
        st.update(other.store)
        asm = band(inst.assume, other.assume)
        e = M.call(inst, '__eq__', [other.obj], store=st, guard=asm)
        if e.guard == 0:
            rep.unsure('equal', '%s == another' % label, 'never returns', we)
            continue
        t = truth(e.value)
        for k in cf:
            sub_other = {over[j]: cf[j] for j in cf if j != k}
            tk = bsubst(t, sub_other)
            c = '%s equality sees %s' % (label, k)
            ats = batoms(tk)
            if tk == 1 and clean_out(e):
                rep.bad('equal', c, 'patterns that differ in %s compare equal' % k, we)
            elif tk == 0 and clean_out(e):
                rep.bad('equal', c, 'patterns agreeing in everything but %s are never equal, even when it agrees too' % k, we)
            elif any(contains(a, over[k]) for a in ats) and any(contains(a, cf[k]) for a in ats):
                rep.ok('equal', c, where=we)
            else:
                rep.unsure('equal', c, bshow(tk)[:200], we)
        # ... and their particular values
        for k, vals in SAMPLES:
            if k not in cf or label == 'pdict' and k != 'free_default':
                continue
            for a, b in itertools.permutations(vals, 2):
                one, two = [S.make(label, **{k: konst(v)}) if label not in ('numeric', 'vector', 'scalar') else M.numeric(
                    *[konst(v) if k == j else sym(j, 'finite', 'nonnone') for j in ('lb', 'ub')], cls=inst.name,
                    **({} if k in ('lb', 'ub') else {k: konst(v)})) for v in (a, b)]
                e = M.call(one, '__eq__', [two.obj], store={**one.store, **two.store}, guard=band(one.assume, two.assume))
                t = truth(e.value) if e.guard else None
                c = '%s with %s=%s == %s with %s=%s' % (label, k, a, label, k, b)
                if e.guard == 1 and t == 0:
                    rep.ok('equal', c, where=we)
                elif t == 1 and clean_out(e):
                    rep.bad('equal', c, 'compare equal', we)
                else:
                    rep.unsure('equal', c, show(e.value)[:200], we)
        if label == 'pdict' and inst.members is not None:
            m2 = mk('sym', 'members@2', inst.members.args[1])
            e = M.call(inst, '__eq__', [other.obj], store={**inst.store, **{k: (
                subst(v, {inst.members: m2}) if v.op != 'cell' else v) for k, v in other.store.items() if k not in inst.store}})
            t = truth(e.value)
            t = bsubst(t, {over[j]: cf[j] for j in cf})
            c = 'pdict equality sees the members'
            if t == 1 and clean_out(e):
                rep.bad('equal', c, 'dictionaries with different members compare equal', we)
            elif any(contains(a, m2) for a in batoms(t)):
                rep.ok('equal', c, where=we)
            else:
                rep.unsure('equal', c, bshow(t)[:300], we)
        for other in ('numeric', 'vector', 'scalar', 'psd', 'simplex', 'parray', 'pdict'):
            if other == label:
                continue
            oi = S.make(other)
            st = dict(inst.store)
            st.update(oi.store)
            e = M.call(inst, '__eq__', [oi.obj], store=st, guard=band(inst.assume, oi.assume))
            c = '%s == %s' % (label, other)
            t = truth(e.value) if e.guard == 1 else None
            if t == 0 or e.value is mk_notimpl():
                rep.ok('equal', c, where=we)
            elif t == 1 and clean_out(e):
                rep.bad('equal', c, 'patterns of different types compare equal', we)
            else:
                rep.unsure('equal', c, show(e.value)[:200], we)


def mk_notimpl():
    return mk('ext', 'builtins.NotImplemented')


def config_diff(inst, v1, v2, g1, g2):
    """A configuration field on which only the original depends."""
    def syms(v, g):
        r = set()
        for t in [v] + list(batoms(g)):
            for x in walk(t):
                if x.op == 'sym':
                    r.add(x)
        return r
    s1, s2 = syms(v1, g1), syms(v2, g2)
    cf = {v: k for k, v in config(inst).items()}
    if getattr(inst, 'members', None) is not None:
        cf[inst.members] = 'the members'
    lost = [cf[x] for x in s1 - s2 if x in cf]
    if lost:
        return 'the rebuilt pattern no longer depends on %s' % ', '.join(sorted(lost))
    gained = [cf[x] for x in s2 - s1 if x in cf]
    if gained:
        return 'the rebuilt pattern also depends on %s' % ', '.join(sorted(gained))
    # one field in place of another
    swap = diff_shape(v1, v2)
    parts = swap.split('  vs  ')
    if len(parts) == 2 and parts[0] != parts[1] and all(p in {show(x) for x in cf} | {'True', 'False', 'None'} for p in parts):
        return 'uses %s where the original uses %s' % (parts[1], parts[0])
    return ''


# ----------------------------------------------------------------- P08
def other_class(g, P):
    """The guard when the class P is none of the known classes."""
    for a in batoms(g):
        if a.op == 'app' and a.args[0] in ('is', 'eq') and len(a.args[1]) == 2 and P in a.args[1]:
            b = a.args[1][1 if a.args[1][0] is P else 0]
            if b.op in ('cls', 'func', 'ext', 'k') or b.op == 'sym' and b is not P:
                g = cofactor(g, a, False)
    return g


def concrete_patterns(M):
    I = M.I
    base = M.cls('Pattern')
    r = []
    for t, c in I.classes.items():
        if '<local>' in c.qual or t is base:
            continue
        if base in I.mro(t):
            r.append(t)
    return r


def dumps(d):
    return app('json.dumps', (mk('dict', tuple(('e', (K(k), v)) for k, v in d.items())),))


def p08(S, rep, tier):
    M = S.M
    rep.rule('dispatch', 'the JSON form of a pattern of the package is turned back by its own class')
    rep.rule('registered', 'every concrete pattern class of the package is known to the registry')
    rep.rule('unknown', 'JSON without a pattern name, or with an unregistered one, gives a KeyError')
    rep.rule('register', 'registering makes a class known; a taken name is refused with a ValueError that changes '
                         'nothing, unless overwriting is allowed')
    gp = M.glob('pattern_containers', 'get_pattern_from_json')
    rg = M.glob('pattern_containers', 'register_pattern_json')
    wg, wr = where_func(M, gp), where_func(M, rg)
    names = {}
    for t in concrete_patterns(M):
        f = M.I.bind_member(M.method(t, 'json_typename'), t, State(dict(M.I.base_store)), M.caller, None)
        o = M.run(f, [])
        nm = o.value
        c = M.I.classes[t].name
        if o.guard != 1 or not isk(nm):
            rep.unsure('registered', c, 'type name %s' % show(nm)[:100])
            continue
        names.setdefault(kval(nm), []).append(c)
        js = mk('sym', 'pattern_json', ('str', 'nonnone'))
        o = M.run(gp, [js])
        loaded = app('json.loads', (js,))
        g = bsubst(o.guard, {sub(loaded, K('pattern')): nm})
        if not contains_guard(o.guard, loaded):
            rep.unsure('registered', c, '', wg)
        elif g == 0:
            if clean_out(o):
                rep.bad('registered', c, 'a %s cannot be read back: its type name %s is not registered' % (c, kval(nm)), wg)
            else:
                rep.unsure('registered', c, '', wg)
        else:
            rep.ok('registered', c, where=wg)
    for n, cs in names.items():
        if len(cs) > 1:
            rep.bad('registered', ' and '.join(cs), 'share the type name %s' % n)
    for label in ('numeric', 'vector', 'scalar', 'psd', 'simplex', 'parray', 'pdict'):
        inst = S.make(label)
        o, o2 = rebuilt(M, inst, gp)
        c = 'get_pattern_from_json of a %s' % label
        if o2.guard and o2.raw.op == 'obj' and o2.raw.args[0] is inst.cls:
            rep.ok('dispatch', c, where=wg)
        elif clean_out(o2) and o2.guard and o2.raw.op == 'obj':
            rep.bad('dispatch', c, 'gives %s' % show(o2.raw)[:200], wg)
        elif clean_out(o2) and o2.guard == 0 and not any(r.exc.startswith('?') for r in o2.raises if r.guard):
            rep.bad('dispatch', c, 'raises %s' % sorted({r.exc for r in o2.raises if r.guard}), wg)
        else:
            rep.unsure('dispatch', c, '', wg)
    for c, d in (('no pattern entry', {}), ('another entry only', {'size': K(3)}),
                 ('unregistered name', {'pattern': K('no.such.Pattern')})):
        o = M.run(gp, [dumps(d)])
        k = o.raise_guard(('KeyError',))
        if o.guard == 0 and k == 1:
            rep.ok('unknown', c, where=wg)
        elif clean_out(o) and o.guard:
            rep.bad('unknown', c, 'returns %s' % show(o.value)[:200], wg)
        elif clean_out(o) and not any(r.exc.startswith('?') for r in o.raises if r.guard):
            rep.bad('unknown', c, 'raises %s' % sorted({r.exc for r in o.raises if r.guard}), wg)
        else:
            rep.unsure('unknown', c, '', wg)
    # registering
    nc = M.cls('NumericArrayPattern')
    P = mk('sym', 'NewPattern', ('nonnone',))
    tn = mk('mcall', P, 'json_typename', ())
    for ov in (FALSE, TRUE, None):
        o = M.run(rg, [P] + ([] if ov is None else [ov]))
        c = 'a new name, allow_overwrite=%s' % ('default' if ov is None else show(ov))
        fresh = [(a, False) for a in batoms(o.guard)]
        g = o.guard
        for a, v in fresh:
            g = cofactor(g, a, v)
        if g == 1:
            o2 = M.run(gp, [dumps({'pattern': tn})], store=o.store, guard=o.guard)
            v = o2.value
            ok = any(x.op == 'mcall' and x.args[0] is P and x.args[1] == 'from_json' for x in walk(v)) or \
                any(P in (x.args[0],) for _, x in leaves(v) if x.op == 'mcall')
            if ok:
                rep.ok('register', c, where=wr)
            elif clean_out(o) and clean_out(o2):
                rep.bad('register', c, 'the class registered is not the one used: %s' % show(v)[:200], wr)
            else:
                rep.unsure('register', c, show(v)[:200], wr)
        elif clean_out(o) and all(a.op == 'app' and a.args[0] == 'eq' for a in batoms(o.guard)) or (g == 0 and clean_out(o)):
            rep.bad('register', c, 'refused', wr)
        else:
            rep.unsure('register', c, '', wr)
    for ov in (FALSE, None, TRUE):
        o = M.run(rg, [nc] + ([] if ov is None else [ov]))
        c = 'a taken name, allow_overwrite=%s' % ('default' if ov is None else show(ov))
        if ov is TRUE:
            r = o.guard == 1
            msg = 'refused'
        else:
            r = o.guard == 0 and o.raise_guard(('ValueError',)) == 1
            msg = 'accepted' if o.guard else 'raises %s' % sorted({x.exc for x in o.raises if x.guard})
            if r:
                ev = [e for e in o.events if e.kind in ('setitem', 'store', 'mutcall', 'setattr', 'aug', 'delitem') and e.guard]
                if ev:
                    r, msg = False, 'changes something before refusing (%s)' % ev[0].kind
        if r:
            rep.ok('register', c, where=wr)
        elif clean_out(o):
            rep.bad('register', c, msg, wr)
        else:
            rep.unsure('register', c, '', wr)
    # ... and names that only look like a known one
    known = sorted(n for n in names if isinstance(n, str))
    for n in known:
        last = n.split('.')[-1]
        for new in dict.fromkeys(('user_module.' + last, last, 'user.' + n, n + 'X', n.lower(), n[:-1])):
            if new in names:
                continue
            c = 'a class named %s' % new
            o = M.run(gp, [dumps({'pattern': K(new)})])
            if o.guard == 0 and o.raise_guard(('KeyError',)) == 1:
                rep.ok('unknown', new, where=wg)
            elif clean_out(o) and o.guard:
                rep.bad('unknown', new, 'is not registered but gives %s' % show(o.raw)[:150], wg)
            elif clean_out(o) and o.guard == 0 and not any(r.exc.startswith('?') for r in o.raises if r.guard):
                rep.bad('unknown', new, 'raises %s' % sorted({r.exc for r in o.raises if r.guard}), wg)
            else:
                rep.unsure('unknown', new, '', wg)
            M.I.fixed_mcalls = {(P, 'json_typename'): K(new)}
            try:
                o = M.run(rg, [P])
                o2 = M.run(gp, [dumps({'pattern': K(new)})], store=o.store, guard=o.guard) if o.guard else None
            finally:
                M.I.fixed_mcalls = {}
            if o.guard == 0 and clean_out(o):
                rep.bad('register', c, 'refused although the name is not taken', wr)
            elif o2 is not None and o2.guard == 1 and o2.value.op == 'mcall' and o2.value.args[:2] == (P, 'from_json'):
                rep.ok('register', c, where=wr)
            elif o2 is not None and clean_out(o) and clean_out(o2) and o.guard == 1 and not contains(o2.value, P) and \
                    (o2.raw.op == 'obj' or o2.guard == 0 and not any(r.exc.startswith('?') for r in o2.raises if r.guard)):
                rep.bad('register', c, 'is not the one its JSON is given to', wg)
            else:
                rep.unsure('register', c, show(o2.value)[:200] if o2 is not None else '', wr)
    # ... and a taken name brought by another class
    for n in sorted(names, key=str):
        for ov in (FALSE, None, TRUE):
            o = M.run(rg, [P] + ([] if ov is None else [ov]))
            g = other_class(bsubst(o.guard, {tn: K(n)}), P)
            c = 'another class named %s, allow_overwrite=%s' % (n, 'default' if ov is None else show(ov))
            want = 1 if ov is TRUE else 0
            if g == want:
                rep.ok('register', c, where=wr)
            elif g == 1 - want and clean_out(o):
                rep.bad('register', c, 'refused' if want else 'accepted', wr)
            else:
                rep.unsure('register', c, bshow(g)[:200], wr)
        c = 'another class overwriting %s' % n
        M.I.fixed_mcalls = {(P, 'json_typename'): K(n)}
        try:
            o = M.run(rg, [P, TRUE])
            o2 = M.run(gp, [dumps({'pattern': K(n)})], store=o.store, guard=o.guard) if o.guard else None
        finally:
            M.I.fixed_mcalls = {}
        if o2 is not None and o2.guard == 1 and o2.value.op == 'mcall' and o2.value.args[:2] == (P, 'from_json'):
            rep.ok('register', c, where=wr)
        elif o2 is not None and clean_out(o) and clean_out(o2) and o.guard == 1 and not contains(o2.value, P) and \
                (o2.raw.op == 'obj' or o2.guard == 0 and not any(r.exc.startswith('?') for r in o2.raises if r.guard)):
            rep.bad('register', c, 'the class registered last is not the one its JSON is given to', wr)
        else:
            rep.unsure('register', c, show(o2.value)[:200] if o2 is not None else '', wr)


def contains_guard(g, t):
    return any(contains(a, t) for a in batoms(g))


def where_func(M, f):
    F = M.I.funcs.get(f)
    if F is None:
        return None
    mod = M.project.modules.get(F.module)
    return '%s:%s in %s' % (M.project.relpath(mod.path) if mod else F.module, F.node.lineno, F.qual)
