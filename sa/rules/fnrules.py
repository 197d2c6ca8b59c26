"""P13, P14: wrappers of functions of folded or flat values."""
import itertools
from ..core import mkB
from ..suite import *
from .. import oneshot

PP = [sym('p%d' % i, 'pattern', 'nonnone') for i in range(3)]
FF = [sym('free%d' % i, 'bool', 'nonnone') for i in range(3)]
FUN = sym('fun', 'nonnone', 'callable')
# keyword arguments of the wrapped function; some share a name with the
# parameters the wrapper itself knows
KW = {k: sym('kwval_' + k, 'nonnone') for k in ('kw1', 'kw2', 'free', 'validate_value')}


def A(n):
    return [sym('arg%d' % i, 'nonnone') for i in range(n)]


def L(xs):
    return seq('list', [('e', x) for x in xs])


def conv(M, p, meth, val, free):
    """The interface call p.meth(val, free=free)."""
    F = M.I.iface()[meth]
    names = [x.arg for x in F.node.args.args][1:]
    kk = {names[0]: val, 'free': free}
    nd = len(F.defaults)
    for i, nm in enumerate(names):
        if nm not in kk and i >= len(names) - nd:
            kk[nm] = F.defaults[i - (len(names) - nd)]
    return mk('mcall', p, meth, tuple(sorted(kk.items())))


def norm(t):
    """Results up to the representation of the mode handed to a pattern."""
    def fn(x):
        if x.op == 'mcall' and x.args[1] in MODED:
            kw = tuple((k, mkB(truth(v)) if k == 'free' and isinstance(v, T) and v is not NONE else rewrite(v, fn, memo)) for k, v in x.args[2])
            return mk('mcall', rewrite(x.args[0], fn, memo), x.args[1], kw)
        return None
    memo = {}
    return rewrite(t, fn, memo)


MODED = ('fold', 'flatten')


def build(M, cls, patterns, free, nums, numname):
    kw = {'original_fun': FUN, 'patterns': patterns, 'free': free}
    if nums is not None:
        kw[numname] = nums
    return M.run(M.cls(cls), [], kw)


def cell(M, xs):
    return L(xs)


def where_cls(M, cls):
    C = M.I.classes[M.cls(cls)]
    mod = M.project.modules.get(C.module)
    return '%s:%s in %s' % (M.project.relpath(mod.path), C.node.lineno, C.qual)


def configs(tier, maxpos):
    """(number of patterns, positions or None, single-free?, scalars?)"""
    for n in (1, 2, 3):
        yield n, None, False, False
        yield n, None, True, False
        for pos in itertools.permutations(range(maxpos), n):
            yield n, pos, False, False
    yield 2, (2, 0), True, False
    yield 1, (1,), True, True
    yield 1, None, True, True
    yield 3, (3, 0, 2), True, False
    yield 1, (0,), None, True
    yield 2, (1, 0), None, False


def desc(n, pos, onefree, scalar):
    return '%s pattern%s at %s%s' % (n, '' if n == 1 else 's', 'default positions' if pos is None else list(pos),
                                     ' (one free)' if onefree else ' (free None)' if onefree is None else '')


def make(M, cls, n, pos, onefree, scalar, numname):
    pats = PP[0] if scalar else L(PP[:n])
    free = NONE if onefree is None else FF[0] if onefree else L(FF[:n])
    nums = None if pos is None else K(pos[0]) if scalar else L([K(i) for i in pos])
    return build(M, cls, pats, free, nums, numname)


def mode(onefree, j):
    return NONE if onefree is None else FF[0 if onefree else j]


def fun_calls(o):
    return [e for e in o.events if e.kind == 'call' and e.data[0] is FUN]


def same(rep, rule, cons, got, want, o, w):
    """Result equality verdict."""
    if o.guard == 1 and (got is want or norm(got) is norm(want)):
        rep.ok(rule, cons, where=w)
        return True
    if not clean_out(o):
        rep.unsure(rule, cons, show(got)[:300], w)
    elif o.guard == 0:
        rep.bad(rule, cons, 'the call never returns: %s' % ', '.join(
            '%s at %s' % (r.exc, r.where()) for r in o.raises[:3]), w)
    elif o.guard != 1:
        if got is want and all(understood(a) for a in batoms(o.guard)):
            rep.bad(rule, cons, 'the call returns only when %s' % bshow(o.guard), w)
        else:
            rep.unsure(rule, cons, 'the call returns only when %s' % bshow(o.guard)[:300], w)
    else:
        if understood(got) or got.op == 'app' and got.args[0] in CONVERTS and want in got.args[1]:
            rep.bad(rule, cons, 'computes %s instead of %s' % (show(got)[:500], show(want)[:500]), w)
        else:
            rep.unsure(rule, cons, show(got)[:300], w)
    return False


# functions that hand on another object than they are given
CONVERTS = {'np.asarray', 'np.array', 'np.atleast_1d', 'np.atleast_2d', 'np.squeeze', 'copy', 'np.copy', 'astype', 'flatten',
            'np.ravel', 'builtins.float', 'builtins.list', 'builtins.tuple', 'builtins.str', 'np.hstack', 'neg', 'np.abs'}
VOCAB = {'mcall', 'call', 'ret', 'sym', 'k', 'tuple', 'list', 'gam', 'B'}


def understood(t):
    return all(x.op in VOCAB for x in walk(t))


def run_on(M, out, args, kw, rets=None):
    I = M.I
    I.returns_of = {} if rets is None else {FUN: rets}
    m = I.class_attr(out.raw, '__call__')
    o = M.run(I.bind_member(m[1], out.raw, State(out.store), M.caller, None), args, kw, out.store)
    I.returns_of = {}
    return o


def constructed(rep, rule, cons, out, w):
    if out.guard == 1 and out.raw.op == 'obj':
        return True
    if clean_out(out) and out.guard == 0:
        rep.bad(rule, cons, 'a correct set of arguments is refused: %s' % ', '.join(
            '%s at %s' % (r.exc, r.where()) for r in out.raises[:3]), w)
    else:
        rep.unsure(rule, cons, 'construction: %s' % bshow(out.guard), w)
    return False


def bad_configs(numname):
    p2, f2 = L(PP[:2]), L(FF[:2])
    return [
        ('duplicate positions', p2, f2, L([K(1), K(1)])),
        ('duplicate positions among three', L(PP), L(FF), L([K(2), K(0), K(2)])),
        ('more patterns than positions', p2, f2, L([K(1)])),
        ('fewer patterns than positions', p2, f2, L([K(0), K(1), K(2)])),
        ('one pattern, two positions', PP[0], FF[0], L([K(0), K(1)])),
        ('free of another length', p2, L(FF[:3]), None),
        ('free of another length, positions given', L(PP), L(FF[:2]), L([K(0), K(1), K(2)])),
        ('two-dimensional positions', p2, f2, L([L([K(0), K(1)])])),
        ('two-dimensional patterns', L([L(PP[:2])]), FF[0], L([K(0)])),
        ('two-dimensional free', L(PP[:1]), L([L([FF[0]])]), None),
    ]


def refusals(M, rep, cls, numname, w):
    for name, pats, free, nums in bad_configs(numname):
        out = build(M, cls, pats, free, nums, numname)
        cons = '%s(%s)' % (cls, name)
        if out.guard == 0 and all(r.exc == 'ValueError' for r in out.raises):
            rep.ok('config', cons, where=w)
        elif not clean_out(out):
            rep.unsure('config', cons, bshow(out.guard), w)
        elif out.guard == 1:
            rep.bad('config', cons, 'an inconsistent set of arguments is accepted', w)
        elif out.guard == 0:
            rep.bad('config', cons, 'refused with %s rather than a ValueError' % ', '.join(
                sorted({r.exc for r in out.raises})), w)
        else:
            rep.unsure('config', cons, bshow(out.guard), w)


def once(rep, cons, o, want_args, w):
    ev = fun_calls(o)
    if not clean_out(o):
        rep.unsure('once', cons, '', w)
        return
    if len(ev) == 1 and ev[0].guard == 1 and not ev[0].loops:
        rep.ok('once', cons, where=w)
    elif not ev or all(e.guard == 0 for e in ev):
        rep.bad('once', cons, 'the original function is not called', w)
    elif len(ev) > 1 and all(e.guard == 1 and not e.loops for e in ev):
        rep.bad('once', cons, 'the original function is called %d times' % len(ev), w)
    elif len(ev) > 1 and any(failed(e.guard) for e in ev[1:]):
        rep.bad('once', cons, 'the original function is called again after its call failed', w)
    else:
        rep.unsure('once', cons, '; '.join(bshow(e.guard) for e in ev), w)


def failed(g):
    """Does the guard say just that a call of the original raised?"""
    from ..core import batoms
    at = [a for a in batoms(g)]
    return bool(at) and g != 0 and all(a.op == 'raises' and all(r.args[0] == 'call' for r in a.args[1]) for a in at)


def p13(S, rep, tier):
    M = S.M
    rep.rule('convert', 'the wrapper converts exactly the designated arguments, each with its own pattern and mode, '
                        'passes every other positional and keyword argument unchanged, and returns what the function returns')
    rep.rule('once', 'the original function is called exactly once per call of the wrapper')
    rep.rule('config', 'inconsistent patterns, positions or modes are refused with a ValueError at construction')
    oneshot.report(M.project, rep, 'once', lambda m, c: m.endswith('function_patterns') and 'Output' not in c)
    maxpos = 4 if tier == 'quick' else 5
    for cls, meth in (('FoldFunctionInput', 'flatten'), ('FlattenFunctionInput', 'fold')):
        w = where_cls(M, cls)
        for c in configs(tier, maxpos):
            n, pos, onefree, scalar = c
            out = make(M, cls, *c, numname='argnums')
            cons = '%s, %s' % (cls, desc(*c))
            if not constructed(rep, 'convert', cons, out, w):
                continue
            ps = list(pos) if pos is not None else list(range(n))
            lens = {max(ps) + 1, 5}
            for m in sorted(lens):
                for kw in ({}, KW):
                    if kw and m != 5:
                        continue
                    args = A(m)
                    o = run_on(M, out, args, kw)
                    new = list(args)
                    for j, i in enumerate(ps):
                        new[i] = conv(M, PP[j], meth, args[i], mode(onefree, j))
                    want = mk('call', FUN, tuple(new), tuple(sorted(kw.items())))
                    c2 = '%s, %d args%s' % (cons, m, ', keywords' if kw else '')
                    same(rep, 'convert', c2, o.value if o.guard else NONE, want, o, w)
                    once(rep, c2, o, new, w)
            if n == 1 or pos == (1, 0):
                # None is a value like any other for the wrapper
                args = [NONE if i == ps[0] else a for i, a in enumerate(A(5))]
                o = run_on(M, out, args, {})
                new = list(args)
                for j, i in enumerate(ps):
                    new[i] = conv(M, PP[j], meth, args[i], mode(onefree, j))
                same(rep, 'convert', '%s, a designated argument that is None' % cons, o.value if o.guard else NONE,
                     mk('call', FUN, tuple(new), ()), o, w)
        refusals(M, rep, cls, 'argnums', w)


def p14(S, rep, tier):
    M = S.M
    rep.rule('convert', 'the wrapper converts exactly the designated return values, each with its own pattern and mode, and '
                        'hands the others through in place; a single return value stays single')
    rep.rule('once', 'the original function is called exactly once, with the arguments unchanged')
    rep.rule('mismatch', 'positions beyond the returned values are refused with a ValueError')
    rep.rule('config', 'inconsistent patterns, positions or modes are refused with a ValueError at construction')
    rep.rule('both', 'the combined wrapper converts inputs and outputs as the two single ones do')
    args = A(2)
    base = mk('call', FUN, tuple(args), tuple(sorted(KW.items())))
    oneshot.report(M.project, rep, 'once', lambda m, c: m.endswith('function_patterns') and 'Output' in c)
    maxpos = 3 if tier == 'quick' else 4
    for cls, meth in (('FoldFunctionOutput', 'fold'), ('FlattenFunctionOutput', 'flatten')):
        w = where_cls(M, cls)
        for c in configs(tier, maxpos):
            n, pos, onefree, scalar = c
            out = make(M, cls, *c, numname='retnums')
            cons = '%s, %s' % (cls, desc(*c))
            if not constructed(rep, 'convert', cons, out, w):
                continue
            ps = list(pos) if pos is not None else list(range(n))
            fr = lambda j: mode(onefree, j)
            for m in ['one', 'list'] + list(range(1, maxpos + 2)):
                o = run_on(M, out, args, KW, m)
                c2 = '%s, %s' % (cons, {'one': 'a single value', 'list': 'a list as single value'}.get(m) or 'a tuple of %d' % m)
                if m in ('one', 'list'):
                    good = ps == [0]
                    if m == 'list' and not good:
                        continue
                    val = mk('ret', base, NONE) if m == 'one' else L([mk('ret', base, K(0)), mk('ret', base, K(1))])
                    want = conv(M, PP[0], meth, val, fr(0)) if good else None
                else:
                    good = max(ps) < m
                    if good:
                        rs = [mk('ret', base, K(i)) for i in range(m)]
                        for j, i in enumerate(ps):
                            rs[i] = conv(M, PP[j], meth, rs[i], fr(j))
                        want = seq('tuple', [('e', x) for x in rs])
                if good:
                    same(rep, 'convert', c2, o.value if o.guard else NONE, want, o, w)
                    once(rep, c2, o, args, w)
                elif o.guard == 0 and o.raises and all(r.exc == 'ValueError' for r in o.raises):
                    rep.ok('mismatch', c2, where=w)
                elif not clean_out(o):
                    rep.unsure('mismatch', c2, '', w)
                elif o.guard == 0:
                    rep.bad('mismatch', c2, 'raises %s rather than ValueError' % sorted({r.exc for r in o.raises}), w)
                elif o.guard == 1:
                    tooff = any(x.op == 'sub' and is_seq(x.args[0]) for x in walk(o.value))
                    if tooff:
                        rep.bad('mismatch', c2, 'fails without a ValueError (index out of range)', w)
                    else:
                        rep.bad('mismatch', c2, 'returns %s' % show(o.value)[:300], w)
                else:
                    rep.unsure('mismatch', c2, bshow(o.guard), w)
            if n == 1 or pos == (1, 0):
                # None is a value like any other for the wrapper
                o = run_on(M, out, args, KW, tuple(i == ps[0] for i in range(4)))
                rs = [NONE if i == ps[0] else mk('ret', base, K(i)) for i in range(4)]
                for j, i in enumerate(ps):
                    rs[i] = conv(M, PP[j], meth, rs[i], fr(j))
                same(rep, 'convert', '%s, a designated value that is None' % cons, o.value if o.guard else NONE,
                     seq('tuple', [('e', x) for x in rs]), o, w)
        refusals(M, rep, cls, 'retnums', w)
    both(M, rep, tier)


def both(M, rep, tier):
    Q = [sym('q%d' % i, 'pattern', 'nonnone') for i in range(2)]
    G = [sym('ofree%d' % i, 'bool', 'nonnone') for i in range(2)]
    for cls, mi, mo in (('FoldFunctionInputAndOutput', 'flatten', 'fold'),
                        ('FlattenFunctionInputAndOutput', 'fold', 'flatten')):
        w = where_cls(M, cls)
        for ps, rs, given in (((0,), (0,), 3), ((1,), (0,), 3), ((0, 2), (1,), 3), ((2, 0), (2, 0), 3), ((1, 3), (0, 1), 3), ((0,), (0,), 0),
                              ((0, 1), (0, 1), 0), ((0, 1), (2,), 2), ((1,), (0, 1), 1)):
            kw = {'original_fun': FUN, 'input_patterns': L(PP[:len(ps)]), 'input_free': L(FF[:len(ps)]),
                  'input_argnums': L([K(i) for i in ps]), 'output_patterns': L(Q[:len(rs)]),
                  'output_free': L(G[:len(rs)]), 'output_retnums': L([K(i) for i in rs])}
            if not given & 1:
                kw['input_argnums'] = NONE
            if not given & 2:
                del kw['output_retnums']
            out = M.run(M.cls(cls), [], kw)
            cons = '%s, arguments %s%s, returns %s%s' % (cls, list(ps), '' if given & 1 else ' by default', list(rs),
                                                         '' if given & 2 else ' by default')
            if not constructed(rep, 'both', cons, out, w):
                continue
            args = A(4)
            for m in (['one'] if rs == (0,) else []) + [3]:
                o = run_on(M, out, args, KW, m)
                new = list(args)
                for j, i in enumerate(ps):
                    new[i] = conv(M, PP[j], mi, args[i], FF[j])
                base = mk('call', FUN, tuple(new), tuple(sorted(KW.items())))
                if m == 'one':
                    want = conv(M, Q[0], mo, mk('ret', base, NONE), G[0])
                else:
                    v = [mk('ret', base, K(i)) for i in range(m)]
                    for j, i in enumerate(rs):
                        v[i] = conv(M, Q[j], mo, v[i], G[j])
                    want = seq('tuple', [('e', x) for x in v])
                same(rep, 'both', '%s, %s' % (cons, m), o.value if o.guard else NONE, want, o, w)
