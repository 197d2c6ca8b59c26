"""P26: a pattern reports the configuration it was built with."""
import itertools
from fractions import Fraction

from ..canon import *
from .layout import ok_vocab, strip_int, int_value, NoValue
from .ranges import verdict_of

LBS = {'numeric': ('lb', 'ub'), 'vector': ('lb', 'ub'), 'scalar': ('lb', 'ub'), 'numeric_lb': ('lb', K(INF)),
       'numeric_ub': (K(-INF), 'ub'), 'numeric_free': (K(-INF), K(INF))}


def tup(*xs):
    return seq('tuple', [('s' if spl else 'e', x) for spl, x in xs])


def queries(inst, label):
    """(query name, value it has to report)."""
    kw = inst.kw
    r = []
    if label in LBS:
        lo, hi = (sym(b, 'finite', 'nonnone') if isinstance(b, str) else b for b in LBS[label])
        r.append(('bounds', tup((0, lo), (0, hi))))
        if label == 'vector':
            r += [('length', kw['length']), ('shape', tup((0, kw['length'])))]
        elif label == 'scalar':
            r.append(('shape', tup((0, K(1)))))
        else:
            r.append(('shape', kw['shape']))
    elif label == 'psd':
        r += [('size', kw['size']), ('diag_lb', kw['diag_lb']), ('shape', tup((0, kw['size']), (0, kw['size'])))]
    elif label == 'simplex':
        r += [('array_shape', kw['array_shape']), ('simplex_size', kw['simplex_size']),
              ('shape', tup((1, kw['array_shape']), (0, kw['simplex_size'])))]
    elif label == 'parray':
        e = mk('mcall', kw['base_pattern'], 'empty', (('valid', FALSE),))
        r += [('array_shape', kw['array_shape']), ('base_pattern', kw['base_pattern']),
              ('shape', tup((1, kw['array_shape']), (1, app('np.shape', (e,)))))]
    return r


def plain(t):
    """Drop conversions that keep the value."""
    def fn(x):
        if x.op == 'app' and x.args[0] in ('builtins.float', 'builtins.tuple', 'builtins.int', 'builtins.bool', 'np.float64') and \
                len(x.args[1]) == 1 and not x.args[2]:
            return plain(x.args[1][0])
        return None
    return rewrite(t, fn, {})


def agree(got, want, assume=1):
    listed = got.op == 'app' and got.args[0] == 'builtins.list'
    a, b = plain(got), plain(want)
    if a is b and not listed:
        return True
    if (a.op == 'list' or listed) and (b.op == 'tuple' or b.op == 'sym' and 'tuple' in b.args[1]):
        return False
    ea, eb = simple_elems(a), simple_elems(b)
    if isk(a) and isk(b) and not isinstance(kval(a), str):
        return kval(a) == kval(b)
    if ea is not None and eb is not None and a.op in ('tuple', 'list'):
        if len(ea) != len(eb):
            return False
        rs = [agree(x, y, assume) for x, y in zip(ea, eb)]
        return False if False in rs else None if None in rs else True
    if a.op == 'sym' or isk(a):
        return False
    if not ok_vocab(a, ('np.maximum', 'np.minimum', 'abs', 'np.abs', 'builtins.min', 'builtins.max')):
        return None
    picks = any(x.op == 'app' and x.args[0] in ('np.maximum', 'np.minimum', 'builtins.min', 'builtins.max', 'abs', 'np.abs') for x in walk(a))
    return sampled(a, b, assume) if picks else False


def sampled(a, b, g):
    """False when the two differ for some configuration the guard allows."""
    vs = sorted({x for t in (a, b) for x in walk(t) if x.op == 'sym'}, key=show)
    if not vs or len(vs) > 2:
        return None
    cs = {abs(kval(y)) for t in [a, b] + list(batoms(g)) for y in walk(t) if isk(y) and type(kval(y)) in (int, float) and abs(kval(y)) < 10 ** 6}
    ns = {Fraction(c) * f for c in cs for f in (1, -1, Fraction(1, 2), 2)} | {Fraction(x) for x in (-3, -1, 0, 1, 2, 3, 7)}
    ats = [y for y in batoms(g) if any(contains(y, v) for v in vs)]
    for env in itertools.product(sorted(ns), repeat=len(vs)):
        env = dict(zip(vs, env))
        if any('int' in v.args[1] and env[v].denominator != 1 for v in vs):
            continue
        h = g
        try:
            for y in ats:
                h = cofactor(h, y, bool(int_value(y, env)))
            if h != 0 and int_value(a, env) != int_value(b, env):
                return False
        except NoValue:
            return None
    return None


def falsy(g, l, want):
    """Zero, where the value expected is known to be zero."""
    return isk(l) and isinstance(kval(l), (int, float)) and kval(l) == 0 and implies(g, bnot(truth(want)))


SIMPLE = (('NumericArrayPattern', {'shape': sym('shape', 'tuple')}), ('NumericVectorPattern', {'length': sym('length', 'int')}),
          ('NumericScalarPattern', {}), ('PSDSymmetricMatrixPattern', {'size': sym('size', 'int')}),
          ('SimplexArrayPattern', {'simplex_size': sym('simplex_size', 'int'), 'array_shape': sym('array_shape', 'tuple')}),
          ('PatternArray', {'array_shape': sym('array_shape', 'tuple'), 'base_pattern': sym('base_pattern', 'pattern', 'nonnone')}),
          ('PatternDict', {}))
UNSET = {'bounds()': tup((0, K(-INF)), (0, K(INF))), 'diag_lb()': K(0.0), 'default_validate': TRUE, 'free_default': NONE}


def p26(S, rep, tier):
    M = S.M
    rep.rule('unset', 'what is left out at construction gets its documented value: no bounds, no default mode, validation on')
    for cls, kw in SIMPLE:
        inst = M.new(cls, kw)
        for q, want in UNSET.items():
            name = q.rstrip('()')
            if q.endswith('()'):
                if not M.has_method(inst.cls, name):
                    continue
                o = M.call(inst, name, [])
            elif q == 'default_validate' and cls in ('PatternArray', 'PatternDict'):
                continue
            else:
                o = M.relative(M.run(M.I.ext('builtins.getattr'), [inst.obj, K(name)], {}, dict(inst.store), inst.assume), inst.assume)
            verdict_of(rep, 'unset', '%s(..).%s' % (cls, q), [
                (agree(l, want) if clean_out(o) else None, 'is %s instead of %s' % (show(l)[:200], show(want))) for _, l in leaves(o.value)], None)
    rep.rule('query', 'each query about the configuration answers with the value given at construction')
    rep.rule('attribute', 'the default mode and default validation attributes hold the values given at construction')
    for label in S.LABELS:
        inst = S.make(label)
        for name, want in queries(inst, label):
            cons = '%s %s.%s()' % (label, inst.name, name)
            if not M.has_method(inst.cls, name):
                rep.bad('query', cons, 'the query is missing')
                continue
            w = where_method(M, inst, name)
            o = M.call(inst, name, [])
            if not clean_out(o):
                rep.unsure('query', cons, show(o.value)[:200], w)
            elif o.guard != 1:
                rep.bad('query', cons, 'raises', w) if o.guard == 0 else rep.unsure('query', cons, bshow(o.guard)[:200], w)
            else:
                verdict_of(rep, 'query', cons, [(falsy(g, l, want) or agree(l, want, band(g, inst.assume)), 'answers %s instead of %s' % (
                    show(l)[:200], show(want)[:200])) for g, l in leaves(o.value)], w)
        for name in ('free_default', 'default_validate'):
            if name not in inst.kw:
                continue
            cons = '%s %s.%s' % (label, inst.name, name)
            o = M.run(M.I.ext('builtins.getattr'), [inst.obj, K(name)], {}, dict(inst.store), inst.assume)
            o = M.relative(o, inst.assume)
            verdict_of(rep, 'attribute', cons, [(agree(l, inst.kw[name], inst.assume), 'is %s instead of %s' % (show(l)[:200], show(inst.kw[name])))
                                                for _, l in leaves(o.value)], None)
