"""The analysed instances and the shared vocabulary of the rules."""
from .model import *

INF = float('inf')
BAD_OPS = {'opaque', 'opaquecell', 'mu', 'undef'}

FV = sym('flat_val', 'nonnone')
FO = sym('folded_val', 'nonnone')
FB = sym('folded_bool', 'nonnone')
VV = sym('validate_value', 'any')
FREE = sym('free', 'any')
SPARSE = sym('sparse', 'bool', 'nonnone')

PATTERN_FILES = ('base_patterns', 'numeric_array_patterns', 'pattern_containers',
                 'psdmatrix_patterns', 'simplex_patterns')


def same_value(a, ga, b, gb):
    if ga != gb:
        return False
    if ga == 0:
        return True
    return under(a, ga) is under(b, gb)


def own_closures(o):
    """A function made during the call differs from that of another call without meaning anything."""
    return any(has_op(t, {'func'}) for t in ([o.value] if o.guard else []) + batoms(o.guard) + [
        a for g, _ in leaves(o.value) for a in batoms(g)])


def omitted_same(rep, rule, cons, o, base, w):
    """Leaving an argument out (o) is the same as giving its documented default (base)."""
    if o.guard == 0 and o.raises and {r.exc for r in o.raises} == {'TypeError'}:
        rep.ok(rule, cons, 'the argument has to be given', w)
    elif same_value(base.value, base.guard, o.value, o.guard):
        rep.ok(rule, cons, where=w)
    elif clean_out(o) and clean_out(base) and not own_closures(o) and not own_closures(base):
        rep.bad(rule, cons, diff_shape(base.value, o.value) if base.guard == o.guard else 'succeeds when %s  vs  %s' % (
            bshow(base.guard)[:300], bshow(o.guard)[:300]), w)
    else:
        rep.unsure(rule, cons, 'not fully interpreted', w)


def clean(*xs):
    """No part of these terms (or of their guards) escaped the analysis."""
    for x in xs:
        if isinstance(x, int) and not isinstance(x, bool):
            if any(has_op(a, BAD_OPS) for a in batoms(x)):
                return False
        elif isinstance(x, T):
            if has_op(x, BAD_OPS):
                return False
        elif isinstance(x, (list, tuple)):
            if not clean(*x):
                return False
    return True


def clean_out(o):
    return not o.notes and clean(o.guard, o.value if o.guard else 1) and clean([r.guard for r in o.raises])


class Suite:
    """Instances, one per concrete pattern class and qualitatively different
    configuration; built on demand with chosen overrides."""

    def __init__(self, M):
        self.M = M
        self.cache = {}

    LABELS = ('numeric', 'numeric_lb', 'numeric_ub', 'numeric_free', 'vector', 'scalar',
              'psd', 'simplex', 'parray', 'pdict')
    CORE = ('numeric', 'numeric_lb', 'numeric_ub', 'numeric_free', 'psd', 'simplex', 'parray', 'pdict')

    def make(self, label, **over):
        key = (label, tuple(sorted(over.items(), key=lambda kv: kv[0])))
        if key in self.cache:
            return self.cache[key]
        M = self.M
        lb, ub = sym('lb', 'finite', 'nonnone'), sym('ub', 'finite', 'nonnone')
        if label == 'numeric':
            r = M.numeric(lb, ub, **over)
        elif label == 'numeric_lb':
            r = M.numeric(lb, K(INF), **over)
        elif label == 'numeric_ub':
            r = M.numeric(K(-INF), ub, **over)
        elif label == 'numeric_free':
            r = M.numeric(K(-INF), K(INF), **over)
        elif label == 'vector':
            r = M.numeric(lb, ub, cls='NumericVectorPattern', **over)
        elif label == 'scalar':
            r = M.numeric(lb, ub, cls='NumericScalarPattern', **over)
        elif label == 'psd':
            r = M.psd(**over)
        elif label == 'simplex':
            r = M.simplex(**over)
        elif label == 'parray':
            r = M.parray(**over)
        elif label == 'pdict':
            r = M.pdict(**over)
        else:
            raise KeyError(label)
        r.label = label
        self.cache[key] = r
        return r

    def each(self, labels=None, **over):
        for l in labels or self.CORE:
            yield self.make(l, **over)


def where_method(M, inst, name):
    """file:line of the method an instance resolves."""
    m = M.I.class_attr(inst.obj, name)
    t = m[1] if m else None
    F = M.I.funcs.get(t)
    if F is None and t is not None and t.args:
        for a in t.args:
            if isinstance(a, T) and a in M.I.funcs:
                F = M.I.funcs[a]
    if F is None:
        return None
    mod = M.project.modules.get(F.module)
    return '%s:%s in %s' % (M.project.relpath(mod.path) if mod else F.module, F.node.lineno, F.qual)


def diff_shape(a, b, depth=0):
    """A short description of where two terms differ."""
    if a is b:
        return ''
    if a.op == b.op and len(a.args) == len(b.args) and depth < 12:
        ds = []
        for x, y in zip(a.args, b.args):
            if x is y or x == y:
                continue
            if isinstance(x, T) and isinstance(y, T):
                ds.append((x, y))
            elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                for p, q in zip(x, y):
                    if p is not q and p != q:
                        if isinstance(p, T) and isinstance(q, T):
                            ds.append((p, q))
                        else:
                            return '%s  vs  %s' % (show(a)[:300], show(b)[:300])
            else:
                return '%s  vs  %s' % (show(a)[:300], show(b)[:300])
        if len(ds) == 1:
            return diff_shape(ds[0][0], ds[0][1], depth + 1)
    return '%s  vs  %s' % (show(a)[:300], show(b)[:300])


def verdict(out):
    """Guard under which a validation outcome says 'valid'."""
    r = 0
    for g, l in leaves(out.value):
        v = sub(l, K(0))
        r = bor(r, band(g, truth(v)))
    return band(out.guard, r)
