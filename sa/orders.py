"""Guards that only compare bounds and constants, decided by enumerating the
orders in which these can lie."""
from fractions import Fraction
from .canon import *
from . import algebra as AL

INF = float('inf')


def lifted(t, g=1, limit=24):
    """The cases (guard, value without choices) of a value."""
    out, todo = [], [(g, t)]
    while todo:
        g, x = todo.pop()
        c = x if x.op == 'gam' else next((y for y in walk(x) if y.op == 'gam'), None)
        if c is None or len(out) + len(todo) > limit:
            out.append((g, x))
            continue
        for gi, _ in c.args[0]:
            if band(g, gi) != 0:
                todo.append((band(g, gi), deep_under(x, gi)))
    return out


def number(t):
    if isk(t) and isinstance(kval(t), (int, float)) and not isinstance(kval(t), bool) and kval(t) == kval(t):
        v = kval(t)
        return v if abs(v) == INF else Fraction(v)
    if t.op == 'app' and t.args[0] == 'neg' and len(t.args[1]) == 1:
        v = number(t.args[1][0])
        return None if v is None else -v
    if t.op == 'app' and t.args[0] in ('builtins.float',) and len(t.args[1]) == 1:
        return number(t.args[1][0])
    return None


def constants(g, bounds):
    """The numbers that a guard compares the bounds with, or None when it does
    anything else with them."""
    cs = set()
    for a in batoms(g):
        if a in bounds:
            cs.add(Fraction(0))
            continue
        if not (a.op == 'app' and a.args[0] in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and len(a.args[1]) == 2):
            return None
        for x in a.args[1]:
            if x in bounds:
                continue
            v = number(x)
            if v is None:
                return None
            if abs(v) != INF:
                cs.add(v)
    return cs


CMP = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
       'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}


def holds(g, env):
    def at(a):
        if a in env:
            return 1 if env[a] != 0 else 0
        x, y = (env[z] if z in env else number(z) for z in a.args[1])
        return 1 if CMP[a.args[0]](x, y) else 0
    return bmap(g, at) == 1


def orders(g, bounds, more=()):
    """Points {bound: number}, one in every order situation in which the
    guard holds; None when the guard is not about orders. bounds: one or two
    symbols, the first below the second."""
    cs = constants(g, bounds)
    if cs is None:
        return None
    cs = sorted(cs | set(more))
    if not cs:
        cs = [Fraction(0)]
    pts = [cs[0] - 2, cs[0] - 1]
    for a, b in zip(cs, cs[1:] + [cs[-1] + 3]):
        pts += [a, a + (b - a) / 3, a + 2 * (b - a) / 3]
    out = []
    for lo in pts:
        for hi in (pts if len(bounds) == 2 else [None]):
            if hi is not None and lo >= hi:
                continue
            env = {bounds[0]: lo} if hi is None else {bounds[0]: lo, bounds[1]: hi}
            if holds(g, env):
                out.append(env)
    return out


def at_point(l, env):
    """Value of an algebraic expression in the bounds, or None."""
    l = l.simplify()
    if l.logs:
        return None

    def val(p):
        s = Fraction(0)
        for m, c in p.items():
            x = Fraction(c)
            for i, e in m:
                o = AL.aobj(i)
                if not isinstance(o, T) or o not in env:
                    return None
                if e < 0 and env[o] == 0 or e != int(e):
                    return None
                x *= env[o] ** int(e)
            s += x
        return s
    n, d = val(l.r.n), val(l.r.d)
    return n / d if n is not None and d else None
