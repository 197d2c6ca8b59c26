"""Floating-point ranges of array expressions, part by part: intervals with
bounds relative to symbolic values, nan tracking, correct under any monotone
rounding."""
import math
from .parts import *
from .parts import Ev, V

MAX = 1.7e308
BIG = 1e300


class F:
    """lo <= value <= hi when not nan. rel: {symbol: (a, b)}, symbol + a <=
    value <= symbol + b with a, b 0 or None. expr: the exact value as an
    expression of symbols, if it is one."""
    __slots__ = ('lo', 'hi', 'nan', 'must', 'rel', 'expr', 'off')

    def __init__(self, lo, hi, nan=False, must=False, rel=None, expr=None, off=None):
        self.lo, self.hi, self.nan, self.must = lo, hi, nan, must
        self.rel, self.expr = rel or {}, expr
        self.off = off or {}       # {symbol: (a, b)}: a <= value - symbol <= b

    def single(self):
        return self.lo == self.hi and not self.nan

    def finite(self):
        return self.lo > -INF and self.hi < INF

    def show(self):
        r = ''.join(', %s%s' % ('>= %s' % k if v[0] is not None else '', ' <= %s' % k if v[1] is not None else '') for k, v in self.rel.items())
        return 'nan' if self.must else '[%g, %g]%s%s' % (self.lo, self.hi, r, ' or nan' if self.nan else '')


def const(v):
    return F(float(v), float(v))


NAN = F(-INF, INF, True, True)


def fadd(a, b):
    """Sum of two ends; None for inf - inf."""
    if abs(a) == INF and abs(b) == INF and a != b:
        return None
    return a + b


def fmul(a, b):
    if (a == 0 and abs(b) == INF) or (b == 0 and abs(a) == INF):
        return None
    return a * b


def safe(f, x):
    try:
        return f(x)
    except OverflowError:
        return INF


def widen(x, up):
    return math.nextafter(x, INF if up else -INF) if abs(x) not in (0.0, INF, 1.0) else x


class FEv(Ev):
    """Evaluates to values whose parts are F."""

    def __init__(self, leaves, n=None, choice=None, names=None, two=False):
        Ev.__init__(self, leaves, n=n, choice=choice)
        self.two = two                   # the parts are single entries
        self.names = names or {}         # symbol term -> F
        self.maxof = {}                  # symbol -> parts it bounds
        self.atts = {}                   # id(V) -> (base, F)
        self.keep = []

    # ------------------------------------------------------------ relations
    def rel(self, f, s):
        r = f.rel.get(s, (None, None))
        if s in self.maxof and any(f is p for p in self.maxof[s]):
            r = (r[0], 0)
        return r

    def rels(self, f):
        return set(f.rel) | {s for s, ps in self.maxof.items() if any(f is p for p in ps)}

    def closed(self, f):
        """Use lb < ub."""
        rel = dict(f.rel)
        if rel.get('lb', (None, None))[1] == 0:
            rel['ub'] = (rel.get('ub', (None, None))[0], 0)
        if rel.get('ub', (None, None))[0] == 0:
            rel['lb'] = (0, rel.get('lb', (None, None))[1])
        return F(f.lo, f.hi, f.nan, f.must, rel, f.expr)

    # ---------------------------------------------------------- evaluation
    def ev1(self, t):
        if t in self.names:
            return V('c', {'': self.names[t]})
        if isk(t):
            v = kval(t)
            if isinstance(v, bool) or not isinstance(v, (int, float)) or v != v:
                raise Unsupported('constant %r' % (v,))
            return V('c', {'': const(v)})
        if t.op == 'sym':
            raise Unsupported('range of %s' % show(t))
        return Ev.ev1(self, t)

    def pointwise(self, t, nm, ar, kw):
        vs = [self.ev(a) for a in ar]
        kind = self.join(vs, t)
        names = [''] if kind == 'c' else list(next(v for v in vs if v.kind == kind).parts)

        def arg(v, p):
            return v.parts[p] if v.kind == kind and p in v.parts else v.parts['' if '' in v.parts else 'r']
        parts = {p: self.apply(nm, kw, [arg(v, p) for v in vs], t) for p in names}
        r = V(kind, parts)
        if kind in ('full', 'free'):
            big = [v for v in vs if v.kind == kind]
            atts = [self.att(v) for v in big]
            if len({b for b, _ in atts}) == 1:
                it = iter(atts)
                ops = [next(it)[1] if v.kind == kind else v.parts['' if '' in v.parts else 'r'] for v in vs]
                self.atts[id(r)] = (atts[0][0], self.apply(nm, kw, ops, t))
                self.keep.append(r)
            else:
                self.atts[id(r)] = (id(r), F(-INF, INF, True))
                self.keep.append(r)
        return r

    def att(self, v):
        """(base, value at the entry where the base is largest)."""
        r = self.atts.get(id(v))
        if r is None:
            s = '@max%d' % len(self.maxof)
            ps = list(v.parts.values())
            self.maxof[s] = ps
            f = F(max(p.lo for p in ps), max(p.hi for p in ps), any(p.nan for p in ps), False, {s: (0, 0)})
            r = self.atts[id(v)] = (id(v), f)
            self.keep.append(v)
        return r

    # ------------------------------------------------------------ operators
    def apply(self, nm, kw, a, t):
        if any(x.must for x in a):
            return NAN
        nan = any(x.nan for x in a)
        f = getattr(self, 'o_' + nm.replace('.', '_'), None)
        if f is None:
            raise Unsupported('range of %s' % nm)
        r = f(*a)
        return F(r.lo, r.hi, r.nan or nan, r.must, r.rel, r.expr, r.off)

    def o_neg(self, a):
        return F(-a.hi, -a.lo, expr=None)

    def o_add(self, a, b):
        lo, hi = fadd(a.lo, b.lo), fadd(a.hi, b.hi)
        bad = a.lo == -INF and b.hi == INF or a.hi == INF and b.lo == -INF
        if a.single() and b.single() and lo is None:
            return NAN
        rel = {}
        for x, y in ((a, b), (b, a)):
            for s in self.rels(x):
                l, h = self.rel(x, s)
                l2 = 0 if l == 0 and y.lo >= 0 else None
                h2 = 0 if h == 0 and y.hi <= 0 else None
                o = rel.get(s, (None, None))
                if l2 is not None or h2 is not None:
                    rel[s] = (l2 if l2 is not None else o[0], h2 if h2 is not None else o[1])
        e = None
        if a.expr and b.single() and b.lo == 0:
            e = a.expr
        elif b.expr and a.single() and a.lo == 0:
            e = b.expr
        elif a.expr and b.expr:
            e = ('add',) + tuple(sorted((a.expr, b.expr), key=str))
        off = {}
        for x, y in ((a, b), (b, a)):
            for s in self.rels(x):
                # |fl(s + y) - (s + y)| <= |y|, as s is a number
                if self.rel(x, s) == (0, 0) and x.finite() and y.finite():
                    off[s] = (min(2 * y.lo, 0.0), max(2 * y.hi, 0.0))
        return F(-INF if lo is None else lo, INF if hi is None else hi, bad, False, rel, e, off)

    def o_sub(self, a, b):
        if {a.expr, b.expr} == {'ub', 'lb'}:
            return self.names['w'] if a.expr == 'ub' else self.o_neg(self.names['w'])
        lo, hi = fadd(a.lo, -b.hi), fadd(a.hi, -b.lo)
        bad = a.lo == -INF and b.lo == -INF or a.hi == INF and b.hi == INF
        if a.single() and b.single() and lo is None:
            return NAN
        lo, hi = -INF if lo is None else lo, INF if hi is None else hi
        for s in self.rels(a) & self.rels(b):
            (al, ah), (bl, bh) = self.rel(a, s), self.rel(b, s)
            if ah == 0 and bl == 0:
                hi = min(hi, 0.0)
            if al == 0 and bh == 0:
                lo = max(lo, 0.0)
        for s in self.rels(a) & set(b.off):
            if self.rel(a, s)[0] == 0:
                lo = max(lo, -b.off[s][1])
            if self.rel(a, s)[1] == 0:
                hi = min(hi, -b.off[s][0])
        for s in self.rels(b) & set(a.off):
            if self.rel(b, s)[1] == 0:
                lo = max(lo, a.off[s][0])
            if self.rel(b, s)[0] == 0:
                hi = min(hi, a.off[s][1])
        rel = {}
        for s in self.rels(a):
            l, h = self.rel(a, s)
            if l == 0 and b.hi <= 0 or h == 0 and b.lo >= 0:
                rel[s] = (0 if l == 0 and b.hi <= 0 else None, 0 if h == 0 and b.lo >= 0 else None)
        e = None
        if a.expr and b.single() and b.lo == 0:
            e = a.expr
        elif a.expr and b.expr:
            e = ('sub', a.expr, b.expr)
        return F(lo, hi, bad, False, rel, e)

    def o_mul(self, a, b):
        if b.single() and not a.single():
            a, b = b, a
        if a.single() and a.lo == 1:
            return b
        if a.single() and a.lo == -1:
            return self.o_neg(b)
        ends = [fmul(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
        zero = lambda x: x.lo <= 0 <= x.hi
        inf = lambda x: x.lo == -INF or x.hi == INF
        bad = zero(a) and inf(b) or zero(b) and inf(a)
        if a.single() and b.single() and ends[0] is None:
            return NAN
        if (a.single() and a.lo == 0 and not inf(b)) or (b.single() and b.lo == 0 and not inf(a)):
            return const(0)
        fin = [e for e in ends if e is not None]
        lo = min(fin + [0.0]) if bad or zero(a) or zero(b) else min(fin)
        hi = max(fin + [0.0]) if bad or zero(a) or zero(b) else max(fin)
        rel = {}
        for x, y in ((a, b), (b, a)):
            if x.lo >= 0 and x.hi <= 1 and y.lo >= 0:
                for s in self.rels(y):
                    if self.rel(y, s)[1] == 0:
                        rel[s] = (None, 0)
            if x.lo >= 1 and y.lo >= 0:
                for s in self.rels(y):
                    if self.rel(y, s)[0] == 0:
                        rel[s] = (0, rel.get(s, (None, None))[1])
        return F(lo, hi, bad, False, rel)

    def o_div(self, a, b):
        inf = lambda x: x.lo == -INF or x.hi == INF
        if a.single() and b.single():
            if abs(a.lo) == INF and abs(b.lo) == INF or a.lo == 0 and b.lo == 0:
                return NAN
            if abs(b.lo) == INF:
                return const(0)
            if b.lo == 0:
                return F(-INF, INF)
            return const(a.lo / b.lo)
        if b.lo <= 0 <= b.hi and not (b.lo >= 0):
            return F(-INF, INF, True)
        if b.hi < 0:
            return self.o_neg(self.o_div(a, self.o_neg(b)))
        # b >= 0
        bad = inf(a) and b.hi == INF or b.lo == 0 and a.lo <= 0 <= a.hi
        q = lambda x, y: 0.0 if abs(y) == INF else (INF if x > 0 else -INF if x < 0 else 0.0) if y == 0 else x / y
        ends = [q(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi) if not (abs(x) == INF and abs(y) == INF)] + \
            ([0.0, INF if a.hi == INF else -INF] if inf(a) and b.hi == INF else [])
        rel = {}
        if b.lo >= 1 and a.lo >= 0:
            for s in self.rels(a):
                if self.rel(a, s)[1] == 0:
                    rel[s] = (None, 0)
        if b.single() and b.lo == 1:
            return a
        lo, hi = min(ends), max(ends)
        # numerator below denominator
        for s in self.rels(a) & self.rels(b):
            if self.rel(a, s)[1] == 0 and self.rel(b, s)[0] == 0 and a.lo >= 0:
                hi = min(hi, 1.0)
        return F(lo, hi, bad, False, rel)

    def o_np_exp(self, a):
        f = lambda x: 0.0 if x == -INF or x < -746 else INF if x > 710 else safe(math.exp, x)
        return F(f(a.lo) if a.lo in (0.0, -INF) else max(0.0, widen(f(a.lo), False)), f(a.hi) if a.hi in (0.0, INF) else widen(f(a.hi), True))

    def o_np_expm1(self, a):
        e = self.o_np_exp(a)
        return F(e.lo - 1, e.hi - 1)

    def o_np_log(self, a):
        if a.hi < 0:
            return NAN
        f = lambda x: -INF if x <= 0 else INF if x == INF else math.log(x)
        lo, hi = f(a.lo), f(a.hi)
        return F(lo if lo in (0.0, -INF, INF) else widen(lo, False), hi if hi in (0.0, -INF, INF) else widen(hi, True), a.lo < 0)

    def o_np_log1p(self, a):
        if a.hi < -1:
            return NAN
        f = lambda x: -INF if x <= -1 else INF if x == INF else math.log1p(x)
        lo, hi = f(a.lo), f(a.hi)
        return F(lo if lo in (0.0, -INF) else widen(lo, False), hi if hi in (0.0, INF) else widen(hi, True), a.lo < -1)

    def o_np_logaddexp(self, a, b):
        def f(x, y):
            m, d = max(x, y), abs(x - y) if abs(x) != INF and abs(y) != INF else INF
            return m if d > 746 else m + math.log1p(math.exp(-d))
        lo, hi = f(a.lo, b.lo), f(a.hi, b.hi)
        return F(lo if lo in (0.0, INF, -INF) else widen(lo, False), hi if hi in (0.0, INF, -INF) else widen(hi, True))

    def o_np_abs(self, a):
        lo = 0.0 if a.lo <= 0 <= a.hi else min(abs(a.lo), abs(a.hi))
        return F(lo, max(abs(a.lo), abs(a.hi)))

    o_np_absolute = o_np_fabs = o_np_abs

    def o_scipy_special_expit(self, a):
        f = lambda x: 0.0 if x < -746 else 1.0 if x > 40 else 1 / (1 + math.exp(-x)) if x > -700 else 0.0
        return F(max(0.0, widen(f(a.lo), False)) if f(a.lo) else 0.0, min(1.0, widen(f(a.hi), True)))

    def o_np_tanh(self, a):
        return F(-1.0 if a.lo < -20 else widen(math.tanh(a.lo), False), 1.0 if a.hi > 20 else widen(math.tanh(a.hi), True))

    def o_np_square(self, a):
        m = self.o_np_abs(a)
        return F(fmul(m.lo, m.lo), fmul(m.hi, m.hi))

    def o_pow(self, a, b):
        if b.single() and b.lo == 2:
            return self.o_np_square(a)
        if b.single() and b.lo == -1:
            return self.o_div(const(1), a)
        raise Unsupported('power')

    def o_np_sqrt(self, a):
        if a.hi < 0:
            return NAN
        f = lambda x: 0.0 if x <= 0 else INF if x == INF else math.sqrt(x)
        return F(f(a.lo), f(a.hi), a.lo < 0)

    def o_np_maximum(self, a, b):
        a, b = self.closed(a), self.closed(b)
        rel = {}
        for s in set(a.rel) | set(b.rel):
            (al, ah), (bl, bh) = a.rel.get(s, (None, None)), b.rel.get(s, (None, None))
            rel[s] = (0 if 0 in (al, bl) else None, 0 if ah == 0 and bh == 0 else None)
        return F(max(a.lo, b.lo), max(a.hi, b.hi), False, False, rel,
                 a.expr if a.expr and a.expr == b.expr else self.kept(a, b, 'lb', ('add', 'lb', 'w')))

    def o_np_minimum(self, a, b):
        a, b = self.closed(a), self.closed(b)
        rel = {}
        for s in set(a.rel) | set(b.rel):
            (al, ah), (bl, bh) = a.rel.get(s, (None, None)), b.rel.get(s, (None, None))
            rel[s] = (0 if al == 0 and bl == 0 else None, 0 if 0 in (ah, bh) else None)
        return F(min(a.lo, b.lo), min(a.hi, b.hi), False, False, rel,
                 a.expr if a.expr and a.expr == b.expr else self.kept(a, b, 'ub', ('sub', 'ub', 'w')))

    def kept(self, a, b, end, e):
        """max(lb, lb + w), min(ub, ub - w)"""
        return e if {a.expr, b.expr} == {end, e} else None

    o_np_fmax, o_np_fmin = o_np_maximum, o_np_minimum

    def f_np_maximum(self, t, ar, kw):
        return None

    f_np_minimum = f_np_fmax = f_np_fmin = f_np_maximum

    def clip(self, t, v, lo, hi):
        parts = {}
        for p, f in v.parts.items():
            if f.must:
                parts[p] = f
                continue
            r = f
            for b, op in ((lo, self.o_np_maximum), (hi, self.o_np_minimum)):
                if b is None or b is NONE:
                    continue
                x = self.ev(b)
                if x.kind != 'c':
                    raise Unsupported('array bound')
                r = op(r, x.parts[''])
            parts[p] = F(r.lo, r.hi, f.nan, False, r.rel, r.expr)
        return V(v.kind, parts, v.flat)

    def f_np_where(self, t, ar, kw):
        if len(ar) != 3 or kw:
            raise Unsupported('where')
        out = []
        for branch, on in ((ar[1], True), (ar[2], False)):
            sub_ = self.refined(ar[0], on)
            if sub_ is None:
                continue
            out.append(sub_.ev(branch))
        if not out:
            raise Unsupported('where')
        if len(out) == 1:
            return out[0]
        a, b = out
        kind = self.join([a, b], t)
        if kind == 'c' or a.kind == b.kind:
            ps = a.parts if kind == 'c' else a.parts
            return V(a.kind, {p: hull(self.closed(a.parts[p]), self.closed(b.parts[p])) for p in ps})
        c, e = (a, b) if a.kind == 'c' else (b, a)
        return V(e.kind, {p: hull(self.closed(c.parts['']), self.closed(e.parts[p])) for p in e.parts})

    def refined(self, cond, on):
        """A copy of the evaluator in which the input satisfies (or not) a
        comparison with a constant; None when it cannot."""
        leaves = dict(self.leaves)
        c = cond
        while c.op == 'app' and c.args[0] in ('not', 'np.logical_not'):
            c, on = c.args[1][0], not on
        if c.op == 'app' and c.args[0] in ('lt', 'le', 'gt', 'ge') and len(c.args[1]) == 2:
            x, y = c.args[1]
            op = c.args[0]
            flip = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}
            neg = {'lt': 'ge', 'gt': 'le', 'le': 'gt', 'ge': 'lt'}
            if isk(x):
                x, y, op = y, x, flip[op]
            while x.op == 'app' and x.args[0] in COPY | FLATTEN | {'np.reshape'} and x.args[1]:
                x = x.args[1][0]
            if isk(y) and x in leaves and leaves[x].kind == 'e' and not isinstance(kval(y), bool):
                k = float(kval(y))
                f = leaves[x].parts['']
                op = op if on else neg[op]
                lo, hi = (max(f.lo, k), f.hi) if op in ('gt', 'ge') else (f.lo, min(f.hi, k))
                if lo > hi or op in ('gt', 'lt') and lo == hi == k:
                    return None
                leaves[x] = V('e', {'': F(lo, hi, f.nan, False, f.rel)})
        r = FEv(leaves, n=self.n, names=self.names, two=self.two)
        r.rowshapes = self.rowshapes
        return r

    # ------------------------------------------------------------ reductions
    def f_np_max(self, t, ar, kw):
        v, kind = self.reduce(t, ar, kw)
        b, f = self.att(v)
        if b == id(v):
            return V(kind, {'r': f})
        ps = list(v.parts.values())
        if any(p.must for p in ps):
            return V(kind, {'r': NAN})
        return V(kind, {'r': F(max(p.lo for p in ps), max(p.hi for p in ps), any(p.nan for p in ps))})

    f_np_amax = f_np_max

    def f_np_min(self, t, ar, kw):
        v, kind = self.reduce(t, ar, kw)
        ps = list(v.parts.values())
        return V(kind, {'r': F(min(p.lo for p in ps), min(p.hi for p in ps), any(p.nan for p in ps))})

    def total(self, v):
        ps = list(v.parts.values())
        if any(p.must for p in ps):
            return NAN
        nan = any(p.nan for p in ps)
        b, a = self.att(v)
        lo = hi = 0.0
        for p in ps:
            if self.two:
                lo, hi = fadd(lo, p.lo), fadd(hi, p.hi)
                if lo is None or hi is None:
                    return F(-INF, INF, True)
                continue
            lo = fadd(lo, p.lo if p.lo >= 0 else -INF if p.lo < -1e290 else p.lo * 1e9)
            hi = fadd(hi, p.hi if p.hi <= 0 else INF if p.hi > 1e290 else p.hi * 1e9)
            if lo is None or hi is None:
                return F(-INF, INF, True)
        if all(p.lo >= 0 for p in ps) and not a.nan:
            lo = max(lo, a.lo)
        rel = {}
        if all(p.lo >= 0 for p in ps):
            # every entry is at most the sum
            s = '@sum%d' % len(self.maxof)
            self.maxof[s] = ps
            rel[s] = (0, 0)
        inf = any(p.hi == INF for p in ps) and any(p.lo == -INF for p in ps)
        return F(lo, hi, nan or inf, False, rel)

    def f_np_sum(self, t, ar, kw):
        v, kind = self.reduce(t, ar, kw)
        return V(kind, {'r': self.total(v)})

    def f_np_mean(self, t, ar, kw):
        v, kind = self.reduce(t, ar, kw)
        ps = list(v.parts.values())
        if self.two and all(abs(p.lo) < 1e290 and abs(p.hi) < 1e290 for p in ps):
            k = 1.0 / len(ps)
            return V(kind, {'r': F(sum(p.lo for p in ps) * k, sum(p.hi for p in ps) * k, any(p.nan for p in ps))})
        return V(kind, {'r': F(min(p.lo for p in ps), max(p.hi for p in ps), any(p.nan for p in ps))})

    def f_scipy_special_logsumexp(self, t, ar, kw):
        v, kind = self.reduce(t, ar, kw)
        b, m = self.att(v)
        return V(kind, {'r': F(m.lo, fadd(m.hi, 25.0), m.nan, False, {s: (0, None) for s in m.rel},
                                off={s: (0.0, 50.0) for s in m.rel if m.rel[s] == (0, 0) and m.finite()})})

    def f_scipy_special_softmax(self, t, ar, kw):
        v, kind = self.reduce(t, ar, kw)
        return V(v.kind, {p: F(0.0, 1.0, x.nan) for p, x in v.parts.items()})

    # ---------------------------------------------------------- constants
    def filledwith(self, shp, val):
        v = self.ev(val) if isinstance(val, T) else V('c', {'': const(val)})
        if v.kind != 'c':
            raise Unsupported('full')
        x = v.parts['']
        e = self.shape_end(shp) if shp.op == 'tuple' else None
        if e in ('n', 'free', '1'):
            return V({'n': 'full', 'free': 'free', '1': 'col'}[e], {p: F(x.lo, x.hi, x.nan, x.must, x.rel, x.expr) for p in
                                                                    {'n': '0+', 'free': '+', '1': 'r'}[e]})
        if self.n is not None:
            if self.rowshape(shp):
                return V('row', {'r': x})
            raise Unsupported('full of shape %s' % show(shp)[:60])
        return v

    def like(self, v, x):
        return V(v.kind, {p: F(x.lo, x.hi, x.nan, x.must, x.rel, x.expr) for p in v.parts})

    def f_np_full_like(self, t, ar, kw):
        c = self.ev(ar[1])
        if c.kind != 'c':
            raise Unsupported('full_like')
        return self.like(self.ev(ar[0]), c.parts[''])

    def f_np_zeros_like(self, t, ar, kw):
        return self.like(self.ev(ar[0]), const(0))

    def f_np_ones_like(self, t, ar, kw):
        return self.like(self.ev(ar[0]), const(1))

    def f_matmul(self, t, ar, kw):
        raise Unsupported('product')

    f_np_dot = f_matmul
    f_np_linalg_cholesky = f_np_eye = f_np_identity = f_np_make_diagonal = f_matmul

    def pick(self, v, x, i):
        if v.kind == 'free' and x.op == 'slice':
            raise Unsupported('index')
        return Ev.pick(self, v, x, i)


def hull(a, b):
    rel = {}
    for s in set(a.rel) & set(b.rel):
        rel[s] = tuple(0 if x == 0 and y == 0 else None for x, y in zip(a.rel[s], b.rel[s]))
    if a.must and b.must:
        return NAN
    if a.must or b.must:
        o = b if a.must else a
        return F(o.lo, o.hi, True, False, o.rel)
    return F(min(a.lo, b.lo), max(a.hi, b.hi), a.nan or b.nan, False, rel)


def cells():
    return [(-MAX, -800.0), (-800.0, -700.0), (-700.0, -30.0), (-30.0, 0.0), (0.0, 30.0), (30.0, 700.0), (700.0, 800.0), (800.0, MAX)]
