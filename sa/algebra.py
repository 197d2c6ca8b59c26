"""Exact algebra over terms: polynomials, rational functions, and rational
functions of exponentials plus integer combinations of logarithms, all with
decidable equality."""
import itertools
import math
from fractions import Fraction
from .terms import *
from .ops import *


class Unsupported(Exception):
    pass


_ids, _objs = {}, []


def aid(a):
    r = _ids.get(a)
    if r is None:
        r = _ids[a] = len(_objs)
        _objs.append(a)
    return r


def aobj(i):
    return _objs[i]


# polynomials: {((atom, power), ...): Fraction}
def pconst(c):
    c = Fraction(c)
    return {(): c} if c else {}


def patom(a):
    return {((aid(a), 1),): Fraction(1)}


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e))


def pmul(p, q):
    if len(p) * len(q) > 20000:
        raise Unsupported('polynomial too large')
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def ppow(p, n):
    r = pconst(1)
    for _ in range(n):
        r = pmul(r, p)
    return r


def patoms(p):
    return {a for m in p for a, _ in m}


def pdiff(p, i):
    """Partial derivative by atom id i (other atoms constant)."""
    r = {}
    for m, c in p.items():
        d = dict(m)
        e = d.get(i, 0)
        if e:
            d[i] = e - 1
            k = tuple(sorted((a, x) for a, x in d.items() if x))
            r[k] = r.get(k, 0) + c * e
    return {k: v for k, v in r.items() if v}


def pshow(p):
    if not p:
        return '0'

    def at(a):
        o = aobj(a)
        if isinstance(o, T):
            return show(o)[:60]
        return '%s(%s)' % (o[0], ', '.join(show(x)[:40] if isinstance(x, T) else pshow(dict(x)) if isinstance(
            x, tuple) else str(x) for x in o[1:]))
    def ex(a, e):
        o = aobj(a)
        if isinstance(o, tuple) and o[0] == 'exp':
            return 'exp(%s)' % pshow({m: c * e for m, c in o[1]})
        return at(a) + ('^%d' % e if e != 1 else '')
    out = []
    for m, c in sorted(p.items(), key=lambda t: str(t[0]))[:12]:
        s = '*'.join(ex(a, e) for a, e in m)
        out.append(('%s*%s' % (c, s) if c != 1 else s) if s else str(c))
    return ' + '.join(out) + (' + ...' if len(p) > 12 else '')


class Rat:
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        d = pconst(1) if d is None else d
        if not d:
            raise Unsupported('division by zero')
        # cancel common monomial content
        if not n:
            d = pconst(1)
        else:
            ms = list(n) + list(d)
            common = None
            for m in ms:
                dm = dict(m)
                common = dm if common is None else {a: min(e, dm[a]) for a, e in common.items() if a in dm}
                if not common:
                    break
            if common:
                inv = tuple((a, -e) for a, e in common.items())
                n = {mmul(m, inv): c for m, c in n.items()}
                d = {mmul(m, inv): c for m, c in d.items()}
            lead = d[min(d)]
            if lead != 1:
                n = {m: c / lead for m, c in n.items()}
                d = {m: c / lead for m, c in d.items()}
            if n == d:
                n, d = pconst(1), pconst(1)
            elif len(n) == len(d) and len(n) > 1 and set(n) == set(d):
                k = next(iter(n))
                f = n[k] / d[k]
                if all(n[m] == f * d[m] for m in n):
                    n, d = pconst(f), pconst(1)
        self.n, self.d = n, d

    def __add__(self, o):
        if self.d == o.d:
            return Rat(padd(self.n, o.n), self.d)
        return Rat(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    def __neg__(self):
        return Rat({m: -c for m, c in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return Rat(pmul(self.n, o.n), pmul(self.d, o.d))

    def inv(self):
        return Rat(self.d, self.n)

    def __truediv__(self, o):
        return self * o.inv()

    def pow(self, k):
        if k >= 0:
            return Rat(ppow(self.n, k), ppow(self.d, k))
        return self.inv().pow(-k)

    def eq(self, o):
        return not padd(pmul(self.n, o.d), pmul(o.n, self.d), -1)

    def is_const(self):
        if self.n == {} :
            return True
        return set(self.n) <= {()} and set(self.d) <= {()}

    def const(self):
        return self.n.get((), Fraction(0)) / self.d[()]

    def key(self):
        return (tuple(sorted(self.n.items())), tuple(sorted(self.d.items())))

    def show(self):
        s = pshow(self.n)
        return s if self.d == pconst(1) else '(%s) / (%s)' % (s, pshow(self.d))


def rc(c):
    return Rat(pconst(c))


def root(R, k):
    """k-th root of a positive monomial with exponents divisible by k."""
    out = []
    for p in (R.n, R.d):
        if len(p) != 1:
            raise Unsupported('fractional power')
        (m, c), = p.items()
        if c != 1 or any(e % k for _, e in m):
            raise Unsupported('fractional power')
        out.append({tuple((a, e // k) for a, e in m): Fraction(1)})
    return Rat(*out)


def ra(a):
    return Rat(patom(a))


def apow(a, k):
    if not k:
        return rc(1)
    p = {((aid(a), abs(k)),): Fraction(1)}
    return Rat(p) if k > 0 else Rat(pconst(1), p)


class LL:
    """r + sum of q*log(R)."""

    def __init__(self, r, logs=None, exact=True):
        self.r, self.logs, self.exact = r, logs or [], exact

    def __add__(self, o):
        return LL(self.r + o.r, self.logs + o.logs, self.exact and o.exact)

    def scale(self, c):
        return LL(self.r * rc(c), [(q * c, R) for q, R in self.logs if q * c], self.exact)

    def __sub__(self, o):
        return self + o.scale(Fraction(-1))

    def rat(self):
        """As a rational function; logs become opaque atoms."""
        l = self.simplify()
        if not l.logs:
            return l.r, l.exact
        r = l.r
        for q, R in l.logs:
            r = r + rc(q) * ra(('log',) + R.key())
        return r, False

    def simplify(self):
        r, logs = self.r, {}
        for q, R in self.logs:
            # log of a monomial splits
            if len(R.n) == 1 and len(R.d) == 1:
                (m, c), = R.n.items()
                (m2, c2), = R.d.items()
                exps = mmul(m, tuple((a, -e) for a, e in m2))
                cc = c / c2
                if cc > 0 and all(isinstance(aobj(a), tuple) and aobj(a)[0] == 'exp' for a, _ in exps) and cc == 1:
                    for a, e in exps:
                        r = r + rc(q * e) * Rat(dict(aobj(a)[1]))
                    continue
            k = R.key()
            q0, _ = logs.get(k, (Fraction(0), R))
            logs[k] = (q0 + q, R)
        return LL(r, [(q, R) for q, R in logs.values() if q], self.exact)

    def exp(self):
        l = self.simplify()
        out = rc(1)
        for q, R in l.logs:
            if q.denominator != 1:
                R = root(R, q.denominator)
                q = Fraction(q.numerator)
            out = out * R.pow(int(q))
        if l.r.d != pconst(1):
            k = l.r.key()
            return LL(out * ra(('expr',) + k), [], False)
        ex = l.exact
        for m, c in l.r.n.items():
            # exp(c m) as a power of exp(m / 12)
            if (c * 12).denominator != 1 or abs(c) > 64:
                out, ex = out * ra(('exp', ((m, c),))), False
                continue
            out = out * apow(('exp', ((m, Fraction(1, 12)),)), int(c * 12))
        return LL(out, [], ex)

    def log(self):
        r, ex = self.rat()
        return LL(rc(0), [(Fraction(1), r)], ex).simplify()

    def mul(self, o):
        for a, b in ((self, o), (o, self)):
            l = b.simplify()
            if not l.logs and l.r.is_const():
                return a.scale(l.r.const())
        r1, e1 = self.rat()
        r2, e2 = o.rat()
        return LL(r1 * r2, [], e1 and e2)

    def inv(self):
        r, e = self.rat()
        return LL(r.inv(), [], e)

    def equal(self, o, up_to_sign=False):
        """True, False, or None when equality is not decided."""
        d = (self - o).simplify()
        if not d.logs:
            if not d.r.n:
                return True
            return False if d.exact else None
        # N*(difference) exponentiated is 1
        n = 1
        for q, _ in d.logs:
            n = n * q.denominator // __import__('math').gcd(n, q.denominator)
        e = d.scale(Fraction(n)).exp()
        if e.r.eq(rc(1)) or (up_to_sign and e.r.eq(rc(-1))):
            return True
        return False if e.exact and d.exact else None

    def diff(self, x):
        """d/dx for atom x (a term)."""
        i = aid(x)
        l = self.simplify()
        r = rdiff(l.r, i)
        for q, R in l.logs:
            r = r + rc(q) * rdiff(R, i) / R
        return LL(r, [], l.exact)

    def show(self):
        s = self.simplify()
        return self_show(s)


def self_show(s):
    parts = [s.r.show()] if s.r.n or not s.logs else []
    parts += ['%s*log(%s)' % (q, R.show()) for q, R in s.logs]
    return ' + '.join(parts)


def pdiff_total(p, i):
    r = rc(0)
    for a in patoms(p):
        dp = pdiff(p, a)
        o = aobj(a)
        if a == i:
            da = rc(1)
        elif isinstance(o, tuple) and o[0] == 'exp':
            inner = pdiff_total(dict(o[1]), i)
            da = inner * ra(o)
        elif isinstance(o, tuple):
            if i in deps(o):
                raise Unsupported('derivative of %s' % (o[0],))
            continue
        else:
            continue
        r = r + Rat(dp) * da
    return r


def deps(o):
    out = set()
    for part in o[1:]:
        for m in dict(part) if isinstance(part, tuple) else ():
            for a, _ in m:
                out.add(a)
                if isinstance(aobj(a), tuple):
                    out |= deps(aobj(a))
    return out


def rdiff(R, i):
    n, d = R.n, R.d
    dn, dd = pdiff_total(n, i), pdiff_total(d, i)
    return (dn * Rat(d) - Rat(n) * dd) / Rat(pmul(d, d))


def num(c):
    return LL(rc(Fraction(c)))


# ------------------------------------------------------------------ terms
def poly(t):
    """Polynomial of an index expression; everything else is an atom."""
    if isk(t) and isinstance(kval(t), (int, float)) and not isinstance(kval(t), bool):
        return pconst(Fraction(kval(t)))
    if t.op == 'app' and not t.args[2]:
        nm, ar = t.args[0], t.args[1]
        if nm == 'add':
            r = {}
            for a in ar:
                r = padd(r, poly(a))
            return r
        if nm == 'sub' and len(ar) == 2:
            return padd(poly(ar[0]), poly(ar[1]), -1)
        if nm == 'mul':
            r = pconst(1)
            for a in ar:
                r = pmul(r, poly(a))
            return r
        if nm == 'neg':
            return padd({}, poly(ar[0]), -1)
        if nm == 'pow' and isk(ar[1]) and isinstance(kval(ar[1]), int) and 0 <= kval(ar[1]) < 6:
            return ppow(poly(ar[0]), kval(ar[1]))
        if nm in ('div', 'floordiv') and len(ar) == 2 and isk(ar[1]) and type(kval(ar[1])) in (int, float) and kval(ar[1]) != 0:
            r = {m: v / Fraction(kval(ar[1])) for m, v in poly(ar[0]).items()}
            if nm == 'div' or whole_valued(r):
                return r
        if nm in ('builtins.int', 'builtins.round', 'np.round', 'np.rint', 'np.floor', 'np.ceil', 'math.floor', 'math.ceil', 'np.int64') and len(ar) == 1:
            r = poly(ar[0])
            if whole_valued(r):
                return r
        if nm in ('len', 'np.size') and len(ar) == 1 and ar[0].op == 'sub' and ar[0].args[0].op == 'app' and isk(ar[0].args[1]) and \
                ar[0].args[0].args[0] in ('np.tril_indices', 'np.triu_indices') and len(ar[0].args[0].args[1]) == 1 and not ar[0].args[0].args[2]:
            r = poly(ar[0].args[0].args[1][0])
            return {m: v / 2 for m, v in padd(pmul(r, r), r).items()}
        if nm in ('builtins.sum', 'np.sum') and len(ar) == 1 and ar[0].op == 'app' and ar[0].args[0] in ('range', 'np.arange') and not ar[0].args[2] \
                and 1 <= len(ar[0].args[1]) <= 2 and all(intlike(y) for y in ar[0].args[1]):
            ends = [pconst(0)] * (2 - len(ar[0].args[1])) + [poly(y) for y in ar[0].args[1]]
            return padd(*(power_sums(patom('j'), aid('j'), y) for y in ends[::-1]), -1)
        if nm in ('np.prod',) and len(ar) == 1:
            # product over a tuple with known trailing entries
            s = ar[0]
            if s.op == 'tuple':
                r = pconst(1)
                for k, v in s.args[0]:
                    r = pmul(r, poly(v) if k == 'e' else patom(mk('app', 'np.prod', (v,), ())))
                return r
    if t.op in ('sum', 'psum') and t.args[0].op == 'dom' and t.args[0].args[0].op == 'app' and t.args[0].args[0].args[0] == 'range' and \
            len(t.args[0].args[0].args[1]) == 1:
        r = power_sums(poly(t.args[2]), aid(t.args[1]), poly(t.args[3] if t.op == 'psum' else t.args[0].args[0].args[1][0]))
        if r is not None:
            return r
    return patom(t)


def power_sums(p, j, n):
    """The sum of p over j = 0 .. n - 1."""
    if any(isinstance(aobj(i), T) and i != j and contains(aobj(i), aobj(j)) for i in patoms(p)):
        return None
    F = Fraction
    sums = [{1: F(1)}, {1: F(-1, 2), 2: F(1, 2)}, {1: F(1, 6), 2: F(-1, 2), 3: F(1, 3)}, {2: F(1, 4), 3: F(-1, 2), 4: F(1, 4)}]
    r = {}
    for m, c in p.items():
        e = dict(m).get(j, 0)
        if e != int(e) or not 0 <= e < 4:
            return None
        rest = {tuple((i, k) for i, k in m if i != j): c}
        for k, v in sums[int(e)].items():
            r = padd(r, pmul(rest, {x: v * y for x, y in ppow(n, k).items()}))
    return r


def whole_valued(p):
    """Is the polynomial a whole number for all whole numbers?"""
    ids = sorted(patoms(p))
    if not all(isinstance(aobj(i), T) and intlike(aobj(i)) for i in ids) or any(k != int(k) or k < 0 for m in p for _, k in m):
        return False
    d = 1
    for v in p.values():
        d = math.lcm(d, v.denominator)
    if d > 64 or d ** len(ids) > 4096:
        return False
    for env in itertools.product(range(d), repeat=len(ids)):
        at = dict(zip(ids, env))
        x = sum(v * math.prod(at[i] ** int(k) for i, k in m) for m, v in p.items())
        if x.denominator != 1:
            return False
    return True


def poly_eq(a, b):
    return a is b or poly(a) == poly(b)


def elementwise(t, leaf, notes=None):
    """LL of an elementwise expression; ``leaf(t)`` gives the LL of an input
    or None."""
    r = leaf(t)
    if r is not None:
        return r
    if isk(t):
        v = kval(t)
        if isinstance(v, bool) or not isinstance(v, (int, float)) or v != v or v in (float('inf'), -float('inf')):
            raise Unsupported('constant %r' % (v,))
        return num(v)
    if t.op == 'app':
        nm, ar, kw = t.args
        kw = dict(kw)
        ev = lambda x: elementwise(x, leaf, notes)
        if nm == 'add' and len(ar) == 2:
            return ev(ar[0]) + ev(ar[1])
        if nm == 'sub' and len(ar) == 2:
            return ev(ar[0]) - ev(ar[1])
        if nm == 'mul' and len(ar) == 2:
            return ev(ar[0]).mul(ev(ar[1]))
        if nm == 'div' and len(ar) == 2:
            return ev(ar[0]).mul(ev(ar[1]).inv())
        if nm == 'neg':
            return ev(ar[0]).scale(Fraction(-1))
        if nm == 'pow' and isk(ar[1]) and isinstance(kval(ar[1]), int) and abs(kval(ar[1])) < 8:
            x = ev(ar[0])
            k = kval(ar[1])
            if k < 0:
                x, k = x.inv(), -k
            r = num(1)
            for _ in range(k):
                r = r.mul(x)
            return r
        if nm == 'np.sqrt' and not kw and len(ar) == 1:
            return ev(ar[0]).log().scale(Fraction(1, 2)).exp()
        if nm == 'np.square':
            x = ev(ar[0])
            return x.mul(x)
        if nm == 'np.exp' and not kw:
            return ev(ar[0]).exp()
        if nm == 'np.expm1' and not kw:
            return ev(ar[0]).exp() + num(-1)
        if nm == 'np.log' and not kw:
            return ev(ar[0]).log()
        if nm == 'np.log1p' and not kw:
            return (ev(ar[0]) + num(1)).log()
        if nm == 'np.logaddexp' and len(ar) == 2:
            return (ev(ar[0]).exp() + ev(ar[1]).exp()).log()
        if nm in ('scipy.special.expit', 'scipy.special.logit') and len(ar) == 1:
            x = ev(ar[0])
            if nm.endswith('expit'):
                e = x.exp()
                return e.mul((e + num(1)).inv())
            return x.log() - (num(1) - x).log()
        if nm == 'np.log' or nm == 'np.exp':
            raise Unsupported(nm)
        if nm in ('np.ones_like', 'np.zeros_like'):
            return num(1 if nm.endswith('ones_like') else 0)
        if nm in ('np.reciprocal',):
            return ev(ar[0]).inv()
        if nm in ('np.atleast_1d', 'np.array', 'np.asarray', 'copy', 'np.reshape', 'np.flatten', 'np.ravel',
                  'builtins.float'):
            if notes is not None and (nm, kw) and kw:
                notes.append(nm)
            return ev(ar[0])
        if nm == 'np.tanh' and len(ar) == 1:
            e = ev(ar[0]).scale(Fraction(2)).exp()
            return (e + num(-1)).mul((e + num(1)).inv())
    raise Unsupported(show(t)[:120])
