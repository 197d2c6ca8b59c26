"""Non-commutative polynomials: sums of words of matrix symbols, their
inverses and transposes, with decidable equality."""
from fractions import Fraction
from .terms import *
from .ops import *


class Unsupported(Exception):
    pass


class Wrong(Exception):
    """The expression does not mean a product of the operands at all."""


def wone():
    return {(): Fraction(1)}


def letter(s, inv=False, tr=False):
    return {((s, inv, tr),): Fraction(1)}


def wadd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def wmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            a, b = list(m), list(n)
            while a and b and a[-1][0] is b[0][0] and a[-1][1] != b[0][1] and a[-1][2] == b[0][2]:
                a.pop()
                b.pop(0)
            k = tuple(a + b)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def wT(p):
    return {tuple((s, i, not t) for s, i, t in reversed(m)): c for m, c in p.items()}


def winv(p):
    if len(p) != 1:
        raise Unsupported('inverse of a sum')
    (m, c), = p.items()
    return {tuple((s, not i, t) for s, i, t in reversed(m)): 1 / c}


def wscale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


def wtrace(p):
    """Sum of words up to rotation and transposition."""
    r = {}
    for m, c in p.items():
        best = None
        for w in (m, tuple((s, i, not t) for s, i, t in reversed(m))):
            for k in range(max(len(w), 1)):
                x = w[k:] + w[:k]
                key = [(s.uid, i, t) for s, i, t in x]
                if best is None or key < best[0]:
                    best = (key, x)
        v = r.get(best[1], 0) + c
        if v:
            r[best[1]] = v
        else:
            r.pop(best[1], None)
    return r


def wshow(p):
    def one(m):
        return ' '.join('%s%s' % (s.args[0], {(0, 0): '', (1, 0): '^-1', (0, 1): "'", (1, 1): "^-1'"}[(int(i), int(t))])
                        for s, i, t in m) or 'I'
    return ' + '.join('%s%s' % ('' if c == 1 else '%s ' % c, one(m)) for m, c in p.items()) or '0'


def einsum_word(spec, p, k, q, l):
    """The product two operands of at most two indices stand for."""
    if spec.count('->') != 1 or spec.count(',') != 1:
        return None
    ins, out = spec.split('->')
    a, b = ins.split(',')
    dots = [x.startswith('...') for x in (a, b, out)]
    if any(dots) and not all(dots):
        return None
    a, b, out = (x.replace('.', '') for x in (a, b, out))
    if len(a) != 2 or len(set(a)) != 2 or len(set(b)) != len(b) or (k, l) != ('m', 'm' if len(b) == 2 else 'v'):
        return None
    both = set(a) & set(b)
    if len(b) not in (1, 2) or len(both) != 1 or set(out) != (set(a) | set(b)) - both or len(out) != len(b):
        return None
    s = both.pop()
    left = p if a[1] == s else wT(p)
    if len(b) == 1:
        return wmul(left, q), 'v'
    right = q if b[0] == s else wT(q)
    w = wmul(left, right)
    return (w if out[0] in a else wT(w)), 'm'


class Words:
    """Evaluates terms; env: {symbol: (word polynomial, kind)} with kind
    'm' (stack of matrices), 'v' (stack of vectors) or 'c' (columns)."""

    def __init__(self, env):
        self.env = env

    def ev(self, t):
        r = self.env.get(t)
        if r is not None:
            return r
        if isk(t) and kval(t) == 0:
            return {}, None
        if t.op == 'sub':
            b, i = t.args[0], t.args[1]
            e = simple_elems(i) if i.op == 'tuple' else None
            p, k = self.ev(b)
            if e and len(e) == 2 and isk(e[0]) and kval(e[0]) is Ellipsis:
                if isk(e[1]) and kval(e[1]) is None:
                    if k != 'v':
                        raise Wrong('a trailing axis is added to a matrix: %s' % show(t))
                    return p, 'c'
                if isk(e[1]) and kval(e[1]) == 0:
                    if k != 'c':
                        raise Wrong('an entry is selected from a %s: %s' % ({'m': 'matrix', 'v': 'vector'}[k], show(t)))
                    return p, 'v'
            raise Unsupported(show(t))
        if t.op != 'app':
            raise Unsupported(show(t)[:100])
        nm, ar, kw = t.args
        if nm in ('matmul', 'np.dot') and len(ar) == 2:
            (p, k), (q, l) = self.ev(ar[0]), self.ev(ar[1])
            if nm == 'np.dot' and (ndim_of(ar[0]) or 0) > 2 and (ndim_of(ar[1]) or 0) > 1:
                raise Wrong('np.dot of stacked matrices is not the stack of the products: %s' % show(t))
            if k == 'm' and l == 'v' and (ndim_of(ar[1]) or 1) > 1:
                raise Wrong('matmul takes a stack of vectors for a matrix: %s' % show(t))
            if k == 'm' and l in ('m', 'c', 'v'):
                return wmul(p, q), l
            raise Unsupported(show(t)[:100])
        if nm == 'np.einsum' and len(ar) == 3 and isk(ar[0]):
            (p, k), (q, l) = self.ev(ar[1]), self.ev(ar[2])
            spec = str(kval(ar[0])).replace(' ', '')
            want = {'...ij,...jk->...ik': ('m', 'm', 0), '...ij,...j->...i': ('m', 'v', 0), '...jk,...ij->...ik': ('m', 'm', 1),
                    'ij,jk->ik': ('m', 'm', 0), 'ij,j->i': ('m', 'v', 0)}.get(spec)
            if want is None:
                r = einsum_word(spec, p, k, q, l)
                if r is None:
                    raise Unsupported(spec)
                return r
            if (k, l) != want[:2]:
                raise Wrong('einsum %s on %s and %s' % (spec, k, l))
            return (wmul(q, p) if want[2] else wmul(p, q)), l
        if nm == 'np.linalg.solve' and len(ar) == 2:
            (p, k), (q, l) = self.ev(ar[0]), self.ev(ar[1])
            if k != 'm':
                raise Unsupported(show(t)[:100])
            return wmul(winv(p), q), l
        if nm == 'np.linalg.inv':
            p, k = self.ev(ar[0])
            return winv(p), k
        if nm == 'T' and len(ar) == 1:
            p, k = self.ev(ar[0])
            if k != 'm':
                raise Unsupported(show(t)[:100])
            if (ndim_of(ar[0]) or 2) > 2:
                raise Wrong('.T of stacked matrices reverses all axes: %s' % show(t))
            return wT(p), k
        if nm in ('np.swapaxes',) and len(ar) == 3 and {kval(x) for x in ar[1:] if isk(x)} == {-1, -2}:
            p, k = self.ev(ar[0])
            if k != 'm':
                raise Unsupported(show(t)[:100])
            return wT(p), k
        if nm in ('add', 'sub') and len(ar) == 2:
            (p, k), (q, l) = self.ev(ar[0]), self.ev(ar[1])
            if k != l and None not in (k, l):
                raise Unsupported(show(t)[:100])
            return wadd(p, q, 1 if nm == 'add' else -1), k or l
        if nm == 'neg':
            p, k = self.ev(ar[0])
            return wscale(p, -1), k
        if nm == 'mul' and len(ar) == 2:
            for a, b in (ar, ar[::-1]):
                if isk(a) and isinstance(kval(a), (int, float)):
                    p, k = self.ev(b)
                    return wscale(p, Fraction(kval(a))), k
        if nm in ('copy', 'np.array', 'np.asarray', 'np.atleast_1d', 'np.atleast_2d') and len(ar) == 1:
            return self.ev(ar[0])
        raise Unsupported(show(t)[:100])
