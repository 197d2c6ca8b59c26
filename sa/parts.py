"""Values of array expressions described part by part in exact algebra.

A value is a kind and one LL expression per part:
  'c'      a scalar or constant (part '')
  'e'      an array whose every element depends on the matching element of
           the input (part '')
  'full'   last axis of length n: entry 0 (part '0') and a generic later
           entry (part '+')
  'free'   last axis of length n - 1: generic entry (part '+')
  'row'    one value per row, last axis gone;  'col' the same with last
           axis of length one (part 'r')
  'mat'    square matrix: diagonal 'd', below 'l', above 'u'
  'diag'   vector with the diagonal part 'd'
  'ld'     vector of the lower triangle row by row: parts 'd', 'l'
"""
from .suite import *
from . import algebra as AL
from .algebra import LL, Unsupported


class Wrong(Exception):
    pass


class NeedChoice(Exception):
    def __init__(self, t):
        self.t = t


class V:
    __slots__ = ('kind', 'parts', 'flat', 'unset')

    def __init__(self, kind, parts, flat=False):
        self.kind, self.parts, self.flat = kind, parts, flat
        self.unset = set()              # parts of allocated memory nothing wrote

    def show(self):
        return self.kind + '{' + '; '.join('%s: %s' % (k, v.show()) for k, v in self.parts.items()) + '}'

    def key(self):
        return self.kind, tuple((k, rkey(v)) for k, v in sorted(self.parts.items()))


def rkey(l):
    r, _ = l.rat()
    return r.key()


def same(a, b):
    """True / False / None for two values of the same kind."""
    if a.kind != b.kind or set(a.parts) != set(b.parts):
        return False
    rs = [a.parts[k].equal(b.parts[k]) for k in a.parts]
    return False if False in rs else None if None in rs else True


ZERO, ONE = AL.num(0), AL.num(1)
COPY = {'copy', 'np.array', 'np.asarray', 'np.atleast_1d', 'np.ascontiguousarray', 'builtins.float'}
FLATTEN = {'np.flatten', 'np.ravel', 'ravel'}


def none_slice(t):
    return t.op == 'slice' and all(z is NONE for z in t.args)


def neg1(t):
    return isk(t) and kval(t) == -1


def kint(t, default=None):
    return kval(t) if t is not None and isk(t) and isinstance(kval(t), int) else default


class Ev:
    """Evaluator; ``leaves`` maps terms to values, ``n`` is the term of the
    last-axis length (simplices), ``lows`` gives atoms with known ranges."""

    def __init__(self, leaves, n=None, ranges=None, choice=None):
        self.leaves, self.n = dict(leaves), n
        self.ranges = ranges or {}
        self.choice = choice or {}
        self.memo, self.notes = {}, []
        self.chol, self.gram = {}, {}
        self.dep = set()

    # ------------------------------------------------------------ helpers
    def ev(self, t):
        r = self.leaves.get(t)
        if r is not None:
            return r
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.ev1(t)
        return r

    def axis(self, ar, kw, i, what):
        a = kw.get('axis', ar[i] if len(ar) > i else None)
        if a is None or not isk(a):
            raise Unsupported('axis of %s' % what)
        return kval(a)

    def lastaxis(self, t, args, kw, i=1):
        a = self.axis(args, kw, i, show(t)[:60])
        if a != -1:
            raise Unsupported('axis %r' % (a,))

    def shape_end(self, shp):
        """'n', 'free', '1' or None for the last entry of a shape term."""
        if shp.op == 'tuple' and shp.args[0]:
            k, v = shp.args[0][-1]
            if k == 'e':
                return self.length(v)
        return None

    def length(self, v):
        if isk(v) and kval(v) == 1:
            return '1'
        if self.n is not None:
            p = AL.poly(v)
            n = AL.poly(self.n)
            if p == n:
                return 'n'
            if p == AL.padd(n, AL.pconst(-1)):
                return 'free'
        return None

    # ---------------------------------------------------------- evaluation
    def ev1(self, t):
        if isk(t):
            v = kval(t)
            if isinstance(v, bool) or not isinstance(v, (int, float)) or v != v or v in (INF, -INF):
                raise Unsupported('constant %r' % (v,))
            return V('c', {'': AL.num(v)})
        if t.op == 'sub':
            if t.args[0].op == 'tuple' and isk(t.args[1]) and type(kval(t.args[1])) is int:
                return V('c', {'': LL(AL.ra(t))})       # some length of a shape
            return self.index(t)
        if t.op in ('storenest', 'store'):
            return self.filled(t)
        if t.op != 'app':
            if t.op == 'sym':
                return V('c', {'': LL(AL.ra(t))})
            raise Unsupported(show(t)[:120])
        nm, ar, kw = t.args
        kw = dict(kw)
        m = getattr(self, 'f_' + nm.replace('.', '_'), None)
        if m is not None:
            r = m(t, ar, kw)
            if r is not None:
                return r
        if nm in COPY and ar:
            self.dtype(kw.get('dtype', ar[1] if len(ar) > 1 and nm in ('np.array', 'np.asarray') else None), t)
            return self.ev(ar[0])
        if nm == 'astype' and len(ar) == 2:
            self.dtype(ar[1], t)
            return self.ev(ar[0])
        if nm in FLATTEN or nm == 'np.reshape':
            return self.reshape(t, nm, ar, kw)
        return self.pointwise(t, nm, ar, kw)

    def dtype(self, d, t):
        if d is None or d is NONE:
            return
        n = show(d)
        if 'float' in n:
            return
        if 'int' in n or 'bool' in n:
            raise Wrong('conversion to %s loses values: %s' % (n, show(t)[:80]))
        raise Unsupported('dtype %s' % n)

    def pointwise(self, t, nm, ar, kw):
        vs = [self.ev(a) for a in ar]
        if not vs:
            raise Unsupported(show(t)[:100])
        kind = self.join(vs, t)
        ph = [sym('@%d' % i) for i in range(len(vs))]
        if nm == 'pow' and len(ar) == 2 and isk(ar[1]):
            ph[1] = ar[1]
        skel = mk('app', nm, tuple(ph), t.args[2])
        names = next((list(v.parts) for v in vs if v.kind == kind), None)
        if kind == 'c':
            names = ['']
        parts = {}
        for p in names:
            env = {}
            for h, v in zip(ph, vs):
                env[h] = v.parts[p] if p in v.parts and v.kind == kind else v.parts['' if v.kind in ('c', 'e') else 'r']
            parts[p] = AL.elementwise(skel, lambda y: env.get(y))
        return V(kind, parts, any(v.flat for v in vs))

    def join(self, vs, t):
        ks = {v.kind for v in vs if v.kind != 'c'}
        if not ks:
            return 'c'
        if len(ks) == 1:
            return next(iter(ks))
        if len(ks) == 2 and 'col' in ks and ks & {'full', 'free'}:
            return (ks - {'col'}).pop()
        if ks in ({'full', 'free'}, {'row', 'full'}, {'row', 'free'}, {'row', 'col'}):
            raise Wrong('combines arrays of different shapes (%s): %s' % (', '.join(sorted(ks)), show(t)[:120]))
        raise Unsupported('combination of %s' % ', '.join(sorted(ks)))

    def reshape(self, t, nm, ar, kw):
        v = self.ev(ar[0])
        o = kw.get('order', ar[2] if nm == 'np.reshape' and len(ar) > 2 else ar[1] if nm != 'np.reshape' and len(ar) > 1 else None)
        flat = nm in FLATTEN or len(ar) > 1 and neg1(ar[1])
        if o is not None and isk(o) and kval(o) == 'F':
            if v.kind == 'c' or v.kind == 'e' and self.rank1:
                return v
            if v.kind == 'e' and flat:
                return V('ef', v.parts)
            if v.kind == 'et' and flat or v.kind == 'ef' and not flat:
                return V('e', v.parts)
        if o is not None and not (isk(o) and kval(o) == 'C'):
            raise Unsupported('memory order %s' % show(o))
        if v.kind in ('c', 'e'):
            return v
        if v.kind in ('et', 'ef'):
            if flat:
                return V('ef', v.parts)        # entries in column-major order
            raise Unsupported('reshaped transpose')
        if nm in FLATTEN:
            if v.kind == 'mat':
                raise Unsupported('flattened matrix')
            if v.kind in ('ld', 'diag'):
                return v
            return V(v.kind, v.parts, True)
        e = self.shape_end(ar[1]) if len(ar) > 1 else None
        want = {'full': 'n', 'free': 'free', 'col': '1'}.get(v.kind)
        if v.kind == 'row' and e == '1':
            return V('col', v.parts)
        if want is None or e is None:
            if len(ar) > 1 and neg1(ar[1]):
                return V(v.kind, v.parts, True)
            raise Unsupported('reshape to %s' % (show(ar[1])[:60] if len(ar) > 1 else '?'))
        if e != want:
            raise Wrong('reshapes rows of %s entries to rows of %s' % (want, e))
        return V(v.kind, v.parts)

    # ------------------------------------------------------ where and clip
    def f_np_abs(self, t, ar, kw):
        if len(ar) != 1 or kw:
            return None
        v = self.ev(ar[0])
        sign = set()
        for l in v.parts.values():
            r, ex = l.rat()
            at = [AL.aobj(a) for a in AL.patoms(r.n) | AL.patoms(r.d)]
            pos = ex and all(isinstance(o, tuple) and o[0] == 'exp' for o in at) and r.n
            sign.add(1 if pos and all(c > 0 for c in r.n.values()) and all(c > 0 for c in r.d.values()) else None)
        if sign == {1}:
            return v
        return self.ev(app('np.where', (app('lt', (ar[0], K(0))), app('mul', (K(-1), ar[0])), ar[0])))

    f_np_absolute = f_np_fabs = f_np_abs

    def f_np_where(self, t, ar, kw):
        if len(ar) != 3 or kw:
            raise Unsupported('where')
        pc = self.classcond(ar[0])
        if pc is not None:
            a, b = self.ev(ar[1]), self.ev(ar[2])
            return V('mat', {p: self.part(a if pc[p] else b, p) for p in 'dlu'})
        c = self.choice.get(t)
        if c is None:
            a = b = None
            ea = eb = None
            try:
                a = self.ev(ar[1])
            except Unsupported as e:
                ea = e
            try:
                b = self.ev(ar[2])
            except Unsupported as e:
                eb = e
            if ea or eb:
                raise ea or eb
            if same(a, b) is True:
                return a
            raise NeedChoice(t)
        return self.ev(ar[1] if c else ar[2])

    def part(self, v, p):
        if v.kind == 'c':
            return v.parts['']
        if v.kind != 'mat':
            raise Unsupported('where over %s' % v.kind)
        return v.parts[p]

    def classcond(self, c):
        """{part: bool} for conditions on the position in a matrix."""
        if c.op == 'app' and c.args[0] in ('np.eye', 'np.identity'):
            return {'d': True, 'l': False, 'u': False}
        if c.op == 'app' and c.args[0] in ('astype', 'np.array') and c.args[1]:
            return self.classcond(c.args[1][0])
        if c.op == 'app' and c.args[0] in ('eq', 'ne', 'gt', 'lt', 'ge', 'le') and len(c.args[1]) == 2:
            try:
                a, b = self.ev(c.args[1][0]), self.ev(c.args[1][1])
            except (Unsupported, Wrong):
                return None
            if 'mat' not in (a.kind, b.kind):
                return None
            out = {}
            for p in 'dlu':
                try:
                    x, y = self.part(a, p), self.part(b, p)
                except Unsupported:
                    return None
                d = (x - y).simplify()
                if d.logs or not d.r.is_const():
                    return None
                k = d.r.const()
                out[p] = {'eq': k == 0, 'ne': k != 0, 'gt': k > 0, 'lt': k < 0, 'ge': k >= 0, 'le': k <= 0}[c.args[0]]
            return out
        if c.op == 'app' and c.args[0] in ('np.logical_not', 'np.invert', 'invert', 'not') and c.args[1]:
            r = self.classcond(c.args[1][0])
            return r and {k: not v for k, v in r.items()}
        return None

    def f_np_clip(self, t, ar, kw):
        lo = ar[1] if len(ar) > 1 else kw.get('a_min', kw.get('min'))
        hi = ar[2] if len(ar) > 2 else kw.get('a_max', kw.get('max'))
        return self.clip(t, self.ev(ar[0]), lo, hi)

    def f_np_maximum(self, t, ar, kw):
        return self.oneside(t, ar, True)

    def f_np_minimum(self, t, ar, kw):
        return self.oneside(t, ar, False)

    f_np_fmax, f_np_fmin = f_np_maximum, f_np_minimum

    def oneside(self, t, ar, low):
        if len(ar) != 2:
            raise Unsupported('maximum')
        x, y = ar
        try:
            vx = self.ev(x)
        except Unsupported:
            vx = None
        if vx is None or vx.kind == 'c':
            x, y = y, x
        v = self.ev(x)
        return self.clip(t, v, y if low else None, None if low else y)

    def clip(self, t, v, lo, hi):
        for p in v.parts.values():
            e1, e2 = self.ends(p)
            a = [None if (b is None or b is NONE) else self.bound(b) for b in (lo, hi)]
            oks = []
            for l, h in ((e1, e2), (e2, e1)):
                oks.append((self.inside(a[0], l, 1), self.inside(a[1], h, -1)))
            if any(x is True and y is True for x, y in oks):
                continue
            if all(x is False or y is False for x, y in oks):
                raise Wrong('clipping changes reachable values: %s' % show(t)[:120])
            raise Unsupported('clipping in %s' % show(t)[:120])
        return v

    def bound(self, b):
        if isk(b) and kval(b) in (INF, -INF):
            return INF if kval(b) > 0 else -INF
        v = self.ev(b)
        if v.kind != 'c':
            raise Unsupported('array bound')
        return v.parts['']

    def ends(self, l):
        """Limits of a Moebius expression over the range of its variable."""
        r, ex = l.rat()
        if not ex:
            raise Unsupported('range of %s' % l.show()[:80])
        vs = []
        for a in AL.patoms(r.n) | AL.patoms(r.d):
            o = AL.aobj(a)
            if isinstance(o, tuple) and o[0] == 'exp':
                vs.append((a, ZERO, INF))
            elif o in self.ranges:
                vs.append((a,) + self.ranges[o])
        if len(vs) != 1:
            raise Unsupported('range of %s' % l.show()[:80])
        a, lo, hi = vs[0]
        deg = {0}
        for p in (r.n, r.d):
            deg |= {dict(m).get(a, 0) for m in p}
        if len(deg) > 2 or not deg - {0}:
            raise Unsupported('range of %s' % l.show()[:80])
        k = max(deg)
        if k != 1 and not isinstance(AL.aobj(a), tuple):
            raise Unsupported('range of %s' % l.show()[:80])

        def coef(p, e):
            return {tuple(x for x in m if x[0] != a): c for m, c in p.items() if dict(m).get(a, 0) == e}

        def at(x):
            if x is INF or x is -INF or x == INF or x == -INF:
                n, d = coef(r.n, k), coef(r.d, k)
                if not d:
                    c = AL.Rat(n)
                    if c.is_const() and n:
                        return INF if (c.const() > 0) == (x > 0) else -INF
                    raise Unsupported('limit')
                return LL(AL.Rat(n, d))
            n = AL.Rat(coef(r.n, 0)) + AL.Rat(coef(r.n, k)) * x.r
            d = AL.Rat(coef(r.d, 0)) + AL.Rat(coef(r.d, k)) * x.r
            return LL(n / d)
        return at(lo), at(hi)

    params = None      # (lower, upper) bound symbols free in lower < upper
    restricted = False
    rank1 = False                # arrays called 'e' have one dimension

    def inside(self, b, e, side):
        """Is the clip bound b at or beyond the end e (side 1: lower) for
        every value of the parameters?"""
        if b is None:
            return True
        binf, einf = isinstance(b, float), isinstance(e, float)
        if binf:
            return b == (-INF if side > 0 else INF)
        if einf:
            if (e < 0) != (side > 0):
                return False                     # not the right end
            d = b.simplify()
            if not d.logs and d.r.is_const() and (d.r.const() >= AL.Fraction(70978, 100) or d.r.const() <= -745):   # exp is constant there
                return None
            return False
        d = (b - e).scale(AL.Fraction(side)).simplify()
        if d.logs or d.r.d != AL.pconst(1):
            return None
        # d = (a + c) lb + c w + k with w = ub - lb > 0: never positive?
        lo, hi = self.params or (None, None)
        co = {m: v for m, v in d.r.n.items()}
        k = co.pop((), AL.Fraction(0))
        a = co.pop(((AL.aid(lo), 1),), 0) if lo is not None else 0
        c = co.pop(((AL.aid(hi), 1),), 0) if hi is not None else 0
        if co:
            return None
        if not a and not c:
            return k <= 0
        if a + c == 0 and c <= 0 and k <= 0:
            return True
        return None if self.restricted else False

    # ----------------------------------------------------------- matrices
    def f_np_make_diagonal(self, t, ar, kw):
        v = self.ev(ar[0])
        off = kw.get('offset')
        if off is not None and not (isk(off) and kval(off) == 0):
            raise Wrong('off-diagonal placement: %s' % show(t)[:80])
        return self.mkdiag(v)

    def mkdiag(self, v):
        if v.kind == 'c':
            v = V('diag', {'d': v.parts['']})
        if v.kind != 'diag':
            raise Unsupported('diagonal from %s' % v.kind)
        return V('mat', {'d': v.parts['d'], 'l': ZERO, 'u': ZERO})

    def f_np_diag(self, t, ar, kw):
        off = kw.get('k', ar[1] if len(ar) > 1 else kw.get('offset'))
        if off is not None and not (isk(off) and kval(off) == 0):
            raise Wrong('another diagonal: %s' % show(t)[:80])
        v = self.ev(ar[0])
        if v.kind == 'mat':
            return V('diag', {'d': v.parts['d']})
        return self.mkdiag(v)

    f_np_diagonal = f_np_diag

    def f_T(self, t, ar, kw):
        v = self.ev(ar[0])
        if len(ar) == 1 and not kw:
            if v.kind == 'c' or v.kind in ('e', 'ef') and (self.rank1 or v.kind == 'ef'):
                return v
            if v.kind in ('e', 'et'):
                return V('et' if v.kind == 'e' else 'e', v.parts)
        if v.kind != 'mat':
            raise Unsupported('transpose of %s' % v.kind)
        return V('mat', {'d': v.parts['d'], 'l': v.parts['u'], 'u': v.parts['l']})

    def f_np_swapaxes(self, t, ar, kw):
        a = {kint(x) for x in ar[1:]}
        if a in ({-1, -2}, {0, 1}):
            return self.f_T(t, ar, kw)

    def f_np_eye(self, t, ar, kw):
        if len(ar) != 1:
            raise Unsupported('eye')
        return V('mat', {'d': ONE, 'l': ZERO, 'u': ZERO})

    f_np_identity = f_np_eye

    def tri(self, t, ar, kw, lower):
        v = self.ev(ar[0])
        k = kw.get('k', ar[1] if len(ar) > 1 else K(0))
        k = kint(k)
        if v.kind != 'mat' or k not in (0, -1, 1):
            raise Unsupported('triangle')
        keep = {(True, 0): 'dl', (True, -1): 'l', (False, 0): 'du', (False, 1): 'u'}.get((lower, k))
        if keep is None:
            raise Unsupported('triangle')
        return V('mat', {p: v.parts[p] if p in keep else ZERO for p in 'dlu'})

    def f_np_tril(self, t, ar, kw):
        return self.tri(t, ar, kw, True)

    def f_np_triu(self, t, ar, kw):
        return self.tri(t, ar, kw, False)

    def f_matmul(self, t, ar, kw):
        a, b = self.ev(ar[0]), self.ev(ar[1])
        if a.kind != 'mat' or b.kind != 'mat':
            raise Unsupported('product')
        if all(v.parts[x].equal(ZERO) for v in (a, b) for x in 'lu'):
            return V('mat', {'d': a.parts['d'].mul(b.parts['d']), 'l': ZERO, 'u': ZERO})
        tb = V('mat', {'d': b.parts['d'], 'l': b.parts['u'], 'u': b.parts['l']})
        if same(a, tb) is not True:
            for p, q in ((a, b), (b, a)):
                if p.parts['l'].equal(ZERO) and p.parts['u'].equal(ZERO):
                    raise Unsupported('scaled rows')
            if same(a, b) is True and same(a, tb) is False:
                raise Wrong('multiplies a triangular matrix by itself, not by its transpose: %s' % show(t)[:100])
            raise Unsupported('product of unrelated matrices')
        if a.parts['u'].equal(ZERO):
            form = 'LLt'
        elif a.parts['l'].equal(ZERO):
            form, a = 'LtL', tb
        else:
            raise Unsupported('product of full matrices')
        key = rkey(a.parts['d']) + rkey(a.parts['l'])
        if form == 'LLt' and key in self.chol:
            return self.chol[key]
        ad, al = ('gram', 'd', form) + key, ('gram', 'l', form) + key
        self.gram[AL.aid(ad)] = (form, a, AL.aid(al))
        return V('mat', {'d': LL(AL.ra(ad)), 'l': LL(AL.ra(al)), 'u': LL(AL.ra(al))})

    f_np_dot = f_matmul

    def f_np_linalg_cholesky(self, t, ar, kw):
        x = self.ev(ar[0])
        if x.kind != 'mat':
            raise Unsupported('cholesky of %s' % x.kind)
        rd, ex = x.parts['d'].rat()
        for i in AL.patoms(rd.n):
            if i in self.gram:
                form, a, li = self.gram[i]
                gd, gl = LL(AL.ra(AL.aobj(i))), LL(AL.ra(AL.aobj(li)))
                dd, dl = (x.parts['d'] - gd).simplify(), (x.parts['l'] - gl).simplify()
                if dd.equal(ZERO) and dl.equal(ZERO):
                    if form != 'LLt':
                        raise Wrong("takes the lower Cholesky factor of L'L, which is not L")
                    if not positive(a.parts['d']):
                        if positive(a.parts['d']) is False:
                            raise Wrong('the factor in the fold does not have a positive diagonal: %s' % a.parts['d'].show())
                        raise Unsupported('sign of the diagonal')
                    return a
                if dl.equal(ZERO) and not dd.logs and dd.exact and not any(
                        isinstance(AL.aobj(k), tuple) for k in AL.patoms(dd.r.n) | AL.patoms(dd.r.d)):
                    raise Wrong('the factorised matrix differs from the product by %s on the diagonal' % dd.show())
                raise Unsupported('cholesky of %s' % x.show()[:120])
        if x.parts['l'].equal(x.parts['u']) is False:
            raise Unsupported('cholesky of an unsymmetric matrix')
        key = rkey(x.parts['d']) + rkey(x.parts['l'])
        d, l = ('chol', 'd') + key, ('chol', 'l') + key
        r = V('mat', {'d': LL(AL.ra(d)), 'l': LL(AL.ra(l)), 'u': ZERO})
        self.chol[rkey(r.parts['d']) + rkey(r.parts['l'])] = x
        return r

    def filled(self, t):
        from .rules.deriv import as_ld
        if t.op == 'store':
            v = self.overwritten(t)
            if v is not None:
                return v
        r = as_ld(t)
        if r is None:
            raise Unsupported(show(t)[:120])
        if isinstance(r, str):
            raise Wrong('lower triangle: ' + r)
        v = self.ev(r[0])
        if v.kind == 'ld':
            return V('mat', {'d': v.parts['d'], 'l': v.parts['l'], 'u': ZERO})
        if v.kind == 'c':
            return V('mat', {'d': v.parts[''], 'l': v.parts[''], 'u': ZERO})
        raise Unsupported('triangle filled from %s' % v.kind)

    def overwritten(self, t):
        """Simplices with some entries written: a[..., 0] = x, a[..., 1:] = x."""
        b, i, x = t.args
        e = simple_elems(i) if i.op == 'tuple' else [i]
        if e is None or self.n is None or not (
                len(e) == 2 and isk(e[0]) and kval(e[0]) is Ellipsis or len(e) == 1 and (self.vec or whole_index(i))):
            return None
        j = e[-1]
        unset = b.op == 'app' and b.args[0] in ('np.empty', 'np.empty_like')
        v = self.ev(app('np.zeros' if b.args[0] == 'np.empty' else 'np.zeros_like', b.args[1][:1])) if unset else self.ev(b)
        if v.kind != 'full':
            return None
        w = self.ev(x)
        if kint(j) == 0 and w.kind in ('c', 'row'):
            parts = dict(v.parts)
            parts['0'] = w.parts['' if w.kind == 'c' else 'r']
            wrote = {'0'}
        elif j.op == 'slice' and kint(j.args[0]) == 1 and j.args[1] is NONE and (j.args[2] is NONE or kint(j.args[2]) == 1) and \
                w.kind in ('c', 'free', 'col'):
            parts = dict(v.parts)
            parts['+'] = w.parts['' if w.kind == 'c' else '+' if w.kind == 'free' else 'r']
            wrote = {'+'}
        elif whole_index(j) and w.kind in ('c', 'full'):
            parts = {p: w.parts['' if w.kind == 'c' else p] for p in v.parts}
            wrote = set(parts)
        else:
            return None
        r = V('full', parts)
        r.unset = ({'0', '+'} if unset else getattr(v, 'unset', set())) - wrote
        return r

    # ------------------------------------------------------------ last axis
    def index(self, t):
        from .rules.deriv import tri_of
        b, i = t.args
        if tri_of(i) is not None:
            v = self.ev(b)
            if v.kind != 'mat':
                raise Unsupported('triangle of %s' % v.kind)
            return V('ld', {'d': v.parts['d'], 'l': v.parts['l']})
        if i.op == 'app' and i.args[0] == 'np.triu_indices':
            v = self.ev(b)
            if v.kind == 'mat' and not v.parts['l'].equal(v.parts['u']):
                raise Wrong('reads the upper triangle of %s' % v.show()[:100])
            raise Unsupported('upper triangle')
        if i.op == 'app' and i.args[0] == 'np.diag_indices':
            v = self.ev(b)
            if v.kind == 'mat':
                return V('diag', {'d': v.parts['d']})
        e = simple_elems(i) if i.op == 'tuple' else [i]
        if e is None:
            raise Unsupported('index %s' % show(i)[:60])
        v = self.ev(b)
        if isk(e[0]) and kval(e[0]) is Ellipsis and len(e) == 2:
            return self.pick(v, e[1], i)
        if len(e) == 1 and none_slice(e[0]) or isk(e[0]) and kval(e[0]) is Ellipsis and len(e) == 1:
            return v
        if len(e) == 1 and self.vec and v.kind in ('full', 'free'):
            return self.pick(v, e[0], i)
        if self.vec and len(e) == 2 and none_slice(e[0]) and e[1] is NONE and v.kind in ('full', 'free'):
            return v
        if v.kind == 'mat' and len(e) == 2 and none_slice(e[0]) and e[1] is NONE:
            raise Unsupported('index')
        raise Unsupported('index %s' % show(i)[:60])

    vec = False

    def pick(self, v, x, i):
        if x is NONE:
            if v.kind == 'row':
                return V('col', v.parts)
            if v.kind == 'c':
                return v
            raise Unsupported('new axis on %s' % v.kind)
        if none_slice(x):
            return v
        if v.kind == 'full':
            if kint(x) == 0:
                return V('row', {'r': v.parts['0']})
            if x.op == 'slice':
                lo, hi, st = x.args
                if st is NONE or kint(st) == 1:
                    if kint(lo) == 1 and hi is NONE:
                        return V('free', {'+': v.parts['+']})
                    if kint(lo) in (None, 0) and (lo is NONE or kint(lo) == 0) and kint(hi) == 1:
                        return V('col', {'r': v.parts['0']})
                    if hi is NONE and kint(lo) is not None or kint(hi) == -1 and lo is NONE:
                        raise Wrong('takes the wrong entries of each simplex: %s' % show(i))
            if isk(x) and kint(x) not in (None, 0):
                raise Wrong('takes entry %s of each simplex as the reference' % show(x))
        if v.kind == 'free' and x.op == 'slice' and (x.args[0] is NONE or kint(x.args[0]) == 0) and kint(x.args[1]) == 1:
            p = v.parts['+'].simplify()
            return V('col', {'r': p if not p.logs and p.r.is_const() else LL(AL.ra(('firstof',) + rkey(p)))})
        raise Unsupported('index %s of %s' % (show(i)[:60], v.kind))

    def f_np_expand_dims(self, t, ar, kw):
        a = self.axis(ar, kw, 1, 'expand_dims')
        v = self.ev(ar[0])
        if v.kind == 'c':
            return v
        if v.kind == 'row' and a == -1:
            return V('col', v.parts)
        raise Unsupported('expand_dims of %s' % v.kind)

    def filledwith(self, shp, val):
        v = self.ev(val) if isinstance(val, T) else V('c', {'': AL.num(val)})
        if v.kind != 'c':
            raise Unsupported('full')
        x = v.parts['']
        e = self.shape_end(shp) if shp.op == 'tuple' else None
        if self.vec and e is None and shp.op != 'tuple':
            e = self.length(shp)
        if e == 'n':
            return V('full', {'0': x, '+': x})
        if e == 'free':
            return V('free', {'+': x})
        if e == '1':
            return V('col', {'r': x})
        if self.n is not None and not self.vec:
            s = self.rowshape(shp)
            if s:
                return V('row', {'r': x})
            raise Unsupported('full of shape %s' % show(shp)[:60])
        return v

    def rowshape(self, shp):
        """Is the shape that of one value per row?"""
        if shp in self.rowshapes:
            return True
        if shp.op == 'sub' and shp.args[1].op == 'slice':
            lo, hi, st = shp.args[1].args
            if (lo is NONE or kint(lo) == 0) and kint(hi) == -1 and (st is NONE or kint(st) == 1):
                return self.shape_end(shp.args[0]) is not None
        return False

    rowshapes = ()

    def f_np_full(self, t, ar, kw):
        val = ar[1] if len(ar) > 1 else kw.get('fill_value')
        self.dtype(kw.get('dtype'), t)
        return self.filledwith(ar[0], val)

    def f_np_zeros(self, t, ar, kw):
        return self.filledwith(ar[0], 0)

    def f_np_ones(self, t, ar, kw):
        return self.filledwith(ar[0], 1)

    def f_np_full_like(self, t, ar, kw):
        v, c = self.ev(ar[0]), self.ev(ar[1])
        if c.kind != 'c':
            raise Unsupported('full_like')
        return V(v.kind, {p: c.parts[''] for p in v.parts})

    def f_np_zeros_like(self, t, ar, kw):
        v = self.ev(ar[0])
        return V(v.kind, {p: ZERO for p in v.parts})

    def f_np_ones_like(self, t, ar, kw):
        v = self.ev(ar[0])
        return V(v.kind, {p: ONE for p in v.parts})

    def f_np_concatenate(self, t, ar, kw):
        self.lastaxis(t, ar, kw) if not self.vec else None
        return self.concat(ar[0])

    def f_np_append(self, t, ar, kw):
        self.lastaxis(t, ar, kw, 2) if not self.vec else None
        return self.concat2([self.ev(ar[0]), self.ev(ar[1])])

    def f_np_hstack(self, t, ar, kw):
        if not self.vec:
            raise Unsupported('hstack')
        return self.concat(ar[0])

    def concat(self, x):
        e = simple_elems(x)
        if e is None:
            raise Unsupported('concatenation')
        if len(e) == 1:
            return self.ev(e[0])
        if len(e) != 2:
            raise Unsupported('concatenation')
        return self.concat2([self.ev(y) for y in e])

    def concat2(self, v):
        if [x.kind for x in v] == ['col', 'free']:
            return V('full', {'0': v[0].parts['r'], '+': v[1].parts['+']})
        if [x.kind for x in v] == ['free', 'col']:
            raise Wrong('puts the reference entry last')
        raise Unsupported('concatenation of %s' % ', '.join(x.kind for x in v))

    def reduce(self, t, ar, kw):
        ax = kw.get('axis', ar[1] if len(ar) > 1 else None)
        v = self.ev(ar[0])
        if v.kind in ('c',):
            raise Unsupported('reduction')
        kd = kw.get('keepdims', ar[4] if False else None)
        keep = kd is not None and isk(kd) and bool(kval(kd))
        if kd is not None and not isk(kd):
            raise Unsupported('keepdims')
        if v.kind not in ('full', 'free'):
            raise Unsupported('reduction of %s' % v.kind)
        if ax is None or ax is NONE:
            if not self.vec:
                raise Wrong('reduces over all simplices at once: %s' % show(t)[:120])
        elif kint(ax) != -1 and not (self.vec and kint(ax) == 0):
            if kint(ax) is not None and not self.vec:
                raise Wrong('reduces along axis %s instead of the simplex axis: %s' % (show(ax), show(t)[:100]))
            raise Unsupported('axis')
        return v, ('col' if keep else 'row')

    def f_np_max(self, t, ar, kw):
        v, kind = self.reduce(t, ar, kw)
        key = ('rowmax',) + sum((rkey(p) for _, p in sorted(v.parts.items())), ())
        return V(kind, {'r': LL(AL.ra(key))})

    f_np_amax = f_np_max

    def f_np_min(self, t, ar, kw):
        v, kind = self.reduce(t, ar, kw)
        key = ('rowmin',) + sum((rkey(p) for _, p in sorted(v.parts.items())), ())
        return V(kind, {'r': LL(AL.ra(key))})

    def f_np_sum(self, t, ar, kw):
        v, kind = self.reduce(t, ar, kw)
        s = self.rowsum(v.parts['+'])
        if v.kind == 'full':
            s = s + v.parts['0']
        return V(kind, {'r': s})

    def f_np_mean(self, t, ar, kw):
        v, kind = self.reduce(t, ar, kw)
        s = self.rowsum(v.parts['+'])
        n = LL(AL.ra(self.n)) if self.n is not None else None
        if n is None:
            raise Unsupported('mean')
        if v.kind == 'full':
            s = s + v.parts['0']
        else:
            n = n + AL.num(-1)
        return V(kind, {'r': s.mul(n.inv())})

    def f_scipy_special_logsumexp(self, t, ar, kw):
        if 'b' in kw or len(ar) > 2:
            raise Unsupported('logsumexp')
        v, kind = self.reduce(t, ar, {k: x for k, x in kw.items()})
        s = self.rowsum(v.parts['+'].exp())
        if v.kind == 'full':
            s = s + v.parts['0'].exp()
        return V(kind, {'r': s.log()})

    def f_scipy_special_softmax(self, t, ar, kw):
        v, kind = self.reduce(t, ar, kw)
        s = self.rowsum(v.parts['+'].exp())
        if v.kind == 'full':
            s = s + v.parts['0'].exp()
        return V(v.kind, {p: x.exp().mul(s.inv()) for p, x in v.parts.items()})

    def f_scipy_special_log_softmax(self, t, ar, kw):
        v = self.f_scipy_special_softmax(t, ar, kw)
        return V(v.kind, {p: x.log() for p, x in v.parts.items()})

    indexed = ()       # atoms that vary along the row
    totals = {}        # atom -> LL of its sum over the later entries

    def varies(self, a):
        o = AL.aobj(a)
        if o in self.indexed:
            return True
        if isinstance(o, tuple):
            if o[0] in ('rowmax', 'rowmin', 'rowsum', 'firstof'):
                return False
            return any(self.varies(b) for part in o[1:] if isinstance(part, tuple)
                       for m in dict(part) for b, _ in m)
        return False

    def rowsum(self, l):
        """Sum over the n - 1 later entries."""
        r, ex = l.rat()
        if not ex:
            raise Unsupported('sum of %s' % l.show()[:80])
        if any(self.varies(a) for a in AL.patoms(r.d)):
            return LL(AL.ra(('rowsum',) + r.key()))
        tot = AL.rc(0)
        for m, c in r.n.items():
            iv = tuple((a, e) for a, e in m if self.varies(a))
            ov = tuple((a, e) for a, e in m if not self.varies(a))
            if not iv:
                s = AL.ra(self.n) - AL.rc(1)
            elif len(iv) == 1 and iv[0][1] == 1 and AL.aobj(iv[0][0]) in self.totals:
                s = self.totals[AL.aobj(iv[0][0])].rat()[0]
            else:
                s = AL.ra(('rowsum', ((iv, AL.Fraction(1)),)))
            tot = tot + AL.Rat({ov: c}) * s
        return LL(tot / AL.Rat(r.d))


def positive(l):
    """True: positive everywhere; False: takes both signs; None unknown."""
    r, ex = l.rat()
    if not ex:
        return None
    at = AL.patoms(r.n) | AL.patoms(r.d)
    pos = all(c > 0 for c in r.n.values()) and all(c > 0 for c in r.d.values())
    if pos and all(isinstance(AL.aobj(a), tuple) and (AL.aobj(a)[0] == 'exp' or AL.aobj(a)[:2] == ('chol', 'd')) for a in at):
        return True
    if r.d == AL.pconst(1) and len(r.n) == 1:
        (m, c), = r.n.items()
        if any(e % 2 and not isinstance(AL.aobj(a), tuple) for a, e in m):
            return False
    return None


def branches(make, t, read=None, limit=16):
    """Evaluate t under every combination of unresolved choices: list of
    (choices, value or exception)."""
    todo, out = [{}], []
    while todo:
        ch = todo.pop()
        ev = make(ch)
        try:
            out.append((ch, read(t, ev) if read else ev.ev(t), ev))
        except NeedChoice as e:
            if len(out) + len(todo) > limit:
                raise Unsupported('too many cases')
            todo += [ch | {e.t: 1}, ch | {e.t: 0}]
        except (Unsupported, Wrong) as e:
            out.append((ch, e, ev))
    return out
