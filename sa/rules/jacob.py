"""P21: the Jacobians are the derivatives of the transforms, in the form asked for."""
from ..suite import *
from .. import algebra as AL
from ..parts import *
from ..report import Part
from .layout import containers
from ..parts import V, same
from .inverse import NUM, evaluator, compose, results, simplex_size, LB, UB, open_choice, strip_plain

SPARSE_CLS = ('coo', 'csr', 'csc', 'dia', 'bsr', 'lil', 'dok')
SPARSE_FUN = {'scipy.sparse.' + n for n in ('diags', 'diags_array', 'block_diag', 'eye', 'identity', 'eye_array', 'bmat', 'block_array', 'hstack', 'vstack',
                                            'kron', 'spdiags', 'tril', 'triu')} | \
    {'scipy.sparse.%s_%s' % (c, k) for c in SPARSE_CLS for k in ('matrix', 'array')} | \
    {'to' + c for c in SPARSE_CLS} | {'asformat'}
DENSE_FUN = {'np.diag', 'np.zeros', 'np.hstack', 'np.vstack', 'np.eye', 'np.concatenate', 'np.column_stack', 'np.outer', 'np.make_diagonal',
             'np.full', 'np.ones', 'scipy.linalg.block_diag', 'np.stack', 'np.block', 'np.identity', 'np.diagflat', 'matmul'}
WRAP = {'scipy.sparse.%s_%s' % (c, k) for c in SPARSE_CLS for k in ('matrix', 'array')} | {'to' + c for c in SPARSE_CLS} | \
    {'todense', 'toarray', 'np.array', 'np.asarray', 'copy', 'asformat'}


def container_kind(t):
    """'sparse', 'array', text of a wrong type, or None."""
    if t.op == 'app':
        nm, ar, kw = t.args
        if nm in SPARSE_FUN:
            return 'sparse'
        if nm == 'toarray':
            return 'array' if ar and container_kind(ar[0]) != 'array' else None
        if nm == 'todense':
            return 'is a numpy.matrix'
        if nm in ('np.array', 'np.asarray') and ar:
            k = container_kind(ar[0])
            if k == 'sparse':
                return 'wraps a sparse matrix in an object array'
            return 'array' if k in ('array', 'is a numpy.matrix') else None
        if nm == 'np.asmatrix' or nm == 'np.matrix':
            return 'is a numpy.matrix'
        if nm in DENSE_FUN or nm in ('add', 'mul', 'sub', 'div', 'T') and all(container_kind(a) in ('array',) or isk(a) for a in ar[:1]):
            return 'array'
        if nm in ('copy', 'T') and ar:
            return container_kind(ar[0])
        return None
    if t.op == 'call' and jac_of(t) is not None:
        return 'array'
    if t.op == 'sub':
        return container_kind(t.args[0])
    return None


def jac_of(t):
    """(differentiated function, point) of autograd.jacobian(f)(x)."""
    if t.op != 'call':
        return None
    f, args, kw = t.args[0], t.args[1], t.args[2]
    if f.op == 'app' and f.args[0] in ('autograd.jacobian',) and len(f.args[1]) == 1 and not f.args[2] and len(args) == 1 and not kw:
        return f.args[1][0], args[0]
    return None


def content(t):
    while t.op == 'app' and t.args[0] in WRAP and t.args[1]:
        t = t.args[1][0]
    return t


def flipped(t):
    n = 0
    while True:
        t = content(t)
        if t.op == 'app' and t.args[0] == 'T' and len(t.args[1]) == 1:
            t, n = t.args[1][0], 1 - n
        else:
            return t, n


def p21(S, rep, tier):
    M = S.M
    rep.rule('type', 'a sparse Jacobian is a scipy sparse matrix, a dense one a numpy array')
    rep.rule('value', 'the Jacobian holds the partial derivatives of the transform at the given value')
    rep.rule('determinant', 'the log determinant is that of the Jacobian')
    M.I.inline_prims = True
    try:
        for label in S.LABELS:
            inst = S.make(label)
            for op in ('freeing_jacobian', 'unfreeing_jacobian'):
                w = where_method(M, inst, op)
                for sp in (TRUE, FALSE):
                    o = M.call(inst, op, [FO, sp])
                    cons = '%s %s.%s(sparse=%s)' % (label, inst.name, op, kval(sp))
                    types(rep, cons, o, sp is TRUE, w)
                    if label in NUM:
                        diagonal(M, rep, cons, o, inst, label, op, w)
                    elif label == 'simplex':
                        blocks(M, rep, cons, o, inst, op, w)
                    elif label == 'psd':
                        traced(M, rep, cons, o, inst, op, w)
                if label in NUM:
                    logdet(M, rep, inst, label, op)
    finally:
        M.I.inline_prims = False
    containers(S, Part(rep, {'jacobian-order': 'members'}))
    rep.rule('members', "a container's Jacobian is block diagonal in its members' Jacobians, its log determinant their sum")


def types(rep, cons, o, sparse, w):
    if not o.guard:
        if clean_out(o):
            return rep.bad('type', cons, 'always raises %s' % sorted({r.exc for r in o.raises}), w)
        return rep.unsure('type', cons, 'not analysed', w)
    ks = {container_kind(l) for _, l in leaves(o.value)}
    want = 'sparse' if sparse else 'array'
    wrong = {k for k in ks if k not in (want, None)}
    if wrong:
        rep.bad('type', cons, 'the result %s' % '; '.join(
            {'sparse': 'is sparse', 'array': 'is a dense array'}.get(k, k) for k in sorted(wrong)), w)
    elif None in ks or not clean(o.guard) and False:
        rep.unsure('type', cons, show(o.value)[:200], w)
    else:
        rep.ok('type', cons, where=w)


# ------------------------------------------------------------- numeric arrays
def transform_ll(M, inst, label):
    """flatten(z, free=True) as an expression of one element z."""
    make, fv, fo = evaluator(M, inst, label)
    o = M.call(inst, 'flatten', [FO, TRUE, FALSE])
    r = list(results(o, make))
    if len(r) != 1 or isinstance(r[0][2], Exception) or not clean_out(o):
        raise Unsupported('flatten not in closed form')
    return r[0][2]


def wanted(M, inst, label, op):
    z = transform_ll(M, inst, label)
    d = z.parts[''].diff(FO)
    return d if op == 'freeing_jacobian' else d.inv()


def diag_entries(t, ev):
    """LL of the diagonal entries of a diagonal matrix term."""
    t = content(t)
    if t.op == 'app':
        nm, ar, kw = t.args
        kw = dict(kw)
        if nm in ('np.diag', 'scipy.sparse.diags', 'np.diagflat', 'scipy.sparse.diags_array', 'np.make_diagonal'):
            k = kw.get('k', kw.get('offsets', kw.get('offset', ar[1] if len(ar) > 1 else None)))
            if k is not None and not (isk(k) and kval(k) == 0):
                e = simple_elems(k)
                if e is None or len(e) != 1 or not (isk(e[0]) and kval(e[0]) == 0):
                    if isk(k):
                        raise Wrong('entries are off the diagonal (%s)' % show(k))
                    raise Unsupported('offset %s' % show(k))
            x = ar[0]
            e = simple_elems(x)
            if e is not None and len(e) == 1 and nm.startswith('scipy'):
                x = e[0]
            v = ev.ev(x)
            if v.kind == 'ef' and AL.patoms(v.parts[''].r.n) | AL.patoms(v.parts[''].r.d):
                raise Wrong('the entries are in column-major order')
            return v.parts['']
        if nm in ('np.eye', 'np.identity', 'scipy.sparse.eye', 'scipy.sparse.identity') and len(ar) == 1:
            return AL.num(1)
        if nm in ('mul', 'add', 'sub') and len(ar) == 2 and nm == 'mul':
            for a, b in (ar, ar[::-1]):
                if isk(a):
                    return diag_entries(b, ev).mul(ev.ev(a).parts[''])
    raise Unsupported(show(t)[:120])


def decide(rep, rule, cons, w, cases):
    """cases: iterable of (verdict, text)."""
    bad = [m for v, m in cases if v is False]
    unclear = [m for v, m in cases if v is None]
    if bad:
        rep.bad(rule, cons, '; '.join(bad)[:800], w)
    elif unclear or not cases:
        rep.unsure(rule, cons, '; '.join(unclear)[:600], w)
    else:
        rep.ok(rule, cons, where=w)


def diagonal(M, rep, cons, o, inst, label, op, w):
    if not o.guard:
        return
    make, fv, fo = evaluator(M, inst, label)
    cases = []
    try:
        want = wanted(M, inst, label, op)
    except Unsupported as e:
        return rep.unsure('value', cons, str(e), w)
    if not clean_out(o):
        return rep.unsure('value', cons, show(o.value)[:200], w)
    for g, l in leaves(o.value):
        for ch, got, ev in branches(make, l, diag_entries):
            at = ''.join(' when %s is %s' % (show(x.args[1][0])[:80], bool(c)) for x, c in ch.items())
            if isinstance(got, Exception):
                cases.append((False if isinstance(got, Wrong) and (not ch or open_choice(ch)) else None, str(got) + at))
                continue
            q = got.equal(want)
            cases.append((q if q is not False or open_choice(ch) else None, 'entry is %s instead of %s%s' % (got.show(), want.show(), at)))
    decide(rep, 'value', cons, w, cases)


def sum_form(t, ev, sign=1):
    """LL of the summand when t is a sum over the elements."""
    if t.op == 'app':
        nm, ar, kw = t.args
        if nm == 'np.sum' and 1 <= len(ar) <= 2 and set(dict(kw)) <= {'axis', 'keepdims'}:
            ax = dict(kw).get('axis', ar[1] if len(ar) > 1 else NONE)
            v = ev.ev(ar[0]).parts['']
            if ax is NONE and not kw:
                return v
            if isk(ax) and isinstance(kval(ax), int) and set(dict(kw)) <= {'axis'}:
                if ev.rank1 or any(x.op == 'app' and x.args[0] in FLATTEN | {'np.reshape'} for x in walk(ar[0])):
                    if kval(ax) in (0, -1) and (ev.rank1 or outer_flat(ar[0])):
                        return v
                else:
                    raise Wrong('an array of two dimensions is summed over axis %s only' % show(ax))
        if nm == 'np.log' and len(ar) == 1:
            x = ar[0]
            while x.op == 'app' and x.args[0] in ('np.abs', 'np.absolute', 'np.fabs'):
                x = x.args[1][0]
            if x.op == 'app' and x.args[0] == 'np.prod' and len(x.args[1]) == 1 and not x.args[2]:
                return ev.ev(x.args[1][0]).parts[''].log()
            if x.op == 'app' and x.args[0] == 'np.sum':
                raise Wrong('takes the logarithm of the sum of the diagonal')
        if nm in ('neg',):
            return sum_form(ar[0], ev).scale(AL.Fraction(-1))
        if nm == 'mul' and len(ar) == 2:
            for a, b in (ar, ar[::-1]):
                if isk(a) and isinstance(kval(a), (int, float)):
                    return sum_form(b, ev).scale(AL.Fraction(kval(a)))
        if nm in ('add', 'sub') and len(ar) == 2:
            return sum_form(ar[0], ev) + sum_form(ar[1], ev).scale(AL.Fraction(1 if nm == 'add' else -1))
    raise Unsupported(show(t)[:120])


def outer_flat(t):
    while t.op == 'app' and t.args[0] in ('np.log', 'np.abs', 'np.absolute', 'neg') and t.args[1]:
        t = t.args[1][0]
    return t.op == 'app' and t.args[0] in FLATTEN


class LogEv(Ev):
    """log|x| is read as log x up to the sign of x."""

    def f_np_log(self, t, ar, kw):
        x = ar[0]
        if x.op == 'app' and x.args[0] in ('np.abs', 'np.absolute', 'np.fabs'):
            v = self.ev(x.args[1][0])
            return V(v.kind, {p: q.log() for p, q in v.parts.items()})


def logdet(M, rep, inst, label, jac):
    op = 'log_abs_det_' + jac
    if not M.has_method(inst.cls, op):
        return
    w = where_method(M, inst, op)
    cons = '%s %s.%s' % (label, inst.name, op)
    o = M.call(inst, op, [FO])
    if not clean_out(o) or not o.guard:
        return rep.unsure('determinant', cons, show(o.value)[:200], w)
    make, fv, fo = evaluator(M, inst, label)
    try:
        want = wanted(M, inst, label, jac).log()
    except Unsupported as e:
        return rep.unsure('determinant', cons, str(e), w)
    cases = []
    def logev(ch):
        e = make(ch)
        r = LogEv(e.leaves, choice=ch)
        r.rank1 = e.rank1
        return r
    for g, l in leaves(o.value):
        for ch, got, ev in branches(logev, l, sum_form):
            at = ''.join(' when %s is %s' % (show(x.args[1][0])[:80], bool(c)) for x, c in ch.items())
            if isinstance(got, Exception):
                cases.append((False if isinstance(got, Wrong) and (not ch or open_choice(ch)) else None, str(got) + at))
                continue
            q = got.equal(want, True)
            cases.append((q if q is not False or open_choice(ch) else None, 'summand is %s instead of %s%s' % (got.show(), want.show(), at)))
    decide(rep, 'determinant', cons, w, cases)


# ----------------------------------------------------------------- simplices
def rename(l, m):
    """Replace atoms (terms) in an expression."""
    if l.logs:
        raise Unsupported('logarithm in a Jacobian')

    def poly(p):
        out = AL.rc(0)
        for mono, c in p.items():
            r = AL.rc(c)
            for a, e in mono:
                o = AL.aobj(a)
                if isinstance(o, tuple):
                    raise Unsupported('%s in a Jacobian' % o[0])
                r = r * m.get(o, AL.ra(o)).pow(e)
            out = out + r
        return out
    return LL(poly(l.r.n) / poly(l.r.d), [], l.exact)


X0, XP, XI, XJ = sym('p0'), sym('p'), sym('p_i'), sym('p_j')


def as_i(l):
    return rename(l, {XP: AL.ra(XI)})


def as_j(l):
    return rename(l, {XP: AL.ra(XJ)})


class MatEv(Ev):
    """Vectors over one simplex and matrices indexed by two of its entries:
    kind 'M', parts {(row class, column class): expression} with classes '0',
    '+' (entries p_i, p_j) or '1' (length one), and '=' for the diagonal of
    the (+, +) block."""
    vec = True

    def length(self, v):
        def fix(t):
            if t.op == 'app' and t.args[0] in ('len', 'np.size') and len(t.args[1]) == 1:
                x = t.args[1][0]
            elif t.op == 'sub' and t.args[0].op == 'app' and t.args[0].args[0] == 'np.shape' and isk(t.args[1]) and kval(t.args[1]) in (0, -1):
                x = t.args[0].args[1][0]
            else:
                if t.op == 'app' and t.args[0] in ('add', 'sub') and not t.args[2]:
                    return app(t.args[0], tuple(fix(y) for y in t.args[1]))
                return t
            k = self.ev(x).kind
            return self.n if k == 'full' else app('sub', (self.n, K(1))) if k == 'free' else t
        return super().length(fix(v))

    def shape_end(self, shp):
        e = simple_elems(shp)
        return self.length(e[0]) if e and len(e) == 1 else None

    def filledwith(self, shp, val):
        e = simple_elems(shp) if shp.op == 'tuple' else None
        if e is not None and len(e) == 2:
            v = self.ev(val) if isinstance(val, T) else V('c', {'': AL.num(val)})
            v = V('c', {'': v.parts['r']}) if v.kind in ('row', 'col') else v
            ks = [{'n': '0+', 'free': '+', '1': '1'}.get(self.length(x)) for x in e]
            if v.kind == 'c' and None not in ks:
                return self.matrix(ks[0], ks[1], lambda r, c: v.parts[''], v.parts[''])
        return super().filledwith(shp, val)

    def matrix(self, rows, cols, f, eq=None):
        parts = {(r, c): f(r, c) for r in rows for c in cols}
        if '+' in rows and '+' in cols:
            parts['='] = eq
        return V('M', parts)

    def rows(self, v):
        return ''.join(sorted({k[0] for k in v.parts if k != '='}, reverse=True))

    def cols(self, v):
        return ''.join(sorted({k[1] for k in v.parts if k != '='}, reverse=True))

    def cls(self, v):
        return ''.join(sorted(v.parts, reverse=True))

    def pick(self, v, x, i):
        r = super().pick(v, x, i)
        return V('c', {'': r.parts['r']}) if r.kind == 'row' else r

    def reduce(self, t, ar, kw):
        v, k = super().reduce(t, ar, kw)
        return v, k

    def pointwise(self, t, nm, ar, kw):
        vs = [self.ev(a) for a in ar]
        vs = [V('c', {'': v.parts['r']}) if v.kind in ('row', 'col') else v for v in vs]
        if any(v.kind == 'M' for v in vs):
            return self.mpoint(t, nm, vs)
        return self.vpoint(t, nm, vs)

    def vpoint(self, t, nm, vs):
        kind = self.join(vs, t)
        ph = [sym('@%d' % i) for i in range(len(vs))]
        skel = mk('app', nm, tuple(ph), t.args[2])
        names = [''] if kind == 'c' else list(next(v for v in vs if v.kind == kind).parts)
        out = {}
        for p in names:
            env = {h: v.parts[p] if v.kind == kind else v.parts[''] for h, v in zip(ph, vs)}
            out[p] = AL.elementwise(skel, lambda y: env.get(y))
        return V(kind, out)

    def mpoint(self, t, nm, vs):
        ph = [sym('@%d' % i) for i in range(len(vs))]
        skel = mk('app', nm, tuple(ph), t.args[2])
        ms = [v if v.kind == 'M' else self.rowvec(v) if v.kind in ('full', 'free') else v for v in vs]
        rows = {self.rows(v) for v in ms if v.kind == 'M'}
        cols = {self.cols(v) for v in ms if v.kind == 'M'}
        if len(rows - {'1'}) > 1 or len(cols - {'1'}) > 1:
            raise Wrong('combines matrices of different shapes: %s' % show(t)[:120])
        R, C = (next(iter(s - {'1'}), '1') for s in (rows, cols))

        def entry(k, r, c):
            env = {}
            for h, v in zip(ph, ms):
                if v.kind != 'M':
                    env[h] = v.parts['']
                    continue
                rr, cc = ('1' if self.rows(v) == '1' else r), ('1' if self.cols(v) == '1' else c)
                if k and (rr, cc) == ('+', '+'):
                    env[h] = v.parts['=']
                else:
                    x = v.parts[(rr, cc)]
                    env[h] = rename(x, {XJ: AL.ra(XI)}) if k else x
            return AL.elementwise(skel, lambda y: env.get(y))
        return self.matrix(R, C, lambda r, c: entry(False, r, c), entry(True, '+', '+') if '+' in R and '+' in C else None)

    def rowvec(self, v):
        return self.matrix('1', self.cls(v), lambda r, c: as_j(v.parts[c]))

    def colvec(self, v):
        return self.matrix(self.cls(v), '1', lambda r, c: as_i(v.parts[r]))

    def f_np_outer(self, t, ar, kw):
        a, b = self.ev(ar[0]), self.ev(ar[1])
        if a.kind not in ('full', 'free') or b.kind not in ('full', 'free'):
            raise Unsupported('outer')
        return self.matrix(self.cls(a), self.cls(b), lambda r, c: as_i(a.parts[r]).mul(as_j(b.parts[c])),
                           as_i(a.parts['+']).mul(as_i(b.parts['+'])))

    def f_np_diag(self, t, ar, kw):
        if len(ar) > 1 and not (isk(ar[1]) and kval(ar[1]) == 0) or kw and not all(isk(v) and kval(v) == 0 for v in kw.values()):
            raise Wrong('another diagonal: %s' % show(t)[:80])
        v = self.ev(ar[0])
        if v.kind not in ('full', 'free'):
            raise Unsupported('diag of %s' % v.kind)
        k = self.cls(v)
        return self.matrix(k, k, lambda r, c: v.parts['0'] if r == c == '0' else ZERO, as_i(v.parts['+']))

    f_np_diagflat = f_np_diag

    def f_np_make_diagonal(self, t, ar, kw):
        return self.f_np_diag(t, ar, {k: v for k, v in kw.items() if k == 'offset'})

    def f_np_eye(self, t, ar, kw):
        n = self.length(ar[0]) if len(ar) == 1 else None
        if n not in ('n', 'free'):
            raise Unsupported('eye')
        k = '0+' if n == 'n' else '+'
        return self.matrix(k, k, lambda r, c: ONE if r == c == '0' else ZERO, ONE)

    f_np_identity = f_np_eye

    def f_T(self, t, ar, kw):
        v = self.ev(ar[0])
        if v.kind in ('full', 'free'):
            return v
        if v.kind != 'M':
            raise Unsupported('transpose')
        sw = lambda l: rename(l, {XI: AL.ra(XJ), XJ: AL.ra(XI)})
        return V('M', {(k if k == '=' else (k[1], k[0])): (l if k == '=' else sw(l)) for k, l in v.parts.items()})

    def reshape(self, t, nm, ar, kw):
        v = self.ev(ar[0])
        if nm == 'np.reshape' and v.kind in ('full', 'free'):
            e = simple_elems(ar[1])
            if e is not None and len(e) == 2 and isk(e[1]) and kval(e[1]) == 1:
                return self.colvec(v)
            if e is not None and len(e) == 2 and isk(e[0]) and kval(e[0]) == 1:
                return self.rowvec(v)
        return super().reshape(t, nm, ar, kw)

    def f_np_expand_dims(self, t, ar, kw):
        v = self.ev(ar[0])
        a = self.axis(ar, kw, 1, 'expand_dims')
        if v.kind in ('full', 'free'):
            return self.colvec(v) if a in (1, -1) else self.rowvec(v)
        raise Unsupported('expand_dims')

    def index(self, t):
        b, i = t.args
        v = self.ev(b)
        e = simple_elems(i) if i.op == 'tuple' else [i]
        if e is None:
            raise Unsupported('index')
        if v.kind in ('full', 'free') and len(e) == 2:
            if e[1] is NONE and none_slice(e[0]):
                return self.colvec(v)
            if e[0] is NONE and none_slice(e[1]):
                return self.rowvec(v)
        if v.kind in ('full', 'free') and len(e) == 1 and e[0] is NONE:
            return self.rowvec(v)
        if v.kind == 'M':
            if isk(e[0]) and kval(e[0]) is Ellipsis and len(e) == 2:
                e = [mk('slice', NONE, NONE, NONE), e[1]]
            if len(e) == 1:
                e = e + [mk('slice', NONE, NONE, NONE)]
            if len(e) == 2:
                ks = set(v.parts)
                for pos, x in enumerate(e):
                    if none_slice(x):
                        continue
                    have = self.rows(v) if pos == 0 else self.cols(v)
                    if x.op == 'slice' and kint(x.args[0]) == 1 and x.args[1] is NONE and have == '0+':
                        ks = {k for k in ks if k == '=' or k[pos] != '0'}
                    elif x.op == 'slice' and (kint(x.args[1]) == -1 or kint(x.args[0], 0) not in (0, 1) or have != '0+' and x.args[0] is not NONE):
                        raise Wrong('drops the wrong entries: %s' % show(i))
                    else:
                        raise Unsupported('index %s' % show(i))
                return V('M', {k: v.parts[k] for k in v.parts if k in ks})
            raise Unsupported('index %s' % show(i)[:60])
        return super().index(t)

    def join2(self, e, horizontal):
        vs = [self.ev(y) for y in e]
        if len(vs) != 2:
            raise Unsupported('stack')
        if not horizontal:
            vs = [self.rowvec(v) if v.kind in ('full', 'free') else v for v in vs]
        if any(v.kind != 'M' for v in vs):
            raise Unsupported('stack')
        a, b = vs
        along, other = (self.cols, self.rows) if horizontal else (self.rows, self.cols)
        if other(a) != other(b):
            raise Wrong('stacks blocks of different shapes')
        if (along(a), along(b)) == ('1', '+'):
            ren = lambda k: (k[0], '0') if horizontal else ('0', k[1])
            parts = dict(b.parts)
            parts.update({ren(k): l for k, l in a.parts.items()})
            return V('M', parts)
        if (along(a), along(b)) == ('+', '1'):
            raise Wrong('puts the reference entry last')
        raise Unsupported('stack')

    def f_np_hstack(self, t, ar, kw):
        e = simple_elems(ar[0])
        if e and all(self.ev(y).kind == 'M' for y in e):
            return self.join2(e, True)
        return super().f_np_hstack(t, ar, kw)

    def f_np_column_stack(self, t, ar, kw):
        e = simple_elems(ar[0])
        if e is None:
            raise Unsupported('column_stack')
        vs = []
        for y in e:
            v = self.ev(y)
            if v.kind in ('full', 'free'):
                v = self.colvec(v)
            s = sym('@m%d' % len(vs))
            self.leaves[s] = v
            vs.append(s)
        return self.join2(vs, True)

    def f_np_vstack(self, t, ar, kw):
        return self.join2(simple_elems(ar[0]) or [], False)

    def f_np_concatenate(self, t, ar, kw):
        e = simple_elems(ar[0]) or []
        if e and all(self.ev(y).kind == 'M' for y in e):
            a = self.axis(ar, kw, 1, 'concatenate') if (len(ar) > 1 or 'axis' in kw) else 0
            return self.join2(e, a in (1, -1))
        return super().f_np_concatenate(t, ar, kw)

    def f_matmul(self, t, ar, kw):
        a, b = self.ev(ar[0]), self.ev(ar[1])
        # a diagonal factor scales rows or columns
        if a.kind == 'M' and b.kind == 'M':
            if self.cols(a) != self.rows(b):
                raise Wrong('multiplies matrices of different shapes')
            dg = lambda m: self.rows(m) == self.cols(m) and all(l.equal(ZERO) for k, l in m.parts.items() if k != '=' and (k[0] != k[1] or k[0] == '+'))
            if dg(a):
                f = lambda k: a.parts['='] if k == '=' or k[0] == '+' else a.parts[('0', '0')]
                return V('M', {k: f(k).mul(l) for k, l in b.parts.items()})
            if dg(b):
                f = lambda k: b.parts['='] if k == '=' else as_j(rename(b.parts['='], {XI: AL.ra(XJ)})) if k[1] == '+' else b.parts[('0', '0')]
                return V('M', {k: f(k).mul(l) for k, l in a.parts.items()})
            if self.cols(a) == '1':
                return self.mpoint(mk('app', 'mul', (ar[0], ar[1]), ()), 'mul', [a, b])
        raise Unsupported('product')

    f_np_dot = f_matmul


def simplex_leaf(t, io, n):
    """Does t pick one simplex of the folded value, by the loop index?"""
    if t.op != 'sub' or not contains(t.args[1], io) and t.args[1] is not io:
        return False
    b, i = t.args
    if b is FO:
        return i.op == 'sub' and i.args[1] is io and i.args[0].op in ('app', 'ndindex')
    if b.op == 'app' and b.args[0] in ('np.flatten', 'np.ravel') and b.args[1][0] is FO and not b.args[2] and i.op == 'slice':
        lo = AL.pmul(AL.patom(io), AL.poly(n))
        return i.args[2] is NONE and AL.poly(i.args[0]) == lo and AL.poly(i.args[1]) == AL.padd(lo, AL.poly(n))
    return False


def log_ratio_flatten(M, inst):
    """flatten is log(p / p0) entry by entry."""
    make, fv, fo = evaluator(M, inst, 'simplex')
    o = M.call(inst, 'flatten', [FO, TRUE, FALSE])
    r = [v for g, ch, v, ev in results(o, make)] if clean_out(o) and o.guard else []
    want = LL(AL.ra(XP)).log() - LL(AL.ra(X0)).log()
    return len(r) == 1 and isinstance(r[0], V) and r[0].kind == 'free' and r[0].parts['+'].equal(want) is True


def blocks(M, rep, cons, o, inst, op, w):
    if not o.guard:
        return
    if not clean_out(o):
        return rep.unsure('value', cons, show(o.value)[:200], w)
    if not log_ratio_flatten(M, inst):
        return rep.unsure('value', cons, 'the transform is not the log ratio to the first entry', w)
    from .layout import block_list
    i, j, zero = LL(AL.ra(XI)), LL(AL.ra(XJ)), LL(AL.ra(X0))
    if op == 'freeing_jacobian':
        want = {('+', '0'): zero.inv().scale(AL.Fraction(-1)), ('+', '+'): ZERO, '=': i.inv()}
    else:
        neg = lambda a, b: a.mul(b).scale(AL.Fraction(-1))
        want = {('0', '+'): neg(zero, j), ('+', '+'): neg(i, j), '=': i + neg(i, i)}
    cases = []
    for g, l in leaves(o.value):
        m = block_list(l)
        if m is None or m.op != 'map':
            cases.append((None, show(l)[:200]))
            continue
        d, io, body, flt = m.args
        if (flt if isinstance(flt, int) else flt.args[0]) != 1:
            cases.append((None, 'some blocks are left out'))
            continue
        lv = {t: V('full', {'0': zero, '+': LL(AL.ra(XP))}) for t in walk(body) if simplex_leaf(t, io, simplex_size(M, inst))}
        ev = MatEv(lv, n=simplex_size(M, inst))
        ev.indexed, ev.totals = {XP}, {XP: LL(AL.rc(1) - AL.ra(X0))}
        try:
            v = ev.ev(content(body))
            if v.kind != 'M':
                raise Unsupported(v.show()[:100])
            if set(v.parts) != set(want):
                cases.append((False, 'the blocks have rows %s and columns %s of the simplex instead of %s' % (
                    ev.rows(v), ev.cols(v), sorted(k for k in want if k != '='))))
                continue
            for k in want:
                e = v.parts[k].equal(want[k])
                cases.append((e, 'entry %s is %s instead of %s' % (
                    'on the diagonal' if k == '=' else str(k), v.parts[k].show(), want[k].show())))
        except Wrong as e:
            cases.append((False, str(e)))
        except (Unsupported, NeedChoice) as e:
            cases.append((None, str(e)))
    decide(rep, 'value', cons, w, cases)


# ------------------------------------------------- differentiated transforms
def traced(M, rep, cons, o, inst, op, w):
    if not o.guard:
        return
    if not clean_out(o):
        return rep.unsure('value', cons, show(o.value)[:200], w)
    to_free = op == 'freeing_jacobian'
    v = sym('v', 'vec', 'nonnone')
    ref = {}
    for dirn in (True, False):
        a = M.call(inst, 'fold', [v, K(not dirn), FALSE])
        ref[dirn] = M.call(inst, 'flatten', [a.raw, K(dirn), FALSE], {}, a.store, a.guard).value
    at = {f: M.call(inst, 'flatten', [FO, K(f), FALSE]).value for f in (True, False)}
    cases = []
    for g, l in leaves(o.value):
        l, flips = flipped(l)
        j = jac_of(l)
        if j is not None and flips:
            cases.append((False, 'is the transposed Jacobian'))
        if j is None:
            cases.append((None, show(l)[:200]))
            continue
        f, x = j
        r = M.relative(M.run(f, [v], {}, o.store, inst.assume), inst.assume)
        if not clean_out(r) or not r.guard:
            cases.append((None, 'the differentiated function'))
            continue
        if r.value is ref[to_free]:
            cases.append((True, ''))
        elif r.value is ref[not to_free]:
            cases.append((False, 'differentiates the transform in the other direction'))
        elif strip_plain(r.value)[0] is v:
            cases.append((False, 'differentiates the identity'))
        else:
            cases.append((None, 'differentiates %s' % show(r.value)[:200]))
        if x is at[not to_free]:
            cases.append((True, ''))
        elif x is at[to_free]:
            cases.append((False, 'is evaluated at the %s vector' % ('free' if to_free else 'non-free')))
        else:
            cases.append((None, 'is evaluated at %s' % show(x)[:200]))
    decide(rep, 'value', cons, w, cases)
