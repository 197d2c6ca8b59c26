"""P17: registered derivative rules match the functions they belong to."""
from ..suite import *
from .. import algebra as AL
from ..words import Words, letter, wmul, winv, wscale, wT, wtrace, wshow, wadd
from .. import words as WD
from .fnrules import FUN
from .optrules import where_func_t, strip_mm
from .effects import where_prim

AG = 'autograd.core.'


class Rules:
    """Registrations found in events: {(function, mode, argument): rule}."""

    def __init__(self, events, base=1):
        self.table, self.unclear = {}, []
        for e in events:
            if e.name not in (AG + 'defjvp', AG + 'defvjp', AG + 'defvjp_argnum', AG + 'deflinear'):
                continue
            if not implies(base, e.guard) or e.loops or e.name.endswith(('_argnum', 'deflinear')):
                self.unclear.append(e)
                continue
            nk = len(e.kw)
            rules = list(e.data[1:len(e.data) - nk] if nk else e.data[1:])
            nums = range(len(rules))
            if 'argnums' in e.kw:
                a = simple_elems(e.kw['argnums'])
                if a is None or not all(isk(x) for x in a):
                    self.unclear.append(e)
                    continue
                nums = [kval(x) for x in a]
            for i, r in zip(nums, rules):
                self.table[(e.data[0], e.name[len(AG):], i)] = (r, e)

    def get(self, f, mode, i):
        return self.table.get((f, mode, i))


def p17(S, rep, tier):
    M = S.M
    rep.rule('registered', 'the function has the derivative rule')
    rep.rule('forward', 'the forward rule applied to a tangent is the directional derivative')
    rep.rule('reverse', 'the reverse rule is the adjoint of the derivative')
    M.I.inline_prims = True
    try:
        R = Rules(M.I.module_events)
        special(M, rep, R)
        matrices(M, rep, R)
        sums(M, rep, R)
        replacing(M, rep, R)
        ldmat(M, rep, R)
        products(M, rep)
        solvers(M, rep)
    finally:
        M.I.inline_prims = False


def find(rep, R, f, mode, i, cons):
    r = R.get(f, mode, i)
    if r is None or r[0] is NONE:
        if R.unclear or f.op == 'gam':
            rep.unsure('registered', cons, 'registrations that could not be resolved')
        else:
            rep.bad('registered', cons, 'no %s rule for argument %d' % ({'defjvp': 'forward', 'defvjp': 'reverse'}[mode], i))
        return None
    rep.ok('registered', cons, where=r[1].where())
    return r[0]


def jvp(M, rule, g, ans, args):
    return M.run(rule, [g, ans] + list(args))


def vjp(M, rule, g, ans, args):
    o = M.run(rule, [ans] + list(args))
    if o.guard == 0:
        return o
    return M.run(o.raw, [g], {}, o.store, o.guard)


def judge(rep, rule, cons, o, test, w):
    """test(term) -> None when it is the wanted value, False when unclear,
    text saying what is wrong otherwise."""
    if not clean_out(o):
        return rep.unsure(rule, cons, show(o.value)[:300], w)
    if o.guard == 0:
        return rep.bad(rule, cons, 'always raises %s' % sorted({r.exc for r in o.raises}), w)
    bad, unclear = [], []
    for g, l in leaves(o.value):
        try:
            r = test(l, g)
        except (AL.Unsupported, WD.Unsupported) as e:
            r = False
            unclear.append(str(e))
        except WD.Wrong as e:
            r = str(e)
        if r is False:
            unclear.append(show(l)[:200])
        elif r:
            bad.append('%s%s' % (r, '' if g == 1 else ' (when %s)' % bshow(g)[:200]))
    if bad:
        rep.bad(rule, cons, '; '.join(bad), w)
    elif unclear:
        rep.unsure(rule, cons, '; '.join(unclear)[:600], w)
    else:
        rep.ok(rule, cons, where=w)


# ------------------------------------------------------ special functions
SP_ = 'scipy.special.'
ALIAS = {SP_ + 'psi', SP_ + 'digamma'}


def ext_of(name):
    return mk('ext', 'autograd.scipy.special.' + name)


def call_sp(name, *a):
    return app(SP_ + name, a)


def spcanon(t, extra):
    """LL of an expression in special functions."""
    def leaf(y):
        if y in extra:
            return extra[y]
        if y.op == 'app' and y.args[0].startswith(SP_):
            nm, ar = y.args[0], y.args[1]
            if nm in ALIAS and len(ar) == 1:
                return atom_sp('polygamma', AL.num(0), spcanon(ar[0], extra))
            if nm == SP_ + 'polygamma' and len(ar) == 2:
                return atom_sp('polygamma', spcanon(ar[0], extra), spcanon(ar[1], extra))
            if nm == SP_ + 'rgamma':
                return atom_sp('gamma', spcanon(ar[0], extra)).inv()
            if nm in (SP_ + 'gamma', SP_ + 'gammaln', SP_ + 'gammasgn'):
                return atom_sp(nm[len(SP_):], spcanon(ar[0], extra))
            return None
        if y.op == 'app' and y.args[0] == 'np.abs' and len(y.args[1]) == 1 and not has_app(y, SP_ + 'gammasgn'):
            v = strip1d(y.args[1][0])
            if v.op == 'app' and v.args[0] in TWO_SIGNS or v.op == 'sym' and not v.args[1:2] == ('special',):
                return atom_sp('abs', spcanon(v, extra))
        if y.op == 'sym':
            return AL.LL(AL.ra(y))
        return None
    if has_app(t, SP_ + 'gammasgn') and has_app(t, 'np.abs'):
        raise AL.Unsupported('sign of the gamma function')
    return AL.elementwise(t, leaf)


# functions that are positive at some points and negative at others
TWO_SIGNS = {SP_ + x for x in ('gamma', 'rgamma', 'psi', 'digamma', 'gammaln')}


def has_app(t, name):
    return any(y.op == 'app' and y.args[0] == name for y in walk(t))


_spa = {}


def atom_sp(name, *a):
    key = (name,) + tuple(x.show() for x in a)
    for k, (args, v) in _spa.items():
        if k[0] == name and len(args) == len(a) and all(p.equal(q) for p, q in zip(args, a)):
            return v
    t = sym('%s(%s)' % (name, ', '.join(key[1:])), 'special')
    v = AL.LL(AL.ra(t))
    _spa[key] = (a, v)
    return v


def special(M, rep, R):
    g, x, n = sym('g', 'real', 'nonnone'), sym('x', 'real', 'nonnone'), sym('n', 'int', 'nonnone')
    ans = sym('ans', 'real', 'nonnone')
    table = [('polygamma', 1, (n, x), lambda: call_sp('polygamma', app('add', (n, K(1))), x)),
             ('psi', 0, (x,), lambda: call_sp('polygamma', K(1), x)),
             ('digamma', 0, (x,), lambda: call_sp('polygamma', K(1), x)),
             ('gamma', 0, (x,), lambda: app('mul', (call_sp('gamma', x), call_sp('psi', x)))),
             ('gammaln', 0, (x,), lambda: call_sp('psi', x)),
             ('rgamma', 0, (x,), lambda: app('neg', (app('mul', (call_sp('rgamma', x), call_sp('psi', x))),)))]
    for name, i, args, d in table:
        f = ext_of(name)
        cons = 'forward derivative of %s' % name
        r = find(rep, R, f, 'defjvp', i, cons)
        if r is None:
            continue
        value = spcanon(call_sp(name, *args), {})
        want = spcanon(app('mul', (g, d())), {})
        env = {ans: value}

        def test(l, gd):
            try:
                got = spcanon(l, env)
            except AL.Unsupported:
                if n not in args:
                    raise
                # not read for every order: the first orders
                for k in range(3):
                    l1, a1 = subst(l, {n: K(k)}), subst(app('mul', (g, d())), {n: K(k)})
                    v1 = spcanon(subst(call_sp(name, *args), {n: K(k)}), {})
                    try:
                        if not spcanon(l1, {ans: v1}).equal(spcanon(a1, {})):
                            return 'gives %s instead of %s for the order %d' % (show(l1)[:200], show(a1), k)
                    except AL.Unsupported:
                        pass
                raise
            return None if got.equal(want) else 'gives %s instead of %s' % (show(l)[:200], show(app('mul', (g, d()))))
        judge(rep, 'forward', cons, jvp(M, r, g, ans, args), test, where_rule(M, r))


def where_rule(M, r):
    f = r
    while f is not None and f not in M.I.funcs:
        f = next((a for a in f.args if isinstance(a, T)), None)
    return where_func_t(M, f) if f is not None else None


# ------------------------------------------------------ inv, solve, slogdet
def matrices(M, rep, R):
    LA = 'autograd.numpy.linalg.'
    inv, solve, slogdet = (mk('ext', LA + x) for x in ('inv', 'solve', 'slogdet'))
    for dim, s in ((2, 'mat'), (3, 'nd3')):
        a, g, ans = (sym(x, s, 'nonnone') for x in ('A', 'dA', 'ans'))
        A, G = letter(a), letter(g)
        cons = 'forward derivative of inv, %d dimensions' % dim
        r = find(rep, R, inv, 'defjvp', 0, cons)
        if r is not None:
            env = {a: (A, 'm'), g: (G, 'm'), ans: (winv(A), 'm')}
            want = wscale(wmul(wmul(winv(A), G), winv(A)), -1)
            judge(rep, 'forward', cons, jvp(M, r, g, ans, (a,)), word_test(env, want), where_rule(M, r))
        for bdim, bs, kind in ((dim, s, 'm'), (dim - 1, 'vec' if dim == 2 else 'mat', 'v')):
            b, gb, an = (sym(x, bs, 'nonnone') for x in ('B', 'dB', 'ans'))
            BW = letter(b)
            sol = wmul(winv(A), BW)
            for i, tang, tk, want in ((0, g, 'm', wscale(wmul(wmul(winv(A), G), sol), -1)),
                                      (1, gb, kind, wmul(winv(A), letter(gb)))):
                cons = 'forward derivative of solve in argument %d, dimensions %d and %d' % (i, dim, bdim)
                r = find(rep, R, solve, 'defjvp', i, cons)
                if r is None:
                    continue
                env = {a: (A, 'm'), b: (BW, kind), tang: (letter(tang), tk), an: (sol, kind)}
                judge(rep, 'forward', cons, jvp(M, r, tang, an, (a, b)), word_test(env, want), where_rule(M, r))
    a, g, ans = sym('A', 'mat', 'nonnone'), sym('dA', 'mat', 'nonnone'), sym('ans', 'nonnone')
    cons = 'forward derivative of slogdet'
    r = find(rep, R, slogdet, 'defjvp', 0, cons)
    if r is not None:
        W = Words({a: (letter(a), 'm'), g: (letter(g), 'm')})
        want = wtrace(wmul(winv(letter(a)), letter(g)))

        def test(l, gd):
            e = simple_elems(l)
            if e is None:
                return False
            if len(e) != 2:
                return 'gives %d tangents' % len(e)
            if not (isk(e[0]) and kval(e[0]) == 0):
                s = e[0]
                return False if not isk(s) else 'the sign has derivative %s' % show(s)
            c, t = 1, e[1]
            if t.op == 'app' and t.args[0] == 'neg':
                c, t = -1, t.args[1][0]
            if t.op == 'app' and t.args[0] == 'mul' and sub(ans, K(0)) in t.args[1]:
                return 'multiplies by the sign of the determinant, which is minus one for some matrices: %s' % show(t)
            if t.op == 'app' and t.args[0] == 'np.trace' and len(t.args[1]) == 1 and not t.args[2]:
                p = wtrace(W.ev(t.args[1][0])[0])
                p = wscale(p, c)
            elif t.op == 'app' and t.args[0] == 'np.sum' and len(t.args[1]) == 1 and not t.args[2] and \
                    t.args[1][0].op == 'app' and t.args[1][0].args[0] == 'mul':
                x, y = t.args[1][0].args[1]
                p = wscale(wtrace(wmul(W.ev(x)[0], wT(W.ev(y)[0]))), c)
            else:
                return False
            return None if p == want else 'gives trace(%s) instead of trace(%s)' % (wshow(p), wshow(want))
        judge(rep, 'forward', cons, jvp(M, r, g, ans, (a,)), test, where_rule(M, r))


def word_test(env, want):
    W = Words(env)

    def test(l, gd):
        p, k = W.ev(l)
        return None if p == want else 'gives %s instead of %s' % (wshow(p), wshow(want))
    return test


# ------------------------------------------------------------- grouped_sum
def strip1d(t):
    """Index arrays and values up to conversions that keep their entries."""
    while t.op == 'app' and t.args[0] in ('np.atleast_1d', 'copy', 'np.array', 'np.asarray', 'astype', 'np.squeeze', 'np.flatten', 'np.ravel') \
            and t.args[1]:
        t = t.args[1][0]
    return t


def sums(M, rep, R):
    f = M.glob('autograd_supplement_lib', 'grouped_sum')
    x, v, ans, gr = (sym(n, 'array', 'nonnone') for n in ('x', 'v', 'ans', 'groups'))
    for ng in (NONE, sym('num_groups', 'int', 'nonnone')):
        lab = 'num_groups=None' if ng is NONE else 'num_groups given'
        cons = 'forward derivative of grouped_sum, ' + lab
        r = find(rep, R, f, 'defjvp', 0, cons)
        tail = (x, gr) if ng is NONE else (x, gr, ng)
        if r is not None:
            want = M.run(f, [v, gr, ng])
            o = jvp(M, r, v, ans, tail)
            if want.guard and o.guard and clean(o.value, want.value):
                wl = {l for _, l in leaves(want.value)}

                def test(l, gd):
                    if l in wl:
                        return None
                    return False if not scatter_known(l) else 'gives %s instead of %s' % (show(l)[:300], ' or '.join(show(y)[:300] for y in wl))
                judge(rep, 'forward', cons, o, test, where_rule(M, r))
            else:
                judge(rep, 'forward', cons, o, lambda l, gd: False, where_rule(M, r))
        cons = 'reverse derivative of grouped_sum, ' + lab
        r = find(rep, R, f, 'defvjp', 0, cons)
        if r is not None:
            judge(rep, 'reverse', cons, vjp(M, r, v, ans, tail), lambda l, gd: gather(l, v, gr, x, ng), where_rule(M, r))


def scatter_known(l):
    return not has_op(l, BAD_OPS) and l.op in ('storeadd', 'app', 'sym', 'k')


def gather(l, v, gr, x, ng=NONE):
    """l is v[groups]."""
    if l.op == 'sub' and l.args[0].op == 'sub' and strip1d(l.args[0].args[0]) is v and l.args[0].args[1].op == 'slice' and contains(l.args[1], gr):
        lo, hi, step = l.args[0].args[1].args
        if step is NONE and ng is not NONE:
            from ..algebra import poly_eq
            for c in range(1, 4):
                if isk(lo) and lo is not NONE and kval(lo) == c:
                    return 'selects from a part of the groups: %s' % show(l)
                if poly_eq(hi, app('sub', (ng, K(c)))):
                    return 'leaves out the last groups: %s' % show(l)
            if (lo is NONE or isk(lo) and kval(lo) == 0) and (hi is NONE or hi is ng):
                return gather(sub(v, l.args[1]), v, gr, x, ng)
        return False
    if l.op == 'sub' and strip1d(l.args[0]) is v:
        i = l.args[1]
        e = simple_elems(i) if i.op == 'tuple' else [i]
        if e and strip1d(e[0]) is gr and all(y.op == 'slice' and all(z is NONE for z in y.args) or isk(y) and kval(y) is Ellipsis for y in e[1:]):
            return None
        if e and len(e) > 1 and strip1d(e[0]).op == 'slice' and any(strip1d(y) is gr for y in e[1:]):
            return 'selects along another axis: %s' % show(l)
        if not contains(i, gr):
            return 'does not select by group: %s' % show(l)
        return False
    if l.op == 'app' and l.args[0] == 'np.take' and len(l.args[1]) >= 2 and strip1d(l.args[1][0]) is v and strip1d(l.args[1][1]) is gr:
        ax = dict(l.args[2]).get('axis', l.args[1][2] if len(l.args[1]) > 2 else None)
        return None if ax is not None and isk(ax) and kval(ax) == 0 else False
    if not contains(l, gr) and not has_op(l, BAD_OPS):
        return 'does not depend on the groups: %s' % show(l)[:200]
    return False


# ----------------------------------------------------------------- replace
def at_positions(t, inds, inside):
    """The term giving the entries of t at positions in / not in inds."""
    if t.op == 'store':
        b, i, v = t.args[:3]
        if i.op == 'slice' and all(z is NONE for z in i.args) or isk(i) and kval(i) is Ellipsis:
            return at_positions(v, inds, inside)
        how = positions_of(i, inds)
        if how == 'same' or how in ('reordered', 'set') and zero(at_scalar(v)):
            return at_scalar(v) if inside else at_positions(b, inds, inside)
        if how in ('reordered', 'set', 'part') and not zero(at_scalar(v)):
            raise WD.Wrong('stores %s at %s' % (show(v)[:100], show(i)[:100]))
        if how == 'part' and not zero(at_scalar(at_positions(b, inds, inside))):
            raise WD.Wrong('stores only at %s' % show(i)[:100])
        raise AL.Unsupported(show(i))
    if t.op == 'app':
        nm, ar, kw = t.args
        if nm in ('np.full', 'np.full_like') and len(ar) >= 2:
            return at_scalar(ar[1])
        if nm in ('np.zeros', 'np.zeros_like'):
            return K(0)
        if nm in ('np.ones', 'np.ones_like'):
            return K(1)
        if nm in ('copy', 'np.array', 'np.asarray', 'np.atleast_1d', 'astype') and ar:
            return at_positions(ar[0], inds, inside)
        if nm in ('add', 'sub', 'mul') and len(ar) == 2:
            return app(nm, tuple(at_positions(y, inds, inside) for y in ar))
        if nm == 'neg':
            return app('neg', (at_positions(ar[0], inds, inside),))
    if t.op == 'sym' or isk(t):
        return t
    raise AL.Unsupported(show(t)[:100])


def positions_of(i, inds):
    """'same': the positions themselves; 'reordered'; 'set': without
    repetitions, in order; 'part': some of them; None: not known."""
    if i is inds:
        return 'same'
    if i.op == 'app' and i.args[1]:
        h = positions_of(i.args[1][0], inds)
        if i.args[0] in ('np.asarray', 'np.array', 'copy') and len(i.args[1]) == 1 and not i.args[2]:
            return h
        if i.args[0] in ('np.sort', 'np.flip', 'np.flipud', 'builtins.sorted', 'sorted') and h in ('same', 'reordered'):
            return 'reordered'
        if i.args[0] == 'np.unique' and len(i.args[1]) == 1 and not i.args[2] and h in ('same', 'reordered', 'set'):
            return 'set'
    if i.op == 'sub' and i.args[1].op == 'slice':
        h = positions_of(i.args[0], inds)
        lo, hi, st = (list(i.args[1].args) + [NONE] * 3)[:3]
        if h in ('same', 'reordered', 'set'):
            if lo is NONE and hi is NONE and isk(st) and kval(st) == -1:
                return 'reordered' if h != 'set' else None
            if all(isk(z) for z in (lo, hi, st)) and (st in (NONE, K(1))) and ((lo in (NONE, K(0))) != (hi is NONE)):
                return 'part'
    return None


def at_scalar(v):
    if v.op == 'app' and v.args[0] in ('np.zeros', 'np.zeros_like'):
        return K(0)
    v = strip1d(v)
    if isk(v) and isinstance(kval(v), (int, float)) and kval(v) == 0:
        return K(0)
    return v


def zero(t):
    return isk(t) and isinstance(kval(t), (int, float)) and kval(t) == 0


def replacing(M, rep, R):
    f = M.glob('autograd_supplement_lib', 'replace')
    xs, x, inds, g, ans = (sym(n, s, 'nonnone') for n, s in (('x_sub', 'array'), ('x', 'array'), ('inds', 'array'), ('g', 'array'), ('ans', 'array')))
    o = M.run(f, [xs, x, inds])
    try:
        fw = (at_positions(o.value, inds, True), at_positions(o.value, inds, False)) if o.guard and clean_out(o) else None
    except AL.Unsupported as e:
        fw = None
    except WD.Wrong as e:
        rep.bad('forward', 'replace', str(e), where_prim(M, f))
        fw = ()
    cons = 'replace'
    w = where_prim(M, f)
    if fw is None:
        rep.unsure('forward', cons, show(o.value)[:300], w)
    elif not fw:
        pass
    elif fw[0] is xs and fw[1] is x:
        rep.ok('forward', cons, where=w)
    else:
        rep.bad('forward', cons, 'replaced positions hold %s and the others %s' % (show(fw[0]), show(fw[1])), w)

    def positions(win, wout):
        def test(l, gd):
            i, o_ = at_positions(l, inds, True), at_positions(l, inds, False)
            okv = lambda y, want: y is want or zero(y) and zero(want)
            if okv(i, win) and okv(o_, wout):
                return None
            return 'gives %s at the replaced positions and %s elsewhere, instead of %s and %s' % (
                show(i)[:100], show(o_)[:100], show(win), show(wout))
        return test
    for i, cons, t in ((0, 'forward derivative of replace in the new values', positions(g, K(0))),
                       (1, 'forward derivative of replace in the array', positions(K(0), g))):
        r = find(rep, R, f, 'defjvp', i, cons)
        if r is not None:
            judge(rep, 'forward', cons, jvp(M, r, g, ans, (xs, x, inds)), t, where_rule(M, r))
    cons = 'reverse derivative of replace in the new values'
    r = find(rep, R, f, 'defvjp', 0, cons)

    def picks(l, gd):
        if l.op == 'sub' and strip1d(l.args[0]) is g:
            return None if l.args[1] is inds else ('selects %s' % show(l) if not contains(l.args[1], inds) else False)
        return 'does not depend on the positions: %s' % show(l)[:200] if not contains(l, inds) and not has_op(l, BAD_OPS) else False
    if r is not None:
        judge(rep, 'reverse', cons, vjp(M, r, g, ans, (xs, x, inds)), picks, where_rule(M, r))
    cons = 'reverse derivative of replace in the array'
    r = find(rep, R, f, 'defvjp', 1, cons)
    if r is not None:
        judge(rep, 'reverse', cons, vjp(M, r, g, ans, (xs, x, inds)), positions(K(0), g), where_rule(M, r))


# ------------------------------------------------- lower-triangular matrices
def tri_of(t):
    """(size, array) when t is the pair of indices of a lower triangle."""
    if t.op == 'app' and t.args[0] == 'np.tril_indices' and t.args[1] and not t.args[2] and \
            (len(t.args[1]) == 1 or len(t.args[1]) == 2 and zero(t.args[1][1])):
        return t.args[1][0]
    return None


def strip_int(t):
    while t.op == 'app' and t.args[0] in ('builtins.int', 'np.floor', 'builtins.round') and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


def half(t):
    """Index polynomials with exact halves."""
    t = strip_int(t)
    if t.op == 'app' and t.args[0] in ('div', 'floordiv') and isk(t.args[1][1]):
        return {m: c / AL.Fraction(kval(t.args[1][1])) for m, c in half(t.args[1][0]).items()}
    if t.op == 'app' and t.args[0] in ('add', 'sub') and len(t.args[1]) == 2:
        return AL.padd(half(t.args[1][0]), half(t.args[1][1]), 1 if t.args[0] == 'add' else -1)
    if t.op == 'app' and t.args[0] == 'mul' and len(t.args[1]) == 2:
        return AL.pmul(half(t.args[1][0]), half(t.args[1][1]))
    return AL.poly(t)


def rowmajor(k1, k2):
    a, b = AL.patom(k1), AL.patom(k2)
    h = AL.pmul(a, AL.padd(a, AL.pconst(1)))
    return AL.padd(b, {m: c / 2 for m, c in h.items()})


def as_ld(t):
    """t = lower-triangular matrix filled row by row from a vector: returns
    (vector, size), text of what is different, or None when unclear."""
    if t.op == 'store':
        b, i, v = t.args[:3]
        n = tri_of(i)
        if n is not None and zeros(b):
            return strip1d(v), n
        if i.op == 'app' and i.args[0] == 'np.triu_indices' and zeros(b):
            return 'the upper triangle is filled'
        return None
    if t.op == 'storenest':
        b, d, io, d2, io2, idx, val, flt = t.args
        e = simple_elems(idx) if idx.op == 'tuple' else None
        if not zeros(b) or e is None or len(e) != 2 or val.op != 'sub' or not (flt.op == 'B' and flt.args[0] == 1):
            return None
        n, n2 = range_of(d), range_of(d2)
        if n is None or n2 is None:
            return None
        if e[0] is io2 and e[1] is io:
            return 'entry (row, column) is stored at (column, row)'
        if not (e[0] is io and e[1] is io2):
            return None
        if not AL.poly_eq(n2, app('add', (io, K(1)))):
            return 'row k gets %s entries' % show(n2)
        p = half(val.args[1])
        if any(a not in (io, io2) for a in atoms(p)):
            return None
        if p != rowmajor(io, io2):
            return 'entry (%s, %s) is taken from position %s' % (show(io), show(io2), show(val.args[1]))
        return strip1d(val.args[0]), n
    return None


def atoms(p):
    return {AL.aobj(i) for m in p for i, _ in m}


def range_of(d):
    if d.op == 'dom' and d.args[0].op == 'app' and d.args[0].args[0] == 'range' and len(d.args[0].args[1]) == 1:
        return d.args[0].args[1][0]
    return None


def lincomb(t, g):
    """(a, b) when t = a g + b g'."""
    t = strip1d(t)
    if t is g:
        return AL.Fraction(1), AL.Fraction(0)
    if t.op != 'app':
        return None
    nm, ar, kw = t.args
    if nm == 'T' and len(ar) == 1:
        r = lincomb(ar[0], g)
        return r and (r[1], r[0])
    if nm == 'neg':
        r = lincomb(ar[0], g)
        return r and (-r[0], -r[1])
    if nm in ('add', 'sub') and len(ar) == 2:
        p, q = lincomb(ar[0], g), lincomb(ar[1], g)
        sg = 1 if nm == 'add' else -1
        return p and q and (p[0] + sg * q[0], p[1] + sg * q[1])
    if nm in ('mul', 'div') and len(ar) == 2:
        for c, y in ((ar[0], ar[1]), (ar[1], ar[0])):
            if isk(c) and type(kval(c)) in (int, float) and kval(c) == kval(c) and abs(kval(c)) != INF and (nm == 'mul' or c is ar[1] and kval(c)):
                r = lincomb(y, g)
                v = AL.Fraction(kval(c))
                v = v if nm == 'mul' else 1 / v
                return r and (r[0] * v, r[1] * v)
    return None


def zeros(t):
    return t.op == 'app' and t.args[0] in ('np.zeros', 'np.zeros_like')


def ldmat(M, rep, R):
    f = M.glob('psdmatrix_patterns', '_unvectorize_ld_matrix')
    vec, g, ans = sym('vec', 'vec', 'nonnone'), sym('g', 'vec', 'nonnone'), sym('ans', 'mat', 'nonnone')
    gm = sym('g', 'mat', 'nonnone')

    def lower(v):
        def test(l, gd):
            r = as_ld(l)
            if r is None:
                return False
            if isinstance(r, str):
                return r
            return None if r[0] is v else 'is filled from %s' % show(r[0])[:100]
        return test
    w = where_prim(M, f)
    judge(rep, 'forward', '_unvectorize_ld_matrix', M.run(f, [vec]), lower(vec), w)
    cons = 'forward derivative of _unvectorize_ld_matrix'
    r = find(rep, R, f, 'defjvp', 0, cons)
    if r is not None:
        judge(rep, 'forward', cons, jvp(M, r, g, ans, (vec,)), lower(g), where_rule(M, r))
    cons = 'reverse derivative of _unvectorize_ld_matrix'
    r = find(rep, R, f, 'defvjp', 0, cons)
    if r is not None:
        def picks(l, gd):
            if l.op == 'sub':
                b, i = l.args
                if tri_of(i) is not None:
                    lc = lincomb(b, gm)
                    if lc is not None and strip1d(b) is not gm:
                        return None if lc == (1, 0) else 'reads %s' % show(b)
                    return None if strip1d(b) is gm else ('reads %s' % show(b) if b.op == 'app' and b.args[0] in ('T', 'np.tril', 'np.triu') and b.args[0] != 'np.tril' else False)
                if i.op == 'app' and i.args[0] in ('np.triu_indices', 'np.diag_indices', 'np.tril_indices'):
                    return 'reads positions %s' % show(i)
            return False
        judge(rep, 'reverse', cons, vjp(M, r, gm, ans, (vec,)), picks, where_rule(M, r))


# ------------------------------------------------------- sparse products
def products(M, rep):
    f = M.glob('autograd_supplement_lib', 'get_sparse_product')
    z = sym('z_mat', 'mat', 'nonnone')
    o = M.run(f, [z])
    w = where_func_t(M, f)
    e = pair_elems(o.value)
    if not o.guard or e is None or len(e) != 2:
        return rep.unsure('forward', 'get_sparse_product', show(o.value)[:200], w)
    R = Rules(o.events)
    for bs in ('vec', 'mat'):
        g, ans, b = (sym(n, bs, 'nonnone') for n in ('g', 'ans', 'b'))
        for fn, nm, m, mt in ((e[0], 'Z b', z, app('T', (z,))), (e[1], "Z' b", app('T', (z,)), z)):
            for cons, kind, run, want in (
                    ('product %s' % nm, 'forward', lambda: M.run(fn, [b], {}, o.store), app('matmul', (m, b))),
                    ('forward derivative of the product %s' % nm, 'defjvp', None, app('matmul', (m, g))),
                    ('reverse derivative of the product %s' % nm, 'defvjp', None, app('matmul', (mt, g)))):
                cons += ', ' + {'vec': 'vector', 'mat': 'matrix'}[bs]
                if run is None:
                    r = find(rep, R, fn, kind, 0, cons)
                    if r is None:
                        continue
                    out = jvp2(M, r, g, ans, (b,), o.store) if kind == 'defjvp' else vjp2(M, r, g, ans, (b,), o.store)
                    w = where_rule(M, r)
                else:
                    out = run()
                judge(rep, 'reverse' if kind == 'defvjp' else 'forward', cons, out, product_test(want, z), w)


def product_test(want, z):
    def test(l, gd):
        l = strip_mm(l)
        if l is want:
            return None
        known = all(y.op in ('sym', 'k', 'app') and (y.op != 'app' or y.args[0] in ('matmul', 'T', 'np.dot', 'neg', 'mul', 'add', 'sub'))
                    for y in walk(l))
        return 'gives %s instead of %s' % (show(l)[:200], show(want)) if known else False
    return test


def jvp2(M, rule, g, ans, args, store):
    return M.run(rule, [g, ans] + list(args), {}, store)


def vjp2(M, rule, g, ans, args, store):
    o = M.run(rule, [ans] + list(args), {}, store)
    return o if o.guard == 0 else M.run(o.raw, [g], {}, o.store, o.guard)


def solvers(M, rep):
    f = M.glob('autograd_supplement_lib', 'get_differentiable_solver')
    zs, zts = sym('z_solve', 'nonnone', 'callable'), sym('zt_solve', 'nonnone', 'callable')
    o = M.run(f, [zs, zts])
    w = where_func_t(M, f)
    e = pair_elems(o.value)
    if not o.guard or e is None or len(e) != 2:
        return rep.unsure('forward', 'get_differentiable_solver', show(o.value)[:200], w)
    R = Rules(o.events)
    g, ans, b = (sym(n, 'array', 'nonnone') for n in ('g', 'ans', 'b'))

    def call(s, x):
        return mk('call', s, (x,), ())

    for fn, nm, s, st in ((e[0], 'z_solve', zs, zts), (e[1], 'zt_solve', zts, zs)):
        for cons, kind, want in (('solver %s' % nm, None, call(s, b)),
                                 ('forward derivative of the solver %s' % nm, 'defjvp', call(s, g)),
                                 ('reverse derivative of the solver %s' % nm, 'defvjp', call(st, g))):
            if kind is None:
                out = M.run(fn, [b], {}, o.store)
            else:
                r = find(rep, R, fn, kind, 0, cons)
                if r is None:
                    continue
                w = where_rule(M, r)
                out = (jvp2 if kind == 'defjvp' else vjp2)(M, r, g, ans, (b,), o.store)

            def test(l, gd, want=want):
                if l is want:
                    return None
                known = all(y.op in ('sym', 'k', 'call') for y in walk(l))
                return 'gives %s instead of %s' % (show(l)[:200], show(want)) if known else False
            judge(rep, 'reverse' if kind == 'defvjp' else 'forward', cons, out, test, w)
