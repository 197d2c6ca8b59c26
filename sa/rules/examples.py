"""P22: the example values a pattern makes. P24: saved files load back.
P25: impossible constraints are refused."""
from ..canon import *
from .. import algebra as AL
from ..parts import *
from .inverse import NUM, BOUNDS, LB, UB, diag_low, evaluator, results, open_choice
from .ranges import allpos, verdict_of, DLB
from ..report import Part
from ..orders import orders, at_point
from .layout import containers, leaf_shape, eqlen, LEAVES, Why, ok_vocab, the_map, pieces, Ctx, dom_verdict, filter_ok, strip_arr

MAKERS = {'np.full', 'np.empty', 'np.zeros', 'np.ones', 'np.ndarray'}
LIKE = {'np.full_like', 'np.zeros_like', 'np.ones_like', 'np.empty_like', 'np.array', 'np.asarray', 'copy', 'np.nan_to_num', 'neg',
        'np.exp', 'np.log', 'np.abs', 'np.sqrt'}


def tuple_of(s):
    """A shape argument as a tuple term."""
    if s.op == 'tuple' or s.op == 'sym' and 'tuple' in s.args[1]:
        return s
    if s.op == 'list':
        return mk('tuple', *s.args)
    if s.op == 'sym' or isk(s) and isinstance(kval(s), int) or s.op == 'app' and s.args[0] in ('mul', 'add', 'pow', 'builtins.int', 'np.prod'):
        return seq('tuple', [('e', s)])
    if isk(s) and isinstance(kval(s), tuple):
        return seq('tuple', [('e', K(x)) for x in kval(s)])
    return None


def shape_of(t):
    """The shape of an array expression as a tuple term; () for a number."""
    empty = seq('tuple', [])
    if isk(t) or is_scalar(t):
        return empty
    if t.op == 'store':
        return shape_of(t.args[0])
    if t.op != 'app':
        return None
    nm, ar, kw = t.args
    kw = dict(kw)
    if nm in MAKERS:
        return tuple_of(kw.get('shape', ar[0] if ar else NONE))
    if nm in ('np.eye', 'np.identity') and len(ar) == 1:
        return seq('tuple', [('e', ar[0]), ('e', ar[0])])
    if nm == 'np.reshape' and len(ar) == 2:
        return tuple_of(ar[1])
    if nm in LIKE and ar:
        return shape_of(ar[0])
    if nm in ('add', 'sub', 'mul', 'div', 'np.maximum', 'np.minimum', 'np.clip', 'pow'):
        ss = [shape_of(a) for a in ar]
        if None in ss:
            return None
        big = [s for s in ss if s is not empty]
        if not big:
            return empty
        return big[0] if all(s is big[0] for s in big) else None
    if nm in ('np.make_diagonal', 'np.diag') and ar:
        s = shape_of(ar[0])
        e = simple_elems(s) if s is not None else None
        if e is not None and len(e) == 1 and not ({'offset', 'k'} & set(kw)) or e and kw.get('offset') is K(0):
            return seq('tuple', [('e', e[0]), ('e', e[0])])
    return None


def same_shape(got, want):
    """True / False / None."""
    if got is None:
        return None
    if got is want:
        return True
    a, b = simple_elems(got), simple_elems(want)
    if a is not None and b is not None:
        if len(a) != len(b):
            return False
        rs = [eqlen(x, y) for x, y in zip(a, b)]
        return False if False in rs else None if None in rs else True
    if got.op == 'sym' or want.op == 'sym':
        return None if has_op(got, BAD_OPS) else False
    xs, ys = list(got.args[0]) if got.op == 'tuple' else None, list(want.args[0]) if want.op == 'tuple' else None
    if xs is None or ys is None:
        return None
    # a splice of array_shape and single sizes
    if len(xs) != len(ys) or any(x[0] != y[0] for x, y in zip(xs, ys)):
        return False if all(x[1].op in ('sym', 'k') for x in xs) else None
    rs = [x[1] is y[1] or (eqlen(x[1], y[1]) if x[0] == 'e' else None) for x, y in zip(xs, ys)]
    return False if False in rs else None if None in rs else True


def unit(lb, ub, l):
    """Is the expression strictly between the bounds? True/False/None"""
    l = l.simplify()
    if l.logs:
        return None
    ok = []
    if ub is None and lb is None:
        return True if not AL.patoms(l.r.n) | AL.patoms(l.r.d) else None
    if lb is not None and ub is not None:
        # lb + s * (ub - lb), 0 < s < 1
        if l.r.d != AL.pconst(1):
            return None
        a, b = (((AL.aid(x), 1),) for x in (LB, UB))
        if set(l.r.n) <= {a, b, ()}:
            p, q, c = (l.r.n.get(k, AL.Fraction(0)) for k in (a, b, ()))
            return p + q == 1 and c == 0 and 0 < q < 1
        return None
    d = l - LL(AL.ra(lb)) if lb is not None else LL(AL.ra(ub)) - l
    d = d.simplify()
    if d.logs:
        return None
    if not AL.patoms(d.r.n) | AL.patoms(d.r.d):
        return allpos(d) is True
    if allpos(d):
        return True
    return False if all(AL.aobj(i) in (LB, UB) for i in AL.patoms(d.r.n) | AL.patoms(d.r.d)) and d.r.d == AL.pconst(1) else None


def inside_at(label, l, g, ch):
    """Is the expression strictly between the bounds wherever the guard holds?"""
    r = unit(*BOUNDS[label], l)
    text = 'the value %s is not strictly inside the bounds' % l.show()
    if r is True or ch:
        return r, text
    bs = tuple(b for b in BOUNDS[label] if b is not None)
    own = {AL.aobj(i) for i in AL.patoms(l.r.n) | AL.patoms(l.r.d)}
    c = orders_const(l) if not own else ()
    ps = orders(g, bs, c or ()) if bs else None
    if ps is None:
        return None if g != 1 else r, text + ' when %s' % bshow(g)[:200]
    for env in ps:
        v = at_point(l, env)
        if v is None:
            return r if g == 1 else None, text
        lo, hi = (env.get(b) for b in BOUNDS[label])
        if lo is not None and v <= lo or hi is not None and v >= hi:
            return False, text + ' for ' + ', '.join('%s = %s' % (show(b), x) for b, x in env.items())
    # between orders of bounds and constants nothing else can happen
    return (True if c else None), text


def orders_const(l):
    v = at_point(l, {})
    return None if v is None else (v,)


def p22(S, rep, tier):
    M = S.M
    rep.rule('interior', 'empty(valid=True) holds values strictly inside the constraints')
    rep.rule('shape', 'the values empty makes have the folded shape, in both variants')
    rep.rule('bool', 'empty_bool fills the folded shape with the given value')
    rep.rule('random', 'random() folds a vector of finite numbers of the free length as free parameters')
    M.I.inline_prims = True
    try:
        for label in NUM + ('psd', 'simplex'):
            inst = S.make(label)
            interior(M, rep, inst, label)
    finally:
        M.I.inline_prims = False
    for label in NUM + ('psd', 'simplex'):
        inst = S.make(label)
        want = M.call(inst, 'shape').value
        for v in (TRUE, FALSE):
            o = M.call(inst, 'empty', [v])
            cons = '%s %s.empty(%s)' % (label, inst.name, show(v))
            w = where_method(M, inst, 'empty')
            cases = []
            if o.guard and clean_out(o):
                for g, l in leaves(o.value):
                    s = shape_of(l)
                    cases.append((same_shape(s, want), 'shape %s instead of %s' % (show(s) if s is not None else show(l)[:200], show(want))))
            elif clean_out(o):
                cases.append((False, 'always raises'))
            verdict_of(rep, 'shape', cons, cases, w)
    for label in S.LABELS:
        inst = S.make(label)
        filled(M, rep, inst, label)
        randomly(M, rep, inst, label)
    containers(S, Part(rep, {'empty': 'members'}))
    rep.rule('members', "the empty value of a container holds each member's empty value in its place")


def interior(M, rep, inst, label):
    o = M.call(inst, 'empty', [TRUE])
    w = where_method(M, inst, 'empty')
    cons = '%s %s.empty(True)' % (label, inst.name)
    cases = []
    if not clean_out(o):
        return rep.unsure('interior', cons, '', w)
    if not o.guard:
        return rep.bad('interior', cons, 'always raises', w)
    if o.guard != 1:
        cases.append((None, 'raises when %s' % bshow(bnot(o.guard))[:200]))
    make, fv, fo = evaluator(M, inst, label)
    for g, ch, v, ev in results(o, make):
        if isinstance(v, Exception):
            unset = any(unset_memory(l) for _, l in leaves(o.value))
            left = kept_entries(o, make) if label == 'simplex' and not unset else ''
            cases.append((False if unset or left else None, 'holds unset memory' if unset else left or str(v)))
            continue
        if getattr(v, 'unset', None):
            cases.append((False, 'holds unset memory'))
            continue
        if label in NUM:
            if len({rkey(p) for p in v.parts.values()}) != 1:
                cases.append((None, v.show()))
                continue
            l = list(v.parts.values())[0]
            cases.append(inside_at(label, l, g, ch))
        elif label == 'simplex':
            if v.kind != 'full':
                cases.append((None, v.show()))
                continue
            try:
                s = v.parts['0'] + ev.rowsum(v.parts['+'])
                cases.append((s.equal(AL.num(1)), 'the entries sum to %s' % s.show()))
                for p in '0+':
                    cases.append((npos(v.parts[p], ev), 'entry %s is %s' % (p, v.parts[p].show())))
            except Unsupported as e:
                cases.append((None, str(e)))
        else:
            if v.kind != 'mat':
                cases.append((None, v.show()))
                continue
            off = [v.parts[p].equal(AL.num(0)) for p in 'lu']
            d = (v.parts['d'] - diag_low(ev)).simplify()
            at = {AL.aobj(i) for i in AL.patoms(d.r.n) | AL.patoms(d.r.d)}
            if off == [True, True] and not d.logs and at <= {DLB}:
                # diag_lb is any number from zero up
                cs = d.r.n
                ok = d.r.d == AL.pconst(1) and cs.get((), 0) > 0 and all(c >= 0 for c in cs.values())
                lin = d.r.d == AL.pconst(1) and set(cs) <= {(), ((AL.aid(DLB), 1),)}
                cases.append((True if ok else False if lin else None, 'the diagonal exceeds diag_lb by %s, not by a positive number' % d.show()))
            else:
                sym_ = v.parts['l'].equal(v.parts['u'])
                cases.append((False if sym_ is False else None, v.show()))
    verdict_of(rep, 'interior', cons, cases, w)


def unset_memory(t):
    while t.op == 'app' and t.args[0] in ('copy', 'np.array', 'np.asarray', 'np.reshape', 'np.atleast_1d', 'np.atleast_2d', 'astype') and t.args[1]:
        t = t.args[1][0]
    return t.op == 'app' and t.args[0] in ('np.empty', 'np.empty_like', 'np.ndarray')


def kept_entries(o, make):
    """One entry of each simplex is overwritten: the others keep their value."""
    for g, l in leaves(o.value):
        if l.op != 'store' or l.args[0].op == 'store':
            continue
        e = simple_elems(l.args[1]) if l.args[1].op == 'tuple' else None
        if e is None or len(e) != 2 or e[0] is not K(Ellipsis) or not (isk(e[1]) and type(kval(e[1])) is int):
            continue
        if unset_memory(l.args[0]):
            return 'entries other than %s hold unset memory' % show(e[1])
        ev = make({})
        try:
            v = ev.ev(l.args[0])
            if v.kind == 'full' and npos(v.parts['+'], ev) is False:
                return 'the entries other than %s are %s' % (show(e[1]), v.parts['+'].show())
        except (Unsupported, Wrong, NeedChoice):
            pass
    return ''


def npos(l, ev):
    r, ex = l.rat()
    if not ex:
        return None
    if AL.patoms(r.n) | AL.patoms(r.d) <= {AL.aid(ev.n)}:
        ok = all(c > 0 for c in r.n.values()) and all(c > 0 for c in r.d.values()) and r.n
        neg = not r.n or all(c < 0 for c in r.n.values()) and all(c > 0 for c in r.d.values())
        return True if ok else False if neg else None
    return None


# ------------------------------------------------------------------- booleans
VAL = sym('value', 'bool', 'nonnone')


def boolean_value(t, why):
    """Is every entry the given truth value?"""
    t = drop_wrappers(t, {})
    while t.op == 'app' and t.args[0] in ('np.reshape', 'np.flatten', 'np.ravel', 'np.array', 'copy') and t.args[1]:
        t = t.args[1][0]
    if t.op == 'app' and t.args[0] == 'np.full' and len(t.args[1]) >= 2:
        kw = dict(t.args[2])
        dt = kw.get('dtype', t.args[1][2] if len(t.args[1]) > 2 else None)
        v = t.args[1][1]
        while v.op == 'app' and v.args[0] in ('builtins.bool', 'bool') and len(v.args[1]) == 1:
            v = v.args[1][0]
        if dt is not None and 'bool' not in show(dt):
            return why(False, 'filled with %s' % show(dt))
        if v is VAL:
            return True
        return why(False if isk(v) or v.op == 'app' and v.args[0] == 'not' else None, 'filled with %s' % show(v)[:100])
    if t.op == 'app' and t.args[0] in ('np.atleast_1d',):
        return boolean_value(t.args[1][0], why)
    if t.op == 'gam':
        rs = []
        for g, l in t.args[0]:
            v = truth(VAL)
            c = drop_wrappers(l, {})
            known = band(g, v) == 0 and 'np.zeros' or band(g, bnot(v)) == 0 and 'np.ones'
            if c.op == 'app' and c.args[0] in ('np.zeros', 'np.ones') and known:
                dt = dict(c.args[2]).get('dtype', c.args[1][1] if len(c.args[1]) > 1 else None)
                if c.args[0] != known:
                    rs.append(why(False, 'filled with a constant'))
                elif dt is None or 'bool' not in show(dt):
                    rs.append(why(False if dt is None or isk(dt) or dt.op == 'ext' else None, 'holds numbers instead of booleans: %s' % show(c)[:100]))
                else:
                    rs.append(True)
            else:
                rs.append(boolean_value(l, why))
        return False if False in rs else None if None in rs else True
    if t.op == 'app' and t.args[0] in ('np.zeros', 'np.ones') and t.args[1]:
        return why(False, 'filled with a constant')
    if any(x.op == 'app' and x.args[0] in ('np.exp', 'np.log', 'np.logaddexp', 'scipy.special.logsumexp') for x in walk(t)):
        return why(False, 'holds numbers computed from the value: %s' % show(t)[:150])
    return None


def filled(M, rep, inst, label):
    o = M.call(inst, 'empty_bool', [VAL])
    w = where_method(M, inst, 'empty_bool')
    cons = '%s %s.empty_bool(value)' % (label, inst.name)
    why = Why()
    if not clean_out(o):
        return rep.unsure('bool', cons, show(o.value)[:200], w)
    if not o.guard:
        return rep.bad('bool', cons, 'always raises', w)
    cases = []
    for g, l in leaves(o.value):
        folds = [x for x in walk(l) if x.op == 'mcall' and x.args[1] == 'fold']
        if folds:
            for f in folds:
                k = dict(f.args[2])
                x = k.get('flat_val')
                if k.get('free') is not FALSE:
                    r = why(False if k.get('free') in (TRUE, NONE) else None, 'a member is folded with free=%s' % show(k.get('free', NONE)))
                elif k.get('validate_value') is not FALSE:
                    r = why(False if k.get('validate_value') in (TRUE, NONE, None) else None, 'a member value of booleans is validated')
                else:
                    while x.op == 'sub' and x.args[1].op == 'slice':
                        x = x.args[0]
                    r = boolean_value(x, why)
                cases.append((r, '; '.join(why.msg)))
            continue
        eb = [x for x in walk(l) if x.op == 'mcall' and x.args[1] == 'empty_bool']
        if eb:
            cases.append((True if all(dict(x.args[2]).get('value') is VAL for x in eb) else None, show(l)[:150]))
            continue
        r = boolean_value(l, why)
        if r:
            s = shape_of(strip_outer(l))
            want = M.call(inst, 'shape').value
            r = True if s is None else same_shape(s, want)
            why.msg.append('shape %s' % show(s) if s is not None else '')
        cases.append((r, '; '.join(x for x in why.msg if x) or show(l)[:200]))
    verdict_of(rep, 'bool', cons, cases, w)


def strip_outer(t):
    while t.op == 'app' and t.args[0] in ('copy', 'np.array', 'np.asarray') and t.args[1]:
        t = t.args[1][0]
    return t


# -------------------------------------------------------------------- random
SIZED = {'np.random.random': 0, 'np.random.rand': 0, 'np.random.randn': 0, 'np.random.random_sample': 0, 'np.random.standard_normal': 0,
         'np.random.ranf': 0, 'np.random.sample': 0, 'np.random.normal': 2, 'np.random.uniform': 2}


def random_vector(x):
    """Length of a vector of independent finite random numbers."""
    if x.op == 'app' and x.args[0] in SIZED:
        kw = dict(x.args[2])
        ar = x.args[1]
        i = SIZED[x.args[0]]
        n = kw.get('size', ar[i] if len(ar) > i else None)
        if n is None or i == 0 and len(ar) > 1:
            return None
        e = simple_elems(n) if n.op in ('tuple', 'list') else None
        return e[0] if e is not None and len(e) == 1 else n
    return None


def randomly(M, rep, inst, label):
    o = M.call(inst, 'random')
    w = where_method(M, inst, 'random')
    cons = '%s %s.random()' % (label, inst.name)
    if not clean_out(o):
        return rep.unsure('random', cons, show(o.value)[:200], w)
    if not o.guard:
        return rep.bad('random', cons, 'always raises', w)
    rs = {x for _, l in leaves(o.value) for x in walk(l) if x.op == 'app' and x.args[0].startswith(('np.random', 'numpy.random'))}
    if len(rs) != 1:
        return rep.unsure('random', cons, '%d random draws' % len(rs), w)
    r = rs.pop()
    n = random_vector(r)
    if n is None:
        return rep.unsure('random', cons, show(r)[:200], w)
    free, plain = (M.call(inst, 'flat_length', [m]).value for m in (TRUE, FALSE))
    e = eqlen(n, free)
    if e is not True:
        cut = any(x.op in ('sub', 'app') and x.op != 'app' and x.args[0] is r for _, l in leaves(o.value) for x in walk(l))
        return (rep.bad if e is False and not cut else rep.unsure)('random', cons, 'draws %s numbers instead of %s' % (show(n)[:200], show(free)[:200]), w)
    got = subst(o.value, {r: FV})
    fr, pl = (M.call(inst, 'fold', [FV, m, v]) for m, v in ((TRUE, NONE), (FALSE, NONE)))
    if any(eq_value(got, M.call(inst, 'fold', [FV, TRUE, v])) for v in (NONE, TRUE, FALSE)):
        return rep.ok('random', cons, where=w)
    if label != 'numeric_free' and any(eq_value(got, M.call(inst, 'fold', [FV, NONE, v])) for v in (NONE, TRUE, FALSE)):
        return rep.bad('random', cons, "folds the numbers in the pattern's default mode, not as free parameters", w)
    if any(eq_value(got, M.call(inst, 'fold', [FV, FALSE, v])) for v in (NONE, TRUE, FALSE)):
        if label == 'numeric_free':
            return rep.ok('random', cons, where=w)
        return rep.bad('random', cons, 'folds the numbers as if they were not free', w)
    rep.unsure('random', cons, diff_shape(got, fr.value)[:300], w)


def eq_value(got, o):
    ls = {l for _, l in leaves(o.value)}
    norm = lambda t: drop_wrappers(t, {})
    gs = {norm(l) for _, l in leaves(got)}
    return gs <= {norm(l) for l in ls} or got is o.value


# ------------------------------------------------------------------- P24 files
FILE = sym('file', 'nonnone')
PAT = sym('pattern', 'pattern', 'nonnone')
# additional values of every kind, under names of several kinds
EXTRA = {'extra': sym('extra', 'nonnone'), 'data': sym('extra_data', 'nonnone'), 'none': NONE, 'zero': K(0), 'no': FALSE, 'text': K(''),
         'empty': mk('list', ()), '_hidden': sym('extra_hidden', 'nonnone'), 'free': sym('extra_free', 'nonnone'),
         'flat_val2': sym('extra_flat', 'array', 'nonnone')}


# what gives another name than the one it is applied to, for some name at least
OTHER_NAME = {'replace', 'lower', 'upper', 'strip', 'rstrip', 'lstrip', 'split', 'rsplit', 'partition', 'rpartition', 'title', 'capitalize'}


def renamed(t):
    """Is the file name changed on some path?"""
    return any(y.op == 'mcall' and y.args[0] is FILE and y.args[1] in OTHER_NAME or
               y.op == 'app' and y.args[0] in ('os.path.basename', 'os.path.splitext') and y.args[1][:1] == (FILE,) or
               y.op == 'app' and y.args[0].split('.')[-1] in OTHER_NAME and y.args[1][:1] == (FILE,)
               for _, l in leaves(t) for y in walk(l))


def p24(S, rep, tier):
    M = S.M
    rep.rule('saved', 'save_folded writes the flat value, the JSON form of the pattern and every additional value, unconditionally')
    rep.rule('value', 'load_folded folds the saved flat value with the saved pattern in the mode it was flattened in')
    rep.rule('pattern', 'load_folded rebuilds the pattern from the saved JSON form')
    rep.rule('data', 'load_folded returns the loaded data')
    o = M.run(M.glob('pattern_containers', 'save_folded'), [FILE, FO, PAT], EXTRA)
    w = 'paragami/pattern_containers.py save_folded'
    wl = 'paragami/pattern_containers.py load_folded'
    saves = [e for e in o.events if e.kind == 'ext' and e.name in ('np.savez', 'np.savez_compressed', 'np.save')]
    if not clean_out(o) or len(saves) != 1:
        for r in ('saved', 'value', 'pattern', 'data'):
            if not saves and clean_out(o) and r == 'saved' and not has_foreign(o):
                rep.bad(r, 'save_folded', 'writes nothing', w)
            else:
                rep.unsure(r, 'save_folded', '%d writes' % len(saves), w)
        return
    s = saves[0]
    if s.name == 'np.save':
        return rep.bad('saved', 'save_folded', 'writes one array without its pattern', s.where())
    pos = list(s.data)[:len(s.data) - len(s.kw)]
    store = dict(s.kw)
    for i, v in enumerate(pos[1:]):
        store['arr_%d' % i] = v
    if '**' in store:
        return rep.unsure('saved', 'save_folded', 'unresolved keywords', s.where())
    ok = s.guard == 1 and not s.loops
    rep.check(True if ok else False if s.guard != 1 else None, 'saved', 'save_folded unconditional', 'only when %s' % bshow(s.guard)[:200], s.where())
    rep.check(pos[:1] == [FILE] if pos and pos[0].op == 'sym' else False if pos and renamed(pos[0]) else None, 'saved', 'save_folded file', 'writes to %s' % (show(pos[0]) if pos else '?'), s.where())
    lost = [(k, v) for k, v in EXTRA.items() if same_value(store.get(k), v) is False]
    vague = [(k, v) for k, v in EXTRA.items() if same_value(store.get(k), v) is None]
    rep.check(False if lost else None if vague else True, 'saved', 'save_folded additional values', 'an additional value %s is %s' % (
        (show(lost[0][1])[:50], 'saved as %s' % show(store[lost[0][0]])[:100] if lost[0][0] in store else 'not saved') if lost else ('', '')), s.where())
    flats = [(k, v) for k, v in store.items() if v.op == 'mcall' and v.args[1] == 'flatten' and v.args[0] is PAT]
    mode = dict(flats[0][1].args[2]).get('free') if len(flats) == 1 else None
    if flats:
        k = dict(flats[0][1].args[2])
        rep.check(k.get('folded_val') is FO, 'saved', 'save_folded value', 'flattens %s' % show(k.get('folded_val', NONE))[:100], s.where())
    else:
        rep.check(None, 'saved', 'save_folded value', 'no flattened value among %s' % sorted(store), s.where())
    # loading what was saved
    o = M.run(M.glob('pattern_containers', 'load_folded'), [FILE])
    if not clean_out(o) or not o.guard:
        for r in ('value', 'pattern', 'data'):
            rep.unsure(r, 'load_folded', show(o.value)[:200], wl)
        return
    v = o.value
    e = simple_elems(v) if v.op == 'tuple' else None
    if e is None or len(e) != 3:
        r = False if e is not None else None
        return rep.check(r, 'value', 'load_folded', 'returns %s' % show(v)[:200], wl)
    loads = {x for y in e for x in walk(y) if x.op == 'app' and x.args[0] == 'np.load'}
    if len(loads) != 1:
        for r in ('value', 'pattern', 'data'):
            rep.unsure(r, 'load_folded', '%d reads' % len(loads), wl)
        return
    ld = loads.pop()
    missing = sorted({kval(x.args[1]) for y in e for x in walk(y) if x.op == 'sub' and x.args[0] is ld and isk(x.args[1]) and
                      isinstance(kval(x.args[1]), str) and kval(x.args[1]) not in store})
    if missing:
        return rep.bad('value', 'load_folded', 'reads %s, which save_folded does not write' % missing, wl)
    rep.check(ld.args[1][:1] == (FILE,), 'data', 'load_folded file', 'reads %s' % show(ld)[:100], wl)

    def back(x):
        if x.op == 'sub' and x.args[0] is ld and isk(x.args[1]) and kval(x.args[1]) in store:
            return store[kval(x.args[1])]
        if x.op == 'app' and x.args[0] == 'builtins.str' and len(x.args[1]) == 1:
            y = rewrite(x.args[1][0], back, {})
            if y.op == 'mcall' and y.args[1] == 'to_json':
                return y
        if x.op == 'mcall' and x.args[1] in ('item', 'tolist') and not x.args[2]:
            y = rewrite(x.args[0], back, {})
            if y.op == 'mcall' and y.args[1] == 'to_json':
                return y
        return None
    val, pat, data = (rewrite(x, back, {}) for x in e)
    js = mk('mcall', PAT, 'to_json', ())
    JS = sym('pattern_json', 'str', 'nonnone')
    want = M.run(M.glob('pattern_containers', 'get_pattern_from_json'), [JS]).value
    got = subst(pat, {js: JS})
    if got is want or drop_str(got) is drop_str(want):
        rep.ok('pattern', 'load_folded', where=wl)
    else:
        other = [x for x in walk(pat) if x.op == 'mcall' and x.args[1] == 'from_json' and dict(x.args[2]).get('json_string') in
                 [v for v in store.values() if v is not js]]
        rep.check(False if other else None, 'pattern', 'load_folded', 'gives %s' % show(pat)[-200:], wl)
    if val.op == 'mcall' and val.args[1] == 'fold':
        k = dict(val.args[2])
        rep.check(True if val.args[0] is pat else None, 'value', 'load_folded pattern', 'folds with %s' % show(val.args[0])[:150], wl)
        x = k.get('flat_val')
        isflat = x is not None and x.op == 'mcall' and x.args[1] == 'flatten' and x.args[0] is PAT
        other = [s_ for s_ in store.values() if s_ is x]
        rep.check(True if isflat else False if other else None, 'value', 'load_folded value', 'folds %s' % show(x)[:150] if x is not None else '', wl)
        m2 = k.get('free', NONE)
        if mode is not None:
            m3 = subst(m2, {pat: PAT})
            t1, t2 = truth(mode), truth(m3)
            plain = all(z.op in ('attr', 'mbound', 'sym', 'k', 'gam', 'B') or z.op == 'app' and z.args[0] in ('builtins.getattr', 'builtins.bool', 'is', 'isnone', 'not')
                        for y in (mode, m3) for x in [y] + batoms(truth(y)) for z in walk(x))
            r = True if mode is not NONE and m2 is not NONE and t1 == 0 and t2 == 0 else False if plain else None
            rep.check(r, 'value', 'load_folded mode', 'flattened with free=%s, folded with free=%s' % (show(mode), show(m2)), wl)
        vv = k.get('validate_value', NONE)
        v1 = dict(flats[0][1].args[2]).get('validate_value', NONE) if flats else NONE
        rep.check(False if (v1, vv) in ((FALSE, TRUE), (FALSE, NONE), (NONE, TRUE)) else True if vv in (FALSE, NONE) or v1 is vv else None, 'value',
                  'load_folded validation', 'saved with validate_value=%s, loaded with %s' % (show(v1), show(vv)), wl)
    else:
        rep.unsure('value', 'load_folded', show(val)[:200], wl)
    rep.check(True if data is ld else False if data.op in ('k', 'mcall') or data is pat or data is val else None, 'data', 'load_folded', 'returns %s' % show(data)[:150], wl)


def drop_str(t):
    def fn(x):
        if x.op == 'app' and x.args[0] == 'builtins.str' and len(x.args[1]) == 1:
            return drop_str(x.args[1][0])
        return None
    return rewrite(t, fn, {})


def has_foreign(o):
    return any(e.kind == 'ext' and not e.name.startswith(('np.', 'builtins.', 'json.')) for e in o.events)


# -------------------------------------------------------- P25 constructors
def p25(S, rep, tier):
    M = S.M
    rep.rule('refuse', 'a constraint no value can satisfy is refused with a ValueError when the pattern is made')
    rep.rule('accept', 'every satisfiable constraint is accepted')
    lb, ub = sym('lb', 'finite', 'nonnone'), sym('ub', 'finite', 'nonnone')
    inf, ninf = K(INF), K(-INF)
    num = {'shape': sym('shape', 'tuple')}
    vec = {'length': sym('length', 'int')}
    lt = lambda a, b: truth(app('lt', (a, b)))
    cases = []
    for cls, base in (('NumericArrayPattern', num), ('NumericVectorPattern', vec), ('NumericScalarPattern', {})):
        for a, b, bad in ((lb, ub, bnot(lt(lb, ub))), (lb, inf, 0), (ninf, ub, 0), (ninf, inf, 0), (inf, inf, 1), (ninf, ninf, 1),
                          (inf, ub, 1), (lb, ninf, 1), (inf, ninf, 1), (K(0), K(0), 1), (K(1.0), K(0.0), 1), (K(0), K(1), 0)):
            cases.append(('%s(lb=%s, ub=%s)' % (cls, show(a), show(b)), cls, dict(base, lb=a, ub=b), bad))
    dl, n = sym('diag_lb', 'finite'), sym('size', 'int')
    cases.append(('PSDSymmetricMatrixPattern(diag_lb)', 'PSDSymmetricMatrixPattern', {'size': n, 'diag_lb': dl}, lt(dl, K(0))))
    for v, bad in ((K(-1.0), 1), (K(0.0), 0), (K(2.0), 0), (K(-1e-12), 1)):
        cases.append(('PSDSymmetricMatrixPattern(diag_lb=%s)' % show(v), 'PSDSymmetricMatrixPattern', {'size': n, 'diag_lb': v}, bad))
    k, sh = sym('simplex_size', 'int'), sym('array_shape', 'tuple')
    cases.append(('SimplexArrayPattern(simplex_size)', 'SimplexArrayPattern', {'simplex_size': k, 'array_shape': sh}, lt(k, K(2))))
    for v in (0, 1, 2, 3, -3):
        cases.append(('SimplexArrayPattern(simplex_size=%d)' % v, 'SimplexArrayPattern', {'simplex_size': K(v), 'array_shape': sh}, 1 if v < 2 else 0))
    for cons, cls, kw, bad in cases:
        c = M.cls(cls)
        o = M.run(c, [], kw)
        ctor = M.I.class_attr(c, '__init__')
        w = where_class(M, c)
        if not clean_out(o) and o.guard:
            rep.unsure('refuse', cons, '; '.join(map(str, o.notes))[:200], w)
            continue
        refused = noshape(o.raise_guard(), kw)
        if refused is None:
            rep.unsure('refuse', cons, bshow(o.raise_guard())[:200], w)
            continue
        memo = {}
        r, b = canon(refused, memo), canon(bad, memo)
        acc, back = implies(b, r), implies(r, b)
        free_atoms = all(a.op == 'app' and a.args[0] == 'nonempty' or a.op == 'sym' for a in batoms(r) if a not in batoms(b))
        odd = differ(r, b)
        rep.check(True if acc == 1 else False if free_atoms or odd[0] else None, 'refuse', cons, 'accepted when %s%s' % (
            bshow(band(b, bnot(r)))[:200], odd[0]), w)
        kinds = {x.exc for x in o.raises if band(canon(noshape(x.guard, kw) or 0, memo), b) != 0}
        if acc == 1 and b != 0:
            rep.check(kinds <= {'ValueError'} if kinds else None, 'refuse', cons + ' error', 'raises %s' % sorted(kinds), w)
        rep.check(True if back == 1 else False if free_atoms or odd[1] else None, 'accept', cons, 'refused when %s%s' % (
            bshow(band(r, bnot(b)))[:200], odd[1]), w)


STEPS = (0, 1e-13, 1e-9, 1e-5, 1e-3, 0.1, 1, 2, 3, 100, 1e9)


TESTS = ('lt', 'le', 'eq', 'ne', 'np.isclose', 'np.allclose', 'math.isclose', 'np.isfinite', 'np.isinf', 'math.isinf', 'math.isfinite')


def differ(r, b):
    """Points, one in (nearly) every cell of the comparisons, at which the
    refusal differs from the wanted one: (wrongly accepted, wrongly refused)."""
    syms = sorted({x for g in (r, b) for a in batoms(g) for x in walk(a) if x.op == 'sym'}, key=lambda x: x.uid)
    if not syms or len(syms) > 2 or not all(a.op == 'app' and a.args[0] in TESTS for g in (r, b) for a in batoms(g)):
        return '', ''
    ints = all('int' in s.args[1] for s in syms)
    base = [s * x for x in STEPS for s in (1, -1)] if not ints else list(range(-5, 9))
    for c in sorted({kval(x) for g in (r, b) for a in batoms(g) for x in walk(a) if isk(x) and type(kval(x)) in (int, float) and abs(kval(x)) < INF}):
        # on both sides of every constant compared with
        new = [c - 1, c, c + 1] if ints else [c, c * 1.5, c * 0.5, c + 1.0, c - 1.0]
        base += [x for x in new if x not in base and (not ints or x == int(x))][:5]
    if len(base) > 200:
        base = base[:200]
    pts = [(x,) for x in base] if len(syms) == 1 else [(x, y) for x in base for y in base] + [(x, x + y) for x in base for y in base]
    out = ['', '']
    for p in pts:
        env = dict(zip(syms, p))
        try:
            x, y = (bvalue(g, env) for g in (r, b))
        except (Unsupported, ZeroDivisionError, OverflowError):
            return '', ''
        i = 0 if y and not x else 1 if x and not y else None
        if i is not None and not out[i]:
            out[i] = ' (for example %s)' % ', '.join('%s=%r' % (show(k), v) for k, v in env.items())
    return tuple(out)


def bvalue(g, env):
    while g not in (0, 1):
        a = sorted(batoms(g), key=lambda x: x.uid)[0]
        v = compared(a, [number(t, env) for t in a.args[1]], {k: number(t, env) for k, t in a.args[2]})
        g = cofactor(g, a, v)
    return g == 1


def compared(a, p, kw):
    op = a.args[0].split('.')[-1]
    if op in ('lt', 'le', 'eq', 'ne'):
        x, y = p
        return {'lt': x < y, 'le': x <= y, 'eq': x == y, 'ne': x != y}[op]
    if op in ('isfinite', 'isinf'):
        return (abs(p[0]) == INF) == (op == 'isinf')
    if a.args[0] == 'math.isclose':
        rt, at = kw.pop('rel_tol', 1e-9), kw.pop('abs_tol', 0.0)
        near = lambda x, y: abs(x - y) <= max(rt * max(abs(x), abs(y)), at)
    else:
        rt, at = kw.pop('rtol', p[2] if len(p) > 2 else 1e-5), kw.pop('atol', p[3] if len(p) > 3 else 1e-8)
        near = lambda x, y: abs(x - y) <= at + rt * abs(y)
    if kw:
        raise Unsupported(show(a)[:50])
    return p[0] == p[1] or abs(p[0]) < INF and abs(p[1]) < INF and near(p[0], p[1])


def number(t, env):
    if t in env:
        return env[t]
    if isk(t) and isinstance(kval(t), (int, float)):
        return kval(t)
    if t.op == 'app' and not t.args[2]:
        a = [number(x, env) for x in t.args[1]]
        nm = t.args[0]
        if nm in ('add', 'sub', 'mul', 'div') and len(a) == 2:
            return {'add': lambda: a[0] + a[1], 'sub': lambda: a[0] - a[1], 'mul': lambda: a[0] * a[1], 'div': lambda: a[0] / a[1]}[nm]()
        if nm == 'neg':
            return -a[0]
        if nm in ('np.abs', 'builtins.abs', 'abs'):
            return abs(a[0])
        if nm in ('builtins.int', 'builtins.float', 'np.max', 'builtins.max', 'builtins.min'):
            return {'int': int, 'float': float, 'max': max, 'min': min}[nm.split('.')[-1]](*a)
    raise Unsupported(show(t)[:50])


def noshape(g, kw):
    """The refusal guard, assuming the shape given is one arrays can have."""
    if g == 0:
        return 0
    for a in list(batoms(g)):
        if a.op == 'app' and a.args[0] == 'eq' and any(x.op == 'app' and x.args[0] == 'np.shape' for x in a.args[1]):
            g = cofactor(g, a, True)
    return g


def where_class(M, c):
    info = M.I.classes[c]
    mod = M.project.modules.get(info.module) if hasattr(info, 'module') else None
    node = getattr(info, 'node', None)
    return '%s:%s %s' % (M.project.relpath(mod.path), node.lineno, info.name) if mod and node is not None else info.name


def same_value(got, v):
    """Whether what is written is the value (as an array or as it is)."""
    if got is None:
        return False
    if got is v:
        return True
    g = got
    while g.op == 'app' and g.args[0] in ('np.array', 'np.asarray', 'copy') and g.args[1] and not g.args[2]:
        g = g.args[1][0]
        if g is v:
            return True
    if v.op == 'list':
        return None
    return False if isk(v) and isk(g) or clean(g) and not any(x.op == 'gam' for x in walk(g)) and not contains(g, v) else None
