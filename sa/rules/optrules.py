"""P15, P16: optimisation objective and preconditioned functions."""
from ..suite import *
from .. import oneshot
from ..algebra import *
from .fnrules import where_cls, FUN

XV = sym('x', 'nonnone', 'array', 'vec')


def inst_where(M, inst, name):
    return where_method(M, inst, name)


def run_m(M, inst, name, args=(), kw=None, store=None):
    return M.call(inst, name, list(args), kw or {}, store=store)


def attr_map(M, inst, store):
    return M.attrs(inst, store)


# ------------------------------------------------------------------ P15
def havoc(M, inst):
    """State in which everything an evaluation changes is arbitrary."""
    st = dict(inst.store)
    o = run_m(M, inst, 'f', [XV])
    before, num, logs, other = M.attrs(inst), [], [], []
    for k, v in list(o.store.items()):
        if k in st and st[k] is not v:
            if k[0] == 'a' and k[1] is inst.obj:
                if intlike(M.I.rd(st[k], State(st))):
                    num.append(k)
                else:
                    other.append(k)
            elif k[0] == 'c':
                logs.append(k)
    for k in num:
        st[k] = sym('@n:%s' % k[2], 'int')
    for k in logs:
        st[k] = sym('@log', 'list')
    return st, num, logs, other


def changes(M, inst, a, b):
    """Attributes of the instance that differ between two stores."""
    x, y = M.attrs(inst, a), M.attrs(inst, b)
    return {k: (x.get(k), y.get(k)) for k in set(x) | set(y) if x.get(k) is not y.get(k)}


def settled(o):
    return not o.notes and clean(o.guard) and clean([r.guard for r in o.raises])


def every(interval, n):
    """Guard: the interval is positive and divides the count."""
    return band(bnot(truth(app('lt', (interval, K(1))))), truth(app('eq', (K(0), app('mod', (n, interval))))))


def p15(S, rep, tier):
    M = S.M
    rep.rule('value', 'an evaluation calls the objective exactly once at the given point and returns its value')
    rep.rule('count', 'every evaluation adds one to the iteration count, whatever is printed or logged')
    rep.rule('print', 'a value is printed exactly when the print interval is positive and divides the count before the evaluation')
    rep.rule('log', 'a (count, copy of the point, value) triple is appended to the log exactly when the log interval is positive and divides the count')
    rep.rule('reset', 'the resets set the count to zero and empty the log, each only its own, and reset does both')
    rep.rule('interval', 'setting an interval changes that interval alone')
    rep.rule('derivative', 'gradient, Hessian and Hessian-vector product come from the objective itself')
    oneshot.report(M.project, rep, 'value', lambda m, c: m.endswith('optimization_lib') and 'Objective' in c)
    w = where_cls(M, 'OptimizationObjective')
    base = {'objective_fun': FUN}
    PE, LE, NN = sym('print_every', 'int'), sym('log_every', 'int'), sym('new_interval', 'int')
    inst = M.new('OptimizationObjective', dict(base, print_every=PE, log_every=LE))
    wf = where_method(M, inst, 'f')
    st, num, logs, other = havoc(M, inst)
    # initial state
    o = run_m(M, inst, 'num_iterations')
    judge_value(rep, 'reset', 'a new objective counts from zero', o, K(0), where_method(M, inst, 'num_iterations'))
    init_log(M, rep, inst, inst.store, 'a new objective has an empty log', w)
    o = run_m(M, inst, 'num_iterations', store=st)
    n = o.value if o.guard == 1 else None
    if n is None or not intlike(n) or not any(n is st[k] for k in num):
        if o.guard == 1 and settled(o) and clean(n) and not num:
            rep.bad('count', 'OptimizationObjective.f', 'an evaluation leaves num_iterations() at %s' % show(n), wf)
        else:
            rep.unsure('count', 'OptimizationObjective.f', 'no counter attribute recognised', wf)
        return
    for label, pe, le, store in (
            ('constructed intervals', PE, LE, st),
            ('after set_print_every', NN, LE, run_m(M, inst, 'set_print_every', [NN], store=st).store),
            ('after set_log_every', PE, NN, run_m(M, inst, 'set_log_every', [NN], store=st).store)):
        evaluate(M, rep, inst, label, pe, le, store, n, logs, wf)
    evaluate(M, rep, inst, 'a point of any rank', PE, LE, st, n, logs, wf, sym('point', 'nonnone', 'array'))
    for label, kw, pe, le in (('default intervals', base, K(1), K(0)),
                              ('log only', dict(base, print_every=K(0), log_every=K(3)), K(0), K(3)),
                              ('negative intervals', dict(base, print_every=K(-1), log_every=K(-2)), K(-1), K(-2))):
        i2 = M.new('OptimizationObjective', kw)
        s2 = dict(i2.store)
        k2 = [('a', i2.obj, k[2]) for k in num]
        for k, kk in zip(num, k2):
            if kk in s2:
                s2[kk] = st[k]
        l2 = log_cells(M, i2)
        for c in l2:
            s2[c] = sym('@log', 'list')
        evaluate(M, rep, i2, label, pe, le, s2, n, l2, wf)
    # setters
    for m in ('set_print_every', 'set_log_every'):
        o = run_m(M, inst, m, [NN], store=st)
        ch = changes(M, inst, st, o.store)
        wm = where_method(M, inst, m)
        if o.guard != 1 or not settled(o):
            rep.unsure('interval', m, bshow(o.guard), wm)
            continue
        o2 = run_m(M, inst, 'num_iterations', store=o.store)
        lg = log_value(M, inst, o.store)
        if o2.value is not n:
            rep.bad('interval', m, 'also changes the iteration count', wm)
        elif lg is not log_value(M, inst, st):
            rep.bad('interval', m, 'also changes the log', wm)
        else:
            rep.ok('interval', m, where=wm)
    # resets
    want = {'reset': (K(0), 'empty'), 'reset_iteration_count': (K(0), 'same'), 'reset_log': (n, 'empty')}
    for m, (cnt, lg) in want.items():
        wm = where_method(M, inst, m)
        o = run_m(M, inst, m, store=st)
        if o.guard != 1 or not settled(o):
            if o.guard == 0 and settled(o):
                rep.bad('reset', m, 'raises %s' % sorted({r.exc for r in o.raises}), wm)
            else:
                rep.unsure('reset', m, bshow(o.guard), wm)
            continue
        o2 = run_m(M, inst, 'num_iterations', store=o.store)
        judge_value(rep, 'reset', '%s: iteration count' % m, o2, cnt, wm)
        if lg == 'empty':
            init_log(M, rep, inst, o.store, '%s: log' % m, wm)
        else:
            v = log_value(M, inst, o.store)
            if v is log_value(M, inst, st):
                rep.ok('reset', '%s: log kept' % m, where=wm)
            elif clean(v):
                rep.bad('reset', '%s: log kept' % m, 'the log becomes %s' % show(v), wm)
            else:
                rep.unsure('reset', '%s: log kept' % m, show(v), wm)
        # intervals survive
        bad = [k for k, (a, b) in changes(M, inst, st, o.store).items() if a in (PE, LE) and b is not a]
        rep.check(not bad, 'reset', '%s: intervals kept' % m, 'changes %s' % bad, wm)
    # derivatives
    for name, fn in (('grad', 'autograd.grad'), ('hessian', 'autograd.hessian'),
                     ('hessian_vector_product', 'autograd.hessian_vector_product')):
        v = attr_or_method(M, inst, st, name)
        good = v is not None and v.op == 'app' and v.args[0] == fn and v.args[1] == (FUN,)
        if good:
            rep.ok('derivative', name, where=w)
        elif v is not None and v.op == 'app' and v.args[0].startswith('autograd.') and clean(v) and (
                v.args[0] in DERIVS):
            rep.bad('derivative', name, 'is %s' % show(v), w)
        else:
            rep.unsure('derivative', name, show(v) if v is not None else 'missing', w)
        effects = [e for e in run_m(M, inst, 'num_iterations', store=st).events if e.kind == 'setattr']
    # the read accessors change nothing
    o = run_m(M, inst, 'num_iterations', store=st)
    ch = changes(M, inst, st, o.store)
    rep.check(not ch if settled(o) else None, 'count', 'num_iterations leaves the state alone', str(sorted(ch)), wf)


DERIVS = {'autograd.grad', 'autograd.hessian', 'autograd.hessian_vector_product', 'autograd.jacobian',
          'autograd.value_and_grad', 'autograd.elementwise_grad', 'autograd.make_hvp', 'autograd.make_jvp'}


def attr_or_method(M, inst, st, name):
    v = M.attr(inst, name, st)
    return v


def log_cells(M, inst):
    v = inst.store.get(('a', inst.obj, 'optimization_log'))
    return [('c', v)] if v is not None and v.op == 'cell' else []


def log_value(M, inst, store):
    return M.attr(inst, 'optimization_log', store)


def init_log(M, rep, inst, store, cons, w):
    v = log_value(M, inst, store)
    if v is None and M.missing(inst, 'optimization_log', store):
        rep.bad('reset', cons, 'there is no optimization_log attribute', w)
    elif v is None:
        rep.unsure('reset', cons, 'no optimization_log attribute', w)
    elif is_seq(v) and simple_elems(v) == []:
        rep.ok('reset', cons, where=w)
    elif is_seq(v) and simple_elems(v) is None and all(k == 's' for k, _ in v.args[0]) and not v.args[0]:
        rep.ok('reset', cons, where=w)
    elif clean(v):
        rep.bad('reset', cons, 'the log is %s' % show(v), w)
    else:
        rep.unsure('reset', cons, show(v), w)


def judge_value(rep, rule, cons, o, want, w):
    if o.guard == 1 and o.value is want:
        rep.ok(rule, cons, where=w)
    elif not clean_out(o):
        rep.unsure(rule, cons, show(o.value), w)
    elif o.guard == 0:
        rep.bad(rule, cons, 'raises %s' % sorted({r.exc for r in o.raises}), w)
    elif o.guard != 1 and o.value is want:
        if {r.exc for r in o.raises} <= {'AttributeError', 'ValueError', 'TypeError'}:
            rep.bad(rule, cons, 'raises %s when %s' % (sorted({r.exc for r in o.raises}), bshow(bnot(o.guard))[:200]), w)
        else:
            rep.unsure(rule, cons, bshow(o.guard)[:200], w)
    elif isk(o.value) or o.value.op == 'sym' or poly_eq(o.value, o.value) and intlike(o.value):
        rep.bad(rule, cons, 'gives %s instead of %s' % (show(o.value), show(want)), w)
    else:
        rep.unsure(rule, cons, show(o.value), w)


def gconst(M, interval, n):
    if isk(interval):
        v = kval(interval)
        if v <= 0:
            return 0
        if v == 1:
            return 1
    return every(interval, n)


def evaluate(M, rep, inst, label, pe, le, store, n, logs, w, XV=XV):
    o = run_m(M, inst, 'f', [XV], store=store)
    want = mk('call', FUN, (XV,), ())
    cons = 'f(x), %s' % label
    if not settled(o) or not clean(o.value if o.guard else NONE):
        rep.unsure('value', cons, bshow(o.guard), w)
        return
    if o.guard == 0:
        rep.bad('value', cons, 'an evaluation never returns: %s' % ', '.join(
            '%s at %s' % (r.exc, r.where()) for r in o.raises[:3]), w)
        return
    calls = [e for e in o.events if e.kind == 'call' and e.data[0] is FUN]
    if o.guard != 1:
        rep.bad('value', cons, 'raises when %s' % bshow(bnot(o.guard)), w) if o.raises else rep.unsure(
            'value', cons, bshow(o.guard), w)
    elif o.value is not want:
        # the call may be written with the point under another name only
        rep.bad('value', cons, 'returns %s' % show(o.value), w)
    elif len(calls) == 1 and calls[0].guard == 1 and not calls[0].loops:
        rep.ok('value', cons, where=w)
    elif len(calls) > 1:
        rep.bad('value', cons, 'calls the objective %d times' % len(calls), w)
    else:
        rep.unsure('value', cons, '; '.join(bshow(e.guard) for e in calls), w)
    # count
    o2 = run_m(M, inst, 'num_iterations', store=o.store)
    v = o2.value
    if o2.guard == 1 and clean(v):
        if all(poly_eq(l, app('add', (n, K(1)))) for _, l in leaves(v)):
            rep.ok('count', cons, where=w)
        else:
            rep.bad('count', cons, 'num_iterations() becomes %s' % show(v), w)
    else:
        rep.unsure('count', cons, show(v), w)
    # print
    g = 0
    texts = []
    loops = False
    for e in o.events:
        if e.kind == 'ext' and e.name in ('builtins.print', 'sys.stdout.write', 'logging.info'):
            g = bor(g, e.guard)
            texts += list(e.data)
            loops = loops or bool(e.loops)
    wantg = gconst(M, pe, n)
    compare_guard(rep, 'print', cons, g, wantg, w, 'prints')
    if g:
        t = mk('tuple', tuple(('e', x) for x in texts if isinstance(x, T)))
        miss = [nm for nm, x in (('count', n), ('value', want)) if not contains(t, x)]
        if miss and all(known_text(x) for x in texts):
            rep.bad('print', cons + ', text', 'the printed text %s does not contain the %s' % (
                show(t)[:200], ' and '.join(miss)), w)
        elif miss:
            rep.unsure('print', cons + ', text', show(t)[:200], w)
        else:
            rep.ok('print', cons + ', text', where=w)
    # log
    lv, l0 = log_value(M, inst, o.store), log_value(M, inst, store)
    if lv is None or l0 is None:
        rep.unsure('log', cons, 'log not found', w)
        return
    entry = seq('tuple', [('e', n), ('e', app('copy', (XV,))), ('e', want)])
    wantg = gconst(M, le, n)
    new = seq('list', [('s', l0), ('e', entry)])
    got = leaves(lv)
    gnew = gold = 0
    for gd, l in got:
        if l is new:
            gnew = bor(gnew, gd)
        elif l is l0:
            gold = bor(gold, gd)
        else:
            if clean(l):
                if is_seq(l) and len(l.args[0]) == 2 and l.args[0][0] == ('s', l0) and l.args[0][1][0] == 'e':
                    log_entry(rep, cons, l.args[0][1][1], n, want, w, XV)
                elif l.op == 'list':
                    rep.bad('log', cons, 'the log becomes %s' % show(l)[:300], w)
                else:
                    rep.unsure('log', cons, show(l)[:300], w)
            else:
                rep.unsure('log', cons, show(l)[:300], w)
            return
    if gnew != wantg and any(contains(a, l0) for a in batoms(gnew)):
        # resetting empties the log and keeps the count: no length of the log is excluded
        g0 = bsubst(gnew, {l0: seq('list', [])})
        if clean(g0) and simple_guard(g0) and not beqv(g0, wantg):
            return rep.bad('log', cons, 'just after the log was reset, logs when %s instead of %s' % (bshow(g0), bshow(wantg)), w)
    compare_guard(rep, 'log', cons, gnew, wantg, w, 'logs')


def log_entry(rep, cons, e, n, want, w, XV=XV):
    el = simple_elems(e) if is_seq(e) else None
    if el is not None and e.op == 'tuple' and len(el) == 3 and el[0] is n and el[2] is want:
        x = el[1]
        if any(l is XV for _, l in leaves(x)):
            rep.bad('log', cons, 'the log keeps the very array the caller passed, not a copy', w)
            return
        if contains(x, XV) and x.op == 'app' and x.args[0] in ('np.array', 'np.copy', 'np.asarray', 'copy'):
            if x.args[0] == 'np.asarray':
                rep.bad('log', cons, 'the log may keep the very array the caller passed, not a copy', w)
            else:
                rep.ok('log', cons, where=w)
            return
        rep.unsure('log', cons, show(e), w)
        return
    if el is not None and all(y in (n, want, XV) or isk(y) or y is app('copy', (XV,)) or y is app(
            'add', (n, K(1))) for y in el):
        rep.bad('log', cons, 'the log entry is %s' % show(e), w)
    else:
        rep.unsure('log', cons, show(e), w)


def known_text(x):
    return not isinstance(x, T) or all(y.op in ('app', 'k', 'sym', 'call', 'tuple', 'gam', 'list') for y in walk(x))


def compare_guard(rep, rule, cons, got, want, w, verb):
    if got == want or beqv(got, want):
        rep.ok(rule, cons, where=w)
    elif not clean(got) or not simple_guard(got):
        rep.unsure(rule, cons, bshow(got), w)
    else:
        rep.bad(rule, cons, '%s when %s instead of %s' % (verb, bshow(got), bshow(want)), w)


def beqv(a, b):
    return band(a, bnot(b)) == 0 and band(b, bnot(a)) == 0


def simple_guard(g):
    """Only comparisons of intervals and counts occur."""
    for a in batoms(g):
        for t in walk(a):
            if t.op == 'app' and t.args[0] not in ('lt', 'le', 'eq', 'mod', 'add', 'sub', 'mul', 'neg', 'floordiv'):
                return False
            if t.op not in ('app', 'sym', 'k', 'tuple', 'isnone'):
                return False
    return True


# ------------------------------------------------------------------ P16
AF, AIF = sym('a_times', 'nonnone', 'callable'), sym('a_inv_times', 'nonnone', 'callable')
MA, MAI = sym('a_matrix', 'nonnone', 'mat'), sym('a_inverse', 'nonnone', 'mat')
HS = sym('hess', 'nonnone', 'mat')
LO, HI = sym('ev_lo', 'real', 'nonnone'), sym('ev_hi', 'real', 'nonnone')


def cal(f, x):
    return mk('call', f, (x,), ())


def p16(S, rep, tier):
    M = S.M
    rep.rule('pair', 'the wrapper evaluates the function at unprecondition(x); precondition and unprecondition are the two operators that were set, in that role')
    rep.rule('hessian', 'with a Hessian, unprecondition multiplies by the inverse square root of the truncated Hessian and precondition by its square root')
    rep.rule('truncate', 'eigenvalues are clipped to the given bounds, without changing the argument; non-real bounds are refused')
    rep.rule('eigenspace', 'transform_eigenspace maps the given eigenspace by the function and keeps its complement; wrong shapes are refused')
    rep.rule('matrix', 'the preconditioner matrices have the images of the unit vectors as columns')
    rep.rule('check', 'check_preconditioner refuses exactly when the two operators miss being inverse by more than the tolerance')
    rep.rule('config', 'exactly one of point and Hessian must be given; a sparse Hessian is refused')
    rep.rule('sparse', 'the sparse square root and its inverse are multiplication by and solution with the same matrix; a dense argument is refused')
    oneshot.report(M.project, rep, 'pair', lambda m, c: m.endswith('optimization_lib') and 'Objective' not in c)
    I = M.I
    I.inline_prims = True
    try:
        p16_inner(M, rep)
    finally:
        I.inline_prims = False


def p16_inner(M, rep):
    inst = M.new('PreconditionedFunction', {'original_fun': FUN})
    # ----- identity
    trio(M, rep, inst, inst.store, 1, 'initially', XV, XV)
    setter = lambda name, args, store=None, guard=None: M.call(inst, name, args, store=store, guard=guard)
    o = setter('set_preconditioner_functions', [AF, AIF])
    if ok_set(rep, 'pair', 'set_preconditioner_functions', o, where_method(M, inst, 'set_preconditioner_functions')):
        trio(M, rep, inst, o.store, o.guard, 'set_preconditioner_functions', cal(AF, XV), cal(AIF, XV))
        columns(M, rep, inst, o.store, o.guard)
        checker(M, rep, inst, o.store, o.guard)
        for nm in ('set_identitity_preconditioner', 'set_identity_preconditioner'):
            if M.has_method(inst.cls, nm):
                o2 = M.call(inst, nm, store=o.store)
                if ok_set(rep, 'pair', nm, o2, where_method(M, inst, nm)):
                    trio(M, rep, inst, o2.store, o2.guard, nm, XV, XV)
    # ----- matrices, also after another preconditioner was set
    MB, MBI = [sym(n, 'nonnone', 'array', 'mat') for n in ('a_before', 'a_inv_before')]
    before = [('', None)]
    for label, nm, args in (('functions', 'set_preconditioner_functions', [AF, AIF]),
                            ('a matrix and its inverse', 'set_preconditioner_matrix', [MB, MBI]),
                            ('a matrix', 'set_preconditioner_matrix', [MB])):
        b = M.call(inst, nm, args, guard=bnot(truth(app('scipy.sparse.issparse', (MB,)))))
        if b.guard and clean_out(b):
            before.append((', after %s was set' % label if label != 'functions' else ', after functions were set', b))
            AF2, AIF2 = sym('a_times_2', 'callable', 'nonnone'), sym('a_inv_times_2', 'callable', 'nonnone')
            o = M.call(inst, 'set_preconditioner_functions', [AF2, AIF2], store=b.store, guard=b.guard)
            cons = 'set_preconditioner_functions' + before[-1][0]
            wm = where_method(M, inst, 'set_preconditioner_functions')
            if ok_set(rep, 'pair', cons, o, wm):
                trio(M, rep, inst, o.store, o.guard, cons, cal(AF2, XV), cal(AIF2, XV))
    for nm in ('set_preconditioner_matrix', 'set_preconditioner'):
        for args in ([MA, MAI], [MA]):
            for sparse, (late, b) in [(x, y) for x in (False, True) for y in before]:
                g = truth(app('scipy.sparse.issparse', (MA,)))
                o = M.call(inst, nm, args, guard=g if sparse else bnot(g)) if b is None else M.call(
                    inst, nm, args, guard=band(b.guard, g if sparse else bnot(g)), store=b.store)
                cons = '%s(%s), %s%s' % (nm, 'a, a_inv' if len(args) == 2 else 'a', 'sparse' if sparse else 'dense', late)
                wm = where_method(M, inst, nm)
                if not ok_set(rep, 'pair', cons, o, wm):
                    continue
                inv = MAI if len(args) == 2 else app('scipy.sparse.linalg.inv' if sparse else 'np.linalg.inv', (MA,))
                trio(M, rep, inst, o.store, o.guard, cons, app('matmul', (MA, XV)), app('matmul', (inv, XV)), mm=True,
                     base=band(1 if b is None else b.guard, g if sparse else bnot(g)))
    hessian_variant(M, rep, inst)
    truncation(M, rep)
    eigenspace(M, rep)
    sparse_lib(M, rep)


def ok_set(rep, rule, cons, o, w):
    if o.guard == 0:
        if settled(o):
            rep.bad(rule, cons, 'always raises %s' % ', '.join('%s at %s' % (r.exc, r.where()) for r in o.raises[:3]), w)
        else:
            rep.unsure(rule, cons, '', w)
        return False
    return True


def strip_mm(t):
    """matmul(A, x) with wrappers that keep a vector argument removed."""
    def f(y):
        if y.op == 'app' and y.args[0] in ('np.atleast_1d',) and len(y.args[1]) == 1 and ndim_of(y.args[1][0]) == 1:
            return y.args[1][0]
        if y.op == 'app' and y.args[0] in ('np.dot', 'np.matmul') and len(y.args[1]) == 2:
            return app('matmul', y.args[1])
        return y
    return rewrite(t, lambda n, *r: f(n)) if False else rewalk(t, f)


def rewalk(t, f, memo=None):
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if t.op == 'app':
        r = f(app(t.args[0], tuple(rewalk(x, f, memo) for x in t.args[1]),
                  tuple((k, rewalk(v, f, memo)) for k, v in t.args[2])))
    elif t.op == 'call':
        r = f(mk('call', rewalk(t.args[0], f, memo), tuple(rewalk(x, f, memo) for x in t.args[1]), t.args[2]))
    elif t.op == 'gam':
        r = gam([(g, rewalk(l, f, memo)) for g, l in t.args[0]])
    else:
        r = f(t)
    memo[t] = r
    return r


LINVOC = {'call', 'sym', 'app', 'k', 'tuple', 'list', 'gam'}
LINOPS = {'matmul', 'np.linalg.inv', 'scipy.sparse.linalg.inv', 'T', 'add', 'sub', 'mul', 'neg', 'np.atleast_1d', 'copy'}


def lin_known(t):
    return all(y.op in LINVOC and (y.op != 'app' or y.args[0] in LINOPS) for y in walk(t))


def trio(M, rep, inst, store, guard, cons, want_a, want_ai, mm=False, base=1):
    for nm, want in (('__call__', cal(FUN, want_a)), ('unprecondition', want_a), ('precondition', want_ai)):
        r = M.call(inst, nm, [XV], store=store, guard=guard)
        w = where_method(M, inst, nm)
        c = '%s: %s(x)' % (cons, nm)
        got = r.value if r.guard else NONE
        if mm:
            sq = {sub(app('np.shape', (m,)), K(1)): sub(app('np.shape', (m,)), K(0)) for m in (MA, MAI)}    # square by their role
            got, want = strip_mm(subst(got, sq)), strip_mm(want)
        if r.guard == 1 and got is want:
            rep.ok('pair', c, where=w)
        elif not clean_out(r):
            rep.unsure('pair', c, show(got)[:300], w)
        elif r.guard == 0:
            rep.bad('pair', c, 'always raises %s' % sorted({x.exc for x in r.raises}), w)
        elif got is want:
            rep.unsure('pair', c, 'defined when %s' % bshow(r.guard), w)
        elif lin_known(got):
            rep.bad('pair', c, 'computes %s instead of %s' % (show(got)[:300], show(want)[:300]), w)
        else:
            rep.unsure('pair', c, show(got)[:300], w)


def columns(M, rep, inst, store, guard):
    dim = sym('dim', 'int')
    for nm, f in (('get_preconditioner', AF), ('get_preconditioner_inv', AIF)):
        r = M.call(inst, nm, [dim], store=store, guard=guard)
        w = where_method(M, inst, nm)
        if r.guard != 1 or not clean_out(r):
            rep.unsure('matrix', nm, bshow(r.guard), w)
            continue
        res = as_columns(r.value)
        if res is None:
            rep.unsure('matrix', nm, show(r.value)[:300], w)
            continue
        axis, m = res
        if m.op != 'map' or m.args[3] != 1:
            rep.unsure('matrix', nm, show(m)[:300], w)
            continue
        d, io, body = m.args[0], m.args[1], m.args[2]
        if domlen(d) is not dim and not poly_eq(domlen(d), dim):
            (rep.bad if set(x for q in poly(domlen(d)) for x, _ in q) <= {aid(dim)} else rep.unsure)(
                'matrix', nm, 'has %s columns instead of %s' % (show(domlen(d)), show(dim)), w)
            continue
        while body.op == 'app' and body.args[0] in ('copy', 'np.array', 'np.asarray', 'np.atleast_1d'):
            body = body.args[1][0]
        if body.op != 'call' or len(body.args[1]) != 1:
            rep.unsure('matrix', nm, show(body)[:300], w)
            continue
        if body.args[0] is not f:
            rep.bad('matrix', nm, 'applies %s' % show(body.args[0]), w)
            continue
        u = unit_vector(body.args[1][0], io, dim)
        if u is None:
            rep.unsure('matrix', nm, 'argument %s' % show(body.args[1][0])[:300], w)
        elif u is not True:
            rep.bad('matrix', nm, u, w)
        elif axis == 0:
            rep.bad('matrix', nm, 'the images of the unit vectors are the rows', w)
        else:
            rep.ok('matrix', nm, where=w)


def unit_vector(t, io, dim):
    while t.op == 'app' and t.args[0] in ('copy', 'np.array', 'np.asarray', 'np.atleast_1d'):
        t = t.args[1][0]
    if t.op == 'store' and t.args[0].op == 'app' and t.args[0].args[0] == 'np.zeros':
        z = t.args[0].args[1][0]
        e = simple_elems(z) if is_seq(z) else [z]
        if t.args[1] is io and isk(t.args[2]) and e is not None and len(e) == 1 and poly_eq(e[0], dim):
            return True if kval(t.args[2]) == 1 else 'the unit vectors have %r entries' % (kval(t.args[2]),)
    if t.op == 'sub' and t.args[0].op == 'app' and t.args[0].args[0] in ('np.eye', 'np.identity') and poly_eq(
            t.args[0].args[1][0], dim) and len(t.args[0].args[1]) == 1:
        if t.args[1] is io:
            return True
        if is_seq(t.args[1]) and io in (simple_elems(t.args[1]) or []):
            return True
    return None


def as_columns(t):
    """(axis along which the items run, items)."""
    if t.op == 'app':
        nm, ar, kw = t.args
        kw = dict(kw)
        if nm == 'T' and len(ar) == 1:
            r = as_columns(ar[0])
            return r and (1 - r[0], r[1])
        if nm in ('np.vstack', 'np.array', 'np.asarray', 'np.row_stack') and not kw and len(ar) == 1:
            return 0, unlist(ar[0])
        if nm == 'np.column_stack' and not kw and len(ar) == 1:
            return 1, unlist(ar[0])
        if nm == 'np.stack' and ar:
            ax = kw.get('axis', ar[1] if len(ar) > 1 else K(0))
            if isk(ax) and kval(ax) in (0, 1, -1):
                return (0 if kval(ax) == 0 else 1), unlist(ar[0])
        if nm in ('copy', 'np.atleast_2d') and len(ar) == 1:
            return as_columns(ar[0])
    return None


def unlist(t):
    while is_seq(t) and len(t.args[0]) == 1 and t.args[0][0][0] == 's':
        t = t.args[0][0][1]
    while t.op == 'app' and t.args[0] in ('builtins.list', 'builtins.tuple'):
        t = t.args[1][0]
    return t


def checker(M, rep, inst, store, guard):
    tol = sym('tol', 'real', 'nonnone')
    w = where_method(M, inst, 'check_preconditioner')
    r = M.call(inst, 'check_preconditioner', [XV, tol], store=store, guard=guard)
    if not clean_out(r):
        rep.unsure('check', 'check_preconditioner', '', w)
        return
    comp = [cal(AF, cal(AIF, XV)), cal(AIF, cal(AF, XV))]
    diffs = [app('sub', p) for c in comp for p in ((XV, c), (c, XV))]
    norms = [app('np.linalg.norm', (d,)) for d in diffs]
    bad = [truth(app('lt', (tol, n))) for n in norms]
    got = r.raise_guard()
    excs = {x.exc for x in r.raises if x.guard}
    if got in bad and r.guard == bnot(got):
        rep.check(excs == {'ValueError'}, 'check', 'check_preconditioner', 'raises %s' % sorted(excs), w)
        return
    if got == 0:
        rep.bad('check', 'check_preconditioner', 'never raises', w)
        return
    ats = batoms(got)
    if len(ats) == 1 and ats[0].op == 'app' and ats[0].args[0] in ('lt', 'le') and set(ats[0].args[1]) <= set(norms) | {tol}:
        rep.bad('check', 'check_preconditioner', 'raises when %s' % bshow(got), w)
    elif len(ats) == 1 and contains(ats[0], tol) and lin_known_norm(ats[0]) and not any(contains(ats[0], c) for c in comp):
        rep.bad('check', 'check_preconditioner', 'raises when %s' % bshow(got), w)
    elif len(ats) == 1 and ats[0].op == 'app' and ats[0].args[0] in ('lt', 'le') and tol_differs(ats[0], norms, tol):
        rep.bad('check', 'check_preconditioner', 'raises when %s' % bshow(got), w)
    else:
        rep.unsure('check', 'check_preconditioner', bshow(got), w)


def tol_differs(at, norms, tol):
    """The norm is compared with something definitely other than the tolerance."""
    a, b = at.args[1]
    if b not in norms:
        return False
    known = all(y.op in ('k', 'sym') or y.op == 'app' and y.args[0] in ('add', 'sub', 'mul', 'div', 'pow', 'neg', 'len', 'np.size',
                                                                         'np.linalg.norm', 'np.max', 'np.maximum', 'builtins.max', 'builtins.min', 'np.minimum', 'np.abs',
                                                                         'np.sqrt') for y in walk(a))
    try:
        return known and poly(a) != poly(tol)
    except Unsupported:
        return False


def lin_known_norm(t):
    return all(y.op in LINVOC and (y.op != 'app' or y.args[0] in LINOPS | {'np.linalg.norm', 'lt', 'le'}) for y in walk(t))


# ---------------------------------------------------- spectral evaluation
class Undecided(Exception):
    pass


class Wrong(Exception):
    pass


VALUES = [Fraction(v) for v in (-2, -1, 0, 1, 2)]
ORDERS = [(w, l, h) for l in VALUES for h in VALUES if l <= h for w in VALUES]


def orders_for(t):
    """The orders to try, also far below and far above each constant in t."""
    cs = {Fraction(abs(kval(y))) for y in walk(t) if isk(y) and type(kval(y)) in (int, float) and
          kval(y) == kval(y) and abs(kval(y)) != INF}
    cs = sorted(cs - {Fraction(0), Fraction(1, 2), Fraction(1), Fraction(2)})[:4]
    r = list(ORDERS)
    for c in cs:
        for f in (c / 8, c * 8):
            r += [tuple(f * v for v in o) for o in ORDERS]
    return r


class Spectral:
    """Evaluates terms built from one eigendecomposition for one eigenvalue
    and one pair of bounds."""

    def __init__(self, evals, evecs, ranks, x):
        self.evals, self.evecs, self.x = evals, evecs, x
        self.ranks = ranks              # term -> value
        self.rep = {}
        for t, r in ranks.items():
            self.sqrt_of(r)

    def sqrt_of(self, r):
        return self.rep.setdefault(r, mk('sym', '@sqrt(%s)' % r, ('real',)))

    def strip(self, t):
        while t.op == 'app' and t.args[0] in ('builtins.float', 'np.real', 'copy', 'np.array', 'np.asarray', 'np.float64',
                                              'np.atleast_1d', 'astype') and len(t.args[1]) == 1:
            t = t.args[1][0]
        return t

    def rank(self, t):
        """Value of a term built from the eigenvalue and the bounds by
        selection, comparison, absolute value and negation."""
        t = self.strip(t)
        if t in self.ranks:
            return self.ranks[t]
        if isk(t) and isinstance(kval(t), (int, float)) and kval(t) == kval(t) and abs(kval(t)) != INF:
            return Fraction(kval(t))
        if t.op == 'store':
            return self.rank(t.args[2]) if self.mask(t.args[1]) else self.rank(t.args[0])
        if t.op == 'gam':
            for g, l in t.args[0]:
                v = self.guard(g)
                if v:
                    return self.rank(l)
        if t.op == 'app':
            nm, ar, kw = t.args
            kw = dict(kw)
            if nm in ('np.maximum', 'np.fmax', 'builtins.max', 'np.minimum', 'np.fmin', 'builtins.min') and len(ar) == 2:
                f = max if 'max' in nm else min
                return f(self.rank(ar[0]), self.rank(ar[1]))
            if nm in ('np.abs', 'np.absolute', 'builtins.abs', 'abs') and len(ar) == 1:
                return abs(self.rank(ar[0]))
            if nm == 'neg':
                return -self.rank(ar[0])
            if nm in ('add', 'sub', 'mul') and len(ar) == 2:
                p, q = self.rank(ar[0]), self.rank(ar[1])
                return p + q if nm == 'add' else p - q if nm == 'sub' else p * q
            if nm == 'np.where' and len(ar) == 3:
                return self.rank(ar[1]) if self.mask(ar[0]) else self.rank(ar[2])
            if nm == 'np.clip':
                a = list(ar) + [None] * 3
                lo, hi = kw.get('a_min', kw.get('min', a[1])), kw.get('a_max', kw.get('max', a[2]))
                r = self.rank(a[0])
                if lo is not None and lo is not NONE:
                    r = max(r, self.rank(lo))
                if hi is not None and hi is not NONE:
                    r = min(r, self.rank(hi))
                return r
        raise Undecided(show(t)[:200])

    def guard(self, g):
        if g in (0, 1):
            return bool(g)
        ats = batoms(g)
        for a in ats:
            g = cofactor(g, a, self.mask(a))
            if g in (0, 1):
                return bool(g)
        raise Undecided(bshow(g)[:200])

    def mask(self, t):
        t = self.strip(t)
        if isk(t):
            return bool(kval(t))
        if t.op == 'B':
            return self.guard(t.args[0])
        if t in self.ranks and t is not self.evals:
            return self.ranks[t] != 0
        if t.op == 'app':
            nm, ar = t.args[0], t.args[1]
            if nm in ('lt', 'le', 'eq', 'ne') and len(ar) == 2:
                a, b = self.rank(ar[0]), self.rank(ar[1])
                return {'lt': a < b, 'le': a <= b, 'eq': a == b, 'ne': a != b}[nm]
            if nm in ('np.logical_and', 'and', 'bitand', 'np.bitwise_and'):
                return all(self.mask(y) for y in ar)
            if nm in ('np.logical_or', 'or', 'bitor', 'np.bitwise_or'):
                return any(self.mask(y) for y in ar)
            if nm in ('np.logical_not', 'not', 'invert') and len(ar) == 1:
                return not self.mask(ar[0])
        raise Undecided(show(t)[:200])

    # coefficient functions of the eigenvalue
    def coef(self, t):
        def leaf(y):
            if any(contains(y, z) for z in self.ranks):
                try:
                    return self.sq(self.rank(y))
                except Undecided:
                    pass
            if y.op == 'app' and y.args[0] == 'np.sqrt' and len(y.args[1]) == 1:
                return self.root(self.coef(y.args[1][0]))
            if y.op == 'app' and y.args[0] == 'pow' and isk(y.args[1][1]) and kval(y.args[1][1]) in (0.5, -0.5):
                r = self.root(self.coef(y.args[1][0]))
                return r if kval(y.args[1][1]) > 0 else r.inv()
            if y.op in ('gam', 'store') or y.op == 'app' and y.args[0] in ('np.where', 'np.maximum', 'np.minimum',
                                                                          'np.clip'):
                if y.op == 'gam':
                    for g, l in y.args[0]:
                        if self.guard(g):
                            return self.coef(l)
                if y.op == 'app' and y.args[0] == 'np.where' and len(y.args[1]) == 3:
                    return self.coef(y.args[1][1] if self.mask(y.args[1][0]) else y.args[1][2])
                raise Undecided(show(y)[:200])
            return None
        try:
            return elementwise(t, leaf)
        except Unsupported as e:
            raise Undecided(str(e))

    def sq(self, r):
        s = LL(ra(self.sqrt_of(r)))
        return s.mul(s)

    def root(self, c):
        for r, s in self.rep.items():
            a = LL(ra(s))
            if c.equal(a.mul(a)):
                return a
            if c.equal(a.mul(a).inv()):
                return a.inv()
        if c.equal(num(1)):
            return c
        raise Undecided('square root')

    # linear operators
    def op(self, t):
        """('X'|'L'|'M'|'VD'|'DV'|'D', coefficient)."""
        if t is self.x:
            return 'X', num(1)
        if t is self.evecs:
            return 'VD', num(1)
        if t.op == 'gam':
            for g, l in t.args[0]:
                if self.guard(g):
                    return self.op(l)
        if t.op == 'app':
            nm, ar, kw = t.args
            if nm in ('np.array', 'np.asarray', 'copy', 'np.real', 'np.atleast_1d') and len(ar) == 1:
                return self.op(ar[0])
            if nm == 'T' and len(ar) == 1:
                k, c = self.op(ar[0])
                if k in ('VD', 'DV'):
                    return ('DV' if k == 'VD' else 'VD'), c
                if k in ('M', 'D'):
                    return k, c
            if nm == 'np.diag' and len(ar) == 1:
                return 'D', self.coef(ar[0])
            if nm in ('matmul', 'np.dot', 'np.matmul') and len(ar) == 2:
                (k1, c1), (k2, c2) = self.op(ar[0]), self.op(ar[1])
                tab = {('VD', 'L'): 'X', ('DV', 'X'): 'L', ('M', 'X'): 'X', ('D', 'L'): 'L', ('VD', 'DV'): 'M',
                       ('VD', 'D'): 'VD', ('D', 'DV'): 'DV', ('M', 'M'): 'M', ('M', 'VD'): 'VD', ('DV', 'M'): 'DV'}
                if (k1, k2) in tab:
                    return tab[(k1, k2)], c1.mul(c2)
                if (k1, k2) in (('VD', 'X'), ('DV', 'L')):
                    raise Wrong('applies the eigenvectors where their transpose is needed, or the reverse')
                raise Undecided('product of %s and %s' % (k1, k2))
            if nm in ('add', 'sub') and len(ar) == 2 and any(isk(y) and kval(y) for y in ar):
                k1 = self.op(ar[1] if isk(ar[0]) else ar[0])[0]
                if k1 in ('X', 'L'):
                    raise Wrong('adds the constant %s to a vector' % show(ar[0] if isk(ar[0]) else ar[1]))
            if nm in ('add', 'sub') and len(ar) == 2:
                (k1, c1), (k2, c2) = self.op(ar[0]), self.op(ar[1])
                if k1 == k2:
                    return k1, c1 + c2 if nm == 'add' else c1 - c2
            if nm == 'neg':
                k, c = self.op(ar[0])
                return k, c.scale(Fraction(-1))
            if nm == 'mul' and len(ar) == 2:
                for a, b in ((ar[0], ar[1]), (ar[1], ar[0])):
                    try:
                        k, c = self.op(b)
                    except Undecided:
                        continue
                    d = self.coef(a)
                    if k in ('L', 'VD'):
                        return k, c.mul(d)
                    if isk(a):
                        return k, c.mul(d)
                    if k == 'X':
                        raise Wrong('multiplies a vector of the original space by eigenvalues entrywise')
                    break
            if nm == 'div' and len(ar) == 2:
                k, c = self.op(ar[0])
                d = self.coef(ar[1])
                if k in ('L', 'VD') or isk(ar[1]):
                    return k, c.mul(d.inv())
                if k == 'X':
                    raise Wrong('divides a vector of the original space by eigenvalues entrywise')
        raise Undecided(show(t)[:200])


def sym_part(t):
    """t is the symmetric part of the Hessian symbol (or the Hessian itself)."""
    def f(y):
        if y.op == 'app' and y.args[0] in ('np.atleast_2d', 'T', 'np.array', 'np.asarray', 'copy') and len(y.args[1]) == 1:
            return y.args[1][0]
        return y
    return rewalk(t, f)


def eigh_terms(t):
    return {y for y in walk(t) if y.op == 'app' and y.args[0] in ('np.linalg.eigh', 'np.linalg.eig')}


BOUNDS = (('no bounds', NONE, NONE), ('ev_min', LO, NONE), ('ev_max', NONE, HI), ('both bounds', LO, HI))


def expected_rank(w, lo, hi, L, H):
    r = w
    if L is not NONE:
        r = max(r, lo)
    if H is not NONE:
        r = min(r, hi)
    return r


def hessian_variant(M, rep, inst):
    nm = 'set_preconditioner_with_hessian'
    wm = where_method(M, inst, nm)
    sp = lambda t: truth(app('scipy.sparse.issparse', (t,)))
    xp = sym('x_point', 'nonnone', 'array', 'vec')
    hx = mk('call', app('autograd.hessian', (FUN,)), (xp,), ())
    x0, h0 = sym('x_before', 'nonnone', 'array', 'vec'), sym('hess_before', 'nonnone', 'array', 'mat')
    hx0 = mk('call', app('autograd.hessian', (FUN,)), (x0,), ())
    dense = bnot(sp(h0))
    befores = []
    for bkw, g in (({'x': x0}, bnot(sp(hx0))), ({'hessian': h0, 'ev_min': sym('lo_before', 'num', 'nonnone')}, dense)):
        b = M.call(inst, nm, [], bkw, guard=g)
        if b.guard and clean_out(b):
            befores.append(b)
    for how, kw0, mat, before in [('hessian', {'hessian': HS}, HS, None), ('x', {'x': xp}, hx, None)] + [
            (h + ', set before', k, m, b) for b in befores for h, k, m in (('hessian', {'hessian': HS}, HS), ('x', {'x': xp}, hx))]:
        for bn, lo, hi in BOUNDS if before is None else BOUNDS[:1]:
            kw = dict(kw0)
            if lo is not NONE:
                kw['ev_min'] = lo
            if hi is not NONE:
                kw['ev_max'] = hi
            o = M.call(inst, nm, [], kw, guard=bnot(sp(mat))) if before is None else M.call(
                inst, nm, [], kw, guard=band(before.guard, bnot(sp(mat))), store=before.store)
            cons = '%s(%s, %s)' % (nm, how, bn)
            if not ok_set(rep, 'hessian', cons, o, wm):
                continue
            if not clean_out(o):
                rep.unsure('hessian', cons, '', wm)
                continue
            for acc, power in (('unprecondition', -1), ('precondition', 1)):
                r = M.call(inst, acc, [XV], store=o.store, guard=o.guard)
                c = '%s: %s' % (cons, acc)
                if r.guard == 0 or not clean_out(r):
                    rep.unsure('hessian', c, bshow(r.guard), wm)
                    continue
                eh = eigh_terms(r.value)
                if len(eh) != 1:
                    if not contains(r.value, mat) and lin_known(r.value):
                        rep.bad('hessian', c, 'does not use the Hessian: %s' % show(r.value)[:300], wm)
                    else:
                        rep.unsure('hessian', c, '%d eigendecompositions' % len(eh), wm)
                    continue
                e = eh.pop()
                if not hess_arg(rep, c, e.args[1][0], mat, wm):
                    continue
                try:
                    res = None
                    for ro in orders_for(r.value):
                        ranks = {sub(e, K(0)): ro[0]}
                        if lo is not NONE:
                            ranks[lo] = ro[1]
                        if hi is not NONE:
                            ranks[hi] = ro[2]
                        sp_ = Spectral(sub(e, K(0)), sub(e, K(1)), ranks, XV)
                        wr = expected_rank(ro[0], ro[1], ro[2], lo, hi)
                        if wr <= 0:
                            continue        # no real square root to speak of
                        k, cf = sp_.op(r.value)
                        if k != 'X':
                            raise Undecided(k)
                        want = LL(ra(sp_.sqrt_of(wr)))
                        if power < 0:
                            want = want.inv()
                        q = cf.equal(want)
                        if q is False:
                            res = 'for an eigenvalue %s its component is multiplied by %s, not %s' % (
                                order_name(ro, lo, hi), cf.show(), want.show())
                            break
                        if q is None:
                            raise Undecided('coefficient %s' % cf.show())
                    if res:
                        rep.bad('hessian', c, res, wm)
                    else:
                        rep.ok('hessian', c, where=wm)
                except Wrong as ex:
                    rep.bad('hessian', c, str(ex), wm)
                except Undecided as ex:
                    rep.unsure('hessian', c, str(ex), wm)
    # bounds left out
    for how, kw, mat in (('hessian', {'hessian': HS}, HS), ('x', {'x': xp}, hx)):
        o = M.call(inst, nm, [], kw, guard=bnot(sp(mat)))
        b = M.call(inst, nm, [], dict(kw, ev_min=NONE, ev_max=NONE), guard=bnot(sp(mat)))
        if o.guard and b.guard and clean_out(o) and clean_out(b):
            for acc in ('precondition', 'unprecondition'):
                omitted_same(rep, 'hessian', '%s(%s), no bounds: %s' % (nm, how, acc), M.call(inst, acc, [XV], store=o.store, guard=o.guard),
                             M.call(inst, acc, [XV], store=b.store, guard=b.guard), wm)
    # argument combinations
    for cons, kw, exc in (('both x and hessian', {'x': xp, 'hessian': HS}, 'ValueError'),
                          ('neither x nor hessian', {}, 'ValueError')):
        o = M.call(inst, nm, [], kw)
        refused(rep, 'config', '%s: %s' % (nm, cons), o, exc, wm)
    o = M.call(inst, nm, [], {'hessian': HS}, guard=sp(HS))
    refused(rep, 'config', '%s: sparse Hessian' % nm, o, 'NotImplementedError', wm)


def order_name(ro, lo, hi):
    s = []
    if lo is not NONE:
        s.append('below the lower bound' if ro[0] < ro[1] else 'equal to the lower bound' if ro[0] == ro[1] else 'above the lower bound')
    if hi is not NONE:
        s.append('above the upper bound' if ro[0] > ro[2] else 'equal to the upper bound' if ro[0] == ro[2] else 'below the upper bound')
    return ' and '.join(s) or ''


def hess_arg(rep, c, arg, mat, w):
    """The decomposed matrix is the (symmetrised) Hessian."""
    p = poly(sym_part(arg))
    if p == patom(sym_part(mat)):
        return True
    if not contains(arg, mat):
        rep.bad('hessian', c, 'decomposes %s' % show(arg)[:200], w)
    elif set(patoms(p)) == {aid(sym_part(mat))}:
        rep.bad('hessian', c, 'decomposes %s, which is not the Hessian' % show(arg)[:200], w)
    else:
        rep.unsure('hessian', c, 'decomposes %s' % show(arg)[:200], w)
    return False


def refused(rep, rule, cons, o, exc, w):
    if o.guard == 0 and o.raises and all(r.exc == exc for r in o.raises):
        rep.ok(rule, cons, where=w)
    elif not settled(o):
        rep.unsure(rule, cons, bshow(o.guard), w)
    elif o.guard == 0:
        rep.bad(rule, cons, 'raises %s rather than %s' % (sorted({r.exc for r in o.raises}), exc), w)
    elif o.guard == 1:
        rep.bad(rule, cons, 'is accepted', w)
    elif all(plain_test(a) for a in batoms(o.guard)):
        rep.bad(rule, cons, 'is accepted when %s' % bshow(o.guard)[:300], w)
    else:
        rep.unsure(rule, cons, bshow(o.guard), w)


def plain_test(a):
    """An atom about the size, type or truth of an argument."""
    return a.op == 'sym' or a.op in ('app', 'nonempty', 'isnone') and all(
        y.op in ('sym', 'k', 'ext', 'nonempty', 'isnone', 'dom') or y.op == 'app' and y.args[0] in (
            'lt', 'le', 'eq', 'len', 'np.size', 'np.ndim', 'np.any', 'np.all', 'nonempty', 'isnone', 'isinstance', 'scipy.sparse.issparse',
            'np.isreal', 'bool') for y in walk(a))


def truncation(M, rep):
    f = M.glob('optimization_lib', 'truncate_eigenvalues')
    F = M.I.funcs[f]
    w = where_func_t(M, f)
    ev = sym('evals', 'array', 'vec', 'nonnone')
    for bn, lo, hi in BOUNDS:
        o = M.run(f, [ev], {'ev_min': lo, 'ev_max': hi})
        cons = 'truncate_eigenvalues(%s)' % bn
        if o.guard != 1 or not clean_out(o):
            if o.guard == 0 and settled(o):
                rep.bad('truncate', cons, 'always raises', w)
            else:
                rep.unsure('truncate', cons, bshow(o.guard), w)
            continue
        try:
            res = None
            for ro in orders_for(o.value):
                ranks = {ev: ro[0]}
                if lo is not NONE:
                    ranks[lo] = ro[1]
                if hi is not NONE:
                    ranks[hi] = ro[2]
                s = Spectral(ev, None, ranks, None)
                got = s.rank(o.value)
                if got != expected_rank(ro[0], ro[1], ro[2], lo, hi):
                    res = 'an eigenvalue %s is not clipped to the bounds' % order_name(ro, lo, hi)
                    break
            rep.check(res is None, 'truncate', cons, res or '', w)
        except Undecided as ex:
            rep.unsure('truncate', cons, str(ex), w)
        # the argument itself
        hit = [e for e in o.events if e.kind in ('store', 'aug', 'mutcall') and e.data and e.data[0] is ev]
        hit += [e for e in o.events if e.kind == 'store' and e.data[0].op == 'store' and base_of(e.data[0]) is ev]
        if hit:
            rep.bad('truncate', cons + ', argument', 'changes its argument at %s' % hit[0].where(), w)
        elif o.value is ev and (lo is not NONE or hi is not NONE):
            rep.bad('truncate', cons + ', argument', 'returns the argument unclipped', w)
        else:
            rep.ok('truncate', cons + ', argument', where=w)
    for bn, lo, hi in BOUNDS:
        kw = {k: v for k, v in (('ev_min', lo), ('ev_max', hi)) if v is not NONE}
        if len(kw) < 2:
            omitted_same(rep, 'truncate', 'truncate_eigenvalues(%s), other bounds left out' % bn, M.run(f, [ev], kw),
                         M.run(f, [ev], {'ev_min': lo, 'ev_max': hi}), w)
    bl, bh = sym('ev_min_any', 'nonnone'), sym('ev_max_any', 'nonnone')
    for nm, args, b in (('ev_min', {'ev_min': bl}, bl), ('ev_max', {'ev_max': bh}, bh)):
        o = M.run(f, [ev], args, guard=bnot(truth(app('np.isreal', (b,)))))
        refused(rep, 'truncate', 'truncate_eigenvalues with a non-real %s' % nm, o, 'ValueError', w)


def base_of(t):
    while t.op == 'store':
        t = t.args[0]
    return t


def where_func_t(M, f):
    F = M.I.funcs.get(f)
    if F is None:
        return None
    mod = M.project.modules.get(F.module)
    return '%s:%s in %s' % (M.project.relpath(mod.path) if mod else F.module, F.node.lineno, F.qual)


def eigenspace(M, rep):
    f = M.glob('optimization_lib', 'transform_eigenspace')
    w = where_func_t(M, f)
    V, ev, tf = sym('eigvecs', 'array', 'nonnone'), sym('eigvals', 'array', 'nonnone'), sym('transform', 'callable', 'nonnone')
    o = M.run(f, [V, ev, tf])
    fit = band(truth(app('eq', (app('np.ndim', (V,)), K(2)))), band(
        truth(app('eq', (app('np.ndim', (ev,)), K(1)))),
        truth(app('eq', (sub(app('np.shape', (V,)), K(1)), app('len', (ev,)))))))
    got = o.guard
    if got == fit and all(r.exc == 'ValueError' for r in o.raises):
        rep.ok('eigenspace', 'transform_eigenspace: shapes', where=w)
    elif settled(o) and got == 1:
        rep.bad('eigenspace', 'transform_eigenspace: shapes', 'no shape is refused', w)
    elif settled(o) and all(a in batoms(fit) or shape_atom(a, V, ev) for a in batoms(got)):
        rep.bad('eigenspace', 'transform_eigenspace: shapes', 'returns when %s' % bshow(got), w)
    else:
        rep.unsure('eigenspace', 'transform_eigenspace: shapes', bshow(got), w)
    if o.guard == 0:
        return
    r = M.run(o.raw, [XV], {}, o.store, o.guard)
    new = cal(tf, ev)
    if not clean_out(r):
        rep.unsure('eigenspace', 'transform_eigenspace: result', show(r.value)[:200], w)
        return
    # in the span: V(f(λ) V'x); outside: x.  value = x + V((f-1) V'x), modulo V'V = 1
    try:
        k = span_coef(r.value, V, new, XV)
        ok = k[0].equal(num(1)) and k[1].equal(LL(ra(new)) + num(-1))
        if ok:
            rep.ok('eigenspace', 'transform_eigenspace: result', where=w)
        elif k[0].equal(num(1)) is False or k[1].equal(LL(ra(new)) + num(-1)) is False:
            rep.bad('eigenspace', 'transform_eigenspace: result', 'a component in the eigenspace is multiplied by %s and one '
                    'outside it by %s' % ((k[0] + k[1]).show(), k[0].show()), w)
        else:
            rep.unsure('eigenspace', 'transform_eigenspace: result', show(r.value)[:200], w)
    except Wrong as ex:
        rep.bad('eigenspace', 'transform_eigenspace: result', str(ex), w)
    except (Undecided, Unsupported) as ex:
        rep.unsure('eigenspace', 'transform_eigenspace: result', str(ex), w)


def shape_atom(a, V, ev):
    """Equality of one dimension of V with the number of eigenvalues."""
    if a.op != 'app' or a.args[0] != 'eq':
        return False
    x, y = a.args[1]
    n = (app('len', (ev,)), app('np.size', (ev,)), sub(app('np.shape', (ev,)), K(0)))
    d = [sub(app('np.shape', (V,)), K(k)) for k in (0, 1)] + [app('len', (V,))]
    return x in d and y in n or y in d and x in n


def span_coef(t, V, new, x):
    """(a, b) with t = a x + V (b V'x); columns of V orthonormal."""
    def coef(y):
        return elementwise(y, lambda z: LL(ra(new)) if z is new else None)

    def op(y):
        if y is x:
            return 'X', num(1), num(0)
        if y is V:
            return ('V',)
        if y.op == 'app':
            nm, ar = y.args[0], y.args[1]
            if nm == 'T' and ar[0] is V:
                return ('VT',)
            if nm in ('matmul', 'np.dot', 'np.matmul') and len(ar) == 2:
                p, q = op(ar[0]), op(ar[1])
                if p[0] == 'VT' and q[0] == 'X':
                    return 'L', q[1] + q[2]
                if p[0] == 'V' and q[0] == 'L':
                    return 'X', num(0), q[1]
                if p[0] == 'V' and q[0] == 'X' or p[0] == 'VT' and q[0] == 'L':
                    raise Wrong('applies the eigenvectors where their transpose is needed, or the reverse')
            if nm in ('add', 'sub') and len(ar) == 2 and any(isk(z) and kval(z) for z in ar):
                if op(ar[1] if isk(ar[0]) else ar[0])[0] in ('X', 'L'):
                    raise Wrong('adds the constant %s to a vector' % show(ar[0] if isk(ar[0]) else ar[1]))
            if nm in ('add', 'sub') and len(ar) == 2:
                p, q = op(ar[0]), op(ar[1])
                if p[0] == q[0] and p[0] in ('X', 'L'):
                    return (p[0],) + tuple(a + b if nm == 'add' else a - b for a, b in zip(p[1:], q[1:]))
            if nm == 'mul' and len(ar) == 2:
                for a, b in ((ar[0], ar[1]), (ar[1], ar[0])):
                    try:
                        q = op(b)
                    except Undecided:
                        continue
                    if q[0] == 'L':
                        return 'L', q[1].mul(coef(a))
        raise Undecided(show(y)[:200])
    r = op(t)
    if r[0] != 'X':
        raise Undecided(r[0])
    return r[1], r[2]


def sparse_lib(M, rep):
    if not M.has_glob('sparse_preconditioners_lib', 'get_sym_matrix_inv_sqrt_funcs'):
        return
    f = M.glob('sparse_preconditioners_lib', 'get_sym_matrix_inv_sqrt_funcs')
    w = where_func_t(M, f)
    g = truth(app('scipy.sparse.issparse', (HS,)))
    o = M.run(f, [HS], guard=bnot(g))
    refused(rep, 'sparse', 'dense argument', o, 'ValueError', w)
    o = M.run(f, [HS], guard=g)
    if o.guard == 0 or not clean_out(o):
        rep.unsure('sparse', 'operators', bshow(o.guard), w)
        return
    vals = []
    for i in (0, 1):
        r = M.run(sub(o.value, K(i)), [XV], {}, o.store, o.guard)
        if r.guard == 0 or not clean_out(r):
            rep.unsure('sparse', 'operators', bshow(r.guard), w)
            return
        vals.append(strip_mm(strip_csc(r.value)))
    mul_, sol = vals
    kinds = [mult_or_solve(v) for v in vals]
    ch = [y for v in vals for y in walk(v) if y.op == 'app' and 'cholesky' in str(y.args[0])]
    root = None
    if None in kinds:
        rep.unsure('sparse', 'operators', '; '.join(show(v)[:200] for v in vals), w)
        return
    (k0, m0), (k1, m1) = kinds
    if k0 == 'mult' and k1 == 'solve' and m0 is m1:
        rep.ok('sparse', 'operators are inverse to each other', where=w)
        square_root(rep, m0, w)
    elif k0 == 'mult' and k1 == 'solve':
        rep.bad('sparse', 'operators are inverse to each other', 'multiplies by %s but solves with %s' % (show(m0), show(m1)), w)
    else:
        rep.bad('sparse', 'operators are inverse to each other', 'the first is %s by %s, the second %s with %s' % (
            k0, show(m0), k1, show(m1)), w)


def square_root(rep, m, w):
    """P H P' = L L', so (P'L)(P'L)' = H: the operator must multiply by (P'L)'."""
    cons = 'the operators belong to a square root of the Hessian'
    tr = m.op == 'app' and m.args[0] == 'T'
    s = m.args[1][0] if tr else m
    chol = app('sksparse.cholmod.cholesky', (HS,))
    low = mk('mcall', chol, 'L', ())
    if s.op == 'mcall' and s.args[0] is chol and s.args[1] == 'apply_Pt' and [v for _, v in s.args[2]] == [low]:
        rep.check(tr, 'sparse', cons, 'multiplies by P\'L rather than its transpose', w)
    elif s is low:
        rep.bad('sparse', cons, 'leaves out the permutation of the sparse factorisation', w)
    elif s.op == 'mcall' and s.args[0] is chol and s.args[1] == 'apply_P' and [v for _, v in s.args[2]] == [low]:
        rep.bad('sparse', cons, 'applies the permutation instead of its inverse', w)
    else:
        rep.unsure('sparse', cons, show(m), w)


SAME_MAT = {'tocsc', 'tocsr', 'tocoo', 'todense', 'toarray', 'copy', 'asformat', 'tolil'}


def strip_csc(t):
    def f(y):
        if y.op == 'app' and (y.args[0] in SAME_MAT or y.args[0].startswith('scipy.sparse.') and y.args[0].endswith(('_matrix', '_array'))
                              and y.args[0].split('.')[-1].split('_')[0] in ('csc', 'csr', 'coo', 'lil', 'dok', 'bsr', 'dia')) \
                and len(y.args[1]) >= 1 and not is_seq(y.args[1][0]):
            return y.args[1][0]
        if y.op == 'mcall' and y.args[1] == 'asformat':
            return y.args[0]
        if y.op == 'app' and y.args[0] == 'T' and y.args[1][0].op == 'app' and y.args[1][0].args[0] == 'T':
            return y.args[1][0].args[1][0]
        return y
    return rewalk(t, f)


def mult_or_solve(t):
    if t.op == 'app' and t.args[0] == 'matmul' and t.args[1][1] is XV:
        return 'mult', t.args[1][0]
    if t.op == 'call' and t.args[1] == (XV,) and t.args[0].op == 'app' and t.args[0].args[0] == 'scipy.sparse.linalg.factorized':
        return 'solve', t.args[0].args[1][0]
    if t.op == 'app' and t.args[0] in ('scipy.sparse.linalg.spsolve', 'np.linalg.solve') and len(t.args[1]) == 2 and t.args[1][1] is XV:
        return 'solve', t.args[1][0]
    return None
