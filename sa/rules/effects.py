"""P11, P12: operations leave their arguments alone and hand out fresh values."""
from ..suite import *
from .. import oneshot
from ..report import Part
from .fnrules import FUN, PP, FF, L, K as _K
from .optrules import where_func_t, settled, HS

# operations whose result may share memory with their first argument
VIEW = {'np.reshape', 'np.ravel', 'T', 'np.transpose', 'np.swapaxes', 'np.atleast_1d', 'np.atleast_2d', 'np.atleast_3d',
        'np.asarray', 'np.asanyarray', 'np.squeeze', 'np.diag', 'np.diagonal', 'np.broadcast_to', 'np.expand_dims',
        'np.real', 'np.imag', 'view', 'np.moveaxis', 'np.rollaxis', 'np.ascontiguousarray', 'np.require',
        'builtins.iter', 'dict.values', 'dict.items', 'np.nan_to_num', 'np.conj'}
MAYBE = {'np.nan_to_num', 'np.conj', 'np.diag'}
# operations that always make new memory
FRESH = {'np.array', 'copy', 'np.flatten', 'np.hstack', 'np.vstack', 'np.concatenate', 'np.stack', 'np.column_stack',
         'add', 'sub', 'mul', 'div', 'pow', 'neg', 'mod', 'floordiv', 'matmul', 'np.exp', 'np.log', 'np.log1p',
         'np.expm1', 'np.sqrt', 'np.square', 'np.abs', 'np.where', 'np.clip', 'np.maximum', 'np.minimum', 'np.sum',
         'np.logaddexp', 'scipy.special.logsumexp', 'np.full', 'np.zeros', 'np.ones', 'np.empty', 'np.eye', 'np.arange',
         'np.outer', 'np.dot', 'np.linalg.cholesky', 'np.tril', 'np.triu', 'np.append', 'np.tile', 'np.repeat', 'np.max',
         'np.min', 'np.mean', 'np.cumsum', 'np.linalg.inv', 'np.linalg.solve', 'np.full_like', 'np.zeros_like',
         'np.ones_like', 'np.delete', 'np.insert', 'np.random.random', 'np.nonzero', 'np.argwhere', 'np.sort', 'np.unique',
         'lt', 'le', 'eq', 'ne', 'and', 'or', 'not', 'len', 'np.shape', 'np.ndim', 'np.size', 'np.prod', 'np.any', 'np.all',
         'np.isclose', 'np.isnan', 'np.isfinite', 'np.logical_and', 'np.logical_or', 'np.logical_not', 'fmt', 'builtins.str',
         'builtins.int', 'builtins.float', 'builtins.bool', 'json.dumps', 'np.log2', 'np.flatnonzero', 'np.einsum', 'np.kron',
         'todense', 'toarray', 'tolist', 'np.linalg.norm', 'np.einsum', 'np.take', 'np.cumprod', 'np.allclose', 'np.array_equal',
         'scipy.special.expit', 'scipy.special.logit', 'np.reciprocal', 'np.tril_indices', 'np.flip', 'np.diff', 'np.round',
         'isinstance', 'in', 'np.linalg.eigh', 'np.linalg.slogdet', 'np.broadcast_arrays'}
CONTAINERS = {'builtins.list', 'builtins.tuple', 'builtins.dict', 'sorted', 'reversed', 'dict.get', 'builtins.sorted'}
MUT_EXT = {'np.fill_diagonal', 'np.copyto', 'np.put', 'np.place', 'np.putmask', 'np.put_along_axis', 'np.random.shuffle',
           'builtins.setattr', 'builtins.delattr', 'np.add.at', 'np.subtract.at', 'np.multiply.at', 'random.shuffle',
           'operator.iadd', 'operator.setitem', 'operator.delitem', 'operator.imul'}
# calls that change the state of the process
GLOBAL_EXT = {'np.seterr', 'np.set_printoptions', 'np.random.seed', 'random.seed', 'warnings.filterwarnings', 'warnings.simplefilter',
              'os.chdir', 'sys.setrecursionlimit', 'np.seterrcall', 'np.setbufsize', 'warnings.resetwarnings', 'os.putenv',
              'np.random.set_state', 'random.setstate', 'numpy.random.seed', 'np.set_string_function', 'locale.setlocale'}


class Unknown(Exception):
    pass


def is_view_index(i):
    """True when indexing with i gives a view, False for a copy, None unknown."""
    if i.op == 'slice' or i is NONE:
        return True
    if isk(i):
        return True if isinstance(kval(i), (int, str)) or kval(i) is Ellipsis else None
    if i.op in ('iota', 'psum', 'lv', 'key'):
        return True
    if is_seq(i):
        e = simple_elems(i)
        if i.op == 'list':
            return False
        if e is None:
            return None
        rs = [is_view_index(x) for x in e]
        return False if False in rs else None if None in rs else True
    if i.op == 'app':
        if i.args[0] in ('lt', 'le', 'eq', 'ne', 'np.logical_and', 'np.logical_or', 'np.logical_not', 'np.tril_indices',
                         'np.arange', 'np.nonzero', 'np.isnan', 'np.argsort', 'np.atleast_1d', 'np.array', 'np.asarray', 'np.flatnonzero',
                         'np.tril', 'np.triu', 'np.triu_indices', 'np.argwhere', 'np.where', 'np.ravel', 'np.flatten'):
            return False
        if intlike(i):
            return True
    if i.op == 'sub' and i.args[0].op == 'app' and i.args[0].args[0] == 'ndindex':
        return True
    if i is FB:
        return False
    return None


def roots(t, inputs, memo=None):
    """{root: 'same' or 'maybe'}: the inputs whose memory t may share."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    memo[t] = {}
    r = _roots(t, inputs, memo)
    memo[t] = r
    return r


def join(*ds):
    r = {}
    for d in ds:
        for k, v in d.items():
            if r.get(k) != 'same':
                r[k] = v
    return r


def weaken(d):
    return {k: 'maybe' for k in d}


def mentions(t, inputs):
    return any(y in inputs for y in walk(t))


def _roots(t, inputs, memo):
    rec = lambda y: roots(y, inputs, memo)
    if t in inputs:
        return {t: 'same'}
    o = t.op
    if o in ('k', 'sym', 'iota', 'B', 'lv', 'func', 'cls', 'psum', 'sum', 'domlen', 'undef', 'key'):
        return {}
    if o == 'prev':
        # the value before the loop in the first iteration
        r = rec(t.args[3]) if isinstance(t.args[3], T) else {}
        try:
            return join(rec(t.args[2]), r)
        except Unknown:
            if r:
                return r
            raise
    if o == 'gam':
        return join(*[rec(l) for _, l in t.args[0]])
    if o == 'storeupto':
        return rec(t.args[0])
    if o in ('store', 'dictset', 'dictdel', 'storeadd', 'storemap'):
        r = rec(t.args[0])
        if o == 'dictset':
            r = join(r, rec(t.args[2]))
        return r
    if o in ('tuple', 'list'):
        return join({}, *[rec(x) for _, x in t.args[0] if isinstance(x, T)])
    if o == 'dict':
        out = {}
        for k, e in t.args[0]:
            out = join(out, rec(e[1]) if k == 'e' and isinstance(e, tuple) else rec(e) if isinstance(e, T) else {})
        return out
    if o == 'dictmap':
        return join({}, *[rec(x) for x in t.args[2:] if isinstance(x, T)])
    if o in ('map', 'fmap'):
        return rec(t.args[2])
    if o == 'mcall':
        # conversions of a member give new values (checked per pattern)
        if t.args[1] in ('fold', 'flatten', 'empty', 'random', 'empty_bool', 'flat_indices', 'flat_names', 'freeing_jacobian',
                         'unfreeing_jacobian', 'flat_length', 'as_dict', 'to_json', 'validate_folded', 'shape'):
            return {}
        raise Unknown(show(t)[:100])
    if o == 'sub':
        b = rec(t.args[0])
        if not b:
            return b
        v = is_view_index(t.args[1])
        if v is True:
            return b
        if v is False:
            return {}
        return weaken(b)
    if o == 'val':
        return rec(t.args[0])
    if o == 'attr':
        return rec(t.args[0])
    if o == 'app':
        nm, ar, kw = t.args
        kw = dict(kw)
        if nm == 'np.array' and 'copy' in kw and kw['copy'] is not TRUE and ar:
            return rec(ar[0])
        if nm in ('astype',) and ar:
            if 'copy' not in kw or kw['copy'] is TRUE:
                return {}
            x = ar[0]
            while x.op == 'app' and x.args[0] in ('np.atleast_1d', 'np.asarray') and len(x.args[1]) == 1 and not x.args[2]:
                x = x.args[1][0]
            # an argument may well have the number type asked for
            return rec(ar[0]) if kw['copy'] is FALSE and x.op == 'sym' else weaken(rec(ar[0]))
        if nm in FRESH:
            return {}
        if nm in VIEW and ar:
            return weaken(rec(ar[0])) if nm in MAYBE else rec(ar[0])
        if nm in CONTAINERS:
            return join({}, *[rec(x) for x in ar])
        if nm.startswith(('scipy.sparse.', 'builtins.range', 'range', 'enumerate', 'ndindex')):
            return {}
        if mentions(t, inputs):
            raise Unknown(nm)
        return {}
    if o == 'call':
        if t.args[0].op == 'app' and t.args[0].args[0].startswith('autograd.'):
            return {}
        if mentions(t, inputs):
            raise Unknown('call')
        return {}
    if mentions(t, inputs):
        raise Unknown(o)
    return {}


# ------------------------------------------------------------------ entries
def pattern_entries(S, labels=None):
    M = S.M
    bs = sym('flag', 'bool', 'nonnone')
    table = [('fold', [FV, FREE, VV]), ('flatten', [FO, FREE, VV]), ('flat_length', [FREE]), ('flat_indices', [FB, FREE]),
             ('freeing_jacobian', [FO, SPARSE]), ('unfreeing_jacobian', [FO, SPARSE]), ('validate_folded', [FO, VV]),
             ('empty', [bs]), ('empty_bool', [bs]), ('random', []), ('as_dict', []), ('to_json', []),
             ('__eq__', [sym('other', 'nonnone')]), ('flat_names', [FREE]), ('__str__', []), ('shape', []),
             ('keys', []), ('__getitem__', [sym('key', 'nonnone')])]
    for label in labels or S.LABELS:
        inst = S.make(label)
        for op, args in table:
            if M.has_method(inst.cls, op):
                yield inst, op, args


def state_changes(inst, o):
    """Descriptions of what differs in the store after an operation: ([global], [own])."""
    glob, own = [], []
    for k, v in o.store.items():
        old = inst.store.get(k)
        if old is v:
            continue
        if k[0] == 'a' and k[1] is inst.obj:
            own.append('%s %s' % ('attribute' if old is not None else 'new attribute', k[2]))
        elif old is None:
            continue
        elif k[0] == 'c':
            own.append('internal %s' % k[1].args[0])
        elif k[0] == 'g':
            glob.append('global %s' % k[-1])
    for e in o.events:
        if e.kind == 'ext' and e.name in GLOBAL_EXT and e.guard != 0:
            glob.append('process state (%s at %s)' % (e.name, e.where()))
    return sorted(set(glob)), sorted(set(own))


OTHER = {FV: sym('flat_val2', 'nonnone', 'array', 'vec'), FO: sym('folded_val2', 'nonnone'), FB: sym('folded_bool2', 'nonnone')}
SECOND = set(OTHER.values())


def observed(S, inst, op, args):
    """Whether a later operation can tell that an earlier one changed the
    instance: None no, (True, text) yes, (False, text) cannot be said."""
    M = S.M
    worst = None
    for m1 in (TRUE, FALSE) if FREE in args else (None,):
        o = M.call(inst, op, [m1 if a is FREE else a for a in args])
        if not state_changes(inst, o)[1]:
            continue
        g = band(inst.assume, o.guard) if o.guard else inst.assume
        private = private_cells(inst, o)
        control = set()
        for mut, store0, store1, gm in histories(M, inst, o, g):
            for m2 in ([m1, FALSE if m1 is TRUE else TRUE] if m1 is not None else [FALSE, TRUE]):
                for i2, op2, args2 in pattern_entries(S, (inst.label,)):
                    for ren in ({}, OTHER) if set(OTHER) & set(args2) else ({},):
                        a2 = [m2 if a is FREE else ren.get(a, a) for a in args2]
                        x, y = M.call(inst, op2, a2, store=store0, guard=gm), M.call(inst, op2, a2, store=store1, guard=gm)
                        if x.value is y.value and x.guard == y.guard:
                            if m2 is m1 and not ren and not mut:
                                control.add(op2)
                            continue
                        how = mut + (op2 if FREE not in args2 else '%s(free=%s)' % (op2, show(m2)))
                        if m1 is not None:
                            how += ' after free=%s' % show(m1)
                        mixed = any(contains(t, s) and contains(t, r) for t in walk(y.value) if t.op == 'B'
                                    for r, s in OTHER.items())
                        if settled(x) and settled(y) and not mixed and (not private or op2 in control):
                            d = diff_shape(x.value, y.value) if x.guard == y.guard else 'succeeds when %s  vs  %s' % (
                                bshow(x.guard)[:700], bshow(y.guard)[:700])
                            return True, '%s then gives another result: %s' % (how, str(d)[:1600])
                        worst = False, '%s may give another result' % how
    return worst


def histories(M, inst, o, g):
    """(description, state without the operation, state with it, guard)."""
    yield '', inst.store, o.store, g
    for m, args in (('__setitem__', [sym('@key', 'nonnone', 'str'), sym('@pat', 'pattern', 'nonnone')]),
                    ('__delitem__', [sym('@key', 'nonnone', 'str')])):
        if M.has_method(inst.cls, m):
            a, b = M.call(inst, m, args, guard=g), M.call(inst, m, args, store=o.store, guard=g)
            if a.guard and b.guard and a.guard == b.guard:
                yield 'after %s, ' % m, a.store, b.store, band(g, a.guard)


def private_cells(inst, o):
    """The changed contents are of attributes that hold no part of the configuration."""
    own = {k for k, v in o.store.items() if inst.store.get(k) is not v and k[0] == 'a' and k[1] is inst.obj}
    if any(k[0] == 'c' and k in inst.store and inst.store[k] is not v for k, v in o.store.items()):
        return False
    return all(k not in inst.store or inst.store[k] is NONE for k in own)


def mutated(o, inputs):
    """[(event, root, certainty)] for every input an event may change."""
    out, unk = [], []
    for e in o.events:
        if e.guard == 0:
            continue
        tgt = []
        if e.kind in ('store', 'aug', 'mutcall', 'setitem', 'delitem', 'delattr', 'setattr') and e.data:
            tgt = [e.data[0]]
        elif e.kind == 'ext':
            if e.name in MUT_EXT and e.data:
                tgt = [e.data[0]]
            for x in e.data:
                if isinstance(x, tuple) and len(x) == 2 and x[0] == 'out':
                    tgt.append(x[1])
        elif e.kind == 'setglobal':
            out.append((e, None, 'same'))
            continue
        for t in tgt:
            if not isinstance(t, T) or t.op in ('cell', 'obj'):
                continue
            try:
                for r, c in roots(t, inputs).items():
                    out.append((e, r, c))
            except Unknown as ex:
                unk.append((e, str(ex)))
    return out, unk


def p11(S, rep, tier):
    M = S.M
    rep.rule('arguments', 'no operation writes to memory of an argument')
    rep.rule('state', 'no reading operation changes what later operations of the pattern do, or anything global')
    oneshot.report(M.project, rep, 'state', lambda m, c: not m.endswith(('function_patterns', 'optimization_lib')))
    for inst, op, args in pattern_entries(S):
        o = M.call(inst, op, args)
        w = where_method(M, inst, op)
        cons = '%s %s.%s' % (inst.label, inst.name, op)
        inputs = {a for a in args if a.op == 'sym'}
        confs = {v for v in inst.kw.values() if v.op == 'sym'}
        pure(rep, cons, o, inputs, confs, w)
        gl, own = state_changes(inst, o)
        ob = observed(S, inst, op, args) if own and not gl else None
        if gl:
            rep.bad('state', cons, 'changes %s' % ', '.join(gl), w)
        elif ob:
            (rep.bad if ob[0] else rep.unsure)('state', cons, 'changes %s; %s' % (', '.join(own), ob[1]), w)
        elif o.notes:
            rep.unsure('state', cons, str(o.notes[:2]), w)
        else:
            rep.ok('state', cons, where=w)
    rep.rule('building', 'constructing a pattern, or putting it into a container, changes none of the patterns given')
    R = Part(rep, {'arguments': 'building'})
    for label in S.CORE:
        inst = S.make(label)
        pure(R, 'constructing a %s' % inst.name, inst.out, set(), {v for v in inst.kw.values() if v.op == 'sym'}, where_method(M, inst, '__init__'))
    inst = S.make('pdict')
    pat = sym('pat', 'pattern', 'nonnone')
    pure(R, 'PatternDict.__setitem__', M.call(inst, '__setitem__', [sym('key', 'str', 'nonnone'), pat]), {pat}, set(), where_method(M, inst, '__setitem__'))
    for cons, o, inputs, w in function_entries(M):
        pure(rep, cons, o, inputs, set(), w)


def pure(rep, cons, o, inputs, confs, w):
    hits, unk = mutated(o, inputs | confs)
    sure = [h for h in hits if h[2] == 'same']
    if sure:
        e, r, _ = sure[0]
        what = 'a global' if r is None else ('its configuration ' if r in confs else 'its argument ') + show(r)
        rep.bad('arguments', cons, '%s changes %s (%s)' % (e.where(), what, e.name), w)
    elif hits or unk or o.notes:
        rep.unsure('arguments', cons, '%s' % ([h[0].where() for h in hits] + [u[1] for u in unk] + o.notes[:2],), w)
    else:
        rep.ok('arguments', cons, where=w)


def function_entries(M):
    I = M.I
    x = sym('x', 'nonnone', 'array')
    args = [sym('arg%d' % i, 'nonnone') for i in range(3)]
    rets = None
    for cls, num in (('FoldFunctionInput', 'argnums'), ('FlattenFunctionInput', 'argnums'),
                     ('FoldFunctionOutput', 'retnums'), ('FlattenFunctionOutput', 'retnums')):
        ps, fs, ns = L(PP[:2]), L(FF[:2]), L([K(2), K(0)])
        lst = {sym('patterns', 'list', 'nonnone'), sym('free', 'list', 'nonnone')}
        out = M.run(M.cls(cls), [], {'original_fun': FUN, 'patterns': ps, 'free': fs, num: ns})
        if out.guard == 0 or out.raw.op != 'obj':
            continue
        m = I.class_attr(out.raw, '__call__')
        if 'Output' in cls:
            I.returns_of = {FUN: 3}
        o = M.run(I.bind_member(m[1], out.raw, State(out.store), M.caller, None), args, {}, out.store)
        I.returns_of = {}
        w = where_func_t(M, m[1])
        yield cls + '.__call__', o, set(args), w
    f = M.glob('optimization_lib', 'truncate_eigenvalues')
    ev = sym('evals', 'array', 'vec', 'nonnone')
    yield 'truncate_eigenvalues', M.run(f, [ev, sym('lo', 'real', 'nonnone'), sym('hi', 'real', 'nonnone')]), {ev}, where_func_t(M, f)
    I.inline_prims = True
    try:
        inst = M.new('PreconditionedFunction', {'original_fun': FUN})
        a, ai = sym('a', 'nonnone', 'mat'), sym('a_inv', 'nonnone', 'mat')
        for m, ar in (('set_preconditioner_matrix', [a, ai]), ('set_preconditioner_with_hessian', [NONE, HS])):
            o = M.call(inst, m, ar)
            yield 'PreconditionedFunction.' + m, o, set(y for y in ar if y.op == 'sym'), where_method(M, inst, m)
            for n in ('__call__', 'precondition', 'unprecondition'):
                r = M.call(inst, n, [x], store=o.store, guard=o.guard)
                yield '%s after %s' % (n, m), r, {x, a, ai, HS}, where_method(M, inst, n)
        inst = M.new('OptimizationObjective', {'objective_fun': FUN})
        yield 'OptimizationObjective.f', M.call(inst, 'f', [x]), {x}, where_method(M, inst, 'f')
        xs, gr, inds = sym('x_sub', 'array', 'nonnone'), sym('groups', 'array', 'nonnone'), sym('inds', 'array', 'nonnone')
        for nm, ar in (('grouped_sum', [x, gr]), ('grouped_sum', [x, gr, sym('num_groups', 'int')]), ('replace', [xs, x, inds])):
            if M.has_glob('autograd_supplement_lib', nm):
                f = M.glob('autograd_supplement_lib', nm)
                yield '%s/%d' % (nm, len(ar)), M.run(f, ar), set(ar[:3]) - {sym('num_groups', 'int')}, where_prim(M, f)
    finally:
        I.inline_prims = False


def where_prim(M, f):
    while f is not None and f not in M.I.funcs and f.args:
        f = next((a for a in f.args if isinstance(a, T)), None)
    return where_func_t(M, f) if f is not None else None


# ------------------------------------------------------------------ P12
def p12(S, rep, tier):
    M = S.M
    rep.rule('alias', 'the result of an operation does not share memory with an argument or with the pattern')
    bs = sym('flag', 'bool', 'nonnone')
    table = (('fold', [FV, FREE, VV]), ('flatten', [FO, FREE, VV]), ('empty', [bs]), ('random', []), ('empty_bool', [bs]),
             ('flat_indices', [FB, FREE]), ('freeing_jacobian', [FO, SPARSE]), ('unfreeing_jacobian', [FO, SPARSE]))
    for label in S.LABELS:
        inst = S.make(label)
        for op, args in table:
            if not M.has_method(inst.cls, op):
                continue
            o = M.call(inst, op, args)
            w = where_method(M, inst, op)
            cons = '%s %s.%s' % (label, inst.name, op)
            fresh_result(rep, cons, o, {a for a in args if a.op == 'sym'} - {FREE, VV, SPARSE, bs}, w)
            own_result(M, rep, inst, op, args, cons, o, w)
    x = sym('x', 'nonnone', 'array')
    f = M.glob('optimization_lib', 'truncate_eigenvalues')
    ev = sym('evals', 'array', 'vec', 'nonnone')
    for b in ({}, {'ev_min': sym('lo', 'real', 'nonnone')}):
        fresh_result(rep, 'truncate_eigenvalues(%s)' % ', '.join(b), M.run(f, [ev], b), {ev}, where_func_t(M, f))
    M.I.inline_prims = True
    try:
        for nm, ar in (('grouped_sum', [x, sym('groups', 'array', 'nonnone')]),
                       ('replace', [sym('x_sub', 'array', 'nonnone'), x, sym('inds', 'array', 'nonnone')])):
            if M.has_glob('autograd_supplement_lib', nm):
                f = M.glob('autograd_supplement_lib', nm)
                fresh_result(rep, nm, M.run(f, ar), set(ar), where_prim(M, f))
    finally:
        M.I.inline_prims = False


ARRAYS = {'np.array', 'np.asarray', 'np.zeros', 'np.ones', 'np.full', 'np.empty', 'np.eye', 'np.identity', 'np.arange', 'np.reshape',
          'np.ravel', 'np.flatten', 'np.diag', 'np.where', 'np.tril', 'np.triu', 'np.hstack', 'np.vstack', 'np.concatenate', 'np.stack',
          'np.flatnonzero', 'np.argwhere', 'np.cumsum', 'np.zeros_like', 'np.ones_like', 'np.full_like', 'np.outer', 'np.tile',
          'np.repeat', 'np.broadcast_to', 'np.linspace', 'np.exp', 'np.log', 'np.random.random', 'T', 'copy', 'np.atleast_1d'}


def arraylike(t):
    if t.op == 'gam':
        return any(arraylike(l) for _, l in t.args[0])
    if t.op in ('store', 'storemap', 'storeadd', 'storeupto'):
        return True
    if t.op == 'mcall':
        return t.args[1] in ('fold', 'flatten', 'empty', 'empty_bool', 'random', 'flat_indices')
    if t.op == 'sub':
        return arraylike(t.args[0])
    return t.op == 'app' and (t.args[0] in ARRAYS or t.args[0].startswith('scipy.sparse.'))


def own_result(M, rep, inst, op, args, cons, o, w):
    """The arrays a pattern keeps, those the operation leaves with it included, are not handed out."""
    keep = []
    for store, keys in ((inst.store, None), (o.store, 'new')):
        st, owned = dict(store), {}
        for k, v in store.items():
            if k[0] == 'a' and k[1] is inst.obj and isinstance(v, T) and arraylike(v) and (
                    keys is None or inst.store.get(k) is not v):
                st[k] = owned[k[2]] = sym('own:' + k[2], 'array', 'nonnone')
        if not owned:
            continue
        r = M.call(inst, op, args, store=st, guard=band(inst.assume, o.guard) if keys and o.guard else None)
        hit = None
        try:
            for g, l in leaves(r.value) if r.guard else ():
                for root, c in roots(l, set(owned.values())).items():
                    hit = hit or (c == 'same' and clean(g), root, g)
        except Unknown as ex:
            hit = False, sym(str(ex)), 1
        if hit:
            name = [n for n, x in owned.items() if x is hit[1]]
            (rep.bad if hit[0] else rep.unsure)('alias', cons + (' repeated' if keys else ''),
                'returns memory kept in attribute %s when %s' % (name, bshow(hit[2])[:300]), w)
            return
        keep += list(owned)
    if keep:
        rep.ok('alias', cons + ' (kept arrays: %s)' % ', '.join(sorted(set(keep))), where=w)


def fresh_result(rep, cons, o, inputs, w):
    if o.guard == 0:
        rep.unsure('alias', cons, 'never returns', w)
        return
    sure, maybe = [], []
    try:
        for g, l in leaves(o.value):
            for r, c in roots(l, inputs).items():
                (sure if c == 'same' and clean(g) else maybe).append((g, r, l))
    except Unknown as ex:
        rep.unsure('alias', cons, str(ex), w)
        return
    if sure:
        g, r, l = sure[0]
        rep.bad('alias', cons, 'returns %s, which shares memory with its argument %s, when %s' % (
            show(l)[:200], show(r), bshow(g)[:300]), w)
    elif maybe or not clean(o.value) or o.notes:
        rep.unsure('alias', cons, '; '.join(show(m[2])[:100] for m in maybe) or show(o.value)[:100], w)
    else:
        rep.ok('alias', cons, where=w)
