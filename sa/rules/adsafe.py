"""P18: the transforms and preconditioned functions stay traceable by autograd."""
from ..suite import *
from ..autograd_tables import DIFF, CONSTANT, METHODS
from .optrules import FUN, MA, MAI, XV, HS
from .deriv import Rules

SHAPE = {'np.shape', 'np.ndim', 'np.size', 'len', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'not', 'and', 'or', 'in', 'is',
         'isinstance', 'type', 'hasattr', 'fmt', 'builtins.str', 'np.zeros_like', 'np.ones_like', 'builtins.repr',
         'dict.keys', 'sorted'}
SAFE_BUILTINS = {'isinstance', 'issubclass', 'len', 'str', 'repr', 'format', 'print', 'type', 'list', 'tuple', 'dict', 'zip', 'enumerate',
                 'range', 'iter', 'next', 'map', 'filter', 'sorted', 'reversed', 'sum', 'abs', 'max', 'min', 'pow', 'id',
                 'hasattr', 'getattr', 'callable', 'set', 'any', 'all', 'bool', 'divmod', 'slice', 'super'}
BREAKS = {'float', 'int', 'complex', 'round', 'bytes'}
NDARRAY_ONLY = {'dot', 'copy', 'tolist', 'item', 'fill', 'conj', 'sort', 'put', 'choose', 'itemset', 'view', 'resize', 'tobytes', 'conjugate', 'newbyteorder', 'partition', 'setfield', 'byteswap'}


def traced(t, inputs, memo=None):
    """Does the value depend on an input other than through shapes and
    comparisons?"""
    memo = {} if memo is None else memo
    if t in inputs:
        return True
    if t in memo:
        return memo[t]
    memo[t] = False
    if t.op == 'app':
        nm, ar, kw = t.args
        if nm in SHAPE or 'numpy.' + nm[3:] in CONSTANT and nm.startswith('np.'):
            return False
        r = any(traced(a, inputs, memo) for a in ar) or any(traced(v, inputs, memo) for _, v in kw)
    elif t.op == 'gam':
        r = any(traced(x, inputs, memo) for _, x in t.args[0])
    elif t.op == 'sub':
        r = traced(t.args[0], inputs, memo)
    elif t.op in ('map', 'fmap'):
        r = traced(t.args[2], inputs, memo)
    elif t.op in ('k', 'sym', 'key', 'dom', 'iota', 'obj', 'cell', 'func', 'cls', 'ext', 'exists', 'B', 'slice'):
        r = False
    elif t.op == 'mcall':
        if t.args[1] in ('flat_length', 'shape', 'validate_folded', 'flat_indices'):
            r = False
        else:
            r = any(traced(v, inputs, memo) for _, v in t.args[2] if isinstance(v, T))
    else:
        r = any(traced(x, inputs, memo) for x in children(t))
    memo[t] = r
    return r


def p18(S, rep, tier):
    M = S.M
    rep.rule('traceable', 'values computed from the input pass only through operations autograd differentiates')
    rep.rule('primitive', 'a custom primitive applied to the input has a reverse rule')
    R = Rules(M.I.module_events)
    for label in S.LABELS:
        inst = S.make(label)
        for op, x in (('fold', FV), ('flatten', FO)):
            if not M.has_method(inst.cls, op):
                continue
            for f in (TRUE, FALSE):
                o = M.call(inst, op, [x, f, VV])
                one(M, rep, '%s %s.%s(free=%s)' % (label, inst.name, op, kval(f)), o, {x}, where_method(M, inst, op), R)
    inst = M.new('PreconditionedFunction', {'original_fun': FUN})
    sp = truth(app('scipy.sparse.issparse', (MA,)))
    for nm, args, g in (('set_preconditioner_matrix', [MA, MAI], sp), ('set_preconditioner_matrix', [MA], sp),
                        ('set_preconditioner_matrix', [MA, MAI], bnot(sp)), ('set_preconditioner_matrix', [MA], bnot(sp)),
                        ('set_preconditioner_with_hessian', [NONE, HS], 1)):
        if not M.has_method(inst.cls, nm):
            continue
        o = M.call(inst, nm, args, guard=g)
        if not o.guard:
            continue
        lab = '%s(%s%s)' % (nm, ', '.join(show(a) for a in args), {1: ''}.get(g, ', sparse' if g == sp else ', dense'))
        R2 = Rules(list(M.I.module_events) + list(o.events), o.guard)
        for m in ('__call__', 'precondition', 'unprecondition'):
            r = M.call(inst, m, [XV], store=o.store, guard=o.guard)
            one(M, rep, '%s after %s' % (m, lab), r, {XV}, where_method(M, inst, m), R2, sparse={MA, MAI} if g == sp else ())


def one(M, rep, cons, o, inputs, w, R, sparse=()):
    if o.guard == 0:
        return rep.unsure('traceable', cons, 'always raises', w)
    bad, unclear = [], list(o.notes[:2])
    memo = {}
    tr = lambda x: isinstance(x, T) and traced(x, inputs, memo)
    for e in o.events:
        if e.guard == 0:
            continue
        if e.kind in ('store', 'aug') and len(e.data) > 1 and e.kind == 'store' and len(e.data) == 3:
            base = e.data[0]
            if tr(e.data[2]) and (base.op == 'app' or base.op == 'store'):
                bad.append('%s stores a traced value into an array' % e.where())
            elif tr(base):
                bad.append('%s assigns into a traced array' % e.where())
            continue
        if e.kind == 'primcall':
            f, a = e.data[0], e.data[1:]
            for i, x in enumerate(a):
                if tr(x):
                    r = R.get(f, 'defvjp', i)
                    if r is None or r[0] is NONE:
                        if R.unclear:
                            unclear.append('%s: reverse rule of %s' % (e.where(), e.name))
                        else:
                            rep.bad('primitive', '%s: %s' % (cons, e.name), 'no reverse rule for argument %d' % i, e.where())
                    else:
                        rep.ok('primitive', '%s: %s' % (cons, e.name), where=e.where())
            continue
        if e.kind == 'op' and e.name == 'matmul' and any(x in sparse for x in e.data) and any(tr(x) for x in e.data):
            bad.append('%s multiplies a sparse matrix and a traced value outside a primitive' % e.where())
            continue
        if e.kind != 'ext':
            continue
        xs = [x for x in e.data if tr(x)]
        if not xs:
            continue
        raw = e.raw
        if raw is None:
            continue
        if raw.startswith('.'):
            nm = raw[1:]
            recv = e.data[0]
            if tr(recv) and nm in NDARRAY_ONLY:
                bad.append('%s calls .%s of a traced array, which autograd arrays do not have' % (e.where(), nm))
            elif recv in sparse:
                bad.append('%s multiplies a sparse matrix and a traced value outside a primitive' % e.where())
            elif tr(recv) and nm not in METHODS:
                unclear.append('%s: .%s' % (e.where(), nm))
            continue
        if raw.startswith('builtins.'):
            nm = raw[9:]
            if nm in BREAKS:
                bad.append('%s applies %s() to a traced value' % (e.where(), nm))
            continue
        if raw.startswith('autograd.') and raw.endswith('.getval'):
            bad.append('%s drops the derivative of a traced value' % e.where())
            continue
        if raw.startswith('autograd.'):
            nm = raw[9:]
            if nm in DIFF or nm in CONSTANT:
                continue
            if nm.startswith(('numpy.', 'scipy.')):
                bad.append('%s applies %s, for which autograd has no derivative' % (e.where(), nm))
            else:
                unclear.append('%s: %s' % (e.where(), raw))
            continue
        if raw.startswith(('numpy.', 'scipy.', 'math.')):
            bad.append('%s applies %s itself instead of its autograd version to a traced value' % (e.where(), raw))
        elif raw in ('copy.copy', 'copy.deepcopy') or raw.startswith(('functools.', 'itertools.', 'operator.', 'collections.', 'warnings.')):
            pass
        else:
            unclear.append('%s: %s' % (e.where(), raw))
    if bad:
        rep.bad('traceable', cons, '; '.join(sorted(set(bad))[:3]), w)
    elif unclear or has_op(o.value, BAD_OPS):
        rep.unsure('traceable', cons, '; '.join(unclear[:4]), w)
    else:
        rep.ok('traceable', cons, where=w)
