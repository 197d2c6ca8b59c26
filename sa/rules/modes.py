"""Which parameterization an operation uses."""
from ..suite import *

OPS = {
    'fold': [FV, None, VV],
    'flatten': [FO, None, VV],
    'flat_length': [None],
    'flat_indices': [FB, None],
    'flat_names': [None],
}


def args_for(op, free):
    return [free if a is None else a for a in OPS[op]]


def p01(S, rep, tier):
    M = S.M
    rep.rule('resolve', 'an operation called with free=None does exactly what it does with free set to the '
                        'pattern default, and an explicit free makes the default irrelevant')
    rep.rule('refuse', 'with neither free nor a default, nothing is returned and a ValueError is raised')
    rep.rule('truthiness', 'the mode argument is used only through its truth value')
    rep.rule('reassigned', 'assigning another default mode takes effect in every later operation')
    for label in S.CORE:
        for op in OPS:
            cons = '%s.%s' % (label, op)
            w = None
            try:
                ref = {}
                for c in (True, False):
                    for fd in (None, True, False):
                        inst = S.make(label, free_default=K(fd))
                        w = w or where_method(M, inst, op)
                        ref[c, fd] = M.call(inst, op, args_for(op, K(c)))
                    inst = S.make(label, free_default=K(c))
                    ref[None, c] = M.call(inst, op, args_for(op, K(None)))
                nn = M.call(S.make(label, free_default=K(None)), op, args_for(op, K(None)))
            except AnalysisBroken:
                raise
            allout = list(ref.values()) + [nn]
            ok = all(clean_out(o) for o in allout)
            for c in (True, False):
                base = ref[c, None]
                for k in ((c, True), (c, False), (None, c)):
                    o = ref[k]
                    same = same_value(base.value, base.guard, o.value, o.guard)
                    txt = '%s free=%s default=%s agrees with free=%s' % (cons, k[0], k[1], c)
                    if same:
                        rep.ok('resolve', txt, where=w)
                    elif ok and not any(own_closures(x) for x in (base, o)):
                        d = diff_shape(base.value, o.value) if base.guard == o.guard else \
                            'succeeds when %s  vs  %s' % (bshow(base.guard)[:300], bshow(o.guard)[:300])
                        rep.bad('resolve', txt, d, w)
                    else:
                        rep.unsure('resolve', txt, 'not fully interpreted', w)
            reassigned(M, rep, S, label, op, ref, w)
            omitted(M, rep, S, label, op, ref, nn, w)
            # neither given
            txt = '%s free=None default=None' % cons
            g = nn.guard
            if g and op == 'flat_names':
                same = same_value(ref[True, None].value, ref[True, None].guard,
                                  ref[False, None].value, ref[False, None].guard)
                if same:
                    rep.ok('refuse', txt, 'result does not depend on the mode', w)
                    g = None
            if g and op == 'flat_indices':
                # an empty selection has the same answer in both modes
                v = under(nn.value, g)
                a = under(ref[True, None].value, g) if ref[True, None].guard else None
                b = under(ref[False, None].value, g) if ref[False, None].guard else None
                if v is a and v is b:
                    rep.ok('refuse', txt, 'empty selection only', w)
                    g = None
            if g is not None:
                if g == 0:
                    rg = nn.raise_guard(('ValueError',))
                    if rg == 1:
                        rep.ok('refuse', txt, where=w)
                    elif clean_out(nn) and nn.raise_guard() == 1 and any(
                            r.guard and r.exc not in ('ValueError',) and not r.exc.startswith('?')
                            for r in nn.raises):
                        rep.bad('refuse', txt, 'raises %s' % sorted({r.exc for r in nn.raises if r.guard}), w)
                    else:
                        rep.unsure('refuse', txt, '', w)
                elif clean_out(nn):
                    rep.bad('refuse', txt, 'returns %s when %s' % (show(nn.value)[:300], bshow(g)[:300]), w)
                else:
                    rep.unsure('refuse', txt, '', w)
            # truthiness
            F = sym('free', 'nonnone')
            o = M.call(S.make(label, free_default=K(None)), op, args_for(op, F))
            tests = sorted({x for t in [o.value] + [a for g in [o.guard] + [r.guard for r in o.raises] + [x for x, _ in leaves(o.value)]
                                                   for a in batoms(g)] for x in walk(t) if x.op == 'app' and x.args[0] == 'is' and
                            F in x.args[1] and any(isk(y) for y in x.args[1])}, key=lambda x: x.uid)
            if not tests:
                rep.ok('truthiness', cons, where=w)
                continue
            # a numpy boolean is neither of the two constants
            for c in (True, False):
                txt = '%s numpy %s' % (cons, c)
                one = {t: FALSE for t in tests}
                g, v = bsubst(bsubst(o.guard, one), {F: K(c)}), subst(subst(o.value, one), {F: K(c)})
                base = ref[c, None]
                if same_value(base.value, base.guard, v, g):
                    rep.ok('truthiness', txt, where=w)
                elif clean_out(o) and clean_out(base):
                    rep.bad('truthiness', txt, 'tests %s: numpy booleans and 0/1 take another branch' % ', '.join(show(a) for a in tests[:3]), w)
                else:
                    rep.unsure('truthiness', txt, '', w)


def omitted(M, rep, S, label, op, ref, nn, w):
    """Leaving the mode out is the same as giving none."""
    for d, base in ((True, ref[None, True]), (False, ref[None, False]), (None, nn)):
        inst = S.make(label, free_default=K(d))
        o = M.call(inst, op, [a for a in OPS[op] if a in (FV, FO, FB)], {'validate_value': VV} if VV in OPS[op] else {})
        txt = '%s.%s() default=%s' % (label, op, d)
        if o.guard == 0 and {r.exc for r in o.raises if r.guard} == {'TypeError'}:
            rep.ok('resolve', txt, 'the mode has to be given', w)
        elif same_value(base.value, base.guard, o.value, o.guard):
            rep.ok('resolve', txt, where=w)
        elif clean_out(o) and clean_out(base) and not own_closures(base) and not own_closures(o):
            rep.bad('resolve', txt, diff_shape(base.value, o.value) if base.guard == o.guard else 'succeeds when %s  vs  %s' % (
                bshow(base.guard)[:300], bshow(o.guard)[:300]), w)
        else:
            rep.unsure('resolve', txt, 'not fully interpreted', w)


def reassigned(M, rep, S, label, op, ref, w):
    """A default assigned later counts in the operations that follow."""
    for a, b in ((None, True), (None, False), (True, False), (False, True), (True, None), (False, None)):
        inst = S.make(label, free_default=K(a))
        txt = '%s.%s after the default changed from %s to %s' % (label, op, a, b)
        store = None
        if a is not None:
            o = M.call(inst, op, args_for(op, K(None)))
            if not clean_out(o):
                rep.unsure('reassigned', txt, 'not fully interpreted', w)
                continue
            store = o.store
        inst = M.assigned(inst, 'free_default', K(b), store)
        o = M.call(inst, op, args_for(op, K(None)))
        if inst.refused:
            rep.bad('reassigned', txt, 'the assignment is refused', w)
            continue
        if b is None:
            x = M.call(S.make(label, free_default=NONE), op, args_for(op, K(None)))
        else:
            x = ref[b, None]
        if same_value(x.value, x.guard, o.value, o.guard):
            rep.ok('reassigned', txt, where=w)
        elif clean_out(o) and clean_out(x) and not own_closures(o) and not own_closures(x):
            rep.bad('reassigned', txt, diff_shape(x.value, o.value) if x.guard == o.guard else 'succeeds when %s  vs  %s' % (
                bshow(x.guard)[:300], bshow(o.guard)[:300]), w)
        else:
            rep.unsure('reassigned', txt, 'not fully interpreted', w)


def member_default(a):
    """A test of a member's own default mode."""
    return any(x.op in ('mbound', 'mattr') and x.args[-1] == 'free_default' for x in walk(a))


def p02(S, rep, tier):
    """Containers."""
    M = S.M
    rep.rule('member-mode', 'every member operation whose result a container uses runs in the mode the container '
                            'itself was asked for')
    for label in ('parray', 'pdict'):
        for op in OPS:
            for c in (True, False):
                for fd, given in ((None, c), (not c, c), (c, None)):
                    inst = S.make(label, free_default=K(fd))
                    w = where_method(M, inst, op)
                    o = M.call(inst, op, args_for(op, K(given)))
                    cons = '%s.%s(free=%s) default=%s' % (label, op, given, fd)
                    seen = set()
                    terms = [o.value] if o.guard else []
                    for a in batoms(o.guard):
                        terms.append(a)
                    for t in terms:
                        for m in walk(t):
                            if m.op != 'mcall' or m in seen:
                                continue
                            kw = dict(m.args[2])
                            if 'free' not in kw:
                                continue
                            seen.add(m)
                            f = kw['free']
                            cm = '%s -> member %s' % (cons, m.args[1])
                            if f is K(c):
                                rep.ok('member-mode', cm, where=w)
                            elif isk(f):
                                rep.bad('member-mode', cm, 'member is called with free=%s' % show(f), w)
                            else:
                                t2 = truth(f)
                                if t2 == (1 if c else 0):
                                    rep.ok('member-mode', cm, where=w)
                                elif clean(f) and any(member_default(a) for a in batoms(t2)):
                                    rep.bad('member-mode', cm, "the mode given to the member depends on the "
                                            "member's own default: %s" % show(f)[:200], w)
                                else:
                                    rep.unsure('member-mode', cm, show(f)[:200], w)
                    for e in o.events:
                        # an unused result still needs the member to have a default
                        if e.kind == 'mcall' and len(e.data) == 2 and dict(e.data[1]).get('free') is NONE and \
                                band(e.guard, o.guard) and not e.data[0] is inst.obj:
                            rep.bad('member-mode', '%s -> member %s' % (cons, e.name),
                                    'member is asked in its own default mode, which it need not have', w)
                            break
                    if not seen and op not in ('flat_length', 'flat_names') and o.guard:
                        rep.unsure('member-mode', cons, 'no member operation recognised', w)
