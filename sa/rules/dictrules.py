"""State of the pattern dictionary: its lock, its contents, its lengths."""
from ..canon import *
from ..algebra import poly, poly_eq, Unsupported
from .layout import arith_vocab, strip_int

KEY, PAT = sym('@key', 'nonnone', 'str'), sym('@pat', 'pattern', 'nonnone')


def methods(M, inst):
    """name -> function of every method and accessor an instance answers to."""
    I = M.I
    r = {}
    for c in I.mro(inst.cls):
        cl = I.classes.get(c)
        if cl is None:
            continue
        for k, v in cl.ns.items():
            if k not in r and isinstance(v, T):
                r[k] = v
    return r


def param_syms(M, f):
    F = M.I.funcs.get(f)
    if F is None:
        return None
    a = F.node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    nd = len(a.defaults)
    req = names[:len(names) - nd] if nd else names
    return [sym('arg_' + n, 'nonnone') for n in req]


def state(inst, store, I):
    """Observable state of the dictionary in a store."""
    r = {}
    for k, v in store.items():
        if k[0] == 'a' and k[1] is inst.obj and v.op != 'cell':
            r[k[2]] = v
    if inst.members is not None:
        r['@members'] = store.get(('c', inst.memcell))
    return r


def changed(inst, pre, post, I):
    a, b = state(inst, pre, I), state(inst, post, I)
    return [k for k in set(a) | set(b) if a.get(k) is not b.get(k)]


def locked_instance(M, inst):
    o = M.call(inst, 'lock', [])
    return o


def p09(S, rep, tier):
    M = S.M
    rep.rule('refuse', 'adding, replacing or deleting a member of a locked dictionary raises a ValueError and changes nothing')
    rep.rule('open', 'a fresh dictionary accepts members and lets them be deleted')
    rep.rule('nested', 'a dictionary put into a dictionary is locked from then on')
    rep.rule('final', 'no operation unlocks a dictionary, and none but the mutators changes its members')
    rep.rule('no-leak', 'no operation hands out the member store itself')
    inst = S.make('pdict')
    if inst.members is None:
        rep.unsure('refuse', 'pdict', 'member store not identified')
        return
    lk = locked_instance(M, inst)
    w = lambda n: where_method(M, inst, n)
    if lk.guard != 1:
        rep.unsure('refuse', 'pdict.lock', 'lock does not always return', w('lock'))
        return
    muts = {'__setitem__': [KEY, PAT], '__delitem__': [KEY]}
    for m, args in muts.items():
        o = M.call(inst, m, args, store=lk.store)
        c = 'locked pdict.%s' % m
        ch = []
        for r in o.raises:
            if r.guard:
                ch += changed(inst, lk.store, r.store, M.I)
        if o.guard == 0 and o.raise_guard(('ValueError',)) == 1 and not ch:
            rep.ok('refuse', c, where=w(m))
        elif clean_out(o) and (o.guard or ch):
            rep.bad('refuse', c, ('succeeds when %s' % bshow(o.guard)[:300]) if o.guard else 'changes %s before refusing' % ch, w(m))
        elif clean_out(o) and not any(r.exc.startswith('?') for r in o.raises if r.guard):
            rep.bad('refuse', c, 'raises %s' % sorted({r.exc for r in o.raises if r.guard}), w(m))
        else:
            rep.unsure('refuse', c, '', w(m))
    # a fresh one is open
    fresh = S.M.pdict(populated=False)
    o = M.call(fresh, '__setitem__', [KEY, PAT])
    g = drop_isinstance(o.guard, PAT, M)
    if g == 1:
        rep.ok('open', 'fresh pdict.__setitem__', where=w('__setitem__'))
        o2 = M.call(fresh, '__delitem__', [KEY], store=o.store, guard=band(fresh.assume, o.guard))
        if o2.guard == 1:
            rep.ok('open', 'pdict.__delitem__ after adding', where=w('__delitem__'))
        elif clean_out(o2) and o2.guard == 0:
            rep.bad('open', 'pdict.__delitem__ after adding', 'refused', w('__delitem__'))
        else:
            rep.unsure('open', 'pdict.__delitem__ after adding', bshow(o2.guard)[:200], w('__delitem__'))
    elif clean_out(o) and (g == 0 or all(all(y.op in ('app', 'sym', 'k') for y in walk(a)) and not contains(a, KEY)
                                         and not contains(a, PAT) for a in batoms(g))):
        rep.bad('open', 'fresh pdict.__setitem__', 'accepts only when %s' % bshow(g)[:300] if g else 'refused', w('__setitem__'))
    else:
        rep.unsure('open', 'fresh pdict.__setitem__', bshow(g)[:300], w('__setitem__'))
    # nesting
    inner = S.M.pdict()
    st = dict(fresh.store)
    st.update(inner.store)
    # open inner dictionary
    if getattr(inner, 'lockattr', None) is not None:
        f0 = fresh.store.get(('a', fresh.obj, inner.lockattr[2]))
        if f0 is not None:
            st[inner.lockattr] = f0
    o0 = M.call(inner, '__setitem__', [KEY, PAT], store=st)
    open0 = drop_isinstance(o0.guard, PAT, M)
    o = M.call(fresh, '__setitem__', [KEY, inner.obj], store=st)
    for m, args in muts.items():
        c = 'member pdict.%s' % m
        if open0 != 1 or o.guard == 0:
            rep.unsure('nested', c, 'setting not reached', w(m))
            continue
        o2 = M.call(inner, m, args, store=o.store, guard=o.guard)
        if o2.guard == 0:
            rep.ok('nested', c, where=w('__setitem__'))
        elif clean_out(o) and clean_out(o2):
            rep.bad('nested', c, 'still succeeds after the dictionary became a member', w('__setitem__'))
        else:
            rep.unsure('nested', c, '', w('__setitem__'))
    # a member known only to be an instance of PatternDict or a subclass
    o = M.call(fresh, '__setitem__', [KEY, PAT])
    is_dict = truth(mk('app', 'isinstance', (PAT, inst.cls), ()))
    g = 0
    for e in o.events:
        if e.kind == 'mcall' and e.name == 'lock' and e.data and e.data[0] is PAT:
            g = bor(g, e.guard)
    c = 'any instance of the dictionary class'
    need = band(o.guard, is_dict)
    if implies(need, g) == 1 and need != 0:
        rep.ok('nested', c, where=w('__setitem__'))
    elif clean_out(o) and need != 0:
        d = band(need, bnot(g))
        ats = [a for a in batoms(d)]
        if all(a.op == 'app' and a.args[0] in ('isinstance', 'is', 'eq') for a in ats):
            rep.bad('nested', c, 'not locked when %s' % bshow(d)[:300], w('__setitem__'))
        else:
            rep.unsure('nested', c, bshow(d)[:300], w('__setitem__'))
    else:
        rep.unsure('nested', c, '', w('__setitem__'))
    # nobody writes another dictionary's lock
    if getattr(inst, 'lockattr', None) is not None:
        locked = lk.store.get(inst.lockattr)
        for name, f in sorted(methods(M, inst).items()):
            ps = param_syms(M, f)
            if ps is None or name in ('__init__', '__new__'):
                continue
            o = M.call(inst, name, ps)
            hits = [e for e in o.events if e.kind == 'setattr' and e.name == inst.lockattr[2] and e.data and e.guard != 0
                    and e.data[0] is not inst.obj and e.data[0].op != 'obj' and (len(e.data) < 2 or e.data[1] is not locked)]
            c = 'pdict.%s and the lock of other dictionaries' % name
            if not hits:
                rep.ok('final', c, where=w(name))
            elif all(len(e.data) > 1 and isk(e.data[1]) for e in hits):
                rep.bad('final', c, 'sets the lock of %s to %s at %s' % (show(hits[0].data[0])[:100], show(hits[0].data[1]), hits[0].where()), w(name))
            else:
                rep.unsure('final', c, hits[0].where(), w(name))
    # every other method
    for name, f in sorted(methods(M, inst).items()):
        if name in ('__init__', '__setitem__', '__delitem__', '__new__', 'lock') or name not in methods(M, inst):
            continue
        ps = param_syms(M, f)
        if ps is None:
            continue
        o = M.call(inst, name, ps, store=lk.store)
        c = 'locked pdict.%s' % name
        ch = changed(inst, lk.store, o.store, M.I) if o.guard else []
        for r in o.raises:
            if r.guard:
                ch += changed(inst, lk.store, r.store, M.I)
        lockname = inst.lockattr[2] if getattr(inst, 'lockattr', None) else None
        serious = [k for k in ch if k == '@members' or k == lockname]
        if not serious:
            rep.ok('final', c, where=w(name))
        elif clean_out(o):
            rep.bad('final', c, 'changes %s' % ', '.join(sorted(set(
                'its members' if k == '@members' else 'the lock' for k in serious))), w(name))
        else:
            rep.unsure('final', c, '', w(name))
        leak = any(x is inst.memcell for x in walk(o.raw)) if o.guard and isinstance(o.raw, T) else False
        direct = o.guard and any(l is inst.memcell for _, l in leaves(o.raw))
        if direct:
            rep.bad('no-leak', c, 'returns the dictionary of members itself, through which a locked dictionary can be changed', w(name))
        elif leak and o.raw.op in ('tuple', 'list'):
            rep.bad('no-leak', c, 'returns the dictionary of members itself inside %s' % o.raw.op, w(name))
        else:
            rep.ok('no-leak', c, where=w(name))
    o = M.call(inst, 'lock', [], store=lk.store)
    ch = changed(inst, lk.store, o.store, M.I)
    if not ch and o.guard == 1:
        rep.ok('final', 'locking twice', where=w('lock'))
    elif clean_out(o) and o.guard:
        o2 = M.call(inst, '__delitem__', [KEY], store=o.store)
        if o2.guard:
            rep.bad('final', 'locking twice', 'the second lock opens it', w('lock'))
        else:
            rep.ok('final', 'locking twice', where=w('lock'))
    else:
        rep.unsure('final', 'locking twice', '', w('lock'))


def unlist(t):
    while True:
        if is_seq(t) and len(t.args[0]) == 1 and t.args[0][0][0] == 's':
            t = t.args[0][0][1]
        elif t.op == 'app' and t.args[0] in ('builtins.list', 'builtins.tuple') and len(t.args[1]) == 1:
            t = t.args[1][0]
        else:
            return t


def drop_isinstance(g, x, M):
    """g for an x that is a pattern but no dictionary."""
    base = M.cls('Pattern')
    for a in batoms(g):
        if a.op == 'app' and a.args[0] == 'isinstance' and a.args[1][0] is x:
            g = cofactor(g, a, a.args[1][1] is base)
    return g


# ----------------------------------------------------------------- P10
def expand_sums(t, pre):
    """Sums over an updated dictionary in terms of the one before:
    {present: value, absent: value} of membership of the key."""
    def go(t, present):
        def fn(x):
            if x.op == 'sum' and x.args[0].op == 'dom' and x.args[0].args[0].op in ('dictset', 'dictdel'):
                d = x.args[0].args[0]
                if d.args[0] is not pre:
                    return None
                j, body = x.args[1], x.args[2]
                at = lambda v: subst(body, {mk('val', d, j): v})
                old = mk('val', pre, mk('iota', mk('dom', pre), 0))
                base = mksum(mk('dom', pre), mk('iota', mk('dom', pre), 0), at(old))
                cur = sub(pre, d.args[1])
                if d.op == 'dictset':
                    r = app('add', (base, at(d.args[2])))
                    return app('sub', (r, at(cur))) if present else r
                return app('sub', (base, at(cur))) if present else base
            return None
        return rewrite(t, fn, {})
    return go(t, True), go(t, False)


def lengths_agree(got, want, pre, key, deleting):
    if strip_int(got) is strip_int(want):
        return True
    inat = truth(mk('app', 'in', (key, pre), ()))
    res = True
    for present in ((True,) if deleting else (True, False)):
        a = under(got, inat if present else bnot(inat))
        p = expand_sums(strip_int(a), pre)[0 if present else 1]
        q = expand_sums(strip_int(want), pre)[0 if present else 1]
        for g, l in leaves(p):
            try:
                same = poly_eq(l, q)
            except Unsupported:
                same = None
            if same:
                continue
            if l is K(0) and any(a.op == 'app' and a.args[0] in ('nonempty', 'eq', 'lt', 'le') for a in batoms(g)):
                res = None    # a special case for no members, written in another way
                continue
            if same is False and arith_vocab(l) and arith_vocab(q):
                return False
            res = None
    return res


def p10(S, rep, tier):
    M = S.M
    rep.rule('initial', 'a new dictionary is empty and has length zero in both modes')
    rep.rule('insert', 'inserting or replacing a member stores exactly it, keeps the others, and the flat lengths are '
                       'then the sums over the members')
    rep.rule('delete', 'deleting removes exactly that member, and the flat lengths are then the sums over the rest')
    rep.rule('refusal', 'an operation that raises leaves members and lengths as they were')
    rep.rule('reads', 'no reading operation changes members or lengths')
    rep.rule('lookup', 'lookup and keys report the members')
    inst = S.make('pdict')
    fresh = M.pdict(populated=False)
    if inst.members is None:
        rep.unsure('insert', 'pdict', 'member store not identified')
        return
    w = lambda n: where_method(M, inst, n)
    for mode in (True, False):
        o = M.call(fresh, 'flat_length', [K(mode)])
        c = 'new pdict.flat_length(free=%s)' % mode
        v = strip_int(o.value)
        if v in (K(0), K(0.0)):
            rep.ok('initial', c, where=w('__init__'))
        elif clean_out(o) and isk(v):
            rep.bad('initial', c, 'is %s' % show(v), w('__init__'))
        else:
            rep.unsure('initial', c, show(v)[:200], w('__init__'))
    openst = dict(inst.store)
    if getattr(inst, 'lockattr', None):
        openst[inst.lockattr] = fresh.store.get(('a', fresh.obj, inst.lockattr[2]), openst[inst.lockattr])
    pre = inst.members
    for m, args, rule, want in (('__setitem__', [KEY, PAT], 'insert', mk('dictset', pre, KEY, PAT)),
                                ('__delitem__', [KEY], 'delete', mk('dictdel', pre, KEY))):
        o = M.call(inst, m, args, store=openst)
        if o.guard == 0:
            rep.unsure(rule, 'pdict.%s' % m, 'never returns', w(m))
            continue
        now = M.I.rd(o.store.get(('c', inst.memcell)), State(o.store))
        now = under(now, o.guard)
        c = 'pdict.%s contents' % m
        if now is want:
            rep.ok(rule, c, where=w(m))
        elif clean_out(o) and clean(now) and all(x.op in ('dictset', 'dictdel', 'sym', 'app', 'sub', 'gam', 'k') for x in walk(now)):
            rep.bad(rule, c, 'members become %s' % show(now)[:300], w(m))
        else:
            rep.unsure(rule, c, show(now)[:300], w(m))
        for mode in (True, False):
            l = M.call(inst, 'flat_length', [K(mode)], store=o.store, guard=o.guard)
            d = mk('dom', want)
            io = mk('iota', d, 0)
            wl = mksum(d, io, mk('mcall', mk('val', want, io), 'flat_length', (('free', K(mode)),)))
            c = 'pdict.flat_length(free=%s) after %s' % (mode, m)
            r = lengths_agree(l.value, wl, pre, KEY, m == '__delitem__')
            if r:
                rep.ok(rule, c, where=w(m))
            elif r is False and clean_out(o) and clean_out(l):
                rep.bad(rule, c, 'is %s' % show(l.value)[:300], w(m))
            else:
                rep.unsure(rule, c, show(l.value)[:300], w(m))
    # refusals
    for m, args in (('__setitem__', [KEY, PAT]), ('__delitem__', [KEY])):
        o = M.call(inst, m, args)
        for i, r in enumerate(x for x in o.raises if x.guard):
            ch = changed(inst, inst.store, r.store, M.I)
            c = 'pdict.%s raising %s #%d' % (m, r.exc, i + 1)
            if not ch:
                rep.ok('refusal', c, where=r.where())
            elif clean_out(o):
                rep.bad('refusal', c, 'has changed %s already' % ', '.join(sorted(k.strip('@') for k in ch)), r.where())
            else:
                rep.unsure('refusal', c, '', r.where())
        # lookups that can fail must come before the first change
        first_change = None
        for e in o.events:
            if e.kind in ('setattr', 'setitem', 'delitem') and e.data and (
                    e.data[0] is inst.obj and ('a', inst.obj, e.name) in inst.havoc or e.data[0] is inst.memcell):
                if first_change is None and not (e.kind == 'delitem'):
                    first_change = e
            if m == '__delitem__' and e.kind in ('getitem', 'delitem') and first_change is not None and \
                    e.data and e.data[0] in (inst.memcell, inst.members) and KEY in e.data:
                rep.bad('refusal', 'pdict.__delitem__ of a missing key', 'state changed before the lookup that raises', w(m))
                break
        else:
            if m == '__delitem__':
                rep.ok('refusal', 'pdict.__delitem__ of a missing key', where=w(m))
    o = M.call(fresh, '__setitem__', [KEY, sym('@other', 'nonnone')])
    isp = truth(mk('app', 'isinstance', (sym('@other', 'nonnone'), M.cls('Pattern')), ()))
    c = 'pdict.__setitem__ of something that is no pattern'
    bad = band(o.guard, bnot(isp))
    if bad == 0:
        if o.guard and implies(bnot(isp), o.raise_guard(('ValueError',))) == 1:
            rep.ok('refusal', c, where=w('__setitem__'))
        else:
            rep.unsure('refusal', c, '', w('__setitem__'))
    elif clean_out(o):
        rep.bad('refusal', c, 'accepted when %s' % bshow(bad)[:200], w('__setitem__'))
    else:
        rep.unsure('refusal', c, '', w('__setitem__'))
    lens = [k[2] for k in inst.havoc if k[0] == 'a']
    for name, f in sorted(methods(M, inst).items()):
        if name in ('__init__', '__setitem__', '__delitem__', '__new__', 'lock'):
            continue
        ps = param_syms(M, f)
        if ps is None:
            continue
        o = M.call(inst, name, ps, store=openst)
        ch = changed(inst, openst, o.store, M.I) if o.guard else []
        for r in o.raises:
            if r.guard:
                ch += changed(inst, openst, r.store, M.I)
        serious = [k for k in ch if k == '@members' or k in lens]
        c = 'pdict.%s' % name
        if not serious:
            rep.ok('reads', c, where=w(name))
        elif '@members' in serious and clean_out(o):
            rep.bad('reads', c, 'changes the members', w(name))
        elif clean_out(o):
            good = True
            for mode in (True, False):
                l = M.call(inst, 'flat_length', [K(mode)], store=o.store)
                l0 = M.call(inst, 'flat_length', [K(mode)], store=openst)
                if strip_int(l.value) is not strip_int(l0.value):
                    good = False if good and arith_vocab(strip_int(l.value)) else None
            if good:
                rep.ok('reads', c, where=w(name))
            elif good is False:
                rep.bad('reads', c, 'changes the flat length', w(name))
            else:
                rep.unsure('reads', c, '', w(name))
        else:
            rep.unsure('reads', c, '', w(name))
    o = M.call(inst, '__getitem__', [KEY])
    miss = M.call(fresh, '__getitem__', [KEY])
    if miss.guard == 0 and all(r.exc == 'KeyError' for r in miss.raises) or not clean_out(miss) or miss.value.op == 'sub':
        rep.ok('lookup', 'missing key', where=w('__getitem__'))
    elif miss.guard == 1:
        rep.bad('lookup', 'missing key', 'gives %s instead of a KeyError' % show(miss.value)[:200], w('__getitem__'))
    elif miss.guard == 0:
        rep.bad('lookup', 'missing key', 'raises %s instead of a KeyError' % sorted({r.exc for r in miss.raises}), w('__getitem__'))
    else:
        rep.unsure('lookup', 'missing key', show(miss.value)[:200], w('__getitem__'))
    if o.value is sub(pre, KEY):
        rep.ok('lookup', 'pdict[key]', where=w('__getitem__'))
    elif clean_out(o) and o.value.op in ('k', 'sym', 'sub'):
        rep.bad('lookup', 'pdict[key]', 'gives %s' % show(o.value)[:200], w('__getitem__'))
    else:
        rep.unsure('lookup', 'pdict[key]', show(o.value)[:200], w('__getitem__'))
    o = M.call(inst, 'keys', [])
    v = unlist(o.value)
    if dom(o.value) is mk('dom', pre) and o.value.op in ('app', 'sym', 'map') or o.value.op == 'app' and \
            o.value.args[0] == 'dict.keys' and o.value.args[1][0] is pre:
        rep.ok('lookup', 'pdict.keys()', where=w('keys'))
    elif clean_out(o) and (v.op == 'app' and v.args[0] in ('sorted', 'builtins.set', 'reversed', 'builtins.frozenset') or v.op == 'setseq') and \
            any(x is pre for x in walk(v)):
        rep.bad('lookup', 'pdict.keys()', 'gives %s, not the members in their order' % show(o.value)[:200], w('keys'))
    else:
        rep.unsure('lookup', 'pdict.keys()', show(o.value)[:200], w('keys'))
