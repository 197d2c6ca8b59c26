"""Loop summarisation: one abstract iteration over a symbolic index, then
recurrence recognition for every loop-carried location."""
import ast
from .core import *


class LoopMixin:
    UNROLL = 64

    # ------------------------------------------------------------ statements
    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        if st.guard == 0:
            return

        def body(s2, ctl):
            fr.ctl.append(ctl)
            self.exec_block(s.body, s2, fr)
            fr.ctl.pop()
        self.run_for(it, lambda s2, v: self.assign(s.target, v, s2, fr), body, st, fr, s,
                     orelse=s.orelse)

    def s_Break(self, s, st, fr):
        if fr.ctl:
            fr.ctl[-1]['break'].append(st.copy())
        st.guard = 0

    def s_Continue(self, s, st, fr):
        if fr.ctl:
            fr.ctl[-1]['continue'].append(st.copy())
        st.guard = 0

    def s_While(self, s, st, fr):
        self.run_while(s, st, fr)

    # ------------------------------------------------------------ iteration
    def known_iter(self, it, v):
        """List of element terms when the iterable's length is known."""
        if v.op == 'gam':
            return None
        if it.op == 'cell':
            pass
        e = simple_elems(v)
        if e is not None:
            return e
        if v.op == 'dict' and all(k == 'e' for k, _ in v.args[0]):
            return [x[0] for _, x in v.args[0]]
        if v.op == 'setlit':
            return list(v.args[0])
        if v.op == 'app':
            nm, ar = v.args[0], v.args[1]
            e = alit(v)
            if e is not None:
                return e
            if nm == 'range' and all(isk(a) for a in ar):
                r = range(*[kval(a) for a in ar])
                if len(r) <= self.UNROLL:
                    return [K(i) for i in r]
            if nm == 'enumerate' and len(ar) == 1:
                e = self.known_iter(ar[0], ar[0])
                if e is not None:
                    return [seq('tuple', [('e', K(i)), ('e', x)]) for i, x in enumerate(e)]
            if nm == 'zip':
                es = [self.known_iter(a, a) for a in ar]
                kn = [e for e in es if e is not None]
                if kn and len(kn) == len(es):
                    return [seq('tuple', [('e', x) for x in row]) for row in zip(*kn)]
            if nm in ('builtins.list', 'builtins.tuple', 'reversed', 'builtins.iter') and len(ar) == 1:
                e = self.known_iter(ar[0], ar[0])
                return list(reversed(e)) if nm == 'reversed' and e is not None else e
        return None

    def run_for(self, it, bindv, body, st, fr, node, orelse=None):
        if st.guard == 0:
            return
        if it.op == 'gam':
            outs = None
            base = st.copy()
            for g, l in it.args[0]:
                s = base.copy(band(base.guard, g))
                if s.guard:
                    self.run_for(l, bindv, body, s, fr, node, orelse)
                    outs = s if outs is None else merge_states(outs, s)
            if outs is None:
                st.guard = 0
            else:
                self.become(st, outs)
            return
        if it.op == 'obj':
            m = self.class_attr(it, '__iter__')
            if m is not None:
                it = self.call(mk('bm', m[1], it), [], {}, st, fr, node)
        raw = st.store.get(('c', it)) if it.op == 'cell' else it
        kn = None
        if raw is not None:
            kn = self.known_iter(it, raw)
            if kn is None and has_cell(raw):
                kn = None
        v = self.rd(it, st)
        if kn is None:
            kn = self.known_iter(it, v)
        if kn is not None:
            self.unroll(kn, bindv, body, st, fr, orelse)
            return
        # concatenation of segments: process segment by segment
        w = v
        if w.op in ('list', 'tuple') and len(w.args[0]) > 1 and not orelse and \
                sum(1 for k, _ in w.args[0] if k == 's') == 1:
            for k, x in w.args[0]:
                if k == 'e':
                    self.unroll([x], bindv, body, st, fr, None)
                else:
                    self.run_for(x, bindv, body, st, fr, node, None)
                if st.guard == 0:
                    return
            return
        d = iter_domain(v)
        flt = 1
        if d.op == 'fdom':
            # iterate the underlying domain under the filter
            src = v
            while src.op in ('list', 'tuple') and len(src.args[0]) == 1:
                src = src.args[0][0][1]
            while src.op == 'app' and src.args[0] in ('builtins.list', 'builtins.tuple', 'builtins.iter'):
                src = src.args[1][0]
            if src.op == 'map':
                d0, io0, b0, f0 = src.args

                def bind2(s2, io):
                    g = bsubst(f0, {io0: io})
                    s2.guard = band(s2.guard, g)
                    if s2.guard:
                        bindv(s2, subst(b0, {io0: io}))

                def body2(s2, ctl):
                    if s2.guard:
                        body(s2, ctl)
                self.loop(d0, bind2, body2, st, fr, node, orelse, filtered=True)
                return
        self.loop(d, lambda s2, io: bindv(s2, elem_at(v, io)), body, st, fr, node, orelse)

    def unroll(self, elems, bindv, body, st, fr, orelse):
        broke = None
        for e in elems:
            ctl = {'break': [], 'continue': []}
            bindv(st, e)
            if st.guard:
                body(st, ctl)
            res = st if st.guard else None
            for c in ctl['continue']:
                res = c if res is None else merge_states(res, c)
            for b in ctl['break']:
                broke = b if broke is None else merge_states(broke, b)
            if res is None:
                st.guard = 0
                break
            if res is not st:
                self.become(st, res)
        if orelse and st.guard:
            self.exec_block(orelse, st, fr)
        if broke is not None:
            self.become(st, merge_states(st, broke) if st.guard else broke)

    # ------------------------------------------------------------ symbolic loop
    def loop(self, d, bindv, body, st, fr, node, orelse=None, filtered=False):
        depth = len(self.loops)
        io = mk('iota', d, depth)
        self.alias_tokens(st)
        base = dict(st.store)
        g0 = st.guard
        ctr0 = self.counter
        ev0, ra0 = len(self.events), len(self.raises)
        rets = {id(f): (f, len(f.returns)) for f in self.live_frames(fr)}
        carried = []
        apart, same, lost = set(), {}, set()
        dunno = mk('opaque', K('written in place'))
        for rnd in range(12):
            del self.events[ev0:]
            del self.raises[ra0:]
            for f, k in rets.values():
                del f.returns[k:]
            self.counter = ctr0
            s = State(dict(base), g0)
            same = self.one_array(base, carried, apart)
            for key in carried:
                s.store[key] = dunno if key in lost else self.lv(same.get(key, key), d, depth)
            self.loops.append((d, io))
            before = dict(s.store)
            bindv(s, io)
            self.element_tokens(before, base, s)
            ctl = {'break': [], 'continue': []}
            skipped = None
            if filtered and s.guard != g0:
                skipped = State(dict(base), band(g0, bnot(s.guard)))
                for key in carried:
                    skipped.store[key] = dunno if key in lost else self.lv(same.get(key, key), d, depth)
            wrote0, self.wrote = self.wrote, frozenset()
            if s.guard:
                body(s, ctl)
            self.loops.pop()
            end = s if s.guard else None
            for c in ctl['continue'] + ([skipped] if skipped is not None and skipped.guard else []):
                end = c if end is None else merge_states(end, c)
            stores = ([end.store] if end is not None else []) + [b.store for b in ctl['break']]
            mod = []
            for sx in stores:
                for key, v in sx.items():
                    if key in base and key not in carried and key not in mod:
                        w = base[key]
                        if v is not w:
                            mod.append(key)
            split = [k for k, r in same.items() if any(sx.get(k) is not sx.get(r) for sx in stores)]
            apart.update(split)
            # an array that is written through a name which then denotes another
            new = []
            for key in carried:
                if key not in lost and self.lv(same.get(key, key), d, depth) in self.wrote and any(
                        sx.get(('fr',) + key[1:]) is not base.get(('fr',) + key[1:]) for sx in stores):
                    mem = roots(base[key]) | frozenset().union(*[roots(sx.get(key, UNDEF)) for sx in stores])
                    new += [k for k, v in base.items() if k[0] in ('l', 'a') and k not in lost and isinstance(v, T) and
                            v.op not in NOMEM and (k == key or roots(v) & mem)]
            self.wrote |= wrote0
            if not mod and not split and not new:
                break
            lost.update(new)
            carried += mod + [k for k in dict.fromkeys(new) if k not in carried and k not in mod]
        self.same = same
        broke = self.finish_loop(d, io, depth, base, g0, end, ctl, carried, st, fr, ev0, ra0, rets, ctr0, node)
        for k in lost:
            st.store[k] = dunno
            if broke is not None:
                broke.store[k] = dunno
        if orelse and st.guard:
            self.exec_block(orelse, st, fr)
        if broke is not None and broke.guard:
            self.become(st, merge_states(st, broke) if st.guard else broke)

    def one_array(self, base, carried, apart):
        """Carried names of one and the same array, with the one standing for it."""
        reps, out = {}, {}
        for k in carried:
            t = base.get(('fr',) + k[1:])
            if k[0] in ('l', 'a') and k not in apart and t is not None and isk(t) and 'view:' not in kval(t):
                r = reps.setdefault((t, base[k]), k)
                if r is not k:
                    out[k] = r
        return out

    def alias_tokens(self, st):
        """Names that may share memory keep that knowledge through the loop,
        where their values become recurrences."""
        by = {}
        for k, v in st.store.items():
            if k[0] in ('l', 'a') and isinstance(v, T) and v.op not in NOMEM and ('fr',) + k[1:] not in st.store:
                for r in roots(v):
                    by.setdefault(r, []).append((k, v))
        for r, ks in by.items():
            for k, v in ks:
                key = ('fr',) + k[1:]
                if key not in st.store:
                    st.store[key] = K('%sroot:%d' % ('' if v is r and not (r.op == 'app' and r.args[0] in self.FRESHFN) else 'view:', r.uid))

    def element_tokens(self, before, base, s):
        for k, v in list(s.store.items()):
            if k[0] == 'l' and isinstance(v, T) and v.op not in NOMEM and before.get(k) is not v and ('fr',) + k[1:] not in s.store:
                mem = roots(v)
                if not mem:
                    continue
                for k2, w in base.items():
                    if k2[0] in ('l', 'a') and isinstance(w, T) and w.op not in NOMEM and roots(w) & mem:
                        t = s.store.get(('fr',) + k2[1:])
                        if t is not None and isk(t):
                            s.store[('fr',) + k[1:]] = K('view:' + kval(t).split('view:')[-1])
                            break

    def live_frames(self, fr):
        out = [fr]
        f = fr
        while getattr(f, 'is_comp', False) and getattr(f, 'outer', None) is not None:
            f = f.outer
            out.append(f)
        return out

    def lv(self, key, d, depth):
        return mk('lv', d, depth, str(key))

    def finish_loop(self, d, io, depth, base, g0, end, ctl, carried, st, fr, ev0, ra0, rets, ctr0, node):
        same, every = self.same, carried
        carried = [k for k in carried if k not in same]
        lvs = {self.lv(k, d, depth): k for k in carried}
        # --- exits
        eX = 0
        for r in self.raises[ra0:]:
            eX = bor(eX, r.guard)
        eR = 0
        newrets = []
        for f, k in rets.values():
            for r in f.returns[k:]:
                eR = bor(eR, r[0])
                newrets.append((f, r))
        eB = 0
        for b in ctl['break']:
            eB = bor(eB, b.guard)
        # --- recurrences
        inval, outval = {}, {}
        steps = {}
        if end is not None:
            for k in carried:
                v = end.store.get(k, UNDEF)
                steps[k] = self.inner_rd(v, end, ctr0)
                if self.guardless(end.guard, g0):
                    pass
        pending = list(carried)
        progress = True
        sol = {}
        while pending and progress:
            progress = False
            for k in list(pending):
                L = self.lv(k, d, depth)
                E = steps.get(k)
                if E is None:
                    pending.remove(k)
                    continue
                E2 = subst(E, sol) if sol else E
                others = [x for x in lvs if x is not L and x not in sol and contains(E2, x)]
                if others:
                    continue
                r = self.solve(k, L, E2, base.get(k, UNDEF), d, io, depth)
                if r is None:
                    r = self.unswitch(k, L, E2, base.get(k, UNDEF), d, io, depth)
                if r is None:
                    continue
                sol[L], outval[k] = r
                pending.remove(k)
                progress = True
        for k in pending:
            L = self.lv(k, d, depth)
            sol[L] = mk('mu', 'in', d, str(k[-1] if isinstance(k[-1], str) else k[0]), depth)
            outval[k] = mk('mu', 'out', d, str(k[-1] if isinstance(k[-1], str) else k[0]), depth)
            self.opaque_notes.append('unsolved recurrence for %s at %s:%s' % (
                k[-1], self.path_of(fr), getattr(node, 'lineno', '?')))
        for k, r in same.items():
            if r in outval:
                outval[k] = outval[r]
        if end is None:
            for k in every:
                outval[k] = base.get(k, UNDEF)
                sol.setdefault(self.lv(k, d, depth), base.get(k, UNDEF))
        # --- rewrite what happened inside the iteration
        if sol:
            gm = {}

            def sg(g):
                return bsubst(g, sol) if g > 1 else g
            memo = {}

            def sv(x):
                if isinstance(x, T):
                    return rewrite(x, lambda y: sol.get(y), memo)
                if isinstance(x, tuple):
                    return tuple(sv(y) for y in x)
                return x
            for e in self.events[ev0:]:
                e.guard = sg(e.guard)
                e.data = sv(e.data)
            for r in self.raises[ra0:]:
                r.guard = sg(r.guard)
                r.store = {k: sv(v) for k, v in r.store.items()}
            eX, eR, eB = sg(eX), sg(eR), sg(eB)
        else:
            def sg(g):
                return g

            def sv(x):
                return x
        # --- exits become existential guards
        xX = exists(d, io, eX) if eX else 0
        xR = exists(d, io, eR) if eR else 0
        xB = exists(d, io, eB) if eB else 0
        onR = onX = 1
        if eB and (eR or eX):
            # the first iteration that leaves the loop says how
            eE = bor(eB, bor(eR, eX))
            xE = exists(d, io, eE)
            if eR:
                onR = band(xE, truth(self.first(d, io, eE, mkB(eR))))
                xR = onR
            if eX:
                onX = band(xE, truth(self.first(d, io, eE, mkB(eX))))
                xX = onX
            xB = band(xE, bnot(bor(xR, xX)))
        for r in self.raises[ra0:]:
            r.guard = band(exists(d, io, r.guard), onX)
        if newrets:
            byf = {}
            for f, r in newrets:
                byf.setdefault(id(f), (f, []))[1].append(r)
            for f, rs in byf.values():
                k = rets[id(f)][1]
                del f.returns[k:]
                _, val = merge_values([(sg(r[0]), sv(self.inner_rd(r[1], State(r[2], 1), ctr0))) for r in rs])
                g = band(exists(d, io, sg(rs[0][0])) if len(rs) == 1 else exists(d, io, eR), onR)
                store = dict(base)
                m = None
                for r in rs:
                    s1 = State({kk: sv(self.inner_rd(vv, State(r[2], 1), ctr0)) for kk, vv in r[2].items()}, sg(r[0]))
                    m = s1 if m is None else merge_states(m, s1)
                for kk, vv in m.store.items():
                    if kk in base and vv is base[kk]:
                        continue
                    store[kk] = self.first(d, io, eR, vv)
                f.returns.append((g, self.first(d, io, eR, val), store, rs[0][3]))
        # --- state after the loop
        store = dict(base)
        normal_end = band(g0, bnot(bor(bor(xX, xR), 0)))
        if end is not None:
            for k, v in end.store.items():
                if k not in base and k[0] == 'l':
                    store[k] = self.last(d, io, sv(self.inner_rd(v, end, ctr0)))
                elif k not in base:
                    store[k] = sv(v)
        for k in every:
            store[k] = outval[k]
        if eB:
            m = None
            for b in ctl['break']:
                s1 = State({kk: sv(self.inner_rd(vv, b, ctr0)) for kk, vv in b.store.items()}, sg(b.guard))
                m = s1 if m is None else merge_states(m, s1)
            bs = dict(store)
            for kk, vv in m.store.items():
                if kk in base and vv is base[kk]:
                    bs[kk] = vv
                else:
                    bs[kk] = self.first(d, io, eB, vv)
            self.become(st, State(store, band(normal_end, bnot(xB)) if end is not None else band(normal_end, bnot(nonempty_dom(d)))))
            return State(bs, band(normal_end, xB))
        else:
            st.store = store
            st.guard = normal_end if end is not None else (
                band(normal_end, bnot(nonempty_dom(d))))

    def guardless(self, a, b):
        return a == b

    def inner_rd(self, v, st, ctr0):
        """Contents of cells created during the iteration, as values."""
        if not has_cell(v):
            return v
        memo = {}

        def fn(x):
            if x.op == 'cell' and x.args[1] > ctr0:
                c = st.store.get(('c', x))
                return rewrite(c, fn, {}) if c is not None else mk('opaquecell', *x.args)
            return None if has_cell(x) else x
        return rewrite(v, fn, memo)

    def first(self, d, io, g, v):
        if v.op in ('cell',):
            return v
        if not contains(v, io):
            # value independent of which iteration is first only if its gammas are
            return v
        if v.op == 'gam':
            es = [simple_elems(l) if l.op == 'tuple' else None for _, l in v.args[0]]
            if all(e is not None and len(e) == len(es[0]) for e in es):
                return seq('tuple', [('e', self.first(d, io, g, gam(
                    [(gi, e[i]) for (gi, _), e in zip(v.args[0], es)]))) for i in range(len(es[0]))])
        if v.op == 'tuple':
            return seq('tuple', [(k, self.first(d, io, g, x)) for k, x in v.args[0]])
        d2, j, (b, f) = bind('first', d, io, v, g)
        return mk('first', d2, j, mk('B', f), b)

    def last(self, d, io, v):
        def whole(x):
            # the dictionary built so far, plus this item, at the last item
            if x.op == 'dictset' and x.args[0].op == 'dictupto' and x.args[0].args[2] is io:
                v0, m, _ = x.args[0].args
                if m.op != 'dictmap' and mk('key', m, io) is x.args[1] and mk('val', m, io) is x.args[2]:
                    return m if v0.op == 'dict' and not v0.args[0] else mk('dictmerge', v0, m)
                if m.op == 'dictmap' and m.args[4].args[0] == 1 and \
                        subst(m.args[2], {m.args[1]: io}) is x.args[1] and subst(m.args[3], {m.args[1]: io}) is x.args[2]:
                    r = mkdictmap(m.args[0], m.args[1], m.args[2], m.args[3], 1)
                    return r if v0.op == 'dict' and not v0.args[0] else mk('dictmerge', v0, r)
            return None
        v = rewrite(v, whole, {})
        if not contains(v, io):
            return v
        d2, j, (b,) = bind('last', d, io, v)
        return mk('last', d2, j, b)

    # ------------------------------------------------------------ recurrences
    def solve(self, key, L, E, v0, d, io, depth):
        """(value at iteration start, value after the loop) or None."""
        ne = nonempty_dom(d)
        if E is L:
            return v0, v0
        if not contains(E, L):
            out_leaf = self.last(d, io, E)
            if v0 is K(0) and out_leaf.op == 'sum' and nonempty_dom(out_leaf.args[0]) == ne:
                out = out_leaf          # the empty sum is the initial zero
            else:
                out = gam([(ne, out_leaf), (bnot(ne), v0)])
            prev = mk('prev', d, io, E, v0)
            return prev, out
        lv_leaves = leaves(E)
        # sequences
        kinds = [l for _, l in lv_leaves if l is not L]
        if kinds and all(l.op in ('list', 'tuple') and l.args[0] and l.args[0][0] == ('s', L) and
                         not any(contains(x if isinstance(x, T) else mk('tuple', (('e', x),)), L)
                                 for _, x in l.args[0][1:]) for l in kinds):
            kind = kinds[0].op
            flt, pairs = 0, []
            for g, l in lv_leaves:
                if any(contains(a, L) for a in batoms(g)):
                    return None
                if l is L:
                    continue
                flt = bor(flt, g)
                pairs.append((g, mk('list', l.args[0][1:])))
            pairs = [(constrain(g, flt), x) for g, x in pairs]
            els = [simple_elems(x) for _, x in pairs]
            if all(e is not None and len(e) == 1 for e in els):
                body = gam([(g, e[0]) for (g, _), e in zip(pairs, els)])
                m = mkmap(d, io, body, flt)
            else:
                m = mkfmap(d, io, gam(pairs), flt)
            out = seq(kind, [('s', v0), ('s', m)])
            pre = seq(kind, [('s', v0), ('s', mk('upto', m, io))])
            return pre, out
        # sequences built from the end
        if kinds and all(l.op == 'list' and len(l.args[0]) == 2 and l.args[0][1] == ('s', L) and l.args[0][0][0] == 'e' and
                         not contains(l.args[0][0][1], L) for l in kinds) and 'reversed' not in show(d):
            flt, pairs = 0, []
            for g, l in lv_leaves:
                if any(contains(a, L) for a in batoms(g)):
                    return None
                if l is L:
                    continue
                flt = bor(flt, g)
                pairs.append((g, l.args[0][0][1]))
            m = mkmap(d, io, gam([(constrain(g, flt), x) for g, x in pairs]), flt)
            out = seq('list', [('s', app('reversed', (m,))), ('s', v0)])
            return seq('list', [('s', app('reversed', (mk('upto', m, io),))), ('s', v0)]), out
        # dictionaries
        if kinds and all(self.dict_chain(l, L) is not None for l in kinds):
            chains = [self.dict_chain(l, L) for l in kinds]
            if all(len(c) == 1 for c in chains):
                flt, kp, vp = 0, [], []
                for g, l in lv_leaves:
                    if any(contains(a, L) for a in batoms(g)):
                        return None
                    if l is L:
                        continue
                    c = self.dict_chain(l, L)[0]
                    flt = bor(flt, g)
                    kp.append((g, c[0]))
                    vp.append((g, c[1]))
                kk = gam([(constrain(g, flt), x) for g, x in kp])
                vv = gam([(constrain(g, flt), x) for g, x in vp])
                if contains(kk, L) or contains(vv, L):
                    return None
                m = mkdictmap(d, io, kk, vv, flt)
                out = m if v0.op == 'dict' and not v0.args[0] else mk('dictmerge', v0, m)
                return mk('dictupto', v0, m, io), out
            return None
        # element stores of an inner loop
        if E.op == 'storemap' and E.args[0] is L and not any(contains(x, L) for x in E.args[1:]):
            d2, j, (dd, jj, i2, v2, b2) = bind('storenest', d, io, *E.args[1:])
            out = mk('storenest', v0, d2, j, dd, jj, i2, v2, b2)
            return mk('storeupto', out, io), out
        # element stores
        if kinds and all(l.op == 'store' and l.args[0] is L for l in kinds):
            flt, ip, vp = 0, [], []
            for g, l in lv_leaves:
                if any(contains(a, L) for a in batoms(g)):
                    return None
                if l is L:
                    continue
                flt = bor(flt, g)
                ip.append((g, l.args[1]))
                vp.append((g, l.args[2]))
            if len(ip) > 1:
                # each alternative may accumulate on its own
                accs = []
                for (g, i), (_, v) in zip(ip, vp):
                    cur = sub(L, i)
                    o = None
                    if v.op == 'app' and v.args[0] == 'add' and len(v.args[1]) == 2:
                        a, b = v.args[1]
                        o = b if a is cur else a if b is cur else None
                    if v.op == 'app' and v.args[0] == 'sub' and v.args[1][0] is cur:
                        o = app('neg', (v.args[1][1],))
                    accs.append(o)
                if all(o is not None for o in accs):
                    i0 = ip[0][1]
                    if all(i is i0 for _, i in ip):
                        vp = [(g, app('add', (sub(L, i0), gam([(constrain(g, flt), o) for (g, _), o in zip(ip, accs)]))))]
                        ip = [(flt, i0)]
                        vp = [(flt, vp[0][1])]
            ii = gam([(constrain(g, flt), x) for g, x in ip])
            vv = gam([(constrain(g, flt), x) for g, x in vp])
            if contains(ii, L):
                return None
            acc = None
            if contains(vv, L):
                # accumulate: x[i] = x[i] + v
                cur = sub(L, ii)
                if vv.op == 'app' and vv.args[0] == 'add' and len(vv.args[1]) == 2:
                    a, b = vv.args[1]
                    other = b if a is cur else a if b is cur else None
                    if other is not None and not contains(other, L):
                        acc = other
                if vv.op == 'app' and vv.args[0] == 'sub' and vv.args[1][0] is cur and not contains(vv.args[1][1], L):
                    acc = app('neg', (vv.args[1][1],))
                if acc is None:
                    return None
                d2, j, (i2, v2, f2) = bind('storeadd', d, io, ii, acc, flt)
                out = mk('storeadd', v0, d2, j, i2, v2, mk('B', f2))
                return mk('storeupto', out, io), out
            if ii is io and flt == 1 and v0.op == 'app' and v0.args[0] in ('listrep',) and v0.args[1][1] is domlen(d):
                m = mkmap(d, io, vv)
                return mk('upto', m, io), seq('list', [('s', m)])
            d2, j, (i2, v2, f2) = bind('storemap', d, io, ii, vv, flt)
            out = mk('storemap', v0, d2, j, i2, v2, mk('B', f2))
            return mk('storeupto', out, io), out
        # numbers
        inc = []
        ok = True
        for g, l in lv_leaves:
            if any(contains(a, L) for a in batoms(g)):
                ok = False
                break
            if l is L:
                inc.append((g, K(0)))
                continue
            x = self.increment(l, L)
            if x is None or contains(x, L):
                ok = False
                break
            inc.append((g, x))
        if ok:
            x = gam(inc)
            ps = mkpsum(d, io, x, io)
            return app('add', (v0, ps)), app('add', (v0, mksum(d, io, x)))
        # consuming a prefix: x = x[n:]
        if E.op == 'sub' and E.args[0] is L and E.args[1].op == 'slice' and E.args[1].args[1] is NONE and \
                E.args[1].args[2] is NONE and not contains(E.args[1], L) and E.args[1].args[0] is not NONE:
            nn = E.args[1].args[0]
            ps = mkpsum(d, io, nn, io)
            return (sub(v0, mk('slice', ps, NONE, NONE)),
                    sub(v0, mk('slice', mksum(d, io, nn), NONE, NONE)))
        # flags and sticky values
        gE = None
        if self.boolish(v0) or isk(v0) and isinstance(kval(v0), bool):
            gE = self.bool_leaves(E, L)
        if gE is not None:
            h1, h0 = cofactor(gE, L, True), cofactor(gE, L, False)
            b0 = truth(v0)
            if h0 == 0:
                return (mk('flagupto', d, io, mk('B', h1), v0), mkB(band(b0, bnot(exists(d, io, bnot(h1))))))
            if h1 == 1:
                return (mk('flagupto', d, io, mk('B', h0), v0), mkB(bor(b0, exists(d, io, h0))))
        if all(l is L or not contains(l, L) for _, l in lv_leaves):
            g = 0
            dep = False
            for gi, l in lv_leaves:
                if any(contains(a, L) for a in batoms(gi)):
                    dep = True
                if l is not L:
                    g = bor(g, gi)
            if not dep:
                consts = [l for _, l in lv_leaves if l is not L]
                x = exists(d, io, g)
                if len(consts) == 1 and not contains(consts[0], io):
                    val = consts[0]
                else:
                    d2, j, (b, f) = bind('lastwhere', d, io, gam([(constrain(gi, g), l) for gi, l in lv_leaves if l is not L]), g)
                    val = mk('lastwhere', d2, j, mk('B', f), b)
                return (mk('stickyupto', d, io, mk('B', g), val, v0), gam([(x, val), (bnot(x), v0)]))
        return None

    def unswitch(self, key, L, E, v0, d, io, depth):
        """Split by a condition that is the same in every iteration."""
        if E.op != 'gam':
            return None
        for g, _ in E.args[0]:
            for a in sorted(batoms(g), key=lambda t: t.uid):
                if any(y.op in ('lv', 'iota') and (y.args[:2] == (d, depth) or y is io) for y in walk(a)):
                    continue
                parts = []
                for b in (True, False):
                    e = gam([(c, l) for c, l in ((cofactor(h, a, b), l) for h, l in E.args[0]) if c != 0])
                    r = self.solve(key, L, e, v0, d, io, depth) or self.unswitch(key, L, e, v0, d, io, depth)
                    if r is None:
                        return None
                    parts.append(r)
                g1 = atom(a)
                return tuple(gam([(g1, parts[0][n]), (bnot(g1), parts[1][n])]) for n in (0, 1))
        return None

    def bool_leaves(self, E, L):
        g = 0
        for gi, l in leaves(E):
            if l is L:
                g = bor(g, band(gi, atom(L)))
            elif l.op == 'B' or isk(l) and isinstance(kval(l), bool) or self.boolish(l):
                g = bor(g, band(gi, truth(l)))
            else:
                return None
        return g

    def dict_chain(self, l, L):
        out = []
        while l is not L:
            if l.op == 'dictset':
                out.append((l.args[1], l.args[2]))
                l = l.args[0]
            elif l.op == 'dict':
                return None
            else:
                return None
        return out

    def increment(self, t, L):
        if t is L:
            return K(0)
        if t.op == 'app' and t.args[0] == 'add' and len(t.args[1]) == 2:
            a, b = t.args[1]
            for x, y in ((a, b), (b, a)):
                if contains(x, L) and not contains(y, L):
                    i = self.increment(x, L)
                    if i is not None:
                        return y if i is K(0) else app('add', (i, y))
        if t.op == 'app' and t.args[0] == 'sub' and len(t.args[1]) == 2:
            a, b = t.args[1]
            if contains(a, L) and not contains(b, L):
                i = self.increment(a, L)
                if i is not None:
                    nb = app('neg', (b,))
                    return nb if i is K(0) else app('add', (i, nb))
        return None

    # ------------------------------------------------------------ while loops
    def run_while(self, s, st, fr):
        d = mk('whiledom', K(getattr(s, 'lineno', 0)))
        # recognise counting loops: while i < n: ...; i += 1
        cnt = self.counter_loop(s, st, fr)
        if cnt is not None:
            name, v0, bound = cnt
            dd = dom(app('range', (bound,)))

            def bindv(s2, io):
                self.bind_name(name, io, s2, fr)

            def body(s2, ctl):
                fr.ctl.append(ctl)
                self.exec_block(s.body, s2, fr)
                fr.ctl.pop()
            # the counter itself is the loop index: treat its increment as done by the loop
            self.loop(dd, bindv, body, st, fr, s, s.orelse)
            if st.guard:
                self.bind_name(name, bound, st, fr)
            return

        def bindv(s2, io):
            c = self.evd(s.test, s2, fr)
            s2.guard = band(s2.guard, truth(c))

        def body(s2, ctl):
            if s2.guard == 0:
                return
            fr.ctl.append(ctl)
            self.exec_block(s.body, s2, fr)
            fr.ctl.pop()
        c = self.evd(s.test, st.copy(), fr)
        if truth(c) == 0:
            return
        self.opaque_notes.append('while loop at %s:%s' % (self.path_of(fr), s.lineno))
        self.loop(d, bindv, body, st, fr, s, s.orelse)

    def counter_loop(self, s, st, fr):
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq))
                and isinstance(t.left, ast.Name)):
            return None
        name = t.left.id
        if fr.is_module:
            return None
        incs = 0
        for x in ast.walk(s):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                if not (isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1
                        and x in s.body):
                    return None
                incs += 1
            elif isinstance(x, (ast.Assign,)) and any(isinstance(y, ast.Name) and y.id == name
                                                      for tt in x.targets for y in ast.walk(tt)):
                return None
            elif isinstance(x, ast.Continue):
                return None
        if incs != 1:
            return None
        v0 = self.lookup(name, st, fr)
        if v0 is not K(0):
            return None
        assigned = {y.id for x in s.body for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        used = {y.id for y in ast.walk(t.comparators[0]) if isinstance(y, ast.Name)}
        if assigned & used:
            return None
        bound = self.evd(t.comparators[0], st.copy(), fr)
        return name, v0, bound
