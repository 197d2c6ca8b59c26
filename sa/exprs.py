"""Expression semantics of the abstract machine."""
import ast
from .core import *

ARR_ATTR = {'shape': 'np.shape', 'size': 'np.size', 'ndim': 'np.ndim', 'T': 'T'}


class ExprMixin:
    OPNAME = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.Pow: 'pow',
              ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.MatMult: 'matmul',
              ast.BitAnd: 'bitand', ast.BitOr: 'bitor', ast.BitXor: 'bitxor',
              ast.LShift: 'lshift', ast.RShift: 'rshift'}
    CMP = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne'}

    def ev(self, n, st, fr):
        if st.guard == 0:
            return UNDEF
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    self.ev(c, st, fr)
            return mk('opaque', type(n).__name__, getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0))
        return m(n, st, fr)

    def evd(self, n, st, fr):
        return self.rd(self.ev(n, st, fr), st)

    def e_Constant(self, n, st, fr):
        try:
            return K(n.value)
        except TypeError:
            return mk('opaque', 'const', 0, 0)

    def e_Name(self, n, st, fr):
        return self.norm_name(self.lookup(n.id, st, fr), st)

    def norm_name(self, v, st):
        return under(v, st.guard) if v.op == 'gam' else v

    def e_Attribute(self, n, st, fr):
        b = self.ev(n.value, st, fr)
        if st.guard == 0:
            return UNDEF
        return self.getattr(b, self.mang(n.attr, fr), st, fr, n)

    def e_NamedExpr(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        f = fr
        while getattr(f, 'is_comp', False):
            f = self.frames.get(f.chain[-1], f)
        self.bind_name(n.target.id, v, st, f)
        return v

    def e_Starred(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Tuple(self, n, st, fr):
        parts = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                parts.append(('s', self.rd(self.ev(e.value, st, fr), st)))
            else:
                parts.append(('e', self.ev(e, st, fr)))
        return seq('tuple', parts)

    def e_List(self, n, st, fr):
        t = self.e_Tuple(n, st, fr)
        return self.new_cell('list', seq('list', t.args[0]), st)

    def e_Set(self, n, st, fr):
        t = self.e_Tuple(n, st, fr)
        return mk('setlit', tuple(sorted((v for _, v in t.args[0]), key=lambda x: x.uid)))

    def e_Dict(self, n, st, fr):
        c = mk('dict', ())
        parts = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.rd(self.ev(v, st, fr), st)
                if x.op == 'dict':
                    parts += list(x.args[0])
                else:
                    parts.append(('s', x))
            else:
                kk = self.evd(k, st, fr)
                parts.append(('e', (kk, self.ev(v, st, fr))))
        return self.new_cell('dict', mk('dict', tuple(parts)), st)

    def e_JoinedStr(self, n, st, fr):
        a = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                a.append(self.evd(v.value, st, fr))
            else:
                a.append(self.evd(v, st, fr))
        if all(isk(x) for x in a) and not any(
                isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion != -1) for v in n.values):
            return K(''.join(str(kval(x)) for x in a))
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion != -1) for v in n.values):
            t = self.spelled(n, a)
            return K(t) if t is not None else app('fmt', a, (('how', K('spec')),))
        return app('fmt', a)

    def spelled(self, n, a):
        """The text of a formatted string whose parts are all known."""
        r = []
        for v, x in zip(n.values, a):
            if not isk(x):
                return None
            y = kval(x)
            if isinstance(v, ast.FormattedValue):
                if v.conversion != -1:
                    y = {'s': str, 'r': repr, 'a': ascii}[chr(v.conversion)](y)
                f = ''
                for p in v.format_spec.values if v.format_spec else ():
                    if not isinstance(p, ast.Constant):
                        return None
                    f += str(p.value)
                try:
                    y = format(y, f)
                except Exception:
                    return None
            r.append(str(y))
        return ''.join(r)

    def e_FormattedValue(self, n, st, fr):
        return self.evd(n.value, st, fr)

    def e_Lambda(self, n, st, fr):
        return self.make_func(n, '<lambda>', st, fr)

    def e_IfExp(self, n, st, fr):
        c = self.evd(n.test, st, fr)
        g = truth(c)
        a, b = st.copy(band(st.guard, g)), st.copy(band(st.guard, bnot(g)))
        va = self.ev(n.body, a, fr) if a.guard else None
        vb = self.ev(n.orelse, b, fr) if b.guard else None
        _, v = merge_values([(a.guard, va), (b.guard, vb)])
        self.become(st, merge_states(a, b))
        return UNDEF if v is None else v

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        outs = []          # (guard, value, state)
        cur = st.copy()
        for i, x in enumerate(n.values):
            v = self.ev(x, cur, fr)
            if cur.guard == 0:
                break
            if i == len(n.values) - 1:
                outs.append((cur.guard, v, cur))
                break
            g = truth(self.rd(v, cur))
            stop = bnot(g) if isand else g
            s = cur.copy(band(cur.guard, stop))
            if s.guard:
                outs.append((s.guard, (mkB(0 if isand else 1) if self.boolish(v) else v), s))
            cur = cur.copy(band(cur.guard, bnot(stop)))
            if cur.guard == 0:
                break
        if not outs:
            st.guard = 0
            return UNDEF
        allbool = all(self.boolish(v) for _, v, _ in outs)
        res, g, acc = None, 0, 0
        for gi, v, s in outs:
            res = s if res is None else merge_states(res, s)
        if allbool:
            for gi, v, s in outs:
                acc = bor(acc, band(gi, truth(self.rd(v, s))))
            val = mkB(constrain(acc, res.guard))
        else:
            _, val = merge_values([(gi, v) for gi, v, _ in outs])
        self.become(st, res)
        return val

    def boolish(self, v):
        if v.op == 'B' or v in (TRUE, FALSE):
            return True
        if v.op == 'gam':
            return all(self.boolish(l) for _, l in v.args[0])
        if v.op == 'app':
            return v.args[0] in ('isinstance', 'is', 'in', 'not', 'isnone', 'builtins.bool',
                                 'builtins.any', 'builtins.all', 'builtins.callable',
                                 'builtins.hasattr', 'np.any', 'np.all')
        return False

    def e_UnaryOp(self, n, st, fr):
        v = self.evd(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return mkB(truth(v))if False else mkB(bnot(truth(v)))
        if isinstance(n.op, ast.USub):
            return app('neg', (v,))
        if isinstance(n.op, ast.UAdd):
            return v
        return app('np.logical_not', (v,))

    def e_BinOp(self, n, st, fr):
        a = self.ev(n.left, st, fr)
        b = self.ev(n.right, st, fr)
        if st.guard == 0:
            return UNDEF
        return self.binop(self.OPNAME[type(n.op)], a, b, st, fr, n)

    def binop(self, op, a, b, st, fr, n):
        av, bv = self.rd(a, st), self.rd(b, st)
        if op == 'mod' and isk(av) and isinstance(kval(av), str):
            e = [bv] if isk(bv) else simple_elems(bv) if bv.op == 'tuple' else None
            if e is not None and all(isk(x) for x in e):
                try:
                    return K(kval(av) % (kval(bv) if isk(bv) else tuple(kval(x) for x in e)))
                except Exception:
                    pass
            return app('fmt', (av, bv), (('how', K('%')),))
        if op == 'add' and isk(av) and isinstance(kval(av), str) and not isk(bv) or \
                op == 'add' and av.op == 'app' and av.args[0] == 'fmt':
            return app('fmt', (av, bv))
        if op == 'mul' and (av.op == 'list' or bv.op == 'list'):
            c = mk('app', 'listrep', (av, bv) if av.op == 'list' else (bv, av), ())
            return self.new_cell('list', c, st)
        if op == 'add' and (av.op in ('list', 'map', 'fmap') and bv.op in ('list', 'map', 'fmap')):
            return self.new_cell('list', seq('list', [('s', av), ('s', bv)]), st)
        if av.op == 'gam' and all(l.op in ('k', 'tuple', 'list') for _, l in av.args[0]) or \
                bv.op == 'gam' and all(l.op in ('k', 'tuple', 'list') for _, l in bv.args[0]):
            out = []
            for g, x in leaves(av):
                for h, y in leaves(bv):
                    out.append((band(g, h), app(op, (x, y))))
            return gam(out)
        if op in ('bitand', 'bitor') and self.boolish(av) and self.boolish(bv):
            f = band if op == 'bitand' else bor
            return mkB(f(truth(av), truth(bv)))
        if op in ('bitand', 'bitor') and av.op in ('app',) and bv.op == 'app' and \
                av.uid > bv.uid:
            av, bv = bv, av
        self.event('op', st, op, (av, bv), n, fr)
        return app(op, (av, bv))

    def e_Compare(self, n, st, fr):
        left = self.ev(n.left, st, fr)
        res = []
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, st, fr)
            if st.guard == 0:
                return UNDEF
            res.append(self.compare(op, left, right, st, fr, n))
            left = right
        if len(res) == 1:
            return res[0]
        g = 1
        for r in res:
            g = band(g, truth(r))
        return mkB(g)

    def compare(self, op, a, b, st, fr, n):
        av, bv = self.rd(a, st), self.rd(b, st)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if av is NONE or bv is NONE:
                g = truth(app('isnone', (bv if av is NONE else av,)))
            elif av.op == 'gam' or bv.op == 'gam':
                g = 0
                for x, vx in leaves(av):
                    for y, vy in leaves(bv):
                        g = bor(g, band(band(x, y), truth(self.is_app(vx, vy))))
            else:
                g = truth(self.is_app(av, bv))
            return mkB(g if isinstance(op, ast.Is) else bnot(g))
        if isinstance(op, (ast.In, ast.NotIn)):
            g = truth(self.contains_app(av, bv))
            return mkB(g if isinstance(op, ast.In) else bnot(g))
        name = self.CMP[type(op)]
        for x, y in ((av, bv), (bv, av)):
            if x.op == 'obj' and name in ('eq', 'ne'):
                m = self.class_attr(x, '__eq__')
                if m is not None and m[1].op == 'func':
                    r = self.call(mk('bm', m[1], x), [y], {}, st, fr, n)
                    return r if name == 'eq' else mkB(bnot(truth(self.rd(r, st))))
        if name in ('eq', 'ne') and av.op == 'tuple' and bv.op == 'tuple':
            ea, eb = simple_elems(av), simple_elems(bv)
            if ea is not None and eb is not None:
                g = 1 if len(ea) == len(eb) else 0
                for x, y in zip(ea, eb):
                    g = band(g, truth(app('eq', (x, y))))
                return mkB(g if name == 'eq' else bnot(g))
        self.event('cmp', st, name, (av, bv), n, fr)
        for x, y in ((av, bv), (bv, av)):
            # x.type == cls comparisons behave as identity
            if x.op == 'app' and x.args[0] == 'type' and name in ('eq', 'ne'):
                g = truth(self.is_app(av, bv))
                return mkB(g if name == 'eq' else bnot(g))
        return app(name, (av, bv))

    def is_app(self, a, b):
        if a is b:
            return TRUE
        if a.op in ('cls', 'ext') and b.op in ('cls', 'ext'):
            return FALSE
        if isk(a) and isk(b):
            return FALSE
        for x, y in ((a, b), (b, a)):
            if isk(x) and isinstance(kval(x), bool) and y.op == 'B':
                return mkB(y.args[0] if kval(x) else bnot(y.args[0]))
            if isk(x) and known_nonnone(y) and x is NONE:
                return FALSE
        if a.uid > b.uid:
            a, b = b, a
        return mk('app', 'is', (a, b), ())

    def contains_app(self, x, c):
        if c.op == 'app' and c.args[0] in ('dict.keys', 'builtins.list', 'builtins.tuple', 'builtins.set',
                                           'sorted') and c.args[1]:
            return self.contains_app(x, c.args[1][0])
        e = simple_elems(c) if c.op != 'setlit' else list(c.args[0])
        if e is not None:
            g = 0
            for y in e:
                g = bor(g, truth(app('eq', (x, y))))
            return mkB(g)
        if c.op == 'dict' and all(k == 'e' for k, _ in c.args[0]) and (
                isk(x) or any(k[0] is x for _, k in c.args[0])):
            if all(isk(k[0]) or k[0] is x for _, k in c.args[0]):
                return TRUE if any(k[0] is x for _, k in c.args[0]) else FALSE
        if c.op == 'dictset' and c.args[1] is x:
            return TRUE
        if x.op == 'key' and x.args[0] is c:
            return TRUE
        return mk('app', 'in', (x, c), ())

    def e_Subscript(self, n, st, fr):
        b = self.ev(n.value, st, fr)
        i = self.ev_index(n.slice, st, fr)
        if st.guard == 0:
            return UNDEF
        return self.subscript(b, i, st, fr, n)

    def ev_index(self, s, st, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: NONE if x is None else self.evd(x, st, fr)
            lo, hi, step = f(s.lower), f(s.upper), f(s.step)
            return self.mkslice(lo, hi, step)
        if isinstance(s, ast.Tuple):
            return seq('tuple', [('e', self.ev_index(e, st, fr)) for e in s.elts])
        return self.ev(s, st, fr)

    def mkslice(self, lo, hi, step):
        if lo is K(0):
            lo = NONE
        if step is K(1):
            step = NONE
        return mk('slice', lo, hi, step)

    def e_Slice(self, n, st, fr):
        return self.ev_index(n, st, fr)

    def subscript(self, b, i, st, fr, n):
        if b.op == 'gam':
            return self.distribute(b, st, lambda l, s: self.subscript(l, i, s, fr, n))
        if b.op == 'obj':
            m = self.class_attr(b, '__getitem__')
            if m is not None:
                return self.call(mk('bm', m[1], b), [i], {}, st, fr, n)
        iv = self.rd(i, st)
        if b.op == 'cell':
            c = st.store.get(('c', b))
            if c is None:
                return mk('sub', mk('opaquecell', *b.args), iv)
            r = self.cell_get(c, iv)
            if r is None and self.no_such_key(c, iv):
                self.do_raise('KeyError', iv, st, fr, n)
                return UNDEF
            if r is None:
                self.event('getitem', st, 'getitem', (self.rd(c, st), iv), n, fr)
                return sub(self.rd(c, st), iv)
            return r
        bv = self.rd(b, st)
        if self.no_such_key(bv, iv):
            self.do_raise('KeyError', iv, st, fr, n)
            return UNDEF
        self.event('getitem', st, 'getitem', (bv, iv), n, fr)
        if iv.op == 'tuple' and simple_elems(iv) and all(
                x.op == 'slice' and x.args == (NONE, NONE, NONE) for x in simple_elems(iv)[1:]) \
                and len(simple_elems(iv)) > 1:
            pass
        if iv.op == 'slice' and iv.args == (NONE, NONE, NONE):
            return self.new_cell('list', bv, st) if bv.op == 'list' else bv
        r = sub(bv, iv)
        if iv.op == 'k' and r.op == 'tuple' and bv is not b:
            pass
        return r

    def no_such_key(self, c, i):
        return c.op == 'dict' and isk(i) and all(k == 'e' and isk(e[0]) and e[0] is not i for k, e in c.args[0])

    def cell_get(self, c, i):
        """Contents read that keeps nested cells as references."""
        while c.op == 'dictset':
            if c.args[1] is i:
                return c.args[2]
            return None
        if c.op == 'dict' and (isk(i) or True):
            for k, e in reversed(c.args[0]):
                if k == 'e' and e[0] is i:
                    return e[1]
                if k != 'e' or not (isk(e[0]) and isk(i)):
                    return None
            return None
        if is_seq(c) and isk(i) and type(kval(i)) is int:
            e = simple_elems(c)
            if e is not None and -len(e) <= kval(i) < len(e):
                return e[kval(i)]
        return None

    def distribute(self, v, st, fn):
        """Apply fn to every leaf of a gated value in its own branch state."""
        outs, res = [], None
        base = st.copy()
        for g, l in v.args[0]:
            s = base.copy(band(base.guard, g))
            if s.guard == 0:
                continue
            r = fn(l, s)
            if s.guard == 0:
                continue
            outs.append((s.guard, r))
            res = s if res is None else merge_states(res, s)
        if res is None:
            st.guard = 0
            return UNDEF
        _, val = merge_values(outs)
        self.become(st, res)
        return val

    # ------------------------------------------------------------ attributes
    def mro(self, cls):
        out = []

        def go(c):
            if c in self.classes:
                for x in [c] + [None]:
                    pass
                out.append(c)
                for b in self.classes[c].bases:
                    go(b)
        go(cls)
        # keep the last occurrence of duplicates (diamonds)
        res = []
        for i, c in enumerate(out):
            if c not in out[i + 1:]:
                res.append(c)
        return res

    def cls_of(self, obj):
        return obj.args[0]

    def class_attr(self, obj, name, start_after=None):
        cls = obj if obj.op == 'cls' else self.cls_of(obj)
        m = self.mro(cls)
        if start_after is not None:
            m = m[m.index(start_after) + 1:] if start_after in m else m
        for c in m:
            if name in self.classes[c].ns:
                return c, self.classes[c].ns[name]
        return None

    def present(self, b, name, st):
        """Guard under which an instance has an attribute; None: not known."""
        if b.op != 'obj':
            return None
        if self.class_attr(b, name) is not None:
            return 1
        v = st.store.get(('a', b, name))
        if v is not None:
            g = 0
            for x, l in leaves(v):
                g = bor(g, x) if l is not UNDEF else g
            return g
        if self.loops or not self.known_bases(b):
            return None
        return 0

    def known_bases(self, b):
        """All attributes of the instance come from code that was read."""
        if self.class_attr(b, '__getattr__') is not None:
            return False
        for c in self.mro(self.cls_of(b)):
            for base in self.classes[c].bases:
                if base not in self.classes and not (base.op == 'ext' and base.args[0] in ('builtins.object', 'abc.ABC')):
                    return False
        return True

    def unset(self, l, st, fr, n):
        if l is UNDEF:
            self.do_raise('AttributeError', NONE, st, fr, n)
        return l

    def getattr(self, b, name, st, fr, n, start_after=None):
        o = b.op
        if o == 'gam':
            return self.distribute(b, st, lambda l, s: self.getattr(l, name, s, fr, n))
        if o == 'super':
            cls, obj = b.args
            m = self.class_attr(obj, name, cls)
            if m is None:
                return mk('ext', 'builtins.object.' + name)
            return self.bind_member(m[1], obj, st, fr, n)
        if o == 'obj':
            k = ('a', b, name)
            m = self.class_attr(b, name)
            if m is not None and m[1].op == 'wrapped' and m[1].args[0] == 'property':
                return self.bind_member(m[1], b, st, fr, n)
            if k in st.store:
                v = st.store[k]
                if not self.loops and any(l is UNDEF for _, l in leaves(v)):
                    if m is not None:
                        v = gam([(g, self.bind_member(m[1], b, st, fr, n) if l is UNDEF else l) for g, l in leaves(v)])
                    elif self.known_bases(b):
                        v = gam([(g, l) for g, l in leaves(v) if band(g, st.guard) != 0])
                        v = self.distribute(v, st, lambda l, s: self.unset(l, s, fr, n)) if v.op == 'gam' else self.unset(v, st, fr, n)
                return self.norm_name(v, st)
            if name == '__class__':
                return self.cls_of(b)
            if name == '__dict__':
                return mk('objdict', b)
            if m is not None:
                return self.bind_member(m[1], b, st, fr, n)
            if self.try_depth and self.present(b, name, st) == 0:
                self.do_raise('AttributeError', NONE, st, fr, n)
                return UNDEF
            self.event('getattr', st, name, (b,), n, fr)
            return mk('attr', b, name)
        if o == 'cls':
            k = ('a', b, name)
            if k in st.store:
                return st.store[k]
            if name == '__name__' or name == '__qualname__':
                return K(self.classes[b].name)
            if name == '__module__':
                return K(self.classes[b].module)
            m = self.class_attr(b, name)
            if m is not None:
                v = m[1]
                if v.op == 'wrapped':
                    if v.args[0] == 'classmethod':
                        return mk('bm', v.args[1], b)
                    if v.args[0] == 'staticmethod':
                        return v.args[1]
                return v
            return mk('attr', b, name)
        if o == 'mod':
            k = ('g', b.args[0], name)
            if k in st.store:
                return st.store[k]
            full = b.args[0] + '.' + name
            if full in self.project.modules:
                return mk('mod', full)
            return mk('ext', full)
        if o == 'ext':
            return self.ext(b.args[0] + '.' + name)
        if o in ('func', 'bm') and name in ('__name__', '__qualname__'):
            f = b if o == 'func' else b.args[0]
            if f in self.funcs:
                return K(self.funcs[f].name)
        if o == 'cell':
            return mk('mbound', b, name)
        if o == 'app' and b.args[0] == 'type' and name == '__name__':
            return mk('attr', b, name)
        if name in ARR_ATTR and not self.patternish(b):
            return app(ARR_ATTR[name], (self.rd(b, st),))
        if o == 'app' and b.args[0] == 'type':
            return mk('attr', b, name)
        if o == 'prim' and name in ('defvjp', 'defjvp'):
            return mk('mbound', b, name)
        return mk('mbound', b, name)

    def bind_member(self, v, obj, st, fr, n):
        if v.op == 'func':
            return mk('bm', v, obj)
        if v.op == 'wrapped':
            kind = v.args[0]
            if kind == 'staticmethod':
                return v.args[1]
            if kind == 'classmethod':
                return mk('bm', v.args[1], self.cls_of(obj) if obj.op == 'obj' else obj)
            if kind == 'property' and v.args[1].op == 'func':
                return self.call(mk('bm', v.args[1], obj), [], {}, st, fr, n)
            if kind == 'cached_property':
                r = self.call(mk('bm', v.args[1], obj), [], {}, st, fr, n)
                name = self.funcs[v.args[1]].name if v.args[1] in self.funcs else None
                if name and st.guard and obj.op == 'obj':
                    st.store[('a', obj, name)] = r
                return r
        return v

    # ------------------------------------------------------------ comprehensions
    def comp(self, n, st, fr, kind):
        cf = self.new_frame(fr.func, fr.module, fr.cls, fr.chain if fr.is_module else fr.chain + (fr.fid,))
        cf.is_comp = True
        cf.outer = fr
        lf = LocalsFinder()
        for g in n.generators:
            lf.visit(g.target)
        cf.locals = lf.names
        init = mk('dict', ()) if kind == 'dict' else seq('list', [])
        acc = self.new_cell('dict' if kind == 'dict' else 'list', init, st)

        def gen(i, s):
            if i == len(n.generators):
                if kind == 'dict':
                    k = self.evd(n.key, s, cf)
                    v = self.ev(n.value, s, cf)
                    if s.guard:
                        s.store[('c', acc)] = self.cell_set(s.store[('c', acc)], k, v)
                else:
                    v = self.ev(n.elt, s, cf)
                    if s.guard:
                        s.store[('c', acc)] = seq('list', [('s', s.store[('c', acc)]), ('e', v)])
                return
            g = n.generators[i]
            it = self.ev(g.iter, s, cf if i else fr)

            def body(s2, ctl):
                for c in g.ifs:
                    cv = self.evd(c, s2, cf)
                    gg = truth(cv)
                    skip = s2.copy(band(s2.guard, bnot(gg)))
                    if skip.guard:
                        ctl['continue'].append(skip)
                    s2.guard = band(s2.guard, gg)
                    if s2.guard == 0:
                        return
                gen(i + 1, s2)
            self.run_for(it, lambda s2, v: self.assign(g.target, v, s2, cf), body, s, cf, n)
        gen(0, st)
        if st.guard == 0:
            return UNDEF
        for k in [k for k in st.store if k[0] == 'l' and k[1] == cf.fid]:
            del st.store[k]
        return acc

    def e_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, 'list')

    def e_GeneratorExp(self, n, st, fr):
        return self.comp(n, st, fr, 'list')

    def e_SetComp(self, n, st, fr):
        c = self.comp(n, st, fr, 'list')
        return app('builtins.set', (self.rd(c, st),))

    def e_DictComp(self, n, st, fr):
        return self.comp(n, st, fr, 'dict')

    def e_Yield(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else NONE
        c = fr.yields
        st.store[('c', c)] = seq('list', [('s', st.store[('c', c)]), ('e', v)])
        return NONE

    def e_YieldFrom(self, n, st, fr):
        v = self.evd(n.value, st, fr)
        c = fr.yields
        st.store[('c', c)] = seq('list', [('s', st.store[('c', c)]), ('s', v)])
        return NONE

    def e_Await(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Call(self, n, st, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            obj = self.self_of(st, fr)
            return mk('super', self.cls_term(fr.cls), obj)
        f = self.ev(n.func, st, fr)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.evd(a.value, st, fr)
                e = simple_elems(v)
                if e is not None:
                    args += e
                else:
                    args.append(mk('star', v))
            else:
                args.append(self.ev(a, st, fr))
        for k in n.keywords:
            if k.arg is None:
                v0 = self.ev(k.value, st, fr)
                c = st.store.get(('c', v0)) if v0.op == 'cell' else v0
                if c is not None and c.op == 'dict' and all(
                        x == 'e' and isk(e[0]) and isinstance(kval(e[0]), str) for x, e in c.args[0]):
                    for x, e in c.args[0]:
                        kw[kval(e[0])] = e[1]
                else:
                    kw['**'] = self.rd(v0, st)
            else:
                kw[k.arg] = self.ev(k.value, st, fr)
        if st.guard == 0:
            return UNDEF
        toks = {}
        for a, v in list(zip(n.args, args)) + [(k.value, kw.get(k.arg)) for k in n.keywords]:
            if isinstance(a, ast.Name) and v is not None and v.op not in NOMEM:
                t = st.store.get(('fr', fr.fid, self.mang(a.id, fr)))
                toks[v] = None if v in toks and toks[v] is not t else t
        self.argtoks = {v: t for v, t in toks.items() if t is not None and isk(t)}
        r = self.call(f, args, kw, st, fr, n)
        self.argtoks = {}
        return r

    def cls_term(self, c):
        return mk('cls', c.qual)

    def self_of(self, st, fr):
        f = fr
        while f is not None and (f.func is None or f.func.cls is None or getattr(f, 'selfterm', None) is None):
            if not f.chain:
                break
            f = self.frames.get(f.chain[-1])
        return getattr(f, 'selfterm', NONE) or NONE
