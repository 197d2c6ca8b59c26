"""Call semantics: package calls are analysed in place, external operations
become operation terms, and interface calls on unknown patterns become
``mcall`` terms with their arguments bound to parameter names."""
import ast
from .core import *

DICTM = {'items', 'keys', 'values', 'get', 'pop', 'update', 'setdefault', 'clear', 'copy', 'popitem', 'move_to_end'}
LISTM = {'append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'sort', 'clear', 'copy', 'index', 'count'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'sort', 'clear', 'update', 'setdefault',
            'popitem', 'move_to_end', 'add', 'discard', 'fill', 'put', 'itemset', 'resize', 'setflags',
            'partition', 'setfield', '__setitem__', '__delitem__', 'intersection_update', 'difference_update', 'sum_duplicates', 'eliminate_zeros',
            'sort_indices', 'prune', 'setdiag'}
ARRM = {'any': 'np.any', 'all': 'np.all', 'sum': 'np.sum', 'prod': 'np.prod', 'max': 'np.max', 'min': 'np.min',
        'ravel': 'np.ravel', 'dot': 'matmul', 'astype': 'astype', 'cumsum': 'np.cumsum', 'tolist': 'tolist',
        'squeeze': 'np.squeeze', 'swapaxes': 'np.swapaxes', 'mean': 'np.mean', 'argsort': 'np.argsort',
        'repeat': 'np.repeat', 'clip': 'np.clip', 'nonzero': 'np.nonzero', 'trace': 'np.trace',
        'diagonal': 'np.diag', 'item': 'item', 'copy': 'copy', '__copy__': 'copy', '__deepcopy__': 'copy',
        'todense': 'todense', 'toarray': 'toarray', 'tocoo': 'tocoo', 'tocsr': 'tocsr', 'tocsc': 'tocsc',
        'round': 'np.round', 'conj': 'np.conj', 'view': 'view', 'argmax': 'np.argmax', 'argmin': 'np.argmin'}
UFUNC1 = {'exp', 'log', 'sqrt', 'abs', 'absolute', 'negative', 'square', 'sign', 'log1p', 'expm1', 'tanh', 'sin', 'cos',
          'expit', 'logit', 'isfinite', 'isnan', 'reciprocal', 'rint', 'floor', 'ceil', 'gammaln', 'log2', 'log10'}
UFUNC2 = {'add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'maximum', 'minimum', 'dot', 'matmul',
          'logaddexp', 'mod', 'less', 'greater', 'equal', 'logical_and', 'logical_or', 'outer'}
STRM = {'format', 'join', 'split', 'strip', 'startswith', 'endswith', 'replace', 'lower', 'upper', 'rstrip',
        'lstrip', 'encode', 'decode'}


class CallMixin:
    argtoks = {}

    def iface(self):
        """Parameter lists of the Pattern interface (from the base class)."""
        r = getattr(self, '_iface', None)
        if r is None:
            r = {}
            for t, c in self.classes.items():
                if c.name == 'Pattern' and c.module.startswith(self.pkg):
                    for k, v in c.ns.items():
                        f = v
                        if f.op == 'wrapped':
                            f = f.args[1]
                        if f.op == 'func' and not (k.startswith('__') and k.endswith('__')):
                            r[k] = self.funcs[f]
            for k in ('lock', 'keys'):
                pass
            self._iface = r
        return r

    # ------------------------------------------------------------ dispatcher
    def call(self, f, args, kw, st, fr, n):
        if st.guard == 0:
            return UNDEF
        o = f.op
        if o == 'gam':
            return self.distribute(f, st, lambda l, s: self.call(l, args, kw, s, fr, n))
        if o == 'func':
            return self.call_func(f, args, kw, st, fr, n)
        if o == 'bm':
            fn, recv = f.args
            if fn.op == 'func':
                return self.call_func(fn, [recv] + list(args), kw, st, fr, n, recv)
            if fn.op == 'prim' or fn.op == 'decorated':
                return self.call(fn, [recv] + list(args), kw, st, fr, n)
        if o == 'cls':
            return self.instantiate(f, args, kw, st, fr, n)
        if o == 'prim':
            if self.inline_prims:
                return self.call(f.args[0], args, kw, st, fr, n)
            a = [self.rd(x, st) for x in args]
            k = {x: self.rd(y, st) for x, y in kw.items()}
            self.event('primcall', st, self.prim_name(f), tuple([f] + a), n, fr)
            return mk('app', 'prim:' + self.prim_name(f), tuple(a), tuple(sorted(k.items())))
        if o == 'ext':
            return self.call_ext(f.args[0], args, kw, st, fr, n)
        if o == 'mbound':
            return self.call_method(f.args[0], f.args[1], args, kw, st, fr, n)
        if o == 'obj':
            m = self.class_attr(f, '__call__')
            if m is not None:
                return self.call(mk('bm', m[1], f), args, kw, st, fr, n)
        if o == 'app' and f.args[0] == 'functools.partial':
            pa = list(f.args[1])
            pk = dict(f.args[2])
            pk.update(kw)
            return self.call(pa[0], pa[1:] + list(args), pk, st, fr, n)
        a = tuple(self.rd(x, st) for x in args)
        k = tuple(sorted((x, self.rd(y, st)) for x, y in kw.items()))
        fv = self.rd(f, st)
        self.event('call', st, 'call', (fv, a, k), n, fr)
        r = mk('call', fv, a, k)
        shape = self.returns_of.get(fv)
        if shape is not None:       # the caller of the analysis fixed what this unknown callable returns
            if shape == 'one':
                return mk('ret', r, NONE)
            if shape == 'list':
                return seq('list', [('e', mk('ret', r, K(0))), ('e', mk('ret', r, K(1)))])
            if isinstance(shape, tuple):    # some of the values are None
                return seq('tuple', [('e', NONE if none else mk('ret', r, K(i))) for i, none in enumerate(shape)])
            return seq('tuple', [('e', mk('ret', r, K(i))) for i in range(shape)])
        return r

    def prim_name(self, f):
        x = f.args[0]
        return self.funcs[x].qual if x in self.funcs else '?'

    # ------------------------------------------------------------ package functions
    def call_func(self, f, args, kw, st, fr, n, recv=None):
        F = self.funcs[f]
        if self.member_roundtrip and F.name == 'get_pattern_from_json' and args:
            v = self.rd(args[0], st)
            v = v.args[1][0] if v.op == 'app' and v.args[0] == 'builtins.str' else v
            if v.op == 'mcall' and v.args[1] == 'to_json':
                return v.args[0]
        again = self.stack.count(F.qual)
        self.recursive += again > 0
        if len(self.stack) > self.MAXDEPTH or again > (3 if self.recursive < 60 else 0):
            a = tuple(self.rd(x, st) for x in args)
            self.opaque_notes.append('recursion bound at %s' % F.qual)
            return mk('call', f, a, tuple(sorted((x, self.rd(y, st)) for x, y in kw.items())))
        nf = self.new_frame(F, F.module, F.cls, F.frames)
        nf.locals = F.locals
        nf.globals_ = F.glob
        nf.nonlocals = F.nonl
        nf.selfterm = recv if recv is not None else (args[0] if args and F.cls is not None else None)
        ok = self.bind_params(F, nf, args, kw, st, fr, n)
        if not ok:
            self.do_raise('TypeError', K('bad call of ' + F.qual), st, fr, n)
            return UNDEF
        self.stack.append(F.qual)
        self.visited.add(F.qual)
        if F.is_gen:
            nf.yields = self.new_cell('list', seq('list', []), st)
        if isinstance(F.node, ast.Lambda):
            v = self.ev(F.node.body, st, nf)
            self.stack.pop()
            return v
        self.exec_block(F.node.body, st, nf)
        self.stack.pop()
        return self.finish_call(nf, st, F)

    def finish_call(self, nf, st, F):
        rets = list(nf.returns)
        if st.guard:
            rets.append((st.guard, NONE, st.store, F.node))
        if not rets:
            st.guard = 0
            return UNDEF
        res, pairs = None, []
        for g, v, store, _ in rets:
            s = State(store, g)
            # keep returns disjoint
            if res is not None:
                s.guard = band(g, bnot(res.guard))
                if s.guard == 0:
                    continue
            pairs.append((s.guard, v))
            res = s if res is None else merge_states(res, s)
        _, val = merge_values(pairs)
        if F.is_gen:
            val = nf.yields
        self.become(st, State(dict(res.store), res.guard))
        # drop the callee's plain locals unless a closure may use them
        if not self.escapes(F):
            for k in [k for k in st.store if k[0] in ('l', 'fr') and k[1] == nf.fid]:
                del st.store[k]
        return val

    def escapes(self, F):
        r = getattr(F, 'has_inner', None)
        if r is None:
            r = any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp))
                    for x in ast.walk(F.node) if x is not F.node)
            F.has_inner = r
        return r

    def bind_params(self, F, nf, args, kw, st, fr, n):
        a = F.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        cn = F.cls.name if F.cls else None
        kw = dict(kw)
        toks, self.argtoks = self.argtoks, {}

        def put(name, v):
            st.store[('l', nf.fid, mangle(name, cn))] = v
            if v in toks:
                st.store[('fr', nf.fid, mangle(name, cn))] = toks[v]
        extra, i = [], 0
        star = None
        for v in args:
            if v.op == 'star':
                star = v
                extra.append(v)
                continue
            if star is None and i < len(pos):
                put(pos[i], v)
                i += 1
            else:
                extra.append(v)
        bound = set(pos[:i])
        if extra and not a.vararg:
            if star is not None and len(extra) == 1:
                # *unknown into positional parameters
                for j, p in enumerate(pos[i:]):
                    if p not in kw:
                        put(p, sub(star.args[0], K(j)))
                        bound.add(p)
                extra = []
            else:
                return False
        if a.vararg:
            put(a.vararg.arg, seq('tuple', [('s', x.args[0]) if x.op == 'star' else ('e', x) for x in extra]))
        unk = kw.pop('**', None)
        nd = len(F.defaults)
        for j, p in enumerate(pos):
            if p in bound:
                if p in kw:
                    return False
                continue
            if p in kw:
                put(p, kw.pop(p))
            elif unk is not None and not (a.kwarg and False):
                d = F.defaults[j - (len(pos) - nd)] if j >= len(pos) - nd else None
                put(p, self.kw_unknown(unk, p, d, a))
            elif j >= len(pos) - nd:
                put(p, F.defaults[j - (len(pos) - nd)])
            else:
                return False
        for x in a.kwonlyargs:
            if x.arg in kw:
                put(x.arg, kw.pop(x.arg))
            elif x.arg in F.kwdefaults:
                put(x.arg, F.kwdefaults[x.arg])
            elif unk is not None:
                put(x.arg, self.kw_unknown(unk, x.arg, None, a))
            else:
                return False
        if a.kwarg:
            parts = [('e', (K(k), v)) for k, v in kw.items()]
            if unk is not None:
                parts.append(('s', unk))
            if len(parts) == 1 and parts[0][0] == 's':
                c = unk
            else:
                c = mk('dict', tuple(parts))
            put(a.kwarg.arg, self.new_cell('dict', c, st))
        elif kw:
            return False
        return True

    def kw_unknown(self, unk, p, default, a):
        v = sub(unk, K(p))
        if default is None:
            return v
        g = truth(mk('app', 'in', (K(p), unk), ()))
        return gam([(g, v), (bnot(g), default)])

    def instantiate(self, cls, args, kw, st, fr, n):
        obj = mk('obj', cls, self.fresh())
        m = self.class_attr(cls, '__init__')
        self.event('new', st, str(cls.args[0]), (obj,), n, fr)
        if m is not None and m[1].op == 'func':
            self.call_func(m[1], [obj] + list(args), kw, st, fr, n, obj)
        else:
            exc = self.exc_base(cls)
            if exc:
                return mk('app', 'builtins.' + exc, tuple(self.rd(a, st) for a in args), ())
            st.store[('a', obj, '@args')] = seq('tuple', [('e', a) for a in args])
        return obj

    def exc_base(self, cls):
        for c in self.mro(cls):
            for b in self.classes[c].bases:
                if b.op == 'ext' and b.args[0].endswith(('Error', 'Exception')):
                    return b.args[0].split('.')[-1]
        return None

    # ------------------------------------------------------------ methods of values
    def call_method(self, b, name, args, kw, st, fr, n):
        if st.guard == 0:
            return UNDEF
        if b.op == 'gam':
            return self.distribute(b, st, lambda l, s: self.call_method(l, name, args, kw, s, fr, n))
        if b.op == 'cell':
            r = self.cell_method(b, name, args, kw, st, fr, n)
            if r is not None:
                return r
        bv = self.rd(b, st)
        a = [self.rd(x, st) for x in args]
        k = {x: self.rd(y, st) for x, y in kw.items()}
        if bv.op == 'prim' and name in ('defvjp', 'defjvp'):
            self.event('ext', st, 'autograd.core.' + name, tuple([bv] + a), n, fr, 'autograd.core.' + name)
            return NONE
        if name in MUTATORS and not (name in self.iface()):
            self.event('mutcall', st, name, tuple([bv] + a), n, fr)
            base = n.func.value if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) else None
            if name == '__setitem__' and len(a) == 2:
                self.setitem(b, a[0], a[1], st, fr, n, base)
                return NONE
            if bv.op not in ('k', 'obj', 'super'):
                self.written(b, (lambda old: mkstore(old, mk('slice', NONE, NONE, NONE), a[0])) if name == 'fill' and len(a) == 1
                             else (lambda old: app('np.sort', (old,))) if name == 'sort' and not a and not k
                             else None, st, fr, base)
                if name in ('fill', 'sort', 'put', 'itemset', 'resize', 'partition', 'setfield', 'setflags', 'sum_duplicates', 'eliminate_zeros',
                            'sort_indices', 'prune', 'setdiag'):
                    return NONE
        if name == 'format' or name in STRM and (isk(bv) or bv.op == 'app' and bv.args[0] in ('fmt', 'builtins.str')):
            r = self.str_fold(name, bv, a, k)
            if r is not None:
                return r
            return app('fmt', [bv] + a + [v for _, v in sorted(k.items())], (('how', K(':'.join([name] + sorted(k)))),))
        if name in ('items', 'keys', 'values') and not a and not k and not self.patternish(bv):
            if name == 'keys' and not (bv.op in ('dict', 'dictmap', 'dictset', 'dictdel', 'dictmerge')
                                       or bv.op == 'sym' and 'dict' in bv.args[1]):
                pass
            return self.dict_view(name, bv)
        if name == 'get' and a and (bv.op in ('dict', 'dictmap', 'dictset') or not self.patternish(bv)):
            r = self.dict_get(bv, a, k)
            self.event('ext', st, 'dict.get', tuple([bv] + a), n, fr)
            return r
        itf = self.iface()
        if name in ('flatten', 'ravel') and len(a) == 1 and not k and isk(a[0]) and isinstance(a[0].args[0], str):
            a, k = [], {'order': a[0]}
        if name == 'flatten' and not a and not k or name == 'flatten' and set(k) == {'order'}:
            self.event('ext', st, 'np.flatten', (bv,), n, fr)
            return app('np.flatten', (bv,), tuple(k.items()))
        if name == 'transpose' and not a:
            return app('T', (bv,))
        if name == 'reshape':
            if len(a) == 1 and a[0].op != 'k' and not intlike(a[0]):
                s = a[0]
            elif len(a) == 1 and a[0].op == 'k':
                s = seq('tuple', [('e', a[0])])
            else:
                s = seq('tuple', [('s', x.args[0]) if x.op == 'star' else ('e', x) for x in a])
            self.event('ext', st, 'np.reshape', (bv, s), n, fr)
            return app('np.reshape', (bv, s), tuple(k.items()))
        if not a and not k and (bv, name) in self.fixed_mcalls:
            return self.fixed_mcalls[bv, name]
        if name in itf:
            return self.iface_call(bv, name, a, k, st, fr, n)
        if name in ARRM:
            self.event('ext', st, ARRM[name], tuple([bv] + a), n, fr, '.' + name)
            return app(ARRM[name], [bv] + a, tuple(k.items()))
        if bv.op == 'app' and bv.args[0] == 'builtins.object':
            return NONE
        if name in ('__init__', '__init_subclass__') and bv.op == 'super':
            return NONE
        kk = tuple((None, x) for x in a) + tuple(sorted(k.items()))
        self.event('mcall', st, name, (bv, kk), n, fr)
        if name == 'shape' and not kk and 'empty' in itf and self.patternish(bv):
            # an array-valued pattern reports the shape of its values
            return app('np.shape', (mk('mcall', bv, 'empty', (('valid', K(False)),)),))
        return mk('mcall', bv, name, kk)

    def str_fold(self, name, bv, a, k):
        if not isk(bv):
            return None
        v = kval(bv)
        try:
            if name == 'join' and len(a) == 1:
                e = simple_elems(a[0])
                if e is not None and all(isk(x) and isinstance(kval(x), str) for x in e):
                    return K(v.join(kval(x) for x in e))
            elif name in ('split', 'rsplit', 'partition', 'rpartition') and all(isk(x) for x in a) and all(isk(x) for x in k.values()):
                r = getattr(v, name)(*[kval(x) for x in a], **{y: kval(x) for y, x in k.items()})
                return seq('list' if 'split' in name else 'tuple', [('e', K(x)) for x in r])
            elif name in ('format', 'lower', 'upper', 'strip', 'startswith', 'endswith', 'replace', 'lstrip', 'rstrip',
                          'removeprefix', 'removesuffix', 'title', 'capitalize', 'count', 'find', 'rfind', 'isdigit'):
                if all(isk(x) for x in a) and all(isk(x) for x in k.values()):
                    return K(getattr(v, name)(*[kval(x) for x in a], **{y: kval(x) for y, x in k.items()}))
        except Exception:
            return None
        return None

    def patternish(self, b):
        return b.op == 'sym' and 'pattern' in b.args[1] or b.op in ('val',) and \
            b.args[0].op == 'sym' and 'patterns' in b.args[0].args[1]

    def iface_call(self, bv, name, a, k, st, fr, n):
        F = self.iface()[name]
        ar = F.node.args
        names = [x.arg for x in ar.args][1:]
        nd = len(F.defaults)
        alln = [x.arg for x in ar.args]
        bound, ok = {}, True
        for i, x in enumerate(a):
            if i < len(names) and x.op != 'star':
                bound[names[i]] = x
            else:
                bound['#%d' % i] = x
        for x, y in k.items():
            bound[x] = y
        for i, nm in enumerate(alln):
            if i == 0 or nm in bound or i < len(alln) - nd:
                continue
            d = F.defaults[i - (len(alln) - nd)]
            bound[nm] = d
        kk = tuple(sorted(bound.items()))
        self.event('mcall', st, name, (bv, kk), n, fr)
        return mk('mcall', bv, name, kk)

    def dict_view(self, name, bv):
        if bv.op == 'dict' and all(k == 'e' for k, _ in bv.args[0]):
            if name == 'keys':
                return seq('list', [('e', e[0]) for _, e in bv.args[0]])
            if name == 'values':
                return seq('list', [('e', e[1]) for _, e in bv.args[0]])
            return seq('list', [('e', seq('tuple', [('e', e[0]), ('e', e[1])])) for _, e in bv.args[0]])
        if bv.op == 'dictmap':
            d, io, k, v, f = bv.args
            g = f.args[0] if f.op == 'B' else 1
            body = {'keys': k, 'values': v, 'items': seq('tuple', [('e', k), ('e', v)])}[name]
            return mk('map', d, io, body, g)
        return app('dict.' + name, (bv,))

    def dict_get(self, bv, a, k):
        d = a[1] if len(a) > 1 else k.get('default', NONE)
        c = self.contains_app(a[0], bv)
        g = truth(c)
        return gam([(g, sub(bv, a[0])), (bnot(g), d)])

    def cell_method(self, b, name, args, kw, st, fr, n):
        c = st.store.get(('c', b))
        if c is None:
            return None
        kind = b.args[0]
        S = st.store
        if kind == 'list':
            if name == 'append' and len(args) == 1:
                S[('c', b)] = seq('list', [('s', c), ('e', args[0])])
                self.event('mutcall', st, name, (b,) + tuple(args), n, fr)
                return NONE
            if name == 'extend' and len(args) == 1:
                S[('c', b)] = seq('list', [('s', c), ('s', self.rd(args[0], st))])
                self.event('mutcall', st, name, (b,) + tuple(args), n, fr)
                return NONE
            if name == 'insert' and len(args) == 2 and args[0] is K(0):
                S[('c', b)] = seq('list', [('e', args[1]), ('s', c)])
                return NONE
            if name == 'pop' and len(args) <= 1:
                e = simple_elems(c)
                i = kval(args[0]) if args and isk(args[0]) else -1 if not args else None
                if e and i is not None and -len(e) <= i < len(e):
                    e = list(e)
                    v = e.pop(i)
                    S[('c', b)] = seq('list', [('e', x) for x in e])
                    return v
                cv = self.rd(c, st)
                if i == 0:
                    S[('c', b)] = sub(cv, mk('slice', K(1), NONE, NONE))
                    return sub(cv, K(0))
                S[('c', b)] = mk('opaque', 'pop', cv)
                return sub(cv, args[0] if args else K(-1))
            if name == 'copy':
                return self.new_cell('list', c, st)
            if name == 'reverse':
                S[('c', b)] = app('reversed', (self.rd(c, st),))
                return NONE
            if name == 'clear':
                S[('c', b)] = seq('list', [])
                return NONE
            if name == 'sort' and not args:
                S[('c', b)] = app('sorted', (self.rd(c, st),), tuple(sorted((x, self.rd(y, st)) for x, y in kw.items())))
                return NONE
            if name in ('sort', 'remove'):
                S[('c', b)] = mk('opaque', name, self.rd(c, st))
                return NONE
            return None
        if kind == 'dict':
            cv = self.rd(c, st)
            if name in ('items', 'keys', 'values'):
                if c.op == 'dict' and all(k == 'e' for k, _ in c.args[0]):
                    return self.dict_view(name, c)
                return self.dict_view(name, cv)
            if name == 'get':
                a = [self.rd(x, st) for x in args]
                r = self.cell_get(c, a[0])
                if r is not None:
                    return r
                return self.dict_get(cv, a, kw)
            if name == 'pop' and args:
                k = self.rd(args[0], st)
                present = self.contains_app(k, cv)
                v = self.cell_get(c, k)
                if v is None:
                    v = sub(cv, k)
                self.event('delitem', st, 'pop', (b, k), n, fr)
                if present is FALSE and len(args) > 1:
                    return args[1]
                S[('c', b)] = self.cell_del(c, k)
                if len(args) > 1 and present is not TRUE:
                    g = truth(present)
                    return gam([(g, v), (bnot(g), args[1])])
                return v
            if name == 'copy':
                return self.new_cell('dict', c, st)
            if name == 'update':
                a = [self.rd(x, st) for x in args]
                new = c
                for x in a:
                    if x.op == 'dict' and all(k == 'e' for k, _ in x.args[0]):
                        for _, e in x.args[0]:
                            new = self.cell_set(new, e[0], e[1])
                    elif new.op == 'dict' and not new.args[0]:
                        new = x
                    else:
                        new = mk('dictmerge', new, x)
                for k, v in kw.items():
                    new = self.cell_set(new, K(k), v)
                S[('c', b)] = new
                self.event('setitem', st, 'update', (b,) + tuple(a), n, fr)
                return NONE
            if name == 'setdefault':
                k = self.rd(args[0], st)
                d = args[1] if len(args) > 1 else NONE
                g = truth(self.contains_app(k, cv))
                old = self.cell_get(c, k)
                old = sub(cv, k) if old is None else old
                S[('c', b)] = gam([(g, c), (bnot(g), self.cell_set(c, k, d))])
                return gam([(g, old), (bnot(g), d)])
            if name == 'clear':
                S[('c', b)] = mk('dict', ())
                return NONE
            if name == 'move_to_end' and len(args) == 1 and not kw and c.op in ('dictset', 'dictdel', 'sym', 'dict', 'gam'):
                k = self.rd(args[0], st)
                old = self.cell_get(c, k)
                old = sub(cv, k) if old is None else old
                self.event('setitem', st, name, (b, k, old), n, fr)
                S[('c', b)] = self.cell_set(self.cell_del(c, k), k, old)
                return NONE
            if name in ('popitem', 'move_to_end'):
                self.event('delitem', st, name, (b,) + tuple(args), n, fr)
                S[('c', b)] = mk('opaque', name, cv)
                return mk('opaque', name + '.r', cv)
        return None

    # ------------------------------------------------------------ external operations
    def call_ext(self, path, args, kw, st, fr, n):
        name = canon_ext(path)
        short = path[9:] if path.startswith('builtins.') else None
        h = getattr(self, 'x_' + name.replace('.', '_').replace(':', '_'), None)
        a = [self.rd(x, st) for x in args]
        k = {x: self.rd(y, st) for x, y in kw.items()}
        if args and st.guard != 0:
            self.ext_writes(path, name, args, a, k, st, fr, n)
        self.event('ext', st, name, tuple(a) + tuple(
            v for _, v in sorted(k.items())), n, fr, path)
        if k and st.guard != 0:
            self.events[-1].kw = k
        if h is not None:
            r = h(a, k, args, kw, st, fr, n)
            if r is not None:
                return r
        if path in ('autograd.tracer.getval', 'autograd.extend.getval', 'autograd.core.getval') and len(a) == 1:
            return args[0]                     # the same number, without its derivative
        if path in ('builtins.isinstance', 'builtins.issubclass') and len(a) == 2:
            return self.x_isinst(path[9:], a[0], a[1])
        if name == 'np.concatenate' and len(a) == 1 and k.get('axis', K(0)) is K(0):
            k.pop('axis', None)
        if name in ('np.hstack', 'np.concatenate') and a and a[0].op == 'app' and a[0].args[0] in (
                'np.array', 'np.asarray', 'builtins.list', 'builtins.tuple') and len(a[0].args[1]) == 1 and not a[0].args[2]:
            a[0] = a[0].args[1][0]
        if name in ('add', 'sub', 'mul', 'div', 'pow', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'matmul', 'neg') \
                and not k:
            return app(name, a)
        if name == 'np.prod' and len(a) == 1:
            k = {x: y for x, y in k.items() if x != 'dtype'}
        return app(name, a, tuple(k.items()))

    def ext_writes(self, path, name, args, a, k, st, fr, n):
        """External functions that write into an argument."""
        last = path.split('.')[-1]
        nodes = n.args if isinstance(n, ast.Call) and len(n.args) == len(args) and not any(
            isinstance(x, ast.Starred) for x in n.args) else [None] * len(args)
        whole = mk('slice', NONE, NONE, NONE)
        if path.startswith(('numpy.', 'autograd.numpy.', 'scipy.')) or name.startswith('np.'):
            if last == 'at' and len(args) >= 2:
                new = None
                if path.endswith('.add.at') and len(a) == 3 and a[1].op not in ('k', 'tuple', 'slice', 'list', 'gam'):
                    new = self.add_at(a[1], a[2])
                self.written(args[0], new, st, fr, nodes[0])
            elif last == 'copyto' and len(a) == 2 and not k:
                self.written(args[0], lambda old: mkstore(old, whole, a[1]), st, fr, nodes[0])
            elif last in ('copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis', 'shuffle', 'nan_to_num') and (
                    last != 'nan_to_num' or 'copy' in k):
                self.written(args[0], None, st, fr, nodes[0])
            elif last == 'nditer' and k:
                self.written(args[0], None, st, fr, nodes[0])
            nin = 1 if last in UFUNC1 else 2 if last in UFUNC2 else None
            if nin is not None and len(args) > nin:
                self.written(args[nin], None, st, fr, nodes[nin])
        elif path.startswith(('operator.', '_operator.')) and last in (
                'setitem', 'delitem', 'iadd', 'isub', 'imul', 'itruediv', 'ior', 'iand', 'iconcat', 'ipow'):
            if last == 'setitem' and len(args) == 3:
                self.setitem(args[0], a[1], a[2], st, fr, n, nodes[0])
            else:
                self.written(args[0], None, st, fr, nodes[0])
        elif path == 'random.shuffle':
            self.written(args[0], None, st, fr, nodes[0])
        if 'out' in k and k['out'] is not NONE:
            node = next((x.value for x in n.keywords if x.arg == 'out'), None) if isinstance(n, ast.Call) else None
            self.written(k['out'], None, st, fr, node)

    def add_at(self, idx, val):
        d = dom(idx)
        io = mk('iota', d, 1000 + len(self.loops))
        v = val if isk(val) else sub(val, io)

        def new(old):
            d2, j, (i2, v2, f2) = bind('storeadd', d, io, sub(idx, io), v, 1)
            return mk('storeadd', old, d2, j, i2, v2, mk('B', f2))
        return new

    # -- builtins with structure
    def x_len(self, a, k, args, kw, st, fr, n):
        if a and a[0].op == 'obj':
            m = self.class_attr(a[0], '__len__')
            if m is not None:
                return self.call(mk('bm', m[1], a[0]), [], {}, st, fr, n)

    def x_builtins_type(self, a, k, args, kw, st, fr, n):
        x = a[0]
        if x.op == 'obj':
            return self.cls_of(x)
        if x.op in ('list', 'map', 'fmap') and args[0].op == 'cell':
            return mk('ext', 'builtins.list')
        if x.op == 'tuple':
            return mk('ext', 'builtins.tuple')
        if isk(x):
            return mk('ext', 'builtins.' + type(kval(x)).__name__)
        if x.op in ('dict', 'dictmap'):
            return mk('ext', 'builtins.dict')
        if x.op == 'ret':
            return mk('ext', '<single value>')
        return mk('app', 'type', (x,), ())

    def x_isinst(self, kind, x, c):
        cs = simple_elems(c) or [c]
        if x.op == 'gam':
            return gam([(g, self.x_isinst(kind, l, c)) for g, l in x.args[0]])
        g = 0
        for y in cs:
            r = None
            if x.op == 'obj' and kind == 'isinstance':
                if y.op == 'cls':
                    r = y in self.mro(self.cls_of(x))
                elif y.op == 'ext':
                    r = y.args[0] in ('builtins.object',)
            elif x.op == 'cls' and kind == 'issubclass':
                r = y in self.mro(x) if y.op == 'cls' else None
            elif isk(x) and y.op == 'ext' and y.args[0].startswith('builtins.'):
                tn = y.args[0][9:]
                r = tn in [t.__name__ for t in type(kval(x)).__mro__]
            elif x.op in ('list', 'map', 'fmap', 'tuple', 'dict') and y.op == 'ext' and \
                    y.args[0].startswith('builtins.'):
                tn = y.args[0][9:]
                if tn in ('list', 'tuple', 'dict', 'str', 'int', 'float', 'bool', 'set'):
                    r = tn == ('list' if x.op in ('map', 'fmap') else x.op)
            elif x.op in ('list', 'map', 'fmap', 'tuple', 'dict', 'func') and y.op == 'cls':
                r = False
            elif x.op == 'ret' and y.op == 'ext' and y.args[0] in ('builtins.tuple', 'builtins.list', 'builtins.dict'):
                r = False
            elif x.op == 'sym' and 'tuple' in x.args[1] and y is mk('ext', 'builtins.tuple'):
                r = True
            if r is None:
                g = bor(g, atom(mk('app', kind, (x, y), ())))
            else:
                g = bor(g, 1 if r else 0)
        return mkB(g)

    def x_builtins_str(self, a, k, args, kw, st, fr, n):
        if len(a) == 1 and not k and a[0].op == 'obj':
            for nm in ('__str__', '__repr__'):
                if self.class_attr(a[0], nm) is not None:
                    return self.call(self.getattr(a[0], nm, st, fr, n), [], {}, st, fr, n)

    def x_builtins_isinstance(self, a, k, args, kw, st, fr, n):
        return self.x_isinst('isinstance', a[0], a[1])

    def x_builtins_bool(self, a, k, args, kw, st, fr, n):
        return mkB(truth(a[0])) if a else FALSE

    def x_builtins_any(self, a, k, args, kw, st, fr, n):
        return mkB(truth(app('builtins.any', a)))

    def x_builtins_all(self, a, k, args, kw, st, fr, n):
        return mkB(truth(app('builtins.all', a)))

    def x_builtins_list(self, a, k, args, kw, st, fr, n):
        if not a:
            return self.new_cell('list', seq('list', []), st)
        v = app('builtins.list', a)
        if a[0].op == 'app' and a[0].args[0] in ('zip', 'reversed', 'enumerate', 'builtins.zip', 'builtins.reversed'):
            e = self.known_iter(args[0], a[0])
            if e is not None:
                return self.new_cell('list', seq('list', [('e', x) for x in e]), st)
        if args[0].op == 'cell' and args[0].args[0] == 'list':
            return self.new_cell('list', st.store[('c', args[0])], st)
        return self.new_cell('list', v if v.op == 'list' else seq('list', [('s', v)]), st)

    def x_builtins_dict(self, a, k, args, kw, st, fr, n):
        return self.mkdict(a, k, args, kw, st)

    def x_collections_OrderedDict(self, a, k, args, kw, st, fr, n):
        return self.mkdict(a, k, args, kw, st)

    def mkdict(self, a, k, args, kw, st):
        if not a:
            c = mk('dict', tuple(('e', (K(x), kw[x])) for x in k))
            return self.new_cell('dict', c, st)
        x = a[0]
        if args[0].op == 'cell' and args[0].args[0] == 'dict':
            c = st.store[('c', args[0])]
            for kk, v in kw.items():
                c = self.cell_set(c, K(kk), v)
            return self.new_cell('dict', c, st)
        if x.op == 'list' and len(x.args[0]) == 1 and x.args[0][0][0] == 's':
            x = x.args[0][0][1]
        if x.op == 'map':
            e = simple_elems(x.args[2])
            if e and len(e) == 2:
                return self.new_cell('dict', mkdictmap(x.args[0], x.args[1], e[0], e[1], x.args[3]), st)
        e = simple_elems(x)
        if e is not None and all(simple_elems(y) and len(simple_elems(y)) == 2 for y in e):
            return self.new_cell('dict', mk('dict', tuple(('e', tuple(simple_elems(y))) for y in e)), st)
        if x.op == 'app' and x.args[0] == 'dict.items':
            return self.new_cell('dict', x.args[1][0], st)
        if x.op == 'app' and x.args[0] == 'zip' and len(x.args[1]) == 2:
            d = iter_domain(x)
            io = mk('iota', d, len(self.loops))
            return self.new_cell('dict', mkdictmap(d, io, elem_at(x.args[1][0], io), elem_at(x.args[1][1], io)), st)
        return self.new_cell('dict', x, st)

    def x_builtins_getattr(self, a, k, args, kw, st, fr, n):
        if len(args) >= 2 and isk(a[1]) and isinstance(kval(a[1]), str):
            g = self.present(args[0], kval(a[1]), st) if len(args) == 3 else None
            if g == 0:
                return args[2]
            v = self.getattr(args[0], kval(a[1]), st, fr, n)
            return v if g in (None, 1) else gam([(g, under(v, g)), (bnot(g), args[2])])

    def x_builtins_hasattr(self, a, k, args, kw, st, fr, n):
        if len(args) == 2 and isk(a[1]) and isinstance(kval(a[1]), str):
            g = self.present(args[0], kval(a[1]), st)
            return None if g is None else mkB(g)

    def x_builtins_property(self, a, k, args, kw, st, fr, n):
        names = ('fget', 'fset')
        fs = list(args[:2]) + [kw.get(x, NONE) for x in names[len(args):]]
        return mk('wrapped', 'property', *fs)

    def x_builtins_staticmethod(self, a, k, args, kw, st, fr, n):
        return mk('wrapped', 'staticmethod', args[0]) if len(args) == 1 else None

    def x_builtins_classmethod(self, a, k, args, kw, st, fr, n):
        return mk('wrapped', 'classmethod', args[0]) if len(args) == 1 else None

    def x_builtins_setattr(self, a, k, args, kw, st, fr, n):
        if len(args) == 3 and isk(a[1]) and isinstance(kval(a[1]), str):
            self.setattr(args[0], kval(a[1]), args[2], st, fr, n)
            return NONE
        self.event('setattr', st, '?', tuple(a), n, fr)
        return NONE

    def x_builtins_map(self, a, k, args, kw, st, fr, n):
        if len(args) < 2:
            return None
        acc = self.new_cell('list', seq('list', []), st)
        it = args[1] if len(args) == 2 else app('zip', a[1:])

        def body(s, ctl):
            v = self._mapval
            vs = [v] if len(args) == 2 else simple_elems(v) or [sub(v, K(i)) for i in range(len(args) - 1)]
            r = self.call(args[0], vs, {}, s, fr, n)
            if s.guard:
                s.store[('c', acc)] = seq('list', [('s', s.store[('c', acc)]), ('e', r)])

        def setv(s, v):
            self._mapval = v
        self.run_for(it, setv, body, st, fr, n)
        return acc

    def minmax(self, a, k, low):
        """max(a, b) of two plain numbers as a choice."""
        if k or len(a) != 2 or not all(x.op == 'sym' and 'finite' in x.args[1] or isk(x) and isinstance(kval(x), (int, float)) for x in a) \
                or all(isk(x) for x in a):
            return None
        c = truth_lt(a[1], a[0]) if low else truth_lt(a[0], a[1])
        return gam([(c, a[1]), (bnot(c), a[0])])

    def x_builtins_max(self, a, k, args, kw, st, fr, n):
        return self.minmax(a, k, False)

    def x_builtins_min(self, a, k, args, kw, st, fr, n):
        return self.minmax(a, k, True)

    def x_builtins_iter(self, a, k, args, kw, st, fr, n):
        return args[0]

    def x_builtins_sum(self, a, k, args, kw, st, fr, n):
        s = a[0]
        start = a[1] if len(a) > 1 else k.get('start', K(0))
        r = self.seq_sum(s)
        if r is None:
            return None
        if start is K(0):
            return r
        return app('add', (start, r))

    def seq_sum(self, s):
        if s.op == 'app' and s.args[0] in ('np.array', 'np.asarray', 'builtins.list', 'builtins.tuple') and s.args[1]:
            s = s.args[1][0]
        if s.op in ('list', 'tuple') and len(s.args[0]) == 1 and s.args[0][0][0] == 's':
            s = s.args[0][0][1]
        e = simple_elems(s)
        if e is not None:
            r = K(0)
            for x in e:
                r = app('add', (r, x)) if r is not K(0) else x
            return r
        if s.op == 'map':
            d, io, body, f = s.args
            if f != 1:
                body = gam([(f, body), (bnot(f), K(0))])
            return mksum(d, io, body)
        return None

    def x_np_sum(self, a, k, args, kw, st, fr, n):
        if len(a) == 1 and (not k or set(k) <= {'dtype'}):
            return self.seq_sum(a[0])

    def x_json_dumps(self, a, k, args, kw, st, fr, n):
        return app('json.dumps', (a[0],))

    def x_json_loads(self, a, k, args, kw, st, fr, n):
        x = a[0]
        while x.op == 'app' and x.args[0] == 'builtins.str' and len(x.args[1]) == 1:
            x = x.args[1][0]
        if x.op == 'app' and x.args[0] == 'json.dumps':
            j = jsonify(x.args[1][0])
            if j.op == 'dict':
                return self.new_cell('dict', j, st)
            return j
        return None

    def x_itertools_product(self, a, k, args, kw, st, fr, n):
        if len(a) == 1 and a[0].op == 'star':
            m = a[0].args[0]
            if m.op == 'app' and m.args[0] in ('builtins.tuple', 'builtins.list'):
                m = m.args[1][0]
            if m.op in ('list', 'tuple') and len(m.args[0]) == 1 and m.args[0][0][0] == 's':
                m = m.args[0][0][1]
            if m.op == 'map' and m.args[3] == 1:
                d, io, body, _ = m.args
                if body.op == 'app' and body.args[0] in ('range', 'np.arange') and len(body.args[1]) == 1:
                    x = body.args[1][0]
                    if x.op == 'sub' and x.args[1] is io and dom(x.args[0]) is d:
                        return app('ndindex', (x.args[0],))
                    e = elem_at(d.args[0], io) if d.op == 'dom' else None
                    if e is x:
                        return app('ndindex', (d.args[0],))
        return None

    def x_np_ndindex(self, a, k, args, kw, st, fr, n):
        if len(a) == 1:
            return app('ndindex', (a[0].args[0] if a[0].op == 'star' else a[0],))

    def x_range(self, a, k, args, kw, st, fr, n):
        if len(a) >= 2 and a[0] is K(0):
            a = a[1:]
        if len(a) == 2 and a[1] is K(1):
            a = a[:1]
        return app('range', a)

    def x_np_arange(self, a, k, args, kw, st, fr, n):
        if len(a) >= 2 and a[0] is K(0):
            a = a[1:]
        return app('np.arange', a, tuple(k.items()))

    def x_builtins_slice(self, a, k, args, kw, st, fr, n):
        if len(a) == 1:
            return self.mkslice(NONE, a[0], NONE)
        return self.mkslice(a[0], a[1], a[2] if len(a) > 2 else NONE)

    def x_functools_partial(self, a, k, args, kw, st, fr, n):
        return mk('app', 'functools.partial', tuple(args), tuple(sorted(kw.items())))

    def x_functools_reduce(self, a, k, args, kw, st, fr, n):
        if len(a) >= 2 and a[0].op == 'ext' and a[0].args[0] == 'operator.mul':
            return app('np.prod', (a[1],))
        e = self.known_iter(args[1], a[1]) if len(args) in (2, 3) else None
        if e is not None and (len(args) == 3 or e):
            e = list(e)
            acc = args[2] if len(args) == 3 else e.pop(0)
            for x in e:
                acc = self.call(args[0], [acc, x], {}, st, fr, n)
                if not st.guard:
                    return UNDEF
            return acc
        if len(args) == 3 and fr is not None and not fr.is_module:
            # a loop that carries the value so far in a variable of its own
            key = ('l', fr.fid, '%reduce' + str(getattr(n, 'lineno', 0)) + '.' + str(getattr(n, 'col_offset', 0)))
            st.store[key] = args[2]

            def setv(s, v):
                self._redval = v

            def body(s, ctl):
                r = self.call(args[0], [s.store[key], self._redval], {}, s, fr, n)
                if s.guard:
                    s.store[key] = r
            self.run_for(args[1], setv, body, st, fr, n)
            return st.store.pop(key, UNDEF) if st.guard else UNDEF

    def x_builtins_next(self, a, k, args, kw, st, fr, n):
        # advancing a named iterator is not a value
        if isinstance(n, ast.Call) and n.args and isinstance(n.args[0], (ast.Name, ast.Attribute, ast.Subscript)):
            return mk('opaque', K('next'))

    def x_builtins_divmod(self, a, k, args, kw, st, fr, n):
        if len(a) == 2:
            return seq('tuple', [('e', app('floordiv', a)), ('e', app('mod', a))])

    def x_builtins_super(self, a, k, args, kw, st, fr, n):
        if len(a) == 2:
            return mk('super', a[0], args[1])

    def x_copy(self, a, k, args, kw, st, fr, n):
        x = args[0]
        if x.op == 'cell' and ('c', x) in st.store:
            return self.new_cell(x.args[0], st.store[('c', x)], st)
        return app('copy', (a[0],))

    def x_getitem(self, a, k, args, kw, st, fr, n):
        return self.subscript(args[0], args[1], st, fr, n)

    def x_np_shape(self, a, k, args, kw, st, fr, n):
        return app('np.shape', a)

    def x_np_atleast_1d(self, a, k, args, kw, st, fr, n):
        if len(a) == 1:
            return app('np.atleast_1d', a)

    def x_np_broadcast_to(self, a, k, args, kw, st, fr, n):
        sh = a[1] if len(a) > 1 else k.get('shape')
        e = simple_elems(sh) if sh is not None else None
        if e is None and sh is not None and isk(sh):
            e = [sh]
        if e is None or not all(isk(x) and type(kval(x)) is int for x in e):
            return None
        x = alit(a[0]) or (simple_elems(a[0]) if is_seq(a[0]) else None)
        if x is None and scalarlike(a[0]):
            return mkalit([a[0]] * kval(e[0])) if len(e) == 1 else None
        if x is None:
            return None
        if all(scalarlike(y) for y in x):
            if len(e) == 1 and len(x) in (1, kval(e[0])):
                return mkalit(x * kval(e[0]) if len(x) == 1 else x)
            if e and kval(e[-1]) != len(x) and len(x) != 1:
                self.do_raise('ValueError', K('broadcast'), st, fr, n)
                return UNDEF
            return None
        if all(is_seq(y) for y in x) and len(e) == 1:
            self.do_raise('ValueError', K('broadcast'), st, fr, n)
            return UNDEF
        return None

    def x_sorted(self, a, k, args, kw, st, fr, n):
        e = self.known_iter(args[0], a[0])
        if e is None:
            return None
        key = kw.get('key')
        if key is not None and key is not NONE:
            ks = [self.rd(self.call(key, [x], {}, st, fr, n), st) for x in e]
            if not st.guard:
                return UNDEF
        else:
            ks = e
        vs = []
        for x in ks:
            y = simple_elems(x) if x.op == 'tuple' else [x]
            if y is None or not all(isk(z) and isinstance(kval(z), (int, float)) for z in y[:1]):
                return None
            vs.append(tuple(kval(z) for z in y[:1]))
        if key is None and any(x.op == 'tuple' for x in e) and len(set(vs)) < len(vs):
            return None
        r = k.get('reverse')
        if r is not None and not isk(r):
            return None
        idx = sorted(range(len(e)), key=lambda i: vs[i], reverse=bool(r is not None and kval(r)))
        return self.new_cell('list', seq('list', [('e', e[i]) for i in idx]), st)

    def x_np_reshape(self, a, k, args, kw, st, fr, n):
        s = a[1] if len(a) > 1 else k.pop('newshape', k.pop('shape', None))
        if s is None:
            return None
        if isk(s) or intlike(s):
            s = seq('tuple', [('e', s)])
        return app('np.reshape', (a[0], s), tuple(k.items()))


def jsonify(t):
    """Value after a JSON dump/load cycle."""
    o = t.op
    if o == 'gam':
        return gam([(g, jsonify(l)) for g, l in t.args[0]])
    if o in ('k', 'B'):
        return t
    if o in ('tuple', 'list'):
        return seq('list', [('e', jsonify(v)) if k == 'e' else ('s', jsonify(v)) for k, v in t.args[0]])
    if o == 'dict':
        return mk('dict', tuple(
            (k, (e[0] if isk(e[0]) and isinstance(kval(e[0]), str) else mk('app', 'jsonkey', (e[0],), ()),
                 jsonify(e[1]))) if k == 'e' else (k, jsonify(e)) for k, e in t.args[0]))
    if o == 'map':
        return mk('map', t.args[0], t.args[1], jsonify(t.args[2]), t.args[3])
    if o == 'dictmap':
        return mk('dictmap', t.args[0], t.args[1], t.args[2], jsonify(t.args[3]), t.args[4])
    if o == 'mcall' and t.args[1] in ('to_json', 'json_typename'):
        return t
    if o in ('key',):
        return t
    if intlike(t):
        return t
    if o == 'app' and t.args[0] in ('builtins.int', 'builtins.float', 'builtins.str', 'builtins.bool', 'fmt',
                                    'json.dumps', 'add', 'sub', 'mul', 'div', 'np.shape'):
        if t.args[0] in ('add',) and is_tuplelike(t):
            return app('builtins.list', (t,))
        return t
    if is_tuplelike(t):
        return app('builtins.list', (t,))
    if o == 'app' and t.args[0] in ('builtins.list', 'builtins.tuple') and len(t.args[1]) == 1 and is_tuplelike(t.args[1][0]):
        return app('builtins.list', t.args[1])
    if o == 'sym' and ('scalar' in t.args[1] or 'finite' in t.args[1] or 'bool' in t.args[1] or 'any' in t.args[1] or 'str' in t.args[1]):
        return t
    return mk('app', 'jsonify', (t,), ())


def is_tuplelike(t):
    if t.op == 'tuple':
        return True
    if t.op == 'app' and t.args[0] in ('builtins.tuple', 'np.shape'):
        return True
    return t.op == 'sym' and 'tuple' in t.args[1]
