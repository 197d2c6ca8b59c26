"""The abstract interpreter: a forward dataflow analysis computing, for every
variable, attribute and result, a gated value term (value numbering), together
with the log of effects (calls, stores, raises) and the guard they occur under.
Package calls are analysed at their call sites (context sensitive); loops are
summarised by recurrence recognition.  Nothing of the package is executed."""
import ast
import builtins
from .project import Unavailable
from .core import *
from .exprs import ExprMixin
from .calls import CallMixin
from .loops import LoopMixin

EXC_PARENTS = {
    'KeyError': {'LookupError', 'Exception', 'BaseException'},
    'IndexError': {'LookupError', 'Exception', 'BaseException'},
    'ValueError': {'Exception', 'BaseException'}, 'TypeError': {'Exception', 'BaseException'},
    'AttributeError': {'Exception', 'BaseException'}, 'RuntimeError': {'Exception', 'BaseException'},
    'NotImplementedError': {'RuntimeError', 'Exception', 'BaseException'},
    'AssertionError': {'Exception', 'BaseException'}, 'ImportError': {'Exception', 'BaseException'},
}


class Interp(ExprMixin, CallMixin, LoopMixin):
    MAXDEPTH = 30

    def __init__(self, project):
        self.project = project
        self.pkg = project.package
        self.funcs, self.classes, self.frames = {}, {}, {}
        self.functerm = {}
        self.counter = 0
        self.events, self.raises = [], []
        self.loops, self.stack = [], []
        self.modules_done, self.globals = {}, {}
        self.node_func = {}
        self.try_depth = 0
        self.recursive = 0
        self.inline_prims = False
        self.member_roundtrip = True
        self.returns_of = {}
        self.fixed_mcalls = {}
        self.steps = 0
        self.opaque_notes = []
        self.visited = set()
        self.defs_state = State()
        st = State()
        for m in list(project.modules):
            self.load_module(m, st)
        self.base_store = st.store
        self.module_events, self.module_raises = self.events, self.raises
        self.events, self.raises = [], []

    # ------------------------------------------------------------ modules
    def load_module(self, name, st):
        if name in self.modules_done:
            return
        m = self.project.modules.get(name)
        if m is None:
            return
        self.modules_done[name] = True
        fr = Frame(self.fresh(), None, ())
        fr.module = name
        fr.is_module = True
        fr.cls = None
        self.stack.append(name)
        g0 = st.guard
        self.exec_block(m.tree.body, st, fr)
        st.guard = g0
        self.stack.pop()

    def fresh(self):
        self.counter += 1
        return self.counter

    def path_of(self, fr):
        m = self.project.modules.get(fr.module)
        return self.project.relpath(m.path) if m else '?'

    def event(self, kind, st, name, data, node, fr, raw=None):
        if st.guard == 0:
            return
        self.events.append(Event(kind, st.guard, name, data, tuple(self.loops), node,
                                 self.path_of(fr), tuple(self.stack), len(self.events), raw))

    # ------------------------------------------------------------ names
    def new_frame(self, func, module, cls, chain):
        fr = Frame(self.fresh(), func, chain)
        fr.module, fr.cls, fr.is_module = module, cls, False
        fr.locals = set()
        fr.classbody = False
        self.frames[fr.fid] = fr
        return fr

    def lookup(self, name, st, fr):
        f = fr
        name = mangle(name, fr.cls.name if fr.cls else None)
        if not fr.is_module:
            if fr.classbody:
                k = ('l', fr.fid, name)
                if k in st.store:
                    return st.store[k]
            elif name in fr.locals and name not in fr.globals_:
                if name not in fr.nonlocals:
                    return st.store.get(('l', fr.fid, name), UNDEF)
            for fid in reversed(fr.chain):
                g = self.frames.get(fid)
                if g is not None and name in g.locals and not g.classbody:
                    if ('l', fid, name) in st.store:
                        return st.store[('l', fid, name)]
        v = st.store.get(('g', fr.module, name))
        if v is not None:
            return v
        if hasattr(builtins, name):
            return mk('ext', 'builtins.' + name)
        m = self.project.modules.get(fr.module)
        if m is not None and not any(
                isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load) or isinstance(x, ast.arg) and x.arg == name
                or isinstance(x, ast.alias) and (x.asname or x.name).split('.')[0] in (name, '*')
                or isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name
                or isinstance(x, ast.ExceptHandler) and x.name == name or isinstance(x, ast.Global) and name in x.names
                for x in ast.walk(m.tree)) and not name.startswith('__'):
            self.do_raise('NameError', NONE, st, fr, ast.Pass(lineno=0, col_offset=0))
            return UNDEF
        return mk('opaque', 'name', name)

    def bind_name(self, name, v, st, fr):
        name = mangle(name, fr.cls.name if fr.cls else None)
        if fr.is_module or name in getattr(fr, 'globals_', ()):
            st.store[('g', fr.module, name)] = v
            if not fr.is_module:
                self.event('setglobal', st, name, (v,), None, fr)
            return
        if name in fr.nonlocals:
            for fid in reversed(fr.chain):
                g = self.frames.get(fid)
                if g is not None and name in g.locals:
                    st.store[('l', fid, name)] = v
                    self.event('setnonlocal', st, name, (v,), None, fr)
                    return
        st.store[('l', fr.fid, name)] = v
        st.store.pop(('fr', fr.fid, name), None)

    # ------------------------------------------------------------ deref
    def rd(self, v, st):
        """Replace container cells by their current contents."""
        if not has_cell(v):
            return v
        store = st.store
        busy = set()

        def fn(x):
            if x.op == 'cell':
                if x in busy:
                    return mk('cyclic', K(x.args[0]))
                busy.add(x)
                c = store.get(('c', x))
                r = mk('opaquecell', *x.args) if c is None else rewrite(c, fn, {})
                busy.discard(x)
                return r
            if not has_cell(x):
                return x
            return None
        return rewrite(v, fn, {})

    def new_cell(self, kind, contents, st):
        c = mk('cell', kind, self.fresh())
        st.store[('c', c)] = contents
        return c

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        for s in stmts:
            if st.guard == 0:
                return
            self.exec_stmt(s, st, fr)

    def assume(self, st, g):
        st.guard = band(st.guard, g)

    def become(self, st, other):
        st.store, st.guard = other.store, other.guard

    def exec_stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > 400000:
            raise Unavailable('analysis budget exceeded')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.event('unknown', st, type(s).__name__, (), s, fr)
            if not fr.is_module:
                raise Unavailable('statement %s is not modelled' % type(s).__name__)
            return
        m(s, st, fr)

    def s_Match(self, s, st, fr):
        """A match statement over simple patterns is a chain of conditions."""
        name = '<match %d:%d>' % (s.lineno, s.col_offset)
        if not fr.is_module:
            fr.locals.add(name)
        self.bind_name(name, self.ev(s.subject, st, fr), st, fr)
        if st.guard == 0:
            return
        subj = ast.Name(id=name, ctx=ast.Load())

        def cond(p, e):
            if isinstance(p, ast.MatchValue):
                return ast.Compare(left=e, ops=[ast.Eq()], comparators=[p.value]), []
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(left=e, ops=[ast.Is()], comparators=[ast.Constant(p.value)]), []
            if isinstance(p, ast.MatchOr):
                cs = [cond(q, e) for q in p.patterns]
                if any(b for _, b in cs):
                    raise Unavailable('match pattern is not modelled')
                return ast.BoolOp(op=ast.Or(), values=[c for c, _ in cs]), []
            if isinstance(p, ast.MatchAs):
                c, b = cond(p.pattern, e) if p.pattern is not None else (ast.Constant(True), [])
                return c, b + ([(p.name, e)] if p.name else [])
            if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
                return ast.Call(func=ast.Name(id='isinstance', ctx=ast.Load()), args=[e, p.cls], keywords=[]), []
            raise Unavailable('match pattern is not modelled')
        first, tail = None, None
        for case in s.cases:
            c, b = cond(case.pattern, subj)
            body = [ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=e) for n, e in b]
            if case.guard is not None:
                if b:
                    raise Unavailable('match pattern is not modelled')
                c = ast.BoolOp(op=ast.And(), values=[c, case.guard])
            node = ast.If(test=c, body=body + case.body, orelse=[])
            if tail is None:
                first = node
            else:
                tail.orelse = [node]
            tail = node
        for x in ast.walk(first):
            if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, 'lineno'):
                ast.copy_location(x, s)
        self.s_If(first, st, fr)

    def s_Pass(self, s, st, fr):
        pass

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st, fr)

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            if st.guard == 0:
                return
            self.assign(t, v, st, fr)
            if len(s.targets) == 1:
                self.token(t, s.value, v, st, fr)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            v = self.ev(s.value, st, fr)
            self.assign(s.target, v, st, fr)
            if st.guard:
                self.token(s.target, s.value, v, st, fr)

    def s_AugAssign(self, s, st, fr):
        import copy as _c
        t = s.target
        ld = _c.copy(t)
        ld.ctx = ast.Load()
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            idx = self.ev_index(t.slice, st, fr)
            cur = self.subscript(base, idx, st, fr, t)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            cur = self.getattr(base, self.mang(t.attr, fr), st, fr, t)
        else:
            cur = self.ev(ld, st, fr)
        r = self.ev(s.value, st, fr)
        if st.guard == 0:
            return
        op = self.OPNAME.get(type(s.op), type(s.op).__name__)
        if cur.op == 'cell' and cur.args[0] == 'list' and op == 'add':
            c = st.store.get(('c', cur))
            st.store[('c', cur)] = seq('list', [('s', c), ('s', self.rd(r, st))])
            self.event('mutcall', st, 'extend', (cur, r), s, fr)
            return
        curv = self.rd(cur, st)
        new = app(op, (curv, self.rd(r, st)))
        if not self.immutable(curv):
            self.event('aug', st, op, (curv, self.rd(r, st)), s, fr)
        if isinstance(t, ast.Subscript):
            self.setitem(base, idx, new, st, fr, t, t.value)
        elif isinstance(t, ast.Attribute):
            self.setattr(base, self.mang(t.attr, fr), new, st, fr, t)
        else:
            if not self.immutable(curv):
                tok = st.store.get(('fr', fr.fid, t.id))
                self.written(curv, lambda old: app(op, (old, self.rd(r, st))), st, fr, t)
                self.bind_name(t.id, new, st, fr)
                if tok is not None:
                    st.store[('fr', fr.fid, t.id)] = tok
                return
            self.bind_name(t.id, new, st, fr)

    def immutable(self, v):
        if v.op in ('k', 'tuple', 'iota', 'psum', 'sum', 'B', 'domlen', 'prev', 'func', 'undef'):
            return True
        if v.op == 'gam':
            return all(self.immutable(l) for _, l in v.args[0])
        if v.op == 'lv':
            return True
        if v.op == 'app':
            n = v.args[0]
            if n in ('len', 'np.size', 'np.prod', 'np.ndim', 'fmt', 'builtins.str', 'builtins.int',
                     'builtins.float', 'builtins.tuple', 'np.shape', 'np.sum'):
                return True
            if n in ARITH or n in ('np.exp', 'np.log', 'np.abs'):
                return True      # result of arithmetic is a fresh value
        if v.op == 'mcall':
            return True          # fresh result of an interface call (aliasing checked elsewhere)
        return intlike(v)

    def s_Return(self, s, st, fr):
        v = NONE if s.value is None else self.ev(s.value, st, fr)
        if st.guard == 0:
            return
        fr.returns.append((st.guard, v, st.store, s))
        st.guard = 0
        st.store = dict(st.store)

    def s_If(self, s, st, fr):
        c = self.ev(s.test, st, fr)
        if st.guard == 0:
            return
        g = truth(self.rd(c, st))
        a = st.copy(band(st.guard, g))
        b = st.copy(band(st.guard, bnot(g)))
        self.narrow(s.test, a, fr, True)
        self.narrow(s.test, b, fr, False)
        if a.guard:
            self.exec_block(s.body, a, fr)
        if b.guard:
            self.exec_block(s.orelse, b, fr)
        if a.guard == 0 and b.guard == 0:
            st.guard = 0
            return
        self.become(st, merge_states(a, b))

    def narrow(self, test, st, fr, pol):
        """Restrict gated variables to the leaves possible under the guard."""
        if st.guard == 0:
            return
        for k, v in list(st.store.items()):
            if v.op == 'gam' and k[0] in ('l', 'a'):
                n = under(v, st.guard)
                if n is not v:
                    st.store[k] = n

    def s_Raise(self, s, st, fr):
        exc, msg = 'Exception', NONE
        if s.exc is not None:
            v = self.ev(s.exc, st, fr)
            if st.guard == 0:
                return
            exc, msg = self.exc_name(v)
        else:
            exc = getattr(fr, 'handling', 'Exception')
        self.do_raise(exc, msg, st, fr, s)

    def exc_name(self, v):
        if v.op == 'ext':
            return v.args[0].split('.')[-1], NONE
        if v.op == 'app' and v.args[0].startswith('builtins.'):
            a = v.args[1]
            return v.args[0].split('.')[-1], (a[0] if a else NONE)
        if v.op == 'obj' or v.op == 'cls':
            return str(v.args[0]).split('.')[-1], NONE
        if v.op == 'excval':
            return v.args[0], NONE
        return 'Exception', v

    def do_raise(self, exc, msg, st, fr, node):
        if st.guard == 0:
            return
        self.raises.append(RaiseRec(st.guard, exc, node, self.path_of(fr), tuple(self.stack),
                                    dict(st.store), msg, tuple(self.loops)))
        st.guard = 0

    def s_Assert(self, s, st, fr):
        c = self.ev(s.test, st, fr)
        if st.guard == 0:
            return
        g = truth(self.rd(c, st))
        b = st.copy(band(st.guard, bnot(g)))
        self.do_raise('AssertionError', NONE, b, fr, s)
        st.guard = band(st.guard, g)
        self.narrow(s.test, st, fr, True)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fr)
                i = self.ev_index(t.slice, st, fr)
                if st.guard == 0:
                    return
                self.delitem(b, i, st, fr, t)
            elif isinstance(t, ast.Name):
                self.bind_name(t.id, UNDEF, st, fr)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st, fr)
                self.event('delattr', st, t.attr, (b,), t, fr)

    def s_Global(self, s, st, fr):
        fr.globals_ |= set(s.names)

    def s_Nonlocal(self, s, st, fr):
        fr.nonlocals |= set(s.names)

    def s_Import(self, s, st, fr):
        for a in s.names:
            self.need_module(a.name, st)
            if a.asname:
                self.bind_name(a.asname, self.modref(a.name), st, fr)
            else:
                self.bind_name(a.name.split('.')[0], self.modref(a.name.split('.')[0]), st, fr)

    def need_module(self, name, st):
        parts = name.split('.')
        for i in range(1, len(parts) + 1):
            n = '.'.join(parts[:i])
            if n in self.project.modules:
                self.load_module(n, st)

    def modref(self, name):
        if name.split('.')[0] == self.pkg:
            return mk('mod', name)
        return mk('ext', name)

    def s_ImportFrom(self, s, st, fr):
        base = s.module or ''
        if s.level:
            parts = fr.module.split('.')
            m = self.project.modules.get(fr.module)
            is_pkg = m is not None and m.path.endswith('__init__.py')
            up = s.level - (1 if is_pkg else 0)
            parts = parts[:len(parts) - up] if up else parts
            base = '.'.join(parts + ([s.module] if s.module else []))
        self.need_module(base, st)
        for a in s.names:
            if a.name == '*':
                for k, v in list(st.store.items()):
                    if k[0] == 'g' and k[1] == base and not k[2].startswith('_'):
                        self.bind_name(k[2], v, st, fr)
                continue
            if base.split('.')[0] == self.pkg:
                full = base + '.' + a.name
                if full in self.project.modules:
                    self.need_module(full, st)
                    v = mk('mod', full)
                else:
                    v = st.store.get(('g', base, a.name))
                    if v is None:
                        v = mk('ext', full)
            else:
                v = self.ext(base + '.' + a.name)
            self.bind_name(a.asname or a.name, v, st, fr)

    def ext(self, path):
        p = path[9:] if path.startswith('autograd.numpy.') else path
        if p in CONST_EXT:
            v = CONST_EXT[p]
            return K(v)
        return mk('ext', path)

    def s_FunctionDef(self, s, st, fr):
        v = self.make_func(s, s.name, st, fr)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st, fr)
            v = self.decorate(dv, v, st, fr, d)
        self.bind_name(s.name, v, st, fr)

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, dv, v, st, fr, node):
        if dv.op == 'ext':
            p = dv.args[0]
            if p in ('builtins.staticmethod', 'builtins.classmethod', 'builtins.property',
                     'functools.cached_property'):
                return mk('wrapped', p.split('.')[-1], v)
            if p in ('autograd.core.primitive', 'autograd.extend.primitive',
                     'autograd.tracer.primitive'):
                return mk('prim', v)
            if p.split('.')[-1] in ('abstractmethod', 'wraps', 'final', 'override'):
                return v
            if p in ('functools.lru_cache', 'functools.cache'):
                self.event('memoised', st, p, (v,), node, fr)
                return v
            return v if p.startswith('typing.') else mk('decorated', dv, v)
        if dv.op == 'app':
            if dv.args[0] in ('functools.wraps',):
                return v
            if dv.args[0] in ('functools.lru_cache',):
                self.event('memoised', st, dv.args[0], (v,), node, fr)
                return v
        if dv.op in ('attr', 'mbound') and dv.args[1] in ('setter', 'getter', 'deleter') and dv.args[0].op == 'wrapped':
            b = dv.args[0]
            fs = list(b.args[1:]) if b.op == 'wrapped' and b.args[0] == 'property' else [NONE]
            fs += [NONE] * (2 - len(fs))
            if dv.args[1] != 'deleter':
                fs[0 if dv.args[1] == 'getter' else 1] = v
            return mk('wrapped', 'property', *fs)
        return self.call(dv, [v], {}, st, fr, node)

    def make_func(self, node, name, st, fr):
        a = node.args
        defaults = [self.ev(d, st, fr) for d in a.defaults]
        kwdefaults = {k.arg: self.ev(d, st, fr)
                      for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        chain = () if fr.is_module else fr.chain + ((fr.fid,) if not fr.classbody else ())
        qual = (fr.module + '.' if not self.stack else '') + name
        cls = fr.cls
        if cls is not None:
            qual = cls.qual + '.' + name
        elif fr.func is not None:
            qual = fr.func.qual + '.' + name
        else:
            qual = fr.module + '.' + name
        f = Func(node, fr.module, cls, chain, defaults, kwdefaults, name, qual)
        lf = LocalsFinder()
        for x in (a.posonlyargs + a.args + a.kwonlyargs):
            lf.names.add(x.arg)
        if a.vararg:
            lf.names.add(a.vararg.arg)
        if a.kwarg:
            lf.names.add(a.kwarg.arg)
        if isinstance(node, ast.Lambda):
            lf.visit(node.body)
        else:
            for b in node.body:
                lf.visit(b)
        cn = cls.name if cls else None
        f.locals = {mangle(n, cn) for n in lf.names} - lf.glob - lf.nonl
        f.glob, f.nonl = lf.glob, lf.nonl
        f.is_gen = lf.gen
        fid = self.fresh()
        t = mk('func', fid)
        self.funcs[t] = f
        self.node_func.setdefault(node, []).append(t)
        return t

    def s_ClassDef(self, s, st, fr):
        qual = (fr.module if fr.is_module else fr.module + '.<local>') + '.' + s.name
        c = Cls(qual, s.name, fr.module, s)
        c.bases = [self.ev(b, st, fr) for b in s.bases]
        cf = self.new_frame(fr.func, fr.module, c, fr.chain if not fr.is_module else ())
        cf.classbody = True
        self.stack.append(qual)
        self.exec_block(s.body, st, cf)
        self.stack.pop()
        for k in [k for k in st.store if k[0] == 'l' and k[1] == cf.fid]:
            c.ns[k[2]] = st.store.pop(k)
        t = mk('cls', qual)
        self.classes[t] = c
        v = t
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st, fr)
            v2 = self.decorate(dv, v, st, fr, d)
            v = v2 if v2.op == 'cls' else v
        self.bind_name(s.name, v, st, fr)

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        self.exec_block(s.body, st, fr)

    def s_Try(self, s, st, fr):
        i0, e0 = len(self.raises), len(self.events)
        pre = st.copy()
        self.try_depth += 1
        body = st.copy()
        r0 = len(fr.returns)
        self.exec_block(s.body, body, fr)
        self.try_depth -= 1
        risky = []
        for e in self.events[e0:]:
            if e.kind in ('mcall', 'call', 'ext', 'getitem', 'import') and e.name not in (
                    'builtins.str', 'len', 'fmt'):
                risky.append((e.kind, e.name, e.data))
        if any(isinstance(x, (ast.Import, ast.ImportFrom)) for b in s.body for x in ast.walk(b)):
            risky.append(('import', 'import', ()))
        mine = self.raises[i0:]
        del self.raises[i0:]
        states = []
        left = mine
        normal = body
        nret = len(fr.returns)
        for h in s.handlers:
            names = self.handler_names(h, st, fr)
            hs = None
            rest = []
            for r in left:
                if any(n == r.exc or n in EXC_PARENTS.get(r.exc, {'Exception', 'BaseException'})
                       for n in names):
                    one = State(dict(r.store), r.guard)
                    hs = one if hs is None else merge_states(hs, one)
                else:
                    rest.append(r)
            left = rest
            if risky and (normal.guard or len(fr.returns) > r0):
                g = self.risk_guard(names, risky)
                # what was returned inside is returned only without the failure
                fr.returns[r0:nret] = [(band(x[0], bnot(g)),) + x[1:] for x in fr.returns[r0:nret]]
                imp = State(dict(pre.store), band(pre.guard, g))
                # effects of the body before the failing step are joined in
                imp = self.partial_effects(imp, body)
                if imp.guard:
                    imp.guard = band(imp.guard, bnot(hs.guard)) if hs is not None else imp.guard
                    normal.guard = band(normal.guard, bnot(g))
                    hs = imp if hs is None else merge_states(hs, imp)
            if hs is None or hs.guard == 0:
                continue
            if h.name:
                self.bind_name(h.name, mk('excval', names[0] if names else 'Exception'), hs, fr)
            old = getattr(fr, 'handling', None)
            fr.handling = names[0] if names else 'Exception'
            self.exec_block(h.body, hs, fr)
            fr.handling = old
            if hs.guard:
                states.append(hs)
        self.raises.extend(left)
        if normal.guard and s.orelse:
            self.exec_block(s.orelse, normal, fr)
        res = normal
        for x in states:
            res = merge_states(res, x) if res.guard else x
        if s.finalbody:
            ended, fr.returns[r0:] = fr.returns[r0:], []
            for g, v, store, node in ended:
                fin = State(dict(store), g)
                self.exec_block(s.finalbody, fin, fr)
                if fin.guard:    # else the final block returned or raised itself
                    fr.returns.append((fin.guard, v, fin.store, node))
            for r in left:
                if r.guard and hasattr(r, 'store'):
                    fin = State(dict(r.store), r.guard)
                    self.exec_block(s.finalbody, fin, fr)
                    r.store, r.guard = fin.store, fin.guard
            if res.guard:
                self.exec_block(s.finalbody, res, fr)
            elif not ended:
                dead = pre.copy()
                self.exec_block(s.finalbody, dead, fr)
        self.become(st, res)

    def partial_effects(self, imp, body):
        st = dict(imp.store)
        for k, v in body.store.items():
            o = st.get(k)
            if o is not None and o is not v and k[0] in ('a', 'c', 'g'):
                at = atom(mk('partial', K(str(k))))
                st[k] = gam([(at, v), (bnot(at), o)])
        return State(st, imp.guard)

    def risk_guard(self, names, risky):
        if names == ['KeyError'] and len(risky) == 1 and risky[0][0] == 'getitem':
            d, k = risky[0][2][0], risky[0][2][1]
            return bnot(truth(app('in', (k, d))))
        return atom(mk('raises', tuple(names), tuple(
            mk('risk', k, n, tuple(x for x in d if isinstance(x, T))) for k, n, d in risky)))

    def handler_names(self, h, st, fr):
        if h.type is None:
            return ['BaseException']
        v = self.ev(h.type, st, fr)
        vs = simple_elems(v) or [v]
        return [self.exc_name(x)[0] for x in vs]

    # ------------------------------------------------------------ assignment
    def mang(self, name, fr):
        return mangle(name, fr.cls.name if fr.cls else None)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, st, fr)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fr)
            self.setattr(b, self.mang(t.attr, fr), v, st, fr, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, fr)
            i = self.ev_index(t.slice, st, fr)
            if st.guard:
                self.setitem(b, i, v, st, fr, t, t.value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vv = self.rd(v, st)
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                after = n - k - 1
                for i, e in enumerate(t.elts):
                    if i < k:
                        self.assign(e, sub(vv, K(i)), st, fr)
                    elif i == k:
                        sl = mk('slice', K(k), K(-after) if after else NONE, NONE)
                        self.assign(e.value, sub(vv, sl), st, fr)
                    else:
                        self.assign(e, sub(vv, K(i - n)), st, fr)
            else:
                parts = self.unpack(v, vv, n)
                for e, x in zip(t.elts, parts):
                    self.assign(e, x, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def unpack(self, v, vv, n):
        e = simple_elems(v)
        if e is not None and len(e) == n:
            return e
        return [sub(vv, K(i)) for i in range(n)]

    def setattr(self, b, name, v, st, fr, node):
        if st.guard == 0:
            return
        if b.op == 'gam':
            for g, l in b.args[0]:
                c = constrain(g, st.guard)
                key = ('a', l, name)
                old = st.store.get(key, mk('attr', l, name))
                st.store[key] = gam([(c, v), (bnot(c), old)])
                self.events_setattr(l, name, v, State(st.store, band(st.guard, g)), fr, node)
            return
        if b.op == 'obj':
            m = self.class_attr(b, name)
            if m is not None and m[1].op == 'wrapped' and m[1].args[0] == 'property':
                if len(m[1].args) > 2 and m[1].args[2].op == 'func':
                    self.call(mk('bm', m[1].args[2], b), [v], {}, st, fr, node)
                else:
                    self.do_raise('AttributeError', '', st, fr, node)
                return
        st.store[('a', b, name)] = v
        st.store.pop(('fr', b, name), None)
        self.events_setattr(b, name, v, st, fr, node)

    def events_setattr(self, b, name, v, st, fr, node):
        self.event('setattr', st, name, (b, self.rd(v, st)), node, fr)

    FRESHFN = {'np.zeros', 'np.ones', 'np.full', 'np.empty', 'np.array', 'copy', 'np.arange', 'np.concatenate',
               'np.hstack', 'np.vstack', 'np.exp', 'np.log', 'np.eye'}

    def token(self, target, value, v, st, fr):
        """Remember which names hold an array made at this very place."""
        if not isinstance(target, ast.Name):
            return
        k = ('fr', fr.fid, target.id)
        if isinstance(value, ast.Name):
            src = st.store.get(('fr', fr.fid, value.id))
            if src is not None:
                st.store[k] = src
                return
        elif viewof(value) is not None and st.store.get(('fr', fr.fid, viewof(value))) is not None and (
                roots(v) & roots(st.store.get(('l', fr.fid, viewof(value)), UNDEF))):
            src = st.store[('fr', fr.fid, viewof(value))]
            if isk(src):
                st.store[k] = K('view:' + kval(src).split('view:')[-1])
                return
        elif isinstance(value, (ast.BinOp, ast.Call)) and v.op == 'app' and (
                isinstance(value, ast.BinOp) or v.args[0] in self.FRESHFN):
            st.store[k] = K('fr%d:%d:%d' % (fr.fid, value.lineno, value.col_offset))
            return
        st.store.pop(k, None)

    def setitem(self, b, i, v, st, fr, node, basenode=None):
        if st.guard == 0:
            return
        iv = self.rd(i, st)
        if b.op == 'gam' and any(l.op in ('cell', 'obj') for _, l in b.args[0]):
            for g, l in b.args[0]:
                s2 = st.copy(band(st.guard, g))
                s3 = st.copy(band(st.guard, bnot(g)))
                self.setitem(l, i, v, s2, fr, node, None)
                self.become(st, merge_states(s2, s3))
            return
        if b.op == 'obj':
            m = self.class_attr(b, '__setitem__')
            if m is not None:
                self.call(mk('bm', m[1], b), [i, v], {}, st, fr, node)
                return
        if b.op == 'cell':
            c = st.store.get(('c', b))
            self.event('setitem', st, 'setitem', (b, iv, self.rd(v, st)), node, fr)
            st.store[('c', b)] = self.cell_set(c, iv, v)
            return
        self.event('store', st, 'setitem', (self.rd(b, st), iv, self.rd(v, st)), node, fr)
        # in-place update of a value term: every name of the array sees it
        iv, vv = plain_index(iv), self.rd(v, st)
        self.written(b, lambda old: mkstore(old, iv, vv), st, fr, basenode)

    # ------------------------------------------------------------ in-place writes
    wrote = frozenset()

    def place_of(self, node, st, fr):
        """The store key of the name or attribute a syntax node denotes."""
        if isinstance(node, ast.Name):
            name = self.mang(node.id, fr)
            if name in fr.nonlocals or not fr.is_module and name not in fr.locals:
                for fid in reversed(fr.chain):
                    if ('l', fid, name) in st.store:
                        return ('l', fid, name)
                return ('g', fr.module, name)
            return ('g', fr.module, name) if fr.is_module else ('l', fr.fid, name)
        if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
            k = self.place_of(node.value, st, fr)
            o = st.store.get(k)
            if isinstance(o, T) and o.op == 'obj':
                return ('a', o, self.mang(node.attr, fr))
        return None

    def written(self, b, new, st, fr, basenode=None):
        """The memory of the array b is written: `new(old)` is the new value of
        a name holding all of it, None when that is not known. Names of other
        views of the memory become unknown."""
        if b.op in ('k', 'obj', 'func', 'cls', 'ext', 'mod'):
            return
        key0 = self.place_of(basenode, st, fr) if basenode is not None else None
        tok0 = st.store.get(('fr',) + key0[1:]) if key0 else None
        tok0 = kval(tok0) if tok0 is not None and isk(tok0) else None
        mem = roots(b)
        lost = mk('opaque', K('written in place'))
        self.wrote |= {r for r in mem if r.op == 'lv'}
        fresh = any(r.op == 'app' and r.args[0] in self.FRESHFN for r in mem)

        def renew(t):
            r = new(t) if new is not None else None
            return lost if r is None else r

        def go(t, tok, top):
            if t.op == 'gam':
                ls = [(g, go(l, tok, top)) for g, l in t.args[0]]
                return t if all(x is y for (_, x), (_, y) in zip(ls, t.args[0])) else gam(ls)
            if t.op in ('list', 'tuple') and t is not b:
                ps = [(k, (go(x, None, False) if isinstance(x, T) else x)) for k, x in t.args[0]]
                return t if all(x is y for (_, x), (_, y) in zip(ps, t.args[0])) else mk(t.op, tuple(ps))
            if t.op == 'dict' and t is not b:
                ps = [(k, (e[0], go(e[1], None, False)) if k == 'e' else e) for k, e in t.args[0]]
                return t if all(k != 'e' or e[1] is f[1] for (k, e), (_, f) in zip(ps, t.args[0])) else mk('dict', tuple(ps))
            if t.op == 'map' and t is not b:
                return lost if any(roots(x) & mem for x in t.args[1:] if isinstance(x, T)) else t
            if t is b:
                if tok0 is not None and tok is not None:
                    return renew(t) if tok == tok0 else t
                return lost if fresh else renew(t)
            if roots(t) & mem:
                if tok0 is not None and tok is not None and tok.split('view:')[-1] != tok0.split('view:')[-1]:
                    return t
                return lost
            return t
        hit = False
        for k, x in list(st.store.items()):
            if k[0] not in ('l', 'a', 'c', 'g') or not isinstance(x, T) or x.op in NOMEM:
                continue
            if k == key0:
                y = gam([(g, renew(l)) for g, l in x.args[0]]) if x.op == 'gam' and b is not x else renew(x)
                hit = True
            else:
                tok = st.store.get(('fr',) + k[1:]) if k[0] in 'la' else None
                tok = kval(tok) if tok is not None and isk(tok) else None
                if tok is not None and tok0 is not None and tok == tok0:
                    y = renew(x)
                elif tok is not None and tok0 is not None and tok.split('view:')[-1] == tok0.split('view:')[-1]:
                    y = lost
                else:
                    y = go(x, tok, True)
            if y is not x:
                st.store[k] = y

    def cell_set(self, c, i, v):
        if c is None:
            return mk('dictset', mk('opaque'), i, v)
        if c.op == 'dict':
            parts = list(c.args[0])
            for n, (k, e) in enumerate(parts):
                if k == 'e' and e[0] is i:
                    parts[n] = ('e', (i, v))
                    return mk('dict', tuple(parts))
            return mk('dict', tuple(parts) + (('e', (i, v)),))
        if is_seq(c) and isk(i) and type(kval(i)) is int and simple_elems(c) is not None:
            e = simple_elems(c)
            if -len(e) <= kval(i) < len(e):
                e = list(e)
                e[kval(i)] = v
                return seq('list', [('e', x) for x in e])
        if c.op in ('list', 'map', 'fmap') or (c.op == 'store') or (c.op == 'app' and c.args[0] in (
                'mul', 'builtins.list')):
            return mkstore(c, i, v)
        return mk('dictset', c, i, v)

    def delitem(self, b, i, st, fr, node):
        iv = self.rd(i, st)
        if b.op == 'obj':
            m = self.class_attr(b, '__delitem__')
            if m is not None:
                self.call(mk('bm', m[1], b), [i], {}, st, fr, node)
                return
        if b.op == 'cell':
            c = st.store.get(('c', b))
            self.event('delitem', st, 'delitem', (b, iv), node, fr)
            st.store[('c', b)] = self.cell_del(c, iv)
            return
        self.event('store', st, 'delitem', (self.rd(b, st), iv), node, fr)

    def cell_del(self, c, i):
        if c is not None and c.op == 'dict' and all(k == 'e' for k, _ in c.args[0]):
            if any(e[0] is i for _, e in c.args[0]) or all(isk(e[0]) for _, e in c.args[0]):
                return mk('dict', tuple((k, e) for k, e in c.args[0] if e[0] is not i))
        if c is None:
            return mk('opaque')
        if is_seq(c):
            e = simple_elems(c)
            if e is not None and isk(i) and type(kval(i)) is int and -len(e) <= kval(i) < len(e):
                del e[kval(i)]
                return seq('list', [('e', x) for x in e])
            return mk('opaque', K('deleted entry'))
        return mk('dictdel', c, i)
