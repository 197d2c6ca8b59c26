"""Instances of the analysed classes with symbolic configuration, and the
summaries (gated result, effects, raises) of their methods."""
import traceback

from .interp import *
from .project import Project, AnalysisBroken, Unavailable


class Outcome:
    def __init__(self, value, guard, raises, events, store, notes):
        self.value, self.guard, self.raises = value, guard, raises
        self.events, self.store, self.notes = events, store, notes

    def raise_guard(self, exc=None):
        g = 0
        for r in self.raises:
            if exc is None or r.exc in exc:
                g = bor(g, r.guard)
        return g

    def calls(self, name, kind='mcall'):
        return [e for e in self.events if e.kind == kind and e.name == name]


class Instance:
    def __init__(self, obj, store, cls, name, out):
        self.obj, self.store, self.cls, self.name, self.out = obj, store, cls, name, out
        self.assume = 1


class Model:
    def __init__(self, project=None):
        self.I = Interp(project or Project())
        self.project = self.I.project
        self.caller = Frame(self.I.fresh(), None, ())
        self.caller.module = self.I.pkg
        self.caller.cls = None
        self.caller.is_module = True
        self.broken = []

    # ------------------------------------------------------------ lookups
    def cls(self, name):
        hits = [t for t, c in self.I.classes.items() if c.name == name and '<local>' not in c.qual]
        if not hits:
            raise AnalysisBroken('class %s not found' % name)
        return hits[0]

    def glob(self, modname, name):
        v = self.I.base_store.get(('g', '%s.%s' % (self.I.pkg, modname), name))
        if v is None:
            raise AnalysisBroken('%s.%s not found' % (modname, name))
        return v

    def has_glob(self, modname, name):
        return ('g', '%s.%s' % (self.I.pkg, modname), name) in self.I.base_store

    def public(self, name):
        return self.I.base_store.get(('g', self.I.pkg, name))

    def method(self, cls, name):
        m = self.I.class_attr(cls, name)
        if m is None:
            raise Unavailable('method %s.%s not found' % (self.I.classes[cls].name, name))
        return m[1]

    internal = []

    def has_method(self, cls, name):
        return self.I.class_attr(cls, name) is not None

    # ------------------------------------------------------------ running
    def run(self, f, args=(), kw=None, store=None, guard=1, loops=()):
        I = self.I
        st = State(dict(I.base_store if store is None else store), guard)
        I.events, I.raises, I.stack, I.loops = [], [], [], list(loops)
        I.steps = 0
        I.recursive = 0
        n0 = len(I.opaque_notes)
        node = ast.Pass(lineno=0, col_offset=0)
        try:
            v = I.call(f, list(args), dict(kw or {}), st, self.caller, node)
            val = I.rd(v, st) if st.guard else UNDEF
        except AnalysisBroken:
            raise
        except Exception as e:
            # a limit of the analyser: the outcome decides nothing
            I.opaque_notes.append('internal error %s: %s' % (type(e).__name__, str(e)[:200]))
            self.internal.append(traceback.format_exc())
            v = val = mk('opaque', 'internal', len(self.internal))
            st.guard = guard
        if st.guard and val.op == 'gam':
            val = under(val, st.guard)
        out = Outcome(val, st.guard, I.raises, I.events, st.store, I.opaque_notes[n0:])
        out.raw = v
        I.events, I.raises, I.loops = [], [], []
        return out

    def new(self, clsname, kw, assume=True, store=None, guard=1):
        """Instance from a constructor call; the guard under which construction
        succeeds is assumed in what follows."""
        c = self.cls(clsname) if isinstance(clsname, str) else clsname
        out = self.run(c, [], kw, store, guard)
        if out.guard == 0:
            raise Unavailable('constructing %s(%s) always fails' % (
                clsname, ', '.join('%s=%s' % (k, show(v)) for k, v in kw.items())))
        o = out.raw
        if o.op != 'obj':
            raise Unavailable('constructing %s does not give an instance' % clsname)
        inst = Instance(o, out.store, c, self.I.classes[c].name, out)
        inst.assume = out.guard
        inst.kw = kw
        return inst

    def call(self, inst, name, args=(), kw=None, store=None, guard=None):
        m = self.I.class_attr(inst.obj, name)
        if m is None:
            raise Unavailable('method %s.%s not found' % (inst.name, name))
        st = State(dict(store or inst.store))
        f = self.I.bind_member(m[1], inst.obj, st, self.caller, None)
        g = inst.assume if guard is None else guard
        out = self.run(f, args, kw, store or inst.store, g)
        return self.relative(out, g)

    def relative(self, out, g):
        """Express an outcome relative to the assumption g."""
        if g != 1:
            out.guard = constrain(out.guard, g) if out.guard else 0
            out.value = under(out.value, g)
            for r in out.raises:
                r.guard = constrain(r.guard, g)
            for e in out.events:
                e.guard = constrain(e.guard, g)
        return out

    def assigned(self, inst, name, value, store=None):
        """The instance after `inst.name = value`."""
        st = State(dict(store or inst.store), inst.assume)
        fr = self.caller
        self.I.events, self.I.raises, self.I.stack, self.I.loops = [], [], [], []
        self.I.setattr(inst.obj, name, value, st, fr, ast.Pass(lineno=0, col_offset=0))
        r = Instance(inst.obj, st.store, inst.cls, inst.name, inst.out)
        r.__dict__.update({k: v for k, v in inst.__dict__.items() if k not in r.__dict__})
        r.assume, r.kw, r.refused = inst.assume, inst.kw, [x.guard for x in self.I.raises if x.guard]
        self.I.events, self.I.raises = [], []
        return r

    def attr(self, inst, name, store=None):
        s = store or inst.store
        st = State(s)
        v = s.get(('a', inst.obj, name))
        if v is None:
            m = self.I.class_attr(inst.cls, name)
            if m is not None and m[1].op == 'wrapped' and m[1].args[0] == 'property':
                self.I.events, self.I.raises, self.I.stack, self.I.loops = [], [], [], []
                v = self.I.getattr(inst.obj, name, State(dict(s), inst.assume), self.caller,
                                   ast.Pass(lineno=0, col_offset=0))
                self.I.events, self.I.raises = [], []
        return None if v is None else self.I.rd(v, st)

    def missing(self, inst, name, store=None):
        """Reading the attribute surely raises AttributeError."""
        s = store or inst.store
        return s.get(('a', inst.obj, name)) is None and self.I.class_attr(inst.cls, name) is None \
            and self.I.class_attr(inst.cls, '__getattr__') is None \
            and self.I.class_attr(inst.cls, '__getattribute__') is None \
            and inst.out is not None and not inst.out.notes and not any(
                e.kind == 'ext' and e.name in ('builtins.setattr', 'builtins.vars') for e in inst.out.events)

    def attrs(self, inst, store=None):
        s = store or inst.store
        return {k[2]: self.I.rd(v, State(s)) for k, v in s.items() if k[0] == 'a' and k[1] is inst.obj}

    # ------------------------------------------------------------ standard instances
    def free_default(self):
        return sym('free_default', 'any')

    def numeric(self, lb, ub, cls='NumericArrayPattern', **over):
        kw = {'lb': lb, 'ub': ub, 'default_validate': sym('default_validate', 'bool', 'nonnone'),
              'free_default': self.free_default()}
        if cls == 'NumericArrayPattern':
            kw['shape'] = sym('shape', 'tuple')
        elif cls == 'NumericVectorPattern':
            kw['length'] = sym('length', 'int')
        kw.update(over)
        return self.new(cls, kw)

    def psd(self, **over):
        kw = {'size': sym('size', 'int'), 'diag_lb': sym('diag_lb', 'finite'),
              'default_validate': sym('default_validate', 'bool', 'nonnone'),
              'free_default': self.free_default()}
        kw.update(over)
        return self.new('PSDSymmetricMatrixPattern', kw)

    def simplex(self, **over):
        kw = {'simplex_size': sym('simplex_size', 'int'), 'array_shape': sym('array_shape', 'tuple'),
              'default_validate': sym('default_validate', 'bool', 'nonnone'),
              'free_default': self.free_default()}
        kw.update(over)
        return self.new('SimplexArrayPattern', kw)

    def parray(self, **over):
        kw = {'array_shape': sym('array_shape', 'tuple'), 'base_pattern': sym('base_pattern', 'pattern', 'nonnone'),
              'free_default': self.free_default()}
        kw.update(over)
        return self.new('PatternArray', kw)

    def pdict(self, populated=True, **over):
        kw = {'free_default': self.free_default()}
        kw.update(over)
        inst = self.new('PatternDict', kw)
        inst.members = None
        if populated:
            self.populate(inst)
        return inst

    MUTATORS = ('__setitem__', '__delitem__', 'lock')

    def populate(self, inst):
        """Replace everything the mutators change by symbols: the members by an
        arbitrary ordered mapping of patterns, the derived attributes by what
        the mutators establish for it."""
        I = self.I
        base = dict(inst.store)
        cells = [(k, v) for k, v in base.items() if k[0] == 'a' and k[1] is inst.obj and v.op == 'cell'
                 and v.args[0] == 'dict']
        changed = {}
        out = self.call(inst, '__setitem__', [sym('@key', 'nonnone'), sym('@pat', 'pattern', 'nonnone')])
        diff = [k for k, v in out.store.items() if k in base and base[k] is not v]
        mem = [v for k, v in cells if ('c', v) in diff]
        inst.havoc = []
        if len(mem) != 1:
            inst.members = None
            for k in diff:
                base[k] = sym('@state:%s' % (k[-1],), 'any')
                inst.havoc.append(k)
            inst.store = base
            return
        members = sym('members', 'dict', 'patterns', 'nonnone')
        base[('c', mem[0])] = members
        inst.members, inst.memcell = members, mem[0]
        # derived attributes: value established by an insertion, as a function of the members
        st1 = dict(base)
        inst.store = st1
        # a mutator may refuse while locked; derive under its success guard
        out = self.call(inst, '__setitem__', [sym('@key', 'nonnone'), sym('@pat', 'pattern', 'nonnone')], store=st1)
        newdict = I.rd(mem[0], State(out.store))
        leavesd = leaves(newdict)
        ds = [l for _, l in leavesd if l.op == 'dictset']
        for k in list(base):
            if k[0] in ('a', 'c') and k != ('c', mem[0]) and k in out.store and out.store[k] is not base[k]:
                v = I.rd(out.store[k], State(out.store))
                if len(ds) == 1:
                    v = subst(v, {ds[0]: members})
                if any(contains(v, s) for s in (sym('@key', 'nonnone'), sym('@pat', 'pattern', 'nonnone'))):
                    v = sym('@state:%s' % (k[-1],), 'any')
                base[k] = v
                inst.havoc.append(k)
        # the lock flag may have either value
        out = self.call(inst, 'lock', store=base) if self.has_method(inst.cls, 'lock') else None
        if out is not None:
            for k, v in out.store.items():
                if k in base and base[k] is not v and k[0] == 'a':
                    base[k] = sym('@locked', 'any')
                    inst.lockattr = k
        inst.store = base
