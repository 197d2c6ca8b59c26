"""Abstract machine: states, frames, classes, functions, name resolution."""
import ast
from .terms import *
from .ops import *
from . import ops
from .project import Project, AnalysisBroken, Unavailable

UNDEF = mk('undef')


NOMEM = {'k', 'func', 'cls', 'ext', 'mod', 'obj', 'cell', 'undef', 'bm', 'prim', 'iota', 'domlen', 'wrapped', 'B'}
STORES = {'store', 'storemap', 'storeadd', 'storenest', 'storeupto', 'sub'}
VIEWFN = {'np.reshape', 'np.ravel', 'T', 'np.transpose', 'np.atleast_1d', 'np.atleast_2d', 'np.atleast_3d', 'np.asarray',
          'np.asanyarray', 'np.ascontiguousarray', 'np.squeeze', 'np.swapaxes', 'np.expand_dims', 'view', 'np.real',
          'np.imag', 'np.require', 'np.moveaxis', 'np.rollaxis', 'np.split', 'np.array_split', 'np.diagonal', 'np.nditer',
          'builtins.iter', 'builtins.enumerate', 'builtins.zip', 'np.broadcast_to', 'builtins.reversed', 'np.flip'}


def roots(t):
    """The arrays whose memory t may be (part of)."""
    while True:
        if t.op in STORES or t.op in ('attr', 'mbound'):
            t = t.args[0]
        elif t.op == 'app' and t.args[0] in VIEWFN and t.args[1]:
            t = t.args[1][0]
        elif t.op == 'gam':
            return frozenset().union(*[roots(l) for _, l in t.args[0]])
        else:
            return frozenset() if t.op in NOMEM else frozenset((t,))


def viewof(node):
    """The name an expression may be a view of."""
    seen = False
    while True:
        if isinstance(node, ast.Name):
            return node.id if seen else None
        if isinstance(node, (ast.Subscript, ast.Attribute)):
            node = node.value
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
            if isinstance(node.func.value, ast.Name) and node.func.value.id in ('np', 'numpy', 'onp') and node.args:
                node = node.args[0]
            else:
                node = node.func.value
        else:
            return None
        seen = True


class State:
    __slots__ = ('store', 'guard')

    def __init__(self, store=None, guard=1):
        self.store = {} if store is None else store
        self.guard = guard

    def copy(self, guard=None):
        return State(dict(self.store), self.guard if guard is None else guard)


class Func:
    def __init__(self, node, module, cls, frames, defaults, kwdefaults, name, qual):
        self.node, self.module, self.cls, self.frames = node, module, cls, frames
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name, self.qual = name, qual
        self.locals = None
        self.is_gen = False


class Cls:
    def __init__(self, qual, name, module, node):
        self.qual, self.name, self.module, self.node = qual, name, module, node
        self.bases = []        # terms
        self.ns = {}           # name -> (kind, term)


class Frame:
    def __init__(self, fid, func, chain):
        self.fid, self.func, self.chain = fid, func, chain
        self.returns = []      # (guard, value, store)
        self.ctl = []          # stack of loop control records
        self.globals_ = set()
        self.nonlocals = set()


class Event:
    __slots__ = ('kind', 'guard', 'name', 'data', 'loops', 'node', 'path', 'stack', 'seq', 'raw', 'kw')

    def __init__(self, kind, guard, name, data, loops, node, path, stack, seq, raw=None):
        self.kind, self.guard, self.name, self.data = kind, guard, name, data
        self.loops, self.node, self.path, self.stack = loops, node, path, stack
        self.seq, self.raw = seq, raw
        self.kw = {}

    def where(self):
        fn = self.stack[-1] if self.stack else '<module>'
        return '%s:%s in %s' % (self.path, getattr(self.node, 'lineno', '?'), fn)


class RaiseRec:
    __slots__ = ('guard', 'exc', 'node', 'path', 'stack', 'store', 'msg', 'loops')

    def __init__(self, guard, exc, node, path, stack, store, msg, loops):
        self.guard, self.exc, self.node, self.path = guard, exc, node, path
        self.stack, self.store, self.msg, self.loops = stack, store, msg, loops

    def where(self):
        return '%s:%s in %s' % (self.path, getattr(self.node, 'lineno', '?'),
                                self.stack[-1] if self.stack else '<module>')


def mkB(g):
    return TRUE if g == 1 else FALSE if g == 0 else mk('B', g)


_hascell = {}


def has_cell(t):
    r = _hascell.get(t)
    if r is None:
        r = t.op == 'cell' or any(has_cell(c) for c in children(t))
        _hascell[t] = r
    return r


def merge_states(a, b):
    """Join of two states with disjoint guards."""
    if a.guard == 0:
        return b
    if b.guard == 0:
        return a
    g = bor(a.guard, b.guard)
    ga = constrain(a.guard, g)
    gb = bnot(ga)
    st = {}
    sa_, sb_ = a.store, b.store
    if sa_ is sb_:
        return State(sa_, g)
    for k, v in sa_.items():
        w = sb_.get(k, UNDEF)
        st[k] = v if v is w else gam([(ga, v), (gb, w)])
    for k, w in sb_.items():
        if k not in sa_:
            st[k] = gam([(ga, UNDEF), (gb, w)])
    return State(st, g)


def merge_values(pairs):
    """pairs [(guard, value)] -> (guard, value) where value's gamma guards are
    relative to the union guard."""
    g, v = 0, None
    for gi, vi in pairs:
        if gi == 0:
            continue
        if v is None:
            g, v = gi, vi
            continue
        n = bor(g, gi)
        if v is not vi:
            go = constrain(g, n)
            v = gam([(go, v), (bnot(go), vi)])
        g = n
    return g, v


class LocalsFinder(ast.NodeVisitor):
    def __init__(self):
        self.names, self.glob, self.nonl, self.gen = set(), set(), set(), False

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        for g in n.generators:
            self.visit(g.iter)
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.names.add(x.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name)

    def visit_MatchAs(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    visit_MatchStar = visit_MatchAs

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Global(self, n):
        self.glob |= set(n.names)

    def visit_Nonlocal(self, n):
        self.nonl |= set(n.names)

    def visit_Yield(self, n):
        self.gen = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield


def mangle(name, cls):
    if cls and name.startswith('__') and not name.endswith('__'):
        return '_' + cls.lstrip('_') + name
    return name


CANON = {
    'numpy.product': 'np.prod', 'numpy.absolute': 'np.abs', 'builtins.abs': 'np.abs',
    'copy.copy': 'copy', 'copy.deepcopy': 'copy', 'numpy.copy': 'copy',
    'numpy.transpose': 'T', 'numpy.matmul': 'matmul', 'numpy.dot': 'np.dot',
    'numpy.add': 'add', 'numpy.subtract': 'sub', 'numpy.multiply': 'mul', 'numpy.divide': 'div',
    'numpy.true_divide': 'div', 'numpy.negative': 'neg', 'numpy.power': 'pow',
    'numpy.less': 'lt', 'numpy.less_equal': 'le', 'numpy.greater': 'gt', 'numpy.greater_equal': 'ge',
    'numpy.equal': 'eq', 'numpy.not_equal': 'ne', 'operator.add': 'add', 'operator.sub': 'sub',
    'operator.mul': 'mul', 'operator.truediv': 'div', 'operator.neg': 'neg', 'operator.eq': 'eq',
    'math.exp': 'np.exp', 'math.log': 'np.log', 'math.sqrt': 'np.sqrt', 'math.prod': 'np.prod',
    'math.isinf': 'np.isinf', 'math.isnan': 'np.isnan', 'math.isfinite': 'np.isfinite',
    'numpy.amax': 'np.max', 'numpy.amin': 'np.min', 'builtins.len': 'len',
    'itertools.product': 'itertools.product', 'numpy.ndindex': 'np.ndindex',
    'builtins.range': 'range', 'builtins.zip': 'zip', 'builtins.enumerate': 'enumerate',
    'builtins.reversed': 'reversed', 'builtins.sorted': 'sorted', 'builtins.sum': 'builtins.sum',
    'numpy.bitwise_or': 'bitor', 'numpy.bitwise_and': 'bitand', 'numpy.any': 'np.any',
    'numpy.asanyarray': 'np.asarray', 'numpy.ascontiguousarray': 'np.asarray',
    'scipy.linalg.block_diag': 'scipy.linalg.block_diag',
    'numpy.diagonal': 'np.diag', 'operator.getitem': 'getitem',
}


def canon_ext(path):
    if path.startswith('autograd.numpy'):
        path = path[len('autograd.'):]
    elif path.startswith('autograd.scipy'):
        path = path[len('autograd.'):]
    if path in CANON:
        return CANON[path]
    if path.startswith('numpy.'):
        return 'np.' + path[6:]
    return path


CONST_EXT = {'numpy.inf': float('inf'), 'math.inf': float('inf'), 'numpy.Inf': float('inf'),
             'numpy.infty': float('inf'), 'numpy.nan': float('nan'), 'math.nan': float('nan'),
             'numpy.newaxis': None, 'numpy.NINF': float('-inf')}
