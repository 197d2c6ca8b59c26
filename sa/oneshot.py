"""Iterators that can be used once only, kept in an attribute and used by the
methods: found on the syntax trees by following local assignments."""
import ast

MAKERS = {'iter', 'map', 'filter', 'zip', 'enumerate', 'reversed'}
ITERTOOLS = {'product', 'chain', 'islice', 'permutations', 'combinations', 'zip_longest', 'starmap', 'accumulate', 'takewhile',
             'dropwhile', 'groupby', 'count', 'cycle', 'repeat', 'from_iterable'}
KEEP = {'list', 'tuple', 'dict', 'OrderedDict'}


def _maker(e, local, shadow):
    """Whether the value of e is, or holds, a one-shot iterator."""
    rec = lambda x: _maker(x, local, shadow)
    if isinstance(e, ast.GeneratorExp):
        return True
    if isinstance(e, ast.Name):
        return local.get(e.id, False) is True
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Name) and f.id in MAKERS and f.id not in shadow:
            return True
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'itertools' and f.attr in ITERTOOLS:
            return True
        return False
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        return any(rec(x) for x in e.elts)
    if isinstance(e, (ast.ListComp, ast.SetComp)):
        return rec(e.elt)
    if isinstance(e, ast.DictComp):
        return rec(e.value)
    if isinstance(e, ast.Dict):
        return any(rec(x) for x in e.values)
    if isinstance(e, ast.IfExp):
        return rec(e.body) or rec(e.orelse)
    if isinstance(e, ast.NamedExpr):
        return rec(e.value)
    return False


def one_shot(project):
    """[(module, class, attribute, storing line, using method, using line)]"""
    out = []
    for mn, mod in sorted(project.modules.items()):
        shadow = {x.name for x in ast.walk(mod.tree) if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
        for c in ast.walk(mod.tree):
            if not isinstance(c, ast.ClassDef):
                continue
            kept, reset = {}, {}
            fns = [f for f in c.body if isinstance(f, ast.FunctionDef)]
            for f in fns:
                me = f.args.args[0].arg if f.args.args else None
                names = {}
                for s in ast.walk(f):
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                        names.setdefault(s.targets[0].id, []).append(s.value)
                local = {}
                for _ in range(3):
                    local = {k: all(_maker(v, local, shadow) for v in vs) for k, vs in names.items()}
                for s in ast.walk(f):
                    if isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                                if _maker(s.value, local, shadow):
                                    kept.setdefault(t.attr, []).append((f.name, s.lineno))
                                else:
                                    reset.setdefault(t.attr, []).append(f.name)
            for a, st in kept.items():
                if a in reset:
                    continue
                for f in fns:
                    if f.name in {x for x, _ in st} or f.name == '__init__':
                        continue
                    me = f.args.args[0].arg if f.args.args else None
                    use = [x for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)
                           and isinstance(x.value, ast.Name) and x.value.id == me and x.attr == a]
                    if use:
                        out.append((mn, c.name, a, st[0][1], f.name, use[0].lineno))
                        break
    return out


def report(project, rep, rule, want):
    """Adds an obligation for the classes want(module, class) selects."""
    hits = [h for h in one_shot(project) if want(h[0], h[1])]
    for mn, c, a, l0, f, l1 in hits:
        rep.bad(rule, '%s.%s keeps an iterator' % (c, a), 'attribute %s is made a one-shot iterator at line %d; %s uses it up at line %d, '
                'so a second use finds nothing' % (a, l0, f, l1), '%s:%d' % (mn.replace('.', '/') + '.py', l1))
    if not hits:
        rep.ok(rule, 'no attribute keeps a one-shot iterator')
