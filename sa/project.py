"""Loads the analysed package's source (syntax trees only; nothing is imported
or executed) and indexes classes and functions."""
import ast
import hashlib
import os

REPO = os.environ.get('PARAGAMI_SRC', '/repo')


class AnalysisBroken(Exception):
    """Nothing can be said: the package is missing or does not parse."""


class Unavailable(Exception):
    """One question cannot be answered; what depends on it stays undecided."""


class Module:
    def __init__(self, name, path, src):
        self.name, self.path = name, path
        self.tree = ast.parse(src, path)
        self.digest = hashlib.sha256(src.encode()).hexdigest()[:16]


class Project:
    SKIP = ('_version',)

    def __init__(self, root=None, package='paragami'):
        self.root = root or REPO
        self.package = package
        self.modules = {}
        base = os.path.join(self.root, package)
        if not os.path.isdir(base):
            raise AnalysisBroken('package directory %s is missing' % base)
        for dp, dns, fns in os.walk(base):
            dns[:] = sorted(d for d in dns if d not in ('tests', '__pycache__'))
            for fn in sorted(fns):
                if not fn.endswith('.py'):
                    continue
                path = os.path.join(dp, fn)
                rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                if rel.split('.')[-1] in self.SKIP:
                    continue
                with open(path, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    self.modules[rel] = Module(rel, path, src)
                except SyntaxError as e:
                    raise AnalysisBroken('%s does not parse: %s' % (path, e))

    @property
    def digest(self):
        h = hashlib.sha256()
        for m in sorted(self.modules):
            h.update((m + self.modules[m].digest).encode())
        return h.hexdigest()[:16]

    def relpath(self, path):
        return os.path.relpath(path, self.root)
