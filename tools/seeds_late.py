PRE = '''import sys, warnings
warnings.simplefilter('ignore')
import autograd, autograd.numpy as np, paragami
'''
C='paragami/pattern_containers.py'; N='paragami/numeric_array_patterns.py'; P='paragami/psdmatrix_patterns.py'; X='paragami/simplex_patterns.py'; O='paragami/optimization_lib.py'; B='paragami/base_patterns.py'; F='paragami/function_patterns.py'; A='paragami/autograd_supplement_lib.py'
SEEDS = [
 dict(id='P01-array-length-default', property='P01', edits=[(C, "        return np.hstack(np.array([\n            self.__base_pattern.flatten(\n                folded_val[item], free=free, validate_value=validate_value)\n            for item in itertools.product(*self.__array_ranges)]))\n\n    def flat_length(self, free=None):", "        return np.hstack(np.array([\n            self.__base_pattern.flatten(\n                folded_val[item], free=free, validate_value=validate_value)\n            for item in itertools.product(*self.__array_ranges)]))\n\n    def flat_length(self, free=False):")],
  demo=PRE+"""
p = paragami.PatternArray((2,), paragami.SimplexArrayPattern(3, (1,)), free_default=True)
assert p.flat_length() == p.flat_length(free=True) == 4
q = paragami.PatternArray((2,), paragami.SimplexArrayPattern(3, (1,)))
try:
    q.flat_length()
except ValueError:
    sys.exit(0)
sys.exit('no mode at all was accepted')
""", needs='the length of an array of patterns asked for without a mode', breaks='the default mode of the pattern is ignored, and a missing one taken for non-free'),
 dict(id='P03-left-out-setting', property='P03', edits=[(X, "    def flatten(self, folded_val, free=None, validate_value=None):", "    def flatten(self, folded_val, free=None, validate_value=True):")],
  demo=PRE+"""
p = paragami.SimplexArrayPattern(2, (1,), default_validate=False)
v = np.array([[0.5, 0.6]])
assert np.allclose(p.flatten(v, free=False), [0.5, 0.6])
""", needs='a pattern whose default_validate is False, flattening a value off the simplex with no setting given', breaks='the default of the pattern is ignored'),
 dict(id='P07-bound-digits', property='P07', edits=[(P, "            'diag_lb': self.__diag_lb,\n", "            'diag_lb': float('%.12g' % self.__diag_lb),\n")],
  demo=PRE+'''
p = paragami.PSDSymmetricMatrixPattern(2, diag_lb=1.0 / 3.0)
q = paragami.get_pattern_from_json(p.to_json())
assert q.diag_lb() == p.diag_lb()
''', needs='a diagonal lower bound with more than 12 significant digits', breaks='the rebuilt pattern has another lower bound'),
 dict(id='P08-overwrite-ignored', property='P08', edits=[(C, "    __json_patterns[pattern_name] = pattern\n", "    __json_patterns.setdefault(pattern_name, pattern)\n")],
  demo=PRE+'''
import paragami
class V1(paragami.NumericVectorPattern):
    pass
class V2(V1):
    @classmethod
    def json_typename(cls):
        return V1.json_typename()
paragami.register_pattern_json(V1)
paragami.register_pattern_json(V2, allow_overwrite=True)
p = paragami.get_pattern_from_json(V2(length=2).to_json())
assert type(p) is V2, type(p)
''', needs='a class registered over another of the same type name with allow_overwrite=True', breaks='the earlier class is kept'),
 dict(id='P12-index-view', property='P12', edits=[(N, "        if free:\n            return self.__free_folded_indices[folded_bool]\n        else:\n            return self.__nonfree_folded_indices[folded_bool]", "        if np.all(folded_bool):\n            # Everything was asked for.\n            return self.__nonfree_folded_indices.reshape(-1)\n        if free:\n            return self.__free_folded_indices[folded_bool]\n        else:\n            return self.__nonfree_folded_indices[folded_bool]")],
  demo=PRE+'''
p = paragami.NumericArrayPattern(shape=(2, 2))
b = np.full((2, 2), True)
i = p.flat_indices(b, free=False)
i += 10
assert list(p.flat_indices(b, free=False)) == [0, 1, 2, 3]
''', needs='all entries selected, and the returned indices changed in place by the caller', breaks='the pattern hands out its own index cache'),
 dict(id='P14-none-skipped', property='P14', edits=[(F, "            retnum = self._retnums[i]\n", "            retnum = self._retnums[i]\n            if retnum < len(rets) and rets[retnum] is None:\n                continue\n")],
  demo=PRE+'''
class Rec(paragami.NumericVectorPattern):
    def flatten(self, x, free=None, validate_value=None):
        return np.zeros(3) if x is None else super().flatten(x, free, validate_value)
f = paragami.FlattenFunctionOutput(lambda: (1, None), Rec(length=3), True, retnums=1)
r = f()
assert r[1] is not None and r[1].shape == (3,)
''', needs='a designated return value that is None', breaks='the value is handed through unconverted'),
 dict(id='P15-nonfinite-uncounted', property='P15', edits=[(O, "        self._num_f_evals += 1\n        return f_val", "        self._num_f_evals += 1 if np.all(np.isfinite(f_val)) else 0\n        return f_val")],
  demo=PRE+'''
o = paragami.optimization_lib.OptimizationObjective(lambda x: np.log(x), print_every=0)
o.f(1.0); o.f(0.0); o.f(2.0)
assert o.num_iterations() == 3
''', needs='an evaluation whose value is not finite', breaks='the evaluation is not counted'),
 dict(id='P16-default-floor', property='P16', edits=[(O, "def truncate_eigenvalues(evals, ev_min=None, ev_max=None):", "def truncate_eigenvalues(evals, ev_min=0.0, ev_max=None):")],
  demo=PRE+'''
e = np.array([-2.0, 1.0, 5.0])
r = paragami.optimization_lib.truncate_eigenvalues(e, ev_max=3.0)
assert np.allclose(r, [-2.0, 1.0, 3.0]), r
''', needs='a negative eigenvalue and only an upper bound given', breaks='eigenvalues are clipped from below without being asked to'),
 dict(id='P12-simplex-cached', property='P12', edits=[(X, "            return np.full(self.__shape, 1.0 / self.__simplex_size)\n", "            if not hasattr(self, '_empty_value'):\n                self._empty_value = np.full(self.__shape, 1.0 / self.__simplex_size)\n            return self._empty_value\n")],
  demo=PRE+'''
p = paragami.SimplexArrayPattern(2, (1,))
v = p.empty(valid=True)
v[0, 0] = 0.9
assert np.allclose(p.empty(valid=True), 0.5)
''', needs='the returned default value changed in place before it is asked for again', breaks='all callers share one array'),
]
