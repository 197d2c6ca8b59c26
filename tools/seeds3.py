C='paragami/pattern_containers.py'; N='paragami/numeric_array_patterns.py'; B='paragami/base_patterns.py'
P='paragami/psdmatrix_patterns.py'; X='paragami/simplex_patterns.py'
F='paragami/function_patterns.py'; O='paragami/optimization_lib.py'; A='paragami/autograd_supplement_lib.py'; SP='paragami/sparse_preconditioners_lib.py'
IMP='import numpy as np, paragami\n'
SEEDS=[
dict(id='P01-dict-names-bool', property='P01',
 edits=[(C,"""    def flat_names(self, free, delim='_'):
        free = self._free_with_default(free)
        flat_names_list = []
        for pattern_name, pattern in""","""    def flat_names(self, free, delim='_'):
        free = bool(self.free_default) if free is None else free
        flat_names_list = []
        for pattern_name, pattern in""")],
 needs='flat names of a dictionary without a default, asked for without a mode',
 breaks='the missing mode is taken for non-free instead of being refused',
 demo=IMP+'''d = paragami.PatternDict()
d["a"] = paragami.NumericVectorPattern(length=2)
try:
    n = d.flat_names(None)
except ValueError:
    raise SystemExit(0)
raise SystemExit("names without a mode: %s" % n)
'''),
dict(id='P05-psd-symmetry-magnitude', property='P05',
 edits=[(P,"            if not (folded_val.transpose() == folded_val).all():","            if not (np.abs(folded_val.transpose()) == np.abs(folded_val)).all():")],
 needs='a matrix whose mirrored entries differ in sign only',
 breaks='a matrix that is not symmetric is called valid',
 demo=IMP+'''p = paragami.PSDSymmetricMatrixPattern(2)
assert not p.validate_folded(np.array([[2.0, 0.5], [-0.5, 2.0]]))[0]
assert p.validate_folded(np.array([[2.0, 0.5], [0.5, 2.0]]))[0]
'''),
dict(id='P09-lock-empty', property='P09',
 edits=[(C,"    def lock(self):\n        self.__lock = True","    def lock(self):\n        self.__lock = len(self.__pattern_dict) > 0")],
 needs='an empty dictionary of patterns locked by its parent and changed afterwards',
 breaks='a dictionary that is locked while it is empty stays open',
 demo=IMP+'''s = paragami.PatternDict()
d = paragami.PatternDict()
d["s"] = s
try:
    s["b"] = paragami.NumericVectorPattern(length=3)
except ValueError:
    raise SystemExit(0)
raise SystemExit("the nested dictionary was changed")
'''),
dict(id='P17-ungroup-order', property='P17',
 edits=[(A,"""    def z_mult_vjp(ans, b):
        def vjp(g):
            return zt_mult(g) # z_mat.T @ g
        return vjp""","""    def z_mult_vjp(ans, b):
        def vjp(g):
            if z_mat.shape[0] == z_mat.shape[1]:
                return z_mult(g)
            return zt_mult(g) # z_mat.T @ g
        return vjp""")],
 needs='the reverse derivative of a product with a square matrix that is not symmetric',
 breaks='square matrices are taken for symmetric ones',
 demo='import autograd, autograd.numpy as np, scipy.sparse\nfrom paragami.autograd_supplement_lib import get_sparse_product\n'+'''m = scipy.sparse.csr_matrix(np.array([[2.0, 1.0], [0.0, 3.0]]))
mult, tmult = get_sparse_product(m)
g = autograd.grad(lambda b: np.sum(mult(b) * np.array([1.0, 2.0])))(np.array([1.0, 1.0]))
assert np.allclose(g, m.T @ np.array([1.0, 2.0])), g
'''),
dict(id='P19-interval-margin', property='P19',
 edits=[(N,"            return np.log(array - lb) - np.log(ub - array)","            # Keep away from the ends of the interval.\n            array = np.clip(array, lb + 1e-8, ub - 1e-8)\n            return np.log(array - lb) - np.log(ub - array)")],
 needs='values very close to a bound, or a very short interval',
 breaks='values within 1e-8 of a bound do not come back from their free vector',
 demo=IMP+'''p = paragami.NumericVectorPattern(length=2, lb=0.0, ub=1e-7)
v = np.array([1e-9, 5e-8])
w = p.fold(p.flatten(v, free=True), free=True)
assert np.allclose(v, w, rtol=1e-6, atol=0.0), w
'''),
dict(id='P21-dense-from-vector', property='P21',
 edits=[(C,"""            jac = pattern.freeing_jacobian(
                folded_val[pattern_name], sparse=True)
            jacobians.append(jac)

        sp_jac = block_diag(jacobians, format='coo')
        if sparse:""","""            jac = pattern.freeing_jacobian(
                folded_val[pattern_name], sparse=True)
            if jac.nnz > 0:
                jacobians.append(jac)

        sp_jac = block_diag(jacobians, format='coo')
        if sparse:""")],
 needs='a member with an empty Jacobian beside others, such as a value at which all derivatives vanish or a matrix of no free entries',
 breaks='members whose Jacobian has no stored entries lose their rows and columns',
 demo=IMP+'''class Const(paragami.NumericVectorPattern):
    def freeing_jacobian(self, folded_val, sparse=True):
        import scipy.sparse
        return scipy.sparse.coo_matrix((2, 2))
d = paragami.PatternDict()
d["a"] = Const(length=2)
d["b"] = paragami.NumericVectorPattern(length=3)
j = d.freeing_jacobian({"a": np.ones(2), "b": np.ones(3)}, sparse=False)
assert j.shape == (5, 5), j.shape
'''),
dict(id='P25-infinite-bounds', property='P25',
 edits=[(N,"        if lb >= ub:\n","        if lb - ub >= 0:\n")],
 needs='both bounds equal to the same infinity',
 breaks='an empty range at infinity is accepted',
 demo=IMP+'''try:
    paragami.NumericVectorPattern(length=2, lb=float("inf"), ub=float("inf"))
except ValueError:
    raise SystemExit(0)
raise SystemExit("bounds (inf, inf) were accepted")
'''),
dict(id='P25-psd-negative-zero', property='P25',
 edits=[(P,"        if diag_lb < 0:\n","        if int(diag_lb) < 0:\n")],
 needs='a diagonal bound between minus one and zero',
 breaks='small negative diagonal bounds are accepted',
 demo=IMP+'''try:
    paragami.PSDSymmetricMatrixPattern(2, diag_lb=-0.5)
except ValueError:
    raise SystemExit(0)
raise SystemExit("a negative bound was accepted")
'''),

dict(id='P13-adjacent-duplicates', property='P13',
 edits=[(F,"        if len(self._argnums) != len(np.unique(self._argnums)):","        if np.any(np.diff(self._argnums) == 0):")],
 needs='duplicated argument numbers that are not next to each other',
 breaks='duplicated positions are accepted and arguments are passed twice',
 demo=IMP+"""p = paragami.NumericVectorPattern(length=1)
try:
    paragami.FlattenFunctionInput(lambda *a: a, [p, p, p], free=True, argnums=[0, 1, 0])
except ValueError:
    raise SystemExit(0)
raise SystemExit("duplicated positions were accepted")
"""),
dict(id='P23-simplex-offset', property='P23',
 edits=[(X,"""                    indices.append(free_inds)
                offset += 1""","""                    indices.append(free_inds)
                else:
                    offset += 1""")],
 needs='marked entries in two or more simplexes',
 breaks='the free indices of every simplex after the first marked one are those of an earlier simplex',
 demo=IMP+"""p = paragami.SimplexArrayPattern(3, (2,))
b = np.zeros((2, 3), dtype=bool)
b[0, 0] = True
b[1, 0] = True
assert list(p.flat_indices(b, free=True)) == [0, 1, 2, 3], p.flat_indices(b, free=True)
"""),
]
