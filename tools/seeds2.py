C='paragami/pattern_containers.py'; N='paragami/numeric_array_patterns.py'; B='paragami/base_patterns.py'
P='paragami/psdmatrix_patterns.py'; X='paragami/simplex_patterns.py'
F='paragami/function_patterns.py'; O='paragami/optimization_lib.py'; A='paragami/autograd_supplement_lib.py'
IMP='import numpy as np, paragami\n'
SEEDS=[
dict(id='P03-array-fold-unchecked', property='P03',
 edits=[(C,"""                flat_val[self._stacked_obs_slice(item, flat_length)],
                free=free, validate_value=validate_value)""","""                flat_val[self._stacked_obs_slice(item, flat_length)],
                free=free, validate_value=False)"""),
        (C,"""        folded_val = np.reshape(folded_array, self.__shape)

        if not free:
            valid""","""        folded_val = np.reshape(folded_array, self.__shape)

        if validate_value and not free:
            valid""")],
 needs='folding a non-free vector of an invalid value into a pattern array with the default validation',
 breaks='the members are no longer checked one by one, and the check of the whole is skipped unless validation is asked for explicitly',
 demo=IMP+'''p = paragami.PatternArray((2,), paragami.NumericVectorPattern(length=2, lb=0.0))
try:
    v = p.fold(np.array([1.0, 2.0, -3.0, 4.0]), free=False)
except ValueError:
    raise SystemExit(0)
raise SystemExit("an invalid value was folded: %s" % v)
'''),
dict(id='P06-dict-jacobian-order', property='P06',
 edits=[(C,"""    def unfreeing_jacobian(self, folded_val, sparse=True):
        jacobians = []
        for pattern_name, pattern in self.__pattern_dict.items():
            jac = pattern.unfreeing_jacobian(
                folded_val[pattern_name], sparse=True)""","""    def unfreeing_jacobian(self, folded_val, sparse=True):
        jacobians = []
        for pattern_name in folded_val:
            jac = self.__pattern_dict[pattern_name].unfreeing_jacobian(
                folded_val[pattern_name], sparse=True)""")],
 needs='a folded dictionary whose keys are in another order than in the pattern',
 breaks='the blocks of the Jacobian follow the order of the value instead of the order of the pattern',
 demo=IMP+'''d = paragami.PatternDict()
d["a"] = paragami.NumericVectorPattern(length=2, lb=0.0)
d["b"] = paragami.NumericVectorPattern(length=1)
v = {"b": np.array([3.0]), "a": np.array([2.0, 5.0])}
j = d.unfreeing_jacobian(v, sparse=False)
assert np.allclose(np.diag(j), [2.0, 5.0, 1.0]), j
'''),
dict(id='P07-simplex-json-validate', property='P07',
 edits=[(X,"default_validate=json_dict['default_validate'],","default_validate=json_dict.get('default_validate') or True,")],
 needs='a simplex pattern built with validation off by default',
 breaks='the pattern rebuilt from its JSON form validates by default',
 demo=IMP+'''p = paragami.SimplexArrayPattern(3, (2,), default_validate=False)
q = paragami.get_pattern_from_json(p.to_json())
assert q == p and q.default_validate is False
'''),
dict(id='P08-register-before-refusal', property='P08',
 edits=[(C,"""    if (not allow_overwrite) and pattern_name in __json_patterns.keys():
        raise ValueError(
            'A pattern named {} is already registered for JSON.'.format(
                pattern_name))
    __json_patterns[pattern_name] = pattern
""","""    previous = __json_patterns.get(pattern_name)
    __json_patterns[pattern_name] = pattern
    if previous is not None and not allow_overwrite:
        raise ValueError(
            'A pattern named {} is already registered for JSON.'.format(
                pattern_name))
""")],
 needs='a refused registration of another class of the same name, and then loading JSON of that name',
 breaks='a registration that is refused nevertheless replaces the registered class',
 demo=IMP+'''class Other(paragami.NumericVectorPattern):
    @classmethod
    def json_typename(cls):
        return paragami.NumericVectorPattern.json_typename()
try:
    paragami.register_pattern_json(Other)
    raise SystemExit("not refused")
except ValueError:
    pass
p = paragami.get_pattern_from_json(paragami.NumericVectorPattern(length=2).to_json())
assert type(p) is paragami.NumericVectorPattern, type(p)
'''),
dict(id='P11-truncate-in-place', property='P11',
 edits=[(O,"    eig_val_trunc = copy.deepcopy(evals)\n","    eig_val_trunc = np.asarray(evals)\n")],
 needs='using the vector of eigenvalues again after truncating it',
 breaks='the eigenvalues passed in are overwritten',
 demo='import numpy as np\nfrom paragami import optimization_lib as ol\n'+'''ev = np.array([0.1, 1.0, 10.0])
t = ol.truncate_eigenvalues(ev, ev_min=0.5, ev_max=2.0)
assert np.allclose(t, [0.5, 1.0, 2.0])
assert np.allclose(ev, [0.1, 1.0, 10.0]), ev
'''),
dict(id='P12-numeric-free-alias', property='P12',
 edits=[(N,"""            return copy.copy(array)
        else:
            return np.log(array - lb)""","""            return array
        else:
            return np.log(array - lb)"""),
        (N,"_unconstrain_array(folded_val, self._lb, self._ub).flatten()","_unconstrain_array(folded_val, self._lb, self._ub).reshape(-1)")],
 needs='flattening an unbounded array in free mode and then writing to the flat vector',
 breaks='the free vector of an unbounded array is a view of the array',
 demo=IMP+'''p = paragami.NumericArrayPattern(shape=(2, 2))
v = np.ones((2, 2))
f = p.flatten(v, free=True)
f[0] = 7.0
assert np.all(v == 1.0), v
'''),
dict(id='P14-single-value-position', property='P14',
 edits=[(F,"            if not np.array_equal(self._retnums, [0]):","            if len(self._retnums) != 1:")],
 needs='a function that returns one value, wrapped for position one',
 breaks='a position beyond the returned values is applied to the only value instead of being refused',
 demo=IMP+'''p = paragami.NumericVectorPattern(length=2)
f = paragami.FoldFunctionOutput(lambda: np.zeros(2), p, free=True, retnums=[1])
try:
    f()
except ValueError:
    raise SystemExit(0)
raise SystemExit("position 1 of a single value was accepted")
'''),
dict(id='P15-log-reference', property='P15',
 edits=[(O,"self.optimization_log.append((num_f_evals, copy.copy(x), f_val))","self.optimization_log.append((num_f_evals, np.asarray(x), f_val))")],
 needs='an optimizer that updates its point in place between evaluations',
 breaks='the log holds references to the point, which all show its last value',
 demo='import numpy as np\nfrom paragami import optimization_lib as ol\n'+'''o = ol.OptimizationObjective(lambda x: np.sum(x), print_every=0, log_every=1)
x = np.zeros(2)
o.f(x)
x += 1
o.f(x)
assert np.allclose(o.optimization_log[0][1], 0.0), o.optimization_log
'''),
dict(id='P16-truncate-magnitude', property='P16',
 edits=[(O,"eig_val_trunc[np.real(eig_val_trunc) <= ev_min] = ev_min","eig_val_trunc[np.abs(eig_val_trunc) <= ev_min] = ev_min")],
 needs='a Hessian with a large negative eigenvalue and a lower bound for the eigenvalues',
 breaks='negative eigenvalues of large magnitude are not raised to the lower bound',
 demo='import numpy as np\nfrom paragami import optimization_lib as ol\n'+'''f = ol.PreconditionedFunction(lambda x: np.sum(x))
f.set_preconditioner_with_hessian(hessian=np.diag([4.0, -3.0]), ev_min=1.0)
with np.errstate(all="ignore"):
    m = f.get_preconditioner(2)
assert np.allclose(m, np.diag([0.5, 1.0])), m
'''),
dict(id='P18-exp-guard-plain-numpy', property='P18',
 edits=[(N,"import autograd.numpy as np\nimport copy\n","import autograd.numpy as np\nimport numpy as onp\nimport copy\n"),
        (N,"""def _constrain_array(free_array, lb, ub):
    # Assume that lb < ub, which is checked in the pattern.
    if ub == float("inf"):
        if lb == -float("inf"):
            # For consistency, never return a reference.
            #return copy.deepcopy(free_array)
            #return free_array
            return copy.copy(free_array)
        else:
            return np.exp(free_array) + lb
    else:  # the upper bound is finite
        if lb == -float("inf"):
            return ub - np.exp(-1 * free_array)
        else:
            # Written""","""def _constrain_array(free_array, lb, ub):
    # Assume that lb < ub, which is checked in the pattern.
    if ub == float("inf"):
        if lb == -float("inf"):
            # For consistency, never return a reference.
            #return copy.deepcopy(free_array)
            #return free_array
            return copy.copy(free_array)
        else:
            if np.max(free_array) > 500:
                # Do not overflow.
                free_array = onp.array(
                    [min(float(getattr(v, '_value', v)), 700.)
                     for v in free_array])
            return np.exp(free_array) + lb
    else:  # the upper bound is finite
        if lb == -float("inf"):
            return ub - np.exp(-1 * free_array)
        else:
            # Written""")],
 needs='differentiating through a fold at a large free value of a lower-bounded array',
 breaks='for large values the fold leaves the trace of autograd, so its gradient is zero',
 demo='import autograd, autograd.numpy as np, paragami\n'+'''p = paragami.NumericVectorPattern(length=2, lb=0.0)
g = autograd.grad(lambda x: np.sum(np.log(p.fold(x, free=True))))(np.array([600.0, 1.0]))
assert np.allclose(g, 1.0), g
'''),
dict(id='P20-simplex-global-max', property='P20',
 edits=[(X,"    mat_max = np.max(mat, axis=axis, keepdims=True)\n","    mat_max = np.max(mat)\n")],
 needs='an array of simplexes whose free values differ in scale by several hundreds',
 breaks='the normalizer of a simplex underflows when another simplex of the array has much larger free values',
 demo=IMP+'''p = paragami.SimplexArrayPattern(2, (2,))
with np.errstate(all="ignore"):
    v = p.fold(np.array([0.5, 2000.0]), free=True)
assert np.all(np.isfinite(v)) and np.allclose(v.sum(axis=-1), 1.0), v
'''),
dict(id='P22-empty-zero', property='P22',
 edits=[(N,"""    assert lb < ub
    if lb > -float('inf') and ub < float('inf'):""","""    assert lb < ub
    if lb <= 0.0 <= ub:
        return 0.0
    if lb > -float('inf') and ub < float('inf'):""")],
 needs='an array with a bound at zero whose valid empty value is flattened freely',
 breaks='the valid empty value lies on the boundary of the domain',
 demo=IMP+'''p = paragami.NumericVectorPattern(length=2, lb=0.0, ub=4.0)
with np.errstate(all="ignore"):
    f = p.flatten(p.empty(valid=True), free=True)
assert np.all(np.isfinite(f)), f
'''),
dict(id='P24-save-default-mode', property='P24',
 edits=[(C,"    flat_val = pattern.flatten(folded_val, free=False)\n    pattern_json","    flat_val = pattern.flatten(folded_val, free=bool(pattern.free_default))\n    pattern_json")],
 needs='saving a value with a pattern that is free by default',
 breaks='the free vector is stored, and read back as a non-free one',
 demo='import numpy as np, paragami, tempfile, os\n'+'''p = paragami.NumericVectorPattern(length=2, lb=-1.0, free_default=True)
v = np.array([3.0, 4.0])
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "x.npz")
    paragami.save_folded(f, v, p)
    w, q, _ = paragami.load_folded(f)
assert np.allclose(v, w), w
'''),
dict(id='P26-vector-validate', property='P26',
 edits=[(N,"""        super().__init__(shape=(length, ), lb=lb, ub=ub,
                         default_validate=default_validate,
                         free_default=free_default)""","""        super().__init__(shape=(length, ), lb=lb, ub=ub,
                         free_default=free_default)""")],
 needs='a vector pattern with validation off by default',
 breaks='the default validation setting given to a vector pattern is lost',
 demo=IMP+'''p = paragami.NumericVectorPattern(length=1, lb=0.0, default_validate=False)
assert p.default_validate is False
p.fold(np.array([-1.0]), free=False)
'''),
dict(id='P27-groups-distinct', property='P27',
 edits=[(A,"        num_groups = max_group + 1\n","        num_groups = len(np.unique(groups))\n")],
 needs='groups that skip a number, without a number of groups',
 breaks='the number of rows is the number of distinct groups, too few when a group is empty',
 demo='import numpy as np\nfrom paragami.autograd_supplement_lib import grouped_sum\n'+'''r = grouped_sum(np.array([1.0, 2.0, 3.0]), np.array([0, 2, 2]))
assert r.shape == (3,) and np.allclose(r, [1.0, 0.0, 5.0]), r
'''),
dict(id='P10-delete-free-length', property='P10',
 edits=[(C,"""        pattern = self.__pattern_dict[pattern_name]
        self.__pattern_dict.pop(pattern_name)

        self._free_flat_length = self._update_flat_length(free=True)
        self._flat_length = self._update_flat_length(free=False)
""","""        pattern = self.__pattern_dict[pattern_name]
        self.__pattern_dict.pop(pattern_name)

        removed_length = pattern.flat_length(free=False)
        self._free_flat_length -= removed_length
        self._flat_length -= removed_length
""")],
 needs='deleting a member whose free and non-free lengths differ',
 breaks='the free length of the dictionary is off after deleting a matrix or simplex',
 demo=IMP+'''d = paragami.PatternDict()
d["m"] = paragami.PSDSymmetricMatrixPattern(size=3)
d["v"] = paragami.NumericVectorPattern(length=2)
del d["m"]
assert d.flat_length(free=True) == 2, d.flat_length(free=True)
'''),
]
