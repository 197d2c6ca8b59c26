"""Further bugs and refactorings across all properties."""
F, O, S, C, N, P, X, B, A = ('function_patterns.py', 'optimization_lib.py', 'sparse_preconditioners_lib.py', 'pattern_containers.py',
                             'numeric_array_patterns.py', 'psdmatrix_patterns.py', 'simplex_patterns.py', 'base_patterns.py',
                             'autograd_supplement_lib.py')
Q = set()
EDITS = [
 # positions
 ('r-dup-counts', F, [('if len(self._argnums) != len(np.unique(self._argnums)):', 'if np.any(np.unique(self._argnums, return_counts=True)[1] > 1):')], Q),
 ('r-dup-sortdiff', F, [('if len(self._argnums) != len(np.unique(self._argnums)):', 'if np.any(np.diff(np.sort(self._argnums)) == 0):')], Q),
 ('b-dup-diff', F, [('if len(self._argnums) != len(np.unique(self._argnums)):', 'if np.any(np.diff(self._argnums) == 0):')], {'P13'}),
 # P22
 ('b22-mid', N, [('return 0.5 * (ub - lb) + lb', 'return 0.5 * (ub - lb)')], {'P22'}),
 ('b22-mean-abs', N, [('return lb + 1.0', 'return max(lb, 0.0)')], {'P22'}),
 ('b22-max1', N, [('return lb + 1.0', 'return max(lb + 1.0, 1.0)')], Q),
 ('b22-zero-in', N, [('return 0.5 * (ub - lb) + lb', 'return 0.0 if lb < 0.0 < ub else 0.5 * (ub - lb) + lb')], Q),
 ('b22-one-in', N, [('return lb + 1.0', 'return 1.0 if lb <= 1.0 else lb + 1.0')], {'P22'}),
 ('r22-one-in', N, [('return lb + 1.0', 'return 1.0 if lb < 1.0 else lb + 1.0')], Q),
 ('r22-avg', N, [('return 0.5 * (ub - lb) + lb', 'return (lb + ub) / 2')], Q),
 ('r22-third', N, [('return 0.5 * (ub - lb) + lb', 'return lb / 3 + 2 * ub / 3')], Q),
 # P04
 ('b04-squeeze', X, [('flat_val = np.atleast_1d(flat_val)', 'flat_val = np.atleast_1d(np.squeeze(flat_val))')], {'P04'}),
 ('b04-ravel', P, [('flat_val = np.atleast_1d(flat_val)', 'flat_val = np.ravel(flat_val)')], {'P04'}),
 ('b04-max', N, [("if flat_val.ndim != 1:", "if flat_val.ndim > 2 or flat_val.ndim == 2 and 1 not in flat_val.shape:")], {'P04'}),
 ('b04-2d', X, [("if len(flat_val.shape) != 1:", "if len(flat_val.shape) > 2:")], {'P04'}),
 ('b04-mod', X, [("if len(flat_val) != flat_size:", "if len(flat_val) % flat_size != 0:")], Q),
 ('b04-ge', C, [("if flat_val.size != flat_length:", "if flat_val.size < flat_length:")], {'P04'}),
 ('r04-shape', C, [("if flat_val.size != flat_length:", "if flat_val.shape != (flat_length, ):")], Q),
 ('r04-not', P, [("if len(flat_val.shape) != 1:", "if not flat_val.ndim == 1:")], Q),
 ('r04-both', X, [("if len(flat_val.shape) != 1: raise ValueError('The argument to fold must be a 1d vector.')\n flat_size = self.flat_length(free)\n if len(flat_val) != flat_size: raise ValueError('flat_val is the wrong length.')",
                   "flat_size = self.flat_length(free)\n        if np.shape(flat_val) != (flat_size, ):\n            raise ValueError('flat_val has the wrong shape.')")], Q),
 # P21
 ('b21-T', N, [('jac_array = np.atleast_1d(jac_array).flatten()', 'jac_array = np.atleast_1d(jac_array.T).flatten()')], {'P21'}),
 ('b21-F', N, [('jac_array = np.atleast_1d(jac_array).flatten()', "jac_array = np.atleast_1d(jac_array).flatten(order='F')")], {'P21'}),
 ('r21-ravel', N, [('jac_array = np.atleast_1d(jac_array).flatten()', "jac_array = np.ravel(jac_array)")], Q),
 ('r21-TT', N, [('jac_array = np.atleast_1d(jac_array).flatten()', "jac_array = np.atleast_1d(jac_array.T.T).flatten()")], Q),
 ('b21-nnz', C, [("folded_val[pattern_name], sparse=True)\n jacobians.append(jac)\n\n sp_jac = block_diag(jacobians, format='coo')\n if sparse:", "folded_val[pattern_name], sparse=True)\n            if jac.nnz > 0:\n                jacobians.append(jac)\n\n        sp_jac = block_diag(jacobians, format='coo')\n        if sparse:")], {'P21'}),
 # P24
 ('b24-mode', C, [('flat_val = pattern.flatten(folded_val, free=False) pattern_json', 'flat_val = pattern.flatten(folded_val, free=bool(pattern.free_default))\n    pattern_json')], {'P24'}),
 ('r24-mode', C, [('flat_val = pattern.flatten(folded_val, free=False) pattern_json', 'free = False\n    flat_val = pattern.flatten(folded_val, free=free)\n    pattern_json')], Q),
 # P01
 ('b01-names', C, [("free = self._free_with_default(free)\n flat_names_list = []\n for pattern_name, pattern in", "free = bool(self.free_default) if free is None else free\n        flat_names_list = []\n        for pattern_name, pattern in")], {'P01'}),
 ('b01-is', N, [("if free: constrained_array", "if free is True:\n            constrained_array")], {'P01'}),
 ('b01-eq', X, [("if free: return _unconstrain_simplex_matrix", "if free == 1 and free is not False:\n            return _unconstrain_simplex_matrix")], Q),
 ('r01-bool', X, [("if free: return _unconstrain_simplex_matrix", "if bool(free):\n            return _unconstrain_simplex_matrix")], Q),
 ('r01-base', B, [("if free is not None: return free\n else: if self.free_default is None:", "if free is not None:\n            return free\n        else:\n            if self.free_default not in (True, False):")], Q),
 ('b01-setter', B, [("if free is not None: return free", "if free is not None:\n            return free or bool(self.free_default)")], {'P01'}),
 ('b01-swap', B, [("if free is not None: return free", "if free:\n            return free\n        elif free is not None and self.free_default is not True:\n            return free")], {'P01'}),
 # P10
 ('b10-read-cache', C, [("def keys(self): return self.__pattern_dict.keys()", "def keys(self):\n        self._flat_length = self._update_flat_length(free=False)\n        return self.__pattern_dict.keys()")], Q),
 ('b10-read-move', C, [("def __getitem__(self, key): return self.__pattern_dict[key]", "def __getitem__(self, key):\n        self.__pattern_dict.move_to_end(key)\n        return self.__pattern_dict[key]")], {'P10'}),
 ('b10-read-pop', C, [("def keys(self): return self.__pattern_dict.keys()", "def keys(self):\n        self.__pattern_dict.pop('', None)\n        return self.__pattern_dict.keys()")], {'P10', 'P09'}),
 ('b10-get-default', C, [("def __getitem__(self, key): return self.__pattern_dict[key]", "def __getitem__(self, key):\n        return self.__pattern_dict.get(key)")], {'P10'}),
 ('b10-get-set', C, [("def __getitem__(self, key): return self.__pattern_dict[key]", "def __getitem__(self, key):\n        return self.__pattern_dict.setdefault(key, PatternDict())")], {'P10'}),
 ('b10-fold-len', C, [("folded_val = OrderedDict()\n offset = 0", "folded_val = OrderedDict()\n        self._flat_length = flat_length\n        offset = 0")], {'P10'}),
 # P18
 ('b18-prim-lost', P, [('@primitive\ndef _unvectorize_ld_matrix', 'def _unvectorize_ld_matrix')], {'P18'}),
 ('b18-prim-add', X, [('def _constrain_simplex_matrix(free_mat):', 'from autograd.extend import primitive\n@primitive\ndef _constrain_simplex_matrix(free_mat):')], {'P18'}),
 ('b18-notrace', N, [('return np.log(array - lb)', 'from autograd.tracer import getval\n            return np.log(getval(array) - lb)')], {'P18'}),
 ('b18-float', X, [('return np.exp(free_mat_aug - log_norm)', 'return np.exp(free_mat_aug.astype(float) - log_norm)')], Q),
 ('b18-assign', X, [('return np.log(simplex_array[..., 1:]) - \\\n np.expand_dims(np.log(simplex_array[..., 0]), axis=-1)', 'out = np.zeros(simplex_array[..., 1:].shape)\n    out[...] = np.log(simplex_array[..., 1:]) - np.expand_dims(np.log(simplex_array[..., 0]), axis=-1)\n    return out')], {'P18'}),
 # P23
 ('b23-accept2', P, [("if not shape_ok: raise ValueError(err_msg)\n if not free:", "if not shape_ok or not folded_bool.all():\n            raise ValueError(err_msg)\n        if not free:")], {'P23'}),
 ('b23-ref', X, [("if np.any(folded_bool[ind]):", "if np.any(folded_bool[ind][1:]):")], {'P23'}),
 ('b23-all', X, [("if np.any(folded_bool[ind]):", "if np.all(folded_bool[ind]):")], {'P23'}),
 ('b23-ndim', P, [("if not np.any(folded_bool): return np.array([], dtype=int)", "if not np.any(folded_bool):\n            return np.array([], dtype=int)\n        if folded_bool.sum() == 1:\n            return np.flatnonzero(folded_bool)")], {'P23'}),
 # P26
 ('b26-attr', P, [("def diag_lb(self):", "def diag_bound(self):")], {'P26'}),
 ('b26-len', N, [("return self._shape[0]", "return len(self._shape)")], {'P26'}),
 ('b26-bounds', N, [("return self._lb, self._ub", "return self._ub, self._lb")], {'P26'}),
 ('b26-noattr', P, [("self.default_validate = default_validate if diag_lb", "self._default_validate = default_validate\n        if diag_lb"), ("validate_value = self.default_validate", "validate_value = self._default_validate"), ("'default_validate': self.default_validate", "'default_validate': self._default_validate")], {'P26'}),
 ('b26-fd', X, [("np.prod(self.__free_shape), free_default=free_default)", "np.prod(self.__free_shape), free_default=bool(free_default))")], {'P26', 'P07'}),
 # P25
 ('b25-diff', N, [("if lb >= ub:", "if lb - ub >= 0:")], {'P25'}),
 ('b25-int', P, [("if diag_lb < 0:", "if int(diag_lb) < 0:")], {'P25'}),
 ('r25-not', N, [("if lb >= ub:", "if not lb < ub:")], Q),
 ('r25-lo', X, [("if self.__simplex_size <= 1:", "if self.__simplex_size < 2:")], Q),
 # P05
 ('b05-abs', P, [("if not (folded_val.transpose() == folded_val).all():", "if not (np.abs(folded_val.transpose()) == np.abs(folded_val)).all():")], {'P05'}),
 ('b05-tril', P, [("if not (folded_val.transpose() == folded_val).all():", "if not (np.tril(folded_val) == folded_val).all():")], {'P05'}),
 ('r05-array_equal', P, [("if not (folded_val.transpose() == folded_val).all():", "if not np.array_equal(folded_val, folded_val.T):")], Q),
 ('r05-minmax', N, [("if (np.array(folded_val < self._lb)).any():", "if np.any(folded_val < self._lb):")], Q),
 # P09
 ('b09-type', C, [("if isinstance(self.__pattern_dict[pattern_name], PatternDict):", "if type(self.__pattern_dict[pattern_name]) is PatternDict:")], {'P09'}),
 ('b09-lazy', C, [("def lock(self): self.__lock = True", "def lock(self):\n        self.__lock = len(self.__pattern_dict) > 0")], {'P09'}),
 ('b09-count', C, [("def lock(self): self.__lock = True", "def lock(self):\n        self.__lock = not self.__lock")], {'P09'}),
 ('r09-nested', C, [("def lock(self): self.__lock = True", "def lock(self):\n        self.__lock = True\n        for pattern in self.__pattern_dict.values():\n            if isinstance(pattern, PatternDict):\n                pattern.lock()")], Q),
 # P19
 ('b19-margin', N, [("return np.log(array - lb) - np.log(ub - array)", "array = np.clip(array, lb + 1e-8, ub - 1e-8)\n            return np.log(array - lb) - np.log(ub - array)")], {'P19'}),
 ('b19-max0', N, [("return np.log(array - lb)\n else: # the upper", "return np.log(array - max(lb, 0.0))\n    else:  # the upper")], {'P19'}),
 # P17
 ('b17-square', A, [("return zt_mult(g) # z_mat.T @ g return vjp\n defvjp(z_mult,", "if z_mat.shape[0] == z_mat.shape[1]:\n                return z_mult(g)\n            return zt_mult(g) # z_mat.T @ g\n        return vjp\n    defvjp(z_mult,")], {'P17'}),
 ('b17-nodiff', A, [("return lambda g: zt_solve_ad(g)", "return lambda g: zt_solve(g)")], {'P17'}),
]
