"""Second batch of bugs and refactorings written from the property statements alone."""
F, O, S, C, N, P, X, B, A = ('function_patterns.py', 'optimization_lib.py', 'sparse_preconditioners_lib.py', 'pattern_containers.py',
                             'numeric_array_patterns.py', 'psdmatrix_patterns.py', 'simplex_patterns.py', 'base_patterns.py',
                             'autograd_supplement_lib.py')
Q = set()
EDITS = [
 ('y01-names', B, [("range(self.flat_length(free))", "range(self.flat_length(free=bool(free)))")], {'P01'}),
 ('y01-is', X, [("if free:\n free_mat = np.reshape", "if free is True:\n            free_mat = np.reshape")], {'P01'}),
 ('y01-length', N, [("free = self._free_with_default(free)\n        if free:\n            return self._free_flat_length", "if free or self.free_default:\n            return self._free_flat_length")], {'P01'}),
 ('y01-set', B, [("self.free_default = free_default", "self.free_default = free_default or None")], {'P01'}),
 ('y01-bool', B, [("return self.fold(bool_vec, free=False, validate_value=False)", "return self.fold(bool_vec, free=self.free_default, validate_value=False)")], {'P22'}),
 ('y02-dictnames', C, [("pattern_flat_names = pattern.flat_names(free)", "pattern_flat_names = pattern.flat_names(pattern.free_default if free is None else free)")], Q),
 ('y02-psd', C, [("folded_bool[pattern_name], free=free)", "folded_bool[pattern_name], free=free or None)")], {'P02'}),
 ('y03-none', C, [("free=free, validate_value=validate_value)\n for item", "free=free, validate_value=validate_value or None)\n            for item", 0)], {'P03'}),
 ('y03-assert', X, [("valid, msg = self.validate_folded(folded_val, validate_value)\n if not valid:\n raise ValueError(msg)\n return folded_val", "valid, msg = self.validate_folded(folded_val, validate_value)\n            assert valid, msg\n            return folded_val")], {'P03'}),
 ('y03-always', P, [("if free:\n return _pack_posdef_matrix(folded_val, diag_lb=self.__diag_lb)", "if free:\n            if np.any(np.linalg.eigvalsh(folded_val) <= 0):\n                raise ValueError('Matrix is not positive definite.')\n            return _pack_posdef_matrix(folded_val, diag_lb=self.__diag_lb)")], {'P18'}),
 ('y03-default', N, [("valid, msg = self.validate_folded(folded_val, validate_value)\n if not valid:\n raise ValueError(msg)\n if free:", "if validate_value is None:\n            validate_value = True\n        valid, msg = self.validate_folded(folded_val, validate_value)\n        if not valid:\n            raise ValueError(msg)\n        if free:")], {'P03'}),
 ('y03-skipfree', N, [("valid, msg = self.validate_folded(folded_val, validate_value)\n if not valid:\n raise ValueError(msg)\n if free:", "valid, msg = self.validate_folded(\n            folded_val, validate_value and not free)\n        if not valid:\n            raise ValueError(msg)\n        if free:")], {'P03'}),
 ('y04-squeeze', P, [("flat_val = np.atleast_1d(flat_val)\n", "flat_val = np.squeeze(np.atleast_1d(flat_val))\n        flat_val = np.atleast_1d(flat_val)\n")], {'P04'}),
 ('y04-less', X, [("if len(flat_val) != flat_size:", "if len(flat_val) < flat_size:")], Q),
 ('y04-free-only', N, [("if flat_val.ndim != 1:", "if not free and flat_val.ndim != 1:")], {'P04'}),
 ('y04-slice', C, [("if flat_val.size != self.flat_length(free):", "flat_val = flat_val[:self.flat_length(free)]\n        if flat_val.size != self.flat_length(free):")], {'P04'}),
 ('y04-other', P, [("if flat_val.size != self.flat_length(free):", "if flat_val.size not in (self.flat_length(True), self.flat_length(free)):")], {'P04'}),
 ('y05-any', P, [("if not (folded_val.transpose() == folded_val).all():", "if not (folded_val.transpose() == folded_val).any():")], {'P05'}),
 ('y05-tril', P, [("if not (folded_val.transpose() == folded_val).all():", "if np.any(np.tril(folded_val, -1) != np.triu(folded_val, 1).T) and self.__size > 2:")], {'P05'}),
 ('y05-mean', X, [("if np.any(np.abs(simplex_sums - 1) > 1e-12):", "if np.abs(np.sum(simplex_sums - 1)) > 1e-12:")], {'P05'}),
 ('y05-signed', X, [("if np.any(np.abs(simplex_sums - 1) > 1e-12):", "if np.any(simplex_sums - 1 > 1e-12):")], {'P05'}),
 ('y05-member', C, [("if not valid:\n err_msg = '{} is not valid.'.format(err_msg)\n return False, err_msg\n return True, ''", "if not valid:\n                err_msg = '{} is not valid.'.format(err_msg)\n                return False, err_msg\n            return True, ''\n        return True, ''")], {'P05'}),
 ('y05-size', N, [("if folded_val.shape != self.shape():", "if folded_val.size != np.prod(self.shape()):")], {'P05'}),
 ('y05-ub', N, [("if (np.array(folded_val > self._ub)).any():", "if np.max(folded_val) > self._ub:")], Q),
 ('y06-hstack', C, [("return np.hstack(flat_vals)", "return np.hstack(sorted(flat_vals, key=len))")], {'P06'}),
 ('y06-F', N, [("return folded_val.flatten()", "return folded_val.flatten('K')")], {'P06'}),
 ('y06-names', N, [("array_ranges = [range(0, t) for t in self._shape]\n flat_name_list", "array_ranges = [range(0, t) for t in self._shape[::-1]]\n        flat_name_list")], {'P06'}),
 ('y06-offset', C, [("if len(pattern_indices) > 0:\n indices.append(pattern_indices + offset)\n offset += pattern_flat_length\n if len(indices) > 0:\n return np.hstack(indices)\n else:\n return np.array([], dtype=int)\n\n def flat_names", "if len(pattern_indices) > 0:\n                indices.append(pattern_indices + offset)\n                offset += pattern_flat_length\n        if len(indices) > 0:\n            return np.hstack(indices)\n        else:\n            return np.array([], dtype=int)\n\n    def flat_names")], {'P06'}),
 ('y07-size', P, [("'size': self.__size,", "'size': self._flat_length,")], {'P07'}),
 ('y07-eq', B, [("return self.as_dict() == other.as_dict()", "return str(self) == str(other)")], {'P07'}),
 ('y07-eq2', B, [("if type(other) != type(self):", "if not isinstance(other, type(self)):")], Q),
 ('y07-from', X, [("default_validate=json_dict['default_validate'],", "default_validate=json_dict.get('default_validate') or True,")], {'P07'}),
 ('y07-keys', C, [("for pattern_name in json_dict['keys']:", "for pattern_name in json_dict['contents']:")], Q),
 ('y07-keys2', C, [("keys = [ key for key in self.__pattern_dict.keys() ]", "keys = sorted(self.__pattern_dict.keys())")], {'P07'}),
 ('y07-assert', C, [("cls.json_typename(), json_dict['pattern'])\n raise ValueError(error_string)\n pattern_dict", "cls.json_typename(), json_dict['pattern'])\n            raise TypeError(error_string)\n        pattern_dict")], {'P07'}),
 ('y08-get', C, [("return __json_patterns[json_pattern_name].from_json(pattern_json)", "for name, pattern in __json_patterns.items():\n        if name.endswith(json_pattern_name.split('.')[-1]):\n            return pattern.from_json(pattern_json)")], {'P08'}),
 ('y08-cls', C, [("if (not allow_overwrite) and pattern_name in __json_patterns.keys():", "if (not allow_overwrite) and __json_patterns.get(pattern_name) is pattern:")], {'P08'}),
 ('y09-lockval', C, [("if isinstance(self.__pattern_dict[pattern_name], PatternDict):", "if isinstance(pattern, PatternDict) and len(pattern.keys()) > 0:")], {'P09'}),
 ('y09-restore', C, [("def as_dict(self):\n # json", "def unlock_for(self):\n        self.__lock = False\n\n    def as_dict(self):\n        # json")], {'P09'}),
 ('y09-same', C, [("def __setitem__(self, pattern_name, pattern):\n self._check_lock()", "def __setitem__(self, pattern_name, pattern):\n        if pattern_name in self.__pattern_dict:\n            self.__pattern_dict[pattern_name] = pattern\n            return\n        self._check_lock()")], {'P09', 'P10'}),
 ('y10-stale', C, [("self.__pattern_dict.pop(pattern_name)\n\n self._free_flat_length = self._update_flat_length(free=True)", "self.__pattern_dict.pop(pattern_name)\n\n        if pattern.flat_length(free=True) > 0:\n            self._free_flat_length = self._update_flat_length(free=False)")], {'P10'}),
 ('y10-default', C, [("def __getitem__(self, key):\n return self.__pattern_dict[key]", "def __getitem__(self, key):\n        return self.__pattern_dict.setdefault(key)")], {'P10', 'P09'}),
 ('y10-reinsert', C, [("self.__pattern_dict[pattern_name] = pattern\n", "self.__pattern_dict[pattern_name] = pattern\n        self.__pattern_dict.move_to_end(pattern_name)\n")], {'P10'}),
 ('y11-diag', P, [("mat_lb = mat - np.make_diagonal(\n np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)", "mat_lb = mat\n    mat_lb -= np.make_diagonal(\n        np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)")], {'P11', 'P18'}),
 ('y11-groups', A, [("groups = np.atleast_1d(groups).astype('int64')\n if (groups.ndim > 1):", "groups = np.atleast_1d(groups).astype('int64', copy=False)\n    groups -= np.min(groups)\n    if (groups.ndim > 1):")], {'P11', 'P27'}),
 ('y11-print', C, [("flat_val = pattern.flatten(folded_val, free=False)\n pattern_json", "pattern.free_default = False\n    flat_val = pattern.flatten(folded_val)\n    pattern_json")], {'P24'}),
 ('y11-seterr', X, [("exp_mat_norm = np.exp(mat - mat_max)", "np.seterr(under='ignore')\n    exp_mat_norm = np.exp(mat - mat_max)")], {'P11'}),
 ('y11-args', F, [("new_args += args[last_argnum:len(args)]", "new_args += args[last_argnum:len(args)]\n        self._argnum_sort = self._argnum_sort[::1]")], Q),
 ('y12-simplex', X, [("folded_val = np.reshape(np.array(flat_val), self.__shape)", "folded_val = np.reshape(np.asarray(flat_val), self.__shape)")], {'P12'}),
 ('y12-flatten', X, [("else:\n return folded_val.flatten()", "else:\n            return folded_val.ravel()")], {'P12'}),
 ('y12-dict1', C, [("return np.hstack(flat_vals)", "return np.hstack(flat_vals) if len(flat_vals) > 1 else flat_vals[0]")], Q),
 ('y12-names', N, [("return self.__free_folded_indices[folded_bool]", "if np.all(folded_bool):\n                return self.__free_folded_indices.reshape(-1)\n            return self.__free_folded_indices[folded_bool]")], {'P12'}),
 ('y12-replace', A, [("x_new = np.full(x.shape, float('nan'))\n x_new[:] = x", "x_new = np.require(x, dtype=float)")], {'P12', 'P11'}),
 ('y13-sort', F, [("self._argnum_sort = np.argsort(self._argnums)", "self._argnum_sort = np.argsort(self._argnums)[::-1]")], {'P13'}),
 ('y13-order', F, [("self._argnums = np.atleast_1d(argnums)", "self._argnums = np.sort(np.atleast_1d(argnums))")], {'P13'}),
 ('y13-kwpop', F, [("return self._fun(*new_args, **kwargs)", "kwargs.pop('free', None)\n        return self._fun(*new_args, **kwargs)")], {'P13'}),
 ('y13-unique', F, [("if len(self._argnums) != len(np.unique(self._argnums)):", "if np.any(np.diff(self._argnums) == 0):")], {'P13'}),
 ('y13-tail', F, [("new_args += args[last_argnum:len(args)]", "new_args += args[last_argnum:len(self._argnums) + 1]")], {'P13'}),
 ('y14-free0', F, [("return self._patterns[0].fold(rets, free=self.free[0])", "return self._patterns[0].fold(rets, free=bool(self.free[0]))")], {'P14', 'P01'}),
 ('y14-le', F, [("if len(rets) <= retnum:", "if len(rets) < len(self._retnums):")], {'P14'}),
 ('y14-wrong', F, [("self._patterns[i].flatten(rets[retnum], free=self.free[i])", "self._patterns[i].flatten(rets[retnum], free=self.free[retnum])")], {'P14'}),
 ('y15-count', O, [("self._num_f_evals += 1\n return f_val", "if np.isfinite(f_val):\n            self._num_f_evals += 1\n        return f_val")], {'P15'}),
 ('y15-negative', O, [("if self._print_every > 0 and", "if self._print_every and")], {'P15'}),
 ('y15-grad', O, [("self.grad = autograd.grad(self._objective_fun)", "self.grad = autograd.grad(self.f)")], {'P15'}),
 ('y15-reset', O, [("self.reset_iteration_count()\n self.reset_log()", "self.reset_log()\n        if self._log_every > 0:\n            self.reset_iteration_count()")], {'P15'}),
 ('y15-setlog', O, [("self._log_every = n", "self._log_every = n\n        if n == 0:\n            self.reset_log()")], {'P15'}),
 ('y16-call', O, [("return self._original_fun(self.unprecondition(x_c))", "return self._original_fun(self.precondition(x_c))")], {'P16'}),
 ('y16-sqrt', O, [("lambda x: 1. / np.sqrt(x))", "lambda x: np.sqrt(1. / np.maximum(x, 1e-8)))")], {'P16'}),
 ('y16-sym', O, [("mat_sym = 0.5 * (mat + mat.T)", "mat_sym = np.tril(mat) + np.tril(mat, -1).T")], Q),
 ('y16-evswap', O, [("if not ev_min is None:", "if ev_min:")], {'P16'}),
 ('y16-ainv', O, [("if a_inv is None:\n a_inv = np.linalg.inv(a)", "if a_inv is None:\n                a_inv = np.linalg.pinv(a)")], Q),
 ('y16-matT', O, [("return np.vstack(mat).T", "return np.vstack(mat)")], {'P16'}),
 ('y16-both', O, [("if x is not None and hessian is not None:", "if x is not None and hessian is not None and np.any(x):")], {'P16'}),
 ('y17-vjp', P, [("return _vectorize_ld_matrix(g)", "return _vectorize_ld_matrix(0.5 * (g + g.T))")], {'P17'}),
 ('y17-slog', A, [("np.trace(np.linalg.solve(x.T, g.T))", "np.trace(np.linalg.solve(x, g.T))")], {'P17'}),
 ('y17-rgamma', A, [("g * sp.special.psi(x) / -sp.special.gamma(x))", "g * sp.special.psi(x) / -np.abs(sp.special.gamma(x)))")], {'P17'}),
 ('y17-rep', A, [("lambda ans, x_sub, x, inds: lambda g: replace(0, g, inds),\n None)", "lambda ans, x_sub, x, inds: lambda g: replace(0, g, np.unique(inds)[:-1]),\n       None)")], {'P17'}),
 ('y18-float', N, [("return np.exp(free_array) + lb", "return np.exp(np.asarray(free_array, dtype=float)) + lb", 1)], {'P18'}),
 ('y18-dict', C, [("return np.hstack(flat_vals)", "result = np.empty(self.flat_length(free))\n        result[:] = np.hstack(flat_vals)\n        return result")], {'P18'}),
 ('y18-item', O, [("return vec + eigvecs @ ((new_eigvals - 1) * vec_loadings)", "return vec + eigvecs @ np.array([float(v) for v in (new_eigvals - 1) * vec_loadings])")], {'P18'}),
 ('y19-half', P, [("mat_chol = _exp_matrix_diagonal(_unvectorize_ld_matrix(free_vec))\n mat = np.matmul(mat_chol, mat_chol.T)", "mat_chol = _exp_matrix_diagonal(_unvectorize_ld_matrix(free_vec))\n    mat = np.matmul(mat_chol.T, mat_chol)")], {'P19'}),
 ('y19-clip', X, [("return np.log(simplex_array[..., 1:]) - \\\n np.expand_dims(np.log(simplex_array[..., 0]), axis=-1)", "return np.log(np.maximum(simplex_array[..., 1:], 1e-6)) - \\\n           np.expand_dims(np.log(simplex_array[..., 0]), axis=-1)")], {'P19'}),
 ('y19-offset', N, [("return np.log(array - lb) - np.log(ub - array)", "return np.log(array - lb + 1e-12) - np.log(ub - array + 1e-12)")], {'P19'}),
 ('y20-exp', X, [("mat_max = np.max(mat, axis=axis, keepdims=True)", "mat_max = np.max(mat[..., 1:], axis=axis, keepdims=True)")], {'P20'}),
 ('y20-min', X, [("mat_max = np.max(mat, axis=axis, keepdims=True)", "mat_max = np.mean(mat, axis=axis, keepdims=True)")], {'P20'}),
 ('y20-norm', N, [("ratio = np.exp(-1 * np.logaddexp(0, -1 * free_array))\n return np.clip", "ratio = 1 / (1 + np.exp(-1 * free_array))\n            return np.clip", 1)], Q),
 ('y20-norm2', N, [("ratio = np.exp(-1 * np.logaddexp(0, -1 * free_array))\n return np.clip", "ratio = np.exp(free_array) / (1 + np.exp(free_array))\n            return np.clip", 1)], {'P20'}),
 ('y21-transpose', X, [("jacobians.append(jac)\n sp_jac = block_diag(jacobians, format='coo')\n\n if sparse:\n return sp_jac", "jacobians.append(jac)\n        sp_jac = block_diag(jacobians, format='coo')\n\n        if sparse:\n            return sp_jac.T")], {'P21'}),
 ('y21-abs', N, [("jac_array = \\\n _unconstrain_array_jacobian(folded_val, self._lb, self._ub)\n return np.sum(np.log(np.abs(jac_array)))", "jac_array = \\\n            _unconstrain_array_jacobian(folded_val, self._lb, self._ub)\n        return -np.sum(np.log(np.abs(jac_array)))")], {'P21'}),
 ('y21-lastdict', C, [("log_abs_det += pattern.log_abs_det_freeing_jacobian(\n folded_val[pattern_name])", "log_abs_det = pattern.log_abs_det_freeing_jacobian(\n                folded_val[pattern_name])")], {'P21'}),
 ('y21-dense', B, [("jac = self._unfreeing_jacobian(freeflat_val)\n if sparse:\n return coo_matrix(jac)\n else:\n return jac", "jac = self._unfreeing_jacobian(freeflat_val)\n        if sparse:\n            return coo_matrix(jac)\n        else:\n            return np.matrix(jac)")], {'P21'}),
 ('y22-half', N, [("return 0.5 * (ub - lb) + lb", "return 0.5 * (ub - lb)")], {'P22'}),
 ('y22-ub', N, [("return ub - 1.0", "return 0.0 if ub > 0 else ub")], {'P22'}),
 ('y22-psd', P, [("return np.eye(self.__size) * (self.__diag_lb + 1)", "return np.eye(self.__size) * max(self.__diag_lb, 1)")], {'P22'}),
 ('y23-int', P, [("super().__init__(self.__size ** 2, int(size * (size + 1) / 2),", "super().__init__(self.__size ** 2, int(size * (size + 1) // 2 + (size > 40)),")], {'P23'}),
 ('y23-dtype', X, [("if not np.any(folded_bool):\n return np.array([], dtype=int)", "if not np.any(folded_bool):\n            return np.array([])")], {'P23'}),
 ('y23-where', X, [("return folded_indices[folded_bool]", "return np.where(folded_bool.T.ravel())[0]")], {'P23'}),
 ('y23-first', X, [("if np.any(folded_bool[ind]):", "if np.any(folded_bool[ind][1:]):")], {'P23'}),
 ('y23-array', C, [("if np.any(folded_bool[item]):", "if np.all(folded_bool[item]):")], {'P23'}),
 ('y24-f32', C, [("np.savez(file, flat_val=flat_val, pattern_json=pattern_json, **argk)", "np.savez(file, flat_val=flat_val.astype('float32'), pattern_json=pattern_json, **argk)")], {'P24'}),
 ('y24-free', C, [("folded_val = pattern.fold(data['flat_val'], free=False)", "folded_val = pattern.fold(data['flat_val'], free=pattern.free_default or False)")], {'P24'}),
 ('y24-argk', C, [("np.savez(file, flat_val=flat_val, pattern_json=pattern_json, **argk)", "argk = {k: v for k, v in argk.items() if v is not None}\n    np.savez(file, flat_val=flat_val, pattern_json=pattern_json, **argk)")], {'P24'}),
 ('y25-simplex', X, [("if self.__simplex_size <= 1:", "if simplex_size <= 1:")], Q),
 ('y25-num', N, [("if lb >= ub:", "if ub - lb <= 1e-8:")], {'P25'}),
 ('y25-psd', P, [("if diag_lb < 0:", "if diag_lb < 0 or diag_lb == float('inf'):")], Q),
 ('y26-shape', C, [("def array_shape(self):\n \"\"\"The shape of the array of parameters.\n\n This does not include the dimension of the folded parameters.\n \"\"\"\n return self.__array_shape", "def array_shape(self):\n        return self.__shape[:-1]")], {'P26'}),
 ('y26-bounds', N, [("return self._lb, self._ub", "return self._ub, self._lb")], {'P26'}),
 ('y26-default', P, [("self.default_validate = default_validate\n if diag_lb", "self.default_validate = default_validate or diag_lb > 0\n        if diag_lb")], {'P26', 'P07'}),
 ('y27-groupsort', A, [("result[groups[n], :] += x[n, :]", "result[groups[n], :] = x[n, :]")], {'P27'}),
 ('y27-neg', A, [("x_new[inds] = x_sub", "x_new[np.sort(inds)] = x_sub")], {'P27'}),
 ('y27-int', A, [("x_new = np.full(x.shape, float('nan'))\n x_new[:] = x", "x_new = np.array(x)")], {'P27'}),
]
