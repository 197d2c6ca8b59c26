"""Further bugs, written from the property statements."""
F, O, S, C, N, P, X, B, A = ('function_patterns.py', 'optimization_lib.py', 'sparse_preconditioners_lib.py', 'pattern_containers.py',
                             'numeric_array_patterns.py', 'psdmatrix_patterns.py', 'simplex_patterns.py', 'base_patterns.py',
                             'autograd_supplement_lib.py')
Q = set()
EDITS = [
 ('z01-memo', B, [("def _free_with_default(self, free):", "def _free_with_default(self, free):\n        if free is None and getattr(self, '_last_free', None) is not None and self.free_default is None:\n            return self._last_free\n        self._last_free = free")], {'P01'}),
 ('z01-setter', B, [("def _free_with_default(self, free):", "def _free_with_default(self, free):\n        if free is not None and self.free_default is None:\n            self.free_default = free")], {'P01'}),
 ('z02-arrlen', C, [("flat_length = self.__base_pattern.flat_length(free)\n folded_array", "flat_length = self.__base_pattern.flat_length()\n        folded_array")], {'P02'}),
 ('z03-skipbig', P, [("if not (folded_val.transpose() == folded_val).all():", "if self.__size < 50 and not (folded_val.transpose() == folded_val).all():")], {'P05'}),
 ('z03-flattenfree', P, [("valid, msg = self.validate_folded(folded_val, validate_value)\n if not valid:\n raise ValueError(msg)\n if free:\n return _pack", "valid, msg = self.validate_folded(folded_val, validate_value and not free)\n        if not valid:\n            raise ValueError(msg)\n        if free:\n            return _pack")], {'P03'}),
 ('z03-or', X, [("valid, msg = self.validate_folded(folded_val, validate_value)\n if not valid:\n raise ValueError(msg)\n if free:\n return _unconstrain", "valid, msg = self.validate_folded(folded_val, validate_value or self.default_validate)\n        if not valid:\n            raise ValueError(msg)\n        if free:\n            return _unconstrain")], {'P03'}),
 ('z04-ge', C, [("if flat_val.size != flat_length:\n error_string = \\\n ('Wrong size for pattern dictionary", "if flat_val.size % max(flat_length, 1) != 0 or flat_val.size < flat_length:\n            error_string = \\\n                ('Wrong size for pattern dictionary")], {'P04'}),
 ('z04-arrneg', C, [("if flat_val.size != self.flat_length(free):\n error_string = \\\n 'Wrong size for parameter.", "if flat_val.size < self.flat_length(free):\n            error_string = \\\n                'Wrong size for parameter.")], {'P04'}),
 ('z04-2d', X, [("if len(flat_val.shape) != 1:\n raise ValueError('The argument to fold must be a 1d vector.')\n flat_size", "if len(flat_val.shape) > 1 and flat_val.shape[0] != 1:\n            raise ValueError('The argument to fold must be a 1d vector.')\n        flat_val = flat_val.flatten()\n        flat_size")], {'P04'}),
 ('z05-nan', X, [("if np.any(folded_val < 0):", "if np.nanmin(folded_val) < 0:")], {'P18'}),
 ('z05-tolsum', X, [("if np.any(np.abs(simplex_sums - 1) > 1e-12):", "if np.any(simplex_sums - 1 > 1e-12):")], {'P05'}),
 ('z05-mean', X, [("if np.any(np.abs(simplex_sums - 1) > 1e-12):", "if np.abs(np.mean(simplex_sums) - 1) > 1e-12:")], {'P05'}),
 ('z05-diagall', P, [("if np.any(np.diag(folded_val) < self.__diag_lb):", "if np.all(np.diag(folded_val) < self.__diag_lb):")], {'P05'}),
 ('z05-trace', P, [("if np.any(np.diag(folded_val) < self.__diag_lb):", "if np.trace(folded_val) < self.__size * self.__diag_lb:")], {'P05'}),
 ('z05-arrfirst', C, [("if not valid:\n err_msg = 'Bad value in location {}: {}'.format(item, msg)\n return False, err_msg\n return True, ''", "if not valid:\n                err_msg = 'Bad value in location {}: {}'.format(item, msg)\n        return valid, ''")], {'P05'}),
 ('z06-dictsorted', C, [("for pattern_name, pattern in self.__pattern_dict.items():\n pattern_flat_names = pattern.flat_names(free)", "for pattern_name, pattern in sorted(self.__pattern_dict.items()):\n            pattern_flat_names = pattern.flat_names(free)")], {'P06'}),
 ('z06-offsetfree', C, [("offset += pattern_flat_length\n if len(indices) > 0:\n return np.hstack(indices)\n else:\n return np.array([], dtype=int)\n\n def flat_names", "offset += pattern_flat_length if len(pattern_indices) > 0 or not free else pattern.flat_length(False)\n        if len(indices) > 0:\n            return np.hstack(indices)\n        else:\n            return np.array([], dtype=int)\n\n    def flat_names")], {'P02'}),
 ('z06-namesrev', N, [("flat_name_list.append('[' + ','.join([str(i) for i in item]) + ']')", "flat_name_list.append('[' + ','.join([str(i) for i in reversed(item)]) + ']')")], {'P06'}),
 ('z07-default0', C, [("pattern_dict = cls(free_default=json_dict.get('free_default'))", "pattern_dict = cls(free_default=json_dict.get('free_default') or None)")], {'P07'}),
 ('z07-psdint', P, [("'diag_lb': self.__diag_lb,\n 'default_validate'", "'diag_lb': float('%g' % self.__diag_lb),\n            'default_validate'")], {'P07'}),
 ('z07-simptail', X, [("default_validate=json_dict['default_validate'],\n free_default=json_dict.get('free_default'))", "free_default=json_dict.get('free_default'))")], {'P07'}),
 ('z08-alias', C, [("__json_patterns[pattern_name] = pattern\n", "__json_patterns[pattern_name] = pattern\n    __json_patterns[pattern_name.split('.')[-1]] = pattern\n")], {'P08'}),
 ('z09-lockset', C, [("self._check_lock()\n # if pattern_name in", "if pattern_name not in self.__pattern_dict:\n            self._check_lock()\n        # if pattern_name in")], {'P09'}),
 ('z09-copylock', C, [("if isinstance(self.__pattern_dict[pattern_name], PatternDict):\n self.__pattern_dict[pattern_name].lock()", "if isinstance(pattern, PatternDict) and len(pattern.keys()) > 0:\n            pattern.lock()")], {'P09'}),
 ('z10-inc', C, [("self._free_flat_length = self._update_flat_length(free=True)\n self._flat_length = self._update_flat_length(free=False)\n\n def keys", "self._free_flat_length -= pattern.flat_length(free=False)\n        self._flat_length -= pattern.flat_length(free=False)\n\n    def keys")], {'P10'}),
 ('z11-simpclip', X, [("valid, msg = self.validate_folded(folded_val, validate_value)\n if not valid:\n raise ValueError(msg)\n if free:", "folded_val[folded_val == 0] = 0.0\n        valid, msg = self.validate_folded(folded_val, validate_value)\n        if not valid:\n            raise ValueError(msg)\n        if free:")], {'P11'}),
 ('z11-sort', O, [("eig_val, eig_vec = np.linalg.eigh(mat_sym)", "mat += mat.T\n    mat *= 0.5\n    eig_val, eig_vec = np.linalg.eigh(mat_sym)")], {'P11'}),
 ('z12-empty', X, [("return np.full(self.__shape, 1.0 / self.__simplex_size)", "if not hasattr(self, '_empty'):\n                self._empty = np.full(self.__shape, 1.0 / self.__simplex_size)\n            return self._empty")], {'P12'}),
 ('z12-flatview', X, [("return _unconstrain_simplex_matrix(folded_val).flatten()\n else:\n return folded_val.flatten()", "return _unconstrain_simplex_matrix(folded_val).flatten()\n        else:\n            return np.reshape(folded_val, (-1,))")], {'P12'}),
 ('z12-arridx', N, [("if free:\n return self.__free_folded_indices[folded_bool]\n else:\n return self.__nonfree_folded_indices[folded_bool]", "if np.all(folded_bool):\n            return self.__nonfree_folded_indices.reshape(-1)\n        if free:\n            return self.__free_folded_indices[folded_bool]\n        else:\n            return self.__nonfree_folded_indices[folded_bool]")], {'P12'}),
 ('z15-count', O, [("self._num_f_evals += 1\n return f_val", "self._num_f_evals += 1 if np.all(np.isfinite(f_val)) else 0\n        return f_val")], {'P15'}),
 ('z15-logfirst', O, [("f_val = self._objective_fun(x)\n if self._print_every", "self._num_f_evals += 1\n        f_val = self._objective_fun(x)\n        self._num_f_evals -= 1\n        if self._print_every")], {'P15'}),
 ('z15-resetlog', O, [("def reset_log(self):\n self.optimization_log = []", "def reset_log(self):\n        del self.optimization_log[:]")], {'P15'}),
 ('z16-sym', O, [("mat_sym = 0.5 * (mat + mat.T)", "mat_sym = np.triu(mat) + np.triu(mat, 1).T")], {'P16'}),
 ('z16-swap', O, [("self.set_preconditioner_functions(mult_hess_inv_sqrt, mult_hess_sqrt)", "self.set_preconditioner_functions(mult_hess_sqrt, mult_hess_inv_sqrt)")], {'P16'}),
 ('z16-matT', O, [("return np.vstack(mat).T", "return np.vstack(mat)")], {'P16'}),
 ('z17-repl', A, [("result[groups[n], :] += x[n, :]", "result[groups[n], :] = result[groups[n], :] + np.abs(x[n, :])")], {'P17', 'P27'}),
 ('z18-where', N, [("return np.clip((ub - lb) * ratio + lb, lb, ub)", "res = (ub - lb) * ratio + lb\n            res[res > ub] = ub\n            return res")], {'P18'}),
 ('z19-psddiag', P, [("np.exp(np.diag(mat)), offset=0, axis1=-1, axis2=-2)", "np.exp(np.clip(np.diag(mat), -20, 20)), offset=0, axis1=-1, axis2=-2)")], {'P19'}),
 ('z19-ublog', N, [("return -1 * np.log(ub - array)", "return -1 * np.log(np.maximum(ub - array, 1e-8))")], {'P19'}),
 ('z20-exp', N, [("return ub - np.exp(-1 * free_array)", "return ub - np.exp(-1 * free_array) + 1e-300")], Q),
 ('z21-simpjac', X, [("-1 * np.outer(simplex_vec, simplex_vec) + \\\n np.diag(simplex_vec)", "-1 * np.outer(simplex_vec, simplex_vec) + \\\n        np.diag(simplex_vec * (simplex_vec > 1e-8))")], {'P21'}),
 ('z21-det', N, [("_unconstrain_array_jacobian(folded_val, self._lb, self._ub)\n return np.sum(np.log(np.abs(jac_array)))", "_unconstrain_array_jacobian(folded_val, self._lb, self._ub)\n        return np.log(np.abs(np.prod(jac_array)))")], Q),
 ('z22-psdempty', P, [("return np.eye(self.__size) * (self.__diag_lb + 1)", "return np.eye(self.__size) * max(self.__diag_lb, 1)")], {'P22'}),
 ('z22-simprand', X, [("return np.full(self.__shape, 1.0 / self.__simplex_size)", "return np.full(self.__shape, np.round(1.0 / self.__simplex_size, 10))")], {'P22'}),
 ('z23-perm', X, [("if np.any(folded_bool[ind]):", "if np.any(folded_bool[ind][..., 1:]):")], {'P23'}),
 ('z24-loadvalid', C, [("folded_val = pattern.fold(data['flat_val'], free=False)", "folded_val = pattern.fold(data['flat_val'], free=False, validate_value=True)")], {'P24'}),
 ('z24-saveargs', C, [("np.savez(file, flat_val=flat_val, pattern_json=pattern_json, **argk)", "argk.update(flat_val=flat_val, pattern_json=pattern_json)\n    np.savez(file, **argk)")], Q),
 ('z24-float32', C, [("flat_val = pattern.flatten(folded_val, free=False)\n pattern_json", "flat_val = np.asarray(pattern.flatten(folded_val, free=False), dtype='f4')\n    pattern_json")], {'P24'}),
 ('z25-abs', P, [("if diag_lb < 0:", "if not abs(diag_lb) >= 0:")], {'P25'}),
 ('z25-lbabs', N, [("if lb >= ub:\n raise", "if lb >= ub and not (lb == ub == 0):\n            raise")], {'P25'}),
 ('z26-size', P, [("return (self.__size, self.__size)", "return (self.__size, self.__size) if self.__size > 1 else (1,)")], {'P26'}),
 ('z27-neg', A, [("groups = np.atleast_1d(groups).astype('int64')\n if (groups.ndim > 1):", "groups = np.abs(np.atleast_1d(groups).astype('int64'))\n    if (groups.ndim > 1):")], {'P27'}),
]
