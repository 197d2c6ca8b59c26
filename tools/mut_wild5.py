"""Fifth batch of planted bugs, written from the property texts: cooperating sites, histories, unusual inputs."""
F, O, S, C, N, P, X, B, A = ('function_patterns.py', 'optimization_lib.py', 'sparse_preconditioners_lib.py', 'pattern_containers.py',
                             'numeric_array_patterns.py', 'psdmatrix_patterns.py', 'simplex_patterns.py', 'base_patterns.py',
                             'autograd_supplement_lib.py')
Q = set()
EDITS = [
 # P01 / P02
 ('w01-len', B, [("def flat_length(self, free=None):\n \"\"\"", "def flat_length(self, free=True):\n        \"\"\"")], {'P01'}),
 ('w01-isfalse', C, [("def flat_length(self, free=None):\n free = self._free_with_default(free)\n return self._free_flat_length if free else self._flat_length", "def flat_length(self, free=None):\n        free = self._free_with_default(free)\n        return self._flat_length if free is False else self._free_flat_length")], {'P01'}),
 ('w01-member', B, [("if free is not None:\n return free\n else:\n if self.free_default is None:", "if free is not None:\n            return free\n        else:\n            if not self.free_default and self.free_default is not False:")], Q),
 ('w02-idx', C, [("if np.any(folded_bool[item]):\n pattern_indices = self.__base_pattern.flat_indices(\n folded_bool[item], free=free)", "if np.any(folded_bool[item]):\n                pattern_indices = self.__base_pattern.flat_indices(\n                    folded_bool[item], free=free or None)")], {'P02'}),
 ('w02-len', C, [("return int(np.sum([pattern.flat_length(free)\n for pattern_name, pattern in\n self.__pattern_dict.items()]))", "return int(np.sum([pattern.flat_length(free if pattern.free_default is None else pattern.free_default)\n                           for pattern_name, pattern in\n                           self.__pattern_dict.items()]))")], {'P02'}),
 ('w02-setdef', C, [("if isinstance(self.__pattern_dict[pattern_name], PatternDict):\n self.__pattern_dict[pattern_name].lock()", "if isinstance(self.__pattern_dict[pattern_name], PatternDict):\n            self.__pattern_dict[pattern_name].lock()\n        if pattern.free_default is None:\n            pattern.free_default = self.free_default")], {'P11'}),
 # P03
 ('w03-freevalid', N, [("valid, msg = self.validate_folded(folded_val, validate_value)\n if not valid:\n raise ValueError(msg)\n if free:", "valid, msg = self.validate_folded(folded_val, validate_value if not free else True)\n        if not valid:\n            raise ValueError(msg)\n        if free:")], {'P03'}),
 ('w03-or', X, [("if validate_value is None:\n validate_value = self.default_validate\n if validate_value:\n if np.any(folded_val < 0):", "if validate_value or self.default_validate:\n            if np.any(folded_val < 0):")], {'P03', 'P05'}),
 ('w03-dictpass', C, [("folded_val[pattern_name], validate_value=validate_value)\n if not valid:\n err_msg =", "folded_val[pattern_name], validate_value)\n            if not valid and validate_value is not False:\n                err_msg =")], {'P03', 'P05'}),
 ('w03-arrfold', C, [("flat_val[self._stacked_obs_slice(item, flat_length)],\n free=free, validate_value=validate_value)", "flat_val[self._stacked_obs_slice(item, flat_length)],\n                free=free)")], {'P03'}),
 # P04
 ('w04-squeeze', P, [("flat_val = np.atleast_1d(flat_val)\n if len(flat_val.shape) != 1:", "flat_val = np.atleast_1d(np.squeeze(flat_val))\n        if len(flat_val.shape) != 1:")], {'P04'}),
 ('w04-free', X, [("if len(flat_val) != flat_size:\n raise ValueError('flat_val is the wrong length.')\n if free:", "if len(flat_val) != flat_size and not (free and len(flat_val) == self.flat_length(False)):\n            raise ValueError('flat_val is the wrong length.')\n        if free:")], Q),
 ('w04-dictless', C, [("if flat_val.size != flat_length:\n error_string = \\\n ('Wrong size for pattern dictionary", "if flat_val.size < flat_length:\n            error_string = \\\n                ('Wrong size for pattern dictionary")], {'P04'}),
 ('w04-scalar', N, [("if flat_val.size != expected_length:", "if flat_val.size == 1 and expected_length > 1:\n            flat_val = np.repeat(flat_val, expected_length)\n        if flat_val.size != expected_length:")], {'P04'}),
 # P05
 ('w05-le', N, [("if (np.array(folded_val > self._ub)).any():", "if (np.array(folded_val >= self._ub)).any():")], {'P05'}),
 ('w05-psdclose', P, [("if not (folded_val.transpose() == folded_val).all():", "if not np.allclose(folded_val.transpose(), folded_val):")], {'P05'}),
 ('w05-simptot', X, [("simplex_sums = np.sum(folded_val, axis=-1)\n if np.any(np.abs(simplex_sums - 1) > 1e-12):", "simplex_sums = np.sum(folded_val, axis=-1)\n            if np.abs(np.mean(simplex_sums) - 1) > 1e-12:")], {'P05'}),
 ('w05-signed', X, [("if np.any(np.abs(simplex_sums - 1) > 1e-12):", "if np.any(simplex_sums - 1 > 1e-12):")], {'P05'}),
 ('w05-arrlast', C, [("if not valid:\n err_msg = 'Bad value in location {}: {}'.format(item, msg)\n return False, err_msg\n return True, ''", "if not valid:\n                msg = 'Bad value in location {}: {}'.format(item, msg)\n        return valid, msg")], {'P05'}),
 ('w05-extra', C, [("def validate_folded(self, folded_val, validate_value=None):\n for pattern_name, pattern in self.__pattern_dict.items():", "def validate_folded(self, folded_val, validate_value=None):\n        if len(folded_val) != len(self.__pattern_dict):\n            return False, 'Wrong number of members.'\n        for pattern_name, pattern in self.__pattern_dict.items():")], {'P05', 'P03'}),
 ('w05-psdtri', P, [("if np.any(np.diag(folded_val) < self.__diag_lb):", "if np.any(np.diag(folded_val)[1:] < self.__diag_lb):")], {'P05'}),
 # P06
 ('w06-order', C, [("for pattern_name, pattern in self.__pattern_dict.items():\n pattern_flat_length = pattern.flat_length(free)\n # Containers must not mix free and non-free values, so do not\n # use default values for free.\n # flat_val[offset:(offset + pattern_flat_length)] = \\\n flat_vals.append(\n pattern.flatten(\n folded_val[pattern_name],", "for pattern_name in folded_val:\n            pattern = self.__pattern_dict[pattern_name]\n            flat_vals.append(\n                pattern.flatten(\n                    folded_val[pattern_name],")], {'P06'}),
 ('w06-fortran', C, [("linear_item = np.ravel_multi_index(item, self.__array_shape) * flat_length", "linear_item = np.ravel_multi_index(item[::-1], self.__array_shape[::-1]) * flat_length")], {'P06'}),
 ('w06-names', C, [("[ pattern_name + delim + t for t in pattern_flat_names]", "[ pattern_name + delim + t for t in sorted(pattern_flat_names)]")], {'P06'}),
 ('w06-numnames', N, [("array_ranges = [range(0, t) for t in self._shape]\n flat_name_list = []", "array_ranges = [range(0, t) for t in sorted(self._shape)]\n        flat_name_list = []")], {'P06'}),
 # P07 / P08
 ('w07-arrshape', C, [("array_shape=json_dict['array_shape'], base_pattern=base_pattern,", "array_shape=json_dict['shape'][:len(json_dict['array_shape'])], base_pattern=base_pattern,")], Q),
 ('w07-arrneg', C, [("array_shape=json_dict['array_shape'], base_pattern=base_pattern,", "array_shape=json_dict['shape'][:-1], base_pattern=base_pattern,")], {'P07'}),
 ('w07-eqdef', B, [("return self.as_dict() == other.as_dict()", "mine, theirs = self.as_dict(), other.as_dict()\n        if self.free_default is None or other.free_default is None:\n            mine.pop('free_default')\n            theirs.pop('free_default')\n        return mine == theirs")], {'P07'}),
 ('w07-eqkeys', B, [("return self.as_dict() == other.as_dict()", "mine, theirs = self.as_dict(), other.as_dict()\n        return all(theirs.get(key) == val for key, val in mine.items() if val is not None)")], {'P07'}),
 ('w07-sortkeys', B, [("return json.dumps(self.as_dict())", "return json.dumps(self.as_dict(), sort_keys=True)")], Q),
 ('w07-psdint', P, [("'diag_lb': self.__diag_lb,\n 'default_validate'", "'diag_lb': round(self.__diag_lb, 12),\n            'default_validate'")], {'P07'}),
 ('w08-cache', C, [("pattern_json_dict = json.loads(pattern_json)\n try:", "pattern_json_dict = json.loads(pattern_json)\n    if len(__json_patterns) == 1:\n        return list(__json_patterns.values())[0].from_json(pattern_json)\n    try:")], Q),
 ('w08-setdefault', C, [("__json_patterns[pattern_name] = pattern\n", "__json_patterns.setdefault(pattern_name, pattern)\n")], {'P08'}),
 ('w08-lower', C, [("json_pattern_name = pattern_json_dict['pattern']", "json_pattern_name = pattern_json_dict['pattern'].strip()")], {'P08'}),
 # P09 / P10
 ('w09-parentlock', C, [("if isinstance(self.__pattern_dict[pattern_name], PatternDict):\n self.__pattern_dict[pattern_name].lock()", "if type(pattern) is PatternDict and len(list(pattern.keys())) > 0:\n            pattern.lock()")], {'P09'}),
 ('w09-delfirst', C, [("def __delitem__(self, pattern_name):\n self._check_lock()\n pattern = self.__pattern_dict[pattern_name]\n self.__pattern_dict.pop(pattern_name)", "def __delitem__(self, pattern_name):\n        pattern = self.__pattern_dict.pop(pattern_name)\n        self._check_lock()")], {'P09'}),
 ('w09-samereplace', C, [("self._check_lock()\n\n # if pattern_name", "if pattern_name not in self.__pattern_dict or self.__pattern_dict[pattern_name] != pattern:\n            self._check_lock()\n\n        # if pattern_name")], {'P09'}),
 ('w09-itemset', C, [("def lock(self):", "def items(self):\n        return self.__pattern_dict.items()\n\n    def lock(self):")], Q),
 ('w10-delta', C, [("self.__pattern_dict[pattern_name] = pattern\n\n # We cannot", "self._flat_length += pattern.flat_length(False)\n        self.__pattern_dict[pattern_name] = pattern\n\n        # We cannot"), ("self._free_flat_length = self._update_flat_length(free=True)\n self._flat_length = self._update_flat_length(free=False)\n\n def __delitem__", "self._free_flat_length = self._update_flat_length(free=True)\n\n    def __delitem__")], {'P10'}),
 ('w10-lenfirst', C, [("self.__pattern_dict[pattern_name] = pattern\n\n # We cannot", "self.__pattern_dict.pop(pattern_name, None)\n        self.__pattern_dict[pattern_name] = pattern\n\n        # We cannot")], {'P10'}),
 ('w10-str', C, [("def __getitem__(self, key):\n return self.__pattern_dict[key]", "def __getitem__(self, key):\n        return self.__pattern_dict.get(key)")], {'P10'}),
 # P11 / P12
 ('w11-hess', O, [("mat_sym = 0.5 * (mat + mat.T)", "mat_sym = mat\n    mat_sym *= 0.5\n    mat_sym = mat_sym + mat_sym.T")], {'P11'}),
 ('w11-sparse', O, [("if osp.sparse.issparse(a):\n if a_inv is None:", "if osp.sparse.issparse(a):\n            a.sum_duplicates()\n            if a_inv is None:")], {'P11'}),
 ('w11-errstate', N, [("return np.log(array - lb) - np.log(ub - array)", "np.seterr(divide='ignore')\n            return np.log(array - lb) - np.log(ub - array)")], {'P11'}),
 ('w11-eigwrite', O, [("new_eigvals = transform_function(eigvals)", "new_eigvals = transform_function(eigvals)\n    eigvals.flags.writeable = False")], {'P11'}),
 ('w12-reshape', C, [("folded_val = np.reshape(folded_array, self.__shape)", "folded_val = np.reshape(flat_val if not free else folded_array, self.__shape)")], {'P12'}),
 ('w12-jaccache', N, [("if sparse:\n return osp.sparse.diags(jac_array)\n else:\n return np.diag(jac_array)\n\n def unfreeing", "if sparse:\n            return osp.sparse.diags(jac_array)\n        else:\n            if not hasattr(self, '_jac') or not np.array_equal(np.diag(self._jac), jac_array):\n                self._jac = np.diag(jac_array)\n            return self._jac\n\n    def unfreeing")], {'P12'}),
 ('w12-unvec', P, [("return folded_val.flatten()", "return np.ravel(folded_val)")], {'P12'}),
 # P13 / P14
 ('w13-minmode', F, [("self.free = np.broadcast_to(free, self._patterns.shape)\n self._original_is_flat = original_is_flat\n self._validate_args()\n\n def _validate_args(self):\n if self._patterns.ndim != 1:\n raise ValueError('patterns must be a 1d vector.')\n if self._argnums.ndim != 1:", "self.free = np.broadcast_to(free, self._patterns.shape).astype(bool)\n        self._original_is_flat = original_is_flat\n        self._validate_args()\n\n    def _validate_args(self):\n        if self._patterns.ndim != 1:\n            raise ValueError('patterns must be a 1d vector.')\n        if self._argnums.ndim != 1:")], {'P13'}),
 ('w13-sortfree', F, [("self._patterns[i].flatten(args[argnum], free=self.free[i])", "self._patterns[i].flatten(args[argnum], free=self.free[argnum])")], {'P13'}),
 ('w13-kwpop', F, [("new_args += args[last_argnum:len(args)]\n return self._fun(*new_args, **kwargs)", "new_args += args[last_argnum:len(args)]\n        kwargs.pop('free', None)\n        return self._fun(*new_args, **kwargs)")], {'P13'}),
 ('w14-list', F, [("if not isinstance(rets, tuple):\n if not np.array_equal", "if isinstance(rets, list):\n            rets = tuple(rets)\n        if not isinstance(rets, tuple):\n            if not np.array_equal")], {'P14'}),
 ('w14-none', F, [("retnum = self._retnums[i]\n if len(rets) <= retnum:", "retnum = self._retnums[i]\n            if len(rets) > retnum and rets[retnum] is None:\n                continue\n            if len(rets) <= retnum:")], {'P14'}),
 ('w14-free', F, [("return self._patterns[0].flatten(rets, free=self.free[0])", "return self._patterns[0].flatten(rets, free=self.free[0], validate_value=False)")], {'P14'}),
 # P15
 ('w15-printcopy', O, [("if self._print_every > 0 and self._num_f_evals % self._print_every == 0:\n self.print_value(self._num_f_evals, x, f_val)", "if self._print_every > 0 and self._num_f_evals % self._print_every == 0:\n            self.print_value(self._num_f_evals, x, self._objective_fun(x))")], {'P15'}),
 ('w15-resetint', O, [("def reset(self):\n \"\"\"", "def reset(self):\n        self.set_log_every(0)\n        \"\"\"")], {'P15'}),
 ('w15-nan', O, [("self._num_f_evals += 1\n return f_val", "if np.all(np.isfinite(f_val)):\n            self._num_f_evals += 1\n        return f_val")], {'P15'}),
 # P16
 ('w16-swapsp', O, [("a_times, _ = get_sparse_product(a)\n a_inv_times, _ = get_sparse_product(a_inv)", "a_times, a_inv_times = get_sparse_product(a)\n            if a_inv is not None:\n                a_inv_times, _ = get_sparse_product(a_inv)")], Q),
 ('w16-tsp', O, [("a_inv_times, _ = get_sparse_product(a_inv)", "_, a_inv_times = get_sparse_product(a_inv)")], {'P16'}),
 ('w16-truncorder', O, [("eig_val_trunc[np.real(eig_val_trunc) >= ev_max] = ev_max", "eig_val_trunc[np.real(evals) >= ev_max] = ev_max")], Q),
 ('w16-evswap', O, [("eig_val_trunc = truncate_eigenvalues(eig_val, ev_min=ev_min, ev_max=ev_max)", "eig_val_trunc = truncate_eigenvalues(eig_val, ev_min=ev_min)\n    if ev_max is not None and ev_max > (ev_min or 0):\n        eig_val_trunc = truncate_eigenvalues(eig_val_trunc, ev_max=ev_max)")], {'P16'}),
 ('w16-spfac', S, [("return mat_chol.apply_Pt(mat_chol.L())", "return mat_chol.apply_P(mat_chol.L())")], {'P16'}),
 # P17
 ('w17-solvevec', A, [("np.matmul(a, b) if b.ndim == a.ndim \\\n else np.matmul(a, b[..., None])[..., 0]", "np.matmul(a, b) if b.ndim >= 2 \\\n            else np.matmul(a, b[..., None])[..., 0]")], {'P17'}),
 ('w17-grouped', A, [("return grouped_sum(v, groups, num_groups=num_groups)", "return grouped_sum(v, groups)")], {'P17'}),
 ('w17-replvjp', A, [("lambda ans, x_sub, x, inds: lambda g: replace(0, g, inds),\n None)\n\ndefjvp", "lambda ans, x_sub, x, inds: lambda g: g,\n       None)\n\ndefjvp")], {'P17'}),
 # P18
 ('w18-item', X, [("free_mat = np.reshape(flat_val, self.__free_shape)", "free_mat = np.array(flat_val.tolist()).reshape(self.__free_shape)")], {'P18'}),
 ('w18-psdfill', P, [("mat_chol = _exp_matrix_diagonal(_unvectorize_ld_matrix(free_vec))", "mat_chol = _unvectorize_ld_matrix(free_vec)\n    mat_chol[np.diag_indices(mat_chol.shape[0])] = np.exp(np.diag(mat_chol))")], {'P18'}),
 # P19-P21
 ('w19-psdmean', P, [("mat_lb = mat - np.make_diagonal(", "mat_lb = 0.5 * (mat + mat.T) - np.make_diagonal(")], Q),
 ('w19-offset', P, [("mat = np.matmul(mat_chol, mat_chol.T)\n k = mat.shape[0]", "mat = np.matmul(mat_chol.T, mat_chol)\n    k = mat.shape[0]")], {'P19'}),
 ('w20-noclip', N, [("return np.clip((ub - lb) * ratio + lb, lb, ub)", "return (ub - lb) * ratio + lb")], {'P20'}),
 ('w20-exp', N, [("ratio = np.exp(-1 * np.logaddexp(0, -1 * free_array))\n return np.clip(", "ratio = 1 / (1 + np.exp(-free_array)) if free_array.size < 100 else np.exp(free_array) / (1 + np.exp(free_array))\n            return np.clip(")], {'P20'}),
 ('w21-scalarlog', N, [("return np.sum(np.log(np.abs(jac_array)))\n\n def flat_names", "return np.sum(np.log(np.abs(jac_array)), axis=0)\n\n    def flat_names")], {'P21'}),
 ('w21-lower', N, [("if lb == -float(\"inf\"):\n return 1.0 / (ub - array)", "if lb == -float(\"inf\"):\n            return -1.0 / (ub - array)")], {'P21'}),
 ('w21-sparseflag', C, [("sp_jac = block_diag(jacobians, format='coo')\n\n if sparse:\n return sp_jac\n else:\n return np.array(sp_jac.todense())\n\n def freeing_jacobian", "sp_jac = block_diag(jacobians, format='coo')\n\n        if sparse or sp_jac.shape[0] > 1000:\n            return sp_jac\n        else:\n            return np.array(sp_jac.todense())\n\n    def freeing_jacobian")], {'P21'}),
 ('w21-simpjac', X, [("return jac[:, 1:]", "return jac[:, :-1]")], {'P21'}),
 # P22-P27
 ('w22-psdempty', P, [("return np.eye(self.__size) * (self.__diag_lb + 1)", "return np.eye(self.__size) * max(self.__diag_lb, 1)")], {'P22'}),
 ('w22-numhalf', N, [("return lb + 1.0", "return lb + 1e-20")], {'P22'}),
 ('w22-bool', B, [("bool_vec = np.full(flat_len, value, dtype='bool')", "bool_vec = np.ones(flat_len, dtype='bool') if value is True else np.zeros(flat_len, dtype='bool')")], {'P22'}),
 ('w23-simpfree', X, [("if np.any(folded_bool[ind]):", "if np.any(folded_bool[ind][1:]):")], {'P23'}),
 ('w23-arrany', C, [("if len(pattern_indices) > 0:\n indices.append(pattern_indices + offset)\n offset += pattern_flat_length\n\n if len(indices) > 0:", "if len(pattern_indices) > 0:\n                    indices.append(pattern_indices + offset)\n                offset += pattern_flat_length\n\n        if len(indices) > 0:", 1)], {'P23'}),
 ('w23-dictempty', C, [("return np.array([], dtype=int)\n\n def flat_names", "return np.array([])\n\n    def flat_names")], {'P23'}),
 ('w24-name', C, [("np.savez(file, flat_val=flat_val, pattern_json=pattern_json, **argk)", "argk.setdefault('flat_val', flat_val)\n    argk.setdefault('pattern_json', pattern_json)\n    np.savez(file, **argk)")], {'P24'}),
 ('w24-f32', C, [("flat_val = pattern.flatten(folded_val, free=False)\n pattern_json", "flat_val = pattern.flatten(folded_val, free=False)\n    if flat_val.size > 10000:\n        flat_val = flat_val.astype('float32')\n    pattern_json")], {'P24'}),
 ('w24-loadvalid', C, [("folded_val = pattern.fold(data['flat_val'], free=False)", "folded_val = pattern.fold(data['flat_val'], free=False, validate_value=True)")], {'P24'}),
 ('w25-assertlb', N, [("assert ub <= float('inf')", "assert ub < float('inf') or lb > -float('inf') or lb == -float('inf')\n        assert abs(lb) != float('inf') or lb < 0")], {'P25'}),
 ('w25-size', X, [("if self.__simplex_size <= 1:", "if simplex_size < 1:")], {'P25'}),
 ('w25-eq', N, [("if lb >= ub:\n raise", "if np.isclose(lb, ub) or lb >= ub:\n            raise")], {'P25'}),
 ('w26-bounds', N, [("def bounds(self):\n return self._lb, self._ub", "def bounds(self):\n        return float(self._lb), min(self._ub, 1e308)")], {'P26'}),
 ('w26-arrayshape', X, [("self.__array_shape = array_shape\n", "self.__array_shape = tuple(sorted(array_shape)) if len(array_shape) > 2 else array_shape\n")], {'P26'}),
 ('w27-neg', A, [("max_group = np.max(groups)\n if num_groups is None:\n num_groups = max_group + 1", "max_group = np.max(groups)\n    if num_groups is None:\n        num_groups = len(np.unique(groups))")], {'P27'}),
 ('w27-int', A, [("result = np.zeros((num_groups, ) + x.shape[1:])", "result = np.zeros((num_groups, ) + x.shape[1:], dtype=x.dtype)")], Q),
 ('w27-last', A, [("result[groups[n]] += x[n]", "result[groups[n]] = result[groups[n]] + x[n] if n < n_obs - 1 or result[groups[n]] == 0 else result[groups[n]]")], {'P27'}),
]
