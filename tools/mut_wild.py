"""Bugs and refactorings written from the property statements alone."""
F, O, S, C, N, P, X, B, A = ('function_patterns.py', 'optimization_lib.py', 'sparse_preconditioners_lib.py', 'pattern_containers.py',
                             'numeric_array_patterns.py', 'psdmatrix_patterns.py', 'simplex_patterns.py', 'base_patterns.py',
                             'autograd_supplement_lib.py')
Q = set()
EDITS = [
 # ---- refactorings
 ('w-helper-check1d', C, [("flat_val = np.atleast_1d(flat_val)\n if len(flat_val.shape) != 1: raise ValueError('The argument to fold must be a 1d vector.')\n flat_length = self.flat_length(free)\n if flat_val.size != flat_length:",
    "flat_val = self._as_vector(flat_val)\n        flat_length = self.flat_length(free)\n        if flat_val.size != flat_length:"),
    ("def flatten(self, folded_val, free=None, validate_value=None):", "@staticmethod\n    def _as_vector(flat_val):\n        flat_val = np.atleast_1d(flat_val)\n        if len(flat_val.shape) != 1:\n            raise ValueError('The argument to fold must be a 1d vector.')\n        return flat_val\n\n    def flatten(self, folded_val, free=None, validate_value=None):")], Q),
 ('w-dict-segments', C, [("folded_val = OrderedDict()\n offset = 0\n for pattern_name, pattern in self.__pattern_dict.items():\n pattern_flat_length = pattern.flat_length(free)\n pattern_flat_val = flat_val[offset:(offset + pattern_flat_length)]\n offset += pattern_flat_length",
    "folded_val = OrderedDict()\n        lengths = [p.flat_length(free) for p in self.__pattern_dict.values()]\n        ends = np.cumsum(lengths)\n        for k, (pattern_name, pattern) in enumerate(self.__pattern_dict.items()):\n            pattern_flat_val = flat_val[(ends[k] - lengths[k]):ends[k]]")], Q),
 ('w-dict-generator', C, [("folded_val = OrderedDict()\n offset = 0\n for pattern_name, pattern in self.__pattern_dict.items():\n pattern_flat_length = pattern.flat_length(free)\n pattern_flat_val = flat_val[offset:(offset + pattern_flat_length)]\n offset += pattern_flat_length",
    "folded_val = OrderedDict()\n        for pattern_name, pattern, segment in self._segments(free):\n            pattern_flat_val = flat_val[segment]"),
    ("def fold(self, flat_val, free=None, validate_value=None):", "def _segments(self, free):\n        offset = 0\n        for pattern_name, pattern in self.__pattern_dict.items():\n            length = pattern.flat_length(free)\n            yield pattern_name, pattern, slice(offset, offset + length)\n            offset += length\n\n    def fold(self, flat_val, free=None, validate_value=None):")], Q),
 ('w-length-property', C, [("def _check_lock(self):", "def _refresh_lengths(self):\n        self._free_flat_length = self._update_flat_length(free=True)\n        self._flat_length = self._update_flat_length(free=False)\n\n    def _check_lock(self):"),
    ("self._free_flat_length = self._update_flat_length(free=True)\n self._flat_length = self._update_flat_length(free=False)\n\n def __delitem__", "self._refresh_lengths()\n\n    def __delitem__"),
    ("self._free_flat_length = self._update_flat_length(free=True)\n self._flat_length = self._update_flat_length(free=False)\n\n def keys", "self._refresh_lengths()\n\n    def keys")], Q),
 ('w-length-delta', C, [("pattern = self.__pattern_dict[pattern_name]\n self.__pattern_dict.pop(pattern_name)\n\n self._free_flat_length = self._update_flat_length(free=True)\n self._flat_length = self._update_flat_length(free=False)",
    "pattern = self.__pattern_dict.pop(pattern_name)\n        self._free_flat_length -= pattern.flat_length(free=True)\n        self._flat_length -= pattern.flat_length(free=False)")], Q),
 ('w-lengths-live', C, [("self._free_flat_length = self._update_flat_length(free=True)\n self._flat_length = self._update_flat_length(free=False)\n\n def __delitem__", "pass\n\n    def __delitem__"),
    ("self._free_flat_length = self._update_flat_length(free=True)\n self._flat_length = self._update_flat_length(free=False)\n\n def keys", "pass\n\n    def keys"),
    ("def keys(self):", "def flat_length(self, free=None):\n        free = self._free_with_default(free)\n        return sum(p.flat_length(free=free) for p in self.__pattern_dict.values())\n\n    def keys(self):", )], {'P22'}),
 ('w-check-lock-decor', C, [("class PatternDict(Pattern):", "def _unlocked(method):\n    import functools\n    @functools.wraps(method)\n    def wrapped(self, *args, **kwargs):\n        self._check_lock()\n        return method(self, *args, **kwargs)\n    return wrapped\n\n\nclass PatternDict(Pattern):"),
    ("def __setitem__(self, pattern_name, pattern):\n self._check_lock()", "@_unlocked\n    def __setitem__(self, pattern_name, pattern):"),
    ("def __delitem__(self, pattern_name):\n self._check_lock()", "@_unlocked\n    def __delitem__(self, pattern_name):")], Q),
 ('w-array-loop', C, [("folded_array = np.array([\n self.__base_pattern.fold(\n flat_val[self._stacked_obs_slice(item, flat_length)],\n free=free, validate_value=validate_value)\n for item in itertools.product(*self.__array_ranges)])",
    "pieces = []\n        for i, item in enumerate(itertools.product(*self.__array_ranges)):\n            start = i * flat_length\n            pieces.append(self.__base_pattern.fold(\n                flat_val[start:start + flat_length],\n                free=free, validate_value=validate_value))\n        folded_array = np.array(pieces)")], Q),
 ('w-array-split', C, [("flat_length = self.__base_pattern.flat_length(free)\n folded_array = np.array([\n self.__base_pattern.fold(\n flat_val[self._stacked_obs_slice(item, flat_length)],\n free=free, validate_value=validate_value)\n for item in itertools.product(*self.__array_ranges)])",
    "flat_length = self.__base_pattern.flat_length(free)\n        folded_array = np.array([\n            self.__base_pattern.fold(row, free=free, validate_value=validate_value)\n            for row in np.reshape(flat_val, (-1, flat_length))])")], Q),
 ('w-jac-shared', C, [("def unfreeing_jacobian(self, folded_val, sparse=True):\n base_flat_length = self.__base_pattern.flat_length(free=True)\n base_freeflat_length = self.__base_pattern.flat_length(free=True)\n\n jacobians = []\n for item in itertools.product(*self.__array_ranges):\n jac = self.__base_pattern.unfreeing_jacobian(\n folded_val[item], sparse=True)\n jacobians.append(jac)\n sp_jac = block_diag(jacobians, format='coo')\n\n if sparse:\n return sp_jac\n else:\n return np.array(sp_jac.todense())",
    "def _blocks(self, jacobian, folded_val, sparse):\n        blocks = [jacobian(folded_val[item], sparse=True)\n                  for item in itertools.product(*self.__array_ranges)]\n        sp_jac = block_diag(blocks, format='coo')\n        return sp_jac if sparse else np.array(sp_jac.todense())\n\n    def unfreeing_jacobian(self, folded_val, sparse=True):\n        return self._blocks(self.__base_pattern.unfreeing_jacobian, folded_val, sparse)")], Q),
 ('w-numeric-sparse', N, [("if sparse:\n return osp.sparse.diags(jac_array)\n else:\n return np.diag(jac_array)", "return (osp.sparse.diags if sparse else np.diag)(jac_array)")], Q),
 ('w-toarray', X, [("return np.array(sp_jac.todense())", "return sp_jac.toarray()"), ("return np.array(sp_jac.todense())", "return sp_jac.toarray()")], Q),
 ('w-bounds-tuple', N, [("self._lb = lb\n self._ub = ub", "(self._lb, self._ub) = (lb, ub)")], Q),
 ('w-validate-or', N, [("if (np.array(folded_val < self._lb)).any():\n return False, 'Value beneath lower bound.'\n if (np.array(folded_val > self._ub)).any():\n return False, 'Value above upper bound.'",
    "checks = ((folded_val < self._lb, 'Value beneath lower bound.'),\n                      (folded_val > self._ub, 'Value above upper bound.'))\n            for bad, message in checks:\n                if np.any(bad):\n                    return False, message")], Q),
 ('w-isinf', N, [("if ub == float(\"inf\"):\n if lb == -float(\"inf\"):\n # For consistent behavior", "if np.isinf(ub):\n        if np.isinf(lb):\n            # For consistent behavior")], Q),
 ('w-table', N, [("def _unconstrain_array(array, lb, ub):", "def _bounded(lb, ub):\n    return lb > -float('inf'), ub < float('inf')\n\n\ndef _unconstrain_array(array, lb, ub):"),
    ("if ub == float(\"inf\"):\n if lb == -float(\"inf\"):\n # For consistent behavior, never return a reference.\n # Note that deepcopy will cause autograd to fail.\n return copy.copy(array)\n else:\n return np.log(array - lb)\n else: # the upper bound is finite\n if lb == -float(\"inf\"):\n return -1 * np.log(ub - array)\n else:\n return np.log(array - lb) - np.log(ub - array)",
     "has_lb, has_ub = _bounded(lb, ub)\n    if not has_lb and not has_ub:\n        return copy.copy(array)\n    result = 0\n    if has_lb:\n        result = result + np.log(array - lb)\n    if has_ub:\n        result = result - np.log(ub - array)\n    return result")], Q),
 ('w-simplex-scipy', X, [("return np.log(simplex_array[..., 1:]) - \\\n np.expand_dims(np.log(simplex_array[..., 0]), axis=-1)", "log_array = np.log(simplex_array)\n    return log_array[..., 1:] - log_array[..., :1]")], Q),
 ('w-simplex-softmax', X, [("log_norm = logsumexp(free_mat_aug, axis=-1)\n return np.exp(free_mat_aug - log_norm)", "free_mat_aug = free_mat_aug - np.max(free_mat_aug, axis=-1, keepdims=True)\n    weights = np.exp(free_mat_aug)\n    return weights / np.sum(weights, axis=-1, keepdims=True)")], Q),
 ('w-psd-where', P, [("mat_exp_diag = np.make_diagonal(\n np.exp(np.diag(mat)), offset=0, axis1=-1, axis2=-2)\n mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)\n return mat_exp_diag + mat - mat_diag", "diag = np.diag(mat)\n    return mat + np.make_diagonal(np.exp(diag) - diag, offset=0, axis1=-1, axis2=-2)")], Q),
 ('w-psd-eye', P, [("return mat + np.make_diagonal(\n np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)", "return mat + diag_lb * np.eye(k)")], Q),
 ('w-unvec-idx', P, [("mat = np.zeros((mat_size, mat_size))\n for k1 in range(mat_size):\n for k2 in range(k1 + 1):\n mat[k1, k2] = vec[_sym_index(k1, k2)]\n return mat", "mat = np.zeros((mat_size, mat_size))\n    mat[np.tril_indices(mat_size)] = vec\n    return mat")], Q),
 ('w-gsum-addat', A, [("for n in range(n_obs):\n if x.ndim > 1:\n result[groups[n], :] += x[n, :]\n else:\n result[groups[n]] += x[n]\n return result", "for g, row in zip(groups, x):\n        result[g] += row\n    return result")], Q),
 ('w-replace-copy', A, [("x_new = np.full(x.shape, float('nan'))\n x_new[:] = x\n x_new[inds] = x_sub", "x_new = np.array(x, dtype=float)\n    x_new[inds] = x_sub")], Q),
 ('w-fun-list', F, [("new_args = ()\n last_argnum = 0\n for i in self._argnum_sort:\n argnum = self._argnums[i]\n if self._original_is_flat:\n val_for_orig = \\\n self._patterns[i].flatten(args[argnum], free=self.free[i])\n else:\n val_for_orig = \\\n self._patterns[i].fold(args[argnum], free=self.free[i])\n new_args += args[last_argnum:argnum] + (val_for_orig, )\n last_argnum = argnum + 1\n new_args += args[last_argnum:len(args)]",
    "new_args = list(args)\n        for pattern, free, argnum in zip(self._patterns, self.free, self._argnums):\n            convert = pattern.flatten if self._original_is_flat else pattern.fold\n            new_args[argnum] = convert(args[argnum], free=free)")], Q),
 ('w-obj-every', O, [("def f(self, x):", "def _due(self, every):\n        return every > 0 and self._num_f_evals % every == 0\n\n    def f(self, x):"),
    ("if self._print_every > 0 and self._num_f_evals % self._print_every == 0:", "if self._due(self._print_every):"),
    ("if self._log_every > 0 and self._num_f_evals % self._log_every == 0:", "if self._due(self._log_every):")], Q),
 ('w-trunc-clip', O, [("eig_val_trunc[np.real(eig_val_trunc) <= ev_min] = ev_min", "eig_val_trunc = np.where(np.real(eig_val_trunc) <= ev_min, ev_min, eig_val_trunc)")], Q),
 ('w-trunc-max', O, [("eig_val_trunc[np.real(eig_val_trunc) >= ev_max] = ev_max", "eig_val_trunc = np.minimum(eig_val_trunc, ev_max)")], Q),
 ('w-eye-op', O, [("mat = []\n for i in range(dim):\n # Re-instantiate to make sure that mult_fun is not returning a reference.\n vec = np.zeros(dim)\n vec[i] = 1.0\n mat.append(mult_fun(vec))\n return np.vstack(mat).T", "return np.column_stack([mult_fun(vec) for vec in np.eye(dim)])")], Q),
 ('w-hess-state', O, [("if x is not None and hessian is not None:\n raise ValueError('You must specify x or hessian but not both.')\n if x is None and hessian is None:\n raise ValueError('You must specify either x or hessian.')", "if (x is None) == (hessian is None):\n            raise ValueError('You must specify exactly one of x and hessian.')")], Q),
 ('w-json-get', C, [("try:\n json_pattern_name = pattern_json_dict['pattern']\n except KeyError as orig_err_string:\n err_string = \\\n 'A pattern JSON string must have an entry called pattern ' + \\\n 'which is registered using ``register_pattern_json``.'\n raise KeyError(err_string)", "if 'pattern' not in pattern_json_dict:\n        raise KeyError('A pattern JSON string must have an entry called pattern.')\n    json_pattern_name = pattern_json_dict['pattern']")], Q),
 ('w-eq-is', B, [("if type(other) != type(self):\n return False\n return self.as_dict() == other.as_dict()", "return type(other) is type(self) and other.as_dict() == self.as_dict()")], Q),
 # ---- bugs
 ('x01-array', C, [("return self._free_flat_length if free else self._flat_length", "return self._free_flat_length if free or self.__base_pattern.free_default else self._flat_length")], {'P01', 'P02'}),
 ('x02-jac-mode', C, [("base_pattern.empty(valid=valid)", "base_pattern.empty(valid=valid if self.free_default is None else True)")], {'P22', 'P02', 'P01'}),
 ('x03-dict-flatten', C, [("valid, msg = self.validate_folded( folded_val, validate_value=validate_value) if not valid: raise ValueError(msg)\n # flat_length = self.flat_length(free)", "valid, msg = self.validate_folded( folded_val, validate_value=validate_value)\n        if not valid:\n            raise ValueError(msg)\n        validate_value = False")], Q),
 ('x03-simplex-free', X, [("valid, msg = self.validate_folded(folded_val, validate_value) if not valid: raise ValueError(msg) if free:", "valid, msg = self.validate_folded(folded_val, validate_value or free)\n        if not valid:\n            raise ValueError(msg)\n        if free:")], {'P03'}),
 ('x05-inclusive', N, [("if (np.array(folded_val < self._lb)).any():", "if np.min(folded_val) < self._lb:")], Q),
 ('x05-tol', X, [("if np.any(np.abs(simplex_sums - 1) > 1e-12):", "if np.abs(np.mean(simplex_sums) - 1) > 1e-12:")], {'P05'}),
 ('x05-tolsum', X, [("if np.any(np.abs(simplex_sums - 1) > 1e-12):", "if np.any(simplex_sums - 1 > 1e-12):")], {'P05'}),
 ('x05-psd-diag', P, [("if np.any(np.diag(folded_val) < self.__diag_lb):", "if np.any(folded_val < self.__diag_lb):")], {'P05'}),
 ('x05-dict-extra', C, [("for pattern_name, pattern in self.__pattern_dict.items():\n if not pattern_name in folded_val:", "if len(folded_val) != len(self.__pattern_dict):\n            return False, 'wrong number of members'\n        for pattern_name, pattern in self.__pattern_dict.items():\n            if not pattern_name in folded_val:")], {'P05'}),
 ('x06-names-sort', C, [("flat_names_list = []\n for pattern_name, pattern in self.__pattern_dict.items():", "flat_names_list = []\n        for pattern_name, pattern in sorted(self.__pattern_dict.items(), key=lambda x: x[0]):")], {'P06'}),
 ('x06-slice', C, [("linear_item = np.ravel_multi_index(item, self.__array_shape) * flat_length", "linear_item = np.ravel_multi_index(item, self.__array_shape, order='F') * flat_length")], {'P06'}),
 ('x06-slice2', C, [("linear_item = np.ravel_multi_index(item, self.__array_shape) * flat_length", "linear_item = sum(i * n for i, n in zip(item, self.__array_shape)) * flat_length")], {'P06'}),
 ('x07-eq-shape', N, [("'shape': self._shape,", "'shape': sorted(self._shape),")], {'P07'}),
 ('x07-lb-round', P, [("'diag_lb': self.__diag_lb,", "'diag_lb': round(self.__diag_lb, 8),")], {'P07'}),
 ('x07-dict-default', C, [("pattern_dict = cls(free_default=json_dict.get('free_default'))", "pattern_dict = cls(free_default=json_dict.get('free_default') or None)")], {'P07'}),
 ('x08-name', B, [("return '.'.join([ cls.__module__, cls.__name__])", "return cls.__name__")], Q),
 ('x08-name2', B, [("return '.'.join([ cls.__module__, cls.__name__])", "return '.'.join([ Pattern.__module__, cls.__mro__[-3].__name__])")], {'P08', 'P07'}),
 ('x08-overwrite', C, [("if (not allow_overwrite) and pattern_name in __json_patterns.keys():", "if (not allow_overwrite) and __json_patterns.get(pattern_name, pattern) is not pattern:")], {'P08'}),
 ('x09-replace', C, [("self._check_lock() # if pattern_name", "if pattern_name not in self.__pattern_dict:\n            self._check_lock()\n        # if pattern_name")], {'P09'}),
 ('x09-del-missing', C, [("def __delitem__(self, pattern_name):\n self._check_lock()", "def __delitem__(self, pattern_name):\n        if pattern_name in self.__pattern_dict:\n            self._check_lock()")], {'P09'}),
 ('x09-unlock', C, [("def __str__(self):\n pattern_strings", "def unlock(self):\n        self.__lock = False\n\n    def __str__(self):\n        pattern_strings")], {'P09'}),
 ('x09-items', C, [("return self.__pattern_dict.keys()", "return self.__pattern_dict")], {'P09'}),
 ('x10-rename', C, [("self.__pattern_dict[pattern_name] = pattern\n", "self.__pattern_dict[str(pattern_name)] = pattern\n")], {'P10'}),
 ('x10-copy', C, [("self.__pattern_dict[pattern_name] = pattern\n", "import copy\n        self.__pattern_dict[pattern_name] = copy.copy(pattern)\n")], {'P10'}),
 ('x10-setdefault', C, [("self.__pattern_dict[pattern_name] = pattern\n", "self.__pattern_dict.setdefault(pattern_name, pattern)\n")], {'P10'}),
 ('x11-psd-sym', P, [("if free: return _pack_posdef_matrix(folded_val, diag_lb=self.__diag_lb)", "if free:\n            folded_val[np.triu_indices(self.__size, 1)] = 0\n            return _pack_posdef_matrix(folded_val, diag_lb=self.__diag_lb)")], {'P11'}),
 ('x11-err', X, [("if free: return _unconstrain_simplex_matrix(folded_val).flatten()", "if free:\n            np.seterr(divide='ignore')\n            return _unconstrain_simplex_matrix(folded_val).flatten()")], {'P11'}),
 ('x11-cache', C, [("def shape(self): \"\"\"The shape of a folded value. \"\"\" return self.__shape", "def shape(self):\n        self.__shape = self.__array_shape + self.__base_pattern.shape()\n        return self.__shape")], Q),
 ('x11-last', X, [("if free: return _unconstrain_simplex_matrix(folded_val).flatten()", "self._last = folded_val\n        if free:\n            return _unconstrain_simplex_matrix(folded_val).flatten()")], Q),
 ('x11-ranges', C, [("self.__array_ranges = [range(0, t) for t in self.__array_shape]", "self.__array_ranges = [iter(range(0, t)) for t in self.__array_shape]")], {'P11', 'P03', 'P06', 'P22', 'P21'}),
 ('x12-vec', P, [("else: return folded_val.flatten()", "else:\n            return np.reshape(folded_val, -1)")], {'P12'}),
 ('x12-cache', N, [("if valid: return np.full(\n self._shape, _get_inbounds_value(self._lb, self._ub))", "if valid:\n            if not hasattr(self, '_empty_val'):\n                self._empty_val = np.full(\n                    self._shape, _get_inbounds_value(self._lb, self._ub))\n            return self._empty_val")], {'P12'}),
 ('x12-diag', N, [("return self.__nonfree_folded_indices[folded_bool]", "return self.__nonfree_folded_indices.ravel() if np.all(folded_bool) else self.__nonfree_folded_indices[folded_bool]")], {'P12'}),
 ('x12-gsum', A, [("result = np.zeros((num_groups, ) + x.shape[1:])", "if n_obs == num_groups and np.all(groups == np.arange(n_obs)):\n        return x\n    result = np.zeros((num_groups, ) + x.shape[1:])")], {'P12', 'P27'}),
 ('x13-kw', F, [("return self._fun(*new_args, **kwargs)\n\n\nclass FoldFunctionInput", "return self._fun(*new_args)\n\n\nclass FoldFunctionInput")], {'P13'}),
 ('x13-free', F, [("self.free = np.broadcast_to(free, self._patterns.shape)\n self._original_is_flat = original_is_flat\n\n self._validate_args()\n\n def _validate_args(self):\n if self._patterns.ndim != 1:\n raise ValueError('patterns must be a 1d vector.')\n if self._argnums", "self.free = np.broadcast_to(free, self._patterns.shape)[self._argnum_sort]\n        self._original_is_flat = original_is_flat\n\n        self._validate_args()\n\n    def _validate_args(self):\n        if self._patterns.ndim != 1:\n            raise ValueError('patterns must be a 1d vector.')\n        if self._argnums")], {'P13'}),
 ('x13-bool', F, [("self.free = np.broadcast_to(free, self._patterns.shape)", "self.free = np.broadcast_to(np.asarray(free, dtype=bool), self._patterns.shape)")], {'P13'}),
 ('x14-list', F, [("if not isinstance(rets, tuple):", "if not isinstance(rets, (tuple, list)):")], {'P14'}),
 ('x14-len', F, [("if len(rets) <= retnum:", "if len(rets) < retnum:")], {'P14'}),
 ('x14-drop', F, [("new_rets += rets[last_retnum:len(rets)]", "new_rets += rets[last_retnum:len(self._retnums)]")], {'P14'}),
 ('x15-log-after', O, [("self._num_f_evals += 1\n return f_val", "return f_val"), ("f_val = self._objective_fun(x)", "f_val = self._objective_fun(x)\n        self._num_f_evals += 1")], {'P15'}),
 ('x15-reset-count', O, [("def reset_log(self): self.optimization_log = []", "def reset_log(self):\n        self.optimization_log = []\n        self._num_f_evals = 0")], {'P15'}),
 ('x15-first', O, [("if self._log_every > 0 and self._num_f_evals % self._log_every == 0:", "if self._log_every > 0 and len(self.optimization_log) * self._log_every == self._num_f_evals:")], {'P15'}),
 ('x15-memo', O, [("f_val = self._objective_fun(x)", "if self.optimization_log and np.array_equal(self.optimization_log[-1][1], x):\n            f_val = self.optimization_log[-1][2]\n        else:\n            f_val = self._objective_fun(x)")], {'P15'}),
 ('x16-evmax', O, [("hessian, ev_min=ev_min, ev_max=ev_max)", "hessian, ev_min=ev_min, ev_max=ev_max or None)")], Q),
 ('x16-inv-keep', O, [("self._a_inv_times = a_inv_times", "self._a_inv_times = a_inv_times or self._a_inv_times")], Q),
 ('x16-check', O, [("err = np.linalg.norm(vec - self._a_times(self._a_inv_times(vec)))", "err = np.max(np.abs(vec - self._a_times(self._a_inv_times(vec))))")], Q),
 ('x16-check-rel', O, [("if err > tol:", "if err > tol * max(1.0, np.linalg.norm(vec)):")], {'P16'}),
 ('x16-sparse-perm', S, [("return mat_chol.apply_Pt(mat_chol.L())", "return mat_chol.apply_P(mat_chol.L())")], {'P16'}),
 ('x16-sparse-L', S, [("return mat_chol.apply_Pt(mat_chol.L())", "return mat_chol.L()")], {'P16'}),
 ('x17-digamma', A, [("defjvp(sp.special.gammaln,   lambda g, ans, x: g * sp.special.psi(x))", "defjvp(sp.special.gammaln,   lambda g, ans, x: g * np.log(x) - g / (2 * x))")], {'P17'}),
 ('x17-inv', A, [("return -dot(dot(ans, g), ans)", "return -dot(dot(ans, g), T(ans))")], {'P17'}),
 ('x17-solve-b', A, [("if argnum == 0: return -broadcast_matmul(np.linalg.solve(a, g), ans)", "if argnum == 0:\n        return -np.linalg.solve(a, broadcast_matmul(T(g), ans))")], {'P17'}),
 ('r17-solve-b', A, [("if argnum == 0: return -broadcast_matmul(np.linalg.solve(a, g), ans)", "if argnum == 0:\n        return -np.linalg.solve(a, broadcast_matmul(g, ans))")], Q),
 ('x18-nplog', N, [("return np.log(array - lb)\n else: # the upper", "return osp.special.xlogy(1.0, array - lb)\n    else:  # the upper")], {'P18'}),
 ('x18-where', X, [("return np.exp(free_mat_aug - log_norm)", "result = np.exp(free_mat_aug - log_norm)\n    result[..., 0] = 1 - np.sum(result[..., 1:], axis=-1)\n    return result")], {'P18'}),
 ('x19-diaglb', P, [("mat_lb = mat - np.make_diagonal(\n np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)", "mat_lb = mat - np.full((k, k), diag_lb)")], {'P19'}),
 ('x20-exp-clip', N, [("return np.exp(free_array) + lb", "return np.exp(np.minimum(free_array, 700)) + lb", 1)], {'P19'}),
 ('x20-simplex-norm', X, [("log_norm = logsumexp(free_mat_aug, axis=-1)\n return np.exp(free_mat_aug - log_norm)", "exp_mat = np.exp(free_mat_aug)\n    return exp_mat / np.sum(exp_mat, axis=-1, keepdims=True)")], {'P20'}),
 ('x20-noclip', N, [("return np.clip((ub - lb) * ratio + lb, lb, ub)", "return (ub - lb) * ratio + lb")], {'P20'}),
 ('x20-convex', N, [("return np.clip((ub - lb) * ratio + lb, lb, ub)", "return ub * ratio + lb * (1 - ratio)")], {'P20'}),
 ('x20-maxonly', N, [("return np.clip((ub - lb) * ratio + lb, lb, ub)", "return np.minimum((ub - lb) * ratio + lb, ub)")], Q),
 ('x21-simplex-jac', X, [("return jac[:, 1:]", "return jac[:, :-1]")], {'P21'}),
 ('x21-lad', N, [("return np.sum(np.log(np.abs(jac_array)))", "return np.log(np.abs(np.prod(jac_array)))")], Q),
 ('x21-lad-mean', N, [("return np.sum(np.log(np.abs(jac_array)))", "return np.sum(np.log(np.abs(jac_array)), axis=0)")], {'P21'}),
 ('x21-ratio', N, [("return (ub - lb) * ratio * (1 - ratio)", "return (ub - lb) * ratio ** 2 * np.exp(-1 * np.abs(free_array))")], {'P21'}),
 ('x22-psd', P, [("return np.eye(self.__size) * (self.__diag_lb + 1)", "return np.eye(self.__size) * max(self.__diag_lb, 1)")], {'P22'}),
 ('x22-simplex', X, [("return np.full(self.__shape, 1.0 / self.__simplex_size)", "result = np.zeros(self.__shape)\n            result[..., 0] = 1.0\n            return result")], {'P22'}),
 ('x22-bool', B, [("bool_vec = np.full(flat_len, value, dtype='bool')", "bool_vec = np.full(flat_len, True, dtype='bool')")], {'P22'}),
 ('x22-random', B, [("return self.fold(np.random.random(self._free_flat_length), free=True)", "return self.fold(np.random.random(self._flat_length), free=False, validate_value=False)")], {'P22'}),
 ('x23-unique', P, [("return folded_indices[folded_bool]", "return folded_indices[np.tril(folded_bool)]")], {'P23'}),
 ('x24-ext', C, [("np.savez(file, flat_val=flat_val, pattern_json=pattern_json, **argk)", "np.savez(file, flat_val=np.asarray(flat_val, dtype='float32'), pattern_json=pattern_json, **argk)")], {'P24'}),
 ('x24-order', C, [("np.savez(file, flat_val=flat_val, pattern_json=pattern_json, **argk)", "argk.setdefault('flat_val', flat_val)\n    np.savez(file, pattern_json=pattern_json, **argk)")], Q),
 ('x25-strict', N, [("if lb >= ub:", "if lb > ub:")], {'P25'}),
 ('x25-nan', P, [("if diag_lb < 0:", "if not diag_lb > 0:")], {'P25'}),
 ('x26-diag', P, [("self.__diag_lb = diag_lb", "self.__diag_lb = max(diag_lb, 1e-10)")], {'P26', 'P07', 'P05'}),
 ('x27-float', A, [("groups = np.atleast_1d(groups).astype('int64')\n if (groups.ndim > 1)", "groups = np.atleast_1d(groups).astype('int8')\n    if (groups.ndim > 1)")], {'P27'}),
 ('x27-neg', A, [("if max_group >= num_groups:", "if max_group > num_groups:")], {'P27'}),
]
