"""Fourth batch of behaviour-preserving edits: rewrites of whole bodies."""
F, O, S, C, N, P, X, B, A = ('function_patterns.py', 'optimization_lib.py', 'sparse_preconditioners_lib.py', 'pattern_containers.py',
                             'numeric_array_patterns.py', 'psdmatrix_patterns.py', 'simplex_patterns.py', 'base_patterns.py',
                             'autograd_supplement_lib.py')
Q = set()
EDITS = [
 # optimization
 ('t-opt-every', O, [("def f(self, x):\n f_val = self._objective_fun(x)\n if self._print_every > 0 and self._num_f_evals % self._print_every == 0:\n self.print_value(self._num_f_evals, x, f_val)\n if self._log_every > 0 and self._num_f_evals % self._log_every == 0:\n self.log_value(self._num_f_evals, x, f_val)",
   "def _due(self, every):\n        return every > 0 and self._num_f_evals % every == 0\n\n    def f(self, x):\n        f_val = self._objective_fun(x)\n        for every, report in ((self._print_every, self.print_value),\n                              (self._log_every, self.log_value)):\n            if self._due(every):\n                report(self._num_f_evals, x, f_val)")], Q),
 ('t-opt-early', O, [("if self._log_every > 0 and self._num_f_evals % self._log_every == 0:\n self.log_value(self._num_f_evals, x, f_val)", "if not self._log_every <= 0:\n            if not self._num_f_evals % self._log_every:\n                self.log_value(self._num_f_evals, x, f_val)")], Q),
 ('t-opt-divmod', O, [("if self._print_every > 0 and self._num_f_evals % self._print_every == 0:", "if self._print_every > 0 and divmod(self._num_f_evals, self._print_every)[1] == 0:")], Q),
 ('t-opt-finally', O, [("if self._log_every > 0 and self._num_f_evals % self._log_every == 0:\n self.log_value(self._num_f_evals, x, f_val)\n self._num_f_evals += 1\n return f_val", "should_log = self._log_every > 0 and self._num_f_evals % self._log_every == 0\n        if should_log:\n            self.log_value(self._num_f_evals, x, f_val)\n        self._num_f_evals = 1 + self._num_f_evals\n        return f_val")], Q),
 ('t-opt-logentry', O, [("self.optimization_log.append((num_f_evals, copy.copy(x), f_val))", "entry = num_f_evals, copy.copy(x), f_val\n        self.optimization_log += [entry]")], Q),
 ('t-opt-logconcat', O, [("self.optimization_log.append((num_f_evals, copy.copy(x), f_val))", "x_copy = copy.copy(x)\n        self.optimization_log.extend([(num_f_evals, x_copy, f_val)])")], Q),
 ('t-opt-resetboth', O, [("self.set_print_every(print_every)\n self.set_log_every(log_every)\n\n self.reset()", "self._num_f_evals = 0\n        self.optimization_log = []\n        self._print_every, self._log_every = print_every, log_every")], Q),
 ('t-opt-gradprop', O, [("self.grad = autograd.grad(self._objective_fun)\n self.hessian = autograd.hessian(self._objective_fun)\n self.hessian_vector_product = \\\n autograd.hessian_vector_product(self._objective_fun)", "for name in ('grad', 'hessian', 'hessian_vector_product'):\n            setattr(self, name, getattr(autograd, name)(self._objective_fun))")], Q),
 ('t-opt-call', O, [("return self._original_fun(self.unprecondition(x_c))", "x = self.unprecondition(x_c)\n        f_val = self._original_fun(x)\n        return f_val")], Q),
 ('t-opt-hessargs', O, [("if x is not None and hessian is not None:\n raise ValueError('You must specify x or hessian but not both.')\n if x is None and hessian is None:\n raise ValueError('You must specify either x or hessian.')\n if hessian is None:", "num_given = sum(arg is not None for arg in (x, hessian))\n        if num_given == 0:\n            raise ValueError('You must specify either x or hessian.')\n        if num_given == 2:\n            raise ValueError('You must specify x or hessian but not both.')\n        if x is not None:")], Q),
 ('t-opt-xor', O, [("if x is not None and hessian is not None:\n raise ValueError('You must specify x or hessian but not both.')\n if x is None and hessian is None:\n raise ValueError('You must specify either x or hessian.')", "if (x is None) == (hessian is None):\n            raise ValueError('You must specify exactly one of x and hessian.')")], Q),
 ('t-opt-sqrtpow', O, [("transform_eigenspace(eig_vec, eig_val_trunc, lambda x: 1. / np.sqrt(x))", "transform_eigenspace(eig_vec, eig_val_trunc, lambda x: x ** (-0.5))")], Q),
 ('t-opt-sqrtpartial', O, [("mult_mat_sqrt = \\\n transform_eigenspace(eig_vec, eig_val_trunc, np.sqrt)\n\n mult_mat_inv_sqrt = \\\n transform_eigenspace(eig_vec, eig_val_trunc, lambda x: 1. / np.sqrt(x))\n\n return mult_mat_sqrt, mult_mat_inv_sqrt",
   "def with_eigvals(transform):\n        return transform_eigenspace(eig_vec, eig_val_trunc, transform)\n\n    return with_eigvals(np.sqrt), with_eigvals(lambda x: np.sqrt(1. / x))")], Q),
 ('t-opt-amult', O, [("def a_mult(vec):\n vec_loadings = eigvecs.T @ vec", "shift = new_eigvals - 1\n\n    def a_mult(vec):\n        vec_loadings = np.dot(eigvecs.T, vec)"), ("return vec + eigvecs @ ((new_eigvals - 1) * vec_loadings)", "return vec + np.dot(eigvecs, shift * vec_loadings)")], Q),
 ('t-opt-truncboth', O, [("eig_val_trunc = copy.deepcopy(evals)\n if not ev_min is None:\n if not np.isreal(ev_min):\n raise ValueError('ev_min must be real-valued.')\n ev_min = float(ev_min)", "for name, bound in (('ev_min', ev_min), ('ev_max', ev_max)):\n        if bound is not None and not np.isreal(bound):\n            raise ValueError('{} must be real-valued.'.format(name))\n    eig_val_trunc = copy.deepcopy(evals)\n    if ev_min is not None:\n        ev_min = float(ev_min)"), ("if not np.isreal(ev_max):\n raise ValueError('ev_max must be real-valued.')\n ev_max", "ev_max")], Q),
 ('t-opt-truncmask', O, [("eig_val_trunc[np.real(eig_val_trunc) <= ev_min] = ev_min", "too_small = np.real(eig_val_trunc) < ev_min\n        eig_val_trunc[too_small] = ev_min")], Q),
 ('t-opt-opmat', O, [("mat = []\n for i in range(dim):\n # Re-instantiate to make sure that mult_fun is not returning a reference.\n vec = np.zeros(dim)\n vec[i] = 1.0\n mat.append(mult_fun(vec))\n return np.vstack(mat).T", "return np.vstack([mult_fun(row) for row in np.eye(dim)]).T")], Q),
 ('t-opt-matrixset', O, [("def a_times(vec):\n return a @ vec\n\n if a_inv is None:", "a_times = lambda vec: np.matmul(a, vec)\n\n            if a_inv is None:")], Q),
 ('t-opt-matrixflat', O, [("if osp.sparse.issparse(a):\n if a_inv is None:\n a_inv = osp.sparse.linalg.inv(a)\n a_times, _ = get_sparse_product(a)\n a_inv_times, _ = get_sparse_product(a_inv)\n self.set_preconditioner_functions(a_times, a_inv_times)\n\n else:", "if osp.sparse.issparse(a):\n            inverse = osp.sparse.linalg.inv(a) if a_inv is None else a_inv\n            self.set_preconditioner_functions(\n                *(get_sparse_product(m)[0] for m in (a, inverse)))\n        else:")], Q),
 # containers
 ('t-c-segments', C, [("offset = 0\n for pattern_name, pattern in self.__pattern_dict.items():\n pattern_flat_length = pattern.flat_length(free)\n pattern_flat_val = flat_val[offset:(offset + pattern_flat_length)]\n offset += pattern_flat_length",
   "ends = np.cumsum([pattern.flat_length(free) for pattern in self.__pattern_dict.values()])\n        for end, (pattern_name, pattern) in zip(ends, self.__pattern_dict.items()):\n            pattern_flat_val = flat_val[(end - pattern.flat_length(free)):end]")], Q),
 ('t-c-remaining', C, [("offset = 0\n for pattern_name, pattern in self.__pattern_dict.items():\n pattern_flat_length = pattern.flat_length(free)\n pattern_flat_val = flat_val[offset:(offset + pattern_flat_length)]\n offset += pattern_flat_length", "remaining = flat_val\n        for pattern_name, pattern in self.__pattern_dict.items():\n            pattern_flat_length = pattern.flat_length(free)\n            pattern_flat_val = remaining[:pattern_flat_length]\n            remaining = remaining[pattern_flat_length:]")], Q),
 ('t-c-flatconcat', C, [("if len(flat_vals) == 0:\n return np.array([])\n return np.hstack(flat_vals)", "return np.concatenate(flat_vals) if flat_vals else np.array([])")], Q),
 ('t-c-flatgen', C, [("return np.hstack(flat_vals)\n\n def _update", "if len(flat_vals) == 1:\n            return flat_vals[0]\n        return np.hstack(flat_vals)\n\n    def _update")], Q),
 ('t-c-missing', C, [("if not pattern_name in folded_val:\n return \\\n False, \\\n '{} not in folded_val dictionary.'.format(pattern_name)", "if pattern_name not in folded_val.keys():\n                return (False, '{} not in folded_val dictionary.'.format(pattern_name))")], Q),
 ('t-c-validgen', C, [("for item in itertools.product(*self.__array_ranges):\n valid, msg = self.__base_pattern.validate_folded(\n folded_val[item], validate_value=validate_value)\n if not valid:\n err_msg = 'Bad value in location {}: {}'.format(item, msg)\n return False, err_msg\n return True, ''",
   "checks = (\n            (item,) + tuple(self.__base_pattern.validate_folded(\n                folded_val[item], validate_value=validate_value))\n            for item in itertools.product(*self.__array_ranges))\n        for item, valid, msg in checks:\n            if not valid:\n                return False, 'Bad value in location {}: {}'.format(item, msg)\n        return True, ''")], Q),
 ('t-c-ndindex', C, [("indices = []\n pattern_flat_length = self.__base_pattern.flat_length(free=free)\n offset = 0\n for item in itertools.product(*self.__array_ranges):\n if np.any(folded_bool[item]):\n pattern_indices = self.__base_pattern.flat_indices(\n folded_bool[item], free=free)\n if len(pattern_indices) > 0:\n indices.append(pattern_indices + offset)\n offset += pattern_flat_length",
   "indices = []\n        pattern_flat_length = self.__base_pattern.flat_length(free=free)\n        for position, item in enumerate(np.ndindex(*self.__array_shape)):\n            member_bool = folded_bool[item]\n            if not np.any(member_bool):\n                continue\n            pattern_indices = self.__base_pattern.flat_indices(member_bool, free=free)\n            if len(pattern_indices) > 0:\n                indices.append(pattern_indices + position * pattern_flat_length)")], Q),
 ('t-c-arrfoldzip', C, [("folded_array = np.array([\n self.__base_pattern.fold(\n flat_val[self._stacked_obs_slice(item, flat_length)],\n free=free, validate_value=validate_value)\n for item in itertools.product(*self.__array_ranges)])", "members = []\n        for start in range(0, flat_val.size, flat_length):\n            members.append(self.__base_pattern.fold(\n                flat_val[start:(start + flat_length)],\n                free=free, validate_value=validate_value))\n        folded_array = np.array(members)")], Q),
 ('t-c-arrfoldsplit', C, [("folded_array = np.array([\n self.__base_pattern.fold(\n flat_val[self._stacked_obs_slice(item, flat_length)],\n free=free, validate_value=validate_value)\n for item in itertools.product(*self.__array_ranges)])", "flat_rows = np.reshape(flat_val, (-1, flat_length))\n        folded_array = np.array([\n            self.__base_pattern.fold(\n                row, free=free, validate_value=validate_value)\n            for row in flat_rows])")], Q),
 ('t-c-arrflat', C, [("return np.hstack(np.array([\n self.__base_pattern.flatten(\n folded_val[item], free=free, validate_value=validate_value)\n for item in itertools.product(*self.__array_ranges)]))", "flat_vals = [\n            self.__base_pattern.flatten(\n                folded_val[item], free=free, validate_value=validate_value)\n            for item in itertools.product(*self.__array_ranges)]\n        return np.concatenate(flat_vals)")], Q),
 ('t-c-jachelper', C, [("jacobians = []\n for item in itertools.product(*self.__array_ranges):\n jac = self.__base_pattern.freeing_jacobian(\n folded_val[item], sparse=True)\n jacobians.append(jac)\n sp_jac = block_diag(jacobians, format='coo')\n\n if sparse:\n return sp_jac\n else:\n return np.array(sp_jac.todense())", "sp_jac = block_diag([\n            self.__base_pattern.freeing_jacobian(folded_val[item], True)\n            for item in itertools.product(*self.__array_ranges)], format='coo')\n        return sp_jac if sparse else sp_jac.toarray()")], Q),
 ('t-c-setitem', C, [("if isinstance(self.__pattern_dict[pattern_name], PatternDict):\n self.__pattern_dict[pattern_name].lock()\n\n self._free_flat_length = self._update_flat_length(free=True)\n self._flat_length = self._update_flat_length(free=False)", "if isinstance(pattern, PatternDict):\n            pattern.lock()\n        self._refresh_lengths()"), ("def keys(self):\n return", "def _refresh_lengths(self):\n        self._flat_length, self._free_flat_length = (\n            self._update_flat_length(free=free) for free in (False, True))\n\n    def keys(self):\n        return")], Q),
 ('t-c-delpop', C, [("pattern = self.__pattern_dict[pattern_name]\n self.__pattern_dict.pop(pattern_name)", "del self.__pattern_dict[pattern_name]")], Q),
 ('t-c-names', C, [("pattern_flat_names = \\\n [ pattern_name + delim + t for t in pattern_flat_names]\n flat_names_list.append(pattern_flat_names)\n return np.hstack(flat_names_list)", "prefix = pattern_name + delim\n            flat_names_list.append(\n                list(map(lambda name: prefix + name, pattern_flat_names)))\n        return np.hstack(flat_names_list)")], Q),
 ('t-c-load', C, [("data = np.load(file)\n pattern = get_pattern_from_json(str(data['pattern_json']))\n folded_val = pattern.fold(data['flat_val'], free=False)\n return folded_val, pattern, data", "data = np.load(file)\n    pattern_json, flat_val = (data[key] for key in ('pattern_json', 'flat_val'))\n    pattern = get_pattern_from_json(str(pattern_json))\n    return pattern.fold(flat_val, free=False), pattern, data")], Q),
 ('t-c-regget', C, [("if (not allow_overwrite) and pattern_name in __json_patterns.keys():", "taken = __json_patterns.get(pattern_name) is not None\n    if taken and not allow_overwrite:")], Q),
 ('t-c-getjson', C, [("try:\n json_pattern_name = pattern_json_dict['pattern']\n except KeyError as orig_err_string:\n err_string = \\\n 'A pattern JSON string must have an entry called pattern ' + \\\n 'which is registered using ``register_pattern_json``.'\n raise KeyError(err_string)", "if 'pattern' not in pattern_json_dict:\n        raise KeyError(\n            'A pattern JSON string must have an entry called pattern ' +\n            'which is registered using ``register_pattern_json``.')\n    json_pattern_name = pattern_json_dict['pattern']")], Q),
 # numeric
 ('t-n-cases', N, [("if ub == float(\"inf\"):\n if lb == -float(\"inf\"):\n return np.ones_like(array)\n else:\n return 1.0 / (array - lb)\n else: # the upper bound is finite\n if lb == -float(\"inf\"):\n return 1.0 / (ub - array)\n else:\n return 1 / (array - lb) + 1 / (ub - array)",
   "has_lb, has_ub = lb > -float(\"inf\"), ub < float(\"inf\")\n    if not has_lb and not has_ub:\n        return np.ones_like(array)\n    jac = 0.0\n    if has_lb:\n        jac = jac + 1.0 / (array - lb)\n    if has_ub:\n        jac = jac + 1.0 / (ub - array)\n    return jac")], Q),
 ('t-n-dispatch', N, [("if ub == float(\"inf\"):\n if lb == -float(\"inf\"):\n # For consistent behavior, never return a reference.\n # Note that deepcopy will cause autograd to fail.\n return copy.copy(array)\n else:\n return np.log(array - lb)\n else: # the upper bound is finite\n if lb == -float(\"inf\"):\n return -1 * np.log(ub - array)\n else:\n return np.log(array - lb) - np.log(ub - array)",
   "transforms = {\n        (False, False): lambda: copy.copy(array),\n        (True, False): lambda: np.log(array - lb),\n        (False, True): lambda: -1 * np.log(ub - array),\n        (True, True): lambda: np.log(array - lb) - np.log(ub - array)}\n    return transforms[lb > -float(\"inf\"), ub < float(\"inf\")]()")], Q),
 ('t-n-ratio', N, [("ratio = np.exp(-1 * np.logaddexp(0, -1 * free_array))\n return (ub - lb) * ratio * (1 - ratio)", "log_ratio = -np.logaddexp(0, -free_array)\n            log_one_minus_ratio = -np.logaddexp(0, free_array)\n            return (ub - lb) * np.exp(log_ratio + log_one_minus_ratio)")], Q),
 ('t-n-inb', N, [("if lb > -float('inf') and ub < float('inf'):\n return 0.5 * (ub - lb) + lb\n else:\n if lb > -float('inf'):\n # The upper bound is infinite.\n return lb + 1.0\n elif ub < float('inf'):\n # The lower bound is infinite.\n return ub - 1.0\n else:\n # Both are infinite.\n return 0.0", "lb_finite, ub_finite = lb > -float('inf'), ub < float('inf')\n    if not lb_finite:\n        return ub - 1.0 if ub_finite else 0.0\n    return 0.5 * (ub - lb) + lb if ub_finite else lb + 1.0")], Q),
 ('t-n-validchain', N, [("if (np.array(folded_val < self._lb)).any():\n return False, 'Value beneath lower bound.'\n if (np.array(folded_val > self._ub)).any():\n return False, 'Value above upper bound.'\n return True, ''", "checks = ((folded_val < self._lb, 'Value beneath lower bound.'),\n                      (folded_val > self._ub, 'Value above upper bound.'))\n            for bad, msg in checks:\n                if np.any(bad):\n                    return False, msg\n        return True, ''")], Q),
 ('t-n-indices', N, [("self.__free_folded_indices = self.fold(\n np.arange(self.flat_length(free=True), dtype=int),\n validate_value=False, free=False)\n\n self.__nonfree_folded_indices = self.fold(\n np.arange(self.flat_length(free=False), dtype=int),\n validate_value=False, free=False)", "self.__free_folded_indices = np.reshape(\n            np.arange(free_flat_length, dtype=int), self._shape)\n        self.__nonfree_folded_indices = np.reshape(\n            np.arange(flat_length, dtype=int), self._shape)")], Q),
 ('t-n-flatnonzero', N, [("if free:\n return self.__free_folded_indices[folded_bool]\n else:\n return self.__nonfree_folded_indices[folded_bool]", "indices = self.__free_folded_indices if free \\\n            else self.__nonfree_folded_indices\n        return indices[folded_bool]")], Q),
 ('t-n-logdet', N, [("return np.sum(np.log(np.abs(jac_array)))", "return np.log(np.abs(jac_array)).sum()")], Q),
 ('t-n-names', N, [("array_ranges = [range(0, t) for t in self._shape]\n flat_name_list = []\n for item in itertools.product(*array_ranges):\n flat_name_list.append('[' + ','.join([str(i) for i in item]) + ']')\n return flat_name_list", "return ['[{}]'.format(','.join(map(str, item)))\n                for item in np.ndindex(*self._shape)]")], Q),
 ('t-n-foldone', N, [("if free:\n constrained_array = \\\n _constrain_array(flat_val, self._lb, self._ub)\n return constrained_array.reshape(self._shape)\n else:\n # For consistency, never return a reference.\n folded_val = copy.copy(flat_val).reshape(self._shape)\n valid, msg = self.validate_folded(folded_val, validate_value)\n if not valid:\n raise ValueError(msg)\n return folded_val", "if free:\n            folded_val = _constrain_array(flat_val, self._lb, self._ub)\n        else:\n            folded_val = copy.copy(flat_val)\n        folded_val = np.reshape(folded_val, self._shape)\n        if not free:\n            valid, msg = self.validate_folded(folded_val, validate_value)\n            if not valid:\n                raise ValueError(msg)\n        return folded_val")], Q),
 # psd
 ('t-p-symindex', P, [("def ld_ind(k1, k2):\n return int(k2 + k1 * (k1 + 1) / 2)\n\n if k2 <= k1:\n return ld_ind(k1, k2)\n else:\n return ld_ind(k2, k1)", "row, col = max(k1, k2), min(k1, k2)\n    return col + row * (row + 1) // 2")], Q),
 ('t-p-unvec', P, [("for k1 in range(mat_size):\n for k2 in range(k1 + 1):\n mat[k1, k2] = vec[_sym_index(k1, k2)]\n return mat", "offset = 0\n    for k1 in range(mat_size):\n        mat[k1, :(k1 + 1)] = vec[offset:(offset + k1 + 1)]\n        offset += k1 + 1\n    return mat")], Q),
 ('t-p-unvec2', P, [("for k1 in range(mat_size):\n for k2 in range(k1 + 1):\n mat[k1, k2] = vec[_sym_index(k1, k2)]\n return mat", "mat[np.tril_indices(mat_size)] = vec\n    return mat")], Q),
 ('t-p-chol', P, [("return _vectorize_ld_matrix(\n _log_matrix_diagonal(np.linalg.cholesky(mat_lb)))", "mat_chol = np.linalg.cholesky(mat_lb)\n    mat_chol_log_diag = _log_matrix_diagonal(mat_chol)\n    return _vectorize_ld_matrix(mat_chol_log_diag)")], Q),
 ('t-p-lbeye', P, [("mat_lb = mat - np.make_diagonal(\n np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)", "mat_lb = mat - diag_lb * np.eye(k)")], Q),
 ('t-p-shared', P, [("mat_log_diag = np.make_diagonal(\n np.log(np.diag(mat)), offset=0, axis1=-1, axis2=-2)\n mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)\n return mat_log_diag + mat - mat_diag", "diag = np.diag(mat)\n    return mat + np.make_diagonal(\n        np.log(diag) - diag, offset=0, axis1=-1, axis2=-2)")], Q),
 ('t-p-len', P, [("super().__init__(self.__size ** 2, int(size * (size + 1) / 2),", "n = self.__size\n        super().__init__(n * n, n * (n + 1) // 2,")], Q),
 ('t-p-valid', P, [("if not (folded_val.transpose() == folded_val).all():", "if np.any(folded_val != folded_val.T):")], Q),
 # simplex
 ('t-x-softmax', X, [("log_norm = logsumexp(free_mat_aug, axis=-1)\n return np.exp(free_mat_aug - log_norm)", "unnormalized = np.exp(\n        free_mat_aug - np.max(free_mat_aug, axis=-1, keepdims=True))\n    return unnormalized / np.sum(unnormalized, axis=-1, keepdims=True)")], Q),
 ('t-x-zeros', X, [("reference_col = np.expand_dims(np.full(free_mat.shape[0:-1], 0), axis=-1)", "reference_col = np.zeros(free_mat.shape[:-1] + (1,))")], Q),
 ('t-x-unc', X, [("return np.log(simplex_array[..., 1:]) - \\\n np.expand_dims(np.log(simplex_array[..., 0]), axis=-1)", "log_array = np.log(simplex_array)\n    return log_array[..., 1:] - log_array[..., :1]")], Q),
 ('t-x-jac', X, [("jac = \\\n -1 * np.outer(simplex_vec, simplex_vec) + \\\n np.diag(simplex_vec)\n return jac[:, 1:]", "return np.diag(simplex_vec)[:, 1:] - \\\n        np.outer(simplex_vec, simplex_vec[1:])")], Q),
 ('t-x-idx', X, [("indices = []\n offset = 0\n free_simplex_length = self.__simplex_size - 1\n array_ranges = (range(n) for n in self.__array_shape)\n for ind in itertools.product(*array_ranges):\n if np.any(folded_bool[ind]):\n free_inds = np.arange(\n offset * free_simplex_length,\n (offset + 1) * free_simplex_length,\n dtype=int)\n indices.append(free_inds)\n offset += 1", "indices = []\n            free_simplex_length = self.__simplex_size - 1\n            free_inds = np.arange(free_simplex_length, dtype=int)\n            for ind in itertools.product(*map(range, self.__array_shape)):\n                if np.any(folded_bool[ind]):\n                    indices.append(free_inds)\n                free_inds = free_inds + free_simplex_length")], Q),
 ('t-x-valid', X, [("simplex_sums = np.sum(folded_val, axis=-1)\n if np.any(np.abs(simplex_sums - 1) > 1e-12):", "sum_error = np.abs(np.sum(folded_val, axis=-1) - 1)\n            if not np.all(sum_error <= 1e-12):")], Q),
]
