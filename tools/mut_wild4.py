"""Fourth batch: bugs and neutral edits for P11-P27 written from the statements."""
B, C, N, X, P, F, O, A, S = ('base_patterns.py', 'pattern_containers.py', 'numeric_array_patterns.py', 'simplex_patterns.py',
                          'psdmatrix_patterns.py', 'function_patterns.py', 'optimization_lib.py', 'autograd_supplement_lib.py', 'sparse_preconditioners_lib.py')
Q = set()
EDITS = [
 # P11
 ('v11-nanfill', N, [("folded_val = np.atleast_1d(folded_val)\n valid, msg = self.validate_folded(folded_val, validate_value)\n if not valid:\n raise ValueError(msg)\n if free:", "folded_val = np.atleast_1d(folded_val)\n        valid, msg = self.validate_folded(folded_val, validate_value)\n        if not valid:\n            raise ValueError(msg)\n        if self._shape == ():\n            folded_val.shape = ()\n        if free:")], Q),
 ('v11-boolcast', X, [("if not np.any(folded_bool):\n return np.array([], dtype=int)", "if not np.any(folded_bool):\n            return np.array([], dtype=int)\n        folded_bool.shape = self.__shape")], {'P11'}),
 ('v11-symm', O, [("mat = np.atleast_2d(mat)\n", "mat = np.atleast_2d(mat)\n    mat[np.isnan(mat)] = 0.0\n")], {'P11'}),
 ('v11-errstate', N, [("if lb == -float(\"inf\"):\n return -1 * np.log(ub - array)", "if lb == -float(\"inf\"):\n            np.seterr(divide='ignore')\n            return -1 * np.log(ub - array)")], {'P11'}),
 ('v11-seed', B, [("return self.fold(np.random.random(self._free_flat_length), free=True)", "np.random.seed(0)\n        return self.fold(np.random.random(self._free_flat_length), free=True)")], {'P11', 'P22'}),
 ('v11-pop', C, [("empty_val = OrderedDict()\n for pattern_name, pattern in self.__pattern_dict.items():", "empty_val = OrderedDict()\n        self.default_validate = valid\n        for pattern_name, pattern in self.__pattern_dict.items():")], Q),
 ('v11-argnum', F, [("self._argnums = np.atleast_1d(argnums)\n self._argnum_sort = np.argsort(self._argnums)", "self._argnums = np.atleast_1d(argnums)\n        self._argnums.sort()\n        self._argnum_sort = np.argsort(self._argnums)")], {'P11', 'P13'}),
 ('v11-trunc', O, [("eig_val_trunc = copy.deepcopy(evals)", "eig_val_trunc = np.asarray(evals, dtype=float)")], {'P11'}),
 ('v11-truncravel', O, [("eig_val_trunc = copy.deepcopy(evals)", "eig_val_trunc = evals.ravel()")], {'P11'}),
 ('v11-groupsclip', A, [("groups = np.atleast_1d(groups).astype('int64')\n if (groups.ndim > 1):", "groups = np.atleast_1d(groups).astype('int64', copy=False)\n    groups[groups < 0] = 0\n    if (groups.ndim > 1):")], {'P11', 'P27'}),
 ('v11-replace', A, [("x_new = np.full(x.shape, float('nan'))\n x_new[:] = x\n x_new[inds] = x_sub", "x_new = x if x.size == np.size(x_sub) else np.array(x, dtype=float)\n    x_new[inds] = x_sub")], {'P11', 'P12', 'P27'}),
 # P12
 ('v12-simplexfold', X, [("folded_val = np.reshape(np.array(flat_val), self.__shape)", "folded_val = np.reshape(np.asarray(flat_val, dtype=float), self.__shape)")], {'P12'}),
 ('v12-ravelpsd', P, [("else:\n return folded_val.flatten()", "else:\n            return folded_val.reshape(-1)")], {'P12'}),
 ('v12-hstack1', C, [("return np.hstack(flat_vals)", "return np.hstack(flat_vals) if len(flat_vals) > 1 else flat_vals[0]")], Q),
 ('v12-idxcache', X, [("free = self._free_with_default(free)\n shape_ok, err_msg = self._validate_folded_shape(folded_bool)\n if not shape_ok:\n raise ValueError(err_msg)\n if not free:\n folded_indices = self.fold(\n np.arange(self.flat_length(False), dtype=int),\n validate_value=False, free=False)\n return folded_indices[folded_bool]", "free = self._free_with_default(free)\n        shape_ok, err_msg = self._validate_folded_shape(folded_bool)\n        if not shape_ok:\n            raise ValueError(err_msg)\n        if not free:\n            if np.all(folded_bool):\n                if not hasattr(self, '_all_inds'):\n                    self._all_inds = np.arange(self.flat_length(False), dtype=int)\n                return self._all_inds\n            folded_indices = self.fold(\n                np.arange(self.flat_length(False), dtype=int),\n                validate_value=False, free=False)\n            return folded_indices[folded_bool]")], {'P12'}),
 ('v12-emptycache', X, [("if valid:\n return np.full(self.__shape, 1.0 / self.__simplex_size)", "if valid:\n            if not hasattr(self, '_center'):\n                self._center = np.full(self.__shape, 1.0 / self.__simplex_size)\n            return self._center")], {'P12'}),
 ('v12-emptyarr', C, [("return np.reshape(repeated_array, self.__shape)", "return np.broadcast_to(empty_pattern, self.__shape)")], {'P12'}),
 ('v12-numsq', N, [("return constrained_array.reshape(self._shape)", "return np.squeeze(constrained_array).reshape(self._shape)")], Q),
 ('v12-unconst', N, [("return copy.copy(array)\n else:\n return np.log(array - lb)", "return array + 0\n        else:\n            return np.log(array - lb)")], Q),
 ('v12-jacones', N, [("if sparse:\n return osp.sparse.diags(jac_array)\n else:\n return np.diag(jac_array)\n\n def unfreeing", "if sparse:\n            return osp.sparse.diags(jac_array)\n        else:\n            return np.diag(jac_array).copy()\n\n    def unfreeing")], Q),
 # P13
 ('v13-kw', F, [("return self._fun(*new_args, **kwargs)", "kwargs.pop('free', None)\n        return self._fun(*new_args, **kwargs)")], {'P13'}),
 ('v13-skip', F, [("argnum = self._argnums[i]\n if self._original_is_flat:", "argnum = self._argnums[i]\n            if args[argnum] is None:\n                continue\n            if self._original_is_flat:")], {'P13'}),
 ('v13-sorted', F, [("self.free = np.broadcast_to(free, self._patterns.shape)\n self._original_is_flat = original_is_flat\n\n self._validate_args()\n\n def _validate_args(self):\n if self._patterns.ndim != 1:\n raise ValueError('patterns must be a 1d vector.')\n if self._argnums.ndim", "self.free = np.broadcast_to(free, self._patterns.shape)[self._argnum_sort]\n        self._original_is_flat = original_is_flat\n\n        self._validate_args()\n\n    def _validate_args(self):\n        if self._patterns.ndim != 1:\n            raise ValueError('patterns must be a 1d vector.')\n        if self._argnums.ndim")], {'P13'}),
 ('v13-last', F, [("last_argnum = argnum + 1\n new_args += args", "last_argnum = max(last_argnum, argnum) + 1\n        new_args += args")], Q),
 ('v13-early', F, [("new_args += args[last_argnum:len(args)]", "if last_argnum < len(args) - 1:\n            new_args += args[last_argnum:len(args)]")], {'P13'}),
 ('v13-freebool', F, [("self.free = np.broadcast_to(free, self._patterns.shape)", "self.free = np.broadcast_to(np.asarray(free, dtype=bool), self._patterns.shape)")], {'P13'}),
 ('v13-dup', F, [("if len(self._argnums) != len(np.unique(self._argnums)):", "if len(self._argnums) > 2 and len(self._argnums) != len(np.unique(self._argnums)):")], {'P13'}),
 ('v13-retry', F, [("return self._fun(*new_args, **kwargs)", "try:\n            return self._fun(*new_args, **kwargs)\n        except TypeError:\n            return self._fun(*new_args)")], {'P13'}),
 ('v13-arr', F, [("return self._fun(*new_args, **kwargs)", "return np.asarray(self._fun(*new_args, **kwargs))")], {'P13', 'P18'}),
 # P14
 ('v14-list', F, [("if not isinstance(rets, tuple):", "if isinstance(rets, list):\n            rets = tuple(rets)\n        if not isinstance(rets, tuple):")], {'P14'}),
 ('v14-single', F, [("return self._patterns[0].fold(rets, free=self.free[0])", "return self._patterns[0].fold(rets, free=bool(self.free[0]))")], {'P14'}),
 ('v14-unwrap', F, [("new_rets += rets[last_retnum:len(rets)]\n\n return new_rets", "new_rets += rets[last_retnum:len(rets)]\n\n        return new_rets if len(new_rets) > 1 else new_rets[0]")], {'P14'}),
 ('v14-retnum0', F, [("if not np.array_equal(self._retnums, [0]):", "if not np.any(self._retnums == 0):")], {'P14'}),
 ('v14-neg', F, [("if len(rets) <= retnum:", "if len(rets) < retnum:")], {'P14'}),
 ('v14-combo', F, [("patterns=output_patterns,\n free=output_free,\n retnums=output_retnums)\n self._folded_fun", "patterns=output_patterns,\n                free=output_free if output_retnums is None else input_free,\n                retnums=output_retnums)\n        self._folded_fun")], {'P14'}),
 ('v14-combo2', F, [("patterns=input_patterns,\n free=input_free,\n argnums=input_argnums)\n\n def __call__(self, *args, **kwargs):\n return self._flattened_fun(*args, **kwargs)", "patterns=input_patterns,\n            free=input_free,\n            argnums=input_argnums)\n\n    def __call__(self, *args, **kwargs):\n        return self._flattened_fun(*args)")], {'P14'}),
 # P15
 ('v15-nan', O, [("f_val = self._objective_fun(x)", "f_val = self._objective_fun(x)\n        if not np.isfinite(f_val):\n            return f_val")], {'P15'}),
 ('v15-logcopy', O, [("copy.copy(x), f_val))", "np.copy(x) if np.ndim(x) < 2 else x, f_val))")], {'P15'}),
 ('v15-reset', O, [("self.reset_iteration_count()\n self.reset_log()\n\n def reset_iter", "self.reset_log()\n        if self._num_f_evals > 0:\n            self.reset_iteration_count()\n\n    def reset_iter")], {'P15'}),
 ('v15-clear', O, [("def reset_log(self):\n self.optimization_log = []", "def reset_log(self):\n        if hasattr(self, 'optimization_log'):\n            self.optimization_log.clear()\n        else:\n            self.optimization_log = []")], Q),
 ('v15-after', O, [("self._num_f_evals += 1\n return f_val", "self._num_f_evals += 1 if not isinstance(f_val, np.ndarray) else f_val.size\n        return f_val")], {'P15'}),
 ('v15-grad', O, [("self.grad = autograd.grad(self._objective_fun)", "self.grad = autograd.grad(self.f)")], {'P15'}),
 ('v15-hvp', O, [("autograd.hessian_vector_product(self._objective_fun)", "autograd.hessian_vector_product(self._objective_fun, 1)")], {'P15'}),
 ('v15-nlog', O, [("self._log_every = n", "self._log_every = n\n        self.reset_log()")], {'P15'}),
 ('v15-logevery', O, [("self._log_every = n", "self._log_every = n if n != 0 else self._print_every")], {'P15'}),
 # P16
 ('v16-sparseinv', O, [("a_inv_times, _ = get_sparse_product(a_inv)", "_, a_inv_times = get_sparse_product(a_inv)")], {'P16'}),
 ('v16-keepinv', O, [("self._a_times = a_times\n self._a_inv_times = a_inv_times", "self._a_times = a_times\n        if a_inv_times is not None:\n            self._a_inv_times = a_inv_times")], {'P16'}),
 ('v16-rel', O, [("if err > tol:", "if err > tol * max(1, np.linalg.norm(vec)):")], {'P16'}),
 ('v16-order', O, [("err = np.linalg.norm(vec - self._a_times(self._a_inv_times(vec)))", "err = np.max(np.abs(vec - self._a_times(self._a_inv_times(vec))))")], Q),
 ('v16-sym', O, [("mat_sym = 0.5 * (mat + mat.T)\n eig_val, eig_vec = np.linalg.eigh(mat_sym)", "eig_val, eig_vec = np.linalg.eigh(mat)")], Q),
 ('v16-absev', O, [("eig_val_trunc = truncate_eigenvalues(eig_val, ev_min=ev_min, ev_max=ev_max)", "eig_val_trunc = truncate_eigenvalues(np.abs(eig_val), ev_min=ev_min, ev_max=ev_max)")], {'P16'}),
 ('v16-evmin0', O, [("if not ev_min is None:", "if ev_min:")], {'P16'}),
 ('v16-both', O, [("if x is not None and hessian is not None:\n raise ValueError('You must specify x or hessian but not both.')\n", "")], {'P16'}),
 ('v16-mat', O, [("mat.append(mult_fun(vec))\n return np.vstack(mat).T", "mat.append(mult_fun(vec))\n    return np.vstack(mat)")], {'P16'}),
 ('v16-call', O, [("return self._original_fun(self.unprecondition(x_c))", "return self._original_fun(self.precondition(x_c))")], {'P16'}),
 ('v16-cached', O, [("get_original_fun_hessian = autograd.hessian(self._original_fun)\n hessian = get_original_fun_hessian(x)", "if not hasattr(self, '_hess'):\n                self._hess = autograd.hessian(self._original_fun)(x)\n            hessian = self._hess")], {'P16'}),
 ('v16-sp', S, [("_, mult_mat_sqrt_t_ad = get_sparse_product(mat_sqrt)", "_, mult_mat_sqrt_t_ad = get_sparse_product(mat_chol.L())")], {'P16'}),
 # P17
 ('v17-poly', A, [("None, lambda g, ans, n, x: g * sp.special.polygamma(n + 1, x))", "None, lambda g, ans, n, x: g * sp.special.polygamma(np.maximum(n, 1) + 1, x))")], {'P17'}),
 ('v17-rgamma', A, [("lambda g, ans, x: g * sp.special.psi(x) / -sp.special.gamma(x))", "lambda g, ans, x: -g * ans * ans * sp.special.gamma(x) * sp.special.psi(x))")], Q),
 ('v17-gamma', A, [("defjvp(sp.special.gammaln,   lambda g, ans, x: g * sp.special.psi(x))", "defjvp(sp.special.gammaln,   lambda g, ans, x: g * sp.special.psi(np.abs(x)))")], {'P17'}),
 ('v17-slog', A, [("return 0, np.trace(np.linalg.solve(x.T, g.T))", "return 0, ans[0] * np.trace(np.linalg.solve(x.T, g.T))")], {'P17'}),
 ('v17-invbatch', A, [("partial(np.einsum, '...ij,...jk->...ik')\n return -dot", "partial(np.einsum, '...ij,...kj->...ik')\n    return -dot")], {'P17'}),
 ('v17-groupvjp', A, [("return _ungroup(v, groups)\n return vjp", "return _ungroup(v, groups) if num_groups is None else _ungroup(v[:num_groups - 1], groups)\n    return vjp")], {'P17'}),
 ('v17-groupjvp', A, [("return grouped_sum(v, groups, num_groups=num_groups)\n", "return grouped_sum(v, groups)\n")], {'P17'}),
 ('v17-tvjp', A, [("vjp_t_solve, jvp_t_solve = get_grad_funs(zt_solve_ad, z_solve_ad)", "vjp_t_solve, jvp_t_solve = get_grad_funs(z_solve_ad, zt_solve_ad)")], {'P17'}),
 ('v17-replvjp', A, [("lambda ans, x_sub, x, inds: lambda g: g[inds],", "lambda ans, x_sub, x, inds: lambda g: g[inds] if np.ndim(x_sub) else np.sum(g),")], {'P17'}),
 ('v17-jsolve', A, [("return -broadcast_matmul(np.linalg.solve(a, g), ans)", "return -np.linalg.solve(a, broadcast_matmul(g, ans if a.ndim > 2 else b))")], {'P17'}),
 # P18
 ('v18-round', N, [("return copy.copy(free_array)\n else:\n return np.exp(free_array) + lb", "return copy.copy(np.array(free_array, dtype=float))\n        else:\n            return np.exp(free_array) + lb",1)], Q),
 ('v18-where', X, [("log_norm = logsumexp(free_mat_aug, axis=-1)", "log_norm = logsumexp(free_mat_aug, axis=-1)\n    log_norm[np.isinf(log_norm)] = 0.0")], {'P18'}),
 ('v18-item', P, [("np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)\n\n\n# Convert", "np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2) + 0 * float(np.sum(free_vec))\n\n\n# Convert")], {'P18'}),
 ('v18-int', N, [("ratio = np.exp(-1 * np.logaddexp(0, -1 * free_array))\n return np.clip(", "ratio = np.exp(-1 * np.logaddexp(0, -1 * free_array))\n            ratio = np.where(free_array.astype('int64') > 700, 1.0, ratio)\n            return np.clip(")], Q),
 ('v18-maxlist', X, [("mat_max = np.max(mat, axis=axis, keepdims=True)", "mat_max = max(mat.ravel().tolist())")], {'P18'}),
 ('v18-osp', X, [("import autograd.scipy as sp\n", "import autograd.scipy as sp\nimport scipy.special\n"), ("log_norm = logsumexp(free_mat_aug, axis=-1)", "log_norm = scipy.special.logsumexp(free_mat_aug, axis=-1, keepdims=True)")], {'P18'}),
 ('v18-loop', P, [("return _vectorize_ld_matrix(\n _log_matrix_diagonal(np.linalg.cholesky(mat_lb)))", "chol = _log_matrix_diagonal(np.linalg.cholesky(mat_lb))\n    out = np.zeros(k * (k + 1) // 2)\n    out[:] = _vectorize_ld_matrix(chol)\n    return out")], {'P18'}),
 # P19
 ('v19-half', N, [("return -1 * np.log(ub - array)", "return np.log(ub - array)")], {'P19'}),
 ('v19-both', N, [("return np.log(array - lb) - np.log(ub - array)", "return np.log((array - lb) / (ub - array + 1e-300))")], {'P19'}),
 ('v19-clipfree', X, [("return _unconstrain_simplex_matrix(folded_val).flatten()", "return _unconstrain_simplex_matrix(np.maximum(folded_val, 1e-300)).flatten()")], Q),
 ('v19-psdlb', P, [("np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)\n return _vectorize", "np.full(k, min(diag_lb, 0.99 * np.min(np.diag(mat)))), offset=0, axis1=-1, axis2=-2)\n    return _vectorize")], {'P19'}),
 ('v19-big', N, [("if ub == float(\"inf\"):\n if lb == -float(\"inf\"):\n # For consistent", "if ub >= 1e10:\n        if lb == -float(\"inf\"):\n            # For consistent")], {'P19'}),
 # P20
 ('v20-mexp', X, [("return np.exp(free_mat_aug - log_norm)", "exp_mat = np.exp(free_mat_aug)\n    return exp_mat / np.sum(exp_mat, axis=-1, keepdims=True)")], {'P20'}),
 ('v20-clipmarg', N, [("return np.clip((ub - lb) * ratio + lb, lb, ub)", "return np.clip((ub - lb) * ratio + lb, lb - 1e-12, ub)")], {'P20'}),
 ('v20-lerp', N, [("return np.clip((ub - lb) * ratio + lb, lb, ub)", "return ub * ratio + lb * (1 - ratio)")], {'P20'}),
 ('v20-ub', N, [("return ub - np.exp(-1 * free_array)\n else:\n # Written", "return ub - np.exp(np.minimum(-1 * free_array, 700))\n        else:\n            # Written")], Q),
 # P21
 ('v21-jac', N, [("return 1 / (array - lb) + 1 / (ub - array)", "return (ub - lb) / ((array - lb) * (ub - array))")], Q),
 ('v21-jacmid', N, [("return 1 / (array - lb) + 1 / (ub - array)", "return 1 / np.maximum(array - lb, ub - array) + 1 / np.minimum(array - lb, ub - array)")], Q),
 ('v21-simp', X, [("return jac[:, 1:]", "return jac[:, :-1]")], {'P21'}),
 ('v21-sparse', C, [("sp_jac = block_diag(jacobians, format='coo')\n\n if sparse:\n return sp_jac\n else:\n return np.array(sp_jac.todense())\n\n def freeing_jacobian", "sp_jac = block_diag(jacobians, format='coo')\n\n        if sparse or sp_jac.shape[0] > 1000:\n            return sp_jac\n        else:\n            return np.array(sp_jac.todense())\n\n    def freeing_jacobian")], {'P21'}),
 ('v21-abs', N, [("return np.sum(np.log(np.abs(jac_array)))\n\n def log_abs_det_unf", "return np.sum(np.log(np.abs(jac_array[folded_val != self._lb])))\n\n    def log_abs_det_unf")], {'P21'}),
 ('v21-neg', C, [("log_abs_det += pattern.log_abs_det_unfreeing_jacobian(\n folded_val[pattern_name])", "log_abs_det -= pattern.log_abs_det_freeing_jacobian(\n                folded_val[pattern_name])")], Q),
 # P22
 ('v22-simp', X, [("return np.full(self.__shape, 1.0 / self.__simplex_size)", "return np.full(self.__shape, 1.0 / self.__shape[0])")], {'P22'}),
 ('v22-inb', N, [("return 0.5 * (ub - lb) + lb", "return 0.0 if lb <= 0 <= ub else 0.5 * (ub - lb) + lb")], {'P22'}),
 ('v22-psd', P, [("return np.eye(self.__size) * (self.__diag_lb + 1)", "return np.eye(self.__size) * (self.__diag_lb or 1)")], {'P22'}),
 ('v22-rand', B, [("return self.fold(np.random.random(self._free_flat_length), free=True)", "return self.fold(np.random.random(self._flat_length)[:self._free_flat_length], free=True)")], Q),
 ('v22-bool', B, [("bool_vec = np.full(flat_len, value, dtype='bool')", "bool_vec = np.full(flat_len, value, dtype='bool') if value else np.zeros(flat_len)")], {'P22'}),
 # P23
 ('v23-setlike', X, [("if np.any(folded_bool[ind]):", "if np.any(folded_bool[ind]) and not np.all(folded_bool[ind]):")], {'P23'}),
 ('v23-dup', C, [("offset += pattern_flat_length\n if len(indices) > 0:\n return np.hstack(indices)\n else:\n return np.array([], dtype=int)\n\n def flat_names", "if len(pattern_indices) > 0:\n                offset += pattern_flat_length\n        if len(indices) > 0:\n            return np.hstack(indices)\n        else:\n            return np.array([], dtype=int)\n\n    def flat_names")], {'P23'}),
 ('v23-bool', N, [("return self.__free_folded_indices[folded_bool]", "return self.__free_folded_indices[folded_bool > 0]")], Q),
 ('v23-psdlow', P, [("if np.any(folded_bool):\n return np.arange(self.flat_length(True), dtype=int)", "if np.any(np.tril(folded_bool)):\n                return np.arange(self.flat_length(True), dtype=int)")], {'P23'}),
 ('v23-uniq', C, [("return np.hstack(indices)\n else:\n return np.array([], dtype=int)\n\n def flat_names", "return np.unique(np.hstack(indices))\n        else:\n            return np.array([], dtype=int)\n\n    def flat_names")], Q),
 # P24
 ('v24-comp', C, [("np.savez(file, flat_val=flat_val, pattern_json=pattern_json, **argk)", "np.savez_compressed(file, flat_val=flat_val, pattern_json=pattern_json, **argk)")], Q),
 ('v24-path', C, [("data = np.load(file)", "data = np.load(str(file))")], {'P24'}),
 ('v24-order', C, [("np.savez(file, flat_val=flat_val, pattern_json=pattern_json, **argk)", "contents = dict(argk, flat_val=flat_val, pattern_json=pattern_json)\n    np.savez(file, **contents)")], {'??'}),
 ('v24-validate', C, [("folded_val = pattern.fold(data['flat_val'], free=False)", "folded_val = pattern.fold(data['flat_val'].astype(float), free=False)")], {'??'}),
 ('v24-name', C, [("np.savez(file, flat_val=flat_val, pattern_json=pattern_json, **argk)", "if isinstance(file, str):\n        file = file.replace('.npy', '')\n    np.savez(file, flat_val=flat_val, pattern_json=pattern_json, **argk)")], {'P24'}),
 # P25
 ('v25-diag', P, [("if diag_lb < 0:", "if diag_lb < 0 or diag_lb > 1e12:")], {'P25'}),
 ('v25-ubinf', N, [("if lb >= ub:", "if not lb < ub or np.isinf(lb) and np.isinf(ub) and lb > 0:")], Q),
 ('v25-eq', N, [("if lb >= ub:", "if lb > ub or (lb == ub and np.isfinite(lb) and len(self._shape) > 0):")], {'P25'}),
 ('v25-simplex', X, [("self.__simplex_size = int(simplex_size)", "self.__simplex_size = max(int(simplex_size), 2)")], {'P25'}),
 ('v25-abs', P, [("self.__diag_lb = diag_lb", "self.__diag_lb = abs(diag_lb)\n        diag_lb = self.__diag_lb")], {'P25'}),
 # P26
 ('v26-bounds', N, [("return self._lb, self._ub", "return (self._lb, self._ub) if self._lb > -float('inf') or self._ub < float('inf') else None")], {'P26'}),
 ('v26-shape', C, [("def shape(self):\n \"\"\"The shape of a folded value.\n \"\"\"\n return self.__shape", "def shape(self):\n        \"\"\"The shape of a folded value.\n        \"\"\"\n        return tuple(n for n in self.__shape if n != 1)")], {'P26'}),
 ('v26-def', N, [("self.default_validate = default_validate\n self._shape", "self.default_validate = default_validate and (lb > -float('inf') or ub < float('inf'))\n        self._shape")], {'P26'}),
 ('v26-free', B, [("self.free_default = free_default\n", "self.free_default = free_default if flat_length != free_flat_length else None\n")], {'P26'}),
 ('v26-len', N, [("def length(self):\n return self._shape[0]", "def length(self):\n        return self._free_flat_length")], Q),
 # P27
 ('v27-neg', A, [("if max_group >= num_groups:", "if max_group > num_groups:")], {'P27'}),
 ('v27-float', A, [("result = np.zeros((num_groups, ) + x.shape[1:])", "result = np.zeros((num_groups, ) + x.shape[1:], dtype=x.dtype)")], {'P27'}),
 ('v27-fancy', A, [("for n in range(n_obs):\n if x.ndim > 1:\n result[groups[n], :] += x[n, :]\n else:\n result[groups[n]] += x[n]\n return result", "result[groups] += x\n    return result")], {'P27'}),
 ('v27-at', A, [("for n in range(n_obs):\n if x.ndim > 1:\n result[groups[n], :] += x[n, :]\n else:\n result[groups[n]] += x[n]\n return result", "onp = __import__('numpy')\n    onp.add.at(result, groups, x)\n    return result")], Q),
 ('v27-repl', A, [("x_new = np.full(x.shape, float('nan'))\n x_new[:] = x", "x_new = np.copy(x)")], {'P27'}),
 ('v27-replsub', A, [("x_new[inds] = x_sub", "x_new[np.unique(inds)] = x_sub")], {'P27'}),
 ('v27-prod', A, [("return z_mult, zt_mult", "return (z_mult, zt_mult) if z_mat.shape[0] != z_mat.shape[1] else (zt_mult, z_mult)")], {'P27', 'P16'}),
 ('v27-dim', A, [("if (b.ndim > 2):", "if (b.ndim > 1):")], {'P27'}),
 ('v27-lenmis', A, [("if x.shape[0] != n_obs:", "if x.shape[0] < n_obs:")], {'P27'}),
]
