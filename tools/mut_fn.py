"""Bugs and refactorings of wrappers, optimization, preconditioners, saving, queries, effects."""
F, O, S, C, N, P, X, B, A = ('function_patterns.py', 'optimization_lib.py', 'sparse_preconditioners_lib.py', 'pattern_containers.py',
                             'numeric_array_patterns.py', 'psdmatrix_patterns.py', 'simplex_patterns.py', 'base_patterns.py',
                             'autograd_supplement_lib.py')
EDITS = [
    # ---- P13
    ('b13-sort', F, [('for i in self._argnum_sort: argnum = self._argnums[i]', 'for i in self._argnum_sort:\n            argnum = self._argnum_sort[i]')], {'P13'}),
    ('b13-nosort', F, [('for i in self._argnum_sort:', 'for i in range(len(self._argnums)):')], {'P13'}),
    ('b13-freei', F, [('self._patterns[i].fold(args[argnum], free=self.free[i])', 'self._patterns[i].fold(args[argnum], free=self.free[0])')], {'P13'}),
    ('b13-pati', F, [('self._patterns[i].flatten(args[argnum], free=self.free[i])', 'self._patterns[argnum].flatten(args[argnum], free=self.free[i])')], {'P13'}),
    ('b13-last', F, [('last_argnum = argnum + 1', 'last_argnum = argnum')], {'P13'}),
    ('b13-tail', F, [('new_args += args[last_argnum:len(args)]', 'new_args += args[last_argnum:len(args) - 1]')], {'P13'}),
    ('b13-kw', F, [('return self._fun(*new_args, **kwargs)', 'return self._fun(*new_args)')], {'P13'}),
    ('b13-flat', F, [('if self._original_is_flat: val_for_orig', 'if not self._original_is_flat:\n                val_for_orig')], {'P13'}),
    ('b13-dup', F, [('if len(self._argnums) != len(np.unique(self._argnums)):', 'if len(self._argnums) < len(np.unique(self._argnums)):')], {'P13'}),
    ('b13-len', F, [('if len(self._argnums) != len(self._patterns):', 'if len(self._argnums) < len(self._patterns):')], {'P13'}),
    ('b13-validate', F, [('self._original_is_flat = original_is_flat self._validate_args()', 'self._original_is_flat = original_is_flat')], {'P13'}),
    ('b13-default', F, [('argnums = np.arange(0, len(self._patterns))', 'argnums = np.arange(1, len(self._patterns) + 1)')], {'P13'}),
    ('b13-fold', F, [('original_is_flat=True, argnums=argnums)', 'original_is_flat=False,\n            argnums=argnums)')], {'P13'}),
    ('b13-none', F, [('original_is_flat=False, argnums=argnums)', 'original_is_flat=False,\n            argnums=None)')], {'P13'}),
    ('b13-truefree', F, [('free=self.free[i])\n            else: val_for_orig', 'free=bool(self.free[i]) and True)\n            else:\n                val_for_orig')], {'P13'}),
    ('b13-sortpat', F, [('self._argnum_sort = np.argsort(self._argnums)', 'self._argnum_sort = np.argsort(self._argnums)\n        self._argnums = np.sort(self._argnums)')], {'P13'}),
    ('b13-twice', F, [('return self._fun(*new_args, **kwargs)', 'self._last = self._fun(*new_args, **kwargs)\n        return self._fun(*new_args, **kwargs)')], {'P13'}),
    ('r-13a', F, [('new_args = ()\n last_argnum = 0', 'new_args = list(args)\n        last_argnum = 0'), ('new_args += args[last_argnum:argnum] + (val_for_orig, ) last_argnum = argnum + 1 new_args += args[last_argnum:len(args)]', 'new_args[argnum] = val_for_orig')], set()),
    ('r-13b', F, [('new_args += args[last_argnum:len(args)]', 'new_args = new_args + args[last_argnum:]')], set()),
    ('r-13c', F, [('if self._original_is_flat: val_for_orig = \\\n self._patterns[i].flatten(args[argnum], free=self.free[i]) else: val_for_orig = \\\n self._patterns[i].fold(args[argnum], free=self.free[i])', "convert = self._patterns[i].flatten if self._original_is_flat else self._patterns[i].fold\n            val_for_orig = convert(args[argnum], free=self.free[i])")], set()),
    ('r-13d', F, [('for i in self._argnum_sort: argnum = self._argnums[i]', 'for i, argnum in sorted(enumerate(self._argnums), key=lambda p: p[1]):')], set()),
    ('r-13e', F, [('for i in self._argnum_sort: argnum = self._argnums[i]', 'order = self._argnum_sort\n        for k in range(len(order)):\n            i = order[k]\n            argnum = self._argnums[i]')], set()),
    ('r-13f', F, [('val_for_orig = \\\n self._patterns[i].fold(args[argnum], free=self.free[i])', 'val_for_orig = self._to_folded(i, args[argnum])'), ('def __call__(self, *args, **kwargs):', 'def _to_folded(self, i, val):\n        return self._patterns[i].fold(val, free=self.free[i])\n\n    def __call__(self, *args, **kwargs):')], set()),
    ('r-13g', F, [('if len(self._argnums) != len(np.unique(self._argnums)):', 'if len(set(self._argnums)) != len(self._argnums):')], set()),
    ('r-13h', F, [('if len(self._argnums) != len(np.unique(self._argnums)):', 'if np.unique(self._argnums).size < self._argnums.size:')], set()),
    ('r-13i', F, [('for i in self._argnum_sort: argnum = self._argnums[i]', 'for i, argnum in zip(self._argnum_sort, self._argnums[self._argnum_sort]):')], set()),
    # ---- P14
    ('b14-sort', F, [('for i in self._retnum_sort:', 'for i in range(len(self._retnums)):')], {'P14'}),
    ('b14-free', F, [('return self._patterns[0].fold(rets, free=self.free[0])', 'return self._patterns[0].fold(rets)')], {'P14'}),
    ('b14-one', F, [('return self._patterns[0].flatten(rets, free=self.free[0])', 'return self._patterns[0].flatten(rets, free=True)')], {'P14'}),
    ('b14-list', F, [('if not isinstance(rets, tuple):', 'if not isinstance(rets, (tuple, list)):')], {'P14'}),
    ('b14-retnum', F, [('rets[last_retnum:retnum] + (new_ret, )', 'rets[last_retnum:retnum + 1] + (new_ret, )')], {'P14'}),
    ('b14-mismatch', F, [('if not np.array_equal(self._retnums, [0]):', 'if len(self._retnums) > 1:')], {'P14'}),
    ('b14-short', F, [('if len(rets) <= retnum:', 'if len(rets) < retnum:')], {'P14'}),
    ('b14-tail', F, [('new_rets += rets[last_retnum:len(rets)]', 'new_rets += rets[last_retnum + 1:len(rets)]')], {'P14'}),
    ('b14-io', F, [('free=output_free, retnums=output_retnums)', 'free=input_free,\n                retnums=output_retnums)')], {'P14'}),
    ('b14-io2', F, [('patterns=output_patterns, free=output_free, retnums=output_retnums) self._flattened_fun', 'patterns=output_patterns,\n                free=output_free)\n        self._flattened_fun')], {'P14'}),
    ('b14-io3', F, [('original_fun=self._flattened_output', 'original_fun=original_fun')], {'P14'}),
    ('b14-dup', F, [('if len(self._retnums) != len(np.unique(self._retnums)):', 'if self._retnums.ndim != 1:')], {'P14'}),
    ('r-14a', F, [('new_rets = ()\n last_retnum = 0', 'new_rets = list(rets)\n        last_retnum = 0'), ('new_rets += rets[last_retnum:retnum] + (new_ret, ) last_retnum = retnum + 1 new_rets += rets[last_retnum:len(rets)] return new_rets', 'new_rets[retnum] = new_ret\n        return tuple(new_rets)')], set()),
    ('r-14b', F, [('if not np.array_equal(self._retnums, [0]):', 'if list(self._retnums) != [0]:')], set()),
    ('r-14c', F, [('if not np.array_equal(self._retnums, [0]):', 'if len(self._retnums) != 1 or self._retnums[0] != 0:')], set()),
    ('r-14d', F, [('if len(rets) <= retnum:', 'if retnum >= len(rets):')], set()),
    ('r-14e', F, [('rets = self._fun(*args, **kwargs) if not isinstance(rets, tuple):', 'rets = self._fun(*args, **kwargs)\n        if isinstance(rets, tuple) is False:')], set()),
    # ---- P15
    ('b15-reset', O, [('self.reset_iteration_count()\n self.reset_log()', 'self.reset_iteration_count()',1)], {'P15'}),
    ('b15-cnt', O, [('self._num_f_evals += 1 return f_val', 'if self._log_every > 0 or self._print_every > 0:\n            self._num_f_evals += 1\n        return f_val')], {'P15'}),
    ('b15-order', O, [('f_val = self._objective_fun(x) if self._print_every', 'self._num_f_evals += 1\n        f_val = self._objective_fun(x)\n        if self._print_every'), ('self._num_f_evals += 1 return f_val', 'return f_val', 1)], {'P15'}),
    ('b15-modlog', O, [('self._num_f_evals % self._log_every == 0', 'self._num_f_evals % self._print_every == 0')], {'P15'}),
    ('b15-copy', O, [('copy.copy(x), f_val))', 'x, f_val))')], {'P15', 'P12'}),
    ('b15-logx', O, [('self.optimization_log.append((num_f_evals, copy.copy(x), f_val))', 'self.optimization_log.append((self._num_f_evals + 1, copy.copy(x), f_val))')], {'P15'}),
    ('b15-hess', O, [('self.hessian = autograd.hessian(self._objective_fun)', 'self.hessian = autograd.jacobian(self._objective_fun)')], {'P15'}),
    ('b15-gradf', O, [('self.grad = autograd.grad(self._objective_fun)', 'self.grad = autograd.grad(self.f)')], {'P15'}),
    ('b15-hvp', O, [('autograd.hessian_vector_product(self._objective_fun)', 'autograd.hessian_vector_product(self.f)')], {'P15'}),
    ('b15-setlog', O, [('self._log_every = n', 'self._log_every = n\n        self.reset_log()')], {'P15'}),
    ('b15-both', O, [('self.print_value(self._num_f_evals, x, f_val)\n if self._log_every', 'self.print_value(self._num_f_evals, x, f_val)\n        elif self._log_every')], {'P15'}),
    ('b15-val', O, [('f_val = self._objective_fun(x) if self._print_every', 'f_val = self._objective_fun(x)\n        self._last_x = x\n        if self._print_every'), ('self.log_value(self._num_f_evals, x, f_val)', 'self.log_value(self._num_f_evals, self._last_x, self._objective_fun(x))')], {'P15'}),
    ('r-15a', O, [('if self._print_every > 0 and self._num_f_evals % self._print_every == 0: self.print_value(self._num_f_evals, x, f_val) if self._log_every > 0 and self._num_f_evals % self._log_every == 0:', 'if self._due(self._print_every):\n            self.print_value(self._num_f_evals, x, f_val)\n        if self._due(self._log_every):'), ('def f(self, x):', 'def _due(self, every):\n        return every > 0 and self._num_f_evals % every == 0\n\n    def f(self, x):')], set()),
    ('r-15b', O, [('f_val = self._objective_fun(x) if self._print_every', 'n = self._num_f_evals\n        f_val = self._objective_fun(x)\n        if self._print_every'), ('self._num_f_evals += 1 return f_val', 'self._num_f_evals = n + 1\n        return f_val')], set()),
    ('r-15c', O, [('copy.copy(x), f_val))', 'copy.deepcopy(x), f_val))')], set()),
    ('r-15d', O, [('self.reset_iteration_count() self.reset_log()', 'self._num_f_evals = 0\n        self.optimization_log = list()')], set()),
    ('r-15e', O, [("print('Iter {}: f = {:0.8f}'.format(num_f_evals, f_val))", "print(f'Iter {num_f_evals}: f = {f_val:0.8f}')")], set()),
    ('r-15f', O, [('if self._print_every > 0 and self._num_f_evals % self._print_every == 0:', 'if self._print_every > 0 and not self._num_f_evals % self._print_every:')], set()),
    # ---- P16
    ('b16-le', O, [('eig_val_trunc[np.real(eig_val_trunc) <= ev_min] = ev_min', 'eig_val_trunc[np.abs(eig_val_trunc) <= ev_min] = ev_min')], {'P16'}),
    ('b16-ge', O, [('eig_val_trunc[np.real(eig_val_trunc) >= ev_max] = ev_max', 'eig_val_trunc[np.real(eig_val_trunc) >= ev_max] = ev_min')], {'P16'}),
    ('b16-copy', O, [('eig_val_trunc = copy.deepcopy(evals)', 'eig_val_trunc = evals')], {'P11', 'P16'}),
    ('b16-order', O, [('if not ev_max is None: if not np.isreal(ev_max):', 'elif not ev_max is None:\n        if not np.isreal(ev_max):')], {'P16'}),
    ('b16-zero', O, [('if not ev_min is None:', 'if ev_min:')], {'P16'}),
    ('b16-eig', O, [('vec + eigvecs @ ((new_eigvals - 1) * vec_loadings)', 'eigvecs @ (new_eigvals * vec_loadings)')], {'P16'}),
    ('b16-eig1', O, [('((new_eigvals - 1) * vec_loadings)', '(new_eigvals * vec_loadings - 1)')], {'P16'}),
    ('b16-eigT', O, [('vec_loadings = eigvecs.T @ vec', 'vec_loadings = eigvecs @ vec')], {'P16'}),
    ('b16-eigshape', O, [('if eigvecs.shape[1] != len(eigvals):', 'if eigvecs.shape[0] != len(eigvals):')], {'P16'}),
    ('b16-sqrt', O, [('lambda x: 1. / np.sqrt(x))', 'lambda x: 1. / x)')], {'P16'}),
    ('b16-trunc', O, [('transform_eigenspace(eig_vec, eig_val_trunc, np.sqrt)', 'transform_eigenspace(eig_vec, eig_val, np.sqrt)')], {'P16'}),
    ('b16-evs', O, [('ev_min=ev_min, ev_max=ev_max)\n mult_mat_sqrt', 'ev_min=ev_min)\n    mult_mat_sqrt')], {'P16'}),
    ('b16-ret', O, [('return mult_mat_sqrt, mult_mat_inv_sqrt', 'return mult_mat_inv_sqrt, mult_mat_sqrt')], {'P16'}),
    ('b16-swap', O, [('self.set_preconditioner_functions(mult_hess_inv_sqrt, mult_hess_sqrt)', 'self.set_preconditioner_functions(mult_hess_sqrt, mult_hess_inv_sqrt)')], {'P16'}),
    ('b16-op', O, [('return np.vstack(mat).T', 'return np.vstack(mat)')], {'P16'}),
    ('b16-inv', O, [('return _get_matrix_from_operator(self._a_inv_times, dim)', 'return _get_matrix_from_operator(self._a_times, dim)')], {'P16'}),
    ('b16-sparse', O, [('a_inv_times, _ = get_sparse_product(a_inv)', '_, a_inv_times = get_sparse_product(a_inv)')], {'P16'}),
    ('b16-giveninv', O, [('if a_inv is None:\n # On one hand', 'if True:\n                # On one hand')], {'P16'}),
    ('b16-giveninv2', O, [('if a_inv is None: a_inv = osp.sparse.linalg.inv(a)', 'a_inv = osp.sparse.linalg.inv(a)')], {'P16'}),
    ('b16-chk', O, [('self._a_times(self._a_inv_times(vec))', 'self._a_inv_times(self._a_times(vec))')], set()),
    ('b16-chk2', O, [('if err > tol: raise ValueError( (\'``a_times``', 'if err > tol * len(vec):\n            raise ValueError(\n                (\'``a_times``')], {'P16'}),
    ('b16-nan', O, [('x is not None and hessian is not None', 'x is not None and hessian is not None and len(x)')], {'P16'}),
    ('b16-dep', O, [('self.set_preconditioner_matrix(preconditioner, preconditioner_inv)', 'self.set_preconditioner_matrix(preconditioner)')], {'P16'}),
    ('b16-call', O, [('return self._original_fun(self.unprecondition(x_c))', 'return self._original_fun(self.precondition(x_c))')], {'P16'}),
    ('b16-chol', S, [('return mat_chol.apply_Pt(mat_chol.L())', 'return mat_chol.L()')], {'P16'}),
    ('b16-chol2', S, [('_, mult_mat_sqrt_t_ad = get_sparse_product(mat_sqrt)', 'mult_mat_sqrt_t_ad, _ = get_sparse_product(mat_sqrt)')], {'P16'}),
    ('b16-chol3', S, [('osp.sparse.linalg.factorized(mat_sqrt), osp.sparse.linalg.factorized(mat_sqrt_t)', 'osp.sparse.linalg.factorized(mat_sqrt_t),\n                                 osp.sparse.linalg.factorized(mat_sqrt)')], {'P16'}),
    ('b16-ret2', S, [('return mult_hess_sqrt, mult_hess_inv_sqrt', 'return mult_hess_inv_sqrt, mult_hess_sqrt')], {'P16'}),
    ('r-16a', O, [('return vec + eigvecs @ ((new_eigvals - 1) * vec_loadings)', 'vec_perp = vec - eigvecs @ vec_loadings\n        return vec_perp + eigvecs @ (new_eigvals * vec_loadings)')], set()),
    ('r-16b', O, [('mat_sym = 0.5 * (mat + mat.T)', 'mat_sym = (mat + np.transpose(mat)) / 2')], set()),
    ('r-16c', O, [('return np.vstack(mat).T', 'return np.array(mat).T')], set()),
    ('r-16d', O, [('vec = np.zeros(dim) vec[i] = 1.0 mat.append(mult_fun(vec))', 'vec = np.eye(dim)[i]\n        mat.append(mult_fun(vec))')], set()),
    ('r-16e', O, [('mat.append(mult_fun(vec))\n return np.vstack(mat).T', 'mat.append(mult_fun(vec))\n    return np.stack(mat, axis=1)')], set()),
    ('b16-notrans', O, [('return np.vstack(mat).T', 'return np.vstack(mat)')], {'P16'}),
    ('r-16e', O, [('lambda x: 1. / np.sqrt(x))', 'lambda x: np.sqrt(1. / x))')], set()),
    ('r-16f', O, [('lambda x: 1. / np.sqrt(x))', 'lambda ev: ev ** -0.5)')], set()),
    ('r-16g', O, [('if x is not None and hessian is not None: raise ValueError(\'You must specify x or hessian but not both.\') if x is None and hessian is None:', "if x is None and hessian is None:\n            raise ValueError('You must specify either x or hessian.')\n        if x is not None and hessian is not None:\n            raise ValueError('You must specify x or hessian but not both.')\n        if False:")], set()),
    ('r-16h', O, [('eig_val_trunc[np.real(eig_val_trunc) <= ev_min] = ev_min', 'low = np.real(eig_val_trunc) < ev_min\n        eig_val_trunc[low] = ev_min')], set()),
    ('r-16i', O, [('def a_times(vec): return a @ vec', 'a_times = lambda vec: np.dot(a, vec)')], set()),
    ('r-16j', O, [('hessian is None:\n # We now know x is not None. get_original_fun_hessian = autograd.hessian(self._original_fun) hessian = get_original_fun_hessian(x)', 'hessian is None:\n            hessian = autograd.hessian(self._original_fun)(x)')], set()),
    # ---- P11
    ('b11-inplace', N, [('return folded_val.flatten()', 'folded_val[:] = folded_val + 0.0\n            return folded_val.flatten()')], {'P11'}),
    ('b11-dictpop', C, [('folded_val[pattern_name], free=free, validate_value=validate_value)', 'folded_val.pop(pattern_name),\n                    free=free,\n                    validate_value=validate_value)')], {'P11'}),
    ('b11-clip', X, [('return _unconstrain_simplex_matrix(folded_val).flatten()', 'folded_val /= np.sum(folded_val, axis=-1, keepdims=True)\n            return _unconstrain_simplex_matrix(folded_val).flatten()')], {'P11'}),
    ('b11-fillsym', P, [('if free: return _pack_posdef_matrix(folded_val', 'folded_val[0, 0] += 0.\n        if free:\n            return _pack_posdef_matrix(folded_val')], {'P11'}),
    ('b11-cache', B, [('def to_json(self):', 'def to_json(self):\n        self._json_count = getattr(self, "_json_count", 0) + 1')], set()),
    ('b11-state', C, [('free = self._free_with_default(free)\n flat_val = np.atleast_1d(flat_val)', 'free = self._free_with_default(free)\n        self.free_default = free\n        flat_val = np.atleast_1d(flat_val)')], {'P11'}),
    ('b11-jsonpop', C, [("for pattern_name in json_dict['keys']:", "for pattern_name in json_dict.pop('keys'):")], set()),
    ('b11-warn', X, [('simplex_sums = np.sum(folded_val, axis=-1)', 'np.seterr(all="ignore")\n            simplex_sums = np.sum(folded_val, axis=-1)')], {'P11'}),
    # ---- P12
    ('b12-reshape', N, [('return folded_val.flatten()', 'return folded_val.ravel()')], {'P12'}),
    ('b12-fold', P, [('np.array(flat_val), (self.__size, self.__size))', 'flat_val, (self.__size, self.__size))')], {'P12'}),
    ('b12-keys', C, [('return self.__pattern_dict.keys()', 'return self.__pattern_dict')], {'P12', 'P09', 'P26'}),
    # ---- P24
    ('b24-free', C, [('flat_val = pattern.flatten(folded_val, free=False)', 'flat_val = pattern.flatten(folded_val, free=pattern.free_default)')], {'P24'}),
    ('b24-key', C, [("pattern.fold(data['flat_val'], free=False)", "pattern.fold(data['flat_val'])")], {'P24'}),
    ('b24-argk', C, [('pattern_json=pattern_json, **argk)', 'pattern_json=pattern_json)')], {'P24'}),
    ('b24-mode', C, [('flat_val = pattern.flatten(folded_val, free=False)', 'flat_val = pattern.flatten(folded_val, free=True)'), ("pattern.fold(data['flat_val'], free=False)", "pattern.fold(data['flat_val'], free=True)")], {'P24'}),
    ('b24-round', C, [('np.savez(file, flat_val=flat_val,', 'np.savez(file, flat_val=np.float32(flat_val),')], {'P24'}),
    ('b24-ret', C, [('return folded_val, pattern, data', 'return folded_val, data, pattern')], {'P24'}),
    ('r-24a', C, [('np.savez(file, flat_val=flat_val, pattern_json=pattern_json, **argk)', 'np.savez(file, **dict(argk, flat_val=flat_val, pattern_json=pattern_json))')], set()),
    ('r-24b', C, [("pattern = get_pattern_from_json(str(data['pattern_json']))", "json_str = str(data['pattern_json'])\n    pattern = get_pattern_from_json(json_str)")], set()),
    ('r-24c', C, [("pattern = get_pattern_from_json(str(data['pattern_json']))", "pattern = get_pattern_from_json(data['pattern_json'].item())")], set()),
    # ---- P26
    ('b26-shape', X, [('return self.__array_shape', 'return self.__shape')], {'P26'}),
    ('b26-size', P, [('return self.__size', 'return self.__size * self.__size', 1)], {'P26'}),
    ('b26-diag', P, [('return self.__diag_lb', 'return self.__diag_lb or 0.0')], set()),
    ('b26-shape2', N, [('return self._shape', 'return self._shape[:]')], set()),
    ('b26-arr', C, [('return self.__array_shape', 'return list(self.__array_shape)')], {'P26'}),
    # ---- P09/P10
    ('b09-final', C, [('def lock(self): self.__lock = True', 'def lock(self):\n        self.__lock = not self.__lock'), ], {'P09'}),
    ('b09-unlock', C, [('self.__pattern_dict.pop(pattern_name)', 'self.__pattern_dict.pop(pattern_name)\n        if isinstance(pattern, PatternDict):\n            pattern.__lock = False')], {'P09'}),
    ('b09-items', C, [('def keys(self):', 'def items(self):\n        return self.__pattern_dict\n\n    def keys(self):')], {'P09', 'P12'}),
    ('b09-locked', C, [('self.__lock = False', 'self.__lock = free_default is not None')], {'P09'}),
    ('b10-init', C, [('super().__init__(0, 0, free_default=free_default)', 'super().__init__(0, 1, free_default=free_default)')], {'P10'}),
    ('b10-getcopy', C, [('return self.__pattern_dict[key]', 'return self.__pattern_dict.get(key)')], {'P10'}),
    ('b10-getfirst', C, [('return self.__pattern_dict[key]', 'return list(self.__pattern_dict.values())[0]')], {'P10'}),
    ('b10-keys', C, [('return self.__pattern_dict.keys()', 'return sorted(self.__pattern_dict.keys())')], {'P10', 'P26'}),
    # ---- P01 truthiness, P05 total, P06 names-count, P18 primitive, P23 accepts
    ('b01-cmp', B, [('free = self._free_with_default(free)\n if free: return self._free_flat_length', 'free = self._free_with_default(free)\n        if not free:\n            return self._free_flat_length')], {'P02','P06','P10','P22','P23'}),
    ('b05-raise', P, [("if not (folded_val.transpose() == folded_val).all():", "if not (folded_val.transpose() == folded_val).all():\n                raise ValueError('Matrix is not symmetric.')")], {'P05'}),
    ('b05-raise2', C, [("if not pattern_name in folded_val: return \\\n False, \\\n '{} not in folded_val dictionary.'.format(pattern_name)", "pass")], {'P05'}),
    ('b06-ncount', N, [('for item in itertools.product(*array_ranges):', 'for item in itertools.product(*array_ranges[1:]):')], {'P06'}),
    ('b06-ncount2', B, [('[ str(i) for i in range(self.flat_length(free)) ]', '[ str(i) for i in range(self.flat_length(False)) ]')], {'P06'}),
    ('b11-memo2', C, [('free = self._free_with_default(free)\n return self._free_flat_length if free else self._flat_length', 'free = self._free_with_default(free)\n        if getattr(self, "_len", None) is None:\n            self._len = self._free_flat_length if free else self._flat_length\n        return self._len')], {'P11'}),
    ('r11-memo3', C, [('free = self._free_with_default(free)\n return self._free_flat_length if free else self._flat_length', 'free = self._free_with_default(free)\n        if not hasattr(self, "_lens"):\n            self._lens = {}\n        if free not in self._lens:\n            self._lens[free] = self._free_flat_length if free else self._flat_length\n        return self._lens[free]')], set()),
    ('r11-memo4', C, [('free = self._free_with_default(free)\n return self._free_flat_length if free else self._flat_length', 'free = self._free_with_default(free)\n        if not hasattr(self, "_len"):\n            self._len = None\n        if self._len is None or self._len[0] != free:\n            self._len = (free, self._free_flat_length if free else self._flat_length)\n        return self._len[1]')], set()),
    ('b11-memo5', C, [('free = self._free_with_default(free)\n return self._free_flat_length if free else self._flat_length', 'free = self._free_with_default(free)\n        if not hasattr(self, "_lens"):\n            self._lens = {}\n        if self.free_default not in self._lens:\n            self._lens[self.free_default] = self._free_flat_length if free else self._flat_length\n        return self._lens[self.free_default]')], {'P11'}),
    ('b11-stale', C, [('def _update_flat_length(self, free):', 'def flat_length(self, free=None):\n        free = self._free_with_default(free)\n        if not hasattr(self, "_lens"):\n            self._lens = {}\n        if free not in self._lens:\n            self._lens[free] = self._update_flat_length(free)\n        return self._lens[free]\n\n    def _update_flat_length(self, free):')], {'P11'}),
    ('r11-fresh', C, [('def _update_flat_length(self, free):', 'def flat_length(self, free=None):\n        free = self._free_with_default(free)\n        if not hasattr(self, "_lens"):\n            self._lens = {}\n        if free not in self._lens:\n            self._lens[free] = self._update_flat_length(free)\n        return self._lens[free]\n\n    def _check_lock(self):\n        if self.__lock:\n            raise ValueError()\n        self._lens = {}\n\n    def _update_flat_length(self, free):')], set()),
]
