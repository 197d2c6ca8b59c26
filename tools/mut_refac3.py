"""Edits that keep the behaviour, written with less usual language constructs. No check may raise an alarm on them."""
F, O, S, C, N, P, X, B, A = ('function_patterns.py', 'optimization_lib.py', 'sparse_preconditioners_lib.py', 'pattern_containers.py',
                             'numeric_array_patterns.py', 'psdmatrix_patterns.py', 'simplex_patterns.py', 'base_patterns.py',
                             'autograd_supplement_lib.py')
Q = set()
LEN = "return int(np.sum([pattern.flat_length(free)\n for pattern_name, pattern in\n self.__pattern_dict.items()]))"
FLD = "folded_val = OrderedDict()\n offset = 0\n for pattern_name, pattern in self.__pattern_dict.items():\n pattern_flat_length = pattern.flat_length(free)\n pattern_flat_val = flat_val[offset:(offset + pattern_flat_length)]\n offset += pattern_flat_length\n # Containers must not mix free and non-free values, so do not\n # use default values for free.\n folded_val[pattern_name] = \\\n pattern.fold(pattern_flat_val,\n free=free,\n validate_value=validate_value)"
IN = "new_args = ()\n last_argnum = 0\n for i in self._argnum_sort:\n argnum = self._argnums[i]\n if self._original_is_flat:\n val_for_orig = \\\n self._patterns[i].flatten(args[argnum], free=self.free[i])\n else:\n val_for_orig = \\\n self._patterns[i].fold(args[argnum], free=self.free[i])\n new_args += args[last_argnum:argnum] + (val_for_orig, )\n last_argnum = argnum + 1\n new_args += args[last_argnum:len(args)]\n return self._fun(*new_args, **kwargs)"
IDX = "offset = 0\n indices = []\n for pattern_name, pattern in self.__pattern_dict.items():\n pattern_flat_length = pattern.flat_length(free)\n # Containers must not mix free and non-free values, so do not\n # use default values for free.\n pattern_indices = pattern.flat_indices(\n folded_bool[pattern_name], free=free)\n if len(pattern_indices) > 0:\n indices.append(pattern_indices + offset)\n offset += pattern_flat_length\n if len(indices) > 0:\n return np.hstack(indices)\n else:\n return np.array([], dtype=int)"
EDITS = [
 ('s-len-mapsum', C, [(LEN, "return int(sum(map(lambda p: p.flat_length(free), self.__pattern_dict.values())))")], Q),
 ('s-len-reduce', C, [(LEN, "import functools\n        return int(functools.reduce(lambda total, p: total + p.flat_length(free), self.__pattern_dict.values(), 0))")], Q),
 ('s-len-while', C, [(LEN, "patterns = list(self.__pattern_dict.values())\n        total = 0\n        while patterns:\n            total += patterns.pop().flat_length(free)\n        return int(total)")], Q),
 ('s-len-generator', C, [(LEN, "return int(sum(pattern.flat_length(free) for pattern in self.__pattern_dict.values()))")], Q),
 ('s-len-kw', C, [(LEN, "lengths = [self.__pattern_dict[key].flat_length(free=free) for key in self.keys()]\n        return int(np.sum(lengths)) if lengths else 0")], Q),
 ('s-fold-accum', C, [(FLD, "ends = list(itertools.accumulate(p.flat_length(free) for p in self.__pattern_dict.values()))\n        starts = [0] + ends[:-1]\n        folded_val = OrderedDict()\n        for (name, pattern), start, end in zip(self.__pattern_dict.items(), starts, ends):\n            folded_val[name] = pattern.fold(flat_val[start:end], free=free, validate_value=validate_value)")], Q),
 ('s-fold-closure', C, [(FLD, "folded_val = OrderedDict()\n        rest = flat_val\n\n        def take(length):\n            nonlocal rest\n            head, rest = rest[:length], rest[length:]\n            return head\n\n        for pattern_name, pattern in self.__pattern_dict.items():\n            folded_val[pattern_name] = pattern.fold(\n                take(pattern.flat_length(free)), free=free, validate_value=validate_value)")], Q),
 ('s-fold-while', C, [(FLD, "folded_val = OrderedDict()\n        keys = list(self.__pattern_dict.keys())\n        offset = 0\n        k = 0\n        while k < len(keys):\n            pattern = self.__pattern_dict[keys[k]]\n            end = offset + pattern.flat_length(free)\n            folded_val[keys[k]] = pattern.fold(flat_val[offset:end], free=free, validate_value=validate_value)\n            offset = end\n            k += 1")], Q),
 ('s-fold-slice', C, [(FLD, "folded_val = OrderedDict()\n        offset = 0\n        for key in self.keys():\n            pattern = self[key]\n            span = slice(offset, offset + pattern.flat_length(free))\n            offset = span.stop\n            folded_val[key] = pattern.fold(flat_val[span], free=free, validate_value=validate_value)")], Q),
 ('s-fold-update', C, [(FLD, "folded_val = OrderedDict()\n        offset = 0\n        for name, pattern in self.__pattern_dict.items():\n            n = pattern.flat_length(free)\n            folded_val.update({name: pattern.fold(flat_val[offset:offset + n], free, validate_value)})\n            offset += n")], Q),
 ('s-idx-lists', C, [(IDX, "indices = [np.array([], dtype=int)]\n        offset = 0\n        for pattern_name, pattern in self.__pattern_dict.items():\n            pattern_indices = pattern.flat_indices(folded_bool[pattern_name], free=free)\n            if len(pattern_indices) > 0:\n                indices.append(offset + pattern_indices)\n            offset += pattern.flat_length(free)\n        return np.hstack(indices)")], Q),
 ('s-idx-continue', C, [("if len(pattern_indices) > 0:\n indices.append(pattern_indices + offset)\n offset += pattern_flat_length\n if len(indices) > 0:\n return np.hstack(indices)\n else:\n return np.array([], dtype=int)\n\n def flat_names", "start = offset\n            offset += pattern_flat_length\n            if len(pattern_indices) == 0:\n                continue\n            indices.append(pattern_indices + start)\n        if not indices:\n            return np.array([], dtype=int)\n        return np.hstack(indices)\n\n    def flat_names")], Q),
 ('s-in-star', F, [(IN, "new_args = list(args)\n        for argnum, pattern, free in zip(self._argnums, self._patterns, self.free):\n            convert = getattr(pattern, 'flatten' if self._original_is_flat else 'fold')\n            new_args[argnum] = convert(new_args[argnum], free=free)\n        return self._fun(*new_args, **kwargs)")], Q),
 ('s-in-comp', F, [(IN, "where = {int(n): i for i, n in enumerate(self._argnums)}\n\n        def convert(i, val):\n            method = self._patterns[i].flatten if self._original_is_flat else self._patterns[i].fold\n            return method(val, free=self.free[i])\n\n        return self._fun(*[convert(where[n], arg) if n in where else arg for n, arg in enumerate(args)], **kwargs)")], Q),
 ('s-in-recur', F, [("new_args += args[last_argnum:len(args)]", "new_args = new_args + tuple(args[last_argnum:])")], Q),
 ('s-in-sortedpairs', F, [("for i in self._argnum_sort:\n argnum = self._argnums[i]", "for argnum, i in sorted(zip(self._argnums, range(len(self._argnums)))):")], Q),
 ('s-in-prop', F, [("self._argnum_sort = np.argsort(self._argnums)", "pass"), ("for i in self._argnum_sort:", "for i in np.argsort(self._argnums):")], Q),
 ('s-out-try', F, [("if not isinstance(rets, tuple):\n if not np.array_equal(self._retnums, [0]):", "single = not isinstance(rets, tuple)\n        if single:\n            if self._retnums.tolist() != [0]:")], Q),
 ('s-out-split', F, [("# rets is a tuple containing multiple return values.\n new_rets = ()", "return self._convert_tuple(rets)\n\n    def _convert_tuple(self, rets):\n        new_rets = ()")], Q),
 ('s-out-pos', F, [("new_rets += rets[last_retnum:retnum] + (new_ret, )", "new_rets = (*new_rets, *rets[last_retnum:retnum], new_ret)")], Q),
 ('s-out-raiseif', F, [("if len(rets) <= retnum:\n err_msg = ('Not enough return values in {} ({}) for ' +\n 'specified retnums {}.').format(\n self._fun,\n len(rets),\n self._retnums)\n raise ValueError(err_msg)", "try:\n                rets[retnum]\n            except IndexError:\n                raise ValueError('Not enough return values in {} ({}) for specified retnums {}.'.format(self._fun, len(rets), self._retnums))")], Q),
 ('s-io-args', F, [("self._folded_fun = FoldFunctionInput(\n original_fun=self._folded_output,\n patterns=input_patterns,\n free=input_free,\n argnums=input_argnums)", "input_args = dict(patterns=input_patterns, free=input_free, argnums=input_argnums)\n        self._folded_fun = FoldFunctionInput(self._folded_output, **input_args)")], Q),
 ('s-opt-with', O, [("self.optimization_log.append((num_f_evals, copy.copy(x), f_val))", "self.optimization_log += [(num_f_evals, copy.copy(x), f_val)]")], Q),
 ('s-opt-static', O, [("if self._print_every > 0 and self._num_f_evals % self._print_every == 0:\n self.print_value(self._num_f_evals, x, f_val)\n if self._log_every > 0 and self._num_f_evals % self._log_every == 0:\n self.log_value(self._num_f_evals, x, f_val)", "for every, report in ((self._print_every, self.print_value),\n                              (self._log_every, self.log_value)):\n            if every > 0 and self._num_f_evals % every == 0:\n                report(self._num_f_evals, x, f_val)")], Q),
 ('s-opt-walrus', O, [("if self._log_every > 0 and self._num_f_evals % self._log_every == 0:", "if (every := self._log_every) > 0 and self._num_f_evals % every == 0:")], Q),
 ('s-opt-truncmax', O, [("eig_val_trunc[np.real(eig_val_trunc) <= ev_min] = ev_min", "eig_val_trunc[np.real(eig_val_trunc) < ev_min] = ev_min")], Q),
 ('s-opt-trunclocal', O, [("eig_val_trunc = copy.deepcopy(evals)", "def checked(bound, name):\n        if not np.isreal(bound):\n            raise ValueError(name + ' must be real-valued.')\n        return float(bound)\n\n    eig_val_trunc = copy.deepcopy(evals)"), ("if not np.isreal(ev_min):\n raise ValueError('ev_min must be real-valued.')\n ev_min = float(ev_min)", "ev_min = checked(ev_min, 'ev_min')"), ("if not np.isreal(ev_max):\n raise ValueError('ev_max must be real-valued.')\n ev_max = float(ev_max)", "ev_max = checked(ev_max, 'ev_max')")], Q),
 ('s-opt-eigpair', O, [("mult_mat_sqrt = \\\n transform_eigenspace(eig_vec, eig_val_trunc, np.sqrt)\n mult_mat_inv_sqrt = \\\n transform_eigenspace(eig_vec, eig_val_trunc, lambda x: 1. / np.sqrt(x))\n return mult_mat_sqrt, mult_mat_inv_sqrt", "def inv_sqrt(x):\n        return x ** (-0.5)\n\n    return tuple(\n        transform_eigenspace(eig_vec, eig_val_trunc, fun)\n        for fun in (np.sqrt, inv_sqrt))")], Q),
 ('s-opt-hvp', O, [("self.grad = autograd.grad(self._objective_fun)\n self.hessian = autograd.hessian(self._objective_fun)", "for name in ('grad', 'hessian'):\n            setattr(self, name, getattr(autograd, name)(self._objective_fun))")], Q),
 ('s-opt-matloop', O, [("mat = []\n for i in range(dim):\n # Re-instantiate to make sure that mult_fun is not returning a reference.\n vec = np.zeros(dim)\n vec[i] = 1.0\n mat.append(mult_fun(vec))\n return np.vstack(mat).T", "mat = np.empty((dim, dim))\n    for i in range(dim):\n        vec = np.zeros(dim)\n        vec[i] = 1.0\n        mat[:, i] = mult_fun(vec)\n    return mat")], Q),
 ('s-num-const', N, [("if ub == float(\"inf\"):\n if lb == -float(\"inf\"):\n # For consistent behavior, never return a reference.\n # Note that deepcopy will cause autograd to fail.\n return copy.copy(array)\n else:\n return np.log(array - lb)\n else: # the upper bound is finite\n if lb == -float(\"inf\"):\n return -1 * np.log(ub - array)\n else:\n return np.log(array - lb) - np.log(ub - array)", "has_lb = lb > -np.inf\n    has_ub = ub < np.inf\n    if not (has_lb or has_ub):\n        return copy.copy(array)\n    result = 0.0\n    if has_lb:\n        result = result + np.log(array - lb)\n    if has_ub:\n        result = result - np.log(ub - array)\n    return result")], Q),
 ('s-num-table', N, [("if ub == float(\"inf\"):\n if lb == -float(\"inf\"):\n return np.ones_like(array)\n else:\n return 1.0 / (array - lb)\n else: # the upper bound is finite\n if lb == -float(\"inf\"):\n return 1.0 / (ub - array)\n else:\n return 1 / (array - lb) + 1 / (ub - array)", "bounded_below = lb != -np.inf\n    bounded_above = ub != np.inf\n    rules = {\n        (False, False): lambda: np.ones_like(array),\n        (True, False): lambda: 1.0 / (array - lb),\n        (False, True): lambda: 1.0 / (ub - array),\n        (True, True): lambda: 1.0 / (array - lb) + 1.0 / (ub - array)}\n    return rules[bounded_below, bounded_above]()")], Q),
 ('s-num-subclass', N, [("super().__init__(shape=(1, ), lb=lb, ub=ub,\n default_validate=default_validate,\n free_default=free_default)", "config = {'lb': lb, 'ub': ub, 'default_validate': default_validate}\n        super().__init__((1, ), free_default=free_default, **config)")], Q),
 ('s-num-checkfn', N, [("valid, msg = self.validate_folded(folded_val, validate_value)\n if not valid:\n raise ValueError(msg)\n return folded_val", "self._require_valid(folded_val, validate_value)\n            return folded_val"), ("valid, msg = self.validate_folded(folded_val, validate_value)\n if not valid:\n raise ValueError(msg)\n if free:", "self._require_valid(folded_val, validate_value)\n        if free:"), ("def shape(self):\n return self._shape", "def _require_valid(self, folded_val, validate_value):\n        valid, msg = self.validate_folded(folded_val, validate_value)\n        if not valid:\n            raise ValueError(msg)\n\n    def shape(self):\n        return self._shape")], Q),
 ('s-num-any', N, [("if (np.array(folded_val < self._lb)).any():", "if not np.all(folded_val >= self._lb) and np.any(folded_val < self._lb):")], Q),
 ('s-num-jacboth', N, [("jac_array = \\\n _constrain_array_jacobian(\n _unconstrain_array(folded_val, self._lb, self._ub),\n self._lb, self._ub)\n jac_array = np.atleast_1d(jac_array).flatten()\n if sparse:\n return osp.sparse.diags(jac_array)\n else:\n return np.diag(jac_array)", "free_val = _unconstrain_array(folded_val, self._lb, self._ub)\n        return self._diagonal(_constrain_array_jacobian(free_val, self._lb, self._ub), sparse)\n\n    @staticmethod\n    def _diagonal(jac_array, sparse):\n        make = osp.sparse.diags if sparse else np.diag\n        return make(np.atleast_1d(jac_array).flatten())")], Q),
 ('s-num-idx', N, [("if free:\n return self.__free_folded_indices[folded_bool]\n else:\n return self.__nonfree_folded_indices[folded_bool]", "return (self.__free_folded_indices if free else self.__nonfree_folded_indices)[folded_bool]")], Q),
 ('s-num-idx2', N, [("if free:\n return self.__free_folded_indices[folded_bool]\n else:\n return self.__nonfree_folded_indices[folded_bool]", "return np.flatnonzero(folded_bool)")], Q),
 ('s-psd-symidx', P, [("def ld_ind(k1, k2):\n return int(k2 + k1 * (k1 + 1) / 2)\n\n if k2 <= k1:\n return ld_ind(k1, k2)\n else:\n return ld_ind(k2, k1)", "row, col = max(k1, k2), min(k1, k2)\n    return col + row * (row + 1) // 2")], Q),
 ('s-psd-decor', P, [("@primitive\ndef _unvectorize_ld_matrix(vec):", "def _unvectorize_ld_matrix(vec):"), ("# Because we cannot use autograd with array assignment, define the", "_unvectorize_ld_matrix = primitive(_unvectorize_ld_matrix)\n\n\n# Because we cannot use autograd with array assignment, define the")], Q),
 ('s-psd-eye', P, [("np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)\n return _vec", "diag_lb * np.ones(k), offset=0, axis1=-1, axis2=-2)\n    return _vec")], Q),
 ('s-psd-empty', P, [("return np.eye(self.__size) * (self.__diag_lb + 1)", "return np.diag(np.full(self.__size, self.__diag_lb + 1.0))")], Q),
 ('s-psd-valid', P, [("if validate_value is None:\n validate_value = self.default_validate\n if validate_value:\n if np.any(np.diag(folded_val) < self.__diag_lb):", "check_value = self.default_validate if validate_value is None else validate_value\n        if check_value:\n            if np.min(np.diag(folded_val)) < self.__diag_lb:")], Q),
 ('s-simp-reversed', X, [("array_ranges = [ range(i) for i in self.__array_shape ]\n jacobians = []\n for item in itertools.product(*array_ranges):\n jac = _unconstrain_simplex_jacobian(folded_val[item][:])\n jacobians.append(jac)", "simplexes = np.reshape(folded_val, (-1, self.__simplex_size))\n        jacobians = [_unconstrain_simplex_jacobian(row) for row in simplexes]")], Q),
 ('s-simp-map', X, [("array_ranges = [ range(i) for i in self.__array_shape ]\n jacobians = []\n for item in itertools.product(*array_ranges):\n jac = _constrain_simplex_jacobian(folded_val[item][:])\n jacobians.append(jac)", "jacobians = list(map(\n            lambda item: _constrain_simplex_jacobian(folded_val[item]),\n            np.ndindex(*self.__array_shape)))")], Q),
 ('s-simp-insert', X, [("reference_col = np.expand_dims(np.full(free_mat.shape[0:-1], 0), axis=-1)\n free_mat_aug = np.concatenate([reference_col, free_mat], axis=-1)", "free_mat_aug = np.concatenate(\n        [np.zeros_like(free_mat[..., :1]), free_mat], axis=-1)")], Q),
 ('s-simp-shape', X, [("if folded_val.shape != self.__shape:\n return False, 'The folded value has the wrong shape.'\n else:\n return True, ''", "shape_ok = folded_val.shape == self.__shape\n        return shape_ok, '' if shape_ok else 'The folded value has the wrong shape.'")], Q),
 ('s-simp-uncjac', X, [("return np.hstack(\n [ np.full(len(simplex_vec) - 1, -1 / simplex_vec[0])[:, None],\n np.diag(1 / simplex_vec[1: ]) ])", "first_col = np.full((len(simplex_vec) - 1, 1), -1 / simplex_vec[0])\n    return np.concatenate([first_col, np.diag(1 / simplex_vec[1:])], axis=1)")], Q),
 ('s-base-namespace', B, [("return [ str(i) for i in range(self.flat_length(free)) ]", "return list(map(str, range(self.flat_length(free))))")], Q),
 ('s-base-jsonkw', B, [("del json_dict['pattern']\n return cls(**json_dict)", "_ = json_dict.pop('pattern', None)\n        return cls(**json_dict)")], Q),
 ('s-base-coo', B, [("if sparse:\n return coo_matrix(jac)\n else:\n return jac\n\n def unfreeing_jacobian", "return coo_matrix(jac) if sparse else jac\n\n    def unfreeing_jacobian")], Q),
 ('s-ad-group', A, [("for n in range(n_obs):\n if x.ndim > 1:\n result[groups[n], :] += x[n, :]\n else:\n result[groups[n]] += x[n]\n return result", "for n, group in enumerate(groups):\n        result[group, ...] += x[n, ...]\n    return result")], Q),
 ('s-ad-group2', A, [("max_group = np.max(groups)\n if num_groups is None:\n num_groups = max_group + 1\n else:\n if max_group >= num_groups:\n raise ValueError(\n 'The largest group is >= the number of groups.')", "needed = groups.max() + 1\n    if num_groups is None:\n        num_groups = needed\n    elif needed > num_groups:\n        raise ValueError('The largest group is >= the number of groups.')")], Q),
 ('s-ad-ungroup', A, [("if v.ndim > 1:\n return v[groups, :]\n else:\n return v[groups]", "return np.take(v, groups, axis=0)")], Q),
 ('s-ad-checkb', A, [("def check_b(b):\n b = np.atleast_1d(b)\n if (b.ndim > 2):\n raise ValueError('The argument must be at most two dimensional.')\n return b", "def check_b(b):\n        b_array = np.atleast_1d(b)\n        if b_array.ndim in (1, 2):\n            return b_array\n        raise ValueError('The argument must be at most two dimensional.')")], Q),
 ('s-ad-solver', A, [("vjp_solve, jvp_solve = get_grad_funs(z_solve_ad, zt_solve_ad)\n vjp_t_solve, jvp_t_solve = get_grad_funs(zt_solve_ad, z_solve_ad)\n defjvp(z_solve_ad, jvp_solve)\n defjvp(zt_solve_ad, jvp_t_solve)\n\n defvjp(z_solve_ad, vjp_solve)\n defvjp(zt_solve_ad, vjp_t_solve)", "for fun, fun_t in ((z_solve_ad, zt_solve_ad), (zt_solve_ad, z_solve_ad)):\n        vjp_fun, jvp_fun = get_grad_funs(fun, fun_t)\n        defjvp(fun, jvp_fun)\n        defvjp(fun, vjp_fun)")], Q),
 ('s-ad-prodpair', A, [("@primitive\n def zt_mult(b):\n return z_mat.T @ check_b(b)", "zt_mat = z_mat.T\n\n    @primitive\n    def zt_mult(b):\n        return zt_mat @ check_b(b)")], Q),
 ('s-ad-psi', A, [("lambda g, ans, x: g * sp.special.psi(x) / -sp.special.gamma(x))", "lambda g, ans, x: -g * ans * sp.special.psi(x))")], Q),
 ('s-dict-setlock', C, [("if isinstance(self.__pattern_dict[pattern_name], PatternDict):\n self.__pattern_dict[pattern_name].lock()", "if isinstance(pattern, PatternDict):\n            pattern.lock()")], Q),
 ('s-dict-decor', C, [("def _check_lock(self):\n if self.__lock:\n raise ValueError(\n 'The dictionary is locked, and its values cannot be changed.')", "def is_locked(self):\n        return self.__lock\n\n    def _check_lock(self):\n        if not self.is_locked():\n            return\n        raise ValueError(\n            'The dictionary is locked, and its values cannot be changed.')")], Q),
 ('s-dict-valid-all', C, [("if not pattern_name in folded_val:\n return \\\n False, \\\n '{} not in folded_val dictionary.'.format(pattern_name)\n valid, err_msg = pattern.validate_folded(\n folded_val[pattern_name], validate_value=validate_value)", "try:\n                member_val = folded_val[pattern_name]\n            except KeyError:\n                return False, '{} not in folded_val dictionary.'.format(pattern_name)\n            valid, err_msg = pattern.validate_folded(\n                member_val, validate_value=validate_value)")], Q),
 ('s-dict-fromjson', C, [("for pattern_name in json_dict['keys']:\n pattern_dict[pattern_name] = get_pattern_from_json(\n json_dict['contents'][pattern_name])", "contents = json_dict['contents']\n        members = [(key, get_pattern_from_json(contents[key])) for key in json_dict['keys']]\n        for key, member in members:\n            pattern_dict[key] = member")], Q),
 ('s-dict-asdict', C, [("contents = {}\n for pattern_name, pattern in self.__pattern_dict.items():\n contents[pattern_name] = pattern.to_json()\n keys = [ key for key in self.__pattern_dict.keys() ]", "keys = list(self.__pattern_dict)\n        contents = dict(zip(keys, [self[key].to_json() for key in keys]))")], Q),
 ('s-arr-shape', C, [("self.__shape = tuple(self.__array_shape) + empty_pattern.shape", "self.__shape = (*self.__array_shape, *empty_pattern.shape)")], Q),
 ('s-arr-slice', C, [("linear_item = np.ravel_multi_index(item, self.__array_shape) * flat_length\n return slice(linear_item, linear_item + flat_length)", "position = 0\n        for i, n in zip(item, self.__array_shape):\n            position = position * n + i\n        start = position * flat_length\n        return slice(start, start + flat_length)")], Q),
 ('s-arr-valid2', C, [("if folded_val.ndim != len(self.__shape):\n return \\\n False, \\\n 'Wrong number of dimensions. Expected {}, got {}.'.format(\n len(self.__shape), folded_val.ndim)\n if folded_val.shape != self.__shape:", "if folded_val.shape != self.__shape:")], Q),
 ('s-arr-numel', C, [("num_elements * base_pattern.flat_length(free=False),\n num_elements * base_pattern.flat_length(free=True),", "*[num_elements * base_pattern.flat_length(free=free) for free in (False, True)],")], Q),
 ('s-reg-set', C, [("if (not allow_overwrite) and pattern_name in __json_patterns.keys():\n raise ValueError(\n 'A pattern named {} is already registered for JSON.'.format(\n pattern_name))\n __json_patterns[pattern_name] = pattern", "if allow_overwrite or pattern_name not in __json_patterns:\n        __json_patterns[pattern_name] = pattern\n        return\n    raise ValueError(\n        'A pattern named {} is already registered for JSON.'.format(pattern_name))")], Q),
]
