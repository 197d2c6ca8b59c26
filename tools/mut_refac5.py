"""Fifth batch of behaviour-preserving edits: wrappers, shared code and helpers."""
F, O, S, C, N, P, X, B, A = ('function_patterns.py', 'optimization_lib.py', 'sparse_preconditioners_lib.py', 'pattern_containers.py',
                             'numeric_array_patterns.py', 'psdmatrix_patterns.py', 'simplex_patterns.py', 'base_patterns.py',
                             'autograd_supplement_lib.py')
Q = set()
IN_LOOP = ("new_args = ()\n last_argnum = 0\n for i in self._argnum_sort:\n argnum = self._argnums[i]\n if self._original_is_flat:\n val_for_orig = \\\n self._patterns[i].flatten(args[argnum], free=self.free[i])\n else:\n val_for_orig = \\\n self._patterns[i].fold(args[argnum], free=self.free[i])\n new_args += args[last_argnum:argnum] + (val_for_orig, )\n last_argnum = argnum + 1\n new_args += args[last_argnum:len(args)]\n\n return self._fun(*new_args, **kwargs)")
OUT_LOOP = ("new_rets = ()\n last_retnum = 0\n for i in self._retnum_sort:\n retnum = self._retnums[i]\n if len(rets) <= retnum:\n err_msg = ('Not enough return values in {} ({}) for ' +\n 'specified retnums {}.').format(\n self._fun,\n len(rets),\n self._retnums)\n raise ValueError(err_msg)\n if self._original_is_flat:\n new_ret = \\\n self._patterns[i].fold(rets[retnum], free=self.free[i])\n else:\n new_ret = \\\n self._patterns[i].flatten(rets[retnum], free=self.free[i])\n new_rets += rets[last_retnum:retnum] + (new_ret, )\n last_retnum = retnum + 1\n new_rets += rets[last_retnum:len(rets)]\n\n return new_rets")
EDITS = [
 # function wrappers
 ('u-in-list', F, [(IN_LOOP, "new_args = list(args)\n        for pattern, argnum, free in zip(\n                self._patterns, self._argnums, self.free):\n            if self._original_is_flat:\n                new_args[argnum] = pattern.flatten(args[argnum], free=free)\n            else:\n                new_args[argnum] = pattern.fold(args[argnum], free=free)\n        return self._fun(*new_args, **kwargs)")], Q),
 ('u-in-listsort', F, [(IN_LOOP, "new_args = list(args)\n        for i in self._argnum_sort:\n            argnum = self._argnums[i]\n            transform = self._patterns[i].flatten if self._original_is_flat \\\n                else self._patterns[i].fold\n            new_args[argnum] = transform(args[argnum], free=self.free[i])\n        return self._fun(*tuple(new_args), **kwargs)")], Q),
 ('u-in-helper', F, [(IN_LOOP, "new_args = ()\n        last_argnum = 0\n        for i in self._argnum_sort:\n            argnum = self._argnums[i]\n            new_args += args[last_argnum:argnum]\n            new_args += (self._transform(i, args[argnum]), )\n            last_argnum = argnum + 1\n        return self._fun(*(new_args + args[last_argnum:]), **kwargs)\n\n    def _transform(self, i, val):\n        if self._original_is_flat:\n            return self._patterns[i].flatten(val, free=self.free[i])\n        return self._patterns[i].fold(val, free=self.free[i])")], Q),
 ('u-in-dict', F, [(IN_LOOP, "index_of = {argnum: i for i, argnum in enumerate(self._argnums)}\n        new_args = []\n        for argnum, arg in enumerate(args):\n            if argnum in index_of:\n                i = index_of[argnum]\n                if self._original_is_flat:\n                    arg = self._patterns[i].flatten(arg, free=self.free[i])\n                else:\n                    arg = self._patterns[i].fold(arg, free=self.free[i])\n            new_args.append(arg)\n        return self._fun(*new_args, **kwargs)")], Q),
 ('u-in-zipsort', F, [("for i in self._argnum_sort:\n argnum = self._argnums[i]", "for i, argnum in zip(self._argnum_sort, self._argnums[self._argnum_sort]):")], Q),
 ('u-in-guard', F, [("new_args = ()\n last_argnum = 0", "fold_args = not self._original_is_flat\n        new_args = ()\n        last_argnum = 0"), ("if self._original_is_flat:\n val_for_orig = \\\n self._patterns[i].flatten(args[argnum], free=self.free[i])\n else:\n val_for_orig = \\\n self._patterns[i].fold(args[argnum], free=self.free[i])", "if fold_args:\n                val_for_orig = self._patterns[i].fold(args[argnum], free=self.free[i])\n            else:\n                val_for_orig = self._patterns[i].flatten(args[argnum], free=self.free[i])")], Q),
 ('u-out-list', F, [(OUT_LOOP, "if len(rets) <= np.max(self._retnums):\n            raise ValueError(\n                ('Not enough return values in {} ({}) for ' +\n                 'specified retnums {}.').format(\n                    self._fun, len(rets), self._retnums))\n        new_rets = list(rets)\n        for i, retnum in enumerate(self._retnums):\n            if self._original_is_flat:\n                new_rets[retnum] = self._patterns[i].fold(\n                    rets[retnum], free=self.free[i])\n            else:\n                new_rets[retnum] = self._patterns[i].flatten(\n                    rets[retnum], free=self.free[i])\n        return tuple(new_rets)")], Q),
 ('u-out-early', F, [(OUT_LOOP, "num_rets = len(rets)\n        for retnum in self._retnums:\n            if retnum >= num_rets:\n                raise ValueError(\n                    'Not enough return values in {} ({}) for specified retnums {}.'.format(\n                        self._fun, num_rets, self._retnums))\n        new_rets = list(rets)\n        for i in self._retnum_sort:\n            pattern, retnum, free = \\\n                self._patterns[i], self._retnums[i], self.free[i]\n            convert = pattern.fold if self._original_is_flat else pattern.flatten\n            new_rets[retnum] = convert(rets[retnum], free=free)\n        return tuple(new_rets)")], Q),
 ('u-out-single', F, [("if self._original_is_flat:\n return self._patterns[0].fold(rets, free=self.free[0])\n else:\n return self._patterns[0].flatten(rets, free=self.free[0])", "pattern, free = self._patterns[0], self.free[0]\n            return pattern.fold(rets, free=free) if self._original_is_flat \\\n                else pattern.flatten(rets, free=free)")], Q),
 ('u-out-one', F, [("if not np.array_equal(self._retnums, [0]):", "if len(self._retnums) != 1 or self._retnums[0] != 0:")], Q),
 ('u-fn-unique', F, [("if len(self._argnums) != len(np.unique(self._argnums)):", "if len(self._argnums) != len(set(self._argnums)):")], Q),
 ('u-fn-dupsize', F, [("if len(self._retnums) != len(np.unique(self._retnums)):", "if np.unique(self._retnums).size < self._retnums.size:")], Q),
 ('u-fn-argdefault', F, [("if argnums is None:\n argnums = np.arange(0, len(self._patterns))\n self._argnums = np.atleast_1d(argnums)", "self._argnums = np.atleast_1d(\n            range(len(self._patterns)) if argnums is None else argnums)")], Q),
 ('u-fn-order', F, [("self._original_is_flat = original_is_flat\n\n self._validate_args()\n\n def _validate_args(self):\n if self._patterns.ndim != 1:\n raise ValueError('patterns must be a 1d vector.')\n if self._argnums.ndim != 1:", "self._original_is_flat = bool(original_is_flat)\n\n        self._validate_args()\n\n    def _validate_args(self):\n        if self._patterns.ndim != 1:\n            raise ValueError('patterns must be a 1d vector.')\n        if self._argnums.ndim != 1:")], Q),
 ('u-fn-both', F, [("self._folded_output = \\\n FoldFunctionOutput(\n original_fun=original_fun,\n patterns=output_patterns,\n free=output_free,\n retnums=output_retnums)\n self._folded_fun = FoldFunctionInput(\n original_fun=self._folded_output,", "folded_output = FoldFunctionOutput(\n            original_fun, output_patterns, output_free, output_retnums)\n        self._folded_fun = FoldFunctionInput(\n            original_fun=folded_output,")], Q),
 ('u-fn-bothsub', F, [("class FoldFunctionInputAndOutput():", "class FoldFunctionInputAndOutput(object):")], Q),
 # base
 ('u-b-default', B, [("if free is not None:\n return free\n else:\n if self.free_default is None:\n raise ValueError(\n ('If ``free_default`` is ``None``, ``free`` ' +\n 'must be specified.'))\n else:\n return self.free_default", "result = self.free_default if free is None else free\n        if result is None:\n            raise ValueError('If ``free_default`` is ``None``, ``free`` must be specified.')\n        return result")], Q),
 ('u-b-sparse', B, [("freeflat_val = self.flatten(folded_val, free=True)\n jac = self._unfreeing_jacobian(freeflat_val)\n if sparse:\n return coo_matrix(jac)\n else:\n return jac", "return self._maybe_sparse(\n            self._unfreeing_jacobian(self.flatten(folded_val, free=True)), sparse)\n\n    @staticmethod\n    def _maybe_sparse(jac, sparse):\n        return coo_matrix(jac) if sparse else jac"), ("flat_val = self.flatten(folded_val, free=False)\n jac = self._freeing_jacobian(flat_val)\n if sparse:\n return coo_matrix(jac)\n else:\n return jac", "flat_val = self.flatten(folded_val, free=False)\n        return self._maybe_sparse(self._freeing_jacobian(flat_val), sparse)")], Q),
 ('u-b-names', B, [("return [ str(i) for i in range(self.flat_length(free)) ]", "return list(map(str, range(self.flat_length(free))))")], Q),
 ('u-b-names2', B, [("return [ str(i) for i in range(self.flat_length(free)) ]", "names = []\n        for i in range(self.flat_length(free)):\n            names.append('{}'.format(i))\n        return names")], Q),
 ('u-b-pop', B, [("del json_dict['pattern']\n return cls(**json_dict)", "json_dict.pop('pattern')\n        return cls(**json_dict)")], Q),
 ('u-b-filter', B, [("del json_dict['pattern']\n return cls(**json_dict)", "arguments = {key: value for key, value in json_dict.items() if key != 'pattern'}\n        return cls(**arguments)")], Q),
 ('u-b-eq', B, [("if type(other) != type(self):\n return False\n return self.as_dict() == other.as_dict()", "return type(self) is type(other) and self.as_dict() == other.as_dict()")], Q),
 ('u-b-bool', B, [("flat_len = self.flat_length(free=False)\n bool_vec = np.full(flat_len, value, dtype='bool')", "bool_vec = np.repeat(bool(value), self.flat_length(free=False))")], Q),
 ('u-b-bool2', B, [("bool_vec = np.full(flat_len, value, dtype='bool')", "if value:\n            bool_vec = np.ones(flat_len, dtype=bool)\n        else:\n            bool_vec = np.zeros(flat_len, dtype=bool)")], Q),
 # psd
 ('u-p-cols', P, [("for k1 in range(mat_size):\n for k2 in range(k1 + 1):\n mat[k1, k2] = vec[_sym_index(k1, k2)]", "for k2 in range(mat_size):\n        for k1 in range(k2, mat_size):\n            mat[k1, k2] = vec[_sym_index(k1, k2)]")], Q),
 ('u-p-tril', P, [("for k1 in range(mat_size):\n for k2 in range(k1 + 1):\n mat[k1, k2] = vec[_sym_index(k1, k2)]", "mat[np.tril_indices(mat_size)] = vec")], Q),
 ('u-p-counter', P, [("for k1 in range(mat_size):\n for k2 in range(k1 + 1):\n mat[k1, k2] = vec[_sym_index(k1, k2)]", "index = 0\n    for k1 in range(mat_size):\n        for k2 in range(k1 + 1):\n            mat[k1, k2] = vec[index]\n            index += 1")], Q),
 ('u-p-rows', P, [("for k1 in range(mat_size):\n for k2 in range(k1 + 1):\n mat[k1, k2] = vec[_sym_index(k1, k2)]", "start = 0\n    for k1 in range(mat_size):\n        mat[k1, :(k1 + 1)] = vec[start:(start + k1 + 1)]\n        start += k1 + 1")], Q),
 ('u-p-diagshared', P, [("def _exp_matrix_diagonal(mat):\n assert mat.shape[0] == mat.shape[1]\n # NB: make_diagonal() is only defined in the autograd version of numpy\n mat_exp_diag = np.make_diagonal(\n np.exp(np.diag(mat)), offset=0, axis1=-1, axis2=-2)\n mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)\n return mat_exp_diag + mat - mat_diag", "def _transform_diagonal(mat, fun):\n    assert mat.shape[0] == mat.shape[1]\n    old_diag = np.diag(mat)\n    return mat + np.make_diagonal(\n        fun(old_diag) - old_diag, offset=0, axis1=-1, axis2=-2)\n\n\ndef _exp_matrix_diagonal(mat):\n    return _transform_diagonal(mat, np.exp)"), ("assert mat.shape[0] == mat.shape[1]\n # NB: make_diagonal() is only defined in the autograd version of numpy\n mat_log_diag = np.make_diagonal(\n np.log(np.diag(mat)), offset=0, axis1=-1, axis2=-2)\n mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)\n return mat_log_diag + mat - mat_diag", "return _transform_diagonal(mat, np.log)")], Q),
 ('u-p-lbeye', P, [("mat_lb = mat - np.make_diagonal(\n np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)", "mat_lb = mat - diag_lb * np.eye(k)"), ("return mat + np.make_diagonal(\n np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)", "return mat + diag_lb * np.eye(k)")], Q),
 ('u-p-lbhelper', P, [("def _pack_posdef_matrix(mat, diag_lb=0.0):\n k = mat.shape[0]\n mat_lb = mat - np.make_diagonal(\n np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)", "def _shift_matrix(k, shift):\n    return np.make_diagonal(np.full(k, shift), offset=0, axis1=-1, axis2=-2)\n\n\ndef _pack_posdef_matrix(mat, diag_lb=0.0):\n    mat_lb = mat - _shift_matrix(mat.shape[0], diag_lb)"), ("k = mat.shape[0]\n return mat + np.make_diagonal(\n np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)", "return mat + _shift_matrix(mat.shape[0], diag_lb)")], Q),
 ('u-p-valid', P, [("if np.any(np.diag(folded_val) < self.__diag_lb):\n error_string = \\\n 'Diagonal is less than the lower bound {}.'.format(\n self.__diag_lb)\n return False, error_string\n if not (folded_val.transpose() == folded_val).all():\n return False, 'Matrix is not symmetric.'", "if not np.array_equal(folded_val.T, folded_val):\n                return False, 'Matrix is not symmetric.'\n            if (np.diag(folded_val) < self.__diag_lb).any():\n                return False, 'Diagonal is less than the lower bound {}.'.format(\n                    self.__diag_lb)")], Q),
 ('u-p-validmin', P, [("if not (folded_val.transpose() == folded_val).all():", "if np.any(folded_val != folded_val.T):")], Q),
 ('u-p-validsplit', P, [("if validate_value:\n if np.any(np.diag(folded_val) < self.__diag_lb):\n error_string = \\\n 'Diagonal is less than the lower bound {}.'.format(\n self.__diag_lb)\n return False, error_string\n if not (folded_val.transpose() == folded_val).all():\n return False, 'Matrix is not symmetric.'\n\n return True, ''", "if not validate_value:\n            return True, ''\n        return self._validate_folded_value(folded_val)\n\n    def _validate_folded_value(self, folded_val):\n        if np.any(np.diag(folded_val) < self.__diag_lb):\n            return False, 'Diagonal is less than the lower bound {}.'.format(\n                self.__diag_lb)\n        if not (folded_val.transpose() == folded_val).all():\n            return False, 'Matrix is not symmetric.'\n        return True, ''")], Q),
 ('u-p-foldorder', P, [("if free:\n return _unpack_posdef_matrix(flat_val, diag_lb=self.__diag_lb)\n else:\n # Never return a reference to the input.\n folded_val = np.reshape(\n np.array(flat_val), (self.__size, self.__size))\n valid, msg = self.validate_folded(folded_val, validate_value)\n if not valid:\n raise ValueError(msg)\n return folded_val", "if free:\n            return _unpack_posdef_matrix(flat_val, self.__diag_lb)\n        # Never return a reference to the input.\n        folded_val = np.array(flat_val).reshape(self.shape())\n        valid, msg = self.validate_folded(folded_val, validate_value=validate_value)\n        if valid:\n            return folded_val\n        raise ValueError(msg)")], Q),
 ('u-p-size', P, [("super().__init__(self.__size ** 2, int(size * (size + 1) / 2),\n free_default=free_default)", "free_length = self.__size * (self.__size + 1) // 2\n        super().__init__(\n            self.__size * self.__size, free_length, free_default=free_default)")], Q),
 ('u-p-empty', P, [("return np.eye(self.__size) * (self.__diag_lb + 1)", "return np.diag(np.full(self.__size, self.__diag_lb + 1.))")], Q),
 ('u-p-idx', P, [("if np.any(folded_bool):\n return np.arange(self.flat_length(True), dtype=int)\n else:\n return np.array([])", "return np.arange(self.flat_length(free=True), dtype=int)")], Q),
 ('u-p-idx2', P, [("folded_indices = self.fold(\n np.arange(self.flat_length(False), dtype=int),\n validate_value=False, free=False)\n return folded_indices[folded_bool]", "flat_bool = self.flatten(folded_bool, free=False, validate_value=False)\n            return np.arange(self.flat_length(False), dtype=int)[flat_bool]")], Q),
 # autograd supplement
 ('u-a-groupenum', A, [("for n in range(n_obs):\n if x.ndim > 1:\n result[groups[n], :] += x[n, :]\n else:\n result[groups[n]] += x[n]", "for n, group in enumerate(groups):\n        result[group] += x[n]")], Q),
 ('u-a-groupbranch', A, [("for n in range(n_obs):\n if x.ndim > 1:\n result[groups[n], :] += x[n, :]\n else:\n result[groups[n]] += x[n]", "if x.ndim > 1:\n        for n in range(n_obs):\n            result[groups[n], :] += x[n, :]\n    else:\n        for n in range(n_obs):\n            result[groups[n]] += x[n]")], Q),
 ('u-a-groupvalid', A, [("max_group = np.max(groups)\n if num_groups is None:\n num_groups = max_group + 1\n else:\n if max_group >= num_groups:\n raise ValueError(\n 'The largest group is >= the number of groups.')", "min_num_groups = 1 + np.max(groups)\n    if num_groups is None:\n        num_groups = min_num_groups\n    elif num_groups < min_num_groups:\n        raise ValueError('The largest group is >= the number of groups.')")], Q),
 ('u-a-slogdet', A, [("return 0, np.trace(np.linalg.solve(x.T, g.T))", "return 0, np.trace(np.linalg.solve(x, g))")], Q),
 ('u-a-slogdetinv', A, [("return 0, np.trace(np.linalg.solve(x.T, g.T))", "log_det_jvp = np.trace(np.matmul(np.linalg.inv(x), g))\n    return 0, log_det_jvp")], Q),
 ('u-a-slogdetnd', A, [("if len(x.shape) > 2:", "if x.ndim > 2:")], Q),
 ('u-a-solve', A, [("if argnum == 0:\n return -broadcast_matmul(np.linalg.solve(a, g), ans)\n else:\n return np.linalg.solve(a, g)", "rhs = -broadcast_matmul(g, ans) if argnum == 0 else g\n    return np.linalg.solve(a, rhs)")], Q),
 ('u-a-solvetwo', A, [("defjvp(solve, partial(jvp_solve, 0), partial(jvp_solve, 1))", "defjvp(solve,\n       lambda g, ans, a, b: jvp_solve(0, g, ans, a, b),\n       lambda g, ans, a, b: jvp_solve(1, g, ans, a, b))")], Q),
 ('u-a-replacecopy', A, [("x_new = np.full(x.shape, float('nan'))\n x_new[:] = x\n x_new[inds] = x_sub\n return x_new", "x_new = np.array(x, dtype=float)\n    x_new[inds] = x_sub\n    return x_new")], Q),
 ('u-a-prodfac', A, [("@primitive\n def z_mult(b):\n return z_mat @ check_b(b)\n\n @primitive\n def zt_mult(b):\n return z_mat.T @ check_b(b)", "zt_mat = z_mat.T\n\n    @primitive\n    def z_mult(b):\n        return z_mat @ check_b(b)\n\n    @primitive\n    def zt_mult(b):\n        return zt_mat @ check_b(b)")], Q),
 ('u-a-proddef', A, [("def z_mult_jvp(g, ans, b):\n return z_mult(g) # z_mat @ g\n defjvp(z_mult, z_mult_jvp)", "defjvp(z_mult, lambda g, ans, b: z_mult(g))"), ("def zt_mult_jvp(g, ans, b):\n return zt_mult(g) # z_mat.T @ g\n defjvp(zt_mult, zt_mult_jvp)", "defjvp(zt_mult, lambda g, ans, b: zt_mult(g))")], Q),
 ('u-a-prodlin', A, [("def z_mult_jvp(g, ans, b):\n return z_mult(g) # z_mat @ g\n defjvp(z_mult, z_mult_jvp)\n\n def z_mult_vjp(ans, b):\n def vjp(g):\n return zt_mult(g) # z_mat.T @ g\n return vjp\n defvjp(z_mult, z_mult_vjp)\n\n def zt_mult_jvp(g, ans, b):\n return zt_mult(g) # z_mat.T @ g\n defjvp(zt_mult, zt_mult_jvp)\n\n def zt_mult_vjp(ans, b):\n def vjp(g):\n return z_mult(g) # (z_mat.T).T @ g\n return vjp\n defvjp(zt_mult, zt_mult_vjp)", "def define_linear(mult, t_mult):\n        defjvp(mult, lambda g, ans, b: mult(g))\n        defvjp(mult, lambda ans, b: lambda g: t_mult(g))\n\n    define_linear(z_mult, zt_mult)\n    define_linear(zt_mult, z_mult)")], Q),
 ('u-a-solverloop', A, [("def get_grad_funs(z_solve_ad, zt_solve_ad):\n # Reverse mode\n def vjp_solve(ans, b):\n return lambda g: zt_solve_ad(g)\n\n # Forward mode\n def jvp_solve(g, ans, b):\n return z_solve_ad(g)\n\n return vjp_solve, jvp_solve\n\n vjp_solve, jvp_solve = get_grad_funs(z_solve_ad, zt_solve_ad)\n vjp_t_solve, jvp_t_solve = get_grad_funs(zt_solve_ad, z_solve_ad)\n\n defjvp(z_solve_ad, jvp_solve)\n defjvp(zt_solve_ad, jvp_t_solve)\n defvjp(z_solve_ad, vjp_solve)\n defvjp(zt_solve_ad, vjp_t_solve)", "def set_grads(solve_ad, t_solve_ad):\n        def vjp_solve(ans, b):\n            return lambda g: t_solve_ad(g)\n\n        def jvp_solve(g, ans, b):\n            return solve_ad(g)\n\n        defjvp(solve_ad, jvp_solve)\n        defvjp(solve_ad, vjp_solve)\n\n    for pair in [(z_solve_ad, zt_solve_ad), (zt_solve_ad, z_solve_ad)]:\n        set_grads(*pair)")], Q),
 ('u-a-solverwrap', A, [("@primitive\n def z_solve_ad(b):\n return z_solve(b)\n\n @primitive\n def zt_solve_ad(b):\n return zt_solve(b)", "z_solve_ad = primitive(lambda b: z_solve(b))\n    zt_solve_ad = primitive(lambda b: zt_solve(b))")], Q),
 ('u-a-ndim', A, [("if z_mat.ndim != 2:", "if len(z_mat.shape) != 2:")], Q),
 ('u-a-checkb', A, [("b = np.atleast_1d(b)\n if (b.ndim > 2):\n raise ValueError('The argument must be at most two dimensional.')\n return b", "b = np.atleast_1d(b)\n        if b.ndim <= 2:\n            return b\n        raise ValueError('The argument must be at most two dimensional.')")], Q),
 # sparse
 ('u-s-inline', S, [("mat_sqrt = _get_cholesky_sqrt_mat(mat_chol)", "chol_factor = mat_chol.L()\n    mat_sqrt = mat_chol.apply_Pt(chol_factor)")], Q),
 ('u-s-loop', S, [("_, solve_mat_sqrt_t_ad = \\\n get_differentiable_solver(\n osp.sparse.linalg.factorized(mat_sqrt),\n osp.sparse.linalg.factorized(mat_sqrt_t))", "solve_fun, solve_t_fun = [\n        osp.sparse.linalg.factorized(mat) for mat in (mat_sqrt, mat_sqrt_t)]\n    solve_mat_sqrt_t_ad = get_differentiable_solver(solve_fun, solve_t_fun)[1]")], Q),
 ('u-s-swap', S, [("_, solve_mat_sqrt_t_ad = \\\n get_differentiable_solver(\n osp.sparse.linalg.factorized(mat_sqrt),\n osp.sparse.linalg.factorized(mat_sqrt_t))", "solve_mat_sqrt_t_ad, _ = \\\n        get_differentiable_solver(\n            osp.sparse.linalg.factorized(mat_sqrt_t),\n            osp.sparse.linalg.factorized(mat_sqrt))")], Q),
 ('u-s-prodt', S, [("_, mult_mat_sqrt_t_ad = get_sparse_product(mat_sqrt)", "mult_mat_sqrt_t_ad, _ = get_sparse_product(mat_sqrt_t)")], Q),
 ('u-s-tocsc', S, [("mat_sqrt_t = osp.sparse.csc_matrix(mat_sqrt.T)", "mat_sqrt_t = mat_sqrt.T.tocsc()")], Q),
 ('v-s-csr', S, [("mat_sqrt_t = osp.sparse.csc_matrix(mat_sqrt.T)", "mat_sqrt_t = mat_sqrt.transpose().tocsc()")], Q),
 ('v-s-asformat', S, [("mat_sqrt_t = osp.sparse.csc_matrix(mat_sqrt.T)", "mat_sqrt_t = mat_sqrt.T.asformat('csc')")], Q),
 ('v-s-cast', S, [("return mat_chol.apply_Pt(mat_chol.L())", "lower = mat_chol.L()\n    return mat_chol.apply_Pt(lower).tocsc()")], Q),
]
