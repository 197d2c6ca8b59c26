"""More edits that keep the behaviour. No check may raise an alarm on them."""
F, O, S, C, N, P, X, B, A = ('function_patterns.py', 'optimization_lib.py', 'sparse_preconditioners_lib.py', 'pattern_containers.py',
                             'numeric_array_patterns.py', 'psdmatrix_patterns.py', 'simplex_patterns.py', 'base_patterns.py',
                             'autograd_supplement_lib.py')
Q = set()
EDITS = [
 # function wrappers
 ('r-fun-dictpairs', F, [("new_args = ()\n last_argnum = 0\n for i in self._argnum_sort:\n argnum = self._argnums[i]\n if self._original_is_flat:\n val_for_orig = \\\n self._patterns[i].flatten(args[argnum], free=self.free[i])\n else:\n val_for_orig = \\\n self._patterns[i].fold(args[argnum], free=self.free[i])\n new_args += args[last_argnum:argnum] + (val_for_orig, )\n last_argnum = argnum + 1\n new_args += args[last_argnum:len(args)]\n return self._fun(*new_args, **kwargs)",
   """converted = {}
        for i in self._argnum_sort:
            argnum = self._argnums[i]
            pattern = self._patterns[i]
            convert = pattern.flatten if self._original_is_flat else pattern.fold
            converted[argnum] = convert(args[argnum], free=self.free[i])
        new_args = [converted[n] if n in converted else arg for n, arg in enumerate(args)]
        return self._fun(*new_args, **kwargs)""")], Q),
 ('r-fun-pieces', F, [("new_args = ()\n last_argnum = 0\n for i in self._argnum_sort:\n argnum = self._argnums[i]\n if self._original_is_flat:\n val_for_orig = \\\n self._patterns[i].flatten(args[argnum], free=self.free[i])\n else:\n val_for_orig = \\\n self._patterns[i].fold(args[argnum], free=self.free[i])\n new_args += args[last_argnum:argnum] + (val_for_orig, )\n last_argnum = argnum + 1\n new_args += args[last_argnum:len(args)]\n return self._fun(*new_args, **kwargs)",
   """new_args = []
        last_argnum = 0
        for i in self._argnum_sort:
            argnum = self._argnums[i]
            new_args.extend(args[last_argnum:argnum])
            new_args.append(self._to_original(i, args[argnum]))
            last_argnum = argnum + 1
        new_args.extend(args[last_argnum:])
        return self._fun(*new_args, **kwargs)

    def _to_original(self, i, val):
        if self._original_is_flat:
            return self._patterns[i].flatten(val, free=self.free[i])
        return self._patterns[i].fold(val, free=self.free[i])""")], Q),
 ('r-fun-outearly', F, [("if self._original_is_flat:\n return self._patterns[0].fold(rets, free=self.free[0])\n else:\n return self._patterns[0].flatten(rets, free=self.free[0])", "return self._convert(0, rets)"),
   ("if self._original_is_flat:\n new_ret = \\\n self._patterns[i].fold(rets[retnum], free=self.free[i])\n else:\n new_ret = \\\n self._patterns[i].flatten(rets[retnum], free=self.free[i])", "new_ret = self._convert(i, rets[retnum])"),
   ("class FoldFunctionOutput(TransformFunctionOutput):", "    def _convert(self, i, val):\n        method = 'fold' if self._original_is_flat else 'flatten'\n        return getattr(self._patterns[i], method)(val, free=self.free[i])\n\n\nclass FoldFunctionOutput(TransformFunctionOutput):")], Q),
 ('r-fun-maxcheck', F, [("new_rets = ()\n last_retnum = 0\n for i in self._retnum_sort:", "too_few = [n for n in self._retnums if n >= len(rets)]\n        if len(too_few) > 0:\n            raise ValueError('Not enough return values in {} ({}) for specified retnums {}.'.format(self._fun, len(rets), self._retnums))\n        new_rets = ()\n        last_retnum = 0\n        for i in self._retnum_sort:"),
   ("if len(rets) <= retnum:\n err_msg = ('Not enough return values in {} ({}) for ' +\n 'specified retnums {}.').format(\n self._fun,\n len(rets),\n self._retnums)\n raise ValueError(err_msg)\n", "")], Q),
 ('r-fun-sharedvalid', F, [("if len(self._argnums) != len(np.unique(self._argnums)):", "if np.unique(self._argnums).size < self._argnums.size:"), ("if len(self._retnums) != len(np.unique(self._retnums)):", "if len(set(self._retnums.tolist())) != len(self._retnums):")], Q),
 ('r-fun-zip', F, [("for i in self._argnum_sort:\n argnum = self._argnums[i]\n if self._original_is_flat:\n val_for_orig = \\\n self._patterns[i].flatten(args[argnum], free=self.free[i])\n else:\n val_for_orig = \\\n self._patterns[i].fold(args[argnum], free=self.free[i])", "for argnum, pattern, free in zip(\n                self._argnums[self._argnum_sort],\n                self._patterns[self._argnum_sort],\n                self.free[self._argnum_sort]):\n            if self._original_is_flat:\n                val_for_orig = pattern.flatten(args[argnum], free=free)\n            else:\n                val_for_orig = pattern.fold(args[argnum], free=free)")], Q),
 ('r-fun-tryidx', F, [("if len(rets) <= retnum:\n err_msg =", "if retnum >= len(rets):\n                err_msg =")], Q),
 # objective
 ('r-opt-due', O, [("if self._print_every > 0 and self._num_f_evals % self._print_every == 0:\n self.print_value(self._num_f_evals, x, f_val)\n if self._log_every > 0 and self._num_f_evals % self._log_every == 0:\n self.log_value(self._num_f_evals, x, f_val)\n self._num_f_evals += 1\n return f_val",
   "n = self._num_f_evals\n        if self._is_due(self._print_every):\n            self.print_value(n, x, f_val)\n        if self._is_due(self._log_every):\n            self.log_value(n, x, f_val)\n        self._num_f_evals = n + 1\n        return f_val\n\n    def _is_due(self, every):\n        return every > 0 and self._num_f_evals % every == 0")], Q),
 ('r-opt-nested', O, [("if self._print_every > 0 and self._num_f_evals % self._print_every == 0:\n self.print_value(self._num_f_evals, x, f_val)", "if self._print_every > 0:\n            if not self._num_f_evals % self._print_every:\n                self.print_value(self._num_f_evals, x, f_val)")], Q),
 ('r-opt-finallycount', O, [("self._num_f_evals += 1\n return f_val", "try:\n            return f_val\n        finally:\n            self._num_f_evals += 1")], Q),
 ('r-opt-logarray', O, [("self.optimization_log.append((num_f_evals, copy.copy(x), f_val))", "entry = (num_f_evals, copy.deepcopy(x), f_val)\n        self.optimization_log.append(entry)")], Q),
 ('r-opt-matprod', O, [("mat = []\n for i in range(dim):\n # Re-instantiate to make sure that mult_fun is not returning a reference.\n vec = np.zeros(dim)\n vec[i] = 1.0\n mat.append(mult_fun(vec))\n return np.vstack(mat).T", "columns = [mult_fun(unit_vec.copy()) for unit_vec in np.eye(dim)]\n    return np.column_stack(columns)")], Q),
 ('r-opt-check', O, [("err = np.linalg.norm(vec - self._a_times(self._a_inv_times(vec)))", "resid = self._a_times(self._a_inv_times(vec)) - vec\n        err = np.sqrt(np.sum(resid ** 2))")], Q),
 ('r-opt-id', O, [("self.set_preconditioner_functions(lambda x: x, lambda x: x)", "def identity(x):\n            return x\n        self.set_preconditioner_functions(identity, identity)")], Q),
 ('r-opt-setmat', O, [("if osp.sparse.issparse(a):\n if a_inv is None:\n a_inv = osp.sparse.linalg.inv(a)\n a_times, _ = get_sparse_product(a)\n a_inv_times, _ = get_sparse_product(a_inv)\n self.set_preconditioner_functions(a_times, a_inv_times)\n else:", "if osp.sparse.issparse(a):\n            self._set_sparse(a, osp.sparse.linalg.inv(a) if a_inv is None else a_inv)\n        else:"),
   ("def set_preconditioner_functions(self, a_times, a_inv_times):", "def _set_sparse(self, a, a_inv):\n        self.set_preconditioner_functions(\n            get_sparse_product(a)[0], get_sparse_product(a_inv)[0])\n\n    def set_preconditioner_functions(self, a_times, a_inv_times):")], Q),
 ('r-opt-lambda', O, [("def a_times(vec):\n return a @ vec", "a_times = lambda vec: np.matmul(a, vec)"), ("def a_inv_times(vec):\n return a_inv @ vec", "a_inv_times = lambda vec: np.dot(a_inv, vec)")], Q),
 ('r-opt-hessone', O, [("if x is not None and hessian is not None:\n raise ValueError('You must specify x or hessian but not both.')\n if x is None and hessian is None:\n raise ValueError('You must specify either x or hessian.')\n if hessian is None:", "if (x is None) == (hessian is None):\n            raise ValueError('You must specify exactly one of x and hessian.')\n        if hessian is None:")], Q),
 ('r-opt-eig', O, [("vec_loadings = eigvecs.T @ vec", "vec_loadings = np.matmul(np.transpose(eigvecs), vec)"), ("return vec + eigvecs @ ((new_eigvals - 1) * vec_loadings)", "scaled = (new_eigvals - 1.0) * vec_loadings\n        return vec + np.matmul(eigvecs, scaled)")], Q),
 ('r-opt-truncwhere', O, [("eig_val_trunc[np.real(eig_val_trunc) <= ev_min] = ev_min", "eig_val_trunc = np.where(np.real(eig_val_trunc) <= ev_min, ev_min, eig_val_trunc)"), ("eig_val_trunc[np.real(eig_val_trunc) >= ev_max] = ev_max", "eig_val_trunc = np.where(np.real(eig_val_trunc) >= ev_max, ev_max, eig_val_trunc)")], Q),
 # containers
 ('r-dict-iter', C, [("for pattern_name, pattern in self.__pattern_dict.items():\n if not pattern_name in folded_val:", "for pattern_name in self.__pattern_dict:\n            pattern = self.__pattern_dict[pattern_name]\n            if pattern_name not in folded_val:")], Q),
 ('r-dict-foldgen', C, [("folded_val = OrderedDict()\n offset = 0\n for pattern_name, pattern in self.__pattern_dict.items():\n pattern_flat_length = pattern.flat_length(free)\n pattern_flat_val = flat_val[offset:(offset + pattern_flat_length)]\n offset += pattern_flat_length\n # Containers must not mix free and non-free values, so do not\n # use default values for free.\n folded_val[pattern_name] = \\\n pattern.fold(pattern_flat_val,\n free=free,\n validate_value=validate_value)",
   """folded_val = OrderedDict()
        for pattern_name, pattern, pieces in self._pieces(flat_val, free):
            folded_val[pattern_name] = pattern.fold(
                pieces, free=free, validate_value=validate_value)"""),
   ("def _update_flat_length(self, free):", "def _pieces(self, flat_val, free):\n        start = 0\n        for pattern_name, pattern in self.__pattern_dict.items():\n            end = start + pattern.flat_length(free)\n            yield pattern_name, pattern, flat_val[start:end]\n            start = end\n\n    def _update_flat_length(self, free):")], Q),
 ('r-dict-foldcomp', C, [("folded_val = OrderedDict()\n offset = 0\n for pattern_name, pattern in self.__pattern_dict.items():\n pattern_flat_length = pattern.flat_length(free)\n pattern_flat_val = flat_val[offset:(offset + pattern_flat_length)]\n offset += pattern_flat_length\n # Containers must not mix free and non-free values, so do not\n # use default values for free.\n folded_val[pattern_name] = \\\n pattern.fold(pattern_flat_val,\n free=free,\n validate_value=validate_value)",
   """lengths = [p.flat_length(free) for p in self.__pattern_dict.values()]
        ends = np.cumsum(lengths)
        folded_val = OrderedDict()
        for (pattern_name, pattern), length, end in zip(
                self.__pattern_dict.items(), lengths, ends):
            folded_val[pattern_name] = pattern.fold(
                flat_val[end - length:end], free=free,
                validate_value=validate_value)""")], Q),
 ('r-dict-split', C, [("folded_val = OrderedDict()\n offset = 0\n for pattern_name, pattern in self.__pattern_dict.items():\n pattern_flat_length = pattern.flat_length(free)\n pattern_flat_val = flat_val[offset:(offset + pattern_flat_length)]\n offset += pattern_flat_length\n # Containers must not mix free and non-free values, so do not\n # use default values for free.\n folded_val[pattern_name] = \\\n pattern.fold(pattern_flat_val,\n free=free,\n validate_value=validate_value)",
   """lengths = [p.flat_length(free) for p in self.__pattern_dict.values()]
        pieces = np.split(flat_val, np.cumsum(lengths)[:-1])
        folded_val = OrderedDict(
            (pattern_name, pattern.fold(piece, free=free, validate_value=validate_value))
            for (pattern_name, pattern), piece in zip(self.__pattern_dict.items(), pieces))""")], Q),
 ('r-dict-concat', C, [("if len(flat_vals) == 0:\n return np.array([])\n return np.hstack(flat_vals)", "return np.concatenate(flat_vals) if flat_vals else np.array([])")], Q),
 ('r-dict-jachelper', C, [("jacobians = []\n for pattern_name, pattern in self.__pattern_dict.items():\n jac = pattern.unfreeing_jacobian(\n folded_val[pattern_name], sparse=True)\n jacobians.append(jac)\n sp_jac = block_diag(jacobians, format='coo')\n if sparse:\n return sp_jac\n else:\n return np.array(sp_jac.todense())", "return self._block_jacobian('unfreeing_jacobian', folded_val, sparse)"),
   ("jacobians = []\n for pattern_name, pattern in self.__pattern_dict.items():\n jac = pattern.freeing_jacobian(\n folded_val[pattern_name], sparse=True)\n jacobians.append(jac)\n sp_jac = block_diag(jacobians, format='coo')\n if sparse:\n return sp_jac\n else:\n return np.array(sp_jac.todense())", "return self._block_jacobian('freeing_jacobian', folded_val, sparse)"),
   ("def _update_flat_length(self, free):", "def _block_jacobian(self, method, folded_val, sparse):\n        blocks = [getattr(pattern, method)(folded_val[name], sparse=True)\n                  for name, pattern in self.__pattern_dict.items()]\n        jac = block_diag(blocks, format='coo')\n        return jac if sparse else jac.toarray()\n\n    def _update_flat_length(self, free):")], Q),
 ('r-dict-lenprop', C, [("self._free_flat_length = self._update_flat_length(free=True)\n self._flat_length = self._update_flat_length(free=False)\n\n def __delitem__", "self._refresh_lengths()\n\n    def _refresh_lengths(self):\n        for attr, free in (('_free_flat_length', True), ('_flat_length', False)):\n            setattr(self, attr, self._update_flat_length(free=free))\n\n    def __delitem__")], Q),
 ('r-dict-lencount', C, [("return int(np.sum([pattern.flat_length(free)\n for pattern_name, pattern in\n self.__pattern_dict.items()]))", "total = 0\n        for name in self.__pattern_dict:\n            total += int(self[name].flat_length(free=free))\n        return total")], Q),
 ('r-dict-del', C, [("pattern = self.__pattern_dict[pattern_name]\n self.__pattern_dict.pop(pattern_name)", "del self.__pattern_dict[pattern_name]")], Q),
 ('r-dict-names', C, [("flat_names_list = []\n for pattern_name, pattern in self.__pattern_dict.items():\n pattern_flat_names = pattern.flat_names(free)\n # TODO: only append the delimiter for containers\n pattern_flat_names = \\\n [ pattern_name + delim + t for t in pattern_flat_names]\n flat_names_list.append(pattern_flat_names)\n return np.hstack(flat_names_list)", "return np.hstack([\n            ['{}{}{}'.format(name, delim, t) for t in pattern.flat_names(free)]\n            for name, pattern in self.__pattern_dict.items()])")], Q),
 ('r-dict-log', C, [("log_abs_det = 0.0\n for pattern_name, pattern in self.__pattern_dict.items():\n log_abs_det += pattern.log_abs_det_unfreeing_jacobian(\n folded_val[pattern_name])\n return log_abs_det", "return sum(\n            [pattern.log_abs_det_unfreeing_jacobian(folded_val[name])\n             for name, pattern in self.__pattern_dict.items()], 0.0)")], Q),
 ('r-arr-folditer', C, [("folded_array = np.array([\n self.__base_pattern.fold(\n flat_val[self._stacked_obs_slice(item, flat_length)],\n free=free, validate_value=validate_value)\n for item in itertools.product(*self.__array_ranges)])", "folded_items = []\n        for item in itertools.product(*self.__array_ranges):\n            piece = flat_val[self._stacked_obs_slice(item, flat_length)]\n            folded_items.append(self.__base_pattern.fold(\n                piece, free=free, validate_value=validate_value))\n        folded_array = np.array(folded_items)")], Q),
 ('r-arr-foldenum', C, [("flat_val[self._stacked_obs_slice(item, flat_length)],\n free=free, validate_value=validate_value)\n for item in itertools.product(*self.__array_ranges)])", "flat_val[n * flat_length:(n + 1) * flat_length],\n                free=free, validate_value=validate_value)\n            for n in range(int(np.prod(self.__array_shape)))])")], Q),
 ('r-arr-ndindex', C, [("return np.hstack(np.array([\n self.__base_pattern.flatten(\n folded_val[item], free=free, validate_value=validate_value)\n for item in itertools.product(*self.__array_ranges)]))", "return np.concatenate([\n            self.__base_pattern.flatten(\n                folded_val[item], free=free, validate_value=validate_value)\n            for item in np.ndindex(*self.__array_shape)])")], Q),
 ('r-arr-len', C, [("free = self._free_with_default(free)\n return self._free_flat_length if free else self._flat_length", "return super().flat_length(free)")], Q),
 ('r-arr-valid', C, [("for item in itertools.product(*self.__array_ranges):\n valid, msg = self.__base_pattern.validate_folded(\n folded_val[item], validate_value=validate_value)\n if not valid:\n err_msg = 'Bad value in location {}: {}'.format(item, msg)\n return False, err_msg\n return True, ''", "verdicts = (\n            (item, self.__base_pattern.validate_folded(folded_val[item], validate_value=validate_value))\n            for item in itertools.product(*self.__array_ranges))\n        for item, (valid, msg) in verdicts:\n            if not valid:\n                return False, 'Bad value in location {}: {}'.format(item, msg)\n        return True, ''")], Q),
 ('r-arr-jacshared', C, [("base_flat_length = self.__base_pattern.flat_length(free=True)\n base_freeflat_length = self.__base_pattern.flat_length(free=True)\n\n jacobians = []\n for item in itertools.product(*self.__array_ranges):\n jac = self.__base_pattern.freeing_jacobian(\n folded_val[item], sparse=True)\n jacobians.append(jac)", "jacobians = [\n            self.__base_pattern.freeing_jacobian(folded_val[item], sparse=True)\n            for item in itertools.product(*self.__array_ranges)]")], Q),
 ('r-arr-idx', C, [("if np.any(folded_bool[item]):\n pattern_indices = self.__base_pattern.flat_indices(\n folded_bool[item], free=free)\n if len(pattern_indices) > 0:\n indices.append(pattern_indices + offset)\n offset += pattern_flat_length", "pattern_indices = self.__base_pattern.flat_indices(\n                folded_bool[item], free=free)\n            if len(pattern_indices) > 0:\n                indices.append(pattern_indices + offset)\n            offset += pattern_flat_length")], Q),
 ('r-get-get', C, [("try:\n json_pattern_name = pattern_json_dict['pattern']\n except KeyError as orig_err_string:\n err_string = \\\n 'A pattern JSON string must have an entry called pattern ' + \\\n 'which is registered using ``register_pattern_json``.'\n raise KeyError(err_string)", "if 'pattern' not in pattern_json_dict:\n        raise KeyError('A pattern JSON string must have an entry called pattern which is registered using ``register_pattern_json``.')\n    json_pattern_name = pattern_json_dict['pattern']")], Q),
 ('r-get-try', C, [("if not json_pattern_name in __json_patterns.keys():\n err_string = (\n 'Before converting from JSON, the pattern {} must be ' +\n 'registered with ``register_pattern_json``.').format(\n json_pattern_name)\n raise KeyError(err_string)\n return __json_patterns[json_pattern_name].from_json(pattern_json)", "try:\n        pattern_class = __json_patterns[json_pattern_name]\n    except KeyError:\n        raise KeyError('The pattern {} must be registered.'.format(json_pattern_name))\n    return pattern_class.from_json(pattern_json)")], Q),
 ('r-load-with', C, [("flat_val = pattern.flatten(folded_val, free=False)\n pattern_json = pattern.to_json()\n np.savez(file, flat_val=flat_val, pattern_json=pattern_json, **argk)", "contents = {'flat_val': pattern.flatten(folded_val, free=False),\n                'pattern_json': pattern.to_json()}\n    np.savez(file, **contents, **argk)")], Q),
 # numeric
 ('r-num-validflag', N, [("if (np.array(folded_val < self._lb)).any():\n return False, 'Value beneath lower bound.'\n if (np.array(folded_val > self._ub)).any():\n return False, 'Value above upper bound.'\n return True, ''", "for bad, msg in ((folded_val < self._lb, 'Value beneath lower bound.'),\n                             (folded_val > self._ub, 'Value above upper bound.')):\n                if np.any(bad):\n                    return False, msg\n        return True, ''")], Q),
 ('r-num-dict', N, [("return {\n 'pattern': self.json_typename(),\n 'lb': self._lb,\n 'ub': self._ub,\n 'shape': self._shape,\n 'default_validate': self.default_validate,\n 'free_default': self.free_default }", "result = dict(pattern=self.json_typename(), lb=self._lb, ub=self._ub)\n        result['shape'] = self._shape\n        result.update(default_validate=self.default_validate,\n                      free_default=self.free_default)\n        return result")], Q),
 ('r-num-superdict', N, [("return {\n 'pattern': self.json_typename(),\n 'lb': self._lb,\n 'ub': self._ub,\n 'default_validate': self.default_validate,\n 'free_default': self.free_default}", "result = super().as_dict()\n        del result['shape']\n        return result")], Q),
 ('r-num-foldshared', N, [("if free:\n constrained_array = \\\n _constrain_array(flat_val, self._lb, self._ub)\n return constrained_array.reshape(self._shape)\n else:\n # For consistency, never return a reference.\n folded_val = copy.copy(flat_val).reshape(self._shape)\n valid, msg = self.validate_folded(folded_val, validate_value)\n if not valid:\n raise ValueError(msg)\n return folded_val", "if free:\n            flat_val = _constrain_array(flat_val, self._lb, self._ub)\n        else:\n            flat_val = copy.copy(flat_val)\n        folded_val = flat_val.reshape(self._shape)\n        if not free:\n            valid, msg = self.validate_folded(folded_val, validate_value)\n            if not valid:\n                raise ValueError(msg)\n        return folded_val")], Q),
 ('r-num-sigmoid', N, [("ratio = np.exp(-1 * np.logaddexp(0, -1 * free_array))\n return np.clip((ub - lb) * ratio + lb, lb, ub)", "ratio = _logistic(free_array)\n            return np.clip(lb + ratio * (ub - lb), lb, ub)"), ("ratio = np.exp(-1 * np.logaddexp(0, -1 * free_array))\n return (ub - lb) * ratio * (1 - ratio)", "ratio = _logistic(free_array)\n            return (ub - lb) * ratio * (1 - ratio)"), ("def _unconstrain_array_jacobian(", "def _logistic(x):\n    return np.exp(-np.logaddexp(0.0, -x))\n\n\ndef _unconstrain_array_jacobian(")], Q),
 ('r-num-logit', N, [("return np.log(array - lb) - np.log(ub - array)", "return np.log((array - lb) / (ub - array))")], Q),
 ('r-num-initidx', N, [("self.__free_folded_indices = self.fold(\n np.arange(self.flat_length(free=True), dtype=int),\n validate_value=False, free=False)\n self.__nonfree_folded_indices = self.fold(\n np.arange(self.flat_length(free=False), dtype=int),\n validate_value=False, free=False)", "self.__free_folded_indices = np.arange(free_flat_length).reshape(self._shape)\n        self.__nonfree_folded_indices = np.arange(flat_length).reshape(self._shape)")], Q),
 ('r-num-names', N, [("array_ranges = [range(0, t) for t in self._shape]\n flat_name_list = []\n for item in itertools.product(*array_ranges):\n flat_name_list.append('[' + ','.join([str(i) for i in item]) + ']')\n return flat_name_list", "return ['[{}]'.format(','.join(map(str, item)))\n                for item in np.ndindex(*self._shape)]")], Q),
 ('r-num-logdet', N, [("jac_array = \\\n _unconstrain_array_jacobian(folded_val, self._lb, self._ub)\n return np.sum(np.log(np.abs(jac_array)))", "jac_array = np.atleast_1d(\n            _unconstrain_array_jacobian(folded_val, self._lb, self._ub)).flatten()\n        return np.log(np.abs(jac_array)).sum()")], Q),
 ('r-num-inb', N, [("assert lb < ub\n if lb > -float('inf') and ub < float('inf'):\n return 0.5 * (ub - lb) + lb\n else:\n if lb > -float('inf'):\n # The upper bound is infinite.\n return lb + 1.0\n elif ub < float('inf'):\n # The lower bound is infinite.\n return ub - 1.0\n else:\n # Both are infinite.\n return 0.0", "assert lb < ub\n    inf = float('inf')\n    if lb == -inf and ub == inf:\n        return 0.0\n    if ub == inf:\n        return lb + 1.0\n    if lb == -inf:\n        return ub - 1.0\n    return lb + (ub - lb) / 2.0")], Q),
 # psd
 ('r-psd-unvecmask', P, [("mat = np.zeros((mat_size, mat_size))\n for k1 in range(mat_size):\n for k2 in range(k1 + 1):\n mat[k1, k2] = vec[_sym_index(k1, k2)]\n return mat", "mat = np.zeros((mat_size, mat_size))\n    mat[np.tril_indices(mat_size)] = vec\n    return mat")], Q),
 ('r-psd-diaghelper', P, [("mat_exp_diag = np.make_diagonal(\n np.exp(np.diag(mat)), offset=0, axis1=-1, axis2=-2)\n mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)\n return mat_exp_diag + mat - mat_diag", "return _apply_to_diagonal(np.exp, mat)"), ("def _exp_matrix_diagonal(mat):", "def _apply_to_diagonal(fun, mat):\n    old_diag = np.diag(mat)\n    change = fun(old_diag) - old_diag\n    return mat + np.make_diagonal(change, offset=0, axis1=-1, axis2=-2)\n\n\ndef _exp_matrix_diagonal(mat):")], Q),
 ('r-psd-lower', P, [("return mat_exp_diag + mat - mat_diag", "off_diag = mat - mat_diag\n    return off_diag + mat_exp_diag")], Q),
 ('r-psd-tril', P, [("return mat[np.tril_indices(nrow)]", "rows, cols = np.tril_indices(nrow)\n    return mat[rows, cols]")], Q),
 ('r-psd-fold', P, [("folded_val = np.reshape(\n np.array(flat_val), (self.__size, self.__size))", "folded_val = np.array(flat_val).reshape(self.shape())")], Q),
 ('r-psd-validall', P, [("if np.any(np.diag(folded_val) < self.__diag_lb):", "if (np.diag(folded_val) < self.__diag_lb).any():"), ("if not (folded_val.transpose() == folded_val).all():", "if np.any(folded_val.T != folded_val):")], Q),
 ('r-psd-raisefirst', P, [("self.__size = int(size)\n self.__diag_lb = diag_lb\n self.default_validate = default_validate\n\n if diag_lb < 0:\n raise ValueError(\n 'The diagonal lower bound diag_lb must be >-= 0.')", "if diag_lb < 0:\n            raise ValueError(\n                'The diagonal lower bound diag_lb must be >-= 0.')\n        self.__diag_lb = diag_lb\n        self.__size = int(size)\n        self.default_validate = default_validate")], Q),
 # simplex
 ('r-simp-free', X, [("reference_col = np.expand_dims(np.full(free_mat.shape[0:-1], 0), axis=-1)", "reference_col = np.zeros(free_mat.shape[:-1] + (1, ))")], Q),
 ('r-simp-lse', X, [("log_norm = logsumexp(free_mat_aug, axis=-1)\n return np.exp(free_mat_aug - log_norm)", "shifted = free_mat_aug - np.max(free_mat_aug, axis=-1, keepdims=True)\n    weights = np.exp(shifted)\n    return weights / np.sum(weights, axis=-1, keepdims=True)")], Q),
 ('r-simp-unc', X, [("return np.log(simplex_array[..., 1:]) - \\\n np.expand_dims(np.log(simplex_array[..., 0]), axis=-1)", "log_probs = np.log(simplex_array)\n    return log_probs[..., 1:] - log_probs[..., :1]")], Q),
 ('r-simp-jac', X, [("jac = \\\n -1 * np.outer(simplex_vec, simplex_vec) + \\\n np.diag(simplex_vec)\n return jac[:, 1:]", "full_jac = np.diag(simplex_vec) - np.outer(simplex_vec, simplex_vec)\n    return full_jac[:, 1:]")], Q),
 ('r-simp-idx', X, [("indices = []\n offset = 0\n free_simplex_length = self.__simplex_size - 1\n array_ranges = (range(n) for n in self.__array_shape)\n for ind in itertools.product(*array_ranges):\n if np.any(folded_bool[ind]):\n free_inds = np.arange(\n offset * free_simplex_length,\n (offset + 1) * free_simplex_length,\n dtype=int)\n indices.append(free_inds)\n offset += 1\n if len(indices) > 0:\n return np.hstack(indices)\n else:\n return np.array([])", "free_inds = np.arange(self.flat_length(True), dtype=int).reshape(self.__free_shape)\n            chosen = np.any(folded_bool, axis=-1)\n            return free_inds[chosen].flatten()")], Q),
 ('r-simp-valid', X, [("simplex_sums = np.sum(folded_val, axis=-1)\n if np.any(np.abs(simplex_sums - 1) > 1e-12):", "simplex_sums = folded_val.sum(axis=-1)\n            if np.max(np.abs(simplex_sums - 1)) > 1e-12:")], Q),
 # autograd
 ('r-ad-solve', A, [("def broadcast_matmul(a, b):\n return \\\n np.matmul(a, b) if b.ndim == a.ndim \\\n else np.matmul(a, b[..., None])[..., 0]", "def broadcast_matmul(a, b):\n        if b.ndim == a.ndim:\n            return a @ b\n        return (a @ b[..., None])[..., 0]")], Q),
 ('r-ad-groupzip', A, [("for n in range(n_obs):\n if x.ndim > 1:\n result[groups[n], :] += x[n, :]\n else:\n result[groups[n]] += x[n]\n return result", "for group, row in zip(groups, x):\n        result[group] += row\n    return result")], Q),
 ('r-ad-partialprod', A, [("def z_mult_vjp(ans, b):\n def vjp(g):\n return zt_mult(g) # z_mat.T @ g\n return vjp\n defvjp(z_mult, z_mult_vjp)", "defvjp(z_mult, lambda ans, b: zt_mult)")], Q),
 ('r-ad-replace', A, [("x_new = np.full(x.shape, float('nan'))\n x_new[:] = x\n x_new[inds] = x_sub\n return x_new", "x_new = np.array(x, dtype=float)\n    x_new[inds] = x_sub\n    return x_new")], Q),
 ('r-ad-sloghelper', A, [("return 0, np.trace(np.linalg.solve(x.T, g.T))", "solved = np.linalg.solve(x, g)\n    return 0, np.trace(solved)")], Q),
 ('r-ad-gammas', A, [("defjvp(sp.special.psi, lambda g, ans, x: g * sp.special.polygamma(1, x))\ndefjvp(sp.special.digamma, lambda g, ans, x: g * sp.special.polygamma(1, x))", "def _trigamma_jvp(g, ans, x):\n    return sp.special.polygamma(1, x) * g\n\n\nfor _fun in (sp.special.psi, sp.special.digamma):\n    defjvp(_fun, _trigamma_jvp)")], Q),
 # base
 ('r-base-length', B, [("free = self._free_with_default(free)\n if free:\n return self._free_flat_length\n else:\n return self._flat_length", "lengths = {True: self._free_flat_length, False: self._flat_length}\n        return lengths[bool(self._free_with_default(free))]")], Q),
 ('r-base-jac', B, [("self._freeing_jacobian = autograd.jacobian(self._freeing_transform)", "self._freeing_jacobian = autograd.jacobian(\n            lambda flat_val: self._freeing_transform(flat_val))")], Q),
 ('r-base-json', B, [("json_dict = json.loads(json_string)\n cls._validate_json_dict_type(json_dict)\n del json_dict['pattern']\n return cls(**json_dict)", "json_dict = json.loads(json_string)\n        cls._validate_json_dict_type(json_dict)\n        arguments = dict(json_dict)\n        del arguments['pattern']\n        return cls(**arguments)")], Q),
 ('r-base-eq', B, [("if type(other) != type(self):\n return False\n return self.as_dict() == other.as_dict()", "return type(other) == type(self) and other.as_dict() == self.as_dict()")], Q),
 ('r-base-random', B, [("return self.fold(np.random.random(self._free_flat_length), free=True)", "free_vec = np.random.uniform(0.0, 1.0, size=self.flat_length(free=True))\n        return self.fold(free_vec, free=True)")], Q),
]
