"""Edits that keep the behaviour: helpers extracted, loops rewritten, statements
reordered, special cases added. No check may raise an alarm on them."""
F, O, S, C, N, P, X, B, A = ('function_patterns.py', 'optimization_lib.py', 'sparse_preconditioners_lib.py', 'pattern_containers.py',
                             'numeric_array_patterns.py', 'psdmatrix_patterns.py', 'simplex_patterns.py', 'base_patterns.py',
                             'autograd_supplement_lib.py')
Q = set()
EDITS = [
 # base
 ('q-free-ternary', B, [("""if free is not None:
            return free
        else:
            if self.free_default is None:
                raise ValueError(
                    ('If ``free_default`` is ``None``, ``free`` ' +
                    'must be specified.'))
            else:
                return self.free_default""", """resolved = self.free_default if free is None else free
        if resolved is None:
            raise ValueError(
                'If ``free_default`` is ``None``, ``free`` must be specified.')
        return resolved""")], Q),
 ('q-eq-short', B, [("""if type(other) != type(self):
            return False
        return self.as_dict() == other.as_dict()""", """same_type = type(other) is type(self)
        return same_type and self.as_dict() == other.as_dict()""")], Q),
 ('q-typename-f', B, [("return '.'.join([ cls.__module__, cls.__name__])", "return f'{cls.__module__}.{cls.__name__}'")], Q),
 ('q-typename-plus', B, [("return '.'.join([ cls.__module__, cls.__name__])", "return cls.__module__ + '.' + cls.__name__")], Q),
 ('q-random-size', B, [("return self.fold(np.random.random(self._free_flat_length), free=True)", "unit = np.random.random(self.flat_length(free=True))\n        return self.fold(unit, free=True)")], Q),
 ('q-emptybool-ones', B, [("""flat_len = self.flat_length(free=False)
        bool_vec = np.full(flat_len, value, dtype='bool')
        return self.fold(bool_vec, free=False, validate_value=False)""", """return self.fold(
            np.full(self._flat_length, bool(value)), free=False, validate_value=False)""")], Q),
 ('q-json-pop', B, [("del json_dict['pattern']\n        return cls(**json_dict)", "json_dict.pop('pattern')\n        return cls(**json_dict)")], Q),
 ('q-json-comp', B, [("del json_dict['pattern']\n        return cls(**json_dict)", "kwargs = {key: val for key, val in json_dict.items() if key != 'pattern'}\n        return cls(**kwargs)")], Q),
 ('q-jac-helper', B, [("""flat_val = self.flatten(folded_val, free=False)
        jac = self._freeing_jacobian(flat_val)
        if sparse:
            return coo_matrix(jac)
        else:
            return jac""", """jac = self._freeing_jacobian(self.flatten(folded_val, free=False))
        return self._as_requested(jac, sparse)

    @staticmethod
    def _as_requested(jac, sparse):
        return coo_matrix(jac) if sparse else jac""")], Q),
 ('q-length-names', B, [("return [ str(i) for i in range(self.flat_length(free)) ]", "names = []\n        for i in range(self.flat_length(free)):\n            names.append('{}'.format(i))\n        return names")], Q),
 ('q-length-map', B, [("return [ str(i) for i in range(self.flat_length(free)) ]", "return list(map(str, range(self.flat_length(free))))")], Q),
 ('q-transform-split', B, [("return self.flatten(self.fold(flat_val, free=False), free=True)", "folded_val = self.fold(flat_val, free=False)\n        return self.flatten(folded_val, free=True)")], Q),
 # numeric
 ('q-unc-flags', N, [("""if ub == float("inf"):
        if lb == -float("inf"):
            # For consistent behavior, never return a reference.
            # Note that deepcopy will cause autograd to fail.
            return copy.copy(array)
        else:
            return np.log(array - lb)
    else:  # the upper bound is finite
        if lb == -float("inf"):
            return -1 * np.log(ub - array)
        else:
            return np.log(array - lb) - np.log(ub - array)""", """has_lb = lb > -np.inf
    has_ub = ub < np.inf
    if has_lb and has_ub:
        return np.log(array - lb) - np.log(ub - array)
    if has_lb:
        return np.log(array - lb)
    if has_ub:
        return -np.log(ub - array)
    return copy.copy(array)""")], Q),
 ('q-unc-isinf', N, [("""def _unconstrain_array(array, lb, ub):""", """def _is_unbounded(bound):
    return abs(bound) == float("inf")


def _unconstrain_array(array, lb, ub):"""), ("if ub == float(\"inf\"):\n        if lb == -float(\"inf\"):", "if _is_unbounded(ub):\n        if _is_unbounded(lb):")], Q),
 ('q-con-helper', N, [("""def _get_inbounds_value(lb, ub):""", """def _logistic(x):
    return np.exp(-1 * np.logaddexp(0, -1 * x))


def _get_inbounds_value(lb, ub):"""), ("ratio = np.exp(-1 * np.logaddexp(0, -1 * free_array))\n            return np.clip", "ratio = _logistic(free_array)\n            return np.clip", 1), ("ratio = np.exp(-1 * np.logaddexp(0, -1 * free_array))\n            return (ub - lb) * ratio * (1 - ratio)", "ratio = _logistic(free_array)\n            return (ub - lb) * ratio * (1 - ratio)")], Q),
 ('q-con-minmax', N, [("return np.clip((ub - lb) * ratio + lb, lb, ub)", "return np.minimum(np.maximum(lb + ratio * (ub - lb), lb), ub)", 1)], Q),
 ('q-jac-sq', N, [("return 1 / (array - lb) + 1 / (ub - array)", "return (ub - lb) / ((array - lb) * (ub - array))")], Q),
 ('q-inb-mean', N, [("""if lb > -float('inf') and ub < float('inf'):
        return 0.5 * (ub - lb) + lb
    else:
        if lb > -float('inf'):
            # The upper bound is infinite.
            return lb + 1.0
        elif ub < float('inf'):
            # The lower bound is infinite.
            return ub - 1.0
        else:
            # Both are infinite.
            return 0.0""", """finite_lb = lb > -float('inf')
    finite_ub = ub < float('inf')
    if not finite_lb and not finite_ub:
        return 0.0
    if not finite_ub:
        return lb + 1.0
    if not finite_lb:
        return ub - 1.0
    return lb + (ub - lb) / 2""")], Q),
 ('q-num-shapecheck', N, [("""if folded_val.shape != self.shape():
            err_msg = ('Wrong size for array.' +
                       ' Expected shape: ' + str(self.shape()) +
                       ' Got shape: ' + str(folded_val.shape))
            return False, err_msg
        else:
            return True, ''""", """if folded_val.shape == self._shape:
            return True, ''
        return False, (
            'Wrong size for array. Expected shape: {} Got shape: {}'.format(
                self._shape, folded_val.shape))""")], Q),
 ('q-num-bounds', N, [("""if (np.array(folded_val < self._lb)).any():
                return False, 'Value beneath lower bound.'
            if (np.array(folded_val > self._ub)).any():
                return False, 'Value above upper bound.'""", """if np.any(folded_val < self._lb):
                return False, 'Value beneath lower bound.'
            elif np.any(self._ub < folded_val):
                return False, 'Value above upper bound.'""")], Q),
 ('q-num-checked', N, [("""free = self._free_with_default(free)
        folded_val = np.atleast_1d(folded_val)
        valid, msg = self.validate_folded(folded_val, validate_value)
        if not valid:
            raise ValueError(msg)
        if free:
            return \\
                _unconstrain_array(folded_val, self._lb, self._ub).flatten()
        else:
            return folded_val.flatten()""", """free = self._free_with_default(free)
        folded_val = self._checked(np.atleast_1d(folded_val), validate_value)
        if not free:
            return folded_val.flatten()
        return _unconstrain_array(folded_val, *self.bounds()).flatten()

    def _checked(self, folded_val, validate_value):
        valid, msg = self.validate_folded(folded_val, validate_value)
        if not valid:
            raise ValueError(msg)
        return folded_val""")], Q),
 ('q-num-indices', N, [("""self.__free_folded_indices = self.fold(
            np.arange(self.flat_length(free=True), dtype=int),
            validate_value=False, free=False)

        self.__nonfree_folded_indices = self.fold(
            np.arange(self.flat_length(free=False), dtype=int),
            validate_value=False, free=False)""", """self.__folded_indices = np.arange(flat_length).reshape(self._shape)"""), ("""if free:
            return self.__free_folded_indices[folded_bool]
        else:
            return self.__nonfree_folded_indices[folded_bool]""", "return self.__folded_indices[folded_bool]")], Q),
 ('q-num-flatnonzero', N, [("""if free:
            return self.__free_folded_indices[folded_bool]
        else:
            return self.__nonfree_folded_indices[folded_bool]""", "return np.flatnonzero(folded_bool)")], Q),
 ('q-num-names', N, [("""array_ranges = [range(0, t) for t in self._shape]
        flat_name_list = []
        for item in itertools.product(*array_ranges):
            flat_name_list.append('[' + ','.join([str(i) for i in item]) + ']')
        return flat_name_list""", """return ['[{}]'.format(','.join(map(str, item)))
                for item in np.ndindex(*self._shape)]""")], Q),
 ('q-num-foldearly', N, [("""if free:
            constrained_array = \\
                _constrain_array(flat_val, self._lb, self._ub)
            return constrained_array.reshape(self._shape)
        else:
            # For consistency, never return a reference.
            folded_val = copy.copy(flat_val).reshape(self._shape)
            valid, msg = self.validate_folded(folded_val, validate_value)
            if not valid:
                raise ValueError(msg)
            return folded_val""", """folded_val = flat_val.reshape(self._shape)
        if free:
            return _constrain_array(folded_val, self._lb, self._ub)
        is_valid, message = self.validate_folded(folded_val, validate_value)
        if is_valid:
            return np.array(folded_val)
        raise ValueError(message)""")], Q),
 ('q-num-logdet', N, [("""jac_array = \\
            _unconstrain_array_jacobian(folded_val, self._lb, self._ub)
        return np.sum(np.log(np.abs(jac_array)))""", """jac_array = \\
            _unconstrain_array_jacobian(folded_val, self._lb, self._ub)
        return np.sum(np.log(jac_array))""")], Q),
 ('q-num-jacdiag', N, [("""jac_array = \\
            _unconstrain_array_jacobian(folded_val, self._lb, self._ub)
        jac_array = np.atleast_1d(jac_array).flatten()
        if sparse:
            return osp.sparse.diags(jac_array)
        else:
            return np.diag(jac_array)""", """return self._diagonal(
            _unconstrain_array_jacobian(folded_val, self._lb, self._ub), sparse)

    @staticmethod
    def _diagonal(jac_array, sparse):
        make = osp.sparse.diags if sparse else np.diag
        return make(np.atleast_1d(jac_array).flatten())""")], Q),
 # psd
 ('q-psd-symidx', P, [("""def ld_ind(k1, k2):
        return int(k2 + k1 * (k1 + 1) / 2)

    if k2 <= k1:
        return ld_ind(k1, k2)
    else:
        return ld_ind(k2, k1)""", """row, col = max(k1, k2), min(k1, k2)
    return row * (row + 1) // 2 + col""")], Q),
 ('q-psd-unvec', P, [("""for k1 in range(mat_size):
        for k2 in range(k1 + 1):
            mat[k1, k2] = vec[_sym_index(k1, k2)]
    return mat""", """mat[np.tril_indices(mat_size)] = vec
    return mat""")], Q),
 ('q-psd-unvec-counter', P, [("""for k1 in range(mat_size):
        for k2 in range(k1 + 1):
            mat[k1, k2] = vec[_sym_index(k1, k2)]
    return mat""", """pos = 0
    for k1 in range(mat_size):
        for k2 in range(k1 + 1):
            mat[k1, k2] = vec[pos]
            pos += 1
    return mat""")], Q),
 ('q-psd-diagswap', P, [("""mat_exp_diag = np.make_diagonal(
        np.exp(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
    mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)
    return mat_exp_diag + mat - mat_diag""", """return _swap_diagonal(mat, np.exp(np.diag(mat)))"""), ("def _exp_matrix_diagonal(mat):", """def _swap_diagonal(mat, new_diag):
    change = new_diag - np.diag(mat)
    return mat + np.make_diagonal(change, offset=0, axis1=-1, axis2=-2)


def _exp_matrix_diagonal(mat):""")], Q),
 ('q-psd-lb-eye', P, [("""mat_lb = mat - np.make_diagonal(
        np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)""", "mat_lb = mat - diag_lb * np.eye(k)")], Q),
 ('q-psd-nolb', P, [("""mat_lb = mat - np.make_diagonal(
        np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)""", """if diag_lb == 0:
        mat_lb = mat
    else:
        mat_lb = mat - np.make_diagonal(
            np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)""")], Q),
 ('q-psd-dot', P, [("mat = np.matmul(mat_chol, mat_chol.T)", "mat = np.dot(mat_chol, np.transpose(mat_chol))")], Q),
 ('q-psd-sym', P, [("if not (folded_val.transpose() == folded_val).all():", "if np.any(folded_val != folded_val.T):")], Q),
 ('q-psd-free-idx', P, [("""if np.any(folded_bool):
                return np.arange(self.flat_length(True), dtype=int)
            else:
                return np.array([])""", "return np.arange(self._free_flat_length, dtype=int)")], Q),
 ('q-psd-idx-order', P, [("""if not free:
            folded_indices = self.fold(
                np.arange(self.flat_length(False), dtype=int),
                validate_value=False, free=False)
            return folded_indices[folded_bool]
        else:""", """if not free:
            n = self.__size
            rows, cols = np.nonzero(folded_bool)
            return rows * n + cols
        else:""")], Q),
 ('q-psd-shape', P, [("if folded_val.shape != (self.__size, self.__size):", "if folded_val.shape != self.shape():")], Q),
 ('q-psd-empty', P, [("return np.eye(self.__size) * (self.__diag_lb + 1)", "return np.diag(np.full(self.__size, self.__diag_lb + 1.0))")], Q),
 ('q-psd-len', P, [("int(size * (size + 1) / 2)", "self.__size * (self.__size + 1) // 2")], Q),
 ('q-psd-len-split', P, [("super().__init__(self.__size ** 2, int(size * (size + 1) / 2),", "n_off = self.__size * (self.__size - 1) // 2\n        super().__init__(self.__size ** 2, self.__size + n_off,")], Q),
 ('q-psd-len-helper', P, [("super().__init__(self.__size ** 2, int(size * (size + 1) / 2),", "super().__init__(self.__size ** 2, _sym_index(self.__size - 1, self.__size - 1) + 1,")], Q),
 ('q-psd-init-order', P, [("""self.__size = int(size)
        self.__diag_lb = diag_lb
        self.default_validate = default_validate
        if diag_lb < 0:
            raise ValueError(
                'The diagonal lower bound diag_lb must be >-= 0.')""", """if not diag_lb >= 0:
            raise ValueError(
                'The diagonal lower bound diag_lb must be >-= 0.')
        self.default_validate = default_validate
        self.__diag_lb = diag_lb
        self.__size = int(size)""")], Q),
 # simplex
 ('q-simp-softmax', X, [("""reference_col = np.expand_dims(np.full(free_mat.shape[0:-1], 0), axis=-1)
    free_mat_aug = np.concatenate([reference_col, free_mat], axis=-1)""", """reference_col = np.zeros(free_mat.shape[:-1] + (1, ))
    free_mat_aug = np.concatenate([reference_col, free_mat], axis=-1)""")], Q),
 ('q-simp-direct', X, [("""log_norm = logsumexp(free_mat_aug, axis=-1)
    return np.exp(free_mat_aug - log_norm)""", """weights = np.exp(
        free_mat_aug - np.max(free_mat_aug, axis=-1, keepdims=True))
    return weights / np.sum(weights, axis=-1, keepdims=True)""")], Q),
 ('q-simp-unc', X, [("""return np.log(simplex_array[..., 1:]) - \\
           np.expand_dims(np.log(simplex_array[..., 0]), axis=-1)""", """log_simplex = np.log(simplex_array)
    return log_simplex[..., 1:] - log_simplex[..., :1]""")], Q),
 ('q-simp-jachelper', X, [("""array_ranges = [ range(i) for i in self.__array_shape ]
        jacobians = []
        for item in itertools.product(*array_ranges):
            jac = _unconstrain_simplex_jacobian(folded_val[item][:])
            jacobians.append(jac)
        sp_jac = block_diag(jacobians, format='coo')
        if sparse:
            return sp_jac
        else:
            return np.array(sp_jac.todense())""", """return self._stack(
            _unconstrain_simplex_jacobian, folded_val, sparse)

    def _stack(self, one_jacobian, folded_val, sparse):
        blocks = [one_jacobian(folded_val[item])
                  for item in np.ndindex(*self.__array_shape)]
        sp_jac = block_diag(blocks, format='coo')
        return sp_jac if sparse else sp_jac.toarray()""")], Q),
 ('q-simp-free-idx', X, [("""offset = 0
            free_simplex_length = self.__simplex_size - 1
            array_ranges = (range(n) for n in self.__array_shape)
            for ind in itertools.product(*array_ranges):
                if np.any(folded_bool[ind]):
                    free_inds = np.arange(
                        offset * free_simplex_length,
                        (offset + 1) * free_simplex_length,
                        dtype=int)
                    indices.append(free_inds)
                offset += 1""", """start = 0
            free_simplex_length = self.__free_shape[-1]
            for ind in np.ndindex(*self.__array_shape):
                if np.any(folded_bool[ind]):
                    indices.append(
                        np.arange(free_simplex_length, dtype=int) + start)
                start += free_simplex_length""")], Q),
 ('q-simp-free-enum', X, [("""offset = 0
            free_simplex_length = self.__simplex_size - 1
            array_ranges = (range(n) for n in self.__array_shape)
            for ind in itertools.product(*array_ranges):
                if np.any(folded_bool[ind]):""", """free_simplex_length = self.__simplex_size - 1
            array_ranges = [range(n) for n in self.__array_shape]
            for offset, ind in enumerate(itertools.product(*array_ranges)):
                if folded_bool[ind].any():"""), ("indices.append(free_inds)\n                offset += 1", "indices.append(free_inds)")], Q),
 ('q-simp-sum', X, [("""simplex_sums = np.sum(folded_val, axis=-1)
            if np.any(np.abs(simplex_sums - 1) > 1e-12):""", """excess = folded_val.sum(axis=-1) - 1
            if (np.abs(excess) > 1e-12).any():""")], Q),
 ('q-simp-len', X, [("""super().__init__(np.prod(self.__shape),
                         np.prod(self.__free_shape),""", """num_simplexes = np.prod(self.__array_shape, dtype=int)
        super().__init__(num_simplexes * self.__simplex_size,
                         num_simplexes * (self.__simplex_size - 1),""")], Q),
 # containers
 ('q-dict-fold-cum', C, [("""folded_val = OrderedDict()
        offset = 0
        for pattern_name, pattern in self.__pattern_dict.items():
            pattern_flat_length = pattern.flat_length(free)
            pattern_flat_val = flat_val[offset:(offset + pattern_flat_length)]
            offset += pattern_flat_length
            # Containers must not mix free and non-free values, so do not
            # use default values for free.
            folded_val[pattern_name] = \\
                pattern.fold(pattern_flat_val,
                             free=free,
                             validate_value=validate_value)""", """folded_val = OrderedDict()
        start = 0
        for pattern_name in self.__pattern_dict:
            pattern = self.__pattern_dict[pattern_name]
            stop = start + pattern.flat_length(free=free)
            folded_val[pattern_name] = pattern.fold(
                flat_val[start:stop], free=free, validate_value=validate_value)
            start = stop""")], Q),
 ('q-dict-fold-rest', C, [("""offset = 0
        for pattern_name, pattern in self.__pattern_dict.items():
            pattern_flat_length = pattern.flat_length(free)
            pattern_flat_val = flat_val[offset:(offset + pattern_flat_length)]
            offset += pattern_flat_length""", """remaining = flat_val
        for pattern_name, pattern in self.__pattern_dict.items():
            pattern_flat_length = pattern.flat_length(free)
            pattern_flat_val = remaining[:pattern_flat_length]
            remaining = remaining[pattern_flat_length:]""")], Q),
 ('q-dict-flatten-comp', C, [("""flat_vals = []
        for pattern_name, pattern in self.__pattern_dict.items():
            pattern_flat_length = pattern.flat_length(free)
            # Containers must not mix free and non-free values, so do not
            # use default values for free.
            # flat_val[offset:(offset + pattern_flat_length)] = \\
            flat_vals.append(
                pattern.flatten(
                    folded_val[pattern_name],
                    free=free,
                    validate_value=validate_value))
            #offset += pattern_flat_length
        if len(flat_vals) == 0:
            return np.array([])
        return np.hstack(flat_vals)""", """if not self.__pattern_dict:
            return np.array([])
        return np.concatenate([
            pattern.flatten(folded_val[name], free=free, validate_value=validate_value)
            for name, pattern in self.__pattern_dict.items()])""")], Q),
 ('q-dict-sum', C, [("""return int(np.sum([pattern.flat_length(free)
                           for pattern_name, pattern in
                           self.__pattern_dict.items()]))""", """return sum(pattern.flat_length(free)
                   for pattern in self.__pattern_dict.values())""")], Q),
 ('q-dict-sum-loop', C, [("""return int(np.sum([pattern.flat_length(free)
                           for pattern_name, pattern in
                           self.__pattern_dict.items()]))""", """total = 0
        for pattern in self.__pattern_dict.values():
            total += pattern.flat_length(free)
        return int(total)""")], Q),
 ('q-dict-set-refresh', C, [("""self._free_flat_length = self._update_flat_length(free=True)
        self._flat_length = self._update_flat_length(free=False)

    def __delitem__""", """self._refresh_lengths()

    def _refresh_lengths(self):
        self._flat_length = self._update_flat_length(free=False)
        self._free_flat_length = self._update_flat_length(free=True)

    def __delitem__"""), ("""self._free_flat_length = self._update_flat_length(free=True)
        self._flat_length = self._update_flat_length(free=False)

    def keys""", """self._refresh_lengths()

    def keys""")], Q),
 ('q-dict-set-local', C, [("""self.__pattern_dict[pattern_name] = pattern

        # We cannot""", """# We cannot"""), ("""if isinstance(self.__pattern_dict[pattern_name], PatternDict):
            self.__pattern_dict[pattern_name].lock()""", """if isinstance(pattern, PatternDict):
            pattern.lock()
        self.__pattern_dict[pattern_name] = pattern""")], Q),
 ('q-dict-del', C, [("""pattern = self.__pattern_dict[pattern_name]
        self.__pattern_dict.pop(pattern_name)""", "del self.__pattern_dict[pattern_name]")], Q),
 ('q-dict-idx', C, [("""if len(pattern_indices) > 0:
                indices.append(pattern_indices + offset)
            offset += pattern_flat_length
        if len(indices) > 0:
            return np.hstack(indices)
        else:
            return np.array([], dtype=int)

    def flat_names""", """if len(pattern_indices) > 0:
                indices.append(offset + pattern_indices)
            offset = offset + pattern_flat_length
        if not indices:
            return np.array([], dtype=int)
        return np.concatenate(indices)

    def flat_names""")], Q),
 ('q-dict-logdet', C, [("""log_abs_det = 0.0
        for pattern_name, pattern in self.__pattern_dict.items():
            log_abs_det += pattern.log_abs_det_unfreeing_jacobian(
                folded_val[pattern_name])
        return log_abs_det""", """return sum([
            pattern.log_abs_det_unfreeing_jacobian(folded_val[name])
            for name, pattern in self.__pattern_dict.items()], 0.0)""")], Q),
 ('q-dict-names', C, [("""pattern_flat_names = \\
                [ pattern_name + delim + t for t in pattern_flat_names]
            flat_names_list.append(pattern_flat_names)
        return np.hstack(flat_names_list)""", """prefix = pattern_name + delim
            flat_names_list.append([prefix + t for t in pattern_flat_names])
        return np.hstack(flat_names_list)""")], Q),
 ('q-dict-valid', C, [("""valid, err_msg = pattern.validate_folded(
                folded_val[pattern_name], validate_value=validate_value)
            if not valid:
                err_msg = '{} is not valid.'.format(err_msg)
                return False, err_msg
        return True, ''""", """member_val = folded_val[pattern_name]
            valid, err_msg = pattern.validate_folded(member_val, validate_value)
            if valid:
                continue
            return False, '{} is not valid.'.format(err_msg)
        return True, ''""")], Q),
 ('q-dict-json', C, [("""pattern_dict = cls(free_default=json_dict.get('free_default'))
        for pattern_name in json_dict['keys']:
            pattern_dict[pattern_name] = get_pattern_from_json(
                json_dict['contents'][pattern_name])
        return pattern_dict""", """contents = json_dict['contents']
        result = cls(free_default=json_dict.get('free_default'))
        for name in json_dict['keys']:
            member = get_pattern_from_json(contents[name])
            result[name] = member
        return result""")], Q),
 ('q-dict-json-common', C, [("""json_dict = json.loads(json_string)
        if json_dict['pattern'] != cls.json_typename():
            error_string = \\
                ('{}.from_json must be called on a json_string made ' +
                 'from a the same pattern type.  The json_string ' +
                 'pattern type was {}.').format(
                    cls.json_typename(), json_dict['pattern'])
            raise ValueError(error_string)
        pattern_dict""", """json_dict = json.loads(json_string)
        cls._validate_json_dict_type(json_dict)
        pattern_dict""")], Q),
 ('q-arr-indices-enum', C, [("""offset = 0
        for item in itertools.product(*self.__array_ranges):
            if np.any(folded_bool[item]):
                pattern_indices = self.__base_pattern.flat_indices(
                    folded_bool[item], free=free)
                if len(pattern_indices) > 0:
                    indices.append(pattern_indices + offset)
            offset += pattern_flat_length""", """for k, item in enumerate(itertools.product(*self.__array_ranges)):
            pattern_indices = self.__base_pattern.flat_indices(
                folded_bool[item], free=free)
            if len(pattern_indices) > 0:
                indices.append(pattern_indices + k * pattern_flat_length)""")], Q),
 ('q-arr-fold-rows', C, [("""folded_array = np.array([
            self.__base_pattern.fold(
                flat_val[self._stacked_obs_slice(item, flat_length)],
                free=free, validate_value=validate_value)
            for item in itertools.product(*self.__array_ranges)])""", """flat_rows = np.reshape(flat_val, (-1, flat_length))
        folded_array = np.array([
            self.__base_pattern.fold(row, free=free, validate_value=validate_value)
            for row in flat_rows])""")], Q),
 ('q-arr-fold-list', C, [("""folded_array = np.array([
            self.__base_pattern.fold(
                flat_val[self._stacked_obs_slice(item, flat_length)],
                free=free, validate_value=validate_value)
            for item in itertools.product(*self.__array_ranges)])""", """pieces = []
        for k in range(int(np.prod(self.__array_shape))):
            piece = flat_val[(k * flat_length):((k + 1) * flat_length)]
            pieces.append(self.__base_pattern.fold(
                piece, free=free, validate_value=validate_value))
        folded_array = np.array(pieces)""")], Q),
 ('q-arr-flatten', C, [("""return np.hstack(np.array([
            self.__base_pattern.flatten(
                folded_val[item], free=free, validate_value=validate_value)
            for item in itertools.product(*self.__array_ranges)]))""", """flat_vals = []
        for item in itertools.product(*self.__array_ranges):
            flat_vals.append(self.__base_pattern.flatten(
                folded_val[item], free=free, validate_value=validate_value))
        return np.concatenate(flat_vals)""")], Q),
 ('q-arr-empty', C, [("""repeated_array = np.array(
            [empty_pattern
             for item in itertools.product(*self.__array_ranges)])
        return np.reshape(repeated_array, self.__shape)""", """tiles = self.__array_shape + (1, ) * empty_pattern.ndim
        return np.tile(empty_pattern, tiles)""")], Q),
 ('q-arr-valid', C, [("""if folded_val.ndim != len(self.__shape):
            return \\
                False, \\
                'Wrong number of dimensions.  Expected {}, got {}.'.format(
                    len(self.__shape), folded_val.ndim)
        if folded_val.shape""", """if folded_val.shape""")], Q),
 ('q-arr-len', C, [("""super().__init__(
            num_elements * base_pattern.flat_length(free=False),
            num_elements * base_pattern.flat_length(free=True),
            free_default=free_default)""", """flat_lengths = [num_elements * base_pattern.flat_length(free=free)
                        for free in (False, True)]
        super().__init__(*flat_lengths, free_default=free_default)""")], Q),
 ('q-arr-jac', C, [("""base_flat_length = self.__base_pattern.flat_length(free=True)
        base_freeflat_length = self.__base_pattern.flat_length(free=True)
        jacobians = []
        for item in itertools.product(*self.__array_ranges):
            jac = self.__base_pattern.unfreeing_jacobian(
                folded_val[item], sparse=True)
            jacobians.append(jac)
        sp_jac = block_diag(jacobians, format='coo')
        if sparse:
            return sp_jac
        else:
            return np.array(sp_jac.todense())""", """sp_jac = block_diag(
            [self.__base_pattern.unfreeing_jacobian(folded_val[item])
             for item in itertools.product(*self.__array_ranges)],
            format='coo')
        if not sparse:
            return sp_jac.toarray()
        return sp_jac""")], Q),
 ('q-reg', C, [("""if (not allow_overwrite) and pattern_name in __json_patterns.keys():
        raise ValueError(
            'A pattern named {} is already registered for JSON.'.format(
                pattern_name))
    __json_patterns[pattern_name] = pattern""", """taken = pattern_name in __json_patterns
    if taken and not allow_overwrite:
        raise ValueError(
            'A pattern named {} is already registered for JSON.'.format(
                pattern_name))
    __json_patterns.update({pattern_name: pattern})""")], Q),
 ('q-get', C, [("""if not json_pattern_name in __json_patterns.keys():
        err_string = (
            'Before converting from JSON, the pattern {} must be ' +
            'registered with ``register_pattern_json``.').format(
                json_pattern_name)
        raise KeyError(err_string)
    return __json_patterns[json_pattern_name].from_json(pattern_json)""", """pattern_class = __json_patterns.get(json_pattern_name)
    if pattern_class is None:
        raise KeyError(
            'Before converting from JSON, the pattern {} must be registered '
            'with ``register_pattern_json``.'.format(json_pattern_name))
    return pattern_class.from_json(pattern_json)""")], Q),
 ('q-save', C, [("""flat_val = pattern.flatten(folded_val, free=False)
    pattern_json = pattern.to_json()
    np.savez(file, flat_val=flat_val, pattern_json=pattern_json, **argk)""", """np.savez(
        file, pattern_json=pattern.to_json(),
        flat_val=pattern.flatten(folded_val, free=False), **argk)""")], Q),
 ('q-load', C, [("""pattern = get_pattern_from_json(str(data['pattern_json']))
    folded_val = pattern.fold(data['flat_val'], free=False)
    return folded_val, pattern, data""", """flat_val = data['flat_val']
    pattern = get_pattern_from_json(str(data['pattern_json']))
    return pattern.fold(flat_val, free=False), pattern, data""")], Q),
 # functions
 ('q-fun-in-list', F, [("""new_args = ()
        last_argnum = 0
        for i in self._argnum_sort:
            argnum = self._argnums[i]

            if self._original_is_flat:
                val_for_orig = \\
                    self._patterns[i].flatten(args[argnum], free=self.free[i])
            else:
                val_for_orig = \\
                    self._patterns[i].fold(args[argnum], free=self.free[i])
            new_args += args[last_argnum:argnum] + (val_for_orig, )
            last_argnum = argnum + 1
        new_args += args[last_argnum:len(args)]

        return self._fun(*new_args, **kwargs)""", """new_args = list(args)
        for argnum, pattern, free in zip(self._argnums, self._patterns, self.free):
            convert = pattern.flatten if self._original_is_flat else pattern.fold
            new_args[argnum] = convert(args[argnum], free=free)
        return self._fun(*new_args, **kwargs)""")], Q),
 ('q-fun-in-helper', F, [("""if self._original_is_flat:
                val_for_orig = \\
                    self._patterns[i].flatten(args[argnum], free=self.free[i])
            else:
                val_for_orig = \\
                    self._patterns[i].fold(args[argnum], free=self.free[i])
            new_args""", """val_for_orig = self._convert(i, args[argnum])
            new_args"""), ("def __call__(self, *args, **kwargs):", """def _convert(self, i, val):
        pattern, free = self._patterns[i], self.free[i]
        if self._original_is_flat:
            return pattern.flatten(val, free=free)
        return pattern.fold(val, free=free)

    def __call__(self, *args, **kwargs):""")], Q),
 ('q-fun-out-list', F, [("""new_rets += rets[last_retnum:retnum] + (new_ret, )
            last_retnum = retnum + 1
        new_rets += rets[last_retnum:len(rets)]
        return new_rets""", """new_rets = new_rets + rets[last_retnum:retnum]
            new_rets = new_rets + (new_ret, )
            last_retnum = retnum + 1
        return new_rets + rets[last_retnum:]""")], Q),
 ('q-fun-dup', F, [("if len(self._argnums) != len(np.unique(self._argnums)):", "if len(set(self._argnums.tolist())) < len(self._argnums):")], Q),
 ('q-fun-argnums', F, [("argnums = np.arange(0, len(self._patterns))", "argnums = list(range(len(self._patterns)))")], Q),
 ('q-fun-single', F, [("""if self._original_is_flat:
                return self._patterns[0].fold(rets, free=self.free[0])
            else:
                return self._patterns[0].flatten(rets, free=self.free[0])""", """pattern = self._patterns[0]
            convert = pattern.fold if self._original_is_flat else pattern.flatten
            return convert(rets, free=self.free[0])""")], Q),
 # optimization
 ('q-opt-trunc', O, [("eig_val_trunc = copy.deepcopy(evals)", "eig_val_trunc = np.array(evals)")], Q),
 ('q-opt-trunc-helper', O, [("""if not ev_min is None:
        if not np.isreal(ev_min):
            raise ValueError('ev_min must be real-valued.')
        ev_min = float(ev_min)
        eig_val_trunc""", """if ev_min is not None:
        ev_min = _real_bound(ev_min, 'ev_min')
        eig_val_trunc"""), ("def truncate_eigenvalues(", """def _real_bound(bound, name):
    if not np.isreal(bound):
        raise ValueError('{} must be real-valued.'.format(name))
    return float(bound)


def truncate_eigenvalues(""")], Q),
 ('q-opt-perp', O, [("return vec + eigvecs @ ((new_eigvals - 1) * vec_loadings)", "vec_perp = vec - eigvecs @ vec_loadings\n        return vec_perp + eigvecs @ (new_eigvals * vec_loadings)")], Q),
 ('q-opt-eye', O, [("""mat = []
    for i in range(dim):
        # Re-instantiate to make sure that mult_fun is not returning a reference.
        vec = np.zeros(dim)
        vec[i] = 1.0
        mat.append(mult_fun(vec))
    return np.vstack(mat).T""", """columns = [mult_fun(basis_vec) for basis_vec in np.eye(dim)]
    return np.stack(columns, axis=1)""")], Q),
 ('q-opt-sym', O, [("mat_sym = 0.5 * (mat + mat.T)", "mat_sym = (mat + np.transpose(mat)) / 2")], Q),
 ('q-opt-reset', O, [("self.reset_iteration_count()\n        self.reset_log()", "self.reset_log()\n        self.reset_iteration_count()")], Q),
 ('q-opt-f', O, [("""f_val = self._objective_fun(x)
        if self._print_every > 0 and self._num_f_evals % self._print_every == 0:
            self.print_value(self._num_f_evals, x, f_val)
        if self._log_every > 0 and self._num_f_evals % self._log_every == 0:
            self.log_value(self._num_f_evals, x, f_val)
        self._num_f_evals += 1
        return f_val""", """f_val = self._objective_fun(x)
        n = self._num_f_evals
        if self._due(self._print_every):
            self.print_value(n, x, f_val)
        if self._due(self._log_every):
            self.log_value(n, x, f_val)
        self._num_f_evals = n + 1
        return f_val

    def _due(self, every):
        return every > 0 and self._num_f_evals % every == 0""")], Q),
 ('q-opt-hess', O, [("""if x is not None and hessian is not None:
            raise ValueError('You must specify x or hessian but not both.')
        if x is None and hessian is None:
            raise ValueError('You must specify either x or hessian.')
        if hessian is None:""", """if (x is None) == (hessian is None):
            raise ValueError('You must specify exactly one of x and hessian.')
        if hessian is None:""")], Q),
 ('q-opt-mat', O, [("""def a_times(vec):
                return a @ vec

            if a_inv is None:""", """a_times = lambda vec: np.matmul(a, vec)

            if a_inv is None:""")], Q),
 # autograd
 ('q-ad-group', A, [("""for n in range(n_obs):
        if x.ndim > 1:
            result[groups[n], :] += x[n, :]
        else:
            result[groups[n]] += x[n]
    return result""", """for group, row in zip(groups, x):
        result[group] += row
    return result""")], Q),
 ('q-ad-group-addat', A, [("""for n in range(n_obs):
        if x.ndim > 1:
            result[groups[n], :] += x[n, :]
        else:
            result[groups[n]] += x[n]
    return result""", """osp.add.at(result, groups, x) if False else None
    for n in range(n_obs):
        result[groups[n]] = result[groups[n]] + x[n]
    return result""")], Q),
 ('q-ad-ungroup', A, [("""if v.ndim > 1:
        return v[groups, :]
    else:
        return v[groups]""", "return v[groups, ...]")], Q),
 ('q-ad-group-valid', A, [("""max_group = np.max(groups)
    if num_groups is None:
        num_groups = max_group + 1
    else:
        if max_group >= num_groups:
            raise ValueError(
                'The largest group is >= the number of groups.')""", """min_groups = np.max(groups) + 1
    if num_groups is None:
        num_groups = min_groups
    elif num_groups < min_groups:
        raise ValueError('The largest group is >= the number of groups.')""")], Q),
 ('q-ad-replace', A, [("""x_new = np.full(x.shape, float('nan'))
    x_new[:] = x
    x_new[inds] = x_sub""", """x_new = np.array(x, dtype=float)
    x_new[inds] = x_sub""")], Q),
 ('q-ad-replace-named', A, [("""defvjp(replace,
       lambda ans, x_sub, x, inds: lambda g: g[inds],
       lambda ans, x_sub, x, inds: lambda g: replace(0, g, inds),
       None)""", """def replace_vjp_sub(ans, x_sub, x, inds):
    def vjp(g):
        return g[inds]
    return vjp

def replace_vjp_x(ans, x_sub, x, inds):
    def vjp(g):
        return replace(0, g, inds)
    return vjp

defvjp(replace, replace_vjp_sub, replace_vjp_x, None)""")], Q),
 ('q-ad-inv', A, [("return -dot(dot(ans, g), ans)", "return -dot(ans, dot(g, ans))")], Q),
 ('q-ad-inv-matmul', A, [("""dot = np.dot if ans.ndim == 2 else partial(np.einsum, '...ij,...jk->...ik')
    return -dot(dot(ans, g), ans)""", "return -np.matmul(np.matmul(ans, g), ans)")], Q),
 ('q-ad-slogdet', A, [("return 0, np.trace(np.linalg.solve(x.T, g.T))", "return 0, np.trace(np.linalg.solve(x, g))")], Q),
 ('q-ad-solver', A, [("""def get_grad_funs(z_solve_ad, zt_solve_ad):
        # Reverse mode
        def vjp_solve(ans, b):
            return lambda g: zt_solve_ad(g)

        # Forward mode
        def jvp_solve(g, ans, b):
            return z_solve_ad(g)

        return vjp_solve, jvp_solve

    vjp_solve, jvp_solve = get_grad_funs(z_solve_ad, zt_solve_ad)
    vjp_t_solve, jvp_t_solve = get_grad_funs(zt_solve_ad, z_solve_ad)

    defjvp(z_solve_ad, jvp_solve)
    defjvp(zt_solve_ad, jvp_t_solve)
    defvjp(z_solve_ad, vjp_solve)
    defvjp(zt_solve_ad, vjp_t_solve)""", """for solve_ad, transpose_ad in ((z_solve_ad, zt_solve_ad), (zt_solve_ad, z_solve_ad)):
        defjvp(solve_ad, lambda g, ans, b, fwd=solve_ad: fwd(g))
        defvjp(solve_ad, lambda ans, b, rev=transpose_ad: lambda g: rev(g))""")], Q),
 ('q-ad-product', A, [("""def z_mult_vjp(ans, b):
        def vjp(g):
            return zt_mult(g) # z_mat.T @ g
        return vjp
    defvjp(z_mult, z_mult_vjp)""", """defvjp(z_mult, lambda ans, b: zt_mult)""")], Q),
 ('q-ad-checkb', A, [("""b = np.atleast_1d(b)
        if (b.ndim > 2):
            raise ValueError('The argument must be at most two dimensional.')
        return b""", """b_arr = np.atleast_1d(b)
        if b_arr.ndim <= 2:
            return b_arr
        raise ValueError('The argument must be at most two dimensional.')""")], Q),
 ('q-ad-zt', A, [("""@primitive
    def zt_mult(b):
        return z_mat.T @ check_b(b)""", """z_mat_t = z_mat.T

    @primitive
    def zt_mult(b):
        return z_mat_t @ check_b(b)""")], Q),
 ('q-sp-sqrt', S, [("return mat_chol.apply_Pt(mat_chol.L())", "lower = mat_chol.L()\n    return mat_chol.apply_Pt(lower)")], Q),
 ('q-sp-order', S, [("""mult_hess_inv_sqrt, mult_hess_sqrt = \\
        _get_sparse_square_root_operators(hessian_chol)
    return mult_hess_sqrt, mult_hess_inv_sqrt""", """return _get_sparse_square_root_operators(hessian_chol)[::-1]""")], Q),
]
EDITS += [
 ('q-psd-len-sum', P, [("int(size * (size + 1) / 2)", "sum(range(1, size + 1))")], Q),
 ('q-psd-len-sum2', P, [("int(size * (size + 1) / 2)", "sum(k + 1 for k in range(self.__size))")], Q),
 ('q-psd-len-np', P, [("int(size * (size + 1) / 2)", "len(np.tril_indices(self.__size)[0])")], Q),
 ('q-psd-len-alt', P, [("int(size * (size + 1) / 2)", "(self.__size ** 2 + self.__size) // 2")], Q),
 ('q-psd-len-bad', P, [("int(size * (size + 1) / 2)", "(self.__size ** 2 + 2 * self.__size) // 2")], {'P23'}),
 ('q-psd-len-round', P, [("int(size * (size + 1) / 2)", "int(round(0.5 * size * (size + 1)))")], Q),
 ('q-num-lbzero', N, [("return np.log(array - lb)\n    else:  # the upper", "return np.log(array) if lb == 0 else np.log(array - lb)\n    else:  # the upper"),
                      ("return np.exp(free_array) + lb", "return np.exp(free_array) if lb == 0 else np.exp(free_array) + lb", 1)], Q),
 ('q-num-unit', N, [("ratio = np.exp(-1 * np.logaddexp(0, -1 * free_array))\n            return np.clip", "ratio = np.exp(-1 * np.logaddexp(0, -1 * free_array))\n            if lb == 0 and ub == 1:\n                return ratio\n            return np.clip", 1)], Q),
 ('q-psd-lbpos', P, [("""mat_lb = mat - np.make_diagonal(
        np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)""", """mat_lb = mat
    if diag_lb > 0:
        mat_lb = mat_lb - np.make_diagonal(
            np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)"""), ("""k = mat.shape[0]
    return mat + np.make_diagonal(
        np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)""", """if not diag_lb:
        return mat
    k = mat.shape[0]
    return mat + np.make_diagonal(
        np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)""")], Q),
 ('q-psd-scalar', P, [("""mat_lb = mat - np.make_diagonal(
        np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)""", """if k == 1:
        return 0.5 * np.log(mat[0] - diag_lb)
    mat_lb = mat - np.make_diagonal(
        np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)"""), ("return _vectorize_ld_matrix(\n _log_matrix_diagonal(np.linalg.cholesky(mat_lb)))", "return _vectorize_ld_matrix(\n        _log_matrix_diagonal(np.linalg.cholesky(mat_lb)))")], Q),
 ('q-simp-two', X, [("log_norm = logsumexp(free_mat_aug, axis=-1)", "if free_mat_aug.shape[-1] == 2:\n        p = np.exp(-np.logaddexp(0, -free_mat))\n        return np.concatenate([1 - p, p], axis=-1)\n    log_norm = logsumexp(free_mat_aug, axis=-1)")], Q),
 ('q-arr-empty-shape', C, [("""return np.hstack(np.array([
            self.__base_pattern""", """if len(self.__array_shape) == 1 and self.__array_shape[0] == 1:
            return self.__base_pattern.flatten(
                folded_val[0], free=free, validate_value=validate_value)
        return np.hstack(np.array([
            self.__base_pattern""")], Q),
 ('q-dict-one', C, [("return np.hstack(flat_vals)", "if len(flat_vals) == 1:\n            return flat_vals[0]\n        return np.hstack(flat_vals)")], Q),
 ('q-simp-tuple2', X, [("self.__array_shape = array_shape", "self.__array_shape = tuple(array_shape)")], Q),
]
