"""Bugs and refactorings of the containers, validation, layout and JSON."""
C, N, P, X, B = 'pattern_containers.py', 'numeric_array_patterns.py', 'psdmatrix_patterns.py', 'simplex_patterns.py', 'base_patterns.py'
EDITS = [
    # P01
    ('b01-or', B, [('if free is not None:\n            return free\n        else:\n            if self.free_default', 'if free:\n            return free\n        else:\n            if self.free_default')], {'P02'}),
    ('b01-shortcut', C, [('free = self._free_with_default(free)\n return self._free_flat_length if free', 'return self._free_flat_length if free')], {'P01'}),
    ('b01-psd-or', P, [('free = self._free_with_default(free)\n flat_val = np.atleast_1d(flat_val)', 'free = free or self.free_default\n        flat_val = np.atleast_1d(flat_val)')], {'P01'}),
    ('b01-istrue', X, [('if free: free_mat', 'if free is True:\n            free_mat')], {'P01'}),
    ('b01-cached', B, [('self.free_default = free_default', 'self.free_default = free_default\n        self._fd = free_default'), ('return self.free_default', 'return self._fd')], {'P01'}),
    ('b01-typeerr', B, [("raise ValueError( ('If", "raise TypeError(('If")], {'P01'}),
    ('b01-false', B, [('if self.free_default is None: raise', 'if not self.free_default and self.free_default is not False:\n                raise')], set()),
    # P02
    ('b02-fl', C, [('pattern_flat_length = pattern.flat_length(free) # Containers', 'pattern_flat_length = pattern.flat_length() # Containers')], {'P02'}),
    ('b02-dictidx', C, [('pattern_indices = pattern.flat_indices( folded_bool[pattern_name], free=free)', 'pattern_indices = pattern.flat_indices(folded_bool[pattern_name])')], {'P02'}),
    ('b02-arrflat', C, [('self.__base_pattern.flatten( folded_val[item], free=free,', 'self.__base_pattern.flatten(\n            folded_val[item], free=free if self.free_default is None else self.free_default,')], {'P01', 'P02'}),
    ('b02-member', C, [('pattern.fold(pattern_flat_val, free=free,', 'pattern.fold(pattern_flat_val, free=pattern.free_default if pattern.free_default is not None else free,')], {'P02'}),
    ('b02-names', C, [('pattern_flat_names = pattern.flat_names(free)', 'pattern_flat_names = pattern.flat_names(None)')], {'P02'}),
    # P03
    ('b03-free', N, [('valid, msg = self.validate_folded(folded_val, validate_value) if not valid: raise ValueError(msg) if free: return', 'if not free:\n            valid, msg = self.validate_folded(folded_val, validate_value)\n            if not valid:\n                raise ValueError(msg)\n        if free:\n            return')], {'P03'}),
    ('b03-vv', X, [('valid, msg = self.validate_folded(folded_val, validate_value) if not valid:\n raise ValueError(msg)\n if free:', 'valid, msg = self.validate_folded(folded_val)\n        if not valid:\n            raise ValueError(msg)\n        if free:')], {'P03'}),
    ('b03-dictvv', C, [('folded_val[pattern_name], free=free, validate_value=validate_value)', 'folded_val[pattern_name], free=free)')], {'P03'}),
    ('b03-arrvv', C, [('free=free, validate_value=validate_value) for item in', 'free=free)\n            for item in')], {'P03'}),
    ('b03-warn', P, [('valid, msg = self.validate_folded(folded_val, validate_value) if not valid: raise ValueError(msg) if free:', 'valid, msg = self.validate_folded(folded_val, validate_value)\n        if not valid and validate_value:\n            raise ValueError(msg)\n        if free:')], {'P03'}),
    ('b03-psdfold', P, [('valid, msg = self.validate_folded(folded_val, validate_value)', 'valid, msg = self.validate_folded(folded_val, True)', 1)], {'P03'}),
    ('b03-order', C, [('if not free: valid, msg = self.validate_folded( folded_val, validate_value=validate_value)', 'if not free and validate_value is None:\n            valid, msg = self.validate_folded(\n                folded_val, validate_value=validate_value)')], set()),
    # P04
    ('b04-ndim', N, [('if flat_val.ndim != 1:', 'if flat_val.ndim > 2:')], {'P04'}),
    ('b04-len', X, [('if len(flat_val) != flat_size:', 'if len(flat_val) < flat_size:')], set()),
    ('b04-mode', P, [('if flat_val.size != self.flat_length(free):', 'if flat_val.size != self.flat_length(free=False):')], {'P03', 'P04'}),
    ('b04-ravel', C, [('flat_val = np.atleast_1d(flat_val)', 'flat_val = np.atleast_1d(flat_val).ravel()')], {'P04'}),
    ('b04-arr', C, [('if flat_val.size != self.flat_length(free):', 'if flat_val.size % self.flat_length(free) != 0:')], {'P04'}),
    # P05
    ('b05-le', N, [('if (np.array(folded_val < self._lb)).any():', 'if (np.array(folded_val <= self._lb)).any():')], {'P05'}),
    ('b05-all', N, [('if (np.array(folded_val > self._ub)).any():', 'if (np.array(folded_val > self._ub)).all():')], {'P05'}),
    ('b05-sym', P, [('if not (folded_val.transpose() == folded_val).all():', 'if not (folded_val.transpose() == folded_val).any():')], {'P05'}),
    ('b05-diag', P, [('if np.any(np.diag(folded_val) < self.__diag_lb):', 'if np.any(folded_val < self.__diag_lb):')], {'P05'}),
    ('b05-sum0', X, [('np.sum(folded_val, axis=-1)', 'np.sum(folded_val, axis=0)')], {'P05'}),
    ('b05-abs', X, [('np.abs(simplex_sums - 1)', '(simplex_sums - 1)')], {'P05'}),
    ('b05-order', P, [('if not shape_ok: return shape_ok, err_msg\n\n if validate_value is None:', 'if validate_value is None:')], {'P05'}),
    ('b05-dictmiss', C, [('if not pattern_name in folded_val:', 'if pattern_name not in folded_val and validate_value:')], {'P05'}),
    ('b05-last', C, [('if not valid:\n err_msg = \'{} is not valid.\'.format(err_msg)\n return False, err_msg return True, \'\'', 'if not valid:\n                err_msg = \'{} is not valid.\'.format(err_msg)\n        return valid, err_msg')], {'P05'}),
    ('b05-dflt', N, [('if validate_value is None:\n validate_value = self.default_validate', 'if not validate_value:\n            validate_value = self.default_validate')], {'P05'}),
    ('b05-size', X, [('if folded_val.shape != self.__shape:', 'if folded_val.size != np.prod(self.__shape):')], {'P05'}),
    ('b05-ndim', C, [('if folded_val.shape != self.__shape:', 'if folded_val.shape[:len(self.__array_shape)] != self.__array_shape:')], set()),
    # P06
    ('b06-off', C, [('offset += pattern_flat_length\n # Containers', 'offset += pattern.flat_length(False)\n            # Containers')], {'P06'}),
    ('b06-sorted', C, [('flat_vals = [] for pattern_name, pattern in self.__pattern_dict.items():', 'flat_vals = []\n        for pattern_name, pattern in sorted(self.__pattern_dict.items()):')], {'P06'}),
    ('b06-ravel', C, [('np.ravel_multi_index(item, self.__array_shape)', "np.ravel_multi_index(item, self.__array_shape, order='F')")], {'P06'}),
    ('b06-idxoff', C, [('indices.append(pattern_indices + offset) offset += pattern_flat_length', 'indices.append(pattern_indices + offset)\n                offset += pattern_flat_length')], {'P06'}),
    ('b06-F', N, [('return folded_val.flatten()', "return folded_val.flatten(order='F')")], {'P06'}),
    ('b06-T', P, [('return folded_val.flatten()', 'return folded_val.T.flatten()')], {'P06'}),
    ('b06-blk', C, [('jac = pattern.unfreeing_jacobian( folded_val[pattern_name], sparse=True)', 'jac = pattern.freeing_jacobian(\n                folded_val[pattern_name], sparse=True)')], {'P06', 'P21'}),
    ('b06-names', N, [('for item in itertools.product(*array_ranges):', 'for item in itertools.product(*array_ranges[::-1]):')], {'P06'}),
    ('b06-names2', N, [("','.join([str(i) for i in item])", "','.join([str(i) for i in reversed(item)])")], {'P06'}),
    ('b06-names3', N, [("'[' + ','.join([str(i) for i in item]) + ']'", "'[' + ''.join([str(i) for i in item]) + ']'")], {'P06'}),
    ('b06-names4', C, [('pattern_name + delim + t', 't + delim + pattern_name')], {'P06'}),
    ('b06-empty', C, [('empty_val[pattern_name] = pattern.empty(valid)', 'empty_val[pattern_name] = pattern.empty(True)')], {'P06', 'P22'}),
    # P07
    ('b07-lb', N, [("'lb': self._lb,", "'lb': self._ub,")], {'P07'}),
    ('b07-dv', P, [("'default_validate': self.default_validate,", "")], {'P07'}),
    ('b07-keys', C, [("for pattern_name in json_dict['keys']:", "for pattern_name in json_dict['contents']:")], set()),
    ('b07-sorted', C, [("keys = [ key for key in self.__pattern_dict.keys() ]", "keys = sorted(self.__pattern_dict.keys())")], {'P07'}),
    ('b07-fd', C, [("free_default=json_dict.get('free_default'))\n for", ")\n        for")], {'P07'}),
    ('b07-fd2', C, [("base_pattern=base_pattern, free_default=json_dict.get('free_default'))", "base_pattern=base_pattern,\n            free_default=json_dict.get('free_default') or None)")], {'P07'}),
    ('b07-shape', C, [("array_shape=json_dict['array_shape'],", "array_shape=json_dict['shape'],")], {'P07'}),
    ('b07-eq', B, [('return self.as_dict() == other.as_dict()', 'return self.as_dict().keys() == other.as_dict().keys()')], {'P07'}),
    ('b07-type', B, [('if type(other) != type(self):', 'if not isinstance(other, type(self)):')], set()),
    ('b07-typechk', C, [("if json_dict['pattern'] != cls.json_typename():", "if 'pattern' not in json_dict:")], {'P07'}),
    # P08
    ('b08-noreg', X, [('register_pattern_json(SimplexArrayPattern)', '')], {'P08'}),
    ('b08-allow', C, [('if (not allow_overwrite) and', 'if allow_overwrite and')], {'P08'}),
    ('b08-name', B, [("'.'.join([ cls.__module__, cls.__name__])", "cls.__name__[:7]")], {'P08'}),
    # P09
    ('b09-del', C, [('def __delitem__(self, pattern_name): self._check_lock()', 'def __delitem__(self, pattern_name):')], {'P09'}),
    ('b09-nested', C, [('if isinstance(self.__pattern_dict[pattern_name], PatternDict):\n self.__pattern_dict[pattern_name].lock()', '')], {'P09'}),
    ('b09-order', C, [('self._check_lock() # if pattern_name in self.__pattern_dict.keys():', '# if pattern_name in self.__pattern_dict.keys():'), ('self._free_flat_length = self._update_flat_length(free=True)', 'self._check_lock()\n        self._free_flat_length = self._update_flat_length(free=True)')], {'P09', 'P10'}),
    ('b09-type', C, [('if isinstance(self.__pattern_dict[pattern_name], PatternDict):', 'if type(self.__pattern_dict[pattern_name]) is PatternDict:')], {'P09'}),
    # P10
    ('b10-swap', C, [('self._free_flat_length = self._update_flat_length(free=True) self._flat_length = self._update_flat_length(free=False)', 'self._free_flat_length = self._update_flat_length(free=False)\n        self._flat_length = self._update_flat_length(free=True)')], {'P10'}),
    ('b10-delone', C, [('self.__pattern_dict.pop(pattern_name) self._free_flat_length = self._update_flat_length(free=True) self._flat_length = self._update_flat_length(free=False)', 'self.__pattern_dict.pop(pattern_name)\n        self._flat_length = self._update_flat_length(free=False)')], {'P10'}),
    ('b10-stale', C, [('self.__pattern_dict[pattern_name] = pattern\n', 'self._free_flat_length = self._update_flat_length(free=True)\n        self.__pattern_dict[pattern_name] = pattern\n'), ('self._free_flat_length = self._update_flat_length(free=True)\n        self._flat_length', 'self._flat_length')], {'P10'}),
    # refactorings
    ('r-01a', B, [('if free is not None: return free else: if self.free_default is None: raise', 'resolved = self.free_default if free is None else free\n        if resolved is not None:\n            return resolved\n        else:\n            if True:\n                raise'), ("'must be specified.')) else: return self.free_default", "'must be specified.'))")], set()),
    ('r-02a', C, [('pattern_flat_length = pattern.flat_length(free) pattern_flat_val = flat_val[offset:(offset + pattern_flat_length)] offset += pattern_flat_length', 'end = offset + pattern.flat_length(free)\n            pattern_flat_val = flat_val[offset:end]\n            offset = end')], set()),
    ('r-02b', C, [('flat_vals = [] for pattern_name, pattern in self.__pattern_dict.items(): pattern_flat_length = pattern.flat_length(free)', 'flat_vals = []\n        for pattern_name in self.__pattern_dict:\n            pattern = self.__pattern_dict[pattern_name]')], set()),
    ('r-02c', C, [("contents = {} for pattern_name, pattern in self.__pattern_dict.items(): contents[pattern_name] = pattern.to_json()", "contents = {name: member.to_json() for name, member in self.__pattern_dict.items()}")], set()),
    ('r-02d', C, [("keys = [ key for key in self.__pattern_dict.keys() ]", "keys = list(self.__pattern_dict)")], set()),
    ('r-02e', C, [('empty_val = OrderedDict() for pattern_name, pattern in self.__pattern_dict.items(): empty_val[pattern_name] = pattern.empty(valid) return empty_val', 'return OrderedDict(\n            (name, member.empty(valid)) for name, member in self.__pattern_dict.items())')], set()),
    ('r-02f', C, [("log_abs_det = 0.0 for pattern_name, pattern in self.__pattern_dict.items(): log_abs_det += pattern.log_abs_det_unfreeing_jacobian( folded_val[pattern_name]) return log_abs_det", "return sum(member.log_abs_det_unfreeing_jacobian(folded_val[name])\n                   for name, member in self.__pattern_dict.items())")], set()),
    ('r-02g', C, [('jacobians = [] for pattern_name, pattern in self.__pattern_dict.items(): jac = pattern.freeing_jacobian( folded_val[pattern_name], sparse=True) jacobians.append(jac)', 'jacobians = [member.freeing_jacobian(folded_val[name], sparse=True)\n                     for name, member in self.__pattern_dict.items()]')], set()),
    ('r-02h', C, [("pattern_flat_names = [ pattern_name + delim + t for t in pattern_flat_names] flat_names_list.append(pattern_flat_names) return np.hstack(flat_names_list)", "flat_names_list.extend('{}{}{}'.format(pattern_name, delim, t) for t in pattern_flat_names)\n        return np.array(flat_names_list)")], set()),
    ('r-02i', C, [("pattern_name + delim + t", "f'{pattern_name}{delim}{t}'")], set()),
    ('r-02j', C, [("pattern_name + delim + t", "delim.join([pattern_name, t])")], set()),
    ('r-03a', C, [('if len(indices) > 0: return np.hstack(indices) else: return np.array([], dtype=int)', 'if not indices:\n            return np.array([], dtype=int)\n        return np.hstack(indices)')], set()),
    ('r-03b', N, [("flat_name_list = [] for item in itertools.product(*array_ranges): flat_name_list.append('[' + ','.join([str(i) for i in item]) + ']') return flat_name_list", "return ['[{}]'.format(','.join(map(str, item))) for item in itertools.product(*array_ranges)]")], set()),
    ('r-03c', N, [("array_ranges = [range(0, t) for t in self._shape]", "array_ranges = map(range, self._shape)")], set()),
    ('r-03d', N, [("for item in itertools.product(*array_ranges): flat_name_list", "for item in np.ndindex(*self._shape):\n            flat_name_list")], set()),
    ('r-04a', N, [("if (np.array(folded_val < self._lb)).any():", "if np.any(folded_val < self._lb):")], set()),
    ('r-04b', N, [("if (np.array(folded_val < self._lb)).any():", "if not np.all(folded_val >= self._lb):")], set()),
    ('r-04c', N, [("if (np.array(folded_val < self._lb)).any():", "if np.min(folded_val) < self._lb:")], set()),
    ('r-04d', X, [("if np.any(np.abs(simplex_sums - 1) > 1e-12):", "if np.max(np.abs(1 - simplex_sums)) > 1e-12:")], set()),
    ('r-04e', X, [("if np.any(folded_val < 0):", "if (folded_val < 0).any():")], set()),
    ('r-04f', P, [("if not (folded_val.transpose() == folded_val).all():", "if np.any(folded_val != folded_val.T):")], set()),
    ('r-04g', P, [("if not (folded_val.transpose() == folded_val).all():", "if not np.array_equal(folded_val, folded_val.T):")], set()),
    ('r-04h', P, [("if np.any(np.diag(folded_val) < self.__diag_lb):", "if (np.diagonal(folded_val) < self.__diag_lb).any():")], set()),
    ('r-04i', N, [("valid, msg = self.validate_folded(folded_val, validate_value) if not valid: raise ValueError(msg) if free:", "self._require_valid(folded_val, validate_value)\n        if free:"), ("def shape(self):", "def _require_valid(self, folded_val, validate_value):\n        valid, msg = self.validate_folded(folded_val, validate_value)\n        if not valid:\n            raise ValueError(msg)\n\n    def shape(self):")], set()),
    ('r-04j', C, [("if not pattern_name in folded_val:", "if pattern_name not in folded_val.keys():")], set()),
    ('r-05a', C, [('linear_item = np.ravel_multi_index(item, self.__array_shape) * flat_length return slice(linear_item, linear_item + flat_length)', 'first = flat_length * np.ravel_multi_index(item, self.__array_shape)\n        return slice(first, first + flat_length)')], set()),
    ('r-05b', C, [("for item in itertools.product(*self.__array_ranges): valid, msg", "for item in np.ndindex(*self.__array_shape):\n            valid, msg")], set()),
    ('r-05c', C, [("folded_array = np.array([ self.__base_pattern.fold( flat_val[self._stacked_obs_slice(item, flat_length)], free=free, validate_value=validate_value) for item in itertools.product(*self.__array_ranges)])", "rows = np.reshape(flat_val, (-1, flat_length))\n        folded_array = np.array([\n            self.__base_pattern.fold(row, free=free, validate_value=validate_value) for row in rows])")], set()),
    ('r-06a', C, [('def __setitem__(self, pattern_name, pattern): self._check_lock()', 'def __setitem__(self, pattern_name, pattern):\n        if self.__lock:\n            raise ValueError("The dictionary is locked.")')], set()),
    ('r-06b', C, [("self._free_flat_length = self._update_flat_length(free=True) self._flat_length = self._update_flat_length(free=False)", "self._refresh()"), ("def keys(self):", "def _refresh(self):\n        self._flat_length = self._update_flat_length(False)\n        self._free_flat_length = self._update_flat_length(True)\n\n    def keys(self):")], set()),
    ('r-06c', C, [("return int(np.sum([pattern.flat_length(free) for pattern_name, pattern in self.__pattern_dict.items()]))", "total = 0\n        for member in self.__pattern_dict.values():\n            total += member.flat_length(free)\n        return total")], set()),
    ('r-06d', C, [("return int(np.sum([pattern.flat_length(free) for pattern_name, pattern in self.__pattern_dict.items()]))", "return sum(p.flat_length(free) for p in self.__pattern_dict.values())")], set()),
    ('r-06e', C, [("self.__pattern_dict.pop(pattern_name)", "del self.__pattern_dict[pattern_name]")], set()),
    ('r-07a', B, [("if type(other) != type(self): return False return self.as_dict() == other.as_dict()", "return type(other) is type(self) and self.as_dict() == other.as_dict()")], set()),
    ('r-07b', C, [("if json_dict['pattern'] != cls.json_typename(): error_string = ('{}.from_json must be called on a json_string made ' + 'from a the same pattern type. The json_string ' + 'pattern type was {}.').format( cls.json_typename(), json_dict['pattern']) raise ValueError(error_string)", "cls._validate_json_dict_type(json_dict)")], set()),
    ('r-07c', B, [("del json_dict['pattern'] return cls(**json_dict)", "json_dict.pop('pattern')\n        return cls(**json_dict)")], set()),
    ('r-07d', B, [("del json_dict['pattern'] return cls(**json_dict)", "kwargs = {k: v for k, v in json_dict.items() if k != 'pattern'}\n        return cls(**kwargs)")], set()),
    ('r-08a', C, [("try: json_pattern_name = pattern_json_dict['pattern'] except KeyError as orig_err_string:", "json_pattern_name = pattern_json_dict.get('pattern')\n    if json_pattern_name is None:")], set()),
    ('r-08b', C, [("if not json_pattern_name in __json_patterns.keys():", "if json_pattern_name not in __json_patterns:")], set()),
]
