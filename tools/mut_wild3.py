"""Third batch of edits written from the property statements."""
B, C, N, X, P, F, O, A, S = ('base_patterns.py', 'pattern_containers.py', 'numeric_array_patterns.py', 'simplex_patterns.py',
                          'psdmatrix_patterns.py', 'function_patterns.py', 'optimization_lib.py', 'autograd_supplement_lib.py', 'sparse_preconditioners_lib.py')
Q = set()
EDITS = [
 # P01
 ('z01-sticky', B, [("if free is not None:\n            return free\n        else:", "if free is not None:\n            self._last_free = free\n            return free\n        elif getattr(self, '_last_free', None) is not None:\n            return self._last_free\n        else:")], {'P01', 'P11'}),
 ('z01-falsy', B, [("if self.free_default is None:\n raise", "if not self.free_default and self._free_flat_length != self._flat_length:\n                raise")], {'P01'}),
 ('z01-numlen', N, [("def flat_length(self, free=None):\n free = self._free_with_default(free)\n if free:\n return self._free_flat_length", "def flat_length(self, free=None):\n        free = bool(free if free is not None else self.free_default)\n        if free:\n            return self._free_flat_length")], {'P01'}),
 ('z01-arrlen', C, [("return self._free_flat_length if free else self._flat_length", "return self._free_flat_length if free is True else self._flat_length")], {'P01'}),
 ('z01-psdflat', P, [("if free:\n return _pack_posdef_matrix(folded_val, diag_lb=self.__diag_lb)", "if free or self.free_default:\n            return _pack_posdef_matrix(folded_val, diag_lb=self.__diag_lb)")], {'P01'}),
 # P02
 ('z02-idx', C, [("pattern_indices = pattern.flat_indices(\n folded_bool[pattern_name], free=free)", "pattern_indices = pattern.flat_indices(\n                folded_bool[pattern_name], free=free or pattern.free_default)")], {'P02'}),
 ('z02-arr', C, [("flat_length = self.__base_pattern.flat_length(free)\n folded_array", "flat_length = self.__base_pattern.flat_length(free or None)\n        folded_array")], {'P02'}),
 ('z02-setdef', C, [("self.__base_pattern = base_pattern", "self.__base_pattern = base_pattern\n        if base_pattern.free_default is None:\n            base_pattern.free_default = free_default")], {'P11'}),
 # P03
 ('z03-arrbase', C, [("folded_val[item], free=free, validate_value=validate_value)\n for item in itertools.product(*self.__array_ranges)]))", "folded_val[item], free=free, validate_value=False)\n            for item in itertools.product(*self.__array_ranges)]))")], Q),
 ('z03-dictflat', C, [("folded_val[pattern_name],\n free=free,\n validate_value=validate_value))", "folded_val[pattern_name],\n                    free=free))")], {'P03'}),
 ('z03-simpfree', X, [("if not valid:\n raise ValueError(msg)\n if free:\n return _unconstrain", "if not valid and not free:\n            raise ValueError(msg)\n        if free:\n            return _unconstrain")], {'P03'}),
 ('z03-foldfree', N, [("return constrained_array.reshape(self._shape)", "folded_val = constrained_array.reshape(self._shape)\n            valid, msg = self.validate_folded(folded_val, validate_value)\n            if not valid:\n                raise ValueError(msg)\n            return folded_val")], {'P03'}),
 ('z03-psdfold', P, [("folded_val = np.reshape(\n np.array(flat_val), (self.__size, self.__size))\n valid, msg = self.validate_folded(folded_val, validate_value)", "folded_val = np.reshape(\n                np.array(flat_val), (self.__size, self.__size))\n            folded_val = 0.5 * (folded_val + folded_val.T)\n            valid, msg = self.validate_folded(folded_val, validate_value)")], {'P03', 'P19'}),
 # P04
 ('z04-ravel', X, [("flat_val = np.atleast_1d(flat_val)\n if len(flat_val.shape) != 1:", "flat_val = np.atleast_1d(flat_val)\n        if flat_val.ndim == 2 and flat_val.shape[0] == 1:\n            flat_val = flat_val[0]\n        if len(flat_val.shape) != 1:")], {'P04'}),
 ('z04-broadcast', N, [("if flat_val.size != expected_length:", "if flat_val.size == 1 and not free:\n            flat_val = np.full(expected_length, flat_val[0])\n        if flat_val.size != expected_length:")], {'P04'}),
 ('z04-multiple', C, [("if flat_val.size != self.flat_length(free):\n error_string = \\\n 'Wrong size for parameter.", "if self.flat_length(free) == 0 or flat_val.size % self.flat_length(free) != 0:\n            error_string = \\\n                'Wrong size for parameter.")], {'P04'}),
 ('z04-psdnonfree', P, [("if flat_val.size != self.flat_length(free):\n raise", "if flat_val.size != self.flat_length(free) and free:\n            raise")], {'P04'}),
 ('z04-dictval', C, [("if flat_val.size != flat_length:\n error_string", "if flat_val.size != flat_length and validate_value is not False:\n            error_string")], {'P04'}),
 # P05
 ('z05-asarray', X, [("if folded_val.shape != self.__shape:\n return False, 'The folded", "if np.squeeze(folded_val).shape != tuple(n for n in self.__shape if n != 1):\n            return False, 'The folded")], {'P05'}),
 ('z05-prod', C, [("if folded_val.shape != self.__shape:\n return \\\n False, \\\n 'Wrong shape.", "if np.prod(folded_val.shape) != np.prod(self.__shape):\n            return \\\n                False, \\\n                'Wrong shape.")], {'P05'}),
 ('z05-default', C, [("valid, msg = self.__base_pattern.validate_folded(\n folded_val[item], validate_value=validate_value)", "valid, msg = self.__base_pattern.validate_folded(\n                folded_val[item], validate_value=bool(validate_value))")], {'P05'}),
 ('z05-lastmember', C, [("if not valid:\n err_msg = '{} is not valid.'.format(err_msg)\n return False, err_msg\n return True, ''", "if not valid:\n                err_msg = '{} is not valid.'.format(err_msg)\n        return valid, err_msg if not valid else ''")], {'P05'}),
 ('z05-psdsym', P, [("if not (folded_val.transpose() == folded_val).all():", "if not np.allclose(folded_val[0], folded_val[:, 0]):")], {'P05'}),
 ('z05-simplexabs', X, [("if np.any(np.abs(simplex_sums - 1) > 1e-12):", "if np.abs(np.mean(simplex_sums) - 1) > 1e-12:")], {'P05'}),
 ('z05-firstelem', N, [("if (np.array(folded_val < self._lb)).any():", "if np.min(folded_val, axis=0).sum() < self._lb:")], {'P05'}),
 # P06
 ('z06-ravel', C, [("linear_item = np.ravel_multi_index(item, self.__array_shape) * flat_length", "linear_item = np.ravel_multi_index(item, self.__array_shape, order='F') * flat_length")], {'P06'}),
 ('z06-product', C, [("folded_val[item], free=free, validate_value=validate_value)\n for item in itertools.product(*self.__array_ranges)]))", "folded_val[item[::-1]], free=free, validate_value=validate_value)\n            for item in itertools.product(*self.__array_ranges[::-1])]))")], {'P06'}),
 ('z06-prepend', C, [("jac = pattern.freeing_jacobian(\n folded_val[pattern_name], sparse=True)\n jacobians.append(jac)", "jac = pattern.freeing_jacobian(\n                folded_val[pattern_name], sparse=True)\n            jacobians.insert(0, jac)")], {'P06'}),
 ('z06-names', N, [("flat_name_list.append('[' + ','.join([str(i) for i in item]) + ']')", "flat_name_list.append('[' + ','.join([str(i) for i in item if i is not None]) + ']')")], Q),
 ('z06-names1', N, [("flat_name_list.append('[' + ','.join([str(i) for i in item]) + ']')", "flat_name_list.append('[' + ''.join([str(i) for i in item]) + ']')")], {'P06'}),
 ('z06-delim', C, [("[ pattern_name + delim + t for t in pattern_flat_names]", "[ pattern_name + delim + t if len(pattern_flat_names) > 1 else pattern_name for t in pattern_flat_names]")], {'P06'}),
 ('z06-group', C, [("for pattern_name, pattern in self.__pattern_dict.items():\n pattern_flat_length = pattern.flat_length(free)\n # Containers must not mix free and non-free values, so do not\n # use default values for free.\n # flat_val", "for pattern_name, pattern in sorted(self.__pattern_dict.items(), key=lambda kv: isinstance(kv[1], PatternDict)):\n            pattern_flat_length = pattern.flat_length(free)\n            # Containers must not mix free and non-free values, so do not\n            # use default values for free.\n            # flat_val")], {'P06'}),
 # P07
 ('z07-eqiter', B, [("return self.as_dict() == other.as_dict()", "d, e = self.as_dict(), other.as_dict()\n        return all(d[k] == e[k] for k in d if k != 'default_validate')")], {'P07'}),
 ('z07-eqstr', B, [("return self.as_dict() == other.as_dict()", "return str(self) == str(other)")], {'P07'}),
 ('z07-float', P, [("'diag_lb': self.__diag_lb,", "'diag_lb': float('{:.6g}'.format(self.__diag_lb)),")], {'P07'}),
 ('z07-bool', N, [("'length': self.length(),\n 'lb': self._lb,\n 'ub': self._ub,", "'length': self.length(),\n            'lb': self._lb or -float('inf'),\n            'ub': self._ub,")], {'P07'}),
 ('z07-free', C, [("free_default=json_dict.get('free_default'))\n for pattern_name", "free_default=json_dict.get('free_default') or None)\n        for pattern_name")], {'P07'}),
 ('z07-simdefault', X, [("default_validate=json_dict['default_validate'],", "default_validate=json_dict.get('default_validate', True) and cls is SimplexArrayPattern,")], Q),
 ('z07-subclass', B, [("if type(other) != type(self):\n return False", "if not isinstance(other, type(self)):\n            return False")], Q),
 ('z07-typecheck', B, [("if json_dict['pattern'] != cls.json_typename():", "if json_dict['pattern'].split('.')[-1] != cls.json_typename().split('.')[-1] and cls.__name__ not in json_dict['pattern']:")], {'P07'}),
 ('z07-endswith', B, [("if json_dict['pattern'] != cls.json_typename():", "if not json_dict['pattern'].startswith(cls.json_typename()[:-7]):")], {'P07'}),
 # P08
 ('z08-noregister', N, [("register_pattern_json(NumericVectorPattern)\n", "register_pattern_json(NumericVectorPattern, allow_overwrite=True)\n")], Q),
 ('z08-swap', N, [("register_pattern_json(NumericVectorPattern)\nregister_pattern_json(NumericScalarPattern)\n", "register_pattern_json(NumericVectorPattern)\n")], {'P08'}),
 ('z08-typename', N, [("class NumericScalarPattern(NumericArrayPattern):", "class NumericScalarPattern(NumericArrayPattern):\n    @classmethod\n    def json_typename(cls):\n        return NumericArrayPattern.json_typename()\n")], {'P08', 'P07'}),
 ('z08-none', C, [("if not json_pattern_name in __json_patterns.keys():\n err_string", "if json_pattern_name is not None and not json_pattern_name in __json_patterns.keys():\n        err_string")], {'P08'}),
 ('z08-lastseg', C, [("if (not allow_overwrite) and pattern_name in __json_patterns.keys():", "if (not allow_overwrite) and __json_patterns.get(pattern_name) is pattern:")], {'P08'}),
 # P09
 ('z09-set', C, [("if self.__lock:\n raise", "if self.__lock and len(self.__pattern_dict) > 0:\n            raise")], {'P09'}),
 ('z09-arr', C, [("if isinstance(self.__pattern_dict[pattern_name], PatternDict):\n self.__pattern_dict[pattern_name].lock()", "if type(self.__pattern_dict[pattern_name]) is PatternDict and self.__pattern_dict[pattern_name]._flat_length > 0:\n            self.__pattern_dict[pattern_name].lock()")], {'P09'}),
 ('z09-toggle', C, [("def lock(self):\n self.__lock = True", "def lock(self):\n        self.__lock = not self.__lock")], {'P09'}),
 ('z09-keys', C, [("def keys(self):\n return self.__pattern_dict.keys()", "def keys(self):\n        return self.__pattern_dict")], {'P09'}),
 ('z09-jsonlock', C, [("return pattern_dict\n\n def flat_indices", "pattern_dict._PatternDict__lock = False\n        return pattern_dict\n\n    def flat_indices")], Q),
 ('z09-delafter', C, [("self._check_lock()\n\n pattern = self.__pattern_dict[pattern_name]\n self.__pattern_dict.pop(pattern_name)", "pattern = self.__pattern_dict.pop(pattern_name)\n        self._check_lock()")], {'P09'}),
 # P10
 ('z10-sum', C, [("self._free_flat_length = self._update_flat_length(free=True)\n self._flat_length = self._update_flat_length(free=False)\n\n def __delitem__", "self._free_flat_length = self._update_flat_length(free=True)\n        self._flat_length += pattern.flat_length(free=False)\n\n    def __delitem__")], {'P10'}),
 ('z10-early', C, [("pattern = self.__pattern_dict[pattern_name]\n self.__pattern_dict.pop(pattern_name)\n", "pattern = self.__pattern_dict[pattern_name]\n        self.__pattern_dict.pop(pattern_name)\n        if len(self.__pattern_dict) == 0:\n            return")], {'P10'}),
 ('z10-isinst', C, [("if not isinstance(pattern, Pattern):\n raise ValueError('Members of a PatternDict must be patterns.')", "if not hasattr(pattern, 'flat_length'):\n            raise ValueError('Members of a PatternDict must be patterns.')")], {'??'}),
 ('z10-default', C, [("def __getitem__(self, key):\n return self.__pattern_dict[key]", "def __getitem__(self, key):\n        return self.__pattern_dict.get(key)")], {'P10'}),
 ('z10-reorder', C, [("self.__pattern_dict[pattern_name] = pattern\n", "self.__pattern_dict[pattern_name] = pattern\n        self.__pattern_dict.move_to_end(pattern_name)\n")], {'??'}),
 ('z10-unique', C, [("[pattern.flat_length(free)\n for pattern_name, pattern in\n self.__pattern_dict.items()]", "[pattern.flat_length(free)\n                           for pattern in\n                           set(self.__pattern_dict.values())]")], {'P10'}),
 ('z03-clip', N, [("folded_val = copy.copy(flat_val).reshape(self._shape)", "folded_val = np.clip(flat_val, self._lb, self._ub).reshape(self._shape)")], {'P03', 'P06', 'P19'}),
 ('z03-norm', X, [("folded_val = np.reshape(np.array(flat_val), self.__shape)", "folded_val = np.reshape(np.array(flat_val), self.__shape)\n            folded_val = folded_val / np.sum(folded_val, axis=-1, keepdims=True)")], {'P03', 'P06', 'P19'}),
 ('z03-abs', X, [("folded_val = np.reshape(np.array(flat_val), self.__shape)", "folded_val = np.reshape(np.maximum(flat_val, 0), self.__shape)")], {'P03', 'P06', 'P19'}),
 ('z03-normflat', X, [("return folded_val.flatten()", "return (folded_val / np.sum(folded_val, axis=-1, keepdims=True)).flatten()")], {'P19'}),
 ('z03-flclip', N, [("folded_val = np.atleast_1d(folded_val)\n valid, msg = self.validate_folded(folded_val, validate_value)", "folded_val = np.clip(np.atleast_1d(folded_val), self._lb, self._ub)\n        valid, msg = self.validate_folded(folded_val, validate_value)")], {'P03', 'P19'}),
 ('z03-where', N, [("folded_val = copy.copy(flat_val).reshape(self._shape)", "folded_val = np.where(flat_val < self._lb, self._lb, flat_val).reshape(self._shape)")], {'P03', 'P19'}),
 ('z03-inplace', N, [("folded_val = copy.copy(flat_val).reshape(self._shape)", "folded_val = copy.copy(flat_val).reshape(self._shape)\n            folded_val[folded_val < self._lb] = self._lb")], {'P03', 'P19'}),
 ('z03-psdsymfl', P, [("free = self._free_with_default(free)\n valid, msg = self.validate_folded(folded_val, validate_value)", "free = self._free_with_default(free)\n        folded_val = 0.5 * (folded_val + folded_val.T)\n        valid, msg = self.validate_folded(folded_val, validate_value)")], {'P03', 'P19'}),
 ('z03-psdtriu', P, [("return folded_val.flatten()", "return np.tril(folded_val).flatten()")], {'P19'}),
 ('z03-simpneg', X, [("return folded_val.flatten()", "return np.maximum(folded_val, 0).flatten()")], {'P19'}),
 ('z11-setitem', C, [("self.__pattern_dict[pattern_name] = pattern\n", "if pattern.free_default is None:\n            pattern.free_default = self.free_default\n        self.__pattern_dict[pattern_name] = pattern\n")], {'P11'}),
]
