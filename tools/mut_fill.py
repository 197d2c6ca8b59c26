"""In-place fills and one-off serialisation edits."""
F,N,P,C='function_patterns.py','numeric_array_patterns.py','psdmatrix_patterns.py','pattern_containers.py'
B='base_patterns.py'
X='simplex_patterns.py'
EDITS=[('r21-sym', N, [("return (ub - lb) * ratio * (1 - ratio)", "e = np.exp(-1 * np.abs(free_array))\n            return (ub - lb) * e / (1 + e) ** 2")], set()),
('r22-simplex', X, [("return np.full(self.__shape, 1.0 / self.__simplex_size)", "result = np.zeros(self.__shape)\n            result[..., :] = 1.0 / self.__simplex_size\n            return result")], set()),
('r22-simplex2', X, [("return np.full(self.__shape, 1.0 / self.__simplex_size)", "result = np.empty(self.__shape)\n            result.fill(1.0 / self.__simplex_size)\n            return result")], set()),
('r22-simplex3', X, [("return np.full(self.__shape, 1.0 / self.__simplex_size)", "result = np.ones(self.__shape)\n            result /= self.__simplex_size\n            return result")], set()),
('b22-simplex4', X, [("return np.full(self.__shape, 1.0 / self.__simplex_size)", "result = np.zeros(self.__shape)\n            result[..., -1] = 1.0\n            return result")], {'P22'}),
('r22-simplex5', X, [("return np.full(self.__shape, 1.0 / self.__simplex_size)", "result = np.empty(self.__shape)\n            result[:] = 1.0 / self.__simplex_size\n            return result")], set()),
]
EDITS+=[('b22-simplex6', X, [("return np.full(self.__shape, 1.0 / self.__simplex_size)", "result = np.empty(self.__shape)\n            result[..., 1:] = 1.0 / self.__simplex_size\n            return result")], {'P22'}),
('r22-simplex6', X, [("return np.full(self.__shape, 1.0 / self.__simplex_size)", "result = np.empty(self.__shape)\n            result[..., 1:] = 1.0 / self.__simplex_size\n            result[..., 0] = 1.0 / self.__simplex_size\n            return result")], set()),
('b22-simplex7', X, [("return np.full(self.__shape, 1.0 / self.__simplex_size)", "result = np.empty(self.__shape)\n            result[..., 1:] = 1.0 / self.__simplex_size\n            result[..., 0] = 1.0\n            return result")], {'P22'}),
('r22-fill', N, [("return np.full(\n                self._shape, _get_inbounds_value(self._lb, self._ub))","result = np.empty(self._shape)\n            result[...] = _get_inbounds_value(self._lb, self._ub)\n            return result")],set()),
('r22-bool', B, [("bool_vec = np.full(flat_len, value, dtype='bool')", "bool_vec = np.empty(flat_len, dtype='bool')\n        bool_vec[:] = value")], set()),
('r20-simplex', X, [("return np.exp(free_mat_aug - log_norm)","result = np.empty_like(free_mat_aug)\n    result[:] = np.exp(free_mat_aug - log_norm)\n    return result")],{'P18'}),
]
EDITS += [('a', N, [("'shape': self._shape,", "'shape': np.prod(self._shape),")], {'P07'}),
('b', C, [("'array_shape': self.__array_shape,", "'array_shape': sorted(self.__array_shape),")], {'P07'}),
('c', N, [("'shape': self._shape,", "'shape': list(self._shape),")], set()),
('c2', C, [("'array_shape': self.__array_shape,", "'array_shape': [int(n) for n in self.__array_shape],")], set()),
('c3', C, [("'array_shape': self.__array_shape,", "'array_shape': list(self.__array_shape),"),("'shape': self.__shape,","'shape': list(self.__shape),")], set()),
('d', P, [("'diag_lb': self.__diag_lb,", "'diag_lb': float(self.__diag_lb),")], set()),
('e', P, [("'diag_lb': self.__diag_lb,", "'diag_lb': int(self.__diag_lb),")], {'P07'}),
('f', P, [("'size': self.__size,", "'size': int(self.__size),")], set()),
('g', X, [("'simplex_size': self.__simplex_size,", "'simplex_size': int(self.__simplex_size),")], set()),
('g2', X, [("'array_shape': self.__array_shape,", "'array_shape': [int(n) for n in self.__array_shape],")], set()),
('h', N, [("'lb': self._lb,", "'lb': '{:.6g}'.format(self._lb),")], {'P07'}),
('i', N, [("'lb': self._lb,", "'lb': float(self._lb),")], set()),
]
EDITS += [('r-forelse1', C, [("err_msg = '{} is not valid.'.format(err_msg)\n return False, err_msg","break\n        else:\n            return True, ''\n        return False, '{} is not valid.'.format(err_msg)")],set()),
('r-forelse2', C, [("for item in itertools.product(*self.__array_ranges):\n valid, msg = self.__base_pattern.validate_folded(\n folded_val[item], validate_value=validate_value)\n if not valid:\n err_msg = 'Bad value in location {}: {}'.format(item, msg)\n return False, err_msg\n return True, ''",
 "for item in itertools.product(*self.__array_ranges):\n            valid, msg = self.__base_pattern.validate_folded(\n                folded_val[item], validate_value=validate_value)\n            if not valid:\n                break\n        else:\n            return True, ''\n        return False, 'Bad value in location {}: {}'.format(item, msg)")],set()),
('r-flag', C, [("for item in itertools.product(*self.__array_ranges):\n valid, msg = self.__base_pattern.validate_folded(\n folded_val[item], validate_value=validate_value)\n if not valid:\n err_msg = 'Bad value in location {}: {}'.format(item, msg)\n return False, err_msg\n return True, ''",
 "ok, err_msg = True, ''\n        for item in itertools.product(*self.__array_ranges):\n            valid, msg = self.__base_pattern.validate_folded(\n                folded_val[item], validate_value=validate_value)\n            if not valid:\n                ok, err_msg = False, 'Bad value in location {}: {}'.format(item, msg)\n                break\n        return ok, err_msg")],set()),
('b-flag', C, [("for item in itertools.product(*self.__array_ranges):\n valid, msg = self.__base_pattern.validate_folded(\n folded_val[item], validate_value=validate_value)\n if not valid:\n err_msg = 'Bad value in location {}: {}'.format(item, msg)\n return False, err_msg\n return True, ''",
 "ok, err_msg = True, ''\n        for item in itertools.product(*self.__array_ranges):\n            ok, msg = self.__base_pattern.validate_folded(\n                folded_val[item], validate_value=validate_value)\n            if not ok:\n                err_msg = 'Bad value in location {}: {}'.format(item, msg)\n        return ok, err_msg")],{'P05'}),
('r-missing', C, [("for pattern_name, pattern in self.__pattern_dict.items():\n if not pattern_name in folded_val:", "for pattern_name in self.__pattern_dict:\n            if pattern_name not in folded_val:\n                break\n        else:\n            pattern_name = None\n        if pattern_name is not None:\n            return \\\n                False, \\\n                '{} not in folded_val dictionary.'.format(pattern_name)\n        for pattern_name, pattern in self.__pattern_dict.items():\n            if not pattern_name in folded_val:")],set()),
('b-forelse', C, [("err_msg = '{} is not valid.'.format(err_msg)\n return False, err_msg","break\n        else:\n            return True, ''\n        return True, '{} is not valid.'.format(err_msg)")],{'P05'}),
('r-retfor', F, [("for i in self._retnum_sort:\n retnum = self._retnums[i]\n if len(rets) <= retnum:", "for retnum in self._retnums:\n            if len(rets) <= retnum:\n                break\n        else:\n            retnum = None\n        for i in self._retnum_sort:\n            retnum = self._retnums[i]\n            if len(rets) <= retnum:")],set()),
]
