N, P, S, B, C = 'numeric_array_patterns.py', 'psdmatrix_patterns.py', 'simplex_patterns.py', 'base_patterns.py', 'pattern_containers.py'
E, I, F, R, Q = {'P22'}, {'P23'}, {'P24'}, {'P25'}, set()
SIMP = '''indices = []
            offset = 0
            free_simplex_length = self.__simplex_size - 1
            array_ranges = (range(n) for n in self.__array_shape)
            for ind in itertools.product(*array_ranges):
                if np.any(folded_bool[ind]):
                    free_inds = np.arange(
                        offset * free_simplex_length,
                        (offset + 1) * free_simplex_length,
                        dtype=int)
                    indices.append(free_inds)
                offset += 1'''
EDITS = [
 # P22
 ('e-mid', N, [('return 0.5 * (ub - lb) + lb', 'return 0.5 * (ub - lb)')], E),
 ('e-mid2', N, [('return 0.5 * (ub - lb) + lb', 'return 1.5 * (ub - lb) + lb')], E),
 ('e-lb', N, [('return lb + 1.0', 'return lb')], E),
 ('e-lb0', N, [('return lb + 1.0', 'return 1.0')], E),
 ('e-ub', N, [('return ub - 1.0', 'return ub + 1.0')], E),
 ('e-swap', N, [("if lb > -float('inf'):", "if lb == -float('inf'):")], E),
 ('e-empty', N, [('''if valid:
            return np.full( self._shape,''', '''if valid is None:
            return np.full(self._shape,''')], E),
 ('e-shape', N, [('return np.empty(self._shape)', 'return np.empty(self._flat_length)')], E),
 ('e-simp', S, [('1.0 / self.__simplex_size', '1.0 / (self.__simplex_size - 1)')], E),
 ('e-simp2', S, [('np.full(self.__shape, 1.0', 'np.full(self.__free_shape, 1.0')], E),
 ('e-psd', P, [('np.eye(self.__size) * (self.__diag_lb + 1)', 'np.eye(self.__size) * self.__diag_lb')], E),
 ('e-psd2', P, [('np.eye(self.__size) * (self.__diag_lb + 1)', 'np.eye(self.__size)')], E),
 ('e-psd3', P, [('np.empty((self.__size, self.__size))', 'np.empty((self.__size, ))')], E),
 ('e-bool', B, [("np.full(flat_len, value, dtype='bool')", "np.full(flat_len, True, dtype='bool')")], E),
 ('e-boolf', B, [("np.full(flat_len, value, dtype='bool')", "np.full(flat_len, value, dtype=float)")], E),
 ('e-bool2', B, [("return self.fold(bool_vec, free=False, validate_value=False)", "return self.fold(bool_vec, free=False)")], E),
 ('e-rand', B, [("np.random.random(self._free_flat_length), free=True", "np.random.random(self._flat_length), free=True")], E),
 ('e-rand2', B, [("np.random.random(self._free_flat_length), free=True", "np.random.random(self._flat_length), free=False")], E),
 ('e-rand3', B, [("np.random.random(self._free_flat_length), free=True", "np.random.random(self._free_flat_length)")], E | {'P01'}),
 # quiet
 ('q-mid', N, [('return 0.5 * (ub - lb) + lb', 'return 0.5 * (ub + lb)')], Q),
 ('q-mid2', N, [('return 0.5 * (ub - lb) + lb', 'width = ub - lb\n        return lb + width / 2')], Q),
 ('q-mid3', N, [('return 0.5 * (ub - lb) + lb', 'return lb + 0.25 * (ub - lb)')], Q),
 ('q-lb', N, [('return lb + 1.0', 'return 2 + lb')], Q),
 ('q-simp', S, [('np.full(self.__shape, 1.0 / self.__simplex_size)', 'np.ones(self.__shape) / self.__simplex_size')], Q),
 ('q-psd', P, [('np.eye(self.__size) * (self.__diag_lb + 1)', 'np.diag(np.full(self.__size, self.__diag_lb + 1.0))')], Q),
 ('q-psd2', P, [('np.empty((self.__size, self.__size))', 'np.empty(self.shape())')], Q),
 ('q-bool', B, [("np.full(flat_len, value, dtype='bool')", "np.full(self._flat_length, bool(value))")], Q),
 ('q-rand', B, [("np.random.random(self._free_flat_length)", "np.random.normal(size=self.flat_length(free=True))")], Q),
 ('q-rand2', B, [("return self.fold(np.random.random(self._free_flat_length), free=True)", "free_val = np.random.uniform(-1, 1, self._free_flat_length)\n        return self.fold(free_val, free=True, validate_value=False)")], Q),
 # P23
 ('i-not', N, [('return self.__nonfree_folded_indices[folded_bool]', 'return self.__nonfree_folded_indices[~folded_bool]')], I),
 ('i-shift', N, [('self.__nonfree_folded_indices[folded_bool]', '1 + self.__nonfree_folded_indices[folded_bool]')], I),
 ('i-float', N, [('return np.array([], dtype=int)', 'return np.array([])')], I),
 ('i-T', P, [('return folded_indices[folded_bool]', 'return folded_indices.T[folded_bool]')], I),
 ('i-sz', P, [('return np.arange(self.flat_length(True), dtype=int)', 'return np.arange(self.flat_length(False), dtype=int)')], I),
 ('i-psdfree', P, [('''if np.any(folded_bool):
                return np.arange(''', '''if np.all(folded_bool):
                return np.arange(''')], I),
 ('i-simp', S, [('if np.any(folded_bool[ind]):', 'if np.all(folded_bool[ind]):')], I),
 ('i-simp2', S, [('''indices.append(free_inds)
                offset += 1''', '''indices.append(free_inds)
                    offset += 1''')], I),
 ('i-simp3', S, [('free_simplex_length = self.__simplex_size - 1', 'free_simplex_length = self.__simplex_size')], I),
 ('i-simp4', S, [('offset * free_simplex_length,', 'offset * free_simplex_length + 1,')], I),
 ('i-dict', C, [('return np.array([], dtype=int)', 'return np.array([])')], I),
 ('i-len', P, [('int(size * (size + 1) / 2)', 'int(size * (size - 1) / 2)')], I),
 ('i-len2', S, [('super().__init__(np.prod(self.__shape), np.prod(self.__free_shape)', 'super().__init__(np.prod(self.__shape), np.prod(self.__shape)')], I),
 ('qi-nz', P, [('''folded_indices = self.fold(
                np.arange(self.flat_length(False), dtype=int),
                validate_value=False, free=False)
            return folded_indices[folded_bool]''', 'return np.flatnonzero(folded_bool)')], Q),
 ('qi-nz2', P, [('''folded_indices = self.fold(
                np.arange(self.flat_length(False), dtype=int),
                validate_value=False, free=False)
            return folded_indices[folded_bool]''', 'return np.where(folded_bool.flatten())[0]')], Q),
 ('qi-ar', P, [('''folded_indices = self.fold(
                np.arange(self.flat_length(False), dtype=int),
                validate_value=False, free=False)
            return folded_indices[folded_bool]''', 'return np.arange(self.__size ** 2)[np.ravel(folded_bool)]')], Q),
 ('qi-simp', S, [(SIMP, '''free_simplex_length = self.__simplex_size - 1
            array_ranges = [range(n) for n in self.__array_shape]
            indices = []
            for offset, ind in enumerate(itertools.product(*array_ranges)):
                if not np.any(folded_bool[ind]):
                    continue
                start = offset * free_simplex_length
                indices.append(np.arange(start, start + free_simplex_length, dtype=int))''')], Q),
 ('qi-simp2', S, [(SIMP, '''k = self.__simplex_size - 1
            indices = [np.arange(i * k, (i + 1) * k) for i, ind in enumerate(itertools.product(*(range(n) for n in self.__array_shape))) if np.any(folded_bool[ind])]''')], Q),
 ('qi-len', P, [('int(size * (size + 1) / 2)', 'self.__size * (self.__size + 1) // 2')], Q),
 ('qi-len2', S, [('np.prod(self.__shape), np.prod(self.__free_shape)', 'int(np.prod(self.__array_shape) * self.__simplex_size), int(np.prod(self.__free_shape))')], Q),
 # P24
 ('f-mode', C, [('flat_val = pattern.flatten(folded_val, free=False)', 'flat_val = pattern.flatten(folded_val, free=True)')], F),
 ('f-mode2', C, [("pattern.fold(data['flat_val'], free=False)", "pattern.fold(data['flat_val'], free=True)")], F),
 ('f-mode3', C, [("pattern.fold(data['flat_val'], free=False)", "pattern.fold(data['flat_val'])")], F),
 ('f-key', C, [("np.savez(file, flat_val=flat_val", "np.savez(file, flat=flat_val")], F),
 ('f-extra', C, [("pattern_json=pattern_json, **argk)", "pattern_json=pattern_json)")], F),
 ('f-val', C, [('flat_val = pattern.flatten(folded_val, free=False)', 'flat_val = pattern.flatten(folded_val, free=False, validate_value=False)')], F),
 ('f-ret', C, [('return folded_val, pattern, data', 'return folded_val, pattern')], F),
 ('f-val2', C, [("fold(data['flat_val'], free=False)", "fold(data['flat_val'], free=False, validate_value=True)")], F),
 ('qf-1', C, [('''flat_val = pattern.flatten(folded_val, free=False)
    pattern_json = pattern.to_json()
    np.savez(file, flat_val=flat_val, pattern_json=pattern_json, **argk)''', '''contents = dict(argk, flat_val=pattern.flatten(folded_val, free=False), pattern_json=pattern.to_json())
    np.savez(file, **contents)''')], Q),
 ('qf-2', C, [("fold(data['flat_val'], free=False)", "fold(data['flat_val'], free=False, validate_value=False)")], Q),
 ('qf-3', C, [("str(data['pattern_json'])", "data['pattern_json'].item()")], Q),
 ('qf-4', C, [('np.savez(', 'np.savez_compressed(')], Q),
 # P25
 ('r-lb', N, [('if lb >= ub:', 'if lb > ub:')], R),
 ('r-lb2', N, [('if lb >= ub:', 'if lb >= ub and self._shape:')], R),
 ('r-none', N, [('''if lb >= ub:
            raise ValueError(
                'Upper bound ub must strictly exceed lower bound lb')''', '')], R),
 ('r-fin', N, [('if lb >= ub:', "if lb >= ub or ub - lb < 1e-3:")], R),
 ('r-psd', P, [('if diag_lb < 0:', 'if diag_lb <= 0:')], R),
 ('r-psd2', P, [('if diag_lb < 0:', 'if diag_lb < -1e-8:')], R),
 ('r-simp', S, [('if self.__simplex_size <= 1:', 'if self.__simplex_size < 1:')], R),
 ('r-simp2', S, [('if self.__simplex_size <= 1:', 'if self.__simplex_size <= 2:')], R),
 ('qr-1', N, [('if lb >= ub:', 'if not lb < ub:')], Q),
 ('qr-2', P, [('if diag_lb < 0:', 'if 0 > self.__diag_lb:')], Q),
 ('qr-3', S, [('if self.__simplex_size <= 1:', 'if not (self.__simplex_size >= 2):')], Q),
]
