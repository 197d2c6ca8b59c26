B, N, P, S, C = 'base_patterns.py', 'numeric_array_patterns.py', 'psdmatrix_patterns.py', 'simplex_patterns.py', 'pattern_containers.py'
X, Q = {'P21'}, set()
EDITS = [
 ('lb', N, [('return 1.0 / (array - lb)', 'return 1.0 / (lb - array)')], X),
 ('ub', N, [('return 1.0 / (ub - array)', 'return 1.0 / (array - ub)')], X),
 ('two', N, [('return 1 / (array - lb) + 1 / (ub - array)', 'return 1 / (array - lb) - 1 / (ub - array)')], X),
 ('two2', N, [('return 1 / (array - lb) + 1 / (ub - array)', 'return 1 / ((array - lb) * (ub - array))')], X),
 ('cexp', N, [('return np.exp(-1 * free_array)', 'return -np.exp(-1 * free_array)')], X),
 ('cexp2', N, [('return np.exp(-1 * free_array)', 'return np.exp(free_array)')], X),
 ('ratio', N, [('(ub - lb) * ratio * (1 - ratio)', 'ratio * (1 - ratio)')], X),
 ('noinv', N, [('_constrain_array_jacobian( _unconstrain_array(folded_val, self._lb, self._ub), self._lb, self._ub)', '_constrain_array_jacobian(folded_val, self._lb, self._ub)')], X),
 ('noinv-ld', N, [('_constrain_array_jacobian( _unconstrain_array(folded_val, self._lb, self._ub), self._lb, self._ub)', '_constrain_array_jacobian(folded_val, self._lb, self._ub)', 1)], X),
 ('ld-noabs', N, [('np.sum(np.log(np.abs(jac_array)))', 'np.log(np.abs(np.sum(jac_array)))')], X),
 ('ld-sign', N, [('np.sum(np.log(np.abs(jac_array)))', '-np.sum(np.log(np.abs(jac_array)))')], X),
 ('sparse-not', N, [('if sparse:', 'if not sparse:')], X),
 ('sparse-not2', S, [('if sparse:', 'if not sparse:', 1)], X),
 ('matrix', S, [('np.array(sp_jac.todense())', 'sp_jac.todense()')], X),
 ('matrix-c', C, [('np.array(sp_jac.todense())', 'sp_jac.todense()')], X),
 ('objarr', S, [('np.array(sp_jac.todense())', 'np.array(sp_jac)')], X),
 ('s-ref', S, [('-1 / simplex_vec[0]', '1 / simplex_vec[0]')], X),
 ('s-reflast', S, [('-1 / simplex_vec[0]', '-1 / simplex_vec[-1]')], X),
 ('s-diag', S, [('np.diag(1 / simplex_vec[1: ])', 'np.diag(1 / simplex_vec[:-1])')], X),
 ('s-diag2', S, [('np.diag(1 / simplex_vec[1: ])', 'np.diag(simplex_vec[1:])')], X),
 ('s-order', S, [('np.full(len(simplex_vec) - 1, -1 / simplex_vec[0])[:, None],', ''), ('np.diag(1 / simplex_vec[1: ])', 'np.diag(1 / simplex_vec[1:]), np.full(len(simplex_vec) - 1, -1 / simplex_vec[0])[:, None]')], X),
 ('s-col', S, [('return jac[:, 1:]', 'return jac[:, :-1]')], X),
 ('s-row', S, [('return jac[:, 1:]', 'return jac[1:, :]')], X),
 ('s-sign', S, [('-1 * np.outer(simplex_vec, simplex_vec) + np.diag(simplex_vec)', 'np.outer(simplex_vec, simplex_vec) - np.diag(simplex_vec)')], X),
 ('s-swap', S, [('jac = _unconstrain_simplex_jacobian(', 'jac = _constrain_simplex_jacobian(')], X),
 ('p-dir', B, [('jac = self._freeing_jacobian(flat_val)', 'jac = self._unfreeing_jacobian(flat_val)')], X),
 ('p-at', B, [('freeflat_val = self.flatten(folded_val, free=True)', 'freeflat_val = self.flatten(folded_val, free=False)')], X),
 ('p-tr', B, [('return self.flatten(self.fold(flat_val, free=False), free=True)', 'return self.flatten(self.fold(flat_val, free=False), free=False)')], X),
 ('p-type', B, [('return coo_matrix(jac)', 'return jac')], X),
 ('c-sparse', C, [('jac = pattern.freeing_jacobian( folded_val[pattern_name], sparse=True)', 'jac = pattern.freeing_jacobian(folded_val[pattern_name], sparse=sparse)')], Q),
 # refactorings
 ('r-diag', S, [('-1 * np.outer(simplex_vec, simplex_vec) + np.diag(simplex_vec)', 'np.diag(simplex_vec) - np.outer(simplex_vec, simplex_vec)')], Q),
 ('r-neg', S, [('-1 * np.outer(simplex_vec, simplex_vec) + np.diag(simplex_vec)', '-(simplex_vec[:, None] * simplex_vec[None, :]) + np.diag(simplex_vec)')], Q),
 ('r-early', S, [('-1 * np.outer(simplex_vec, simplex_vec) + np.diag(simplex_vec)', 'np.diag(simplex_vec)[:, 1:] - np.outer(simplex_vec, simplex_vec[1:])'), ('return jac[:, 1:]', 'return jac')], Q),
 ('r-eye', S, [('-1 * np.outer(simplex_vec, simplex_vec) + np.diag(simplex_vec)', 'simplex_vec[:, None] * (np.eye(len(simplex_vec)) - simplex_vec[None, :])')], Q),
 ('r-conc', S, [('np.hstack( [ np.full(len(simplex_vec) - 1, -1 / simplex_vec[0])[:, None], np.diag(1 / simplex_vec[1: ]) ])', 'np.concatenate([np.full((len(simplex_vec) - 1, 1), -1 / simplex_vec[0]), np.diag(1 / simplex_vec[1:])], axis=1)')], Q),
 ('r-mul', S, [('np.full(len(simplex_vec) - 1, -1 / simplex_vec[0])', '(-np.ones(simplex_vec.size - 1) / simplex_vec[0])')], Q),
 ('r-toarray', S, [('np.array(sp_jac.todense())', 'sp_jac.toarray()')], Q),
 ('r-coo', N, [('return osp.sparse.diags(jac_array)', 'return osp.sparse.diags(jac_array, 0, format="coo")')], Q),
 ('r-one', N, [('return 1 / (array - lb) + 1 / (ub - array)', 'return (ub - lb) / ((array - lb) * (ub - array))')], Q),
 ('r-direct', N, [('_constrain_array_jacobian( _unconstrain_array(folded_val, self._lb, self._ub), self._lb, self._ub)', '1.0 / _unconstrain_array_jacobian(folded_val, self._lb, self._ub)')], Q),
 ('r-ldneg', N, [('jac_array = _unconstrain_array_jacobian(folded_val, self._lb, self._ub) return np.sum(np.log(np.abs(jac_array)))', 'j = _constrain_array_jacobian(_unconstrain_array(folded_val, self._lb, self._ub), self._lb, self._ub)\n        return -np.sum(np.log(np.abs(j)))')], Q),
 ('r-comp', S, [("jacobians = [] for item in itertools.product(*array_ranges): jac = _unconstrain_simplex_jacobian(folded_val[item][:]) jacobians.append(jac)", "jacobians = [_unconstrain_simplex_jacobian(folded_val[item]) for item in itertools.product(*array_ranges)]")], Q),
 ('r-resh', S, [("jacobians = [] for item in itertools.product(*array_ranges): jac = _unconstrain_simplex_jacobian(folded_val[item][:]) jacobians.append(jac)", "jacobians = [_unconstrain_simplex_jacobian(row) for row in np.reshape(folded_val, (-1, self.__simplex_size))]")], Q),
]
