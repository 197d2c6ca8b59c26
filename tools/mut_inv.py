N, P, S = 'numeric_array_patterns.py', 'psdmatrix_patterns.py', 'simplex_patterns.py'
X, Q = {'P19'}, set()
ARR = '''ratio = np.exp(-1 * np.logaddexp(0, -1 * free_array))
            return np.clip((ub - lb) * ratio + lb, lb, ub)'''
EDITS = [
 # bugs
 ('n-sign', N, [('return ub - np.exp(-1 * free_array)', 'return ub - np.exp(free_array)', 1)], X),
 ('n-lb', N, [('return np.exp(free_array) + lb', 'return np.exp(free_array) - lb', 1)], X),
 ('n-lb0', N, [('return np.exp(free_array) + lb', 'return np.exp(free_array + lb)', 1)], X),
 ('n-ublog', N, [('return -1 * np.log(ub - array)', 'return np.log(ub - array)')], X),
 ('n-two', N, [('np.log(array - lb) - np.log(ub - array)', 'np.log(array - lb) - np.log(ub - array) + np.log(ub - lb)')], X),
 ('n-softplus', N, [('return np.exp(free_array) + lb', 'return np.log1p(np.exp(free_array)) + lb', 1)], X),
 ('n-clip', N, [('np.clip((ub - lb) * ratio + lb, lb, ub)', 'np.clip((ub - lb) * ratio + lb, lb + 1e-6, ub - 1e-6)')], X),
 ('n-clipexp', N, [('return np.exp(free_array) + lb', 'return np.exp(np.clip(free_array, -10, 10)) + lb', 1)], X),
 ('n-clip0', N, [('return np.exp(free_array) + lb', 'return np.maximum(np.exp(free_array) + lb, 0)', 1)], X),
 ('n-where', N, [(ARR, '''return np.where(free_array > 0, lb + (ub - lb) / (1 + np.exp(-free_array)), ub - (ub - lb) / (1 + np.exp(-free_array)))''')], X),
 ('n-int', N, [('folded_val = copy.copy(flat_val).reshape(self._shape)', 'folded_val = np.array(flat_val, dtype=int).reshape(self._shape)')], X),
 ('s-ref', S, [('np.full(free_mat.shape[0:-1], 0)', 'np.full(free_mat.shape[0:-1], 1)')], X),
 ('s-reflast', S, [('[reference_col, free_mat]', '[free_mat, reference_col]')], X),
 ('s-last', S, [('np.log(simplex_array[..., 0]), axis=-1', 'np.log(simplex_array[..., -1]), axis=-1')], X),
 ('s-most', S, [('np.log(simplex_array[..., 1:])', 'np.log(simplex_array[..., :-1])')], X),
 ('s-sum', S, [('np.log(simplex_array[..., 1:]) - np.expand_dims(np.log(simplex_array[..., 0]), axis=-1)', 'np.log(simplex_array[..., 1:]) - np.log(np.sum(simplex_array[..., 1:], axis=-1, keepdims=True))')], X),
 ('s-lse', S, [('+ mat_max', '')], X),
 ('s-axis', S, [('mat_max = np.max(mat, axis=axis, keepdims=True)', 'mat_max = np.max(mat)'), ('np.sum(exp_mat_norm, axis=axis, keepdims=True)', 'np.sum(exp_mat_norm)')], X),
 ('s-axis0', S, [('np.max(mat, axis=axis, keepdims=True)', 'np.max(mat, axis=0, keepdims=True)'), ('np.sum(exp_mat_norm, axis=axis, keepdims=True)', 'np.sum(exp_mat_norm, axis=0, keepdims=True)')], X),
 ('s-norm', S, [('log_norm = logsumexp(free_mat_aug, axis=-1)', 'log_norm = logsumexp(free_mat, axis=-1)')], X),
 ('p-lb1', P, [('mat_lb = mat - np', 'mat_lb = mat + np')], X),
 ('p-lb2', P, [('mat_chol = _exp_matrix_diagonal(_unvectorize_ld_matrix(free_vec))', 'mat_chol = _exp_matrix_diagonal(_unvectorize_ld_matrix(free_vec)) + diag_lb * np.eye(1)')], X),
 ('p-trans', P, [('np.matmul(mat_chol, mat_chol.T)', 'np.matmul(mat_chol.T, mat_chol)')], X),
 ('p-notrans', P, [('np.matmul(mat_chol, mat_chol.T)', 'np.matmul(mat_chol, mat_chol)')], X),
 ('p-dropdiag', P, [('return mat_exp_diag + mat - mat_diag', 'return mat_exp_diag + mat')], X),
 ('p-logdiag', P, [('return mat_log_diag + mat - mat_diag', 'return mat_log_diag + mat + mat_diag')], X),
 ('p-noexp', P, [('np.exp(np.diag(mat))', 'np.diag(mat)'), ('np.log(np.diag(mat))', 'np.diag(mat)')], X),
 ('p-sq', P, [('np.exp(np.diag(mat))', 'np.exp(2 * np.diag(mat))')], X),
 ('p-upper', P, [('_vectorize_ld_matrix( _log_matrix_diagonal(np.linalg.cholesky(mat_lb)))', '_vectorize_ld_matrix(_log_matrix_diagonal(np.linalg.cholesky(mat_lb).T))')], X),
 # refactorings
 ('r-expit', N, [(ARR, '''return np.clip(lb + (ub - lb) / (1 + np.exp(-free_array)), lb, ub)''')], Q),
 ('r-mul', N, [(ARR, '''width = ub - lb
            log_ratio = -np.logaddexp(0, -free_array)
            ratio = np.exp(log_ratio)
            return np.maximum(np.minimum(width * ratio + lb, ub), lb)''')], Q),
 ('r-where', N, [(ARR, '''e = np.exp(-np.abs(free_array))
            ratio = np.exp(-1 * np.logaddexp(0, -1 * free_array))
            scaled = lb + ratio * (ub - lb)
            return np.clip(scaled, lb, ub)''')], Q),
 ('r-neg', N, [('return ub - np.exp(-1 * free_array)', 'return -np.exp(-free_array) + ub', 1)], Q),
 ('r-logratio', N, [('np.log(array - lb) - np.log(ub - array)', '-(np.log(ub - array) - np.log(array - lb))')], Q),
 ('r-ternary', N, [('''return np.exp(free_array) + lb''', '''shifted = np.exp(free_array)
            shifted = shifted + lb
            return shifted''', 1)], Q),
 ('r-simplex-none', S, [('np.expand_dims(np.log(simplex_array[..., 0]), axis=-1)', 'np.log(simplex_array[..., 0])[..., None]')], Q),
 ('r-simplex-slice', S, [('np.expand_dims(np.log(simplex_array[..., 0]), axis=-1)', 'np.log(simplex_array[..., :1])')], Q),
 ('r-simplex-zeros', S, [('np.expand_dims(np.full(free_mat.shape[0:-1], 0), axis=-1)', 'np.zeros(free_mat.shape[:-1] + (1,))')], Q),
 ('r-simplex-zeros2', S, [('np.expand_dims(np.full(free_mat.shape[0:-1], 0), axis=-1)', 'np.zeros_like(free_mat[..., :1])')], Q),
 ('r-simplex-log', S, [('np.log(simplex_array[..., 1:]) - np.expand_dims(np.log(simplex_array[..., 0]), axis=-1)', '(lambda l: l[..., 1:] - l[..., :1])(np.log(simplex_array))')], Q),
 ('r-simplex-softmax', S, [('return np.exp(free_mat_aug - log_norm)', '''free_mat_aug = free_mat_aug - np.max(free_mat_aug, axis=-1, keepdims=True)
    e = np.exp(free_mat_aug)
    return e / np.sum(e, axis=-1, keepdims=True)''')], Q),
 ('r-psd-eye', P, [('np.make_diagonal( np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)', 'diag_lb * np.eye(k)')], Q),
 ('r-psd-diag', P, [('np.matmul(mat_chol, mat_chol.T)', 'mat_chol @ np.transpose(mat_chol)')], Q),
 ('r-psd-dot', P, [('np.matmul(mat_chol, mat_chol.T)', 'np.dot(mat_chol, mat_chol.T)')], Q),
 ('r-psd-swap', P, [('return mat_exp_diag + mat - mat_diag', 'return (mat - mat_diag) + mat_exp_diag')], Q),
 ('r-psd-delta', P, [('return mat_exp_diag + mat - mat_diag', '''return mat + np.make_diagonal(np.exp(np.diag(mat)) - np.diag(mat), offset=0, axis1=-1, axis2=-2)''')], Q),
]
