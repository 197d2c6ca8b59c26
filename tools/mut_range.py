N, P, S = 'numeric_array_patterns.py', 'psdmatrix_patterns.py', 'simplex_patterns.py'
X, Q = {'P20'}, set()
ARR = '''ratio = np.exp(-1 * np.logaddexp(0, -1 * free_array))
            return np.clip((ub - lb) * ratio + lb, lb, ub)'''
LSE = '''mat_max = np.max(mat, axis=axis, keepdims=True)
    exp_mat_norm = np.exp(mat - mat_max)
    return np.log(np.sum(exp_mat_norm, axis=axis, keepdims=True)) + mat_max'''
EDITS = [
 ('n-noclip', N, [('np.clip((ub - lb) * ratio + lb, lb, ub)', '(ub - lb) * ratio + lb')], X),
 ('n-overflow', N, [(ARR, '''exp_vec = np.exp(free_array)
            return np.clip((ub - lb) * exp_vec / (1 + exp_vec) + lb, lb, ub)''')], X),
 ('n-overflow2', N, [(ARR, '''exp_vec = np.exp(free_array)
            ratio = exp_vec / (1 + exp_vec)
            return np.clip(ratio * (ub - lb) + lb, lb, ub)''')], X),
 ('n-clipone', N, [('np.clip((ub - lb) * ratio + lb, lb, ub)', 'np.maximum((ub - lb) * ratio + lb, lb)')], X),
 ('n-sign', N, [('return ub - np.exp(-1 * free_array)', 'return ub + np.exp(-1 * free_array)', 1)], X),
 ('n-sign2', N, [('return np.exp(free_array) + lb', 'return np.exp(free_array) - lb', 1)], X),
 ('n-abs', N, [('return np.exp(free_array) + lb', 'return free_array + lb', 1)], X),
 ('n-nolb', N, [('np.clip((ub - lb) * ratio + lb, lb, ub)', 'np.clip(ub * ratio + lb, lb, 2 * ub)')], X),
 ('n-where', N, [(ARR, '''exp_vec = np.exp(free_array)
            return np.where(free_array > 0, ub - (ub - lb) / (1 + exp_vec), lb + (ub - lb) * exp_vec / (1 + exp_vec))''')], Q),
 ('s-nomax', S, [(LSE, 'return np.log(np.sum(np.exp(mat), axis=axis, keepdims=True))')], X),
 ('s-min', S, [('np.max(mat, axis', 'np.min(mat, axis')], X),
 ('s-mean', S, [('np.max(mat, axis', 'np.mean(mat, axis')], X),
 ('s-expdiv', S, [('''log_norm = logsumexp(free_mat_aug, axis=-1)
    return np.exp(free_mat_aug - log_norm)''', '''e = np.exp(free_mat_aug)
    return e / np.sum(e, axis=-1, keepdims=True)''')], X),
 ('s-sum', S, [('log_norm = logsumexp(free_mat_aug, axis=-1)', 'log_norm = logsumexp(free_mat, axis=-1)')], X),
 ('s-abs', S, [('np.exp(mat - mat_max)', 'np.exp(mat + mat_max)')], X),
 ('p-sub', P, [('return mat + np.make_diagonal(', 'return mat - np.make_diagonal(')], X),
 ('p-nolb', P, [('return mat + np.make_diagonal(', 'return mat + 0 * np.make_diagonal(')], X),
 ('p-sym', P, [('np.matmul(mat_chol, mat_chol.T)', 'np.matmul(mat_chol, mat_chol)')], X),
 ('p-plus', P, [('np.matmul(mat_chol, mat_chol.T)', 'mat_chol + mat_chol.T')], X),
 # refactorings
 ('r-expit', N, [(ARR, '''return np.clip(lb + (ub - lb) / (1 + np.exp(-free_array)), lb, ub)''')], Q),
 ('r-osp', N, [('import scipy as osp', 'import scipy as osp\nimport autograd.scipy.special as sp_special'), (ARR, '''return np.clip(lb + (ub - lb) * sp_special.expit(free_array), lb, ub)''')], Q),
 ('r-maxmin', N, [('np.clip((ub - lb) * ratio + lb, lb, ub)', 'np.minimum(np.maximum((ub - lb) * ratio + lb, lb), ub)')], Q),
 ('r-minmax', N, [('np.clip((ub - lb) * ratio + lb, lb, ub)', 'np.maximum(lb, np.minimum(ub, lb + ratio * (ub - lb)))')], Q),
 ('r-tanh', N, [(ARR, '''return np.clip(lb + (ub - lb) * 0.5 * (1 + np.tanh(0.5 * free_array)), lb, ub)''')], Q),
 ('r-softmax', S, [('''log_norm = logsumexp(free_mat_aug, axis=-1)
    return np.exp(free_mat_aug - log_norm)''', '''e = np.exp(free_mat_aug - np.max(free_mat_aug, axis=-1, keepdims=True))
    return e / np.sum(e, axis=-1, keepdims=True)''')], Q),
 ('r-splse', S, [('log_norm = logsumexp(free_mat_aug, axis=-1)', 'log_norm = sp.special.logsumexp(free_mat_aug, axis=-1, keepdims=True)')], Q),
 ('r-lse2', S, [(LSE, '''top = mat.max(axis=axis, keepdims=True)
    total = np.exp(mat - top).sum(axis=axis, keepdims=True)
    return top + np.log(total)''')], Q),
 ('r-lse3', S, [('return np.exp(free_mat_aug - log_norm)', '''log_p = free_mat_aug - log_norm
    return np.exp(log_p)''')], Q),
 ('r-psd', P, [('return mat + np.make_diagonal( np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)', 'return mat + diag_lb * np.eye(k)')], Q),
 ('r-psd2', P, [('''k = mat.shape[0]
    return mat + np.make_diagonal( np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)''', 'return mat + np.make_diagonal(diag_lb * np.ones(mat_chol.shape[0]), offset=0, axis1=-1, axis2=-2)')], Q),
]
