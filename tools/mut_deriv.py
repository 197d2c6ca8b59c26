A, P = 'autograd_supplement_lib.py', 'psdmatrix_patterns.py'
X = {'P17'}
EDITS = [
 ('inv-order', A, [('-dot(dot(ans, g), ans)', '-dot(dot(ans, ans), g)')], X),
 ('inv-sign', A, [('-dot(dot(ans, g), ans)', 'dot(dot(ans, g), ans)')], X),
 ('inv-ndim', A, [('np.dot if ans.ndim == 2', 'np.dot if ans.ndim <= 3')], X),
 ('inv-T', A, [('-dot(dot(ans, g), ans)', '-dot(dot(ans, T(g)), ans)')], X),
 ('solve-T', A, [('broadcast_matmul(np.linalg.solve(a, g), ans)', 'broadcast_matmul(np.linalg.solve(T(a), g), ans)')], X),
 ('solve-ndim', A, [('if b.ndim == a.ndim', 'if b.ndim == 2')], X),
 ('solve-swap', A, [('if argnum == 0:', 'if argnum == 1:')], X),
 ('slogdet-T', A, [('np.linalg.solve(x.T, g.T)', 'np.linalg.solve(x.T, g)')], X),
 ('slogdet-1', A, [('0, np.trace', '1, np.trace')], X),
 ('polyg', A, [('polygamma(n + 1, x)', 'polygamma(n, x)')], X),
 ('rgamma', A, [('-sp.special.gamma(x)', '-sp.special.gamma(x) ** 2')], X),
 ('gs-jvp', A, [('grouped_sum(v, groups, num_groups=num_groups)', 'grouped_sum(x, groups, num_groups=num_groups)')], X),
 ('gs-jvp2', A, [('grouped_sum(v, groups, num_groups=num_groups)', 'grouped_sum(v, groups)')], X),
 ('gs-vjp', A, [('return v[groups, :]', 'return v[:, groups]')], X),
 ('rep', A, [('lambda ans, x_sub, x, inds: lambda g: replace(0, g, inds),', 'lambda ans, x_sub, x, inds: lambda g: g,')], X),
 ('rep2', A, [('replace(g, np.zeros(len(x)), inds)', 'replace(g, x, inds)')], X),
 ('solver', A, [('get_grad_funs(zt_solve_ad, z_solve_ad)', 'get_grad_funs(z_solve_ad, zt_solve_ad)')], X),
 ('solver2', A, [('lambda g: zt_solve_ad(g)', 'lambda g: z_solve_ad(g)')], X),
 ('ldvjp', P, [('return _vectorize_ld_matrix(g)', 'return _vectorize_ld_matrix(g.T)')], X),
 ('ldind', P, [('k2 + k1 * (k1 + 1) / 2', 'k2 + k1 * (k1 - 1) / 2 + k1')], set()),
 ('ldind2', P, [('k1 * (k1 + 1) / 2', 'k1 * (k1 - 1) / 2')], X),
 ('nojvp', A, [('defjvp(grouped_sum, grouped_sum_jvp)', '')], X),
 # keep
 ('k-inv-solve', A, [('-dot(dot(ans, g), ans)', 'np.negative(dot(ans, dot(g, ans)))')], set()),
 ('k-slog', A, [('np.trace(np.linalg.solve(x.T, g.T))', 'np.trace(np.linalg.solve(x, g))')], set()),
 ('k-psi', A, [('lambda g, ans, x: g * sp.special.psi(x))', 'lambda tangent, value, arg: sp.special.digamma(arg) * tangent)')], set()),
 ('k-rgamma', A, [('g * sp.special.psi(x) / -sp.special.gamma(x)', '-g * ans * sp.special.psi(x)')], set()),
 ('k-rep', A, [('replace(g, np.zeros(len(x)), inds)', 'replace(g, np.zeros_like(x), inds)')], set()),
 ('k-fwd', A, [("x_new = np.full(x.shape, float('nan'))\n    x_new[:] = x", 'x_new = np.array(x, dtype=float)')], set()),
 ('k-gs', A, [("        if x.ndim > 1:\n            result[groups[n], :] += x[n, :]\n        else:\n            result[groups[n]] += x[n]", '        result[groups[n]] += x[n]')], set()),
 ('k-gs2', A, [("    for n in range(n_obs):\n        if x.ndim > 1:\n            result[groups[n], :] += x[n, :]\n        else:\n            result[groups[n]] += x[n]", '    for n, grp in enumerate(groups):\n        result[grp] += x[n]')], set()),
 ('k-gs3', A, [("    for n in range(n_obs):\n        if x.ndim > 1:\n            result[groups[n], :] += x[n, :]\n        else:\n            result[groups[n]] += x[n]", '    np.add.at(result, groups, x)')], set()),
 ('k-unv', P, [("    for k1 in range(mat_size):\n        for k2 in range(k1 + 1):\n            mat[k1, k2] = vec[_sym_index(k1, k2)]", '    mat[np.tril_indices(mat_size)] = vec')], set()),
 ('k-unv2', P, [("    for k1 in range(mat_size):\n        for k2 in range(k1 + 1):\n            mat[k1, k2] = vec[_sym_index(k1, k2)]", '    pos = 0\n    for k1 in range(mat_size):\n        for k2 in range(k1 + 1):\n            mat[k1, k2] = vec[pos]\n            pos += 1')], set()),
 ('k-unv3', P, [("    for k1 in range(mat_size):\n        for k2 in range(k1 + 1):\n            mat[k1, k2] = vec[_sym_index(k1, k2)]", '    for k1 in range(mat_size):\n        start = k1 * (k1 + 1) // 2\n        mat[k1, :k1 + 1] = vec[start:start + k1 + 1]')], set()),
]
MODE = 'all'
