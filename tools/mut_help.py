A = 'autograd_supplement_lib.py'
X, Q = {'P27'}, set()
Y = {'P17', 'P27'}
LOOP = '    for n in range(n_obs):\n        if x.ndim > 1:\n            result[groups[n], :] += x[n, :]\n        else:\n            result[groups[n]] += x[n]\n    return result'
EDITS = [
 ('gs-set', A, [('result[groups[n], :] += x[n, :]', 'result[groups[n], :] = x[n, :]')], Y),
 ('gs-set1', A, [('result[groups[n]] += x[n]', 'result[groups[n]] = x[n]')], Y),
 ('gs-minus', A, [('result[groups[n]] += x[n]', 'result[groups[n]] -= x[n]')], X),
 ('gs-short', A, [('for n in range(n_obs):\n        if x.ndim > 1', 'for n in range(1, n_obs):\n        if x.ndim > 1')], Y),
 ('gs-ones', A, [('result = np.zeros((num_groups, ) + x.shape[1:])', 'result = np.ones((num_groups, ) + x.shape[1:])')], Y),
 ('gs-shape', A, [('result = np.zeros((num_groups, ) + x.shape[1:])', 'result = np.zeros((num_groups + 1, ) + x.shape[1:])')], X),
 ('gs-max', A, [('num_groups = max_group + 1', 'num_groups = max_group')], X),
 ('gs-len', A, [('num_groups = max_group + 1', 'num_groups = len(np.unique(groups))')], X),
 ('gs-ge', A, [('if max_group >= num_groups', 'if max_group > num_groups')], X),
 ('gs-lt', A, [('if max_group >= num_groups', 'if max_group + 1 >= num_groups')], X),
 ('gs-swap', A, [('x.shape[0] != n_obs', 'x.shape[0] < n_obs')], X),
 ('gs-ndim', A, [('if (groups.ndim > 1)', 'if (groups.ndim > 2)')], X),
 ('gs-exc', A, [("raise ValueError('groups must be a vector.')", "raise TypeError('groups must be a vector.')")], X),
 ('gs-dtype', A, [('result = np.zeros((num_groups, ) + x.shape[1:])', 'result = np.zeros((num_groups, ) + x.shape[1:], dtype=int)')], X),
 ('gs-x', A, [('result[groups[n], :] += x[n, :]', 'result[n, :] += x[groups[n], :]')], Y),
 ('gs-mean', A, [(LOOP, '    for g in range(num_groups):\n        result[g] = np.mean(x[groups == g], axis=0)\n    return result')], X),
 ('gs-axis', A, [(LOOP, '    for g in range(num_groups):\n        result[g] = np.sum(x[groups == g])\n    return result')], X),
 ('gs-fancy', A, [(LOOP, '    result[groups] += x\n    return result')], X),
 ('rp-dtype', A, [("x_new = np.full(x.shape, float('nan'))", 'x_new = np.zeros_like(x)')], X),
 ('rp-alias', A, [("x_new = np.full(x.shape, float('nan'))\n    x_new[:] = x", 'x_new = x')], {'P11', 'P27'}),
 ('rp-len', A, [("np.full(x.shape, float('nan'))", "np.full(len(x), float('nan'))")], X),
 ('rp-order', A, [('x_new[:] = x\n    x_new[inds] = x_sub', 'x_new[inds] = x_sub\n    x_new[:] = x')], Y),
 ('rp-add', A, [('x_new[inds] = x_sub', 'x_new[inds] += x_sub')], Y),
 ('sp-t', A, [('return z_mat @ check_b(b)', 'return z_mat.T @ check_b(b)')], Y),
 ('sp-t2', A, [('return z_mat.T @ check_b(b)', 'return z_mat @ check_b(b)')], Y),
 ('sp-b', A, [('if (b.ndim > 2)', 'if (b.ndim > 1)')], X),
 ('sp-b2', A, [('if (b.ndim > 2)', 'if (b.ndim > 3)')], X),
 ('sp-z', A, [('if z_mat.ndim != 2', 'if z_mat.ndim > 2')], X),
 ('sp-order', A, [('return z_mult, zt_mult', 'return zt_mult, z_mult')], Y),
 ('sv-t', A, [('return zt_solve(b)', 'return z_solve(b)')], Y),
 ('sv-sign', A, [('return z_solve(b)', 'return -z_solve(b)')], Y),
 ('sv-order', A, [('return z_solve_ad, zt_solve_ad', 'return zt_solve_ad, z_solve_ad')], Y),
 # refactorings
 ('r-gs-addat', A, [(LOOP, '    np.add.at(result, groups, x)\n    return result')], Q),
 ('r-gs-zip', A, [(LOOP, '    for g, row in zip(groups, x):\n        result[g] += row\n    return result')], Q),
 ('r-gs-mask', A, [(LOOP, '    for g in range(num_groups):\n        result[g] = np.sum(x[groups == g], axis=0)\n    return result')], Q),
 ('r-gs-helper', A, [(LOOP, '    def add(into):\n        for n in range(n_obs):\n            into[groups[n]] += x[n]\n    add(result)\n    return result')], Q),
 ('r-gs-while', A, [(LOOP, '    n = 0\n    while n < n_obs:\n        result[groups[n]] += x[n]\n        n += 1\n    return result')], Q),
 ('r-gs-onehot', A, [(LOOP, '    return (np.arange(num_groups)[:, None] == groups[None, :]).astype(float) @ x')], Q),
 ('r-gs-check', A, [("    max_group = np.max(groups)\n    if num_groups is None:\n        num_groups = max_group + 1\n    else:\n        if max_group >= num_groups:", "    largest = groups.max()\n    num_groups = largest + 1 if num_groups is None else num_groups\n    if True:\n        if not num_groups > largest:")], Q),
 ('r-rp', A, [("x_new = np.full(x.shape, float('nan'))\n    x_new[:] = x", 'x_new = np.array(x, dtype=float)')], Q),
 ('r-rp2', A, [("x_new = np.full(x.shape, float('nan'))\n    x_new[:] = x", 'x_new = x.astype(float)')], Q),
 ('r-rp3', A, [("x_new = np.full(x.shape, float('nan'))\n    x_new[:] = x", 'x_new = np.empty(x.shape)\n    x_new[...] = x')], Q),
 ('r-sp', A, [('return z_mat @ check_b(b)', 'v = check_b(b)\n        return z_mat.dot(v)')], Q),
 ('r-sp2', A, [("    if z_mat.ndim != 2:", "    if len(z_mat.shape) != 2:")], Q),
 ('r-sp3', A, [("b = np.atleast_1d(b)\n        if (b.ndim > 2):", "b = np.atleast_1d(b)\n        if not b.ndim <= 2:")], Q),
]
