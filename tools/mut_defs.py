"""Changed default arguments."""
F, O, S, C, N, P, X, B, A = ('function_patterns.py', 'optimization_lib.py', 'sparse_preconditioners_lib.py', 'pattern_containers.py',
                             'numeric_array_patterns.py', 'psdmatrix_patterns.py', 'simplex_patterns.py', 'base_patterns.py',
                             'autograd_supplement_lib.py')
Q = set()
EDITS = []
k = 0
for f, pairs in {
    N: [("def validate_folded(self, folded_val, validate_value=None)", "def validate_folded(self, folded_val, validate_value=True)", {'P03', 'P05'}),
        ("def validate_folded(self, folded_val, validate_value=None)", "def validate_folded(self, folded_val, validate_value=False)", {'P03', 'P05'}),
        ("def fold(self, flat_val, free=None, validate_value=None)", "def fold(self, flat_val, free=None, validate_value=True)", {'P03'}),
        ("def flatten(self, folded_val, free=None, validate_value=None)", "def flatten(self, folded_val, free=None, validate_value=False)", {'P03'}),
        ("def flatten(self, folded_val, free=None, validate_value=None)", "def flatten(self, folded_val, free=False, validate_value=None)", {'P01'}),
        ("def freeing_jacobian(self, folded_val, sparse=True)", "def freeing_jacobian(self, folded_val, sparse=False)", set()),
        ("def flat_indices(self, folded_bool, free=None)", "def flat_indices(self, folded_bool, free=False)", {'P01'}),
        ("def __init__(self, length, lb=-float(\"inf\"), ub=float(\"inf\"),", "def __init__(self, length, lb=0.0, ub=float(\"inf\"),", {'P26'}),
        ("def __init__(self, length, lb=-float(\"inf\"), ub=float(\"inf\"),\n default_validate=True", "def __init__(self, length, lb=-float(\"inf\"), ub=float(\"inf\"),\n                 default_validate=False", {'P26'})],
    P: [("def fold(self, flat_val, free=None, validate_value=None)", "def fold(self, flat_val, free=None, validate_value=False)", {'P03'}),
        ("def validate_folded(self, folded_val, validate_value=None)", "def validate_folded(self, folded_val, validate_value=False)", {'P03', 'P05'}),
        ("def __init__(self, size, diag_lb=0.0", "def __init__(self, size, diag_lb=1e-8", {'P26'})],
    X: [("def flatten(self, folded_val, free=None, validate_value=None)", "def flatten(self, folded_val, free=None, validate_value=True)", {'P03'}),
        ("def validate_folded(self, folded_val, validate_value=None)", "def validate_folded(self, folded_val, validate_value=True)", {'P03', 'P05'})],
    C: [("def validate_folded(self, folded_val, validate_value=None)", "def validate_folded(self, folded_val, validate_value=True)", {'P03', 'P05'}),
        ("def fold(self, flat_val, free=None, validate_value=None)", "def fold(self, flat_val, free=None, validate_value=False)", {'P03'}),
        ("def fold(self, flat_val, free=None, validate_value=None)", "def fold(self, flat_val, free=True, validate_value=None)", {'P01'}),
        ("def register_pattern_json(pattern, allow_overwrite=False)", "def register_pattern_json(pattern, allow_overwrite=True)", {'P08'}),
        ("def flat_indices(self, folded_bool, free=None)", "def flat_indices(self, folded_bool, free=False)", {'P01'})],
    F: [("def __init__(self, original_fun, patterns, free,\n original_is_flat, argnums=None):", "def __init__(self, original_fun, patterns, free,\n                 original_is_flat, argnums=0):", set()),
        ("class FoldFunctionInput(TransformFunctionInput):", None, None),
        ("output_patterns, output_free, output_retnums=None):", "output_patterns, output_free, output_retnums=0):", {'P14'})],
    O: [("def __init__(self, objective_fun, print_every=1, log_every=0)", "def __init__(self, objective_fun, print_every=1, log_every=1)", {'P15'}),
        ("def set_preconditioner_with_hessian(self, x=None, hessian=None,\n ev_min=None, ev_max=None)", "def set_preconditioner_with_hessian(self, x=None, hessian=None,\n                                        ev_min=0.0, ev_max=None)", {'P16'}),
        ("def check_preconditioner(self, vec, tol=1e-8)", "def check_preconditioner(self, vec, tol=1e-2)", set()),
        ("def truncate_eigenvalues(evals, ev_min=None, ev_max=None)", "def truncate_eigenvalues(evals, ev_min=0, ev_max=None)", {'P16'})],
    A: [("def grouped_sum(x, groups, num_groups=None)", "def grouped_sum(x, groups, num_groups=1)", {'P27'})]}.items():
    for o, n, w in pairs:
        if n is None:
            continue
        k += 1
        EDITS.append(('def-%02d' % k, f, [(o, n)], w))
