N,P,C,X,O='numeric_array_patterns.py','psdmatrix_patterns.py','pattern_containers.py','simplex_patterns.py','optimization_lib.py'
W={'P18'}
EDITS=[
 ('raw-numpy', N, [('import autograd.numpy as np','import numpy as np')], W),
 ('raw-numpy-psd', P, [('import autograd.numpy as np','import numpy as np')], W),
 ('asarray', N, [("flat_val = np.atleast_1d(flat_val)","flat_val = np.asarray(flat_val)")], W),
 ('noprim', P, [("@primitive\n","")], W),
 ('sparseprod', O, [("a_mult","a_mult")], set()),
 ('float', X, [("flat_val = np.atleast_1d(flat_val)","flat_val = np.array([float(v) for v in np.atleast_1d(flat_val)])")], W),
]
