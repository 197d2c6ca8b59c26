"""What autograd 1.6.2 differentiates: functions of autograd.numpy and autograd.scipy with a
reverse rule, and those it treats as constant."""
DIFF = set("""
numpy._array_from_scalar_or_array numpy._astype numpy.abs numpy.absolute numpy.add numpy.amax numpy.amin
numpy.angle numpy.append numpy.arccos numpy.arccosh numpy.arcsin numpy.arcsinh numpy.arctan numpy.arctan2
numpy.arctanh numpy.array numpy.array_from_args numpy.array_split numpy.atleast_1d
numpy.atleast_2d numpy.atleast_3d numpy.broadcast_to numpy.clip numpy.column_stack numpy.concatenate
numpy.concatenate_args numpy.conj numpy.conjugate numpy.cos numpy.cosh numpy.cross numpy.cumsum numpy.deg2rad
numpy.degrees numpy.diag numpy.diagonal numpy.diff numpy.divide numpy.dot numpy.dot_adjoint_0
numpy.dot_adjoint_1 numpy.dsplit numpy.einsum numpy.exp numpy.exp2 numpy.expand_dims numpy.expm1 numpy.fabs
numpy.fliplr numpy.flipud numpy.fmax numpy.fmin numpy.full numpy.gradient numpy.hsplit numpy.hstack
numpy.hypot numpy.imag numpy.inner numpy.kron numpy.linalg.cholesky numpy.linalg.det numpy.linalg.eig
numpy.linalg.eigh numpy.linalg.inv numpy.linalg.norm numpy.linalg.pinv numpy.linalg.slogdet numpy.linalg.solve
numpy.linalg.svd numpy.linspace numpy.log numpy.log10 numpy.log1p numpy.log2 numpy.logaddexp numpy.logaddexp2
numpy.make_diagonal numpy.matmul numpy.max numpy.maximum numpy.mean numpy.metadata numpy.min numpy.minimum
numpy.mod numpy.moveaxis numpy.msort numpy.multiply numpy.nan_to_num numpy.negative numpy.outer numpy.pad
numpy.parse_einsum_input numpy.partition numpy.power numpy.prod numpy.rad2deg numpy.radians numpy.ravel
numpy.real numpy.real_if_close numpy.reciprocal numpy.remainder numpy.repeat numpy.reshape numpy.roll
numpy.rollaxis numpy.rot90 numpy.row_stack numpy.select numpy.sin numpy.sinc numpy.sinh numpy.sort numpy.split
numpy.sqrt numpy.square numpy.squeeze numpy.stack numpy.std numpy.subtract numpy.sum numpy.swapaxes numpy.tan
numpy.tanh numpy.tensordot numpy.tensordot_adjoint_0 numpy.tensordot_adjoint_1 numpy.tile numpy.trace
numpy.transpose numpy.tril numpy.triu numpy.true_divide numpy.untake numpy.var numpy.vsplit numpy.vstack
numpy.where numpy.wrap_if_boxes_inside numpy.wrap_intdtype numpy.wrap_namespace scipy.linalg.solve_triangular
scipy.linalg.sqrtm scipy.special.beta scipy.special.betainc scipy.special.betaln scipy.special.digamma
scipy.special.erf scipy.special.erfc scipy.special.erfcinv scipy.special.erfinv scipy.special.expit
scipy.special.fwd_grad_logsumexp scipy.special.gamma scipy.special.gammainc scipy.special.gammaincc
scipy.special.gammaln scipy.special.gammasgn scipy.special.i0 scipy.special.i1 scipy.special.iv
scipy.special.ive scipy.special.j0 scipy.special.j1 scipy.special.jn scipy.special.logit
scipy.special.logsumexp scipy.special.make_gammainc_vjp_arg1 scipy.special.make_grad_logsumexp
scipy.special.multigammaln scipy.special.polygamma scipy.special.psi scipy.special.rgamma scipy.special.y0
scipy.special.y1 scipy.special.yn
""".split())
CONSTANT = set("""
numpy.all numpy.allclose numpy.any numpy.argmax numpy.argmin numpy.argpartition numpy.argsort numpy.argwhere
numpy.around numpy.array_equal numpy.array_equiv numpy.ceil numpy.count_nonzero numpy.equal numpy.fix
numpy.flatnonzero numpy.floor numpy.floor_divide numpy.greater numpy.greater_equal numpy.isclose
numpy.iscomplex numpy.iscomplexobj numpy.isfinite numpy.isinf numpy.isnan numpy.isneginf numpy.isposinf
numpy.isreal numpy.isscalar numpy.less numpy.less_equal numpy.logical_and numpy.logical_not numpy.logical_or
numpy.logical_xor numpy.ndim numpy.nonzero numpy.not_equal numpy.ones_like numpy.result_type numpy.rint
numpy.round numpy.searchsorted numpy.shape numpy.sign numpy.size numpy.trunc numpy.zeros_like
scipy.special.gammasgn
""".split())
METHODS = set("""
all any argmax argmin argpartition argsort astype clip compress cumprod cumsum diagonal flatten max mean min
nonzero prod ptp ravel repeat reshape round searchsorted squeeze std sum swapaxes take trace transpose var
""".split())
