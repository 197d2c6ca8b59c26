C='paragami/pattern_containers.py';N='paragami/numeric_array_patterns.py';P='paragami/psdmatrix_patterns.py';X='paragami/simplex_patterns.py'
B='paragami/base_patterns.py';F='paragami/function_patterns.py';O='paragami/optimization_lib.py';S='paragami/sparse_preconditioners_lib.py';A='paragami/autograd_supplement_lib.py'
IMP='''import autograd.numpy as np
import paragami
'''
SEEDS=[
dict(id='P07-drop-false', property='P07',
 edits=[(B,"        return json.dumps(self.as_dict())","        # Leave out what the constructors assume anyway.\n        return json.dumps({key: value for key, value in self.as_dict().items()\n                           if value is not False})")],
 needs='a pattern whose default validation or default mode is switched off, saved to JSON and loaded',
 breaks='a setting of False is not saved and comes back as the constructor default',
 demo=IMP+'''p = paragami.PSDSymmetricMatrixPattern(size=2, default_validate=False)
q = paragami.get_pattern_from_json(p.to_json())
assert q.default_validate is False, q.default_validate
'''),
dict(id='P14-one-tuple', property='P14',
 edits=[(F,"        new_rets += rets[last_retnum:len(rets)]\n\n        return new_rets","        new_rets += rets[last_retnum:len(rets)]\n\n        return new_rets if len(new_rets) > 1 else new_rets[0]")],
 needs='a wrapped function that returns a tuple of one value',
 breaks='a tuple of one value comes back as the bare value',
 demo=IMP+'''p = paragami.NumericVectorPattern(length=2)
f = paragami.FlattenFunctionOutput(lambda x: (x,), p, False)
r = f(np.array([1.0, 2.0]))
assert isinstance(r, tuple) and len(r) == 1, r
'''),
dict(id='P15-log-negative', property='P15',
 edits=[(O,"        if self._log_every > 0 and self._num_f_evals % self._log_every == 0:","        if self._log_every and self._num_f_evals % self._log_every == 0:")],
 needs='a negative log interval',
 breaks='a negative log interval fills the log',
 demo=IMP+'''o = paragami.OptimizationObjective(lambda x: np.sum(x ** 2), print_every=0, log_every=-1)
o.f(np.array([1.0]))
assert o.optimization_log == [], o.optimization_log
'''),
]
