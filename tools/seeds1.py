C='paragami/pattern_containers.py'; N='paragami/numeric_array_patterns.py'; B='paragami/base_patterns.py'
PS='paragami/psdmatrix_patterns.py'; SX='paragami/simplex_patterns.py'
SEEDS=[
dict(id='P02-array-indices-member-mode', property='P02',
 edits=[(C,"""                pattern_indices = self.__base_pattern.flat_indices(
                    folded_bool[item], free=free)""","""                pattern_indices = self.__base_pattern.flat_indices(
                    folded_bool[item],
                    free=self.__base_pattern._free_with_default(free))""" if False else """                pattern_indices = self.__base_pattern.flat_indices(
                    folded_bool[item],
                    free=self.__base_pattern.free_default or free)""")],
 needs='a pattern array whose base pattern has its own default mode True, used in non-free mode',
 breaks='flat_indices of a pattern array follows the member default instead of the mode asked of the array',
 demo='''import numpy as np, paragami
base = paragami.PSDSymmetricMatrixPattern(size=2, free_default=True)
p = paragami.PatternArray(array_shape=(2,), base_pattern=base)
b = p.empty_bool(False)
b[1, 0, 1] = True
ind = p.flat_indices(b, free=False)
assert list(ind) == [5], ind
print("ok")
'''),
dict(id='P10-replace-length', property='P10',
 edits=[(C,"""        self._free_flat_length = self._update_flat_length(free=True)
        self._flat_length = self._update_flat_length(free=False)

    def __delitem__""","""        if pattern.flat_length(free=False) != self._flat_length:
            self._free_flat_length = self._update_flat_length(free=True)
            self._flat_length = self._update_flat_length(free=False)

    def __delitem__""")],
 needs='inserting a member whose non-free length equals the present total length of the dictionary',
 breaks='cached lengths of the dictionary are not updated after such an insertion',
 demo='''import numpy as np, paragami
d = paragami.PatternDict(free_default=False)
d["a"] = paragami.NumericVectorPattern(length=3)
d["b"] = paragami.NumericVectorPattern(length=3)
assert d.flat_length(free=False) == 6, d.flat_length(free=False)
print("ok")
'''),
dict(id='P04-dict-fold-short', property='P04',
 edits=[(C,"""        flat_length = self.flat_length(free)
        if flat_val.size != flat_length:
            error_string = \\
                ('Wrong size for pattern dictionary""","""        flat_length = self.flat_length(free)
        if flat_val.size < flat_length:
            error_string = \\
                ('Wrong size for pattern dictionary""")],
 needs='folding a vector that is longer than the flat length of a dictionary',
 breaks='a dictionary silently ignores the excess entries of a vector that is too long',
 demo='''import numpy as np, paragami
d = paragami.PatternDict(free_default=False)
d["a"] = paragami.NumericVectorPattern(length=3)
d["b"] = paragami.NumericVectorPattern(length=2)
try:
    d.fold(np.arange(6.0))
except ValueError:
    print("ok")
else:
    raise SystemExit("a vector that is too long was folded")
'''),
]
