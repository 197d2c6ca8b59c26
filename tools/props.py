"""The single source of properties.jsonl and MANIFEST.json: run python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, N, C = 'paragami/base_patterns.py', 'paragami/numeric_array_patterns.py', 'paragami/pattern_containers.py'
PS, SX = 'paragami/psdmatrix_patterns.py', 'paragami/simplex_patterns.py'
FN, OL = 'paragami/function_patterns.py', 'paragami/optimization_lib.py'
SP, AS = 'paragami/sparse_preconditioners_lib.py', 'paragami/autograd_supplement_lib.py'
PATS = [B, N, C, PS, SX]

TECH = 'abstract interpretation of the source to gated value terms; '
NOTE = ('Each obligation is decided from the current source for all inputs of the analysed entry point; trusted: '
        'the models of numpy, scipy, autograd and json in sa/, and that a member pattern of a container honours the '
        'interface the leaf obligations check. Obligations the analysis cannot settle are counted as undecided '
        'in the evidence and raise nothing. ')

PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None,
         tech=None, note='', na=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
         'anchors': {'files': files,
                     'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = observe
    PROPS.append((d, tech, note, na))


prop('P01', 'free=None means the pattern default, in every operation',
     'Every pattern operation that takes a free mode behaves, when it is called without one, exactly as when called '
     'with the default mode of the pattern it is called on; an explicit mode makes that default irrelevant and counts '
     'only through its truth value. With neither an explicit mode nor a default, an operation whose answer depends on the mode '
     'returns nothing and raises a ValueError.',
     ['inputs', 'configurations'],
     'every operation with a free argument of every pattern class, every default (True, False, none), every mode value',
     'Tests call most operations with an explicit mode; the default is sampled on a few operations of a few patterns, '
     'and the refusal without a default on fewer.',
     PATS, [('default resolution', B + ' Pattern._free_with_default'), ('uses in each operation', 'flatten, fold, flat_length, flat_indices, freeing_jacobian, unfreeing_jacobian, flat_names')],
     observe=['result or exception of each operation'],
     tech=TECH + 'equality of the results under free=None and under the default',
     note='Decides: for each operation and pattern the terms computed under free=None and under the default coincide, the default does not occur in results for an explicit mode, and no path returns without a mode.')

prop('P02', 'Containers run every member in the container\'s own mode',
     'Whatever default modes the members of a pattern array or dictionary have, an operation of the container in a '
     'given mode uses each member in that same mode. A member\'s own default never influences the result of an '
     'operation on the container.',
     ['inputs', 'configurations'],
     'every container operation, every mode or container default, members with any default including none and '
     'including the opposite one',
     'Tests build containers whose members have no default or the same one, so a member call without the mode goes unnoticed.',
     [C], [('mode passed to every member call', C + ' PatternDict and PatternArray methods')],
     observe=['results of container operations'],
     tech=TECH + 'inspection of the mode argument of every member operation reaching a result')

prop('P03', 'Validation gates fold and flatten, and nothing else does',
     'With validation on, flattening, and folding from non-free values, return only for values that the pattern\'s own '
     'verdict calls valid, and raise a ValueError otherwise; a valid value of the right length is never refused. With '
     'validation off only shapes are checked, and containers pass the caller\'s setting on to every member.',
     ['inputs', 'configurations'],
     'every pattern class and bound configuration, every folded value or flat vector, every setting and default of validation',
     'Tests try a handful of invalid values; an operation that skips the check for one mode, class, boundary value or member passes them.',
     PATS, [('verdict and checks', 'validate_folded, fold, flatten of each pattern')],
     observe=['returned values and ValueErrors of fold and flatten'],
     tech=TECH + 'implication between the return guard and the verdict guard')

prop('P04', 'fold accepts only one-dimensional vectors of exactly the flat length',
     'Folding returns a value only for a one-dimensional vector whose length is the flat length of the pattern in the '
     'mode used; for any other shape or length it raises a ValueError. This holds in both modes and with validation on or off.',
     ['inputs', 'configurations'],
     'every pattern class, every mode and validation setting, every input shape and length',
     'Tests try one wrong length on a few patterns; two-dimensional and boundary lengths of each mode are not sampled.',
     PATS, [('shape and length checks', 'fold of each pattern')],
     observe=['ValueError from fold'],
     tech=TECH + 'implication from the return guard to the dimension and length conditions')

prop('P05', 'Validation verdicts are exact and total',
     'Asking a pattern whether a folded value is valid answers and never raises, for a value of any shape; the answer is '
     'yes exactly when the shape is right and, if values are checked, the value is in the domain (no entry outside the bounds, which '
     'are inclusive; diagonal not below its bound and symmetric; non-negative and summing to one within tolerance). A container value is valid exactly when '
     'every member part is present and valid, and the default validation setting applies when none is given.',
     ['inputs', 'configurations'],
     'every pattern class, every folded value including wrong shapes, missing or extra parts and boundary values',
     'Tests sample a few bad values; boundary values, wrong ranks and one bad member among several are rarely among them.',
     PATS, [('verdict', 'validate_folded of each pattern')],
     observe=['result of validate_folded'],
     tech=TECH + 'comparison of the verdict guard with the domain condition, and raise-freedom')

prop('P06', 'One container order for every flat operation',
     'The flat vector of a container is the concatenation of its members\' flat vectors in container order: flattening, '
     'folding, flat indices, Jacobian blocks, flat names and the flat length all use the same consecutive, gap-free '
     'segments, and the empty value puts each member in its place. A leaf pattern lays its entries out in row-major order both ways, '
     'with one name per flat entry, telling its index.',
     ['inputs', 'configurations'],
     'every number, type and nesting of members, every array shape, both modes',
     'Tests use a few members of few shapes; offsets that are wrong only for a middle member, for unequal free and non-free lengths or for a '
     'second array dimension pass.',
     PATS, [('running offsets', C + ' fold, flatten, flat_indices, Jacobians, flat_names')],
     observe=['results of the flat operations'],
     tech=TECH + 'summarisation of loops into concatenations and prefix sums, comparison of segment bounds')

prop('P07', 'The JSON form of a pattern restores the same pattern',
     'Whenever a pattern can be constructed, its JSON form can be loaded again by its class and gives a pattern with the same '
     'configuration: shape, bounds, default modes, default validation, member order and nested members. The rebuilt pattern compares equal to '
     'the original, patterns that differ in type or any configuration field compare unequal, and a class refuses the JSON form of another class with a ValueError.',
     ['configurations', 'inputs'],
     'every pattern class and every constructor argument, including infinite bounds, defaults of both signs and none',
     'Tests round-trip a few configurations and compare by equality, which hides fields that neither the JSON form nor equality looks at.',
     PATS, [('writers and readers', 'as_dict, to_json, from_json of each pattern'), ('equality', '__eq__')],
     observe=['state of the rebuilt pattern', 'result of =='],
     tech=TECH + 'composition of the JSON writer with the reader and comparison of the resulting object states')

prop('P08', 'The JSON registry dispatches to the right class',
     'The generic JSON loader hands the JSON form of any pattern class of the package to that class; JSON that names no pattern, or '
     'an unregistered one, gives a KeyError. Registering a class makes it known under its own name, and a name already taken is refused with a ValueError '
     'and without effect unless overwriting was asked for.',
     ['configurations', 'histories', 'inputs'],
     'every concrete pattern class, every JSON string, every sequence of registrations',
     'Tests cover the classes they list and one registration; a new or renamed class, and the failing registration\'s side effects, are not sampled.',
     [C, PS, SX, N, B], [('registry', C + ' register_pattern_json, get_pattern_from_json')],
     state=[('registry', 'pattern classes by JSON type name', C)],
     observe=['loaded pattern', 'KeyError, ValueError'],
     tech=TECH + 'constant evaluation of the registry over all module initialisers, and dispatch of each class name')

prop('P09', 'A locked pattern dictionary never changes',
     'After a dictionary is locked, or has been put into another dictionary, adding, replacing or deleting a member raises a ValueError and leaves members, '
     'order and lengths as they were. Nothing unlocks it again, and no operation hands out the internal member store.',
     ['histories', 'inputs'],
     'every sequence of operations on a dictionary and its nested dictionaries, of the class itself or of a subclass',
     'Tests lock one dictionary and try one assignment; deletion, replacement, nesting and later operations are not combined.',
     [C], [('lock flag', C + ' PatternDict.lock, __setitem__, __delitem__')],
     state=[('lock flag', 'whether mutators are refused', C), ('member store', 'members by key', C)],
     observe=['ValueError from mutators', 'members and lengths'],
     tech=TECH + 'typestate rule on the lock flag over all methods')

prop('P10', 'Dictionary lengths and members stay consistent over any history',
     'After any sequence of insertions, replacements and deletions the free and non-free flat lengths of a pattern dictionary are the sums over its present members, '
     'starting from zero when it is empty. An insertion or replacement stores exactly the given pattern under its key and a deletion removes exactly that key, a lookup gives that pattern or a KeyError, and the keys are listed in order of insertion; an operation '
     'that raises, and every reading operation, leaves members and lengths unchanged.',
     ['histories', 'inputs'],
     'every sequence of insertions, replacements, deletions, refused operations and reads',
     'Tests insert a few members once; replacement by a pattern of other length, deletion and refused insertions are not followed by length checks.',
     [C], [('length bookkeeping', C + ' PatternDict.__setitem__, __delitem__')],
     state=[('flat lengths', 'cached lengths for both modes', C)],
     observe=['flat_length, keys, lookup after each operation'],
     tech=TECH + 'inductive-invariant check of each mutator and reader (effects on members and lengths)')


prop('P11', 'Operations leave arguments, patterns and global state alone',
     'Folding, flattening, Jacobians, index queries, names, validation, comparison, JSON output, the wrapped functions, preconditioning and the sparse and '
     'eigenvalue helpers never write to the memory of an argument; constructing a pattern or putting it into a container changes no given pattern, except that a dictionary put into another is locked. Reading operations of a pattern do not change the pattern or process-wide settings in a way that later operations could show, so repeating them gives the same answer.',
     ['inputs', 'histories'],
     'every operation, every argument, every number of repetitions in any order',
     'Tests look at the result of a call, not at its arguments afterwards; a write through a view or into a cached object shows only in a later call.',
     PATS + [FN, OL, SP, AS], [('stores', 'subscript and attribute stores, in-place operators and mutating methods in all modules')],
     observe=['arguments after a call', 'a second call'],
     tech=TECH + 'effect analysis: every store event is traced to the allocation it writes to')

prop('P12', 'Results do not share memory with arguments or patterns',
     'A value returned by folding, flattening, Jacobian, index, empty-value and random operations of a pattern, and by the array helpers, is a fresh object: writing to it changes '
     'neither the argument it was computed from nor the pattern, and later writes to the argument do not change it.',
     ['inputs', 'histories'],
     'every pattern class, mode and validation setting; every argument',
     'A test compares values and cannot see that two arrays are the same memory until one of them is written.',
     PATS + [OL, AS], [('views and copies', 'returns of fold, flatten, flat_indices, empty, random, Jacobians, replace, grouped_sum, truncate_eigenvalues')],
     observe=['argument after a write to the result', 'result after a write to the argument'],
     tech=TECH + 'alias analysis of the returned term under numpy\'s view and copy rules')

prop('P13', 'Wrapped functions convert exactly the designated arguments',
     'A function whose input is wrapped for folding or flattening calls the original exactly once, with each designated positional argument converted by its own '
     'pattern in its own mode, and every other positional and keyword argument passed on unchanged and in place; its result is returned as is. A mode of none leaves the choice to the pattern\'s default mode. Patterns, positions and '
     'modes that do not fit together (different counts, repeated positions, more than one dimension) are refused with a ValueError at construction.',
     ['inputs', 'configurations'],
     'every number of patterns, every choice and order of positions, one mode or one per pattern, every argument list',
     'Tests wrap one or two arguments in ascending positions with a shared mode; permuted positions, per-argument modes and keyword arguments are rarely combined.',
     [FN], [('argument conversion', FN + ' FlattenFunctionInput, FoldFunctionInput')],
     observe=['arguments the original function receives', 'result', 'ValueError at construction'],
     tech=TECH + 'comparison of the call term with the specified argument list for each position set',
     note='Up to three patterns and five positions are enumerated; the patterns, modes, arguments and the function are symbols.')

prop('P14', 'Wrapped functions convert exactly the designated return values',
     'A function whose output is wrapped for folding or flattening calls the original exactly once with unchanged arguments and converts each designated return value with its own '
     'pattern in its own mode, handing the other values through in place; a single returned value stays single, and a mode of none leaves the choice to the pattern\'s default. Positions beyond the returned values, and patterns, positions and modes that do not fit together, are '
     'refused with a ValueError. The combined wrappers convert inputs and outputs as the two single ones do.',
     ['inputs', 'configurations'],
     'every number of patterns, every choice and order of positions, one mode or one per pattern, every number of returned values, single or tuple',
     'Tests wrap one or two outputs in ascending positions; permuted positions, per-output modes, too short results and combinations with input wrappers are rare.',
     [FN], [('return conversion', FN + ' FoldFunctionOutput, FlattenFunctionOutput'), ('combination', FN + ' FoldFunctionInputAndOutput, FlattenFunctionInputAndOutput')],
     observe=['result of the wrapped function', 'ValueErrors'],
     tech=TECH + 'comparison of the result term with the specified conversion for each position set and result length',
     note='Up to three patterns, four positions and four returned values are enumerated; the patterns, modes, arguments and the function are symbols.')


prop('P15', 'The optimization objective counts, logs and prints as configured',
     'Each evaluation of an optimization objective calls the objective exactly once at the given point, returns its value and adds one to the count. It appends (count, copy of the point, value) to the log exactly when the '
     'log interval is positive and divides the count before the evaluation, and prints under the same rule for the print interval. Resets restore a zero count and an empty log, each only its own; gradient, Hessian and Hessian-vector product come from the objective and change no state.',
     ['histories', 'configurations', 'inputs'],
     'every sequence of evaluations, interval changes and resets; every interval including zero',
     'Tests run one configuration from a fresh object; interval and count combinations, state after a reset and aliasing in the log are not sampled.',
     [OL], [('evaluation', OL + ' OptimizationObjective.f'), ('resets', OL + ' reset, reset_iteration_count, reset_log')],
     state=[('iteration count', 'evaluations since the last reset', OL), ('log', 'logged triples', OL)],
     observe=['returned value, num_iterations, optimization_log, printed text'],
     tech=TECH + 'transition check: each operation is analysed from an arbitrary state')

prop('P16', 'Preconditioning uses one operator and its inverse, each in its role',
     'However a preconditioner was set, a preconditioned function evaluates the original at unprecondition(x); unprecondition applies the preconditioner and precondition its inverse, and the matrix forms have their images of unit vectors as columns. With a Hessian, unprecondition is the inverse square root of '
     'the Hessian with eigenvalues clipped to the given bounds and precondition its square root. Setting one preconditioner replaces all of the previous one. check_preconditioner refuses exactly a pair that misses being inverse by more than the tolerance; '
     'inconsistent settings and bounds are refused. The sparse square root multiplies and solves with one factor that reproduces the matrix.',
     ['inputs', 'histories', 'configurations'],
     'every sequence of preconditioner settings, every matrix (dense or sparse), every eigenvalue and bound order',
     'Tests use symmetric well-conditioned matrices, where transposes and swapped roles coincide, and a fresh object for each setting.',
     [OL, SP], [('operators', OL + ' PreconditionedFunction'), ('eigenspace', OL + ' transform_eigenspace, truncate_eigenvalues, _get_sym_matrix_inv_sqrt_funcs'), ('sparse square root', SP)],
     state=[('preconditioner', 'operator and inverse operator', OL)],
     observe=['precondition, unprecondition, __call__, get_preconditioner, get_preconditioner_inv'],
     tech=TECH + 'symbolic linear algebra on the operator terms under orthogonality of eigenvectors',
     note='Exact arithmetic: rounding is not modelled, and the factorisations of numpy, scipy and sksparse are trusted.')


prop('P17', 'Registered derivative rules are the derivatives of their functions',
     'Every custom derivative rule is the derivative of the function it is registered for. For the special functions added to autograd, the forward and reverse rules are the analytic derivative in every differentiable argument, to every order. '
     'For the packing of triangular matrices into vectors, element replacement, sparse products and sparse solves, the forward rule is the directional derivative and the reverse rule its adjoint, with plain and transposed operators in their proper places.',
     ['inputs', 'histories'],
     'every argument value, every matrix size, every sparse matrix, every order of differentiation',
     'Tests compare a few derivatives at random points of small size; symmetric operands and low orders hide transposes, argument slips and missing rules.',
     [AS, PS, SP], [('special functions', AS), ('triangular packing', PS + ' _vectorize_ld_matrix, _unvectorize_ld_matrix and their jvp and vjp'),
                    ('sparse products and solves', AS + ', ' + SP)],
     observe=['autograd.grad, jacobian, hessian and make_jvp results'],
     tech=TECH + 'comparison of each registered rule term with the symbolically differentiated function (special-function calculus, linear index maps and non-commutative matrix words)',
     note='Exact arithmetic. Array shapes are restricted to the documented ones: vectors for reverse rules of sparse products, any number of columns for solves.')

prop('P18', 'Transforms stay differentiable by autograd',
     'A value that a folded or flattened result, or a preconditioned function, computes from its input flows only through operations that autograd can trace and differentiate: no conversion to a plain number or array, no plain numpy or scipy call on the traced value, no in-place store into it, '
     'no integer or boolean cast, and every custom primitive on the way has a reverse rule.',
     ['inputs', 'configurations'],
     'every pattern type, both modes, dense and sparse preconditioners, every free vector or folded value',
     'Tests differentiate a few patterns in one mode at one point; other paths evaluate to correct values while their gradients fail or silently vanish.',
     PATS + [OL], [('transforms', 'fold and flatten of every pattern'), ('preconditioned functions', OL + ' PreconditionedFunction')],
     observe=['autograd.grad and jacobian of functions of fold, flatten and preconditioned functions'],
     tech=TECH + 'taint analysis of the traced input through the value terms against the differentiability tables of autograd 1.6.2',
     note='What autograd can differentiate is taken from its own tables, which are trusted.')


prop('P19', 'The transforms to and from flat vectors are mutually inverse',
     'In exact arithmetic, folding the flat vector of any value in the domain gives that value back, and flattening what a flat vector folds to gives that vector back, in free and in non-free mode; for free mode the value lies strictly inside the constraints. '
     'Non-free flattening only rearranges the entries of the value, and a positive-definite matrix folded from free parameters is symmetric.',
     ['inputs', 'configurations'],
     'every pattern class, every bound combination (none, lower, upper, both), every value and every flat vector of the right length, both modes',
     'Tests round-trip a few values at a few bounds and compare with a tolerance; a constant that cancels at those points, or a wrong branch for one bound combination, passes.',
     [N, PS, SX, C], [('bound transforms', N + ' _constrain_array, _unconstrain_array'), ('matrix transforms', PS + ' _pack_posdef_matrix, _unpack_posdef_matrix'), ('simplex transforms', SX + ' _constrain_simplex_matrix, _unconstrain_simplex_matrix')],
     observe=['fold(flatten(x))', 'flatten(fold(v))'],
     tech=TECH + 'composition of the two transform terms and normalisation in a rational log/exp algebra (entries by class: first/other, diagonal/off-diagonal)',
     note='Exact arithmetic: rounding is not modelled here. The Cholesky factor of a matrix is taken to be the factor that reproduces it.')

prop('P20', 'Folding free parameters gives values inside the constraints',
     'Every finite free vector folds to a value that satisfies the constraints of the pattern. In exact arithmetic it satisfies them for every pattern; in floating-point arithmetic, rounding, overflow and underflow never turn a finite free vector into nan, infinity where '
     'the bounds are finite, or a value outside the bounds of a numeric array or the zero-to-one range of a simplex.',
     ['inputs', 'configurations'],
     'every finite free vector including very large entries of either sign, every bound combination, every pattern class',
     'Tests fold free values of moderate size; overflow to nan and rounding past a bound need extreme entries or particular bounds.',
     [N, PS, SX], [('bound transforms', N + ' _constrain_array'), ('simplex transform', SX + ' _constrain_simplex_matrix'), ('matrix transform', PS + ' _unpack_posdef_matrix')],
     observe=['fold(v, free=True)'],
     tech=TECH + 'sign and range analysis of the transform term, and a floating-point interval analysis (nan, overflow and rounding tracked) over cells of the input line',
     note='The floating-point part assumes IEEE double arithmetic, monotone exp and log, and finite bounds of moderate size; overflow of the matrix exponential scale is not covered.')

prop('P21', 'Jacobians and log determinants are those of the transforms',
     'The freeing Jacobian is the matrix of derivatives of the free flat vector with respect to the non-free one, and the unfreeing Jacobian the reverse, evaluated at the folded value given, rows following the output and columns the input. A sparse matrix is returned exactly when sparse output was asked for, an '
     'ordinary array otherwise, with equal entries. The log determinants are the logarithms of the absolute determinants of those matrices, and a container sums its members\'.',
     ['inputs', 'configurations'],
     'every pattern class, every bound combination, every folded value in the interior, sparse and dense output, nested containers',
     'Tests compare the Jacobians with autograd at a few points in the default form; the dense form, the log determinants of single bounds, and containers with differing members are rarely combined.',
     PATS, [('Jacobians', 'freeing_jacobian, unfreeing_jacobian of each pattern'), ('log determinants', 'log_abs_det_freeing_jacobian, log_abs_det_unfreeing_jacobian')],
     observe=['the two Jacobians and the two log determinants'],
     tech=TECH + 'symbolic differentiation of the transform term and comparison with the term of the Jacobian or log determinant',
     note='Exact arithmetic. Log determinants exist for numeric arrays and dictionaries only; matrix Jacobians are taken from autograd, and the check is that the transform differentiated is the right one at the right point.')

prop('P22', 'Example values have the right shape and lie inside the domain',
     'The valid empty value of a pattern lies in the interior of its domain, so that it can be flattened freely, and every empty value has the shape of the pattern. The boolean empty value has that shape filled with the given value, and a random value is what a finite vector of the free length folds to in free mode.',
     ['inputs', 'configurations'],
     'every pattern class, every bound combination (none, lower, upper, both, any sign and size), every shape',
     'Tests build examples for a few bounds; a midpoint or offset that leaves the domain for other bounds, or a shape that agrees only for the sampled sizes, passes.',
     PATS, [('examples', 'empty, empty_bool, random of each pattern')],
     observe=['results of empty, empty_bool and random'],
     tech=TECH + 'sign analysis of the distance of the example from each bound, and shape terms')

prop('P23', 'Flat lengths and flat indices address the flat vector exactly',
     'The flat length of a pattern in a mode is the length of the vectors it flattens to. Given a boolean value of the pattern\'s shape, the flat indices are, in increasing order and without repetition, exactly the positions of the non-free flat vector the marked entries occupy; in free mode they are every position that the marked entries depend on, '
     'and they are integers even when nothing is marked. A boolean value of the right shape is never refused.',
     ['inputs', 'configurations'],
     'every pattern class, every shape and size, every boolean value including none and all marked, both modes',
     'Tests mark a few entries of small shapes; the empty selection, a marked entry in a late simplex and non-square shapes are rarely sampled.',
     PATS, [('lengths', 'flat_length of each pattern'), ('indices', 'flat_indices of each pattern')],
     observe=['flat_length, flat_indices'],
     tech=TECH + 'comparison of the length and index terms (loops summarised as prefix sums) with the layout of the flatten term')

prop('P24', 'A saved value loads back unchanged with its pattern',
     'Saving a folded value with its pattern stores the non-free flat value, the JSON form of the pattern and every additional array given, under the file name given. Loading that file rebuilds the pattern from its stored JSON form and folds the stored flat value with it in non-free mode, so the value, the pattern and the additional arrays come back as they were.',
     ['inputs', 'configurations'],
     'every pattern, every folded value, every set of additional values, whatever default modes and validation settings the pattern has',
     'Tests save one value of one pattern; a pattern whose default mode is free, or a value refused by validation, is not sampled.',
     [C], [('save and load', C + ' save_folded, load_folded')],
     observe=['the file written', 'the triple load_folded returns'],
     tech=TECH + 'composition of the loader with the writer: the stored fields are substituted for the loaded ones')

prop('P25', 'Constructors refuse exactly the impossible constraints',
     'Constructing a pattern raises a ValueError when its constraints leave nothing to represent: a lower bound not below the upper one, a bound at the infinity on its wrong side, a negative diagonal bound, or a simplex of fewer than two entries. '
     'Every other choice of bounds and simplex size is accepted.',
     ['configurations'],
     'every pattern class, every combination of bounds including infinities, zero and equal ones, every size',
     'Tests try one reversed pair of bounds and few sizes; equal bounds, infinite bounds and boundary sizes are not sampled.',
     [N, PS, SX], [('constructor checks', 'the constructors of the numeric, matrix and simplex patterns')],
     observe=['ValueError or a pattern from the constructor'],
     tech=TECH + 'evaluation of the constructor\'s raise guard over an abstract enumeration of bound orders and sizes')



prop('P26', 'A pattern reports the configuration it was built with',
     'The queries of a pattern about its shape, bounds, sizes and base pattern, and its default mode and default validation setting, answer with what was given at construction, and with the documented values for what was left out: no bounds, no default mode, validation on. '
     'The shape of a pattern array is its array shape followed by the shape of its base pattern\'s values.',
     ['configurations'],
     'every pattern class and every constructor argument, given or left out',
     'Tests query a few patterns whose sizes coincide, so swapped bounds, sizes or defaults lost in a subclass pass.',
     [N, PS, SX, C, B], [('queries', 'shape, bounds, length, size, diag_lb, array_shape, simplex_size, base_pattern')],
     observe=['results of the queries'],
     tech=TECH + 'comparison of each query term with the constructor argument')

prop('P27', 'The array helpers compute what they document',
     'The grouped sum adds every entry along the first axis to the row of its group and to no other, starting from zero, with as many rows as groups asked for (one more than the largest group when none was) and the shape of an entry in each row. '
     'Replacing entries gives an array of the shape of the original that holds the new values at the given positions and the original ones elsewhere, whatever the number type of the original; the product and solver helpers return the plain and the transposed operator, in that order. '
     'Arguments whose dimensions or lengths do not fit, and groups beyond the number of groups, are refused with a ValueError, and no others are.',
     ['inputs', 'configurations'],
     'every array, every assignment to groups including empty and repeated ones, every number of groups, every number of dimensions',
     'Tests draw a few random arrays with few groups; an empty group, an integer original or a wrong boundary of a refusal is not sampled.',
     [AS], [('helpers', AS + ' grouped_sum, replace, get_sparse_product, get_differentiable_solver')],
     observe=['results and exceptions of the helpers'],
     tech=TECH + 'comparison of the recurrence of the result with the documented sum, and evaluation of the refusal conditions over an abstract enumeration of dimensions and lengths',
     note='Decides value and shape for all inputs from the terms of the loops; refusals over the abstract dimensions listed in the evidence.')

prop('P28', 'Free conversion is accurate to rounding error in floating point',
     'Converting a value of the domain to its free vector and back in double precision changes it by no more than a small multiple of the rounding error at its size.',
     ['inputs'], 'every value of every domain, in double precision',
     'Tests compare random round trips with a loose tolerance.',
     PATS, [('transforms', 'constrain and unconstrain functions of the patterns')],
     na='Bounding accumulated rounding error needs numeric error analysis over runtime magnitudes (condition of the transforms near the bounds, conditioning of the matrix); '
        'no dataflow or type-level argument here bounds it. The exact-arithmetic inverse (P19) and absence of overflow and leaving the range (P20) are decided instead.')

prop('P29', 'Preconditioned optimization reaches the same optimum',
     'Optimizing a preconditioned objective and transforming the solution back gives the optimum of the original objective.',
     ['inputs', 'histories'], 'every smooth objective, optimizer and preconditioner',
     'Tests optimize one quadratic.',
     [OL], [('preconditioned objective', OL + ' PreconditionedFunction')],
     na='Convergence of an external iterative optimizer on an arbitrary objective is a runtime quantity; the part that is a property of this code '
        '(the preconditioned function is the original after an invertible change of variables) is decided in P16.')

prop('P30', 'Folded matrices are numerically positive definite',
     'A matrix folded from free parameters is positive definite in floating-point arithmetic, so that its Cholesky factor exists.',
     ['inputs'], 'every finite free vector',
     'Tests draw small random vectors.',
     [PS], [('packing', PS + ' _unpack_posdef_matrix')],
     na='Whether L L\' + d I stays positive definite after rounding depends on the runtime spread of the diagonal (it can fail for extreme but finite vectors); '
        'symmetry and exact-arithmetic positive definiteness are decided in P19 and P20.')

prop('P31', 'Numeric results of the linear algebra back ends are correct',
     'Eigenvalues, Cholesky factors and solutions computed through scipy, numpy and the sparse Cholesky back end are correct to working precision.',
     ['inputs'], 'every matrix in the domain',
     'Tests use a few well conditioned matrices.',
     [OL, SP, PS], [('calls', 'uses of np.linalg, scipy.sparse.linalg and the sparse Cholesky factorization')],
     na='The back ends are compiled code outside the repository; what this code does with their results is decided in P16, P17 and P19.')

prop('P32', 'Conversions cost time and memory linear in the values',
     'Folding and flattening a container takes time and memory proportional to the number of its entries.',
     ['inputs'], 'every container size', 'Tests use small containers.',
     [C], [('loops', C + ' fold and flatten of the containers')],
     na='A cost bound depends on the running time of numpy and autograd operations, and the project documents none; there is no functional observable to decide it against.')


def main():
    from importlib import import_module
    import sys
    sys.path.insert(0, HERE)
    table = import_module('sa.rules').TABLE
    checks, na = [], []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, tech, note, why in PROPS:
            f.write(json.dumps(d) + '\n')
            if why is None and d['id'] in table:
                checks.append({'property': d['id'], 'quick_cmd': 'python3 check.py ' + d['id'],
                               'thorough_cmd': 'python3 check.py %s --thorough' % d['id'],
                               'technique': 'static analysis: ' + tech, 'level': 'other',
                               'level_note': NOTE + note})
            else:
                na.append({'property': d['id'], 'reason': why or 'check not built yet'})
    man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py', 'checks': checks,
           'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    try:
        import jsonschema
        jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
        sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for d, _, _, _ in PROPS:
            jsonschema.validate(d, sch)
        print('schema ok', len(checks), 'checks', len(na), 'not applicable')
    except ImportError:
        print('written', len(checks))


if __name__ == '__main__':
    main()
