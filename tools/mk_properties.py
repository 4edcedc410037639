"""Writes /verif/properties.jsonl (kept as a script so the texts are easy to edit)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[observe])))
I='inputs';C='configurations';PR='programs';H='histories';F='fault_sequences';CP='crash_points';S='schedules'
p('P01','Spherical and solid harmonics equal the documented closed form',
 'For every 3-vector, maximum degree, ordering flag and normalization, the spherical harmonics returned are the documented real harmonics of the vector\'s direction (m ordering, Racah/4pi/orthonormal constants, Cartesian or standard order), and the solid harmonics are the same polynomials evaluated on the unnormalized vector. Their derivatives are finite and correct everywhere, including axis-aligned, tiny, huge and (finite only) zero vectors, and each vector\'s result does not depend on the other vectors in the batch.',
 [I,C],'all vectors of any magnitude and batch shape, all max_degree 0..15+, both orders, all normalizations, float32 and float64, first derivatives',
 'Tests compare a few fixed vectors at a few degrees; a wrong high-degree coefficient, a wrong normalization constant or a NaN gradient at special directions needs an independent oracle over many degrees and inputs.',
 ['e3x/so3/irreps.py','e3x/so3/_spherical_harmonics_lut.py','e3x/so3/_symbolic.py','e3x/so3/_normalization.py','e3x/so3/_common.py','e3x/so3/_spherical_harmonics_lut.npz'],
 [('monomial expansion with coefficient table','e3x/so3/irreps.py:spherical_harmonics'),('Cartesian permutation','e3x/so3/_common.py:_cartesian_permutation')],
 'return values and jvp/vjp of e3x.so3.spherical_harmonics and e3x.so3.solid_harmonics')
p('P02','Clebsch-Gordan coefficients are the documented real coupling tensor',
 'For every combination of degrees and both orderings, the Clebsch-Gordan tensor couples two irreps to a third exactly like the documented real coupling: it intertwines rotations, is orthonormal on every admissible triple, vanishes outside the triangle rule, has the documented sign conventions (dot, cross and symmetric traceless products of vectors), and obeys the exchange symmetry under swapping the factors. The single-degree query equals the matching block of the all-degree query, whichever degrees are requested first.',
 [I,C,H],'all degree triples (equal or unequal, valid or outside the triangle), both orders, any order of queries',
 'The table is generated on the fly; tests check a handful of entries of low degree, while a wrong coefficient of one triple silently breaks equivariance of models only at that degree combination.',
 ['e3x/so3/irreps.py','e3x/so3/_clebsch_gordan_lut.py','e3x/so3/_symbolic.py','e3x/so3/_common.py'],
 [('symbolic real Clebsch-Gordan generation','e3x/so3/_symbolic.py:_clebsch_gordan'),('table slicing/permutation','e3x/so3/irreps.py:clebsch_gordan')],
 'return values of e3x.so3.clebsch_gordan and clebsch_gordan_for_degrees')
p('P03','Rotation constructors return the documented proper rotations',
 'Axis-angle, Euler-angle, alignment and random constructors always return proper rotation matrices (orthogonal, determinant +1) that act as documented on row vectors: counterclockwise about the axis, x-then-y-then-z for Euler angles, and shortest-arc alignment of the first vector with the second even for parallel, nearly antiparallel and exactly antiparallel vectors. Extracting Euler angles and rebuilding reproduces the rotation, including at and near gimbal lock, and random rotations are deterministic per key, proper for every perturbation and count, uniformly distributed at full perturbation, and limited to a turn of at most perturbation times 180 degrees.',
 [I],'all axes (any length), angles, vector pairs, PRNG keys, perturbation values (including out-of-range), counts, batch shapes, float32 and float64',
 'Degenerate configurations (antiparallel, gimbal lock, non-unit axis, tiny vectors) are measure-zero for random tests, and the convention can silently flip for combinations the samples do not separate.',
 ['e3x/so3/rotations.py','e3x/ops/safe.py'],
 [('Euler-Rodrigues formula','e3x/so3/rotations.py:rotation'),('antiparallel handling','e3x/so3/rotations.py:alignment_rotation'),('gimbal-lock handling','e3x/so3/rotations.py:euler_angles_from_rotation'),('quaternion slerp','e3x/so3/rotations.py:random_rotation')],
 'return values of e3x.so3.rotation, rotation_euler, alignment_rotation, euler_angles_from_rotation, random_rotation')
p('P04','Wigner-D matrices represent rotations on every degree',
 'For every rotation matrix, maximum degree and ordering, the Wigner-D matrix is block diagonal over degrees, orthogonal, equals the identity for the identity rotation, turns products of rotations into products of matrices, and rotates spherical harmonics exactly as rotating their argument does. The result is elementwise in batched rotations and its derivatives with respect to the rotation entries are finite.',
 [I,C],'all rotations (random, axis-aligned, identity, 180-degree, batched), all max_degree, both orders, float32 and float64',
 'Homomorphism and intertwining are universally quantified over pairs of rotations and degrees; tests sample few rotations and low degrees.',
 ['e3x/so3/rotations.py','e3x/so3/_wigner_d_lut.py','e3x/so3/_symbolic.py','e3x/so3/_common.py'],
 [('rotation-matrix-monomial table','e3x/so3/_wigner_d_lut.py'),('block assembly','e3x/so3/rotations.py:wigner_d')],
 'return values and derivatives of e3x.so3.wigner_d')
p('P05','Irreps and traceless symmetric tensors convert losslessly',
 'For every degree, order and normalization, converting an irrep to a Cartesian tensor yields a symmetric traceless tensor and converting back returns the same irrep, and vice versa for traceless symmetric tensors. The conversion commutes with rotation (each tensor index rotated versus the irrep rotated), maps the harmonics of a vector to the traceless part of its outer power, and the traceless-symmetric predicate accepts exactly the tensors that are symmetric in all index pairs and traceless within tolerance.',
 [I,C],'all degrees 0..6+, batch shapes, orders, normalizations, rotations, and perturbed non-symmetric or traced tensors',
 'A wrong coefficient in one component, or a predicate that forgets one index permutation, is visible only for specific tensors; tests sample few.',
 ['e3x/so3/irreps.py','e3x/so3/_tensor_conversion_lut.py','e3x/so3/_tensor_conversion_lut.npz'],
 [('compression/expansion indices','e3x/so3/irreps.py:_tensor_compression_indices'),('conversion table','e3x/so3/_tensor_conversion_lut.py')],
 'return values of e3x.so3.irreps_to_tensor, tensor_to_irreps, is_traceless_symmetric')
p('P06','Quadrature grids integrate the promised polynomials exactly',
 'Every Lebedev and Delley grid returned consists of unit vectors with weights summing to one and integrates every polynomial (all monomials and harmonics) up to the requested precision exactly. Asking by precision returns the smallest grid reaching it (the most precise one if none does), asking by point count returns the most precise grid that does not exceed it (the smallest grid if none fits), and giving both or neither is rejected.',
 [I,C],'all precision and num requests (in range, between grids, out of range, negative), both families, all polynomials up to the precision',
 'The selection rule is over all integers and exactness over all polynomials; tests sample a few of each, so a selection off by one grid or one corrupt weight can survive.',
 ['e3x/so3/quadrature.py','e3x/so3/_lebedev_grids.npz','e3x/so3/_delley_grids.npz'],
 [('grid selection','e3x/so3/quadrature.py:_load_grid')],
 'return values of e3x.so3.lebedev_quadrature and delley_quadrature')
p('P07','Lookup-table caches never change results, for any history or fault',
 'For every history of requests (degrees growing, shrinking, repeated, across restarts and processes, with caches absent, partial, complete, pre-generated in parallel or read-only), values computed with a disk cache equal those computed without one. A cache write that fails does not fail the computation, and a crash or torn write at any point, concurrent writers, or a damaged cache file never lead to silently wrong coefficients: later requests either return correct values or raise.',
 [H,F,CP,S],'request sequences over table kinds and degrees, injected I/O errors, truncations at arbitrary byte offsets, kills during save, concurrent processes sharing one cache file',
 'Unit tests exercise single save/load round trips; the interplay of partial tables, extension, restarts, crashes and concurrent writers is a history and fault property.',
 ['e3x/so3/_lookup_table_generation_utility.py','e3x/so3/_clebsch_gordan_lut.py','e3x/so3/_wigner_d_lut.py','e3x/so3/_spherical_harmonics_lut.py','e3x/so3/_tensor_conversion_lut.py','e3x/config.py'],
 [('cache load with partial extension','e3x/so3/_clebsch_gordan_lut.py:_load_from_cache'),('cache save','e3x/so3/_lookup_table_generation_utility.py:_save_lookup_table_to_disk')],
 'values returned by the so3 API under configured cache paths; the cache files in a scratch directory; exit status of crashed workers')
p('P08','Every equivariant layer commutes with rotations and reflections',
 'For every configuration, parameter values and inputs, each equivariant layer (linear, tensor product, fused tensor product, projected tensor product, message passing, multi-head and self attention) and every activation, and any model composed of them with the radial-angular basis, gives the rotated/reflected output when its inputs are rotated/reflected. This holds for features with and without pseudotensors, mixed maximum degrees, both component orders, and dense or sparse neighbour lists.',
 [PR,I,C],'layer configurations (degrees, parity, heads, fused or not, biases, orders), random parameters, random features and graphs, random O(3) elements',
 'Equivariance is universally quantified over group elements, parameters and configurations; tests cover a few configurations with default-initialised parameters (zero biases hide bias errors).',
 ['e3x/nn/modules.py','e3x/nn/activations.py','e3x/nn/features.py','e3x/nn/wrappers.py'],
 [('per-degree/parity weights and masks','e3x/nn/modules.py:Tensor'),('bias only on invariants','e3x/nn/modules.py:Dense'),('matrix coupling','e3x/nn/modules.py:FusedTensor')],
 'layer outputs for transformed and untransformed inputs')
p('P09','Tensor product layers compute exactly the documented couplings',
 'Every component of the tensor product output equals the documented weighted sum over all admissible coupling paths (triangle rule and parity rule, one weight per path and feature, Clebsch-Gordan contraction), and the fused variant equals the documented matrix-product formula. The output has the documented maximum degree (larger input degree by default) and pseudotensor channel, forbidden paths never influence the output whatever their weights, and requests above the sum of input degrees or with mismatching features are rejected.',
 [I,C],'all combinations of input parity types, degrees, output degree, pseudotensor flag, orders, batch broadcasting, arbitrary weights and inputs',
 'A dropped, duplicated or misweighted coupling path keeps equivariance and shapes intact and is only visible against an independent evaluation of the formula on the configuration concerned.',
 ['e3x/nn/modules.py'],
 [('path masks and einsum','e3x/nn/modules.py:Tensor'),('vector/matrix basis change','e3x/nn/modules.py:FusedTensor')],
 'outputs of e3x.nn.Tensor and e3x.nn.FusedTensor under explicit parameters')
p('P10','Feature manipulations keep every irrep in its place',
 'Changing the maximum degree or type of features keeps each surviving irrep unchanged at its (parity, degree) position and fills all others with zeros, adding features equals adding irreps of equal parity and degree whatever their shapes, and features without pseudotensors behave exactly like zero-padded features with them. Rotating applies the Wigner-D matrix to the degree axis (single or batched), reflecting flips exactly the odd-parity irreps and is an involution, and even/odd degree masks partition the components by degree.',
 [I,C],'all shapes (parity 1/2, degrees, batch, features), all target degrees/types, any number of addends of mixed shape, dtypes',
 'Off-by-one slices or parity mix-ups appear only for specific combinations of source and target type and degree parity.',
 ['e3x/nn/features.py'],
 [('slice/pad logic','e3x/nn/features.py:change_max_degree_or_type'),('shape unification','e3x/nn/features.py:add')],
 'return values of e3x.nn.change_max_degree_or_type, add, rotate, reflect, even_degree_mask, odd_degree_mask')
p('P11','Activations are the documented gated nonlinearities',
 'Every activation equals its documented scalar function on the even scalar channel, and multiplies all other components (higher degrees and pseudotensors) of a feature by one common gate that depends only on that feature\'s even scalar, with gate times scalar equal to the activated scalar. Values and gradients are finite for all finite inputs for which the documented formula itself does not overflow, including zero scalars and very large magnitudes, and a feature\'s output never depends on other features or batch entries.',
 [I,C],'all activations and their parameters, all feature shapes, all scalar magnitudes including 0, kinks and overflow ranges, float32/float64',
 'Tests use moderate random values; overflow, removable singularities at zero and cross-feature leakage need hostile inputs.',
 ['e3x/nn/activations.py'],
 [('gated-linear factory','e3x/nn/activations.py')],
 'values and gradients of all e3x.nn activations')
p('P12','Indexed operations: sparse, dense and padded forms agree',
 'Gathers and indexed sum, min, max and softmax give the same result as the mathematical reduction over the listed neighbours for dense and sparse index lists, any batch dimensions, unsorted or repeated pairs, and any amount of padding (entries masked out or with index beyond the range), which never affects values or gradients of real entries. Converting an index list dense to sparse and back preserves the multiset of pairs, all-pairs lists contain each pair exactly once, and softmax weights of every nonempty neighbourhood are nonnegative and sum to one for arbitrarily large inputs. Graphs without pairs, elements without neighbours and batches without members are valid.',
 [I,C],'all index lists (empty rows, duplicates, unsorted, padded), batch shapes, trailing feature shapes, integer and float dtypes, keepdims on/off',
 'Neighbour-list shapes are data dependent and combinatorial; isolated nodes, padding amount and order of pairs are exactly what sampled tests leave out.',
 ['e3x/ops/indexed.py'],
 [('segmented/masked reductions','e3x/ops/indexed.py:_indexed_reduce'),('index conversions','e3x/ops/indexed.py:dense_to_sparse_indices')],
 'values and gradients of the e3x.ops indexed functions')
p('P13','Message passing and attention depend only on the listed graph',
 'Message passing and attention give the same outputs and parameter/input gradients for dense and sparse lists of the same pairs, for any order of the pairs, and for any amount of padding pairs or masked entries whatever values those carry. Relabelling nodes relabels outputs, evaluating a batch equals evaluating its members, nodes without neighbours (and graphs without any pairs) stay finite, and changing data of a node changes only outputs that list it as a neighbour (or query).',
 [I,C,PR],'all graphs (isolated nodes, self loops, repeated pairs), list formats, paddings, batch shapes, heads, cutoffs, layer options, parameters',
 'Tests use fixed small graphs without isolated or padded nodes; contamination through clamped padding indices only shows for special graphs and in gradients.',
 ['e3x/nn/modules.py','e3x/ops/indexed.py'],
 [('auto mask and segment count','e3x/nn/modules.py:MessagePass'),('softmax weights','e3x/nn/modules.py:MultiHeadAttention')],
 'outputs and gradients of e3x.nn.MessagePass, MultiHeadAttention, SelfAttention')
p('P14','Radial basis functions match their documented formulas',
 'For every number of functions and every distance in the documented range, the basic, reciprocal and exponential Bernstein, Chebyshev, Fourier and Gaussian bases and the sinc basis equal their closed forms (argument mappings, limits, decay constants and optional weighting included) and are ordered by index along a new last axis. Values and first derivatives match the closed forms and second derivatives are finite, including at and next to 0 and the limit (beyond which Bernstein and Chebyshev bases stay constant).',
 [I,C],'all families and mapping kinds, num 1..64+, limits, gammas, weighting flags, distances from 0 to far beyond the limit, float32/float64',
 'Closed forms must hold for each num and every x; tests check few nums, and numerically special points (x=0, x=limit, large num) are where implementations break.',
 ['e3x/nn/functions/bernstein.py','e3x/nn/functions/chebyshev.py','e3x/nn/functions/trigonometric.py','e3x/nn/functions/gaussian.py','e3x/nn/functions/mappings.py'],
 [('log-space Bernstein evaluation with custom derivative','e3x/nn/functions/bernstein.py:_bernstein'),('endpoint expansions','e3x/nn/functions/chebyshev.py:_chebyshev')],
 'values and derivatives of the e3x.nn radial functions')
p('P15','Cutoff, damping, switch, window and mapping functions are correct',
 'Cutoffs are one at zero, decrease monotonically, and are exactly zero with zero derivative from the cutoff radius on; the switch is zero below, one above and monotone between; damping vanishes at zero with all derivatives and tends to one; windows are the documented partition of the range; mappings are the documented monotone maps from one at zero to zero at infinity. All equal their closed forms for every parameter value, with finite and correct first and second derivatives over the whole nonnegative axis including the transition points.',
 [I,C],'all x in range including the exact boundaries and their floating-point neighbours, all cutoff/x0/x1/gamma/limit/num parameters, float32/float64, derivatives up to order 3',
 'Smoothness and exact zero beyond the cutoff are for-all statements; the failures hide at boundary floats and in higher derivatives.',
 ['e3x/nn/functions/cutoff.py','e3x/nn/functions/damping.py','e3x/nn/functions/switch.py','e3x/nn/functions/window.py','e3x/nn/functions/mappings.py'],
 [('masked exponentials','e3x/nn/functions/cutoff.py'),('custom derivative','e3x/nn/functions/switch.py:_smooth_switch_jvp_impl')],
 'values and derivatives of the functions')
p('P16','The radial-angular basis is radial times angular times cutoff/damping',
 'For every vector, degree and function choice, each basis component equals radial function times angular function of the direction times cutoff (all degrees) times damping (degrees above zero only), laid out with a singleton parity axis, and the optional extra return values are the cutoff values and the norms, in that order. Zero vectors (and all vectors whose squared length is representable) give finite values and gradients, vectors beyond the cutoff contribute exactly nothing, results are elementwise in the batch, and the learnable-decay variant equals the plain basis at the corresponding decay constant, initially the configured one.',
 [I,C],'all vectors incl. zero/huge/tiny, degrees, nums, radial/cutoff/damping/angular choices, return flags, orders',
 'The combinations of optional arguments and special vectors multiply beyond what fixed tests enumerate.',
 ['e3x/nn/wrappers.py'],
 [('basis assembly','e3x/nn/wrappers.py:basis'),('learnable gamma','e3x/nn/wrappers.py:ExponentialBasis')],
 'return values and gradients of e3x.nn.basis and e3x.nn.ExponentialBasis')
p('P17','Safe norms equal the true norm for every magnitude and batch',
 'The safe norm equals the exact Euclidean norm over the chosen axes to floating-point accuracy for all finite inputs from subnormal-scale to near-overflow magnitudes, and normalization returns unit vectors (or the input itself when its norm is almost zero). First derivatives are finite everywhere (zero at the zero vector) and equal to x/|x| elsewhere, keepdims and axis behave like the standard norm, and the result for one slice never depends on the values in other slices of the array.',
 [I,C],'all shapes, axes (None, negative, tuples), keepdims, magnitudes 1e-38..1e38 mixed within one array, zeros, float32/float64, forward and reverse derivatives',
 'Overflow and underflow and cross-slice interference need adversarial magnitudes mixed in one batch.',
 ['e3x/ops/safe.py'],
 [('rescaled norm with custom derivative','e3x/ops/safe.py:norm')],
 'values and derivatives of e3x.ops.norm, normalize, normalize_and_return_norm')
p('P18','Tensor initializers have the documented variance and sparsity',
 'Every tensor-product initializer returns weights that are exactly zero on forbidden or unused coupling paths and have zero mean and the documented (fan-dependent) variance on all others, for every parity/degree shape, mode and distribution. The same key gives the same weights, and a freshly initialised tensor product of unit-variance inputs has outputs of near-unit variance in each reachable irrep (the fused tensor product: in its scalars, and of the same order of magnitude elsewhere).',
 [I,C],'all kernel shapes (parity 1/2, degrees), modes, distributions, scales, keys; statistical over many features',
 'Fan counting per output irrep is combinatorial in parity and degree; a fan wrong for one combination changes statistics only.',
 ['e3x/nn/initializers.py','e3x/nn/modules.py'],
 [('fan computation','e3x/nn/initializers.py')],
 'arrays returned by e3x.nn.initializers.* and layer parameters')
p('P19','Results are the same under jit, vmap, batching and precision',
 'Every public numerical function and layer returns the same values when called eagerly, under jit, under vmap versus with batch dimensions, and inside gradient transformations, and leaks no tracers. Forward-mode, reverse-mode and finite-difference derivatives agree, and double-precision results agree with single-precision ones to single precision, double-precision inputs giving results that are double precision throughout.',
 [PR,I,C],'all public functions x transformations (jit, vmap, jvp, vjp, nested) x shapes x precision',
 'Transformation transparency is a for-all over programs; tests call functions eagerly with few shapes.',
 ['e3x/so3','e3x/nn','e3x/ops'],
 [('compile-time evaluated tables','e3x/so3/irreps.py'),('custom derivatives','e3x/ops/safe.py')],
 'outputs under each transformation')
p('P20','Global defaults take effect and explicit arguments always win',
 'After changing the global component order, normalization or fused-tensor default, every function and layer called without the corresponding argument behaves exactly as if the new value had been passed explicitly, and calls that pass the argument are unaffected by the default. Restoring the default restores the behaviour, invalid settings are rejected without changing anything, and changing one setting never affects another.',
 [H,C],'all sequences of default changes interleaved with calls to all functions and layers that have such defaults',
 'Depends on the history of configuration changes relative to imports, construction and calls, which tests do not vary.',
 ['e3x/config.py','e3x/so3/irreps.py','e3x/so3/rotations.py','e3x/nn/modules.py','e3x/nn/wrappers.py'],
 [('global configuration','e3x/config.py:Config')],
 'outputs of all functions with configurable defaults after set_* calls')
p('P21','Matrices assembled from irreps are equivariant and complete',
 'For every list of degrees, multiplicity and maximum degree, the square matrix assembled from irreps rotates by conjugation with the block-diagonal Wigner-D matrices when the irreps rotate, uses every supplied irrep exactly once up to the maximum degree (so it is linear and injective in them), and equals the sum of the Clebsch-Gordan blocks (plus the identity if requested). Multiplicity counts and weight shapes match what assembly consumes, weights have the documented scale, and reported traces equal the traces of the square sub-blocks.',
 [I,C],'all degree lists (repeats, unsorted), multiplicities, max degrees, identity shift on/off, rotations',
 'This module is untested in the default suite; block bookkeeping errors appear only for particular degree lists and multiplicities.',
 ['e3x/matrix/matmat.py'],
 [('block assembly','e3x/matrix/matmat.py:make_square_matrix')],
 'return values of e3x.matrix functions')
p('P22','Derivative and inverse helpers return the exact quantities',
 'Evaluating a function and its derivatives up to any order returns the function value followed by the exact elementwise derivatives of each order for every differentiable elementwise function and input shape. The inverse softplus is the inverse of softplus for all positive normal numbers without overflow or loss of accuracy.',
 [I,PR],'analytic test functions, orders 0..8, shapes, dtypes; positive inputs from 1e-30 to 1e30',
 'Needs oracle derivatives of arbitrary order and extreme magnitudes.',
 ['e3x/ops/helpers.py'],
 [('nested forward differentiation','e3x/ops/helpers.py:evaluate_derivatives')],
 'return values of e3x.ops.evaluate_derivatives and inverse_softplus')
p('P23','Invalid arguments are rejected instead of silently accepted',
 'Every documented invalid argument (negative degrees, wrong trailing shapes, inconsistent features, batch or index shapes, unknown normalizations or kinds, nonpositive cutoffs, reversed switch limits, both or neither index list, missing mask or segment count, feature counts not divisible by heads, missing basis) raises an error of the documented type. No such call returns a value, and valid arguments at the edge of the accepted range are never rejected.',
 [I,C],'all public entry points with documented error conditions x shapes/values violating exactly one condition, and their valid neighbours',
 'A relaxed or inverted check only shows for the specific invalid shape; broadcasting then silently produces wrong numbers.',
 ['e3x/so3','e3x/nn','e3x/ops'],
 [('shape checks','e3x/nn/features.py:_extract_max_degree_and_check_shape'),('index checks','e3x/ops/indexed.py:_determine_index_type')],
 'raised exception types')
p('P24','Calls are pure: no hidden state, mutation or cross-thread effect',
 'For every interleaving of calls to the public functions and layers, from one or several threads, each call returns exactly what it returns when made alone. No call modifies its input arrays, the global configuration, returned arrays of earlier calls or the global random state.',
 [S,H],'random histories of calls with mixed degrees/orders/dtypes, replayed in different orders and from up to 8 concurrent threads',
 'Caching or global state bugs need particular call sequences or interleavings.',
 ['e3x/so3','e3x/nn','e3x/ops','e3x/config.py'],
 [('table generation per call','e3x/so3/_lookup_table_generation_utility.py')],
 'bitwise digests of results of identical calls across histories and threads')
p('P25','Linear and embedding layers follow their documented algebra',
 'The linear layer applies one separate weight matrix to each (parity, degree) block along the feature axis and adds a bias to the even scalar only, so it is affine in that channel and linear elsewhere, and never mixes degrees, orders, parities or batch entries. The embedding returns the table row of each index as scalar features, and the projected tensor product equals the tensor product of the two halves of one linear projection.',
 [I,C],'all shapes, parity types, degrees, feature counts, bias on/off, parameters, dtypes',
 'Wrong block boundaries or bias placement for one parity/degree combination pass shape and equivariance tests with zero biases.',
 ['e3x/nn/modules.py'],
 [('per-degree dense layers','e3x/nn/modules.py:Dense'),('table lookup','e3x/nn/modules.py:Embed')],
 'outputs of e3x.nn.Dense, Embed, TensorDense under explicit parameters')
p('P26','Attention weights are normalised, cutoff-aware and per head',
 'For every query the attention output is a convex combination of its neighbours\' values per head: constant values pass through unchanged, equal logits give the plain mean, and listing a neighbour k times multiplies its weight by k. Scaling all cutoff values of a query changes nothing, a zero cutoff acts exactly like removing the pair, weights depend only on invariant quantities and stay finite and normalised for arbitrarily large logits, and separate heads attend independently.',
 [I,C],'all graphs, heads, feature counts, cutoffs, encodings on/off, parameters and input scales',
 'Normalisation and cutoff semantics hold for every neighbourhood; tests only compare shapes and equivariance on one graph.',
 ['e3x/nn/modules.py','e3x/ops/indexed.py'],
 [('indexed softmax','e3x/ops/indexed.py:indexed_softmax'),('head split','e3x/nn/modules.py:MultiHeadAttention')],
 'outputs of e3x.nn.MultiHeadAttention and SelfAttention')
p('P27','Compiler hints are true and requested precision reaches every product',
 'Every gather and scatter the library executes keeps the promises it gives to the compiler: indices are only declared sorted when they are (in particular the flag indices_are_sorted is only set when the caller set it or the library built the indices itself), only declared unique when they are, and no element is overwritten twice with different values in unspecified order. A precision requested for a layer or matrix construction applies to every matrix product it performs, in values and derivatives, including all nested layers. Hence results do not depend on the backend that executes them.',
 [I,C,PR],'all indexed operations, layers and functions; unsorted, sorted, reversed, padded and batched index lists; values, gradients, tangents and vectorised forms; all precisions and nested layers',
 'The CPU backend ignores both hints and precisions, so no result on the machine that runs the tests can differ; on accelerators a wrong hint corrupts results and a lost precision breaks equivariance.',
 ['e3x/ops/indexed.py','e3x/nn/modules.py','e3x/matrix/matmat.py'],
 [('segment reductions','e3x/ops/indexed.py:_indexed_reduce'),('degree-wise expansion of kernels','e3x/nn/modules.py:Tensor'),('precision handed to nested layers','e3x/nn/modules.py:_Conv')],
 'gather, scatter and dot_general operations (with the index values that occur) of traced library programs')
p('P28','Parameters and computations have the requested precision',
 'For every layer and every combination of input, parameter and computation precision (half, bfloat, single, double), parameters are created in the requested parameter precision, and results have the requested computation precision, or the common precision of inputs and parameters if none is requested. The values and gradients agree with the same layer evaluated in higher precision up to the rounding of that precision, so neither constants nor intermediate steps silently widen or narrow a computation, and the computation precision does not influence initial values. Feature manipulations, activations and indexed operations return the precision of their inputs.',
 [C,PR],'all layers with all combinations of precisions, nested layers, with and without pseudotensors, dense and sparse index lists; all feature functions, activations and indexed operations',
 'Tests use one precision per call; precision is decided jointly by inputs, parameters, constants and options in every nested layer.',
 ['e3x/nn/modules.py','e3x/nn/features.py','e3x/ops/indexed.py'],
 [('promotion to the computation precision','e3x/nn/modules.py:Tensor'),('precision handed to nested layers','e3x/nn/modules.py:_Conv')],
 'dtype and values of parameters, results and gradients of layers run in several precisions')
with open('/verif/properties.jsonl','w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q)+'\n')
print(len(P))
