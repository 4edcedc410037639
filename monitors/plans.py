"""Per-property run plans: shards (0 = float32, 1 = float64), tables, budgets."""

PLANS = {}


def add(pid, level='exploration', shards=(0, 0, 0, 0, 1, 1, 1, 1), tables=None,
        tables_thorough=None, budget=60, budget_thorough=600, rule='',
        technique='runtime monitoring: independent numerical oracle on observed calls', **kw):
  PLANS[pid] = dict(level=level, shards=list(shards), tables=tables or {},
                    tables_thorough=tables_thorough or tables or {},
                    budget=budget, budget_thorough=budget_thorough, rule=rule,
                    technique=technique, **kw)


def plan(pid, tier):
  p = dict(PLANS[pid])
  if tier == 'thorough':
    p['budget'] = p['budget_thorough']
    p['tables'] = p['tables_thorough']
    if 'shards_thorough' in p:
      p['shards'] = p['shards_thorough']
  return p


add('P01', rule='A case is one (function, max_degree, order, normalization, vector '
    'family) evaluated by the real library; every degree 0..15 occurs in both '
    'precisions. Distinct = distinct case descriptors.')
add('P02', tables=dict(cg=4), tables_thorough=dict(cg=6),
    rule='A case is one coupling request (maximum degrees or single degrees, order) '
    'or one pair of vectors; all triples of maximum degrees up to the bound are '
    'enumerated in thorough and sampled in quick. Distinct = distinct descriptors.')
add('P03', rule='A case is one batch or single call of a rotation constructor; '
    'families include exactly/nearly (anti)parallel vectors, gimbal lock and all 24 '
    'axis-aligned rotations. Distinct = distinct argument descriptors.')
add('P04', tables=dict(wd=4), tables_thorough=dict(wd=5),
    rule='A case is one Wigner-D evaluation batch (degree, order, set of rotations); '
    'the special batch holds all 24 axis-aligned rotations, half turns and tiny '
    'turns. Distinct = distinct descriptors.')
add('P05', rule='A case is one (degree, order, normalization, batch shape) conversion '
    'of random irreps/harmonics or one tensor given to the predicate. Distinct = '
    'distinct descriptors.')
add('P06', rule='A case is one grid integrated against all Legendre degrees and random '
    'monomials, or one selection request around every grid boundary. Distinct = '
    'distinct descriptors.')
add('P09', tables=dict(cg=4), tables_thorough=dict(cg=6),
    rule='A case is one (layer, parities, degrees, output degree, pseudotensor flag, '
    'order, features, broadcast batch shapes) with random values for all weights, '
    'including those on forbidden paths. Distinct = distinct configurations.')
add('P10', rule='A case is one call of a feature manipulation for one combination of input '
    'and output parity axes, degrees, batch shapes and rotation; the combinations of '
    'parities and degrees are enumerated. Distinct = distinct descriptors.')
add('P25', tables=dict(cg=4), tables_thorough=dict(cg=5),
    rule='A case is one layer configuration (parity axis, degree, features, batch, '
    'bias, tensor kind) with random parameters and inputs. Distinct = distinct '
    'configurations.')
add('P11', rule='A case is one activation (all 15 plus aliases, with parameter variants) '
    'on features whose scalars cover 0, subnormal to 1e12 magnitudes, all kinks and '
    'overflow thresholds of exp. Distinct = distinct (function, parameters, shape).')
add('P12', rule='A case is one operation on a random directed multigraph (unsorted, with '
    'repeated pairs, an isolated node, junk-filled padding) in dense and sparse form '
    'with 0-2 batch axes. Distinct = distinct (operation, shapes, padding, magnitude).')
add('P08', tables=dict(cg=4), tables_thorough=dict(cg=5), grace=200,
    rule='A case is one layer or composed model configuration with random weights, '
    'observed before and after 3-4 O(3) elements (generic, axis-aligned, improper). '
    'Distinct = distinct configurations.')
add('P13', tables=dict(cg=3), tables_thorough=dict(cg=4), grace=200,
    rule='A case is one layer configuration with random weights on one random '
    'multigraph, observed in several layouts (dense/sparse, shuffled, padded with junk, '
    'masked) or under relabelling, locality and batching probes. Distinct = distinct '
    'configurations.')
add('P26', technique='runtime monitoring: metamorphic and reference oracles on observed attention outputs', grace=200,
    rule='A case is one attention layer (heads, features, parities, degrees, encodings, cutoffs) with '
    'chosen parameters on one random multigraph, probed through transparent value/output projections. '
    'Distinct = distinct configurations per probe.')
add('P07', level='fault_enumeration', budget=90, grace=200,
    technique='runtime monitoring: fault injection (LD_PRELOAD shim), crash points and interleavings of cache writes',
    rule='A case is one request history, one (file operation of a cache write, fault mode) pair, one '
    'damaged-file survey or one interleaving of two writers. Thorough enumerates all operations of each '
    'write with four fault modes; quick takes the first, the last and random ones. Distinct = distinct descriptors.')
add('P14', technique='runtime monitoring: extended-precision closed-form oracle on values and derivatives',
    rule='A case is one function variant (family, mapping kind, weighting, number of functions, limit, gamma) '
    'evaluated with first and second derivatives at about 50 distances including 0, subnormal, next to the limit '
    'and far beyond. Distinct = distinct variants.')
add('P15', technique='runtime monitoring: extended-precision closed-form oracle on values and derivatives',
    rule='A case is one function with one parameter set (cutoff, gamma, x0/x1, num/limit, kind) evaluated with first and '
    'second derivatives along four differentiation routes at about 120 points: zero, subnormal, exact knots, their '
    'float neighbours and huge values. Distinct = distinct (function, parameters).')
add('P16', technique='runtime monitoring: extended-precision composition oracle on observed basis values and gradients',
    rule='A case is one combination of radial function, angular normalization, order, degree, number of functions, '
    'cutoff, damping and return flags on about 30 vectors (zero, subnormal, exactly at the cutoff, huge, axis-aligned). '
    'Distinct = distinct combinations.')
add('P17', technique='runtime monitoring: extended-precision norm oracle and slice-interference monitor',
    rule='A case is one call of norm/normalize for one (shape, axis, keepdims) with values spanning the whole exponent range '
    '(per slice, within a slice or side by side), zeros and signed zeros, with forward, reverse and second derivatives. '
    'Distinct = distinct (shape, axis, keepdims, largest magnitude).')
add('P18', tables=dict(cg=3), tables_thorough=dict(cg=4),
    technique='runtime monitoring: statistical oracle (7.5 sigma) and sparsity monitor on observed weights',
    rule='A case is one initializer (name, mode, distribution, scale, kernel shape, dtype) with 2048 samples per coupling '
    'path, or one freshly initialised layer configuration. Distinct = distinct configurations.')
add('P21', tables=dict(cg=4), tables_thorough=dict(cg=6),
    technique='runtime monitoring: reference assembly, isometry and equivariance monitors on observed matrices',
    rule='A case is one (degree list, multiplicity, maximum degree, supplied irreps, identity shift, precision) or one '
    'rectangle/weight/combination request; lists are sorted, reversed, repeated and random. Distinct = distinct descriptors.')
add('P22', technique='runtime monitoring: extended-precision Taylor oracle on observed derivatives',
    rule='A case is one (function, shape, order, transformation) with closed-form or 60-digit Taylor derivatives, one random '
    'derivative tower given by custom rules, or one grid of about 150 positive numbers over the whole exponent range. '
    'Distinct = distinct descriptors.')
add('P23', tables=dict(cg=4), tables_thorough=dict(cg=4),
    technique='runtime monitoring: hostile-argument workload with an exception-type oracle',
    rule='A case is one argument set that violates exactly one documented condition (or is valid at its edge), with random '
    'shapes and values, given eagerly or traced. Distinct = distinct (condition, shapes, values).')
add('P20', tables=dict(cg=3, wd=3), tables_thorough=dict(cg=3, wd=3),
    technique='runtime monitoring: model of the configuration replayed along observed histories, bitwise comparison of results',
    rule='A case is one call of a function or layer under one configuration, without, with some or with all configurable '
    'arguments, along a random history of setting changes (also invalid, resetting and cache settings). Distinct = distinct '
    '(subject, configuration, explicit arguments).')
add('P19', budget=70, tables=dict(cg=4, wd=4), tables_thorough=dict(cg=4, wd=4), grace=200,
    technique='runtime monitoring: metamorphic monitors over observed transformations (jit, vmap, batching, loops, derivatives)',
    rule='A case is one program of the catalogue (every public function and layer, plus a small model) with random arguments '
    'and configuration, observed under 4-8 value transformations in random order, batched in three ways, and under forward, '
    'reverse, second and numerical differentiation. Distinct = distinct (program, configuration).')
add('P24', tables=dict(cg=4, wd=4), tables_thorough=dict(cg=4, wd=4), grace=300, budget=75,
    technique='runtime monitoring: bitwise comparison of recorded results across histories, threads and processes, global-state monitor',
    rule='A case is one job (program, precision, eager/compiled/differentiated), one replayed history, one group of 2-8 concurrent '
    'threads or one fresh process. Distinct = distinct descriptors.')

add('P27', tables=dict(cg=4, wd=4), tables_thorough=dict(cg=4, wd=4), grace=200,
    technique='runtime monitoring: sanitizer for promises to the compiler on executed programs, precision monitor on matrix products',
    rule='A case is one program (indexed operation, layer or catalogue program, with configuration and list order) in one form '
    '(value, gradient, tangent, vectorised), whose executed gathers and scatters are checked on the indices that occurred, or one '
    'layer whose matrix products are inspected for the requested precision. Distinct = distinct descriptors.')
add('P28', tables=dict(cg=4, wd=4), tables_thorough=dict(cg=4, wd=4), grace=200,
    technique='runtime monitoring: precision monitor on parameters, results and gradients, comparison with the widest precision',
    rule='A case is one layer with one combination of parameter, computation and input precisions (half, bfloat, single, double), or '
    'one feature function, activation or indexed operation with one input precision. Distinct = distinct descriptors.')
