"""The checks: for each property, its harness files, the slinky libraries they need, and the harnesses to run."""
CHECKS = {}


def check(prop, files, libs, harnesses, assumptions=(), **kw):
    hs = []
    for h in harnesses:
        name, bounds = h[0], h[1]
        d = {"name": name, "bounds": bounds}
        if len(h) > 2:
            d.update(h[2])
        hs.append(d)
    CHECKS[prop] = dict(property=prop, files=list(files), libs=list(libs), harnesses=hs, assumptions=list(assumptions), **kw)


check("C01", ["c01_arithmetic.cc"], ["base"], [
    ("euclid_i32", "all pairs of int32 operands (except INT_MIN / -1)"),
    ("euclid_i64", "all pairs of int64 operands (except INT64_MIN / -1)"),
    ("div_zero_default", "all int64 dividends and defaults"),
    ("rounding_i64", "all |a| <= 2^60, 1 <= b <= 2^60"),
    ("rounding_i32", "all |a| <= 2^28, 1 <= b <= 2^28"),
    ("add_sub_i64", "all pairs of int64 operands"),
    ("arith_i32", "all pairs of int32 operands: add, sub, mul; saturating, checked, predicate"),
    ("mul_i64_const", "all int64 multiplicands times 19 fixed int64 multipliers, both operand orders"),
    ("gcd_lcm", "0 <= a, b <= 24 (thorough: 60)"),
    ("sign_pow2_staircase", "all int64 (sign, is_power_of_two); |x| <= 100, |a| <= 20, |b|, |c| <= 8 (staircase)"),
])

check("C02", ["c02_modulus.cc"], ["base"], [
    ("add_sub", "moduli 0..6 (thorough 12), all remainders, members m*y+r for |y| <= 2^20"),
    ("mul", "moduli 0..6 (thorough 12), all remainders, members m*y+r for |y| <= 3"),
    ("div", "dividend moduli 0..12 (24), divisor moduli 0..6 (12), dividends |y| <= 2^12, divisors |y| <= 2"),
    ("mod", "moduli 0..10 (16) and 0..6 (12), dividends |y| <= 2^12, divisors |y| <= 2"),
    ("unite", "moduli 0..10 (16), all remainders, members |y| <= 2^20"),
    ("intersect", "moduli 0..10 (16), all remainders, |x| <= 2^12"),
    ("large", "10 moduli up to 2^62+2, 4 remainders up to 2^61, members within 1 period"),
])

check("C03", ["c03_buffer.cc"], ["runtime"], [
    ("address", "rank 0..3, mins [-100, 100] (thorough 1000), extents 0..6 (20), strides 4, 0, -12, 40, folds 1..3 (5) or none, coordinates [-1200, 1200]"),
    ("crop", "rank 0..2, crops to any [lo, hi] in [-150, 150]"),
    ("slice_at", "rank 1..3, every dimension, slices at, in bounds and without a coordinate"),
    ("slice_many", "rank 0..5 (thorough 6), every set of dimensions"),
    ("translate", "rank 1..3 (unfolded), offsets [-100, 100]"),
    ("dims", "bounds in [-2^60, 2^60]; folds 1..6 (thorough 12) with |bounds| <= 1000"),
    ("typed", "buffer<int, 4> of rank 0..3: unslice, mutable_dim, copies and moves"),
])

check("C04", ["c04_layout.cc"], ["runtime"], [
    ("automatic", "rank 0..3 (thorough 4), extents 0..4, folds 1..3 or none, element sizes 1, 12 (4), alignments 1, 8 (64)"),
    ("one_fixed", "same without folds, any one dimension has a fixed stride 0 or +-[elem, 200]"),
    ("one_fixed_folded", "same with folds", {"thorough_only": True}),
    ("two_fixed", "any two dimensions have fixed strides that do not overlap"),
    ("overflow", "rank 0..3, one extent in [1, 2^62+5], others out of 6 up to 2^62-1, element sizes up to 2^62, fixed strides +-2^40"),
    ("validate", "rank 0..2, one extent in [0, 2^61], strides up to 2^61 of both signs, any base address"),
    ("memory", "raw_buffer::allocate, make, make_copy, make_scalar: rank 0..3, extents 0..3, alignments 1..64; every element written and read back"),
    ("memory_negative", "same, the last dimension has a negative stride"),
    ("statements", "allocate statements, heap, stack and automatic; rank 0..2"),
])

check("C05", ["c05_copy.cc"], ["runtime"], [
    ("copy_1d", "copy: rank 0..1, extents 0..3, dense, padded, reversed and broadcast strides, folds; element sizes 1 and 4, symbolic elements"),
    ("copy_2d", "copy: rank 2 from rank 0..2, extents 1..2, transposed layouts"),
    ("copy_2d_folded", "same with folds of both buffers"),
    ("copy_more_dims", "the source has one more dimension"),
    ("pad_copy_1d", "padded copy: rank 1, source bounds anywhere around the destination's; scalar and buffer padding"),
    ("pad_copy_2d", "padded copy: rank 2"),
    ("pad_copy_2d_buffer", "padded copy with a padding buffer of rank 2"),
    ("pad_only_1d", "pad, rank 1"),
    ("pad_only_2d", "pad, rank 2"),
    ("pad_in_place", "padded copy whose source is the cropped destination, rank 1..2"),
    ("fill", "broadcast of one element of 1..40 bytes to rows of 0..40 (thorough 70) elements"),
])

check("C06", ["c06_traverse.cc"], ["runtime"],
      [(k + "_alone", "one buffer of rank 0..3, extents 0..4 (0..2 for rank 3), mins [-10, 10], dense, padded, broadcast, reversed and folded dimensions") for k in ("element", "slice")] +
      [(k + "_pair", "two buffers of rank 0..2, extents 0..3, the second with any bounds around the first or null") for k in ("element", "slice")] +
      [(k + "_pair_1d", "two buffers of rank 1, extents 0..4, folds 1..2 (thorough 3)") for k in ("element", "slice")] +
      [(k + "_pair_folded", "two buffers of rank 2, extents 0..2, folds 1..2 (thorough 3)") for k in ("element", "slice")] +
      [(k + "_pair_3d", "two buffers of rank 3 and 2..3 with the same bounds, extents 1..2") for k in ("element", "slice")] +
      [(k + "_" + n, n + " buffers of rank 1..2, one of which differs") for k in ("element", "slice") for n in ("three", "five")])

check("C07", ["c07_dims.cc"], ["runtime"], [
    ("sort_one", "rank 0..3, extents 1..2, strides [-4, 16]"),
    ("sort_one_folded", "rank 0..2, contiguous, padded or broadcast dimensions with folds 2..3"),
    ("sort_pair", "rank 0..2 and one less, other bounds"),
    ("fuse_one", "rank 0..2, extents 1..3, any strides in [-4, 16]"),
    ("fuse_one_folded", "contiguous, padded or broadcast dimensions with folds 2..3"),
    ("fuse_one_3d", "rank 3"),
    ("fuse_pair", "two buffers of rank 0..2 with different bounds"),
    ("fuse_pair_folded", "two buffers of rank 2, folds 2..3"),
    ("fuse_ranks", "two buffers of different ranks"),
    ("optimize_one", "rank 0..3, extents 1..2, folds"),
    ("optimize_pair", "two buffers of rank 0..2 with different bounds"),
    ("optimize_pair_folded", "same with folds"),
    ("optimize_ranks", "two buffers of different ranks"),
    ("optimize_pair_3d", "two buffers of rank 3"),
    ("optimize_three", "three buffers of rank 2"),
    ("fuse_dims", "two dimensions with extents 0..3, strides [-9, 18], folds 2..3 (thorough 4), all three kinds of fuse"),
])

check("C08", ["c08_eval.cc"], ["runtime"], [
    ("nodes_first", "two nested operators from 19, node constructors; leaves variables or constants in [-3, 4]; variables |x| <= 10^6 ([-12, 12] beside *, /, %; thorough 40)"),
    ("nodes_second", "same, nested in the second operand"),
    ("nodes_third", "same, nested in the third operand of select"),
    ("operators_first", "same, built with the operators of the API"),
    ("operators_second", "same, nested in the second operand"),
    ("constant_folding", "operators of the API on constants: |c| <= 2^60 ([-30, 30] for *, /, %)"),
    ("helpers", "16 helper expressions, variables in [-24, 24], alignments 1..6 (thorough 12)"),
    ("short_circuit", "5 shapes of and_then, or_else, select over user functions with counters"),
    ("lets", "three lets, every choice of names out of 3, 3 shapes"),
    ("buffers", "2-d buffer, mins [-5, 5], extents 0..4 and 0..3, stride 0..16, folded or not, coordinates [-8, 12]"),
])

RULES = ["min", "max", "add", "sub", "mul", "div", "mod", "less", "equal", "logical_and", "logical_or", "logical_not", "select", "call"]
HEAVY = ("min", "max", "less")  # Through the whole simplifier: thorough tier only.
check("C09", ["c09_min.cc", "c09_max.cc", "c09_arith.cc", "c09_less.cc", "c09_logic.cc", "c09_exprs.cc"], ["builder"],
      [("facts", "each of 19 operators over variables and constants in [-8, 8] ([-3, 4] for *, /, %), with constant, one-sided, symbolic or alignment facts about x; "
        "variables |v| <= 1000 (12 with *, /, %; thorough 24)"),
       ("nested_first", "every pair of nested operators, the inner one in the first operand; no facts"),
       ("nested_second", "same, second operand (of non-commutative operators in the quick tier)"),
       ("nested_third", "same, third operand of select"),
       ("nested_first_bounded", "same as nested_first, with x in [lo, hi]", {"thorough_only": True}),
       ("nested_second_bounded", "same as nested_second, with x in [lo, hi]", {"thorough_only": True}),
       ("nested_first_aligned", "same as nested_first, with x = r mod m, m in 2..6", {"thorough_only": True}),
       ("intervals", "intervals with one operator in an end")] +
      [("rule_" + r, "every rule of apply_%s_rules: real matcher, predicate and substitution; additive constants in [-1000, 1000] "
        "([-12, 12] beside multipliers), multipliers and divisors in [-6, 8] (one), [-2, 3] (two), {-1, 1, 2} (staircases); variables in "
        "[-1000, 1000] ([-40, 40] beside multiplication or division); about twice that in the thorough tier" % r) for r in RULES] +
      [("simplify_" + r, "the whole simplifier on the left-hand side of every rule of apply_%s_rules, with fewer constants" % r,
        {"thorough_only": r in HEAVY}) for r in RULES])

check("C10", ["c10_bounds.cc"], ["builder"], [
    ("facts", "bounds_of each of 19 operators over x, y and constants in [-8, 8] ([-3, 4] for *, /, %), with constant, one-sided, symbolic or alignment facts; variables |v| <= 1000 (12 with *, /, %; thorough 24)"),
    ("prove_facts", "attempt_to_prove, prove_true, prove_false of comparisons of every operator, same facts"),
    ("nested_first", "bounds_of two nested operators, x in [lo, hi]"),
    ("nested_second", "same, nested in the second operand"),
    ("nested_aligned", "same, x = r mod m", {"thorough_only": True}),
    ("nested_prove", "proofs of two nested operators, x in [lo, hi]", {"thorough_only": True}),
    ("constant_first", "constant_lower_bound, constant_upper_bound, evaluate_constant* of two nested operators"),
    ("constant_second", "same, nested in the second operand"),
    ("operations", "bounds_of(op, intervals): constant, variable, half-bounded and mixed intervals with ends in [-1000, 1000] (8 with *, /, %; thorough 20)"),
])

FORMS = "crop_buffer, crop_dim, slice_buffer, slice_dim, transpose, clone, let, loop, make_buffer, allocate, constant_buffer, check, async"
check("C13", ["c13_stmt.cc"], ["runtime"], [
    ("one_scope", "one scope of 13 kinds (%s) with every form of arguments, named anew, like its source or like another buffer; variables in [-2, 4], 2-d and 1-d buffers with extents 0..4, folded or not" % FORMS),
    ("one_scope_failing", "same, the call numbered 0..4 returns an error code"),
    ("parallel_loop", "parallel loops and loops with 2 workers, with and without a closure, calls failing (thorough: around any other scope)"),
    ("nested_crops", "two nested scopes, the outer a crop, calls in and after each"),
    ("nested_slices", "same, the outer a slice or transpose"),
    ("nested_values", "same, the outer a clone, let or loop"),
    ("nested_buffers", "same, the outer make_buffer, allocate, constant_buffer, check or async"),
    ("nested_failing", "two nested scopes, any call fails"),
], ["parallel loops and asynchronous tasks run on the calling thread (interleavings are C19 and C20)"])
check("C14", ["c14_pipe.cc"], ["builder"], [
    ("stencil_1d", "pointwise -> 3-point stencil; loop step 1..4, 6 placements, both symbol orders, output min -20..20, extent 1..6, any element values"),
    ("stencils_1d", "pointwise -> stencil -> stencil; loop step 1..2 (thorough 4), 5 placements per stage (thorough 6), extent 1..4 (thorough 6)"),
    ("stencil_2d", "pointwise -> 3x3 stencil; loops over any subset/order of dimensions, step 1..2 (thorough 3), 6 placements, extents 1..3 (thorough 4)"),
    ("stencils_2d", "pointwise -> 3x3 -> 2x2; steps 1..2, 2 placements (thorough 5), extents 2 (thorough 1..3)"),
    ("stencils_1d_loops", "as stencils_1d with loops of their own for the producers, extent 3..4 (thorough 1..5)"),
    ("diamond", "pointwise -> two stencils -> combine; step 1..2 (thorough 4), 3 placements (thorough 6), extent 3..4 (thorough 1..5), both symbol orders"),
    ("diamond_2d", "diamond in 2 dimensions, step 1 (thorough 2), 2 placements (thorough 4), extents 2 (thorough 1..3)"),
    ("resample", "down by 2 then up by 2; step 1..3, 3 placements (thorough 6), extent 1..4 (thorough 6), any min"),
    ("reduce", "two inputs, row sums and a constant window; step 1..2 (thorough 3), 3 placements (thorough 6), extents 2..3 (thorough 1..4)"),
    ("transposed", "a transposed producer with a stencil in one dimension; steps 1..2, 6 placements, extents 2..3 (thorough 1..3)"),
    ("multiple_outputs", "a stage with two outputs; step 1..3, 6 placements, extent 1..4, both symbol orders"),
    ("two_outputs", "a last stage with two outputs of different sizes; step 1..2, 4 placements of its producer (thorough 6), extents 1..3 (thorough 4)"),
    ("unrelated_outputs", "a pipeline with two outputs sharing a producer; step 1..2, 3 placements (thorough 6), extents 1..3 (thorough 4), both symbol orders"),
])

check("C15", ["c15_copies.cc"], ["builder"], [
    ("concat_1d", "2 concatenated buffers, each given or computed, followed by a stencil or not, output extent 3 (1..5 thorough)"),
    ("concat_three", "3 concatenated buffers"),
    ("concat_2d", "2 concatenated buffers of 2 dimensions, along either"),
    ("copy_1d", "one copy of 1 dimension: translated by 2 or an argument in [-3, 3], reversed, scaled by 2 (a point or a pair), of a constant coordinate; of the input or a computed buffer, to the output or an intermediate; output min symbolic in a small range, extent 2..3 (1..4 thorough); loops of the last stage (step 1 or 2), places of the stages (root or inlined; all 6 thorough), folded and unfolded buffers of the caller, thorough: without aliasing"),
    ("copy_2d", "2 dimensions: transposed, translated, broadcast, diagonal, reversed; extent 2 (1..3 thorough), otherwise as copy_1d"),
    ("copy_flat", "a coordinate that is a linear combination of two dimensions (x + 3 y + 1), otherwise as copy_2d"),
    ("copy_slice", "a dimension that disappears (of a constant or argument coordinate), one that appears; otherwise as copy_1d"),
    ("sequence_1d", "2 (3 thorough) copies in a row, each translated, with or without padding, no loops"),
    ("pad_1d", "a copy padded with a constant outside of a box of 3 extents and 2 offsets, the rest as copy_1d"),
    ("pad_1d_buffer", "padded with another buffer, given or computed"),
    ("pad_1d_bounds", "padded outside of the bounds of the input"),
    ("pad_2d", "2 dimensions, possibly transposed, extent 2 (1..3 thorough)"),
    ("pad_2d_buffer", "2 dimensions, padded with another buffer"),
    ("stack_2d", "2 stacked buffers, along either dimension"),
    ("stack_three", "3 stacked buffers"),
], ["the stages are the harness' callables: every element is a linear combination of the elements read with distinct coefficients", "symbolic bounds of the output over small ranges; extents concrete per path", "callers' buffers are exactly as large as required"])

PIPE_ASSUMPTIONS = ["the stages are the harness' callables: every element is a linear combination of the elements read with distinct coefficients", "output mins symbolic (-20..20 unless stated), extents and schedules concrete per path, all combinations explored", "parallel loops are not covered here"]

check("C16", ["c16_alias.cc"], ["builder"], [
    ("chain_1d", "3 stages in place one after another, the last may also read (in place of) any earlier buffer, any earlier buffer may also be an output; loop step 1..2 (thorough 3), 4 places (thorough 6), extent 2..3 (thorough 1..4), folding of callers' buffers on or off, thorough: aliasing off"),
    ("chain_long", "4 stages in place, no loops (thorough: loops, 3 places), extent 2 (thorough 1..2)"),
    ("chain_stencil", "chain_1d where one stage reads a window of 3 and is not in place; extent 3 (thorough 1..4)"),
    ("chain_2d", "chain_stencil in 2 dimensions, 2 stages (thorough 3), extents 2 (thorough 1..2)"),
    ("binary_1d", "a stage in place of none, either or both of its two inputs, each of which may be read later, in the same or a larger region"),
    ("two_outputs", "a stage with 2 inputs and 2 outputs, any pairs in place, outputs of the pipeline or not"),
    ("fork_in_place", "two stages in place of the same buffer, any of the buffers outputs of the pipeline; no loops (thorough: loops)"),
    ("copied_1d", "a buffer that is copied (also translated, scaled, reversed, of one coordinate, concatenated or stacked with the input or itself) and read by another stage, in place or in a larger region; min -4..4 (thorough -20..20)"),
    ("padded_1d", "a padded copy of a buffer that another stage reads, otherwise as copied_1d"),
], PIPE_ASSUMPTIONS + ["callers' buffers are exactly as large as required"])

check("C17", ["c17_inputs.cc"], ["builder"], [
    ("stencil_1d", "pointwise -> 3-point stencil, loop step 1..2 (thorough 3), 3 places (thorough 6), extent 1..3 (thorough 4); one of the buffers has one of 8 defects (begins late, ends early, one dimension more or less, wrong element size, null, other strides, folded by less than the extent) or none; inputs may be larger than required"),
    ("stencils_1d", "two stencils; 2 places (thorough 6), extent 2 (thorough 1..3)"),
    ("stencil_2d", "3x3 stencil, any dimension defective; extents 2 (thorough 1..2)"),
    ("resampled", "down by 2 then up by 2; extent 2 (thorough 1..4)"),
    ("reduced", "two inputs, row sums, constant windows; extents 2 (thorough 1..2)"),
    ("transposes", "a transposed producer and a stencil in one dimension"),
    ("outputs", "two outputs with symbolic mins"),
    ("constrained", "the stride of the input, the stride of the output, or the min of the output required to be a constant by the pipeline"),
    ("constrained_2d", "constrained, in 2 dimensions, transposed"),
], PIPE_ASSUMPTIONS + ["\"covers what the stage was declared to need\" is checked by the stages in every path"])

check("C18", ["c18_storage.cc"], ["builder"], [
    ("chain_1d", "3 stages, the last may read earlier buffers again; loop step 1..2 (thorough 3), 3 places (thorough 6), extent 3 (thorough 1..4), heap, automatic or stack storage; any one call fails with any error, or any one allocation, or nothing"),
    ("chain_long", "4 stages, extent 2 (thorough 1..2)"),
    ("chain_outputs", "3 stages, an intermediate is also an output of the pipeline"),
    ("diamond_1d", "a diamond of two stencils; 2 places (thorough 6)"),
    ("stencils_2d", "two stencils in 2 dimensions; extents 2 (thorough 1..2)"),
    ("copied_1d", "a copy, padded copy, concatenation or reversal between stages, heap storage (thorough: all)"),
    ("fork_1d", "two outputs sharing a producer"),
    ("resampled", "down by 2, up by 2"),
], PIPE_ASSUMPTIONS + ["\"used after release\" is decided by the engine: an access to memory that is not in a live allocation, on any path, is a violation"])

check("C24", ["c24_sliding.cc"], ["builder"], [
    ("stencil_1d", "pointwise -> 3-point stencil, loop step 1..3 (thorough 4), extent 1..8 (thorough 12), stores at the root or where slinky puts them, aliasing on and off: every intermediate element is computed once and an allocation is at most window + step elements"),
    ("stencils_1d", "two stencils, step 1..2 (thorough 4), extent 1..7 (thorough 10)"),
    ("stencil_2d_rows", "3x3 stencil, loop over the outer dimension, step 1..2 (thorough 3), extent 1..5 (thorough 7), other extent 1..2"),
    ("stencil_2d_columns", "loop over the inner dimension"),
    ("stencils_2d", "two stencils, loop over the outer dimension, extent 1..4 (thorough 6)"),
    ("diamond_1d", "a diamond of stencils, step 1..2 (thorough 3), extent 1..6 (thorough 8)"),
    ("multiple_outputs_1d", "a producer with two outputs"),
    ("transposed_2d", "a transposed producer (computed once; storage not bounded)"),
], PIPE_ASSUMPTIONS + ["one serial loop, over one dimension of the last stage"])

check("C23", ["c23_intervals.cc"], ["builder"], [
    ("offset", "any interval (a point, or each end a constant, a variable, infinite or undefined, |end| <= 10^6) plus or minus a constant or variable, on either side; also simplified"),
    ("negate", "the negative of any interval"),
    ("scale", "any interval with ends in [-16, 16] (thorough 40) times a constant, variable or absolute value in [-5, 5] (thorough 10)"),
    ("divide", "divided by the same"),
    ("unite", "the union of any two intervals"),
    ("intersect", "the intersection of any two intervals, and simplify_intersection: contains exactly the common values"),
    ("queries", "empty, contains, begin, end, extent, the identities"),
    ("construct", "range, bounds, min_extent, point, clamp"),
    ("selects", "select of two intervals"),
    ("aligns", "align to a multiple in [1, 6], ends in [-25, 25] (thorough 60)"),
    ("combine", "bounds_of the sum, difference, min, max of any two intervals whose ends are defined"),
    ("multiply", "bounds_of the product, ends in [-5, 5] or infinite (thorough 12, and variables)"),
    ("quotient", "bounds_of the quotient, likewise"),
    ("remainder", "bounds_of the remainder, likewise"),
    ("compare", "bounds_of <, <=, ==, !="),
], ["values do not overflow", "an infinite end times 0 has no value and is not judged"])

E12 = "scalars and constants in [-4, 4], two 2-d buffers with bounds in [-3, 6]"
S12 = "two nested scopes, the outer a %s (of the forms of C13)"
check("C12", ["c12_subst.cc"], ["builder"], [
    ("ops", "19 operators over variables, constants and buffer metadata, 4 forms of nesting; dependencies on each variable, and substitution of a variable by 3 (thorough 6) replacements; " + E12),
    ("lets", "one or two lets of 4 names over 3 values and 4 bodies with inner lets: same, 6 replacements"),
    ("buffers", "buffer metadata and addresses, a buffer renamed, names shadowed by lets"),
    ("expressions", "6 expressions replaced by an equal variable in the expressions of ops"),
    ("metadata", "metadata of a buffer replaced: bounds of either end, strides, folds, element size, defaults from another buffer, the same or none; up to 1 (thorough 2) dimensions given"),
    ("compare_same_type", "two expressions of the same of 23 types, leaves symbolic; also intervals and dimensions: antisymmetric, equal exactly if the structure is"),
    ("compare_types", "two expressions of any types"),
    ("compare_transitive", "three expressions of a type"),
    ("compare_statements", "two statements of the same of 13 kinds, every field free"),
    ("copies", "substitution and dependencies of copies, every choice of names"),
    ("rebuild_one", "a mutator that increments every constant, on the programs of C13 with one scope: nothing else changes; comparison of the two programs"),
    ("rebuild_two", "same, two nested scopes"),
    ("substitute_one", "one scope of 13 kinds, 9 replacements of a scalar or buffer: the program does the same with the name bound to the replacement, and where nothing is captured with the name bound to anything"),
    ("substitute_crops", S12 % "crop"),
    ("substitute_slices", S12 % "slice or transpose"),
    ("substitute_values", S12 % "clone, let or loop"),
    ("substitute_buffers", S12 % "make_buffer, allocate, constant_buffer, check or async"),
    ("depends_one", "one scope of 13 kinds, one use of any one name: a program does the same for any value of a name it is said not to depend on, uses of buffers as inputs and outputs are found"),
    ("depends_crops", S12 % "crop"),
    ("depends_slices", S12 % "slice or transpose"),
    ("depends_values", S12 % "clone, let or loop"),
    ("depends_buffers", S12 % "make_buffer, allocate, constant_buffer, check or async"),
], ["where a declaration would capture a name of the replacement, the library leaves the occurrence alone (its own tests require this): then only programs with the name still bound are compared",
    "the uses of a buffer through a let that renames it are not followed (depends_on reports the let itself as a use)"])

S21 = "the programs of C13 (names shadowing others) with an outer scope of kind %s and an inner scope of any of 13 kinds"
F21 = "two adjacent siblings of kind %s with any parameters"
C21 = "two programs of C13 of one scope each of kind %s: every two nodes that match are the same object, and nothing else changes"
check("C21", ["c21_passes.cc"], ["builder"], [
    ("symbols_one", "deshadow, then optimize_symbols: the programs of C13 with one scope, serial and parallel loops; no declaration hides another, and the calls see the same"),
    ("symbols_crops", S21 % "crop"), ("symbols_slices", S21 % "slice or transpose"), ("symbols_values", S21 % "clone, let or loop"), ("symbols_buffers", S21 % "make_buffer, allocate, constant_buffer, check or async"),
    ("reuse", "optimize_symbols: chains of 2 declarations of 9 kinds, each of any buffer in scope, used by calls inside, between and after"),
    ("reuse_three", "same, chains of 3"),
    ("siblings", "fuse_siblings: two siblings of 8 kinds, equal or differing in one parameter, the same name or another, 4 surroundings, serial loop"),
    ("siblings_crops", F21 % "crop"), ("siblings_slices", F21 % "slice or transpose"), ("siblings_buffers", F21 % "make_buffer or allocate"),
    ("early_free", "insert_early_free: an allocation whose body is up to 3 statements of 12 kinds (calls, aliases of 8 kinds, loops, lets, checks, async)"),
    ("early_free_nested", "same, nested twice"),
    ("pure_dims", "remove_pure_dims: a call of min_rank 0..2 or none in a scope of 8 kinds, 5 forms of bounds: the call computes the same elements"),
    ("pure_dims_nested", "same, two nested scopes"),
    ("pure_pipeline_1d", "pointwise, stencil, pointwise, where the pointwise stages allow any dimension to be removed: loops of steps 1..2, 4 places; every output element"),
    ("pure_pipeline_2d", "same in 2 dimensions"),
    ("canonical_crops", C21 % "crop"), ("canonical_slices", C21 % "slice or transpose"), ("canonical_values", C21 % "clone, let or loop"), ("canonical_buffers", C21 % "make_buffer, allocate, constant_buffer, check or async"),
], ["a fused or freed allocation is compared by how many allocations are live when it is made; parallel loops and tasks run on one thread"])

S11 = "the programs of C13 without shadowed names, with bounds, values and conditions over buffer metadata, loop variables, min and max; two nested scopes, the outer %s"
check("C11", ["c11_simplify.cc"], ["builder"], [
    ("one", "one scope of 13 kinds", {"budget": {"quick": 50}}),
    ("crops", S11 % "a crop", {"budget": {"quick": 55}}), ("slices", S11 % "a slice or transpose", {"budget": {"quick": 55}}), ("values", S11 % "a clone, let or loop", {"budget": {"quick": 55}}), ("buffers", S11 % "a make_buffer, allocate, constant_buffer, check or async", {"budget": {"quick": 55}}),
], ["calls see the same, except that inputs may cover more than before, all empty buffers are the same, and so are strides and folds of dimensions of one element", "a check that is always false is rejected by aborting (documented): programs where the simplifier does so are only required to fail or not to reach some check"])

S20 = "every schedule with up to 1 (thorough 3) switches between threads that could go on, at any lock, unlock, atomic operation or item; choices where a thread waits or yields are free"
check("C20", ["c20_pool.cc"], [], [
    ("parallel_for", "0..2 workers, 0..3 items, 1 to 3 or any number of threads working; " + S20),
    ("tasks", "0..2 workers, two tasks of 1..3 and 1..2 items, three ways to wait for both; " + S20, {"budget": {"quick": 60}}),
    ("waiters", "0..1 workers, a task of 1..3 items, two threads wait for it; " + S20),
    ("conditions", "0..2 workers, a condition that another thread or a task makes true, and two threads that take turns; " + S20, {"budget": {"quick": 45}}),
    ("nested", "1..2 workers, 2 items that run a loop or task of 1..2 items each; " + S20),
    ("users", "a pool of no threads that a thread of the user enters, 1..3 items; " + S20),
], ["memory is sequentially consistent (memory orders are not told apart), and no wakeup is spurious", "a thread that yields is not run again before something changes or it has yielded in vain until it gives up"])

check("C22", ["c22_refs.cc", "c22_nodes.cc"], ["runtime"], [
    ("expressions", "3 handles, every history of 3 (thorough 4) operations of 9 kinds", {"budget": {"quick": 50}}),
    ("statements", "same, 8 kinds, including constant buffers", {"budget": {"quick": 50}}),
    ("threads", "2..3 threads that copy, move and drop references to one object: every schedule with up to 2 (thorough 3) switches"),
    ("handles", "3 handles and the fields of 3 objects, every history of 3 (thorough 4) operations of 9 kinds: made, dropped, copied, moved, swapped, also to itself and to what it owns", {"budget": {"quick": 60}}),
    ("lists", "3 handles and the fields of 3 objects, starting with a list of 3 objects, every history of 2 (thorough 3) operations", {"budget": {"quick": 70}}),
], ["objects that refer to each other in a cycle are not destroyed", "a handle moved to itself keeps its object or refers to nothing"])

check("C25", ["c25_containers.cc"], ["runtime"], [
    ("symbol_table", "4 symbols, every history of 3 (thorough 5) operations of 5 kinds, values in [-1000, 1000]"),
    ("scopes", "two nested scopes of 4 symbols, 4 ways to set a value, 5 ways to leave"),
    ("names", "every history of 3 (thorough 4) insertions of 8 names, some of the form of generated names"),
    ("intersection", "two sorted sequences of up to 3 elements in [-1000, 1000]"),
    ("sets", "two sets of up to 2 elements in [-5, 5]"),
    ("spans", "sequences of up to 4 elements, all offsets and sizes"),
    ("permutation", "up to 3 elements in [-1000, 1000], up to 3 indices in [-1, 4]"),
    ("contexts", "4 symbols, every history of 4 (thorough 5) operations of 3 kinds"),
])

S19 = "loops over one or two dimensions, steps 1..2, serial, parallel or with 2 or 3 workers, %s, a pool of 1..2 threads and the caller; every schedule with up to %s switches between threads that could go on, at any lock, unlock, atomic operation of the pool, or call"
ST19 = "a pool of 1..2 threads and the caller; every schedule with up to %s switches between threads that could go on"
check("C19", ["c19_parallel.cc", "c19_pool.cc"], ["builder"], [
    ("pointwise_1d", "pointwise, stencil; extent 2..4 (5); " + S19 % ("6 places of the first stage", "1 (2)"), {"budget": {"quick": 29}}),
    ("stencils_1d", "pointwise, stencil, stencil; extent 3..4; " + S19 % ("6 places of each", "1"), {"budget": {"quick": 29}}),
    ("stencil_2d", "pointwise, stencil in 2 dimensions, extent 2 (2..3); " + S19 % ("6 places of the first stage", "1"), {"budget": {"quick": 29}}),
    ("diamond_1d", "two stages of one input, used by a third; extent 3 (3..4); " + S19 % ("5 (6) places of each", "1"), {"budget": {"quick": 29}}),
    ("two_outputs_1d", "a stage of two outputs, used by another; extent 2 (2..3); " + S19 % ("5 (6) places of the first stage", "1"), {"budget": {"quick": 29}}),
    ("failing", "the pipeline of pointwise_1d where any one of the first 5 (8) calls fails; " + S19 % ("6 places", "1"), {"budget": {"quick": 29}}),
    ("tasks", "parallelize_tasks: blocks of 3 calls over 4 buffers, every choice of inputs and outputs, any element values; " + ST19 % "1 (2)", {"budget": {"quick": 29}}),
    ("tasks_kinds", "same, 2 (3) statements of 7 kinds: calls of 1 or 2 inputs, under a crop, clone, allocation, check or loop; " + ST19 % "1", {"budget": {"quick": 29}}),
    ("tasks_failing", "same, any one of the calls fails; " + ST19 % "1", {"budget": {"quick": 29}}),
], ["memory is sequentially consistent; a call is one step (other threads run before it), and so is what the evaluator does between operations of the pool"])
