#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the property texts live here so they are readable in review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Integer arithmetic is Euclidean, exact or saturating, never silently wrong",
  "For every pair of 64-bit operands whose quotient is representable, division and modulo are Euclidean (0 <= a mod b < |b|, a = (a div b)*b + a mod b, and division or modulo by zero gives 0). The ceiling, floor and rounding division and alignment helpers (for positive divisors and intermediates that do not overflow), gcd and lcm (of non-negative operands whose product is representable) and the saturating or overflow-checked add, subtract, multiply and divide helpers return the mathematically exact result whenever it is representable; when it is not, the saturating helpers return the nearest representable value and the checked helpers report the overflow.",
  ["inputs"], "all pairs of 64-bit (and, for kernels with symbolic-by-symbolic products, all narrower) operands",
  "The arithmetic tests sample a few thousand random small operands; the failures that matter sit at sign changes, INT64_MIN, zero divisors and near-overflow products.",
  ["slinky/base/arithmetic.h", "slinky/base/arithmetic.cc"],
  [("euclidean_div / euclidean_mod / floor_div / ceil_div / align_up / align_down", "slinky/base/arithmetic.h"),
   ("saturate_*, *_overflow*", "slinky/base/arithmetic.h"), ("gcd / lcm", "slinky/base/arithmetic.cc")],
  ["return values"])

p("C02", "Congruence analysis never claims a wrong modulus or remainder",
  "If two integers satisfy the congruences (x = r mod m) attached to them, then the result of adding, subtracting, multiplying, dividing, taking the modulus, uniting or intersecting them satisfies the congruence that the analysis computes for that operation. Computed from canonical congruences (a remainder in [0, modulus) when the modulus is positive), the result is canonical too.",
  ["inputs"], "all congruences and all integers satisfying them, within the stated width",
  "Tests draw random congruences and check a handful of witnesses; an unsound modulus is wrong only for specific residues, divisibility or sign combinations.",
  ["slinky/base/modulus_remainder.h", "slinky/base/arithmetic.cc"],
  [("modulus_remainder operators", "slinky/base/modulus_remainder.h")], ["returned congruences"])

p("C03", "Buffer metadata operations address exactly the elements they describe",
  "Cropping, slicing, translating (unfolded dimensions) and transposing a buffer leave the address of every coordinate that remains in the result unchanged (up to the coordinate renaming the operation states), clamp crops to the original bounds, and never make an empty or out-of-bounds region addressable. Coordinates of a folded dimension that agree modulo the fold factor have the same address, a dimension with zero stride or broadcast bounds addresses one element everywhere, and containment tests agree with the bounds they are asked about.",
  ["inputs"], "all dimension bounds, strides, fold factors, crop/slice arguments and coordinates within stated ranges, ranks 1 to 3",
  "Tests use a few fixed shapes; off-by-one errors need particular combinations of negative minimums, crop bounds outside the buffer, folds and slices.",
  ["slinky/runtime/buffer.h", "slinky/runtime/buffer.cc", "slinky/runtime/evaluate.cc"],
  [("dim::flat_offset_bytes, dim::contains, raw_buffer::crop/slice/translate/transpose", "slinky/runtime/buffer.h")],
  ["addresses and bounds of the resulting buffer"])

p("C04", "Buffer storage layout never overlaps and never exceeds its allocation",
  "When strides are left for the library to choose, the chosen strides give distinct in-bounds (modulo fold) coordinates disjoint element storage, keep every stride the caller fixed (as long as the fixed strides do not already make elements overlap), and the reported size covers every addressable element from the base. If the required size or stride is not representable, the layout fails instead of wrapping around.",
  ["inputs"], "all extents, fold factors, element sizes, alignments and partially specified strides in range, ranks 1 to 3",
  "Tests check a few hand-written layouts; an overlapping layout needs a particular mix of fixed and automatic strides, folds or extreme extents.",
  ["slinky/runtime/buffer.h", "slinky/runtime/buffer.cc"],
  [("raw_buffer::init_strides / size_bytes / allocate", "slinky/runtime/buffer.cc")], ["strides", "size in bytes", "addresses"])

p("C05", "Copy, pad and fill write exactly the right elements with the right values",
  "Copying a source into a destination makes every destination coordinate inside the source bounds equal to the source there, and every other destination coordinate equal to the padding buffer's value; a copy without padding requires the destination to lie inside the source, and padding alone leaves the coordinates inside unchanged. Filling sets every element of the destination. No element outside the destination's bounds is written, whatever the strides, minimums, folds, overlaps of bounds and broadcast dimensions of the operands.",
  ["inputs"], "all source/destination/padding bounds and stride orders within stated ranges, symbolic element values, ranks 0 to 3",
  "The copy tests use a handful of random shapes; dimension fusion, empty intersections, folded and broadcast dimensions interact in combinations they do not reach.",
  ["slinky/runtime/buffer.cc", "slinky/runtime/buffer.h"],
  [("copy / pad / fill", "slinky/runtime/buffer.cc")], ["destination memory before and after"])

p("C06", "Traversals visit every coordinate exactly once with the right addresses",
  "Iterating over the elements or contiguous slices of one buffer together with any number of other buffers visits every coordinate of the first buffer exactly once and hands the callback, for each other buffer, the address of the same coordinate, or null when that buffer does not contain it. This holds for any bounds, stride order, empty, folded or broadcast dimension.",
  ["inputs"], "all bounds and stride assignments in range, ranks 0 to 3, one or two additional buffers",
  "Tests sample a few shapes; the traversal planner takes different code paths depending on fusibility, folds, and which buffers are out of bounds where.",
  ["slinky/runtime/buffer.h", "slinky/runtime/buffer.cc"],
  [("for_each_element / for_each_contiguous_slice / for_each_index", "slinky/runtime/buffer.cc")], ["callback arguments"])

p("C07", "Sorting, fusing and optimizing dimensions preserve the set of addressed elements",
  "Reordering dimensions by stride, fusing adjacent dimensions, and optimizing the dimensions of a group of buffers (whose first buffer has no broadcast dimensions) leave the multiset of element addresses described by each buffer unchanged, and keep corresponding elements of all buffers of the group corresponding. Two dimensions are only fused when one dimension of the combined extent describes exactly the same elements.",
  ["inputs"], "all bounds, strides and fold factors in range, ranks 1 to 3, groups of up to two buffers",
  "Tests use a handful of shapes; an illegal fusion needs specific relations between stride, extent, minimum and fold of two dimensions in several buffers.",
  ["slinky/runtime/buffer.h", "slinky/runtime/buffer.cc"],
  [("can_fuse / fuse / sort_dims / optimize_dims", "slinky/runtime/buffer.h")], ["addresses of the rewritten buffers"])

p("C08", "Evaluating an expression computes its mathematical definition",
  "Evaluating any expression built from constants, variables, lets, buffer metadata and element reads, arithmetic, comparison, logical, selection, minimum/maximum and intrinsic operators yields the value of its mathematical definition under the current variable bindings. Short-circuiting operators evaluate only what they must, and variable bindings introduced inside an expression are not visible after it.",
  ["inputs", "programs"], "all operand values in range for every operator and every two-level nesting of operators",
  "The evaluator tests check some constants per operator; wrong short-circuiting, sign handling or scoping shows only for specific operand values and nestings.",
  ["slinky/runtime/evaluate.cc", "slinky/runtime/evaluate.h", "slinky/runtime/expr.h"],
  [("expression evaluator", "slinky/runtime/evaluate.cc")], ["evaluate(expr)"])

p("C09", "Simplifying an expression never changes its value",
  "For any expression, any constants inside it, and any values of its variables that respect the bounds and alignment facts supplied to the simplifier, the simplified expression evaluates to the same value as the original. This includes every algebraic rewrite rule, in isolation and in combination.",
  ["inputs", "programs"], "all constants and variable values in the stated range, all rewrite rules, and all expression shapes up to the stated size",
  "Tests fuzz rules with a few random constants and random expressions; a rule with a wrong side condition is wrong only for particular constants (signs, divisibility, ties) and is rarely hit.",
  ["slinky/builder/simplify_rules.h", "slinky/builder/simplify.cc", "slinky/builder/simplify_exprs.cc", "slinky/builder/rewrite.h"],
  [("rewrite rules", "slinky/builder/simplify_rules.h"), ("simplifier", "slinky/builder/simplify.cc")], ["evaluate(simplify(e)) vs evaluate(e)"])

p("C10", "Inferred bounds contain every value and proofs are never wrong",
  "For any expression and any variable values that respect the supplied bounds and alignment facts, the value of the expression lies inside the interval the analysis infers for it, constant lower/upper bounds are true bounds, and a condition reported as proven true (or proven false) is indeed true (or false).",
  ["inputs", "programs"], "all constants and variable values in range, all expression shapes up to the stated size",
  "Bounds tests compare a few dozen expected intervals; unsound bounds need particular signs, strides, clamps or correlated operands.",
  ["slinky/builder/simplify_bounds.cc", "slinky/builder/simplify.cc"],
  [("bounds_of, constant_lower_bound/constant_upper_bound, attempt_to_prove", "slinky/builder/simplify_bounds.cc, slinky/builder/simplify.cc")],
  ["inferred intervals", "proof results"])

p("C11", "Simplifying a statement never changes what it does",
  "For any statement program of loops, lets, checks, crops, slices, transposes, allocations, clones, constructed buffers, copies and calls in which no name is declared twice in nested scopes, the simplified statement makes the same calls in the same order, with the same bounds and addresses of outputs and the same scalar arguments, with inputs that cover at least the elements they covered before at the same addresses, and returns the same result. A check that fails still fails (a check that does not depend on a loop may be made before it), and a program containing a check that can be shown to always fail may be rejected. This holds for all input buffer shapes and scalar values.",
  ["programs", "inputs"], "all combinations of statement nodes up to the stated depth, symbolic bounds, crop/slice arguments, loop ranges and scalars",
  "Simplifier tests compare output text for selected statements; they do not check equivalence over inputs such as empty crops, negative minimums or out-of-range slices.",
  ["slinky/builder/simplify.cc", "slinky/builder/node_mutator.cc", "slinky/runtime/stmt.h"],
  [("statement simplifier", "slinky/builder/simplify.cc")], ["sequence of callback invocations and their arguments"])

p("C12", "Substitution respects scoping, no dependency is missed, comparison is an order",
  "Substituting a variable or buffer metadata in a program yields a program whose value equals the original evaluated with that variable bound to the replacement, with declarations of the same name shadowing it; where an inner declaration would capture a name of the replacement, the occurrence is left as it is. A program reported not to depend on a symbol evaluates identically for every value of that symbol, and the structural comparison of programs is a total order that is consistent with structural equality, with structurally equal programs having equal values.",
  ["programs", "inputs"], "all expression and statement shapes up to the stated size with shadowing, all constants and bindings in range",
  "Tests cover some named shadowing cases; dependency or ordering errors need a specific nesting and are masked when replacement and original coincide.",
  ["slinky/builder/substitute.cc", "slinky/builder/node_mutator.cc", "slinky/runtime/depends_on.cc", "slinky/builder/substitute.h"],
  [("substitute / match / compare", "slinky/builder/substitute.cc"), ("depends_on", "slinky/runtime/depends_on.cc")], ["evaluation before and after"])

p("C13", "Running a statement follows its scoping, looping and failure semantics",
  "A loop runs its body once for each value min, min+step, ... not exceeding max, a block runs in order, and lets, crops, slices, transposes, clones and allocations are visible exactly inside their body, with every buffer and variable restored afterwards. The first failing call or check stops the program, its error code is what the program returns, and every allocation made on the way is released exactly once.",
  ["programs", "inputs", "fault_sequences"], "all loop ranges and steps, crop/slice/translate arguments, and failing call positions in range, with nested scoping statements",
  "Tests use fixed loops and do not fail calls at arbitrary points; a missed restoration shows only when a specific mutator nests in another and a later statement looks at the buffer.",
  ["slinky/runtime/evaluate.cc", "slinky/runtime/evaluate.h"],
  [("statement evaluator", "slinky/runtime/evaluate.cc")], ["callback sequence, error code, buffer metadata after each scope, allocator hooks"])

p("C14", "A scheduled pipeline computes what the unscheduled definition says",
  "For every schedule (loops and splits of any step, nesting, compute-at and store-at locations), a pipeline whose inputs satisfy its checks succeeds and writes to every output element exactly the value that evaluating each stage over its whole domain would give. This holds for every output size and position, including sizes smaller than, or not multiples of, a split, and through sliding window and storage folding.",
  ["programs", "configurations", "inputs"], "all output minimums and extents, split steps and stencil offsets in range, symbolic element values, over the stated pipeline graphs and schedules",
  "Each test runs a few sizes for a few splits; warm-up, folding and clamping errors appear only for particular remainders, tiny extents, or stencil/step combinations.",
  ["slinky/builder/pipeline.cc", "slinky/builder/slide_and_fold_storage.cc", "slinky/builder/simplify.cc", "slinky/builder/optimizations.cc", "slinky/runtime/evaluate.cc"],
  [("bounds inference and loop generation", "slinky/builder/pipeline.cc"), ("sliding window and folding", "slinky/builder/slide_and_fold_storage.cc")],
  ["output buffers", "return code"])

p("C15", "Built-in copies, pads, concatenations and stacks compute their definition",
  "A pipeline stage that copies, translates, transposes, broadcasts, pads, concatenates or stacks its inputs produces at each output coordinate exactly the element its definition names (or the padding value), whether or not the library eliminates the copy by aliasing buffers. This holds for every schedule, size and offset.",
  ["programs", "configurations", "inputs"], "all sizes, offsets, crop and padding bounds in range over the stated copy pipelines and schedules, with and without aliasing",
  "Copy pipeline tests run a few fixed sizes and offsets; aliasing decisions depend on bounds relations that those never vary.",
  ["slinky/builder/optimizations.cc", "slinky/builder/pipeline.cc", "slinky/runtime/buffer.cc"],
  [("alias_copies, implement_copy", "slinky/builder/optimizations.cc"), ("make_concat / make_stack / make_copy", "slinky/builder/pipeline.cc")],
  ["output buffers"])

p("C16", "Buffer aliasing never changes results and never corrupts inputs",
  "Computing a stage in place or sharing storage between buffers gives exactly the results of the same pipeline built with aliasing disabled, and no pipeline ever modifies an element of a pipeline input. A value is never overwritten while a later stage still reads it.",
  ["programs", "configurations", "inputs"], "all sizes in range over pipelines with one or several consumers, in-place-capable stages, and explicit layout constraints",
  "Tests check that specific allocations disappear; an unsafe alias corrupts data only for graphs with a second reader, a particular order, or mismatched bounds.",
  ["slinky/builder/optimizations.cc"],
  [("alias_in_place / alias_copies", "slinky/builder/optimizations.cc")], ["input and output buffers"])

p("C17", "Pipelines reject unusable inputs before touching memory and stay in bounds",
  "If an input buffer does not cover the region required for the requested output, has the wrong rank or element size, violates a constraint on its layout, or describes an impossible region of memory, the pipeline returns an error through the check-failure hook and calls no stage. If the checks pass, every buffer a stage receives covers what the stage was declared to need and no memory outside the inputs, outputs and the pipeline's own allocations is accessed.",
  ["configurations", "inputs"], "all input/output minimums and extents, strides, folds and element sizes in range over the stated pipelines",
  "Tests try one or two too-small inputs; a check that is dropped or weakened by a rewrite shows only when exactly that bound is violated.",
  ["slinky/builder/pipeline.cc", "slinky/runtime/buffer.cc", "slinky/builder/simplify.cc"],
  [("input checks", "slinky/builder/pipeline.cc"), ("validate_buffer", "slinky/runtime/evaluate.cc / buffer.cc")], ["check-failure hook", "callback buffer bounds", "memory accesses"])

p("C18", "Intermediate storage is released exactly once, only after its last use",
  "Every intermediate buffer a pipeline allocates is released exactly once, on success and on every failure, and no stage is ever handed, or reads or writes through, storage that has been released. Early release never changes results.",
  ["programs", "inputs", "fault_sequences"], "all sizes in range and every failing-stage position over the stated pipelines and schedules",
  "Tests count allocations on success for fixed sizes; a use after early release or a leak on failure needs a particular consumer order, branch or failing stage.",
  ["slinky/builder/optimizations.cc", "slinky/runtime/evaluate.cc", "slinky/builder/pipeline.cc"],
  [("insert_early_free", "slinky/builder/optimizations.cc"), ("allocate evaluation", "slinky/runtime/evaluate.cc")], ["allocator hooks", "memory accesses"])

p("C19", "Parallel execution gives the serial result under every interleaving",
  "Running a pipeline with parallel loops, pipelined loops (stages of different iterations overlapping) or asynchronous tasks gives the same outputs and the same error code class as running it serially, for every number of workers and every interleaving, and always terminates.",
  ["schedules", "configurations", "inputs"], "all interleavings of up to the stated number of threads and context switches, all loop extents and worker limits in range",
  "Tests run on whatever interleaving the machine produces; a missing wait or signal shows up rarely or never.",
  ["slinky/runtime/evaluate.cc", "slinky/builder/slide_and_fold_storage.cc", "slinky/builder/optimizations.cc", "slinky/base/thread_pool_impl.cc"],
  [("parallel loop evaluation and semaphores", "slinky/runtime/evaluate.cc"), ("pipelined loop synchronization", "slinky/builder/slide_and_fold_storage.cc")],
  ["outputs", "termination"])

p("C20", "The thread pool runs every work item exactly once and waiting always ends",
  "Every work item of every task is executed exactly once for any number of items, worker limits and threads, waiting on a task returns only after all its items have completed, and waiting on a condition returns once it has become true. No interleaving of enqueueing, working, waiting and shutting down deadlocks, loses a wakeup or touches a task after its release.",
  ["schedules", "inputs"], "all item counts, worker limits and thread counts in range and all interleavings within the stated number of context switches",
  "Thread pool tests observe a few interleavings on real threads; lost wakeups and early returns need exact timing.",
  ["slinky/base/thread_pool_impl.cc", "slinky/base/thread_pool_impl.h", "slinky/base/thread_pool.cc"],
  [("task sharding, wait_for, dequeue, enqueue notifications", "slinky/base/thread_pool_impl.cc")], ["set of executed items", "termination"])

p("C21", "Program transformation passes preserve behaviour",
  "Removing shadowing, reusing symbols, merging identical nodes, merging sibling scopes, inserting early releases and removing pure dimensions from calls each leave the observable behaviour of any valid program unchanged: the same calls computing the same elements with the same bounds and scalars, and the same result. After removing shadowing no declaration hides another; a merged sibling keeps its effects in order; an early release happens exactly once per allocation and never before a use of the memory, including uses through aliases and by asynchronous tasks that have not finished; a call that allows dimensions to be removed is made only where its output is not empty and together computes every element once.",
  ["programs", "inputs"], "all small statement programs built from the stated node kinds, with symbolic bounds and scalars",
  "Pass tests compare a few transformed programs by text; semantic preservation over inputs and over combinations of nested scopes is not checked.",
  ["slinky/builder/optimizations.cc", "slinky/builder/substitute.cc"],
  [("deshadow, optimize_symbols, canonicalize_nodes, fuse_siblings, insert_early_free, remove_pure_dims", "slinky/builder/optimizations.cc")],
  ["sequence of callback invocations and their arguments"])

p("C22", "Shared program nodes and buffers live exactly as long as they are referenced",
  "However references to expressions, statements, constant buffers and pool tasks are copied, moved, assigned (including to themselves), swapped and dropped, an object is alive while at least one reference exists and is destroyed exactly once when the last one goes away.",
  ["histories"], "all sequences of reference operations up to the stated length over a few handles and objects",
  "Tests use handles in ordinary patterns; self-assignment, move-from-self and cyclic replacement orders are not enumerated.",
  ["slinky/base/ref_count.h", "slinky/runtime/expr.h", "slinky/runtime/stmt.h"],
  [("ref_counted / ref_count", "slinky/base/ref_count.h")], ["destruction count", "memory accesses"])

p("C23", "Interval operations contain every combination of their operands",
  "For any two intervals (possibly empty, single-point, unbounded or undefined on one side), adding, subtracting, scaling, dividing, intersecting and uniting them yields an interval that contains the corresponding combination of every pair of contained values, intersection contains exactly the common values, and an interval is reported empty only if it contains nothing.",
  ["inputs"], "all constant interval bounds and member values in range, including infinite and undefined bounds",
  "Interval tests check a few concrete intervals and do not combine negative scale factors, empties and infinities.",
  ["slinky/runtime/expr.h", "slinky/runtime/expr_stmt.cc", "slinky/builder/simplify.cc"],
  [("interval_expr operators, simplify_intersection", "slinky/runtime/expr_stmt.cc")], ["evaluated bounds of resulting intervals"])

p("C24", "Sliding and folding bound the work and the storage of serial loops",
  "In a serially scheduled loop whose stages slide, each intermediate element is computed at most once per sweep of the loop, and an intermediate buffer stored outside the loop never needs more storage along the folded dimension than the window its consumers need plus one step. The storage allocated never grows with the extent of the folded dimension.",
  ["configurations", "inputs"], "all output extents, steps and stencil widths in range over the stated stencil pipelines",
  "Tests assert the footprint for a few sizes; losing the optimization or computing an inexact fold for other sizes keeps results right and goes unnoticed.",
  ["slinky/builder/slide_and_fold_storage.cc", "slinky/builder/pipeline.cc"],
  [("slide_and_fold_buffer", "slinky/builder/slide_and_fold_storage.cc")], ["calls per intermediate element", "allocation sizes"])

p("C25", "Small containers and symbol tables behave as their abstract value",
  "A symbol table returns for each symbol the last value stored or nothing, scoped settings restore the previous value on exit, generated names are always fresh, and the ordered-set and sequence helpers (membership, union, staircase sums, spans) return what their mathematical definition says for every input.",
  ["inputs", "histories"], "all operation sequences and values up to the stated length and range",
  "Tests touch these helpers with a few fixed values; they sit under every analysis, where a wrong answer is silent.",
  ["slinky/runtime/expr.h", "slinky/base/set.h", "slinky/base/span.h", "slinky/base/arithmetic.cc", "slinky/runtime/expr_stmt.cc"],
  [("symbol_map, node_context, scoped_value_in_symbol_map, set helpers, staircase_sum_bounds", "slinky/runtime/expr.h, slinky/base")], ["return values"])

p("C26", "A generated replica of a pipeline rebuilds the same pipeline",
  "The source text generated to reproduce a pipeline, when compiled, builds a pipeline with the same behaviour as the original.",
  ["programs"], "all pipelines expressible in the builder",
  "Tests compare the generated text with golden files for a few pipelines.",
  ["slinky/builder/replica_pipeline.cc"], [("define_replica_pipeline", "slinky/builder/replica_pipeline.cc")], ["generated text"])

p("C27", "Printing a program is unambiguous",
  "The printed form of two programs is the same only if the programs are structurally the same up to symbol names, and printing never modifies or evaluates the program.",
  ["programs"], "all programs", "Printing is only exercised by eye and by golden files.",
  ["slinky/runtime/print.cc", "slinky/runtime/visualize.cc"], [("printer", "slinky/runtime/print.cc")], ["output text"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
bad = [x["title"] for x in P if len(x["title"]) > 80]; assert not bad, bad
print(len(P))
