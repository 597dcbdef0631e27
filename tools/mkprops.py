#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
OPS = ["hwy/ops/generic_ops-inl.h", "hwy/ops/x86_128-inl.h", "hwy/ops/x86_256-inl.h", "hwy/ops/x86_512-inl.h",
       "hwy/ops/x86_avx3-inl.h", "hwy/ops/scalar-inl.h", "hwy/ops/emu128-inl.h", "hwy/ops/shared-inl.h"]
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
ALLT = "For every instruction-set target this x86 host can run (including the scalar and emulated fallbacks and the newest AVX-512 level), every supported lane type, every vector length from one lane to a full vector, and every lane value."
p("C01", "Integer vector arithmetic matches per-lane scalar arithmetic on every target",
  "For every instruction-set target, integer lane type and vector length, addition, subtraction, negation, (saturated) absolute value and absolute difference, saturating add/subtract/negate, averages, min/max/clamp, integer division and remainder, and alternating add/subtract return in every lane exactly what the documented scalar formula gives (wraparound, saturation, truncating division, unspecified only where the documentation says so). Lanes outside a partial vector never influence the result.",
  ["inputs", "configurations"], ALLT,
  "Unit tests use a few iota-like or random vectors per op on the targets the build enables; a wrong result confined to one target, width, partial vector, or boundary value pair stays invisible.",
  OPS, [("per-target integer ops", "hwy/ops/x86_128-inl.h"), ("generic fallbacks and integer division", "hwy/ops/generic_ops-inl.h"), ("scalar / emulated targets", "hwy/ops/emu128-inl.h")],
  ["vector op results stored to memory"])
p("C02", "Floating-point vector arithmetic, rounding and classification are IEEE-exact",
  "For every target, float lane type and vector length, add/subtract/multiply/divide/square root are correctly rounded; fused or non-fused multiply-add is one of the two documented results; rounding to integer, sign manipulation, min/max, exponent extraction, scaling by powers of two, NaN/infinity/finite classification and complex multiplication return what the documentation states for every input including NaN, infinities, signed zero and denormals; approximate reciprocal and reciprocal square root stay within their documented error.",
  ["inputs", "configurations"], ALLT,
  "Tests sample a handful of values per op; special values in combination with partial vectors or non-default targets are not enumerated.",
  OPS, [("float ops", "hwy/ops/x86_128-inl.h"), ("rounding emulation for old targets", "hwy/ops/x86_128-inl.h"), ("exponent and complex ops", "hwy/ops/generic_ops-inl.h")],
  ["vector op results stored to memory"])
p("C03", "Multiplication, widening and pairwise product/sum ops equal the exact formula",
  "For every target, lane type and vector length, low/high/even/odd multiplication, fixed-point and rounding multiplication, widening multiply, multiply-accumulate, pairwise and quad sums of products, and their saturating variants equal the documented exact integer formula (or the documented rounding for floats), for all operand values and accumulators. Reordering accumulations preserve the total sum.",
  ["inputs", "configurations"], ALLT,
  "Widening products have overflow corners (min*min, max*max, sums that only overflow for specific pairs) that sampled tests reach for few types and lengths.",
  OPS, [("Mul*/Widen*/SumOfMul* families", "hwy/ops/generic_ops-inl.h"), ("x86 implementations", "hwy/ops/x86_128-inl.h")],
  ["vector op results stored to memory"])
p("C04", "Shifts, rotates, bit counting and logical ops match the bit-level definition",
  "For every target, lane type and vector length, logical ops (including three-input and and-not/xor forms and sign-based forms), all constant, uniform and per-lane shifts and rotates (including rounding shifts), population count, leading/trailing zero counts, highest set bit, bit/byte reversal and shuffling of bits return exactly the documented bit pattern for every lane value and every in-range shift count.",
  ["inputs", "configurations"], ALLT,
  "Emulations of missing shift widths and bit ops differ per target, lane width and count; tests cover few (count, value, target) combinations.",
  OPS, [("shift emulations", "hwy/ops/x86_128-inl.h"), ("PopulationCount/LeadingZeroCount/ReverseBits", "hwy/ops/generic_ops-inl.h")],
  ["vector op results stored to memory"])
p("C05", "Comparisons and mask creation, conversion, logic and queries are exact",
  "For every target, lane type and vector length, each comparison yields a mask that is true exactly in the lanes where the scalar comparison holds (including NaN and 128-bit pair comparisons), and every way of building, combining, shifting, converting, storing, counting or searching masks (first-N, from bits, sets before/at/after first, and/or/xor/not, promotion and concatenation, count, find first/last, all true/false) acts on exactly the lanes of the vector and ignores everything outside it.",
  ["inputs", "configurations"], "For every target, lane type, vector length, every mask pattern and every pair of operands, including arbitrary garbage outside partial vectors.",
  "Mask representations differ per target (vector, bits, bool); stray bits beyond a partial vector are not generated by tests.",
  OPS, [("mask ops", "hwy/ops/x86_512-inl.h"), ("mask ops for vector masks", "hwy/ops/x86_128-inl.h"), ("generic mask ops", "hwy/ops/generic_ops-inl.h")],
  ["masks converted to vectors, bits and counts"])
p("C06", "Conditional selection and masked arithmetic touch exactly the masked lanes",
  "For every target, lane type, vector length and mask, selection operations and every masked arithmetic, shift, comparison or multiply operation return the operation's result exactly in the selected lanes and the documented alternative (fallback vector or zero) in all other lanes.",
  ["inputs", "configurations"], "For every target, lane type, vector length, mask pattern and operand values, including values that would fault or overflow in unselected lanes.",
  "Tests try few masks per op; a swapped fallback or a lane-order error in one masked op or one type is easily missed.",
  OPS, [("IfThenElse family", "hwy/ops/x86_128-inl.h"), ("Masked* ops", "hwy/ops/generic_ops-inl.h"), ("AVX-512 native masking", "hwy/ops/x86_avx3-inl.h")],
  ["vector op results stored to memory"])
p("C07", "Lane type conversions round, saturate and order lanes as documented",
  "For every target and supported source/destination lane-type pair and vector length, promotion is value-preserving, demotion saturates or rounds as documented, float-integer conversion truncates or rounds to nearest and saturates out-of-range values as documented, truncation keeps the low bits, and every ordered, reordering, upper/lower/even/odd or mask-conditional variant places each converted lane where documented.",
  ["inputs", "configurations"], "For every target, type pair, length and lane value including NaN, infinities, out-of-range values and halfway cases.",
  "Conversions have dozens of type pairs with per-target emulation; boundary values (2^31, 2^63, halfway, denormal) are sampled sparsely.",
  OPS, [("PromoteTo/DemoteTo/ConvertTo", "hwy/ops/x86_128-inl.h"), ("generic conversions", "hwy/ops/generic_ops-inl.h")],
  ["vector op results stored to memory"])
p("C08", "Permutations move every lane to exactly the documented position",
  "For every target, lane type and vector length, every reverse, broadcast, shuffle, slide, rotate, interleave, concatenate, combine, split, zip, odd/even, block swap and table-lookup operation outputs, for every valid index or shift amount, exactly the documented source lane bits in each position, with zeros or unspecified lanes only where documented; lane extract/insert and the constant-vector constructors (set, iota, zero, duplicated 128-bit constants) give exactly the requested lanes.",
  ["inputs", "configurations"], "For every target, lane type, vector length, every valid index vector and shift amount, and arbitrary lane contents.",
  "Tests mostly use iota inputs and one index set; index-dependent and length-dependent paths differ per target.",
  OPS, [("swizzles", "hwy/ops/x86_256-inl.h"), ("swizzles 512", "hwy/ops/x86_512-inl.h"), ("generic swizzles", "hwy/ops/generic_ops-inl.h")],
  ["vector op results stored to memory"])
p("C09", "Compress and expand preserve exactly the selected lanes in order",
  "For every target, lane type, vector length and mask, compress packs the selected lanes in order to the front (and, where documented, the rest after them), compress-store variants write and count exactly the selected lanes (the blended variant changing nothing beyond them), and expand or expanding load places consecutive input lanes into the selected positions with zeros elsewhere.",
  ["inputs", "configurations"], "For every target, lane type, vector length and every mask pattern (all 2^n for up to 8 lanes, sampled beyond).",
  "Each target uses different lookup tables or instructions; a single wrong table row needs one particular mask.",
  OPS, [("compress/expand tables", "hwy/ops/x86_128-inl.h"), ("AVX-512 compress", "hwy/ops/x86_avx3-inl.h"), ("generic expand", "hwy/ops/generic_ops-inl.h")],
  ["stored lanes and returned counts"])
p("C10", "Loads, stores, gathers and scatters access exactly the documented memory",
  "For every target, lane type, vector length, alignment, mask, count and index vector, each load, store, partial load/store, masked or blended access, duplicating load, interleaved load/store, gather and scatter transfers exactly the documented lanes bit-for-bit, fills the rest as documented, and partial (count-limited) or masked accesses neither modify bytes outside the documented lanes nor fault when the memory beyond them is inaccessible where that is documented.",
  ["inputs", "configurations"], "For every target, type, length, alignment, count, mask and index, with inaccessible pages directly before/after the documented range.",
  "Out-of-bounds accesses are invisible to value checks unless guard pages or canaries surround every generated length and alignment.",
  OPS, [("LoadN/StoreN", "hwy/ops/x86_128-inl.h"), ("interleaved load/store, gather/scatter", "hwy/ops/generic_ops-inl.h"), ("masked load/store", "hwy/ops/x86_avx3-inl.h")],
  ["memory contents, guard pages"])
p("C11", "Reductions and grouped sums combine every lane exactly once",
  "For every target, lane type and vector length, horizontal sum/min/max (plain, broadcast and masked) and sums or absolute-difference sums of groups of 2, 4 or 8 lanes equal the scalar reduction over exactly the lanes of the vector (or its selected lanes), integers with wraparound and floats within the error of any summation order.",
  ["inputs", "configurations"], ALLT,
  "An omitted or duplicated lane in one target/type/length reduction tree shows only with inputs where that lane matters.",
  OPS, [("reductions", "hwy/ops/x86_128-inl.h"), ("generic reductions", "hwy/ops/generic_ops-inl.h")],
  ["scalars and vectors returned"])
p("C12", "AES rounds, key assist and carryless multiply follow the standard",
  "For every target and vector length, AES encryption and decryption rounds (middle and last), inverse mix columns, key-generation assist for every round constant, and lower/upper 64-bit carryless multiplication produce, in every 128-bit block, exactly the result of the FIPS-197 / polynomial definition for every state, key and operand.",
  ["inputs", "configurations"], "For every target, vector length, block content, key and round constant.",
  "Tests use a few published vectors; targets without hardware support use an independent software path.",
  OPS, [("AES/CLMul emulation", "hwy/ops/generic_ops-inl.h"), ("AES/CLMul hardware", "hwy/ops/x86_128-inl.h")],
  ["vector op results stored to memory"])
p("C13", "Scalar helper arithmetic equals exact mathematics",
  "The library's scalar helpers - bit scans and counts, rounding and division helpers, 128-bit multiplication, type-limit and bit-field helpers, byte and range utilities, and division by a run-time invariant divisor or remainder - return exactly the mathematically defined result for every input in their documented domain.",
  ["inputs"], "For every argument value in the documented domain of each helper, every divisor (32 and 64 bit) and dividend.",
  "Tests check a few values; multiply-shift division is wrong only for rare (divisor, dividend) pairs when a constant or shift is off.",
  ["hwy/base.h"], [("Divisor/Divisor64, bit helpers, scalar arithmetic", "hwy/base.h")],
  ["return values"])
p("C14", "Half and bfloat16 scalar conversions and arithmetic are correctly rounded",
  "Conversion between 16-bit floats (half and bfloat16) and wider floats is exact when widening and rounds to nearest even when narrowing, preserving sign, infinities, NaN-ness and denormals, for every one of the 65536 encodings and every wider value; comparison (including three-way) and arithmetic operators on the scalar types equal the same operation on the widened values rounded once.",
  ["inputs"], "All 65536 encodings; every float/double input including halfway and overflow boundaries.",
  "Tests check selected encodings; rounding carries at exponent boundaries and denormals are single points.",
  ["hwy/base.h"], [("F32FromF16, F16FromF32, BF16FromF32, F16FromF64", "hwy/base.h")],
  ["return values"])
p("C15", "Dynamic dispatch runs exactly the best allowed implementation",
  "After any sequence of disabling targets, forcing a set of supported targets, re-initialising and querying, each dynamically dispatched function (including return-value and overload/template export forms) runs the implementation for the best target that is both compiled in and allowed, the reported supported set is exactly the CPU-supported set minus what was disabled (never empty), the queries about the dispatched target (its identity, vector size and supported lane types) describe that same target, and every thread sees a valid implementation on its first call.",
  ["histories", "schedules", "configurations"], "For every history of target-set changes and every interleaving of dispatched calls from multiple threads.",
  "Tests run with one fixed target mask and a fixed short sequence; combinations and first-call races are not explored.",
  ["hwy/targets.cc", "hwy/targets.h", "hwy/highway.h", "hwy/per_target.cc"], [("chosen target and dispatch tables", "hwy/targets.h"), ("export macros", "hwy/highway.h")],
  ["target reported by the dispatched function", "reported supported targets"],
  [("supported mask override", "targets forced or disabled", "hwy/targets.cc")])
p("C16", "Aligned allocation returns aligned, disjoint, fully usable memory or null",
  "Every successful aligned allocation (bytes, arrays, unique pointers, containers) is aligned as promised, provides at least the requested size without overlapping any other live allocation, is released exactly once through the matching deallocator with the original pointer and opaque argument, constructs and destroys each element exactly once, N-dimensional arrays and spans (mutable or const) expose exactly their own elements, and a request whose size computation would overflow or whose allocator fails yields null or the documented failure instead of a short block.",
  ["histories", "inputs", "fault_sequences"], "For every history of allocations and frees with arbitrary sizes, custom allocators and injected allocation failures.",
  "Tests use small sizes and a well-behaved allocator; overflow limits and failures at arbitrary points are not enumerated.",
  ["hwy/aligned_allocator.cc", "hwy/aligned_allocator.h"], [("header before payload; cyclic offset", "hwy/aligned_allocator.cc"), ("AlignedVector, unique pointers, Span", "hwy/aligned_allocator.h")],
  ["pointers, allocator callbacks, constructor/destructor counts"])
p("C17", "Bit sets behave like a mathematical set of small integers",
  "After any sequence of operations (set, clear, set from a 64-bit mask, clearing elements while iterating) on a fixed-size bit set - the 64-bit one and the two-level one of any capacity up to 4096 - membership, count, emptiness, first element, raw 64-bit view and in-order iteration agree with a reference set of integers, and no memory outside the set is modified.",
  ["histories"], "For every operation history and bit-set capacity.",
  "Tests check a few random sets; boundaries at word edges and empty/full sets in combinations are sampled sparsely.",
  ["hwy/bit_set.h"], [("BitSet64, BitSet4096", "hwy/bit_set.h")],
  ["query results, iteration order"])
p("C18", "Statistics accumulate and merge to the same values as a direct computation",
  "For every sequence of samples and every way of splitting it into parts that are merged, the running statistics report the same count, minimum, maximum and (within rounding) mean, geometric mean, variance, skewness and kurtosis as a direct computation over all samples, and the text report contains exactly the requested statistics with their values; histogram bins count every notified value; and the robust statistics of unsigned integers (counting sort, half-sample mode, median, median absolute deviation) equal a straightforward reference.",
  ["inputs", "histories"], "For every finite sample multiset, order and partition.",
  "Tests use one or two distributions; merge with empty parts, ties and single elements are corner cases.",
  ["hwy/stats.h", "hwy/stats.cc", "hwy/robust_statistics.h"], [("Stats::Notify/Assimilate", "hwy/stats.h"), ("robust statistics", "hwy/robust_statistics.h")],
  ["reported statistics"])
p("C19", "Auto-tuning tries every candidate and settles on the cheapest",
  "For any candidate list and any sequence of reported costs, the auto-tuner only ever offers candidates from the list, keeps asking until it has enough measurements, finishes after a bounded number of reports, then always returns one fixed best candidate whose measured cost is minimal when costs separate the candidates, even with outliers; its cost estimators stay within the range of the samples and ignore bounded outliers.",
  ["histories"], "For every candidate count, cost landscape and noise/outlier history.",
  "Tests use one cost function; degenerate landscapes and adversarial noise are not generated.",
  ["hwy/auto_tune.h"], [("CostDistribution, NextWithSkip, AutoTune", "hwy/auto_tune.h")],
  ["offered candidates and final best"])
p("C20", "Value printing, error reporting and abort hooks are faithful and bounded",
  "Printing any lane type's value, array or vector yields text that denotes the selected lanes' values (exactly for integers, to the printed precision for floats) and never writes beyond the given buffer; type and target names are the documented ones for every type and target; warnings and aborts deliver the complete formatted message (up to 799 characters) with file and line to the installed handler (or stderr if none), abort terminates the process even if its handler returns, and installing a handler returns the previous one.",
  ["inputs", "histories"], "For every lane value of every type, array length, message content and handler history.",
  "Tests print a few values; hex/float formatting boundaries and long messages are not exercised.",
  ["hwy/print.cc", "hwy/print.h", "hwy/print-inl.h", "hwy/abort.cc", "hwy/targets.cc"], [("TypeName/ToString/PrintArray", "hwy/print.cc"), ("Warn/Abort handlers", "hwy/abort.cc")],
  ["buffers, captured stderr, handler arguments"])
p("C21", "Vectorised sort returns an ordered permutation for every input",
  "For every supported key type (integers, floats, 128-bit and key-value pairs), order, length, data distribution and target, sorting leaves the array a permutation of its input (same multiset of key values and key-value pairs; +0/-0 count as the same value and NaNs, whose payload need not survive, are placed last in either direction), ordered according to the requested direction, without reading or writing outside the array.",
  ["inputs", "configurations"], "For every input array of any length, key type, order and CPU target.",
  "Tests use fixed-size uniform or few-valued inputs; recursion, pivot, partition and small-case paths depend on size and duplicates.",
  ["hwy/contrib/sort/vqsort-inl.h", "hwy/contrib/sort/vqsort.cc", "hwy/contrib/sort/vqsort.h", "hwy/contrib/sort/traits-inl.h", "hwy/contrib/sort/traits128-inl.h", "hwy/contrib/sort/sorting_networks-inl.h", "hwy/contrib/sort/shared-inl.h"],
  [("partition, pivot sampling, base case networks", "hwy/contrib/sort/vqsort-inl.h"), ("key traits", "hwy/contrib/sort/traits128-inl.h")],
  ["array after sorting, canaries around it"])
p("C22", "Partial sort and selection place exactly the k smallest or largest keys",
  "For every supported key type, order, length and position k, partial sort leaves the first k elements equal to the first k of the fully sorted array, selection puts the correct key at position k with no element before it ordered after it and vice versa, and both leave the array a permutation of its input (NaNs ordered last) without accessing memory outside it.",
  ["inputs", "configurations"], "For every input array, k, key type, order and CPU target.",
  "Tests check a few (n, k) pairs; the recursion's choice of side depends on k relative to the partition bound.",
  ["hwy/contrib/sort/vqsort-inl.h", "hwy/contrib/sort/vqsort.h", "hwy/contrib/sort/vqsort.cc"], [("partial sort / select recursion", "hwy/contrib/sort/vqsort-inl.h")],
  ["array after the call"])
p("C23", "Array algorithms equal their scalar loop and stay within the arrays",
  "For every element type, count (including zero and non-multiples of the vector length), alignment and target, fill, copy, conditional copy, find, conditional find, generate, transform with up to two extra arrays, in-place transform/foreach and replace produce exactly what the scalar loop produces and neither read nor write outside the documented ranges.",
  ["inputs", "configurations"], "For every array content, length, alignment, predicate and target.",
  "Tail handling differs per target and length; tests use few lengths and no guard pages.",
  ["hwy/contrib/algo/copy-inl.h", "hwy/contrib/algo/find-inl.h", "hwy/contrib/algo/transform-inl.h"], [("loops and remainder handling", "hwy/contrib/algo/transform-inl.h")],
  ["arrays, canaries, return values"])
p("C24", "Unrolled loops apply the user's unit to every element exactly once",
  "For every unit kind (map, two-input, reduction, early-exit), array length, alignment and target, running a unit through the unroller gives the same outputs, reduction value and stopping position as applying it in a simple loop, without accessing memory outside the documented ranges.",
  ["inputs", "configurations"], "For every length, unroll factor, start offset and unit kind on every target.",
  "Tests use one set of lengths and units; interactions of unroll factor, remainder and reload flags are not enumerated.",
  ["hwy/contrib/unroller/unroller-inl.h"], [("Unroller<> overloads", "hwy/contrib/unroller/unroller-inl.h")],
  ["output arrays, reduction values"])
p("C25", "Dot products equal the exact sum within rounding for every length",
  "For every supported element-type combination, length, alignment, assumption flag consistent with the data, and target, the vectorised dot product equals the mathematically exact sum of products within the accumulated rounding error of the accumulator type (exactly, when all intermediate values are representable), each element pair contributing exactly once and nothing beyond the length being read where not allowed.",
  ["inputs", "configurations"], "For every length, alignment, flags, type pair, values and target.",
  "Tests use few lengths; skipped or duplicated tail elements need particular lengths and assumption flags.",
  ["hwy/contrib/dot/dot-inl.h"], [("Dot::Compute", "hwy/contrib/dot/dot-inl.h")],
  ["return value"])
p("C26", "Matrix-vector products equal the reference for every shape and pool size",
  "For every supported element-type combination, matrix shape the interface accepts, presence or absence of an additive term, thread count and target, each output row equals the exact dot product of that row with the vector (plus the addend) within accumulated rounding error, and rows are each written exactly once.",
  ["inputs", "configurations", "schedules"], "For every accepted shape, value set, thread count and target.",
  "Tests check a handful of shapes and one pool.",
  ["hwy/contrib/matvec/matvec-inl.h"], [("MatVec, MatVecAdd, TwoMatVec", "hwy/contrib/matvec/matvec-inl.h")],
  ["output vector"])
p("C27", "Vector math functions meet their documented error and special values",
  "For every target, float type and vector length, each vector math function (exponentials, logarithms, trigonometric, hyperbolic and inverse functions, sincos, hypotenuse, two-argument arctangent) is within its documented maximum error in units in the last place of the true value for every finite input in its documented range, and the two-argument arctangent and hypotenuse handle signed zeros, infinities and NaN as documented (like std::atan2 and std::hypot).",
  ["inputs", "configurations"], "For every float/double in the documented valid range of each function and every target.",
  "Tests step through the range with a fixed stride on sampled values; narrow bad intervals and special values go unseen.",
  ["hwy/contrib/math/math-inl.h"], [("range reduction and polynomial evaluation", "hwy/contrib/math/math-inl.h")],
  ["function results vs. higher-precision reference"])
p("C28", "Vector random generator reproduces the reference streams on every target",
  "For every seed, starting thread, vector length and output count, the vectorised generator emits for each lane exactly the reference xoshiro256++ stream of that lane (streams separated by the documented jumps), buffered batches equal successive single draws, uniform doubles lie in [0, 1) with the documented mapping of bits, and the scalar splitmix, jump and long-jump functions equal the reference definitions.",
  ["inputs", "histories", "configurations"], "For every seed, thread index, draw sequence and target.",
  "Tests check one seed; jump constants and per-lane stream order are checked against the same code.",
  ["hwy/contrib/random/random-inl.h"], [("Xoshiro, VectorXoshiro, CachedXoshiro", "hwy/contrib/random/random-inl.h")],
  ["generated values"])
p("C29", "Bit packing round-trips every value at every width",
  "For every target, lane width (8 to 64 bits), packed bit width and optional frame of reference, packing a full set of raw lanes (each within the width) and unpacking it returns the same lanes, writes exactly the documented packed size, and the packed bits contain each input lane exactly once.",
  ["inputs", "configurations"], "For every bit width, every raw lane content within the width, and every target.",
  "Tests use one random fill per width with a checksum-like comparison on enabled targets.",
  ["hwy/contrib/bit_pack/bit_pack-inl.h"], [("Pack8, Pack16, Pack32, Pack64", "hwy/contrib/bit_pack/bit_pack-inl.h")],
  ["packed and unpacked buffers"])
p("C30", "Image rows are aligned, disjoint, large enough and correctly wrapped or mirrored",
  "For every image size, pixel type, padding initialisation, plane count and sequence of create, move, swap, shrink and fill operations, every row is vector-aligned with at least the padded width of writable memory disjoint from all other rows, pixels written are read back, images wrapping external memory access nothing outside it, moved-from images can be assigned or destroyed, shrinking keeps the rows, rectangles clamp to the given size and map rows correctly, and mirror/wrap coordinate helpers map every coordinate to the documented position inside the image.",
  ["inputs", "histories"], "For every size, type, plane count and operation history.",
  "Tests use a fixed set of sizes; overflow, padding and cyclic-offset logic depends on size modulo vector and cache parameters.",
  ["hwy/contrib/image/image.h", "hwy/contrib/image/image.cc"], [("ImageBase allocation, row access, Mirror/WrapRow", "hwy/contrib/image/image.h")],
  ["row pointers, pixel contents"])
p("C31", "Thread pool runs each task exactly once and returns only when all are done",
  "For every pool size, task range, wait mode and auto-tuned configuration, and any history of runs, mode switches, pool re-creation and nested independent pools, every task index in the range is passed to the closure exactly once with a valid worker index used by at most one thread at a time, effects of all tasks are visible when the run returns (and prior effects of the caller are visible to the tasks), runs never deadlock, the active configuration always is one of the candidates for the requested wait mode and becomes fixed after a bounded number of runs, and the destructor waits for all threads to exit.",
  ["schedules", "histories", "configurations"], "For every thread count, task count, closure duration profile, wait mode and configuration history, under any OS schedule.",
  "Tests use short uniform closures; lost wakeups and double execution need uneven task durations and mode changes.",
  ["hwy/contrib/thread_pool/thread_pool.h", "hwy/contrib/thread_pool/futex.h", "hwy/contrib/thread_pool/spin.h"],
  [("wait/barrier policies", "hwy/contrib/thread_pool/thread_pool.h"), ("task division and work stealing", "hwy/contrib/thread_pool/thread_pool.h")],
  ["per-task execution counters"],
  [("worker states", "per-worker begin/end/epoch", "hwy/contrib/thread_pool/thread_pool.h")])
p("C32", "Waiting primitives and CPU-topology helpers never lose wakeups or CPUs",
  "Spin and futex waits return only after the awaited value has changed and always return once it has, for every waiter/waker interleaving; CPU sets, affinity get/set and the detected topology are internally consistent (every logical processor in exactly one cluster and package, sizes and caches positive) and parsing of range lists and sizes matches the documented kernel format for every well-formed string.",
  ["schedules", "inputs"], "For every interleaving of waiters and wakers and every value history; for every affinity subset of the host.",
  "Tests exercise one waiter with one value; topology tests print.",
  ["hwy/contrib/thread_pool/spin.h", "hwy/contrib/thread_pool/futex.h", "hwy/contrib/thread_pool/topology.cc", "hwy/contrib/thread_pool/topology.h"],
  [("SpinUntilDifferent/BlockUntilDifferent", "hwy/contrib/thread_pool/futex.h"), ("topology detection", "hwy/contrib/thread_pool/topology.cc")],
  ["return values, CPU masks"])
p("C33", "Profiler zones report exact call counts and self times",
  "With the profiler enabled, for every tree of nested zones on any number of threads, printing the results after all zones ended lists every zone name exactly once - also when several zones share a name - with the exact number of times it was entered and the total time spent in it excluding nested zones (zones of a thread that overflow its packet buffer included), in descending order of total time; clock wraparound does not matter and nothing is printed for a program without zones.",
  ["histories", "schedules"], "For every nesting up to the documented limits, repetition count, thread count, and timestamp origin.",
  "There is no test of the profiler; only an example program prints results.",
  ["hwy/profiler.h"], [("packet buffer, zone stack and accumulators", "hwy/profiler.h")], ["printed results"],
  [("zones_", "retired zones with calls and self time", "hwy/profiler.h"), ("nodes_", "stack of active zones", "hwy/profiler.h")])
p("C34", "Timers and micro-benchmarks report the true elapsed time and cost",
  "Timer start/stop return the time stamp counter of the moment of the call, the tick rate equals ticks per second of steady time even if a repetition is disturbed, the current time and elapsed seconds are ticks over the rate, and the timer resolution is the typical distance of back-to-back calls. Measuring a function returns exactly one result per unique input whose ticks equal the cost of the function for that input, with loop and timer overhead removed and outliers ignored, and calls the function only with given inputs and the given argument.",
  ["inputs", "histories"], "For every input distribution, function cost, parameter set, tick rate, timer overhead and pattern of outliers below half of the samples.",
  "Real clocks are noisy, so tests only check that something positive is measured.",
  ["hwy/timer.h", "hwy/timer.cc", "hwy/nanobenchmark.h", "hwy/nanobenchmark.cc", "hwy/robust_statistics.h"],
  [("Start/Stop, tick rate", "hwy/timer.cc"), ("subset differences", "hwy/nanobenchmark.cc")], ["returned durations and results"])
p("C35", "Performance counters report each event's own extrapolated value",
  "For every set of events the kernel offers, every hardware group limit and every pattern of interrupted or partial system calls: initialisation succeeds exactly if some counter is available (and may be retried), counters run only between start and stop, stopping zeroes them, and reading yields for every available counter its own count multiplied by enabled time over running time of its group, zero and invalid for the others, nothing valid if a group never ran, the maximum extrapolation factor, and a visit of the valid counters in increasing order.",
  ["configurations", "fault_sequences", "histories"], "For every availability set, group capacity, multiplexing pattern, interruption pattern and history of start, stop and read.",
  "Tests need real hardware counters, which CI machines usually do not offer, and can only check plausibility.",
  ["hwy/perf_counters.h", "hwy/perf_counters.cc", "hwy/bit_set.h"], [("grouping, reading and extrapolation", "hwy/perf_counters.cc")],
  ["counter values and validity"], [("groups_/fds_", "opened events in groups", "hwy/perf_counters.cc")])
p("C36", "Vector tags and lane counts keep their documented relations on every target",
  "ScalableTag and FixedTag select exactly a full register and the requested lanes, CappedTag the largest power of two not above the cap and the register; Half and Twice halve and double the lanes, Rebind and RebindTo* keep the lanes and change the type, Repartition and RepartitionTo* keep the size in bytes, BlockDFromD yields at most 16 bytes, DFromV of a tag's vector has its type and lanes. After any sequence of these, Lanes, MaxLanes, MaxBytes and MaxBlocks agree with each other, the vector and mask types equal those of every other tag of that shape, loads, stores and mask queries observe exactly Lanes lanes, and IsAligned agrees with Lanes.",
  ["programs", "configurations"], "For every lane type, starting alias, cap or lane count and every sequence of tag transformations that stays within one register, on every target.",
  "Tests check single transformations of the tags they happen to use, never sequences, whose internal encoding (fractions, shifted counts) depends on the path.",
  ["hwy/ops/shared-inl.h", "hwy/ops/set_macros-inl.h", "hwy/base.h", "hwy/highway.h"],
  [("Simd<>, tag aliases and transformations", "hwy/ops/shared-inl.h"), ("MakeWide/MakeNarrow/MakeSigned type relations", "hwy/base.h")],
  ["lane types, counts and vector types of tags"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
