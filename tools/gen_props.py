#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays easy to edit)."""
import json, os
X = "x86 targets SSE2, SSSE3, SSE4, AVX2, AVX3 (and AVX3_DL/ZEN4/SPR when compiled for) and the portable scalar and 128-bit emulated targets"
OPS = ["hwy/ops/x86_128-inl.h", "hwy/ops/x86_256-inl.h", "hwy/ops/x86_512-inl.h", "hwy/ops/x86_avx3-inl.h",
       "hwy/ops/generic_ops-inl.h", "hwy/ops/scalar-inl.h", "hwy/ops/emu128-inl.h", "hwy/ops/shared-inl.h"]
P = []
def prop(id, title, statement, qtext, why, mech, files=None, over=("inputs", "configurations"), state=None, observe=None):
    a = {"files": files or OPS, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why, "anchors": a})
SIMDWHY = "Tests feed each operation a handful of iota/limit/random vectors on the one compiler and machine at hand; the claim is for every lane value, lane position, vector size and target, and most operations have several target- or compiler-specific implementations with branches and constants that only rare lane values exercise."
Q = "every lane value, every lane type and vector size the operation is defined for, every x86 and portable target, both compilers' code paths"

prop("C01", "Integer lane arithmetic is exact or saturates as documented",
 "On every x86 and portable target, element-wise integer addition, subtraction, negation, absolute value, absolute difference, low-half multiplication, multiply-add/-subtract, averaging and alternating add/subtract yield in each lane the mathematical result modulo 2^bits, rounded as documented, and their saturating forms (addition, subtraction, negation, absolute value) yield the mathematical result clamped to the lane type's range. Each lane depends only on the same lane of the inputs.",
 Q, SIMDWHY, [("Add/Sub/SaturatedAdd/AverageRound/AbsDiff/Mul/MulAdd/AddSub", "hwy/ops/x86_*-inl.h, generic_ops-inl.h")])
prop("C02", "Widening, high-half and multiply-accumulate integer products are exact",
 "On every x86 and portable target, integer operations that produce the high half, the double-width even/odd product, the rounded fixed-point product, or pairwise/quad widened (optionally saturated) dot products and accumulations yield exactly the documented integer value for all inputs inside their documented preconditions. Accumulating forms that may reorder lanes preserve the exact total of all lanes modulo 2^bits.",
 Q, SIMDWHY, [("MulHigh/MulEven/MulOdd/MulFixedPoint15/WidenMulPairwiseAdd/SatWidenMulPairwiseAdd/SumOfMulQuadAccumulate/ReorderWidenMulAccumulate/RearrangeToOddPlusEven/WidenHighMulAdd", "hwy/ops/*.h")])
prop("C03", "Integer division and remainder are exact, by vector or by invariant divisor",
 "For every integer type and every pair of operands whose quotient is defined, vector division and remainder (plain and masked) equal truncated integer division and its remainder. The scalar invariant-divisor helpers return the exact quotient and remainder for every dividend and every nonzero divisor.",
 "every dividend/divisor pair (8/16/32/64 bit), every x86 and portable target", SIMDWHY + " Division is emulated through floating-point or multiplication by reciprocals, whose errors only show for rare operand pairs.",
 [("operator/, Mod, MaskedDivOr, MaskedModOr", "hwy/ops/generic_ops-inl.h"), ("Divisor, Divisor64", "hwy/base.h")], files=OPS + ["hwy/base.h"])
prop("C04", "Shifts and rotates move bits exactly, for every valid amount",
 "On every x86 and portable target, left, arithmetic-right, logical-right, rounding-right shifts and rotations - by constant, by a uniform runtime amount, and by per-lane amounts - yield in each lane the exact documented bit pattern for every lane value and every amount in the documented range, including zero and the maximum. Masked and byte-wise/128-bit-block shifting forms agree with the same definition.",
 Q + ", every valid shift amount", SIMDWHY, [("ShiftLeft/ShiftRight/*Same/Shl/Shr/Rol/Ror/RotateRight/RoundingShiftRight/RoundingShr/ShiftLeftBytes/ShiftRightLanes", "hwy/ops/*.h")])
prop("C05", "Bitwise logic, bit counting and bit permutation are exact",
 "On every x86 and portable target, bitwise logic (and, or, xor, not, and-not, three-operand forms), bitwise and lane-wise selection, population count, leading/trailing zero counts, highest-set-bit index, bit and byte reversal, and bit-shuffling operations yield the documented bit pattern in every lane for every input.",
 Q, SIMDWHY, [("And/Or3/AndNot/IfVecThenElse/BitwiseIfThenElse/PopulationCount/LeadingZeroCount/HighestSetBitIndex/ReverseBits/ReverseLaneBytes/BitShuffle/MultiShift/MultiRotateRight", "hwy/ops/*.h")])
prop("C06", "Comparisons and min/max follow integer order and IEEE-754 rules",
 "On every x86 and portable target, lane comparisons return exactly the mathematical order for integers (including 128-bit pairs) and IEEE-754 order for floating point, so any comparison other than inequality is false when an operand is NaN. Minimum, maximum, clamp, min/max-by-magnitude and min/max-number operations return the operand that the documented order selects.",
 Q, SIMDWHY, [("Eq/Ne/Lt/Le/Gt/Ge/Lt128/Eq128/Min/Max/Min128/MinMagnitude/MaxNumber/Clamp/TestBit", "hwy/ops/*.h")])
prop("C07", "Mask creation, logic, queries and conversions agree bit for bit",
 "On every x86 and portable target, every mask operation - building a mask from a count, a vector, bits in memory or another lane width; logical combination; counting, finding the first or last set lane; testing all/none; storing bits; isolating or filling up to the first set lane; sliding; combining and splitting halves - is exact with respect to the set of lanes that are true, for every mask and every count. Bits stored beyond the last lane are zero and bytes beyond the documented extent are untouched.",
 Q + ", every mask value, every count", SIMDWHY, [("FirstN/MaskFromVec/LoadMaskBits/StoreMaskBits/BitsFromMask/CountTrue/FindFirstTrue/SetBeforeFirst/SlideMaskUpLanes/Dup128MaskFromMaskBits/PromoteMaskTo/ConcatMasks...", "hwy/ops/*.h")])
prop("C08", "Masked operations act on selected lanes and only on them",
 "On every x86 and portable target, a masked arithmetic, min/max, shift, comparison, conversion or selection operation returns in each selected lane exactly what the unmasked operation returns and in every other lane exactly the documented fallback (another vector's lane or zero), for every mask, all inputs, and regardless of what the unselected input lanes contain.",
 Q + ", every mask value", SIMDWHY, [("IfThenElse/IfThenElseZero/ZeroIfNegative/MaskedAddOr/MaskedSatAddOr/MaskedMax/MaskedEq/MaskedSqrt/MaskedConvertTo...", "hwy/ops/*.h")])
prop("C09", "Integer widening and narrowing preserve values or clamp/wrap as documented",
 "On every x86 and portable target, promoting an integer lane preserves its value, demoting clamps it to the destination's range, and truncating keeps its low bits, for every value and every source/destination pair. Lower/upper/even/odd selection and ordered or reordered two-vector forms place each result lane where documented.",
 Q, SIMDWHY, [("PromoteTo/PromoteUpperTo/PromoteEvenTo/DemoteTo/ReorderDemote2To/OrderedDemote2To/TruncateTo/OrderedTruncate2To/U8FromU32", "hwy/ops/*.h")])
prop("C10", "Float conversions round correctly and float-to-int saturates",
 "On every x86 and portable target, conversions between integers and floats and among 16-bit, bfloat, 32-bit and 64-bit floats return the correctly rounded value with infinities and NaN-ness preserved (halves' subnormals included). Float-to-integer conversions truncate (or round to nearest even where documented) and saturate to the destination's range for out-of-range inputs.",
 Q + " including NaN, infinities, subnormals and out-of-range values; scalar half/bfloat conversion functions", SIMDWHY,
 [("ConvertTo/NearestInt/PromoteTo/DemoteTo/ConvertInRangeTo", "hwy/ops/*.h"), ("F32FromF16/F16FromF32/F16FromF64/BF16FromF32/BF16FromF64", "hwy/base.h")], files=OPS + ["hwy/base.h"])
prop("C11", "Floating-point lane operations match IEEE-754 semantics",
 "On every x86 and portable target, floating-point add, subtract, multiply, divide, square root, negation, absolute value, sign copying and exact-zero/NaN/infinity/finite classification return the IEEE-754 result in every lane, and multiply-add forms return the correctly rounded fused or the twice-rounded result with the documented signs. Rounding to integral values (nearest-even, toward zero, up, down), exponent extraction and power-of-two scaling return the documented value for every input including signed zeros, subnormals, infinities and NaN.",
 Q, SIMDWHY, [("Add/Mul/Div/Sqrt/MulAdd/NegMulSub/Round/Trunc/Ceil/Floor/IsNaN/IsInf/IsFinite/CopySign/MulByPow2/GetBiasedExponent/complex ops", "hwy/ops/*.h")])
prop("C12", "Lane permutations move every lane to its documented position",
 "On every x86 and portable target, operations that reorder, broadcast, interleave, combine, split, slide, reverse, insert, extract or look up lanes or 128-bit blocks (by fixed pattern, compile-time constant or runtime indices) return exactly the input lane the documentation names at each output position, and zero where documented, for every lane type, vector size, valid amount and valid index vector.",
 Q + ", every valid index/amount", SIMDWHY, [("Reverse*/Shuffle*/Broadcast*/Interleave*/Zip*/Concat*/Combine/Slide*/TableLookup*/TwoTablesLookupLanes/CombineShiftRightBytes/OddEven*/SwapAdjacentBlocks/InsertLane", "hwy/ops/*.h")])
prop("C13", "Compress and expand keep selected lanes, in order",
 "On every x86 and portable target, compressing places the lanes selected by a mask contiguously at the front in their original order, followed by (where documented) the unselected lanes in order, and returns or stores exactly that many lanes; the blended form leaves memory beyond them untouched. Expanding is the inverse: consecutive input lanes go to the selected positions and unselected lanes are zero.",
 Q + ", every mask value", SIMDWHY, [("Compress/CompressNot/CompressBlocksNot/CompressStore/CompressBlendedStore/CompressBits/Expand/LoadExpand", "hwy/ops/*.h")])
prop("C14", "Vector loads and stores transfer exactly the requested memory",
 "On every x86 and portable target, full, partial (first n lanes), masked, blended, duplicating and streaming loads and stores, for every n (including 0 and n beyond the vector length), mask, alignment and lane type, read or write exactly the documented elements: no byte outside them is written, none outside is read by the operations documented not to fault, and lanes not loaded hold the documented zero or fallback value.",
 Q + ", every count and mask, every alignment offset", SIMDWHY, [("Load/LoadU/LoadN/LoadNOr/MaskedLoad/MaskedLoadOr/LoadDup128/Store/StoreU/StoreN/BlendedStore/SafeFillN/SafeCopyN/InsertIntoUpper/LoadUpper", "hwy/ops/*.h")],
 observe=["memory regions next to the accessed ones"])
prop("C15", "Gather/scatter and interleaved loads/stores hit exactly the right addresses",
 "On every x86 and portable target, gathers and scatters (by byte offset or element index, full, first-n and masked) access exactly base plus the lane's offset for every selected lane and nothing else, scatters in lane order; interleaved 2-, 3- and 4-channel stores and loads are exact transposes of their channel vectors, mutually inverse, and touch exactly the documented span.",
 Q + ", every in-range index vector, mask and count", SIMDWHY, [("GatherOffset/GatherIndex/GatherIndexN/MaskedGatherIndex/ScatterOffset/ScatterIndexN/MaskedScatterIndex/LoadInterleaved2..4/StoreInterleaved2..4/ScatterOffset", "hwy/ops/*.h")])
prop("C16", "Reductions combine every lane exactly once",
 "On every x86 and portable target, horizontal sums, minima and maxima of all lanes (as scalar or broadcast, plain and masked), sums of adjacent 2, 4 or 8 lanes, and sums of (shuffled) absolute differences equal the exact documented combination of all and only the stated lanes; for floating-point sums, of each lane exactly once under some association.",
 Q, SIMDWHY, [("ReduceSum/ReduceMin/ReduceMax/SumOfLanes/SumsOf2/SumsOf4/SumsOf8/SumsOf8AbsDiff/SumsOfAdjQuadAbsDiff/SumsOfShuffledQuadAbsDiff/MaskedReduceSum/MinOfLanes", "hwy/ops/*.h")])
prop("C17", "AES rounds and carry-less multiplication match their mathematical definition",
 "On every x86 and portable target and for every input block and key, the AES encryption/decryption round, last-round, inverse-mix-columns and key-schedule-assist operations equal FIPS-197 semantics (hardware or table-free emulation alike). Carry-less multiplication of the selected 64-bit halves yields the exact 128-bit GF(2) polynomial product.",
 "every 128-bit state/key and 64-bit operand pair, hardware-accelerated and emulated implementations", SIMDWHY, [("AESRound/AESLastRound/AESRoundInv/AESLastRoundInv/AESInvMixColumns/AESKeyGenAssist/CLMulLower/CLMulUpper", "hwy/ops/generic_ops-inl.h, x86_*")])
prop("C18", "Scalar helper functions return exact results",
 "For every argument inside its documented domain, the scalar helpers return the mathematically exact result: trailing/leading zero counts and floor/ceil log2, popcount, 64x64-to-128-bit multiplication, rounding up or down to a multiple, ceiling division, power-of-two tests, saturating and shift helpers, type limits, byte copying/zeroing, and reduced-precision float comparison. Bulk byte helpers touch exactly the requested bytes.",
 "every argument value in the documented domain", "Unit tests try a few dozen constants per helper; off-by-one and overflow cases near word-size boundaries are exactly the ones sampling misses.",
 [("Num0BitsBelowLS1Bit*/FloorLog2/CeilLog2/PopCount/Mul128/RoundUpTo/DivCeil/IsPow2/CopyBytes/ScalarShr/...", "hwy/base.h")], files=["hwy/base.h"], over=("inputs",))
prop("C19", "Array algorithms process every element exactly once and nothing else",
 "For every array length, content and alignment, the array algorithms (copy, conditional copy, fill, generate, foreach, transform with 0-2 extra inputs, replace, replace-if, find, find-if) produce exactly the result of the obvious element-by-element loop, including the returned count or index, and never read or write outside the given ranges.",
 "every length up to the stated bound (several vectors plus remainder), every content", "Tests check random contents at sampled sizes and misalignments; they cannot settle every content/length combination nor exclude out-of-range reads that happen to be harmless.",
 [("Copy/CopyIf/Fill/Generate/Foreach/Transform*/Replace*/Find/FindIf", "hwy/contrib/algo/*.h")], files=["hwy/contrib/algo/copy-inl.h","hwy/contrib/algo/find-inl.h","hwy/contrib/algo/transform-inl.h"])
prop("C20", "Sorting, partial sorting and selection order the keys and preserve them",
 "For every input array of supported keys (integers, floats, 128-bit and key-value pairs, ascending or descending), sorting returns the same multiset of keys in the requested order; partial sort and select place the k-th key (and, for partial sort, the ones before it) as a full sort would, with the remaining keys on the correct side. Nothing outside the array is written, and NaN keys end up at the end of the array as documented.",
 "every key content, every length up to the stated bound, every supported key type/order", "Tests sort random distributions; the network, padding, partition and NaN handling for each length and each rare arrangement of equal/limit keys cannot be covered by samples.",
 [("VQSort/VQPartialSort/VQSelect, BaseCase, Partition, HeapSort, sorting networks, traits", "hwy/contrib/sort/*-inl.h")], files=["hwy/contrib/sort/vqsort-inl.h","hwy/contrib/sort/sorting_networks-inl.h","hwy/contrib/sort/traits-inl.h","hwy/contrib/sort/traits128-inl.h","hwy/contrib/sort/shared-inl.h"])
prop("C21", "Bit packing is lossless and fills exactly the packed words",
 "For every bit width 1 to 8 (8-bit words), 1 to 16 (16-bit), 1 to 32 (32-bit) and 1 to 64 (64-bit), unpacking what was packed returns the original values for every input whose values fit the width. Packing writes exactly the documented number of packed vectors and unpacking reads exactly those.",
 "every raw value fitting the width, every width, every x86 and portable target", "The test round-trips random blocks; each of the 120 unrolled routines has dozens of hand-written shift/mask constants and any single wrong one affects only certain bits of certain values.",
 [("Pack8/Pack16/Pack32/Pack64 Pack/Unpack", "hwy/contrib/bit_pack/bit_pack-inl.h")], files=["hwy/contrib/bit_pack/bit_pack-inl.h"])
prop("C22", "Random generators reproduce the reference stream, uniform doubles stay in [0,1)",
 "For every seed/state, each lane of the vectorised generator emits exactly the xoshiro256++ stream started from its documented per-lane state (seeding and jumps included), whichever entry point (single vectors, arrays, cached single values) and split of calls is used. Uniform floating-point values derived from it lie in [0, 1) and equal the documented scaling of the generator's bits.",
 "every 256-bit generator state, call counts up to the stated bound", "The test compares a few seeds with a scalar copy of the same code.",
 [("Xoshiro/VectorXoshiro/CachedXoshiro", "hwy/contrib/random/random-inl.h")], files=["hwy/contrib/random/random-inl.h"])
prop("C23", "Dot products and matrix-vector products use every element exactly once",
 "For every length and content, the dot-product routines return the sum of all pairwise products, and the matrix-vector routine returns for each row the sum over all columns (plus bias where given), each product included exactly once and no element outside the arrays contributing, up to floating-point association and rounding. Documented assumptions about padding and multiples only skip remainder handling, never elements.",
 "every element value; every length up to the stated bound; every assumption flag consistent with the length", "Tests compare against a tolerance on random data at sampled sizes, so a lost or doubled element with small weight passes.",
 [("Dot::Compute, MatVec, MatVecAdd", "hwy/contrib/dot/dot-inl.h, hwy/contrib/matvec/matvec-inl.h")], files=["hwy/contrib/dot/dot-inl.h","hwy/contrib/matvec/matvec-inl.h"])
prop("C24", "Unrolled loops equal the plain loop for every length",
 "For every array length and content, the loop-unrolling helper's one-input, two-input and reducing forms apply the user's function to every element index exactly once and produce the same outputs or reduction as a simple loop, without reading or writing out of range, whatever the length is relative to the vector size and unroll factor.",
 "every length up to the stated bound, every content", "Tests use three fixed sizes and smooth data.",
 [("Unroller, UnrollerUnit*", "hwy/contrib/unroller/unroller-inl.h")], files=["hwy/contrib/unroller/unroller-inl.h"])
prop("C25", "Aligned allocation is aligned, big enough, and released exactly once",
 "For every requested size, every element count and every custom allocator result, an aligned allocation is either null (when the size overflows or the allocator fails) or a block whose start is aligned as documented and whose full payload lies inside the memory obtained from the allocator. Freeing returns to the deallocator exactly the pointer the allocator had returned, owners destroy each element exactly once, and per-row/array helpers keep sizes consistent.",
 "every size/count (including those whose byte count overflows), every allocator-returned address", "Tests allocate a few sizes with the system allocator, whose addresses are always nicely aligned.",
 [("AllocateAlignedBytes/FreeAlignedBytes/MakeUniqueAligned*/AlignedNDArray/AlignedVector", "hwy/aligned_allocator.{h,cc}")], files=["hwy/aligned_allocator.h","hwy/aligned_allocator.cc"], over=("inputs","fault_sequences"))
prop("C26", "Bit sets behave as sets of small integers",
 "After any sequence of set, clear, assign and bulk operations, a bit set (64-bit, 4096-bit hierarchical, and atomic) contains exactly the integers last set and not cleared; membership, emptiness, count, first element and iteration order agree with that set. Iteration visits each member exactly once in increasing order.",
 "every prior set state and every operation/argument (single inductive step from an arbitrary state)", "Tests insert and remove a few sampled patterns; the claim is about every state.",
 [("BitSet64/BitSet4096/AtomicBitSet64", "hwy/bit_set.h")], files=["hwy/bit_set.h"], over=("inputs","histories"))
prop("C27", "A parallel-for runs every task exactly once on a valid worker",
 "For every task range, worker count and interleaving, a parallel run calls the closure exactly once for every task index in the range and never for any other, always with a worker index below the number of workers and never the same index on two threads at once. The call returns only after all tasks have finished, in every waiting mode and across configuration changes.",
 "every range (including 64-bit extremes), worker count up to the bound, every interleaving of the bounded steps", "Tests run a few ranges on real threads, where the scheduler shows only a few interleavings.",
 [("ThreadPool::Run, Tasks::DivideRangeAmongWorkers, WorkerRunWithStealing, barriers, waits", "hwy/contrib/thread_pool/thread_pool.h")], files=["hwy/contrib/thread_pool/thread_pool.h","hwy/contrib/thread_pool/spin.h","hwy/contrib/thread_pool/futex.h"], over=("schedules","inputs"))
prop("C28", "CPU detection only selects targets the CPU and OS support",
 "For every combination of CPUID and OS extended-state register contents, a target is reported as supported if and only if all instruction-set features it needs are reported by the CPU and the OS saves the vector registers it uses, with the documented lower-numbered-is-better order. Runtime dispatch calls the best compiled-in supported target, and disabling targets for testing never enables an unsupported one.",
 "every CPUID leaf and XCR0 value; every set of compiled targets; every disable mask", "Tests only ever see the one CPU they run on.",
 [("targets::DetectTargets, SupportedTargets, DisableTargets, SetSupportedTargetsForTest, ChosenTarget, dispatch tables", "hwy/targets.cc, hwy/targets.h, hwy/x86_cpuid.h")], files=["hwy/targets.cc","hwy/targets.h","hwy/x86_cpuid.h","hwy/highway.h"])
prop("C29", "Kernel CPU-topology text is parsed to exactly the processors and sizes it names",
 "For every well-formed kernel CPU list (comma-separated numbers and ranges) and cache-size string, the parsed set of logical processors or byte size is exactly the one described; every processor gets a valid package, cluster and core index. Malformed or arbitrary text never causes out-of-range memory access.",
 "every byte string up to the stated length", "Tests only read the sandbox machine's own sysfs files.",
 [("ParseList, ParseNumberWithOptionalSuffix, DetectPackages/Clusters", "hwy/contrib/thread_pool/topology.cc")], files=["hwy/contrib/thread_pool/topology.cc","hwy/contrib/thread_pool/topology.h"])
prop("C30", "Images give every row its own aligned, non-overlapping storage",
 "For every image size, each row starts at a vector-aligned address, rows and planes do not overlap, and every pixel of every row (plus the documented padding) lies inside the allocation. Copying, moving, swapping, shrinking and mirrored/clamped coordinate helpers preserve or map pixels exactly as documented.",
 "every width/height and coordinate up to the stated bound, every target vector size", "Tests use a few sizes.",
 [("ImageBase, Image, Image3, Mirror/WrapMirror helpers", "hwy/contrib/image/image.{h,cc}")], files=["hwy/contrib/image/image.h","hwy/contrib/image/image.cc"])
prop("C31", "Robust statistics return order statistics of the sample",
 "For every sample, the statistics helpers return what they document: counting sort returns the sorted same multiset, mode of sorted values lies in the (half-)sample it must, median and median absolute deviation are the exact order statistics, and moment/bin accumulators count every notified value exactly once, independent of how partial results are merged. The skip-list of tuning candidates always cycles through exactly the not-yet-removed positions in order.",
 "every sample up to the stated size, every removal order", "Tests use a few random samples.",
 [("robust_statistics::CountingSort/Mode/Median/MedianAbsoluteDeviation", "hwy/robust_statistics.h"), ("Bins, Stats::Assimilate", "hwy/stats.{h,cc}"), ("NextWithSkip", "hwy/auto_tune.h")], files=["hwy/robust_statistics.h","hwy/stats.h","hwy/stats.cc","hwy/auto_tune.h"], over=("inputs","histories"))
prop("C32", "Vector math functions stay within their documented error bounds",
 "For every finite input in its documented domain, each vectorised transcendental function (exp, log, sin, cos, tan-family inverses, hyperbolic, hypot and relatives) returns a result within the documented number of units in the last place of the exact value.",
 "every float/double in the documented domain", "Tests sample a sparse grid of inputs.",
 [("Exp/Log/Sin/Cos/Atan2/Hypot/...", "hwy/contrib/math/math-inl.h")], files=["hwy/contrib/math/math-inl.h"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
