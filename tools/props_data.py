prop('C01', 'Integer lane arithmetic equals its mathematical definition on every target',
 'For every lane type and vector size, integer addition, subtraction, negation, absolute value and difference, minimum and maximum (also of pairs), saturated addition, subtraction, negation and absolute value, averaging, low and high halves of products, even and odd widening products, clamping, multiply-add and multiply-subtract, alternating add-subtract, pairwise sums and differences, rounding high multiplication and the masked forms of these return in each lane exactly the value their documentation defines for that lane\'s inputs' + X86 + '. The result of a lane never depends on other lanes, nor on register bits beyond the last lane of a partial vector.',
 'all values of all lanes (including the unspecified upper part of partial vectors), all integer lane types, all vector sizes of each target',
 'The tests compare a few iota-style or random vectors per type on the best targets of one machine; saturation, sign and carry corner cases in particular lanes, and the fallback implementations in older instruction sets, are only sampled.',
 OPS, [('integer arithmetic operations', 'hwy/ops/x86_128-inl.h'), ('emulations for missing instructions', 'hwy/ops/generic_ops-inl.h')])
prop('C02', 'Bitwise logic, shifts, rotates and bit counts are exact for every input',
 'For every lane type and vector size, the bitwise operations (and, or, xor, not, and-not, three-operand combinations, bitwise selection, sign-bit broadcast), shifts by constant, by run-time and by per-lane amounts, rounding shifts, rotates, reversal of the bits and of the bytes within lanes, and population, leading-zero, trailing-zero and highest-set-bit counts return in each lane exactly their documented value' + X86 + '. No result depends on other lanes or on register bits beyond the last lane.',
 'all values of all lanes and all permitted shift amounts, all lane types, all vector sizes of each target',
 'Tests try a handful of amounts and patterns; the 8- and 16-bit emulations use tables, multiplications and float conversions whose wrong entries are hit only by particular values.',
 OPS, [('logic and shifts', 'hwy/ops/x86_128-inl.h'), ('bit counts and emulated shifts', 'hwy/ops/generic_ops-inl.h')])
prop('C03', 'Masks and comparisons: each mask lane is exactly the documented predicate',
 'For every lane type and vector size, comparisons (also of 128-bit pairs), bit and sign tests, and first-N produce a mask whose lane i is true exactly when the documented predicate holds for lane i of the inputs, NaN and signed zeros included. Mask logic, selection, slides, combining, splitting, promotion and demotion of masks, conversion to and from bits, bytes and vectors, counting, any/all tests and finding the first or last true lane agree exactly with the sequence of lane booleans' + X86 + '.',
 'all lane values and all masks, all lane types and vector sizes of each target',
 'Tests enumerate short prefixes of masks and random lanes; wrong upper bits of a partial mask or NaN ordering appear only in combinations of operations on unusual sizes.',
 OPS, [('comparisons and masks', 'hwy/ops/x86_128-inl.h, hwy/ops/x86_512-inl.h'), ('mask utilities', 'hwy/ops/generic_ops-inl.h')],
 note='On AVX-512 the representation invariant (no mask bits above the register\'s lanes) is assumed for inputs and proved for every result.')
prop('C06', 'Loads, stores, gathers and scatters move exactly the documented elements',
 'For every lane type and vector size, loads and stores (aligned, unaligned, streaming, duplicated 128-bit), masked and blended loads and stores, LoadN, LoadNOr, StoreN, MaskedLoadOr, SafeFillN and SafeCopyN for every count, interleaved loads and stores of two to four vectors, gathers and scatters (by byte offset, by index, masked, first-N) and truncating stores read and write exactly the documented elements: loaded lanes equal the corresponding memory elements or their documented default, stored elements equal the corresponding lanes, and no byte outside the documented range is accessed or changed - for masked operations, where HWY_MEM_OPS_MIGHT_FAULT is zero, not even where the mask is false' + X86 + '.',
 'all memory contents, lane values, masks, counts and in-range indices; all lane types and vector sizes of each target',
 'Tests allocate slack around buffers and cannot notice a stray read, and they cover few (mask, count, type, size) combinations; the partial-vector paths of each target differ.',
 OPS, [('loads and stores', 'hwy/ops/x86_128-inl.h, hwy/ops/x86_256-inl.h, hwy/ops/x86_512-inl.h'), ('LoadN/StoreN, interleaving', 'hwy/ops/generic_ops-inl.h'), ('fallbacks', 'hwy/ops/scalar-inl.h, hwy/ops/emu128-inl.h')],
 note='Memory is modelled as separate regions of exactly the documented extent; an access outside of them is a failed obligation. Alignment is not modelled.')
prop('C07', 'Compress and Expand select and place exactly the masked lanes',
 'For every lane type, vector size and mask (also given as bits), Compress, CompressNot and CompressBits put the selected lanes in order at the start of the result; CompressStore, CompressBitsStore and CompressBlendedStore store them there, return their number, never write outside the vector\'s extent, and CompressBlendedStore leaves every other element unchanged; Expand and LoadExpand put consecutive inputs into exactly the lanes whose mask is true and zero the others' + X86 + '.',
 'all masks and lane values, all lane types and vector sizes of each target; for 8-bit lanes in vectors of 32 or more lanes and 16-bit lanes in vectors of 32 lanes bounded random testing instead of proof',
 'A 16-lane mask has 65536 values and the implementations use tables of per-mask shuffles, where a single wrong entry is invisible to sampled masks.',
 OPS, [('compress tables', 'hwy/ops/x86_128-inl.h, hwy/ops/x86_256-inl.h, hwy/ops/x86_avx3-inl.h'), ('8-bit compress, expand', 'hwy/ops/generic_ops-inl.h')],
 note='8-bit lanes in vectors of 32/64 lanes and 16-bit lanes in vectors of 32 lanes are bounded (native random testing), not counted as proved.')
prop('C12', 'Array algorithms process every element exactly once for every length',
 'For arrays of any length, hwy/contrib/algo computes what its documentation says and touches nothing else: Fill and Copy write exactly `count` elements, Generate passes each element its own index, Transform, Transform1, Transform2, Replace and ReplaceIf replace element i exactly by the function of the inputs at i, Foreach presents all elements in order and pads with `no`, Find and FindIf return the first matching index or the count, and CopyIf keeps exactly the matching elements in order and returns the end of the output. No element before or beyond the arrays is read or changed, whatever the remainder.',
 'all counts (up to 2^40), all contents, all (pure) functors; 8- to 64-bit lanes, every x86 target and both portable fallbacks (CopyIf quick: SCALAR, SSE4, AVX3)',
 'Tests use a few small counts; remainders interact with vector length, unrolling and alignment, and stray accesses inside the padded allocations go unnoticed.',
 ['hwy/contrib/algo/copy-inl.h', 'hwy/contrib/algo/find-inl.h', 'hwy/contrib/algo/transform-inl.h'], [('algorithms', 'hwy/contrib/algo/*.h')],
 note='Loops are cut at inductive invariants over the index; functors are uninterpreted lane functions.')

prop('C04', 'Conversions: the nearest representable value, never a wrapped one',
 'For every supported pair of lane types and every vector size, PromoteTo (and Lower/Upper/Even/Odd forms) preserves every value exactly, including f16 and bf16 special values and subnormals; DemoteTo, OrderedDemote2To and ReorderDemote2To (in its fixed output order) saturate to the narrower type; TruncateTo and OrderedTruncate2To keep the low bits; integer to floating-point conversion rounds to nearest-even for all inputs; floating-point to integer conversion (ConvertTo, DemoteTo, PromoteTo, MaskedConvertTo) truncates toward zero and returns the closest representable value when out of range, InRange forms agree where in range; NearestInt, DemoteToNearestInt, CeilInt and FloorInt round as documented and saturate; f32/f64 to f16 rounds to nearest-even and f32 to bf16 truncates or rounds, with NaN staying NaN (ReorderDemote2To to bf16 may truncate)' + X86 + '. NaN to integer and f64 to f32 overflow are unspecified and not covered.',
 'all input values of all lanes (every integer, every float bit pattern but NaN where unspecified); all lane types and vector sizes of each target',
 'Tests sample corner values and random inputs; exponent boundaries, ties, values just below a power of two and the 2^64 inputs of 64-bit conversions are out of reach of sampling.',
 OPS, [('conversions', 'hwy/ops/x86_128-inl.h, hwy/ops/x86_256-inl.h, hwy/ops/x86_512-inl.h'), ('emulated float16 and demotions', 'hwy/ops/generic_ops-inl.h'), ('portable targets', 'hwy/ops/scalar-inl.h, hwy/ops/emu128-inl.h')])
prop('C05', 'Lane movement: every swizzle places exactly the documented source lane',
 'For every lane type and vector size, broadcasts, set/insert/extract of lanes and 128-bit blocks, halves and combinations (Combine, Concat*, ZeroExtendVector, ResizeBitCast), interleaves and zips, odd/even selection and duplication, reversals, fixed shuffles, shifts of blocks by bytes or lanes, slides by any amount, table lookups with any valid indices (TableLookupLanes, TwoTablesLookupLanes, TableLookupBytes, TableLookupBytesOr0, BitShuffle) and Per4LaneBlockShuffle with all 256 patterns return in lane i exactly the documented input lane (or zero)' + X86 + '; BitCast and tuples preserve every bit.',
 'all lane values, indices and shift amounts within the documented range; all lane types and vector sizes (including partial vectors) of each target',
 'Tests permute Iota vectors: a wrong lane is visible, but not for untested indices, amounts or types, and zeroing or upper-half behaviour of partial vectors is only sampled.',
 OPS, [('swizzles', 'hwy/ops/x86_128-inl.h, hwy/ops/x86_256-inl.h, hwy/ops/x86_512-inl.h'), ('generic permutations', 'hwy/ops/generic_ops-inl.h')])
prop('C09', 'Floating-point lane arithmetic is the IEEE result of the documented formula',
 'For f32 and f64 lanes and every vector size, Add, Sub, Mul, Div and Sqrt (and their operators, masked and masked-or forms), AddSub and AbsDiff return the correctly rounded IEEE-754 result of the lane inputs, including infinities, NaN, subnormals and division by zero; Abs, Neg, CopySign, CopySignToAbs and ComplexConj change only the sign bit; Round (ties to even), Trunc, Ceil, Floor and MulRound return the documented integer for every magnitude, up to the sign of zero; IsNaN, IsInf, IsFinite, IsEitherNaN, MaskedIsNaN, GetBiasedExponent and (for normal numbers) GetExponent depend only on the bits of their lane; Min, Max, MinMagnitude, MaxMagnitude, Clamp and ZeroIfNegative select by value for all numbers; MulAdd, MulSub, their negated, alternating and masked forms, complex products and bfloat16 pair products are the documented sums of products with at most fused or separately rounded steps; MulByPow2 and MulByFloorPow2 equal a correctly rounded ldexp for every exponent, including overflow and gradual underflow' + X86 + '. Masked-off lanes are exactly `no` or zero.',
 'all bit patterns of all lanes (NaN inputs where results are specified), all masks; f32 and f64, all vector sizes of each target; NaN results are compared as NaN, not by payload',
 'Tests use a few values per operation; the emulations of rounding, magnitude comparison and scaling fail only at exponent boundaries, ties, subnormals and infinities.',
 OPS, [('floating-point operations', 'hwy/ops/x86_128-inl.h, hwy/ops/x86_256-inl.h, hwy/ops/x86_512-inl.h'), ('emulations and masked forms', 'hwy/ops/generic_ops-inl.h'), ('portable targets', 'hwy/ops/scalar-inl.h, hwy/ops/emu128-inl.h')],
 note='IEEE operations themselves are function symbols with IEEE semantics in the solvers. Sums of products may be fused or not.')

prop('C08', 'Reductions, widening sums and products, and crypto rounds are exact',
 'For every lane type and vector size: SumOfLanes, ReduceSum and their masked forms return the sum modulo 2^bits of exactly the (selected) lanes, MinOfLanes, MaxOfLanes, ReduceMin and ReduceMax the least or greatest of them, and broadcast it to all lanes; SumsOf2/4/8 and the absolute-difference sums add exactly the documented groups; WidenMulPairwiseAdd, SumOfMulQuadAccumulate, ReorderWidenMulAccumulate with RearrangeToOddPlusEven, WidenMulAccumulate, SatWidenMulPairwiseAdd/Accumulate and SatWidenMulAccumFixedPoint are the exact wide sums of products, wrapping or saturating exactly as documented; AESRound, AESLastRound, their inverses, AESInvMixColumns and AESKeyGenAssist follow FIPS-197; CLMulLower and CLMulUpper are the 128-bit carry-less products' + X86 + '.',
 'all lane values and masks; all lane types and vector sizes of each target; the contracts listed in units.py (C8X, C8E) are bounded random testing instead of proof; immediates of the shuffled absolute-difference sums are sampled',
 'Tests use a few vectors: carries between lanes, saturation of intermediate sums, single S-box entries and rare bit patterns of the emulated carry-less product are out of reach.',
 OPS, [('reductions', 'hwy/ops/generic_ops-inl.h, hwy/ops/x86_128-inl.h, hwy/ops/x86_256-inl.h, hwy/ops/x86_512-inl.h'), ('AES, CLMul emulation', 'hwy/ops/generic_ops-inl.h'), ('portable targets', 'hwy/ops/scalar-inl.h, hwy/ops/emu128-inl.h')],
 note='Float sums, some nested 16-bit products, and on SSE2/SSSE3/EMU128 the emulated AES middle round and carry-less product are bounded (native random testing), not counted as proved.')

BASE = ['hwy/base.h']
prop('C10', 'Scalar bit, rounding and number utilities are exact for every argument',
 'PopCount, Num0BitsBelowLS1Bit and Num0BitsAboveMS1Bit (nonzero arguments), FloorLog2 and CeilLog2 (nonzero arguments), ScalarShr (arithmetic for signed types), AddWithWraparound, Mul128 (signed and unsigned), RoundUpTo, RoundDownTo and DivCeil (where a + b - 1 does not wrap) return the mathematically exact result for every argument of every supported integer width; ScalarAbs, ScalarCopySign, ScalarSignBit, ScalarIsNaN, ScalarIsInf and ScalarIsFinite depend only on the bits of f16, bf16, f32 and f64 values exactly as defined by IEEE-754; BF16FromF32 and BF16FromF64 round to the nearest bfloat16 with ties to even (overflow to infinity, NaN stays NaN), and F32FromBF16 is exact.',
 'all arguments within the stated preconditions; sizes up to 2^62 for RoundUpTo, RoundDownTo and DivCeil',
 'Tests use a handful of arguments; ties, subnormals, overflow to infinity and double rounding of f64 inputs are single bit patterns among 2^64.',
 BASE, [('scalar utilities', 'hwy/base.h')], over=('inputs',))
prop('C11', 'Divisor and Divisor64 divide exactly for every dividend and divisor',
 'For every nonzero divisor d and every n, Divisor(d) (32-bit) and Divisor64(d) (64-bit) return Divide(n) == n / d and Remainder(n) == n % d, and GetDivisor() == d.',
 'all 2^32 x 2^32 and 2^64 x 2^64 pairs with a nonzero divisor',
 'The precomputed multiplier and shifts can be wrong for single (divisor, dividend) pairs among 2^128.',
 BASE, [('division by invariant integers', 'hwy/base.h (Divisor, Divisor64)')], over=('inputs',), note='The number-theoretic lemma is proved in Lean (proofs/Lemmas.lean, rechecked on every run); products and quotients are opaque in the obligations.')
prop('C18', 'BitSet64 and BitSet4096 behave as sets for every state and operation',
 'In every reachable state and for every in-range index, Set, SetNonzeroBitsFrom64 and Clear change membership of exactly the given elements, Get, Any, Get64, First (least element) and Count report the current contents, and Foreach calls its function exactly once for each element in ascending order; in the two-level BitSet4096 the summary word stays consistent with the words after every operation.',
 'all states that satisfy the class invariant (which every operation is proved to preserve), all indices; BitSet4096 for 128 and 4096 elements (Count: 128, 192 and 256 elements; Foreach of BitSet4096: bounded random testing)',
 'The summary bit is only wrong after particular sequences (clearing the last element of a word, setting zero bits), which tests sample.',
 ['hwy/bit_set.h'], [('two-level bit set', 'hwy/bit_set.h')], over=('inputs', 'histories'), note='Histories are covered by the class invariant. Foreach of the two-level set is bounded.')
prop('C13', 'Bit packing is lossless for every bit width and never leaves its buffers',
 'For every bit width k of Pack8, Pack16, Pack32 and Pack64 and every vector size, Pack of B vectors whose lanes are below 2^k (B = bits per lane) followed by Unpack returns exactly the same lanes, Unpack of any k packed vectors followed by Pack returns exactly the packed vectors, unpacked lanes are below 2^k, and exactly B raw and k packed vectors are read and written. With kFoRBitPacked the same holds for lanes whose difference (modulo 2^B) to the frame of reference is below 2^k' + X86 + '.',
 'all lane values below 2^k, all packed contents, all frames of reference; all 8 + 16 + 32 + 64 widths, all vector sizes of each target (frame of reference: the largest)',
 'The tests only pack values whose set bits are among those of the number k, and only some widths; a bit that is lost or leaks into a neighbour for the other values goes unnoticed.',
 ['hwy/contrib/bit_pack/bit_pack-inl.h'], [('packing', 'hwy/contrib/bit_pack/bit_pack-inl.h')])
prop('C20', 'VectorXoshiro lanes are exactly the published generator on disjoint streams',
 'For every seed and every state, internal::SplitMix64, internal::Xoshiro (seeding, next value, Jump, LongJump, thread offset, Uniform in [0, 1)) compute the published SplitMix64 and xoshiro256++ functions; lane i of VectorXoshiro(seed, t) is that generator after t long jumps and i jumps; each call of operator() or Uniform advances every lane by exactly one step and returns its values; operator()(n), operator()<n>(), Uniform(n) and Uniform<n>() return exactly n values, value i being the next of lane i % Lanes, and write nothing beyond them; CachedXoshiro returns the same sequence across refills' + X86 + '.',
 'all seeds and all 2^256 states of every lane; result sizes 1 to 19 (around multiples of the vector size), thread numbers 0 to 2, caches of 1, 2 and 16 values over three refills',
 'Tests compare 1024 values from one time-based seed with sizes that are multiples of every vector size: writes beyond shorter results, or streams that overlap, do not show.',
 ['hwy/contrib/random/random-inl.h'], [('generators', 'hwy/contrib/random/random-inl.h')], over=('inputs', 'histories'))

prop('C16', 'Aligned allocations are aligned, large enough, and freed exactly as allocated',
 'For every requested size, every address the system or user allocator returns and every point of the alias-offset cycle, AllocateAlignedBytes returns null (only if the underlying allocation failed or the size is too large to represent) or a pointer aligned to HWY_ALIGNMENT whose payload bytes and bookkeeping lie inside the underlying allocation; FreeAlignedBytes and the deleters of AllocateAligned, MakeUniqueAligned and MakeUniqueAlignedArray hand exactly the original pointer, once, to the free function that matches; item counts whose byte size overflows give null and never a smaller buffer; every element of MakeUniqueAlignedArray is constructed and destroyed exactly once; AlignedNDArray rows are aligned, disjoint, zero-initialised and inside the buffer, and truncate() keeps the elements.',
 'all payload sizes, addresses and item counts; all offsets of the cycle; array shapes 3x2x5 (float) and 2x3x70 (bytes)',
 'Tests allocate a handful of sizes with the process malloc, so an overflow of size arithmetic, an address at an unlucky residue or one step of the offset cycle that runs past the end is not seen.',
 ['hwy/aligned_allocator.h', 'hwy/aligned_allocator.cc'], [('aligned-alloc', 'hwy/aligned_allocator.cc'), ('nd-array', 'hwy/aligned_allocator.h')], over=('inputs', 'histories'))
