import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Integer vector arithmetic is exact wrap-around arithmetic in every lane",
"For every integer vector type, +, -, *, /, % in all their forms (vector with vector, vector with scalar, scalar with vector, and compound assignment), unary minus, and lane-wise min and max put into each result lane exactly the two's-complement wrap-around result of that lane's own operands (quotients truncate towards zero, remainders take the dividend's sign, min/max use the lane type's signedness). No lane influences another and no operand value panics. Division or remainder by zero and the signed minimum divided by -1 are outside the contract.",
["inputs"],"all lane values of all 2- to 64-lane integer vectors of 8 to 128 bits and pointer size, all operator forms",
"the tests use splats of 0, 1, 2 and 4: no overflow, no negative operand, no two lanes with different values, never the upper half of a lane",
["src/api/ops/vector_arithmetic.rs","src/api/ops/scalar_arithmetic.rs","src/api/ops/vector_neg.rs","src/api/ops/vector_int_min_max.rs","src/codegen/llvm.rs"],
[("lane-wise wrap-around intrinsics","src/codegen/llvm.rs simd_add/sub/mul/div/rem"),("scalar forms splat the scalar","src/api/ops/scalar_arithmetic.rs"),("min/max by compare and select","src/api/ops/vector_int_min_max.rs")],
observe=["value returned by each operator, read back as raw lane bytes"])

p("C02","Bitwise operators, shifts and rotates act on each lane's own bits",
"For every integer vector type, !, &, |, ^ (vector and scalar forms and compound assignment) act bit by bit; << and >> by a vector or by a scalar count below the lane width shift each lane by its own count, >> being arithmetic for signed and logical for unsigned lanes; and rotate_left/rotate_right rotate each lane's bits by its own count modulo the lane width for every count value, for signed lanes exactly as for unsigned ones. The logical operators on mask vectors act lane by lane as boolean operations and always yield canonical masks. Shift counts of at least the lane width are outside the contract.",
["inputs"],"all lane values and counts of all integer and mask vector types",
"tests shift and rotate small positive splats by 0..3 bits, never negative lanes, per-lane counts, or counts beyond the lane width for rotates",
["src/api/ops/vector_bitwise.rs","src/api/ops/scalar_bitwise.rs","src/api/ops/vector_mask_bitwise.rs","src/api/ops/scalar_mask_bitwise.rs","src/api/ops/vector_shifts.rs","src/api/ops/scalar_shifts.rs","src/api/ops/vector_rotates.rs"],
[("lane-wise bit intrinsics","src/codegen/llvm.rs simd_and/or/xor/shl/shr"),("rotation from two shifts","src/api/ops/vector_rotates.rs"),("scalar forms splat","src/api/ops/scalar_bitwise.rs, scalar_shifts.rs")])

p("C03","Float vector arithmetic is correctly rounded IEEE-754 in every lane",
"For every float vector type, +, -, *, /, % (vector, scalar and compound-assignment forms), unary minus, abs, sqrt, and the fused mul_add give in each lane the IEEE-754 result of that lane's operands, correctly rounded to nearest-even, including subnormals, signed zeros, infinities and NaN (any NaN payload is allowed). Lane-wise min/max return the smaller/larger operand, or the operand that is not NaN when exactly one is; mul_adde equals either the fused or the twice-rounded result, and the estimates sqrte, rsqrte and recpre agree with the exact function within a relative error of 2.4e-4 on normal inputs with normal results.",
["inputs"],"all f32/f64 bit patterns in all lanes of all seven float vector types, all operator forms",
"tests use splats of 0, 1, 2, 4 where every result is exact and no rounding, subnormal, signed zero or NaN case arises",
["src/api/ops/vector_arithmetic.rs","src/api/ops/scalar_arithmetic.rs","src/api/ops/vector_neg.rs","src/api/ops/vector_float_min_max.rs","src/api/math/float","src/codegen/math/float"],
[("LLVM float vector intrinsics","src/codegen/llvm.rs, src/codegen/math/float/{abs,sqrt,sqrte,mul_add,mul_adde}.rs"),("scalar loop for 2-lane f32","src/codegen/math/float/macros.rs")])

p("C04","Lane-wise comparisons and classifications yield the right canonical mask",
"For every vector type (integer, float, mask, pointer), the lane-wise eq, ne, lt, le, gt, ge yield a mask whose lane i is true exactly when the relation holds between lane i of the two operands: by signed, unsigned or address order, by IEEE order with every comparison except ne false on NaN and -0 equal to +0, and with false ordered before true for masks. is_nan, is_infinite, is_finite and is_null classify each lane exactly. Every such mask lane is canonical: all bits set or all bits clear.",
["inputs"],"all pairs of lane values for all vector types",
"tests compare small splats; values around the sign boundary, mixed lanes, NaN, infinities and signed zeros are mostly untested",
["src/api/cmp/vertical.rs","src/api/math/float/consts.rs","src/api/minimal/ptr.rs","src/api/minimal/mask.rs"],
[("lane-wise compare intrinsics","src/codegen/llvm.rs simd_eq..simd_ge"),("mask order inverts the signed order","src/api/cmp/vertical.rs"),("float categories","src/api/math/float.rs")])

p("C05","Equality, lexicographic order and hashing of whole vectors are coherent",
"For every vector type, == is true exactly when all lanes are equal (and != is its negation), so it is reflexive, symmetric and transitive wherever the lanes' equality is. For integer and mask vectors the lexicographic order view compares the first differing lane (by the lane type's order, false before true) for <, <=, >, >=, partial_cmp and cmp, hence is a total order consistent with ==. Hashing a vector feeds the hasher exactly what hashing the array of its lanes does, so equal vectors hash equally, and the same order, equality and hash laws hold for the scalar mask types.",
["inputs","histories"],"all pairs and triples of vectors of every type",
"tests order a handful of hand-made vectors; transitivity, differing in a late lane only, and the sign boundary are not sampled",
["src/api/cmp/eq.rs","src/api/cmp/partial_eq.rs","src/api/cmp/partial_ord.rs","src/api/cmp/ord.rs","src/api/hash.rs","src/masks.rs","src/api/minimal/ptr.rs"],
[("equality by all-lanes reduction","src/api/cmp/partial_eq.rs"),("lane scan for lexicographic order","src/api/cmp/partial_ord.rs, ord.rs"),("hash as array","src/api/hash.rs")])

p("C06","Mask reductions, bitmask and select agree with the lanes of the mask",
"For every mask vector type and every assignment of lanes, all(), any(), none() are the conjunction, the disjunction and the negated disjunction of its lanes; bitmask() of any vector has bit i set exactly when the most significant bit of lane i is set and no other bit set; select(a, b) takes lane i from a where the mask lane is true and from b otherwise, bit for bit, for every element type. Mask construction, test and extract round-trip booleans. This holds for every enabled x86 target-feature set.",
["inputs","configurations"],"all 2^N masks of every mask type (N = 1..64 lanes), all operand vectors, target features SSE2, SSSE3, SSE4.1, AVX, AVX2",
"tests try only all-true, all-false and one alternating pattern, and only compile the baseline target features, so the AVX/AVX2 implementations never run",
["src/api/reductions/mask.rs","src/codegen/reductions/mask.rs","src/codegen/reductions/mask","src/api/bitmask.rs","src/api/select.rs","src/masks.rs"],
[("movemask/ptest implementations per target feature","src/codegen/reductions/mask/x86"),("generic reduction","src/codegen/reductions/mask/fallback_impl.rs"),("bitmask intrinsic","src/api/bitmask.rs"),("select intrinsic","src/api/select.rs")])

p("C07","Integer horizontal reductions combine all lanes exactly once",
"For every integer vector type, wrapping_sum and wrapping_product equal the sum/product of all lanes modulo 2^width, and, or, xor equal the bitwise combination of all lanes (for mask vectors the boolean combination), and max_element/min_element return the largest/smallest lane by the lane type's order. The Sum and Product of an iterator of vectors (owned or borrowed) are the lane-wise wrap-around sums/products, and of an empty iterator the all-zero/all-one vector.",
["inputs","histories"],"all lane values of all integer and mask vector types, iterators of any length",
"tests reduce splats and ramps of small positive values; a lane dropped, counted twice, or signed/unsigned confusion in the upper half is not visible there",
["src/api/reductions/integer_arithmetic.rs","src/api/reductions/bitwise.rs","src/api/reductions/min_max.rs"],
[("reduction intrinsics","src/codegen/llvm.rs simd_reduce_*"),("iterator folds","src/api/reductions/integer_arithmetic.rs")])

p("C08","Float horizontal reductions fold every lane once, with NaN and order rules",
"For every float vector type, sum and product are the rounded sum/product of all lanes in some fixed association in lane order (sequential from the identity, or the documented tree), so they are exact whenever all partial results are exact, independent of lane values for association, and NaN when a lane is NaN. max_element and min_element return the largest/smallest lane ignoring NaN lanes when some lane is not NaN. The Sum and Product of an iterator of vectors fold lane-wise from all zeros/ones with one rounding per step.",
["inputs","histories"],"all f32/f64 lane values of all seven float vector types, iterators of any length",
"tests reduce splats and ramps whose sums are exact and contain at most one NaN arrangement",
["src/api/reductions/float_arithmetic.rs","src/api/reductions/min_max.rs"],
[("ordered reduction intrinsics","src/api/reductions/float_arithmetic.rs"),("min/max reduction","src/api/reductions/min_max.rs")])

p("C09","Construction, extract and replace address exactly the requested lane",
"For every vector type, new, splat, default and conversion from an array place the given values in the given lanes, conversion to an array and extract return them, and replace changes the requested lane and no other and leaves its receiver unchanged; lanes() is the declared lane count, and each associated constant of a float vector is the splat of the scalar constant. extract and replace panic for every index that is not less than the lane count, however large, and never otherwise, and the unchecked variants agree with the checked ones for valid indices. These laws hold after any sequence of such operations.",
["inputs","histories"],"all vector types, all lane values, all usize indices, all operation sequences",
"tests replace and extract a single constant in lane 0 or 1 and try one out-of-range index; cross-lane damage and very large indices (beyond 32 bits) are not tried",
["src/api/minimal/iuf.rs","src/api/minimal/mask.rs","src/api/minimal/ptr.rs","src/api/default.rs","src/api/from/from_array.rs"],
[("bounds assertion before the unchecked access","src/api/minimal/*.rs extract/replace"),("array union","src/api/from/from_array.rs")],
state=[("vector register","the lanes of the vector value under construction","src/v*.rs type definitions")])

p("C10","Slice loads and stores touch exactly the first N elements, or panic",
"For every vector type, from_slice_aligned/from_slice_unaligned yield lane i = slice[i], and write_to_slice_aligned/write_to_slice_unaligned set slice[i] to lane i for every i below the lane count and leave every other byte of memory untouched. They panic, with no memory changed, exactly when the slice is shorter than the lane count or, for the aligned forms, when the slice's address is not aligned to the vector type; the unchecked forms agree with the checked ones when those would not panic. The final memory after any sequence of loads and stores is the one given by performing them one by one.",
["inputs","histories"],"all vector types, slice lengths, offsets and alignments, memory contents and operation sequences",
"tests try one long-enough and one too-short slice and one misalignment; writes past lane N and the contents of neighbouring memory are not examined",
["src/api/slice/from_slice.rs","src/api/slice/write_to_slice.rs","src/api/minimal/ptr.rs"],
[("length and alignment assertions","src/api/slice/from_slice.rs, write_to_slice.rs"),("copy of exactly one vector","src/api/slice/*_unchecked")],
state=[("memory","bytes of the buffer the slices are taken from","caller memory")])

p("C11","Masked gather and scatter access exactly the selected lanes' addresses",
"For every pointer-vector type, mask width and fixed-width integer or floating-point element type, read returns for each lane the value at that lane's address where the mask is true and the fallback lane otherwise; write stores each selected lane at its address and changes no other memory. Lanes whose mask is false are never dereferenced, even if their pointer is null or dangling, and overlapping writes behave as if done in lane order from least to most significant.",
["inputs","histories"],"all masks, address patterns (including duplicates and invalid addresses in unselected lanes), element and mask types, and sequences of gathers and scatters",
"tests use one i32 element type, distinct addresses, and three mask patterns; overlap order is checked once and unselected invalid pointers never",
["src/api/ptr/gather_scatter.rs","src/codegen/llvm.rs"],
[("masked gather/scatter intrinsics","src/api/ptr/gather_scatter.rs")],
state=[("memory","cells the pointers refer to","caller memory")])

p("C12","Shuffles move exactly the lanes named by their indices",
"The shuffle! macro with one or two input vectors and 2 to 64 constant indices yields a vector whose lane j is, bit for bit, lane index[j] of the concatenated inputs, for every element type, mask vectors and pointer vectors included, and evaluates each vector argument exactly once, in order. shuffle1_dyn yields lane j = lane indices[j] of the receiver for every in-range dynamic index vector, for every vector type and whatever x86 target features are enabled. Indices out of range for shuffle1_dyn are outside the contract (for shuffle! they do not compile).",
["inputs","configurations"],"all element types, index vectors and lane values; target features SSE2, SSSE3, AVX, AVX2",
"tests run the identity and one reversal per type, and only the baseline target-feature path of the dynamic shuffle",
["src/api/shuffle.rs","src/api/shuffle1_dyn.rs","src/codegen/shuffle.rs","src/codegen/shuffle1_dyn.rs","src/codegen/llvm.rs"],
[("index-to-output-type table","src/codegen/shuffle.rs"),("per-feature dynamic shuffle","src/codegen/shuffle1_dyn.rs"),("byte-index expansion for wider lanes","src/codegen/shuffle1_dyn.rs")])

p("C13","Numeric vector conversions equal the scalar conversion in every lane",
"Every provided cast between vectors of equal lane count converts each lane as the scalar conversion does: integers truncate or extend by the source's signedness, integers to floats and wider to narrower floats round to nearest-even, floats to integers truncate towards zero (values that do not fit after truncation, and NaN, are outside the contract), any numeric to mask is the test for non-zero, and a true mask lane converts to a number as the all-ones signed integer (-1, truncated or extended). Every provided From conversion between vectors is lossless: the value of each lane is preserved, and a mask stays the same mask.",
["inputs"],"all provided source/destination pairs (over 900 casts and over 200 From conversions) and all lane values",
"the cast tests only check lane counts and that zero maps to an empty mask; From tests convert only the zero vector",
["src/api/cast","src/api/from/from_vector.rs","src/v16.rs","src/v32.rs","src/v64.rs","src/v128.rs","src/v256.rs","src/v512.rs","src/vSize.rs"],
[("simd_cast","src/api/cast/macros.rs"),("mask casts by compare and select","src/api/cast/macros.rs"),("From lists","src/v*.rs impl_from_vectors")])

p("C14","Bit reinterpretation, byte order and memory layout are exact",
"Every vector's in-memory representation is the array of its lanes, lane 0 at the lowest address, with the size of that array; every provided bit conversion between vectors, or between vectors and the x86 register types, preserves all bits in place and can be undone. swap_bytes reverses all bytes of the vector and is an involution; to_be/from_be/to_le/from_le are swap_bytes or the identity according to the target's byte order.",
["inputs"],"all vector types and all bit patterns, all provided reinterpretation pairs",
"the into_bits tests only convert zero vectors, and swap_bytes tests use one ramp pattern",
["src/api/into_bits","src/api/swap_bytes.rs","src/codegen/swap_bytes.rs","src/api/from/from_array.rs","src/codegen/v16.rs","src/codegen/v64.rs"],
[("transmutes","src/api/into_bits/macros.rs"),("byte reversal by shuffle","src/codegen/swap_bytes.rs"),("repr(simd) layouts","src/codegen/v*.rs")])

p("C15","Bit-counting operations are exact for every lane value",
"For every integer vector type, count_ones, count_zeros, leading_zeros and trailing_zeros give in each lane the number of one bits, zero bits, and zero bits above the highest / below the lowest one bit of that lane, including the lane width for an all-zero lane in the latter two.",
["inputs"],"all lane values of all integer vector types",
"tests use splats of 0, 1 and all-ones only",
["src/api/bit_manip.rs","src/codegen/bit_manip.rs"],
[("ctpop/ctlz/cttz intrinsics per vector shape","src/codegen/bit_manip.rs")])

p("C16","Formatting prints the type name and every lane in order",
"For every vector type, Debug output is the vector type's name followed by the lanes in order, separated by \", \" and enclosed in parentheses, each lane printed as its scalar would be under the same flags; for integer vectors LowerHex, UpperHex, Octal and Binary do likewise with the lane's unsigned bit pattern in that base. Mask lanes print as true or false. Format flags apply to each lane and never alter the separators or the name. When the output sink fails part-way, it has received exactly the beginning of that text and the error is returned.",
["inputs"],"all lane values of all vector types and all format flags (width, fill, alternate, sign, zero padding)",
"tests format one or two vectors with small values and no flags beyond the alternate one",
["src/api/fmt/debug.rs","src/api/fmt/lower_hex.rs","src/api/fmt/upper_hex.rs","src/api/fmt/octal.rs","src/api/fmt/binary.rs","src/masks.rs","src/api/minimal/ptr.rs"],
[("write name, then each lane through its own formatter","src/api/fmt/*.rs")])

p("C17","Pointer vector arithmetic equals scalar pointer arithmetic in every lane",
"For every pointer-vector type and pointee size, (wrapping_)offset, (wrapping_)add and (wrapping_)sub move each lane's address by its own count times the pointee size, modulo the address width, exactly as the corresponding scalar pointer methods do. (wrapping_)offset_from is the inverse of offset: it yields for each lane the receiver's address minus the origin's address divided by the pointee size, truncated towards zero. null() is all-null, and is_null is true exactly for null lanes.",
["inputs"],"all addresses and counts in all lanes, pointees of several sizes, const and mut pointer vectors",
"there is no test of any of these arithmetic methods",
["src/api/minimal/ptr.rs"],
[("address arithmetic on pointer-sized integer vectors","src/api/minimal/ptr.rs")])

p("C18","Results do not depend on the enabled target features or optimization level",
"A program using the library obtains the same lane values, panics and memory contents whichever x86 target features (SSE2 baseline, SSSE3, SSE4.1/4.2, AVX, AVX2, FMA, BMI) are enabled and whether or not it is optimized, for every operation whose result is fully specified. In particular mask reductions, dynamic shuffles, lane comparisons, min/max, select, shifts, integer arithmetic and lane-wise exact float operations are identical in every configuration.",
["configurations","programs"],"all combinations of the listed target features and optimization levels, all programs of such operations",
"the test suite is compiled once, unoptimized, for the SSE2 baseline; every other code path is never executed",
["src/codegen/reductions/mask","src/codegen/shuffle1_dyn.rs","src/codegen/reductions/mask/x86.rs","src/codegen/math/float"],
[("conditional compilation per target feature","src/codegen/reductions/mask/x86.rs, src/codegen/shuffle1_dyn.rs")])

p("C19","Elementary functions approximate the real function in every lane alike",
"For every float vector type, sin, cos, exp, ln, powf and tanh approximate the mathematical function in each lane within a few units in the last place, and sin_pi, cos_pi, sin_cos_pi equal sine/cosine of the rounded product with pi (sin_cos_pi returning both, sine first). The result in a lane depends only on that lane's operands, not on the lane position, the other lanes or the vector's width, and the IEEE special cases hold (e.g. ln(0) = -inf, exp(-inf) = 0, x^0 = 1, odd/even symmetry, NaN propagation).",
["inputs"],"all float vector types, lanes and lane values, with accuracy judged at a table of reference points",
"tests evaluate each function at one to three splat arguments",
["src/api/math/float","src/codegen/math/float"],
[("LLVM/libm vector calls","src/codegen/math/float/{sin,cos,exp,ln,powf,tanh,sin_pi,cos_pi,sin_cos_pi}.rs"),("scalar loops","src/codegen/math/float/macros.rs")])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
