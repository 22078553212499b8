"""Per property: what is proved and over which functions (explain), what stays assumed (trusted), in one line (note)."""

REALS = "f32 and f32x4 arithmetic is modelled by exact real arithmetic, lane by lane: rounding, overflow and NaN are outside the proof (the replay stage runs the real floats)"
WORDS = "f32 operations are uninterpreted functions of the operands' bit patterns with a few IEEE facts"
ANYF = "f32 operations give unspecified results (only the comparison is antisymmetric), so the proof holds for NaN and any rounding"
PTRS = "raw pointers into the one allocation are modelled as owned sequences (their carving out of the allocation is proved separately, template layout)"
BUFS = "OzzBuf/OzzObj as seen by the jobs: a buffer gives a slice of its content or, if poisoned, LockPoison (the implementations are proved against that in template bufs); input and output do not alias"
STD = "the standard library functions with an assumed contract, as listed under assumptions"
GLAM = "glam vectors and matrices: field access, conversion and arithmetic as listed in verus/inc/glam.rs"
VSIMD = "kani/vsimd.rs stands for std::simd (the same operations lane by lane in plain Rust)"
TRIG = "fx4_acos and fx4_sin_cos compute the exact functions (how near they come is C18), with the addition theorems as axioms"
TOOL = ["Verus 0.2026.09.13 and Z3", "engine/extract.py: the substitutions listed under assumptions keep the meaning of the text"]
KANI = ["Kani 0.68 / CBMC"]

NOTES = {
    "C01": ("Verus: context invariant `coherent` preserved by every cache function; sampling pose is a function of animation and ratio",
            "The context of a sampling job satisfies the invariant `coherent` (every cache entry is the key the animation's own back links reach) after creation, invalidation, "
            "cloning and every run; step_context, update_cache, initialize_cache, outdate_cache, decompress_* and interpolate preserve it from any coherent context "
            "(of any earlier ratio, or another animation), and the pose the run writes is a function `sample` of animation and ratio only. Loops have invariants, any number of tracks and keys.",
            [REALS, PTRS, BUFS]),
    "C02": ("Verus: the two keys the cache holds bracket the ratio; the written pose is their interpolation",
            "The contract of update_cache says that each entry of the cache is the last key at or before the ratio whose successor lies after it; decompress and interpolate give the lerp (nlerp) "
            "of exactly these two, for all tracks; set_ratio clamps; the tail of the output is kept.",
            [REALS, PTRS, BUFS]),
    "C03": ("Kani on every bit pattern (scalar and SIMD decode compared bit for bit); Verus bit-level and real-number contracts on key decoding",
            "Kani runs the real half-float, Float3Key and QuaternionKey decoders, scalar and four at once, on all bit patterns (loop free, so complete); Verus proves the quaternion's stored components, its unit length "
            "and the sign of the largest one over the reals (keys), and lane independence over opaque float words (keysb).",
            [REALS, WORDS, VSIMD]),
    "C04": ("Verus: decode inverts a ghost encoder for all numbers, byte-exact consumption, in-bounds reads",
            "decode_gv4 and decode_gv4_stream against a ghost encoder: all four numbers, any mix of widths, the consumed length, no read outside the stream (slice bounds are obligations), nothing but the output written.",
            [STD]),
    "C05": ("Verus on the archive readers over a ghost byte stream; Kani on the primitive readers for all bytes and both byte orders",
            "Each reader consumes exactly its bytes of the stream and returns the value they encode in the declared order; arrays and strings by loop invariants; short or invalid streams give an error.",
            ["std::io::Read is a finite byte sequence that read_exact takes from the front or fails", STD, VSIMD]),
    "C06": ("Verus on the loaders: the loaded object is the parse of the bytes, or an error of the matching kind",
            "Skeleton, Animation and Track from_archive (meta and data) against a ghost grammar of the file: fields, counts, order, one- or two-byte ratios, tag and version errors; every read is one of C05's.",
            [PTRS, STD]),
    "C07": ("Verus on allocation layout (address arithmetic, disjoint and aligned regions) and on clone, comparison and serializers",
            "layout: sizes and offsets of all regions for all counts, without overflow or overlap, inside the allocation; copies: clone, PartialEq, invalidate, the serde and rkyv writers and readers copy each field and each region.",
            ["serde and rkyv machinery: maps and sequences hand back what was written", PTRS, STD]),
    "C08": ("Verus: loop invariant over the depth-first hierarchy; updated set equals the subtree",
            "LocalToModelJob::run for any depth-first skeleton of any size, any from, to, excluded: exactly the joints of the range get parent * local, all other matrices are kept; subtree/range lemma by induction.",
            ["the matrix functions are those of C17", BUFS]),
    "C09": ("Verus: iteration visits the subtree once, parents first; leaf test; by induction over the hierarchy",
            "iter_depth_first, iter_depth_first_reverse, is_leaf, and the name lookups, for any depth-first hierarchy.",
            ["closures called by the iteration are recorded in a ghost sequence", "HashMap lookups return what was inserted"]),
    "C10": ("Verus: the blending passes against a recursive specification of the mix, over the reals",
            "run and each of its passes (layers with and without joint weights, rest pose, normalize, additive) lane by lane against `blended`; lemmas: division by the total weight, zero weights contribute nothing, the threshold.",
            [REALS, BUFS, GLAM, "reciprocal square root estimate is exact"]),
    "C11": ("Verus: the accumulation loops of motion blending against weighted sums, over the reals",
            "run: weighted average length, direction of the weighted sum, hemisphere alignment, normalisation, empty and zero-weight layers.",
            [REALS, GLAM]),
    "C12": ("Verus: all 25 macro-expanded skinning functions and their dispatch against one specification, over the reals",
            "Each function skinning_N_{p,pn,pnt,pn_it,pnt_it}, expanded by the extractor from the real macro, writes exactly the weighted transform for each vertex, and the dispatch selects the right one.",
            [REALS, BUFS, GLAM]),
    "C13": ("Verus: track sampling against the segment that holds the ratio",
            "Track::sample with its binary search (partition_point contract), step bits, end segments, empty track; for f32, vectors and quaternions through the interpolation trait; NaN through the unspecified-float model.",
            [REALS, ANYF, STD]),
    "C14": ("Verus: the triggering iterator against the ordered list of crossings in the range",
            "The iterator's state invariant and each yielded edge: edges are exactly the crossings in order; forward and backward, looping; splitting a range.",
            [REALS, STD]),
    "C15": ("Verus: every function of the two-bone job; the chain geometry over the reals; the matrix inverse by symbolic execution",
            "validate, setup, soften_target, compute_mid_joint, compute_start_joint, weight_output and run. For a chain of rigid matrices and a unit middle axis: bone lengths kept, end joint at the softened distance (law of cosines), "
            "on the target when reported reached, middle axis in the plane of pole and twist, identity at weight zero, shortest-path fade.",
            [REALS, TRIG]),
    "C16": ("Verus: the aim job's geometry over the reals; the matrix inverse by symbolic execution",
            "validate, compute_offsetted_forward and run: the ray from the offset meets the target, up lies in the pole plane after twist, unreachable offset gives identity and reports it, fade by the shortest path.",
            [REALS, TRIG]),
    "C17": ("Verus: each kernel function against the mathematics, lane by lane; polynomial identities by normal form; AosMat4::invert by symbolic execution",
            "SoaVec3, SoaQuat, SoaMat4, AosMat4, quaternion and fx4_* functions against their vector, quaternion or matrix meaning; transpositions and layouts exactly; masks on bit patterns.",
            [REALS, WORDS, GLAM]),
    "C18": ("Verus: the trigonometric functions in single precision, every rounding counted; polynomial inequalities by Z3's nonlinear real arithmetic",
            "fx4_sin_cos, fx4_asin, fx4_acos, the f32_* forms, fx4_sign, fx4_xor and their constants (rounded to f32 as the compiler does). For |x| <= 1000, |sin - exact| and |cos - exact| <= 3e-7; asin (argument clamped to [-1, 1]) within 4e-7, "
            "acos within 6.5e-7; the results are finite, and the float-to-integer conversion is in range.",
            ["IEEE 754 single precision: each operation gives the rounded exact result (monotone, half an ulp, exact on representable numbers, Sterbenz)", 
             "of the exact functions: addition theorems, parity, slope at most one, Taylor bounds of sine and cosine on [0, 1] and of the arc sine on [0, 1/2], the half-argument formula of the arc sine, bounds of pi"]),
    "C19": ("Verus: validate and run of every job: success exactly when valid, outputs kept on error, no panic",
            "For each job, run returns Ok exactly when the specification `valid` holds, validate decides the same specification, an error leaves every output as it was, and no index, unwrap or arithmetic panics (all are obligations).",
            [REALS, ANYF, BUFS]),
    "C20": ("Verus: every implementation of the buffer and resource traits and their guards; the jobs are proved against the traits",
            "obj, buf, mut_buf, deref and deref_mut of all implementations: a guard gives the very content of its buffer, a poisoned lock gives LockPoison; each job's contract is stated over any implementation, "
            "so its result is a function of contents, and a poisoned buffer makes run return LockPoison.",
            ["RefCell, RwLock, their guards, Rc and Arc behave as the standard library says (identity of the cell, poisoning)", BUFS]),
}
