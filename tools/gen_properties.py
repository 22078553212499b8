#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Sampling does not depend on what was sampled before",
  "For a well-formed animation and a ratio in [0, 1], the pose a sampling job writes is the same whatever the context it uses was used for before: a fresh context, the same animation at any earlier ratios in any order (forward, backward, far jumps, through seek points or not), another animation, or a context with room for more tracks than needed. No such history makes the job panic or read outside its buffers.",
  ["histories", "inputs"], "every sequence of (animation, ratio) samples through one context, every well-formed animation (any number of tracks, keys, seek points)",
  "The tests play a few fixed clips in one direction plus a handful of jumps; the cache state reachable after arbitrary jumps, direction changes and animation switches is unbounded.",
  ["src/sampling_job.rs"],
  [("cache update: initialise from seek point, advance, rewind", "src/sampling_job.rs update_cache / initialize_cache / track_forward / track_backward"), ("outdated flags", "src/sampling_job.rs outdate_cache / decompress_*"), ("animation switch detection", "src/sampling_job.rs step_context")],
  [("entries", "per track, the index of the right-hand key of the current segment", "SamplingContextInner"), ("next", "number of keys consumed from the time-sorted stream", "SamplingContextInner"), ("outdated", "one bit per group of 4 tracks whose decompressed keys are stale", "SamplingContextInner")],
  ["SamplingJob::run output", "SamplingContext accessors"])
p("C02", "A sampled pose interpolates the two keys around the ratio",
  "For a well-formed animation, each track of the sampled pose is the interpolation (linear for translation and scale, normalised linear for rotation) of that track's two consecutive keys whose times bracket the ratio, at the fraction of the way between them. The ratio is clamped into [0, 1] when it is set (a NaN becomes a value in that range), and elements of the output beyond the animation's tracks are left untouched.",
  ["inputs"], "every well-formed animation, every ratio (all f32 bit patterns), every output length",
  "Tests compare a few ratios of two clips with recorded poses; they cannot cover every key layout, ratio and output length.",
  ["src/sampling_job.rs", "src/animation.rs", "src/math.rs"],
  [("key bracketing", "src/sampling_job.rs update_cache"), ("decompression of left/right keys", "src/sampling_job.rs decompress_float3 / decompress_quat"), ("interpolation", "src/sampling_job.rs interpolates; src/math.rs SoaVec3::lerp, SoaQuat::nlerp"), ("ratio clamp", "src/sampling_job.rs set_ratio; src/math.rs f32_clamp_or_max")],
  [], ["SamplingJob::run output"])
p("C03", "Compressed keys decode to exactly the value they encode",
  "Every finite half-float key component decodes to exactly the number it encodes, and every compressed quaternion key decodes to the three stored components on their 15-bit grid plus a largest component that makes the quaternion unit length with the stored sign. Decoding four keys at once gives, lane by lane, the bit-identical result of decoding each key alone.",
  ["inputs"], "all 65536 half floats in each lane, all 2^48 quaternion keys in each lane",
  "Tests decode a handful of keys; a wrong special case (denormals, largest exponent, a component mapping, a lane mask) only shows on particular bit patterns.",
  ["src/animation.rs", "src/math.rs"],
  [("half float decode", "src/math.rs f16_to_f32 / simd_f16_to_f32"), ("quaternion unpack", "src/animation.rs QuaternionKey::unpack / decompress / simd_decompress")],
  [], ["Float3Key::decompress", "Float3Key::simd_decompress", "QuaternionKey::decompress", "QuaternionKey::simd_decompress"])
p("C04", "Seek-point streams decode to what was encoded, without overrun",
  "Decoding a group-varint seek-point stream yields exactly the numbers that were encoded, for every mix of 1 to 4 byte values and every number of tracks, consuming exactly the encoded bytes. No byte outside the stream is read, and nothing else of the cache is written.",
  ["inputs"], "every sequence of 32-bit values (length a multiple of 4), every byte string",
  "Tests decode one or two literal streams; the byte-length combinations and the end-of-buffer cases are not enumerable by examples.",
  ["src/sampling_job.rs"], [("group varint decoder", "src/sampling_job.rs decode_gv4 / decode_gv4_stream"), ("seek", "src/sampling_job.rs initialize_cache")],
  [], ["SamplingContext entries after a seek", "SamplingJob::run output"])
p("C05", "Archive primitives read exact values in either byte order",
  "Reading an integer, float, boolean, vector, quaternion or transform, or an array of them, from an archive yields the value whose bytes are in the stream, in the byte order the archive declares, and consumes exactly those bytes; a boolean is true exactly for a non-zero byte. Strings are read up to and including their terminating zero, and a stream that ends early or holds invalid UTF-8 gives an error, never a panic, a partial value or a read past the end.",
  ["inputs"], "every byte string, both byte orders, every truncation point",
  "Tests read one little-endian file; the big-endian paths, short reads and invalid strings are barely sampled.",
  ["src/archive.rs", "src/endian.rs", "src/math.rs"], [("endian aware reads", "src/archive.rs Archive::read / read_vec / read_slice; src/endian.rs SwapEndian"), ("string reading", "src/archive.rs ArchiveRead<String>")],
  [], ["Archive::new", "Archive::read", "Archive::read_vec", "Archive::read_slice", "Archive::read_tag", "Archive::read_version"])
p("C06", "Loading yields exactly the file's content or an error",
  "Loading a skeleton, an animation or a track from a valid archive in either byte order yields exactly the counts, names, keys, times, hierarchy and seek data the archive holds, including one-byte key times when the animation has at most 255 time points and two-byte ones otherwise. An archive with another tag or another version, one that is truncated at any point, or one with a name that is not UTF-8 gives an error of the matching kind and never a panic.",
  ["inputs", "fault_sequences"], "every valid archive (all counts), every truncation point, every wrong tag or version",
  "Tests load a few fixed resource files; other counts, byte orders and truncation points are never tried.",
  ["src/animation.rs", "src/skeleton.rs", "src/track.rs", "src/archive.rs"], [("animation loading", "src/animation.rs Animation::read_meta / from_archive"), ("skeleton loading", "src/skeleton.rs Skeleton::read_meta / from_archive"), ("track loading", "src/track.rs Track::from_archive")],
  [], ["Animation::from_archive", "Skeleton::from_archive", "Track::from_archive"])
p("C07", "Stored data survives allocation, copying and serialization",
  "The buffers of an animation, a skeleton and a sampling context are disjoint, aligned, inside one allocation and of the declared lengths, for every combination of counts including zero. A cloned sampling context equals its source and behaves the same, two contexts compare equal exactly when every observable field is equal, and an animation, skeleton, track or sampling context written with either supported serializer and read back is the same.",
  ["inputs", "configurations"], "every combination of counts, every content, both serializers",
  "Tests serialize one clip; layouts with odd counts (alignment padding), zero counts and field-by-field round trips are not covered.",
  ["src/animation.rs", "src/skeleton.rs", "src/sampling_job.rs", "src/math.rs", "src/base.rs"], [("manual layout", "src/animation.rs Animation::new; src/skeleton.rs Skeleton::new; src/sampling_job.rs SamplingContext::new"), ("clone / eq", "src/sampling_job.rs impl Clone / PartialEq"), ("serialization", "serde and rkyv impls in src/animation.rs, src/skeleton.rs, src/sampling_job.rs, src/math.rs")],
  [], ["accessors of Animation, Skeleton, SamplingContext"])
p("C08", "Local-to-model gives each joint its parent's matrix times its own",
  "For any depth-first skeleton and local pose, every joint in the requested range (the subtree of the start joint, the start joint itself unless excluded, up to the end joint) gets the model-space matrix parent * local, with the root matrix as parent of root joints. All other output matrices keep their previous value, so updating only a subtree equals recomputing everything.",
  ["inputs", "configurations"], "every hierarchy, local pose, root matrix, start and end joint (any integer) and exclusion flag, every buffer length",
  "Tests use one 8-joint hierarchy and a few ranges; start/end/exclude combinations on arbitrary trees are not enumerable.",
  ["src/local_to_model_job.rs", "src/math.rs", "src/skeleton.rs"], [("traversal", "src/local_to_model_job.rs run"), ("matrix build and product", "src/math.rs AosMat4 / SoaMat4")],
  [], ["LocalToModelJob::run output"])
p("C09", "Skeleton traversal visits exactly the subtree, parents first",
  "Iterating a depth-first skeleton from a joint visits exactly that joint and its descendants, each once, parents before children, in index order and with the right parent (a negative start visits all joints); the reverse iteration visits all joints once, children before parents. A joint is reported as a leaf exactly when no joint has it as parent, and name and index lookups are inverse to each other.",
  ["inputs"], "every depth-first ordered hierarchy, every start joint",
  "Tests iterate a couple of small trees.",
  ["src/skeleton.rs"], [("depth-first iteration", "src/skeleton.rs iter_depth_first / iter_depth_first_reverse / is_leaf"), ("name map", "src/skeleton.rs joint_by_name / name_by_joint")],
  [], ["Skeleton::iter_depth_first", "Skeleton::iter_depth_first_reverse", "Skeleton::is_leaf"])
p("C10", "A blended pose is the normalised weighted mix of its layers",
  "For any layers, weights, per-joint weights, threshold, rest pose and additive layers, each joint of the blended pose is the weight-normalised mix of the layers with positive weight (rotations aligned to the same hemisphere and normalised), completed by the rest pose when the accumulated weight is below the threshold. Additive layers are then added with positive weight or subtracted with negative weight, layers of zero weight and joints of zero weight change nothing, and joints beyond the rest pose are untouched.",
  ["inputs", "configurations"], "every number of layers, weights of any sign, with and without joint weights, every pose and threshold",
  "Tests use a few constant poses with two or three layers.",
  ["src/blending_job.rs", "src/math.rs"], [("layer accumulation", "src/blending_job.rs blend_layers"), ("rest pose completion", "src/blending_job.rs blend_rest_pose"), ("normalisation", "src/blending_job.rs normalize"), ("additive layers", "src/blending_job.rs add_layers")],
  [], ["BlendingJob::run output"])
p("C11", "Blended motion keeps the weighted length and direction",
  "The translation of a blended motion has the weight-averaged length of the layers' translations and the direction of their weighted sum (zero when that sum vanishes), and the rotation is the normalised weighted sum of the layers' rotations on a common hemisphere. Layers of zero or negative weight contribute nothing, and with no contributing layer the result is the identity.",
  ["inputs"], "every number of layers, every weights, every delta transforms",
  "Tests use two fixed layers.",
  ["src/motion_blending_job.rs"], [("accumulation and normalisation", "src/motion_blending_job.rs run")], [], ["MotionBlendingJob::run output"])
p("C12", "Skinning transforms each vertex by its weighted joint matrices",
  "For every influence count and every combination of optional inputs, each output position is the weighted sum of the joint matrices of that vertex applied to the input position, and each normal and tangent is transformed as a direction with the same weights (by the inverse transposed matrices when these are given). The last influence's weight is one minus the others, each vertex depends only on its own inputs, and vertices beyond the vertex count are untouched.",
  ["inputs", "configurations"], "every influence count (1, 2, 3, 4, more), all optional-input combinations, any number of vertices, weights, matrices",
  "25 specialised variants exist; tests run each with one or two vertices of simple data.",
  ["src/skinning_job.rs"], [("25 specialised loops", "src/skinning_job.rs skinning_* functions"), ("dispatch", "src/skinning_job.rs run")], [], ["SkinningJob::run outputs"])
p("C13", "Track sampling holds or interpolates the segment at the ratio",
  "For a well-formed track, the sampled value is the first key's before the track's start, the last key's after its end, and otherwise that of the segment containing the ratio: the left key for a step key, the linear interpolation for a linear key. At a key's exact time the value is that key's, an empty track gives the default value, and any ratio (including NaN) is handled without panic.",
  ["inputs"], "every well-formed track (any number of keys, any step bits), every f32 ratio",
  "Tests sample a few 4-5 key tracks at chosen ratios.",
  ["src/track_sampling_job.rs", "src/track.rs"], [("segment search", "src/track_sampling_job.rs run"), ("interpolation", "src/track.rs TrackValue::lerp")], [], ["TrackSamplingJob::result"])
p("C14", "Track triggering reports each crossing once, in order",
  "Over a range of ratios a triggering job reports exactly the threshold crossings of the looped track that lie in the range, in the order they are met, with rising and falling as met. Two adjacent ranges together report exactly what their union reports, and playing a range backward reports the same crossings in reverse order with rising and falling exchanged.",
  ["inputs"], "every well-formed track, threshold, and range with bounds of magnitude below 2^23, forward or backward, over any number of loops",
  "Tests check a few ranges on three small tracks.",
  ["src/track_triggering_job.rs"], [("edge iteration", "src/track_triggering_job.rs TrackTriggeringIter::next"), ("edge detection", "src/track_triggering_job.rs detect_edge")],
  [("outer / inner", "current loop and key of the iteration", "TrackTriggeringIter")], ["TrackTriggeringJob::run"])
p("C15", "Two-bone IK reaches the target when it can",
  "For a non-degenerate chain and full weight, applying the two corrections puts the end joint on the target when the target is within reach (and reports it), and otherwise stretches the chain towards it, keeping bone lengths, with the mid joint rotating about its axis only and the chain in the plane given by the pole vector and twist. A weight of zero gives identity corrections, and a weight between blends from the identity to the full correction by the shortest path.",
  ["inputs"], "every non-degenerate chain, target, pole vector, twist, soften and weight",
  "Tests check axis-aligned chains of unit bones.",
  ["src/ik_two_bone_job.rs", "src/math.rs"], [("solver", "src/ik_two_bone_job.rs run and helpers")], [], ["IKTwoBoneJob start_joint_correction, mid_joint_correction, reached"])
p("C16", "Aim IK points the joint's forward axis at the target",
  "For a non-degenerate joint and full weight, the correction rotates the joint so that the line from the offset along the forward axis goes through the target, with the up axis in the plane of the pole vector, rotated by the twist angle. When the offset makes the target unreachable the correction is the identity and this is reported; a weight of zero gives the identity and a weight between blends by the shortest path.",
  ["inputs"], "every joint transform, target, forward, up, offset, pole, twist and weight",
  "Tests check axis-aligned targets.",
  ["src/ik_aim_job.rs", "src/math.rs"], [("solver", "src/ik_aim_job.rs run and helpers")], [], ["IKAimJob joint_correction, reached"])
p("C17", "The SIMD math kernel agrees with the mathematics, lane by lane",
  "Each structure-of-arrays or packed operation computes, in every lane, the vector, quaternion and matrix operation it is named after: arithmetic, lerp and normalised lerp, quaternion product, conjugation, rotation of vectors, matrix product, inverse, transpose and conversion between rotation, translation and scale and a matrix. No lane influences another, conversions between the two layouts are inverse to each other, and masks select exactly the marked lanes.",
  ["inputs"], "every operand value in every lane",
  "Unit tests evaluate a few constants; a swapped component or lane is invisible on symmetric data.",
  ["src/math.rs"], [("kernel", "src/math.rs fx4_*, vec3_*, quat_*, mat4_*, SoaVec3, SoaQuat, SoaMat4, AosMat4")], [], ["public functions and types of the math module"])
p("C18", "Approximated trigonometric functions stay within their error bound",
  "For every finite argument in their domain, the library's own sine, cosine, arc sine and arc cosine differ from the exact function by no more than a fixed small bound. They never return NaN inside the domain.",
  ["inputs"], "every f32 in the domain", "Tests compare a grid of arguments.",
  ["src/math.rs"], [("polynomial approximations", "src/math.rs fx4_sin, fx4_cos, fx4_sin_cos, fx4_asin, fx4_acos")], [], ["math module"])
p("C19", "A job runs exactly when its inputs are valid, and fails cleanly",
  "For every job whose joint indices refer to existing joints, run succeeds exactly when validate reports the job valid, and otherwise returns the invalid-job error without having written to any output. A joint index without a matrix gives the invalid-index error, and no combination of present or missing inputs, buffer lengths, counts and weights makes validate or run panic.",
  ["inputs", "configurations"], "all subsets of inputs set, all buffer lengths (shorter, equal, longer), for all eight jobs",
  "Tests try a few invalid configurations per job; the cross product of lengths and missing inputs is not covered.",
  ["src/sampling_job.rs", "src/blending_job.rs", "src/local_to_model_job.rs", "src/skinning_job.rs", "src/motion_blending_job.rs", "src/track_sampling_job.rs", "src/track_triggering_job.rs", "src/ik_aim_job.rs", "src/ik_two_bone_job.rs"],
  [("validate / run", "each job")], [], ["validate, run of each job"])
p("C20", "Results do not depend on how buffers are owned or shared",
  "A job gives the same result whether its inputs and outputs are borrowed slices, vectors, reference-counted or lock-protected buffers. A poisoned lock gives the lock error instead of a panic.",
  ["configurations", "fault_sequences"], "all buffer kinds in all positions, a panic while a buffer lock is held",
  "Tests mostly use one kind of buffer.", ["src/base.rs"], [("buffer traits", "src/base.rs OzzBuf / OzzMutBuf / OzzObj")], [], ["all jobs"])
p("C21", "The same inputs give bit-identical results on every platform",
  "On every supported target (x86-64, AArch64, WebAssembly) the same inputs give bit-identical outputs of all jobs.",
  ["configurations"], "all targets and all inputs", "Tests compare a few recorded outputs on the host.", ["src/math.rs", "src/lib.rs"],
  [("portable SIMD and software transcendental functions", "src/math.rs")], [], ["all jobs"])
p("C22", "Shared resources can be used from several threads at once",
  "Animations, skeletons and tracks shared between threads can be sampled concurrently, each thread with its own context, without data races and with the same results as when run alone.",
  ["schedules"], "all interleavings", "No test is multi-threaded beyond a smoke test.", ["src/animation.rs", "src/skeleton.rs", "src/sampling_job.rs"],
  [("unsafe impl Send / Sync", "src/animation.rs, src/skeleton.rs, src/sampling_job.rs")], [], ["jobs run on threads"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
