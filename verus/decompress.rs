// C02: the caches hold the decoded keys around the ratio: what decompress_float3 and decompress_quat write.
#![allow(non_camel_case_types, non_snake_case, unused)]
use vstd::prelude::*;
//@include simd.rs
verus! {
use sd::*;
broadcast use sd::ops;
global size_of usize == 8;
//@real
//@use kernel
//@include flreal.rs
//@use cache

//@item src/sampling_job.rs struct InterpSoaFloat3
//@end
//@item src/sampling_job.rs struct InterpSoaQuaternion
//@end
//@item src/sampling_job.rs struct DecompressArgs
//@sub (?m)^\s*struct ==> pub struct
//@sub (?m)^(\s+)(\w+): ==> \1pub \2:
//@end

// What decoding a key gives is the subject of C03: each lane is one key's value.
pub ghost struct V3 { pub x: real, pub y: real, pub z: real }
pub ghost struct V4 { pub x: real, pub y: real, pub z: real, pub w: real }
pub uninterp spec fn dec3(k: Float3Key) -> V3;
pub uninterp spec fn decq(k: QuaternionKey) -> V4;
pub open spec fn lane3(v: SoaVec3, k: int) -> V3 { V3 { x: v.x.l(k), y: v.y.l(k), z: v.z.l(k) } }
pub open spec fn laneq(v: SoaQuat, k: int) -> V4 { V4 { x: v.x.l(k), y: v.y.l(k), z: v.z.l(k), w: v.w.l(k) } }
impl Float3Key {
    #[verifier::external_body]
    pub fn simd_decompress(k0: &Float3Key, k1: &Float3Key, k2: &Float3Key, k3: &Float3Key, soa: &mut SoaVec3)
        ensures lane3(*final(soa), 0) == dec3(*k0), lane3(*final(soa), 1) == dec3(*k1), lane3(*final(soa), 2) == dec3(*k2), lane3(*final(soa), 3) == dec3(*k3)
    { unimplemented!() }
}
impl QuaternionKey {
    #[verifier::external_body]
    pub fn simd_decompress(k0: &QuaternionKey, k1: &QuaternionKey, k2: &QuaternionKey, k3: &QuaternionKey, soa: &mut SoaQuat)
        ensures laneq(*final(soa), 0) == decq(*k0), laneq(*final(soa), 1) == decq(*k1), laneq(*final(soa), 2) == decq(*k2), laneq(*final(soa), 3) == decq(*k3)
    { unimplemented!() }
}
pub open spec fn at4(e: Seq<u32>, i: int, k: int) -> u32 { e[4 * i + k] }
pub open spec fn left(p: Seq<u16>, e: u32) -> int { e - p[e as int] }
// Lane k of group i: the decoded keys around the ratio, and their times.
pub open spec fn around(r: Seq<u16>, p: Seq<u16>, tp: Seq<F>, e: u32, t0: f32x4, t1: f32x4, k: int) -> bool {
    t0.l(k) == tp[r[left(p, e)] as int].v() && t1.l(k) == tp[r[e as int] as int].v()
}
pub open spec fn group3(r: Seq<u16>, p: Seq<u16>, tp: Seq<F>, c: Seq<Float3Key>, e: Seq<u32>, i: int, v: InterpSoaFloat3) -> bool {
    &&& forall|k: int| 0 <= k < 4 ==> around(r, p, tp, #[trigger] at4(e, i, k), v.ratio@[0], v.ratio@[1], k)
    &&& forall|k: int| 0 <= k < 4 ==> lane3(v.value@[0], k) == dec3(c[left(p, #[trigger] at4(e, i, k))]) && lane3(v.value@[1], k) == dec3(c[at4(e, i, k) as int])
}
pub open spec fn groupq(r: Seq<u16>, p: Seq<u16>, tp: Seq<F>, c: Seq<QuaternionKey>, e: Seq<u32>, i: int, v: InterpSoaQuaternion) -> bool {
    &&& forall|k: int| 0 <= k < 4 ==> around(r, p, tp, #[trigger] at4(e, i, k), v.ratio@[0], v.ratio@[1], k)
    &&& forall|k: int| 0 <= k < 4 ==> laneq(v.value@[0], k) == decq(c[left(p, #[trigger] at4(e, i, k))]) && laneq(v.value@[1], k) == decq(c[at4(e, i, k) as int])
}
// The cache entries of the first soa groups are keys that have an earlier key (what C01's cache contract gives).
pub open spec fn wf(r: Seq<u16>, p: Seq<u16>, tp: Seq<F>, nkeys: int, e: Seq<u32>, soa: int) -> bool {
    &&& r.len() == p.len() == nkeys
    &&& 4 * soa <= e.len()
    &&& forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]) < tp.len()
    &&& forall|t: int| 0 <= t < 4 * soa ==> (#[trigger] e[t]) < p.len() && p[e[t] as int] <= e[t]
}
proof fn bit_shift(b: u8, k: u8)
    requires k < 8
    ensures bit(b, k as int) == ((b >> k) & 1u8 != 0)
{
    assert((b & 1 != 0) == ((b >> 0u8) & 1 != 0) && (b & 2 != 0) == ((b >> 1u8) & 1 != 0) && (b & 4 != 0) == ((b >> 2u8) & 1 != 0) && (b & 8 != 0) == ((b >> 3u8) & 1 != 0)
        && (b & 16 != 0) == ((b >> 4u8) & 1 != 0) && (b & 32 != 0) == ((b >> 5u8) & 1 != 0) && (b & 64 != 0) == ((b >> 6u8) & 1 != 0) && (b & 128 != 0) == ((b >> 7u8) & 1 != 0)) by (bit_vector);
}

//@fn src/sampling_job.rs SamplingJob::key_ratio_simd
//@ret x
//@spec
    requires
        ats@.len() == 4,
        forall|k: int| 0 <= k < 4 ==> (#[trigger] ats@[k]) < ctrl.ratios@.len() && ctrl.ratios@[ats@[k] as int] < timepoints@.len(),
    ensures forall|k: int| 0 <= k < 4 ==> #[trigger] x.l(k) == timepoints@[ctrl.ratios@[ats@[k] as int] as int].v(),
//@begin
    proof { assert(ats@[0] < ctrl.ratios@.len() && ats@[1] < ctrl.ratios@.len() && ats@[2] < ctrl.ratios@.len() && ats@[3] < ctrl.ratios@.len()); }
//@end

//@fn src/sampling_job.rs SamplingJob::decompress_float3
//@sub \bSelf:: ==>
//@spec
    requires
        args.outdated@.len() <= 0x0fff_ffff,
        exists|soa: int| args.outdated@.len() == (soa + 7) / 8 && 0 <= soa <= old(args.values)@.len()
            && #[trigger] wf(ctrl.ratios@, ctrl.previouses@, timepoints@, compressed@.len() as int, args.entries@, soa)
            && none_beyond(args.outdated@, soa),
    ensures
        final(args.values)@.len() == old(args.values)@.len(), final(args.outdated)@.len() == old(args.outdated)@.len(),
        forall|i: int| 0 <= i < 8 * old(args.outdated)@.len() && flag(final(args.outdated)@, i) ==> #[trigger] flag(old(args.outdated)@, i),
        forall|i: int| 0 <= i < 8 * old(args.outdated)@.len() && #[trigger] flag(old(args.outdated)@, i) ==> i < old(args.values)@.len()
            && group3(ctrl.ratios@, ctrl.previouses@, timepoints@, compressed@, args.entries@, i, final(args.values)@[i]),
        forall|i: int| 0 <= i < old(args.values)@.len() && !(i < 8 * old(args.outdated)@.len() && flag(old(args.outdated)@, i)) ==>
            #[trigger] final(args.values)@[i] == old(args.values)@[i],
//@begin
    let ghost v0 = args.values@;
    let ghost o = args.outdated@;
    let ghost r = ctrl.ratios@;
    let ghost p = ctrl.previouses@;
    let ghost e = args.entries@;
    let ghost soa = choose|soa: int| args.outdated@.len() == (soa + 7) / 8 && 0 <= soa <= args.values@.len()
            && #[trigger] wf(ctrl.ratios@, ctrl.previouses@, timepoints@, compressed@.len() as int, args.entries@, soa)
            && none_beyond(args.outdated@, soa);
//@loop 1 for j in 0..args.outdated.len()
    invariant
        o == args.outdated@, r == ctrl.ratios@, p == ctrl.previouses@, e == args.entries@, args.outdated@.len() <= 0x0fff_ffff,
        o.len() == (soa + 7) / 8, 0 <= soa <= args.values@.len(), args.values@.len() == v0.len(),
        wf(r, p, timepoints@, compressed@.len() as int, e, soa), none_beyond(o, soa),
        forall|i: int| 0 <= i < 8 * j && #[trigger] flag(o, i) ==> i < v0.len() && group3(r, p, timepoints@, compressed@, e, i, args.values@[i]),
        forall|i: int| 0 <= i < v0.len() && !(i < 8 * j && flag(o, i)) ==> #[trigger] args.values@[i] == v0[i],
//@loop 2 for i in (8 * j)..(8 * j + 8)
    invariant
        o == args.outdated@, r == ctrl.ratios@, p == ctrl.previouses@, e == args.entries@, args.outdated@.len() <= 0x0fff_ffff, j < o.len(),
        o.len() == (soa + 7) / 8, 0 <= soa <= args.values@.len(), args.values@.len() == v0.len(),
        wf(r, p, timepoints@, compressed@.len() as int, e, soa), none_beyond(o, soa),
        i < 8 * j + 8 ==> outdated == o[j as int] >> ((i - 8 * j) as u8),
        forall|i_: int| 0 <= i_ < i && #[trigger] flag(o, i_) ==> i_ < v0.len() && group3(r, p, timepoints@, compressed@, e, i_, args.values@[i_]),
        forall|i_: int| 0 <= i_ < v0.len() && !(i_ < i && flag(o, i_)) ==> #[trigger] args.values@[i_] == v0[i_],
//@pre 2
    proof { let b = outdated; assert(b >> 0u8 == b) by (bit_vector); }
//@start 2
    proof {
        bit_shift(o[j as int], (i - 8 * j) as u8);
        assert(flag(o, i as int) == (outdated & 1 != 0));
        if flag(o, i as int) {
            assert(i < soa);
            assert(e[4 * i as int] < p.len() && e[4 * i + 1] < p.len() && e[4 * i + 2] < p.len() && e[4 * i + 3] < p.len());
        }
        let (b, k) = (o[j as int], (i - 8 * j) as u8);
        assert(k < 7 ==> (b >> k) >> 1u8 == b >> ((k + 1) as u8)) by (bit_vector);
    }
//@end

//@fn src/sampling_job.rs SamplingJob::decompress_quat
//@sub \bSelf:: ==>
//@spec
    requires
        args.outdated@.len() <= 0x0fff_ffff,
        exists|soa: int| args.outdated@.len() == (soa + 7) / 8 && 0 <= soa <= old(args.values)@.len()
            && #[trigger] wf(ctrl.ratios@, ctrl.previouses@, timepoints@, compressed@.len() as int, args.entries@, soa)
            && none_beyond(args.outdated@, soa),
    ensures
        final(args.values)@.len() == old(args.values)@.len(), final(args.outdated)@.len() == old(args.outdated)@.len(),
        forall|i: int| 0 <= i < 8 * old(args.outdated)@.len() && flag(final(args.outdated)@, i) ==> #[trigger] flag(old(args.outdated)@, i),
        forall|i: int| 0 <= i < 8 * old(args.outdated)@.len() && #[trigger] flag(old(args.outdated)@, i) ==> i < old(args.values)@.len()
            && groupq(ctrl.ratios@, ctrl.previouses@, timepoints@, compressed@, args.entries@, i, final(args.values)@[i]),
        forall|i: int| 0 <= i < old(args.values)@.len() && !(i < 8 * old(args.outdated)@.len() && flag(old(args.outdated)@, i)) ==>
            #[trigger] final(args.values)@[i] == old(args.values)@[i],
//@begin
    let ghost v0 = args.values@;
    let ghost o = args.outdated@;
    let ghost r = ctrl.ratios@;
    let ghost p = ctrl.previouses@;
    let ghost e = args.entries@;
    let ghost soa = choose|soa: int| args.outdated@.len() == (soa + 7) / 8 && 0 <= soa <= args.values@.len()
            && #[trigger] wf(ctrl.ratios@, ctrl.previouses@, timepoints@, compressed@.len() as int, args.entries@, soa)
            && none_beyond(args.outdated@, soa);
//@loop 1 for j in 0..args.outdated.len()
    invariant
        o == args.outdated@, r == ctrl.ratios@, p == ctrl.previouses@, e == args.entries@, args.outdated@.len() <= 0x0fff_ffff,
        o.len() == (soa + 7) / 8, 0 <= soa <= args.values@.len(), args.values@.len() == v0.len(),
        wf(r, p, timepoints@, compressed@.len() as int, e, soa), none_beyond(o, soa),
        forall|i: int| 0 <= i < 8 * j && #[trigger] flag(o, i) ==> i < v0.len() && groupq(r, p, timepoints@, compressed@, e, i, args.values@[i]),
        forall|i: int| 0 <= i < v0.len() && !(i < 8 * j && flag(o, i)) ==> #[trigger] args.values@[i] == v0[i],
//@loop 2 for i in (8 * j)..(8 * j + 8)
    invariant
        o == args.outdated@, r == ctrl.ratios@, p == ctrl.previouses@, e == args.entries@, args.outdated@.len() <= 0x0fff_ffff, j < o.len(),
        o.len() == (soa + 7) / 8, 0 <= soa <= args.values@.len(), args.values@.len() == v0.len(),
        wf(r, p, timepoints@, compressed@.len() as int, e, soa), none_beyond(o, soa),
        i < 8 * j + 8 ==> outdated == o[j as int] >> ((i - 8 * j) as u8),
        forall|i_: int| 0 <= i_ < i && #[trigger] flag(o, i_) ==> i_ < v0.len() && groupq(r, p, timepoints@, compressed@, e, i_, args.values@[i_]),
        forall|i_: int| 0 <= i_ < v0.len() && !(i_ < i && flag(o, i_)) ==> #[trigger] args.values@[i_] == v0[i_],
//@pre 2
    proof { let b = outdated; assert(b >> 0u8 == b) by (bit_vector); }
//@start 2
    proof {
        bit_shift(o[j as int], (i - 8 * j) as u8);
        assert(flag(o, i as int) == (outdated & 1 != 0));
        if flag(o, i as int) {
            assert(i < soa);
            assert(e[4 * i as int] < p.len() && e[4 * i + 1] < p.len() && e[4 * i + 2] < p.len() && e[4 * i + 3] < p.len());
        }
        let (b, k) = (o[j as int], (i - 8 * j) as u8);
        assert(k < 7 ==> (b >> k) >> 1u8 == b >> ((k + 1) as u8)) by (bit_vector);
    }
//@end

}
