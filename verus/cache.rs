use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;

macro_rules! check {
    ($e:expr $(, $m:literal)? $(,)?) => { must($e) };
}

verus! {

global size_of usize == 8;

// ---- floats: comparisons are IEEE, i.e. the order of the value (of any real numbers in the same order), false on NaN; other
// operations are uninterpreted
pub mod fl {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::*;
    use vstd::std_specs::ops::*;
    verus! {
    pub uninterp spec fn nan(a: f32) -> bool;
    pub uninterp spec fn rank(a: f32) -> real;
    pub open spec fn fle(a: f32, b: f32) -> bool { !nan(a) && !nan(b) && rank(a) <= rank(b) }
    pub open spec fn flt(a: f32, b: f32) -> bool { !nan(a) && !nan(b) && rank(a) < rank(b) }
    pub broadcast axiom fn ax_le(a: f32, b: f32, o: bool) ensures #[trigger] le_ensures(a, b, o) ==> o == fle(a, b);
    pub broadcast axiom fn ax_lt(a: f32, b: f32, o: bool) ensures #[trigger] lt_ensures(a, b, o) ==> o == flt(a, b);
    pub broadcast axiom fn ax_ge(a: f32, b: f32, o: bool) ensures #[trigger] ge_ensures(a, b, o) ==> o == fle(b, a);
    pub broadcast axiom fn ax_gt(a: f32, b: f32, o: bool) ensures #[trigger] gt_ensures(a, b, o) ==> o == flt(b, a);
    pub broadcast axiom fn ax_add(a: f32, b: f32) ensures #[trigger] a.add_req(b);
    pub broadcast axiom fn ax_sub(a: f32, b: f32) ensures #[trigger] a.sub_req(b);
    pub broadcast axiom fn ax_div(a: f32, b: f32) ensures #[trigger] a.div_req(b);
    pub broadcast proof fn low5(t: usize) ensures #[trigger] (t & 0x1F) == t % 32 {
        assert((t & 0x1F) == t % 32) by (bit_vector);
    }
    pub broadcast group order { low5, ax_le, ax_lt, ax_ge, ax_gt, ax_add, ax_sub, ax_div }
    }
}
use fl::*;
broadcast use fl::order;

pub assume_specification[ f32::abs ](a: f32) -> f32;
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize)
    requires b > 0,
    ensures r as int == (a + b - 1) / (b as int);
pub fn must(b: bool) requires b {}
//@base

// ---- the animation and its control data
//@include mem.rs
#[derive(Clone, Copy)]
//@item src/animation.rs struct Float3Key
//@end
#[derive(Clone, Copy)]
//@item src/animation.rs struct QuaternionKey
//@end
//@item src/animation.rs struct Animation
//@sub \*mut (\w+) ==> Vec<\1>
//@sub (?m)^(\s+)(\w+): ==> \1pub \2:
//@end
impl Animation {
    pub open spec fn tp(&self) -> Seq<f32> { self.timepoints@.take(self.timepoints_count as int) }
    // every region is as long as its count says
    pub open spec fn whole(&self) -> bool {
        &&& self.timepoints_count <= self.timepoints@.len()
        &&& self.translations_count <= self.translations@.len() && self.translations_count <= self.t_ratios@.len() && self.translations_count <= self.t_previouses@.len()
        &&& self.rotations_count <= self.rotations@.len() && self.rotations_count <= self.r_ratios@.len() && self.rotations_count <= self.r_previouses@.len()
        &&& self.scales_count <= self.scales@.len() && self.scales_count <= self.s_ratios@.len() && self.scales_count <= self.s_previouses@.len()
        &&& self.t_iframe_entries_count <= self.t_iframe_entries@.len() && self.t_iframe_desc_count <= self.t_iframe_desc@.len()
        &&& self.r_iframe_entries_count <= self.r_iframe_entries@.len() && self.r_iframe_desc_count <= self.r_iframe_desc@.len()
        &&& self.s_iframe_entries_count <= self.s_iframe_entries@.len() && self.s_iframe_desc_count <= self.s_iframe_desc@.len()
    }
//@fn src/animation.rs Animation::timepoints
//@sub unsafe \{ slice::from_raw_parts\(self\.(\w+), ([^;{}]*)\) \} ==> prefix(&self.\1, \2)
//@ret r
//@spec
    requires self.whole()
    ensures r@ == self.tp()
//@end
}

//@item src/animation.rs struct KeyframesCtrl
//@end
//@item src/sampling_job.rs struct UpdateArgs
//@sub (?m)^\s*struct ==> pub struct
//@sub (?m)^(\s+)(\w+): ==> \1pub \2:
//@end

// Time (rank) of key k.
pub open spec fn kt(r: Seq<u16>, tp: Seq<f32>, k: int) -> real { rank(tp[r[k] as int]) }
// Time of the key before key k of the same track: when k enters the cache.
pub open spec fn ent(r: Seq<u16>, p: Seq<u16>, tp: Seq<f32>, k: int) -> real { kt(r, tp, k - p[k]) }
// Track of key k.
pub open spec fn tr(p: Seq<u16>, a: int, k: int) -> int
    decreases k
{
    if k < a || p[k] == 0 || p[k] > k { k } else { tr(p, a, k - p[k]) }
}

// Well-formed keys: a = number of tracks rounded up to 4, nt = number of tracks.
pub open spec fn wf_keys(r: Seq<u16>, p: Seq<u16>, tp: Seq<f32>, a: int, nt: int) -> bool {
    &&& r.len() == p.len()
    &&& 1 <= nt <= a
    &&& 2 * a <= p.len() <= u32::MAX
    &&& forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]) < tp.len()
    &&& forall|i: int| 0 <= i < tp.len() ==> !nan(#[trigger] tp[i])
    &&& forall|k: int| a <= k < 2 * a ==> (#[trigger] p[k]) == a
    &&& forall|k: int| 2 * a <= k < p.len() ==> 0 < (#[trigger] p[k]) && k - p[k] >= a
    &&& forall|k: int| 2 * a <= k < p.len() ==> 0 <= #[trigger] tr(p, a, k) < nt
    // p links each key to the latest earlier key of its track
    &&& forall|k: int, m: int| a <= k < p.len() && k - p[k] < m < k ==> #[trigger] tr(p, a, m) != #[trigger] tr(p, a, k)
    // keys are sorted by the time at which they are needed
    &&& forall|k: int, m: int| 2 * a <= k <= m < p.len() ==> #[trigger] ent(r, p, tp, k) <= #[trigger] ent(r, p, tp, m)
}
// ratio is a number, not before the first keys
pub open spec fn wf_ratio(r: Seq<u16>, tp: Seq<f32>, a: int, x: f32) -> bool {
    !nan(x) && forall|k: int| 0 <= k < a ==> #[trigger] kt(r, tp, k) <= rank(x)
}

// The cache after n keys: per track, the last key before n.
pub open spec fn cached(p: Seq<u16>, a: int, n: int, e: Seq<u32>) -> bool {
    forall|t: int| 0 <= t < a ==> 0 <= (#[trigger] e[t]) < n && e[t] >= a && tr(p, a, e[t] as int) == t
        && (forall|m: int| e[t] < m < n ==> tr(p, a, m) != t)
}
// The cache is that of ratio x.
pub open spec fn at_ratio(r: Seq<u16>, p: Seq<u16>, tp: Seq<f32>, a: int, x: f32, n: int, e: Seq<u32>) -> bool {
    &&& 2 * a <= n <= p.len()
    &&& e.len() >= a
    &&& cached(p, a, n, e)
    &&& (n < p.len() ==> ent(r, p, tp, n) > rank(x))
    &&& (n > 2 * a ==> ent(r, p, tp, n - 1) <= rank(x))
}

// seek points
pub uninterp spec fn gv_number(b: Seq<u8>, j: int) -> int;       // see template gv4
pub uninterp spec fn gv_ok(b: Seq<u8>, n: int) -> bool;          // n numbers can be decoded
#[verifier::external_body]
pub fn decode_gv4_stream<'t>(buffer: &'t [u8], stream: &mut [u32]) -> (rest: &'t [u8])
    requires gv_ok(buffer@, old(stream)@.len() as int),
    ensures
        final(stream)@.len() == old(stream)@.len(),
        forall|j: int| 0 <= j < final(stream)@.len() ==> #[trigger] (final(stream)@[j]) as int == gv_number(buffer@, j),
{ unimplemented!() }

pub open spec fn wf_seek(p: Seq<u16>, ie: Seq<u8>, id: Seq<u32>, a: int) -> bool {
    &&& id.len() % 2 == 0
    &&& id.len() <= u32::MAX
    &&& forall|i: int| 0 <= i < id.len() / 2 ==> wf_seek_at(p, ie, #[trigger] id[2 * i], id[2 * i + 1], a)
}
pub open spec fn wf_seek_at(p: Seq<u16>, ie: Seq<u8>, off: u32, last: u32, a: int) -> bool {
    let b = ie.subrange(off as int, ie.len() as int);
    &&& off <= ie.len()
    &&& gv_ok(b, a)
    &&& 2 * a <= last + 1 <= p.len()
    &&& forall|j: int| 0 <= j < a ==> 0 <= #[trigger] gv_number(b, j) <= u32::MAX
    &&& cached(p, a, last + 1, Seq::new(a as nat, |j: int| gv_number(b, j) as u32))
}
// the seek point chosen for a ratio is one of the animation
pub uninterp spec fn seek_index(x: f32, interval: f32) -> int;
#[verifier::external_body]
pub fn seek_expr(x: f32, interval: f32) -> (i: i32) ensures i as int == seek_index(x, interval) { unimplemented!() }

proof fn tr_of(p: Seq<u16>, a: int, k: int)
    requires 0 < a, k < a || (p[k] > 0 && p[k] <= k),
    ensures tr(p, a, k) == if k < a { k } else { tr(p, a, k - p[k]) }
{}

// bit i of the outdated flags
pub open spec fn flag(o: Seq<u8>, i: int) -> bool { bit(o[i / 8], i % 8) }
pub open spec fn bit(b: u8, k: int) -> bool {
    if k == 0 { b & 1 != 0 } else if k == 1 { b & 2 != 0 } else if k == 2 { b & 4 != 0 } else if k == 3 { b & 8 != 0 }
    else if k == 4 { b & 16 != 0 } else if k == 5 { b & 32 != 0 } else if k == 6 { b & 64 != 0 } else { b & 128 != 0 }
}
// Every group of 4 tracks whose entries changed is flagged, and no flag is lost.
pub open spec fn flagged(e0: Seq<u32>, o0: Seq<u8>, e1: Seq<u32>, o1: Seq<u8>, soa: int) -> bool {
    forall|i: int| 0 <= i < soa ==> #[trigger] flag(o1, i) || (!flag(o0, i) && same4(e0, e1, i))
}
pub open spec fn same4(e0: Seq<u32>, e1: Seq<u32>, i: int) -> bool {
    forall|t: int| 4 * i <= t < 4 * i + 4 ==> #[trigger] e0[t] == e1[t]
}
proof fn flag_or(b: u8, k: u8, m: u8)
    requires k < 8, m == 1u8 << k,
    ensures forall|j: int| 0 <= j < 8 ==> #[trigger] bit(b | m, j) == (bit(b, j) || j == k)
{
    assert(1u8 << 0u8 == 1 && 1u8 << 1u8 == 2 && 1u8 << 2u8 == 4 && 1u8 << 3u8 == 8 && 1u8 << 4u8 == 16 && 1u8 << 5u8 == 32
        && 1u8 << 6u8 == 64 && 1u8 << 7u8 == 128) by (bit_vector);
    assert(forall|b: u8, m: u8| #![auto] (b | m) & 1 == (b & 1) | (m & 1)) by (bit_vector);
    assert(forall|b: u8, m: u8| #![auto] (b | m) & 2 == (b & 2) | (m & 2)) by (bit_vector);
    assert(forall|b: u8, m: u8| #![auto] (b | m) & 4 == (b & 4) | (m & 4)) by (bit_vector);
    assert(forall|b: u8, m: u8| #![auto] (b | m) & 8 == (b & 8) | (m & 8)) by (bit_vector);
    assert(forall|b: u8, m: u8| #![auto] (b | m) & 16 == (b & 16) | (m & 16)) by (bit_vector);
    assert(forall|b: u8, m: u8| #![auto] (b | m) & 32 == (b & 32) | (m & 32)) by (bit_vector);
    assert(forall|b: u8, m: u8| #![auto] (b | m) & 64 == (b & 64) | (m & 64)) by (bit_vector);
    assert(forall|b: u8, m: u8| #![auto] (b | m) & 128 == (b & 128) | (m & 128)) by (bit_vector);
    assert(forall|x: u8| #![auto] x | 0 == x) by (bit_vector);
    assert(forall|x: u8, y: u8| #![auto] y != 0 ==> x | y != 0) by (bit_vector);
    assert(forall|j: u8, k: u8| #![auto] j < 8 && k < 8 && j != k ==> (1u8 << k) & (1u8 << j) == 0) by (bit_vector);
    assert(forall|k: u8| #![auto] k < 8 ==> (1u8 << k) & (1u8 << k) != 0) by (bit_vector);
    assert forall|j: int| 0 <= j < 8 implies #[trigger] bit(b | m, j) == (bit(b, j) || j == k) by {
        let jj = j as u8;
        if jj != k { assert((1u8 << k) & (1u8 << jj) == 0); } else { assert((1u8 << k) & (1u8 << k) != 0); }
        assert(m & (1u8 << jj) == m & (if j == 0 { 1u8 } else if j == 1 { 2u8 } else if j == 2 { 4u8 } else if j == 3 { 8u8 }
            else if j == 4 { 16u8 } else if j == 5 { 32u8 } else if j == 6 { 64u8 } else { 128u8 }));
    }
}

//@fn src/sampling_job.rs SamplingJob::key_ratio
//@ret x
//@spec
    requires at < ctrl.ratios@.len(), ctrl.ratios@[at as int] < timepoints@.len(),
    ensures x == timepoints@[ctrl.ratios@[at as int] as int],
//@end

//@fn src/sampling_job.rs SamplingJob::track_forward
//@sub? assert! ==> check!
//@ret t
//@spec
    requires
        key < previouses@.len(), last_track < num_tracks <= cache@.len(), previouses@[key as int] <= key,
        exists|t: int| 0 <= t < num_tracks && #[trigger] cache@[t] == key - previouses@[key as int],
    ensures t < num_tracks, cache@[t as int] == key - previouses@[key as int],
//@loop 1 for entry in last_track..num_tracks
    invariant
        last_track < num_tracks <= cache@.len(), target == key - previouses@[key as int],
        forall|t: int| last_track <= t < entry ==> #[trigger] cache@[t] != target,
//@loop 2 for entry in 0..num_tracks
    invariant
        last_track < num_tracks <= cache@.len(), target == key - previouses@[key as int],
        forall|t: int| last_track <= t < num_tracks ==> #[trigger] cache@[t] != target,
        forall|t: int| 0 <= t < entry ==> #[trigger] cache@[t] != target,
        exists|t: int| 0 <= t < num_tracks && #[trigger] cache@[t] == target,
//@end

//@fn src/sampling_job.rs SamplingJob::track_backward
//@sub? assert! ==> check!
//@sub for entry in \(0\.\.=last_track\)\.rev\(\) \{ ==> let mut e_: usize = last_track + 1; while e_ > 0 { e_ = e_ - 1; let entry = e_;
//@sub for entry in \(0\.\.=num_tracks - 1\)\.rev\(\) \{ ==> let mut e_: usize = num_tracks - 1 + 1; while e_ > 0 { e_ = e_ - 1; let entry = e_;
//@ret t
//@spec
    requires
        last_track < num_tracks <= cache@.len(),
        exists|t: int| 0 <= t < num_tracks && #[trigger] cache@[t] == target,
    ensures t < num_tracks, cache@[t as int] == target,
//@loop 1 while e_ > 0
    invariant
        last_track < num_tracks <= cache@.len(), e_ <= last_track + 1,
        forall|t: int| e_ <= t <= last_track ==> #[trigger] cache@[t] != target,
    decreases e_,
//@loop 2 while e_ > 0
    invariant
        last_track < num_tracks <= cache@.len(), e_ <= num_tracks,
        forall|t: int| 0 <= t <= last_track ==> #[trigger] cache@[t] != target,
        forall|t: int| e_ <= t < num_tracks ==> #[trigger] cache@[t] != target,
        exists|t: int| 0 <= t < num_tracks && #[trigger] cache@[t] == target,
    decreases e_,
//@end


//@fn src/sampling_job.rs SamplingJob::outdate_cache
//@spec
    requires 1 <= num_soa_tracks <= 0x0fff_ffff, (num_soa_tracks + 7) / 8 <= old(outdated)@.len(),
    ensures
        final(outdated)@.len() == old(outdated)@.len(),
        forall|i: int| 0 <= i < num_soa_tracks ==> #[trigger] flag(final(outdated)@, i),
        none_beyond(final(outdated)@, num_soa_tracks as int),
        forall|i: int| (num_soa_tracks + 7) / 8 <= i < old(outdated)@.len() ==> final(outdated)@[i] == #[trigger] old(outdated)@[i],
//@loop 1 while i < num_outdated_flags - 1
    invariant
        num_outdated_flags == (num_soa_tracks + 7) / 8, num_outdated_flags <= outdated@.len(), 1 <= num_soa_tracks <= 0x0fff_ffff,
        outdated@.len() == old(outdated)@.len(),
        i <= num_outdated_flags - 1,
        forall|k: int| 0 <= k < i ==> #[trigger] outdated@[k] == 0xFF,
        forall|k: int| i <= k < outdated@.len() ==> #[trigger] outdated@[k] == old(outdated)@[k],
    decreases num_outdated_flags - i,
//@finish
    proof {
        assert(forall|n: u8, k: u8| #![auto] n < 8 && k < 8 ==> (((0xFFu8 >> n) & (1u8 << k)) != 0 <==> k < 8 - n)) by (bit_vector);
        assert(forall|k: u8| #![auto] k < 8 ==> (0xFFu8 & (1u8 << k)) != 0) by (bit_vector);
        pow_bits();
        let n = (num_outdated_flags * 8 - num_soa_tracks) as u8;
        let last = num_outdated_flags - 1;
        assert(outdated@[last] == 0xFFu8 >> n);
        assert forall|i: int| 0 <= i < 8 * num_outdated_flags implies #[trigger] flag(outdated@, i) == (i < num_soa_tracks) by {
            let k = (i % 8) as u8;
            if i / 8 < last { assert(outdated@[i / 8] == 0xFF); assert((0xFFu8 & (1u8 << k)) != 0); }
            else { assert(((0xFFu8 >> n) & (1u8 << k)) != 0 <==> k < 8 - n); }
        }
    }
//@end

proof fn pow_bits()
    ensures 1u8 << 0u8 == 1, 1u8 << 1u8 == 2, 1u8 << 2u8 == 4, 1u8 << 3u8 == 8, 1u8 << 4u8 == 16, 1u8 << 5u8 == 32,
        1u8 << 6u8 == 64, 1u8 << 7u8 == 128
{
    assert(1u8 << 0u8 == 1 && 1u8 << 1u8 == 2 && 1u8 << 2u8 == 4 && 1u8 << 3u8 == 8 && 1u8 << 4u8 == 16 && 1u8 << 5u8 == 32
        && 1u8 << 6u8 == 64 && 1u8 << 7u8 == 128) by (bit_vector);
}

//@fn src/sampling_job.rs SamplingJob::initialize_cache
//@spec
    requires
        0 < old(entries)@.len() <= 0x1fff_ffff,
        2 * old(entries)@.len() <= ctrl.previouses@.len() <= u32::MAX,
        wf_seek(ctrl.previouses@, ctrl.iframe_entries@, ctrl.iframe_desc@, old(entries)@.len() as int),
        iframe <= ctrl.iframe_desc@.len() / 2,
        forall|k: int| old(entries)@.len() <= k < 2 * old(entries)@.len() ==> (#[trigger] ctrl.previouses@[k]) == old(entries)@.len(),
    ensures
        final(entries)@.len() == old(entries)@.len(),
        2 * old(entries)@.len() <= next <= ctrl.previouses@.len(),
        cached(ctrl.previouses@, old(entries)@.len() as int, next as int, final(entries)@),
//@ret next
//@loop 1 for i in 0..num_tracks
    invariant
        num_tracks == entries@.len(), entries@.len() == old(entries)@.len(), num_tracks <= 0x1fff_ffff,
        forall|k: int| 0 <= k < i ==> #[trigger] entries@[k] == k + num_tracks,
//@post 1
    proof {
        let a = num_tracks as int;
        let p = ctrl.previouses@;
        assert forall|t: int| 0 <= t < a implies a <= (#[trigger] entries@[t]) < 2 * a && tr(p, a, entries@[t] as int) == t
            && (forall|m: int| entries@[t] < m < 2 * a ==> tr(p, a, m) != t) by {
            assert(p[t + a] == a);
            tr_of(p, a, t + a);
            tr_of(p, a, t);
            assert forall|m: int| entries@[t] < m < 2 * a implies tr(p, a, m) != t by {
                assert(p[m] == a);
                tr_of(p, a, m);
                tr_of(p, a, m - a);
            }
        }
    }
//@after let iframe = (iframe - 1) * 2
    proof {
        assert(iframe as int == 2 * (iframe as int / 2));
        assert(wf_seek_at(ctrl.previouses@, ctrl.iframe_entries@, ctrl.iframe_desc@[2 * (iframe as int / 2)],
            ctrl.iframe_desc@[2 * (iframe as int / 2) + 1], entries@.len() as int));
    }
//@after decode_gv4_stream(&ctrl.iframe_entries[offset..], entries)
    proof {
        let a = entries@.len() as int;
        let i = iframe as int / 2;
        assert(ctrl.iframe_desc@[2 * i] == offset);
        let b = ctrl.iframe_entries@.subrange(offset as int, ctrl.iframe_entries@.len() as int);
        let w = Seq::new(a as nat, |j: int| gv_number(b, j) as u32);
        assert(forall|t: int| 0 <= t < a ==> 0 <= #[trigger] gv_number(b, t) <= u32::MAX);
        assert(entries@ =~= w);
    }
//@end


pub open spec fn wf_update(args: UpdateArgs<'_>, e: Seq<u32>, o: Seq<u8>, next: usize, tp: Seq<f32>, ctrl: &KeyframesCtrl<'_>, x: f32) -> bool {
    let a = 4 * args.num_soa_tracks;
    &&& 1 <= args.num_soa_tracks <= 0x07ff_ffff
    &&& a - 4 < args.num_tracks <= a
    &&& wf_keys(ctrl.ratios@, ctrl.previouses@, tp, a, args.num_tracks as int)
    &&& wf_seek(ctrl.previouses@, ctrl.iframe_entries@, ctrl.iframe_desc@, a)
    &&& (ctrl.iframe_desc@.len() > 0 ==> 0 <= seek_index(x, ctrl.iframe_interval) <= ctrl.iframe_desc@.len() / 2)
    &&& wf_ratio(ctrl.ratios@, tp, a, x)
    &&& a <= e.len()
    &&& (args.num_soa_tracks + 7) / 8 <= o.len()
    &&& (next != 0 ==> 2 * a <= next <= ctrl.previouses@.len() && cached(ctrl.previouses@, a, next as int, e)
            && none_beyond(o, args.num_soa_tracks as int))
}
// No flag of a group beyond the animation's tracks is set in the bytes that hold flags of its tracks.
pub open spec fn none_beyond(o: Seq<u8>, soa: int) -> bool {
    forall|i: int| soa <= i < 8 * ((soa + 7) / 8) ==> !#[trigger] flag(o, i)
}

proof fn step_forward(p: Seq<u16>, r: Seq<u16>, tp: Seq<f32>, a: int, nt: int, n: int, e: Seq<u32>)
    requires wf_keys(r, p, tp, a, nt), 2 * a <= n < p.len(), e.len() >= a, cached(p, a, n, e),
    ensures
        exists|t: int| 0 <= t < nt && #[trigger] e[t] == n - p[n],
        forall|t: int| 0 <= t < nt && #[trigger] e[t] == n - p[n] ==> cached(p, a, n + 1, e.update(t, n as u32)),
{
    assert(p[n] > 0 && n - p[n] >= a);
    tr_of(p, a, n);
    let t0 = tr(p, a, n);
    let k = n - p[n];
    assert(0 <= tr(p, a, n) < nt);
    assert(e[t0] == k) by {
        assert(tr(p, a, k) == t0);
        if e[t0] < k { assert(tr(p, a, k) != t0); }
        if e[t0] > k { assert(tr(p, a, e[t0] as int) != tr(p, a, n)); }
    }
    assert forall|t: int| 0 <= t < nt && #[trigger] e[t] == n - p[n] implies cached(p, a, n + 1, e.update(t, n as u32)) by {
        assert(tr(p, a, e[t] as int) == t);
        assert(t == t0);
        let f = e.update(t, n as u32);
        assert forall|s: int| 0 <= s < a implies 0 <= (#[trigger] f[s]) < n + 1 && f[s] >= a && tr(p, a, f[s] as int) == s
            && (forall|m: int| f[s] < m < n + 1 ==> tr(p, a, m) != s) by {
            if s != t { assert(f[s] == e[s]); }
        }
    }
}
proof fn step_back(p: Seq<u16>, r: Seq<u16>, tp: Seq<f32>, a: int, nt: int, n: int, e: Seq<u32>)
    requires wf_keys(r, p, tp, a, nt), 2 * a < n <= p.len(), e.len() >= a, cached(p, a, n, e),
    ensures
        exists|t: int| 0 <= t < nt && #[trigger] e[t] == n - 1,
        forall|t: int| 0 <= t < nt && #[trigger] e[t] == n - 1 ==> cached(p, a, n - 1, e.update(t, (n - 1 - p[n - 1]) as u32)),
{
    let k = n - 1;
    assert(p[k] > 0 && k - p[k] >= a);
    tr_of(p, a, k);
    let t0 = tr(p, a, k);
    assert(0 <= tr(p, a, k) < nt);
    assert(e[t0] == k) by { if e[t0] < k { assert(tr(p, a, k) != t0); } }
    assert forall|t: int| 0 <= t < nt && #[trigger] e[t] == n - 1 implies cached(p, a, n - 1, e.update(t, (n - 1 - p[n - 1]) as u32)) by {
        assert(tr(p, a, e[t] as int) == t);
        let f = e.update(t, (k - p[k]) as u32);
        assert forall|s: int| 0 <= s < a implies 0 <= (#[trigger] f[s]) < n - 1 && f[s] >= a && tr(p, a, f[s] as int) == s
            && (forall|m: int| f[s] < m < n - 1 ==> tr(p, a, m) != s) by {
            if s != t {
                assert(f[s] == e[s]);
                if e[s] == n - 1 { assert(tr(p, a, e[s] as int) == s); }
            } else {
                assert forall|m: int| f[s] < m < n - 1 implies tr(p, a, m) != s by { assert(tr(p, a, m) != tr(p, a, k)); }
            }
        }
    }
}
proof fn mark(o: Seq<u8>, t: int, m: u8)
    requires 0 <= t, t / 32 < o.len(), m == 1u8 << (((t % 32) / 4) as u8),
    ensures ({ let q = o.update(t / 32, o[t / 32] | m);
        forall|i: int| 0 <= i < 8 * o.len() ==> #[trigger] flag(q, i) == (flag(o, i) || i == t / 4) })
{
    flag_or(o[t / 32], ((t % 32) / 4) as u8, m);
    assert((t / 4) / 8 == t / 32 && (t / 4) % 8 == (t % 32) / 4);
}

//@fn src/sampling_job.rs SamplingJob::update_cache
//@sub? assert! ==> check!
//@sub \bSelf:: ==>
//@sub \(0\.5 \+ ratio / ctrl\.iframe_interval\) as i32 ==> seek_expr(ratio, ctrl.iframe_interval)
//@spec
    requires animation.whole(), wf_update(args, args.entries@, args.outdated@, *args.next, animation.tp(), ctrl, ratio),
    ensures
        final(args.entries)@.len() == old(args.entries)@.len(),
        final(args.outdated)@.len() == old(args.outdated)@.len(),
        at_ratio(ctrl.ratios@, ctrl.previouses@, animation.tp(), 4 * args.num_soa_tracks, ratio, *final(args.next) as int,
            final(args.entries)@),
        flagged(old(args.entries)@, old(args.outdated)@, final(args.entries)@, final(args.outdated)@, args.num_soa_tracks as int),
        none_beyond(final(args.outdated)@, args.num_soa_tracks as int),
        *old(args.next) == 0 ==> forall|i: int| 0 <= i < args.num_soa_tracks ==> #[trigger] flag(final(args.outdated)@, i),
        forall|t: int| 4 * args.num_soa_tracks <= t < old(args.entries)@.len() ==> final(args.entries)@[t] == #[trigger] old(args.entries)@[t],
//@begin
    let ghost e0 = args.entries@;
    let ghost o0 = args.outdated@;
    let ghost n0 = *args.next;
    let ghost soa = args.num_soa_tracks as int;
    let ghost a = 4 * args.num_soa_tracks as int;
    let ghost nt = args.num_tracks as int;
    let ghost p = ctrl.previouses@;
    let ghost r = ctrl.ratios@;
    let ghost tp = animation.tp();
    proof { fl::ax_div(ctrl.iframe_interval, 2.0f32); }
//@loop 1 while next < num_keys && key_ratio(ctrl, animation.timepoints(), next - ctrl.previouses[next] as usize) <= ratio
    invariant
        a == 4 * args.num_soa_tracks, soa == args.num_soa_tracks, nt == args.num_tracks, 1 <= soa <= 0x07ff_ffff, 1 <= nt <= a,
        p == ctrl.previouses@, r == ctrl.ratios@, tp == animation.tp(), animation.whole(), num_keys == p.len(),
        wf_keys(r, p, tp, a, nt), wf_ratio(r, tp, a, ratio),
        2 * a <= next <= num_keys, cached(p, a, next as int, args.entries@),
        args.entries@.len() == e0.len(), args.outdated@.len() == o0.len(), a <= e0.len(), (soa + 7) / 8 <= o0.len(),
        track < args.num_tracks,
        flagged(e0, o0, args.entries@, args.outdated@, soa),
        none_beyond(args.outdated@, soa),
        n0 == 0 ==> forall|i: int| 0 <= i < soa ==> #[trigger] flag(args.outdated@, i),
        forall|t: int| a <= t < e0.len() ==> args.entries@[t] == #[trigger] e0[t],
    decreases num_keys - next,
//@start 1
    let ghost e1 = args.entries@;
    let ghost o1 = args.outdated@;
    proof { step_forward(p, r, tp, a, nt, next as int, e1); }
//@stop 1
    proof {
        assert(args.entries@ =~= e1.update(track as int, (next - 1) as u32));
        mark(o1, track as int, 1u8 << (((track as int % 32) / 4) as u8));
        assert(args.outdated@ =~= o1.update(track as int / 32, o1[track as int / 32] | (1u8 << (((track as int % 32) / 4) as u8))));
        assert forall|i: int| 0 <= i < soa implies #[trigger] flag(args.outdated@, i) || (!flag(o0, i) && same4(e0, args.entries@, i)) by {
            assert(flag(o1, i) || (!flag(o0, i) && same4(e0, e1, i)));
            if i != track as int / 4 {
                assert(forall|t: int| 4 * i <= t < 4 * i + 4 ==> #[trigger] e1[t] == args.entries@[t]);
            }
        }
    }
//@loop 2 while key_ratio( ctrl, animation.timepoints(), next - 1 - ctrl.previouses[next - 1] as usize, ) > ratio
    invariant
        a == 4 * args.num_soa_tracks, soa == args.num_soa_tracks, nt == args.num_tracks, 1 <= soa <= 0x07ff_ffff, 1 <= nt <= a,
        p == ctrl.previouses@, r == ctrl.ratios@, tp == animation.tp(), animation.whole(), num_keys == p.len(),
        wf_keys(r, p, tp, a, nt), wf_ratio(r, tp, a, ratio),
        2 * a <= next <= num_keys, cached(p, a, next as int, args.entries@),
        args.entries@.len() == e0.len(), args.outdated@.len() == o0.len(), a <= e0.len(), (soa + 7) / 8 <= o0.len(),
        track < args.num_tracks,
        flagged(e0, o0, args.entries@, args.outdated@, soa),
        none_beyond(args.outdated@, soa),
        n0 == 0 ==> forall|i: int| 0 <= i < soa ==> #[trigger] flag(args.outdated@, i),
        forall|t: int| a <= t < e0.len() ==> args.entries@[t] == #[trigger] e0[t],
        next < p.len() ==> ent(r, p, tp, next as int) > rank(ratio),
        0 <= ctrl.previouses@[next - 1] <= next - 1,
    decreases next,
//@pre 2
    proof {
        if next < num_keys { assert(p[next as int] > 0); }
        assert(p[2 * a - 1] == a);
        if next > 2 * a { assert(p[next - 1] > 0 && next - 1 - p[next - 1] >= a); }
    }
//@start 2
    let ghost e1 = args.entries@;
    let ghost o1 = args.outdated@;
    proof {
        if next == 2 * a { assert(kt(r, tp, a - 1) <= rank(ratio)); assert(p[2 * a - 1] == a); }
        assert(next > 2 * a);
        step_back(p, r, tp, a, nt, next as int, e1);
    }
//@stop 2
    proof {
        assert(args.entries@ =~= e1.update(track as int, (next - p[next as int]) as u32));
        mark(o1, track as int, 1u8 << (((track as int % 32) / 4) as u8));
        assert(args.outdated@ =~= o1.update(track as int / 32, o1[track as int / 32] | (1u8 << (((track as int % 32) / 4) as u8))));
        assert forall|i: int| 0 <= i < soa implies #[trigger] flag(args.outdated@, i) || (!flag(o0, i) && same4(e0, args.entries@, i)) by {
            assert(flag(o1, i) || (!flag(o0, i) && same4(e0, e1, i)));
            if i != track as int / 4 {
                assert(forall|t: int| 4 * i <= t < 4 * i + 4 ==> #[trigger] e1[t] == args.entries@[t]);
            }
        }
        assert(p[2 * a - 1] == a);
        if next > 2 * a { assert(p[next - 1] > 0 && next - 1 - p[next - 1] >= a); }
    }
//@end

// Two caches of the same ratio are the same: the cache does not remember how it got there.
pub proof fn cache_is_a_function_of_the_ratio(r: Seq<u16>, p: Seq<u16>, tp: Seq<f32>, a: int, nt: int, x: f32,
    n1: int, e1: Seq<u32>, n2: int, e2: Seq<u32>)
    requires wf_keys(r, p, tp, a, nt), at_ratio(r, p, tp, a, x, n1, e1), at_ratio(r, p, tp, a, x, n2, e2),
    ensures n1 == n2, forall|t: int| 0 <= t < a ==> #[trigger] e1[t] == e2[t],
{
    if n1 < n2 { assert(ent(r, p, tp, n1) <= ent(r, p, tp, n2 - 1)); }
    if n2 < n1 { assert(ent(r, p, tp, n2) <= ent(r, p, tp, n1 - 1)); }
    assert forall|t: int| 0 <= t < a implies #[trigger] e1[t] == e2[t] by {
        if e1[t] < e2[t] { assert(tr(p, a, e2[t] as int) != t); }
        if e2[t] < e1[t] { assert(tr(p, a, e1[t] as int) != t); }
    }
}


// One sample, whatever happened before: `dec` is what a group of 4 entries decodes to (contract of decompress_*, template
// decompress), v0 and v1 the decoded values before and after. Before, either the cache is not initialised or each group is
// decoded or flagged. Afterwards every group holds what the ratio asks for, and the same can be said before the next sample.
pub open spec fn dec_local<V>(dec: spec_fn(Seq<u32>, int) -> V, soa: int) -> bool {
    forall|e: Seq<u32>, f: Seq<u32>, i: int| 0 <= i < soa && #[trigger] same4(e, f, i) ==> #[trigger] dec(e, i) == dec(f, i)
}
pub open spec fn sampled_before<V>(dec: spec_fn(Seq<u32>, int) -> V, soa: int, next: int, e: Seq<u32>, o: Seq<u8>, v: Seq<V>) -> bool {
    next == 0 || forall|i: int| 0 <= i < soa ==> #[trigger] flag(o, i) || v[i] == dec(e, i)
}
pub proof fn one_sample<V>(r: Seq<u16>, p: Seq<u16>, tp: Seq<f32>, soa: int, nt: int, x: f32, dec: spec_fn(Seq<u32>, int) -> V,
    n0: int, e0: Seq<u32>, o0: Seq<u8>, v0: Seq<V>, n1: int, e1: Seq<u32>, o1: Seq<u8>, v1: Seq<V>, nf: int, ef: Seq<u32>)
    requires
        wf_keys(r, p, tp, 4 * soa, nt), dec_local(dec, soa), sampled_before(dec, soa, n0, e0, o0, v0),
        // contract of update_cache
        at_ratio(r, p, tp, 4 * soa, x, n1, e1), flagged(e0, o0, e1, o1, soa),
        n0 == 0 ==> forall|i: int| 0 <= i < soa ==> #[trigger] flag(o1, i),
        // contract of decompress
        forall|i: int| 0 <= i < soa && flag(o1, i) ==> #[trigger] v1[i] == dec(e1, i),
        forall|i: int| 0 <= i < soa && !flag(o1, i) ==> #[trigger] v1[i] == v0[i],
        // what a fresh context reaches at the same ratio
        at_ratio(r, p, tp, 4 * soa, x, nf, ef),
    ensures
        forall|i: int| 0 <= i < soa ==> #[trigger] v1[i] == dec(ef, i),
        sampled_before(dec, soa, n1, e1, o1, v1),
{
    cache_is_a_function_of_the_ratio(r, p, tp, 4 * soa, nt, x, n1, e1, nf, ef);
    assert forall|i: int| 0 <= i < soa implies #[trigger] v1[i] == dec(ef, i) && v1[i] == dec(e1, i) by {
        assert(same4(e1, ef, i));
        assert(flag(o1, i) || (!flag(o0, i) && same4(e0, e1, i)));
        if !flag(o1, i) { assert(v1[i] == v0[i]); assert(flag(o0, i) || v0[i] == dec(e0, i)); }
    }
}

// The contracts are not vacuous: one track group, two keys per track, is well formed.
pub proof fn witness(tp: Seq<f32>, x: f32)
    requires tp.len() == 2, !nan(tp[0]), !nan(tp[1]), rank(tp[0]) <= rank(x), !nan(x),
    ensures ({ let p = seq![0u16, 0, 0, 0, 4, 4, 4, 4]; let r = seq![0u16, 0, 0, 0, 1, 1, 1, 1];
        wf_keys(r, p, tp, 4, 4) && wf_ratio(r, tp, 4, x) && at_ratio(r, p, tp, 4, x, 8, seq![4u32, 5, 6, 7]) })
{
    let p = seq![0u16, 0, 0, 0, 4, 4, 4, 4];
    assert forall|k: int| 4 <= k < 8 implies #[trigger] tr(p, 4, k) == k - 4 by { tr_of(p, 4, k); tr_of(p, 4, k - 4); }
}

}
