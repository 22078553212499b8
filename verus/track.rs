// C13, C14: track sampling and triggering, times and float values as real numbers.
#![allow(unused)]
use vstd::prelude::*;
//@include simd.rs
verus! {
use sd::*;
broadcast use {sd::ops, sd::fof};
global size_of usize == 8;
//@include bufs.rs
//@real

pub trait TrackValue: Copy {
    spec fn default_spec() -> Self;
    spec fn is_lerp(a: Self, b: Self, t: real, r: Self) -> bool;
    fn default() -> (r: Self) ensures r == Self::default_spec();
    fn lerp(a: Self, b: Self, t: F) -> (r: Self) ensures Self::is_lerp(a, b, t.v(), r);
    proof fn lerp_start(a: Self, b: Self, r: Self) requires Self::is_lerp(a, b, 0real, r) ensures r == a;
}

//@item src/track.rs struct Track
//@sub (?m)^(\s+)(\w+:) ==> \1pub \2
//@end
impl<V: TrackValue> Track<V> {
//@fn src/track.rs Track::key_count
//@ret r
//@spec
    ensures r == self.key_count
//@end
//@fn src/track.rs Track::ratios
//@ret r
//@spec
    ensures r@ == self.ratios@
//@end
//@fn src/track.rs Track::values
//@ret r
//@spec
    ensures r@ == self.values@
//@end
//@fn src/track.rs Track::steps
//@ret r
//@spec
    ensures r@ == self.steps@
//@end
}
impl<V: TrackValue> Track<V> {
    // What building a track gives: as many values as times, a step bit for each, times that start at 0 and increase.
    pub open spec fn wf(&self) -> bool {
        &&& self.ratios@.len() == self.key_count && self.values@.len() == self.key_count
        &&& self.steps@.len() == (self.key_count + 7) / 8
        &&& self.key_count > 0 ==> self.ratios@[0].v() == 0real
        &&& forall|i: int| 0 <= i < self.key_count ==> (#[trigger] self.ratios@[i]).v() <= 1real
        &&& forall|i: int, j: int| 0 <= i < j < self.key_count ==> self.ratios@[i].v() < self.ratios@[j].v()
    }
    pub open spec fn step(&self, i: int) -> bool { (self.steps@[i / 8] >> ((i % 8) as u8)) & 1 != 0 }
}
// The value of the track at a ratio.
pub open spec fn at<V: TrackValue>(t: Track<V>, r: real, v: V) -> bool {
    let n = t.key_count as int;
    &&& n == 0 ==> v == V::default_spec()
    &&& n > 0 && r < t.ratios@[0].v() ==> v == t.values@[0]
    &&& n > 0 && r >= t.ratios@[n - 1].v() ==> v == t.values@[n - 1]
    &&& forall|i: int| 0 <= i < n - 1 && t.ratios@[i].v() <= r < #[trigger] t.ratios@[i + 1].v() ==>
        if t.step(i) { v == t.values@[i] }
        else { V::is_lerp(t.values@[i], t.values@[i + 1], (r - t.ratios@[i].v()) / (t.ratios@[i + 1].v() - t.ratios@[i].v()), v) }
}
proof fn bit_test(b: u8, i: usize)
    ensures i >> 3usize == i / 8usize, (i & 7) == i % 8, (i & 7) < 8, ((b & (1u8 << (i % 8usize))) != 0) == ((b >> ((i % 8) as u8)) & 1 != 0), (b >> (i & 7)) & 1 == (b >> ((i % 8) as u8)) & 1, ((b & (1u8 << (i & 7))) != 0) == ((b >> ((i % 8) as u8)) & 1 != 0)
{
    assert(i >> 3usize == i / 8usize) by (bit_vector);
    assert(b >> (i & 7) == b >> ((i & 7) as u8)) by (bit_vector);
    assert((i & 7) == i % 8) by (bit_vector);
    let k = (i % 8) as u8;
    assert(((b & (1u8 << k)) != 0) == ((b >> k) & 1 != 0)) by (bit_vector) requires k < 8;
    assert((i & 7) < 8);
    assert(1u8 << (i & 7) == 1u8 << k) by (bit_vector) requires k == (i & 7) as u8, i & 7 < 8;
}
// slice.iter().position(p)
#[verifier::external_body]
pub fn position<T, P: Fn(&T) -> bool>(s: &[T], p: P) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < s@.len() ==> p.requires((&#[trigger] s@[i],))
    ensures
        match r {
            Some(k) => k < s@.len() && p.ensures((&s@[k as int],), true) && forall|j: int| 0 <= j < k ==> p.ensures((&#[trigger] s@[j],), false),
            None => forall|j: int| 0 <= j < s@.len() ==> p.ensures((&#[trigger] s@[j],), false),
        }
{ s.iter().position(|x| p(x)) }

//@item src/track_sampling_job.rs struct TrackSamplingJob
//@sub (?m)^(\s+)(track|ratio|result): ==> \1pub \2:
//@sub = Rc<Track<V>> ==>
//@end
impl<V: TrackValue, T: OzzObj<Track<V>>> TrackSamplingJob<V, T> {
//@fn src/track_sampling_job.rs TrackSamplingJob::validate
//@ret r
//@spec
    ensures r == self.track.is_some()
//@end
//@fn src/track_sampling_job.rs TrackSamplingJob::run
//@sub track\s*\.ratios\(\)\s*\.iter\(\)\s*\.position\(\|&(\w+)\| ([^()]*)\) ==> position(track.ratios(), |p: &F| -> (b: bool) ensures b == (self.ratio.v() < p.v()) { let \1 = *p; \2 })
//@after let id0 = id1.saturating_sub(1)
    proof {
        bit_test(track.steps@[id0 as int / 8], id0);
        assert(id1 > 0);
    }
//@ret r
//@spec
    requires old(self).track.is_some() ==> old(self).track->0.target().wf()
    ensures
        r.is_ok() == old(self).track.is_some(),
        r.is_err() ==> r->Err_0 == OzzError::InvalidJob && *final(self) == *old(self),
        final(self).track == old(self).track && final(self).ratio == old(self).ratio,
        r.is_ok() ==> at(old(self).track->0.target(), old(self).ratio.v(), final(self).result)
//@end
}

// At a key's time the value is that key's.
pub proof fn at_a_key<V: TrackValue>(t: Track<V>, k: int, v: V)
    requires t.wf(), 0 <= k < t.key_count, at(t, t.ratios@[k].v(), v)
    ensures v == t.values@[k]
{
    if k < t.key_count - 1 {
        assert(t.ratios@[k].v() < t.ratios@[k + 1].v());
        let d = t.ratios@[k + 1].v() - t.ratios@[k].v();
        assert(0real / d == 0real) by (nonlinear_arith) requires d > 0real;
        if !t.step(k) { V::lerp_start(t.values@[k], t.values@[k + 1], v); }
    }
}

// --- triggering

#[derive(Clone, Copy)]
//@item src/track_triggering_job.rs struct Edge
//@sub (?m)^(\s+)(\w+:) ==> \1pub \2
//@end
impl Edge {
    // derive(Default)
    #[verifier::external_body]
    pub fn default() -> (r: Edge) ensures r.ratio.v() == 0real && !r.rising { unimplemented!() }
}
//@item src/track_triggering_job.rs struct TrackTriggeringJob
//@sub (?m)^(\s+)(track|from|to|threshold): ==> \1pub \2:
//@sub = Rc<Track<f32>> ==>
//@end
//@item src/track_triggering_job.rs struct TrackTriggeringIter
//@sub (?m)^(\s+)(job|track|outer|inner): ==> \1pub \2:
//@end
impl TrackValue for F {
    open spec fn default_spec() -> F { f_of(0real) }
    open spec fn is_lerp(a: F, b: F, t: real, r: F) -> bool { r.v() == a.v() + (b.v() - a.v()) * t }
    proof fn lerp_start(a: F, b: F, r: F) {
        assert(f_of(r.v()) == f_of(a.v()));
        assert((b.v() - a.v()) * 0real == 0real) by (nonlinear_arith);
    }
    // f32::default()
    #[verifier::external_body]
    fn default() -> F { unimplemented!() }
//@fn src/track.rs TrackValue for f32::lerp
//@ret r
//@finish
//@spec
//@end
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Vec2 { q: [f32; 4] }
pub uninterp spec fn glam_lerp_Vec2(a: Vec2, b: Vec2, t: real) -> Vec2;
pub axiom fn glam_lerp_start_Vec2(a: Vec2, b: Vec2) ensures glam_lerp_Vec2(a, b, 0real) == a;
impl Vec2 {
    #[verifier::external_body]
    pub fn lerp(self, b: Vec2, t: F) -> (r: Vec2) ensures r == glam_lerp_Vec2(self, b, t.v()) { unimplemented!() }
}
impl TrackValue for Vec2 {
    uninterp spec fn default_spec() -> Vec2;
    open spec fn is_lerp(a: Vec2, b: Vec2, t: real, r: Vec2) -> bool { r == glam_lerp_Vec2(a, b, t) }
    proof fn lerp_start(a: Vec2, b: Vec2, r: Vec2) { glam_lerp_start_Vec2(a, b); }
    #[verifier::external_body]
    fn default() -> Vec2 { unimplemented!() }
//@fn src/track.rs TrackValue for Vec2::lerp
//@ret r
//@spec
//@end
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Vec3 { q: [f32; 4] }
pub uninterp spec fn glam_lerp_Vec3(a: Vec3, b: Vec3, t: real) -> Vec3;
pub axiom fn glam_lerp_start_Vec3(a: Vec3, b: Vec3) ensures glam_lerp_Vec3(a, b, 0real) == a;
impl Vec3 {
    #[verifier::external_body]
    pub fn lerp(self, b: Vec3, t: F) -> (r: Vec3) ensures r == glam_lerp_Vec3(self, b, t.v()) { unimplemented!() }
}
impl TrackValue for Vec3 {
    uninterp spec fn default_spec() -> Vec3;
    open spec fn is_lerp(a: Vec3, b: Vec3, t: real, r: Vec3) -> bool { r == glam_lerp_Vec3(a, b, t) }
    proof fn lerp_start(a: Vec3, b: Vec3, r: Vec3) { glam_lerp_start_Vec3(a, b); }
    #[verifier::external_body]
    fn default() -> Vec3 { unimplemented!() }
//@fn src/track.rs TrackValue for Vec3::lerp
//@ret r
//@spec
//@end
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Vec4 { q: [f32; 4] }
pub uninterp spec fn glam_lerp_Vec4(a: Vec4, b: Vec4, t: real) -> Vec4;
pub axiom fn glam_lerp_start_Vec4(a: Vec4, b: Vec4) ensures glam_lerp_Vec4(a, b, 0real) == a;
impl Vec4 {
    #[verifier::external_body]
    pub fn lerp(self, b: Vec4, t: F) -> (r: Vec4) ensures r == glam_lerp_Vec4(self, b, t.v()) { unimplemented!() }
}
impl TrackValue for Vec4 {
    uninterp spec fn default_spec() -> Vec4;
    open spec fn is_lerp(a: Vec4, b: Vec4, t: real, r: Vec4) -> bool { r == glam_lerp_Vec4(a, b, t) }
    proof fn lerp_start(a: Vec4, b: Vec4, r: Vec4) { glam_lerp_start_Vec4(a, b); }
    #[verifier::external_body]
    fn default() -> Vec4 { unimplemented!() }
//@fn src/track.rs TrackValue for Vec4::lerp
//@ret r
//@spec
//@end
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Quat { q: [f32; 4] }
pub uninterp spec fn glam_lerp_Quat(a: Quat, b: Quat, t: real) -> Quat;
pub axiom fn glam_lerp_start_Quat(a: Quat, b: Quat) ensures glam_lerp_Quat(a, b, 0real) == a;
impl Quat {
    #[verifier::external_body]
    pub fn lerp(self, b: Quat, t: F) -> (r: Quat) ensures r == glam_lerp_Quat(self, b, t.v()) { unimplemented!() }
}
impl TrackValue for Quat {
    uninterp spec fn default_spec() -> Quat;
    open spec fn is_lerp(a: Quat, b: Quat, t: real, r: Quat) -> bool { r == glam_lerp_Quat(a, b, t) }
    proof fn lerp_start(a: Quat, b: Quat, r: Quat) { glam_lerp_start_Quat(a, b); }
    #[verifier::external_body]
    fn default() -> Quat { unimplemented!() }
//@fn src/track.rs TrackValue for Quat::lerp
//@ret r
//@spec
//@end
}
pub open spec fn prev(n: int, i: int) -> int { if i == 0 { n - 1 } else { i - 1 } }
pub open spec fn above(t: Track<F>, th: real, i: int) -> bool { t.values@[i].v() > th }
// Between key i and the one before (the last one for key 0, as the track loops), the value crosses the threshold.
pub open spec fn crosses(t: Track<F>, th: real, i: int) -> bool {
    0 <= i < t.key_count && above(t, th, i) != above(t, th, prev(t.key_count as int, i))
}
// Where in the track it crosses.
pub open spec fn cross_at(t: Track<F>, th: real, i: int) -> real {
    let p = prev(t.key_count as int, i);
    if t.step(p) { t.ratios@[i].v() }
    else if i == 0 { 0real }
    else {
        t.ratios@[p].v() + (t.ratios@[i].v() - t.ratios@[p].v()) * ((th - t.values@[p].v()) / (t.values@[i].v() - t.values@[p].v()))
    }
}
// Crossing i of turn o lies in the range [a, b). A crossing on the very end of a turn belongs to that turn.
pub open spec fn within(t: Track<F>, th: real, a: real, b: real, o: int, i: int) -> bool {
    let p = cross_at(t, th, i) + o as real;
    crosses(t, th, i) && if cross_at(t, th, i) < 1real { a <= p < b } else { a < p <= b }
}
pub open spec fn is_edge(e: Edge, t: Track<F>, th: real, forward: bool, o: int, i: int) -> bool {
    e.ratio.v() == cross_at(t, th, i) + o as real && e.rising == (above(t, th, i) == forward)
}
pub open spec fn before(o: int, i: int, p: int, j: int) -> bool { o < p || (o == p && i < j) }

// A crossing lies between its two keys.
proof fn where_it_crosses(t: Track<F>, th: real, i: int)
    requires t.wf(), crosses(t, th, i)
    ensures
        i == 0 ==> cross_at(t, th, i) == 0real,
        i > 0 ==> t.ratios@[i - 1].v() <= cross_at(t, th, i) <= t.ratios@[i].v(),
        0real <= cross_at(t, th, i) <= 1real,
{
    if i > 0 && !t.step(i - 1) {
        let (a, b) = (t.ratios@[i - 1].v(), t.ratios@[i].v());
        let (u, v) = (t.values@[i - 1].v(), t.values@[i].v());
        let k = (th - u) / (v - u);
        assert(a < b);
        assert(0real <= k <= 1real) by (nonlinear_arith) requires k == (th - u) / (v - u), u <= th < v || v <= th < u;
        assert(a <= a + (b - a) * k <= b) by (nonlinear_arith) requires a < b, 0real <= k <= 1real;
        if i > 1 { assert(t.ratios@[0].v() < a); }
    }
    if i > 0 { assert(t.ratios@[0].v() < t.ratios@[i].v()); }
}
// From key i on (forward), or up to key i (backward), the crossings of turn o are outside the range.
proof fn none_after(t: Track<F>, th: real, a: real, b: real, o: int, i: int)
    requires t.wf(), 0 <= i < t.key_count, t.ratios@[i].v() + o as real >= b
    ensures forall|j: int| i < j ==> !#[trigger] within(t, th, a, b, o, j)
{
    assert forall|j: int| i < j implies !#[trigger] within(t, th, a, b, o, j) by {
        if crosses(t, th, j) {
            where_it_crosses(t, th, j);
            assert(i == j - 1 || t.ratios@[i].v() < t.ratios@[j - 1].v());
        }
    }
}
proof fn none_before(t: Track<F>, th: real, a: real, b: real, o: int, i: int)
    requires t.wf(), 0 <= i < t.key_count, t.ratios@[i].v() + o as real <= a
    ensures forall|j: int| j < i ==> !#[trigger] within(t, th, a, b, o, j)
{
    assert forall|j: int| j < i implies !#[trigger] within(t, th, a, b, o, j) by {
        if crosses(t, th, j) {
            where_it_crosses(t, th, j);
            assert(t.ratios@[j].v() < t.ratios@[i].v());
        }
    }
}
// Turns that start after the range or end before it have no crossing in it.
proof fn turns_after(t: Track<F>, th: real, a: real, b: real, o: int)
    requires t.wf(), o as real >= b
    ensures forall|p: int, j: int| p >= o ==> !#[trigger] within(t, th, a, b, p, j)
{
    assert forall|p: int, j: int| p >= o implies !#[trigger] within(t, th, a, b, p, j) by {
        if crosses(t, th, j) { where_it_crosses(t, th, j); assert(p as real >= o as real); }
    }
}
proof fn turns_before(t: Track<F>, th: real, a: real, b: real, o: int)
    requires t.wf(), o as real + 1real <= a
    ensures forall|p: int, j: int| p <= o ==> !#[trigger] within(t, th, a, b, p, j)
{
    assert forall|p: int, j: int| p <= o implies !#[trigger] within(t, th, a, b, p, j) by {
        if crosses(t, th, j) { where_it_crosses(t, th, j); assert(p as real <= o as real); }
    }
}
proof fn rfloor_int(o: int) ensures rfloor(o as real) == o { }
proof fn floor_le(a: real, o: int) requires rfloor(a) <= o ensures o as real + 1real > a { }
proof fn le_floor(a: real, o: int) requires o <= rfloor(a) ensures o as real <= a { }
// The test of the job on a crossing.
proof fn tested(t: Track<F>, th: real, a: real, b: real, o: int, i: int)
    requires t.wf(), o as real + 1real > a
    ensures within(t, th, a, b, o, i) == ({
        let p = cross_at(t, th, i) + o as real;
        crosses(t, th, i) && p >= a && (p < b || b >= 1real + o as real)
    })
{
    if crosses(t, th, i) { where_it_crosses(t, th, i); }
}
impl<T: OzzObj<Track<F>>> TrackTriggeringJob<T> {
//@fn src/track_triggering_job.rs TrackTriggeringJob::track
//@ret r
//@spec
    ensures r.is_some() == self.track.is_some(), r.is_some() ==> *r->0 == self.track->0
//@end
//@fn src/track_triggering_job.rs TrackTriggeringJob::validate
//@ret r
//@spec
    ensures r == self.track.is_some()
//@end
//@fn src/track_triggering_job.rs TrackTriggeringJob::run
//@ret r
//@sub TrackTriggeringIter<'_, T> ==> TrackTriggeringIter<'_, T>
//@spec
    requires old(self).track.is_some() ==> old(self).track->0.target().wf()
    ensures
        *final(self) == *old(self),
        r.is_ok() == old(self).track.is_some(),
        r.is_err() ==> r->Err_0 == OzzError::InvalidJob,
        r.is_ok() ==> *r->Ok_0.job == *old(self) && r->Ok_0.ok() && forall|o: int, i: int| r->Ok_0.in_range(o, i) ==> #[trigger] r->Ok_0.pending(o, i)
//@end
    pub open spec fn t(&self) -> Track<F> { self.track->0.target() }
    pub open spec fn lo(&self) -> real { rmin(self.from.v(), self.to.v()) }
    pub open spec fn hi(&self) -> real { rmax(self.from.v(), self.to.v()) }
    pub open spec fn forward(&self) -> bool { self.to.v() > self.from.v() }
}
impl<'t, T: OzzObj<Track<F>>> TrackTriggeringIter<'t, T> {
    pub open spec fn in_range(&self, o: int, i: int) -> bool {
        within(self.job.t(), self.job.threshold.v(), self.job.lo(), self.job.hi(), o, i)
    }
    pub open spec fn turn(&self) -> int { rfloor(self.outer.v()) }
    pub open spec fn ok(&self) -> bool {
        &&& self.job.track.is_some() && self.job.t().wf()
        &&& self.track.is_some() ==> {
            &&& *self.track->0 == self.job.t()
            &&& self.outer.v() == self.turn() as real
            &&& self.job.from.v() != self.job.to.v()
            &&& self.job.forward() ==> 0 <= self.inner <= self.job.t().key_count && self.turn() >= rfloor(self.job.from.v())
            &&& !self.job.forward() ==> -1 <= self.inner < self.job.t().key_count && self.turn() <= rfloor(self.job.from.v())
        }
    }
    // Crossing i of turn o is still to be visited.
    pub open spec fn pending(&self, o: int, i: int) -> bool {
        self.track.is_some() && if self.job.forward() { !before(o, i, self.turn(), self.inner as int) } else { !before(self.turn(), self.inner as int, o, i) }
    }
//@fn src/track_triggering_job.rs TrackTriggeringIter::new
//@ret r
//@spec
    requires job.track.is_some(), job.t().wf()
    ensures *r.job == *job, r.ok(), forall|o: int, i: int| r.in_range(o, i) ==> #[trigger] r.pending(o, i)
//@begin
    proof {
        rfloor_int(rfloor(job.from.v()));
        turns_before(job.t(), job.threshold.v(), job.lo(), job.hi(), rfloor(job.lo()) - 1);
        turns_after(job.t(), job.threshold.v(), job.lo(), job.hi(), rfloor(job.hi()) + 1);
    }
//@end
//@fn src/track_triggering_job.rs TrackTriggeringIter::detect_edge
//@begin
        proof { bit_test(self.job.t().steps@[it0 as int / 8], it0); }
//@ret r
//@spec
    requires self.ok(), self.track.is_some(), it1 < self.job.t().key_count, it0 == prev(self.job.t().key_count as int, it1 as int)
    ensures
        r.is_some() == crosses(self.job.t(), self.job.threshold.v(), it1 as int),
        r.is_some() ==> is_edge(r->0, self.job.t(), self.job.threshold.v(), forward, 0, it1 as int)
//@end
//@fn src/track_triggering_job.rs Iterator for TrackTriggeringIter<'_, T>::next
//@sub Self::Item ==> Edge
//@ret r
//@spec
    requires old(self).ok()
    ensures
        final(self).job == old(self).job, final(self).ok(),
        match r {
            // every crossing is behind
            None => final(self).track.is_none() && forall|o: int, i: int| old(self).in_range(o, i) ==> !#[trigger] old(self).pending(o, i),
            // a crossing in range, after which the iterator stands, with nothing in range between it and where it stood
            Some(e) => {
                let o = final(self).turn();
                let i = if old(self).job.forward() { final(self).inner - 1 } else { final(self).inner + 1 };
                &&& old(self).in_range(o, i) && old(self).pending(o, i)
                &&& is_edge(e, old(self).job.t(), old(self).job.threshold.v(), old(self).job.forward(), o, i)
                &&& final(self).track.is_some()
                &&& forall|p: int, j: int| old(self).in_range(p, j) && #[trigger] old(self).pending(p, j) ==> (p == o && j == i) || final(self).pending(p, j)
            },
        }
//@after let track = self.track?;
        let ghost t = self.job.t();
        let ghost th = self.job.threshold.v();
        let ghost a = self.job.lo();
        let ghost b = self.job.hi();
        let ghost o0 = self.turn();
        let ghost i0 = self.inner as int;
        let ghost mut o = o0;
        proof { rfloor_int(o); }
//@loop 1 while self.outer < self.job.to
    invariant
        old(self).ok(), self.job == old(self).job, self.track == old(self).track, old(self).track.is_some(), *track == t,
        t == self.job.t(), th == self.job.threshold.v(), a == self.job.lo(), b == self.job.hi(), t.wf(), key_count == t.key_count, a == self.job.from.v() && b == self.job.to.v() && a < b, self.job.forward(), 0 <= self.inner <= key_count, o0 <= o, !before(o, self.inner as int, o0, i0), rfloor(a) <= o0,
        forall|p: int, j: int| #[trigger] within(t, th, a, b, p, j) && !before(p, j, o0, i0) ==> !before(p, j, o, self.inner as int),
        o0 == old(self).turn(), i0 == old(self).inner, self.outer.v() == o as real,
    decreases rfloor(b) + 1 - o,
//@start 1
        proof { assert(o <= rfloor(b)); floor_le(a, o); rfloor_int(o); }
//@loop 2 while self.inner < key_count
    invariant
        old(self).ok(), self.job == old(self).job, self.track == old(self).track, old(self).track.is_some(), *track == t,
        t == self.job.t(), th == self.job.threshold.v(), a == self.job.lo(), b == self.job.hi(), t.wf(), key_count == t.key_count, a == self.job.from.v() && b == self.job.to.v() && a < b, self.job.forward(), 0 <= self.inner <= key_count, o0 <= o, !before(o, self.inner as int, o0, i0), rfloor(a) <= o0,
        forall|p: int, j: int| #[trigger] within(t, th, a, b, p, j) && !before(p, j, o0, i0) ==> !before(p, j, o, self.inner as int),
        o0 == old(self).turn(), i0 == old(self).inner, self.outer.v() == o as real,
        (o as real) < b, o as real + 1real > a, rfloor(o as real) == o,
    ensures
        forall|j: int| #[trigger] within(t, th, a, b, o, j) ==> before(o, j, o0, i0),
    decreases key_count - self.inner,
//@start 2
        proof {
            tested(t, th, a, b, o, self.inner as int);
            if t.ratios@[self.inner as int].v() + o as real >= b { none_after(t, th, a, b, o, self.inner as int); }
        }
//@stop 1
        proof { o = o + 1; rfloor_int(o); }
//@post 1
        proof { turns_after(t, th, a, b, o); }
//@loop 3 while self.outer + 1.0 > self.job.to
    invariant
        old(self).ok(), self.job == old(self).job, self.track == old(self).track, old(self).track.is_some(), *track == t,
        t == self.job.t(), th == self.job.threshold.v(), a == self.job.lo(), b == self.job.hi(), t.wf(), key_count == t.key_count, b == self.job.from.v() && a == self.job.to.v() && a < b, !self.job.forward(), -1 <= self.inner < key_count, o <= o0, !before(o0, i0, o, self.inner as int), o0 <= rfloor(b),
        forall|p: int, j: int| #[trigger] within(t, th, a, b, p, j) && !before(o0, i0, p, j) ==> !before(o, self.inner as int, p, j),
        o0 == old(self).turn(), i0 == old(self).inner, self.outer.v() == o as real,
    decreases o - rfloor(a) + 2,
//@start 3
        proof { le_floor(b, o); rfloor_int(o); }
//@loop 4 while self.inner >= 0
    invariant
        old(self).ok(), self.job == old(self).job, self.track == old(self).track, old(self).track.is_some(), *track == t,
        t == self.job.t(), th == self.job.threshold.v(), a == self.job.lo(), b == self.job.hi(), t.wf(), key_count == t.key_count, b == self.job.from.v() && a == self.job.to.v() && a < b, !self.job.forward(), -1 <= self.inner < key_count, o <= o0, !before(o0, i0, o, self.inner as int), o0 <= rfloor(b),
        forall|p: int, j: int| #[trigger] within(t, th, a, b, p, j) && !before(o0, i0, p, j) ==> !before(o, self.inner as int, p, j),
        o0 == old(self).turn(), i0 == old(self).inner, self.outer.v() == o as real,
        (o as real) <= b, o as real + 1real > a, rfloor(o as real) == o,
    ensures
        forall|j: int| #[trigger] within(t, th, a, b, o, j) ==> before(o0, i0, o, j),
    decreases self.inner + 1,
//@start 4
        proof {
            tested(t, th, a, b, o, self.inner as int);
            if t.ratios@[self.inner as int].v() + o as real <= a { none_before(t, th, a, b, o, self.inner as int); }
        }
//@stop 3
        proof { o = o - 1; rfloor_int(o); }
//@post 3
        proof { turns_before(t, th, a, b, o); }
//@end
}

// Two adjacent ranges together hold exactly the crossings of their union, each in one of them only.
pub proof fn adjacent(t: Track<F>, th: real, a: real, b: real, c: real, o: int, i: int)
    requires a <= b <= c
    ensures
        within(t, th, a, c, o, i) == (within(t, th, a, b, o, i) || within(t, th, b, c, o, i)),
        !(within(t, th, a, b, o, i) && within(t, th, b, c, o, i)),
{ }
// Backward the job meets the same crossings as forward, in the reverse order (contract of next), rising and falling exchanged.
pub proof fn backward<T: OzzObj<Track<F>>>(f: TrackTriggeringIter<T>, g: TrackTriggeringIter<T>, e: Edge, h: Edge, o: int, i: int)
    requires
        f.job.t() == g.job.t(), f.job.threshold == g.job.threshold, f.job.from == g.job.to, f.job.to == g.job.from, f.job.forward(),
        is_edge(e, f.job.t(), f.job.threshold.v(), f.job.forward(), o, i), is_edge(h, g.job.t(), g.job.threshold.v(), g.job.forward(), o, i)
    ensures f.in_range(o, i) == g.in_range(o, i), e.ratio == h.ratio, e.rising == !h.rising
{
    assert(f_of(e.ratio.v()) == f_of(h.ratio.v()));
}
}
