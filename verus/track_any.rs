// C13, C19: track sampling with any bit pattern for the ratio and the times (no assumption on how floats compare).
#![allow(unused)]
use vstd::prelude::*;
//@include anyfloat.rs
verus! {
use sd::*;
broadcast use sd::cmp_ax;
//@real
global size_of usize == 8;
//@include bufs.rs
pub trait TrackValue: Copy {
    fn default() -> Self;
    fn lerp(a: Self, b: Self, t: F) -> Self;
}
//@item src/track.rs struct Track
//@sub (?m)^(\s+)(\w+:) ==> \1pub \2
//@end
impl<V: TrackValue> Track<V> {
//@fn src/track.rs Track::key_count
//@ret r
//@spec
    ensures r == self.key_count
//@end
//@fn src/track.rs Track::ratios
//@ret r
//@spec
    ensures r@ == self.ratios@
//@end
//@fn src/track.rs Track::values
//@ret r
//@spec
    ensures r@ == self.values@
//@end
//@fn src/track.rs Track::steps
//@ret r
//@spec
    ensures r@ == self.steps@
//@end
}
impl<V: TrackValue> Track<V> {
    // What reading a track from an archive gives.
    pub open spec fn wf(&self) -> bool {
        &&& self.ratios@.len() == self.key_count && self.values@.len() == self.key_count
        &&& self.steps@.len() == (self.key_count + 7) / 8
    }
}
proof fn bit_test(b: u8, i: usize)
    ensures i >> 3usize == i / 8usize, (i & 7) == i % 8, (i & 7) < 8, ((b & (1u8 << (i % 8usize))) != 0) == ((b >> ((i % 8) as u8)) & 1 != 0), (b >> (i & 7)) & 1 == (b >> ((i % 8) as u8)) & 1, ((b & (1u8 << (i & 7))) != 0) == ((b >> ((i % 8) as u8)) & 1 != 0)
{
    assert(i >> 3usize == i / 8usize) by (bit_vector);
    assert(b >> (i & 7) == b >> ((i & 7) as u8)) by (bit_vector);
    assert((i & 7) == i % 8) by (bit_vector);
    let k = (i % 8) as u8;
    assert(((b & (1u8 << k)) != 0) == ((b >> k) & 1 != 0)) by (bit_vector) requires k < 8;
    assert((i & 7) < 8);
    assert(1u8 << (i & 7) == 1u8 << k) by (bit_vector) requires k == (i & 7) as u8, i & 7 < 8;
}
// slice.iter().position(p)
#[verifier::external_body]
pub fn position<T, P: Fn(&T) -> bool>(s: &[T], p: P) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < s@.len() ==> p.requires((&#[trigger] s@[i],))
    ensures
        match r {
            Some(k) => k < s@.len() && p.ensures((&s@[k as int],), true) && forall|j: int| 0 <= j < k ==> p.ensures((&#[trigger] s@[j],), false),
            None => forall|j: int| 0 <= j < s@.len() ==> p.ensures((&#[trigger] s@[j],), false),
        }
{ s.iter().position(|x| p(x)) }

//@item src/track_sampling_job.rs struct TrackSamplingJob
//@sub (?m)^(\s+)(track|ratio|result): ==> \1pub \2:
//@sub = Rc<Track<V>> ==>
//@end
impl<V: TrackValue, T: OzzObj<Track<V>>> TrackSamplingJob<V, T> {
//@fn src/track_sampling_job.rs TrackSamplingJob::validate
//@ret r
//@spec
    ensures r == self.track.is_some()
//@end
//@fn src/track_sampling_job.rs TrackSamplingJob::run
//@sub track\s*\.ratios\(\)\s*\.iter\(\)\s*\.position\(\|&(\w+)\| ([^()]*)\) ==> position(track.ratios(), |p: &F| -> (b: bool) { let \1 = *p; \2 })
//@after let id0 = id1.saturating_sub(1)
    proof {
        bit_test(track.steps@[id0 as int / 8], id0);
    }
//@ret r
//@spec
    requires old(self).track.is_some() ==> old(self).track->0.target().wf()
    ensures
        r.is_ok() == old(self).track.is_some(),
        r.is_err() ==> r->Err_0 == OzzError::InvalidJob && *final(self) == *old(self),
//@end
}


// --- triggering

#[derive(Clone, Copy)]
//@item src/track_triggering_job.rs struct Edge
//@sub (?m)^(\s+)(\w+:) ==> \1pub \2
//@end
impl Edge {
    // derive(Default)
    #[verifier::external_body]
    pub fn default() -> (r: Edge) { unimplemented!() }
}
//@item src/track_triggering_job.rs struct TrackTriggeringJob
//@sub (?m)^(\s+)(track|from|to|threshold): ==> \1pub \2:
//@sub = Rc<Track<f32>> ==>
//@end
//@item src/track_triggering_job.rs struct TrackTriggeringIter
//@sub (?m)^(\s+)(job|track|outer|inner): ==> \1pub \2:
//@end
impl TrackValue for F {
    #[verifier::external_body]
    fn default() -> F { unimplemented!() }
//@fn src/track.rs TrackValue for f32::lerp
//@spec
//@end
}
impl<T: OzzObj<Track<F>>> TrackTriggeringJob<T> {
//@fn src/track_triggering_job.rs TrackTriggeringJob::track
//@ret r
//@spec
    ensures r.is_some() == self.track.is_some(), r.is_some() ==> *r->0 == self.track->0
//@end
//@fn src/track_triggering_job.rs TrackTriggeringJob::run
//@ret r
//@spec
    requires old(self).track.is_some() ==> old(self).track->0.target().wf()
    ensures
        *final(self) == *old(self),
        r.is_ok() == old(self).track.is_some(),
        r.is_err() ==> r->Err_0 == OzzError::InvalidJob,
        r.is_ok() ==> r->Ok_0.ok()
//@end
}
impl<T: OzzObj<Track<F>>> TrackTriggeringJob<T> {
    pub open spec fn forward(&self) -> bool { cmp(self.to, self.from) == Some(core::cmp::Ordering::Greater) }
}
impl<'t, T: OzzObj<Track<F>>> TrackTriggeringIter<'t, T> {
    pub open spec fn ok(&self) -> bool {
        &&& self.job.track.is_some() && self.job.track->0.target().wf()
        &&& self.track.is_some() ==> {
            &&& *self.track->0 == self.job.track->0.target()
            &&& if self.job.forward() { 0 <= self.inner <= self.job.track->0.target().key_count } else { -1 <= self.inner < self.job.track->0.target().key_count }
        }
    }
//@fn src/track_triggering_job.rs TrackTriggeringIter::new
//@ret r
//@spec
    requires job.track.is_some(), job.track->0.target().wf()
    ensures r.job == job, r.ok()
//@end
//@fn src/track_triggering_job.rs TrackTriggeringIter::detect_edge
//@begin
        proof { bit_test(self.track->0.steps@[it0 as int / 8], it0); }
//@spec
    requires self.track.is_some(), self.track->0.wf(), it1 < self.track->0.key_count, it0 < self.track->0.key_count
//@end
#[verifier::exec_allows_no_decreases_clause]
//@fn src/track_triggering_job.rs Iterator for TrackTriggeringIter<'_, T>::next
//@sub Self::Item ==> Edge
//@spec
    requires old(self).ok()
    ensures final(self).ok()
//@loop 1 while self.outer < self.job.to
    invariant
        old(self).ok(), self.job == old(self).job, self.track == old(self).track, self.track.is_some(), *track == self.job.track->0.target(),
        key_count == track.key_count, track.wf(), self.job.forward(), 0 <= self.inner <= key_count,
//@loop 2 while self.inner < key_count
    invariant
        old(self).ok(), self.job == old(self).job, self.track == old(self).track, self.track.is_some(), *track == self.job.track->0.target(),
        key_count == track.key_count, track.wf(), self.job.forward(), 0 <= self.inner <= key_count,
//@loop 3 while self.outer + 1.0 > self.job.to
    invariant
        old(self).ok(), self.job == old(self).job, self.track == old(self).track, self.track.is_some(), *track == self.job.track->0.target(),
        key_count == track.key_count, track.wf(), !self.job.forward(), -1 <= self.inner < key_count,
//@loop 4 while self.inner >= 0
    invariant
        old(self).ok(), self.job == old(self).job, self.track == old(self).track, self.track.is_some(), *track == self.job.track->0.target(),
        key_count == track.key_count, track.wf(), !self.job.forward(), -1 <= self.inner < key_count,
//@end
}
}
