// C01, C02, C19: one call of SamplingJob::run, over the real numbers (written by tools/gen_sampling.py).
#![allow(non_camel_case_types, non_snake_case, unused)]
use vstd::prelude::*;
//@include simd.rs
verus! {
use sd::*;
broadcast use sd::ops;
global size_of usize == 8;
//@real
//@use decompress
//@include bufs.rs

pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize)
    requires b > 0,
    ensures r as int == (a + b - 1) / (b as int);
fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }

// ---- the animation: its channels
pub ghost struct Keys { pub r: Seq<u16>, pub p: Seq<u16>, pub ie: Seq<u8>, pub id: Seq<u32>, pub iv: F }
pub open spec fn reads(c: KeyframesCtrl<'_>, k: Keys) -> bool {
    c.ratios@ == k.r && c.previouses@ == k.p && c.iframe_entries@ == k.ie && c.iframe_desc@ == k.id && c.iframe_interval == k.iv
}
impl Animation {
    pub open spec fn n(&self) -> int { self.num_tracks as int }
    pub open spec fn nsoa(&self) -> int { (self.num_tracks + 3) / 4 }
//@fn src/animation.rs Animation::num_tracks
//@ret r
//@spec
    ensures r == self.n()
//@end
//@fn src/animation.rs Animation::num_soa_tracks
//@ret r
//@spec
    ensures r == self.nsoa()
//@end

    pub open spec fn tk(&self) -> Keys {
        let n = self.translations_count as int;
        Keys { r: self.t_ratios@.take(n), p: self.t_previouses@.take(n), ie: self.t_iframe_entries@.take(self.t_iframe_entries_count as int),
            id: self.t_iframe_desc@.take(self.t_iframe_desc_count as int), iv: self.t_iframe_interval }
    }
    pub open spec fn tc(&self) -> Seq<Float3Key> { self.translations@.take(self.translations_count as int) }
//@fn src/animation.rs Animation::translations
//@sub unsafe \{ slice::from_raw_parts\((?:self|inner)\.(\w+), ([^;{}]*)\) \} ==> prefix(&self.\1, \2)
//@ret r
//@spec
    requires self.whole()
    ensures r@ == self.tc()
//@end
//@fn src/animation.rs Animation::translations_ctrl
//@sub slice::from_raw_parts\(self\.(\w+), ([^,{}]*)\) ==> prefix(&self.\1, \2)
//@sub unsafe \{ ==> {
//@ret r
//@spec
    requires self.whole()
    ensures reads(r, self.tk())
//@end

    pub open spec fn rk(&self) -> Keys {
        let n = self.rotations_count as int;
        Keys { r: self.r_ratios@.take(n), p: self.r_previouses@.take(n), ie: self.r_iframe_entries@.take(self.r_iframe_entries_count as int),
            id: self.r_iframe_desc@.take(self.r_iframe_desc_count as int), iv: self.r_iframe_interval }
    }
    pub open spec fn rc(&self) -> Seq<QuaternionKey> { self.rotations@.take(self.rotations_count as int) }
//@fn src/animation.rs Animation::rotations
//@sub unsafe \{ slice::from_raw_parts\((?:self|inner)\.(\w+), ([^;{}]*)\) \} ==> prefix(&self.\1, \2)
//@ret r
//@spec
    requires self.whole()
    ensures r@ == self.rc()
//@end
//@fn src/animation.rs Animation::rotations_ctrl
//@sub slice::from_raw_parts\(self\.(\w+), ([^,{}]*)\) ==> prefix(&self.\1, \2)
//@sub unsafe \{ ==> {
//@ret r
//@spec
    requires self.whole()
    ensures reads(r, self.rk())
//@end

    pub open spec fn sk(&self) -> Keys {
        let n = self.scales_count as int;
        Keys { r: self.s_ratios@.take(n), p: self.s_previouses@.take(n), ie: self.s_iframe_entries@.take(self.s_iframe_entries_count as int),
            id: self.s_iframe_desc@.take(self.s_iframe_desc_count as int), iv: self.s_iframe_interval }
    }
    pub open spec fn sc(&self) -> Seq<Float3Key> { self.scales@.take(self.scales_count as int) }
//@fn src/animation.rs Animation::scales
//@sub unsafe \{ slice::from_raw_parts\((?:self|inner)\.(\w+), ([^;{}]*)\) \} ==> prefix(&self.\1, \2)
//@ret r
//@spec
    requires self.whole()
    ensures r@ == self.sc()
//@end
//@fn src/animation.rs Animation::scales_ctrl
//@sub slice::from_raw_parts\(self\.(\w+), ([^,{}]*)\) ==> prefix(&self.\1, \2)
//@sub unsafe \{ ==> {
//@ret r
//@spec
    requires self.whole()
    ensures reads(r, self.sk())
//@end
}
// What an animation must be for sampling at ratio x to be defined (the offline tools' output is; see the restrictions in DESIGN).
pub open spec fn channel_ok(k: Keys, a: &Animation, nkeys: int, x: F) -> bool {
    let w = 4 * a.nsoa();
    &&& wf_keys(k.r, k.p, a.tp(), w, a.n()) && wf_seek(k.p, k.ie, k.id, w) && wf_ratio(k.r, a.tp(), w, x)
    &&& (k.id.len() > 0 ==> 0 <= seek_index(x, k.iv) <= k.id.len() / 2)
    &&& nkeys == k.r.len()
}
pub open spec fn animation_ok(a: &Animation, x: F) -> bool {
    &&& a.whole() && a.nsoa() <= 0x07ff_ffff
    &&& a.n() > 0 ==> channel_ok(a.tk(), a, a.tc().len() as int, x) && channel_ok(a.rk(), a, a.rc().len() as int, x) && channel_ok(a.sk(), a, a.sc().len() as int, x)
}

// ---- the context
//@item src/sampling_job.rs struct SamplingContextInner
//@sub \*mut (\w+) ==> Vec<\1>
//@sub (?m)^\s*struct ==> pub struct
//@sub (?m)^(\s+)(\w+): ==> \1pub \2:
//@end
//@item src/sampling_job.rs struct SamplingContext
//@sub \*mut SamplingContextInner ==> pub SamplingContextInner
//@end
impl SamplingContextInner {
    pub open spec fn whole(&self) -> bool {
        &&& self.max_tracks == 4 * self.max_soa_tracks && self.max_outdated == (self.max_soa_tracks + 7) / 8
        &&& self.translations@.len() == self.max_soa_tracks && self.translation_entries@.len() == self.max_tracks && self.translation_outdated@.len() == self.max_outdated
        &&& self.rotations@.len() == self.max_soa_tracks && self.rotation_entries@.len() == self.max_tracks && self.rotation_outdated@.len() == self.max_outdated
        &&& self.scales@.len() == self.max_soa_tracks && self.scale_entries@.len() == self.max_tracks && self.scale_outdated@.len() == self.max_outdated
    }
}
// The part of a context that belongs to one channel.
pub ghost struct Chan<V> { pub next: int, pub e: Seq<u32>, pub o: Seq<u8>, pub v: Seq<V> }
impl SamplingContext {
    pub open spec fn whole(&self) -> bool { self.0.whole() }
    // same sizes
    pub open spec fn like(&self, o: &SamplingContext) -> bool {
        self.whole() && o.whole() && self.0.max_soa_tracks == o.0.max_soa_tracks && self.0.size == o.0.size
    }
    pub open spec fn t(&self) -> Chan<InterpSoaFloat3> { Chan { next: self.0.translation_next as int, e: self.0.translation_entries@, o: self.0.translation_outdated@, v: self.0.translations@ } }
    pub open spec fn r(&self) -> Chan<InterpSoaQuaternion> { Chan { next: self.0.rotation_next as int, e: self.0.rotation_entries@, o: self.0.rotation_outdated@, v: self.0.rotations@ } }
    pub open spec fn s(&self) -> Chan<InterpSoaFloat3> { Chan { next: self.0.scale_next as int, e: self.0.scale_entries@, o: self.0.scale_outdated@, v: self.0.scales@ } }
    pub open spec fn only_ids(&self, o: &SamplingContext) -> bool {
        self.like(o) && self.t() == o.t() && self.r() == o.r() && self.s() == o.s()
    }
//@fn src/sampling_job.rs SamplingContext::inner
//@sub unsafe \{ &\*self\.0 \} ==> &self.0
//@ret r
//@spec
    ensures *r == self.0
//@end
//@fn src/sampling_job.rs SamplingContext::inner_mut
//@sub unsafe \{ &mut \*self\.0 \} ==> &mut self.0
//@ret r
//@spec
    ensures *r == old(self).0, final(self).0 == *final(r)
//@end
//@fn src/sampling_job.rs SamplingContext::max_soa_tracks
//@ret r
//@spec
    ensures r == self.0.max_soa_tracks
//@end
//@fn src/sampling_job.rs SamplingContext::max_tracks
//@ret r
//@spec
    ensures r == self.0.max_tracks
//@end
//@fn src/sampling_job.rs SamplingContext::max_outdated
//@ret r
//@spec
    ensures r == self.0.max_outdated
//@end
//@fn src/sampling_job.rs SamplingContext::animation_id
//@ret r
//@spec
    ensures r == self.0.animation_id
//@end
//@fn src/sampling_job.rs SamplingContext::ratio
//@ret r
//@spec
    ensures r == self.0.ratio
//@end
//@fn src/sampling_job.rs SamplingContext::size
//@ret r
//@spec
    ensures r == self.0.size
//@end
//@fn src/sampling_job.rs SamplingContext::translation_next
//@ret r
//@spec
    ensures r == self.0.translation_next
//@end
//@fn src/sampling_job.rs SamplingContext::rotation_next
//@ret r
//@spec
    ensures r == self.0.rotation_next
//@end
//@fn src/sampling_job.rs SamplingContext::scale_next
//@ret r
//@spec
    ensures r == self.0.scale_next
//@end
//@fn src/sampling_job.rs SamplingContext::set_animation_id
//@spec
    ensures final(self).0 == (SamplingContextInner { animation_id: animation_id, ..old(self).0 })
//@end
//@fn src/sampling_job.rs SamplingContext::set_ratio
//@spec
    ensures final(self).0 == (SamplingContextInner { ratio: ratio, ..old(self).0 })
//@end
//@fn src/sampling_job.rs SamplingContext::set_translation_next
//@spec
    ensures final(self).0 == (SamplingContextInner { translation_next: next, ..old(self).0 })
//@end
//@fn src/sampling_job.rs SamplingContext::set_rotation_next
//@spec
    ensures final(self).0 == (SamplingContextInner { rotation_next: next, ..old(self).0 })
//@end
//@fn src/sampling_job.rs SamplingContext::set_scale_next
//@spec
    ensures final(self).0 == (SamplingContextInner { scale_next: next, ..old(self).0 })
//@end
//@fn src/sampling_job.rs SamplingContext::clear
//@spec
    requires old(self).whole()
    ensures final(self).like(old(self)), final(self).0.animation_id == 0, final(self).t().next == 0, final(self).r().next == 0, final(self).s().next == 0
//@end
//@fn src/sampling_job.rs SamplingContext::translations
//@sub unsafe \{ slice::from_raw_parts\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix(&inner.\1, \2)
//@ret x
//@spec
    requires self.whole()
    ensures x@ == self.t().v
//@end
//@fn src/sampling_job.rs SamplingContext::translation_update_args
//@sub unsafe \{ slice::from_raw_parts_mut\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix_mut(&mut inner.\1, \2)
//@ret x
//@spec
    requires old(self).whole()
    ensures x.num_tracks == animation.n(), x.num_soa_tracks == animation.nsoa(),
        x.entries@ == old(self).t().e, x.outdated@ == old(self).t().o, *x.next == old(self).t().next,
        final(self).0 == (SamplingContextInner { translation_entries: final(self).0.translation_entries, translation_outdated: final(self).0.translation_outdated, translation_next: *final(x.next), ..old(self).0 }),
        final(self).t().e == final(x.entries)@, final(self).t().o == final(x.outdated)@,
//@end
//@fn src/sampling_job.rs SamplingContext::translation_decompress_args
//@sub &self\b ==> &mut self
//@sub self\.inner\(\) ==> self.inner_mut()
//@sub unsafe \{ slice::from_raw_parts\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix(&inner.\1, \2)
//@sub unsafe \{ slice::from_raw_parts_mut\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix_mut(&mut inner.\1, \2)
//@ret x
//@spec
    requires old(self).whole(), (animation.nsoa() + 7) / 8 <= old(self).0.max_outdated
    ensures
        x.entries@ == old(self).t().e, x.outdated@ == old(self).t().o.take((animation.nsoa() + 7) / 8), x.values@ == old(self).t().v,
        final(self).0 == (SamplingContextInner { translation_outdated: final(self).0.translation_outdated, translations: final(self).0.translations, ..old(self).0 }),
        final(self).t().o == final(x.outdated)@ + old(self).t().o.skip((animation.nsoa() + 7) / 8), final(self).t().v == final(x.values)@,
//@end
//@fn src/sampling_job.rs SamplingContext::rotations
//@sub unsafe \{ slice::from_raw_parts\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix(&inner.\1, \2)
//@ret x
//@spec
    requires self.whole()
    ensures x@ == self.r().v
//@end
//@fn src/sampling_job.rs SamplingContext::rotation_update_args
//@sub unsafe \{ slice::from_raw_parts_mut\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix_mut(&mut inner.\1, \2)
//@ret x
//@spec
    requires old(self).whole()
    ensures x.num_tracks == animation.n(), x.num_soa_tracks == animation.nsoa(),
        x.entries@ == old(self).r().e, x.outdated@ == old(self).r().o, *x.next == old(self).r().next,
        final(self).0 == (SamplingContextInner { rotation_entries: final(self).0.rotation_entries, rotation_outdated: final(self).0.rotation_outdated, rotation_next: *final(x.next), ..old(self).0 }),
        final(self).r().e == final(x.entries)@, final(self).r().o == final(x.outdated)@,
//@end
//@fn src/sampling_job.rs SamplingContext::rotation_decompress_args
//@sub &self\b ==> &mut self
//@sub self\.inner\(\) ==> self.inner_mut()
//@sub unsafe \{ slice::from_raw_parts\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix(&inner.\1, \2)
//@sub unsafe \{ slice::from_raw_parts_mut\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix_mut(&mut inner.\1, \2)
//@ret x
//@spec
    requires old(self).whole(), (animation.nsoa() + 7) / 8 <= old(self).0.max_outdated
    ensures
        x.entries@ == old(self).r().e, x.outdated@ == old(self).r().o.take((animation.nsoa() + 7) / 8), x.values@ == old(self).r().v,
        final(self).0 == (SamplingContextInner { rotation_outdated: final(self).0.rotation_outdated, rotations: final(self).0.rotations, ..old(self).0 }),
        final(self).r().o == final(x.outdated)@ + old(self).r().o.skip((animation.nsoa() + 7) / 8), final(self).r().v == final(x.values)@,
//@end
//@fn src/sampling_job.rs SamplingContext::scales
//@sub unsafe \{ slice::from_raw_parts\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix(&inner.\1, \2)
//@ret x
//@spec
    requires self.whole()
    ensures x@ == self.s().v
//@end
//@fn src/sampling_job.rs SamplingContext::scale_update_args
//@sub unsafe \{ slice::from_raw_parts_mut\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix_mut(&mut inner.\1, \2)
//@ret x
//@spec
    requires old(self).whole()
    ensures x.num_tracks == animation.n(), x.num_soa_tracks == animation.nsoa(),
        x.entries@ == old(self).s().e, x.outdated@ == old(self).s().o, *x.next == old(self).s().next,
        final(self).0 == (SamplingContextInner { scale_entries: final(self).0.scale_entries, scale_outdated: final(self).0.scale_outdated, scale_next: *final(x.next), ..old(self).0 }),
        final(self).s().e == final(x.entries)@, final(self).s().o == final(x.outdated)@,
//@end
//@fn src/sampling_job.rs SamplingContext::scale_decompress_args
//@sub &self\b ==> &mut self
//@sub self\.inner\(\) ==> self.inner_mut()
//@sub unsafe \{ slice::from_raw_parts\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix(&inner.\1, \2)
//@sub unsafe \{ slice::from_raw_parts_mut\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix_mut(&mut inner.\1, \2)
//@ret x
//@spec
    requires old(self).whole(), (animation.nsoa() + 7) / 8 <= old(self).0.max_outdated
    ensures
        x.entries@ == old(self).s().e, x.outdated@ == old(self).s().o.take((animation.nsoa() + 7) / 8), x.values@ == old(self).s().v,
        final(self).0 == (SamplingContextInner { scale_outdated: final(self).0.scale_outdated, scales: final(self).0.scales, ..old(self).0 }),
        final(self).s().o == final(x.outdated)@ + old(self).s().o.skip((animation.nsoa() + 7) / 8), final(self).s().v == final(x.values)@,
//@end
}
pub trait AsSamplingContext: Sized {
    spec fn ctx(&self) -> SamplingContext;
    fn as_ref(&self) -> (r: &SamplingContext) ensures *r == self.ctx();
    fn as_mut(&mut self) -> (r: &mut SamplingContext) ensures *r == old(self).ctx(), final(self).ctx() == *final(r);
}
// the address of an animation: what tells animations apart
pub uninterp spec fn addr(a: &Animation) -> u64;
#[verifier::external_body]
pub fn address(a: &Animation) -> (r: u64) ensures r == addr(a) { unimplemented!() }

// A channel of a context that was last used with this animation: not started, or each group is decoded or flagged.
pub open spec fn cache_ok(k: Keys, nsoa: int, next: int, e: Seq<u32>, o: Seq<u8>) -> bool {
    2 * (4 * nsoa) <= next <= k.p.len() && cached(k.p, 4 * nsoa, next, e) && none_beyond(o, nsoa)
}
pub open spec fn tg(a: &Animation, e: Seq<u32>, i: int, v: InterpSoaFloat3) -> bool { group3(a.tk().r, a.tk().p, a.tp(), a.tc(), e, i, v) }
pub open spec fn t_coherent(a: &Animation, c: Chan<InterpSoaFloat3>) -> bool {
    c.next == 0 || (cache_ok(a.tk(), a.nsoa(), c.next, c.e, c.o) && forall|i: int| 0 <= i < a.nsoa() ==> #[trigger] flag(c.o, i) || tg(a, c.e, i, c.v[i]))
}
// The channel as ratio x asks for.
pub open spec fn t_ready(a: &Animation, x: F, c: Chan<InterpSoaFloat3>) -> bool {
    &&& at_ratio(a.tk().r, a.tk().p, a.tp(), 4 * a.nsoa(), x, c.next, c.e) && none_beyond(c.o, a.nsoa())
    &&& forall|i: int| 0 <= i < a.nsoa() ==> tg(a, c.e, i, #[trigger] c.v[i])
}
pub open spec fn rg(a: &Animation, e: Seq<u32>, i: int, v: InterpSoaQuaternion) -> bool { groupq(a.rk().r, a.rk().p, a.tp(), a.rc(), e, i, v) }
pub open spec fn r_coherent(a: &Animation, c: Chan<InterpSoaQuaternion>) -> bool {
    c.next == 0 || (cache_ok(a.rk(), a.nsoa(), c.next, c.e, c.o) && forall|i: int| 0 <= i < a.nsoa() ==> #[trigger] flag(c.o, i) || rg(a, c.e, i, c.v[i]))
}
// The channel as ratio x asks for.
pub open spec fn r_ready(a: &Animation, x: F, c: Chan<InterpSoaQuaternion>) -> bool {
    &&& at_ratio(a.rk().r, a.rk().p, a.tp(), 4 * a.nsoa(), x, c.next, c.e) && none_beyond(c.o, a.nsoa())
    &&& forall|i: int| 0 <= i < a.nsoa() ==> rg(a, c.e, i, #[trigger] c.v[i])
}
pub open spec fn sg(a: &Animation, e: Seq<u32>, i: int, v: InterpSoaFloat3) -> bool { group3(a.sk().r, a.sk().p, a.tp(), a.sc(), e, i, v) }
pub open spec fn s_coherent(a: &Animation, c: Chan<InterpSoaFloat3>) -> bool {
    c.next == 0 || (cache_ok(a.sk(), a.nsoa(), c.next, c.e, c.o) && forall|i: int| 0 <= i < a.nsoa() ==> #[trigger] flag(c.o, i) || sg(a, c.e, i, c.v[i]))
}
// The channel as ratio x asks for.
pub open spec fn s_ready(a: &Animation, x: F, c: Chan<InterpSoaFloat3>) -> bool {
    &&& at_ratio(a.sk().r, a.sk().p, a.tp(), 4 * a.nsoa(), x, c.next, c.e) && none_beyond(c.o, a.nsoa())
    &&& forall|i: int| 0 <= i < a.nsoa() ==> sg(a, c.e, i, #[trigger] c.v[i])
}
pub open spec fn coherent(a: &Animation, c: &SamplingContext) -> bool {
    c.whole() && (c.0.animation_id == addr(a) ==> t_coherent(a, c.t()) && r_coherent(a, c.r()) && s_coherent(a, c.s()))
}
pub open spec fn ready(a: &Animation, x: F, c: &SamplingContext) -> bool { t_ready(a, x, c.t()) && r_ready(a, x, c.r()) && s_ready(a, x, c.s()) }

// ---- the sample: lane l of group i
pub open spec fn along(x: real, t0: real, t1: real) -> real { (x - t0) / (t1 - t0) }
pub open spec fn lerp3(a: V3, b: V3, f: real) -> V3 { V3 { x: mix(a.x, b.x, f), y: mix(a.y, b.y, f), z: mix(a.z, b.z, f) } }
pub open spec fn norm4(q: V4) -> V4 {
    let h = 1real / rsqrt(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w);
    V4 { x: q.x * h, y: q.y * h, z: q.z * h, w: q.w * h }
}
pub open spec fn lerp4(a: V4, b: V4, f: real) -> V4 { V4 { x: mix(a.x, b.x, f), y: mix(a.y, b.y, f), z: mix(a.z, b.z, f), w: mix(a.w, b.w, f) } }
// Between the keys in a group of the cache.
pub open spec fn between3(v: InterpSoaFloat3, x: F, l: int) -> V3 { lerp3(lane3(v.value@[0], l), lane3(v.value@[1], l), along(x.v(), v.ratio@[0].l(l), v.ratio@[1].l(l))) }
pub open spec fn betweenq(v: InterpSoaQuaternion, x: F, l: int) -> V4 { norm4(lerp4(laneq(v.value@[0], l), laneq(v.value@[1], l), along(x.v(), v.ratio@[0].l(l), v.ratio@[1].l(l)))) }
// Of the animation, for entry en of the cache: the key and the one before it on its track.
pub open spec fn along_keys(k: Keys, tp: Seq<F>, x: F, en: u32) -> real { along(x.v(), tp[k.r[left(k.p, en)] as int].v(), tp[k.r[en as int] as int].v()) }
pub open spec fn sample3(k: Keys, tp: Seq<F>, c: Seq<Float3Key>, x: F, en: u32) -> V3 { lerp3(dec3(c[left(k.p, en)]), dec3(c[en as int]), along_keys(k, tp, x, en)) }
pub open spec fn sampleq(k: Keys, tp: Seq<F>, c: Seq<QuaternionKey>, x: F, en: u32) -> V4 { norm4(lerp4(decq(c[left(k.p, en)]), decq(c[en as int]), along_keys(k, tp, x, en))) }
pub ghost struct Joint { pub t: V3, pub r: V4, pub s: V3 }
pub open spec fn joint_of(o: SoaTransform, l: int) -> Joint { Joint { t: lane3(o.translation, l), r: laneq(o.rotation, l), s: lane3(o.scale, l) } }
pub open spec fn sample(a: &Animation, x: F, te: Seq<u32>, re: Seq<u32>, se: Seq<u32>, i: int, l: int) -> Joint {
    Joint { t: sample3(a.tk(), a.tp(), a.tc(), x, at4(te, i, l)), r: sampleq(a.rk(), a.tp(), a.rc(), x, at4(re, i, l)), s: sample3(a.sk(), a.tp(), a.sc(), x, at4(se, i, l)) }
}
pub open spec fn between(c: &SamplingContext, x: F, i: int, l: int) -> Joint {
    Joint { t: between3(c.t().v[i], x, l), r: betweenq(c.r().v[i], x, l), s: between3(c.s().v[i], x, l) }
}
pub open spec fn joint(s: int, k: int, n: int) -> bool { 0 <= s < n && 0 <= k < 4 }
pub open spec fn tail_kept(o: Seq<SoaTransform>, p: Seq<SoaTransform>, n: int) -> bool { o.len() == p.len() && forall|s: int| n <= s < o.len() ==> #[trigger] o[s] == p[s] }

//@fn src/sampling_job.rs SamplingJob::step_context
//@sub animation as \*const _ as u64 ==> address(animation)
//@sub &mut SamplingContext ==> &mut SamplingContext
//@ret r
//@spec
    requires coherent(animation, old(ctx))
    ensures final(ctx).like(old(ctx)), final(ctx).0.animation_id == addr(animation), final(ctx).0.ratio == ratio,
        t_coherent(animation, final(ctx).t()), r_coherent(animation, final(ctx).r()), s_coherent(animation, final(ctx).s()),
//@end

#[verifier::loop_isolation(false)]
//@fn src/sampling_job.rs SamplingJob::interpolates
//@sub for \(idx, out\) in output\.iter_mut\(\)\.enumerate\(\)\.take\(animation\.num_soa_tracks\(\)\) \{ ==> for oi in 0..min_usize(output.len(), animation.num_soa_tracks()) { let idx = oi; let out = &mut output[oi];
//@ret r
//@spec
    requires old(ctx).whole(), old(ctx).0.max_soa_tracks >= animation.nsoa(), old(output)@.len() >= animation.nsoa()
    ensures r.is_ok(), *final(ctx) == *old(ctx), tail_kept(old(output)@, final(output)@, animation.nsoa()),
        forall|i: int, l: int| joint(i, l, animation.nsoa()) ==> #[trigger] joint_of(final(output)@[i], l) == between(old(ctx), ratio, i, l),
//@begin
    let ghost out0 = output@;
    let ghost nsoa = animation.nsoa();
//@loop 1 for oi in 0..min_usize(output.len(), animation.num_soa_tracks())
    invariant
        tail_kept(out0, output@, nsoa),
        forall|i: int, l: int| joint(i, l, oi as int) ==> #[trigger] joint_of(output@[i], l) == between(ctx, ratio, i, l),
//@start 1
    let ghost o1 = output@;
//@stop 1
    proof {
        assert forall|i: int, l: int| joint(i, l, oi + 1) implies #[trigger] joint_of(output@[i], l) == between(ctx, ratio, i, l) by {
            if i != oi { assert(joint_of(o1[i], l) == between(ctx, ratio, i, l)); }
        }
    }
//@end

proof fn front_flags(o: Seq<u8>, n: int)
    requires 0 <= n <= o.len()
    ensures forall|i: int| 0 <= i < 8 * n ==> #[trigger] flag(o.take(n), i) == flag(o, i)
{}

// What update_cache leaves is what decompress needs.
proof fn t_pre(a: &Animation, x: F, c: Chan<InterpSoaFloat3>)
    requires animation_ok(a, x), a.n() > 0, at_ratio(a.tk().r, a.tk().p, a.tp(), 4 * a.nsoa(), x, c.next, c.e)
    ensures wf(a.tk().r, a.tk().p, a.tp(), a.tc().len() as int, c.e, a.nsoa())
{
    let (w, p) = (4 * a.nsoa(), a.tk().p);
    assert forall|t: int| 0 <= t < 4 * a.nsoa() implies (#[trigger] c.e[t]) < p.len() && p[c.e[t] as int] <= c.e[t] by {
        let k = c.e[t] as int;
        assert(k < c.next && k >= w);
        if k < 2 * w { assert(p[k] == w); } else { assert(k - p[k] >= w); }
    }
}
// One channel: update_cache and decompress, whatever the cache was.
proof fn t_step(a: &Animation, x: F, c0: Chan<InterpSoaFloat3>, c1: Chan<InterpSoaFloat3>, c2: Chan<InterpSoaFloat3>)
    requires animation_ok(a, x), a.n() > 0, t_coherent(a, c0),
        c0.v == c1.v, c0.v.len() >= a.nsoa(),
        at_ratio(a.tk().r, a.tk().p, a.tp(), 4 * a.nsoa(), x, c1.next, c1.e), flagged(c0.e, c0.o, c1.e, c1.o, a.nsoa()), none_beyond(c1.o, a.nsoa()),
        c0.next == 0 ==> forall|i: int| 0 <= i < a.nsoa() ==> #[trigger] flag(c1.o, i),
        c2.next == c1.next, c2.e == c1.e, c2.v.len() == c1.v.len(),
        forall|i: int| 0 <= i < a.nsoa() && #[trigger] flag(c1.o, i) ==> tg(a, c1.e, i, c2.v[i]),
        forall|i: int| 0 <= i < a.nsoa() && !flag(c1.o, i) ==> #[trigger] c2.v[i] == c1.v[i],
        forall|i: int| 0 <= i < 8 * ((a.nsoa() + 7) / 8) && #[trigger] flag(c2.o, i) ==> flag(c1.o, i),
    ensures t_ready(a, x, c2)
{
    assert forall|i: int| 0 <= i < a.nsoa() implies tg(a, c2.e, i, #[trigger] c2.v[i]) by {
        if !flag(c1.o, i) {
            assert(same4(c0.e, c1.e, i));
            assert(flag(c0.o, i) || tg(a, c0.e, i, c0.v[i]));
            assert(forall|k: int| 0 <= k < 4 ==> at4(c0.e, i, k) == #[trigger] at4(c1.e, i, k)) by { assert(forall|k: int| 0 <= k < 4 ==> c0.e[4 * i + k] == #[trigger] at4(c1.e, i, k)); }
        }
    }
}

// What update_cache leaves is what decompress needs.
proof fn r_pre(a: &Animation, x: F, c: Chan<InterpSoaQuaternion>)
    requires animation_ok(a, x), a.n() > 0, at_ratio(a.rk().r, a.rk().p, a.tp(), 4 * a.nsoa(), x, c.next, c.e)
    ensures wf(a.rk().r, a.rk().p, a.tp(), a.rc().len() as int, c.e, a.nsoa())
{
    let (w, p) = (4 * a.nsoa(), a.rk().p);
    assert forall|t: int| 0 <= t < 4 * a.nsoa() implies (#[trigger] c.e[t]) < p.len() && p[c.e[t] as int] <= c.e[t] by {
        let k = c.e[t] as int;
        assert(k < c.next && k >= w);
        if k < 2 * w { assert(p[k] == w); } else { assert(k - p[k] >= w); }
    }
}
// One channel: update_cache and decompress, whatever the cache was.
proof fn r_step(a: &Animation, x: F, c0: Chan<InterpSoaQuaternion>, c1: Chan<InterpSoaQuaternion>, c2: Chan<InterpSoaQuaternion>)
    requires animation_ok(a, x), a.n() > 0, r_coherent(a, c0),
        c0.v == c1.v, c0.v.len() >= a.nsoa(),
        at_ratio(a.rk().r, a.rk().p, a.tp(), 4 * a.nsoa(), x, c1.next, c1.e), flagged(c0.e, c0.o, c1.e, c1.o, a.nsoa()), none_beyond(c1.o, a.nsoa()),
        c0.next == 0 ==> forall|i: int| 0 <= i < a.nsoa() ==> #[trigger] flag(c1.o, i),
        c2.next == c1.next, c2.e == c1.e, c2.v.len() == c1.v.len(),
        forall|i: int| 0 <= i < a.nsoa() && #[trigger] flag(c1.o, i) ==> rg(a, c1.e, i, c2.v[i]),
        forall|i: int| 0 <= i < a.nsoa() && !flag(c1.o, i) ==> #[trigger] c2.v[i] == c1.v[i],
        forall|i: int| 0 <= i < 8 * ((a.nsoa() + 7) / 8) && #[trigger] flag(c2.o, i) ==> flag(c1.o, i),
    ensures r_ready(a, x, c2)
{
    assert forall|i: int| 0 <= i < a.nsoa() implies rg(a, c2.e, i, #[trigger] c2.v[i]) by {
        if !flag(c1.o, i) {
            assert(same4(c0.e, c1.e, i));
            assert(flag(c0.o, i) || rg(a, c0.e, i, c0.v[i]));
            assert(forall|k: int| 0 <= k < 4 ==> at4(c0.e, i, k) == #[trigger] at4(c1.e, i, k)) by { assert(forall|k: int| 0 <= k < 4 ==> c0.e[4 * i + k] == #[trigger] at4(c1.e, i, k)); }
        }
    }
}

// What update_cache leaves is what decompress needs.
proof fn s_pre(a: &Animation, x: F, c: Chan<InterpSoaFloat3>)
    requires animation_ok(a, x), a.n() > 0, at_ratio(a.sk().r, a.sk().p, a.tp(), 4 * a.nsoa(), x, c.next, c.e)
    ensures wf(a.sk().r, a.sk().p, a.tp(), a.sc().len() as int, c.e, a.nsoa())
{
    let (w, p) = (4 * a.nsoa(), a.sk().p);
    assert forall|t: int| 0 <= t < 4 * a.nsoa() implies (#[trigger] c.e[t]) < p.len() && p[c.e[t] as int] <= c.e[t] by {
        let k = c.e[t] as int;
        assert(k < c.next && k >= w);
        if k < 2 * w { assert(p[k] == w); } else { assert(k - p[k] >= w); }
    }
}
// One channel: update_cache and decompress, whatever the cache was.
proof fn s_step(a: &Animation, x: F, c0: Chan<InterpSoaFloat3>, c1: Chan<InterpSoaFloat3>, c2: Chan<InterpSoaFloat3>)
    requires animation_ok(a, x), a.n() > 0, s_coherent(a, c0),
        c0.v == c1.v, c0.v.len() >= a.nsoa(),
        at_ratio(a.sk().r, a.sk().p, a.tp(), 4 * a.nsoa(), x, c1.next, c1.e), flagged(c0.e, c0.o, c1.e, c1.o, a.nsoa()), none_beyond(c1.o, a.nsoa()),
        c0.next == 0 ==> forall|i: int| 0 <= i < a.nsoa() ==> #[trigger] flag(c1.o, i),
        c2.next == c1.next, c2.e == c1.e, c2.v.len() == c1.v.len(),
        forall|i: int| 0 <= i < a.nsoa() && #[trigger] flag(c1.o, i) ==> sg(a, c1.e, i, c2.v[i]),
        forall|i: int| 0 <= i < a.nsoa() && !flag(c1.o, i) ==> #[trigger] c2.v[i] == c1.v[i],
        forall|i: int| 0 <= i < 8 * ((a.nsoa() + 7) / 8) && #[trigger] flag(c2.o, i) ==> flag(c1.o, i),
    ensures s_ready(a, x, c2)
{
    assert forall|i: int| 0 <= i < a.nsoa() implies sg(a, c2.e, i, #[trigger] c2.v[i]) by {
        if !flag(c1.o, i) {
            assert(same4(c0.e, c1.e, i));
            assert(flag(c0.o, i) || sg(a, c0.e, i, c0.v[i]));
            assert(forall|k: int| 0 <= k < 4 ==> at4(c0.e, i, k) == #[trigger] at4(c1.e, i, k)) by { assert(forall|k: int| 0 <= k < 4 ==> c0.e[4 * i + k] == #[trigger] at4(c1.e, i, k)); }
        }
    }
}

//@item src/sampling_job.rs struct SamplingJob
//@sub (?m)^(\s+)(animation|context|ratio|output): ==> \1pub \2:
//@sub <A = Rc<Animation>, O = Rc<RefCell<Vec<SoaTransform>>>, C = SamplingContext> ==> <A, O, C>
//@end
impl<A: OzzObj<Animation>, O: OzzMutBuf<SoaTransform>, C: AsSamplingContext> SamplingJob<A, O, C> {
    pub open spec fn nsoa(&self) -> int { self.animation->0.target().nsoa() }
    pub open spec fn anim(&self) -> &Animation { &self.animation->0.target() }
    pub open spec fn valid(&self) -> bool {
        &&& self.animation.is_some() && self.context.is_some() && self.output.is_some() && !self.output->0.poisoned()
        &&& self.context->0.ctx().0.max_soa_tracks >= self.nsoa() && self.output->0.content().len() >= self.nsoa()
    }
    pub open spec fn output_kept(&self, o: Self) -> bool {
        self.output.is_some() == o.output.is_some() && (self.output.is_some() ==> self.output->0.content() == o.output->0.content() && self.output->0.poisoned() == o.output->0.poisoned())
    }
//@fn src/sampling_job.rs SamplingJob::set_ratio
//@spec
    ensures final(self).ratio.v() == (if ratio.v() < 0real { 0real } else if ratio.v() > 1real { 1real } else { ratio.v() }),
        final(self).animation == old(self).animation, final(self).context == old(self).context, final(self).output == old(self).output,
//@end
//@fn src/sampling_job.rs SamplingJob::validate
//@sub ^\s*\(\|\| ==>
//@sub \)\(\)\s*\.unwrap_or\(false\)\s*$ ==>
//@sub -> bool ==> -> Option<bool>
//@sub ok &= ([^;]*); ==> let c = \1; ok = ok && c;
//@ret r
//@spec
    ensures (r == Some(true)) == self.valid()
//@end
//@fn src/sampling_job.rs SamplingJob::run
//@sub \bSelf:: ==>
//@sub ok &= ([^;]*); ==> let c = \1; ok = ok && c;
//@sub &mut output\) ==> output)
//@ret r
//@spec
    requires old(self).valid() ==> animation_ok(old(self).anim(), old(self).ratio) && coherent(old(self).anim(), &old(self).context->0.ctx()),
    ensures
        final(self).animation == old(self).animation, final(self).ratio == old(self).ratio, final(self).context.is_some() == old(self).context.is_some(),
        r.is_ok() == old(self).valid(),
        r.is_err() ==> old(self).output_kept(*final(self)) && (r->Err_0 == OzzError::InvalidJob || r->Err_0 == OzzError::LockPoison),
        old(self).animation.is_some() && old(self).context.is_some() && old(self).output.is_some() && old(self).output->0.poisoned()
            ==> r.is_err() && r->Err_0 == OzzError::LockPoison,
        r.is_err() && old(self).context.is_some() ==> final(self).context->0.ctx() == old(self).context->0.ctx(),
        r.is_ok() ==> final(self).output.is_some() && tail_kept(old(self).output->0.content(), final(self).output->0.content(), old(self).nsoa()),
        r.is_ok() ==> coherent(old(self).anim(), &final(self).context->0.ctx()),
        r.is_ok() && old(self).nsoa() > 0 ==> final(self).context->0.ctx().0.animation_id == addr(old(self).anim()) && ready(old(self).anim(), old(self).ratio, &final(self).context->0.ctx()),
        r.is_ok() ==> forall|i: int, l: int| joint(i, l, old(self).nsoa()) ==> #[trigger] joint_of(final(self).output->0.content()[i], l) == ({
            let c = final(self).context->0.ctx();
            sample(old(self).anim(), old(self).ratio, c.t().e, c.r().e, c.s().e, i, l) }),
//@after let prev_ratio = step_context(ctx.as_mut(), anim, self.ratio)
    let ghost c0 = ctx.ctx();
//@after update_cache(args, anim, &anim.translations_ctrl(), self.ratio, prev_ratio)
    let ghost t1 = ctx.ctx();
    proof { t_pre(anim, self.ratio, t1.t()); }
//@after let args = ctx.as_mut().translation_decompress_args(anim)
    let ghost to = args.outdated@;
    proof {
        assert(wf(anim.tk().r, anim.tk().p, anim.tp(), anim.tc().len() as int, args.entries@, anim.nsoa()));
        front_flags(t1.t().o, (anim.nsoa() + 7) / 8);
        assert(none_beyond(args.outdated@, anim.nsoa()));
    }
//@after decompress_float3(args, anim.timepoints(), &anim.translations_ctrl(), anim.translations())
    let ghost t2 = ctx.ctx();
    proof {
        front_flags(t2.t().o, (anim.nsoa() + 7) / 8);
        let f = t2.t().o.take((anim.nsoa() + 7) / 8);
        assert forall|i: int| 0 <= i < 8 * ((anim.nsoa() + 7) / 8) && #[trigger] flag(t2.t().o, i) implies flag(t1.t().o, i) by { assert(flag(f, i)); assert(flag(to, i)); }
        assert forall|i: int| 0 <= i < anim.nsoa() && #[trigger] flag(t1.t().o, i) implies tg(anim, t1.t().e, i, t2.t().v[i]) by { assert(flag(to, i)); }
        assert forall|i: int| 0 <= i < anim.nsoa() && !flag(t1.t().o, i) implies #[trigger] t2.t().v[i] == t1.t().v[i] by { assert(!flag(to, i)); }
    }
    proof { t_step(anim, self.ratio, c0.t(), t1.t(), t2.t()); }
//@after update_cache(args, anim, &anim.rotations_ctrl(), self.ratio, prev_ratio)
    let ghost r1 = ctx.ctx();
    proof { r_pre(anim, self.ratio, r1.r()); }
//@after let args = ctx.as_mut().rotation_decompress_args(anim)
    let ghost ro = args.outdated@;
    proof {
        assert(wf(anim.rk().r, anim.rk().p, anim.tp(), anim.rc().len() as int, args.entries@, anim.nsoa()));
        front_flags(r1.r().o, (anim.nsoa() + 7) / 8);
        assert(none_beyond(args.outdated@, anim.nsoa()));
    }
//@after decompress_quat(args, anim.timepoints(), &anim.rotations_ctrl(), anim.rotations())
    let ghost r2 = ctx.ctx();
    proof {
        front_flags(r2.r().o, (anim.nsoa() + 7) / 8);
        let f = r2.r().o.take((anim.nsoa() + 7) / 8);
        assert forall|i: int| 0 <= i < 8 * ((anim.nsoa() + 7) / 8) && #[trigger] flag(r2.r().o, i) implies flag(r1.r().o, i) by { assert(flag(f, i)); assert(flag(ro, i)); }
        assert forall|i: int| 0 <= i < anim.nsoa() && #[trigger] flag(r1.r().o, i) implies rg(anim, r1.r().e, i, r2.r().v[i]) by { assert(flag(ro, i)); }
        assert forall|i: int| 0 <= i < anim.nsoa() && !flag(r1.r().o, i) implies #[trigger] r2.r().v[i] == r1.r().v[i] by { assert(!flag(ro, i)); }
    }
    proof { r_step(anim, self.ratio, c0.r(), r1.r(), r2.r()); }
//@after update_cache(args, anim, &anim.scales_ctrl(), self.ratio, prev_ratio)
    let ghost s1 = ctx.ctx();
    proof { s_pre(anim, self.ratio, s1.s()); }
//@after let args = ctx.as_mut().scale_decompress_args(anim)
    let ghost so = args.outdated@;
    proof {
        assert(wf(anim.sk().r, anim.sk().p, anim.tp(), anim.sc().len() as int, args.entries@, anim.nsoa()));
        front_flags(s1.s().o, (anim.nsoa() + 7) / 8);
        assert(none_beyond(args.outdated@, anim.nsoa()));
    }
//@after decompress_float3(args, anim.timepoints(), &anim.scales_ctrl(), anim.scales())
    let ghost s2 = ctx.ctx();
    proof {
        front_flags(s2.s().o, (anim.nsoa() + 7) / 8);
        let f = s2.s().o.take((anim.nsoa() + 7) / 8);
        assert forall|i: int| 0 <= i < 8 * ((anim.nsoa() + 7) / 8) && #[trigger] flag(s2.s().o, i) implies flag(s1.s().o, i) by { assert(flag(f, i)); assert(flag(so, i)); }
        assert forall|i: int| 0 <= i < anim.nsoa() && #[trigger] flag(s1.s().o, i) implies sg(anim, s1.s().e, i, s2.s().v[i]) by { assert(flag(so, i)); }
        assert forall|i: int| 0 <= i < anim.nsoa() && !flag(s1.s().o, i) implies #[trigger] s2.s().v[i] == s1.s().v[i] by { assert(!flag(so, i)); }
    }
    proof { s_step(anim, self.ratio, c0.s(), s1.s(), s2.s()); }
//@end
}

// C01: two contexts that are ready at the same ratio, whatever happened to them before, give the same samples.
pub proof fn same_ratio_same_sample(a: &Animation, x: F, c: &SamplingContext, d: &SamplingContext, i: int, l: int)
    requires animation_ok(a, x), ready(a, x, c), ready(a, x, d), joint(i, l, a.nsoa())
    ensures sample(a, x, c.t().e, c.r().e, c.s().e, i, l) == sample(a, x, d.t().e, d.r().e, d.s().e, i, l)
{
    let w = 4 * a.nsoa();
    cache_is_a_function_of_the_ratio(a.tk().r, a.tk().p, a.tp(), w, a.n(), x, c.t().next, c.t().e, d.t().next, d.t().e);
    assert(c.t().e[4 * i + l] == d.t().e[4 * i + l]);
    cache_is_a_function_of_the_ratio(a.rk().r, a.rk().p, a.tp(), w, a.n(), x, c.r().next, c.r().e, d.r().next, d.r().e);
    assert(c.r().e[4 * i + l] == d.r().e[4 * i + l]);
    cache_is_a_function_of_the_ratio(a.sk().r, a.sk().p, a.tp(), w, a.n(), x, c.s().next, c.s().e, d.s().next, d.s().e);
    assert(c.s().e[4 * i + l] == d.s().e[4 * i + l]);
}
// A context just cleared (or made: animation_id and the three positions are 0) can sample any animation; one that served an
// animation can sample any other.
pub proof fn any_animation(a: &Animation, c: &SamplingContext)
    requires c.whole(), c.0.animation_id != addr(a) || (c.t().next == 0 && c.r().next == 0 && c.s().next == 0)
    ensures coherent(a, c)
{}
// C02: the cached key of track t is the first one after the ratio, or the last of its track; the key before it is not after.
pub proof fn brackets(k: Keys, tp: Seq<F>, w: int, nt: int, x: F, n: int, e: Seq<u32>, t: int, m: int)
    requires wf_keys(k.r, k.p, tp, w, nt), wf_ratio(k.r, tp, w, x), at_ratio(k.r, k.p, tp, w, x, n, e), 0 <= t < w, 0 <= m < k.p.len()
    ensures
        tr(k.p, w, e[t] as int) == t, tr(k.p, w, left(k.p, e[t])) == t, tp[k.r[left(k.p, e[t])] as int].v() <= x.v(),
        // a later key of the track, of which the cached one is the predecessor: the cached one is after the ratio
        m > e[t] && tr(k.p, w, m) == t && m - k.p[m] == e[t] ==> tp[k.r[e[t] as int] as int].v() > x.v(),
{
    let (r, p) = (k.r, k.p);
    let en = e[t] as int;
    assert(0 <= e[t] < n && en >= w);
    tr_of(p, w, en);
    if en < 2 * w {
        assert(p[en] == w);
        tr_of(p, w, en - w);
        assert(kt(r, tp, en - w) <= rank(x));
    } else {
        assert(en - p[en] >= w);
        tr_of(p, w, en - p[en]);
        assert(ent(r, p, tp, en) <= ent(r, p, tp, n - 1));
    }
    if m > e[t] && tr(p, w, m) == t && m - p[m] == e[t] {
        assert(m >= n);
        assert(ent(r, p, tp, n) <= ent(r, p, tp, m));
    }
}
// C02: on a key the sample is that key, half way between two keys it is in the middle, and it never leaves the segment.
pub proof fn on_a_key(a: V3, b: V3, x: real, t0: real, t1: real)
    requires t0 < t1
    ensures lerp3(a, b, along(t0, t0, t1)) == a, lerp3(a, b, along(t1, t0, t1)) == b, t0 <= x <= t1 ==> 0real <= along(x, t0, t1) <= 1real
{
    let f = along(t0, t0, t1);
    let g = along(t1, t0, t1);
    assert(f == 0real) by (nonlinear_arith) requires f == (t0 - t0) / (t1 - t0), t0 < t1;
    assert(g == 1real) by (nonlinear_arith) requires g == (t1 - t0) / (t1 - t0), t0 < t1;
    scaled(b.x - a.x); scaled(b.y - a.y); scaled(b.z - a.z);
    if t0 <= x <= t1 {
        let h = along(x, t0, t1);
        assert(0real <= h <= 1real) by (nonlinear_arith) requires h == (x - t0) / (t1 - t0), t0 < t1, t0 <= x <= t1;
    }
}
proof fn scaled(d: real) ensures d * 0real == 0real, d * 1real == d {}
// the same for rotations, before they are normalised
pub proof fn on_a_rotation(a: V4, b: V4, t0: real, t1: real)
    requires t0 < t1
    ensures lerp4(a, b, along(t0, t0, t1)) == a, lerp4(a, b, along(t1, t0, t1)) == b
{
    let f = along(t0, t0, t1);
    let g = along(t1, t0, t1);
    assert(f == 0real) by (nonlinear_arith) requires f == (t0 - t0) / (t1 - t0), t0 < t1;
    assert(g == 1real) by (nonlinear_arith) requires g == (t1 - t0) / (t1 - t0), t0 < t1;
    scaled(b.x - a.x); scaled(b.y - a.y); scaled(b.z - a.z); scaled(b.w - a.w);
}
// the rotation that comes out has length one
pub proof fn unit(q: V4)
    requires q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w > 0real
    ensures ({ let n = norm4(q); n.x * n.x + n.y * n.y + n.z * n.z + n.w * n.w == 1real })
{
    let s = q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w;
    let h = rsqrt(s);
    rsqrt_ax(s);
    assert(h != 0real) by (nonlinear_arith) requires h * h == s, s > 0real;
    let k = 1real / h;
    assert(k * k * s == 1real) by (nonlinear_arith) requires k == 1real / h, h != 0real, h * h == s;
    scaled_sq4(q.x, q.y, q.z, q.w, k);
}
//@ring scaled_sq4 x y z w k
    (x * k) * (x * k) + (y * k) * (y * k) + (z * k) * (z * k) + (w * k) * (w * k) == k * k * (x * x + y * y + z * z + w * w);
//@end
}
