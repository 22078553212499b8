// C06: what loading an animation, a skeleton or a track from an archive yields (written by tools/gen_load.py).
#![allow(non_camel_case_types, non_snake_case, unused)]
use vstd::prelude::*;
verus! {
//@use archive
//@include mem.rs
pub uninterp spec fn bytes(s: Seq<char>) -> Seq<u8>;
impl Text {
    #[verifier::external_body]
    fn differs(&self, s: &str) -> (r: bool) ensures r == (self.g@ != bytes(s@)) { unimplemented!() }
}
#[verifier::inline]
pub open spec fn left<T>(o: Option<(T, Seq<u8>)>) -> Seq<u8> { o->Some_0.1 }
// A name of n bytes
pub open spec fn text_take(s: Seq<u8>, sw: bool, n: nat) -> Option<(Text, Seq<u8>)> {
    if n == 0 { Some((Text { g: Ghost(Seq::empty()) }, s)) } else {
        match many::<u8, u8>(s, sw, n) { None => None, Some((b, r)) => if utf8(b) { Some((Text { g: Ghost(b) }, r)) } else { None } } }
}
// n key times, of one or two bytes
pub open spec fn ratios_take(s: Seq<u8>, sw: bool, n: nat, small: bool) -> Option<(Seq<u16>, Seq<u8>)> {
    if small { match many::<u8, u8>(s, sw, n) { None => None, Some((b, r)) => Some((b.map_values(|x: u8| x as u16), r)) } }
    else { many::<u16, u16>(s, sw, n) }
}
// Another tag or version gives the error of that kind.
pub open spec fn kinds<T>(s: Seq<u8>, sw: bool, r: Result<T, OzzError>, tag: Seq<char>, version: u32) -> bool {
    match Text::take(s, sw) { None => true, Some((t, s1)) =>
        if t.g@ != bytes(tag) { r == Err::<T, OzzError>(OzzError::InvalidTag) } else {
            match u32::take(s1, sw) { None => true, Some((v, _)) => v != version ==> r == Err::<T, OzzError>(OzzError::InvalidVersion) } } }
}

//@item src/animation.rs struct Animation
//@sub \*mut (\w+) ==> Vec<\1>
//@sub? \bString\b ==> Text
//@sub? (?m)^\s*struct ==> pub struct
//@sub (?m)^(\s+)(?:pub )?(\w+): ==> \1pub \2:
//@end
//@item src/animation.rs struct AnimationMeta
//@sub? \bString\b ==> Text
//@end
impl Animation {
    // Every region has the length its count declares.
    pub open spec fn wf(&self) -> bool {
        &&& self.timepoints@.len() == self.timepoints_count
        &&& self.translations@.len() == self.translations_count
        &&& self.t_ratios@.len() == self.translations_count
        &&& self.t_previouses@.len() == self.translations_count
        &&& self.t_iframe_entries@.len() == self.t_iframe_entries_count
        &&& self.t_iframe_desc@.len() == self.t_iframe_desc_count
        &&& self.rotations@.len() == self.rotations_count
        &&& self.r_ratios@.len() == self.rotations_count
        &&& self.r_previouses@.len() == self.rotations_count
        &&& self.r_iframe_entries@.len() == self.r_iframe_entries_count
        &&& self.r_iframe_desc@.len() == self.r_iframe_desc_count
        &&& self.scales@.len() == self.scales_count
        &&& self.s_ratios@.len() == self.scales_count
        &&& self.s_previouses@.len() == self.scales_count
        &&& self.s_iframe_entries@.len() == self.s_iframe_entries_count
        &&& self.s_iframe_desc@.len() == self.s_iframe_desc_count
    }
    // Allocation and carving of the regions: the subject of template layout.
    #[verifier::external_body]
    fn new(meta: AnimationMeta) -> (r: Animation)
        ensures r.wf(), r.name == meta.name, r.duration == meta.duration, r.num_tracks == meta.num_tracks, r.timepoints_count == meta.timepoints_count, r.translations_count == meta.translations_count, r.t_iframe_entries_count == meta.t_iframe_entries_count, r.t_iframe_desc_count == meta.t_iframe_desc_count, r.rotations_count == meta.rotations_count, r.r_iframe_entries_count == meta.r_iframe_entries_count, r.r_iframe_desc_count == meta.r_iframe_desc_count, r.scales_count == meta.scales_count, r.s_iframe_entries_count == meta.s_iframe_entries_count, r.s_iframe_desc_count == meta.s_iframe_desc_count
    { unimplemented!() }
//@fn src/animation.rs Animation::timepoints
//@sub unsafe \{ slice::from_raw_parts\(self\.timepoints, (.*)\) \} ==> prefix(&self.timepoints, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.timepoints@
//@begin
    proof { assert(self.timepoints@.take(self.timepoints@.len() as int) =~= self.timepoints@); }
//@end
//@fn src/animation.rs Animation::timepoints_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.timepoints, (.*)\) \} ==> prefix_mut(&mut self.timepoints, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).timepoints@, final(r)@.len() == r@.len(), final(self).timepoints@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { timepoints: final(self).timepoints, ..*old(self) })
//@begin
    proof {
        assert(self.timepoints@.take(self.timepoints@.len() as int) =~= self.timepoints@);
        assert(forall|x: Seq<f32>| (#[trigger] (x + self.timepoints@.skip(self.timepoints@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::translations
//@sub unsafe \{ slice::from_raw_parts\(self\.translations, (.*)\) \} ==> prefix(&self.translations, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.translations@
//@begin
    proof { assert(self.translations@.take(self.translations@.len() as int) =~= self.translations@); }
//@end
//@fn src/animation.rs Animation::translations_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.translations, (.*)\) \} ==> prefix_mut(&mut self.translations, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).translations@, final(r)@.len() == r@.len(), final(self).translations@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { translations: final(self).translations, ..*old(self) })
//@begin
    proof {
        assert(self.translations@.take(self.translations@.len() as int) =~= self.translations@);
        assert(forall|x: Seq<Float3Key>| (#[trigger] (x + self.translations@.skip(self.translations@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::t_ratios
//@sub unsafe \{ slice::from_raw_parts\(self\.t_ratios, (.*)\) \} ==> prefix(&self.t_ratios, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.t_ratios@
//@begin
    proof { assert(self.t_ratios@.take(self.t_ratios@.len() as int) =~= self.t_ratios@); }
//@end
//@fn src/animation.rs Animation::t_ratios_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.t_ratios, (.*)\) \} ==> prefix_mut(&mut self.t_ratios, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).t_ratios@, final(r)@.len() == r@.len(), final(self).t_ratios@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { t_ratios: final(self).t_ratios, ..*old(self) })
//@begin
    proof {
        assert(self.t_ratios@.take(self.t_ratios@.len() as int) =~= self.t_ratios@);
        assert(forall|x: Seq<u16>| (#[trigger] (x + self.t_ratios@.skip(self.t_ratios@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::t_previouses
//@sub unsafe \{ slice::from_raw_parts\(self\.t_previouses, (.*)\) \} ==> prefix(&self.t_previouses, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.t_previouses@
//@begin
    proof { assert(self.t_previouses@.take(self.t_previouses@.len() as int) =~= self.t_previouses@); }
//@end
//@fn src/animation.rs Animation::t_previouses_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.t_previouses, (.*)\) \} ==> prefix_mut(&mut self.t_previouses, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).t_previouses@, final(r)@.len() == r@.len(), final(self).t_previouses@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { t_previouses: final(self).t_previouses, ..*old(self) })
//@begin
    proof {
        assert(self.t_previouses@.take(self.t_previouses@.len() as int) =~= self.t_previouses@);
        assert(forall|x: Seq<u16>| (#[trigger] (x + self.t_previouses@.skip(self.t_previouses@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::t_iframe_entries
//@sub unsafe \{ slice::from_raw_parts\(self\.t_iframe_entries, (.*)\) \} ==> prefix(&self.t_iframe_entries, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.t_iframe_entries@
//@begin
    proof { assert(self.t_iframe_entries@.take(self.t_iframe_entries@.len() as int) =~= self.t_iframe_entries@); }
//@end
//@fn src/animation.rs Animation::t_iframe_entries_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.t_iframe_entries, (.*)\) \} ==> prefix_mut(&mut self.t_iframe_entries, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).t_iframe_entries@, final(r)@.len() == r@.len(), final(self).t_iframe_entries@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { t_iframe_entries: final(self).t_iframe_entries, ..*old(self) })
//@begin
    proof {
        assert(self.t_iframe_entries@.take(self.t_iframe_entries@.len() as int) =~= self.t_iframe_entries@);
        assert(forall|x: Seq<u8>| (#[trigger] (x + self.t_iframe_entries@.skip(self.t_iframe_entries@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::t_iframe_desc
//@sub unsafe \{ slice::from_raw_parts\(self\.t_iframe_desc, (.*)\) \} ==> prefix(&self.t_iframe_desc, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.t_iframe_desc@
//@begin
    proof { assert(self.t_iframe_desc@.take(self.t_iframe_desc@.len() as int) =~= self.t_iframe_desc@); }
//@end
//@fn src/animation.rs Animation::t_iframe_desc_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.t_iframe_desc, (.*)\) \} ==> prefix_mut(&mut self.t_iframe_desc, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).t_iframe_desc@, final(r)@.len() == r@.len(), final(self).t_iframe_desc@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { t_iframe_desc: final(self).t_iframe_desc, ..*old(self) })
//@begin
    proof {
        assert(self.t_iframe_desc@.take(self.t_iframe_desc@.len() as int) =~= self.t_iframe_desc@);
        assert(forall|x: Seq<u32>| (#[trigger] (x + self.t_iframe_desc@.skip(self.t_iframe_desc@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::rotations
//@sub unsafe \{ slice::from_raw_parts\(self\.rotations, (.*)\) \} ==> prefix(&self.rotations, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.rotations@
//@begin
    proof { assert(self.rotations@.take(self.rotations@.len() as int) =~= self.rotations@); }
//@end
//@fn src/animation.rs Animation::rotations_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.rotations, (.*)\) \} ==> prefix_mut(&mut self.rotations, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).rotations@, final(r)@.len() == r@.len(), final(self).rotations@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { rotations: final(self).rotations, ..*old(self) })
//@begin
    proof {
        assert(self.rotations@.take(self.rotations@.len() as int) =~= self.rotations@);
        assert(forall|x: Seq<QuaternionKey>| (#[trigger] (x + self.rotations@.skip(self.rotations@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::r_ratios
//@sub unsafe \{ slice::from_raw_parts\(self\.r_ratios, (.*)\) \} ==> prefix(&self.r_ratios, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.r_ratios@
//@begin
    proof { assert(self.r_ratios@.take(self.r_ratios@.len() as int) =~= self.r_ratios@); }
//@end
//@fn src/animation.rs Animation::r_ratios_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.r_ratios, (.*)\) \} ==> prefix_mut(&mut self.r_ratios, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).r_ratios@, final(r)@.len() == r@.len(), final(self).r_ratios@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { r_ratios: final(self).r_ratios, ..*old(self) })
//@begin
    proof {
        assert(self.r_ratios@.take(self.r_ratios@.len() as int) =~= self.r_ratios@);
        assert(forall|x: Seq<u16>| (#[trigger] (x + self.r_ratios@.skip(self.r_ratios@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::r_previouses
//@sub unsafe \{ slice::from_raw_parts\(self\.r_previouses, (.*)\) \} ==> prefix(&self.r_previouses, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.r_previouses@
//@begin
    proof { assert(self.r_previouses@.take(self.r_previouses@.len() as int) =~= self.r_previouses@); }
//@end
//@fn src/animation.rs Animation::r_previouses_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.r_previouses, (.*)\) \} ==> prefix_mut(&mut self.r_previouses, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).r_previouses@, final(r)@.len() == r@.len(), final(self).r_previouses@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { r_previouses: final(self).r_previouses, ..*old(self) })
//@begin
    proof {
        assert(self.r_previouses@.take(self.r_previouses@.len() as int) =~= self.r_previouses@);
        assert(forall|x: Seq<u16>| (#[trigger] (x + self.r_previouses@.skip(self.r_previouses@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::r_iframe_entries
//@sub unsafe \{ slice::from_raw_parts\(self\.r_iframe_entries, (.*)\) \} ==> prefix(&self.r_iframe_entries, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.r_iframe_entries@
//@begin
    proof { assert(self.r_iframe_entries@.take(self.r_iframe_entries@.len() as int) =~= self.r_iframe_entries@); }
//@end
//@fn src/animation.rs Animation::r_iframe_entries_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.r_iframe_entries, (.*)\) \} ==> prefix_mut(&mut self.r_iframe_entries, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).r_iframe_entries@, final(r)@.len() == r@.len(), final(self).r_iframe_entries@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { r_iframe_entries: final(self).r_iframe_entries, ..*old(self) })
//@begin
    proof {
        assert(self.r_iframe_entries@.take(self.r_iframe_entries@.len() as int) =~= self.r_iframe_entries@);
        assert(forall|x: Seq<u8>| (#[trigger] (x + self.r_iframe_entries@.skip(self.r_iframe_entries@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::r_iframe_desc
//@sub unsafe \{ slice::from_raw_parts\(self\.r_iframe_desc, (.*)\) \} ==> prefix(&self.r_iframe_desc, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.r_iframe_desc@
//@begin
    proof { assert(self.r_iframe_desc@.take(self.r_iframe_desc@.len() as int) =~= self.r_iframe_desc@); }
//@end
//@fn src/animation.rs Animation::r_iframe_desc_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.r_iframe_desc, (.*)\) \} ==> prefix_mut(&mut self.r_iframe_desc, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).r_iframe_desc@, final(r)@.len() == r@.len(), final(self).r_iframe_desc@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { r_iframe_desc: final(self).r_iframe_desc, ..*old(self) })
//@begin
    proof {
        assert(self.r_iframe_desc@.take(self.r_iframe_desc@.len() as int) =~= self.r_iframe_desc@);
        assert(forall|x: Seq<u32>| (#[trigger] (x + self.r_iframe_desc@.skip(self.r_iframe_desc@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::scales
//@sub unsafe \{ slice::from_raw_parts\(self\.scales, (.*)\) \} ==> prefix(&self.scales, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.scales@
//@begin
    proof { assert(self.scales@.take(self.scales@.len() as int) =~= self.scales@); }
//@end
//@fn src/animation.rs Animation::scales_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.scales, (.*)\) \} ==> prefix_mut(&mut self.scales, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).scales@, final(r)@.len() == r@.len(), final(self).scales@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { scales: final(self).scales, ..*old(self) })
//@begin
    proof {
        assert(self.scales@.take(self.scales@.len() as int) =~= self.scales@);
        assert(forall|x: Seq<Float3Key>| (#[trigger] (x + self.scales@.skip(self.scales@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::s_ratios
//@sub unsafe \{ slice::from_raw_parts\(self\.s_ratios, (.*)\) \} ==> prefix(&self.s_ratios, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.s_ratios@
//@begin
    proof { assert(self.s_ratios@.take(self.s_ratios@.len() as int) =~= self.s_ratios@); }
//@end
//@fn src/animation.rs Animation::s_ratios_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.s_ratios, (.*)\) \} ==> prefix_mut(&mut self.s_ratios, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).s_ratios@, final(r)@.len() == r@.len(), final(self).s_ratios@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { s_ratios: final(self).s_ratios, ..*old(self) })
//@begin
    proof {
        assert(self.s_ratios@.take(self.s_ratios@.len() as int) =~= self.s_ratios@);
        assert(forall|x: Seq<u16>| (#[trigger] (x + self.s_ratios@.skip(self.s_ratios@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::s_previouses
//@sub unsafe \{ slice::from_raw_parts\(self\.s_previouses, (.*)\) \} ==> prefix(&self.s_previouses, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.s_previouses@
//@begin
    proof { assert(self.s_previouses@.take(self.s_previouses@.len() as int) =~= self.s_previouses@); }
//@end
//@fn src/animation.rs Animation::s_previouses_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.s_previouses, (.*)\) \} ==> prefix_mut(&mut self.s_previouses, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).s_previouses@, final(r)@.len() == r@.len(), final(self).s_previouses@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { s_previouses: final(self).s_previouses, ..*old(self) })
//@begin
    proof {
        assert(self.s_previouses@.take(self.s_previouses@.len() as int) =~= self.s_previouses@);
        assert(forall|x: Seq<u16>| (#[trigger] (x + self.s_previouses@.skip(self.s_previouses@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::s_iframe_entries
//@sub unsafe \{ slice::from_raw_parts\(self\.s_iframe_entries, (.*)\) \} ==> prefix(&self.s_iframe_entries, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.s_iframe_entries@
//@begin
    proof { assert(self.s_iframe_entries@.take(self.s_iframe_entries@.len() as int) =~= self.s_iframe_entries@); }
//@end
//@fn src/animation.rs Animation::s_iframe_entries_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.s_iframe_entries, (.*)\) \} ==> prefix_mut(&mut self.s_iframe_entries, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).s_iframe_entries@, final(r)@.len() == r@.len(), final(self).s_iframe_entries@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { s_iframe_entries: final(self).s_iframe_entries, ..*old(self) })
//@begin
    proof {
        assert(self.s_iframe_entries@.take(self.s_iframe_entries@.len() as int) =~= self.s_iframe_entries@);
        assert(forall|x: Seq<u8>| (#[trigger] (x + self.s_iframe_entries@.skip(self.s_iframe_entries@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::s_iframe_desc
//@sub unsafe \{ slice::from_raw_parts\(self\.s_iframe_desc, (.*)\) \} ==> prefix(&self.s_iframe_desc, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.s_iframe_desc@
//@begin
    proof { assert(self.s_iframe_desc@.take(self.s_iframe_desc@.len() as int) =~= self.s_iframe_desc@); }
//@end
//@fn src/animation.rs Animation::s_iframe_desc_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.s_iframe_desc, (.*)\) \} ==> prefix_mut(&mut self.s_iframe_desc, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).s_iframe_desc@, final(r)@.len() == r@.len(), final(self).s_iframe_desc@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { s_iframe_desc: final(self).s_iframe_desc, ..*old(self) })
//@begin
    proof {
        assert(self.s_iframe_desc@.take(self.s_iframe_desc@.len() as int) =~= self.s_iframe_desc@);
        assert(forall|x: Seq<u32>| (#[trigger] (x + self.s_iframe_desc@.skip(self.s_iframe_desc@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::tag
//@ret r
//@spec
    ensures r@ == "ozz-animation"@
//@end
//@fn src/animation.rs Animation::version
//@ret r
//@spec
    ensures r == 7
//@end

    pub open spec fn meta_take(s: Seq<u8>, sw: bool) -> Option<(AnimationMeta, Seq<u8>)> {
        let tag = Text::take(s, sw);
        let ver = u32::take(left(tag), sw);
        let duration = f32::take(left(ver), sw);
        let num_tracks = u32::take(left(duration), sw);
        let name_len = u32::take(left(num_tracks), sw);
        let timepoints_count = u32::take(left(name_len), sw);
        let translations_count = u32::take(left(timepoints_count), sw);
        let rotations_count = u32::take(left(translations_count), sw);
        let scales_count = u32::take(left(rotations_count), sw);
        let t_iframe_entries_count = u32::take(left(scales_count), sw);
        let t_iframe_desc_count = u32::take(left(t_iframe_entries_count), sw);
        let r_iframe_entries_count = u32::take(left(t_iframe_desc_count), sw);
        let r_iframe_desc_count = u32::take(left(r_iframe_entries_count), sw);
        let s_iframe_entries_count = u32::take(left(r_iframe_desc_count), sw);
        let s_iframe_desc_count = u32::take(left(s_iframe_entries_count), sw);
        let name = text_take(left(s_iframe_desc_count), sw, name_len->Some_0.0 as nat);
        if tag is Some && ver is Some && duration is Some && num_tracks is Some && name_len is Some && timepoints_count is Some && translations_count is Some && rotations_count is Some && scales_count is Some && t_iframe_entries_count is Some && t_iframe_desc_count is Some && r_iframe_entries_count is Some && r_iframe_desc_count is Some && s_iframe_entries_count is Some && s_iframe_desc_count is Some && name is Some && tag->Some_0.0.g@ == bytes("ozz-animation"@) && ver->Some_0.0 == 7 {
            Some((AnimationMeta { version: 7, name: name->Some_0.0, duration: duration->Some_0.0, num_tracks: num_tracks->Some_0.0, timepoints_count: timepoints_count->Some_0.0, translations_count: translations_count->Some_0.0, t_iframe_entries_count: t_iframe_entries_count->Some_0.0, t_iframe_desc_count: t_iframe_desc_count->Some_0.0, rotations_count: rotations_count->Some_0.0, r_iframe_entries_count: r_iframe_entries_count->Some_0.0, r_iframe_desc_count: r_iframe_desc_count->Some_0.0, scales_count: scales_count->Some_0.0, s_iframe_entries_count: s_iframe_entries_count->Some_0.0, s_iframe_desc_count: s_iframe_desc_count->Some_0.0 }, left(name)))
        } else { None }
    }

    // a is the animation in the bytes s that follow its meta data m, rest what follows it
    pub open spec fn holds(a: Animation, m: AnimationMeta, s: Seq<u8>, sw: bool, rest: Seq<u8>) -> bool {
        let timepoints = many::<f32, f32>(s, sw, m.timepoints_count as nat);
        let t_ratios = ratios_take(left(timepoints), sw, m.translations_count as nat, m.timepoints_count <= 255);
        let t_previouses = many::<u16, u16>(left(t_ratios), sw, m.translations_count as nat);
        let t_iframe_entries = many::<u8, u8>(left(t_previouses), sw, m.t_iframe_entries_count as nat);
        let t_iframe_desc = many::<u32, u32>(left(t_iframe_entries), sw, m.t_iframe_desc_count as nat);
        let t_iframe_interval = f32::take(left(t_iframe_desc), sw);
        let translations = many::<Float3Key, Float3Key>(left(t_iframe_interval), sw, m.translations_count as nat);
        let r_ratios = ratios_take(left(translations), sw, m.rotations_count as nat, m.timepoints_count <= 255);
        let r_previouses = many::<u16, u16>(left(r_ratios), sw, m.rotations_count as nat);
        let r_iframe_entries = many::<u8, u8>(left(r_previouses), sw, m.r_iframe_entries_count as nat);
        let r_iframe_desc = many::<u32, u32>(left(r_iframe_entries), sw, m.r_iframe_desc_count as nat);
        let r_iframe_interval = f32::take(left(r_iframe_desc), sw);
        let rotations = many::<QuaternionKey, QuaternionKey>(left(r_iframe_interval), sw, m.rotations_count as nat);
        let s_ratios = ratios_take(left(rotations), sw, m.scales_count as nat, m.timepoints_count <= 255);
        let s_previouses = many::<u16, u16>(left(s_ratios), sw, m.scales_count as nat);
        let s_iframe_entries = many::<u8, u8>(left(s_previouses), sw, m.s_iframe_entries_count as nat);
        let s_iframe_desc = many::<u32, u32>(left(s_iframe_entries), sw, m.s_iframe_desc_count as nat);
        let s_iframe_interval = f32::take(left(s_iframe_desc), sw);
        let scales = many::<Float3Key, Float3Key>(left(s_iframe_interval), sw, m.scales_count as nat);
        &&& timepoints is Some
        &&& t_ratios is Some
        &&& t_previouses is Some
        &&& t_iframe_entries is Some
        &&& t_iframe_desc is Some
        &&& t_iframe_interval is Some
        &&& translations is Some
        &&& r_ratios is Some
        &&& r_previouses is Some
        &&& r_iframe_entries is Some
        &&& r_iframe_desc is Some
        &&& r_iframe_interval is Some
        &&& rotations is Some
        &&& s_ratios is Some
        &&& s_previouses is Some
        &&& s_iframe_entries is Some
        &&& s_iframe_desc is Some
        &&& s_iframe_interval is Some
        &&& scales is Some
        &&& rest == left(scales)
        &&& a.wf() && a.name == m.name
        &&& a.duration == m.duration
        &&& a.num_tracks == m.num_tracks
        &&& a.timepoints_count == m.timepoints_count
        &&& a.translations_count == m.translations_count
        &&& a.t_iframe_entries_count == m.t_iframe_entries_count
        &&& a.t_iframe_desc_count == m.t_iframe_desc_count
        &&& a.rotations_count == m.rotations_count
        &&& a.r_iframe_entries_count == m.r_iframe_entries_count
        &&& a.r_iframe_desc_count == m.r_iframe_desc_count
        &&& a.scales_count == m.scales_count
        &&& a.s_iframe_entries_count == m.s_iframe_entries_count
        &&& a.s_iframe_desc_count == m.s_iframe_desc_count
        &&& a.timepoints@ == timepoints->Some_0.0
        &&& a.t_ratios@ == t_ratios->Some_0.0
        &&& a.t_previouses@ == t_previouses->Some_0.0
        &&& a.t_iframe_entries@ == t_iframe_entries->Some_0.0
        &&& a.t_iframe_desc@ == t_iframe_desc->Some_0.0
        &&& a.t_iframe_interval == t_iframe_interval->Some_0.0
        &&& a.translations@ == translations->Some_0.0
        &&& a.r_ratios@ == r_ratios->Some_0.0
        &&& a.r_previouses@ == r_previouses->Some_0.0
        &&& a.r_iframe_entries@ == r_iframe_entries->Some_0.0
        &&& a.r_iframe_desc@ == r_iframe_desc->Some_0.0
        &&& a.r_iframe_interval == r_iframe_interval->Some_0.0
        &&& a.rotations@ == rotations->Some_0.0
        &&& a.s_ratios@ == s_ratios->Some_0.0
        &&& a.s_previouses@ == s_previouses->Some_0.0
        &&& a.s_iframe_entries@ == s_iframe_entries->Some_0.0
        &&& a.s_iframe_desc@ == s_iframe_desc->Some_0.0
        &&& a.s_iframe_interval == s_iframe_interval->Some_0.0
        &&& a.scales@ == scales->Some_0.0
    }
    pub open spec fn complete(m: AnimationMeta, s: Seq<u8>, sw: bool) -> bool {
        let timepoints = many::<f32, f32>(s, sw, m.timepoints_count as nat);
        let t_ratios = ratios_take(left(timepoints), sw, m.translations_count as nat, m.timepoints_count <= 255);
        let t_previouses = many::<u16, u16>(left(t_ratios), sw, m.translations_count as nat);
        let t_iframe_entries = many::<u8, u8>(left(t_previouses), sw, m.t_iframe_entries_count as nat);
        let t_iframe_desc = many::<u32, u32>(left(t_iframe_entries), sw, m.t_iframe_desc_count as nat);
        let t_iframe_interval = f32::take(left(t_iframe_desc), sw);
        let translations = many::<Float3Key, Float3Key>(left(t_iframe_interval), sw, m.translations_count as nat);
        let r_ratios = ratios_take(left(translations), sw, m.rotations_count as nat, m.timepoints_count <= 255);
        let r_previouses = many::<u16, u16>(left(r_ratios), sw, m.rotations_count as nat);
        let r_iframe_entries = many::<u8, u8>(left(r_previouses), sw, m.r_iframe_entries_count as nat);
        let r_iframe_desc = many::<u32, u32>(left(r_iframe_entries), sw, m.r_iframe_desc_count as nat);
        let r_iframe_interval = f32::take(left(r_iframe_desc), sw);
        let rotations = many::<QuaternionKey, QuaternionKey>(left(r_iframe_interval), sw, m.rotations_count as nat);
        let s_ratios = ratios_take(left(rotations), sw, m.scales_count as nat, m.timepoints_count <= 255);
        let s_previouses = many::<u16, u16>(left(s_ratios), sw, m.scales_count as nat);
        let s_iframe_entries = many::<u8, u8>(left(s_previouses), sw, m.s_iframe_entries_count as nat);
        let s_iframe_desc = many::<u32, u32>(left(s_iframe_entries), sw, m.s_iframe_desc_count as nat);
        let s_iframe_interval = f32::take(left(s_iframe_desc), sw);
        let scales = many::<Float3Key, Float3Key>(left(s_iframe_interval), sw, m.scales_count as nat);
        timepoints is Some && t_ratios is Some && t_previouses is Some && t_iframe_entries is Some && t_iframe_desc is Some && t_iframe_interval is Some && translations is Some && r_ratios is Some && r_previouses is Some && r_iframe_entries is Some && r_iframe_desc is Some && r_iframe_interval is Some && rotations is Some && s_ratios is Some && s_previouses is Some && s_iframe_entries is Some && s_iframe_desc is Some && s_iframe_interval is Some && scales is Some
    }
    pub open spec fn t_before(a: Animation, m: AnimationMeta, s: Seq<u8>, sw: bool) -> Option<Seq<u8>> {
        let timepoints = many::<f32, f32>(s, sw, m.timepoints_count as nat);
        if timepoints is Some && a.wf() && a.name == m.name && a.duration == m.duration && a.num_tracks == m.num_tracks && a.timepoints_count == m.timepoints_count && a.translations_count == m.translations_count && a.t_iframe_entries_count == m.t_iframe_entries_count && a.t_iframe_desc_count == m.t_iframe_desc_count && a.rotations_count == m.rotations_count && a.r_iframe_entries_count == m.r_iframe_entries_count && a.r_iframe_desc_count == m.r_iframe_desc_count && a.scales_count == m.scales_count && a.s_iframe_entries_count == m.s_iframe_entries_count && a.s_iframe_desc_count == m.s_iframe_desc_count && a.timepoints@ == timepoints->Some_0.0 { Some(left(timepoints)) } else { None }
    }
    pub open spec fn r_before(a: Animation, m: AnimationMeta, s: Seq<u8>, sw: bool) -> Option<Seq<u8>> {
        let timepoints = many::<f32, f32>(s, sw, m.timepoints_count as nat);
        let t_ratios = ratios_take(left(timepoints), sw, m.translations_count as nat, m.timepoints_count <= 255);
        let t_previouses = many::<u16, u16>(left(t_ratios), sw, m.translations_count as nat);
        let t_iframe_entries = many::<u8, u8>(left(t_previouses), sw, m.t_iframe_entries_count as nat);
        let t_iframe_desc = many::<u32, u32>(left(t_iframe_entries), sw, m.t_iframe_desc_count as nat);
        let t_iframe_interval = f32::take(left(t_iframe_desc), sw);
        let translations = many::<Float3Key, Float3Key>(left(t_iframe_interval), sw, m.translations_count as nat);
        if timepoints is Some && t_ratios is Some && t_previouses is Some && t_iframe_entries is Some && t_iframe_desc is Some && t_iframe_interval is Some && translations is Some && a.wf() && a.name == m.name && a.duration == m.duration && a.num_tracks == m.num_tracks && a.timepoints_count == m.timepoints_count && a.translations_count == m.translations_count && a.t_iframe_entries_count == m.t_iframe_entries_count && a.t_iframe_desc_count == m.t_iframe_desc_count && a.rotations_count == m.rotations_count && a.r_iframe_entries_count == m.r_iframe_entries_count && a.r_iframe_desc_count == m.r_iframe_desc_count && a.scales_count == m.scales_count && a.s_iframe_entries_count == m.s_iframe_entries_count && a.s_iframe_desc_count == m.s_iframe_desc_count && a.timepoints@ == timepoints->Some_0.0 && a.t_ratios@ == t_ratios->Some_0.0 && a.t_previouses@ == t_previouses->Some_0.0 && a.t_iframe_entries@ == t_iframe_entries->Some_0.0 && a.t_iframe_desc@ == t_iframe_desc->Some_0.0 && a.t_iframe_interval == t_iframe_interval->Some_0.0 && a.translations@ == translations->Some_0.0 { Some(left(translations)) } else { None }
    }
    pub open spec fn s_before(a: Animation, m: AnimationMeta, s: Seq<u8>, sw: bool) -> Option<Seq<u8>> {
        let timepoints = many::<f32, f32>(s, sw, m.timepoints_count as nat);
        let t_ratios = ratios_take(left(timepoints), sw, m.translations_count as nat, m.timepoints_count <= 255);
        let t_previouses = many::<u16, u16>(left(t_ratios), sw, m.translations_count as nat);
        let t_iframe_entries = many::<u8, u8>(left(t_previouses), sw, m.t_iframe_entries_count as nat);
        let t_iframe_desc = many::<u32, u32>(left(t_iframe_entries), sw, m.t_iframe_desc_count as nat);
        let t_iframe_interval = f32::take(left(t_iframe_desc), sw);
        let translations = many::<Float3Key, Float3Key>(left(t_iframe_interval), sw, m.translations_count as nat);
        let r_ratios = ratios_take(left(translations), sw, m.rotations_count as nat, m.timepoints_count <= 255);
        let r_previouses = many::<u16, u16>(left(r_ratios), sw, m.rotations_count as nat);
        let r_iframe_entries = many::<u8, u8>(left(r_previouses), sw, m.r_iframe_entries_count as nat);
        let r_iframe_desc = many::<u32, u32>(left(r_iframe_entries), sw, m.r_iframe_desc_count as nat);
        let r_iframe_interval = f32::take(left(r_iframe_desc), sw);
        let rotations = many::<QuaternionKey, QuaternionKey>(left(r_iframe_interval), sw, m.rotations_count as nat);
        if timepoints is Some && t_ratios is Some && t_previouses is Some && t_iframe_entries is Some && t_iframe_desc is Some && t_iframe_interval is Some && translations is Some && r_ratios is Some && r_previouses is Some && r_iframe_entries is Some && r_iframe_desc is Some && r_iframe_interval is Some && rotations is Some && a.wf() && a.name == m.name && a.duration == m.duration && a.num_tracks == m.num_tracks && a.timepoints_count == m.timepoints_count && a.translations_count == m.translations_count && a.t_iframe_entries_count == m.t_iframe_entries_count && a.t_iframe_desc_count == m.t_iframe_desc_count && a.rotations_count == m.rotations_count && a.r_iframe_entries_count == m.r_iframe_entries_count && a.r_iframe_desc_count == m.r_iframe_desc_count && a.scales_count == m.scales_count && a.s_iframe_entries_count == m.s_iframe_entries_count && a.s_iframe_desc_count == m.s_iframe_desc_count && a.timepoints@ == timepoints->Some_0.0 && a.t_ratios@ == t_ratios->Some_0.0 && a.t_previouses@ == t_previouses->Some_0.0 && a.t_iframe_entries@ == t_iframe_entries->Some_0.0 && a.t_iframe_desc@ == t_iframe_desc->Some_0.0 && a.t_iframe_interval == t_iframe_interval->Some_0.0 && a.translations@ == translations->Some_0.0 && a.r_ratios@ == r_ratios->Some_0.0 && a.r_previouses@ == r_previouses->Some_0.0 && a.r_iframe_entries@ == r_iframe_entries->Some_0.0 && a.r_iframe_desc@ == r_iframe_desc->Some_0.0 && a.r_iframe_interval == r_iframe_interval->Some_0.0 && a.rotations@ == rotations->Some_0.0 { Some(left(rotations)) } else { None }
    }
//@fn src/animation.rs Animation::read_meta
//@sub? Archive<impl Read> ==> Archive
//@sub? \bString\b ==> Text
//@sub archive\.read_tag\(\)\? != Self::tag\(\) ==> archive.read_tag()?.differs(Self::tag())
//@sub Text::from_utf8\(buf\)\.map_err\(\|e\| e\.utf8_error\(\)\)\? ==> text_of(buf)?
//@ret r
//@spec
    ensures got(*old(archive), *final(archive), r, Animation::meta_take(old(archive).rest(), old(archive).swap())),
        kinds(old(archive).rest(), old(archive).swap(), r, "ozz-animation"@, 7)
//@end
//@fn src/animation.rs Animation::from_archive
//@sub? Archive<impl Read> ==> Archive
//@sub? \bString\b ==> Text
//@sub for i in 0\.\.animation\.([trs])_ratios\(\)\.len\(\) ==> let n_\1 = animation.\1_ratios().len(); for i in 0..n_\1
//@sub animation\.([trs])_ratios_mut\(\)\[i\] = archive\.read::<u8>\(\)\? as u16; ==> let v_ = archive.read::<u8>()? as u16; { let p_ = animation.\1_ratios_mut(); p_[i] = v_; }
//@ret r
//@spec
    ensures final(archive).swap() == old(archive).swap(),
        kinds(old(archive).rest(), old(archive).swap(), r, "ozz-animation"@, 7),
        match Animation::meta_take(old(archive).rest(), old(archive).swap()) { None => r is Err, Some((m, s)) =>
            (r is Ok <==> Animation::complete(m, s, old(archive).swap()))
            && (r is Ok ==> Animation::holds(r->Ok_0, m, s, old(archive).swap(), final(archive).rest())) },
//@begin
    let ghost s0 = archive.rest();
    let ghost sw = archive.swap();
//@pre 1
    let ghost a1 = animation;
    let ghost s1 = archive.rest();
//@loop 1 for i in 0..n_t
    invariant n_t == animation.t_ratios@.len(), archive.swap() == sw, animation == (Animation { t_ratios: animation.t_ratios, ..a1 }), animation.wf(),
        i <= animation.t_ratios@.len(),
        many::<u8, u8>(s1, sw, i as nat) is Some, archive.rest() == many::<u8, u8>(s1, sw, i as nat)->Some_0.1,
        animation.t_ratios@.take(i as int) == many::<u8, u8>(s1, sw, i as nat)->Some_0.0.map_values(|x: u8| x as u16),
        s0 == old(archive).rest(), sw == old(archive).swap(), animation.timepoints_count <= 255,
        Animation::meta_take(s0, sw) is Some,
        Animation::t_before(animation, Animation::meta_take(s0, sw)->Some_0.0, Animation::meta_take(s0, sw)->Some_0.1, sw) == Some(s1),
//@start 1
    let ghost q1 = archive.rest();
    let ghost r1 = animation.t_ratios@;
    proof { if u8::take(q1, sw) is None { many_stops::<u8, u8>(s1, sw, (i + 1) as nat, animation.t_ratios@.len()); } }
//@stop 1
    proof {
        let b = many::<u8, u8>(s1, sw, i as nat)->Some_0.0;
        let v = u8::take(q1, sw)->Some_0.0;
        assert(animation.t_ratios@ == r1.update(i as int, v as u16));
        assert(animation.t_ratios@.take(i + 1) =~= r1.take(i as int).push(v as u16));
        assert(b.push(v).map_values(|x: u8| x as u16) =~= b.map_values(|x: u8| x as u16).push(v as u16));
    }
//@post 1
    proof { assert(animation.t_ratios@.take(animation.t_ratios@.len() as int) =~= animation.t_ratios@); }
//@pre 2
    let ghost a2 = animation;
    let ghost s2 = archive.rest();
//@loop 2 for i in 0..n_r
    invariant n_r == animation.r_ratios@.len(), archive.swap() == sw, animation == (Animation { r_ratios: animation.r_ratios, ..a2 }), animation.wf(),
        i <= animation.r_ratios@.len(),
        many::<u8, u8>(s2, sw, i as nat) is Some, archive.rest() == many::<u8, u8>(s2, sw, i as nat)->Some_0.1,
        animation.r_ratios@.take(i as int) == many::<u8, u8>(s2, sw, i as nat)->Some_0.0.map_values(|x: u8| x as u16),
        s0 == old(archive).rest(), sw == old(archive).swap(), animation.timepoints_count <= 255,
        Animation::meta_take(s0, sw) is Some,
        Animation::r_before(animation, Animation::meta_take(s0, sw)->Some_0.0, Animation::meta_take(s0, sw)->Some_0.1, sw) == Some(s2),
//@start 2
    let ghost q2 = archive.rest();
    let ghost r2 = animation.r_ratios@;
    proof { if u8::take(q2, sw) is None { many_stops::<u8, u8>(s2, sw, (i + 1) as nat, animation.r_ratios@.len()); } }
//@stop 2
    proof {
        let b = many::<u8, u8>(s2, sw, i as nat)->Some_0.0;
        let v = u8::take(q2, sw)->Some_0.0;
        assert(animation.r_ratios@ == r2.update(i as int, v as u16));
        assert(animation.r_ratios@.take(i + 1) =~= r2.take(i as int).push(v as u16));
        assert(b.push(v).map_values(|x: u8| x as u16) =~= b.map_values(|x: u8| x as u16).push(v as u16));
    }
//@post 2
    proof { assert(animation.r_ratios@.take(animation.r_ratios@.len() as int) =~= animation.r_ratios@); }
//@pre 3
    let ghost a3 = animation;
    let ghost s3 = archive.rest();
//@loop 3 for i in 0..n_s
    invariant n_s == animation.s_ratios@.len(), archive.swap() == sw, animation == (Animation { s_ratios: animation.s_ratios, ..a3 }), animation.wf(),
        i <= animation.s_ratios@.len(),
        many::<u8, u8>(s3, sw, i as nat) is Some, archive.rest() == many::<u8, u8>(s3, sw, i as nat)->Some_0.1,
        animation.s_ratios@.take(i as int) == many::<u8, u8>(s3, sw, i as nat)->Some_0.0.map_values(|x: u8| x as u16),
        s0 == old(archive).rest(), sw == old(archive).swap(), animation.timepoints_count <= 255,
        Animation::meta_take(s0, sw) is Some,
        Animation::s_before(animation, Animation::meta_take(s0, sw)->Some_0.0, Animation::meta_take(s0, sw)->Some_0.1, sw) == Some(s3),
//@start 3
    let ghost q3 = archive.rest();
    let ghost r3 = animation.s_ratios@;
    proof { if u8::take(q3, sw) is None { many_stops::<u8, u8>(s3, sw, (i + 1) as nat, animation.s_ratios@.len()); } }
//@stop 3
    proof {
        let b = many::<u8, u8>(s3, sw, i as nat)->Some_0.0;
        let v = u8::take(q3, sw)->Some_0.0;
        assert(animation.s_ratios@ == r3.update(i as int, v as u16));
        assert(animation.s_ratios@.take(i + 1) =~= r3.take(i as int).push(v as u16));
        assert(b.push(v).map_values(|x: u8| x as u16) =~= b.map_values(|x: u8| x as u16).push(v as u16));
    }
//@post 3
    proof { assert(animation.s_ratios@.take(animation.s_ratios@.len() as int) =~= animation.s_ratios@); }
//@end
}

pub open spec fn names_of(v: Seq<Text>) -> Seq<(Text, i16)> { Seq::new(v.len(), |i: int| (v[i], i as i16)) }

// The joint names: a bimap, here the names and indices in the order in which they were inserted.
pub struct Names { pub g: Ghost<Seq<(Text, i16)>> }
impl Names {
    fn new() -> (r: Names) ensures r.g@ == Seq::<(Text, i16)>::empty() { Names { g: Ghost(Seq::empty()) } }
    fn insert(&mut self, t: Text, i: i16) ensures final(self).g@ == old(self).g@.push((t, i)) { self.g = Ghost(self.g@.push((t, i))); }
    #[verifier::external_body]
    fn clone(&self) -> (r: Names) ensures r == *self { unimplemented!() }
}
//@item src/skeleton.rs struct Skeleton
//@sub JointHashMap ==> Names
//@sub \*mut (\w+) ==> Vec<\1>
//@sub? (?m)^\s*struct ==> pub struct
//@sub (?m)^(\s+)(?:pub )?(\w+): ==> \1pub \2:
//@end
//@item src/skeleton.rs struct SkeletonMeta
//@sub JointHashMap ==> Names
//@end
impl Skeleton {
    pub open spec fn wf(&self) -> bool {
        &&& self.joint_rest_poses@.len() == self.num_soa_joints
        &&& self.joint_parents@.len() == self.num_joints
        &&& self.num_soa_joints as int == (self.num_joints + 3) / 4
    }
    // Allocation and carving of the regions: the subject of template layout.
    #[verifier::external_body]
    fn new(meta: SkeletonMeta) -> (r: Skeleton)
        ensures r.wf(), r.num_joints == meta.num_joints, r.joint_names.g@ == Seq::<(Text, i16)>::empty()
    { unimplemented!() }
//@fn src/skeleton.rs Skeleton::num_joints
//@ret r
//@spec
    ensures r == self.num_joints
//@end
//@fn src/skeleton.rs Skeleton::num_soa_joints
//@ret r
//@spec
    ensures r == self.num_soa_joints
//@end
//@fn src/skeleton.rs Skeleton::tag
//@ret r
//@spec
    ensures r@ == "ozz-skeleton"@
//@end
//@fn src/skeleton.rs Skeleton::version
//@ret r
//@spec
    ensures r == 2
//@end
//@fn src/skeleton.rs Skeleton::joint_rest_poses
//@sub unsafe \{ slice::from_raw_parts\(self\.joint_rest_poses, (.*)\) \} ==> prefix(&self.joint_rest_poses, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.joint_rest_poses@
//@begin
    proof { assert(self.joint_rest_poses@.take(self.joint_rest_poses@.len() as int) =~= self.joint_rest_poses@); }
//@end
//@fn src/skeleton.rs Skeleton::joint_rest_poses_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.joint_rest_poses, self\.(.*)\) \} ==> { let n_ = self.\1; prefix_mut(&mut self.joint_rest_poses, n_) }
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).joint_rest_poses@, final(r)@.len() == r@.len(), final(self).joint_rest_poses@ == final(r)@, final(self).wf(),
        *final(self) == (Skeleton { joint_rest_poses: final(self).joint_rest_poses, ..*old(self) })
//@begin
    proof {
        assert(self.joint_rest_poses@.take(self.joint_rest_poses@.len() as int) =~= self.joint_rest_poses@);
        assert(forall|x: Seq<SoaTransform>| (#[trigger] (x + self.joint_rest_poses@.skip(self.joint_rest_poses@.len() as int))) =~= x);
    }
//@end
//@fn src/skeleton.rs Skeleton::joint_parents
//@sub unsafe \{ slice::from_raw_parts\(self\.joint_parents, (.*)\) \} ==> prefix(&self.joint_parents, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.joint_parents@
//@begin
    proof { assert(self.joint_parents@.take(self.joint_parents@.len() as int) =~= self.joint_parents@); }
//@end
//@fn src/skeleton.rs Skeleton::joint_parents_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.joint_parents, self\.(.*)\) \} ==> { let n_ = self.\1; prefix_mut(&mut self.joint_parents, n_) }
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).joint_parents@, final(r)@.len() == r@.len(), final(self).joint_parents@ == final(r)@, final(self).wf(),
        *final(self) == (Skeleton { joint_parents: final(self).joint_parents, ..*old(self) })
//@begin
    proof {
        assert(self.joint_parents@.take(self.joint_parents@.len() as int) =~= self.joint_parents@);
        assert(forall|x: Seq<i16>| (#[trigger] (x + self.joint_parents@.skip(self.joint_parents@.len() as int))) =~= x);
    }
//@end
//@fn src/skeleton.rs Skeleton::joint_names
//@sub JointHashMap ==> Names
//@ret r
//@spec
    ensures *r == self.joint_names
//@end

    // The head of a skeleton's archive: the number of joints
    pub open spec fn head(s: Seq<u8>, sw: bool) -> Option<(u32, Seq<u8>)> {
        let tag = Text::take(s, sw);
        let ver = u32::take(left(tag), sw);
        let n = u32::take(left(ver), sw);
        if tag is Some && ver is Some && n is Some && tag->Some_0.0.g@ == bytes("ozz-skeleton"@) && ver->Some_0.0 == 2 { n } else { None }
    }
    pub open spec fn names_at(n: u32, s: Seq<u8>, sw: bool) -> Option<(Seq<Text>, Seq<u8>)> {
        let c = u32::take(s, sw);
        if c is Some { many::<Text, Text>(left(c), sw, n as nat) } else { None }
    }
    pub open spec fn parents_at(n: u32, s: Seq<u8>, sw: bool) -> Option<(Seq<i16>, Seq<u8>)> {
        let t = Skeleton::names_at(n, s, sw);
        if t is Some { many::<i16, i16>(left(t), sw, n as nat) } else { None }
    }
    pub open spec fn poses_at(n: u32, s: Seq<u8>, sw: bool) -> Option<(Seq<SoaTransform>, Seq<u8>)> {
        let t = Skeleton::parents_at(n, s, sw);
        if t is Some { many::<SoaTransform, SoaTransform>(left(t), sw, ((n + 3) / 4) as nat) } else { None }
    }
//@fn src/skeleton.rs Skeleton::read_meta
//@sub? Archive<impl Read> ==> Archive
//@sub? \bString\b ==> Text
//@sub archive\.read_tag\(\)\? != Self::tag\(\) ==> archive.read_tag()?.differs(Self::tag())
//@sub BiHashMap::with_hashers\(DeterministicState::new\(\), DeterministicState::new\(\)\) ==> Names::new()
//@sub (?s)BiHashMap::with_capacity_and_hashers\([^;]*?\); ==> Names::new();
//@sub joint_names\.insert\(archive\.read::<Text>\(\)\?, idx as i16\); ==> let v_ = archive.read::<Text>()?; joint_names.insert(v_, idx as i16);
//@ret r
//@spec
    ensures final(archive).swap() == old(archive).swap(),
        kinds(old(archive).rest(), old(archive).swap(), r, "ozz-skeleton"@, 2),
        match Skeleton::head(old(archive).rest(), old(archive).swap()) { None => r is Err, Some((n, s)) => {
            let t = Skeleton::parents_at(n, s, old(archive).swap());
            if n == 0 || !with_joints {
                r is Ok && r->Ok_0.version == 2 && r->Ok_0.num_joints == n && r->Ok_0.joint_names.g@ == Seq::<(Text, i16)>::empty()
                && r->Ok_0.joint_parents@ == Seq::<i16>::empty() && final(archive).rest() == s
            } else if t is None { r is Err } else {
                r is Ok && r->Ok_0.version == 2 && r->Ok_0.num_joints == n
                && r->Ok_0.joint_names.g@ == names_of(Skeleton::names_at(n, s, old(archive).swap())->Some_0.0)
                && r->Ok_0.joint_parents@ == t->Some_0.0 && final(archive).rest() == left(t)
            } } },
//@begin
    let ghost s0 = archive.rest();
    let ghost sw = archive.swap();
//@pre 1
    let ghost s1 = archive.rest();
    proof { assert(names_of(Seq::<Text>::empty()) =~= Seq::<(Text, i16)>::empty()); }
//@loop 1 for idx in 0..num_joints
    invariant archive.swap() == sw, s0 == old(archive).rest(), sw == old(archive).swap(), num_joints > 0, with_joints,
        Skeleton::head(s0, sw) is Some, Skeleton::head(s0, sw)->Some_0.0 == num_joints,
        u32::take(Skeleton::head(s0, sw)->Some_0.1, sw) is Some, s1 == left(u32::take(Skeleton::head(s0, sw)->Some_0.1, sw)),
        many::<Text, Text>(s1, sw, idx as nat) is Some, archive.rest() == many::<Text, Text>(s1, sw, idx as nat)->Some_0.1,
        joint_names.g@ == names_of(many::<Text, Text>(s1, sw, idx as nat)->Some_0.0),
//@start 1
    let ghost b1 = archive.rest();
    proof { many_len::<Text, Text>(s1, sw, idx as nat); if Text::take(b1, sw) is None { many_stops::<Text, Text>(s1, sw, (idx + 1) as nat, num_joints as nat); } }
//@stop 1
    proof { let o = many::<Text, Text>(s1, sw, idx as nat)->Some_0.0; assert(names_of(o.push(v_)) =~= names_of(o).push((v_, idx as i16))); }
//@end
//@fn src/skeleton.rs Skeleton::from_archive
//@sub? Archive<impl Read> ==> Archive
//@sub? \bString\b ==> Text
//@sub for idx in 0\.\.skeleton\.num_joints\(\) ==> let n_ = skeleton.num_joints(); for idx in 0..n_
//@sub skeleton\.joint_names\.insert\(archive\.read::<Text>\(\)\?, idx as i16\); ==> let v_ = archive.read::<Text>()?; skeleton.joint_names.insert(v_, idx as i16);
//@ret r
//@spec
    ensures final(archive).swap() == old(archive).swap(),
        kinds(old(archive).rest(), old(archive).swap(), r, "ozz-skeleton"@, 2),
        match Skeleton::head(old(archive).rest(), old(archive).swap()) { None => r is Err, Some((n, s)) => {
            let t = Skeleton::poses_at(n, s, old(archive).swap());
            if n == 0 { r is Ok && r->Ok_0.wf() && r->Ok_0.num_joints == 0 && r->Ok_0.joint_names.g@ == Seq::<(Text, i16)>::empty() && final(archive).rest() == s }
            else if t is None { r is Err } else {
                r is Ok && r->Ok_0.wf() && r->Ok_0.num_joints == n
                && r->Ok_0.joint_names.g@ == names_of(Skeleton::names_at(n, s, old(archive).swap())->Some_0.0)
                && r->Ok_0.joint_parents@ == Skeleton::parents_at(n, s, old(archive).swap())->Some_0.0
                && r->Ok_0.joint_rest_poses@ == t->Some_0.0 && final(archive).rest() == left(t)
            } } },
//@begin
    let ghost s0 = archive.rest();
    let ghost sw = archive.swap();
//@pre 1
    let ghost s1 = archive.rest();
    let ghost k1 = skeleton;
    proof { assert(names_of(Seq::<Text>::empty()) =~= Seq::<(Text, i16)>::empty()); }
//@loop 1 for idx in 0..n_
    invariant archive.swap() == sw, s0 == old(archive).rest(), sw == old(archive).swap(), n_ == skeleton.num_joints, n_ > 0, skeleton.wf(),
        Skeleton::head(s0, sw) is Some, Skeleton::head(s0, sw)->Some_0.0 == n_,
        u32::take(Skeleton::head(s0, sw)->Some_0.1, sw) is Some, s1 == left(u32::take(Skeleton::head(s0, sw)->Some_0.1, sw)),
        many::<Text, Text>(s1, sw, idx as nat) is Some, archive.rest() == many::<Text, Text>(s1, sw, idx as nat)->Some_0.1,
        skeleton.joint_names.g@ == names_of(many::<Text, Text>(s1, sw, idx as nat)->Some_0.0),
//@start 1
    let ghost b1 = archive.rest();
    proof { many_len::<Text, Text>(s1, sw, idx as nat); if Text::take(b1, sw) is None { many_stops::<Text, Text>(s1, sw, (idx + 1) as nat, n_ as nat); } }
//@stop 1
    proof { let o = many::<Text, Text>(s1, sw, idx as nat)->Some_0.0; assert(names_of(o.push(v_)) =~= names_of(o).push((v_, idx as i16))); }
//@end
}

pub trait TrackValue: ArchiveRead<Self> + Sized {
    spec fn tg() -> Seq<char>;
    fn tag() -> (r: &'static str) ensures r@ == Self::tg();
}
impl TrackValue for f32 {
    open spec fn tg() -> Seq<char> { "ozz-float_track"@ }
//@fn src/track.rs TrackValue for f32::tag
//@ret r
//@spec
//@end
}
impl TrackValue for Vec2 {
    open spec fn tg() -> Seq<char> { "ozz-float2_track"@ }
//@fn src/track.rs TrackValue for Vec2::tag
//@ret r
//@spec
//@end
}
impl TrackValue for Vec3 {
    open spec fn tg() -> Seq<char> { "ozz-float3_track"@ }
//@fn src/track.rs TrackValue for Vec3::tag
//@ret r
//@spec
//@end
}
impl TrackValue for Vec4 {
    open spec fn tg() -> Seq<char> { "ozz-float4_track"@ }
//@fn src/track.rs TrackValue for Vec4::tag
//@ret r
//@spec
//@end
}
impl TrackValue for Quat {
    open spec fn tg() -> Seq<char> { "ozz-quat_track"@ }
//@fn src/track.rs TrackValue for Quat::tag
//@ret r
//@spec
//@end
}

//@item src/track.rs struct Track
//@sub \bString\b ==> Text
//@sub (?m)^(\s+)(?:pub )?(\w+): ==> \1pub \2:
//@end
impl<V: TrackValue> Track<V> {
//@fn src/track.rs Track<V>::tag
//@ret r
//@spec
    ensures r@ == V::tg()
//@end
//@fn src/track.rs Track<V>::version
//@ret r
//@spec
    ensures r == 1
//@end
    pub open spec fn complete(s: Seq<u8>, sw: bool) -> bool {
        let tag = Text::take(s, sw);
        let ver = u32::take(left(tag), sw);
        let n = u32::take(left(ver), sw);
        let l = u32::take(left(n), sw);
        let ratios = many::<f32, f32>(left(l), sw, n->Some_0.0 as nat);
        let values = many::<V, V>(left(ratios), sw, n->Some_0.0 as nat);
        let steps = many::<u8, u8>(left(values), sw, ((n->Some_0.0 + 7) / 8) as nat);
        let name = text_take(left(steps), sw, l->Some_0.0 as nat);
        tag is Some && ver is Some && n is Some && l is Some && ratios is Some && values is Some && steps is Some && name is Some && tag->Some_0.0.g@ == bytes(V::tg()) && ver->Some_0.0 == 1
    }
    pub open spec fn holds(&self, s: Seq<u8>, sw: bool, rest: Seq<u8>) -> bool {
        let tag = Text::take(s, sw);
        let ver = u32::take(left(tag), sw);
        let n = u32::take(left(ver), sw);
        let l = u32::take(left(n), sw);
        let ratios = many::<f32, f32>(left(l), sw, n->Some_0.0 as nat);
        let values = many::<V, V>(left(ratios), sw, n->Some_0.0 as nat);
        let steps = many::<u8, u8>(left(values), sw, ((n->Some_0.0 + 7) / 8) as nat);
        let name = text_take(left(steps), sw, l->Some_0.0 as nat);
        self.key_count == n->Some_0.0 && self.ratios@ == ratios->Some_0.0 && self.values@ == values->Some_0.0 && self.steps@ == steps->Some_0.0
            && self.name == name->Some_0.0 && rest == left(name)
    }
//@fn src/track.rs Track<V>::from_archive
//@sub? Archive<impl Read> ==> Archive
//@sub? \bString\b ==> Text
//@sub archive\.read_tag\(\)\? != Self::tag\(\) ==> archive.read_tag()?.differs(Self::tag())
//@sub Text::from_utf8\(buf\)\.map_err\(\|e\| e\.utf8_error\(\)\)\? ==> text_of(buf)?
//@ret r
//@spec
    // (an archive of 16 gigabytes or more could declare a number of keys that overflows when it is rounded up)
    requires old(archive).rest().len() < 0x3_0000_0000,
    ensures final(archive).swap() == old(archive).swap(),
        kinds(old(archive).rest(), old(archive).swap(), r, V::tg(), 1),
        r is Ok <==> Track::<V>::complete(old(archive).rest(), old(archive).swap()),
        r is Ok ==> r->Ok_0.holds(old(archive).rest(), old(archive).swap(), final(archive).rest()),
//@begin
    let ghost sw = archive.swap();
    let ghost s0 = archive.rest();
    proof { Text::law(s0, sw); u32::law(left(Text::take(s0, sw)), sw); }
//@after let ratios: Vec<f32> = archive.read_vec(key_count as usize)?;
    proof {
        let s3 = left(u32::take(left(Text::take(s0, sw)), sw));
        u32::law(s3, sw);
        u32::law(left(u32::take(s3, sw)), sw);
        many_len::<f32, f32>(left(u32::take(left(u32::take(s3, sw)), sw)), sw, key_count as nat);
    }
//@end
}
}
