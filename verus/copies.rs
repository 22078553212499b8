// C07: copies of animations, skeletons and sampling contexts (written by tools/gen_load.py).
#![allow(non_camel_case_types, non_snake_case, unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include mem.rs
#[derive(Clone, Copy)]
pub struct Float3Key(pub [u16; 3]);
#[derive(Clone, Copy)]
pub struct QuaternionKey(pub [u16; 3]);
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SoaTransform { x: usize }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct InterpSoaFloat3 { x: usize }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct InterpSoaQuaternion { x: usize }
pub struct Text { pub g: Ghost<Seq<u8>> }
impl Text {
    #[verifier::external_body]
    fn clone(&self) -> (r: Text) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
fn copy_into<T: Copy>(dst: &mut [T], src: &[T])
    requires old(dst)@.len() == src@.len()
    ensures final(dst)@ == src@
{ dst.copy_from_slice(src) }
#[verifier::external_body]
fn to_vec<T: Copy>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { s.to_vec() }

//@item src/animation.rs struct Animation
//@sub \*mut (\w+) ==> Vec<\1>
//@sub? \bString\b ==> Text
//@sub? (?m)^\s*struct ==> pub struct
//@sub (?m)^(\s+)(?:pub )?(\w+): ==> \1pub \2:
//@end
//@item src/animation.rs struct AnimationMeta
//@sub? \bString\b ==> Text
//@end
impl Animation {
    // Every region has the length its count declares.
    pub open spec fn wf(&self) -> bool {
        &&& self.timepoints@.len() == self.timepoints_count
        &&& self.translations@.len() == self.translations_count
        &&& self.t_ratios@.len() == self.translations_count
        &&& self.t_previouses@.len() == self.translations_count
        &&& self.t_iframe_entries@.len() == self.t_iframe_entries_count
        &&& self.t_iframe_desc@.len() == self.t_iframe_desc_count
        &&& self.rotations@.len() == self.rotations_count
        &&& self.r_ratios@.len() == self.rotations_count
        &&& self.r_previouses@.len() == self.rotations_count
        &&& self.r_iframe_entries@.len() == self.r_iframe_entries_count
        &&& self.r_iframe_desc@.len() == self.r_iframe_desc_count
        &&& self.scales@.len() == self.scales_count
        &&& self.s_ratios@.len() == self.scales_count
        &&& self.s_previouses@.len() == self.scales_count
        &&& self.s_iframe_entries@.len() == self.s_iframe_entries_count
        &&& self.s_iframe_desc@.len() == self.s_iframe_desc_count
    }
    // Allocation and carving of the regions: the subject of template layout.
    #[verifier::external_body]
    fn new(meta: AnimationMeta) -> (r: Animation)
        ensures r.wf(), r.name == meta.name, r.duration == meta.duration, r.num_tracks == meta.num_tracks, r.timepoints_count == meta.timepoints_count, r.translations_count == meta.translations_count, r.t_iframe_entries_count == meta.t_iframe_entries_count, r.t_iframe_desc_count == meta.t_iframe_desc_count, r.rotations_count == meta.rotations_count, r.r_iframe_entries_count == meta.r_iframe_entries_count, r.r_iframe_desc_count == meta.r_iframe_desc_count, r.scales_count == meta.scales_count, r.s_iframe_entries_count == meta.s_iframe_entries_count, r.s_iframe_desc_count == meta.s_iframe_desc_count
    { unimplemented!() }
//@fn src/animation.rs Animation::timepoints
//@sub unsafe \{ slice::from_raw_parts\(self\.timepoints, (.*)\) \} ==> prefix(&self.timepoints, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.timepoints@
//@begin
    proof { assert(self.timepoints@.take(self.timepoints@.len() as int) =~= self.timepoints@); }
//@end
//@fn src/animation.rs Animation::timepoints_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.timepoints, (.*)\) \} ==> prefix_mut(&mut self.timepoints, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).timepoints@, final(r)@.len() == r@.len(), final(self).timepoints@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { timepoints: final(self).timepoints, ..*old(self) })
//@begin
    proof {
        assert(self.timepoints@.take(self.timepoints@.len() as int) =~= self.timepoints@);
        assert(forall|x: Seq<f32>| (#[trigger] (x + self.timepoints@.skip(self.timepoints@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::translations
//@sub unsafe \{ slice::from_raw_parts\(self\.translations, (.*)\) \} ==> prefix(&self.translations, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.translations@
//@begin
    proof { assert(self.translations@.take(self.translations@.len() as int) =~= self.translations@); }
//@end
//@fn src/animation.rs Animation::translations_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.translations, (.*)\) \} ==> prefix_mut(&mut self.translations, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).translations@, final(r)@.len() == r@.len(), final(self).translations@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { translations: final(self).translations, ..*old(self) })
//@begin
    proof {
        assert(self.translations@.take(self.translations@.len() as int) =~= self.translations@);
        assert(forall|x: Seq<Float3Key>| (#[trigger] (x + self.translations@.skip(self.translations@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::t_ratios
//@sub unsafe \{ slice::from_raw_parts\(self\.t_ratios, (.*)\) \} ==> prefix(&self.t_ratios, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.t_ratios@
//@begin
    proof { assert(self.t_ratios@.take(self.t_ratios@.len() as int) =~= self.t_ratios@); }
//@end
//@fn src/animation.rs Animation::t_ratios_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.t_ratios, (.*)\) \} ==> prefix_mut(&mut self.t_ratios, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).t_ratios@, final(r)@.len() == r@.len(), final(self).t_ratios@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { t_ratios: final(self).t_ratios, ..*old(self) })
//@begin
    proof {
        assert(self.t_ratios@.take(self.t_ratios@.len() as int) =~= self.t_ratios@);
        assert(forall|x: Seq<u16>| (#[trigger] (x + self.t_ratios@.skip(self.t_ratios@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::t_previouses
//@sub unsafe \{ slice::from_raw_parts\(self\.t_previouses, (.*)\) \} ==> prefix(&self.t_previouses, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.t_previouses@
//@begin
    proof { assert(self.t_previouses@.take(self.t_previouses@.len() as int) =~= self.t_previouses@); }
//@end
//@fn src/animation.rs Animation::t_previouses_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.t_previouses, (.*)\) \} ==> prefix_mut(&mut self.t_previouses, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).t_previouses@, final(r)@.len() == r@.len(), final(self).t_previouses@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { t_previouses: final(self).t_previouses, ..*old(self) })
//@begin
    proof {
        assert(self.t_previouses@.take(self.t_previouses@.len() as int) =~= self.t_previouses@);
        assert(forall|x: Seq<u16>| (#[trigger] (x + self.t_previouses@.skip(self.t_previouses@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::t_iframe_entries
//@sub unsafe \{ slice::from_raw_parts\(self\.t_iframe_entries, (.*)\) \} ==> prefix(&self.t_iframe_entries, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.t_iframe_entries@
//@begin
    proof { assert(self.t_iframe_entries@.take(self.t_iframe_entries@.len() as int) =~= self.t_iframe_entries@); }
//@end
//@fn src/animation.rs Animation::t_iframe_entries_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.t_iframe_entries, (.*)\) \} ==> prefix_mut(&mut self.t_iframe_entries, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).t_iframe_entries@, final(r)@.len() == r@.len(), final(self).t_iframe_entries@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { t_iframe_entries: final(self).t_iframe_entries, ..*old(self) })
//@begin
    proof {
        assert(self.t_iframe_entries@.take(self.t_iframe_entries@.len() as int) =~= self.t_iframe_entries@);
        assert(forall|x: Seq<u8>| (#[trigger] (x + self.t_iframe_entries@.skip(self.t_iframe_entries@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::t_iframe_desc
//@sub unsafe \{ slice::from_raw_parts\(self\.t_iframe_desc, (.*)\) \} ==> prefix(&self.t_iframe_desc, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.t_iframe_desc@
//@begin
    proof { assert(self.t_iframe_desc@.take(self.t_iframe_desc@.len() as int) =~= self.t_iframe_desc@); }
//@end
//@fn src/animation.rs Animation::t_iframe_desc_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.t_iframe_desc, (.*)\) \} ==> prefix_mut(&mut self.t_iframe_desc, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).t_iframe_desc@, final(r)@.len() == r@.len(), final(self).t_iframe_desc@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { t_iframe_desc: final(self).t_iframe_desc, ..*old(self) })
//@begin
    proof {
        assert(self.t_iframe_desc@.take(self.t_iframe_desc@.len() as int) =~= self.t_iframe_desc@);
        assert(forall|x: Seq<u32>| (#[trigger] (x + self.t_iframe_desc@.skip(self.t_iframe_desc@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::rotations
//@sub unsafe \{ slice::from_raw_parts\(self\.rotations, (.*)\) \} ==> prefix(&self.rotations, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.rotations@
//@begin
    proof { assert(self.rotations@.take(self.rotations@.len() as int) =~= self.rotations@); }
//@end
//@fn src/animation.rs Animation::rotations_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.rotations, (.*)\) \} ==> prefix_mut(&mut self.rotations, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).rotations@, final(r)@.len() == r@.len(), final(self).rotations@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { rotations: final(self).rotations, ..*old(self) })
//@begin
    proof {
        assert(self.rotations@.take(self.rotations@.len() as int) =~= self.rotations@);
        assert(forall|x: Seq<QuaternionKey>| (#[trigger] (x + self.rotations@.skip(self.rotations@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::r_ratios
//@sub unsafe \{ slice::from_raw_parts\(self\.r_ratios, (.*)\) \} ==> prefix(&self.r_ratios, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.r_ratios@
//@begin
    proof { assert(self.r_ratios@.take(self.r_ratios@.len() as int) =~= self.r_ratios@); }
//@end
//@fn src/animation.rs Animation::r_ratios_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.r_ratios, (.*)\) \} ==> prefix_mut(&mut self.r_ratios, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).r_ratios@, final(r)@.len() == r@.len(), final(self).r_ratios@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { r_ratios: final(self).r_ratios, ..*old(self) })
//@begin
    proof {
        assert(self.r_ratios@.take(self.r_ratios@.len() as int) =~= self.r_ratios@);
        assert(forall|x: Seq<u16>| (#[trigger] (x + self.r_ratios@.skip(self.r_ratios@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::r_previouses
//@sub unsafe \{ slice::from_raw_parts\(self\.r_previouses, (.*)\) \} ==> prefix(&self.r_previouses, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.r_previouses@
//@begin
    proof { assert(self.r_previouses@.take(self.r_previouses@.len() as int) =~= self.r_previouses@); }
//@end
//@fn src/animation.rs Animation::r_previouses_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.r_previouses, (.*)\) \} ==> prefix_mut(&mut self.r_previouses, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).r_previouses@, final(r)@.len() == r@.len(), final(self).r_previouses@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { r_previouses: final(self).r_previouses, ..*old(self) })
//@begin
    proof {
        assert(self.r_previouses@.take(self.r_previouses@.len() as int) =~= self.r_previouses@);
        assert(forall|x: Seq<u16>| (#[trigger] (x + self.r_previouses@.skip(self.r_previouses@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::r_iframe_entries
//@sub unsafe \{ slice::from_raw_parts\(self\.r_iframe_entries, (.*)\) \} ==> prefix(&self.r_iframe_entries, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.r_iframe_entries@
//@begin
    proof { assert(self.r_iframe_entries@.take(self.r_iframe_entries@.len() as int) =~= self.r_iframe_entries@); }
//@end
//@fn src/animation.rs Animation::r_iframe_entries_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.r_iframe_entries, (.*)\) \} ==> prefix_mut(&mut self.r_iframe_entries, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).r_iframe_entries@, final(r)@.len() == r@.len(), final(self).r_iframe_entries@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { r_iframe_entries: final(self).r_iframe_entries, ..*old(self) })
//@begin
    proof {
        assert(self.r_iframe_entries@.take(self.r_iframe_entries@.len() as int) =~= self.r_iframe_entries@);
        assert(forall|x: Seq<u8>| (#[trigger] (x + self.r_iframe_entries@.skip(self.r_iframe_entries@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::r_iframe_desc
//@sub unsafe \{ slice::from_raw_parts\(self\.r_iframe_desc, (.*)\) \} ==> prefix(&self.r_iframe_desc, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.r_iframe_desc@
//@begin
    proof { assert(self.r_iframe_desc@.take(self.r_iframe_desc@.len() as int) =~= self.r_iframe_desc@); }
//@end
//@fn src/animation.rs Animation::r_iframe_desc_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.r_iframe_desc, (.*)\) \} ==> prefix_mut(&mut self.r_iframe_desc, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).r_iframe_desc@, final(r)@.len() == r@.len(), final(self).r_iframe_desc@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { r_iframe_desc: final(self).r_iframe_desc, ..*old(self) })
//@begin
    proof {
        assert(self.r_iframe_desc@.take(self.r_iframe_desc@.len() as int) =~= self.r_iframe_desc@);
        assert(forall|x: Seq<u32>| (#[trigger] (x + self.r_iframe_desc@.skip(self.r_iframe_desc@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::scales
//@sub unsafe \{ slice::from_raw_parts\(self\.scales, (.*)\) \} ==> prefix(&self.scales, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.scales@
//@begin
    proof { assert(self.scales@.take(self.scales@.len() as int) =~= self.scales@); }
//@end
//@fn src/animation.rs Animation::scales_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.scales, (.*)\) \} ==> prefix_mut(&mut self.scales, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).scales@, final(r)@.len() == r@.len(), final(self).scales@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { scales: final(self).scales, ..*old(self) })
//@begin
    proof {
        assert(self.scales@.take(self.scales@.len() as int) =~= self.scales@);
        assert(forall|x: Seq<Float3Key>| (#[trigger] (x + self.scales@.skip(self.scales@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::s_ratios
//@sub unsafe \{ slice::from_raw_parts\(self\.s_ratios, (.*)\) \} ==> prefix(&self.s_ratios, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.s_ratios@
//@begin
    proof { assert(self.s_ratios@.take(self.s_ratios@.len() as int) =~= self.s_ratios@); }
//@end
//@fn src/animation.rs Animation::s_ratios_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.s_ratios, (.*)\) \} ==> prefix_mut(&mut self.s_ratios, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).s_ratios@, final(r)@.len() == r@.len(), final(self).s_ratios@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { s_ratios: final(self).s_ratios, ..*old(self) })
//@begin
    proof {
        assert(self.s_ratios@.take(self.s_ratios@.len() as int) =~= self.s_ratios@);
        assert(forall|x: Seq<u16>| (#[trigger] (x + self.s_ratios@.skip(self.s_ratios@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::s_previouses
//@sub unsafe \{ slice::from_raw_parts\(self\.s_previouses, (.*)\) \} ==> prefix(&self.s_previouses, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.s_previouses@
//@begin
    proof { assert(self.s_previouses@.take(self.s_previouses@.len() as int) =~= self.s_previouses@); }
//@end
//@fn src/animation.rs Animation::s_previouses_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.s_previouses, (.*)\) \} ==> prefix_mut(&mut self.s_previouses, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).s_previouses@, final(r)@.len() == r@.len(), final(self).s_previouses@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { s_previouses: final(self).s_previouses, ..*old(self) })
//@begin
    proof {
        assert(self.s_previouses@.take(self.s_previouses@.len() as int) =~= self.s_previouses@);
        assert(forall|x: Seq<u16>| (#[trigger] (x + self.s_previouses@.skip(self.s_previouses@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::s_iframe_entries
//@sub unsafe \{ slice::from_raw_parts\(self\.s_iframe_entries, (.*)\) \} ==> prefix(&self.s_iframe_entries, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.s_iframe_entries@
//@begin
    proof { assert(self.s_iframe_entries@.take(self.s_iframe_entries@.len() as int) =~= self.s_iframe_entries@); }
//@end
//@fn src/animation.rs Animation::s_iframe_entries_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.s_iframe_entries, (.*)\) \} ==> prefix_mut(&mut self.s_iframe_entries, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).s_iframe_entries@, final(r)@.len() == r@.len(), final(self).s_iframe_entries@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { s_iframe_entries: final(self).s_iframe_entries, ..*old(self) })
//@begin
    proof {
        assert(self.s_iframe_entries@.take(self.s_iframe_entries@.len() as int) =~= self.s_iframe_entries@);
        assert(forall|x: Seq<u8>| (#[trigger] (x + self.s_iframe_entries@.skip(self.s_iframe_entries@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::s_iframe_desc
//@sub unsafe \{ slice::from_raw_parts\(self\.s_iframe_desc, (.*)\) \} ==> prefix(&self.s_iframe_desc, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.s_iframe_desc@
//@begin
    proof { assert(self.s_iframe_desc@.take(self.s_iframe_desc@.len() as int) =~= self.s_iframe_desc@); }
//@end
//@fn src/animation.rs Animation::s_iframe_desc_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.s_iframe_desc, (.*)\) \} ==> prefix_mut(&mut self.s_iframe_desc, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).s_iframe_desc@, final(r)@.len() == r@.len(), final(self).s_iframe_desc@ == final(r)@, final(self).wf(),
        *final(self) == (Animation { s_iframe_desc: final(self).s_iframe_desc, ..*old(self) })
//@begin
    proof {
        assert(self.s_iframe_desc@.take(self.s_iframe_desc@.len() as int) =~= self.s_iframe_desc@);
        assert(forall|x: Seq<u32>| (#[trigger] (x + self.s_iframe_desc@.skip(self.s_iframe_desc@.len() as int))) =~= x);
    }
//@end
//@fn src/animation.rs Animation::tag
//@ret r
//@spec
    ensures r@ == "ozz-animation"@
//@end
//@fn src/animation.rs Animation::version
//@ret r
//@spec
    ensures r == 7
//@end

    // What an animation is made of
    pub open spec fn same(&self, a: &AnimationRaw) -> bool {
        &&& self.wf() && self.duration == a.duration && self.num_tracks == a.num_tracks && self.name == a.name
        &&& self.timepoints@ == a.timepoints@
        &&& self.translations@ == a.translations@
        &&& self.t_ratios@ == a.t_ratios@
        &&& self.t_previouses@ == a.t_previouses@
        &&& self.t_iframe_entries@ == a.t_iframe_entries@
        &&& self.t_iframe_desc@ == a.t_iframe_desc@
        &&& self.rotations@ == a.rotations@
        &&& self.r_ratios@ == a.r_ratios@
        &&& self.r_previouses@ == a.r_previouses@
        &&& self.r_iframe_entries@ == a.r_iframe_entries@
        &&& self.r_iframe_desc@ == a.r_iframe_desc@
        &&& self.scales@ == a.scales@
        &&& self.s_ratios@ == a.s_ratios@
        &&& self.s_previouses@ == a.s_previouses@
        &&& self.s_iframe_entries@ == a.s_iframe_entries@
        &&& self.s_iframe_desc@ == a.s_iframe_desc@
        &&& self.t_iframe_interval == a.t_iframe_interval
        &&& self.r_iframe_interval == a.r_iframe_interval
        &&& self.s_iframe_interval == a.s_iframe_interval
    }
//@fn src/animation.rs Animation::from_raw
//@sub raw\.name\.clone\(\) ==> raw.name.clone()
//@sub animation\.(\w+_mut)\(\)\.copy_from_slice\(&raw\.(\w+)\); ==> copy_into(animation.\1(), raw.\2.as_slice());
//@ret r
//@spec
    requires
        // as written by to_raw: one ratio and one previous-key offset per key, counts of 32 bits
        raw.t_ratios@.len() == raw.translations@.len(), raw.t_previouses@.len() == raw.translations@.len(),
        raw.r_ratios@.len() == raw.rotations@.len(), raw.r_previouses@.len() == raw.rotations@.len(),
        raw.s_ratios@.len() == raw.scales@.len(), raw.s_previouses@.len() == raw.scales@.len(),
        raw.timepoints@.len() <= u32::MAX,
        raw.translations@.len() <= u32::MAX,
        raw.t_iframe_entries@.len() <= u32::MAX,
        raw.t_iframe_desc@.len() <= u32::MAX,
        raw.rotations@.len() <= u32::MAX,
        raw.r_iframe_entries@.len() <= u32::MAX,
        raw.r_iframe_desc@.len() <= u32::MAX,
        raw.scales@.len() <= u32::MAX,
        raw.s_iframe_entries@.len() <= u32::MAX,
        raw.s_iframe_desc@.len() <= u32::MAX,
    ensures r.same(raw)
//@end
//@fn src/animation.rs Animation::to_raw
//@sub self\.(\w+)\(\)\.to_vec\(\) ==> to_vec(self.\1())
//@ret r
//@spec
    requires self.wf()
    ensures self.same(&r)
//@end
}
//@item src/animation.rs struct AnimationRaw
//@sub pub\(crate\) struct ==> pub struct
//@sub \bString\b ==> Text
//@end
// A copy by way of the raw form is the same animation.
proof fn animation_copy(a: Animation, raw: AnimationRaw, b: Animation)
    requires a.same(&raw), b.same(&raw)
    ensures a.duration == b.duration, a.num_tracks == b.num_tracks, a.name == b.name,
        a.timepoints@ == b.timepoints@, a.timepoints_count == b.timepoints_count,
        a.translations@ == b.translations@, a.translations_count == b.translations_count,
        a.t_ratios@ == b.t_ratios@, a.translations_count == b.translations_count,
        a.t_previouses@ == b.t_previouses@, a.translations_count == b.translations_count,
        a.t_iframe_entries@ == b.t_iframe_entries@, a.t_iframe_entries_count == b.t_iframe_entries_count,
        a.t_iframe_desc@ == b.t_iframe_desc@, a.t_iframe_desc_count == b.t_iframe_desc_count,
        a.rotations@ == b.rotations@, a.rotations_count == b.rotations_count,
        a.r_ratios@ == b.r_ratios@, a.rotations_count == b.rotations_count,
        a.r_previouses@ == b.r_previouses@, a.rotations_count == b.rotations_count,
        a.r_iframe_entries@ == b.r_iframe_entries@, a.r_iframe_entries_count == b.r_iframe_entries_count,
        a.r_iframe_desc@ == b.r_iframe_desc@, a.r_iframe_desc_count == b.r_iframe_desc_count,
        a.scales@ == b.scales@, a.scales_count == b.scales_count,
        a.s_ratios@ == b.s_ratios@, a.scales_count == b.scales_count,
        a.s_previouses@ == b.s_previouses@, a.scales_count == b.scales_count,
        a.s_iframe_entries@ == b.s_iframe_entries@, a.s_iframe_entries_count == b.s_iframe_entries_count,
        a.s_iframe_desc@ == b.s_iframe_desc@, a.s_iframe_desc_count == b.s_iframe_desc_count,
        a.t_iframe_interval == b.t_iframe_interval,
        a.r_iframe_interval == b.r_iframe_interval,
        a.s_iframe_interval == b.s_iframe_interval,
{}

// The joint names: a bimap, here the names and indices in the order in which they were inserted.
pub struct Names { pub g: Ghost<Seq<(Text, i16)>> }
impl Names {
    fn new() -> (r: Names) ensures r.g@ == Seq::<(Text, i16)>::empty() { Names { g: Ghost(Seq::empty()) } }
    fn insert(&mut self, t: Text, i: i16) ensures final(self).g@ == old(self).g@.push((t, i)) { self.g = Ghost(self.g@.push((t, i))); }
    #[verifier::external_body]
    fn clone(&self) -> (r: Names) ensures r == *self { unimplemented!() }
}
//@item src/skeleton.rs struct Skeleton
//@sub JointHashMap ==> Names
//@sub \*mut (\w+) ==> Vec<\1>
//@sub? (?m)^\s*struct ==> pub struct
//@sub (?m)^(\s+)(?:pub )?(\w+): ==> \1pub \2:
//@end
//@item src/skeleton.rs struct SkeletonMeta
//@sub JointHashMap ==> Names
//@end
impl Skeleton {
    pub open spec fn wf(&self) -> bool {
        &&& self.joint_rest_poses@.len() == self.num_soa_joints
        &&& self.joint_parents@.len() == self.num_joints
        &&& self.num_soa_joints as int == (self.num_joints + 3) / 4
    }
    // Allocation and carving of the regions: the subject of template layout.
    #[verifier::external_body]
    fn new(meta: SkeletonMeta) -> (r: Skeleton)
        ensures r.wf(), r.num_joints == meta.num_joints, r.joint_names.g@ == Seq::<(Text, i16)>::empty()
    { unimplemented!() }
//@fn src/skeleton.rs Skeleton::num_joints
//@ret r
//@spec
    ensures r == self.num_joints
//@end
//@fn src/skeleton.rs Skeleton::num_soa_joints
//@ret r
//@spec
    ensures r == self.num_soa_joints
//@end
//@fn src/skeleton.rs Skeleton::version
//@ret r
//@spec
    ensures r == 2
//@end
//@fn src/skeleton.rs Skeleton::joint_rest_poses
//@sub unsafe \{ slice::from_raw_parts\(self\.joint_rest_poses, (.*)\) \} ==> prefix(&self.joint_rest_poses, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.joint_rest_poses@
//@begin
    proof { assert(self.joint_rest_poses@.take(self.joint_rest_poses@.len() as int) =~= self.joint_rest_poses@); }
//@end
//@fn src/skeleton.rs Skeleton::joint_rest_poses_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.joint_rest_poses, self\.(.*)\) \} ==> { let n_ = self.\1; prefix_mut(&mut self.joint_rest_poses, n_) }
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).joint_rest_poses@, final(r)@.len() == r@.len(), final(self).joint_rest_poses@ == final(r)@, final(self).wf(),
        *final(self) == (Skeleton { joint_rest_poses: final(self).joint_rest_poses, ..*old(self) })
//@begin
    proof {
        assert(self.joint_rest_poses@.take(self.joint_rest_poses@.len() as int) =~= self.joint_rest_poses@);
        assert(forall|x: Seq<SoaTransform>| (#[trigger] (x + self.joint_rest_poses@.skip(self.joint_rest_poses@.len() as int))) =~= x);
    }
//@end
//@fn src/skeleton.rs Skeleton::joint_parents
//@sub unsafe \{ slice::from_raw_parts\(self\.joint_parents, (.*)\) \} ==> prefix(&self.joint_parents, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.joint_parents@
//@begin
    proof { assert(self.joint_parents@.take(self.joint_parents@.len() as int) =~= self.joint_parents@); }
//@end
//@fn src/skeleton.rs Skeleton::joint_parents_mut
//@sub unsafe \{ slice::from_raw_parts_mut\(self\.joint_parents, self\.(.*)\) \} ==> { let n_ = self.\1; prefix_mut(&mut self.joint_parents, n_) }
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).joint_parents@, final(r)@.len() == r@.len(), final(self).joint_parents@ == final(r)@, final(self).wf(),
        *final(self) == (Skeleton { joint_parents: final(self).joint_parents, ..*old(self) })
//@begin
    proof {
        assert(self.joint_parents@.take(self.joint_parents@.len() as int) =~= self.joint_parents@);
        assert(forall|x: Seq<i16>| (#[trigger] (x + self.joint_parents@.skip(self.joint_parents@.len() as int))) =~= x);
    }
//@end
//@fn src/skeleton.rs Skeleton::joint_names
//@sub JointHashMap ==> Names
//@ret r
//@spec
    ensures *r == self.joint_names
//@end

    pub open spec fn same(&self, a: &SkeletonRaw) -> bool {
        self.wf() && self.joint_rest_poses@ == a.joint_rest_poses@ && self.joint_parents@ == a.joint_parents@ && self.joint_names == a.joint_names
    }
//@fn src/skeleton.rs Skeleton::from_raw
//@sub BiHashMap::default\(\) ==> Names::new()
//@sub skeleton\.(\w+_mut)\(\)\.copy_from_slice\(&raw\.(\w+)\); ==> copy_into(skeleton.\1(), raw.\2.as_slice());
//@ret r
//@spec
    requires raw.joint_parents@.len() <= u32::MAX, raw.joint_rest_poses@.len() == (raw.joint_parents@.len() + 3) / 4
    ensures r.same(raw)
//@end
//@fn src/skeleton.rs Skeleton::to_raw
//@sub self\.(\w+)\(\)\.to_vec\(\) ==> to_vec(self.\1())
//@ret r
//@spec
    requires self.wf()
    ensures self.same(&r)
//@end
}
//@item src/skeleton.rs struct SkeletonRaw
//@sub pub\(crate\) struct ==> pub struct
//@sub \bJointHashMap\b ==> Names
//@end
// ---- the context
//@item src/sampling_job.rs struct SamplingContextInner
//@sub \*mut (\w+) ==> Vec<\1>
//@sub (?m)^\s*struct ==> pub struct
//@sub (?m)^(\s+)(\w+): ==> \1pub \2:
//@end
//@item src/sampling_job.rs struct SamplingContext
//@sub \*mut SamplingContextInner ==> pub SamplingContextInner
//@end
pub uninterp spec fn eq_f(a: f32, b: f32) -> bool;
pub uninterp spec fn eq_3(a: Seq<InterpSoaFloat3>, b: Seq<InterpSoaFloat3>) -> bool;
pub uninterp spec fn eq_4(a: Seq<InterpSoaQuaternion>, b: Seq<InterpSoaQuaternion>) -> bool;
// == of the standard library, on floats (so NaN differs from itself), on slices of floats, of integers
#[verifier::external_body]
fn is_f(a: f32, b: f32) -> (r: bool) ensures r == eq_f(a, b) { unimplemented!() }
#[verifier::external_body]
fn is_3(a: &[InterpSoaFloat3], b: &[InterpSoaFloat3]) -> (r: bool) ensures r == eq_3(a@, b@) { unimplemented!() }
#[verifier::external_body]
fn is_4(a: &[InterpSoaQuaternion], b: &[InterpSoaQuaternion]) -> (r: bool) ensures r == eq_4(a@, b@) { unimplemented!() }
#[verifier::external_body]
fn is_e(a: &[u32], b: &[u32]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
fn is_o(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
impl SamplingContext {
    pub open spec fn whole(&self) -> bool {
        let i = self.0;
        &&& i.max_tracks == 4 * i.max_soa_tracks && i.max_outdated == (i.max_soa_tracks + 7) / 8
        &&& i.translations@.len() == i.max_soa_tracks && i.translation_entries@.len() == i.max_tracks && i.translation_outdated@.len() == i.max_outdated
        &&& i.rotations@.len() == i.max_soa_tracks && i.rotation_entries@.len() == i.max_tracks && i.rotation_outdated@.len() == i.max_outdated
        &&& i.scales@.len() == i.max_soa_tracks && i.scale_entries@.len() == i.max_tracks && i.scale_outdated@.len() == i.max_outdated
    }
    // every field a user can see
    pub open spec fn twin(&self, o: &SamplingContext) -> bool {
        let i = self.0;
        let j = o.0;
        &&& self.whole() && o.whole() && i.max_tracks == j.max_tracks && i.max_soa_tracks == j.max_soa_tracks && i.max_outdated == j.max_outdated
        &&& i.animation_id == j.animation_id && i.ratio == j.ratio
        &&& i.translations@ == j.translations@
        &&& i.translation_entries@ == j.translation_entries@
        &&& i.translation_outdated@ == j.translation_outdated@
        &&& i.rotations@ == j.rotations@
        &&& i.rotation_entries@ == j.rotation_entries@
        &&& i.rotation_outdated@ == j.rotation_outdated@
        &&& i.scales@ == j.scales@
        &&& i.scale_entries@ == j.scale_entries@
        &&& i.scale_outdated@ == j.scale_outdated@
        &&& i.translation_next == j.translation_next
        &&& i.rotation_next == j.rotation_next
        &&& i.scale_next == j.scale_next
    }
    // Allocation and carving of the regions: the subject of template layout.
    #[verifier::external_body]
    pub fn new(max_tracks: usize) -> (r: SamplingContext)
        ensures r.whole(), r.0.max_soa_tracks as int == (max_tracks + 3) / 4
    { unimplemented!() }
//@fn src/sampling_job.rs SamplingContext::inner
//@sub unsafe \{ &\*self\.0 \} ==> &self.0
//@ret r
//@spec
    ensures *r == self.0
//@end
//@fn src/sampling_job.rs SamplingContext::inner_mut
//@sub unsafe \{ &mut \*self\.0 \} ==> &mut self.0
//@ret r
//@spec
    ensures *r == old(self).0, final(self).0 == *final(r)
//@end
//@fn src/sampling_job.rs SamplingContext::max_tracks
//@ret r
//@spec
    ensures r == self.0.max_tracks
//@end
//@fn src/sampling_job.rs SamplingContext::max_soa_tracks
//@ret r
//@spec
    ensures r == self.0.max_soa_tracks
//@end
//@fn src/sampling_job.rs SamplingContext::max_outdated
//@ret r
//@spec
    ensures r == self.0.max_outdated
//@end
//@fn src/sampling_job.rs SamplingContext::animation_id
//@ret r
//@spec
    ensures r == self.0.animation_id
//@end
//@fn src/sampling_job.rs SamplingContext::ratio
//@ret r
//@spec
    ensures r == self.0.ratio
//@end
//@fn src/sampling_job.rs SamplingContext::translation_next
//@ret r
//@spec
    ensures r == self.0.translation_next
//@end
//@fn src/sampling_job.rs SamplingContext::rotation_next
//@ret r
//@spec
    ensures r == self.0.rotation_next
//@end
//@fn src/sampling_job.rs SamplingContext::scale_next
//@ret r
//@spec
    ensures r == self.0.scale_next
//@end
//@fn src/sampling_job.rs SamplingContext::set_animation_id
//@spec
    ensures final(self).0 == (SamplingContextInner { animation_id: animation_id, ..old(self).0 })
//@end
//@fn src/sampling_job.rs SamplingContext::set_ratio
//@spec
    ensures final(self).0 == (SamplingContextInner { ratio: ratio, ..old(self).0 })
//@end
//@fn src/sampling_job.rs SamplingContext::set_translation_next
//@spec
    ensures final(self).0 == (SamplingContextInner { translation_next: next, ..old(self).0 })
//@end
//@fn src/sampling_job.rs SamplingContext::set_rotation_next
//@spec
    ensures final(self).0 == (SamplingContextInner { rotation_next: next, ..old(self).0 })
//@end
//@fn src/sampling_job.rs SamplingContext::set_scale_next
//@spec
    ensures final(self).0 == (SamplingContextInner { scale_next: next, ..old(self).0 })
//@end
//@fn src/sampling_job.rs SamplingContext::translations
//@sub unsafe \{ slice::from_raw_parts\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix(&inner.\1, \2)
//@ret x
//@spec
    requires self.whole()
    ensures x@ == self.0.translations@
//@begin
    proof { assert(self.0.translations@.take(self.0.translations@.len() as int) =~= self.0.translations@); }
//@end
//@fn src/sampling_job.rs SamplingContext::translations_mut
//@sub self\.inner\(\) ==> self.inner_mut()
//@sub unsafe \{ slice::from_raw_parts_mut\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix_mut(&mut inner.\1, \2)
//@ret x
//@spec
    requires old(self).whole()
    ensures x@ == old(self).0.translations@, final(x)@.len() == x@.len(), final(self).0.translations@ == final(x)@, final(self).whole(),
        final(self).0 == (SamplingContextInner { translations: final(self).0.translations, ..old(self).0 })
//@begin
    proof {
        assert(self.0.translations@.take(self.0.translations@.len() as int) =~= self.0.translations@);
        assert(forall|x: Seq<InterpSoaFloat3>| (#[trigger] (x + self.0.translations@.skip(self.0.translations@.len() as int))) =~= x);
    }
//@end
//@fn src/sampling_job.rs SamplingContext::translation_entries
//@sub unsafe \{ slice::from_raw_parts\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix(&inner.\1, \2)
//@ret x
//@spec
    requires self.whole()
    ensures x@ == self.0.translation_entries@
//@begin
    proof { assert(self.0.translation_entries@.take(self.0.translation_entries@.len() as int) =~= self.0.translation_entries@); }
//@end
//@fn src/sampling_job.rs SamplingContext::translation_entries_mut
//@sub self\.inner\(\) ==> self.inner_mut()
//@sub unsafe \{ slice::from_raw_parts_mut\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix_mut(&mut inner.\1, \2)
//@ret x
//@spec
    requires old(self).whole()
    ensures x@ == old(self).0.translation_entries@, final(x)@.len() == x@.len(), final(self).0.translation_entries@ == final(x)@, final(self).whole(),
        final(self).0 == (SamplingContextInner { translation_entries: final(self).0.translation_entries, ..old(self).0 })
//@begin
    proof {
        assert(self.0.translation_entries@.take(self.0.translation_entries@.len() as int) =~= self.0.translation_entries@);
        assert(forall|x: Seq<u32>| (#[trigger] (x + self.0.translation_entries@.skip(self.0.translation_entries@.len() as int))) =~= x);
    }
//@end
//@fn src/sampling_job.rs SamplingContext::translation_outdated
//@sub unsafe \{ slice::from_raw_parts\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix(&inner.\1, \2)
//@ret x
//@spec
    requires self.whole()
    ensures x@ == self.0.translation_outdated@
//@begin
    proof { assert(self.0.translation_outdated@.take(self.0.translation_outdated@.len() as int) =~= self.0.translation_outdated@); }
//@end
//@fn src/sampling_job.rs SamplingContext::translation_outdated_mut
//@sub self\.inner\(\) ==> self.inner_mut()
//@sub unsafe \{ slice::from_raw_parts_mut\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix_mut(&mut inner.\1, \2)
//@ret x
//@spec
    requires old(self).whole()
    ensures x@ == old(self).0.translation_outdated@, final(x)@.len() == x@.len(), final(self).0.translation_outdated@ == final(x)@, final(self).whole(),
        final(self).0 == (SamplingContextInner { translation_outdated: final(self).0.translation_outdated, ..old(self).0 })
//@begin
    proof {
        assert(self.0.translation_outdated@.take(self.0.translation_outdated@.len() as int) =~= self.0.translation_outdated@);
        assert(forall|x: Seq<u8>| (#[trigger] (x + self.0.translation_outdated@.skip(self.0.translation_outdated@.len() as int))) =~= x);
    }
//@end
//@fn src/sampling_job.rs SamplingContext::rotations
//@sub unsafe \{ slice::from_raw_parts\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix(&inner.\1, \2)
//@ret x
//@spec
    requires self.whole()
    ensures x@ == self.0.rotations@
//@begin
    proof { assert(self.0.rotations@.take(self.0.rotations@.len() as int) =~= self.0.rotations@); }
//@end
//@fn src/sampling_job.rs SamplingContext::rotations_mut
//@sub self\.inner\(\) ==> self.inner_mut()
//@sub unsafe \{ slice::from_raw_parts_mut\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix_mut(&mut inner.\1, \2)
//@ret x
//@spec
    requires old(self).whole()
    ensures x@ == old(self).0.rotations@, final(x)@.len() == x@.len(), final(self).0.rotations@ == final(x)@, final(self).whole(),
        final(self).0 == (SamplingContextInner { rotations: final(self).0.rotations, ..old(self).0 })
//@begin
    proof {
        assert(self.0.rotations@.take(self.0.rotations@.len() as int) =~= self.0.rotations@);
        assert(forall|x: Seq<InterpSoaQuaternion>| (#[trigger] (x + self.0.rotations@.skip(self.0.rotations@.len() as int))) =~= x);
    }
//@end
//@fn src/sampling_job.rs SamplingContext::rotation_entries
//@sub unsafe \{ slice::from_raw_parts\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix(&inner.\1, \2)
//@ret x
//@spec
    requires self.whole()
    ensures x@ == self.0.rotation_entries@
//@begin
    proof { assert(self.0.rotation_entries@.take(self.0.rotation_entries@.len() as int) =~= self.0.rotation_entries@); }
//@end
//@fn src/sampling_job.rs SamplingContext::rotation_entries_mut
//@sub self\.inner\(\) ==> self.inner_mut()
//@sub unsafe \{ slice::from_raw_parts_mut\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix_mut(&mut inner.\1, \2)
//@ret x
//@spec
    requires old(self).whole()
    ensures x@ == old(self).0.rotation_entries@, final(x)@.len() == x@.len(), final(self).0.rotation_entries@ == final(x)@, final(self).whole(),
        final(self).0 == (SamplingContextInner { rotation_entries: final(self).0.rotation_entries, ..old(self).0 })
//@begin
    proof {
        assert(self.0.rotation_entries@.take(self.0.rotation_entries@.len() as int) =~= self.0.rotation_entries@);
        assert(forall|x: Seq<u32>| (#[trigger] (x + self.0.rotation_entries@.skip(self.0.rotation_entries@.len() as int))) =~= x);
    }
//@end
//@fn src/sampling_job.rs SamplingContext::rotation_outdated
//@sub unsafe \{ slice::from_raw_parts\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix(&inner.\1, \2)
//@ret x
//@spec
    requires self.whole()
    ensures x@ == self.0.rotation_outdated@
//@begin
    proof { assert(self.0.rotation_outdated@.take(self.0.rotation_outdated@.len() as int) =~= self.0.rotation_outdated@); }
//@end
//@fn src/sampling_job.rs SamplingContext::rotation_outdated_mut
//@sub self\.inner\(\) ==> self.inner_mut()
//@sub unsafe \{ slice::from_raw_parts_mut\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix_mut(&mut inner.\1, \2)
//@ret x
//@spec
    requires old(self).whole()
    ensures x@ == old(self).0.rotation_outdated@, final(x)@.len() == x@.len(), final(self).0.rotation_outdated@ == final(x)@, final(self).whole(),
        final(self).0 == (SamplingContextInner { rotation_outdated: final(self).0.rotation_outdated, ..old(self).0 })
//@begin
    proof {
        assert(self.0.rotation_outdated@.take(self.0.rotation_outdated@.len() as int) =~= self.0.rotation_outdated@);
        assert(forall|x: Seq<u8>| (#[trigger] (x + self.0.rotation_outdated@.skip(self.0.rotation_outdated@.len() as int))) =~= x);
    }
//@end
//@fn src/sampling_job.rs SamplingContext::scales
//@sub unsafe \{ slice::from_raw_parts\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix(&inner.\1, \2)
//@ret x
//@spec
    requires self.whole()
    ensures x@ == self.0.scales@
//@begin
    proof { assert(self.0.scales@.take(self.0.scales@.len() as int) =~= self.0.scales@); }
//@end
//@fn src/sampling_job.rs SamplingContext::scales_mut
//@sub self\.inner\(\) ==> self.inner_mut()
//@sub unsafe \{ slice::from_raw_parts_mut\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix_mut(&mut inner.\1, \2)
//@ret x
//@spec
    requires old(self).whole()
    ensures x@ == old(self).0.scales@, final(x)@.len() == x@.len(), final(self).0.scales@ == final(x)@, final(self).whole(),
        final(self).0 == (SamplingContextInner { scales: final(self).0.scales, ..old(self).0 })
//@begin
    proof {
        assert(self.0.scales@.take(self.0.scales@.len() as int) =~= self.0.scales@);
        assert(forall|x: Seq<InterpSoaFloat3>| (#[trigger] (x + self.0.scales@.skip(self.0.scales@.len() as int))) =~= x);
    }
//@end
//@fn src/sampling_job.rs SamplingContext::scale_entries
//@sub unsafe \{ slice::from_raw_parts\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix(&inner.\1, \2)
//@ret x
//@spec
    requires self.whole()
    ensures x@ == self.0.scale_entries@
//@begin
    proof { assert(self.0.scale_entries@.take(self.0.scale_entries@.len() as int) =~= self.0.scale_entries@); }
//@end
//@fn src/sampling_job.rs SamplingContext::scale_entries_mut
//@sub self\.inner\(\) ==> self.inner_mut()
//@sub unsafe \{ slice::from_raw_parts_mut\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix_mut(&mut inner.\1, \2)
//@ret x
//@spec
    requires old(self).whole()
    ensures x@ == old(self).0.scale_entries@, final(x)@.len() == x@.len(), final(self).0.scale_entries@ == final(x)@, final(self).whole(),
        final(self).0 == (SamplingContextInner { scale_entries: final(self).0.scale_entries, ..old(self).0 })
//@begin
    proof {
        assert(self.0.scale_entries@.take(self.0.scale_entries@.len() as int) =~= self.0.scale_entries@);
        assert(forall|x: Seq<u32>| (#[trigger] (x + self.0.scale_entries@.skip(self.0.scale_entries@.len() as int))) =~= x);
    }
//@end
//@fn src/sampling_job.rs SamplingContext::scale_outdated
//@sub unsafe \{ slice::from_raw_parts\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix(&inner.\1, \2)
//@ret x
//@spec
    requires self.whole()
    ensures x@ == self.0.scale_outdated@
//@begin
    proof { assert(self.0.scale_outdated@.take(self.0.scale_outdated@.len() as int) =~= self.0.scale_outdated@); }
//@end
//@fn src/sampling_job.rs SamplingContext::scale_outdated_mut
//@sub self\.inner\(\) ==> self.inner_mut()
//@sub unsafe \{ slice::from_raw_parts_mut\(inner\.(\w+), ([^;{}]*)\) \} ==> prefix_mut(&mut inner.\1, \2)
//@ret x
//@spec
    requires old(self).whole()
    ensures x@ == old(self).0.scale_outdated@, final(x)@.len() == x@.len(), final(self).0.scale_outdated@ == final(x)@, final(self).whole(),
        final(self).0 == (SamplingContextInner { scale_outdated: final(self).0.scale_outdated, ..old(self).0 })
//@begin
    proof {
        assert(self.0.scale_outdated@.take(self.0.scale_outdated@.len() as int) =~= self.0.scale_outdated@);
        assert(forall|x: Seq<u8>| (#[trigger] (x + self.0.scale_outdated@.skip(self.0.scale_outdated@.len() as int))) =~= x);
    }
//@end
//@fn src/sampling_job.rs Clone for SamplingContext::clone
//@sub (?s)ctx\.(\w+_mut)\(\)\s*\.copy_from_slice\(self\.(\w+)\(\)\); ==> copy_into(ctx.\1(), self.\2());
//@ret r
//@spec
    requires self.whole()
    ensures r.twin(self)
//@end
//@fn src/sampling_job.rs PartialEq for SamplingContext::eq
//@sub self\.ratio\(\) == other\.ratio\(\) ==> is_f(self.ratio(), other.ratio())
//@sub self\.(translations|scales)\(\) == other\.(\w+)\(\) ==> is_3(self.\1(), other.\2())
//@sub self\.rotations\(\) == other\.rotations\(\) ==> is_4(self.rotations(), other.rotations())
//@sub self\.(translation|rotation|scale)_entries\(\) == other\.(\w+)_entries\(\) ==> is_e(self.\1_entries(), other.\2_entries())
//@sub self\.(translation|rotation|scale)_outdated\(\) == other\.(\w+)_outdated\(\) ==> is_o(self.\1_outdated(), other.\2_outdated())
//@ret r
//@spec
    requires self.whole(), other.whole()
    ensures r == ({
        let i = self.0;
        let j = other.0;
        &&& i.max_tracks == j.max_tracks && i.max_soa_tracks == j.max_soa_tracks && i.max_outdated == j.max_outdated
        &&& i.animation_id == j.animation_id && eq_f(i.ratio, j.ratio)
        &&& eq_3(i.translations@, j.translations@) && i.translation_entries@ == j.translation_entries@ && i.translation_outdated@ == j.translation_outdated@ && i.translation_next == j.translation_next
        &&& eq_4(i.rotations@, j.rotations@) && i.rotation_entries@ == j.rotation_entries@ && i.rotation_outdated@ == j.rotation_outdated@ && i.rotation_next == j.rotation_next
        &&& eq_3(i.scales@, j.scales@) && i.scale_entries@ == j.scale_entries@ && i.scale_outdated@ == j.scale_outdated@ && i.scale_next == j.scale_next
    })
//@end
//@fn src/sampling_job.rs SamplingContext::clone_without_animation_id
//@ret r
//@spec
    requires self.whole()
    ensures r.twin(&SamplingContext(SamplingContextInner { animation_id: 0, ..self.0 }))
//@end
//@fn src/sampling_job.rs SamplingContext::clear
//@sub 0\.0\b ==> zero()
//@spec
    requires old(self).whole()
    ensures final(self).0 == (SamplingContextInner { animation_id: 0, ratio: final(self).0.ratio, translation_next: 0, rotation_next: 0, scale_next: 0, ..old(self).0 })
//@end
}
fn zero() -> f32 { 0.0f32 }
}
