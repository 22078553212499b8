// C06, C07, C19: where the objects that hold their data behind raw pointers put it: pointers are addresses (usize) here
// (written by tools/gen_layout.py).
#![allow(non_camel_case_types, non_snake_case, unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize)
    requires b > 0,
    ensures r as int == (a + b - 1) / (b as int);
pub assume_specification[ u32::div_ceil ](a: u32, b: u32) -> (r: u32)
    requires b > 0,
    ensures r as int == (a + b - 1) / (b as int);
pub uninterp spec fn sz_inner() -> int;
#[verifier::external_body]
fn size_inner() -> (r: usize) ensures r == sz_inner(), 0 < r <= 4096 { unimplemented!() }
// std::alloc: a block of the size asked for, aligned, within the address space (assumed; failure aborts)
pub ghost struct Lay { pub size: int, pub align: int }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Layout { x: usize }
impl Layout { pub uninterp spec fn l(self) -> Lay; }
#[verifier::external_body]
fn layout_of(size: usize, align: usize) -> (r: Layout)
    requires align == 1 || align == 2 || align == 4 || align == 8 || align == 16, size <= 0x7fff_ffff_ffff_fff0
    ensures r.l() == (Lay { size: size as int, align: align as int })
{ unimplemented!() }
pub open spec fn block(p: int, l: Lay) -> bool { p > 0 && al(p, l.align) && p + l.size <= 0x7fff_ffff_ffff_ffff }
mod alloc {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub fn alloc(l: Layout) -> (r: usize) requires l.l().size > 0 ensures block(r as int, l.l()) { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_zeroed(l: Layout) -> (r: usize) requires l.l().size > 0 ensures block(r as int, l.l()) { unimplemented!() }
    }
}
fn must(b: bool) requires b {}
macro_rules! same { ($a:expr, $b:expr) => { must($a == $b) }; }

// x is a multiple of a; x rounded up to one
#[verifier::opaque]
pub open spec fn al(x: int, a: int) -> bool { x % a == 0 }
#[verifier::opaque]
pub open spec fn ru(x: int, a: int) -> int { if x % a == 0 { x } else { x + a - x % a } }
proof fn ru_from(b: int, x: int, a: int)
    requires al(b, a), a == 4 || a == 16
    ensures ru(x, a) == b + ru(x - b, a)
{ reveal(al); reveal(ru); if a == 4 { assert(b % 4 == 0 && (x - b) % 4 == x % 4); } else { assert(b % 16 == 0 && (x - b) % 16 == x % 16); } }
proof fn only4(x: int, r: int)
    requires r % 4 == 0, x <= r < x + 4
    ensures r == ru(x, 4), al(r, 4)
{ reveal(al); reveal(ru); }
proof fn only16(x: int, r: int)
    requires r % 16 == 0, x <= r < x + 16
    ensures r == ru(x, 16), al(r, 16)
{ reveal(al); reveal(ru); }
proof fn round(s: usize, a: usize, r: usize)
    requires s <= 0x7fff_ffff_ffff_ffff, (a == 4 && r == (s + 4 - 1) as usize & !3usize) || (a == 16 && r == (s + 16 - 1) as usize & !15usize)
    ensures r == ru(s as int, a as int), al(r as int, a as int), s <= r < s + a
{
    assert(s <= 0x7fff_ffff_ffff_ffff ==> ((s + 4 - 1) as usize & !3usize) % 4 == 0 && (s + 4 - 1) as usize & !3usize >= s && (s + 4 - 1) as usize & !3usize < s + 4) by (bit_vector);
    assert(s <= 0x7fff_ffff_ffff_ffff ==> ((s + 16 - 1) as usize & !15usize) % 16 == 0 && (s + 16 - 1) as usize & !15usize >= s && (s + 16 - 1) as usize & !15usize < s + 16) by (bit_vector);
    if a == 4 { only4(s as int, r as int); } else { only16(s as int, r as int); }
}
// multiples of the greater size, moved by a multiple of the smaller
proof fn al_off(x: int, a: int, k: int, b: int)
    requires al(x, a), a == 16 || a == 4 || a == 2, b == 16 || b == 4 || b == 2, b <= a, k % b == 0
    ensures al(x + k, b)
{
    reveal(al);
    if a == 16 { assert(x % 16 == 0); if b == 16 { assert(k % 16 == 0); } else if b == 4 { assert(k % 4 == 0); } else { assert(k % 2 == 0); } }
    else if a == 4 { assert(x % 4 == 0); if b == 4 { assert(k % 4 == 0); } else { assert(k % 2 == 0); } }
    else { assert(x % 2 == 0); assert(k % 2 == 0); }
}
proof fn al_const() ensures al(4, 4), al(16, 16) { reveal(al); }
//@fn src/base.rs align_usize
//@sub? assert!\(align\.is_power_of_two\(\)\); ==>
//@ret r
//@spec
    requires align == 4 || align == 16, size <= 0x7fff_ffff_ffff_ffff
    ensures size <= r < size + align, r == ru(size as int, align as int), al(r as int, align as int)
//@begin
    proof {
        assert(!((4 - 1) as usize) == !3usize && !((16 - 1) as usize) == !15usize);
        if align == 4 { round(size, align, (size + 4 - 1) as usize & !3usize); } else { round(size, align, (size + 16 - 1) as usize & !15usize); }
    }
//@end
//@fn src/base.rs align_ptr
//@sub? assert!\(align\.is_power_of_two\(\)\); ==>
//@sub \*mut u8 ==> usize
//@ret r
//@spec
    requires align == 4 || align == 16, ptr <= 0x7fff_ffff_ffff_ffff
    ensures ptr <= r < ptr + align, al(r as int, align as int), forall|b: int| #[trigger] al(b, align as int) ==> r == b + ru(ptr - b, align as int)
//@begin
    proof { assert forall|b: int| #[trigger] al(b, align as int) implies ru(ptr as int, align as int) == b + ru(ptr - b, align as int) by { ru_from(b, ptr as int, align as int); } }
//@end

// ---- SamplingContext
//@item src/sampling_job.rs struct SamplingContextInner
//@sub \*mut \w+ ==> usize
//@sub? (?m)^\s*struct ==> pub struct
//@sub (?m)^(\s+)(?:pub )?(\w+): ==> \1pub \2:
//@end
impl SamplingContextInner {
    // the regions follow each other, aligned, without overlap, from the end of the header to the end of the block
    pub open spec fn laid_out(&self, base: int) -> bool {
        &&& self.max_tracks == 4 * self.max_soa_tracks && self.max_outdated == (self.max_soa_tracks + 7) / 8
        &&& base + sz_inner() <= self.translations && al(self.translations as int, 16)
        &&& self.translations + 128 * self.max_soa_tracks <= self.translation_entries && al(self.translation_entries as int, 4)
        &&& self.translation_entries + 4 * self.max_tracks <= self.translation_outdated
        &&& self.translation_outdated + self.max_outdated <= self.rotations && al(self.rotations as int, 16)
        &&& self.rotations + 160 * self.max_soa_tracks <= self.rotation_entries && al(self.rotation_entries as int, 4)
        &&& self.rotation_entries + 4 * self.max_tracks <= self.rotation_outdated
        &&& self.rotation_outdated + self.max_outdated <= self.scales && al(self.scales as int, 16)
        &&& self.scales + 128 * self.max_soa_tracks <= self.scale_entries && al(self.scale_entries as int, 4)
        &&& self.scale_entries + 4 * self.max_tracks <= self.scale_outdated
        &&& self.scale_outdated + self.max_outdated <= base + self.size
    }
//@fn src/sampling_job.rs Default for SamplingContextInner::default
//@sub? mem::size_of::<SamplingContextInner>\(\) ==> size_inner()
//@sub? mem::size_of::<f32x4>\(\) ==> 16usize
//@sub? mem::size_of::<InterpSoaFloat3>\(\) ==> 128usize
//@sub? mem::size_of::<InterpSoaQuaternion>\(\) ==> 160usize
//@sub? mem::size_of::<SoaTransform>\(\) ==> 160usize
//@sub? mem::size_of::<Float3Key>\(\) ==> 6usize
//@sub? mem::size_of::<QuaternionKey>\(\) ==> 6usize
//@sub? mem::size_of::<f32>\(\) ==> 4usize
//@sub? mem::size_of::<u32>\(\) ==> 4usize
//@sub? mem::size_of::<i32>\(\) ==> 4usize
//@sub? mem::size_of::<u16>\(\) ==> 2usize
//@sub? mem::size_of::<i16>\(\) ==> 2usize
//@sub? mem::size_of::<u8>\(\) ==> 1usize
//@sub? mem::align_of::<f32>\(\) ==> 4usize
//@sub? mem::align_of::<SoaTransform>\(\) ==> 16usize
//@sub? const ALIGN: usize ==> let ALIGN: usize
//@sub? unsafe \{ ==> {
//@sub? (?s)ptr\.add\(((?:[^()]|\([^()]*\))*)\) ==> (ptr + (\1))
//@sub? (\w+(?:\.\w+)?) as \*mut \w+ ==> \1
//@sub? std::ptr::null_mut\(\) ==> 0usize
//@sub? ptr::null_mut\(\) ==> 0usize
//@sub? (?s)if ptr\.is_null\(\) \{[^{}]*\} ==>
//@sub? let layout = Layout::from_size_align_unchecked\((.*)\); ==> let layout = layout_of(\1);
//@ret r
//@spec
    ensures r.translation_next == 0, r.rotation_next == 0, r.scale_next == 0
//@end
}
pub struct SamplingContext(pub SamplingContextInner, pub Ghost<int>);
impl SamplingContext {
//@fn src/sampling_job.rs SamplingContext::new
//@sub? mem::size_of::<SamplingContextInner>\(\) ==> size_inner()
//@sub? mem::size_of::<f32x4>\(\) ==> 16usize
//@sub? mem::size_of::<InterpSoaFloat3>\(\) ==> 128usize
//@sub? mem::size_of::<InterpSoaQuaternion>\(\) ==> 160usize
//@sub? mem::size_of::<SoaTransform>\(\) ==> 160usize
//@sub? mem::size_of::<Float3Key>\(\) ==> 6usize
//@sub? mem::size_of::<QuaternionKey>\(\) ==> 6usize
//@sub? mem::size_of::<f32>\(\) ==> 4usize
//@sub? mem::size_of::<u32>\(\) ==> 4usize
//@sub? mem::size_of::<i32>\(\) ==> 4usize
//@sub? mem::size_of::<u16>\(\) ==> 2usize
//@sub? mem::size_of::<i16>\(\) ==> 2usize
//@sub? mem::size_of::<u8>\(\) ==> 1usize
//@sub? mem::align_of::<f32>\(\) ==> 4usize
//@sub? mem::align_of::<SoaTransform>\(\) ==> 16usize
//@sub? const ALIGN: usize ==> let ALIGN: usize
//@sub? unsafe \{ ==> {
//@sub? (?s)ptr\.add\(((?:[^()]|\([^()]*\))*)\) ==> (ptr + (\1))
//@sub? (\w+(?:\.\w+)?) as \*mut \w+ ==> \1
//@sub? std::ptr::null_mut\(\) ==> 0usize
//@sub? ptr::null_mut\(\) ==> 0usize
//@sub? (?s)if ptr\.is_null\(\) \{[^{}]*\} ==>
//@sub? let layout = Layout::from_size_align_unchecked\((.*)\); ==> let layout = layout_of(\1);
//@sub let mut ctx = SamplingContext\(ptr\); ==> let base = ptr;
//@sub let inner = ctx\.inner_mut\(\); ==>
//@sub \*inner = SamplingContextInner::default\(\); ==> let mut inner = SamplingContextInner::default();
//@sub assert_eq!\(ptr, \(ctx\.0\)\.add\((\w+)\)\); ==> same!(ptr, base + \1);
//@sub \n\s*ctx\s*\} ==> proof { al_off(inner.translations as int, 16, 128 * max_soa_tracks as int, 4); al_off(inner.rotations as int, 16, 160 * max_soa_tracks as int, 4); al_off(inner.scales as int, 16, 128 * max_soa_tracks as int, 4); } SamplingContext(inner, Ghost(base as int)) }
//@ret r
//@spec
    requires max_tracks <= 0x1_0000_0000
    ensures r.0.laid_out(r.1@), r.0.max_soa_tracks == (max_tracks + 3) / 4, r.0.animation_id == 0,
        r.0.translation_next == 0, r.0.rotation_next == 0, r.0.scale_next == 0,
//@end
}

// ---- Animation
//@item src/animation.rs struct Animation
//@sub \*mut \w+ ==> usize
//@sub? (?m)^\s*struct ==> pub struct
//@sub (?m)^(\s+)(?:pub )?(\w+): ==> \1pub \2:
//@end
//@item src/animation.rs struct AnimationMeta
//@end
impl Animation {
    pub open spec fn laid_out(&self) -> bool {
        &&& self.size == 0 || self.timepoints > 0
        &&& 0 <= self.timepoints && al(self.timepoints as int, 4)
        &&& self.timepoints + 4 * self.timepoints_count <= self.translations && al(self.translations as int, 2)
        &&& self.translations + 6 * self.translations_count <= self.t_ratios && al(self.t_ratios as int, 2)
        &&& self.t_ratios + 2 * self.translations_count <= self.t_previouses && al(self.t_previouses as int, 2)
        &&& self.t_previouses + 2 * self.translations_count <= self.t_iframe_entries
        &&& self.t_iframe_entries + self.t_iframe_entries_count <= self.t_iframe_desc && al(self.t_iframe_desc as int, 4)
        &&& self.t_iframe_desc + 4 * self.t_iframe_desc_count <= self.rotations && al(self.rotations as int, 2)
        &&& self.rotations + 6 * self.rotations_count <= self.r_ratios && al(self.r_ratios as int, 2)
        &&& self.r_ratios + 2 * self.rotations_count <= self.r_previouses && al(self.r_previouses as int, 2)
        &&& self.r_previouses + 2 * self.rotations_count <= self.r_iframe_entries
        &&& self.r_iframe_entries + self.r_iframe_entries_count <= self.r_iframe_desc && al(self.r_iframe_desc as int, 4)
        &&& self.r_iframe_desc + 4 * self.r_iframe_desc_count <= self.scales && al(self.scales as int, 2)
        &&& self.scales + 6 * self.scales_count <= self.s_ratios && al(self.s_ratios as int, 2)
        &&& self.s_ratios + 2 * self.scales_count <= self.s_previouses && al(self.s_previouses as int, 2)
        &&& self.s_previouses + 2 * self.scales_count <= self.s_iframe_entries
        &&& self.s_iframe_entries + self.s_iframe_entries_count <= self.s_iframe_desc && al(self.s_iframe_desc as int, 4)
        &&& self.s_iframe_desc + 4 * self.s_iframe_desc_count <= self.timepoints + self.size
    }
    pub open spec fn counts_of(&self, m: AnimationMeta) -> bool {
        self.timepoints_count == m.timepoints_count && self.translations_count == m.translations_count && self.rotations_count == m.rotations_count && self.scales_count == m.scales_count && self.t_iframe_entries_count == m.t_iframe_entries_count && self.t_iframe_desc_count == m.t_iframe_desc_count && self.r_iframe_entries_count == m.r_iframe_entries_count && self.r_iframe_desc_count == m.r_iframe_desc_count && self.s_iframe_entries_count == m.s_iframe_entries_count && self.s_iframe_desc_count == m.s_iframe_desc_count
    }
//@fn src/animation.rs Animation::new
//@sub? mem::size_of::<SamplingContextInner>\(\) ==> size_inner()
//@sub? mem::size_of::<f32x4>\(\) ==> 16usize
//@sub? mem::size_of::<InterpSoaFloat3>\(\) ==> 128usize
//@sub? mem::size_of::<InterpSoaQuaternion>\(\) ==> 160usize
//@sub? mem::size_of::<SoaTransform>\(\) ==> 160usize
//@sub? mem::size_of::<Float3Key>\(\) ==> 6usize
//@sub? mem::size_of::<QuaternionKey>\(\) ==> 6usize
//@sub? mem::size_of::<f32>\(\) ==> 4usize
//@sub? mem::size_of::<u32>\(\) ==> 4usize
//@sub? mem::size_of::<i32>\(\) ==> 4usize
//@sub? mem::size_of::<u16>\(\) ==> 2usize
//@sub? mem::size_of::<i16>\(\) ==> 2usize
//@sub? mem::size_of::<u8>\(\) ==> 1usize
//@sub? mem::align_of::<f32>\(\) ==> 4usize
//@sub? mem::align_of::<SoaTransform>\(\) ==> 16usize
//@sub? const ALIGN: usize ==> let ALIGN: usize
//@sub? unsafe \{ ==> {
//@sub? (?s)ptr\.add\(((?:[^()]|\([^()]*\))*)\) ==> (ptr + (\1))
//@sub? (\w+(?:\.\w+)?) as \*mut \w+ ==> \1
//@sub? std::ptr::null_mut\(\) ==> 0usize
//@sub? ptr::null_mut\(\) ==> 0usize
//@sub? (?s)if ptr\.is_null\(\) \{[^{}]*\} ==>
//@sub? let layout = Layout::from_size_align_unchecked\((.*)\); ==> let layout = layout_of(\1);
//@sub assert_eq!\(ptr, \(animation\.timepoints\)\.add\(animation\.size\)\); ==> proof { al_off(animation.timepoints as int, 4, 4 * animation.timepoints_count as int, 4); al_off(animation.t_iframe_desc as int, 4, 4 * animation.t_iframe_desc_count as int, 4); al_off(animation.r_iframe_desc as int, 4, 4 * animation.r_iframe_desc_count as int, 4); al_off(animation.translations as int, 4, 6 * animation.translations_count as int, 2); al_off(animation.translations as int, 4, 8 * animation.translations_count as int, 2); al_off(animation.rotations as int, 4, 6 * animation.rotations_count as int, 2); al_off(animation.rotations as int, 4, 8 * animation.rotations_count as int, 2); al_off(animation.scales as int, 4, 6 * animation.scales_count as int, 2); al_off(animation.scales as int, 4, 8 * animation.scales_count as int, 2); } proof { al_off(animation.translations as int, 4, 0, 2); al_off(animation.rotations as int, 4, 0, 2); al_off(animation.scales as int, 4, 0, 2); } same!(ptr, animation.timepoints + animation.size);
//@ret r
//@spec
    ensures r.laid_out(), r.counts_of(meta), r.duration == meta.duration, r.num_tracks == meta.num_tracks, r.name == meta.name
//@begin
    proof { al_const(); }
//@end
}

// ---- Skeleton
//@item src/skeleton.rs struct Skeleton
//@sub JointHashMap ==> ()
//@sub \*mut \w+ ==> usize
//@sub? (?m)^\s*struct ==> pub struct
//@sub (?m)^(\s+)(?:pub )?(\w+): ==> \1pub \2:
//@end
//@item src/skeleton.rs struct SkeletonMeta
//@sub JointHashMap ==> ()
//@end
impl Skeleton {
    pub open spec fn laid_out(&self) -> bool {
        &&& self.num_soa_joints == (self.num_joints + 3) / 4
        &&& self.joint_rest_poses > 0 && al(self.joint_rest_poses as int, 16) && al(self.joint_parents as int, 2)
        &&& self.joint_rest_poses + 160 * self.num_soa_joints <= self.joint_parents
        &&& self.joint_parents + 2 * self.num_joints <= self.joint_rest_poses + self.size
    }
//@fn src/skeleton.rs Skeleton::num_joints
//@ret r
//@spec
    ensures r == self.num_joints
//@end
//@fn src/skeleton.rs Skeleton::num_soa_joints
//@ret r
//@spec
    ensures r == self.num_soa_joints
//@end
//@fn src/skeleton.rs Skeleton::new
//@sub? mem::size_of::<SamplingContextInner>\(\) ==> size_inner()
//@sub? mem::size_of::<f32x4>\(\) ==> 16usize
//@sub? mem::size_of::<InterpSoaFloat3>\(\) ==> 128usize
//@sub? mem::size_of::<InterpSoaQuaternion>\(\) ==> 160usize
//@sub? mem::size_of::<SoaTransform>\(\) ==> 160usize
//@sub? mem::size_of::<Float3Key>\(\) ==> 6usize
//@sub? mem::size_of::<QuaternionKey>\(\) ==> 6usize
//@sub? mem::size_of::<f32>\(\) ==> 4usize
//@sub? mem::size_of::<u32>\(\) ==> 4usize
//@sub? mem::size_of::<i32>\(\) ==> 4usize
//@sub? mem::size_of::<u16>\(\) ==> 2usize
//@sub? mem::size_of::<i16>\(\) ==> 2usize
//@sub? mem::size_of::<u8>\(\) ==> 1usize
//@sub? mem::align_of::<f32>\(\) ==> 4usize
//@sub? mem::align_of::<SoaTransform>\(\) ==> 16usize
//@sub? const ALIGN: usize ==> let ALIGN: usize
//@sub? unsafe \{ ==> {
//@sub? (?s)ptr\.add\(((?:[^()]|\([^()]*\))*)\) ==> (ptr + (\1))
//@sub? (\w+(?:\.\w+)?) as \*mut \w+ ==> \1
//@sub? std::ptr::null_mut\(\) ==> 0usize
//@sub? ptr::null_mut\(\) ==> 0usize
//@sub? (?s)if ptr\.is_null\(\) \{[^{}]*\} ==>
//@sub? let layout = Layout::from_size_align_unchecked\((.*)\); ==> let layout = layout_of(\1);
//@sub (?s)BiHashMap::with_capacity_and_hashers\([^;]*?\),\n\s*\}; ==> () };
//@sub assert_eq!\(ptr, \(skeleton\.joint_rest_poses\)\.add\(skeleton\.size\)\); ==> proof { al_off(skeleton.joint_rest_poses as int, 16, 160 * skeleton.num_soa_joints as int, 2); } same!(ptr, skeleton.joint_rest_poses + skeleton.size);
//@ret r
//@spec
    ensures r.laid_out(), r.num_joints == meta.num_joints
//@begin
    proof { al_const(); }
//@end
}
}
