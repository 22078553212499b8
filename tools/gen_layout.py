"""Writes verus/layout.rs."""
import os
SIZES = [("f32x4", 16), ("InterpSoaFloat3", 128), ("InterpSoaQuaternion", 160), ("SoaTransform", 160), ("Float3Key", 6), ("QuaternionKey", 6),
         ("f32", 4), ("u32", 4), ("i32", 4), ("u16", 2), ("i16", 2), ("u8", 1)]
SUB = r"""//@sub? mem::size_of::<SamplingContextInner>\(\) ==> size_inner()
""" + "".join(f"//@sub? mem::size_of::<{t}>\\(\\) ==> {n}usize\n" for t, n in SIZES) + r"""//@sub? mem::align_of::<f32>\(\) ==> 4usize
//@sub? mem::align_of::<SoaTransform>\(\) ==> 16usize
//@sub? const ALIGN: usize ==> let ALIGN: usize
//@sub? unsafe \{ ==> {
//@sub? (?s)ptr\.add\(((?:[^()]|\([^()]*\))*)\) ==> (ptr + (\1))
//@sub? (\w+(?:\.\w+)?) as \*mut \w+ ==> \1
//@sub? std::ptr::null_mut\(\) ==> 0usize
//@sub? ptr::null_mut\(\) ==> 0usize
//@sub? (?s)if ptr\.is_null\(\) \{[^{}]*\} ==>
//@sub? let layout = Layout::from_size_align_unchecked\((.*)\); ==> let layout = layout_of(\1);
"""
STRUCT = r"""//@sub \*mut \w+ ==> usize
//@sub? (?m)^\s*struct ==> pub struct
//@sub (?m)^(\s+)(?:pub )?(\w+): ==> \1pub \2:
//@end
"""
# regions in order: (field, size expression over the struct, alignment)
def chain(regions, start, end, obj):
    """Each region starts, aligned, at or after the end of the one before, and the last ends before `end`."""
    out, prev = [], start
    for f, size, al in regions:
        out.append(f"        &&& {prev} <= {obj}.{f}" + (f" && al({obj}.{f} as int, {al})" if al > 1 else ""))
        prev = f"{obj}.{f} + {size}"
    out.append(f"        &&& {prev} <= {end}")
    return "\n".join(out)
ctx = []
for n, sz in [("translation", 128), ("rotation", 160), ("scale", 128)]:
    ctx += [(n + "s", f"{sz} * self.max_soa_tracks", 16), (n + "_entries", "4 * self.max_tracks", 4), (n + "_outdated", "self.max_outdated", 1)]
ani = [("timepoints", "4 * self.timepoints_count", 4)]
for n, c in [("translation", "t"), ("rotation", "r"), ("scale", "s")]:
    ani += [(n + "s", f"6 * self.{n}s_count", 2), (c + "_ratios", f"2 * self.{n}s_count", 2), (c + "_previouses", f"2 * self.{n}s_count", 2),
            (c + "_iframe_entries", f"self.{c}_iframe_entries_count", 1), (c + "_iframe_desc", f"4 * self.{c}_iframe_desc_count", 4)]
counts = ["timepoints_count"] + [f"{n}s_count" for n in ("translation", "rotation", "scale")] + [f"{c}_iframe_{x}_count" for c in "trs" for x in ("entries", "desc")]
T = r"""// C06, C07, C19: where the objects that hold their data behind raw pointers put it: pointers are addresses (usize) here
// (written by tools/gen_layout.py).
#![allow(non_camel_case_types, non_snake_case, unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize)
    requires b > 0,
    ensures r as int == (a + b - 1) / (b as int);
pub assume_specification[ u32::div_ceil ](a: u32, b: u32) -> (r: u32)
    requires b > 0,
    ensures r as int == (a + b - 1) / (b as int);
pub uninterp spec fn sz_inner() -> int;
#[verifier::external_body]
fn size_inner() -> (r: usize) ensures r == sz_inner(), 0 < r <= 4096 { unimplemented!() }
// std::alloc: a block of the size asked for, aligned, within the address space (assumed; failure aborts)
pub ghost struct Lay { pub size: int, pub align: int }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Layout { x: usize }
impl Layout { pub uninterp spec fn l(self) -> Lay; }
#[verifier::external_body]
fn layout_of(size: usize, align: usize) -> (r: Layout)
    requires align == 1 || align == 2 || align == 4 || align == 8 || align == 16, size <= 0x7fff_ffff_ffff_fff0
    ensures r.l() == (Lay { size: size as int, align: align as int })
{ unimplemented!() }
pub open spec fn block(p: int, l: Lay) -> bool { p > 0 && al(p, l.align) && p + l.size <= 0x7fff_ffff_ffff_ffff }
mod alloc {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub fn alloc(l: Layout) -> (r: usize) requires l.l().size > 0 ensures block(r as int, l.l()) { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_zeroed(l: Layout) -> (r: usize) requires l.l().size > 0 ensures block(r as int, l.l()) { unimplemented!() }
    }
}
fn must(b: bool) requires b {}
macro_rules! same { ($a:expr, $b:expr) => { must($a == $b) }; }

// x is a multiple of a; x rounded up to one
#[verifier::opaque]
pub open spec fn al(x: int, a: int) -> bool { x % a == 0 }
#[verifier::opaque]
pub open spec fn ru(x: int, a: int) -> int { if x % a == 0 { x } else { x + a - x % a } }
proof fn ru_from(b: int, x: int, a: int)
    requires al(b, a), a == 4 || a == 16
    ensures ru(x, a) == b + ru(x - b, a)
{ reveal(al); reveal(ru); if a == 4 { assert(b % 4 == 0 && (x - b) % 4 == x % 4); } else { assert(b % 16 == 0 && (x - b) % 16 == x % 16); } }
proof fn only4(x: int, r: int)
    requires r % 4 == 0, x <= r < x + 4
    ensures r == ru(x, 4), al(r, 4)
{ reveal(al); reveal(ru); }
proof fn only16(x: int, r: int)
    requires r % 16 == 0, x <= r < x + 16
    ensures r == ru(x, 16), al(r, 16)
{ reveal(al); reveal(ru); }
proof fn round(s: usize, a: usize, r: usize)
    requires s <= 0x7fff_ffff_ffff_ffff, (a == 4 && r == (s + 4 - 1) as usize & !3usize) || (a == 16 && r == (s + 16 - 1) as usize & !15usize)
    ensures r == ru(s as int, a as int), al(r as int, a as int), s <= r < s + a
{
    assert(s <= 0x7fff_ffff_ffff_ffff ==> ((s + 4 - 1) as usize & !3usize) % 4 == 0 && (s + 4 - 1) as usize & !3usize >= s && (s + 4 - 1) as usize & !3usize < s + 4) by (bit_vector);
    assert(s <= 0x7fff_ffff_ffff_ffff ==> ((s + 16 - 1) as usize & !15usize) % 16 == 0 && (s + 16 - 1) as usize & !15usize >= s && (s + 16 - 1) as usize & !15usize < s + 16) by (bit_vector);
    if a == 4 { only4(s as int, r as int); } else { only16(s as int, r as int); }
}
// multiples of the greater size, moved by a multiple of the smaller
proof fn al_off(x: int, a: int, k: int, b: int)
    requires al(x, a), a == 16 || a == 4 || a == 2, b == 16 || b == 4 || b == 2, b <= a, k % b == 0
    ensures al(x + k, b)
{
    reveal(al);
    if a == 16 { assert(x % 16 == 0); if b == 16 { assert(k % 16 == 0); } else if b == 4 { assert(k % 4 == 0); } else { assert(k % 2 == 0); } }
    else if a == 4 { assert(x % 4 == 0); if b == 4 { assert(k % 4 == 0); } else { assert(k % 2 == 0); } }
    else { assert(x % 2 == 0); assert(k % 2 == 0); }
}
proof fn al_const() ensures al(4, 4), al(16, 16) { reveal(al); }
//@fn src/base.rs align_usize
//@sub? assert!\(align\.is_power_of_two\(\)\); ==>
//@ret r
//@spec
    requires align == 4 || align == 16, size <= 0x7fff_ffff_ffff_ffff
    ensures size <= r < size + align, r == ru(size as int, align as int), al(r as int, align as int)
//@begin
    proof {
        assert(!((4 - 1) as usize) == !3usize && !((16 - 1) as usize) == !15usize);
        if align == 4 { round(size, align, (size + 4 - 1) as usize & !3usize); } else { round(size, align, (size + 16 - 1) as usize & !15usize); }
    }
//@end
//@fn src/base.rs align_ptr
//@sub? assert!\(align\.is_power_of_two\(\)\); ==>
//@sub \*mut u8 ==> usize
//@ret r
//@spec
    requires align == 4 || align == 16, ptr <= 0x7fff_ffff_ffff_ffff
    ensures ptr <= r < ptr + align, al(r as int, align as int), forall|b: int| #[trigger] al(b, align as int) ==> r == b + ru(ptr - b, align as int)
//@begin
    proof { assert forall|b: int| #[trigger] al(b, align as int) implies ru(ptr as int, align as int) == b + ru(ptr - b, align as int) by { ru_from(b, ptr as int, align as int); } }
//@end

// ---- SamplingContext
//@item src/sampling_job.rs struct SamplingContextInner
""" + STRUCT + r"""impl SamplingContextInner {
    // the regions follow each other, aligned, without overlap, from the end of the header to the end of the block
    pub open spec fn laid_out(&self, base: int) -> bool {
        &&& self.max_tracks == 4 * self.max_soa_tracks && self.max_outdated == (self.max_soa_tracks + 7) / 8
""" + chain(ctx, "base + sz_inner()", "base + self.size", "self") + r"""
    }
//@fn src/sampling_job.rs Default for SamplingContextInner::default
""" + SUB + r"""//@ret r
//@spec
    ensures r.translation_next == 0, r.rotation_next == 0, r.scale_next == 0
//@end
}
pub struct SamplingContext(pub SamplingContextInner, pub Ghost<int>);
impl SamplingContext {
//@fn src/sampling_job.rs SamplingContext::new
""" + SUB + r"""//@sub let mut ctx = SamplingContext\(ptr\); ==> let base = ptr;
//@sub let inner = ctx\.inner_mut\(\); ==>
//@sub \*inner = SamplingContextInner::default\(\); ==> let mut inner = SamplingContextInner::default();
//@sub assert_eq!\(ptr, \(ctx\.0\)\.add\((\w+)\)\); ==> same!(ptr, base + \1);
//@sub \n\s*ctx\s*\} ==> proof { al_off(inner.translations as int, 16, 128 * max_soa_tracks as int, 4); al_off(inner.rotations as int, 16, 160 * max_soa_tracks as int, 4); al_off(inner.scales as int, 16, 128 * max_soa_tracks as int, 4); } SamplingContext(inner, Ghost(base as int)) }
//@ret r
//@spec
    requires max_tracks <= 0x1_0000_0000
    ensures r.0.laid_out(r.1@), r.0.max_soa_tracks == (max_tracks + 3) / 4, r.0.animation_id == 0,
        r.0.translation_next == 0, r.0.rotation_next == 0, r.0.scale_next == 0,
//@end
}

// ---- Animation
//@item src/animation.rs struct Animation
""" + STRUCT + r"""//@item src/animation.rs struct AnimationMeta
//@end
impl Animation {
    pub open spec fn laid_out(&self) -> bool {
        &&& self.size == 0 || self.timepoints > 0
""" + chain(ani, "0", "self.timepoints + self.size", "self") + r"""
    }
    pub open spec fn counts_of(&self, m: AnimationMeta) -> bool {
        """ + " && ".join(f"self.{c} == m.{c}" for c in counts) + r"""
    }
//@fn src/animation.rs Animation::new
""" + SUB + r"""//@sub assert_eq!\(ptr, \(animation\.timepoints\)\.add\(animation\.size\)\); ==> proof { al_off(animation.timepoints as int, 4, 4 * animation.timepoints_count as int, 4); al_off(animation.t_iframe_desc as int, 4, 4 * animation.t_iframe_desc_count as int, 4); al_off(animation.r_iframe_desc as int, 4, 4 * animation.r_iframe_desc_count as int, 4); al_off(animation.translations as int, 4, 6 * animation.translations_count as int, 2); al_off(animation.translations as int, 4, 8 * animation.translations_count as int, 2); al_off(animation.rotations as int, 4, 6 * animation.rotations_count as int, 2); al_off(animation.rotations as int, 4, 8 * animation.rotations_count as int, 2); al_off(animation.scales as int, 4, 6 * animation.scales_count as int, 2); al_off(animation.scales as int, 4, 8 * animation.scales_count as int, 2); } proof { al_off(animation.translations as int, 4, 0, 2); al_off(animation.rotations as int, 4, 0, 2); al_off(animation.scales as int, 4, 0, 2); } same!(ptr, animation.timepoints + animation.size);
//@ret r
//@spec
    ensures r.laid_out(), r.counts_of(meta), r.duration == meta.duration, r.num_tracks == meta.num_tracks, r.name == meta.name
//@begin
    proof { al_const(); }
//@end
}

// ---- Skeleton
//@item src/skeleton.rs struct Skeleton
//@sub JointHashMap ==> ()
""" + STRUCT + r"""//@item src/skeleton.rs struct SkeletonMeta
//@sub JointHashMap ==> ()
//@end
impl Skeleton {
    pub open spec fn laid_out(&self) -> bool {
        &&& self.num_soa_joints == (self.num_joints + 3) / 4
        &&& self.joint_rest_poses > 0 && al(self.joint_rest_poses as int, 16) && al(self.joint_parents as int, 2)
        &&& self.joint_rest_poses + 160 * self.num_soa_joints <= self.joint_parents
        &&& self.joint_parents + 2 * self.num_joints <= self.joint_rest_poses + self.size
    }
//@fn src/skeleton.rs Skeleton::num_joints
//@ret r
//@spec
    ensures r == self.num_joints
//@end
//@fn src/skeleton.rs Skeleton::num_soa_joints
//@ret r
//@spec
    ensures r == self.num_soa_joints
//@end
//@fn src/skeleton.rs Skeleton::new
""" + SUB + r"""//@sub (?s)BiHashMap::with_capacity_and_hashers\([^;]*?\),\n\s*\}; ==> () };
//@sub assert_eq!\(ptr, \(skeleton\.joint_rest_poses\)\.add\(skeleton\.size\)\); ==> proof { al_off(skeleton.joint_rest_poses as int, 16, 160 * skeleton.num_soa_joints as int, 2); } same!(ptr, skeleton.joint_rest_poses + skeleton.size);
//@ret r
//@spec
    ensures r.laid_out(), r.num_joints == meta.num_joints
//@begin
    proof { al_const(); }
//@end
}
}
"""
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "verus", "layout.rs"), "w").write(T)
