// C17: the SIMD math kernel, lane by lane, over the real numbers.
#![allow(non_camel_case_types, non_snake_case, unused)]
use vstd::prelude::*;
//@include simd.rs
verus! {
use sd::*;
broadcast use sd::ops;
//@real

//@const src/math.rs ZERO
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == 0real
//@end
//@const src/math.rs ONE
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == 1real
//@end
//@const src/math.rs TWO
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == 2real
//@end
//@const src/math.rs THREE
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == 3real
//@end
//@const src/math.rs NEG_ONE
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == -1real
//@end
//@const src/math.rs FRAC_1_2
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == 1real / 2real
//@end
//@const src/math.rs X_AXIS
//@spec
    ensures r.l(0) == 1real, r.l(1) == 0real, r.l(2) == 0real, r.l(3) == 0real
//@end
//@const src/math.rs Y_AXIS
//@spec
    ensures r.l(0) == 0real, r.l(1) == 1real, r.l(2) == 0real, r.l(3) == 0real
//@end
//@const src/math.rs Z_AXIS
//@spec
    ensures r.l(0) == 0real, r.l(1) == 0real, r.l(2) == 1real, r.l(3) == 0real
//@end
//@const src/math.rs QUAT_UNIT
//@spec
    ensures r.l(0) == 0real, r.l(1) == 0real, r.l(2) == 0real, r.l(3) == 1real
//@end
//@const src/math.rs SIGN
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == bi(i32::MIN)
//@end
//@const src/math.rs SIGN_W
//@spec
    ensures r.l(0) == bi(0i32), r.l(1) == bi(0i32), r.l(2) == bi(0i32), r.l(3) == bi(i32::MIN)
//@end

// The glam types: plain records of components.
#[derive(Clone, Copy)]
pub struct Vec3 { pub x: F, pub y: F, pub z: F }
impl Vec3 {
    pub fn new(x: F, y: F, z: F) -> (r: Vec3) ensures r == (Vec3 { x, y, z }) { Vec3 { x, y, z } }
}
#[derive(Clone, Copy)]
pub struct Quat { pub x: F, pub y: F, pub z: F, pub w: F }
impl Quat {
    pub fn from_xyzw(x: F, y: F, z: F, w: F) -> (r: Quat) ensures r == (Quat { x, y, z, w }) { Quat { x, y, z, w } }
}

// --- lanes and masks

//@fn src/math.rs fx4_set_y
//@ret r
//@spec
    ensures r.l(0) == a.l(0), r.l(1) == b.l(0), r.l(2) == a.l(2), r.l(3) == a.l(3)
//@end
//@fn src/math.rs fx4_set_z
//@ret r
//@spec
    ensures r.l(0) == a.l(0), r.l(1) == a.l(1), r.l(2) == b.l(0), r.l(3) == a.l(3)
//@end
//@fn src/math.rs fx4_set_w
//@ret r
//@spec
    ensures r.l(0) == a.l(0), r.l(1) == a.l(1), r.l(2) == a.l(2), r.l(3) == b.l(0)
//@end
//@fn src/math.rs fx4_splat_x
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == v.l(0)
//@end
//@fn src/math.rs fx4_splat_y
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == v.l(1)
//@end
//@fn src/math.rs fx4_splat_z
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == v.l(2)
//@end
//@fn src/math.rs fx4_splat_w
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == v.l(3)
//@end
//@fn src/math.rs ix4_splat_x
//@sub simd_swizzle! ==> iswizzle!
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == v.l(0)
//@end
//@fn src/math.rs ix4_splat_y
//@sub simd_swizzle! ==> iswizzle!
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == v.l(1)
//@end
//@fn src/math.rs ix4_splat_z
//@sub simd_swizzle! ==> iswizzle!
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == v.l(2)
//@end
//@fn src/math.rs ix4_splat_w
//@sub simd_swizzle! ==> iswizzle!
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == v.l(3)
//@end
//@fn src/math.rs fx4_sign
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == (if v.l(i) < 0real { bi(i32::MIN) } else { bi(0i32) })
//@end
//@fn src/math.rs fx4_and
//@ret r
//@spec
    ensures
        forall|i: int| s.l(i) == bi(-1i32) ==> #[trigger] r.l(i) == v.l(i),
        forall|i: int| s.l(i) == bi(0i32) ==> #[trigger] r.l(i) == 0real,
//@begin
    proof { fval_zero(); }
//@end
//@fn src/math.rs fx4_or
//@ret r
//@spec
    ensures forall|i: int| s.l(i) == bi(0i32) ==> #[trigger] r.l(i) == v.l(i),
        forall|i: int| v.l(i) == 0real ==> #[trigger] r.l(i) == fval(s.l(i)),
//@begin
    proof { fval_zero(); }
//@end
//@fn src/math.rs fx4_xor
//@ret r
//@spec
    ensures
        forall|i: int| s.l(i) == bi(0i32) ==> #[trigger] r.l(i) == v.l(i),
        forall|i: int| s.l(i) == bi(i32::MIN) ==> #[trigger] r.l(i) == -v.l(i),
//@end
//@fn src/math.rs fx4_clamp_or_max
//@ret r
//@spec
    requires forall|i: int| 0 <= i < 4 ==> (#[trigger] min.l(i)) <= max.l(i)
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == (if v.l(i) < min.l(i) { min.l(i) } else if v.l(i) > max.l(i) { max.l(i) } else { v.l(i) })
//@end
//@fn src/math.rs fx4_clamp_or_min
//@ret r
//@spec
    requires forall|i: int| 0 <= i < 4 ==> (#[trigger] min.l(i)) <= max.l(i)
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == (if v.l(i) < min.l(i) { min.l(i) } else if v.l(i) > max.l(i) { max.l(i) } else { v.l(i) })
//@end
//@fn src/math.rs f32_clamp_or_max
//@ret r
//@spec
    requires min.v() <= max.v()
    ensures r.v() == (if v.v() < min.v() { min.v() } else if v.v() > max.v() { max.v() } else { v.v() })
//@end
//@fn src/math.rs f32_clamp_or_min
//@ret r
//@spec
    requires min.v() <= max.v()
    ensures r.v() == (if v.v() < min.v() { min.v() } else if v.v() > max.v() { max.v() } else { v.v() })
//@end
//@fn src/math.rs fx4_lerp
//@nonlinear
//@ret r
//@spec
    ensures forall|i: int| #[trigger] r.l(i) == from.l(i) + (to.l(i) - from.l(i)) * alpha.l(i)
//@end

// --- packed vectors and quaternions

pub open spec fn dot3(a: f32x4, b: f32x4) -> real { a.l(0) * b.l(0) + a.l(1) * b.l(1) + a.l(2) * b.l(2) }
pub open spec fn dot4(a: f32x4, b: f32x4) -> real { dot3(a, b) + a.l(3) * b.l(3) }
// c is the cross product of the first three lanes.
pub open spec fn cross3(c: f32x4, a: f32x4, b: f32x4) -> bool {
    &&& c.l(0) == a.l(1) * b.l(2) - a.l(2) * b.l(1)
    &&& c.l(1) == a.l(2) * b.l(0) - a.l(0) * b.l(2)
    &&& c.l(2) == a.l(0) * b.l(1) - a.l(1) * b.l(0)
}
// c is Hamilton's product a b.
pub open spec fn hamilton(c: f32x4, a: f32x4, b: f32x4) -> bool {
    &&& c.l(0) == a.l(3) * b.l(0) + a.l(0) * b.l(3) + a.l(1) * b.l(2) - a.l(2) * b.l(1)
    &&& c.l(1) == a.l(3) * b.l(1) + a.l(1) * b.l(3) + a.l(2) * b.l(0) - a.l(0) * b.l(2)
    &&& c.l(2) == a.l(3) * b.l(2) + a.l(2) * b.l(3) + a.l(0) * b.l(1) - a.l(1) * b.l(0)
    &&& c.l(3) == a.l(3) * b.l(3) - a.l(0) * b.l(0) - a.l(1) * b.l(1) - a.l(2) * b.l(2)
}

// v + 2w(u x v) + 2 u x (u x v), with q = (u, w).
pub open spec fn rotated(r: f32x4, q: f32x4, v: f32x4) -> bool {
    let (x, y, z, w) = (q.l(0), q.l(1), q.l(2), q.l(3));
    let (a, b, c) = (v.l(0), v.l(1), v.l(2));
    let (tx, ty, tz) = (w * a + (y * c - z * b), w * b + (z * a - x * c), w * c + (x * b - y * a));
    &&& r.l(0) == a + 2real * (y * tz - z * ty)
    &&& r.l(1) == b + 2real * (z * tx - x * tz)
    &&& r.l(2) == c + 2real * (x * ty - y * tx)
}

//@fn src/math.rs vec3_is_normalized
//@sub \bv\[(\d)\] ==> v.at(\1)
//@sub \((MIN < len2)\) & \((len2 < MAX)\) ==> (\1) && (\2)
//@ret r
//@spec
    ensures r == (998real / 1000real < dot3(v, v) && dot3(v, v) < 1002real / 1000real)
//@end
//@fn src/math.rs vec3_dot_s
//@ret r
//@spec
    ensures r.l(0) == dot3(a, b)
//@end
//@fn src/math.rs vec3_length2_s
//@ret r
//@spec
    ensures r.l(0) == dot3(v, v)
//@end
//@fn src/math.rs vec3_cross
//@ret r
//@spec
    ensures cross3(r, a, b), r.l(3) == 0real
//@end
//@fn src/math.rs quat_length2_s
//@ret r
//@spec
    ensures forall|i: int| #[trigger] r.l(i) == dot4(q, q)
//@end
//@fn src/math.rs quat_normalize
//@ret r
//@spec
    ensures forall|i: int| #[trigger] r.l(i) == q.l(i) * (1real / rsqrt(dot4(q, q)))
//@end
//@fn src/math.rs quat_transform_vector
//@ret r
//@spec
    ensures rotated(r, q, v), r.l(3) == v.l(3)
//@end
//@fn src/math.rs quat_mul
//@ret r
//@spec
    ensures hamilton(r, a, b)
//@end
//@fn src/math.rs quat_positive_w
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == (if q.l(3) < 0real { -q.l(i) } else { q.l(i) })
//@end

// --- structure of arrays

#[derive(Clone, Copy)]
//@item src/math.rs struct SoaVec3
//@end
#[derive(Clone, Copy)]
//@item src/math.rs struct SoaQuat
//@end
#[derive(Clone, Copy)]
//@item src/math.rs struct SoaTransform
//@end
impl SoaVec3 {
//@fn src/math.rs SoaVec3::new
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.x.l(i) == x@[i].v(),
        forall|i: int| 0 <= i < 4 ==> #[trigger] r.y.l(i) == y@[i].v(),
        forall|i: int| 0 <= i < 4 ==> #[trigger] r.z.l(i) == z@[i].v(),
//@end
//@fn src/math.rs SoaVec3::splat
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.x.l(i) == f.v(),
        forall|i: int| 0 <= i < 4 ==> #[trigger] r.y.l(i) == f.v(),
        forall|i: int| 0 <= i < 4 ==> #[trigger] r.z.l(i) == f.v(),
//@end
//@fn src/math.rs SoaVec3::splat_vec3
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.x.l(i) == v.x.v(),
        forall|i: int| 0 <= i < 4 ==> #[trigger] r.y.l(i) == v.y.v(),
        forall|i: int| 0 <= i < 4 ==> #[trigger] r.z.l(i) == v.z.v(),
//@end
//@fn src/math.rs SoaVec3::vec3
//@sub \bself\.(\w)\[idx\] ==> self.\1.at(idx)
//@ret r
//@spec
    requires idx < 4
    ensures r.x.v() == self.x.l(idx as int), r.y.v() == self.y.l(idx as int), r.z.v() == self.z.l(idx as int)
//@end
//@fn src/math.rs SoaVec3::set_vec3
//@sub self\.(\w)\[idx\] = (v\.\w); ==> self.\1.put(idx, \2);
//@spec
    requires idx < 4
    ensures forall|i: int| #[trigger] final(self).x.l(i) == (if i == idx { v.x.v() } else { old(self).x.l(i) }),
        forall|i: int| #[trigger] final(self).y.l(i) == (if i == idx { v.y.v() } else { old(self).y.l(i) }),
        forall|i: int| #[trigger] final(self).z.l(i) == (if i == idx { v.z.v() } else { old(self).z.l(i) }),
//@end
//@fn src/math.rs SoaVec3::neg
//@ret r
//@spec
    ensures forall|i: int| #[trigger] r.x.l(i) == -self.x.l(i),
        forall|i: int| #[trigger] r.y.l(i) == -self.y.l(i),
        forall|i: int| #[trigger] r.z.l(i) == -self.z.l(i),
//@end
//@fn src/math.rs SoaVec3::add
//@ret r
//@spec
    ensures forall|i: int| #[trigger] r.x.l(i) == self.x.l(i) + other.x.l(i),
        forall|i: int| #[trigger] r.y.l(i) == self.y.l(i) + other.y.l(i),
        forall|i: int| #[trigger] r.z.l(i) == self.z.l(i) + other.z.l(i),
//@end
//@fn src/math.rs SoaVec3::sub
//@ret r
//@spec
    ensures forall|i: int| #[trigger] r.x.l(i) == self.x.l(i) - other.x.l(i),
        forall|i: int| #[trigger] r.y.l(i) == self.y.l(i) - other.y.l(i),
        forall|i: int| #[trigger] r.z.l(i) == self.z.l(i) - other.z.l(i),
//@end
//@fn src/math.rs SoaVec3::mul_num
//@ret r
//@spec
    ensures forall|i: int| #[trigger] r.x.l(i) == self.x.l(i) * f.l(i),
        forall|i: int| #[trigger] r.y.l(i) == self.y.l(i) * f.l(i),
        forall|i: int| #[trigger] r.z.l(i) == self.z.l(i) * f.l(i),
//@end
//@fn src/math.rs SoaVec3::lerp
//@ret r
//@spec
    ensures forall|i: int| #[trigger] r.x.l(i) == from.x.l(i) + (to.x.l(i) - from.x.l(i)) * alpha.l(i),
        forall|i: int| #[trigger] r.y.l(i) == from.y.l(i) + (to.y.l(i) - from.y.l(i)) * alpha.l(i),
        forall|i: int| #[trigger] r.z.l(i) == from.z.l(i) + (to.z.l(i) - from.z.l(i)) * alpha.l(i),
//@end
//@fn src/math.rs SoaVec3::and_num
//@ret r
//@spec
    ensures
        forall|k: int| i.l(k) == bi(-1i32) ==> #[trigger] r.x.l(k) == self.x.l(k),
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.x.l(k) == 0real,
        forall|k: int| i.l(k) == bi(-1i32) ==> #[trigger] r.y.l(k) == self.y.l(k),
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.y.l(k) == 0real,
        forall|k: int| i.l(k) == bi(-1i32) ==> #[trigger] r.z.l(k) == self.z.l(k),
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.z.l(k) == 0real,
//@end
//@fn src/math.rs SoaVec3::xor_num
//@ret r
//@spec
    ensures
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.x.l(k) == self.x.l(k),
        forall|k: int| i.l(k) == bi(i32::MIN) ==> #[trigger] r.x.l(k) == -self.x.l(k),
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.y.l(k) == self.y.l(k),
        forall|k: int| i.l(k) == bi(i32::MIN) ==> #[trigger] r.y.l(k) == -self.y.l(k),
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.z.l(k) == self.z.l(k),
        forall|k: int| i.l(k) == bi(i32::MIN) ==> #[trigger] r.z.l(k) == -self.z.l(k),
//@end
//@fn src/math.rs SoaVec3::or_num
//@ret r
//@spec
    ensures
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.x.l(k) == self.x.l(k),
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.y.l(k) == self.y.l(k),
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.z.l(k) == self.z.l(k),
//@end
}

pub open spec fn qdot(a: SoaQuat, b: SoaQuat, i: int) -> real { a.x.l(i) * b.x.l(i) + a.y.l(i) * b.y.l(i) + a.z.l(i) * b.z.l(i) + a.w.l(i) * b.w.l(i) }
pub open spec fn mix(a: real, b: real, f: real) -> real { a + (b - a) * f }
pub open spec fn mix2(a: SoaQuat, b: SoaQuat, f: real, i: int) -> real {
    mix(a.x.l(i), b.x.l(i), f) * mix(a.x.l(i), b.x.l(i), f) + mix(a.y.l(i), b.y.l(i), f) * mix(a.y.l(i), b.y.l(i), f)
        + mix(a.z.l(i), b.z.l(i), f) * mix(a.z.l(i), b.z.l(i), f) + mix(a.w.l(i), b.w.l(i), f) * mix(a.w.l(i), b.w.l(i), f)
}
impl SoaQuat {
//@fn src/math.rs SoaQuat::new
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.x.l(i) == x@[i].v(),
        forall|i: int| 0 <= i < 4 ==> #[trigger] r.y.l(i) == y@[i].v(),
        forall|i: int| 0 <= i < 4 ==> #[trigger] r.z.l(i) == z@[i].v(),
        forall|i: int| 0 <= i < 4 ==> #[trigger] r.w.l(i) == w@[i].v(),
//@end
//@fn src/math.rs SoaQuat::splat_quat
//@sub unsafe \{ mem::transmute::<Quat, \[f32; 4\]>\(q\) \} ==> [q.x, q.y, q.z, q.w]
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.x.l(i) == q.x.v(),
        forall|i: int| 0 <= i < 4 ==> #[trigger] r.y.l(i) == q.y.v(),
        forall|i: int| 0 <= i < 4 ==> #[trigger] r.z.l(i) == q.z.v(),
        forall|i: int| 0 <= i < 4 ==> #[trigger] r.w.l(i) == q.w.v(),
//@end
//@fn src/math.rs SoaQuat::quat
//@sub \bself\.(\w)\[idx\] ==> self.\1.at(idx)
//@ret r
//@spec
    requires idx < 4
    ensures r.x.v() == self.x.l(idx as int), r.y.v() == self.y.l(idx as int), r.z.v() == self.z.l(idx as int), r.w.v() == self.w.l(idx as int)
//@end
//@fn src/math.rs SoaQuat::set_quat
//@sub self\.(\w)\[idx\] = (q\.\w); ==> self.\1.put(idx, \2);
//@spec
    requires idx < 4
    ensures forall|i: int| #[trigger] final(self).x.l(i) == (if i == idx { q.x.v() } else { old(self).x.l(i) }),
        forall|i: int| #[trigger] final(self).y.l(i) == (if i == idx { q.y.v() } else { old(self).y.l(i) }),
        forall|i: int| #[trigger] final(self).z.l(i) == (if i == idx { q.z.v() } else { old(self).z.l(i) }),
        forall|i: int| #[trigger] final(self).w.l(i) == (if i == idx { q.w.v() } else { old(self).w.l(i) }),
//@end
//@fn src/math.rs SoaQuat::conjugate
//@ret r
//@spec
    ensures forall|i: int| #[trigger] r.x.l(i) == -self.x.l(i),
        forall|i: int| #[trigger] r.y.l(i) == -self.y.l(i),
        forall|i: int| #[trigger] r.z.l(i) == -self.z.l(i),
        forall|i: int| #[trigger] r.w.l(i) == self.w.l(i),
//@end
//@fn src/math.rs SoaQuat::add
//@ret r
//@spec
    ensures forall|i: int| #[trigger] r.x.l(i) == self.x.l(i) + other.x.l(i),
        forall|i: int| #[trigger] r.y.l(i) == self.y.l(i) + other.y.l(i),
        forall|i: int| #[trigger] r.z.l(i) == self.z.l(i) + other.z.l(i),
        forall|i: int| #[trigger] r.w.l(i) == self.w.l(i) + other.w.l(i),
//@end
//@fn src/math.rs SoaQuat::mul
//@ret r
//@spec
    ensures forall|i: int| #[trigger] r.x.l(i) == self.w.l(i) * other.x.l(i) + self.x.l(i) * other.w.l(i) + self.y.l(i) * other.z.l(i) - self.z.l(i) * other.y.l(i),
        forall|i: int| #[trigger] r.y.l(i) == self.w.l(i) * other.y.l(i) + self.y.l(i) * other.w.l(i) + self.z.l(i) * other.x.l(i) - self.x.l(i) * other.z.l(i),
        forall|i: int| #[trigger] r.z.l(i) == self.w.l(i) * other.z.l(i) + self.z.l(i) * other.w.l(i) + self.x.l(i) * other.y.l(i) - self.y.l(i) * other.x.l(i),
        forall|i: int| #[trigger] r.w.l(i) == self.w.l(i) * other.w.l(i) - self.x.l(i) * other.x.l(i) - self.y.l(i) * other.y.l(i) - self.z.l(i) * other.z.l(i),
//@end
//@fn src/math.rs SoaQuat::mul_num
//@ret r
//@spec
    ensures forall|i: int| #[trigger] r.x.l(i) == self.x.l(i) * f.l(i),
        forall|i: int| #[trigger] r.y.l(i) == self.y.l(i) * f.l(i),
        forall|i: int| #[trigger] r.z.l(i) == self.z.l(i) * f.l(i),
        forall|i: int| #[trigger] r.w.l(i) == self.w.l(i) * f.l(i),
//@end
//@fn src/math.rs SoaQuat::normalize
//@ret r
//@spec
    ensures forall|i: int| #[trigger] r.x.l(i) == self.x.l(i) * (1real / rsqrt(qdot(*self, *self, i))),
        forall|i: int| #[trigger] r.y.l(i) == self.y.l(i) * (1real / rsqrt(qdot(*self, *self, i))),
        forall|i: int| #[trigger] r.z.l(i) == self.z.l(i) * (1real / rsqrt(qdot(*self, *self, i))),
        forall|i: int| #[trigger] r.w.l(i) == self.w.l(i) * (1real / rsqrt(qdot(*self, *self, i))),
//@end
//@fn src/math.rs SoaQuat::dot
//@ret r
//@spec
    ensures forall|i: int| #[trigger] r.l(i) == qdot(*self, *other, i)
//@end
//@fn src/math.rs SoaQuat::nlerp
//@ret r
//@spec
    ensures forall|i: int| #[trigger] r.x.l(i) == mix(self.x.l(i), other.x.l(i), f.l(i)) * (1real / rsqrt(mix2(*self, *other, f.l(i), i))),
        forall|i: int| #[trigger] r.y.l(i) == mix(self.y.l(i), other.y.l(i), f.l(i)) * (1real / rsqrt(mix2(*self, *other, f.l(i), i))),
        forall|i: int| #[trigger] r.z.l(i) == mix(self.z.l(i), other.z.l(i), f.l(i)) * (1real / rsqrt(mix2(*self, *other, f.l(i), i))),
        forall|i: int| #[trigger] r.w.l(i) == mix(self.w.l(i), other.w.l(i), f.l(i)) * (1real / rsqrt(mix2(*self, *other, f.l(i), i))),
//@end
//@fn src/math.rs SoaQuat::and_num
//@ret r
//@spec
    ensures
        forall|k: int| i.l(k) == bi(-1i32) ==> #[trigger] r.x.l(k) == self.x.l(k),
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.x.l(k) == 0real,
        forall|k: int| i.l(k) == bi(-1i32) ==> #[trigger] r.y.l(k) == self.y.l(k),
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.y.l(k) == 0real,
        forall|k: int| i.l(k) == bi(-1i32) ==> #[trigger] r.z.l(k) == self.z.l(k),
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.z.l(k) == 0real,
        forall|k: int| i.l(k) == bi(-1i32) ==> #[trigger] r.w.l(k) == self.w.l(k),
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.w.l(k) == 0real,
//@end
//@fn src/math.rs SoaQuat::xor_num
//@ret r
//@spec
    ensures
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.x.l(k) == self.x.l(k),
        forall|k: int| i.l(k) == bi(i32::MIN) ==> #[trigger] r.x.l(k) == -self.x.l(k),
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.y.l(k) == self.y.l(k),
        forall|k: int| i.l(k) == bi(i32::MIN) ==> #[trigger] r.y.l(k) == -self.y.l(k),
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.z.l(k) == self.z.l(k),
        forall|k: int| i.l(k) == bi(i32::MIN) ==> #[trigger] r.z.l(k) == -self.z.l(k),
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.w.l(k) == self.w.l(k),
        forall|k: int| i.l(k) == bi(i32::MIN) ==> #[trigger] r.w.l(k) == -self.w.l(k),
//@end
//@fn src/math.rs SoaQuat::or_num
//@ret r
//@spec
    ensures
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.x.l(k) == self.x.l(k),
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.y.l(k) == self.y.l(k),
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.z.l(k) == self.z.l(k),
        forall|k: int| i.l(k) == bi(0i32) ==> #[trigger] r.w.l(k) == self.w.l(k),
//@end
//@fn src/math.rs SoaQuat::positive_w
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.x.l(i) == (if self.w.l(i) < 0real { -self.x.l(i) } else { self.x.l(i) }),
        forall|i: int| 0 <= i < 4 ==> #[trigger] r.y.l(i) == (if self.w.l(i) < 0real { -self.y.l(i) } else { self.y.l(i) }),
        forall|i: int| 0 <= i < 4 ==> #[trigger] r.z.l(i) == (if self.w.l(i) < 0real { -self.z.l(i) } else { self.z.l(i) }),
        forall|i: int| 0 <= i < 4 ==> #[trigger] r.w.l(i) == (if self.w.l(i) < 0real { -self.w.l(i) } else { self.w.l(i) }),
//@end
}
}
