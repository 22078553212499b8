// glam's vectors and quaternions over the real numbers (assumed meaning of glam's functions).
#[allow(unused_imports)]
pub mod gl {
use vstd::prelude::*;
use super::sd::*;
use core::ops::{Add, Sub, Mul, Div, Neg};
verus! {
#[derive(Clone, Copy)]
pub struct Vec3A { pub x: F, pub y: F, pub z: F }
impl Vec3A {
    pub open spec fn sq(self) -> real { self.x.v() * self.x.v() + self.y.v() * self.y.v() + self.z.v() * self.z.v() }
    pub open spec fn dot_spec(self, o: Vec3A) -> real { self.x.v() * o.x.v() + self.y.v() * o.y.v() + self.z.v() * o.z.v() }
    #[verifier::external_body]
    pub fn dot(self, o: Vec3A) -> (r: F) ensures r.v() == self.dot_spec(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn length(self) -> (r: F) ensures r.v() == rsqrt(self.sq()) { unimplemented!() }
    #[verifier::external_body]
    pub fn length_squared(self) -> (r: F) ensures r.v() == self.sq() { unimplemented!() }
    #[verifier::external_body]
    pub fn normalize(self) -> (r: Vec3A) ensures r.x.v() == self.x.v() * (1real / rsqrt(self.sq())), r.y.v() == self.y.v() * (1real / rsqrt(self.sq())), r.z.v() == self.z.v() * (1real / rsqrt(self.sq())) { unimplemented!() }
    #[verifier::external_body]
    pub fn ZERO() -> (r: Vec3A) ensures r.x.v() == 0real, r.y.v() == 0real, r.z.v() == 0real { unimplemented!() }
    #[verifier::external_body]
    pub fn ONE() -> (r: Vec3A) ensures r.x.v() == 1real, r.y.v() == 1real, r.z.v() == 1real { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<Vec3A> for Vec3A {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Vec3A) -> bool { true }
    open spec fn add_spec(self, rhs: Vec3A) -> Vec3A { Vec3A { x: f_of(self.x.v() + rhs.x.v()), y: f_of(self.y.v() + rhs.y.v()), z: f_of(self.z.v() + rhs.z.v()) } }
}
impl Add<Vec3A> for Vec3A { type Output = Vec3A;
    #[verifier::external_body]
    fn add(self, rhs: Vec3A) -> Vec3A { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<Vec3A> for Vec3A {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: Vec3A) -> bool { true }
    open spec fn sub_spec(self, rhs: Vec3A) -> Vec3A { Vec3A { x: f_of(self.x.v() - rhs.x.v()), y: f_of(self.y.v() - rhs.y.v()), z: f_of(self.z.v() - rhs.z.v()) } }
}
impl Sub<Vec3A> for Vec3A { type Output = Vec3A;
    #[verifier::external_body]
    fn sub(self, rhs: Vec3A) -> Vec3A { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<F> for Vec3A {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> Vec3A { Vec3A { x: f_of(self.x.v() * rhs.v()), y: f_of(self.y.v() * rhs.v()), z: f_of(self.z.v() * rhs.v()) } }
}
impl Mul<F> for Vec3A { type Output = Vec3A;
    #[verifier::external_body]
    fn mul(self, rhs: F) -> Vec3A { unimplemented!() }
}
impl vstd::std_specs::ops::DivSpecImpl<F> for Vec3A {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: F) -> bool { true }
    open spec fn div_spec(self, rhs: F) -> Vec3A { Vec3A { x: f_of(self.x.v() / rhs.v()), y: f_of(self.y.v() / rhs.v()), z: f_of(self.z.v() / rhs.v()) } }
}
impl Div<F> for Vec3A { type Output = Vec3A;
    #[verifier::external_body]
    fn div(self, rhs: F) -> Vec3A { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct Vec4 { pub x: F, pub y: F, pub z: F, pub w: F }
impl Vec4 {
    pub open spec fn sq(self) -> real { self.x.v() * self.x.v() + self.y.v() * self.y.v() + self.z.v() * self.z.v() + self.w.v() * self.w.v() }
    pub open spec fn dot_spec(self, o: Vec4) -> real { self.x.v() * o.x.v() + self.y.v() * o.y.v() + self.z.v() * o.z.v() + self.w.v() * o.w.v() }
    #[verifier::external_body]
    pub fn dot(self, o: Vec4) -> (r: F) ensures r.v() == self.dot_spec(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn length(self) -> (r: F) ensures r.v() == rsqrt(self.sq()) { unimplemented!() }
    #[verifier::external_body]
    pub fn length_squared(self) -> (r: F) ensures r.v() == self.sq() { unimplemented!() }
    #[verifier::external_body]
    pub fn normalize(self) -> (r: Vec4) ensures r.x.v() == self.x.v() * (1real / rsqrt(self.sq())), r.y.v() == self.y.v() * (1real / rsqrt(self.sq())), r.z.v() == self.z.v() * (1real / rsqrt(self.sq())), r.w.v() == self.w.v() * (1real / rsqrt(self.sq())) { unimplemented!() }
    #[verifier::external_body]
    pub fn ZERO() -> (r: Vec4) ensures r.x.v() == 0real, r.y.v() == 0real, r.z.v() == 0real, r.w.v() == 0real { unimplemented!() }
    #[verifier::external_body]
    pub fn ONE() -> (r: Vec4) ensures r.x.v() == 1real, r.y.v() == 1real, r.z.v() == 1real, r.w.v() == 1real { unimplemented!() }
    #[verifier::external_body]
    pub fn from(q: Quat) -> (r: Vec4) ensures r.x.v() == q.x.v(), r.y.v() == q.y.v(), r.z.v() == q.z.v(), r.w.v() == q.w.v() { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<Vec4> for Vec4 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Vec4) -> bool { true }
    open spec fn add_spec(self, rhs: Vec4) -> Vec4 { Vec4 { x: f_of(self.x.v() + rhs.x.v()), y: f_of(self.y.v() + rhs.y.v()), z: f_of(self.z.v() + rhs.z.v()), w: f_of(self.w.v() + rhs.w.v()) } }
}
impl Add<Vec4> for Vec4 { type Output = Vec4;
    #[verifier::external_body]
    fn add(self, rhs: Vec4) -> Vec4 { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<Vec4> for Vec4 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: Vec4) -> bool { true }
    open spec fn sub_spec(self, rhs: Vec4) -> Vec4 { Vec4 { x: f_of(self.x.v() - rhs.x.v()), y: f_of(self.y.v() - rhs.y.v()), z: f_of(self.z.v() - rhs.z.v()), w: f_of(self.w.v() - rhs.w.v()) } }
}
impl Sub<Vec4> for Vec4 { type Output = Vec4;
    #[verifier::external_body]
    fn sub(self, rhs: Vec4) -> Vec4 { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<F> for Vec4 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> Vec4 { Vec4 { x: f_of(self.x.v() * rhs.v()), y: f_of(self.y.v() * rhs.v()), z: f_of(self.z.v() * rhs.v()), w: f_of(self.w.v() * rhs.v()) } }
}
impl Mul<F> for Vec4 { type Output = Vec4;
    #[verifier::external_body]
    fn mul(self, rhs: F) -> Vec4 { unimplemented!() }
}
impl vstd::std_specs::ops::DivSpecImpl<F> for Vec4 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: F) -> bool { true }
    open spec fn div_spec(self, rhs: F) -> Vec4 { Vec4 { x: f_of(self.x.v() / rhs.v()), y: f_of(self.y.v() / rhs.v()), z: f_of(self.z.v() / rhs.v()), w: f_of(self.w.v() / rhs.v()) } }
}
impl Div<F> for Vec4 { type Output = Vec4;
    #[verifier::external_body]
    fn div(self, rhs: F) -> Vec4 { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct Quat { pub x: F, pub y: F, pub z: F, pub w: F }
impl Quat {
    pub open spec fn sq(self) -> real { self.x.v() * self.x.v() + self.y.v() * self.y.v() + self.z.v() * self.z.v() + self.w.v() * self.w.v() }
    pub open spec fn dot_spec(self, o: Quat) -> real { self.x.v() * o.x.v() + self.y.v() * o.y.v() + self.z.v() * o.z.v() + self.w.v() * o.w.v() }
    #[verifier::external_body]
    pub fn dot(self, o: Quat) -> (r: F) ensures r.v() == self.dot_spec(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn length(self) -> (r: F) ensures r.v() == rsqrt(self.sq()) { unimplemented!() }
    #[verifier::external_body]
    pub fn length_squared(self) -> (r: F) ensures r.v() == self.sq() { unimplemented!() }
    #[verifier::external_body]
    pub fn normalize(self) -> (r: Quat) ensures r.x.v() == self.x.v() * (1real / rsqrt(self.sq())), r.y.v() == self.y.v() * (1real / rsqrt(self.sq())), r.z.v() == self.z.v() * (1real / rsqrt(self.sq())), r.w.v() == self.w.v() * (1real / rsqrt(self.sq())) { unimplemented!() }
    #[verifier::external_body]
    pub fn IDENTITY() -> (r: Quat) ensures r.x.v() == 0real, r.y.v() == 0real, r.z.v() == 0real, r.w.v() == 1real { unimplemented!() }
    #[verifier::external_body]
    pub fn from_vec4(v: Vec4) -> (r: Quat) ensures r.x.v() == v.x.v(), r.y.v() == v.y.v(), r.z.v() == v.z.v(), r.w.v() == v.w.v() { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<Quat> for Quat {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Quat) -> bool { true }
    open spec fn add_spec(self, rhs: Quat) -> Quat { Quat { x: f_of(self.x.v() + rhs.x.v()), y: f_of(self.y.v() + rhs.y.v()), z: f_of(self.z.v() + rhs.z.v()), w: f_of(self.w.v() + rhs.w.v()) } }
}
impl Add<Quat> for Quat { type Output = Quat;
    #[verifier::external_body]
    fn add(self, rhs: Quat) -> Quat { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<F> for Quat {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> Quat { Quat { x: f_of(self.x.v() * rhs.v()), y: f_of(self.y.v() * rhs.v()), z: f_of(self.z.v() * rhs.v()), w: f_of(self.w.v() * rhs.v()) } }
}
impl Mul<F> for Quat { type Output = Quat;
    #[verifier::external_body]
    fn mul(self, rhs: F) -> Quat { unimplemented!() }
}
impl vstd::std_specs::ops::DivSpecImpl<F> for Quat {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: F) -> bool { true }
    open spec fn div_spec(self, rhs: F) -> Quat { Quat { x: f_of(self.x.v() / rhs.v()), y: f_of(self.y.v() / rhs.v()), z: f_of(self.z.v() / rhs.v()), w: f_of(self.w.v() / rhs.v()) } }
}
impl Div<F> for Quat { type Output = Quat;
    #[verifier::external_body]
    fn div(self, rhs: F) -> Quat { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct Vec3 { pub x: F, pub y: F, pub z: F }
impl Vec3 {
    pub open spec fn sq(self) -> real { self.x.v() * self.x.v() + self.y.v() * self.y.v() + self.z.v() * self.z.v() }
    pub open spec fn dot_spec(self, o: Vec3) -> real { self.x.v() * o.x.v() + self.y.v() * o.y.v() + self.z.v() * o.z.v() }
    #[verifier::external_body]
    pub fn dot(self, o: Vec3) -> (r: F) ensures r.v() == self.dot_spec(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn length(self) -> (r: F) ensures r.v() == rsqrt(self.sq()) { unimplemented!() }
    #[verifier::external_body]
    pub fn length_squared(self) -> (r: F) ensures r.v() == self.sq() { unimplemented!() }
    #[verifier::external_body]
    pub fn normalize(self) -> (r: Vec3) ensures r.x.v() == self.x.v() * (1real / rsqrt(self.sq())), r.y.v() == self.y.v() * (1real / rsqrt(self.sq())), r.z.v() == self.z.v() * (1real / rsqrt(self.sq())) { unimplemented!() }
    #[verifier::external_body]
    pub fn ZERO() -> (r: Vec3) ensures r.x.v() == 0real, r.y.v() == 0real, r.z.v() == 0real { unimplemented!() }
    #[verifier::external_body]
    pub fn ONE() -> (r: Vec3) ensures r.x.v() == 1real, r.y.v() == 1real, r.z.v() == 1real { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<Vec3> for Vec3 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Vec3) -> bool { true }
    open spec fn add_spec(self, rhs: Vec3) -> Vec3 { Vec3 { x: f_of(self.x.v() + rhs.x.v()), y: f_of(self.y.v() + rhs.y.v()), z: f_of(self.z.v() + rhs.z.v()) } }
}
impl Add<Vec3> for Vec3 { type Output = Vec3;
    #[verifier::external_body]
    fn add(self, rhs: Vec3) -> Vec3 { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<Vec3> for Vec3 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: Vec3) -> bool { true }
    open spec fn sub_spec(self, rhs: Vec3) -> Vec3 { Vec3 { x: f_of(self.x.v() - rhs.x.v()), y: f_of(self.y.v() - rhs.y.v()), z: f_of(self.z.v() - rhs.z.v()) } }
}
impl Sub<Vec3> for Vec3 { type Output = Vec3;
    #[verifier::external_body]
    fn sub(self, rhs: Vec3) -> Vec3 { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<F> for Vec3 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> Vec3 { Vec3 { x: f_of(self.x.v() * rhs.v()), y: f_of(self.y.v() * rhs.v()), z: f_of(self.z.v() * rhs.v()) } }
}
impl Mul<F> for Vec3 { type Output = Vec3;
    #[verifier::external_body]
    fn mul(self, rhs: F) -> Vec3 { unimplemented!() }
}
impl vstd::std_specs::ops::DivSpecImpl<F> for Vec3 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: F) -> bool { true }
    open spec fn div_spec(self, rhs: F) -> Vec3 { Vec3 { x: f_of(self.x.v() / rhs.v()), y: f_of(self.y.v() / rhs.v()), z: f_of(self.z.v() / rhs.v()) } }
}
impl Div<F> for Vec3 { type Output = Vec3;
    #[verifier::external_body]
    fn div(self, rhs: F) -> Vec3 { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<Vec4> for Vec4 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Vec4) -> bool { true }
    open spec fn mul_spec(self, rhs: Vec4) -> Vec4 { Vec4 { x: f_of(self.x.v() * rhs.x.v()), y: f_of(self.y.v() * rhs.y.v()), z: f_of(self.z.v() * rhs.z.v()), w: f_of(self.w.v() * rhs.w.v()) } }
}
impl Mul<Vec4> for Vec4 { type Output = Vec4;
    #[verifier::external_body]
    fn mul(self, rhs: Vec4) -> Vec4 { unimplemented!() }
}
impl Vec4 {
    #[verifier::external_body]
    pub fn splat(f: F) -> (r: Vec4) ensures r.x == f, r.y == f, r.z == f, r.w == f { unimplemented!() }
    pub open spec fn e(self, k: int) -> real { if k == 0 { self.x.v() } else if k == 1 { self.y.v() } else if k == 2 { self.z.v() } else { self.w.v() } }
}
// column-major
#[derive(Clone, Copy)]
pub struct Mat4 { pub x_axis: Vec4, pub y_axis: Vec4, pub z_axis: Vec4, pub w_axis: Vec4 }
impl Mat4 {
    pub open spec fn point(&self, r: Vec3, p: Vec3) -> bool { applied(r, self.e(0), self.e(1), self.e(2), self.e(4), self.e(5), self.e(6), self.e(8), self.e(9), self.e(10), self.e(12), self.e(13), self.e(14), p) }
    pub open spec fn vector(&self, r: Vec3, p: Vec3) -> bool { applied(r, self.e(0), self.e(1), self.e(2), self.e(4), self.e(5), self.e(6), self.e(8), self.e(9), self.e(10), 0real, 0real, 0real, p) }
    pub open spec fn e(self, c: int) -> real {
        if c < 4 { self.x_axis.e(c) } else if c < 8 { self.y_axis.e(c - 4) } else if c < 12 { self.z_axis.e(c - 8) } else { self.w_axis.e(c - 12) }
    }
    #[verifier::external_body]
    pub fn from_cols(a: Vec4, b: Vec4, c: Vec4, d: Vec4) -> (r: Mat4) ensures r.x_axis == a, r.y_axis == b, r.z_axis == c, r.w_axis == d { unimplemented!() }
    #[verifier::external_body]
    pub fn transform_point3(&self, p: Vec3) -> (r: Vec3)
        ensures self.point(r, p)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn transform_vector3(&self, p: Vec3) -> (r: Vec3)
        ensures self.vector(r, p)
    { unimplemented!() }
}
pub open spec fn applied(r: Vec3, a0: real, a1: real, a2: real, b0: real, b1: real, b2: real, c0: real, c1: real, c2: real, d0: real, d1: real, d2: real, p: Vec3) -> bool {
    &&& r.x.v() == a0 * p.x.v() + b0 * p.y.v() + c0 * p.z.v() + d0
    &&& r.y.v() == a1 * p.x.v() + b1 * p.y.v() + c1 * p.z.v() + d1
    &&& r.z.v() == a2 * p.x.v() + b2 * p.y.v() + c2 * p.z.v() + d2
}
pub uninterp spec fn mat_add(a: Mat4, b: Mat4) -> Mat4;
pub broadcast axiom fn mat_add_ax(a: Mat4, b: Mat4, c: int) requires 0 <= c < 16 ensures (#[trigger] mat_add(a, b).e(c)) == a.e(c) + b.e(c);
impl vstd::std_specs::ops::AddSpecImpl<Mat4> for Mat4 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Mat4) -> bool { true }
    open spec fn add_spec(self, rhs: Mat4) -> Mat4 { mat_add(self, rhs) }
}
impl Add<Mat4> for Mat4 { type Output = Mat4;
    #[verifier::external_body]
    fn add(self, rhs: Mat4) -> Mat4 { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct Transform3A { pub translation: Vec3A, pub rotation: Quat, pub scale: Vec3A }
impl Transform3A {
    pub open spec fn is_identity(self) -> bool {
        &&& self.translation.x.v() == 0real && self.translation.y.v() == 0real && self.translation.z.v() == 0real
        &&& self.rotation.x.v() == 0real && self.rotation.y.v() == 0real && self.rotation.z.v() == 0real && self.rotation.w.v() == 1real
        &&& self.scale.x.v() == 1real && self.scale.y.v() == 1real && self.scale.z.v() == 1real
    }
    #[verifier::external_body]
    pub fn IDENTITY() -> (r: Transform3A) ensures r.is_identity() { unimplemented!() }
}
} }
