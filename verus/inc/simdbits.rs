// Floats by their bit pattern: operations are functions of the operands' bits, lane by lane, and nothing else is assumed of them
// than the facts below (IEEE 754, no operand being NaN).
#[allow(unused_imports)]
pub mod sd {
use vstd::prelude::*;
use core::ops::{Add, Sub, Mul, Div, Neg, BitAnd, BitOr, Not, Shl};
verus! {
pub uninterp spec fn wlit(a: real) -> i32;
pub broadcast axiom fn wlit_0() ensures #[trigger] wlit(0real) == 0i32;
pub uninterp spec fn wadd(a: i32, b: i32) -> i32;
pub uninterp spec fn wsub(a: i32, b: i32) -> i32;
pub uninterp spec fn wmul(a: i32, b: i32) -> i32;
pub uninterp spec fn wdiv(a: i32, b: i32) -> i32;
pub uninterp spec fn wmax(a: i32, b: i32) -> i32;
pub uninterp spec fn wsqrt(a: i32) -> i32;
pub open spec fn wneg(a: i32) -> i32 { a ^ i32::MIN }
pub broadcast axiom fn wmul_comm(a: i32, b: i32) ensures #[trigger] wmul(a, b) == wmul(b, a);
pub broadcast axiom fn wadd_comm(a: i32, b: i32) ensures #[trigger] wadd(a, b) == wadd(b, a);
// The root of a number clamped from below by +0 has a clear sign bit.
pub broadcast axiom fn wsqrt_sign(a: i32) ensures (#[trigger] wsqrt(wmax(0i32, a))) >= 0;
pub broadcast proof fn or_sign(a: i32) requires a >= 0 ensures #[trigger] (a | i32::MIN) == a ^ i32::MIN
{ assert(a >= 0 ==> a | i32::MIN == a ^ i32::MIN) by (bit_vector); }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F { q: f32 }
impl F {
    pub uninterp spec fn v(self) -> i32;
    #[verifier::external_body]
    pub fn lit(Ghost(x): Ghost<real>) -> (r: F) ensures r.v() == wlit(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn sqrt(self) -> (r: F) ensures r.v() == wsqrt(self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: F) -> (r: F) ensures r.v() == wmax(self.v(), o.v()) { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct f32x4 { q: [f32; 4] }
impl f32x4 {
    pub uninterp spec fn l(self, i: int) -> i32;
    #[verifier::external_body]
    pub fn simd_max(self, o: f32x4) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == wmax(self.l(i), o.l(i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn sqrt(self) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == wsqrt(self.l(i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn splat(f: F) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == f.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_array(a: [F; 4]) -> (r: f32x4) ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == a@[i].v() { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct i32x4 { q: [i32; 4] }
impl i32x4 {
    pub uninterp spec fn l(self, i: int) -> i32;
    #[verifier::external_body]
    pub fn splat(f: i32) -> (r: i32x4) ensures forall|i: int| #[trigger] r.l(i) == f { unimplemented!() }
    #[verifier::external_body]
    pub fn from_array(a: [i32; 4]) -> (r: i32x4) ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == a@[i] { unimplemented!() }
}
#[verifier::external_body]
pub fn fx4(a: i32x4) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == a.l(i) { unimplemented!() }
#[verifier::external_body]
pub fn ix4(a: f32x4) -> (r: i32x4) ensures forall|i: int| #[trigger] r.l(i) == a.l(i) { unimplemented!() }
pub uninterp spec fn fs_add(a: F, b: F) -> F;
pub broadcast axiom fn fs_add_ax(a: F, b: F) ensures (#[trigger] fs_add(a, b).v()) == wadd(a.v(), b.v());
impl vstd::std_specs::ops::AddSpecImpl<F> for F {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: F) -> bool { true }
    open spec fn add_spec(self, rhs: F) -> F { fs_add(self, rhs) }
}
impl Add<F> for F { type Output = F;
    #[verifier::external_body]
    fn add(self, rhs: F) -> F { unimplemented!() }
}
pub uninterp spec fn fs_sub(a: F, b: F) -> F;
pub broadcast axiom fn fs_sub_ax(a: F, b: F) ensures (#[trigger] fs_sub(a, b).v()) == wsub(a.v(), b.v());
impl vstd::std_specs::ops::SubSpecImpl<F> for F {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: F) -> bool { true }
    open spec fn sub_spec(self, rhs: F) -> F { fs_sub(self, rhs) }
}
impl Sub<F> for F { type Output = F;
    #[verifier::external_body]
    fn sub(self, rhs: F) -> F { unimplemented!() }
}
pub uninterp spec fn fs_mul(a: F, b: F) -> F;
pub broadcast axiom fn fs_mul_ax(a: F, b: F) ensures (#[trigger] fs_mul(a, b).v()) == wmul(a.v(), b.v());
impl vstd::std_specs::ops::MulSpecImpl<F> for F {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> F { fs_mul(self, rhs) }
}
impl Mul<F> for F { type Output = F;
    #[verifier::external_body]
    fn mul(self, rhs: F) -> F { unimplemented!() }
}
pub uninterp spec fn fs_div(a: F, b: F) -> F;
pub broadcast axiom fn fs_div_ax(a: F, b: F) ensures (#[trigger] fs_div(a, b).v()) == wdiv(a.v(), b.v());
impl vstd::std_specs::ops::DivSpecImpl<F> for F {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: F) -> bool { true }
    open spec fn div_spec(self, rhs: F) -> F { fs_div(self, rhs) }
}
impl Div<F> for F { type Output = F;
    #[verifier::external_body]
    fn div(self, rhs: F) -> F { unimplemented!() }
}
pub uninterp spec fn f_add(a: f32x4, b: f32x4) -> f32x4;
pub broadcast axiom fn f_add_ax(a: f32x4, b: f32x4, i: int) ensures (#[trigger] f_add(a, b).l(i)) == wadd(a.l(i), b.l(i));
impl vstd::std_specs::ops::AddSpecImpl<f32x4> for f32x4 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: f32x4) -> bool { true }
    open spec fn add_spec(self, rhs: f32x4) -> f32x4 { f_add(self, rhs) }
}
impl Add<f32x4> for f32x4 { type Output = f32x4;
    #[verifier::external_body]
    fn add(self, rhs: f32x4) -> f32x4 { unimplemented!() }
}
pub uninterp spec fn f_sub(a: f32x4, b: f32x4) -> f32x4;
pub broadcast axiom fn f_sub_ax(a: f32x4, b: f32x4, i: int) ensures (#[trigger] f_sub(a, b).l(i)) == wsub(a.l(i), b.l(i));
impl vstd::std_specs::ops::SubSpecImpl<f32x4> for f32x4 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: f32x4) -> bool { true }
    open spec fn sub_spec(self, rhs: f32x4) -> f32x4 { f_sub(self, rhs) }
}
impl Sub<f32x4> for f32x4 { type Output = f32x4;
    #[verifier::external_body]
    fn sub(self, rhs: f32x4) -> f32x4 { unimplemented!() }
}
pub uninterp spec fn f_mul(a: f32x4, b: f32x4) -> f32x4;
pub broadcast axiom fn f_mul_ax(a: f32x4, b: f32x4, i: int) ensures (#[trigger] f_mul(a, b).l(i)) == wmul(a.l(i), b.l(i));
impl vstd::std_specs::ops::MulSpecImpl<f32x4> for f32x4 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: f32x4) -> bool { true }
    open spec fn mul_spec(self, rhs: f32x4) -> f32x4 { f_mul(self, rhs) }
}
impl Mul<f32x4> for f32x4 { type Output = f32x4;
    #[verifier::external_body]
    fn mul(self, rhs: f32x4) -> f32x4 { unimplemented!() }
}
pub uninterp spec fn f_div(a: f32x4, b: f32x4) -> f32x4;
pub broadcast axiom fn f_div_ax(a: f32x4, b: f32x4, i: int) ensures (#[trigger] f_div(a, b).l(i)) == wdiv(a.l(i), b.l(i));
impl vstd::std_specs::ops::DivSpecImpl<f32x4> for f32x4 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: f32x4) -> bool { true }
    open spec fn div_spec(self, rhs: f32x4) -> f32x4 { f_div(self, rhs) }
}
impl Div<f32x4> for f32x4 { type Output = f32x4;
    #[verifier::external_body]
    fn div(self, rhs: f32x4) -> f32x4 { unimplemented!() }
}
pub uninterp spec fn i_bitand(a: i32x4, b: i32x4) -> i32x4;
pub broadcast axiom fn i_bitand_ax(a: i32x4, b: i32x4, i: int) ensures (#[trigger] i_bitand(a, b).l(i)) == a.l(i) & b.l(i);
impl vstd::std_specs::ops::BitAndSpecImpl<i32x4> for i32x4 {
    open spec fn obeys_bitand_spec() -> bool { true }
    open spec fn bitand_req(self, rhs: i32x4) -> bool { true }
    open spec fn bitand_spec(self, rhs: i32x4) -> i32x4 { i_bitand(self, rhs) }
}
impl BitAnd<i32x4> for i32x4 { type Output = i32x4;
    #[verifier::external_body]
    fn bitand(self, rhs: i32x4) -> i32x4 { unimplemented!() }
}
pub uninterp spec fn i_bitor(a: i32x4, b: i32x4) -> i32x4;
pub broadcast axiom fn i_bitor_ax(a: i32x4, b: i32x4, i: int) ensures (#[trigger] i_bitor(a, b).l(i)) == a.l(i) | b.l(i);
impl vstd::std_specs::ops::BitOrSpecImpl<i32x4> for i32x4 {
    open spec fn obeys_bitor_spec() -> bool { true }
    open spec fn bitor_req(self, rhs: i32x4) -> bool { true }
    open spec fn bitor_spec(self, rhs: i32x4) -> i32x4 { i_bitor(self, rhs) }
}
impl BitOr<i32x4> for i32x4 { type Output = i32x4;
    #[verifier::external_body]
    fn bitor(self, rhs: i32x4) -> i32x4 { unimplemented!() }
}
pub uninterp spec fn i_shl(a: i32x4, b: i32) -> i32x4;
pub broadcast axiom fn i_shl_ax(a: i32x4, b: i32, i: int) ensures (#[trigger] i_shl(a, b).l(i)) == bshl(a.l(i), b);
impl vstd::std_specs::ops::ShlSpecImpl<i32> for i32x4 {
    open spec fn obeys_shl_spec() -> bool { true }
    open spec fn shl_req(self, rhs: i32) -> bool { true }
    open spec fn shl_spec(self, rhs: i32) -> i32x4 { i_shl(self, rhs) }
}
impl Shl<i32> for i32x4 { type Output = i32x4;
    #[verifier::external_body]
    fn shl(self, rhs: i32) -> i32x4 { unimplemented!() }
}
pub uninterp spec fn bshl(a: i32, k: i32) -> i32;
pub broadcast axiom fn bshl_0() ensures #[trigger] bshl(0i32, 31i32) == 0i32;
pub broadcast axiom fn bshl_1() ensures #[trigger] bshl(1i32, 31i32) == i32::MIN;
pub uninterp spec fn inot(a: i32x4) -> i32x4;
pub broadcast axiom fn inot_ax(a: i32x4, i: int) ensures (#[trigger] inot(a).l(i)) == !a.l(i);
pub uninterp spec fn fneg(a: F) -> F;
pub broadcast axiom fn fneg_ax(a: F) ensures (#[trigger] fneg(a).v()) == wneg(a.v());
impl vstd::std_specs::ops::NotSpecImpl for i32x4 {
    open spec fn obeys_not_spec() -> bool { true }
    open spec fn not_req(self) -> bool { true }
    open spec fn not_spec(self) -> i32x4 { inot(self) }
}
impl Not for i32x4 { type Output = i32x4;
    #[verifier::external_body]
    fn not(self) -> i32x4 { unimplemented!() }
}
impl vstd::std_specs::ops::NegSpecImpl for F {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> F { fneg(self) }
}
impl Neg for F { type Output = F;
    #[verifier::external_body]
    fn neg(self) -> F { unimplemented!() }
}
pub broadcast proof fn and_all(a: i32) ensures #[trigger] (a & -1i32) == a { assert(a & -1i32 == a) by (bit_vector); }
pub broadcast proof fn and_none(a: i32) ensures #[trigger] (a & 0i32) == 0 { assert(a & 0i32 == 0) by (bit_vector); }
pub broadcast proof fn or_none(a: i32) ensures #[trigger] (a | 0i32) == a { assert(a | 0i32 == a) by (bit_vector); }
pub broadcast proof fn none_or(a: i32) ensures #[trigger] (0i32 | a) == a { assert(0i32 | a == a) by (bit_vector); }
pub broadcast proof fn not_all(a: i32) ensures a == -1i32 ==> (#[trigger] (!a)) == 0i32, a == 0i32 ==> !a == -1i32 {
    assert(!(-1i32) == 0i32) by (bit_vector); assert(!0i32 == -1i32) by (bit_vector);
}
pub broadcast group ops { wlit_0, wmul_comm, wadd_comm, wsqrt_sign, or_sign, fs_add_ax, fs_sub_ax, fs_mul_ax, fs_div_ax, f_add_ax, f_sub_ax, f_mul_ax, f_div_ax, i_bitand_ax, i_bitor_ax, i_shl_ax, bshl_0, bshl_1, inot_ax, fneg_ax, and_all, and_none, or_none, none_or, not_all }
} }
