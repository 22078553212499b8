// f32 and std::simd operations in single precision, lane by lane: every operation rounds its exact result (assumed: IEEE 754).
#[allow(unused_imports)]
pub mod sd {
use vstd::prelude::*;
use core::ops::{Add, Sub, Mul, Neg, BitAnd, BitXor, BitXorAssign, Shl};
verus! {
pub open spec fn rmin(a: real, b: real) -> real { if a < b { a } else { b } }
pub open spec fn rabs(a: real) -> real { if a < 0real { -a } else { a } }
pub uninterp spec fn rsqrt(a: real) -> real;
pub axiom fn rsqrt_ax(a: real) requires a >= 0real ensures rsqrt(a) >= 0real, rsqrt(a) * rsqrt(a) == a;
pub uninterp spec fn rfloor(x: real) -> int;
pub axiom fn rfloor_ax(x: real) ensures (rfloor(x)) as real <= x < (rfloor(x) + 1) as real;

pub open spec fn times(a: real, b: real) -> real { a * b }
// Rounding to the nearest f32: half a unit in the last place (2^-24) of the result, or less than 10^-40 close to zero.
pub uninterp spec fn fl(x: real) -> real;
pub open spec fn u() -> real { 1real / 16777216real }
pub open spec fn eta() -> real { 1real / 10000000000000000000000000000000000000000real }
pub open spec fn big() -> real { 1000000000000000000000000000000real }
// The number is one that an f32 can be.
pub uninterp spec fn rep(x: real) -> bool;
pub axiom fn fl_err(x: real) requires -big() <= x <= big() ensures rabs(fl(x) - x) <= rabs(x) / 16777216real + eta(), rep(fl(x));
pub axiom fn fl_rep(x: real) requires rep(x) ensures fl(x) == x;
pub axiom fn fl_mono(x: real, y: real) requires x <= y ensures fl(x) <= fl(y);
pub axiom fn rep_neg(x: real) requires rep(x) ensures rep(-x);
// An integer of at most 24 bits over 2^7 or over 2^22.
pub axiom fn rep_7(m: int) requires -16777216 <= m <= 16777216 ensures rep((m as real) / 128real);
pub axiom fn rep_22(m: int) requires -16777216 <= m <= 16777216 ensures rep((m as real) / 4194304real);
// Sterbenz: the difference of two numbers within a factor of two of each other.
pub axiom fn rep_sub(a: real, b: real) requires rep(a), rep(b), 0real <= b, b <= 2real * a, a <= 2real * b ensures rep(a - b);
// Halving, away from the smallest numbers. The largest number below one.
pub axiom fn rep_half(a: real) requires rep(a), a == 0real || a >= 1real / big() ensures rep(a / 2real);
pub axiom fn below_one(a: real) requires rep(a), a < 1real ensures a <= 1real - u();

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F { q: f32 }
impl F {
    // A finite number, and which (zero if it is not finite).
    pub uninterp spec fn ok(self) -> bool;
    pub uninterp spec fn v(self) -> real;
    #[verifier::external_body]
    pub fn lit(Ghost(x): Ghost<real>) -> (r: F) ensures r.v() == x, r.ok() { unimplemented!() }
}
pub uninterp spec fn sneg(a: F) -> F;
pub broadcast axiom fn sneg_ax(a: F)
    ensures #![trigger sneg(a).v()] #![trigger sneg(a).ok()] sneg(a).v() == -a.v(), sneg(a).ok() == a.ok();
impl vstd::std_specs::ops::NegSpecImpl for F {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> F { sneg(self) }
}
impl Neg for F { type Output = F;
    #[verifier::external_body]
    fn neg(self) -> F { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct f32x4 { q: [f32; 4] }
impl f32x4 {
    pub uninterp spec fn l(self, i: int) -> real;
    pub uninterp spec fn ok(self, i: int) -> bool;
}
pub broadcast axiom fn rep_ax(a: f32x4, i: int) ensures rep(#[trigger] a.l(i));
pub open spec fn exact(a: f32x4, b: f32x4, i: int, e: real) -> bool { a.ok(i) && b.ok(i) && -big() <= e <= big() }

pub uninterp spec fn vadd(a: f32x4, b: f32x4) -> f32x4;
pub broadcast axiom fn vadd_ax(a: f32x4, b: f32x4, i: int)
    ensures #![trigger vadd(a, b).l(i)] #![trigger vadd(a, b).ok(i)]
        exact(a, b, i, a.l(i) + b.l(i)) ==> vadd(a, b).ok(i) && vadd(a, b).l(i) == fl(a.l(i) + b.l(i));
impl vstd::std_specs::ops::AddSpecImpl<f32x4> for f32x4 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: f32x4) -> bool { true }
    open spec fn add_spec(self, rhs: f32x4) -> f32x4 { vadd(self, rhs) }
}
impl Add for f32x4 { type Output = f32x4;
    #[verifier::external_body]
    fn add(self, rhs: f32x4) -> f32x4 { unimplemented!() }
}
pub uninterp spec fn vsub(a: f32x4, b: f32x4) -> f32x4;
pub broadcast axiom fn vsub_ax(a: f32x4, b: f32x4, i: int)
    ensures #![trigger vsub(a, b).l(i)] #![trigger vsub(a, b).ok(i)]
        exact(a, b, i, a.l(i) - b.l(i)) ==> vsub(a, b).ok(i) && vsub(a, b).l(i) == fl(a.l(i) - b.l(i));
impl vstd::std_specs::ops::SubSpecImpl<f32x4> for f32x4 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: f32x4) -> bool { true }
    open spec fn sub_spec(self, rhs: f32x4) -> f32x4 { vsub(self, rhs) }
}
impl Sub for f32x4 { type Output = f32x4;
    #[verifier::external_body]
    fn sub(self, rhs: f32x4) -> f32x4 { unimplemented!() }
}
pub uninterp spec fn vmul(a: f32x4, b: f32x4) -> f32x4;
pub broadcast axiom fn vmul_ax(a: f32x4, b: f32x4, i: int)
    ensures #![trigger vmul(a, b).l(i)] #![trigger vmul(a, b).ok(i)]
        exact(a, b, i, times(a.l(i), b.l(i))) ==> vmul(a, b).ok(i) && vmul(a, b).l(i) == fl(times(a.l(i), b.l(i)));
impl vstd::std_specs::ops::MulSpecImpl<f32x4> for f32x4 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: f32x4) -> bool { true }
    open spec fn mul_spec(self, rhs: f32x4) -> f32x4 { vmul(self, rhs) }
}
impl Mul for f32x4 { type Output = f32x4;
    #[verifier::external_body]
    fn mul(self, rhs: f32x4) -> f32x4 { unimplemented!() }
}
pub uninterp spec fn vneg(a: f32x4) -> f32x4;
pub broadcast axiom fn vneg_ax(a: f32x4, i: int)
    ensures #![trigger vneg(a).l(i)] #![trigger vneg(a).ok(i)] vneg(a).l(i) == -a.l(i), vneg(a).ok(i) == a.ok(i);
impl vstd::std_specs::ops::NegSpecImpl for f32x4 {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> f32x4 { vneg(self) }
}
impl Neg for f32x4 { type Output = f32x4;
    #[verifier::external_body]
    fn neg(self) -> f32x4 { unimplemented!() }
}

// The bits of a lane, without their number being fixed.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct i32x4 { q: [i32; 4] }
#[verifier::external_body]
pub struct B { q: i32 }
impl i32x4 { pub uninterp spec fn l(self, i: int) -> B; }
pub uninterp spec fn bi(x: i32) -> B;
pub uninterp spec fn band(a: B, b: B) -> B;
pub uninterp spec fn bxor(a: B, b: B) -> B;
pub uninterp spec fn bshl(a: B, k: i32) -> B;
pub axiom fn bi_ax(a: i32, b: i32) ensures bi(a) == bi(b) ==> a == b, band(bi(a), bi(b)) == bi(a & b), bxor(bi(a), bi(b)) == bi(a ^ b);
pub axiom fn bshl_ax(a: i32, k: i32) requires 0 <= k < 32 ensures bshl(bi(a), k) == bi(((a as u32) << (k as u32)) as i32);
pub broadcast axiom fn xor_none(a: B) ensures #[trigger] bxor(a, bi(0i32)) == a;
// The number of some bits, and whether it is a finite number.
pub uninterp spec fn fval(b: B) -> real;
pub uninterp spec fn fok(b: B) -> bool;
pub broadcast axiom fn fval_neg(b: B)
    ensures fval(#[trigger] bxor(b, bi(i32::MIN))) == -fval(b), fok(bxor(b, bi(i32::MIN))) == fok(b);
#[verifier::external_body]
pub fn fx4(a: i32x4) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == fval(a.l(i)), forall|i: int| #[trigger] r.ok(i) == fok(a.l(i)) { unimplemented!() }
#[verifier::external_body]
pub fn ix4(a: f32x4) -> (r: i32x4) ensures forall|i: int| fval(#[trigger] r.l(i)) == a.l(i) && fok(r.l(i)) == a.ok(i) { unimplemented!() }

pub uninterp spec fn ibitand(a: i32x4, b: i32x4) -> i32x4;
pub broadcast axiom fn ibitand_ax(a: i32x4, b: i32x4, i: int) ensures (#[trigger] ibitand(a, b).l(i)) == band(a.l(i), b.l(i));
impl vstd::std_specs::ops::BitAndSpecImpl<i32x4> for i32x4 {
    open spec fn obeys_bitand_spec() -> bool { true }
    open spec fn bitand_req(self, rhs: i32x4) -> bool { true }
    open spec fn bitand_spec(self, rhs: i32x4) -> i32x4 { ibitand(self, rhs) }
}
impl BitAnd for i32x4 { type Output = i32x4;
    #[verifier::external_body]
    fn bitand(self, rhs: i32x4) -> i32x4 { unimplemented!() }
}
pub uninterp spec fn ibitxor(a: i32x4, b: i32x4) -> i32x4;
pub broadcast axiom fn ibitxor_ax(a: i32x4, b: i32x4, i: int) ensures (#[trigger] ibitxor(a, b).l(i)) == bxor(a.l(i), b.l(i));
impl vstd::std_specs::ops::BitXorSpecImpl<i32x4> for i32x4 {
    open spec fn obeys_bitxor_spec() -> bool { true }
    open spec fn bitxor_req(self, rhs: i32x4) -> bool { true }
    open spec fn bitxor_spec(self, rhs: i32x4) -> i32x4 { ibitxor(self, rhs) }
}
impl BitXor for i32x4 { type Output = i32x4;
    #[verifier::external_body]
    fn bitxor(self, rhs: i32x4) -> i32x4 { unimplemented!() }
}
pub uninterp spec fn ishl(a: i32x4, k: i32) -> i32x4;
pub broadcast axiom fn ishl_ax(a: i32x4, k: i32, i: int) ensures (#[trigger] ishl(a, k).l(i)) == bshl(a.l(i), k);
impl vstd::std_specs::ops::ShlSpecImpl<i32> for i32x4 {
    open spec fn obeys_shl_spec() -> bool { true }
    open spec fn shl_req(self, rhs: i32) -> bool { true }
    open spec fn shl_spec(self, rhs: i32) -> i32x4 { ishl(self, rhs) }
}
impl Shl<i32> for i32x4 { type Output = i32x4;
    #[verifier::external_body]
    fn shl(self, rhs: i32) -> i32x4 { unimplemented!() }
}
impl i32x4 {
    #[verifier::external_body]
    pub fn from_array(a: [i32; 4]) -> (r: i32x4) ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == bi(a@[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn simd_eq(self, o: i32x4) -> (r: mask32x4) ensures forall|i: int| #[trigger] r.l(i) == (self.l(i) == o.l(i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn simd_ne(self, o: i32x4) -> (r: mask32x4) ensures forall|i: int| #[trigger] r.l(i) == (self.l(i) != o.l(i)) { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct mask32x4 { q: [bool; 4] }
impl mask32x4 {
    pub uninterp spec fn l(self, i: int) -> bool;
    #[verifier::external_body]
    pub fn to_int(self) -> (r: i32x4) ensures forall|i: int| #[trigger] r.l(i) == (if self.l(i) { bi(-1i32) } else { bi(0i32) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn select(self, a: f32x4, b: f32x4) -> (r: f32x4)
        ensures forall|i: int| #[trigger] r.l(i) == (if self.l(i) { a.l(i) } else { b.l(i) }),
            forall|i: int| #[trigger] r.ok(i) == (if self.l(i) { a.ok(i) } else { b.ok(i) })
    { unimplemented!() }
}
pub open spec fn nums(a: f32x4, b: f32x4, i: int) -> bool { a.ok(i) && b.ok(i) }
impl f32x4 {
    #[verifier::external_body]
    pub fn splat(f: F) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == f.v(), forall|i: int| #[trigger] r.ok(i) == f.ok() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_array(a: [F; 4]) -> (r: f32x4)
        ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == a@[i].v(), forall|i: int| 0 <= i < 4 ==> #[trigger] r.ok(i) == a@[i].ok() { unimplemented!() }
    #[verifier::external_body]
    pub fn at(self, k: usize) -> (r: F) requires k < 4, ensures r.v() == self.l(k as int), r.ok() == self.ok(k as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(self) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == rabs(self.l(i)), forall|i: int| #[trigger] r.ok(i) == self.ok(i) { unimplemented!() }
    #[verifier::external_body]
    pub fn simd_min(self, o: f32x4) -> (r: f32x4)
        ensures forall|i: int| #![trigger r.l(i)] #![trigger r.ok(i)] nums(self, o, i) ==> r.l(i) == rmin(self.l(i), o.l(i)) && r.ok(i) { unimplemented!() }
    #[verifier::external_body]
    pub fn sqrt(self) -> (r: f32x4)
        ensures forall|i: int| #![trigger r.l(i)] #![trigger r.ok(i)] self.ok(i) && self.l(i) >= 0real ==> r.l(i) == fl(rsqrt(self.l(i))) && r.ok(i) { unimplemented!() }
    // towards zero, which no number here is below
    #[verifier::external_body]
    pub fn trunc(self) -> (r: f32x4)
        ensures forall|i: int| #![trigger r.l(i)] #![trigger r.ok(i)] self.ok(i) && self.l(i) >= 0real ==> r.l(i) == rfloor(self.l(i)) as real && r.ok(i) { unimplemented!() }
    // (undefined for numbers out of range, which the contract of the caller excludes)
    #[verifier::external_body]
    pub fn to_int_unchecked(self) -> (r: i32x4)
        requires forall|i: int| 0 <= i < 4 ==> #[trigger] self.ok(i) && -2147483648real <= self.l(i) && self.l(i) < 2147483648real
        ensures forall|i: int| 0 <= i < 4 && self.l(i) >= 0real ==> #[trigger] r.l(i) == bi(rfloor(self.l(i)) as i32) { unimplemented!() }
    #[verifier::external_body]
    pub fn simd_lt(self, o: f32x4) -> (r: mask32x4) ensures forall|i: int| nums(self, o, i) ==> #[trigger] r.l(i) == (self.l(i) < o.l(i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn simd_le(self, o: f32x4) -> (r: mask32x4) ensures forall|i: int| nums(self, o, i) ==> #[trigger] r.l(i) == (self.l(i) <= o.l(i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn simd_gt(self, o: f32x4) -> (r: mask32x4) ensures forall|i: int| nums(self, o, i) ==> #[trigger] r.l(i) == (self.l(i) > o.l(i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn simd_ge(self, o: f32x4) -> (r: mask32x4) ensures forall|i: int| nums(self, o, i) ==> #[trigger] r.l(i) == (self.l(i) >= o.l(i)) { unimplemented!() }
}
pub broadcast group ops { sneg_ax, rep_ax, vadd_ax, vsub_ax, vmul_ax, vneg_ax, ibitand_ax, ibitxor_ax, ishl_ax, xor_none, fval_neg }
} }
