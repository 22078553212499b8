// The f32 and std::simd operations the kernel uses, as operations on real numbers, lane by lane (assumed).
#[allow(unused_imports)]
pub mod sd {
use vstd::prelude::*;
use core::ops::{Add, Sub, Mul, Div, Neg, Index, AddAssign, SubAssign, MulAssign, BitAnd, BitOr, BitXor, Not};
verus! {
pub open spec fn rmin(a: real, b: real) -> real { if a < b { a } else { b } }
pub open spec fn rmax(a: real, b: real) -> real { if a > b { a } else { b } }
pub open spec fn rabs(a: real) -> real { if a < 0real { -a } else { a } }
pub uninterp spec fn rsqrt(a: real) -> real;
pub broadcast axiom fn rsqrt_ax(a: real) requires a >= 0real ensures (#[trigger] rsqrt(a)) >= 0real, rsqrt(a) * rsqrt(a) == a;

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F { q: f32 }
impl F { pub uninterp spec fn v(self) -> real; }
pub uninterp spec fn sadd(a: F, b: F) -> F;
pub broadcast axiom fn sadd_ax(a: F, b: F) ensures (#[trigger] sadd(a, b).v()) == a.v() + b.v();
impl vstd::std_specs::ops::AddSpecImpl<F> for F {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: F) -> bool { true }
    open spec fn add_spec(self, rhs: F) -> F { sadd(self, rhs) }
}
impl Add for F { type Output = F;
    #[verifier::external_body]
    fn add(self, rhs: F) -> F { unimplemented!() }
}
pub uninterp spec fn ssub(a: F, b: F) -> F;
pub broadcast axiom fn ssub_ax(a: F, b: F) ensures (#[trigger] ssub(a, b).v()) == a.v() - b.v();
impl vstd::std_specs::ops::SubSpecImpl<F> for F {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: F) -> bool { true }
    open spec fn sub_spec(self, rhs: F) -> F { ssub(self, rhs) }
}
impl Sub for F { type Output = F;
    #[verifier::external_body]
    fn sub(self, rhs: F) -> F { unimplemented!() }
}
pub uninterp spec fn smul(a: F, b: F) -> F;
pub broadcast axiom fn smul_ax(a: F, b: F) ensures (#[trigger] smul(a, b).v()) == a.v() * b.v();
impl vstd::std_specs::ops::MulSpecImpl<F> for F {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> F { smul(self, rhs) }
}
impl Mul for F { type Output = F;
    #[verifier::external_body]
    fn mul(self, rhs: F) -> F { unimplemented!() }
}
pub uninterp spec fn sdiv(a: F, b: F) -> F;
pub broadcast axiom fn sdiv_ax(a: F, b: F) ensures (#[trigger] sdiv(a, b).v()) == a.v() / b.v();
impl vstd::std_specs::ops::DivSpecImpl<F> for F {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: F) -> bool { true }
    open spec fn div_spec(self, rhs: F) -> F { sdiv(self, rhs) }
}
impl Div for F { type Output = F;
    #[verifier::external_body]
    fn div(self, rhs: F) -> F { unimplemented!() }
}
pub uninterp spec fn sneg(a: F) -> F;
pub broadcast axiom fn sneg_ax(a: F) ensures (#[trigger] sneg(a).v()) == -a.v();
impl vstd::std_specs::ops::NegSpecImpl for F {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> F { sneg(self) }
}
impl Neg for F { type Output = F;
    #[verifier::external_body]
    fn neg(self) -> F { unimplemented!() }
}
impl F {
    #[verifier::external_body]
    pub fn max(self, o: F) -> (r: F) ensures r.v() == rmax(self.v(), o.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: F) -> (r: F) ensures r.v() == rmin(self.v(), o.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(self) -> (r: F) ensures r.v() == rabs(self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn sqrt(self) -> (r: F) ensures r.v() == rsqrt(self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn copysign(self, o: F) -> (r: F) ensures o.v() > 0real ==> r.v() == rabs(self.v()), o.v() < 0real ==> r.v() == -rabs(self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn recip(self) -> (r: F) ensures r.v() == 1real / self.v() { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct f32x4 { q: [f32; 4] }
impl f32x4 { pub uninterp spec fn l(self, i: int) -> real; }
pub uninterp spec fn vadd(a: f32x4, b: f32x4) -> f32x4;
pub broadcast axiom fn vadd_ax(a: f32x4, b: f32x4, i: int) ensures (#[trigger] vadd(a, b).l(i)) == a.l(i) + b.l(i);
impl vstd::std_specs::ops::AddSpecImpl<f32x4> for f32x4 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: f32x4) -> bool { true }
    open spec fn add_spec(self, rhs: f32x4) -> f32x4 { vadd(self, rhs) }
}
impl Add for f32x4 { type Output = f32x4;
    #[verifier::external_body]
    fn add(self, rhs: f32x4) -> f32x4 { unimplemented!() }
}
pub uninterp spec fn vsub(a: f32x4, b: f32x4) -> f32x4;
pub broadcast axiom fn vsub_ax(a: f32x4, b: f32x4, i: int) ensures (#[trigger] vsub(a, b).l(i)) == a.l(i) - b.l(i);
impl vstd::std_specs::ops::SubSpecImpl<f32x4> for f32x4 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: f32x4) -> bool { true }
    open spec fn sub_spec(self, rhs: f32x4) -> f32x4 { vsub(self, rhs) }
}
impl Sub for f32x4 { type Output = f32x4;
    #[verifier::external_body]
    fn sub(self, rhs: f32x4) -> f32x4 { unimplemented!() }
}
pub uninterp spec fn vmul(a: f32x4, b: f32x4) -> f32x4;
pub broadcast axiom fn vmul_ax(a: f32x4, b: f32x4, i: int) ensures (#[trigger] vmul(a, b).l(i)) == a.l(i) * b.l(i);
impl vstd::std_specs::ops::MulSpecImpl<f32x4> for f32x4 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: f32x4) -> bool { true }
    open spec fn mul_spec(self, rhs: f32x4) -> f32x4 { vmul(self, rhs) }
}
impl Mul for f32x4 { type Output = f32x4;
    #[verifier::external_body]
    fn mul(self, rhs: f32x4) -> f32x4 { unimplemented!() }
}
pub uninterp spec fn vdiv(a: f32x4, b: f32x4) -> f32x4;
pub broadcast axiom fn vdiv_ax(a: f32x4, b: f32x4, i: int) ensures (#[trigger] vdiv(a, b).l(i)) == a.l(i) / b.l(i);
impl vstd::std_specs::ops::DivSpecImpl<f32x4> for f32x4 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: f32x4) -> bool { true }
    open spec fn div_spec(self, rhs: f32x4) -> f32x4 { vdiv(self, rhs) }
}
impl Div for f32x4 { type Output = f32x4;
    #[verifier::external_body]
    fn div(self, rhs: f32x4) -> f32x4 { unimplemented!() }
}
pub uninterp spec fn vneg(a: f32x4) -> f32x4;
pub broadcast axiom fn vneg_ax(a: f32x4, i: int) ensures (#[trigger] vneg(a).l(i)) == -a.l(i);
impl vstd::std_specs::ops::NegSpecImpl for f32x4 {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> f32x4 { vneg(self) }
}
impl Neg for f32x4 { type Output = f32x4;
    #[verifier::external_body]
    fn neg(self) -> f32x4 { unimplemented!() }
}
impl f32x4 {
    #[verifier::external_body]
    pub fn simd_max(self, o: f32x4) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == rmax(self.l(i), o.l(i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn simd_min(self, o: f32x4) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == rmin(self.l(i), o.l(i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(self) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == rabs(self.l(i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn sqrt(self) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == rsqrt(self.l(i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn recip(self) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == 1real / self.l(i) { unimplemented!() }
}
impl F {
    #[verifier::external_body]
    pub fn lit(Ghost(x): Ghost<real>) -> (r: F) ensures r.v() == x { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for F {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &F) -> bool { self.v() == o.v() }
}
impl core::cmp::PartialEq for F {
    #[verifier::external_body]
    fn eq(&self, o: &F) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for F {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &F) -> Option<core::cmp::Ordering> {
        if self.v() < o.v() { Some(core::cmp::Ordering::Less) } else if self.v() > o.v() { Some(core::cmp::Ordering::Greater) }
        else { Some(core::cmp::Ordering::Equal) }
    }
}
impl core::cmp::PartialOrd for F {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &F) -> Option<core::cmp::Ordering> { unimplemented!() }
    #[verifier::external_body]
    fn lt(&self, o: &F) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn le(&self, o: &F) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn gt(&self, o: &F) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn ge(&self, o: &F) -> bool { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct i32x4 { q: [i32; 4] }
// The bits of a lane, without their number being fixed (so that the bits of a real number can be spoken of).
#[verifier::external_body]
pub struct B { q: i32 }
pub uninterp spec fn bi(x: i32) -> B;
pub uninterp spec fn band(a: B, b: B) -> B;
pub uninterp spec fn bor(a: B, b: B) -> B;
pub uninterp spec fn bxor(a: B, b: B) -> B;
pub uninterp spec fn bnot(a: B) -> B;
impl i32x4 { pub uninterp spec fn l(self, i: int) -> B; }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct mask32x4 { q: [bool; 4] }
impl mask32x4 { pub uninterp spec fn l(self, i: int) -> bool; }
impl f32x4 {
    #[verifier::external_body]
    pub fn default() -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == 0real { unimplemented!() }
    #[verifier::external_body]
    pub fn splat(f: F) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == f.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_array(a: [F; 4]) -> (r: f32x4) ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == a@[i].v() { unimplemented!() }
    #[verifier::external_body]
    pub fn at(self, k: usize) -> (r: F) requires k < 4, ensures r.v() == self.l(k as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&mut self, k: usize, f: F) requires k < 4,
        ensures forall|i: int| #[trigger] final(self).l(i) == (if i == k { f.v() } else { old(self).l(i) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn reduce_sum(self) -> (r: F) ensures r.v() == self.l(0) + self.l(1) + self.l(2) + self.l(3) { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_add(self, a: f32x4, b: f32x4) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == self.l(i) * a.l(i) + b.l(i) { unimplemented!() }

    #[verifier::external_body]
    pub fn simd_lt(self, o: f32x4) -> (r: mask32x4) ensures forall|i: int| #[trigger] r.l(i) == (self.l(i) < o.l(i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn simd_le(self, o: f32x4) -> (r: mask32x4) ensures forall|i: int| #[trigger] r.l(i) == (self.l(i) <= o.l(i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn simd_gt(self, o: f32x4) -> (r: mask32x4) ensures forall|i: int| #[trigger] r.l(i) == (self.l(i) > o.l(i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn simd_ge(self, o: f32x4) -> (r: mask32x4) ensures forall|i: int| #[trigger] r.l(i) == (self.l(i) >= o.l(i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn simd_eq(self, o: f32x4) -> (r: mask32x4) ensures forall|i: int| #[trigger] r.l(i) == (self.l(i) == o.l(i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn simd_ne(self, o: f32x4) -> (r: mask32x4) ensures forall|i: int| #[trigger] r.l(i) == (self.l(i) != o.l(i)) { unimplemented!() }
}

pub open spec fn pick2(a: f32x4, b: f32x4, k: int) -> real { if k < 4 { a.l(k) } else { b.l(k - 4) } }
#[verifier::external_body]
pub fn swz1(a: f32x4, s: [usize; 4]) -> (r: f32x4)
    requires forall|k: int| 0 <= k < 4 ==> (#[trigger] s@[k]) < 4,
    ensures r.l(0) == a.l(s@[0] as int), r.l(1) == a.l(s@[1] as int), r.l(2) == a.l(s@[2] as int), r.l(3) == a.l(s@[3] as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn swz2(a: f32x4, b: f32x4, s: [usize; 4]) -> (r: f32x4)
    requires forall|k: int| 0 <= k < 4 ==> (#[trigger] s@[k]) < 8,
    ensures r.l(0) == pick2(a, b, s@[0] as int), r.l(1) == pick2(a, b, s@[1] as int),
        r.l(2) == pick2(a, b, s@[2] as int), r.l(3) == pick2(a, b, s@[3] as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn iswz1(a: i32x4, s: [usize; 4]) -> (r: i32x4)
    requires forall|k: int| 0 <= k < 4 ==> (#[trigger] s@[k]) < 4,
    ensures r.l(0) == a.l(s@[0] as int), r.l(1) == a.l(s@[1] as int), r.l(2) == a.l(s@[2] as int), r.l(3) == a.l(s@[3] as int)
{ unimplemented!() }
// The bits of a number, and the number of some bits.
pub uninterp spec fn fbits(a: real) -> B;
pub uninterp spec fn fval(b: B) -> real;
pub broadcast axiom fn fval_ax(a: real) ensures #[trigger] fval(fbits(a)) == a;
pub broadcast axiom fn fval_neg(a: real) ensures #[trigger] fval(bxor(fbits(a), bi(i32::MIN))) == -a;
pub axiom fn fval_zero() ensures fval(bi(0i32)) == 0real, fbits(0real) == bi(0i32);
#[verifier::external_body]
pub fn fx4(a: i32x4) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == fval(a.l(i)) { unimplemented!() }
#[verifier::external_body]
pub fn ix4(a: f32x4) -> (r: i32x4) ensures forall|i: int| #[trigger] r.l(i) == fbits(a.l(i)) { unimplemented!() }

pub uninterp spec fn ibitand(a: i32x4, b: i32x4) -> i32x4;
pub broadcast axiom fn ibitand_ax(a: i32x4, b: i32x4, i: int) ensures (#[trigger] ibitand(a, b).l(i)) == band(a.l(i), b.l(i));
impl vstd::std_specs::ops::BitAndSpecImpl<i32x4> for i32x4 {
    open spec fn obeys_bitand_spec() -> bool { true }
    open spec fn bitand_req(self, rhs: i32x4) -> bool { true }
    open spec fn bitand_spec(self, rhs: i32x4) -> i32x4 { ibitand(self, rhs) }
}
impl BitAnd for i32x4 { type Output = i32x4;
    #[verifier::external_body]
    fn bitand(self, rhs: i32x4) -> i32x4 { unimplemented!() }
}
pub uninterp spec fn ibitor(a: i32x4, b: i32x4) -> i32x4;
pub broadcast axiom fn ibitor_ax(a: i32x4, b: i32x4, i: int) ensures (#[trigger] ibitor(a, b).l(i)) == bor(a.l(i), b.l(i));
impl vstd::std_specs::ops::BitOrSpecImpl<i32x4> for i32x4 {
    open spec fn obeys_bitor_spec() -> bool { true }
    open spec fn bitor_req(self, rhs: i32x4) -> bool { true }
    open spec fn bitor_spec(self, rhs: i32x4) -> i32x4 { ibitor(self, rhs) }
}
impl BitOr for i32x4 { type Output = i32x4;
    #[verifier::external_body]
    fn bitor(self, rhs: i32x4) -> i32x4 { unimplemented!() }
}
pub uninterp spec fn ibitxor(a: i32x4, b: i32x4) -> i32x4;
pub broadcast axiom fn ibitxor_ax(a: i32x4, b: i32x4, i: int) ensures (#[trigger] ibitxor(a, b).l(i)) == bxor(a.l(i), b.l(i));
impl vstd::std_specs::ops::BitXorSpecImpl<i32x4> for i32x4 {
    open spec fn obeys_bitxor_spec() -> bool { true }
    open spec fn bitxor_req(self, rhs: i32x4) -> bool { true }
    open spec fn bitxor_spec(self, rhs: i32x4) -> i32x4 { ibitxor(self, rhs) }
}
impl BitXor for i32x4 { type Output = i32x4;
    #[verifier::external_body]
    fn bitxor(self, rhs: i32x4) -> i32x4 { unimplemented!() }
}
pub uninterp spec fn inot(a: i32x4) -> i32x4;
pub broadcast axiom fn inot_ax(a: i32x4, i: int) ensures (#[trigger] inot(a).l(i)) == bnot(a.l(i));
impl vstd::std_specs::ops::NotSpecImpl for i32x4 {
    open spec fn obeys_not_spec() -> bool { true }
    open spec fn not_req(self) -> bool { true }
    open spec fn not_spec(self) -> i32x4 { inot(self) }
}
impl Not for i32x4 { type Output = i32x4;
    #[verifier::external_body]
    fn not(self) -> i32x4 { unimplemented!() }
}
pub broadcast axiom fn and_all(a: B) ensures #[trigger] band(a, bi(-1i32)) == a;
pub broadcast axiom fn and_none(a: B) ensures #[trigger] band(a, bi(0i32)) == bi(0i32);
pub broadcast axiom fn all_and(a: B) ensures #[trigger] band(bi(-1i32), a) == a;
pub broadcast axiom fn none_and(a: B) ensures #[trigger] band(bi(0i32), a) == bi(0i32);
pub broadcast axiom fn or_none(a: B) ensures #[trigger] bor(a, bi(0i32)) == a;
pub broadcast axiom fn none_or(a: B) ensures #[trigger] bor(bi(0i32), a) == a;
pub broadcast axiom fn xor_none(a: B) ensures #[trigger] bxor(a, bi(0i32)) == a;
pub broadcast axiom fn not_all(a: B) ensures a == bi(-1i32) ==> (#[trigger] bnot(a)) == bi(0i32), a == bi(0i32) ==> bnot(a) == bi(-1i32);

impl i32x4 {
    #[verifier::external_body]
    pub fn from_array(a: [i32; 4]) -> (r: i32x4) ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == bi(a@[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn splat(a: i32) -> (r: i32x4) ensures forall|i: int| #[trigger] r.l(i) == bi(a) { unimplemented!() }
}
impl mask32x4 {
    #[verifier::external_body]
    pub fn to_int(self) -> (r: i32x4) ensures forall|i: int| #[trigger] r.l(i) == (if self.l(i) { bi(-1i32) } else { bi(0i32) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn select(self, a: f32x4, b: f32x4) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == (if self.l(i) { a.l(i) } else { b.l(i) }) { unimplemented!() }
}

// A number by its value; the floor of a number.
pub uninterp spec fn f_of(r: real) -> F;
pub broadcast axiom fn f_of_ax(r: real) ensures (#[trigger] f_of(r)).v() == r;
pub broadcast axiom fn f_of_v(a: F) ensures f_of(#[trigger] a.v()) == a;
pub uninterp spec fn rfloor(x: real) -> int;
pub broadcast axiom fn rfloor_ax(x: real) ensures (#[trigger] rfloor(x)) as real <= x < (rfloor(x) + 1) as real;
impl F {
    #[verifier::external_body]
    pub fn floor(self) -> (r: F) ensures r.v() == rfloor(self.v()) as real { unimplemented!() }
}
pub broadcast group fof { f_of_ax, f_of_v, rfloor_ax }
pub broadcast group ops { rsqrt_ax, sadd_ax, ssub_ax, smul_ax, sdiv_ax, sneg_ax, vadd_ax, vsub_ax, vmul_ax, vdiv_ax, vneg_ax, ibitand_ax, ibitor_ax, ibitxor_ax, fval_ax, fval_neg, inot_ax, and_all, and_none, all_and, none_and, or_none, none_or, xor_none, not_all }
} }
macro_rules! simd_swizzle {
    ($a:expr, $s:expr) => { $crate::sd::swz1($a, $s) };
    ($a:expr, $b:expr, $s:expr) => { $crate::sd::swz2($a, $b, $s) };
}
macro_rules! iswizzle { ($a:expr, $s:expr) => { $crate::sd::iswz1($a, $s) }; }
