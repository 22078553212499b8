// A float of any bit pattern: nothing is said about what its operations give.
#[allow(unused_imports)]
pub mod sd {
use vstd::prelude::*;
use core::ops::{Add, Sub, Mul, Div, Neg};
verus! {
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F { q: f32 }
impl vstd::std_specs::ops::AddSpecImpl<F> for F {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: F) -> bool { true }
    uninterp spec fn add_spec(self, rhs: F) -> F;
}
impl Add for F { type Output = F;
    #[verifier::external_body]
    fn add(self, rhs: F) -> F { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<F> for F {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: F) -> bool { true }
    uninterp spec fn sub_spec(self, rhs: F) -> F;
}
impl Sub for F { type Output = F;
    #[verifier::external_body]
    fn sub(self, rhs: F) -> F { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<F> for F {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    uninterp spec fn mul_spec(self, rhs: F) -> F;
}
impl Mul for F { type Output = F;
    #[verifier::external_body]
    fn mul(self, rhs: F) -> F { unimplemented!() }
}
impl vstd::std_specs::ops::DivSpecImpl<F> for F {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: F) -> bool { true }
    uninterp spec fn div_spec(self, rhs: F) -> F;
}
impl Div for F { type Output = F;
    #[verifier::external_body]
    fn div(self, rhs: F) -> F { unimplemented!() }
}
impl vstd::std_specs::ops::NegSpecImpl for F {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    uninterp spec fn neg_spec(self) -> F;
}
impl Neg for F { type Output = F;
    #[verifier::external_body]
    fn neg(self) -> F { unimplemented!() }
}
impl F {
    #[verifier::external_body]
    pub fn max(self, o: F) -> F { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: F) -> F { unimplemented!() }
    #[verifier::external_body]
    pub fn clamp(self, a: F, b: F) -> F { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(self) -> F { unimplemented!() }
    #[verifier::external_body]
    pub fn sqrt(self) -> F { unimplemented!() }
    #[verifier::external_body]
    pub fn floor(self) -> F { unimplemented!() }
    #[verifier::external_body]
    pub fn recip(self) -> F { unimplemented!() }
    #[verifier::external_body]
    pub fn lit(Ghost(x): Ghost<real>) -> F { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for F {
    open spec fn obeys_eq_spec() -> bool { false }
    uninterp spec fn eq_spec(&self, o: &F) -> bool;
}
impl core::cmp::PartialEq for F {
    #[verifier::external_body]
    fn eq(&self, o: &F) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for F {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &F) -> Option<core::cmp::Ordering> { cmp(*self, *o) }
}
// Comparing is a function of the two numbers, None when one of them is not a number.
pub uninterp spec fn cmp(a: F, b: F) -> Option<core::cmp::Ordering>;
pub broadcast axiom fn cmp_ax(a: F, b: F)
    ensures #[trigger] cmp(a, b) == Some(core::cmp::Ordering::Less) <==> cmp(b, a) == Some(core::cmp::Ordering::Greater);
impl core::cmp::PartialOrd for F {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &F) -> Option<core::cmp::Ordering> { unimplemented!() }
    #[verifier::external_body]
    fn lt(&self, o: &F) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn le(&self, o: &F) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn gt(&self, o: &F) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn ge(&self, o: &F) -> bool { unimplemented!() }
}
} }
