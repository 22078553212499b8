ops=[("Add","add","+"),("Sub","sub","-"),("Mul","mul","*"),("Div","div","/")]
o='''// Floats by their bit pattern: operations are functions of the operands' bits, lane by lane, and nothing else is assumed of them
// than the facts below (IEEE 754, no operand being NaN).
#[allow(unused_imports)]
pub mod sd {
use vstd::prelude::*;
use core::ops::{Add, Sub, Mul, Div, Neg, BitAnd, BitOr, Not, Shl};
verus! {
pub uninterp spec fn wlit(a: real) -> i32;
pub broadcast axiom fn wlit_0() ensures #[trigger] wlit(0real) == 0i32;
pub uninterp spec fn wadd(a: i32, b: i32) -> i32;
pub uninterp spec fn wsub(a: i32, b: i32) -> i32;
pub uninterp spec fn wmul(a: i32, b: i32) -> i32;
pub uninterp spec fn wdiv(a: i32, b: i32) -> i32;
pub uninterp spec fn wmax(a: i32, b: i32) -> i32;
pub uninterp spec fn wsqrt(a: i32) -> i32;
pub open spec fn wneg(a: i32) -> i32 { a ^ i32::MIN }
pub broadcast axiom fn wmul_comm(a: i32, b: i32) ensures #[trigger] wmul(a, b) == wmul(b, a);
pub broadcast axiom fn wadd_comm(a: i32, b: i32) ensures #[trigger] wadd(a, b) == wadd(b, a);
// The root of a number clamped from below by +0 has a clear sign bit.
pub broadcast axiom fn wsqrt_sign(a: i32) ensures (#[trigger] wsqrt(wmax(0i32, a))) >= 0;
pub broadcast proof fn or_sign(a: i32) requires a >= 0 ensures #[trigger] (a | i32::MIN) == a ^ i32::MIN
{ assert(a >= 0 ==> a | i32::MIN == a ^ i32::MIN) by (bit_vector); }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F { q: f32 }
impl F {
    pub uninterp spec fn v(self) -> i32;
    #[verifier::external_body]
    pub fn lit(Ghost(x): Ghost<real>) -> (r: F) ensures r.v() == wlit(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn sqrt(self) -> (r: F) ensures r.v() == wsqrt(self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: F) -> (r: F) ensures r.v() == wmax(self.v(), o.v()) { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct f32x4 { q: [f32; 4] }
impl f32x4 {
    pub uninterp spec fn l(self, i: int) -> i32;
    #[verifier::external_body]
    pub fn simd_max(self, o: f32x4) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == wmax(self.l(i), o.l(i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn sqrt(self) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == wsqrt(self.l(i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn splat(f: F) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == f.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_array(a: [F; 4]) -> (r: f32x4) ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == a@[i].v() { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct i32x4 { q: [i32; 4] }
impl i32x4 {
    pub uninterp spec fn l(self, i: int) -> i32;
    #[verifier::external_body]
    pub fn splat(f: i32) -> (r: i32x4) ensures forall|i: int| #[trigger] r.l(i) == f { unimplemented!() }
    #[verifier::external_body]
    pub fn from_array(a: [i32; 4]) -> (r: i32x4) ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == a@[i] { unimplemented!() }
}
#[verifier::external_body]
pub fn fx4(a: i32x4) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == a.l(i) { unimplemented!() }
#[verifier::external_body]
pub fn ix4(a: f32x4) -> (r: i32x4) ensures forall|i: int| #[trigger] r.l(i) == a.l(i) { unimplemented!() }
'''
names=["wlit_0","wmul_comm","wadd_comm","wsqrt_sign","or_sign"]
def binop(T,Tr,f,spec,acc,arg="T"):
    global o
    A=T if arg=="T" else arg
    n=f"{T[0]}{'s' if T=='F' else ''}_{f}".lower()
    o+=f'''pub uninterp spec fn {n}(a: {T}, b: {A}) -> {T};
'''
    if T=="F": o+=f"pub broadcast axiom fn {n}_ax(a: F, b: F) ensures (#[trigger] {n}(a, b).v()) == {spec.format('a.v()','b.v()')};\n"
    elif A==T: o+=f"pub broadcast axiom fn {n}_ax(a: {T}, b: {T}, i: int) ensures (#[trigger] {n}(a, b).l(i)) == {spec.format('a.l(i)','b.l(i)')};\n"
    else: o+=f"pub broadcast axiom fn {n}_ax(a: {T}, b: {A}, i: int) ensures (#[trigger] {n}(a, b).l(i)) == {spec.format('a.l(i)','b')};\n"
    names.append(n+"_ax")
    G=f"<{A}>"
    o+=f'''impl vstd::std_specs::ops::{Tr}SpecImpl{G} for {T} {{
    open spec fn obeys_{f}_spec() -> bool {{ true }}
    open spec fn {f}_req(self, rhs: {A}) -> bool {{ true }}
    open spec fn {f}_spec(self, rhs: {A}) -> {T} {{ {n}(self, rhs) }}
}}
impl {Tr}{G} for {T} {{ type Output = {T};
    #[verifier::external_body]
    fn {f}(self, rhs: {A}) -> {T} {{ unimplemented!() }}
}}
'''
for T in ("F","f32x4"):
    for Tr,f,_ in ops: binop(T,Tr,f,"w"+f+"({}, {})","v")
for Tr,f,op in (("BitAnd","bitand","&"),("BitOr","bitor","|")): binop("i32x4",Tr,f,"{} "+op+" {}","l")
binop("i32x4","Shl","shl","bshl({}, {})","l","i32")
o+='''pub uninterp spec fn bshl(a: i32, k: i32) -> i32;
pub broadcast axiom fn bshl_0() ensures #[trigger] bshl(0i32, 31i32) == 0i32;
pub broadcast axiom fn bshl_1() ensures #[trigger] bshl(1i32, 31i32) == i32::MIN;
pub uninterp spec fn inot(a: i32x4) -> i32x4;
pub broadcast axiom fn inot_ax(a: i32x4, i: int) ensures (#[trigger] inot(a).l(i)) == !a.l(i);
pub uninterp spec fn fneg(a: F) -> F;
pub broadcast axiom fn fneg_ax(a: F) ensures (#[trigger] fneg(a).v()) == wneg(a.v());
impl vstd::std_specs::ops::NotSpecImpl for i32x4 {
    open spec fn obeys_not_spec() -> bool { true }
    open spec fn not_req(self) -> bool { true }
    open spec fn not_spec(self) -> i32x4 { inot(self) }
}
impl Not for i32x4 { type Output = i32x4;
    #[verifier::external_body]
    fn not(self) -> i32x4 { unimplemented!() }
}
impl vstd::std_specs::ops::NegSpecImpl for F {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> F { fneg(self) }
}
impl Neg for F { type Output = F;
    #[verifier::external_body]
    fn neg(self) -> F { unimplemented!() }
}
pub broadcast proof fn and_all(a: i32) ensures #[trigger] (a & -1i32) == a { assert(a & -1i32 == a) by (bit_vector); }
pub broadcast proof fn and_none(a: i32) ensures #[trigger] (a & 0i32) == 0 { assert(a & 0i32 == 0) by (bit_vector); }
pub broadcast proof fn or_none(a: i32) ensures #[trigger] (a | 0i32) == a { assert(a | 0i32 == a) by (bit_vector); }
pub broadcast proof fn none_or(a: i32) ensures #[trigger] (0i32 | a) == a { assert(0i32 | a == a) by (bit_vector); }
pub broadcast proof fn not_all(a: i32) ensures a == -1i32 ==> (#[trigger] (!a)) == 0i32, a == 0i32 ==> !a == -1i32 {
    assert(!(-1i32) == 0i32) by (bit_vector); assert(!0i32 == -1i32) by (bit_vector);
}
'''
names+=["bshl_0","bshl_1","inot_ax","fneg_ax","and_all","and_none","or_none","none_or","not_all"]
o+="pub broadcast group ops { "+", ".join(names)+" }\n} }\n"
open('/verif/verus/inc/simdbits.rs','w').write(o)
