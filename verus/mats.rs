// C17: matrices, over the real numbers.
#![allow(non_camel_case_types, non_snake_case, unused)]
use vstd::prelude::*;
//@include simd.rs
verus! {
use sd::*;
broadcast use sd::ops;
//@use kernel
//@real

//@item src/math.rs struct AosMat4
//@end
impl Clone for AosMat4 {
    #[verifier::external_body]
    fn clone(&self) -> (r: AosMat4) ensures r == *self { unimplemented!() }
}
impl Copy for AosMat4 {}
//@item src/math.rs struct SoaMat4
//@end
impl Clone for SoaMat4 {
    #[verifier::external_body]
    fn clone(&self) -> (r: SoaMat4) ensures r == *self { unimplemented!() }
}
impl Copy for SoaMat4 {}

// Row i of column j.
pub open spec fn m(a: AosMat4, i: int, j: int) -> real { a.cols@[j].l(i) }
// Entry (i, j) of the product a b.
pub open spec fn mm(a: AosMat4, b: AosMat4, i: int, j: int) -> real {
    m(a, i, 0) * m(b, 0, j) + m(a, i, 1) * m(b, 1, j) + m(a, i, 2) * m(b, 2, j) + m(a, i, 3) * m(b, 3, j)
}

pub open spec fn is_identity(r: AosMat4) -> bool {
    &&& m(r, 0, 0) == 1real &&& m(r, 1, 0) == 0real &&& m(r, 2, 0) == 0real &&& m(r, 3, 0) == 0real
    &&& m(r, 0, 1) == 0real &&& m(r, 1, 1) == 1real &&& m(r, 2, 1) == 0real &&& m(r, 3, 1) == 0real
    &&& m(r, 0, 2) == 0real &&& m(r, 1, 2) == 0real &&& m(r, 2, 2) == 1real &&& m(r, 3, 2) == 0real
    &&& m(r, 0, 3) == 0real &&& m(r, 1, 3) == 0real &&& m(r, 2, 3) == 0real &&& m(r, 3, 3) == 1real
}
pub open spec fn is_product(r: AosMat4, a: AosMat4, b: AosMat4) -> bool {
    &&& m(r, 0, 0) == mm(a, b, 0, 0) &&& m(r, 1, 0) == mm(a, b, 1, 0) &&& m(r, 2, 0) == mm(a, b, 2, 0) &&& m(r, 3, 0) == mm(a, b, 3, 0)
    &&& m(r, 0, 1) == mm(a, b, 0, 1) &&& m(r, 1, 1) == mm(a, b, 1, 1) &&& m(r, 2, 1) == mm(a, b, 2, 1) &&& m(r, 3, 1) == mm(a, b, 3, 1)
    &&& m(r, 0, 2) == mm(a, b, 0, 2) &&& m(r, 1, 2) == mm(a, b, 1, 2) &&& m(r, 2, 2) == mm(a, b, 2, 2) &&& m(r, 3, 2) == mm(a, b, 3, 2)
    &&& m(r, 0, 3) == mm(a, b, 0, 3) &&& m(r, 1, 3) == mm(a, b, 1, 3) &&& m(r, 2, 3) == mm(a, b, 2, 3) &&& m(r, 3, 3) == mm(a, b, 3, 3)
}
pub open spec fn adj00(a: AosMat4) -> real { m(a, 1, 1) * m(a, 2, 2) * m(a, 3, 3) - m(a, 1, 1) * m(a, 2, 3) * m(a, 3, 2) - m(a, 1, 2) * m(a, 2, 1) * m(a, 3, 3) + m(a, 1, 2) * m(a, 2, 3) * m(a, 3, 1) + m(a, 1, 3) * m(a, 2, 1) * m(a, 3, 2) - m(a, 1, 3) * m(a, 2, 2) * m(a, 3, 1) }
pub open spec fn adj01(a: AosMat4) -> real { -(m(a, 0, 1) * m(a, 2, 2) * m(a, 3, 3) - m(a, 0, 1) * m(a, 2, 3) * m(a, 3, 2) - m(a, 0, 2) * m(a, 2, 1) * m(a, 3, 3) + m(a, 0, 2) * m(a, 2, 3) * m(a, 3, 1) + m(a, 0, 3) * m(a, 2, 1) * m(a, 3, 2) - m(a, 0, 3) * m(a, 2, 2) * m(a, 3, 1)) }
pub open spec fn adj02(a: AosMat4) -> real { m(a, 0, 1) * m(a, 1, 2) * m(a, 3, 3) - m(a, 0, 1) * m(a, 1, 3) * m(a, 3, 2) - m(a, 0, 2) * m(a, 1, 1) * m(a, 3, 3) + m(a, 0, 2) * m(a, 1, 3) * m(a, 3, 1) + m(a, 0, 3) * m(a, 1, 1) * m(a, 3, 2) - m(a, 0, 3) * m(a, 1, 2) * m(a, 3, 1) }
pub open spec fn adj03(a: AosMat4) -> real { -(m(a, 0, 1) * m(a, 1, 2) * m(a, 2, 3) - m(a, 0, 1) * m(a, 1, 3) * m(a, 2, 2) - m(a, 0, 2) * m(a, 1, 1) * m(a, 2, 3) + m(a, 0, 2) * m(a, 1, 3) * m(a, 2, 1) + m(a, 0, 3) * m(a, 1, 1) * m(a, 2, 2) - m(a, 0, 3) * m(a, 1, 2) * m(a, 2, 1)) }
pub open spec fn adj10(a: AosMat4) -> real { -(m(a, 1, 0) * m(a, 2, 2) * m(a, 3, 3) - m(a, 1, 0) * m(a, 2, 3) * m(a, 3, 2) - m(a, 1, 2) * m(a, 2, 0) * m(a, 3, 3) + m(a, 1, 2) * m(a, 2, 3) * m(a, 3, 0) + m(a, 1, 3) * m(a, 2, 0) * m(a, 3, 2) - m(a, 1, 3) * m(a, 2, 2) * m(a, 3, 0)) }
pub open spec fn adj11(a: AosMat4) -> real { m(a, 0, 0) * m(a, 2, 2) * m(a, 3, 3) - m(a, 0, 0) * m(a, 2, 3) * m(a, 3, 2) - m(a, 0, 2) * m(a, 2, 0) * m(a, 3, 3) + m(a, 0, 2) * m(a, 2, 3) * m(a, 3, 0) + m(a, 0, 3) * m(a, 2, 0) * m(a, 3, 2) - m(a, 0, 3) * m(a, 2, 2) * m(a, 3, 0) }
pub open spec fn adj12(a: AosMat4) -> real { -(m(a, 0, 0) * m(a, 1, 2) * m(a, 3, 3) - m(a, 0, 0) * m(a, 1, 3) * m(a, 3, 2) - m(a, 0, 2) * m(a, 1, 0) * m(a, 3, 3) + m(a, 0, 2) * m(a, 1, 3) * m(a, 3, 0) + m(a, 0, 3) * m(a, 1, 0) * m(a, 3, 2) - m(a, 0, 3) * m(a, 1, 2) * m(a, 3, 0)) }
pub open spec fn adj13(a: AosMat4) -> real { m(a, 0, 0) * m(a, 1, 2) * m(a, 2, 3) - m(a, 0, 0) * m(a, 1, 3) * m(a, 2, 2) - m(a, 0, 2) * m(a, 1, 0) * m(a, 2, 3) + m(a, 0, 2) * m(a, 1, 3) * m(a, 2, 0) + m(a, 0, 3) * m(a, 1, 0) * m(a, 2, 2) - m(a, 0, 3) * m(a, 1, 2) * m(a, 2, 0) }
pub open spec fn adj20(a: AosMat4) -> real { m(a, 1, 0) * m(a, 2, 1) * m(a, 3, 3) - m(a, 1, 0) * m(a, 2, 3) * m(a, 3, 1) - m(a, 1, 1) * m(a, 2, 0) * m(a, 3, 3) + m(a, 1, 1) * m(a, 2, 3) * m(a, 3, 0) + m(a, 1, 3) * m(a, 2, 0) * m(a, 3, 1) - m(a, 1, 3) * m(a, 2, 1) * m(a, 3, 0) }
pub open spec fn adj21(a: AosMat4) -> real { -(m(a, 0, 0) * m(a, 2, 1) * m(a, 3, 3) - m(a, 0, 0) * m(a, 2, 3) * m(a, 3, 1) - m(a, 0, 1) * m(a, 2, 0) * m(a, 3, 3) + m(a, 0, 1) * m(a, 2, 3) * m(a, 3, 0) + m(a, 0, 3) * m(a, 2, 0) * m(a, 3, 1) - m(a, 0, 3) * m(a, 2, 1) * m(a, 3, 0)) }
pub open spec fn adj22(a: AosMat4) -> real { m(a, 0, 0) * m(a, 1, 1) * m(a, 3, 3) - m(a, 0, 0) * m(a, 1, 3) * m(a, 3, 1) - m(a, 0, 1) * m(a, 1, 0) * m(a, 3, 3) + m(a, 0, 1) * m(a, 1, 3) * m(a, 3, 0) + m(a, 0, 3) * m(a, 1, 0) * m(a, 3, 1) - m(a, 0, 3) * m(a, 1, 1) * m(a, 3, 0) }
pub open spec fn adj23(a: AosMat4) -> real { -(m(a, 0, 0) * m(a, 1, 1) * m(a, 2, 3) - m(a, 0, 0) * m(a, 1, 3) * m(a, 2, 1) - m(a, 0, 1) * m(a, 1, 0) * m(a, 2, 3) + m(a, 0, 1) * m(a, 1, 3) * m(a, 2, 0) + m(a, 0, 3) * m(a, 1, 0) * m(a, 2, 1) - m(a, 0, 3) * m(a, 1, 1) * m(a, 2, 0)) }
pub open spec fn adj30(a: AosMat4) -> real { -(m(a, 1, 0) * m(a, 2, 1) * m(a, 3, 2) - m(a, 1, 0) * m(a, 2, 2) * m(a, 3, 1) - m(a, 1, 1) * m(a, 2, 0) * m(a, 3, 2) + m(a, 1, 1) * m(a, 2, 2) * m(a, 3, 0) + m(a, 1, 2) * m(a, 2, 0) * m(a, 3, 1) - m(a, 1, 2) * m(a, 2, 1) * m(a, 3, 0)) }
pub open spec fn adj31(a: AosMat4) -> real { m(a, 0, 0) * m(a, 2, 1) * m(a, 3, 2) - m(a, 0, 0) * m(a, 2, 2) * m(a, 3, 1) - m(a, 0, 1) * m(a, 2, 0) * m(a, 3, 2) + m(a, 0, 1) * m(a, 2, 2) * m(a, 3, 0) + m(a, 0, 2) * m(a, 2, 0) * m(a, 3, 1) - m(a, 0, 2) * m(a, 2, 1) * m(a, 3, 0) }
pub open spec fn adj32(a: AosMat4) -> real { -(m(a, 0, 0) * m(a, 1, 1) * m(a, 3, 2) - m(a, 0, 0) * m(a, 1, 2) * m(a, 3, 1) - m(a, 0, 1) * m(a, 1, 0) * m(a, 3, 2) + m(a, 0, 1) * m(a, 1, 2) * m(a, 3, 0) + m(a, 0, 2) * m(a, 1, 0) * m(a, 3, 1) - m(a, 0, 2) * m(a, 1, 1) * m(a, 3, 0)) }
pub open spec fn adj33(a: AosMat4) -> real { m(a, 0, 0) * m(a, 1, 1) * m(a, 2, 2) - m(a, 0, 0) * m(a, 1, 2) * m(a, 2, 1) - m(a, 0, 1) * m(a, 1, 0) * m(a, 2, 2) + m(a, 0, 1) * m(a, 1, 2) * m(a, 2, 0) + m(a, 0, 2) * m(a, 1, 0) * m(a, 2, 1) - m(a, 0, 2) * m(a, 1, 1) * m(a, 2, 0) }
pub open spec fn det(a: AosMat4) -> real { m(a, 0, 0) * adj00(a) + m(a, 0, 1) * adj10(a) + m(a, 0, 2) * adj20(a) + m(a, 0, 3) * adj30(a) }
// r det(a) is the adjugate of a.
pub open spec fn is_inverse(r: AosMat4, a: AosMat4) -> bool {
    &&& m(r, 0, 0) == adj00(a) * (1real / det(a)) &&& m(r, 1, 0) == adj10(a) * (1real / det(a)) &&& m(r, 2, 0) == adj20(a) * (1real / det(a)) &&& m(r, 3, 0) == adj30(a) * (1real / det(a))
    &&& m(r, 0, 1) == adj01(a) * (1real / det(a)) &&& m(r, 1, 1) == adj11(a) * (1real / det(a)) &&& m(r, 2, 1) == adj21(a) * (1real / det(a)) &&& m(r, 3, 1) == adj31(a) * (1real / det(a))
    &&& m(r, 0, 2) == adj02(a) * (1real / det(a)) &&& m(r, 1, 2) == adj12(a) * (1real / det(a)) &&& m(r, 2, 2) == adj22(a) * (1real / det(a)) &&& m(r, 3, 2) == adj32(a) * (1real / det(a))
    &&& m(r, 0, 3) == adj03(a) * (1real / det(a)) &&& m(r, 1, 3) == adj13(a) * (1real / det(a)) &&& m(r, 2, 3) == adj23(a) * (1real / det(a)) &&& m(r, 3, 3) == adj33(a) * (1real / det(a))
}
//@ring cofactors a00 a01 a02 a03 a10 a11 a12 a13 a20 a21 a22 a23 a30 a31 a32 a33
    let c00 = a11 * a22 * a33 - a11 * a23 * a32 - a12 * a21 * a33 + a12 * a23 * a31 + a13 * a21 * a32 - a13 * a22 * a31;
    let c01 = -(a01 * a22 * a33 - a01 * a23 * a32 - a02 * a21 * a33 + a02 * a23 * a31 + a03 * a21 * a32 - a03 * a22 * a31);
    let c02 = a01 * a12 * a33 - a01 * a13 * a32 - a02 * a11 * a33 + a02 * a13 * a31 + a03 * a11 * a32 - a03 * a12 * a31;
    let c03 = -(a01 * a12 * a23 - a01 * a13 * a22 - a02 * a11 * a23 + a02 * a13 * a21 + a03 * a11 * a22 - a03 * a12 * a21);
    let c10 = -(a10 * a22 * a33 - a10 * a23 * a32 - a12 * a20 * a33 + a12 * a23 * a30 + a13 * a20 * a32 - a13 * a22 * a30);
    let c11 = a00 * a22 * a33 - a00 * a23 * a32 - a02 * a20 * a33 + a02 * a23 * a30 + a03 * a20 * a32 - a03 * a22 * a30;
    let c12 = -(a00 * a12 * a33 - a00 * a13 * a32 - a02 * a10 * a33 + a02 * a13 * a30 + a03 * a10 * a32 - a03 * a12 * a30);
    let c13 = a00 * a12 * a23 - a00 * a13 * a22 - a02 * a10 * a23 + a02 * a13 * a20 + a03 * a10 * a22 - a03 * a12 * a20;
    let c20 = a10 * a21 * a33 - a10 * a23 * a31 - a11 * a20 * a33 + a11 * a23 * a30 + a13 * a20 * a31 - a13 * a21 * a30;
    let c21 = -(a00 * a21 * a33 - a00 * a23 * a31 - a01 * a20 * a33 + a01 * a23 * a30 + a03 * a20 * a31 - a03 * a21 * a30);
    let c22 = a00 * a11 * a33 - a00 * a13 * a31 - a01 * a10 * a33 + a01 * a13 * a30 + a03 * a10 * a31 - a03 * a11 * a30;
    let c23 = -(a00 * a11 * a23 - a00 * a13 * a21 - a01 * a10 * a23 + a01 * a13 * a20 + a03 * a10 * a21 - a03 * a11 * a20);
    let c30 = -(a10 * a21 * a32 - a10 * a22 * a31 - a11 * a20 * a32 + a11 * a22 * a30 + a12 * a20 * a31 - a12 * a21 * a30);
    let c31 = a00 * a21 * a32 - a00 * a22 * a31 - a01 * a20 * a32 + a01 * a22 * a30 + a02 * a20 * a31 - a02 * a21 * a30;
    let c32 = -(a00 * a11 * a32 - a00 * a12 * a31 - a01 * a10 * a32 + a01 * a12 * a30 + a02 * a10 * a31 - a02 * a11 * a30);
    let c33 = a00 * a11 * a22 - a00 * a12 * a21 - a01 * a10 * a22 + a01 * a12 * a20 + a02 * a10 * a21 - a02 * a11 * a20;
    let d = a00 * c00 + a01 * c10 + a02 * c20 + a03 * c30;
    c00 * a00 + c01 * a10 + c02 * a20 + c03 * a30 == d;
    c00 * a00 + c10 * a01 + c20 * a02 + c30 * a03 == d;
    c00 * a01 + c01 * a11 + c02 * a21 + c03 * a31 == 0real;
    c01 * a00 + c11 * a01 + c21 * a02 + c31 * a03 == 0real;
    c00 * a02 + c01 * a12 + c02 * a22 + c03 * a32 == 0real;
    c02 * a00 + c12 * a01 + c22 * a02 + c32 * a03 == 0real;
    c00 * a03 + c01 * a13 + c02 * a23 + c03 * a33 == 0real;
    c03 * a00 + c13 * a01 + c23 * a02 + c33 * a03 == 0real;
    c10 * a00 + c11 * a10 + c12 * a20 + c13 * a30 == 0real;
    c00 * a10 + c10 * a11 + c20 * a12 + c30 * a13 == 0real;
    c10 * a01 + c11 * a11 + c12 * a21 + c13 * a31 == d;
    c01 * a10 + c11 * a11 + c21 * a12 + c31 * a13 == d;
    c10 * a02 + c11 * a12 + c12 * a22 + c13 * a32 == 0real;
    c02 * a10 + c12 * a11 + c22 * a12 + c32 * a13 == 0real;
    c10 * a03 + c11 * a13 + c12 * a23 + c13 * a33 == 0real;
    c03 * a10 + c13 * a11 + c23 * a12 + c33 * a13 == 0real;
    c20 * a00 + c21 * a10 + c22 * a20 + c23 * a30 == 0real;
    c00 * a20 + c10 * a21 + c20 * a22 + c30 * a23 == 0real;
    c20 * a01 + c21 * a11 + c22 * a21 + c23 * a31 == 0real;
    c01 * a20 + c11 * a21 + c21 * a22 + c31 * a23 == 0real;
    c20 * a02 + c21 * a12 + c22 * a22 + c23 * a32 == d;
    c02 * a20 + c12 * a21 + c22 * a22 + c32 * a23 == d;
    c20 * a03 + c21 * a13 + c22 * a23 + c23 * a33 == 0real;
    c03 * a20 + c13 * a21 + c23 * a22 + c33 * a23 == 0real;
    c30 * a00 + c31 * a10 + c32 * a20 + c33 * a30 == 0real;
    c00 * a30 + c10 * a31 + c20 * a32 + c30 * a33 == 0real;
    c30 * a01 + c31 * a11 + c32 * a21 + c33 * a31 == 0real;
    c01 * a30 + c11 * a31 + c21 * a32 + c31 * a33 == 0real;
    c30 * a02 + c31 * a12 + c32 * a22 + c33 * a32 == 0real;
    c02 * a30 + c12 * a31 + c22 * a32 + c32 * a33 == 0real;
    c30 * a03 + c31 * a13 + c32 * a23 + c33 * a33 == d;
    c03 * a30 + c13 * a31 + c23 * a32 + c33 * a33 == d;
//@end
// What is_inverse says: a r and r a are the identity.
pub open spec fn undoes(r: AosMat4, a: AosMat4) -> bool {
    &&& mm(r, a, 0, 0) == 1real &&& mm(a, r, 0, 0) == 1real &&& mm(r, a, 0, 1) == 0real &&& mm(a, r, 0, 1) == 0real &&& mm(r, a, 0, 2) == 0real &&& mm(a, r, 0, 2) == 0real &&& mm(r, a, 0, 3) == 0real &&& mm(a, r, 0, 3) == 0real
    &&& mm(r, a, 1, 0) == 0real &&& mm(a, r, 1, 0) == 0real &&& mm(r, a, 1, 1) == 1real &&& mm(a, r, 1, 1) == 1real &&& mm(r, a, 1, 2) == 0real &&& mm(a, r, 1, 2) == 0real &&& mm(r, a, 1, 3) == 0real &&& mm(a, r, 1, 3) == 0real
    &&& mm(r, a, 2, 0) == 0real &&& mm(a, r, 2, 0) == 0real &&& mm(r, a, 2, 1) == 0real &&& mm(a, r, 2, 1) == 0real &&& mm(r, a, 2, 2) == 1real &&& mm(a, r, 2, 2) == 1real &&& mm(r, a, 2, 3) == 0real &&& mm(a, r, 2, 3) == 0real
    &&& mm(r, a, 3, 0) == 0real &&& mm(a, r, 3, 0) == 0real &&& mm(r, a, 3, 1) == 0real &&& mm(a, r, 3, 1) == 0real &&& mm(r, a, 3, 2) == 0real &&& mm(a, r, 3, 2) == 0real &&& mm(r, a, 3, 3) == 1real &&& mm(a, r, 3, 3) == 1real
}
pub proof fn entry(x0: real, x1: real, x2: real, x3: real, c0: real, c1: real, c2: real, c3: real, a0: real, a1: real, a2: real, a3: real, k: real, s: real)
    requires x0 == c0 * k, x1 == c1 * k, x2 == c2 * k, x3 == c3 * k, c0 * a0 + c1 * a1 + c2 * a2 + c3 * a3 == s
    ensures x0 * a0 + x1 * a1 + x2 * a2 + x3 * a3 == k * s, a0 * x0 + a1 * x1 + a2 * x2 + a3 * x3 == k * s
{
    let (p0, p1, p2, p3) = (c0 * a0, c1 * a1, c2 * a2, c3 * a3);
    one_term(x0, c0, a0, k); one_term(x1, c1, a1, k); one_term(x2, c2, a2, k); one_term(x3, c3, a3, k);
    assert(k * s == k * p0 + k * p1 + k * p2 + k * p3) by (nonlinear_arith) requires s == p0 + p1 + p2 + p3;
}
pub proof fn one_term(x: real, c: real, a: real, k: real) requires x == c * k ensures x * a == k * (c * a), a * x == k * (c * a)
{ assert(x * a == k * (c * a) && a * x == k * (c * a)) by (nonlinear_arith) requires x == c * k; }
pub proof fn inverse_undoes(r: AosMat4, a: AosMat4)
    requires is_inverse(r, a), det(a) != 0real ensures undoes(r, a)
{
    cofactors(m(a, 0, 0), m(a, 0, 1), m(a, 0, 2), m(a, 0, 3), m(a, 1, 0), m(a, 1, 1), m(a, 1, 2), m(a, 1, 3), m(a, 2, 0), m(a, 2, 1), m(a, 2, 2), m(a, 2, 3), m(a, 3, 0), m(a, 3, 1), m(a, 3, 2), m(a, 3, 3));
    let d = det(a);
    let k = 1real / d;
    assert(k * d == 1real) by (nonlinear_arith) requires k == 1real / d, d != 0real;
    assert(k * 0real == 0real) by (nonlinear_arith);
    entry(m(r, 0, 0), m(r, 0, 1), m(r, 0, 2), m(r, 0, 3), adj00(a), adj01(a), adj02(a), adj03(a), m(a, 0, 0), m(a, 1, 0), m(a, 2, 0), m(a, 3, 0), k, d);
    entry(m(r, 0, 0), m(r, 1, 0), m(r, 2, 0), m(r, 3, 0), adj00(a), adj10(a), adj20(a), adj30(a), m(a, 0, 0), m(a, 0, 1), m(a, 0, 2), m(a, 0, 3), k, d);
    entry(m(r, 0, 0), m(r, 0, 1), m(r, 0, 2), m(r, 0, 3), adj00(a), adj01(a), adj02(a), adj03(a), m(a, 0, 1), m(a, 1, 1), m(a, 2, 1), m(a, 3, 1), k, 0real);
    entry(m(r, 0, 1), m(r, 1, 1), m(r, 2, 1), m(r, 3, 1), adj01(a), adj11(a), adj21(a), adj31(a), m(a, 0, 0), m(a, 0, 1), m(a, 0, 2), m(a, 0, 3), k, 0real);
    entry(m(r, 0, 0), m(r, 0, 1), m(r, 0, 2), m(r, 0, 3), adj00(a), adj01(a), adj02(a), adj03(a), m(a, 0, 2), m(a, 1, 2), m(a, 2, 2), m(a, 3, 2), k, 0real);
    entry(m(r, 0, 2), m(r, 1, 2), m(r, 2, 2), m(r, 3, 2), adj02(a), adj12(a), adj22(a), adj32(a), m(a, 0, 0), m(a, 0, 1), m(a, 0, 2), m(a, 0, 3), k, 0real);
    entry(m(r, 0, 0), m(r, 0, 1), m(r, 0, 2), m(r, 0, 3), adj00(a), adj01(a), adj02(a), adj03(a), m(a, 0, 3), m(a, 1, 3), m(a, 2, 3), m(a, 3, 3), k, 0real);
    entry(m(r, 0, 3), m(r, 1, 3), m(r, 2, 3), m(r, 3, 3), adj03(a), adj13(a), adj23(a), adj33(a), m(a, 0, 0), m(a, 0, 1), m(a, 0, 2), m(a, 0, 3), k, 0real);
    entry(m(r, 1, 0), m(r, 1, 1), m(r, 1, 2), m(r, 1, 3), adj10(a), adj11(a), adj12(a), adj13(a), m(a, 0, 0), m(a, 1, 0), m(a, 2, 0), m(a, 3, 0), k, 0real);
    entry(m(r, 0, 0), m(r, 1, 0), m(r, 2, 0), m(r, 3, 0), adj00(a), adj10(a), adj20(a), adj30(a), m(a, 1, 0), m(a, 1, 1), m(a, 1, 2), m(a, 1, 3), k, 0real);
    entry(m(r, 1, 0), m(r, 1, 1), m(r, 1, 2), m(r, 1, 3), adj10(a), adj11(a), adj12(a), adj13(a), m(a, 0, 1), m(a, 1, 1), m(a, 2, 1), m(a, 3, 1), k, d);
    entry(m(r, 0, 1), m(r, 1, 1), m(r, 2, 1), m(r, 3, 1), adj01(a), adj11(a), adj21(a), adj31(a), m(a, 1, 0), m(a, 1, 1), m(a, 1, 2), m(a, 1, 3), k, d);
    entry(m(r, 1, 0), m(r, 1, 1), m(r, 1, 2), m(r, 1, 3), adj10(a), adj11(a), adj12(a), adj13(a), m(a, 0, 2), m(a, 1, 2), m(a, 2, 2), m(a, 3, 2), k, 0real);
    entry(m(r, 0, 2), m(r, 1, 2), m(r, 2, 2), m(r, 3, 2), adj02(a), adj12(a), adj22(a), adj32(a), m(a, 1, 0), m(a, 1, 1), m(a, 1, 2), m(a, 1, 3), k, 0real);
    entry(m(r, 1, 0), m(r, 1, 1), m(r, 1, 2), m(r, 1, 3), adj10(a), adj11(a), adj12(a), adj13(a), m(a, 0, 3), m(a, 1, 3), m(a, 2, 3), m(a, 3, 3), k, 0real);
    entry(m(r, 0, 3), m(r, 1, 3), m(r, 2, 3), m(r, 3, 3), adj03(a), adj13(a), adj23(a), adj33(a), m(a, 1, 0), m(a, 1, 1), m(a, 1, 2), m(a, 1, 3), k, 0real);
    entry(m(r, 2, 0), m(r, 2, 1), m(r, 2, 2), m(r, 2, 3), adj20(a), adj21(a), adj22(a), adj23(a), m(a, 0, 0), m(a, 1, 0), m(a, 2, 0), m(a, 3, 0), k, 0real);
    entry(m(r, 0, 0), m(r, 1, 0), m(r, 2, 0), m(r, 3, 0), adj00(a), adj10(a), adj20(a), adj30(a), m(a, 2, 0), m(a, 2, 1), m(a, 2, 2), m(a, 2, 3), k, 0real);
    entry(m(r, 2, 0), m(r, 2, 1), m(r, 2, 2), m(r, 2, 3), adj20(a), adj21(a), adj22(a), adj23(a), m(a, 0, 1), m(a, 1, 1), m(a, 2, 1), m(a, 3, 1), k, 0real);
    entry(m(r, 0, 1), m(r, 1, 1), m(r, 2, 1), m(r, 3, 1), adj01(a), adj11(a), adj21(a), adj31(a), m(a, 2, 0), m(a, 2, 1), m(a, 2, 2), m(a, 2, 3), k, 0real);
    entry(m(r, 2, 0), m(r, 2, 1), m(r, 2, 2), m(r, 2, 3), adj20(a), adj21(a), adj22(a), adj23(a), m(a, 0, 2), m(a, 1, 2), m(a, 2, 2), m(a, 3, 2), k, d);
    entry(m(r, 0, 2), m(r, 1, 2), m(r, 2, 2), m(r, 3, 2), adj02(a), adj12(a), adj22(a), adj32(a), m(a, 2, 0), m(a, 2, 1), m(a, 2, 2), m(a, 2, 3), k, d);
    entry(m(r, 2, 0), m(r, 2, 1), m(r, 2, 2), m(r, 2, 3), adj20(a), adj21(a), adj22(a), adj23(a), m(a, 0, 3), m(a, 1, 3), m(a, 2, 3), m(a, 3, 3), k, 0real);
    entry(m(r, 0, 3), m(r, 1, 3), m(r, 2, 3), m(r, 3, 3), adj03(a), adj13(a), adj23(a), adj33(a), m(a, 2, 0), m(a, 2, 1), m(a, 2, 2), m(a, 2, 3), k, 0real);
    entry(m(r, 3, 0), m(r, 3, 1), m(r, 3, 2), m(r, 3, 3), adj30(a), adj31(a), adj32(a), adj33(a), m(a, 0, 0), m(a, 1, 0), m(a, 2, 0), m(a, 3, 0), k, 0real);
    entry(m(r, 0, 0), m(r, 1, 0), m(r, 2, 0), m(r, 3, 0), adj00(a), adj10(a), adj20(a), adj30(a), m(a, 3, 0), m(a, 3, 1), m(a, 3, 2), m(a, 3, 3), k, 0real);
    entry(m(r, 3, 0), m(r, 3, 1), m(r, 3, 2), m(r, 3, 3), adj30(a), adj31(a), adj32(a), adj33(a), m(a, 0, 1), m(a, 1, 1), m(a, 2, 1), m(a, 3, 1), k, 0real);
    entry(m(r, 0, 1), m(r, 1, 1), m(r, 2, 1), m(r, 3, 1), adj01(a), adj11(a), adj21(a), adj31(a), m(a, 3, 0), m(a, 3, 1), m(a, 3, 2), m(a, 3, 3), k, 0real);
    entry(m(r, 3, 0), m(r, 3, 1), m(r, 3, 2), m(r, 3, 3), adj30(a), adj31(a), adj32(a), adj33(a), m(a, 0, 2), m(a, 1, 2), m(a, 2, 2), m(a, 3, 2), k, 0real);
    entry(m(r, 0, 2), m(r, 1, 2), m(r, 2, 2), m(r, 3, 2), adj02(a), adj12(a), adj22(a), adj32(a), m(a, 3, 0), m(a, 3, 1), m(a, 3, 2), m(a, 3, 3), k, 0real);
    entry(m(r, 3, 0), m(r, 3, 1), m(r, 3, 2), m(r, 3, 3), adj30(a), adj31(a), adj32(a), adj33(a), m(a, 0, 3), m(a, 1, 3), m(a, 2, 3), m(a, 3, 3), k, d);
    entry(m(r, 0, 3), m(r, 1, 3), m(r, 2, 3), m(r, 3, 3), adj03(a), adj13(a), adj23(a), adj33(a), m(a, 3, 0), m(a, 3, 1), m(a, 3, 2), m(a, 3, 3), k, d);
}
impl AosMat4 {
#[verifier::external_body]
pub fn default() -> (r: AosMat4) ensures forall|i: int, j: int| m(r, i, j) == 0real { unimplemented!() }
//@fn src/math.rs AosMat4::new
//@ret r
//@spec
    ensures m(r, 0, 0) == n00.v(), m(r, 1, 0) == n01.v(), m(r, 2, 0) == n02.v(), m(r, 3, 0) == n03.v(),
        m(r, 0, 1) == n10.v(), m(r, 1, 1) == n11.v(), m(r, 2, 1) == n12.v(), m(r, 3, 1) == n13.v(),
        m(r, 0, 2) == n20.v(), m(r, 1, 2) == n21.v(), m(r, 2, 2) == n22.v(), m(r, 3, 2) == n23.v(),
        m(r, 0, 3) == n30.v(), m(r, 1, 3) == n31.v(), m(r, 2, 3) == n32.v(), m(r, 3, 3) == n33.v(),
//@end
//@fn src/math.rs AosMat4::new_translation
//@ret r
//@spec
    ensures m(r, 0, 0) == 1real, m(r, 1, 0) == 0real, m(r, 2, 0) == 0real, m(r, 3, 0) == 0real,
        m(r, 0, 1) == 0real, m(r, 1, 1) == 1real, m(r, 2, 1) == 0real, m(r, 3, 1) == 0real,
        m(r, 0, 2) == 0real, m(r, 1, 2) == 0real, m(r, 2, 2) == 1real, m(r, 3, 2) == 0real,
        m(r, 0, 3) == t.x.v(), m(r, 1, 3) == t.y.v(), m(r, 2, 3) == t.z.v(), m(r, 3, 3) == 1real,
//@end
//@fn src/math.rs AosMat4::new_scaling
//@ret r
//@spec
    ensures forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 && i != j ==> m(r, i, j) == 0real,
        m(r, 0, 0) == s.x.v(), m(r, 1, 1) == s.y.v(), m(r, 2, 2) == s.z.v(), m(r, 3, 3) == 1real,
//@end
//@fn src/math.rs AosMat4::identity
//@ret r
//@spec
    ensures is_identity(r)
//@end
//@fn src/math.rs AosMat4::mul
//@nonlinear
//@ret r
//@spec
    ensures is_product(r, *self, *other)
//@end
//@fn src/math.rs AosMat4::transform_point
//@nonlinear
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == p.l(0) * m(*self, i, 0) + p.l(1) * m(*self, i, 1) + p.l(2) * m(*self, i, 2) + m(*self, i, 3),
//@end
//@fn src/math.rs AosMat4::transform_vector
//@nonlinear
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == m(*self, i, 0) * p.l(0) + m(*self, i, 1) * p.l(1) + m(*self, i, 2) * p.l(2),
//@end
}

// The four matrices of sixteen columns (the layout of [[f32x4; 4]; 4]).
#[verifier::external_body]
pub fn four(a: [f32x4; 16]) -> (r: [AosMat4; 4])
    ensures forall|k: int, j: int| 0 <= k < 4 && 0 <= j < 4 ==> #[trigger] r@[k].cols@[j] == a@[4 * k + j]
{ unimplemented!() }

pub open spec fn rot(q: SoaQuat, i: int, r: int, c: int) -> real {
    let (x, y, z, w) = (q.x.l(i), q.y.l(i), q.z.l(i), q.w.l(i));
    if r == 0 { if c == 0 { 1real - 2real * (y * y + z * z) } else if c == 1 { 2real * (x * y - z * w) } else { 2real * (x * z + y * w) } }
    else if r == 1 { if c == 0 { 2real * (x * y + z * w) } else if c == 1 { 1real - 2real * (x * x + z * z) } else { 2real * (y * z - x * w) } }
    else { if c == 0 { 2real * (x * z - y * w) } else if c == 1 { 2real * (y * z + x * w) } else { 1real - 2real * (x * x + y * y) } }
}
// Translation * rotation * scale.
pub open spec fn affine(t: SoaVec3, q: SoaQuat, s: SoaVec3, i: int, r: int, c: int) -> real {
    if r == 3 { if c == 3 { 1real } else { 0real } }
    else if c == 3 { if r == 0 { t.x.l(i) } else if r == 1 { t.y.l(i) } else { t.z.l(i) } }
    else { (if c == 0 { s.x.l(i) } else if c == 1 { s.y.l(i) } else { s.z.l(i) }) * rot(q, i, r, c) }
}

impl SoaMat4 {
//@fn src/math.rs SoaMat4::from_affine
//@nonlinear
//@ret res
//@spec
    ensures forall|i: int, r: int, c: int| 0 <= i < 4 && 0 <= r < 4 && 0 <= c < 4 ==>
        #[trigger] soa(res, i, r, c) == affine(*translation, *rotation, *scale, i, r, c)
//@end
//@fn src/math.rs SoaMat4::to_aos
//@sub unsafe \{ mem::transmute\(aos\) \} ==> four(aos)
//@ret res
//@spec
    ensures forall|k: int, i: int, j: int| 0 <= k < 4 && 0 <= i < 4 && 0 <= j < 4 ==> m(#[trigger] res@[k], i, j) == #[trigger] soa(self, k, i, j)
//@end
}
pub open spec fn soa(a: SoaMat4, i: int, r: int, c: int) -> real { a.cols@[4 * c + r].l(i) }
}
