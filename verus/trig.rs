// C18: the approximated trigonometric functions, in single precision (every rounding counted).
#![allow(non_camel_case_types, non_snake_case, unused)]
use vstd::prelude::*;
//@include round.rs
verus! {
use sd::*;
broadcast use sd::ops;
//@round

// --- the exact functions: what is used of them (assumed mathematics)
pub uninterp spec fn rsin(a: real) -> real;
pub uninterp spec fn rcos(a: real) -> real;
pub uninterp spec fn rasin(a: real) -> real;
pub uninterp spec fn racos(a: real) -> real;
pub uninterp spec fn half_pi() -> real;
pub axiom fn half_pi_ax()
    ensures 15707963267948real / 10000000000000real < half_pi() < 15707963267949real / 10000000000000real,
        rsin(half_pi()) == 1real, rcos(half_pi()) == 0real, rsin(0real) == 0real, rcos(0real) == 1real;
pub axiom fn sum_ax(a: real, b: real) ensures rcos(a + b) == rcos(a) * rcos(b) - rsin(a) * rsin(b), rsin(a + b) == rsin(a) * rcos(b) + rcos(a) * rsin(b);
pub axiom fn neg_ax(a: real) ensures rcos(-a) == rcos(a), rsin(-a) == -rsin(a);
// |sin'| and |cos'| are at most 1
pub axiom fn slope_ax(a: real, b: real) ensures rabs(rsin(a) - rsin(b)) <= rabs(a - b), rabs(rcos(a) - rcos(b)) <= rabs(a - b);
// partial sums of the alternating series
pub open spec fn sin_lo(z: real) -> real { 1real - z / 6real + z * z / 120real - z * z * z / 5040real + z * z * z * z / 362880real - z * z * z * z * z / 39916800real }
pub open spec fn sin_hi(z: real) -> real { 1real - z / 6real + z * z / 120real - z * z * z / 5040real + z * z * z * z / 362880real }
pub open spec fn cos_lo(z: real) -> real { 1real - z / 2real + z * z / 24real - z * z * z / 720real + z * z * z * z / 40320real - z * z * z * z * z / 3628800real }
pub open spec fn cos_hi(z: real) -> real { cos_lo(z) + z * z * z * z * z * z / 479001600real }
pub axiom fn taylor_ax(x: real) requires 0real <= x <= 1real
    ensures x * sin_lo(x * x) <= rsin(x) <= x * sin_hi(x * x), cos_lo(x * x) <= rcos(x) <= cos_hi(x * x);
// partial sum of the series of the arc sine, whose later coefficients are smaller (so the rest is below 4/3 of the next term for z <= 1/4)
pub open spec fn asin_lo(z: real) -> real {
    1real + 1real / 6real * z + 3real / 40real * z * z + 5real / 112real * z * z * z + 35real / 1152real * z * z * z * z + 63real / 2816real * z * z * z * z * z
    + 231real / 13312real * z * z * z * z * z * z + 143real / 10240real * z * z * z * z * z * z * z + 6435real / 557056real * z * z * z * z * z * z * z * z
    + 12155real / 1245184real * z * z * z * z * z * z * z * z * z + 46189real / 5505024real * z * z * z * z * z * z * z * z * z * z }
pub open spec fn asin_hi(z: real) -> real { asin_lo(z) + 352716real / 36175872real * z * z * z * z * z * z * z * z * z * z * z }
pub axiom fn asin_ax(x: real) requires 0real <= x <= 1real / 2real ensures x * asin_lo(x * x) <= rasin(x) <= x * asin_hi(x * x);
pub axiom fn asin_neg(x: real) ensures rasin(-x) == -rasin(x);
pub axiom fn asin_half(a: real) requires 0real <= a <= 1real ensures rasin(a) == half_pi() - 2real * rasin(rsqrt((1real - a) / 2real));
pub axiom fn asin_range(a: real) requires -1real <= a <= 1real ensures -half_pi() <= rasin(a) <= half_pi();
pub axiom fn acos_ax(a: real) requires -1real <= a <= 1real ensures racos(a) == half_pi() - rasin(a);

// --- constants
//@const src/math.rs ZERO
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == 0real, forall|i: int| 0 <= i < 4 ==> #[trigger] r.ok(i)
//@end
//@const src/math.rs ONE
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == 1real, forall|i: int| 0 <= i < 4 ==> #[trigger] r.ok(i)
//@end
//@const src/math.rs FRAC_1_2
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == 1real / 2real, forall|i: int| 0 <= i < 4 ==> #[trigger] r.ok(i)
//@end
//@const src/math.rs FRAC_2_PI
//@sub core::f32::consts::FRAC_2_PI ==> 0.636619772367581343075535053490057448
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == 10680707real / 16777216real, forall|i: int| 0 <= i < 4 ==> #[trigger] r.ok(i)
//@end
//@const src/math.rs FRAC_PI_2
//@sub core::f32::consts::FRAC_PI_2 ==> 1.57079632679489661923132169163975144
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == 13176795real / 8388608real, forall|i: int| 0 <= i < 4 ==> #[trigger] r.ok(i)
//@end
//@const src/math.rs SIGN
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == bi(i32::MIN)
//@end

//@fn src/math.rs fx4_sign
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < 4 && v.ok(i) ==> #[trigger] r.l(i) == (if v.l(i) < 0real { bi(i32::MIN) } else { bi(0i32) })
//@begin
    proof { bi_ax(-1i32, i32::MIN); bi_ax(0i32, i32::MIN); bits(); }
//@end
//@fn src/math.rs fx4_xor
//@ret r
//@spec
    ensures
        forall|i: int| #![trigger r.l(i)] #![trigger r.ok(i)] s.l(i) == bi(0i32) ==> r.l(i) == v.l(i) && r.ok(i) == v.ok(i),
        forall|i: int| #![trigger r.l(i)] #![trigger r.ok(i)] s.l(i) == bi(i32::MIN) ==> r.l(i) == -v.l(i) && r.ok(i) == v.ok(i),
//@end
proof fn bits() ensures -1i32 & i32::MIN == i32::MIN, 0i32 & i32::MIN == 0i32
{
    assert(i32::MIN == -2147483648i32);
    assert(-1i32 & -2147483648i32 == -2147483648i32) by (bit_vector);
    assert(0i32 & -2147483648i32 == 0i32) by (bit_vector);
}

pub broadcast proof fn times_comm(a: real, b: real) ensures #[trigger] times(a, b) == times(b, a) { assert(a * b == b * a) by (nonlinear_arith); }
// --- rounding errors, operation by operation

pub open spec fn close(a: real, b: real, e: real) -> bool { -e <= a - b && a - b <= e }
// a (of size ma at most) stands for ae with error e; b is of size mb at most.
proof fn st_mul(a: real, ae: real, b: real, e: real, ma: real, mb: real, o: real)
    requires close(a, ae, e), close(a, 0real, ma), close(b, 0real, mb), 0real <= e, 0real <= ma <= 1000real, 0real <= mb <= 1000real,
        e * mb + (ma * mb) / 16777216real + eta() <= o
    ensures close(fl(a * b), ae * b, o), close(a * b, 0real, ma * mb), close(fl(a * b), 0real, ma * mb * 1000001real / 1000000real + eta())
{
    assert(close(a * b, 0real, ma * mb)) by { prod(a, b, ma, mb); }
    assert(close((a - ae) * b, 0real, e * mb)) by { prod(a - ae, b, e, mb); }
    assert((a - ae) * b == a * b - ae * b) by (nonlinear_arith);
    assert(ma * mb <= 1000000real) by (nonlinear_arith) requires 0real <= ma <= 1000real, 0real <= mb <= 1000real;
    fl_err(a * b);
}
proof fn prod(a: real, b: real, ma: real, mb: real)
    requires -ma <= a <= ma, -mb <= b <= mb
    ensures -(ma * mb) <= a * b <= ma * mb
{
    assert(a * b <= ma * mb) by (nonlinear_arith) requires -ma <= a <= ma, -mb <= b <= mb;
    assert(-(ma * mb) <= a * b) by (nonlinear_arith) requires -ma <= a <= ma, -mb <= b <= mb;
}
// c = a + b, where a stands for ae and b for be
proof fn st_add(a: real, ae: real, b: real, be: real, e: real, m: real, o: real)
    requires close(a + b, ae + be, e), close(a + b, 0real, m), 0real <= m <= 1000000real, e + m / 16777216real + eta() <= o
    ensures close(fl(a + b), ae + be, o), close(fl(a + b), 0real, m * 1000001real / 1000000real + eta())
{
    fl_err(a + b);
}

pub open spec fn s1() -> real { -(13410809real / 68719476736real) }
pub open spec fn s2() -> real { 4473295real / 536870912real }
pub open spec fn s3() -> real { 11184803real / 67108864real }
pub open spec fn c1() -> real { 6716135real / 274877906944real }
pub open spec fn c2() -> real { 5964557real / 4294967296real }
pub open spec fn c3() -> real { 11184805real / 268435456real }

// p(z) (without the factor x) and the series; p at another z
//@nra sin_poly z
given 0real <= z; given z <= 62real / 100real;
let p = ((-13410809real / 68719476736real * z + 4473295real / 536870912real) * z - 11184803real / 67108864real) * z + 1real;
let lo = 1real - z / 6real + z * z / 120real - z * z * z / 5040real + z * z * z * z / 362880real - z * z * z * z * z / 39916800real;
let hi = 1real - z / 6real + z * z / 120real - z * z * z / 5040real + z * z * z * z / 362880real;
p - lo <= 2real / 100000000real; hi - p <= 2real / 100000000real
//@end
//@nra sin_shift z w
given 0real <= z; given z <= 62real / 100real; given 0real <= w; given w <= 62real / 100real;
given z - w <= 4real / 100000000real; given w - z <= 4real / 100000000real;
let p = ((-13410809real / 68719476736real * z + 4473295real / 536870912real) * z - 11184803real / 67108864real) * z;
let q = ((-13410809real / 68719476736real * w + 4473295real / 536870912real) * w - 11184803real / 67108864real) * w;
p - q <= 7real / 1000000000real; q - p <= 7real / 1000000000real
//@end
//@nra cos_poly z
given 0real <= z; given z <= 62real / 100real;
let p = ((6716135real / 274877906944real * z - 5964557real / 4294967296real) * z + 11184805real / 268435456real) * z * z - 1real / 2real * z + 1real;
let lo = 1real - z / 2real + z * z / 24real - z * z * z / 720real + z * z * z * z / 40320real - z * z * z * z * z / 3628800real;
let hi = lo + z * z * z * z * z * z / 479001600real;
p - lo <= 2real / 100000000real; hi - p <= 2real / 100000000real
//@end
//@nra cos_shift z w
given 0real <= z; given z <= 62real / 100real; given 0real <= w; given w <= 62real / 100real;
given z - w <= 4real / 100000000real; given w - z <= 4real / 100000000real;
let p = ((6716135real / 274877906944real * z - 5964557real / 4294967296real) * z + 11184805real / 268435456real) * z * z - 1real / 2real * z;
let q = ((6716135real / 274877906944real * w - 5964557real / 4294967296real) * w + 11184805real / 268435456real) * w * w - 1real / 2real * w;
p - q <= 25real / 1000000000real; q - p <= 25real / 1000000000real
//@end

// The square of the reduced argument.
proof fn square(x: real) -> (z: real)
    requires close(x, 0real, 786real / 1000real)
    ensures z == fl(x * x), 0real <= x * x <= 6178real / 10000real, close(z, x * x, 38real / 1000000000real), 0real <= z <= 6179real / 10000real,
        close(x * x, 0real, big())
{
    assert(0real <= x * x <= 6178real / 10000real) by (nonlinear_arith) requires close(x, 0real, 786real / 1000real);
    fl_err(x * x);
    rep_7(0);
    fl_rep(0real);
    fl_mono(0real, x * x);
    fl(x * x)
}
pub open spec fn bounded(x: real) -> bool { close(x, 0real, big()) }
pub open spec fn sin_bounded(y: real, z: real) -> bool {
    let h1 = fl(times(s1(), z)); let h2 = fl(h1 + s2()); let h3 = fl(times(h2, z)); let h4 = fl(h3 - s3()); let h5 = fl(times(h4, z)); let h6 = fl(times(h5, y));
    bounded(times(s1(), z)) && bounded(h1 + s2()) && bounded(times(h2, z)) && bounded(h3 - s3()) && bounded(times(h4, z)) && bounded(times(h5, y)) && bounded(h6 + y)
}
pub open spec fn cos_bounded(z: real) -> bool {
    let h1 = fl(times(c1(), z)); let h2 = fl(h1 - c2()); let h3 = fl(times(h2, z)); let h4 = fl(h3 + c3()); let h5 = fl(times(h4, z)); let h6 = fl(times(h5, z));
    let g = fl(times(1real / 2real, z)); let h7 = fl(h6 - g);
    bounded(times(c1(), z)) && bounded(h1 - c2()) && bounded(times(h2, z)) && bounded(h3 + c3()) && bounded(times(h4, z)) && bounded(times(h5, z))
    && bounded(times(1real / 2real, z)) && bounded(h6 - g) && bounded(h7 + 1real)
}
pub open spec fn sin_fl(x: real, z: real) -> real { fl(times(fl(times(fl(fl(times(fl(fl(times(s1(), z)) + s2()), z)) - s3()), z)), x)) + x }
proof fn sin_err(x: real, z: real)
    requires close(x, 0real, 786real / 1000real), z == fl(x * x)
    ensures close(fl(sin_fl(x, z)), rsin(x), 12real / 100000000real), close(sin_fl(x, z), 0real, 1real), sin_bounded(x, z)
{
    square(x);
    let (h1, e1) = (fl(s1() * z), s1() * z);
    st_mul(s1(), s1(), z, 0real, 2real / 10000real, 62real / 100real, 1real / 10000000000real);
    let (h2, e2) = (fl(h1 + s2()), e1 + s2());
    st_add(h1, e1, s2(), s2(), 1real / 10000000000real, 9real / 1000real, 7real / 10000000000real);
    let (h3, e3) = (fl(h2 * z), e2 * z);
    st_mul(h2, e2, z, 7real / 10000000000real, 91real / 10000real, 62real / 100real, 1real / 1000000000real);
    let (h4, e4) = (fl(h3 - s3()), e3 - s3());
    st_add(h3, e3, -s3(), -s3(), 1real / 1000000000real, 173real / 1000real, 12real / 1000000000real);
    let (h5, e5) = (fl(h4 * z), e4 * z);
    st_mul(h4, e4, z, 12real / 1000000000real, 174real / 1000real, 62real / 100real, 14real / 1000000000real);
    let (h6, e6) = (fl(h5 * x), e5 * x);
    st_mul(h5, e5, x, 14real / 1000000000real, 108real / 1000real, 786real / 1000real, 17real / 1000000000real);
    st_add(h6, e6, x, x, 17real / 1000000000real, 88real / 100real, 70real / 1000000000real);
    let w = x * x;
    sin_shift(z, w);
    sin_poly(w);
    let (q, p) = (((s1() * w + s2()) * w - s3()) * w, (e4) * z);
    prod(p - q, x, 7real / 1000000000real, 1real);
    assert((p - q) * x == p * x - q * x) by (nonlinear_arith);
    // x * (q + 1) and the sine
    let a = rabs(x);
    assert(a * a == w) by (nonlinear_arith) requires a == x || a == -x, w == x * x;
    taylor_ax(a);
    neg_ax(x);
    let r = q + 1real;
    assert(a * (r - sin_lo(w)) == a * r - a * sin_lo(w)) by (nonlinear_arith);
    assert(a * (sin_hi(w) - r) == a * sin_hi(w) - a * r) by (nonlinear_arith);
    assert(a * (r - sin_lo(w)) <= 2real / 100000000real) by (nonlinear_arith) requires r - sin_lo(w) <= 2real / 100000000real, 0real <= a <= 1real;
    assert(a * (sin_hi(w) - r) <= 2real / 100000000real) by (nonlinear_arith) requires sin_hi(w) - r <= 2real / 100000000real, 0real <= a <= 1real;
    assert(x * r == q * x + x) by (nonlinear_arith) requires r == q + 1real;
    assert((-x) * r == -(x * r)) by (nonlinear_arith);
    assert(close(x * r, rsin(x), 2real / 100000000real));
}

pub open spec fn cos_fl(z: real) -> real { fl(fl(times(fl(times(fl(fl(times(fl(fl(times(c1(), z)) - c2()), z)) + c3()), z)), z)) - fl(times(1real / 2real, z))) + 1real }
proof fn cos_err(x: real, z: real)
    requires close(x, 0real, 786real / 1000real), z == fl(x * x)
    ensures close(fl(cos_fl(z)), rcos(x), 17real / 100000000real), close(cos_fl(z), 0real, 2real), cos_bounded(z)
{
    square(x);
    let (h1, e1) = (fl(c1() * z), c1() * z);
    st_mul(c1(), c1(), z, 0real, 3real / 100000real, 62real / 100real, 1real / 100000000000real);
    let (h2, e2) = (fl(h1 - c2()), e1 - c2());
    st_add(h1, e1, -c2(), -c2(), 1real / 100000000000real, 15real / 10000real, 12real / 100000000000real);
    let (h3, e3) = (fl(h2 * z), e2 * z);
    st_mul(h2, e2, z, 12real / 100000000000real, 16real / 10000real, 62real / 100real, 2real / 10000000000real);
    let (h4, e4) = (fl(h3 + c3()), e3 + c3());
    st_add(h3, e3, c3(), c3(), 2real / 10000000000real, 43real / 1000real, 3real / 1000000000real);
    let (h5, e5) = (fl(h4 * z), e4 * z);
    st_mul(h4, e4, z, 3real / 1000000000real, 44real / 1000real, 62real / 100real, 4real / 1000000000real);
    let (h6, e6) = (fl(h5 * z), e5 * z);
    st_mul(h5, e5, z, 4real / 1000000000real, 28real / 1000real, 62real / 100real, 4real / 1000000000real);
    let (g, f) = (fl(1real / 2real * z), 1real / 2real * z);
    st_mul(1real / 2real, 1real / 2real, z, 0real, 5real / 10real, 62real / 100real, 19real / 1000000000real);
    let (h7, e7) = (fl(h6 - g), e6 - f);
    st_add(h6, e6, -g, -f, 23real / 1000000000real, 33real / 100real, 43real / 1000000000real);
    st_add(h7, e7, 1real, 1real, 43real / 1000000000real, 134real / 100real, 123real / 1000000000real);
    let w = x * x;
    cos_shift(z, w);
    cos_poly(w);
    let a = rabs(x);
    assert(a * a == w) by (nonlinear_arith) requires a == x || a == -x, w == x * x;
    taylor_ax(a);
    neg_ax(x);
}

// --- the reduction to the nearest quarter turn

pub open spec fn n3() -> real { 10625385real / 140737488355328real }
pub open spec fn f2pi() -> real { 10680707real / 16777216real }
pub open spec fn quad_fl(x: real) -> real { fl(times(f2pi(), x)) + 1real / 2real }
pub open spec fn red1(x: real, q: real) -> real { x - fl(times(q, 201real / 128real)) }
pub open spec fn red2(x: real, q: real) -> real { fl(red1(x, q)) - fl(times(q, 2029real / 4194304real)) }
pub open spec fn red3(x: real, q: real) -> real { fl(red2(x, q)) - fl(times(q, n3())) }
proof fn reduce(x: real, q: int)
    requires 0real <= x <= 1000real, rep(x), q == rfloor(fl(quad_fl(x)))
    ensures 0 <= q <= 640, fl(quad_fl(x)) >= 0real,
        close(fl(red3(x, q as real)), 0real, 786real / 1000real),
        close(fl(red3(x, q as real)), x - (q as real) * half_pi(), 11real / 100000000real),
        close(f2pi() * x, 0real, big()), close(quad_fl(x), 0real, big()),
        close(q as real * (201real / 128real), 0real, big()), close(q as real * (2029real / 4194304real), 0real, big()), close(q as real * n3(), 0real, big()),
        close(red1(x, q as real), 0real, big()), close(red2(x, q as real), 0real, big()), close(red3(x, q as real), 0real, big()),
{
    let k = q as real;
    assert(f2pi() * x == x * 10680707real / 16777216real) by (nonlinear_arith);
    assert(k * n3() == k * 10625385real / 140737488355328real) by (nonlinear_arith);
    assert(k * (201real / 128real) == k * 201real / 128real) by (nonlinear_arith);
    assert(k * (2029real / 4194304real) == k * 2029real / 4194304real) by (nonlinear_arith);
    fl_err(f2pi() * x);
    rep_7(0);
    fl_rep(0real);
    fl_mono(0real, f2pi() * x);
    fl_mono(0real, quad_fl(x));
    fl_err(quad_fl(x));
    rfloor_ax(fl(quad_fl(x)));
    assert(0 <= q <= 640);
    rep_7(q * 201);
    assert((q * 201) as real / 128real == k * (201real / 128real));
    fl_rep(k * (201real / 128real));
    rep_22(q * 2029);
    assert((q * 2029) as real / 4194304real == k * (2029real / 4194304real));
    fl_rep(k * (2029real / 4194304real));
    if q == 0 { fl_rep(x); } else { rep_sub(x, k * (201real / 128real)); fl_rep(red1(x, k)); }
    assert(fl(red1(x, k)) == x - k * (201real / 128real));
    fl_err(red2(x, k));
    fl_err(k * n3());
    fl_err(red3(x, k));
    half_pi_ax();
    let p = half_pi();
    assert(close(k * p, k * (201real / 128real + 2029real / 4194304real + n3()), 2real / 10000000000real)) by (nonlinear_arith)
        requires 0real <= k <= 640real, close(p, 201real / 128real + 2029real / 4194304real + n3(), 2real / 10000000000000real);
    assert(k * (201real / 128real + 2029real / 4194304real + n3()) == k * (201real / 128real) + k * (2029real / 4194304real) + k * n3()) by (nonlinear_arith);
}

// The functions at a number of quarter turns.
proof fn turn(n: nat)
    ensures
        n % 4 == 0 ==> rsin((n as real) * half_pi()) == 0real && rcos((n as real) * half_pi()) == 1real,
        n % 4 == 1 ==> rsin((n as real) * half_pi()) == 1real && rcos((n as real) * half_pi()) == 0real,
        n % 4 == 2 ==> rsin((n as real) * half_pi()) == 0real && rcos((n as real) * half_pi()) == -1real,
        n % 4 == 3 ==> rsin((n as real) * half_pi()) == -1real && rcos((n as real) * half_pi()) == 0real,
    decreases n
{
    half_pi_ax();
    let h = half_pi();
    if n == 0 {
        assert(0real * h == 0real) by (nonlinear_arith);
    } else {
        let m = (n - 1) as nat;
        turn(m);
        assert((n as real) * h == (m as real) * h + h) by (nonlinear_arith) requires (n as real) == (m as real) + 1real;
        sum_ax((m as real) * h, h);
        let (s, c) = (rsin((m as real) * h), rcos((m as real) * h));
        assert(c * rcos(h) - s * rsin(h) == -s && s * rcos(h) + c * rsin(h) == c) by (nonlinear_arith) requires rcos(h) == 0real, rsin(h) == 1real;
    }
}
proof fn quadrant(q: int, x: real, y: real)
    requires 0 <= q, close(y, x - (q as real) * half_pi(), 11real / 100000000real)
    ensures
        q % 4 == 0 ==> close(rsin(x), rsin(y), 11real / 100000000real) && close(rcos(x), rcos(y), 11real / 100000000real),
        q % 4 == 1 ==> close(rsin(x), rcos(y), 11real / 100000000real) && close(rcos(x), -rsin(y), 11real / 100000000real),
        q % 4 == 2 ==> close(rsin(x), -rsin(y), 11real / 100000000real) && close(rcos(x), -rcos(y), 11real / 100000000real),
        q % 4 == 3 ==> close(rsin(x), -rcos(y), 11real / 100000000real) && close(rcos(x), rsin(y), 11real / 100000000real),
{
    turn(q as nat);
    let a = (q as real) * half_pi();
    let d = x - a;
    assert(a + d == x);
    sum_ax(a, d);
    slope_ax(y, d);
    let (s, c) = (rsin(d), rcos(d));
    zo(s);
    zo(c);
}
proof fn zo(a: real) ensures 0real * a == 0real, 1real * a == a, -1real * a == -a {}
// The two lowest bits of the quadrant.
proof fn quadrant_bits(q: int)
    requires 0 <= q <= 640
    ensures ({ let b1 = bshl(bi(q as i32), 31i32); let b2 = band(bshl(bi(q as i32), 30i32), bi(i32::MIN));
        &&& b1 == (if q % 2 == 1 { bi(i32::MIN) } else { bi(0i32) })
        &&& (b1 == bi(i32::MIN)) == (q % 2 == 1)
        &&& b2 == (if q % 4 >= 2 { bi(i32::MIN) } else { bi(0i32) }) })
{
    let a = q as i32;
    bshl_ax(a, 31i32);
    bshl_ax(a, 30i32);
    let w = a as u32;
    let (l, r) = ((w << 31u32) as i32, (w << 30u32) as i32);
    assert(i32::MIN == -2147483648i32);
    assert(l == (if w % 2 == 1 { -2147483648i32 } else { 0i32 })) by (bit_vector) requires l == (w << 31u32) as i32;
    assert(r & -2147483648i32 == (if w % 4 >= 2 { -2147483648i32 } else { 0i32 })) by (bit_vector) requires r == (w << 30u32) as i32;
    bi_ax(r, i32::MIN);
    bi_ax(0i32, i32::MIN);
}
proof fn signs()
    ensures bxor(bi(0i32), bi(0i32)) == bi(0i32), bxor(bi(0i32), bi(i32::MIN)) == bi(i32::MIN),
        bxor(bi(i32::MIN), bi(0i32)) == bi(i32::MIN), bxor(bi(i32::MIN), bi(i32::MIN)) == bi(0i32)
{
    assert(i32::MIN == -2147483648i32);
    bi_ax(0i32, 0i32); bi_ax(0i32, i32::MIN); bi_ax(i32::MIN, 0i32); bi_ax(i32::MIN, i32::MIN);
    assert(0i32 ^ 0i32 == 0i32 && 0i32 ^ -2147483648i32 == -2147483648i32 && -2147483648i32 ^ 0i32 == -2147483648i32
        && -2147483648i32 ^ -2147483648i32 == 0i32) by (bit_vector);
}

// A lane of fx4_sin_cos: no operation overflows, and the results before the signs are put are those of the reduced argument.
pub open spec fn sin_cos_lane(v: real) -> bool {
    let x = rabs(v);
    let q = rfloor(fl(quad_fl(x)));
    let k = q as real;
    let y = fl(red3(x, k));
    let z = fl(times(y, y));
    &&& 0 <= q <= 640 && fl(quad_fl(x)) >= 0real && rfloor(k) == q
    &&& bounded(times(f2pi(), x)) && bounded(quad_fl(x))
    &&& bounded(times(k, 201real / 128real)) && bounded(times(k, 2029real / 4194304real)) && bounded(times(k, n3()))
    &&& bounded(red1(x, k)) && bounded(red2(x, k)) && bounded(red3(x, k))
    &&& bounded(times(y, y))
    &&& sin_bounded(y, z) && cos_bounded(z)
    &&& { let s = fl(sin_fl(y, z)); let c = fl(cos_fl(z));
          let a = (if q % 2 == 1 { c } else { s }); let b = (if q % 2 == 1 { s } else { c });
          // the sign of the argument, and bit 1 of the quadrant
          let sa = (if (v < 0real) == (q % 4 >= 2) { a } else { -a }); let sb = (if (q % 2 == 1) == (q % 4 >= 2) { b } else { -b });
          close(sa, rsin(v), 3real / 10000000real) && close(sb, rcos(v), 3real / 10000000real) }
}
proof fn sin_cos_lemma(v: real)
    requires -1000real <= v <= 1000real, rep(rabs(v))
    ensures sin_cos_lane(v)
{
    let x = rabs(v);
    let q = rfloor(fl(quad_fl(x)));
    let k = q as real;
    reduce(x, q);
    rfloor_ax(k);
    let y = fl(red3(x, k));
    let z = fl(y * y);
    square(y);
    sin_err(y, z);
    cos_err(y, z);
    quadrant(q, x, y);
    neg_ax(v);
}

//@fn src/math.rs fx4_sin_cos
//@sub (\w+) \^= ([^;]*); ==> \1 = \1 ^ (\2);
//@ret r
//@spec
    requires forall|i: int| 0 <= i < 4 ==> #[trigger] v.ok(i) && -1000real <= v.l(i) <= 1000real
    ensures
        forall|i: int| 0 <= i < 4 ==> #[trigger] r.0.ok(i) && close(r.0.l(i), rsin(v.l(i)), 3real / 10000000real),
        forall|i: int| 0 <= i < 4 ==> #[trigger] r.1.ok(i) && close(r.1.l(i), rcos(v.l(i)), 3real / 10000000real),
//@begin
    hide(times);
    broadcast use times_comm;
    proof {
        signs();
        assert forall|i: int| #![trigger v.ok(i)] #![trigger v.l(i)] 0 <= i < 4 implies v.ok(i) && sin_cos_lane(v.l(i)) && bits_lane(v.l(i)) by {
            assert(v.ok(i));
            rep_abs(v.l(i));
            sin_cos_lemma(v.l(i));
            quadrant_bits(rfloor(fl(quad_fl(rabs(v.l(i))))));
        }
    }
//@end
proof fn rep_abs(a: real) requires rep(a) ensures rep(rabs(a)) { rep_neg(a); }
pub open spec fn bits_lane(v: real) -> bool {
    let q = rfloor(fl(quad_fl(rabs(v))));
    let b1 = bshl(bi(q as i32), 31i32);
    let b2 = band(bshl(bi(q as i32), 30i32), bi(i32::MIN));
    &&& b1 == (if q % 2 == 1 { bi(i32::MIN) } else { bi(0i32) })
    &&& (b1 == bi(i32::MIN)) == (q % 2 == 1)
    &&& b2 == (if q % 4 >= 2 { bi(i32::MIN) } else { bi(0i32) })
}

// --- arc sine

pub open spec fn a1() -> real { 5659049real / 134217728real }
pub open spec fn a2() -> real { 12982243real / 536870912real }
pub open spec fn a3() -> real { 12205767real / 268435456real }
pub open spec fn a4() -> real { 5030011real / 67108864real }
pub open spec fn a5() -> real { 2796217real / 16777216real }
//@nra asin_poly z
given 0real <= z; given z <= 1real / 4real;
let p = ((((5659049real / 134217728real * z + 12982243real / 536870912real) * z + 12205767real / 268435456real) * z + 5030011real / 67108864real) * z + 2796217real / 16777216real) * z + 1real;
let lo = 1real + 1real / 6real * z + 3real / 40real * z * z + 5real / 112real * z * z * z + 35real / 1152real * z * z * z * z + 63real / 2816real * z * z * z * z * z + 231real / 13312real * z * z * z * z * z * z + 143real / 10240real * z * z * z * z * z * z * z + 6435real / 557056real * z * z * z * z * z * z * z * z + 12155real / 1245184real * z * z * z * z * z * z * z * z * z + 46189real / 5505024real * z * z * z * z * z * z * z * z * z * z;
let hi = lo + 352716real / 36175872real * z * z * z * z * z * z * z * z * z * z * z;
p - lo <= 2real / 100000000real; hi - p <= 2real / 100000000real
//@end

pub open spec fn asin_inner(z: real) -> real { fl(times(fl(fl(times(fl(fl(times(fl(fl(times(fl(fl(times(a1(), z)) + a2()), z)) + a3()), z)) + a4()), z)) + a5()), z)) }
pub open spec fn asin_fl(z: real, x: real) -> real { fl(times(asin_inner(z), x)) + x }
pub open spec fn asin_bounded(z: real, x: real) -> bool {
    let h1 = fl(fl(times(a1(), z)) + a2()); let h2 = fl(fl(times(h1, z)) + a3()); let h3 = fl(fl(times(h2, z)) + a4()); let h4 = fl(fl(times(h3, z)) + a5());
    bounded(times(a1(), z)) && bounded(fl(times(a1(), z)) + a2()) && bounded(times(h1, z)) && bounded(fl(times(h1, z)) + a3())
    && bounded(times(h2, z)) && bounded(fl(times(h2, z)) + a4()) && bounded(times(h3, z)) && bounded(fl(times(h3, z)) + a5())
    && bounded(times(h4, z)) && bounded(times(fl(times(h4, z)), x)) && bounded(asin_fl(z, x))
}
proof fn asin_err(y: real, z: real, x: real)
    requires 0real <= y <= 1real / 2real, close(x, y, 3real / 100000000real), close(z, y * y, 15real / 1000000000real), 0real <= z
    ensures close(fl(asin_fl(z, x)), rasin(y), 9real / 100000000real), close(fl(asin_fl(z, x)), 0real, 54real / 100real), asin_bounded(z, x)
{
    let w = y * y;
    assert(0real <= w <= 1real / 4real) by (nonlinear_arith) requires 0real <= y <= 1real / 2real, w == y * y;
    let m = 2501real / 10000real;
    let (h1, e1) = (fl(a1() * z), a1() * z);
    st_mul(a1(), a1(), z, 0real, 43real / 1000real, m, 7real / 10000000000real);
    let (b1, f1) = (fl(h1 + a2()), e1 + a2());
    st_add(h1, e1, a2(), a2(), 7real / 10000000000real, 36real / 1000real, 3real / 1000000000real);
    let (h2, e2) = (fl(b1 * z), f1 * z);
    st_mul(b1, f1, z, 3real / 1000000000real, 37real / 1000real, m, 14real / 10000000000real);
    let (b2, f2) = (fl(h2 + a3()), e2 + a3());
    st_add(h2, e2, a3(), a3(), 14real / 10000000000real, 56real / 1000real, 5real / 1000000000real);
    let (h3, e3) = (fl(b2 * z), f2 * z);
    st_mul(b2, f2, z, 5real / 1000000000real, 57real / 1000real, m, 22real / 10000000000real);
    let (b3, f3) = (fl(h3 + a4()), e3 + a4());
    st_add(h3, e3, a4(), a4(), 22real / 10000000000real, 90real / 1000real, 8real / 1000000000real);
    let (h4, e4) = (fl(b3 * z), f3 * z);
    st_mul(b3, f3, z, 8real / 1000000000real, 91real / 1000real, m, 4real / 1000000000real);
    let (b4, f4) = (fl(h4 + a5()), e4 + a5());
    st_add(h4, e4, a5(), a5(), 4real / 1000000000real, 190real / 1000real, 16real / 1000000000real);
    let (h5, e5) = (fl(b4 * z), f4 * z);
    st_mul(b4, f4, z, 16real / 1000000000real, 191real / 1000real, m, 7real / 1000000000real);
    let (h6, e6) = (fl(h5 * x), e5 * x);
    st_mul(h5, e5, x, 7real / 1000000000real, 48real / 1000real, 501real / 1000real, 6real / 1000000000real);
    st_add(h6, e6, x, x, 6real / 1000000000real, 53real / 100real, 38real / 1000000000real);
    asin_move(z, w);
    asin_series(y);
    let (g, q) = (asin_p(z), asin_p(w));
    assert(e5 == g);
    // g * x + x against (q + 1) * y
    asin_last(x, y, g, q);
}
pub open spec fn asin_p(z: real) -> real { ((((a1() * z + a2()) * z + a3()) * z + a4()) * z + a5()) * z }
proof fn asin_move(z: real, w: real)
    requires 0real <= z <= 2501real / 10000real, 0real <= w <= 2501real / 10000real, close(z, w, 15real / 1000000000real)
    ensures close(asin_p(z), asin_p(w), 4real / 1000000000real)
{
    let (z1, w1) = (a1() * z + a2(), a1() * w + a2());
    let (z2, w2) = (z1 * z + a3(), w1 * w + a3());
    let (z3, w3) = (z2 * z + a4(), w2 * w + a4());
    let (z4, w4) = (z3 * z + a5(), w3 * w + a5());
    let d = 15real / 1000000000real;
    diff(a1(), a1(), z, w, 0real, 43real / 1000real, d);
    diff(z1, w1, z, w, 7real / 10000000000real, 36real / 1000real, d);
    diff(z2, w2, z, w, 8real / 10000000000real, 56real / 1000real, d);
    diff(z3, w3, z, w, 11real / 10000000000real, 90real / 1000real, d);
    diff(z4, w4, z, w, 18real / 10000000000real, 190real / 1000real, d);
}
proof fn diff(a: real, b: real, z: real, w: real, e: real, m: real, d: real)
    requires close(a, b, e), close(b, 0real, m), 0real <= z <= 2501real / 10000real, 0real <= w <= 2501real / 10000real, close(z, w, d), 0real <= e, 0real <= m, 0real <= d
    ensures close(a * z, b * w, e * (2501real / 10000real) + m * d), close(b * w, 0real, m * (2501real / 10000real))
{
    prod(a - b, z, e, 2501real / 10000real);
    prod(b, z - w, m, d);
    prod(b, w, m, 2501real / 10000real);
    assert(a * z - b * w == (a - b) * z + b * (z - w)) by (nonlinear_arith);
}
proof fn asin_fits(w: real)
    requires 0real <= w <= 1real / 4real
    ensures asin_p(w) + 1real - asin_lo(w) <= 2real / 100000000real, asin_hi(w) - (asin_p(w) + 1real) <= 2real / 100000000real
{ asin_poly(w); }
proof fn asin_last(x: real, y: real, g: real, q: real)
    requires 0real <= y <= 1real / 2real, close(x, y, 3real / 100000000real), close(g, q, 4real / 1000000000real), close(g, 0real, 48real / 1000real)
    ensures close(g * x + x, y * (q + 1real), 35real / 1000000000real)
{
    prod(g - q, y, 4real / 1000000000real, 1real / 2real);
    prod(g, x - y, 48real / 1000real, 3real / 100000000real);
    assert(g * x == q * y + (g - q) * y + g * (x - y)) by (nonlinear_arith);
    assert(y * (q + 1real) == q * y + y) by (nonlinear_arith);
}
proof fn asin_series(y: real)
    requires 0real <= y <= 1real / 2real
    ensures close(y * (asin_p(y * y) + 1real), rasin(y), 1real / 100000000real)
{
    hide(asin_lo); hide(asin_hi); hide(asin_p);
    let w = y * y;
    assert(0real <= w <= 1real / 4real) by (nonlinear_arith) requires 0real <= y <= 1real / 2real, w == y * y;
    asin_fits(w);
    asin_ax(y);
    let (r, lo, hi) = (asin_p(w) + 1real, asin_lo(w), asin_hi(w));
    assert(y * (r - lo) == y * r - y * lo) by (nonlinear_arith);
    assert(y * (hi - r) == y * hi - y * r) by (nonlinear_arith);
    assert(y * (r - lo) <= 1real / 100000000real) by (nonlinear_arith) requires r - lo <= 2real / 100000000real, 0real <= y <= 1real / 2real;
    assert(y * (hi - r) <= 1real / 100000000real) by (nonlinear_arith) requires hi - r <= 2real / 100000000real, 0real <= y <= 1real / 2real;
}

pub open spec fn clamped(v: real) -> real { if v < -1real { -1real } else if v > 1real { 1real } else { v } }
pub open spec fn f_pi_2() -> real { 13176795real / 8388608real }
pub open spec fn asin_lane(v: real) -> bool {
    let a = rmin(rabs(v), 1real);
    let d = fl(1real - a);
    let z2 = fl(times(1real / 2real, d));
    let big_arg = a > 1real / 2real;
    let (z, x) = if big_arg { (z2, fl(rsqrt(z2))) } else { (fl(times(a, a)), a) };
    let w = fl(asin_fl(z, x));
    &&& bounded(times(a, a)) && bounded(1real - a) && bounded(times(1real / 2real, d)) && z2 >= 0real
    &&& asin_bounded(z, x) && bounded(w + w) && bounded(f_pi_2() - fl(w + w))
    &&& { let o = if big_arg { fl(f_pi_2() - fl(w + w)) } else { w };
          close(if v < 0real { -o } else { o }, rasin(clamped(v)), 4real / 10000000real) }
}
proof fn asin_lemma(v: real)
    requires rep(rabs(v))
    ensures asin_lane(v)
{
    let a = rmin(rabs(v), 1real);
    let d = fl(1real - a);
    assert(0real <= a * a <= 1real) by (nonlinear_arith) requires 0real <= a <= 1real;
    rep_7(128);
    rep_7(0);
    fl_rep(0real);
    fl_rep(1real);
    fl_mono(0real, 1real - a);
    fl_mono(1real - a, 1real);
    fl_mono(0real, times(1real / 2real, d));
    let z2 = fl(times(1real / 2real, d));
    assert(rep(a));
    half_pi_ax();
    asin_neg(a);
    if a > 1real / 2real {
        rep_sub(1real, a);
        fl_rep(1real - a);
        if a < 1real { below_one(a); }
        rep_half(d);
        assert(times(1real / 2real, d) == d / 2real);
        fl_rep(d / 2real);
        rsqrt_ax(z2);
        let y = rsqrt(z2);
        assert(y <= 1real / 2real) by (nonlinear_arith) requires y >= 0real, y * y <= 1real / 4real;
        fl_err(y);
        let x = fl(y);
        asin_err(y, z2, x);
        asin_half(a);
        asin_range(a);
        let w = fl(asin_fl(z2, x));
        fl_err(w + w);
        fl_err(f_pi_2() - fl(w + w));
    } else {
        assert(a * a <= 1real / 4real) by (nonlinear_arith) requires 0real <= a <= 1real / 2real;
        let z = fl(a * a);
        fl_err(a * a);
        fl_mono(0real, a * a);
        asin_err(a, z, a);
        let w = fl(asin_fl(z, a));
        fl_err(w + w);
    }
}
//@fn src/math.rs fx4_asin
//@ret r
//@spec
    ensures forall|i: int| #![trigger r.l(i)] #![trigger r.ok(i)] 0 <= i < 4 && v.ok(i) ==> r.ok(i) && close(r.l(i), rasin(clamped(v.l(i))), 4real / 10000000real)
//@begin
    hide(times);
    broadcast use times_comm;
    proof {
        assert forall|i: int| #![trigger v.ok(i)] #![trigger v.l(i)] 0 <= i < 4 implies asin_lane(v.l(i)) by {
            rep_abs(v.l(i));
            asin_lemma(v.l(i));
        }
    }
//@end
//@fn src/math.rs fx4_acos
//@sub? core::f32::consts::FRAC_PI_2 ==> 1.57079632679489661923132169163975144
//@sub? const FRAC_PI_2: f32x4 = ([^;]*); ==> let quarter_turn: f32x4 = \1;
//@sub? (?s)(let quarter_turn.*?)\bFRAC_PI_2\b ==> \1quarter_turn
//@ret r
//@spec
    ensures forall|i: int| #![trigger r.l(i)] #![trigger r.ok(i)] 0 <= i < 4 && v.ok(i) ==> r.ok(i) && close(r.l(i), racos(clamped(v.l(i))), 65real / 100000000real)
//@begin
    proof {
        assert forall|i: int| #![trigger v.ok(i)] #![trigger v.l(i)] 0 <= i < 4 implies acos_lane(v.l(i)) by { acos_lemma(v.l(i)); }
    }
//@end
// What the subtraction from a quarter turn makes of the error of the arc sine.
pub open spec fn acos_lane(v: real) -> bool {
    forall|s: real| #[trigger] close(s, rasin(clamped(v)), 4real / 10000000real) ==> bounded(f_pi_2() - s) && close(fl(f_pi_2() - s), racos(clamped(v)), 65real / 100000000real)
}
proof fn acos_lemma(v: real)
    ensures acos_lane(v)
{
    let c = clamped(v);
    acos_ax(c);
    half_pi_ax();
    asin_range(c);
    assert forall|s: real| #[trigger] close(s, rasin(c), 4real / 10000000real) implies bounded(f_pi_2() - s) && close(fl(f_pi_2() - s), racos(c), 65real / 100000000real) by {
        fl_err(f_pi_2() - s);
    }
}

//@fn src/math.rs f32_sin_cos
//@sub ([\w)])\[0\] ==> \1.at(0)
//@ret r
//@spec
    requires x.ok() && -1000real <= x.v() <= 1000real
    ensures r.0.ok() && close(r.0.v(), rsin(x.v()), 3real / 10000000real), r.1.ok() && close(r.1.v(), rcos(x.v()), 3real / 10000000real)
//@end
//@fn src/math.rs f32_sin
//@sub ([\w)])\[0\] ==> \1.at(0)
//@ret r
//@spec
    requires x.ok() && -1000real <= x.v() <= 1000real
    ensures r.ok() && close(r.v(), rsin(x.v()), 3real / 10000000real)
//@end
//@fn src/math.rs f32_cos
//@sub ([\w)])\[0\] ==> \1.at(0)
//@ret r
//@spec
    requires x.ok() && -1000real <= x.v() <= 1000real
    ensures r.ok() && close(r.v(), rcos(x.v()), 3real / 10000000real)
//@end
//@fn src/math.rs f32_asin
//@sub ([\w)])\[0\] ==> \1.at(0)
//@ret r
//@spec
    requires x.ok()
    ensures r.ok() && close(r.v(), rasin(clamped(x.v())), 4real / 10000000real)
//@end
//@fn src/math.rs f32_acos
//@sub ([\w)])\[0\] ==> \1.at(0)
//@ret r
//@spec
    requires x.ok()
    ensures r.ok() && close(r.v(), racos(clamped(x.v())), 65real / 100000000real)
//@end
}
