// C16, C17: rotations made from vectors and angles, over the real numbers.
#![allow(non_camel_case_types, non_snake_case, unused)]
use vstd::prelude::*;
//@include simd.rs
verus! {
use sd::*;
broadcast use sd::ops;
//@use kernel
//@real

// Exact sine and cosine; the approximation error of fx4_sin_cos is the subject of C18.
pub uninterp spec fn rsin(a: real) -> real;
pub uninterp spec fn rcos(a: real) -> real;
pub axiom fn sin_cos_ax(a: real) ensures rsin(a) * rsin(a) + rcos(a) * rcos(a) == 1real;
#[verifier::external_body]
pub fn fx4_sin_cos(v: f32x4) -> (r: (f32x4, f32x4))
    ensures forall|i: int| #[trigger] r.0.l(i) == rsin(v.l(i)), forall|i: int| #[trigger] r.1.l(i) == rcos(v.l(i))
{ unimplemented!() }

//@fn src/math.rs quat_from_axis_angle
//@ret r
//@spec
    ensures r.l(0) == axis.l(0) * rsin(angle.l(0) * (1real / 2real)), r.l(1) == axis.l(1) * rsin(angle.l(0) * (1real / 2real)),
        r.l(2) == axis.l(2) * rsin(angle.l(0) * (1real / 2real)), r.l(3) == rcos(angle.l(0) * (1real / 2real)),
//@end

//@fn src/math.rs quat_from_cos_angle
//@ret r
//@spec
    ensures r.l(0) == axis.l(0) * rsqrt(1real - (1real + cos.l(0)) * (1real / 2real)),
        r.l(1) == axis.l(1) * rsqrt(1real - (1real + cos.l(0)) * (1real / 2real)),
        r.l(2) == axis.l(2) * rsqrt(1real - (1real + cos.l(0)) * (1real / 2real)),
        r.l(3) == rsqrt((1real + cos.l(0)) * (1real / 2real)),
//@end

//@fn src/math.rs quat_from_vectors
//@sub \b(\w+)\[(\d)\] ==> \1.at(\2)
//@ret r
//@spec
    ensures from_to(r, from, to)
//@end

pub open spec fn scaled(r: f32x4, x: real, y: real, z: real, w: real) -> bool {
    let k = 1real / rsqrt(x * x + y * y + z * z + w * w);
    r.l(0) == x * k && r.l(1) == y * k && r.l(2) == z * k && r.l(3) == w * k
}
// The shortest rotation from the direction of f to the direction of t.
pub open spec fn from_to(r: f32x4, f: f32x4, t: f32x4) -> bool {
    let n = rsqrt(dot3(f, f) * dot3(t, t));
    let re = n + dot3(f, t);
    if n < 1real / 1000000real {
        r.l(0) == 0real && r.l(1) == 0real && r.l(2) == 0real && r.l(3) == 1real
    } else if re < (1real / 1000000real) * n {
        // opposite directions: half a turn about an axis perpendicular to f
        scaled(r, -f.l(1), f.l(0), 0real, 0real) && rabs(f.l(0)) > rabs(f.l(2))
            || scaled(r, 0real, -f.l(2), f.l(1), 0real) && rabs(f.l(0)) <= rabs(f.l(2))
    } else {
        scaled(r, f.l(1) * t.l(2) - f.l(2) * t.l(1), f.l(2) * t.l(0) - f.l(0) * t.l(2), f.l(0) * t.l(1) - f.l(1) * t.l(0), re)
    }
}

// --- what these rotations do

pub proof fn scaled_is_unit(r: f32x4, x: real, y: real, z: real, w: real)
    requires scaled(r, x, y, z, w), x * x + y * y + z * z + w * w > 0real
    ensures dot4(r, r) == 1real
{
    let s = x * x + y * y + z * z + w * w;
    let q = rsqrt(s);
    let k = 1real / q;
    rsqrt_ax(s);
    assert(q != 0real) by (nonlinear_arith) requires q * q == s, s > 0real;
    assert(k * q == 1real) by (nonlinear_arith) requires k == 1real / q, q != 0real;
    assert(k * k * s == 1real) by (nonlinear_arith) requires k * q == 1real, q * q == s;
    sum_scaled(x, y, z, w, k);
    assert(dot4(r, r) == (x * k) * (x * k) + (y * k) * (y * k) + (z * k) * (z * k) + (w * k) * (w * k));
}
//@ring sum_scaled x y z w k
    (x * k) * (x * k) + (y * k) * (y * k) + (z * k) * (z * k) + (w * k) * (w * k) == k * k * (x * x + y * y + z * z + w * w);
//@end
// With u = f x t and w = n + f.t, s = |u|^2 + w^2: the sandwich u f u*.
//@ring turn a b c x y z n
    let d = a * x + b * y + c * z; let w = n + d;
    let p = b * z - c * y; let q = c * x - a * z; let r = a * y - b * x;
    let ty = w * b + (r * a - p * c); let tz = w * c + (p * b - q * a);
    let s = p * p + q * q + r * r + w * w;
    let ff = a * a + b * b + c * c;
    let e = n * n - ff * (x * x + y * y + z * z);
    s == 2real * n * w - e;
    a * s + 2real * (q * tz - r * ty) == 2real * w * ff * x + a * e;
//@end
//@ring pull k q r p a b c w
    let tz = w * c + (p * b - q * a); let ty = w * b + (r * a - p * c);
    (q * k) * ((w * k) * c + ((p * k) * b - (q * k) * a)) - (r * k) * ((w * k) * b + ((r * k) * a - (p * k) * c)) == (k * k) * (q * tz - r * ty);
//@end
//@ring scaled_dot x y z k a b c
    (x * k) * a + (y * k) * b + (z * k) * c == k * (x * a + y * b + z * c);
//@end
//@ring half a b c p q o
    a + 2real * (q * (p * b - q * a) - o * (o * a - p * c)) == -a + 2real * (p * (p * a + q * b + o * c)) - 2real * (a * (p * p + q * q + o * o - 1real));
//@end
proof fn times_zero(a: real, b: real) requires b == 0real ensures a * b == 0real, b * a == 0real
{ assert(a * b == 0real) by (nonlinear_arith) requires b == 0real; }
// One component of the rotated vector, from the unnormalised one.
proof fn turned(v: real, a: real, e: real, k: real, s: real, n: real, w: real, ff: real, x: real)
    requires v == a + 2real * (k * k) * e, k * k * s == 1real, s == 2real * n * w, w > 0real,
        a * s + 2real * e == 2real * w * ff * x
    ensures v * n == ff * x
{
    assert(v * s == a * s + 2real * e) by (nonlinear_arith) requires v == a + 2real * (k * k) * e, k * k * s == 1real;
    assert(v * (2real * n * w) == 2real * w * ff * x);
    assert(v * n == ff * x) by (nonlinear_arith) requires v * (2real * n * w) == 2real * w * ff * x, w > 0real;
}
// The rotation from f to t is a unit quaternion, and it turns f into the direction of t; the opposite one when they are
// (almost) opposite, where it is half a turn about an axis perpendicular to f.
pub proof fn from_to_turns(r: f32x4, f: f32x4, t: f32x4, v: f32x4)
    requires from_to(r, f, t), rotated(v, r, f)
    ensures ({
        let n = rsqrt(dot3(f, f) * dot3(t, t));
        let re = n + dot3(f, t);
        &&& dot4(r, r) == 1real
        &&& n < 1real / 1000000real ==> v.l(0) == f.l(0) && v.l(1) == f.l(1) && v.l(2) == f.l(2)
        &&& n >= 1real / 1000000real && re < (1real / 1000000real) * n ==> v.l(0) == -f.l(0) && v.l(1) == -f.l(1) && v.l(2) == -f.l(2)
        &&& n >= 1real / 1000000real && re >= (1real / 1000000real) * n ==>
            v.l(0) * n == dot3(f, f) * t.l(0) && v.l(1) * n == dot3(f, f) * t.l(1) && v.l(2) * n == dot3(f, f) * t.l(2)
    })
{
    let (a, b, c) = (f.l(0), f.l(1), f.l(2));
    let (x, y, z) = (t.l(0), t.l(1), t.l(2));
    let ff = dot3(f, f);
    let tt = dot3(t, t);
    let d = dot3(f, t);
    assert(ff >= 0real) by (nonlinear_arith) requires ff == a * a + b * b + c * c;
    assert(tt >= 0real) by (nonlinear_arith) requires tt == x * x + y * y + z * z;
    assert(ff * tt >= 0real) by (nonlinear_arith) requires ff >= 0real, tt >= 0real;
    let n = rsqrt(ff * tt);
    rsqrt_ax(ff * tt);
    let re = n + d;
    if n < 1real / 1000000real {
        let (p, q, o, w) = (r.l(0), r.l(1), r.l(2), r.l(3));
        assert(p * p == 0real && q * q == 0real && o * o == 0real && w * w == 1real) by (nonlinear_arith)
            requires p == 0real, q == 0real, o == 0real, w == 1real;
        assert(v.l(0) == a) by (nonlinear_arith) requires q == 0real, o == 0real, v.l(0) == a + 2real * (q * (w * c + (p * b - q * a)) - o * (w * b + (o * a - p * c)));
        assert(v.l(1) == b) by (nonlinear_arith) requires p == 0real, o == 0real, v.l(1) == b + 2real * (o * (w * a + (q * c - o * b)) - p * (w * c + (p * b - q * a)));
        assert(v.l(2) == c) by (nonlinear_arith) requires p == 0real, q == 0real, v.l(2) == c + 2real * (p * (w * b + (o * a - p * c)) - q * (w * a + (q * c - o * b)));
    } else if re < (1real / 1000000real) * n {
        if rabs(a) > rabs(c) && scaled(r, -b, a, 0real, 0real) {
            assert(b * b + a * a > 0real) by (nonlinear_arith) requires rabs(a) > rabs(c);
            assert((-b) * (-b) == b * b) by (nonlinear_arith);
            assert(0real * 0real == 0real) by (nonlinear_arith);
            assert((-b) * a + a * b + 0real * c == 0real) by (nonlinear_arith);
            half_turn(r, f, v, -b, a, 0real);
        } else {
            assert(b * b + c * c > 0real) by (nonlinear_arith)
                requires n * n == ff * tt, n >= 1real / 1000000real, ff == a * a + b * b + c * c, rabs(a) <= rabs(c);
            assert((-c) * (-c) == c * c) by (nonlinear_arith);
            assert(0real * 0real == 0real) by (nonlinear_arith);
            assert(0real * a + (-c) * b + b * c == 0real) by (nonlinear_arith);
            half_turn(r, f, v, 0real, -c, b);
        }
    } else {
        let w = re;
        assert(w > 0real) by (nonlinear_arith) requires w >= (1real / 1000000real) * n, n >= 1real / 1000000real;
        let (p, q, o) = (b * z - c * y, c * x - a * z, a * y - b * x);
        let s = p * p + q * q + o * o + w * w;
        turn(a, b, c, x, y, z, n);
        assert(n * n == ff * tt);
        assert(s == 2real * n * w);
        assert(s > 0real) by (nonlinear_arith) requires s == 2real * n * w, n > 0real, w > 0real;
        scaled_is_unit(r, p, q, o, w);
        let h = rsqrt(s);
        rsqrt_ax(s);
        let k = 1real / h;
        assert(h != 0real) by (nonlinear_arith) requires h * h == s, s > 0real;
        assert(k * h == 1real) by (nonlinear_arith) requires k == 1real / h, h != 0real;
        assert(k * k * s == 1real) by (nonlinear_arith) requires k * h == 1real, h * h == s;
        component(a, b, c, x, y, z, n, k, v.l(0));
        component(b, c, a, y, z, x, n, k, v.l(1));
        component(c, a, b, z, x, y, n, k, v.l(2));
    }
}
proof fn component(a: real, b: real, c: real, x: real, y: real, z: real, n: real, k: real, v: real)
    requires ({
        let w = n + (a * x + b * y + c * z);
        let (p, q, o) = (b * z - c * y, c * x - a * z, a * y - b * x);
        &&& n * n == (a * a + b * b + c * c) * (x * x + y * y + z * z)
        &&& w > 0real
        &&& k * k * (p * p + q * q + o * o + w * w) == 1real
        &&& v == a + 2real * ((q * k) * ((w * k) * c + ((p * k) * b - (q * k) * a)) - (o * k) * ((w * k) * b + ((o * k) * a - (p * k) * c)))
    })
    ensures v * n == (a * a + b * b + c * c) * x
{
    let w = n + (a * x + b * y + c * z);
    let (p, q, o) = (b * z - c * y, c * x - a * z, a * y - b * x);
    let ff = a * a + b * b + c * c;
    let e = n * n - ff * (x * x + y * y + z * z);
    turn(a, b, c, x, y, z, n);
    times_zero(a, e);
    let s = p * p + q * q + o * o + w * w;
    let (ty, tz) = (w * b + (o * a - p * c), w * c + (p * b - q * a));
    pull(k, q, o, p, a, b, c, w);
    let m = q * tz - o * ty;
    assert(v == a + 2real * ((k * k) * m));
    assert(2real * ((k * k) * m) == 2real * (k * k) * m) by (nonlinear_arith);
    assert(s == 2real * n * w);
    assert(a * s + 2real * m == 2real * w * ff * x);
    turned(v, a, m, k, s, n, w, ff, x);
}
proof fn half_turn(r: f32x4, f: f32x4, v: f32x4, x: real, y: real, z: real)
    requires scaled(r, x, y, z, 0real), x * x + y * y + z * z > 0real, x * f.l(0) + y * f.l(1) + z * f.l(2) == 0real, rotated(v, r, f)
    ensures dot4(r, r) == 1real, v.l(0) == -f.l(0), v.l(1) == -f.l(1), v.l(2) == -f.l(2)
{
    let (a, b, c) = (f.l(0), f.l(1), f.l(2));
    assert(x * x + y * y + z * z + 0real * 0real > 0real) by (nonlinear_arith) requires x * x + y * y + z * z > 0real;
    scaled_is_unit(r, x, y, z, 0real);
    let (p, q, o, w) = (r.l(0), r.l(1), r.l(2), r.l(3));
    let k = 1real / rsqrt(x * x + y * y + z * z + 0real * 0real);
    assert(w == 0real) by (nonlinear_arith) requires w == 0real * k;
    scaled_dot(x, y, z, k, a, b, c);
    times_zero(k, x * a + y * b + z * c);
    assert(p * a + q * b + o * c == 0real);
    times_zero(w, w);
    assert(p * p + q * q + o * o == 1real);
    opposite(a, b, c, p, q, o, w, v.l(0));
    opposite(b, c, a, q, o, p, w, v.l(1));
    opposite(c, a, b, o, p, q, w, v.l(2));
}
proof fn opposite(a: real, b: real, c: real, p: real, q: real, o: real, w: real, v: real)
    requires w == 0real, p * a + q * b + o * c == 0real, p * p + q * q + o * o == 1real,
        v == a + 2real * (q * (w * c + (p * b - q * a)) - o * (w * b + (o * a - p * c)))
    ensures v == -a
{
    half(a, b, c, p, q, o);
    times_zero(b, w); times_zero(c, w);
    times_zero(p, p * a + q * b + o * c);
    times_zero(a, p * p + q * q + o * o - 1real);
    assert(v == a + 2real * (q * (p * b - q * a) - o * (o * a - p * c)));
}
}
