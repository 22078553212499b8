// Rotations by quaternions, over the real numbers (lemmas used by the IK jobs).
#![allow(non_camel_case_types, non_snake_case, unused)]
use vstd::prelude::*;
//@include simd.rs
verus! {
use sd::*;
broadcast use sd::ops;
//@use kernel
//@use quats
//@real
pub struct W { pub x: real, pub y: real, pub z: real }
pub struct Q { pub x: real, pub y: real, pub z: real, pub w: real }
pub open spec fn w3(v: f32x4) -> W { W { x: v.l(0), y: v.l(1), z: v.l(2) } }
pub open spec fn q4(v: f32x4) -> Q { Q { x: v.l(0), y: v.l(1), z: v.l(2), w: v.l(3) } }
pub open spec fn dt(a: W, b: W) -> real { a.x * b.x + a.y * b.y + a.z * b.z }
pub open spec fn cr(a: W, b: W) -> W { W { x: a.y * b.z - a.z * b.y, y: a.z * b.x - a.x * b.z, z: a.x * b.y - a.y * b.x } }
pub open spec fn by(k: real, a: W) -> W { W { x: k * a.x, y: k * a.y, z: k * a.z } }
pub open spec fn plus(a: W, b: W) -> W { W { x: a.x + b.x, y: a.y + b.y, z: a.z + b.z } }
pub open spec fn nul(a: W) -> bool { a.x == 0real && a.y == 0real && a.z == 0real }
pub open spec fn qq(q: Q) -> real { q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w }
pub open spec fn axis(q: Q) -> W { W { x: q.x, y: q.y, z: q.z } }
pub open spec fn unit() -> Q { Q { x: 0real, y: 0real, z: 0real, w: 1real } }
pub open spec fn opp(q: Q) -> Q { Q { x: -q.x, y: -q.y, z: -q.z, w: -q.w } }
// Hamilton's product.
pub open spec fn mq(a: Q, b: Q) -> Q {
    Q { x: a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, y: a.w * b.y + a.y * b.w + a.z * b.x - a.x * b.z,
        z: a.w * b.z + a.z * b.w + a.x * b.y - a.y * b.x, w: a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z }
}
// q v q*, for a unit quaternion q.
pub open spec fn rt(q: Q, v: W) -> W {
    W { x: v.x + 2real * (q.y * (q.w * v.z + (q.x * v.y - q.y * v.x)) - q.z * (q.w * v.y + (q.z * v.x - q.x * v.z))),
        y: v.y + 2real * (q.z * (q.w * v.x + (q.y * v.z - q.z * v.y)) - q.x * (q.w * v.z + (q.x * v.y - q.y * v.x))),
        z: v.z + 2real * (q.x * (q.w * v.y + (q.z * v.x - q.x * v.z)) - q.y * (q.w * v.x + (q.y * v.z - q.z * v.y))) }
}

pub proof fn zero1(a: real, b: real) requires a == 0real ensures a * b == 0real, b * a == 0real
{ assert(a * b == 0real) by (nonlinear_arith) requires a == 0real; }

//@ring compose_x ax ay az aw bx by bz bw x y z
    let cx = aw * bx + ax * bw + ay * bz - az * by; let cy = aw * by + ay * bw + az * bx - ax * bz;
    let cz = aw * bz + az * bw + ax * by - ay * bx; let cw = aw * bw - ax * bx - ay * by - az * bz;
    let na = ax * ax + ay * ay + az * az + aw * aw - 1real; let nb = bx * bx + by * by + bz * bz + bw * bw - 1real;
    let ux = x + 2real * (by * (bw * z + (bx * y - by * x)) - bz * (bw * y + (bz * x - bx * z)));
    let uy = y + 2real * (bz * (bw * x + (by * z - bz * y)) - bx * (bw * z + (bx * y - by * x)));
    let uz = z + 2real * (bx * (bw * y + (bz * x - bx * z)) - by * (bw * x + (by * z - bz * y)));
    let vx = x + 2real * (ay * (aw * z + (ax * y - ay * x)) - az * (aw * y + (az * x - ax * z)));
    let lx = ux + 2real * (ay * (aw * uz + (ax * uy - ay * ux)) - az * (aw * uy + (az * ux - ax * uz)));
    let rx = x + 2real * (cy * (cw * z + (cx * y - cy * x)) - cz * (cw * y + (cz * x - cx * z)));
    lx == rx + na * (x - ux) + nb * (x - vx);
//@end
//@ring norms ax ay az aw bx by bz bw
    let cx = aw * bx + ax * bw + ay * bz - az * by; let cy = aw * by + ay * bw + az * bx - ax * bz;
    let cz = aw * bz + az * bw + ax * by - ay * bx; let cw = aw * bw - ax * bx - ay * by - az * bz;
    cx * cx + cy * cy + cz * cz + cw * cw == (ax * ax + ay * ay + az * az + aw * aw) * (bx * bx + by * by + bz * bz + bw * bw);
//@end
//@ring cross_x qx qy qz qw ax ay az bx by bz
    let n = qx * qx + qy * qy + qz * qz + qw * qw - 1real;
    let rax = ax + 2real * (qy * (qw * az + (qx * ay - qy * ax)) - qz * (qw * ay + (qz * ax - qx * az)));
    let ray = ay + 2real * (qz * (qw * ax + (qy * az - qz * ay)) - qx * (qw * az + (qx * ay - qy * ax)));
    let raz = az + 2real * (qx * (qw * ay + (qz * ax - qx * az)) - qy * (qw * ax + (qy * az - qz * ay)));
    let rbx = bx + 2real * (qy * (qw * bz + (qx * by - qy * bx)) - qz * (qw * by + (qz * bx - qx * bz)));
    let rby = by + 2real * (qz * (qw * bx + (qy * bz - qz * by)) - qx * (qw * bz + (qx * by - qy * bx)));
    let rbz = bz + 2real * (qx * (qw * by + (qz * bx - qx * bz)) - qy * (qw * bx + (qy * bz - qz * by)));
    let cx = ay * bz - az * by; let cy = az * bx - ax * bz; let cz = ax * by - ay * bx;
    let rcx = cx + 2real * (qy * (qw * cz + (qx * cy - qy * cx)) - qz * (qw * cy + (qz * cx - qx * cz)));
    ray * rbz - raz * rby == rcx + n * (rcx + cx - (ray * bz - raz * by) - (ay * rbz - az * rby));
//@end
//@ring keep_x qy qz qw qx x y z
    x + 2real * (qy * (qw * z + (qx * y - qy * x)) - qz * (qw * y + (qz * x - qx * z))) == x + 2real * (qw * (qy * z - qz * y) + qy * (qx * y - qy * x) - qz * (qz * x - qx * z));
//@end
// (kT, w) turns J: J - 2 k^2 (TT J - (T.J) T) + 2 w k TxJ
//@ring about_x k w tx ty tz x y z
    let qx = k * tx; let qy = k * ty; let qz = k * tz;
    x + 2real * (qy * (w * z + (qx * y - qy * x)) - qz * (w * y + (qz * x - qx * z))) == (1real - 2real * (k * k * (tx * tx + ty * ty + tz * tz))) * x + 2real * (w * k) * (ty * z - tz * y) + 2real * (k * k) * (tx * x + ty * y + tz * z) * tx;
//@end
pub proof fn unit_product(a: Q, b: Q)
    requires qq(a) == 1real, qq(b) == 1real
    ensures qq(mq(a, b)) == 1real
{
    norms(a.x, a.y, a.z, a.w, b.x, b.y, b.z, b.w);
    assert(qq(a) * qq(b) == 1real) by (nonlinear_arith) requires qq(a) == 1real, qq(b) == 1real;
}
pub proof fn composed(a: Q, b: Q, v: W)
    requires qq(a) == 1real, qq(b) == 1real
    ensures rt(mq(a, b), v) == rt(a, rt(b, v))
{
    compose_x(a.x, a.y, a.z, a.w, b.x, b.y, b.z, b.w, v.x, v.y, v.z);
    compose_x(a.y, a.z, a.x, a.w, b.y, b.z, b.x, b.w, v.y, v.z, v.x);
    compose_x(a.z, a.x, a.y, a.w, b.z, b.x, b.y, b.w, v.z, v.x, v.y);
    let u = rt(b, v);
    let t = rt(a, v);
    zero1(a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w - 1real, v.x - u.x);
    zero1(a.y * a.y + a.z * a.z + a.x * a.x + a.w * a.w - 1real, v.y - u.y);
    zero1(a.z * a.z + a.x * a.x + a.y * a.y + a.w * a.w - 1real, v.z - u.z);
    zero1(b.x * b.x + b.y * b.y + b.z * b.z + b.w * b.w - 1real, v.x - t.x);
    zero1(b.y * b.y + b.z * b.z + b.x * b.x + b.w * b.w - 1real, v.y - t.y);
    zero1(b.z * b.z + b.x * b.x + b.y * b.y + b.w * b.w - 1real, v.z - t.z);
}
pub proof fn crossed(q: Q, a: W, b: W)
    requires qq(q) == 1real
    ensures cr(rt(q, a), rt(q, b)) == rt(q, cr(a, b))
{
    cross_x(q.x, q.y, q.z, q.w, a.x, a.y, a.z, b.x, b.y, b.z);
    cross_x(q.y, q.z, q.x, q.w, a.y, a.z, a.x, b.y, b.z, b.x);
    cross_x(q.z, q.x, q.y, q.w, a.z, a.x, a.y, b.z, b.x, b.y);
    let c = cr(a, b);
    let rc = rt(q, c);
    let (ra, rb) = (rt(q, a), rt(q, b));
    zero1(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w - 1real, rc.x + c.x - (ra.y * b.z - ra.z * b.y) - (a.y * rb.z - a.z * rb.y));
    zero1(q.y * q.y + q.z * q.z + q.x * q.x + q.w * q.w - 1real, rc.y + c.y - (ra.z * b.x - ra.x * b.z) - (a.z * rb.x - a.x * rb.z));
    zero1(q.z * q.z + q.x * q.x + q.y * q.y + q.w * q.w - 1real, rc.z + c.z - (ra.x * b.y - ra.y * b.x) - (a.x * rb.y - a.y * rb.x));
}
pub proof fn kept(q: Q, v: W)
    requires nul(cr(axis(q), v))
    ensures rt(q, v) == v
{
    let c = cr(axis(q), v);
    keep_x(q.y, q.z, q.w, q.x, v.x, v.y, v.z);
    keep_x(q.z, q.x, q.w, q.y, v.y, v.z, v.x);
    keep_x(q.x, q.y, q.w, q.z, v.z, v.x, v.y);
    zero1(c.x, q.w); zero1(c.y, q.w); zero1(c.z, q.w);
    zero1(c.x, q.y); zero1(c.x, q.z); zero1(c.y, q.x); zero1(c.y, q.z); zero1(c.z, q.x); zero1(c.z, q.y);
}
pub proof fn still(v: W) ensures rt(unit(), v) == v { assert(nul(cr(axis(unit()), v))) by { zero1(0real, v.x); zero1(0real, v.y); zero1(0real, v.z); } kept(unit(), v); }
pub proof fn both_signs(q: Q, v: W) ensures rt(opp(q), v) == rt(q, v), qq(opp(q)) == qq(q) {
    sign_x(q.x, q.y, q.z, q.w, v.x, v.y, v.z);
    sign_x(q.y, q.z, q.x, q.w, v.y, v.z, v.x);
    sign_x(q.z, q.x, q.y, q.w, v.z, v.x, v.y);
}
//@ring sign_x qx qy qz qw x y z
    x + 2real * ((-qy) * ((-qw) * z + ((-qx) * y - (-qy) * x)) - (-qz) * ((-qw) * y + ((-qz) * x - (-qx) * z))) == x + 2real * (qy * (qw * z + (qx * y - qy * x)) - qz * (qw * y + (qz * x - qx * z)));
    (-qx) * (-qx) + (-qy) * (-qy) + (-qz) * (-qz) + (-qw) * (-qw) == qx * qx + qy * qy + qz * qz + qw * qw;
//@end
// The contracts of the kernel, in the words of this proof.
pub broadcast proof fn of_hamilton(c: f32x4, a: f32x4, b: f32x4) requires #[trigger] hamilton(c, a, b) ensures q4(c) == mq(q4(a), q4(b)) { }
pub broadcast proof fn of_rotated(r: f32x4, q: f32x4, v: f32x4) requires #[trigger] rotated(r, q, v) ensures w3(r) == rt(q4(q), w3(v)) { }
pub broadcast proof fn of_cross(c: f32x4, a: f32x4, b: f32x4) requires #[trigger] cross3(c, a, b) ensures w3(c) == cr(w3(a), w3(b)) { }
pub broadcast proof fn of_dot(a: f32x4, b: f32x4) ensures (#[trigger] dot3(a, b)) == dt(w3(a), w3(b)) { }
pub broadcast proof fn of_dot4(a: f32x4) ensures (#[trigger] dot4(a, a)) == qq(q4(a)) { }
pub broadcast group words { of_dot4, of_hamilton, of_rotated, of_cross, of_dot }
pub proof fn square_is_zero(v: W) requires dt(v, v) == 0real ensures nul(v)
{
    let (x, y, z) = (v.x, v.y, v.z);
    assert(x == 0real && y == 0real && z == 0real) by (nonlinear_arith) requires x * x + y * y + z * z == 0real;
}
pub proof fn square_is_not_zero(v: W) ensures dt(v, v) >= 0real, !nul(v) ==> dt(v, v) > 0real
{
    let (x, y, z) = (v.x, v.y, v.z);
    assert(x * x >= 0real && y * y >= 0real && z * z >= 0real) by (nonlinear_arith);
    if dt(v, v) == 0real { square_is_zero(v); }
}
// Two normals of t, j and r: be is how far they turn about t (j x r = be t).
pub open spec fn normals(j: W, r: W, t: W, be: real) -> bool {
    &&& dt(t, j) == 0real
    &&& dt(j, j) * dt(r, r) - dt(j, r) * dt(j, r) == be * be * dt(t, t)
    &&& by(dt(j, j), r) == plus(by(dt(j, r), j), by(be, cr(t, j)))
}
// The angle between them has a cosine.
pub proof fn cosine(j: W, r: W, t: W, be: real, hj: real, hr: real, c: real)
    requires normals(j, r, t, be), hj * hj == dt(j, j), hr * hr == dt(r, r), hj > 0real, hr > 0real, c * (hj * hr) == dt(j, r),
    ensures -1real <= c <= 1real
{
    let (al, tt, jj, rr) = (dt(j, r), dt(t, t), dt(j, j), dt(r, r));
    square_is_not_zero(t);
    assert(be * be * tt >= 0real) by (nonlinear_arith) requires tt >= 0real;
    let h = hj * hr;
    assert(h > 0real) by (nonlinear_arith) requires h == hj * hr, hj > 0real, hr > 0real;
    assert(jj * rr == h * h) by (nonlinear_arith) requires h == hj * hr, hj * hj == jj, hr * hr == rr;
    assert(al * al <= h * h);
    assert(-1real <= c <= 1real) by (nonlinear_arith) requires c * h == al, al * al <= h * h, h > 0real;
}
// Turning about t by the angle between its normals brings the first onto the second.
pub proof fn to_plane(q: Q, j: W, r: W, t: W, be: real, k: real, s: real, c: real, hj: real, hr: real, ht: real)
    requires
        normals(j, r, t, be), hj * hj == dt(j, j), hr * hr == dt(r, r), ht * ht == dt(t, t),
        hj > 0real, hr > 0real, ht > 0real, c * (hj * hr) == dt(j, r),
        s >= 0real, q.w >= 0real, s * s == (1real - c) / 2real, q.w * q.w == (1real + c) / 2real,
        k * ht == (if be < 0real { -s } else { s }), axis(q) == by(k, t),
    ensures by(hj * hr, rt(q, j)) == by(hj * hj, r),
{
    let (al, tt, jj, rr, w, h) = (dt(j, r), dt(t, t), dt(j, j), dt(r, r), q.w, hj * hr);
    assert(h > 0real) by (nonlinear_arith) requires h == hj * hr, hj > 0real, hr > 0real;
    assert(jj * rr == h * h) by (nonlinear_arith) requires h == hj * hr, hj * hj == jj, hr * hr == rr;
    double_angle(w, s, c, h, al, be, tt, k, ht);
    plane_part(k, w, t, j, h, be, al, c, s);
    plane_part(k, w, W { x: t.y, y: t.z, z: t.x }, W { x: j.y, y: j.z, z: j.x }, h, be, al, c, s);
    plane_part(k, w, W { x: t.z, y: t.x, z: t.y }, W { x: j.z, y: j.x, z: j.y }, h, be, al, c, s);
    assert(q.x == k * t.x && q.y == k * t.y && q.z == k * t.z);
    let v = rt(q, j);
    assert(h * v.x == al * j.x + be * (t.y * j.z - t.z * j.y));
    assert(h * v.y == al * j.y + be * (t.z * j.x - t.x * j.z));
    assert(h * v.z == al * j.z + be * (t.x * j.y - t.y * j.x));
    assert(by(h, v) == by(jj, r));
}
pub proof fn double_angle(w: real, s: real, c: real, h: real, al: real, be: real, tt: real, k: real, ht: real)
    requires
        s >= 0real, w >= 0real, s * s == (1real - c) / 2real, w * w == (1real + c) / 2real, h > 0real, ht > 0real, ht * ht == tt,
        c * h == al, h * h - al * al == be * be * tt, k * ht == (if be < 0real { -s } else { s }),
    ensures 2real * (w * k) * h == be, k * k * tt == s * s
{
    let m = 2real * (w * s) * h;
    assert(w * s >= 0real) by (nonlinear_arith) requires w >= 0real, s >= 0real;
    assert(m >= 0real) by (nonlinear_arith) requires m == 2real * (w * s) * h, w * s >= 0real, h > 0real;
    assert((w * s) * (w * s) == (w * w) * (s * s)) by (nonlinear_arith);
    assert((w * w) * (s * s) == ((1real + c) / 2real) * ((1real - c) / 2real));
    assert(4real * ((1real + c) / 2real * ((1real - c) / 2real)) == 1real - c * c) by (nonlinear_arith);
    let d = w * s;
    assert(m * m == 4real * (d * d) * (h * h)) by (nonlinear_arith) requires m == 2real * d * h;
    let e = d * d;
    assert(4real * e == 1real - c * c);
    assert((1real - c * c) * (h * h) == h * h - al * al) by (nonlinear_arith) requires c * h == al;
    assert(m * m == h * h - al * al) by (nonlinear_arith) requires m * m == 4real * e * (h * h), 4real * e == 1real - c * c, (1real - c * c) * (h * h) == h * h - al * al;
    let b = if be < 0real { -be } else { be };
    let n = b * ht;
    assert(n >= 0real) by (nonlinear_arith) requires n == b * ht, b >= 0real, ht > 0real;
    assert(b * b == be * be) by (nonlinear_arith) requires b == be || b == -be;
    assert(n * n == (b * b) * (ht * ht)) by (nonlinear_arith) requires n == b * ht;
    assert(m == n) by (nonlinear_arith) requires m * m == n * n, m >= 0real, n >= 0real;
    let sg = if be < 0real { -s } else { s };
    let x = w * k * h;
    assert(x * ht == w * h * sg) by (nonlinear_arith) requires x == w * k * h, k * ht == sg;
    assert(w * h * s == m / 2real) by (nonlinear_arith) requires m == 2real * (w * s) * h;
    assert(w * h * sg == (if be < 0real { -(m / 2real) } else { m / 2real })) by (nonlinear_arith)
        requires w * h * s == m / 2real, sg == (if be < 0real { -s } else { s });
    assert(2real * x == be) by (nonlinear_arith)
        requires x * ht == (if be < 0real { -(m / 2real) } else { m / 2real }), m == b * ht, b == (if be < 0real { -be } else { be }), ht > 0real;
    assert(2real * (w * k) * h == 2real * x) by (nonlinear_arith) requires x == w * k * h;
    assert(k * k * tt == sg * sg) by (nonlinear_arith) requires k * ht == sg, ht * ht == tt;
    assert(sg * sg == s * s) by (nonlinear_arith) requires sg == s || sg == -s;
}
//@ring scaled_axis k x y z
    (k * x) * (k * x) + (k * y) * (k * y) + (k * z) * (k * z) == k * k * (x * x + y * y + z * z);
    (k * y) * z - (k * z) * y == 0real;
    (k * z) * x - (k * x) * z == 0real;
    (k * x) * y - (k * y) * x == 0real;
//@end
pub proof fn plane_part(k: real, w: real, t: W, j: W, h: real, be: real, al: real, c: real, s: real)
    requires dt(t, j) == 0real, k * k * dt(t, t) == s * s, s * s == (1real - c) / 2real, c * h == al, 2real * (w * k) * h == be,
    ensures h * rt(Q { x: k * t.x, y: k * t.y, z: k * t.z, w: w }, j).x == al * j.x + be * (t.y * j.z - t.z * j.y)
{
    about_x(k, w, t.x, t.y, t.z, j.x, j.y, j.z);
    let n = t.y * j.z - t.z * j.y;
    plane_sum(rt(Q { x: k * t.x, y: k * t.y, z: k * t.z, w: w }, j).x, 1real - 2real * (k * k * (t.x * t.x + t.y * t.y + t.z * t.z)), j.x, w * k, n,
        2real * (k * k), t.x * j.x + t.y * j.y + t.z * j.z, t.x, h, c, al, be);
}
pub proof fn plane_sum(v: real, a: real, x: real, wk: real, n: real, k2: real, tj: real, tx: real, h: real, c: real, al: real, be: real)
    requires v == a * x + 2real * wk * n + k2 * tj * tx, tj == 0real, a == c, c * h == al, 2real * wk * h == be
    ensures h * v == al * x + be * n
{
    assert(k2 * tj * tx == 0real) by (nonlinear_arith) requires tj == 0real;
    let (p, q) = (a * x, 2real * wk * n);
    assert(h * p == al * x) by (nonlinear_arith) requires p == a * x, a == c, c * h == al;
    assert(h * q == be * n) by (nonlinear_arith) requires q == 2real * wk * n, 2real * wk * h == be;
    assert(h * v == h * p + h * q) by (nonlinear_arith) requires v == p + q;
}


// q turns g onto t: exactly, when g is as far as t.
// neither tiny nor nearly opposite (where the turn is not defined)
pub open spec fn can_turn(g: W, t: W) -> bool {
    let n = rsqrt(dt(g, g) * dt(t, t));
    n >= 1real / 1000000real && n + dt(g, t) >= (1real / 1000000real) * n
}
pub open spec fn onto(q: Q, g: W, t: W) -> bool {
    let n = rsqrt(dt(g, g) * dt(t, t));
    can_turn(g, t) ==> by(n, rt(q, g)) == by(dt(g, g), t) && (dt(g, g) == dt(t, t) ==> rt(q, g) == t)
}
pub open spec fn is_twist(q: Q, t: W, angle: real) -> bool {
    if angle == 0real { q == unit() } else { exists|k: real| k >= 0real && k * k * dt(t, t) == 1real && #[trigger] turn_about(q, by(k, t), angle) }
}
pub open spec fn turn_about(q: Q, a: W, angle: real) -> bool {
    axis(q) == by(rsin(angle * (1real / 2real)), a) && q.w == rcos(angle * (1real / 2real))
}
// An f32x4 with given lanes.
pub uninterp spec fn fx(w: W) -> f32x4;
pub axiom fn fx_ax(w: W) ensures w3(fx(w)) == w;

pub proof fn aimed_at(q0: f32x4, g: f32x4, t: f32x4)
    requires from_to(q0, g, t),
    ensures qq(q4(q0)) == 1real, onto(q4(q0), w3(g), w3(t))
{
    let v = rt(q4(q0), w3(g));
    fx_ax(v);
    assert(w3(fx(v)) == v);
    from_to_turns(q0, g, t, fx(v));
    assert(dot3(g, g) == dt(w3(g), w3(g)) && dot3(t, t) == dt(w3(t), w3(t)) && dot3(g, t) == dt(w3(g), w3(t)));
    assert(dot4(q0, q0) == qq(q4(q0)));
    let n = rsqrt(dt(w3(g), w3(g)) * dt(w3(t), w3(t)));
    assert(n * v.x == v.x * n && n * v.y == v.y * n && n * v.z == v.z * n) by (nonlinear_arith);
    if can_turn(w3(g), w3(t)) { as_far(v, w3(g), w3(t)); }
}
pub proof fn as_far(x: W, g: W, t: W)
    requires can_turn(g, t), by(rsqrt(dt(g, g) * dt(t, t)), x) == by(dt(g, g), t)
    ensures dt(g, g) == dt(t, t) ==> x == t
{
    let (gg, tt) = (dt(g, g), dt(t, t));
    let n = rsqrt(gg * tt);
    square_is_not_zero(t);
    if gg == tt {
        assert(tt * tt >= 0real) by (nonlinear_arith);
        rsqrt_ax(gg * tt);
        assert(n == tt) by (nonlinear_arith) requires n * n == tt * tt, n >= 0real, tt >= 0real;
        undo(n, x.x, t.x); undo(n, x.y, t.y); undo(n, x.z, t.z);
    }
}
pub proof fn same_line(a: W, x: W, t: W, n: real, g: real)
    requires nul(cr(a, t)), by(n, x) == by(g, t), n > 0real
    ensures nul(cr(a, x))
{
    same_component(a.y, a.z, x.y, x.z, t.y, t.z, n, g);
    same_component(a.z, a.x, x.z, x.x, t.z, t.x, n, g);
    same_component(a.x, a.y, x.x, x.y, t.x, t.y, n, g);
}
pub proof fn same_component(a: real, b: real, x: real, y: real, p: real, q: real, n: real, g: real)
    requires a * q - b * p == 0real, n * x == g * p, n * y == g * q, n > 0real
    ensures a * y - b * x == 0real
{
    let e = a * y - b * x;
    assert(a * (n * y) == a * (g * q) && b * (n * x) == b * (g * p));
    scattered(a, b, x, y, n); scattered(a, b, p, q, g);
    zero1(a * q - b * p, g);
    assert(e == 0real) by (nonlinear_arith) requires n * e == 0real, n > 0real;
}
//@ring scattered a b x y n
    n * (a * y - b * x) == a * (n * y) - b * (n * x);
//@end
pub proof fn undo(n: real, x: real, t: real) requires n * x == n * t, n > 0real ensures x == t
{ assert(x == t) by (nonlinear_arith) requires n * x == n * t, n > 0real; }
//@ring associative ax ay az aw bx by bz bw cx cy cz cw
    let dx = aw * bx + ax * bw + ay * bz - az * by; let dy = aw * by + ay * bw + az * bx - ax * bz;
    let dz = aw * bz + az * bw + ax * by - ay * bx; let dw = aw * bw - ax * bx - ay * by - az * bz;
    let ex = bw * cx + bx * cw + by * cz - bz * cy; let ey = bw * cy + by * cw + bz * cx - bx * cz;
    let ez = bw * cz + bz * cw + bx * cy - by * cx; let ew = bw * cw - bx * cx - by * cy - bz * cz;
    dw * cx + dx * cw + dy * cz - dz * cy == aw * ex + ax * ew + ay * ez - az * ey;
    dw * cy + dy * cw + dz * cx - dx * cz == aw * ey + ay * ew + az * ex - ax * ez;
    dw * cz + dz * cw + dx * cy - dy * cx == aw * ez + az * ew + ax * ey - ay * ex;
    dw * cw - dx * cx - dy * cy - dz * cz == aw * ew - ax * ex - ay * ey - az * ez;
//@end
pub proof fn assoc(a: Q, b: Q, c: Q) ensures mq(mq(a, b), c) == mq(a, mq(b, c))
{ associative(a.x, a.y, a.z, a.w, b.x, b.y, b.z, b.w, c.x, c.y, c.z, c.w); }
pub proof fn unit_left(q: Q) ensures mq(unit(), q) == q, qq(unit()) == 1real, nul(axis(unit())) {
    assert(1real * q.x == q.x && 1real * q.y == q.y && 1real * q.z == q.z && 1real * q.w == q.w);
}
// a turn about t does not move what lies along t
pub proof fn stays_onto(q: Q, b: Q, g: W, t: W)
    requires onto(q, g, t), qq(q) == 1real, qq(b) == 1real, nul(cr(axis(b), t)), !nul(t)
    ensures onto(mq(b, q), g, t)
{
    let n = rsqrt(dt(g, g) * dt(t, t));
    let x = rt(q, g);
    composed(b, q, g);
    if can_turn(g, t) {
        same_line(axis(b), x, t, n, dt(g, g));
        kept(b, x);
    }
}
pub proof fn root_pos(x: real) -> (i: real) requires x > 0real ensures rsqrt(x) > 0real, rsqrt(x) * rsqrt(x) == x, i == 1real / rsqrt(x), i > 0real, i * rsqrt(x) == 1real, i * i * x == 1real
{
    rsqrt_ax(x);
    let h = rsqrt(x);
    assert(h != 0real) by (nonlinear_arith) requires h * h == x, x > 0real;
    let i = 1real / h;
    assert(i * h == 1real && i > 0real) by (nonlinear_arith) requires i == 1real / h, h > 0real;
    assert(i * i * x == 1real) by (nonlinear_arith) requires i * h == 1real, h * h == x;
    i
}
//@ring scaled_product a b c x y z i j
    (a * i) * (x * j) + (b * i) * (y * j) + (c * i) * (z * j) == (i * j) * (a * x + b * y + c * z);
//@end
// The lanes of the job's rp: the axis t / |t|, flipped or not, times s.
pub open spec fn cos_between(j: W, r: W) -> real {
    let (ij, ir) = (1real / rsqrt(dt(j, j)), 1real / rsqrt(dt(r, r)));
    let d = (j.x * ij) * (r.x * ir) + (j.y * ij) * (r.y * ir) + (j.z * ij) * (r.z * ir);
    if d < -1real { -1real } else if d > 1real { 1real } else { d }
}
// The lanes of a turn about t by the angle of j and r, its axis t / |t| flipped or not.
pub open spec fn plane_lanes(rp: Q, t: W, cosv: real, flip: bool) -> bool {
    let it = 1real / rsqrt(dt(t, t));
    let s = rsqrt(1real - (1real + cosv) * (1real / 2real));
    &&& rp.w == rsqrt((1real + cosv) * (1real / 2real))
    &&& rp.x == (if flip { -(t.x * it) } else { t.x * it }) * s
    &&& rp.y == (if flip { -(t.y * it) } else { t.y * it }) * s
    &&& rp.z == (if flip { -(t.z * it) } else { t.z * it }) * s
}
pub proof fn plane_axis(rp: Q, t: W, cosv: real, flip: bool) -> (k: real)
    requires !nul(t), -1real <= cosv <= 1real, plane_lanes(rp, t, cosv, flip)
    ensures qq(rp) == 1real, nul(cr(axis(rp), t)), axis(rp) == by(k, t), rp.w >= 0real, rp.w * rp.w == (1real + cosv) / 2real,
        ({ let s = rsqrt(1real - (1real + cosv) * (1real / 2real));
           s >= 0real && s * s == (1real - cosv) / 2real && k * rsqrt(dt(t, t)) == (if flip { -s } else { s }) })
{
    square_is_not_zero(t);
    let it = root_pos(dt(t, t));
    let ht = rsqrt(dt(t, t));
    let s = rsqrt(1real - (1real + cosv) * (1real / 2real));
    rsqrt_ax(1real - (1real + cosv) * (1real / 2real));
    rsqrt_ax((1real + cosv) * (1real / 2real));
    let k = if flip { -it * s } else { it * s };
    axis_scaled(it, s, ht, t.x, flip); axis_scaled(it, s, ht, t.y, flip); axis_scaled(it, s, ht, t.z, flip);
    scaled_axis(k, t.x, t.y, t.z);
    let tt = dt(t, t);
    let sg = if flip { -s } else { s };
    assert(k * k * tt == sg * sg) by (nonlinear_arith) requires k * ht == sg, ht * ht == tt;
    assert(sg * sg == s * s) by (nonlinear_arith) requires sg == s || sg == -s;
    k
}
pub proof fn plane_quat(rp: Q, j: W, r: W, t: W, be: real) -> (z: real)
    requires normals(j, r, t, be), !nul(t), !nul(j), !nul(r), plane_lanes(rp, t, cos_between(j, r), be < 0real),
    ensures z > 0real, rt(rp, j) == by(z, r)
{
    hide(cos_between); hide(plane_lanes); hide(normals); hide(rt);
    let d = cos_value(j, r, t, be);
    square_is_not_zero(t); square_is_not_zero(j); square_is_not_zero(r);
    let it = root_pos(dt(t, t));
    let ij = root_pos(dt(j, j));
    let ir = root_pos(dt(r, r));
    let (hj, hr, ht) = (rsqrt(dt(j, j)), rsqrt(dt(r, r)), rsqrt(dt(t, t)));
    let s = rsqrt(1real - (1real + d) * (1real / 2real));
    let k = plane_axis(rp, t, d, be < 0real);
    to_plane(rp, j, r, t, be, k, s, d, hj, hr, ht);
    rescaled(rt(rp, j), r, hj * hr, hj * hj, hj, hr)
}
pub proof fn cos_value(j: W, r: W, t: W, be: real) -> (d: real)
    requires normals(j, r, t, be), !nul(t), !nul(j), !nul(r),
    ensures -1real <= d <= 1real, d == cos_between(j, r), d * (rsqrt(dt(j, j)) * rsqrt(dt(r, r))) == dt(j, r)
{
    square_is_not_zero(j); square_is_not_zero(r);
    let ij = root_pos(dt(j, j));
    let ir = root_pos(dt(r, r));
    let (hj, hr) = (rsqrt(dt(j, j)), rsqrt(dt(r, r)));
    let d = (j.x * ij) * (r.x * ir) + (j.y * ij) * (r.y * ir) + (j.z * ij) * (r.z * ir);
    scaled_product(j.x, j.y, j.z, r.x, r.y, r.z, ij, ir);
    cos_scaled(d, ij, ir, hj, hr, dt(j, r));
    cosine(j, r, t, be, hj, hr, d);
    d
}
pub proof fn rescaled(x: W, r: W, h: real, jj: real, hj: real, hr: real) -> (z: real)
    requires by(h, x) == by(jj, r), h == hj * hr, jj == hj * hj, hj > 0real, hr > 0real
    ensures z > 0real, x == by(z, r)
{
    assert(h > 0real) by (nonlinear_arith) requires h == hj * hr, hj > 0real, hr > 0real;
    assert(jj > 0real) by (nonlinear_arith) requires jj == hj * hj, hj > 0real;
    let z = jj / h;
    assert(z * h == jj && z > 0real) by (nonlinear_arith) requires z == jj / h, h > 0real, jj > 0real;
    rescale(h, jj, z, x.x, r.x); rescale(h, jj, z, x.y, r.y); rescale(h, jj, z, x.z, r.z);
    z
}
pub proof fn rescale(h: real, jj: real, z: real, x: real, r: real)
    requires h > 0real, z * h == jj, h * x == jj * r ensures x == z * r
{
    assert(h * (z * r) == jj * r) by (nonlinear_arith) requires z * h == jj;
    undo(h, x, z * r);
}
pub proof fn cos_scaled(d: real, i: real, j: real, hi: real, hj: real, x: real)
    requires d == (i * j) * x, i * hi == 1real, j * hj == 1real ensures d * (hi * hj) == x
{
    assert((i * j) * (hi * hj) == (i * hi) * (j * hj)) by (nonlinear_arith);
    assert((i * hi) * (j * hj) == 1real) by (nonlinear_arith) requires i * hi == 1real, j * hj == 1real;
    let (a, b) = (i * j, hi * hj);
    assert(d * b == x) by (nonlinear_arith) requires d == a * x, a * b == 1real;
}
pub proof fn axis_scaled(i: real, s: real, h: real, x: real, flip: bool)
    requires i * h == 1real
    ensures ({ let k = if flip { -i * s } else { i * s }; k * x == (if flip { -(x * i) } else { x * i }) * s && k * h == (if flip { -s } else { s }) })
{
    assert((-i * s) * x == (-(x * i)) * s && (i * s) * x == (x * i) * s) by (nonlinear_arith);
    assert((-i * s) * h == -s && (i * s) * h == s) by (nonlinear_arith) requires i * h == 1real;
}
// The lanes of the job's twist.
pub proof fn twist_quat(tw: Q, t: W, angle: real)
    requires
        !nul(t), angle != 0real, tw.w == rcos(angle * (1real / 2real)),
        ({ let it = 1real / rsqrt(dt(t, t)); let s = rsin(angle * (1real / 2real));
           tw.x == (t.x * it) * s && tw.y == (t.y * it) * s && tw.z == (t.z * it) * s })
    ensures qq(tw) == 1real, nul(cr(axis(tw), t)), is_twist(tw, t, angle)
{
    square_is_not_zero(t);
    let i = root_pos(dt(t, t));
    let h = angle * (1real / 2real);
    let s = rsin(h);
    sin_cos_ax(h);
    let k = i * s;
    assert(k * t.x == (t.x * i) * s && s * (i * t.x) == (t.x * i) * s) by (nonlinear_arith) requires k == i * s;
    assert(k * t.y == (t.y * i) * s && s * (i * t.y) == (t.y * i) * s) by (nonlinear_arith) requires k == i * s;
    assert(k * t.z == (t.z * i) * s && s * (i * t.z) == (t.z * i) * s) by (nonlinear_arith) requires k == i * s;
    scaled_axis(k, t.x, t.y, t.z);
    let tt = dt(t, t);
    assert(k * k * tt == s * s) by (nonlinear_arith) requires k == i * s, i * i * tt == 1real;
    assert(axis(tw) == by(k, t));
    assert(axis(tw) == by(s, by(i, t)));
    assert(turn_about(tw, by(i, t), angle));
}

}
