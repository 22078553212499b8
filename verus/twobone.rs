// C15, C19: the two bone IK job, over the real numbers.
#![allow(non_camel_case_types, non_snake_case, unused)]
use vstd::prelude::*;
//@include simd.rs
//@include bitmask.rs
verus! {
use sd::*;
broadcast use sd::ops;
//@use kernel
//@use quats
//@use mats
//@use turns
//@real

pub enum OzzError { InvalidJob }
impl AosMat4 {
// By contract here; proved by engine/straight.py.
#[verifier::external_body]
pub fn invert(&self) -> (r: AosMat4) ensures det(*self) != 0real ==> is_inverse(r, *self) { unimplemented!() }
}
// Exact trigonometry; the approximation error of fx4_acos and fx4_sin_cos is the subject of C18.
pub uninterp spec fn racos(a: real) -> real;
pub axiom fn acos_ax(c: real) requires -1real <= c <= 1real ensures rcos(racos(c)) == c, rsin(racos(c)) >= 0real;
pub axiom fn sum_ax(a: real, b: real) ensures rcos(a + b) == rcos(a) * rcos(b) - rsin(a) * rsin(b), rsin(a + b) == rsin(a) * rcos(b) + rcos(a) * rsin(b);
pub axiom fn neg_ax(a: real) ensures rcos(-a) == rcos(a), rsin(-a) == -rsin(a);
#[verifier::external_body]
pub fn fx4_acos(v: f32x4) -> (r: f32x4) ensures forall|i: int| #[trigger] r.l(i) == racos(v.l(i)) { unimplemented!() }

//@item src/ik_two_bone_job.rs struct IKConstantSetup
//@sub \bstruct IKC ==> pub struct IKC
//@sub (?m)^(\s+)(\w+): ==> \1pub \2:
//@end
//@item src/ik_two_bone_job.rs struct IKTwoBoneJob
//@sub (?m)^(\s+)(\w+): ==> \1pub \2:
//@end

// --- what the job promises

// A point and a direction through a matrix.
pub open spec fn pt(a: AosMat4, p: W) -> W { W {
    x: p.x * m(a, 0, 0) + p.y * m(a, 0, 1) + p.z * m(a, 0, 2) + m(a, 0, 3),
    y: p.x * m(a, 1, 0) + p.y * m(a, 1, 1) + p.z * m(a, 1, 2) + m(a, 1, 3),
    z: p.x * m(a, 2, 0) + p.y * m(a, 2, 1) + p.z * m(a, 2, 2) + m(a, 2, 3) } }
pub open spec fn lin(a: AosMat4, p: W) -> W { W {
    x: m(a, 0, 0) * p.x + m(a, 0, 1) * p.y + m(a, 0, 2) * p.z,
    y: m(a, 1, 0) * p.x + m(a, 1, 1) * p.y + m(a, 1, 2) * p.z,
    z: m(a, 2, 0) * p.x + m(a, 2, 1) * p.y + m(a, 2, 2) * p.z } }
pub open spec fn minus(a: W, b: W) -> W { W { x: a.x - b.x, y: a.y - b.y, z: a.z - b.z } }
pub open spec fn neg(a: W) -> W { W { x: -a.x, y: -a.y, z: -a.z } }
pub open spec fn pos(a: AosMat4) -> W { w3(a.cols@[3]) }
pub open spec fn clamp(x: real, a: real, b: real) -> real { if x < a { a } else if x > b { b } else { x } }

// The chain seen from its start joint (by the inverse si of its matrix) and from its middle joint (mi).
pub struct Chain { pub si: AosMat4, pub mi: AosMat4 }
pub open spec fn bone1(j: IKTwoBoneJob, c: Chain) -> W { pt(c.si, pos(j.mid_joint)) }
pub open spec fn tip(j: IKTwoBoneJob, c: Chain) -> W { pt(c.si, pos(j.end_joint)) }
pub open spec fn bone2(j: IKTwoBoneJob, c: Chain) -> W { minus(tip(j, c), bone1(j, c)) }
pub open spec fn bone1_ms(j: IKTwoBoneJob, c: Chain) -> W { neg(pt(c.mi, pos(j.start_joint))) }
pub open spec fn bone2_ms(j: IKTwoBoneJob, c: Chain) -> W { pt(c.mi, pos(j.end_joint)) }
// From the middle joint to the start joint.
pub open spec fn out(j: IKTwoBoneJob, c: Chain, v: W) -> W { lin(c.si, lin(j.mid_joint, v)) }

// The target, pulled in when it is further than the part of the chain that is not softened.
pub open spec fn fall_off(alpha: real) -> real {
    let (a, b) = (3real * 3real, (alpha + 3real) * (alpha + 3real));
    (a * a) * (1real / (b * b))
}
pub open spec fn softened(t: W, l1: real, l2: real, soften: real, reached: bool, s: W, len2: real) -> bool {
    let d = rsqrt(dt(t, t));
    let da = (l1 + l2) * clamp(soften, 0real, 1real);
    let ds = (l1 + l2) - da;
    &&& reached == (d > rabs(l1 - l2) && d <= da)
    &&& if d > da && d > 0real && ds > 0real {
            let len = da + ds - ds * fall_off((d - da) * (1real / ds));
            len2 == len * len && s == by(len * (1real / d), t)
        } else { len2 == dt(t, t) && s == t }
}
// The middle joint turns about its axis n, by the difference of the angles at which the chain is as long as the target, and as it is.
pub open spec fn cos_mid(l1: real, l2: real, e2: real) -> real { clamp((l1 + l2 - e2) * (1real / 2real * (1real / rsqrt(l1 * l2))), -1real, 1real) }
pub open spec fn mid_angle(n: W, a: W, e: W, l1: real, l2: real, e2: real, t2: real) -> real {
    let now = racos(cos_mid(l1, l2, e2));
    racos(cos_mid(l1, l2, t2)) - (if dt(cr(a, n), e) < 0real { -now } else { now })
}
pub open spec fn faded(c: Q, full: Q, w: real) -> bool {
    if w >= 1real { c == full } else {
        let p = part(full, rmax(w, 0real));
        let k = 1real / rsqrt(qq(p));
        c == Q { x: p.x * k, y: p.y * k, z: p.z * k, w: p.w * k }
    }
}
pub open spec fn part(full: Q, a: real) -> Q { Q { x: full.x * a, y: full.y * a, z: full.z * a, w: 1real + (full.w - 1real) * a } }
pub open spec fn front(q: Q) -> Q { if q.w < 0real { opp(q) } else { q } }

// The start joint turns the bent chain g onto the target t, the axis k of its middle joint into the plane of t and the pole p, then twists.
pub open spec fn in_plane(q: Q, g: W, k: W, p: W, t: W) -> bool {
    dt(g, k) == 0real && !nul(g) && !nul(k) && !nul(cr(t, p)) && can_turn(g, t) ==> exists|z: real| z > 0real && rt(q, k) == #[trigger] by(z, cr(t, p))
}
pub open spec fn placed(full: Q, tw: Q, q: Q, g: W, k: W, p: W, t: W, angle: real) -> bool {
    &&& qq(full) == 1real && qq(q) == 1real && qq(tw) == 1real && full == mq(tw, q)
    &&& onto(q, g, t) && onto(full, g, t)
    &&& !nul(t) ==> is_twist(tw, t, angle) && in_plane(q, g, k, p, t)
}
pub open spec fn started(full: Q, g: W, k: W, p: W, t: W, angle: real) -> bool { exists|tw: Q, q: Q| #[trigger] placed(full, tw, q, g, k, p, t, angle) }
pub struct Plan { pub reached: bool, pub t: W, pub len2: real, pub mid: Q, pub full: Q, pub tw: Q, pub q: Q }
pub open spec fn bent(j: IKTwoBoneJob, c: Chain, mid: Q) -> W { plus(bone1(j, c), out(j, c, rt(mid, bone2_ms(j, c)))) }
pub open spec fn planned(j: IKTwoBoneJob, r: IKTwoBoneJob, c: Chain, p: Plan) -> bool {
    let n = w3(j.mid_axis);
    let (l1, l2, e2) = (dt(bone1(j, c), bone1(j, c)), dt(bone2(j, c), bone2(j, c)), dt(tip(j, c), tip(j, c)));
    &&& softened(pt(c.si, w3(j.target)), rsqrt(l1), rsqrt(l2), j.soften.v(), p.reached, p.t, p.len2)
    &&& turn_about(p.mid, n, mid_angle(n, bone1_ms(j, c), bone2_ms(j, c), l1, l2, e2, p.len2))
    &&& placed(p.full, p.tw, p.q, bent(j, c, p.mid), out(j, c, n), lin(c.si, w3(j.pole_vector)), p.t, j.twist_angle.v())
    &&& faded(q4(r.mid_joint_correction), front(p.mid), j.weight.v()) && faded(q4(r.start_joint_correction), front(p.full), j.weight.v())
    &&& r.reached == (p.reached && j.weight.v() >= 1real)
}
pub open spec fn solved(j: IKTwoBoneJob, r: IKTwoBoneJob, c: Chain) -> bool {
    exists|p: Plan| #[trigger] planned(j, r, c, p) && (forall|s2: real| #[trigger] good_chain(j, c, s2) ==> delivers(j, c, p))
}

// The lanes of the setup.
pub open spec fn set_up(s: IKConstantSetup, j: IKTwoBoneJob, c: Chain) -> bool {
    &&& s.inv_start_joint == c.si
    &&& w3(s.start_mid_ms) == bone1_ms(j, c) && w3(s.mid_end_ms) == bone2_ms(j, c) && w3(s.start_mid_ss) == bone1(j, c)
    &&& s.start_mid_ss_len2.l(0) == dt(bone1(j, c), bone1(j, c)) && s.mid_end_ss_len2.l(0) == dt(bone2(j, c), bone2(j, c))
    &&& s.start_end_ss_len2.l(0) == dt(tip(j, c), tip(j, c))
}
pub open spec fn inverses(j: IKTwoBoneJob, c: Chain) -> bool {
    (det(j.start_joint) != 0real ==> is_inverse(c.si, j.start_joint)) && (det(j.mid_joint) != 0real ==> is_inverse(c.mi, j.mid_joint))
}
pub open spec fn inputs_kept(a: IKTwoBoneJob, b: IKTwoBoneJob) -> bool {
    a.target == b.target && a.mid_axis == b.mid_axis && a.pole_vector == b.pole_vector && a.twist_angle == b.twist_angle && a.soften == b.soften
    && a.weight == b.weight && a.start_joint == b.start_joint && a.mid_joint == b.mid_joint && a.end_joint == b.end_joint
}
pub proof fn scaled_target(k: real, t: W) ensures t.x * k == k * t.x && t.y * k == k * t.y && t.z * k == k * t.z
{ assert(t.x * k == k * t.x && t.y * k == k * t.y && t.z * k == k * t.z) by (nonlinear_arith); }
// The softened target is as far as its length.
pub proof fn soft_length(t: W, l1: real, l2: real, soften: real, reached: bool, s: W, len2: real)
    requires softened(t, l1, l2, soften, reached, s, len2)
    ensures dt(s, s) == len2
{
    let d = rsqrt(dt(t, t));
    square_is_not_zero(t);
    rsqrt_ax(dt(t, t));
    let da = (l1 + l2) * clamp(soften, 0real, 1real);
    let ds = (l1 + l2) - da;
    if d > da && d > 0real && ds > 0real {
        let len = da + ds - ds * fall_off((d - da) * (1real / ds));
        let k = len * (1real / d);
        scaled_axis(k, t.x, t.y, t.z);
        assert(k * d == len) by (nonlinear_arith) requires k == len * (1real / d), d > 0real;
        let tt = dt(t, t);
        assert(k * k * tt == len * len) by (nonlinear_arith) requires k * d == len, d * d == tt;
    }
}

// --- the start joint
//@ring keep_dot qx qy qz qw ax ay az bx by bz
    let n = qx * qx + qy * qy + qz * qz + qw * qw - 1real;
    let rax = ax + 2real * (qy * (qw * az + (qx * ay - qy * ax)) - qz * (qw * ay + (qz * ax - qx * az)));
    let ray = ay + 2real * (qz * (qw * ax + (qy * az - qz * ay)) - qx * (qw * az + (qx * ay - qy * ax)));
    let raz = az + 2real * (qx * (qw * ay + (qz * ax - qx * az)) - qy * (qw * ax + (qy * az - qz * ay)));
    let rbx = bx + 2real * (qy * (qw * bz + (qx * by - qy * bx)) - qz * (qw * by + (qz * bx - qx * bz)));
    let rby = by + 2real * (qz * (qw * bx + (qy * bz - qz * by)) - qx * (qw * bz + (qx * by - qy * bx)));
    let rbz = bz + 2real * (qx * (qw * by + (qz * bx - qx * bz)) - qy * (qw * bx + (qy * bz - qz * by)));
    let ab = ax * bx + ay * by + az * bz;
    rax * rbx + ray * rby + raz * rbz == ab + n * (2real * ab - (rax * bx + ray * by + raz * bz) - (ax * rbx + ay * rby + az * rbz));
//@end
// Rotations keep lengths and angles.
pub proof fn dots(q: Q, a: W, b: W) requires qq(q) == 1real ensures dt(rt(q, a), rt(q, b)) == dt(a, b)
{
    keep_dot(q.x, q.y, q.z, q.w, a.x, a.y, a.z, b.x, b.y, b.z);
    let (ra, rb) = (rt(q, a), rt(q, b));
    zero1(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w - 1real, 2real * dt(a, b) - dt(ra, b) - dt(a, rb));
}
//@ring plane2 jx jy jz tx ty tz px py pz
    let rx = ty * pz - tz * py; let ry = tz * px - tx * pz; let rz = tx * py - ty * px;
    let al = jx * rx + jy * ry + jz * rz; let be = jx * px + jy * py + jz * pz;
    let jj = jx * jx + jy * jy + jz * jz; let tt = tx * tx + ty * ty + tz * tz;
    let tj = tx * jx + ty * jy + tz * jz; let tp = tx * px + ty * py + tz * pz; let pp = px * px + py * py + pz * pz;
    jj * (rx * rx + ry * ry + rz * rz) - al * al == be * be * tt + tj * (tj * pp - 2real * tp * be);
    jj * rx == al * jx + be * (ty * jz - tz * jy) + tj * (jy * pz - jz * py);
//@end
pub proof fn pole_normals(j: W, p: W, t: W) requires dt(t, j) == 0real ensures normals(j, cr(t, p), t, dt(j, p))
{
    plane2(j.x, j.y, j.z, t.x, t.y, t.z, p.x, p.y, p.z);
    plane2(j.y, j.z, j.x, t.y, t.z, t.x, p.y, p.z, p.x);
    plane2(j.z, j.x, j.y, t.z, t.x, t.y, p.z, p.x, p.y);
    let (tj, tp, pp, be) = (dt(t, j), dt(t, p), dt(p, p), dt(j, p));
    zero1(tj, tj * pp - 2real * tp * be);
    zero1(tj, j.y * p.z - j.z * p.y); zero1(tj, j.z * p.x - j.x * p.z); zero1(tj, j.x * p.y - j.y * p.x);
}
// What was perpendicular to g is perpendicular to t, once g is turned onto t.
pub proof fn still_normal(q: Q, g: W, t: W, k: W)
    requires onto(q, g, t), can_turn(g, t), qq(q) == 1real, dt(g, k) == 0real, !nul(g)
    ensures dt(t, rt(q, k)) == 0real
{
    dots(q, g, k);
    let (n, gg, r, x) = (rsqrt(dt(g, g) * dt(t, t)), dt(g, g), rt(q, k), rt(q, g));
    square_is_not_zero(g);
    scaled_product(t.x, t.y, t.z, r.x, r.y, r.z, gg, 1real);
    by_dot(n, x, r); by_dot(gg, t, r);
    zero1(0real, n);
    let e = dt(t, r);
    assert(gg * e == 0real) by { assert(dt(by(n, x), r) == n * dt(x, r)); zero1(dt(x, r), n); }
    assert(e == 0real) by (nonlinear_arith) requires gg * e == 0real, gg > 0real;
}
pub proof fn by_dot(k: real, a: W, b: W) ensures dt(by(k, a), b) == k * dt(a, b)
{ by_dots(k, a.x, a.y, a.z, b.x, b.y, b.z); }
//@ring by_dots k a b c x y z
    (k * a) * x + (k * b) * y + (k * c) * z == k * (a * x + b * y + c * z);
//@end
// A rotation of nothing else than a zero vector is a zero vector.
pub proof fn not_nul(q: Q, k: W) requires qq(q) == 1real, !nul(k) ensures !nul(rt(q, k))
{
    dots(q, k, k);
    square_is_not_zero(k);
    let r = rt(q, k);
    if nul(r) { zero1(r.x, r.x); zero1(r.y, r.y); zero1(r.z, r.z); }
}
// The parts of the start joint's rotation: q0 from the bent chain to the target, rp about the target to the plane of the pole, tw.
proof fn place(g: W, k: W, p: W, t: W, q0: Q, rp: Q, tw: Q, full: Q, angle: real)
    requires
        !nul(t), qq(q0) == 1real, qq(tw) == 1real, nul(cr(axis(tw), t)), is_twist(tw, t, angle), onto(q0, g, t),
        ({ let (j, r) = (rt(q0, k), cr(t, p)); plane_lanes(rp, t, cos_between(j, r), dt(j, p) < 0real) }),
        full == mq(mq(tw, rp), q0),
    ensures placed(full, tw, mq(rp, q0), g, k, p, t, angle)
{
    let (j, r) = (rt(q0, k), cr(t, p));
    let kk = plane_axis(rp, t, cos_between(j, r), dt(j, p) < 0real);
    let q = mq(rp, q0);
    unit_product(rp, q0);
    stays_onto(q0, rp, g, t);
    assoc(tw, rp, q0);
    unit_product(tw, q);
    stays_onto(q, tw, g, t);
    if dt(g, k) == 0real && !nul(g) && !nul(k) && !nul(cr(t, p)) && can_turn(g, t) {
        still_normal(q0, g, t, k);
        not_nul(q0, k);
        pole_normals(j, p, t);
        let z = plane_quat(rp, j, r, t, dt(j, p));
        composed(rp, q0, k);
        assert(rt(q, k) == by(z, cr(t, p)));
    }
    assert(in_plane(q, g, k, p, t));
}
pub proof fn dt_swap(a: W, b: W) ensures dt(a, b) == dt(b, a)
{ assert(a.x * b.x == b.x * a.x && a.y * b.y == b.y * a.y && a.z * b.z == b.z * a.z) by (nonlinear_arith); }
// The cosine of two directions does not depend on their order.
pub proof fn dt_swap_lanes(r: W, j: W, ir: real, ij: real)
    ensures (r.x * ir) * (j.x * ij) + (r.y * ir) * (j.y * ij) + (r.z * ir) * (j.z * ij) == (j.x * ij) * (r.x * ir) + (j.y * ij) * (r.y * ir) + (j.z * ij) * (r.z * ir)
{
    scaled_product(r.x, r.y, r.z, j.x, j.y, j.z, ir, ij);
    scaled_product(j.x, j.y, j.z, r.x, r.y, r.z, ij, ir);
    let (a, b) = (dt(r, j), dt(j, r));
    dt_swap(r, j);
    assert(ir * ij == ij * ir) by (nonlinear_arith);
}
pub open spec fn twist_of(t: W, angle: real) -> Q {
    if angle == 0real { unit() } else {
        let it = 1real / rsqrt(dt(t, t)); let s = rsin(angle * (1real / 2real));
        Q { x: (t.x * it) * s, y: (t.y * it) * s, z: (t.z * it) * s, w: rcos(angle * (1real / 2real)) } }
}

// --- the chain reaches
pub open spec fn affine_last(a: AosMat4) -> bool { m(a, 3, 0) == 0real && m(a, 3, 1) == 0real && m(a, 3, 2) == 0real && m(a, 3, 3) == 1real }
pub open spec fn keeps(j: IKTwoBoneJob, c: Chain, s2: real, v: W, w: W) -> bool { dt(out(j, c, v), out(j, c, w)) == s2 * dt(v, w) }
// Invertible affine matrices, the middle joint only turned, moved and uniformly scaled against the start joint, and the axis of the
// middle joint perpendicular to the bones.
pub open spec fn good_chain(j: IKTwoBoneJob, c: Chain, s2: real) -> bool {
    &&& det(j.start_joint) != 0real && det(j.mid_joint) != 0real && affine_last(j.start_joint) && affine_last(j.mid_joint)
    &&& s2 > 0real && forall|v: W, w: W| #[trigger] keeps(j, c, s2, v, w)
    &&& dt(w3(j.mid_axis), w3(j.mid_axis)) == 1real && dt(w3(j.mid_axis), bone1_ms(j, c)) == 0real && dt(w3(j.mid_axis), bone2_ms(j, c)) == 0real
    &&& !nul(bone1_ms(j, c)) && !nul(bone2_ms(j, c))
}
pub open spec fn delivers(j: IKTwoBoneJob, c: Chain, p: Plan) -> bool {
    let (b1, b2, g, t) = (bone1(j, c), bone2(j, c), bent(j, c, p.mid), pt(c.si, w3(j.target)));
    let (l1, l2, d) = (rsqrt(dt(b1, b1)), rsqrt(dt(b2, b2)), rsqrt(dt(t, t)));
    // the second bone keeps its length
    &&& dt(minus(g, b1), minus(g, b1)) == dt(b2, b2)
    // the chain is as long as the target is far, or as near to that as it can be
    &&& dt(g, g) == clamp(p.len2, (l1 - l2) * (l1 - l2), (l1 + l2) * (l1 + l2))
    // it is in the plane perpendicular to the axis of the middle joint
    &&& dt(g, out(j, c, w3(j.mid_axis))) == 0real && !nul(out(j, c, w3(j.mid_axis)))
    // a target within reach is reached, unless the chain points the opposite way
    &&& p.reached ==> p.t == t && dt(g, g) == dt(t, t)
    &&& p.reached && can_turn(g, t) ==> rt(p.full, g) == t
}
pub proof fn one1(a: real, b: real) requires b == 1real ensures a * b == a, b * a == a
{ assert(a * b == a) by (nonlinear_arith) requires b == 1real; }
//@ring diff_x a b c d px py pz qx qy qz
    (px * a + py * b + pz * c + d) - (qx * a + qy * b + qz * c + d) == a * (px - qx) + b * (py - qy) + c * (pz - qz);
//@end
pub proof fn seen_apart(a: AosMat4, p: W, q: W) ensures minus(pt(a, p), pt(a, q)) == lin(a, minus(p, q))
{
    diff_x(m(a, 0, 0), m(a, 0, 1), m(a, 0, 2), m(a, 0, 3), p.x, p.y, p.z, q.x, q.y, q.z);
    diff_x(m(a, 1, 0), m(a, 1, 1), m(a, 1, 2), m(a, 1, 3), p.x, p.y, p.z, q.x, q.y, q.z);
    diff_x(m(a, 2, 0), m(a, 2, 1), m(a, 2, 2), m(a, 2, 3), p.x, p.y, p.z, q.x, q.y, q.z);
}
pub proof fn own_place(r: AosMat4, a: AosMat4) requires undoes(r, a), affine_last(a) ensures nul(pt(r, pos(a)))
{
    let p = pos(a);
    own_row(m(r, 0, 0), m(r, 0, 1), m(r, 0, 2), m(r, 0, 3), m(a, 0, 3), m(a, 1, 3), m(a, 2, 3), m(a, 3, 3), p);
    own_row(m(r, 1, 0), m(r, 1, 1), m(r, 1, 2), m(r, 1, 3), m(a, 0, 3), m(a, 1, 3), m(a, 2, 3), m(a, 3, 3), p);
    own_row(m(r, 2, 0), m(r, 2, 1), m(r, 2, 2), m(r, 2, 3), m(a, 0, 3), m(a, 1, 3), m(a, 2, 3), m(a, 3, 3), p);
}
pub proof fn own_row(a: real, b: real, c: real, d: real, x: real, y: real, z: real, w: real, p: W)
    requires a * x + b * y + c * z + d * w == 0real, w == 1real, p.x == x, p.y == y, p.z == z
    ensures p.x * a + p.y * b + p.z * c + d == 0real
{
    one1(d, w);
    let (px, py, pz) = (p.x, p.y, p.z);
    assert(px * a == a * x) by (nonlinear_arith) requires px == x;
    assert(py * b == b * y) by (nonlinear_arith) requires py == y;
    assert(pz * c == c * z) by (nonlinear_arith) requires pz == z;
}
pub proof fn picked(s0: real, s1: real, s2: real, x: real, y: real, z: real, k: int)
    requires s0 == (if k == 0 { 1real } else { 0real }), s1 == (if k == 1 { 1real } else { 0real }), s2 == (if k == 2 { 1real } else { 0real }), 0 <= k < 3
    ensures s0 * x + s1 * y + s2 * z == (if k == 0 { x } else if k == 1 { y } else { z })
{
    if k == 0 { one1(x, s0); zero1(s1, y); zero1(s2, z); } else if k == 1 { zero1(s0, x); one1(y, s1); zero1(s2, z); } else { zero1(s0, x); zero1(s1, y); one1(z, s2); }
}
//@ring twice_x a b c d00 d01 d02 d10 d11 d12 d20 d21 d22 x y z
    a * (d00 * x + d01 * y + d02 * z) + b * (d10 * x + d11 * y + d12 * z) + c * (d20 * x + d21 * y + d22 * z) == (a * d00 + b * d10 + c * d20) * x + (a * d01 + b * d11 + c * d21) * y + (a * d02 + b * d12 + c * d22) * z;
//@end
pub proof fn back_again(r: AosMat4, a: AosMat4, v: W) requires undoes(r, a), affine_last(a) ensures lin(a, lin(r, v)) == v
{
    zero1(0real, m(r, 0, 0)); zero1(0real, m(r, 1, 0)); zero1(0real, m(r, 2, 0)); zero1(0real, m(r, 0, 1)); zero1(0real, m(r, 1, 1)); zero1(0real, m(r, 2, 1));
    zero1(0real, m(r, 0, 2)); zero1(0real, m(r, 1, 2)); zero1(0real, m(r, 2, 2));
    one1(m(r, 3, 0), 1real); one1(m(r, 3, 1), 1real); one1(m(r, 3, 2), 1real);
    assert(m(r, 3, 0) == 0real && m(r, 3, 1) == 0real && m(r, 3, 2) == 0real);
    zero1(m(r, 3, 0), m(a, 0, 3)); zero1(m(r, 3, 0), m(a, 1, 3)); zero1(m(r, 3, 0), m(a, 2, 3));
    zero1(m(r, 3, 1), m(a, 0, 3)); zero1(m(r, 3, 1), m(a, 1, 3)); zero1(m(r, 3, 1), m(a, 2, 3));
    zero1(m(r, 3, 2), m(a, 0, 3)); zero1(m(r, 3, 2), m(a, 1, 3)); zero1(m(r, 3, 2), m(a, 2, 3));
    twice_x(m(a, 0, 0), m(a, 0, 1), m(a, 0, 2), m(r, 0, 0), m(r, 0, 1), m(r, 0, 2), m(r, 1, 0), m(r, 1, 1), m(r, 1, 2), m(r, 2, 0), m(r, 2, 1), m(r, 2, 2), v.x, v.y, v.z);
    twice_x(m(a, 1, 0), m(a, 1, 1), m(a, 1, 2), m(r, 0, 0), m(r, 0, 1), m(r, 0, 2), m(r, 1, 0), m(r, 1, 1), m(r, 1, 2), m(r, 2, 0), m(r, 2, 1), m(r, 2, 2), v.x, v.y, v.z);
    twice_x(m(a, 2, 0), m(a, 2, 1), m(a, 2, 2), m(r, 0, 0), m(r, 0, 1), m(r, 0, 2), m(r, 1, 0), m(r, 1, 1), m(r, 1, 2), m(r, 2, 0), m(r, 2, 1), m(r, 2, 2), v.x, v.y, v.z);
    picked(m(a, 0, 0) * m(r, 0, 0) + m(a, 0, 1) * m(r, 1, 0) + m(a, 0, 2) * m(r, 2, 0), m(a, 0, 0) * m(r, 0, 1) + m(a, 0, 1) * m(r, 1, 1) + m(a, 0, 2) * m(r, 2, 1), m(a, 0, 0) * m(r, 0, 2) + m(a, 0, 1) * m(r, 1, 2) + m(a, 0, 2) * m(r, 2, 2), v.x, v.y, v.z, 0);
    picked(m(a, 1, 0) * m(r, 0, 0) + m(a, 1, 1) * m(r, 1, 0) + m(a, 1, 2) * m(r, 2, 0), m(a, 1, 0) * m(r, 0, 1) + m(a, 1, 1) * m(r, 1, 1) + m(a, 1, 2) * m(r, 2, 1), m(a, 1, 0) * m(r, 0, 2) + m(a, 1, 1) * m(r, 1, 2) + m(a, 1, 2) * m(r, 2, 2), v.x, v.y, v.z, 1);
    picked(m(a, 2, 0) * m(r, 0, 0) + m(a, 2, 1) * m(r, 1, 0) + m(a, 2, 2) * m(r, 2, 0), m(a, 2, 0) * m(r, 0, 1) + m(a, 2, 1) * m(r, 1, 1) + m(a, 2, 2) * m(r, 2, 1), m(a, 2, 0) * m(r, 0, 2) + m(a, 2, 1) * m(r, 1, 2) + m(a, 2, 2) * m(r, 2, 2), v.x, v.y, v.z, 2);
}
// The bones seen from both joints.
pub proof fn bones(j: IKTwoBoneJob, c: Chain)
    requires undoes(c.si, j.start_joint), undoes(c.mi, j.mid_joint), affine_last(j.start_joint), affine_last(j.mid_joint)
    ensures bone1(j, c) == out(j, c, bone1_ms(j, c)), bone2(j, c) == out(j, c, bone2_ms(j, c))
{
    let (s, mm_, e) = (pos(j.start_joint), pos(j.mid_joint), pos(j.end_joint));
    own_place(c.si, j.start_joint);
    own_place(c.mi, j.mid_joint);
    seen_apart(c.mi, mm_, s);
    seen_apart(c.mi, e, mm_);
    seen_apart(c.si, mm_, s);
    seen_apart(c.si, e, mm_);
    assert(bone1_ms(j, c) == lin(c.mi, minus(mm_, s)));
    assert(bone2_ms(j, c) == lin(c.mi, minus(e, mm_)));
    back_again(c.mi, j.mid_joint, minus(mm_, s));
    back_again(c.mi, j.mid_joint, minus(e, mm_));
}
//@ring gram ax ay az nx ny nz ex ey ez
    let s = ax * (ny * ez - nz * ey) + ay * (nz * ex - nx * ez) + az * (nx * ey - ny * ex);
    let aa = ax * ax + ay * ay + az * az; let nn = nx * nx + ny * ny + nz * nz; let ee = ex * ex + ey * ey + ez * ez;
    let an = ax * nx + ay * ny + az * nz; let ae = ax * ex + ay * ey + az * ez; let ne = nx * ex + ny * ey + nz * ez;
    s * s == aa * (nn * ee - ne * ne) - an * (an * ee - ne * ae) + ae * (an * ne - nn * ae);
    (ay * nz - az * ny) * ex + (az * nx - ax * nz) * ey + (ax * ny - ay * nx) * ez == s;
//@end
// A turn about the unit axis n of what is perpendicular to it.
pub proof fn turned_about(q: Q, n: W, e: W, th: real)
    requires turn_about(q, n, th), dt(n, n) == 1real, dt(n, e) == 0real
    ensures qq(q) == 1real, rt(q, e) == plus(by(rcos(th), e), by(rsin(th), cr(n, e)))
{
    let h = th * (1real / 2real);
    sin_cos_ax(h);
    sum_ax(h, h);
    assert(h + h == th);
    let (s, w) = (rsin(h), rcos(h));
    scaled_axis(s, n.x, n.y, n.z);
    one1(s * s, dt(n, n));
    assert(qq(q) == 1real);
    about_x(s, w, n.x, n.y, n.z, e.x, e.y, e.z);
    about_x(s, w, n.y, n.z, n.x, e.y, e.z, e.x);
    about_x(s, w, n.z, n.x, n.y, e.z, e.x, e.y);
    let (ct, st) = (rcos(th), rsin(th));
    assert(ct == 1real - 2real * (s * s)) ;
    assert(st == 2real * (w * s)) by (nonlinear_arith) requires st == s * w + w * s;
    let ne = n.x * e.x + n.y * e.y + n.z * e.z;
    zero1(ne, 2real * (s * s)); zero1(0real, n.x); zero1(0real, n.y); zero1(0real, n.z);
}
//@ring dot_parts ax ay az x y z p q r c s
    ax * (c * x + s * p) + ay * (c * y + s * q) + az * (c * z + s * r) == c * (ax * x + ay * y + az * z) + s * (ax * p + ay * q + az * r);
//@end
pub proof fn same_root(x: real, y: real) requires x >= 0real, x * x == y ensures rsqrt(y) == x
{
    assert(x * x >= 0real) by (nonlinear_arith);
    rsqrt_ax(y);
    let r = rsqrt(y);
    assert(r == x) by (nonlinear_arith) requires r * r == x * x, r >= 0real, x >= 0real;
}
// How far the second bone goes along the first one, once turned: the law of cosines.
pub proof fn hinge(q: Q, n: W, a: W, e: W, th: real, c: real, cosp: real)
    requires
        turn_about(q, n, th), dt(n, n) == 1real, dt(n, a) == 0real, dt(n, e) == 0real, !nul(a), !nul(e),
        cosp * (rsqrt(dt(a, a)) * rsqrt(dt(e, e))) == -dt(a, e),
        th == c - (if dt(cr(a, n), e) < 0real { -racos(cosp) } else { racos(cosp) }),
    ensures dt(a, rt(q, e)) == -(rsqrt(dt(a, a)) * rsqrt(dt(e, e)) * rcos(c)), -1real <= cosp <= 1real
{
    let (aa, ee, ae) = (dt(a, a), dt(e, e), dt(a, e));
    square_is_not_zero(a); square_is_not_zero(e);
    let ia = root_pos(aa);
    let ie = root_pos(ee);
    let (ra, re) = (rsqrt(aa), rsqrt(ee));
    let k = ra * re;
    assert(k > 0real) by (nonlinear_arith) requires k == ra * re, ra > 0real, re > 0real;
    assert(k * k == aa * ee) by (nonlinear_arith) requires k == ra * re, ra * ra == aa, re * re == ee;
    gram(a.x, a.y, a.z, n.x, n.y, n.z, e.x, e.y, e.z);
    let sg = dt(cr(a, n), e);
    dt_swap(n, a);
    let (an, ne, nn) = (dt(a, n), dt(n, e), dt(n, n));
    zero1(an, an * ee - ne * ae); zero1(an, ne); zero1(ne, ne);
    one1(ee, nn); one1(ae, nn);
    assert(sg * sg == aa * ee + ae * (0real - ae));
    assert(ae * (0real - ae) == -(ae * ae)) by (nonlinear_arith);
    assert(sg * sg >= 0real) by (nonlinear_arith);
    assert(-1real <= cosp <= 1real) by (nonlinear_arith) requires cosp * k == -ae, ae * ae <= k * k, k > 0real;
    let p = racos(cosp);
    acos_ax(cosp);
    sin_cos_ax(p);
    let sp = rsin(p);
    let (x, y) = (k * sp, cosp * k);
    assert(x * x == k * k * (sp * sp)) by (nonlinear_arith) requires x == k * sp;
    assert(y * y == k * k * (cosp * cosp)) by (nonlinear_arith) requires y == cosp * k;
    let (s2, c2) = (sp * sp, cosp * cosp);
    let kk = k * k;
    assert(kk * s2 + kk * c2 == kk) by (nonlinear_arith) requires s2 + c2 == 1real;
    assert(y * y == ae * ae) by (nonlinear_arith) requires y == -ae;
    assert(x * x == sg * sg);
    assert(x >= 0real) by (nonlinear_arith) requires x == k * sp, k > 0real, sp >= 0real;
    let psi = if sg < 0real { -p } else { p };
    neg_ax(p);
    assert(k * rsin(psi) == sg) by {
        if sg < 0real {
            assert(x == -sg) by (nonlinear_arith) requires x * x == sg * sg, x >= 0real, sg < 0real;
            assert(k * (-sp) == -(k * sp)) by (nonlinear_arith);
        } else { assert(x == sg) by (nonlinear_arith) requires x * x == sg * sg, x >= 0real, sg >= 0real; }
    }
    assert(rcos(psi) == cosp);
    turned_about(q, n, e, th);
    let ne_ = cr(n, e);
    dot_parts(a.x, a.y, a.z, e.x, e.y, e.z, ne_.x, ne_.y, ne_.z, rcos(th), rsin(th));
    assert(dt(a, rt(q, e)) == rcos(th) * ae + rsin(th) * sg);
    assert(th + psi == c);
    sum_ax(th, psi);
    along_first(rcos(th), rsin(th), cosp, rsin(psi), k, ae, sg);
}
pub proof fn along_first(ct: real, st: real, cp: real, sp: real, k: real, ae: real, sg: real)
    requires cp * k == -ae, k * sp == sg ensures ct * ae + st * sg == -(k * (ct * cp - st * sp))
{
    assert(ct * ae == -(k * (ct * cp))) by (nonlinear_arith) requires cp * k == -ae;
    assert(st * sg == k * (st * sp)) by (nonlinear_arith) requires k * sp == sg;
    assert(k * (ct * cp - st * sp) == k * (ct * cp) - k * (st * sp)) by (nonlinear_arith);
}

//@ring lagrange ax ay az ex ey ez
    let x = ay * ez - az * ey; let y = az * ex - ax * ez; let z = ax * ey - ay * ex;
    (ax * ax + ay * ay + az * az) * (ex * ex + ey * ey + ez * ez) - (ax * ex + ay * ey + az * ez) * (ax * ex + ay * ey + az * ez) == x * x + y * y + z * z;
//@end
pub proof fn schwarz(a: W, e: W) ensures dt(a, e) * dt(a, e) <= dt(a, a) * dt(e, e)
{ lagrange(a.x, a.y, a.z, e.x, e.y, e.z); square_is_not_zero(cr(a, e)); }
//@ring sum_len ax ay az bx by bz
    (ax + bx) * (ax + bx) + (ay + by) * (ay + by) + (az + bz) * (az + bz) == (ax * ax + ay * ay + az * az) + 2real * (ax * bx + ay * by + az * bz) + (bx * bx + by * by + bz * bz);
//@end
pub proof fn sum_length(a: W, b: W) ensures dt(plus(a, b), plus(a, b)) == dt(a, a) + 2real * dt(a, b) + dt(b, b)
{ sum_len(a.x, a.y, a.z, b.x, b.y, b.z); }
//@ring sum_dots ax ay az bx by bz x y z
    (ax + bx) * x + (ay + by) * y + (az + bz) * z == (ax * x + ay * y + az * z) + (bx * x + by * y + bz * z);
//@end
pub proof fn sum_dot(a: W, b: W, k: W) ensures dt(plus(a, b), k) == dt(a, k) + dt(b, k)
{ sum_dots(a.x, a.y, a.z, b.x, b.y, b.z, k.x, k.y, k.z); }
// The cosine of the angle between the bones, from the lengths of the triangle.
pub proof fn cos_of_chain(a: W, e: W, s2: real, l1: real, l2: real, e2: real) -> (h: real)
    requires !nul(a), !nul(e), s2 > 0real, l1 == s2 * dt(a, a), l2 == s2 * dt(e, e), e2 == l1 + 2real * (s2 * dt(a, e)) + l2
    ensures cos_mid(l1, l2, e2) * (rsqrt(dt(a, a)) * rsqrt(dt(e, e))) == -dt(a, e), h == rsqrt(l1 * l2), h > 0real,
        h == s2 * (rsqrt(dt(a, a)) * rsqrt(dt(e, e))), h == rsqrt(l1) * rsqrt(l2), rsqrt(l1) * rsqrt(l1) == l1, rsqrt(l2) * rsqrt(l2) == l2
{
    let (aa, ee, ae) = (dt(a, a), dt(e, e), dt(a, e));
    square_is_not_zero(a); square_is_not_zero(e);
    let ia = root_pos(aa);
    let ie = root_pos(ee);
    let (ra, re) = (rsqrt(aa), rsqrt(ee));
    let k = ra * re;
    schwarz(a, e);
    assert(k > 0real) by (nonlinear_arith) requires k == ra * re, ra > 0real, re > 0real;
    assert(k * k == aa * ee) by (nonlinear_arith) requires k == ra * re, ra * ra == aa, re * re == ee;
    let h = s2 * k;
    assert(h > 0real) by (nonlinear_arith) requires h == s2 * k, s2 > 0real, k > 0real;
    assert(h * h == (s2 * s2) * (k * k)) by (nonlinear_arith) requires h == s2 * k;
    assert(l1 * l2 == (s2 * s2) * (aa * ee)) by (nonlinear_arith) requires l1 == s2 * aa, l2 == s2 * ee;
    same_root(h, l1 * l2);
    assert(l1 > 0real) by (nonlinear_arith) requires l1 == s2 * aa, s2 > 0real, aa > 0real;
    assert(l2 > 0real) by (nonlinear_arith) requires l2 == s2 * ee, s2 > 0real, ee > 0real;
    let i1 = root_pos(l1);
    let i2 = root_pos(l2);
    let (r1, r2) = (rsqrt(l1), rsqrt(l2));
    let r = r1 * r2;
    assert(r > 0real) by (nonlinear_arith) requires r == r1 * r2, r1 > 0real, r2 > 0real;
    assert(r * r == l1 * l2) by (nonlinear_arith) requires r == r1 * r2, r1 * r1 == l1, r2 * r2 == l2;
    same_root(r, l1 * l2);
    let x = (l1 + l2 - e2) * (1real / 2real * (1real / h));
    let d = s2 * ae;
    assert(x * h == -d) by (nonlinear_arith) requires x == (l1 + l2 - e2) * (1real / 2real * (1real / h)), l1 + l2 - e2 == -(2real * d), h > 0real;
    assert(s2 * (x * k) == x * h) by (nonlinear_arith) requires h == s2 * k;
    assert(s2 * (-ae) == -d) by (nonlinear_arith) requires d == s2 * ae;
    undo(s2, x * k, -ae);
    assert(-1real <= x <= 1real) by (nonlinear_arith) requires x * k == -ae, ae * ae <= k * k, k > 0real;
    h
}
// From a target length to the length of the chain.
pub proof fn chain_length(l1: real, l2: real, t2: real, h: real, r1: real, r2: real)
    requires h == rsqrt(l1 * l2), h > 0real, h == r1 * r2, r1 * r1 == l1, r2 * r2 == l2
    ensures l1 + l2 - 2real * (h * cos_mid(l1, l2, t2)) == clamp(t2, (r1 - r2) * (r1 - r2), (r1 + r2) * (r1 + r2)), -1real <= cos_mid(l1, l2, t2) <= 1real
{
    let u = l1 + l2 - t2;
    let x = u * (1real / 2real * (1real / h));
    assert(2real * (h * x) == u) by (nonlinear_arith) requires x == u * (1real / 2real * (1real / h)), h > 0real;
    assert((r1 - r2) * (r1 - r2) == l1 + l2 - 2real * h) by (nonlinear_arith) requires h == r1 * r2, r1 * r1 == l1, r2 * r2 == l2;
    assert((r1 + r2) * (r1 + r2) == l1 + l2 + 2real * h) by (nonlinear_arith) requires h == r1 * r2, r1 * r1 == l1, r2 * r2 == l2;
    assert(x < -1real <==> u < -(2real * h)) by (nonlinear_arith) requires 2real * (h * x) == u, h > 0real;
    assert(x > 1real <==> u > 2real * h) by (nonlinear_arith) requires 2real * (h * x) == u, h > 0real;
    assert(h * 1real == h && h * (-1real) == -h) by (nonlinear_arith);
}
// A target the chain can reach keeps its place and its length.
pub proof fn within_reach(t: W, r1: real, r2: real, soften: real, s: W, len2: real)
    requires softened(t, r1, r2, soften, true, s, len2), r1 > 0real, r2 > 0real
    ensures s == t, len2 == dt(t, t), clamp(len2, (r1 - r2) * (r1 - r2), (r1 + r2) * (r1 + r2)) == len2
{
    let d = rsqrt(dt(t, t));
    square_is_not_zero(t);
    rsqrt_ax(dt(t, t));
    let c = clamp(soften, 0real, 1real);
    let l = r1 + r2;
    assert(l * c <= l) by (nonlinear_arith) requires 0real <= c <= 1real, l > 0real;
    assert(d * d <= l * l) by (nonlinear_arith) requires 0real <= d <= l;
    let e = rabs(r1 - r2);
    assert(e * e <= d * d) by (nonlinear_arith) requires 0real <= e <= d;
    assert(e * e == (r1 - r2) * (r1 - r2)) by (nonlinear_arith) requires e == r1 - r2 || e == -(r1 - r2);
}
pub proof fn positive_lengths(j: IKTwoBoneJob, c: Chain, s2: real)
    requires good_chain(j, c, s2), bone1(j, c) == out(j, c, bone1_ms(j, c)), bone2(j, c) == out(j, c, bone2_ms(j, c))
    ensures
        ({ let (a, e, b1, b2) = (bone1_ms(j, c), bone2_ms(j, c), bone1(j, c), bone2(j, c));
           dt(b1, b1) == s2 * dt(a, a) && dt(b2, b2) == s2 * dt(e, e) && dt(tip(j, c), tip(j, c)) == dt(b1, b1) + 2real * (s2 * dt(a, e)) + dt(b2, b2)
           && rsqrt(dt(b1, b1)) > 0real && rsqrt(dt(b2, b2)) > 0real })
{
    let (a, e, b1, b2) = (bone1_ms(j, c), bone2_ms(j, c), bone1(j, c), bone2(j, c));
    assert(keeps(j, c, s2, a, a) && keeps(j, c, s2, e, e) && keeps(j, c, s2, a, e));
    assert(tip(j, c) == plus(b1, b2));
    sum_length(b1, b2);
    square_is_not_zero(a); square_is_not_zero(e);
    let (aa, ee) = (dt(a, a), dt(e, e));
    assert(s2 * aa > 0real) by (nonlinear_arith) requires s2 > 0real, aa > 0real;
    assert(s2 * ee > 0real) by (nonlinear_arith) requires s2 > 0real, ee > 0real;
    let i1 = root_pos(dt(b1, b1));
    let i2 = root_pos(dt(b2, b2));
}
// The middle joint's turn makes the chain as long as the target is far.
pub proof fn bends(j: IKTwoBoneJob, r: IKTwoBoneJob, c: Chain, p: Plan, s2: real)
    requires planned(j, r, c, p), inverses(j, c), good_chain(j, c, s2)
    ensures
        ({ let (b1, b2, g) = (bone1(j, c), bone2(j, c), bent(j, c, p.mid));
           let (l1, l2) = (rsqrt(dt(b1, b1)), rsqrt(dt(b2, b2)));
           dt(minus(g, b1), minus(g, b1)) == dt(b2, b2) && dt(g, g) == clamp(p.len2, (l1 - l2) * (l1 - l2), (l1 + l2) * (l1 + l2)) && l1 > 0real && l2 > 0real
           && dt(g, out(j, c, w3(j.mid_axis))) == 0real && !nul(out(j, c, w3(j.mid_axis))) })
{
    let (a, e, b1, b2, n, g) = (bone1_ms(j, c), bone2_ms(j, c), bone1(j, c), bone2(j, c), w3(j.mid_axis), bent(j, c, p.mid));
    inverse_undoes(c.si, j.start_joint);
    inverse_undoes(c.mi, j.mid_joint);
    bones(j, c);
    positive_lengths(j, c, s2);
    let (l1, l2, e2) = (dt(b1, b1), dt(b2, b2), dt(tip(j, c), tip(j, c)));
    let h = cos_of_chain(a, e, s2, l1, l2, e2);
    let k = rsqrt(dt(a, a)) * rsqrt(dt(e, e));
    let cc = racos(cos_mid(l1, l2, p.len2));
    let th = mid_angle(n, a, e, l1, l2, e2, p.len2);
    hinge(p.mid, n, a, e, th, cc, cos_mid(l1, l2, e2));
    turned_about(p.mid, n, e, th);
    let x = rt(p.mid, e);
    let f = out(j, c, x);
    assert(keeps(j, c, s2, a, x) && keeps(j, c, s2, x, x) && keeps(j, c, s2, a, n) && keeps(j, c, s2, x, n) && keeps(j, c, s2, n, n));
    dots(p.mid, e, e);
    assert(dt(f, f) == l2);
    assert(g == plus(b1, f));
    assert(minus(g, b1) == f);
    sum_length(b1, f);
    chain_length(l1, l2, p.len2, h, rsqrt(l1), rsqrt(l2));
    acos_ax(cos_mid(l1, l2, p.len2));
    let cv = cos_mid(l1, l2, p.len2);
    assert(s2 * (k * cv) == h * cv && s2 * (-(k * cv)) == -(s2 * (k * cv))) by (nonlinear_arith) requires h == s2 * k;
    assert(dt(g, g) == l1 + 2real * (s2 * dt(a, x)) + l2);
    // perpendicular to the axis
    sum_dot(b1, f, out(j, c, n));
    still_axis(p.mid, n, th);
    dots(p.mid, e, n);
    dt_swap(n, a); dt_swap(n, e);
    zero1(0real, s2);
    one1(s2, dt(n, n));
    if nul(out(j, c, n)) { let o = out(j, c, n); zero1(o.x, o.x); zero1(o.y, o.y); zero1(o.z, o.z); }
}
pub proof fn still_axis(q: Q, n: W, th: real) requires turn_about(q, n, th) ensures rt(q, n) == n
{ let s = rsin(th * (1real / 2real)); scaled_axis(s, n.x, n.y, n.z); kept(q, n); }
pub proof fn reaches(j: IKTwoBoneJob, r: IKTwoBoneJob, c: Chain, p: Plan, s2: real)
    requires planned(j, r, c, p), inverses(j, c), good_chain(j, c, s2)
    ensures delivers(j, c, p)
{
    bends(j, r, c, p, s2);
    let (b1, b2, g, t) = (bone1(j, c), bone2(j, c), bent(j, c, p.mid), pt(c.si, w3(j.target)));
    if p.reached { within_reach(t, rsqrt(dt(b1, b1)), rsqrt(dt(b2, b2)), j.soften.v(), p.t, p.len2); }
}

impl IKConstantSetup {
//@fn src/ik_two_bone_job.rs IKConstantSetup::new
//@sub IKConstantSetup \{\n\s*inv_start_joint, ==> let r = IKConstantSetup { inv_start_joint,
//@sub (start_end_ss_len2: vec3_length2_s\(start_end_ss\)),[^\n]*\n\s*\} ==> \1 }; proof { let c = Chain { si: inv_start_joint, mi: inv_mid_joint }; assert(set_up(r, *job, c) && inverses(*job, c)); } r
//@ret r
//@spec
    ensures exists|c: Chain| #[trigger] set_up(r, *job, c) && inverses(*job, c)
//@begin
    broadcast use words;
//@end
}
impl IKTwoBoneJob {
//@fn src/ik_two_bone_job.rs IKTwoBoneJob::validate
//@ret r
//@spec
    ensures r == (998real / 1000real < dot3(self.mid_axis, self.mid_axis) && dot3(self.mid_axis, self.mid_axis) < 1002real / 1000real)
//@end
//@fn src/ik_two_bone_job.rs IKTwoBoneJob::soften_target
//@ret r
//@spec
    ensures softened(pt(setup.inv_start_joint, w3(self.target)), rsqrt(setup.start_mid_ss_len2.l(0)), rsqrt(setup.mid_end_ss_len2.l(0)), self.soften.v(),
        r.0, w3(r.1), r.2.l(0))
//@after let da
    proof {
        let chain = bones_chain_len;
        zero1(0real, chain.l(1)); zero1(0real, chain.l(2)); zero1(0real, chain.l(3));
        assert(da.l(1) == 0real && da.l(3) == 0real);
        scaled_target(0real, w3(start_target_original_ss));
        let t = w3(start_target_original_ss);
        assert(t == pt(setup.inv_start_joint, w3(self.target)));
        assert(dot3(start_target_original_ss, start_target_original_ss) == dt(t, t));
    }
//@after start_target_ss = start_target_original_ss *
    proof { scaled_target(start_target_ss_len.l(0) * (1real / start_target_original_ss_len.l(0)), w3(start_target_original_ss)); }
//@end
//@fn src/ik_two_bone_job.rs IKTwoBoneJob::compute_mid_joint
//@ret r
//@spec
    ensures turn_about(q4(r), w3(self.mid_axis), mid_angle(w3(self.mid_axis), w3(setup.start_mid_ms), w3(setup.mid_end_ms),
        setup.start_mid_ss_len2.l(0), setup.mid_end_ss_len2.l(0), setup.start_end_ss_len2.l(0), start_target_ss_len2.l(0)))
//@begin
    broadcast use words;
//@after let mid_angles_diff
    proof { scaled_target(rsin(mid_angles_diff.l(0) * (1real / 2real)), w3(self.mid_axis)); }
//@end
//@fn src/ik_two_bone_job.rs IKTwoBoneJob::compute_start_joint
//@ret r
//@spec
    requires start_target_ss_len2.l(0) == dt(w3(start_target_ss), w3(start_target_ss))
    ensures
        ({ let (inv, t) = (setup.inv_start_joint, w3(start_target_ss));
           let g = plus(w3(setup.start_mid_ss), lin(inv, lin(self.mid_joint, rt(q4(mid_rot_ms), w3(setup.mid_end_ms)))));
           let (k, p) = (lin(inv, lin(self.mid_joint, w3(self.mid_axis))), lin(inv, w3(self.pole_vector)));
           started(q4(r), g, k, p, t, self.twist_angle.v()) })
//@begin
    broadcast use words;
    let ghost t = w3(start_target_ss);
    let ghost p = lin(setup.inv_start_joint, w3(self.pole_vector));
    let ghost k = lin(setup.inv_start_joint, lin(self.mid_joint, w3(self.mid_axis)));
    proof { square_is_not_zero(t); if dt(t, t) == 0real { square_is_zero(t); } }
//@after let mut start_rot_ss
    let ghost g = plus(w3(setup.start_mid_ss), lin(setup.inv_start_joint, lin(self.mid_joint, rt(q4(mid_rot_ms), w3(setup.mid_end_ms)))));
    let ghost q0 = q4(end_to_target_rot_ss);
    proof {
        assert(w3(start_end_ss_final) == g);
        aimed_at(end_to_target_rot_ss, start_end_ss_final, start_target_ss);
        unit_left(q0);
        if nul(t) { zero1(t.x, t.x); zero1(t.y, t.y); zero1(t.z, t.z); assert(placed(q0, unit(), q0, g, k, p, t, self.twist_angle.v())); assert(started(q0, g, k, p, t, self.twist_angle.v())); }
    }
//@after let rotate_plane_ss
    let ghost rp = q4(rotate_plane_ss);
    let ghost angle = self.twist_angle.v();
    let ghost tw = twist_of(t, angle);
    proof {
        let (j, r) = (w3(joint_plane_normal_ss), w3(ref_plane_normal_ss));
        assert(j == rt(q0, k) && r == cr(t, p) && w3(pole_ss) == p);
        dt_swap_lanes(r, j, 1real / rsqrt(dt(r, r)), 1real / rsqrt(dt(j, j)));
        assert(plane_lanes(rp, t, cos_between(j, r), dt(j, p) < 0real));
        if angle == 0real { unit_left(rp); zero1(0real, t.x); zero1(0real, t.y); zero1(0real, t.z); } else { twist_quat(tw, t, angle); }
        place(g, k, p, t, q0, rp, tw, mq(mq(tw, rp), q0), angle);
        assert(started(mq(mq(tw, rp), q0), g, k, p, t, angle));
    }
//@after start_rot_ss = quat_mul(quat_mul(twist_ss
    proof {
        let s = rsin(angle * (1real / 2real));
        assert(q4(start_rot_ss) == mq(mq(tw, rp), q0));
    }
//@after start_rot_ss = quat_mul(rotate_plane_ss
    proof { assert(q4(start_rot_ss) == mq(mq(tw, rp), q0)); }
//@end
//@fn src/ik_two_bone_job.rs IKTwoBoneJob::run
//@sub Ok\(\(\)\)\s*$ ==> proof { assert(planned(job, *self, c, plan)); assert forall|s2: real| good_chain(job, c, s2) implies delivers(job, c, plan) by { reaches(job, *self, c, plan, s2); } assert(solved(job, *self, c)); assert(inverses(job, c)); assert(job == *old(self)); } Ok(())
//@ret res
//@spec
    ensures
        // C19: runs exactly when valid, and otherwise changes nothing
        res is Ok <==> 998real / 1000real < dot3(old(self).mid_axis, old(self).mid_axis) && dot3(old(self).mid_axis, old(self).mid_axis) < 1002real / 1000real,
        res is Err ==> res->Err_0 is InvalidJob && *final(self) == *old(self),
        inputs_kept(*old(self), *final(self)),
        // nothing to correct without weight
        res is Ok && old(self).weight.v() <= 0real ==> q4(final(self).start_joint_correction) == unit() && q4(final(self).mid_joint_correction) == unit() && !final(self).reached,
        res is Ok && old(self).weight.v() > 0real ==> exists|c: Chain| inverses(*old(self), c) && #[trigger] solved(*old(self), *final(self), c)
//@begin
    broadcast use words;
    let ghost job = *self;
//@after let setup
    let ghost c = choose|c: Chain| #[trigger] set_up(setup, *self, c) && inverses(*self, c);
//@after let (lreached
    let ghost len2 = start_target_ss_len2.l(0);
    let ghost (b1, b2) = (bone1(job, c), bone2(job, c));
    proof { soft_length(pt(c.si, w3(job.target)), rsqrt(dt(b1, b1)), rsqrt(dt(b2, b2)), job.soften.v(), lreached, w3(start_target_ss), len2); }
//@after let start_rot_ss
    let ghost (t, full, mid) = (w3(start_target_ss), q4(start_rot_ss), q4(mid_rot_ms));
    let ghost (g, k, pole) = (bent(job, c, mid), out(job, c, w3(job.mid_axis)), lin(c.si, w3(job.pole_vector)));
    proof { assert(started(full, g, k, pole, t, job.twist_angle.v())); }
    let ghost (tw, q) = choose|tw: Q, q: Q| #[trigger] placed(full, tw, q, g, k, pole, t, job.twist_angle.v());
    let ghost plan = Plan { reached: lreached, t, len2, mid, full, tw, q };
//@end
//@fn src/ik_two_bone_job.rs IKTwoBoneJob::weight_output
//@spec
    ensures
        faded(q4(final(self).start_joint_correction), front(q4(start_rot)), old(self).weight.v()),
        faded(q4(final(self).mid_joint_correction), front(q4(mid_rot)), old(self).weight.v()),
        inputs_kept(*old(self), *final(self)), final(self).reached == old(self).reached
//@begin
    broadcast use words;
    proof { zero1(0real, rmax(self.weight.v(), 0real)); }
//@end
}
}
