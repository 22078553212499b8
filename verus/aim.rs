// C16, C19: the aim IK job, over the real numbers.
#![allow(non_camel_case_types, non_snake_case, unused)]
use vstd::prelude::*;
//@include simd.rs
//@include bitmask.rs
verus! {
use sd::*;
broadcast use sd::ops;
//@use kernel
//@use quats
//@use mats
//@use turns
//@real

pub enum OzzError { InvalidJob }
impl AosMat4 {
// By contract here; proved by engine/straight.py.
#[verifier::external_body]
pub fn invert(&self) -> (r: AosMat4) ensures det(*self) != 0real ==> is_inverse(r, *self) { unimplemented!() }
}

//@ring plane ux uy uz px py pz tx ty tz
    let jx = uy * tz - uz * ty; let jy = uz * tx - ux * tz; let jz = ux * ty - uy * tx;
    let rx = py * tz - pz * ty; let ry = pz * tx - px * tz; let rz = px * ty - py * tx;
    let al = jx * rx + jy * ry + jz * rz; let be = rx * ux + ry * uy + rz * uz;
    let jj = jx * jx + jy * jy + jz * jz;
    jj * (rx * rx + ry * ry + rz * rz) - al * al == be * be * (tx * tx + ty * ty + tz * tz);
    jj * rx == al * jx + be * (ty * jz - tz * jy);
    tx * jx + ty * jy + tz * jz == 0real;
//@end
// The normals u x t and p x t.
pub proof fn plane_normals(u: W, p: W, t: W) ensures normals(cr(u, t), cr(p, t), t, dt(cr(p, t), u))
{
    plane(u.x, u.y, u.z, p.x, p.y, p.z, t.x, t.y, t.z);
    plane(u.y, u.z, u.x, p.y, p.z, p.x, t.y, t.z, t.x);
    plane(u.z, u.x, u.y, p.z, p.x, p.y, t.z, t.x, t.y);
}
// --- what the job promises

//@item src/ik_aim_job.rs struct IKAimJob
//@sub (?m)^(\s+)(\w+): ==> \1pub \2:
//@end

// A point and a direction, seen from the joint whose matrix has the inverse a.
pub open spec fn at(a: AosMat4, p: f32x4) -> W { W {
    x: p.l(0) * m(a, 0, 0) + p.l(1) * m(a, 0, 1) + p.l(2) * m(a, 0, 2) + m(a, 0, 3),
    y: p.l(0) * m(a, 1, 0) + p.l(1) * m(a, 1, 1) + p.l(2) * m(a, 1, 2) + m(a, 1, 3),
    z: p.l(0) * m(a, 2, 0) + p.l(1) * m(a, 2, 1) + p.l(2) * m(a, 2, 2) + m(a, 2, 3) } }
pub open spec fn along(a: AosMat4, p: f32x4) -> W { W {
    x: m(a, 0, 0) * p.l(0) + m(a, 0, 1) * p.l(1) + m(a, 0, 2) * p.l(2),
    y: m(a, 1, 0) * p.l(0) + m(a, 1, 1) * p.l(1) + m(a, 1, 2) * p.l(2),
    z: m(a, 2, 0) * p.l(0) + m(a, 2, 1) * p.l(1) + m(a, 2, 2) * p.l(2) } }
// How far the line from o along f passes from the joint (squared), and the point of it at the distance of t.
pub open spec fn miss2(f: W, o: W) -> real { dt(o, o) - dt(f, o) * dt(f, o) }
pub open spec fn sight(f: W, o: W, t: W) -> W { plus(o, by(rsqrt(dt(t, t) - miss2(f, o)) - dt(f, o), f)) }
// q turns u into the half plane of p beside t.
pub open spec fn keeps_up(q: Q, u: W, p: W, t: W) -> bool {
    !nul(cr(p, t)) ==> exists|k: real| k >= 0real && cr(rt(q, u), t) == #[trigger] by(k, cr(p, t))
}
// The full correction: aims, keeps the up vector on the side of the pole, then twists about the line to the target.
pub open spec fn corrects(full: Q, tw: Q, q: Q, f: W, o: W, u: W, p: W, t: W, angle: real) -> bool {
    &&& qq(full) == 1real && qq(q) == 1real && qq(tw) == 1real && full.w >= 0real && (full == mq(tw, q) || full == opp(mq(tw, q)))
    &&& onto(q, sight(f, o, t), t) && keeps_up(q, u, p, t) && is_twist(tw, t, angle)
    &&& onto(full, sight(f, o, t), t) && (angle == 0real ==> keeps_up(full, u, p, t))
}
pub open spec fn part(full: Q, a: real) -> Q { Q { x: full.x * a, y: full.y * a, z: full.z * a, w: 1real + (full.w - 1real) * a } }
pub open spec fn faded(c: Q, full: Q, w: real) -> bool {
    if w >= 1real { c == full } else {
        let m = part(full, rmax(w, 0real));
        let k = 1real / rsqrt(qq(m));
        c == Q { x: m.x * k, y: m.y * k, z: m.z * k, w: m.w * k }
    }
}
pub open spec fn aimed(j: IKAimJob, r: IKAimJob, inv: AosMat4) -> bool {
    let (f, o, u) = (w3(j.forward), w3(j.offset), w3(j.up));
    let (t, p) = (at(inv, j.target), along(inv, j.pole_vector));
    &&& r.reached == (miss2(f, o) <= dt(t, t))
    &&& if !r.reached || nul(t) { q4(r.joint_correction) == unit() } else { corrected(j, q4(r.joint_correction), p, t) }
}
pub open spec fn corrected(j: IKAimJob, c: Q, p: W, t: W) -> bool {
    exists|full: Q, tw: Q, q: Q| #[trigger] corrects(full, tw, q, w3(j.forward), w3(j.offset), w3(j.up), p, t, j.twist_angle.v()) && faded(c, full, j.weight.v())
}
// A forward axis of length one: the point aimed with is as far as the target.
pub proof fn sight_is_as_far(f: W, o: W, t: W)
    requires dt(f, f) == 1real, miss2(f, o) <= dt(t, t)
    ensures dt(sight(f, o, t), sight(f, o, t)) == dt(t, t)
{
    let e = dt(t, t) - miss2(f, o);
    rsqrt_ax(e);
    let s = rsqrt(e);
    let k = s - dt(f, o);
    expand(f.x, f.y, f.z, o.x, o.y, o.z, k);
    let g = sight(f, o, t);
    let (d, oo) = (dt(f, o), dt(o, o));
    assert(k * k * dt(f, f) == k * k) by (nonlinear_arith) requires dt(f, f) == 1real;
    assert(oo + 2real * k * d + k * k == oo - d * d + s * s) by (nonlinear_arith) requires k == s - d;
}
//@ring expand a b c x y z k
    (x + k * a) * (x + k * a) + (y + k * b) * (y + k * b) + (z + k * c) * (z + k * c) == (x * x + y * y + z * z) + 2real * k * (a * x + b * y + c * z) + k * k * (a * a + b * b + c * c);
//@end

// The parts of the correction: q0 from the line of sight to the target, rp about the target to the plane of the pole, tw.
proof fn assemble(f: W, o: W, u: W, p: W, t: W, q0: Q, rp: Q, tw: Q, full: Q, angle: real, k: real)
    requires
        !nul(t), qq(q0) == 1real, qq(rp) == 1real, qq(tw) == 1real, nul(cr(axis(rp), t)), nul(cr(axis(tw), t)),
        onto(q0, sight(f, o, t), t),
        k >= 0real, !nul(cr(p, t)) ==> rt(rp, cr(rt(q0, u), t)) == by(k, cr(p, t)),
        is_twist(tw, t, angle), full.w >= 0real, full == mq(mq(tw, rp), q0) || full == opp(mq(mq(tw, rp), q0)),
    ensures corrects(full, tw, mq(rp, q0), f, o, u, p, t, angle)
{
    let g = sight(f, o, t);
    let q = mq(rp, q0);
    unit_product(rp, q0);
    stays_onto(q0, rp, g, t);
    assoc(tw, rp, q0);
    unit_product(tw, q);
    stays_onto(q, tw, g, t);
    both_signs(mq(tw, q), g);
    both_signs(mq(tw, q), u);
    assert(onto(full, g, t));
    // the up vector
    kept(rp, t);
    composed(rp, q0, u);
    crossed(rp, rt(q0, u), t);
    if !nul(cr(p, t)) { assert(cr(rt(q, u), t) == by(k, cr(p, t))); }
    assert(keeps_up(q, u, p, t));
    if angle == 0real { unit_left(q); assert(rt(full, u) == rt(q, u)); assert(keeps_up(full, u, p, t)); }
}
impl IKAimJob {
//@fn src/ik_aim_job.rs IKAimJob::validate
//@ret r
//@spec
    ensures r == (998real / 1000real < dot3(self.forward, self.forward) && dot3(self.forward, self.forward) < 1002real / 1000real)
//@end
//@fn src/ik_aim_job.rs IKAimJob::compute_offsetted_forward
//@ret r
//@spec
    // `b - a * a` and the like are put in the words of the specification
    ensures match r {
        Some(g) => miss2(w3(forward), w3(offset)) <= dt(w3(target), w3(target)) && w3(g) == sight(w3(forward), w3(offset), w3(target)),
        None => miss2(w3(forward), w3(offset)) > dt(w3(target), w3(target)),
    }
//@begin
    proof {
        let (f, o, t) = (w3(forward), w3(offset), w3(target));
        assert(dot3(forward, offset) == dt(f, o) && dot3(offset, offset) == dt(o, o) && dot3(target, target) == dt(t, t));
        let k = rsqrt(dt(t, t) - miss2(f, o)) - dt(f, o);
        assert(f.x * k == k * f.x && f.y * k == k * f.y && f.z * k == k * f.z) by (nonlinear_arith);
    }
//@end
//@fn src/ik_aim_job.rs IKAimJob::run
//@sub Ok\(\(\)\)\s*$ ==> proof { assert(corrected(job, q4(self.joint_correction), along(inv_joint, job.pole_vector), at(inv_joint, job.target))); } Ok(())
//@ret res
//@spec
    ensures
        // C19: runs exactly when valid, and otherwise changes nothing
        res is Ok <==> 998real / 1000real < dot3(old(self).forward, old(self).forward) && dot3(old(self).forward, old(self).forward) < 1002real / 1000real,
        res is Err ==> res->Err_0 is InvalidJob && *final(self) == *old(self),
        res is Ok && det(old(self).joint) != 0real ==> exists|inv: AosMat4| #[trigger] is_inverse(inv, old(self).joint) && aimed(*old(self), *final(self), inv),
        ({ let (a, b) = (*old(self), *final(self));
           a.target == b.target && a.forward == b.forward && a.offset == b.offset && a.up == b.up && a.pole_vector == b.pole_vector
           && a.twist_angle == b.twist_angle && a.weight == b.weight && a.joint == b.joint }),
//@begin
    broadcast use words;
//@after let joint_to_target_js_len2
    let ghost t = w3(joint_to_target_js);
    proof { assert(det(self.joint) != 0real ==> t == at(inv_joint, self.target)); if dt(t, t) == 0real { square_is_zero(t); } square_is_not_zero(t); }
//@after let twisted_fu
    proof {
        let (f, o, u, p) = (w3(self.forward), w3(self.offset), w3(self.up), w3(pole_vector_js));
        let (q0, rp) = (q4(joint_to_target_rot_js), q4(rotate_plane_js));
        let u1 = w3(corrected_up_js);
        aimed_at(joint_to_target_rot_js, offsetted_forward, joint_to_target_js);
        assert(u1 == rt(q0, u));
        let (j, r) = (cr(u1, t), cr(p, t));
        assert(j == w3(joint_normal_js) && r == w3(ref_joint_normal_js));
        square_is_not_zero(j); square_is_not_zero(r);
        let mut k = 0real;
        unit_left(q0);
        if !nul(j) && !nul(r) {
            plane_normals(u1, p, t);
            k = plane_quat(rp, j, r, t, dt(r, u1));
            let kk = plane_axis(rp, t, cos_between(j, r), dt(r, u1) < 0real);
        } else {
            if nul(j) { assert(dt(j, j) == 0real) by { zero1(j.x, j.x); zero1(j.y, j.y); zero1(j.z, j.z); } still(j); zero1(0real, r.x); zero1(0real, r.y); zero1(0real, r.z); }
            if nul(r) { assert(dt(r, r) == 0real) by { zero1(r.x, r.x); zero1(r.y, r.y); zero1(r.z, r.z); } }
            assert(rp == unit());
            still(t);
        }
        let angle = self.twist_angle.v();
        let tw = if angle == 0real { unit() } else {
            let it = 1real / rsqrt(dt(t, t)); let s = rsin(angle * (1real / 2real));
            Q { x: (t.x * it) * s, y: (t.y * it) * s, z: (t.z * it) * s, w: rcos(angle * (1real / 2real)) } };
        if angle == 0real { unit_left(rp); zero1(0real, t.x); zero1(0real, t.y); zero1(0real, t.z); } else { twist_quat(tw, t, angle); }
        assert(q4(twisted) == mq(mq(tw, rp), q0));
        assemble(f, o, u, p, t, q0, rp, tw, q4(twisted_fu), angle, k);
    }
    let ghost tw = if self.twist_angle.v() == 0real { unit() } else {
        let it = 1real / rsqrt(dt(t, t)); let s = rsin(self.twist_angle.v() * (1real / 2real));
        Q { x: (t.x * it) * s, y: (t.y * it) * s, z: (t.z * it) * s, w: rcos(self.twist_angle.v() * (1real / 2real)) } };
    let ghost full = q4(twisted_fu);
    let ghost q = mq(q4(rotate_plane_js), q4(joint_to_target_rot_js));
    let ghost job = *self;
    proof { assert(corrects(full, tw, q, w3(self.forward), w3(self.offset), w3(self.up), w3(pole_vector_js), t, self.twist_angle.v()));
        assert(w3(pole_vector_js) == along(inv_joint, self.pole_vector));
        assert(t == at(inv_joint, self.target));
        assert(!nul(t));
        assert(self.reached == (miss2(w3(self.forward), w3(self.offset)) <= dt(t, t)));
    }
//@after self.joint_correction = quat_normalize(
    proof {
        let a = rmax(job.weight.v(), 0real);
        zero1(0real, a);
        assert(faded(q4(self.joint_correction), full, job.weight.v()));
    }
//@end
}
}
