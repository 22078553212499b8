//! C15 two-bone IK, C16 aim IK: the geometric contract evaluated in f64 on the outputs of the real jobs.
use crate::pose::{m64, M};
use crate::rng::Rng;
use crate::{check, note, R};
use glam::{Mat4, Quat, Vec3, Vec3A};
use ozz_animation_rs::*;

type V = [f64; 3];

fn v(a: Vec3A) -> V {
    [a.x as f64, a.y as f64, a.z as f64]
}
fn add(a: V, b: V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn sc(a: V, k: f64) -> V {
    [a[0] * k, a[1] * k, a[2] * k]
}
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn len(a: V) -> f64 {
    dot(a, a).sqrt()
}
fn unit(a: V) -> V {
    sc(a, 1.0 / len(a))
}
fn dist(a: V, b: V) -> f64 {
    len(sub(a, b))
}
fn q4(q: Quat) -> [f64; 4] {
    [q.x as f64, q.y as f64, q.z as f64, q.w as f64]
}
fn qn(q: [f64; 4]) -> [f64; 4] {
    let l = q.iter().map(|a| a * a).sum::<f64>().sqrt();
    q.map(|a| a / l)
}
fn rot(q: [f64; 4], p: V) -> V {
    let u = [q[0], q[1], q[2]];
    let t = sc(cross(u, p), 2.0);
    add(add(p, sc(t, q[3])), cross(u, t))
}
fn conj(q: [f64; 4]) -> [f64; 4] {
    [-q[0], -q[1], -q[2], q[3]]
}
fn axis_angle(a: V, ang: f64) -> [f64; 4] {
    let s = (ang * 0.5).sin();
    [a[0] * s, a[1] * s, a[2] * s, (ang * 0.5).cos()]
}
fn point(m: &M, p: V) -> V {
    add([m[12], m[13], m[14]], vect(m, p))
}
fn vect(m: &M, p: V) -> V {
    std::array::from_fn(|r| m[r] * p[0] + m[4 + r] * p[1] + m[8 + r] * p[2])
}
/// Inverse of an affine matrix.
fn inv(m: &M) -> M {
    let c = [[m[0], m[1], m[2]], [m[4], m[5], m[6]], [m[8], m[9], m[10]]];
    let d = dot(c[0], cross(c[1], c[2]));
    let rows = [
        sc(cross(c[1], c[2]), 1.0 / d),
        sc(cross(c[2], c[0]), 1.0 / d),
        sc(cross(c[0], c[1]), 1.0 / d),
    ];
    let mut o = [0.0; 16];
    for col in 0..3 {
        for r in 0..3 {
            o[col * 4 + r] = rows[r][col];
        }
    }
    let t = [m[12], m[13], m[14]];
    for r in 0..3 {
        o[12 + r] = -dot(rows[r], t);
    }
    o[15] = 1.0;
    o
}

fn quat(r: &mut Rng) -> Quat {
    let q = r.unit_quat();
    Quat::from_xyzw(q[0], q[1], q[2], q[3]).normalize()
}

fn uvec(r: &mut Rng) -> Vec3A {
    let u = r.unit_vec3();
    if r.chance(1, 4) {
        *r.pick(&[Vec3A::X, Vec3A::Y, Vec3A::Z, -Vec3A::X, -Vec3A::Y, -Vec3A::Z])
    } else {
        Vec3A::from_array(u).normalize()
    }
}

fn perp(r: &mut Rng, a: Vec3A) -> Vec3A {
    loop {
        let c = a.cross(uvec(r));
        if c.length() > 0.2 {
            return c.normalize();
        }
    }
}

fn angle(r: &mut Rng) -> f32 {
    match r.below(5) {
        0 | 1 => 0.0,
        2 => *r.pick(&[std::f32::consts::PI, -std::f32::consts::PI, std::f32::consts::FRAC_PI_2]),
        3 => r.f(-12.0, 12.0),
        _ => r.f(-3.2, 3.2),
    }
}

fn is_quat(what: &str, q: Quat) -> R {
    let l = q4(q).iter().map(|a| a * a).sum::<f64>().sqrt();
    check!((l - 1.0).abs() < 2e-3, "{what} is not a rotation: {q:?} (length {l})");
    Ok(())
}

fn blend(full: Quat, w: f32) -> [f64; 4] {
    let f = q4(full);
    let w = w as f64;
    qn([f[0] * w, f[1] * w, f[2] * w, 1.0 + (f[3] - 1.0) * w])
}

fn near4(a: [f64; 4], b: [f64; 4], tol: f64) -> bool {
    (0..4).all(|i| (a[i] - b[i]).abs() <= tol)
}

pub fn c15(r: &mut Rng, _: u64) -> R {
    // Mid joint frame: the two bones are perpendicular to the mid axis.
    let axis = uvec(r);
    let u = perp(r, axis);
    let w = axis.cross(u);
    let equal = r.chance(1, 3);
    let l1 = r.f(0.4, 2.5);
    let l2 = if equal { l1 } else { r.f(0.4, 2.5) };
    let open = r.f(0.03, 3.10) * if r.chance(1, 2) { 1.0 } else { -1.0 };
    let start_ms = u * l1;
    let end_ms = (u * open.cos() + w * open.sin()) * l2;
    let scale = if r.chance(1, 2) { 1.0 } else { r.f(0.3, 3.0) };
    let place = Mat4::from_scale_rotation_translation(
        Vec3::splat(scale),
        if r.chance(1, 5) { Quat::IDENTITY } else { quat(r) },
        Vec3::new(r.f(-4.0, 4.0), r.f(-4.0, 4.0), r.f(-4.0, 4.0)),
    );
    let mid = place;
    let start_scale = if r.chance(1, 2) { scale } else { r.f(0.3, 3.0) };
    let start = Mat4::from_scale_rotation_translation(
        Vec3::splat(start_scale),
        quat(r),
        mid.transform_point3(Vec3::from(start_ms)),
    );
    let end = Mat4::from_rotation_translation(quat(r), mid.transform_point3(Vec3::from(end_ms)));
    let (s, m, e) = (m64(&start), m64(&mid), m64(&end));
    let spos = [s[12], s[13], s[14]];
    let mpos = [m[12], m[13], m[14]];
    let epos = [e[12], e[13], e[14]];
    let (b1, b2) = (dist(spos, mpos), dist(mpos, epos));
    let chain = b1 + b2;

    // Target at a chosen distance.
    let d = match r.below(6) {
        0 => (chain * r.f(1.05, 3.0) as f64) as f32,
        1 => ((b1 - b2).abs() * r.f(0.1, 0.95) as f64) as f32,
        _ => ((b1 - b2).abs() + (chain - (b1 - b2).abs()) * r.f(0.02, 0.98) as f64) as f32,
    };
    let dir = uvec(r);
    let target = Vec3A::new(spos[0] as f32, spos[1] as f32, spos[2] as f32) + dir * d;
    // A pole vector along the target direction leaves the plane undefined (documented as the caller's concern).
    let pole = loop {
        let p = uvec(r);
        if p.cross(dir).length() > 0.05 {
            break p * r.f(0.5, 2.0);
        }
    };
    let twist = angle(r);
    let soften = match r.below(6) {
        0 | 1 | 2 => 1.0,
        3 => r.f(-1.0, 2.0),
        _ => r.f(0.0, 1.0),
    };

    let mut j = IKTwoBoneJob::default();
    j.set_target(target);
    j.set_mid_axis(axis);
    j.set_pole_vector(pole);
    j.set_twist_angle(twist);
    j.set_soften(soften);
    j.set_start_joint(start);
    j.set_mid_joint(mid);
    j.set_end_joint(end);

    if r.chance(1, 16) {
        let bad = axis * *r.pick(&[0.5f32, 0.9, 1.1, 2.0, 0.0]);
        j.set_mid_axis(bad);
        let r = j.run();
        check!(matches!(r, Err(OzzError::InvalidJob)), "mid axis {bad} of length {} gives {r:?}", bad.length());
        check!(
            j.start_joint_correction() == Quat::IDENTITY && j.mid_joint_correction() == Quat::IDENTITY && !j.reached(),
            "a rejected job wrote its outputs"
        );
        return Ok(());
    }

    j.set_weight(*r.pick(&[1.0f32, 1.5]));
    j.run().map_err(|e| format!("run: {e:?}"))?;
    let (qs, qm) = (j.start_joint_correction(), j.mid_joint_correction());
    let ctx = || {
        format!(
            "start {start:?} mid {mid:?} end {end:?} target {target} axis {axis} pole {pole} twist {twist} soften {soften} -> start {qs:?} mid {qm:?} reached {}",
            j.reached()
        )
    };

    // Expected distance of the end joint from the start joint.
    let si = inv(&s);
    let t_ms = v(target);
    let t = sub(t_ms, spos);
    let td = len(t);
    let k = (soften as f64).clamp(0.0, 1.0);
    let (diff, da) = ((b1 - b2).abs(), chain * k);
    let ds = chain - da;
    let margin = 2e-3 * chain;
    let mut want = td;
    if td > da && ds > 1e-6 * chain {
        let a = (td - da) / ds + 3.0;
        want = da + ds - ds * 81.0 / (a * a * a * a);
        note("softened");
    }
    let want = want.clamp(diff, chain);
    if (td - diff).abs() > margin && (td - da).abs() > margin {
        let reach = td > diff && td <= da;
        check!(j.reached() == reach, "reached is {} for distance {td}, bones {b1} {b2}: {}", j.reached(), ctx());
        note(if reach { "reached" } else { "unreached" });
    }

    is_quat("start correction", qs).map_err(|e| e + ": " + &ctx())?;
    is_quat("mid correction", qm).map_err(|e| e + ": " + &ctx())?;
    check!(qs.w >= 0.0 && qm.w >= 0.0, "a full correction is not the shortest one: {}", ctx());

    // The mid joint rotates about its axis only.
    let qmv = [qm.x as f64, qm.y as f64, qm.z as f64];
    check!(len(cross(qmv, v(axis))) < 2e-3, "the mid correction is not about the mid axis: {}", ctx());

    // Forward kinematics with the corrections.
    let (qs64, qm64) = (qn(q4(qs)), qn(q4(qm)));
    let mi = inv(&m);
    let fin = |p_ms_end: V, p_mid: V| -> V {
        // end relative to mid, corrected, back to model, then into start space, corrected, back.
        let e1 = point(&m, rot(qm64, p_ms_end));
        let _ = p_mid;
        point(&s, rot(qs64, point(&si, e1)))
    };
    let end_in_mid = point(&mi, epos);
    let e2 = fin(end_in_mid, mpos);
    let m2 = point(&s, rot(qs64, point(&si, mpos)));
    let tol = 6e-3 * (chain + 0.1 * len(spos).max(len(t_ms)) * 1e-2);
    check!((dist(spos, m2) - b1).abs() < tol && (dist(m2, e2) - b2).abs() < tol, "bone lengths changed: {}", ctx());
    let real = dist(e2, spos);
    check!((real - want).abs() < tol, "the end joint is at {real} from the start joint, not {want}: {}", ctx());
    if want > 0.08 * chain && td > 0.08 * chain {
        let goal = add(spos, sc(t, want / td));
        check!(dist(e2, goal) < 2.0 * tol, "the end joint is at {e2:?}, not {goal:?}: {}", ctx());
        let n = cross(t, v(pole));
        let sinp = len(n) / (td * len(v(pole)));
        if sinp > 0.1 {
            note("plane checked");
            let got = unit(vect(&m, v(axis)));
            let got = unit(vect(&s, rot(qs64, vect(&si, got))));
            let exp = rot(axis_angle(unit(t), twist as f64), unit(n));
            check!(dist(got, exp) < 1e-2 / sinp.min(1.0), "the mid axis ends at {got:?}, not {exp:?}: {}", ctx());
        }
    }

    // Weights.
    let w = match r.below(6) {
        0 => 0.0,
        1 => r.f(-1.0, 0.0),
        _ => r.f(0.001, 0.999),
    };
    j.set_weight(w);
    j.run().map_err(|e| format!("run: {e:?}"))?;
    let (ws, wm) = (j.start_joint_correction(), j.mid_joint_correction());
    check!(!j.reached(), "reached with weight {w}");
    if w <= 0.0 {
        check!(ws == Quat::IDENTITY && wm == Quat::IDENTITY, "weight {w} gives {ws:?} {wm:?}");
    } else {
        let (es, em) = (blend(qs, w), blend(qm, w));
        check!(
            near4(q4(ws), es, 1e-4) && near4(q4(wm), em, 1e-4),
            "weight {w} gives {ws:?} {wm:?}, not {es:?} {em:?}: full {qs:?} {qm:?}"
        );
    }
    Ok(())
}

pub fn c16(r: &mut Rng, _: u64) -> R {
    let mut sc3 = Vec3::splat(if r.chance(1, 2) { 1.0 } else { r.f(0.3, 3.0) });
    if r.chance(1, 4) {
        sc3 = Vec3::new(r.f(0.4, 2.5), r.f(0.4, 2.5), r.f(0.4, 2.5));
    }
    if r.chance(1, 5) {
        sc3 = -sc3;
    }
    let joint = Mat4::from_scale_rotation_translation(
        sc3,
        if r.chance(1, 5) { Quat::IDENTITY } else { quat(r) },
        Vec3::new(r.f(-4.0, 4.0), r.f(-4.0, 4.0), r.f(-4.0, 4.0)),
    );
    let mm = m64(&joint);
    let mi = inv(&mm);
    let fwd = uvec(r);
    let up = if r.chance(1, 3) { perp(r, fwd) } else { uvec(r) * r.f(0.5, 2.0) };
    let pole = uvec(r) * r.f(0.5, 2.0);
    let offset = if r.chance(1, 3) { Vec3A::ZERO } else { uvec(r) * r.f(0.05, 1.5) };
    let at_joint = r.chance(1, 24);
    let t_local = Vec3::from(uvec(r)) * r.f(0.2, 4.0);
    let target = if at_joint {
        Vec3A::from_vec4(joint.w_axis)
    } else {
        Vec3A::from(joint.transform_point3(t_local))
    };
    let twist = angle(r);

    let mut j = IKAimJob::default();
    j.set_joint(joint);
    j.set_target(target);
    j.set_forward(fwd);
    j.set_up(up);
    j.set_pole_vector(pole);
    j.set_offset(offset);
    j.set_twist_angle(twist);

    if r.chance(1, 16) {
        let bad = fwd * *r.pick(&[0.5f32, 0.9, 1.1, 2.0, 0.0]);
        j.set_forward(bad);
        let r = j.run();
        check!(matches!(r, Err(OzzError::InvalidJob)), "forward {bad} of length {} gives {r:?}", bad.length());
        check!(j.joint_correction() == Quat::IDENTITY && !j.reached(), "a rejected job wrote its outputs");
        return Ok(());
    }

    j.set_weight(*r.pick(&[1.0f32, 1.5]));
    j.run().map_err(|e| format!("run: {e:?}"))?;
    let q = j.joint_correction();
    let ctx = || {
        format!(
            "joint {joint:?} target {target} forward {fwd} up {up} pole {pole} offset {offset} twist {twist} -> {q:?} reached {}",
            j.reached()
        )
    };
    if at_joint {
        if offset == Vec3A::ZERO && joint.determinant().abs() > 0.5 && mi[12..15].iter().all(|x| x.abs() < 1e3) {
            let p = point(&mi, v(target));
            check!(len(p) < 1e-3, "bad case");
            // In f32 the target may be off the joint by a rounding: only a proper rotation is required.
            is_quat("correction", q)?;
            note("target at the joint");
        }
        return Ok(());
    }

    let t = point(&mi, v(target));
    let td = len(t);
    let (f, o) = (v(fwd), v(offset));
    let ao = dot(f, o);
    let ac2 = dot(o, o) - ao * ao;
    let margin = 3e-3 * (td * td + dot(o, o));
    let reach = ac2 <= td * td;
    if (ac2 - td * td).abs() > margin {
        check!(j.reached() == reach, "reached is {}: offset {} target {td}: {}", j.reached(), ac2.sqrt(), ctx());
        if !reach {
            note("unreachable");
            check!(q == Quat::IDENTITY, "unreachable target, correction {q:?}");
        } else {
            is_quat("correction", q)?;
            check!(q.w >= 0.0, "the full correction is not the shortest one: {}", ctx());
            let q6 = qn(q4(q));
            let tol = 6e-3 * td;
            let p = rot(conj(q6), t);
            let along = sub(p, o);
            check!(len(cross(along, f)) < 2.0 * tol, "the aim line misses the target by {}: {}", len(cross(along, f)), ctx());
            if td * td - ac2 > 0.02 * td * td {
                check!(dot(p, f) > 0.0, "the joint aims away from the target: {}", ctx());
            }
            note("aimed");
            let pole_js = vect(&mi, v(pole));
            let n_ref = cross(pole_js, t);
            let n_up = cross(rot(q6, v(up)), t);
            let s1 = len(n_ref) / (len(pole_js) * td);
            let s2 = len(n_up) / (len(v(up)) * td);
            if s1 > 0.1 && s2 > 0.1 {
                note("up checked");
                let got = unit(n_up);
                let exp = rot(axis_angle(unit(t), twist as f64), unit(n_ref));
                check!(dist(got, exp) < 1.5e-2 / s1.min(s2), "the up plane is {got:?}, not {exp:?}: {}", ctx());
            }
        }
    }
    let full_reached = j.reached();

    let w = match r.below(6) {
        0 => 0.0,
        1 => r.f(-1.0, 0.0),
        _ => r.f(0.001, 0.999),
    };
    j.set_weight(w);
    j.run().map_err(|e| format!("run: {e:?}"))?;
    let ws = j.joint_correction();
    check!(j.reached() == full_reached, "reached depends on the weight");
    let es = blend(q, w.max(0.0));
    check!(near4(q4(ws), es, 1e-4), "weight {w} gives {ws:?}, not {es:?}: full {q:?}");
    Ok(())
}
