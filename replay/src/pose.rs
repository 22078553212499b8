//! C08 local to model, C09 traversal, C10 blending, C11 motion blending, C12 skinning.
use crate::rng::Rng;
use crate::util::*;
use crate::{check, note, R};
use glam::{Mat4, Quat, Vec3, Vec3A, Vec4};
use glam_ext::Transform3A;
use ozz_animation_rs::*;

pub type M = [f64; 16]; // column major

pub fn m64(m: &Mat4) -> M {
    let c = m.to_cols_array();
    std::array::from_fn(|i| c[i] as f64)
}

pub fn mat_of(t: [f64; 3], q: [f64; 4], s: [f64; 3]) -> M {
    let [x, y, z, w] = q;
    let r = [
        [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y + z * w), 2.0 * (x * z - y * w)],
        [2.0 * (x * y - z * w), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z + x * w)],
        [2.0 * (x * z + y * w), 2.0 * (y * z - x * w), 1.0 - 2.0 * (x * x + y * y)],
    ];
    let mut m = [0.0; 16];
    for c in 0..3 {
        for k in 0..3 {
            m[c * 4 + k] = r[c][k] * s[c];
        }
        m[12 + c] = t[c];
    }
    m[15] = 1.0;
    m
}

/// Product and the sum of the magnitudes of its terms.
pub fn mul(a: &M, b: &M) -> (M, M) {
    let mut o = [0.0; 16];
    let mut g = [0.0; 16];
    for c in 0..4 {
        for r in 0..4 {
            for k in 0..4 {
                let t = a[k * 4 + r] * b[c * 4 + k];
                o[c * 4 + r] += t;
                g[c * 4 + r] += t.abs();
            }
        }
    }
    (o, g)
}

pub fn rand_affine(r: &mut Rng, amp: f32) -> Mat4 {
    let mut c = [0f32; 16];
    for i in 0..16 {
        if i % 4 != 3 {
            c[i] = r.f(-amp, amp);
        }
    }
    c[15] = 1.0;
    Mat4::from_cols_array(&c)
}

fn bits_eq(a: &Mat4, b: &Mat4) -> bool {
    a.to_cols_array().iter().zip(b.to_cols_array()).all(|(a, b)| same(*a, b))
}

fn joint_arg(r: &mut Rng, n: usize) -> i32 {
    match r.below(16) {
        0 => -1,
        1 => -(r.range(2, 9) as i32),
        2 => i32::MAX,
        3 => i32::MIN,
        4 => n as i32,
        5 => n as i32 + 3,
        6 => n as i32 - 1,
        _ => r.below(n.max(1)) as i32,
    }
}

fn in_subtree(parents: &[i16], root: i32, mut j: i32) -> bool {
    while j >= 0 {
        if j == root {
            return true;
        }
        j = parents[j as usize] as i32;
    }
    false
}

pub fn c08(r: &mut Rng, _: u64) -> R {
    let n = match r.below(10) {
        0 => r.below(3),
        1 => r.range(30, 90),
        _ => r.range(1, 20),
    };
    let spec = rand_skel(r, n);
    let sk = spec.load();
    let extra_in = if r.chance(1, 3) { r.below(3) } else { 0 };
    let extra_out = if r.chance(1, 3) { r.below(5) } else { 0 };
    let input: Vec<SoaTransform> = (0..n.div_ceil(4) + extra_in).map(|_| rand_soa(r)).collect();
    let before: Vec<Mat4> = (0..n + extra_out).map(|_| rand_affine(r, 3.0)).collect();
    let mut out = before.clone();
    let root = match r.below(4) {
        0 => None,
        1 => Some(Mat4::IDENTITY),
        _ => Some(rand_affine(r, 2.0)),
    };
    let (mut from, mut to, mut excl) = (-1, i32::MAX, false);
    let mut j: LocalToModelJobRef = LocalToModelJob::default();
    j.set_skeleton(&sk);
    j.set_input(&input);
    j.set_output(&mut out);
    if let Some(m) = &root {
        j.set_root(m);
    }
    if r.chance(3, 4) {
        from = joint_arg(r, n);
        j.set_from(from);
    }
    if r.chance(1, 2) {
        to = joint_arg(r, n);
        j.set_to(to);
    }
    if r.chance(1, 2) {
        excl = r.chance(3, 4);
        j.set_from_excluded(excl);
    }
    j.run().map_err(|e| format!("a valid local-to-model job fails: {e:?}"))?;
    let root = m64(&root.unwrap_or(Mat4::IDENTITY));
    for i in 0..before.len() {
        let wanted = i < n
            && (from < 0 || in_subtree(&spec.parents, from, i as i32))
            && i as i64 <= to as i64
            && !(excl && i as i32 == from);
        let what = format!("joint {i} of {n} (from {from}, to {to}, excluded {excl}, parents {:?})", spec.parents);
        if !wanted {
            check!(bits_eq(&out[i], &before[i]), "{what} is out of the range but was written");
            note("kept");
            continue;
        }
        note("updated");
        let (t, q, s) = trs(&input, i);
        let local = mat_of(t, q, s);
        let p = spec.parents[i];
        let parent = if p < 0 { root } else { m64(&out[p as usize]) };
        let (want, mag) = mul(&parent, &local);
        let got = out[i].to_cols_array();
        for k in 0..16 {
            check!(
                close(got[k], want[k], 4e-6 * mag[k] + 1e-5 * (mag[k / 4 * 4..k / 4 * 4 + 4].iter().sum::<f64>()), 0.0),
                "the matrix of {what} is not parent * local: element {k} is {} instead of {}",
                got[k],
                want[k]
            );
        }
    }
    // a subtree update after a full update gives what a full update gives
    if n > 0 && r.chance(1, 4) {
        let f = r.below(n) as i32;
        let mut a = vec![Mat4::IDENTITY; n];
        let mut in2 = input.clone();
        let run = |input: &[SoaTransform], out: &mut Vec<Mat4>, from: Option<i32>| -> R {
            let mut j: LocalToModelJobRef = LocalToModelJob::default();
            j.set_skeleton(&sk);
            j.set_input(input);
            j.set_output(out);
            if let Some(f) = from {
                j.set_from(f);
            }
            j.run().map_err(|e| format!("{e:?}"))
        };
        run(&input, &mut a, None)?;
        for i in 0..n {
            if in_subtree(&spec.parents, f, i as i32) {
                let mut fl = soa_flat(&in2[i / 4]);
                fl[i & 3] += 1.5;
                fl[28 + (i & 3)] *= 1.25;
                in2[i / 4] = soa_from_flat(&fl);
            }
        }
        let mut b = vec![Mat4::IDENTITY; n];
        run(&in2, &mut a, Some(f))?;
        run(&in2, &mut b, None)?;
        for i in 0..n {
            check!(bits_eq(&a[i], &b[i]), "updating from joint {f} gives another matrix of joint {i} than updating all ({:?})", spec.parents);
        }
        note("partial = full");
    }
    Ok(())
}

pub fn c09(r: &mut Rng, _: u64) -> R {
    let n = match r.below(12) {
        0 => r.below(3),
        1 => r.range(30, 300),
        2 => 1024,
        _ => r.range(1, 24),
    };
    let spec = rand_skel(r, n);
    let sk = spec.load();
    let p = &spec.parents;
    let from = joint_arg(r, n);
    let form = r.below(3);
    let mut got: Vec<(i16, i16)> = Vec::new();
    let small = from >= i16::MIN as i32 && from <= i16::MAX as i32;
    if form == 0 && small {
        sk.iter_depth_first(from as i16, |a, b| got.push((a, b)));
    } else if form == 1 && from >= 0 {
        sk.iter_depth_first(from as usize, |a, b| got.push((a, b)));
    } else {
        sk.iter_depth_first(from, |a, b| got.push((a, b)));
    }
    let want: Vec<(i16, i16)> = (0..n)
        .filter(|i| from < 0 || in_subtree(p, from, *i as i32))
        .map(|i| (i as i16, p[i]))
        .collect();
    check!(got == want, "iterating from {from} visits {got:?} instead of {want:?} (parents {p:?})");
    let mut got: Vec<(i16, i16)> = Vec::new();
    sk.iter_depth_first_reverse(|a, b| got.push((a, b)));
    let want: Vec<(i16, i16)> = (0..n).rev().map(|i| (i as i16, p[i])).collect();
    check!(got == want, "reverse iteration visits {got:?} instead of {want:?}");
    for i in 0..n {
        let leaf = !p.contains(&(i as i16));
        let g = match i % 3 {
            0 => sk.is_leaf(i),
            1 => sk.is_leaf(i as i32),
            _ => sk.is_leaf(i as i16),
        };
        check!(g == leaf, "joint {i} is reported as {} leaf (parents {p:?})", if g { "a" } else { "no" });
        check!(sk.joint_parent(i) == p[i] && sk.joint_parent(i as i16) == p[i], "the parent of joint {i} is given as {}", sk.joint_parent(i));
    }
    for _ in 0..4.min(n) {
        let i = r.below(n);
        check!(sk.joint_by_name(&spec.names[i]) == Some(i as i16), "name of joint {i} leads to {:?}", sk.joint_by_name(&spec.names[i]));
        check!(sk.name_by_joint(i as i16) == Some(spec.names[i].as_str()), "joint {i} is named {:?}", sk.name_by_joint(i as i16));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------------

pub fn qmul(a: [f64; 4], b: [f64; 4]) -> [f64; 4] {
    [
        a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1],
        a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0],
        a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3],
        a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2],
    ]
}

pub fn qnorm(q: [f64; 4]) -> f64 {
    q.iter().map(|a| a * a).sum::<f64>().sqrt()
}

/// Same rotation: equal up to sign.
pub fn qclose(a: [f64; 4], b: [f64; 4], tol: f64) -> bool {
    let p: f64 = (0..4).map(|i| (a[i] - b[i]).abs()).fold(0.0, f64::max);
    let m: f64 = (0..4).map(|i| (a[i] + b[i]).abs()).fold(0.0, f64::max);
    p.min(m) <= tol
}

struct Layer {
    pose: Vec<SoaTransform>,
    weight: f32,
    jw: Vec<Vec4>,
}

fn rand_layer(r: &mut Rng, soa: usize, base: &[SoaTransform]) -> Layer {
    let extra = if r.chance(1, 4) { r.below(3) } else { 0 };
    let mut pose: Vec<SoaTransform> = (0..soa + extra).map(|_| rand_soa(r)).collect();
    if r.chance(1, 4) {
        // a pose near another one, possibly with the opposite quaternions
        for i in 0..soa {
            let mut f = soa_flat(&base[i]);
            for l in 0..4 {
                if r.chance(1, 2) {
                    for k in 3..7 {
                        f[k * 4 + l] = -f[k * 4 + l];
                    }
                }
            }
            pose[i] = soa_from_flat(&f);
        }
    }
    let w = |r: &mut Rng| match r.below(8) {
        0 => 0.0,
        1 => -r.f(0.01, 1.5),
        2 => 1.0,
        3 => r.f(1.0, 3.0),
        4 => 0.001,
        _ => r.unit(),
    };
    let weight = w(r);
    let jw = if r.chance(1, 2) {
        (0..soa + extra).map(|_| Vec4::new(w(r), w(r), w(r), w(r))).collect()
    } else {
        vec![]
    };
    Layer { pose, weight, jw }
}

#[derive(Clone, Copy)]
struct Acc {
    t: [f64; 3],
    q: [f64; 4],
    s: [f64; 3],
    w: f64,
    mag: f64,
}

pub fn c10(r: &mut Rng, _: u64) -> R {
    let n = if r.chance(1, 10) { r.below(3) } else { r.range(1, 14) };
    let spec = rand_skel(r, n);
    let sk = spec.load();
    let soa = n.div_ceil(4);
    let nl = r.below(5);
    let na = if r.chance(1, 2) { 0 } else { r.below(4) };
    let layers: Vec<Layer> = (0..nl).map(|_| rand_layer(r, soa, &spec.rest)).collect();
    let adds: Vec<Layer> = (0..na).map(|_| rand_layer(r, soa, &spec.rest)).collect();
    let thr = match r.below(4) {
        0 => None,
        1 => Some(r.f(0.5, 3.0)),
        _ => Some(r.f(0.01, 1.0)),
    };
    let extra = if r.chance(1, 3) { r.below(4) } else { 0 };
    let before: Vec<SoaTransform> = (0..soa + extra).map(|_| rand_soa(r)).collect();
    let mut out = before.clone();
    let mut j: BlendingJobRef = BlendingJob::default();
    j.set_skeleton(&sk);
    let cs = if r.chance(1, 2) { soa } else { r.below(soa + 4) };
    j.set_context(BlendingContext::new(cs));
    if let Some(t) = thr {
        j.set_threshold(t);
    }
    let thr = j.threshold() as f64;
    j.set_output(&mut out);
    // a job is reused: first with other layers
    let other: Vec<Layer> = (0..r.below(3)).map(|_| rand_layer(r, soa, &spec.rest)).collect();
    if r.chance(1, 3) {
        for l in &other {
            j.layers_mut().push(BlendingLayer { transform: &l.pose[..], weight: l.weight, joint_weights: l.jw.clone() });
        }
        j.run().map_err(|e| format!("a valid blending job fails: {e:?}"))?;
        j.layers_mut().clear();
        note("job reused");
    }
    for l in &layers {
        j.layers_mut().push(BlendingLayer { transform: &l.pose[..], weight: l.weight, joint_weights: l.jw.clone() });
    }
    for l in &adds {
        j.additive_layers_mut().push(BlendingLayer { transform: &l.pose[..], weight: l.weight, joint_weights: l.jw.clone() });
    }
    j.run().map_err(|e| format!("a valid blending job fails: {e:?}"))?;
    drop(j);
    for i in soa..soa + extra {
        check!(same_soa(&out[i], &before[i]), "output element {i} beyond the rest pose was written");
    }
    let partial = layers.iter().any(|l| l.weight > 0.0 && !l.jw.is_empty());
    for jn in 0..n {
        let mut amb = false;
        let mut a = Acc { t: [0.0; 3], q: [0.0; 4], s: [0.0; 3], w: 0.0, mag: 0.0 };
        let mut add = |a: &mut Acc, p: ([f64; 3], [f64; 4], [f64; 3]), w: f64| {
            let dot: f64 = (0..4).map(|k| a.q[k] * p.1[k]).sum();
            if w > 0.0 && qnorm(a.q) > 0.0 && dot.abs() < 1e-4 * qnorm(a.q) {
                amb = true;
            }
            let s = if dot < 0.0 { -1.0 } else { 1.0 };
            for k in 0..3 {
                a.t[k] += w * p.0[k];
                a.s[k] += w * p.2[k];
                a.mag += w * (p.0[k].abs() + p.2[k].abs());
            }
            for k in 0..4 {
                a.q[k] += s * w * p.1[k];
            }
            a.w += w;
        };
        for l in &layers {
            if l.weight <= 0.0 {
                continue;
            }
            let jw = if l.jw.is_empty() { 1.0 } else { l.jw[jn / 4][jn & 3].max(0.0) };
            add(&mut a, trs(&l.pose, jn), l.weight as f64 * jw as f64);
        }
        if a.w < thr && !(a.w > 0.0 && thr - a.w < 1e-6) {
            let w = thr - a.w;
            add(&mut a, trs(&spec.rest, jn), w);
            note("completed by the rest pose");
        }
        let nq = qnorm(a.q);
        if nq < 0.02 * a.w || a.w < 1e-4 {
            note("degenerate");
            continue;
        }
        let mut q = a.q.map(|v| v / nq);
        let mut t = a.t.map(|v| v / a.w);
        let mut s = a.s.map(|v| v / a.w);
        let mut mag = a.mag / a.w;
        let mut qtol = 2e-5 * (a.w / nq);
        for l in &adds {
            if l.weight == 0.0 {
                continue;
            }
            let jw = if l.jw.is_empty() { 1.0 } else { l.jw[jn / 4][jn & 3].max(0.0) as f64 };
            let w = l.weight.abs() as f64 * jw;
            let p = trs(&l.pose, jn);
            let sg = if p.1[3] < 0.0 { -1.0 } else { 1.0 };
            if p.1[3].abs() < 1e-4 && w > 0.0 {
                amb = true;
            }
            let mut d = p.1.map(|v| v * sg * w);
            d[3] = (p.1[3] * sg - 1.0) * w + 1.0;
            let dn = qnorm(d);
            if dn < 0.05 {
                amb = true;
                break;
            }
            d = d.map(|v| v / dn);
            qtol += 2e-5 / dn;
            if l.weight < 0.0 {
                for k in 0..3 {
                    d[k] = -d[k];
                }
            }
            q = qmul(q, d);
            for k in 0..3 {
                let f = 1.0 - w + p.2[k] * w;
                mag += w * p.0[k].abs() + s[k].abs();
                if l.weight > 0.0 {
                    t[k] += p.0[k] * w;
                    s[k] *= f;
                } else {
                    if f.abs() < 0.05 {
                        amb = true;
                    }
                    t[k] -= p.0[k] * w;
                    s[k] /= f;
                }
                mag += s[k].abs() * (1.0 + w * p.2[k]) * if l.weight < 0.0 { 1.0 / f.abs().max(0.05) } else { 1.0 };
            }
            note(if l.weight > 0.0 { "added" } else { "subtracted" });
        }
        if amb {
            note("ambiguous");
            continue;
        }
        note(if partial { "joint weights" } else { "layer weights" });
        let g = trs(&out, jn);
        let what = format!("joint {jn} of {n} ({nl} layers, {na} additive, threshold {thr})");
        for k in 0..3 {
            check!((g.0[k] - t[k]).abs() <= 2e-5 * (mag + 0.01), "translation {k} of {what} is {} instead of {}", g.0[k], t[k]);
            check!((g.2[k] - s[k]).abs() <= 2e-5 * (mag + 0.01), "scale {k} of {what} is {} instead of {}", g.2[k], s[k]);
        }
        check!(qclose(g.1, q, qtol), "rotation of {what} is {:?} instead of {:?}", g.1, q);
    }
    Ok(())
}

pub fn c11(r: &mut Rng, _: u64) -> R {
    let n = r.below(6);
    let mut j: MotionBlendingJob = MotionBlendingJob::default();
    let mut dl = 0.0;
    let mut dt = [0.0f64; 3];
    let mut q = [0.0f64; 4];
    let mut w = 0.0;
    let mut amb = false;
    let mut exact = false;
    let mut first = ([0f32; 3], 0f32);
    let used = r.chance(1, 4);
    if used {
        j.set_output(Transform3A { translation: Vec3A::ONE, rotation: Quat::from_xyzw(0.6, 0.0, 0.8, 0.0), scale: Vec3A::splat(3.0) });
    }
    for i in 0..n {
        let d = r.unit_vec3();
        let len = match r.below(5) {
            0 => 0.0,
            1 => r.f(1e-3, 0.1),
            2 => r.f(100.0, 1e4),
            _ => r.f(0.1, 10.0),
        };
        let mut t = [d[0] * len, d[1] * len, d[2] * len];
        let mut weight = match r.below(8) {
            0 => 0.0,
            1 => -r.f(0.01, 2.0),
            2 => 1.0,
            3 => r.f(1.0, 5.0),
            4 => 1e-3,
            _ => r.unit(),
        };
        if i == 1 && n == 2 && r.chance(1, 5) && first.1 > 0.0 && first.0 != [0.0; 3] {
            t = [-first.0[0], -first.0[1], -first.0[2]];
            weight = first.1;
            exact = true;
        }
        if i == 0 {
            first = (t, weight);
        }
        let mut rot = r.unit_quat();
        if r.chance(1, 3) {
            rot = [0.0, 0.0, 0.0, if r.chance(1, 2) { 1.0 } else { -1.0 }];
        }
        j.layers_mut().push(MotionBlendingLayer {
            weight,
            delta: Transform3A {
                translation: Vec3A::new(t[0], t[1], t[2]),
                rotation: Quat::from_xyzw(rot[0], rot[1], rot[2], rot[3]),
                scale: Vec3A::splat(r.f(0.5, 2.0)),
            },
        });
        if weight <= 0.0 {
            note("ignored layer");
            continue;
        }
        let wt = weight as f64;
        let l = t.iter().map(|v| (*v as f64).powi(2)).sum::<f64>().sqrt();
        dl += l * wt;
        w += wt;
        if l > 0.0 {
            for k in 0..3 {
                dt[k] += t[k] as f64 * wt / l;
            }
        }
        let dot: f64 = (0..4).map(|k| q[k] * rot[k] as f64).sum();
        if qnorm(q) > 0.0 && dot.abs() < 1e-4 * qnorm(q) {
            amb = true;
        }
        for k in 0..4 {
            q[k] += rot[k] as f64 * wt * if dot < 0.0 { -1.0 } else { 1.0 };
        }
    }
    j.run().map_err(|e| format!("a motion blending job fails: {e:?}"))?;
    let o = j.output();
    check!(o.scale == Vec3A::ONE, "scale of the blended motion is {:?}", o.scale);
    if w == 0.0 {
        check!(
            o.translation == Vec3A::ZERO && qclose([o.rotation.x as f64, o.rotation.y as f64, o.rotation.z as f64, o.rotation.w as f64], [0.0, 0.0, 0.0, 1.0], 0.0),
            "without contributing layers the result is {o:?}"
        );
        note("no layer");
        return Ok(());
    }
    let dn = dt.iter().map(|v| v * v).sum::<f64>().sqrt();
    if exact {
        check!(o.translation == Vec3A::ZERO, "opposite translations of equal weight give {:?}", o.translation);
        note("vanishing sum");
    } else if dl == 0.0 {
        check!(o.translation == Vec3A::ZERO, "zero translations give {:?}", o.translation);
    } else if dn > 0.01 * w {
        for k in 0..3 {
            let want = dt[k] / dn * dl / w;
            check!(
                close(o.translation[k], want, 2e-6 * (dl / w) * (w / dn) * (n as f64), 0.0),
                "blended translation {k} is {} instead of {want}",
                o.translation[k]
            );
        }
        note("translation");
    }
    let qn = qnorm(q);
    if !amb && qn > 0.01 * w {
        let g = [o.rotation.x as f64, o.rotation.y as f64, o.rotation.z as f64, o.rotation.w as f64];
        check!(qclose(g, q.map(|v| v / qn), 1e-5 * w / qn), "blended rotation is {g:?} instead of {:?}", q.map(|v| v / qn));
        note("rotation");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------------

pub fn c12(r: &mut Rng, idx: u64) -> R {
    let inf = match idx % 8 {
        0..=4 => (idx % 8) as usize + 1,
        5 => r.range(6, 8),
        _ => r.range(1, 5),
    };
    let n = if r.chance(1, 12) { 0 } else { r.range(1, 7) };
    let nj = r.range(1, 6);
    let it = r.chance(1, 2);
    let kind = r.below(3);
    let x = |r: &mut Rng| if r.chance(1, 3) { r.below(3) } else { 0 };
    let mats: Vec<Mat4> = (0..nj).map(|_| rand_affine(r, 3.0)).collect();
    let its: Vec<Mat4> = (0..nj + x(r)).map(|_| rand_affine(r, 3.0)).collect();
    let indices: Vec<u16> = (0..n * inf + x(r)).map(|_| r.below(nj) as u16).collect();
    let weights: Vec<f32> = (0..n * (inf - 1) + x(r)).map(|_| if r.chance(1, 6) { 0.0 } else { r.f(-0.2, 0.8) }).collect();
    let v3 = |r: &mut Rng| Vec3::new(r.f(-5.0, 5.0), r.f(-5.0, 5.0), r.f(-5.0, 5.0));
    let mk = |r: &mut Rng, k: usize| (0..k).map(|_| v3(r)).collect::<Vec<_>>();
    let (e1, e2, e3) = (x(r), x(r), x(r));
    let (ip, inn, itg) = (mk(r, n + e1), mk(r, n + e2), mk(r, n + e3));
    let (e1, e2, e3) = (x(r), x(r), x(r));
    let (bp, bn, bt) = (mk(r, n + e1), mk(r, n + e2), mk(r, n + e3));
    let (mut op, mut on, mut ot) = (bp.clone(), bn.clone(), bt.clone());
    let mut j: SkinningJobRef = SkinningJob::default();
    j.set_vertex_count(n);
    j.set_influences_count(inf);
    j.set_joint_matrices(&mats);
    if it {
        j.set_joint_it_matrices(&its);
    }
    j.set_joint_indices(&indices);
    if inf > 1 || r.chance(1, 2) {
        j.set_joint_weights(&weights);
    }
    j.set_in_positions(&ip);
    j.set_out_positions(&mut op);
    // an output that has no input is not written
    if kind > 0 {
        j.set_in_normals(&inn);
    }
    if kind > 0 || r.chance(1, 3) {
        j.set_out_normals(&mut on);
    }
    if kind > 1 {
        j.set_in_tangents(&itg);
    }
    if kind > 1 || r.chance(1, 3) {
        j.set_out_tangents(&mut ot);
    }
    check!(j.validate(), "a complete skinning job is reported invalid");
    j.run().map_err(|e| format!("a valid skinning job fails: {e:?}"))?;
    drop(j);
    note(["positions", "positions, normals", "positions, normals, tangents"][kind]);
    for (which, (got, before, input)) in [(&op, &bp, &ip), (&on, &bn, &inn), (&ot, &bt, &itg)].into_iter().enumerate() {
        for v in 0..got.len() {
            let what = ["position", "normal", "tangent"][which];
            if v >= n || which > kind {
                for k in 0..3 {
                    check!(same(got[v][k], before[v][k]), "{what} {v} was written (vertex count {n}, {inf} influences)");
                }
                continue;
            }
            let mut want = [0f64; 3];
            let mut mag = [0f64; 3];
            let mut last = 1.0f64;
            for i in 0..inf {
                let w = if i + 1 < inf { weights[v * (inf - 1) + i] as f64 } else { last };
                last -= w;
                let ji = indices[v * inf + i] as usize;
                let m = m64(if it && which > 0 { &its[ji] } else { &mats[ji] });
                for k in 0..3 {
                    for c in 0..3 {
                        let t = w * m[c * 4 + k] * input[v][c] as f64;
                        want[k] += t;
                        mag[k] += t.abs();
                    }
                    if which == 0 {
                        want[k] += w * m[12 + k];
                        mag[k] += (w * m[12 + k]).abs();
                    }
                }
            }
            for k in 0..3 {
                check!(
                    close(got[v][k], want[k], 1e-5 * (mag[k] + 1.0), 0.0),
                    "{what} {v}, component {k}, is {} instead of {} ({inf} influences, inverse transposed matrices {it})",
                    got[v][k],
                    want[k]
                );
            }
        }
    }
    Ok(())
}
