//! C19 job gate, C20 buffer kinds.
use crate::rng::Rng;
use crate::util::*;
use crate::{check, note, R};
use glam::{Mat4, Quat, Vec3, Vec4};
use glam_ext::Transform3A;
use ozz_animation_rs::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, RwLock};

/// A length around `n`: usually enough, often one short, sometimes nothing at all.
fn around(r: &mut Rng, n: usize) -> usize {
    match r.below(12) {
        0 | 1 => n.saturating_sub(1),
        2 => 0,
        3 => n / 2,
        4 => n + 1,
        5 => n + r.below(4),
        _ => n,
    }
}
fn have(r: &mut Rng) -> bool {
    !r.chance(1, 14)
}

fn verdict(what: &str, want: bool, validate: bool, run: &Result<(), OzzError>, detail: &dyn Fn() -> String) -> R {
    check!(validate == want, "{what}: validate is {validate}, the inputs are {}: {}", if want { "valid" } else { "invalid" }, detail());
    if want {
        check!(run.is_ok(), "{what}: a valid job gives {run:?}: {}", detail());
        note("valid");
    } else {
        check!(matches!(run, Err(OzzError::InvalidJob)), "{what}: an invalid job gives {run:?}: {}", detail());
        note("invalid");
    }
    Ok(())
}

fn sampling(r: &mut Rng) -> R {
    let n = r.below(14);
    let spec = rand_anim(r, n);
    let a = spec.load();
    let soa = n.div_ceil(4);
    let (ha, hc, ho) = (have(r), have(r), have(r));
    let max = around(r, soa) * 4;
    let mut ctx = SamplingContext::new(max);
    let len = around(r, soa);
    let mut out: Vec<SoaTransform> = (0..len).map(|_| rand_soa(r)).collect();
    let before = out.clone();
    let ratio = r.odd();
    let mut j: SamplingJobRef = SamplingJob::default();
    if ha {
        j.set_animation(&a);
    }
    if hc {
        j.set_context(&mut ctx);
    }
    if ho {
        j.set_output(&mut out);
    }
    j.set_ratio(ratio);
    let want = ha && hc && ho && max / 4 >= soa && len >= soa;
    let v = j.validate();
    let run = j.run();
    let d = || format!("animation {ha} ({soa} soa tracks), context {hc} (room for {}), output {ho} ({len}), ratio {ratio}", max / 4);
    verdict("sampling", want, v, &run, &d)?;
    let keep = if want { soa } else { 0 };
    check!((keep..len).all(|i| same_soa(&out[i], &before[i])), "sampling: wrote an element it must not write: {}", d());
    Ok(())
}

fn local_to_model(r: &mut Rng) -> R {
    let n = r.below(14);
    let spec = rand_skel(r, n);
    let sk = spec.load();
    let soa = n.div_ceil(4);
    let (hs, hi, ho) = (have(r), have(r), have(r));
    let (li, lo) = (around(r, soa), around(r, n));
    let input: Vec<SoaTransform> = (0..li).map(|_| rand_soa(r)).collect();
    let mut out: Vec<Mat4> = (0..lo).map(|_| crate::pose::rand_affine(r, 2.0)).collect();
    let before = out.clone();
    let ends = [-1, 0, 1, 3, n as i32 - 1, n as i32, 1000, i32::MAX, i32::MIN, -7];
    let (from, to, ex) = (*r.pick(&ends), *r.pick(&ends), r.chance(1, 2));
    let mut j: LocalToModelJobRef = LocalToModelJob::default();
    if hs {
        j.set_skeleton(&sk);
    }
    if hi {
        j.set_input(&input);
    }
    if ho {
        j.set_output(&mut out);
    }
    j.set_from(from);
    j.set_to(to);
    j.set_from_excluded(ex);
    let want = hs && hi && ho && li >= soa && lo >= n;
    let v = j.validate();
    let run = j.run();
    let d = || format!("skeleton {hs} ({n} joints), input {hi} ({li}), output {ho} ({lo}), from {from} to {to} excluded {ex}");
    verdict("local to model", want, v, &run, &d)?;
    let keep = if want { n } else { 0 };
    check!(
        (keep..lo).all(|i| (0..16).all(|k| same(out[i].to_cols_array()[k], before[i].to_cols_array()[k]))),
        "local to model: wrote an element it must not write: {}",
        d()
    );
    Ok(())
}

fn blending(r: &mut Rng) -> R {
    let n = r.below(14);
    let spec = rand_skel(r, n);
    let sk = spec.load();
    let soa = n.div_ceil(4);
    let nl = r.below(3);
    let na = r.below(3);
    let mut ok = true;
    let mut desc = String::new();
    let mut bufs: Vec<(Vec<SoaTransform>, Vec<Vec4>, f32)> = Vec::new();
    for _ in 0..nl + na {
        let l = if r.chance(1, 4) { around(r, soa) } else { soa };
        let w = match r.below(4) {
            0 => around(r, soa),
            1 => soa,
            _ => 0,
        };
        ok &= l >= soa && (w == 0 || w >= soa);
        let weight = *r.pick(&[0.0f32, 1.0, 0.5, -1.0, -0.5, f32::NAN, 1e-3]);
        desc += &format!(" [transform {l}, joint weights {w}, weight {weight}]");
        bufs.push((
            (0..l).map(|_| rand_soa(r)).collect(),
            (0..w).map(|_| Vec4::new(r.unit(), r.unit(), r.unit(), r.unit())).collect(),
            weight,
        ));
    }
    let (hs, hc, ho) = (have(r), have(r), have(r));
    let len = around(r, soa);
    let mut out: Vec<SoaTransform> = (0..len).map(|_| rand_soa(r)).collect();
    let before = out.clone();
    let threshold = *r.pick(&[0.1f32, 0.1, 0.1, 1.0, 0.0, -0.5, f32::NAN, -0.0, f32::INFINITY]);
    let mut j: BlendingJobRef = BlendingJob::default();
    if hs {
        j.set_skeleton(&sk);
    }
    if !hc {
        j.clear_context();
    } else if r.chance(1, 2) {
        j.set_context(BlendingContext::new(r.below(5)));
    }
    if ho {
        j.set_output(&mut out);
    }
    j.set_threshold(threshold);
    for (i, (t, w, weight)) in bufs.iter().enumerate() {
        let l = BlendingLayer { transform: t.as_slice(), weight: *weight, joint_weights: w.clone() };
        if i < nl {
            j.layers_mut().push(l);
        } else {
            j.additive_layers_mut().push(l);
        }
    }
    let want = hs && hc && ho && threshold > 0.0 && len >= soa && ok;
    let v = j.validate();
    let run = j.run();
    let d = || {
        format!("skeleton {hs} ({soa} soa joints), context {hc}, output {ho} ({len}), threshold {threshold}, {nl} layers, {na} additive:{desc}")
    };
    verdict("blending", want, v, &run, &d)?;
    let keep = if want { soa } else { 0 };
    check!((keep..len).all(|i| same_soa(&out[i], &before[i])), "blending: wrote an element it must not write: {}", d());
    Ok(())
}

fn skinning(r: &mut Rng) -> R {
    let inf = match r.below(10) {
        0 => 0,
        1 => r.range(5, 9),
        _ => r.range(1, 4),
    };
    let vc = match r.below(24) {
        0 => 0,
        1 => usize::MAX,
        2 => usize::MAX / 2 + 1,
        3 => 1usize << 62,
        _ => r.range(1, 7),
    };
    let small = if vc > 100 { 2 } else { vc };
    let rare = |r: &mut Rng, n: usize| if r.chance(1, 5) { around(r, n) } else { n };
    let (hm, hi, hw, hp, hop) = (have(r), have(r), have(r), have(r), have(r));
    let hn = r.chance(2, 3);
    let ht = if hn { r.chance(1, 2) } else { r.chance(1, 8) };
    let (hon, hot) = (if hn { have(r) } else { r.chance(1, 2) }, if ht { have(r) } else { r.chance(1, 2) });
    let hit = r.chance(1, 2);
    let nm = if r.chance(1, 12) { 0 } else { r.range(1, 6) };
    let nit = if r.chance(1, 12) { r.below(nm + 1) } else { nm };
    let li = rare(r, small * inf);
    let lw = rare(r, small * inf.saturating_sub(1));
    let (lp, lop, ln, lon, lt, lot) =
        (rare(r, small), rare(r, small), rare(r, small), rare(r, small), rare(r, small), rare(r, small));
    let m: Vec<Mat4> = (0..nm).map(|_| crate::pose::rand_affine(r, 2.0)).collect();
    let it: Vec<Mat4> = (0..nit).map(|_| crate::pose::rand_affine(r, 2.0)).collect();
    let bad = r.chance(1, 8);
    let idx: Vec<u16> = (0..li)
        .map(|_| {
            if bad && r.chance(1, 4) {
                *r.pick(&[nm as u16, u16::MAX, nm as u16 + 3])
            } else {
                r.below(nm.max(1)) as u16
            }
        })
        .collect();
    let w: Vec<f32> = (0..lw).map(|_| r.unit()).collect();
    let vecs = |r: &mut Rng, n: usize| -> Vec<Vec3> { (0..n).map(|_| Vec3::new(r.f(-2.0, 2.0), r.f(-2.0, 2.0), r.f(-2.0, 2.0))).collect() };
    let (p, nn, t) = (vecs(r, lp), vecs(r, ln), vecs(r, lt));
    let (mut op, mut on, mut ot) = (vecs(r, lop), vecs(r, lon), vecs(r, lot));
    let (bp, bn, bt) = (op.clone(), on.clone(), ot.clone());
    let mut j: SkinningJobRef = SkinningJob::default();
    j.set_vertex_count(vc);
    j.set_influences_count(inf);
    if hm {
        j.set_joint_matrices(&m);
    }
    if hit {
        j.set_joint_it_matrices(&it);
    }
    if hi {
        j.set_joint_indices(&idx);
    }
    if hw {
        j.set_joint_weights(&w);
    }
    if hp {
        j.set_in_positions(&p);
    }
    if hn {
        j.set_in_normals(&nn);
    }
    if ht {
        j.set_in_tangents(&t);
    }
    if hop {
        j.set_out_positions(&mut op);
    }
    if hon {
        j.set_out_normals(&mut on);
    }
    if hot {
        j.set_out_tangents(&mut ot);
    }
    let need = |k: usize| vc.checked_mul(k).unwrap_or(usize::MAX);
    let want = inf > 0
        && hm
        && nm > 0
        && hi
        && li >= need(inf)
        && (inf == 1 || (hw && lw >= need(inf - 1)))
        && hp
        && lp >= vc
        && hop
        && lop >= vc
        && (!hn || (ln >= vc && hon && lon >= vc))
        && (!ht || (hn && lt >= vc && hot && lot >= vc));
    let v = j.validate();
    let run = j.run();
    let d = || {
        format!(
            "{vc} vertices, {inf} influences, matrices {hm} ({nm}), it {hit} ({nit}), indices {hi} ({li}), weights {hw} ({lw}), \
             positions {hp} ({lp}) -> {hop} ({lop}), normals {hn} ({ln}) -> {hon} ({lon}), tangents {ht} ({lt}) -> {hot} ({lot})"
        )
    };
    let used = if want { &idx[..vc * inf] } else { &[][..] };
    let limit = if hit && hn { nm.min(nit) } else { nm };
    if want && used.iter().any(|&i| i as usize >= limit) {
        check!(v, "skinning: validate rejects the job: {}", d());
        check!(matches!(run, Err(OzzError::InvalidIndex)), "skinning: a joint index without a matrix gives {run:?}: {}", d());
        note("bad joint index");
    } else {
        verdict("skinning", want, v, &run, &d)?;
    }
    let keep = if want { vc } else { 0 };
    let same3 = |a: &[Vec3], b: &[Vec3], k: usize| (k.min(a.len())..a.len()).all(|i| a[i] == b[i]);
    check!(
        same3(&op, &bp, keep) && same3(&on, &bn, if hn { keep } else { 0 }) && same3(&ot, &bt, if ht { keep } else { 0 }),
        "skinning: wrote an element it must not write: {}",
        d()
    );
    Ok(())
}

fn others(r: &mut Rng) -> R {
    let n = r.below(5);
    let t = rand_track(r, n, 1);
    let tr: Track<f32> = t.load();
    let have_t = have(r);
    {
        let mut j: TrackSamplingJobRef<f32> = TrackSamplingJob::default();
        if have_t {
            j.set_track(&tr);
        }
        j.set_ratio(r.odd());
        let v = j.validate();
        let run = j.run();
        verdict("track sampling", have_t, v, &run, &|| format!("track {have_t} ({n} keys)"))?;
        if !have_t {
            check!(j.result() == 0.0, "track sampling: a rejected job wrote its result");
        }
    }
    {
        let mut j: TrackTriggeringJobRef = TrackTriggeringJob::default();
        if have_t {
            j.set_track(&tr);
        }
        j.set_from(r.f(-3.0, 3.0));
        j.set_to(r.f(-3.0, 3.0));
        j.set_threshold(r.odd());
        let v = j.validate();
        let run = j.run().map(|i| {
            i.take(10_000).count();
        });
        verdict("track triggering", have_t, v, &run, &|| format!("track {have_t} ({n} keys)"))?;
    }
    {
        let mut j = MotionBlendingJob::default();
        for _ in 0..r.below(4) {
            j.layers_mut().push(MotionBlendingLayer {
                weight: r.odd(),
                delta: Transform3A::new(
                    Vec3::new(r.odd(), r.odd(), r.odd()),
                    Quat::from_xyzw(r.odd(), r.odd(), r.odd(), r.odd()),
                    Vec3::ONE,
                ),
            });
        }
        // Quat::normalize and Vec3A operations assert nothing without glam_assert.
        let v = j.validate();
        let run = j.run();
        verdict("motion blending", true, v, &run, &String::new)?;
    }
    Ok(())
}

pub fn c19(r: &mut Rng, idx: u64) -> R {
    match idx % 8 {
        0 | 1 => sampling(r),
        2 => local_to_model(r),
        3 | 4 => blending(r),
        5 | 6 => skinning(r),
        _ => others(r),
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C20
// ---------------------------------------------------------------------------------------------------------------

fn poison<T: Send + Sync + 'static>(l: &Arc<RwLock<T>>) {
    let l = l.clone();
    let _ = std::thread::spawn(move || {
        let _g = l.write().unwrap();
        std::panic::resume_unwind(Box::new(()));
    })
    .join();
}

/// The lock is held by another thread for a few milliseconds: a job waits, it does not fail.
fn held<T: Send + Sync + 'static>(l: &Arc<RwLock<T>>, write: bool) -> std::thread::JoinHandle<()> {
    let l = l.clone();
    let (tx, rx) = std::sync::mpsc::channel();
    let h = std::thread::spawn(move || {
        if write {
            let _g = l.write().unwrap();
            tx.send(()).unwrap();
            std::thread::sleep(std::time::Duration::from_millis(4));
        } else {
            let _g = l.read().unwrap();
            tx.send(()).unwrap();
            std::thread::sleep(std::time::Duration::from_millis(4));
        }
    });
    rx.recv().unwrap();
    h
}

fn contended(r: &mut Rng) -> R {
    let n = r.range(1, 8);
    let v: Vec<Vec3> = (0..n).map(|_| Vec3::new(r.f(-2.0, 2.0), r.f(-2.0, 2.0), r.f(-2.0, 2.0))).collect();
    let src = Arc::new(RwLock::new(v.clone()));
    let dst = Arc::new(RwLock::new(vec![Vec3::ZERO; n]));
    let mut j: SkinningJobArc = SkinningJob::default();
    j.set_vertex_count(n);
    j.set_influences_count(1);
    j.set_joint_matrices(Arc::new(RwLock::new(vec![Mat4::IDENTITY])));
    j.set_joint_indices(Arc::new(RwLock::new(vec![0; n])));
    j.set_in_positions(src.clone());
    j.set_out_positions(dst.clone());
    for (what, out, write) in [("input", false, true), ("output", true, true), ("output", true, false)] {
        let h = held(if out { &dst } else { &src }, write);
        let run = j.run();
        h.join().unwrap();
        check!(run.is_ok(), "a job whose {what} is in use by another thread (not poisoned) gives {run:?}");
        check!(*dst.read().unwrap() == v, "a job whose {what} is in use by another thread gives a wrong result");
    }
    let _g = src.read().unwrap();
    let run = j.run();
    check!(run.is_ok(), "a job whose input is also being read gives {run:?}");
    Ok(())
}

fn soas(a: &[SoaTransform], b: &[SoaTransform]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_soa(a, b))
}

pub fn c20(r: &mut Rng, case: u64) -> R {
    if case % 997 == 13 {
        return contended(r);
    }
    let n = r.range(1, 12);
    let soa = n.div_ceil(4);
    let aspec = rand_anim(r, n);
    let sspec = rand_skel(r, n);
    let a = Arc::new(aspec.load());
    let arc = Rc::new(aspec.load());
    let sk = Arc::new(sspec.load());
    let skr = Rc::new(sspec.load());
    let ratio = r.unit();
    let init: Vec<SoaTransform> = (0..soa).map(|_| rand_soa(r)).collect();

    // Sampling
    let mut o1 = init.clone();
    {
        let mut c = SamplingContext::new(n);
        let mut j: SamplingJobRef = SamplingJob::default();
        j.set_animation(&a);
        j.set_context(&mut c);
        j.set_ratio(ratio);
        j.set_output(&mut o1);
        j.run().map_err(|e| format!("{e:?}"))?;
    }
    let o2 = Rc::new(RefCell::new(init.clone()));
    {
        let mut j: SamplingJobRc = SamplingJob::default();
        j.set_animation(arc.clone());
        j.set_context(SamplingContext::new(n));
        j.set_ratio(ratio);
        j.set_output(o2.clone());
        j.run().map_err(|e| format!("{e:?}"))?;
    }
    let o3 = Arc::new(RwLock::new(init.clone()));
    {
        let mut j: SamplingJobArc = SamplingJob::default();
        j.set_animation(a.clone());
        j.set_context(SamplingContext::new(n));
        j.set_ratio(ratio);
        j.set_output(o3.clone());
        j.run().map_err(|e| format!("{e:?}"))?;
        let bad = Arc::new(RwLock::new(init.clone()));
        poison(&bad);
        j.set_output(bad);
        check!(!j.validate(), "sampling: validate accepts a poisoned lock");
        let run = j.run();
        check!(matches!(run, Err(OzzError::LockPoison)), "sampling: a poisoned output gives {run:?}");
    }
    check!(soas(&o1, &o2.borrow()) && soas(&o1, &o3.read().unwrap()), "sampling: the result depends on the kind of buffer");

    // Local to model
    let input = init.clone();
    let minit = vec![Mat4::IDENTITY; n];
    let mut m1 = minit.clone();
    {
        let mut j: LocalToModelJobRef = LocalToModelJob::default();
        j.set_skeleton(&sk);
        j.set_input(&input);
        j.set_output(&mut m1);
        j.run().map_err(|e| format!("{e:?}"))?;
    }
    let m2 = Rc::new(RefCell::new(minit.clone()));
    {
        let mut j: LocalToModelJobRc = LocalToModelJob::default();
        j.set_skeleton(skr.clone());
        j.set_input(Rc::new(RefCell::new(input.clone())));
        j.set_output(m2.clone());
        j.run().map_err(|e| format!("{e:?}"))?;
    }
    let m3 = Arc::new(RwLock::new(minit.clone()));
    {
        let mut j: LocalToModelJobArc = LocalToModelJob::default();
        j.set_skeleton(sk.clone());
        let i = Arc::new(RwLock::new(input.clone()));
        j.set_input(i.clone());
        j.set_output(m3.clone());
        j.run().map_err(|e| format!("{e:?}"))?;
        poison(&i);
        check!(!j.validate(), "local to model: validate accepts a poisoned lock");
        let run = j.run();
        check!(matches!(run, Err(OzzError::LockPoison)), "local to model: a poisoned input gives {run:?}");
    }
    check!(
        m1 == *m2.borrow() && m1 == *m3.read().unwrap(),
        "local to model: the result depends on the kind of buffer"
    );

    // Blending
    let other: Vec<SoaTransform> = (0..soa).map(|_| rand_soa(r)).collect();
    let add: Vec<SoaTransform> = (0..soa).map(|_| rand_soa(r)).collect();
    let ws = [r.unit(), r.unit(), r.unit()];
    let mut b1 = init.clone();
    {
        let mut j: BlendingJobRef = BlendingJob::default();
        j.set_skeleton(&sk);
        j.set_output(&mut b1);
        j.layers_mut().push(BlendingLayer { transform: &input, weight: ws[0], joint_weights: vec![] });
        j.layers_mut().push(BlendingLayer { transform: &other, weight: ws[1], joint_weights: vec![] });
        j.additive_layers_mut().push(BlendingLayer { transform: &add, weight: ws[2], joint_weights: vec![] });
        j.run().map_err(|e| format!("{e:?}"))?;
    }
    let b2 = Rc::new(RefCell::new(init.clone()));
    {
        let rc = |v: &Vec<SoaTransform>| Rc::new(RefCell::new(v.clone()));
        let mut j: BlendingJobRc = BlendingJob::default();
        j.set_skeleton(skr.clone());
        j.set_output(b2.clone());
        j.layers_mut().push(BlendingLayer { transform: rc(&input), weight: ws[0], joint_weights: vec![] });
        j.layers_mut().push(BlendingLayer { transform: rc(&other), weight: ws[1], joint_weights: vec![] });
        j.additive_layers_mut().push(BlendingLayer { transform: rc(&add), weight: ws[2], joint_weights: vec![] });
        j.run().map_err(|e| format!("{e:?}"))?;
    }
    let b3 = Arc::new(RwLock::new(init.clone()));
    {
        let rw = |v: &Vec<SoaTransform>| Arc::new(RwLock::new(v.clone()));
        let mut j: BlendingJobArc = BlendingJob::default();
        j.set_skeleton(sk.clone());
        j.set_output(b3.clone());
        let last = rw(&add);
        j.layers_mut().push(BlendingLayer { transform: rw(&input), weight: ws[0], joint_weights: vec![] });
        j.layers_mut().push(BlendingLayer { transform: rw(&other), weight: ws[1], joint_weights: vec![] });
        j.additive_layers_mut().push(BlendingLayer { transform: last.clone(), weight: ws[2], joint_weights: vec![] });
        j.run().map_err(|e| format!("{e:?}"))?;
        poison(&last);
        let before = b3.read().unwrap().clone();
        check!(!j.validate(), "blending: validate accepts a poisoned lock");
        let run = j.run();
        check!(matches!(run, Err(OzzError::LockPoison)), "blending: a poisoned layer gives {run:?}");
        check!(soas(&before, &b3.read().unwrap()), "blending: a job that failed wrote its output");
    }
    check!(soas(&b1, &b2.borrow()) && soas(&b1, &b3.read().unwrap()), "blending: the result depends on the kind of buffer");

    // Skinning
    let (nv, inf) = (r.range(1, 5), r.range(1, 5));
    let m: Vec<Mat4> = (0..n).map(|_| crate::pose::rand_affine(r, 2.0)).collect();
    let idx: Vec<u16> = (0..nv * inf).map(|_| r.below(n) as u16).collect();
    let w: Vec<f32> = (0..nv * (inf - 1)).map(|_| r.unit() / inf as f32).collect();
    let p: Vec<Vec3> = (0..nv).map(|_| Vec3::new(r.f(-2.0, 2.0), r.f(-2.0, 2.0), r.f(-2.0, 2.0))).collect();
    let z = vec![Vec3::ZERO; nv];
    let (mut p1, mut n1) = (z.clone(), z.clone());
    {
        let mut j: SkinningJobRef = SkinningJob::default();
        j.set_vertex_count(nv);
        j.set_influences_count(inf);
        j.set_joint_matrices(&m);
        j.set_joint_indices(&idx);
        j.set_joint_weights(&w);
        j.set_in_positions(&p);
        j.set_in_normals(&p);
        j.set_out_positions(&mut p1);
        j.set_out_normals(&mut n1);
        j.run().map_err(|e| format!("{e:?}"))?;
    }
    let (p2, n2) = (Rc::new(RefCell::new(z.clone())), Rc::new(RefCell::new(z.clone())));
    {
        let mut j: SkinningJobRc = SkinningJob::default();
        j.set_vertex_count(nv);
        j.set_influences_count(inf);
        j.set_joint_matrices(Rc::new(RefCell::new(m.clone())));
        j.set_joint_indices(Rc::new(RefCell::new(idx.clone())));
        j.set_joint_weights(Rc::new(RefCell::new(w.clone())));
        j.set_in_positions(Rc::new(RefCell::new(p.clone())));
        j.set_in_normals(Rc::new(RefCell::new(p.clone())));
        j.set_out_positions(p2.clone());
        j.set_out_normals(n2.clone());
        j.run().map_err(|e| format!("{e:?}"))?;
    }
    let (p3, n3) = (Arc::new(RwLock::new(z.clone())), Arc::new(RwLock::new(z.clone())));
    {
        let rw = |v: &Vec<Vec3>| Arc::new(RwLock::new(v.clone()));
        let mut j: SkinningJobArc = SkinningJob::default();
        j.set_vertex_count(nv);
        j.set_influences_count(inf);
        j.set_joint_matrices(Arc::new(RwLock::new(m.clone())));
        let li = Arc::new(RwLock::new(idx.clone()));
        j.set_joint_indices(li.clone());
        j.set_joint_weights(Arc::new(RwLock::new(w.clone())));
        j.set_in_positions(rw(&p));
        j.set_in_normals(rw(&p));
        j.set_out_positions(p3.clone());
        j.set_out_normals(n3.clone());
        j.run().map_err(|e| format!("{e:?}"))?;
        let which = r.below(2);
        if which == 0 {
            poison(&li);
        } else {
            poison(&n3);
        }
        check!(!j.validate(), "skinning: validate accepts a poisoned lock");
        let run = j.run();
        check!(matches!(run, Err(OzzError::LockPoison)), "skinning: a poisoned buffer gives {run:?}");
        if which == 1 {
            n3.clear_poison();
        }
    }
    check!(
        p1 == *p2.borrow() && p1 == *p3.read().unwrap() && n1 == *n2.borrow() && n1 == *n3.read().unwrap(),
        "skinning: the result depends on the kind of buffer"
    );
    Ok(())
}
