//! C13 track sampling, C14 track triggering.
use crate::rng::Rng;
use crate::util::*;
use crate::{check, note, R};
use glam::{Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::*;

fn sample_track<V: TV>(r: &mut Rng, quat: bool) -> R {
    let n = match r.below(6) {
        0 => r.below(2),
        1 => r.range(7, 20),
        _ => r.range(1, 8),
    };
    let mut s = rand_track(r, n, V::N);
    if quat {
        for v in s.values.iter_mut() {
            *v = r.unit_quat().to_vec();
        }
    }
    let t = s.load::<V>();
    let n = s.ratios.len();
    let mut j: TrackSamplingJobRef<V> = TrackSamplingJob::default();
    j.set_track(&t);
    for _ in 0..8 {
        let ratio = match r.below(8) {
            0 => r.odd(),
            1 => -r.unit(),
            2 => 1.0 + r.unit(),
            3 | 4 if n > 0 => *r.pick(&s.ratios),
            5 if n > 0 => f32::from_bits(r.pick(&s.ratios).to_bits().saturating_sub(1)),
            _ => r.unit(),
        };
        j.set_ratio(ratio);
        j.run().map_err(|e| format!("a valid track sampling job fails: {e:?}"))?;
        let got = j.result().flat();
        let what = || format!("ratio {ratio} of {s:?}");
        if n == 0 {
            check!(j.result() == V::default(), "an empty track gives {got:?}");
            note("empty track");
            continue;
        }
        if ratio.is_nan() {
            note("NaN ratio");
            continue;
        }
        let mut id = 0;
        for i in 0..n {
            if s.ratios[i] <= ratio {
                id = i;
            }
        }
        if ratio > 1.0 {
            id = n - 1;
        }
        let hold = ratio < s.ratios[0] || id == n - 1 || s.step(id) || ratio > 1.0;
        if hold {
            note(if id == n - 1 { "last key" } else { "step key" });
            for c in 0..V::N {
                check!(got[c] == s.values[id][c], "{}: {got:?} instead of key {id} {:?}", what(), s.values[id]);
            }
            continue;
        }
        let (r0, r1) = (s.ratios[id] as f64, s.ratios[id + 1] as f64);
        let u = (ratio as f64 - r0) / (r1 - r0);
        let (a, b) = (&s.values[id], &s.values[id + 1]);
        note(if u == 0.0 { "linear, at a key" } else { "linear" });
        if quat {
            let dot: f64 = (0..4).map(|c| a[c] as f64 * b[c] as f64).sum();
            if dot.abs() < 1e-3 {
                continue;
            }
            let sg = if dot < 0.0 { -1.0 } else { 1.0 };
            let q: Vec<f64> = (0..4).map(|c| a[c] as f64 * (1.0 - u) + sg * b[c] as f64 * u).collect();
            let l = q.iter().map(|v| v * v).sum::<f64>().sqrt();
            let g = [got[0] as f64, got[1] as f64, got[2] as f64, got[3] as f64];
            check!(
                crate::pose::qclose(g, [q[0] / l, q[1] / l, q[2] / l, q[3] / l], 2e-5),
                "{}: {got:?} instead of {q:?} (norm {l})",
                what()
            );
            continue;
        }
        for c in 0..V::N {
            let want = a[c] as f64 * (1.0 - u) + b[c] as f64 * u;
            if u == 0.0 {
                check!(got[c] == a[c], "{}: {got:?} instead of key {id} {a:?}", what());
            }
            check!(
                close(got[c], want, 2e-6 * (a[c].abs() + b[c].abs()) as f64, 0.0),
                "{}: component {c} {} instead of {want} between keys {id} and {}",
                what(),
                got[c],
                id + 1
            );
        }
    }
    Ok(())
}

pub fn c13(r: &mut Rng, idx: u64) -> R {
    match idx % 5 {
        0 => sample_track::<f32>(r, false),
        1 => sample_track::<Vec2>(r, false),
        2 => sample_track::<Vec3>(r, false),
        3 => sample_track::<Vec4>(r, false),
        _ => sample_track::<Quat>(r, true),
    }
}

fn edges(t: &Track<f32>, from: f32, to: f32, th: f32) -> Result<Vec<(f32, bool)>, String> {
    let mut j: TrackTriggeringJobRef = TrackTriggeringJob::default();
    j.set_track(t);
    j.set_from(from);
    j.set_to(to);
    j.set_threshold(th);
    let mut v = Vec::new();
    for e in j.run().map_err(|e| format!("a valid triggering job fails: {e:?}"))? {
        let x = serde_json::to_value(e).unwrap();
        let (ratio, rising) = (x["ratio"].as_f64().unwrap_or(f64::NAN) as f32, x["rising"].as_bool().unwrap());
        check!(e == Edge::new(ratio, rising), "edge {e:?} is not what it shows");
        v.push((ratio, rising));
        check!(v.len() < 400_000, "endless edges from {from} to {to}");
    }
    Ok(v)
}

pub fn c14(r: &mut Rng, idx: u64) -> R {
    let n = match r.below(8) {
        0 => r.below(3),
        1 => r.range(8, 18),
        _ => r.range(2, 8),
    };
    let mut s = rand_track(r, n, 1);
    if idx % 4 != 0 {
        // times that add up exactly with the loop number
        s.ratios.iter_mut().for_each(|v| *v = (*v * 64.0).floor() / 64.0);
        let mut k = 0;
        while k + 1 < s.ratios.len() {
            if s.ratios[k] >= s.ratios[k + 1] {
                s.ratios.remove(k + 1);
                s.values.remove(k + 1);
            } else {
                k += 1;
            }
        }
        s.steps.truncate(s.ratios.len().div_ceil(8));
    }
    let n = s.ratios.len();
    let t = s.load::<f32>();
    let big = r.chance(1, 10);
    let th = if n > 0 && r.chance(1, 2) { r.pick(&s.values)[0] } else { r.below(5) as f32 - 2.0 + 0.5 * r.below(2) as f32 };
    // the crossings of one loop: (ratio, rising, exactly known)
    let mut one: Vec<(f64, bool, bool)> = Vec::new();
    for i in 0..n {
        let p = if i == 0 { n - 1 } else { i - 1 };
        let (a, b) = (s.values[p][0], s.values[i][0]);
        if (a > th) == (b > th) {
            continue;
        }
        if s.step(p) {
            one.push((s.ratios[i] as f64, b > th, true));
        } else if i == 0 {
            one.push((0.0, b > th, true));
        } else {
            let al = (th as f64 - a as f64) / (b as f64 - a as f64);
            let e = s.ratios[p] as f64 + (s.ratios[i] as f64 - s.ratios[p] as f64) * al;
            one.push((e, b > th, al == 0.0 || al == 1.0));
        }
    }
    let bound = |r: &mut Rng| {
        let lim = if big { 2000 } else { 5 };
        let l = r.below(2 * lim + 1) as f32 - lim as f32;
        l + match r.below(6) {
            0 => 0.0,
            1 if n > 0 => *r.pick(&s.ratios),
            2 if !one.is_empty() => r.pick(&one).0 as f32,
            3 => r.below(65) as f32 / 64.0,
            _ => r.unit(),
        }
    };
    let mut b = [bound(r), bound(r), bound(r)];
    if big {
        b[1] = b[0] + r.f(-3.0, 3.0);
        b[2] = b[1] + r.f(-3.0, 3.0);
    }
    if r.chance(1, 8) {
        b[1] = b[0];
    }
    b.sort_by(|x, y| x.partial_cmp(y).unwrap());
    let [lo, mid, hi] = b;
    let tol = 3e-6 * (1.0 + hi.abs().max(lo.abs()) as f64);
    let mut want: Vec<(f64, bool)> = Vec::new();
    let mut amb = false;
    let mut l = (lo as f64).floor();
    while l <= hi as f64 {
        for (e, rising, exact) in &one {
            let x = e + l;
            let exact = *exact && (x as f32) as f64 == x;
            for (bd, rel) in [(lo as f64, 0), (hi as f64, 1)] {
                if (x - bd).abs() < tol && !(exact || (x == bd && false)) {
                    amb = true;
                }
                let _ = rel;
            }
            if x >= lo as f64 && (x < hi as f64 || hi as f64 >= 1.0 + l) && lo < hi {
                want.push((x, *rising));
            }
        }
        l += 1.0;
    }
    let what = format!("from {lo} to {hi}, threshold {th}, {s:?}");
    let fwd = edges(&t, lo, hi, th)?;
    let mut bwd = edges(&t, hi, lo, th)?;
    if !amb {
        check!(fwd.len() == want.len(), "{what}: the edges are {fwd:?} instead of {want:?}");
        for (g, w) in fwd.iter().zip(&want) {
            check!((g.0 as f64 - w.0).abs() <= tol && g.1 == w.1, "{what}: edge {g:?} instead of {w:?}");
            note(if w.1 { "rising" } else { "falling" });
        }
    } else {
        note("edge next to a bound");
    }
    bwd.reverse();
    check!(
        bwd.len() == fwd.len() && bwd.iter().zip(&fwd).all(|(a, b)| a.0 == b.0 && a.1 != b.1),
        "{what}: backward (reversed) {bwd:?}, forward {fwd:?}"
    );
    let mut parts = edges(&t, lo, mid, th)?;
    parts.extend(edges(&t, mid, hi, th)?);
    check!(parts == fwd, "{what}: cut at {mid} the edges are {parts:?}, in one {fwd:?}");
    let mut parts = edges(&t, mid, lo, th)?;
    let mut whole = edges(&t, hi, mid, th)?;
    whole.append(&mut parts);
    whole.reverse();
    check!(whole == bwd, "{what}: cut at {mid} and played backward the edges are {whole:?}, in one {bwd:?}");
    check!(edges(&t, lo, lo, th)?.is_empty(), "an empty range has edges");
    Ok(())
}
