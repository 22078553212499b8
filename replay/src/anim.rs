//! C01 history independence, C02 bracketing and interpolation, C03 decompression, C04 seek streams.
use crate::rng::Rng;
use crate::util::*;
use crate::{check, note, R};
use ozz_animation_rs::animation::{Float3Key, QuaternionKey};
use ozz_animation_rs::*;

fn sample(a: &Animation, c: &mut SamplingContext, ratio: f32, out: &mut [SoaTransform]) -> Result<f32, String> {
    let mut j: SamplingJobRef = SamplingJob::default();
    j.set_animation(a);
    j.set_context(c);
    j.set_output(out);
    j.set_ratio(ratio);
    let r = j.ratio();
    j.run().map_err(|e| format!("run of a valid sampling job failed: {e:?}"))?;
    Ok(r)
}

fn some_ratio(r: &mut Rng, a: &AnimSpec, last: f32) -> f32 {
    match r.below(12) {
        0 => 0.0,
        1 => 1.0,
        2 | 3 => *r.pick(&a.timepoints),
        4 => f32::from_bits(r.pick(&a.timepoints).to_bits().wrapping_add(1)).clamp(0.0, 1.0),
        5 => f32::from_bits(r.pick(&a.timepoints).to_bits().saturating_sub(1)).clamp(0.0, 1.0),
        6 | 7 => (last + r.f(-0.05, 0.05)).clamp(0.0, 1.0),
        8 => {
            let k = r.range(1, 6) as f32;
            let iv = [a.t.interval, a.r.interval, a.s.interval][r.below(3)];
            (k * iv).clamp(0.0, 1.0)
        }
        9 => {
            let iv = [a.t.interval, a.r.interval, a.s.interval][r.below(3)];
            (last + iv * 0.5 * if r.chance(1, 2) { 1.0 } else { -1.0 }).clamp(0.0, 1.0)
        }
        _ => r.unit(),
    }
}

pub fn c01(r: &mut Rng, idx: u64) -> R {
    let n_anim = r.range(1, 3);
    let size = |r: &mut Rng| match r.below(8) {
        0 => 0,
        1 | 2 => r.range(1, 4),
        3..=5 => r.range(1, 40),
        6 => r.range(30, 70),
        _ => r.range(120, 300),
    };
    let mut specs = Vec::new();
    for i in 0..n_anim {
        let mut n = size(r);
        if i == 0 && idx % 4 == 0 {
            n = *r.pick(&[1usize, 3, 4, 5, 31, 32, 33, 36, 64, 65]);
        }
        specs.push(rand_anim(r, n));
    }
    let anims: Vec<Animation> = specs.iter().map(|s| s.load()).collect();
    let max = specs.iter().map(|s| s.soa()).max().unwrap() * 4;
    let room = if r.chance(1, 2) { 0 } else { r.below(80) };
    let mut ctx = SamplingContext::new(max + room);
    let mut last = vec![0f32; n_anim];
    let mut cur = 0;
    let mut hist: Vec<(usize, f32)> = Vec::new();
    for step in 0..r.range(4, 24) {
        if step > 0 && r.chance(1, 6) {
            cur = r.below(n_anim);
            note("animation switch");
        }
        if r.chance(1, 40) {
            ctx.clear();
            note("context cleared");
        }
        if r.chance(1, 30) {
            ctx = ctx.clone();
            note("context cloned");
        }
        let ratio = some_ratio(r, &specs[cur], last[cur]);
        let soa = specs[cur].soa();
        hist.push((cur, ratio));
        let mut fresh_ctx = SamplingContext::new(soa * 4);
        let mut want = vec![SoaTransform::default(); soa];
        let mut got = vec![SoaTransform::default(); soa];
        sample(&anims[cur], &mut fresh_ctx, ratio, &mut want)?;
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            sample(&anims[cur], &mut ctx, ratio, &mut got)
        }));
        match res {
            Err(_) => return Err(format!("sampling panics after the history {hist:?} (tracks {:?})", specs.iter().map(|s| s.num_tracks).collect::<Vec<_>>())),
            Ok(e) => {
                e?;
            }
        }
        for i in 0..soa {
            check!(
                same_soa(&got[i], &want[i]),
                "pose depends on the history {hist:?} (animation, ratio): soa track {i} of {soa}: {:?} instead of {:?}",
                got[i],
                want[i]
            );
        }
        if ratio < last[cur] {
            note("backward");
        } else {
            note("forward");
        }
        last[cur] = ratio;
    }
    Ok(())
}

fn keys_of(k: &Keys, track: usize) -> Vec<usize> {
    (0..k.keys.len()).filter(|i| k.track[*i] as usize == track).collect()
}

pub fn half(v: u16) -> f64 {
    let s = if v & 0x8000 != 0 { -1.0 } else { 1.0 };
    let e = (v >> 10 & 31) as i32;
    let m = (v & 1023) as f64;
    match e {
        0 => s * m * 2f64.powi(-24),
        31 => s * if m == 0.0 { f64::INFINITY } else { f64::NAN },
        _ => s * (1.0 + m / 1024.0) * 2f64.powi(e - 15),
    }
}

pub fn unpack(v: [u16; 3]) -> [f64; 4] {
    let b = v[0] as u64 | (v[1] as u64) << 16 | (v[2] as u64) << 32;
    let big = (b & 3) as usize;
    let c = [b >> 3 & 0x7fff, b >> 18 & 0x7fff, b >> 33 & 0x7fff];
    let mut q = [0f64; 4];
    let mut n = 0;
    let mut dot = 0.0;
    for i in 0..4 {
        if i != big {
            q[i] = c[n] as f64 * (2f64.sqrt() / 32767.0) - 2f64.sqrt() / 2.0;
            dot += q[i] * q[i];
            n += 1;
        }
    }
    q[big] = (1.0 - dot).max(0.0).sqrt() * if b >> 2 & 1 != 0 { -1.0 } else { 1.0 };
    q
}

pub fn c02(r: &mut Rng, idx: u64) -> R {
    let n = match idx % 4 {
        3 if idx % 64 == 7 => r.range(250, 530),
        0 => r.range(0, 5),
        1 => r.range(1, 12),
        2 => r.range(1, 40),
        _ => r.range(28, 70),
    };
    let spec = rand_anim(r, n);
    let a = spec.load();
    let soa = spec.soa();
    for _ in 0..6 {
        let odd = r.chance(1, 5);
        let ratio = if odd { r.odd() } else { some_ratio(r, &spec, 0.5) };
        let extra = if r.chance(1, 3) { r.below(5) } else { 0 };
        let fill: Vec<SoaTransform> = (0..soa + extra).map(|_| rand_soa(r)).collect();
        let mut out = fill.clone();
        let mut ctx = SamplingContext::new(soa * 4 + if r.chance(1, 3) { 37 } else { 0 });
        let used = sample(&a, &mut ctx, ratio, &mut out)?;
        if ratio.is_nan() {
            check!((0.0..=1.0).contains(&used), "ratio NaN becomes {used}");
            note("NaN ratio");
        } else {
            check!(used == ratio.clamp(0.0, 1.0), "ratio {ratio} becomes {used}");
        }
        for i in soa..soa + extra {
            check!(same_soa(&out[i], &fill[i]), "output element {i} beyond the {soa} soa tracks was written");
        }
        let x = used as f64;
        for t in 0..spec.num_tracks as usize {
            let f = soa_flat(&out[t / 4]);
            let l = t & 3;
            for (kind, keys) in [&spec.t, &spec.r, &spec.s].into_iter().enumerate() {
                let ks = keys_of(keys, t);
                let time = |k: usize| spec.timepoints[keys.ratios[k] as usize] as f64;
                let mut seg = 0;
                for i in 0..ks.len() - 1 {
                    if time(ks[i]) <= x {
                        seg = i;
                    }
                }
                let (k0, k1) = (ks[seg], ks[seg + 1]);
                let (t0, t1) = (time(k0), time(k1));
                let u = (x - t0) / (t1 - t0);
                if kind == 1 {
                    let (q0, q1) = (unpack(keys.keys[k0]), unpack(keys.keys[k1]));
                    let mut q = [0f64; 4];
                    for c in 0..4 {
                        q[c] = q0[c] * (1.0 - u) + q1[c] * u;
                    }
                    let n = q.iter().map(|v| v * v).sum::<f64>().sqrt();
                    if n < 0.05 {
                        note("nearly opposite rotations");
                        continue;
                    }
                    for c in 0..4 {
                        let got = f[(3 + c) * 4 + l];
                        check!(
                            close(got, q[c] / n, 3e-3 * 1e-1, 1e-4),
                            "rotation of track {t} at ratio {used} is not the normalised interpolation of keys {k0} and {k1}: component {c} {got} instead of {}",
                            q[c] / n
                        );
                    }
                } else {
                    for c in 0..3 {
                        let (v0, v1) = (half(keys.keys[k0][c]), half(keys.keys[k1][c]));
                        let want = v0 * (1.0 - u) + v1 * u;
                        let got = f[(if kind == 0 { c } else { 7 + c }) * 4 + l];
                        check!(
                            close(got, want, 4e-6 * (v0.abs() + v1.abs()) + 1e-30, 0.0),
                            "{} of track {t} at ratio {used} is not the interpolation of keys {k0} ({v0} at {t0}) and {k1} ({v1} at {t1}): component {c} {got} instead of {want}",
                            if kind == 0 { "translation" } else { "scale" }
                        );
                    }
                }
            }
        }
    }
    Ok(())
}

fn check_quat(k: [u16; 3], got: [f32; 4]) -> R {
    let want = unpack(k);
    let big = (k[0] & 3) as usize;
    for i in 0..4 {
        if i != big {
            check!(close(got[i], want[i], 3e-7, 0.0), "quaternion key {k:04x?}: component {i} {} instead of {}", got[i], want[i]);
        } else {
            let (g2, w2) = ((got[i] as f64).powi(2), want[i].powi(2));
            check!(
                (g2 - w2).abs() < 2e-6,
                "quaternion key {k:04x?}: largest component {} instead of {}",
                got[i],
                want[i]
            );
            if w2 > 1e-5 {
                check!((got[i] < 0.0) == (k[0] & 4 != 0), "quaternion key {k:04x?}: wrong sign of the largest component {}", got[i]);
            }
        }
    }
    Ok(())
}

pub fn c03(r: &mut Rng, idx: u64) -> R {
    // every half float once over the 4096 planned cases, in each lane and component
    for i in 0..16u32 {
        let h = (idx as u32 % 4096 * 16 + i) as u16;
        let others: [u16; 3] = [r.u16(), r.u16(), r.u16()];
        for lane in 0..4 {
            let c = (lane + i as usize) % 3;
            let mut k = [[others[0], others[1], others[2]]; 4];
            for (l, kk) in k.iter_mut().enumerate() {
                if l != lane {
                    *kk = [r.u16(), r.u16(), r.u16()];
                }
            }
            k[lane][c] = h;
            let keys: Vec<Float3Key> = k.iter().map(|k| Float3Key::new(*k)).collect();
            let mut soa = SoaVec3::default();
            Float3Key::simd_decompress(&keys[0], &keys[1], &keys[2], &keys[3], &mut soa);
            let s = [*soa.x.as_array(), *soa.y.as_array(), *soa.z.as_array()];
            for l in 0..4 {
                let one = keys[l].decompress();
                for cc in 0..3 {
                    let want = half(k[l][cc]);
                    if want.is_finite() {
                        check!(
                            one[cc] as f64 == want && one[cc].is_sign_negative() == (k[l][cc] & 0x8000 != 0),
                            "half float {:04x} decodes to {} instead of {want}",
                            k[l][cc],
                            one[cc]
                        );
                    }
                    check!(
                        same(one[cc], s[cc][l]),
                        "half float {:04x}: {} alone but {} in lane {l} of four",
                        k[l][cc],
                        one[cc],
                        s[cc][l]
                    );
                }
            }
        }
    }
    for _ in 0..64 {
        let mut k = [[0u16; 3]; 4];
        for kk in k.iter_mut() {
            *kk = match r.below(8) {
                0 => rand_quat_key(r),
                1 => rand_quat_key(r),
                2 => {
                    let c = |r: &mut Rng| *r.pick(&[0u64, 1, 16383, 16384, 32766, 32767]);
                    let p = r.u64() & 7 | c(r) << 3 | c(r) << 18 | c(r) << 33;
                    [p as u16, (p >> 16) as u16, (p >> 32) as u16]
                }
                3 => {
                    let q = rand_quat_key(r);
                    [q[0] & !3 | r.below(4) as u16, q[1], q[2]]
                }
                _ => [r.u16(), r.u16(), r.u16()],
            };
        }
        let keys: Vec<QuaternionKey> = k.iter().map(|k| QuaternionKey::new(*k)).collect();
        let mut soa = SoaQuat::default();
        QuaternionKey::simd_decompress(&keys[0], &keys[1], &keys[2], &keys[3], &mut soa);
        for l in 0..4 {
            let one = keys[l].decompress();
            let one = [one.x, one.y, one.z, one.w];
            let four = [soa.x[l], soa.y[l], soa.z[l], soa.w[l]];
            check_quat(k[l], one)?;
            for c in 0..4 {
                check!(
                    one[c].to_bits() == four[c].to_bits(),
                    "quaternion key {:04x?}: component {c} is {} alone but {} in lane {l} of four",
                    k[l],
                    one[c],
                    four[c]
                );
            }
        }
    }
    Ok(())
}

/// A minimal animation with many keys: track t has a key at every time point.
fn many_keys(r: &mut Rng, tracks: usize, points: usize, seeks: &[usize]) -> AnimSpec {
    let timepoints: Vec<f32> = (0..points).map(|i| i as f32 / (points - 1) as f32).collect();
    let mut a = AnimSpec { duration: 1.0, num_tracks: tracks as u32, timepoints, ..Default::default() };
    let aligned = tracks.div_ceil(4) * 4;
    let small = |r: &mut Rng, quat: bool| {
        let mut k = Keys { interval: 1.0, ..Default::default() };
        for i in 0..aligned * 2 {
            k.keys.push(if quat { rand_quat_key(r) } else { [0x3C00 + r.below(1000) as u16, 0, 0x3800] });
            k.ratios.push(if i < aligned { 0 } else { points as u16 - 1 });
            k.prev.push(if i < aligned { 0 } else { aligned as u16 });
            k.track.push((i % aligned) as u32);
        }
        k
    };
    a.r = small(r, true);
    a.s = small(r, false);
    let mut k = Keys::default();
    // times 0 and 1, then in order of the predecessor's time
    for p in 0..points {
        for t in 0..aligned {
            if t >= tracks && p >= 2 {
                continue;
            }
            k.keys.push([0x3C00 + ((p + t) % 1000) as u16, (t % 1000) as u16, 0x3800]);
            k.ratios.push(if t >= tracks && p == 1 { points as u16 - 1 } else { p as u16 });
            k.prev.push(match p {
                0 => 0,
                1 => aligned as u16,
                2 => (aligned) as u16,
                _ => tracks as u16,
            });
            k.track.push(t as u32);
        }
    }
    k.interval = 1.0 / seeks.len() as f32;
    for _ in seeks {
        let p = k.points.len() + 1;
        let at = (p as f32 * k.interval).min(1.0);
        let mut e: Vec<u32> = vec![0; aligned];
        let passed = a.timepoints.iter().filter(|t| **t <= at).count(); // keys p <= passed are right hand
        let last_p = passed.min(points - 1);
        let at_p = |p: usize, t: usize| if p <= 1 { p * aligned + t } else { 2 * aligned + (p - 2) * tracks + t };
        for t in 0..aligned {
            e[t] = if t < tracks { at_p(last_p, t) } else { aligned + t } as u32;
        }
        k.desc.push(k.entries.len() as u32);
        k.desc.push(at_p(last_p, tracks - 1) as u32);
        if last_p == 1 {
            let n = k.desc.len();
            k.desc[n - 1] = aligned as u32 * 2 - 1;
        }
        gv4(&e, &mut k.entries);
        k.points.push(e);
    }
    a.t = k;
    a
}

pub fn c04(r: &mut Rng, idx: u64) -> R {
    let spec = if idx == 0 {
        note("keys beyond 2^24");
        many_keys(r, 260, 65535, &[0, 1, 2])
    } else if idx % 64 == 1 {
        note("keys beyond 2^16");
        let t = r.range(40, 90);
        let p = 70_000 / t + r.below(900);
        many_keys(r, t, p, &[0; 5])
    } else {
        let n = match r.below(4) {
            0 => r.range(1, 8),
            1 => r.range(1, 40),
            2 => r.range(100, 300),
            _ => r.range(250, 520),
        };
        let np = r.range(2, 30);
        let tps = rand_timepoints(r, np);
        let mut a = AnimSpec { duration: 1.0, num_tracks: n as u32, ..Default::default() };
        let d = *r.pick(&[0usize, 1, 4]);
        a.t = rand_keys(r, n, &tps, false, d, true);
        let d = *r.pick(&[0usize, 1, 4]);
        a.r = rand_keys(r, n, &tps, true, d, true);
        let d = *r.pick(&[0usize, 1, 4]);
        a.s = rand_keys(r, n, &tps, false, d, true);
        a.timepoints = tps;
        a
    };
    let a = spec.load();
    let soa = spec.soa();
    let room = if r.chance(1, 2) { 0 } else { r.below(70) };
    for kind in 0..3 {
        let k = [&spec.t, &spec.r, &spec.s][kind];
        for p in 0..k.points.len() {
            let at = ((p + 1) as f32 * k.interval).min(1.0);
            if (0.5 + at / k.interval) as usize != p + 1 {
                continue;
            }
            let mut ctx = SamplingContext::new(soa * 4 + room);
            let mut out = vec![SoaTransform::default(); soa];
            sample(&a, &mut ctx, at, &mut out)?;
            let (e, next) = match kind {
                0 => (ctx.translation_entries(), ctx.translation_next()),
                1 => (ctx.rotation_entries(), ctx.rotation_next()),
                _ => (ctx.scale_entries(), ctx.scale_next()),
            };
            note("seek");
            check!(
                next == k.desc[p * 2 + 1] as usize + 1,
                "after seeking to point {} ({at}) the next key is {next} instead of {}",
                p + 1,
                k.desc[p * 2 + 1] + 1
            );
            for t in 0..soa * 4 {
                check!(
                    e[t] == k.points[p][t],
                    "seek point {}: entry {t} decoded as {} instead of {}",
                    p + 1,
                    e[t],
                    k.points[p][t]
                );
            }
            for t in soa * 4..e.len() {
                check!(e[t] == 0, "seek point {}: entry {t} beyond the {} tracks was written", p + 1, soa * 4);
            }
        }
    }
    Ok(())
}
