//! C17 math kernel (public operations), C18 trigonometry.
use crate::pose::{m64, mat_of};
use crate::rng::Rng;
use crate::util::*;
use crate::{check, note, R};
use glam::{Mat4, Quat, Vec3};
use glam_ext::Transform3A;
use ozz_animation_rs::math::*;
use ozz_animation_rs::{SoaQuat, SoaTransform, SoaVec3};
use std::simd::prelude::*;

type V = [f64; 4];

fn a4(r: &mut Rng, odd: bool) -> [f32; 4] {
    std::array::from_fn(|_| if odd { r.odd() } else { r.f(-8.0, 8.0) })
}
fn v3(r: &mut Rng, odd: bool) -> SoaVec3 {
    SoaVec3::new(a4(r, odd), a4(r, odd), a4(r, odd))
}
fn q4(r: &mut Rng, odd: bool) -> SoaQuat {
    SoaQuat::new(a4(r, odd), a4(r, odd), a4(r, odd), a4(r, odd))
}
fn comps3(v: &SoaVec3) -> [[f32; 4]; 3] {
    [v.x.to_array(), v.y.to_array(), v.z.to_array()]
}
fn comps4(v: &SoaQuat) -> [[f32; 4]; 4] {
    [v.x.to_array(), v.y.to_array(), v.z.to_array(), v.w.to_array()]
}
fn lane<const N: usize>(c: &[[f32; 4]; N], l: usize) -> [f32; N] {
    std::array::from_fn(|i| c[i][l])
}

/// `got` equals `want` up to a small multiple of the magnitude of the terms.
fn near<const N: usize>(what: &str, l: usize, got: [f32; N], want: [f64; N], mag: f64) -> R {
    for i in 0..N {
        check!(
            (got[i] as f64 - want[i]).abs() <= 4e-6 * mag.max(want[i].abs()) + 1e-30,
            "{what}: component {i} of lane {l} is {}, not {}",
            got[i],
            want[i]
        );
    }
    Ok(())
}
fn exact<const N: usize>(what: &str, l: usize, got: [f32; N], want: [f32; N]) -> R {
    for i in 0..N {
        check!(same(got[i], want[i]), "{what}: component {i} of lane {l} is {}, not {}", got[i], want[i]);
    }
    Ok(())
}
fn big<const N: usize>(a: &[f32; N]) -> f64 {
    a.iter().fold(1.0, |m, x| m.max(x.abs() as f64))
}

fn vec3s(r: &mut Rng) -> R {
    let odd = r.chance(1, 3);
    let (a, b, f) = (v3(r, odd), v3(r, odd), a4(r, odd));
    let fv = f32x4::from_array(f);
    let (ca, cb) = (comps3(&a), comps3(&b));
    let res = [
        ("SoaVec3::neg", a.neg(), 0),
        ("SoaVec3::add", a.add(&b), 1),
        ("SoaVec3::sub", a.sub(&b), 2),
        ("SoaVec3::mul_num", a.mul_num(fv), 3),
    ];
    for (what, got, op) in &res {
        let cg = comps3(got);
        for l in 0..4 {
            let (x, y) = (lane(&ca, l), lane(&cb, l));
            let want = std::array::from_fn(|i| match op {
                0 => -x[i],
                1 => x[i] + y[i],
                2 => x[i] - y[i],
                _ => x[i] * f[l],
            });
            exact(what, l, lane(&cg, l), want)?;
        }
    }
    if !odd {
        let al: [f32; 4] = std::array::from_fn(|_| *r.pick(&[0.0f32, 1.0, 0.5, 0.25, 0.9]));
        let cg = comps3(&SoaVec3::lerp(&a, &b, f32x4::from_array(al)));
        for l in 0..4 {
            let (x, y) = (lane(&ca, l), lane(&cb, l));
            let t = al[l] as f64;
            near(
                "SoaVec3::lerp",
                l,
                lane(&cg, l),
                std::array::from_fn(|i| x[i] as f64 * (1.0 - t) + y[i] as f64 * t),
                16.0,
            )?;
        }
    }
    // Masks and layout.
    let m: [i32; 4] = std::array::from_fn(|_| *r.pick(&[0i32, -1, i32::MIN, 1, 0x7FFF_FFFF]));
    let mv = i32x4::from_array(m);
    for (what, got, op) in
        [("and_num", a.and_num(mv), 0), ("or_num", a.or_num(mv), 1), ("xor_num", a.xor_num(mv), 2)]
    {
        let cg = comps3(&got);
        for l in 0..4 {
            let x = lane(&ca, l);
            for i in 0..3 {
                let b = x[i].to_bits();
                let k = m[l] as u32;
                let w = [b & k, b | k, b ^ k][op];
                check!(cg[i][l].to_bits() == w, "SoaVec3::{what} lane {l}: {:08x}, not {w:08x}", cg[i][l].to_bits());
            }
        }
    }
    let mut c = a;
    let k = r.below(4);
    let nv = Vec3::new(r.odd(), r.odd(), r.odd());
    c.set_vec3(k, nv);
    let cc = comps3(&c);
    for l in 0..4 {
        let want = if l == k { nv.to_array() } else { lane(&ca, l) };
        exact("SoaVec3::set_vec3", l, lane(&cc, l), want)?;
        exact("SoaVec3::vec3", l, c.vec3(l).to_array(), lane(&cc, l))?;
        exact("SoaVec3::splat_vec3", l, SoaVec3::splat_vec3(nv).vec3(l).to_array(), nv.to_array())?;
        exact("SoaVec3::splat", l, SoaVec3::splat(nv.x).vec3(l).to_array(), [nv.x; 3])?;
    }
    Ok(())
}

fn qm(a: V, b: V) -> V {
    [
        a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1],
        a[3] * b[1] + a[1] * b[3] + a[2] * b[0] - a[0] * b[2],
        a[3] * b[2] + a[2] * b[3] + a[0] * b[1] - a[1] * b[0],
        a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2],
    ]
}

fn quats(r: &mut Rng) -> R {
    let odd = r.chance(1, 4);
    let (a, b, f) = (q4(r, odd), q4(r, odd), a4(r, odd));
    let fv = f32x4::from_array(f);
    let (ca, cb) = (comps4(&a), comps4(&b));
    for (what, got, op) in [
        ("SoaQuat::conjugate", a.conjugate(), 0),
        ("SoaQuat::add", a.add(&b), 1),
        ("SoaQuat::mul_num", a.mul_num(fv), 2),
    ] {
        let cg = comps4(&got);
        for l in 0..4 {
            let (x, y) = (lane(&ca, l), lane(&cb, l));
            let want = std::array::from_fn(|i| match op {
                0 if i < 3 => -x[i],
                0 => x[i],
                1 => x[i] + y[i],
                _ => x[i] * f[l],
            });
            exact(what, l, lane(&cg, l), want)?;
        }
    }
    let m: [i32; 4] = std::array::from_fn(|_| *r.pick(&[0i32, -1, i32::MIN, 1, 0x7FFF_FFFF]));
    let mv = i32x4::from_array(m);
    for (what, got, op) in
        [("and_num", a.and_num(mv), 0), ("or_num", a.or_num(mv), 1), ("xor_num", a.xor_num(mv), 2)]
    {
        let cg = comps4(&got);
        for l in 0..4 {
            let x = lane(&ca, l);
            for i in 0..4 {
                let b = x[i].to_bits();
                let k = m[l] as u32;
                let w = [b & k, b | k, b ^ k][op];
                check!(cg[i][l].to_bits() == w, "SoaQuat::{what} lane {l}: {:08x}, not {w:08x}", cg[i][l].to_bits());
            }
        }
    }
    let p = comps4(&a.positive_w());
    for l in 0..4 {
        let x = lane(&ca, l);
        let want = if x[3] < 0.0 { x.map(|v| -v) } else { x };
        exact("SoaQuat::positive_w", l, lane(&p, l), want)?;
    }
    let mut c = a;
    let k = r.below(4);
    let nv = Quat::from_xyzw(r.odd(), r.odd(), r.odd(), r.odd());
    c.set_quat(k, nv);
    let cc = comps4(&c);
    for l in 0..4 {
        exact("SoaQuat::set_quat", l, lane(&cc, l), if l == k { nv.to_array() } else { lane(&ca, l) })?;
        exact("SoaQuat::quat", l, c.quat(l).to_array(), lane(&cc, l))?;
        exact("SoaQuat::splat_quat", l, SoaQuat::splat_quat(nv).quat(l).to_array(), nv.to_array())?;
        exact("SoaQuat::splat", l, SoaQuat::splat(nv.x).quat(l).to_array(), [nv.x; 4])?;
    }
    if odd {
        return Ok(());
    }
    let al: [f32; 4] = std::array::from_fn(|_| *r.pick(&[0.0f32, 1.0, 0.5, 0.25, 0.9]));
    let (pm, pd, pn, pl) =
        (comps4(&a.mul(&b)), a.dot(&b).to_array(), comps4(&a.normalize()), comps4(&a.nlerp(&b, f32x4::from_array(al))));
    for l in 0..4 {
        let (x, y) = (lane(&ca, l).map(|v| v as f64), lane(&cb, l).map(|v| v as f64));
        near("SoaQuat::mul", l, lane(&pm, l), qm(x, y), 256.0)?;
        let d: f64 = (0..4).map(|i| x[i] * y[i]).sum();
        near("SoaQuat::dot", l, [pd[l]], [d], 256.0)?;
        let n = x.iter().map(|v| v * v).sum::<f64>().sqrt();
        if n > 0.1 {
            near("SoaQuat::normalize", l, lane(&pn, l), x.map(|v| v / n), 1.0)?;
        }
        let t = al[l] as f64;
        let z: V = std::array::from_fn(|i| x[i] * (1.0 - t) + y[i] * t);
        let n = z.iter().map(|v| v * v).sum::<f64>().sqrt();
        if n > 1.0 {
            near("SoaQuat::nlerp", l, lane(&pl, l), z.map(|v| v / n), 16.0)?;
        }
    }
    Ok(())
}

fn transforms(r: &mut Rng) -> R {
    let a = rand_soa(r);
    let fl = soa_flat(&a);
    let nt = Transform3A::new(
        Vec3::new(r.odd(), r.odd(), r.odd()),
        Quat::from_xyzw(r.odd(), r.odd(), r.odd(), r.odd()),
        Vec3::new(r.odd(), r.odd(), r.odd()),
    );
    let flat = |t: &Transform3A| -> [f32; 10] {
        let q = t.rotation.to_array();
        [
            t.translation.x, t.translation.y, t.translation.z, q[0], q[1], q[2], q[3], t.scale.x, t.scale.y, t.scale.z,
        ]
    };
    let k = r.below(4);
    let mut c = a;
    c.set_transform(k, nt);
    for l in 0..4 {
        let old: [f32; 10] = std::array::from_fn(|i| fl[i * 4 + l]);
        exact("SoaTransform::transform", l, flat(&a.transform(l)), old)?;
        exact("SoaTransform::set_transform", l, flat(&c.transform(l)), if l == k { flat(&nt) } else { old })?;
        exact("SoaTransform::splat_transform", l, flat(&SoaTransform::splat_transform(nt).transform(l)), flat(&nt))?;
    }
    // from_affine: 16 columns, lane by lane
    let m = SoaMat4::from_affine(&a.translation, &a.rotation, &a.scale);
    for l in 0..4 {
        let (t, q, s) = trs(std::slice::from_ref(&a), l);
        let want = mat_of(t, q, s);
        let got: [f32; 16] = std::array::from_fn(|i| m.cols[i][l]);
        near("SoaMat4::from_affine", l, got, want, big(&got.map(|x| x.clamp(-10.0, 10.0))))?;
    }
    let id = Mat4::IDENTITY;
    let i = SoaTransform::IDENTITY;
    let m = SoaMat4::from_affine(&i.translation, &i.rotation, &i.scale);
    for l in 0..4 {
        let got: [f32; 16] = std::array::from_fn(|i| m.cols[i][l]);
        let w = m64(&id);
        for c in 0..16 {
            check!(got[c] as f64 == w[c], "the identity transform's matrix has {} at {c}", got[c]);
        }
    }
    Ok(())
}

pub fn c17(r: &mut Rng, idx: u64) -> R {
    note("cases");
    match idx % 4 {
        0 => vec3s(r),
        1 | 2 => quats(r),
        _ => transforms(r),
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C18
// ---------------------------------------------------------------------------------------------------------------

/// Bounds of the contracts in verus/trig.rs.
pub const SIN_ERR: f64 = 3e-7;
pub const ASIN_ERR: f64 = 4e-7;
pub const ACOS_ERR: f64 = 6.5e-7;

fn trig(x: f32) -> R {
    if x.is_nan() {
        return Ok(());
    }
    if x.abs() <= 1.0 {
        let (a, c) = (f32_asin(x), f32_acos(x));
        let xd = x as f64;
        check!((a as f64 - xd.asin()).abs() <= ASIN_ERR, "asin({x:?}) = {a:?}, not {:?}", xd.asin());
        check!((c as f64 - xd.acos()).abs() <= ACOS_ERR, "acos({x:?}) = {c:?}, not {:?}", xd.acos());
    } else {
        // Clamped outside
        let lim = std::f64::consts::FRAC_PI_2 * x.signum() as f64;
        let (a, c) = (f32_asin(x) as f64, f32_acos(x) as f64);
        check!((a - lim).abs() <= ASIN_ERR, "asin({x:?}) = {a:?}");
        check!((c - (std::f64::consts::FRAC_PI_2 - lim)).abs() <= ACOS_ERR, "acos({x:?}) = {c:?}");
    }
    if x.abs() <= 1000.0 {
        let (s, c) = f32_sin_cos(x);
        let xd = x as f64;
        check!((s as f64 - xd.sin()).abs() <= SIN_ERR, "sin({x:?}) = {s:?}, not {:?}", xd.sin());
        check!((c as f64 - xd.cos()).abs() <= SIN_ERR, "cos({x:?}) = {c:?}, not {:?}", xd.cos());
        check!(same(s, f32_sin(x)) && same(c, f32_cos(x)), "f32_sin and f32_cos of {x:?} differ from f32_sin_cos");
    }
    Ok(())
}

pub fn c18(r: &mut Rng, idx: u64) -> R {
    note("cases");
    for k in 0..2048u64 {
        let x = match k % 8 {
            0 => r.f(-1.0, 1.0),
            1 => r.f(-1000.0, 1000.0),
            2 => r.f(-7.0, 7.0),
            3 => {
                let q = r.range(0, 400) as f32 - 200.0;
                f32::from_bits((q * std::f32::consts::FRAC_PI_4).to_bits().wrapping_add(r.below(9) as u32).wrapping_sub(4))
            }
            4 => {
                let b = *r.pick(&[0.5f32, 1.0, -0.5, -1.0, 0.0, -0.0, 0.70710677]);
                let v = f32::from_bits(b.to_bits().wrapping_add(r.below(9) as u32).wrapping_sub(4));
                if v.is_finite() { v } else { b }
            }
            5 => r.finite() % 1000.0,
            // a regular sweep of [-1, 1]
            6 => -1.0 + ((idx * 256 + k / 8) % (4096 * 256)) as f32 / (4096.0 * 128.0),
            _ => f32::from_bits(r.u32() & 0xBFFF_FFFF),
        };
        trig(x)?;
    }
    Ok(())
}
