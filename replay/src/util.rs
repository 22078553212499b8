//! Builders of archives and of well-formed resources, and float comparison.
use crate::rng::Rng;
use crate::R;
use glam::{Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::track::TrackValue;
use ozz_animation_rs::*;

pub fn registry(prop: &str) -> Option<(fn(&mut Rng, u64) -> R, u64)> {
    Some(match prop {
        "C01" => (crate::anim::c01 as fn(&mut Rng, u64) -> R, 6_000),
        "C02" => (crate::anim::c02, 12_000),
        "C03" => (crate::anim::c03, 4_096),
        "C04" => (crate::anim::c04, 4_000),
        "C05" => (crate::arch::c05, 60_000),
        "C06" => (crate::arch::c06, 6_000),
        "C07" => (crate::store::c07, 3_000),
        "C08" => (crate::pose::c08, 40_000),
        "C09" => (crate::pose::c09, 40_000),
        "C10" => (crate::pose::c10, 40_000),
        "C11" => (crate::pose::c11, 200_000),
        "C12" => (crate::pose::c12, 40_000),
        "C13" => (crate::tracks::c13, 60_000),
        "C14" => (crate::tracks::c14, 60_000),
        "C15" => (crate::ik::c15, 200_000),
        "C16" => (crate::ik::c16, 200_000),
        "C17" => (crate::kernel::c17, 60_000),
        "C18" => (crate::kernel::c18, 4_096),
        "C19" => (crate::jobs::c19, 100_000),
        "C20" => (crate::jobs::c20, 20_000),
        _ => return None,
    })
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err(format!($($arg)*)); } };
}

/// |a - b| <= abs + rel * |b|
pub fn close(a: f32, b: f64, abs: f64, rel: f64) -> bool {
    (a as f64 - b).abs() <= abs + rel * b.abs()
}

/// Same bits, any NaN equal to any NaN.
pub fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

pub fn soa_flat(s: &SoaTransform) -> [f32; 40] {
    let mut o = [0f32; 40];
    let v = [
        s.translation.x, s.translation.y, s.translation.z, s.rotation.x, s.rotation.y, s.rotation.z, s.rotation.w,
        s.scale.x, s.scale.y, s.scale.z,
    ];
    for i in 0..10 {
        o[i * 4..i * 4 + 4].copy_from_slice(v[i].as_array());
    }
    o
}

pub fn soa_from_flat(o: &[f32; 40]) -> SoaTransform {
    let g = |i: usize| [o[i * 4], o[i * 4 + 1], o[i * 4 + 2], o[i * 4 + 3]];
    SoaTransform {
        translation: SoaVec3::new(g(0), g(1), g(2)),
        rotation: SoaQuat::new(g(3), g(4), g(5), g(6)),
        scale: SoaVec3::new(g(7), g(8), g(9)),
    }
}

pub fn same_soa(a: &SoaTransform, b: &SoaTransform) -> bool {
    let (a, b) = (soa_flat(a), soa_flat(b));
    (0..40).all(|i| same(a[i], b[i]))
}

/// A pose of a valid animation: unit rotations.
pub fn rand_soa(r: &mut Rng) -> SoaTransform {
    let mut o = [0f32; 40];
    for l in 0..4 {
        let q = r.unit_quat();
        for k in 0..3 {
            o[k * 4 + l] = r.f(-10.0, 10.0);
            o[(7 + k) * 4 + l] = if r.chance(1, 3) { 1.0 } else { r.f(0.2, 3.0) };
        }
        for k in 0..4 {
            o[(3 + k) * 4 + l] = q[k];
        }
    }
    soa_from_flat(&o)
}

/// Local transform of joint `idx`: translation, rotation, scale.
pub fn trs(p: &[SoaTransform], idx: usize) -> ([f64; 3], [f64; 4], [f64; 3]) {
    let f = soa_flat(&p[idx / 4]);
    let l = idx & 3;
    let g = |k: usize| f[k * 4 + l] as f64;
    ([g(0), g(1), g(2)], [g(3), g(4), g(5), g(6)], [g(7), g(8), g(9)])
}

// ---------------------------------------------------------------------------------------------------------------
// Archives
// ---------------------------------------------------------------------------------------------------------------

pub struct W {
    pub b: Vec<u8>,
    pub big: bool,
}

impl W {
    pub fn new(big: bool) -> W {
        W { b: vec![if big { 0 } else { 1 }], big }
    }
    pub fn u8(&mut self, v: u8) {
        self.b.push(v);
    }
    pub fn u16(&mut self, v: u16) {
        self.b.extend(if self.big { v.to_be_bytes() } else { v.to_le_bytes() });
    }
    pub fn u32(&mut self, v: u32) {
        self.b.extend(if self.big { v.to_be_bytes() } else { v.to_le_bytes() });
    }
    pub fn u64(&mut self, v: u64) {
        self.b.extend(if self.big { v.to_be_bytes() } else { v.to_le_bytes() });
    }
    pub fn f32(&mut self, v: f32) {
        self.u32(v.to_bits());
    }
    pub fn cstr(&mut self, s: &str) {
        self.b.extend(s.as_bytes());
        self.b.push(0);
    }
}

#[derive(Debug, Clone, Default)]
pub struct Keys {
    pub keys: Vec<[u16; 3]>,
    pub ratios: Vec<u16>,
    pub prev: Vec<u16>,
    pub track: Vec<u32>,
    pub entries: Vec<u8>,
    pub desc: Vec<u32>,
    pub interval: f32,
    /// decoded entries of each seek point
    pub points: Vec<Vec<u32>>,
}

#[derive(Debug, Clone, Default)]
pub struct AnimSpec {
    pub duration: f32,
    pub num_tracks: u32,
    pub name: String,
    pub timepoints: Vec<f32>,
    pub t: Keys,
    pub r: Keys,
    pub s: Keys,
}

impl AnimSpec {
    pub fn bytes_with(&self, big: bool, tag: &str, version: u32) -> Vec<u8> {
        let mut w = W::new(big);
        w.cstr(tag);
        w.u32(version);
        w.f32(self.duration);
        w.u32(self.num_tracks);
        w.u32(self.name.len() as u32);
        w.u32(self.timepoints.len() as u32);
        for k in [&self.t, &self.r, &self.s] {
            w.u32(k.keys.len() as u32);
        }
        for k in [&self.t, &self.r, &self.s] {
            w.u32(k.entries.len() as u32);
            w.u32(k.desc.len() as u32);
        }
        w.b.extend(self.name.as_bytes());
        for t in &self.timepoints {
            w.f32(*t);
        }
        for k in [&self.t, &self.r, &self.s] {
            for r in &k.ratios {
                if self.timepoints.len() <= 255 {
                    w.u8(*r as u8);
                } else {
                    w.u16(*r);
                }
            }
            for p in &k.prev {
                w.u16(*p);
            }
            w.b.extend(&k.entries);
            for d in &k.desc {
                w.u32(*d);
            }
            w.f32(k.interval);
            for v in &k.keys {
                for c in v {
                    w.u16(*c);
                }
            }
        }
        w.b
    }

    pub fn bytes(&self, big: bool) -> Vec<u8> {
        self.bytes_with(big, "ozz-animation", 7)
    }

    pub fn load(&self) -> Animation {
        let b = self.bytes(false);
        Animation::from_archive(&mut Archive::from_slice(&b).unwrap()).unwrap()
    }

    pub fn soa(&self) -> usize {
        (self.num_tracks as usize).div_ceil(4)
    }
}

pub fn gv4(vals: &[u32], out: &mut Vec<u8>) {
    for c in vals.chunks(4) {
        let n = |v: u32| if v < 1 << 8 { 0u8 } else if v < 1 << 16 { 1 } else if v < 1 << 24 { 2 } else { 3 };
        out.push(n(c[0]) | n(c[1]) << 2 | n(c[2]) << 4 | n(c[3]) << 6);
        for v in c {
            out.extend(&v.to_le_bytes()[..n(*v) as usize + 1]);
        }
    }
}

fn rand_f16(r: &mut Rng) -> u16 {
    loop {
        let v = match r.below(10) {
            0 => 0x0000,
            1 => 0x8000,
            2 => 0x3C00,
            3 => 0x7BFF,
            4 => 0xFBFF,
            5 => r.u16() & 0x83FF, // subnormal
            _ => (r.u16() & 0x87FF) | (0x3000 + ((r.u16() & 0x3) << 11)),
        };
        if v & 0x7C00 != 0x7C00 {
            return v;
        }
    }
}

/// Any quaternion key on the grid whose three small components leave room for the largest.
pub fn rand_quat_key(r: &mut Rng) -> [u16; 3] {
    let q = loop {
        let q = r.unit_quat();
        let m = q.iter().fold(0f32, |a, b| a.max(b.abs()));
        if m < 0.999_999 || r.chance(1, 4) {
            break q;
        }
    };
    pack_quat(q)
}

pub fn pack_quat(q: [f32; 4]) -> [u16; 3] {
    let mut big = 0;
    for i in 1..4 {
        if q[i].abs() > q[big].abs() {
            big = i;
        }
    }
    let sign = (q[big] < 0.0) as u64;
    let mut v = [0u64; 3];
    let mut n = 0;
    for i in 0..4 {
        if i != big {
            let x = (q[i] * std::f32::consts::FRAC_1_SQRT_2 * 2.0 + 1.0) * 0.5 * 32767.0 + 0.5;
            v[n] = x.clamp(0.0, 32767.0) as u64;
            n += 1;
        }
    }
    let p = big as u64 | sign << 2 | v[0] << 3 | v[1] << 18 | v[2] << 33;
    [p as u16, (p >> 16) as u16, (p >> 32) as u16]
}

/// Random keyframes of one type for `soa * 4` tracks, in runtime order.
pub fn rand_keys(r: &mut Rng, num_tracks: usize, timepoints: &[f32], quat: bool, dense: usize, seek: bool) -> Keys {
    let aligned = num_tracks.div_ceil(4) * 4;
    let last = timepoints.len() - 1;
    let mut all: Vec<(f32, usize, usize, usize)> = Vec::new(); // (previous time, track, order, time index)
    let mut k = Keys::default();
    let mut first: Vec<(usize, usize)> = Vec::new();
    for t in 0..aligned {
        let mut times = vec![0usize, last];
        if t < num_tracks {
            let n = if dense == 0 { 0 } else { r.below(dense + 1) };
            for _ in 0..n {
                times.push(r.below(last + 1));
            }
        }
        times.sort();
        times.dedup();
        first.push((t, times[0]));
        for i in 1..times.len() {
            all.push((timepoints[times[i - 1]], t, i, times[i]));
        }
    }
    all.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(a.1.cmp(&b.1)));
    let mut lastkey = vec![0usize; aligned];
    let mut prevq: Vec<[f32; 4]> = vec![[0.0; 4]; aligned];
    let mut push = |k: &mut Keys, r: &mut Rng, t: usize, time: usize, is_first: bool| {
        let idx = k.keys.len();
        let v = if quat {
            let mut q = r.unit_quat();
            let d: f32 = (0..4).map(|i| q[i] * prevq[t][i]).sum();
            if d < 0.0 {
                q.iter_mut().for_each(|c| *c = -*c);
            }
            prevq[t] = q;
            pack_quat(q)
        } else {
            [rand_f16(r), rand_f16(r), rand_f16(r)]
        };
        k.keys.push(v);
        k.ratios.push(time as u16);
        k.prev.push(if is_first { 0 } else { (idx - lastkey[t]) as u16 });
        k.track.push(t as u32);
        lastkey[t] = idx;
    };
    for (t, time) in first {
        push(&mut k, r, t, time, true);
    }
    for (_, t, _, time) in all {
        push(&mut k, r, t, time, false);
    }
    k.interval = 1.0;
    if seek {
        let n = r.range(1, 6);
        k.interval = 1.0 / n as f32;
        if r.chance(1, 3) {
            k.interval *= r.f(0.8, 1.3);
        }
        let points = (0.5 + 1.0 / k.interval) as usize;
        for p in 1..=points {
            // every key whose predecessor is not later than the seek point
            let at = (p as f32 * k.interval).min(1.0);
            let mut next = aligned * 2;
            while next < k.keys.len() {
                let prev = next - k.prev[next] as usize;
                if timepoints[k.ratios[prev] as usize] > at {
                    break;
                }
                next += 1;
            }
            let mut e = vec![0u32; aligned];
            for i in 0..next {
                e[k.track[i] as usize] = i as u32;
            }
            k.desc.push(k.entries.len() as u32);
            k.desc.push(next as u32 - 1);
            gv4(&e, &mut k.entries);
            k.points.push(e);
        }
    } else if r.chance(1, 2) {
        k.interval = r.f(0.05, 2.0);
    }
    k
}

pub fn rand_timepoints(r: &mut Rng, n: usize) -> Vec<f32> {
    let n = n.max(2);
    let mut t: Vec<f32> = vec![0.0, 1.0];
    while t.len() < n {
        t.push(r.unit());
        if t.len() == n {
            t.sort_by(|a, b| a.partial_cmp(b).unwrap());
            t.dedup();
        }
    }
    t.sort_by(|a, b| a.partial_cmp(b).unwrap());
    t
}

/// A random well-formed animation.
pub fn rand_anim(r: &mut Rng, num_tracks: usize) -> AnimSpec {
    let n = match r.below(24) {
        0 => r.range(250, 262),
        1 => 2,
        _ => r.range(2, 40),
    };
    let timepoints = rand_timepoints(r, n);
    let dense = *r.pick(&[0usize, 1, 4, 8, 16]);
    let mut a = AnimSpec {
        duration: r.f(0.1, 10.0),
        num_tracks: num_tracks as u32,
        name: rand_name(r, 12),
        ..Default::default()
    };
    let sk = r.chance(2, 3);
    let seek = |r: &mut Rng| sk && r.chance(4, 5) && num_tracks > 0;
    let (a1, a2, a3) = (seek(r), seek(r), seek(r));
    a.t = rand_keys(r, num_tracks, &timepoints, false, dense, a1);
    a.r = rand_keys(r, num_tracks, &timepoints, true, dense, a2);
    a.s = rand_keys(r, num_tracks, &timepoints, false, dense, a3);
    a.timepoints = timepoints;
    a
}

pub fn rand_name(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    (0..n).map(|_| *r.pick(&['a', 'Z', '0', '_', ' ', 'é', '骨', '🦴', '\u{7f}'])).collect()
}

#[derive(Debug, Clone, Default)]
pub struct SkelSpec {
    pub parents: Vec<i16>,
    pub names: Vec<String>,
    pub rest: Vec<SoaTransform>,
}

impl SkelSpec {
    pub fn bytes_with(&self, big: bool, tag: &str, version: u32) -> Vec<u8> {
        let mut w = W::new(big);
        w.cstr(tag);
        w.u32(version);
        w.u32(self.parents.len() as u32);
        if self.parents.is_empty() {
            return w.b;
        }
        w.u32(self.names.iter().map(|n| n.len() as u32 + 1).sum());
        for n in &self.names {
            w.cstr(n);
        }
        for p in &self.parents {
            w.u16(*p as u16);
        }
        for s in &self.rest {
            for f in soa_flat(s) {
                w.f32(f);
            }
        }
        w.b
    }
    pub fn bytes(&self, big: bool) -> Vec<u8> {
        self.bytes_with(big, "ozz-skeleton", 2)
    }
    pub fn load(&self) -> Skeleton {
        let b = self.bytes(false);
        Skeleton::from_archive(&mut Archive::from_slice(&b).unwrap()).unwrap()
    }
}

/// Parents of a random forest in depth-first order.
pub fn rand_parents(r: &mut Rng, n: usize) -> Vec<i16> {
    let mut parents: Vec<i16> = Vec::new();
    let mode = r.below(4);
    for i in 0..n {
        if i == 0 {
            parents.push(-1);
            continue;
        }
        // the parent is the previous joint or one of its ancestors, or none
        let mut chain = vec![i as i16 - 1];
        while *chain.last().unwrap() >= 0 {
            chain.push(parents[*chain.last().unwrap() as usize]);
        }
        let p = match mode {
            0 => chain[0],
            1 => *r.pick(&chain),
            2 => *r.pick(&chain[..chain.len() - 1]),
            _ => chain[r.below(chain.len().min(3))],
        };
        parents.push(p);
    }
    parents
}

pub fn rand_skel(r: &mut Rng, n: usize) -> SkelSpec {
    SkelSpec {
        parents: rand_parents(r, n),
        names: (0..n).map(|i| format!("{}{i}", rand_name(r, 6))).collect(),
        rest: (0..n.div_ceil(4)).map(|_| rand_soa(r)).collect(),
    }
}

/// A value type of tracks, as raw floats.
pub trait TV: TrackValue + 'static {
    const N: usize;
    const TAG: &'static str;
    fn flat(&self) -> Vec<f32>;
    fn of(v: &[f32]) -> Self;
}

macro_rules! tv {
    ($t:ty, $n:expr, $tag:expr, |$s:ident| $f:expr, |$v:ident| $g:expr) => {
        impl TV for $t {
            const N: usize = $n;
            const TAG: &'static str = $tag;
            fn flat(&self) -> Vec<f32> {
                let $s = self;
                $f
            }
            fn of($v: &[f32]) -> $t {
                $g
            }
        }
    };
}
tv!(f32, 1, "ozz-float_track", |s| vec![*s], |v| v[0]);
tv!(Vec2, 2, "ozz-float2_track", |s| vec![s.x, s.y], |v| Vec2::new(v[0], v[1]));
tv!(Vec3, 3, "ozz-float3_track", |s| vec![s.x, s.y, s.z], |v| Vec3::new(v[0], v[1], v[2]));
tv!(Vec4, 4, "ozz-float4_track", |s| vec![s.x, s.y, s.z, s.w], |v| Vec4::new(v[0], v[1], v[2], v[3]));
tv!(Quat, 4, "ozz-quat_track", |s| vec![s.x, s.y, s.z, s.w], |v| Quat::from_xyzw(v[0], v[1], v[2], v[3]));

#[derive(Debug, Clone, Default)]
pub struct TrackSpec {
    pub ratios: Vec<f32>,
    pub values: Vec<Vec<f32>>,
    pub steps: Vec<u8>,
    pub name: Vec<u8>,
}

impl TrackSpec {
    pub fn bytes_with(&self, big: bool, tag: &str, version: u32) -> Vec<u8> {
        let mut w = W::new(big);
        w.cstr(tag);
        w.u32(version);
        w.u32(self.ratios.len() as u32);
        w.u32(self.name.len() as u32);
        for r in &self.ratios {
            w.f32(*r);
        }
        for v in &self.values {
            for c in v {
                w.f32(*c);
            }
        }
        w.b.extend(&self.steps);
        w.b.extend(&self.name);
        w.b
    }
    pub fn load<V: TV>(&self) -> Track<V> {
        let b = self.bytes_with(false, V::TAG, 1);
        Track::<V>::from_archive(&mut Archive::from_slice(&b).unwrap()).unwrap()
    }
    pub fn step(&self, i: usize) -> bool {
        self.steps[i / 8] >> (i % 8) & 1 != 0
    }
}

/// A random well-formed track: ratios increasing, first 0 (also a later last than 1 is possible).
pub fn rand_track(r: &mut Rng, n: usize, dim: usize) -> TrackSpec {
    let mut ratios: Vec<f32> = Vec::new();
    if n > 0 {
        ratios = if r.chance(1, 2) {
            (0..n).map(|_| r.below(65) as f32 / 64.0).collect()
        } else {
            (0..n).map(|_| r.unit()).collect()
        };
        ratios[0] = 0.0;
        if n > 1 && r.chance(1, 2) {
            ratios[n - 1] = 1.0;
        }
        ratios.sort_by(|a, b| a.partial_cmp(b).unwrap());
        ratios.dedup();
    }
    let n = ratios.len();
    let small = r.chance(1, 2);
    let values = (0..n)
        .map(|_| {
            (0..dim)
                .map(|_| if small { r.below(5) as f32 - 2.0 } else { r.f(-8.0, 8.0) })
                .collect()
        })
        .collect();
    let steps = (0..n.div_ceil(8))
        .map(|_| match r.below(4) {
            0 => 0,
            1 => 0xFF,
            _ => r.u8(),
        })
        .collect();
    TrackSpec { ratios, values, steps, name: rand_name(r, 8).into_bytes() }
}
