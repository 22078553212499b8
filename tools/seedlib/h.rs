// Helpers of the demonstrations: archives written byte by byte, so that only public API is used.
#![allow(dead_code)]
use ozz_animation_rs::math::*;
use ozz_animation_rs::*;
use std::simd::prelude::*;

#[derive(Default, Clone)]
pub struct W(pub Vec<u8>, pub bool);
impl W {
    pub fn new(big: bool) -> W {
        W(vec![!big as u8], big)
    }
    pub fn put<const N: usize>(&mut self, le: [u8; N]) {
        let mut b = le;
        if self.1 {
            b.reverse();
        }
        self.0.extend(b);
    }
    pub fn u8(&mut self, v: u8) {
        self.0.push(v);
    }
    pub fn u16(&mut self, v: u16) {
        self.put(v.to_le_bytes());
    }
    pub fn u32(&mut self, v: u32) {
        self.put(v.to_le_bytes());
    }
    pub fn f32(&mut self, v: f32) {
        self.put(v.to_le_bytes());
    }
    pub fn tag(&mut self, s: &str, version: u32) {
        self.0.extend(s.as_bytes());
        self.0.push(0);
        self.u32(version);
    }
}

/// One key: time point, three 16 bits words.
pub type K = (u16, [u16; 3]);

#[derive(Default, Clone)]
pub struct Keys {
    pub ratios: Vec<u16>,
    pub previouses: Vec<u16>,
    pub keys: Vec<[u16; 3]>,
    pub entries: Vec<u8>,
    pub desc: Vec<u32>,
    pub interval: f32,
}

/// Sorts the keys of the tracks (a multiple of 4) as the format wants: first keys, second keys, then by previous key's time.
/// Seek points are written after the numbers of keys given.
pub fn keys(tracks: &[Vec<K>], seek_times: &[u16], interval: f32) -> Keys {
    let n = tracks.len();
    assert!(n % 4 == 0);
    let mut order: Vec<(u16, usize, usize)> = Vec::new(); // previous time, track, index
    for (t, ks) in tracks.iter().enumerate() {
        for i in 2..ks.len() {
            order.push((ks[i - 1].0, t, i));
        }
    }
    order.sort();
    let all: Vec<(usize, usize)> = (0..n)
        .map(|t| (t, 0))
        .chain((0..n).map(|t| (t, 1)))
        .chain(order.iter().map(|o| (o.1, o.2)))
        .collect();
    let mut out = Keys { interval, ..Default::default() };
    let mut last = vec![0usize; n];
    let mut seeks = seek_times.iter().peekable();
    let write = |out: &mut Keys, last: &[usize], key: usize| {
        out.desc.push(out.entries.len() as u32);
        out.desc.push(key as u32);
        for c in last.chunks(4) {
            let mut prefix = 0u8;
            let mut bytes = Vec::<u8>::new();
            for (i, v) in c.iter().enumerate() {
                let v = *v as u32;
                let k = if v < 1 << 8 { 0 } else if v < 1 << 16 { 1 } else if v < 1 << 24 { 2 } else { 3 };
                prefix |= (k as u8) << (2 * i);
                bytes.extend(&v.to_le_bytes()[..k + 1]);
            }
            out.entries.push(prefix);
            out.entries.extend(bytes);
        }
    };
    for (idx, (t, i)) in all.iter().enumerate() {
        if *i >= 2 {
            while seeks.peek().map_or(false, |s| tracks[*t][*i - 1].0 > **s) {
                seeks.next();
                write(&mut out, &last, idx - 1);
            }
        }
        let k = tracks[*t][*i];
        out.ratios.push(k.0);
        out.keys.push(k.1);
        out.previouses.push(if *i == 0 { 0 } else { (idx - last[*t]) as u16 });
        last[*t] = idx;
    }
    for _ in seeks {
        write(&mut out, &last, all.len() - 1);
    }
    out
}

pub fn f16(f: f32) -> u16 {
    let b = f.to_bits();
    if f == 0.0 {
        return (b >> 16) as u16;
    }
    ((b >> 16) & 0x8000) as u16 | ((((b >> 23) & 0xFF) as i32 - 112) << 10) as u16 | ((b >> 13) & 0x3FF) as u16
}
/// A quaternion key whose stored components are small numbers.
pub const IDENTITY: [u16; 3] = [3 | (0x3FFF << 3), (0x3FFFu32 >> 13) as u16 | (0x3FFF << 2), (0x3FFFu32 >> 14) as u16 | (0x3FFF << 1)];

pub fn animation(big: bool, num_tracks: u32, timepoints: &[f32], k: [&Keys; 3], name: &str) -> Vec<u8> {
    let mut w = W::new(big);
    w.tag("ozz-animation", 7);
    w.f32(1.0);
    w.u32(num_tracks);
    w.u32(name.len() as u32);
    w.u32(timepoints.len() as u32);
    for x in k {
        w.u32(x.keys.len() as u32);
    }
    for x in k {
        w.u32(x.entries.len() as u32);
        w.u32(x.desc.len() as u32);
    }
    w.0.extend(name.as_bytes());
    for t in timepoints {
        w.f32(*t);
    }
    for x in k {
        for r in &x.ratios {
            if timepoints.len() <= 255 {
                w.u8(*r as u8);
            } else {
                w.u16(*r);
            }
        }
        for p in &x.previouses {
            w.u16(*p);
        }
        w.0.extend(&x.entries);
        for d in &x.desc {
            w.u32(*d);
        }
        w.f32(x.interval);
        for key in &x.keys {
            for v in key {
                w.u16(*v);
            }
        }
    }
    w.0
}
pub fn load_animation(b: Vec<u8>) -> Animation {
    Animation::from_archive(&mut Archive::from_vec(b).unwrap()).unwrap()
}
/// Constant keys for n tracks.
pub fn constant(n: usize, last: u16, v: [u16; 3]) -> Keys {
    keys(&vec![vec![(0, v), (last, v)]; n], &[], 1.0)
}
pub fn sample(a: &Animation, ctx: &mut SamplingContext, ratio: f32) -> Vec<SoaTransform> {
    let mut job: SamplingJobRef = SamplingJob::default();
    let mut out = vec![SoaTransform::default(); a.num_soa_tracks()];
    job.set_animation(a);
    job.set_context(ctx);
    job.set_ratio(ratio);
    job.set_output(&mut out);
    job.run().unwrap();
    drop(job);
    out
}

/// A skeleton of the given parents, with joints named j0, j1...
pub fn skeleton(parents: &[i16]) -> Skeleton {
    let mut w = W::new(false);
    w.tag("ozz-skeleton", 2);
    w.u32(parents.len() as u32);
    let names: Vec<String> = (0..parents.len()).map(|i| format!("j{i}")).collect();
    w.u32(names.iter().map(|n| n.len() as u32 + 1).sum());
    for n in names {
        w.0.extend(n.as_bytes());
        w.u8(0);
    }
    for p in parents {
        w.u16(*p as u16);
    }
    for s in 0..(parents.len() + 3) / 4 {
        let mut v = [0f32; 40];
        for l in 0..4 {
            v[l] = (s * 4 + l) as f32;
            v[24 + l] = 1.0;
            v[28 + l] = 1.0;
            v[32 + l] = 1.0;
            v[36 + l] = 1.0;
        }
        for x in v {
            w.f32(x);
        }
    }
    Skeleton::from_archive(&mut Archive::from_vec(w.0).unwrap()).unwrap()
}

pub fn track(ratios: &[f32], values: &[f32], steps: &[u8]) -> Track<f32> {
    let mut w = W::new(false);
    w.tag("ozz-float_track", 1);
    w.u32(ratios.len() as u32);
    w.u32(0);
    for r in ratios {
        w.f32(*r);
    }
    for v in values {
        w.f32(*v);
    }
    for s in steps {
        w.u8(*s);
    }
    Track::from_archive(&mut Archive::from_vec(w.0).unwrap()).unwrap()
}

pub fn transform(t: [f32; 3], q: [f32; 4], s: [f32; 3]) -> SoaTransform {
    SoaTransform {
        translation: SoaVec3 { x: f32x4::splat(t[0]), y: f32x4::splat(t[1]), z: f32x4::splat(t[2]) },
        rotation: SoaQuat { x: f32x4::splat(q[0]), y: f32x4::splat(q[1]), z: f32x4::splat(q[2]), w: f32x4::splat(q[3]) },
        scale: SoaVec3 { x: f32x4::splat(s[0]), y: f32x4::splat(s[1]), z: f32x4::splat(s[2]) },
    }
}
