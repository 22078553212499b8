//! C05 archive primitives, C06 loading.
use crate::anim::half;
use crate::rng::Rng;
use crate::util::*;
use crate::{check, note, R};
use glam::{Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::animation::{Float3Key, QuaternionKey};
use ozz_animation_rs::skeleton::Skeleton;
use ozz_animation_rs::*;
use std::io::Read;

/// A reader that returns short pieces.
pub struct Bits<'t>(pub &'t [u8], pub usize);

impl Read for Bits<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.1 = self.1.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        if self.1 >> 60 & 7 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = ((self.1 >> 40) % 7 + 1).min(self.0.len()).min(buf.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

struct Model<'t> {
    b: &'t [u8],
    pos: usize,
    big: bool,
}

impl Model<'_> {
    fn take(&mut self, n: usize) -> Option<u64> {
        if self.pos + n > self.b.len() {
            return None;
        }
        let s = &self.b[self.pos..self.pos + n];
        self.pos += n;
        let mut v = 0u64;
        for i in 0..n {
            let byte = if self.big { s[i] } else { s[n - 1 - i] };
            v = v << 8 | byte as u64;
        }
        Some(v)
    }
    fn f(&mut self, n: usize) -> Option<Vec<u32>> {
        (0..n).map(|_| self.take(4).map(|v| v as u32)).collect()
    }
    fn string(&mut self) -> Option<Result<String, ()>> {
        let start = self.pos;
        loop {
            let c = self.take(1)?;
            if c == 0 {
                return Some(String::from_utf8(self.b[start..self.pos - 1].to_vec()).map_err(|_| ()));
            }
        }
    }
}

fn one<T: ArchiveRead<T>>(
    a: &mut Archive<impl Read>,
    m: &mut Model,
    r: &mut Rng,
    what: &str,
    bits: fn(&T) -> Vec<u64>,
    width: &[usize],
    init: fn() -> T,
) -> Result<bool, String> {
    let form = r.below(4);
    let count = if form < 2 { 1 } else { r.below(5) };
    let got: Result<Vec<T>, OzzError> = match form {
        0 | 1 => a.read::<T>().map(|v| vec![v]),
        2 => a.read_vec::<T>(count),
        _ => {
            let mut v: Vec<T> = (0..count).map(|_| init()).collect();
            a.read_slice::<T>(&mut v).map(|_| v)
        }
    };
    let mut want: Vec<Vec<u64>> = Vec::new();
    let mut short = false;
    'w: for _ in 0..count {
        let mut e = Vec::new();
        for w in width {
            match m.take(*w) {
                Some(v) => e.push(v),
                None => {
                    short = true;
                    break 'w;
                }
            }
        }
        want.push(e);
    }
    match got {
        Err(e) => {
            check!(short, "reading {count} {what} fails with {e:?} though the bytes are there");
            check!(e.is_io(), "reading {what} from a short stream gives {e:?}");
            note("short stream");
            Ok(false)
        }
        Ok(v) => {
            check!(!short, "reading {count} {what} succeeds though the stream is short");
            check!(v.len() == count, "reading {count} {what} gives {}", v.len());
            for (g, w) in v.iter().zip(&want) {
                let g = bits(g);
                check!(&g == w, "reading {what} gives {g:x?} instead of {w:x?} ({} endian)", if m.big { "big" } else { "little" });
            }
            Ok(true)
        }
    }
}

fn fb(v: &[f32]) -> Vec<u64> {
    v.iter().map(|f| f.to_bits() as u64).collect()
}

fn ops(a: &mut Archive<impl Read>, m: &mut Model, r: &mut Rng) -> R {
    loop {
        let go = match r.below(19) {
            0 => one::<u8>(a, m, r, "u8", |v| vec![*v as u64], &[1], || 9)?,
            1 => one::<i8>(a, m, r, "i8", |v| vec![*v as u8 as u64], &[1], || 9)?,
            2 => one::<u16>(a, m, r, "u16", |v| vec![*v as u64], &[2], || 9)?,
            3 => one::<i16>(a, m, r, "i16", |v| vec![*v as u16 as u64], &[2], || 9)?,
            4 => one::<u32>(a, m, r, "u32", |v| vec![*v as u64], &[4], || 9)?,
            5 => one::<i32>(a, m, r, "i32", |v| vec![*v as u32 as u64], &[4], || 9)?,
            6 => one::<u64>(a, m, r, "u64", |v| vec![*v], &[8], || 9)?,
            7 => one::<i64>(a, m, r, "i64", |v| vec![*v as u64], &[8], || 9)?,
            8 => one::<f32>(a, m, r, "f32", |v| vec![v.to_bits() as u64], &[4], || 9.0)?,
            9 => one::<f64>(a, m, r, "f64", |v| vec![v.to_bits()], &[8], || 9.0)?,
            10 => {
                let at = m.pos;
                match (a.read::<bool>(), m.take(1)) {
                    (Ok(g), Some(w)) => {
                        check!(g == (w != 0), "reading a boolean from byte {w} gives {g}");
                        check!(g as u8 == 1 || g as u8 == 0, "reading a boolean from byte {w} at {at} gives no boolean");
                        true
                    }
                    (Err(e), None) if e.is_io() => false,
                    (g, w) => return Err(format!("reading a boolean gives {g:?}, the stream holds {w:?}")),
                }
            }
            11 => one::<Vec2>(a, m, r, "Vec2", |v| fb(&[v.x, v.y]), &[4; 2], || Vec2::ONE)?,
            12 => one::<Vec3>(a, m, r, "Vec3", |v| fb(&[v.x, v.y, v.z]), &[4; 3], || Vec3::ONE)?,
            13 => one::<Vec4>(a, m, r, "Vec4", |v| fb(&[v.x, v.y, v.z, v.w]), &[4; 4], || Vec4::ONE)?,
            14 => one::<Quat>(a, m, r, "Quat", |v| fb(&[v.x, v.y, v.z, v.w]), &[4; 4], || Quat::IDENTITY)?,
            15 => one::<SoaTransform>(a, m, r, "SoaTransform", |v| fb(&soa_flat(v)), &[4; 40], || SoaTransform::IDENTITY)?,
            16 => match (a.read_version(), m.take(4)) {
                (Ok(g), Some(w)) => {
                    check!(g as u64 == w, "reading a version gives {g:x} instead of {w:x}");
                    true
                }
                (Err(e), None) if e.is_io() => false,
                (g, w) => return Err(format!("reading a version gives {g:?}, the stream holds {w:?}")),
            },
            _ => {
                let at = m.pos;
                let w = m.string();
                let pair = r.chance(1, 3);
                let (g, v) = if pair {
                    match a.read_tag_version() {
                        Ok((s, v)) => (Ok(s), Some(v)),
                        Err(e) => (Err(e), None),
                    }
                } else if r.chance(1, 2) {
                    (a.read_tag(), None)
                } else {
                    (a.read::<String>(), None)
                };
                let wv = if pair { m.take(4) } else { None };
                match (g, w) {
                    (Ok(g), Some(Ok(w))) => {
                        check!(g == w, "reading a string gives {g:?} instead of {w:?}");
                        check!(v.map(|v| v as u64) == wv, "reading tag and version gives version {v:?} instead of {wv:?}");
                        note("string");
                        true
                    }
                    (Err(e), Some(Ok(_))) if pair && wv.is_none() && e.is_io() => false,
                    (Err(e), Some(Err(_))) if e.is_utf8() => {
                        note("invalid utf-8");
                        false
                    }
                    (Err(e), None) if e.is_io() => false,
                    (g, w) => return Err(format!("reading a string at {at} gives {g:?}, the stream holds {w:?}")),
                }
            }
        };
        if !go {
            return Ok(());
        }
    }
}

pub fn c05(r: &mut Rng, _: u64) -> R {
    let n = if r.chance(1, 20) { 0 } else { r.below(300) };
    let first = *r.pick(&[0u8, 0, 1, 1, 2, 255]);
    let text = r.chance(1, 2);
    let mut b: Vec<u8> = (0..n)
        .map(|_| {
            if text && r.chance(3, 4) {
                *r.pick(&[b'a', b'z', b'0', 0, 0, 0xC3, 0xA9])
            } else {
                r.u8()
            }
        })
        .collect();
    if n > 0 {
        b[0] = first;
    }
    let mut m = Model { b: &b, pos: n.min(1), big: first == 0 };
    let swap = (first == 0) != cfg!(target_endian = "big");
    macro_rules! go {
        ($a:expr) => {
            match $a {
                Err(e) => {
                    check!(n == 0, "an archive cannot be opened: {e:?}");
                    check!(e.is_io(), "opening an empty archive gives {e:?}");
                    Ok(())
                }
                Ok(mut a) => {
                    check!(n > 0, "an empty archive can be opened");
                    check!(a.endian_swap() == swap, "endian tag {first}: swap is {}", a.endian_swap());
                    ops(&mut a, &mut m, r)
                }
            }
        };
    }
    match r.below(3) {
        0 => go!(Archive::from_slice(&b)),
        1 => go!(Archive::from_vec(b.clone())),
        _ => go!(Archive::new(Bits(&b, r.u64() as usize))),
    }
}

fn same_keys(what: &str, k: &Keys, c: &ozz_animation_rs::animation::KeyframesCtrl) -> R {
    check!(c.ratios == k.ratios, "{what} key ratios are {:?} instead of {:?}", c.ratios, k.ratios);
    check!(c.previouses == k.prev, "{what} previous offsets are {:?} instead of {:?}", c.previouses, k.prev);
    check!(c.iframe_entries == k.entries, "{what} seek entries are {:?} instead of {:?}", c.iframe_entries, k.entries);
    check!(c.iframe_desc == k.desc, "{what} seek table is {:?} instead of {:?}", c.iframe_desc, k.desc);
    check!(same(c.iframe_interval, k.interval), "{what} seek interval is {} instead of {}", c.iframe_interval, k.interval);
    Ok(())
}

pub fn same_anim(s: &AnimSpec, a: &Animation) -> R {
    check!(same(a.duration(), s.duration), "duration is {} instead of {}", a.duration(), s.duration);
    check!(a.num_tracks() == s.num_tracks as usize, "number of tracks is {} instead of {}", a.num_tracks(), s.num_tracks);
    check!(a.num_soa_tracks() == s.soa(), "number of soa tracks is {} instead of {}", a.num_soa_tracks(), s.soa());
    check!(a.num_aligned_tracks() == s.soa() * 4, "number of aligned tracks is {}", a.num_aligned_tracks());
    check!(a.name() == s.name, "name is {:?} instead of {:?}", a.name(), s.name);
    check!(
        a.timepoints().len() == s.timepoints.len() && a.timepoints().iter().zip(&s.timepoints).all(|(a, b)| same(*a, *b)),
        "time points are {:?} instead of {:?}",
        a.timepoints(),
        s.timepoints
    );
    same_keys("translation", &s.t, &a.translations_ctrl())?;
    same_keys("rotation", &s.r, &a.rotations_ctrl())?;
    same_keys("scale", &s.s, &a.scales_ctrl())?;
    let f3 = |v: &Vec<[u16; 3]>| v.iter().map(|k| Float3Key::new(*k)).collect::<Vec<_>>();
    check!(a.translations() == f3(&s.t.keys), "translation keys differ");
    check!(a.scales() == f3(&s.s.keys), "scale keys differ");
    let q = s.r.keys.iter().map(|k| QuaternionKey::new(*k)).collect::<Vec<_>>();
    check!(a.rotations() == q, "rotation keys differ");
    Ok(())
}

/// Any counts, any content: a container without meaning.
pub fn raw_anim(r: &mut Rng) -> AnimSpec {
    let cnt = |r: &mut Rng| match r.below(4) {
        0 => 0,
        1 => 1,
        _ => r.below(9),
    };
    let keys = |r: &mut Rng, u8s: bool| {
        let n = cnt(r);
        let ne = if r.chance(1, 2) { 0 } else { r.below(12) };
        let nd = if r.chance(1, 2) { 0 } else { r.below(7) };
        Keys {
            keys: (0..n).map(|_| [r.u16(), r.u16(), r.u16()]).collect(),
            ratios: (0..n).map(|_| if u8s { r.u8() as u16 } else { r.u16() }).collect(),
            prev: (0..n).map(|_| r.u16()).collect(),
            track: vec![],
            entries: (0..ne).map(|_| r.u8()).collect(),
            desc: (0..nd).map(|_| r.u32()).collect(),
            interval: r.odd(),
            points: vec![],
        }
    };
    let n = match r.below(4) {
        0 => r.range(253, 258),
        1 => 0,
        _ => r.below(20),
    };
    AnimSpec {
        duration: r.odd(),
        num_tracks: if r.chance(1, 6) { r.u32() >> 2 } else { r.below(70) as u32 },
        name: rand_name(r, 9),
        timepoints: (0..n).map(|_| r.odd()).collect(),
        t: keys(r, n <= 255),
        r: keys(r, n <= 255),
        s: keys(r, n <= 255),
    }
}

fn load<T>(b: &[u8], r: &mut Rng, f: fn(&mut Archive<Bits>) -> Result<T, OzzError>) -> Result<(T, usize), OzzError> {
    let mut rest: &[u8] = b;
    let mut cell = Bits(rest, r.u64() as usize);
    let v;
    {
        // by value reader: the rest is what it has not consumed
        let mut a = Archive::new(Bits(cell.0, cell.1))?;
        v = f(&mut a)?;
        // count what is left by reading it
        let mut left = 0;
        while a.read::<u8>().is_ok() {
            left += 1;
        }
        cell.0 = &cell.0[cell.0.len() - left..];
        rest = cell.0;
    }
    Ok((v, rest.len()))
}

fn faults<T>(
    r: &mut Rng,
    what: &str,
    big: bool,
    head: usize,
    make: &dyn Fn(bool, &str, u32) -> Vec<u8>,
    tag: &str,
    version: u32,
    f: fn(&mut Archive<Bits>) -> Result<T, OzzError>,
) -> R {
    let b = make(big, tag, version);
    // every truncation point at the start, random ones after
    for _ in 0..4 {
        let n = if r.chance(1, 2) { r.below(b.len().min(head)) } else { r.below(b.len()) };
        match load(&b[..n], r, f) {
            Ok(_) => return Err(format!("a {what} archive cut to {n} of {} bytes loads", b.len())),
            Err(e) => check!(e.is_io(), "a {what} archive cut to {n} of {} bytes gives {e:?}", b.len()),
        }
    }
    let other = match r.below(6) {
        0 => String::new(),
        1 => format!("{tag}x"),
        2 => tag[..tag.len() - 1].to_string(),
        3 => tag.to_uppercase(),
        4 => (*r.pick(&["ozz-skeleton", "ozz-animation", "ozz-float_track", "ozz-quat_track", "ozz-float3_track"])).to_string(),
        _ => format!(" {tag}"),
    };
    if other != tag {
        match load(&make(big, &other, version), r, f) {
            Ok(_) => return Err(format!("a {what} archive with the tag {other:?} loads")),
            Err(e) => check!(e.is_invalid_tag(), "a {what} archive with the tag {other:?} gives {e:?}"),
        }
    }
    let v = match r.below(4) {
        0 => version + 1,
        1 => version - 1,
        2 => version.swap_bytes(),
        _ => r.u32(),
    };
    if v != version {
        match load(&make(big, tag, v), r, f) {
            Ok(_) => return Err(format!("a {what} archive with version {v} loads")),
            Err(e) => check!(e.is_invalid_version(), "a {what} archive with version {v} gives {e:?}"),
        }
    }
    Ok(())
}

pub fn c06(r: &mut Rng, idx: u64) -> R {
    let big = r.chance(1, 2);
    match idx % 3 {
        0 => {
            let n = r.range(0, 9);
            let s = if r.chance(1, 2) { raw_anim(r) } else { rand_anim(r, n) };
            note(if s.timepoints.len() <= 255 { "one-byte key times" } else { "two-byte key times" });
            let mut b = s.bytes(big);
            let extra = r.below(4);
            b.extend(vec![0x77; extra]);
            let (a, left) = load(&b, r, |a| Animation::from_archive(a)).map_err(|e| format!("a valid animation does not load: {e:?}"))?;
            check!(left == extra, "loading an animation leaves {left} bytes instead of {extra}");
            same_anim(&s, &a)?;
            let mut ar = Archive::from_slice(&b).unwrap();
            let m = Animation::read_meta(&mut ar).map_err(|e| format!("animation meta does not load: {e:?}"))?;
            check!(
                same(m.duration, s.duration)
                    && m.version == 7
                    && m.num_tracks == s.num_tracks
                    && m.name == s.name
                    && m.timepoints_count as usize == s.timepoints.len()
                    && m.translations_count as usize == s.t.keys.len()
                    && m.rotations_count as usize == s.r.keys.len()
                    && m.scales_count as usize == s.s.keys.len()
                    && m.t_iframe_entries_count as usize == s.t.entries.len()
                    && m.r_iframe_entries_count as usize == s.r.entries.len()
                    && m.s_iframe_entries_count as usize == s.s.entries.len()
                    && m.t_iframe_desc_count as usize == s.t.desc.len()
                    && m.r_iframe_desc_count as usize == s.r.desc.len()
                    && m.s_iframe_desc_count as usize == s.s.desc.len(),
                "animation meta is {m:?}"
            );
            faults(r, "animation", big, 100, &|b, t, v| s.bytes_with(b, t, v), "ozz-animation", 7, |a| Animation::from_archive(a))?;
            if s.name.len() > 1 {
                let mut b = s.bytes(big);
                let at = 1 + 14 + 4 + 13 * 4;
                b[at] = 0xFF;
                match load(&b, r, |a| Animation::from_archive(a)) {
                    Ok(_) => return Err("an animation with a name that is not UTF-8 loads".into()),
                    Err(e) => check!(e.is_utf8(), "an animation with a name that is not UTF-8 gives {e:?}"),
                }
                note("bad name");
            }
        }
        1 => {
            let n = match r.below(6) {
                0 => 0,
                1 => 1,
                2 => r.range(1000, 1024),
                _ => r.range(1, 40),
            };
            let mut s = rand_skel(r, n);
            if r.chance(1, 3) {
                for p in s.parents.iter_mut() {
                    *p = r.u16() as i16;
                }
                for p in s.rest.iter_mut() {
                    let mut f = soa_flat(p);
                    f.iter_mut().for_each(|v| *v = r.odd());
                    *p = soa_from_flat(&f);
                }
            }
            let mut b = s.bytes(big);
            let extra = r.below(4);
            b.extend(vec![0x77; extra]);
            let (k, left) = load(&b, r, |a| Skeleton::from_archive(a)).map_err(|e| format!("a valid skeleton of {n} joints does not load: {e:?}"))?;
            check!(left == extra, "loading a skeleton leaves {left} bytes instead of {extra}");
            same_skel(&s, &k)?;
            for with in [false, true] {
                let mut ar = Archive::from_slice(&b).unwrap();
                let m = Skeleton::read_meta(&mut ar, with).map_err(|e| format!("skeleton meta does not load: {e:?}"))?;
                check!(m.version == 2 && m.num_joints as usize == n, "skeleton meta is {m:?}");
                if with {
                    check!(m.joint_parents == s.parents, "skeleton meta has parents {:?}", m.joint_parents);
                    for i in 0..n {
                        check!(m.joint_names.get_by_left(&s.names[i]) == Some(&(i as i16)), "skeleton meta misses the name of joint {i}");
                    }
                    check!(m.joint_names.len() == n, "skeleton meta has {} names", m.joint_names.len());
                }
            }
            if n > 0 {
                faults(r, "skeleton", big, 60, &|b, t, v| s.bytes_with(b, t, v), "ozz-skeleton", 2, |a| Skeleton::from_archive(a))?;
                let i = r.below(n);
                let mut b = s.bytes(big);
                if !s.names[i].is_empty() {
                    // after the byte order, the tag, the version and two counts
                    b[26 + s.names[..i].iter().map(|n| n.len() + 1).sum::<usize>()] = 0xFE;
                    match load(&b, r, |a| Skeleton::from_archive(a)) {
                        Ok(_) => return Err("a skeleton with a name that is not UTF-8 loads".into()),
                        Err(e) => check!(e.is_utf8(), "a skeleton with a name that is not UTF-8 gives {e:?}"),
                    }
                    note("bad name");
                }
            }
        }
        _ => match r.below(5) {
            0 => track::<f32>(r, big)?,
            1 => track::<Vec2>(r, big)?,
            2 => track::<Vec3>(r, big)?,
            3 => track::<Vec4>(r, big)?,
            _ => track::<Quat>(r, big)?,
        },
    }
    let _ = half;
    Ok(())
}

pub fn same_skel(s: &SkelSpec, k: &Skeleton) -> R {
    let n = s.parents.len();
    check!(k.num_joints() == n, "number of joints is {} instead of {n}", k.num_joints());
    check!(k.num_soa_joints() == n.div_ceil(4), "number of soa joints is {}", k.num_soa_joints());
    check!(k.num_aligned_joints() == n.div_ceil(4) * 4, "number of aligned joints is {}", k.num_aligned_joints());
    check!(k.joint_parents() == s.parents, "parents are {:?} instead of {:?}", k.joint_parents(), s.parents);
    check!(k.joint_names().len() == n, "there are {} names instead of {n}", k.joint_names().len());
    for i in 0..n {
        check!(k.joint_by_name(&s.names[i]) == Some(i as i16), "joint {i} {:?} is found as {:?}", s.names[i], k.joint_by_name(&s.names[i]));
        check!(k.name_by_joint(i as i16) == Some(s.names[i].as_str()), "joint {i} has the name {:?}", k.name_by_joint(i as i16));
        check!(k.joint_parent(i) == s.parents[i], "parent of {i} is {}", k.joint_parent(i));
    }
    check!(k.joint_by_name("no such joint").is_none(), "an unknown name is found");
    check!(k.name_by_joint(n as i16).is_none() && k.name_by_joint(-1).is_none(), "a joint that does not exist has a name");
    check!(k.joint_rest_poses().len() == n.div_ceil(4), "there are {} rest poses", k.joint_rest_poses().len());
    for i in 0..n.div_ceil(4) {
        check!(same_soa(&k.joint_rest_poses()[i], &s.rest[i]), "rest pose {i} is {:?} instead of {:?}", k.joint_rest_poses()[i], s.rest[i]);
    }
    Ok(())
}

pub fn same_track<V: TV>(s: &TrackSpec, t: &Track<V>) -> R {
    check!(t.key_count() == s.ratios.len(), "number of keys is {} instead of {}", t.key_count(), s.ratios.len());
    check!(
        t.ratios().len() == s.ratios.len() && t.ratios().iter().zip(&s.ratios).all(|(a, b)| same(*a, *b)),
        "ratios are {:?} instead of {:?}",
        t.ratios(),
        s.ratios
    );
    check!(
        t.values().len() == s.values.len()
            && t.values().iter().zip(&s.values).all(|(a, b)| a.flat().iter().zip(b).all(|(a, b)| same(*a, *b))),
        "values are {:?} instead of {:?}",
        t.values(),
        s.values
    );
    check!(t.steps() == s.steps, "steps are {:?} instead of {:?}", t.steps(), s.steps);
    check!(t.name().as_bytes() == s.name, "name is {:?} instead of {:?}", t.name(), s.name);
    Ok(())
}

fn track<V: TV>(r: &mut Rng, big: bool) -> R {
    let n = match r.below(4) {
        0 => 0,
        1 => r.range(7, 9),
        _ => r.below(30),
    };
    let mut s = rand_track(r, n, V::N);
    if r.chance(1, 2) {
        s.ratios.iter_mut().for_each(|v| *v = r.odd());
        s.values.iter_mut().flatten().for_each(|v| *v = r.odd());
    }
    let mut b = s.bytes_with(big, V::TAG, 1);
    let extra = r.below(4);
    b.extend(vec![0x77; extra]);
    let (t, left) = load(&b, r, |a| Track::<V>::from_archive(a)).map_err(|e| format!("a valid track does not load: {e:?}"))?;
    check!(left == extra, "loading a track leaves {left} bytes instead of {extra}");
    same_track(&s, &t)?;
    faults(r, "track", big, 60, &|b, t, v| s.bytes_with(b, t, v), V::TAG, 1, |a| Track::<V>::from_archive(a))?;
    if !s.name.is_empty() {
        let mut b = s.bytes_with(big, V::TAG, 1);
        let at = b.len() - s.name.len();
        b[at] = 0xFF;
        match load(&b, r, |a| Track::<V>::from_archive(a)) {
            Ok(_) => return Err("a track with a name that is not UTF-8 loads".into()),
            Err(e) => check!(e.is_utf8(), "a track with a name that is not UTF-8 gives {e:?}"),
        }
        note("bad name");
    }
    Ok(())
}
