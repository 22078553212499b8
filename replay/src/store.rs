//! C07 storage, cloning, comparison and serialization.
use crate::arch::{raw_anim, same_anim, same_skel, same_track};
use crate::rng::Rng;
use crate::util::*;
use crate::{check, note, R};
use glam::{Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::*;

fn fin(r: &mut Rng, f: f32) -> f32 {
    if f.is_finite() {
        f
    } else {
        r.f(-9.0, 9.0)
    }
}

fn span<T>(name: &'static str, s: &[T], v: &mut Vec<(&'static str, usize, usize)>) -> R {
    let p = s.as_ptr() as usize;
    check!(p % std::mem::align_of::<T>() == 0, "{name} is not aligned: {p:#x}");
    if std::mem::size_of_val(s) > 0 {
        v.push((name, p, p + std::mem::size_of_val(s)));
    }
    Ok(())
}

fn disjoint(what: &str, mut v: Vec<(&'static str, usize, usize)>, size: usize) -> R {
    v.sort_by_key(|e| e.1);
    for w in v.windows(2) {
        check!(w[0].2 <= w[1].1, "in {what} the buffers {} and {} overlap", w[0].0, w[1].0);
    }
    if let (Some(a), Some(b)) = (v.first(), v.last()) {
        check!(b.2 - a.1 <= size, "the buffers of {what} span {} bytes, its size is {size}", b.2 - a.1);
    }
    Ok(())
}

fn anim_layout(a: &Animation) -> R {
    let mut v = Vec::new();
    span("timepoints", a.timepoints(), &mut v)?;
    span("translations", a.translations(), &mut v)?;
    span("rotations", a.rotations(), &mut v)?;
    span("scales", a.scales(), &mut v)?;
    let (t, r, s) = (a.translations_ctrl(), a.rotations_ctrl(), a.scales_ctrl());
    span("t_ratios", t.ratios, &mut v)?;
    span("t_previouses", t.previouses, &mut v)?;
    span("t_iframe_entries", t.iframe_entries, &mut v)?;
    span("t_iframe_desc", t.iframe_desc, &mut v)?;
    span("r_ratios", r.ratios, &mut v)?;
    span("r_previouses", r.previouses, &mut v)?;
    span("r_iframe_entries", r.iframe_entries, &mut v)?;
    span("r_iframe_desc", r.iframe_desc, &mut v)?;
    span("s_ratios", s.ratios, &mut v)?;
    span("s_previouses", s.previouses, &mut v)?;
    span("s_iframe_entries", s.iframe_entries, &mut v)?;
    span("s_iframe_desc", s.iframe_desc, &mut v)?;
    disjoint("an animation", v, usize::MAX)
}

fn ctx_layout(c: &SamplingContext, max: usize) -> R {
    let soa = max.div_ceil(4);
    check!(c.max_soa_tracks() == soa, "a context for {max} tracks has {} soa tracks", c.max_soa_tracks());
    check!(c.max_tracks() == soa * 4, "a context for {max} tracks has {} tracks", c.max_tracks());
    check!(c.max_outdated() == soa.div_ceil(8), "a context for {max} tracks has {} flag bytes", c.max_outdated());
    check!(
        c.translations().len() == soa && c.rotations().len() == soa && c.scales().len() == soa,
        "a context for {max} tracks has value buffers of other lengths"
    );
    for e in [c.translation_entries(), c.rotation_entries(), c.scale_entries()] {
        check!(e.len() == soa * 4, "a context for {max} tracks has {} entries", e.len());
    }
    for e in [c.translation_outdated(), c.rotation_outdated(), c.scale_outdated()] {
        check!(e.len() == soa.div_ceil(8), "a context for {max} tracks has {} flag bytes", e.len());
    }
    let mut v = Vec::new();
    span("translations", c.translations(), &mut v)?;
    span("rotations", c.rotations(), &mut v)?;
    span("scales", c.scales(), &mut v)?;
    span("translation_entries", c.translation_entries(), &mut v)?;
    span("rotation_entries", c.rotation_entries(), &mut v)?;
    span("scale_entries", c.scale_entries(), &mut v)?;
    span("translation_outdated", c.translation_outdated(), &mut v)?;
    span("rotation_outdated", c.rotation_outdated(), &mut v)?;
    span("scale_outdated", c.scale_outdated(), &mut v)?;
    disjoint("a sampling context", v, c.size())
}

fn same_ctx(a: &SamplingContext, b: &SamplingContext) -> R {
    macro_rules! eq {
        ($($f:ident),*) => { $(check!(a.$f() == b.$f(), "{} of a copied context is {:?} instead of {:?}", stringify!($f), b.$f(), a.$f());)* };
    }
    eq!(max_tracks, max_soa_tracks, max_outdated, animation_id, ratio, size);
    eq!(translation_entries, translation_outdated, translation_next);
    eq!(rotation_entries, rotation_outdated, rotation_next);
    eq!(scale_entries, scale_outdated, scale_next);
    eq!(translations, rotations, scales);
    check!(a == b, "a context with all fields equal compares unequal");
    check!(b == a, "a context with all fields equal compares unequal");
    Ok(())
}

fn run(a: &Animation, c: &mut SamplingContext, ratio: f32, soa: usize) -> Result<Vec<SoaTransform>, String> {
    let mut out = vec![SoaTransform::default(); soa];
    let mut j: SamplingJobRef = SamplingJob::default();
    j.set_animation(a);
    j.set_context(c);
    j.set_output(&mut out);
    j.set_ratio(ratio);
    j.run().map_err(|e| format!("a copied context cannot be used: {e:?}"))?;
    Ok(out)
}

/// Changes the `k`-th number of a json text after the counts.
fn tweak(s: &str, k: usize) -> Option<(String, usize, usize)> {
    let b = s.as_bytes();
    let mut i = s.find("\"animation_id\"")?;
    let mut n = 0;
    let mut tokens = Vec::new();
    let mut in_str = false;
    while i < b.len() {
        if b[i] == b'"' {
            in_str = !in_str;
        }
        if !in_str && (b[i].is_ascii_digit() || b[i] == b'-') {
            let st = i;
            while i < b.len() && (b[i].is_ascii_digit() || matches!(b[i], b'-' | b'+' | b'.' | b'e' | b'E')) {
                i += 1;
            }
            tokens.push((st, i));
            n += 1;
        } else {
            i += 1;
        }
    }
    let (st, en) = tokens[k % n];
    let t = &s[st..en];
    let new = match t.parse::<u64>() {
        Ok(v) => format!("{}", v ^ 1),
        Err(_) => {
            let v: f64 = t.parse().ok()?;
            format!("{:?}", if v.abs() > 1e6 { v / 2.0 } else { v + 1.0 })
        }
    };
    Some((format!("{}{}{}", &s[..st], new, &s[en..]), st, n))
}

fn key_at(s: &str, at: usize) -> String {
    let head = &s[..at];
    let e = head.rfind("\":").unwrap_or(0);
    let st = head[..e].rfind('"').unwrap_or(0);
    head[st..e].to_string()
}

fn rt<T, A>(v: &T) -> T
where
    T: rkyv::Archive<Archived = A> + rkyv::Serialize<rkyv::ser::serializers::AllocSerializer<1024>>,
    A: rkyv::Deserialize<T, rkyv::Infallible>,
{
    let b = rkyv::to_bytes::<_, 1024>(v).unwrap();
    let a = unsafe { rkyv::archived_root::<T>(&b) };
    a.deserialize(&mut rkyv::Infallible).unwrap()
}

fn json<T: serde::Serialize + for<'a> serde::Deserialize<'a>>(v: &T) -> Result<T, String> {
    let s = serde_json::to_string(v).map_err(|e| format!("cannot be written as json: {e}"))?;
    serde_json::from_str(&s).map_err(|e| format!("cannot be read back from json: {e}"))
}

macro_rules! track_rt {
    ($r:expr, $s:expr, $t:ty) => {{
        let t = $s.load::<$t>();
        same_track(&$s, &rt(&t)).map_err(|e| format!("track through rkyv: {e}"))?;
        $s.ratios.iter_mut().for_each(|v| *v = fin($r, *v));
        $s.values.iter_mut().flatten().for_each(|v| *v = fin($r, *v));
        let t = $s.load::<$t>();
        same_track(&$s, &json(&t)?).map_err(|e| format!("track through serde: {e}"))?;
    }};
}

pub fn c07(r: &mut Rng, idx: u64) -> R {
    match idx % 8 {
        0 | 1 => {
            let mut s = raw_anim(r);
            let a = s.load();
            anim_layout(&a)?;
            same_anim(&s, &a)?;
            let b = rt(&a);
            anim_layout(&b)?;
            same_anim(&s, &b).map_err(|e| format!("animation through rkyv: {e}"))?;
            s.duration = fin(r, s.duration);
            s.timepoints.iter_mut().for_each(|v| *v = fin(r, *v));
            for k in [&mut s.t, &mut s.r, &mut s.s] {
                k.interval = fin(r, k.interval);
            }
            let a = s.load();
            let b = json(&a)?;
            anim_layout(&b)?;
            same_anim(&s, &b).map_err(|e| format!("animation through serde: {e}"))?;
            note("animation");
        }
        2 => {
            let n = match r.below(4) {
                0 => r.below(3),
                _ => r.below(50),
            };
            let s = rand_skel(r, n);
            let k = s.load();
            let mut v = Vec::new();
            span("rest poses", k.joint_rest_poses(), &mut v)?;
            span("parents", k.joint_parents(), &mut v)?;
            disjoint("a skeleton", v, usize::MAX)?;
            same_skel(&s, &k)?;
            same_skel(&s, &rt(&k)).map_err(|e| format!("skeleton through rkyv: {e}"))?;
            same_skel(&s, &json(&k)?).map_err(|e| format!("skeleton through serde: {e}"))?;
            note("skeleton");
        }
        3 => {
            let n = r.below(20);
            let kind = r.below(5);
            let mut s = rand_track(r, n, [1, 2, 3, 4, 4][kind]);
            if r.chance(1, 2) {
                s.values.iter_mut().flatten().for_each(|v| *v = r.odd());
            }
            match kind {
                0 => track_rt!(r, s, f32),
                1 => track_rt!(r, s, Vec2),
                2 => track_rt!(r, s, Vec3),
                3 => track_rt!(r, s, Vec4),
                _ => track_rt!(r, s, Quat),
            }
            note("track");
        }
        4 => {
            let max = if r.chance(1, 2) { r.below(9) } else { r.below(400) };
            let c = SamplingContext::new(max);
            ctx_layout(&c, max)?;
            check!(c.animation_id() == 0 && c.ratio() == 0.0, "a new context is not empty");
            check!(
                c.translation_next() == 0 && c.rotation_next() == 0 && c.scale_next() == 0,
                "a new context is not empty"
            );
            same_ctx(&c, &c.clone())?;
            same_ctx(&c, &rt(&c)).map_err(|e| format!("through rkyv: {e}"))?;
            same_ctx(&c, &json(&c)?).map_err(|e| format!("through serde: {e}"))?;
            let other = SamplingContext::new(max + 4);
            check!(c != other, "contexts of different sizes compare equal");
            // values and transforms
            let mut t = rand_soa(r);
            check!(same_soa(&t, &rt(&t)), "a transform changes through rkyv");
            check!(same_soa(&t, &json(&t)?), "a transform changes through serde");
            let mut f = soa_flat(&t);
            f.iter_mut().for_each(|v| *v = r.odd());
            t = soa_from_flat(&f);
            check!(same_soa(&t, &rt(&t)), "a transform changes through rkyv");
            note("empty context");
        }
        _ => {
            let n = match r.below(4) {
                0 => r.range(1, 5),
                1 => r.range(30, 70),
                _ => r.range(1, 24),
            };
            let s = rand_anim(r, n);
            let a = s.load();
            let room = if r.chance(1, 2) { 0 } else { r.below(70) };
            let mut c = if r.chance(1, 4) {
                let c = SamplingContext::from_animation(&a);
                ctx_layout(&c, n)?;
                check!(c.animation_id() == &a as *const _ as u64, "a context made from an animation does not name it");
                c
            } else {
                let c = SamplingContext::new(n + room);
                ctx_layout(&c, n + room)?;
                c
            };
            for _ in 0..r.range(1, 4) {
                let x = r.unit();
                run(&a, &mut c, x, s.soa())?;
            }
            let mut c2 = c.clone();
            ctx_layout(&c2, c.max_tracks())?;
            same_ctx(&c, &c2).map_err(|e| format!("clone: {e}"))?;
            let mut c3 = rt(&c);
            same_ctx(&c, &c3).map_err(|e| format!("through rkyv: {e}"))?;
            let text = serde_json::to_string(&c).unwrap();
            let mut c4: SamplingContext =
                serde_json::from_str(&text).map_err(|e| format!("a context cannot be read back from json: {e}"))?;
            same_ctx(&c, &c4).map_err(|e| format!("through serde: {e}"))?;
            let c5 = c.clone_without_animation_id();
            check!(c5.animation_id() == 0, "the animation id is still {}", c5.animation_id());
            check!(c5 != c, "contexts of different animations compare equal");
            check!(c5.translations() == c.translations() && c5.scale_entries() == c.scale_entries(), "clone without id lost data");
            // one observable difference makes them unequal
            for _ in 0..6 {
                let k = r.below(1 << 20);
                if let Some((t, at, _)) = tweak(&text, k) {
                    let d: SamplingContext = serde_json::from_str(&t).map_err(|e| format!("{e}"))?;
                    check!(d != c, "contexts that differ in {} compare equal", key_at(&text, at));
                    check!(c != d, "contexts that differ in {} compare equal", key_at(&text, at));
                    note("one difference");
                }
            }
            // every copy goes on like the original, and is independent of it
            let x = r.unit();
            let before = c.clone();
            let want = run(&a, &mut c2, x, s.soa())?;
            check!(c == before, "using a clone changes its source");
            for (name, k) in [("read back from rkyv", &mut c3), ("read back from json", &mut c4), ("the source of the clone", &mut c)] {
                let got = run(&a, k, x, s.soa())?;
                check!(
                    got.iter().zip(&want).all(|(a, b)| same_soa(a, b)),
                    "a clone and the context {name} sample different poses at {x}"
                );
                same_ctx(&c2, k).map_err(|e| format!("after one more sample: {e}"))?;
            }
            // clear makes it as good as new
            c.clear();
            check!(c.animation_id() == 0 && c.ratio() == 0.0 && c.translation_next() == 0, "clear left data");
            let got = run(&a, &mut c, x, s.soa())?;
            let mut fresh = SamplingContext::new(n);
            let want = run(&a, &mut fresh, x, s.soa())?;
            check!(got.iter().zip(&want).all(|(a, b)| same_soa(a, b)), "a cleared context samples another pose");
            // a serialized animation plays the same
            let b = rt(&a);
            let got = run(&b, &mut SamplingContext::new(n), x, s.soa())?;
            check!(got.iter().zip(&want).all(|(a, b)| same_soa(a, b)), "an animation read back samples another pose");
            note("used context");
        }
    }
    Ok(())
}
