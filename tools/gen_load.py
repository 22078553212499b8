"""Writes verus/load.rs (C06) and verus/copies.rs (C07)."""
import os
V = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "verus")
SUB = "//@sub? Archive<impl Read> ==> Archive\n//@sub? \\bString\\b ==> Text\n"
# an animation's regions: name, element, the count that gives its length
P = {"t": ("translations", "Float3Key"), "r": ("rotations", "QuaternionKey"), "s": ("scales", "Float3Key")}
REG = [("timepoints", "f32", "timepoints_count")]
for k, (n, t) in P.items():
    c = n + "_count"
    REG += [(n, t, c), (k + "_ratios", "u16", c), (k + "_previouses", "u16", c),
            (k + "_iframe_entries", "u8", k + "_iframe_entries_count"), (k + "_iframe_desc", "u32", k + "_iframe_desc_count")]
META = [("duration", "f32"), ("num_tracks", "u32"), ("name_len", "u32"), ("timepoints_count", "u32"),
        ("translations_count", "u32"), ("rotations_count", "u32"), ("scales_count", "u32"),
        ("t_iframe_entries_count", "u32"), ("t_iframe_desc_count", "u32"), ("r_iframe_entries_count", "u32"),
        ("r_iframe_desc_count", "u32"), ("s_iframe_entries_count", "u32"), ("s_iframe_desc_count", "u32")]
MF = ["duration", "num_tracks", "timepoints_count"] + [x for k in "trs" for x in (P[k][0] + "_count", k + "_iframe_entries_count", k + "_iframe_desc_count")]

ANIM = r"""
//@item src/animation.rs struct Animation
//@sub \*mut (\w+) ==> Vec<\1>
//@sub? \bString\b ==> Text
//@sub? (?m)^\s*struct ==> pub struct
//@sub (?m)^(\s+)(?:pub )?(\w+): ==> \1pub \2:
//@end
//@item src/animation.rs struct AnimationMeta
//@sub? \bString\b ==> Text
//@end
impl Animation {
    // Every region has the length its count declares.
    pub open spec fn wf(&self) -> bool {
        """ + "\n        ".join(f"&&& self.{n}@.len() == self.{c}" for n, _, c in REG) + r"""
    }
    // Allocation and carving of the regions: the subject of template layout.
    #[verifier::external_body]
    fn new(meta: AnimationMeta) -> (r: Animation)
        ensures r.wf(), r.name == meta.name, """ + ", ".join(f"r.{f} == meta.{f}" for f in MF) + r"""
    { unimplemented!() }
""" + "".join(rf"""//@fn src/animation.rs Animation::{n}
//@sub unsafe \{{ slice::from_raw_parts\(self\.{n}, (.*)\) \}} ==> prefix(&self.{n}, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.{n}@
//@finish
//@begin
    proof {{ assert(self.{n}@.take(self.{n}@.len() as int) =~= self.{n}@); }}
//@end
//@fn src/animation.rs Animation::{n}_mut
//@sub unsafe \{{ slice::from_raw_parts_mut\(self\.{n}, (.*)\) \}} ==> prefix_mut(&mut self.{n}, \1)
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).{n}@, final(r)@.len() == r@.len(), final(self).{n}@ == final(r)@, final(self).wf(),
        *final(self) == (Animation {{ {n}: final(self).{n}, ..*old(self) }})
//@begin
    proof {{
        assert(self.{n}@.take(self.{n}@.len() as int) =~= self.{n}@);
        assert(forall|x: Seq<{t}>| (#[trigger] (x + self.{n}@.skip(self.{n}@.len() as int))) =~= x);
    }}
//@end
""".replace("//@finish\n", "") for n, t, c in REG) + r"""//@fn src/animation.rs Animation::tag
//@ret r
//@spec
    ensures r@ == "ozz-animation"@
//@end
//@fn src/animation.rs Animation::version
//@ret r
//@spec
    ensures r == 7
//@end
"""


def lets(steps, s="s"):
    """Chained reads: (variable, expression of the stream `S`). Returns the lets, the condition, the last rest."""
    out, ok, cur = [], [], s
    for v, e in steps:
        out.append(f"        let {v} = {e.replace('@S', cur)};\n")
        ok.append(f"{v} is Some")
        cur = f"left({v})"
    return "".join(out), ok, cur


# what an animation's archive holds
m_steps = [("tag", "Text::take(@S, sw)"), ("ver", "u32::take(@S, sw)")] + [(n, f"{t}::take(@S, sw)") for n, t in META] + [("name", "text_take(@S, sw, name_len->Some_0.0 as nat)")]
ml, mok, mrest = lets(m_steps)
ANIM_SPEC = r"""
    pub open spec fn meta_take(s: Seq<u8>, sw: bool) -> Option<(AnimationMeta, Seq<u8>)> {
""" + ml + "        if " + " && ".join(mok) + r""" && tag->Some_0.0.g@ == bytes("ozz-animation"@) && ver->Some_0.0 == 7 {
            Some((AnimationMeta { version: 7, name: name->Some_0.0, """ + ", ".join(f"{f}: {f}->Some_0.0" for f in MF) + f" }}, {mrest}))" + r"""
        } else { None }
    }
"""
d_steps = [("timepoints", "many::<f32, f32>(@S, sw, m.timepoints_count as nat)")]
for k in "trs":
    n, t = P[k]
    d_steps += [(k + "_ratios", f"ratios_take(@S, sw, m.{n}_count as nat, m.timepoints_count <= 255)"),
                (k + "_previouses", f"many::<u16, u16>(@S, sw, m.{n}_count as nat)"),
                (k + "_iframe_entries", f"many::<u8, u8>(@S, sw, m.{k}_iframe_entries_count as nat)"),
                (k + "_iframe_desc", f"many::<u32, u32>(@S, sw, m.{k}_iframe_desc_count as nat)"),
                (k + "_iframe_interval", "f32::take(@S, sw)"),
                (n, f"many::<{t}, {t}>(@S, sw, m.{n}_count as nat)")]
dl, dok, drest = lets(d_steps)
ANIM_SPEC += r"""
    // a is the animation in the bytes s that follow its meta data m, rest what follows it
    pub open spec fn holds(a: Animation, m: AnimationMeta, s: Seq<u8>, sw: bool, rest: Seq<u8>) -> bool {
""" + dl + "        &&& " + "\n        &&& ".join(dok) + f"\n        &&& rest == {drest}\n        &&& a.wf() && a.name == m.name\n" + "".join(
    f"        &&& a.{f} == m.{f}\n" for f in MF) + "".join(
    f"        &&& a.{v}{'' if v.endswith('interval') else '@'} == {v}->Some_0.0\n" for v, _ in d_steps) + r"""    }
    pub open spec fn complete(m: AnimationMeta, s: Seq<u8>, sw: bool) -> bool {
""" + dl + "        " + " && ".join(dok) + r"""
    }
"""


def ratio_loop(i, k):
    n, _ = P[k]
    others = [x for x, _, _ in REG if x != k + "_ratios"]
    return rf"""//@pre {i}
    let ghost a{i} = animation;
    let ghost s{i} = archive.rest();
//@loop {i} for i in 0..n_{k}
    invariant n_{k} == animation.{k}_ratios@.len(), archive.swap() == sw, animation == (Animation {{ {k}_ratios: animation.{k}_ratios, ..a{i} }}), animation.wf(),
        i <= animation.{k}_ratios@.len(),
        many::<u8, u8>(s{i}, sw, i as nat) is Some, archive.rest() == many::<u8, u8>(s{i}, sw, i as nat)->Some_0.1,
        animation.{k}_ratios@.take(i as int) == many::<u8, u8>(s{i}, sw, i as nat)->Some_0.0.map_values(|x: u8| x as u16),
        s0 == old(archive).rest(), sw == old(archive).swap(), animation.timepoints_count <= 255,
        Animation::meta_take(s0, sw) is Some,
        Animation::{k}_before(animation, Animation::meta_take(s0, sw)->Some_0.0, Animation::meta_take(s0, sw)->Some_0.1, sw) == Some(s{i}),
//@start {i}
    let ghost q{i} = archive.rest();
    let ghost r{i} = animation.{k}_ratios@;
    proof {{ if u8::take(q{i}, sw) is None {{ many_stops::<u8, u8>(s{i}, sw, (i + 1) as nat, animation.{k}_ratios@.len()); }} }}
//@stop {i}
    proof {{
        let b = many::<u8, u8>(s{i}, sw, i as nat)->Some_0.0;
        let v = u8::take(q{i}, sw)->Some_0.0;
        assert(animation.{k}_ratios@ == r{i}.update(i as int, v as u16));
        assert(animation.{k}_ratios@.take(i + 1) =~= r{i}.take(i as int).push(v as u16));
        assert(b.push(v).map_values(|x: u8| x as u16) =~= b.map_values(|x: u8| x as u16).push(v as u16));
    }}
//@post {i}
    proof {{ assert(animation.{k}_ratios@.take(animation.{k}_ratios@.len() as int) =~= animation.{k}_ratios@); }}
"""


HEAD = r"""#![allow(non_camel_case_types, non_snake_case, unused)]
use vstd::prelude::*;
verus! {
"""
LOAD = "// C06: what loading an animation, a skeleton or a track from an archive yields (written by tools/gen_load.py).\n" + HEAD + r"""//@use archive
//@include mem.rs
pub uninterp spec fn bytes(s: Seq<char>) -> Seq<u8>;
impl Text {
    #[verifier::external_body]
    fn differs(&self, s: &str) -> (r: bool) ensures r == (self.g@ != bytes(s@)) { unimplemented!() }
}
#[verifier::inline]
pub open spec fn left<T>(o: Option<(T, Seq<u8>)>) -> Seq<u8> { o->Some_0.1 }
// A name of n bytes
pub open spec fn text_take(s: Seq<u8>, sw: bool, n: nat) -> Option<(Text, Seq<u8>)> {
    if n == 0 { Some((Text { g: Ghost(Seq::empty()) }, s)) } else {
        match many::<u8, u8>(s, sw, n) { None => None, Some((b, r)) => if utf8(b) { Some((Text { g: Ghost(b) }, r)) } else { None } } }
}
// n key times, of one or two bytes
pub open spec fn ratios_take(s: Seq<u8>, sw: bool, n: nat, small: bool) -> Option<(Seq<u16>, Seq<u8>)> {
    if small { match many::<u8, u8>(s, sw, n) { None => None, Some((b, r)) => Some((b.map_values(|x: u8| x as u16), r)) } }
    else { many::<u16, u16>(s, sw, n) }
}
// Another tag or version gives the error of that kind.
pub open spec fn kinds<T>(s: Seq<u8>, sw: bool, r: Result<T, OzzError>, tag: Seq<char>, version: u32) -> bool {
    match Text::take(s, sw) { None => true, Some((t, s1)) =>
        if t.g@ != bytes(tag) { r == Err::<T, OzzError>(OzzError::InvalidTag) } else {
            match u32::take(s1, sw) { None => true, Some((v, _)) => v != version ==> r == Err::<T, OzzError>(OzzError::InvalidVersion) } } }
}
"""
TAGS = "//@sub archive\\.read_tag\\(\\)\\? != Self::tag\\(\\) ==> archive.read_tag()?.differs(Self::tag())\n"
UTF = "//@sub Text::from_utf8\\(buf\\)\\.map_err\\(\\|e\\| e\\.utf8_error\\(\\)\\)\\? ==> text_of(buf)?\n"
LOAD += ANIM + ANIM_SPEC
# what precedes the ratios of k: the rest there, provided everything before was read into a
for j, k in enumerate("trs"):
    pre = d_steps[:1 + 6 * j]
    pl, pok, prest = lets(pre)
    LOAD += f"    pub open spec fn {k}_before(a: Animation, m: AnimationMeta, s: Seq<u8>, sw: bool) -> Option<Seq<u8>> {{\n" + pl + \
        "        if " + " && ".join(pok + ["a.wf()", "a.name == m.name"] + [f"a.{f} == m.{f}" for f in MF] + [f"a.{v}{'' if v.endswith('interval') else '@'} == {v}->Some_0.0" for v, _ in pre]) + \
        f" {{ Some({prest}) }} else {{ None }}\n    }}\n"
LOAD += "//@fn src/animation.rs Animation::read_meta\n" + SUB + TAGS + UTF + r"""//@ret r
//@spec
    ensures got(*old(archive), *final(archive), r, Animation::meta_take(old(archive).rest(), old(archive).swap())),
        kinds(old(archive).rest(), old(archive).swap(), r, "ozz-animation"@, 7)
//@end
//@fn src/animation.rs Animation::from_archive
""" + SUB + r"""//@sub for i in 0\.\.animation\.([trs])_ratios\(\)\.len\(\) ==> let n_\1 = animation.\1_ratios().len(); for i in 0..n_\1
//@sub animation\.([trs])_ratios_mut\(\)\[i\] = archive\.read::<u8>\(\)\? as u16; ==> let v_ = archive.read::<u8>()? as u16; { let p_ = animation.\1_ratios_mut(); p_[i] = v_; }
//@ret r
//@spec
    ensures final(archive).swap() == old(archive).swap(),
        kinds(old(archive).rest(), old(archive).swap(), r, "ozz-animation"@, 7),
        match Animation::meta_take(old(archive).rest(), old(archive).swap()) { None => r is Err, Some((m, s)) =>
            (r is Ok <==> Animation::complete(m, s, old(archive).swap()))
            && (r is Ok ==> Animation::holds(r->Ok_0, m, s, old(archive).swap(), final(archive).rest())) },
//@begin
    let ghost s0 = archive.rest();
    let ghost sw = archive.swap();
""" + "".join(ratio_loop(i + 1, k) for i, k in enumerate("trs")) + r"""//@end
}
"""
open(os.path.join(V, "load.rs"), "w").write(LOAD + "}\n")

SKEL = r"""
// The joint names: a bimap, here the names and indices in the order in which they were inserted.
pub struct Names { pub g: Ghost<Seq<(Text, i16)>> }
impl Names {
    fn new() -> (r: Names) ensures r.g@ == Seq::<(Text, i16)>::empty() { Names { g: Ghost(Seq::empty()) } }
    fn insert(&mut self, t: Text, i: i16) ensures final(self).g@ == old(self).g@.push((t, i)) { self.g = Ghost(self.g@.push((t, i))); }
    #[verifier::external_body]
    fn clone(&self) -> (r: Names) ensures r == *self { unimplemented!() }
}
//@item src/skeleton.rs struct Skeleton
//@sub JointHashMap ==> Names
//@sub \*mut (\w+) ==> Vec<\1>
//@sub? (?m)^\s*struct ==> pub struct
//@sub (?m)^(\s+)(?:pub )?(\w+): ==> \1pub \2:
//@end
//@item src/skeleton.rs struct SkeletonMeta
//@sub JointHashMap ==> Names
//@end
impl Skeleton {
    pub open spec fn wf(&self) -> bool {
        &&& self.joint_rest_poses@.len() == self.num_soa_joints
        &&& self.joint_parents@.len() == self.num_joints
        &&& self.num_soa_joints as int == (self.num_joints + 3) / 4
    }
    // Allocation and carving of the regions: the subject of template layout.
    #[verifier::external_body]
    fn new(meta: SkeletonMeta) -> (r: Skeleton)
        ensures r.wf(), r.num_joints == meta.num_joints, r.joint_names.g@ == Seq::<(Text, i16)>::empty()
    { unimplemented!() }
//@fn src/skeleton.rs Skeleton::num_joints
//@ret r
//@spec
    ensures r == self.num_joints
//@end
//@fn src/skeleton.rs Skeleton::num_soa_joints
//@ret r
//@spec
    ensures r == self.num_soa_joints
//@end
//@fn src/skeleton.rs Skeleton::tag
//@ret r
//@spec
    ensures r@ == "ozz-skeleton"@
//@end
//@fn src/skeleton.rs Skeleton::version
//@ret r
//@spec
    ensures r == 2
//@end
""" + "".join(rf"""//@fn src/skeleton.rs Skeleton::{n}
//@sub unsafe \{{ slice::from_raw_parts\(self\.{n}, (.*)\) \}} ==> prefix(&self.{n}, \1)
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.{n}@
//@begin
    proof {{ assert(self.{n}@.take(self.{n}@.len() as int) =~= self.{n}@); }}
//@end
//@fn src/skeleton.rs Skeleton::{n}_mut
//@sub unsafe \{{ slice::from_raw_parts_mut\(self\.{n}, self\.(.*)\) \}} ==> {{ let n_ = self.\1; prefix_mut(&mut self.{n}, n_) }}
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ == old(self).{n}@, final(r)@.len() == r@.len(), final(self).{n}@ == final(r)@, final(self).wf(),
        *final(self) == (Skeleton {{ {n}: final(self).{n}, ..*old(self) }})
//@begin
    proof {{
        assert(self.{n}@.take(self.{n}@.len() as int) =~= self.{n}@);
        assert(forall|x: Seq<{t}>| (#[trigger] (x + self.{n}@.skip(self.{n}@.len() as int))) =~= x);
    }}
//@end
""" for n, t in (("joint_rest_poses", "SoaTransform"), ("joint_parents", "i16"))) + r"""//@fn src/skeleton.rs Skeleton::joint_names
//@sub JointHashMap ==> Names
//@ret r
//@spec
    ensures *r == self.joint_names
//@end
"""
NL = lambda n, i, who: rf"""//@loop {i} for idx in 0..{n}
    invariant archive.swap() == sw, s0 == old(archive).rest(), sw == old(archive).swap(), {who}
        many::<Text, Text>(s1, sw, idx as nat) is Some, archive.rest() == many::<Text, Text>(s1, sw, idx as nat)->Some_0.1,
        joint_names.g@ == names_of(many::<Text, Text>(s1, sw, idx as nat)->Some_0.0),
"""
SKEL_SPEC = r"""
    // The head of a skeleton's archive: the number of joints
    pub open spec fn head(s: Seq<u8>, sw: bool) -> Option<(u32, Seq<u8>)> {
        let tag = Text::take(s, sw);
        let ver = u32::take(left(tag), sw);
        let n = u32::take(left(ver), sw);
        if tag is Some && ver is Some && n is Some && tag->Some_0.0.g@ == bytes("ozz-skeleton"@) && ver->Some_0.0 == 2 { n } else { None }
    }
    pub open spec fn names_at(n: u32, s: Seq<u8>, sw: bool) -> Option<(Seq<Text>, Seq<u8>)> {
        let c = u32::take(s, sw);
        if c is Some { many::<Text, Text>(left(c), sw, n as nat) } else { None }
    }
    pub open spec fn parents_at(n: u32, s: Seq<u8>, sw: bool) -> Option<(Seq<i16>, Seq<u8>)> {
        let t = Skeleton::names_at(n, s, sw);
        if t is Some { many::<i16, i16>(left(t), sw, n as nat) } else { None }
    }
    pub open spec fn poses_at(n: u32, s: Seq<u8>, sw: bool) -> Option<(Seq<SoaTransform>, Seq<u8>)> {
        let t = Skeleton::parents_at(n, s, sw);
        if t is Some { many::<SoaTransform, SoaTransform>(left(t), sw, ((n + 3) / 4) as nat) } else { None }
    }
//@fn src/skeleton.rs Skeleton::read_meta
""" + SUB + TAGS + r"""//@sub BiHashMap::with_hashers\(DeterministicState::new\(\), DeterministicState::new\(\)\) ==> Names::new()
//@sub (?s)BiHashMap::with_capacity_and_hashers\([^;]*?\); ==> Names::new();
//@sub joint_names\.insert\(archive\.read::<Text>\(\)\?, idx as i16\); ==> let v_ = archive.read::<Text>()?; joint_names.insert(v_, idx as i16);
//@ret r
//@spec
    ensures final(archive).swap() == old(archive).swap(),
        kinds(old(archive).rest(), old(archive).swap(), r, "ozz-skeleton"@, 2),
        match Skeleton::head(old(archive).rest(), old(archive).swap()) { None => r is Err, Some((n, s)) => {
            let t = Skeleton::parents_at(n, s, old(archive).swap());
            if n == 0 || !with_joints {
                r is Ok && r->Ok_0.version == 2 && r->Ok_0.num_joints == n && r->Ok_0.joint_names.g@ == Seq::<(Text, i16)>::empty()
                && r->Ok_0.joint_parents@ == Seq::<i16>::empty() && final(archive).rest() == s
            } else if t is None { r is Err } else {
                r is Ok && r->Ok_0.version == 2 && r->Ok_0.num_joints == n
                && r->Ok_0.joint_names.g@ == names_of(Skeleton::names_at(n, s, old(archive).swap())->Some_0.0)
                && r->Ok_0.joint_parents@ == t->Some_0.0 && final(archive).rest() == left(t)
            } } },
//@begin
    let ghost s0 = archive.rest();
    let ghost sw = archive.swap();
//@pre 1
    let ghost s1 = archive.rest();
    proof { assert(names_of(Seq::<Text>::empty()) =~= Seq::<(Text, i16)>::empty()); }
//@loop 1 for idx in 0..num_joints
    invariant archive.swap() == sw, s0 == old(archive).rest(), sw == old(archive).swap(), num_joints > 0, with_joints,
        Skeleton::head(s0, sw) is Some, Skeleton::head(s0, sw)->Some_0.0 == num_joints,
        u32::take(Skeleton::head(s0, sw)->Some_0.1, sw) is Some, s1 == left(u32::take(Skeleton::head(s0, sw)->Some_0.1, sw)),
        many::<Text, Text>(s1, sw, idx as nat) is Some, archive.rest() == many::<Text, Text>(s1, sw, idx as nat)->Some_0.1,
        joint_names.g@ == names_of(many::<Text, Text>(s1, sw, idx as nat)->Some_0.0),
//@start 1
    let ghost b1 = archive.rest();
    proof { many_len::<Text, Text>(s1, sw, idx as nat); if Text::take(b1, sw) is None { many_stops::<Text, Text>(s1, sw, (idx + 1) as nat, num_joints as nat); } }
//@stop 1
    proof { let o = many::<Text, Text>(s1, sw, idx as nat)->Some_0.0; assert(names_of(o.push(v_)) =~= names_of(o).push((v_, idx as i16))); }
//@end
//@fn src/skeleton.rs Skeleton::from_archive
""" + SUB + r"""//@sub for idx in 0\.\.skeleton\.num_joints\(\) ==> let n_ = skeleton.num_joints(); for idx in 0..n_
//@sub skeleton\.joint_names\.insert\(archive\.read::<Text>\(\)\?, idx as i16\); ==> let v_ = archive.read::<Text>()?; skeleton.joint_names.insert(v_, idx as i16);
//@ret r
//@spec
    ensures final(archive).swap() == old(archive).swap(),
        kinds(old(archive).rest(), old(archive).swap(), r, "ozz-skeleton"@, 2),
        match Skeleton::head(old(archive).rest(), old(archive).swap()) { None => r is Err, Some((n, s)) => {
            let t = Skeleton::poses_at(n, s, old(archive).swap());
            if n == 0 { r is Ok && r->Ok_0.wf() && r->Ok_0.num_joints == 0 && r->Ok_0.joint_names.g@ == Seq::<(Text, i16)>::empty() && final(archive).rest() == s }
            else if t is None { r is Err } else {
                r is Ok && r->Ok_0.wf() && r->Ok_0.num_joints == n
                && r->Ok_0.joint_names.g@ == names_of(Skeleton::names_at(n, s, old(archive).swap())->Some_0.0)
                && r->Ok_0.joint_parents@ == Skeleton::parents_at(n, s, old(archive).swap())->Some_0.0
                && r->Ok_0.joint_rest_poses@ == t->Some_0.0 && final(archive).rest() == left(t)
            } } },
//@begin
    let ghost s0 = archive.rest();
    let ghost sw = archive.swap();
//@pre 1
    let ghost s1 = archive.rest();
    let ghost k1 = skeleton;
    proof { assert(names_of(Seq::<Text>::empty()) =~= Seq::<(Text, i16)>::empty()); }
//@loop 1 for idx in 0..n_
    invariant archive.swap() == sw, s0 == old(archive).rest(), sw == old(archive).swap(), n_ == skeleton.num_joints, n_ > 0, skeleton.wf(),
        Skeleton::head(s0, sw) is Some, Skeleton::head(s0, sw)->Some_0.0 == n_,
        u32::take(Skeleton::head(s0, sw)->Some_0.1, sw) is Some, s1 == left(u32::take(Skeleton::head(s0, sw)->Some_0.1, sw)),
        many::<Text, Text>(s1, sw, idx as nat) is Some, archive.rest() == many::<Text, Text>(s1, sw, idx as nat)->Some_0.1,
        skeleton.joint_names.g@ == names_of(many::<Text, Text>(s1, sw, idx as nat)->Some_0.0),
//@start 1
    let ghost b1 = archive.rest();
    proof { many_len::<Text, Text>(s1, sw, idx as nat); if Text::take(b1, sw) is None { many_stops::<Text, Text>(s1, sw, (idx + 1) as nat, n_ as nat); } }
//@stop 1
    proof { let o = many::<Text, Text>(s1, sw, idx as nat)->Some_0.0; assert(names_of(o.push(v_)) =~= names_of(o).push((v_, idx as i16))); }
//@end
}
"""
TAGLIST = [("f32", "ozz-float_track"), ("Vec2", "ozz-float2_track"), ("Vec3", "ozz-float3_track"), ("Vec4", "ozz-float4_track"), ("Quat", "ozz-quat_track")]
TRACK = r"""
pub trait TrackValue: ArchiveRead<Self> + Sized {
    spec fn tg() -> Seq<char>;
    fn tag() -> (r: &'static str) ensures r@ == Self::tg();
}
""" + "".join(rf"""impl TrackValue for {t} {{
    open spec fn tg() -> Seq<char> {{ "{g}"@ }}
//@fn src/track.rs TrackValue for {t}::tag
//@ret r
//@spec
//@end
}}
""" for t, g in TAGLIST) + r"""
//@item src/track.rs struct Track
//@sub \bString\b ==> Text
//@sub (?m)^(\s+)(?:pub )?(\w+): ==> \1pub \2:
//@end
impl<V: TrackValue> Track<V> {
//@fn src/track.rs Track<V>::tag
//@ret r
//@spec
    ensures r@ == V::tg()
//@end
//@fn src/track.rs Track<V>::version
//@ret r
//@spec
    ensures r == 1
//@end
"""
t_steps = [("tag", "Text::take(@S, sw)"), ("ver", "u32::take(@S, sw)"), ("n", "u32::take(@S, sw)"), ("l", "u32::take(@S, sw)"),
           ("ratios", "many::<f32, f32>(@S, sw, n->Some_0.0 as nat)"), ("values", "many::<V, V>(@S, sw, n->Some_0.0 as nat)"),
           ("steps", "many::<u8, u8>(@S, sw, ((n->Some_0.0 + 7) / 8) as nat)"), ("name", "text_take(@S, sw, l->Some_0.0 as nat)")]
tl, tok, trest = lets(t_steps)
TRACK += r"""    pub open spec fn complete(s: Seq<u8>, sw: bool) -> bool {
""" + tl + "        " + " && ".join(tok) + r""" && tag->Some_0.0.g@ == bytes(V::tg()) && ver->Some_0.0 == 1
    }
    pub open spec fn holds(&self, s: Seq<u8>, sw: bool, rest: Seq<u8>) -> bool {
""" + tl + r"""        self.key_count == n->Some_0.0 && self.ratios@ == ratios->Some_0.0 && self.values@ == values->Some_0.0 && self.steps@ == steps->Some_0.0
            && self.name == name->Some_0.0 && rest == """ + trest + r"""
    }
//@fn src/track.rs Track<V>::from_archive
""" + SUB + TAGS + UTF + r"""//@ret r
//@spec
    // (an archive of 16 gigabytes or more could declare a number of keys that overflows when it is rounded up)
    requires old(archive).rest().len() < 0x3_0000_0000,
    ensures final(archive).swap() == old(archive).swap(),
        kinds(old(archive).rest(), old(archive).swap(), r, V::tg(), 1),
        r is Ok <==> Track::<V>::complete(old(archive).rest(), old(archive).swap()),
        r is Ok ==> r->Ok_0.holds(old(archive).rest(), old(archive).swap(), final(archive).rest()),
//@begin
    let ghost sw = archive.swap();
    let ghost s0 = archive.rest();
    proof { Text::law(s0, sw); u32::law(left(Text::take(s0, sw)), sw); }
//@after let ratios: Vec<f32> = archive.read_vec(key_count as usize)?;
    proof {
        let s3 = left(u32::take(left(Text::take(s0, sw)), sw));
        u32::law(s3, sw);
        u32::law(left(u32::take(s3, sw)), sw);
        many_len::<f32, f32>(left(u32::take(left(u32::take(s3, sw)), sw)), sw, key_count as nat);
    }
//@end
}
"""
NAMES = r"""
pub open spec fn names_of(v: Seq<Text>) -> Seq<(Text, i16)> { Seq::new(v.len(), |i: int| (v[i], i as i16)) }
"""
open(os.path.join(V, "load.rs"), "w").write(LOAD + NAMES + SKEL + SKEL_SPEC + TRACK + "}\n")

# ---- C07
COPY = "// C07: copies of animations, skeletons and sampling contexts (written by tools/gen_load.py).\n" + HEAD + r"""global size_of usize == 8;
//@include mem.rs
#[derive(Clone, Copy)]
pub struct Float3Key(pub [u16; 3]);
#[derive(Clone, Copy)]
pub struct QuaternionKey(pub [u16; 3]);
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SoaTransform { x: usize }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct InterpSoaFloat3 { x: usize }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct InterpSoaQuaternion { x: usize }
pub struct Text { pub g: Ghost<Seq<u8>> }
impl Text {
    #[verifier::external_body]
    fn clone(&self) -> (r: Text) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
fn copy_into<T: Copy>(dst: &mut [T], src: &[T])
    requires old(dst)@.len() == src@.len()
    ensures final(dst)@ == src@
{ dst.copy_from_slice(src) }
#[verifier::external_body]
fn to_vec<T: Copy>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { s.to_vec() }
""" + ANIM + r"""
//@item src/animation.rs struct AnimationRaw
//@sub pub\(crate\) struct ==> pub struct
//@sub \bString\b ==> Text
//@end
    // What an animation is made of
    pub open spec fn same(&self, a: &AnimationRaw) -> bool {
        &&& self.wf() && self.duration == a.duration && self.num_tracks == a.num_tracks && self.name == a.name
""".replace("//@item src/animation.rs struct AnimationRaw\n//@sub pub\\(crate\\) struct ==> pub struct\n//@sub \\bString\\b ==> Text\n//@end\n", "") + "".join(f"        &&& self.{n}@ == a.{n}@\n" for n, _, _ in REG) + "".join(f"        &&& self.{k}_iframe_interval == a.{k}_iframe_interval\n" for k in "trs") + r"""    }
//@fn src/animation.rs Animation::from_raw
//@sub raw\.name\.clone\(\) ==> raw.name.clone()
//@sub animation\.(\w+_mut)\(\)\.copy_from_slice\(&raw\.(\w+)\); ==> copy_into(animation.\1(), raw.\2.as_slice());
//@ret r
//@spec
    requires
        // as written by to_raw: one ratio and one previous-key offset per key, counts of 32 bits
""" + "".join(f"        raw.{k}_ratios@.len() == raw.{P[k][0]}@.len(), raw.{k}_previouses@.len() == raw.{P[k][0]}@.len(),\n" for k in "trs") + "".join(
    f"        raw.{n}@.len() <= u32::MAX,\n" for n, _, c in REG if "ratios" not in n and "previouses" not in n) + r"""    ensures r.same(raw)
//@end
//@fn src/animation.rs Animation::to_raw
//@sub self\.(\w+)\(\)\.to_vec\(\) ==> to_vec(self.\1())
//@ret r
//@spec
    requires self.wf()
    ensures self.same(&r)
//@end
}
//@item src/animation.rs struct AnimationRaw
//@sub pub\(crate\) struct ==> pub struct
//@sub \bString\b ==> Text
//@end
// A copy by way of the raw form is the same animation.
proof fn animation_copy(a: Animation, raw: AnimationRaw, b: Animation)
    requires a.same(&raw), b.same(&raw)
    ensures a.duration == b.duration, a.num_tracks == b.num_tracks, a.name == b.name,
""" + "".join(f"        a.{n}@ == b.{n}@, a.{c} == b.{c},\n" for n, _, c in REG) + "".join(f"        a.{k}_iframe_interval == b.{k}_iframe_interval,\n" for k in "trs") + "{}\n"

COPY += SKEL.replace("""//@fn src/skeleton.rs Skeleton::tag
//@ret r
//@spec
    ensures r@ == "ozz-skeleton"@
//@end
""", "") + r"""
    pub open spec fn same(&self, a: &SkeletonRaw) -> bool {
        self.wf() && self.joint_rest_poses@ == a.joint_rest_poses@ && self.joint_parents@ == a.joint_parents@ && self.joint_names == a.joint_names
    }
//@fn src/skeleton.rs Skeleton::from_raw
//@sub BiHashMap::default\(\) ==> Names::new()
//@sub skeleton\.(\w+_mut)\(\)\.copy_from_slice\(&raw\.(\w+)\); ==> copy_into(skeleton.\1(), raw.\2.as_slice());
//@ret r
//@spec
    requires raw.joint_parents@.len() <= u32::MAX, raw.joint_rest_poses@.len() == (raw.joint_parents@.len() + 3) / 4
    ensures r.same(raw)
//@end
//@fn src/skeleton.rs Skeleton::to_raw
//@sub self\.(\w+)\(\)\.to_vec\(\) ==> to_vec(self.\1())
//@ret r
//@spec
    requires self.wf()
    ensures self.same(&r)
//@end
}
//@item src/skeleton.rs struct SkeletonRaw
//@sub pub\(crate\) struct ==> pub struct
//@sub \bJointHashMap\b ==> Names
//@end
// ---- the context
//@item src/sampling_job.rs struct SamplingContextInner
//@sub \*mut (\w+) ==> Vec<\1>
//@sub (?m)^\s*struct ==> pub struct
//@sub (?m)^(\s+)(\w+): ==> \1pub \2:
//@end
//@item src/sampling_job.rs struct SamplingContext
//@sub \*mut SamplingContextInner ==> pub SamplingContextInner
//@end
pub uninterp spec fn eq_f(a: f32, b: f32) -> bool;
pub uninterp spec fn eq_3(a: Seq<InterpSoaFloat3>, b: Seq<InterpSoaFloat3>) -> bool;
pub uninterp spec fn eq_4(a: Seq<InterpSoaQuaternion>, b: Seq<InterpSoaQuaternion>) -> bool;
// == of the standard library, on floats (so NaN differs from itself), on slices of floats, of integers
#[verifier::external_body]
fn is_f(a: f32, b: f32) -> (r: bool) ensures r == eq_f(a, b) { unimplemented!() }
#[verifier::external_body]
fn is_3(a: &[InterpSoaFloat3], b: &[InterpSoaFloat3]) -> (r: bool) ensures r == eq_3(a@, b@) { unimplemented!() }
#[verifier::external_body]
fn is_4(a: &[InterpSoaQuaternion], b: &[InterpSoaQuaternion]) -> (r: bool) ensures r == eq_4(a@, b@) { unimplemented!() }
#[verifier::external_body]
fn is_e(a: &[u32], b: &[u32]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
fn is_o(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
""" 
CH = [("translation", "InterpSoaFloat3", "3"), ("rotation", "InterpSoaQuaternion", "4"), ("scale", "InterpSoaFloat3", "3")]
CREG = [x for n, t, _ in CH for x in ((n + "s", t), (n + "_entries", "u32"), (n + "_outdated", "u8"))]
COPY += r"""impl SamplingContext {
    pub open spec fn whole(&self) -> bool {
        let i = self.0;
        &&& i.max_tracks == 4 * i.max_soa_tracks && i.max_outdated == (i.max_soa_tracks + 7) / 8
""" + "".join(f"        &&& i.{n}s@.len() == i.max_soa_tracks && i.{n}_entries@.len() == i.max_tracks && i.{n}_outdated@.len() == i.max_outdated\n" for n, _, _ in CH) + r"""    }
    // every field a user can see
    pub open spec fn twin(&self, o: &SamplingContext) -> bool {
        let i = self.0;
        let j = o.0;
        &&& self.whole() && o.whole() && i.max_tracks == j.max_tracks && i.max_soa_tracks == j.max_soa_tracks && i.max_outdated == j.max_outdated
        &&& i.animation_id == j.animation_id && i.ratio == j.ratio
""" + "".join(f"        &&& i.{n}@ == j.{n}@\n" for n, _ in CREG) + "".join(f"        &&& i.{n}_next == j.{n}_next\n" for n, _, _ in CH) + r"""    }
    // Allocation and carving of the regions: the subject of template layout.
    #[verifier::external_body]
    pub fn new(max_tracks: usize) -> (r: SamplingContext)
        ensures r.whole(), r.0.max_soa_tracks as int == (max_tracks + 3) / 4
    { unimplemented!() }
//@fn src/sampling_job.rs SamplingContext::inner
//@sub unsafe \{ &\*self\.0 \} ==> &self.0
//@ret r
//@spec
    ensures *r == self.0
//@end
//@fn src/sampling_job.rs SamplingContext::inner_mut
//@sub unsafe \{ &mut \*self\.0 \} ==> &mut self.0
//@ret r
//@spec
    ensures *r == old(self).0, final(self).0 == *final(r)
//@end
""" + "".join(rf"""//@fn src/sampling_job.rs SamplingContext::{f}
//@ret r
//@spec
    ensures r == self.0.{f}
//@end
""" for f in ["max_tracks", "max_soa_tracks", "max_outdated", "animation_id", "ratio"] + [n + "_next" for n, _, _ in CH]) + "".join(rf"""//@fn src/sampling_job.rs SamplingContext::set_{f}
//@spec
    ensures final(self).0 == (SamplingContextInner {{ {f}: {a}, ..old(self).0 }})
//@end
""" for f, a in [("animation_id", "animation_id"), ("ratio", "ratio")] + [(n + "_next", "next") for n, _, _ in CH]) + "".join(rf"""//@fn src/sampling_job.rs SamplingContext::{n}
//@sub unsafe \{{ slice::from_raw_parts\(inner\.(\w+), ([^;{{}}]*)\) \}} ==> prefix(&inner.\1, \2)
//@ret x
//@spec
    requires self.whole()
    ensures x@ == self.0.{n}@
//@begin
    proof {{ assert(self.0.{n}@.take(self.0.{n}@.len() as int) =~= self.0.{n}@); }}
//@end
//@fn src/sampling_job.rs SamplingContext::{n}_mut
//@sub self\.inner\(\) ==> self.inner_mut()
//@sub unsafe \{{ slice::from_raw_parts_mut\(inner\.(\w+), ([^;{{}}]*)\) \}} ==> prefix_mut(&mut inner.\1, \2)
//@ret x
//@spec
    requires old(self).whole()
    ensures x@ == old(self).0.{n}@, final(x)@.len() == x@.len(), final(self).0.{n}@ == final(x)@, final(self).whole(),
        final(self).0 == (SamplingContextInner {{ {n}: final(self).0.{n}, ..old(self).0 }})
//@begin
    proof {{
        assert(self.0.{n}@.take(self.0.{n}@.len() as int) =~= self.0.{n}@);
        assert(forall|x: Seq<{t}>| (#[trigger] (x + self.0.{n}@.skip(self.0.{n}@.len() as int))) =~= x);
    }}
//@end
""" for n, t in CREG) + r"""//@fn src/sampling_job.rs Clone for SamplingContext::clone
//@sub (?s)ctx\.(\w+_mut)\(\)\s*\.copy_from_slice\(self\.(\w+)\(\)\); ==> copy_into(ctx.\1(), self.\2());
//@ret r
//@spec
    requires self.whole()
    ensures r.twin(self)
//@end
//@fn src/sampling_job.rs PartialEq for SamplingContext::eq
//@sub self\.ratio\(\) == other\.ratio\(\) ==> is_f(self.ratio(), other.ratio())
//@sub self\.(translations|scales)\(\) == other\.(\w+)\(\) ==> is_3(self.\1(), other.\2())
//@sub self\.rotations\(\) == other\.rotations\(\) ==> is_4(self.rotations(), other.rotations())
//@sub self\.(translation|rotation|scale)_entries\(\) == other\.(\w+)_entries\(\) ==> is_e(self.\1_entries(), other.\2_entries())
//@sub self\.(translation|rotation|scale)_outdated\(\) == other\.(\w+)_outdated\(\) ==> is_o(self.\1_outdated(), other.\2_outdated())
//@ret r
//@spec
    requires self.whole(), other.whole()
    ensures r == ({
        let i = self.0;
        let j = other.0;
        &&& i.max_tracks == j.max_tracks && i.max_soa_tracks == j.max_soa_tracks && i.max_outdated == j.max_outdated
        &&& i.animation_id == j.animation_id && eq_f(i.ratio, j.ratio)
""" + "".join(f"        &&& eq_{k}(i.{n}s@, j.{n}s@) && i.{n}_entries@ == j.{n}_entries@ && i.{n}_outdated@ == j.{n}_outdated@ && i.{n}_next == j.{n}_next\n" for n, _, k in CH) + r"""    })
//@end
//@fn src/sampling_job.rs SamplingContext::clone_without_animation_id
//@ret r
//@spec
    requires self.whole()
    ensures r.twin(&SamplingContext(SamplingContextInner { animation_id: 0, ..self.0 }))
//@end
//@fn src/sampling_job.rs SamplingContext::clear
//@sub 0\.0\b ==> zero()
//@spec
    requires old(self).whole()
    ensures final(self).0 == (SamplingContextInner { animation_id: 0, ratio: final(self).0.ratio, translation_next: 0, rotation_next: 0, scale_next: 0, ..old(self).0 })
//@end
}
fn zero() -> f32 { 0.0f32 }
"""
open(os.path.join(V, "copies.rs"), "w").write(COPY + "}\n")
