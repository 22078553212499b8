use vstd::prelude::*;

verus! {

global size_of usize == 8;

//@include bufs.rs

#[verifier::external_body]
pub struct Skeleton { x: u8 }
impl Skeleton {
    pub uninterp spec fn parents(&self) -> Seq<i16>;
    #[verifier::external_body]
    pub fn num_joints(&self) -> (n: usize) ensures n == self.parents().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn num_soa_joints(&self) -> (n: usize) ensures n == (self.parents().len() + 3) / 4 { unimplemented!() }
    #[verifier::external_body]
    pub fn joint_parent(&self, idx: usize) -> (p: i16)
        requires idx < self.parents().len(), ensures p == self.parents()[idx as int] { unimplemented!() }
}
pub assume_specification [i32::saturating_add] (a: i32, b: i32) -> (r: i32)
    ensures r == (if a + b > i32::MAX { i32::MAX as int } else if a + b < i32::MIN { i32::MIN as int } else { a + b });
pub const SKELETON_NO_PARENT: i32 = -1;

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SoaVec3 { x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SoaQuat { x: u8 }
#[derive(Clone, Copy)]
//@item src/math.rs struct SoaTransform
//@end
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SoaMat4 { x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct AosMat4 { x: u8 }

// The matrix of lane k of an affine transform, and the product: what they compute is the subject of C17.
pub uninterp spec fn affine(t: SoaVec3, r: SoaQuat, s: SoaVec3) -> SoaMat4;
pub uninterp spec fn lane(m: SoaMat4, k: int) -> AosMat4;
pub uninterp spec fn product(a: AosMat4, b: AosMat4) -> AosMat4;
impl SoaMat4 {
    #[verifier::external_body]
    pub fn from_affine(t: &SoaVec3, r: &SoaQuat, s: &SoaVec3) -> (m: SoaMat4) ensures m == affine(*t, *r, *s) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_aos(self) -> (m: [AosMat4; 4]) ensures forall|k: int| 0 <= k < 4 ==> #[trigger] m@[k] == lane(self, k) { unimplemented!() }
}
impl AosMat4 {
    #[verifier::external_body]
    pub fn mul(a: &AosMat4, b: &AosMat4) -> (m: AosMat4) ensures m == product(*a, *b) { unimplemented!() }
}

pub open spec fn anc(p: Seq<i16>, a: int, j: int) -> bool
    decreases j
{
    a == j || (0 <= j < p.len() && 0 <= p[j] < j && anc(p, a, p[j] as int))
}
pub open spec fn depth_first(p: Seq<i16>) -> bool {
    &&& p.len() <= 32767
    &&& forall|j: int| 0 <= j < p.len() ==> -1 <= (#[trigger] p[j]) < j
    &&& forall|j: int| 0 < j < p.len() && (#[trigger] p[j]) >= 0 ==> anc(p, p[j] as int, j - 1)
}
pub open spec fn in_subtree(p: Seq<i16>, from: int, j: int) -> bool {
    0 <= j < p.len() && (from < 0 || anc(p, from, j))
}
// joints that the job updates
pub open spec fn updated(p: Seq<i16>, from: int, to: int, excluded: bool, j: int) -> bool {
    in_subtree(p, from, j) && j <= to && !(excluded && j == from)
}
pub open spec fn local(input: Seq<SoaTransform>, j: int) -> AosMat4 {
    lane(affine(input[j / 4].translation, input[j / 4].rotation, input[j / 4].scale), j % 4)
}
pub open spec fn model(p: Seq<i16>, input: Seq<SoaTransform>, root: AosMat4, out: Seq<AosMat4>, j: int) -> AosMat4 {
    product(if p[j] < 0 { root } else { out[p[j] as int] }, local(input, j))
}

proof fn anc_le(p: Seq<i16>, a: int, j: int)
    requires anc(p, a, j),
    ensures a <= j,
    decreases j,
{
    if a != j { anc_le(p, a, p[j] as int); }
}
proof fn anc_trans(p: Seq<i16>, a: int, b: int, j: int)
    requires anc(p, a, b), anc(p, b, j),
    ensures anc(p, a, j),
    decreases j,
{
    if b != j { anc_trans(p, a, b, p[j] as int); }
}
proof fn after_the_subtree(p: Seq<i16>, from: int, m: int, j: int)
    requires depth_first(p), 0 <= from < m <= j < p.len(), p[m] < from,
    ensures !anc(p, from, j),
    decreases j,
{
    if j == m {
        if anc(p, from, j) { anc_le(p, from, p[m] as int); }
    } else {
        after_the_subtree(p, from, m, j - 1);
        if anc(p, from, j) {
            assert(p[j] >= 0 && anc(p, p[j] as int, j - 1));
            anc_trans(p, from, p[j] as int, j - 1);
        }
    }
}
proof fn inside(p: Seq<i16>, from: int, e: int, j: int)
    requires depth_first(p), 0 <= from <= j < e <= p.len(), forall|m: int| from < m < e ==> (#[trigger] p[m]) >= from,
    ensures anc(p, from, j),
    decreases j,
{
    if j > from { assert(p[j] >= from); assert(p[j] < j); inside(p, from, e, p[j] as int); }
}
// The loop stops at e: what it went through is what has to be updated.
proof fn range_is_updated(p: Seq<i16>, from: int, to: int, excluded: bool, begin: int, end: int, e: int)
    requires
        depth_first(p),
        begin == if from < 0 { 0 } else if excluded { from + 1 } else { from },
        end == if to < 0 { 0 } else if to + 1 > p.len() { p.len() as int } else { to + 1 },
        begin <= e, e <= end || e == begin,
        forall|m: int| begin <= m < e ==> (#[trigger] p[m]) >= from || (m == from && !excluded),
        e >= end || (p[e] < from && (e > begin || excluded)),
    ensures forall|j: int| 0 <= j < p.len() ==> (#[trigger] updated(p, from, to, excluded, j) <==> begin <= j < e && j < end),
{
    assert forall|j: int| 0 <= j < p.len() implies (#[trigger] updated(p, from, to, excluded, j) <==> begin <= j < e && j < end) by {
        if from >= 0 {
            if j < from { if anc(p, from, j) { anc_le(p, from, j); } }
            else if j < e { if j > from { assert forall|m: int| from < m < e implies (#[trigger] p[m]) >= from by { assert(begin <= m); } inside(p, from, e, j); } }
            else if e < end && p[e] < from {
                if e > from { after_the_subtree(p, from, e, j); }
            }
        } else {
            if e < end { assert(p[e] >= -1); }
        }
    }
}

//@item src/local_to_model_job.rs struct LocalToModelJob
//@sub (?m)^(    )([a-z]\w+): ==> \1pub \2:
//@sub \bMat4\b ==> AosMat4
//@sub = Rc<Skeleton> ==>
//@sub = Rc<RefCell<Vec<SoaTransform>>> ==>
//@sub = Rc<RefCell<Vec<AosMat4>>> ==>
//@end
// Gate: the resources are there, not poisoned, and the buffers long enough.
impl<S: OzzObj<Skeleton>, I: OzzBuf<SoaTransform>, O: OzzMutBuf<AosMat4>> LocalToModelJob<S, I, O> {
    pub open spec fn valid(&self) -> bool {
        &&& self.skeleton.is_some() && self.input.is_some() && self.output.is_some() && !self.input->0.poisoned() && !self.output->0.poisoned()
        &&& self.input->0.content().len() >= (self.parents().len() + 3) / 4 && self.output->0.content().len() >= self.parents().len()
    }
    pub open spec fn parents(&self) -> Seq<i16> { self.skeleton->0.target().parents() }
//@fn src/local_to_model_job.rs LocalToModelJob<S, I, O>::validate
//@sub ^\s*\(\|\| ==>
//@sub \)\(\)\s*\.unwrap_or\(false\)\s*$ ==>
//@sub -> bool ==> -> Option<bool>
//@sub ok &= ([^;]*); ==> let c = \1; ok = ok && c;
//@ret r
//@spec
    ensures (r == Some(true)) == self.valid()
//@end
//@fn src/local_to_model_job.rs LocalToModelJob<S, I, O>::run
//@sub \.into\(\) ==>
//@sub? ok &= (.*?); ==> ok = ok && (\1);
//@sub? i32::max\( ==> max_i32(
//@sub? i32::min\( ==> min_i32(
//@sub? self\.from_excluded as i32 ==> (if self.from_excluded { 1i32 } else { 0i32 })
//@ret res
//@spec
    requires old(self).skeleton.is_some() ==> depth_first(old(self).parents()),
    ensures
        // gate: nothing is written unless the job is valid
        res is Ok <==> old(self).valid(),
        res is Err ==> (res->Err_0 is InvalidJob || res->Err_0 is LockPoison),
        old(self).skeleton.is_some() && old(self).input.is_some() && old(self).output.is_some() && (old(self).input->0.poisoned() || old(self).output->0.poisoned())
            ==> res is Err && res->Err_0 is LockPoison,
        res is Err && old(self).output.is_some() ==> final(self).output.is_some() && final(self).output->0.content() == old(self).output->0.content(),
        final(self).skeleton == old(self).skeleton, final(self).input == old(self).input, final(self).root == old(self).root,
        final(self).from == old(self).from, final(self).to == old(self).to, final(self).from_excluded == old(self).from_excluded,
        res is Ok ==> ({
            let p = old(self).parents();
            let o = final(self).output->0.content();
            let o0 = old(self).output->0.content();
            let job = old(self);
            &&& final(self).output.is_some() && o.len() == o0.len()
            // each joint of the range gets parent * local, everything else is kept
            &&& forall|j: int| 0 <= j < p.len() ==> (#[trigger] updated(p, job.from as int, job.to as int, job.from_excluded, j) ==>
                    o[j] == model(p, job.input->0.content(), job.root, o, j))
            &&& forall|j: int| 0 <= j < o0.len() && !(j < p.len() && updated(p, job.from as int, job.to as int, job.from_excluded, j)) ==> #[trigger] o[j] == o0[j]
        }),
//@begin
    let ghost p = self.parents();
    let ghost from = self.from;
    let ghost to = self.to;
    let ghost from_excluded = self.from_excluded;
    let ghost root = self.root;
    let ghost o0 = self.output->0.content();
//@loop 1 while process
    invariant
        from == self.from, to == self.to, from_excluded == self.from_excluded, root == self.root,
        p == skeleton.parents(), depth_first(p), input@.len() >= (p.len() + 3) / 4, output@.len() == o0.len(), o0.len() >= p.len(),
        begin as int == (if from < 0 { 0int } else if from_excluded && from < i32::MAX { from + 1 } else { from as int }),
        end as int == (if to < 0 { 0 } else if to + 1 > p.len() { p.len() as int } else { to + 1 }),
        begin <= idx, idx <= end || idx == begin,
        process ==> idx < end && (p[idx as int] >= from || (idx == from && !from_excluded) || from < 0),
        !process ==> idx >= end || (p[idx as int] < from && (idx > begin || from_excluded)),
        forall|m: int| begin <= m < idx ==> (#[trigger] p[m]) >= from || (m == from && !from_excluded),
        forall|m: int| begin <= m < idx ==> #[trigger] output@[m] == model(p, input@, root, output@, m),
        forall|m: int| 0 <= m < o0.len() && !(begin <= m < idx) ==> #[trigger] output@[m] == o0[m],
    decreases p.len() - idx,
//@start 1
    let ghost idx1 = idx;
    proof { assert(idx < p.len()); assert(idx >> 2usize == idx / 4usize) by (bit_vector); assert(add(idx, 4usize) & !3usize == add(mul(4usize, idx / 4usize), 4usize)) by (bit_vector) requires idx < 32767usize; assert(mul(4usize, idx / 4usize) == 4 * (idx as int / 4)); }
//@loop 2 while idx < soa_end && process
    invariant
        from == self.from, to == self.to, from_excluded == self.from_excluded, root == self.root,
        p == skeleton.parents(), depth_first(p), input@.len() >= (p.len() + 3) / 4, output@.len() == o0.len(), o0.len() >= p.len(),
        begin as int == (if from < 0 { 0int } else if from_excluded && from < i32::MAX { from + 1 } else { from as int }),
        end as int == (if to < 0 { 0 } else if to + 1 > p.len() { p.len() as int } else { to + 1 }),
        begin <= idx, idx <= end || idx == begin, idx1 <= idx, idx1 < p.len(),
        process && idx == idx1 || idx > idx1,
        soa_end == 4 * (idx1 as int / 4) + 4, idx <= soa_end,
        forall|k: int| 0 <= k < 4 ==> #[trigger] aos_matrices@[k] == local(input@, 4 * (idx1 as int / 4) + k),
        process ==> idx < end && (p[idx as int] >= from || (idx == from && !from_excluded) || from < 0),
        !process ==> idx >= end || (p[idx as int] < from && (idx > begin || from_excluded)),
        forall|m: int| begin <= m < idx ==> (#[trigger] p[m]) >= from || (m == from && !from_excluded),
        forall|m: int| begin <= m < idx ==> #[trigger] output@[m] == model(p, input@, root, output@, m),
        forall|m: int| 0 <= m < o0.len() && !(begin <= m < idx) ==> #[trigger] output@[m] == o0[m],
    decreases p.len() - idx,
//@start 2
    let ghost o1 = output@;
    proof {
        assert(idx & 3 == idx % 4) by (bit_vector);
        assert(idx as int / 4 == idx1 as int / 4);
        assert(p[idx as int] >= -1 && p[idx as int] < idx);
    }
//@stop 2
    proof {
        assert(aos_matrices@[(idx - 1) as int % 4] == local(input@, idx - 1));
        assert(output@ =~= o1.update(idx - 1, model(p, input@, root, o1, idx - 1)));
        assert forall|m: int| begin <= m < idx implies #[trigger] output@[m] == model(p, input@, root, output@, m) by {
            assert(p[m] < m);
            if m < idx - 1 { assert(o1[m] == model(p, input@, root, o1, m)); }
        }
    }
//@post 1
    proof { range_is_updated(p, from as int, to as int, from_excluded, if from == i32::MAX && from_excluded { from + 1 } else { begin as int }, end as int, if from == i32::MAX && from_excluded { from + 1 } else { idx as int }); }
//@end
}

pub fn max_i32(a: i32, b: i32) -> (r: i32) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn min_i32(a: i32, b: i32) -> (r: i32) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }

// Updating a subtree of an up-to-date pose whose other joints did not change gives the same as updating everything.
pub proof fn partial_equals_full(p: Seq<i16>, input: Seq<SoaTransform>, root: AosMat4, a: Seq<AosMat4>, b: Seq<AosMat4>)
    requires
        depth_first(p), a.len() >= p.len(), b.len() >= p.len(),
        forall|j: int| 0 <= j < p.len() ==> #[trigger] a[j] == model(p, input, root, a, j),
        forall|j: int| 0 <= j < p.len() ==> #[trigger] b[j] == model(p, input, root, b, j),
    ensures forall|j: int| 0 <= j < p.len() ==> #[trigger] a[j] == b[j],
{
    assert forall|j: int| 0 <= j < p.len() implies #[trigger] a[j] == b[j] by { unique(p, input, root, a, b, j); }
}
proof fn unique(p: Seq<i16>, input: Seq<SoaTransform>, root: AosMat4, a: Seq<AosMat4>, b: Seq<AosMat4>, j: int)
    requires
        depth_first(p), a.len() >= p.len(), b.len() >= p.len(), 0 <= j < p.len(),
        forall|j: int| 0 <= j < p.len() ==> #[trigger] a[j] == model(p, input, root, a, j),
        forall|j: int| 0 <= j < p.len() ==> #[trigger] b[j] == model(p, input, root, b, j),
    ensures a[j] == b[j],
    decreases j,
{
    assert(a[j] == model(p, input, root, a, j));
    if p[j] >= 0 { unique(p, input, root, a, b, p[j] as int); }
}

} // verus!
