use vstd::prelude::*;

verus! {

global size_of usize == 8;

#[verifier::external_body]
pub struct Skeleton { x: u8 }

// Accessors: thin unsafe slices, checked by the Kani harnesses of C07.
impl Skeleton {
    pub uninterp spec fn parents(&self) -> Seq<i16>;
    #[verifier::external_body]
    pub fn num_joints(&self) -> (n: usize) ensures n == self.parents().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn joint_parent(&self, idx: usize) -> (p: i16)
        requires idx < self.parents().len(), ensures p == self.parents()[idx as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn joint_parents(&self) -> (r: &[i16]) ensures r@ == self.parents() { unimplemented!() }
}
// The visitor is observed through the calls it gets.
pub fn record(v: &mut Vec<(i16, i16)>, joint: i16, parent: i16)
    ensures final(v)@ == old(v)@.push((joint, parent))
{ v.push((joint, parent)); }

// a is j or an ancestor of j
pub open spec fn anc(p: Seq<i16>, a: int, j: int) -> bool
    decreases j
{
    a == j || (0 <= j < p.len() && 0 <= p[j] < j && anc(p, a, p[j] as int))
}
// Depth-first order: the parent of each joint is the joint before it or one of that joint's ancestors, or none.
pub open spec fn depth_first(p: Seq<i16>) -> bool {
    &&& p.len() <= 32767
    &&& forall|j: int| 0 <= j < p.len() ==> -1 <= (#[trigger] p[j]) < j
    &&& forall|j: int| 0 < j < p.len() && (#[trigger] p[j]) >= 0 ==> anc(p, p[j] as int, j - 1)
}
// joints visited from `from`
pub open spec fn in_subtree(p: Seq<i16>, from: int, j: int) -> bool {
    0 <= j < p.len() && (from < 0 || anc(p, from, j))
}

proof fn anc_le(p: Seq<i16>, a: int, j: int)
    requires anc(p, a, j),
    ensures a <= j,
    decreases j,
{
    if a != j { anc_le(p, a, p[j] as int); }
}
proof fn anc_trans(p: Seq<i16>, a: int, b: int, j: int)
    requires anc(p, a, b), anc(p, b, j),
    ensures anc(p, a, j),
    decreases j,
{
    if b != j { anc_trans(p, a, b, p[j] as int); }
}
// two ancestors of one joint are ancestors of each other
proof fn anc_chain(p: Seq<i16>, a: int, b: int, j: int)
    requires anc(p, a, j), anc(p, b, j), a <= b,
    ensures anc(p, a, b),
    decreases j,
{
    if b == j {} else { anc_le(p, b, p[j] as int); if a == j { anc_le(p, b, j); } else { anc_chain(p, a, b, p[j] as int); } }
}
// Once a joint has a parent before `from`, no later joint is below `from`.
proof fn after_the_subtree(p: Seq<i16>, from: int, m: int, j: int)
    requires depth_first(p), 0 <= from < m <= j < p.len(), p[m] < from,
    ensures !anc(p, from, j),
    decreases j,
{
    if j == m {
        if anc(p, from, j) { anc_le(p, from, p[m] as int); }
    } else {
        after_the_subtree(p, from, m, j - 1);
        if anc(p, from, j) {
            assert(p[j] >= 0 && anc(p, p[j] as int, j - 1));
            anc_trans(p, from, p[j] as int, j - 1);
        }
    }
}
pub proof fn subtree_is_a_range(p: Seq<i16>, from: int, e: int)
    requires
        depth_first(p), 0 <= from < e <= p.len(),
        forall|m: int| from < m < e ==> (#[trigger] p[m]) >= from,
        e == p.len() || p[e] < from,
    ensures forall|j: int| 0 <= j < p.len() ==> (#[trigger] in_subtree(p, from, j) <==> from <= j < e),
{
    assert forall|j: int| 0 <= j < p.len() implies (#[trigger] in_subtree(p, from, j) <==> from <= j < e) by {
        if j < from { if anc(p, from, j) { anc_le(p, from, j); } }
        else if j < e { inside(p, from, e, j); }
        else { after_the_subtree(p, from, e, j); }
    }
}
proof fn inside(p: Seq<i16>, from: int, e: int, j: int)
    requires depth_first(p), 0 <= from <= j < e <= p.len(), forall|m: int| from < m < e ==> (#[trigger] p[m]) >= from,
    ensures anc(p, from, j),
    decreases j,
{
    if j > from { assert(p[j] >= from); assert(p[j] < j); inside(p, from, e, p[j] as int); }
}

//@fn src/skeleton.rs Skeleton::is_leaf
//@sub &self ==> skeleton: &Skeleton
//@sub \bself\. ==> skeleton.
//@sub joint: impl OzzIndex ==> joint: i32
//@sub joint\.usize\(\) ==> (joint as usize)
//@sub joint\.i32\(\) ==> joint
//@ret leaf
//@spec
    requires depth_first(skeleton.parents()), 0 <= joint < skeleton.parents().len(),
    ensures leaf <==> (forall|j: int| 0 <= j < skeleton.parents().len() ==> (#[trigger] skeleton.parents()[j]) != joint),
//@begin
    proof {
        let p = skeleton.parents();
        if exists|j: int| 0 <= j < p.len() && (#[trigger] p[j]) == joint {
            let j = choose|j: int| 0 <= j < p.len() && (#[trigger] p[j]) == joint;
            first_child(p, joint as int, j);
        }
    }
//@end
// If a joint has a child, the next joint is its child.
proof fn first_child(p: Seq<i16>, a: int, j: int)
    requires depth_first(p), 0 <= a < p.len(), 0 <= j < p.len(), p[j] == a,
    ensures a + 1 < p.len(), p[a + 1] == a,
{
    assert(j > a);
    if p[a + 1] != a {
        assert(p[a + 1] < a + 1);
        after_the_subtree(p, a, a + 1, j);
        assert(anc(p, a, j)) by { assert(anc(p, a, p[j] as int)); }
    }
}

//@fn src/skeleton.rs Skeleton::iter_depth_first
//@sub iter_depth_first<F> ==> iter_depth_first
//@sub &self, from: impl OzzIndex, mut f: F ==> skeleton: &Skeleton, from: i32, visits: &mut Vec<(i16, i16)>
//@sub where F: FnMut\(i16, i16\),? ==>
//@sub \bself\. ==> skeleton.
//@sub from\.i32\(\) ==> from
//@sub from\.usize\(\) ==> (from as usize)
//@sub \bf\(i ==> record(visits, i
//@spec
    requires depth_first(skeleton.parents()), from < skeleton.parents().len() || from >= 0, old(visits)@.len() == 0,
    ensures ({
        let p = skeleton.parents();
        let v = final(visits)@;
        let start = if from < 0 { 0int } else { from as int };
        // each visited joint with its parent, in index order from the start joint
        &&& (forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).0 == start + k && v[k].1 == p[start + k])
        // and these are exactly the joints of the subtree
        &&& (forall|j: int| 0 <= j < p.len() ==> (#[trigger] in_subtree(p, from as int, j) <==> start <= j < start + v.len()))
    }),
//@begin
    let ghost p = skeleton.parents();
    let ghost start = if from < 0 { 0int } else { from as int };
//@loop 1 while process
    invariant
        p == skeleton.parents(), depth_first(p), start == if from < 0 { 0int } else { from as int },
        start <= i, start <= p.len() ==> i <= p.len(), start > p.len() ==> i == start,
        i < p.len() || !process, i <= 2147483647,
        process ==> i == start || p[i as int] >= from,
        !process ==> i >= p.len() || (i > start && p[i as int] < from),
        i > start ==> start < p.len(),
        forall|m: int| start < m < i ==> (#[trigger] p[m]) >= from,
        visits@.len() == i - start,
        forall|k: int| 0 <= k < visits@.len() ==> (#[trigger] visits@[k]).0 == start + k && visits@[k].1 == p[start + k],
    decreases p.len() - i,
//@post 1
    proof {
        if from >= 0 && start < p.len() { subtree_is_a_range(p, from as int, i as int); }
        if from < 0 {
            assert(forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]) >= -1);
            assert(from <= -1);
            assert(i == p.len());
        } else if start >= p.len() {
            assert forall|j: int| 0 <= j < p.len() implies !(#[trigger] in_subtree(p, from as int, j)) by {
                if anc(p, from as int, j) { anc_le(p, from as int, j); }
            }
        }
    }
//@end

//@fn src/skeleton.rs Skeleton::iter_depth_first_reverse
//@sub iter_depth_first_reverse<F> ==> iter_depth_first_reverse
//@sub &self, mut f: F ==> skeleton: &Skeleton, visits: &mut Vec<(i16, i16)>
//@sub where F: FnMut\(i16, i16\),? ==>
//@sub \bself\. ==> skeleton.
//@sub \bf\(i ==> record(visits, i
//@sub for i in \(0\.\.skeleton\.num_joints\(\)\)\.rev\(\) \{ ==> let mut i_: usize = skeleton.num_joints(); while i_ > 0 { i_ = i_ - 1; let i = i_;
//@spec
    requires depth_first(skeleton.parents()), old(visits)@.len() == 0,
    ensures ({
        let p = skeleton.parents();
        let v = final(visits)@;
        // all joints once, children before parents
        &&& v.len() == p.len()
        &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).0 == p.len() - 1 - k && v[k].1 == p[p.len() - 1 - k]
    }),
//@begin
    let ghost p = skeleton.parents();
//@loop 1 while i_ > 0
    invariant
        p == skeleton.parents(), depth_first(p), i_ <= p.len(), visits@.len() == p.len() - i_,
        forall|k: int| 0 <= k < visits@.len() ==> (#[trigger] visits@[k]).0 == p.len() - 1 - k && visits@[k].1 == p[p.len() - 1 - k],
    decreases i_,
//@end

} // verus!
