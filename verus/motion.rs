// C11: blended motion, over the real numbers.
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
//@include simd.rs
//@include glam.rs
verus! {
use sd::*;
use gl::*;
broadcast use {sd::ops, sd::fof};
global size_of usize == 8;
//@include bufs.rs
//@real

#[derive(Clone, Copy)]
//@item src/motion_blending_job.rs struct MotionBlendingLayer
//@end
//@item src/motion_blending_job.rs struct MotionBlendingJob
//@sub (?m)^(\s+)(layers|output): ==> \1pub \2:
//@end

// The sums over the first n layers: weights, weighted lengths, weighted directions, weighted rotations.
pub open spec fn wt(l: MotionBlendingLayer) -> real { l.weight.v() }
pub open spec fn len(l: MotionBlendingLayer) -> real { rsqrt(l.delta.translation.sq()) }
pub open spec fn sum_w(s: Seq<MotionBlendingLayer>, n: int) -> real decreases n {
    if n <= 0 { 0real } else if s[n - 1].weight.v() <= 0real { sum_w(s, n - 1) } else { sum_w(s, n - 1) + wt(s[n - 1]) }
}
pub open spec fn sum_len(s: Seq<MotionBlendingLayer>, n: int) -> real decreases n {
    if n <= 0 { 0real } else if s[n - 1].weight.v() <= 0real { sum_len(s, n - 1) } else { sum_len(s, n - 1) + len(s[n - 1]) * wt(s[n - 1]) }
}
pub open spec fn coord(v: Vec3A, k: int) -> real { if k == 0 { v.x.v() } else if k == 1 { v.y.v() } else { v.z.v() } }
pub open spec fn qcoord(v: Quat, k: int) -> real { if k == 0 { v.x.v() } else if k == 1 { v.y.v() } else if k == 2 { v.z.v() } else { v.w.v() } }
pub open spec fn v4coord(v: Vec4, k: int) -> real { if k == 0 { v.x.v() } else if k == 1 { v.y.v() } else if k == 2 { v.z.v() } else { v.w.v() } }
// weight times unit direction, nothing for a layer that does not move
pub open spec fn sum_dir(s: Seq<MotionBlendingLayer>, n: int, k: int) -> real decreases n {
    if n <= 0 { 0real } else if s[n - 1].weight.v() <= 0real { sum_dir(s, n - 1, k) } else {
        sum_dir(s, n - 1, k) + coord(s[n - 1].delta.translation, k) * (if len(s[n - 1]) == 0real { 0real } else { wt(s[n - 1]) / len(s[n - 1]) })
    }
}
// rotations brought to the hemisphere of the sum so far
pub open spec fn sum_rot(s: Seq<MotionBlendingLayer>, n: int, k: int) -> real decreases n {
    if n <= 0 { 0real } else if s[n - 1].weight.v() <= 0real { sum_rot(s, n - 1, k) } else {
        let q = s[n - 1].delta.rotation;
        let d = sum_rot(s, n - 1, 0) * q.x.v() + sum_rot(s, n - 1, 1) * q.y.v() + sum_rot(s, n - 1, 2) * q.z.v() + sum_rot(s, n - 1, 3) * q.w.v();
        sum_rot(s, n - 1, k) + qcoord(q, k) * (if d >= 0real { wt(s[n - 1]) } else { -wt(s[n - 1]) })
    }
}
pub open spec fn dir_sq(s: Seq<MotionBlendingLayer>) -> real {
    let n = s.len() as int;
    sum_dir(s, n, 0) * sum_dir(s, n, 0) + sum_dir(s, n, 1) * sum_dir(s, n, 1) + sum_dir(s, n, 2) * sum_dir(s, n, 2)
}
pub open spec fn rot_sq(s: Seq<MotionBlendingLayer>) -> real {
    let n = s.len() as int;
    sum_rot(s, n, 0) * sum_rot(s, n, 0) + sum_rot(s, n, 1) * sum_rot(s, n, 1) + sum_rot(s, n, 2) * sum_rot(s, n, 2) + sum_rot(s, n, 3) * sum_rot(s, n, 3)
}

impl MotionBlendingJob {
//@fn src/motion_blending_job.rs MotionBlendingJob::validate
//@ret r
//@spec
    ensures r
//@end
//@fn src/motion_blending_job.rs MotionBlendingJob::run
//@sub \b(Vec3A|Vec4|Quat|Transform3A)::(ZERO|ONE|IDENTITY)\b ==> \1::\2()
//@sub for (\w+) in &self\.layers \{ ==> let mut li: usize = 0; while li < self.layers.len() { let \1 = &self.layers[li]; li = li + 1;
//@ret r
//@spec
    ensures
        r.is_ok(), final(self).layers == old(self).layers,
        blended(old(self).layers@, final(self).output),
//@loop 1 while li < self.layers.len()
    invariant
        li <= self.layers.len(),
        self.layers == old(self).layers,
        acc_weight.v() == sum_w(self.layers@, li as int), dl.v() == sum_len(self.layers@, li as int),
        dt.x.v() == sum_dir(self.layers@, li as int, 0), dt.y.v() == sum_dir(self.layers@, li as int, 1), dt.z.v() == sum_dir(self.layers@, li as int, 2),
        dr.x.v() == sum_rot(self.layers@, li as int, 0), dr.y.v() == sum_rot(self.layers@, li as int, 1), dr.z.v() == sum_rot(self.layers@, li as int, 2), dr.w.v() == sum_rot(self.layers@, li as int, 3),
    decreases self.layers.len() - li,
//@end
}
pub open spec fn blended(s: Seq<MotionBlendingLayer>, o: Transform3A) -> bool {
    let n = s.len() as int;
    let d = rsqrt(dir_sq(s)) * sum_w(s, n);
    let k = if d == 0real { 0real } else { sum_len(s, n) / d };
    let h = 1real / rsqrt(rot_sq(s));
    &&& forall|c: int| 0 <= c < 3 ==> #[trigger] coord(o.translation, c) == sum_dir(s, n, c) * k
    &&& if rot_sq(s) != 0real {
        forall|c: int| 0 <= c < 4 ==> #[trigger] qcoord(o.rotation, c) == sum_rot(s, n, c) * h
    } else {
        o.rotation.x.v() == 0real && o.rotation.y.v() == 0real && o.rotation.z.v() == 0real && o.rotation.w.v() == 1real
    }
    &&& o.scale.x.v() == 1real && o.scale.y.v() == 1real && o.scale.z.v() == 1real
}

proof fn nothing_contributes(s: Seq<MotionBlendingLayer>, n: int, k: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).weight.v() <= 0real
    ensures sum_w(s, n) == 0real, sum_len(s, n) == 0real, sum_dir(s, n, k) == 0real, sum_rot(s, n, k) == 0real
    decreases n
{
    if n > 0 { nothing_contributes(s, n - 1, k); }
}
// With no contributing layer the blended motion is the identity.
pub proof fn identity_without_layers(s: Seq<MotionBlendingLayer>, o: Transform3A)
    requires blended(s, o), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).weight.v() <= 0real
    ensures o.is_identity()
{
    let n = s.len() as int;
    nothing_contributes(s, n, 0); nothing_contributes(s, n, 1); nothing_contributes(s, n, 2); nothing_contributes(s, n, 3);
    assert(0real * 0real == 0real) by (nonlinear_arith);
    assert(rot_sq(s) == 0real);
    let d = rsqrt(dir_sq(s)) * sum_w(s, n);
    assert(d == 0real) by (nonlinear_arith) requires d == rsqrt(dir_sq(s)) * sum_w(s, n), sum_w(s, n) == 0real;
    assert(coord(o.translation, 0) == 0real && coord(o.translation, 1) == 0real && coord(o.translation, 2) == 0real);
}
proof fn signs(s: Seq<MotionBlendingLayer>, n: int)
    requires 0 <= n <= s.len()
    ensures sum_w(s, n) >= 0real, sum_len(s, n) >= 0real, n > 0 && s[n - 1].weight.v() > 0real ==> sum_w(s, n) > 0real
    decreases n
{
    if n > 0 {
        signs(s, n - 1);
        let l = s[n - 1];
        let (x, y, z) = (l.delta.translation.x.v(), l.delta.translation.y.v(), l.delta.translation.z.v());
        assert(x * x + y * y + z * z >= 0real) by (nonlinear_arith);
        rsqrt_ax(l.delta.translation.sq());
        if l.weight.v() > 0real {
            assert(len(l) * wt(l) >= 0real) by (nonlinear_arith) requires len(l) >= 0real, wt(l) > 0real;
        }
    }
}
//@ring scaled_sq x y z k
    (x * k) * (x * k) + (y * k) * (y * k) + (z * k) * (z * k) == (k * k) * (x * x + y * y + z * z);
//@end
//@ring scaled_sq4 x y z w k
    (x * k) * (x * k) + (y * k) * (y * k) + (z * k) * (z * k) + (w * k) * (w * k) == (k * k) * (x * x + y * y + z * z + w * w);
//@end
//@ring squares k h w
    (k * k) * (h * h) * (w * w) == (k * (h * w)) * (k * (h * w));
//@end
// The translation is a non-negative multiple of the weighted sum of directions, and its length is the weighted average of
// the lengths (length * total weight == sum of the weighted lengths, both sides squared).
pub proof fn translation_blends(s: Seq<MotionBlendingLayer>, o: Transform3A) -> (k: real)
    requires blended(s, o)
    ensures
        k >= 0real, forall|c: int| 0 <= c < 3 ==> #[trigger] coord(o.translation, c) == sum_dir(s, s.len() as int, c) * k,
        dir_sq(s) != 0real && sum_w(s, s.len() as int) != 0real ==>
            o.translation.sq() * (sum_w(s, s.len() as int) * sum_w(s, s.len() as int)) == sum_len(s, s.len() as int) * sum_len(s, s.len() as int)
{
    let n = s.len() as int;
    signs(s, n);
    let (x, y, z) = (sum_dir(s, n, 0), sum_dir(s, n, 1), sum_dir(s, n, 2));
    assert(x * x + y * y + z * z >= 0real) by (nonlinear_arith);
    let h = rsqrt(dir_sq(s));
    let w = sum_w(s, n);
    let d = h * w;
    let k = if d == 0real { 0real } else { sum_len(s, n) / d };
    rsqrt_ax(dir_sq(s));
    assert(d >= 0real) by (nonlinear_arith) requires d == h * w, h >= 0real, w >= 0real;
    if d != 0real {
        assert(k >= 0real) by (nonlinear_arith) requires k == sum_len(s, n) / d, d > 0real, sum_len(s, n) >= 0real;
        assert(k * d == sum_len(s, n)) by (nonlinear_arith) requires k == sum_len(s, n) / d, d > 0real;
    }
    if dir_sq(s) != 0real && w != 0real {
        assert(h != 0real) by (nonlinear_arith) requires h * h == dir_sq(s), dir_sq(s) != 0real;
        assert(d != 0real) by (nonlinear_arith) requires d == h * w, h != 0real, w != 0real;
        scaled_sq(x, y, z, k);
        assert(coord(o.translation, 0) == x * k && coord(o.translation, 1) == y * k && coord(o.translation, 2) == z * k);
        assert(o.translation.sq() == (k * k) * dir_sq(s));
        squares(k, h, w);
        assert(o.translation.sq() * (w * w) == (k * k) * (h * h) * (w * w));
    }
    k
}
// The rotation is a unit quaternion.
pub proof fn rotation_is_unit(s: Seq<MotionBlendingLayer>, o: Transform3A)
    requires blended(s, o)
    ensures o.rotation.sq() == 1real
{
    let n = s.len() as int;
    let (x, y, z, w) = (sum_rot(s, n, 0), sum_rot(s, n, 1), sum_rot(s, n, 2), sum_rot(s, n, 3));
    assert(x * x + y * y + z * z + w * w >= 0real) by (nonlinear_arith);
    if rot_sq(s) != 0real {
        let h = rsqrt(rot_sq(s));
        let k = 1real / h;
        rsqrt_ax(rot_sq(s));
        assert(h != 0real) by (nonlinear_arith) requires h * h == rot_sq(s), rot_sq(s) != 0real;
        assert(k * h == 1real) by (nonlinear_arith) requires k == 1real / h, h != 0real;
        assert((k * k) * (h * h) == 1real) by (nonlinear_arith) requires k * h == 1real;
        scaled_sq4(x, y, z, w, k);
        assert(qcoord(o.rotation, 0) == x * k && qcoord(o.rotation, 1) == y * k && qcoord(o.rotation, 2) == z * k && qcoord(o.rotation, 3) == w * k);
    } else {
        assert(0real * 0real == 0real && 1real * 1real == 1real) by (nonlinear_arith);
    }
}
}
