// C10, C19: blending, lane by lane, over the real numbers (written by tools/gen_blend.py).
#![allow(non_camel_case_types, non_snake_case, unused)]
use vstd::prelude::*;
//@include simd.rs
//@include glam.rs
verus! {
use sd::*;
use gl::Vec4;
broadcast use {sd::ops, sd::fof};
global size_of usize == 8;
//@use kernel
//@include bufs.rs
//@real

fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
#[verifier::external_body]
pub fn fx4_from_vec4(v: Vec4) -> (r: f32x4) ensures forall|k: int| 0 <= k < 4 ==> #[trigger] r.l(k) == v.e(k) { unimplemented!() }
// output[..n].copy_from_slice(src)
#[verifier::external_body]
fn copy_prefix(o: &mut [SoaTransform], n: usize, src: &[SoaTransform])
    requires n <= old(o)@.len(), n == src@.len()
    ensures final(o)@ == src@ + old(o)@.skip(n as int)
{ unimplemented!() }

// The skeleton as the job sees it: as many rest poses as SoA joints (assumed; its construction is the subject of C06 and C07).
#[verifier::external_body]
pub struct Skeleton { x: u8 }
impl Skeleton {
    pub uninterp spec fn rest(&self) -> Seq<SoaTransform>;
    #[verifier::external_body]
    pub fn num_soa_joints(&self) -> (n: usize) ensures n == self.rest().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn joint_rest_poses(&self) -> (r: &[SoaTransform]) ensures r@ == self.rest() { unimplemented!() }
}

//@item src/blending_job.rs struct BlendingLayer
//@end
//@item src/blending_job.rs struct BlendingContext
//@sub (?m)^(\s+)(\w+): ==> \1pub \2:
//@end
//@item src/blending_job.rs struct BlendingJob
//@sub (?m)^(\s+)(skeleton|context|threshold|layers|additive_layers|output): ==> \1pub \2:
//@sub = Rc<(Skeleton|RefCell<Vec<SoaTransform>>)> ==>
//@end

// One joint: translation, rotation, scale.
pub ghost struct Pose { pub tx: real, pub ty: real, pub tz: real, pub rx: real, pub ry: real, pub rz: real, pub rw: real, pub sx: real, pub sy: real, pub sz: real }
pub open spec fn lane(o: SoaTransform, k: int) -> Pose { Pose { tx: o.translation.x.l(k), ty: o.translation.y.l(k), tz: o.translation.z.l(k), rx: o.rotation.x.l(k), ry: o.rotation.y.l(k), rz: o.rotation.z.l(k), rw: o.rotation.w.l(k), sx: o.scale.x.l(k), sy: o.scale.y.l(k), sz: o.scale.z.l(k) } }
pub open spec fn nothing() -> Pose { Pose { tx: 0real, ty: 0real, tz: 0real, rx: 0real, ry: 0real, rz: 0real, rw: 0real, sx: 0real, sy: 0real, sz: 0real } }
// Weighted, and added with the rotation brought to the hemisphere of the sum.
pub open spec fn scaled(i: Pose, w: real) -> Pose { Pose { tx: i.tx * w, ty: i.ty * w, tz: i.tz * w, rx: i.rx * w, ry: i.ry * w, rz: i.rz * w, rw: i.rw * w, sx: i.sx * w, sy: i.sy * w, sz: i.sz * w } }
pub open spec fn against(a: Pose, i: Pose) -> bool { a.rx * i.rx + a.ry * i.ry + a.rz * i.rz + a.rw * i.rw < 0real }
pub open spec fn mixed(a: Pose, i: Pose, w: real) -> Pose { Pose { tx: a.tx + i.tx * w, ty: a.ty + i.ty * w, tz: a.tz + i.tz * w, rx: a.rx + (if against(a, i) { -i.rx } else { i.rx }) * w, ry: a.ry + (if against(a, i) { -i.ry } else { i.ry }) * w, rz: a.rz + (if against(a, i) { -i.rz } else { i.rz }) * w, rw: a.rw + (if against(a, i) { -i.rw } else { i.rw }) * w, sx: a.sx + i.sx * w, sy: a.sy + i.sy * w, sz: a.sz + i.sz * w } }
// Divided by the total weight; the rotation by its length.
pub open spec fn rlen(a: Pose) -> real { rsqrt(a.rx * a.rx + a.ry * a.ry + a.rz * a.rz + a.rw * a.rw) }
pub open spec fn normed(a: Pose, ratio: real) -> Pose { Pose { tx: a.tx * ratio, ty: a.ty * ratio, tz: a.tz * ratio, rx: a.rx * (1real / rlen(a)), ry: a.ry * (1real / rlen(a)), rz: a.rz * (1real / rlen(a)), rw: a.rw * (1real / rlen(a)), sx: a.sx * ratio, sy: a.sy * ratio, sz: a.sz * ratio } }
// The rotation of an additive layer: from the identity to the rotation (with w >= 0), by the weight, normalised.
pub open spec fn part(i: Pose, w: real) -> Pose {
    let n = i.rw < 0real;
    let a = Pose { rx: (if n { -i.rx } else { i.rx }) * w, ry: (if n { -i.ry } else { i.ry }) * w, rz: (if n { -i.rz } else { i.rz }) * w,
        rw: ((if n { -i.rw } else { i.rw }) - 1real) * w + 1real, ..i };
    Pose { rx: a.rx * (1real / rlen(a)), ry: a.ry * (1real / rlen(a)), rz: a.rz * (1real / rlen(a)), rw: a.rw * (1real / rlen(a)), ..i }
}
pub open spec fn added(a: Pose, i: Pose, w: real, u: real) -> Pose {
    let q = part(i, w);
    Pose { tx: a.tx + i.tx * w, ty: a.ty + i.ty * w, tz: a.tz + i.tz * w,
        rx: a.rw * q.rx + a.rx * q.rw + a.ry * q.rz - a.rz * q.ry,
        ry: a.rw * q.ry + a.ry * q.rw + a.rz * q.rx - a.rx * q.rz,
        rz: a.rw * q.rz + a.rz * q.rw + a.rx * q.ry - a.ry * q.rx,
        rw: a.rw * q.rw - a.rx * q.rx - a.ry * q.ry - a.rz * q.rz,
        sx: a.sx * (u + i.sx * w), sy: a.sy * (u + i.sy * w), sz: a.sz * (u + i.sz * w) }
}
pub open spec fn subtracted(a: Pose, i: Pose, w: real, u: real) -> Pose {
    let p = part(i, w);
    let q = Pose { rx: -p.rx, ry: -p.ry, rz: -p.rz, ..p };
    Pose { tx: a.tx - i.tx * w, ty: a.ty - i.ty * w, tz: a.tz - i.tz * w,
        rx: a.rw * q.rx + a.rx * q.rw + a.ry * q.rz - a.rz * q.ry,
        ry: a.rw * q.ry + a.ry * q.rw + a.rz * q.rx - a.rx * q.rz,
        rz: a.rw * q.rz + a.rz * q.rw + a.rx * q.ry - a.ry * q.rx,
        rw: a.rw * q.rw - a.rx * q.rx - a.ry * q.ry - a.rz * q.rz,
        sx: a.sx * (1real / (i.sx * w + u)), sy: a.sy * (1real / (i.sy * w + u)), sz: a.sz * (1real / (i.sz * w + u)) }
}

impl<I: OzzBuf<SoaTransform>> BlendingLayer<I> {
    pub open spec fn ready(&self, n: int) -> bool {
        !self.transform.poisoned() && self.transform.content().len() >= n && (self.joint_weights@.len() == 0 || self.joint_weights@.len() >= n)
    }
    // The weight of the joint in lane k of element s: without joint weights the layer's.
    pub open spec fn jw(&self, s: int, k: int) -> real { if self.joint_weights@.len() == 0 { 1real } else { rmax(self.joint_weights@[s].e(k), 0real) } }
    pub open spec fn w(&self, s: int, k: int) -> real { if self.joint_weights@.len() == 0 { self.weight.v() } else { self.weight.v() * self.jw(s, k) } }
    pub open spec fn wneg(&self, s: int, k: int) -> real { if self.joint_weights@.len() == 0 { -self.weight.v() } else { (-self.weight.v()) * self.jw(s, k) } }
    pub open spec fn pose(&self, s: int, k: int) -> Pose { lane(self.transform.content()[s], k) }
//@fn src/blending_job.rs BlendingLayer::joint_weight
//@ret r
//@spec
    requires idx < self.joint_weights@.len()
    ensures forall|k: int| 0 <= k < 4 ==> #[trigger] r.l(k) == self.joint_weights@[idx as int].e(k)
//@end
}
// The first n layers at one joint: mix, total weight, number of layers (with joint weights) that contribute.
pub open spec fn acc<I: OzzBuf<SoaTransform>>(l: Seq<BlendingLayer<I>>, n: int, s: int, k: int) -> Pose decreases n {
    if n <= 0 { nothing() } else if l[n - 1].weight.v() <= 0real { acc(l, n - 1, s, k) } else { mixed(acc(l, n - 1, s, k), l[n - 1].pose(s, k), l[n - 1].w(s, k)) }
}
pub open spec fn tot<I: OzzBuf<SoaTransform>>(l: Seq<BlendingLayer<I>>, n: int, s: int, k: int) -> real decreases n {
    if n <= 0 { 0real } else if l[n - 1].weight.v() <= 0real { tot(l, n - 1, s, k) } else { tot(l, n - 1, s, k) + l[n - 1].w(s, k) }
}
pub open spec fn plain<I: OzzBuf<SoaTransform>>(l: Seq<BlendingLayer<I>>, n: int) -> real decreases n {
    if n <= 0 { 0real } else if l[n - 1].weight.v() <= 0real { plain(l, n - 1) } else { plain(l, n - 1) + l[n - 1].weight.v() }
}
pub open spec fn passes<I: OzzBuf<SoaTransform>>(l: Seq<BlendingLayer<I>>, n: int) -> int decreases n {
    if n <= 0 { 0int } else if l[n - 1].weight.v() <= 0real { passes(l, n - 1) } else { passes(l, n - 1) + 1 }
}
pub open spec fn partials<I: OzzBuf<SoaTransform>>(l: Seq<BlendingLayer<I>>, n: int) -> int decreases n {
    if n <= 0 { 0int } else if l[n - 1].weight.v() <= 0real || l[n - 1].joint_weights@.len() == 0 { partials(l, n - 1) } else { partials(l, n - 1) + 1 }
}
pub open spec fn add_all<I: OzzBuf<SoaTransform>>(a: Pose, l: Seq<BlendingLayer<I>>, n: int, s: int, k: int) -> Pose decreases n {
    if n <= 0 { a } else {
        let b = add_all(a, l, n - 1, s, k);
        let i = l[n - 1].pose(s, k);
        if l[n - 1].weight.v() > 0real { added(b, i, l[n - 1].w(s, k), 1real - l[n - 1].w(s, k)) }
        else if l[n - 1].weight.v() < 0real { subtracted(b, i, l[n - 1].wneg(s, k), 1real - l[n - 1].wneg(s, k)) }
        else { b }
    }
}
// The whole job at one joint.
pub open spec fn total<I: OzzBuf<SoaTransform>>(l: Seq<BlendingLayer<I>>, th: real, s: int, k: int) -> real {
    if passes(l, l.len() as int) == 0 { 1real } else { rmax(th, tot(l, l.len() as int, s, k)) }
}
pub open spec fn filled<I: OzzBuf<SoaTransform>>(l: Seq<BlendingLayer<I>>, rest: Seq<SoaTransform>, th: real, s: int, k: int) -> Pose {
    let n = l.len() as int;
    if passes(l, n) == 0 { lane(rest[s], k) }
    else if tot(l, n, s, k) < th { mixed(acc(l, n, s, k), lane(rest[s], k), th - tot(l, n, s, k)) }
    else { acc(l, n, s, k) }
}
pub open spec fn blended<I: OzzBuf<SoaTransform>>(l: Seq<BlendingLayer<I>>, rest: Seq<SoaTransform>, th: real, add: Seq<BlendingLayer<I>>, s: int, k: int) -> Pose {
    add_all(normed(filled(l, rest, th, s, k), 1real / total(l, th, s, k)), add, add.len() as int, s, k)
}
pub open spec fn all_ready<I: OzzBuf<SoaTransform>>(l: Seq<BlendingLayer<I>>, n: int) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).ready(n) }
pub open spec fn joint(s: int, k: int, n: int) -> bool { 0 <= s < n && 0 <= k < 4 }
pub open spec fn tail_kept(o: Seq<SoaTransform>, p: Seq<SoaTransform>, n: int) -> bool { o.len() == p.len() && forall|s: int| n <= s < o.len() ==> #[trigger] o[s] == p[s] }

pub open spec fn front<I: OzzBuf<SoaTransform>>(l: Seq<BlendingLayer<I>>, n: int, nsoa: int) -> bool { forall|i: int| 0 <= i < n && i < l.len() ==> (#[trigger] l[i]).ready(nsoa) }
pub open spec fn unlocked<I: OzzBuf<SoaTransform>>(l: Seq<BlendingLayer<I>>, n: int) -> bool { forall|i: int| 0 <= i < n && i < l.len() ==> !(#[trigger] l[i]).transform.poisoned() }
proof fn no_passes<I: OzzBuf<SoaTransform>>(l: Seq<BlendingLayer<I>>)
    ensures 0 <= partials(l, l.len() as int) <= passes(l, l.len() as int), passes(l, l.len() as int) == 0 ==> plain(l, l.len() as int) == 0real,
        partials(l, l.len() as int) == 0 ==> forall|s: int, k: int| #[trigger] tot(l, l.len() as int, s, k) == plain(l, l.len() as int)
{
    no_pass(l, l.len() as int, 0, 0);
    assert forall|s: int, k: int| partials(l, l.len() as int) == 0 implies #[trigger] tot(l, l.len() as int, s, k) == plain(l, l.len() as int) by { no_pass(l, l.len() as int, s, k); }
}
proof fn no_weights()
    ensures forall|a: Pose, i: Pose, w: real| w == 0real ==> #[trigger] mixed(a, i, w) == a
{
    assert forall|a: Pose, i: Pose, w: real| w == 0real implies #[trigger] mixed(a, i, w) == a by { no_weight(a, i); }
}

// After n layers.
pub open spec fn summed<I: OzzBuf<SoaTransform>>(l: Seq<BlendingLayer<I>>, n: int, nsoa: int, c: BlendingContext, out0: Seq<SoaTransform>, out: Seq<SoaTransform>) -> bool {
    &&& c.num_passes == passes(l, n) && c.num_partial_passes == partials(l, n) && c.accumulated_weight.v() == plain(l, n)
    &&& tail_kept(out0, out, nsoa)
    &&& passes(l, n) > 0 ==> forall|s: int, k: int| joint(s, k, nsoa) ==> #[trigger] lane(out[s], k) == acc(l, n, s, k)
    &&& passes(l, n) > 0 ==> forall|s: int, k: int| joint(s, k, nsoa) ==> #[trigger] c.accumulated_weights@[s].l(k) == tot(l, n, s, k)
}
proof fn no_pass<I: OzzBuf<SoaTransform>>(l: Seq<BlendingLayer<I>>, n: int, s: int, k: int)
    requires 0 <= n <= l.len()
    ensures 0 <= partials(l, n) <= passes(l, n) <= n, passes(l, n) == 0 ==> acc(l, n, s, k) == nothing() && tot(l, n, s, k) == 0real && plain(l, n) == 0real,
        partials(l, n) == 0 ==> tot(l, n, s, k) == plain(l, n),
    decreases n
{ if n > 0 { no_pass(l, n - 1, s, k); } }
proof fn first(i: Pose, w: real)
    ensures mixed(nothing(), i, w) == scaled(i, w)
{
    assert(0real * i.rx == 0real && 0real * i.ry == 0real && 0real * i.rz == 0real && 0real * i.rw == 0real) by (nonlinear_arith);
}
proof fn no_weight(a: Pose, i: Pose)
    ensures mixed(a, i, 0real) == a
{
    let m = |x: real| x * 0real;
    assert(forall|x: real| #[trigger] m(x) == 0real) by { assert forall|x: real| #[trigger] m(x) == 0real by { assert(x * 0real == 0real) by (nonlinear_arith); } }
    let neg = against(a, i);
    assert(m(i.tx) == 0real && m(-i.tx) == 0real); assert(m(i.ty) == 0real && m(-i.ty) == 0real); assert(m(i.tz) == 0real && m(-i.tz) == 0real); assert(m(i.rx) == 0real && m(-i.rx) == 0real); assert(m(i.ry) == 0real && m(-i.ry) == 0real); assert(m(i.rz) == 0real && m(-i.rz) == 0real); assert(m(i.rw) == 0real && m(-i.rw) == 0real); assert(m(i.sx) == 0real && m(-i.sx) == 0real); assert(m(i.sy) == 0real && m(-i.sy) == 0real); assert(m(i.sz) == 0real && m(-i.sz) == 0real);
}

impl<S: OzzObj<Skeleton>, I: OzzBuf<SoaTransform>, O: OzzMutBuf<SoaTransform>> BlendingJob<S, I, O> {
//@fn src/blending_job.rs BlendingJob::blend_1st_pass
//@spec
    ensures forall|k: int| 0 <= k < 4 ==> #[trigger] lane(*final(output), k) == scaled(lane(*input, k), weight.l(k))
//@end
//@fn src/blending_job.rs BlendingJob::blend_n_pass
//@spec
    ensures forall|k: int| 0 <= k < 4 ==> #[trigger] lane(*final(output), k) == mixed(lane(*old(output), k), lane(*input, k), weight.l(k))
//@end
//@fn src/blending_job.rs BlendingJob::blend_add_pass
//@spec
    ensures forall|k: int| 0 <= k < 4 ==> #[trigger] lane(*final(output), k) == added(lane(*old(output), k), lane(*input, k), weight.l(k), soa_one_minus_weight.l(k))
//@end
//@fn src/blending_job.rs BlendingJob::blend_sub_pass
//@spec
    ensures forall|k: int| 0 <= k < 4 ==> #[trigger] lane(*final(output), k) == subtracted(lane(*old(output), k), lane(*input, k), weight.l(k), one_minus_weight.l(k))
//@end
#[verifier::loop_isolation(false)]
//@fn src/blending_job.rs BlendingJob::blend_layers
//@sub for layer in layers \{ ==> let mut li: usize = 0; while li < layers.len() { let layer = &layers[li]; li = li + 1;
//@ret r
//@spec
    requires
        all_ready(layers@, skeleton.rest().len() as int), old(output)@.len() >= skeleton.rest().len(), layers@.len() <= u32::MAX,
        old(ctx).accumulated_weights@.len() >= skeleton.rest().len(), old(ctx).num_passes == 0, old(ctx).num_partial_passes == 0, old(ctx).accumulated_weight.v() == 0real,
    ensures r.is_ok(), summed(layers@, layers@.len() as int, skeleton.rest().len() as int, *final(ctx), old(output)@, final(output)@),
        final(ctx).accumulated_weights@.len() == old(ctx).accumulated_weights@.len(),
//@pre 1
    let ghost nsoa = skeleton.rest().len() as int;
    let ghost out0 = output@;
    let ghost room = ctx.accumulated_weights@.len();
//@loop 1 while li < layers.len()
    invariant
        li <= layers@.len(), ctx.accumulated_weights@.len() == room,
        summed(layers@, li as int, nsoa, *ctx, out0, output@),
    decreases layers@.len() - li
//@start 1
    let ghost n = li as int;
    let ghost c0 = *ctx;
    let ghost o0 = output@;
    proof { no_pass(layers@, n, 0, 0); no_pass(layers@, n + 1, 0, 0); }
//@loop 2 for idx in 0..num_soa_joints
    invariant
        ctx.accumulated_weights@.len() == room, ctx.num_passes == c0.num_passes, ctx.num_partial_passes == c0.num_partial_passes + 1,
        ctx.accumulated_weight.v() == plain(layers@, n + 1), tail_kept(out0, output@, nsoa),
        forall|s: int, k: int| joint(s, k, idx as int) ==> #[trigger] lane(output@[s], k) == acc(layers@, n + 1, s, k),
        forall|s: int, k: int| joint(s, k, idx as int) ==> #[trigger] ctx.accumulated_weights@[s].l(k) == tot(layers@, n + 1, s, k),
//@start 2
    let ghost o1 = output@; let ghost c1 = ctx.accumulated_weights@;
//@stop 2
    proof {
        assert forall|s: int, k: int| joint(s, k, idx + 1) implies #[trigger] lane(output@[s], k) == acc(layers@, n + 1, s, k) by {
            no_pass(layers@, n, s, k); first(layer.pose(s, k), layer.w(s, k));
            if s == idx {  } else { assert(lane(o1[s], k) == acc(layers@, n + 1, s, k)); }
        }
        assert forall|s: int, k: int| joint(s, k, idx + 1) implies #[trigger] ctx.accumulated_weights@[s].l(k) == tot(layers@, n + 1, s, k) by {
            no_pass(layers@, n, s, k);
            if s == idx {  } else { assert(c1[s].l(k) == tot(layers@, n + 1, s, k)); }
        }
    }
//@loop 3 for idx in 0..num_soa_joints
    invariant
        ctx.accumulated_weights@.len() == room, ctx.num_passes == c0.num_passes, ctx.num_partial_passes == c0.num_partial_passes + 1,
        ctx.accumulated_weight.v() == plain(layers@, n + 1), tail_kept(out0, output@, nsoa),
        forall|s: int, k: int| joint(s, k, idx as int) ==> #[trigger] lane(output@[s], k) == acc(layers@, n + 1, s, k),
        forall|s: int, k: int| joint(s, k, idx as int) ==> #[trigger] ctx.accumulated_weights@[s].l(k) == tot(layers@, n + 1, s, k),
        forall|s: int| idx <= s < nsoa ==> #[trigger] output@[s] == o0[s],
        forall|s: int| idx <= s < nsoa ==> #[trigger] ctx.accumulated_weights@[s] == c0.accumulated_weights@[s],
//@start 3
    let ghost o1 = output@; let ghost c1 = ctx.accumulated_weights@;
//@stop 3
    proof {
        assert forall|s: int, k: int| joint(s, k, idx + 1) implies #[trigger] lane(output@[s], k) == acc(layers@, n + 1, s, k) by {
            no_pass(layers@, n, s, k); first(layer.pose(s, k), layer.w(s, k));
            if s == idx { assert(o0[s] == o1[s]); assert(joint(s, k, nsoa)); assert(lane(o0[s], k) == acc(layers@, n, s, k)); } else { assert(lane(o1[s], k) == acc(layers@, n + 1, s, k)); }
        }
        assert forall|s: int, k: int| joint(s, k, idx + 1) implies #[trigger] ctx.accumulated_weights@[s].l(k) == tot(layers@, n + 1, s, k) by {
            no_pass(layers@, n, s, k);
            if s == idx { assert(joint(s, k, nsoa)); assert(c0.accumulated_weights@[s].l(k) == tot(layers@, n, s, k)); } else { assert(c1[s].l(k) == tot(layers@, n + 1, s, k)); }
        }
    }
//@loop 4 for idx in 0..num_soa_joints
    invariant
        ctx.accumulated_weights@.len() == room, ctx.num_passes == c0.num_passes, ctx.num_partial_passes == c0.num_partial_passes,
        ctx.accumulated_weight.v() == plain(layers@, n + 1), tail_kept(out0, output@, nsoa),
        forall|s: int, k: int| joint(s, k, idx as int) ==> #[trigger] lane(output@[s], k) == acc(layers@, n + 1, s, k),
        forall|s: int, k: int| joint(s, k, idx as int) ==> #[trigger] ctx.accumulated_weights@[s].l(k) == tot(layers@, n + 1, s, k),
//@start 4
    let ghost o1 = output@; let ghost c1 = ctx.accumulated_weights@;
//@stop 4
    proof {
        assert forall|s: int, k: int| joint(s, k, idx + 1) implies #[trigger] lane(output@[s], k) == acc(layers@, n + 1, s, k) by {
            no_pass(layers@, n, s, k); first(layer.pose(s, k), layer.w(s, k));
            if s == idx {  } else { assert(lane(o1[s], k) == acc(layers@, n + 1, s, k)); }
        }
        assert forall|s: int, k: int| joint(s, k, idx + 1) implies #[trigger] ctx.accumulated_weights@[s].l(k) == tot(layers@, n + 1, s, k) by {
            no_pass(layers@, n, s, k);
            if s == idx {  } else { assert(c1[s].l(k) == tot(layers@, n + 1, s, k)); }
        }
    }
//@loop 5 for idx in 0..num_soa_joints
    invariant
        ctx.accumulated_weights@.len() == room, ctx.num_passes == c0.num_passes, ctx.num_partial_passes == c0.num_partial_passes,
        ctx.accumulated_weight.v() == plain(layers@, n + 1), tail_kept(out0, output@, nsoa),
        forall|s: int, k: int| joint(s, k, idx as int) ==> #[trigger] lane(output@[s], k) == acc(layers@, n + 1, s, k),
        forall|s: int, k: int| joint(s, k, idx as int) ==> #[trigger] ctx.accumulated_weights@[s].l(k) == tot(layers@, n + 1, s, k),
        forall|s: int| idx <= s < nsoa ==> #[trigger] output@[s] == o0[s],
        forall|s: int| idx <= s < nsoa ==> #[trigger] ctx.accumulated_weights@[s] == c0.accumulated_weights@[s],
//@start 5
    let ghost o1 = output@; let ghost c1 = ctx.accumulated_weights@;
//@stop 5
    proof {
        assert forall|s: int, k: int| joint(s, k, idx + 1) implies #[trigger] lane(output@[s], k) == acc(layers@, n + 1, s, k) by {
            no_pass(layers@, n, s, k); first(layer.pose(s, k), layer.w(s, k));
            if s == idx { assert(o0[s] == o1[s]); assert(joint(s, k, nsoa)); assert(lane(o0[s], k) == acc(layers@, n, s, k)); } else { assert(lane(o1[s], k) == acc(layers@, n + 1, s, k)); }
        }
        assert forall|s: int, k: int| joint(s, k, idx + 1) implies #[trigger] ctx.accumulated_weights@[s].l(k) == tot(layers@, n + 1, s, k) by {
            no_pass(layers@, n, s, k);
            if s == idx { assert(joint(s, k, nsoa)); assert(c0.accumulated_weights@[s].l(k) == tot(layers@, n, s, k)); } else { assert(c1[s].l(k) == tot(layers@, n + 1, s, k)); }
        }
    }
//@end

    pub open spec fn after_rest(c: BlendingContext, th: real, out: Seq<SoaTransform>, rest: Seq<SoaTransform>, s: int, k: int) -> Pose {
        if c.num_partial_passes == 0 {
            if th - c.accumulated_weight.v() > 0real { if c.num_passes == 0 { lane(rest[s], k) } else { mixed(lane(out[s], k), lane(rest[s], k), th - c.accumulated_weight.v()) } }
            else { lane(out[s], k) }
        } else { mixed(lane(out[s], k), lane(rest[s], k), rmax(th - c.accumulated_weights@[s].l(k), 0real)) }
    }
    pub open spec fn weight_after(c: BlendingContext, th: real) -> real {
        if th - c.accumulated_weight.v() > 0real { if c.num_passes == 0 { 1real } else { th } } else { c.accumulated_weight.v() }
    }
#[verifier::loop_isolation(false)]
//@fn src/blending_job.rs BlendingJob::blend_rest_pose
//@sub output\[\.\.joint_rest_poses\.len\(\)\]\.copy_from_slice\(joint_rest_poses\) ==> copy_prefix(output, joint_rest_poses.len(), joint_rest_poses)
//@spec
    requires old(output)@.len() >= skeleton.rest().len(), old(ctx).accumulated_weights@.len() >= skeleton.rest().len(),
    ensures
        final(ctx).num_partial_passes == old(ctx).num_partial_passes, final(ctx).accumulated_weights@.len() == old(ctx).accumulated_weights@.len(),
        tail_kept(old(output)@, final(output)@, skeleton.rest().len() as int),
        forall|s: int, k: int| joint(s, k, skeleton.rest().len() as int) ==> #[trigger] lane(final(output)@[s], k) == Self::after_rest(*old(ctx), threshold.v(), old(output)@, skeleton.rest(), s, k),
        old(ctx).num_partial_passes == 0 ==> final(ctx).accumulated_weight.v() == Self::weight_after(*old(ctx), threshold.v()),
        old(ctx).num_partial_passes != 0 ==> forall|s: int, k: int| joint(s, k, skeleton.rest().len() as int) ==>
            #[trigger] final(ctx).accumulated_weights@[s].l(k) == rmax(threshold.v(), old(ctx).accumulated_weights@[s].l(k)),
//@begin
    let ghost nsoa = skeleton.rest().len() as int;
    let ghost out0 = output@;
    let ghost c0 = *ctx;
//@loop 1 for idx in 0..joint_rest_poses.len()
    invariant
        tail_kept(out0, output@, nsoa), *ctx == (BlendingContext { accumulated_weight: threshold, ..c0 }),
        forall|s: int| idx <= s < nsoa ==> #[trigger] output@[s] == out0[s],
        forall|s: int, k: int| joint(s, k, idx as int) ==> #[trigger] lane(output@[s], k) == Self::after_rest(c0, threshold.v(), out0, skeleton.rest(), s, k),
//@start 1
    let ghost o1 = output@;
//@stop 1
    proof {
        assert forall|s: int, k: int| joint(s, k, idx + 1) implies #[trigger] lane(output@[s], k) == Self::after_rest(c0, threshold.v(), out0, skeleton.rest(), s, k) by {
            if s == idx { assert(o1[s] == out0[s]); } else { assert(lane(o1[s], k) == Self::after_rest(c0, threshold.v(), out0, skeleton.rest(), s, k)); }
        }
    }
//@loop 2 for idx in 0..joint_rest_poses.len()
    invariant
        tail_kept(out0, output@, nsoa), ctx.num_partial_passes == c0.num_partial_passes, ctx.accumulated_weights@.len() == c0.accumulated_weights@.len(),
        forall|s: int| idx <= s < nsoa ==> #[trigger] output@[s] == out0[s],
        forall|s: int| idx <= s < nsoa ==> #[trigger] ctx.accumulated_weights@[s] == c0.accumulated_weights@[s],
        forall|s: int, k: int| joint(s, k, idx as int) ==> #[trigger] ctx.accumulated_weights@[s].l(k) == rmax(threshold.v(), c0.accumulated_weights@[s].l(k)),
        forall|s: int, k: int| joint(s, k, idx as int) ==> #[trigger] lane(output@[s], k) == Self::after_rest(c0, threshold.v(), out0, skeleton.rest(), s, k),
//@start 2
    let ghost o1 = output@; let ghost c1 = ctx.accumulated_weights@;
//@stop 2
    proof {
        assert forall|s: int, k: int| joint(s, k, idx + 1) implies #[trigger] lane(output@[s], k) == Self::after_rest(c0, threshold.v(), out0, skeleton.rest(), s, k) by {
            if s == idx { assert(o1[s] == out0[s]); } else { assert(lane(o1[s], k) == Self::after_rest(c0, threshold.v(), out0, skeleton.rest(), s, k)); }
        }
        assert forall|s: int, k: int| joint(s, k, idx + 1) implies #[trigger] ctx.accumulated_weights@[s].l(k) == rmax(threshold.v(), c0.accumulated_weights@[s].l(k)) by {
            if s == idx { assert(c1[s] == c0.accumulated_weights@[s]); } else { assert(c1[s].l(k) == rmax(threshold.v(), c0.accumulated_weights@[s].l(k))); }
        }
    }
//@end

    pub open spec fn divisor(c: BlendingContext, s: int, k: int) -> real { if c.num_partial_passes == 0 { c.accumulated_weight.v() } else { c.accumulated_weights@[s].l(k) } }
#[verifier::loop_isolation(false)]
//@fn src/blending_job.rs BlendingJob::normalize
//@sub for dest in output\.iter_mut\(\)\.take\(joint_rest_poses\.len\(\)\) \{ ==> for di in 0..min_usize(output.len(), joint_rest_poses.len()) { let dest = &mut output[di];
//@sub for \(idx, dest\) in output\.iter_mut\(\)\.enumerate\(\)\.take\(joint_rest_poses\.len\(\)\) \{ ==> for di in 0..min_usize(output.len(), joint_rest_poses.len()) { let idx = di; let dest = &mut output[di];
//@spec
    requires old(output)@.len() >= skeleton.rest().len(), old(ctx).accumulated_weights@.len() >= skeleton.rest().len(),
    ensures
        tail_kept(old(output)@, final(output)@, skeleton.rest().len() as int), *final(ctx) == *old(ctx),
        forall|s: int, k: int| joint(s, k, skeleton.rest().len() as int) ==> #[trigger] lane(final(output)@[s], k) == normed(lane(old(output)@[s], k), 1real / Self::divisor(*old(ctx), s, k)),
//@begin
    let ghost nsoa = skeleton.rest().len() as int;
    let ghost out0 = output@;
//@loop 1 for di in 0..min_usize(output.len(), joint_rest_poses.len())
    invariant
        tail_kept(out0, output@, nsoa),
        forall|s: int| di <= s < nsoa ==> #[trigger] output@[s] == out0[s],
        forall|s: int, k: int| joint(s, k, di as int) ==> #[trigger] lane(output@[s], k) == normed(lane(out0[s], k), 1real / Self::divisor(*ctx, s, k)),
//@start 1
    let ghost o1 = output@;
//@stop 1
    proof {
        assert forall|s: int, k: int| joint(s, k, di + 1) implies #[trigger] lane(output@[s], k) == normed(lane(out0[s], k), 1real / Self::divisor(*ctx, s, k)) by {
            if s == di { assert(o1[s] == out0[s]); } else { assert(lane(o1[s], k) == normed(lane(out0[s], k), 1real / Self::divisor(*ctx, s, k))); }
        }
    }
//@loop 2 for di in 0..min_usize(output.len(), joint_rest_poses.len())
    invariant
        tail_kept(out0, output@, nsoa),
        forall|s: int| di <= s < nsoa ==> #[trigger] output@[s] == out0[s],
        forall|s: int, k: int| joint(s, k, di as int) ==> #[trigger] lane(output@[s], k) == normed(lane(out0[s], k), 1real / Self::divisor(*ctx, s, k)),
//@start 2
    let ghost o1 = output@;
//@stop 2
    proof {
        assert forall|s: int, k: int| joint(s, k, di + 1) implies #[trigger] lane(output@[s], k) == normed(lane(out0[s], k), 1real / Self::divisor(*ctx, s, k)) by {
            if s == di { assert(o1[s] == out0[s]); } else { assert(lane(o1[s], k) == normed(lane(out0[s], k), 1real / Self::divisor(*ctx, s, k))); }
        }
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/blending_job.rs BlendingJob::add_layers
//@sub for layer in layers \{ ==> let mut li: usize = 0; while li < layers.len() { let layer = &layers[li]; li = li + 1;
//@ret r
//@spec
    requires all_ready(layers@, skeleton.rest().len() as int), old(output)@.len() >= skeleton.rest().len(),
    ensures r.is_ok(), tail_kept(old(output)@, final(output)@, skeleton.rest().len() as int),
        forall|s: int, k: int| joint(s, k, skeleton.rest().len() as int) ==> #[trigger] lane(final(output)@[s], k) == add_all(lane(old(output)@[s], k), layers@, layers@.len() as int, s, k),
//@pre 1
    let ghost nsoa = skeleton.rest().len() as int;
    let ghost out0 = output@;
//@loop 1 while li < layers.len()
    invariant
        li <= layers@.len(), tail_kept(out0, output@, nsoa),
        forall|s: int, k: int| joint(s, k, nsoa) ==> #[trigger] lane(output@[s], k) == add_all(lane(out0[s], k), layers@, li as int, s, k),
    decreases layers@.len() - li
//@start 1
    let ghost n = li as int;
    let ghost o0 = output@;
//@loop 2 for idx in 0..joint_rest_poses.len()
    invariant
        tail_kept(out0, output@, nsoa),
        forall|s: int| idx <= s < nsoa ==> #[trigger] output@[s] == o0[s],
        forall|s: int, k: int| joint(s, k, idx as int) ==> #[trigger] lane(output@[s], k) == add_all(lane(out0[s], k), layers@, n + 1, s, k),
//@start 2
    let ghost o1 = output@;
//@stop 2
    proof {
        assert forall|s: int, k: int| joint(s, k, idx + 1) implies #[trigger] lane(output@[s], k) == add_all(lane(out0[s], k), layers@, n + 1, s, k) by {
            if s == idx { assert(o1[s] == o0[s]); assert(joint(s, k, nsoa)); assert(lane(o0[s], k) == add_all(lane(out0[s], k), layers@, n, s, k)); }
            else { assert(lane(o1[s], k) == add_all(lane(out0[s], k), layers@, n + 1, s, k)); }
        }
    }
//@loop 3 for idx in 0..joint_rest_poses.len()
    invariant
        tail_kept(out0, output@, nsoa),
        forall|s: int| idx <= s < nsoa ==> #[trigger] output@[s] == o0[s],
        forall|s: int, k: int| joint(s, k, idx as int) ==> #[trigger] lane(output@[s], k) == add_all(lane(out0[s], k), layers@, n + 1, s, k),
//@start 3
    let ghost o1 = output@;
//@stop 3
    proof {
        assert forall|s: int, k: int| joint(s, k, idx + 1) implies #[trigger] lane(output@[s], k) == add_all(lane(out0[s], k), layers@, n + 1, s, k) by {
            if s == idx { assert(o1[s] == o0[s]); assert(joint(s, k, nsoa)); assert(lane(o0[s], k) == add_all(lane(out0[s], k), layers@, n, s, k)); }
            else { assert(lane(o1[s], k) == add_all(lane(out0[s], k), layers@, n + 1, s, k)); }
        }
    }
//@loop 4 for idx in 0..joint_rest_poses.len()
    invariant
        tail_kept(out0, output@, nsoa),
        forall|s: int| idx <= s < nsoa ==> #[trigger] output@[s] == o0[s],
        forall|s: int, k: int| joint(s, k, idx as int) ==> #[trigger] lane(output@[s], k) == add_all(lane(out0[s], k), layers@, n + 1, s, k),
//@start 4
    let ghost o1 = output@;
//@stop 4
    proof {
        assert forall|s: int, k: int| joint(s, k, idx + 1) implies #[trigger] lane(output@[s], k) == add_all(lane(out0[s], k), layers@, n + 1, s, k) by {
            if s == idx { assert(o1[s] == o0[s]); assert(joint(s, k, nsoa)); assert(lane(o0[s], k) == add_all(lane(out0[s], k), layers@, n, s, k)); }
            else { assert(lane(o1[s], k) == add_all(lane(out0[s], k), layers@, n + 1, s, k)); }
        }
    }
//@loop 5 for idx in 0..joint_rest_poses.len()
    invariant
        tail_kept(out0, output@, nsoa),
        forall|s: int| idx <= s < nsoa ==> #[trigger] output@[s] == o0[s],
        forall|s: int, k: int| joint(s, k, idx as int) ==> #[trigger] lane(output@[s], k) == add_all(lane(out0[s], k), layers@, n + 1, s, k),
//@start 5
    let ghost o1 = output@;
//@stop 5
    proof {
        assert forall|s: int, k: int| joint(s, k, idx + 1) implies #[trigger] lane(output@[s], k) == add_all(lane(out0[s], k), layers@, n + 1, s, k) by {
            if s == idx { assert(o1[s] == o0[s]); assert(joint(s, k, nsoa)); assert(lane(o0[s], k) == add_all(lane(out0[s], k), layers@, n, s, k)); }
            else { assert(lane(o1[s], k) == add_all(lane(out0[s], k), layers@, n + 1, s, k)); }
        }
    }
//@end

    pub open spec fn ready_out(&self, n: int) -> bool { self.output.is_some() && !self.output->0.poisoned() && self.output->0.content().len() >= n }
    pub open spec fn valid(&self) -> bool {
        &&& self.skeleton.is_some() && self.context.is_some()
        &&& self.threshold.v() > 0real && self.ready_out(self.nsoa())
        &&& all_ready(self.layers@, self.nsoa()) && all_ready(self.additive_layers@, self.nsoa())
    }
    pub open spec fn nsoa(&self) -> int { self.skeleton->0.target().rest().len() as int }
    pub open spec fn inputs_kept(&self, o: Self) -> bool {
        self.skeleton == o.skeleton && self.threshold == o.threshold && self.layers == o.layers && self.additive_layers == o.additive_layers
            && self.context.is_some() == o.context.is_some()
    }
    pub open spec fn output_kept(&self, o: Self) -> bool {
        self.output.is_some() == o.output.is_some() && (self.output.is_some() ==> self.output->0.content() == o.output->0.content() && self.output->0.poisoned() == o.output->0.poisoned())
    }
#[verifier::loop_isolation(false)]
//@fn src/blending_job.rs BlendingJob::run
//@sub for layer in self\.layers\.iter\(\)\.chain\(&self\.additive_layers\) \{ ==> let mut li: usize = 0; let n0 = self.layers.len(); let n1 = self.additive_layers.len(); for li in 0..n0 + n1 { let layer = if li < n0 { &self.layers[li] } else { &self.additive_layers[li - n0] };
//@sub ok &= ([^;]*); ==> let c = \1; ok = ok && c;
//@sub &mut output\) ==> output)
//@ret r
//@spec
    requires old(self).layers@.len() + old(self).additive_layers@.len() <= u32::MAX,
    ensures
        old(self).inputs_kept(*final(self)),
        r.is_ok() == old(self).valid(),
        r.is_err() ==> old(self).output_kept(*final(self)) && (r->Err_0 == OzzError::InvalidJob || r->Err_0 == OzzError::LockPoison),
        old(self).skeleton.is_some() && old(self).context.is_some() && old(self).output.is_some()
            && (old(self).output->0.poisoned() || !unlocked(old(self).layers@, old(self).layers@.len() as int) || !unlocked(old(self).additive_layers@, old(self).additive_layers@.len() as int))
            ==> r.is_err() && r->Err_0 == OzzError::LockPoison,
        r.is_ok() ==> final(self).output.is_some() && tail_kept(old(self).output->0.content(), final(self).output->0.content(), old(self).nsoa()),
        r.is_ok() ==> forall|s: int, k: int| joint(s, k, old(self).nsoa()) ==> #[trigger] lane(final(self).output->0.content()[s], k)
            == blended(old(self).layers@, old(self).skeleton->0.target().rest(), old(self).threshold.v(), old(self).additive_layers@, s, k),
//@loop 1 for li in 0..n0 + n1
    invariant
        ok == (self.threshold.v() > 0real && output@.len() >= nsoa && front(self.layers@, li as int, nsoa) && front(self.additive_layers@, li - n0, nsoa)),
        unlocked(self.layers@, li as int), unlocked(self.additive_layers@, li - n0),
//@pre 1
    let ghost nsoa = skeleton.rest().len() as int;
    proof { no_passes(self.layers@); no_weights(); }
//@end

#[verifier::loop_isolation(false)]
//@fn src/blending_job.rs BlendingJob::validate
//@sub ^\s*\(\|\| ==>
//@sub \)\(\)\s*\.unwrap_or\(false\)\s*$ ==>
//@sub -> bool ==> -> Option<bool>
//@sub ok &= ([^;]*); ==> let c = \1; ok = ok && c;
//@sub for layer in &self\.layers \{ ==> for li in 0..self.layers.len() { let layer = &self.layers[li];
//@sub for layer in &self\.additive_layers \{ ==> for li in 0..self.additive_layers.len() { let layer = &self.additive_layers[li];
//@ret r
//@spec
    ensures (r == Some(true)) == self.valid()
//@loop 1 for li in 0..self.layers.len()
    invariant
        ok == (self.threshold.v() > 0real && output@.len() >= self.nsoa() && front(self.layers@, li as int, self.nsoa())), unlocked(self.layers@, li as int),
//@loop 2 for li in 0..self.additive_layers.len()
    invariant
        ok == (self.threshold.v() > 0real && output@.len() >= self.nsoa() && front(self.layers@, self.layers@.len() as int, self.nsoa()) && front(self.additive_layers@, li as int, self.nsoa())),
        unlocked(self.layers@, self.layers@.len() as int), unlocked(self.additive_layers@, li as int),
//@end
}

// What the contract says of a joint with contributing layers and no additive ones: total weight times the translation (scale)
// is the weighted sum, and the rotation has length one.
pub proof fn divided_by_the_total_weight<I: OzzBuf<SoaTransform>>(l: Seq<BlendingLayer<I>>, rest: Seq<SoaTransform>, th: real, s: int, k: int)
    requires th > 0real
    ensures ({
        let f = filled(l, rest, th, s, k);
        let o = normed(f, 1real / total(l, th, s, k));
        let t = total(l, th, s, k);
        &&& t > 0real && o.tx * t == f.tx && o.ty * t == f.ty && o.tz * t == f.tz && o.sx * t == f.sx && o.sy * t == f.sy && o.sz * t == f.sz
        &&& rlen(f) != 0real ==> rlen(f) * rlen(f) > 0real && o.rx * rlen(f) == f.rx && o.ry * rlen(f) == f.ry && o.rz * rlen(f) == f.rz && o.rw * rlen(f) == f.rw
    })
{
    let f = filled(l, rest, th, s, k);
    let t = total(l, th, s, k);
    undone(f.tx, t); undone(f.ty, t); undone(f.tz, t); undone(f.sx, t); undone(f.sy, t); undone(f.sz, t);
    let h = rlen(f);
    if h != 0real {
        undone(f.rx, h); undone(f.ry, h); undone(f.rz, h); undone(f.rw, h);
        assert(h * h > 0real) by (nonlinear_arith) requires h != 0real;
    }
}
proof fn undone(x: real, t: real)
    requires t != 0real
    ensures (x * (1real / t)) * t == x
{
    assert((1real / t) * t == 1real) by (nonlinear_arith) requires t != 0real;
    assert((x * (1real / t)) * t == x * ((1real / t) * t)) by (nonlinear_arith);
}
// The accumulated weight that reaches the threshold leaves the rest pose out.
pub proof fn rest_pose_only_below_the_threshold<I: OzzBuf<SoaTransform>>(l: Seq<BlendingLayer<I>>, rest: Seq<SoaTransform>, th: real, s: int, k: int)
    requires passes(l, l.len() as int) > 0, tot(l, l.len() as int, s, k) >= th
    ensures filled(l, rest, th, s, k) == acc(l, l.len() as int, s, k)
{ }
// A layer of zero or negative weight changes nothing.
pub proof fn no_contribution<I: OzzBuf<SoaTransform>>(l: Seq<BlendingLayer<I>>, n: int, s: int, k: int)
    requires 0 < n <= l.len(), l[n - 1].weight.v() <= 0real
    ensures acc(l, n, s, k) == acc(l, n - 1, s, k), tot(l, n, s, k) == tot(l, n - 1, s, k), passes(l, n) == passes(l, n - 1)
{ }
}
