// C03: what a compressed key decodes to, over the real numbers.
#![allow(non_camel_case_types, non_snake_case, unused)]
use vstd::prelude::*;
//@include simd.rs
pub mod kx {
use vstd::prelude::*;
use core::ops::Shl;
use super::sd::*;
verus! {
pub uninterp spec fn bshl(a: B, k: i32) -> B;
pub uninterp spec fn ishl(a: i32x4, k: i32) -> i32x4;
pub broadcast axiom fn ishl_ax(a: i32x4, k: i32, i: int) ensures (#[trigger] ishl(a, k).l(i)) == bshl(a.l(i), k);
pub broadcast axiom fn bshl_0() ensures #[trigger] bshl(bi(0i32), 31i32) == bi(0i32);
pub broadcast axiom fn bshl_1() ensures #[trigger] bshl(bi(1i32), 31i32) == bi(i32::MIN);
// setting the sign bit of a number that is not negative
pub broadcast axiom fn or_sign(a: real) requires a >= 0real ensures fval(#[trigger] bor(fbits(a), bi(i32::MIN))) == -a;
pub broadcast axiom fn zero_bits() ensures #[trigger] fval(bi(0i32)) == 0real;
pub broadcast axiom fn zero_num() ensures #[trigger] fbits(0real) == bi(0i32);
pub broadcast group keyops { ishl_ax, bshl_0, bshl_1, or_sign, zero_bits, zero_num }
impl vstd::std_specs::ops::ShlSpecImpl<i32> for i32x4 {
    open spec fn obeys_shl_spec() -> bool { true }
    open spec fn shl_req(self, rhs: i32) -> bool { true }
    open spec fn shl_spec(self, rhs: i32) -> i32x4 { ishl(self, rhs) }
}
impl Shl<i32> for i32x4 { type Output = i32x4;
    #[verifier::external_body]
    fn shl(self, rhs: i32) -> i32x4 { unimplemented!() }
}
} }
verus! {
use sd::*;
use kx::*;
broadcast use {sd::ops, kx::keyops};
//@use kernel
//@real

// the constant core::f32::consts::SQRT_2; an integer below 2^24 as a float
pub uninterp spec fn root2() -> real;
#[verifier::external_body]
fn sqrt_2() -> (r: F) ensures r.v() == root2() { unimplemented!() }
#[verifier::external_body]
fn of_int(n: u32) -> (r: F) requires n < 0x100_0000 ensures r.v() == n as real { unimplemented!() }
#[verifier::external_body]
fn fmax(a: F, b: F) -> (r: F) ensures r.v() == rmax(a.v(), b.v()) { unimplemented!() }
impl Quat {
    fn from_vec4(a: [F; 4]) -> (r: Quat) ensures r == (Quat { x: a@[0], y: a@[1], z: a@[2], w: a@[3] }) { Quat { x: a[0], y: a[1], z: a[2], w: a[3] } }
}
fn vec4(x: F, y: F, z: F, w: F) -> (r: [F; 4]) ensures r@ == seq![x, y, z, w] { [x, y, z, w] }

// The 48-bit word of a key, least significant 16 bits first: 2 bits of the position of the largest component, its sign, and the
// three other components on a 15-bit grid, in order.
pub open spec fn word(k: QuaternionKey) -> u64 { k.0@[0] as u64 | (k.0@[1] as u64) << 16u64 | (k.0@[2] as u64) << 32u64 }
pub open spec fn pos(k: QuaternionKey) -> u64 { word(k) & 3u64 }
pub open spec fn neg(k: QuaternionKey) -> u64 { (word(k) >> 2u64) & 1u64 }
pub open spec fn grid(k: QuaternionKey, i: int) -> u64 { if i == 0 { (word(k) >> 3u64) & 0x7fffu64 } else if i == 1 { (word(k) >> 18u64) & 0x7fffu64 } else { (word(k) >> 33u64) & 0x7fffu64 } }
// Component c of the four: the stored one (those before the largest, then those after it), or the one that is not stored.
pub open spec fn stored(k: QuaternionKey, c: int) -> real { (root2() / 32767real) * (grid(k, if c < pos(k) { c } else { c - 1 }) as real) - root2() / 2real }
pub open spec fn other(k: QuaternionKey, c: int) -> real { if c == pos(k) { 0real } else { stored(k, c) } }
pub open spec fn total(k: QuaternionKey) -> real { other(k, 0) * other(k, 0) + other(k, 1) * other(k, 1) + other(k, 2) * other(k, 2) + other(k, 3) * other(k, 3) }
// Reading and writing one of four vectors at an index that is not a constant.
#[verifier::opaque]
pub open spec fn upd(a: Seq<f32x4>, b: Seq<f32x4>, p: int, v: f32x4) -> bool { b == a.update(p, v) }
#[verifier::opaque]
pub open spec fn sel(a: Seq<f32x4>, p: int) -> f32x4 { a[p] }
fn put(a: &mut [f32x4; 4], p: usize, v: f32x4) requires p < 4 ensures upd(old(a)@, final(a)@, p as int, v), final(a)@.len() == 4 { proof { reveal(upd); } a[p] = v; }
fn at(a: &[f32x4; 4], p: usize) -> (r: f32x4) requires p < 4 ensures r == sel(a@, p as int) { proof { reveal(sel); } a[p] }
// Lane n of the four components of g: the stored ones, whatever is at the position of the largest.
#[verifier::opaque]
pub open spec fn raw(g: Seq<f32x4>, n: int, k: QuaternionKey) -> bool {
    g.len() == 4 && (0 != pos(k) ==> g[0].l(n) == stored(k, 0)) && (1 != pos(k) ==> g[1].l(n) == stored(k, 1))
        && (2 != pos(k) ==> g[2].l(n) == stored(k, 2)) && (3 != pos(k) ==> g[3].l(n) == stored(k, 3))
}
// What lane n has at the position of the largest.
#[verifier::opaque]
pub open spec fn big(g: Seq<f32x4>, n: int, k: QuaternionKey) -> real { g[pos(k) as int].l(n) }
proof fn raw_lane(g: Seq<f32x4>, n: int, k: QuaternionKey)
    requires g.len() == 4, 0 != pos(k) ==> g[0].l(n) == stored(k, 0), 1 != pos(k) ==> g[1].l(n) == stored(k, 1),
        2 != pos(k) ==> g[2].l(n) == stored(k, 2), 3 != pos(k) ==> g[3].l(n) == stored(k, 3)
    ensures raw(g, n, k)
{ reveal(raw); }
proof fn put_lane(a: Seq<f32x4>, b: Seq<f32x4>, p: int, v: f32x4, n: int, k: QuaternionKey, x: real)
    requires raw(a, n, k), 0 <= p < 4, upd(a, b, p, v), p == pos(k), v.l(n) == x
    ensures raw(b, n, k), big(b, n, k) == x
{ reveal(raw); reveal(big); reveal(upd); }
proof fn keep_lane(a: Seq<f32x4>, b: Seq<f32x4>, p: int, v: f32x4, n: int, k: QuaternionKey)
    requires raw(a, n, k), 0 <= p < 4, upd(a, b, p, v), v.l(n) == sel(a, p).l(n)
    ensures raw(b, n, k), big(b, n, k) == big(a, n, k)
{ reveal(raw); reveal(upd); reveal(sel); reveal(big); let w = word(k); assert(w & 3u64 <= 3u64) by (bit_vector); }
proof fn sel_big(g: Seq<f32x4>, p: int, n: int, k: QuaternionKey)
    requires p == pos(k)
    ensures sel(g, p).l(n) == big(g, n, k)
{ reveal(sel); reveal(big); }
proof fn lane_is(g: Seq<f32x4>, n: int, k: QuaternionKey)
    requires raw(g, n, k)
    ensures big(g, n, k) == 0real ==> g[0].l(n) == other(k, 0) && g[1].l(n) == other(k, 1) && g[2].l(n) == other(k, 2) && g[3].l(n) == other(k, 3),
        big(g, n, k) == comp(k, pos(k) as int) ==> g[0].l(n) == comp(k, 0) && g[1].l(n) == comp(k, 1) && g[2].l(n) == comp(k, 2) && g[3].l(n) == comp(k, 3)
{ reveal(raw); reveal(big); let w = word(k); assert(w & 3u64 <= 3u64) by (bit_vector); }
pub open spec fn left(k: QuaternionKey) -> real {
    let d = total(k);
    if d < 1real { 1real - d } else { 0real }
}
pub open spec fn comp(k: QuaternionKey, c: int) -> real {
    if c != pos(k) { stored(k, c) } else if neg(k) == 0 { rsqrt(left(k)) } else { -rsqrt(left(k)) }
}
// A key whose three components leave room for a fourth decodes to a unit quaternion with the stored sign.
pub proof fn unit(k: QuaternionKey)
    requires left(k) > 0real
    ensures comp(k, 0) * comp(k, 0) + comp(k, 1) * comp(k, 1) + comp(k, 2) * comp(k, 2) + comp(k, 3) * comp(k, 3) == 1real,
        neg(k) == 0 ==> comp(k, pos(k) as int) >= 0real, neg(k) != 0 ==> comp(k, pos(k) as int) <= 0real
{
    let w = word(k);
    assert(w & 3u64 <= 3u64) by (bit_vector);
    let s = rsqrt(left(k));
    assert((-s) * (-s) == s * s) by (nonlinear_arith);
}

//@item src/animation.rs struct QuaternionKey
//@sub pub struct QuaternionKey\(\[ ==> #[derive(Clone, Copy)] pub struct QuaternionKey(pub [
//@end
impl QuaternionKey {
//@fn src/animation.rs QuaternionKey::unpack
//@ret r
//@spec
    ensures r.0 as u64 == pos(*self), r.0 <= 3, r.1 as u64 == neg(*self), r.1 <= 1,
        r.2@[0] as u64 == grid(*self, 0), r.2@[1] as u64 == grid(*self, 1), r.2@[2] as u64 == grid(*self, 2),
        r.2@[0] < 0x8000, r.2@[1] < 0x8000, r.2@[2] < 0x8000,
//@begin
    proof {
        let (a, b, c) = (self.0@[0], self.0@[1], self.0@[2]);
        bits(a, b, c);
    }
//@end
//@fn src/animation.rs QuaternionKey::decompress
//@sub core::f32::consts::SQRT_2 ==> sqrt_2()
//@sub? (cmp_keys\[\d\]) as f32\b ==> of_int(\1)
//@sub Vec4::new ==> vec4
//@sub? f32::max\( ==> fmax(
//@ret r
//@spec
    ensures r.x.v() == comp(*self, 0), r.y.v() == comp(*self, 1), r.z.v() == comp(*self, 2), r.w.v() == comp(*self, 3)
//@end
//@fn src/animation.rs QuaternionKey::simd_decompress
//@sub core::f32::consts::SQRT_2 ==> sqrt_2()
//@sub? (value\d\[m\d\[\d\]\]) as f32\b ==> of_int(\1)
//@sub cpnt\[largest(\d) as usize\] = (fx4\(.* & !MASK_\w+\)); ==> let vm\1 = \2; put(&mut cpnt, largest\1 as usize, vm\1);
//@sub cpnt\[largest(\d) as usize\] = (fx4\(.* \| \(restored.*\)); ==> let vr\1 = \2; put(&mut cpnt, largest\1 as usize, vr\1);
//@sub? cpnt\[(largest\d) as usize\] ==> at(&cpnt, \1 as usize)
//@spec
    ensures final(soa).x.l(0) == comp(*k0, 0), final(soa).y.l(0) == comp(*k0, 1), final(soa).z.l(0) == comp(*k0, 2), final(soa).w.l(0) == comp(*k0, 3),
        final(soa).x.l(1) == comp(*k1, 0), final(soa).y.l(1) == comp(*k1, 1), final(soa).z.l(1) == comp(*k1, 2), final(soa).w.l(1) == comp(*k1, 3),
        final(soa).x.l(2) == comp(*k2, 0), final(soa).y.l(2) == comp(*k2, 1), final(soa).z.l(2) == comp(*k2, 2), final(soa).w.l(2) == comp(*k2, 3),
        final(soa).x.l(3) == comp(*k3, 0), final(soa).y.l(3) == comp(*k3, 1), final(soa).z.l(3) == comp(*k3, 2), final(soa).w.l(3) == comp(*k3, 3),
//@after let mut cpnt
let ghost g0 = cpnt@;
proof {
    assert(0 != pos(*k0) ==> cpnt@[0].l(0) == stored(*k0, 0));
    assert(1 != pos(*k0) ==> cpnt@[1].l(0) == stored(*k0, 1));
    assert(2 != pos(*k0) ==> cpnt@[2].l(0) == stored(*k0, 2));
    assert(3 != pos(*k0) ==> cpnt@[3].l(0) == stored(*k0, 3));
    assert(0 != pos(*k1) ==> cpnt@[0].l(1) == stored(*k1, 0));
    assert(1 != pos(*k1) ==> cpnt@[1].l(1) == stored(*k1, 1));
    assert(2 != pos(*k1) ==> cpnt@[2].l(1) == stored(*k1, 2));
    assert(3 != pos(*k1) ==> cpnt@[3].l(1) == stored(*k1, 3));
    assert(0 != pos(*k2) ==> cpnt@[0].l(2) == stored(*k2, 0));
    assert(1 != pos(*k2) ==> cpnt@[1].l(2) == stored(*k2, 1));
    assert(2 != pos(*k2) ==> cpnt@[2].l(2) == stored(*k2, 2));
    assert(3 != pos(*k2) ==> cpnt@[3].l(2) == stored(*k2, 3));
    assert(0 != pos(*k3) ==> cpnt@[0].l(3) == stored(*k3, 0));
    assert(1 != pos(*k3) ==> cpnt@[1].l(3) == stored(*k3, 1));
    assert(2 != pos(*k3) ==> cpnt@[2].l(3) == stored(*k3, 2));
    assert(3 != pos(*k3) ==> cpnt@[3].l(3) == stored(*k3, 3));
    raw_lane(g0, 0, *k0);
    raw_lane(g0, 1, *k1);
    raw_lane(g0, 2, *k2);
    raw_lane(g0, 3, *k3);
}
//@after put(&mut cpnt, largest0 as usize, vm0)
let ghost g1 = cpnt@;
proof {
    put_lane(g0, g1, largest0 as int, vm0, 0, *k0, 0real);
    keep_lane(g0, g1, largest0 as int, vm0, 1, *k1);
    keep_lane(g0, g1, largest0 as int, vm0, 2, *k2);
    keep_lane(g0, g1, largest0 as int, vm0, 3, *k3);
}
//@after put(&mut cpnt, largest1 as usize, vm1)
let ghost g2 = cpnt@;
proof {
    put_lane(g1, g2, largest1 as int, vm1, 1, *k1, 0real);
    keep_lane(g1, g2, largest1 as int, vm1, 0, *k0);
    keep_lane(g1, g2, largest1 as int, vm1, 2, *k2);
    keep_lane(g1, g2, largest1 as int, vm1, 3, *k3);
}
//@after put(&mut cpnt, largest2 as usize, vm2)
let ghost g3 = cpnt@;
proof {
    put_lane(g2, g3, largest2 as int, vm2, 2, *k2, 0real);
    keep_lane(g2, g3, largest2 as int, vm2, 0, *k0);
    keep_lane(g2, g3, largest2 as int, vm2, 1, *k1);
    keep_lane(g2, g3, largest2 as int, vm2, 3, *k3);
}
//@after put(&mut cpnt, largest3 as usize, vm3)
let ghost g4 = cpnt@;
proof {
    put_lane(g3, g4, largest3 as int, vm3, 3, *k3, 0real);
    keep_lane(g3, g4, largest3 as int, vm3, 0, *k0);
    keep_lane(g3, g4, largest3 as int, vm3, 1, *k1);
    keep_lane(g3, g4, largest3 as int, vm3, 2, *k2);
}
//@after let dot
proof {
    lane_is(g4, 0, *k0);
    assert(dot.l(0) == total(*k0));
    lane_is(g4, 1, *k1);
    assert(dot.l(1) == total(*k1));
    lane_is(g4, 2, *k2);
    assert(dot.l(2) == total(*k2));
    lane_is(g4, 3, *k3);
    assert(dot.l(3) == total(*k3));
}
//@after let restored
proof {
    sel_big(g4, largest0 as int, 0, *k0);
    assert(fval(restored.l(0)) == comp(*k0, pos(*k0) as int));
    assert(fval(restored.l(1)) == comp(*k1, pos(*k1) as int));
    assert(fval(restored.l(2)) == comp(*k2, pos(*k2) as int));
    assert(fval(restored.l(3)) == comp(*k3, pos(*k3) as int));
}
//@after put(&mut cpnt, largest0 as usize, vr0)
let ghost g5 = cpnt@;
proof {
    put_lane(g4, g5, largest0 as int, vr0, 0, *k0, comp(*k0, pos(*k0) as int));
    keep_lane(g4, g5, largest0 as int, vr0, 1, *k1);
    keep_lane(g4, g5, largest0 as int, vr0, 2, *k2);
    keep_lane(g4, g5, largest0 as int, vr0, 3, *k3);
    sel_big(g5, largest1 as int, 1, *k1);
}
//@after put(&mut cpnt, largest1 as usize, vr1)
let ghost g6 = cpnt@;
proof {
    put_lane(g5, g6, largest1 as int, vr1, 1, *k1, comp(*k1, pos(*k1) as int));
    keep_lane(g5, g6, largest1 as int, vr1, 0, *k0);
    keep_lane(g5, g6, largest1 as int, vr1, 2, *k2);
    keep_lane(g5, g6, largest1 as int, vr1, 3, *k3);
    sel_big(g6, largest2 as int, 2, *k2);
}
//@after put(&mut cpnt, largest2 as usize, vr2)
let ghost g7 = cpnt@;
proof {
    put_lane(g6, g7, largest2 as int, vr2, 2, *k2, comp(*k2, pos(*k2) as int));
    keep_lane(g6, g7, largest2 as int, vr2, 0, *k0);
    keep_lane(g6, g7, largest2 as int, vr2, 1, *k1);
    keep_lane(g6, g7, largest2 as int, vr2, 3, *k3);
    sel_big(g7, largest3 as int, 3, *k3);
}
//@after put(&mut cpnt, largest3 as usize, vr3)
let ghost g8 = cpnt@;
proof {
    put_lane(g7, g8, largest3 as int, vr3, 3, *k3, comp(*k3, pos(*k3) as int));
    keep_lane(g7, g8, largest3 as int, vr3, 0, *k0);
    keep_lane(g7, g8, largest3 as int, vr3, 1, *k1);
    keep_lane(g7, g8, largest3 as int, vr3, 2, *k2);
}
//@finish
proof {
    lane_is(g8, 0, *k0);
    lane_is(g8, 1, *k1);
    lane_is(g8, 2, *k2);
    lane_is(g8, 3, *k3);
}
//@end
}
proof fn bits(a: u16, b: u16, c: u16)
    ensures ({
        let w = a as u64 | (b as u64) << 16u64 | (c as u64) << 32u64;
        let p = ((a as u32) >> 3u32) | ((b as u32) << 13u32) | ((c as u32) << 29u32);
        &&& (a & 0x3u16) as u64 == w & 3u64 && (a & 0x3u16) <= 3
        &&& ((a >> 2u16) & 0x1u16) as u64 == (w >> 2u64) & 1u64 && ((a >> 2u16) & 0x1u16) <= 1
        &&& (p & 0x7fffu32) as u64 == (w >> 3u64) & 0x7fffu64 && (p & 0x7fffu32) < 0x8000
        &&& ((p >> 15u32) & 0x7fffu32) as u64 == (w >> 18u64) & 0x7fffu64 && ((p >> 15u32) & 0x7fffu32) < 0x8000
        &&& ((c as u32) >> 1u32) as u64 == (w >> 33u64) & 0x7fffu64 && ((c as u32) >> 1u32) < 0x8000
    })
{
    assert(({
        let w = a as u64 | (b as u64) << 16u64 | (c as u64) << 32u64;
        let p = ((a as u32) >> 3u32) | ((b as u32) << 13u32) | ((c as u32) << 29u32);
        &&& (a & 0x3u16) as u64 == w & 3u64 && (a & 0x3u16) <= 3
        &&& ((a >> 2u16) & 0x1u16) as u64 == (w >> 2u64) & 1u64 && ((a >> 2u16) & 0x1u16) <= 1
        &&& (p & 0x7fffu32) as u64 == (w >> 3u64) & 0x7fffu64 && (p & 0x7fffu32) < 0x8000
        &&& ((p >> 15u32) & 0x7fffu32) as u64 == (w >> 18u64) & 0x7fffu64 && ((p >> 15u32) & 0x7fffu32) < 0x8000
        &&& ((c as u32) >> 1u32) as u64 == (w >> 33u64) & 0x7fffu64 && ((c as u32) >> 1u32) < 0x8000
    })) by (bit_vector);
}
}
