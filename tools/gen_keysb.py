"""Writes verus/keysb.rs from verus/keys.rs: the same contracts, with the bit patterns of floats (i32) and operations on them of
which only the IEEE facts stated in inc/simdbits.rs are known, so that equal terms mean bit-identical results."""
import os, re
V = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "verus")
s = open(os.path.join(V, "keys.rs")).read()
s = s.replace("over the real numbers", "bit for bit (written by tools/gen_keysb.py from keys.rs)", 1).replace("//@include simd.rs", "//@include simdbits.rs")
a, b = s.index("pub mod kx {"), s.index("verus! {\nuse sd::*;\nuse kx::*;")
s = s[:a] + s[b:]
s = s.replace("use kx::*;\nbroadcast use {sd::ops, kx::keyops};\n//@use kernel\n//@real\n", r"""broadcast use sd::ops;
//@real
#[derive(Clone, Copy)]
pub struct Quat { pub x: F, pub y: F, pub z: F, pub w: F }
//@item src/math.rs struct SoaQuat
//@end
//@const src/math.rs ZERO
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == 0i32
//@end
//@const src/math.rs ONE
//@spec
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == wlit(1real)
//@end
""")
s = s.replace("pub uninterp spec fn root2() -> real;", "pub uninterp spec fn root2() -> i32;\npub uninterp spec fn wint(n: int) -> i32;")
s = s.replace("ensures r.v() == n as real", "ensures r.v() == wint(n as int)").replace("ensures r.v() == rmax(a.v(), b.v())", "ensures r.v() == wmax(a.v(), b.v())")
a, b = s.index("pub open spec fn stored("), s.index("// Reading and writing one of four")
s = s[:a] + """pub open spec fn stored(k: QuaternionKey, c: int) -> i32 {
    wadd(wmul(wdiv(root2(), wlit(32767real)), wint(grid(k, if c < pos(k) { c } else { c - 1 }) as int)), wdiv(wneg(root2()), wlit(2real)))
}
pub open spec fn other(k: QuaternionKey, c: int) -> i32 { if c == pos(k) { 0i32 } else { stored(k, c) } }
pub open spec fn sq(k: QuaternionKey, c: int) -> i32 { wmul(other(k, c), other(k, c)) }
pub open spec fn total(k: QuaternionKey) -> i32 { wadd(wadd(wadd(sq(k, 0), sq(k, 1)), sq(k, 2)), sq(k, 3)) }
pub open spec fn left(k: QuaternionKey) -> i32 { wmax(0i32, wsub(wlit(1real), total(k))) }
pub open spec fn comp(k: QuaternionKey, c: int) -> i32 {
    if c != pos(k) { stored(k, c) } else if neg(k) == 0 { wsqrt(left(k)) } else { wneg(wsqrt(left(k))) }
}
""" + s[b:]
a, b = s.index("pub open spec fn left(k: QuaternionKey) -> real"), s.index("//@item src/animation.rs struct QuaternionKey")
s = s[:a] + s[b:]
s = s.replace("-> real", "-> i32").replace("x: real", "x: i32").replace("0real", "0i32").replace("fval(restored", "(restored").replace("== 0i32 ==> g", "== 0i32 ==> g")
open(os.path.join(V, "keysb.rs"), "w").write(s)
