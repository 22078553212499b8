// C05: what a reader takes from a stream of bytes (written by tools/gen_archive.py).
#![allow(non_camel_case_types, non_snake_case, unused)]
use vstd::prelude::*;
verus! {
//@base
global size_of usize == 8;
pub enum OzzError { InvalidTag, InvalidVersion, Other }
// An archive: the bytes that are left, and whether their order differs from the machine's.
#[verifier::external_body]
pub struct Archive { x: usize }
impl Archive {
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    pub uninterp spec fn swap(&self) -> bool;
}
// The number n bytes hold: the first least significant when they are in the machine's (little-endian) order.
pub open spec fn num(s: Seq<u8>, swap: bool, n: nat) -> int
    decreases n
{ if n == 0 { 0 } else { let m = (n - 1) as nat; if swap { num(s, swap, m) * 256 + s[m as int] } else { num(s, swap, m) + s[m as int] * pow256(m) } } }
pub open spec fn pow256(n: nat) -> int decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
pub uninterp spec fn f32_of(b: u32) -> f32;
pub uninterp spec fn f64_of(b: u64) -> f64;

// The result of a read, and what is left, are those of t.
pub open spec fn got<T>(a: Archive, b: Archive, r: Result<T, OzzError>, t: Option<(T, Seq<u8>)>) -> bool {
    b.swap() == a.swap() && match t { Some((v, rest)) => r == Ok::<T, OzzError>(v) && b.rest() == rest, None => r is Err }
}
// n values in a row
pub open spec fn many<T, X: ArchiveRead<T>>(s: Seq<u8>, swap: bool, n: nat) -> Option<(Seq<T>, Seq<u8>)>
    decreases n
{
    if n == 0 { Some((Seq::empty(), s)) } else {
        match many::<T, X>(s, swap, (n - 1) as nat) { None => None, Some((vs, r)) =>
            match X::take(r, swap) { None => None, Some((v, r2)) => Some((vs.push(v), r2)) } }
    }
}
pub open spec fn got_many<T>(a: Archive, b: Archive, r: Result<Vec<T>, OzzError>, t: Option<(Seq<T>, Seq<u8>)>) -> bool {
    b.swap() == a.swap() && match t { Some((vs, rest)) => r is Ok && r->Ok_0@ == vs && b.rest() == rest, None => r is Err }
}
pub proof fn many_stops<T, X: ArchiveRead<T>>(s: Seq<u8>, swap: bool, i: nat, n: nat)
    requires i <= n, many::<T, X>(s, swap, i) is None
    ensures many::<T, X>(s, swap, n) is None
    decreases n
{ if i < n { many_stops::<T, X>(s, swap, i, (n - 1) as nat); } }
pub proof fn many_len<T, X: ArchiveRead<T>>(s: Seq<u8>, swap: bool, n: nat)
    requires many::<T, X>(s, swap, n) is Some
    ensures many::<T, X>(s, swap, n)->Some_0.0.len() == n, many::<T, X>(s, swap, n)->Some_0.1.len() + X::least() * n <= s.len()
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        many_len::<T, X>(s, swap, m);
        X::law(many::<T, X>(s, swap, m)->Some_0.1, swap);
        let l = X::least();
        assert(l * n == l * m + l) by (nonlinear_arith) requires n == m + 1;
    } else { assert(X::least() * 0 == 0) by (nonlinear_arith); }
}
#[verifier::external_body]
pub fn vec_with<T>(n: usize) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }

pub trait ArchiveRead<T>: Sized {
    // The value at the front of s and what is left, or nothing if there is none.
    spec fn take(s: Seq<u8>, swap: bool) -> Option<(T, Seq<u8>)>;
    spec fn least() -> int;
    proof fn law(s: Seq<u8>, swap: bool)
        ensures Self::take(s, swap) is Some ==> Self::take(s, swap)->Some_0.1.len() + Self::least() <= s.len(), Self::least() >= 1;
    fn read(archive: &mut Archive) -> (r: Result<T, OzzError>)
        ensures got(*old(archive), *final(archive), r, Self::take(old(archive).rest(), old(archive).swap()));
}
// The provided methods of the trait (which no impl overrides), as functions of the implementing type X.
//@fn src/archive.rs trait ArchiveRead::read_vec
//@sub? <R: Read> ==> <T, X: ArchiveRead<T>>
//@sub? Archive<R> ==> Archive
//@sub? \bString\b ==> Text
//@sub \bSelf:: ==> X::
//@sub Vec::with_capacity\(count\) ==> vec_with(count)
//@sub for _ in ==> for n_ in
//@sub buffer\.push\(X::read\(archive\)\?\); ==> let ghost b0 = archive.rest(); proof { if X::take(b0, archive.swap()) is None { many_stops::<T, X>(s0, sw, (n_ + 1) as nat, count as nat); } } buffer.push(X::read(archive)?);
//@ret r
//@spec
    ensures got_many(*old(archive), *final(archive), r, many::<T, X>(old(archive).rest(), old(archive).swap(), count as nat))
//@begin
    let ghost s0 = archive.rest();
    let ghost sw = archive.swap();
//@loop 1 for n_ in 0..count
    invariant archive.swap() == sw, s0 == old(archive).rest(), sw == old(archive).swap(),
        many::<T, X>(s0, sw, n_ as nat) == Some((buffer@, archive.rest())),
//@end
//@fn src/archive.rs trait ArchiveRead::read_slice
//@sub? <R: Read> ==> <T, X: ArchiveRead<T>>
//@sub? Archive<R> ==> Archive
//@sub? \bString\b ==> Text
//@sub \bSelf:: ==> X::
//@sub for item in buffer\.iter_mut\(\) ==> for n_ in 0..buffer.len()
//@sub \*item = X::read\(archive\)\?; ==> let ghost b0 = archive.rest(); proof { if X::take(b0, archive.swap()) is None { many_stops::<T, X>(s0, sw, (n_ + 1) as nat, buffer@.len()); } } buffer[n_] = X::read(archive)?;
//@ret r
//@spec
    ensures final(buffer)@.len() == old(buffer)@.len(), final(archive).swap() == old(archive).swap(),
        match many::<T, X>(old(archive).rest(), old(archive).swap(), old(buffer)@.len()) {
            Some((vs, rest)) => r is Ok && final(buffer)@ == vs && final(archive).rest() == rest, None => r is Err },
//@begin
    let ghost s0 = archive.rest();
    let ghost sw = archive.swap();
//@loop 1 for n_ in 0..buffer.len()
    invariant archive.swap() == sw, s0 == old(archive).rest(), sw == old(archive).swap(), buffer@.len() == old(buffer)@.len(),
        many::<T, X>(s0, sw, n_ as nat) == Some((buffer@.take(n_ as int), archive.rest())),
//@stop 1
    proof { assert(buffer@.take(n_ + 1) =~= buffer@.take(n_ as int).push(buffer@[n_ as int])); }
//@post 1
    proof { assert(buffer@.take(buffer@.len() as int) =~= buffer@); }
//@end
impl ArchiveRead<u8> for u8 {
    open spec fn take(s: Seq<u8>, swap: bool) -> Option<(u8, Seq<u8>)> { if s.len() < 1 { None } else { Some((s[0], s.skip(1))) } }
    proof fn law(s: Seq<u8>, swap: bool) {}
    open spec fn least() -> int { 1 }
    // primitive_reader!: the subject of the Kani harness c05_u8
    #[verifier::external_body]
    fn read(archive: &mut Archive) -> (r: Result<u8, OzzError>) { unimplemented!() }
}
impl ArchiveRead<i8> for i8 {
    open spec fn take(s: Seq<u8>, swap: bool) -> Option<(i8, Seq<u8>)> { if s.len() < 1 { None } else { Some((num(s, swap, 1) as u8 as i8, s.skip(1))) } }
    proof fn law(s: Seq<u8>, swap: bool) {}
    open spec fn least() -> int { 1 }
    // primitive_reader!: the subject of the Kani harness c05_i8
    #[verifier::external_body]
    fn read(archive: &mut Archive) -> (r: Result<i8, OzzError>) { unimplemented!() }
}
impl ArchiveRead<u16> for u16 {
    open spec fn take(s: Seq<u8>, swap: bool) -> Option<(u16, Seq<u8>)> { if s.len() < 2 { None } else { Some((num(s, swap, 2) as u16, s.skip(2))) } }
    proof fn law(s: Seq<u8>, swap: bool) {}
    open spec fn least() -> int { 2 }
    // primitive_reader!: the subject of the Kani harness c05_u16
    #[verifier::external_body]
    fn read(archive: &mut Archive) -> (r: Result<u16, OzzError>) { unimplemented!() }
}
impl ArchiveRead<i16> for i16 {
    open spec fn take(s: Seq<u8>, swap: bool) -> Option<(i16, Seq<u8>)> { if s.len() < 2 { None } else { Some((num(s, swap, 2) as u16 as i16, s.skip(2))) } }
    proof fn law(s: Seq<u8>, swap: bool) {}
    open spec fn least() -> int { 2 }
    // primitive_reader!: the subject of the Kani harness c05_i16
    #[verifier::external_body]
    fn read(archive: &mut Archive) -> (r: Result<i16, OzzError>) { unimplemented!() }
}
impl ArchiveRead<u32> for u32 {
    open spec fn take(s: Seq<u8>, swap: bool) -> Option<(u32, Seq<u8>)> { if s.len() < 4 { None } else { Some((num(s, swap, 4) as u32, s.skip(4))) } }
    proof fn law(s: Seq<u8>, swap: bool) {}
    open spec fn least() -> int { 4 }
    // primitive_reader!: the subject of the Kani harness c05_u32
    #[verifier::external_body]
    fn read(archive: &mut Archive) -> (r: Result<u32, OzzError>) { unimplemented!() }
}
impl ArchiveRead<i32> for i32 {
    open spec fn take(s: Seq<u8>, swap: bool) -> Option<(i32, Seq<u8>)> { if s.len() < 4 { None } else { Some((num(s, swap, 4) as u32 as i32, s.skip(4))) } }
    proof fn law(s: Seq<u8>, swap: bool) {}
    open spec fn least() -> int { 4 }
    // primitive_reader!: the subject of the Kani harness c05_i32
    #[verifier::external_body]
    fn read(archive: &mut Archive) -> (r: Result<i32, OzzError>) { unimplemented!() }
}
impl ArchiveRead<u64> for u64 {
    open spec fn take(s: Seq<u8>, swap: bool) -> Option<(u64, Seq<u8>)> { if s.len() < 8 { None } else { Some((num(s, swap, 8) as u64, s.skip(8))) } }
    proof fn law(s: Seq<u8>, swap: bool) {}
    open spec fn least() -> int { 8 }
    // primitive_reader!: the subject of the Kani harness c05_u64
    #[verifier::external_body]
    fn read(archive: &mut Archive) -> (r: Result<u64, OzzError>) { unimplemented!() }
}
impl ArchiveRead<i64> for i64 {
    open spec fn take(s: Seq<u8>, swap: bool) -> Option<(i64, Seq<u8>)> { if s.len() < 8 { None } else { Some((num(s, swap, 8) as u64 as i64, s.skip(8))) } }
    proof fn law(s: Seq<u8>, swap: bool) {}
    open spec fn least() -> int { 8 }
    // primitive_reader!: the subject of the Kani harness c05_i64
    #[verifier::external_body]
    fn read(archive: &mut Archive) -> (r: Result<i64, OzzError>) { unimplemented!() }
}
impl ArchiveRead<f32> for f32 {
    open spec fn take(s: Seq<u8>, swap: bool) -> Option<(f32, Seq<u8>)> { if s.len() < 4 { None } else { Some((f32_of(num(s, swap, 4) as u32), s.skip(4))) } }
    proof fn law(s: Seq<u8>, swap: bool) {}
    open spec fn least() -> int { 4 }
    // primitive_reader!: the subject of the Kani harness c05_f32
    #[verifier::external_body]
    fn read(archive: &mut Archive) -> (r: Result<f32, OzzError>) { unimplemented!() }
}
impl ArchiveRead<f64> for f64 {
    open spec fn take(s: Seq<u8>, swap: bool) -> Option<(f64, Seq<u8>)> { if s.len() < 8 { None } else { Some((f64_of(num(s, swap, 8) as u64), s.skip(8))) } }
    proof fn law(s: Seq<u8>, swap: bool) {}
    open spec fn least() -> int { 8 }
    // primitive_reader!: the subject of the Kani harness c05_f64
    #[verifier::external_body]
    fn read(archive: &mut Archive) -> (r: Result<f64, OzzError>) { unimplemented!() }
}
impl ArchiveRead<bool> for bool {
    open spec fn take(s: Seq<u8>, swap: bool) -> Option<(bool, Seq<u8>)> { if s.len() < 1 { None } else { Some((s[0] != 0, s.skip(1))) } }
    proof fn law(s: Seq<u8>, swap: bool) {}
    open spec fn least() -> int { 1 }
//@fn src/archive.rs ArchiveRead<bool> for bool::read
//@sub? <R: Read> ==>
//@sub? Archive<R> ==> Archive
//@sub? \bString\b ==> Text
//@ret r
//@spec
//@end
}
// glam vectors as records of their components
pub struct Vec2 { pub x: f32, pub y: f32 }
impl Vec2 { pub fn new(x: f32, y: f32) -> (r: Vec2) ensures r == (Vec2 { x, y }) { Vec2 { x, y } } }
pub struct Vec3 { pub x: f32, pub y: f32, pub z: f32 }
impl Vec3 { pub fn new(x: f32, y: f32, z: f32) -> (r: Vec3) ensures r == (Vec3 { x, y, z }) { Vec3 { x, y, z } } }
pub struct Vec4 { pub x: f32, pub y: f32, pub z: f32, pub w: f32 }
impl Vec4 { pub fn new(x: f32, y: f32, z: f32, w: f32) -> (r: Vec4) ensures r == (Vec4 { x, y, z, w }) { Vec4 { x, y, z, w } } }
pub struct Quat { pub x: f32, pub y: f32, pub z: f32, pub w: f32 }
impl Quat { pub fn from_xyzw(x: f32, y: f32, z: f32, w: f32) -> (r: Quat) ensures r == (Quat { x, y, z, w }) { Quat { x, y, z, w } } }
impl ArchiveRead<Vec2> for Vec2 {
    open spec fn take(s: Seq<u8>, swap: bool) -> Option<(Vec2, Seq<u8>)> { match f32::take(s, swap) { None => None, Some((v0, r0)) => match f32::take(r0, swap) { None => None, Some((v1, r1)) => Some((Vec2 { x: v0, y: v1 }, r1)) } } }
    proof fn law(s: Seq<u8>, swap: bool) { f32::law(s, swap); if let Some((v1, r1)) = f32::take(s, swap) { f32::law(r1, swap); } }
    open spec fn least() -> int { 8 }
//@fn src/archive.rs ArchiveRead<Vec2> for Vec2::read
//@sub? <R: Read> ==>
//@sub? Archive<R> ==> Archive
//@sub? \bString\b ==> Text
//@ret r
//@spec
//@end
}
impl ArchiveRead<Vec3> for Vec3 {
    open spec fn take(s: Seq<u8>, swap: bool) -> Option<(Vec3, Seq<u8>)> { match f32::take(s, swap) { None => None, Some((v0, r0)) => match f32::take(r0, swap) { None => None, Some((v1, r1)) => match f32::take(r1, swap) { None => None, Some((v2, r2)) => Some((Vec3 { x: v0, y: v1, z: v2 }, r2)) } } } }
    proof fn law(s: Seq<u8>, swap: bool) { f32::law(s, swap); if let Some((v1, r1)) = f32::take(s, swap) { f32::law(r1, swap); if let Some((v2, r2)) = f32::take(r1, swap) { f32::law(r2, swap); }} }
    open spec fn least() -> int { 12 }
//@fn src/archive.rs ArchiveRead<Vec3> for Vec3::read
//@sub? <R: Read> ==>
//@sub? Archive<R> ==> Archive
//@sub? \bString\b ==> Text
//@ret r
//@spec
//@end
}
impl ArchiveRead<Vec4> for Vec4 {
    open spec fn take(s: Seq<u8>, swap: bool) -> Option<(Vec4, Seq<u8>)> { match f32::take(s, swap) { None => None, Some((v0, r0)) => match f32::take(r0, swap) { None => None, Some((v1, r1)) => match f32::take(r1, swap) { None => None, Some((v2, r2)) => match f32::take(r2, swap) { None => None, Some((v3, r3)) => Some((Vec4 { x: v0, y: v1, z: v2, w: v3 }, r3)) } } } } }
    proof fn law(s: Seq<u8>, swap: bool) { f32::law(s, swap); if let Some((v1, r1)) = f32::take(s, swap) { f32::law(r1, swap); if let Some((v2, r2)) = f32::take(r1, swap) { f32::law(r2, swap); if let Some((v3, r3)) = f32::take(r2, swap) { f32::law(r3, swap); }}} }
    open spec fn least() -> int { 16 }
//@fn src/archive.rs ArchiveRead<Vec4> for Vec4::read
//@sub? <R: Read> ==>
//@sub? Archive<R> ==> Archive
//@sub? \bString\b ==> Text
//@ret r
//@spec
//@end
}
impl ArchiveRead<Quat> for Quat {
    open spec fn take(s: Seq<u8>, swap: bool) -> Option<(Quat, Seq<u8>)> { match f32::take(s, swap) { None => None, Some((v0, r0)) => match f32::take(r0, swap) { None => None, Some((v1, r1)) => match f32::take(r1, swap) { None => None, Some((v2, r2)) => match f32::take(r2, swap) { None => None, Some((v3, r3)) => Some((Quat { x: v0, y: v1, z: v2, w: v3 }, r3)) } } } } }
    proof fn law(s: Seq<u8>, swap: bool) { f32::law(s, swap); if let Some((v1, r1)) = f32::take(s, swap) { f32::law(r1, swap); if let Some((v2, r2)) = f32::take(r1, swap) { f32::law(r2, swap); if let Some((v3, r3)) = f32::take(r2, swap) { f32::law(r3, swap); }}} }
    open spec fn least() -> int { 16 }
//@fn src/archive.rs ArchiveRead<Quat> for Quat::read
//@sub? <R: Read> ==>
//@sub? Archive<R> ==> Archive
//@sub? \bString\b ==> Text
//@ret r
//@spec
//@end
}
//@item src/animation.rs struct Float3Key
//@sub Float3Key\(\[ ==> Float3Key(pub [
//@end
impl ArchiveRead<Float3Key> for Float3Key {
    open spec fn take(s: Seq<u8>, swap: bool) -> Option<(Float3Key, Seq<u8>)> {
        match u16::take(s, swap) { None => None, Some((v0, r0)) => match u16::take(r0, swap) { None => None, Some((v1, r1)) =>
            match u16::take(r1, swap) { None => None, Some((v2, r2)) => Some((Float3Key([v0, v1, v2]), r2)) } } }
    }
    proof fn law(s: Seq<u8>, swap: bool) { u16::law(s, swap); if let Some((v1, r1)) = u16::take(s, swap) { u16::law(r1, swap); if let Some((v2, r2)) = u16::take(r1, swap) { u16::law(r2, swap); }} }
    open spec fn least() -> int { 6 }
//@fn src/animation.rs ArchiveRead<Float3Key> for Float3Key::read
//@sub? <R: Read> ==>
//@sub? Archive<R> ==> Archive
//@sub? \bString\b ==> Text
//@ret r
//@spec
//@end
}
//@item src/animation.rs struct QuaternionKey
//@sub QuaternionKey\(\[ ==> QuaternionKey(pub [
//@end
impl ArchiveRead<QuaternionKey> for QuaternionKey {
    open spec fn take(s: Seq<u8>, swap: bool) -> Option<(QuaternionKey, Seq<u8>)> {
        match u16::take(s, swap) { None => None, Some((v0, r0)) => match u16::take(r0, swap) { None => None, Some((v1, r1)) =>
            match u16::take(r1, swap) { None => None, Some((v2, r2)) => Some((QuaternionKey([v0, v1, v2]), r2)) } } }
    }
    proof fn law(s: Seq<u8>, swap: bool) { u16::law(s, swap); if let Some((v1, r1)) = u16::take(s, swap) { u16::law(r1, swap); if let Some((v2, r2)) = u16::take(r1, swap) { u16::law(r2, swap); }} }
    open spec fn least() -> int { 6 }
//@fn src/animation.rs ArchiveRead<QuaternionKey> for QuaternionKey::read
//@sub? <R: Read> ==>
//@sub? Archive<R> ==> Archive
//@sub? \bString\b ==> Text
//@ret r
//@spec
//@end
}

// Strings: the bytes up to the first zero, which must be valid UTF-8.
pub struct Text { pub g: Ghost<Seq<u8>> }
impl Text {
    pub fn new() -> (r: Text) ensures r.g@ == Seq::<u8>::empty() { Text { g: Ghost(Seq::empty()) } }
}
pub uninterp spec fn utf8(s: Seq<u8>) -> bool;
// String::from_utf8, its error made an OzzError
#[verifier::external_body]
pub fn text_of(v: Vec<u8>) -> (r: Result<Text, OzzError>)
    ensures utf8(v@) ==> r == Ok::<Text, OzzError>(Text { g: Ghost(v@) }), !utf8(v@) ==> r is Err
{ unimplemented!() }
pub open spec fn zero_at(s: Seq<u8>, k: nat) -> Option<nat>
    decreases s.len() - k
{ if k >= s.len() { None } else if s[k as int] == 0 { Some(k) } else { zero_at(s, k + 1) } }
proof fn zero_at_law(s: Seq<u8>, k: nat)
    ensures zero_at(s, k) is Some ==> k <= zero_at(s, k)->Some_0 < s.len() && s[zero_at(s, k)->Some_0 as int] == 0
    decreases s.len() - k
{ if k < s.len() && s[k as int] != 0 { zero_at_law(s, k + 1); } }
impl ArchiveRead<Text> for Text {
    open spec fn take(s: Seq<u8>, swap: bool) -> Option<(Text, Seq<u8>)> {
        match zero_at(s, 0) { None => None, Some(z) => if utf8(s.take(z as int)) { Some((Text { g: Ghost(s.take(z as int)) }, s.skip((z + 1) as int))) } else { None } }
    }
    proof fn law(s: Seq<u8>, swap: bool) { zero_at_law(s, 0); }
    open spec fn least() -> int { 1 }
//@fn src/archive.rs ArchiveRead<String> for String::read
//@sub? <R: Read> ==>
//@sub? Archive<R> ==> Archive
//@sub? \bString\b ==> Text
//@sub let mut buffer = Vec::new\(\); ==> let mut buffer: Vec<u8> = Vec::new();
//@sub Text::from_utf8\(buffer\)\.map_err\(\|e\| e\.utf8_error\(\)\)\? ==> text_of(buffer)?
//@ret r
//@spec
//@begin
    let ghost s0 = archive.rest();
    proof { assert(s0.skip(0) =~= s0); assert(s0.take(0) =~= Seq::<u8>::empty()); zero_at_law(s0, 0); }
//@loop 1 loop
    invariant_except_break archive.rest() == s0.skip(buffer@.len() as int),
    invariant archive.swap() == old(archive).swap(), s0 == old(archive).rest(), buffer@.len() <= s0.len(),
        buffer@ == s0.take(buffer@.len() as int), zero_at(s0, 0) == zero_at(s0, buffer@.len()),
    ensures zero_at(s0, 0) == Some(buffer@.len()), archive.rest() == s0.skip((buffer@.len() + 1) as int),
        archive.swap() == old(archive).swap(), s0 == old(archive).rest(), buffer@ == s0.take(buffer@.len() as int),
    decreases s0.len() - buffer@.len()
//@start 1
    let ghost b0 = buffer@;
    let ghost a0 = archive.rest();
    proof {
        if a0.len() > 0 {
            assert(a0.skip(1) =~= s0.skip((b0.len() + 1) as int));
            assert(b0.push(s0[b0.len() as int]) =~= s0.take((b0.len() + 1) as int));
        }
    }
//@end
}
// The transform whose 160 bytes are those of 40 floats (a repr(C) structure of 10 vectors: the transmute in math.rs)
#[verifier::external_body]
pub struct SoaTransform { x: usize }
pub uninterp spec fn soa_of(f: Seq<f32>) -> SoaTransform;
#[verifier::external_body]
fn soa(f: [f32; 40]) -> (r: SoaTransform) ensures r == soa_of(f@) { unimplemented!() }
impl ArchiveRead<SoaTransform> for SoaTransform {
    open spec fn take(s: Seq<u8>, swap: bool) -> Option<(SoaTransform, Seq<u8>)> {
        match many::<f32, f32>(s, swap, 40) { None => None, Some((f, r)) => Some((soa_of(f), r)) }
    }
    proof fn law(s: Seq<u8>, swap: bool) { if many::<f32, f32>(s, swap, 40) is Some { many_len::<f32, f32>(s, swap, 40); } }
    open spec fn least() -> int { 160 }
//@fn src/math.rs ArchiveRead<SoaTransform> for SoaTransform::read
//@sub? <R: Read> ==>
//@sub? Archive<R> ==> Archive
//@sub? \bString\b ==> Text
//@sub const COUNT: usize = .*; ==> let COUNT = 40usize;
//@sub \[0f32; COUNT\] ==> [0f32; 40]
//@sub for value in buffer\.iter_mut\(\) ==> for n_ in 0..40usize
//@sub \*value = archive\.read\(\)\?; ==> let v_: f32 = archive.read()?; buffer[n_] = v_;
//@sub unsafe \{ mem::transmute::<\[f32; 40\], math::SoaTransform>\(buffer\) \} ==> soa(buffer)
//@ret r
//@spec
//@begin
    let ghost s0 = archive.rest();
    let ghost sw = archive.swap();
//@loop 1 for n_ in 0..40usize
    invariant archive.swap() == sw, s0 == old(archive).rest(), sw == old(archive).swap(), buffer@.len() == 40,
        many::<f32, f32>(s0, sw, n_ as nat) == Some((buffer@.take(n_ as int), archive.rest())),
//@start 1
    let ghost b0 = archive.rest();
    let ghost u0 = buffer@;
    proof { if f32::take(b0, sw) is None { many_stops::<f32, f32>(s0, sw, (n_ + 1) as nat, 40); } }
//@stop 1
    proof { assert(buffer@.take(n_ + 1) =~= u0.take(n_ as int).push(buffer@[n_ as int])); }
//@post 1
    proof { assert(buffer@.take(40) =~= buffer@); }
//@end
}
impl Archive {
//@fn src/archive.rs Archive<R>::read
//@sub pub fn read< ==> pub fn read<
//@ret r
//@spec
    ensures got(*old(self), *final(self), r, T::take(old(self).rest(), old(self).swap()))
//@end
//@fn src/archive.rs Archive<R>::read_vec
//@sub T::read_vec\( ==> read_vec::<T, T>(
//@ret r
//@spec
    ensures got_many(*old(self), *final(self), r, many::<T, T>(old(self).rest(), old(self).swap(), count as nat))
//@end
//@fn src/archive.rs Archive<R>::read_slice
//@sub T::read_slice\( ==> read_slice::<T, T>(
//@ret r
//@spec
    ensures final(buffer)@.len() == old(buffer)@.len(), final(self).swap() == old(self).swap(),
        match many::<T, T>(old(self).rest(), old(self).swap(), old(buffer)@.len()) {
            Some((vs, rest)) => r is Ok && final(buffer)@ == vs && final(self).rest() == rest, None => r is Err },
//@end
//@fn src/archive.rs Archive<R>::read_tag
//@sub? <R: Read> ==>
//@sub? Archive<R> ==> Archive
//@sub? \bString\b ==> Text
//@ret r
//@spec
    ensures got(*old(self), *final(self), r, Text::take(old(self).rest(), old(self).swap()))
//@end
//@fn src/archive.rs Archive<R>::read_version
//@ret r
//@spec
    ensures got(*old(self), *final(self), r, u32::take(old(self).rest(), old(self).swap()))
//@end
//@fn src/archive.rs Archive<R>::read_tag_version
//@sub? <R: Read> ==>
//@sub? Archive<R> ==> Archive
//@sub? \bString\b ==> Text
//@ret r
//@spec
    ensures got(*old(self), *final(self), r, match Text::take(old(self).rest(), old(self).swap()) { None => None,
        Some((t, r1)) => match u32::take(r1, old(self).swap()) { None => None, Some((v, r2)) => Some(((t, v), r2)) } })
//@end
}
}
