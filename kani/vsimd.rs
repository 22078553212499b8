//! Lane-wise model of the part of std::simd that the crate uses.
#![allow(non_camel_case_types, dead_code, unused_imports, unused_macros)]
use std::ops::*;

#[repr(C, align(16))]
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct f32x4(pub [f32; 4]);
#[repr(C, align(16))]
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct i32x4(pub [i32; 4]);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct mask32x4(pub [bool; 4]);

macro_rules! common {
    ($t:ident, $e:ty) => {
        impl $t {
            pub const LEN: usize = 4;
            #[inline(always)] pub const fn from_array(a: [$e; 4]) -> Self { $t(a) }
            #[inline(always)] pub const fn splat(v: $e) -> Self { $t([v, v, v, v]) }
            #[inline(always)] pub const fn to_array(self) -> [$e; 4] { self.0 }
            #[inline(always)] pub const fn as_array(&self) -> &[$e; 4] { &self.0 }
            #[inline(always)] pub fn as_mut_array(&mut self) -> &mut [$e; 4] { &mut self.0 }
            #[inline(always)] pub fn from_slice(s: &[$e]) -> Self { $t([s[0], s[1], s[2], s[3]]) }
        }
        impl From<[$e; 4]> for $t { #[inline(always)] fn from(a: [$e; 4]) -> Self { $t(a) } }
        impl From<$t> for [$e; 4] { #[inline(always)] fn from(a: $t) -> Self { a.0 } }
        impl Index<usize> for $t { type Output = $e; #[inline(always)] fn index(&self, i: usize) -> &$e { &self.0[i] } }
        impl IndexMut<usize> for $t { #[inline(always)] fn index_mut(&mut self, i: usize) -> &mut $e { &mut self.0[i] } }
    };
}
common!(f32x4, f32);
common!(i32x4, i32);

macro_rules! map2 { ($a:expr, $b:expr, |$x:ident, $y:ident| $e:expr) => {{
    let (a, b) = ($a, $b);
    [{ let ($x, $y) = (a[0], b[0]); $e }, { let ($x, $y) = (a[1], b[1]); $e },
     { let ($x, $y) = (a[2], b[2]); $e }, { let ($x, $y) = (a[3], b[3]); $e }]
}}; }
macro_rules! map1 { ($a:expr, |$x:ident| $e:expr) => {{
    let a = $a;
    [{ let $x = a[0]; $e }, { let $x = a[1]; $e }, { let $x = a[2]; $e }, { let $x = a[3]; $e }]
}}; }
macro_rules! binop { ($t:ident, $tr:ident, $f:ident, $tra:ident, $fa:ident, |$x:ident, $y:ident| $e:expr) => {
    impl $tr for $t { type Output = $t; #[inline(always)] fn $f(self, o: $t) -> $t { $t(map2!(self.0, o.0, |$x, $y| $e)) } }
    impl $tr<&$t> for $t { type Output = $t; #[inline(always)] fn $f(self, o: &$t) -> $t { $tr::$f(self, *o) } }
    impl $tr<$t> for &$t { type Output = $t; #[inline(always)] fn $f(self, o: $t) -> $t { $tr::$f(*self, o) } }
    impl $tr<&$t> for &$t { type Output = $t; #[inline(always)] fn $f(self, o: &$t) -> $t { $tr::$f(*self, *o) } }
    impl $tra for $t { #[inline(always)] fn $fa(&mut self, o: $t) { *self = $tr::$f(*self, o); } }
    impl $tra<&$t> for $t { #[inline(always)] fn $fa(&mut self, o: &$t) { *self = $tr::$f(*self, *o); } }
}; }
binop!(f32x4, Add, add, AddAssign, add_assign, |x, y| x + y);
binop!(f32x4, Sub, sub, SubAssign, sub_assign, |x, y| x - y);
binop!(f32x4, Mul, mul, MulAssign, mul_assign, |x, y| x * y);
binop!(f32x4, Div, div, DivAssign, div_assign, |x, y| x / y);
binop!(i32x4, Add, add, AddAssign, add_assign, |x, y| x.wrapping_add(y));
binop!(i32x4, Sub, sub, SubAssign, sub_assign, |x, y| x.wrapping_sub(y));
binop!(i32x4, Mul, mul, MulAssign, mul_assign, |x, y| x.wrapping_mul(y));
binop!(i32x4, BitAnd, bitand, BitAndAssign, bitand_assign, |x, y| x & y);
binop!(i32x4, BitOr, bitor, BitOrAssign, bitor_assign, |x, y| x | y);
binop!(i32x4, BitXor, bitxor, BitXorAssign, bitxor_assign, |x, y| x ^ y);
binop!(i32x4, Shl, shl, ShlAssign, shl_assign, |x, y| x.wrapping_shl(y as u32));
binop!(i32x4, Shr, shr, ShrAssign, shr_assign, |x, y| x.wrapping_shr(y as u32));
impl Shl<i32> for i32x4 { type Output = i32x4; #[inline(always)] fn shl(self, o: i32) -> i32x4 { self << i32x4::splat(o) } }
impl Shr<i32> for i32x4 { type Output = i32x4; #[inline(always)] fn shr(self, o: i32) -> i32x4 { self >> i32x4::splat(o) } }
impl Neg for f32x4 { type Output = f32x4; #[inline(always)] fn neg(self) -> f32x4 { f32x4(map1!(self.0, |x| -x)) } }
impl Neg for i32x4 { type Output = i32x4; #[inline(always)] fn neg(self) -> i32x4 { i32x4(map1!(self.0, |x| x.wrapping_neg())) } }
impl Not for i32x4 { type Output = i32x4; #[inline(always)] fn not(self) -> i32x4 { i32x4(map1!(self.0, |x| !x)) } }

impl f32x4 {
    pub fn simd_min(self, o: f32x4) -> f32x4 { f32x4(map2!(self.0, o.0, |x, y| x.min(y))) }
    pub fn simd_max(self, o: f32x4) -> f32x4 { f32x4(map2!(self.0, o.0, |x, y| x.max(y))) }
    pub fn simd_clamp(self, lo: f32x4, hi: f32x4) -> f32x4 {
        assert!(lo.simd_le(hi).all());
        let mut x = self;
        x = x.simd_lt(lo).select(lo, x);
        x = x.simd_gt(hi).select(hi, x);
        x
    }
    pub fn abs(self) -> f32x4 { f32x4(map1!(self.0, |x| f32::from_bits(x.to_bits() & 0x7fff_ffff))) }
    pub fn recip(self) -> f32x4 { f32x4(map1!(self.0, |x| 1.0 / x)) }
    pub fn sqrt(self) -> f32x4 { f32x4(map1!(self.0, |x| x.sqrt())) }
    pub fn trunc(self) -> f32x4 { f32x4(map1!(self.0, |x| x.trunc())) }
    pub fn reduce_sum(self) -> f32 { ((self.0[0] + self.0[1]) + self.0[2]) + self.0[3] }
    pub fn to_bits(self) -> [u32; 4] { map1!(self.0, |x| x.to_bits()) }
    pub unsafe fn to_int_unchecked(self) -> i32x4 { i32x4(map1!(self.0, |x| x as i32)) }
    pub fn simd_eq(self, o: f32x4) -> mask32x4 { mask32x4(map2!(self.0, o.0, |x, y| x == y)) }
    pub fn simd_ne(self, o: f32x4) -> mask32x4 { mask32x4(map2!(self.0, o.0, |x, y| x != y)) }
    pub fn simd_lt(self, o: f32x4) -> mask32x4 { mask32x4(map2!(self.0, o.0, |x, y| x < y)) }
    pub fn simd_le(self, o: f32x4) -> mask32x4 { mask32x4(map2!(self.0, o.0, |x, y| x <= y)) }
    pub fn simd_gt(self, o: f32x4) -> mask32x4 { mask32x4(map2!(self.0, o.0, |x, y| x > y)) }
    pub fn simd_ge(self, o: f32x4) -> mask32x4 { mask32x4(map2!(self.0, o.0, |x, y| x >= y)) }
}
impl i32x4 {
    pub fn simd_min(self, o: i32x4) -> i32x4 { i32x4(map2!(self.0, o.0, |x, y| x.min(y))) }
    pub fn simd_max(self, o: i32x4) -> i32x4 { i32x4(map2!(self.0, o.0, |x, y| x.max(y))) }
    pub fn simd_eq(self, o: i32x4) -> mask32x4 { mask32x4(map2!(self.0, o.0, |x, y| x == y)) }
    pub fn simd_ne(self, o: i32x4) -> mask32x4 { mask32x4(map2!(self.0, o.0, |x, y| x != y)) }
    pub fn simd_lt(self, o: i32x4) -> mask32x4 { mask32x4(map2!(self.0, o.0, |x, y| x < y)) }
    pub fn simd_le(self, o: i32x4) -> mask32x4 { mask32x4(map2!(self.0, o.0, |x, y| x <= y)) }
    pub fn simd_gt(self, o: i32x4) -> mask32x4 { mask32x4(map2!(self.0, o.0, |x, y| x > y)) }
    pub fn simd_ge(self, o: i32x4) -> mask32x4 { mask32x4(map2!(self.0, o.0, |x, y| x >= y)) }
}
impl mask32x4 {
    pub fn to_int(self) -> i32x4 { i32x4(map1!(self.0, |x| if x { -1 } else { 0 })) }
    pub fn to_simd(self) -> i32x4 { self.to_int() }
    pub fn to_bitmask(self) -> u64 { (self.0[0] as u64) | (self.0[1] as u64) << 1 | (self.0[2] as u64) << 2 | (self.0[3] as u64) << 3 }
    pub fn all(self) -> bool { self.0[0] && self.0[1] && self.0[2] && self.0[3] }
    pub fn any(self) -> bool { self.0[0] || self.0[1] || self.0[2] || self.0[3] }
    pub fn test(&self, i: usize) -> bool { self.0[i] }
    pub fn select(self, a: f32x4, b: f32x4) -> f32x4 {
        f32x4([if self.0[0] { a.0[0] } else { b.0[0] }, if self.0[1] { a.0[1] } else { b.0[1] },
               if self.0[2] { a.0[2] } else { b.0[2] }, if self.0[3] { a.0[3] } else { b.0[3] }])
    }
}
#[inline(always)] pub(crate) const fn pick<T: Copy>(a: [T; 4], b: [T; 4], i: usize) -> T { if i < 4 { a[i] } else { b[i - 4] } }
macro_rules! simd_swizzle {
    ($v:expr, $i:expr $(,)?) => {{ let v = $v; const I: [usize; 4] = $i; $crate::vsimd::Swz::mk([v[I[0]], v[I[1]], v[I[2]], v[I[3]]]) }};
    ($a:expr, $b:expr, $i:expr $(,)?) => {{ let a = $a.to_array(); let b = $b.to_array(); const I: [usize; 4] = $i;
        $crate::vsimd::Swz::mk([$crate::vsimd::pick(a, b, I[0]), $crate::vsimd::pick(a, b, I[1]), $crate::vsimd::pick(a, b, I[2]), $crate::vsimd::pick(a, b, I[3])]) }};
}
pub(crate) use simd_swizzle;
pub trait Swz { type V; fn mk(self) -> Self::V; }
impl Swz for [f32; 4] { type V = f32x4; #[inline(always)] fn mk(self) -> f32x4 { f32x4(self) } }
impl Swz for [i32; 4] { type V = i32x4; #[inline(always)] fn mk(self) -> i32x4 { i32x4(self) } }
pub trait StdFloat {}
pub trait SimdFloat {}
pub trait SimdPartialEq {}
pub trait SimdPartialOrd {}
pub trait SimdInt {}
pub mod prelude { pub use super::*; }
