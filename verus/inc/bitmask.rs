// More std::simd operations (assumed).
pub mod bm {
use vstd::prelude::*;
use crate::sd::*;
verus! {
impl mask32x4 {
    // Bit i is lane i.
    #[verifier::external_body]
    pub fn to_bitmask(self) -> (r: u64)
        ensures r < 16,
            r & 1u64 == (if self.l(0) { 1u64 } else { 0u64 }),
            r & 2u64 == (if self.l(1) { 2u64 } else { 0u64 }),
            r & 3u64 == (if self.l(0) { 1u64 } else { 0u64 }) + (if self.l(1) { 2u64 } else { 0u64 }),
            r & 4u64 == (if self.l(2) { 4u64 } else { 0u64 }),
            r & 5u64 == (if self.l(0) { 1u64 } else { 0u64 }) + (if self.l(2) { 4u64 } else { 0u64 }),
            r & 6u64 == (if self.l(1) { 2u64 } else { 0u64 }) + (if self.l(2) { 4u64 } else { 0u64 }),
            r & 7u64 == (if self.l(0) { 1u64 } else { 0u64 }) + (if self.l(1) { 2u64 } else { 0u64 }) + (if self.l(2) { 4u64 } else { 0u64 }),
            r & 8u64 == (if self.l(3) { 8u64 } else { 0u64 }),
            r & 9u64 == (if self.l(0) { 1u64 } else { 0u64 }) + (if self.l(3) { 8u64 } else { 0u64 }),
            r & 10u64 == (if self.l(1) { 2u64 } else { 0u64 }) + (if self.l(3) { 8u64 } else { 0u64 }),
            r & 11u64 == (if self.l(0) { 1u64 } else { 0u64 }) + (if self.l(1) { 2u64 } else { 0u64 }) + (if self.l(3) { 8u64 } else { 0u64 }),
            r & 12u64 == (if self.l(2) { 4u64 } else { 0u64 }) + (if self.l(3) { 8u64 } else { 0u64 }),
            r & 13u64 == (if self.l(0) { 1u64 } else { 0u64 }) + (if self.l(2) { 4u64 } else { 0u64 }) + (if self.l(3) { 8u64 } else { 0u64 }),
            r & 14u64 == (if self.l(1) { 2u64 } else { 0u64 }) + (if self.l(2) { 4u64 } else { 0u64 }) + (if self.l(3) { 8u64 } else { 0u64 }),
            r & 15u64 == (if self.l(0) { 1u64 } else { 0u64 }) + (if self.l(1) { 2u64 } else { 0u64 }) + (if self.l(2) { 4u64 } else { 0u64 }) + (if self.l(3) { 8u64 } else { 0u64 }),
    { unimplemented!() }
}
impl f32x4 {
    #[verifier::external_body]
    pub fn simd_clamp(self, a: f32x4, b: f32x4) -> (r: f32x4)
        requires forall|i: int| 0 <= i < 4 ==> (#[trigger] a.l(i)) <= b.l(i)
        ensures forall|i: int| #[trigger] r.l(i) == (if self.l(i) < a.l(i) { a.l(i) } else if self.l(i) > b.l(i) { b.l(i) } else { self.l(i) }) { unimplemented!() }
}
} }
