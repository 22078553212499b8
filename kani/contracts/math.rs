#[cfg(kani)]
mod kani_contracts {
    use super::*;
    fn value(n: u16, r: f32) -> bool {
        let (e, m) = ((n >> 10) & 31, n & 0x3ff);
        if e == 31 && m != 0 { return r.is_nan(); }
        (r.to_bits() >> 31) as u16 == n >> 15
            && if e == 31 { r.is_infinite() }
            else if e == 0 { r.abs() == (m as f32) * f32::from_bits((127 - 24) << 23) }
            else { r.to_bits() & 0x7fff_ffff == (e as u32 + 112) << 23 | (m as u32) << 13 }
    }
    // f16_to_f32
    #[kani::proof]
    fn c03_f16() {
        let n: u16 = kani::any();
        assert!(value(n, f16_to_f32(n)));
    }
    // simd_f16_to_f32
    #[kani::proof]
    fn c03_f16_lanes() {
        let n: [u16; 4] = [kani::any(), kani::any(), kani::any(), kani::any()];
        let r = simd_f16_to_f32(n);
        let i: usize = kani::any();
        kani::assume(i < 4);
        let e = (n[i] >> 10) & 31;
        if e == 31 && n[i] & 0x3ff != 0 { return; }
        assert!(value(n[i], r[i]));
    }
}
