#[cfg(kani)]
mod kani_contracts {
    use super::*;
    fn same(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
    fn fkey() -> Float3Key { Float3Key([kani::any(), kani::any(), kani::any()]) }
    // QuaternionKey::unpack
    #[kani::proof]
    fn c03_unpack() {
        let k = QuaternionKey([kani::any(), kani::any(), kani::any()]);
        let (b, s, v) = k.unpack();
        let w = (k.0[0] as u64) | (k.0[1] as u64) << 16 | (k.0[2] as u64) << 32;
        assert!(b as u64 == w & 3);
        assert!(s as u64 == (w >> 2) & 1);
        assert!(v[0] as u64 == (w >> 3) & 0x7fff);
        assert!(v[1] as u64 == (w >> 18) & 0x7fff);
        assert!(v[2] as u64 == (w >> 33) & 0x7fff);
    }
    // Float3Key::simd_decompress
    #[kani::proof]
    fn c03_float3_lanes() {
        let k = [fkey(), fkey(), fkey(), fkey()];
        let mut v = SoaVec3::new([0.0; 4], [0.0; 4], [0.0; 4]);
        Float3Key::simd_decompress(&k[0], &k[1], &k[2], &k[3], &mut v);
        let i: usize = kani::any();
        kani::assume(i < 4);
        let e = k[i].decompress();
        assert!(same(v.x[i], e.x));
        assert!(same(v.y[i], e.y));
        assert!(same(v.z[i], e.z));
    }
    // Float3Key::decompress
    #[kani::proof]
    fn c03_float3() {
        let k = fkey();
        let e = k.decompress();
        assert!(same(e.x, f16_to_f32(k.0[0])));
        assert!(same(e.y, f16_to_f32(k.0[1])));
        assert!(same(e.z, f16_to_f32(k.0[2])));
    }
}
