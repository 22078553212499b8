#[cfg(kani)]
mod kani_contracts {
    use super::*;
    // A reader over 16 arbitrary bytes that ends after `len` of them.
    struct Bytes { b: [u8; 16], len: usize, at: usize }
    impl Read for Bytes {
        fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
            let n = if self.len - self.at < out.len() { self.len - self.at } else { out.len() };
            let mut i = 0;
            while i < n { out[i] = self.b[self.at + i]; i += 1; }
            self.at += n;
            Ok(n)
        }
        fn read_exact(&mut self, out: &mut [u8]) -> std::io::Result<()> {
            if self.len - self.at < out.len() { self.at = self.len; return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof)); }
            let mut i = 0;
            while i < out.len() { out[i] = self.b[self.at + i]; i += 1; }
            self.at += out.len();
            Ok(())
        }
    }
    fn stream() -> (Bytes, [u8; 16], usize) {
        let b: [u8; 16] = kani::any();
        let len: usize = kani::any();
        kani::assume(len <= 16);
        (Bytes { b, len, at: 0 }, b, len)
    }
    fn bits(b: &[u8; 16], n: usize, big: bool) -> u64 {
        let mut r = 0u64;
        let mut i = 0;
        while i < n { r |= (b[1 + i] as u64) << (8 * if big { n - 1 - i } else { i }); i += 1; }
        r
    }
    macro_rules! check {
        ($name:ident, $t:ty, $n:expr, $v:ident => $raw:expr) => {
            // Archive::new and the reader of $t: value, byte order and bytes consumed, or an error when the stream ends first
            #[kani::proof]
            #[kani::unwind(18)]
            fn $name() {
                let (s, b, len) = stream();
                let mut a = match Archive::new(s) { Ok(a) => a, Err(_) => { assert!(len == 0); return; } };
                assert!(len >= 1);
                match <$t>::read(&mut a) {
                    Ok($v) => {
                        assert!(len >= 1 + $n);
                        assert!(a.read.at == 1 + $n);
                        let raw: u64 = $raw;
                        assert!(raw == bits(&b, $n, b[0] == 0));
                    }
                    Err(_) => assert!(len < 1 + $n),
                }
            }
        };
    }
    check!(c05_u8, u8, 1, v => v as u64);
    check!(c05_i8, i8, 1, v => v as u8 as u64);
    check!(c05_u16, u16, 2, v => v as u64);
    check!(c05_i16, i16, 2, v => v as u16 as u64);
    check!(c05_u32, u32, 4, v => v as u64);
    check!(c05_i32, i32, 4, v => v as u32 as u64);
    check!(c05_u64, u64, 8, v => v);
    check!(c05_i64, i64, 8, v => v as u64);
    check!(c05_f32, f32, 4, v => v.to_bits() as u64);
    check!(c05_f64, f64, 8, v => v.to_bits());
    #[kani::proof]
    #[kani::unwind(18)]
    fn c05_bool() {
        let (s, b, len) = stream();
        kani::assume(len >= 1);
        let mut a = Archive::new(s).ok().unwrap();
        match bool::read(&mut a) {
            Ok(v) => { assert!(len >= 2 && a.read.at == 2); assert!(v == (b[1] != 0)); }
            Err(_) => assert!(len < 2),
        }
    }
}
