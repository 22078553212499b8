//! Deterministic random numbers (splitmix64 seeded per case).
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 48) as u16
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// In 0..n
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() >> 11) % (n as u64)) as usize
    }
    /// In lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    /// In 0..1
    pub fn unit(&mut self) -> f32 {
        (self.u64() >> 40) as f32 / (1u64 << 24) as f32
    }
    pub fn f(&mut self, lo: f32, hi: f32) -> f32 {
        lo + (hi - lo) * self.unit()
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    /// Any finite float (bit pattern).
    pub fn finite(&mut self) -> f32 {
        loop {
            let f = f32::from_bits(self.u32());
            if f.is_finite() {
                return f;
            }
        }
    }
    /// A number that is often special.
    pub fn odd(&mut self) -> f32 {
        match self.below(12) {
            0 => 0.0,
            1 => -0.0,
            2 => 1.0,
            3 => -1.0,
            4 => f32::NAN,
            5 => f32::INFINITY,
            6 => f32::NEG_INFINITY,
            7 => f32::MAX,
            8 => f32::MIN_POSITIVE,
            9 => f32::from_bits(self.u32()),
            _ => self.f(-4.0, 4.0),
        }
    }
    pub fn unit_vec3(&mut self) -> [f32; 3] {
        loop {
            let v = [self.f(-1.0, 1.0), self.f(-1.0, 1.0), self.f(-1.0, 1.0)];
            let l2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2];
            if l2 > 0.01 && l2 <= 1.0 {
                let l = l2.sqrt();
                return [v[0] / l, v[1] / l, v[2] / l];
            }
        }
    }
    pub fn unit_quat(&mut self) -> [f32; 4] {
        loop {
            let v = [self.f(-1.0, 1.0), self.f(-1.0, 1.0), self.f(-1.0, 1.0), self.f(-1.0, 1.0)];
            let l2 = v.iter().map(|a| a * a).sum::<f32>();
            if l2 > 0.01 && l2 <= 1.0 {
                let l = l2.sqrt();
                return [v[0] / l, v[1] / l, v[2] / l, v[3] / l];
            }
        }
    }
}
