//! Deterministic random numbers: every case is a pure function of (seed, workload, index).

#[derive(Clone)]
pub struct Rng(u64, u64, Option<[u16; 3]>, Option<(char, u8, usize)>);

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xCBF2_9CE4_8422_2325u64 ^ (b.len() as u64);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = mix(h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    for &x in it.remainder() {
        h = (h ^ u64::from(x)).wrapping_mul(0x1000_0000_01B3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64, stream: &str, index: u64) -> Rng {
        let s = mix(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ hash_bytes(stream.as_bytes()));
        Rng(mix(s ^ index.wrapping_mul(0xD134_2543_DE82_EF95)), mix(index ^ s.rotate_left(17)) | 1, None, None)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        self.1 ^= self.1 << 7;
        self.1 ^= self.1 >> 9;
        mix(self.0) ^ self.1
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 48) as u16
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// 0 <= x < n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ((u128::from(self.u64()) * n as u128) >> 64) as usize
    }
    /// a <= x <= b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    /// true in one of n cases
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// from here on, 16 bit values are only chosen from these
    pub fn few(&mut self, v: [u16; 3]) {
        self.2 = Some(v);
    }
    /// in one of n cases, few different values: that fields are equal, or all of them extreme, is rare otherwise
    pub fn mood(&mut self, n: usize) {
        if self.one_in(n) {
            let (a, b) = (self.idx(), self.idx());
            self.2 = Some(match self.below(6) {
                0 => [0; 3],
                1 => [0xFFFF; 3],
                2 => [0, 1, 2],
                3 => [a; 3],
                4 => [a, b, a.wrapping_add(1)],
                _ => [a, b, 0],
            });
        }
    }
    /// from here on, every entry of lists of a sort is of one kind, except for one in `odd`
    pub fn pin(&mut self, sort: char, kind: u8, odd: usize) {
        self.3 = Some((sort, kind, odd));
    }
    pub fn pinned(&mut self, sort: char) -> Option<u8> {
        let (s, k, odd) = self.3?;
        if s == sort && (odd == 0 || !self.one_in(odd)) {
            Some(k)
        } else {
            None
        }
    }
    pub fn moody(&self) -> bool {
        self.2.is_some()
    }
    /// a 16 bit value, often at a boundary
    pub fn idx(&mut self) -> u16 {
        if let Some(few) = self.2 {
            return few[self.below(3)];
        }
        match self.below(8) {
            0 => *self.pick(&[0u16, 1, 2, 0xFF, 0x100, 0x101, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF]),
            1 | 2 => self.below(64) as u16,
            3 => self.below(256) as u16,
            _ => self.u16(),
        }
    }
    pub fn byte(&mut self) -> u8 {
        if self.one_in(4) {
            *self.pick(&[0u8, 1, 2, 0x7F, 0x80, 0x81, 0xFE, 0xFF])
        } else {
            self.u8()
        }
    }
    pub fn word(&mut self) -> u32 {
        match self.below(4) {
            0 => *self.pick(&[0u32, 1, 0xFFFF_FFFF, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF, 0x1_0000, 0xFFFF_0000, 0xFF, 0x100]),
            1 => self.below(300) as u32,
            _ => self.u32(),
        }
    }
    pub fn long(&mut self) -> u64 {
        match self.below(4) {
            0 => *self.pick(&[0u64, 1, u64::MAX, i64::MAX as u64, 1 << 63, (1 << 63) + 1, 0xFFFF_FFFF, 0x1_0000_0000, 0x7FF8_0000_0000_0001, 0x7FF0_0000_0000_0000, 0xFFF0_0000_0000_0001]),
            1 => u64::from(self.u32()) << 32,
            _ => self.u64(),
        }
    }
}
