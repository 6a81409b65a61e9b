//! Deterministic random source; every random choice of the harness goes through it.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    pub fn for_case(seed: u64, tag: &str, case: u64) -> Self {
        let mut h = seed ^ 0x1234_5678_9abc_def0;
        for b in tag.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        }
        h = h.wrapping_add(case.wrapping_mul(0x9e3779b97f4a7c15));
        Rng::new(h)
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u128(&mut self) -> u128 {
        ((self.u64() as u128) << 64) | self.u64() as u128
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        self.u64() % n
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// True with probability num/den.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.u64() % den < num
    }
    pub fn byte(&mut self) -> u8 {
        (self.u64() >> 32) as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn pick<T: Clone>(&mut self, s: &[T]) -> T {
        s[self.idx(s.len())].clone()
    }
    /// A character that something may treat specially.
    pub fn odd_char(&mut self) -> char {
        self.pick(&ODD)
    }
    /// A short text, sometimes with unusual characters.
    pub fn text(&mut self) -> String {
        let n = self.pick(&[0usize, 1, 3, 8, 8, 20, 70]);
        (0..n).map(|_| if self.chance(1, 12) { self.odd_char() } else { (b'a' + self.below(26) as u8) as char }).collect()
    }
    /// Unsigned integer below 2^bits, biased to encoding boundaries.
    pub fn uint(&mut self, bits: u32) -> u128 {
        let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        if let Some(n) = crate::dict::num(self, 0, u64::MAX) {
            return (n as u128) & max;
        }
        let v = match self.below(12) {
            0 => 0,
            1 => 1,
            2 => max,
            3 => max - (self.u64() as u128 & 3).min(max),
            4 => {
                // around compact mode boundaries
                let b = self.pick(&[6u32, 14, 30, 32, 40, 48, 56, 64, 72, 96, 120]);
                let d = self.below(5) as i64 - 2;
                (1u128 << b).wrapping_add(d as i128 as u128)
            }
            5 | 6 => {
                let b = self.below(bits as u64 + 1) as u32;
                if b == 0 {
                    0
                } else {
                    self.u128() >> (128 - b)
                }
            }
            7 => {
                let b = self.below(bits as u64) as u32;
                1u128 << b
            }
            8 => self.below(300) as u128,
            9 => {
                // round decimal numbers
                let e = self.below(39) as u32;
                10u128.pow(e.min(38)).wrapping_mul(self.below(20) as u128)
            }
            _ => self.u128(),
        };
        v & max
    }
}

/// Controls, spaces, line ends, marks, quotes, and the ends of the ranges of UTF-8.
pub const ODD: [char; 56] = [
    '\0', '\u{1}', '\u{7}', '\u{8}', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{1b}', ' ', '\u{7f}', '\u{80}', '\u{85}', '\u{9f}', '\u{a0}', '\u{ad}',
    'é', 'ß', 'İ', '\u{301}', '\u{34f}', '\u{61c}', '\u{7ff}', '\u{800}', '\u{1680}', '\u{180e}', '\u{200b}', '\u{200d}', '\u{200f}', '\u{2028}', '\u{2029}',
    '\u{202e}', '\u{2060}', '\u{3000}', '漢', '\u{d7ff}', '\u{e000}', '\u{fe0f}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '😀', '\u{e0001}', '\u{10ffff}',
    '"', '\'', '\\', '{', '}', '%', '&', '<', '/', '$',
];
