//! Deterministic generator (xoshiro256** seeded by splitmix64).

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// FNV-like 64-bit hash with final mixing; used to count distinct cases and compare transcripts.
pub fn hash(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in bytes.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x100_0000_01b3).rotate_left(29);
    }
    mix(h ^ bytes.len() as u64)
}

static PORTABLE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// The same numbers under Miri as elsewhere.
pub fn portable() {
    PORTABLE.store(true, std::sync::atomic::Ordering::Relaxed);
}

fn fast() -> bool {
    cfg!(miri) && !PORTABLE.load(std::sync::atomic::Ordering::Relaxed)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut s = [0; 4];
        for x in &mut s {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            *x = mix(z);
        }
        Rng { s }
    }

    pub fn u64(&mut self) -> u64 {
        if fast() {
            // few operations: Miri interprets each
            let mut x = self.s[0];
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            self.s[0] = x;
            return x;
        }
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        if fast() {
            return (self.u64() >> 20) as usize % n;
        }
        ((u128::from(self.u64()) * n as u128) >> 64) as usize
    }

    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }

    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }

    /// Small most of the time, occasionally up to max.
    pub fn size(&mut self, max: usize) -> usize {
        let m = match self.below(10) {
            0..=5 => 4,
            6..=7 => 12,
            8 => 40,
            _ => max,
        };
        self.below(m.min(max) + 1)
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}
