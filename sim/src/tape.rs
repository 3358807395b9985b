//! The choice tape. Every decision of a run (values, sizes, delivery, faults,
//! interleavings) is one draw from this tape. A run is a pure function of the tape,
//! the tape is a pure function of the seed, and a minimised tape is the replay file.
//! Convention: 0 is always the simplest choice.

#[derive(Clone)]
pub struct Prng(u64);

impl Prng {
    pub fn new(seed: u64) -> Self {
        Prng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, bound: u64) -> u64 {
        if bound <= 1 {
            return 0;
        }
        ((self.next() as u128 * bound as u128) >> 64) as u64
    }
}

enum Source {
    Seeded(Prng),
    Replay(Vec<u64>, usize),
}

pub struct Tape {
    src: Source,
    rec: Option<Vec<u64>>,
    log: Option<std::fs::File>,
}

impl Tape {
    pub fn seeded(seed: u64) -> Self {
        Tape { src: Source::Seeded(Prng::new(seed)), rec: Some(Vec::with_capacity(256)), log: None }
    }
    /// bulk content derived from one recorded draw
    pub fn unrecorded(seed: u64) -> Self {
        Tape { src: Source::Seeded(Prng::new(seed)), rec: None, log: None }
    }
    pub fn replay(data: Vec<u64>) -> Self {
        Tape { src: Source::Replay(data, 0), rec: Some(Vec::new()), log: None }
    }
    /// write every draw to a file at once, for runs that kill the process
    pub fn log_to(&mut self, path: &std::path::Path) {
        self.log = std::fs::File::create(path).ok();
    }
    pub fn recorded(&self) -> &[u64] {
        self.rec.as_deref().unwrap_or(&[])
    }
    /// value in `0..bound`
    pub fn below(&mut self, bound: u64) -> u64 {
        let bound = bound.max(1);
        let v = match &mut self.src {
            Source::Seeded(p) => p.below(bound),
            Source::Replay(data, pos) => {
                let v = data.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                if v < bound { v } else { v % bound }
            }
        };
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        if let Some(rec) = &mut self.rec {
            rec.push(v);
        }
        v
    }
    pub fn word(&mut self) -> u64 {
        self.below(u64::MAX)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range, `lo` is the simplest
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true in `num` of `den` cases; 0 on the tape is false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.idx(items.len());
        &items[i]
    }
    /// index drawn with the given weights; the first entry is the simplest
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut v = self.below(total as u64) as u32;
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        weights.len() - 1
    }
}
