//! Choice sequences: every random decision of a case is one recorded number, so that a case can
//! be replayed from its numbers and shrunk by editing them. 0 is always the simplest choice.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut r = Rng::new(0x1234_5678);
    let mut acc = 0u64;
    for p in parts {
        r.0 = r.0 ^ p.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        acc ^= r.next();
        r.0 = r.0.wrapping_add(acc);
    }
    r.next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub struct Src {
    rng: Option<Rng>,
    given: Vec<u64>,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), given: Vec::new(), rec: Vec::new() }
    }
    pub fn replay(given: Vec<u64>) -> Self {
        Src { rng: None, given, rec: Vec::new() }
    }
    fn raw(&mut self) -> u64 {
        match &mut self.rng {
            Some(r) => r.next(),
            None => self.given.get(self.rec.len()).copied().unwrap_or(0),
        }
    }
    /// A number below `n` (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        let v = self.raw() % n.max(1);
        self.rec.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn u64(&mut self) -> u64 {
        let v = self.raw();
        self.rec.push(v);
        v
    }
    /// true with probability num/den; false is the simple choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.below(den);
        v >= den - num.min(den)
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.idx(items.len())]
    }
    /// weighted choice of an index
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.idx(hi - lo + 1)
    }
    /// heavy tailed small number
    pub fn small(&mut self, max: usize) -> usize {
        let cap = match self.below(16) {
            0..=4 => 1,
            5..=10 => 2,
            11..=13 => 4,
            14 => 8,
            _ => max,
        };
        self.idx(cap.min(max) + 1)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.idx(i + 1); // 0 keeps the order
            v.swap(i, j);
        }
    }
}

/// Shrinks a failing choice sequence. `fails` reruns a candidate and returns the recorded choices
/// if it still fails.
pub fn shrink(
    start: Vec<u64>,
    budget: usize,
    mut fails: impl FnMut(Vec<u64>) -> Option<Vec<u64>>,
) -> Vec<u64> {
    fn better(a: &[u64], b: &[u64]) -> bool {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    }
    let mut best = start;
    let mut left = budget;
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if left == 0 {
                    return best;
                }
                let mut cand = best.clone();
                let end = (i + size).min(cand.len());
                cand.drain(i..end);
                left -= 1;
                match fails(cand) {
                    Some(rec) if better(&rec, &best) => best = rec,
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    if left == 0 {
                        return best;
                    }
                    let mut cand = best.clone();
                    cand[i..end].iter_mut().for_each(|v| *v = 0);
                    left -= 1;
                    if let Some(rec) = fails(cand) {
                        if better(&rec, &best) {
                            best = rec;
                        }
                    }
                }
                i += size;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            let mut hi = best[i];
            let mut steps = 0;
            while lo < hi && steps < 12 {
                if left == 0 {
                    return best;
                }
                steps += 1;
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                left -= 1;
                match fails(cand) {
                    Some(rec) if better(&rec, &best) => {
                        best = rec;
                        if i >= best.len() {
                            break;
                        }
                        hi = best[i].min(mid);
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}
