//! Choice tapes: every generated value is a function of a sequence of choices, option 0 being the
//! plainest one. This gives (1) exhaustive enumeration of everything within k non-default choices,
//! (2) seeded random exploration and (3) replay of a single case from the recorded choices.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
}

pub struct G {
    tape: Vec<u32>,
    rng: Option<(Rng, u64)>,
    rnd: bool,
    /// choices are not offered: the default
    quiet: usize,
    /// collect a human-readable description of the case
    pub verbose: bool,
    pub desc: Vec<String>,
    /// crash journal of this thread (see `note`)
    pub journal: Option<std::sync::Arc<std::fs::File>>,
    /// (choice, arity) of every choice point met
    pub trace: Vec<(u32, u32)>,
}

impl G {
    pub fn from_tape(tape: &[u32]) -> Self {
        G { tape: tape.to_vec(), rng: None, rnd: false, quiet: 0, verbose: false, desc: Vec::new(), journal: None, trace: Vec::new() }
    }
    /// Replay of a recorded case (`rnd`: it came from random mode).
    pub fn replay(tape: &[u32], rnd: bool) -> Self {
        G { tape: tape.to_vec(), rng: None, rnd, quiet: 0, verbose: true, desc: Vec::new(), journal: None, trace: Vec::new() }
    }
    /// Random tape; `percent` is the probability of deviating from the default at each point.
    pub fn random(rng: Rng, percent: u64) -> Self {
        G { tape: Vec::new(), rng: Some((rng, percent)), rnd: true, quiet: 0, verbose: false, desc: Vec::new(), journal: None, trace: Vec::new() }
    }
    /// Start journaling: header `[rnd u32][number of choices u32]`, then the choices.
    pub fn note(&mut self, f: &std::sync::Arc<std::fs::File>, rnd: bool) {
        use std::os::unix::fs::FileExt;
        let mut h = [0u8; 8];
        h[0] = rnd as u8;
        let _ = f.write_at(&h, 0);
        self.journal = Some(f.clone());
    }
    pub fn tape(&self) -> &[u32] {
        &self.tape
    }
    pub fn is_random(&self) -> bool {
        self.rnd
    }
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.desc.push(f());
        }
    }

    /// Choose one of `n` options. Option 0 is the default.
    pub fn choose(&mut self, n: usize) -> usize {
        let n = n.max(1);
        if self.quiet > 0 {
            return 0;
        }
        let c = if let Some((rng, percent)) = &mut self.rng {
            if n > 1 && rng.next() % 100 < *percent { rng.below(n) } else { 0 }
        } else {
            let c = self.tape.get(self.trace.len()).copied().unwrap_or(0) as usize;
            c.min(n - 1)
        };
        self.trace.push((c as u32, n as u32));
        if let Some(f) = &self.journal {
            use std::os::unix::fs::FileExt;
            let i = self.trace.len() as u32;
            let _ = f.write_at(&(c as u32).to_le_bytes(), 8 + 4 * (i as u64 - 1));
            let _ = f.write_at(&i.to_le_bytes(), 4);
        }
        c
    }
    /// A position: uniform in random mode (not biased to 0).
    pub fn spread(&mut self, n: usize) -> usize {
        let saved = self.rng.as_mut().map(|r| std::mem::replace(&mut r.1, 100));
        let c = self.choose(n);
        if let (Some(p), Some(r)) = (saved, self.rng.as_mut()) {
            r.1 = p;
        }
        c
    }
    /// A flag, less often in random mode.
    pub fn rare(&mut self) -> bool {
        if self.rnd { self.choose(6) == 1 } else { self.flag() }
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.choose(xs.len())].clone()
    }
    pub fn opt<T>(&mut self, f: impl FnOnce(&mut G) -> T) -> Option<T> {
        if self.flag() { Some(f(self)) } else { None }
    }
    /// 0..=max elements, or many
    pub fn vec0<T>(&mut self, max: usize, f: impl FnMut(&mut G) -> T) -> Vec<T> {
        let n = self.choose(max + 2);
        self.some(n, max, f)
    }
    /// 1..=max elements, or many
    pub fn vec1<T>(&mut self, max: usize, f: impl FnMut(&mut G) -> T) -> Vec<T> {
        let n = 1 + self.choose(max + 1);
        self.some(n, max, f)
    }
    fn some<T>(&mut self, n: usize, max: usize, mut f: impl FnMut(&mut G) -> T) -> Vec<T> {
        if n <= max {
            return (0..n).map(|_| f(self)).collect();
        }
        // All but the first and the last are as they come.
        let many = if self.rnd { 4 + self.choose(14) } else { 12 };
        (0..many)
            .map(|i| {
                let quiet = i > 0 && i + 1 < many && !self.rnd;
                self.quiet += quiet as usize;
                let x = f(self);
                self.quiet -= quiet as usize;
                x
            })
            .collect()
    }
    pub fn choices(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self.trace.iter().map(|(c, _)| *c).collect();
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    }
}

/// Outcome of an enumeration.
#[derive(Default, Clone, Debug)]
pub struct Explored {
    pub cases: u64,
    pub complete: bool,
}

/// Enumerate every value of `f` reachable with at most `depth` non-default choices. Complete unless
/// the deepest layer is estimated to exceed `cap`; then that layer (only) is sampled evenly with
/// `seed`. Stops when `f` returns `false`.
pub fn enumerate(depth: usize, cap: u64, seed: u64, f: &mut dyn FnMut(&mut G) -> bool) -> Explored {
    let mut ex = Explored { cases: 0, complete: true };
    let mut g = G::from_tape(&[]);
    ex.cases += 1;
    if !f(&mut g) {
        ex.complete = false;
        return ex;
    }
    let trace = g.trace;
    let n1: f64 = trace.iter().map(|(_, a)| (*a as f64) - 1.0).sum();
    let mut rng = Rng::new(seed);
    // keep[r] = how many in 2^32 of the deviations that leave `r` further ones are explored
    let mut keep = vec![1u64 << 32; depth + 1];
    let mut est = n1;
    for d in 2..=depth {
        est = est * n1.max(8.0) * 1.5 / d as f64;
        if est > cap as f64 {
            let k = (cap as f64 / est * 4294967296.0) as u64;
            keep[depth - d] = k.max(1);
            ex.complete = false;
            est = cap as f64;
        }
    }
    fn go(
        tape: &[u32],
        trace: &[(u32, u32)],
        rem: usize,
        from: usize,
        keep: &[u64],
        rng: &mut Rng,
        ex: &mut Explored,
        f: &mut dyn FnMut(&mut G) -> bool,
    ) -> bool {
        for p in from..trace.len() {
            for c in 1..trace[p].1 {
                if keep[rem - 1] < 1 << 32 && (rng.next() & 0xffff_ffff) >= keep[rem - 1] {
                    continue;
                }
                let mut t = tape.to_vec();
                t.resize(p, 0);
                t.push(c);
                let mut g = G::from_tape(&t);
                ex.cases += 1;
                if !f(&mut g) {
                    return false;
                }
                if rem > 1 {
                    let tr = std::mem::take(&mut g.trace);
                    if !go(&t, &tr, rem - 1, p + 1, keep, rng, ex, f) {
                        return false;
                    }
                }
            }
        }
        true
    }
    if depth > 0 && !go(&[], &trace, depth, 0, &keep, &mut rng, &mut ex, f) {
        ex.complete = false;
    }
    ex
}

/// Enumerate the complete tree of choices in lexicographic order (up to `cap` cases).
pub fn enumerate_full(cap: u64, f: &mut dyn FnMut(&mut G) -> bool) -> Explored {
    let mut ex = Explored { cases: 0, complete: false };
    let mut tape: Vec<u32> = Vec::new();
    while ex.cases < cap {
        let mut g = G::from_tape(&tape);
        ex.cases += 1;
        if !f(&mut g) {
            return ex;
        }
        let mut tr = std::mem::take(&mut g.trace);
        while let Some((c, a)) = tr.last().copied() {
            if c + 1 < a {
                break;
            }
            tr.pop();
        }
        match tr.last_mut() {
            None => {
                ex.complete = true;
                return ex;
            }
            Some(l) => l.0 += 1,
        }
        tape = tr.iter().map(|x| x.0).collect();
    }
    ex
}
