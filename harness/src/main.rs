#![allow(dead_code, unused_imports)]
//! Executable contracts on the real crates (bounded layer). See /verif/DESIGN.md.
mod genv;
mod known;
mod p_codec;
mod p_frag;
mod p_seq;
mod p_types;
mod spec;
mod tape;

use std::{
    collections::HashSet,
    fmt::Write as _,
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, AtomicUsize, Ordering},
    },
    time::{Duration, Instant},
};

use tape::*;

/// `Ok(Some(h))`: held, non-trivial case with identity `h`; `Ok(None)`: held trivially; `Err`: broken.
pub type R = Result<Option<u64>, String>;
pub type Case = Box<dyn Fn(&mut G) -> R + Send + Sync>;

#[derive(Clone, Copy)]
pub enum Mode {
    /// every case with at most `depth` non-default choices (deepest layer sampled above `cap`)
    Dev { depth: usize, cap: u64 },
    /// the complete tree of choices
    Full { cap: u64 },
    /// none (random only)
    No,
}
pub struct Group {
    pub name: String,
    pub mode: Mode,
    /// number of seeded random cases
    pub random: u64,
    pub f: Case,
}
impl Group {
    pub fn new(name: impl Into<String>, mode: Mode, random: u64, f: impl Fn(&mut G) -> R + Send + Sync + 'static) -> Self {
        Group { name: name.into(), mode, random, f: Box::new(f) }
    }
}

pub fn hash(x: &impl std::hash::Hash) -> Option<u64> {
    use std::hash::{BuildHasher, BuildHasherDefault, DefaultHasher};
    Some(BuildHasherDefault::<DefaultHasher>::default().hash_one(x))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}

fn groups(prop: &str) -> Vec<Group> {
    let mut v = Vec::new();
    p_frag::groups(prop, &mut v);
    p_types::groups(prop, &mut v);
    p_seq::groups(prop, &mut v);
    p_codec::groups(prop, &mut v);
    v
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run_case(f: &Case, g: &mut G) -> R {
    match catch_unwind(AssertUnwindSafe(|| f(g))) {
        Ok(r) => r,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panic: {m}"))
        }
    }
}

struct Violation {
    group: String,
    tape: Vec<u32>,
    rnd: bool,
    message: String,
    case: String,
}

#[derive(Default)]
struct Outcome {
    evaluations: u64,
    distinct: u64,
    lines: Vec<String>,
    samples: Vec<String>,
    violations: Vec<Violation>,
}

/// Greedy shrinking of a failing tape.
fn shrink(f: &Case, tape: Vec<u32>, rnd: bool) -> (Vec<u32>, String, String) {
    let deadline = Instant::now() + Duration::from_secs(5);
    let fails = |t: &[u32]| {
        let mut g = G::replay(t, rnd);
        g.verbose = false;
        run_case(f, &mut g).err().map(|_| g.choices())
    };
    let mut best = tape;
    let mut progress = true;
    while progress && Instant::now() < deadline {
        progress = false;
        let mut i = 0;
        while i < best.len() && Instant::now() < deadline {
            for cand in [0, best[i] / 2, best[i].saturating_sub(1)] {
                if cand < best[i] {
                    let mut t = best.clone();
                    t[i] = cand;
                    if let Some(c) = fails(&t) {
                        if c.len() < best.len() || (c.len() == best.len() && c < best) {
                            best = c;
                            progress = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        for n in [best.len() / 2, best.len().saturating_sub(1)] {
            if n < best.len() {
                if let Some(c) = fails(&best[..n]) {
                    if c.len() < best.len() {
                        best = c;
                        progress = true;
                    }
                }
            }
        }
    }
    let mut g = G::replay(&best, rnd);
    let m = run_case(f, &mut g).err().unwrap_or_else(|| "not reproducible".into());
    (best, m, g.desc.join("; "))
}

struct Slot {
    since: Instant,
    group: String,
    tape: Option<(Vec<u32>, bool)>,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let prop = args.get(2).cloned().unwrap_or_default();
    std::panic::set_hook(Box::new(|_| {}));
    match args.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let group = opt("--group").unwrap();
            let tape: Vec<u32> = opt("--tape").unwrap().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            let rnd = opt("--rnd").as_deref() == Some("1");
            let gs = groups(&prop);
            let Some(gr) = gs.iter().find(|x| x.name == group) else {
                eprintln!("no such group");
                std::process::exit(2)
            };
            let mut g = G::replay(&tape, rnd);
            let r = run_case(&gr.f, &mut g);
            println!("case: {}", g.desc.join("; "));
            match r {
                Ok(_) => println!("held"),
                Err(m) => {
                    println!("BROKEN: {m}");
                    std::process::exit(1)
                }
            }
        }
        Some("known") => {
            // probes for the listed known findings: prints `id<TAB>text` for those that still fail
            for (id, text) in known::probes(&prop) {
                println!("{id}\t{text}");
            }
        }
        Some("list") => {
            for g in groups(&prop) {
                println!("{}", g.name);
            }
        }
        Some("run") => run(&prop, opt("--scale").map(|s| s.parse().unwrap()).unwrap_or(1.0), opt("--seed").map(|s| s.parse().unwrap()).unwrap_or(1), opt("--out").unwrap(), opt("--journal"), opt("--budget").map(|s| s.parse().unwrap()).unwrap_or(120.0)),
        _ => {
            eprintln!("usage: vharness run|replay|list PROP ...");
            std::process::exit(2)
        }
    }
}

fn run(prop: &str, scale: f64, seed: u64, out: String, journal: Option<String>, budget: f64) {
    let start = Instant::now();
    let gs = Arc::new(groups(prop));
    // unit of work: (group, part). The systematic part of a group is one unit, its random part several.
    let mut units: Vec<(usize, u32)> = Vec::new();
    const RPARTS: u32 = 4;
    for (i, g) in gs.iter().enumerate() {
        if !matches!(g.mode, Mode::No) {
            units.push((i, 0));
        }
        if g.random > 0 {
            for k in 0..RPARTS {
                units.push((i, 1 + k));
            }
        }
    }
    let units = Arc::new(units);
    let next = Arc::new(AtomicUsize::new(0));
    let outcome = Arc::new(Mutex::new(Outcome::default()));
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let slots: Arc<Vec<Mutex<Slot>>> = Arc::new((0..nthreads).map(|_| Mutex::new(Slot { since: Instant::now(), group: String::new(), tape: None })).collect());
    let done = Arc::new(AtomicBool::new(false));
    // watchdog: a case that does not come back ends the run with status 97; the driver then repeats
    // the run with a journal to find out which case it was
    {
        let (slots, done) = (slots.clone(), done.clone());
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(500));
                if done.load(Ordering::SeqCst) {
                    return;
                }
                for s in slots.iter() {
                    let s = s.lock().unwrap();
                    if let Some((t, rnd)) = &s.tape {
                        if s.since.elapsed() > Duration::from_secs(30) {
                            eprintln!("no answer within 30 s in {} {t:?} {rnd}", s.group);
                            std::process::exit(97);
                        }
                    }
                }
            }
        });
    }
    let mut hs = Vec::new();
    for tid in 0..nthreads {
        let (gs, units, next, outcome, slots, journal) = (gs.clone(), units.clone(), next.clone(), outcome.clone(), slots.clone(), journal.clone());
        let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            loop {
                let u = next.fetch_add(1, Ordering::SeqCst);
                if u >= units.len() {
                    return;
                }
                let (gi, part) = units[u];
                let gr = &gs[gi];
                let mut seen: HashSet<u64> = HashSet::new();
                let mut viol: Option<Violation> = None;
                let mut samples = Vec::new();
                let mut n = 0u64;
                let mut timed_out = false;
                let jfile = journal.as_ref().map(|d| {
                    std::fs::write(format!("{d}/{tid}.group"), &gr.name).unwrap();
                    Arc::new(std::fs::File::create(format!("{d}/{tid}.tape")).unwrap())
                });
                {
                    let mut one = |g: &mut G, rnd: bool| -> bool {
                        n += 1;
                        if n % 256 == 0 && start.elapsed().as_secs_f64() > budget {
                            timed_out = true;
                            return false;
                        }
                        if samples.len() < 2 && (n == 1 || n == 7) && part <= 1 {
                            g.verbose = true;
                        }
                        let r = run_case(&gr.f, g);
                        if g.verbose {
                            samples.push(format!("{}: {}", gr.name, g.desc.join("; ")));
                        }
                        match r {
                            Ok(Some(h)) => {
                                if seen.len() < 2_000_000 {
                                    seen.insert(h);
                                }
                                true
                            }
                            Ok(None) => true,
                            Err(_) => {
                                let (tape, message, case) = shrink(&gr.f, g.choices(), rnd);
                                viol = Some(Violation { group: gr.name.clone(), tape, rnd, message, case });
                                false
                            }
                        }
                    };
                    let mut complete = true;
                    let mark = |t: &[u32], rnd: bool, force: bool| {
                        if force {
                            let mut s = slots[tid].lock().unwrap();
                            s.since = Instant::now();
                            s.group = gr.name.clone();
                            s.tape = Some((t.to_vec(), rnd));
                        }
                    };
                    if part == 0 {
                        let mut k = 0u64;
                        let mut f = |g: &mut G| {
                            if let Some(f) = &jfile {
                                g.note(f, false);
                            }
                            mark(g.tape(), false, k % 64 == 0 || jfile.is_some());
                            k += 1;
                            one(g, false)
                        };
                        let ex = match gr.mode {
                            Mode::Dev { depth, cap } => enumerate(depth, (cap as f64 * scale) as u64, seed, &mut f),
                            Mode::Full { cap } => enumerate_full((cap as f64 * scale.max(1.0)) as u64, &mut f),
                            Mode::No => Explored::default(),
                        };
                        complete = ex.complete;
                    } else {
                        let total = (gr.random as f64 * scale) as u64 / RPARTS as u64 + 1;
                        let mut rng = Rng::new(seed.wrapping_mul(1000003) ^ ((gi as u64) << 8) ^ part as u64);
                        for i in 0..total {
                            let percent = [8, 20, 40, 70, 95][(i % 5) as usize];
                            let sub = Rng::new(rng.next());
                            if i % 64 == 0 || jfile.is_some() {
                                // random cases are recorded by their drawn tape
                                let mut s = slots[tid].lock().unwrap();
                                s.since = Instant::now();
                                s.group = gr.name.clone();
                                s.tape = Some((Vec::new(), true));
                            }
                            let mut g = G::random(sub, percent);
                            if let Some(f) = &jfile {
                                g.note(f, true);
                            }
                            if !one(&mut g, true) {
                                break;
                            }
                        }
                    }
                    slots[tid].lock().unwrap().tape = None;
                    let _ = complete;
                    let mut o = outcome.lock().unwrap();
                    o.evaluations += n;
                    o.distinct += seen.len() as u64;
                    let kind = if part == 0 {
                        match gr.mode {
                            Mode::Dev { depth, .. } => format!("all cases with at most {depth} deviations"),
                            _ => "complete enumeration".to_string(),
                        }
                    } else {
                        "seeded random".to_string()
                    };
                    if part <= 1 {
                        o.lines.push(format!("{}: {} ({}{})", gr.name, n, kind, if part != 0 || (complete && !timed_out) { "" } else { ", sampled" }));
                    }
                    if o.samples.len() < 12 {
                        o.samples.extend(samples);
                    }
                    if let Some(v) = viol {
                        o.violations.push(v);
                    }
                }
            }
        });
        hs.push(h.unwrap());
    }
    for h in hs {
        h.join().unwrap();
    }
    done.store(true, Ordering::SeqCst);
    let o = outcome.lock().unwrap();
    write_out(prop, &out, &o, start.elapsed().as_secs_f64());
    std::process::exit(if o.violations.is_empty() { 0 } else { 1 });
}

fn write_out(prop: &str, out: &str, o: &Outcome, wall: f64) {
    let mut s = String::new();
    let list = |v: &[String]| v.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",");
    write!(
        s,
        "{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"wall_s\":{:.2},\"groups\":[{}],\"samples\":[{}],\"violations\":[",
        json_str(prop),
        o.evaluations,
        o.distinct,
        wall,
        list(&o.lines),
        list(&o.samples)
    )
    .unwrap();
    for (i, v) in o.violations.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let t: Vec<String> = v.tape.iter().map(|x| x.to_string()).collect();
        write!(
            s,
            "{{\"group\":{},\"tape\":[{}],\"rnd\":{},\"message\":{},\"case\":{}}}",
            json_str(&v.group),
            t.join(","),
            v.rnd as u8,
            json_str(&v.message),
            json_str(&v.case)
        )
        .unwrap();
    }
    s.push_str("]}");
    std::fs::write(out, s).unwrap();
}
