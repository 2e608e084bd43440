//! Sequence sets: C10 iteration, C11 conversions, C12 normalization and order.
use std::{cmp::Ordering, num::NonZeroU32};

use imap_codec::{CommandCodec, decode::Decoder, encode::Encoder};
use imap_types::{
    command::{Command, CommandBody},
    core::Vec1,
    fetch::Macro,
    sequence::{SeqOrUid, Sequence, SequenceSet},
};

use crate::{Group, Mode, R, ensure, genv, hash, tape::G};

const TOP: u64 = u32::MAX as u64;

fn val(x: &SeqOrUid, largest: u64) -> u64 {
    match x {
        SeqOrUid::Value(n) => n.get() as u64,
        SeqOrUid::Asterisk => largest,
    }
}
/// inclusive (a, b) in the given direction
fn pair(s: &Sequence, largest: u64) -> (u64, u64) {
    match s {
        Sequence::Single(a) => (val(a, largest), val(a, largest)),
        Sequence::Range(a, b) => (val(a, largest), val(b, largest)),
    }
}
/// The set of numbers as sorted, disjoint, non-adjacent inclusive intervals clipped to `1..=clip`.
fn denote(s: &SequenceSet, largest: u64, clip: u64) -> Vec<(u64, u64)> {
    let mut v: Vec<(u64, u64)> = s
        .0
        .as_ref()
        .iter()
        .map(|x| {
            let (a, b) = pair(x, largest);
            (a.min(b), a.max(b).min(clip))
        })
        .filter(|(a, b)| a <= b)
        .collect();
    v.sort();
    let mut o: Vec<(u64, u64)> = Vec::new();
    for (a, b) in v {
        match o.last_mut() {
            Some(l) if a <= l.1 + 1 => l.1 = l.1.max(b),
            _ => o.push((a, b)),
        }
    }
    o
}

fn num(g: &mut G) -> u32 {
    if g.is_random() && g.flag() {
        return genv::nz32(g).get();
    }
    g.pick(&[1, 2, 3, 4, 5, 6, 8, 10, u32::MAX - 1, u32::MAX, u32::MAX - 2, 100])
}
fn any_id(g: &mut G) -> SeqOrUid {
    let c = g.choose(8);
    if c == 7 { SeqOrUid::Asterisk } else if c < 5 { SeqOrUid::Value(NonZeroU32::new(c as u32 + 1).unwrap()) } else { SeqOrUid::Value(NonZeroU32::new(num(g)).unwrap()) }
}
fn any_seq(g: &mut G) -> Sequence {
    if g.flag() { Sequence::Range(any_id(g), any_id(g)) } else { Sequence::Single(any_id(g)) }
}
fn any_set(g: &mut G, max: usize) -> SequenceSet {
    SequenceSet(Vec1::try_from(g.vec1(max, any_seq)).unwrap())
}

fn check_iter(s: &SequenceSet, largest: u32) -> R {
    const N: usize = 3000;
    let l = NonZeroU32::new(largest).unwrap();
    let want = denote(s, largest as u64, u64::MAX);
    let expect: Vec<u32> = want.iter().flat_map(|(a, b)| *a..=*b).take(N).map(|x| x as u32).collect();
    let got: Vec<u32> = s.iter(l).take(N).map(|x| x.get()).collect();
    ensure!(got == expect, "iterating {s:?} with largest {largest} gives {:?}, expected {:?}", &got[..got.len().min(30)], &expect[..expect.len().min(30)]);
    // in the order and direction written, duplicates included
    let naive: Vec<u32> = s
        .0
        .as_ref()
        .iter()
        .flat_map(|x| {
            let (a, b) = pair(x, largest as u64);
            let it: Box<dyn Iterator<Item = u64>> = if a <= b { Box::new(a..=b) } else { Box::new((b..=a).rev()) };
            it
        })
        .take(N)
        .map(|x| x as u32)
        .collect();
    let got: Vec<u32> = s.iter_naive(l).take(N).map(|x| x.get()).collect();
    ensure!(got == naive, "naively iterating {s:?} with largest {largest} gives {:?}, expected {:?}", &got[..got.len().min(30)], &naive[..naive.len().min(30)]);
    Ok(hash(&(format!("{s:?}"), largest)))
}

/// `*` and the largest 32-bit number are the same thing to this API.
fn starred(s: &SequenceSet) -> SequenceSet {
    let id = |x: SeqOrUid| match x {
        SeqOrUid::Value(n) if n == NonZeroU32::MAX => SeqOrUid::Asterisk,
        x => x,
    };
    let v: Vec<Sequence> = s
        .0
        .as_ref()
        .iter()
        .map(|x| match *x {
            Sequence::Single(a) => Sequence::Single(id(a)),
            Sequence::Range(a, b) => Sequence::Range(id(a), id(b)),
        })
        .collect();
    SequenceSet::try_from(v).unwrap()
}
fn check_normalize(s: &SequenceSet, largest: u32) -> R {
    let s = &starred(s);
    let mut n = s.clone();
    n.normalize();
    // `*` and the largest 32-bit number are the same thing to this API, hence `largest < MAX`
    let l = (largest as u64).min(TOP - 1);
    let (before, after) = (denote(s, l, l), denote(&n, l, l));
    ensure!(before == after, "normalizing {s:?} gives {n:?}: for a mailbox with {l} messages it selected {before:?} and now {after:?}");
    let (before, after) = (denote(s, TOP, TOP), denote(&n, TOP, TOP));
    ensure!(before == after, "normalizing {s:?} gives {n:?}: it selected {before:?} and now {after:?}");
    // normal form: sorted, disjoint, ranges really are ranges; idempotent
    let mut last = 0;
    for x in n.0.as_ref() {
        let (a, b) = pair(x, TOP);
        ensure!(a <= b && a > last, "normal form {n:?} of {s:?} is not sorted");
        ensure!(last == 0 || a > last + 1, "normal form {n:?} of {s:?} is not merged");
        ensure!(a < b || matches!(x, Sequence::Single(_)), "normal form {n:?} of {s:?} has a one-element range");
        last = b;
    }
    let mut nn = n.clone();
    nn.normalize();
    ensure!(nn == n, "normalizing twice gives {nn:?} then {n:?}");
    // one sequence
    for x in s.0.as_ref() {
        let mut y = x.clone();
        y.normalize();
        let (a, b) = pair(x, TOP);
        let (c, d) = pair(&y, TOP);
        ensure!(c == a.min(b) && d == a.max(b), "normalizing {x:?} gives {y:?}");
    }
    // what is sent selects the same messages
    let cmd = CommandBody::fetch(s.clone(), Macro::Fast, true).map_err(|e| format!("{e:?}"))?.tag("A").unwrap();
    let wire = CommandCodec::default().encode(&cmd).dump();
    match CommandCodec::default().decode(&wire) {
        Ok((_, Command { body: CommandBody::Fetch { sequence_set, .. }, .. })) => {
            let (before, after) = (denote(s, l, l), denote(&sequence_set, l, l));
            ensure!(before == after, "{s:?} is sent as {}: for a mailbox with {l} messages it selected {before:?}, received {after:?}", wire.escape_ascii());
            let (before, after) = (denote(s, TOP, TOP), denote(&sequence_set, TOP, TOP));
            ensure!(before == after, "{s:?} is sent as {}", wire.escape_ascii());
        }
        r => return Err(format!("{s:?} sent as {} is read back as {r:?}", wire.escape_ascii())),
    }
    Ok(if s.0.as_ref().len() > 1 { hash(&(format!("{s:?}"), largest)) } else { None })
}

fn check_order(g: &mut G) -> R {
    let (a, b, c) = (any_id(g), any_id(g), any_id(g));
    let k = |x: &SeqOrUid| match x {
        SeqOrUid::Value(n) => n.get() as u64,
        SeqOrUid::Asterisk => u64::MAX,
    };
    g.say(|| format!("{a:?} {b:?} {c:?}"));
    ensure!(a.cmp(&b) == k(&a).cmp(&k(&b)) && a.partial_cmp(&b) == Some(k(&a).cmp(&k(&b))), "order of {a:?} and {b:?}");
    ensure!((a == b) == (k(&a) == k(&b)), "equality of {a:?} and {b:?}");
    ensure!(a.to_non_zero_u32().get() as u64 == val(&a, TOP), "value of {a:?}");
    let l = NonZeroU32::new(num(g)).unwrap();
    ensure!(a.expand(l).get() as u64 == val(&a, l.get() as u64), "expansion of {a:?} with {l}");
    let (x, y) = (any_seq(g), any_seq(g));
    let lo_hi = |s: &Sequence| match s {
        Sequence::Single(a) => (k(a), k(a)),
        Sequence::Range(a, b) => (k(a).min(k(b)), k(a).max(k(b))),
    };
    let ((a1, a2), (b1, b2)) = (lo_hi(&x), lo_hi(&y));
    let got = x.partial_cmp(&y);
    ensure!((got == Some(Ordering::Less)) == (a2 < b1), "{x:?} < {y:?} is {got:?}");
    ensure!((got == Some(Ordering::Greater)) == (a1 > b2), "{x:?} > {y:?} is {got:?}");
    ensure!(got != Some(Ordering::Equal) || (a1, a2) == (b1, b2), "{x:?} equals {y:?}");
    Ok(hash(&format!("{a:?}{b:?}{x:?}{y:?}")))
}

/// grammar: nz-number = digit-nz *DIGIT, below 2^32; `*`
fn parse_id(s: &str) -> Option<SeqOrUid> {
    if s == "*" {
        return Some(SeqOrUid::Asterisk);
    }
    if s.is_empty() || s.starts_with('0') || !s.bytes().all(|b| b.is_ascii_digit()) || s.len() > 10 {
        return None;
    }
    let n: u64 = s.bytes().fold(0, |n, b| n * 10 + (b - b'0') as u64);
    if n > TOP { None } else { NonZeroU32::new(n as u32).map(SeqOrUid::Value) }
}
fn parse_seq(s: &str) -> Option<Sequence> {
    let p: Vec<&str> = s.split(':').collect();
    match p.as_slice() {
        [a] => Some(Sequence::Single(parse_id(a)?)),
        [a, b] => Some(Sequence::Range(parse_id(a)?, parse_id(b)?)),
        _ => None,
    }
}
fn parse_set(s: &str) -> Option<SequenceSet> {
    let v: Option<Vec<Sequence>> = s.split(',').map(parse_seq).collect();
    SequenceSet::try_from(v?).ok()
}
fn check_text(s: &str) -> R {
    ensure!(SeqOrUid::try_from(s).ok() == parse_id(s) && s.parse::<SeqOrUid>().ok() == parse_id(s), "number {s:?} is read as {:?}", SeqOrUid::try_from(s));
    ensure!(Sequence::try_from(s).ok() == parse_seq(s) && s.parse::<Sequence>().ok() == parse_seq(s), "sequence {s:?} is read as {:?}", Sequence::try_from(s));
    let want = parse_set(s);
    ensure!(SequenceSet::try_from(s).ok() == want && s.parse::<SequenceSet>().ok() == want, "sequence set {s:?} is read as {:?}", SequenceSet::try_from(s));
    // the codec reads every such text the same way (it is more lenient about leading zeros)
    let line = format!("A UID FETCH {s} FAST\r\n");
    let got = match CommandCodec::default().decode(line.as_bytes()) {
        Ok((_, Command { body: CommandBody::Fetch { sequence_set, .. }, .. })) => Some(sequence_set),
        _ => None,
    };
    ensure!(want.is_none() || got == want, "{line:?} is read as {got:?}, expected {want:?}");
    if s.bytes().all(|b| !b.is_ascii_digit()) || !s.bytes().all(|b| b.is_ascii_digit() || b"*:,".contains(&b)) {
        ensure!(got == want, "{line:?} is read as {got:?}, expected {want:?}");
    }
    Ok(want.and_then(|_| hash(&s)))
}

/// The written meaning of a conversion from a Rust range: exactly the ids in the range.
fn want_range(a: i128, b: i128) -> Option<(u64, u64)> {
    if a >= 1 && b >= 1 && a <= TOP as i128 && b <= TOP as i128 { Some((a as u64, b as u64)) } else { None }
}
fn check_num(g: &mut G) -> R {
    let pick = |g: &mut G| -> i128 {
        if g.is_random() && g.flag() {
            return genv::u64v(g) as i128;
        }
        g.pick(&[1, 2, 5, 0, -1, 100, 126, 127, 128, 254, 255, 256, 32766, 32767, 32768, 65534, 65535, 65536, i32::MAX as i128 - 1, i32::MAX as i128, i32::MAX as i128 + 1, TOP as i128 - 1, TOP as i128, TOP as i128 + 1, i64::MAX as i128, u64::MAX as i128, i64::MIN as i128, -128, -32768, -100])
    };
    let (x, y) = (pick(g), pick(g));
    g.say(|| format!("{x} {y}"));
    macro_rules! t {
        ($($T:ty),*) => {$(
            if let Ok(n) = <$T>::try_from(x) {
                let want = want_range(x, x).map(|p| p.0);
                ensure!(SeqOrUid::try_from(n).ok().map(|v| val(&v, TOP)) == want, "{n} as {}: {:?}", stringify!($T), SeqOrUid::try_from(n));
                ensure!(Sequence::try_from(n).ok().map(|v| pair(&v, TOP)) == want.map(|w| (w, w)), "{n} as {}: {:?}", stringify!($T), Sequence::try_from(n));
                ensure!(SequenceSet::try_from(n).ok().map(|v| denote(&v, TOP, TOP)) == want.map(|w| vec![(w, w)]), "{n} as {}: {:?}", stringify!($T), SequenceSet::try_from(n));
                // `n..` is open-ended: up to and including the largest existing one
                let w = want.map(|w| (w, u64::MAX));
                let p = |s: Sequence| match s { Sequence::Range(a, SeqOrUid::Asterisk) => (val(&a, TOP), u64::MAX), other => pair(&other, TOP) };
                ensure!(Sequence::try_from(n..).ok().map(p) == w, "{n}.. as {}: {:?}", stringify!($T), Sequence::try_from(n..));
                ensure!(SequenceSet::try_from(n..).ok().map(|s| p(s.0.as_ref()[0].clone())) == w, "{n}.. as {}", stringify!($T));
                if x >= 1 {
                    let w = want.map(|w| (1, w));
                    ensure!(Sequence::try_from(..=n).ok().map(|v| pair(&v, TOP)) == w, "..={n} as {}: {:?}", stringify!($T), Sequence::try_from(..=n));
                    ensure!(SequenceSet::try_from(..=n).ok().map(|v| pair(&v.0.as_ref()[0], TOP)) == w, "..={n} as {}", stringify!($T));
                }
                if x >= 2 {
                    let w = want_range(1, x - 1);
                    ensure!(Sequence::try_from(..n).ok().map(|v| pair(&v, TOP)) == w, "..{n} as {}: {:?}", stringify!($T), Sequence::try_from(..n));
                    ensure!(SequenceSet::try_from(..n).ok().map(|v| pair(&v.0.as_ref()[0], TOP)) == w, "..{n} as {}", stringify!($T));
                }
                if let Ok(m) = <$T>::try_from(y) {
                    if x <= y {
                        let w = want_range(x, y);
                        ensure!(Sequence::try_from(n..=m).ok().map(|v| pair(&v, TOP)) == w, "{n}..={m} as {}: {:?}", stringify!($T), Sequence::try_from(n..=m));
                        ensure!(SequenceSet::try_from(n..=m).ok().map(|v| pair(&v.0.as_ref()[0], TOP)) == w, "{n}..={m} as {}", stringify!($T));
                    }
                    if x < y {
                        let w = want_range(x, y - 1);
                        ensure!(Sequence::try_from(n..m).ok().map(|v| pair(&v, TOP)) == w, "{n}..{m} as {}: {:?}", stringify!($T), Sequence::try_from(n..m));
                        ensure!(SequenceSet::try_from(n..m).ok().map(|v| pair(&v.0.as_ref()[0], TOP)) == w, "{n}..{m} as {}", stringify!($T));
                    }
                    let w = want_range(x, y).map(|_| vec![(x as u64, x as u64), (y as u64, y as u64)]);
                    let l: &[$T] = &[n, m];
                    ensure!(SequenceSet::try_from(l).ok().map(|v| v.0.as_ref().iter().map(|s| pair(s, TOP)).collect::<Vec<_>>()) == w, "list [{n}, {m}] as {}", stringify!($T));
                }
            }
        )*};
    }
    t!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
    let e: &[u32] = &[];
    ensure!(SequenceSet::try_from(e).is_err(), "empty list accepted");
    if let (Some((a, _)), Some((b, _))) = (want_range(x, x), want_range(y, y)) {
        let (n, m) = (NonZeroU32::new(a as u32).unwrap(), NonZeroU32::new(b as u32).unwrap());
        let one = |s: SequenceSet| pair(&s.0.as_ref()[0], TOP);
        ensure!(pair(&Sequence::from(n), TOP) == (a, a) && one(SequenceSet::from(n)) == (a, a) && val(&SeqOrUid::from(n), TOP) == a, "{n}");
        ensure!(matches!(Sequence::from(n..), Sequence::Range(s, SeqOrUid::Asterisk) if val(&s, TOP) == a), "{n}..");
        ensure!(matches!(SequenceSet::from(n..).0.as_ref(), [Sequence::Range(s, SeqOrUid::Asterisk)] if val(s, TOP) == a), "{n}..");
        ensure!(pair(&Sequence::from(..=n), TOP) == (1, a) && one(SequenceSet::from(..=n)) == (1, a), "..={n}");
        if a >= 2 {
            ensure!(Sequence::try_from(..n).ok().map(|s| pair(&s, TOP)) == Some((1, a - 1)) && SequenceSet::try_from(..n).ok().map(one) == Some((1, a - 1)), "..{n}: {:?}", Sequence::try_from(..n));
        }
        if a <= b {
            ensure!(pair(&Sequence::from(n..=m), TOP) == (a, b) && one(SequenceSet::from(n..=m)) == (a, b), "{n}..={m}: {:?}", Sequence::from(n..=m));
        }
        if a < b {
            ensure!(Sequence::try_from(n..m).ok().map(|s| pair(&s, TOP)) == Some((a, b - 1)) && SequenceSet::try_from(n..m).ok().map(one) == Some((a, b - 1)), "{n}..{m}: {:?}", Sequence::try_from(n..m));
        }
        let v = vec![n, m, n];
        let w = Some(vec![(a, a), (b, b), (a, a)]);
        let all = |s: SequenceSet| s.0.as_ref().iter().map(|s| pair(s, TOP)).collect::<Vec<_>>();
        ensure!(SequenceSet::try_from(v.clone()).ok().map(all) == w && SequenceSet::try_from(v.as_slice()).ok().map(all) == w, "list {v:?}");
    }
    ensure!(SequenceSet::try_from(Vec::<NonZeroU32>::new()).is_err() && SequenceSet::try_from(Vec::<Sequence>::new()).is_err(), "empty list accepted");
    ensure!(Sequence::from(..) == Sequence::Range(SeqOrUid::Value(NonZeroU32::MIN), SeqOrUid::Asterisk) && SequenceSet::from(..).0.as_ref() == [Sequence::from(..)], "full range");
    ensure!(SequenceSet::from(SeqOrUid::Asterisk).0.as_ref() == [Sequence::Single(SeqOrUid::Asterisk)], "single *");
    Ok(hash(&(x, y)))
}

pub fn groups(prop: &str, v: &mut Vec<Group>) {
    match prop {
        "C10" => {
            v.push(Group::new("small-sets", Mode::Full { cap: 250_000 }, 0, |g| {
                // every set of up to two sequences over 1..=4 and `*`
                let id = |g: &mut G| {
                    let c = g.choose(5);
                    if c == 4 { SeqOrUid::Asterisk } else { SeqOrUid::Value(NonZeroU32::new(c as u32 + 1).unwrap()) }
                };
                let l = 1 + g.choose(5) as u32;
                let s = g.vec1(2, |g| if g.flag() { Sequence::Range(id(g), id(g)) } else { Sequence::Single(id(g)) });
                let s = SequenceSet(Vec1::try_from(s).unwrap());
                g.say(|| format!("{s:?} largest {l}"));
                check_iter(&s, l)
            }));
            v.push(Group::new("sets", Mode::Dev { depth: 4, cap: 300_000 }, 60_000, |g| {
                let l = num(g);
                let s = any_set(g, 5);
                g.say(|| format!("{s:?} largest {l}"));
                check_iter(&s, l)
            }));
        }
        "C11" => {
            v.push(Group::new("numbers-and-ranges", Mode::Full { cap: 10_000 }, 200_000, check_num));
            v.push(Group::new("short-texts", Mode::Full { cap: 500_000 }, 0, |g| {
                let n = g.choose(6);
                let s: String = (0..n).map(|_| g.pick(b"019*:, +") as char).collect();
                g.say(|| s.clone());
                check_text(&s)
            }));
            v.push(Group::new("texts", Mode::Dev { depth: 4, cap: 200_000 }, 200_000, |g| {
                let n = 1 + g.choose(6);
                let s: String = (0..n).map(|_| g.pick(&["1", "*", ":", ",", "4294967295", "4294967296", "99999999999", "10", "0", "01", "+1", "-1", " ", "a", "42", "4294967294", "18446744073709551617"]).to_string()).collect();
                g.say(|| s.clone());
                check_text(&s)
            }));
        }
        "C12" => {
            v.push(Group::new("small-sets", Mode::Full { cap: 250_000 }, 0, |g| {
                let id = |g: &mut G| {
                    let c = g.choose(5);
                    if c == 4 { SeqOrUid::Asterisk } else { SeqOrUid::Value(NonZeroU32::new([1, 2, 3, u32::MAX - 1][c]).unwrap()) }
                };
                let l = [1, 2, 4, u32::MAX - 1][g.choose(4)];
                let s = g.vec1(2, |g| if g.flag() { Sequence::Range(id(g), id(g)) } else { Sequence::Single(id(g)) });
                let s = SequenceSet(Vec1::try_from(s).unwrap());
                g.say(|| format!("{s:?} largest {l}"));
                check_normalize(&s, l)
            }));
            v.push(Group::new("sets", Mode::Dev { depth: 4, cap: 300_000 }, 100_000, |g| {
                let l = num(g);
                let s = any_set(g, 6);
                g.say(|| format!("{s:?} largest {l}"));
                check_normalize(&s, l)
            }));
            v.push(Group::new("order", Mode::Dev { depth: 5, cap: 200_000 }, 200_000, check_order));
        }
        _ => {}
    }
}
