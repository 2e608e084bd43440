//! Conversions of numbers and ranges, for every integer type and every value.
use core::{num::NonZeroU32, ops::*};
use imap_types::sequence::{SeqOrUid, Sequence, SequenceSet};

const TOP: i128 = u32::MAX as i128;

/// The number a bound stands for; 2^32-1 and `*` are the same.
fn num(a: &SeqOrUid) -> i128 {
    match a {
        SeqOrUid::Value(n) => n.get() as i128,
        SeqOrUid::Asterisk => TOP,
    }
}
fn valid(v: i128) -> bool {
    1 <= v && v <= TOP
}
/// `q` means from `a` to `b`.
fn means(q: &Sequence, a: i128, b: i128) -> bool {
    match q {
        Sequence::Single(x) => num(x) == a && a == b,
        Sequence::Range(x, y) => (num(x) == a && num(y) == b) || (num(x) == b && num(y) == a),
    }
}
fn one<E>(r: Result<SequenceSet, E>, ok: bool, a: i128, b: i128) {
    match r {
        Ok(s) => {
            assert!(ok, "no invalid number or range is accepted");
            let v = s.0.as_ref();
            assert!(v.len() == 1 && means(&v[0], a, b), "the set denotes exactly the number or range");
            core::mem::forget(s);
        }
        Err(_) => assert!(!ok, "no valid number or range is refused"),
    }
}
fn seq<E>(r: Result<Sequence, E>, ok: bool, a: i128, b: i128) {
    match r {
        Ok(q) => assert!(ok && means(&q, a, b), "the sequence denotes exactly the number or range"),
        Err(_) => assert!(!ok, "no valid number or range is refused"),
    }
}

macro_rules! num {
    ($t:ident) => {
        mod $t {
            use super::*;
            #[kani::proof]
            #[kani::unwind(3)]
            fn number() {
                let v: $t = kani::any();
                let n = v as i128;
                match SeqOrUid::try_from(v) {
                    Ok(x) => assert!(valid(n) && num(&x) == n, "the number is kept"),
                    Err(_) => assert!(!valid(n), "no valid number is refused"),
                }
                seq(Sequence::try_from(v), valid(n), n, n);
                one(SequenceSet::try_from(v), valid(n), n, n);
            }
            #[kani::proof]
            #[kani::unwind(3)]
            fn open_ranges() {
                let v: $t = kani::any();
                let n = v as i128;
                seq(Sequence::try_from(v..), valid(n), n, TOP);
                one(SequenceSet::try_from(v..), valid(n), n, TOP);
                seq(Sequence::try_from(..=v), valid(n), 1, n);
                one(SequenceSet::try_from(..=v), valid(n), 1, n);
                // `..1` and less hold no number
                if n >= 2 {
                    seq(Sequence::try_from(..v), valid(n - 1), 1, n - 1);
                    one(SequenceSet::try_from(..v), valid(n - 1), 1, n - 1);
                }
            }
            #[kani::proof]
            #[kani::unwind(3)]
            fn closed_ranges() {
                let (v, w): ($t, $t) = (kani::any(), kani::any());
                let (a, b) = (v as i128, w as i128);
                if a < b {
                    seq(Sequence::try_from(v..w), valid(a) && valid(b - 1), a, b - 1);
                    one(SequenceSet::try_from(v..w), valid(a) && valid(b - 1), a, b - 1);
                }
                if a <= b {
                    seq(Sequence::try_from(v..=w), valid(a) && valid(b), a, b);
                    one(SequenceSet::try_from(v..=w), valid(a) && valid(b), a, b);
                }
            }
        }
    };
}
num!(i8);
num!(i16);
num!(i32);
num!(i64);
num!(isize);
num!(u8);
num!(u16);
num!(u32);
num!(u64);
num!(usize);

type X = core::convert::Infallible;

#[kani::proof]
#[kani::unwind(3)]
fn nonzero() {
    let (v, w): (NonZeroU32, NonZeroU32) = (kani::any(), kani::any());
    let (a, b) = (v.get() as i128, w.get() as i128);
    assert!(num(&SeqOrUid::from(v)) == a, "the number is kept");
    seq::<X>(Ok(Sequence::from(v)), true, a, a);
    one::<X>(Ok(SequenceSet::from(v)), true, a, a);
    seq::<X>(Ok(Sequence::from(v..)), true, a, TOP);
    one::<X>(Ok(SequenceSet::from(v..)), true, a, TOP);
    seq::<X>(Ok(Sequence::from(..)), true, 1, TOP);
    one::<X>(Ok(SequenceSet::from(..)), true, 1, TOP);
    seq::<X>(Ok(Sequence::from(..=v)), true, 1, a);
    one::<X>(Ok(SequenceSet::from(..=v)), true, 1, a);
    if a >= 2 {
        seq(Sequence::try_from(..v), true, 1, a - 1);
        one(SequenceSet::try_from(..v), true, 1, a - 1);
    }
    if a < b {
        seq(Sequence::try_from(v..w), true, a, b - 1);
        one(SequenceSet::try_from(v..w), true, a, b - 1);
    }
    if a <= b {
        seq::<X>(Ok(Sequence::from(v..=w)), true, a, b);
        one::<X>(Ok(SequenceSet::from(v..=w)), true, a, b);
    }
}

#[kani::proof]
#[kani::unwind(3)]
fn bounds() {
    let s = if kani::any() { SeqOrUid::Asterisk } else { SeqOrUid::Value(kani::any()) };
    let n = num(&s);
    seq::<X>(Ok(Sequence::from(s)), true, n, n);
    one::<X>(Ok(SequenceSet::from(s)), true, n, n);
    let q = if kani::any() { Sequence::Single(s) } else { Sequence::Range(s, SeqOrUid::Value(kani::any())) };
    let set = SequenceSet::from(q.clone());
    assert!(set.0.as_ref().len() == 1 && set.0.as_ref()[0] == q, "the sequence is kept");
    core::mem::forget(set);
}
