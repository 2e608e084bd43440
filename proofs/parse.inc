mod base {
use super::*;

// ===== announcements (the definitions of proofs/frag.rs) ===========================================

#[derive(PartialEq, Eq, Clone, Copy)]
pub enum LiteralMode { Sync, NonSync }
#[derive(PartialEq, Eq, Clone, Copy)]
pub struct LiteralAnnouncement { pub mode: LiteralMode, pub length: u32 }

//@ include announce.inc pub

//@ include chars.inc

// ===== what a parser does ==========================================================================

/// Values, as terms: closures and constructors are names of (pure) functions applied to what was parsed.
pub enum V { U, B(Seq<u8>), N(nat), P(Box<V>, Box<V>), A(int, Box<V>) }

/// Result of a parser: bytes consumed and value; `nom::Err::Incomplete`, `Error`, `Failure`; `Failure` that asks for
/// a literal (length, non-synchronizing, tag).
pub enum R { Ok(nat, V), Inc, Err, Fail, Lit(nat, bool, V) }

pub type P = spec_fn(Seq<u8>) -> R;

/// The pure function named `site` accepts `v`.
pub(crate) uninterp spec fn accepts(site: int, v: V) -> bool;

// ===== the contracts ===============================================================================

pub(crate) open spec fn bounded(p: P, s: Seq<u8>) -> bool { p(s) matches R::Ok(n, v) ==> n <= s.len() }

/// Bytes that arrive later change nothing once there is a verdict.
pub(crate) open spec fn stable(p: P, s: Seq<u8>, t: Seq<u8>) -> bool {
    match p(s) { R::Inc | R::Lit(..) => true, r => p(s + t) == r }
}

/// A literal is asked for only at the end of its announcement.
pub(crate) open spec fn asked(p: P, s: Seq<u8>) -> bool { p(s) matches R::Lit(n, m, g) ==> ends_announcing(s, n, m) }

pub(crate) open spec fn ends_announcing(s: Seq<u8>, n: nat, m: bool) -> bool {
    n <= u32::MAX && s.len() > 0 && s.last() == 0x0a && line_announces(s) == Some(ann(n, m))
}

pub(crate) open spec fn ann(n: nat, m: bool) -> LiteralAnnouncement {
    LiteralAnnouncement { mode: if m { LiteralMode::NonSync } else { LiteralMode::Sync }, length: n as u32 }
}

pub(crate) closed spec fn good(p: P) -> bool {
    &&& forall|s: Seq<u8>| #[trigger] bounded(p, s)
    &&& forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(p, s, t)
    &&& forall|s: Seq<u8>| #[trigger] asked(p, s)
}

/// Never asks for a literal.
pub(crate) open spec fn nolit_at(p: P, s: Seq<u8>) -> bool { !(p(s) is Lit) }
pub(crate) closed spec fn nolit(p: P) -> bool { forall|s: Seq<u8>| #[trigger] nolit_at(p, s) }

/// Consumes at least one byte.
pub(crate) open spec fn pos_at(p: P, s: Seq<u8>) -> bool { p(s) matches R::Ok(n, v) ==> n > 0 }
pub(crate) closed spec fn pos(p: P) -> bool { forall|s: Seq<u8>| #[trigger] pos_at(p, s) }

// ----- framing

//@ include scan.inc pub
pub(crate) open spec fn nocrlf(l: Seq<u8>) -> bool { forall|i: int| 0 <= i < l.len() ==> l[i] != 0x0a && l[i] != 0x0d }

/// No opening brace after the last double quote: what follows can not complete an announcement that started in `l`.
pub(crate) open spec fn safe(l: Seq<u8>) -> bool
    decreases l.len(),
{
    if l.len() == 0 { true } else if l.last() == 0x22 { true } else if l.last() == 0x7b { false } else { safe(l.drop_last()) }
}

pub(crate) open spec fn begun(l: Seq<u8>, a: bool) -> bool { nocrlf(l) && (a ==> safe(l)) }


/// Within a line; or after the announcement of an empty literal, with more bytes at hand.
pub(crate) open spec fn on(st: St, b: bool, rest: bool) -> bool {
    match st { St::Line(m) => begun(m, b), St::Ann(a) => a.length == 0 && rest, _ => false }
}

pub(crate) open spec fn sh_at(p: P, b: bool, s: Seq<u8>, l: Seq<u8>) -> bool {
    match p(s) {
        R::Ok(n, v) => on(scan(St::Line(l), s.take(n as int)), b, n < s.len()),
        R::Inc => busy(scan(St::Line(l), s)),
        R::Lit(n, m, g) => scan(St::Line(l), s) == St::Ann(ann(n, m)),
        _ => true,
    }
}

/// Started within a line (`a`: after no open brace), the parser stays within the message, framed as the fragmentizer
/// frames it, and ends within a line (`b`: after no open brace).
pub(crate) closed spec fn sh(p: P, a: bool, b: bool) -> bool {
    forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) ==> #[trigger] sh_at(p, b, s, l)
}

pub(crate) open spec fn dn_at(p: P, s: Seq<u8>, l: Seq<u8>) -> bool {
    match p(s) {
        R::Ok(n, v) => scan(St::Line(l), s.take(n as int)) is Done,
        R::Inc => busy(scan(St::Line(l), s)),
        R::Lit(n, m, g) => scan(St::Line(l), s) == St::Ann(ann(n, m)),
        _ => true,
    }
}

/// Likewise, but ends exactly where the fragmentizer ends the message.
pub(crate) closed spec fn dn(p: P, a: bool) -> bool {
    forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) ==> #[trigger] dn_at(p, s, l)
}

// ===== facts about announcements ===================================================================

pub(crate) proof fn lemma_digits(s: Seq<u8>)
    ensures
        digits(s) <= s.len(),
        forall|i: int| s.len() - digits(s) <= i < s.len() ==> is_digit(#[trigger] s[i]),
        digits(s) < s.len() ==> !is_digit(s[s.len() - digits(s) - 1]),
    decreases s.len(),
{
    if s.len() > 0 && is_digit(s.last()) {
        let t = s.drop_last();
        lemma_digits(t);
        assert forall|i: int| s.len() - digits(s) <= i < s.len() implies is_digit(#[trigger] s[i]) by { if i < s.len() - 1 { assert(is_digit(t[i])); } }
    }
}

/// A line ends in digits after a brace: the number is announced whatever is before the brace.
pub(crate) proof fn lemma_braced(l: Seq<u8>, d: Seq<u8>)
    requires
        d.len() > 0,
        forall|i: int| 0 <= i < d.len() ==> is_digit(#[trigger] d[i]),
        l.len() > 0,
        l.last() == 0x7b,
    ensures
        braced(l + d) == (if val(d) <= u32::MAX { Some(val(d) as u32) } else { None }),
{
    let s = l + d;
    lemma_digits(s);
    let k = digits(s) as int;
    if k < d.len() {
        assert(s[s.len() - k - 1] == d[d.len() - k - 1]);
    }
    if k > d.len() {
        assert(s[s.len() - d.len() - 1] == l.last());
        assert(is_digit(s[s.len() - d.len() - 1]));
    }
    assert(s.subrange(s.len() - k, s.len() as int) =~= d);
}

/// No announcement without a brace after the last quote.
pub(crate) proof fn lemma_safe_tail(l: Seq<u8>, i: int)
    requires
        safe(l),
        0 <= i < l.len(),
        l[i] == 0x7b,
    ensures
        exists|j: int| i < j < l.len() && l[j] == 0x22,
    decreases l.len(),
{
    if l.last() == 0x22 {
        assert(i < l.len() - 1);
        let j = l.len() - 1;
        assert(l[j] == 0x22);
    } else {
        assert(i < l.len() - 1) by { if i == l.len() - 1 { assert(l.last() == 0x7b); } }
        lemma_safe_tail(l.drop_last(), i);
        let j = choose|j: int| i < j < l.len() - 1 && l.drop_last()[j] == 0x22;
        assert(l[j] == 0x22);
    }
}

pub(crate) proof fn lemma_safe_silent(l: Seq<u8>)
    requires safe(l),
    ensures announces(l) is None,
{
    if announces(l) is Some {
        let t = if l.drop_last().last() == 0x2b { l.drop_last().drop_last() } else { l.drop_last() };
        lemma_digits(t);
        let k = digits(t) as int;
        let i = t.len() - k - 1;
        assert(l[i] == 0x7b);
        lemma_safe_tail(l, i);
        let j = choose|j: int| i < j < l.len() && l[j] == 0x22;
        if j < t.len() { assert(is_digit(t[j])); }
    }
}

// ===== nom's combinators (their definitions in nom 7.1.3 and abnf-core 0.6.0) ======================

pub(crate) open spec fn lower(b: u8) -> u8 { if 0x41 <= b <= 0x5a { (b + 0x20) as u8 } else { b } }
pub(crate) open spec fn same(a: u8, b: u8, nc: bool) -> bool { if nc { lower(a) == lower(b) } else { a == b } }

/// `tag`, `char`, `sp`, `dquote`, `crlf`: a fixed text; `tag_no_case` with `nc`.
pub(crate) closed spec fn tag(t: Seq<u8>, nc: bool) -> P { |s: Seq<u8>| tag_r(t, nc, s) }
pub(crate) open spec fn tag_r(t: Seq<u8>, nc: bool, s: Seq<u8>) -> R {
    if exists|i: int| 0 <= i < s.len() && i < t.len() && !same(#[trigger] s[i], t[i], nc) { R::Err }
    else if s.len() < t.len() { R::Inc } else { R::Ok(t.len(), V::B(s.take(t.len() as int))) }
}

pub type C = spec_fn(u8) -> bool;

/// Length of the longest prefix of bytes in `c`.
pub(crate) open spec fn span(c: C, s: Seq<u8>) -> nat
    decreases s.len(),
{
    if s.len() == 0 || !c(s[0]) { 0 } else { span(c, s.skip(1)) + 1 }
}

pub(crate) closed spec fn take_while(c: C) -> P { |s: Seq<u8>| take_while_r(c, s) }
pub(crate) open spec fn take_while_r(c: C, s: Seq<u8>) -> R {
    let k = span(c, s);
    if k == s.len() { R::Inc } else { R::Ok(k, V::B(s.take(k as int))) }
}
pub(crate) closed spec fn take_while1(c: C) -> P { |s: Seq<u8>| take_while1_r(c, s) }
pub(crate) open spec fn take_while1_r(c: C, s: Seq<u8>) -> R {
    let k = span(c, s);
    if k == s.len() { R::Inc } else if k == 0 { R::Err } else { R::Ok(k, V::B(s.take(k as int))) }
}
pub(crate) closed spec fn take_while_m_n(m: nat, n: nat, c: C) -> P { |s: Seq<u8>| take_while_m_n_r(m, n, c, s) }
pub(crate) open spec fn take_while_m_n_r(m: nat, n: nat, c: C, s: Seq<u8>) -> R {
    let k = span(c, s);
    if k < s.len() {
        if k < m { R::Err } else { let j = if k <= n { k } else { n }; R::Ok(j, V::B(s.take(j as int))) }
    } else if s.len() >= n { R::Ok(n, V::B(s.take(n as int))) } else { R::Inc }
}
pub(crate) closed spec fn one_of(t: Seq<u8>) -> P { |s: Seq<u8>| one_of_r(t, s) }
pub(crate) open spec fn one_of_r(t: Seq<u8>, s: Seq<u8>) -> R {
    if s.len() == 0 { R::Inc } else if t.contains(s[0]) { R::Ok(1, V::B(s.take(1))) } else { R::Err }
}
pub(crate) closed spec fn take(n: nat) -> P { |s: Seq<u8>| take_r(n, s) }
pub(crate) open spec fn take_r(n: nat, s: Seq<u8>) -> R { if s.len() < n { R::Inc } else { R::Ok(n, V::B(s.take(n as int))) } }

pub(crate) open spec fn starts(s: Seq<u8>, t: Seq<u8>) -> bool { t.len() <= s.len() && s.take(t.len() as int) == t }
pub(crate) open spec fn find(s: Seq<u8>, t: Seq<u8>) -> Option<nat>
    decreases s.len(),
{
    if starts(s, t) { Some(0) } else if s.len() == 0 { None } else {
        match find(s.skip(1), t) { Some(k) => Some(k + 1), None => None }
    }
}
pub(crate) closed spec fn take_until(t: Seq<u8>) -> P { |s: Seq<u8>| take_until_r(t, s) }
pub(crate) open spec fn take_until_r(t: Seq<u8>, s: Seq<u8>) -> R {
    match find(s, t) { None => R::Inc, Some(k) => R::Ok(k, V::B(s.take(k as int))) }
}

// the `complete` family: the end of the input is taken for the end of the text
pub(crate) open spec fn tag_complete(t: Seq<u8>, nc: bool) -> P { |s: Seq<u8>| match tag_r(t, nc, s) { R::Inc => R::Err, r => r } }
pub(crate) open spec fn take_while_complete(c: C) -> P { |s: Seq<u8>| R::Ok(span(c, s), V::B(s.take(span(c, s) as int))) }
pub(crate) open spec fn take_while1_complete(c: C) -> P {
    |s: Seq<u8>| if span(c, s) == 0 { R::Err } else { R::Ok(span(c, s), V::B(s.take(span(c, s) as int))) }
}
pub(crate) open spec fn take_while_m_n_complete(m: nat, n: nat, c: C) -> P {
    |s: Seq<u8>| match take_while_m_n_r(m, n, c, s) { R::Inc => if span(c, s) >= m { R::Ok(s.len(), V::B(s)) } else { R::Err }, r => r }
}
pub(crate) open spec fn one_of_complete(t: Seq<u8>) -> P { |s: Seq<u8>| match one_of_r(t, s) { R::Inc => R::Err, r => r } }
pub(crate) open spec fn take_complete(n: nat) -> P { |s: Seq<u8>| match take_r(n, s) { R::Inc => R::Err, r => r } }
pub(crate) open spec fn take_until_complete(t: Seq<u8>) -> P { |s: Seq<u8>| match take_until_r(t, s) { R::Inc => R::Err, r => r } }
pub(crate) open spec fn complete(p: P) -> P { |s: Seq<u8>| match p(s) { R::Inc => R::Err, r => r } }

pub(crate) closed spec fn success(site: int) -> P { |s: Seq<u8>| R::Ok(0, V::A(site, Box::new(V::U))) }
pub(crate) closed spec fn failure() -> P { |s: Seq<u8>| R::Fail }
pub(crate) closed spec fn error() -> P { |s: Seq<u8>| R::Err }

pub(crate) closed spec fn alt(p: P, q: P) -> P { |s: Seq<u8>| match p(s) { R::Err => q(s), r => r } }

/// `pair`, `tuple`; with `vmap`: `preceded`, `terminated`, `delimited`, `separated_pair`, and `let (rest, v) = p(input)?; q(rest)`.
pub(crate) closed spec fn pair(p: P, q: P) -> P { |s: Seq<u8>| pair_r(p(s), q, s) }
pub(crate) open spec fn pair_r(r: R, q: P, s: Seq<u8>) -> R {
    match r {
        R::Ok(n, v) => match q(s.skip(n as int)) { R::Ok(m, w) => R::Ok(n + m, V::P(Box::new(v), Box::new(w))), e => e },
        e => e,
    }
}

/// Value 0: the first of a pair, 1: the second, otherwise the function `k` applied.
pub(crate) open spec fn vf(k: int, v: V) -> V {
    match v { V::P(a, b) if k == 0 => *a, V::P(a, b) if k == 1 => *b, _ => V::A(k, Box::new(v)) }
}
pub(crate) closed spec fn vmap(p: P, k: int) -> P { |s: Seq<u8>| match p(s) { R::Ok(n, v) => R::Ok(n, vf(k, v)), r => r } }

/// `map_res`, `map_opt`, `verify`; with `hard`, a check that ends in a `Failure`.
pub(crate) closed spec fn filter(p: P, k: int, hard: bool) -> P {
    |s: Seq<u8>| match p(s) {
        R::Ok(n, v) => if accepts(k, v) { R::Ok(n, vf(k, v)) } else if hard { R::Fail } else { R::Err },
        r => r,
    }
}

/// `map_res(_, str::parse::<uN>)` on digits.
pub(crate) closed spec fn decimal(p: P, max: nat) -> P {
    |s: Seq<u8>| match p(s) {
        R::Ok(n, V::B(d)) => if d.len() > 0 && all_digits(d) {
            if val(d) <= max { R::Ok(n, V::N(val(d))) } else { R::Err }
        } else if accepts(2, V::B(d)) { R::Ok(n, V::A(2, Box::new(V::B(d)))) } else { R::Err },
        R::Ok(n, v) => R::Err,
        r => r,
    }
}
pub(crate) open spec fn all_digits(d: Seq<u8>) -> bool { forall|i: int| 0 <= i < d.len() ==> is_digit(#[trigger] d[i]) }

pub(crate) closed spec fn opt(p: P) -> P {
    |s: Seq<u8>| match p(s) { R::Ok(n, v) => R::Ok(n, some(v)), R::Err => R::Ok(0, none()), r => r }
}
pub(crate) open spec fn some(v: V) -> V { V::A(-1, Box::new(v)) }
pub(crate) open spec fn none() -> V { V::A(-2, Box::new(V::U)) }

pub(crate) closed spec fn peek(p: P) -> P { |s: Seq<u8>| match p(s) { R::Ok(n, v) => R::Ok(0, v), r => r } }
pub(crate) closed spec fn recognize(p: P) -> P { |s: Seq<u8>| match p(s) { R::Ok(n, v) => R::Ok(n, V::B(s.take(n as int))), r => r } }
pub(crate) closed spec fn cut(p: P) -> P { |s: Seq<u8>| match p(s) { R::Err => R::Fail, r => r } }

pub(crate) closed spec fn many0(p: P) -> P { |s: Seq<u8>| many0_r(p, s) }
pub(crate) open spec fn many0_r(p: P, s: Seq<u8>) -> R
    decreases s.len(),
{
    match p(s) {
        R::Err => R::Ok(0, V::U),
        R::Ok(n, v) => if n == 0 || n > s.len() { R::Err } else {
            match many0_r(p, s.skip(n as int)) { R::Ok(m, w) => R::Ok(n + m, V::P(Box::new(v), Box::new(w))), e => e }
        },
        e => e,
    }
}

/// The elements after the first of `separated_list0`, `separated_list1`.
pub(crate) closed spec fn more(sep: P, p: P) -> P { |s: Seq<u8>| more_r(sep, p, s) }
pub(crate) open spec fn more_r(sep: P, p: P, s: Seq<u8>) -> R
    decreases s.len(),
{
    match sep(s) {
        R::Err => R::Ok(0, V::U),
        R::Ok(k, u) => if k == 0 || k > s.len() { R::Err } else {
            match p(s.skip(k as int)) {
                R::Err => R::Ok(0, V::U),
                R::Ok(n, v) => if k + n > s.len() { R::Err } else {
                    match more_r(sep, p, s.skip((k + n) as int)) {
                        R::Ok(m, w) => R::Ok(k + n + m, V::P(Box::new(v), Box::new(w))),
                        e => e,
                    }
                },
                e => e,
            }
        },
        e => e,
    }
}
/// `separated_list0`: nothing if the first element is not there.
pub(crate) closed spec fn unless_err(p: P, q: P) -> P { |s: Seq<u8>| match p(s) { R::Err => R::Ok(0, V::U), _ => q(s) } }

pub(crate) closed spec fn many_m_n(lo: nat, hi: nat, p: P) -> P { |s: Seq<u8>| if lo > hi { R::Fail } else { many_r(lo, hi, p, s) } }
pub(crate) open spec fn many_r(lo: nat, hi: nat, p: P, s: Seq<u8>) -> R
    decreases hi,
{
    if hi == 0 { R::Ok(0, V::U) } else {
        match p(s) {
            R::Err => if lo > 0 { R::Err } else { R::Ok(0, V::U) },
            R::Ok(n, v) => if n == 0 { R::Err } else {
                match many_r(if lo > 0 { (lo - 1) as nat } else { 0 }, (hi - 1) as nat, p, s.skip(n as int)) {
                    R::Ok(m, w) => R::Ok(n + m, V::P(Box::new(v), Box::new(w))),
                    e => e,
                }
            },
            e => e,
        }
    }
}

pub(crate) closed spec fn escaped(p: P, ctl: u8, q: P) -> P {
    |s: Seq<u8>| match escaped_r(p, ctl, q, s) { R::Ok(n, v) => R::Ok(n, V::B(s.take(n as int))), r => r }
}
pub(crate) open spec fn escaped_r(p: P, ctl: u8, q: P, s: Seq<u8>) -> R
    decreases s.len(),
{
    if s.len() == 0 { R::Inc } else {
        match p(s) {
            R::Ok(n, v) => if n >= s.len() { R::Inc } else if n == 0 { R::Ok(0, V::U) } else { shift(n, escaped_r(p, ctl, q, s.skip(n as int))) },
            R::Err => if s[0] == ctl {
                if s.len() == 1 { R::Inc } else {
                    match q(s.skip(1)) {
                        R::Ok(m, w) => if 1 + m >= s.len() { R::Inc } else { shift(1 + m, escaped_r(p, ctl, q, s.skip((1 + m) as int))) },
                        e => e,
                    }
                }
            } else { R::Ok(0, V::U) },
            e => e,
        }
    }
}
pub(crate) open spec fn shift(n: nat, r: R) -> R { match r { R::Ok(m, v) => R::Ok(n + m, v), e => e } }

// ----- the imperative pieces of the parsers

/// Component of nested pairs: 0 first, 1 second.
pub(crate) open spec fn at(v: V, path: Seq<int>) -> V
    decreases path.len(),
{
    if path.len() == 0 { v } else { at(vf(path[0], v), path.skip(1)) }
}

/// `let (remaining, header) = h(input)?; if remaining.is_empty() { return Err(Failure(Literal { .. })) } take(length)(remaining)`
pub(crate) open spec fn after_header(h: P, len: Seq<int>, mode: Seq<int>, yes: bool, no: bool) -> P {
    |s: Seq<u8>| match h(s) {
        R::Ok(n, v) => match at(v, len) {
            V::N(k) => if s.len() == n {
                R::Lit(k, if at(v, mode) == none() { no } else { yes }, V::U)
            } else {
                pair_r(h(s), take(k), s)
            },
            _ => R::Fail,
        },
        r => r,
    }
}

/// `if let Ok((rest, v)) = p(input) { if test(v) { return Ok((rest, ..)) } } q(input)`
pub(crate) closed spec fn attempt(p: P, k: int, q: P) -> P {
    |s: Seq<u8>| match p(s) { R::Ok(n, v) => if accepts(k, v) { R::Ok(n, vf(k, v)) } else { q(s) }, _ => q(s) }
}

/// `let (_, v) = p(input)?; if test(v) { a(input) } else { b(input) }`
pub(crate) closed spec fn choose_by(p: P, k: int, a: P, b: P) -> P {
    |s: Seq<u8>| match p(s) { R::Ok(n, v) => if accepts(k, v) { a(s) } else { b(s) }, r => r }
}

/// `let (rest, tag) = p(input)?; match q(rest) { Err(Failure(Literal { tag: t, .. })) => t = Some(tag), .. }`
pub(crate) closed spec fn tagged(p: P, q: P) -> P {
    |s: Seq<u8>| match p(s) {
        R::Ok(n, v) => match q(s.skip(n as int)) {
            R::Ok(m, w) => R::Ok(n + m, V::P(Box::new(v), Box::new(w))),
            R::Lit(k, m, g) => R::Lit(k, m, some(v)),
            e => e,
        },
        r => r,
    }
}

// ===== contracts of the combinators ================================================================

pub(crate) proof fn lemma_sum(s: Seq<u8>, t: Seq<u8>, n: int)
    requires 0 <= n <= s.len(),
    ensures
        (s + t).skip(n) == s.skip(n) + t,
        (s + t).take(n) == s.take(n),
        s == s.take(n) + s.skip(n),
{
    assert((s + t).skip(n) =~= s.skip(n) + t);
    assert((s + t).take(n) =~= s.take(n));
    assert(s =~= s.take(n) + s.skip(n));
}

pub(crate) proof fn lemma_two(s: Seq<u8>, n: int, m: int)
    requires 0 <= n, 0 <= m, n + m <= s.len(),
    ensures
        s.take(n + m) == s.take(n) + s.skip(n).take(m),
        s.skip(n + m) == s.skip(n).skip(m),
{
    assert(s.take(n + m) =~= s.take(n) + s.skip(n).take(m));
    assert(s.skip(n + m) =~= s.skip(n).skip(m));
}

pub(crate) proof fn lemma_braced_any(pre: Seq<u8>, t: Seq<u8>)
    requires braced(t) is Some,
    ensures braced(pre + t) == braced(t),
{
    lemma_digits(t);
    let k = digits(t) as int;
    let h = t.take(t.len() - k);
    let d = t.skip(t.len() - k);
    assert(d =~= t.subrange(t.len() - k, t.len() as int));
    assert(t =~= h + d);
    assert(pre + t =~= (pre + h) + d);
    assert forall|i: int| 0 <= i < d.len() implies is_digit(#[trigger] d[i]) by { assert(is_digit(t[t.len() - k + i])); }
    lemma_braced(pre + h, d);
    lemma_braced(h, d);
}
pub(crate) proof fn lemma_announces_any(pre: Seq<u8>, x: Seq<u8>)
    requires announces(x) is Some,
    ensures announces(pre + x) == announces(x),
{
    let t = x.drop_last();
    assert((pre + x).drop_last() =~= pre + t);
    assert((pre + t).last() == t.last());
    if t.last() == 0x2b {
        assert((pre + t).drop_last() =~= pre + t.drop_last());
        lemma_braced_any(pre, t.drop_last());
    } else {
        lemma_braced_any(pre, t);
    }
}
/// The announcement is at the end: what is before it does not matter.
pub(crate) proof fn lemma_asked(s: Seq<u8>, j: int, n: nat, m: bool)
    requires
        0 <= j <= s.len(),
        ends_announcing(s.skip(j), n, m),
    ensures
        ends_announcing(s, n, m),
{
    let w = s.skip(j);
    let l = w.drop_last();
    let pre = s.take(j);
    assert(s.drop_last() =~= pre + l);
    assert(l.len() > 0);
    assert((pre + l).last() == l.last());
    if l.last() == 0x0d {
        assert((pre + l).drop_last() =~= pre + l.drop_last());
        lemma_announces_any(pre, l.drop_last());
    } else {
        lemma_announces_any(pre, l);
    }
}

pub(crate) proof fn lemma_good(p: P, s: Seq<u8>, t: Seq<u8>)
    requires good(p),
    ensures bounded(p, s), stable(p, s, t), asked(p, s), bounded(p, s + t),
{
}

// ----- tag

pub(crate) proof fn good_tag(t: Seq<u8>, nc: bool)
    ensures good(tag(t, nc)), nolit(tag(t, nc)),
{
    let p = tag(t, nc);
    assert forall|s: Seq<u8>, u: Seq<u8>| #[trigger] stable(p, s, u) by {
        if exists|i: int| 0 <= i < s.len() && i < t.len() && !same(#[trigger] s[i], t[i], nc) {
            let i = choose|i: int| 0 <= i < s.len() && i < t.len() && !same(#[trigger] s[i], t[i], nc);
            assert((s + u)[i] == s[i]);
        } else if s.len() >= t.len() {
            assert forall|i: int| 0 <= i < (s + u).len() && i < t.len() implies same(#[trigger] (s + u)[i], t[i], nc) by {
                assert((s + u)[i] == s[i]);
            }
            assert((s + u).take(t.len() as int) =~= s.take(t.len() as int));
        }
    }
}

pub(crate) proof fn pos_tag(t: Seq<u8>, nc: bool)
    requires t.len() > 0,
    ensures pos(tag(t, nc)),
{
}

/// The state of a line after the bytes of `t`.
pub(crate) open spec fn fin(a: bool, t: Seq<u8>) -> bool
    decreases t.len(),
{
    if t.len() == 0 { a } else if t.last() == 0x22 { true } else if t.last() == 0x7b { false } else { fin(a, t.drop_last()) }
}

pub(crate) proof fn lemma_scan_plain(l: Seq<u8>, w: Seq<u8>)
    requires forall|i: int| 0 <= i < w.len() ==> w[i] != 0x0a,
    ensures scan(St::Line(l), w) == St::Line(l + w),
    decreases w.len(),
{
    if w.len() == 0 { assert(l + w =~= l); } else {
        lemma_scan_plain(l, w.drop_last());
        assert((l + w.drop_last()).push(w.last()) =~= l + w);
    }
}

pub(crate) proof fn lemma_fin(l: Seq<u8>, w: Seq<u8>, t: Seq<u8>, nc: bool)
    requires
        nocrlf(l),
        nocrlf(t),
        w.len() <= t.len(),
        forall|i: int| 0 <= i < w.len() ==> same(#[trigger] w[i], t[i], nc),
    ensures
        nocrlf(l + w),
        nocrlf(w),
        w.len() == t.len() ==> safe(l + w) == fin(safe(l), t),
    decreases w.len(),
{
    assert forall|i: int| 0 <= i < w.len() implies w[i] != 0x0a && w[i] != 0x0d by { assert(same(w[i], t[i], nc)); }
    assert forall|i: int| 0 <= i < (l + w).len() implies (l + w)[i] != 0x0a && (l + w)[i] != 0x0d by {
        if i < l.len() { assert((l + w)[i] == l[i]); } else { assert((l + w)[i] == w[i - l.len()]); }
    }
    if w.len() == t.len() {
        if w.len() == 0 { assert(l + w =~= l); } else {
            let n = w.len() - 1;
            assert(same(w[n], t[n], nc));
            assert forall|i: int| 0 <= i < w.drop_last().len() implies same(#[trigger] w.drop_last()[i], t.drop_last()[i], nc) by { assert(same(w[i], t[i], nc)); }
            lemma_fin(l, w.drop_last(), t.drop_last(), nc);
            assert((l + w).drop_last() =~= l + w.drop_last());
            assert((l + w).last() == w[n]);
        }
    }
}

pub(crate) open spec fn fits(t: Seq<u8>, a: bool, b: bool) -> bool { plain_all(t) && (b ==> fin(a, t)) }
pub(crate) open spec fn plain_all(t: Seq<u8>) -> bool
    decreases t.len(),
{
    if t.len() == 0 { true } else if t.last() == 0x0a || t.last() == 0x0d { false } else { plain_all(t.drop_last()) }
}
pub(crate) proof fn lemma_plain_all(t: Seq<u8>)
    requires plain_all(t),
    ensures nocrlf(t),
    decreases t.len(),
{
    if t.len() > 0 {
        lemma_plain_all(t.drop_last());
        assert forall|i: int| 0 <= i < t.len() implies t[i] != 0x0a && t[i] != 0x0d by { if i < t.len() - 1 { assert(t[i] == t.drop_last()[i]); } }
    }
}
pub(crate) proof fn lemma_fin_mono(a: bool, t: Seq<u8>)
    requires fin(false, t),
    ensures fin(a, t),
    decreases t.len(),
{
    if t.len() > 0 && t.last() != 0x22 { lemma_fin_mono(a, t.drop_last()); }
}

pub(crate) proof fn sh_tag(t: Seq<u8>, nc: bool, a: bool, b: bool)
    requires fits(t, a, b),
    ensures sh(tag(t, nc), a, b),
{
    let p = tag(t, nc);
    lemma_plain_all(t);
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(p, b, s, l) by {
        if !(p(s) is Err) {
            let n = if s.len() < t.len() { s.len() } else { t.len() };
            let w = s.take(n as int);
            assert forall|i: int| 0 <= i < w.len() implies same(#[trigger] w[i], t[i], nc) by { assert(w[i] == s[i]); }
            lemma_fin(l, w, t, nc);
            lemma_scan_plain(l, w);
            if s.len() < t.len() { assert(w =~= s); }
            if b && safe(l) && !a { lemma_fin_mono(true, t); }
        }
    }
}

// ----- runs of bytes

pub(crate) proof fn lemma_span(c: C, s: Seq<u8>, t: Seq<u8>)
    ensures
        span(c, s) <= s.len(),
        forall|i: int| 0 <= i < span(c, s) ==> c(#[trigger] s[i]),
        span(c, s) < s.len() ==> !c(s[span(c, s) as int]) && span(c, s + t) == span(c, s),
        span(c, s) <= span(c, s + t),
    decreases s.len(),
{
    if s.len() > 0 && c(s[0]) {
        lemma_span(c, s.skip(1), t);
        assert((s + t)[0] == s[0]);
        assert((s + t).skip(1) =~= s.skip(1) + t);
        assert forall|i: int| 0 <= i < span(c, s) implies c(#[trigger] s[i]) by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } }
        if span(c, s) < s.len() { assert(s[span(c, s) as int] == s.skip(1)[span(c, s) - 1]); }
    } else if s.len() > 0 {
        assert((s + t)[0] == s[0]);
    }
}

pub(crate) proof fn good_take_while(c: C)
    ensures good(take_while(c)), nolit(take_while(c)),
{
    let p = take_while(c);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(p, s, t) by { lemma_span(c, s, t); if span(c, s) < s.len() { lemma_sum(s, t, span(c, s) as int); } }
    assert forall|s: Seq<u8>| #[trigger] bounded(p, s) by { lemma_span(c, s, s); }
}
pub(crate) proof fn good_take_while1(c: C)
    ensures good(take_while1(c)), nolit(take_while1(c)), pos(take_while1(c)),
{
    let p = take_while1(c);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(p, s, t) by { lemma_span(c, s, t); if span(c, s) < s.len() { lemma_sum(s, t, span(c, s) as int); } }
    assert forall|s: Seq<u8>| #[trigger] bounded(p, s) by { lemma_span(c, s, s); }
}
pub(crate) proof fn good_take_while_m_n(m: nat, n: nat, c: C)
    requires m <= n,
    ensures good(take_while_m_n(m, n, c)), nolit(take_while_m_n(m, n, c)), 0 < m <= n ==> pos(take_while_m_n(m, n, c)),
{
    let p = take_while_m_n(m, n, c);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(p, s, t) by {
        lemma_span(c, s, t);
        lemma_span(c, s + t, t);
        match p(s) { R::Ok(k, v) => lemma_sum(s, t, k as int), _ => {} }
    }
    assert forall|s: Seq<u8>| #[trigger] bounded(p, s) by { lemma_span(c, s, s); }
}
pub(crate) proof fn good_one_of(t: Seq<u8>)
    ensures good(one_of(t)), nolit(one_of(t)), pos(one_of(t)),
{
    assert forall|s: Seq<u8>, u: Seq<u8>| #[trigger] stable(one_of(t), s, u) by {
        if s.len() > 0 { lemma_sum(s, u, 1); assert((s + u)[0] == s[0]); }
    }
}
pub(crate) proof fn good_take(n: nat)
    ensures good(take(n)), nolit(take(n)),
{
    assert forall|s: Seq<u8>, u: Seq<u8>| #[trigger] stable(take(n), s, u) by { if s.len() >= n { lemma_sum(s, u, n as int); } }
}
pub(crate) proof fn lemma_find(s: Seq<u8>, t: Seq<u8>, u: Seq<u8>)
    ensures
        find(s, t) matches Some(k) ==> k + t.len() <= s.len() && find(s + u, t) == find(s, t),
    decreases s.len(),
{
    if starts(s, t) {
        lemma_sum(s, u, t.len() as int);
    } else if s.len() > 0 {
        lemma_find(s.skip(1), t, u);
        assert((s + u).skip(1) =~= s.skip(1) + u);
        if find(s, t) is Some {
            if starts(s + u, t) { assert((s + u).take(t.len() as int) =~= s.take(t.len() as int)); }
        }
    }
}
pub(crate) proof fn good_take_until(t: Seq<u8>)
    ensures good(take_until(t)), nolit(take_until(t)),
{
    assert forall|s: Seq<u8>, u: Seq<u8>| #[trigger] stable(take_until(t), s, u) by {
        lemma_find(s, t, u);
        match find(s, t) { Some(k) => lemma_sum(s, u, k as int), None => {} }
    }
    assert forall|s: Seq<u8>| #[trigger] bounded(take_until(t), s) by { lemma_find(s, t, s); }
}

/// Bytes of the class are not CR or LF; with `q`, no opening brace either.
pub(crate) open spec fn tame(c: C, q: bool) -> bool { forall|b: u8| #[trigger] c(b) ==> b != 0x0a && b != 0x0d && (q ==> b != 0x7b) }

pub(crate) proof fn lemma_run_line(c: C, q: bool, l: Seq<u8>, w: Seq<u8>)
    requires
        tame(c, q),
        nocrlf(l),
        forall|i: int| 0 <= i < w.len() ==> c(#[trigger] w[i]),
    ensures
        scan(St::Line(l), w) == St::Line(l + w),
        nocrlf(l + w),
        q && safe(l) ==> safe(l + w),
    decreases w.len(),
{
    lemma_scan_plain(l, w);
    assert forall|i: int| 0 <= i < (l + w).len() implies (l + w)[i] != 0x0a && (l + w)[i] != 0x0d by {
        if i >= l.len() { assert((l + w)[i] == w[i - l.len()]); }
    }
    if w.len() == 0 { assert(l + w =~= l); } else {
        assert forall|i: int| 0 <= i < w.drop_last().len() implies c(#[trigger] w.drop_last()[i]) by { assert(c(w[i])); }
        lemma_run_line(c, q, l, w.drop_last());
        assert((l + w).drop_last() =~= l + w.drop_last());
        assert(c(w[w.len() - 1]));
        assert((l + w).last() == w[w.len() - 1]);
    }
}

pub(crate) proof fn sh_take_while(c: C, q: bool, a: bool)
    requires tame(c, q),
    ensures sh(take_while(c), a, a && q),
{
    let z = a && q;
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(take_while(c), z, s, l) by {
        lemma_span(c, s, s);
        let w = s.take(span(c, s) as int);
        lemma_run_line(c, q, l, w);
        if span(c, s) == s.len() { assert(w =~= s); }
    }
}
pub(crate) proof fn sh_take_while1(c: C, q: bool, a: bool)
    requires tame(c, q),
    ensures sh(take_while1(c), a, a && q),
{
    let z = a && q;
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(take_while1(c), z, s, l) by {
        lemma_span(c, s, s);
        let w = s.take(span(c, s) as int);
        lemma_run_line(c, q, l, w);
        if span(c, s) == s.len() { assert(w =~= s); }
    }
}
pub(crate) proof fn sh_take_while_m_n(m: nat, n: nat, c: C, q: bool, a: bool)
    requires tame(c, q),
    ensures sh(take_while_m_n(m, n, c), a, a && q),
{
    let z = a && q;
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(take_while_m_n(m, n, c), z, s, l) by {
        lemma_span(c, s, s);
        let k = match take_while_m_n(m, n, c)(s) { R::Ok(k, v) => k, _ => span(c, s) };
        let w = s.take(k as int);
        lemma_run_line(c, q, l, w);
        if k == s.len() { assert(w =~= s); }
    }
}
pub(crate) proof fn sh_one_of(t: Seq<u8>, a: bool)
    requires plain_all(t),
    ensures sh(one_of(t), a, false),
{
    lemma_plain_all(t);
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(one_of(t), false, s, l) by {
        if one_of(t)(s) is Ok {
            let w = s.take(1);
            let i = choose|i: int| 0 <= i < t.len() && t[i] == s[0];
            assert(w[0] == s[0]);
            lemma_scan_plain(l, w);
            assert forall|i: int| 0 <= i < (l + w).len() implies (l + w)[i] != 0x0a && (l + w)[i] != 0x0d by {
                if i >= l.len() { assert((l + w)[i] == w[i - l.len()]); }
            }
        } else {
            lemma_scan_plain(l, seq![]);
            if s.len() == 0 { assert(s =~= seq![]); }
        }
    }
}

// ----- constants

pub(crate) proof fn good_success(k: int)
    ensures good(success(k)), nolit(success(k)),
{
}
pub(crate) proof fn sh_success(k: int, a: bool)
    ensures sh(success(k), a, a),
{
}
pub(crate) proof fn good_failure()
    ensures good(failure()), nolit(failure()), pos(failure()), forall|a: bool, b: bool| sh(failure(), a, b), forall|a: bool| dn(failure(), a),
{
}
pub(crate) proof fn good_error()
    ensures good(error()), nolit(error()), pos(error()), forall|a: bool, b: bool| sh(error(), a, b), forall|a: bool| dn(error(), a),
{
}

// ----- values

pub(crate) proof fn good_vmap(p: P, k: int)
    requires good(p),
    ensures good(vmap(p, k)), nolit(p) ==> nolit(vmap(p, k)), pos(p) ==> pos(vmap(p, k)),
{
    let q = vmap(p, k);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(q, s, t) by { assert(stable(p, s, t)); }
    assert forall|s: Seq<u8>| #[trigger] bounded(q, s) by { assert(bounded(p, s)); }
    assert forall|s: Seq<u8>| #[trigger] asked(q, s) by { assert(asked(p, s)); }
    assert forall|s: Seq<u8>| nolit(p) implies #[trigger] nolit_at(q, s) by { assert(nolit_at(p, s)); }
    assert forall|s: Seq<u8>| pos(p) implies #[trigger] pos_at(q, s) by { assert(pos_at(p, s)); }
}
pub(crate) proof fn sh_vmap(p: P, k: int, a: bool, b: bool)
    requires sh(p, a, b),
    ensures sh(vmap(p, k), a, b),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(vmap(p, k), b, s, l) by { assert(sh_at(p, b, s, l)); }
}
pub(crate) proof fn dn_vmap(p: P, k: int, a: bool)
    requires dn(p, a),
    ensures dn(vmap(p, k), a),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] dn_at(vmap(p, k), s, l) by { assert(dn_at(p, s, l)); }
}
pub(crate) proof fn good_recognize(p: P)
    requires good(p),
    ensures good(recognize(p)), nolit(p) ==> nolit(recognize(p)), pos(p) ==> pos(recognize(p)),
{
    let q = recognize(p);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(q, s, t) by {
        assert(stable(p, s, t));
        assert(bounded(p, s));
        match p(s) { R::Ok(n, v) => lemma_sum(s, t, n as int), _ => {} }
    }
    assert forall|s: Seq<u8>| #[trigger] bounded(q, s) by { assert(bounded(p, s)); }
    assert forall|s: Seq<u8>| #[trigger] asked(q, s) by { assert(asked(p, s)); }
    assert forall|s: Seq<u8>| nolit(p) implies #[trigger] nolit_at(q, s) by { assert(nolit_at(p, s)); }
    assert forall|s: Seq<u8>| pos(p) implies #[trigger] pos_at(q, s) by { assert(pos_at(p, s)); }
}
pub(crate) proof fn sh_recognize(p: P, a: bool, b: bool)
    requires sh(p, a, b),
    ensures sh(recognize(p), a, b),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(recognize(p), b, s, l) by { assert(sh_at(p, b, s, l)); }
}
pub(crate) proof fn good_filter(p: P, k: int, hard: bool)
    requires good(p),
    ensures good(filter(p, k, hard)), nolit(p) ==> nolit(filter(p, k, hard)), pos(p) ==> pos(filter(p, k, hard)),
{
    let q = filter(p, k, hard);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(q, s, t) by { assert(stable(p, s, t)); }
    assert forall|s: Seq<u8>| #[trigger] bounded(q, s) by { assert(bounded(p, s)); }
    assert forall|s: Seq<u8>| #[trigger] asked(q, s) by { assert(asked(p, s)); }
    assert forall|s: Seq<u8>| nolit(p) implies #[trigger] nolit_at(q, s) by { assert(nolit_at(p, s)); }
    assert forall|s: Seq<u8>| pos(p) implies #[trigger] pos_at(q, s) by { assert(pos_at(p, s)); }
}
pub(crate) proof fn sh_filter(p: P, k: int, hard: bool, a: bool, b: bool)
    requires sh(p, a, b),
    ensures sh(filter(p, k, hard), a, b),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(filter(p, k, hard), b, s, l) by { assert(sh_at(p, b, s, l)); }
}
pub(crate) proof fn dn_filter(p: P, k: int, hard: bool, a: bool)
    requires dn(p, a),
    ensures dn(filter(p, k, hard), a),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] dn_at(filter(p, k, hard), s, l) by { assert(dn_at(p, s, l)); }
}
pub(crate) proof fn good_decimal(p: P, max: nat)
    requires good(p),
    ensures good(decimal(p, max)), nolit(p) ==> nolit(decimal(p, max)), pos(p) ==> pos(decimal(p, max)),
{
    let q = decimal(p, max);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(q, s, t) by { assert(stable(p, s, t)); }
    assert forall|s: Seq<u8>| #[trigger] bounded(q, s) by { assert(bounded(p, s)); }
    assert forall|s: Seq<u8>| #[trigger] asked(q, s) by { assert(asked(p, s)); }
    assert forall|s: Seq<u8>| nolit(p) implies #[trigger] nolit_at(q, s) by { assert(nolit_at(p, s)); }
    assert forall|s: Seq<u8>| pos(p) implies #[trigger] pos_at(q, s) by { assert(pos_at(p, s)); }
}
pub(crate) proof fn sh_decimal(p: P, max: nat, a: bool, b: bool)
    requires sh(p, a, b),
    ensures sh(decimal(p, max), a, b),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(decimal(p, max), b, s, l) by { assert(sh_at(p, b, s, l)); }
}
pub(crate) proof fn good_cut(p: P)
    requires good(p),
    ensures good(cut(p)), nolit(p) ==> nolit(cut(p)), pos(p) ==> pos(cut(p)),
{
    let q = cut(p);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(q, s, t) by { assert(stable(p, s, t)); }
    assert forall|s: Seq<u8>| #[trigger] bounded(q, s) by { assert(bounded(p, s)); }
    assert forall|s: Seq<u8>| #[trigger] asked(q, s) by { assert(asked(p, s)); }
    assert forall|s: Seq<u8>| nolit(p) implies #[trigger] nolit_at(q, s) by { assert(nolit_at(p, s)); }
    assert forall|s: Seq<u8>| pos(p) implies #[trigger] pos_at(q, s) by { assert(pos_at(p, s)); }
}
pub(crate) proof fn sh_cut(p: P, a: bool, b: bool)
    requires sh(p, a, b),
    ensures sh(cut(p), a, b),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(cut(p), b, s, l) by { assert(sh_at(p, b, s, l)); }
}
pub(crate) proof fn dn_cut(p: P, a: bool)
    requires dn(p, a),
    ensures dn(cut(p), a),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] dn_at(cut(p), s, l) by { assert(dn_at(p, s, l)); }
}

// ----- choice

pub(crate) proof fn good_alt(p: P, q: P)
    requires good(p), good(q),
    ensures good(alt(p, q)), nolit(p) && nolit(q) ==> nolit(alt(p, q)), pos(p) && pos(q) ==> pos(alt(p, q)),
{
    let r = alt(p, q);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(r, s, t) by { assert(stable(p, s, t)); assert(stable(q, s, t)); }
    assert forall|s: Seq<u8>| #[trigger] bounded(r, s) by { assert(bounded(p, s)); assert(bounded(q, s)); }
    assert forall|s: Seq<u8>| #[trigger] asked(r, s) by { assert(asked(p, s)); assert(asked(q, s)); }
    assert forall|s: Seq<u8>| nolit(p) && nolit(q) implies #[trigger] nolit_at(r, s) by { assert(nolit_at(p, s)); assert(nolit_at(q, s)); }
    assert forall|s: Seq<u8>| pos(p) && pos(q) implies #[trigger] pos_at(r, s) by { assert(pos_at(p, s)); assert(pos_at(q, s)); }
}
pub(crate) proof fn sh_alt(p: P, q: P, a: bool, b: bool, c: bool)
    requires sh(p, a, b), sh(q, a, c),
    ensures sh(alt(p, q), a, b && c),
{
    let z = b && c;
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(alt(p, q), z, s, l) by { assert(sh_at(p, b, s, l)); assert(sh_at(q, c, s, l)); }
}
pub(crate) proof fn dn_alt(p: P, q: P, a: bool)
    requires dn(p, a), dn(q, a),
    ensures dn(alt(p, q), a),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] dn_at(alt(p, q), s, l) by { assert(dn_at(p, s, l)); assert(dn_at(q, s, l)); }
}
pub(crate) proof fn good_opt(p: P)
    requires good(p),
    ensures good(opt(p)), nolit(p) ==> nolit(opt(p)),
{
    let q = opt(p);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(q, s, t) by { assert(stable(p, s, t)); }
    assert forall|s: Seq<u8>| #[trigger] bounded(q, s) by { assert(bounded(p, s)); }
    assert forall|s: Seq<u8>| #[trigger] asked(q, s) by { assert(asked(p, s)); }
    assert forall|s: Seq<u8>| nolit(p) implies #[trigger] nolit_at(q, s) by { assert(nolit_at(p, s)); }
}
pub(crate) proof fn sh_opt(p: P, a: bool, b: bool)
    requires sh(p, a, b),
    ensures sh(opt(p), a, a && b),
{
    let z = a && b;
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(opt(p), z, s, l) by { assert(sh_at(p, b, s, l)); }
}
pub(crate) proof fn good_peek(p: P)
    requires good(p),
    ensures good(peek(p)), nolit(p) ==> nolit(peek(p)),
{
    let q = peek(p);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(q, s, t) by { assert(stable(p, s, t)); }
    assert forall|s: Seq<u8>| #[trigger] asked(q, s) by { assert(asked(p, s)); }
    assert forall|s: Seq<u8>| nolit(p) implies #[trigger] nolit_at(q, s) by { assert(nolit_at(p, s)); }
}
pub(crate) proof fn sh_peek(p: P, a: bool, b: bool)
    requires sh(p, a, b),
    ensures sh(peek(p), a, a),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(peek(p), a, s, l) by { assert(sh_at(p, b, s, l)); }
}
/// Where `p` has no verdict yet, neither has `q`.
pub(crate) open spec fn waits_at(p: P, q: P, s: Seq<u8>) -> bool { p(s) is Inc || p(s) is Lit ==> q(s) is Inc || q(s) is Lit }
pub(crate) closed spec fn waits(p: P, q: P) -> bool { forall|s: Seq<u8>| #[trigger] waits_at(p, q, s) }
pub(crate) proof fn waits_same(p: P)
    ensures waits(p, p),
{
}
pub(crate) proof fn waits_first(p: P, q: P, r: P)
    requires waits(p, q),
    ensures waits(p, pair(q, r)),
{
    assert forall|s: Seq<u8>| #[trigger] waits_at(p, pair(q, r), s) by { assert(waits_at(p, q, s)); }
}
pub(crate) proof fn waits_vmap(p: P, q: P, k: int)
    requires waits(p, q),
    ensures waits(p, vmap(q, k)),
{
    assert forall|s: Seq<u8>| #[trigger] waits_at(p, vmap(q, k), s) by { assert(waits_at(p, q, s)); }
}
pub(crate) proof fn waits_filter(p: P, q: P, k: int, h: bool)
    requires waits(p, q),
    ensures waits(p, filter(q, k, h)),
{
    assert forall|s: Seq<u8>| #[trigger] waits_at(p, filter(q, k, h), s) by { assert(waits_at(p, q, s)); }
}
pub(crate) proof fn waits_recognize(p: P, q: P)
    requires waits(p, q),
    ensures waits(recognize(p), q),
{
    assert forall|s: Seq<u8>| #[trigger] waits_at(recognize(p), q, s) by { assert(waits_at(p, q, s)); }
}
pub(crate) proof fn waits_alt(p: P, q: P, r: P)
    requires waits(p, q),
    ensures waits(p, alt(q, r)),
{
    assert forall|s: Seq<u8>| #[trigger] waits_at(p, alt(q, r), s) by { assert(waits_at(p, q, s)); }
}
pub(crate) proof fn good_unless_err(p: P, q: P)
    requires good(p), good(q), waits(p, q),
    ensures good(unless_err(p, q)), nolit(q) ==> nolit(unless_err(p, q)),
{
    let r = unless_err(p, q);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(r, s, t) by {
        assert(stable(p, s, t)); assert(stable(q, s, t)); assert(waits_at(p, q, s));
    }
    assert forall|s: Seq<u8>| #[trigger] bounded(r, s) by { assert(bounded(q, s)); }
    assert forall|s: Seq<u8>| #[trigger] asked(r, s) by { assert(asked(q, s)); }
    assert forall|s: Seq<u8>| nolit(q) implies #[trigger] nolit_at(r, s) by { assert(nolit_at(q, s)); }
}
pub(crate) proof fn sh_unless_err(p: P, q: P, a: bool, b: bool)
    requires sh(q, a, b),
    ensures sh(unless_err(p, q), a, a && b),
{
    let z = a && b;
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(unless_err(p, q), z, s, l) by { assert(sh_at(q, b, s, l)); }
}
pub(crate) proof fn good_attempt(p: P, k: int, q: P)
    requires good(p), good(q), waits(p, q), nolit(p),
    ensures good(attempt(p, k, q)), nolit(q) ==> nolit(attempt(p, k, q)), pos(p) && pos(q) ==> pos(attempt(p, k, q)),
{
    let r = attempt(p, k, q);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(r, s, t) by {
        assert(stable(p, s, t)); assert(stable(q, s, t)); assert(waits_at(p, q, s));
    }
    assert forall|s: Seq<u8>| #[trigger] bounded(r, s) by { assert(bounded(p, s)); assert(bounded(q, s)); }
    assert forall|s: Seq<u8>| #[trigger] asked(r, s) by { assert(asked(q, s)); }
    assert forall|s: Seq<u8>| nolit(q) implies #[trigger] nolit_at(r, s) by { assert(nolit_at(q, s)); }
    assert forall|s: Seq<u8>| pos(p) && pos(q) implies #[trigger] pos_at(r, s) by { assert(pos_at(p, s)); assert(pos_at(q, s)); }
}
pub(crate) proof fn sh_attempt(p: P, k: int, q: P, a: bool, b: bool, c: bool)
    requires sh(p, a, b), sh(q, a, c),
    ensures sh(attempt(p, k, q), a, b && c),
{
    let z = b && c;
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(attempt(p, k, q), z, s, l) by { assert(sh_at(p, b, s, l)); assert(sh_at(q, c, s, l)); }
}
pub(crate) proof fn good_choose_by(p: P, k: int, q: P, r: P)
    requires good(p), good(q), good(r),
    ensures
        good(choose_by(p, k, q, r)), nolit(p) && nolit(q) && nolit(r) ==> nolit(choose_by(p, k, q, r)),
        pos(q) && pos(r) ==> pos(choose_by(p, k, q, r)),
{
    let z = choose_by(p, k, q, r);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(z, s, t) by { assert(stable(p, s, t)); assert(stable(q, s, t)); assert(stable(r, s, t)); }
    assert forall|s: Seq<u8>| #[trigger] bounded(z, s) by { assert(bounded(q, s)); assert(bounded(r, s)); }
    assert forall|s: Seq<u8>| #[trigger] asked(z, s) by { assert(asked(p, s)); assert(asked(q, s)); assert(asked(r, s)); }
    assert forall|s: Seq<u8>| nolit(p) && nolit(q) && nolit(r) implies #[trigger] nolit_at(z, s) by { assert(nolit_at(p, s)); assert(nolit_at(q, s)); assert(nolit_at(r, s)); }
    assert forall|s: Seq<u8>| pos(q) && pos(r) implies #[trigger] pos_at(z, s) by { assert(pos_at(q, s)); assert(pos_at(r, s)); }
}
pub(crate) proof fn sh_choose_by(p: P, k: int, q: P, r: P, a: bool, d: bool, b: bool, c: bool)
    requires sh(p, a, d), sh(q, a, b), sh(r, a, c),
    ensures sh(choose_by(p, k, q, r), a, b && c),
{
    let z = b && c;
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(choose_by(p, k, q, r), z, s, l) by {
        assert(sh_at(p, d, s, l)); assert(sh_at(q, b, s, l)); assert(sh_at(r, c, s, l));
    }
}
pub(crate) proof fn sh_weak(p: P, a: bool, b: bool, c: bool, d: bool)
    requires sh(p, a, b), c ==> d == d, a ==> c, d ==> b,
    ensures sh(p, c, d),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, c) implies #[trigger] sh_at(p, d, s, l) by { assert(begun(l, a)); assert(sh_at(p, b, s, l)); }
}
pub(crate) proof fn dn_weak(p: P)
    requires dn(p, false),
    ensures dn(p, true),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, true) implies #[trigger] dn_at(p, s, l) by { assert(begun(l, false)); assert(dn_at(p, s, l)); }
}

// ----- sequence

pub(crate) proof fn good_pair(p: P, q: P)
    requires good(p), good(q),
    ensures good(pair(p, q)), nolit(p) && nolit(q) ==> nolit(pair(p, q)), pos(p) || pos(q) ==> pos(pair(p, q)),
{
    let r = pair(p, q);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(r, s, t) by {
        assert(stable(p, s, t)); assert(bounded(p, s));
        match p(s) { R::Ok(n, v) => { lemma_sum(s, t, n as int); assert(stable(q, s.skip(n as int), t)); } _ => {} }
    }
    assert forall|s: Seq<u8>| #[trigger] bounded(r, s) by {
        assert(bounded(p, s));
        match p(s) { R::Ok(n, v) => { assert(bounded(q, s.skip(n as int))); } _ => {} }
    }
    assert forall|s: Seq<u8>| #[trigger] asked(r, s) by {
        assert(bounded(p, s)); assert(asked(p, s));
        match p(s) {
            R::Ok(n, v) => {
                assert(asked(q, s.skip(n as int)));
                match q(s.skip(n as int)) { R::Lit(k, m, g) => lemma_asked(s, n as int, k, m), _ => {} }
            }
            _ => {}
        }
    }
    assert forall|s: Seq<u8>| nolit(p) && nolit(q) implies #[trigger] nolit_at(r, s) by {
        assert(nolit_at(p, s));
        match p(s) { R::Ok(n, v) => { assert(nolit_at(q, s.skip(n as int))); } _ => {} }
    }
    assert forall|s: Seq<u8>| pos(p) || pos(q) implies #[trigger] pos_at(r, s) by {
        assert(pos(p) ==> pos_at(p, s));
        match p(s) { R::Ok(n, v) => { assert(pos(q) ==> pos_at(q, s.skip(n as int))); } _ => {} }
    }
}
pub(crate) proof fn good_tagged(p: P, q: P)
    requires good(p), good(q), nolit(p),
    ensures
        good(tagged(p, q)), nolit(q) ==> nolit(tagged(p, q)), pos(p) || pos(q) ==> pos(tagged(p, q)),
{
    let r = tagged(p, q);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(r, s, t) by {
        assert(stable(p, s, t)); assert(bounded(p, s));
        match p(s) { R::Ok(n, v) => { lemma_sum(s, t, n as int); assert(stable(q, s.skip(n as int), t)); } _ => {} }
    }
    assert forall|s: Seq<u8>| #[trigger] bounded(r, s) by {
        assert(bounded(p, s));
        match p(s) { R::Ok(n, v) => { assert(bounded(q, s.skip(n as int))); } _ => {} }
    }
    assert forall|s: Seq<u8>| #[trigger] asked(r, s) by {
        assert(bounded(p, s)); assert(nolit_at(p, s));
        match p(s) {
            R::Ok(n, v) => {
                assert(asked(q, s.skip(n as int)));
                match q(s.skip(n as int)) { R::Lit(k, m, g) => lemma_asked(s, n as int, k, m), _ => {} }
            }
            _ => {}
        }
    }
    assert forall|s: Seq<u8>| nolit(p) && nolit(q) implies #[trigger] nolit_at(r, s) by {
        assert(nolit_at(p, s));
        match p(s) { R::Ok(n, v) => { assert(nolit_at(q, s.skip(n as int))); } _ => {} }
    }
    assert forall|s: Seq<u8>| pos(p) || pos(q) implies #[trigger] pos_at(r, s) by {
        assert(pos(p) ==> pos_at(p, s));
        match p(s) { R::Ok(n, v) => { assert(pos(q) ==> pos_at(q, s.skip(n as int))); } _ => {} }
    }
}

/// After the announcement of an empty literal a new line begins.
pub(crate) proof fn lemma_zero(a: LiteralAnnouncement, w: Seq<u8>)
    requires a.length == 0, w.len() > 0,
    ensures scan(St::Ann(a), w) == scan(St::Line(seq![]), w),
    decreases w.len(),
{
    let e = Seq::<u8>::empty();
    if w.len() == 1 {
        assert(scan(St::Ann(a), w.drop_last()) == St::Ann(a));
        assert(scan(St::Line(e), w.drop_last()) == St::Line(e));
        assert(e.push(w.last()) =~= seq![w.last()]);
        let l = e.push(w.last());
        assert(l.drop_last() =~= e);
        assert(line_announces(l) is None);
    } else {
        lemma_zero(a, w.drop_last());
    }
}

/// A parser's contract, from wherever the parser before it ended.
pub(crate) proof fn lemma_from(q: P, b: bool, s: Seq<u8>, l: Seq<u8>, n: int) -> (m: Seq<u8>)
    requires
        0 <= n <= s.len(),
        on(scan(St::Line(l), s.take(n)), b, n < s.len()),
        forall|w: Seq<u8>| #[trigger] bounded(q, w),
    ensures
        begun(m, b),
        forall|c: bool| #[trigger] sh_at(q, c, s.skip(n), m) ==> match q(s.skip(n)) {
            R::Ok(k, v) => on(scan(St::Line(l), s.take(n + k)), c, n + k < s.len()),
            R::Inc => busy(scan(St::Line(l), s)),
            R::Lit(k, j, g) => scan(St::Line(l), s) == St::Ann(ann(k, j)),
            _ => true,
        },
        dn_at(q, s.skip(n), m) ==> match q(s.skip(n)) {
            R::Ok(k, v) => scan(St::Line(l), s.take(n + k)) is Done,
            R::Inc => busy(scan(St::Line(l), s)),
            R::Lit(k, j, g) => scan(St::Line(l), s) == St::Ann(ann(k, j)),
            _ => true,
        },
{
    let st = scan(St::Line(l), s.take(n));
    let m = match st { St::Line(m) => m, _ => seq![] };
    let rest = s.skip(n);
    lemma_sum(s, s, n);
    lemma_scan(St::Line(l), s.take(n), rest);
    match st { St::Ann(a) => lemma_zero(a, rest), _ => {} }
    assert(bounded(q, rest));
    match q(rest) {
        R::Ok(k, v) => {
            lemma_two(s, n, k as int);
            let w = rest.take(k as int);
            lemma_scan(St::Line(l), s.take(n), w);
            match st { St::Ann(a) => if k > 0 { lemma_zero(a, w); } else { assert(w =~= seq![]); }, _ => {} }
        }
        _ => {}
    }
    m
}
pub(crate) proof fn sh_pair(p: P, q: P, a: bool, b: bool, c: bool)
    requires sh(p, a, b), sh(q, b, c), good(p), good(q),
    ensures sh(pair(p, q), a, c),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(pair(p, q), c, s, l) by {
        assert(sh_at(p, b, s, l));
        assert(bounded(p, s));
        match p(s) {
            R::Ok(n, v) => { let m = lemma_from(q, b, s, l, n as int); assert(sh_at(q, c, s.skip(n as int), m)); }
            _ => {}
        }
    }
}
pub(crate) proof fn dn_pair(p: P, q: P, a: bool, b: bool)
    requires sh(p, a, b), dn(q, b), good(p), good(q),
    ensures dn(pair(p, q), a),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] dn_at(pair(p, q), s, l) by {
        assert(sh_at(p, b, s, l));
        assert(bounded(p, s));
        match p(s) {
            R::Ok(n, v) => { let m = lemma_from(q, b, s, l, n as int); assert(dn_at(q, s.skip(n as int), m)); }
            _ => {}
        }
    }
}
pub(crate) proof fn sh_tagged(p: P, q: P, a: bool, b: bool, c: bool)
    requires sh(p, a, b), sh(q, b, c), good(p), good(q),
    ensures sh(tagged(p, q), a, c),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(tagged(p, q), c, s, l) by {
        assert(sh_at(p, b, s, l));
        assert(bounded(p, s));
        match p(s) {
            R::Ok(n, v) => { let m = lemma_from(q, b, s, l, n as int); assert(sh_at(q, c, s.skip(n as int), m)); }
            _ => {}
        }
    }
}
pub(crate) proof fn dn_tagged(p: P, q: P, a: bool, b: bool)
    requires sh(p, a, b), dn(q, b), good(p), good(q),
    ensures dn(tagged(p, q), a),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] dn_at(tagged(p, q), s, l) by {
        assert(sh_at(p, b, s, l));
        assert(bounded(p, s));
        match p(s) {
            R::Ok(n, v) => { let m = lemma_from(q, b, s, l, n as int); assert(dn_at(q, s.skip(n as int), m)); }
            _ => {}
        }
    }
}

// ----- repetition

pub(crate) proof fn many0_stable(p: P, s: Seq<u8>, t: Seq<u8>)
    requires good(p),
    ensures stable(many0(p), s, t), bounded(many0(p), s), asked(many0(p), s), nolit(p) ==> nolit_at(many0(p), s),
    decreases s.len(),
{
    assert(stable(p, s, t)); assert(bounded(p, s)); assert(asked(p, s)); assert(nolit(p) ==> nolit_at(p, s));
    match p(s) {
        R::Ok(n, v) => {
            lemma_sum(s, t, n as int);
            if n > 0 {
                many0_stable(p, s.skip(n as int), t);
                match many0_r(p, s.skip(n as int)) { R::Lit(k, m, g) => lemma_asked(s, n as int, k, m), _ => {} }
            }
        }
        _ => {}
    }
}
pub(crate) proof fn good_many0(p: P)
    requires good(p),
    ensures good(many0(p)), nolit(p) ==> nolit(many0(p)),
{
    let q = many0(p);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(q, s, t) by { many0_stable(p, s, t); }
    assert forall|s: Seq<u8>| #[trigger] bounded(q, s) by { many0_stable(p, s, s); }
    assert forall|s: Seq<u8>| #[trigger] asked(q, s) by { many0_stable(p, s, s); }
    assert forall|s: Seq<u8>| nolit(p) implies #[trigger] nolit_at(q, s) by { many0_stable(p, s, s); }
}
pub(crate) proof fn many0_sh(p: P, a: bool, b: bool, s: Seq<u8>, l: Seq<u8>)
    requires good(p), sh(p, a, b), a ==> b, begun(l, a),
    ensures sh_at(many0(p), a, s, l),
    decreases s.len(),
{
    assert(sh_at(p, b, s, l));
    assert(bounded(p, s));
    good_many0(p);
    match p(s) {
        R::Ok(n, v) => if n > 0 {
            let m = lemma_from(many0(p), b, s, l, n as int);
            many0_sh(p, a, b, s.skip(n as int), m);
        },
        _ => {}
    }
}
pub(crate) proof fn sh_many0(p: P, a: bool, b: bool)
    requires good(p), sh(p, a, b), a ==> b,
    ensures sh(many0(p), a, a),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(many0(p), a, s, l) by { many0_sh(p, a, b, s, l); }
}
pub(crate) proof fn more_stable(sep: P, p: P, s: Seq<u8>, t: Seq<u8>)
    requires good(sep), good(p),
    ensures
        stable(more(sep, p), s, t), bounded(more(sep, p), s), asked(more(sep, p), s),
        nolit(sep) && nolit(p) ==> nolit_at(more(sep, p), s),
    decreases s.len(),
{
    assert(stable(sep, s, t)); assert(bounded(sep, s)); assert(asked(sep, s)); assert(nolit(sep) ==> nolit_at(sep, s));
    match sep(s) {
        R::Ok(k, u) => if k > 0 {
            let r = s.skip(k as int);
            lemma_sum(s, t, k as int);
            assert(stable(p, r, t)); assert(bounded(p, r)); assert(asked(p, r)); assert(nolit(p) ==> nolit_at(p, r));
            match p(r) {
                R::Ok(n, v) => {
                    lemma_sum(s, t, (k + n) as int);
                    more_stable(sep, p, s.skip((k + n) as int), t);
                    match more_r(sep, p, s.skip((k + n) as int)) { R::Lit(x, m, g) => lemma_asked(s, (k + n) as int, x, m), _ => {} }
                }
                R::Lit(x, m, g) => lemma_asked(s, k as int, x, m),
                _ => {}
            }
        },
        _ => {}
    }
}
pub(crate) proof fn good_more(sep: P, p: P)
    requires good(sep), good(p),
    ensures good(more(sep, p)), nolit(sep) && nolit(p) ==> nolit(more(sep, p)),
{
    let q = more(sep, p);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(q, s, t) by { more_stable(sep, p, s, t); }
    assert forall|s: Seq<u8>| #[trigger] bounded(q, s) by { more_stable(sep, p, s, s); }
    assert forall|s: Seq<u8>| #[trigger] asked(q, s) by { more_stable(sep, p, s, s); }
    assert forall|s: Seq<u8>| nolit(sep) && nolit(p) implies #[trigger] nolit_at(q, s) by { more_stable(sep, p, s, s); }
}
pub(crate) proof fn more_sh(sep: P, p: P, a: bool, b: bool, c: bool, s: Seq<u8>, l: Seq<u8>)
    requires good(sep), good(p), sh(sep, a, b), sh(p, b, c), a ==> c, begun(l, a),
    ensures sh_at(more(sep, p), a, s, l),
    decreases s.len(),
{
    good_more(sep, p);
    assert(sh_at(sep, b, s, l));
    assert(bounded(sep, s));
    match sep(s) {
        R::Ok(k, u) => if k > 0 {
            let m = lemma_from(p, b, s, l, k as int);
            assert(sh_at(p, c, s.skip(k as int), m));
            assert(bounded(p, s.skip(k as int)));
            match p(s.skip(k as int)) {
                R::Ok(n, v) => {
                    let m2 = lemma_from(more(sep, p), c, s, l, (k + n) as int);
                    more_sh(sep, p, a, b, c, s.skip((k + n) as int), m2);
                }
                _ => {}
            }
        },
        _ => {}
    }
}
pub(crate) proof fn sh_more(sep: P, p: P, a: bool, b: bool, c: bool)
    requires good(sep), good(p), sh(sep, a, b), sh(p, b, c), a ==> c,
    ensures sh(more(sep, p), a, a),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(more(sep, p), a, s, l) by { more_sh(sep, p, a, b, c, s, l); }
}

// ----- escaped

pub(crate) proof fn escaped_stable(p: P, ctl: u8, q: P, s: Seq<u8>, t: Seq<u8>)
    requires good(p), good(q), nolit(p), nolit(q),
    ensures
        !(escaped_r(p, ctl, q, s) is Inc) ==> escaped_r(p, ctl, q, s + t) == escaped_r(p, ctl, q, s),
        !(escaped_r(p, ctl, q, s) is Lit),
        escaped_r(p, ctl, q, s) matches R::Ok(n, v) ==> n <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(stable(p, s, t)); assert(bounded(p, s)); assert(nolit_at(p, s));
        assert((s + t)[0] == s[0]);
        match p(s) {
            R::Ok(n, v) => if 0 < n < s.len() {
                lemma_sum(s, t, n as int);
                escaped_stable(p, ctl, q, s.skip(n as int), t);
            },
            R::Err => if s[0] == ctl && s.len() > 1 {
                let r = s.skip(1);
                lemma_sum(s, t, 1);
                assert(stable(q, r, t)); assert(bounded(q, r)); assert(nolit_at(q, r));
                match q(r) {
                    R::Ok(m, w) => if 1 + m < s.len() { lemma_sum(s, t, (1 + m) as int); escaped_stable(p, ctl, q, s.skip((1 + m) as int), t); },
                    _ => {}
                }
            },
            _ => {}
        }
    }
}
pub(crate) proof fn good_escaped(p: P, ctl: u8, q: P)
    requires good(p), good(q), nolit(p), nolit(q),
    ensures good(escaped(p, ctl, q)), nolit(escaped(p, ctl, q)),
{
    let z = escaped(p, ctl, q);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(z, s, t) by {
        escaped_stable(p, ctl, q, s, t);
        match z(s) { R::Ok(n, v) => lemma_sum(s, t, n as int), _ => {} }
    }
    assert forall|s: Seq<u8>| #[trigger] bounded(z, s) by { escaped_stable(p, ctl, q, s, s); }
    assert forall|s: Seq<u8>| #[trigger] nolit_at(z, s) by { escaped_stable(p, ctl, q, s, s); }
    assert forall|s: Seq<u8>| #[trigger] asked(z, s) by { escaped_stable(p, ctl, q, s, s); }
}
pub(crate) open spec fn esc_at(p: P, ctl: u8, q: P, s: Seq<u8>, l: Seq<u8>) -> bool {
    match escaped_r(p, ctl, q, s) {
        R::Ok(n, v) => on(scan(St::Line(l), s.take(n as int)), false, n < s.len()),
        R::Inc => busy(scan(St::Line(l), s)),
        _ => true,
    }
}
/// Bytes of `p` and `q` stay in the line: what they consumed is no end of line either when nothing follows.
pub(crate) open spec fn linear_at(p: P, s: Seq<u8>) -> bool { p(s) matches R::Ok(n, v) ==> nocrlf(s.take(n as int)) }
pub(crate) closed spec fn linear(p: P) -> bool { forall|s: Seq<u8>| #[trigger] linear_at(p, s) }
pub(crate) proof fn linear_take_while1(c: C, q: bool)
    requires tame(c, q),
    ensures linear(take_while1(c)),
{
    assert forall|s: Seq<u8>| #[trigger] linear_at(take_while1(c), s) by {
        lemma_span(c, s, s);
        match take_while1(c)(s) {
            R::Ok(n, v) => { assert forall|i: int| 0 <= i < n implies s.take(n as int)[i] != 0x0a && s.take(n as int)[i] != 0x0d by { assert(c(s[i])); } }
            _ => {}
        }
    }
}
pub(crate) proof fn linear_one_of(t: Seq<u8>)
    requires plain_all(t),
    ensures linear(one_of(t)),
{
    lemma_plain_all(t);
    assert forall|s: Seq<u8>| #[trigger] linear_at(one_of(t), s) by {
        if one_of(t)(s) is Ok { let i = choose|i: int| 0 <= i < t.len() && t[i] == s[0]; assert(t[i] != 0x0a); }
    }
}
pub(crate) proof fn escaped_sh(p: P, ctl: u8, q: P, s: Seq<u8>, l: Seq<u8>)
    requires
        good(p), good(q), nolit(p), nolit(q), sh(p, false, false), sh(q, false, false), linear(p), linear(q),
        ctl != 0x0a, ctl != 0x0d, nocrlf(l),
    ensures
        esc_at(p, ctl, q, s, l),
    decreases s.len(), 2int,
{
    if s.len() > 0 {
        assert(sh_at(p, false, s, l)); assert(bounded(p, s)); assert(linear_at(p, s)); assert(nolit_at(p, s));
        match p(s) {
            R::Ok(n, v) => {
                let w = s.take(n as int);
                lemma_scan_plain(l, w);
                lemma_nocrlf(l, w);
                if 0 < n < s.len() { escaped_step(p, ctl, q, s, l, n as int); } else { if n > 0 { assert(w =~= s); } }
            }
            R::Err => if s[0] == ctl { escaped_ctl(p, ctl, q, s, l); },
            _ => {}
        }
    }
}
pub(crate) proof fn escaped_ctl(p: P, ctl: u8, q: P, s: Seq<u8>, l: Seq<u8>)
    requires
        good(p), good(q), nolit(p), nolit(q), sh(p, false, false), sh(q, false, false), linear(p), linear(q),
        ctl != 0x0a, ctl != 0x0d, nocrlf(l), s.len() > 0, s[0] == ctl, p(s) is Err,
    ensures
        esc_at(p, ctl, q, s, l),
    decreases s.len(), 1int,
{
    if s.len() > 1 {
        let r = s.skip(1);
        let w0 = s.take(1);
        assert(w0[0] == ctl);
        lemma_scan_plain(l, w0);
        lemma_nocrlf(l, w0);
        lemma_sum(s, s, 1);
        lemma_scan(St::Line(l), w0, r);
        assert(sh_at(q, false, r, l + w0)); assert(bounded(q, r)); assert(linear_at(q, r)); assert(nolit_at(q, r));
        match q(r) {
            R::Ok(m, v) => {
                let w = s.take((1 + m) as int);
                assert forall|i: int| 0 <= i < w.len() implies w[i] != 0x0a && w[i] != 0x0d by { if i > 0 { assert(w[i] == r.take(m as int)[i - 1]); } }
                lemma_scan_plain(l, w);
                if 1 + m < s.len() {
                    escaped_step(p, ctl, q, s, l, (1 + m) as int);
                    assert(esc_at(p, ctl, q, s, l));
                } else {
                    assert(w =~= s);
                    assert(esc_at(p, ctl, q, s, l));
                }
            }
            _ => { assert(esc_at(p, ctl, q, s, l)); }
        }
    } else {
        lemma_scan_plain(l, s);
    }
}
pub(crate) proof fn lemma_nocrlf(l: Seq<u8>, w: Seq<u8>)
    requires nocrlf(l), nocrlf(w),
    ensures nocrlf(l + w),
{
    assert forall|i: int| 0 <= i < (l + w).len() implies (l + w)[i] != 0x0a && (l + w)[i] != 0x0d by {
        if i >= l.len() { assert((l + w)[i] == w[i - l.len()]); }
    }
}
pub(crate) proof fn escaped_step(p: P, ctl: u8, q: P, s: Seq<u8>, l: Seq<u8>, n: int)
    requires
        good(p), good(q), nolit(p), nolit(q), sh(p, false, false), sh(q, false, false), linear(p), linear(q),
        ctl != 0x0a, ctl != 0x0d, nocrlf(l), 0 < n < s.len(), nocrlf(s.take(n)),
    ensures
        match escaped_r(p, ctl, q, s.skip(n)) {
            R::Ok(k, v) => on(scan(St::Line(l), s.take(n + k)), false, n + k < s.len()),
            R::Inc => busy(scan(St::Line(l), s)),
            _ => true,
        },
    decreases s.len(), 0int,
{
    let w = s.take(n);
    lemma_scan_plain(l, w);
    lemma_nocrlf(l, w);
    escaped_sh(p, ctl, q, s.skip(n), l + w);
    escaped_stable(p, ctl, q, s.skip(n), s);
    lemma_sum(s, s, n);
    lemma_scan(St::Line(l), w, s.skip(n));
    match escaped_r(p, ctl, q, s.skip(n)) {
        R::Ok(k, v) => { lemma_two(s, n, k as int); lemma_scan(St::Line(l), w, s.skip(n).take(k as int)); }
        _ => {}
    }
}
pub(crate) proof fn sh_escaped(p: P, ctl: u8, q: P, a: bool)
    requires
        good(p), good(q), nolit(p), nolit(q), sh(p, false, false), sh(q, false, false), linear(p), linear(q),
        ctl != 0x0a, ctl != 0x0d,
    ensures sh(escaped(p, ctl, q), a, false),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(escaped(p, ctl, q), false, s, l) by {
        escaped_sh(p, ctl, q, s, l);
        escaped_stable(p, ctl, q, s, s);
    }
}

// ----- end of line

/// CRLF; or a bare LF.
pub(crate) open spec fn newline_at(p: P, s: Seq<u8>) -> bool {
    match p(s) {
        R::Ok(n, v) => n <= s.len() && (s.take(n as int) == seq![0x0du8, 0x0au8] || s.take(n as int) == seq![0x0au8]),
        R::Inc => s.len() == 0 || s == seq![0x0du8],
        R::Lit(..) => false,
        _ => true,
    }
}
pub(crate) closed spec fn newline(p: P) -> bool { good(p) && forall|s: Seq<u8>| #[trigger] newline_at(p, s) }
pub(crate) closed spec fn crlf() -> P { tag(seq![0x0du8, 0x0au8], false) }
pub(crate) closed spec fn crlf_relaxed() -> P { pair(opt(tag(seq![0x0du8], false)), tag(seq![0x0au8], false)) }
pub(crate) proof fn newline_crlf()
    ensures newline(crlf()),
{
    let t = seq![0x0du8, 0x0au8];
    good_tag(t, false);
    assert forall|s: Seq<u8>| #[trigger] newline_at(crlf(), s) by {
        match tag_r(t, false, s) {
            R::Ok(n, v) => { assert(same(s[0], t[0], false)); assert(same(s[1], t[1], false)); assert(s.take(2) =~= t); }
            R::Inc => if s.len() > 0 { assert(same(s[0], t[0], false)); assert(s =~= seq![0x0du8]); },
            _ => {}
        }
    }
}
pub(crate) proof fn newline_crlf_relaxed()
    ensures newline(crlf_relaxed()),
{
    let c = seq![0x0du8];
    let l = seq![0x0au8];
    good_tag(c, false);
    good_tag(l, false);
    good_opt(tag(c, false));
    good_pair(opt(tag(c, false)), tag(l, false));
    assert forall|s: Seq<u8>| #[trigger] newline_at(crlf_relaxed(), s) by {
        match tag_r(c, false, s) {
            R::Ok(n, v) => {
                assert(same(s[0], c[0], false));
                let r = s.skip(1);
                match tag_r(l, false, r) {
                    R::Ok(m, w) => { assert(same(r[0], l[0], false)); assert(s.take(2) =~= seq![0x0du8, 0x0au8]); }
                    R::Inc => { assert(s =~= c); }
                    _ => {}
                }
            }
            R::Err => {
                assert(s.skip(0) =~= s);
                match tag_r(l, false, s) { R::Ok(m, w) => { assert(same(s[0], l[0], false)); assert(s.take(1) =~= l); } _ => {} }
            }
            _ => {}
        }
    }
}
pub(crate) proof fn pos_newline(p: P)
    requires newline(p),
    ensures good(p), pos(p), nolit(p),
{
    assert forall|s: Seq<u8>| #[trigger] pos_at(p, s) by {
        assert(newline_at(p, s));
        match p(s) { R::Ok(n, v) => if n == 0 { assert(s.take(0).len() == 0); }, _ => {} }
    }
    assert forall|s: Seq<u8>| #[trigger] nolit_at(p, s) by { assert(newline_at(p, s)); }
}
/// The end of a line `l`.
pub(crate) proof fn lemma_eol(p: P, s: Seq<u8>, l: Seq<u8>)
    requires newline(p), nocrlf(l),
    ensures
        match p(s) {
            R::Ok(n, v) => 0 < n <= s.len() && s[n - 1] == 0x0a && scan(St::Line(l), s.take(n as int)) == match announces(l) { None => St::Done, Some(a) => St::Ann(a) },
            R::Inc => busy(scan(St::Line(l), s)),
            R::Lit(..) => false,
            _ => true,
        },
{
    assert(newline_at(p, s));
    match p(s) {
        R::Ok(n, v) => {
            let w = s.take(n as int);
            if w == seq![0x0du8, 0x0au8] {
                assert(w.len() == 2);
                assert(w.drop_last() =~= seq![0x0du8]);
                lemma_scan_plain(l, w.drop_last());
                let ll = (l + w.drop_last()).push(0x0a);
                assert(ll.drop_last().drop_last() =~= l);
                assert(ll.drop_last().last() == 0x0d);
                assert(w.last() == 0x0a);
            } else {
                assert(w.len() == 1);
                assert(w.drop_last() =~= seq![]);
                let ll = l.push(0x0a);
                assert(ll.drop_last() =~= l);
                assert(w.last() == 0x0a);
                assert(scan(St::Line(l), w.drop_last()) == St::Line(l));
                assert(scan(St::Line(l), w) == go(St::Line(l), 0x0a));
            }
            assert(s[n - 1] == w.last());
        }
        R::Inc => { lemma_scan_plain(l, s); }
        _ => {}
    }
}
pub(crate) proof fn dn_newline(p: P)
    requires newline(p),
    ensures dn(p, true),
{
    assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, true) implies #[trigger] dn_at(p, s, l) by {
        lemma_eol(p, s, l);
        lemma_safe_silent(l);
    }
}

// ----- literals

/// Reads a number of at most 32 bits.
pub(crate) open spec fn numeral_at(p: P, s: Seq<u8>) -> bool {
    p(s) matches R::Ok(n, v) ==> 0 < n <= s.len() && all_digits(s.take(n as int)) && v == V::N(val(s.take(n as int))) && val(s.take(n as int)) <= u32::MAX
}
pub(crate) closed spec fn numeral(p: P) -> bool { forall|s: Seq<u8>| #[trigger] numeral_at(p, s) }
pub(crate) open spec fn digital(c: C) -> bool { forall|b: u8| #[trigger] c(b) ==> is_digit(b) }
pub(crate) proof fn numeral_decimal(c: C, max: nat)
    requires digital(c), max <= u32::MAX,
    ensures numeral(decimal(take_while1(c), max)),
{
    assert forall|s: Seq<u8>| #[trigger] numeral_at(decimal(take_while1(c), max), s) by {
        lemma_span(c, s, s);
        match take_while1(c)(s) {
            R::Ok(n, v) => {
                let d = s.take(n as int);
                assert forall|i: int| 0 <= i < d.len() implies is_digit(d[i]) by { assert(c(s[i])); }
            }
            _ => {}
        }
    }
}
pub(crate) open spec fn opening(open: Seq<u8>) -> bool { open.len() > 0 && open.last() == 0x7b && plain_all(open) }
pub(crate) open spec fn prefix(open: Seq<u8>, num: P) -> P {
    pair(tag(open, false), pair(num, pair(opt(tag(seq![0x2bu8], false)), tag(seq![0x7du8], false))))
}
pub(crate) closed spec fn literal(open: Seq<u8>, num: P, nl: P, yes: bool, no: bool) -> P {
    after_header(pair(prefix(open, num), nl), seq![0, 1, 0], seq![0, 1, 1, 0], yes, no)
}
pub(crate) proof fn lemma_path(v: V)
    ensures
        at(v, seq![0, 1, 0]) == vf(0, vf(1, vf(0, v))),
        at(v, seq![0, 1, 1, 0]) == vf(0, vf(1, vf(1, vf(0, v)))),
{
    assert(seq![0int, 1, 0].skip(1) =~= seq![1, 0]);
    assert(seq![1int, 0].skip(1) =~= seq![0]);
    assert(seq![0int].skip(1) =~= seq![]);
    assert(seq![0int, 1, 1, 0].skip(1) =~= seq![1, 1, 0]);
    assert(seq![1int, 1, 0].skip(1) =~= seq![1, 0]);
    reveal_with_fuel(at, 5);
}
pub(crate) proof fn lemma_prefix(open: Seq<u8>, num: P, s: Seq<u8>)
    requires opening(open), numeral(num),
    ensures
        prefix(open, num)(s) matches R::Ok(n, v) ==> n <= s.len() && {
            let w = V::P(Box::new(v), Box::new(V::U));
            &&& at(w, seq![0, 1, 0]) matches V::N(k) && k <= u32::MAX && forall|l: Seq<u8>| announces(#[trigger] (l + s.take(n as int))) == Some(ann(k, at(w, seq![0, 1, 1, 0]) != none()))
        },
{
    let plus = seq![0x2bu8];
    let close = seq![0x7du8];
    match prefix(open, num)(s) {
        R::Ok(n, v) => {
            lemma_path(V::P(Box::new(v), Box::new(V::U)));
            let n0 = open.len() as int;
            let s1 = s.skip(n0);
            assert(numeral_at(num, s1));
            let n1 = match num(s1) { R::Ok(k, x) => k as int, _ => 0 };
            let d = s1.take(n1);
            let s2 = s1.skip(n1);
            let n2 = if tag_r(plus, false, s2) is Ok { 1int } else { 0int };
            let s3 = s2.skip(n2);
            assert(tag_r(close, false, s3) is Ok);
            assert(same(s3[0], close[0], false));
            assert(n == n0 + n1 + n2 + 1);
            let w = s.take(n as int);
            if n2 == 1 { assert(same(s2[0], plus[0], false)); }
            assert(s[n0 - 1] == open[n0 - 1]) by { assert(same(s[n0 - 1], open[n0 - 1], false)); }
            assert(w.last() == 0x7d);
            assert forall|l: Seq<u8>| announces(#[trigger] (l + w)) == Some(ann(val(d), n2 == 1)) by {
                let h = l + s.take(n0);
                assert(h.last() == 0x7b);
                lemma_braced(h, d);
                let z = l + w;
                assert(z.last() == 0x7d);
                let t = z.drop_last();
                if n2 == 1 {
                    assert(t.last() == s2[0]);
                    assert(t.drop_last() =~= h + d);
                } else {
                    assert(t =~= h + d);
                    assert(t.last() == d.last());
                    assert(is_digit(d[n1 - 1]));
                }
            }
            if n2 == 1 { assert(opt(tag(plus, false))(s2) == R::Ok(1, some(V::B(s2.take(1))))); } else { assert(opt(tag(plus, false))(s2) == R::Ok(0, none())); }
        }
        _ => {}
    }
}
pub(crate) proof fn lemma_prefix_good(open: Seq<u8>, num: P)
    requires opening(open), good(num), nolit(num), sh(num, false, false),
    ensures
        good(prefix(open, num)), nolit(prefix(open, num)), sh(prefix(open, num), false, false), pos(prefix(open, num)),
{
    let plus = seq![0x2bu8];
    let close = seq![0x7du8];
    good_tag(open, false); good_tag(plus, false); good_tag(close, false);
    pos_tag(open, false);
    good_opt(tag(plus, false));
    let p3 = pair(opt(tag(plus, false)), tag(close, false));
    good_pair(opt(tag(plus, false)), tag(close, false));
    good_pair(num, p3);
    good_pair(tag(open, false), pair(num, p3));
    assert(fits(seq![0x2bu8], false, false)) by (compute);
    assert(fits(seq![0x7du8], false, false)) by (compute);
    sh_tag(open, false, false, false); sh_tag(plus, false, false, false); sh_tag(close, false, false, false);
    sh_opt(tag(plus, false), false, false);
    sh_pair(opt(tag(plus, false)), tag(close, false), false, false, false);
    sh_pair(num, p3, false, false, false);
    sh_pair(tag(open, false), pair(num, p3), false, false, false);
}
pub(crate) proof fn lemma_ends(w: Seq<u8>, eol: Seq<u8>, k: nat, m: bool)
    requires
        k <= u32::MAX, announces(w) == Some(ann(k, m)),
        eol == seq![0x0du8, 0x0au8] || eol == seq![0x0au8],
    ensures ends_announcing(w + eol, k, m),
{
    let x = w + eol;
    if eol == seq![0x0du8, 0x0au8] { assert(eol.len() == 2); assert(x.drop_last().drop_last() =~= w); assert(x.drop_last().last() == eol[0]); assert(x.last() == eol[1]); }
    else { assert(eol.len() == 1); assert(x.drop_last() =~= w); assert(x.last() == eol[0]); }
}
/// The header of a literal, from a line `l`.
pub(crate) proof fn lemma_header(open: Seq<u8>, num: P, nl: P, s: Seq<u8>, l: Seq<u8>)
    requires opening(open), good(num), nolit(num), sh(num, false, false), numeral(num), newline(nl), nocrlf(l),
    ensures
        match pair(prefix(open, num), nl)(s) {
            R::Ok(e, v) => 0 < e <= s.len() && s[e - 1] == 0x0a && match at(v, seq![0, 1, 0]) {
                V::N(k) => {
                    &&& k <= u32::MAX
                    &&& scan(St::Line(l), s.take(e as int)) == St::Ann(ann(k, at(v, seq![0, 1, 1, 0]) != none()))
                    &&& ends_announcing(s.take(e as int), k, at(v, seq![0, 1, 1, 0]) != none())
                },
                _ => false,
            },
            R::Inc => busy(scan(St::Line(l), s)),
            R::Lit(..) => false,
            _ => true,
        },
{
    hide(prefix);
    hide(announces);
    hide(go);
    hide(ends_announcing);
    let pre = prefix(open, num);
    let h = pair(pre, nl);
    lemma_prefix_good(open, num);
    lemma_prefix(open, num, s);
    assert(bounded(pre, s)); assert(nolit_at(pre, s)); assert(sh_at(pre, false, s, l)); assert(pos_at(pre, s));
    match pre(s) {
        R::Ok(n, v) => {
            let w = s.take(n as int);
            let rest = s.skip(n as int);
            let z = V::P(Box::new(v), Box::new(V::U));
            lemma_sum(s, s, n as int);
            let k = match at(z, seq![0, 1, 0]) { V::N(k) => k, _ => 0 };
            let m = at(z, seq![0, 1, 1, 0]) != none();
            assert(announces(l + w) == Some(ann(k, m)));
            lemma_prefix_line(open, num, s, l);
            lemma_eol(nl, rest, l + w);
            match nl(rest) {
                R::Ok(j, u) => {
                    let v2 = V::P(Box::new(v), Box::new(u));
                    lemma_path(v2); lemma_path(z);
                    let e = (n + j) as int;
                    lemma_two(s, n as int, j as int);
                    lemma_scan(St::Line(l), w, rest.take(j as int));
                    assert(scan(St::Line(l), s.take(e)) == St::Ann(ann(k, m)));
                    let x = s.take(e);
                    let eol = rest.take(j as int);
                    assert(announces(Seq::<u8>::empty() + w) == Some(ann(k, m)));
                    assert(Seq::<u8>::empty() + w =~= w);
                    assert(newline_at(nl, rest));
                    assert(x == w + eol);
                    lemma_ends(w, eol, k, m);
                }
                R::Inc => { lemma_scan(St::Line(l), w, rest); }
                _ => {}
            }
        }
        _ => {}
    }
}
/// What a literal does, from a line `l`.
pub(crate) proof fn lemma_literal(open: Seq<u8>, num: P, nl: P, s: Seq<u8>, l: Seq<u8>)
    requires opening(open), good(num), nolit(num), sh(num, false, false), numeral(num), newline(nl), nocrlf(l),
    ensures
        sh_at(literal(open, num, nl, true, false), true, s, l), asked(literal(open, num, nl, true, false), s),
        bounded(literal(open, num, nl, true, false), s), pos_at(literal(open, num, nl, true, false), s),
{
    let h = pair(prefix(open, num), nl);
    lemma_header(open, num, nl, s, l);
    match h(s) {
        R::Ok(n, v) => {
            let e = n as int;
            let k = match at(v, seq![0, 1, 0]) { V::N(k) => k, _ => 0 };
            let m = at(v, seq![0, 1, 1, 0]) != none();
            if s.len() == e {
                assert(s.take(e) =~= s);
            } else {
                let data = s.skip(e);
                lemma_sum(s, s, e);
                lemma_scan(St::Line(l), s.take(e), data);
                if data.len() >= k {
                    let d = data.take(k as int);
                    lemma_two(s, e, k as int);
                    lemma_scan(St::Line(l), s.take(e), d);
                    lemma_data(ann(k, m), d);
                    assert(d.len() == k);
                } else {
                    lemma_data(ann(k, m), data);
                }
            }
        }
        _ => {}
    }
}
/// Within the bytes of a literal.
pub(crate) proof fn lemma_data(a: LiteralAnnouncement, w: Seq<u8>)
    requires w.len() <= a.length || a.length == 0,
    ensures
        w.len() == 0 ==> scan(St::Ann(a), w) == St::Ann(a),
        0 < w.len() < a.length ==> scan(St::Ann(a), w) == St::Data((a.length - w.len()) as nat),
        0 < w.len() == a.length ==> scan(St::Ann(a), w) == St::Line(seq![]),
    decreases w.len(),
{
    if w.len() > 0 { lemma_data(a, w.drop_last()); }
}
pub(crate) proof fn lemma_prefix_line(open: Seq<u8>, num: P, s: Seq<u8>, l: Seq<u8>)
    requires opening(open), good(num), nolit(num), sh(num, false, false), numeral(num), nocrlf(l),
    ensures
        prefix(open, num)(s) matches R::Ok(n, v) ==> n <= s.len() && scan(St::Line(l), s.take(n as int)) == St::Line(l + s.take(n as int)) && nocrlf(l + s.take(n as int)) && s.take(n as int).last() != 0x0d,
{
    let plus = seq![0x2bu8];
    let close = seq![0x7du8];
    lemma_plain_all(open);
    match prefix(open, num)(s) {
        R::Ok(n, v) => {
            let n0 = open.len() as int;
            let s1 = s.skip(n0);
            assert(numeral_at(num, s1));
            let n1 = match num(s1) { R::Ok(k, x) => k as int, _ => 0 };
            let d = s1.take(n1);
            let s2 = s1.skip(n1);
            let n2 = if tag_r(plus, false, s2) is Ok { 1int } else { 0int };
            let s3 = s2.skip(n2);
            assert(tag_r(close, false, s3) is Ok);
            assert(same(s3[0], close[0], false));
            if n2 == 1 { assert(same(s2[0], plus[0], false)); }
            assert(n == n0 + n1 + n2 + 1);
            let w = s.take(n as int);
            assert forall|i: int| 0 <= i < w.len() implies w[i] != 0x0a && w[i] != 0x0d by {
                if i < n0 { assert(same(s[i], open[i], false)); }
                else if i < n0 + n1 { assert(w[i] == d[i - n0]); }
                else if i < n0 + n1 + n2 { assert(w[i] == s2[0]); }
                else { assert(w[i] == s3[0]); }
            }
            lemma_scan_plain(l, w);
            lemma_nocrlf(l, w);
        }
        _ => {}
    }
}
/// A literal with a plus is non-synchronizing (`yes`), one without is synchronizing (not `no`).
pub(crate) proof fn good_literal(open: Seq<u8>, num: P, nl: P, yes: bool, no: bool)
    requires opening(open), good(num), nolit(num), sh(num, false, false), numeral(num), newline(nl), yes, !no,
    ensures
        good(literal(open, num, nl, yes, no)), pos(literal(open, num, nl, yes, no)),
        forall|a: bool| sh(literal(open, num, nl, yes, no), a, true),
{
    let p = literal(open, num, nl, true, false);
    let h = pair(prefix(open, num), nl);
    lemma_prefix_good(open, num);
    pos_newline(nl);
    good_pair(prefix(open, num), nl);
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(p, s, t) by {
        assert(stable(h, s, t)); assert(bounded(h, s)); assert(nolit_at(h, s));
        match h(s) {
            R::Ok(n, v) => {
                lemma_sum(s, t, n as int);
                match at(v, seq![0, 1, 0]) { V::N(k) => { good_take(k); assert(stable(take(k), s.skip(n as int), t)); } _ => {} }
            }
            _ => {}
        }
    }
    assert forall|s: Seq<u8>| #[trigger] bounded(p, s) by { lemma_literal(open, num, nl, s, seq![]); }
    assert forall|s: Seq<u8>| #[trigger] asked(p, s) by { lemma_literal(open, num, nl, s, seq![]); }
    assert forall|s: Seq<u8>| #[trigger] pos_at(p, s) by { lemma_literal(open, num, nl, s, seq![]); }
    assert forall|a: bool| sh(p, a, true) by {
        assert forall|s: Seq<u8>, l: Seq<u8>| begun(l, a) implies #[trigger] sh_at(p, true, s, l) by { lemma_literal(open, num, nl, s, l); }
    }
}

// ----- bounded repetition

pub(crate) proof fn good_many_m_n(lo: nat, hi: nat, p: P)
    requires good(p),
    ensures good(many_m_n(lo, hi, p)), nolit(p) ==> nolit(many_m_n(lo, hi, p)), 0 < lo <= hi ==> pos(many_m_n(lo, hi, p)),
{
    let q = many_m_n(lo, hi, p);
    assert forall|s: Seq<u8>| #[trigger] bounded(q, s) by { lemma_many(lo, hi, p, s, seq![]); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] stable(q, s, t) by { lemma_many(lo, hi, p, s, t); }
    assert forall|s: Seq<u8>| #[trigger] asked(q, s) by { lemma_many(lo, hi, p, s, seq![]); }
    if nolit(p) {
        assert forall|s: Seq<u8>| #[trigger] nolit_at(q, s) by { lemma_many(lo, hi, p, s, seq![]); }
    }
    if 0 < lo <= hi {
        assert forall|s: Seq<u8>| #[trigger] pos_at(q, s) by { lemma_many(lo, hi, p, s, seq![]); }
    }
}
pub(crate) proof fn lemma_many(lo: nat, hi: nat, p: P, s: Seq<u8>, t: Seq<u8>)
    requires good(p),
    ensures
        many_r(lo, hi, p, s) matches R::Ok(n, v) ==> n <= s.len() && (0 < lo && 0 < hi ==> n > 0),
        match many_r(lo, hi, p, s) { R::Inc | R::Lit(..) => true, r => many_r(lo, hi, p, s + t) == r },
        many_r(lo, hi, p, s) matches R::Lit(n, m, g) ==> ends_announcing(s, n, m) && !nolit(p),
    decreases hi,
{
    if hi > 0 {
        assert(bounded(p, s)); assert(stable(p, s, t)); assert(asked(p, s)); assert(nolit(p) ==> nolit_at(p, s));
        match p(s) {
            R::Ok(n, v) => if n > 0 {
                lemma_sum(s, t, n as int);
                let l2 = if lo > 0 { (lo - 1) as nat } else { 0 };
                lemma_many(l2, (hi - 1) as nat, p, s.skip(n as int), t);
                match many_r(l2, (hi - 1) as nat, p, s.skip(n as int)) {
                    R::Lit(k, m, g) => { lemma_asked(s, n as int, k, m); }
                    _ => {}
                }
            }
            _ => {}
        }
    }
}

// ----- parsers for which there is no contract: what is at the end of the input decides

pub(crate) uninterp spec fn without(k: int) -> P;
/// Nothing is known: the obligation is not met.
pub(crate) proof fn no_contract(p: P)
    requires false,
    ensures good(p),
{}

// ----- where the code unwraps

/// What is parsed are bytes of which each satisfies `g`.
pub(crate) open spec fn within_at(p: P, g: C, s: Seq<u8>) -> bool {
    p(s) matches R::Ok(n, v) ==> exists|d: Seq<u8>| v == V::B(d) && #[trigger] all_of(g, d)
}
pub(crate) open spec fn all_of(g: C, d: Seq<u8>) -> bool { forall|i: int| 0 <= i < d.len() ==> #[trigger] g(d[i]) }
pub(crate) open spec fn within(p: P, g: C) -> bool { forall|s: Seq<u8>| #[trigger] within_at(p, g, s) }
/// Only ASCII: `from_utf8` succeeds.
pub(crate) open spec fn is_ascii(b: u8) -> bool { b < 0x80 }
pub(crate) open spec fn g_ascii() -> C { |b: u8| is_ascii(b) }
pub(crate) open spec fn g_atom() -> C { |b: u8| atom_char(b) }
pub(crate) open spec fn g_atom_ext() -> C { |b: u8| astring_char(b) }
pub(crate) open spec fn g_tag() -> C { |b: u8| tag_char(b) }
pub(crate) open spec fn g_text() -> C { |b: u8| text_char(b) }
pub(crate) open spec fn g_list() -> C { |b: u8| list_char(b) }
/// At least one byte.
pub(crate) open spec fn filled_at(p: P, s: Seq<u8>) -> bool {
    p(s) matches R::Ok(n, v) ==> exists|d: Seq<u8>| v == V::B(d) && #[trigger] d.len() > 0
}
pub(crate) open spec fn filled(p: P) -> bool { forall|s: Seq<u8>| #[trigger] filled_at(p, s) }
/// Exactly one byte.
pub(crate) open spec fn one_at(p: P, s: Seq<u8>) -> bool {
    p(s) matches R::Ok(n, v) ==> exists|d: Seq<u8>| v == V::B(d) && #[trigger] d.len() == 1
}
pub(crate) open spec fn one(p: P) -> bool { forall|s: Seq<u8>| #[trigger] one_at(p, s) }
/// A list with an element.
pub(crate) open spec fn nonempty_at(p: P, s: Seq<u8>) -> bool { p(s) matches R::Ok(n, v) ==> v is P }
pub(crate) open spec fn nonempty(p: P) -> bool { forall|s: Seq<u8>| #[trigger] nonempty_at(p, s) }
/// A list with two elements.
pub(crate) open spec fn two_at(p: P, s: Seq<u8>) -> bool { p(s) matches R::Ok(n, v) ==> v matches V::P(x, y) && *y is P }
pub(crate) open spec fn two(p: P) -> bool { forall|s: Seq<u8>| #[trigger] two_at(p, s) }

pub(crate) open spec fn sub(c: C, g: C) -> bool { forall|b: u8| #[trigger] c(b) ==> g(b) }
pub(crate) proof fn lemma_sub(c: C, g: C, s: Seq<u8>, k: int)
    requires sub(c, g), 0 <= k <= span(c, s),
    ensures all_of(g, s.take(k)),
{
    lemma_span(c, s, s);
    assert forall|i: int| 0 <= i < k implies #[trigger] g(s.take(k)[i]) by { assert(c(s[i])); }
}
pub(crate) proof fn within_take_while(c: C, g: C)
    requires sub(c, g),
    ensures within(take_while(c), g),
{
    assert forall|s: Seq<u8>| #[trigger] within_at(take_while(c), g, s) by { lemma_span(c, s, s); lemma_sub(c, g, s, span(c, s) as int); }
}
pub(crate) proof fn within_take_while1(c: C, g: C)
    requires sub(c, g),
    ensures within(take_while1(c), g), filled(take_while1(c)),
{
    assert forall|s: Seq<u8>| #[trigger] within_at(take_while1(c), g, s) by { lemma_span(c, s, s); lemma_sub(c, g, s, span(c, s) as int); }
    assert forall|s: Seq<u8>| #[trigger] filled_at(take_while1(c), s) by { lemma_span(c, s, s); assert(s.take(span(c, s) as int).len() == span(c, s)); }
}
pub(crate) proof fn within_take_while_m_n(m: nat, n: nat, c: C, g: C)
    requires sub(c, g), m <= n,
    ensures within(take_while_m_n(m, n, c), g), m > 0 ==> filled(take_while_m_n(m, n, c)),
{
    assert forall|s: Seq<u8>| #[trigger] within_at(take_while_m_n(m, n, c), g, s) by {
        lemma_span(c, s, s);
        lemma_sub(c, g, s, if span(c, s) <= n { span(c, s) as int } else { n as int });
    }
    if m > 0 {
        assert forall|s: Seq<u8>| #[trigger] filled_at(take_while_m_n(m, n, c), s) by {
            lemma_span(c, s, s);
            let k = if span(c, s) <= n { span(c, s) as int } else { n as int };
            assert(s.take(k).len() == k);
        }
    }
}
pub(crate) proof fn one_take_while_m_n(m: nat, n: nat, c: C)
    requires m == 1, n == 1,
    ensures one(take_while_m_n(m, n, c)),
{
    assert forall|s: Seq<u8>| #[trigger] one_at(take_while_m_n(m, n, c), s) by {
        lemma_span(c, s, s);
        assert(s.len() >= 1 ==> s.take(1).len() == 1);
    }
}
pub(crate) proof fn nonempty_pair(p: P, q: P)
    ensures nonempty(pair(p, q)),
{
    assert forall|s: Seq<u8>| #[trigger] nonempty_at(pair(p, q), s) by {}
}
pub(crate) proof fn two_many_m_n(lo: nat, hi: nat, p: P)
    requires lo >= 2,
    ensures two(many_m_n(lo, hi, p)),
{
    assert forall|s: Seq<u8>| #[trigger] two_at(many_m_n(lo, hi, p), s) by {
        reveal_with_fuel(many_r, 3);
    }
}
/// The value of one of these closures.
pub(crate) open spec fn made_at(p: P, g: spec_fn(int) -> bool, s: Seq<u8>) -> bool {
    p(s) matches R::Ok(n, v) ==> (v matches V::A(k, x) && g(k))
}
pub(crate) open spec fn made(p: P, g: spec_fn(int) -> bool) -> bool { forall|s: Seq<u8>| #[trigger] made_at(p, g, s) }
pub(crate) open spec fn none_made() -> spec_fn(int) -> bool { |k: int| false }
pub(crate) proof fn made_vmap(p: P, k: int, g: spec_fn(int) -> bool)
    requires k >= 2, g(k),
    ensures made(vmap(p, k), g),
{
    assert forall|s: Seq<u8>| #[trigger] made_at(vmap(p, k), g, s) by {}
}
pub(crate) proof fn made_filter(p: P, k: int, hard: bool, g: spec_fn(int) -> bool)
    requires k >= 2, g(k),
    ensures made(filter(p, k, hard), g),
{
    assert forall|s: Seq<u8>| #[trigger] made_at(filter(p, k, hard), g, s) by {}
}
pub(crate) proof fn made_alt(p: P, q: P, g: spec_fn(int) -> bool)
    requires made(p, g), made(q, g),
    ensures made(alt(p, q), g),
{
    assert forall|s: Seq<u8>| #[trigger] made_at(alt(p, q), g, s) by { assert(made_at(p, g, s) && made_at(q, g, s)); }
}
pub(crate) proof fn within_tag(t: Seq<u8>, g: C)
    requires t.len() == 1, g(t[0]),
    ensures within(tag(t, false), g), one(tag(t, false)),
{
    assert forall|s: Seq<u8>| #[trigger] within_at(tag(t, false), g, s) by {
        if tag(t, false)(s) is Ok {
            assert(same(s[0], t[0], false));
            assert(all_of(g, s.take(1)));
        }
    }
    assert forall|s: Seq<u8>| #[trigger] one_at(tag(t, false), s) by {
        if tag(t, false)(s) is Ok { assert(s.take(1).len() == 1); }
    }
}
pub(crate) proof fn within_alt(p: P, q: P, g: C)
    requires within(p, g), within(q, g), one(p), one(q),
    ensures within(alt(p, q), g), one(alt(p, q)),
{
    assert forall|s: Seq<u8>| #[trigger] within_at(alt(p, q), g, s) by { assert(within_at(p, g, s) && within_at(q, g, s)); }
    assert forall|s: Seq<u8>| #[trigger] one_at(alt(p, q), s) by { assert(one_at(p, s) && one_at(q, s)); }
}
/// A number up to `max`.
pub(crate) open spec fn small_at(p: P, max: nat, s: Seq<u8>) -> bool { p(s) matches R::Ok(n, v) ==> (v matches V::N(k) && k <= max) }
pub(crate) open spec fn small(p: P, max: nat) -> bool { forall|s: Seq<u8>| #[trigger] small_at(p, max, s) }
pub(crate) proof fn small_decimal(m: nat, n: nat, c: C, most: nat, max: nat)
    requires digital(c), 0 < m <= n, most <= max || n <= 4 && 9999 <= max,
    ensures small(decimal(take_while_m_n(m, n, c), most), max),
{
    assert forall|s: Seq<u8>| #[trigger] small_at(decimal(take_while_m_n(m, n, c), most), max, s) by {
        within_take_while_m_n(m, n, c, c);
        assert(within_at(take_while_m_n(m, n, c), c, s));
        assert(filled_at(take_while_m_n(m, n, c), s));
        match take_while_m_n(m, n, c)(s) {
            R::Ok(j, v) => {
                let d = choose|d: Seq<u8>| v == V::B(d) && #[trigger] all_of(c, d);
                assert(d.len() <= n);
                assert forall|i: int| 0 <= i < d.len() implies is_digit(#[trigger] d[i]) by { assert(c(d[i])); }
                assert(all_digits(d));
                if n <= 4 { reveal_with_fuel(val, 5); }
            }
            _ => {}
        }
    }
}
/// `saturating_sub(1)`
pub(crate) open spec fn less_one(l: int) -> int { if l <= 0 { 0 } else { l - 1 } }
pub(crate) open spec fn all_in(t: Seq<u8>, g: C) -> bool
    decreases t.len(),
{
    if t.len() == 0 { true } else if !g(t.last()) { false } else { all_in(t.drop_last(), g) }
}
pub(crate) proof fn lemma_all_in(t: Seq<u8>, g: C, b: u8)
    requires all_in(t, g), t.contains(b),
    ensures g(b),
    decreases t.len(),
{
    if t.len() > 0 {
        let i = choose|i: int| 0 <= i < t.len() && t[i] == b;
        if i < t.len() - 1 { assert(t.drop_last()[i] == b); lemma_all_in(t.drop_last(), g, b); }
    }
}
pub(crate) proof fn lemma_within_escaped(c: C, ctl: u8, t: Seq<u8>, g: C, s: Seq<u8>)
    requires sub(c, g), g(ctl), all_in(t, g),
    ensures escaped_r(take_while1(c), ctl, one_of(t), s) matches R::Ok(n, v) ==> n <= s.len() && all_of(g, s.take(n as int)),
    decreases s.len(),
{
    let p = take_while1(c);
    let q = one_of(t);
    if s.len() > 0 {
        lemma_span(c, s, s);
        match p(s) {
            R::Ok(n, v) => if 0 < n < s.len() {
                lemma_sub(c, g, s, n as int);
                lemma_within_escaped(c, ctl, t, g, s.skip(n as int));
                match escaped_r(p, ctl, q, s.skip(n as int)) {
                    R::Ok(m, w) => { lemma_within_join(s, g, n as int, m as int); }
                    _ => {}
                }
            }
            R::Err => if s[0] == ctl && s.len() > 1 {
                match q(s.skip(1)) {
                    R::Ok(m, w) => if 1 + m < s.len() {
                        lemma_all_in(t, g, s[1]);
                        lemma_within_escaped(c, ctl, t, g, s.skip((1 + m) as int));
                        match escaped_r(p, ctl, q, s.skip((1 + m) as int)) {
                            R::Ok(k, w) => {
                                assert forall|i: int| 0 <= i < 2 implies #[trigger] g(s.take(2)[i]) by {}
                                lemma_within_join(s, g, 2, k as int);
                            }
                            _ => {}
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
}
pub(crate) proof fn lemma_within_join(s: Seq<u8>, g: C, n: int, m: int)
    requires 0 <= n, 0 <= m, n + m <= s.len(), all_of(g, s.take(n)), all_of(g, s.skip(n).take(m)),
    ensures all_of(g, s.take(n + m)),
{
    assert forall|i: int| 0 <= i < n + m implies #[trigger] g(s.take(n + m)[i]) by {
        if i < n { assert(g(s.take(n)[i])); } else { assert(g(s.skip(n).take(m)[i - n])); }
    }
}
pub(crate) proof fn within_escaped(c: C, ctl: u8, t: Seq<u8>, g: C)
    requires sub(c, g), g(ctl), all_in(t, g),
    ensures within(escaped(take_while1(c), ctl, one_of(t)), g),
{
    assert forall|s: Seq<u8>| #[trigger] within_at(escaped(take_while1(c), ctl, one_of(t)), g, s) by { lemma_within_escaped(c, ctl, t, g, s); }
}

// ----- the contracts, spelled out

pub(crate) proof fn fact_good(p: P, s: Seq<u8>, t: Seq<u8>)
    requires good(p),
    ensures
        p(s) matches R::Ok(n, v) ==> n <= s.len(),
        match p(s) { R::Inc | R::Lit(..) => true, r => p(s + t) == r },
        p(s) matches R::Lit(n, m, g) ==> ends_announcing(s, n, m),
{
    assert(bounded(p, s)); assert(stable(p, s, t)); assert(asked(p, s));
}
pub(crate) proof fn fact_nolit(p: P, s: Seq<u8>)
    requires nolit(p),
    ensures !(p(s) is Lit),
{ assert(nolit_at(p, s)); }
pub(crate) proof fn fact_pos(p: P, s: Seq<u8>)
    requires pos(p),
    ensures p(s) matches R::Ok(n, v) ==> n > 0,
{ assert(pos_at(p, s)); }
pub(crate) proof fn fact_dn(p: P, s: Seq<u8>)
    requires dn(p, true),
    ensures
        match p(s) {
            R::Ok(n, v) => scan(St::Line(seq![]), s.take(n as int)) is Done,
            R::Inc => busy(scan(St::Line(seq![]), s)),
            R::Lit(n, m, g) => scan(St::Line(seq![]), s) == St::Ann(ann(n, m)),
            _ => true,
        },
{
    let l = Seq::<u8>::empty();
    assert(begun(l, true));
    assert(dn_at(p, s, l));
}
/// The tag that comes with a request for a literal is the one of the message.
pub(crate) proof fn fact_tagged(p: P, q: P, k: int, s: Seq<u8>, t: Seq<u8>)
    requires good(p), nolit(p), k >= 3,
    ensures
        vmap(tagged(p, q), k)(s) matches R::Lit(n, m, g) ==> {
            &&& tag_of(g) is Some
            &&& vmap(tagged(p, q), k)(s + t) matches R::Ok(j, v) ==> tag_of(g) == Some(vf(0, under(v)))
        },
{
    assert(stable(p, s, t));
    assert(nolit_at(p, s));
}
/// What a function was applied to.
pub(crate) open spec fn under(v: V) -> V { match v { V::A(k, x) => *x, x => x } }

// ===== decoders ====================================================================================

/// What `decode` returns: message and bytes consumed, `Incomplete`, `Failed`, `LiteralFound`.
pub enum D { Ok(nat, V), Inc, Failed, Lit(nat, Option<bool>, Option<V>), Panic }

/// The tag that came with the request for a literal.
pub(crate) open spec fn tag_of(g: V) -> Option<V> { match g { V::A(k, v) if k == -1 => Some(*v), _ => None } }
