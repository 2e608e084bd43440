//@ cfg all-features debug
#![allow(unused, non_snake_case, unused_parens, unused_braces)]
#![verifier::allow(autoderive_clone_without_spec)]
use std::{collections::VecDeque, ops::Range};
use vstd::prelude::*;
verus! {

// ===== specification of the stream =================================================================

//@ include announce.inc
spec fn line_ending(line: Seq<u8>) -> LineEnding {
    let s = line.drop_last();
    if s.len() > 0 && s.last() == 0x0d { LineEnding::CrLf } else { LineEnding::Lf }
}

/// Position after the first LF at or after `i`, if any.
spec fn lf_from(s: Seq<u8>, i: int) -> Option<int>
    decreases s.len() - i,
{
    if i < 0 || i >= s.len() { None } else if s[i] == 0x0a { Some(i + 1) } else { lf_from(s, i + 1) }
}

// ===== what the line parser has seen ===============================================================

spec fn no_lf(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 0x0a }

/// The state that stands for the part `s` of a line seen so far.
spec fn lb(s: Seq<u8>) -> LatestByte {
    if s.len() == 0 {
        LatestByte::Other
    } else {
        let b = s.last();
        let t = s.drop_last();
        if b == 0x0d {
            LatestByte::Cr { announcement: announces(t) }
        } else if b == 0x7b {
            LatestByte::OpeningBracket
        } else if is_digit(b) {
            match braced(s) { Some(length) => LatestByte::Digit { length }, None => LatestByte::Other }
        } else if b == 0x2b {
            match braced(t) { Some(length) => LatestByte::Plus { length }, None => LatestByte::Other }
        } else if b == 0x7d {
            match announces(s) { Some(announcement) => LatestByte::ClosingBracket { announcement }, None => LatestByte::Other }
        } else {
            LatestByte::Other
        }
    }
}

//@ file imap-types/src/core.rs
//@ enum LiteralMode #[derive(Clone, Copy, PartialEq, Eq)]
//@ file imap-codec/src/fragmentizer.rs
//@ struct LiteralAnnouncement #[derive(Clone, Copy, PartialEq, Eq)]
//@ enum LineEnding #[derive(Clone, Copy, PartialEq, Eq)]
//@ enum FragmentInfo #[derive(Clone, Copy, PartialEq, Eq)]
//@ enum LatestByte
//@ struct LineParser
//@ struct LiteralParser
//@ enum Parser
//@ struct Fragmentizer

//@ file imap-types/src/secret.rs
//@ struct Secret
//@ impl Secret<T> {
//@ fn new -> r
    ensures r.0 == inner,
//@ endfn
//@ endimpl

/// `imap_codec::decode::Decoder`, with the graph of `decode` named; nothing is assumed of it.
trait Decoder {
    type Message<'a>: Sized;
    type Error<'a>;
    spec fn decodes<'a>(&self, input: Seq<u8>, r: Result<(&'a [u8], Self::Message<'a>), Self::Error<'a>>) -> bool;
    fn decode<'a>(&self, input: &'a [u8]) -> (r: Result<(&'a [u8], Self::Message<'a>), Self::Error<'a>>)
        ensures
            self.decodes(input@, r);
}

/// `b` decodes to `m` with nothing left over.
spec fn decodes_all<'a, C: Decoder>(codec: C, b: Seq<u8>, m: C::Message<'a>) -> bool {
    exists|rest: &'a [u8]| rest@.len() == 0 && #[trigger] codec.decodes(b, Ok((rest, m)))
}

//@ file imap-codec/src/fragmentizer.rs
//@ enum DecodeMessageError
//@ optmatch and_then map

/// `s` is what the parser has seen of the current line.
spec fn line_seen(p: LineParser, s: Seq<u8>) -> bool {
    &&& no_lf(s)
    &&& p.latest_byte == lb(s)
    &&& p.start + s.len() == p.end
}

/// Result of parsing the bytes `u` after having seen `s`.
spec fn line_result(p: LineParser, s: Seq<u8>, u: Seq<u8>, r: (usize, Option<FragmentInfo>), q: LineParser) -> bool {
    match lf_from(u, 0) {
        Some(n) => {
            &&& r.0 == n
            &&& r.1 == Some(FragmentInfo::Line {
                start: p.start,
                end: (p.end + n) as usize,
                announcement: line_announces(s + u.take(n)),
                ending: line_ending(s + u.take(n)),
            })
        }
        None => {
            &&& r.0 == u.len()
            &&& r.1 is None
            &&& q.start == p.start
            &&& line_seen(q, s + u)
        }
    }
}

proof fn lemma_digits(s: Seq<u8>)
    ensures
        digits(s) <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 && is_digit(s.last()) {
        lemma_digits(s.drop_last());
    }
}

/// One more byte of a line (not LF), on states.
spec fn step(l: LatestByte, b: u8) -> LatestByte {
    if b == 0x0d {
        LatestByte::Cr { announcement: match l { LatestByte::ClosingBracket { announcement } => Some(announcement), _ => None } }
    } else if b == 0x7b {
        LatestByte::OpeningBracket
    } else if is_digit(b) {
        match l {
            LatestByte::OpeningBracket => LatestByte::Digit { length: (b - 0x30) as u32 },
            LatestByte::Digit { length } => if length * 10 + (b - 0x30) <= u32::MAX {
                LatestByte::Digit { length: (length * 10 + (b - 0x30)) as u32 }
            } else {
                LatestByte::Other
            },
            _ => LatestByte::Other,
        }
    } else if b == 0x2b {
        match l { LatestByte::Digit { length } => LatestByte::Plus { length }, _ => LatestByte::Other }
    } else if b == 0x7d {
        match l {
            LatestByte::Digit { length } => LatestByte::ClosingBracket { announcement: LiteralAnnouncement { mode: LiteralMode::Sync, length } },
            LatestByte::Plus { length } => LatestByte::ClosingBracket { announcement: LiteralAnnouncement { mode: LiteralMode::NonSync, length } },
            _ => LatestByte::Other,
        }
    } else {
        LatestByte::Other
    }
}

spec fn run(l: LatestByte, t: Seq<u8>) -> LatestByte
    decreases t.len(),
{
    if t.len() == 0 { l } else { step(run(l, t.drop_last()), t.last()) }
}

/// What a LF in this state ends.
spec fn end_announcement(l: LatestByte) -> Option<LiteralAnnouncement> {
    match l {
        LatestByte::ClosingBracket { announcement } => Some(announcement),
        LatestByte::Cr { announcement } => announcement,
        _ => None,
    }
}

spec fn end_ending(l: LatestByte) -> LineEnding {
    if l is Cr { LineEnding::CrLf } else { LineEnding::Lf }
}

/// The states are the states of the specification.
proof fn lemma_run(s: Seq<u8>, t: Seq<u8>)
    requires
        no_lf(t),
    ensures
        run(lb(s), t) == lb(s + t),
    decreases t.len(),
{
    if t.len() == 0 {
        assert(s + t =~= s);
    } else {
        lemma_run(s, t.drop_last());
        lemma_step(s + t.drop_last(), t.last());
        assert((s + t.drop_last()).push(t.last()) =~= s + t);
    }
}

proof fn lemma_end(s: Seq<u8>)
    ensures
        line_announces(s.push(0x0a)) == end_announcement(lb(s)),
        line_ending(s.push(0x0a)) == end_ending(lb(s)),
{
    assert(s.push(0x0a).drop_last() =~= s);
    if s.len() > 0 && s.last() != 0x0a {
        lemma_step(s.drop_last(), s.last());
        assert(s.drop_last().push(s.last()) =~= s);
        lemma_braced(s.drop_last());
    }
}

proof fn lemma_step(s: Seq<u8>, b: u8)
    requires
        b != 0x0a,
    ensures
        lb(s.push(b)) == step(lb(s), b),
{
    let t = s.push(b);
    assert(t.drop_last() =~= s);
    assert(t.last() == b);
    lemma_braced(s);
    lemma_digits(s);
    if is_digit(b) {
        let k = digits(s) as int;
        let n = s.len() as int;
        assert(digits(t) == k + 1);
        assert(t.subrange(t.len() - (k + 1), t.len() as int).drop_last() =~= s.subrange(n - k, n));
        assert(t.subrange(t.len() - (k + 1), t.len() as int).last() == b);
        assert(val(t.subrange(t.len() - (k + 1), t.len() as int)) == val(s.subrange(n - k, n)) * 10 + (b - 0x30));
        if k < n {
            assert(t[t.len() - (k + 1) - 1] == s[n - k - 1]);
        }
        if k == 0 {
            assert(val(s.subrange(n - k, n)) == 0);
        }
    }
    if s.len() > 0 && s.last() == 0x2b {
        lemma_braced(s.drop_last());
    }
}

/// Only a string that ends in a digit has a number after its last brace.
proof fn lemma_braced(s: Seq<u8>)
    ensures
        braced(s) is Some ==> s.len() > 0 && is_digit(s.last()),
{
}

proof fn lemma_lf(u: Seq<u8>, i: int, n: int)
    requires
        0 <= i <= n <= u.len(),
        forall|j: int| i <= j < n ==> u[j] != 0x0a,
    ensures
        n < u.len() && u[n] == 0x0a ==> lf_from(u, i) == Some(n + 1),
        n == u.len() ==> lf_from(u, i) is None,
    decreases n - i,
{
    if i < n {
        lemma_lf(u, i + 1, n);
    }
}


//@ impl LineParser {
//@ fn new -> r
    ensures r == (LineParser { start, end: start, latest_byte: LatestByte::Other }),
//@ endfn
//@ fn parse -> r
    requires
        old(self).end + unprocessed_bytes@.len() <= usize::MAX,
    ensures
        r.0 <= unprocessed_bytes@.len(),
        final(self).end == old(self).end + r.0,
        final(self).start == old(self).start,
        r.1 matches Some(x) ==> x is Line && x->Line_start == old(self).start && x->Line_end == final(self).end,
        forall|s: Seq<u8>| #[trigger] line_seen(*old(self), s) ==> line_result(*old(self), s, unprocessed_bytes@, r, *final(self)),
//@ loop 0 inv it iter
        invariant_except_break
            parsed_line is None,
            parsed_byte_count == it.index@,
            no_lf(unprocessed_bytes@.take(parsed_byte_count as int)),
            self.latest_byte == run(old(self).latest_byte, unprocessed_bytes@.take(parsed_byte_count as int)),
        invariant
            it.seq() == unprocessed_bytes@.map_values(|x: u8| &x),
            old(self).end + unprocessed_bytes@.len() <= usize::MAX,
            parsed_byte_count <= unprocessed_bytes@.len(),
            self.end == old(self).end + parsed_byte_count,
            self.start == old(self).start,
        ensures
            parsed_line is None ==> {
                &&& parsed_byte_count == unprocessed_bytes@.len()
                &&& no_lf(unprocessed_bytes@.take(parsed_byte_count as int))
                &&& self.latest_byte == run(old(self).latest_byte, unprocessed_bytes@.take(parsed_byte_count as int))
            },
            parsed_line is Some ==> {
                let l = run(old(self).latest_byte, unprocessed_bytes@.take(parsed_byte_count - 1));
                &&& parsed_byte_count > 0
                &&& unprocessed_bytes@[parsed_byte_count - 1] == 0x0a
                &&& no_lf(unprocessed_bytes@.take(parsed_byte_count - 1))
                &&& parsed_line == Some(FragmentInfo::Line { start: self.start, end: self.end, announcement: end_announcement(l), ending: end_ending(l) })
            },
//@ loop 0 start
        proof {
            let n = parsed_byte_count as int;
            let u = unprocessed_bytes@;
            assert(it.seq()[n] == &u[n]);
            assert(*vx_r0 == u[n]);
            assert(u.take(n + 1).drop_last() =~= u.take(n));
            assert(u.take(n + 1).last() == u[n]);
            assert(u.take(u.len() as int) =~= u);
        }
//@ loop 0 after
        proof {
            let u = unprocessed_bytes@;
            let n = parsed_byte_count as int;
            if parsed_line is None {
                assert(u.take(n) =~= u);
                lemma_lf(u, 0, n);
            } else {
                assert forall|j: int| 0 <= j < n - 1 implies u[j] != 0x0a by { assert(u.take(n - 1)[j] == u[j]); }
                lemma_lf(u, 0, n - 1);
            }
            assert forall|s: Seq<u8>| #[trigger] line_seen(*old(self), s) implies line_result(*old(self), s, u, (parsed_byte_count, parsed_line), *self) by {
                if parsed_line is None {
                    lemma_run(s, u);
                } else {
                    lemma_run(s, u.take(n - 1));
                    lemma_end(s + u.take(n - 1));
                    assert((s + u.take(n - 1)).push(0x0a) =~= s + u.take(n));
                }
            }
        }
//@ endfn
//@ endimpl

//@ impl LiteralParser {
//@ fn new -> r
    ensures r == (LiteralParser { start, end: start, remaining: length }),
//@ endfn
//@ fn parse -> r
    requires
        old(self).end + unprocessed_bytes@.len() <= usize::MAX,
    ensures
        ({
            let n = if unprocessed_bytes@.len() < old(self).remaining { unprocessed_bytes@.len() as int } else { old(self).remaining as int };
            &&& r.0 == n
            &&& *final(self) == (LiteralParser { start: old(self).start, end: (old(self).end + n) as usize, remaining: (old(self).remaining - n) as u32 })
            &&& r.1 == if unprocessed_bytes@.len() < old(self).remaining {
                None::<FragmentInfo>
            } else {
                Some(FragmentInfo::Literal { start: old(self).start, end: (old(self).end + n) as usize })
            }
        }),
//@ endfn
//@ endimpl

// ===== assumed contracts on std (wrappers whose body is the std call) ==============================

/// `VecDeque::drain(..n)`, consumed: removes and returns the first n elements.
#[verifier::external_body]
fn vx_drain(d: &mut VecDeque<u8>, r: std::ops::RangeTo<usize>) -> (out: Vec<u8>)
    requires
        r.end <= old(d)@.len(),
    ensures
        out@ == old(d)@.take(r.end as int),
        final(d)@ == old(d)@.skip(r.end as int),
{
    d.drain(r).collect()
}

/// `Iterator::take(n)`: the first n elements, or all.
#[verifier::external_body]
fn vx_take(v: Vec<u8>, n: usize) -> (out: Vec<u8>)
    ensures
        out@ == v@.take(if n < v@.len() { n as int } else { v@.len() as int }),
{
    v.into_iter().take(n).collect()
}

/// `Vec::extend`: appends the elements.
#[verifier::external_body]
fn vx_extend(v: &mut Vec<u8>, w: Vec<u8>)
    ensures
        final(v)@ == old(v)@ + w@,
{
    v.extend(w)
}

/// `VecDeque::extend(&[u8])`: appends the elements.
#[verifier::external_body]
fn vx_extend_slice(v: &mut VecDeque<u8>, w: &[u8])
    ensures
        final(v)@ == old(v)@ + w@,
{
    v.extend(w)
}

// ===== the stream cut into fragments: the specification ============================================

/// Where the fragmentizer is in the stream: the current message starts at `ms`, the current fragment at `pos`;
/// `lit` is the length of the literal that starts there, if one does; `done`: the message ended at `pos`.
ghost struct At {
    ms: int,
    pos: int,
    lit: Option<u32>,
    done: bool,
}

spec fn start_at(pos: int) -> At {
    At { ms: pos, pos, lit: None, done: false }
}

spec fn norm(g: At) -> At {
    if g.done { start_at(g.pos) } else { g }
}

/// The fragment at `g`, if the stream contains all of it.
spec fn first(s: Seq<u8>, g0: At) -> Option<FragmentInfo> {
    let g = norm(g0);
    match g.lit {
        Some(len) => if g.pos + len <= s.len() {
            Some(FragmentInfo::Literal { start: (g.pos - g.ms) as usize, end: (g.pos + len - g.ms) as usize })
        } else {
            None
        },
        None => match lf_from(s, g.pos) {
            None => None,
            Some(e) => Some(FragmentInfo::Line {
                start: (g.pos - g.ms) as usize,
                end: (e - g.ms) as usize,
                announcement: line_announces(s.subrange(g.pos, e)),
                ending: line_ending(s.subrange(g.pos, e)),
            }),
        },
    }
}

/// Position after the fragment at `g`.
spec fn next(s: Seq<u8>, g0: At) -> At {
    let g = norm(g0);
    match g.lit {
        Some(len) => At { pos: g.pos + len, lit: None, ..g },
        None => match lf_from(s, g.pos) {
            None => g,
            Some(e) => match line_announces(s.subrange(g.pos, e)) {
                None => At { pos: e, lit: None, done: true, ..g },
                Some(a) => At { pos: e, lit: Some(a.length), ..g },
            },
        },
    }
}

// ===== the fragmentizer against the stream =========================================================

spec fn limit(f: Fragmentizer, n: int) -> int {
    match f.max_message_size {
        Some(m) => if n < m { n } else { m as int },
        None => n,
    }
}

/// Bytes of the stream that have been parsed.
spec fn cut(f: Fragmentizer, s: Seq<u8>) -> int {
    s.len() - f.unparsed_buffer@.len()
}

/// `f` has been fed the stream `s` and is at `g`.
spec fn fed(f: Fragmentizer, s: Seq<u8>, g: At) -> bool {
    let c = cut(f, s);
    &&& 0 <= g.ms <= g.pos <= c <= s.len() <= usize::MAX
    &&& f.unparsed_buffer@ == s.skip(c)
    // the first bytes of the message are kept, up to the limit
    &&& f.message_buffer@ == s.subrange(g.ms, g.ms + limit(f, c - g.ms))
    &&& f.max_message_size_exceeded == (limit(f, c - g.ms) < c - g.ms)
    &&& match f.parser {
        None => g.done && g.pos == c,
        Some(Parser::Line(p)) => {
            &&& !g.done && g.lit is None
            &&& p.start == g.pos - g.ms
            &&& p.end == c - g.ms
            &&& line_seen(p, s.subrange(g.pos, c))
        }
        Some(Parser::Literal(p)) => {
            &&& !g.done
            &&& g.lit == Some((p.remaining + (c - g.pos)) as u32)
            &&& p.remaining + (c - g.pos) <= u32::MAX
            &&& p.start == g.pos - g.ms
            &&& p.end == c - g.ms
        }
    }
}

proof fn lemma_buffer(s: Seq<u8>, ms: int, c: int, n: int, l0: int, l1: int, max: Option<u32>, b: Seq<u8>, u: Seq<u8>)
    requires
        0 <= ms <= c <= c + n <= s.len(),
        u == s.skip(c),
        l0 == (match max { Some(m) => if c - ms < m { c - ms } else { m as int }, None => c - ms }),
        l1 == (match max { Some(m) => if c + n - ms < m { c + n - ms } else { m as int }, None => c + n - ms }),
        b == s.subrange(ms, ms + l0),
    ensures
        ({
            let all = b + u.take(n);
            let k = match max { Some(m) => if all.len() < m { all.len() as int } else { m as int }, None => all.len() as int };
            &&& all.take(k) == s.subrange(ms, ms + l1)
            &&& (l0 < c - ms || k < all.len()) == (l1 < c + n - ms)
        }),
{
    let all = b + u.take(n);
    let k = match max { Some(m) => if all.len() < m { all.len() as int } else { m as int }, None => all.len() as int };
    assert(all.take(k) =~= s.subrange(ms, ms + l1));
}

proof fn lemma_lf_range(s: Seq<u8>, i: int, c: int)
    requires
        0 <= i <= c <= s.len(),
        no_lf(s.subrange(i, c)),
    ensures
        lf_from(s, i) == lf_from(s, c),
    decreases c - i,
{
    if i < c {
        assert(s.subrange(i, c)[0] == s[i]);
        assert forall|j: int| 0 <= j < c - i - 1 implies #[trigger] s.subrange(i + 1, c)[j] != 0x0a by {
            assert(s.subrange(i, c)[j + 1] == s.subrange(i + 1, c)[j]);
        }
        lemma_lf_range(s, i + 1, c);
    }
}

proof fn lemma_lf_skip(s: Seq<u8>, c: int, i: int)
    requires
        0 <= c <= s.len(),
        0 <= i <= s.len() - c,
    ensures
        lf_from(s, c + i) == (match lf_from(s.skip(c), i) { Some(n) => Some(n + c), None => None }),
    decreases s.len() - c - i,
{
    if i < s.len() - c {
        lemma_lf_skip(s, c, i + 1);
    }
}

proof fn lemma_lf_bound(s: Seq<u8>, i: int)
    ensures
        lf_from(s, i) matches Some(n) ==> i < n <= s.len(),
    decreases s.len() - i,
{
    if 0 <= i < s.len() {
        lemma_lf_bound(s, i + 1);
    }
}

/// What every operation needs and keeps (sizes).
spec fn inv(f: Fragmentizer) -> bool {
    &&& f.max_message_size matches Some(m) ==> f.message_buffer@.len() <= m
    &&& match f.parser {
        None => f.unparsed_buffer@.len() <= usize::MAX,
        Some(Parser::Line(p)) => p.start <= p.end && p.end + f.unparsed_buffer@.len() <= usize::MAX,
        Some(Parser::Literal(p)) => p.start <= p.end && p.end + f.unparsed_buffer@.len() <= usize::MAX,
    }
}

/// The contract of `progress`.
spec fn progressed(o: Fragmentizer, r: Option<FragmentInfo>, f: Fragmentizer) -> bool {
    &&& inv(f)
    &&& f.max_message_size == o.max_message_size
    &&& f.message_poisoned == (o.message_poisoned && o.parser is Some)
    &&& forall|s: Seq<u8>, g: At| #[trigger] fed(o, s, g) ==> {
        &&& r == first(s, g)
        &&& r is Some ==> fed(f, s, next(s, g)) && cut(f, s) == next(s, g).pos
        &&& r is None ==> fed(f, s, norm(g)) && f.unparsed_buffer@.len() == 0
    }
}

/// The parser at work: the current one, or that of the next message.
spec fn at_work(o: Fragmentizer) -> Parser {
    match o.parser {
        Some(p) => p,
        None => Parser::Line(LineParser { start: 0, end: 0, latest_byte: LatestByte::Other }),
    }
}

/// The parser after fragment `r`.
spec fn after(r: FragmentInfo) -> Option<Parser> {
    match r {
        FragmentInfo::Line { announcement: None, .. } => None,
        FragmentInfo::Line { end, announcement: Some(a), .. } => Some(Parser::Literal(LiteralParser { start: end, end, remaining: a.length })),
        FragmentInfo::Literal { end, .. } => Some(Parser::Line(LineParser { start: end, end, latest_byte: LatestByte::Other })),
    }
}

/// One round of `progress` that consumed `n` bytes, in terms of the parsers' contracts.
spec fn moved(o: Fragmentizer, n: int, r: Option<FragmentInfo>, f: Fragmentizer) -> bool {
    let u = o.unparsed_buffer@;
    let fresh = o.parser is None;
    let all = (if fresh { Seq::<u8>::empty() } else { o.message_buffer@ }) + u.take(n);
    let k = limit(o, all.len() as int);
    &&& 0 <= n <= u.len()
    &&& f.unparsed_buffer@ == u.skip(n)
    &&& f.max_message_size == o.max_message_size
    &&& f.message_poisoned == (o.message_poisoned && !fresh)
    &&& f.message_buffer@ == all.take(k)
    &&& f.max_message_size_exceeded == ((!fresh && o.max_message_size_exceeded) || k < all.len())
    &&& r matches Some(x) ==> f.parser == after(x)
    &&& match at_work(o) {
        Parser::Line(p) => {
            let q = if r is None { f.parser->0->Line_0 } else { p };
            &&& r is None ==> f.parser == Some(Parser::Line(q))
            &&& r is None ==> q.start == p.start && q.end == p.end + n
            &&& r matches Some(FragmentInfo::Line { start, end, .. }) ==> start == p.start && end == p.end + n
            &&& r matches Some(x) ==> x is Line
            &&& forall|s: Seq<u8>| #[trigger] line_seen(p, s) ==> line_result(p, s, u, (n as usize, r), q)
        }
        Parser::Literal(p) => {
            &&& n == if u.len() < p.remaining { u.len() as int } else { p.remaining as int }
            &&& u.len() < p.remaining ==> r is None && f.parser == Some(Parser::Literal(LiteralParser { start: p.start, end: (p.end + n) as usize, remaining: (p.remaining - n) as u32 }))
            &&& u.len() >= p.remaining ==> r == Some(FragmentInfo::Literal { start: p.start, end: (p.end + n) as usize })
        }
    }
}

proof fn lemma_progress(o: Fragmentizer, n: int, r: Option<FragmentInfo>, f: Fragmentizer)
    requires
        inv(o),
        moved(o, n, r, f),
    ensures
        progressed(o, r, f),
{
    assert forall|s: Seq<u8>, g: At| #[trigger] fed(o, s, g) implies {
        &&& r == first(s, g)
        &&& r is Some ==> fed(f, s, next(s, g)) && cut(f, s) == next(s, g).pos
        &&& r is None ==> fed(f, s, norm(g)) && f.unparsed_buffer@.len() == 0
    } by {
        lemma_progress_at(o, n, r, f, s, g);
    }
}

proof fn lemma_progress_at(o: Fragmentizer, n: int, r: Option<FragmentInfo>, f: Fragmentizer, s: Seq<u8>, g: At)
    requires
        inv(o),
        moved(o, n, r, f),
        fed(o, s, g),
    ensures
        r == first(s, g),
        r is Some ==> fed(f, s, next(s, g)) && cut(f, s) == next(s, g).pos,
        r is None ==> fed(f, s, norm(g)) && f.unparsed_buffer@.len() == 0,
{
    if norm(g).lit is None {
        lemma_line(o, n, r, f, s, g);
    } else {
        lemma_literal(o, n, r, f, s, g);
    }
}

/// Everything but the parser.
spec fn fed_rest(f: Fragmentizer, s: Seq<u8>, g: At) -> bool {
    let c = cut(f, s);
    &&& 0 <= g.ms <= g.pos <= c <= s.len() <= usize::MAX
    &&& f.unparsed_buffer@ == s.skip(c)
    &&& f.message_buffer@ == s.subrange(g.ms, g.ms + limit(f, c - g.ms))
    &&& f.max_message_size_exceeded == (limit(f, c - g.ms) < c - g.ms)
}

proof fn lemma_rest(o: Fragmentizer, n: int, r: Option<FragmentInfo>, f: Fragmentizer, s: Seq<u8>, g: At)
    requires
        inv(o),
        moved(o, n, r, f),
        fed(o, s, g),
    ensures
        fed_rest(f, s, norm(g)),
        cut(f, s) == cut(o, s) + n,
{
    hide(line_announces);
    hide(line_ending);
    hide(lb);
    hide(lf_from);
    hide(no_lf);
    hide(line_seen);
    hide(line_result);
    let u = o.unparsed_buffer@;
    let h = norm(g);
    let c = cut(o, s);
    assert(f.unparsed_buffer@ =~= s.skip(c + n));
    assert(s.subrange(h.ms, h.ms) =~= Seq::<u8>::empty());
    let b = if o.parser is None { Seq::<u8>::empty() } else { o.message_buffer@ };
    lemma_buffer(s, h.ms, c, n, limit(o, c - h.ms), limit(o, c + n - h.ms), o.max_message_size, b, u);
}

proof fn lemma_literal(o: Fragmentizer, n: int, r: Option<FragmentInfo>, f: Fragmentizer, s: Seq<u8>, g: At)
    requires
        inv(o),
        moved(o, n, r, f),
        fed(o, s, g),
        norm(g).lit is Some,
    ensures
        r == first(s, g),
        r is Some ==> fed(f, s, next(s, g)) && cut(f, s) == next(s, g).pos,
        r is None ==> fed(f, s, norm(g)) && f.unparsed_buffer@.len() == 0,
{
    hide(line_announces);
    hide(line_ending);
    hide(lb);
    hide(lf_from);
    hide(no_lf);
    lemma_seen_nothing();
    let u = o.unparsed_buffer@;
    let h = norm(g);
    let c = cut(o, s);
    lemma_rest(o, n, r, f, s, g);
    assert(u.len() == s.len() - c);
    assert(s.subrange(c + n, c + n) =~= Seq::<u8>::empty());
}

proof fn lemma_seen_nothing()
    ensures
        no_lf(Seq::empty()),
        lb(Seq::empty()) == LatestByte::Other,
{
}

proof fn lemma_line(o: Fragmentizer, n: int, r: Option<FragmentInfo>, f: Fragmentizer, s: Seq<u8>, g: At)
    requires
        inv(o),
        moved(o, n, r, f),
        fed(o, s, g),
        norm(g).lit is None,
    ensures
        r == first(s, g),
        r is Some ==> fed(f, s, next(s, g)) && cut(f, s) == next(s, g).pos,
        r is None ==> fed(f, s, norm(g)) && f.unparsed_buffer@.len() == 0,
{
    hide(line_announces);
    hide(line_ending);
    hide(lb);
    hide(lf_from);
    hide(no_lf);
    let u = o.unparsed_buffer@;
    let h = norm(g);
    let c = cut(o, s);
    lemma_rest(o, n, r, f, s, g);
    let seen = s.subrange(h.pos, c);
    assert(s.subrange(c, c) =~= Seq::<u8>::empty());
    let p0 = at_work(o)->Line_0;
    lemma_seen_nothing();
    assert(line_seen(p0, seen));
    lemma_lf_range(s, h.pos, c);
    lemma_lf_skip(s, c, 0);
    lemma_lf_bound(u, 0);
    match lf_from(u, 0) {
        Some(m) => {
            assert(seen + u.take(m) =~= s.subrange(h.pos, c + m));
            assert(n == m);
            assert(r == first(s, g));
            let x = next(s, g);
            assert(x.pos == cut(f, s));
            assert(fed_rest(f, s, x));
        }
        None => {
            assert(seen + u =~= s.subrange(h.pos, s.len() as int));
        }
    }
}

#[verifier::external_body]
pub struct Tag<'a>(&'a [u8]);
uninterp spec fn leading_tag<'a>(s: Seq<u8>) -> Option<Tag<'a>>;
/// contract proved in unit core
#[verifier::external_body]
fn parse_tag<'a>(message_bytes: &'a [u8]) -> (r: Option<Tag<'a>>)
    ensures r == leading_tag(message_bytes@),
{
    unimplemented!()
}

//@ impl Fragmentizer {
//@ fn new -> r
    ensures
        inv(r),
        !r.message_poisoned,
        r.max_message_size == Some(max_message_size),
        fed(r, Seq::empty(), start_at(0)),
//@ end
    proof {
        let e = Seq::<u8>::empty();
        assert(vx_ret.unparsed_buffer@ =~= e.skip(0));
        assert(vx_ret.message_buffer@ =~= e.subrange(0, 0));
    }
//@ endfn
//@ fn without_max_message_size -> r
    ensures
        inv(r),
        !r.message_poisoned,
        r.max_message_size is None,
        fed(r, Seq::empty(), start_at(0)),
//@ end
    proof {
        let e = Seq::<u8>::empty();
        assert(vx_ret.unparsed_buffer@ =~= e.skip(0));
        assert(vx_ret.message_buffer@ =~= e.subrange(0, 0));
    }
//@ endfn
//@ fn progress -> r
    requires
        inv(*old(self)),
    ensures
        progressed(*old(self), r, *final(self)),
//@ end
    proof {
        let n = old(self).unparsed_buffer@.len() - self.unparsed_buffer@.len();
        lemma_progress(*old(self), n, vx_ret, *self);
    }
//@ endfn
//@ fn enqueue_bytes
//@ wrap extend=vx_extend_slice:mut
    ensures
        *final(self) == (Fragmentizer { unparsed_buffer: final(self).unparsed_buffer, ..*old(self) }),
        final(self).unparsed_buffer@ == old(self).unparsed_buffer@ + bytes@,
//@ endfn
//@ fn dequeue_parsed_bytes
//@ wrap drain=vx_drain:mut take=vx_take:own extend=vx_extend:mut
    requires
        parsed_byte_count <= old(self).unparsed_buffer@.len(),
        old(self).max_message_size matches Some(m) ==> old(self).message_buffer@.len() <= m,
    ensures
        final(self).max_message_size == old(self).max_message_size,
        final(self).message_poisoned == old(self).message_poisoned,
        final(self).parser == old(self).parser,
        final(self).unparsed_buffer@ == old(self).unparsed_buffer@.skip(parsed_byte_count as int),
        ({
            let all = old(self).message_buffer@ + old(self).unparsed_buffer@.take(parsed_byte_count as int);
            let n = limit(*old(self), all.len() as int);
            &&& final(self).message_buffer@ == all.take(n)
            &&& final(self).max_message_size_exceeded == (old(self).max_message_size_exceeded || n < all.len())
        }),
//@ endfn
//@ fn fragment_bytes -> r
    requires
        first_of(fragment_info) <= last_of(fragment_info),
    ensures
        r@ == clip(self.message_buffer@, first_of(fragment_info), last_of(fragment_info)),
//@ endfn
//@ fn is_message_complete -> r
    ensures
        r == (self.parser is None),
//@ endfn
//@ fn message_bytes -> r
    ensures
        r@ == self.message_buffer@,
//@ endfn
//@ fn is_max_message_size_exceeded -> r
    ensures
        r == self.max_message_size_exceeded,
//@ endfn
//@ fn is_message_poisoned -> r
    ensures
        r == self.message_poisoned,
//@ endfn
//@ fn skip_message
    ensures
        final(self).unparsed_buffer == old(self).unparsed_buffer,
        final(self).max_message_size == old(self).max_message_size,
        !final(self).max_message_size_exceeded,
        !final(self).message_poisoned,
        final(self).message_buffer@.len() == 0,
        final(self).parser == Some(Parser::Line(LineParser { start: 0, end: 0, latest_byte: LatestByte::Other })),
//@ endfn
//@ fn poison_message
    ensures
        *final(self) == (Fragmentizer { message_poisoned: true, ..*old(self) }),
//@ endfn
//@ fn decode_tag -> r
    ensures
        // what parse_tag (unit core) makes of exactly the bytes of the message
        r == leading_tag(self.message_buffer@),
//@ endfn
//@ fn decode_message -> r
    ensures
        // in this order: too long, poisoned, the decoder's verdict on exactly the bytes of the message
        self.max_message_size_exceeded ==> (r matches Err(DecodeMessageError::MessageTooLong { initial }) && initial.0@ == self.message_buffer@),
        !self.max_message_size_exceeded && self.message_poisoned ==> (r matches Err(DecodeMessageError::MessagePoisoned { discarded }) && discarded.0@ == self.message_buffer@),
        !self.max_message_size_exceeded && !self.message_poisoned ==> match r {
            Ok(m) => decodes_all(*codec, self.message_buffer@, m),
            Err(DecodeMessageError::DecodingFailure(e)) => codec.decodes(self.message_buffer@, Err(e)),
            Err(DecodeMessageError::DecodingRemainder { message, remainder }) => remainder.0@.len() > 0 && codec.decodes(self.message_buffer@, Ok((remainder.0, message))),
            _ => false,
        },
//@ end
    proof {
        assert(codec.decodes(self.message_buffer@, Ok((remainder, message))));
        assert(remainder@.len() == 0);
        assert(decodes_all(*codec, self.message_buffer@, message));
    }
//@ endfn
//@ endimpl

//@ impl FragmentInfo {
//@ fn range -> r
    ensures
        r.start == first_of(self),
        r.end == last_of(self),
//@ endfn
//@ endimpl

spec fn first_of(i: FragmentInfo) -> usize {
    match i {
        FragmentInfo::Line { start, .. } => start,
        FragmentInfo::Literal { start, .. } => start,
    }
}

spec fn last_of(i: FragmentInfo) -> usize {
    match i {
        FragmentInfo::Line { end, .. } => end,
        FragmentInfo::Literal { end, .. } => end,
    }
}

spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }

spec fn clip(b: Seq<u8>, s: usize, e: usize) -> Seq<u8> {
    b.subrange(min(s as int, b.len() as int), min(e as int, b.len() as int))
}

// ===== histories ===================================================================================

/// What `f` has gone through: fed the stream `s`, it has emitted `e` and is at `g`.
spec fn hist(f: Fragmentizer, s: Seq<u8>, e: Seq<FragmentInfo>, g: At) -> bool {
    &&& inv(f)
    &&& fed(f, s, g)
    &&& emitted(s, start_at(0), e) matches Some(h) && norm(h) == norm(g)
}

/// Where the specification is after emitting `e`, if `e` is what it emits.
spec fn emitted(s: Seq<u8>, g: At, e: Seq<FragmentInfo>) -> Option<At>
    decreases e.len(),
{
    if e.len() == 0 {
        Some(g)
    } else {
        match emitted(s, g, e.drop_last()) {
            Some(h) => if first(s, h) == Some(e.last()) { Some(next(s, h)) } else { None },
            None => None,
        }
    }
}

proof fn lemma_lf_more(s: Seq<u8>, b: Seq<u8>, i: int)
    ensures
        lf_from(s, i) is Some ==> lf_from(s + b, i) == lf_from(s, i),
    decreases s.len() - i,
{
    if 0 <= i < s.len() {
        lemma_lf_more(s, b, i + 1);
    }
}

/// What has been emitted does not depend on what follows.
proof fn lemma_more(s: Seq<u8>, b: Seq<u8>, g: At)
    requires
        0 <= g.pos,
        first(s, g) is Some,
    ensures
        first(s + b, g) == first(s, g),
        next(s + b, g) == next(s, g),
        0 <= next(s, g).pos,
{
    hide(line_announces);
    hide(line_ending);
    hide(lf_from);
    let h = norm(g);
    if h.lit is None {
        lemma_lf_more(s, b, h.pos);
        lemma_lf_bound(s, h.pos);
        let e = lf_from(s, h.pos)->0;
        assert((s + b).subrange(h.pos, e) =~= s.subrange(h.pos, e));
    }
}

proof fn lemma_emitted_more(s: Seq<u8>, b: Seq<u8>, g: At, e: Seq<FragmentInfo>)
    requires
        0 <= g.pos,
        emitted(s, g, e) is Some,
    ensures
        emitted(s + b, g, e) == emitted(s, g, e),
        0 <= emitted(s, g, e)->0.pos,
    decreases e.len(),
{
    if e.len() > 0 {
        lemma_emitted_more(s, b, g, e.drop_last());
        lemma_more(s, b, emitted(s, g, e.drop_last())->0);
    }
}

proof fn theorem_new(f: Fragmentizer)
    requires
        inv(f),
        fed(f, Seq::empty(), start_at(0)),
    ensures
        hist(f, Seq::empty(), Seq::empty(), start_at(0)),
{
}

/// Enqueueing bytes only extends the stream.
proof fn theorem_enqueue(o: Fragmentizer, b: Seq<u8>, f: Fragmentizer, s: Seq<u8>, e: Seq<FragmentInfo>, g: At)
    requires
        hist(o, s, e, g),
        s.len() + b.len() <= usize::MAX,
        f == (Fragmentizer { unparsed_buffer: f.unparsed_buffer, ..o }),
        f.unparsed_buffer@ == o.unparsed_buffer@ + b,
    ensures
        hist(f, s + b, e, g),
{
    hide(lb);
    hide(no_lf);
    lemma_emitted_more(s, b, start_at(0), e);
    let c = cut(o, s);
    let t = s + b;
    assert(cut(f, t) == c);
    assert(f.unparsed_buffer@ =~= t.skip(c));
    assert(f.message_buffer@ =~= t.subrange(g.ms, g.ms + limit(f, c - g.ms)));
    assert(t.subrange(g.pos, c) =~= s.subrange(g.pos, c));
}

/// Polling emits the next fragment of the stream, or has consumed all of it and waits for more.
proof fn theorem_progress(o: Fragmentizer, r: Option<FragmentInfo>, f: Fragmentizer, s: Seq<u8>, e: Seq<FragmentInfo>, g: At)
    requires
        hist(o, s, e, g),
        progressed(o, r, f),
    ensures
        r matches Some(x) ==> hist(f, s, e.push(x), next(s, g)),
        r is None ==> hist(f, s, e, norm(g)) && first(s, g) is None && f.unparsed_buffer@.len() == 0,
{
    hide(fed);
    hide(line_announces);
    hide(line_ending);
    hide(lf_from);
    assert(fed(o, s, g));
    if let Some(x) = r {
        assert(e.push(x).drop_last() =~= e);
    }
}


/// Two drivers that fed the same stream, in whatever chunks and polled whenever, emitted the same so far ...
proof fn theorem_same(s: Seq<u8>, g: At, e1: Seq<FragmentInfo>, e2: Seq<FragmentInfo>)
    requires
        emitted(s, g, e1) is Some,
        emitted(s, g, e2) is Some,
        e1.len() <= e2.len(),
    ensures
        e1 == e2.take(e1.len() as int),
        emitted(s, g, e2.take(e1.len() as int)) == emitted(s, g, e1),
    decreases e2.len(),
{
    hide(first);
    hide(next);
    if e1.len() < e2.len() {
        theorem_same(s, g, e1, e2.drop_last());
        assert(e2.drop_last().take(e1.len() as int) =~= e2.take(e1.len() as int));
    } else {
        assert(e2.take(e1.len() as int) =~= e2);
        if e1.len() > 0 {
            theorem_same(s, g, e1.drop_last(), e2.drop_last());
            assert(e2.drop_last().take(e1.drop_last().len() as int) =~= e2.drop_last());
            assert(e1 =~= e1.drop_last().push(e1.last()));
            assert(e2 =~= e2.drop_last().push(e2.last()));
        } else {
            assert(e1 =~= e2);
        }
    }
}

/// ... and the same altogether once both were polled to the end.
proof fn theorem_chunks(f1: Fragmentizer, f2: Fragmentizer, s: Seq<u8>, e1: Seq<FragmentInfo>, e2: Seq<FragmentInfo>, g1: At, g2: At)
    requires
        hist(f1, s, e1, g1),
        hist(f2, s, e2, g2),
        first(s, g1) is None,
        first(s, g2) is None,
    ensures
        e1 == e2,
    decreases e1.len(),
{
    hide(fed);
    hide(lf_from);
    hide(line_announces);
    hide(line_ending);
    if e1.len() > e2.len() {
        theorem_chunks(f2, f1, s, e2, e1, g2, g1);
    } else {
        theorem_same(s, start_at(0), e1, e2);
        if e1.len() < e2.len() {
            let t = e2.take(e1.len() as int + 1);
            lemma_emitted_prefix(s, start_at(0), e2, e1.len() as int + 1);
            assert(t.drop_last() =~= e1);
        } else {
            assert(e2.take(e1.len() as int) =~= e2);
        }
    }
}

proof fn lemma_emitted_prefix(s: Seq<u8>, g: At, e: Seq<FragmentInfo>, n: int)
    requires
        emitted(s, g, e) is Some,
        0 <= n <= e.len(),
    ensures
        emitted(s, g, e.take(n)) is Some,
    decreases e.len(),
{
    hide(first);
    hide(next);
    if n == e.len() {
        assert(e.take(n) =~= e);
    } else {
        lemma_emitted_prefix(s, g, e.drop_last(), n);
        assert(e.drop_last().take(n) =~= e.take(n));
    }
}

/// Directly after a fragment was emitted, its bytes are those of the stream, up to the limit; and without a limit
/// or within it, the bytes of the message are those of the stream from the start of the message.
proof fn theorem_bytes(f: Fragmentizer, s: Seq<u8>, g: At)
    requires
        fed(f, s, next(s, g)),
        cut(f, s) == next(s, g).pos,
        0 <= g.ms <= g.pos <= s.len() <= usize::MAX,
        first(s, g) is Some,
    ensures
        ({
            let i = first(s, g)->0;
            let h = norm(g);
            let n = f.message_buffer@.len() as int;
            let m = next(s, g).pos - h.ms;
            // the fragment covers exactly the part of the stream between the two positions
            &&& first_of(i) == h.pos - h.ms
            &&& last_of(i) == m
            &&& first_of(i) <= last_of(i)
            &&& clip(f.message_buffer@, first_of(i), last_of(i)) == s.subrange(h.ms + min(h.pos - h.ms, n), h.ms + min(m, n))
            // what is kept of the message: all of it, or its first bytes up to the limit
            &&& f.message_buffer@ == s.subrange(h.ms, h.ms + n)
            &&& n == limit(f, m)
            &&& f.max_message_size_exceeded <==> n < m
            // complete exactly after a line that announces nothing
            &&& f.parser is None <==> i is Line && i->Line_announcement is None
        }),
{
    hide(lf_from);
    hide(line_announces);
    hide(line_ending);
    hide(lb);
    let h = norm(g);
    lemma_lf_bound(s, h.pos);
    assert(h.ms <= s.len());
    let i = first(s, g)->0;
    assert(clip(f.message_buffer@, first_of(i), last_of(i)) =~= s.subrange(h.ms + min(h.pos - h.ms, f.message_buffer@.len() as int), h.ms + min(next(s, g).pos - h.ms, f.message_buffer@.len() as int)));
}

/// Skipping starts the next message at the first byte not parsed yet.
proof fn theorem_skip(o: Fragmentizer, f: Fragmentizer, s: Seq<u8>, g: At)
    requires
        fed(o, s, g),
        f.unparsed_buffer == o.unparsed_buffer,
        f.max_message_size == o.max_message_size,
        !f.max_message_size_exceeded,
        f.message_buffer@.len() == 0,
        f.parser == Some(Parser::Line(LineParser { start: 0, end: 0, latest_byte: LatestByte::Other })),
    ensures
        fed(f, s, start_at(cut(o, s))),
        inv(f),
{
    hide(lb);
    hide(no_lf);
    lemma_seen_nothing();
    let c = cut(o, s);
    assert(s.subrange(c, c) =~= Seq::<u8>::empty());
    assert(f.message_buffer@ =~= s.subrange(c, c));
}

spec fn ahead(s: Seq<u8>, g: At) -> int {
    2 * (s.len() - g.pos) + (if norm(g).lit is Some { 1int } else { 0int })
}

proof fn lemma_ahead(s: Seq<u8>, g: At)
    requires
        0 <= g.pos <= s.len(),
        first(s, g) is Some,
    ensures
        0 <= ahead(s, next(s, g)) < ahead(s, g),
{
    hide(line_announces);
    hide(line_ending);
    lemma_lf_bound(s, g.pos);
}

// ===== the framing that the parser unit (proofs/parse.rs) speaks of ================================

//@ include scan.inc

/// Where the first message that starts at `g` ends, if it ends within the stream: the fragments are followed until a
/// line announces nothing.
spec fn walk(s: Seq<u8>, g: At) -> Option<int>
    decreases ahead(s, g), if g.done { 0int } else { 1 },
    when 0 <= g.pos <= s.len()
    via walk_decreases
{
    if g.done { Some(g.pos) } else if first(s, g) is None { None } else { walk(s, next(s, g)) }
}
#[via_fn]
proof fn walk_decreases(s: Seq<u8>, g: At) {
    if !g.done && first(s, g) is Some { lemma_ahead(s, g); lemma_next_in(s, g); }
}
proof fn lemma_next_in(s: Seq<u8>, g: At)
    requires 0 <= g.pos <= s.len(), first(s, g) is Some,
    ensures 0 <= next(s, g).pos <= s.len(),
{
    hide(line_announces);
    lemma_lf_bound(s, g.pos);
}

/// The fragments up to there are what the fragmentizer emits.
proof fn theorem_walk(s: Seq<u8>, g: At) -> (e: Seq<FragmentInfo>)
    requires 0 <= g.pos <= s.len(), !g.done,
    ensures
        emitted(s, g, e) is Some,
        walk(s, g) matches Some(n) ==> emitted(s, g, e)->0.done && emitted(s, g, e)->0.pos == n && emitted(s, g, e)->0.ms == g.ms,
        walk(s, g) is None ==> !(emitted(s, g, e)->0.done) && first(s, emitted(s, g, e)->0) is None,
    decreases ahead(s, g),
{
    hide(line_announces);
    hide(line_ending);
    hide(lf_from);
    if first(s, g) is None {
        Seq::empty()
    } else {
        lemma_ahead(s, g);
        lemma_next_in(s, g);
        let h = next(s, g);
        let x = first(s, g)->0;
        if h.done {
            let e = seq![x];
            assert(e.drop_last() =~= Seq::empty());
            assert(emitted(s, g, e.drop_last()) == Some(g));
            e
        } else {
            let e = theorem_walk(s, h);
            lemma_emitted_cons(s, g, x, e);
            seq![x] + e
        }
    }
}
proof fn lemma_emitted_cons(s: Seq<u8>, g: At, x: FragmentInfo, e: Seq<FragmentInfo>)
    requires first(s, g) == Some(x), emitted(s, next(s, g), e) is Some,
    ensures emitted(s, g, seq![x] + e) == emitted(s, next(s, g), e),
    decreases e.len(),
{
    hide(first);
    hide(next);
    let f = seq![x] + e;
    if e.len() == 0 {
        assert(f =~= seq![x]);
        assert(f.drop_last() =~= Seq::empty());
        assert(emitted(s, g, f.drop_last()) == Some(g));
    } else {
        lemma_emitted_cons(s, g, x, e.drop_last());
        assert(f.drop_last() =~= seq![x] + e.drop_last());
        assert(f.last() == e.last());
    }
}

/// The automaton at the position of `g`.
spec fn corr(s: Seq<u8>, g: At) -> bool {
    &&& 0 <= g.pos <= s.len()
    &&& if g.done { scan(St::Line(seq![]), s.take(g.pos)) is Done } else {
        match g.lit {
            Some(len) => scan(St::Line(seq![]), s.take(g.pos)) matches St::Ann(a) && a.length == len,
            None => match scan(St::Line(seq![]), s.take(g.pos)) {
                St::Line(l) => l.len() == 0,
                St::Ann(a) => a.length == 0,
                _ => false,
            },
        }
    }
}

proof fn lemma_scan_line(st: St, w: Seq<u8>)
    requires
        match st { St::Line(l) => l.len() == 0, St::Ann(a) => a.length == 0 && w.len() > 0, _ => false },
        no_lf(w),
    ensures
        scan(st, w) == St::Line(w),
    decreases w.len(),
{
    if w.len() == 0 {
        assert(w =~= Seq::<u8>::empty());
        match st { St::Line(l) => { assert(l =~= w); } _ => {} }
    } else {
        let v = w.drop_last();
        assert(w == v.push(w.last()));
        assert(no_lf(v)) by { assert forall|i: int| 0 <= i < v.len() implies v[i] != 0x0a by { assert(w[i] != 0x0a); } }
        assert(w[w.len() - 1] != 0x0a);
        if v.len() > 0 || st is Line {
            lemma_scan_line(st, v);
        } else {
            assert(v =~= Seq::<u8>::empty());
            assert(w =~= seq![w.last()]);
            reveal_with_fuel(scan, 2);
        }
    }
}
proof fn lemma_scan_eol(st: St, w: Seq<u8>)
    requires
        match st { St::Line(l) => l.len() == 0, St::Ann(a) => a.length == 0, _ => false },
        w.len() > 0,
        no_lf(w.drop_last()),
        w.last() == 0x0a,
    ensures
        scan(st, w) == (match line_announces(w) { None => St::Done, Some(a) => St::Ann(a) }),
{
    let v = w.drop_last();
    assert(w == v.push(0x0a));
    if v.len() > 0 || st is Line {
        lemma_scan_line(st, v);
    } else {
        assert(v =~= Seq::<u8>::empty());
        assert(w =~= seq![0x0au8]);
        reveal_with_fuel(scan, 2);
        assert(w.drop_last().len() == 0);
        assert(announces(w.drop_last()) is None);
    }
}
proof fn lemma_scan_data(a: LiteralAnnouncement, w: Seq<u8>)
    requires 0 < w.len() <= a.length,
    ensures
        scan(St::Ann(a), w) == (if w.len() == a.length { St::Line(seq![]) } else { St::Data((a.length - w.len()) as nat) }),
    decreases w.len(),
{
    if w.len() == 1 {
        assert(w.drop_last() =~= Seq::<u8>::empty());
        reveal_with_fuel(scan, 2);
    } else {
        lemma_scan_data(a, w.drop_last());
    }
}
proof fn lemma_lf_none(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures
        lf_from(s, i) is None ==> no_lf(s.skip(i)),
        lf_from(s, i) matches Some(e) ==> i < e <= s.len() && s[e - 1] == 0x0a && no_lf(s.subrange(i, e - 1)),
    decreases s.len() - i,
{
    if i < s.len() {
        if s[i] != 0x0a {
            lemma_lf_none(s, i + 1);
            match lf_from(s, i + 1) {
                None => {
                    assert forall|j: int| 0 <= j < s.skip(i).len() implies s.skip(i)[j] != 0x0a by { if j > 0 { assert(s.skip(i + 1)[j - 1] != 0x0a); } }
                }
                Some(e) => {
                    assert forall|j: int| 0 <= j < s.subrange(i, e - 1).len() implies #[trigger] s.subrange(i, e - 1)[j] != 0x0a by { if j > 0 { assert(s.subrange(i + 1, e - 1)[j - 1] != 0x0a); } }
                }
            }
        } else {
            assert(s.subrange(i, i) =~= Seq::<u8>::empty());
        }
    }
}

proof fn lemma_corr(s: Seq<u8>, g: At)
    requires corr(s, g), !g.done,
    ensures
        first(s, g) is Some ==> corr(s, next(s, g)),
        first(s, g) is None ==> ({ let st = scan(St::Line(seq![]), s); busy(st) || st is Ann }),
{
    hide(line_announces);
    hide(line_ending);
    let z = St::Line(seq![]);
    let p = g.pos;
    assert(s =~= s.take(p) + s.skip(p));
    lemma_scan(z, s.take(p), s.skip(p));
    let st = scan(z, s.take(p));
    match g.lit {
        Some(len) => {
            let a = match st { St::Ann(a) => a, _ => arbitrary() };
            let k = if p + len <= s.len() { p + len } else { s.len() as int };
            let w = s.subrange(p, k);
            assert(s.take(k) =~= s.take(p) + w);
            lemma_scan(z, s.take(p), w);
            if w.len() > 0 { lemma_scan_data(a, w); } else { assert(w =~= Seq::<u8>::empty()); }
            if k == s.len() { assert(s.take(k) =~= s); }
        }
        None => {
            lemma_lf_none(s, p);
            match lf_from(s, p) {
                None => {
                    if s.skip(p).len() > 0 || st is Line { lemma_scan_line(st, s.skip(p)); } else { assert(s.skip(p) =~= Seq::<u8>::empty()); }
                }
                Some(e) => {
                    let w = s.subrange(p, e);
                    assert(w.drop_last() =~= s.subrange(p, e - 1));
                    assert(w.last() == s[e - 1]);
                    lemma_scan_eol(st, w);
                    assert(s.take(e) =~= s.take(p) + w);
                    lemma_scan(z, s.take(p), w);
                }
            }
        }
    }
}

proof fn lemma_walk_scan(s: Seq<u8>, g: At)
    requires corr(s, g),
    ensures
        walk(s, g) matches Some(n) ==> 0 <= n <= s.len() && scan(St::Line(seq![]), s.take(n)) is Done,
        walk(s, g) is None ==> ({ let st = scan(St::Line(seq![]), s); busy(st) || st is Ann }),
    decreases ahead(s, g), if g.done { 0int } else { 1 },
{
    hide(corr);
    hide(first);
    hide(next);
    reveal(corr);
    if !g.done {
        lemma_corr(s, g);
        if first(s, g) is Some {
            lemma_ahead(s, g);
            lemma_walk_scan(s, next(s, g));
        }
    }
}
proof fn lemma_over(s: Seq<u8>, m: int, n: int)
    requires 0 <= m < n <= s.len(), scan(St::Line(seq![]), s.take(m)) is Done,
    ensures scan(St::Line(seq![]), s.take(n)) is Over,
    decreases n - m,
{
    assert(s.take(n).drop_last() =~= s.take(n - 1));
    if m < n - 1 { lemma_over(s, m, n - 1); }
}

/// The automaton of the parser unit ends a message exactly where the fragmentizer does.
proof fn theorem_frame(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(),
    ensures
        scan(St::Line(seq![]), s.take(n)) is Done ==> walk(s, start_at(0)) == Some(n),
        ({ let st = scan(St::Line(seq![]), s); busy(st) || st is Ann }) ==> walk(s, start_at(0)) is None,
{
    assert(s.take(0) =~= Seq::<u8>::empty());
    assert(corr(s, start_at(0)));
    lemma_walk_scan(s, start_at(0));
    let all = s.len() as int;
    assert(s.take(all) =~= s);
    match walk(s, start_at(0)) {
        Some(m) => {
            if m < n { lemma_over(s, m, n); }
            if n < m && scan(St::Line(seq![]), s.take(n)) is Done { lemma_over(s, n, m); }
            if m < all { lemma_over(s, m, all); }
        }
        None => {
            if scan(St::Line(seq![]), s.take(n)) is Done && n < all { lemma_over(s, n, all); }
        }
    }
}

/// A client over the contracts: one more chunk, polled until nothing more comes. It terminates, and what it has got
/// then is all there is in the stream.
fn vx_client(f: &mut Fragmentizer, chunk: &[u8], Ghost(s): Ghost<Seq<u8>>, Ghost(e): Ghost<Seq<FragmentInfo>>, Ghost(g): Ghost<At>) -> (r: (Ghost<Seq<FragmentInfo>>, Ghost<At>))
    requires
        hist(*old(f), s, e, g),
        s.len() + chunk@.len() <= usize::MAX,
    ensures
        hist(*final(f), s + chunk@, r.0@, r.1@),
        first(s + chunk@, r.1@) is None,
        final(f).unparsed_buffer@.len() == 0,
{
    f.enqueue_bytes(chunk);
    let ghost mut t = s + chunk@;
    let ghost mut x = e;
    let ghost mut h = g;
    proof { theorem_enqueue(*old(f), chunk@, *f, s, e, g); }
    loop
        invariant
            hist(*f, t, x, h),
            t == s + chunk@,
        ensures
            hist(*f, t, x, h),
            t == s + chunk@,
            first(t, h) is None,
            f.unparsed_buffer@.len() == 0,
        decreases ahead(t, h),
    {
        let ghost o = *f;
        let r = f.progress();
        proof {
            theorem_progress(o, r, *f, t, x, h);
        }
        match r {
            Some(i) => proof {
                lemma_ahead(t, h);
                x = x.push(i);
                h = next(t, h);
            },
            None => {
                proof {
                    assert(first(t, norm(h)) is None);
                    h = norm(h);
                }
                break;
            }
        }
    }
    (Ghost(x), Ghost(h))
}

}
fn main() {}
