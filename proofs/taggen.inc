#![allow(unused, non_snake_case, unused_parens, unused_braces)]
use vstd::prelude::*;
verus! {

//@ include grammar.inc

// ===== what the tag is ==============================================================================

/// A text that may be a tag.
spec fn tagged(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 0x7f && tag_char(s[i] as u8) }
spec fn digit(n: nat) -> char { ((0x30 + n % 10) as u8) as char }
/// Decimal digits.
spec fn dec(n: nat) -> Seq<char>
    decreases n,
{
    if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n)) }
}
spec fn val(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { val(s.drop_last()) * 10 + (s.last() as nat - 0x30) as nat }
}
proof fn lemma_dec(n: nat)
    ensures
        tagged(dec(n)),
        forall|i: int| 0 <= i < dec(n).len() ==> '0' <= #[trigger] dec(n)[i] <= '9',
        val(dec(n)) == n,
    decreases n,
{
    let d = (0x30 + n % 10) as u8;
    assert(digit(n) == d as char && 0x30 <= d <= 0x39);
    assert(digit(n) as nat - 0x30 == n % 10);
    assert(dec(n).last() == digit(n));
    assert(val(Seq::<char>::empty()) == 0);
    if n < 10 {
        assert(dec(n).drop_last() =~= Seq::<char>::empty());
    } else {
        lemma_dec(n / 10);
        assert(dec(n).drop_last() =~= dec(n / 10));
        assert(n == (n / 10) * 10 + n % 10) by (nonlinear_arith);
    }
}
/// Up to the first dot.
spec fn head(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 || s[0] == '.' { seq![] } else { seq![s[0]] + head(s.skip(1)) }
}
/// After the first dot.
spec fn rest(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { s } else if s[0] == '.' { s.skip(1) } else { rest(s.skip(1)) }
}
proof fn lemma_head(a: Seq<char>, b: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> a[i] != '.', b.len() > 0 ==> b[0] == '.',
    ensures head(a + b) == a, rest(a + b) == b.skip(if b.len() > 0 { 1 } else { 0 }),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b =~= b);
        if b.len() == 0 { assert(b.skip(0) =~= b); }
    } else {
        lemma_head(a.skip(1), b);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert(seq![a[0]] + a.skip(1) =~= a);
    }
}
/// The tag of the `c`-th call on the generator `g`: its first two parts are the numbers.
spec fn names(s: Seq<char>, g: nat, c: nat) -> bool { head(s) == dec(g) && head(rest(s)) == dec(c) }

/// Tags of different generators, or of different calls, differ.
proof fn theorem_unique(s: Seq<char>, g1: nat, c1: nat, t: Seq<char>, g2: nat, c2: nat)
    requires names(s, g1, c1), names(t, g2, c2), s == t,
    ensures g1 == g2, c1 == c2,
{
    lemma_dec(g1); lemma_dec(g2); lemma_dec(c1); lemma_dec(c2);
}
proof fn lemma_tag(g: nat, c: nat, e: Seq<char>)
    requires e.len() > 0 ==> e[0] == '.', e.len() > 0 ==> tagged(e),
    ensures names(dec(g) + seq!['.'] + dec(c) + e, g, c), tagged(dec(g) + seq!['.'] + dec(c) + e),
{
    lemma_dec(g); lemma_dec(c);
    let b = seq!['.'] + dec(c) + e;
    assert(dec(g) + seq!['.'] + dec(c) + e =~= dec(g) + b);
    lemma_head(dec(g), b);
    assert(b.skip(1) =~= dec(c) + e);
    lemma_head(dec(c), e);
    let s = dec(g) + b;
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) as u32 <= 0x7f && tag_char(s[i] as u8) by {
        if i < dec(g).len() { assert(s[i] == dec(g)[i]); }
        else if i == dec(g).len() { assert(s[i] == '.'); }
        else if i < dec(g).len() + 1 + dec(c).len() { assert(s[i] == dec(c)[i - dec(g).len() - 1]); }
        else { assert(s[i] == e[i - dec(g).len() - 1 - dec(c).len()]); }
    }
}

// ===== what is used ==================================================================================

/// `r` was returned by `fetch_add(n)` of the one counter. With n == 1, no two calls return the same (2^64 calls aside).
uninterp spec fn issued(n: usize, r: usize) -> bool;
#[derive(Clone, Copy)]
enum Ordering { Relaxed, Acquire, Release, AcqRel, SeqCst }
struct VxCounter;
fn vx_counter() -> VxCounter { VxCounter }
impl VxCounter {
    #[verifier::external_body]
    fn fetch_add(&self, n: usize, o: Ordering) -> (r: usize)
        ensures issued(n, r),
    {
        unimplemented!()
    }
}
struct VxRng;
fn vx_rng() -> VxRng { VxRng }
struct VxAlphanumeric;
fn vx_alphanumeric() -> VxAlphanumeric { VxAlphanumeric }
spec fn alnum(c: char) -> bool { '0' <= c <= '9' || 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
impl VxAlphanumeric {
    #[verifier::external_body]
    fn sample_string(&self, r: &mut VxRng, n: usize) -> (t: VxText)
        ensures t@.len() == n, forall|i: int| 0 <= i < n ==> alnum(#[trigger] t@[i]),
    {
        unimplemented!()
    }
}
/// A text under construction (`format!`).
#[verifier::external_body]
struct VxText(String);
impl View for VxText { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
fn vx_text() -> (r: VxText)
    ensures r@ == Seq::<char>::empty(),
{
    unimplemented!()
}
/// What `Display` prints.
trait VxShow { spec fn shown(&self) -> Seq<char>; }
impl VxShow for usize { spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl VxShow for u64 { spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl VxShow for u32 { spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl VxShow for u16 { spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl VxShow for u8 { spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl VxShow for VxText { spec fn shown(&self) -> Seq<char> { self@ } }
impl VxText {
    #[verifier::external_body]
    fn vx_char(&mut self, c: char)
        ensures final(self)@ == old(self)@.push(c),
    {
        unimplemented!()
    }
    #[verifier::external_body]
    fn vx_put<T: VxShow>(&mut self, x: &T)
        ensures final(self)@ == old(self)@ + x.shown(),
    {
        unimplemented!()
    }
}
#[verifier::external_body]
struct Tag<'a>(&'a str);
impl<'a> View for Tag<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> Tag<'a> {
    /// The caller has to make sure that the text is a tag.
    #[verifier::external_body]
    fn unvalidated(inner: VxText) -> (r: Tag<'a>)
        requires tagged(inner@),
        ensures r@ == inner@,
    {
        unimplemented!()
    }
}

// ===== the code ======================================================================================

//@ file imap-types/src/core.rs
//@ sole TagGenerator GLOBAL_TAG_GENERATOR_COUNT new generate
//@ struct TagGenerator
//@ impl TagGenerator {
//@ fn new -> r
//@ path GLOBAL_TAG_GENERATOR_COUNT=>vx_counter()
    ensures
        issued(1, r.global as usize),
        r.counter <= 0xffff_ffff,
//@ endfn
//@ fn generate -> r
//@ formats
//@ path Alphanumeric=>vx_alphanumeric() ;; rand::rng=>vx_rng
    requires
        old(self).counter < u64::MAX,
    ensures
        tagged(r@),
        names(r@, old(self).global as nat, old(self).counter as nat),
        final(self).global == old(self).global,
        final(self).counter == old(self).counter + 1,
//@ start
    proof {
        let (g, c) = (old(self).global as nat, old(self).counter as nat);
        let s = (Seq::<char>::empty() + dec(g)).push('.') + dec(c);
        lemma_tag(g, c, seq![]);
        assert(s =~= dec(g) + seq!['.'] + dec(c) + seq![]);
        assert forall|t: Seq<char>| (forall|i: int| 0 <= i < t.len() ==> alnum(#[trigger] t[i])) implies names(#[trigger] (s.push('.') + t), g, c) && tagged(s.push('.') + t) by {
            let e = seq!['.'] + t;
            lemma_tag(g, c, e);
            assert(s.push('.') + t =~= dec(g) + seq!['.'] + dec(c) + e);
        }
    }
//@ endfn
//@ endimpl
}
fn main() {}
