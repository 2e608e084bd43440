#!/usr/bin/env python3
"""Writes numtext.rs: texts, lists and numbers as sequence sets."""
import os

H = r'''//@ cfg all-features debug public
// Written by mk_numtext.py.
#![allow(unused, non_snake_case, unused_parens, unused_braces)]
use std::num::NonZeroU32;
use vstd::prelude::*;
use vstd::string::*;
use vstd::std_specs::convert::{TryFromSpecImpl, FromSpecImpl};
verus! {

// ===== specification =================================================================================

//@ include seqtext.inc

// ===== std ===========================================================================================

#[verifier::external_body]
broadcast proof fn axiom_nonzero(a: NonZeroU32, b: NonZeroU32)
    ensures
        #[trigger] a@ == #[trigger] b@ ==> a == b,
{
}
/// `==` of texts.
#[verifier::external_body]
fn vx_eq(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@),
{ a == b }
/// `starts_with` one of the characters.
#[verifier::external_body]
fn vx_starts_with<const N: usize>(s: &str, c: [char; N]) -> (r: bool)
    ensures r == (s@.len() > 0 && exists|i: int| 0 <= i < N && #[trigger] c@[i] == s@[0]),
{ s.starts_with(c) }
/// `NonZeroU32::from_str`: digits, with a plus sign or without.
#[verifier::external_body]
fn vx_nz_from_str(s: &str) -> (r: Result<NonZeroU32, std::num::ParseIntError>)
    ensures
        ({
            let d = if s@.len() > 0 && s@[0] == '+' { s@.skip(1) } else { s@ };
            &&& r is Ok <==> digits(d) && 0 < number(d) <= u32::MAX
            &&& r matches Ok(n) ==> n@ == number(d)
        }),
{ s.parse() }
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
/// `str::split` at a character.
pub struct VxSplit<'a> { v: Vec<&'a str>, i: usize }
impl<'a> VxSplit<'a> {
    pub closed spec fn all(self) -> Seq<Seq<char>> { Seq::new(self.v@.len(), |i: int| self.v@[i]@) }
    pub closed spec fn at(self) -> nat { self.i as nat }
    pub closed spec fn wf(self) -> bool { self.i <= self.v@.len() }
    fn next(&mut self) -> (r: Option<&'a str>)
        requires old(self).wf(),
        ensures
            final(self).wf(),
            final(self).all() == old(self).all(),
            old(self).at() < old(self).all().len() ==> final(self).at() == old(self).at() + 1 && (r matches Some(p) && p@ == old(self).all()[old(self).at() as int]),
            old(self).at() >= old(self).all().len() ==> r is None && final(self).at() == old(self).at(),
    {
        if self.i < self.v.len() {
            self.i = self.i + 1;
            Some(self.v[self.i - 1])
        } else {
            None
        }
    }
    fn pop_front(&mut self) -> (r: Option<&'a str>)
        requires old(self).wf(),
        ensures
            final(self).wf(),
            final(self).all() == old(self).all(),
            old(self).at() < old(self).all().len() ==> final(self).at() == old(self).at() + 1 && (r matches Some(p) && p@ == old(self).all()[old(self).at() as int]),
            old(self).at() >= old(self).all().len() ==> r is None && final(self).at() == old(self).at(),
    {
        self.next()
    }
    fn count(self) -> (r: usize)
        requires self.wf(),
        ensures r == self.all().len() - self.at(),
    {
        self.v.len() - self.i
    }
}
#[verifier::external_body]
fn vx_split<'a>(s: &'a str, c: char) -> (r: VxSplit<'a>)
    ensures
        r.wf(),
        r.at() == 0,
        r.all() == pieces(s@, c),
{ VxSplit { v: s.split(c).collect(), i: 0 } }
/// `str::parse`
pub trait FromStr: Sized {
    type Err;
    spec fn reads(s: Seq<char>, r: Result<Self, Self::Err>) -> bool;
    fn from_str(value: &str) -> (r: Result<Self, Self::Err>)
        ensures Self::reads(value@, r);
}
fn vx_parse<T: FromStr>(s: &str) -> (r: Result<T, T::Err>)
    ensures T::reads(s@, r),
{
    T::from_str(s)
}
/// `into_iter().map(f).collect()`
fn vx_id<T>(v: Vec<T>) -> (r: Vec<T>)
    ensures r == v,
{ v }
#[verifier::external_body]
fn vx_map<T, U, F: Fn(T) -> U>(v: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],)),
    ensures
        r@.len() == v@.len(),
        forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (v@[i],), #[trigger] r@[i]),
{ v.into_iter().map(f).collect() }
#[verifier::external_body]
fn vx_to_vec<T: Clone>(v: &[T]) -> (r: Vec<T>)
    ensures r@ == v@,
{ v.to_vec() }
/// Integers.
pub trait VxInt: Copy { spec fn int(self) -> int; fn vx_u32(self) -> (r: Result<u32, ()>) ensures r is Ok <==> 0 <= self.int() <= u32::MAX, r matches Ok(n) ==> n == self.int(); }
INTS
/// `u32::try_from`
fn vx_u32<T: VxInt>(v: T) -> (r: Result<u32, ()>)
    ensures
        r is Ok <==> 0 <= v.int() <= u32::MAX,
        r matches Ok(n) ==> n == v.int(),
{ v.vx_u32() }
/// `NonZeroU32::try_from`
#[verifier::external_body]
fn vx_nz(v: u32) -> (r: Result<NonZeroU32, std::num::TryFromIntError>)
    ensures
        r is Ok <==> v != 0,
        r matches Ok(n) ==> n@ == v,
{ NonZeroU32::try_from(v) }

//@ optmatch map_err
//@ file imap-types/src/error.rs
//@ struct ValidationError #[derive(Debug)]
//@ enum ValidationErrorKind #[derive(Debug)]
//@ impl ValidationError {
//@ fn new -> r
//@ endfn
//@ endimpl

//@ file imap-types/src/core.rs
//@ struct VecN
pub type Vec1<T> = VecN<T, 1>;
impl<T, const N: usize> TryFromSpecImpl<Vec<T>> for VecN<T, N> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<T>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl VecN<T, N> {
//@ fn validate -> r
    ensures
        r is Ok <==> value@.len() >= N,
//@ endfn
//@ endimpl
//@ impl TryFrom<Vec<T>> for VecN<T, N> {
//@ fn try_from -> r
    ensures
        r is Ok <==> inner@.len() >= N,
        r matches Ok(v) ==> v.0@ == inner@,
//@ endfn
//@ endimpl
impl<T> FromSpecImpl<T> for Vec1<T> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: T) -> Self { arbitrary() }
}
//@ impl From<T> for Vec1<T> {
//@ fn from -> r
    ensures
        r.0@ == seq![value],
//@ endfn
//@ endimpl

// ===== texts =========================================================================================

//@ file imap-types/src/sequence.rs
//@ enum SeqOrUid #[derive(Clone, Copy)]
//@ enum Sequence #[derive(Clone)]
//@ struct SequenceSet
'''
INT = '''impl VxInt for T { open spec fn int(self) -> int { self as int }
    #[verifier::external_body]
    fn vx_u32(self) -> Result<u32, ()> { u32::try_from(self).map_err(|_| ()) } }
'''
NUMS = "i8 i16 i32 i64 isize u8 u16 u32 u64 usize".split()
o = [H.replace("INTS\n", "".join(INT.replace("for T", f"for {t}") for t in NUMS))]
def w(s): o.append(s + "\n")
def tfs(ty, frm, lt=""):
    w(f"""impl{lt} TryFromSpecImpl<{frm}> for {ty} {{
    open spec fn obeys_try_from_spec() -> bool {{ false }}
    open spec fn try_from_spec(value: {frm}) -> Result<Self, ValidationError> {{ arbitrary() }}
}}""")
def fs(ty, frm):
    w(f"""impl FromSpecImpl<{frm}> for {ty} {{
    open spec fn obeys_from_spec() -> bool {{ false }}
    open spec fn from_spec(value: {frm}) -> Self {{ arbitrary() }}
}}""")
def fn(name, ens, dirs=(), start="", extra=""):
    w(f"//@ fn {name} -> r")
    for d in dirs: w("//@ " + d)
    if ens: w("    ensures\n" + "".join(f"        {e},\n" for e in ens).rstrip())
    if extra: w(extra)
    if start: w("//@ start\n" + start)
    w("//@ endfn")

# conversions between the three
fs("Sequence", "SeqOrUid"); w("//@ impl From<SeqOrUid> for Sequence {"); fn("from", ["r == Sequence::Single(value)"]); w("//@ endimpl")
fs("SequenceSet", "Sequence"); w("//@ impl From<Sequence> for SequenceSet {"); fn("from", ["r.0.0@ == seq![sequence]"]); w("//@ endimpl")
w("pub open spec fn same_number(a: SeqOrUid, n: int) -> bool { match a { SeqOrUid::Value(x) => x@ == n, SeqOrUid::Asterisk => n == u32::MAX } }")
w("//@ path NonZeroU32::MAX=>vx_nz_max()")
w('''fn vx_nz_max() -> (r: NonZeroU32)
    ensures r@ == u32::MAX,
{ vx_max() }
#[verifier::external_body]
fn vx_max() -> (r: NonZeroU32) ensures r@ == u32::MAX { NonZeroU32::MAX }
''')
fs("SeqOrUid", "NonZeroU32"); w("//@ impl From<NonZeroU32> for SeqOrUid {"); fn("from", ["same_number(r, value@ as int)"]); w("//@ endimpl")
fs("Sequence", "NonZeroU32"); w("//@ impl From<NonZeroU32> for Sequence {"); fn("from", ["r matches Sequence::Single(a) && same_number(a, value@ as int)"]); w("//@ endimpl")

fs("SequenceSet", "SeqOrUid"); w("//@ impl From<SeqOrUid> for SequenceSet {"); fn("from", ["r.0.0@ == seq![Sequence::Single(value)]"]); w("//@ endimpl")
fs("SequenceSet", "NonZeroU32"); w("//@ impl From<NonZeroU32> for SequenceSet {"); fn("from", ["r.0.0@.len() == 1 && (r.0.0@[0] matches Sequence::Single(a) && same_number(a, value@ as int))"]); w("//@ endimpl")

# texts
w("//@ impl FromStr for SeqOrUid {\n    open spec fn reads(s: Seq<char>, r: Result<Self, ValidationError>) -> bool { seq_number(s, r.ok()) }")
fn("from_str", [], ["wrap starts_with=vx_starts_with:own", "path NonZeroU32::from_str=>vx_nz_from_str", "optmatch map_err"],
   """    proof {
        reveal_strlit("*");
        assert("*"@ =~= seq!['*']);
        if digits(value@) { lemma_zero(value@); assert(digit(value@[0])); }
        assert(seq!['0', '+'][0] == '0' && seq!['0', '+'][1] == '+');
    }""")
w("//@ endimpl")
tfs("SeqOrUid", "&'a str", "<'a>")
w("//@ impl TryFrom<&str> for SeqOrUid {"); fn("try_from", ["seq_number(value@, r.ok())"], ["wrap parse=vx_parse:own"]); w("//@ endimpl")
w("//@ impl FromStr for Sequence {\n    open spec fn reads(s: Seq<char>, r: Result<Self, ValidationError>) -> bool { seq_item(s, r.ok()) }")
fn("from_str", [], ["wrap split=vx_split:own"], "    proof { lemma_pieces(value@, ':'); }")
w("//@ endimpl")
tfs("Sequence", "&'a str", "<'a>")
w("//@ impl TryFrom<&str> for Sequence {"); fn("try_from", ["seq_item(value@, r.ok())"], ["wrap parse=vx_parse:own"]); w("//@ endimpl")
w("//@ impl FromStr for SequenceSet {\n    open spec fn reads(s: Seq<char>, r: Result<Self, ValidationError>) -> bool {\n        match r { Ok(q) => seq_set(s, Some(q.0.0@)), Err(_) => seq_set(s, None) }\n    }")
fn("from_str", [], ["wrap split=vx_split:own"], "    proof { lemma_pieces(value@, ','); }", """//@ loop 0 inv popfront
    invariant
        vx_q0.wf(),
        vx_q0.all() == pieces(value@, ','),
        vx_q0.at() == results@.len(),
        results@.len() <= pieces(value@, ',').len(),
        forall|i: int| 0 <= i < results@.len() ==> seq_item(pieces(value@, ',')[i], Some(#[trigger] results@[i])),
    ensures
        results@.len() == pieces(value@, ',').len(),
    decreases pieces(value@, ',').len() - results@.len(),""")
w("//@ endimpl")
tfs("SequenceSet", "&'a str", "<'a>")
w("//@ impl TryFrom<&str> for SequenceSet {"); fn("try_from", ["match r { Ok(q) => seq_set(value@, Some(q.0.0@)), Err(_) => seq_set(value@, None) }"], ["wrap parse=vx_parse:own"]); w("//@ endimpl")

# lists
tfs("SequenceSet", "Vec<Sequence>")
w("//@ impl TryFrom<Vec<Sequence>> for SequenceSet {"); fn("try_from", ["r is Ok <==> sequences@.len() > 0", "r matches Ok(q) ==> q.0.0@ == sequences@"]); w("//@ endimpl")
w("pub open spec fn singles(q: Seq<Sequence>, n: Seq<NonZeroU32>) -> bool { q.len() == n.len() && forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i] matches Sequence::Single(a) && same_number(a, n[i]@ as int)) }")
tfs("SequenceSet", "Vec<NonZeroU32>")
w("//@ impl TryFrom<Vec<NonZeroU32>> for SequenceSet {"); fn("try_from", ["r is Ok <==> sequences@.len() > 0", "r matches Ok(q) ==> singles(q.0.0@, sequences@)"], ["wrap into_iter=vx_id:own map=vx_map:own collect=vx_id:own"]); w("//@ endimpl")
tfs("SequenceSet", "&'a [NonZeroU32]", "<'a>")
w("//@ impl TryFrom<&[NonZeroU32]> for SequenceSet {"); fn("try_from", ["r is Ok <==> value@.len() > 0", "r matches Ok(q) ==> singles(q.0.0@, value@)"], ["wrap to_vec=vx_to_vec:own"]); w("//@ endimpl")

# numbers
w("pub open spec fn valid(n: int) -> bool { 1 <= n <= u32::MAX }\npub open spec fn number_is(q: Sequence, n: int) -> bool { q matches Sequence::Single(a) && same_number(a, n) }")
for t in NUMS:
    tfs("SeqOrUid", t); w(f"//@ impl TryFrom<{t}> for SeqOrUid {{"); fn("try_from", ["r is Ok <==> valid(value as int)", "r matches Ok(a) ==> same_number(a, value as int)"], ["path u32::try_from=>vx_u32", "path NonZeroU32::try_from=>vx_nz"]); w("//@ endimpl")
    tfs("Sequence", t); w(f"//@ impl TryFrom<{t}> for Sequence {{"); fn("try_from", ["r is Ok <==> valid(value as int)", "r matches Ok(q) ==> number_is(q, value as int)"]); w("//@ endimpl")
    tfs("SequenceSet", t); w(f"//@ impl TryFrom<{t}> for SequenceSet {{"); fn("try_from", ["r is Ok <==> valid(value as int)", "r matches Ok(q) ==> q.0.0@.len() == 1 && number_is(q.0.0@[0], value as int)"]); w("//@ endimpl")
    tfs("SequenceSet", f"&'a [{t}]", "<'a>")
    w(f"//@ impl TryFrom<&[{t}]> for SequenceSet {{")
    fn("try_from", ["r is Ok <==> values@.len() > 0 && forall|i: int| 0 <= i < values@.len() ==> valid(#[trigger] values@[i] as int)", "r matches Ok(q) ==> q.0.0@.len() == values@.len() && forall|i: int| 0 <= i < values@.len() ==> number_is(#[trigger] q.0.0@[i], values@[i] as int)"],
       extra="""//@ loop 0 inv vx_it iter
    invariant
        vx_it.seq().len() == values@.len(),
        forall|i: int| 0 <= i < values@.len() ==> *(#[trigger] vx_it.seq()[i]) == values@[i],
        checked@.len() == vx_it.index@,
        forall|i: int| 0 <= i < checked@.len() ==> number_is(#[trigger] checked@[i], values@[i] as int),
        forall|i: int| 0 <= i < checked@.len() ==> valid(#[trigger] values@[i] as int),
//@ loop 0 start
        proof { assert(*value == values@[vx_it.index@]); }""")
    w("//@ endimpl")
w("} // verus!\nfn main() {}")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "numtext.rs"), "w").write("".join(o))
