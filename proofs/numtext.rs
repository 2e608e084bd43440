//@ cfg all-features debug public
// Written by mk_numtext.py.
#![allow(unused, non_snake_case, unused_parens, unused_braces)]
use std::num::NonZeroU32;
use vstd::prelude::*;
use vstd::string::*;
use vstd::std_specs::convert::{TryFromSpecImpl, FromSpecImpl};
verus! {

// ===== specification =================================================================================

//@ include seqtext.inc

// ===== std ===========================================================================================

#[verifier::external_body]
broadcast proof fn axiom_nonzero(a: NonZeroU32, b: NonZeroU32)
    ensures
        #[trigger] a@ == #[trigger] b@ ==> a == b,
{
}
/// `==` of texts.
#[verifier::external_body]
fn vx_eq(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@),
{ a == b }
/// `starts_with` one of the characters.
#[verifier::external_body]
fn vx_starts_with<const N: usize>(s: &str, c: [char; N]) -> (r: bool)
    ensures r == (s@.len() > 0 && exists|i: int| 0 <= i < N && #[trigger] c@[i] == s@[0]),
{ s.starts_with(c) }
/// `NonZeroU32::from_str`: digits, with a plus sign or without.
#[verifier::external_body]
fn vx_nz_from_str(s: &str) -> (r: Result<NonZeroU32, std::num::ParseIntError>)
    ensures
        ({
            let d = if s@.len() > 0 && s@[0] == '+' { s@.skip(1) } else { s@ };
            &&& r is Ok <==> digits(d) && 0 < number(d) <= u32::MAX
            &&& r matches Ok(n) ==> n@ == number(d)
        }),
{ s.parse() }
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
/// `str::split` at a character.
pub struct VxSplit<'a> { v: Vec<&'a str>, i: usize }
impl<'a> VxSplit<'a> {
    pub closed spec fn all(self) -> Seq<Seq<char>> { Seq::new(self.v@.len(), |i: int| self.v@[i]@) }
    pub closed spec fn at(self) -> nat { self.i as nat }
    pub closed spec fn wf(self) -> bool { self.i <= self.v@.len() }
    fn next(&mut self) -> (r: Option<&'a str>)
        requires old(self).wf(),
        ensures
            final(self).wf(),
            final(self).all() == old(self).all(),
            old(self).at() < old(self).all().len() ==> final(self).at() == old(self).at() + 1 && (r matches Some(p) && p@ == old(self).all()[old(self).at() as int]),
            old(self).at() >= old(self).all().len() ==> r is None && final(self).at() == old(self).at(),
    {
        if self.i < self.v.len() {
            self.i = self.i + 1;
            Some(self.v[self.i - 1])
        } else {
            None
        }
    }
    fn pop_front(&mut self) -> (r: Option<&'a str>)
        requires old(self).wf(),
        ensures
            final(self).wf(),
            final(self).all() == old(self).all(),
            old(self).at() < old(self).all().len() ==> final(self).at() == old(self).at() + 1 && (r matches Some(p) && p@ == old(self).all()[old(self).at() as int]),
            old(self).at() >= old(self).all().len() ==> r is None && final(self).at() == old(self).at(),
    {
        self.next()
    }
    fn count(self) -> (r: usize)
        requires self.wf(),
        ensures r == self.all().len() - self.at(),
    {
        self.v.len() - self.i
    }
}
#[verifier::external_body]
fn vx_split<'a>(s: &'a str, c: char) -> (r: VxSplit<'a>)
    ensures
        r.wf(),
        r.at() == 0,
        r.all() == pieces(s@, c),
{ VxSplit { v: s.split(c).collect(), i: 0 } }
/// `str::parse`
pub trait FromStr: Sized {
    type Err;
    spec fn reads(s: Seq<char>, r: Result<Self, Self::Err>) -> bool;
    fn from_str(value: &str) -> (r: Result<Self, Self::Err>)
        ensures Self::reads(value@, r);
}
fn vx_parse<T: FromStr>(s: &str) -> (r: Result<T, T::Err>)
    ensures T::reads(s@, r),
{
    T::from_str(s)
}
/// `into_iter().map(f).collect()`
fn vx_id<T>(v: Vec<T>) -> (r: Vec<T>)
    ensures r == v,
{ v }
#[verifier::external_body]
fn vx_map<T, U, F: Fn(T) -> U>(v: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],)),
    ensures
        r@.len() == v@.len(),
        forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (v@[i],), #[trigger] r@[i]),
{ v.into_iter().map(f).collect() }
#[verifier::external_body]
fn vx_to_vec<T: Clone>(v: &[T]) -> (r: Vec<T>)
    ensures r@ == v@,
{ v.to_vec() }
/// Integers.
pub trait VxInt: Copy { spec fn int(self) -> int; fn vx_u32(self) -> (r: Result<u32, ()>) ensures r is Ok <==> 0 <= self.int() <= u32::MAX, r matches Ok(n) ==> n == self.int(); }
impl VxInt for i8 { open spec fn int(self) -> int { self as int }
    #[verifier::external_body]
    fn vx_u32(self) -> Result<u32, ()> { u32::try_from(self).map_err(|_| ()) } }
impl VxInt for i16 { open spec fn int(self) -> int { self as int }
    #[verifier::external_body]
    fn vx_u32(self) -> Result<u32, ()> { u32::try_from(self).map_err(|_| ()) } }
impl VxInt for i32 { open spec fn int(self) -> int { self as int }
    #[verifier::external_body]
    fn vx_u32(self) -> Result<u32, ()> { u32::try_from(self).map_err(|_| ()) } }
impl VxInt for i64 { open spec fn int(self) -> int { self as int }
    #[verifier::external_body]
    fn vx_u32(self) -> Result<u32, ()> { u32::try_from(self).map_err(|_| ()) } }
impl VxInt for isize { open spec fn int(self) -> int { self as int }
    #[verifier::external_body]
    fn vx_u32(self) -> Result<u32, ()> { u32::try_from(self).map_err(|_| ()) } }
impl VxInt for u8 { open spec fn int(self) -> int { self as int }
    #[verifier::external_body]
    fn vx_u32(self) -> Result<u32, ()> { u32::try_from(self).map_err(|_| ()) } }
impl VxInt for u16 { open spec fn int(self) -> int { self as int }
    #[verifier::external_body]
    fn vx_u32(self) -> Result<u32, ()> { u32::try_from(self).map_err(|_| ()) } }
impl VxInt for u32 { open spec fn int(self) -> int { self as int }
    #[verifier::external_body]
    fn vx_u32(self) -> Result<u32, ()> { u32::try_from(self).map_err(|_| ()) } }
impl VxInt for u64 { open spec fn int(self) -> int { self as int }
    #[verifier::external_body]
    fn vx_u32(self) -> Result<u32, ()> { u32::try_from(self).map_err(|_| ()) } }
impl VxInt for usize { open spec fn int(self) -> int { self as int }
    #[verifier::external_body]
    fn vx_u32(self) -> Result<u32, ()> { u32::try_from(self).map_err(|_| ()) } }
/// `u32::try_from`
fn vx_u32<T: VxInt>(v: T) -> (r: Result<u32, ()>)
    ensures
        r is Ok <==> 0 <= v.int() <= u32::MAX,
        r matches Ok(n) ==> n == v.int(),
{ v.vx_u32() }
/// `NonZeroU32::try_from`
#[verifier::external_body]
fn vx_nz(v: u32) -> (r: Result<NonZeroU32, std::num::TryFromIntError>)
    ensures
        r is Ok <==> v != 0,
        r matches Ok(n) ==> n@ == v,
{ NonZeroU32::try_from(v) }

//@ optmatch map_err
//@ file imap-types/src/error.rs
//@ struct ValidationError #[derive(Debug)]
//@ enum ValidationErrorKind #[derive(Debug)]
//@ impl ValidationError {
//@ fn new -> r
//@ endfn
//@ endimpl

//@ file imap-types/src/core.rs
//@ struct VecN
pub type Vec1<T> = VecN<T, 1>;
impl<T, const N: usize> TryFromSpecImpl<Vec<T>> for VecN<T, N> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<T>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl VecN<T, N> {
//@ fn validate -> r
    ensures
        r is Ok <==> value@.len() >= N,
//@ endfn
//@ endimpl
//@ impl TryFrom<Vec<T>> for VecN<T, N> {
//@ fn try_from -> r
    ensures
        r is Ok <==> inner@.len() >= N,
        r matches Ok(v) ==> v.0@ == inner@,
//@ endfn
//@ endimpl
impl<T> FromSpecImpl<T> for Vec1<T> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: T) -> Self { arbitrary() }
}
//@ impl From<T> for Vec1<T> {
//@ fn from -> r
    ensures
        r.0@ == seq![value],
//@ endfn
//@ endimpl

// ===== texts =========================================================================================

//@ file imap-types/src/sequence.rs
//@ enum SeqOrUid #[derive(Clone, Copy)]
//@ enum Sequence #[derive(Clone)]
//@ struct SequenceSet
impl FromSpecImpl<SeqOrUid> for Sequence {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: SeqOrUid) -> Self { arbitrary() }
}
//@ impl From<SeqOrUid> for Sequence {
//@ fn from -> r
    ensures
        r == Sequence::Single(value),
//@ endfn
//@ endimpl
impl FromSpecImpl<Sequence> for SequenceSet {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: Sequence) -> Self { arbitrary() }
}
//@ impl From<Sequence> for SequenceSet {
//@ fn from -> r
    ensures
        r.0.0@ == seq![sequence],
//@ endfn
//@ endimpl
pub open spec fn same_number(a: SeqOrUid, n: int) -> bool { match a { SeqOrUid::Value(x) => x@ == n, SeqOrUid::Asterisk => n == u32::MAX } }
//@ path NonZeroU32::MAX=>vx_nz_max()
fn vx_nz_max() -> (r: NonZeroU32)
    ensures r@ == u32::MAX,
{ vx_max() }
#[verifier::external_body]
fn vx_max() -> (r: NonZeroU32) ensures r@ == u32::MAX { NonZeroU32::MAX }

impl FromSpecImpl<NonZeroU32> for SeqOrUid {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: NonZeroU32) -> Self { arbitrary() }
}
//@ impl From<NonZeroU32> for SeqOrUid {
//@ fn from -> r
    ensures
        same_number(r, value@ as int),
//@ endfn
//@ endimpl
impl FromSpecImpl<NonZeroU32> for Sequence {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: NonZeroU32) -> Self { arbitrary() }
}
//@ impl From<NonZeroU32> for Sequence {
//@ fn from -> r
    ensures
        r matches Sequence::Single(a) && same_number(a, value@ as int),
//@ endfn
//@ endimpl
impl FromSpecImpl<SeqOrUid> for SequenceSet {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: SeqOrUid) -> Self { arbitrary() }
}
//@ impl From<SeqOrUid> for SequenceSet {
//@ fn from -> r
    ensures
        r.0.0@ == seq![Sequence::Single(value)],
//@ endfn
//@ endimpl
impl FromSpecImpl<NonZeroU32> for SequenceSet {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: NonZeroU32) -> Self { arbitrary() }
}
//@ impl From<NonZeroU32> for SequenceSet {
//@ fn from -> r
    ensures
        r.0.0@.len() == 1 && (r.0.0@[0] matches Sequence::Single(a) && same_number(a, value@ as int)),
//@ endfn
//@ endimpl
//@ impl FromStr for SeqOrUid {
    open spec fn reads(s: Seq<char>, r: Result<Self, ValidationError>) -> bool { seq_number(s, r.ok()) }
//@ fn from_str -> r
//@ wrap starts_with=vx_starts_with:own
//@ path NonZeroU32::from_str=>vx_nz_from_str
//@ optmatch map_err
//@ start
    proof {
        reveal_strlit("*");
        assert("*"@ =~= seq!['*']);
        if digits(value@) { lemma_zero(value@); assert(digit(value@[0])); }
        assert(seq!['0', '+'][0] == '0' && seq!['0', '+'][1] == '+');
    }
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a str> for SeqOrUid {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&str> for SeqOrUid {
//@ fn try_from -> r
//@ wrap parse=vx_parse:own
    ensures
        seq_number(value@, r.ok()),
//@ endfn
//@ endimpl
//@ impl FromStr for Sequence {
    open spec fn reads(s: Seq<char>, r: Result<Self, ValidationError>) -> bool { seq_item(s, r.ok()) }
//@ fn from_str -> r
//@ wrap split=vx_split:own
//@ start
    proof { lemma_pieces(value@, ':'); }
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a str> for Sequence {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&str> for Sequence {
//@ fn try_from -> r
//@ wrap parse=vx_parse:own
    ensures
        seq_item(value@, r.ok()),
//@ endfn
//@ endimpl
//@ impl FromStr for SequenceSet {
    open spec fn reads(s: Seq<char>, r: Result<Self, ValidationError>) -> bool {
        match r { Ok(q) => seq_set(s, Some(q.0.0@)), Err(_) => seq_set(s, None) }
    }
//@ fn from_str -> r
//@ wrap split=vx_split:own
//@ loop 0 inv popfront
    invariant
        vx_q0.wf(),
        vx_q0.all() == pieces(value@, ','),
        vx_q0.at() == results@.len(),
        results@.len() <= pieces(value@, ',').len(),
        forall|i: int| 0 <= i < results@.len() ==> seq_item(pieces(value@, ',')[i], Some(#[trigger] results@[i])),
    ensures
        results@.len() == pieces(value@, ',').len(),
    decreases pieces(value@, ',').len() - results@.len(),
//@ start
    proof { lemma_pieces(value@, ','); }
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a str> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&str> for SequenceSet {
//@ fn try_from -> r
//@ wrap parse=vx_parse:own
    ensures
        match r { Ok(q) => seq_set(value@, Some(q.0.0@)), Err(_) => seq_set(value@, None) },
//@ endfn
//@ endimpl
impl TryFromSpecImpl<Vec<Sequence>> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<Sequence>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Vec<Sequence>> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> sequences@.len() > 0,
        r matches Ok(q) ==> q.0.0@ == sequences@,
//@ endfn
//@ endimpl
pub open spec fn singles(q: Seq<Sequence>, n: Seq<NonZeroU32>) -> bool { q.len() == n.len() && forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i] matches Sequence::Single(a) && same_number(a, n[i]@ as int)) }
impl TryFromSpecImpl<Vec<NonZeroU32>> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<NonZeroU32>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Vec<NonZeroU32>> for SequenceSet {
//@ fn try_from -> r
//@ wrap into_iter=vx_id:own map=vx_map:own collect=vx_id:own
    ensures
        r is Ok <==> sequences@.len() > 0,
        r matches Ok(q) ==> singles(q.0.0@, sequences@),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a [NonZeroU32]> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [NonZeroU32]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&[NonZeroU32]> for SequenceSet {
//@ fn try_from -> r
//@ wrap to_vec=vx_to_vec:own
    ensures
        r is Ok <==> value@.len() > 0,
        r matches Ok(q) ==> singles(q.0.0@, value@),
//@ endfn
//@ endimpl
pub open spec fn valid(n: int) -> bool { 1 <= n <= u32::MAX }
pub open spec fn number_is(q: Sequence, n: int) -> bool { q matches Sequence::Single(a) && same_number(a, n) }
impl TryFromSpecImpl<i8> for SeqOrUid {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: i8) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<i8> for SeqOrUid {
//@ fn try_from -> r
//@ path u32::try_from=>vx_u32
//@ path NonZeroU32::try_from=>vx_nz
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(a) ==> same_number(a, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<i8> for Sequence {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: i8) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<i8> for Sequence {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> number_is(q, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<i8> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: i8) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<i8> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> q.0.0@.len() == 1 && number_is(q.0.0@[0], value as int),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a [i8]> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [i8]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&[i8]> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> values@.len() > 0 && forall|i: int| 0 <= i < values@.len() ==> valid(#[trigger] values@[i] as int),
        r matches Ok(q) ==> q.0.0@.len() == values@.len() && forall|i: int| 0 <= i < values@.len() ==> number_is(#[trigger] q.0.0@[i], values@[i] as int),
//@ loop 0 inv vx_it iter
    invariant
        vx_it.seq().len() == values@.len(),
        forall|i: int| 0 <= i < values@.len() ==> *(#[trigger] vx_it.seq()[i]) == values@[i],
        checked@.len() == vx_it.index@,
        forall|i: int| 0 <= i < checked@.len() ==> number_is(#[trigger] checked@[i], values@[i] as int),
        forall|i: int| 0 <= i < checked@.len() ==> valid(#[trigger] values@[i] as int),
//@ loop 0 start
        proof { assert(*value == values@[vx_it.index@]); }
//@ endfn
//@ endimpl
impl TryFromSpecImpl<i16> for SeqOrUid {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: i16) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<i16> for SeqOrUid {
//@ fn try_from -> r
//@ path u32::try_from=>vx_u32
//@ path NonZeroU32::try_from=>vx_nz
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(a) ==> same_number(a, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<i16> for Sequence {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: i16) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<i16> for Sequence {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> number_is(q, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<i16> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: i16) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<i16> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> q.0.0@.len() == 1 && number_is(q.0.0@[0], value as int),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a [i16]> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [i16]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&[i16]> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> values@.len() > 0 && forall|i: int| 0 <= i < values@.len() ==> valid(#[trigger] values@[i] as int),
        r matches Ok(q) ==> q.0.0@.len() == values@.len() && forall|i: int| 0 <= i < values@.len() ==> number_is(#[trigger] q.0.0@[i], values@[i] as int),
//@ loop 0 inv vx_it iter
    invariant
        vx_it.seq().len() == values@.len(),
        forall|i: int| 0 <= i < values@.len() ==> *(#[trigger] vx_it.seq()[i]) == values@[i],
        checked@.len() == vx_it.index@,
        forall|i: int| 0 <= i < checked@.len() ==> number_is(#[trigger] checked@[i], values@[i] as int),
        forall|i: int| 0 <= i < checked@.len() ==> valid(#[trigger] values@[i] as int),
//@ loop 0 start
        proof { assert(*value == values@[vx_it.index@]); }
//@ endfn
//@ endimpl
impl TryFromSpecImpl<i32> for SeqOrUid {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: i32) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<i32> for SeqOrUid {
//@ fn try_from -> r
//@ path u32::try_from=>vx_u32
//@ path NonZeroU32::try_from=>vx_nz
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(a) ==> same_number(a, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<i32> for Sequence {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: i32) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<i32> for Sequence {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> number_is(q, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<i32> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: i32) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<i32> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> q.0.0@.len() == 1 && number_is(q.0.0@[0], value as int),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a [i32]> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [i32]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&[i32]> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> values@.len() > 0 && forall|i: int| 0 <= i < values@.len() ==> valid(#[trigger] values@[i] as int),
        r matches Ok(q) ==> q.0.0@.len() == values@.len() && forall|i: int| 0 <= i < values@.len() ==> number_is(#[trigger] q.0.0@[i], values@[i] as int),
//@ loop 0 inv vx_it iter
    invariant
        vx_it.seq().len() == values@.len(),
        forall|i: int| 0 <= i < values@.len() ==> *(#[trigger] vx_it.seq()[i]) == values@[i],
        checked@.len() == vx_it.index@,
        forall|i: int| 0 <= i < checked@.len() ==> number_is(#[trigger] checked@[i], values@[i] as int),
        forall|i: int| 0 <= i < checked@.len() ==> valid(#[trigger] values@[i] as int),
//@ loop 0 start
        proof { assert(*value == values@[vx_it.index@]); }
//@ endfn
//@ endimpl
impl TryFromSpecImpl<i64> for SeqOrUid {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: i64) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<i64> for SeqOrUid {
//@ fn try_from -> r
//@ path u32::try_from=>vx_u32
//@ path NonZeroU32::try_from=>vx_nz
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(a) ==> same_number(a, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<i64> for Sequence {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: i64) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<i64> for Sequence {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> number_is(q, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<i64> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: i64) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<i64> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> q.0.0@.len() == 1 && number_is(q.0.0@[0], value as int),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a [i64]> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [i64]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&[i64]> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> values@.len() > 0 && forall|i: int| 0 <= i < values@.len() ==> valid(#[trigger] values@[i] as int),
        r matches Ok(q) ==> q.0.0@.len() == values@.len() && forall|i: int| 0 <= i < values@.len() ==> number_is(#[trigger] q.0.0@[i], values@[i] as int),
//@ loop 0 inv vx_it iter
    invariant
        vx_it.seq().len() == values@.len(),
        forall|i: int| 0 <= i < values@.len() ==> *(#[trigger] vx_it.seq()[i]) == values@[i],
        checked@.len() == vx_it.index@,
        forall|i: int| 0 <= i < checked@.len() ==> number_is(#[trigger] checked@[i], values@[i] as int),
        forall|i: int| 0 <= i < checked@.len() ==> valid(#[trigger] values@[i] as int),
//@ loop 0 start
        proof { assert(*value == values@[vx_it.index@]); }
//@ endfn
//@ endimpl
impl TryFromSpecImpl<isize> for SeqOrUid {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: isize) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<isize> for SeqOrUid {
//@ fn try_from -> r
//@ path u32::try_from=>vx_u32
//@ path NonZeroU32::try_from=>vx_nz
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(a) ==> same_number(a, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<isize> for Sequence {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: isize) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<isize> for Sequence {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> number_is(q, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<isize> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: isize) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<isize> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> q.0.0@.len() == 1 && number_is(q.0.0@[0], value as int),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a [isize]> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [isize]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&[isize]> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> values@.len() > 0 && forall|i: int| 0 <= i < values@.len() ==> valid(#[trigger] values@[i] as int),
        r matches Ok(q) ==> q.0.0@.len() == values@.len() && forall|i: int| 0 <= i < values@.len() ==> number_is(#[trigger] q.0.0@[i], values@[i] as int),
//@ loop 0 inv vx_it iter
    invariant
        vx_it.seq().len() == values@.len(),
        forall|i: int| 0 <= i < values@.len() ==> *(#[trigger] vx_it.seq()[i]) == values@[i],
        checked@.len() == vx_it.index@,
        forall|i: int| 0 <= i < checked@.len() ==> number_is(#[trigger] checked@[i], values@[i] as int),
        forall|i: int| 0 <= i < checked@.len() ==> valid(#[trigger] values@[i] as int),
//@ loop 0 start
        proof { assert(*value == values@[vx_it.index@]); }
//@ endfn
//@ endimpl
impl TryFromSpecImpl<u8> for SeqOrUid {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: u8) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<u8> for SeqOrUid {
//@ fn try_from -> r
//@ path u32::try_from=>vx_u32
//@ path NonZeroU32::try_from=>vx_nz
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(a) ==> same_number(a, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<u8> for Sequence {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: u8) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<u8> for Sequence {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> number_is(q, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<u8> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: u8) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<u8> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> q.0.0@.len() == 1 && number_is(q.0.0@[0], value as int),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a [u8]> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u8]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&[u8]> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> values@.len() > 0 && forall|i: int| 0 <= i < values@.len() ==> valid(#[trigger] values@[i] as int),
        r matches Ok(q) ==> q.0.0@.len() == values@.len() && forall|i: int| 0 <= i < values@.len() ==> number_is(#[trigger] q.0.0@[i], values@[i] as int),
//@ loop 0 inv vx_it iter
    invariant
        vx_it.seq().len() == values@.len(),
        forall|i: int| 0 <= i < values@.len() ==> *(#[trigger] vx_it.seq()[i]) == values@[i],
        checked@.len() == vx_it.index@,
        forall|i: int| 0 <= i < checked@.len() ==> number_is(#[trigger] checked@[i], values@[i] as int),
        forall|i: int| 0 <= i < checked@.len() ==> valid(#[trigger] values@[i] as int),
//@ loop 0 start
        proof { assert(*value == values@[vx_it.index@]); }
//@ endfn
//@ endimpl
impl TryFromSpecImpl<u16> for SeqOrUid {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: u16) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<u16> for SeqOrUid {
//@ fn try_from -> r
//@ path u32::try_from=>vx_u32
//@ path NonZeroU32::try_from=>vx_nz
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(a) ==> same_number(a, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<u16> for Sequence {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: u16) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<u16> for Sequence {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> number_is(q, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<u16> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: u16) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<u16> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> q.0.0@.len() == 1 && number_is(q.0.0@[0], value as int),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a [u16]> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u16]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&[u16]> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> values@.len() > 0 && forall|i: int| 0 <= i < values@.len() ==> valid(#[trigger] values@[i] as int),
        r matches Ok(q) ==> q.0.0@.len() == values@.len() && forall|i: int| 0 <= i < values@.len() ==> number_is(#[trigger] q.0.0@[i], values@[i] as int),
//@ loop 0 inv vx_it iter
    invariant
        vx_it.seq().len() == values@.len(),
        forall|i: int| 0 <= i < values@.len() ==> *(#[trigger] vx_it.seq()[i]) == values@[i],
        checked@.len() == vx_it.index@,
        forall|i: int| 0 <= i < checked@.len() ==> number_is(#[trigger] checked@[i], values@[i] as int),
        forall|i: int| 0 <= i < checked@.len() ==> valid(#[trigger] values@[i] as int),
//@ loop 0 start
        proof { assert(*value == values@[vx_it.index@]); }
//@ endfn
//@ endimpl
impl TryFromSpecImpl<u32> for SeqOrUid {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: u32) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<u32> for SeqOrUid {
//@ fn try_from -> r
//@ path u32::try_from=>vx_u32
//@ path NonZeroU32::try_from=>vx_nz
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(a) ==> same_number(a, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<u32> for Sequence {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: u32) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<u32> for Sequence {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> number_is(q, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<u32> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: u32) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<u32> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> q.0.0@.len() == 1 && number_is(q.0.0@[0], value as int),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a [u32]> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u32]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&[u32]> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> values@.len() > 0 && forall|i: int| 0 <= i < values@.len() ==> valid(#[trigger] values@[i] as int),
        r matches Ok(q) ==> q.0.0@.len() == values@.len() && forall|i: int| 0 <= i < values@.len() ==> number_is(#[trigger] q.0.0@[i], values@[i] as int),
//@ loop 0 inv vx_it iter
    invariant
        vx_it.seq().len() == values@.len(),
        forall|i: int| 0 <= i < values@.len() ==> *(#[trigger] vx_it.seq()[i]) == values@[i],
        checked@.len() == vx_it.index@,
        forall|i: int| 0 <= i < checked@.len() ==> number_is(#[trigger] checked@[i], values@[i] as int),
        forall|i: int| 0 <= i < checked@.len() ==> valid(#[trigger] values@[i] as int),
//@ loop 0 start
        proof { assert(*value == values@[vx_it.index@]); }
//@ endfn
//@ endimpl
impl TryFromSpecImpl<u64> for SeqOrUid {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: u64) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<u64> for SeqOrUid {
//@ fn try_from -> r
//@ path u32::try_from=>vx_u32
//@ path NonZeroU32::try_from=>vx_nz
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(a) ==> same_number(a, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<u64> for Sequence {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: u64) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<u64> for Sequence {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> number_is(q, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<u64> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: u64) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<u64> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> q.0.0@.len() == 1 && number_is(q.0.0@[0], value as int),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a [u64]> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u64]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&[u64]> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> values@.len() > 0 && forall|i: int| 0 <= i < values@.len() ==> valid(#[trigger] values@[i] as int),
        r matches Ok(q) ==> q.0.0@.len() == values@.len() && forall|i: int| 0 <= i < values@.len() ==> number_is(#[trigger] q.0.0@[i], values@[i] as int),
//@ loop 0 inv vx_it iter
    invariant
        vx_it.seq().len() == values@.len(),
        forall|i: int| 0 <= i < values@.len() ==> *(#[trigger] vx_it.seq()[i]) == values@[i],
        checked@.len() == vx_it.index@,
        forall|i: int| 0 <= i < checked@.len() ==> number_is(#[trigger] checked@[i], values@[i] as int),
        forall|i: int| 0 <= i < checked@.len() ==> valid(#[trigger] values@[i] as int),
//@ loop 0 start
        proof { assert(*value == values@[vx_it.index@]); }
//@ endfn
//@ endimpl
impl TryFromSpecImpl<usize> for SeqOrUid {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: usize) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<usize> for SeqOrUid {
//@ fn try_from -> r
//@ path u32::try_from=>vx_u32
//@ path NonZeroU32::try_from=>vx_nz
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(a) ==> same_number(a, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<usize> for Sequence {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: usize) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<usize> for Sequence {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> number_is(q, value as int),
//@ endfn
//@ endimpl
impl TryFromSpecImpl<usize> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: usize) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<usize> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> valid(value as int),
        r matches Ok(q) ==> q.0.0@.len() == 1 && number_is(q.0.0@[0], value as int),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a [usize]> for SequenceSet {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [usize]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&[usize]> for SequenceSet {
//@ fn try_from -> r
    ensures
        r is Ok <==> values@.len() > 0 && forall|i: int| 0 <= i < values@.len() ==> valid(#[trigger] values@[i] as int),
        r matches Ok(q) ==> q.0.0@.len() == values@.len() && forall|i: int| 0 <= i < values@.len() ==> number_is(#[trigger] q.0.0@[i], values@[i] as int),
//@ loop 0 inv vx_it iter
    invariant
        vx_it.seq().len() == values@.len(),
        forall|i: int| 0 <= i < values@.len() ==> *(#[trigger] vx_it.seq()[i]) == values@[i],
        checked@.len() == vx_it.index@,
        forall|i: int| 0 <= i < checked@.len() ==> number_is(#[trigger] checked@[i], values@[i] as int),
        forall|i: int| 0 <= i < checked@.len() ==> valid(#[trigger] values@[i] as int),
//@ loop 0 start
        proof { assert(*value == values@[vx_it.index@]); }
//@ endfn
//@ endimpl
} // verus!
fn main() {}
