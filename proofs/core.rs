//@ cfg ext_utf8 debug public
// Written by mk_core.py.
#![allow(unused, non_snake_case, unused_parens, unused_braces)]
use std::{borrow::Cow, str::from_utf8};
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use vstd::std_specs::convert::{TryFromSpecImpl, FromSpecImpl};
verus! {

//@ file imap-types/src/error.rs
//@ struct ValidationError #[derive(Debug)]
//@ enum ValidationErrorKind #[derive(Debug)]
//@ impl ValidationError {
//@ fn new -> r
//@ endfn
//@ endimpl

//@ include grammar.inc
// ===== byte classes ================================================================================

//@ file imap-types/src/utils.rs
//@ fn is_char -> r
    ensures
        r == gr_char(byte),
//@ endfn
//@ fn is_ctl -> r
    ensures
        r == ctl(byte),
//@ endfn
//@ fn is_quoted_specials -> r
    ensures
        r == quoted_specials(byte),
//@ endfn
//@ fn is_list_wildcards -> r
    ensures
        r == list_wildcards(i),
//@ endfn
//@ fn is_resp_specials -> r
    ensures
        r == resp_specials(i),
//@ endfn
//@ fn is_atom_specials -> r
    ensures
        r == atom_specials(i),
//@ endfn
//@ fn is_atom_char -> r
    ensures
        r == atom_char(b),
//@ endfn
//@ fn is_astring_char -> r
    ensures
        r == astring_char(i),
//@ endfn
//@ fn is_list_char -> r
    ensures
        r == list_char(i),
//@ endfn
//@ fn is_text_char -> r
    ensures
        r == text_char(c),
//@ endfn
//@ fn is_char8 -> r
    ensures
        r == char8(i),
//@ endfn
//@ fn is_any_text_char_except_quoted_specials -> r
    ensures
        r == (text_char(byte) && !quoted_specials(byte)),
//@ endfn

// ===== std =========================================================================================

/// `AsRef`: a view of the same bytes.
pub trait Viewed {
    spec fn as_view(&self) -> Seq<u8>;
}
impl Viewed for [u8] { open spec fn as_view(&self) -> Seq<u8> { self@ } }
impl Viewed for str { open spec fn as_view(&self) -> Seq<u8> { encode_utf8(self@) } }
pub trait AsRef<T: Viewed + ?Sized> {
    spec fn bytes(&self) -> Seq<u8>;
    fn as_ref(&self) -> (r: &T) ensures r.as_view() == self.bytes();
}
impl AsRef<[u8]> for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } fn as_ref(&self) -> &[u8] { self } }
impl AsRef<[u8]> for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } fn as_ref(&self) -> &[u8] { self.as_slice() } }
impl AsRef<[u8]> for str { open spec fn bytes(&self) -> Seq<u8> { encode_utf8(self@) } fn as_ref(&self) -> &[u8] { self.as_bytes() } }
impl AsRef<[u8]> for String { open spec fn bytes(&self) -> Seq<u8> { encode_utf8(self@) } fn as_ref(&self) -> &[u8] { self.as_str().as_bytes() } }
impl<X: AsRef<[u8]> + ?Sized> AsRef<[u8]> for &X { open spec fn bytes(&self) -> Seq<u8> { (*self).bytes() } fn as_ref(&self) -> &[u8] { (*self).as_ref() } }

/// `iter().position(f)`: the first index whose element satisfies `f`.
fn vx_iter<'a>(v: &'a [u8]) -> (r: &'a [u8])
    ensures
        r@ == v@,
{
    v
}
fn vx_position<F: Fn(&u8) -> bool>(v: &[u8], f: F) -> (r: Option<usize>)
    requires
        forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],)),
    ensures
        r matches Some(i) ==> i < v@.len() && f.ensures((&v@[i as int],), true),
        r is None ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false),
{
    let mut i = 0;
    while i < v.len()
        invariant
            i <= v@.len(),
            forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],)),
            forall|k: int| 0 <= k < i ==> f.ensures((&#[trigger] v@[k],), false),
        decreases v@.len() - i,
    {
        if f(&v[i]) {
            return Some(i);
        }
        i = i + 1;
    }
    None
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);

pub assume_specification [std::str::from_utf8] (v: &[u8]) -> (r: Result<&str, std::str::Utf8Error>)
    ensures
        r is Ok <==> valid_utf8(v@),
        r matches Ok(s) ==> encode_utf8(s@) == v@,
;
pub assume_specification [std::string::String::from_utf8] (v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures
        r is Ok <==> valid_utf8(v@),
        r matches Ok(s) ==> encode_utf8(s@) == v@,
;
/// `String::into_bytes`.
#[verifier::external_body]
fn vx_into_bytes(s: String) -> (r: Vec<u8>)
    ensures
        r@ == encode_utf8(s@),
{
    s.into_bytes()
}
#[verifier::external_body]
fn vx_clone_vec(v: &Vec<u8>) -> (r: Vec<u8>)
    ensures
        r@ == v@,
{
    v.clone()
}

proof fn lemma_ascii(s: Seq<u8>)
    requires
        forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 0x80,
    ensures
        valid_utf8(s),
    decreases s.len(),
{
    if s.len() > 0 { lemma_ascii(s.skip(1)); }
}
proof fn lemma_every_ascii(s: Seq<u8>)
    requires
        quoted(s) || atom_ext(s) || atom(s) || tag(s) || list_chars(s),
    ensures
        valid_utf8(s),
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 0x80 by {
        assert(text_char(s[i]) || astring_char(s[i]) || atom_char(s[i]) || tag_char(s[i]) || list_char(s[i]));
    }
    lemma_ascii(s);
}

// ===== text types ==================================================================================

//@ file imap-types/src/core.rs
//@ struct Atom
//@ impl Atom<'a> {
//@ fn validate -> r
//@ wrap iter=vx_iter:own position=vx_position:own
//@ closure 0 |b: &u8| -> (x: bool) ensures x == !atom_char(*b)
    ensures
        r is Ok <==> atom(value.bytes()),
//@ endfn
//@ fn into_inner -> r
    ensures
        r == self.0,
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a [u8]> for Atom<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u8]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a [u8]> for Atom<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atom(value@),
        r matches Ok(a) ==> encode_utf8(a.0@) == value@,
//@ start
    proof { if atom(value@) { lemma_every_ascii(value@); } }
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<Vec<u8>> for Atom<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<u8>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Vec<u8>> for Atom<'_> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atom(value@),
        r matches Ok(a) ==> encode_utf8(a.0@) == value@,
//@ start
    proof { if atom(value@) { lemma_every_ascii(value@); } }
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a str> for Atom<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for Atom<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atom(encode_utf8(value@)),
        r matches Ok(a) ==> a.0@ == value@,
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<String> for Atom<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: String) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<String> for Atom<'_> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atom(encode_utf8(value@)),
        r matches Ok(a) ==> a.0@ == value@,
//@ endfn
//@ endimpl

//@ file imap-types/src/core.rs
//@ struct AtomExt
//@ impl AtomExt<'a> {
//@ fn validate -> r
//@ wrap iter=vx_iter:own position=vx_position:own
//@ closure 0 |b: &u8| -> (x: bool) ensures x == !astring_char(*b)
    ensures
        r is Ok <==> atom_ext(value.bytes()),
//@ endfn
//@ fn into_inner -> r
    ensures
        r == self.0,
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a [u8]> for AtomExt<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u8]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a [u8]> for AtomExt<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atom_ext(value@),
        r matches Ok(a) ==> encode_utf8(a.0@) == value@,
//@ start
    proof { if atom_ext(value@) { lemma_every_ascii(value@); } }
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<Vec<u8>> for AtomExt<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<u8>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Vec<u8>> for AtomExt<'_> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atom_ext(value@),
        r matches Ok(a) ==> encode_utf8(a.0@) == value@,
//@ start
    proof { if atom_ext(value@) { lemma_every_ascii(value@); } }
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a str> for AtomExt<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for AtomExt<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atom_ext(encode_utf8(value@)),
        r matches Ok(a) ==> a.0@ == value@,
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<String> for AtomExt<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: String) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<String> for AtomExt<'_> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atom_ext(encode_utf8(value@)),
        r matches Ok(a) ==> a.0@ == value@,
//@ endfn
//@ endimpl

//@ file imap-types/src/core.rs
//@ struct Tag
//@ impl Tag<'a> {
//@ fn validate -> r
//@ wrap iter=vx_iter:own position=vx_position:own
//@ closure 0 |b: &u8| -> (x: bool) ensures x == !tag_char(*b)
    ensures
        r is Ok <==> tag(value.bytes()),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a [u8]> for Tag<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u8]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a [u8]> for Tag<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> tag(value@),
        r matches Ok(a) ==> encode_utf8(a.0@) == value@,
//@ start
    proof { if tag(value@) { lemma_every_ascii(value@); } }
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<Vec<u8>> for Tag<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<u8>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Vec<u8>> for Tag<'_> {
//@ fn try_from -> r
    ensures
        r is Ok <==> tag(value@),
        r matches Ok(a) ==> encode_utf8(a.0@) == value@,
//@ start
    proof { if tag(value@) { lemma_every_ascii(value@); } }
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a str> for Tag<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for Tag<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> tag(encode_utf8(value@)),
        r matches Ok(a) ==> a.0@ == value@,
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<String> for Tag<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: String) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<String> for Tag<'_> {
//@ fn try_from -> r
    ensures
        r is Ok <==> tag(encode_utf8(value@)),
        r matches Ok(a) ==> a.0@ == value@,
//@ endfn
//@ endimpl

//@ file imap-types/src/core.rs
//@ struct Text
//@ impl Text<'a> {
//@ fn validate -> r
//@ wrap iter=vx_iter:own position=vx_position:own
//@ closure 0 |b: &u8| -> (x: bool) ensures x == !text_char(*b)
    ensures
        r is Ok <==> text(value.bytes()),
//@ endfn
//@ fn into_inner -> r
    ensures
        r == self.0,
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a [u8]> for Text<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u8]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a [u8]> for Text<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> text(value@),
        r matches Ok(a) ==> encode_utf8(a.0@) == value@,
//@ start
    proof { if text(value@) { lemma_every_ascii(value@); } }
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<Vec<u8>> for Text<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<u8>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Vec<u8>> for Text<'_> {
//@ fn try_from -> r
    ensures
        r is Ok <==> text(value@),
        r matches Ok(a) ==> encode_utf8(a.0@) == value@,
//@ start
    proof { if text(value@) { lemma_every_ascii(value@); } }
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a str> for Text<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for Text<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> text(encode_utf8(value@)),
        r matches Ok(a) ==> a.0@ == value@,
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<String> for Text<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: String) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<String> for Text<'_> {
//@ fn try_from -> r
    ensures
        r is Ok <==> text(encode_utf8(value@)),
        r matches Ok(a) ==> a.0@ == value@,
//@ endfn
//@ endimpl

//@ file imap-types/src/core.rs
//@ struct Quoted
//@ impl Quoted<'a> {
//@ fn validate -> r
//@ wrap iter=vx_iter:own position=vx_position:own
//@ closure 0 |b: &u8| -> (x: bool) ensures x == !text_char(*b)
    ensures
        r is Ok <==> quoted(value.bytes()),
//@ endfn
//@ fn into_inner -> r
    ensures
        r == self.0,
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a [u8]> for Quoted<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u8]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a [u8]> for Quoted<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> quoted(value@),
        r matches Ok(a) ==> encode_utf8(a.0@) == value@,
//@ start
    proof { if quoted(value@) { lemma_every_ascii(value@); } }
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<Vec<u8>> for Quoted<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<u8>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Vec<u8>> for Quoted<'_> {
//@ fn try_from -> r
    ensures
        r is Ok <==> quoted(value@),
        r matches Ok(a) ==> encode_utf8(a.0@) == value@,
//@ start
    proof { if quoted(value@) { lemma_every_ascii(value@); } }
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a str> for Quoted<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for Quoted<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> quoted(encode_utf8(value@)),
        r matches Ok(a) ==> a.0@ == value@,
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<String> for Quoted<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: String) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<String> for Quoted<'_> {
//@ fn try_from -> r
    ensures
        r is Ok <==> quoted(encode_utf8(value@)),
        r matches Ok(a) ==> a.0@ == value@,
//@ endfn
//@ endimpl

//@ enum LiteralMode #[derive(Clone, Copy)]
//@ struct Literal
//@ impl Literal<'a> {
//@ fn validate -> r
//@ wrap iter=vx_iter:own position=vx_position:own
//@ closure 0 |b: &u8| -> (x: bool) ensures x == !char8(*b)
    ensures
        r is Ok <==> literal(value.bytes()),
//@ endfn
//@ fn mode -> r
    ensures
        r == self.mode,
//@ endfn
//@ fn set_mode
    ensures
        final(self).mode == mode,
        final(self).data == old(self).data,
//@ endfn
//@ fn into_sync -> r
//@ sig fn into_sync(self) -> (r: Self)
//@ path self=>vx_self
    ensures
        r.mode is Sync,
        r.data == self.data,
//@ start
    let mut vx_self = self;
//@ endfn
//@ fn into_non_sync -> r
//@ sig fn into_non_sync(self) -> (r: Self)
//@ path self=>vx_self
    ensures
        r.mode is NonSync,
        r.data == self.data,
//@ start
    let mut vx_self = self;
//@ endfn
//@ fn into_inner -> r
    ensures
        r == self.data,
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a [u8]> for Literal<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u8]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a [u8]> for Literal<'a> {
//@ fn try_from -> r
//@ wrap into_bytes=vx_into_bytes:own
    ensures
        r is Ok <==> literal(value@),
        r matches Ok(l) ==> l.data@ == value@ && l.mode is Sync,
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<Vec<u8>> for Literal<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<u8>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Vec<u8>> for Literal<'_> {
//@ fn try_from -> r
//@ wrap into_bytes=vx_into_bytes:own
    ensures
        r is Ok <==> literal(value@),
        r matches Ok(l) ==> l.data@ == value@ && l.mode is Sync,
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a str> for Literal<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for Literal<'a> {
//@ fn try_from -> r
//@ wrap into_bytes=vx_into_bytes:own
    ensures
        r is Ok <==> literal(encode_utf8(value@)),
        r matches Ok(l) ==> l.data@ == encode_utf8(value@) && l.mode is Sync,
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<String> for Literal<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: String) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<String> for Literal<'_> {
//@ fn try_from -> r
//@ wrap into_bytes=vx_into_bytes:own
    ensures
        r is Ok <==> literal(encode_utf8(value@)),
        r matches Ok(l) ==> l.data@ == encode_utf8(value@) && l.mode is Sync,
//@ endfn
//@ endimpl

// ===== strings in one of several representations ===================================================

//@ file imap-types/src/extensions/utf8.rs
//@ struct QuotedUtf8
//@ file imap-types/src/core.rs
//@ enum IString
//@ enum AString
//@ enum Charset

/// The bytes that are denoted.
pub open spec fn of_istring(s: IString) -> Seq<u8> {
    match s { IString::Literal(l) => l.data@, IString::Quoted(q) => encode_utf8(q.0@), IString::QuotedUtf8(q) => encode_utf8(q.0@) }
}
pub open spec fn of_astring(s: AString) -> Seq<u8> {
    match s { AString::Atom(a) => encode_utf8(a.0@), AString::String(s) => of_istring(s) }
}
pub open spec fn of_charset(s: Charset) -> Seq<u8> {
    match s { Charset::Atom(a) => encode_utf8(a.0@), Charset::Quoted(q) => encode_utf8(q.0@) }
}
/// The simplest representation that can carry `b`.
pub open spec fn best_istring(r: Result<IString, ValidationError>, b: Seq<u8>) -> bool {
    &&& r is Ok <==> literal(b) || quoted(b)
    &&& r matches Ok(s) ==> of_istring(s) == b && (quoted(b) ==> s is Quoted) && (!quoted(b) ==> s is Literal && s->Literal_0.mode is Sync)
}
pub open spec fn best_astring(r: Result<AString, ValidationError>, b: Seq<u8>) -> bool {
    &&& r is Ok <==> atom_ext(b) || literal(b) || quoted(b)
    &&& r matches Ok(s) ==> of_astring(s) == b && (atom_ext(b) <==> s is Atom)
    &&& r matches Ok(AString::String(s)) ==> best_istring(Ok(s), b)
}
pub open spec fn best_charset(r: Result<Charset, ValidationError>, b: Seq<u8>) -> bool {
    &&& r is Ok <==> atom(b) || quoted(b)
    &&& r matches Ok(s) ==> of_charset(s) == b && (atom(b) <==> s is Atom)
}

impl<'a> TryFromSpecImpl<&'a [u8]> for IString<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u8]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a [u8]> for IString<'a> {
//@ fn try_from -> r
    ensures
        best_istring(r, value@),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<Vec<u8>> for IString<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<u8>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Vec<u8>> for IString<'_> {
//@ fn try_from -> r
//@ wrap clone=vx_clone_vec:ref
    ensures
        best_istring(r, value@),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a str> for IString<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for IString<'a> {
//@ fn try_from -> r
    ensures
        best_istring(r, encode_utf8(value@)),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<String> for IString<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: String) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<String> for IString<'_> {
//@ fn try_from -> r
    ensures
        best_istring(r, encode_utf8(value@)),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a [u8]> for AString<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u8]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a [u8]> for AString<'a> {
//@ fn try_from -> r
    ensures
        best_astring(r, value@),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<Vec<u8>> for AString<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<u8>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Vec<u8>> for AString<'_> {
//@ fn try_from -> r
//@ wrap clone=vx_clone_vec:ref
    ensures
        best_astring(r, value@),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a str> for AString<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for AString<'a> {
//@ fn try_from -> r
    ensures
        best_astring(r, encode_utf8(value@)),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<String> for AString<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: String) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<String> for AString<'_> {
//@ fn try_from -> r
    ensures
        best_astring(r, encode_utf8(value@)),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a [u8]> for Charset<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u8]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a [u8]> for Charset<'a> {
//@ fn try_from -> r
    ensures
        best_charset(r, value@),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<Vec<u8>> for Charset<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<u8>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Vec<u8>> for Charset<'_> {
//@ fn try_from -> r
//@ wrap clone=vx_clone_vec:ref
    ensures
        best_charset(r, value@),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a str> for Charset<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for Charset<'a> {
//@ fn try_from -> r
    ensures
        best_charset(r, encode_utf8(value@)),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<String> for Charset<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: String) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<String> for Charset<'_> {
//@ fn try_from -> r
    ensures
        best_charset(r, encode_utf8(value@)),
//@ endfn
//@ endimpl

//@ impl IString<'a> {
//@ fn into_inner -> r
//@ wrap into_bytes=vx_into_bytes:own
    ensures
        r@ == of_istring(self),
//@ endfn
//@ endimpl


// ===== views =======================================================================================

/// `Cow::<str>::as_ref`, `&*cow`.
#[verifier::external_body]
fn vx_cow_str<'x, 'a>(c: &'x Cow<'a, str>) -> (r: &'x str)
    ensures
        r@ == c@,
{
    c
}
#[verifier::external_body]
fn vx_cow_bytes<'x, 'a>(c: &'x Cow<'a, [u8]>) -> (r: &'x [u8])
    ensures
        r@ == c@,
{
    c
}

//@ file imap-types/src/core.rs
//@ impl AsRef<str> for Atom<'_> {
    open spec fn bytes(&self) -> Seq<u8> { encode_utf8(self.0@) }
//@ fn as_ref
//@ wrap as_ref=vx_cow_str:ref
//@ endfn
//@ endimpl
//@ file imap-types/src/core.rs
//@ impl AsRef<str> for AtomExt<'_> {
    open spec fn bytes(&self) -> Seq<u8> { encode_utf8(self.0@) }
//@ fn as_ref
//@ refwrap self.0=>vx_cow_str
//@ endfn
//@ endimpl
//@ file imap-types/src/core.rs
//@ impl AsRef<str> for Tag<'_> {
    open spec fn bytes(&self) -> Seq<u8> { encode_utf8(self.0@) }
//@ fn as_ref
//@ wrap as_ref=vx_cow_str:ref
//@ endfn
//@ endimpl
//@ file imap-types/src/core.rs
//@ impl AsRef<str> for Text<'_> {
    open spec fn bytes(&self) -> Seq<u8> { encode_utf8(self.0@) }
//@ fn as_ref
//@ wrap as_ref=vx_cow_str:ref
//@ endfn
//@ endimpl
//@ file imap-types/src/core.rs
//@ impl AsRef<str> for Quoted<'_> {
    open spec fn bytes(&self) -> Seq<u8> { encode_utf8(self.0@) }
//@ fn as_ref
//@ refwrap self.0=>vx_cow_str
//@ endfn
//@ endimpl
//@ impl AsRef<[u8]> for Literal<'_> {
    open spec fn bytes(&self) -> Seq<u8> { self.data@ }
//@ fn as_ref
//@ refwrap self.data=>vx_cow_bytes
//@ endfn
//@ endimpl
#[verifier::external_body]
fn vx_cow_as_bytes<'x, 'a>(c: &'x Cow<'a, str>) -> (r: &'x [u8])
    ensures
        r@ == encode_utf8(c@),
{
    c.as_bytes()
}
//@ impl AsRef<[u8]> for IString<'_> {
    open spec fn bytes(&self) -> Seq<u8> { of_istring(*self) }
//@ fn as_ref
//@ wrap as_bytes=vx_as_bytes:method
//@ endfn
//@ endimpl
//@ impl AsRef<[u8]> for AString<'_> {
    open spec fn bytes(&self) -> Seq<u8> { of_astring(*self) }
//@ fn as_ref
//@ endfn
//@ endimpl
//@ impl AsRef<str> for Charset<'_> {
    open spec fn bytes(&self) -> Seq<u8> { of_charset(*self) }
//@ fn as_ref
//@ endfn
//@ endimpl
/// `str::as_bytes`, also through a `Cow`.
pub trait VxAsBytes { spec fn vx_bytes(&self) -> Seq<u8>; fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == self.vx_bytes(); }
impl VxAsBytes for str { open spec fn vx_bytes(&self) -> Seq<u8> { encode_utf8(self@) } fn vx_as_bytes(&self) -> &[u8] { self.as_bytes() } }
impl<'a> VxAsBytes for Cow<'a, str> { open spec fn vx_bytes(&self) -> Seq<u8> { encode_utf8(self@) } fn vx_as_bytes(&self) -> &[u8] { vx_cow_as_bytes(self) } }

// ===== optional strings ============================================================================

//@ struct NString
impl<'a> TryFromSpecImpl<&'a [u8]> for NString<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u8]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a [u8]> for NString<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> literal(value@) || quoted(value@),
        r matches Ok(n) ==> n.0 is Some && best_istring(Ok(n.0->0), value@),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<Vec<u8>> for NString<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<u8>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Vec<u8>> for NString<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> literal(value@) || quoted(value@),
        r matches Ok(n) ==> n.0 is Some && best_istring(Ok(n.0->0), value@),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a str> for NString<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for NString<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> literal(encode_utf8(value@)) || quoted(encode_utf8(value@)),
        r matches Ok(n) ==> n.0 is Some && best_istring(Ok(n.0->0), encode_utf8(value@)),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<String> for NString<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: String) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<String> for NString<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> literal(encode_utf8(value@)) || quoted(encode_utf8(value@)),
        r matches Ok(n) ==> n.0 is Some && best_istring(Ok(n.0->0), encode_utf8(value@)),
//@ endfn
//@ endimpl

// ===== mailboxes ===================================================================================

//@ file imap-types/src/mailbox.rs imap-types/src/core.rs
//@ struct ListCharString
//@ impl ListCharString<'a> {
//@ fn validate -> r
//@ wrap iter=vx_iter:own position=vx_position:own
//@ closure 0 |b: &u8| -> (x: bool) ensures x == !list_char(*b)
    ensures
        r is Ok <==> list_chars(value.bytes()),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a str> for ListCharString<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for ListCharString<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> list_chars(encode_utf8(value@)),
        r matches Ok(a) ==> a.0@ == value@,
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<String> for ListCharString<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: String) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<String> for ListCharString<'_> {
//@ fn try_from -> r
    ensures
        r is Ok <==> list_chars(encode_utf8(value@)),
        r matches Ok(a) ==> a.0@ == value@,
//@ endfn
//@ endimpl

//@ impl AsRef<[u8]> for ListCharString<'_> {
    open spec fn bytes(&self) -> Seq<u8> { encode_utf8(self.0@) }
//@ fn as_ref
//@ wrap as_bytes=vx_cow_as_bytes:ref
//@ endfn
//@ endimpl
//@ enum ListMailbox
pub open spec fn of_list_mailbox(s: ListMailbox) -> Seq<u8> {
    match s { ListMailbox::Token(t) => encode_utf8(t.0@), ListMailbox::String(s) => of_istring(s) }
}
pub open spec fn best_list_mailbox(r: Result<ListMailbox, ValidationError>, b: Seq<u8>) -> bool {
    &&& r is Ok <==> list_chars(b) || literal(b) || quoted(b)
    &&& r matches Ok(s) ==> of_list_mailbox(s) == b && (list_chars(b) <==> s is Token)
    &&& r matches Ok(ListMailbox::String(s)) ==> best_istring(Ok(s), b)
}
impl<'a> TryFromSpecImpl<&'a str> for ListMailbox<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for ListMailbox<'a> {
//@ fn try_from -> r
    ensures
        best_list_mailbox(r, encode_utf8(s@)),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<String> for ListMailbox<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: String) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<String> for ListMailbox<'_> {
//@ fn try_from -> r
    ensures
        best_list_mailbox(r, encode_utf8(s@)),
//@ endfn
//@ endimpl

//@ enum MailboxOtherError #[derive(Debug)]
//@ enum Mailbox
//@ struct MailboxOther

pub open spec fn lower(b: u8) -> u8 { if 0x41 <= b <= 0x5a { (b + 0x20) as u8 } else { b } }
/// Equal up to the case of ASCII letters.
pub open spec fn same(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lower(#[trigger] a[i]) == lower(b[i]) }
pub open spec fn inbox(b: Seq<u8>) -> bool { same(b, seq![0x69u8, 0x6e, 0x62, 0x6f, 0x78]) }

/// `eq_ignore_ascii_case` of slices and strings.
pub trait VxEqCase { spec fn vx_seq(&self) -> Seq<u8>; fn vx_eq_case(&self, o: &Self) -> (r: bool) ensures r == same(self.vx_seq(), o.vx_seq()); }
impl VxEqCase for str {
    open spec fn vx_seq(&self) -> Seq<u8> { encode_utf8(self@) }
    #[verifier::external_body]
    fn vx_eq_case(&self, o: &Self) -> bool { self.eq_ignore_ascii_case(o) }
}
impl VxEqCase for [u8] {
    open spec fn vx_seq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_eq_case(&self, o: &Self) -> bool { self.eq_ignore_ascii_case(o) }
}
proof fn lemma_inbox()
    ensures
        encode_utf8("inbox"@) == seq![0x69u8, 0x6e, 0x62, 0x6f, 0x78],
{
    reveal_strlit("inbox");
    assert("inbox"@ =~= seq!['i', 'n', 'b', 'o', 'x']);
    is_ascii_chars_encode_utf8("inbox"@);
    assert(encode_utf8("inbox"@) =~= seq![0x69u8, 0x6e, 0x62, 0x6f, 0x78]);
}
proof fn lemma_same(a: Seq<u8>)
    requires
        inbox(a),
    ensures
        valid_utf8(a),
{
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] < 0x80 by {
        assert(lower(a[i]) == lower(seq![0x69u8, 0x6e, 0x62, 0x6f, 0x78][i]));
    }
    lemma_ascii(a);
}
impl FromSpecImpl<ValidationError> for MailboxOtherError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ValidationError) -> MailboxOtherError { MailboxOtherError::Literal(v) }
}
/// `#[from]` of thiserror.
impl From<ValidationError> for MailboxOtherError {
    fn from(v: ValidationError) -> MailboxOtherError { MailboxOtherError::Literal(v) }
}
//@ impl MailboxOther<'a> {
//@ fn validate -> r
//@ wrap eq_ignore_ascii_case=vx_eq_case:method
    ensures
        r is Err <==> inbox(value.bytes()),
//@ endfn
//@ fn inner -> r
    ensures
        *r == self.0,
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a [u8]> for MailboxOther<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u8]) -> Result<Self, MailboxOtherError> { arbitrary() }
}
//@ impl TryFrom<&'a [u8]> for MailboxOther<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> !inbox(value@) && (atom_ext(value@) || literal(value@) || quoted(value@)),
        r matches Ok(m) ==> best_astring(Ok(m.0), value@),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<Vec<u8>> for MailboxOther<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<u8>) -> Result<Self, MailboxOtherError> { arbitrary() }
}
//@ impl TryFrom<Vec<u8>> for MailboxOther<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> !inbox(value@) && (atom_ext(value@) || literal(value@) || quoted(value@)),
        r matches Ok(m) ==> best_astring(Ok(m.0), value@),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a str> for MailboxOther<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, MailboxOtherError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for MailboxOther<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> !inbox(encode_utf8(value@)) && (atom_ext(encode_utf8(value@)) || literal(encode_utf8(value@)) || quoted(encode_utf8(value@))),
        r matches Ok(m) ==> best_astring(Ok(m.0), encode_utf8(value@)),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<String> for MailboxOther<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: String) -> Result<Self, MailboxOtherError> { arbitrary() }
}
//@ impl TryFrom<String> for MailboxOther<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> !inbox(encode_utf8(value@)) && (atom_ext(encode_utf8(value@)) || literal(encode_utf8(value@)) || quoted(encode_utf8(value@))),
        r matches Ok(m) ==> best_astring(Ok(m.0), encode_utf8(value@)),
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<AString<'a>> for MailboxOther<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: AString<'a>) -> Result<Self, MailboxOtherError> { arbitrary() }
}
//@ impl TryFrom<AString<'a>> for MailboxOther<'a> {
//@ fn try_from -> r
    ensures
        r is Err <==> inbox(of_astring(value)),
        r matches Ok(m) ==> m.0 == value,
//@ endfn
//@ endimpl
//@ impl AsRef<[u8]> for MailboxOther<'_> {
    open spec fn bytes(&self) -> Seq<u8> { of_astring(self.0) }
//@ fn as_ref
//@ endfn
//@ endimpl

impl<'a> FromSpecImpl<AString<'a>> for Mailbox<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: AString<'a>) -> Self { arbitrary() }
}
//@ impl From<AString<'a>> for Mailbox<'a> {
//@ fn from -> r
//@ wrap eq_ignore_ascii_case=vx_eq_case:method
    ensures
        inbox(of_astring(value)) ==> r is Inbox,
        !inbox(of_astring(value)) ==> r == Mailbox::Other(MailboxOther(value)),
//@ start
    proof {
        lemma_inbox();
        if inbox(of_astring(value)) { lemma_same(of_astring(value)); }
    }
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a [u8]> for Mailbox<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u8]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a [u8]> for Mailbox<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atom_ext(value@) || literal(value@) || quoted(value@),
        r matches Ok(m) ==> (m is Inbox <==> inbox(value@)) && (m matches Mailbox::Other(o) ==> best_astring(Ok(o.0), value@)),
//@ start
    proof {
        if inbox(value@) { lemma_inbox_atom(value@); }
    }
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<Vec<u8>> for Mailbox<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<u8>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Vec<u8>> for Mailbox<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atom_ext(value@) || literal(value@) || quoted(value@),
        r matches Ok(m) ==> (m is Inbox <==> inbox(value@)) && (m matches Mailbox::Other(o) ==> best_astring(Ok(o.0), value@)),
//@ start
    proof {
        if inbox(value@) { lemma_inbox_atom(value@); }
    }
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<&'a str> for Mailbox<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for Mailbox<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atom_ext(encode_utf8(value@)) || literal(encode_utf8(value@)) || quoted(encode_utf8(value@)),
        r matches Ok(m) ==> (m is Inbox <==> inbox(encode_utf8(value@))) && (m matches Mailbox::Other(o) ==> best_astring(Ok(o.0), encode_utf8(value@))),
//@ start
    proof {
        if inbox(encode_utf8(value@)) { lemma_inbox_atom(encode_utf8(value@)); }
    }
//@ endfn
//@ endimpl

impl<'a> TryFromSpecImpl<String> for Mailbox<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: String) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<String> for Mailbox<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atom_ext(encode_utf8(value@)) || literal(encode_utf8(value@)) || quoted(encode_utf8(value@)),
        r matches Ok(m) ==> (m is Inbox <==> inbox(encode_utf8(value@))) && (m matches Mailbox::Other(o) ==> best_astring(Ok(o.0), encode_utf8(value@))),
//@ start
    proof {
        if inbox(encode_utf8(value@)) { lemma_inbox_atom(encode_utf8(value@)); }
    }
//@ endfn
//@ endimpl

proof fn lemma_inbox_atom(b: Seq<u8>)
    requires
        inbox(b),
    ensures
        atom_ext(b),
{
    assert forall|i: int| 0 <= i < b.len() implies astring_char(#[trigger] b[i]) by {
        assert(lower(b[i]) == lower(seq![0x69u8, 0x6e, 0x62, 0x6f, 0x78][i]));
    }
}
//@ file imap-types/src/core.rs
impl<'a> FromSpecImpl<Literal<'a>> for IString<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: Literal<'a>) -> Self { arbitrary() }
}
//@ impl From<Literal<'a>> for IString<'a> {
//@ fn from -> r
    ensures
        r == IString::Literal(value),
//@ endfn
//@ endimpl
impl<'a> FromSpecImpl<Quoted<'a>> for IString<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: Quoted<'a>) -> Self { arbitrary() }
}
//@ impl From<Quoted<'a>> for IString<'a> {
//@ fn from -> r
    ensures
        r == IString::Quoted(value),
//@ endfn
//@ endimpl
impl<'a> FromSpecImpl<Literal<'a>> for NString<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: Literal<'a>) -> Self { arbitrary() }
}
//@ impl From<Literal<'a>> for NString<'a> {
//@ fn from -> r
    ensures
        r.0 == Some(IString::Literal(value)),
//@ endfn
//@ endimpl
impl<'a> FromSpecImpl<Quoted<'a>> for NString<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: Quoted<'a>) -> Self { arbitrary() }
}
//@ impl From<Quoted<'a>> for NString<'a> {
//@ fn from -> r
    ensures
        r.0 == Some(IString::Quoted(value)),
//@ endfn
//@ endimpl
impl<'a> FromSpecImpl<Literal<'a>> for AString<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: Literal<'a>) -> Self { arbitrary() }
}
//@ impl From<Literal<'a>> for AString<'a> {
//@ fn from -> r
    ensures
        r == AString::String(IString::Literal(value)),
//@ endfn
//@ endimpl
impl<'a> FromSpecImpl<Quoted<'a>> for AString<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: Quoted<'a>) -> Self { arbitrary() }
}
//@ impl From<Quoted<'a>> for AString<'a> {
//@ fn from -> r
    ensures
        r == AString::String(IString::Quoted(value)),
//@ endfn
//@ endimpl
impl<'a> FromSpecImpl<Atom<'a>> for AtomExt<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: Atom<'a>) -> Self { arbitrary() }
}
//@ impl From<Atom<'a>> for AtomExt<'a> {
//@ fn from -> r
    ensures
        r.0 == value.0,
//@ endfn
//@ endimpl
impl<'a> FromSpecImpl<Atom<'a>> for AString<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: Atom<'a>) -> Self { arbitrary() }
}
//@ impl From<Atom<'a>> for AString<'a> {
//@ fn from -> r
    ensures
        of_astring(r) == encode_utf8(atom.0@), r is Atom,
//@ endfn
//@ endimpl
impl<'a> FromSpecImpl<Atom<'a>> for Charset<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: Atom<'a>) -> Self { arbitrary() }
}
//@ impl From<Atom<'a>> for Charset<'a> {
//@ fn from -> r
    ensures
        r == Charset::Atom(value),
//@ endfn
//@ endimpl
impl<'a> FromSpecImpl<Quoted<'a>> for Charset<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: Quoted<'a>) -> Self { arbitrary() }
}
//@ impl From<Quoted<'a>> for Charset<'a> {
//@ fn from -> r
    ensures
        r == Charset::Quoted(value),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<Cow<'a, str>> for Atom<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Cow<'a, str>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Cow<'a, str>> for Atom<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atom(encode_utf8(value@)),
        r matches Ok(a) ==> a.0 == value,
//@ wrap as_bytes=vx_as_bytes:method
//@ endfn
//@ endimpl

impl<'a> FromSpecImpl<AtomExt<'a>> for AString<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: AtomExt<'a>) -> Self { arbitrary() }
}
//@ impl From<AtomExt<'a>> for AString<'a> {
//@ fn from -> r
    ensures
        r == AString::Atom(atom),
//@ endfn
//@ endimpl
//@ impl NString<'a> {
//@ fn into_option -> r
//@ optmatch map
    ensures
        r is Some <==> self.0 is Some,
        self.0 matches Some(s) ==> r->0@ == of_istring(s),
//@ endfn
//@ endimpl

// ===== quoted characters ===========================================================================

pub open spec fn quoted_char(c: char) -> bool { (c as u32) < 0x80 && text_char(c as u8) }
/// `char::is_ascii`.
#[verifier::external_body]
fn vx_is_ascii(c: &char) -> (r: bool)
    ensures
        r == ((*c as u32) < 0x80),
{
    c.is_ascii()
}
//@ struct QuotedChar
//@ impl QuotedChar {
//@ fn validate -> r
//@ wrap is_ascii=vx_is_ascii:ref
    ensures
        r is Ok <==> quoted_char(input),
//@ endfn
//@ fn inner -> r
    ensures
        r == self.0,
//@ endfn
//@ endimpl
impl TryFromSpecImpl<char> for QuotedChar {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: char) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<char> for QuotedChar {
//@ fn try_from -> r
    ensures
        r is Ok <==> quoted_char(value),
        r matches Ok(q) ==> q.0 == value,
//@ endfn
//@ endimpl

// ===== lists with a minimum length =================================================================

//@ file imap-types/src/core.rs
//@ struct VecN
type Vec1<T> = VecN<T, 1>;
type Vec2<T> = VecN<T, 2>;
//@ impl VecN<T, N> {
//@ fn validate -> r
    ensures
        r is Ok <==> value@.len() >= N,
//@ endfn
//@ fn unvalidated -> r
    requires
        inner@.len() >= N,
    ensures
        r.0@ == inner@,
//@ endfn
//@ fn into_inner -> r
    ensures
        r@ == self.0@,
//@ endfn
//@ endimpl

impl<T, const N: usize> TryFromSpecImpl<Vec<T>> for VecN<T, N> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<T>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Vec<T>> for VecN<T, N> {
//@ fn try_from -> r
    ensures
        r is Ok <==> inner@.len() >= N,
        r matches Ok(v) ==> v.0@ == inner@,
//@ endfn
//@ endimpl

/// `Vec::from([T; N])`.
#[verifier::external_body]
fn vx_vec_from<T, const N: usize>(a: [T; N]) -> (r: Vec<T>)
    ensures
        r@ == a@,
{
    Vec::from(a)
}
impl<T, const N: usize> FromSpecImpl<[T; N]> for VecN<T, N> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: [T; N]) -> Self { arbitrary() }
}
//@ impl From<[T; N]> for VecN<T, N> {
//@ fn from -> r
//@ path Vec::from=>vx_vec_from
    ensures
        r.0@ == value@,
        r.0@.len() == N,
//@ endfn
//@ endimpl

//@ impl From<T> for Vec1<T> => impl<T> Vec1<T> {
//@ fn from -> r
//@ as from_one
    ensures
        r.0@ == seq![value],
//@ endfn
//@ endimpl

//@ impl From<(T, T)> for Vec2<T> => impl<T> Vec2<T> {
//@ fn from -> r
//@ as from_two
//@ sig fn from_two(v: (T, T)) -> (r: Self)
    ensures
        r.0@ == seq![v.0, v.1],
//@ start
    let (v1, v2) = v;
//@ endfn
//@ endimpl

//@ file imap-codec/src/fragmentizer.rs
/// `iter().enumerate()`
fn vx_whole<'a>(s: &'a [u8]) -> (r: &'a [u8])
    ensures r@ == s@,
{
    s
}
fn vx_ok<T, E>(r: Result<T, E>) -> (o: Option<T>)
    ensures o == (match r { Ok(v) => Some(v), Err(_) => None::<T> }),
{
    match r { Ok(v) => Some(v), Err(_) => None }
}
struct VxEnumerate<'a> { s: &'a [u8], i: usize }
fn vx_enumerate<'a>(s: &'a [u8]) -> (r: VxEnumerate<'a>)
    ensures r.s@ == s@, r.i == 0,
{
    VxEnumerate { s, i: 0 }
}
impl<'a> VxEnumerate<'a> {
    fn next(&mut self) -> (r: Option<(usize, &'a u8)>)
        requires old(self).i <= old(self).s@.len(),
        ensures
            final(self).s@ == old(self).s@,
            final(self).i <= final(self).s@.len(),
            old(self).i < old(self).s@.len() ==> final(self).i == old(self).i + 1 && (r matches Some((i, b)) && i == old(self).i && *b == old(self).s@[i as int]),
            old(self).i >= old(self).s@.len() ==> r is None,
    {
        if self.i < self.s.len() {
            let i = self.i;
            self.i = i + 1;
            Some((i, &self.s[i]))
        } else {
            None
        }
    }
}
/// The bytes before the first space, if there is one in the first line.
spec fn leading(s: Seq<u8>, n: int) -> bool { 0 <= n < s.len() && s[n] == 0x20 && forall|k: int| 0 <= k < n ==> s[k] != 0x20 }
//@ fn parse_tag -> r
//@ wrap iter=vx_whole:own enumerate=vx_enumerate:own ok=vx_ok:own
    ensures
        // a valid tag followed by a space is the tag
        forall|n: int| #[trigger] leading(message_bytes@, n) && tag(message_bytes@.take(n)) ==> r is Some && encode_utf8((r->0).0@) == message_bytes@.take(n),
        // and nothing else is
        r is Some ==> exists|n: int| #[trigger] leading(message_bytes@, n) && tag(message_bytes@.take(n)),
//@ loop 0 inv
    invariant_except_break
        forall|k: int| 0 <= k < bytes.i ==> message_bytes@[k] != 0x20,
    invariant
        bytes.s@ == message_bytes@,
        bytes.i <= bytes.s@.len(),
        forall|n: int, k: int| #![trigger leading(message_bytes@, n), message_bytes@[k]] leading(message_bytes@, n) && tag(message_bytes@.take(n)) && 0 <= k < n ==> message_bytes@[k] != 0x0a,
    ensures
        leading(message_bytes@, sp as int),
    decreases message_bytes@.len() - bytes.i,
//@ start
    proof {
        assert forall|n: int, k: int| #![trigger leading(message_bytes@, n), message_bytes@[k]] leading(message_bytes@, n) && tag(message_bytes@.take(n)) && 0 <= k < n implies message_bytes@[k] != 0x0a by {
            assert(message_bytes@.take(n)[k] == message_bytes@[k]);
        }
    }
//@ endfn


}
fn main() {}
