//@ cfg all-features debug texts
// Written by mk_names.py.
#![allow(unused, non_snake_case, unused_parens, unused_braces)]
use std::borrow::Cow;
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use vstd::std_specs::convert::{TryFromSpecImpl, FromSpecImpl};
verus! {

//@ include chars.inc
pub open spec fn atom(b: Seq<u8>) -> bool { b.len() > 0 && forall|i: int| 0 <= i < b.len() ==> atom_char(#[trigger] b[i]) }

// ===== letter case ===================================================================================

pub closed spec fn lower_c(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u8) + 32) as u8 as char } else { c } }
pub closed spec fn upper_c(c: char) -> char { if 'a' <= c && c <= 'z' { ((c as u8) - 32) as u8 as char } else { c } }
pub closed spec fn lower(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| lower_c(s[i])) }
pub closed spec fn upper(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| upper_c(s[i])) }
proof fn lemma_case(s: Seq<char>)
    ensures
        upper(lower(s)) == upper(s),
        lower(upper(s)) == lower(s),
        lower(lower(s)) == lower(s),
{
    assert(upper(lower(s)) =~= upper(s));
    assert(lower(upper(s)) =~= lower(s));
    assert(lower(lower(s)) =~= lower(s));
}
/// u and l are spellings of one name.
pub closed spec fn name(u: &str, l: &str) -> bool {
    &&& lower(u@) == l@
    &&& lower(l@) == l@
    &&& upper(l@) == upper(u@)
    &&& lower(upper(u@)) == l@
}
/// `==` of str, and a pattern that is a text, compare the characters.
mod axiom {
    use std::borrow::Cow;
    use vstd::prelude::*;
    pub uninterp spec fn str_of<'a>(s: Seq<char>) -> &'a str;
    #[verifier::external_body]
    pub broadcast proof fn str_ext(a: &str)
        ensures
            str_of(#[trigger] a@) == a,
    {
    }
    pub broadcast proof fn cow_view(c: Cow<'_, str>)
        ensures
            #[trigger] c@ == (match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ }),
    {
    }
}
broadcast use {axiom::str_ext, axiom::cow_view};

/// The characters of an atom.
pub closed spec fn atomc(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80 && atom_char(s[i] as u8) }
proof fn lemma_atomc(s: Seq<char>)
    ensures
        atom(encode_utf8(s)) <==> atomc(s),
        atomc(s) ==> is_ascii_chars(s),
{
    if atomc(s) {
        assert(is_ascii_chars(s));
        is_ascii_chars_encode_utf8(s);
        assert forall|i: int| 0 <= i < encode_utf8(s).len() implies atom_char(#[trigger] encode_utf8(s)[i]) by {
            assert(encode_utf8(s)[i] == s[i] as u8);
        }
    }
    if atom(encode_utf8(s)) {
        let b = encode_utf8(s);
        let t = Seq::new(b.len(), |i: int| b[i] as char);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 0x80 && atom_char(t[i] as u8) by {
            assert(atom_char(b[i]));
        }
        assert(is_ascii_chars(t));
        is_ascii_chars_encode_utf8(t);
        assert(encode_utf8(t) =~= b);
        encode_utf8_decode_utf8(t);
        encode_utf8_decode_utf8(s);
        assert(t == s);
    }
}
proof fn lemma_part(s: Seq<char>, i: int)
    requires
        atomc(s),
        0 <= i <= s.len(),
    ensures
        i > 0 ==> atomc(s.take(i)),
        i < s.len() ==> atomc(s.skip(i)),
        is_ascii_chars(s.take(i)),
        is_ascii_chars(s.skip(i)),
{
    assert forall|k: int| 0 <= k < i implies (#[trigger] s.take(i)[k] as u32) < 0x80 && atom_char(s.take(i)[k] as u8) by { assert(s.take(i)[k] == s[k]); }
    assert forall|k: int| 0 <= k < s.len() - i implies (#[trigger] s.skip(i)[k] as u32) < 0x80 && atom_char(s.skip(i)[k] as u8) by { assert(s.skip(i)[k] == s[k + i]); }
    if i > 0 { lemma_atomc(s.take(i)); } else { assert(is_ascii_chars(s.take(i))); }
    if i < s.len() { lemma_atomc(s.skip(i)); } else { assert(is_ascii_chars(s.skip(i))); }
}

// ===== what the standard library does =================================================================

#[verifier::external_body]
fn ext_lower(s: &str) -> (r: String)
    ensures
        r@ == lower(s@),
{
    s.to_ascii_lowercase()
}
#[verifier::external_body]
fn ext_upper(s: &str) -> (r: String)
    ensures
        r@ == upper(s@),
{
    s.to_ascii_uppercase()
}
/// Of Unicode: used for texts in ASCII.
#[verifier::external_body]
fn ext_to_lowercase(s: &str) -> (r: String)
    ensures
        is_ascii_chars(s@) ==> r@ == lower(s@),
{
    s.to_lowercase()
}
#[verifier::external_body]
fn ext_to_uppercase(s: &str) -> (r: String)
    ensures
        is_ascii_chars(s@) ==> r@ == upper(s@),
{
    s.to_uppercase()
}
#[verifier::external_body]
fn ext_eq_case(s: &str, t: &str) -> (r: bool)
    ensures
        r == (lower(s@) == lower(t@)),
{
    s.eq_ignore_ascii_case(t)
}
trait VxText {
    spec fn text(&self) -> Seq<char>;
    fn vx_str(&self) -> (r: &str)
        ensures
            r@ == self.text(),
    ;
    fn vx_to_ascii_lowercase(&self) -> (r: String)
        ensures
            r@ == lower(self.text()),
            lits(),
            few(),
    {
        proof { lemma_lits(); }
        ext_lower(self.vx_str())
    }
    fn vx_to_ascii_uppercase(&self) -> (r: String)
        ensures
            r@ == upper(self.text()),
            r@ == upper(lower(self.text())),
            lower(r@) == lower(self.text()),
            lits(),
            few(),
    {
        proof { lemma_lits(); lemma_case(self.text()); }
        ext_upper(self.vx_str())
    }
    fn vx_to_lowercase(&self) -> (r: String)
        ensures
            is_ascii_chars(self.text()) ==> r@ == lower(self.text()),
            lits(),
            few(),
    {
        proof { lemma_lits(); }
        ext_to_lowercase(self.vx_str())
    }
    fn vx_to_uppercase(&self) -> (r: String)
        ensures
            is_ascii_chars(self.text()) ==> r@ == upper(self.text()) && r@ == upper(lower(self.text())) && lower(r@) == lower(self.text()),
            lits(),
            few(),
    {
        proof { lemma_lits(); lemma_case(self.text()); }
        ext_to_uppercase(self.vx_str())
    }
    fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool)
        ensures
            r == (lower(self.text()) == lower(o@)),
            lits(),
            few(),
    {
        proof { lemma_lits(); }
        ext_eq_case(self.vx_str(), o)
    }
    fn vx_split_at_checked<'x>(&'x self, n: usize) -> (r: Option<(&'x str, &'x str)>)
        ensures
            is_ascii_chars(self.text()) ==> (r is Some <==> n <= self.text().len()),
            is_ascii_chars(self.text()) && n <= self.text().len() ==> (r->0).0@ == self.text().take(n as int) && (r->0).1@ == self.text().skip(n as int),
    {
        ext_split_at_checked(self.vx_str(), n)
    }
    fn vx_split_once<'x, P: VxPat>(&'x self, p: P) -> (r: Option<(&'x str, &'x str)>)
        ensures
            halves(self.text(), p.pat(), r),
    {
        ext_split_once(self.vx_str(), p)
    }
    fn vx_strip_prefix<'x, P: VxPat>(&'x self, p: P) -> (r: Option<&'x str>)
        ensures
            stripped(self.text(), p.pat(), r),
    {
        ext_strip_prefix(self.vx_str(), p)
    }
}
impl VxText for str {
    spec fn text(&self) -> Seq<char> { self@ }
    fn vx_str(&self) -> (r: &str) { self }
}
impl VxText for String {
    spec fn text(&self) -> Seq<char> { self@ }
    fn vx_str(&self) -> (r: &str) { self.as_str() }
}
impl VxText for Cow<'_, str> {
    spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_str(&self) -> (r: &str) { self }
}
/// A pattern: a character or a text.
trait VxPat: Sized {
    spec fn pat(self) -> Seq<char>;
}
impl VxPat for char { spec fn pat(self) -> Seq<char> { seq![self] } }
impl VxPat for &str { spec fn pat(self) -> Seq<char> { self@ } }

pub closed spec fn at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub closed spec fn first_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { at(s, p, i) && forall|k: int| 0 <= k < i ==> !at(s, p, k) }
pub closed spec fn halves(s: Seq<char>, p: Seq<char>, r: Option<(&str, &str)>) -> bool {
    &&& r is None ==> forall|i: int| !at(s, p, i)
    &&& r matches Some((a, b)) ==> exists|i: int| #[trigger] first_at(s, p, i) && a@ == s.take(i) && b@ == s.skip(i + p.len())
}
pub closed spec fn stripped(s: Seq<char>, p: Seq<char>, r: Option<&str>) -> bool {
    &&& r is Some <==> at(s, p, 0)
    &&& r matches Some(t) ==> t@ == s.skip(p.len() as int)
}
pub closed spec fn cut(s: Seq<char>, p: Seq<char>, r: Option<(Cow<'_, str>, Cow<'_, str>)>) -> bool {
    &&& r is None ==> forall|i: int| !at(s, p, i)
    &&& r matches Some((a, b)) ==> exists|i: int| #[trigger] first_at(s, p, i) && a@ == s.take(i) && b@ == s.skip(i + p.len())
}
#[verifier::external_body]
fn ext_split_at_checked(s: &str, n: usize) -> (r: Option<(&str, &str)>)
    ensures
        is_ascii_chars(s@) ==> (r is Some <==> n <= s@.len()),
        is_ascii_chars(s@) && n <= s@.len() ==> (r->0).0@ == s@.take(n as int) && (r->0).1@ == s@.skip(n as int),
{
    s.split_at_checked(n)
}
#[verifier::external_body]
fn ext_split_once<P: VxPat>(s: &str, p: P) -> (r: Option<(&str, &str)>)
    ensures
        halves(s@, p.pat(), r),
{
    unimplemented!()
}
#[verifier::external_body]
fn ext_strip_prefix<P: VxPat>(s: &str, p: P) -> (r: Option<&str>)
    ensures
        stripped(s@, p.pat(), r),
{
    unimplemented!()
}

trait VxRef {
    type To: ?Sized;
    spec fn referred(&self, r: &Self::To) -> bool;
    fn vx_ref(&self) -> (r: &Self::To)
        ensures
            self.referred(r),
    ;
}
impl VxRef for Cow<'_, str> {
    type To = str;
    spec fn referred(&self, r: &str) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vx_ref(&self) -> (r: &str) { self }
}
impl VxRef for String {
    type To = str;
    spec fn referred(&self, r: &str) -> bool { r@ == self@ }
    fn vx_ref(&self) -> (r: &str) { self.as_str() }
}
impl VxRef for str {
    type To = str;
    spec fn referred(&self, r: &str) -> bool { r@ == self@ }
    fn vx_ref(&self) -> (r: &str) { self }
}
#[verifier::external_body]
fn vx_clone<'a>(c: &Cow<'a, str>) -> (r: Cow<'a, str>)
    ensures
        r@ == c@,
{
    c.clone()
}
#[verifier::external_body]
fn vx_to_owned(s: &str) -> (r: String)
    ensures
        r@ == s@,
{
    s.to_owned()
}
/// `<[u8]>::to_ascii_lowercase`.
pub closed spec fn lower_b(b: u8) -> u8 { if 0x41 <= b <= 0x5a { (b + 0x20) as u8 } else { b } }
pub closed spec fn upper_b(b: u8) -> u8 { if 0x61 <= b <= 0x7a { (b - 0x20) as u8 } else { b } }
impl VxBytes for [u8] {}
trait VxBytes {}
#[verifier::external_body]
fn vx_bytes_lower(s: &[u8]) -> (r: Vec<u8>)
    ensures
        r@ == Seq::new(s@.len(), |i: int| lower_b(s@[i])),
{
    s.to_ascii_lowercase()
}
#[verifier::external_body]
fn vx_bytes_upper(s: &[u8]) -> (r: Vec<u8>)
    ensures
        r@ == Seq::new(s@.len(), |i: int| upper_b(s@[i])),
{
    s.to_ascii_uppercase()
}
#[verifier::external_body]
fn vx_is_bytes(s: &[u8], t: &[u8]) -> (r: bool)
    ensures
        r == (s@ == t@),
{
    s == t
}

/// Where a value is printed to; a text takes everything.
#[verifier::external_body]
struct Formatter<'a> { buf: &'a mut String }
impl<'a> Formatter<'a> {
    uninterp spec fn out(&self) -> Seq<char>;
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (r: std::fmt::Result)
        ensures
            r is Ok,
            final(self).out() == old(self).out() + s@,
    {
        unimplemented!()
    }
    fn vx_put<D: Display + ?Sized>(&mut self, d: &D) -> (r: std::fmt::Result)
        ensures
            r is Ok,
            final(self).out() == old(self).out() + d.shown(),
    {
        d.fmt(self)
    }
}
trait Display {
    spec fn shown(&self) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: std::fmt::Result)
        ensures
            r is Ok,
            final(f).out() =~= old(f).out() + self.shown(),
    ;
}
impl<T: Display + ?Sized> Display for &T {
    spec fn shown(&self) -> Seq<char> { (*self).shown() }
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { (*self).fmt(f) }
}
impl Display for Cow<'_, str> {
    spec fn shown(&self) -> Seq<char> { self@ }
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str(self.vx_str()) }
}
impl Display for str {
    spec fn shown(&self) -> Seq<char> { self@ }
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str(self) }
}

//@ wrap as_ref=vx_ref:method eq_ignore_ascii_case=vx_eq_ignore_ascii_case:method to_ascii_lowercase=vx_to_ascii_lowercase:method to_ascii_uppercase=vx_to_ascii_uppercase:method to_lowercase=vx_to_lowercase:method to_uppercase=vx_to_uppercase:method
//@ wrap split_once=vx_split_once:method strip_prefix=vx_strip_prefix:method split_at_checked=vx_split_at_checked:method clone=vx_clone:ref to_owned=vx_to_owned:own to_string=vx_to_owned:own
//@ file imap-types/src/error.rs
//@ struct ValidationError #[derive(Debug)]
//@ enum ValidationErrorKind #[derive(Debug)]
//@ impl ValidationError {
//@ fn new -> r
//@ endfn
//@ endimpl

// ===== atoms =========================================================================================

//@ file imap-types/src/core.rs
//@ struct Atom
pub closed spec fn chars_of(a: Atom) -> Seq<char> { a.0@ }
impl<'a> Atom<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { atomc(self.0@) } }
//@ impl Atom<'a> {
//@ fn inner -> r
    ensures
        r@ == self.0@,
        atomc(r@),
        is_ascii_chars(r@),
//@ start
    proof { use_type_invariant(self); lemma_atomc(self.0@); }
//@ endfn
//@ fn into_inner -> r
    ensures
        r == self.0,
        atomc(r@),
        is_ascii_chars(r@),
//@ start
    proof { use_type_invariant(&self); lemma_atomc(self.0@); }
//@ endfn
//@ endimpl
//@ impl AsRef<str> for Atom<'_> => impl Atom<'_> {
//@ fn as_ref -> r
//@ as vx_ref
    ensures
        r@ == self.0@,
        atomc(r@),
        is_ascii_chars(r@),
//@ start
    proof { use_type_invariant(self); lemma_atomc(self.0@); }
//@ endfn
//@ endimpl
//@ impl Display for Atom<'_> {
    spec fn shown(&self) -> Seq<char> { self.0@ }
//@ fn fmt
//@ endfn
//@ endimpl

// TryFrom for Atom: contracts proved in unit core
impl<'a> TryFromSpecImpl<&'a [u8]> for Atom<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u8]) -> Result<Self, ValidationError> { arbitrary() }
}
impl<'a> TryFrom<&'a [u8]> for Atom<'a> {
    type Error = ValidationError;
    #[verifier::external_body]
    fn try_from(value: &'a [u8]) -> (r: Result<Self, ValidationError>)
        ensures
            r is Ok <==> atom(value@),
            r matches Ok(a) ==> encode_utf8(chars_of(a)) == value@,
    {
        unimplemented!()
    }
}
impl<'a> TryFromSpecImpl<Vec<u8>> for Atom<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<u8>) -> Result<Self, ValidationError> { arbitrary() }
}
impl<'a> TryFrom<Vec<u8>> for Atom<'a> {
    type Error = ValidationError;
    #[verifier::external_body]
    fn try_from(value: Vec<u8>) -> (r: Result<Self, ValidationError>)
        ensures
            r is Ok <==> atom(value@),
            r matches Ok(a) ==> encode_utf8(chars_of(a)) == value@,
    {
        unimplemented!()
    }
}
#[verifier::external_body]
fn ext_atom_2<'a>(value: &'a str) -> (r: Result<Atom<'a>, ValidationError>)
    ensures
        r is Ok <==> atom(encode_utf8(value@)),
        r matches Ok(a) ==> chars_of(a) == value@,
{
    unimplemented!()
}
impl<'a> TryFromSpecImpl<&'a str> for Atom<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
impl<'a> TryFrom<&'a str> for Atom<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> (r: Result<Self, ValidationError>)
        ensures
            r is Ok <==> atomc(value@),
            r matches Ok(a) ==> chars_of(a) == value@,
    {
        proof { lemma_atomc(value@); }
        ext_atom_2(value)
    }
}
#[verifier::external_body]
fn ext_atom_3<'a>(value: String) -> (r: Result<Atom<'a>, ValidationError>)
    ensures
        r is Ok <==> atom(encode_utf8(value@)),
        r matches Ok(a) ==> chars_of(a) == value@,
{
    unimplemented!()
}
impl<'a> TryFromSpecImpl<String> for Atom<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: String) -> Result<Self, ValidationError> { arbitrary() }
}
impl<'a> TryFrom<String> for Atom<'a> {
    type Error = ValidationError;
    fn try_from(value: String) -> (r: Result<Self, ValidationError>)
        ensures
            r is Ok <==> atomc(value@),
            r matches Ok(a) ==> chars_of(a) == value@,
    {
        proof { lemma_atomc(value@); }
        ext_atom_3(value)
    }
}
#[verifier::external_body]
fn ext_atom_4<'a>(value: Cow<'a, str>) -> (r: Result<Atom<'a>, ValidationError>)
    ensures
        r is Ok <==> atom(encode_utf8(value@)),
        r matches Ok(a) ==> chars_of(a) == value@,
{
    unimplemented!()
}
impl<'a> TryFromSpecImpl<Cow<'a, str>> for Atom<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Cow<'a, str>) -> Result<Self, ValidationError> { arbitrary() }
}
impl<'a> TryFrom<Cow<'a, str>> for Atom<'a> {
    type Error = ValidationError;
    fn try_from(value: Cow<'a, str>) -> (r: Result<Self, ValidationError>)
        ensures
            r is Ok <==> atomc(value@),
            r matches Ok(a) ==> chars_of(a) == value@,
    {
        proof { lemma_atomc(value@); }
        ext_atom_4(value)
    }
}

// ===== names ==========================================================================================

proof fn lemma_lit_0()
    ensures
        name("PLAIN", "plain"),
{
    reveal_strlit("PLAIN");
    reveal_strlit("plain");
    assert(lower("PLAIN"@) =~= "plain"@);
    assert(lower("plain"@) =~= "plain"@);
    lemma_case("PLAIN"@);
}
proof fn lemma_lit_1()
    ensures
        name("LOGIN", "login"),
{
    reveal_strlit("LOGIN");
    reveal_strlit("login");
    assert(lower("LOGIN"@) =~= "login"@);
    assert(lower("login"@) =~= "login"@);
    lemma_case("LOGIN"@);
}
proof fn lemma_lit_2()
    ensures
        name("OAUTHBEARER", "oauthbearer"),
{
    reveal_strlit("OAUTHBEARER");
    reveal_strlit("oauthbearer");
    assert(lower("OAUTHBEARER"@) =~= "oauthbearer"@);
    assert(lower("oauthbearer"@) =~= "oauthbearer"@);
    lemma_case("OAUTHBEARER"@);
}
proof fn lemma_lit_3()
    ensures
        name("XOAUTH2", "xoauth2"),
{
    reveal_strlit("XOAUTH2");
    reveal_strlit("xoauth2");
    assert(lower("XOAUTH2"@) =~= "xoauth2"@);
    assert(lower("xoauth2"@) =~= "xoauth2"@);
    lemma_case("XOAUTH2"@);
}
proof fn lemma_lit_4()
    ensures
        name("SCRAM-SHA-1", "scram-sha-1"),
{
    reveal_strlit("SCRAM-SHA-1");
    reveal_strlit("scram-sha-1");
    assert(lower("SCRAM-SHA-1"@) =~= "scram-sha-1"@);
    assert(lower("scram-sha-1"@) =~= "scram-sha-1"@);
    lemma_case("SCRAM-SHA-1"@);
}
proof fn lemma_lit_5()
    ensures
        name("SCRAM-SHA-1-PLUS", "scram-sha-1-plus"),
{
    reveal_strlit("SCRAM-SHA-1-PLUS");
    reveal_strlit("scram-sha-1-plus");
    assert(lower("SCRAM-SHA-1-PLUS"@) =~= "scram-sha-1-plus"@);
    assert(lower("scram-sha-1-plus"@) =~= "scram-sha-1-plus"@);
    lemma_case("SCRAM-SHA-1-PLUS"@);
}
proof fn lemma_lit_6()
    ensures
        name("SCRAM-SHA-256", "scram-sha-256"),
{
    reveal_strlit("SCRAM-SHA-256");
    reveal_strlit("scram-sha-256");
    assert(lower("SCRAM-SHA-256"@) =~= "scram-sha-256"@);
    assert(lower("scram-sha-256"@) =~= "scram-sha-256"@);
    lemma_case("SCRAM-SHA-256"@);
}
proof fn lemma_lit_7()
    ensures
        name("SCRAM-SHA-256-PLUS", "scram-sha-256-plus"),
{
    reveal_strlit("SCRAM-SHA-256-PLUS");
    reveal_strlit("scram-sha-256-plus");
    assert(lower("SCRAM-SHA-256-PLUS"@) =~= "scram-sha-256-plus"@);
    assert(lower("scram-sha-256-plus"@) =~= "scram-sha-256-plus"@);
    lemma_case("SCRAM-SHA-256-PLUS"@);
}
proof fn lemma_lit_8()
    ensures
        name("SCRAM-SHA3-512", "scram-sha3-512"),
{
    reveal_strlit("SCRAM-SHA3-512");
    reveal_strlit("scram-sha3-512");
    assert(lower("SCRAM-SHA3-512"@) =~= "scram-sha3-512"@);
    assert(lower("scram-sha3-512"@) =~= "scram-sha3-512"@);
    lemma_case("SCRAM-SHA3-512"@);
}
proof fn lemma_lit_9()
    ensures
        name("SCRAM-SHA3-512-PLUS", "scram-sha3-512-plus"),
{
    reveal_strlit("SCRAM-SHA3-512-PLUS");
    reveal_strlit("scram-sha3-512-plus");
    assert(lower("SCRAM-SHA3-512-PLUS"@) =~= "scram-sha3-512-plus"@);
    assert(lower("scram-sha3-512-plus"@) =~= "scram-sha3-512-plus"@);
    lemma_case("SCRAM-SHA3-512-PLUS"@);
}
proof fn lemma_lit_10()
    ensures
        name("STORAGE", "storage"),
{
    reveal_strlit("STORAGE");
    reveal_strlit("storage");
    assert(lower("STORAGE"@) =~= "storage"@);
    assert(lower("storage"@) =~= "storage"@);
    lemma_case("STORAGE"@);
}
proof fn lemma_lit_11()
    ensures
        name("MESSAGE", "message"),
{
    reveal_strlit("MESSAGE");
    reveal_strlit("message");
    assert(lower("MESSAGE"@) =~= "message"@);
    assert(lower("message"@) =~= "message"@);
    lemma_case("MESSAGE"@);
}
proof fn lemma_lit_12()
    ensures
        name("MAILBOX", "mailbox"),
{
    reveal_strlit("MAILBOX");
    reveal_strlit("mailbox");
    assert(lower("MAILBOX"@) =~= "mailbox"@);
    assert(lower("mailbox"@) =~= "mailbox"@);
    lemma_case("MAILBOX"@);
}
proof fn lemma_lit_13()
    ensures
        name("ANNOTATION-STORAGE", "annotation-storage"),
{
    reveal_strlit("ANNOTATION-STORAGE");
    reveal_strlit("annotation-storage");
    assert(lower("ANNOTATION-STORAGE"@) =~= "annotation-storage"@);
    assert(lower("annotation-storage"@) =~= "annotation-storage"@);
    lemma_case("ANNOTATION-STORAGE"@);
}
proof fn lemma_lit_14()
    ensures
        name("DISPLAY", "display"),
{
    reveal_strlit("DISPLAY");
    reveal_strlit("display");
    assert(lower("DISPLAY"@) =~= "display"@);
    assert(lower("display"@) =~= "display"@);
    lemma_case("DISPLAY"@);
}
proof fn lemma_lit_15()
    ensures
        name("ORDEREDSUBJECT", "orderedsubject"),
{
    reveal_strlit("ORDEREDSUBJECT");
    reveal_strlit("orderedsubject");
    assert(lower("ORDEREDSUBJECT"@) =~= "orderedsubject"@);
    assert(lower("orderedsubject"@) =~= "orderedsubject"@);
    lemma_case("ORDEREDSUBJECT"@);
}
proof fn lemma_lit_16()
    ensures
        name("REFERENCES", "references"),
{
    reveal_strlit("REFERENCES");
    reveal_strlit("references");
    assert(lower("REFERENCES"@) =~= "references"@);
    assert(lower("references"@) =~= "references"@);
    lemma_case("REFERENCES"@);
}
proof fn lemma_lit_17()
    ensures
        name("DEFLATE", "deflate"),
{
    reveal_strlit("DEFLATE");
    reveal_strlit("deflate");
    assert(lower("DEFLATE"@) =~= "deflate"@);
    assert(lower("deflate"@) =~= "deflate"@);
    lemma_case("DEFLATE"@);
}
proof fn lemma_lit_18()
    ensures
        name("ANSWERED", "answered"), name("Answered", "answered"),
{
    reveal_strlit("ANSWERED");
    reveal_strlit("answered");
    assert(lower("ANSWERED"@) =~= "answered"@);
    assert(lower("answered"@) =~= "answered"@);
    lemma_case("ANSWERED"@);
    reveal_strlit("Answered");
    assert(lower("Answered"@) =~= "answered"@);
    lemma_case("Answered"@);
}
proof fn lemma_lit_19()
    ensures
        name("DELETED", "deleted"), name("Deleted", "deleted"),
{
    reveal_strlit("DELETED");
    reveal_strlit("deleted");
    assert(lower("DELETED"@) =~= "deleted"@);
    assert(lower("deleted"@) =~= "deleted"@);
    lemma_case("DELETED"@);
    reveal_strlit("Deleted");
    assert(lower("Deleted"@) =~= "deleted"@);
    lemma_case("Deleted"@);
}
proof fn lemma_lit_20()
    ensures
        name("DRAFT", "draft"), name("Draft", "draft"),
{
    reveal_strlit("DRAFT");
    reveal_strlit("draft");
    assert(lower("DRAFT"@) =~= "draft"@);
    assert(lower("draft"@) =~= "draft"@);
    lemma_case("DRAFT"@);
    reveal_strlit("Draft");
    assert(lower("Draft"@) =~= "draft"@);
    lemma_case("Draft"@);
}
proof fn lemma_lit_21()
    ensures
        name("FLAGGED", "flagged"), name("Flagged", "flagged"),
{
    reveal_strlit("FLAGGED");
    reveal_strlit("flagged");
    assert(lower("FLAGGED"@) =~= "flagged"@);
    assert(lower("flagged"@) =~= "flagged"@);
    lemma_case("FLAGGED"@);
    reveal_strlit("Flagged");
    assert(lower("Flagged"@) =~= "flagged"@);
    lemma_case("Flagged"@);
}
proof fn lemma_lit_22()
    ensures
        name("SEEN", "seen"), name("Seen", "seen"),
{
    reveal_strlit("SEEN");
    reveal_strlit("seen");
    assert(lower("SEEN"@) =~= "seen"@);
    assert(lower("seen"@) =~= "seen"@);
    lemma_case("SEEN"@);
    reveal_strlit("Seen");
    assert(lower("Seen"@) =~= "seen"@);
    lemma_case("Seen"@);
}
proof fn lemma_lit_23()
    ensures
        name("NOINFERIORS", "noinferiors"), name("Noinferiors", "noinferiors"),
{
    reveal_strlit("NOINFERIORS");
    reveal_strlit("noinferiors");
    assert(lower("NOINFERIORS"@) =~= "noinferiors"@);
    assert(lower("noinferiors"@) =~= "noinferiors"@);
    lemma_case("NOINFERIORS"@);
    reveal_strlit("Noinferiors");
    assert(lower("Noinferiors"@) =~= "noinferiors"@);
    lemma_case("Noinferiors"@);
}
proof fn lemma_lit_24()
    ensures
        name("NOSELECT", "noselect"), name("Noselect", "noselect"),
{
    reveal_strlit("NOSELECT");
    reveal_strlit("noselect");
    assert(lower("NOSELECT"@) =~= "noselect"@);
    assert(lower("noselect"@) =~= "noselect"@);
    lemma_case("NOSELECT"@);
    reveal_strlit("Noselect");
    assert(lower("Noselect"@) =~= "noselect"@);
    lemma_case("Noselect"@);
}
proof fn lemma_lit_25()
    ensures
        name("MARKED", "marked"), name("Marked", "marked"),
{
    reveal_strlit("MARKED");
    reveal_strlit("marked");
    assert(lower("MARKED"@) =~= "marked"@);
    assert(lower("marked"@) =~= "marked"@);
    lemma_case("MARKED"@);
    reveal_strlit("Marked");
    assert(lower("Marked"@) =~= "marked"@);
    lemma_case("Marked"@);
}
proof fn lemma_lit_26()
    ensures
        name("UNMARKED", "unmarked"), name("Unmarked", "unmarked"),
{
    reveal_strlit("UNMARKED");
    reveal_strlit("unmarked");
    assert(lower("UNMARKED"@) =~= "unmarked"@);
    assert(lower("unmarked"@) =~= "unmarked"@);
    lemma_case("UNMARKED"@);
    reveal_strlit("Unmarked");
    assert(lower("Unmarked"@) =~= "unmarked"@);
    lemma_case("Unmarked"@);
}
proof fn lemma_lit_27()
    ensures
        name("ACCEPT", "accept"),
{
    reveal_strlit("ACCEPT");
    reveal_strlit("accept");
    assert(lower("ACCEPT"@) =~= "accept"@);
    assert(lower("accept"@) =~= "accept"@);
    lemma_case("ACCEPT"@);
}
proof fn lemma_lit_28()
    ensures
        name("ONLY", "only"),
{
    reveal_strlit("ONLY");
    reveal_strlit("only");
    assert(lower("ONLY"@) =~= "only"@);
    assert(lower("only"@) =~= "only"@);
    lemma_case("ONLY"@);
}
proof fn lemma_lit_29()
    ensures
        name("CONDSTORE", "condstore"),
{
    reveal_strlit("CONDSTORE");
    reveal_strlit("condstore");
    assert(lower("CONDSTORE"@) =~= "condstore"@);
    assert(lower("condstore"@) =~= "condstore"@);
    lemma_case("CONDSTORE"@);
}
proof fn lemma_lit_30()
    ensures
        name("METADATA", "metadata"),
{
    reveal_strlit("METADATA");
    reveal_strlit("metadata");
    assert(lower("METADATA"@) =~= "metadata"@);
    assert(lower("metadata"@) =~= "metadata"@);
    lemma_case("METADATA"@);
}
proof fn lemma_lit_31()
    ensures
        name("METADATA-SERVER", "metadata-server"),
{
    reveal_strlit("METADATA-SERVER");
    reveal_strlit("metadata-server");
    assert(lower("METADATA-SERVER"@) =~= "metadata-server"@);
    assert(lower("metadata-server"@) =~= "metadata-server"@);
    lemma_case("METADATA-SERVER"@);
}
proof fn lemma_lit_32()
    ensures
        name("UTF8=ACCEPT", "utf8=accept"),
{
    reveal_strlit("UTF8=ACCEPT");
    reveal_strlit("utf8=accept");
    assert(lower("UTF8=ACCEPT"@) =~= "utf8=accept"@);
    assert(lower("utf8=accept"@) =~= "utf8=accept"@);
    lemma_case("UTF8=ACCEPT"@);
}
proof fn lemma_lit_33()
    ensures
        name("UTF8=ONLY", "utf8=only"),
{
    reveal_strlit("UTF8=ONLY");
    reveal_strlit("utf8=only");
    assert(lower("UTF8=ONLY"@) =~= "utf8=only"@);
    assert(lower("utf8=only"@) =~= "utf8=only"@);
    lemma_case("UTF8=ONLY"@);
}
proof fn lemma_lit_34()
    ensures
        name("IMAP4REV1", "imap4rev1"),
{
    reveal_strlit("IMAP4REV1");
    reveal_strlit("imap4rev1");
    assert(lower("IMAP4REV1"@) =~= "imap4rev1"@);
    assert(lower("imap4rev1"@) =~= "imap4rev1"@);
    lemma_case("IMAP4REV1"@);
}
proof fn lemma_lit_35()
    ensures
        name("LOGINDISABLED", "logindisabled"),
{
    reveal_strlit("LOGINDISABLED");
    reveal_strlit("logindisabled");
    assert(lower("LOGINDISABLED"@) =~= "logindisabled"@);
    assert(lower("logindisabled"@) =~= "logindisabled"@);
    lemma_case("LOGINDISABLED"@);
}
proof fn lemma_lit_36()
    ensures
        name("STARTTLS", "starttls"),
{
    reveal_strlit("STARTTLS");
    reveal_strlit("starttls");
    assert(lower("STARTTLS"@) =~= "starttls"@);
    assert(lower("starttls"@) =~= "starttls"@);
    lemma_case("STARTTLS"@);
}
proof fn lemma_lit_37()
    ensures
        name("IDLE", "idle"),
{
    reveal_strlit("IDLE");
    reveal_strlit("idle");
    assert(lower("IDLE"@) =~= "idle"@);
    assert(lower("idle"@) =~= "idle"@);
    lemma_case("IDLE"@);
}
proof fn lemma_lit_38()
    ensures
        name("MAILBOX-REFERRALS", "mailbox-referrals"),
{
    reveal_strlit("MAILBOX-REFERRALS");
    reveal_strlit("mailbox-referrals");
    assert(lower("MAILBOX-REFERRALS"@) =~= "mailbox-referrals"@);
    assert(lower("mailbox-referrals"@) =~= "mailbox-referrals"@);
    lemma_case("MAILBOX-REFERRALS"@);
}
proof fn lemma_lit_39()
    ensures
        name("LOGIN-REFERRALS", "login-referrals"),
{
    reveal_strlit("LOGIN-REFERRALS");
    reveal_strlit("login-referrals");
    assert(lower("LOGIN-REFERRALS"@) =~= "login-referrals"@);
    assert(lower("login-referrals"@) =~= "login-referrals"@);
    lemma_case("LOGIN-REFERRALS"@);
}
proof fn lemma_lit_40()
    ensures
        name("SASL-IR", "sasl-ir"),
{
    reveal_strlit("SASL-IR");
    reveal_strlit("sasl-ir");
    assert(lower("SASL-IR"@) =~= "sasl-ir"@);
    assert(lower("sasl-ir"@) =~= "sasl-ir"@);
    lemma_case("SASL-IR"@);
}
proof fn lemma_lit_41()
    ensures
        name("ENABLE", "enable"),
{
    reveal_strlit("ENABLE");
    reveal_strlit("enable");
    assert(lower("ENABLE"@) =~= "enable"@);
    assert(lower("enable"@) =~= "enable"@);
    lemma_case("ENABLE"@);
}
proof fn lemma_lit_42()
    ensures
        name("QUOTA", "quota"),
{
    reveal_strlit("QUOTA");
    reveal_strlit("quota");
    assert(lower("QUOTA"@) =~= "quota"@);
    assert(lower("quota"@) =~= "quota"@);
    lemma_case("QUOTA"@);
}
proof fn lemma_lit_43()
    ensures
        name("QUOTASET", "quotaset"),
{
    reveal_strlit("QUOTASET");
    reveal_strlit("quotaset");
    assert(lower("QUOTASET"@) =~= "quotaset"@);
    assert(lower("quotaset"@) =~= "quotaset"@);
    lemma_case("QUOTASET"@);
}
proof fn lemma_lit_44()
    ensures
        name("LITERAL+", "literal+"),
{
    reveal_strlit("LITERAL+");
    reveal_strlit("literal+");
    assert(lower("LITERAL+"@) =~= "literal+"@);
    assert(lower("literal+"@) =~= "literal+"@);
    lemma_case("LITERAL+"@);
}
proof fn lemma_lit_45()
    ensures
        name("LITERAL-", "literal-"),
{
    reveal_strlit("LITERAL-");
    reveal_strlit("literal-");
    assert(lower("LITERAL-"@) =~= "literal-"@);
    assert(lower("literal-"@) =~= "literal-"@);
    lemma_case("LITERAL-"@);
}
proof fn lemma_lit_46()
    ensures
        name("MOVE", "move"),
{
    reveal_strlit("MOVE");
    reveal_strlit("move");
    assert(lower("MOVE"@) =~= "move"@);
    assert(lower("move"@) =~= "move"@);
    lemma_case("MOVE"@);
}
proof fn lemma_lit_47()
    ensures
        name("ID", "id"),
{
    reveal_strlit("ID");
    reveal_strlit("id");
    assert(lower("ID"@) =~= "id"@);
    assert(lower("id"@) =~= "id"@);
    lemma_case("ID"@);
}
proof fn lemma_lit_48()
    ensures
        name("SORT", "sort"),
{
    reveal_strlit("SORT");
    reveal_strlit("sort");
    assert(lower("SORT"@) =~= "sort"@);
    assert(lower("sort"@) =~= "sort"@);
    lemma_case("SORT"@);
}
proof fn lemma_lit_49()
    ensures
        name("BINARY", "binary"),
{
    reveal_strlit("BINARY");
    reveal_strlit("binary");
    assert(lower("BINARY"@) =~= "binary"@);
    assert(lower("binary"@) =~= "binary"@);
    lemma_case("BINARY"@);
}
proof fn lemma_lit_50()
    ensures
        name("UNSELECT", "unselect"),
{
    reveal_strlit("UNSELECT");
    reveal_strlit("unselect");
    assert(lower("UNSELECT"@) =~= "unselect"@);
    assert(lower("unselect"@) =~= "unselect"@);
    lemma_case("UNSELECT"@);
}
proof fn lemma_lit_51()
    ensures
        name("QRESYNC", "qresync"),
{
    reveal_strlit("QRESYNC");
    reveal_strlit("qresync");
    assert(lower("QRESYNC"@) =~= "qresync"@);
    assert(lower("qresync"@) =~= "qresync"@);
    lemma_case("QRESYNC"@);
}
proof fn lemma_lit_52()
    ensures
        name("UIDPLUS", "uidplus"),
{
    reveal_strlit("UIDPLUS");
    reveal_strlit("uidplus");
    assert(lower("UIDPLUS"@) =~= "uidplus"@);
    assert(lower("uidplus"@) =~= "uidplus"@);
    lemma_case("UIDPLUS"@);
}
proof fn lemma_lit_53()
    ensures
        name("NAMESPACE", "namespace"),
{
    reveal_strlit("NAMESPACE");
    reveal_strlit("namespace");
    assert(lower("NAMESPACE"@) =~= "namespace"@);
    assert(lower("namespace"@) =~= "namespace"@);
    lemma_case("NAMESPACE"@);
}
proof fn lemma_lit_54()
    ensures
        name("AUTH", "auth"),
{
    reveal_strlit("AUTH");
    reveal_strlit("auth");
    assert(lower("AUTH"@) =~= "auth"@);
    assert(lower("auth"@) =~= "auth"@);
    lemma_case("AUTH"@);
}
proof fn lemma_lit_55()
    ensures
        name("COMPRESS", "compress"),
{
    reveal_strlit("COMPRESS");
    reveal_strlit("compress");
    assert(lower("COMPRESS"@) =~= "compress"@);
    assert(lower("compress"@) =~= "compress"@);
    lemma_case("COMPRESS"@);
}
proof fn lemma_lit_56()
    ensures
        name("THREAD", "thread"),
{
    reveal_strlit("THREAD");
    reveal_strlit("thread");
    assert(lower("THREAD"@) =~= "thread"@);
    assert(lower("thread"@) =~= "thread"@);
    lemma_case("THREAD"@);
}
proof fn lemma_lit_57()
    ensures
        name("RES-", "res-"),
{
    reveal_strlit("RES-");
    reveal_strlit("res-");
    assert(lower("RES-"@) =~= "res-"@);
    assert(lower("res-"@) =~= "res-"@);
    lemma_case("RES-"@);
}
#[verifier::opaque]
pub closed spec fn lits() -> bool {
    &&& name("PLAIN", "plain")
    &&& name("LOGIN", "login")
    &&& name("OAUTHBEARER", "oauthbearer")
    &&& name("XOAUTH2", "xoauth2")
    &&& name("SCRAM-SHA-1", "scram-sha-1")
    &&& name("SCRAM-SHA-1-PLUS", "scram-sha-1-plus")
    &&& name("SCRAM-SHA-256", "scram-sha-256")
    &&& name("SCRAM-SHA-256-PLUS", "scram-sha-256-plus")
    &&& name("SCRAM-SHA3-512", "scram-sha3-512")
    &&& name("SCRAM-SHA3-512-PLUS", "scram-sha3-512-plus")
    &&& name("STORAGE", "storage")
    &&& name("MESSAGE", "message")
    &&& name("MAILBOX", "mailbox")
    &&& name("ANNOTATION-STORAGE", "annotation-storage")
    &&& name("DISPLAY", "display")
    &&& name("ORDEREDSUBJECT", "orderedsubject")
    &&& name("REFERENCES", "references")
    &&& name("DEFLATE", "deflate")
    &&& name("ANSWERED", "answered")
    &&& name("Answered", "answered")
    &&& name("DELETED", "deleted")
    &&& name("Deleted", "deleted")
    &&& name("DRAFT", "draft")
    &&& name("Draft", "draft")
    &&& name("FLAGGED", "flagged")
    &&& name("Flagged", "flagged")
    &&& name("SEEN", "seen")
    &&& name("Seen", "seen")
    &&& name("NOINFERIORS", "noinferiors")
    &&& name("Noinferiors", "noinferiors")
    &&& name("NOSELECT", "noselect")
    &&& name("Noselect", "noselect")
    &&& name("MARKED", "marked")
    &&& name("Marked", "marked")
    &&& name("UNMARKED", "unmarked")
    &&& name("Unmarked", "unmarked")
    &&& name("ACCEPT", "accept")
    &&& name("ONLY", "only")
    &&& name("CONDSTORE", "condstore")
    &&& name("METADATA", "metadata")
    &&& name("METADATA-SERVER", "metadata-server")
    &&& name("UTF8=ACCEPT", "utf8=accept")
    &&& name("UTF8=ONLY", "utf8=only")
    &&& name("IMAP4REV1", "imap4rev1")
    &&& name("LOGINDISABLED", "logindisabled")
    &&& name("STARTTLS", "starttls")
    &&& name("IDLE", "idle")
    &&& name("MAILBOX-REFERRALS", "mailbox-referrals")
    &&& name("LOGIN-REFERRALS", "login-referrals")
    &&& name("SASL-IR", "sasl-ir")
    &&& name("ENABLE", "enable")
    &&& name("QUOTA", "quota")
    &&& name("QUOTASET", "quotaset")
    &&& name("LITERAL+", "literal+")
    &&& name("LITERAL-", "literal-")
    &&& name("MOVE", "move")
    &&& name("ID", "id")
    &&& name("SORT", "sort")
    &&& name("BINARY", "binary")
    &&& name("UNSELECT", "unselect")
    &&& name("QRESYNC", "qresync")
    &&& name("UIDPLUS", "uidplus")
    &&& name("NAMESPACE", "namespace")
    &&& name("AUTH", "auth")
    &&& name("COMPRESS", "compress")
    &&& name("THREAD", "thread")
    &&& name("RES-", "res-")
    &&& upper("PLAIN"@) == "PLAIN"@
    &&& upper("LOGIN"@) == "LOGIN"@
    &&& upper("OAUTHBEARER"@) == "OAUTHBEARER"@
    &&& upper("XOAUTH2"@) == "XOAUTH2"@
    &&& upper("SCRAM-SHA-1"@) == "SCRAM-SHA-1"@
    &&& upper("SCRAM-SHA-1-PLUS"@) == "SCRAM-SHA-1-PLUS"@
    &&& upper("SCRAM-SHA-256"@) == "SCRAM-SHA-256"@
    &&& upper("SCRAM-SHA-256-PLUS"@) == "SCRAM-SHA-256-PLUS"@
    &&& upper("SCRAM-SHA3-512"@) == "SCRAM-SHA3-512"@
    &&& upper("SCRAM-SHA3-512-PLUS"@) == "SCRAM-SHA3-512-PLUS"@
    &&& upper("STORAGE"@) == "STORAGE"@
    &&& upper("MESSAGE"@) == "MESSAGE"@
    &&& upper("MAILBOX"@) == "MAILBOX"@
    &&& upper("ANNOTATION-STORAGE"@) == "ANNOTATION-STORAGE"@
    &&& upper("DISPLAY"@) == "DISPLAY"@
    &&& upper("ORDEREDSUBJECT"@) == "ORDEREDSUBJECT"@
    &&& upper("REFERENCES"@) == "REFERENCES"@
    &&& upper("DEFLATE"@) == "DEFLATE"@
    &&& upper("ANSWERED"@) == "ANSWERED"@
    &&& upper("DELETED"@) == "DELETED"@
    &&& upper("DRAFT"@) == "DRAFT"@
    &&& upper("FLAGGED"@) == "FLAGGED"@
    &&& upper("SEEN"@) == "SEEN"@
    &&& upper("NOINFERIORS"@) == "NOINFERIORS"@
    &&& upper("NOSELECT"@) == "NOSELECT"@
    &&& upper("MARKED"@) == "MARKED"@
    &&& upper("UNMARKED"@) == "UNMARKED"@
    &&& upper("ACCEPT"@) == "ACCEPT"@
    &&& upper("ONLY"@) == "ONLY"@
    &&& upper("CONDSTORE"@) == "CONDSTORE"@
    &&& upper("METADATA"@) == "METADATA"@
    &&& upper("METADATA-SERVER"@) == "METADATA-SERVER"@
    &&& upper("UTF8=ACCEPT"@) == "UTF8=ACCEPT"@
    &&& upper("UTF8=ONLY"@) == "UTF8=ONLY"@
    &&& upper("IMAP4REV1"@) == "IMAP4REV1"@
    &&& upper("LOGINDISABLED"@) == "LOGINDISABLED"@
    &&& upper("STARTTLS"@) == "STARTTLS"@
    &&& upper("IDLE"@) == "IDLE"@
    &&& upper("MAILBOX-REFERRALS"@) == "MAILBOX-REFERRALS"@
    &&& upper("LOGIN-REFERRALS"@) == "LOGIN-REFERRALS"@
    &&& upper("SASL-IR"@) == "SASL-IR"@
    &&& upper("ENABLE"@) == "ENABLE"@
    &&& upper("QUOTA"@) == "QUOTA"@
    &&& upper("QUOTASET"@) == "QUOTASET"@
    &&& upper("LITERAL+"@) == "LITERAL+"@
    &&& upper("LITERAL-"@) == "LITERAL-"@
    &&& upper("MOVE"@) == "MOVE"@
    &&& upper("ID"@) == "ID"@
    &&& upper("SORT"@) == "SORT"@
    &&& upper("BINARY"@) == "BINARY"@
    &&& upper("UNSELECT"@) == "UNSELECT"@
    &&& upper("QRESYNC"@) == "QRESYNC"@
    &&& upper("UIDPLUS"@) == "UIDPLUS"@
    &&& upper("NAMESPACE"@) == "NAMESPACE"@
    &&& upper("AUTH"@) == "AUTH"@
    &&& upper("COMPRESS"@) == "COMPRESS"@
    &&& upper("THREAD"@) == "THREAD"@
    &&& upper("RES-"@) == "RES-"@
}
pub closed spec fn few() -> bool {
    &&& "="@ == seq!['=']
    &&& "\\\\"@ == seq!['\\', '\\']
    &&& "\\"@ == seq!['\\']
    &&& upper("RES-"@) == "RES-"@
    &&& "deflate"@.len() == 7
    &&& name("RES-", "res-")
}
proof fn lemma_lits()
    ensures
        lits(),
        few(),
{
    reveal(lits);
    lemma_lit_0(); lemma_up_0();
    lemma_lit_1(); lemma_up_1();
    lemma_lit_2(); lemma_up_2();
    lemma_lit_3(); lemma_up_3();
    lemma_lit_4(); lemma_up_4();
    lemma_lit_5(); lemma_up_5();
    lemma_lit_6(); lemma_up_6();
    lemma_lit_7(); lemma_up_7();
    lemma_lit_8(); lemma_up_8();
    lemma_lit_9(); lemma_up_9();
    lemma_lit_10(); lemma_up_10();
    lemma_lit_11(); lemma_up_11();
    lemma_lit_12(); lemma_up_12();
    lemma_lit_13(); lemma_up_13();
    lemma_lit_14(); lemma_up_14();
    lemma_lit_15(); lemma_up_15();
    lemma_lit_16(); lemma_up_16();
    lemma_lit_17(); lemma_up_17();
    lemma_lit_18(); lemma_up_18();
    lemma_lit_19(); lemma_up_19();
    lemma_lit_20(); lemma_up_20();
    lemma_lit_21(); lemma_up_21();
    lemma_lit_22(); lemma_up_22();
    lemma_lit_23(); lemma_up_23();
    lemma_lit_24(); lemma_up_24();
    lemma_lit_25(); lemma_up_25();
    lemma_lit_26(); lemma_up_26();
    lemma_lit_27(); lemma_up_27();
    lemma_lit_28(); lemma_up_28();
    lemma_lit_29(); lemma_up_29();
    lemma_lit_30(); lemma_up_30();
    lemma_lit_31(); lemma_up_31();
    lemma_lit_32(); lemma_up_32();
    lemma_lit_33(); lemma_up_33();
    lemma_lit_34(); lemma_up_34();
    lemma_lit_35(); lemma_up_35();
    lemma_lit_36(); lemma_up_36();
    lemma_lit_37(); lemma_up_37();
    lemma_lit_38(); lemma_up_38();
    lemma_lit_39(); lemma_up_39();
    lemma_lit_40(); lemma_up_40();
    lemma_lit_41(); lemma_up_41();
    lemma_lit_42(); lemma_up_42();
    lemma_lit_43(); lemma_up_43();
    lemma_lit_44(); lemma_up_44();
    lemma_lit_45(); lemma_up_45();
    lemma_lit_46(); lemma_up_46();
    lemma_lit_47(); lemma_up_47();
    lemma_lit_48(); lemma_up_48();
    lemma_lit_49(); lemma_up_49();
    lemma_lit_50(); lemma_up_50();
    lemma_lit_51(); lemma_up_51();
    lemma_lit_52(); lemma_up_52();
    lemma_lit_53(); lemma_up_53();
    lemma_lit_54(); lemma_up_54();
    lemma_lit_55(); lemma_up_55();
    lemma_lit_56(); lemma_up_56();
    lemma_lit_57(); lemma_up_57();
    reveal_strlit("="); assert("="@ =~= seq!['=']);
    reveal_strlit("\\\\"); assert("\\\\"@ =~= seq!['\\', '\\']);
    reveal_strlit("\\"); assert("\\"@ =~= seq!['\\']);
    reveal_strlit("deflate");
}
proof fn lemma_up_0()
    ensures upper("PLAIN"@) == "PLAIN"@,
{
    reveal_strlit("PLAIN");
    assert(upper("PLAIN"@) =~= "PLAIN"@);
}
proof fn lemma_up_1()
    ensures upper("LOGIN"@) == "LOGIN"@,
{
    reveal_strlit("LOGIN");
    assert(upper("LOGIN"@) =~= "LOGIN"@);
}
proof fn lemma_up_2()
    ensures upper("OAUTHBEARER"@) == "OAUTHBEARER"@,
{
    reveal_strlit("OAUTHBEARER");
    assert(upper("OAUTHBEARER"@) =~= "OAUTHBEARER"@);
}
proof fn lemma_up_3()
    ensures upper("XOAUTH2"@) == "XOAUTH2"@,
{
    reveal_strlit("XOAUTH2");
    assert(upper("XOAUTH2"@) =~= "XOAUTH2"@);
}
proof fn lemma_up_4()
    ensures upper("SCRAM-SHA-1"@) == "SCRAM-SHA-1"@,
{
    reveal_strlit("SCRAM-SHA-1");
    assert(upper("SCRAM-SHA-1"@) =~= "SCRAM-SHA-1"@);
}
proof fn lemma_up_5()
    ensures upper("SCRAM-SHA-1-PLUS"@) == "SCRAM-SHA-1-PLUS"@,
{
    reveal_strlit("SCRAM-SHA-1-PLUS");
    assert(upper("SCRAM-SHA-1-PLUS"@) =~= "SCRAM-SHA-1-PLUS"@);
}
proof fn lemma_up_6()
    ensures upper("SCRAM-SHA-256"@) == "SCRAM-SHA-256"@,
{
    reveal_strlit("SCRAM-SHA-256");
    assert(upper("SCRAM-SHA-256"@) =~= "SCRAM-SHA-256"@);
}
proof fn lemma_up_7()
    ensures upper("SCRAM-SHA-256-PLUS"@) == "SCRAM-SHA-256-PLUS"@,
{
    reveal_strlit("SCRAM-SHA-256-PLUS");
    assert(upper("SCRAM-SHA-256-PLUS"@) =~= "SCRAM-SHA-256-PLUS"@);
}
proof fn lemma_up_8()
    ensures upper("SCRAM-SHA3-512"@) == "SCRAM-SHA3-512"@,
{
    reveal_strlit("SCRAM-SHA3-512");
    assert(upper("SCRAM-SHA3-512"@) =~= "SCRAM-SHA3-512"@);
}
proof fn lemma_up_9()
    ensures upper("SCRAM-SHA3-512-PLUS"@) == "SCRAM-SHA3-512-PLUS"@,
{
    reveal_strlit("SCRAM-SHA3-512-PLUS");
    assert(upper("SCRAM-SHA3-512-PLUS"@) =~= "SCRAM-SHA3-512-PLUS"@);
}
proof fn lemma_up_10()
    ensures upper("STORAGE"@) == "STORAGE"@,
{
    reveal_strlit("STORAGE");
    assert(upper("STORAGE"@) =~= "STORAGE"@);
}
proof fn lemma_up_11()
    ensures upper("MESSAGE"@) == "MESSAGE"@,
{
    reveal_strlit("MESSAGE");
    assert(upper("MESSAGE"@) =~= "MESSAGE"@);
}
proof fn lemma_up_12()
    ensures upper("MAILBOX"@) == "MAILBOX"@,
{
    reveal_strlit("MAILBOX");
    assert(upper("MAILBOX"@) =~= "MAILBOX"@);
}
proof fn lemma_up_13()
    ensures upper("ANNOTATION-STORAGE"@) == "ANNOTATION-STORAGE"@,
{
    reveal_strlit("ANNOTATION-STORAGE");
    assert(upper("ANNOTATION-STORAGE"@) =~= "ANNOTATION-STORAGE"@);
}
proof fn lemma_up_14()
    ensures upper("DISPLAY"@) == "DISPLAY"@,
{
    reveal_strlit("DISPLAY");
    assert(upper("DISPLAY"@) =~= "DISPLAY"@);
}
proof fn lemma_up_15()
    ensures upper("ORDEREDSUBJECT"@) == "ORDEREDSUBJECT"@,
{
    reveal_strlit("ORDEREDSUBJECT");
    assert(upper("ORDEREDSUBJECT"@) =~= "ORDEREDSUBJECT"@);
}
proof fn lemma_up_16()
    ensures upper("REFERENCES"@) == "REFERENCES"@,
{
    reveal_strlit("REFERENCES");
    assert(upper("REFERENCES"@) =~= "REFERENCES"@);
}
proof fn lemma_up_17()
    ensures upper("DEFLATE"@) == "DEFLATE"@,
{
    reveal_strlit("DEFLATE");
    assert(upper("DEFLATE"@) =~= "DEFLATE"@);
}
proof fn lemma_up_18()
    ensures upper("ANSWERED"@) == "ANSWERED"@,
{
    reveal_strlit("ANSWERED");
    assert(upper("ANSWERED"@) =~= "ANSWERED"@);
}
proof fn lemma_up_19()
    ensures upper("DELETED"@) == "DELETED"@,
{
    reveal_strlit("DELETED");
    assert(upper("DELETED"@) =~= "DELETED"@);
}
proof fn lemma_up_20()
    ensures upper("DRAFT"@) == "DRAFT"@,
{
    reveal_strlit("DRAFT");
    assert(upper("DRAFT"@) =~= "DRAFT"@);
}
proof fn lemma_up_21()
    ensures upper("FLAGGED"@) == "FLAGGED"@,
{
    reveal_strlit("FLAGGED");
    assert(upper("FLAGGED"@) =~= "FLAGGED"@);
}
proof fn lemma_up_22()
    ensures upper("SEEN"@) == "SEEN"@,
{
    reveal_strlit("SEEN");
    assert(upper("SEEN"@) =~= "SEEN"@);
}
proof fn lemma_up_23()
    ensures upper("NOINFERIORS"@) == "NOINFERIORS"@,
{
    reveal_strlit("NOINFERIORS");
    assert(upper("NOINFERIORS"@) =~= "NOINFERIORS"@);
}
proof fn lemma_up_24()
    ensures upper("NOSELECT"@) == "NOSELECT"@,
{
    reveal_strlit("NOSELECT");
    assert(upper("NOSELECT"@) =~= "NOSELECT"@);
}
proof fn lemma_up_25()
    ensures upper("MARKED"@) == "MARKED"@,
{
    reveal_strlit("MARKED");
    assert(upper("MARKED"@) =~= "MARKED"@);
}
proof fn lemma_up_26()
    ensures upper("UNMARKED"@) == "UNMARKED"@,
{
    reveal_strlit("UNMARKED");
    assert(upper("UNMARKED"@) =~= "UNMARKED"@);
}
proof fn lemma_up_27()
    ensures upper("ACCEPT"@) == "ACCEPT"@,
{
    reveal_strlit("ACCEPT");
    assert(upper("ACCEPT"@) =~= "ACCEPT"@);
}
proof fn lemma_up_28()
    ensures upper("ONLY"@) == "ONLY"@,
{
    reveal_strlit("ONLY");
    assert(upper("ONLY"@) =~= "ONLY"@);
}
proof fn lemma_up_29()
    ensures upper("CONDSTORE"@) == "CONDSTORE"@,
{
    reveal_strlit("CONDSTORE");
    assert(upper("CONDSTORE"@) =~= "CONDSTORE"@);
}
proof fn lemma_up_30()
    ensures upper("METADATA"@) == "METADATA"@,
{
    reveal_strlit("METADATA");
    assert(upper("METADATA"@) =~= "METADATA"@);
}
proof fn lemma_up_31()
    ensures upper("METADATA-SERVER"@) == "METADATA-SERVER"@,
{
    reveal_strlit("METADATA-SERVER");
    assert(upper("METADATA-SERVER"@) =~= "METADATA-SERVER"@);
}
proof fn lemma_up_32()
    ensures upper("UTF8=ACCEPT"@) == "UTF8=ACCEPT"@,
{
    reveal_strlit("UTF8=ACCEPT");
    assert(upper("UTF8=ACCEPT"@) =~= "UTF8=ACCEPT"@);
}
proof fn lemma_up_33()
    ensures upper("UTF8=ONLY"@) == "UTF8=ONLY"@,
{
    reveal_strlit("UTF8=ONLY");
    assert(upper("UTF8=ONLY"@) =~= "UTF8=ONLY"@);
}
proof fn lemma_up_34()
    ensures upper("IMAP4REV1"@) == "IMAP4REV1"@,
{
    reveal_strlit("IMAP4REV1");
    assert(upper("IMAP4REV1"@) =~= "IMAP4REV1"@);
}
proof fn lemma_up_35()
    ensures upper("LOGINDISABLED"@) == "LOGINDISABLED"@,
{
    reveal_strlit("LOGINDISABLED");
    assert(upper("LOGINDISABLED"@) =~= "LOGINDISABLED"@);
}
proof fn lemma_up_36()
    ensures upper("STARTTLS"@) == "STARTTLS"@,
{
    reveal_strlit("STARTTLS");
    assert(upper("STARTTLS"@) =~= "STARTTLS"@);
}
proof fn lemma_up_37()
    ensures upper("IDLE"@) == "IDLE"@,
{
    reveal_strlit("IDLE");
    assert(upper("IDLE"@) =~= "IDLE"@);
}
proof fn lemma_up_38()
    ensures upper("MAILBOX-REFERRALS"@) == "MAILBOX-REFERRALS"@,
{
    reveal_strlit("MAILBOX-REFERRALS");
    assert(upper("MAILBOX-REFERRALS"@) =~= "MAILBOX-REFERRALS"@);
}
proof fn lemma_up_39()
    ensures upper("LOGIN-REFERRALS"@) == "LOGIN-REFERRALS"@,
{
    reveal_strlit("LOGIN-REFERRALS");
    assert(upper("LOGIN-REFERRALS"@) =~= "LOGIN-REFERRALS"@);
}
proof fn lemma_up_40()
    ensures upper("SASL-IR"@) == "SASL-IR"@,
{
    reveal_strlit("SASL-IR");
    assert(upper("SASL-IR"@) =~= "SASL-IR"@);
}
proof fn lemma_up_41()
    ensures upper("ENABLE"@) == "ENABLE"@,
{
    reveal_strlit("ENABLE");
    assert(upper("ENABLE"@) =~= "ENABLE"@);
}
proof fn lemma_up_42()
    ensures upper("QUOTA"@) == "QUOTA"@,
{
    reveal_strlit("QUOTA");
    assert(upper("QUOTA"@) =~= "QUOTA"@);
}
proof fn lemma_up_43()
    ensures upper("QUOTASET"@) == "QUOTASET"@,
{
    reveal_strlit("QUOTASET");
    assert(upper("QUOTASET"@) =~= "QUOTASET"@);
}
proof fn lemma_up_44()
    ensures upper("LITERAL+"@) == "LITERAL+"@,
{
    reveal_strlit("LITERAL+");
    assert(upper("LITERAL+"@) =~= "LITERAL+"@);
}
proof fn lemma_up_45()
    ensures upper("LITERAL-"@) == "LITERAL-"@,
{
    reveal_strlit("LITERAL-");
    assert(upper("LITERAL-"@) =~= "LITERAL-"@);
}
proof fn lemma_up_46()
    ensures upper("MOVE"@) == "MOVE"@,
{
    reveal_strlit("MOVE");
    assert(upper("MOVE"@) =~= "MOVE"@);
}
proof fn lemma_up_47()
    ensures upper("ID"@) == "ID"@,
{
    reveal_strlit("ID");
    assert(upper("ID"@) =~= "ID"@);
}
proof fn lemma_up_48()
    ensures upper("SORT"@) == "SORT"@,
{
    reveal_strlit("SORT");
    assert(upper("SORT"@) =~= "SORT"@);
}
proof fn lemma_up_49()
    ensures upper("BINARY"@) == "BINARY"@,
{
    reveal_strlit("BINARY");
    assert(upper("BINARY"@) =~= "BINARY"@);
}
proof fn lemma_up_50()
    ensures upper("UNSELECT"@) == "UNSELECT"@,
{
    reveal_strlit("UNSELECT");
    assert(upper("UNSELECT"@) =~= "UNSELECT"@);
}
proof fn lemma_up_51()
    ensures upper("QRESYNC"@) == "QRESYNC"@,
{
    reveal_strlit("QRESYNC");
    assert(upper("QRESYNC"@) =~= "QRESYNC"@);
}
proof fn lemma_up_52()
    ensures upper("UIDPLUS"@) == "UIDPLUS"@,
{
    reveal_strlit("UIDPLUS");
    assert(upper("UIDPLUS"@) =~= "UIDPLUS"@);
}
proof fn lemma_up_53()
    ensures upper("NAMESPACE"@) == "NAMESPACE"@,
{
    reveal_strlit("NAMESPACE");
    assert(upper("NAMESPACE"@) =~= "NAMESPACE"@);
}
proof fn lemma_up_54()
    ensures upper("AUTH"@) == "AUTH"@,
{
    reveal_strlit("AUTH");
    assert(upper("AUTH"@) =~= "AUTH"@);
}
proof fn lemma_up_55()
    ensures upper("COMPRESS"@) == "COMPRESS"@,
{
    reveal_strlit("COMPRESS");
    assert(upper("COMPRESS"@) =~= "COMPRESS"@);
}
proof fn lemma_up_56()
    ensures upper("THREAD"@) == "THREAD"@,
{
    reveal_strlit("THREAD");
    assert(upper("THREAD"@) =~= "THREAD"@);
}
proof fn lemma_up_57()
    ensures upper("RES-"@) == "RES-"@,
{
    reveal_strlit("RES-");
    assert(upper("RES-"@) =~= "RES-"@);
}

//@ file imap-types/src/auth.rs imap-types/src/core.rs
//@ enum AuthMechanism
//@ struct AuthMechanismOther
pub closed spec fn auth_known(l: Seq<char>) -> bool {
    ||| l == "plain"@
    ||| l == "login"@
    ||| l == "oauthbearer"@
    ||| l == "xoauth2"@
    ||| l == "scram-sha-1"@
    ||| l == "scram-sha-1-plus"@
    ||| l == "scram-sha-256"@
    ||| l == "scram-sha-256-plus"@
    ||| l == "scram-sha3-512"@
    ||| l == "scram-sha3-512-plus"@
}
//@ made AuthMechanismOther from
/// Values for unknown names are not made of a known one.
impl<'a> AuthMechanismOther<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { atomc(self.0.0@) && !auth_known(lower(self.0.0@)) } }
/// What the text s means.
pub closed spec fn auth_reads(s: Seq<char>, r: AuthMechanism) -> bool {
    &&& lower(s) == "plain"@ ==> r == AuthMechanism::Plain
    &&& lower(s) == "login"@ ==> r == AuthMechanism::Login
    &&& lower(s) == "oauthbearer"@ ==> r == AuthMechanism::OAuthBearer
    &&& lower(s) == "xoauth2"@ ==> r == AuthMechanism::XOAuth2
    &&& lower(s) == "scram-sha-1"@ ==> r == AuthMechanism::ScramSha1
    &&& lower(s) == "scram-sha-1-plus"@ ==> r == AuthMechanism::ScramSha1Plus
    &&& lower(s) == "scram-sha-256"@ ==> r == AuthMechanism::ScramSha256
    &&& lower(s) == "scram-sha-256-plus"@ ==> r == AuthMechanism::ScramSha256Plus
    &&& lower(s) == "scram-sha3-512"@ ==> r == AuthMechanism::ScramSha3_512
    &&& lower(s) == "scram-sha3-512-plus"@ ==> r == AuthMechanism::ScramSha3_512Plus
    &&& !auth_known(lower(s)) ==> (r matches AuthMechanism::Other(o) && o.0.0@ == s)
}
pub closed spec fn auth_text(r: AuthMechanism) -> Seq<char> {
    match r {
        AuthMechanism::Plain => "PLAIN"@,
        AuthMechanism::Login => "LOGIN"@,
        AuthMechanism::OAuthBearer => "OAUTHBEARER"@,
        AuthMechanism::XOAuth2 => "XOAUTH2"@,
        AuthMechanism::ScramSha1 => "SCRAM-SHA-1"@,
        AuthMechanism::ScramSha1Plus => "SCRAM-SHA-1-PLUS"@,
        AuthMechanism::ScramSha256 => "SCRAM-SHA-256"@,
        AuthMechanism::ScramSha256Plus => "SCRAM-SHA-256-PLUS"@,
        AuthMechanism::ScramSha3_512 => "SCRAM-SHA3-512"@,
        AuthMechanism::ScramSha3_512Plus => "SCRAM-SHA3-512-PLUS"@,
        AuthMechanism::Other(o) => o.0.0@,
    }
}
impl<'a> FromSpecImpl<Atom<'a>> for AuthMechanism<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: Atom<'a>) -> Self { arbitrary() }
}
//@ impl From<Atom<'a>> for AuthMechanism<'a> {
//@ fn from -> r
    ensures
        auth_reads(chars_of(atom), r),
//@ start
    proof { reveal(lits); }
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a [u8]> for AuthMechanism<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u8]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a [u8]> for AuthMechanism<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atom(value@),
        r matches Ok(x) ==> exists|s: Seq<char>| #[trigger] encode_utf8(s) == value@ && auth_reads(s, x),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<Vec<u8>> for AuthMechanism<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<u8>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Vec<u8>> for AuthMechanism<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atom(value@),
        r matches Ok(x) ==> exists|s: Seq<char>| #[trigger] encode_utf8(s) == value@ && auth_reads(s, x),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a str> for AuthMechanism<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for AuthMechanism<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atomc(value@),
        r matches Ok(x) ==> auth_reads(value@, x),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<String> for AuthMechanism<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: String) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<String> for AuthMechanism<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atomc(value@),
        r matches Ok(x) ==> auth_reads(value@, x),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<Cow<'a, str>> for AuthMechanism<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Cow<'a, str>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Cow<'a, str>> for AuthMechanism<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atomc(value@),
        r matches Ok(x) ==> auth_reads(value@, x),
//@ endfn
//@ endimpl
//@ impl FromStr for AuthMechanism<'static> => impl AuthMechanism<'static> {
//@ fn from_str -> r
//@ sig fn from_str(s: &str) -> (r: Result<Self, ValidationError>)
    ensures
        r is Ok <==> atomc(s@),
        r matches Ok(x) ==> auth_reads(s@, x),
//@ endfn
//@ endimpl
//@ impl AsRef<str> for AuthMechanism<'_> => impl AuthMechanism<'_> {
//@ fn as_ref -> r
//@ as vx_ref
    ensures
        r@ == auth_text(*self),
//@ endfn
//@ endimpl
//@ impl Display for AuthMechanism<'_> {
    spec fn shown(&self) -> Seq<char> { auth_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl
proof fn lemma_auth_distinct()
    ensures
        auth_reads("PLAIN"@, AuthMechanism::Plain),
        auth_reads("LOGIN"@, AuthMechanism::Login),
        auth_reads("OAUTHBEARER"@, AuthMechanism::OAuthBearer),
        auth_reads("XOAUTH2"@, AuthMechanism::XOAuth2),
        auth_reads("SCRAM-SHA-1"@, AuthMechanism::ScramSha1),
        auth_reads("SCRAM-SHA-1-PLUS"@, AuthMechanism::ScramSha1Plus),
        auth_reads("SCRAM-SHA-256"@, AuthMechanism::ScramSha256),
        auth_reads("SCRAM-SHA-256-PLUS"@, AuthMechanism::ScramSha256Plus),
        auth_reads("SCRAM-SHA3-512"@, AuthMechanism::ScramSha3_512),
        auth_reads("SCRAM-SHA3-512-PLUS"@, AuthMechanism::ScramSha3_512Plus),
{
    reveal(lits);
    lemma_lits();
    reveal_strlit("plain");
    reveal_strlit("login");
    reveal_strlit("oauthbearer");
    reveal_strlit("xoauth2");
    reveal_strlit("scram-sha-1");
    reveal_strlit("scram-sha-1-plus");
    reveal_strlit("scram-sha-256");
    reveal_strlit("scram-sha-256-plus");
    reveal_strlit("scram-sha3-512");
    reveal_strlit("scram-sha3-512-plus");
    assert("login"@[0] == 'l' && "plain"@[0] == 'p');
    assert("oauthbearer"@.len() == 11 && "plain"@.len() == 5);
    assert("oauthbearer"@.len() == 11 && "login"@.len() == 5);
    assert("xoauth2"@.len() == 7 && "plain"@.len() == 5);
    assert("xoauth2"@.len() == 7 && "login"@.len() == 5);
    assert("xoauth2"@.len() == 7 && "oauthbearer"@.len() == 11);
    assert("scram-sha-1"@.len() == 11 && "plain"@.len() == 5);
    assert("scram-sha-1"@.len() == 11 && "login"@.len() == 5);
    assert("scram-sha-1"@[0] == 's' && "oauthbearer"@[0] == 'o');
    assert("scram-sha-1"@.len() == 11 && "xoauth2"@.len() == 7);
    assert("scram-sha-1-plus"@.len() == 16 && "plain"@.len() == 5);
    assert("scram-sha-1-plus"@.len() == 16 && "login"@.len() == 5);
    assert("scram-sha-1-plus"@.len() == 16 && "oauthbearer"@.len() == 11);
    assert("scram-sha-1-plus"@.len() == 16 && "xoauth2"@.len() == 7);
    assert("scram-sha-1-plus"@.len() == 16 && "scram-sha-1"@.len() == 11);
    assert("scram-sha-256"@.len() == 13 && "plain"@.len() == 5);
    assert("scram-sha-256"@.len() == 13 && "login"@.len() == 5);
    assert("scram-sha-256"@.len() == 13 && "oauthbearer"@.len() == 11);
    assert("scram-sha-256"@.len() == 13 && "xoauth2"@.len() == 7);
    assert("scram-sha-256"@.len() == 13 && "scram-sha-1"@.len() == 11);
    assert("scram-sha-256"@.len() == 13 && "scram-sha-1-plus"@.len() == 16);
    assert("scram-sha-256-plus"@.len() == 18 && "plain"@.len() == 5);
    assert("scram-sha-256-plus"@.len() == 18 && "login"@.len() == 5);
    assert("scram-sha-256-plus"@.len() == 18 && "oauthbearer"@.len() == 11);
    assert("scram-sha-256-plus"@.len() == 18 && "xoauth2"@.len() == 7);
    assert("scram-sha-256-plus"@.len() == 18 && "scram-sha-1"@.len() == 11);
    assert("scram-sha-256-plus"@.len() == 18 && "scram-sha-1-plus"@.len() == 16);
    assert("scram-sha-256-plus"@.len() == 18 && "scram-sha-256"@.len() == 13);
    assert("scram-sha3-512"@.len() == 14 && "plain"@.len() == 5);
    assert("scram-sha3-512"@.len() == 14 && "login"@.len() == 5);
    assert("scram-sha3-512"@.len() == 14 && "oauthbearer"@.len() == 11);
    assert("scram-sha3-512"@.len() == 14 && "xoauth2"@.len() == 7);
    assert("scram-sha3-512"@.len() == 14 && "scram-sha-1"@.len() == 11);
    assert("scram-sha3-512"@.len() == 14 && "scram-sha-1-plus"@.len() == 16);
    assert("scram-sha3-512"@.len() == 14 && "scram-sha-256"@.len() == 13);
    assert("scram-sha3-512"@.len() == 14 && "scram-sha-256-plus"@.len() == 18);
    assert("scram-sha3-512-plus"@.len() == 19 && "plain"@.len() == 5);
    assert("scram-sha3-512-plus"@.len() == 19 && "login"@.len() == 5);
    assert("scram-sha3-512-plus"@.len() == 19 && "oauthbearer"@.len() == 11);
    assert("scram-sha3-512-plus"@.len() == 19 && "xoauth2"@.len() == 7);
    assert("scram-sha3-512-plus"@.len() == 19 && "scram-sha-1"@.len() == 11);
    assert("scram-sha3-512-plus"@.len() == 19 && "scram-sha-1-plus"@.len() == 16);
    assert("scram-sha3-512-plus"@.len() == 19 && "scram-sha-256"@.len() == 13);
    assert("scram-sha3-512-plus"@.len() == 19 && "scram-sha-256-plus"@.len() == 18);
    assert("scram-sha3-512-plus"@.len() == 19 && "scram-sha3-512"@.len() == 14);
}
/// Printing a value and reading it gives the value, and the text is an atom.
fn theorem_auth(r: &AuthMechanism)
    ensures
        auth_reads(auth_text(*r), *r),
        atomc(auth_text(*r)),
{
    proof {
        lemma_auth_distinct();
        reveal_strlit("PLAIN");
        reveal_strlit("LOGIN");
        reveal_strlit("OAUTHBEARER");
        reveal_strlit("XOAUTH2");
        reveal_strlit("SCRAM-SHA-1");
        reveal_strlit("SCRAM-SHA-1-PLUS");
        reveal_strlit("SCRAM-SHA-256");
        reveal_strlit("SCRAM-SHA-256-PLUS");
        reveal_strlit("SCRAM-SHA3-512");
        reveal_strlit("SCRAM-SHA3-512-PLUS");
        if let AuthMechanism::Other(o) = r { use_type_invariant(o); }
    }
}

//@ file imap-types/src/flag.rs imap-types/src/core.rs
//@ enum Flag
//@ struct FlagExtension
pub closed spec fn flag_known(l: Seq<char>) -> bool {
    ||| l == "answered"@
    ||| l == "deleted"@
    ||| l == "draft"@
    ||| l == "flagged"@
    ||| l == "seen"@
}
//@ made FlagExtension system
/// Values for unknown names are not made of a known one.
impl<'a> FlagExtension<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { atomc(self.0.0@) && !flag_known(lower(self.0.0@)) } }
/// What the text s means.
pub closed spec fn flag_reads(s: Seq<char>, r: Flag) -> bool {
    &&& lower(s) == "answered"@ ==> r == Flag::Answered
    &&& lower(s) == "deleted"@ ==> r == Flag::Deleted
    &&& lower(s) == "draft"@ ==> r == Flag::Draft
    &&& lower(s) == "flagged"@ ==> r == Flag::Flagged
    &&& lower(s) == "seen"@ ==> r == Flag::Seen
    &&& !flag_known(lower(s)) ==> (r matches Flag::Extension(o) && o.0.0@ == s)
}
pub closed spec fn flag_text(r: Flag) -> Seq<char> {
    match r {
        Flag::Answered => "\\Answered"@,
        Flag::Deleted => "\\Deleted"@,
        Flag::Draft => "\\Draft"@,
        Flag::Flagged => "\\Flagged"@,
        Flag::Seen => "\\Seen"@,
        Flag::Extension(o) => "\\"@ + o.0.0@,
        Flag::Keyword(a) => a.0@,
    }
}
//@ impl Flag<'a> {
//@ fn system -> r
    ensures
        flag_reads(atom.0@, r),
//@ start
    proof { reveal(lits); }
//@ endfn
//@ fn keyword -> r
    ensures
        r == Flag::Keyword(atom),
//@ endfn
//@ endimpl
/// With the backslash, if any.
pub closed spec fn flag_full(s: Seq<char>, r: Flag) -> bool {
    if s.len() > 0 && s[0] == '\\' { atomc(s.skip(1)) && flag_reads(s.skip(1), r) } else { atomc(s) && (r matches Flag::Keyword(a) && a.0@ == s) }
}
impl<'a> TryFromSpecImpl<&'a str> for Flag<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for Flag<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> if value@.len() > 0 && value@[0] == '\\' { atomc(value@.skip(1)) } else { atomc(value@) },
        r matches Ok(x) ==> flag_full(value@, x),
//@ start
    proof { reveal(lits); lemma_lits(); lemma_char(value@, '\\', 0); }
//@ endfn
//@ endimpl
//@ impl Display for Flag<'_> {
    spec fn shown(&self) -> Seq<char> { flag_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl
/// One character as a pattern.
proof fn lemma_char(s: Seq<char>, c: char, i: int)
    ensures
        at(s, seq![c], i) <==> 0 <= i < s.len() && s[i] == c,
{
    if 0 <= i < s.len() {
        assert(s.subrange(i, i + 1).len() == 1 && s.subrange(i, i + 1)[0] == s[i]);
        if s[i] == c { assert(s.subrange(i, i + 1) =~= seq![c]); }
        if s.subrange(i, i + 1) == seq![c] { assert(seq![c][0] == c); }
    }
}
proof fn lemma_flag_distinct()
    ensures
        flag_reads("Answered"@, Flag::Answered),
        flag_reads("Deleted"@, Flag::Deleted),
        flag_reads("Draft"@, Flag::Draft),
        flag_reads("Flagged"@, Flag::Flagged),
        flag_reads("Seen"@, Flag::Seen),
{
    reveal(lits);
    lemma_lits();
    reveal_strlit("answered");
    reveal_strlit("deleted");
    reveal_strlit("draft");
    reveal_strlit("flagged");
    reveal_strlit("seen");
    assert("deleted"@.len() == 7 && "answered"@.len() == 8);
    assert("draft"@.len() == 5 && "answered"@.len() == 8);
    assert("draft"@.len() == 5 && "deleted"@.len() == 7);
    assert("flagged"@.len() == 7 && "answered"@.len() == 8);
    assert("flagged"@[0] == 'f' && "deleted"@[0] == 'd');
    assert("flagged"@.len() == 7 && "draft"@.len() == 5);
    assert("seen"@.len() == 4 && "answered"@.len() == 8);
    assert("seen"@.len() == 4 && "deleted"@.len() == 7);
    assert("seen"@.len() == 4 && "draft"@.len() == 5);
    assert("seen"@.len() == 4 && "flagged"@.len() == 7);
}
/// Printing a flag and reading it gives the flag.
fn theorem_flag(r: &Flag)
    ensures
        flag_full(flag_text(*r), *r),
{
    proof {
        lemma_flag_distinct();
        reveal_strlit("\\");
        reveal_strlit("Answered"); reveal_strlit("\\Answered"); assert("\\Answered"@.skip(1) =~= "Answered"@);
        reveal_strlit("Deleted"); reveal_strlit("\\Deleted"); assert("\\Deleted"@.skip(1) =~= "Deleted"@);
        reveal_strlit("Draft"); reveal_strlit("\\Draft"); assert("\\Draft"@.skip(1) =~= "Draft"@);
        reveal_strlit("Flagged"); reveal_strlit("\\Flagged"); assert("\\Flagged"@.skip(1) =~= "Flagged"@);
        reveal_strlit("Seen"); reveal_strlit("\\Seen"); assert("\\Seen"@.skip(1) =~= "Seen"@);
        if let Flag::Extension(o) = r { use_type_invariant(o); assert(flag_text(*r).skip(1) =~= o.0.0@); }
        if let Flag::Keyword(a) = r { use_type_invariant(a); assert(atom_char(a.0@[0] as u8)); }
    }
}

//@ enum FlagNameAttribute
//@ struct FlagNameAttributeExtension
pub closed spec fn fna_known(l: Seq<char>) -> bool {
    ||| l == "noinferiors"@
    ||| l == "noselect"@
    ||| l == "marked"@
    ||| l == "unmarked"@
}
//@ made FlagNameAttributeExtension from
/// Values for unknown names are not made of a known one.
impl<'a> FlagNameAttributeExtension<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { atomc(self.0.0@) && !fna_known(lower(self.0.0@)) } }
/// What the text s means.
pub closed spec fn fna_reads(s: Seq<char>, r: FlagNameAttribute) -> bool {
    &&& lower(s) == "noinferiors"@ ==> r == FlagNameAttribute::Noinferiors
    &&& lower(s) == "noselect"@ ==> r == FlagNameAttribute::Noselect
    &&& lower(s) == "marked"@ ==> r == FlagNameAttribute::Marked
    &&& lower(s) == "unmarked"@ ==> r == FlagNameAttribute::Unmarked
    &&& !fna_known(lower(s)) ==> (r matches FlagNameAttribute::Extension(o) && o.0.0@ == s)
}
pub closed spec fn fna_text(r: FlagNameAttribute) -> Seq<char> {
    match r {
        FlagNameAttribute::Noinferiors => "\\Noinferiors"@,
        FlagNameAttribute::Noselect => "\\Noselect"@,
        FlagNameAttribute::Marked => "\\Marked"@,
        FlagNameAttribute::Unmarked => "\\Unmarked"@,
        FlagNameAttribute::Extension(o) => "\\"@ + o.0.0@,
    }
}
impl<'a> FromSpecImpl<Atom<'a>> for FlagNameAttribute<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: Atom<'a>) -> Self { arbitrary() }
}
//@ impl From<Atom<'a>> for FlagNameAttribute<'a> {
//@ fn from -> r
    ensures
        fna_reads(chars_of(atom), r),
//@ start
    proof { reveal(lits); }
//@ endfn
//@ endimpl
//@ impl FlagNameAttribute<'_> {
//@ fn is_selectability -> r
    ensures
        r == (self is Noselect || self is Marked || self is Unmarked),
//@ endfn
//@ endimpl
//@ impl Display for FlagNameAttribute<'_> {
    spec fn shown(&self) -> Seq<char> { fna_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl
proof fn lemma_fna_distinct()
    ensures
        fna_reads("Noinferiors"@, FlagNameAttribute::Noinferiors),
        fna_reads("Noselect"@, FlagNameAttribute::Noselect),
        fna_reads("Marked"@, FlagNameAttribute::Marked),
        fna_reads("Unmarked"@, FlagNameAttribute::Unmarked),
{
    reveal(lits);
    lemma_lits();
    reveal_strlit("noinferiors");
    reveal_strlit("noselect");
    reveal_strlit("marked");
    reveal_strlit("unmarked");
    assert("noselect"@.len() == 8 && "noinferiors"@.len() == 11);
    assert("marked"@.len() == 6 && "noinferiors"@.len() == 11);
    assert("marked"@.len() == 6 && "noselect"@.len() == 8);
    assert("unmarked"@.len() == 8 && "noinferiors"@.len() == 11);
    assert("unmarked"@[0] == 'u' && "noselect"@[0] == 'n');
    assert("unmarked"@.len() == 8 && "marked"@.len() == 6);
}
/// Printing a value and reading it gives the value, and the text is an atom.
fn theorem_fna(r: &FlagNameAttribute)
    ensures
        fna_reads(fna_text(*r).skip(1), *r),
        atomc(fna_text(*r).skip(1)),
{
    proof {
        lemma_fna_distinct();
        reveal_strlit("Noinferiors");
        reveal_strlit("Noselect");
        reveal_strlit("Marked");
        reveal_strlit("Unmarked");
        reveal_strlit("\\Noinferiors"); assert("\\Noinferiors"@.skip(1) =~= "Noinferiors"@);
        reveal_strlit("\\Noselect"); assert("\\Noselect"@.skip(1) =~= "Noselect"@);
        reveal_strlit("\\Marked"); assert("\\Marked"@.skip(1) =~= "Marked"@);
        reveal_strlit("\\Unmarked"); assert("\\Unmarked"@.skip(1) =~= "Unmarked"@);
        if let FlagNameAttribute::Extension(o) = r { use_type_invariant(o); reveal_strlit("\\"); assert(fna_text(*r).skip(1) =~= o.0.0@); }
    }
}

//@ file imap-types/src/extensions/condstore_qresync.rs imap-types/src/core.rs
//@ enum AttributeFlag
//@ struct AttributeFlagExtension
//@ enum EntryTypeReq
//@ made AttributeFlagExtension system
/// Values for unknown names are not made of a known one.
impl<'a> AttributeFlagExtension<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { atomc(self.0.0@) && !flag_known(lower(self.0.0@)) } }
/// What the text s means.
pub closed spec fn aflag_reads(s: Seq<char>, r: AttributeFlag) -> bool {
    &&& lower(s) == "answered"@ ==> r == AttributeFlag::Answered
    &&& lower(s) == "deleted"@ ==> r == AttributeFlag::Deleted
    &&& lower(s) == "draft"@ ==> r == AttributeFlag::Draft
    &&& lower(s) == "flagged"@ ==> r == AttributeFlag::Flagged
    &&& lower(s) == "seen"@ ==> r == AttributeFlag::Seen
    &&& !flag_known(lower(s)) ==> (r matches AttributeFlag::Extension(o) && o.0.0@ == s)
}
pub closed spec fn aflag_text(r: AttributeFlag) -> Seq<char> {
    match r {
        AttributeFlag::Answered => "\\\\Answered"@,
        AttributeFlag::Deleted => "\\\\Deleted"@,
        AttributeFlag::Draft => "\\\\Draft"@,
        AttributeFlag::Flagged => "\\\\Flagged"@,
        AttributeFlag::Seen => "\\\\Seen"@,
        AttributeFlag::Extension(o) => "\\\\"@ + o.0.0@,
        AttributeFlag::Keyword(a) => a.0@,
    }
}
//@ impl AttributeFlag<'a> {
//@ fn system -> r
    ensures
        aflag_reads(atom.0@, r),
//@ endfn
//@ fn keyword -> r
    ensures
        r == AttributeFlag::Keyword(atom),
//@ endfn
//@ endimpl
pub closed spec fn two(s: Seq<char>) -> bool { s.len() > 1 && s[0] == '\\' && s[1] == '\\' }
pub closed spec fn aflag_full(s: Seq<char>, r: AttributeFlag) -> bool {
    if two(s) { atomc(s.skip(2)) && aflag_reads(s.skip(2), r) } else { atomc(s) && (r matches AttributeFlag::Keyword(a) && a.0@ == s) }
}
proof fn lemma_two(s: Seq<char>)
    ensures
        at(s, seq!['\\', '\\'], 0) <==> two(s),
{
    let p = seq!['\\', '\\'];
    if s.len() > 1 {
        assert(s.subrange(0, 2).len() == 2 && s.subrange(0, 2)[0] == s[0] && s.subrange(0, 2)[1] == s[1]);
        if two(s) { assert(s.subrange(0, 2) =~= p); }
        if s.subrange(0, 2) == p { assert(p[0] == '\\' && p[1] == '\\'); }
    }
}
impl<'a> TryFromSpecImpl<&'a str> for AttributeFlag<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for AttributeFlag<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> if two(value@) { atomc(value@.skip(2)) } else { atomc(value@) },
        r matches Ok(x) ==> aflag_full(value@, x),
//@ start
    proof { lemma_lits(); lemma_two(value@); }
//@ endfn
//@ endimpl
//@ impl Display for AttributeFlag<'_> {
    spec fn shown(&self) -> Seq<char> { aflag_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl
//@ impl Display for EntryTypeReq {
    spec fn shown(&self) -> Seq<char> { match self { EntryTypeReq::Private => "priv"@, EntryTypeReq::Shared => "shared"@, EntryTypeReq::All => "all"@ } }
//@ fn fmt
//@ endfn
//@ endimpl
proof fn lemma_aflag_distinct()
    ensures
        aflag_reads("Answered"@, AttributeFlag::Answered),
        aflag_reads("Deleted"@, AttributeFlag::Deleted),
        aflag_reads("Draft"@, AttributeFlag::Draft),
        aflag_reads("Flagged"@, AttributeFlag::Flagged),
        aflag_reads("Seen"@, AttributeFlag::Seen),
{
    reveal(lits);
    lemma_lits();
    reveal_strlit("answered");
    reveal_strlit("deleted");
    reveal_strlit("draft");
    reveal_strlit("flagged");
    reveal_strlit("seen");
    assert("deleted"@.len() == 7 && "answered"@.len() == 8);
    assert("draft"@.len() == 5 && "answered"@.len() == 8);
    assert("draft"@.len() == 5 && "deleted"@.len() == 7);
    assert("flagged"@.len() == 7 && "answered"@.len() == 8);
    assert("flagged"@[0] == 'f' && "deleted"@[0] == 'd');
    assert("flagged"@.len() == 7 && "draft"@.len() == 5);
    assert("seen"@.len() == 4 && "answered"@.len() == 8);
    assert("seen"@.len() == 4 && "deleted"@.len() == 7);
    assert("seen"@.len() == 4 && "draft"@.len() == 5);
    assert("seen"@.len() == 4 && "flagged"@.len() == 7);
}
/// Printing a flag and reading it gives the flag.
fn theorem_aflag(r: &AttributeFlag)
    ensures
        aflag_full(aflag_text(*r), *r),
{
    proof {
        lemma_aflag_distinct();
        reveal_strlit("\\\\");
        reveal_strlit("Answered"); reveal_strlit("\\\\Answered"); assert("\\\\Answered"@.skip(2) =~= "Answered"@);
        reveal_strlit("Deleted"); reveal_strlit("\\\\Deleted"); assert("\\\\Deleted"@.skip(2) =~= "Deleted"@);
        reveal_strlit("Draft"); reveal_strlit("\\\\Draft"); assert("\\\\Draft"@.skip(2) =~= "Draft"@);
        reveal_strlit("Flagged"); reveal_strlit("\\\\Flagged"); assert("\\\\Flagged"@.skip(2) =~= "Flagged"@);
        reveal_strlit("Seen"); reveal_strlit("\\\\Seen"); assert("\\\\Seen"@.skip(2) =~= "Seen"@);
        if let AttributeFlag::Extension(o) = r { use_type_invariant(o); assert(aflag_text(*r).skip(2) =~= o.0.0@); }
        if let AttributeFlag::Keyword(a) = r { use_type_invariant(a); assert(atom_char(a.0@[0] as u8)); }
    }
}

//@ file imap-types/src/extensions/quota.rs imap-types/src/core.rs
//@ enum Resource
//@ struct ResourceOther
pub closed spec fn res_known(l: Seq<char>) -> bool {
    ||| l == "storage"@
    ||| l == "message"@
    ||| l == "mailbox"@
    ||| l == "annotation-storage"@
}
//@ made ResourceOther from
/// Values for unknown names are not made of a known one.
impl<'a> ResourceOther<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { atomc(self.0.0@) && !res_known(lower(self.0.0@)) } }
/// What the text s means.
pub closed spec fn res_reads(s: Seq<char>, r: Resource) -> bool {
    &&& lower(s) == "storage"@ ==> r == Resource::Storage
    &&& lower(s) == "message"@ ==> r == Resource::Message
    &&& lower(s) == "mailbox"@ ==> r == Resource::Mailbox
    &&& lower(s) == "annotation-storage"@ ==> r == Resource::AnnotationStorage
    &&& !res_known(lower(s)) ==> (r matches Resource::Other(o) && o.0.0@ == s)
}
pub closed spec fn res_text(r: Resource) -> Seq<char> {
    match r {
        Resource::Storage => "STORAGE"@,
        Resource::Message => "MESSAGE"@,
        Resource::Mailbox => "MAILBOX"@,
        Resource::AnnotationStorage => "ANNOTATION-STORAGE"@,
        Resource::Other(o) => o.0.0@,
    }
}
impl<'a> FromSpecImpl<Atom<'a>> for Resource<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: Atom<'a>) -> Self { arbitrary() }
}
//@ impl From<Atom<'a>> for Resource<'a> {
//@ fn from -> r
    ensures
        res_reads(chars_of(atom), r),
//@ start
    proof { reveal(lits); }
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a [u8]> for Resource<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u8]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a [u8]> for Resource<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atom(value@),
        r matches Ok(x) ==> exists|s: Seq<char>| #[trigger] encode_utf8(s) == value@ && res_reads(s, x),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<Vec<u8>> for Resource<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<u8>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Vec<u8>> for Resource<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atom(value@),
        r matches Ok(x) ==> exists|s: Seq<char>| #[trigger] encode_utf8(s) == value@ && res_reads(s, x),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a str> for Resource<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for Resource<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atomc(value@),
        r matches Ok(x) ==> res_reads(value@, x),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<String> for Resource<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: String) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<String> for Resource<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atomc(value@),
        r matches Ok(x) ==> res_reads(value@, x),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<Cow<'a, str>> for Resource<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Cow<'a, str>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Cow<'a, str>> for Resource<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atomc(value@),
        r matches Ok(x) ==> res_reads(value@, x),
//@ endfn
//@ endimpl
//@ impl Display for Resource<'_> {
    spec fn shown(&self) -> Seq<char> { res_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl
proof fn lemma_res_distinct()
    ensures
        res_reads("STORAGE"@, Resource::Storage),
        res_reads("MESSAGE"@, Resource::Message),
        res_reads("MAILBOX"@, Resource::Mailbox),
        res_reads("ANNOTATION-STORAGE"@, Resource::AnnotationStorage),
{
    reveal(lits);
    lemma_lits();
    reveal_strlit("storage");
    reveal_strlit("message");
    reveal_strlit("mailbox");
    reveal_strlit("annotation-storage");
    assert("message"@[0] == 'm' && "storage"@[0] == 's');
    assert("mailbox"@[0] == 'm' && "storage"@[0] == 's');
    assert("mailbox"@[1] == 'a' && "message"@[1] == 'e');
    assert("annotation-storage"@.len() == 18 && "storage"@.len() == 7);
    assert("annotation-storage"@.len() == 18 && "message"@.len() == 7);
    assert("annotation-storage"@.len() == 18 && "mailbox"@.len() == 7);
}
/// Printing a value and reading it gives the value, and the text is an atom.
fn theorem_res(r: &Resource)
    ensures
        res_reads(res_text(*r), *r),
        atomc(res_text(*r)),
{
    proof {
        lemma_res_distinct();
        reveal_strlit("STORAGE");
        reveal_strlit("MESSAGE");
        reveal_strlit("MAILBOX");
        reveal_strlit("ANNOTATION-STORAGE");
        if let Resource::Other(o) = r { use_type_invariant(o); }
    }
}

//@ file imap-types/src/extensions/sort.rs imap-types/src/core.rs
//@ enum SortAlgorithm
//@ struct SortAlgorithmOther
pub closed spec fn sort_known(l: Seq<char>) -> bool {
    ||| l == "display"@
}
//@ made SortAlgorithmOther from
/// Values for unknown names are not made of a known one.
impl<'a> SortAlgorithmOther<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { atomc(self.0.0@) && !sort_known(lower(self.0.0@)) } }
/// What the text s means.
pub closed spec fn sort_reads(s: Seq<char>, r: SortAlgorithm) -> bool {
    &&& lower(s) == "display"@ ==> r == SortAlgorithm::Display
    &&& !sort_known(lower(s)) ==> (r matches SortAlgorithm::Other(o) && o.0.0@ == s)
}
pub closed spec fn sort_text(r: SortAlgorithm) -> Seq<char> {
    match r {
        SortAlgorithm::Display => "DISPLAY"@,
        SortAlgorithm::Other(o) => o.0.0@,
    }
}
impl<'a> FromSpecImpl<Atom<'a>> for SortAlgorithm<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: Atom<'a>) -> Self { arbitrary() }
}
//@ impl From<Atom<'a>> for SortAlgorithm<'a> {
//@ fn from -> r
    ensures
        sort_reads(chars_of(value), r),
//@ start
    proof { reveal(lits); }
//@ endfn
//@ endimpl
//@ impl AsRef<str> for SortAlgorithmOther<'_> => impl SortAlgorithmOther<'_> {
//@ fn as_ref -> r
//@ as vx_ref
    ensures
        r@ == self.0.0@,
//@ endfn
//@ endimpl
//@ impl Display for SortAlgorithm<'_> {
    spec fn shown(&self) -> Seq<char> { sort_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl
proof fn lemma_sort_distinct()
    ensures
        sort_reads("DISPLAY"@, SortAlgorithm::Display),
{
    reveal(lits);
    lemma_lits();
    reveal_strlit("display");
}
/// Printing a value and reading it gives the value, and the text is an atom.
fn theorem_sort(r: &SortAlgorithm)
    ensures
        sort_reads(sort_text(*r), *r),
        atomc(sort_text(*r)),
{
    proof {
        lemma_sort_distinct();
        reveal_strlit("DISPLAY");
        if let SortAlgorithm::Other(o) = r { use_type_invariant(o); }
    }
}

//@ file imap-types/src/extensions/thread.rs imap-types/src/core.rs
//@ enum ThreadingAlgorithm
//@ struct ThreadingAlgorithmOther
pub closed spec fn thread_known(l: Seq<char>) -> bool {
    ||| l == "orderedsubject"@
    ||| l == "references"@
}
//@ made ThreadingAlgorithmOther from
/// Values for unknown names are not made of a known one.
impl<'a> ThreadingAlgorithmOther<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { atomc(self.0.0@) && !thread_known(lower(self.0.0@)) } }
/// What the text s means.
pub closed spec fn thread_reads(s: Seq<char>, r: ThreadingAlgorithm) -> bool {
    &&& lower(s) == "orderedsubject"@ ==> r == ThreadingAlgorithm::OrderedSubject
    &&& lower(s) == "references"@ ==> r == ThreadingAlgorithm::References
    &&& !thread_known(lower(s)) ==> (r matches ThreadingAlgorithm::Other(o) && o.0.0@ == s)
}
pub closed spec fn thread_text(r: ThreadingAlgorithm) -> Seq<char> {
    match r {
        ThreadingAlgorithm::OrderedSubject => "ORDEREDSUBJECT"@,
        ThreadingAlgorithm::References => "REFERENCES"@,
        ThreadingAlgorithm::Other(o) => o.0.0@,
    }
}
impl<'a> FromSpecImpl<Atom<'a>> for ThreadingAlgorithm<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: Atom<'a>) -> Self { arbitrary() }
}
//@ impl From<Atom<'a>> for ThreadingAlgorithm<'a> {
//@ fn from -> r
    ensures
        thread_reads(chars_of(value), r),
//@ start
    proof { reveal(lits); }
//@ endfn
//@ endimpl
//@ impl AsRef<str> for ThreadingAlgorithmOther<'_> => impl ThreadingAlgorithmOther<'_> {
//@ fn as_ref -> r
//@ as vx_ref
    ensures
        r@ == self.0.0@,
//@ endfn
//@ endimpl
//@ impl Display for ThreadingAlgorithm<'_> {
    spec fn shown(&self) -> Seq<char> { thread_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl
proof fn lemma_thread_distinct()
    ensures
        thread_reads("ORDEREDSUBJECT"@, ThreadingAlgorithm::OrderedSubject),
        thread_reads("REFERENCES"@, ThreadingAlgorithm::References),
{
    reveal(lits);
    lemma_lits();
    reveal_strlit("orderedsubject");
    reveal_strlit("references");
    assert("references"@.len() == 10 && "orderedsubject"@.len() == 14);
}
/// Printing a value and reading it gives the value, and the text is an atom.
fn theorem_thread(r: &ThreadingAlgorithm)
    ensures
        thread_reads(thread_text(*r), *r),
        atomc(thread_text(*r)),
{
    proof {
        lemma_thread_distinct();
        reveal_strlit("ORDEREDSUBJECT");
        reveal_strlit("REFERENCES");
        if let ThreadingAlgorithm::Other(o) = r { use_type_invariant(o); }
    }
}

//@ file imap-types/src/extensions/compress.rs imap-types/src/core.rs
//@ enum CompressionAlgorithm
pub closed spec fn comp_known(l: Seq<char>) -> bool {
    ||| l == "deflate"@
}
/// What the text s means.
pub closed spec fn comp_reads(s: Seq<char>, r: CompressionAlgorithm) -> bool {
    &&& lower(s) == "deflate"@ ==> r == CompressionAlgorithm::Deflate
}
pub closed spec fn comp_text(r: CompressionAlgorithm) -> Seq<char> {
    match r {
        CompressionAlgorithm::Deflate => "DEFLATE"@,
    }
}
impl<'a> TryFromSpecImpl<&'a str> for CompressionAlgorithm {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&str> for CompressionAlgorithm {
//@ fn try_from -> r
    ensures
        r is Ok <==> comp_known(lower(value@)),
        r matches Ok(x) ==> comp_reads(value@, x),
//@ start
    proof { reveal(lits); }
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<Atom<'a>> for CompressionAlgorithm {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Atom<'a>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Atom<'a>> for CompressionAlgorithm {
//@ fn try_from -> r
    ensures
        r is Ok <==> comp_known(lower(chars_of(atom))),
        r matches Ok(x) ==> comp_reads(chars_of(atom), x),
//@ start
    proof { reveal(lits); }
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a [u8]> for CompressionAlgorithm {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u8]) -> Result<Self, ValidationError> { arbitrary() }
}
pub closed spec fn deflate() -> Seq<u8> { seq![0x64u8, 0x65, 0x66, 0x6c, 0x61, 0x74, 0x65] }
//@ impl TryFrom<&[u8]> for CompressionAlgorithm {
//@ fn try_from -> r
//@ wrap to_ascii_lowercase=vx_bytes_lower:own to_ascii_uppercase=vx_bytes_upper:own
    ensures
        r is Ok <==> value@.len() == 7 && forall|i: int| 0 <= i < 7 ==> lower_b(#[trigger] value@[i]) == deflate()[i],
//@ start
    proof { lemma_bytes(value@); }
//@ endfn
//@ endimpl
proof fn lemma_bytes(v: Seq<u8>)
    ensures
        (v.len() == 7 && forall|i: int| 0 <= i < 7 ==> lower_b(#[trigger] v[i]) == deflate()[i]) <==> Seq::new(v.len(), |i: int| lower_b(v[i])) == deflate(),
        (v.len() == 7 && forall|i: int| 0 <= i < 7 ==> lower_b(#[trigger] v[i]) == deflate()[i]) <==> Seq::new(v.len(), |i: int| upper_b(v[i])) == seq![0x44u8, 0x45, 0x46, 0x4c, 0x41, 0x54, 0x45],
{
    assert(deflate().len() == 7);
    assert forall|b: u8, k: int| 0 <= k < 7 implies (#[trigger] lower_b(b) == #[trigger] deflate()[k] <==> upper_b(b) == seq![0x44u8, 0x45, 0x46, 0x4c, 0x41, 0x54, 0x45][k]) by {
        let d = seq![0x44u8, 0x45, 0x46, 0x4c, 0x41, 0x54, 0x45];
        assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6);
        assert(d[0] == 0x44 && d[1] == 0x45 && d[2] == 0x46 && d[3] == 0x4c && d[4] == 0x41 && d[5] == 0x54 && d[6] == 0x45);
        assert(deflate()[0] == 0x64 && deflate()[1] == 0x65 && deflate()[2] == 0x66 && deflate()[3] == 0x6c && deflate()[4] == 0x61 && deflate()[5] == 0x74 && deflate()[6] == 0x65);
    }
    let l = Seq::new(v.len(), |i: int| lower_b(v[i]));
    let u = Seq::new(v.len(), |i: int| upper_b(v[i]));
    let d = seq![0x44u8, 0x45, 0x46, 0x4c, 0x41, 0x54, 0x45];
    if v.len() == 7 && forall|i: int| 0 <= i < 7 ==> lower_b(#[trigger] v[i]) == deflate()[i] {
        assert(l =~= deflate());
        assert forall|i: int| 0 <= i < 7 implies u[i] == d[i] by { assert(lower_b(v[i]) == deflate()[i]); }
        assert(u =~= d);
    }
    if l == deflate() {
        assert forall|i: int| 0 <= i < 7 implies lower_b(#[trigger] v[i]) == deflate()[i] by { assert(l[i] == deflate()[i]); }
    }
    assert(d.len() == 7 && u.len() == v.len());
    if u == d {
        assert forall|i: int| 0 <= i < 7 implies lower_b(#[trigger] v[i]) == deflate()[i] by { assert(u[i] == d[i]); assert(u[i] == upper_b(v[i])); assert(lower_b(v[i]) == deflate()[i] <==> upper_b(v[i]) == d[i]); }
    }
}
//@ impl AsRef<str> for CompressionAlgorithm => impl CompressionAlgorithm {
//@ fn as_ref -> r
//@ as vx_ref
    ensures
        r@ == comp_text(*self),
//@ endfn
//@ endimpl
//@ impl Display for CompressionAlgorithm {
    spec fn shown(&self) -> Seq<char> { comp_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl
proof fn lemma_comp_distinct()
    ensures
        comp_reads("DEFLATE"@, CompressionAlgorithm::Deflate),
{
    reveal(lits);
    lemma_lits();
    reveal_strlit("deflate");
}
/// Printing a value and reading it gives the value, and the text is an atom.
fn theorem_comp(r: &CompressionAlgorithm)
    ensures
        comp_reads(comp_text(*r), *r),
        atomc(comp_text(*r)),
{
    proof {
        lemma_comp_distinct();
        reveal_strlit("DEFLATE");
    }
}

//@ file imap-types/src/extensions/utf8.rs
//@ enum Utf8Kind
pub closed spec fn utf8_text(r: Utf8Kind) -> Seq<char> {
    match r {
        Utf8Kind::Accept => "ACCEPT"@,
        Utf8Kind::Only => "ONLY"@,
    }
}
//@ impl Display for Utf8Kind {
    spec fn shown(&self) -> Seq<char> { utf8_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl

//@ file imap-types/src/extensions/enable.rs imap-types/src/core.rs
//@ enum CapabilityEnable
//@ struct CapabilityEnableOther
pub closed spec fn enable_known(l: Seq<char>) -> bool {
    ||| l == "condstore"@
    ||| l == "metadata"@
    ||| l == "metadata-server"@
    ||| l == "utf8=accept"@
    ||| l == "utf8=only"@
}
//@ made CapabilityEnableOther from
/// Values for unknown names are not made of a known one.
impl<'a> CapabilityEnableOther<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { atomc(self.0.0@) && !enable_known(lower(self.0.0@)) } }
/// What the text s means.
pub closed spec fn enable_reads(s: Seq<char>, r: CapabilityEnable) -> bool {
    &&& lower(s) == "condstore"@ ==> r == CapabilityEnable::CondStore
    &&& lower(s) == "metadata"@ ==> r == CapabilityEnable::Metadata
    &&& lower(s) == "metadata-server"@ ==> r == CapabilityEnable::MetadataServer
    &&& lower(s) == "utf8=accept"@ ==> r == CapabilityEnable::Utf8(Utf8Kind::Accept)
    &&& lower(s) == "utf8=only"@ ==> r == CapabilityEnable::Utf8(Utf8Kind::Only)
    &&& !enable_known(lower(s)) ==> (r matches CapabilityEnable::Other(o) && o.0.0@ == s)
}
pub closed spec fn enable_text(r: CapabilityEnable) -> Seq<char> {
    match r {
        CapabilityEnable::CondStore => "CONDSTORE"@,
        CapabilityEnable::Metadata => "METADATA"@,
        CapabilityEnable::MetadataServer => "METADATA-SERVER"@,
        CapabilityEnable::Other(o) => o.0.0@,
        CapabilityEnable::Utf8(k) => "UTF8="@ + utf8_text(k),
    }
}
impl<'a> FromSpecImpl<Atom<'a>> for CapabilityEnable<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: Atom<'a>) -> Self { arbitrary() }
}
//@ impl From<Atom<'a>> for CapabilityEnable<'a> {
//@ fn from -> r
    ensures
        enable_reads(chars_of(atom), r),
//@ start
    proof { reveal(lits); }
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a str> for CapabilityEnable<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for CapabilityEnable<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atomc(value@),
        r matches Ok(x) ==> enable_reads(value@, x),
//@ endfn
//@ endimpl
//@ impl Display for CapabilityEnable<'_> {
    spec fn shown(&self) -> Seq<char> { enable_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl
proof fn lemma_utf8()
    ensures
        "UTF8="@ + "ACCEPT"@ == "UTF8=ACCEPT"@,
        "UTF8="@ + "ONLY"@ == "UTF8=ONLY"@,
{
    reveal_strlit("UTF8="); reveal_strlit("ACCEPT"); reveal_strlit("ONLY"); reveal_strlit("UTF8=ACCEPT"); reveal_strlit("UTF8=ONLY");
    assert("UTF8="@ + "ACCEPT"@ =~= "UTF8=ACCEPT"@);
    assert("UTF8="@ + "ONLY"@ =~= "UTF8=ONLY"@);
}
proof fn lemma_enable_distinct()
    ensures
        enable_reads("CONDSTORE"@, CapabilityEnable::CondStore),
        enable_reads("METADATA"@, CapabilityEnable::Metadata),
        enable_reads("METADATA-SERVER"@, CapabilityEnable::MetadataServer),
        enable_reads("UTF8=ACCEPT"@, CapabilityEnable::Utf8(Utf8Kind::Accept)),
        enable_reads("UTF8=ONLY"@, CapabilityEnable::Utf8(Utf8Kind::Only)),
{
    reveal(lits);
    lemma_lits();
    reveal_strlit("condstore");
    reveal_strlit("metadata");
    reveal_strlit("metadata-server");
    reveal_strlit("utf8=accept");
    reveal_strlit("utf8=only");
    assert("metadata"@.len() == 8 && "condstore"@.len() == 9);
    assert("metadata-server"@.len() == 15 && "condstore"@.len() == 9);
    assert("metadata-server"@.len() == 15 && "metadata"@.len() == 8);
    assert("utf8=accept"@.len() == 11 && "condstore"@.len() == 9);
    assert("utf8=accept"@.len() == 11 && "metadata"@.len() == 8);
    assert("utf8=accept"@.len() == 11 && "metadata-server"@.len() == 15);
    assert("utf8=only"@[0] == 'u' && "condstore"@[0] == 'c');
    assert("utf8=only"@.len() == 9 && "metadata"@.len() == 8);
    assert("utf8=only"@.len() == 9 && "metadata-server"@.len() == 15);
    assert("utf8=only"@.len() == 9 && "utf8=accept"@.len() == 11);
}
/// Printing a value and reading it gives the value, and the text is an atom.
fn theorem_enable(r: &CapabilityEnable)
    ensures
        enable_reads(enable_text(*r), *r),
        atomc(enable_text(*r)),
{
    proof {
        lemma_enable_distinct(); lemma_utf8();
        reveal_strlit("CONDSTORE");
        reveal_strlit("METADATA");
        reveal_strlit("METADATA-SERVER");
        reveal_strlit("UTF8=ACCEPT");
        reveal_strlit("UTF8=ONLY");
        if let CapabilityEnable::Other(o) = r { use_type_invariant(o); }
    }
}

//@ file imap-types/src/response.rs imap-types/src/core.rs
//@ enum Capability
//@ struct CapabilityOther
pub closed spec fn cap_plain(l: Seq<char>) -> bool {
    ||| l == "imap4rev1"@
    ||| l == "logindisabled"@
    ||| l == "starttls"@
    ||| l == "idle"@
    ||| l == "mailbox-referrals"@
    ||| l == "login-referrals"@
    ||| l == "sasl-ir"@
    ||| l == "enable"@
    ||| l == "quota"@
    ||| l == "quotaset"@
    ||| l == "literal+"@
    ||| l == "literal-"@
    ||| l == "move"@
    ||| l == "id"@
    ||| l == "sort"@
    ||| l == "metadata"@
    ||| l == "metadata-server"@
    ||| l == "binary"@
    ||| l == "unselect"@
    ||| l == "condstore"@
    ||| l == "qresync"@
    ||| l == "uidplus"@
    ||| l == "namespace"@
    ||| l == "utf8=accept"@
    ||| l == "utf8=only"@
}
/// The name before the first equals sign and what follows it.
pub closed spec fn equals(s: Seq<char>, i: int) -> bool { 0 <= i < s.len() && s[i] == '=' && forall|k: int| 0 <= k < i ==> s[k] != '=' }
pub closed spec fn argued(a: Seq<char>, b: Seq<char>) -> bool {
    ||| a == "auth"@ && b.len() > 0
    ||| a == "compress"@ && lower(b) == "deflate"@
    ||| a == "quota"@ && b.len() > 4 && lower(b.take(4)) == "res-"@
    ||| a == "sort"@ && b.len() > 0
    ||| a == "thread"@ && b.len() > 0
}
pub closed spec fn cap_known(s: Seq<char>) -> bool { cap_plain(lower(s)) || exists|i: int| #[trigger] equals(s, i) && argued(lower(s.take(i)), s.skip(i + 1)) }
pub closed spec fn cap_argued(a: Seq<char>, b: Seq<char>, r: Capability) -> bool {
    &&& a == "auth"@ && b.len() > 0 ==> (r matches Capability::Auth(x) && auth_reads(b, x))
    &&& a == "compress"@ && lower(b) == "deflate"@ ==> (r == (Capability::Compress { algorithm: CompressionAlgorithm::Deflate }))
    &&& a == "quota"@ && b.len() > 4 && lower(b.take(4)) == "res-"@ ==> (r matches Capability::QuotaRes(x) && res_reads(b.skip(4), x))
    &&& a == "sort"@ && b.len() > 0 ==> (r matches Capability::Sort(Some(x)) && sort_reads(b, x))
    &&& a == "thread"@ && b.len() > 0 ==> (r matches Capability::Thread(x) && thread_reads(b, x))
}
/// What the text s means.
pub closed spec fn cap_reads(s: Seq<char>, r: Capability) -> bool {
    &&& lower(s) == "imap4rev1"@ ==> r == Capability::Imap4Rev1
    &&& lower(s) == "logindisabled"@ ==> r == Capability::LoginDisabled
    &&& lower(s) == "starttls"@ ==> r == Capability::StartTls
    &&& lower(s) == "idle"@ ==> r == Capability::Idle
    &&& lower(s) == "mailbox-referrals"@ ==> r == Capability::MailboxReferrals
    &&& lower(s) == "login-referrals"@ ==> r == Capability::LoginReferrals
    &&& lower(s) == "sasl-ir"@ ==> r == Capability::SaslIr
    &&& lower(s) == "enable"@ ==> r == Capability::Enable
    &&& lower(s) == "quota"@ ==> r == Capability::Quota
    &&& lower(s) == "quotaset"@ ==> r == Capability::QuotaSet
    &&& lower(s) == "literal+"@ ==> r == Capability::LiteralPlus
    &&& lower(s) == "literal-"@ ==> r == Capability::LiteralMinus
    &&& lower(s) == "move"@ ==> r == Capability::Move
    &&& lower(s) == "id"@ ==> r == Capability::Id
    &&& lower(s) == "sort"@ ==> r == Capability::Sort(None)
    &&& lower(s) == "metadata"@ ==> r == Capability::Metadata
    &&& lower(s) == "metadata-server"@ ==> r == Capability::MetadataServer
    &&& lower(s) == "binary"@ ==> r == Capability::Binary
    &&& lower(s) == "unselect"@ ==> r == Capability::Unselect
    &&& lower(s) == "condstore"@ ==> r == Capability::CondStore
    &&& lower(s) == "qresync"@ ==> r == Capability::QResync
    &&& lower(s) == "uidplus"@ ==> r == Capability::UidPlus
    &&& lower(s) == "namespace"@ ==> r == Capability::Namespace
    &&& lower(s) == "utf8=accept"@ ==> r == Capability::Utf8(Utf8Kind::Accept)
    &&& lower(s) == "utf8=only"@ ==> r == Capability::Utf8(Utf8Kind::Only)
    &&& !cap_plain(lower(s)) ==> forall|i: int| #[trigger] equals(s, i) ==> cap_argued(lower(s.take(i)), s.skip(i + 1), r)
    &&& !cap_known(s) ==> (r matches Capability::Other(o) && o.0.0@ == s)
}
//@ made CapabilityOther from
/// Values for unknown names are not made of a known one.
impl<'a> CapabilityOther<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { atomc(self.0.0@) && !cap_known(self.0.0@) } }
pub closed spec fn cap_text(r: Capability) -> Seq<char> {
    match r {
        Capability::Imap4Rev1 => "IMAP4REV1"@,
        Capability::LoginDisabled => "LOGINDISABLED"@,
        Capability::StartTls => "STARTTLS"@,
        Capability::Idle => "IDLE"@,
        Capability::MailboxReferrals => "MAILBOX-REFERRALS"@,
        Capability::LoginReferrals => "LOGIN-REFERRALS"@,
        Capability::SaslIr => "SASL-IR"@,
        Capability::Enable => "ENABLE"@,
        Capability::Quota => "QUOTA"@,
        Capability::QuotaSet => "QUOTASET"@,
        Capability::LiteralPlus => "LITERAL+"@,
        Capability::LiteralMinus => "LITERAL-"@,
        Capability::Move => "MOVE"@,
        Capability::Id => "ID"@,
        Capability::Metadata => "METADATA"@,
        Capability::MetadataServer => "METADATA-SERVER"@,
        Capability::Binary => "BINARY"@,
        Capability::Unselect => "UNSELECT"@,
        Capability::CondStore => "CONDSTORE"@,
        Capability::QResync => "QRESYNC"@,
        Capability::UidPlus => "UIDPLUS"@,
        Capability::Namespace => "NAMESPACE"@,
        Capability::Other(o) => o.0.0@,
        Capability::Sort(None) => "SORT"@,
        Capability::Utf8(k) => "UTF8="@ + utf8_text(k),
        Capability::Auth(x) => "AUTH="@ + auth_text(x),
        Capability::Compress { algorithm } => "COMPRESS="@ + comp_text(algorithm),
        Capability::QuotaRes(x) => "QUOTA=RES-"@ + res_text(x),
        Capability::Sort(Some(x)) => "SORT="@ + sort_text(x),
        Capability::Thread(x) => "THREAD="@ + thread_text(x),
    }
}
//@ impl Display for Capability<'_> {
    spec fn shown(&self) -> Seq<char> { cap_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl
/// What splitting an atom at its first equals sign gives.
proof fn lemma_equals(s: Seq<char>)
    requires
        atomc(s),
    ensures
        forall|i: int| #[trigger] at(s, seq!['='], i) <==> 0 <= i < s.len() && s[i] == '=',
        forall|i: int| #[trigger] first_at(s, seq!['='], i) <==> equals(s, i),
        forall|i: int, k: int| #[trigger] equals(s, i) && #[trigger] equals(s, k) ==> i == k,
        forall|i: int| #[trigger] equals(s, i) ==> parts(s, i) && at(s, seq!['='], i),
{
    assert forall|i: int| #[trigger] at(s, seq!['='], i) <==> 0 <= i < s.len() && s[i] == '=' by { lemma_char(s, '=', i); }
    assert forall|i: int| #[trigger] first_at(s, seq!['='], i) implies equals(s, i) by {
        assert forall|k: int| 0 <= k < i implies s[k] != '=' by { assert(!at(s, seq!['='], k)); }
    }
    assert forall|i: int, k: int| #[trigger] equals(s, i) && #[trigger] equals(s, k) implies i == k by {
        if i < k { assert(s[i] != '='); }
        if k < i { assert(s[k] != '='); }
    }
    assert forall|i: int| #[trigger] equals(s, i) implies parts(s, i) by {
        lemma_part(s, i);
        lemma_part(s, i + 1);
        let b = s.skip(i + 1);
        if b.len() > 0 {
            lemma_part(b, if b.len() < 4 { b.len() as int } else { 4 });
        }
    }
}
pub closed spec fn parts(s: Seq<char>, i: int) -> bool {
    let b = s.skip(i + 1);
    &&& is_ascii_chars(b)
    &&& b.len() > 0 ==> atomc(b)
    &&& b.len() > 4 ==> atomc(b.skip(4))
}
//@ fn split_once_cow -> r
    ensures
        cut(cow@, pattern@, r),
//@ endfn
impl<'a> FromSpecImpl<Atom<'a>> for Capability<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: Atom<'a>) -> Self { arbitrary() }
}
//@ impl From<Atom<'a>> for Capability<'a> {
//@ fn from -> r
    ensures
        cap_reads(chars_of(atom), r),
//@ start
    proof { use_type_invariant(&atom); lemma_equals(atom.0@); lemma_lits(); reveal(lits); }
//@ attr #[verifier::rlimit(100)]
//@ attr #[verifier::spinoff_prover]
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a [u8]> for Capability<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u8]) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a [u8]> for Capability<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atom(value@),
        r matches Ok(x) ==> exists|s: Seq<char>| #[trigger] encode_utf8(s) == value@ && cap_reads(s, x),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<Vec<u8>> for Capability<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<u8>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Vec<u8>> for Capability<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atom(value@),
        r matches Ok(x) ==> exists|s: Seq<char>| #[trigger] encode_utf8(s) == value@ && cap_reads(s, x),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<&'a str> for Capability<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<&'a str> for Capability<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atomc(value@),
        r matches Ok(x) ==> cap_reads(value@, x),
//@ endfn
//@ endimpl
impl<'a> TryFromSpecImpl<String> for Capability<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: String) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<String> for Capability<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> atomc(value@),
        r matches Ok(x) ==> cap_reads(value@, x),
//@ endfn
//@ endimpl
/// AUTH= and an argument.
proof fn lemma_arg_auth(t: Seq<char>)
    requires
        atomc(t),
    ensures
        ({
            let s = "AUTH="@ + t;
            &&& atomc(s)
            &&& equals(s, 4)
            &&& forall|i: int| #[trigger] equals(s, i) ==> i == 4
            &&& !cap_plain(lower(s))
            &&& lower(s.take(4)) == "auth"@
            &&& s.skip(5) == t
            &&& true
        }),
{
    reveal(lits);
    lemma_lits();
    reveal_strlit("AUTH=");
    reveal_strlit("AUTH");
    reveal_strlit("");
    let s = "AUTH="@ + t;
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k] as u32) < 0x80 && atom_char(s[k] as u8) by {
        if k >= 5 { assert(s[k] == t[k - 5]); }
    }
    assert(s[4] == '=');
    assert(s.take(4) =~= "AUTH"@);
    assert(s.skip(5) =~= t);
    
    assert forall|i: int| #[trigger] equals(s, i) implies i == 4 by {
        if i > 4 { assert(s[4] != '='); }
    }
    let l = lower(s);
    assert(l[4] == '=' && l[0] == 'a');
    reveal_strlit("imap4rev1"); if l == "imap4rev1"@ { assert("imap4rev1"@[4] == '4' && "imap4rev1"@[0] == 'i'); }
    reveal_strlit("logindisabled"); if l == "logindisabled"@ { assert("logindisabled"@[4] == 'n' && "logindisabled"@[0] == 'l'); }
    reveal_strlit("starttls"); if l == "starttls"@ { assert("starttls"@[4] == 't' && "starttls"@[0] == 's'); }
    reveal_strlit("idle"); assert("idle"@.len() == 4);
    reveal_strlit("mailbox-referrals"); if l == "mailbox-referrals"@ { assert("mailbox-referrals"@[4] == 'b' && "mailbox-referrals"@[0] == 'm'); }
    reveal_strlit("login-referrals"); if l == "login-referrals"@ { assert("login-referrals"@[4] == 'n' && "login-referrals"@[0] == 'l'); }
    reveal_strlit("sasl-ir"); if l == "sasl-ir"@ { assert("sasl-ir"@[4] == '-' && "sasl-ir"@[0] == 's'); }
    reveal_strlit("enable"); if l == "enable"@ { assert("enable"@[4] == 'l' && "enable"@[0] == 'e'); }
    reveal_strlit("quota"); if l == "quota"@ { assert("quota"@[4] == 'a' && "quota"@[0] == 'q'); }
    reveal_strlit("quotaset"); if l == "quotaset"@ { assert("quotaset"@[4] == 'a' && "quotaset"@[0] == 'q'); }
    reveal_strlit("literal+"); if l == "literal+"@ { assert("literal+"@[4] == 'r' && "literal+"@[0] == 'l'); }
    reveal_strlit("literal-"); if l == "literal-"@ { assert("literal-"@[4] == 'r' && "literal-"@[0] == 'l'); }
    reveal_strlit("move"); assert("move"@.len() == 4);
    reveal_strlit("id"); assert("id"@.len() == 2);
    reveal_strlit("sort"); assert("sort"@.len() == 4);
    reveal_strlit("metadata"); if l == "metadata"@ { assert("metadata"@[4] == 'd' && "metadata"@[0] == 'm'); }
    reveal_strlit("metadata-server"); if l == "metadata-server"@ { assert("metadata-server"@[4] == 'd' && "metadata-server"@[0] == 'm'); }
    reveal_strlit("binary"); if l == "binary"@ { assert("binary"@[4] == 'r' && "binary"@[0] == 'b'); }
    reveal_strlit("unselect"); if l == "unselect"@ { assert("unselect"@[4] == 'l' && "unselect"@[0] == 'u'); }
    reveal_strlit("condstore"); if l == "condstore"@ { assert("condstore"@[4] == 's' && "condstore"@[0] == 'c'); }
    reveal_strlit("qresync"); if l == "qresync"@ { assert("qresync"@[4] == 'y' && "qresync"@[0] == 'q'); }
    reveal_strlit("uidplus"); if l == "uidplus"@ { assert("uidplus"@[4] == 'l' && "uidplus"@[0] == 'u'); }
    reveal_strlit("namespace"); if l == "namespace"@ { assert("namespace"@[4] == 's' && "namespace"@[0] == 'n'); }
    reveal_strlit("utf8=accept"); if l == "utf8=accept"@ { assert("utf8=accept"@[4] == '=' && "utf8=accept"@[0] == 'u'); }
    reveal_strlit("utf8=only"); if l == "utf8=only"@ { assert("utf8=only"@[4] == '=' && "utf8=only"@[0] == 'u'); }
}
/// COMPRESS= and an argument.
proof fn lemma_arg_compress(t: Seq<char>)
    requires
        atomc(t),
    ensures
        ({
            let s = "COMPRESS="@ + t;
            &&& atomc(s)
            &&& equals(s, 8)
            &&& forall|i: int| #[trigger] equals(s, i) ==> i == 8
            &&& !cap_plain(lower(s))
            &&& lower(s.take(8)) == "compress"@
            &&& s.skip(9) == t
            &&& true
        }),
{
    reveal(lits);
    lemma_lits();
    reveal_strlit("COMPRESS=");
    reveal_strlit("COMPRESS");
    reveal_strlit("");
    let s = "COMPRESS="@ + t;
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k] as u32) < 0x80 && atom_char(s[k] as u8) by {
        if k >= 9 { assert(s[k] == t[k - 9]); }
    }
    assert(s[8] == '=');
    assert(s.take(8) =~= "COMPRESS"@);
    assert(s.skip(9) =~= t);
    
    assert forall|i: int| #[trigger] equals(s, i) implies i == 8 by {
        if i > 8 { assert(s[8] != '='); }
    }
    let l = lower(s);
    assert(l[8] == '=' && l[0] == 'c');
    reveal_strlit("imap4rev1"); if l == "imap4rev1"@ { assert("imap4rev1"@[8] == '1' && "imap4rev1"@[0] == 'i'); }
    reveal_strlit("logindisabled"); if l == "logindisabled"@ { assert("logindisabled"@[8] == 'a' && "logindisabled"@[0] == 'l'); }
    reveal_strlit("starttls"); assert("starttls"@.len() == 8);
    reveal_strlit("idle"); assert("idle"@.len() == 4);
    reveal_strlit("mailbox-referrals"); if l == "mailbox-referrals"@ { assert("mailbox-referrals"@[8] == 'r' && "mailbox-referrals"@[0] == 'm'); }
    reveal_strlit("login-referrals"); if l == "login-referrals"@ { assert("login-referrals"@[8] == 'f' && "login-referrals"@[0] == 'l'); }
    reveal_strlit("sasl-ir"); assert("sasl-ir"@.len() == 7);
    reveal_strlit("enable"); assert("enable"@.len() == 6);
    reveal_strlit("quota"); assert("quota"@.len() == 5);
    reveal_strlit("quotaset"); assert("quotaset"@.len() == 8);
    reveal_strlit("literal+"); assert("literal+"@.len() == 8);
    reveal_strlit("literal-"); assert("literal-"@.len() == 8);
    reveal_strlit("move"); assert("move"@.len() == 4);
    reveal_strlit("id"); assert("id"@.len() == 2);
    reveal_strlit("sort"); assert("sort"@.len() == 4);
    reveal_strlit("metadata"); assert("metadata"@.len() == 8);
    reveal_strlit("metadata-server"); if l == "metadata-server"@ { assert("metadata-server"@[8] == '-' && "metadata-server"@[0] == 'm'); }
    reveal_strlit("binary"); assert("binary"@.len() == 6);
    reveal_strlit("unselect"); assert("unselect"@.len() == 8);
    reveal_strlit("condstore"); if l == "condstore"@ { assert("condstore"@[8] == 'e' && "condstore"@[0] == 'c'); }
    reveal_strlit("qresync"); assert("qresync"@.len() == 7);
    reveal_strlit("uidplus"); assert("uidplus"@.len() == 7);
    reveal_strlit("namespace"); if l == "namespace"@ { assert("namespace"@[8] == 'e' && "namespace"@[0] == 'n'); }
    reveal_strlit("utf8=accept"); if l == "utf8=accept"@ { assert("utf8=accept"@[8] == 'e' && "utf8=accept"@[0] == 'u'); }
    reveal_strlit("utf8=only"); if l == "utf8=only"@ { assert("utf8=only"@[8] == 'y' && "utf8=only"@[0] == 'u'); }
}
/// QUOTA=RES- and an argument.
proof fn lemma_arg_quota(t: Seq<char>)
    requires
        atomc(t),
    ensures
        ({
            let s = "QUOTA=RES-"@ + t;
            &&& atomc(s)
            &&& equals(s, 5)
            &&& forall|i: int| #[trigger] equals(s, i) ==> i == 5
            &&& !cap_plain(lower(s))
            &&& lower(s.take(5)) == "quota"@
            &&& s.skip(6) == "RES-"@ + t
            &&& lower(s.skip(6).take(4)) == "res-"@ && s.skip(6).skip(4) == t && s.skip(6).len() > 4
        }),
{
    reveal(lits);
    lemma_lits();
    reveal_strlit("QUOTA=RES-");
    reveal_strlit("QUOTA");
    reveal_strlit("RES-");
    let s = "QUOTA=RES-"@ + t;
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k] as u32) < 0x80 && atom_char(s[k] as u8) by {
        if k >= 10 { assert(s[k] == t[k - 10]); }
    }
    assert(s[5] == '=');
    assert(s.take(5) =~= "QUOTA"@);
    assert(s.skip(6) =~= "RES-"@ + t);
    assert(s.skip(6).take(4) =~= "RES-"@); assert(s.skip(6).skip(4) =~= t);
    assert forall|i: int| #[trigger] equals(s, i) implies i == 5 by {
        if i > 5 { assert(s[5] != '='); }
    }
    let l = lower(s);
    assert(l[5] == '=' && l[0] == 'q');
    reveal_strlit("imap4rev1"); if l == "imap4rev1"@ { assert("imap4rev1"@[5] == 'r' && "imap4rev1"@[0] == 'i'); }
    reveal_strlit("logindisabled"); if l == "logindisabled"@ { assert("logindisabled"@[5] == 'd' && "logindisabled"@[0] == 'l'); }
    reveal_strlit("starttls"); if l == "starttls"@ { assert("starttls"@[5] == 't' && "starttls"@[0] == 's'); }
    reveal_strlit("idle"); assert("idle"@.len() == 4);
    reveal_strlit("mailbox-referrals"); if l == "mailbox-referrals"@ { assert("mailbox-referrals"@[5] == 'o' && "mailbox-referrals"@[0] == 'm'); }
    reveal_strlit("login-referrals"); if l == "login-referrals"@ { assert("login-referrals"@[5] == '-' && "login-referrals"@[0] == 'l'); }
    reveal_strlit("sasl-ir"); if l == "sasl-ir"@ { assert("sasl-ir"@[5] == 'i' && "sasl-ir"@[0] == 's'); }
    reveal_strlit("enable"); if l == "enable"@ { assert("enable"@[5] == 'e' && "enable"@[0] == 'e'); }
    reveal_strlit("quota"); assert("quota"@.len() == 5);
    reveal_strlit("quotaset"); if l == "quotaset"@ { assert("quotaset"@[5] == 's' && "quotaset"@[0] == 'q'); }
    reveal_strlit("literal+"); if l == "literal+"@ { assert("literal+"@[5] == 'a' && "literal+"@[0] == 'l'); }
    reveal_strlit("literal-"); if l == "literal-"@ { assert("literal-"@[5] == 'a' && "literal-"@[0] == 'l'); }
    reveal_strlit("move"); assert("move"@.len() == 4);
    reveal_strlit("id"); assert("id"@.len() == 2);
    reveal_strlit("sort"); assert("sort"@.len() == 4);
    reveal_strlit("metadata"); if l == "metadata"@ { assert("metadata"@[5] == 'a' && "metadata"@[0] == 'm'); }
    reveal_strlit("metadata-server"); if l == "metadata-server"@ { assert("metadata-server"@[5] == 'a' && "metadata-server"@[0] == 'm'); }
    reveal_strlit("binary"); if l == "binary"@ { assert("binary"@[5] == 'y' && "binary"@[0] == 'b'); }
    reveal_strlit("unselect"); if l == "unselect"@ { assert("unselect"@[5] == 'e' && "unselect"@[0] == 'u'); }
    reveal_strlit("condstore"); if l == "condstore"@ { assert("condstore"@[5] == 't' && "condstore"@[0] == 'c'); }
    reveal_strlit("qresync"); if l == "qresync"@ { assert("qresync"@[5] == 'n' && "qresync"@[0] == 'q'); }
    reveal_strlit("uidplus"); if l == "uidplus"@ { assert("uidplus"@[5] == 'u' && "uidplus"@[0] == 'u'); }
    reveal_strlit("namespace"); if l == "namespace"@ { assert("namespace"@[5] == 'p' && "namespace"@[0] == 'n'); }
    reveal_strlit("utf8=accept"); if l == "utf8=accept"@ { assert("utf8=accept"@[5] == 'a' && "utf8=accept"@[0] == 'u'); }
    reveal_strlit("utf8=only"); if l == "utf8=only"@ { assert("utf8=only"@[5] == 'o' && "utf8=only"@[0] == 'u'); }
}
/// SORT= and an argument.
proof fn lemma_arg_sort(t: Seq<char>)
    requires
        atomc(t),
    ensures
        ({
            let s = "SORT="@ + t;
            &&& atomc(s)
            &&& equals(s, 4)
            &&& forall|i: int| #[trigger] equals(s, i) ==> i == 4
            &&& !cap_plain(lower(s))
            &&& lower(s.take(4)) == "sort"@
            &&& s.skip(5) == t
            &&& true
        }),
{
    reveal(lits);
    lemma_lits();
    reveal_strlit("SORT=");
    reveal_strlit("SORT");
    reveal_strlit("");
    let s = "SORT="@ + t;
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k] as u32) < 0x80 && atom_char(s[k] as u8) by {
        if k >= 5 { assert(s[k] == t[k - 5]); }
    }
    assert(s[4] == '=');
    assert(s.take(4) =~= "SORT"@);
    assert(s.skip(5) =~= t);
    
    assert forall|i: int| #[trigger] equals(s, i) implies i == 4 by {
        if i > 4 { assert(s[4] != '='); }
    }
    let l = lower(s);
    assert(l[4] == '=' && l[0] == 's');
    reveal_strlit("imap4rev1"); if l == "imap4rev1"@ { assert("imap4rev1"@[4] == '4' && "imap4rev1"@[0] == 'i'); }
    reveal_strlit("logindisabled"); if l == "logindisabled"@ { assert("logindisabled"@[4] == 'n' && "logindisabled"@[0] == 'l'); }
    reveal_strlit("starttls"); if l == "starttls"@ { assert("starttls"@[4] == 't' && "starttls"@[0] == 's'); }
    reveal_strlit("idle"); assert("idle"@.len() == 4);
    reveal_strlit("mailbox-referrals"); if l == "mailbox-referrals"@ { assert("mailbox-referrals"@[4] == 'b' && "mailbox-referrals"@[0] == 'm'); }
    reveal_strlit("login-referrals"); if l == "login-referrals"@ { assert("login-referrals"@[4] == 'n' && "login-referrals"@[0] == 'l'); }
    reveal_strlit("sasl-ir"); if l == "sasl-ir"@ { assert("sasl-ir"@[4] == '-' && "sasl-ir"@[0] == 's'); }
    reveal_strlit("enable"); if l == "enable"@ { assert("enable"@[4] == 'l' && "enable"@[0] == 'e'); }
    reveal_strlit("quota"); if l == "quota"@ { assert("quota"@[4] == 'a' && "quota"@[0] == 'q'); }
    reveal_strlit("quotaset"); if l == "quotaset"@ { assert("quotaset"@[4] == 'a' && "quotaset"@[0] == 'q'); }
    reveal_strlit("literal+"); if l == "literal+"@ { assert("literal+"@[4] == 'r' && "literal+"@[0] == 'l'); }
    reveal_strlit("literal-"); if l == "literal-"@ { assert("literal-"@[4] == 'r' && "literal-"@[0] == 'l'); }
    reveal_strlit("move"); assert("move"@.len() == 4);
    reveal_strlit("id"); assert("id"@.len() == 2);
    reveal_strlit("sort"); assert("sort"@.len() == 4);
    reveal_strlit("metadata"); if l == "metadata"@ { assert("metadata"@[4] == 'd' && "metadata"@[0] == 'm'); }
    reveal_strlit("metadata-server"); if l == "metadata-server"@ { assert("metadata-server"@[4] == 'd' && "metadata-server"@[0] == 'm'); }
    reveal_strlit("binary"); if l == "binary"@ { assert("binary"@[4] == 'r' && "binary"@[0] == 'b'); }
    reveal_strlit("unselect"); if l == "unselect"@ { assert("unselect"@[4] == 'l' && "unselect"@[0] == 'u'); }
    reveal_strlit("condstore"); if l == "condstore"@ { assert("condstore"@[4] == 's' && "condstore"@[0] == 'c'); }
    reveal_strlit("qresync"); if l == "qresync"@ { assert("qresync"@[4] == 'y' && "qresync"@[0] == 'q'); }
    reveal_strlit("uidplus"); if l == "uidplus"@ { assert("uidplus"@[4] == 'l' && "uidplus"@[0] == 'u'); }
    reveal_strlit("namespace"); if l == "namespace"@ { assert("namespace"@[4] == 's' && "namespace"@[0] == 'n'); }
    reveal_strlit("utf8=accept"); if l == "utf8=accept"@ { assert("utf8=accept"@[4] == '=' && "utf8=accept"@[0] == 'u'); }
    reveal_strlit("utf8=only"); if l == "utf8=only"@ { assert("utf8=only"@[4] == '=' && "utf8=only"@[0] == 'u'); }
}
/// THREAD= and an argument.
proof fn lemma_arg_thread(t: Seq<char>)
    requires
        atomc(t),
    ensures
        ({
            let s = "THREAD="@ + t;
            &&& atomc(s)
            &&& equals(s, 6)
            &&& forall|i: int| #[trigger] equals(s, i) ==> i == 6
            &&& !cap_plain(lower(s))
            &&& lower(s.take(6)) == "thread"@
            &&& s.skip(7) == t
            &&& true
        }),
{
    reveal(lits);
    lemma_lits();
    reveal_strlit("THREAD=");
    reveal_strlit("THREAD");
    reveal_strlit("");
    let s = "THREAD="@ + t;
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k] as u32) < 0x80 && atom_char(s[k] as u8) by {
        if k >= 7 { assert(s[k] == t[k - 7]); }
    }
    assert(s[6] == '=');
    assert(s.take(6) =~= "THREAD"@);
    assert(s.skip(7) =~= t);
    
    assert forall|i: int| #[trigger] equals(s, i) implies i == 6 by {
        if i > 6 { assert(s[6] != '='); }
    }
    let l = lower(s);
    assert(l[6] == '=' && l[0] == 't');
    reveal_strlit("imap4rev1"); if l == "imap4rev1"@ { assert("imap4rev1"@[6] == 'e' && "imap4rev1"@[0] == 'i'); }
    reveal_strlit("logindisabled"); if l == "logindisabled"@ { assert("logindisabled"@[6] == 'i' && "logindisabled"@[0] == 'l'); }
    reveal_strlit("starttls"); if l == "starttls"@ { assert("starttls"@[6] == 'l' && "starttls"@[0] == 's'); }
    reveal_strlit("idle"); assert("idle"@.len() == 4);
    reveal_strlit("mailbox-referrals"); if l == "mailbox-referrals"@ { assert("mailbox-referrals"@[6] == 'x' && "mailbox-referrals"@[0] == 'm'); }
    reveal_strlit("login-referrals"); if l == "login-referrals"@ { assert("login-referrals"@[6] == 'r' && "login-referrals"@[0] == 'l'); }
    reveal_strlit("sasl-ir"); if l == "sasl-ir"@ { assert("sasl-ir"@[6] == 'r' && "sasl-ir"@[0] == 's'); }
    reveal_strlit("enable"); assert("enable"@.len() == 6);
    reveal_strlit("quota"); assert("quota"@.len() == 5);
    reveal_strlit("quotaset"); if l == "quotaset"@ { assert("quotaset"@[6] == 'e' && "quotaset"@[0] == 'q'); }
    reveal_strlit("literal+"); if l == "literal+"@ { assert("literal+"@[6] == 'l' && "literal+"@[0] == 'l'); }
    reveal_strlit("literal-"); if l == "literal-"@ { assert("literal-"@[6] == 'l' && "literal-"@[0] == 'l'); }
    reveal_strlit("move"); assert("move"@.len() == 4);
    reveal_strlit("id"); assert("id"@.len() == 2);
    reveal_strlit("sort"); assert("sort"@.len() == 4);
    reveal_strlit("metadata"); if l == "metadata"@ { assert("metadata"@[6] == 't' && "metadata"@[0] == 'm'); }
    reveal_strlit("metadata-server"); if l == "metadata-server"@ { assert("metadata-server"@[6] == 't' && "metadata-server"@[0] == 'm'); }
    reveal_strlit("binary"); assert("binary"@.len() == 6);
    reveal_strlit("unselect"); if l == "unselect"@ { assert("unselect"@[6] == 'c' && "unselect"@[0] == 'u'); }
    reveal_strlit("condstore"); if l == "condstore"@ { assert("condstore"@[6] == 'o' && "condstore"@[0] == 'c'); }
    reveal_strlit("qresync"); if l == "qresync"@ { assert("qresync"@[6] == 'c' && "qresync"@[0] == 'q'); }
    reveal_strlit("uidplus"); if l == "uidplus"@ { assert("uidplus"@[6] == 's' && "uidplus"@[0] == 'u'); }
    reveal_strlit("namespace"); if l == "namespace"@ { assert("namespace"@[6] == 'a' && "namespace"@[0] == 'n'); }
    reveal_strlit("utf8=accept"); if l == "utf8=accept"@ { assert("utf8=accept"@[6] == 'c' && "utf8=accept"@[0] == 'u'); }
    reveal_strlit("utf8=only"); if l == "utf8=only"@ { assert("utf8=only"@[6] == 'n' && "utf8=only"@[0] == 'u'); }
}
proof fn cap_auth(x: AuthMechanism)
    requires
        auth_reads(auth_text(x), x),
        atomc(auth_text(x)),
    ensures
        cap_reads(cap_text(Capability::Auth(x)), Capability::Auth(x)),
        atomc(cap_text(Capability::Auth(x))),
{
    lemma_arg_auth(auth_text(x));
    let s = cap_text(Capability::Auth(x));
    
    assert(argued(lower(s.take(4)), s.skip(5)));
    assert(cap_known(s));
    assert forall|i: int| #[trigger] equals(s, i) implies cap_argued(lower(s.take(i)), s.skip(i + 1), Capability::Auth(x)) by {
        assert(i == 4);
    }
}
proof fn cap_compress(x: CompressionAlgorithm)
    requires
        comp_reads(comp_text(x), x),
        atomc(comp_text(x)),
    ensures
        cap_reads(cap_text(Capability::Compress { algorithm: x }), Capability::Compress { algorithm: x }),
        atomc(cap_text(Capability::Compress { algorithm: x })),
{
    lemma_arg_compress(comp_text(x));
    let s = cap_text(Capability::Compress { algorithm: x });
    reveal(lits); lemma_lits();
    assert(argued(lower(s.take(8)), s.skip(9)));
    assert(cap_known(s));
    assert forall|i: int| #[trigger] equals(s, i) implies cap_argued(lower(s.take(i)), s.skip(i + 1), Capability::Compress { algorithm: x }) by {
        assert(i == 8);
    }
}
proof fn cap_quota(x: Resource)
    requires
        res_reads(res_text(x), x),
        atomc(res_text(x)),
    ensures
        cap_reads(cap_text(Capability::QuotaRes(x)), Capability::QuotaRes(x)),
        atomc(cap_text(Capability::QuotaRes(x))),
{
    lemma_arg_quota(res_text(x));
    let s = cap_text(Capability::QuotaRes(x));
    
    assert(argued(lower(s.take(5)), s.skip(6)));
    assert(cap_known(s));
    assert forall|i: int| #[trigger] equals(s, i) implies cap_argued(lower(s.take(i)), s.skip(i + 1), Capability::QuotaRes(x)) by {
        assert(i == 5);
    }
}
proof fn cap_sort(x: SortAlgorithm)
    requires
        sort_reads(sort_text(x), x),
        atomc(sort_text(x)),
    ensures
        cap_reads(cap_text(Capability::Sort(Some(x))), Capability::Sort(Some(x))),
        atomc(cap_text(Capability::Sort(Some(x)))),
{
    lemma_arg_sort(sort_text(x));
    let s = cap_text(Capability::Sort(Some(x)));
    
    assert(argued(lower(s.take(4)), s.skip(5)));
    assert(cap_known(s));
    assert forall|i: int| #[trigger] equals(s, i) implies cap_argued(lower(s.take(i)), s.skip(i + 1), Capability::Sort(Some(x))) by {
        assert(i == 4);
    }
}
proof fn cap_thread(x: ThreadingAlgorithm)
    requires
        thread_reads(thread_text(x), x),
        atomc(thread_text(x)),
    ensures
        cap_reads(cap_text(Capability::Thread(x)), Capability::Thread(x)),
        atomc(cap_text(Capability::Thread(x))),
{
    lemma_arg_thread(thread_text(x));
    let s = cap_text(Capability::Thread(x));
    
    assert(argued(lower(s.take(6)), s.skip(7)));
    assert(cap_known(s));
    assert forall|i: int| #[trigger] equals(s, i) implies cap_argued(lower(s.take(i)), s.skip(i + 1), Capability::Thread(x)) by {
        assert(i == 6);
    }
}
/// Printing a capability and reading it gives the capability, and the text is an atom.
fn theorem_cap(r: &Capability)
    ensures
        cap_reads(cap_text(*r), *r),
        atomc(cap_text(*r)),
{
    match r {
        Capability::Auth(x) => { theorem_auth(x); proof { cap_auth(*x); } }
        Capability::Compress { algorithm } => { theorem_comp(algorithm); proof { cap_compress(*algorithm); } }
        Capability::QuotaRes(x) => { theorem_res(x); proof { cap_quota(*x); } }
        Capability::Sort(Some(x)) => { theorem_sort(x); proof { cap_sort(*x); } }
        Capability::Thread(x) => { theorem_thread(x); proof { cap_thread(*x); } }
        Capability::Other(o) => { proof { use_type_invariant(o); cap_other(*r); } }
        _ => { proof { lemma_utf8(); lemma_cap_atoms(); cap_rest(*r); } }
    }
}
proof fn cap_other(r: Capability)
    requires
        r matches Capability::Other(o) && !cap_known(o.0.0@),
    ensures
        cap_reads(cap_text(r), r),
{
    let s = cap_text(r);
    assert forall|i: int| #[trigger] equals(s, i) implies cap_argued(lower(s.take(i)), s.skip(i + 1), r) by {
        assert(!argued(lower(s.take(i)), s.skip(i + 1)));
    }
}
proof fn cap_rest(r: Capability)
    requires
        !(r is Auth || r is Compress || r is QuotaRes || r is Thread || r is Other),
        r is Sort ==> r == Capability::Sort(None),
    ensures
        cap_reads(cap_text(r), r),
{
    reveal(lits);
    lemma_lits();
    lemma_utf8();
}
proof fn lemma_cap_atoms()
    ensures
        atomc("IMAP4REV1"@),
        atomc("LOGINDISABLED"@),
        atomc("STARTTLS"@),
        atomc("IDLE"@),
        atomc("MAILBOX-REFERRALS"@),
        atomc("LOGIN-REFERRALS"@),
        atomc("SASL-IR"@),
        atomc("ENABLE"@),
        atomc("QUOTA"@),
        atomc("QUOTASET"@),
        atomc("LITERAL+"@),
        atomc("LITERAL-"@),
        atomc("MOVE"@),
        atomc("ID"@),
        atomc("SORT"@),
        atomc("METADATA"@),
        atomc("METADATA-SERVER"@),
        atomc("BINARY"@),
        atomc("UNSELECT"@),
        atomc("CONDSTORE"@),
        atomc("QRESYNC"@),
        atomc("UIDPLUS"@),
        atomc("NAMESPACE"@),
        atomc("UTF8=ACCEPT"@),
        atomc("UTF8=ONLY"@),
{
    reveal_strlit("IMAP4REV1");
    reveal_strlit("LOGINDISABLED");
    reveal_strlit("STARTTLS");
    reveal_strlit("IDLE");
    reveal_strlit("MAILBOX-REFERRALS");
    reveal_strlit("LOGIN-REFERRALS");
    reveal_strlit("SASL-IR");
    reveal_strlit("ENABLE");
    reveal_strlit("QUOTA");
    reveal_strlit("QUOTASET");
    reveal_strlit("LITERAL+");
    reveal_strlit("LITERAL-");
    reveal_strlit("MOVE");
    reveal_strlit("ID");
    reveal_strlit("SORT");
    reveal_strlit("METADATA");
    reveal_strlit("METADATA-SERVER");
    reveal_strlit("BINARY");
    reveal_strlit("UNSELECT");
    reveal_strlit("CONDSTORE");
    reveal_strlit("QRESYNC");
    reveal_strlit("UIDPLUS");
    reveal_strlit("NAMESPACE");
    reveal_strlit("UTF8=ACCEPT");
    reveal_strlit("UTF8=ONLY");
}

fn main() {}
}
