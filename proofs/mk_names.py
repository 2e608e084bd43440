#!/usr/bin/env python3
"""Writes names.rs: the names the library knows, how they are read and how they are printed."""
import os, re

AUTH = [("Plain", "PLAIN"), ("Login", "LOGIN"), ("OAuthBearer", "OAUTHBEARER"), ("XOAuth2", "XOAUTH2"), ("ScramSha1", "SCRAM-SHA-1"), ("ScramSha1Plus", "SCRAM-SHA-1-PLUS"),
        ("ScramSha256", "SCRAM-SHA-256"), ("ScramSha256Plus", "SCRAM-SHA-256-PLUS"), ("ScramSha3_512", "SCRAM-SHA3-512"), ("ScramSha3_512Plus", "SCRAM-SHA3-512-PLUS")]
RES = [("Storage", "STORAGE"), ("Message", "MESSAGE"), ("Mailbox", "MAILBOX"), ("AnnotationStorage", "ANNOTATION-STORAGE")]
SORT = [("Display", "DISPLAY")]
THREAD = [("OrderedSubject", "ORDEREDSUBJECT"), ("References", "REFERENCES")]
COMP = [("Deflate", "DEFLATE")]
FLAG = [(x, x) for x in ("Answered", "Deleted", "Draft", "Flagged", "Seen")]
FNA = [(x, x) for x in ("Noinferiors", "Noselect", "Marked", "Unmarked")]
UTF8 = [("Accept", "ACCEPT"), ("Only", "ONLY")]
ENABLE = [("CondStore", "CONDSTORE"), ("Metadata", "METADATA"), ("MetadataServer", "METADATA-SERVER"), ("Utf8(Utf8Kind::Accept)", "UTF8=ACCEPT"), ("Utf8(Utf8Kind::Only)", "UTF8=ONLY")]
CAP = [("Imap4Rev1", "IMAP4REV1"), ("LoginDisabled", "LOGINDISABLED"), ("StartTls", "STARTTLS"), ("Idle", "IDLE"), ("MailboxReferrals", "MAILBOX-REFERRALS"), ("LoginReferrals", "LOGIN-REFERRALS"),
       ("SaslIr", "SASL-IR"), ("Enable", "ENABLE"), ("Quota", "QUOTA"), ("QuotaSet", "QUOTASET"), ("LiteralPlus", "LITERAL+"), ("LiteralMinus", "LITERAL-"), ("Move", "MOVE"), ("Id", "ID"),
       ("Sort(None)", "SORT"), ("Metadata", "METADATA"), ("MetadataServer", "METADATA-SERVER"), ("Binary", "BINARY"), ("Unselect", "UNSELECT"), ("CondStore", "CONDSTORE"), ("QResync", "QRESYNC"),
       ("UidPlus", "UIDPLUS"), ("Namespace", "NAMESPACE"), ("Utf8(Utf8Kind::Accept)", "UTF8=ACCEPT"), ("Utf8(Utf8Kind::Only)", "UTF8=ONLY")]
PRE = ["AUTH", "COMPRESS", "QUOTA", "SORT", "THREAD", "RES-"]

names = []
for t in (AUTH, RES, SORT, THREAD, COMP, FLAG, FNA, UTF8, ENABLE, CAP):
    for _, n in t:
        if n not in names:
            names.append(n)
for n in PRE:
    if n not in names:
        names.append(n)

H = r'''//@ cfg all-features debug texts
// Written by mk_names.py.
#![allow(unused, non_snake_case, unused_parens, unused_braces)]
use std::borrow::Cow;
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use vstd::std_specs::convert::{TryFromSpecImpl, FromSpecImpl};
verus! {

//@ include chars.inc
pub open spec fn atom(b: Seq<u8>) -> bool { b.len() > 0 && forall|i: int| 0 <= i < b.len() ==> atom_char(#[trigger] b[i]) }

// ===== letter case ===================================================================================

spec fn lower_c(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u8) + 32) as u8 as char } else { c } }
spec fn upper_c(c: char) -> char { if 'a' <= c && c <= 'z' { ((c as u8) - 32) as u8 as char } else { c } }
spec fn lower(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| lower_c(s[i])) }
spec fn upper(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| upper_c(s[i])) }
proof fn lemma_case(s: Seq<char>)
    ensures
        upper(lower(s)) == upper(s),
        lower(upper(s)) == lower(s),
        lower(lower(s)) == lower(s),
{
    assert(upper(lower(s)) =~= upper(s));
    assert(lower(upper(s)) =~= lower(s));
    assert(lower(lower(s)) =~= lower(s));
}
/// u and l are spellings of one name.
spec fn name(u: &str, l: &str) -> bool {
    &&& lower(u@) == l@
    &&& lower(l@) == l@
    &&& upper(l@) == upper(u@)
    &&& lower(upper(u@)) == l@
}
/// `==` of str, and a pattern that is a text, compare the characters.
mod axiom {
    use std::borrow::Cow;
    use vstd::prelude::*;
    pub uninterp spec fn str_of<'a>(s: Seq<char>) -> &'a str;
    #[verifier::external_body]
    pub broadcast proof fn str_ext(a: &str)
        ensures
            str_of(#[trigger] a@) == a,
    {
    }
    pub broadcast proof fn cow_view(c: Cow<'_, str>)
        ensures
            #[trigger] c@ == (match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ }),
    {
    }
}
broadcast use {axiom::str_ext, axiom::cow_view};

/// The characters of an atom.
spec fn atomc(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80 && atom_char(s[i] as u8) }
proof fn lemma_atomc(s: Seq<char>)
    ensures
        atom(encode_utf8(s)) <==> atomc(s),
        atomc(s) ==> is_ascii_chars(s),
{
    if atomc(s) {
        assert(is_ascii_chars(s));
        is_ascii_chars_encode_utf8(s);
        assert forall|i: int| 0 <= i < encode_utf8(s).len() implies atom_char(#[trigger] encode_utf8(s)[i]) by {
            assert(encode_utf8(s)[i] == s[i] as u8);
        }
    }
    if atom(encode_utf8(s)) {
        let b = encode_utf8(s);
        let t = Seq::new(b.len(), |i: int| b[i] as char);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 0x80 && atom_char(t[i] as u8) by {
            assert(atom_char(b[i]));
        }
        assert(is_ascii_chars(t));
        is_ascii_chars_encode_utf8(t);
        assert(encode_utf8(t) =~= b);
        encode_utf8_decode_utf8(t);
        encode_utf8_decode_utf8(s);
        assert(t == s);
    }
}
proof fn lemma_part(s: Seq<char>, i: int)
    requires
        atomc(s),
        0 <= i <= s.len(),
    ensures
        i > 0 ==> atomc(s.take(i)),
        i < s.len() ==> atomc(s.skip(i)),
        is_ascii_chars(s.take(i)),
        is_ascii_chars(s.skip(i)),
{
    assert forall|k: int| 0 <= k < i implies (#[trigger] s.take(i)[k] as u32) < 0x80 && atom_char(s.take(i)[k] as u8) by { assert(s.take(i)[k] == s[k]); }
    assert forall|k: int| 0 <= k < s.len() - i implies (#[trigger] s.skip(i)[k] as u32) < 0x80 && atom_char(s.skip(i)[k] as u8) by { assert(s.skip(i)[k] == s[k + i]); }
    if i > 0 { lemma_atomc(s.take(i)); } else { assert(is_ascii_chars(s.take(i))); }
    if i < s.len() { lemma_atomc(s.skip(i)); } else { assert(is_ascii_chars(s.skip(i))); }
}

// ===== what the standard library does =================================================================

#[verifier::external_body]
fn ext_lower(s: &str) -> (r: String)
    ensures
        r@ == lower(s@),
{
    s.to_ascii_lowercase()
}
#[verifier::external_body]
fn ext_upper(s: &str) -> (r: String)
    ensures
        r@ == upper(s@),
{
    s.to_ascii_uppercase()
}
/// Of Unicode: used for texts in ASCII.
#[verifier::external_body]
fn ext_to_lowercase(s: &str) -> (r: String)
    ensures
        is_ascii_chars(s@) ==> r@ == lower(s@),
{
    s.to_lowercase()
}
#[verifier::external_body]
fn ext_to_uppercase(s: &str) -> (r: String)
    ensures
        is_ascii_chars(s@) ==> r@ == upper(s@),
{
    s.to_uppercase()
}
#[verifier::external_body]
fn ext_eq_case(s: &str, t: &str) -> (r: bool)
    ensures
        r == (lower(s@) == lower(t@)),
{
    s.eq_ignore_ascii_case(t)
}
trait VxText {
    spec fn text(&self) -> Seq<char>;
    fn vx_str(&self) -> (r: &str)
        ensures
            r@ == self.text(),
    ;
    fn vx_to_ascii_lowercase(&self) -> (r: String)
        ensures
            r@ == lower(self.text()),
            lits(),
            few(),
    {
        proof { lemma_lits(); }
        ext_lower(self.vx_str())
    }
    fn vx_to_ascii_uppercase(&self) -> (r: String)
        ensures
            r@ == upper(self.text()),
            r@ == upper(lower(self.text())),
            lower(r@) == lower(self.text()),
            lits(),
            few(),
    {
        proof { lemma_lits(); lemma_case(self.text()); }
        ext_upper(self.vx_str())
    }
    fn vx_to_lowercase(&self) -> (r: String)
        ensures
            is_ascii_chars(self.text()) ==> r@ == lower(self.text()),
            lits(),
            few(),
    {
        proof { lemma_lits(); }
        ext_to_lowercase(self.vx_str())
    }
    fn vx_to_uppercase(&self) -> (r: String)
        ensures
            is_ascii_chars(self.text()) ==> r@ == upper(self.text()) && r@ == upper(lower(self.text())) && lower(r@) == lower(self.text()),
            lits(),
            few(),
    {
        proof { lemma_lits(); lemma_case(self.text()); }
        ext_to_uppercase(self.vx_str())
    }
    fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool)
        ensures
            r == (lower(self.text()) == lower(o@)),
            lits(),
            few(),
    {
        proof { lemma_lits(); }
        ext_eq_case(self.vx_str(), o)
    }
    fn vx_split_at_checked<'x>(&'x self, n: usize) -> (r: Option<(&'x str, &'x str)>)
        ensures
            is_ascii_chars(self.text()) ==> (r is Some <==> n <= self.text().len()),
            is_ascii_chars(self.text()) && n <= self.text().len() ==> (r->0).0@ == self.text().take(n as int) && (r->0).1@ == self.text().skip(n as int),
    {
        ext_split_at_checked(self.vx_str(), n)
    }
    fn vx_split_once<'x, P: VxPat>(&'x self, p: P) -> (r: Option<(&'x str, &'x str)>)
        ensures
            halves(self.text(), p.pat(), r),
    {
        ext_split_once(self.vx_str(), p)
    }
    fn vx_strip_prefix<'x, P: VxPat>(&'x self, p: P) -> (r: Option<&'x str>)
        ensures
            stripped(self.text(), p.pat(), r),
    {
        ext_strip_prefix(self.vx_str(), p)
    }
}
impl VxText for str {
    spec fn text(&self) -> Seq<char> { self@ }
    fn vx_str(&self) -> (r: &str) { self }
}
impl VxText for String {
    spec fn text(&self) -> Seq<char> { self@ }
    fn vx_str(&self) -> (r: &str) { self.as_str() }
}
impl VxText for Cow<'_, str> {
    spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_str(&self) -> (r: &str) { self }
}
/// A pattern: a character or a text.
trait VxPat: Sized {
    spec fn pat(self) -> Seq<char>;
}
impl VxPat for char { spec fn pat(self) -> Seq<char> { seq![self] } }
impl VxPat for &str { spec fn pat(self) -> Seq<char> { self@ } }

spec fn at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
spec fn first_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { at(s, p, i) && forall|k: int| 0 <= k < i ==> !at(s, p, k) }
spec fn halves(s: Seq<char>, p: Seq<char>, r: Option<(&str, &str)>) -> bool {
    &&& r is None ==> forall|i: int| !at(s, p, i)
    &&& r matches Some((a, b)) ==> exists|i: int| #[trigger] first_at(s, p, i) && a@ == s.take(i) && b@ == s.skip(i + p.len())
}
spec fn stripped(s: Seq<char>, p: Seq<char>, r: Option<&str>) -> bool {
    &&& r is Some <==> at(s, p, 0)
    &&& r matches Some(t) ==> t@ == s.skip(p.len() as int)
}
spec fn cut(s: Seq<char>, p: Seq<char>, r: Option<(Cow<'_, str>, Cow<'_, str>)>) -> bool {
    &&& r is None ==> forall|i: int| !at(s, p, i)
    &&& r matches Some((a, b)) ==> exists|i: int| #[trigger] first_at(s, p, i) && a@ == s.take(i) && b@ == s.skip(i + p.len())
}
#[verifier::external_body]
fn ext_split_at_checked(s: &str, n: usize) -> (r: Option<(&str, &str)>)
    ensures
        is_ascii_chars(s@) ==> (r is Some <==> n <= s@.len()),
        is_ascii_chars(s@) && n <= s@.len() ==> (r->0).0@ == s@.take(n as int) && (r->0).1@ == s@.skip(n as int),
{
    s.split_at_checked(n)
}
#[verifier::external_body]
fn ext_split_once<P: VxPat>(s: &str, p: P) -> (r: Option<(&str, &str)>)
    ensures
        halves(s@, p.pat(), r),
{
    unimplemented!()
}
#[verifier::external_body]
fn ext_strip_prefix<P: VxPat>(s: &str, p: P) -> (r: Option<&str>)
    ensures
        stripped(s@, p.pat(), r),
{
    unimplemented!()
}

trait VxRef {
    type To: ?Sized;
    spec fn referred(&self, r: &Self::To) -> bool;
    fn vx_ref(&self) -> (r: &Self::To)
        ensures
            self.referred(r),
    ;
}
impl VxRef for Cow<'_, str> {
    type To = str;
    spec fn referred(&self, r: &str) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vx_ref(&self) -> (r: &str) { self }
}
impl VxRef for String {
    type To = str;
    spec fn referred(&self, r: &str) -> bool { r@ == self@ }
    fn vx_ref(&self) -> (r: &str) { self.as_str() }
}
impl VxRef for str {
    type To = str;
    spec fn referred(&self, r: &str) -> bool { r@ == self@ }
    fn vx_ref(&self) -> (r: &str) { self }
}
#[verifier::external_body]
fn vx_clone<'a>(c: &Cow<'a, str>) -> (r: Cow<'a, str>)
    ensures
        r@ == c@,
{
    c.clone()
}
#[verifier::external_body]
fn vx_to_owned(s: &str) -> (r: String)
    ensures
        r@ == s@,
{
    s.to_owned()
}
/// `<[u8]>::to_ascii_lowercase`.
spec fn lower_b(b: u8) -> u8 { if 0x41 <= b <= 0x5a { (b + 0x20) as u8 } else { b } }
spec fn upper_b(b: u8) -> u8 { if 0x61 <= b <= 0x7a { (b - 0x20) as u8 } else { b } }
impl VxBytes for [u8] {}
trait VxBytes {}
#[verifier::external_body]
fn vx_bytes_lower(s: &[u8]) -> (r: Vec<u8>)
    ensures
        r@ == Seq::new(s@.len(), |i: int| lower_b(s@[i])),
{
    s.to_ascii_lowercase()
}
#[verifier::external_body]
fn vx_bytes_upper(s: &[u8]) -> (r: Vec<u8>)
    ensures
        r@ == Seq::new(s@.len(), |i: int| upper_b(s@[i])),
{
    s.to_ascii_uppercase()
}
#[verifier::external_body]
fn vx_is_bytes(s: &[u8], t: &[u8]) -> (r: bool)
    ensures
        r == (s@ == t@),
{
    s == t
}

/// Where a value is printed to; a text takes everything.
#[verifier::external_body]
struct Formatter<'a> { buf: &'a mut String }
impl<'a> Formatter<'a> {
    uninterp spec fn out(&self) -> Seq<char>;
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (r: std::fmt::Result)
        ensures
            r is Ok,
            final(self).out() == old(self).out() + s@,
    {
        unimplemented!()
    }
    fn vx_put<D: Display + ?Sized>(&mut self, d: &D) -> (r: std::fmt::Result)
        ensures
            r is Ok,
            final(self).out() == old(self).out() + d.shown(),
    {
        d.fmt(self)
    }
}
trait Display {
    spec fn shown(&self) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: std::fmt::Result)
        ensures
            r is Ok,
            final(f).out() =~= old(f).out() + self.shown(),
    ;
}
impl<T: Display + ?Sized> Display for &T {
    spec fn shown(&self) -> Seq<char> { (*self).shown() }
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { (*self).fmt(f) }
}
impl Display for Cow<'_, str> {
    spec fn shown(&self) -> Seq<char> { self@ }
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str(self.vx_str()) }
}
impl Display for str {
    spec fn shown(&self) -> Seq<char> { self@ }
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str(self) }
}

//@ wrap as_ref=vx_ref:method eq_ignore_ascii_case=vx_eq_ignore_ascii_case:method to_ascii_lowercase=vx_to_ascii_lowercase:method to_ascii_uppercase=vx_to_ascii_uppercase:method to_lowercase=vx_to_lowercase:method to_uppercase=vx_to_uppercase:method
//@ wrap split_once=vx_split_once:method strip_prefix=vx_strip_prefix:method split_at_checked=vx_split_at_checked:method clone=vx_clone:ref to_owned=vx_to_owned:own to_string=vx_to_owned:own
//@ file imap-types/src/error.rs
//@ struct ValidationError #[derive(Debug)]
//@ enum ValidationErrorKind #[derive(Debug)]
//@ impl ValidationError {
//@ fn new -> r
//@ endfn
//@ endimpl

// ===== atoms =========================================================================================

//@ file imap-types/src/core.rs
//@ struct Atom
spec fn chars_of(a: Atom) -> Seq<char> { a.0@ }
impl<'a> Atom<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { atomc(self.0@) } }
//@ impl Atom<'a> {
//@ fn inner -> r
    ensures
        r@ == self.0@,
        atomc(r@),
        is_ascii_chars(r@),
//@ start
    proof { use_type_invariant(self); lemma_atomc(self.0@); }
//@ endfn
//@ fn into_inner -> r
    ensures
        r == self.0,
        atomc(r@),
        is_ascii_chars(r@),
//@ start
    proof { use_type_invariant(&self); lemma_atomc(self.0@); }
//@ endfn
//@ endimpl
//@ impl AsRef<str> for Atom<'_> => impl Atom<'_> {
//@ fn as_ref -> r
//@ as vx_ref
    ensures
        r@ == self.0@,
        atomc(r@),
        is_ascii_chars(r@),
//@ start
    proof { use_type_invariant(self); lemma_atomc(self.0@); }
//@ endfn
//@ endimpl
//@ impl Display for Atom<'_> {
    spec fn shown(&self) -> Seq<char> { self.0@ }
//@ fn fmt
//@ endfn
//@ endimpl
'''

o = [H]
FROM = [("&'a [u8]", "b"), ("Vec<u8>", "b"), ("&'a str", "c"), ("String", "c"), ("Cow<'a, str>", "c")]


def no_spec(ty, frm):
    return f"""impl<'a> TryFromSpecImpl<{frm}> for {ty}<'a> {{
    open spec fn obeys_try_from_spec() -> bool {{ false }}
    open spec fn try_from_spec(value: {frm}) -> Result<Self, ValidationError> {{ arbitrary() }}
}}
"""


o.append("\n// TryFrom for Atom: contracts proved in unit core\n")
for frm, kind in FROM:
    post = "r is Ok <==> atom(value@),\n            r matches Ok(a) ==> encode_utf8(chars_of(a)) == value@" if kind == "b" else "r is Ok <==> atom(encode_utf8(value@)),\n            r matches Ok(a) ==> chars_of(a) == value@"
    post2 = "" if kind == "b" else "            r is Ok <==> atomc(value@),\n"
    if kind == "b":
        o.append(no_spec("Atom", frm) + f"""impl<'a> TryFrom<{frm}> for Atom<'a> {{
    type Error = ValidationError;
    #[verifier::external_body]
    fn try_from(value: {frm}) -> (r: Result<Self, ValidationError>)
        ensures
            {post},
    {{
        unimplemented!()
    }}
}}
""")
    else:
        o.append(f"""#[verifier::external_body]
fn ext_atom_{FROM.index((frm, kind))}<'a>(value: {frm}) -> (r: Result<Atom<'a>, ValidationError>)
    ensures
        {post.replace('            ', '        ')},
{{
    unimplemented!()
}}
""" + no_spec("Atom", frm) + f"""impl<'a> TryFrom<{frm}> for Atom<'a> {{
    type Error = ValidationError;
    fn try_from(value: {frm}) -> (r: Result<Self, ValidationError>)
        ensures
            r is Ok <==> atomc(value@),
            r matches Ok(a) ==> chars_of(a) == value@,
    {{
        proof {{ lemma_atomc(value@); }}
        ext_atom_{FROM.index((frm, kind))}(value)
    }}
}}
""")

o.append("\n// ===== names ==========================================================================================\n\n")
for k, n in enumerate(names):
    u, l = n.upper(), n.lower()
    c = n if n not in (u, l) else None
    extra = f", name({c!r}, {l!r})".replace("'", '"') if c else ""
    o.append(f"""proof fn lemma_lit_{k}()
    ensures
        name("{u}", "{l}"){extra},
{{
    reveal_strlit("{u}");
    reveal_strlit("{l}");
    assert(lower("{u}"@) =~= "{l}"@);
    assert(lower("{l}"@) =~= "{l}"@);
    lemma_case("{u}"@);
""" + (f"    reveal_strlit(\"{c}\");\n    assert(lower(\"{c}\"@) =~= \"{l}\"@);\n    lemma_case(\"{c}\"@);\n" if c else "") + "}\n")
o.append("#[verifier::opaque]\nspec fn lits() -> bool {\n")
for n in names:
    o.append(f'    &&& name("{n.upper()}", "{n.lower()}")\n')
    if n not in (n.upper(), n.lower()):
        o.append(f'    &&& name("{n}", "{n.lower()}")\n')
FEW = ('    &&& "="@ == seq![\'=\']\n    &&& "\\\\\\\\"@ == seq![\'\\\\\', \'\\\\\']\n    &&& "\\\\"@ == seq![\'\\\\\']\n    &&& upper("RES-"@) == "RES-"@\n    &&& "deflate"@.len() == 7\n    &&& name("RES-", "res-")\n' )
for n in names:
    o.append(f'    &&& upper("{n.upper()}"@) == "{n.upper()}"@\n')
o.append("}\nspec fn few() -> bool {\n" + FEW + "}\nproof fn lemma_lits()\n    ensures\n        lits(),\n        few(),\n{\n    reveal(lits);\n")
for k, n in enumerate(names):
    o.append(f"    lemma_lit_{k}(); lemma_up_{k}();\n")
o.append('    reveal_strlit("="); assert("="@ =~= seq![\'=\']);\n    reveal_strlit("\\\\\\\\"); assert("\\\\\\\\"@ =~= seq![\'\\\\\', \'\\\\\']);\n    reveal_strlit("\\\\"); assert("\\\\"@ =~= seq![\'\\\\\']);\n    reveal_strlit("deflate");\n}\n')
for k, n in enumerate(names):
    u = n.upper()
    o.append(f'proof fn lemma_up_{k}()\n    ensures upper("{u}"@) == "{u}"@,\n{{\n    reveal_strlit("{u}");\n    assert(upper("{u}"@) =~= "{u}"@);\n}}\n')


def known(fn, table):
    return f"spec fn {fn}_known(l: Seq<char>) -> bool {{\n" + "".join(f'    ||| l == "{n.lower()}"@\n' for _, n in table) + "}\n"


def val(ty, v):
    return f"{ty}::{v}"


def reads(fn, ty, table, other):
    s = f"/// What the text s means.\nspec fn {fn}_reads(s: Seq<char>, r: {ty}) -> bool {{\n"
    for v, n in table:
        s += f'    &&& lower(s) == "{n.lower()}"@ ==> r == {ty}::{v}\n'
    if other:
        s += f"    &&& !{fn}_known(lower(s)) ==> (r matches {ty}::{other}(o) && o.0.0@ == s)\n"
    return s + "}\n"


def shown(fn, ty, table, other, pre=""):
    s = f"spec fn {fn}_text(r: {ty}) -> Seq<char> {{\n    match r {{\n"
    for v, n in table:
        s += f'        {ty}::{v} => "{pre}{n}"@,\n'
    if other:
        s += f"        {ty}::{other}(o) => " + (f'"{pre}"@ + o.0.0@' if pre else "o.0.0@") + ",\n"
    return s


def inv(fn, ty, by="from"):
    return f"//@ made {ty} {by}\n/// Values for unknown names are not made of a known one.\nimpl<'a> {ty}<'a> {{ #[verifier::type_invariant] spec fn inv(self) -> bool {{ atomc(self.0.0@) && !{fn}_known(lower(self.0.0@)) }} }}\n"


def distinct(table):
    """Facts that tell the names of one table apart."""
    out = ""
    t = [n.lower() for _, n in table]
    for i in range(len(t)):
        for j in range(i):
            if len(t[i]) == len(t[j]):
                k = next(k for k in range(len(t[i])) if t[i][k] != t[j][k])
                out += f'    assert("{t[i]}"@[{k}] == {t[i][k]!r} && "{t[j]}"@[{k}] == {t[j][k]!r});\n'
            else:
                out += f'    assert("{t[i]}"@.len() == {len(t[i])} && "{t[j]}"@.len() == {len(t[j])});\n'
    return "".join(f'    reveal_strlit("{x}");\n' for x in t) + out


def theorem(fn, ty, table, other, lt="", pre=""):
    sub = f"{fn}_text(*r)" if not pre else f"{fn}_text(*r).skip({pre.count(chr(92)) // 2})"
    rv = "".join(f'        reveal_strlit("{n}");\n' for _, n in table) + ("".join(f'        reveal_strlit("{pre}{n}"); assert("{pre}{n}"@.skip({pre.count(chr(92)) // 2}) =~= "{n}"@);\n' for _, n in table) if pre else "")
    ot = f"        if let {ty}::{other}(o) = r {{ use_type_invariant(o);" + (f' reveal_strlit("{pre}"); assert({fn}_text(*r).skip({pre.count(chr(92)) // 2}) =~= o.0.0@);' if pre else "") + " }\n" if other else ""
    return f"""proof fn lemma_{fn}_distinct()
    ensures
""" + "".join(f'        {fn}_reads("{n}"@, {ty}::{v}),\n' for v, n in table) + f"""{{
    reveal(lits);
    lemma_lits();
{distinct(table)}}}
/// Printing a value and reading it gives the value, and the text is an atom.
fn theorem_{fn}(r: &{ty}{lt})
    ensures
        {fn}_reads({sub}, *r),
        atomc({sub}),
{{
    proof {{
        lemma_{fn}_distinct();
{rv}{ot}    }}
}}
"""


def from_atom(ty, fn, file_named="atom", start="//@ start\n    proof { reveal(lits); }\n"):
    return f"""impl<'a> FromSpecImpl<Atom<'a>> for {ty}<'a> {{
    open spec fn obeys_from_spec() -> bool {{ false }}
    open spec fn from_spec(value: Atom<'a>) -> Self {{ arbitrary() }}
}}
//@ impl From<Atom<'a>> for {ty}<'a> {{
//@ fn from -> r
    ensures
        {fn}_reads(chars_of({file_named}), r),
{start}//@ endfn
//@ endimpl
"""


def tries(ty, fn, froms):
    s = ""
    for frm, kind in FROM:
        if frm not in froms:
            continue
        by = "value@" if kind == "b" else "encode_utf8(value@)"
        post = f"r is Ok <==> atom(value@),\n        r matches Ok(x) ==> exists|s: Seq<char>| #[trigger] encode_utf8(s) == value@ && {fn}_reads(s, x)" if kind == "b" else f"r is Ok <==> atomc(value@),\n        r matches Ok(x) ==> {fn}_reads(value@, x)"
        s += no_spec(ty, frm) + f"//@ impl TryFrom<{frm}> for {ty}<'a> {{\n//@ fn try_from -> r\n    ensures\n        {post},\n//@ endfn\n//@ endimpl\n"
    return s


ALL = [f for f, _ in FROM]
T = "imap-types/src/"
M = " imap-types/src/core.rs"

# authentication mechanisms
o.append(f"\n//@ file {T}auth.rs{M}\n//@ enum AuthMechanism\n//@ struct AuthMechanismOther\n" + known("auth", AUTH) + inv("auth", "AuthMechanismOther") + reads("auth", "AuthMechanism", AUTH, "Other") + shown("auth", "AuthMechanism", AUTH, "Other") + "    }\n}\n"
         + from_atom("AuthMechanism", "auth") + tries("AuthMechanism", "auth", ALL) + """//@ impl FromStr for AuthMechanism<'static> => impl AuthMechanism<'static> {
//@ fn from_str -> r
//@ sig fn from_str(s: &str) -> (r: Result<Self, ValidationError>)
    ensures
        r is Ok <==> atomc(s@),
        r matches Ok(x) ==> auth_reads(s@, x),
//@ endfn
//@ endimpl
//@ impl AsRef<str> for AuthMechanism<'_> => impl AuthMechanism<'_> {
//@ fn as_ref -> r
//@ as vx_ref
    ensures
        r@ == auth_text(*self),
//@ endfn
//@ endimpl
//@ impl Display for AuthMechanism<'_> {
    spec fn shown(&self) -> Seq<char> { auth_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl
""" + theorem("auth", "AuthMechanism", AUTH, "Other"))

# flags
o.append(f"\n//@ file {T}flag.rs{M}\n//@ enum Flag\n//@ struct FlagExtension\n" + known("flag", FLAG) + inv("flag", "FlagExtension", "system") + reads("flag", "Flag", FLAG, "Extension") + shown("flag", "Flag", FLAG, "Extension", "\\\\") + "        Flag::Keyword(a) => a.0@,\n    }\n}\n"
         + """//@ impl Flag<'a> {
//@ fn system -> r
    ensures
        flag_reads(atom.0@, r),
//@ start
    proof { reveal(lits); }
//@ endfn
//@ fn keyword -> r
    ensures
        r == Flag::Keyword(atom),
//@ endfn
//@ endimpl
/// With the backslash, if any.
spec fn flag_full(s: Seq<char>, r: Flag) -> bool {
    if s.len() > 0 && s[0] == '\\\\' { atomc(s.skip(1)) && flag_reads(s.skip(1), r) } else { atomc(s) && (r matches Flag::Keyword(a) && a.0@ == s) }
}
""" + no_spec("Flag", "&'a str") + """//@ impl TryFrom<&'a str> for Flag<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> if value@.len() > 0 && value@[0] == '\\\\' { atomc(value@.skip(1)) } else { atomc(value@) },
        r matches Ok(x) ==> flag_full(value@, x),
//@ start
    proof { reveal(lits); lemma_lits(); lemma_char(value@, '\\\\', 0); }
//@ endfn
//@ endimpl
//@ impl Display for Flag<'_> {
    spec fn shown(&self) -> Seq<char> { flag_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl
/// One character as a pattern.
proof fn lemma_char(s: Seq<char>, c: char, i: int)
    ensures
        at(s, seq![c], i) <==> 0 <= i < s.len() && s[i] == c,
{
    if 0 <= i < s.len() {
        assert(s.subrange(i, i + 1).len() == 1 && s.subrange(i, i + 1)[0] == s[i]);
        if s[i] == c { assert(s.subrange(i, i + 1) =~= seq![c]); }
        if s.subrange(i, i + 1) == seq![c] { assert(seq![c][0] == c); }
    }
}
proof fn lemma_flag_distinct()
    ensures
""" + "".join(f'        flag_reads("{n}"@, Flag::{v}),\n' for v, n in FLAG) + "{\n    reveal(lits);\n    lemma_lits();\n" + distinct(FLAG) + """}
/// Printing a flag and reading it gives the flag.
fn theorem_flag(r: &Flag)
    ensures
        flag_full(flag_text(*r), *r),
{
    proof {
        lemma_flag_distinct();
        reveal_strlit("\\\\");
""" + "".join(f'        reveal_strlit("{n}"); reveal_strlit("\\\\{n}"); assert("\\\\{n}"@.skip(1) =~= "{n}"@);\n' for _, n in FLAG) + """        if let Flag::Extension(o) = r { use_type_invariant(o); assert(flag_text(*r).skip(1) =~= o.0.0@); }
        if let Flag::Keyword(a) = r { use_type_invariant(a); assert(atom_char(a.0@[0] as u8)); }
    }
}
""")
o.append("\n//@ enum FlagNameAttribute\n//@ struct FlagNameAttributeExtension\n" + known("fna", FNA) + inv("fna", "FlagNameAttributeExtension") + reads("fna", "FlagNameAttribute", FNA, "Extension") + shown("fna", "FlagNameAttribute", FNA, "Extension", "\\\\") + "    }\n}\n"
         + from_atom("FlagNameAttribute", "fna") + """//@ impl FlagNameAttribute<'_> {
//@ fn is_selectability -> r
    ensures
        r == (self is Noselect || self is Marked || self is Unmarked),
//@ endfn
//@ endimpl
//@ impl Display for FlagNameAttribute<'_> {
    spec fn shown(&self) -> Seq<char> { fna_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl
""" + theorem("fna", "FlagNameAttribute", FNA, "Extension", pre="\\\\"))

# attribute flags
o.append(f"\n//@ file {T}extensions/condstore_qresync.rs{M}\n//@ enum AttributeFlag\n//@ struct AttributeFlagExtension\n//@ enum EntryTypeReq\n" + inv("flag", "AttributeFlagExtension", "system") + reads("aflag", "AttributeFlag", FLAG, "Extension").replace("aflag_known", "flag_known") + shown("aflag", "AttributeFlag", FLAG, "Extension", "\\\\\\\\") + "        AttributeFlag::Keyword(a) => a.0@,\n    }\n}\n"
         + """//@ impl AttributeFlag<'a> {
//@ fn system -> r
    ensures
        aflag_reads(atom.0@, r),
//@ endfn
//@ fn keyword -> r
    ensures
        r == AttributeFlag::Keyword(atom),
//@ endfn
//@ endimpl
spec fn two(s: Seq<char>) -> bool { s.len() > 1 && s[0] == '\\\\' && s[1] == '\\\\' }
spec fn aflag_full(s: Seq<char>, r: AttributeFlag) -> bool {
    if two(s) { atomc(s.skip(2)) && aflag_reads(s.skip(2), r) } else { atomc(s) && (r matches AttributeFlag::Keyword(a) && a.0@ == s) }
}
proof fn lemma_two(s: Seq<char>)
    ensures
        at(s, seq!['\\\\', '\\\\'], 0) <==> two(s),
{
    let p = seq!['\\\\', '\\\\'];
    if s.len() > 1 {
        assert(s.subrange(0, 2).len() == 2 && s.subrange(0, 2)[0] == s[0] && s.subrange(0, 2)[1] == s[1]);
        if two(s) { assert(s.subrange(0, 2) =~= p); }
        if s.subrange(0, 2) == p { assert(p[0] == '\\\\' && p[1] == '\\\\'); }
    }
}
""" + no_spec("AttributeFlag", "&'a str") + """//@ impl TryFrom<&'a str> for AttributeFlag<'a> {
//@ fn try_from -> r
    ensures
        r is Ok <==> if two(value@) { atomc(value@.skip(2)) } else { atomc(value@) },
        r matches Ok(x) ==> aflag_full(value@, x),
//@ start
    proof { lemma_lits(); lemma_two(value@); }
//@ endfn
//@ endimpl
//@ impl Display for AttributeFlag<'_> {
    spec fn shown(&self) -> Seq<char> { aflag_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl
//@ impl Display for EntryTypeReq {
    spec fn shown(&self) -> Seq<char> { match self { EntryTypeReq::Private => "priv"@, EntryTypeReq::Shared => "shared"@, EntryTypeReq::All => "all"@ } }
//@ fn fmt
//@ endfn
//@ endimpl
proof fn lemma_aflag_distinct()
    ensures
""" + "".join(f'        aflag_reads("{n}"@, AttributeFlag::{v}),\n' for v, n in FLAG) + "{\n    reveal(lits);\n    lemma_lits();\n" + distinct(FLAG) + """}
/// Printing a flag and reading it gives the flag.
fn theorem_aflag(r: &AttributeFlag)
    ensures
        aflag_full(aflag_text(*r), *r),
{
    proof {
        lemma_aflag_distinct();
        reveal_strlit("\\\\\\\\");
""" + "".join(f'        reveal_strlit("{n}"); reveal_strlit("\\\\\\\\{n}"); assert("\\\\\\\\{n}"@.skip(2) =~= "{n}"@);\n' for _, n in FLAG) + """        if let AttributeFlag::Extension(o) = r { use_type_invariant(o); assert(aflag_text(*r).skip(2) =~= o.0.0@); }
        if let AttributeFlag::Keyword(a) = r { use_type_invariant(a); assert(atom_char(a.0@[0] as u8)); }
    }
}
""")

# quota resources
o.append(f"\n//@ file {T}extensions/quota.rs{M}\n//@ enum Resource\n//@ struct ResourceOther\n" + known("res", RES) + inv("res", "ResourceOther") + reads("res", "Resource", RES, "Other") + shown("res", "Resource", RES, "Other") + "    }\n}\n"
         + from_atom("Resource", "res") + tries("Resource", "res", ALL) + """//@ impl Display for Resource<'_> {
    spec fn shown(&self) -> Seq<char> { res_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl
""" + theorem("res", "Resource", RES, "Other"))
for fn, ty, table, f in (("sort", "SortAlgorithm", SORT, "sort"), ("thread", "ThreadingAlgorithm", THREAD, "thread")):
    o.append(f"\n//@ file {T}extensions/{f}.rs{M}\n//@ enum {ty}\n//@ struct {ty}Other\n" + known(fn, table) + inv(fn, ty + "Other") + reads(fn, ty, table, "Other") + shown(fn, ty, table, "Other") + "    }\n}\n"
             + from_atom(ty, fn, "value") + f"""//@ impl AsRef<str> for {ty}Other<'_> => impl {ty}Other<'_> {{
//@ fn as_ref -> r
//@ as vx_ref
    ensures
        r@ == self.0.0@,
//@ endfn
//@ endimpl
//@ impl Display for {ty}<'_> {{
    spec fn shown(&self) -> Seq<char> {{ {fn}_text(*self) }}
//@ fn fmt
//@ endfn
//@ endimpl
""" + theorem(fn, ty, table, "Other"))

# compression
o.append(f"\n//@ file {T}extensions/compress.rs{M}\n//@ enum CompressionAlgorithm\n" + known("comp", COMP) + reads("comp", "CompressionAlgorithm", COMP, None) + shown("comp", "CompressionAlgorithm", COMP, None) + "    }\n}\n")
for frm, by in (("&str", "value@"), ("Atom<'a>", "chars_of(atom)")):
    lt = "<'a>" if "'a" in frm else ""
    f2 = frm
    o.append(f"""impl{lt or "<'a>"} TryFromSpecImpl<{frm.replace('&str', "&'a str")}> for CompressionAlgorithm {{
    open spec fn obeys_try_from_spec() -> bool {{ false }}
    open spec fn try_from_spec(value: {frm.replace('&str', "&'a str")}) -> Result<Self, ValidationError> {{ arbitrary() }}
}}
//@ impl TryFrom<{frm}> for CompressionAlgorithm {{
//@ fn try_from -> r
    ensures
        r is Ok <==> comp_known(lower({by})),
        r matches Ok(x) ==> comp_reads({by}, x),
//@ start
    proof {{ reveal(lits); }}
//@ endfn
//@ endimpl
""")
o.append("""impl<'a> TryFromSpecImpl<&'a [u8]> for CompressionAlgorithm {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a [u8]) -> Result<Self, ValidationError> { arbitrary() }
}
spec fn deflate() -> Seq<u8> { seq![0x64u8, 0x65, 0x66, 0x6c, 0x61, 0x74, 0x65] }
//@ impl TryFrom<&[u8]> for CompressionAlgorithm {
//@ fn try_from -> r
//@ wrap to_ascii_lowercase=vx_bytes_lower:own to_ascii_uppercase=vx_bytes_upper:own
    ensures
        r is Ok <==> value@.len() == 7 && forall|i: int| 0 <= i < 7 ==> lower_b(#[trigger] value@[i]) == deflate()[i],
//@ start
    proof { lemma_bytes(value@); }
//@ endfn
//@ endimpl
proof fn lemma_bytes(v: Seq<u8>)
    ensures
        (v.len() == 7 && forall|i: int| 0 <= i < 7 ==> lower_b(#[trigger] v[i]) == deflate()[i]) <==> Seq::new(v.len(), |i: int| lower_b(v[i])) == deflate(),
        (v.len() == 7 && forall|i: int| 0 <= i < 7 ==> lower_b(#[trigger] v[i]) == deflate()[i]) <==> Seq::new(v.len(), |i: int| upper_b(v[i])) == seq![0x44u8, 0x45, 0x46, 0x4c, 0x41, 0x54, 0x45],
{
    assert(deflate().len() == 7);
    assert forall|b: u8, k: int| 0 <= k < 7 implies (#[trigger] lower_b(b) == #[trigger] deflate()[k] <==> upper_b(b) == seq![0x44u8, 0x45, 0x46, 0x4c, 0x41, 0x54, 0x45][k]) by {
        let d = seq![0x44u8, 0x45, 0x46, 0x4c, 0x41, 0x54, 0x45];
        assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6);
        assert(d[0] == 0x44 && d[1] == 0x45 && d[2] == 0x46 && d[3] == 0x4c && d[4] == 0x41 && d[5] == 0x54 && d[6] == 0x45);
        assert(deflate()[0] == 0x64 && deflate()[1] == 0x65 && deflate()[2] == 0x66 && deflate()[3] == 0x6c && deflate()[4] == 0x61 && deflate()[5] == 0x74 && deflate()[6] == 0x65);
    }
    let l = Seq::new(v.len(), |i: int| lower_b(v[i]));
    let u = Seq::new(v.len(), |i: int| upper_b(v[i]));
    let d = seq![0x44u8, 0x45, 0x46, 0x4c, 0x41, 0x54, 0x45];
    if v.len() == 7 && forall|i: int| 0 <= i < 7 ==> lower_b(#[trigger] v[i]) == deflate()[i] {
        assert(l =~= deflate());
        assert forall|i: int| 0 <= i < 7 implies u[i] == d[i] by { assert(lower_b(v[i]) == deflate()[i]); }
        assert(u =~= d);
    }
    if l == deflate() {
        assert forall|i: int| 0 <= i < 7 implies lower_b(#[trigger] v[i]) == deflate()[i] by { assert(l[i] == deflate()[i]); }
    }
    assert(d.len() == 7 && u.len() == v.len());
    if u == d {
        assert forall|i: int| 0 <= i < 7 implies lower_b(#[trigger] v[i]) == deflate()[i] by { assert(u[i] == d[i]); assert(u[i] == upper_b(v[i])); assert(lower_b(v[i]) == deflate()[i] <==> upper_b(v[i]) == d[i]); }
    }
}
//@ impl AsRef<str> for CompressionAlgorithm => impl CompressionAlgorithm {
//@ fn as_ref -> r
//@ as vx_ref
    ensures
        r@ == comp_text(*self),
//@ endfn
//@ endimpl
//@ impl Display for CompressionAlgorithm {
    spec fn shown(&self) -> Seq<char> { comp_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl
""" + theorem("comp", "CompressionAlgorithm", COMP, None))

# UTF8, ENABLE
o.append(f"\n//@ file {T}extensions/utf8.rs\n//@ enum Utf8Kind\n" + shown("utf8", "Utf8Kind", UTF8, None) + """    }
}
//@ impl Display for Utf8Kind {
    spec fn shown(&self) -> Seq<char> { utf8_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl
""")
o.append(f"\n//@ file {T}extensions/enable.rs{M}\n//@ enum CapabilityEnable\n//@ struct CapabilityEnableOther\n" + known("enable", ENABLE) + inv("enable", "CapabilityEnableOther") + reads("enable", "CapabilityEnable", ENABLE, "Other")
         + shown("enable", "CapabilityEnable", ENABLE[:3], "Other") + "        CapabilityEnable::Utf8(k) => \"UTF8=\"@ + utf8_text(k),\n    }\n}\n" + from_atom("CapabilityEnable", "enable") + tries("CapabilityEnable", "enable", ["&'a str"]) + """//@ impl Display for CapabilityEnable<'_> {
    spec fn shown(&self) -> Seq<char> { enable_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl
proof fn lemma_utf8()
    ensures
        "UTF8="@ + "ACCEPT"@ == "UTF8=ACCEPT"@,
        "UTF8="@ + "ONLY"@ == "UTF8=ONLY"@,
{
    reveal_strlit("UTF8="); reveal_strlit("ACCEPT"); reveal_strlit("ONLY"); reveal_strlit("UTF8=ACCEPT"); reveal_strlit("UTF8=ONLY");
    assert("UTF8="@ + "ACCEPT"@ =~= "UTF8=ACCEPT"@);
    assert("UTF8="@ + "ONLY"@ =~= "UTF8=ONLY"@);
}
""" + theorem("enable", "CapabilityEnable", ENABLE, "Other").replace("        lemma_enable_distinct();\n", "        lemma_enable_distinct(); lemma_utf8();\n"))

# capabilities
STRUCT = [("auth", "r matches Capability::Auth(x) && auth_reads(b, x)", "b.len() > 0"),
          ("compress", "r == (Capability::Compress { algorithm: CompressionAlgorithm::Deflate })", 'lower(b) == "deflate"@'),
          ("quota", "r matches Capability::QuotaRes(x) && res_reads(b.skip(4), x)", 'b.len() > 4 && lower(b.take(4)) == "res-"@'),
          ("sort", "r matches Capability::Sort(Some(x)) && sort_reads(b, x)", "b.len() > 0"),
          ("thread", "r matches Capability::Thread(x) && thread_reads(b, x)", "b.len() > 0")]
cap = f"\n//@ file {T}response.rs{M}\n//@ enum Capability\n//@ struct CapabilityOther\n" + known("cap", CAP)
cap += """/// The name before the first equals sign and what follows it.
spec fn equals(s: Seq<char>, i: int) -> bool { 0 <= i < s.len() && s[i] == '=' && forall|k: int| 0 <= k < i ==> s[k] != '=' }
spec fn argued(a: Seq<char>, b: Seq<char>) -> bool {
"""
for n, _, c in STRUCT:
    cap += f'    ||| a == "{n}"@ && {c}\n'
cap += """}
spec fn cap_known(s: Seq<char>) -> bool { cap_plain(lower(s)) || exists|i: int| #[trigger] equals(s, i) && argued(lower(s.take(i)), s.skip(i + 1)) }
spec fn cap_argued(a: Seq<char>, b: Seq<char>, r: Capability) -> bool {
"""
for n, v, c in STRUCT:
    cap += f'    &&& a == "{n}"@ && {c} ==> ({v})\n'
cap += """}
/// What the text s means.
spec fn cap_reads(s: Seq<char>, r: Capability) -> bool {
"""
for v, n in CAP:
    cap += f'    &&& lower(s) == "{n.lower()}"@ ==> r == Capability::{v}\n'
cap += """    &&& !cap_plain(lower(s)) ==> forall|i: int| #[trigger] equals(s, i) ==> cap_argued(lower(s.take(i)), s.skip(i + 1), r)
    &&& !cap_known(s) ==> (r matches Capability::Other(o) && o.0.0@ == s)
}
//@ made CapabilityOther from
/// Values for unknown names are not made of a known one.
impl<'a> CapabilityOther<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { atomc(self.0.0@) && !cap_known(self.0.0@) } }
"""
cap = cap.replace("spec fn cap_known(l: Seq<char>)", "spec fn cap_plain(l: Seq<char>)", 1)
cap += shown("cap", "Capability", [x for x in CAP if "(" not in x[0]], "Other") + """        Capability::Sort(None) => "SORT"@,
        Capability::Utf8(k) => "UTF8="@ + utf8_text(k),
        Capability::Auth(x) => "AUTH="@ + auth_text(x),
        Capability::Compress { algorithm } => "COMPRESS="@ + comp_text(algorithm),
        Capability::QuotaRes(x) => "QUOTA=RES-"@ + res_text(x),
        Capability::Sort(Some(x)) => "SORT="@ + sort_text(x),
        Capability::Thread(x) => "THREAD="@ + thread_text(x),
    }
}
//@ impl Display for Capability<'_> {
    spec fn shown(&self) -> Seq<char> { cap_text(*self) }
//@ fn fmt
//@ endfn
//@ endimpl
"""
cap += """/// What splitting an atom at its first equals sign gives.
proof fn lemma_equals(s: Seq<char>)
    requires
        atomc(s),
    ensures
        forall|i: int| #[trigger] at(s, seq!['='], i) <==> 0 <= i < s.len() && s[i] == '=',
        forall|i: int| #[trigger] first_at(s, seq!['='], i) <==> equals(s, i),
        forall|i: int, k: int| #[trigger] equals(s, i) && #[trigger] equals(s, k) ==> i == k,
        forall|i: int| #[trigger] equals(s, i) ==> parts(s, i) && at(s, seq!['='], i),
{
    assert forall|i: int| #[trigger] at(s, seq!['='], i) <==> 0 <= i < s.len() && s[i] == '=' by { lemma_char(s, '=', i); }
    assert forall|i: int| #[trigger] first_at(s, seq!['='], i) implies equals(s, i) by {
        assert forall|k: int| 0 <= k < i implies s[k] != '=' by { assert(!at(s, seq!['='], k)); }
    }
    assert forall|i: int, k: int| #[trigger] equals(s, i) && #[trigger] equals(s, k) implies i == k by {
        if i < k { assert(s[i] != '='); }
        if k < i { assert(s[k] != '='); }
    }
    assert forall|i: int| #[trigger] equals(s, i) implies parts(s, i) by {
        lemma_part(s, i);
        lemma_part(s, i + 1);
        let b = s.skip(i + 1);
        if b.len() > 0 {
            lemma_part(b, if b.len() < 4 { b.len() as int } else { 4 });
        }
    }
}
spec fn parts(s: Seq<char>, i: int) -> bool {
    let b = s.skip(i + 1);
    &&& is_ascii_chars(b)
    &&& b.len() > 0 ==> atomc(b)
    &&& b.len() > 4 ==> atomc(b.skip(4))
}
//@ fn split_once_cow -> r
    ensures
        cut(cow@, pattern@, r),
//@ endfn
""" + from_atom("Capability", "cap", start="//@ start\n    proof { use_type_invariant(&atom); lemma_equals(atom.0@); lemma_lits(); reveal(lits); }\n//@ attr #[verifier::rlimit(100)]\n//@ attr #[verifier::spinoff_prover]\n") + tries("Capability", "cap", ["&'a [u8]", "Vec<u8>", "&'a str", "String"])
o.append(cap)
for p, pre in (("auth", ""), ("compress", ""), ("quota", "RES-"), ("sort", ""), ("thread", "")):
    n = len(p)
    o.append(f"""/// {p.upper()}={pre} and an argument.
proof fn lemma_arg_{p}(t: Seq<char>)
    requires
        atomc(t),
    ensures
        ({{
            let s = "{p.upper()}={pre}"@ + t;
            &&& atomc(s)
            &&& equals(s, {n})
            &&& forall|i: int| #[trigger] equals(s, i) ==> i == {n}
            &&& !cap_plain(lower(s))
            &&& lower(s.take({n})) == "{p}"@
            &&& s.skip({n + 1}) == {f'"{pre}"@ + t' if pre else 't'}
            &&& {f'lower(s.skip({n + 1}).take(4)) == "res-"@ && s.skip({n + 1}).skip(4) == t && s.skip({n + 1}).len() > 4' if pre else 'true'}
        }}),
{{
    reveal(lits);
    lemma_lits();
    reveal_strlit("{p.upper()}={pre}");
    reveal_strlit("{p.upper()}");
    reveal_strlit("{pre}");
    let s = "{p.upper()}={pre}"@ + t;
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k] as u32) < 0x80 && atom_char(s[k] as u8) by {{
        if k >= {n + 1 + len(pre)} {{ assert(s[k] == t[k - {n + 1 + len(pre)}]); }}
    }}
    assert(s[{n}] == '=');
    assert(s.take({n}) =~= "{p.upper()}"@);
    assert(s.skip({n + 1}) =~= {f'"{pre}"@ + t' if pre else 't'});
    {f'assert(s.skip({n + 1}).take(4) =~= "{pre}"@); assert(s.skip({n + 1}).skip(4) =~= t);' if pre else ''}
    assert forall|i: int| #[trigger] equals(s, i) implies i == {n} by {{
        if i > {n} {{ assert(s[{n}] != '='); }}
    }}
    let l = lower(s);
    assert(l[{n}] == '=' && l[0] == '{p[0]}');
""")
    for _, x in CAP:
        x = x.lower()
        o.append(f'    reveal_strlit("{x}"); ' + (f'if l == "{x}"@ {{ assert("{x}"@[{n}] == {x[n]!r} && "{x}"@[0] == {x[0]!r}); }}\n' if len(x) > n else f'assert("{x}"@.len() == {len(x)});\n'))
    o.append("}\n")
for p, c, ty, fn in (("auth", "Auth(x)", "AuthMechanism", "auth"), ("compress", "Compress { algorithm: x }", "CompressionAlgorithm", "comp"), ("quota", "QuotaRes(x)", "Resource", "res"), ("sort", "Sort(Some(x))", "SortAlgorithm", "sort"), ("thread", "Thread(x)", "ThreadingAlgorithm", "thread")):
    n = len(p)
    o.append(f"""proof fn cap_{p}(x: {ty})
    requires
        {fn}_reads({fn}_text(x), x),
        atomc({fn}_text(x)),
    ensures
        cap_reads(cap_text(Capability::{c}), Capability::{c}),
        atomc(cap_text(Capability::{c})),
{{
    lemma_arg_{p}({fn}_text(x));
    let s = cap_text(Capability::{c});
    {'reveal(lits); lemma_lits();' if p == 'compress' else ''}
    assert(argued(lower(s.take({n})), s.skip({n + 1})));
    assert(cap_known(s));
    assert forall|i: int| #[trigger] equals(s, i) implies cap_argued(lower(s.take(i)), s.skip(i + 1), Capability::{c}) by {{
        assert(i == {n});
    }}
}}
""")
o.append("""/// Printing a capability and reading it gives the capability, and the text is an atom.
fn theorem_cap(r: &Capability)
    ensures
        cap_reads(cap_text(*r), *r),
        atomc(cap_text(*r)),
{
    match r {
        Capability::Auth(x) => { theorem_auth(x); proof { cap_auth(*x); } }
        Capability::Compress { algorithm } => { theorem_comp(algorithm); proof { cap_compress(*algorithm); } }
        Capability::QuotaRes(x) => { theorem_res(x); proof { cap_quota(*x); } }
        Capability::Sort(Some(x)) => { theorem_sort(x); proof { cap_sort(*x); } }
        Capability::Thread(x) => { theorem_thread(x); proof { cap_thread(*x); } }
        Capability::Other(o) => { proof { use_type_invariant(o); cap_other(*r); } }
        _ => { proof { lemma_utf8(); lemma_cap_atoms(); cap_rest(*r); } }
    }
}
proof fn cap_other(r: Capability)
    requires
        r matches Capability::Other(o) && !cap_known(o.0.0@),
    ensures
        cap_reads(cap_text(r), r),
{
    let s = cap_text(r);
    assert forall|i: int| #[trigger] equals(s, i) implies cap_argued(lower(s.take(i)), s.skip(i + 1), r) by {
        assert(!argued(lower(s.take(i)), s.skip(i + 1)));
    }
}
proof fn cap_rest(r: Capability)
    requires
        !(r is Auth || r is Compress || r is QuotaRes || r is Thread || r is Other),
        r is Sort ==> r == Capability::Sort(None),
    ensures
        cap_reads(cap_text(r), r),
{
    reveal(lits);
    lemma_lits();
    lemma_utf8();
}
proof fn lemma_cap_atoms()
    ensures
""" + "".join(f'        atomc("{n}"@),\n' for _, n in CAP) + "{\n" + "".join(f'    reveal_strlit("{n}");\n' for _, n in CAP) + "}\n")
o.append("\nfn main() {}\n}\n")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.rs"), "w").write(re.sub(r"(?m)^spec fn", "pub closed spec fn", "".join(o)))
