#!/usr/bin/env python3
"""Writes core.rs: the contracts of the string types are the same text for every type and conversion."""
import os

PRE = r'''//@ cfg ext_utf8 debug public
// Written by mk_core.py.
#![allow(unused, non_snake_case, unused_parens, unused_braces)]
use std::{borrow::Cow, str::from_utf8};
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use vstd::std_specs::convert::{TryFromSpecImpl, FromSpecImpl};
verus! {

//@ file imap-types/src/error.rs
//@ struct ValidationError #[derive(Debug)]
//@ enum ValidationErrorKind #[derive(Debug)]
//@ impl ValidationError {
//@ fn new -> r
//@ endfn
//@ endimpl

//@ include grammar.inc
// ===== byte classes ================================================================================

//@ file imap-types/src/utils.rs
'''

POST = r'''
}
fn main() {}
'''

IND = dict(
    is_char="gr_char", is_ctl="ctl", is_quoted_specials="quoted_specials", is_list_wildcards="list_wildcards", is_resp_specials="resp_specials",
    is_atom_specials="atom_specials", is_atom_char="atom_char", is_astring_char="astring_char", is_list_char="list_char", is_text_char="text_char", is_char8="char8",
)
PARAM = dict(is_char="byte", is_ctl="byte", is_quoted_specials="byte", is_text_char="c", is_atom_char="b")

STD = r'''
// ===== std =========================================================================================

/// `AsRef`: a view of the same bytes.
pub trait Viewed {
    spec fn as_view(&self) -> Seq<u8>;
}
impl Viewed for [u8] { open spec fn as_view(&self) -> Seq<u8> { self@ } }
impl Viewed for str { open spec fn as_view(&self) -> Seq<u8> { encode_utf8(self@) } }
pub trait AsRef<T: Viewed + ?Sized> {
    spec fn bytes(&self) -> Seq<u8>;
    fn as_ref(&self) -> (r: &T) ensures r.as_view() == self.bytes();
}
impl AsRef<[u8]> for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } fn as_ref(&self) -> &[u8] { self } }
impl AsRef<[u8]> for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } fn as_ref(&self) -> &[u8] { self.as_slice() } }
impl AsRef<[u8]> for str { open spec fn bytes(&self) -> Seq<u8> { encode_utf8(self@) } fn as_ref(&self) -> &[u8] { self.as_bytes() } }
impl AsRef<[u8]> for String { open spec fn bytes(&self) -> Seq<u8> { encode_utf8(self@) } fn as_ref(&self) -> &[u8] { self.as_str().as_bytes() } }
impl<X: AsRef<[u8]> + ?Sized> AsRef<[u8]> for &X { open spec fn bytes(&self) -> Seq<u8> { (*self).bytes() } fn as_ref(&self) -> &[u8] { (*self).as_ref() } }

/// `iter().position(f)`: the first index whose element satisfies `f`.
fn vx_iter<'a>(v: &'a [u8]) -> (r: &'a [u8])
    ensures
        r@ == v@,
{
    v
}
fn vx_position<F: Fn(&u8) -> bool>(v: &[u8], f: F) -> (r: Option<usize>)
    requires
        forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],)),
    ensures
        r matches Some(i) ==> i < v@.len() && f.ensures((&v@[i as int],), true),
        r is None ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false),
{
    let mut i = 0;
    while i < v.len()
        invariant
            i <= v@.len(),
            forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],)),
            forall|k: int| 0 <= k < i ==> f.ensures((&#[trigger] v@[k],), false),
        decreases v@.len() - i,
    {
        if f(&v[i]) {
            return Some(i);
        }
        i = i + 1;
    }
    None
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);

pub assume_specification [std::str::from_utf8] (v: &[u8]) -> (r: Result<&str, std::str::Utf8Error>)
    ensures
        r is Ok <==> valid_utf8(v@),
        r matches Ok(s) ==> encode_utf8(s@) == v@,
;
pub assume_specification [std::string::String::from_utf8] (v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures
        r is Ok <==> valid_utf8(v@),
        r matches Ok(s) ==> encode_utf8(s@) == v@,
;
/// `String::into_bytes`.
#[verifier::external_body]
fn vx_into_bytes(s: String) -> (r: Vec<u8>)
    ensures
        r@ == encode_utf8(s@),
{
    s.into_bytes()
}
#[verifier::external_body]
fn vx_clone_vec(v: &Vec<u8>) -> (r: Vec<u8>)
    ensures
        r@ == v@,
{
    v.clone()
}

proof fn lemma_ascii(s: Seq<u8>)
    requires
        forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 0x80,
    ensures
        valid_utf8(s),
    decreases s.len(),
{
    if s.len() > 0 { lemma_ascii(s.skip(1)); }
}
proof fn lemma_every_ascii(s: Seq<u8>)
    requires
        quoted(s) || atom_ext(s) || atom(s) || tag(s) || list_chars(s),
    ensures
        valid_utf8(s),
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 0x80 by {
        assert(text_char(s[i]) || astring_char(s[i]) || atom_char(s[i]) || tag_char(s[i]) || list_char(s[i]));
    }
    lemma_ascii(s);
}

// ===== text types ==================================================================================

'''

o = [PRE]
for f, s in IND.items():
    o.append(f"//@ fn {f} -> r\n    ensures\n        r == {s}({PARAM.get(f, 'i')}),\n//@ endfn\n")
o.append("//@ fn is_any_text_char_except_quoted_specials -> r\n    ensures\n        r == (text_char(byte) && !quoted_specials(byte)),\n//@ endfn\n")
o.append(STD)

CONV = [("&'a [u8]", "b", "value@"), ("Vec<u8>", "b", "value@"), ("&'a str", "c", "encode_utf8(value@)"), ("String", "c", "encode_utf8(value@)")]


def spec_impl(ty, frm):
    return f"""impl<'a> TryFromSpecImpl<{frm}> for {ty}<'a> {{
    open spec fn obeys_try_from_spec() -> bool {{ false }}
    open spec fn try_from_spec(value: {frm}) -> Result<Self, ValidationError> {{ arbitrary() }}
}}
"""


def header(frm, ty, src_lt):
    """How the source writes the impl."""
    lt = "'a" if "'a" in frm or src_lt else "'_"
    return f"//@ impl TryFrom<{frm}> for {ty}<{lt}> {{\n"


def conv(ty, frm, contract, extra="", lt=False):
    o.append(spec_impl(ty, frm))
    o.append(header(frm, ty, lt))
    o.append("//@ fn try_from -> r\n" + contract + extra + "//@ endfn\n//@ endimpl\n\n")


def text_type(file, ty, pred, ch, extra_conv=()):
    o.append(f"//@ file {file}\n//@ struct {ty}\n//@ impl {ty}<'a> {{\n//@ fn validate -> r\n//@ wrap iter=vx_iter:own position=vx_position:own\n//@ closure 0 |b: &u8| -> (x: bool) ensures x == !{ch}(*b)\n    ensures\n        r is Ok <==> {pred}(value.bytes()),\n//@ endfn\n" + ("" if ty == "Tag" else "//@ fn into_inner -> r\n    ensures\n        r == self.0,\n//@ endfn\n") + "//@ endimpl\n\n")
    for frm, kind, by in CONV:
        keep = "r matches Ok(a) ==> encode_utf8(a.0@) == value@" if kind == "b" else "r matches Ok(a) ==> a.0@ == value@"
        start = "//@ start\n    proof { if %s(value@) { lemma_every_ascii(value@); } }\n" % pred if kind == "b" else ""
        conv(ty, frm, f"    ensures\n        r is Ok <==> {pred}({by}),\n        {keep},\n", start)


C = "imap-types/src/core.rs"
text_type(C, "Atom", "atom", "atom_char")
text_type(C, "AtomExt", "atom_ext", "astring_char")
text_type(C, "Tag", "tag", "tag_char")
text_type(C, "Text", "text", "text_char")
text_type(C, "Quoted", "quoted", "text_char")

# literals
o.append("""//@ enum LiteralMode #[derive(Clone, Copy)]
//@ struct Literal
//@ impl Literal<'a> {
//@ fn validate -> r
//@ wrap iter=vx_iter:own position=vx_position:own
//@ closure 0 |b: &u8| -> (x: bool) ensures x == !char8(*b)
    ensures
        r is Ok <==> literal(value.bytes()),
//@ endfn
//@ fn mode -> r
    ensures
        r == self.mode,
//@ endfn
//@ fn set_mode
    ensures
        final(self).mode == mode,
        final(self).data == old(self).data,
//@ endfn
//@ fn into_sync -> r
//@ sig fn into_sync(self) -> (r: Self)
//@ path self=>vx_self
    ensures
        r.mode is Sync,
        r.data == self.data,
//@ start
    let mut vx_self = self;
//@ endfn
//@ fn into_non_sync -> r
//@ sig fn into_non_sync(self) -> (r: Self)
//@ path self=>vx_self
    ensures
        r.mode is NonSync,
        r.data == self.data,
//@ start
    let mut vx_self = self;
//@ endfn
//@ fn into_inner -> r
    ensures
        r == self.data,
//@ endfn
//@ endimpl

""")
for frm, kind, by in CONV:
    conv("Literal", frm, f"//@ wrap into_bytes=vx_into_bytes:own\n    ensures\n        r is Ok <==> literal({by}),\n        r matches Ok(l) ==> l.data@ == {by} && l.mode is Sync,\n")

# representations
o.append("""// ===== strings in one of several representations ===================================================

//@ file imap-types/src/extensions/utf8.rs
//@ struct QuotedUtf8
//@ file imap-types/src/core.rs
//@ enum IString
//@ enum AString
//@ enum Charset

/// The bytes that are denoted.
pub open spec fn of_istring(s: IString) -> Seq<u8> {
    match s { IString::Literal(l) => l.data@, IString::Quoted(q) => encode_utf8(q.0@), IString::QuotedUtf8(q) => encode_utf8(q.0@) }
}
pub open spec fn of_astring(s: AString) -> Seq<u8> {
    match s { AString::Atom(a) => encode_utf8(a.0@), AString::String(s) => of_istring(s) }
}
pub open spec fn of_charset(s: Charset) -> Seq<u8> {
    match s { Charset::Atom(a) => encode_utf8(a.0@), Charset::Quoted(q) => encode_utf8(q.0@) }
}
/// The simplest representation that can carry `b`.
pub open spec fn best_istring(r: Result<IString, ValidationError>, b: Seq<u8>) -> bool {
    &&& r is Ok <==> literal(b) || quoted(b)
    &&& r matches Ok(s) ==> of_istring(s) == b && (quoted(b) ==> s is Quoted) && (!quoted(b) ==> s is Literal && s->Literal_0.mode is Sync)
}
pub open spec fn best_astring(r: Result<AString, ValidationError>, b: Seq<u8>) -> bool {
    &&& r is Ok <==> atom_ext(b) || literal(b) || quoted(b)
    &&& r matches Ok(s) ==> of_astring(s) == b && (atom_ext(b) <==> s is Atom)
    &&& r matches Ok(AString::String(s)) ==> best_istring(Ok(s), b)
}
pub open spec fn best_charset(r: Result<Charset, ValidationError>, b: Seq<u8>) -> bool {
    &&& r is Ok <==> atom(b) || quoted(b)
    &&& r matches Ok(s) ==> of_charset(s) == b && (atom(b) <==> s is Atom)
}

""")
for ty, sp in (("IString", "best_istring"), ("AString", "best_astring"), ("Charset", "best_charset")):
    for frm, kind, by in CONV:
        w = "//@ wrap clone=vx_clone_vec:ref\n" if frm == "Vec<u8>" else ""
        conv(ty, frm, w + f"    ensures\n        {sp}(r, {by}),\n")

o.append("""//@ impl IString<'a> {
//@ fn into_inner -> r
//@ wrap into_bytes=vx_into_bytes:own
    ensures
        r@ == of_istring(self),
//@ endfn
//@ endimpl

""")


# the types' own AsRef, and mailboxes
o.append("""
// ===== views =======================================================================================

/// `Cow::<str>::as_ref`, `&*cow`.
#[verifier::external_body]
fn vx_cow_str<'x, 'a>(c: &'x Cow<'a, str>) -> (r: &'x str)
    ensures
        r@ == c@,
{
    c
}
#[verifier::external_body]
fn vx_cow_bytes<'x, 'a>(c: &'x Cow<'a, [u8]>) -> (r: &'x [u8])
    ensures
        r@ == c@,
{
    c
}

""")
for ty in ("Atom", "AtomExt", "Tag", "Text", "Quoted"):
    cow = "//@ wrap as_ref=vx_cow_str:ref\n" if ty not in ("AtomExt", "Quoted") else "//@ refwrap self.0=>vx_cow_str\n"
    o.append(f"//@ file {C}\n//@ impl AsRef<str> for {ty}<'_> {{\n    open spec fn bytes(&self) -> Seq<u8> {{ encode_utf8(self.0@) }}\n//@ fn as_ref\n{cow}//@ endfn\n//@ endimpl\n")

o.append("""//@ impl AsRef<[u8]> for Literal<'_> {
    open spec fn bytes(&self) -> Seq<u8> { self.data@ }
//@ fn as_ref
//@ refwrap self.data=>vx_cow_bytes
//@ endfn
//@ endimpl
#[verifier::external_body]
fn vx_cow_as_bytes<'x, 'a>(c: &'x Cow<'a, str>) -> (r: &'x [u8])
    ensures
        r@ == encode_utf8(c@),
{
    c.as_bytes()
}
//@ impl AsRef<[u8]> for IString<'_> {
    open spec fn bytes(&self) -> Seq<u8> { of_istring(*self) }
//@ fn as_ref
//@ wrap as_bytes=vx_as_bytes:method
//@ endfn
//@ endimpl
//@ impl AsRef<[u8]> for AString<'_> {
    open spec fn bytes(&self) -> Seq<u8> { of_astring(*self) }
//@ fn as_ref
//@ endfn
//@ endimpl
//@ impl AsRef<str> for Charset<'_> {
    open spec fn bytes(&self) -> Seq<u8> { of_charset(*self) }
//@ fn as_ref
//@ endfn
//@ endimpl
/// `str::as_bytes`, also through a `Cow`.
pub trait VxAsBytes { spec fn vx_bytes(&self) -> Seq<u8>; fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == self.vx_bytes(); }
impl VxAsBytes for str { open spec fn vx_bytes(&self) -> Seq<u8> { encode_utf8(self@) } fn vx_as_bytes(&self) -> &[u8] { self.as_bytes() } }
impl<'a> VxAsBytes for Cow<'a, str> { open spec fn vx_bytes(&self) -> Seq<u8> { encode_utf8(self@) } fn vx_as_bytes(&self) -> &[u8] { vx_cow_as_bytes(self) } }

// ===== optional strings ============================================================================

//@ struct NString
""")
for frm, kind, by in CONV:
    conv("NString", frm, f"    ensures\n        r is Ok <==> literal({by}) || quoted({by}),\n        r matches Ok(n) ==> n.0 is Some && best_istring(Ok(n.0->0), {by}),\n", lt=True)

M = "imap-types/src/mailbox.rs imap-types/src/core.rs"
o.append(f"""// ===== mailboxes ===================================================================================

//@ file {M}
//@ struct ListCharString
//@ impl ListCharString<'a> {{
//@ fn validate -> r
//@ wrap iter=vx_iter:own position=vx_position:own
//@ closure 0 |b: &u8| -> (x: bool) ensures x == !list_char(*b)
    ensures
        r is Ok <==> list_chars(value.bytes()),
//@ endfn
//@ endimpl
""")
for frm, kind, by in CONV[2:]:
    conv("ListCharString", frm, f"    ensures\n        r is Ok <==> list_chars({by}),\n        r matches Ok(a) ==> a.0@ == value@,\n")
o.append("""//@ impl AsRef<[u8]> for ListCharString<'_> {
    open spec fn bytes(&self) -> Seq<u8> { encode_utf8(self.0@) }
//@ fn as_ref
//@ wrap as_bytes=vx_cow_as_bytes:ref
//@ endfn
//@ endimpl
//@ enum ListMailbox
pub open spec fn of_list_mailbox(s: ListMailbox) -> Seq<u8> {
    match s { ListMailbox::Token(t) => encode_utf8(t.0@), ListMailbox::String(s) => of_istring(s) }
}
pub open spec fn best_list_mailbox(r: Result<ListMailbox, ValidationError>, b: Seq<u8>) -> bool {
    &&& r is Ok <==> list_chars(b) || literal(b) || quoted(b)
    &&& r matches Ok(s) ==> of_list_mailbox(s) == b && (list_chars(b) <==> s is Token)
    &&& r matches Ok(ListMailbox::String(s)) ==> best_istring(Ok(s), b)
}
""")
for frm, kind, by in CONV[2:]:
    conv("ListMailbox", frm, f"    ensures\n        best_list_mailbox(r, {by.replace('value', 's')}),\n")

o.append("""//@ enum MailboxOtherError #[derive(Debug)]
//@ enum Mailbox
//@ struct MailboxOther

pub open spec fn lower(b: u8) -> u8 { if 0x41 <= b <= 0x5a { (b + 0x20) as u8 } else { b } }
/// Equal up to the case of ASCII letters.
pub open spec fn same(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lower(#[trigger] a[i]) == lower(b[i]) }
pub open spec fn inbox(b: Seq<u8>) -> bool { same(b, seq![0x69u8, 0x6e, 0x62, 0x6f, 0x78]) }

/// `eq_ignore_ascii_case` of slices and strings.
pub trait VxEqCase { spec fn vx_seq(&self) -> Seq<u8>; fn vx_eq_case(&self, o: &Self) -> (r: bool) ensures r == same(self.vx_seq(), o.vx_seq()); }
impl VxEqCase for str {
    open spec fn vx_seq(&self) -> Seq<u8> { encode_utf8(self@) }
    #[verifier::external_body]
    fn vx_eq_case(&self, o: &Self) -> bool { self.eq_ignore_ascii_case(o) }
}
impl VxEqCase for [u8] {
    open spec fn vx_seq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_eq_case(&self, o: &Self) -> bool { self.eq_ignore_ascii_case(o) }
}
proof fn lemma_inbox()
    ensures
        encode_utf8("inbox"@) == seq![0x69u8, 0x6e, 0x62, 0x6f, 0x78],
{
    reveal_strlit("inbox");
    assert("inbox"@ =~= seq!['i', 'n', 'b', 'o', 'x']);
    is_ascii_chars_encode_utf8("inbox"@);
    assert(encode_utf8("inbox"@) =~= seq![0x69u8, 0x6e, 0x62, 0x6f, 0x78]);
}
proof fn lemma_same(a: Seq<u8>)
    requires
        inbox(a),
    ensures
        valid_utf8(a),
{
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] < 0x80 by {
        assert(lower(a[i]) == lower(seq![0x69u8, 0x6e, 0x62, 0x6f, 0x78][i]));
    }
    lemma_ascii(a);
}
impl FromSpecImpl<ValidationError> for MailboxOtherError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ValidationError) -> MailboxOtherError { MailboxOtherError::Literal(v) }
}
/// `#[from]` of thiserror.
impl From<ValidationError> for MailboxOtherError {
    fn from(v: ValidationError) -> MailboxOtherError { MailboxOtherError::Literal(v) }
}
//@ impl MailboxOther<'a> {
//@ fn validate -> r
//@ wrap eq_ignore_ascii_case=vx_eq_case:method
    ensures
        r is Err <==> inbox(value.bytes()),
//@ endfn
//@ fn inner -> r
    ensures
        *r == self.0,
//@ endfn
//@ endimpl

""")
def spec2(ty, frm, err="MailboxOtherError"):
    return spec_impl(ty, frm).replace("ValidationError", err)
for frm, kind, by in CONV:
    o.append(spec2("MailboxOther", frm) + header(frm, "MailboxOther", True))
    o.append(f"""//@ fn try_from -> r
    ensures
        r is Ok <==> !inbox({by}) && (atom_ext({by}) || literal({by}) || quoted({by})),
        r matches Ok(m) ==> best_astring(Ok(m.0), {by}),
//@ endfn
//@ endimpl

""")
o.append(spec2("MailboxOther", "AString<'a>") + """//@ impl TryFrom<AString<'a>> for MailboxOther<'a> {
//@ fn try_from -> r
    ensures
        r is Err <==> inbox(of_astring(value)),
        r matches Ok(m) ==> m.0 == value,
//@ endfn
//@ endimpl
//@ impl AsRef<[u8]> for MailboxOther<'_> {
    open spec fn bytes(&self) -> Seq<u8> { of_astring(self.0) }
//@ fn as_ref
//@ endfn
//@ endimpl

impl<'a> FromSpecImpl<AString<'a>> for Mailbox<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: AString<'a>) -> Self { arbitrary() }
}
//@ impl From<AString<'a>> for Mailbox<'a> {
//@ fn from -> r
//@ wrap eq_ignore_ascii_case=vx_eq_case:method
    ensures
        inbox(of_astring(value)) ==> r is Inbox,
        !inbox(of_astring(value)) ==> r == Mailbox::Other(MailboxOther(value)),
//@ start
    proof {
        lemma_inbox();
        if inbox(of_astring(value)) { lemma_same(of_astring(value)); }
    }
//@ endfn
//@ endimpl

""")
for frm, kind, by in CONV:
    o.append(spec_impl("Mailbox", frm) + f"""//@ impl TryFrom<{frm}> for Mailbox<'a> {{
//@ fn try_from -> r
    ensures
        r is Ok <==> atom_ext({by}) || literal({by}) || quoted({by}),
        r matches Ok(m) ==> (m is Inbox <==> inbox({by})) && (m matches Mailbox::Other(o) ==> best_astring(Ok(o.0), {by})),
//@ start
    proof {{
        if inbox({by}) {{ lemma_inbox_atom({by}); }}
    }}
//@ endfn
//@ endimpl

""")
o.append("""proof fn lemma_inbox_atom(b: Seq<u8>)
    requires
        inbox(b),
    ensures
        atom_ext(b),
{
    assert forall|i: int| 0 <= i < b.len() implies astring_char(#[trigger] b[i]) by {
        assert(lower(b[i]) == lower(seq![0x69u8, 0x6e, 0x62, 0x6f, 0x78][i]));
    }
}
""")

def from_impl(frm, ty, post):
    o.append(f"""impl<'a> FromSpecImpl<{frm}> for {ty}<'a> {{
    open spec fn obeys_from_spec() -> bool {{ false }}
    open spec fn from_spec(value: {frm}) -> Self {{ arbitrary() }}
}}
//@ impl From<{frm}> for {ty}<'a> {{
//@ fn from -> r
    ensures
        {post},
//@ endfn
//@ endimpl
""")


o.append("//@ file imap-types/src/core.rs\n")
from_impl("Literal<'a>", "IString", "r == IString::Literal(value)")
from_impl("Quoted<'a>", "IString", "r == IString::Quoted(value)")
from_impl("Literal<'a>", "NString", "r.0 == Some(IString::Literal(value))")
from_impl("Quoted<'a>", "NString", "r.0 == Some(IString::Quoted(value))")
from_impl("Literal<'a>", "AString", "r == AString::String(IString::Literal(value))")
from_impl("Quoted<'a>", "AString", "r == AString::String(IString::Quoted(value))")
from_impl("Atom<'a>", "AtomExt", "r.0 == value.0")
from_impl("Atom<'a>", "AString", "of_astring(r) == encode_utf8(atom.0@), r is Atom")
from_impl("Atom<'a>", "Charset", "r == Charset::Atom(value)")
from_impl("Quoted<'a>", "Charset", "r == Charset::Quoted(value)")
conv("Atom", "Cow<'a, str>", "    ensures\n        r is Ok <==> atom(encode_utf8(value@)),\n        r matches Ok(a) ==> a.0 == value,\n", "//@ wrap as_bytes=vx_as_bytes:method\n")
from_impl("AtomExt<'a>", "AString", "r == AString::Atom(atom)")
o.append("""//@ impl NString<'a> {
//@ fn into_option -> r
//@ optmatch map
    ensures
        r is Some <==> self.0 is Some,
        self.0 matches Some(s) ==> r->0@ == of_istring(s),
//@ endfn
//@ endimpl

// ===== quoted characters ===========================================================================

pub open spec fn quoted_char(c: char) -> bool { (c as u32) < 0x80 && text_char(c as u8) }
/// `char::is_ascii`.
#[verifier::external_body]
fn vx_is_ascii(c: &char) -> (r: bool)
    ensures
        r == ((*c as u32) < 0x80),
{
    c.is_ascii()
}
//@ struct QuotedChar
//@ impl QuotedChar {
//@ fn validate -> r
//@ wrap is_ascii=vx_is_ascii:ref
    ensures
        r is Ok <==> quoted_char(input),
//@ endfn
//@ fn inner -> r
    ensures
        r == self.0,
//@ endfn
//@ endimpl
impl TryFromSpecImpl<char> for QuotedChar {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: char) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<char> for QuotedChar {
//@ fn try_from -> r
    ensures
        r is Ok <==> quoted_char(value),
        r matches Ok(q) ==> q.0 == value,
//@ endfn
//@ endimpl

""")
# lists
o.append("""// ===== lists with a minimum length =================================================================

//@ file imap-types/src/core.rs
//@ struct VecN
type Vec1<T> = VecN<T, 1>;
type Vec2<T> = VecN<T, 2>;
//@ impl VecN<T, N> {
//@ fn validate -> r
    ensures
        r is Ok <==> value@.len() >= N,
//@ endfn
//@ fn unvalidated -> r
    requires
        inner@.len() >= N,
    ensures
        r.0@ == inner@,
//@ endfn
//@ fn into_inner -> r
    ensures
        r@ == self.0@,
//@ endfn
//@ endimpl

impl<T, const N: usize> TryFromSpecImpl<Vec<T>> for VecN<T, N> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: Vec<T>) -> Result<Self, ValidationError> { arbitrary() }
}
//@ impl TryFrom<Vec<T>> for VecN<T, N> {
//@ fn try_from -> r
    ensures
        r is Ok <==> inner@.len() >= N,
        r matches Ok(v) ==> v.0@ == inner@,
//@ endfn
//@ endimpl

/// `Vec::from([T; N])`.
#[verifier::external_body]
fn vx_vec_from<T, const N: usize>(a: [T; N]) -> (r: Vec<T>)
    ensures
        r@ == a@,
{
    Vec::from(a)
}
impl<T, const N: usize> FromSpecImpl<[T; N]> for VecN<T, N> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(value: [T; N]) -> Self { arbitrary() }
}
//@ impl From<[T; N]> for VecN<T, N> {
//@ fn from -> r
//@ path Vec::from=>vx_vec_from
    ensures
        r.0@ == value@,
        r.0@.len() == N,
//@ endfn
//@ endimpl

//@ impl From<T> for Vec1<T> => impl<T> Vec1<T> {
//@ fn from -> r
//@ as from_one
    ensures
        r.0@ == seq![value],
//@ endfn
//@ endimpl

//@ impl From<(T, T)> for Vec2<T> => impl<T> Vec2<T> {
//@ fn from -> r
//@ as from_two
//@ sig fn from_two(v: (T, T)) -> (r: Self)
    ensures
        r.0@ == seq![v.0, v.1],
//@ start
    let (v1, v2) = v;
//@ endfn
//@ endimpl

//@ file imap-codec/src/fragmentizer.rs
/// `iter().enumerate()`
fn vx_whole<'a>(s: &'a [u8]) -> (r: &'a [u8])
    ensures r@ == s@,
{
    s
}
fn vx_ok<T, E>(r: Result<T, E>) -> (o: Option<T>)
    ensures o == (match r { Ok(v) => Some(v), Err(_) => None::<T> }),
{
    match r { Ok(v) => Some(v), Err(_) => None }
}
struct VxEnumerate<'a> { s: &'a [u8], i: usize }
fn vx_enumerate<'a>(s: &'a [u8]) -> (r: VxEnumerate<'a>)
    ensures r.s@ == s@, r.i == 0,
{
    VxEnumerate { s, i: 0 }
}
impl<'a> VxEnumerate<'a> {
    fn next(&mut self) -> (r: Option<(usize, &'a u8)>)
        requires old(self).i <= old(self).s@.len(),
        ensures
            final(self).s@ == old(self).s@,
            final(self).i <= final(self).s@.len(),
            old(self).i < old(self).s@.len() ==> final(self).i == old(self).i + 1 && (r matches Some((i, b)) && i == old(self).i && *b == old(self).s@[i as int]),
            old(self).i >= old(self).s@.len() ==> r is None,
    {
        if self.i < self.s.len() {
            let i = self.i;
            self.i = i + 1;
            Some((i, &self.s[i]))
        } else {
            None
        }
    }
}
/// The bytes before the first space, if there is one in the first line.
spec fn leading(s: Seq<u8>, n: int) -> bool { 0 <= n < s.len() && s[n] == 0x20 && forall|k: int| 0 <= k < n ==> s[k] != 0x20 }
//@ fn parse_tag -> r
//@ wrap iter=vx_whole:own enumerate=vx_enumerate:own ok=vx_ok:own
    ensures
        // a valid tag followed by a space is the tag
        forall|n: int| #[trigger] leading(message_bytes@, n) && tag(message_bytes@.take(n)) ==> r is Some && encode_utf8((r->0).0@) == message_bytes@.take(n),
        // and nothing else is
        r is Some ==> exists|n: int| #[trigger] leading(message_bytes@, n) && tag(message_bytes@.take(n)),
//@ loop 0 inv
    invariant_except_break
        forall|k: int| 0 <= k < bytes.i ==> message_bytes@[k] != 0x20,
    invariant
        bytes.s@ == message_bytes@,
        bytes.i <= bytes.s@.len(),
        forall|n: int, k: int| #![trigger leading(message_bytes@, n), message_bytes@[k]] leading(message_bytes@, n) && tag(message_bytes@.take(n)) && 0 <= k < n ==> message_bytes@[k] != 0x0a,
    ensures
        leading(message_bytes@, sp as int),
    decreases message_bytes@.len() - bytes.i,
//@ start
    proof {
        assert forall|n: int, k: int| #![trigger leading(message_bytes@, n), message_bytes@[k]] leading(message_bytes@, n) && tag(message_bytes@.take(n)) && 0 <= k < n implies message_bytes@[k] != 0x0a by {
            assert(message_bytes@.take(n)[k] == message_bytes@[k]);
        }
    }
//@ endfn

""")

HERE = os.path.dirname(os.path.abspath(__file__))
open(os.path.join(HERE, "core.rs"), "w").write("".join(o + [POST]))

# ---- serde.rs: what serde's derive makes of documents (C17)
o[0] = o[0].replace("//@ cfg ext_utf8", "//@ cfg ext_utf8 serde", 1)
DE = """//@ file FILE
//@ deser TYPE
    ensures
        r matches Some(v) ==> VALID,
BACK//@ enddeser
"""
BACK = """//@ back
        // what a valid value is written as gives it again
        GIVEN ==> (r matches Some(v) && SAME),
"""
o.append("""// ===== serde =======================================================================================
/// The reading side of serde: a deserializer gives bytes, or fails.
mod serde {
    use super::*;
    pub mod de {
        use super::*;
        pub trait Error: Sized { fn custom(e: ValidationError) -> Self; }
        pub trait Deserializer<'de>: Sized {
            type Error: Error;
            spec fn data(&self) -> Option<Seq<u8>>;
            fn vx_vec(self) -> (r: Result<Vec<u8>, Self::Error>)
                ensures
                    r is Ok <==> self.data() is Some,
                    r matches Ok(v) ==> self.data() == Some(v@);
        }
    }
}
fn vx_de_vec<'de, D: serde::de::Deserializer<'de>>(d: D) -> (r: Result<Vec<u8>, D::Error>)
    ensures
        r is Ok <==> d.data() is Some,
        r matches Ok(v) ==> d.data() == Some(v@),
{
    d.vx_vec()
}
fn vx_custom<E: serde::de::Error>(e: ValidationError) -> E { E::custom(e) }
//@ file imap-types/src/core.rs
//@ fn deserialize_literal_data -> r
//@ path Vec::deserialize=>vx_de_vec
//@ path serde::de::Error::custom=>vx_custom
    ensures
        r matches Ok(c) ==> deserializer.data() == Some(c@) && literal(c@),
        (deserializer.data() matches Some(d) && literal(d)) ==> r is Ok,
//@ endfn
""")
def de(file, ty, valid, given=None, same="v.0@ == x@"):
    back = BACK.replace("GIVEN", given).replace("SAME", same) if given else ""
    return DE.replace("FILE", file).replace("TYPE", ty).replace("VALID", valid).replace("BACK", back)

C = "imap-types/src/core.rs"
for ty, p in [("Atom", "atom"), ("AtomExt", "atom_ext"), ("Tag", "tag"), ("Text", "text"), ("Quoted", "quoted")]:
    o.append(de(C, ty, f"{p}(encode_utf8(v.0@))", f"{p}(encode_utf8(x@))"))
o.append(de(C, "QuotedChar", "quoted_char(v.0)", "quoted_char(x)", "v.0 == x"))
o.append(de(C, "Literal", "literal(v.data@)", "(x0.data() matches Some(d) && literal(d))", "Some(v.data@) == x0.data() && v.mode == x1"))
o.append(de(C, "VecN", "v.0@.len() >= N", "x@.len() >= N"))
o.append(de("imap-types/src/mailbox.rs", "ListCharString", "list_chars(encode_utf8(v.0@))", "list_chars(encode_utf8(x@))"))
o.append(de("imap-types/src/mailbox.rs", "MailboxOther", "!inbox(of_astring(v.0))", "!inbox(of_astring(x))", "v.0 == x"))
o.append("""
mod chrono {
    use super::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct DateTime<T>(T);
    pub struct FixedOffset(u8);
    #[verifier::external_body]
    pub struct NaiveDate(u8);
}
use chrono::FixedOffset;
// proved with the real chrono by the Kani harnesses of unit c15
pub uninterp spec fn dt_valid(x: chrono::DateTime<FixedOffset>) -> bool;
pub uninterp spec fn date_valid(x: chrono::NaiveDate) -> bool;
//@ file imap-types/src/datetime.rs
//@ enum DateTimeError
//@ enum NaiveDateError
//@ struct DateTime
//@ struct NaiveDate
impl DateTime {
    #[verifier::external_body]
    fn validate(value: &chrono::DateTime<FixedOffset>) -> (r: Result<(), DateTimeError>)
        ensures r is Ok <==> dt_valid(*value),
    { unimplemented!() }
}
impl NaiveDate {
    #[verifier::external_body]
    fn validate(value: &chrono::NaiveDate) -> (r: Result<(), NaiveDateError>)
        ensures r is Ok <==> date_valid(*value),
    { unimplemented!() }
}
impl TryFromSpecImpl<chrono::DateTime<FixedOffset>> for DateTime {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: chrono::DateTime<FixedOffset>) -> Result<Self, DateTimeError> { arbitrary() }
}
//@ impl TryFrom<chrono::DateTime<FixedOffset>> for DateTime {
//@ fn try_from -> r
    ensures
        r is Ok <==> dt_valid(value),
        r matches Ok(d) ==> d.0 == value,
//@ endfn
//@ endimpl
impl TryFromSpecImpl<chrono::NaiveDate> for NaiveDate {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: chrono::NaiveDate) -> Result<Self, NaiveDateError> { arbitrary() }
}
//@ impl TryFrom<chrono::NaiveDate> for NaiveDate {
//@ fn try_from -> r
    ensures
        r is Ok <==> date_valid(value),
        r matches Ok(d) ==> d.0 == value,
//@ endfn
//@ endimpl
""")
D = "imap-types/src/datetime.rs"
o.append(de(D, "DateTime", "dt_valid(v.0)", "dt_valid(x)", "v.0 == x"))
o.append(de(D, "NaiveDate", "date_valid(v.0)", "date_valid(x)", "v.0 == x"))
o.append("""
/// Unit ctor: what `new` refuses.
pub uninterp spec fn ambiguous<'a>(c: Option<Code<'a>>, t: Text<'a>) -> bool;
#[verifier::external_body]
pub struct Code<'a> { t: std::marker::PhantomData<&'a u8> }
use std::convert::Infallible;
//@ file imap-types/src/response.rs
//@ enum ContinueError
//@ struct CommandContinuationRequestBasic
//@ struct CommandContinuationRequestBasicShadow
/// `CommandContinuationRequestBasic::new` at a `Text` (unit ctor).
#[verifier::external_body]
fn vx_new<'a>(code: Option<Code<'a>>, text: Text<'a>) -> (r: Result<CommandContinuationRequestBasic<'a>, ContinueError<Infallible>>)
    ensures
        r is Ok <==> !ambiguous(code, text),
        r matches Ok(b) ==> b.code == code && b.text == text,
{ unimplemented!() }
impl<'a> TryFromSpecImpl<CommandContinuationRequestBasicShadow<'a>> for CommandContinuationRequestBasic<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: CommandContinuationRequestBasicShadow<'a>) -> Result<Self, ContinueError<Infallible>> { arbitrary() }
}
//@ impl TryFrom<CommandContinuationRequestBasicShadow<'a>> for CommandContinuationRequestBasic<'a> {
//@ fn try_from -> r
//@ path Self::new=>vx_new
    ensures
        r is Ok <==> !ambiguous(value.code, value.text),
        r matches Ok(b) ==> b.code == value.code && b.text == value.text,
//@ endfn
//@ endimpl
""")
o.append(de("imap-types/src/response.rs", "CommandContinuationRequestBasic", "!ambiguous(v.code, v.text)", "!ambiguous(x.code, x.text)", "v.code == x.code && v.text == x.text"))
o.append(de("imap-types/src/response.rs", "CommandContinuationRequestBasicShadow", "v.code == x0 && v.text == x1"))
o.append("""// every other type is read as it is written, part by part
//@ plainserde Atom AtomExt Tag Text Quoted QuotedChar Literal VecN ListCharString MailboxOther DateTime NaiveDate CommandContinuationRequestBasic CommandContinuationRequestBasicShadow QuotedUtf8
""")

o.append(POST)
open(os.path.join(HERE, "serde.rs"), "w").write("".join(o))
