#![allow(unused, non_snake_case, non_upper_case_globals, unused_parens, unused_braces)]
use std::{borrow::Cow, collections::VecDeque, num::{NonZeroU32, NonZeroU64}};
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use vstd::std_specs::vecdeque::*;
verus! {

//@ include grammar.inc
//@ include esc.inc

// ===== what a line may hold =========================================================================

/// No CR, no LF.
#[verifier::opaque]
spec fn clean(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 13 && s[i] != 10 }
/// No CR, no LF, no opening brace.
#[verifier::opaque]
spec fn safe(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 13 && s[i] != 10 && s[i] != 123 }
/// Every opening brace is followed, anywhere later, by a double quote: what is written can not end in an announcement.
#[verifier::opaque]
spec fn guarded(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() && #[trigger] s[i] == 123 ==> exists|j: int| i < j < s.len() && #[trigger] s[j] == 34 }

spec fn safe_rec(s: Seq<u8>) -> bool
    decreases s.len(),
{
    s.len() == 0 || (s[0] != 13 && s[0] != 10 && s[0] != 123 && safe_rec(s.skip(1)))
}
proof fn lemma_safe_rec(s: Seq<u8>)
    requires
        safe_rec(s),
    ensures
        safe(s),
    decreases s.len(),
{
    reveal(safe);
    if s.len() > 0 {
        lemma_safe_rec(s.skip(1));
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != 13 && s[i] != 10 && s[i] != 123 by {
            if i > 0 { assert(s[i] == s.skip(1)[i - 1]); }
        }
    }
}
spec fn ascii_rec(s: Seq<char>) -> bool
    decreases s.len(),
{
    s.len() == 0 || ((s[0] as u32) < 0x80 && s[0] != '\r' && s[0] != '\n' && s[0] != '{' && ascii_rec(s.skip(1)))
}
proof fn lemma_ascii_chars(s: Seq<char>)
    requires
        ascii_rec(s),
    ensures
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80 && s[i] != '\r' && s[i] != '\n' && s[i] != '{',
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_ascii_chars(s.skip(1));
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 0x80 && s[i] != '\r' && s[i] != '\n' && s[i] != '{' by {
            if i > 0 { assert(s[i] == s.skip(1)[i - 1]); }
        }
    }
}
proof fn lemma_ascii_rec(s: Seq<char>)
    requires
        ascii_rec(s),
    ensures
        safe(encode_utf8(s)),
{
    reveal(safe);
    lemma_ascii_chars(s);
    is_ascii_chars_encode_utf8(s);
    assert forall|i: int| 0 <= i < encode_utf8(s).len() implies #[trigger] encode_utf8(s)[i] != 13 && encode_utf8(s)[i] != 10 && encode_utf8(s)[i] != 123 by {
        assert(encode_utf8(s)[i] == s[i] as u8);
    }
}

broadcast proof fn lemma_safe_clean(s: Seq<u8>)
    requires
        #[trigger] safe(s),
    ensures
        clean(s),
        guarded(s),
{
    reveal(safe);
    reveal(clean);
    reveal(guarded);
}
broadcast proof fn lemma_safe_add(a: Seq<u8>, b: Seq<u8>)
    requires
        safe(a),
        safe(b),
    ensures
        #[trigger] safe(a + b),
{
    reveal(safe);
}
broadcast proof fn lemma_clean_add(a: Seq<u8>, b: Seq<u8>)
    requires
        clean(a),
        clean(b),
    ensures
        #[trigger] clean(a + b),
{
    reveal(clean);
}
broadcast proof fn lemma_guarded_add(a: Seq<u8>, b: Seq<u8>)
    requires
        guarded(a),
        guarded(b),
    ensures
        #[trigger] guarded(a + b),
{
    reveal(guarded);
    let s = a + b;
    assert forall|i: int| 0 <= i < s.len() && #[trigger] s[i] == 123 implies exists|j: int| i < j < s.len() && #[trigger] s[j] == 34 by {
        if i < a.len() {
            assert(a[i] == 123);
            let j = choose|j: int| i < j < a.len() && #[trigger] a[j] == 34;
            assert(s[j] == 34);
        } else {
            assert(b[i - a.len()] == 123);
            let j = choose|j: int| i - a.len() < j < b.len() && #[trigger] b[j] == 34;
            assert(s[j + a.len()] == 34);
        }
    }
}
/// A closing quote guards everything before it.
broadcast proof fn lemma_quote_guards(a: Seq<u8>, b: Seq<u8>)
    requires
        b.len() > 0,
        b.last() == 34,
    ensures
        #[trigger] guarded(a + b),
{
    reveal(guarded);
    let s = a + b;
    assert(s[s.len() - 1] == 34);
}
broadcast proof fn lemma_empty(s: Seq<u8>)
    requires
        s.len() == 0,
    ensures
        #![trigger safe(s)]
        #![trigger clean(s)]
        #![trigger guarded(s)]
        safe(s),
        clean(s),
        guarded(s),
{
    reveal(safe);
    reveal(clean);
    reveal(guarded);
}
spec fn ends_line(b: Seq<u8>) -> bool { b.len() >= 2 && b[b.len() - 2] == 13 && b[b.len() - 1] == 10 && safe(b.take(b.len() - 2)) }
/// CRLF at the end and nowhere else.
#[verifier::opaque]
spec fn ends(s: Seq<u8>) -> bool { s.len() >= 2 && s[s.len() - 2] == 13 && s[s.len() - 1] == 10 && clean(s.take(s.len() - 2)) }
/// ... and before it nothing that reads as an announcement.
#[verifier::opaque]
spec fn ends_plain(s: Seq<u8>) -> bool { ends(s) && guarded(s.take(s.len() - 2)) }
broadcast proof fn lemma_ends(a: Seq<u8>, b: Seq<u8>)
    requires
        clean(a),
        #[trigger] ends_line(b),
    ensures
        ends(#[trigger] (a + b)),
        guarded(a) ==> ends_plain(a + b),
{
    reveal(ends);
    reveal(ends_plain);
    let p = b.take(b.len() - 2);
    assert((a + b).take((a + b).len() - 2) =~= a + p);
    lemma_safe_clean(p);
    lemma_clean_add(a, p);
    if guarded(a) { lemma_guarded_add(a, p); }
}
broadcast group lines {
    lemma_ends,
    lemma_safe_clean,
    lemma_safe_add,
    lemma_clean_add,
    lemma_guarded_add,
    lemma_quote_guards,
    lemma_empty,
}

proof fn lemma_atom_safe(s: Seq<u8>)
    requires
        every(s, |b: u8| list_char(b)),
    ensures
        safe(s),
{
    reveal(safe);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != 13 && s[i] != 10 && s[i] != 123 by {
        assert(list_char(s[i]));
    }
}
/// Texts whose bytes come from characters: what holds of all ASCII bytes in one holds in the other.
proof fn lemma_text_clean(s: Seq<u8>)
    requires
        every(s, |b: u8| text_char(b)),
    ensures
        clean(s),
{
    reveal(clean);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != 13 && s[i] != 10 by {
        assert(text_char(s[i]));
    }
}

// ===== std ==========================================================================================

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
pub assume_specification<T> [<[T]>::split_last] (s: &[T]) -> (r: std::option::Option<(&T, &[T])>)
    ensures
        r is None <==> s@.len() == 0,
        r matches Some(x) ==> *x.0 == s@.last() && x.1@ == s@.drop_last(),
;
#[verifier::external_body]
fn vx_take(v: &mut Vec<u8>) -> (r: Vec<u8>)
    ensures
        r@ == old(v)@,
        final(v)@.len() == 0,
{
    std::mem::take(v)
}

/// The decimal digits of a number.
spec fn dec(n: nat) -> Seq<u8>
    decreases n,
{
    if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10) + seq![(48 + n % 10) as u8] }
}
proof fn lemma_dec(n: nat)
    ensures
        safe(dec(n)),
        dec(n).len() > 0,
        forall|i: int| 0 <= i < dec(n).len() ==> 48 <= #[trigger] dec(n)[i] <= 57,
    decreases n,
{
    reveal(safe);
    if n >= 10 { lemma_dec(n / 10); }
}

struct Formatter<'a> {
    buf: Vec<u8>,
    mark: std::marker::PhantomData<&'a u8>,
}
impl<'a> Formatter<'a> {
    fn write_str(&mut self, s: &str) -> (r: std::fmt::Result)
        ensures
            r is Ok,
            final(self).buf@ == old(self).buf@ + encode_utf8(s@),
    {
        let b = s.as_bytes();
        self.buf.extend_from_slice(b);
        Ok(())
    }
    fn write_all(&mut self, b: &[u8]) -> (r: std::fmt::Result)
        ensures
            r is Ok,
            final(self).buf@ == old(self).buf@ + b@,
    {
        self.buf.extend_from_slice(b);
        Ok(())
    }
    #[verifier::exec_allows_no_decreases_clause]
    fn vx_put<D: Display + ?Sized>(&mut self, d: &D) -> (r: std::fmt::Result)
        ensures
            r is Ok,
            exists|s: Seq<u8>| #[trigger] d.shown(s) && final(self).buf@ == old(self).buf@ + s,
    {
        let s = vx_show(d);
        self.buf.extend_from_slice(s.as_slice());
        Ok(())
    }
}
/// What a value prints as, starting from nothing.
trait Display {
    spec fn shown(&self, s: Seq<u8>) -> bool;
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: std::fmt::Result)
        requires
            old(f).buf@.len() == 0,
        ensures
            r is Ok,
            self.shown(final(f).buf@),
    ;
}
#[verifier::exec_allows_no_decreases_clause]
fn vx_show<D: Display + ?Sized>(d: &D) -> (r: Vec<u8>)
    ensures
        d.shown(r@),
{
    let mut f = Formatter { buf: Vec::new(), mark: std::marker::PhantomData };
    let x = d.fmt(&mut f);
    f.buf
}
/// `to_string`
#[verifier::external_body]
fn vx_to_string<D: Display + ?Sized>(d: &D) -> (r: String)
    ensures
        d.shown(encode_utf8(r@)),
{
    unimplemented!()
}
impl<T: Display + ?Sized> Display for &T {
    spec fn shown(&self, s: Seq<u8>) -> bool { (*self).shown(s) }
    #[verifier::exec_allows_no_decreases_clause]
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { (*self).fmt(f) }
}
impl Display for usize {
    spec fn shown(&self, s: Seq<u8>) -> bool { s == dec(*self as nat) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
impl Display for u32 {
    spec fn shown(&self, s: Seq<u8>) -> bool { safe(s) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
impl Display for u64 {
    spec fn shown(&self, s: Seq<u8>) -> bool { safe(s) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
impl Display for NonZeroU32 {
    spec fn shown(&self, s: Seq<u8>) -> bool { safe(s) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
impl Display for NonZeroU64 {
    spec fn shown(&self, s: Seq<u8>) -> bool { safe(s) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
impl Display for Cow<'_, str> {
    spec fn shown(&self, s: Seq<u8>) -> bool { s == encode_utf8(self@) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}

trait VxBytes {
    spec fn octets(&self) -> Seq<u8>;
    fn vx_as_bytes(&self) -> (r: &[u8])
        ensures
            r@ == self.octets(),
    ;
}
impl VxBytes for str {
    spec fn octets(&self) -> Seq<u8> { encode_utf8(self@) }
    fn vx_as_bytes(&self) -> (r: &[u8]) { self.as_bytes() }
}
impl VxBytes for String {
    spec fn octets(&self) -> Seq<u8> { encode_utf8(self@) }
    fn vx_as_bytes(&self) -> (r: &[u8]) { self.as_str().as_bytes() }
}
impl VxBytes for Cow<'_, str> {
    spec fn octets(&self) -> Seq<u8> { encode_utf8(self@) }
    #[verifier::external_body]
    fn vx_as_bytes(&self) -> (r: &[u8]) { self.as_bytes() }
}
trait VxRef<T: ?Sized> {
    spec fn referred(&self, r: &T) -> bool;
    fn vx_ref(&self) -> (r: &T)
        ensures
            self.referred(r),
    ;
}
impl VxRef<str> for Cow<'_, str> {
    spec fn referred(&self, r: &str) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vx_ref(&self) -> (r: &str) { self.as_ref() }
}
impl VxRef<[u8]> for Cow<'_, [u8]> {
    spec fn referred(&self, r: &[u8]) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vx_ref(&self) -> (r: &[u8]) { self.as_ref() }
}
impl<T> VxRef<[T]> for Vec<T> {
    spec fn referred(&self, r: &[T]) -> bool { r@ == self@ }
    fn vx_ref(&self) -> (r: &[T]) { self.as_slice() }
}
trait VxOptRef<T> {
    spec fn opt(&self) -> Option<T>;
    fn vx_ref(&self) -> (r: Option<&T>)
        ensures
            r matches Some(x) ==> self.opt() == Some(*x),
            r is None <==> self.opt() is None,
    ;
}
impl<T> VxOptRef<T> for Option<T> {
    spec fn opt(&self) -> Option<T> { *self }
    fn vx_ref(&self) -> (r: Option<&T>) { self.as_ref() }
}
/// A list behind a reference.
trait VxList<T> {
    spec fn elems(&self) -> Seq<T>;
    fn vx_list(&self) -> (r: &[T])
        ensures
            r@ == self.elems(),
    ;
}
impl<T> VxList<T> for [T] {
    spec fn elems(&self) -> Seq<T> { self@ }
    fn vx_list(&self) -> (r: &[T]) { self }
}
impl<T> VxList<T> for Vec<T> {
    spec fn elems(&self) -> Seq<T> { self@ }
    fn vx_list(&self) -> (r: &[T]) { self.as_slice() }
}
uninterp spec fn cow_elems<T: Clone>(c: Cow<'_, [T]>) -> Seq<T>;
impl<T: Clone> VxList<T> for Cow<'_, [T]> {
    spec fn elems(&self) -> Seq<T> { cow_elems(*self) }
    #[verifier::external_body]
    fn vx_list(&self) -> (r: &[T]) { self }
}
#[verifier::external_body]
fn vx_data<'a>(c: &'a Cow<'_, [u8]>) -> (r: &'a [u8])
    ensures
        r@ == c@,
{
    c
}
#[verifier::external_body]
fn vx_is_empty(c: &Cow<'_, [u8]>) -> (r: bool)
    ensures
        r == (c@.len() == 0),
{
    c.is_empty()
}

#[verifier::external_body]
fn vx_len(c: &Cow<'_, [u8]>) -> (r: usize)
    ensures
        r == c@.len(),
{
    c.len()
}

// base64 and chrono print letters, digits, signs, colons, blanks and padding
struct Base64;
const base64: Base64 = Base64;
impl Base64 {
    #[verifier::external_body]
    fn encode(&self, data: &Cow<'_, [u8]>) -> (r: String)
        ensures
            safe(encode_utf8(r@)),
    {
        unimplemented!()
    }
}
struct FixedOffset;
mod chrono {
    use vstd::prelude::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct DateTime<T> { t: std::marker::PhantomData<T> }
    #[verifier::external_body]
    pub struct NaiveDate { t: u8 }
    #[verifier::external_body]
    pub struct Formatted { t: u8 }
    impl<T> DateTime<T> {
        #[verifier::external_body]
        pub fn format(&self, f: &str) -> Formatted { unimplemented!() }
    }
    impl NaiveDate {
        #[verifier::external_body]
        pub fn format(&self, f: &str) -> Formatted { unimplemented!() }
    }
}
type ChronoDateTime<T> = chrono::DateTime<T>;
impl Display for chrono::Formatted {
    spec fn shown(&self, s: Seq<u8>) -> bool { safe(s) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}

// ===== types ========================================================================================

//@ wrap as_ref=vx_ref:method as_bytes=vx_as_bytes:method to_string=vx_to_string:ref
//@ file imap-types/src/core.rs
//@ items Atom AtomExt IString Literal Quoted NString AString Tag Text Charset NString8 VecN Vec1 Vec2
//@ struct QuotedChar #[derive(Clone, Copy)]
//@ enum LiteralMode #[derive(Clone, Copy)]
impl<'a> Atom<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { atom(encode_utf8(self.0@)) } }
impl<'a> AtomExt<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { atom_ext(encode_utf8(self.0@)) } }
impl<'a> Tag<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { tag(encode_utf8(self.0@)) } }
impl<'a> Text<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { text(encode_utf8(self.0@)) } }
impl<'a> Quoted<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { quoted(encode_utf8(self.0@)) } }
impl QuotedChar { #[verifier::type_invariant] spec fn inv(self) -> bool { (self.0 as u32) < 0x80 && text_char(self.0 as u8) } }

//@ impl Atom<'a> {
//@ fn inner -> r
    ensures
        safe(encode_utf8(r@)),
//@ start
    proof { use_type_invariant(self); lemma_atom_safe(encode_utf8(self.0@)); }
//@ endfn
//@ endimpl
//@ impl AsRef<str> for Atom<'_> => impl Atom<'_> {
//@ fn as_ref -> r
//@ as vx_ref
    ensures
        safe(encode_utf8(r@)),
//@ start
    proof { use_type_invariant(self); lemma_atom_safe(encode_utf8(self.0@)); }
//@ endfn
//@ endimpl
//@ impl AtomExt<'a> {
//@ fn inner -> r
    ensures
        safe(encode_utf8(r@)),
//@ start
    proof { use_type_invariant(self); lemma_atom_safe(encode_utf8(self.0@)); }
//@ endfn
//@ endimpl
//@ impl Tag<'a> {
//@ fn inner -> r
    ensures
        safe(encode_utf8(r@)),
//@ start
    proof { use_type_invariant(self); lemma_atom_safe(encode_utf8(self.0@)); }
//@ endfn
//@ endimpl
//@ impl Text<'a> {
//@ fn inner -> r
    ensures
        clean(encode_utf8(r@)),
//@ start
    proof { use_type_invariant(self); lemma_text_clean(encode_utf8(self.0@)); }
//@ endfn
//@ endimpl
//@ impl Quoted<'a> {
//@ fn inner -> r
    ensures
        r@ == self.0@,
        clean(encode_utf8(r@)),
//@ start
    proof { use_type_invariant(self); lemma_text_clean(encode_utf8(self.0@)); }
//@ endfn
//@ endimpl
//@ impl QuotedChar {
//@ fn inner -> r
    ensures
        (r as u32) < 0x80,
        text_char(r as u8),
//@ start
    proof { use_type_invariant(self); }
//@ endfn
//@ endimpl
//@ impl Literal<'a> {
//@ fn mode -> r
    ensures
        r == self.mode,
//@ endfn
//@ endimpl
//@ impl AsRef<[u8]> for Literal<'_> => impl Literal<'_> {
//@ fn as_ref -> r
//@ as vx_ref
//@ refwrap self.data=>vx_data
    ensures
        r@ == self.data@,
//@ endfn
//@ endimpl
//@ impl AsRef<[T]> for VecN<T, N> => impl<T, const N: usize> VecN<T, N> {
//@ fn as_ref -> r
//@ as vx_ref
    ensures
        r@ == self.0@,
//@ endfn
//@ endimpl

//@ file imap-types/src/secret.rs
//@ items Secret
//@ impl Secret<T> {
//@ fn declassify -> r
    ensures
        *r == self.0,
//@ endfn
//@ endimpl
//@ file imap-types/src/datetime.rs
//@ items DateTime NaiveDate
//@ impl AsRef<chrono::DateTime<FixedOffset>> for DateTime => impl DateTime {
//@ fn as_ref -> r
//@ as vx_ref
//@ endfn
//@ endimpl
//@ impl AsRef<chrono::NaiveDate> for NaiveDate => impl NaiveDate {
//@ fn as_ref -> r
//@ as vx_ref
//@ endfn
//@ endimpl
//@ file imap-types/src/auth.rs
//@ items AuthMechanism AuthMechanismOther AuthenticateData
//@ impl AsRef<str> for AuthMechanism<'_> => impl AuthMechanism<'_> {
//@ fn as_ref -> r
//@ as vx_ref
    ensures
        safe(encode_utf8(r@)),
//@ endfn
//@ endimpl
//@ file imap-types/src/body.rs
//@ items Body BasicFields SpecificFields BodyStructure SinglePartExtensionData MultiPartExtensionData Disposition Language Location BodyExtension
//@ file imap-types/src/command.rs
//@ items Command CommandBody SelectParameter? FetchModifier? StoreModifier?
//@ file imap-types/src/envelope.rs
//@ items Envelope Address
//@ file imap-types/src/extensions/binary.rs
//@ items LiteralOrLiteral8 Literal8
//@ file imap-types/src/extensions/compress.rs
//@ items CompressionAlgorithm
//@ file imap-types/src/extensions/condstore_qresync.rs
//@ items AttributeFlag AttributeFlagExtension EntryTypeReq?
//@ file imap-types/src/extensions/enable.rs
//@ items CapabilityEnable CapabilityEnableOther
//@ file imap-types/src/extensions/idle.rs
//@ items IdleDone
//@ file imap-types/src/extensions/metadata.rs
//@ items EntryValue Entry GetMetadataOption Depth MetadataCode MetadataResponse
//@ impl Entry<'a> {
//@ fn inner -> r
    ensures
        *r == self.0,
//@ endfn
//@ endimpl
//@ file imap-types/src/extensions/namespace.rs
//@ items Namespaces Namespace NamespaceResponseExtension
//@ file imap-types/src/extensions/quota.rs
//@ items Resource ResourceOther QuotaGet QuotaSet
//@ file imap-types/src/extensions/sort.rs
//@ items SortAlgorithm SortAlgorithmOther SortCriterion SortKey
//@ impl AsRef<str> for SortKey => impl SortKey {
//@ fn as_ref -> r
//@ as vx_ref
    ensures
        safe(encode_utf8(r@)),
//@ endfn
//@ endimpl
//@ impl AsRef<str> for SortAlgorithmOther<'_> => impl SortAlgorithmOther<'_> {
//@ fn as_ref -> r
//@ as vx_ref
    ensures
        safe(encode_utf8(r@)),
//@ endfn
//@ endimpl
//@ file imap-types/src/extensions/thread.rs
//@ items Thread ThreadingAlgorithm ThreadingAlgorithmOther
//@ impl AsRef<str> for ThreadingAlgorithmOther<'_> => impl ThreadingAlgorithmOther<'_> {
//@ fn as_ref -> r
//@ as vx_ref
    ensures
        safe(encode_utf8(r@)),
//@ endfn
//@ endimpl
//@ file imap-types/src/extensions/uidplus.rs
//@ items UidSet UidElement
use UidElement::Range;
//@ file imap-types/src/extensions/utf8.rs
//@ items Utf8Kind QuotedUtf8
//@ file imap-types/src/fetch.rs
//@ items Macro MacroOrMessageDataItemNames MessageDataItemName MessageDataItem Section Part
//@ file imap-types/src/flag.rs
//@ items Flag FlagExtension FlagFetch FlagPerm FlagNameAttribute FlagNameAttributeExtension StoreType StoreResponse
//@ file imap-types/src/mailbox.rs
//@ items ListCharString ListMailbox Mailbox MailboxOther
impl<'a> ListCharString<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { list_chars(encode_utf8(self.0@)) } }
//@ impl AsRef<[u8]> for ListCharString<'_> => impl ListCharString<'_> {
//@ fn as_ref -> r
//@ as vx_ref
    ensures
        safe(r@),
//@ start
    proof { use_type_invariant(self); lemma_atom_safe(encode_utf8(self.0@)); }
//@ endfn
//@ endimpl
//@ impl MailboxOther<'a> {
//@ fn inner -> r
    ensures
        *r == self.0,
//@ endfn
//@ endimpl
//@ file imap-types/src/response.rs
//@ items Greeting GreetingKind Response Status StatusBody StatusKind Tagged Bye Data CommandContinuationRequest CommandContinuationRequestBasic Code CodeOther Capability CapabilityOther
//@ impl CommandContinuationRequestBasic<'a> {
//@ fn code -> r
//@ endfn
//@ fn text -> r
//@ endfn
//@ endimpl
//@ impl CodeOther<'a> {
//@ fn inner -> r
    ensures
        r@ == self.0@,
//@ endfn
//@ endimpl
// by assumption (see DESIGN.md): these are the caller's to keep clean
impl<'a> CodeOther<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { clean(self.0@) } }
impl<'a> QuotedUtf8<'a> { #[verifier::type_invariant] spec fn inv(self) -> bool { clean(encode_utf8(self.0@)) } }
//@ file imap-types/src/search.rs
//@ items SearchKey
//@ file imap-types/src/sequence.rs
//@ items SequenceSet Sequence SeqOrUid
//@ file imap-types/src/status.rs
//@ enum StatusDataItemName #[derive(Clone)]
//@ enum StatusDataItem #[derive(Clone)]

// ===== printing =====================================================================================

//@ file imap-types/src/core.rs
//@ impl Display for Atom<'_> {
    spec fn shown(&self, s: Seq<u8>) -> bool { safe(s) }
//@ fn fmt
//@ start
    broadcast use lines;
    proof { use_type_invariant(self); lemma_atom_safe(encode_utf8(self.0@)); }
//@ endfn
//@ endimpl
//@ file imap-types/src/auth.rs
//@ impls Display
    broadcast use lines;
//@ default spec fn shown(&self, s: Seq<u8>) -> bool { safe(s) }
//@ endimpls
//@ file imap-types/src/extensions/compress.rs
//@ impls Display
    broadcast use lines;
//@ default spec fn shown(&self, s: Seq<u8>) -> bool { safe(s) }
//@ endimpls
//@ file imap-types/src/extensions/condstore_qresync.rs
//@ impls Display
    broadcast use lines;
//@ default spec fn shown(&self, s: Seq<u8>) -> bool { safe(s) }
//@ endimpls
//@ file imap-types/src/extensions/enable.rs
//@ impls Display
    broadcast use lines;
//@ default spec fn shown(&self, s: Seq<u8>) -> bool { safe(s) }
//@ endimpls
//@ file imap-types/src/extensions/quota.rs
//@ impls Display
    broadcast use lines;
//@ default spec fn shown(&self, s: Seq<u8>) -> bool { safe(s) }
//@ endimpls
//@ file imap-types/src/extensions/sort.rs
//@ impls Display
    broadcast use lines;
//@ default spec fn shown(&self, s: Seq<u8>) -> bool { safe(s) }
//@ endimpls
//@ file imap-types/src/extensions/thread.rs
//@ impls Display skip Thread
    broadcast use lines;
//@ default spec fn shown(&self, s: Seq<u8>) -> bool { safe(s) }
//@ endimpls
impl Display for Thread {
    spec fn shown(&self, s: Seq<u8>) -> bool { safe(s) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
//@ file imap-types/src/extensions/utf8.rs
//@ impls Display
    broadcast use lines;
//@ default spec fn shown(&self, s: Seq<u8>) -> bool { safe(s) }
//@ endimpls
//@ file imap-types/src/fetch.rs
//@ impls Display
    broadcast use lines;
//@ default spec fn shown(&self, s: Seq<u8>) -> bool { safe(s) }
//@ endimpls
//@ file imap-types/src/flag.rs
//@ impls Display
    broadcast use lines;
//@ default spec fn shown(&self, s: Seq<u8>) -> bool { safe(s) }
//@ endimpls
//@ file imap-types/src/response.rs
//@ impls Display
    broadcast use lines;
//@ default spec fn shown(&self, s: Seq<u8>) -> bool { safe(s) }
//@ endimpls

// ===== fragments ====================================================================================

//@ file imap-codec/src/codec/encode.rs
//@ items Encoded Fragment EncodeContext

spec fn crlf() -> Seq<u8> { seq![13u8, 10u8] }
spec fn bytes_of(f: Fragment) -> Seq<u8> {
    match f {
        Fragment::Line { data } => data@,
        Fragment::Literal { data, mode } => data@,
    }
}
spec fn announcement(n: nat, mode: LiteralMode) -> Seq<u8> {
    match mode {
        LiteralMode::Sync => seq![123u8] + dec(n) + seq![125u8] + crlf(),
        LiteralMode::NonSync => seq![123u8] + dec(n) + seq![43u8, 125u8] + crlf(),
    }
}
/// A line that announces exactly the literal behind it.
spec fn announces(line: Fragment, lit: Fragment) -> bool {
    &&& line is Line
    &&& lit is Literal
    &&& exists|x: Seq<u8>| clean(x) && bytes_of(line) == #[trigger] (x + announcement(lit->Literal_data@.len(), lit->Literal_mode))
}
/// Announcing lines and literals in turn.
#[verifier::opaque]
spec fn paired(items: Seq<Fragment>) -> bool {
    &&& items.len() % 2 == 0
    &&& forall|i: int| 0 <= i < items.len() && i % 2 == 0 ==> announces(#[trigger] items[i], items[i + 1])
}
spec fn open_(ctx: EncodeContext) -> bool {
    paired(ctx.items@) && clean(ctx.accumulator@)
}

/// What writing a value adds: a message is finished, anything else leaves the line open.
spec fn outcome(old_: EncodeContext, new: EncodeContext, msg: bool, plain: bool) -> bool {
    let p = plain && guarded(old_.accumulator@);
    if msg { paired(new.items@) && ends(new.accumulator@) && (p ==> ends_plain(new.accumulator@)) } else { open_(new) && (p ==> guarded(new.accumulator@)) }
}
proof fn lemma_clean_parts(a: Seq<u8>, b: Seq<u8>)
    requires
        clean(a + b),
    ensures
        clean(a),
        clean(b),
{
    reveal(clean);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != 13 && a[i] != 10 by { assert(a[i] == (a + b)[i]); }
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != 13 && b[i] != 10 by { assert(b[i] == (a + b)[i + a.len()]); }
}
/// Escaping adds no line break.
proof fn lemma_esc_clean(s: Seq<char>)
    requires
        clean(encode_utf8(s)),
    ensures
        clean(encode_utf8(esc(s))),
    decreases s.len(),
{
    if s.len() > 0 {
        let (c, rest, b) = (seq![s[0]], s.skip(1), seq!['\\']);
        assert(s =~= c + rest);
        encode_utf8_concat(c, rest);
        lemma_clean_parts(encode_utf8(c), encode_utf8(rest));
        lemma_esc_clean(rest);
        encode_utf8_concat(c, esc(rest));
        lemma_clean_add(encode_utf8(c), encode_utf8(esc(rest)));
        assert(ascii_rec(b)) by { reveal_with_fuel(ascii_rec, 3); }
        lemma_ascii_rec(b);
        lemma_safe_clean(encode_utf8(b));
        encode_utf8_concat(b, c + esc(rest));
        lemma_clean_add(encode_utf8(b), encode_utf8(c + esc(rest)));
        assert(seq!['\\', s[0]] + esc(rest) =~= b + (c + esc(rest)));
    }
}
/// A literal goes behind the line that announces it.
proof fn lemma_literal(before: EncodeContext, after: EncodeContext, x: Seq<u8>)
    requires
        open_(before),
        after.items@.len() == before.items@.len() + 2,
        after.items@.drop_last().drop_last() == before.items@,
        after.items@.last() is Literal,
        after.items@.drop_last().last() is Line,
        clean(x),
        bytes_of(after.items@.drop_last().last()) == x + announcement(bytes_of(after.items@.last()).len(), after.items@.last()->Literal_mode),
        after.accumulator@.len() == 0,
    ensures
        open_(after),
        guarded(after.accumulator@),
{
    reveal(paired);
    reveal(clean);
    reveal(guarded);
    let (a, b) = (before.items@, after.items@);
    assert forall|i: int| 0 <= i < b.len() && i % 2 == 0 implies announces(#[trigger] b[i], b[i + 1]) by {
        if i < a.len() {
            assert(a[i] == b[i]);
            assert(a[i + 1] == b[i + 1]);
        } else {
            assert(i == a.len());
            assert(b[i] == b.drop_last().last());
            assert(b[i + 1] == b.last());
        }
    }
}

/// `#[derive(Default)]`
fn vx_context() -> (r: EncodeContext)
    ensures
        r.accumulator@.len() == 0,
        r.items@.len() == 0,
{
    EncodeContext { accumulator: Vec::new(), items: VecDeque::new() }
}
//@ impl EncodeContext {
//@ fn new -> r
//@ path Self::default=>vx_context
    ensures
        r.accumulator@.len() == 0,
        r.items@.len() == 0,
        open_(r),
        guarded(r.accumulator@),
//@ start
    proof { reveal(paired); reveal(clean); reveal(guarded); }
//@ endfn
//@ fn push_line
//@ path std::mem::take=>vx_take
    ensures
        final(self).accumulator@.len() == 0,
        final(self).items@.len() == old(self).items@.len() + 1,
        final(self).items@.drop_last() == old(self).items@,
        final(self).items@.last() is Line,
        bytes_of(final(self).items@.last()) == old(self).accumulator@,
//@ end
    assert(self.items@.drop_last() =~= old(self).items@);
//@ endfn
//@ fn push_literal
//@ path std::mem::take=>vx_take
    ensures
        final(self).accumulator@.len() == 0,
        final(self).items@.len() == old(self).items@.len() + 1,
        final(self).items@.drop_last() == old(self).items@,
        final(self).items@.last() is Literal,
        final(self).items@.last()->Literal_mode == mode,
        bytes_of(final(self).items@.last()) == old(self).accumulator@,
//@ end
    assert(self.items@.drop_last() =~= old(self).items@);
//@ endfn
//@ fn into_items -> r
    ensures
        self.accumulator@.len() == 0 ==> r@ == self.items@,
        self.accumulator@.len() > 0 ==> {
            &&& r@.len() == self.items@.len() + 1
            &&& r@.drop_last() == self.items@
            &&& r@.last() is Line
            &&& bytes_of(r@.last()) == self.accumulator@
        },
//@ end
    assert(self.accumulator@.len() > 0 ==> vx_ret@.drop_last() =~= self.items@);
//@ endfn
//@ endimpl
//@ impl Write for EncodeContext => impl EncodeContext {
//@ fn write -> r
    ensures
        r matches Ok(n) && n == buf@.len(),
        final(self).accumulator@ == old(self).accumulator@ + buf@,
        final(self).items@ == old(self).items@,
//@ endfn
//@ endimpl
impl EncodeContext {
    /// The provided `write_all`: one `write` suffices, because it takes everything.
    fn write_all(&mut self, buf: &[u8]) -> (r: std::io::Result<()>)
        ensures
            r is Ok,
            final(self).accumulator@ == old(self).accumulator@ + buf@,
            final(self).items@ == old(self).items@,
    {
        if buf.len() == 0 {
            proof { assert(old(self).accumulator@ + buf@ =~= old(self).accumulator@); }
            Ok(())
        } else {
            match self.write(buf) {
                Ok(n) => Ok(()),
                Err(e) => Err(e),
            }
        }
    }
    /// `write_fmt` of one argument
    fn vx_put<D: Display + ?Sized>(&mut self, d: &D) -> (r: std::io::Result<()>)
        ensures
            r is Ok,
            exists|s: Seq<u8>| #[trigger] d.shown(s) && final(self).accumulator@ == old(self).accumulator@ + s,
            final(self).items@ == old(self).items@,
    {
        let s = vx_show(d);
        self.write_all(s.as_slice())
    }
}

trait EncodeIntoContext {
    /// ends its message
    spec fn msg() -> bool;
    /// never writes a brace that is not followed by a quote
    spec fn plain() -> bool;
    spec fn fine() -> bool;
    fn encode_ctx(&self, ctx: &mut EncodeContext) -> (r: std::io::Result<()>)
        requires
            open_(*old(ctx)),
            Self::fine(),
        ensures
            r is Ok,
            outcome(*old(ctx), *final(ctx), Self::msg(), Self::plain()),
    ;
}
//@ callarg join_serializable 0 vx_list
//@ items List1OrNil List1AttributeValueOrNil
impl<'a, T> List1OrNil<'a, T> { #[verifier::type_invariant] spec fn inv(self) -> bool { safe(self.1@) } }
//@ fn join_serializable -> r
//@ attr #[verifier::exec_allows_no_decreases_clause]
    requires
        open_(*old(ctx)),
        I::fine(),
        !I::msg(),
        safe(sep@),
    ensures
        r is Ok,
        outcome(*old(ctx), *final(ctx), false, I::plain()),
//@ start
    broadcast use lines;
//@ loops
    invariant
        open_(*ctx),
        I::fine(),
        !I::msg(),
        safe(sep@),
        I::plain() && guarded(old(ctx).accumulator@) ==> guarded(ctx.accumulator@),
//@ endfn
//@ fn join_serializable
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ as join_search_keys
//@ sig fn join_search_keys(elements: &[SearchKey<'_>], sep: &[u8], ctx: &mut EncodeContext) -> (r: std::io::Result<()>)
    requires
        open_(*old(ctx)),
        safe(sep@),
    ensures
        r is Ok,
        outcome(*old(ctx), *final(ctx), false, true),
//@ start
    broadcast use lines;
//@ loops
    invariant
        open_(*ctx),
        safe(sep@),
        guarded(old(ctx).accumulator@) ==> guarded(ctx.accumulator@),
//@ endfn
//@ fn join_serializable
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ as join_extensions
//@ sig fn join_extensions(elements: &[BodyExtension<'_>], sep: &[u8], ctx: &mut EncodeContext) -> (r: std::io::Result<()>)
    requires
        open_(*old(ctx)),
        safe(sep@),
    ensures
        r is Ok,
        outcome(*old(ctx), *final(ctx), false, true),
//@ start
    broadcast use lines;
//@ loops
    invariant
        open_(*ctx),
        safe(sep@),
        guarded(old(ctx).accumulator@) ==> guarded(ctx.accumulator@),
//@ endfn
//@ impls EncodeIntoContext skip SearchKey BodyExtension Literal Quoted QuotedChar SequenceSet Sequence Status Code CodeOther List1OrNil
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lines;
//@ loops
    invariant
        open_(*ctx),
        Self::fine(),
        Self::plain() && guarded(old(ctx).accumulator@) ==> guarded(ctx.accumulator@),
//@ kind List1AttributeValueOrNil => spec fn msg() -> bool { false } spec fn plain() -> bool { T::plain() } spec fn fine() -> bool { T::fine() && !T::msg() }
//@ kind Command Data AuthenticateData => spec fn msg() -> bool { true } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ kind Response Greeting CommandContinuationRequest => spec fn msg() -> bool { true } spec fn plain() -> bool { false } spec fn fine() -> bool { true }
//@ kind Text => spec fn msg() -> bool { false } spec fn plain() -> bool { false } spec fn fine() -> bool { true }
//@ default spec fn msg() -> bool { false } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ endimpls
//@ file imap-codec/src/codec/encode.rs
//@ impl EncodeIntoContext for List1OrNil<'_, T> {
    spec fn msg() -> bool { false } spec fn plain() -> bool { T::plain() } spec fn fine() -> bool { T::fine() && !T::msg() }
//@ fn encode_ctx
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lines;
    proof { use_type_invariant(self); }
//@ loops
    invariant
        open_(*ctx),
        Self::fine(),
        safe(self.1@),
        Self::plain() && guarded(old(ctx).accumulator@) ==> guarded(ctx.accumulator@),
//@ endfn
//@ endimpl
//@ impl EncodeIntoContext for CodeOther<'_> {
    spec fn msg() -> bool { false } spec fn plain() -> bool { false } spec fn fine() -> bool { true }
//@ fn encode_ctx
//@ start
    broadcast use lines;
    proof { use_type_invariant(self); }
//@ endfn
//@ endimpl
//@ file imap-codec/src/extensions/namespace.rs
//@ fn encode_namespaces -> r
//@ attr #[verifier::exec_allows_no_decreases_clause]
    requires
        open_(*old(ctx)),
    ensures
        r is Ok,
        outcome(*old(ctx), *final(ctx), false, true),
//@ start
    broadcast use lines;
//@ loops
    invariant
        open_(*ctx),
        guarded(old(ctx).accumulator@) ==> guarded(ctx.accumulator@),
//@ endfn
//@ file imap-codec/src/extensions/namespace.rs
//@ impls EncodeIntoContext 
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lines;
//@ loops
    invariant
        open_(*ctx),
        Self::fine(),
        Self::plain() && guarded(old(ctx).accumulator@) ==> guarded(ctx.accumulator@),
//@ default spec fn msg() -> bool { false } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ endimpls
//@ file imap-codec/src/extensions/compress.rs
//@ impls EncodeIntoContext 
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lines;
//@ loops
    invariant
        open_(*ctx),
        Self::fine(),
        Self::plain() && guarded(old(ctx).accumulator@) ==> guarded(ctx.accumulator@),
//@ default spec fn msg() -> bool { false } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ endimpls
//@ file imap-codec/src/extensions/idle.rs
//@ impls EncodeIntoContext 
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lines;
//@ loops
    invariant
        open_(*ctx),
        Self::fine(),
        Self::plain() && guarded(old(ctx).accumulator@) ==> guarded(ctx.accumulator@),
//@ kind IdleDone => spec fn msg() -> bool { true } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ default spec fn msg() -> bool { false } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ endimpls
//@ file imap-codec/src/extensions/metadata.rs
//@ impls EncodeIntoContext 
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lines;
//@ loops
    invariant
        open_(*ctx),
        Self::fine(),
        Self::plain() && guarded(old(ctx).accumulator@) ==> guarded(ctx.accumulator@),
//@ default spec fn msg() -> bool { false } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ endimpls
//@ file imap-codec/src/extensions/sort.rs
//@ impls EncodeIntoContext 
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lines;
//@ loops
    invariant
        open_(*ctx),
        Self::fine(),
        Self::plain() && guarded(old(ctx).accumulator@) ==> guarded(ctx.accumulator@),
//@ default spec fn msg() -> bool { false } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ endimpls
//@ file imap-codec/src/extensions/quota.rs
//@ impls EncodeIntoContext 
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lines;
//@ loops
    invariant
        open_(*ctx),
        Self::fine(),
        Self::plain() && guarded(old(ctx).accumulator@) ==> guarded(ctx.accumulator@),
//@ default spec fn msg() -> bool { false } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ endimpls
//@ file imap-codec/src/extensions/thread.rs
//@ impls EncodeIntoContext 
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lines;
//@ loops
    invariant
        open_(*ctx),
        Self::fine(),
        Self::plain() && guarded(old(ctx).accumulator@) ==> guarded(ctx.accumulator@),
//@ default spec fn msg() -> bool { false } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ endimpls
//@ file imap-codec/src/extensions/enable.rs
//@ impls EncodeIntoContext 
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lines;
//@ loops
    invariant
        open_(*ctx),
        Self::fine(),
        Self::plain() && guarded(old(ctx).accumulator@) ==> guarded(ctx.accumulator@),
//@ default spec fn msg() -> bool { false } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ endimpls
//@ file imap-codec/src/extensions/binary.rs
//@ impls EncodeIntoContext skip Literal8
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lines;
//@ loops
    invariant
        open_(*ctx),
        Self::fine(),
        Self::plain() && guarded(old(ctx).accumulator@) ==> guarded(ctx.accumulator@),
//@ default spec fn msg() -> bool { false } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ endimpls
//@ file imap-codec/src/extensions/uidplus.rs
//@ impls EncodeIntoContext 
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lines;
//@ loops
    invariant
        open_(*ctx),
        Self::fine(),
        Self::plain() && guarded(old(ctx).accumulator@) ==> guarded(ctx.accumulator@),
//@ default spec fn msg() -> bool { false } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ endimpls
//@ file imap-codec/src/codec/encode.rs
//@ impl EncodeIntoContext for SearchKey<'_> {
    spec fn msg() -> bool { false } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ fn encode_ctx
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ path join_serializable=>join_search_keys
//@ callarg join_search_keys 0 vx_list
//@ start
    broadcast use lines;
//@ endfn
//@ endimpl
//@ file imap-codec/src/codec/encode.rs
//@ impl EncodeIntoContext for BodyExtension<'_> {
    spec fn msg() -> bool { false } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ fn encode_ctx
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ path join_serializable=>join_extensions
//@ callarg join_extensions 0 vx_list
//@ start
    broadcast use lines;
//@ endfn
//@ endimpl
//@ file imap-codec/src/codec/encode.rs
//@ impl EncodeIntoContext for Literal<'_> {
    spec fn msg() -> bool { false } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ fn encode_ctx
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lines;
//@ end
    proof {
        let (x, n) = (old(ctx).accumulator@, self.data@.len());
        lemma_dec(n);
        assert(self.mode is Sync ==> bytes_of(ctx.items@.drop_last().last()) =~= x + announcement(n, self.mode));
        assert(self.mode is NonSync ==> bytes_of(ctx.items@.drop_last().last()) =~= x + announcement(n, self.mode));
        assert(bytes_of(ctx.items@.last()) =~= self.data@);
        lemma_literal(*old(ctx), *ctx, x);
    }
//@ endfn
//@ endimpl
//@ file imap-codec/src/extensions/binary.rs
//@ impl EncodeIntoContext for Literal8<'_> {
    spec fn msg() -> bool { false } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ fn encode_ctx
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ wrap len=vx_len:ref
//@ refwrap self.data=>vx_data
//@ start
    broadcast use lines;
//@ end
    proof {
        let (x, n) = (old(ctx).accumulator@ + seq![126u8], self.data@.len());
        lemma_dec(n);
        assert(clean(seq![126u8])) by { reveal(clean); }
        assert(self.mode is Sync ==> bytes_of(ctx.items@.drop_last().last()) =~= x + announcement(n, self.mode));
        assert(self.mode is NonSync ==> bytes_of(ctx.items@.drop_last().last()) =~= x + announcement(n, self.mode));
        assert(bytes_of(ctx.items@.last()) =~= self.data@);
        lemma_literal(*old(ctx), *ctx, x);
    }
//@ endfn
//@ endimpl
//@ file imap-codec/src/codec/encode.rs
//@ impl EncodeIntoContext for Quoted<'_> {
    spec fn msg() -> bool { false } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ fn encode_ctx
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lines;
    proof { use_type_invariant(self); lemma_text_clean(encode_utf8(self.0@)); lemma_esc_clean(self.0@); }
//@ endfn
//@ endimpl
//@ file imap-codec/src/extensions/utf8.rs
//@ impl EncodeIntoContext for QuotedUtf8<'_> {
    spec fn msg() -> bool { false } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ fn encode_ctx
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lines;
    proof { use_type_invariant(self); lemma_esc_clean(self.0@); }
//@ endfn
//@ endimpl
//@ file imap-codec/src/codec/encode.rs
//@ impl EncodeIntoContext for QuotedChar {
    spec fn msg() -> bool { false } spec fn plain() -> bool { false } spec fn fine() -> bool { true }
//@ fn encode_ctx
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lines;
    proof { reveal(clean); }
//@ endfn
//@ endimpl

/// Sets and elements as they are printed under the normalising quirk: any set (C12 proves which).
impl SequenceSet {
    #[verifier::external_body]
    fn clone(&self) -> SequenceSet { unimplemented!() }
    #[verifier::external_body]
    fn normalize(&mut self) { unimplemented!() }
}
impl Sequence {
    #[verifier::external_body]
    fn clone(&self) -> Sequence { unimplemented!() }
    #[verifier::external_body]
    fn normalize(&mut self) { unimplemented!() }
}
//@ file imap-codec/src/codec/encode.rs
//@ impl EncodeIntoContext for SequenceSet {
    spec fn msg() -> bool { false } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ fn encode_ctx
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lines;
//@ endfn
//@ endimpl
//@ file imap-codec/src/codec/encode.rs
//@ impl EncodeIntoContext for Sequence {
    spec fn msg() -> bool { false } spec fn plain() -> bool { true } spec fn fine() -> bool { true }
//@ fn encode_ctx
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lines;
//@ endfn
//@ endimpl

/// KNOWN_FINDINGS.txt, C18: the URL of a referral is not checked.
#[verifier::external_body]
fn vx_referral<'a>(c: &'a Cow<'_, str>) -> (r: &'a [u8])
    ensures
        clean(r@),
{
    c.as_bytes()
}
//@ file imap-codec/src/codec/encode.rs
//@ impl EncodeIntoContext for Code<'_> {
    spec fn msg() -> bool { false } spec fn plain() -> bool { false } spec fn fine() -> bool { true }
//@ fn encode_ctx
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ wrap as_bytes=vx_referral:own
//@ start
    broadcast use lines;
//@ endfn
//@ endimpl
//@ fn format_status -> r
//@ attr #[verifier::exec_allows_no_decreases_clause]
    requires
        open_(*old(ctx)),
        safe(encode_utf8(status@)),
    ensures
        r is Ok,
        outcome(*old(ctx), *final(ctx), true, false),
//@ start
    broadcast use lines;
//@ endfn
//@ file imap-codec/src/codec/encode.rs
//@ impl EncodeIntoContext for Status<'_> {
    spec fn msg() -> bool { true } spec fn plain() -> bool { false } spec fn fine() -> bool { true }
//@ fn encode_ctx
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lines;
//@ endfn
//@ endimpl

// ===== C18: messages ================================================================================

/// The line reads as the announcement of a literal (or worse): an opening brace, then nothing but digits, plus signs
/// and closing braces up to the line break.
spec fn reads_announcing(s: Seq<u8>) -> bool {
    exists|i: int| 0 <= i < s.len() - 2 && #[trigger] s[i] == 123 && forall|j: int| i < j < s.len() - 2 ==> (48 <= #[trigger] s[j] <= 57 || s[j] == 43 || s[j] == 125)
}
proof fn lemma_plain(s: Seq<u8>)
    requires
        ends_plain(s),
    ensures
        !reads_announcing(s),
{
    reveal(ends_plain);
    reveal(ends);
    reveal(guarded);
    let t = s.take(s.len() - 2);
    assert forall|i: int| 0 <= i < s.len() - 2 && #[trigger] s[i] == 123 implies exists|j: int| i < j < s.len() - 2 && !(48 <= #[trigger] s[j] <= 57 || s[j] == 43 || s[j] == 125) by {
        assert(t[i] == 123);
        let j = choose|j: int| i < j < t.len() && #[trigger] t[j] == 34;
        assert(s[j] == 34);
    }
}
/// A line: CRLF at its end, no CR or LF before.
spec fn line(s: Seq<u8>) -> bool {
    s.len() >= 2 && s[s.len() - 2] == 13 && s[s.len() - 1] == 10 && forall|i: int| 0 <= i < s.len() - 2 ==> #[trigger] s[i] != 13 && s[i] != 10
}
/// Lines and literals in turn, a line first and last; each line but the last announces exactly the literal behind it.
spec fn framed(items: Seq<Fragment>) -> bool {
    &&& items.len() % 2 == 1
    &&& forall|i: int| 0 <= i < items.len() && i % 2 == 0 ==> #[trigger] items[i] is Line && line(bytes_of(items[i]))
    &&& forall|i: int| 0 <= i < items.len() - 1 && i % 2 == 0 ==> announces(#[trigger] items[i], items[i + 1])
}
proof fn lemma_announcing_line(a: Fragment, b: Fragment)
    requires
        announces(a, b),
    ensures
        line(bytes_of(a)),
{
    reveal(clean);
    let (n, m) = (b->Literal_data@.len(), b->Literal_mode);
    let x = choose|x: Seq<u8>| clean(x) && bytes_of(a) == #[trigger] (x + announcement(n, m));
    lemma_dec(n);
    reveal(safe);
    let w = announcement(n, m);
    let s = bytes_of(a);
    assert(w.len() >= 4 && w[w.len() - 2] == 13 && w[w.len() - 1] == 10);
    assert forall|i: int| 0 <= i < s.len() - 2 implies #[trigger] s[i] != 13 && s[i] != 10 by {
        if i < x.len() {
            assert(s[i] == x[i]);
        } else {
            assert(s[i] == w[i - x.len()]);
            let k = i - x.len();
            if 0 < k <= dec(n).len() { assert(w[k] == dec(n)[k - 1]); }
        }
    }
}
proof fn theorem_framed(ctx: EncodeContext, items: Seq<Fragment>)
    requires
        paired(ctx.items@),
        ends(ctx.accumulator@),
        items.len() == ctx.items@.len() + 1,
        items.drop_last() == ctx.items@,
        items.last() is Line,
        bytes_of(items.last()) == ctx.accumulator@,
    ensures
        framed(items),
{
    reveal(paired);
    reveal(ends);
    reveal(clean);
    let old_ = ctx.items@;
    assert forall|i: int| 0 <= i < items.len() - 1 && i % 2 == 0 implies announces(#[trigger] items[i], items[i + 1]) by {
        assert(old_[i] == items[i]);
        assert(old_[i + 1] == items[i + 1]);
    }
    assert forall|i: int| 0 <= i < items.len() && i % 2 == 0 implies #[trigger] items[i] is Line && line(bytes_of(items[i])) by {
        if i < items.len() - 1 {
            lemma_announcing_line(items[i], items[i + 1]);
        } else {
            let s = ctx.accumulator@;
            assert forall|i: int| 0 <= i < s.len() - 2 implies #[trigger] s[i] != 13 && s[i] != 10 by { assert(s[i] == s.take(s.len() - 2)[i]); }
        }
    }
}

fn vx_same<T: ?Sized>(x: &T) -> (r: &T) ensures r == x { x }
//@ file imap-codec/src/codec.rs
//@ items GreetingCodec CommandCodec AuthenticateDataCodec ResponseCodec IdleDoneCodec
//@ file imap-codec/src/codec/encode.rs
//@ impl Encoder for GreetingCodec => impl GreetingCodec {
//@ fn encode -> r
//@ sig fn encode(&self, message: &Greeting<'_>) -> (r: Encoded)
//@ wrap borrow=vx_same:own
    ensures
        framed(r.items@),
//@ start
    broadcast use lines;
//@ end
    proof {
        reveal(ends);
        theorem_framed(encode_context, vx_ret.items@);
    }
//@ endfn
//@ endimpl
//@ impl Encoder for CommandCodec => impl CommandCodec {
//@ fn encode -> r
//@ sig fn encode(&self, message: &Command<'_>) -> (r: Encoded)
//@ wrap borrow=vx_same:own
    ensures
        framed(r.items@),
        !reads_announcing(bytes_of(r.items@.last())),
//@ start
    broadcast use lines;
//@ end
    proof {
        reveal(ends);
        theorem_framed(encode_context, vx_ret.items@);
        lemma_plain(encode_context.accumulator@);
    }
//@ endfn
//@ endimpl
//@ impl Encoder for AuthenticateDataCodec => impl AuthenticateDataCodec {
//@ fn encode -> r
//@ sig fn encode(&self, message: &AuthenticateData<'_>) -> (r: Encoded)
//@ wrap borrow=vx_same:own
    ensures
        framed(r.items@),
        !reads_announcing(bytes_of(r.items@.last())),
//@ start
    broadcast use lines;
//@ end
    proof {
        reveal(ends);
        theorem_framed(encode_context, vx_ret.items@);
        lemma_plain(encode_context.accumulator@);
    }
//@ endfn
//@ endimpl
//@ impl Encoder for ResponseCodec => impl ResponseCodec {
//@ fn encode -> r
//@ sig fn encode(&self, message: &Response<'_>) -> (r: Encoded)
//@ wrap borrow=vx_same:own
    ensures
        framed(r.items@),
//@ start
    broadcast use lines;
//@ end
    proof {
        reveal(ends);
        theorem_framed(encode_context, vx_ret.items@);
    }
//@ endfn
//@ endimpl
//@ impl Encoder for IdleDoneCodec => impl IdleDoneCodec {
//@ fn encode -> r
//@ sig fn encode(&self, message: &IdleDone) -> (r: Encoded)
//@ wrap borrow=vx_same:own
    ensures
        framed(r.items@),
        !reads_announcing(bytes_of(r.items@.last())),
//@ start
    broadcast use lines;
//@ end
    proof {
        reveal(ends);
        theorem_framed(encode_context, vx_ret.items@);
        lemma_plain(encode_context.accumulator@);
    }
//@ endfn
//@ endimpl
// ===== C19: taking fragments and dumping ============================================================

spec fn cat(items: Seq<Fragment>) -> Seq<u8>
    decreases items.len(),
{
    if items.len() == 0 { seq![] } else { bytes_of(items[0]) + cat(items.skip(1)) }
}
//@ impl Iterator for Encoded => impl Encoded {
//@ fn next -> r
//@ sig fn next(&mut self) -> (r: Option<Fragment>)
    ensures
        old(self).items@.len() == 0 ==> r is None && final(self).items@.len() == 0,
        old(self).items@.len() > 0 ==> r == Some(old(self).items@[0]) && final(self).items@ == old(self).items@.skip(1),
//@ endfn
//@ endimpl
//@ impl Encoded {
//@ fn dump -> r
    ensures
        r@ == cat(self.items@),
//@ loop 0 inv popfront
    invariant_except_break
        cat(self.items@) == out@ + cat(vx_q0@),
    ensures
        out@ == cat(self.items@),
    decreases vx_q0@.len(),
//@ loop 0 start
    let ghost rest = vx_q0@;
//@ end
//@ endfn
//@ endimpl
