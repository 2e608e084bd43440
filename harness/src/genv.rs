//! Generators for every message type, driven by a choice tape.
#![allow(clippy::redundant_closure)]

use std::borrow::Cow;
use std::num::NonZeroU32;
#[cfg(feature = "ext")]
use std::num::NonZeroU64;

use chrono::{FixedOffset, TimeZone};
use imap_types::{
    auth::{AuthMechanism, AuthenticateData},
    body::*,
    command::*,
    core::*,
    datetime::{DateTime, NaiveDate},
    envelope::{Address, Envelope},
    extensions::{
        binary::{Literal8, LiteralOrLiteral8},
        compress::CompressionAlgorithm,
        enable::CapabilityEnable,
        quota::{QuotaGet, QuotaSet, Resource},
        sort::{SortAlgorithm, SortCriterion, SortKey},
        thread::{Thread, ThreadingAlgorithm},
        uidplus::{UidElement, UidSet},
    },
    fetch::*,
    flag::*,
    mailbox::{ListCharString, ListMailbox, Mailbox},
    response::*,
    search::SearchKey,
    secret::Secret,
    sequence::{SeqOrUid, Sequence, SequenceSet},
    status::{StatusDataItem, StatusDataItemName},
};
#[cfg(feature = "ext")]
use imap_types::extensions::{
    condstore_qresync::{AttributeFlag, EntryTypeReq},
    metadata::*,
    namespace::*,
    utf8::{QuotedUtf8, Utf8Kind},
};

use crate::{spec, tape::G};

type S = String;
/// By how much long strings are made shorter (where each byte costs much).
pub static SHRINK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);

/// A string over `class`: the default, one of the specials, every single byte of the class alone or
/// embedded, or (random mode) a random string.
fn string_over(g: &mut G, default: &str, specials: &[&str], class: fn(u8) -> bool) -> S {
    let k = specials.len();
    let c = g.choose(k + 4);
    if c == 0 {
        return default.to_string();
    }
    if c <= k {
        return specials[c - 1].to_string();
    }
    let all: Vec<u8> = (0u8..=127).filter(|b| class(*b)).collect();
    match c - k {
        1 => {
            let c = g.choose(all.len() + 1);
            if c == all.len() { "y".repeat(g.pick(&[300usize, 1100, 5000]) / SHRINK.load(std::sync::atomic::Ordering::Relaxed)) } else { (all[c] as char).to_string() }
        }
        2 => format!("x{}", g.pick(&all) as char),
        _ => {
            if g.is_random() {
                let n = 1 + g.choose(20);
                (0..n).map(|_| g.pick(&all) as char).collect()
            } else {
                format!("{}y", g.pick(&all) as char)
            }
        }
    }
}

pub fn atom(g: &mut G) -> Atom<'static> {
    let s = string_over(g, "abc", &["NIL", "nil", "INBOX", "1", "IMAP4REV1", "a+b", "[x", "a}", "\\Seen".trim_start_matches('\\'), "RES-A", "FooBar"], spec::is_atom_char);
    Atom::try_from(s).unwrap()
}
/// An atom that is a keyword flag etc.
pub fn atom_ext(g: &mut G) -> AtomExt<'static> {
    let s = string_over(g, "abc", &["NIL", "a]b", "]", "1", "+", "INBOX", "FooBar"], spec::is_astring_char);
    AtomExt::try_from(s).unwrap()
}
pub fn tag(g: &mut G) -> Tag<'static> {
    let s = string_over(g, "A1", &["a]", "1", "AUTHENTICATE", "OK", "0", "tag-with-long-name.0001"], spec::is_tag_char);
    Tag::try_from(s).unwrap()
}
pub fn text(g: &mut G) -> Text<'static> {
    let mut s = string_over(
        g,
        "ok.",
        &["a b", " lead", "trail ", "]", "x]y", "x [y] z", "{1}", "x {3+}", "\\", "\"", "=", "aGk=", " ", "IMAP4rev1 Server ready"],
        spec::is_text_char,
    );
    if s.starts_with('[') {
        // A text starting with "[" is ambiguous with a response code when there is none (RFC 3501; issue #301).
        s.insert(0, 'x');
    }
    Text::try_from(s).unwrap()
}
pub fn quoted(g: &mut G) -> Quoted<'static> {
    let s = string_over(g, "abc def", &["", "\\", "\"", "\\\"", "a\\", "\\\\", "\"\\\"", "{3}", "x{3+}", "NIL", "INBOX", "(", "]", "a\tb", "\\r\\n"], spec::is_text_char);
    Quoted::try_from(s).unwrap()
}
pub fn literal_mode(g: &mut G) -> LiteralMode {
    g.pick(&[LiteralMode::Sync, LiteralMode::NonSync])
}
fn literal_bytes(g: &mut G, nul: bool) -> Vec<u8> {
    let fixed: &[&[u8]] = &[
        b"hello", b"", b"\r\n", b"x\r\ny", b"{5}\r\n", b"\xff\xfe", b"0123456789", b" lead", b"A1 NOOP\r\n", b"\n", b"inbox",
        b"0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789",
    ];
    let c = g.choose(fixed.len() + 3);
    if c < fixed.len() {
        return fixed[c].to_vec();
    }
    if c == fixed.len() + 2 {
        // around the sizes at which something could change
        let n = g.pick(&[4096usize, 1000, 4095, 4097, 8192, 20_000]);
        return vec![b'x'; n / SHRINK.load(std::sync::atomic::Ordering::Relaxed)];
    }
    if c == fixed.len() {
        let b = g.choose(256) as u8;
        return if b == 0 && !nul { vec![1] } else { vec![b] };
    }
    let n = g.choose(30);
    (0..n)
        .map(|_| {
            let b = g.choose(256) as u8;
            if b == 0 && !nul { 1 } else { b }
        })
        .collect()
}
pub fn literal(g: &mut G) -> Literal<'static> {
    let d = literal_bytes(g, false);
    let mut l = Literal::try_from(d).unwrap();
    if literal_mode(g) == LiteralMode::NonSync {
        l = l.into_non_sync();
    }
    l
}
pub fn literal8(g: &mut G) -> Literal8<'static> {
    Literal8 { data: Cow::Owned(literal_bytes(g, true)), mode: literal_mode(g) }
}
pub fn istring(g: &mut G) -> IString<'static> {
    #[cfg(feature = "ext")]
    let n = 3;
    #[cfg(not(feature = "ext"))]
    let n = 2;
    match g.choose(n) {
        0 => IString::Quoted(quoted(g)),
        1 => IString::Literal(literal(g)),
        #[cfg(feature = "ext")]
        _ => IString::QuotedUtf8(QuotedUtf8(Cow::Owned(
            g.pick(&["ä", "ö\"", "\\ü", "日本", "x€y", "é{3}"]).to_string(),
        ))),
        #[cfg(not(feature = "ext"))]
        _ => unreachable!(),
    }
}
pub fn nstring(g: &mut G) -> NString<'static> {
    if g.flag() { NString(Some(istring(g))) } else { NString(None) }
}
pub fn nstring8(g: &mut G) -> NString8<'static> {
    if g.flag() { NString8::Literal8(literal8(g)) } else { NString8::NString(nstring(g)) }
}
pub fn astring(g: &mut G) -> AString<'static> {
    if g.flag() { AString::String(istring(g)) } else { AString::Atom(atom_ext(g)) }
}
pub fn charset(g: &mut G) -> Charset<'static> {
    if g.flag() {
        Charset::Quoted(quoted(g))
    } else {
        Charset::Atom(atom(g))
    }
}
/// In random mode: any number of up to `bits` bits.
fn any_number(g: &mut G, bits: u32) -> u64 {
    let b = 1 + g.choose(bits as usize) as u32;
    let hi = g.choose(1 << 16) as u64;
    let mid = g.choose(1 << 24) as u64;
    let lo = g.choose(1 << 24) as u64;
    ((hi << 48) ^ (mid << 24) ^ lo) >> (64 - b)
}
pub fn u32v(g: &mut G) -> u32 {
    if g.is_random() && g.flag() {
        return any_number(g, 32) as u32;
    }
    g.pick(&[1, 0, 2, 9, 10, 42, 1000, 65535, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX])
}
pub fn u64v(g: &mut G) -> u64 {
    if g.is_random() && g.flag() {
        return any_number(g, 64);
    }
    g.pick(&[1, 0, 10, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX])
}
pub fn nz32(g: &mut G) -> NonZeroU32 {
    if g.is_random() && g.flag() {
        return NonZeroU32::new((any_number(g, 32) as u32).max(1)).unwrap();
    }
    NonZeroU32::new(g.pick(&[1, 2, 9, 10, 42, 1000, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX])).unwrap()
}
#[cfg(feature = "ext")]
pub fn nz64(g: &mut G) -> NonZeroU64 {
    if g.is_random() && g.flag() {
        return NonZeroU64::new(any_number(g, 64).max(1)).unwrap();
    }
    NonZeroU64::new(g.pick(&[1, 2, 10, 12345678901234567, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX])).unwrap()
}
pub fn seq_or_uid(g: &mut G) -> SeqOrUid {
    if g.flag() { SeqOrUid::Asterisk } else { SeqOrUid::Value(nz32(g)) }
}
pub fn sequence(g: &mut G) -> Sequence {
    if g.flag() { Sequence::Range(seq_or_uid(g), seq_or_uid(g)) } else { Sequence::Single(seq_or_uid(g)) }
}
/// Any set (not necessarily normalized).
pub fn any_sequence_set(g: &mut G) -> SequenceSet {
    SequenceSet(Vec1::try_from(g.vec1(3, sequence)).unwrap())
}
/// With `quirk_always_normalize_sequence_sets` the encoder deliberately rewrites a set to its
/// normal form; for exact round trips only normal forms are generated then.
pub fn sequence_set(g: &mut G) -> SequenceSet {
    if cfg!(feature = "quirks") {
        let v = |n: u32| SeqOrUid::Value(NonZeroU32::new(n).unwrap());
        let a = SeqOrUid::Asterisk;
        use Sequence::*;
        let sets: Vec<Vec<Sequence>> = vec![
            vec![Single(v(1))],
            vec![Single(v(7)), Single(v(9))],
            vec![Range(v(1), v(5))],
            vec![Range(v(2), v(5)), Single(v(8)), Range(v(10), v(20))],
            vec![Single(v(4294967290))],
            vec![Range(v(1), v(4294967290))],
            vec![Range(v(3), a)],
            vec![Single(a)],
        ];
        SequenceSet(Vec1::try_from(g.pick(&sets)).unwrap())
    } else {
        any_sequence_set(g)
    }
}
pub fn mailbox(g: &mut G) -> Mailbox<'static> {
    match g.choose(3) {
        0 => Mailbox::Inbox,
        1 => Mailbox::from(astring(g)),
        _ => Mailbox::try_from(g.pick(&["Sent", "", "a b", "~peter/mail", "Entw&APw-rfe", "inboX", "INBOX/sub", "\r\n"]).to_string()).unwrap(),
    }
}
pub fn list_mailbox(g: &mut G) -> ListMailbox<'static> {
    if g.flag() {
        ListMailbox::String(istring(g))
    } else {
        ListMailbox::Token(
            ListCharString::try_from(string_over(g, "*", &["%", "a*b%", "]", "INBOX", "1"], spec::is_list_char)).unwrap(),
        )
    }
}
/// Atom names for "other"-kind values; goes through the conversion that selects known variants.
pub fn auth_mechanism(g: &mut G) -> AuthMechanism<'static> {
    match g.choose(12) {
        0 => AuthMechanism::Plain,
        1 => AuthMechanism::Login,
        2 => AuthMechanism::OAuthBearer,
        3 => AuthMechanism::XOAuth2,
        4 => AuthMechanism::ScramSha1,
        5 => AuthMechanism::ScramSha1Plus,
        6 => AuthMechanism::ScramSha256,
        7 => AuthMechanism::ScramSha256Plus,
        8 => AuthMechanism::ScramSha3_512,
        9 => AuthMechanism::ScramSha3_512Plus,
        10 => AuthMechanism::from(atom(g)),
        _ => AuthMechanism::try_from(g.pick(&["GSSAPI", "x-foo", "CRAM-MD5"]).to_string()).unwrap(),
    }
}
pub fn blob(g: &mut G) -> Cow<'static, [u8]> {
    let v: Vec<u8> = match g.choose(8) {
        0 => b"hello".to_vec(),
        1 => b"".to_vec(),
        2 => b"\0".to_vec(),
        3 => b"\0user\0pass".to_vec(),
        4 => vec![0xff; 3],
        5 => vec![0xfb, 0xff, 0xbf, 0x3e],
        6 => (0u8..=255).collect(),
        _ => vec![g.choose(256) as u8, g.choose(256) as u8],
    };
    Cow::Owned(v)
}
pub fn authenticate_data(g: &mut G) -> AuthenticateData<'static> {
    if g.flag() { AuthenticateData::Cancel } else { AuthenticateData::Continue(Secret::new(blob(g))) }
}
pub fn flag(g: &mut G) -> Flag<'static> {
    match g.choose(7) {
        0 => Flag::Seen,
        1 => Flag::Answered,
        2 => Flag::Deleted,
        3 => Flag::Draft,
        4 => Flag::Flagged,
        5 => Flag::keyword(atom(g)),
        _ => Flag::system(g.pick(&["Foo", "Recentx", "xSeen", "Answere", "1"]).to_string().try_into().unwrap()),
    }
}
pub fn flag_fetch(g: &mut G) -> FlagFetch<'static> {
    if g.flag() { FlagFetch::Recent } else { FlagFetch::Flag(flag(g)) }
}
pub fn flag_perm(g: &mut G) -> FlagPerm<'static> {
    if g.flag() { FlagPerm::Asterisk } else { FlagPerm::Flag(flag(g)) }
}
pub fn flag_name_attribute(g: &mut G) -> FlagNameAttribute<'static> {
    match g.choose(5) {
        0 => FlagNameAttribute::Noselect,
        1 => FlagNameAttribute::Noinferiors,
        2 => FlagNameAttribute::Marked,
        3 => FlagNameAttribute::Unmarked,
        _ => FlagNameAttribute::from(atom(g)),
    }
}
pub fn date_time(g: &mut G) -> DateTime {
    let off = FixedOffset::east_opt(g.pick(&[0, 60, -60, 3600, -3600, 14 * 3600, -12 * 3600, 86340, -86340, 19800, 30 * 60])).unwrap();
    let (y, mo, d) = g.pick(&[
        (2023, 12, 31), (2024, 2, 29), (0, 1, 1), (1, 1, 1), (999, 10, 9), (9999, 12, 31), (1970, 1, 1), (2000, 3, 10), (2001, 4, 5), (2002, 5, 6), (2003, 6, 7),
        (2004, 7, 8), (2005, 8, 9), (2006, 9, 10), (2007, 10, 11), (2008, 11, 12),
    ]);
    let (h, mi, s) = g.pick(&[(12, 34, 56), (0, 0, 0), (23, 59, 59), (1, 2, 3)]);
    DateTime::try_from(off.with_ymd_and_hms(y, mo, d, h, mi, s).unwrap()).unwrap()
}
pub fn naive_date(g: &mut G) -> NaiveDate {
    let (y, mo, d) = g.pick(&[
        (2023, 12, 31), (2024, 2, 29), (0, 1, 1), (1, 1, 1), (999, 10, 9), (9999, 12, 31), (1970, 1, 1), (2000, 3, 10), (2001, 4, 5), (2002, 5, 6), (2003, 6, 7),
        (2004, 7, 8), (2005, 8, 9), (2006, 9, 10), (2007, 10, 11), (2008, 11, 12),
    ]);
    NaiveDate::try_from(chrono::NaiveDate::from_ymd_opt(y, mo, d).unwrap()).unwrap()
}
pub fn status_name(g: &mut G) -> StatusDataItemName {
    use StatusDataItemName::*;
    g.pick(&[
        Messages, Recent, UidNext, UidValidity, Unseen, Deleted, DeletedStorage,
        #[cfg(feature = "ext")]
        HighestModSeq,
    ])
}
pub fn status_item(g: &mut G) -> StatusDataItem {
    use StatusDataItem::*;
    let n = if cfg!(feature = "ext") { 8 } else { 7 };
    match g.choose(n) {
        0 => Messages(u32v(g)),
        1 => Recent(u32v(g)),
        2 => UidNext(nz32(g)),
        3 => UidValidity(nz32(g)),
        4 => Unseen(u32v(g)),
        5 => Deleted(u32v(g)),
        6 => DeletedStorage(u64v(g)),
        #[cfg(feature = "ext")]
        _ => HighestModSeq(g.pick(&[1, 0, i64::MAX as u64])),
        #[cfg(not(feature = "ext"))]
        _ => unreachable!(),
    }
}
pub fn part(g: &mut G) -> Part {
    Part(Vec1::try_from(g.vec1(3, nz32)).unwrap())
}
fn header_list(g: &mut G) -> Vec1<AString<'static>> {
    Vec1::try_from(g.vec1(3, astring)).unwrap()
}
pub fn section(g: &mut G) -> Section<'static> {
    match g.choose(6) {
        0 => Section::Text(g.opt(part)),
        1 => Section::Part(part(g)),
        2 => Section::Header(g.opt(part)),
        3 => Section::HeaderFields(g.opt(part), header_list(g)),
        4 => Section::HeaderFieldsNot(g.opt(part), header_list(g)),
        _ => Section::Mime(part(g)),
    }
}
fn partial(g: &mut G) -> Option<(u32, NonZeroU32)> {
    g.opt(|g| (u32v(g), nz32(g)))
}
pub fn item_name(g: &mut G) -> MessageDataItemName<'static> {
    use MessageDataItemName::*;
    let n = if cfg!(feature = "ext") { 14 } else { 13 };
    match g.choose(n) {
        0 => Flags,
        1 => Body,
        2 => BodyExt { section: g.opt(section), partial: partial(g), peek: g.flag() },
        3 => BodyStructure,
        4 => Envelope,
        5 => InternalDate,
        6 => Rfc822,
        7 => Rfc822Header,
        8 => Rfc822Size,
        9 => Rfc822Text,
        10 => Uid,
        11 => Binary { section: g.vec0(2, nz32), partial: partial(g), peek: g.flag() },
        12 => BinarySize { section: g.vec0(2, nz32) },
        #[cfg(feature = "ext")]
        _ => ModSeq,
        #[cfg(not(feature = "ext"))]
        _ => unreachable!(),
    }
}
pub fn macro_or_items(g: &mut G) -> MacroOrMessageDataItemNames<'static> {
    match g.choose(4) {
        0 => MacroOrMessageDataItemNames::MessageDataItemNames(g.vec1(3, item_name)),
        1 => Macro::All.into(),
        2 => Macro::Fast.into(),
        _ => Macro::Full.into(),
    }
}
pub fn search_key(g: &mut G, depth: usize) -> SearchKey<'static> {
    use SearchKey::*;
    let mut n = 34;
    if cfg!(feature = "ext") {
        n += 1;
    }
    let c = if depth == 0 { g.choose(n) } else { g.choose(n + 3) };
    if c >= n {
        return match c - n {
            0 => And(Vec1::try_from(g.vec1(3, |g| search_key(g, depth - 1))).unwrap()),
            1 => Not(Box::new(search_key(g, depth - 1))),
            _ => Or(Box::new(search_key(g, depth - 1)), Box::new(search_key(g, depth - 1))),
        };
    }
    match c {
        0 => All,
        1 => SequenceSet(sequence_set(g)),
        2 => Answered,
        3 => Bcc(astring(g)),
        4 => Before(naive_date(g)),
        5 => Body(astring(g)),
        6 => Cc(astring(g)),
        7 => Deleted,
        8 => Draft,
        9 => Flagged,
        10 => From(astring(g)),
        11 => Header(astring(g), astring(g)),
        12 => Keyword(atom(g)),
        13 => Larger(u32v(g)),
        14 => New,
        15 => Old,
        16 => On(naive_date(g)),
        17 => Recent,
        18 => Seen,
        19 => SentBefore(naive_date(g)),
        20 => SentOn(naive_date(g)),
        21 => SentSince(naive_date(g)),
        22 => Since(naive_date(g)),
        23 => Smaller(u32v(g)),
        24 => Subject(astring(g)),
        25 => Text(astring(g)),
        26 => To(astring(g)),
        27 => Uid(sequence_set(g)),
        28 => Unanswered,
        29 => Undeleted,
        30 => Undraft,
        31 => Unflagged,
        32 => Unkeyword(atom(g)),
        33 => Unseen,
        #[cfg(feature = "ext")]
        _ => ModSequence {
            entry: g.opt(|g| {
                (
                    match g.choose(7) {
                        0 => AttributeFlag::Seen,
                        1 => AttributeFlag::Answered,
                        2 => AttributeFlag::Deleted,
                        3 => AttributeFlag::Draft,
                        4 => AttributeFlag::Flagged,
                        5 => AttributeFlag::keyword(atom(g)),
                        _ => AttributeFlag::system(atom(g)),
                    },
                    g.pick(&[EntryTypeReq::All, EntryTypeReq::Private, EntryTypeReq::Shared]),
                )
            }),
            modseq: g.pick(&[1, 0, i64::MAX as u64]),
        },
        #[cfg(not(feature = "ext"))]
        _ => unreachable!(),
    }
}
fn search_keys(g: &mut G) -> Vec1<SearchKey<'static>> {
    if g.rare() {
        let k = g.pick(&[8usize, 7, 4]);
        return Vec1::from(search_tower(g, k));
    }
    Vec1::try_from(g.vec1(3, |g| search_key(g, 2))).unwrap()
}
/// As deep as the decoder goes.
fn search_tower(g: &mut G, k: usize) -> SearchKey<'static> {
    if k == 0 {
        return search_key(g, 0);
    }
    match g.choose(4) {
        0 => SearchKey::Not(Box::new(search_tower(g, k - 1))),
        1 => SearchKey::And(Vec1::from(search_tower(g, k - 1))),
        2 => SearchKey::Or(Box::new(search_tower(g, k - 1)), Box::new(SearchKey::Seen)),
        _ => SearchKey::Or(Box::new(SearchKey::Seen), Box::new(search_tower(g, k - 1))),
    }
}
#[cfg(feature = "ext")]
fn select_parameters(g: &mut G) -> Vec<SelectParameter> {
    g.vec0(2, |g| {
        if g.flag() {
            let known_uids = g.opt(sequence_set);
            SelectParameter::QResync {
                uid_validity: nz32(g),
                mod_sequence_value: nz64(g),
                known_uids,
                seq_match_data: g.opt(|g| (sequence_set(g), sequence_set(g))),
            }
        } else {
            SelectParameter::CondStore
        }
    })
}
pub fn sort_criterion(g: &mut G) -> SortCriterion {
    use SortKey::*;
    SortCriterion { reverse: g.flag(), key: g.pick(&[Arrival, Cc, Date, From, Size, Subject, To, DisplayFrom, DisplayTo]) }
}
pub fn threading_algorithm(g: &mut G) -> ThreadingAlgorithm<'static> {
    match g.choose(3) {
        0 => ThreadingAlgorithm::References,
        1 => ThreadingAlgorithm::OrderedSubject,
        _ => ThreadingAlgorithm::from(atom(g)),
    }
}
pub fn resource(g: &mut G) -> Resource<'static> {
    match g.choose(5) {
        0 => Resource::Storage,
        1 => Resource::Message,
        2 => Resource::Mailbox,
        3 => Resource::AnnotationStorage,
        _ => Resource::from(atom(g)),
    }
}
pub fn capability_enable(g: &mut G) -> CapabilityEnable<'static> {
    #[cfg(feature = "ext")]
    match g.choose(7) {
        1 => return CapabilityEnable::CondStore,
        2 => return CapabilityEnable::Metadata,
        3 => return CapabilityEnable::MetadataServer,
        4 => return CapabilityEnable::Utf8(Utf8Kind::Accept),
        5 => return CapabilityEnable::Utf8(Utf8Kind::Only),
        _ => {}
    }
    CapabilityEnable::from(atom(g))
}
#[cfg(feature = "ext")]
fn id_parameters(g: &mut G) -> Option<Vec<(IString<'static>, NString<'static>)>> {
    if cfg!(feature = "quirks_all") {
        // quirk_id_empty_to_nil deliberately turns `()` into NIL
        g.opt(|g| g.vec1(2, |g| (istring(g), nstring(g))))
    } else {
        g.opt(|g| g.vec0(2, |g| (istring(g), nstring(g))))
    }
}
#[cfg(feature = "ext")]
fn entry(g: &mut G) -> Entry<'static> {
    match g.choose(2) {
        0 => Entry::try_from(AString::try_from("/shared/comment").unwrap()).unwrap(),
        _ => Entry::try_from(astring(g)).unwrap(),
    }
}
#[cfg(feature = "ext")]
fn entry_value(g: &mut G) -> EntryValue<'static> {
    EntryValue { entry: entry(g), value: nstring8(g) }
}

pub const N_COMMANDS: usize = if cfg!(feature = "ext") { 40 } else { 35 };

pub fn command_body(g: &mut G, variant: usize) -> CommandBody<'static> {
    match variant {
        0 => CommandBody::Capability,
        1 => CommandBody::Noop,
        2 => CommandBody::Logout,
        3 => CommandBody::Authenticate { mechanism: auth_mechanism(g), initial_response: g.opt(|g| Secret::new(blob(g))) },
        4 => CommandBody::Login { username: astring(g), password: Secret::new(astring(g)) },
        5 => CommandBody::Select {
            mailbox: mailbox(g),
            #[cfg(feature = "ext")]
            parameters: select_parameters(g),
        },
        6 => CommandBody::Unselect,
        7 => CommandBody::Examine {
            mailbox: mailbox(g),
            #[cfg(feature = "ext")]
            parameters: select_parameters(g),
        },
        8 => CommandBody::Create { mailbox: mailbox(g) },
        9 => CommandBody::Delete { mailbox: mailbox(g) },
        10 => CommandBody::Rename { from: mailbox(g), to: mailbox(g) },
        11 => CommandBody::Subscribe { mailbox: mailbox(g) },
        12 => CommandBody::Unsubscribe { mailbox: mailbox(g) },
        13 => CommandBody::List { reference: mailbox(g), mailbox_wildcard: list_mailbox(g) },
        14 => CommandBody::Lsub { reference: mailbox(g), mailbox_wildcard: list_mailbox(g) },
        15 => CommandBody::Status { mailbox: mailbox(g), item_names: g.vec0(3, status_name).into() },
        16 => CommandBody::Append {
            mailbox: mailbox(g),
            flags: g.vec0(2, flag),
            date: g.opt(date_time),
            message: if g.flag() { LiteralOrLiteral8::Literal8(literal8(g)) } else { LiteralOrLiteral8::Literal(literal(g)) },
        },
        17 => CommandBody::Check,
        18 => CommandBody::Close,
        19 => CommandBody::Expunge,
        20 => CommandBody::ExpungeUid { sequence_set: sequence_set(g) },
        21 => CommandBody::Search { charset: g.opt(charset), criteria: search_keys(g), uid: g.flag() },
        22 => CommandBody::Sort {
            sort_criteria: Vec1::try_from(g.vec1(3, sort_criterion)).unwrap(),
            charset: charset(g),
            search_criteria: search_keys(g),
            uid: g.flag(),
        },
        23 => CommandBody::Thread { algorithm: threading_algorithm(g), charset: charset(g), search_criteria: search_keys(g), uid: g.flag() },
        24 => CommandBody::Fetch {
            sequence_set: sequence_set(g),
            macro_or_item_names: macro_or_items(g),
            uid: g.flag(),
            #[cfg(feature = "ext")]
            modifiers: g.vec0(2, |g| if g.flag() { FetchModifier::Vanished } else { FetchModifier::ChangedSince(nz64(g)) }),
        },
        25 => CommandBody::Store {
            sequence_set: sequence_set(g),
            kind: g.pick(&[StoreType::Replace, StoreType::Add, StoreType::Remove]),
            response: g.pick(&[StoreResponse::Answer, StoreResponse::Silent]),
            flags: g.vec0(3, flag),
            uid: g.flag(),
            #[cfg(feature = "ext")]
            modifiers: g.vec0(2, |g| StoreModifier::UnchangedSince(g.pick(&[1, 0, i64::MAX as u64]))),
        },
        26 => CommandBody::Copy { sequence_set: sequence_set(g), mailbox: mailbox(g), uid: g.flag() },
        27 => CommandBody::Idle,
        28 => CommandBody::Enable { capabilities: Vec1::try_from(g.vec1(3, capability_enable)).unwrap() },
        29 => CommandBody::Compress { algorithm: CompressionAlgorithm::Deflate },
        30 => CommandBody::GetQuota { root: astring(g) },
        31 => CommandBody::GetQuotaRoot { mailbox: mailbox(g) },
        32 => CommandBody::SetQuota { root: astring(g), quotas: g.vec0(3, |g| QuotaSet::new(resource(g), u64v(g))) },
        33 => CommandBody::Move { sequence_set: sequence_set(g), mailbox: mailbox(g), uid: g.flag() },
        34 => CommandBody::Noop,
        #[cfg(feature = "ext")]
        35 => CommandBody::StartTLS,
        #[cfg(feature = "ext")]
        36 => CommandBody::Id { parameters: id_parameters(g) },
        #[cfg(feature = "ext")]
        37 => CommandBody::SetMetadata { mailbox: mailbox(g), entry_values: Vec1::try_from(g.vec1(3, entry_value)).unwrap() },
        #[cfg(feature = "ext")]
        38 => CommandBody::GetMetadata {
            options: g.vec0(2, |g| match g.choose(2) {
                0 => GetMetadataOption::MaxSize(u32v(g)),
                _ => GetMetadataOption::Depth(g.pick(&[Depth::Null, Depth::One, Depth::Infinity])),
            }),
            mailbox: mailbox(g),
            entries: Vec1::try_from(g.vec1(3, entry)).unwrap(),
        },
        #[cfg(feature = "ext")]
        _ => CommandBody::Namespace,
        #[cfg(not(feature = "ext"))]
        _ => unreachable!(),
    }
}
pub fn command(g: &mut G, variant: usize) -> Command<'static> {
    let body = command_body(g, variant);
    Command { tag: tag(g), body }
}

pub fn capability(g: &mut G) -> Capability<'static> {
    let n = if cfg!(feature = "ext") { 28 } else { 18 };
    match g.choose(n) {
        0 => Capability::Imap4Rev1,
        1 => Capability::Auth(auth_mechanism(g)),
        2 => Capability::LoginDisabled,
        3 => Capability::Idle,
        4 => Capability::SaslIr,
        5 => Capability::Enable,
        6 => Capability::Compress { algorithm: CompressionAlgorithm::Deflate },
        7 => Capability::Quota,
        8 => Capability::QuotaRes(resource(g)),
        9 => Capability::QuotaSet,
        10 => Capability::LiteralPlus,
        11 => Capability::LiteralMinus,
        12 => Capability::Move,
        13 => Capability::Unselect,
        14 => Capability::Sort(g.opt(|g| SortAlgorithm::from(atom(g)))),
        15 => Capability::Thread(threading_algorithm(g)),
        16 => match g.choose(3) {
            0 => Capability::Binary,
            1 => Capability::UidPlus,
            _ => Capability::Sort(Some(SortAlgorithm::Display)),
        },
        17 => match g.choose(2) {
            0 => Capability::from(atom(g)),
            _ => Capability::try_from(
                g.pick(&["X=Y", "AUTH=", "=", "AUTH", "auth=foo", "QUOTA=RES-Foo", "QUOTA=FOORES-STORAGE", "QUOTA=RES-", "COMPRESS=", "COMPRESS=GZIP", "SORT=", "SORT=a=b", "THREAD=", "THREAD=X", "UTF8=FOO", "STARTTLSX", "ID2", "quota=res-res-x", "a==", "CONTEXT=SEARCH"])
                    .to_string(),
            )
            .unwrap(),
        },
        #[cfg(feature = "ext")]
        18 => Capability::StartTls,
        #[cfg(feature = "ext")]
        19 => Capability::MailboxReferrals,
        #[cfg(feature = "ext")]
        20 => Capability::LoginReferrals,
        #[cfg(feature = "ext")]
        21 => Capability::Id,
        #[cfg(feature = "ext")]
        22 => Capability::Metadata,
        #[cfg(feature = "ext")]
        23 => Capability::MetadataServer,
        #[cfg(feature = "ext")]
        24 => Capability::CondStore,
        #[cfg(feature = "ext")]
        25 => Capability::QResync,
        #[cfg(feature = "ext")]
        26 => Capability::Namespace,
        #[cfg(feature = "ext")]
        _ => Capability::Utf8(g.pick(&[Utf8Kind::Accept, Utf8Kind::Only])),
        #[cfg(not(feature = "ext"))]
        _ => unreachable!(),
    }
}
pub fn uid_set(g: &mut G) -> UidSet {
    UidSet(Vec1::try_from(g.vec1(3, |g| if g.flag() { UidElement::Range(nz32(g), nz32(g)) } else { UidElement::Single(nz32(g)) })).unwrap())
}
pub fn code(g: &mut G) -> Code<'static> {
    let n = if cfg!(feature = "ext") { 26 } else { 18 };
    match g.choose(n) {
        0 => Code::Alert,
        1 => Code::BadCharset { allowed: g.vec0(2, charset) },
        2 => Code::Capability(Vec1::try_from(g.vec1(3, capability)).unwrap()),
        3 => Code::Parse,
        4 => Code::PermanentFlags(g.vec0(3, flag_perm)),
        5 => Code::ReadOnly,
        6 => Code::ReadWrite,
        7 => Code::TryCreate,
        8 => Code::UidNext(nz32(g)),
        9 => Code::UidValidity(nz32(g)),
        10 => Code::Unseen(nz32(g)),
        11 => Code::CompressionActive,
        12 => Code::OverQuota,
        13 => Code::TooBig,
        14 => Code::UnknownCte,
        15 => Code::AppendUid { uid_validity: nz32(g), uid: nz32(g) },
        16 => match g.choose(2) {
            0 => Code::CopyUid { uid_validity: nz32(g), source: uid_set(g), destination: uid_set(g) },
            _ => Code::UidNotSticky,
        },
        17 => Code::Other(CodeOther::unvalidated(
            g.pick(&["XFOO", "X-BAR baz", "ALERTX", "UIDNEXTX 3", "Foo", "X {3}", "READ"]).as_bytes().to_vec(),
        )),
        #[cfg(feature = "ext")]
        18 => Code::Metadata(MetadataCode::LongEntries(u32v(g))),
        #[cfg(feature = "ext")]
        19 => Code::Metadata(MetadataCode::MaxSize(u32v(g))),
        #[cfg(feature = "ext")]
        20 => Code::Metadata(MetadataCode::TooMany),
        #[cfg(feature = "ext")]
        21 => Code::Metadata(MetadataCode::NoPrivate),
        #[cfg(feature = "ext")]
        22 => Code::HighestModSeq(nz64(g)),
        #[cfg(feature = "ext")]
        23 => Code::Modified(sequence_set(g)),
        #[cfg(feature = "ext")]
        24 => Code::NoModSeq,
        #[cfg(feature = "ext")]
        _ => Code::Closed,
        #[cfg(not(feature = "ext"))]
        _ => unreachable!(),
    }
}
pub fn address(g: &mut G) -> Address<'static> {
    Address { name: nstring(g), adl: nstring(g), mailbox: nstring(g), host: nstring(g) }
}
pub fn envelope(g: &mut G) -> Envelope<'static> {
    Envelope {
        date: nstring(g),
        subject: nstring(g),
        from: g.vec0(2, address),
        sender: g.vec0(2, address),
        reply_to: g.vec0(2, address),
        to: g.vec0(2, address),
        cc: g.vec0(2, address),
        bcc: g.vec0(2, address),
        in_reply_to: nstring(g),
        message_id: nstring(g),
    }
}
fn params(g: &mut G) -> Vec<(IString<'static>, IString<'static>)> {
    g.vec0(2, |g| (istring(g), istring(g)))
}
fn basic_fields(g: &mut G) -> BasicFields<'static> {
    BasicFields { parameter_list: params(g), id: nstring(g), description: nstring(g), content_transfer_encoding: istring(g), size: u32v(g) }
}
fn body_extension(g: &mut G, depth: usize) -> BodyExtension<'static> {
    match g.choose(if depth == 0 { 2 } else { 3 }) {
        0 => BodyExtension::NString(nstring(g)),
        1 => BodyExtension::Number(u32v(g)),
        _ => BodyExtension::List(Vec1::try_from(g.vec1(2, |g| body_extension(g, depth - 1))).unwrap()),
    }
}
fn extension_tower(g: &mut G) -> BodyExtension<'static> {
    let mut b = body_extension(g, 0);
    for _ in 0..g.pick(&[7, 6, 3]) {
        b = BodyExtension::List(match g.choose(3) {
            0 => Vec1::from(b),
            1 => Vec1::try_from(vec![b, BodyExtension::Number(1)]).unwrap(),
            _ => Vec1::try_from(vec![BodyExtension::Number(1), b]).unwrap(),
        });
    }
    b
}
fn body_tower(g: &mut G, ext: bool) -> BodyStructure<'static> {
    let mut b = body(g, ext, 0);
    for _ in 0..g.pick(&[6, 5, 3]) {
        let leaf = || BasicFields { parameter_list: vec![], id: NString(None), description: NString(None), content_transfer_encoding: IString::try_from("7bit").unwrap(), size: 1 };
        b = match g.choose(3) {
            0 => BodyStructure::Multi { bodies: Vec1::from(b), subtype: IString::try_from("mixed").unwrap(), extension_data: None },
            1 => {
                let first = BodyStructure::Single { body: Body { basic: leaf(), specific: SpecificFields::Text { subtype: IString::try_from("plain").unwrap(), number_of_lines: 1 } }, extension_data: None };
                BodyStructure::Multi { bodies: Vec1::try_from(vec![first, b]).unwrap(), subtype: IString::try_from("mixed").unwrap(), extension_data: None }
            }
            _ => BodyStructure::Single { body: Body { basic: leaf(), specific: SpecificFields::Message { envelope: Box::new(envelope(g)), body_structure: Box::new(b), number_of_lines: 1 } }, extension_data: None },
        };
    }
    b
}
fn thread_tower(g: &mut G) -> Thread {
    let mut t = thread(g, 0);
    for _ in 0..g.pick(&[7, 6, 3]) {
        let other = Thread::Members { prefix: Vec1::from(NonZeroU32::new(7).unwrap()), answers: None };
        t = match g.choose(3) {
            0 => Thread::Members { prefix: Vec1::from(NonZeroU32::new(3).unwrap()), answers: Some(Vec2::try_from(vec![t, other]).unwrap()) },
            1 => Thread::Nested { answers: Vec2::try_from(vec![t, other]).unwrap() },
            _ => Thread::Nested { answers: Vec2::try_from(vec![other, t]).unwrap() },
        };
    }
    t
}
fn disposition(g: &mut G) -> Disposition<'static> {
    Disposition {
        disposition: g.opt(|g| (istring(g), params(g))),
        tail: g.opt(|g| Language {
            language: g.vec0(2, istring),
            tail: g.opt(|g| Location { location: nstring(g), extensions: g.vec0(2, |g| if g.rare() { extension_tower(g) } else { body_extension(g, 2) }) }),
        }),
    }
}
/// A media type that a basic body part may carry: anything but TEXT/* and MESSAGE/RFC822, which
/// are spelled by the dedicated variants.
fn media(g: &mut G) -> (IString<'static>, IString<'static>) {
    let t = g.pick(&["application", "image", "", "texts", "TEX"]);
    let s = istring(g);
    (IString::Quoted(Quoted::try_from(t).unwrap()), s)
}
pub fn body(g: &mut G, ext: bool, depth: usize) -> BodyStructure<'static> {
    match g.choose(if depth == 0 { 2 } else { 4 }) {
        0 => BodyStructure::Single {
            body: Body { basic: basic_fields(g), specific: SpecificFields::Text { subtype: istring(g), number_of_lines: u32v(g) } },
            extension_data: if ext { g.opt(|g| SinglePartExtensionData { md5: nstring(g), tail: g.opt(disposition) }) } else { None },
        },
        1 => {
            let (r#type, subtype) = media(g);
            BodyStructure::Single {
                body: Body { basic: basic_fields(g), specific: SpecificFields::Basic { r#type, subtype } },
                extension_data: if ext { g.opt(|g| SinglePartExtensionData { md5: nstring(g), tail: g.opt(disposition) }) } else { None },
            }
        }
        2 => BodyStructure::Single {
            body: Body {
                basic: basic_fields(g),
                specific: SpecificFields::Message {
                    envelope: Box::new(envelope(g)),
                    body_structure: Box::new(body(g, ext, depth - 1)),
                    number_of_lines: u32v(g),
                },
            },
            extension_data: if ext { g.opt(|g| SinglePartExtensionData { md5: nstring(g), tail: g.opt(disposition) }) } else { None },
        },
        _ => BodyStructure::Multi {
            bodies: Vec1::try_from(g.vec1(2, |g| body(g, ext, depth - 1))).unwrap(),
            subtype: istring(g),
            extension_data: if ext { g.opt(|g| MultiPartExtensionData { parameter_list: params(g), tail: g.opt(disposition) }) } else { None },
        },
    }
}
pub const N_ITEMS: usize = if cfg!(feature = "ext") { 14 } else { 13 };
pub fn item(g: &mut G, variant: usize) -> MessageDataItem<'static> {
    use MessageDataItem::*;
    match variant {
        0 => Flags(g.vec0(3, flag_fetch)),
        1 => Body(if g.rare() { body_tower(g, false) } else { body(g, false, 2) }),
        2 => BodyExt { section: g.opt(section), origin: g.opt(u32v), data: nstring(g) },
        3 => BodyStructure(if g.rare() { body_tower(g, true) } else { body(g, true, 2) }),
        4 => Envelope(envelope(g)),
        5 => InternalDate(date_time(g)),
        6 => Rfc822(nstring(g)),
        7 => Rfc822Header(nstring(g)),
        8 => Rfc822Size(u32v(g)),
        9 => Rfc822Text(nstring(g)),
        10 => Uid(nz32(g)),
        11 => Binary { section: g.vec0(2, nz32), value: nstring8(g) },
        12 => BinarySize { section: g.vec0(2, nz32), size: u32v(g) },
        #[cfg(feature = "ext")]
        _ => ModSeq(nz64(g)),
        #[cfg(not(feature = "ext"))]
        _ => unreachable!(),
    }
}
pub fn thread(g: &mut G, depth: usize) -> Thread {
    fn two(g: &mut G, depth: usize) -> Vec2<Thread> {
        let n = 2 + g.choose(2);
        Vec2::try_from((0..n).map(|_| thread(g, depth - 1)).collect::<Vec<_>>()).unwrap()
    }
    if depth > 0 {
        match g.choose(3) {
            0 => Thread::Members { prefix: Vec1::try_from(g.vec1(3, nz32)).unwrap(), answers: None },
            1 => Thread::Members { prefix: Vec1::try_from(g.vec1(3, nz32)).unwrap(), answers: Some(two(g, depth)) },
            _ => Thread::Nested { answers: two(g, depth) },
        }
    } else {
        Thread::Members { prefix: Vec1::try_from(g.vec1(2, nz32)).unwrap(), answers: None }
    }
}
fn status_body(g: &mut G) -> StatusBody<'static> {
    StatusBody { kind: g.pick(&[StatusKind::Ok, StatusKind::No, StatusKind::Bad]), code: g.opt(code), text: text(g) }
}
fn delimiter(g: &mut G) -> Option<QuotedChar> {
    let all: Vec<char> = (0u8..=127).filter(|b| spec::is_text_char(*b)).map(|b| b as char).collect();
    match g.choose(5) {
        0 => Some(QuotedChar::try_from('/').unwrap()),
        1 => None,
        2 => Some(QuotedChar::try_from('\\').unwrap()),
        3 => Some(QuotedChar::try_from('"').unwrap()),
        _ => Some(QuotedChar::try_from(g.pick(&all)).unwrap()),
    }
}
#[cfg(feature = "ext")]
fn namespaces(g: &mut G) -> Namespaces<'static> {
    g.vec0(2, |g| Namespace {
        prefix: istring(g),
        delimiter: delimiter(g),
        extensions: g.vec0(2, |g| NamespaceResponseExtension { key: istring(g), values: Vec1::try_from(g.vec1(2, istring)).unwrap() }),
    })
}
/// A continuation request with text; the library rejects the ambiguous ones.
fn continue_basic(g: &mut G) -> CommandContinuationRequest<'static> {
    let code = g.opt(code);
    let text = text(g);
    match CommandContinuationRequestBasic::new(code, text.clone()) {
        Ok(b) => CommandContinuationRequest::Basic(b),
        Err(_) => CommandContinuationRequest::basic(None, Text::try_from(format!("- {}", text.inner())).unwrap()).unwrap(),
    }
}

pub const N_RESPONSES: usize = 20 + N_ITEMS + if cfg!(feature = "ext") { 4 } else { 0 };
pub fn response(g: &mut G, variant: usize) -> Response<'static> {
    let d = match variant {
        0 => return Response::CommandContinuationRequest(continue_basic(g)),
        1 => return Response::CommandContinuationRequest(CommandContinuationRequest::Base64(blob(g))),
        2 => return Response::Status(Status::Untagged(status_body(g))),
        3 => return Response::Status(Status::Tagged(Tagged { tag: tag(g), body: status_body(g) })),
        4 => return Response::Status(Status::Bye(Bye { code: g.opt(code), text: text(g) })),
        5 => Data::Capability(Vec1::try_from(g.vec1(3, capability)).unwrap()),
        6 => Data::List { items: g.vec0(3, flag_name_attribute), delimiter: delimiter(g), mailbox: mailbox(g) },
        7 => Data::Lsub { items: g.vec0(3, flag_name_attribute), delimiter: delimiter(g), mailbox: mailbox(g) },
        8 => Data::Status { mailbox: mailbox(g), items: g.vec0(3, status_item).into() },
        9 => Data::Search(
            g.vec0(3, nz32),
            #[cfg(feature = "ext")]
            g.opt(nz64),
        ),
        10 => Data::Sort(
            g.vec0(3, nz32),
            #[cfg(feature = "ext")]
            g.opt(nz64),
        ),
        11 => Data::Thread(if g.rare() { vec![thread_tower(g)] } else { g.vec0(2, |g| thread(g, 2)) }),
        12 => Data::Flags(g.vec0(3, flag)),
        13 => Data::Exists(u32v(g)),
        14 => Data::Recent(u32v(g)),
        15 => Data::Expunge(nz32(g)),
        16 => {
            let n = 1 + g.choose(3);
            Data::Fetch {
                seq: nz32(g),
                items: Vec1::try_from(
                    (0..n)
                        .map(|_| {
                            let v = g.choose(N_ITEMS);
                            item(g, v)
                        })
                        .collect::<Vec<_>>(),
                )
                .unwrap(),
            }
        }
        17 => Data::Enabled { capabilities: g.vec0(3, capability_enable) },
        18 => Data::Quota { root: astring(g), quotas: Vec1::try_from(g.vec1(3, |g| QuotaGet::new(resource(g), u64v(g), u64v(g)))).unwrap() },
        19 => Data::QuotaRoot { mailbox: mailbox(g), roots: g.vec0(3, astring) },
        v if v < 20 + N_ITEMS => Data::Fetch { seq: nz32(g), items: Vec1::from(item(g, v - 20)) },
        #[cfg(feature = "ext")]
        v => match v - 20 - N_ITEMS {
            0 => Data::Id { parameters: id_parameters(g) },
            1 => Data::Metadata {
                mailbox: mailbox(g),
                items: if g.flag() {
                    MetadataResponse::WithoutValues(Vec1::try_from(g.vec1(3, entry)).unwrap())
                } else {
                    MetadataResponse::WithValues(Vec1::try_from(g.vec1(3, entry_value)).unwrap())
                },
            },
            2 => Data::Vanished { earlier: g.flag(), known_uids: sequence_set(g) },
            _ => Data::Namespace { personal: namespaces(g), other: namespaces(g), shared: namespaces(g) },
        },
        #[cfg(not(feature = "ext"))]
        _ => unreachable!(),
    };
    Response::Data(d)
}
pub fn greeting(g: &mut G) -> Greeting<'static> {
    Greeting { kind: g.pick(&[GreetingKind::Ok, GreetingKind::PreAuth, GreetingKind::Bye]), code: g.opt(code), text: text(g) }
}
