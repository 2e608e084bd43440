//! Value types: C05 validated strings, C06 representation choice, C07 escaping, C08 list lengths,
//! C09 known names, C13 tag generator, C14 static conversions, C15 dates, C16 secrets, C17 serde,
//! C26 constructors.
use std::borrow::Cow;

use imap_types::{IntoStatic, ToStatic};
use crate::p_codec::{KAuth, KCommand, KGreeting, KResponse, Kind};
use chrono::{Datelike, FixedOffset, TimeZone, Timelike};
use imap_codec::{AuthenticateDataCodec, CommandCodec, GreetingCodec, ResponseCodec, decode::Decoder, encode::Encoder};
use imap_types::{
    auth::{AuthMechanism, AuthenticateData},
    command::{Command, CommandBody},
    core::*,
    datetime::{DateTime, NaiveDate},
    error::ValidationError,
    extensions::{compress::CompressionAlgorithm, enable::CapabilityEnable, quota::Resource, sort::SortAlgorithm, thread::ThreadingAlgorithm},
    fetch::{Macro, MessageDataItemName},
    flag::{Flag, FlagNameAttribute},
    mailbox::{ListCharString, ListMailbox, Mailbox, MailboxOther},
    response::{Capability, Code, CommandContinuationRequest, CommandContinuationRequestBasic, Data, Greeting, GreetingKind, Response, Status, StatusKind},
    utils::{self, indicators},
};

use crate::{Group, Mode, R, ensure, genv, hash, spec, tape::G};

fn show(b: &[u8]) -> String {
    b.escape_ascii().to_string()
}

/// Byte strings: everything of length <= 1, pairs around a valid string, specials; random ones.
fn bytes(g: &mut G) -> Vec<u8> {
    const SPECIALS: &[&[u8]] = &[
        b"abc", b"", b"a b", b"a]", b"]", b"\\", b"\"", b"INBOX", b"inbox", b"NIL", b"a\r\nb", b"\r", b"\n", b"*", b"%", b"a%b*", b"(", b")", b"{", b"{5}", b"}", b"+", b"a+", b"\0", b"a\0b", b"\x7f", b"\x80", b"\xff", "ä".as_bytes(), "日".as_bytes(), b"\xc3", b"~", b"\t",
        b"0123456789", b" ", b"\\\"", b"A1", b"hello world",
    ];
    let c = g.choose(SPECIALS.len() + 5);
    if c < SPECIALS.len() {
        return SPECIALS[c].to_vec();
    }
    let b = g.choose(256) as u8;
    match c - SPECIALS.len() {
        0 => vec![b],
        1 => vec![b'x', b],
        2 => vec![b, b'y'],
        3 => vec![b, g.choose(256) as u8],
        _ => {
            let n = 1 + g.choose(24);
            let base = *b"abcdefghijklmnopqrstuvwx";
            let mut v = base[..n].to_vec();
            let p = g.choose(n);
            v[p] = b;
            if g.is_random() {
                for _ in 0..g.choose(4) {
                    let q = g.choose(n);
                    v[q] = g.choose(256) as u8;
                }
            }
            v
        }
    }
}

macro_rules! string_type {
    ($b:expr, $T:ident, $spec:expr, $($route:ty),*) => {{
        let b: &[u8] = $b;
        let want = $spec(b);
        let s = std::str::from_utf8(b).ok();
        ensure!($T::validate(b).is_ok() == want, "{} validity of {} is {}", stringify!($T), show(b), !want);
        let r = $T::try_from(b);
        ensure!(r.is_ok() == want, "{} from bytes {}: {:?}", stringify!($T), show(b), r);
        if let Ok(x) = r { let x: &str = x.as_ref(); ensure!(x.as_bytes() == b, "{} changed {}", stringify!($T), show(b)); }
        let r = $T::try_from(b.to_vec());
        ensure!(r.is_ok() == want, "{} from owned bytes {}: {:?}", stringify!($T), show(b), r);
        if let Ok(x) = r { let x: &str = x.as_ref(); ensure!(x.as_bytes() == b, "{} changed {}", stringify!($T), show(b)); }
        if let Some(s) = s {
            let r = $T::try_from(s);
            ensure!(r.is_ok() == want, "{} from str {}: {:?}", stringify!($T), show(b), r);
            if let Ok(x) = r { ensure!(x.inner() == s, "{} changed {}", stringify!($T), show(b)); }
            let r = $T::try_from(s.to_string());
            ensure!(r.is_ok() == want, "{} from String {}: {:?}", stringify!($T), show(b), r);
            if let Ok(x) = r { ensure!(x.inner() == s, "{} changed {}", stringify!($T), show(b)); }
        }
        want
    }};
}

fn check_c05(b: &[u8]) -> R {
    let mut any = false;
    any |= string_type!(b, Atom, spec::atom,);
    any |= string_type!(b, AtomExt, spec::astring_atom,);
    any |= string_type!(b, Tag, spec::tag,);
    any |= string_type!(b, Text, spec::text,);
    any |= string_type!(b, Quoted, spec::quoted,);
    let s = std::str::from_utf8(b).ok();
    if let Some(s) = s {
        let want = spec::atom(b);
        for c in [Cow::Borrowed(s), Cow::Owned(s.to_string())] {
            let r = Atom::try_from(c);
            ensure!(r.is_ok() == want, "Atom from Cow {}", show(b));
            if let Ok(x) = r {
                ensure!(x.into_inner() == s, "Atom changed {}", show(b));
            }
        }
        let want = spec::list_chars(b);
        ensure!(ListCharString::validate(s).is_ok() == want, "list token validity of {}", show(b));
        let r = ListCharString::try_from(s);
        ensure!(r.is_ok() == want, "list token from str {}: {r:?}", show(b));
        let r = ListCharString::try_from(s.to_string());
        ensure!(r.is_ok() == want, "list token from String {}: {r:?}", show(b));
        if let Ok(x) = r {
            ensure!(x.as_ref() == b, "list token changed {}", show(b));
        }
    }
    let want = spec::literal(b);
    ensure!(Literal::validate(b).is_ok() == want, "literal validity of {}", show(b));
    for r in [Literal::try_from(b), Literal::try_from(b.to_vec())] {
        ensure!(r.is_ok() == want, "literal from bytes {}", show(b));
        if let Ok(x) = r {
            ensure!(x.data() == b && x.as_ref() == b && x.mode() == LiteralMode::Sync, "literal changed {}", show(b));
            let y = x.clone().into_non_sync();
            ensure!(y.data() == b && y.mode() == LiteralMode::NonSync, "literal mode change altered {}", show(b));
            ensure!(y.into_sync() == x && x.into_inner() == b, "literal mode change not reversible for {}", show(b));
        }
    }
    if let Some(s) = s {
        for r in [Literal::try_from(s), Literal::try_from(s.to_string())] {
            ensure!(r.is_ok() == want, "literal from str {}", show(b));
            if let Ok(x) = r {
                ensure!(x.data() == b && x.mode() == LiteralMode::Sync, "literal changed {}", show(b));
            }
        }
    }
    Ok(if any || want { hash(&b) } else { None })
}

fn check_classes() -> R {
    for i in 0..=255u8 {
        let rows: [(&str, bool, bool); 11] = [
            ("char", indicators::is_char(i), spec::is_char(i)),
            ("ctl", indicators::is_ctl(i), spec::is_ctl(i)),
            ("char8", indicators::is_char8(i), spec::is_char8(i)),
            ("quoted-specials", indicators::is_quoted_specials(i), i == b'"' || i == b'\\'),
            ("astring-char", indicators::is_astring_char(i), spec::is_astring_char(i)),
            ("atom-char", indicators::is_atom_char(i), spec::is_atom_char(i)),
            ("atom-specials", indicators::is_atom_specials(i), spec::is_atom_special(i)),
            ("list-wildcards", indicators::is_list_wildcards(i), i == b'%' || i == b'*'),
            ("resp-specials", indicators::is_resp_specials(i), i == b']'),
            ("text-char", indicators::is_text_char(i), spec::is_text_char(i)),
            ("list-char", indicators::is_list_char(i), spec::is_list_char(i)),
        ];
        for (n, got, want) in rows {
            ensure!(got == want, "byte {i:#04x} in class {n}: {got}, expected {want}");
        }
    }
    Ok(hash(&1))
}

#[derive(PartialEq, Debug, Clone, Copy)]
enum Repr {
    Atom,
    Quoted,
    Literal,
}
fn istring_repr(b: &[u8]) -> Option<Repr> {
    if spec::quoted(b) {
        Some(Repr::Quoted)
    } else if spec::literal(b) {
        Some(Repr::Literal)
    } else {
        None
    }
}
fn of_istring(x: &IString) -> Repr {
    match x {
        IString::Literal(l) => {
            assert!(l.mode() == LiteralMode::Sync, "literal is not synchronizing");
            Repr::Literal
        }
        IString::Quoted(_) => Repr::Quoted,
        #[cfg(feature = "ext")]
        IString::QuotedUtf8(_) => panic!("utf8 string"),
    }
}
fn of_astring(x: &AString) -> Repr {
    match x {
        AString::Atom(_) => Repr::Atom,
        AString::String(i) => of_istring(i),
    }
}
fn check_c06(b: &[u8]) -> R {
    let s = std::str::from_utf8(b).ok();
    // IString, NString
    let want = istring_repr(b);
    let mut rs: Vec<Result<IString, ValidationError>> = vec![IString::try_from(b), IString::try_from(b.to_vec())];
    let mut ns: Vec<Result<NString, ValidationError>> = vec![NString::try_from(b), NString::try_from(b.to_vec())];
    if let Some(s) = s {
        rs.push(IString::try_from(s));
        rs.push(IString::try_from(s.to_string()));
        ns.push(NString::try_from(s));
        ns.push(NString::try_from(s.to_string()));
    }
    for n in ns {
        ensure!(n.is_ok() == want.is_some(), "nstring from {}: {n:?}", show(b));
        if let Ok(n) = n {
            ensure!(n.0.is_some(), "nstring lost {}", show(b));
            rs.push(Ok(n.0.clone().unwrap()));
            ensure!(n.into_option().as_deref() == Some(b), "nstring changed {}", show(b));
        }
    }
    for r in rs {
        ensure!(r.as_ref().ok().map(of_istring) == want, "string for {} is {r:?}, expected {want:?}", show(b));
        if let Ok(x) = r {
            ensure!(x.as_ref() == b, "string changed {}", show(b));
            ensure!(x.into_inner() == b, "string changed {}", show(b));
        }
    }
    // AString
    let want = if spec::astring_atom(b) { Some(Repr::Atom) } else { istring_repr(b) };
    let mut rs = vec![AString::try_from(b), AString::try_from(b.to_vec())];
    if let Some(s) = s {
        rs.push(AString::try_from(s));
        rs.push(AString::try_from(s.to_string()));
    }
    for r in rs {
        ensure!(r.as_ref().ok().map(of_astring) == want, "astring for {} is {r:?}, expected {want:?}", show(b));
        if let Ok(x) = r {
            ensure!(x.as_ref() == b, "astring changed {}", show(b));
        }
    }
    // Mailbox
    let inbox = b.eq_ignore_ascii_case(b"inbox");
    let mut rs = vec![Mailbox::try_from(b), Mailbox::try_from(b.to_vec())];
    let mut os = vec![MailboxOther::try_from(b), MailboxOther::try_from(b.to_vec())];
    if let Some(s) = s {
        rs.push(Mailbox::try_from(s));
        rs.push(Mailbox::try_from(s.to_string()));
        os.push(MailboxOther::try_from(s));
        os.push(MailboxOther::try_from(s.to_string()));
    }
    for r in rs {
        match r {
            Err(_) => ensure!(want.is_none(), "mailbox {} rejected", show(b)),
            Ok(Mailbox::Inbox) => ensure!(inbox, "{} is INBOX", show(b)),
            Ok(Mailbox::Other(o)) => {
                ensure!(!inbox, "{} is not INBOX", show(b));
                ensure!(o.as_ref() == b && Some(of_astring(o.inner())) == want, "mailbox {} became {o:?}", show(b));
            }
        }
    }
    for r in os {
        ensure!(r.is_ok() == (want.is_some() && !inbox), "other mailbox from {}: {r:?}", show(b));
        if let Ok(o) = r {
            ensure!(o.as_ref() == b && Some(of_astring(o.inner())) == want, "other mailbox {} became {o:?}", show(b));
        }
    }
    // Charset
    let want_cs = if spec::atom(b) { Some(Repr::Atom) } else if spec::quoted(b) { Some(Repr::Quoted) } else { None };
    let mut rs = vec![Charset::try_from(b), Charset::try_from(b.to_vec())];
    if let Some(s) = s {
        rs.push(Charset::try_from(s));
        rs.push(Charset::try_from(s.to_string()));
    }
    for r in rs {
        let got = r.as_ref().ok().map(|c| match c {
            Charset::Atom(_) => Repr::Atom,
            Charset::Quoted(_) => Repr::Quoted,
        });
        ensure!(got == want_cs, "charset for {} is {r:?}, expected {want_cs:?}", show(b));
        if let Ok(x) = r {
            ensure!(x.as_ref().as_bytes() == b, "charset changed {}", show(b));
        }
    }
    // List mailbox
    if let Some(s) = s {
        let want_lm = if spec::list_chars(b) { Some(Repr::Atom) } else { istring_repr(b) };
        for r in [ListMailbox::try_from(s), ListMailbox::try_from(s.to_string())] {
            let got = r.as_ref().ok().map(|c| match c {
                ListMailbox::Token(t) => {
                    assert!(t.as_ref() == b);
                    Repr::Atom
                }
                ListMailbox::String(i) => {
                    assert!(i.as_ref() == b);
                    of_istring(i)
                }
            });
            ensure!(got == want_lm, "list pattern for {} is {r:?}, expected {want_lm:?}", show(b));
        }
    }
    // a value built from any string is sent so that the peer reads back the same bytes
    if want.is_some() {
        let cmd = CommandBody::login(AString::try_from(b).unwrap(), "p").map_err(|e| format!("{e:?}"))?.tag("A").unwrap();
        let wire = CommandCodec::default().encode(&cmd).dump();
        match CommandCodec::default().decode(&wire) {
            Ok((rem, Command { body: CommandBody::Login { username, .. }, .. })) if rem.is_empty() => ensure!(username.as_ref() == b, "user name {} read back as {}", show(b), show(username.as_ref())),
            r => return Err(format!("LOGIN with user name {}: {r:?}", show(b))),
        }
    }
    Ok(if want.is_some() { hash(&b) } else { None })
}

fn check_c07(s: &str) -> R {
    let e = utils::escape_quoted(s);
    ensure!(e == spec::escape(s), "escaping {s:?} gives {e:?}");
    let u = utils::unescape_quoted(&e);
    ensure!(u == s, "escape then unescape of {s:?} gives {u:?}");
    // no unescaped quote or dangling backslash in the escaped text
    let mut it = e.chars();
    while let Some(c) = it.next() {
        ensure!(c != '"', "bare quote in {e:?}");
        if c == '\\' {
            ensure!(matches!(it.next(), Some('"' | '\\')), "dangling backslash in {e:?}");
        }
    }
    if spec::quoted(s.as_bytes()) {
        let q = Quoted::try_from(s).unwrap();
        let m = CommandBody::login(AString::from(q.clone()), "p").map_err(|e| format!("{e:?}"))?.tag("A").unwrap();
        let wire = CommandCodec::default().encode(&m).dump();
        let want = format!("A LOGIN \"{}\" p\r\n", spec::escape(s));
        ensure!(wire == want.as_bytes(), "quoted {s:?} on the wire: {}", show(&wire));
        let (rem, back) = CommandCodec::default().decode(&wire).map_err(|e| format!("{e:?} for {}", show(&wire)))?;
        ensure!(rem.is_empty() && back == m, "quoted {s:?} read back as {back:?}");
    }
    Ok(if s.contains(['"', '\\']) { hash(&s) } else { None })
}

fn check_quotedchar(c: char) -> R {
    let want = (c as u32) < 128 && spec::is_text_char(c as u8);
    ensure!(QuotedChar::validate(c).is_ok() == want, "quoted char {c:?} validity");
    let r = QuotedChar::try_from(c);
    ensure!(r.is_ok() == want, "quoted char from {c:?}");
    if let Ok(q) = r {
        ensure!(q.inner() == c, "quoted char changed");
        // as the delimiter of a LIST response
        let r = Response::Data(Data::List { items: vec![], delimiter: Some(q), mailbox: Mailbox::Inbox });
        let wire = ResponseCodec::default().encode(&r).dump();
        let esc = if c == '"' || c == '\\' { format!("\\{c}") } else { c.to_string() };
        ensure!(wire == format!("* LIST () \"{esc}\" INBOX\r\n").as_bytes(), "delimiter {c:?} on the wire: {}", show(&wire));
        let back = ResponseCodec::default().decode(&wire);
        ensure!(matches!(&back, Ok((rem, x)) if rem.is_empty() && *x == r), "delimiter {c:?} read back as {back:?}");
    }
    Ok(hash(&c))
}

fn check_c08(g: &mut G) -> R {
    let n = g.choose(8);
    let v: Vec<u32> = (0..n as u32).map(|i| i * 7 + g.choose(3) as u32).collect();
    g.say(|| format!("{v:?}"));
    let r = Vec1::<u32>::try_from(v.clone());
    ensure!(r.is_ok() == (n >= 1), "Vec1 of {n} elements: {}", r.is_ok());
    ensure!(Vec1::validate(&v).is_ok() == (n >= 1), "Vec1::validate of {n} elements");
    if let Ok(x) = r {
        ensure!(x.as_ref() == &v[..] && x.clone().into_inner() == v && x.clone().into_iter().collect::<Vec<_>>() == v, "Vec1 changed {v:?}");
        let s = x.to_static();
        ensure!(s == x && x.clone().into_static() == x, "Vec1 static copy differs");
    }
    let r = Vec2::<u32>::try_from(v.clone());
    ensure!(r.is_ok() == (n >= 2), "Vec2 of {n} elements: {}", r.is_ok());
    ensure!(Vec2::validate(&v).is_ok() == (n >= 2), "Vec2::validate of {n} elements");
    if let Ok(x) = r {
        ensure!(x.as_ref() == &v[..] && x.clone().into_inner() == v && x.clone().into_iter().collect::<Vec<_>>() == v, "Vec2 changed {v:?}");
    }
    let r = VecN::<u32, 5>::try_from(v.clone());
    ensure!(r.is_ok() == (n >= 5), "VecN<5> of {n} elements: {}", r.is_ok());
    ensure!(Vec1::from(7u32).as_ref() == [7], "Vec1 of one element");
    ensure!(Vec1::<u32>::from([7u32]).as_ref() == [7], "Vec1 of one element");
    ensure!(Vec2::from((7u32, 8)).as_ref() == [7, 8], "Vec2 of two elements");
    ensure!(VecN::<u32, 3>::from([1, 2, 3]).as_ref() == [1, 2, 3], "VecN of three elements");
    // constructors that take lists
    let caps = vec![Capability::Idle; n];
    let r = Data::capability(caps.clone());
    ensure!(r.is_ok() == (n >= 1), "capability data with {n} capabilities");
    ensure!(n == 0 || r.unwrap() == Data::Capability(Vec1::try_from(caps).unwrap()), "capability data changed");
    let items = vec![imap_types::fetch::MessageDataItem::Rfc822Size(1); n];
    let r = Data::fetch(1u32, items);
    ensure!(r.is_ok() == (n >= 1), "fetch data with {n} items");
    let seqs = vec![imap_types::sequence::Sequence::from(std::num::NonZeroU32::MIN); n];
    let r = imap_types::sequence::SequenceSet::try_from(seqs);
    ensure!(r.is_ok() == (n >= 1), "sequence set of {n} sequences");
    let e = CommandBody::enable(vec![CapabilityEnable::from(Atom::try_from("X").unwrap()); n]);
    ensure!(e.is_ok() == (n >= 1), "enable with {n} capabilities");
    Ok(hash(&v))
}

/// (canonical name, check that a value is the expected known one)
macro_rules! known {
    ($g:expr, $T:ty, $from:expr, $name:expr, [$($n:literal => $p:pat),* $(,)?], $other:pat) => {{
        let atom = Atom::try_from($name.to_string()).map_err(|e| format!("{e}"))?;
        let v: $T = $from(atom);
        let lower = $name.to_ascii_lowercase();
        let ok = match lower.as_str() {
            $(x if x == $n.to_ascii_lowercase() => matches!(v, $p),)*
            _ => matches!(v, $other),
        };
        ensure!(ok, "{} for name {:?} is {v:?}", stringify!($T), $name);
        // the printed form keeps the name (exactly, unless it is a known one)
        let shown = v.to_string();
        let isknown = [$($n),*].iter().any(|k: &&str| k.eq_ignore_ascii_case(&$name));
        if isknown { ensure!(shown.trim_start_matches('\\').eq_ignore_ascii_case(&$name), "{} for {:?} prints as {shown:?}", stringify!($T), $name); }
        else { ensure!(shown.trim_start_matches('\\') == $name, "{} for {:?} prints as {shown:?}", stringify!($T), $name); }
    }};
}

fn vary(g: &mut G, names: &[&str]) -> String {
    let base = g.pick(names).to_string();
    let chars: Vec<char> = base.chars().collect();
    match g.choose(6) {
        0 => base,
        1 => base.to_ascii_lowercase(),
        2 => base.to_ascii_uppercase(),
        3 => {
            // any single character in the other case
            let p = g.choose(chars.len().max(1));
            chars.iter().enumerate().map(|(i, c)| if i == p { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { *c }).collect()
        }
        4 => {
            // not the known name any more
            let p = g.choose(chars.len().max(1));
            match g.choose(3) {
                0 => format!("{base}X"),
                1 => format!("X{base}"),
                _ => chars.iter().enumerate().filter(|(i, _)| *i != p).map(|(_, c)| *c).collect(),
            }
        }
        _ => chars.iter().map(|c| if g.flag() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

const MECHS: &[&str] = &["PLAIN", "LOGIN", "OAUTHBEARER", "XOAUTH2", "SCRAM-SHA-1", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256", "SCRAM-SHA-256-PLUS", "SCRAM-SHA3-512", "SCRAM-SHA3-512-PLUS", "FOO", "GSSAPI", "SCRAM-SHA-512"];
fn check_mech(_g: &mut G, n: &str) -> Result<AuthMechanism<'static>, String> {
    let n = n.to_string();
    known!(g, AuthMechanism, AuthMechanism::from, n, [
        "PLAIN" => AuthMechanism::Plain, "LOGIN" => AuthMechanism::Login, "OAUTHBEARER" => AuthMechanism::OAuthBearer, "XOAUTH2" => AuthMechanism::XOAuth2,
        "SCRAM-SHA-1" => AuthMechanism::ScramSha1, "SCRAM-SHA-1-PLUS" => AuthMechanism::ScramSha1Plus, "SCRAM-SHA-256" => AuthMechanism::ScramSha256,
        "SCRAM-SHA-256-PLUS" => AuthMechanism::ScramSha256Plus, "SCRAM-SHA3-512" => AuthMechanism::ScramSha3_512, "SCRAM-SHA3-512-PLUS" => AuthMechanism::ScramSha3_512Plus,
    ], AuthMechanism::Other(_));
    let m = AuthMechanism::try_from(n.clone()).unwrap();
    for x in [AuthMechanism::try_from(n.as_str()), AuthMechanism::try_from(n.as_bytes()), AuthMechanism::try_from(n.clone().into_bytes()), AuthMechanism::try_from(Cow::Borrowed(n.as_str()))] {
        ensure!(x.as_ref() == Ok(&m), "mechanism {n:?} differs between construction routes: {x:?}");
    }
    ensure!(n.parse::<AuthMechanism>() == Ok(m.clone()), "mechanism {n:?} differs when parsed");
    ensure!(m.as_ref() == m.to_string(), "mechanism {n:?}: as_ref and display differ");
    Ok(m)
}

fn check_c09(g: &mut G, which: usize) -> R {
    let n;
    match which {
        0 => {
            n = vary(g, MECHS);
            if n.is_empty() {
                return Ok(None);
            }
            check_mech(g, &n)?;
        }
        1 => {
            const N: &[&str] = &["Answered", "Deleted", "Draft", "Flagged", "Seen", "Recent", "Foo"];
            n = vary(g, N);
            known!(g, Flag, Flag::system, n, ["Answered" => Flag::Answered, "Deleted" => Flag::Deleted, "Draft" => Flag::Draft, "Flagged" => Flag::Flagged, "Seen" => Flag::Seen], Flag::Extension(_));
            let s = format!("\\{n}");
            ensure!(Flag::try_from(s.as_str()) == Ok(Flag::system(Atom::try_from(n.as_str()).unwrap())), "flag {s:?} differs between construction routes");
            ensure!(Flag::try_from(n.as_str()) == Ok(Flag::Keyword(Atom::try_from(n.as_str()).unwrap())), "{n:?} is not a keyword");
        }
        2 => {
            n = vary(g, &["Noinferiors", "Noselect", "Marked", "Unmarked", "HasChildren"]);
            known!(g, FlagNameAttribute, FlagNameAttribute::from, n, ["Noinferiors" => FlagNameAttribute::Noinferiors, "Noselect" => FlagNameAttribute::Noselect, "Marked" => FlagNameAttribute::Marked, "Unmarked" => FlagNameAttribute::Unmarked], FlagNameAttribute::Extension(_));
        }
        3 => {
            n = vary(g, &["STORAGE", "MESSAGE", "MAILBOX", "ANNOTATION-STORAGE", "FOO"]);
            known!(g, Resource, Resource::from, n, ["STORAGE" => Resource::Storage, "MESSAGE" => Resource::Message, "MAILBOX" => Resource::Mailbox, "ANNOTATION-STORAGE" => Resource::AnnotationStorage], Resource::Other(_));
            let m = Resource::from(Atom::try_from(n.clone()).unwrap());
            for x in [Resource::try_from(n.as_str()), Resource::try_from(n.as_bytes()), Resource::try_from(n.clone()), Resource::try_from(n.clone().into_bytes()), Resource::try_from(Cow::Borrowed(n.as_str()))] {
                ensure!(x.as_ref() == Ok(&m), "resource {n:?} differs between construction routes: {x:?}");
            }
        }
        4 => {
            n = vary(g, &["DISPLAY", "FOO"]);
            known!(g, SortAlgorithm, SortAlgorithm::from, n, ["DISPLAY" => SortAlgorithm::Display], SortAlgorithm::Other(_));
        }
        5 => {
            n = vary(g, &["REFERENCES", "ORDEREDSUBJECT", "REFS"]);
            known!(g, ThreadingAlgorithm, ThreadingAlgorithm::from, n, ["REFERENCES" => ThreadingAlgorithm::References, "ORDEREDSUBJECT" => ThreadingAlgorithm::OrderedSubject], ThreadingAlgorithm::Other(_));
        }
        6 => {
            n = vary(g, &["DEFLATE", "GZIP"]);
            let want = n.eq_ignore_ascii_case("deflate");
            for r in [CompressionAlgorithm::try_from(n.as_str()), CompressionAlgorithm::try_from(n.as_bytes()), CompressionAlgorithm::try_from(Atom::try_from(n.as_str()).unwrap())] {
                ensure!(r.is_ok() == want, "compression algorithm {n:?}: {r:?}");
            }
            ensure!(CompressionAlgorithm::Deflate.as_ref() == "DEFLATE" && CompressionAlgorithm::Deflate.to_string() == "DEFLATE", "DEFLATE's name");
        }
        7 => {
            n = vary(g, &["INBOX", "Inbox", "IN"]);
            let want = n.eq_ignore_ascii_case("INBOX");
            let q = Quoted::try_from(n.as_str()).unwrap();
            let l = Literal::try_from(n.as_str()).unwrap();
            for m in [Mailbox::try_from(n.as_str()).unwrap(), Mailbox::from(AString::from(q)), Mailbox::from(AString::from(l))] {
                ensure!(matches!(m, Mailbox::Inbox) == want, "mailbox {n:?} is {m:?}");
            }
            for line in [format!("A SELECT {n}\r\n"), format!("A SELECT \"{n}\"\r\n"), format!("A SELECT {{{}+}}\r\n{n}\r\n", n.len())] {
                let r = CommandCodec::default().decode(line.as_bytes());
                ensure!(matches!(&r, Ok((_, Command { body: CommandBody::Select { mailbox, .. }, .. })) if matches!(mailbox, Mailbox::Inbox) == want), "{line:?} decodes to {r:?}");
            }
        }
        8 => {
            n = vary(g, &["CONDSTORE", "UTF8=ACCEPT", "UTF8=ONLY", "METADATA", "METADATA-SERVER", "FOO", "QRESYNC"]);
            #[cfg(feature = "ext")]
            {
                use imap_types::extensions::utf8::Utf8Kind;
                known!(g, CapabilityEnable, CapabilityEnable::from, n, ["CONDSTORE" => CapabilityEnable::CondStore, "UTF8=ACCEPT" => CapabilityEnable::Utf8(Utf8Kind::Accept), "UTF8=ONLY" => CapabilityEnable::Utf8(Utf8Kind::Only), "METADATA" => CapabilityEnable::Metadata, "METADATA-SERVER" => CapabilityEnable::MetadataServer], CapabilityEnable::Other(_));
            }
            #[cfg(not(feature = "ext"))]
            known!(g, CapabilityEnable, CapabilityEnable::from, n, [], CapabilityEnable::Other(_));
        }
        _ => {
            let names: &[&str] = &[
                "IMAP4REV1", "LOGINDISABLED", "STARTTLS", "IDLE", "MAILBOX-REFERRALS", "LOGIN-REFERRALS", "SASL-IR", "ENABLE", "QUOTA", "QUOTASET", "LITERAL+", "LITERAL-", "MOVE", "ID", "SORT", "METADATA", "METADATA-SERVER", "BINARY", "UNSELECT", "CONDSTORE", "QRESYNC",
                "UIDPLUS", "NAMESPACE", "UTF8=ACCEPT", "UTF8=ONLY", "X-FOO", "FOO=BAR", "=", "AUTH=", "COMPRESS=GZIP", "QUOTA=RES-", "SORT=", "THREAD=", "AUTH", "THREAD",
            ];
            if g.choose(2) == 0 {
                n = vary(g, names);
                if n.is_empty() {
                    return Ok(None);
                }
                let has = |x: &str| n.eq_ignore_ascii_case(x);
                let c = Capability::try_from(n.clone()).unwrap();
                let always: &[(&str, Capability)] = &[
                    ("IMAP4REV1", Capability::Imap4Rev1), ("LOGINDISABLED", Capability::LoginDisabled), ("IDLE", Capability::Idle), ("SASL-IR", Capability::SaslIr), ("ENABLE", Capability::Enable), ("QUOTA", Capability::Quota), ("QUOTASET", Capability::QuotaSet),
                    ("LITERAL+", Capability::LiteralPlus), ("LITERAL-", Capability::LiteralMinus), ("MOVE", Capability::Move), ("SORT", Capability::Sort(None)), ("BINARY", Capability::Binary), ("UNSELECT", Capability::Unselect), ("UIDPLUS", Capability::UidPlus),
                ];
                #[cfg(feature = "ext")]
                let ext: &[(&str, Capability)] = &[
                    ("STARTTLS", Capability::StartTls), ("MAILBOX-REFERRALS", Capability::MailboxReferrals), ("LOGIN-REFERRALS", Capability::LoginReferrals), ("ID", Capability::Id), ("METADATA", Capability::Metadata), ("METADATA-SERVER", Capability::MetadataServer),
                    ("CONDSTORE", Capability::CondStore), ("QRESYNC", Capability::QResync), ("NAMESPACE", Capability::Namespace), ("UTF8=ACCEPT", Capability::Utf8(imap_types::extensions::utf8::Utf8Kind::Accept)), ("UTF8=ONLY", Capability::Utf8(imap_types::extensions::utf8::Utf8Kind::Only)),
                ];
                #[cfg(not(feature = "ext"))]
                let ext: &[(&str, Capability)] = &[];
                match always.iter().chain(ext).find(|(k, _)| has(k)) {
                    Some((_, want)) => {
                        ensure!(c == *want, "capability {n:?} is {c:?}");
                        ensure!(c.to_string().eq_ignore_ascii_case(&n), "capability {n:?} prints as {c}");
                    }
                    None => {
                        // prefix "=" families with an acceptable right-hand side are structured, everything else is "other"
                        ensure!(c.to_string().eq_ignore_ascii_case(&n), "capability {n:?} prints as {c}");
                        let up = n.to_ascii_uppercase();
                        let fam = ["AUTH=", "SORT=", "THREAD=", "QUOTA=RES-"].iter().any(|p| up.len() > p.len() && up.starts_with(p)) || up == "COMPRESS=DEFLATE";
                        ensure!(matches!(c, Capability::Other(_)) != fam, "capability {n:?} is {c:?}");
                        ensure!(fam || c.to_string() == n, "capability {n:?} prints as {c}");
                    }
                }
            } else {
                // structured capabilities
                let (pre, names): (&str, &[&str]) = [("AUTH=", MECHS), ("COMPRESS=", &["DEFLATE"][..]), ("QUOTA=RES-", &["STORAGE", "MESSAGE", "MAILBOX", "ANNOTATION-STORAGE", "Foo", "RES-X"][..]), ("SORT=", &["DISPLAY", "Foo"][..]), ("THREAD=", &["REFERENCES", "ORDEREDSUBJECT", "Foo"][..])][g.choose(5)];
                let p = vary(g, &[pre]);
                let p = if p.eq_ignore_ascii_case(pre) { p } else { pre.to_string() };
                let m = vary(g, names);
                if m.is_empty() {
                    return Ok(None);
                }
                n = format!("{p}{m}");
                let c = Capability::try_from(n.clone()).unwrap();
                let atom = Atom::try_from(m.clone()).unwrap();
                let want = match pre {
                    "AUTH=" => Capability::Auth(AuthMechanism::from(atom)),
                    "COMPRESS=" => match CompressionAlgorithm::try_from(atom) {
                        Ok(algorithm) => Capability::Compress { algorithm },
                        Err(_) => {
                            ensure!(matches!(c, Capability::Other(_)) && c.to_string() == n, "capability {n:?} is {c:?}");
                            return Ok(hash(&n));
                        }
                    },
                    "QUOTA=RES-" => Capability::QuotaRes(Resource::from(atom)),
                    "SORT=" => Capability::Sort(Some(SortAlgorithm::from(atom))),
                    _ => Capability::Thread(ThreadingAlgorithm::from(atom)),
                };
                ensure!(c == want, "capability {n:?} is {c:?}, expected {want:?}");
                ensure!(c.to_string().eq_ignore_ascii_case(&n), "capability {n:?} prints as {c}");
            }
            let c = Capability::try_from(n.clone()).unwrap();
            for x in [Capability::try_from(n.as_str()), Capability::try_from(n.as_bytes()), Capability::try_from(n.clone().into_bytes())] {
                ensure!(x.as_ref() == Ok(&c), "capability {n:?} differs between construction routes: {x:?}");
            }
            let line = format!("* CAPABILITY IMAP4REV1 {n}\r\n");
            let r = ResponseCodec::default().decode(line.as_bytes());
            ensure!(matches!(&r, Ok((_, Response::Data(Data::Capability(v)))) if v.as_ref().last() == Some(&c)), "{line:?} decodes to {r:?}, expected {c:?}");
        }
    }
    g.say(|| n.clone());
    Ok(hash(&n))
}

fn valid_day(y: i32, m: u32, d: u32) -> bool {
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let n = match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => 28 + leap as u32,
        _ => 0,
    };
    d >= 1 && d <= n
}
const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

fn check_datetime(g: &mut G) -> R {
    let y = if g.is_random() { g.choose(10400) as i32 - 200 } else { g.pick(&[2024, 0, 9999, -1, 10000, 1, 1900, 2000, 1970, 999, 99]) };
    let mo = 1 + g.choose(12) as u32;
    let d = 1 + g.choose(31) as u32;
    if !valid_day(y, mo, d) {
        return Ok(None);
    }
    let h = g.choose(24) as u32;
    let mi = g.choose(60) as u32;
    let s = g.choose(60) as u32;
    let nanos = g.pick(&[0u32, 1, 999_999_999, 500_000_000, 1_000_000_000, 1_999_999_999]);
    let off = match g.choose(6) {
        0 => 0,
        1 => 60 * (g.choose(1439) as i32 + 1),
        2 => -60 * (g.choose(1439) as i32 + 1),
        3 => g.choose(86400) as i32,
        4 => -(g.choose(86400) as i32),
        _ => g.pick(&[30, 59, 61, -1, -59, 86399, -86399, 3599]),
    };
    let Some(naive) = chrono::NaiveDate::from_ymd_opt(y, mo, d).and_then(|x| x.and_hms_nano_opt(h, mi, s, nanos)) else { return Ok(None) };
    let Some(fo) = FixedOffset::east_opt(off) else { return Ok(None) };
    let Some(dt) = fo.from_local_datetime(&naive).single() else { return Ok(None) };
    let want = (0..=9999).contains(&y) && nanos == 0 && off % 60 == 0;
    g.say(|| format!("{dt:?}"));
    ensure!(DateTime::validate(&dt).is_ok() == want, "validity of date-time {dt:?}");
    let r = DateTime::try_from(dt);
    ensure!(r.is_ok() == want, "date-time from {dt:?}: {r:?}");
    if let Ok(v) = r {
        ensure!(*v.as_ref() == dt, "date-time changed");
        ensure!(v.to_static() == v && v.clone().into_static() == v, "static copy differs");
        let cmd = CommandBody::append("INBOX", vec![], Some(v.clone()), "x").map_err(|e| format!("{e:?}"))?.tag("A").unwrap();
        let wire = CommandCodec::default().encode(&cmd).dump();
        let a = off.abs() / 60;
        let txt = format!("A APPEND INBOX \"{d:02}-{}-{y:04} {h:02}:{mi:02}:{s:02} {}{:02}{:02}\" {{1}}\r\nx\r\n", MONTHS[mo as usize - 1], if off < 0 { '-' } else { '+' }, a / 60, a % 60);
        ensure!(String::from_utf8_lossy(&wire) == txt, "date-time {dt:?} on the wire: {} expected {txt:?}", show(&wire));
        let (rem, back) = CommandCodec::default().decode(&wire).map_err(|e| format!("{e:?}"))?;
        ensure!(rem.is_empty() && back == cmd, "date-time {dt:?} read back as {back:?}");
        let CommandBody::Append { date: Some(b), .. } = back.body else { return Err("no date".into()) };
        let b = b.as_ref();
        ensure!((b.year(), b.month(), b.day(), b.hour(), b.minute(), b.second(), b.offset().local_minus_utc()) == (y, mo, d, h, mi, s, off), "date-time fields changed: {b:?}");
        return Ok(hash(&txt));
    }
    Ok(None)
}
fn check_date(g: &mut G) -> R {
    let y = if g.is_random() { g.choose(10400) as i32 - 200 } else { g.pick(&[2024, 0, 9999, -1, 10000, 1, 1900, 2000, 1970, 999, 99]) };
    let mo = 1 + g.choose(12) as u32;
    let d = 1 + g.choose(31) as u32;
    if !valid_day(y, mo, d) {
        return Ok(None);
    }
    let nd = chrono::NaiveDate::from_ymd_opt(y, mo, d).ok_or("day")?;
    g.say(|| format!("{nd:?}"));
    let want = (0..=9999).contains(&y);
    ensure!(NaiveDate::validate(&nd).is_ok() == want, "validity of date {nd:?}");
    let r = NaiveDate::try_from(nd);
    ensure!(r.is_ok() == want, "date from {nd:?}: {r:?}");
    if let Ok(v) = r {
        ensure!(*v.as_ref() == nd, "date changed");
        ensure!(v.to_static() == v && v.clone().into_static() == v, "static copy differs");
        let cmd = CommandBody::search(None, Vec1::from(imap_types::search::SearchKey::Before(v)), false).tag("A").unwrap();
        let wire = CommandCodec::default().encode(&cmd).dump();
        let txt = format!("A SEARCH BEFORE \"{d}-{}-{y:04}\"\r\n", MONTHS[mo as usize - 1]);
        let txt2 = format!("A SEARCH BEFORE \"{d:02}-{}-{y:04}\"\r\n", MONTHS[mo as usize - 1]);
        ensure!(wire == txt.as_bytes() || wire == txt2.as_bytes(), "date {nd:?} on the wire: {}", show(&wire));
        let (rem, back) = CommandCodec::default().decode(&wire).map_err(|e| format!("{e:?}"))?;
        ensure!(rem.is_empty() && back == cmd, "date {nd:?} read back as {back:?}");
        return Ok(hash(&txt));
    }
    Ok(None)
}
/// Reading: any date-time text is accepted iff it denotes an existing instant, and then exactly that one.
fn check_datetime_text(g: &mut G) -> R {
    let dd = g.pick(&["01", " 1", "31", "29", "30", "00", "32", "1", " 9", "28"]);
    let mon = match g.choose(14) {
        k if k < 12 => MONTHS[k].to_string(),
        12 => "JAN".into(),
        _ => "foo".into(),
    };
    let y = g.pick(&["2023", "2024", "1900", "2000", "0000", "9999", "0001", "999", "10000"]);
    let t = g.pick(&["12:34:56", "00:00:00", "23:59:59", "24:00:00", "23:60:00", "23:59:60", "23:59:61", "99:99:99"]);
    let z = g.pick(&["+0000", "-0000", "+2359", "-2359", "+2400", "-2400", "+0060", "+9959", "+1400", "0000", "+000"]);
    let line = format!("A APPEND INBOX \"{dd}-{mon}-{y} {t} {z}\" {{1+}}\r\nx\r\n");
    g.say(|| line.clone());
    let r = CommandCodec::default().decode(line.as_bytes());
    let day: u32 = dd.trim().parse().unwrap();
    let m = MONTHS.iter().position(|x| x.eq_ignore_ascii_case(&mon)).map(|p| p as u32 + 1).unwrap_or(0);
    let yy: i32 = y.parse().unwrap();
    let num = |s: &str| s.parse::<u32>().unwrap();
    let (h, mi, s) = (num(&t[0..2]), num(&t[3..5]), num(&t[6..8]));
    let plausible = dd.len() == 2 && y.len() == 4 && z.len() == 5 && m > 0 && valid_day(yy, m, day) && h < 24 && mi < 60 && s < 60;
    match r {
        Ok((_, Command { body: CommandBody::Append { date: Some(b), .. }, .. })) => {
            let b = b.as_ref();
            let off = (num(&z[1..3]) * 3600 + num(&z[3..5]) * 60) as i32 * if z.starts_with('-') { -1 } else { 1 };
            ensure!(plausible, "{line:?} accepted as {b:?}");
            ensure!((b.year(), b.month(), b.day(), b.hour(), b.minute(), b.second(), b.offset().local_minus_utc()) == (yy, m, day, h, mi, s, off), "{line:?} read as {b:?}");
        }
        Ok((_, c)) => return Err(format!("{line:?} decodes to {c:?}")),
        Err(_) => {
            let z_ok = z.len() == 5 && num(&z[1..3]) < 24 && num(&z[3..5]) < 60;
            ensure!(!(plausible && z_ok), "{line:?} rejected");
        }
    }
    Ok(hash(&line))
}

#[cfg(feature = "extras")]
fn check_tags() -> R {
    let mut all = std::collections::HashSet::new();
    let hs: Vec<_> = (0..8)
        .map(|_| {
            std::thread::spawn(|| {
                let mut v = Vec::new();
                for _ in 0..40 {
                    let mut a = TagGenerator::new();
                    let mut b = TagGenerator::new();
                    for _ in 0..120 {
                        v.push(a.generate());
                        v.push(b.generate());
                    }
                }
                let mut a = TagGenerator::new();
                for _ in 0..20_000 {
                    v.push(a.generate());
                }
                v
            })
        })
        .collect();
    for h in hs {
        for t in h.join().map_err(|_| "panic".to_string())? {
            ensure!(spec::tag(t.inner().as_bytes()), "generated tag {t:?} is not a tag");
            let s = t.inner().to_string();
            ensure!(all.insert(s), "tag {t:?} was generated twice");
        }
    }
    Ok(hash(&all.len()))
}

fn check_static_command(m: Command<'static>) -> R {
    ensure!(m.to_static() == m, "to_static differs: {:?}", m.to_static());
    ensure!(m.clone().into_static() == m, "into_static differs");
    let b = CommandCodec::default().encode(&m).dump();
    ensure!(CommandCodec::default().encode(&m.to_static()).dump() == b, "static copy encodes differently");
    check_decode_static::<KCommand>(&b)?;
    Ok(hash(&b))
}
fn check_static_response(m: Response<'static>) -> R {
    ensure!(m.to_static() == m, "to_static differs: {:?}", m.to_static());
    ensure!(m.clone().into_static() == m, "into_static differs");
    let b = ResponseCodec::default().encode(&m).dump();
    ensure!(ResponseCodec::default().encode(&m.to_static()).dump() == b, "static copy encodes differently");
    check_decode_static::<KResponse>(&b)?;
    Ok(hash(&b))
}
/// decode and decode_static agree on every prefix
fn check_decode_static<K: Kind>(b: &[u8]) -> Result<(), String> {
    let step = (b.len() / 6).max(1);
    let mut k = b.len();
    loop {
        let r = K::decode(&b[..k]);
        let s = K::decode_static(&b[..k]);
        ensure!(r == s, "borrowed {r:?} and owned {s:?} decoding of {} differ", show(&b[..k]));
        if k < step {
            break;
        }
        k -= step;
    }
    // with more behind it, whose end must still be there
    for n in [1usize, 5_000, 70_000] {
        let mut b = b.to_vec();
        b.resize(b.len() + n, b'x');
        match (<K as Kind>::decode(&b), <K as Kind>::decode_static(&b)) {
            (r, s) if r == s => (),
            (r, s) => return Err(format!("borrowed {r:?} and owned {s:?} decoding of {} differ", show(&b))),
        }
    }
    Ok(())
}

fn dbg_both<T: std::fmt::Debug>(x: &T) -> String {
    format!("{x:?}\n{x:#?}")
}
#[cfg(not(debug_assertions))]
fn check_secret(g: &mut G) -> R {
    use imap_codec::fragmentizer::Fragmentizer;
    // two secrets of different content; nothing else differs, so nothing printed may differ
    let long = "Q7".repeat(2500);
    let pairs: &[(&str, &str)] = &[("x", &long), ("xyz123", "XYZ987"), ("a b", "a \\b"), ("", "nonempty"), ("short", "a much longer secret value with spaces"), ("q\"uote", "plain"), ("\r\n", "x"), ("sEcReT", "sEcReT2")];
    let (a, b) = g.pick(pairs);
    let kind = g.choose(7);
    let mech = genv::auth_mechanism(g);
    g.say(|| format!("kind {kind} secrets {a:?} {b:?}"));
    let mk = |s: &str| -> String {
        match kind {
            0 => dbg_both(&CommandBody::login("alice", AString::try_from(s).unwrap()).unwrap().tag("A").unwrap()),
            1 => dbg_both(&CommandBody::authenticate_with_ir(mech.clone(), s.as_bytes().to_vec()).tag("A").unwrap()),
            2 => dbg_both(&AuthenticateData::r#continue(s.as_bytes().to_vec())),
            3 => dbg_both(&imap_types::secret::Secret::new(s.to_string())),
            4 => {
                let c = CommandBody::login("alice", AString::try_from(s).unwrap()).unwrap().tag("A").unwrap();
                let w = CommandCodec::default().encode(&c).dump();
                dbg_both(&CommandCodec::default().decode(&w).unwrap().1)
            }
            5 => {
                // poisoned / too long messages keep their bytes, redacted
                let mut fz = Fragmentizer::without_max_message_size();
                fz.enqueue_bytes(format!("A LOGIN x {s}x\r\n").replace("\r\nx", "x").as_bytes());
                fz.progress();
                fz.poison_message();
                let mut f2 = Fragmentizer::new(9);
                f2.enqueue_bytes(b"A LOGIN a b c d e f\r\n");
                f2.progress();
                format!("{} {}", dbg_both(&fz.decode_message(&CommandCodec::default())), dbg_both(&f2.decode_message(&CommandCodec::default())))
            }
            _ => {
                let d = AuthenticateData::r#continue(s.as_bytes().to_vec());
                let w = AuthenticateDataCodec::default().encode(&d).dump();
                dbg_both(&AuthenticateDataCodec::default().decode(&w).unwrap().1)
            }
        }
    };
    let (x, y) = (mk(a), mk(b));
    ensure!(x == y, "debug output depends on the secret: {x} / {y}");
    Ok(hash(&x))
}
#[cfg(debug_assertions)]
fn check_secret(_g: &mut G) -> R {
    Ok(None)
}
fn check_secret_transparent(g: &mut G) -> R {
    use imap_types::secret::Secret;
    let a = g.pick(&["", "x", "xyz", "xyz ", "\r\n"]).to_string();
    let b = g.pick(&["", "x", "xyz", "xyz ", "\r\n"]).to_string();
    ensure!((Secret::new(a.clone()) == Secret::from(b.clone())) == (a == b), "secret equality");
    ensure!(Secret::new(a.clone()).declassify() == &a && Secret::from(a.clone()).clone().declassify() == &a, "secret value changed");
    Ok(hash(&(a, b)))
}

#[cfg(feature = "extras")]
mod serde_checks {
    use super::*;
    use serde::{Serialize, de::DeserializeOwned};
    use serde_json::Value;

    pub fn roundtrip<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(m: &T) -> Result<Value, String> {
        let v = serde_json::to_value(m).map_err(|e| format!("serialize: {e}"))?;
        let back: T = serde_json::from_value(v.clone()).map_err(|e| format!("own serialization {v} is rejected: {e}"))?;
        ensure!(&back == m, "serde round trip gives {back:?}");
        Ok(v)
    }
    fn count(v: &Value) -> usize {
        match v {
            Value::Array(a) => 1 + a.iter().map(count).sum::<usize>(),
            Value::Object(o) => o.values().map(count).sum(),
            Value::String(_) | Value::Number(_) => 1,
            _ => 0,
        }
    }
    /// Replace the `k`-th string, number or array by something hostile.
    fn mutate(v: &mut Value, k: &mut usize, g: &mut G) -> bool {
        let hit = |k: &mut usize| {
            if *k == 0 {
                true
            } else {
                *k -= 1;
                false
            }
        };
        match v {
            Value::String(s) => {
                if hit(k) {
                    let bad = g.pick(&["a\r\nb", "", "a b", "\0", "(", "]", "{5}", "\"", "\\", "\n", "ä", "+", "*", "%", "\u{7f}", "inbox", "a\0"]);
                    *s = match g.choose(3) {
                        0 => bad.to_string(),
                        1 => format!("{s}{bad}"),
                        _ => format!("{bad}{s}"),
                    };
                    return true;
                }
                false
            }
            Value::Number(n) => {
                if hit(k) {
                    *n = g.pick(&[0u64, 1, 10, 13, 255, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX]).into();
                    return true;
                }
                false
            }
            Value::Array(a) => {
                if hit(k) {
                    match g.choose(3) {
                        0 => a.clear(),
                        1 => {
                            a.pop();
                        }
                        _ => {
                            for x in a.iter_mut() {
                                if x.is_number() {
                                    *x = 13.into();
                                }
                            }
                        }
                    }
                    return true;
                }
                a.iter_mut().any(|x| mutate(x, k, g))
            }
            Value::Object(o) => o.values_mut().any(|x| mutate(x, k, g)),
            _ => false,
        }
    }
    /// Whatever can be deserialized is encodable without breaking the framing.
    pub fn hostile(g: &mut G, v: Value, reencode: impl Fn(Value) -> Option<Result<(), String>>) -> R {
        let n = count(&v);
        if n == 0 {
            return Ok(None);
        }
        let mut k = g.choose(n);
        let mut w = v;
        if !mutate(&mut w, &mut k, g) {
            return Ok(None);
        }
        g.say(|| w.to_string());
        let text = w.to_string();
        match reencode(w) {
            None => Ok(hash(&text)),
            Some(Ok(())) => Ok(hash(&text)),
            Some(Err(e)) => Err(format!("{e} for the value deserialized from {text}")),
        }
    }
}

fn check_c26(g: &mut G) -> R {
    use imap_types::error::ValidationError as VE;
    let b = bytes(g);
    let s = String::from_utf8_lossy(&b).to_string();
    let s = s.as_str();
    let uid = g.flag();
    let set = genv::any_sequence_set(g);
    let which = g.choose(26);
    g.say(|| format!("constructor {which} argument {}", show(s.as_bytes())));
    let mb: Result<Mailbox, VE> = Mailbox::try_from(s);
    let mbok = mb.is_ok();
    macro_rules! one {
        ($ctor:expr, $pat:pat => $cond:expr) => {{
            let r = $ctor;
            ensure!(r.is_ok() == mbok, "constructor {which} with {s:?}: {r:?}");
            match r {
                Err(_) => {}
                Ok($pat) => ensure!($cond, "constructor {which} with {s:?} lost its argument"),
                #[allow(unreachable_patterns)]
                Ok(x) => return Err(format!("constructor {which} built {x:?}")),
            }
        }};
    }
    let m = mb.clone().unwrap_or(Mailbox::Inbox);
    match which {
        0 => one!(CommandBody::select(s), CommandBody::Select { mailbox, .. } => mailbox == m),
        1 => one!(CommandBody::examine(s), CommandBody::Examine { mailbox, .. } => mailbox == m),
        2 => one!(CommandBody::create(s), CommandBody::Create { mailbox } => mailbox == m),
        3 => one!(CommandBody::delete(s), CommandBody::Delete { mailbox } => mailbox == m),
        4 => one!(CommandBody::subscribe(s), CommandBody::Subscribe { mailbox } => mailbox == m),
        5 => one!(CommandBody::unsubscribe(s), CommandBody::Unsubscribe { mailbox } => mailbox == m),
        6 => one!(CommandBody::rename(s, "to"), CommandBody::Rename { from, to } => from == m && to == Mailbox::try_from("to").unwrap()),
        7 => one!(CommandBody::rename("from", s), CommandBody::Rename { from, to } => to == m && from == Mailbox::try_from("from").unwrap()),
        8 => one!(CommandBody::list(s, "%"), CommandBody::List { reference, mailbox_wildcard } => reference == m && mailbox_wildcard == ListMailbox::try_from("%").unwrap()),
        9 => one!(CommandBody::lsub(s, "%"), CommandBody::Lsub { reference, mailbox_wildcard } => reference == m && mailbox_wildcard == ListMailbox::try_from("%").unwrap()),
        10 => one!(CommandBody::list("ref", s), CommandBody::List { reference, mailbox_wildcard } => reference == Mailbox::try_from("ref").unwrap() && mailbox_wildcard == ListMailbox::try_from(s).unwrap()),
        11 => one!(CommandBody::lsub("ref", s), CommandBody::Lsub { reference, mailbox_wildcard } => reference == Mailbox::try_from("ref").unwrap() && mailbox_wildcard == ListMailbox::try_from(s).unwrap()),
        12 => {
            let names: Vec<_> = g.vec0(3, genv::status_name);
            one!(CommandBody::status(s, names.clone()), CommandBody::Status { mailbox, item_names } => mailbox == m && item_names.as_ref() == names.as_slice())
        }
        13 => {
            let flags = g.vec0(2, genv::flag);
            let date = g.opt(genv::date_time);
            one!(CommandBody::append(s, flags.clone(), date.clone(), "body"), CommandBody::Append { mailbox, flags: f, date: d, message } => mailbox == m && f == flags && d == date && message == imap_types::extensions::binary::LiteralOrLiteral8::Literal(Literal::try_from("body").unwrap()))
        }
        14 => one!(CommandBody::copy(set.clone(), s, uid), CommandBody::Copy { sequence_set, mailbox, uid: u } => sequence_set == set && mailbox == m && u == uid),
        15 => one!(CommandBody::r#move(set.clone(), s, uid), CommandBody::Move { sequence_set, mailbox, uid: u } => sequence_set == set && mailbox == m && u == uid),
        16 => {
            let items = g.vec1(2, genv::item_name);
            match CommandBody::fetch(set.clone(), items.clone(), uid) {
                Ok(CommandBody::Fetch { sequence_set, macro_or_item_names, uid: u, .. }) => ensure!(sequence_set == set && u == uid && macro_or_item_names == items.into(), "fetch arguments changed"),
                r => return Err(format!("fetch: {r:?}")),
            }
        }
        17 => {
            let flags = g.vec0(2, genv::flag);
            let kind = g.pick(&[imap_types::flag::StoreType::Replace, imap_types::flag::StoreType::Add, imap_types::flag::StoreType::Remove]);
            let resp = g.pick(&[imap_types::flag::StoreResponse::Answer, imap_types::flag::StoreResponse::Silent]);
            match CommandBody::store(set.clone(), kind.clone(), resp.clone(), flags.clone(), uid) {
                Ok(CommandBody::Store { sequence_set, kind: k, response: r, flags: f, uid: u, .. }) => ensure!(sequence_set == set && u == uid && k == kind && r == resp && f == flags, "store arguments changed"),
                r => return Err(format!("store: {r:?}")),
            }
        }
        18 => {
            let r = CommandBody::login(s, "pw");
            let a = AString::try_from(s);
            ensure!(r.is_ok() == a.is_ok(), "login with user {s:?}: {r:?}");
            if let Ok(x) = r {
                ensure!(matches!(&x, CommandBody::Login { username, password } if Some(username) == a.as_ref().ok() && password.declassify().as_ref() == b"pw"), "login built {x:?}");
            }
            let r = CommandBody::login("user", s);
            ensure!(r.is_ok() == a.is_ok(), "login with password {s:?}: {r:?}");
            if let Ok(x) = r {
                ensure!(matches!(&x, CommandBody::Login { username, password } if username.as_ref() == b"user" && Some(password.declassify()) == a.as_ref().ok()), "login built {x:?}");
            }
        }
        19 => {
            let r = Command::new(s, CommandBody::Noop);
            ensure!(r.is_ok() == spec::tag(s.as_bytes()), "command with tag {s:?}: {r:?}");
            let r2 = CommandBody::Noop.tag(s);
            ensure!(r == r2, "two ways of tagging a command differ for {s:?}");
            if let Ok(c) = r {
                ensure!(c.tag.inner() == s && c.body == CommandBody::Noop, "tagging changed the command");
            }
        }
        20 => {
            let kind = g.pick(&[StatusKind::Ok, StatusKind::No, StatusKind::Bad]);
            let tag = g.opt(genv::tag);
            let code = g.opt(genv::code);
            let want = spec::text(s.as_bytes());
            let rs = [Status::new(tag.clone(), kind, code.clone(), s), match kind {
                StatusKind::Ok => Status::ok(tag.clone(), code.clone(), s),
                StatusKind::No => Status::no(tag.clone(), code.clone(), s),
                StatusKind::Bad => Status::bad(tag.clone(), code.clone(), s),
            }];
            for r in rs {
                ensure!(r.is_ok() == want, "status with text {s:?}: {r:?}");
                if let Ok(x) = r {
                    let k = match &x {
                        Status::Untagged(b) => b.kind,
                        Status::Tagged(t) => t.body.kind,
                        Status::Bye(_) => return Err("bye".into()),
                    };
                    ensure!(k == kind && x.tag() == tag.as_ref() && x.code() == code.as_ref() && x.text().inner() == s, "status arguments changed: {x:?}");
                }
            }
            let r = Status::bye(code.clone(), s);
            ensure!(r.is_ok() == want, "bye with text {s:?}");
            if let Ok(x) = r {
                ensure!(matches!(&x, Status::Bye(_)) && x.tag().is_none() && x.code() == code.as_ref() && x.text().inner() == s, "bye arguments changed: {x:?}");
            }
        }
        21 => {
            let code = g.opt(genv::code);
            let want = spec::text(s.as_bytes());
            for (r, k) in [
                (Greeting::new(GreetingKind::Ok, code.clone(), s), GreetingKind::Ok),
                (Greeting::new(GreetingKind::Bye, code.clone(), s), GreetingKind::Bye),
                (Greeting::new(GreetingKind::PreAuth, code.clone(), s), GreetingKind::PreAuth),
                (Greeting::ok(code.clone(), s), GreetingKind::Ok),
                (Greeting::bye(code.clone(), s), GreetingKind::Bye),
                (Greeting::preauth(code.clone(), s), GreetingKind::PreAuth),
            ] {
                ensure!(r.is_ok() == want, "greeting with text {s:?}: {r:?}");
                if let Ok(x) = r {
                    ensure!(x.kind == k && x.code == code && x.text.inner() == s, "greeting arguments changed: {x:?}");
                }
            }
        }
        22 => {
            // continuation requests that could be mistaken for base64 data or for a code are refused
            let code: Option<Code> = g.opt(genv::code);
            let t = match g.choose(3) {
                0 => s.to_string(),
                1 => g.pick(&["aGVsbG8=", "AAAA", "abcd", "ab==", "abc=", "[x", "[ALERT] x", "a b", "Ready", "idling", "abcde", "=", "ab=c", "+/+/"]).to_string(),
                _ => {
                    let n = g.choose(9);
                    (0..n).map(|_| g.pick(b"Aa+/=9 [") as char).collect()
                }
            };
            let r = CommandContinuationRequestBasic::new(code.clone(), t.as_str());
            let r2 = CommandContinuationRequest::basic(code.clone(), t.as_str());
            ensure!(r.is_ok() == r2.is_ok(), "two ways of building a continuation request differ for {t:?}");
            let textok = spec::text(t.as_bytes());
            ensure!(!r.is_ok() || textok, "continuation request with text {t:?}");
            if code.is_none() && textok {
                ensure!(r.is_ok() == !(t.starts_with('[') || is_base64(&t)), "continuation request with text {t:?}: {r:?}");
            }
            if code.is_some() {
                ensure!(r.is_ok() == textok, "continuation request with code and text {t:?}: {r:?}");
            }
            if let Ok(x) = &r {
                ensure!(x.code() == code.as_ref() && x.text().inner() == t, "continuation request arguments changed");
                let resp = Response::CommandContinuationRequest(r2.unwrap());
                let wire = ResponseCodec::default().encode(&resp).dump();
                let back = ResponseCodec::default().decode(&wire);
                ensure!(matches!(&back, Ok((rem, y)) if rem.is_empty() && *y == resp), "continuation request {} read back as {back:?}", show(&wire));
            }
        }
        23 => {
            use MessageDataItemName as N;
            let (mac, want) = [
                (Macro::Fast, vec![N::Flags, N::InternalDate, N::Rfc822Size]),
                (Macro::All, vec![N::Flags, N::InternalDate, N::Rfc822Size, N::Envelope]),
                (Macro::Full, vec![N::Flags, N::InternalDate, N::Rfc822Size, N::Envelope, N::Body]),
            ][g.choose(3)]
            .clone();
            ensure!(mac.expand() == want, "macro {mac:?} expands to {:?}", mac.expand());
        }
        24 => {
            let n = genv::u32v(g);
            let r = Data::expunge(n);
            ensure!(r.is_ok() == (n != 0), "expunge {n}");
            if let Ok(x) = r {
                ensure!(matches!(x, Data::Expunge(k) if k.get() == n), "expunge {n} built {x:?}");
            }
            let items = g.vec0(2, |g| imap_types::fetch::MessageDataItem::Rfc822Size(genv::u32v(g)));
            let r = Data::fetch(n, items.clone());
            ensure!(r.is_ok() == (n != 0 && !items.is_empty()), "fetch data {n} {items:?}");
            if let Ok(x) = r {
                ensure!(matches!(&x, Data::Fetch { seq, items: i } if seq.get() == n && i.as_ref() == items.as_slice()), "fetch data built {x:?}");
            }
        }
        _ => {
            // the name of a command is the word it is sent with
            let v = g.choose(genv::N_COMMANDS);
            let c = genv::command(g, v);
            let wire = CommandCodec::default().encode(&c).dump();
            let first = wire.split(|b| *b == b' ' || *b == b'\r').nth(1).unwrap_or(b"");
            let second = wire.split(|b| *b == b' ' || *b == b'\r').nth(2).unwrap_or(b"");
            let word = if first == b"UID" && c.name() != "UID" { second } else { first };
            ensure!(c.name().as_bytes().eq_ignore_ascii_case(word) && c.body.name() == c.name(), "command named {} is sent as {}", c.name(), show(&wire));
            return Ok(hash(&wire));
        }
    }
    Ok(hash(&(which, s)))
}
/// Canonical base64 (standard alphabet, padded, zero trailing bits); the empty string included.
fn is_base64(t: &str) -> bool {
    let b = t.as_bytes();
    if b.len() % 4 != 0 {
        return false;
    }
    let val = |c: u8| match c {
        b'A'..=b'Z' => Some(c - b'A'),
        b'a'..=b'z' => Some(c - b'a' + 26),
        b'0'..=b'9' => Some(c - b'0' + 52),
        b'+' => Some(62),
        b'/' => Some(63),
        _ => None,
    };
    let pad = b.iter().rev().take_while(|c| **c == b'=').count();
    if pad > 2 {
        return false;
    }
    let body = &b[..b.len() - pad];
    if body.iter().any(|c| val(*c).is_none()) {
        return false;
    }
    match (pad, body.last()) {
        (1, Some(c)) => val(*c).unwrap() & 0b11 == 0,
        (2, Some(c)) => val(*c).unwrap() & 0b1111 == 0,
        _ => true,
    }
}

pub fn groups(prop: &str, v: &mut Vec<Group>) {
    match prop {
        "C05" => {
            v.push(Group::new("byte-classes", Mode::Full { cap: 1 }, 0, |_| check_classes()));
            v.push(Group::new("strings", Mode::Dev { depth: 4, cap: 400_000 }, 200_000, |g| {
                let b = bytes(g);
                g.say(|| show(&b));
                check_c05(&b)
            }));
            v.push(Group::new("all-pairs", Mode::Full { cap: 70_000 }, 0, |g| {
                let b = [g.choose(256) as u8, g.choose(256) as u8];
                g.say(|| show(&b));
                check_c05(&b)
            }));
            v.push(Group::new("quoted-char", Mode::Full { cap: 0x120000 }, 0, |g| {
                let Some(c) = char::from_u32(g.choose(0x110000) as u32) else { return Ok(None) };
                g.say(|| format!("{c:?}"));
                check_quotedchar(c)
            }));
        }
        "C06" => {
            v.push(Group::new("strings", Mode::Dev { depth: 4, cap: 300_000 }, 100_000, |g| {
                let b = bytes(g);
                g.say(|| show(&b));
                check_c06(&b)
            }));
            v.push(Group::new("all-pairs", Mode::Full { cap: 70_000 }, 0, |g| {
                let b = [g.choose(256) as u8, g.choose(256) as u8];
                g.say(|| show(&b));
                check_c06(&b)
            }));
        }
        "C07" => {
            v.push(Group::new("all-short-strings", Mode::Full { cap: 3_000_000 }, 0, |g| {
                let n = g.choose(9);
                let s: String = (0..n).map(|_| g.pick(b"\\\"ax") as char).collect();
                g.say(|| s.clone());
                check_c07(&s)
            }));
            v.push(Group::new("strings", Mode::Dev { depth: 3, cap: 100_000 }, 200_000, |g| {
                let n = 1 + g.choose(16);
                let s: String = (0..n).map(|_| match g.choose(5) {
                    0 => 'a',
                    1 => '\\',
                    2 => '"',
                    3 => (1 + g.choose(127)) as u8 as char,
                    _ => g.pick(&['ä', '日', '\u{1F600}', '\u{80}']),
                }).collect();
                g.say(|| s.clone());
                check_c07(&s)
            }));
        }
        "C08" => v.push(Group::new("lists", Mode::Dev { depth: 4, cap: 100_000 }, 10_000, check_c08)),
        "C09" => {
            for k in 0..10 {
                let n = ["mechanism", "flag", "name-attribute", "resource", "sort", "thread", "compress", "inbox", "enable", "capability"][k];
                v.push(Group::new(n, Mode::Dev { depth: 3, cap: 100_000 }, 30_000, move |g| check_c09(g, k)));
            }
        }
        #[cfg(feature = "extras")]
        "C13" => v.push(Group::new("tags", Mode::Full { cap: 1 }, 0, |_| check_tags())),
        "C14" => {
            for k in 0..genv::N_COMMANDS {
                v.push(Group::new(format!("command/{k}"), Mode::Dev { depth: 2, cap: 8_000 }, 2_000, move |g| {
                    let m = genv::command(g, k);
                    g.say(|| format!("{m:?}"));
                    check_static_command(m)
                }));
            }
            for k in 0..genv::N_RESPONSES {
                v.push(Group::new(format!("response/{k}"), Mode::Dev { depth: 2, cap: 8_000 }, 2_000, move |g| {
                    let m = genv::response(g, k);
                    g.say(|| format!("{m:?}"));
                    check_static_response(m)
                }));
            }
            v.push(Group::new("greeting", Mode::Dev { depth: 2, cap: 8_000 }, 2_000, |g| {
                let m = genv::greeting(g);
                ensure!(m.to_static() == m && m.clone().into_static() == m, "static copy differs");
                let b = GreetingCodec::default().encode(&m).dump();
                check_decode_static::<KGreeting>(&b)?;
                Ok(hash(&b))
            }));
            v.push(Group::new("authenticate-data", Mode::Dev { depth: 3, cap: 8_000 }, 2_000, |g| {
                let m = genv::authenticate_data(g);
                ensure!(m.to_static() == m && m.clone().into_static() == m, "static copy differs");
                let b = AuthenticateDataCodec::default().encode(&m).dump();
                check_decode_static::<KAuth>(&b)?;
                Ok(hash(&b))
            }));
        }
        "C15" => {
            v.push(Group::new("date-time", Mode::Dev { depth: 3, cap: 400_000 }, 200_000, check_datetime));
            v.push(Group::new("date", Mode::Dev { depth: 3, cap: 50_000 }, 100_000, check_date));
            v.push(Group::new("date-time-text", Mode::Full { cap: 1_000_000 }, 0, check_datetime_text));
        }
        "C16" => {
            v.push(Group::new("secrets", Mode::Dev { depth: 4, cap: 50_000 }, 5_000, check_secret));
            v.push(Group::new("transparent", Mode::Full { cap: 1_000 }, 0, check_secret_transparent));
        }
        #[cfg(feature = "extras")]
        "C17" => {
            genv::SHRINK.store(32, std::sync::atomic::Ordering::Relaxed);
            use serde_checks::*;
            for k in 0..genv::N_COMMANDS {
                v.push(Group::new(format!("command/{k}"), Mode::Dev { depth: 2, cap: 4_000 }, 1_000, move |g| {
                    let m = genv::command(g, k);
                    g.say(|| format!("{m:?}"));
                    roundtrip(&m).map(|v| hash(&v.to_string()))
                }));
                v.push(Group::new(format!("hostile-command/{k}"), Mode::Dev { depth: 3, cap: 15_000 }, 3_000, move |g| {
                    let m = genv::command(g, k);
                    let v = serde_json::to_value(&m).map_err(|e| e.to_string())?;
                    hostile(g, v, |w| {
                        let m: Command<'static> = serde_json::from_value(w).ok()?;
                        if format!("{m:?}").contains("QuotedUtf8(") {
                            // known finding: not validated
                            return None;
                        }
                        Some(crate::p_codec::check_framing(&CommandCodec::default().encode(&m).collect::<Vec<_>>(), true).and_then(|_| crate::p_codec::valid_command(&m)))
                    })
                }));
            }
            for k in 0..genv::N_RESPONSES {
                v.push(Group::new(format!("response/{k}"), Mode::Dev { depth: 2, cap: 4_000 }, 1_000, move |g| {
                    let m = genv::response(g, k);
                    g.say(|| format!("{m:?}"));
                    roundtrip(&m).map(|v| hash(&v.to_string()))
                }));
                v.push(Group::new(format!("hostile-response/{k}"), Mode::Dev { depth: 3, cap: 15_000 }, 3_000, move |g| {
                    let m = genv::response(g, k);
                    let v = serde_json::to_value(&m).map_err(|e| e.to_string())?;
                    hostile(g, v, |w| {
                        let m: Response<'static> = serde_json::from_value(w).ok()?;
                        if crate::p_codec::has_unvalidated(&m) {
                            return None;
                        }
                        Some(crate::p_codec::check_framing(&ResponseCodec::default().encode(&m).collect::<Vec<_>>(), false))
                    })
                }));
            }
            v.push(Group::new("other-types", Mode::Dev { depth: 3, cap: 20_000 }, 5_000, |g| {
                let a = genv::authenticate_data(g);
                roundtrip(&a)?;
                let gr = genv::greeting(g);
                roundtrip(&gr)?;
                let s = genv::any_sequence_set(g);
                roundtrip(&s).map(|v| hash(&v.to_string()))
            }));
            v.push(Group::new("strings", Mode::Dev { depth: 3, cap: 60_000 }, 20_000, |g| {
                let b = bytes(g);
                let Ok(s) = String::from_utf8(b.clone()) else { return Ok(None) };
                g.say(|| s.clone());
                let j = serde_json::Value::String(s.clone());
                macro_rules! t {
                    ($T:ty, $spec:expr) => {
                        let r = serde_json::from_value::<$T>(j.clone());
                        ensure!(r.is_ok() == $spec, "{} deserialized from {s:?}: {r:?}", stringify!($T));
                        if let Ok(x) = r {
                            ensure!(serde_json::to_value(&x).ok().as_ref() == Some(&j), "{} serializes {s:?} differently", stringify!($T));
                        }
                    };
                }
                t!(Atom<'static>, spec::atom(&b));
                t!(AtomExt<'static>, spec::astring_atom(&b));
                t!(Tag<'static>, spec::tag(&b));
                t!(Text<'static>, spec::text(&b));
                t!(Quoted<'static>, spec::quoted(&b));
                t!(ListCharString<'static>, spec::list_chars(&b));
                let lit = serde_json::json!({"data": b, "mode": "Sync"});
                let r = serde_json::from_value::<Literal<'static>>(lit);
                ensure!(r.is_ok() == spec::literal(&b), "literal deserialized from {s:?}: {r:?}");
                Ok(hash(&s))
            }));
        }
        "C26" => v.push(Group::new("constructors", Mode::Dev { depth: 3, cap: 300_000 }, 200_000, check_c26)),
        _ => {}
    }
}
