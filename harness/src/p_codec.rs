//! Encoding and decoding: C18 framing, C19 dump, C20 round trip, C21 streaming, C22 totality,
//! C23 decoded values, C24 literal announcements, C25 agreement with the fragmentizer.
use std::fmt::Debug;

use imap_codec::{
    AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec,
    decode::{AuthenticateDataDecodeError, CommandDecodeError, Decoder, GreetingDecodeError, IdleDoneDecodeError, ResponseDecodeError},
    encode::{Encoder, Fragment},
    fragmentizer::Fragmentizer,
};
use imap_types::{command::Command, core::LiteralMode, extensions::idle::IdleDone, response::Response};

use crate::{Group, Mode, R, ensure, genv, hash, spec, tape::G};

fn esc(b: &[u8]) -> String {
    let s = b.escape_ascii().to_string();
    if s.len() > 600 { format!("{}…({} bytes)", &s[..600], b.len()) } else { s }
}

/// The framing contract of an encoded message.
pub fn check_framing(fragments: &[Fragment], command: bool) -> Result<(), String> {
    ensure!(!fragments.is_empty(), "no fragments");
    let mut prev: Option<&[u8]> = None;
    for (i, f) in fragments.iter().enumerate() {
        match f {
            Fragment::Line { data } => {
                ensure!(data.ends_with(b"\r\n"), "line {i} does not end with CRLF: {}", esc(data));
                ensure!(!data[..data.len() - 2].iter().any(|b| matches!(b, b'\r' | b'\n')), "line {i} contains a stray CR or LF: {}", esc(data));
                let announces = spec::announcement(data).is_some();
                let literal_next = matches!(fragments.get(i + 1), Some(Fragment::Literal { .. }));
                ensure!(!literal_next || announces, "line {i} is followed by a literal it does not announce: {}", esc(data));
                if command {
                    ensure!(announces == literal_next, "line {i} announces a literal that does not follow: {}", esc(data));
                }
                prev = Some(data);
            }
            Fragment::Literal { data, mode } => {
                let Some(line) = prev else { return Err(format!("literal {i} is not preceded by a line")) };
                let want = (data.len() as u32, *mode == LiteralMode::NonSync);
                ensure!(spec::announcement(line) == Some(want), "literal {i} of {} bytes ({mode:?}) announced by {}", data.len(), esc(line));
                prev = None;
            }
        }
        if i + 1 < fragments.len() {
            let both_lines = matches!(f, Fragment::Line { .. }) && matches!(fragments[i + 1], Fragment::Line { .. });
            ensure!(!both_lines, "line {i} is directly followed by another line");
        }
    }
    ensure!(matches!(fragments.last(), Some(Fragment::Line { .. })), "the message does not end with a line");
    Ok(())
}
fn concat(fragments: &[Fragment]) -> Vec<u8> {
    let mut v = Vec::new();
    for f in fragments {
        match f {
            Fragment::Line { data } => v.extend_from_slice(data),
            Fragment::Literal { data, .. } => v.extend_from_slice(data),
        }
    }
    v
}
/// A command whose values are all valid is accepted by the command grammar.
pub fn valid_command(m: &Command) -> Result<(), String> {
    let bytes = CommandCodec::default().encode(m).dump();
    match CommandCodec::default().decode(&bytes) {
        Ok((rem, _)) if rem.is_empty() => Ok(()),
        other => Err(format!("{m:?} encodes to {} which decodes to {other:?}", esc(&bytes))),
    }
}
/// Contains a value that is documented as not validated (or a listed known finding).
pub fn has_unvalidated(m: &Response) -> bool {
    let d = format!("{m:?}");
    ["CodeOther", "Referral(", "QuotedUtf8"].iter().any(|x| d.contains(x))
}

/// Outcome of a decoder, made comparable across codecs.
#[derive(Clone, Debug, PartialEq)]
pub enum V<T> {
    Ok(usize, T),
    Incomplete,
    /// tag (commands), length, non-sync (commands)
    Lit(Option<Vec<u8>>, u32, Option<bool>),
    Failed,
}

/// One of the five message kinds.
pub trait Kind: 'static {
    const NAME: &'static str;
    const COMMAND: bool = false;
    const VARIANTS: usize;
    type M: Debug + PartialEq + Clone;
    fn generate(g: &mut G, variant: usize) -> Self::M;
    fn encode(m: &Self::M) -> Vec<Fragment>;
    fn dump(m: &Self::M) -> Vec<u8>;
    /// dump after consuming `n` fragments
    fn dump_after(m: &Self::M, n: usize) -> Vec<u8>;
    fn decode(b: &[u8]) -> V<Self::M>;
    fn decode_static(b: &[u8]) -> V<Self::M>;
}
macro_rules! kind {
    ($name:ident, $s:literal, $codec:ident, $m:ty, $n:expr, $cmd:expr, |$g:ident, $v:ident| $gen:expr, |$e:ident| $err:expr) => {
        pub struct $name;
        impl Kind for $name {
            const NAME: &'static str = $s;
            const COMMAND: bool = $cmd;
            const VARIANTS: usize = $n;
            type M = $m;
            fn generate($g: &mut G, $v: usize) -> $m {
                $gen
            }
            fn encode(m: &$m) -> Vec<Fragment> {
                $codec::default().encode(m).collect()
            }
            fn dump(m: &$m) -> Vec<u8> {
                $codec::default().encode(m).dump()
            }
            fn dump_after(m: &$m, n: usize) -> Vec<u8> {
                let mut e = $codec::default().encode(m);
                for _ in 0..n {
                    e.next();
                }
                e.dump()
            }
            fn decode(b: &[u8]) -> V<$m> {
                use imap_types::IntoStatic as _;
                match $codec::default().decode(b) {
                    Ok((rem, m)) => {
                        assert!(b.ends_with(rem), "the remainder is not a suffix of the input");
                        V::Ok(b.len() - rem.len(), m.into_static())
                    }
                    Err($e) => $err,
                }
            }
            fn decode_static(b: &[u8]) -> V<$m> {
                match $codec::default().decode_static(b) {
                    Ok((rem, m)) => V::Ok(b.len() - rem.len(), m),
                    Err($e) => $err,
                }
            }
        }
    };
}
kind!(KCommand, "command", CommandCodec, Command<'static>, genv::N_COMMANDS, true, |g, v| genv::command(g, v), |e| match e {
    CommandDecodeError::Incomplete => V::Incomplete,
    CommandDecodeError::Failed => V::Failed,
    CommandDecodeError::LiteralFound { tag, length, mode } => V::Lit(Some(tag.inner().as_bytes().to_vec()), length, Some(mode == LiteralMode::NonSync)),
});
kind!(KResponse, "response", ResponseCodec, Response<'static>, genv::N_RESPONSES, false, |g, v| genv::response(g, v), |e| match e {
    ResponseDecodeError::Incomplete => V::Incomplete,
    ResponseDecodeError::Failed => V::Failed,
    ResponseDecodeError::LiteralFound { length } => V::Lit(None, length, None),
});
kind!(KGreeting, "greeting", GreetingCodec, imap_types::response::Greeting<'static>, 1, false, |g, _v| genv::greeting(g), |e| match e {
    GreetingDecodeError::Incomplete => V::Incomplete,
    GreetingDecodeError::Failed => V::Failed,
});
kind!(KAuth, "authenticate-data", AuthenticateDataCodec, imap_types::auth::AuthenticateData<'static>, 1, true, |g, _v| genv::authenticate_data(g), |e| match e {
    AuthenticateDataDecodeError::Incomplete => V::Incomplete,
    AuthenticateDataDecodeError::Failed => V::Failed,
});
kind!(KIdle, "idle-done", IdleDoneCodec, IdleDone, 1, true, |_g, _v| IdleDone, |e| match e {
    IdleDoneDecodeError::Incomplete => V::Incomplete,
    IdleDoneDecodeError::Failed => V::Failed,
});

fn framing<K: Kind>(g: &mut G, v: usize) -> R {
    let m = K::generate(g, v);
    g.say(|| format!("{m:?}"));
    let fr = K::encode(&m);
    check_framing(&fr, K::COMMAND)?;
    Ok(hash(&concat(&fr)))
}
fn dumps<K: Kind>(g: &mut G, v: usize) -> R {
    let m = K::generate(g, v);
    g.say(|| format!("{m:?}"));
    let fr = K::encode(&m);
    let all = concat(&fr);
    ensure!(K::dump(&m) == all, "dump gives {}, the fragments give {}", esc(&K::dump(&m)), esc(&all));
    ensure!(K::encode(&m) == fr, "encoding twice gives different fragments");
    for n in 1..=fr.len() {
        ensure!(K::dump_after(&m, n) == concat(&fr[n..]), "dump after taking {n} fragments does not give the remaining bytes");
    }
    Ok(hash(&all))
}
fn round_trip<K: Kind>(g: &mut G, v: usize) -> R {
    let m = K::generate(g, v);
    g.say(|| format!("{m:?}"));
    let bytes = K::dump(&m);
    match K::decode(&bytes) {
        V::Ok(n, m2) => {
            ensure!(n == bytes.len(), "decoding {} leaves a remainder of {} bytes", esc(&bytes), bytes.len() - n);
            ensure!(m2 == m, "{m:?} is encoded as {} and decoded as {m2:?}", esc(&bytes));
        }
        other => return Err(format!("{m:?} is encoded as {} and decoding that gives {other:?}", esc(&bytes))),
    }
    Ok(hash(&bytes))
}
/// The same message in the other letter case is the same message but for the case of its contents.
pub fn letter_case<K: Kind>(g: &mut G, v: usize) -> R {
    let how = g.choose(9);
    let m = K::generate(g, v);
    g.say(|| format!("{m:?}"));
    let d = format!("{m:?}");
    // base64 is case-sensitive
    if d.contains("initial_response: Some") || d.contains("Base64(") {
        return Ok(None);
    }
    let bytes = K::dump(&m);
    let V::Ok(n, m1) = K::decode(&bytes) else { return Ok(None) };
    if n != bytes.len() {
        return Ok(None);
    }
    let one = if how == 5 { g.spread(bytes.len()) } else { 0 };
    // the number of letters so far, in all and in this word
    let (mut k, mut w) = (0usize, 0usize);
    let other: Vec<u8> = bytes
        .iter()
        .enumerate()
        .map(|(i, b)| {
            if !b.is_ascii_alphabetic() {
                w = 0;
                return *b;
            }
            k += 1;
            w += 1;
            let flip = match how {
                0 => b.is_ascii_uppercase(),
                1 => b.is_ascii_lowercase(),
                2 => k % 2 == 0,
                3 => k % 2 == 1,
                4 => (w == 1) == b.is_ascii_uppercase(), // tHIS
                5 => i == one,
                6 => (w == 1) != b.is_ascii_uppercase(), // This
                7 => (w % 2 == 1) == b.is_ascii_uppercase(), // tHiS
                _ => k.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 61 & 1 == 1,
            };
            if flip { b ^ 0x20 } else { *b }
        })
        .collect();
    match K::decode(&other) {
        V::Ok(n, m2) => {
            ensure!(n == other.len(), "decoding {} leaves a remainder of {} bytes", esc(&other), other.len() - n);
            let out = K::dump(&m2);
            ensure!(out.eq_ignore_ascii_case(&K::dump(&m1)), "{} decodes to {m2:?} ({}), but {} to {m1:?}", esc(&other), esc(&out), esc(&bytes));
            ensure!(format!("{m1:?}").eq_ignore_ascii_case(&format!("{m2:?}")), "{} decodes to {m2:?}, but {} to {m1:?}", esc(&other), esc(&bytes));
        }
        r => return Err(format!("{} is accepted, but {} gives {r:?}", esc(&bytes), esc(&other))),
    }
    Ok(hash(&other))
}
const TAILS: &[&[u8]] = &[b"\r\n", b"x", b"\n", b"* OK x\r\n", b"A1 NOOP\r\n", b")\r\n", b"{3}\r\n", b" ", b"\0\xff", b"\r"];

fn cut_points(n: usize) -> Vec<usize> {
    if n <= 160 {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..60).chain(n - 60..n).collect();
        v.extend((60..n - 60).step_by((n / 40).max(1)));
        v
    }
}
fn streaming<K: Kind>(g: &mut G, v: usize) -> R {
    let m = K::generate(g, v);
    g.say(|| format!("{m:?}"));
    let bytes = K::dump(&m);
    let whole = K::decode(&bytes);
    let V::Ok(end, _) = whole else { return Ok(None) };
    if end != bytes.len() {
        return Ok(None);
    }
    for k in cut_points(bytes.len()) {
        let r = K::decode(&bytes[..k]);
        ensure!(matches!(r, V::Incomplete | V::Lit(..)), "the first {k} bytes of {} already give {r:?}", esc(&bytes));
    }
    for t in TAILS {
        let mut b = bytes.clone();
        b.extend_from_slice(t);
        let r = K::decode(&b);
        ensure!(r == whole, "with {} appended, {} gives {r:?} instead of {whole:?}", esc(t), esc(&bytes));
    }
    Ok(hash(&bytes))
}
/// On arbitrary bytes: a verdict never changes when more bytes arrive.
fn monotone<K: Kind>(g: &mut G, v: usize) -> R {
    let bytes = hostile_bytes::<K>(g, v);
    g.say(|| esc(&bytes));
    let whole = K::decode(&bytes);
    let consumed = if let V::Ok(n, _) = &whole { *n } else { usize::MAX };
    for k in cut_points(bytes.len()) {
        match K::decode(&bytes[..k]) {
            V::Failed => ensure!(whole == V::Failed, "the first {k} bytes of {} are rejected but the whole gives {whole:?}", esc(&bytes)),
            V::Ok(n, m) => {
                let r = V::Ok(n, m);
                ensure!(r == whole, "the first {k} bytes of {} give {r:?} but the whole gives {whole:?}", esc(&bytes))
            }
            _ => ensure!(k < consumed, "the first {k} bytes of {} contain a whole message of {consumed} bytes but are incomplete", esc(&bytes)),
        }
    }
    Ok(hash(&bytes))
}

const SOUP: &[&[u8]] = &[
    b"(", b")", b"((((((((((((((((((((", b"[", b"]", b"{", b"}", b"{0}\r\n", b"{1}\r\n", b"{3}\r\nabc", b"{3+}\r\nabc", b"~{3}\r\nabc", b"~{2+}\r\nab", b"{4294967295}\r\n", b"{4294967296}\r\n", b"{18446744073709551616}\r\n", b"\"", b"\\", b"\"a\\\"b\"",
    b"\"\\x\"", b"*", b"%", b"+", b"-", b",", b":", b".", b"<", b">", b"=", b"/", b"<>", b"\r\n", b"\n", b"\r", b"\r\r\n", b" ", b"  ", b"0", b"1", b"00", b"4294967295", b"4294967296", b"99999999999999999999", b"9223372036854775807", b"9223372036854775808", b"18446744073709551615", b"18446744073709551616",
    b"NIL", b"nil", b"INBOX", b"inbox", b"\\Seen", b"\\*", b"\\", b"\\Recent", b"a", b"\0", b"\x80", b"\xff", b"\xc3\xa9", b"\x7f", b"\t", b"1:*", b"*:4", b"3:1", b"1,", b",1", b"BODY[", b"BODY.PEEK[]<0.0>", b"BODY[]<0>", b"BODYSTRUCTURE", b"ALL", b"FAST", b"FULL", b"UID", b"OR", b"NOT",
    b"CHARSET", b"BINARY[", b"RFC822", b"IMAP4REV1", b"AUTH=PLAIN", b"=", b"==", b"YWJj", b"YWI=", b"YQ==", b"Y", b"\"01-Jan-2020 00:00:00 +0000\"", b"\"99-Jan-2020 00:00:00 +0000\"", b"\" 1-Feb-0000 23:59:60 -9999\"", b"31-Feb-2020", b"01-Jan-2020", b"\"1-Jan-2020\"", b"MODSEQ", b"(MODSEQ 1)", b"[]",
    b"[HEADER.FIELDS (A)]", b"[1.2.MIME]", b"[ALERT]", b"[X", b"DONE", b"*\r\n", b"+ ", b"* ", b"A1 ", b"OK", b"NO", b"BAD", b"BYE", b"PREAUTH", b"EXISTS", b"FETCH", b"VANISHED (EARLIER)", b"\"\"", b"()", b"(NIL)",
];
/// Seeds spelled in ways the encoder does not produce.
const WIRE: &[&[u8]] = &[
    b"a login \"u\" {1}\r\np\r\n", b"a1 LoGiN u p\r\n", b"A SELECT InBoX\r\n", b"A FETCH 1:*,3 (FLAGS BODY[1.HEADER.FIELDS.NOT (a \"b\" {1}\r\nc)]<4.5> RFC822.SIZE)\r\n", b"A UID FETCH 3:1 FULL\r\n", b"A SEARCH CHARSET utf-8 OR (ALL SEEN) NOT (1:3 UID 4) BEFORE \"01-Jan-2020\"\r\n",
    b"A STORE 1 +FLAGS.SILENT \\Seen \\Deleted a\r\n", b"A STORE 1 FLAGS ()\r\n", b"A APPEND INBOX (\\Seen) \" 1-Jan-2020 00:00:00 +0000\" {3+}\r\nabc\r\n", b"A APPEND x ~{2}\r\n\0a\r\n", b"A LIST \"\" %\r\n", b"A LSUB \"\" \"*\"\r\n", b"A STATUS x (MESSAGES UNSEEN)\r\n", b"A AUTHENTICATE PLAIN =\r\n", b"A AUTHENTICATE PLAIN AGFsaWNlAHBhc3M=\r\n",
    b"A ENABLE UTF8=ACCEPT X\r\n", b"A GETQUOTA \"\"\r\n", b"A SETQUOTA \"\" (STORAGE 512)\r\n", b"A SORT (REVERSE DATE SUBJECT) UTF-8 ALL\r\n", b"A UID THREAD REFERENCES UTF-8 TEXT {0}\r\n\r\n", b"A UID EXPUNGE 1:3\r\n", b"A MOVE 1 x\r\n", b"A COMPRESS DEFLATE\r\n", b"A ID (\"a\" NIL)\r\n", b"A ID NIL\r\n", b"A ID ()\r\n",
    b"A GETMETADATA (DEPTH infinity MAXSIZE 3) x (/shared/a /private/b)\r\n", b"A SETMETADATA x (/shared/a {1}\r\nx /b ~{1}\r\n\0)\r\n", b"A SELECT x (CONDSTORE)\r\n", b"A SELECT x (QRESYNC (1 2 1:3 (1,2 3,4)))\r\n", b"A FETCH 1 FLAGS (CHANGEDSINCE 5 VANISHED)\r\n", b"A STORE 1 (UNCHANGEDSINCE 4) FLAGS (a)\r\n", b"A NAMESPACE\r\n",
    b"* OK [CAPABILITY IMAP4REV1 AUTH=PLAIN] hi\r\n", b"* OK [ALERT] \r\n", b"* OK \r\n", b"* OK\r\n", b"* OK [ALERT]\r\n", b"* NO [BADCHARSET (a \"b\" {1}\r\nc)] x\r\n", b"* PREAUTH x\r\n", b"* BYE [X y z] x\r\n", b"* OK [PERMANENTFLAGS (\\* a)] x\r\n", b"* OK [APPENDUID 1 2] x\r\n", b"* OK [COPYUID 1 2:3,4 5] x\r\n", b"+ \r\n", b"+\r\n", b"+ YWJj\r\n", b"+ idling\r\n", b"+ [ALERT] x\r\n", b"A1 OK done\r\n",
    b"* CAPABILITY IMAP4REV1 STARTTLS \r\n", b"* CAPABILITY IMAP4REV1\r\n", b"* LIST (\\Noselect \\x) \"\\\\\" INBOX\r\n", b"* LIST () NIL {3}\r\nabc\r\n", b"* LSUB () \"/\" \"a b\"\r\n", b"* STATUS x (MESSAGES 3 UIDNEXT 4 DELETED-STORAGE 5)\r\n", b"* STATUS x ()\r\n", b"* SEARCH \r\n", b"* SEARCH 1 2 (MODSEQ 3)\r\n", b"* SORT 1 2\r\n", b"* THREAD (1)(2 (3)(4 5))((1)(2))\r\n", b"* FLAGS (\\Seen a)\r\n", b"* 3 EXISTS\r\n", b"* 0 RECENT\r\n", b"* 3 EXPUNGE\r\n",
    b"* 1 FETCH (FLAGS (\\Seen \\Recent) UID 3 RFC822.SIZE 4 BODY[1.TEXT]<5> {3}\r\nabc RFC822 NIL)\r\n", b"* 1 FETCH (ENVELOPE (\"d\" NIL ((NIL NIL \"a\" \"b\")) NIL NIL NIL NIL NIL NIL \"m\"))\r\n", b"* 1 FETCH (BODYSTRUCTURE (\"text\" \"plain\" (\"charset\" \"utf-8\") NIL NIL \"7BIT\" 5 1 NIL (\"inline\" (\"a\" \"b\")) (\"en\" \"de\") \"loc\" 1 (2 \"x\")))\r\n", b"* 1 FETCH (BODY ((\"image\" \"png\" NIL NIL NIL \"base64\" 5)(\"text\" \"html\" NIL NIL NIL \"7bit\" 5 1) \"mixed\"))\r\n",
    b"* 1 FETCH (BODY (\"message\" \"rfc822\" NIL NIL NIL \"7bit\" 5 (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL) (\"text\" \"plain\" NIL NIL NIL \"7bit\" 1 1) 7))\r\n", b"* 1 FETCH (INTERNALDATE \"01-Jan-2020 00:00:00 +0000\")\r\n", b"* 1 FETCH (BINARY[1.2] ~{2}\r\n\0a BINARY.SIZE[1] 4)\r\n", b"* 1 FETCH (MODSEQ (4))\r\n", b"* 1 FETCH (BODY[]{3}\r\nabc)\r\n", b"* ENABLED A B\r\n", b"* QUOTA \"\" (STORAGE 1 2)\r\n", b"* QUOTAROOT x \"\" y\r\n", b"* VANISHED (EARLIER) 1:3\r\n", b"* ID (\"a\" \"b\")\r\n", b"* METADATA x (/a NIL)\r\n", b"* METADATA x /a /b\r\n",
    b"* NAMESPACE ((\"\" \"/\")) NIL ((\"#x\" NIL \"k\" (\"v\")))\r\n", b"DONE\r\n", b"done\r\n", b"*\r\n", b"YWJj\r\n", b"\r\n",
];
/// Bytes near the grammar: an encoded message or a hand-written one, then edited.
fn hostile_bytes<K: Kind>(g: &mut G, v: usize) -> Vec<u8> {
    let mut b = match g.choose(4) {
        0 => K::dump(&K::generate(g, v)),
        1 => g.pick(WIRE).to_vec(),
        2 => {
            let mut b = g.pick(&[&b"* "[..], b"A1 ", b"+ ", b"* 1 FETCH (", b"A1 FETCH 1 (", b"A1 SEARCH ", b"* OK [", b"* LIST (", b"", b"* 1 FETCH (BODY ("]).to_vec();
            for _ in 0..1 + g.choose(8) {
                b.extend_from_slice(g.pick(SOUP));
            }
            b.extend_from_slice(b"\r\n");
            b
        }
        _ => {
            let n = g.choose(24);
            (0..n).map(|_| g.choose(256) as u8).collect()
        }
    };
    for _ in 0..g.choose(4) {
        if b.is_empty() {
            break;
        }
        let at = g.spread(b.len());
        match g.choose(11) {
            // the group opening at or behind this position becomes another one
            9 | 10 => {
                if let Some(open) = (at..b.len()).find(|i| matches!(b[*i], b'(' | b'[')) {
                    let (mut depth, mut end) = (0, open);
                    for (i, c) in b.iter().enumerate().skip(open) {
                        depth += matches!(c, b'(' | b'[') as i32 - matches!(c, b')' | b']') as i32;
                        end = i + 1;
                        if depth == 0 {
                            break;
                        }
                    }
                    let s: &[u8] = if b[open] == b'(' { g.pick(&[&b"()"[..], b"NIL", b"", b"(())", b"(NIL)", b"( )", b"(a)", b"(1)", b"\"a\""]) } else { g.pick(&[&b"[]"[..], b"", b"[1]", b"[0]", b"[TEXT]", b"[1.MIME]", b"[MIME]", b"[a]", b"[HEADER.FIELDS ()]", b"[ ]"]) };
                    b.splice(open..end, s.iter().copied());
                }
            }
            0 => b[at] = g.pick(b"()[]{}\" \r\n\\*%+-0123456789:,.\0\x80\xffaAzZ<>=~/"),
            1 => {
                let s = g.pick(SOUP);
                b.splice(at..at, s.iter().copied());
            }
            2 => {
                b.remove(at);
            }
            3 => b.truncate(at),
            4 => {
                let to = (at + 1 + g.choose(12)).min(b.len());
                let x = b[at..to].to_vec();
                b.splice(at..at, x);
            }
            5 => {
                let s = g.pick(SOUP);
                let to = (at + s.len()).min(b.len());
                b.splice(at..to, s.iter().copied());
            }
            6 => b[at] ^= 0x20,
            7 => b[at] = g.choose(256) as u8,
            _ => {
                // replace the word at this position
                let end = at + b[at..].iter().position(|c| matches!(c, b' ' | b')' | b'\r')).unwrap_or(b.len() - at);
                let s = g.pick(SOUP);
                b.splice(at..end, s.iter().copied());
            }
        }
    }
    b
}
fn total<K: Kind>(g: &mut G, v: usize) -> R {
    let b = hostile_bytes::<K>(g, v);
    g.say(|| esc(&b));
    let a = K::decode(&b);
    ensure!(a == K::decode_static(&b), "decode and decode_static disagree on {}", esc(&b));
    if let V::Ok(n, _) = a {
        ensure!(n > 0, "a message of no bytes was decoded from {}", esc(&b));
    }
    Ok(hash(&b))
}
fn all_kinds(b: &[u8]) {
    KCommand::decode(b);
    KResponse::decode(b);
    KGreeting::decode(b);
    KAuth::decode(b);
    KIdle::decode(b);
}
fn decoded_values<K: Kind>(g: &mut G, v: usize) -> R {
    let b = hostile_bytes::<K>(g, v);
    g.say(|| esc(&b));
    let V::Ok(n, m) = K::decode(&b) else { return Ok(None) };
    let fr = K::encode(&m);
    check_framing(&fr, K::COMMAND).map_err(|e| format!("{} decodes to {m:?}, whose encoding is not well framed: {e}", esc(&b[..n])))?;
    let out = concat(&fr);
    match K::decode(&out) {
        V::Ok(k, m2) => {
            ensure!(k == out.len(), "{} decodes to {m:?}, encodes to {} and decodes with a remainder", esc(&b[..n]), esc(&out));
            // with the always-normalize quirk, the encoder rewrites sequence sets to their normal form
            let same = if cfg!(feature = "quirks") { K::dump(&m2) == out } else { true } && (m2 == m || cfg!(feature = "quirks") && normalizes(&m));
            ensure!(same, "{} decodes to {m:?}, encodes to {} and decodes to {m2:?}", esc(&b[..n]), esc(&out));
        }
        other => return Err(format!("{} decodes to {m:?}, encodes to {} and decodes to {other:?}", esc(&b[..n]), esc(&out))),
    }
    Ok(hash(&b))
}
/// Does the message contain a sequence set (rewritten by the always-normalize quirk) or, with
/// the empty-ID quirk, an ID parameter list?
fn normalizes(m: &impl Debug) -> bool {
    let d = format!("{m:?}");
    d.contains("SequenceSet(") || (cfg!(feature = "quirks_all") && d.contains("Id {"))
}

/// If a literal is reported, the input ends right after its announcement; and it is reported at
/// every such point.
fn literal_boundaries<K: Kind>(g: &mut G, v: usize) -> R {
    let m = K::generate(g, v);
    g.say(|| format!("{m:?}"));
    let fr = K::encode(&m);
    if fr.len() == 1 {
        return Ok(None);
    }
    let bytes = concat(&fr);
    if !matches!(K::decode(&bytes), V::Ok(n, _) if n == bytes.len()) {
        return Ok(None);
    }
    let tag = K::COMMAND.then(|| bytes[..bytes.iter().position(|b| *b == b' ').unwrap()].to_vec());
    let mut at = std::collections::HashMap::new();
    let mut pos = 0;
    for f in &fr {
        match f {
            Fragment::Line { data } => pos += data.len(),
            Fragment::Literal { data, mode } => {
                at.insert(pos, (data.len() as u32, *mode == LiteralMode::NonSync));
                pos += data.len();
            }
        }
    }
    let mut cuts = cut_points(bytes.len());
    cuts.extend(at.keys());
    for k in cuts {
        let want = match at.get(&k) {
            Some((n, ns)) => V::Lit(tag.clone(), *n, K::COMMAND.then_some(*ns)),
            None => V::Incomplete,
        };
        let got = K::decode(&bytes[..k]);
        ensure!(got == want, "after {k} bytes of {}: {got:?}, expected {want:?}", esc(&bytes));
    }
    Ok(hash(&bytes))
}
fn literal_reports<K: Kind>(g: &mut G, v: usize) -> R {
    let mut b = hostile_bytes::<K>(g, v);
    // cut after an announcement, if there is one
    let ends: Vec<usize> = b.windows(3).enumerate().filter(|(_, w)| *w == b"}\r\n").map(|(i, _)| i + 3).collect();
    if ends.is_empty() {
        return Ok(None);
    }
    b.truncate(ends[g.choose(ends.len())]);
    g.say(|| esc(&b));
    let V::Lit(tag, n, mode) = K::decode(&b) else { return Ok(None) };
    let line_start = b[..b.len() - 1].iter().rposition(|c| *c == b'\n').map(|p| p + 1).unwrap_or(0);
    let ann = spec::announcement(&b[line_start..]);
    ensure!(ann.map(|a| a.0) == Some(n), "a literal of {n} bytes was reported for {}", esc(&b));
    // where a literal is awaited, one of any other length is reported just the same
    let open = b.iter().rposition(|c| *c == b'{').unwrap();
    for m in [0, 1, 9, 10, 1000, 4095, 4096, 4097, 65_535, 65_536, 1 << 24, i32::MAX as u32, 1 << 31, u32::MAX] {
        for plus in ["", "+"] {
            let mut b2 = b[..open].to_vec();
            b2.extend_from_slice(format!("{{{m}{plus}}}\r\n").as_bytes());
            if spec::announcement(&b2[line_start..]).is_none() {
                continue;
            }
            match K::decode(&b2) {
                V::Lit(t2, m2, mode2) => {
                    ensure!(t2 == tag && m2 == m && mode2 == K::COMMAND.then_some(plus == "+"), "{t2:?} {m2} non-sync={mode2:?} was reported for {}", esc(&b2));
                }
                r => ensure!(false, "{} announces a literal of {m} bytes as {} does, but gives {r:?}", esc(&b2), esc(&b)),
            }
        }
    }
    if let Some(mode) = mode {
        ensure!(ann == Some((n, mode)), "literal mode non-sync={mode} was reported for {}", esc(&b));
    }
    if let Some(tag) = tag {
        ensure!(b.starts_with(&tag) && b.get(tag.len()) == Some(&b' ') && spec::tag(&tag), "tag {} was reported for {}", esc(&tag), esc(&b));
    }
    Ok(hash(&b))
}
fn first_message_end(b: &[u8]) -> Option<usize> {
    let mut fz = Fragmentizer::without_max_message_size();
    fz.enqueue_bytes(b);
    while fz.progress().is_some() {
        if fz.is_message_complete() {
            return Some(fz.message_bytes().len());
        }
    }
    None
}
fn agreement(b: &[u8]) -> R {
    let end = first_message_end(b);
    let got = KCommand::decode(b);
    match &got {
        V::Ok(n, _) => {
            ensure!(end == Some(*n), "the codec takes {n} bytes as one command but the fragmentizer {end:?} of {}", esc(b));
            let mut fz = Fragmentizer::without_max_message_size();
            fz.enqueue_bytes(b);
            while !fz.is_message_complete() {
                ensure!(fz.progress().is_some(), "no progress on {}", esc(b));
            }
            match (fz.decode_message(&CommandCodec::default()), KCommand::decode(b)) {
                (Ok(m), V::Ok(_, m2)) => ensure!(m == m2, "{m:?} from the fragmentizer, {m2:?} from the codec"),
                (e, _) => return Err(format!("decoding the fragmented message gives {e:?} for {}", esc(b))),
            }
        }
        V::Incomplete | V::Lit(..) => {
            ensure!(end.is_none(), "the codec wants more bytes but the fragmentizer sees a message of {end:?} bytes in {}", esc(b))
        }
        V::Failed => return Ok(None),
    }
    Ok(hash(&b))
}

fn each<K: Kind>(v: &mut Vec<Group>, prefix: &str, depth: usize, cap: u64, random: u64, f: fn(&mut G, usize) -> R) {
    for k in 0..K::VARIANTS {
        let name = if K::VARIANTS == 1 { format!("{prefix}{}", K::NAME) } else { format!("{prefix}{}/{k}", K::NAME) };
        v.push(Group::new(name, Mode::Dev { depth, cap }, random, move |g| f(g, k)));
    }
}
macro_rules! every_kind {
    ($v:expr, $prefix:expr, $depth:expr, $cap:expr, $random:expr, $f:ident) => {
        each::<KCommand>($v, $prefix, $depth, $cap, $random, $f::<KCommand>);
        each::<KResponse>($v, $prefix, $depth, $cap, $random, $f::<KResponse>);
        each::<KGreeting>($v, $prefix, $depth, $cap, $random, $f::<KGreeting>);
        each::<KAuth>($v, $prefix, $depth, $cap, $random, $f::<KAuth>);
        each::<KIdle>($v, $prefix, $depth, $cap, $random, $f::<KIdle>);
    };
}

pub fn groups(prop: &str, v: &mut Vec<Group>) {
    match prop {
        "C09" => {
            each::<KCommand>(v, "wire-", 2, 4_000, 2_000, letter_case::<KCommand>);
            each::<KResponse>(v, "wire-", 2, 4_000, 2_000, letter_case::<KResponse>);
            each::<KGreeting>(v, "wire-", 2, 4_000, 2_000, letter_case::<KGreeting>);
            each::<KIdle>(v, "wire-", 2, 4, 4, letter_case::<KIdle>);
        }
        "C18" => {
            every_kind!(v, "", 3, 20_000, 8_000, framing);
        }
        "C19" => {
            every_kind!(v, "", 2, 10_000, 5_000, dumps);
        }
        "C20" => {
            every_kind!(v, "", 3, 20_000, 8_000, round_trip);
        }
        "C21" => {
            every_kind!(v, "", 2, 2_000, 500, streaming);
            every_kind!(v, "arbitrary-", 2, 1_000, 1_000, monotone);
        }
        "C22" => {
            every_kind!(v, "", 3, 10_000, 15_000, total);
            v.push(Group::new("wire", Mode::Dev { depth: 3, cap: 60_000 }, 60_000, |g| {
                let mut b = g.pick(WIRE).to_vec();
                for _ in 0..g.choose(3) {
                    let at = g.spread(b.len());
                    let s = g.pick(SOUP);
                    let to = if g.flag() { (at + s.len()).min(b.len()) } else { at };
                    b.splice(at..to, s.iter().copied());
                }
                g.say(|| esc(&b));
                all_kinds(&b);
                Ok(hash(&b))
            }));
            v.push(Group::new("deep-nesting", Mode::Full { cap: 4_000 }, 0, |g| {
                let head = g.pick(&[&b"A1 SEARCH "[..], b"* THREAD ", b"* 1 FETCH (BODY ", b"* 1 FETCH (BODYSTRUCTURE ", b"* 1 FETCH (BODYSTRUCTURE (\"text\" \"plain\" NIL NIL NIL \"7bit\" 1 1 NIL NIL NIL NIL ", b"A1 SEARCH NOT ", b"* 1 FETCH (ENVELOPE ", b"* NAMESPACE ", b"A1 FETCH 1 ", b"A1 SELECT x ", b"* OK [", b"A1 SORT "]);
                let unit = g.pick(&[&b"("[..], b"NOT ", b"OR ", b"(1 ", b"((1)", b"(\"message\" \"rfc822\" NIL NIL NIL \"7bit\" 5 (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL) ", b"[", b"(2 (3)", b"(OR ", b"(ALL ", b"NOT ("]);
                let n = g.pick(&[1usize, 2, 7, 8, 9, 10, 11, 20, 40, 300, 5_000, 100_000]);
                let closed = g.flag();
                let mut b = head.to_vec();
                for _ in 0..n {
                    b.extend_from_slice(unit);
                }
                if closed {
                    b.extend_from_slice(b"1");
                    for _ in 0..n {
                        b.extend_from_slice(b")");
                    }
                }
                b.extend_from_slice(b"\r\n");
                g.say(|| format!("{} then {n} times {} (closed: {closed})", esc(head), esc(unit)));
                all_kinds(&b);
                Ok(hash(&b))
            }));
            v.push(Group::new("all-short", Mode::Full { cap: 70_000 }, 0, |g| {
                let n = g.choose(3);
                let b: Vec<u8> = (0..n).map(|_| g.choose(256) as u8).collect();
                g.say(|| esc(&b));
                all_kinds(&b);
                Ok(hash(&b))
            }));
        }
        "C23" => {
            every_kind!(v, "", 3, 10_000, 15_000, decoded_values);
        }
        "C24" => {
            each::<KCommand>(v, "", 2, 4_000, 2_000, literal_boundaries::<KCommand>);
            each::<KResponse>(v, "", 2, 4_000, 2_000, literal_boundaries::<KResponse>);
            each::<KCommand>(v, "arbitrary-", 3, 6_000, 6_000, literal_reports::<KCommand>);
            each::<KResponse>(v, "arbitrary-", 3, 6_000, 6_000, literal_reports::<KResponse>);
        }
        "C25" => {
            each::<KCommand>(v, "", 2, 6_000, 3_000, |g, k| {
                let m = KCommand::generate(g, k);
                let mut b = KCommand::dump(&m);
                b.extend_from_slice(g.pick(&[&b""[..], b"A2 NOOP\r\n", b"{3}\r\n", b"\n"]));
                g.say(|| esc(&b));
                agreement(&b)
            });
            each::<KCommand>(v, "arbitrary-", 3, 10_000, 10_000, |g, k| {
                let b = hostile_bytes::<KCommand>(g, k);
                g.say(|| esc(&b));
                agreement(&b)
            });
            // what comes close to the announcement of a literal, where one is
            each::<KCommand>(v, "headers-", 2, 3_000, 1_500, |g, k| {
                let m = KCommand::generate(g, k);
                let fr = KCommand::encode(&m);
                let literals = fr.len() / 2;
                if literals == 0 {
                    return Ok(None);
                }
                let which = g.choose(literals) * 2;
                let Fragment::Line { data } = &fr[which] else { return Ok(None) };
                let Some((n, _)) = spec::announcement(data) else { return Ok(None) };
                let open = data.iter().rposition(|c| *c == b'{').unwrap();
                let mut b = concat(&fr[..which]);
                b.extend_from_slice(&data[..open]);
                let ann = g.pick(&[
                    "{N-}\r\n", "{N+}\r\n", "{N}\n", "{N+}\n", "{N} \r\n", "{ N}\r\n", "{N }\r\n", "{+N}\r\n", "{-N}\r\n", "{0N}\r\n", "{00N+}\r\n", "{N++}\r\n", "{N+-}\r\n", "{N +}\r\n", "{N.}\r\n", "{N,}\r\n", "{N*}\r\n", "{N!}\r\n", "{N=}\r\n", "{Nx}\r\n", "{0xN}\r\n", "{N\r\n", "N}\r\n",
                    "{{N}\r\n", "{N}}\r\n", "{N}\r\r\n", "{N}\r", "{N}\r\n\r\n", "(N)\r\n", "[N]\r\n", "~{N}\r\n", "~{N+}\r\n", "~~{N}\r\n", "{}\r\n", "{+}\r\n", "{N}{N}\r\n", "{4294967296N}\r\n", "{N}\0\r\n", "{\"N\"}\r\n", "{N\t}\r\n", "{N\\}\r\n", "\"{N}\r\n", "\\{N}\r\n",
                ]);
                b.extend_from_slice(ann.replace('N', &n.to_string()).as_bytes());
                b.extend_from_slice(&concat(&fr[which + 1..]));
                b.extend_from_slice(g.pick(&[&b""[..], b"A2 NOOP\r\n"]));
                g.say(|| esc(&b));
                agreement(&b)
            });
            each::<KCommand>(v, "prefix-", 2, 3_000, 1_000, |g, k| {
                let m = KCommand::generate(g, k);
                let b = KCommand::dump(&m);
                let k = g.spread(b.len());
                g.say(|| esc(&b[..k]));
                agreement(&b[..k])
            });
        }
        _ => {}
    }
}
