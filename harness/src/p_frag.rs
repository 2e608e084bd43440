//! Fragmentizer: C01 fragmentation, C02 announcements, C03 size limit, C04 poison/skip/decode.
use imap_codec::{
    CommandCodec, GreetingCodec, ResponseCodec,
    decode::Decoder,
    fragmentizer::{DecodeMessageError, FragmentInfo, Fragmentizer, LineEnding},
};
use imap_types::{core::LiteralMode, secret::Secret};

use crate::{
    Group, Mode, R, ensure, hash,
    spec::{self, Announce, Ev},
    tape::G,
};

const TOKENS: &[&[u8]] = &[
    b"A1 NOOP", b"{5}", b"{5+}", b"\r\n", b"\n", b"\r", b"{", b"}", b"+", b"0", b"9", b"hello", b" ", b"{0}", b"{0+}", b"{1}\r\n", b"{2+}\n", b"{4294967295}", b"{4294967296}",
    b"{4294967295+}", b"{4294967296+}", b"{10}", b"{00000000000000000003}", b"~{3}", b"{ 5}", b"{5 }", b"{+5}", b"{-5}", b"{5++}", b"{}", b"{+}", b"\"", b"\\", b"\0", b"\x80\xff", b"{12345}", b"x", b"{3}\r\r\n",
];

fn chunks(g: &mut G, len: usize) -> Vec<usize> {
    // sizes of successive chunks
    match g.choose(5) {
        0 => vec![len],
        1 => vec![1; len],
        2 => {
            let k = g.choose(len + 1);
            vec![k, len - k]
        }
        3 => {
            let k = 2 + g.choose(6);
            let mut v = vec![k; len / k];
            v.push(len % k);
            v
        }
        _ => {
            let mut v = Vec::new();
            let mut rest = len;
            while rest > 0 && v.len() < 8 {
                let k = g.choose(rest + 1).min(rest);
                v.push(k);
                rest -= k;
            }
            v.push(rest);
            v
        }
    }
}

fn stream(g: &mut G, max: usize) -> Vec<u8> {
    let n = 1 + g.choose(max);
    let mut v = Vec::new();
    for _ in 0..n {
        v.extend_from_slice(&g.pick(TOKENS));
    }
    v
}

fn ann_of(f: &FragmentInfo) -> Announce {
    match f {
        FragmentInfo::Line { announcement: Some(a), .. } => Some((a.length, a.mode == LiteralMode::NonSync)),
        _ => None,
    }
}

/// Feed `stream` in `sizes` chunks, polling until exhausted after each, and compare with the specification.
fn check_stream(stream: &[u8], sizes: &[usize], limit: Option<u32>) -> R {
    let mut fz = match limit {
        Some(l) => Fragmentizer::new(l),
        None => Fragmentizer::without_max_message_size(),
    };
    let expected = spec::fragment_events(stream);
    let mut events = Vec::new();
    let mut msg_start = 0usize;
    let mut fed = 0usize;
    let max = limit.map(|l| l as usize).unwrap_or(usize::MAX);
    for size in sizes {
        fz.enqueue_bytes(&stream[fed..fed + size]);
        fed += size;
        let mut polls = 0;
        while let Some(f) = fz.progress() {
            polls += 1;
            ensure!(polls <= 3 * stream.len() + 8, "more fragments than bytes allow");
            let r = f.range();
            let (s, e) = (msg_start + r.start, msg_start + r.end);
            ensure!(s <= e && e <= stream.len(), "fragment range {s}..{e} outside of the stream");
            match f {
                FragmentInfo::Line { ending, .. } => events.push(Ev::Line { start: s, end: e, ann: ann_of(&f), crlf: ending == LineEnding::CrLf }),
                FragmentInfo::Literal { .. } => events.push(Ev::Literal { start: s, end: e }),
            }
            let kept = |a: usize, b: usize| &stream[msg_start + a.min(max)..msg_start + b.min(max)];
            ensure!(fz.fragment_bytes(f) == kept(r.start, r.end), "fragment bytes differ from the received bytes {s}..{e}");
            ensure!(fz.message_bytes() == kept(0, r.end), "message bytes differ from the received bytes");
            ensure!(fz.is_max_message_size_exceeded() == (r.end > max), "size-exceeded flag {} but {} bytes of at most {}", fz.is_max_message_size_exceeded(), r.end, max);
            if fz.is_message_complete() {
                events.push(Ev::MessageEnd { at: e });
                msg_start = e;
            }
        }
        ensure!(fz.message_bytes().len() <= max, "message buffer larger than the limit");
        // everything enqueued was looked at, so the current message is stream[msg_start..fed]
        ensure!(fz.message_bytes() == &stream[msg_start..fed.min(msg_start.saturating_add(max))], "partial message bytes differ from the received bytes");
        ensure!(fz.is_max_message_size_exceeded() == (fed - msg_start > max), "size-exceeded flag wrong for a partial message");
    }
    ensure!(events == expected, "fragments {events:?} but expected {expected:?}");
    Ok(if expected.is_empty() { None } else { hash(&(stream, sizes, limit)) })
}

/// Everything is queued before the first poll.
fn check_bulk(stream: &[u8], sizes: &[usize]) -> R {
    let mut fz = Fragmentizer::without_max_message_size();
    let expected = spec::fragment_events(stream);
    let mut fed = 0;
    for k in sizes {
        fz.enqueue_bytes(&stream[fed..fed + k]);
        fed += k;
    }
    let (mut events, mut start) = (Vec::new(), 0);
    while let Some(f) = fz.progress() {
        let r = f.range();
        let (s, e) = (start + r.start, start + r.end);
        ensure!(s <= e && e <= fed && events.len() <= 2 * fed, "fragment range {s}..{e} outside of the stream");
        match f {
            FragmentInfo::Line { ending, .. } => events.push(Ev::Line { start: s, end: e, ann: ann_of(&f), crlf: ending == LineEnding::CrLf }),
            FragmentInfo::Literal { .. } => events.push(Ev::Literal { start: s, end: e }),
        }
        ensure!(fz.fragment_bytes(f) == &stream[s..e], "fragment bytes differ from the received bytes {s}..{e}");
        ensure!(fz.message_bytes() == &stream[start..e], "message bytes differ from the received bytes");
        if fz.is_message_complete() {
            events.push(Ev::MessageEnd { at: e });
            start = e;
        }
    }
    ensure!(fz.message_bytes() == &stream[start..], "partial message bytes differ from the received bytes");
    ensure!(events == expected, "fragments {events:?} but expected {expected:?}");
    Ok(if expected.is_empty() { None } else { hash(&(stream, sizes)) })
}

/// Step model for arbitrary operation histories.
struct Model {
    pending: std::collections::VecDeque<u8>,
    msg: Vec<u8>,
    frag_start: usize,
    literal: Option<u32>,
    complete: bool,
    poisoned: bool,
    max: usize,
}
impl Model {
    fn reset(&mut self) {
        self.msg.clear();
        self.frag_start = 0;
        self.literal = None;
        self.complete = false;
        self.poisoned = false;
    }
    /// (start, end, announcement, crlf, is literal)
    fn progress(&mut self) -> Option<(usize, usize, Announce, bool, bool)> {
        if self.complete {
            self.reset();
        }
        if let Some(n) = self.literal {
            let have = self.msg.len() - self.frag_start;
            let want = (n as usize - have).min(self.pending.len());
            self.msg.extend(self.pending.drain(..want));
            if self.msg.len() - self.frag_start == n as usize {
                let s = self.frag_start;
                self.frag_start = self.msg.len();
                self.literal = None;
                return Some((s, self.msg.len(), None, false, true));
            }
            return None;
        }
        while let Some(b) = self.pending.pop_front() {
            self.msg.push(b);
            if b == b'\n' {
                let line = &self.msg[self.frag_start..];
                let ann = spec::announcement(line);
                let crlf = line.ends_with(b"\r\n");
                let s = self.frag_start;
                self.frag_start = self.msg.len();
                match ann {
                    None => self.complete = true,
                    Some((n, _)) => self.literal = Some(n),
                }
                return Some((s, self.msg.len(), ann, crlf, false));
            }
        }
        None
    }
    fn kept(&self) -> &[u8] {
        &self.msg[..self.msg.len().min(self.max)]
    }
}

fn check_decode<C: Decoder + std::fmt::Debug>(fz: &Fragmentizer, m: &Model, codec: &C) -> Result<(), String>
where
    for<'a> C::Message<'a>: PartialEq + std::fmt::Debug,
    for<'a> C::Error<'a>: PartialEq + std::fmt::Debug,
{
    let got = fz.decode_message(codec);
    let kept = m.kept();
    let ok = if m.msg.len() > m.max {
        matches!(&got, Err(DecodeMessageError::MessageTooLong { initial }) if initial == &Secret::new(kept))
    } else if m.poisoned {
        matches!(&got, Err(DecodeMessageError::MessagePoisoned { discarded }) if discarded == &Secret::new(kept))
    } else {
        match (codec.decode(kept), &got) {
            (Ok((rem, x)), Ok(y)) => rem.is_empty() && &x == y,
            (Ok((rem, x)), Err(DecodeMessageError::DecodingRemainder { message, remainder })) => !rem.is_empty() && &x == message && remainder == &Secret::new(rem),
            (Err(e), Err(DecodeMessageError::DecodingFailure(f))) => &e == f,
            _ => false,
        }
    };
    if ok { Ok(()) } else { Err(format!("decoding the current message gave {got:?} (exceeded={}, poisoned={})", m.msg.len() > m.max, m.poisoned)) }
}

fn check_history(g: &mut G) -> R {
    let limit = [None, Some(0u32), Some(1), Some(4), Some(9), Some(12), Some(30), Some(u32::MAX)][g.choose(8)];
    let mut fz = match limit {
        Some(l) => Fragmentizer::new(l),
        None => Fragmentizer::without_max_message_size(),
    };
    let mut m = Model { pending: Default::default(), msg: vec![], frag_start: 0, literal: None, complete: false, poisoned: false, max: limit.map(|x| x as usize).unwrap_or(usize::MAX) };
    const CHUNKS: &[&[u8]] = &[
        b"A1 NOOP\r\n", b"A1 LOGIN {5}\r\n", b"hello", b" ", b"A2 LOGIN a b\n", b"x {3+}\n", b"A3 LOGIN {99}\r\nA4 NOOP\r\n", b"", b"\r", b"\n", b"{0}\r\n", b"* OK hi\r\n", b"* OK hi {2}\r\n", b"A1 NOOP\r\nA2 LOGOUT\r\n", b"A5 LOGIN a {1}\r\nb\r\n", b"x",
    ];
    let n = 1 + g.choose(12);
    let mut log = Vec::new();
    let mut fragments = 0;
    for i in 0..n {
        // the plain history alternates between enqueue and progress
        let plain = if i % 2 == 0 { 0 } else { 1 };
        let op = match g.choose(7) {
            0 => plain,
            k => k - 1,
        };
        match op {
            0 => {
                let c = g.pick(CHUNKS);
                log.push(format!("enqueue {}", c.escape_ascii()));
                fz.enqueue_bytes(c);
                m.pending.extend(c);
            }
            1 => {
                log.push("progress".into());
                let got = fz.progress();
                let want = m.progress();
                let got_t = got.map(|f| match f {
                    FragmentInfo::Line { start, end, ending, .. } => (start, end, ann_of(&f), ending == LineEnding::CrLf, false),
                    FragmentInfo::Literal { start, end } => (start, end, None, false, true),
                });
                if got_t != want {
                    g.say(|| log.join(", "));
                    return Err(format!("progress returned {got:?}, expected {want:?}"));
                }
                if let Some(f) = got {
                    fragments += 1;
                    let r = f.range();
                    let k = m.kept();
                    ensure!(fz.fragment_bytes(f) == &k[r.start.min(k.len())..r.end.min(k.len())], "fragment bytes wrong in {log:?}");
                }
            }
            2 => {
                log.push("poison".into());
                fz.poison_message();
                m.poisoned = true;
            }
            3 => {
                log.push("skip".into());
                fz.skip_message();
                m.reset();
            }
            4 => {
                log.push("progress until none".into());
                for _ in 0..64 {
                    let a = fz.progress().is_some();
                    let b = m.progress().is_some();
                    ensure!(a == b, "progress out of step in {log:?}");
                    fragments += a as usize;
                    if !a {
                        break;
                    }
                }
            }
            _ => {
                log.push("clone".into());
                fz = fz.clone();
            }
        }
        let ok = fz.is_message_complete() == m.complete && fz.message_bytes() == m.kept() && fz.is_max_message_size_exceeded() == (m.msg.len() > m.max) && fz.is_message_poisoned() == m.poisoned;
        if !ok {
            g.say(|| log.join(", "));
            return Err(format!(
                "state after {log:?} (limit {limit:?}): complete={} exceeded={} poisoned={} bytes={:?}; expected complete={} exceeded={} poisoned={} bytes={:?}",
                fz.is_message_complete(),
                fz.is_max_message_size_exceeded(),
                fz.is_message_poisoned(),
                fz.message_bytes().escape_ascii().to_string(),
                m.complete,
                m.msg.len() > m.max,
                m.poisoned,
                m.kept().escape_ascii().to_string()
            ));
        }
        check_decode(&fz, &m, &CommandCodec::default()).map_err(|e| format!("{e} after {log:?}"))?;
        check_decode(&fz, &m, &ResponseCodec::default()).map_err(|e| format!("{e} after {log:?}"))?;
        check_decode(&fz, &m, &GreetingCodec::default()).map_err(|e| format!("{e} after {log:?}"))?;
        // best-effort tag: the bytes before the first space of the first line, if they are a tag
        let k = m.kept();
        let want = k.iter().position(|b| *b == b' ').filter(|p| !k[..*p].contains(&b'\n')).map(|p| &k[..p]).filter(|t| spec::tag(t));
        let got = fz.decode_tag();
        ensure!(got.as_ref().map(|t| t.inner().as_bytes()) == want, "decoded tag {got:?}, expected {want:?} after {log:?}");
    }
    g.say(|| format!("limit {limit:?}: {}", log.join(", ")));
    Ok(if fragments == 0 { None } else { hash(&(log, limit)) })
}

pub fn groups(prop: &str, v: &mut Vec<Group>) {
    match prop {
        "C01" => {
            v.push(Group::new("tokens", Mode::Dev { depth: 3, cap: 400_000 }, 200_000, |g| {
                let s = stream(g, 7);
                let c = chunks(g, s.len());
                g.say(|| format!("stream {} chunks {c:?}", s.escape_ascii()));
                check_stream(&s, &c, None)
            }));
            // all chunkings of short streams
            for (k, s) in [&b"a {1}\r\nx y\n"[..], b"{2+}\nab\r\nc\n", b"{1{0}\n\n{3}\r", b"}\r\n{1+}\r\n\n\r\n"].iter().enumerate() {
                let s = s.to_vec();
                v.push(Group::new(format!("all-chunkings/{k}"), Mode::Full { cap: 1 << 14 }, 0, move |g| {
                    let mut sizes = vec![1usize];
                    for _ in 1..s.len() {
                        if g.flag() { sizes.push(1) } else { *sizes.last_mut().unwrap() += 1 }
                    }
                    g.say(|| format!("stream {} chunks {sizes:?}", s.escape_ascii()));
                    check_stream(&s, &sizes, None)
                }));
            }
            v.push(Group::new("large", Mode::Dev { depth: 3, cap: 400 }, 100, |g| {
                let n = g.pick::<usize>(&[70_000, 65_535, 65_536, 4096, 1 << 20, 8192, 1023]);
                let mut s = match g.choose(3) {
                    0 => format!("a {{{n}}}\r\n").into_bytes(),
                    1 => format!("a {{{n}+}}\n").into_bytes(),
                    _ => vec![],
                };
                s.extend(std::iter::repeat_n(b'x', n));
                let t = stream(g, 4);
                s.extend(&t);
                let sizes = match g.choose(4) {
                    0 => vec![s.len()],
                    1 => vec![s.len() - t.len(), t.len()],
                    2 => {
                        let mut v = vec![s.len() - t.len()];
                        v.extend(vec![1; t.len()]);
                        v
                    }
                    _ => {
                        let k = g.pick::<usize>(&[1000, 1024, 4096, 8192, 65_536]).min(s.len());
                        let mut v = vec![k; s.len() / k];
                        v.push(s.len() % k);
                        v
                    }
                };
                g.say(|| format!("{n} bytes x after {}, then {}, queued in {:?}..", s[..12].escape_ascii(), t.escape_ascii(), &sizes[..sizes.len().min(4)]));
                if g.flag() { check_stream(&s, &sizes, None) } else { check_bulk(&s, &sizes) }
            }));
            v.push(Group::new("queued-before-polling", Mode::Dev { depth: 3, cap: 100_000 }, 50_000, |g| {
                let s = stream(g, 7);
                let c = chunks(g, s.len());
                g.say(|| format!("stream {} queued in {c:?} before the first poll", s.escape_ascii()));
                check_bulk(&s, &c)
            }));
            for first in 0..9usize {
                v.push(Group::new(format!("all-short-streams/{first}"), Mode::Full { cap: 1_000_000 }, 0, move |g| {
                    const AL: &[u8] = b"{}+\r\n01ax";
                    let n = 1 + g.choose(6);
                    let mut s = vec![AL[first]];
                    for _ in 1..n {
                        s.push(g.pick(AL));
                    }
                    g.say(|| format!("stream {} bytewise", s.escape_ascii()));
                    let k = s.len();
                    check_stream(&s, &vec![1; k], None)?;
                    check_stream(&s, &[k], None)
                }));
            }
        }
        "C02" => {
            let one = |s: Vec<u8>| -> R {
                let mut fz = Fragmentizer::without_max_message_size();
                fz.enqueue_bytes(&s);
                let Some(f) = fz.progress() else { return Err("a line feed did not end the line".into()) };
                let FragmentInfo::Line { start: 0, end, ending, .. } = f else { return Err(format!("first fragment {f:?}")) };
                let nl = s.iter().position(|b| *b == b'\n').unwrap() + 1;
                ensure!(end == nl, "line ends at {end}, expected {nl}");
                let want = spec::announcement(&s[..nl]);
                ensure!(ann_of(&f) == want, "line {} announces {:?}, expected {want:?}", s[..nl].escape_ascii(), ann_of(&f));
                ensure!((ending == LineEnding::CrLf) == s[..nl].ends_with(b"\r\n"), "line ending wrong");
                Ok(want.and_then(|_| hash(&s)))
            };
            for first in 0..10usize {
                v.push(Group::new(format!("all-short-lines/{first}"), Mode::Full { cap: 1_200_000 }, 0, move |g| {
                    const AL: &[u8] = b"{}+\r059a ~";
                    let n = 1 + g.choose(6);
                    let mut s = vec![AL[first]];
                    for _ in 1..n {
                        s.push(g.pick(AL));
                    }
                    s.extend_from_slice(b"\r\n");
                    g.say(|| s.escape_ascii().to_string());
                    one(s)
                }));
            }
            v.push(Group::new("every-byte-around-an-announcement", Mode::Dev { depth: 2, cap: 500_000 }, 200_000, move |g| {
                let mut s: Vec<u8> = b"A1 X ".to_vec();
                let core = g.pick::<&[u8]>(&[b"{5}", b"{5+}", b"{0}", b"{4294967295}", b"{4294967295+}", b"{4294967296}", b"{429496729", b"{42949672950}", b"{00000000000000000000000000012}", b"{99999999999999999999999}", b"{12}{34}", b"{12{34}", b"{1}{", b"{1+2}", b"{18446744073709551617}", b"{4294967297}", b"{8589934592+}"]);
                let ins = g.choose(core.len() + 2);
                // insert or replace one arbitrary byte somewhere
                let b = g.choose(256) as u8;
                let k = g.choose(3);
                let mut c = core.to_vec();
                if ins > 0 {
                    match k {
                        0 => c.insert(ins - 1, b),
                        1 if ins - 1 < c.len() => c[ins - 1] = b,
                        2 if ins - 1 < c.len() => {
                            c.remove(ins - 1);
                        }
                        _ => {}
                    }
                }
                s.extend(c);
                let e = g.pick::<&[u8]>(&[b"\r\n", b"\n", b"\r\r\n", b" \r\n", b"\r \n"]);
                s.extend_from_slice(e);
                g.say(|| s.escape_ascii().to_string());
                one(s)
            }));
            v.push(Group::new("lengths", Mode::No, 300_000, move |g| {
                let n: u64 = match g.choose(4) {
                    0 => g.choose(5000) as u64,
                    1 => u32::MAX as u64 - 2 + g.choose(5) as u64,
                    2 => (g.choose(1 << 31) as u64) << g.choose(6),
                    _ => g.choose(usize::MAX) as u64,
                };
                let zeros = "0".repeat(g.choose(12));
                let s = format!("a {{{zeros}{n}{}}}{}", if g.flag() { "+" } else { "" }, if g.flag() { "\n" } else { "\r\n" }).into_bytes();
                g.say(|| s.escape_ascii().to_string());
                one(s)
            }));
        }
        "C03" => {
            v.push(Group::new("limits", Mode::Dev { depth: 3, cap: 400_000 }, 200_000, |g| {
                let limit = g.choose(40) as u32;
                let s = stream(g, 6);
                let c = chunks(g, s.len());
                g.say(|| format!("limit {limit} stream {} chunks {c:?}", s.escape_ascii()));
                check_stream(&s, &c, Some(limit))
            }));
            v.push(Group::new("two-messages-around-the-limit", Mode::Full { cap: 300_000 }, 0, |g| {
                let a = g.choose(14);
                let b = g.choose(14);
                let lit = g.choose(4);
                let limit = g.choose(24) as u32;
                let mut s = vec![b'a'; a];
                if lit > 0 {
                    s.extend_from_slice(format!("{{{}}}\r\n", lit * 3).as_bytes());
                    s.extend(vec![b'\n'; lit * 3]);
                }
                s.extend_from_slice(b"\r\n");
                s.extend(vec![b'b'; b]);
                s.extend_from_slice(b"\r\n");
                let c = if g.flag() { vec![1; s.len()] } else { vec![s.len()] };
                g.say(|| format!("limit {limit} stream {}", s.escape_ascii()));
                check_stream(&s, &c, Some(limit))
            }));
            v.push(Group::new("boundary-limits", Mode::Dev { depth: 2, cap: 100_000 }, 20_000, |g| {
                let limit = g.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 65536, 255, 256, 0]);
                let s = stream(g, 4);
                let c = chunks(g, s.len());
                check_stream(&s, &c, Some(limit))
            }));
        }
        "C04" => {
            v.push(Group::new("histories", Mode::Dev { depth: 3, cap: 500_000 }, 150_000, check_history));
        }
        _ => {}
    }
}
