//! Reference specifications, written from the IMAP grammar (RFC 3501 / RFC 9051 / RFC 7888 / RFC 3516)
//! and independent of the code under check.

pub fn is_char(b: u8) -> bool {
    (0x01..=0x7f).contains(&b)
}
pub fn is_char8(b: u8) -> bool {
    b != 0
}
pub fn is_ctl(b: u8) -> bool {
    b <= 0x1f || b == 0x7f
}
pub fn is_atom_special(b: u8) -> bool {
    matches!(b, b'(' | b')' | b'{' | b' ' | b'%' | b'*' | b'"' | b'\\' | b']') || is_ctl(b)
}
pub fn is_atom_char(b: u8) -> bool {
    is_char(b) && !is_atom_special(b)
}
pub fn is_astring_char(b: u8) -> bool {
    is_atom_char(b) || b == b']'
}
pub fn is_list_char(b: u8) -> bool {
    is_atom_char(b) || matches!(b, b'%' | b'*' | b']')
}
pub fn is_text_char(b: u8) -> bool {
    is_char(b) && b != b'\r' && b != b'\n'
}
pub fn is_tag_char(b: u8) -> bool {
    is_astring_char(b) && b != b'+'
}
pub fn atom(s: &[u8]) -> bool {
    !s.is_empty() && s.iter().all(|b| is_atom_char(*b))
}
pub fn astring_atom(s: &[u8]) -> bool {
    !s.is_empty() && s.iter().all(|b| is_astring_char(*b))
}
pub fn tag(s: &[u8]) -> bool {
    !s.is_empty() && s.iter().all(|b| is_tag_char(*b))
}
pub fn text(s: &[u8]) -> bool {
    !s.is_empty() && s.iter().all(|b| is_text_char(*b))
}
pub fn quoted(s: &[u8]) -> bool {
    s.iter().all(|b| is_text_char(*b))
}
pub fn literal(s: &[u8]) -> bool {
    s.iter().all(|b| is_char8(*b))
}
pub fn list_chars(s: &[u8]) -> bool {
    !s.is_empty() && s.iter().all(|b| is_list_char(*b))
}

/// A literal announced at the end of a line: (length, non-synchronizing).
pub type Announce = Option<(u32, bool)>;

/// Does the line (ending included) end in `{n}` / `{n+}` directly before its CRLF or LF?
pub fn announcement(line: &[u8]) -> Announce {
    let l = line.strip_suffix(b"\n")?;
    let l = l.strip_suffix(b"\r").unwrap_or(l);
    let l = l.strip_suffix(b"}")?;
    let (l, plus) = match l.strip_suffix(b"+") {
        Some(l) => (l, true),
        None => (l, false),
    };
    let open = l.iter().rposition(|b| *b == b'{')?;
    let digits = &l[open + 1..];
    if digits.is_empty() || !digits.iter().all(u8::is_ascii_digit) {
        return None;
    }
    let mut n: u64 = 0;
    for d in digits {
        n = n * 10 + (d - b'0') as u64;
        if n > u32::MAX as u64 {
            return None;
        }
    }
    Some((n as u32, plus))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    /// start..end, announcement, ends with CRLF (else LF)
    Line { start: usize, end: usize, ann: Announce, crlf: bool },
    Literal { start: usize, end: usize },
    /// the message ended at this offset
    MessageEnd { at: usize },
}

/// The specification of the fragmentizer without size limit: a pure function of the byte stream.
pub fn fragment_events(stream: &[u8]) -> Vec<Ev> {
    let mut out = Vec::new();
    let mut pos = 0;
    loop {
        let Some(nl) = stream[pos..].iter().position(|b| *b == b'\n') else { return out };
        let end = pos + nl + 1;
        let line = &stream[pos..end];
        let ann = announcement(line);
        out.push(Ev::Line { start: pos, end, ann, crlf: line.ends_with(b"\r\n") });
        match ann {
            None => {
                out.push(Ev::MessageEnd { at: end });
                pos = end;
            }
            Some((n, _)) => {
                let lend = end + n as usize;
                if n as usize > stream.len() - end {
                    return out;
                }
                out.push(Ev::Literal { start: end, end: lend });
                pos = lend;
            }
        }
    }
}

/// Escaping of quoted-string contents.
pub fn escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c == '"' || c == '\\' {
            o.push('\\');
        }
        o.push(c);
    }
    o
}
