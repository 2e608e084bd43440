/// Value of a string of decimal digits.
spec fn val(d: Seq<u8>) -> nat
    decreases d.len(),
{
    if d.len() == 0 { 0 } else { val(d.drop_last()) * 10 + (d.last() - 0x30) as nat }
}

spec fn is_digit(b: u8) -> bool { 0x30 <= b <= 0x39 }

/// Length of the longest suffix of digits.
spec fn digits(s: Seq<u8>) -> nat
    decreases s.len(),
{
    if s.len() > 0 && is_digit(s.last()) { digits(s.drop_last()) + 1 } else { 0 }
}

/// The number after a final `{`: `... { 1*DIGIT`.
spec fn braced(s: Seq<u8>) -> Option<u32> {
    let k = digits(s) as int;
    let n = s.len() as int;
    if 1 <= k < n && s[n - k - 1] == 0x7b && val(s.subrange(n - k, n)) <= u32::MAX {
        Some(val(s.subrange(n - k, n)) as u32)
    } else {
        None
    }
}

/// What a line announces, without its ending: it must end in `{` number [`+`] `}`.
spec fn announces(s: Seq<u8>) -> Option<LiteralAnnouncement> {
    if s.len() > 0 && s.last() == 0x7d {
        let t = s.drop_last();
        if t.len() > 0 && t.last() == 0x2b {
            match braced(t.drop_last()) {
                Some(length) => Some(LiteralAnnouncement { mode: LiteralMode::NonSync, length }),
                None => None,
            }
        } else {
            match braced(t) {
                Some(length) => Some(LiteralAnnouncement { mode: LiteralMode::Sync, length }),
                None => None,
            }
        }
    } else {
        None
    }
}

/// `line` without its final LF; one CR before the LF belongs to the ending.
spec fn line_announces(line: Seq<u8>) -> Option<LiteralAnnouncement> {
    let s = line.drop_last();
    if s.len() > 0 && s.last() == 0x0d { announces(s.drop_last()) } else { announces(s) }
}
