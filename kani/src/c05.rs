//! Byte classes and quoted characters against the grammar of RFC 3501, for all bytes and all characters.
use imap_types::{core::QuotedChar, utils::indicators::*};

fn ctl(b: u8) -> bool {
    b < 0x20 || b == 0x7f
}
fn quoted_specials(b: u8) -> bool {
    b == 0x22 || b == 0x5c
}
fn wild(b: u8) -> bool {
    b == 0x25 || b == 0x2a
}
fn atom_char(b: u8) -> bool {
    b > 0x20 && b < 0x7f && b != 0x28 && b != 0x29 && b != 0x7b && b != 0x5d && !wild(b) && !quoted_specials(b)
}

#[kani::proof]
fn indicators() {
    let b: u8 = kani::any();
    assert!(is_char(b) == (b != 0 && b < 0x80), "CHAR");
    assert!(is_ctl(b) == ctl(b), "CTL");
    assert!(is_quoted_specials(b) == quoted_specials(b), "quoted-specials");
    assert!(is_list_wildcards(b) == wild(b), "list-wildcards");
    assert!(is_resp_specials(b) == (b == 0x5d), "resp-specials");
    assert!(is_atom_specials(b) == (b == 0x28 || b == 0x29 || b == 0x7b || b == 0x20 || ctl(b) || wild(b) || quoted_specials(b) || b == 0x5d), "atom-specials");
    assert!(is_atom_char(b) == atom_char(b), "ATOM-CHAR");
    assert!(is_astring_char(b) == (atom_char(b) || b == 0x5d), "ASTRING-CHAR");
    assert!(is_list_char(b) == (atom_char(b) || wild(b) || b == 0x5d), "list-char");
    assert!(is_text_char(b) == (b != 0 && b < 0x80 && b != 0x0d && b != 0x0a), "TEXT-CHAR");
    assert!(is_char8(b) == (b != 0), "CHAR8");
}

#[kani::proof]
fn quoted_char() {
    let c: char = kani::any();
    let ok = c != '\0' && c < '\u{80}' && c != '\r' && c != '\n';
    assert!(QuotedChar::validate(c).is_ok() == ok, "QUOTED-CHAR");
    match QuotedChar::try_from(c) {
        Ok(q) => assert!(ok && q.inner() == c, "the character is kept"),
        Err(_) => assert!(!ok, "no grammatical character is refused"),
    }
}
