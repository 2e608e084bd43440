// ===== the grammar of RFC 3501, section 9 ==========================================================

pub open spec fn ctl(b: u8) -> bool { b < 0x20 || b == 0x7f }
pub open spec fn quoted_specials(b: u8) -> bool { b == 0x22 || b == 0x5c }
pub open spec fn list_wildcards(b: u8) -> bool { b == 0x25 || b == 0x2a }
pub open spec fn resp_specials(b: u8) -> bool { b == 0x5d }
pub open spec fn gr_char(b: u8) -> bool { 1 <= b <= 0x7f }
pub open spec fn atom_specials(b: u8) -> bool {
    b == 0x28 || b == 0x29 || b == 0x7b || b == 0x20 || ctl(b) || list_wildcards(b) || quoted_specials(b) || resp_specials(b)
}
pub open spec fn atom_char(b: u8) -> bool { gr_char(b) && !atom_specials(b) }
pub open spec fn astring_char(b: u8) -> bool { atom_char(b) || resp_specials(b) }
pub open spec fn list_char(b: u8) -> bool { atom_char(b) || list_wildcards(b) || resp_specials(b) }
pub open spec fn text_char(b: u8) -> bool { gr_char(b) && b != 0x0d && b != 0x0a }
pub open spec fn char8(b: u8) -> bool { b != 0 }
pub open spec fn tag_char(b: u8) -> bool { astring_char(b) && b != 0x2b }
