//@ include chars.inc

pub open spec fn every(s: Seq<u8>, p: spec_fn(u8) -> bool) -> bool { forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) }

pub open spec fn atom(s: Seq<u8>) -> bool { s.len() > 0 && every(s, |b: u8| atom_char(b)) }
pub open spec fn atom_ext(s: Seq<u8>) -> bool { s.len() > 0 && every(s, |b: u8| astring_char(b)) }
pub open spec fn tag(s: Seq<u8>) -> bool { s.len() > 0 && every(s, |b: u8| tag_char(b)) }
pub open spec fn text(s: Seq<u8>) -> bool { s.len() > 0 && every(s, |b: u8| text_char(b)) }
pub open spec fn quoted(s: Seq<u8>) -> bool { every(s, |b: u8| text_char(b)) }
pub open spec fn literal(s: Seq<u8>) -> bool { every(s, |b: u8| char8(b)) }
pub open spec fn list_chars(s: Seq<u8>) -> bool { s.len() > 0 && every(s, |b: u8| list_char(b)) }

