// The text form of sequence sets.
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
/// The number that digits denote.
pub open spec fn number(s: Seq<char>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { 10 * number(s.drop_last()) + (s.last() as u32 - 0x30) }
}
pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
/// nz-number of RFC 3501: no leading zero, no sign, below 2^32.
pub open spec fn nz_number(s: Seq<char>) -> bool { digits(s) && s[0] != '0' && number(s) <= u32::MAX }
/// seq-number = nz-number / "*"
pub open spec fn seq_number(s: Seq<char>, r: Option<SeqOrUid>) -> bool {
    if s == seq!['*'] { r == Some(SeqOrUid::Asterisk) }
    else if nz_number(s) { r matches Some(SeqOrUid::Value(n)) && n@ == number(s) }
    else { r is None }
}
/// The pieces between the `c`s.
pub open spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { seq![s] }
    else if s.last() == c { pieces(s.drop_last(), c).push(Seq::empty()) }
    else {
        let p = pieces(s.drop_last(), c);
        p.update(p.len() - 1, p.last().push(s.last()))
    }
}
/// seq-number / seq-number ":" seq-number
pub open spec fn seq_item(s: Seq<char>, r: Option<Sequence>) -> bool {
    let p = pieces(s, ':');
    if p.len() == 1 { match r { Some(Sequence::Single(a)) => seq_number(s, Some(a)), Some(_) => false, None => seq_number(s, None) } }
    else if p.len() == 2 {
        match r {
            Some(Sequence::Range(a, b)) => seq_number(p[0], Some(a)) && seq_number(p[1], Some(b)),
            Some(_) => false,
            None => seq_number(p[0], None) || seq_number(p[1], None),
        }
    } else { r is None }
}
/// sequence-set: items between commas.
pub open spec fn seq_set(s: Seq<char>, r: Option<Seq<Sequence>>) -> bool {
    let p = pieces(s, ',');
    match r {
        Some(q) => q.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> seq_item(p[i], Some(#[trigger] q[i])),
        None => exists|i: int| 0 <= i < p.len() && #[trigger] seq_item(p[i], None),
    }
}
proof fn lemma_pieces(s: Seq<char>, c: char)
    ensures
        pieces(s, c).len() >= 1,
        pieces(s, c).len() == 1 ==> pieces(s, c)[0] == s,
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_pieces(s.drop_last(), c);
        if s.last() != c && pieces(s, c).len() == 1 {
            assert(s.drop_last().push(s.last()) =~= s);
        }
    }
}
proof fn lemma_zero(s: Seq<char>)
    requires
        digits(s),
    ensures
        number(s) >= 0,
        s[0] != '0' ==> number(s) > 0,
    decreases s.len(),
{
    if s.len() > 1 {
        assert(s.drop_last()[0] == s[0]);
        assert forall|i: int| 0 <= i < s.drop_last().len() implies digit(#[trigger] s.drop_last()[i]) by { assert(digit(s[i])); }
        lemma_zero(s.drop_last());
        assert(digit(s[s.len() - 1]));
    } else {
        assert(digit(s[0]));
        assert(s.drop_last().len() == 0);
        assert(number(s.drop_last()) == 0);
    }
}

