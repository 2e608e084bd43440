// ===== str::contains and str::replace over sequences of characters ==================================

spec fn at(s: Seq<char>, p: Seq<char>, i: int) -> bool {
    0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p
}
spec fn occurs(s: Seq<char>, p: Seq<char>) -> bool {
    exists|i: int| at(s, p, i)
}
/// Leftmost, non-overlapping occurrences of p become t.
spec fn replaced(s: Seq<char>, p: Seq<char>, t: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if p.len() == 0 || s.len() < p.len() {
        s
    } else if s.take(p.len() as int) == p {
        t + replaced(s.skip(p.len() as int), p, t)
    } else {
        seq![s[0]] + replaced(s.skip(1), p, t)
    }
}
/// A pattern: a character or a text.
trait VxPat: Sized {
    spec fn pat(self) -> Seq<char>;
}
impl VxPat for char { spec fn pat(self) -> Seq<char> { seq![self] } }
impl VxPat for &str { spec fn pat(self) -> Seq<char> { self@ } }
/// A text behind a `Cow`, `str` or `String`.
trait VxStr {
    spec fn chars(&self) -> Seq<char>;
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool)
        ensures
            p.pat().len() > 0 ==> r == occurs(self.chars(), p.pat()),
    ;
    fn vx_replace<P: VxPat>(&self, p: P, t: &str) -> (r: String)
        ensures
            p.pat().len() > 0 ==> r@ == replaced(self.chars(), p.pat(), t@),
    ;
}
impl VxStr for Cow<'_, str> {
    spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_replace<P: VxPat>(&self, p: P, t: &str) -> (r: String) { unimplemented!() }
}
impl VxStr for str {
    spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_replace<P: VxPat>(&self, p: P, t: &str) -> (r: String) { unimplemented!() }
}

proof fn lemma_absent(s: Seq<char>, p: Seq<char>, t: Seq<char>)
    requires
        p.len() > 0,
        !occurs(s, p),
    ensures
        replaced(s, p, t) == s,
    decreases s.len(),
{
    if s.len() >= p.len() {
        assert(!at(s, p, 0));
        assert forall|i: int| !at(s.skip(1), p, i) by {
            assert(!at(s, p, i + 1));
            if 0 <= i && i + p.len() <= s.skip(1).len() {
                assert(s.skip(1).subrange(i, i + p.len()) =~= s.subrange(i + 1, i + 1 + p.len()));
            }
        }
        lemma_absent(s.skip(1), p, t);
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}

// ===== quoting ======================================================================================

/// A backslash before every backslash and every double quote.
spec fn esc(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 {
        s
    } else if s[0] == '\\' || s[0] == '"' {
        seq!['\\', s[0]] + esc(s.skip(1))
    } else {
        seq![s[0]] + esc(s.skip(1))
    }
}
/// A backslash before every double quote only.
spec fn half(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 {
        s
    } else if s[0] == '"' {
        seq!['\\', s[0]] + half(s.skip(1))
    } else {
        seq![s[0]] + half(s.skip(1))
    }
}
proof fn lemma_rep_match(p: Seq<char>, t: Seq<char>, rest: Seq<char>)
    requires
        p.len() > 0,
    ensures
        replaced(p + rest, p, t) == t + replaced(rest, p, t),
{
    assert((p + rest).take(p.len() as int) =~= p);
    assert((p + rest).skip(p.len() as int) =~= rest);
}
proof fn lemma_rep_skip(c: char, p: Seq<char>, t: Seq<char>, rest: Seq<char>)
    requires
        p.len() > 0,
        c != p[0] || (p.len() > 1 && (rest.len() == 0 || rest[0] != p[1])),
    ensures
        replaced(seq![c] + rest, p, t) == seq![c] + replaced(rest, p, t),
{
    let s = seq![c] + rest;
    assert(s.skip(1) =~= rest);
    if s.len() >= p.len() {
        let k = s.take(p.len() as int);
        assert(k[0] == c);
        if p.len() > 1 {
            assert(k[1] == rest[0]);
        }
        assert(k != p);
    } else {
        assert(replaced(rest, p, t) == rest);
    }
}
proof fn lemma_escape(s: Seq<char>)
    ensures
        replaced(replaced(s, seq!['\\'], seq!['\\', '\\']), seq!['"'], seq!['\\', '"']) == esc(s),
    decreases s.len(),
{
    let (b, q, bb, bq) = (seq!['\\'], seq!['"'], seq!['\\', '\\'], seq!['\\', '"']);
    if s.len() > 0 {
        let rest = s.skip(1);
        let r = replaced(rest, b, bb);
        lemma_escape(rest);
        assert(s =~= seq![s[0]] + rest);
        if s[0] == '\\' {
            lemma_rep_match(b, bb, rest);
            assert(bb + r =~= seq!['\\'] + (seq!['\\'] + r));
            lemma_rep_skip('\\', q, bq, seq!['\\'] + r);
            lemma_rep_skip('\\', q, bq, r);
            assert(esc(s) =~= seq!['\\'] + (seq!['\\'] + esc(rest)));
        } else {
            lemma_rep_skip(s[0], b, bb, rest);
            if s[0] == '"' {
                lemma_rep_match(q, bq, r);
                assert(seq![s[0]] =~= q);
            } else {
                lemma_rep_skip(s[0], q, bq, r);
            }
        }
    }
}
proof fn lemma_half_head(s: Seq<char>)
    requires
        s.len() > 0,
    ensures
        half(s).len() > 0,
        half(s)[0] != '"',
{
}
proof fn lemma_unescape(s: Seq<char>)
    ensures
        replaced(esc(s), seq!['\\', '\\'], seq!['\\']) == half(s),
        replaced(half(s), seq!['\\', '"'], seq!['"']) == s,
    decreases s.len(),
{
    let (b, q, bb, bq) = (seq!['\\'], seq!['"'], seq!['\\', '\\'], seq!['\\', '"']);
    if s.len() > 0 {
        let rest = s.skip(1);
        lemma_unescape(rest);
        assert(s =~= seq![s[0]] + rest);
        if rest.len() > 0 {
            lemma_half_head(rest);
        }
        if s[0] == '\\' {
            assert(seq!['\\', s[0]] =~= bb);
            lemma_rep_match(bb, b, esc(rest));
            lemma_rep_skip('\\', bq, q, half(rest));
        } else if s[0] == '"' {
            assert(esc(s) =~= seq!['\\'] + (q + esc(rest)));
            lemma_rep_skip('\\', bb, b, q + esc(rest));
            lemma_rep_skip('"', bb, b, esc(rest));
            assert(half(s) =~= seq!['\\'] + (q + half(rest)));
            assert(half(s) =~= bq + half(rest));
            lemma_rep_match(bq, q, half(rest));
        } else {
            lemma_rep_skip(s[0], bb, b, esc(rest));
            lemma_rep_skip(s[0], bq, q, half(rest));
        }
    }
}

/// The same, in the other order.
spec fn half2(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 {
        s
    } else if s[0] == '\\' {
        seq!['\\', s[0]] + half2(s.skip(1))
    } else {
        seq![s[0]] + half2(s.skip(1))
    }
}
proof fn lemma_unescape2(s: Seq<char>)
    ensures
        replaced(esc(s), seq!['\\', '"'], seq!['"']) == half2(s),
        replaced(half2(s), seq!['\\', '\\'], seq!['\\']) == s,
    decreases s.len(),
{
    let (b, q, bb, bq) = (seq!['\\'], seq!['"'], seq!['\\', '\\'], seq!['\\', '"']);
    if s.len() > 0 {
        let rest = s.skip(1);
        lemma_unescape2(rest);
        assert(s =~= seq![s[0]] + rest);
        if s[0] == '\\' {
            assert(esc(s) =~= seq!['\\'] + (b + esc(rest)));
            lemma_rep_skip('\\', bq, q, b + esc(rest));
            lemma_rep_skip('\\', bq, q, esc(rest));
            assert(half2(s) =~= seq!['\\'] + (b + half2(rest)));
            assert(half2(s) =~= bb + half2(rest));
            lemma_rep_match(bb, b, half2(rest));
        } else if s[0] == '"' {
            assert(seq!['\\', s[0]] =~= bq);
            lemma_rep_match(bq, q, esc(rest));
            lemma_rep_skip('"', bb, b, half2(rest));
        } else {
            lemma_rep_skip(s[0], bq, q, esc(rest));
            lemma_rep_skip(s[0], bb, b, half2(rest));
        }
    }
}

/// The texts that the two functions mention.
broadcast proof fn lemma_lits(a: &str)
    ensures
        #![trigger a@]
        "\\"@ == seq!['\\'],
        "\""@ == seq!['"'],
        "\\\\"@ == seq!['\\', '\\'],
        "\\\""@ == seq!['\\', '"'],
{
    reveal_strlit("\\");
    reveal_strlit("\"");
    reveal_strlit("\\\\");
    reveal_strlit("\\\"");
    assert("\\"@ =~= seq!['\\']);
    assert("\""@ =~= seq!['"']);
    assert("\\\\"@ =~= seq!['\\', '\\']);
    assert("\\\""@ =~= seq!['\\', '"']);
}

//@ file imap-types/src/utils.rs
//@ fn escape_quoted -> r
//@ wrap contains=vx_contains:method replace=vx_replace:method
    ensures
        r@ == esc(unescaped@),
//@ start
    proof {
        broadcast use lemma_lits;
        lemma_escape(unescaped@);
        if !occurs(unescaped@, seq!['\\']) {
            lemma_absent(unescaped@, seq!['\\'], seq!['\\', '\\']);
        }
        let m = replaced(unescaped@, seq!['\\'], seq!['\\', '\\']);
        if !occurs(m, seq!['"']) {
            lemma_absent(m, seq!['"'], seq!['\\', '"']);
        }
    }
//@ endfn
//@ fn unescape_quoted -> r
//@ wrap contains=vx_contains:method replace=vx_replace:method
    ensures
        forall|s: Seq<char>| escaped@ == #[trigger] esc(s) ==> r@ == s,
//@ start
    proof {
        broadcast use lemma_lits;
        let (b, q, bb, bq) = (seq!['\\'], seq!['"'], seq!['\\', '\\'], seq!['\\', '"']);
        if !occurs(escaped@, bb) {
            lemma_absent(escaped@, bb, b);
        }
        let m = replaced(escaped@, bb, b);
        if !occurs(m, bq) {
            lemma_absent(m, bq, q);
        }
        assert forall|s: Seq<char>| escaped@ == #[trigger] esc(s) implies replaced(m, bq, q) == s by {
            lemma_unescape(s);
        }
        if !occurs(escaped@, bq) {
            lemma_absent(escaped@, bq, q);
        }
        let m = replaced(escaped@, bq, q);
        if !occurs(m, bb) {
            lemma_absent(m, bb, b);
        }
        assert forall|s: Seq<char>| escaped@ == #[trigger] esc(s) implies replaced(m, bb, b) == s by {
            lemma_unescape2(s);
        }
    }
//@ endfn
