
// ===== what is sent ================================================================================

pub open spec fn chars(s: Seq<u8>) -> Seq<char> { Seq::new(s.len(), |i: int| s[i] as char) }
/// The decimal digits of a number.
pub open spec fn dec(n: nat) -> Seq<u8>
    decreases n,
{
    if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10).push((48 + n % 10) as u8) }
}
pub open spec fn text_num(a: SeqOrUid) -> Seq<u8> {
    match a { SeqOrUid::Value(n) => dec(n@ as nat), SeqOrUid::Asterisk => seq![42u8] }
}
pub open spec fn text_seq(q: Sequence) -> Seq<u8> {
    match q { Sequence::Single(a) => text_num(a), Sequence::Range(a, b) => text_num(a) + seq![58u8] + text_num(b) }
}
/// Texts, each followed by a separator.
pub open spec fn joined(t: Seq<Seq<u8>>, sep: Seq<u8>) -> Seq<u8>
    decreases t.len(),
{
    if t.len() == 0 { seq![] } else { joined(t.drop_last(), sep) + t.last() + sep }
}
/// Texts with separators in between.
pub open spec fn between(t: Seq<Seq<u8>>, sep: Seq<u8>) -> Seq<u8> {
    if t.len() == 0 { seq![] } else { joined(t.drop_last(), sep) + t.last() }
}
pub open spec fn texts(q: Seq<Sequence>) -> Seq<Seq<u8>> { Seq::new(q.len(), |i: int| text_seq(q[i])) }
pub open spec fn text_set(q: Seq<Sequence>) -> Seq<u8> { between(texts(q), seq![44u8]) }

// ----- reading it -----

pub open spec fn free(s: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c }
proof fn lemma_piece(t: Seq<char>, c: char)
    requires
        free(t, c),
    ensures
        pieces(t, c) == seq![t],
    decreases t.len(),
{
    if t.len() > 0 {
        assert(free(t.drop_last(), c)) by { assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] t.drop_last()[i] != c by { assert(t[i] != c); } }
        lemma_piece(t.drop_last(), c);
        assert(t[t.len() - 1] != c);
        assert(t.drop_last().push(t.last()) =~= t);
        assert(pieces(t, c) =~= seq![t]);
    }
}
proof fn lemma_pieces_push(a: Seq<char>, t: Seq<char>, c: char)
    requires
        free(t, c),
    ensures
        pieces(a.push(c) + t, c) == pieces(a, c).push(t),
    decreases t.len(),
{
    let s = a.push(c) + t;
    lemma_pieces(a, c);
    if t.len() == 0 {
        assert(s =~= a.push(c));
        assert(s.drop_last() =~= a);
        assert(t =~= Seq::empty());
    } else {
        assert(free(t.drop_last(), c)) by { assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] t.drop_last()[i] != c by { assert(t[i] != c); } }
        lemma_pieces_push(a, t.drop_last(), c);
        assert(s.drop_last() =~= a.push(c) + t.drop_last());
        assert(s.last() == t.last());
        assert(t[t.len() - 1] != c);
        assert(t.drop_last().push(t.last()) =~= t);
        assert(pieces(s, c) =~= pieces(a, c).push(t));
    }
}
spec fn all_chars(t: Seq<Seq<u8>>) -> Seq<Seq<char>> { Seq::new(t.len(), |i: int| chars(t[i])) }
proof fn lemma_between(t: Seq<Seq<u8>>, b: u8)
    requires
        t.len() > 0,
        forall|i: int| 0 <= i < t.len() ==> free(chars(#[trigger] t[i]), b as char),
    ensures
        pieces(chars(between(t, seq![b])), b as char) == all_chars(t),
    decreases t.len(),
{
    let (s, h, l) = (between(t, seq![b]), t.drop_last(), t.last());
    assert(t[t.len() - 1] == l);
    if h.len() == 0 {
        assert(s =~= l);
        lemma_piece(chars(l), b as char);
        assert(all_chars(t) =~= seq![chars(l)]);
    } else {
        assert forall|i: int| 0 <= i < h.len() implies free(chars(#[trigger] h[i]), b as char) by { assert(h[i] == t[i]); }
        lemma_between(h, b);
        let p = between(h, seq![b]);
        assert(s =~= p.push(b) + l);
        assert(chars(s) =~= chars(p).push(b as char) + chars(l));
        lemma_pieces_push(chars(p), chars(l), b as char);
        assert(all_chars(t) =~= all_chars(h).push(chars(l)));
    }
}
proof fn lemma_dec(n: nat)
    ensures
        digits(chars(dec(n))),
        number(chars(dec(n))) == n,
        n > 0 ==> chars(dec(n))[0] != '0',
        free(chars(dec(n)), ','),
        free(chars(dec(n)), ':'),
        free(chars(dec(n)), '*'),
    decreases n,
{
    let s = chars(dec(n));
    reveal_with_fuel(number, 2);
    if n >= 10 {
        lemma_dec(n / 10);
        let h = chars(dec(n / 10));
        assert(s.drop_last() =~= h);
        assert(s =~= h.push(((48 + n % 10) as u8) as char));
        assert forall|i: int| 0 <= i < s.len() implies digit(#[trigger] s[i]) && s[i] != ',' && s[i] != ':' && s[i] != '*' by {
            if i < h.len() { assert(s[i] == h[i]); }
        }
        assert(s[0] == h[0]);
    } else {
        assert(s =~= seq![((48 + n) as u8) as char]);
        assert(s.drop_last() =~= Seq::empty());
        assert(digit(s[0]));
    }
}
proof fn lemma_text_num(a: SeqOrUid)
    ensures
        seq_number(chars(text_num(a)), Some(a)),
        free(chars(text_num(a)), ','),
        free(chars(text_num(a)), ':'),
{
    broadcast use axiom_positive;
    match a {
        SeqOrUid::Value(n) => {
            lemma_dec(n@ as nat);
            assert(n@ > 0);
            let s = chars(dec(n@ as nat));
            assert(s[0] != '*');
            assert(s != seq!['*']) by { if s == seq!['*'] { assert(seq!['*'][0] == '*'); } }
        }
        SeqOrUid::Asterisk => {
            assert(chars(text_num(a)) =~= seq!['*']);
        }
    }
}
proof fn lemma_text_seq(q: Sequence)
    ensures
        seq_item(chars(text_seq(q)), Some(q)),
        free(chars(text_seq(q)), ','),
{
    match q {
        Sequence::Single(a) => {
            lemma_text_num(a);
            lemma_piece(chars(text_num(a)), ':');
        }
        Sequence::Range(a, b) => {
            lemma_text_num(a);
            lemma_text_num(b);
            let (x, y, s) = (chars(text_num(a)), chars(text_num(b)), chars(text_seq(q)));
            assert(s =~= x.push(':') + y);
            lemma_piece(x, ':');
            lemma_pieces_push(x, y, ':');
            assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != ',' by {
                if i < x.len() { assert(s[i] == x[i]); } else if i > x.len() { assert(s[i] == y[i - x.len() - 1]); }
            }
        }
    }
}
/// The text of a set reads as that set, and as no other.
proof fn theorem_reads(q: Seq<Sequence>)
    requires
        q.len() > 0,
    ensures
        seq_set(chars(text_set(q)), Some(q)),
        forall|p: Seq<Sequence>| #[trigger] seq_set(chars(text_set(q)), Some(p)) ==> p == q,
{
    let (t, x) = (texts(q), chars(text_set(q)));
    assert forall|i: int| 0 <= i < t.len() implies free(chars(#[trigger] t[i]), 44u8 as char) by { lemma_text_seq(q[i]); }
    lemma_between(t, 44u8);
    let c = pieces(x, ',');
    assert(c == all_chars(t));
    assert forall|i: int| 0 <= i < c.len() implies seq_item(c[i], Some(#[trigger] q[i])) by { lemma_text_seq(q[i]); }
    assert forall|p: Seq<Sequence>| #[trigger] seq_set(x, Some(p)) implies p == q by {
        assert forall|i: int| 0 <= i < q.len() implies p[i] == q[i] by {
            assert(seq_item(c[i], Some(p[i])));
            assert(seq_item(c[i], Some(q[i])));
            lemma_one_item(c[i], p[i], q[i]);
        }
        assert(p =~= q);
    }
}
proof fn lemma_one_number(s: Seq<char>, a: SeqOrUid, b: SeqOrUid)
    requires
        seq_number(s, Some(a)),
        seq_number(s, Some(b)),
    ensures
        a == b,
{
    broadcast use axiom_nonzero;
    if s != seq!['*'] {
        assert(a->Value_0@ == b->Value_0@);
    }
}
proof fn lemma_one_item(s: Seq<char>, a: Sequence, b: Sequence)
    requires
        seq_item(s, Some(a)),
        seq_item(s, Some(b)),
    ensures
        a == b,
{
    let p = pieces(s, ':');
    if p.len() == 1 {
        lemma_one_number(s, a->Single_0, b->Single_0);
    } else {
        lemma_one_number(p[0], a->Range_0, b->Range_0);
        lemma_one_number(p[1], a->Range_1, b->Range_1);
    }
}

// ----- writing it -----

broadcast proof fn lemma_four(o: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures
        #[trigger] (((o + a) + b) + c) == o + (a + b + c),
{
    assert(o + a + b + c =~= o + (a + b + c));
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
pub assume_specification<T> [<[T]>::split_last] (s: &[T]) -> (r: std::option::Option<(&T, &[T])>)
    ensures
        r is None <==> s@.len() == 0,
        r matches Some(x) ==> *x.0 == s@.last() && x.1@ == s@.drop_last(),
;
trait Display {
    spec fn shown(&self) -> Seq<u8>;
    fn vx_show(&self) -> (r: Vec<u8>)
        ensures
            r@ == self.shown(),
    ;
}
impl Display for NonZeroU32 {
    spec fn shown(&self) -> Seq<u8> { dec(self@ as nat) }
    #[verifier::external_body]
    fn vx_show(&self) -> Vec<u8> { self.to_string().into_bytes() }
}
impl<T: Display> Display for &T {
    spec fn shown(&self) -> Seq<u8> { (*self).shown() }
    fn vx_show(&self) -> Vec<u8> { (*self).vx_show() }
}
//@ file imap-types/src/core.rs
//@ enum LiteralMode
//@ file imap-codec/src/codec/encode.rs
//@ items Fragment EncodeContext
//@ impl Write for EncodeContext => impl EncodeContext {
//@ fn write -> r
    ensures
        r matches Ok(n) && n == buf@.len(),
        final(self).accumulator@ == old(self).accumulator@ + buf@,
        final(self).items@ == old(self).items@,
//@ endfn
//@ endimpl
impl EncodeContext {
    /// The provided `write_all`: one `write` suffices, because it takes everything.
    fn write_all(&mut self, buf: &[u8]) -> (r: std::io::Result<()>)
        ensures
            r is Ok,
            final(self).accumulator@ == old(self).accumulator@ + buf@,
            final(self).items@ == old(self).items@,
    {
        if buf.len() == 0 {
            proof { assert(old(self).accumulator@ + buf@ =~= old(self).accumulator@); }
            Ok(())
        } else {
            match self.write(buf) {
                Ok(n) => Ok(()),
                Err(e) => Err(e),
            }
        }
    }
    /// `write_fmt` of one argument
    fn vx_put<D: Display>(&mut self, d: &D) -> (r: std::io::Result<()>)
        ensures
            r is Ok,
            final(self).accumulator@ == old(self).accumulator@ + d.shown(),
            final(self).items@ == old(self).items@,
    {
        let s = d.vx_show();
        self.write_all(s.as_slice())
    }
}
trait EncodeIntoContext {
    /// `s` is what is written.
    spec fn sends(&self, s: Seq<u8>) -> bool;
    spec fn fit(&self) -> bool;
    fn encode_ctx(&self, ctx: &mut EncodeContext) -> (r: std::io::Result<()>)
        requires
            self.fit(),
        ensures
            r is Ok,
            exists|s: Seq<u8>| #[trigger] self.sends(s) && final(ctx).accumulator@ == old(ctx).accumulator@ + s,
            final(ctx).items@ == old(ctx).items@,
    ;
}
impl<T> VecN<T, 1> {
    fn vx_list(&self) -> (r: &[T])
        ensures r@ == self.0@,
    { self.0.as_slice() }
}
spec fn all_sent<I: EncodeIntoContext>(e: Seq<I>, t: Seq<Seq<u8>>) -> bool {
    e.len() == t.len() && forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i].sends(t[i])
}
//@ file imap-codec/src/codec/encode.rs
//@ fn join_serializable -> r
    requires
        forall|i: int| 0 <= i < elements@.len() ==> (#[trigger] elements@[i]).fit(),
    ensures
        r is Ok,
        exists|t: Seq<Seq<u8>>| all_sent(elements@, t) && final(ctx).accumulator@ == old(ctx).accumulator@ + #[trigger] between(t, sep@),
        final(ctx).items@ == old(ctx).items@,
//@ start
    let ghost mut t: Seq<Seq<u8>> = seq![];
    proof { assert(old(ctx).accumulator@ + between(t, sep@) =~= old(ctx).accumulator@); }
//@ loop 0 before
    proof { assert(old(ctx).accumulator@ + joined(t, sep@) =~= old(ctx).accumulator@); }
//@ loop 0 inv vx_it
    invariant
        elements@.len() > 0,
        forall|i: int| 0 <= i < elements@.len() ==> (#[trigger] elements@[i]).fit(),
        vx_it.seq().len() == elements@.len() - 1,
        forall|i: int| 0 <= i < elements@.len() - 1 ==> *(#[trigger] vx_it.seq()[i]) == elements@[i],
        all_sent(elements@.take(vx_it.index@), t),
        ctx.accumulator@ == old(ctx).accumulator@ + joined(t, sep@),
        ctx.items@ == old(ctx).items@,
//@ loop 0 start
        let ghost acc = ctx.accumulator@;
        proof { assert(*item == elements@[vx_it.index@]); }
//@ loop 0 end
        proof {
            let n = vx_it.index@;
            let s = choose|s: Seq<u8>| #[trigger] elements@[n].sends(s) && ctx.accumulator@ == acc + s + sep@;
            assert(elements@[n].sends(s));
            let u = t.push(s);
            assert(u.drop_last() =~= t);
            assert(ctx.accumulator@ =~= old(ctx).accumulator@ + joined(u, sep@));
            assert forall|i: int| 0 <= i < n + 1 implies #[trigger] elements@.take(n + 1)[i].sends(u[i]) by {
                if i < n { assert(elements@.take(n)[i].sends(t[i])); }
            }
            t = u;
        }
//@ loop 0 after
        let ghost acc = ctx.accumulator@;
//@ end
    proof {
        if elements@.len() > 0 {
            let n = elements@.len() - 1;
            let s = choose|s: Seq<u8>| #[trigger] elements@[n].sends(s) && ctx.accumulator@ == old(ctx).accumulator@ + joined(t, sep@) + s;
            assert(elements@[n].sends(s));
            let u = t.push(s);
            assert(u.drop_last() =~= t);
            assert(ctx.accumulator@ =~= old(ctx).accumulator@ + between(u, sep@));
            assert forall|i: int| 0 <= i < elements@.len() implies #[trigger] elements@[i].sends(u[i]) by {
                if i < n { assert(elements@.take(n)[i].sends(t[i])); }
            }
            assert(all_sent(elements@, u));
        } else {
            assert(all_sent(elements@, t));
        }
    }
//@ endfn
//@ impl EncodeIntoContext for SeqOrUid {
    spec fn sends(&self, s: Seq<u8>) -> bool { s == text_num(*self) }
    spec fn fit(&self) -> bool { true }
//@ fn encode_ctx
//@ end
    assert(self.sends(text_num(*self)));
//@ endfn
//@ endimpl
//@ impl EncodeIntoContext for Sequence {
    spec fn sends(&self, s: Seq<u8>) -> bool { exists|p: Sequence| #[trigger] kept_seq(p, *self) && s == text_seq(p) }
    spec fn fit(&self) -> bool { true }
//@ fn encode_ctx
//@ wrap clone=vx_clone_seq:own
//@ start
    broadcast use lemma_four;
    proof {
        assert forall|s: Seq<u8>| s.len() == 1 && #[trigger] s[0] == 58 implies s == seq![58u8] by { assert(s =~= seq![58u8]); }
        lemma_kept_seq(*self);
    }
//@ end
    proof {
        assert forall|p: Sequence| #[trigger] kept_seq(p, *self) implies self.sends(text_seq(p)) by {}
    }
//@ endfn
//@ endimpl
/// What the elements of `e` send is the text of a set.
proof fn lemma_sent(e: Seq<Sequence>, t: Seq<Seq<u8>>)
    requires
        all_sent(e, t),
    ensures
        exists|q: Seq<Sequence>| #[trigger] each_kept(q, e) && texts(q) == t,
{
    let q = Seq::new(e.len(), |i: int| choose|p: Sequence| #[trigger] kept_seq(p, e[i]) && t[i] == text_seq(p));
    assert forall|i: int| 0 <= i < e.len() implies kept_seq(#[trigger] q[i], e[i]) && t[i] == text_seq(q[i]) by {
        assert(e[i].sends(t[i]));
    }
    assert(texts(q) =~= t);
    assert(each_kept(q, e));
}
spec fn each_kept(q: Seq<Sequence>, e: Seq<Sequence>) -> bool { q.len() == e.len() && forall|i: int| 0 <= i < q.len() ==> kept_seq(#[trigger] q[i], e[i]) }
fn vx_list<T>(v: &Vec1<T>) -> (r: &[T])
    ensures r@ == v.0@,
{ v.0.as_slice() }
//@ impl EncodeIntoContext for SequenceSet {
    spec fn sends(&self, s: Seq<u8>) -> bool { exists|q: Seq<Sequence>| q.len() > 0 && kept(q, self.0.0@) && s == #[trigger] text_set(q) }
    spec fn fit(&self) -> bool { self.0.0@.len() > 0 }
//@ fn encode_ctx
//@ wrap clone=vx_clone:own as_ref=vx_list:ref
//@ start
    proof { lemma_becomes(*self); }
//@ end
    proof {
        assert forall|e: Seq<Sequence>, t: Seq<Seq<u8>>, sep: Seq<u8>| #[trigger] all_sent(e, t) && becomes(*self, e) && sep.len() == 1 && sep[0] == 44 implies self.sends(#[trigger] between(t, sep)) by {
            lemma_sent(e, t);
            let q = choose|q: Seq<Sequence>| #[trigger] each_kept(q, e) && texts(q) == t;
            assert(sep =~= seq![44u8]);
            assert(text_set(q) == between(t, sep));
            lemma_kept(q, e, *self);
        }
    }
//@ endfn
//@ endimpl
