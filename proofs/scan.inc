/// Where the fragmentizer is after some bytes of a message: in a line, just after an announcement, in a literal,
/// at the end of the message, beyond it.
pub enum St { Line(Seq<u8>), Ann(LiteralAnnouncement), Data(nat), Done, Over }

spec fn go(st: St, b: u8) -> St {
    match st {
        St::Line(l) => if b != 0x0a {
            St::Line(l.push(b))
        } else {
            match line_announces(l.push(b)) { None => St::Done, Some(a) => St::Ann(a) }
        },
        St::Ann(a) => if a.length == 0 {
            if b != 0x0a { St::Line(seq![b]) } else { St::Done }
        } else if a.length == 1 { St::Line(seq![]) } else { St::Data((a.length - 1) as nat) },
        St::Data(k) => if k <= 1 { St::Line(seq![]) } else { St::Data((k - 1) as nat) },
        St::Done | St::Over => St::Over,
    }
}

spec fn scan(st: St, w: Seq<u8>) -> St
    decreases w.len(),
{
    if w.len() == 0 { st } else { go(scan(st, w.drop_last()), w.last()) }
}

proof fn lemma_scan(st: St, a: Seq<u8>, b: Seq<u8>)
    ensures scan(st, a + b) == scan(scan(st, a), b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        lemma_scan(st, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
    }
}

spec fn busy(st: St) -> bool { st is Line || st is Data }
