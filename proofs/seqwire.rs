//@ cfg debug public lift
// The quirk that normalises sequence sets is off: a set is sent as it is.
#![allow(unused, non_snake_case, unused_parens, unused_braces)]
#![verifier::allow(autoderive_clone_without_spec)]
use std::{collections::VecDeque, num::NonZeroU32};
use vstd::prelude::*;
verus! {

//@ file imap-types/src/core.rs
//@ struct VecN
type Vec1<T> = VecN<T, 1>;
//@ file imap-types/src/sequence.rs
//@ enum SeqOrUid #[derive(Clone, Copy)]
//@ enum Sequence #[derive(Clone)]
//@ struct SequenceSet
/// A number is determined by its value.
#[verifier::external_body]
broadcast proof fn axiom_nonzero(a: NonZeroU32, b: NonZeroU32)
    ensures
        #[trigger] a@ == #[trigger] b@ ==> a == b,
{
}
/// ... and it is not zero.
#[verifier::external_body]
broadcast proof fn axiom_positive(a: NonZeroU32)
    ensures
        #[trigger] a@ > 0,
{
}

//@ include seqtext.inc
//@ include wire.inc

spec fn kept_seq(p: Sequence, q: Sequence) -> bool { p == q }
proof fn lemma_kept_seq(q: Sequence)
    ensures
        kept_seq(q, q),
{
}
spec fn kept(p: Seq<Sequence>, q: Seq<Sequence>) -> bool { p == q }
spec fn becomes(s: SequenceSet, e: Seq<Sequence>) -> bool { s.0.0@ == e }
proof fn lemma_becomes(s: SequenceSet)
    ensures
        becomes(s, s.0.0@),
{
}
proof fn lemma_kept(p: Seq<Sequence>, e: Seq<Sequence>, s: SequenceSet)
    requires
        each_kept(p, e),
        becomes(s, e),
        s.0.0@.len() > 0,
    ensures
        kept(p, s.0.0@),
        p.len() > 0,
{
    assert forall|i: int| 0 <= i < p.len() implies p[i] == e[i] by { assert(kept_seq(p[i], e[i])); }
    assert(p =~= e);
}
//@ literals exact
}
fn main() {}
