//@ cfg all-features debug public lift
#![allow(unused, non_snake_case, unused_parens, unused_braces)]
#![verifier::allow(autoderive_clone_without_spec)]
use std::{cmp::Ordering, collections::VecDeque, num::NonZeroU32, ops::{Range, RangeInclusive}, iter::Rev, mem};
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::{OrdSpec, PartialOrdSpec, PartialEqSpec, OrdSpecImpl, PartialOrdSpecImpl, PartialEqSpecImpl};
verus! {

//@ file imap-types/src/core.rs
//@ struct VecN
type Vec1<T> = VecN<T, 1>;
//@ file imap-types/src/sequence.rs
//@ enum SeqOrUid #[derive(Clone, Copy)]
//@ enum Sequence #[derive(Clone)]
//@ struct SequenceSet

// ===== specification ===============================================================================

/// A number is determined by its value.
#[verifier::external_body]
broadcast proof fn axiom_nonzero(a: NonZeroU32, b: NonZeroU32)
    ensures
        #[trigger] a@ == #[trigger] b@ ==> a == b,
{
}

/// ... and it is not zero.
#[verifier::external_body]
broadcast proof fn axiom_positive(a: NonZeroU32)
    ensures
        #[trigger] a@ > 0,
{
}

/// The number that `a` stands for when `l` is the largest.
spec fn num(a: SeqOrUid, l: int) -> int {
    match a { SeqOrUid::Value(n) => n@ as int, SeqOrUid::Asterisk => l }
}

/// Order of sequence numbers: the asterisk above all.
pub open spec fn rank(a: SeqOrUid) -> int {
    match a { SeqOrUid::Value(n) => n@ as int, SeqOrUid::Asterisk => u32::MAX + 1 }
}

spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
spec fn imax(a: int, b: int) -> int { if a <= b { b } else { a } }

/// `x` is selected by `q` when `l` is the largest number.
spec fn in_seq(q: Sequence, l: int, x: int) -> bool {
    match q {
        Sequence::Single(a) => x == num(a, l),
        Sequence::Range(a, b) => imin(num(a, l), num(b, l)) <= x <= imax(num(a, l), num(b, l)),
    }
}

spec fn in_set(s: Seq<Sequence>, l: int, x: int) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] in_seq(s[i], l, x)
}

pub open spec fn order(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}

// ===== order =======================================================================================

impl PartialEqSpecImpl for SeqOrUid {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { rank(*self) == rank(*other) }
}
impl PartialOrdSpecImpl for SeqOrUid {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(order(rank(*self), rank(*other))) }
}
impl OrdSpecImpl for SeqOrUid {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { order(rank(*self), rank(*other)) }
}
/// `#[derive(PartialEq)]`: the same variant with equal fields.
impl PartialEq for SeqOrUid {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { unimplemented!() }
}
impl Eq for SeqOrUid {}

fn vx_cmp(a: &NonZeroU32, b: &NonZeroU32) -> (r: Ordering)
    ensures
        r == order(a@ as int, b@ as int),
{
    let (x, y) = (a.get(), b.get());
    if x < y { Ordering::Less } else if x == y { Ordering::Equal } else { Ordering::Greater }
}

//@ impl PartialOrd for SeqOrUid {
//@ fn partial_cmp -> r
//@ endfn
//@ endimpl

//@ impl Ord for SeqOrUid {
//@ fn cmp -> r
//@ wrap cmp=vx_cmp:own
//@ endfn
//@ endimpl


pub assume_specification<T> [std::mem::replace] (d: &mut T, s: T) -> (r: T)
    ensures
        r == *old(d),
        *final(d) == s,
;

fn vx_unreachable<T>() -> T
    requires
        false,
{
    vstd::pervasive::unreached()
}

//@ path NonZeroU32::MAX=>vx_max()
fn vx_max() -> (r: NonZeroU32)
    ensures
        r@ == u32::MAX,
{
    NonZeroU32::new(u32::MAX).unwrap()
}

//@ impl SeqOrUid {
//@ fn to_non_zero_u32 -> r
    ensures
        r@ == num(*self, u32::MAX as int),
//@ endfn
//@ fn expand -> r
    ensures
        r@ == num(*self, largest@ as int),
//@ endfn
//@ endimpl

impl vstd::std_specs::convert::FromSpecImpl<NonZeroU32> for SeqOrUid {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: NonZeroU32) -> Self {
        if v@ == u32::MAX { SeqOrUid::Asterisk } else { SeqOrUid::Value(v) }
    }
}

//@ impl From<NonZeroU32> for SeqOrUid {
//@ fn from -> r
//@ endfn
//@ endimpl

spec fn sorted(q: Sequence) -> bool {
    q matches Sequence::Range(a, b) ==> rank(a) < rank(b)
}

//@ impl Sequence {
//@ fn normalize -> r
    ensures
        sorted(*r),
        // unchanged in meaning whatever the largest number is
        forall|l: int, x: int| in_seq(*r, l, x) <==> in_seq(*old(self), l, x),
        forall|l: int| #[trigger] pair(*r, l, true) == pair(*old(self), l, true),
        kept_seq(*r, *old(self)),
        *final(self) == *final(r),
//@ guards
//@ endfn
//@ endimpl

/// All numbers of `a` are below all numbers of `b`, whatever the largest is.
spec fn below(a: Sequence, b: Sequence) -> bool {
    imax(rank(lo(a)), rank(hi(a))) < imin(rank(lo(b)), rank(hi(b)))
}
spec fn lo(a: Sequence) -> SeqOrUid { match a { Sequence::Single(x) => x, Sequence::Range(x, _) => x } }
spec fn hi(a: Sequence) -> SeqOrUid { match a { Sequence::Single(x) => x, Sequence::Range(_, x) => x } }

//@ impl PartialOrd for Sequence => impl Sequence {
//@ fn partial_cmp -> r
    ensures
        r == Some(Ordering::Less) <==> below(*self, *other),
        r == Some(Ordering::Greater) <==> below(*other, *self),
        r == Some(Ordering::Equal) <==> (*self is Single && *other is Single && rank(lo(*self)) == rank(lo(*other))),
//@ endfn
//@ endimpl


// ===== iteration ===================================================================================

spec fn pair_in(p: (u32, u32), x: int) -> bool { p.0 <= x <= p.1 }

spec fn pairs_in(s: Seq<(u32, u32)>, x: int) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] pair_in(s[i], x)
}

spec fn pair(q: Sequence, l: int, sort: bool) -> (int, int) {
    match q {
        Sequence::Single(a) => (num(a, l), num(a, l)),
        Sequence::Range(a, b) => if sort { (imin(num(a, l), num(b, l)), imax(num(a, l), num(b, l))) } else { (num(a, l), num(b, l)) },
    }
}

/// `p` are the pairs of the elements of `s`.
spec fn simple(s: Seq<Sequence>, p: Seq<(u32, u32)>, l: int, sort: bool) -> bool {
    &&& p.len() == s.len()
    &&& forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0 == pair(s[i], l, sort).0 && p[i].1 == pair(s[i], l, sort).1 && p[i].0 > 0 && p[i].1 > 0
}

//@ fn simplify -> r
    ensures
        simple(sequence_set.0.0@, r@, largest@ as int, sort),
//@ mapcollect VecDeque::<(u32,u32)>::new() push_back
//@ loop 0 inv it
        invariant
            it.seq() == sequence_set.0.0@,
            vx_c@.len() == it.index@,
            forall|i: int| 0 <= i < vx_c@.len() ==> (#[trigger] vx_c@[i]).0 == pair(sequence_set.0.0@[i], largest@ as int, sort).0
                && vx_c@[i].1 == pair(sequence_set.0.0@[i], largest@ as int, sort).1
                && vx_c@[i].0 > 0 && vx_c@[i].1 > 0,
//@ endfn

/// Sorted, disjoint and not touching.
spec fn clean(s: Seq<(u32, u32)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> 0 < (#[trigger] s[i]).0 <= s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 + 1 < (#[trigger] s[j]).0
}

spec fn pair_le(a: (u32, u32), b: (u32, u32)) -> bool {
    a.0 < b.0 || (a.0 == b.0 && a.1 <= b.1)
}

spec fn valid(s: Seq<(u32, u32)>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> 0 < (#[trigger] s[i]).0 <= s[i].1
}

spec fn is_sorted_of(t: Seq<(u32, u32)>, s: Seq<(u32, u32)>) -> bool {
    &&& t.to_multiset() == s.to_multiset()
    &&& t.len() == s.len()
    &&& forall|i: int, j: int| 0 <= i <= j < t.len() ==> pair_le(#[trigger] t[i], #[trigger] t[j])
}

proof fn lemma_sorted_of(t: Seq<(u32, u32)>, s: Seq<(u32, u32)>)
    requires
        is_sorted_of(t, s),
        valid(s),
    ensures
        valid(t),
        forall|x: int| pairs_in(t, x) <==> pairs_in(s, x),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < t.len() implies 0 < (#[trigger] t[i]).0 <= t[i].1 by {
        assert(t.contains(t[i]));
        assert(s.to_multiset().count(t[i]) > 0);
        assert(s.contains(t[i]));
    }
    assert forall|x: int| pairs_in(t, x) <==> pairs_in(s, x) by {
        if pairs_in(t, x) {
            let i = choose|i: int| 0 <= i < t.len() && #[trigger] pair_in(t[i], x);
            assert(t.contains(t[i]));
            assert(s.to_multiset().count(t[i]) > 0);
            assert(s.contains(t[i]));
            let j = choose|j: int| 0 <= j < s.len() && s[j] == t[i];
            assert(pair_in(s[j], x));
        }
        if pairs_in(s, x) {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] pair_in(s[i], x);
            assert(s.contains(s[i]));
            assert(t.to_multiset().count(s[i]) > 0);
            assert(t.contains(s[i]));
            let j = choose|j: int| 0 <= j < t.len() && t[j] == s[i];
            assert(pair_in(t[j], x));
        }
    }
}

/// One more pair `srt[n]` on the stack.
spec fn added(prev: Seq<(u32, u32)>, p: (u32, u32)) -> Seq<(u32, u32)> {
    let l = prev.last();
    if l.0 <= p.0 <= l.1 + 1 {
        prev.update(prev.len() - 1, (l.0, imax(l.1 as int, p.1 as int) as u32))
    } else {
        prev.push(p)
    }
}

proof fn lemma_cleanup_step(prev: Seq<(u32, u32)>, now: Seq<(u32, u32)>, srt: Seq<(u32, u32)>, n: int)
    requires
        0 < n < srt.len(),
        valid(srt),
        forall|i: int, j: int| 0 <= i <= j < srt.len() ==> pair_le(#[trigger] srt[i], #[trigger] srt[j]),
        clean(prev),
        prev.len() > 0,
        forall|x: int| pairs_in(prev, x) <==> #[trigger] pairs_in(srt.take(n), x),
        prev.last().0 <= srt[n].0,
        now == added(prev, srt[n]),
    ensures
        clean(now),
        now.len() > 0,
        forall|x: int| pairs_in(now, x) <==> #[trigger] pairs_in(srt.take(n + 1), x),
        forall|j: int| n < j < srt.len() ==> now.last().0 <= (#[trigger] srt[j]).0,
{
    let p = srt[n];
    let k = prev.len() - 1;
    assert forall|x: int| pairs_in(now, x) <==> #[trigger] pairs_in(srt.take(n + 1), x) by {
        assert(pairs_in(prev, x) <==> pairs_in(srt.take(n), x));
        if pairs_in(now, x) {
            let i = choose|i: int| 0 <= i < now.len() && #[trigger] pair_in(now[i], x);
            if i < k {
                assert(pair_in(prev[i], x));
            } else if pair_in(p, x) {
                assert(pair_in(srt.take(n + 1)[n], x));
            } else {
                assert(pair_in(prev[k], x));
            }
            if !pair_in(p, x) {
                assert(pairs_in(prev, x));
                let j = choose|j: int| 0 <= j < n && #[trigger] pair_in(srt.take(n)[j], x);
                assert(pair_in(srt.take(n + 1)[j], x));
            }
        }
        if pairs_in(srt.take(n + 1), x) {
            let j = choose|j: int| 0 <= j < n + 1 && #[trigger] pair_in(srt.take(n + 1)[j], x);
            if j < n {
                assert(pair_in(srt.take(n)[j], x));
                let i = choose|i: int| 0 <= i < prev.len() && #[trigger] pair_in(prev[i], x);
                assert(pair_in(now[i], x));
            } else {
                assert(pair_in(now[now.len() - 1], x));
            }
        }
    }
    assert forall|j: int| n < j < srt.len() implies now.last().0 <= (#[trigger] srt[j]).0 by {
        assert(pair_le(srt[n], srt[j]));
    }
    assert forall|i: int, j: int| 0 <= i < j < now.len() implies (#[trigger] now[i]).1 + 1 < (#[trigger] now[j]).0 by {
        if j < prev.len() {
            assert(prev[i].1 + 1 < prev[j].0);
        } else if i < k {
            assert(prev[i].1 + 1 < prev[k].0);
        }
    }
}

/// `[(u32, u32)]::sort`: the same elements, in lexicographic order.
#[verifier::external_body]
fn vx_sort(v: &mut Vec<(u32, u32)>)
    ensures
        is_sorted_of(final(v)@, old(v)@),
{
    v.sort()
}

/// `VecDeque::back_mut`.
#[verifier::external_body]
fn vx_back_mut<T>(d: &mut VecDeque<T>) -> (r: Option<&mut T>)
    ensures
        r is Some <==> old(d)@.len() > 0,
        r matches Some(x) ==> *x == old(d)@.last() && final(d)@ == old(d)@.update(old(d)@.len() - 1, *final(x)),
        r is None ==> final(d)@ == old(d)@,
{
    d.back_mut()
}

/// `VecDeque::into_iter`: all elements in order.
#[verifier::external_body]
fn vx_into_iter<T>(d: VecDeque<T>) -> (r: Vec<T>)
    ensures
        r@ == d@,
{
    d.into()
}

#[verifier::external_body]
fn vx_vec_from<T>(d: VecDeque<T>) -> (r: Vec<T>)
    ensures
        r@ == d@,
{
    Vec::from(d)
}

#[verifier::external_body]
fn vx_deque_from<T>(d: Vec<T>) -> (r: VecDeque<T>)
    ensures
        r@ == d@,
{
    VecDeque::from(d)
}

//@ path max=>vx_cmp_max
fn vx_cmp_max(a: u32, b: u32) -> (r: u32)
    ensures
        r == imax(a as int, b as int),
{
    if a <= b { b } else { a }
}

//@ fn cleanup -> r
//@ wrap sort=vx_sort:mut back_mut=vx_back_mut:mut into_iter=vx_into_iter:own
//@ path Vec::from=>vx_vec_from ;; VecDeque::from=>vx_deque_from
    requires
        remaining@.len() > 0,
        forall|i: int| 0 <= i < remaining@.len() ==> 0 < (#[trigger] remaining@[i]).0 <= remaining@[i].1,
    ensures
        clean(r@),
        r@.len() > 0,
        forall|x: int| #[trigger] pairs_in(r@, x) <==> pairs_in(remaining@, x),
//@ start
    let ghost given = remaining@;
//@ loop 0 before
    let ghost rest = remaining@;
    let ghost srt = seq![stack@[0]] + rest;
    proof {
        assert forall|t: Seq<(u32, u32)>| #[trigger] is_sorted_of(t, given) && t.len() == rest.len() + 1 && t[0] == stack@[0] && t.skip(1) =~= rest implies t =~= srt by {
            assert forall|i: int| 0 <= i < t.len() implies t[i] == srt[i] by {
                if i > 0 { assert(t.skip(1)[i - 1] == rest[i - 1]); }
            }
        }
        assert(is_sorted_of(srt, given));
        lemma_sorted_of(srt, given);
        assert(srt.take(1) =~= stack@);
    }
//@ loop 0 inv it
        invariant
            it.seq() == rest,
            srt == seq![srt[0]] + rest,
            valid(srt),
            forall|i: int, j: int| 0 <= i <= j < srt.len() ==> pair_le(#[trigger] srt[i], #[trigger] srt[j]),
            clean(stack@),
            stack@.len() > 0,
            forall|x: int| pairs_in(stack@, x) <==> #[trigger] pairs_in(srt.take(it.index@ + 1), x),
            forall|j: int| it.index@ < j < srt.len() ==> stack@.last().0 <= (#[trigger] srt[j]).0,
//@ loop 0 start
        let ghost n = it.index@;
        let ghost prev = stack@;
        proof {
            assert(srt[n + 1] == rest[n]);
        }
//@ loop 0 end
        proof {
            assert(stack@ =~= added(prev, srt[n + 1]));
            lemma_cleanup_step(prev, stack@, srt, n + 1);
        }
//@ loop 0 after
    proof {
        assert(srt.take(srt.len() as int) =~= srt);
    }
//@ endfn


//@ struct SequenceSetIter
//@ enum Sorting

/// The numbers from a to b, in that direction.
spec fn span(a: int, b: int) -> Seq<u32> {
    if a <= b { Seq::new((b - a + 1) as nat, |i: int| (a + i) as u32) } else { Seq::new((a - b + 1) as nat, |i: int| (a - i) as u32) }
}

spec fn flat(s: Seq<(u32, u32)>) -> Seq<u32>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { span(s[0].0 as int, s[0].1 as int) + flat(s.skip(1)) }
}

#[verifier::prophetic]
spec fn ahead(s: Sorting) -> Seq<u32> {
    match s { Sorting::Ascending(r) => r.remaining(), Sorting::Descending(r) => r.remaining() }
}

#[verifier::prophetic]
spec fn rest(it: SequenceSetIter) -> Seq<u32> {
    (match it.active_range { Some(s) => ahead(s), None => Seq::empty() }) + flat(it.ranges@)
}

spec fn positive(s: Seq<u32>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] > 0 }

//@ impl Iterator for Sorting => impl Sorting {
//@ fn next -> r
//@ path Self::Item=>u32
//@ sig fn next(&mut self) -> (r: Option<u32>)
    ensures
        ahead(*old(self)).len() == 0 ==> r is None,
        ahead(*old(self)).len() > 0 ==> r == Some(ahead(*old(self))[0]) && ahead(*final(self)) == ahead(*old(self)).skip(1),
//@ endfn
//@ endimpl

//@ impl Iterator for SequenceSetIter => impl SequenceSetIter {
//@ fn next -> r
//@ sig fn next(&mut self) -> (r: Option<NonZeroU32>)
    requires
        positive(rest(*old(self))),
    ensures
        rest(*old(self)).len() == 0 ==> r is None && rest(*final(self)).len() == 0,
        rest(*old(self)).len() > 0 ==> r is Some && r->0@ == rest(*old(self))[0] && rest(*final(self)) == rest(*old(self)).skip(1),
//@ loop 0 inv
        invariant_except_break
            rest(*self) == rest(*old(self)),
        invariant
            positive(rest(*old(self))),
        ensures
            rest(*old(self)).len() == 0 ==> vx_b0 is None && rest(*self).len() == 0,
            rest(*old(self)).len() > 0 ==> vx_b0 is Some && vx_b0->0@ == rest(*old(self))[0] && rest(*self) == rest(*old(self)).skip(1),
        decreases self.ranges@.len(), (if self.active_range is Some { 1int } else { 0int }),
//@ loop 0 start
        let ghost q = self.ranges@;
        let ghost act = self.active_range;
        proof {
            assert(rest(*self).len() > 0 ==> rest(*self)[0] > 0);
            assert(act is Some && ahead(act->0).len() > 0 ==> rest(*self)[0] == ahead(act->0)[0] && rest(*self).skip(1) =~= ahead(act->0).skip(1) + flat(q));
            assert(act is Some && ahead(act->0).len() == 0 ==> rest(*self) =~= Seq::<u32>::empty() + flat(q));
            assert(act is None && q.len() > 0 ==> rest(*self) =~= span(q[0].0 as int, q[0].1 as int) + flat(q.skip(1)));
            assert(act is None && q.len() == 0 ==> rest(*self) =~= Seq::<u32>::empty());
        }
//@ loop 0 end
        proof {
            if act is None {
                assert(self.ranges@ =~= q.skip(1));
                assert(ahead(self.active_range->0) =~= span(q[0].0 as int, q[0].1 as int));
            }
        }
//@ endfn
//@ endimpl


/// `#[derive(Clone)]`.
#[verifier::external_body]
fn vx_clone(s: &SequenceSet) -> (r: SequenceSet)
    ensures
        r == *s,
{
    unimplemented!()
}

/// Expansion element by element, as written.
spec fn naive(s: Seq<Sequence>, l: int) -> Seq<u32>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { span(pair(s[0], l, false).0, pair(s[0], l, false).1) + naive(s.skip(1), l) }
}

proof fn lemma_naive(s: Seq<Sequence>, p: Seq<(u32, u32)>, l: int)
    requires
        p.len() == s.len(),
        forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0 == pair(s[i], l, false).0 && p[i].1 == pair(s[i], l, false).1,
    ensures
        flat(p) == naive(s, l),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(p[0].0 == pair(s[0], l, false).0);
        assert forall|i: int| 0 <= i < p.skip(1).len() implies (#[trigger] p.skip(1)[i]).0 == pair(s.skip(1)[i], l, false).0 && p.skip(1)[i].1 == pair(s.skip(1)[i], l, false).1 by {
            assert(p[i + 1].0 == pair(s[i + 1], l, false).0);
        }
        lemma_naive(s.skip(1), p.skip(1), l);
    }
}

proof fn lemma_positive(p: Seq<(u32, u32)>)
    requires
        forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0 > 0 && p[i].1 > 0,
    ensures
        positive(flat(p)),
    decreases p.len(),
{
    if p.len() > 0 {
        assert(p[0].0 > 0 && p[0].1 > 0);
        assert forall|i: int| 0 <= i < p.skip(1).len() implies (#[trigger] p.skip(1)[i]).0 > 0 && p.skip(1)[i].1 > 0 by {
            assert(p[i + 1].0 > 0);
        }
        lemma_positive(p.skip(1));
    }
}

/// The numbers of clean pairs, strictly increasing, are exactly those in the pairs.
proof fn lemma_flat(p: Seq<(u32, u32)>)
    requires
        clean(p),
    ensures
        forall|i: int, j: int| 0 <= i < j < flat(p).len() ==> flat(p)[i] < flat(p)[j],
        forall|x: u32| #[trigger] flat(p).contains(x) <==> pairs_in(p, x as int),
    decreases p.len(),
{
    if p.len() > 0 {
        let t = p.skip(1);
        let h = span(p[0].0 as int, p[0].1 as int);
        assert(0 < p[0].0 <= p[0].1);
        assert forall|i: int| 0 <= i < t.len() implies 0 < (#[trigger] t[i]).0 <= t[i].1 by { assert(0 < p[i + 1].0 <= p[i + 1].1); }
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).1 + 1 < (#[trigger] t[j]).0 by { assert(p[i + 1].1 + 1 < p[j + 1].0); }
        lemma_flat(t);
        let f = flat(p);
        assert(f == h + flat(t));
        assert forall|x: u32| #[trigger] flat(t).contains(x) implies p[0].1 < x by {
            let i = choose|i: int| 0 <= i < t.len() && #[trigger] pair_in(t[i], x as int);
            assert(p[0].1 + 1 < p[i + 1].0);
        }
        assert forall|i: int, j: int| 0 <= i < j < f.len() implies f[i] < f[j] by {
            if j >= h.len() {
                assert(flat(t).contains(flat(t)[j - h.len()]));
            }
        }
        assert forall|x: u32| #[trigger] f.contains(x) <==> pairs_in(p, x as int) by {
            if f.contains(x) {
                let i = choose|i: int| 0 <= i < f.len() && f[i] == x;
                if i < h.len() {
                    assert(pair_in(p[0], x as int));
                } else {
                    assert(flat(t)[i - h.len()] == x);
                    assert(flat(t).contains(x));
                    let k = choose|k: int| 0 <= k < t.len() && #[trigger] pair_in(t[k], x as int);
                    assert(pair_in(p[k + 1], x as int));
                }
            }
            if pairs_in(p, x as int) {
                let k = choose|k: int| 0 <= k < p.len() && #[trigger] pair_in(p[k], x as int);
                if k == 0 {
                    assert(f[x - p[0].0] == x);
                } else {
                    assert(pair_in(t[k - 1], x as int));
                    assert(flat(t).contains(x));
                    let i = choose|i: int| 0 <= i < flat(t).len() && flat(t)[i] == x;
                    assert(f[i + h.len()] == x);
                }
            }
        }
    } else {
        assert forall|x: u32| #[trigger] flat(p).contains(x) <==> pairs_in(p, x as int) by {}
    }
}

proof fn lemma_pairs(s: Seq<Sequence>, p: Seq<(u32, u32)>, l: int)
    requires
        p.len() == s.len(),
        forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0 == pair(s[i], l, true).0 && p[i].1 == pair(s[i], l, true).1,
    ensures
        forall|x: int| pairs_in(p, x) <==> #[trigger] in_set(s, l, x),
{
    assert forall|x: int| pairs_in(p, x) <==> #[trigger] in_set(s, l, x) by {
        if pairs_in(p, x) {
            let i = choose|i: int| 0 <= i < p.len() && #[trigger] pair_in(p[i], x);
            assert(in_seq(s[i], l, x));
        }
        if in_set(s, l, x) {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] in_seq(s[i], l, x);
            assert(p[i].0 == pair(s[i], l, true).0);
            assert(pair_in(p[i], x));
        }
    }
}

//@ impl SequenceSet {
//@ fn iter -> r
//@ sig fn iter(&self, largest: NonZeroU32) -> (r: SequenceSetIter)
//@ wrap clone=vx_clone:own
    requires
        self.0.0@.len() > 0,
    ensures
        positive(rest(r)),
        forall|i: int, j: int| 0 <= i < j < rest(r).len() ==> rest(r)[i] < rest(r)[j],
        forall|x: u32| #[trigger] rest(r).contains(x) <==> in_set(self.0.0@, largest@ as int, x as int),
//@ end
    proof {
        let p = vx_ret.ranges@;
        assert(rest(vx_ret) =~= flat(p));
        lemma_flat(p);
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).0 > 0 && p[i].1 > 0 by {}
        lemma_positive(p);
        assert forall|q: Seq<(u32, u32)>| #[trigger] simple(self.0.0@, q, largest@ as int, true)
            implies forall|x: int| #[trigger] pairs_in(q, x) <==> in_set(self.0.0@, largest@ as int, x) by {
            lemma_pairs(self.0.0@, q, largest@ as int);
        }
    }
//@ endfn
//@ fn iter_naive -> r
//@ sig fn iter_naive(&self, largest: NonZeroU32) -> (r: SequenceSetIter)
//@ wrap clone=vx_clone:own
    ensures
        rest(r) == naive(self.0.0@, largest@ as int),
        positive(rest(r)),
//@ end
    proof {
        let p = vx_ret.ranges@;
        assert(rest(vx_ret) =~= flat(p));
        lemma_naive(self.0.0@, p, largest@ as int);
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).0 > 0 && p[i].1 > 0 by {}
        lemma_positive(p);
    }
//@ endfn
//@ endimpl


// ===== merging =====================================================================================

spec fn range_in(p: Range<u64>, x: int) -> bool { p.start <= x < p.end }

spec fn ranges_in(s: Seq<Range<u64>>, x: int) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] range_in(s[i], x)
}

spec fn proper(s: Seq<Range<u64>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).start < s[i].end
}

/// Sorted, disjoint and not touching.
spec fn merged_well(s: Seq<Range<u64>>) -> bool {
    &&& proper(s)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).end < (#[trigger] s[j]).start
}

spec fn is_sorted_ranges(t: Seq<Range<u64>>, s: Seq<Range<u64>>) -> bool {
    &&& t.to_multiset() == s.to_multiset()
    &&& t.len() == s.len()
    &&& forall|i: int, j: int| 0 <= i <= j < t.len() ==> (#[trigger] t[i]).start <= (#[trigger] t[j]).start
}

/// `[T]::sort_unstable_by_key`: the same elements, ordered by key.
#[verifier::external_body]
fn vx_sort_by<F: Fn(&Range<u64>) -> u64>(v: &mut Vec<Range<u64>>, f: F)
    requires
        forall|r: &Range<u64>| #[trigger] f.requires((r,)),
        // the key is the start
        forall|r: &Range<u64>, k: u64| #[trigger] f.ensures((r,), k) ==> k == r.start,
    ensures
        is_sorted_ranges(final(v)@, old(v)@),
{
    v.sort_unstable_by_key(f)
}

#[verifier::external_body]
fn vx_clone_range(r: &Range<u64>) -> (c: Range<u64>)
    ensures
        c == *r,
{
    r.clone()
}

fn vx_id<T>(v: T) -> (r: T)
    ensures
        r == v,
{
    v
}

#[verifier::external_body]
fn vx_skip<T>(v: Vec<T>, n: usize) -> (r: Vec<T>)
    ensures
        r@ == v@.skip(if n <= v@.len() { n as int } else { v@.len() as int }),
{
    v.into_iter().skip(n).collect()
}

fn vx_max_u64(a: u64, b: u64) -> (r: u64)
    ensures
        r == imax(a as int, b as int),
{
    if a <= b { b } else { a }
}

proof fn lemma_sorted_ranges(t: Seq<Range<u64>>, s: Seq<Range<u64>>)
    requires
        is_sorted_ranges(t, s),
        proper(s),
    ensures
        proper(t),
        forall|x: int| ranges_in(t, x) <==> #[trigger] ranges_in(s, x),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).start < t[i].end by {
        assert(t.contains(t[i]));
        assert(s.to_multiset().count(t[i]) > 0);
        assert(s.contains(t[i]));
    }
    assert forall|x: int| ranges_in(t, x) <==> #[trigger] ranges_in(s, x) by {
        if ranges_in(t, x) {
            let i = choose|i: int| 0 <= i < t.len() && #[trigger] range_in(t[i], x);
            assert(t.contains(t[i]));
            assert(s.to_multiset().count(t[i]) > 0);
            assert(s.contains(t[i]));
            let j = choose|j: int| 0 <= j < s.len() && s[j] == t[i];
            assert(range_in(s[j], x));
        }
        if ranges_in(s, x) {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] range_in(s[i], x);
            assert(s.contains(s[i]));
            assert(t.to_multiset().count(s[i]) > 0);
            assert(t.contains(s[i]));
            let j = choose|j: int| 0 <= j < t.len() && t[j] == s[i];
            assert(range_in(t[j], x));
        }
    }
}

spec fn merged_with(prev: Seq<Range<u64>>, p: Range<u64>) -> Seq<Range<u64>> {
    let l = prev.last();
    if p.start <= l.end {
        prev.update(prev.len() - 1, Range { start: l.start, end: imax(l.end as int, p.end as int) as u64 })
    } else {
        prev.push(p)
    }
}

proof fn lemma_merge_step(prev: Seq<Range<u64>>, now: Seq<Range<u64>>, srt: Seq<Range<u64>>, n: int)
    requires
        0 < n < srt.len(),
        proper(srt),
        forall|i: int, j: int| 0 <= i <= j < srt.len() ==> (#[trigger] srt[i]).start <= (#[trigger] srt[j]).start,
        merged_well(prev),
        prev.len() > 0,
        forall|x: int| ranges_in(prev, x) <==> #[trigger] ranges_in(srt.take(n), x),
        prev.last().start <= srt[n].start,
        now == merged_with(prev, srt[n]),
    ensures
        merged_well(now),
        now.len() > 0,
        forall|x: int| ranges_in(now, x) <==> #[trigger] ranges_in(srt.take(n + 1), x),
        forall|j: int| n < j < srt.len() ==> now.last().start <= (#[trigger] srt[j]).start,
{
    let p = srt[n];
    let k = prev.len() - 1;
    assert(prev[k].start < prev[k].end);
    assert forall|x: int| ranges_in(now, x) <==> #[trigger] ranges_in(srt.take(n + 1), x) by {
        assert(ranges_in(prev, x) <==> ranges_in(srt.take(n), x));
        if ranges_in(now, x) {
            let i = choose|i: int| 0 <= i < now.len() && #[trigger] range_in(now[i], x);
            if i < k {
                assert(range_in(prev[i], x));
            } else if range_in(p, x) {
                assert(range_in(srt.take(n + 1)[n], x));
            } else {
                assert(range_in(prev[k], x));
            }
            if !range_in(p, x) {
                assert(ranges_in(prev, x));
                let j = choose|j: int| 0 <= j < n && #[trigger] range_in(srt.take(n)[j], x);
                assert(range_in(srt.take(n + 1)[j], x));
            }
        }
        if ranges_in(srt.take(n + 1), x) {
            let j = choose|j: int| 0 <= j < n + 1 && #[trigger] range_in(srt.take(n + 1)[j], x);
            if j < n {
                assert(range_in(srt.take(n)[j], x));
                let i = choose|i: int| 0 <= i < prev.len() && #[trigger] range_in(prev[i], x);
                assert(range_in(now[i], x));
            } else {
                assert(range_in(now[now.len() - 1], x));
            }
        }
    }
    assert forall|j: int| n < j < srt.len() implies now.last().start <= (#[trigger] srt[j]).start by {
        assert(srt[n].start <= srt[j].start);
    }
    assert forall|i: int, j: int| 0 <= i < j < now.len() implies (#[trigger] now[i]).end < (#[trigger] now[j]).start by {
        if j < prev.len() {
            assert(prev[i].end < prev[j].start);
        } else if i < k {
            assert(prev[i].end < prev[k].start);
        }
    }
}

//@ fn merge_ranges -> r
//@ sig fn merge_ranges(mut ranges: Vec<Range<u64>>) -> (r: Vec<Range<u64>>)
//@ wrap sort_unstable_by_key=vx_sort_by:mut clone=vx_clone_range:ref into_iter=vx_id:own skip=vx_skip:own max=vx_max_u64:own
//@ closure 0 |r: &Range<u64>| -> (k: u64) ensures k == r.start
    requires
        proper(ranges@),
    ensures
        merged_well(r@),
        forall|x: int| #[trigger] ranges_in(r@, x) <==> ranges_in(ranges@, x),
//@ start
    let ghost given = ranges@;
//@ loop 0 before
    let ghost srt = ranges@;
    proof {
        lemma_sorted_ranges(srt, given);
        assert(srt.take(1) =~= merged@);
    }
//@ loop 0 inv it
        invariant
            it.seq() == srt.skip(1),
            srt.len() > 0,
            srt.skip(1).len() == srt.len() - 1,
            forall|x: int| ranges_in(srt, x) <==> #[trigger] ranges_in(given, x),
            proper(srt),
            forall|i: int, j: int| 0 <= i <= j < srt.len() ==> (#[trigger] srt[i]).start <= (#[trigger] srt[j]).start,
            merged_well(merged@),
            merged@.len() > 0,
            forall|x: int| ranges_in(merged@, x) <==> #[trigger] ranges_in(srt.take(it.index@ + 1), x),
            forall|j: int| it.index@ < j < srt.len() ==> merged@.last().start <= (#[trigger] srt[j]).start,
//@ loop 0 start
        let ghost n = it.index@;
        let ghost prev = merged@;
        proof {
            assert(srt.skip(1)[n] == srt[n + 1]);
        }
//@ loop 0 end
        proof {
            assert(merged@ =~= merged_with(prev, srt[n + 1]));
            lemma_merge_step(prev, merged@, srt, n + 1);
        }
//@ loop 0 after
    proof {
        assert(srt.take(srt.len() as int) =~= srt);
        assert forall|x: int| #[trigger] ranges_in(merged@, x) <==> ranges_in(given, x) by {
            assert(srt.take(srt.skip(1).len() as int + 1) =~= srt);
            assert(ranges_in(srt.take(srt.skip(1).len() as int + 1), x) == ranges_in(srt, x));
        }
    }
//@ endfn


// ===== normalisation ===============================================================================

/// `u32::MAX` and `*` are the same to the library.
spec fn star(a: SeqOrUid) -> SeqOrUid {
    match a { SeqOrUid::Value(n) => if n@ == u32::MAX { SeqOrUid::Asterisk } else { a }, _ => a }
}
spec fn star_seq(q: Sequence) -> Sequence {
    match q { Sequence::Single(a) => Sequence::Single(star(a)), Sequence::Range(a, b) => Sequence::Range(star(a), star(b)) }
}
/// `x` is selected by `s` when `l` is the largest number and `u32::MAX` is read as `*`.
spec fn selects(s: Seq<Sequence>, l: int, x: int) -> bool {
    exists|i: int| 0 <= i < s.len() && in_seq(star_seq(#[trigger] s[i]), l, x)
}

spec fn top() -> int { u32::MAX as int }

spec fn range_of(q: Sequence) -> Range<u64> {
    Range { start: pair(q, top(), true).0 as u64, end: (pair(q, top(), true).1 + 1) as u64 }
}

/// `q` is the canonical way to write the numbers in `r`.
spec fn writes(q: Sequence, r: Range<u64>) -> bool {
    if r.end == r.start + 1 {
        q matches Sequence::Single(a) && num(a, top()) == r.start && star(a) == a
    } else {
        q matches Sequence::Range(a, b) && num(a, top()) == r.start && num(b, top()) == r.end - 1 && star(a) == a && star(b) == b
    }
}

spec fn within(s: Seq<Range<u64>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> 1 <= (#[trigger] s[i]).start < s[i].end <= top() + 1
}

/// `s` is the canonical way to write the numbers in `m`.
spec fn canonical(s: Seq<Sequence>, m: Seq<Range<u64>>) -> bool {
    &&& merged_well(m)
    &&& within(m)
    &&& s.len() == m.len()
    &&& forall|i: int| 0 <= i < s.len() ==> writes(#[trigger] s[i], m[i])
}

/// `m` are the numbers named by `s`, with `*` named `u32::MAX`.
spec fn names(s: Seq<Sequence>, m: Seq<Range<u64>>) -> bool {
    forall|x: int| #[trigger] ranges_in(m, x) <==> exists|i: int| 0 <= i < s.len() && range_in(range_of(#[trigger] s[i]), x)
}


proof fn lemma_range_of(q: Sequence)
    ensures
        1 <= range_of(q).start < range_of(q).end <= top() + 1,
        range_of(q).start == pair(q, top(), true).0,
        range_of(q).end == pair(q, top(), true).1 + 1,
{
    broadcast use axiom_positive;
}

//@ impl SequenceSet {
//@ fn normalize -> r
    requires
        old(self).0.0@.len() > 0,
    ensures
        exists|m: Seq<Range<u64>>| canonical(r.0.0@, m) && names(old(self).0.0@, m),
        *final(self) == *final(r),
//@ start
    let ghost given = self.0.0@;
//@ loop 0 inv it
        invariant
            it.seq().len() == given.len(),
            self.0.0@.len() == given.len(),
            forall|i: int| vx_i0 <= i < given.len() ==> self.0.0@[i] == given[i],
            ranges@.len() == vx_i0,
            forall|i: int| 0 <= i < vx_i0 ==> #[trigger] ranges@[i] == range_of(given[i]),
//@ loop 0 start
        proof {
            lemma_range_of(given[vx_i0 as int]);
            assert forall|q: Sequence| #[trigger] sorted(q) && pair(q, top(), true) == pair(given[vx_i0 as int], top(), true)
                implies pair(q, top(), false) == pair(given[vx_i0 as int], top(), true) by {
                    broadcast use axiom_positive;
                }
        }
//@ loop 0 end
        proof {
            let q = self.0.0@[vx_i0 as int];
            assert(sorted(q) && pair(q, top(), true) == pair(given[vx_i0 as int], top(), true));
            assert(ranges@[vx_i0 as int].start == pair(q, top(), false).0);
            assert(ranges@[vx_i0 as int].end == pair(q, top(), false).1 + 1);
        }
//@ loop 0 after
    let ghost all = ranges@;
    proof {
        assert forall|i: int| 0 <= i < all.len() implies (#[trigger] all[i]).start < all[i].end by { lemma_range_of(given[i]); }
    }
//@ loop 1 before
    proof {
        assert forall|mm: Seq<Range<u64>>| #[trigger] merged_well(mm) && (forall|x: int| #[trigger] ranges_in(mm, x) <==> ranges_in(all, x)) implies names(given, mm) && within(mm) by {
            lemma_names(given, all, mm);
        }
    }
    let ghost m = vx_e1@;
//@ loop 1 inv it hoist
        invariant
            canonical(self.0.0@, it.seq().take(it.index@)),
            merged_well(it.seq()),
            within(it.seq()),
            names(given, it.seq()),
            m == it.seq(),
//@ loop 1 start
        let ghost n = it.index@;
        let ghost prev = self.0.0@;
        let ghost ms = m;
//@ loop 1 end
        proof {
            let t = ms.take(n + 1);
            assert(merged_well(t));
            assert(within(t));
            assert forall|i: int| 0 <= i < self.0.0@.len() implies writes(#[trigger] self.0.0@[i], t[i]) by {
                if i < n { assert(writes(prev[i], ms.take(n)[i])); }
            }
        }
//@ loop 1 after
    proof { assert(m.take(m.len() as int) =~= m); }
//@ endfn
//@ endimpl

proof fn lemma_names(given: Seq<Sequence>, all: Seq<Range<u64>>, mm: Seq<Range<u64>>)
    requires
        merged_well(mm),
        all.len() == given.len(),
        forall|i: int| 0 <= i < all.len() ==> #[trigger] all[i] == range_of(given[i]),
        forall|x: int| #[trigger] ranges_in(mm, x) <==> ranges_in(all, x),
    ensures
        names(given, mm),
        within(mm),
{
    assert forall|x: int| #[trigger] ranges_in(mm, x) <==> exists|i: int| 0 <= i < given.len() && range_in(range_of(#[trigger] given[i]), x) by {
        if ranges_in(all, x) {
            let i = choose|i: int| 0 <= i < all.len() && #[trigger] range_in(all[i], x);
            assert(range_in(range_of(given[i]), x));
        }
        if exists|i: int| 0 <= i < given.len() && range_in(range_of(#[trigger] given[i]), x) {
            let i = choose|i: int| 0 <= i < given.len() && range_in(range_of(#[trigger] given[i]), x);
            assert(range_in(all[i], x));
        }
    }
    assert forall|k: int| 0 <= k < mm.len() implies 1 <= (#[trigger] mm[k]).start < mm[k].end <= top() + 1 by {
        assert(mm[k].start < mm[k].end);
        assert(range_in(mm[k], mm[k].start as int));
        assert(ranges_in(mm, mm[k].start as int));
        let i = choose|i: int| 0 <= i < given.len() && range_in(range_of(#[trigger] given[i]), mm[k].start as int);
        lemma_range_of(given[i]);
        assert(range_in(mm[k], mm[k].end - 1));
        assert(ranges_in(mm, mm[k].end - 1));
        let j = choose|i: int| 0 <= i < given.len() && range_in(range_of(#[trigger] given[i]), mm[k].end - 1);
        lemma_range_of(given[j]);
    }
}


proof fn lemma_selects_one(q: Sequence, l: int, x: int)
    requires
        1 <= x <= l <= top(),
    ensures
        in_seq(star_seq(q), l, x) <==> range_in(range_of(q), x) || (x == l && range_in(range_of(q), top())),
{
    broadcast use axiom_positive;
    lemma_range_of(q);
}

spec fn named(s: Seq<Sequence>, x: int) -> bool {
    exists|i: int| 0 <= i < s.len() && range_in(range_of(#[trigger] s[i]), x)
}

proof fn lemma_selects(s: Seq<Sequence>, l: int, x: int)
    requires
        1 <= x <= l <= top(),
    ensures
        selects(s, l, x) <==> named(s, x) || (x == l && named(s, top())),
{
    if selects(s, l, x) {
        let i = choose|i: int| 0 <= i < s.len() && in_seq(star_seq(#[trigger] s[i]), l, x);
        lemma_selects_one(s[i], l, x);
    }
    if named(s, x) {
        let i = choose|i: int| 0 <= i < s.len() && range_in(range_of(#[trigger] s[i]), x);
        lemma_selects_one(s[i], l, x);
    }
    if x == l && named(s, top()) {
        let i = choose|i: int| 0 <= i < s.len() && range_in(range_of(#[trigger] s[i]), top());
        lemma_selects_one(s[i], l, x);
    }
}

proof fn lemma_canonical_names(s: Seq<Sequence>, m: Seq<Range<u64>>)
    requires
        canonical(s, m),
    ensures
        names(s, m),
{
    assert forall|i: int| 0 <= i < s.len() implies range_of(#[trigger] s[i]) == m[i] by {
        lemma_range_of(s[i]);
        assert(writes(s[i], m[i]));
        assert(m[i].start < m[i].end);
    }
    assert forall|x: int| #[trigger] ranges_in(m, x) <==> named(s, x) by {
        if ranges_in(m, x) {
            let i = choose|i: int| 0 <= i < m.len() && #[trigger] range_in(m[i], x);
            assert(range_in(range_of(s[i]), x));
        }
        if named(s, x) {
            let i = choose|i: int| 0 <= i < s.len() && range_in(range_of(#[trigger] s[i]), x);
            assert(range_in(m[i], x));
        }
    }
}

/// Normalising changes neither what a set selects nor which sets are selected by it, whatever the largest number.
proof fn theorem_meaning(given: Seq<Sequence>, new: Seq<Sequence>, m: Seq<Range<u64>>)
    requires
        canonical(new, m),
        names(given, m),
    ensures
        forall|l: int, x: int| 1 <= x <= l <= top() ==> (#[trigger] selects(new, l, x) <==> selects(given, l, x)),
{
    lemma_canonical_names(new, m);
    assert forall|l: int, x: int| 1 <= x <= l <= top() implies (#[trigger] selects(new, l, x) <==> selects(given, l, x)) by {
        lemma_selects(new, l, x);
        lemma_selects(given, l, x);
        assert(ranges_in(m, x) <==> named(given, x));
        assert(ranges_in(m, x) <==> named(new, x));
        assert(ranges_in(m, top()) <==> named(given, top()));
        assert(ranges_in(m, top()) <==> named(new, top()));
    }
}

proof fn lemma_tail(m: Seq<Range<u64>>)
    requires
        merged_well(m),
        m.len() > 0,
    ensures
        merged_well(m.skip(1)),
        forall|x: int| #[trigger] ranges_in(m.skip(1), x) <==> ranges_in(m, x) && x >= m[0].end,
        forall|x: int| #[trigger] ranges_in(m, x) ==> x >= m[0].start,
        !ranges_in(m, m[0].end as int),
{
    let t = m.skip(1);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).start < t[i].end by { assert(m[i + 1].start < m[i + 1].end); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).end < (#[trigger] t[j]).start by { assert(m[i + 1].end < m[j + 1].start); }
    assert forall|x: int| #[trigger] ranges_in(t, x) <==> ranges_in(m, x) && x >= m[0].end by {
        if ranges_in(t, x) {
            let i = choose|i: int| 0 <= i < t.len() && #[trigger] range_in(t[i], x);
            assert(range_in(m[i + 1], x));
            assert(m[0].end < m[i + 1].start);
        }
        if ranges_in(m, x) && x >= m[0].end {
            let i = choose|i: int| 0 <= i < m.len() && #[trigger] range_in(m[i], x);
            assert(range_in(t[i - 1], x));
        }
    }
    assert forall|x: int| #[trigger] ranges_in(m, x) implies x >= m[0].start by {
        let i = choose|i: int| 0 <= i < m.len() && #[trigger] range_in(m[i], x);
        if i > 0 { assert(m[0].end < m[i].start); }
        assert(m[0].start < m[0].end);
    }
    if ranges_in(m, m[0].end as int) {
        let i = choose|i: int| 0 <= i < m.len() && #[trigger] range_in(m[i], m[0].end as int);
        if i > 0 { assert(m[0].end < m[i].start); }
    }
}

/// There is one way to merge.
proof fn lemma_unique(a: Seq<Range<u64>>, b: Seq<Range<u64>>)
    requires
        merged_well(a),
        merged_well(b),
        forall|x: int| #[trigger] ranges_in(a, x) <==> ranges_in(b, x),
    ensures
        a =~= b,
    decreases a.len(),
{
    if a.len() == 0 {
        if b.len() > 0 {
            assert(b[0].start < b[0].end);
            assert(range_in(b[0], b[0].start as int));
            assert(ranges_in(a, b[0].start as int));
        }
    } else {
        assert(a[0].start < a[0].end);
        assert(range_in(a[0], a[0].start as int));
        assert(ranges_in(a, a[0].start as int));
        assert(b.len() > 0);
        assert(b[0].start < b[0].end);
        assert(range_in(b[0], b[0].start as int));
        assert(ranges_in(a, b[0].start as int));
        lemma_tail(a);
        lemma_tail(b);
        assert(a[0].start == b[0].start);
        if a[0].end < b[0].end {
            assert(range_in(b[0], a[0].end as int));
            assert(ranges_in(a, a[0].end as int));
        }
        if b[0].end < a[0].end {
            assert(range_in(a[0], b[0].end as int));
            assert(ranges_in(a, b[0].end as int));
        }
        assert forall|x: int| #[trigger] ranges_in(a.skip(1), x) <==> ranges_in(b.skip(1), x) by {
            assert(ranges_in(a, x) <==> ranges_in(b, x));
            assert(ranges_in(b.skip(1), x) <==> ranges_in(b, x) && x >= b[0].end);
        }
        lemma_unique(a.skip(1), b.skip(1));
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
            if i > 0 { assert(a.skip(1)[i - 1] == b.skip(1)[i - 1]); }
        }
    }
}

/// Sets that select the same numbers (whatever the largest) are normalised to the same set.
/// Normalising twice is the case `given2 == new1`.
proof fn theorem_normal_form(given1: Seq<Sequence>, new1: Seq<Sequence>, m1: Seq<Range<u64>>, given2: Seq<Sequence>, new2: Seq<Sequence>, m2: Seq<Range<u64>>)
    requires
        canonical(new1, m1),
        names(given1, m1),
        canonical(new2, m2),
        names(given2, m2),
        forall|x: int| 1 <= x <= top() ==> (#[trigger] selects(given1, top(), x) <==> selects(given2, top(), x)),
    ensures
        new1 =~= new2,
{
    broadcast use axiom_nonzero;
    assert forall|x: int| #[trigger] ranges_in(m1, x) <==> ranges_in(m2, x) by {
        assert(ranges_in(m1, x) <==> named(given1, x));
        assert(ranges_in(m2, x) <==> named(given2, x));
        if 1 <= x <= top() {
            lemma_selects(given1, top(), x);
            lemma_selects(given2, top(), x);
            assert(selects(given1, top(), x) <==> selects(given2, top(), x));
        }
        if named(given1, x) {
            let i = choose|i: int| 0 <= i < given1.len() && range_in(range_of(#[trigger] given1[i]), x);
            lemma_range_of(given1[i]);
        }
        if named(given2, x) {
            let i = choose|i: int| 0 <= i < given2.len() && range_in(range_of(#[trigger] given2[i]), x);
            lemma_range_of(given2[i]);
        }
    }
    lemma_unique(m1, m2);
    assert forall|i: int| 0 <= i < new1.len() implies new1[i] == new2[i] by {
        assert(writes(new1[i], m1[i]));
        assert(writes(new2[i], m2[i]));
        assert(m1[i].start < m1[i].end);
    }
}

proof fn theorem_idempotent(given: Seq<Sequence>, new: Seq<Sequence>, m: Seq<Range<u64>>, again: Seq<Sequence>, m2: Seq<Range<u64>>)
    requires
        canonical(new, m),
        names(given, m),
        canonical(again, m2),
        names(new, m2),
    ensures
        again =~= new,
{
    theorem_meaning(given, new, m);
    assert forall|x: int| 1 <= x <= top() implies (#[trigger] selects(given, top(), x) <==> selects(new, top(), x)) by {
        assert(selects(new, top(), x) <==> selects(given, top(), x));
    }
    theorem_normal_form(given, new, m, new, again, m2);
}


// ===== on the wire =================================================================================

//@ include seqtext.inc
//@ include wire.inc

/// The same numbers, whatever the largest.
spec fn kept_seq(p: Sequence, q: Sequence) -> bool {
    &&& forall|l: int, x: int| in_seq(p, l, x) <==> in_seq(q, l, x)
    &&& forall|l: int| #[trigger] pair(p, l, true) == pair(q, l, true)
}
proof fn lemma_kept_seq(q: Sequence)
    ensures
        kept_seq(q, q),
{
}
/// The same messages, with the number 2^32-1 for the asterisk.
spec fn kept(p: Seq<Sequence>, q: Seq<Sequence>) -> bool { forall|l: int, x: int| 1 <= x <= l <= top() ==> (#[trigger] selects(p, l, x) <==> selects(q, l, x)) }
/// What normalising makes of it.
spec fn becomes(s: SequenceSet, e: Seq<Sequence>) -> bool { e == s.0.0@ || exists|m: Seq<Range<u64>>| #[trigger] canonical(e, m) && names(s.0.0@, m) }
proof fn lemma_becomes(s: SequenceSet) {}
proof fn lemma_kept(p: Seq<Sequence>, e: Seq<Sequence>, s: SequenceSet)
    requires
        each_kept(p, e),
        becomes(s, e),
        s.0.0@.len() > 0,
    ensures
        kept(p, s.0.0@),
        p.len() > 0,
{
    let given = s.0.0@;
    if e != given {
        let m = choose|m: Seq<Range<u64>>| #[trigger] canonical(e, m) && names(given, m);
        theorem_meaning(given, e, m);
        lemma_range_of(given[0]);
        let x = range_of(given[0]).start as int;
        assert(range_in(range_of(given[0]), x));
        assert(ranges_in(m, x));
    }
    assert forall|l: int, x: int| 1 <= x <= l <= top() implies (#[trigger] selects(p, l, x) <==> selects(given, l, x)) by {
        lemma_selects(p, l, x);
        lemma_selects(e, l, x);
        assert(selects(e, l, x) <==> selects(given, l, x));
        lemma_same_named(p, e, x);
        lemma_same_named(p, e, top());
    }
}
proof fn lemma_same_named(p: Seq<Sequence>, e: Seq<Sequence>, x: int)
    requires
        each_kept(p, e),
    ensures
        named(p, x) <==> named(e, x),
{
    assert forall|i: int| 0 <= i < p.len() implies range_of(#[trigger] p[i]) == range_of(e[i]) by {
        assert(kept_seq(p[i], e[i]));
        assert(pair(p[i], top(), true) == pair(e[i], top(), true));
    }
    if named(p, x) { let i = choose|i: int| 0 <= i < p.len() && range_in(range_of(#[trigger] p[i]), x); assert(range_in(range_of(e[i]), x)); }
    if named(e, x) { let i = choose|i: int| 0 <= i < e.len() && range_in(range_of(#[trigger] e[i]), x); assert(range_in(range_of(p[i]), x)); }
}
fn vx_clone_seq(s: &Sequence) -> (r: Sequence)
    ensures
        r == *s,
{
    match s { Sequence::Single(a) => Sequence::Single(*a), Sequence::Range(a, b) => Sequence::Range(*a, *b) }
}
//@ literals exact
}
fn main() {}
