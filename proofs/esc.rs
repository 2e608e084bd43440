//@ cfg ext_utf8 debug
#![allow(unused, non_snake_case, unused_parens, unused_braces)]
use std::borrow::Cow;
use vstd::prelude::*;
use vstd::string::*;
verus! {

//@ include esc.inc

// ===== the property =================================================================================

/// Escaping marks exactly the double quotes and backslashes.
proof fn theorem_escape(s: Seq<char>)
    ensures
        s.len() == 0 ==> esc(s) == s,
        forall|c: char, t: Seq<char>| s == seq![c] + t ==> #[trigger] esc(seq![c] + t) == (if c == '\\' || c == '"' { seq!['\\', c] } else { seq![c] }) + esc(t),
{
    assert forall|c: char, t: Seq<char>| s == seq![c] + t implies #[trigger] esc(seq![c] + t) == (if c == '\\' || c == '"' { seq!['\\', c] } else { seq![c] }) + esc(t) by {
        assert((seq![c] + t).skip(1) =~= t);
    }
}
/// Every text is given back.
fn theorem_inverse(s: &str)
{
    let e = escape_quoted(s);
    let e2: &str = vx_deref(&e);
    let u = unescape_quoted(e2);
    assert(u@ == s@);
}
#[verifier::external_body]
fn vx_deref<'a>(c: &'a Cow<'a, str>) -> (r: &'a str)
    ensures
        r@ == c@,
{
    c
}
/// What a quoted string may hold on the wire: backslashes only before a backslash or a double quote, no other double quote.
spec fn on_wire(w: Seq<char>) -> bool
    decreases w.len(),
{
    if w.len() == 0 {
        true
    } else if w[0] == '\\' {
        w.len() > 1 && (w[1] == '\\' || w[1] == '"') && on_wire(w.skip(2))
    } else {
        w[0] != '"' && on_wire(w.skip(1))
    }
}
spec fn meant(w: Seq<char>) -> Seq<char>
    decreases w.len(),
{
    if w.len() == 0 {
        w
    } else if w[0] == '\\' && w.len() > 1 {
        seq![w[1]] + meant(w.skip(2))
    } else {
        seq![w[0]] + meant(w.skip(1))
    }
}
proof fn lemma_on_wire(w: Seq<char>)
    requires
        on_wire(w),
    ensures
        esc(meant(w)) == w,
    decreases w.len(),
{
    if w.len() > 0 {
        if w[0] == '\\' {
            lemma_on_wire(w.skip(2));
            assert(meant(w).skip(1) =~= meant(w.skip(2)));
            assert(w =~= seq![w[0], w[1]] + w.skip(2));
        } else {
            lemma_on_wire(w.skip(1));
            assert(meant(w).skip(1) =~= meant(w.skip(1)));
            assert(w =~= seq![w[0]] + w.skip(1));
        }
    }
}
/// Every quoted string the grammar allows is read as what it means.
fn theorem_meant(w: &str)
    requires
        on_wire(w@),
{
    proof { lemma_on_wire(w@); }
    let u = unescape_quoted(w);
    assert(u@ == meant(w@));
}

} // verus!
fn main() {}
