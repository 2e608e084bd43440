// ===== letter case =================================================================================

/// Bytes that differ at most in the case of letters.
pub(crate) open spec fn nc(s: Seq<u8>, t: Seq<u8>) -> bool {
    s.len() == t.len() && forall|i: int| #![trigger s[i]] #![trigger t[i]] 0 <= i < s.len() ==> lower(s[i]) == lower(t[i])
}
/// Values built in the same way, by the same closures, from texts that differ at most in the case of letters.
pub(crate) open spec fn alike(v: V, w: V) -> bool
    decreases v,
{
    match v {
        V::U => w is U,
        V::B(a) => w matches V::B(b) && nc(a, b),
        V::N(a) => w == V::N(a),
        V::P(a, b) => match w { V::P(c, d) => alike(*a, *c) && alike(*b, *d), _ => false },
        V::A(k, a) => match w { V::A(l, b) => k == l && alike(*a, *b), _ => false },
    }
}
/// The same verdict, the same number of bytes, values alike.
pub(crate) open spec fn verdicts_alike(r: R, q: R, n: nat) -> bool {
    match r {
        R::Ok(i, v) => i <= n && (match q { R::Ok(j, w) => i == j && alike(v, w), _ => false }),
        R::Lit(i, m, g) => match q { R::Lit(j, l, h) => i == j && m == l && alike(g, h), _ => false },
        R::Inc => q is Inc,
        R::Err => q is Err,
        R::Fail => q is Fail,
    }
}
pub(crate) open spec fn ci_at(p: P, s: Seq<u8>, t: Seq<u8>) -> bool { verdicts_alike(p(s), p(t), s.len()) }
/// The case of letters decides nothing.
pub(crate) closed spec fn ci(p: P) -> bool { forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) ==> #[trigger] ci_at(p, s, t) }
/// The closure `k` accepts both or none of two values that are alike.
pub(crate) open spec fn fair(k: int) -> bool { forall|v: V, w: V| alike(v, w) ==> #[trigger] accepts(k, v) == #[trigger] accepts(k, w) }

pub(crate) proof fn fact_ci(p: P, s: Seq<u8>, t: Seq<u8>)
    requires ci(p), nc(s, t),
    ensures verdicts_alike(p(s), p(t), s.len()),
{
    assert(ci_at(p, s, t));
}
pub(crate) proof fn lemma_nc(s: Seq<u8>, t: Seq<u8>, n: int)
    requires nc(s, t), 0 <= n <= s.len(),
    ensures nc(s.take(n), t.take(n)), nc(s.skip(n), t.skip(n)), n > 0 ==> lower(s[0]) == lower(t[0]),
{
    assert forall|i: int| 0 <= i < s.skip(n).len() implies lower(s.skip(n)[i]) == lower(t.skip(n)[i]) by { assert(lower(s[n + i]) == lower(t[n + i])); }
}
pub(crate) proof fn lemma_alike_self(v: V)
    ensures alike(v, v),
    decreases v,
{
    match v { V::P(a, b) => { lemma_alike_self(*a); lemma_alike_self(*b); }, V::A(k, a) => lemma_alike_self(*a), _ => {} }
}

pub(crate) proof fn lemma_none(v: V, w: V)
    requires alike(v, w),
    ensures (v == none()) == (w == none()),
{
    match (v, w) {
        (V::A(k, a), V::A(l, b)) => {
            assert(alike(*a, *b));
            if *a is U || *b is U { assert(a == b); }
        }
        _ => {}
    }
}

pub(crate) open spec fn letter(b: u8) -> bool { 0x41 <= b <= 0x5a || 0x61 <= b <= 0x7a }
pub(crate) open spec fn letterless(t: Seq<u8>) -> bool
    decreases t.len(),
{
    if t.len() == 0 { true } else { !letter(t.last()) && letterless(t.drop_last()) }
}
pub(crate) proof fn lemma_letterless(t: Seq<u8>)
    requires letterless(t),
    ensures forall|i: int| 0 <= i < t.len() ==> !letter(#[trigger] t[i]),
    decreases t.len(),
{
    if t.len() > 0 {
        lemma_letterless(t.drop_last());
        assert forall|i: int| 0 <= i < t.len() implies !letter(#[trigger] t[i]) by { if i < t.len() - 1 { assert(t[i] == t.drop_last()[i]); } }
    }
}
/// A class of bytes that takes a letter in both cases or in none.
pub(crate) open spec fn cased(c: C) -> bool { forall|b: u8| #[trigger] c(b) == c(lower(b)) }

pub(crate) proof fn lemma_span_nc(c: C, s: Seq<u8>, t: Seq<u8>)
    requires nc(s, t), cased(c),
    ensures span(c, s) == span(c, t), span(c, s) <= s.len(), nc(s.take(span(c, s) as int), t.take(span(c, s) as int)),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(c(s[0]) == c(lower(s[0])));
        assert(c(t[0]) == c(lower(t[0])));
        assert(lower(s[0]) == lower(t[0]));
        lemma_nc(s, t, 1);
        lemma_span_nc(c, s.skip(1), t.skip(1));
    }
    lemma_nc(s, t, span(c, s) as int);
}

pub(crate) proof fn ci_tag(x: Seq<u8>, no: bool)
    requires no || letterless(x),
    ensures ci(tag(x, no)),
{
    if !no { lemma_letterless(x); }
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(tag(x, no), s, t) by {
        assert forall|i: int| 0 <= i < s.len() && i < x.len() implies same(#[trigger] s[i], x[i], no) == same(#[trigger] t[i], x[i], no) by {
            assert(lower(s[i]) == lower(t[i]));
            if !no { assert(!letter(x[i])); }
        }
        let bad_s = exists|i: int| 0 <= i < s.len() && i < x.len() && !same(#[trigger] s[i], x[i], no);
        let bad_t = exists|i: int| 0 <= i < t.len() && i < x.len() && !same(#[trigger] t[i], x[i], no);
        if bad_s {
            let i = choose|i: int| 0 <= i < s.len() && i < x.len() && !same(#[trigger] s[i], x[i], no);
            assert(!same(t[i], x[i], no));
        }
        if bad_t {
            let i = choose|i: int| 0 <= i < t.len() && i < x.len() && !same(#[trigger] t[i], x[i], no);
            assert(!same(s[i], x[i], no));
        }
        if s.len() >= x.len() { lemma_nc(s, t, x.len() as int); }
    }
}
pub(crate) proof fn ci_take_while(c: C)
    requires cased(c),
    ensures ci(take_while(c)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(take_while(c), s, t) by { lemma_span_nc(c, s, t); }
}
pub(crate) proof fn ci_take_while1(c: C)
    requires cased(c),
    ensures ci(take_while1(c)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(take_while1(c), s, t) by { lemma_span_nc(c, s, t); }
}
pub(crate) proof fn ci_take_while_m_n(m: nat, n: nat, c: C)
    requires cased(c),
    ensures ci(take_while_m_n(m, n, c)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(take_while_m_n(m, n, c), s, t) by {
        lemma_span_nc(c, s, t);
        if n <= s.len() { lemma_nc(s, t, n as int); }
    }
}
pub(crate) proof fn ci_one_of(x: Seq<u8>)
    requires letterless(x),
    ensures ci(one_of(x)),
{
    lemma_letterless(x);
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(one_of(x), s, t) by {
        if s.len() > 0 {
            lemma_nc(s, t, 1);
            if x.contains(s[0]) { let i = choose|i: int| 0 <= i < x.len() && x[i] == s[0]; assert(!letter(x[i])); assert(t[0] == x[i]); }
            if x.contains(t[0]) { let i = choose|i: int| 0 <= i < x.len() && x[i] == t[0]; assert(!letter(x[i])); assert(s[0] == x[i]); }
        }
    }
}
pub(crate) proof fn lemma_find_nc(s: Seq<u8>, t: Seq<u8>, x: Seq<u8>)
    requires nc(s, t), letterless(x),
    ensures find(s, x) == find(t, x), find(s, x) matches Some(k) ==> k + x.len() <= s.len(),
    decreases s.len(),
{
    lemma_letterless(x);
    if x.len() <= s.len() {
        if starts(s, x) {
            assert forall|i: int| 0 <= i < x.len() implies t.take(x.len() as int)[i] == x[i] by { assert(s.take(x.len() as int)[i] == s[i]); assert(!letter(x[i])); assert(lower(s[i]) == lower(t[i])); }
            assert(t.take(x.len() as int) =~= x);
        }
        if starts(t, x) {
            assert forall|i: int| 0 <= i < x.len() implies s.take(x.len() as int)[i] == x[i] by { assert(t.take(x.len() as int)[i] == t[i]); assert(!letter(x[i])); assert(lower(s[i]) == lower(t[i])); }
            assert(s.take(x.len() as int) =~= x);
        }
    }
    if s.len() > 0 {
        lemma_nc(s, t, 1);
        lemma_find_nc(s.skip(1), t.skip(1), x);
    }
}
pub(crate) proof fn ci_take_until(x: Seq<u8>)
    requires letterless(x),
    ensures ci(take_until(x)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(take_until(x), s, t) by {
        lemma_find_nc(s, t, x);
        match find(s, x) { Some(k) => lemma_nc(s, t, k as int), None => {} }
    }
}
pub(crate) proof fn ci_success(k: int)
    ensures ci(success(k)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(success(k), s, t) by { lemma_alike_self(V::A(k, Box::new(V::U))); }
}
pub(crate) proof fn ci_failure()
    ensures ci(failure()),
{
}
pub(crate) proof fn ci_error()
    ensures ci(error()),
{
}
pub(crate) proof fn ci_alt(p: P, q: P)
    requires ci(p), ci(q),
    ensures ci(alt(p, q)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(alt(p, q), s, t) by { fact_ci(p, s, t); fact_ci(q, s, t); }
}
/// `q` after the first `n` bytes.
pub(crate) proof fn lemma_then(q: P, s: Seq<u8>, t: Seq<u8>, n: nat)
    requires ci(q), nc(s, t), n <= s.len(),
    ensures verdicts_alike(q(s.skip(n as int)), q(t.skip(n as int)), (s.len() - n) as nat),
{
    lemma_nc(s, t, n as int);
    fact_ci(q, s.skip(n as int), t.skip(n as int));
}
pub(crate) proof fn ci_pair(p: P, q: P)
    requires ci(p), ci(q),
    ensures ci(pair(p, q)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(pair(p, q), s, t) by {
        fact_ci(p, s, t);
        match p(s) { R::Ok(n, v) => lemma_then(q, s, t, n), _ => {} }
    }
}
pub(crate) proof fn lemma_vf(k: int, v: V, w: V)
    requires alike(v, w),
    ensures alike(vf(k, v), vf(k, w)),
{
}
pub(crate) proof fn ci_vmap(p: P, k: int)
    requires ci(p),
    ensures ci(vmap(p, k)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(vmap(p, k), s, t) by { fact_ci(p, s, t); }
}
pub(crate) proof fn ci_filter(p: P, k: int, hard: bool)
    requires ci(p), fair(k),
    ensures ci(filter(p, k, hard)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(filter(p, k, hard), s, t) by {
        fact_ci(p, s, t);
        match (p(s), p(t)) { (R::Ok(n, v), R::Ok(m, w)) => { lemma_vf(k, v, w); assert(accepts(k, v) == accepts(k, w)); }, _ => {} }
    }
}
pub(crate) proof fn lemma_digits_nc(d: Seq<u8>, e: Seq<u8>)
    requires nc(d, e),
    ensures all_digits(d) == all_digits(e), all_digits(d) ==> d == e,
{
    if all_digits(d) {
        assert forall|i: int| 0 <= i < e.len() implies is_digit(#[trigger] e[i]) && e[i] == d[i] by { assert(is_digit(d[i])); assert(lower(d[i]) == lower(e[i])); }
        assert(d =~= e);
    }
    if all_digits(e) {
        assert forall|i: int| 0 <= i < d.len() implies is_digit(#[trigger] d[i]) by { assert(is_digit(e[i])); assert(lower(d[i]) == lower(e[i])); }
    }
}
pub(crate) proof fn ci_decimal(p: P, max: nat)
    requires ci(p), fair(2),
    ensures ci(decimal(p, max)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(decimal(p, max), s, t) by {
        fact_ci(p, s, t);
        match (p(s), p(t)) {
            (R::Ok(n, V::B(d)), R::Ok(m, V::B(e))) => { lemma_digits_nc(d, e); assert(alike(V::B(d), V::B(e))); assert(accepts(2, V::B(d)) == accepts(2, V::B(e))); },
            _ => {}
        }
    }
}
pub(crate) proof fn ci_opt(p: P)
    requires ci(p),
    ensures ci(opt(p)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(opt(p), s, t) by { fact_ci(p, s, t); lemma_alike_self(none()); }
}
pub(crate) proof fn ci_peek(p: P)
    requires ci(p),
    ensures ci(peek(p)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(peek(p), s, t) by { fact_ci(p, s, t); }
}
pub(crate) proof fn ci_recognize(p: P)
    requires ci(p),
    ensures ci(recognize(p)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(recognize(p), s, t) by {
        fact_ci(p, s, t);
        match p(s) { R::Ok(n, v) => lemma_nc(s, t, n as int), _ => {} }
    }
}
pub(crate) proof fn ci_cut(p: P)
    requires ci(p),
    ensures ci(cut(p)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(cut(p), s, t) by { fact_ci(p, s, t); }
}
pub(crate) proof fn lemma_many0_nc(p: P, s: Seq<u8>, t: Seq<u8>)
    requires ci(p), nc(s, t),
    ensures verdicts_alike(many0_r(p, s), many0_r(p, t), s.len()),
    decreases s.len(),
{
    fact_ci(p, s, t);
    match p(s) {
        R::Ok(n, v) => if n > 0 {
            lemma_nc(s, t, n as int);
            lemma_many0_nc(p, s.skip(n as int), t.skip(n as int));
        },
        _ => {}
    }
}
pub(crate) proof fn ci_many0(p: P)
    requires ci(p),
    ensures ci(many0(p)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(many0(p), s, t) by { lemma_many0_nc(p, s, t); }
}
pub(crate) proof fn lemma_more_nc(sep: P, p: P, s: Seq<u8>, t: Seq<u8>)
    requires ci(sep), ci(p), nc(s, t),
    ensures verdicts_alike(more_r(sep, p, s), more_r(sep, p, t), s.len()),
    decreases s.len(),
{
    fact_ci(sep, s, t);
    match sep(s) {
        R::Ok(k, u) => if k > 0 {
            lemma_then(p, s, t, k);
            match p(s.skip(k as int)) {
                R::Ok(n, v) => { lemma_nc(s, t, (k + n) as int); lemma_more_nc(sep, p, s.skip((k + n) as int), t.skip((k + n) as int)); }
                _ => {}
            }
        },
        _ => {}
    }
}
pub(crate) proof fn ci_more(sep: P, p: P)
    requires ci(sep), ci(p),
    ensures ci(more(sep, p)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(more(sep, p), s, t) by { lemma_more_nc(sep, p, s, t); }
}
pub(crate) proof fn ci_unless_err(p: P, q: P)
    requires ci(p), ci(q),
    ensures ci(unless_err(p, q)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(unless_err(p, q), s, t) by { fact_ci(p, s, t); fact_ci(q, s, t); }
}
pub(crate) proof fn lemma_many_nc(lo: nat, hi: nat, p: P, s: Seq<u8>, t: Seq<u8>)
    requires ci(p), nc(s, t),
    ensures verdicts_alike(many_r(lo, hi, p, s), many_r(lo, hi, p, t), s.len()),
    decreases hi,
{
    if hi > 0 {
        fact_ci(p, s, t);
        match p(s) {
            R::Ok(n, v) => if n > 0 {
                lemma_nc(s, t, n as int);
                lemma_many_nc(if lo > 0 { (lo - 1) as nat } else { 0 }, (hi - 1) as nat, p, s.skip(n as int), t.skip(n as int));
            },
            _ => {}
        }
    }
}
pub(crate) proof fn ci_many_m_n(lo: nat, hi: nat, p: P)
    requires ci(p),
    ensures ci(many_m_n(lo, hi, p)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(many_m_n(lo, hi, p), s, t) by { lemma_many_nc(lo, hi, p, s, t); }
}
pub(crate) proof fn lemma_escaped_nc(p: P, ctl: u8, q: P, s: Seq<u8>, t: Seq<u8>)
    requires ci(p), ci(q), !letter(ctl), nc(s, t),
    ensures verdicts_alike(escaped_r(p, ctl, q, s), escaped_r(p, ctl, q, t), s.len()),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_nc(s, t, 1);
        fact_ci(p, s, t);
        match p(s) {
            R::Ok(n, v) => if 0 < n < s.len() {
                lemma_nc(s, t, n as int);
                lemma_escaped_nc(p, ctl, q, s.skip(n as int), t.skip(n as int));
            },
            R::Err => {
                assert((s[0] == ctl) == (t[0] == ctl));
                lemma_then(q, s, t, 1);
                match q(s.skip(1)) {
                    R::Ok(m, w) => if 1 + m < s.len() {
                        lemma_nc(s, t, (1 + m) as int);
                        lemma_escaped_nc(p, ctl, q, s.skip((1 + m) as int), t.skip((1 + m) as int));
                    },
                    _ => {}
                }
            }
            _ => {}
        }
    }
}
pub(crate) proof fn ci_escaped(p: P, ctl: u8, q: P)
    requires ci(p), ci(q), !letter(ctl),
    ensures ci(escaped(p, ctl, q)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(escaped(p, ctl, q), s, t) by {
        lemma_escaped_nc(p, ctl, q, s, t);
        match escaped_r(p, ctl, q, s) { R::Ok(n, v) => lemma_nc(s, t, n as int), _ => {} }
    }
}
pub(crate) proof fn ci_crlf()
    ensures ci(crlf()),
{
    let x = seq![0x0du8, 0x0au8];
    assert(letterless(seq![0x0du8, 0x0au8])) by (compute);
    ci_tag(x, false);
}
pub(crate) proof fn ci_crlf_relaxed()
    ensures ci(crlf_relaxed()),
{
    assert(letterless(seq![0x0du8])) by (compute);
    assert(letterless(seq![0x0au8])) by (compute);
    ci_tag(seq![0x0du8], false);
    ci_tag(seq![0x0au8], false);
    ci_opt(tag(seq![0x0du8], false));
    ci_pair(opt(tag(seq![0x0du8], false)), tag(seq![0x0au8], false));
}
pub(crate) proof fn lemma_at(v: V, w: V, path: Seq<int>)
    requires alike(v, w),
    ensures alike(at(v, path), at(w, path)),
    decreases path.len(),
{
    if path.len() > 0 {
        lemma_vf(path[0], v, w);
        lemma_at(vf(path[0], v), vf(path[0], w), path.skip(1));
    }
}
pub(crate) proof fn ci_take(n: nat)
    ensures ci(take(n)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(take(n), s, t) by { if n <= s.len() { lemma_nc(s, t, n as int); } }
}
pub(crate) proof fn ci_literal(open: Seq<u8>, num: P, nl: P, yes: bool, no: bool)
    requires letterless(open), ci(num), ci(nl),
    ensures ci(literal(open, num, nl, yes, no)),
{
    let plus = seq![0x2bu8];
    let close = seq![0x7du8];
    assert(letterless(seq![0x2bu8])) by (compute);
    assert(letterless(seq![0x7du8])) by (compute);
    ci_tag(open, false);
    ci_tag(plus, false);
    ci_tag(close, false);
    ci_opt(tag(plus, false));
    ci_pair(opt(tag(plus, false)), tag(close, false));
    ci_pair(num, pair(opt(tag(plus, false)), tag(close, false)));
    ci_pair(tag(open, false), pair(num, pair(opt(tag(plus, false)), tag(close, false))));
    let h = pair(prefix(open, num), nl);
    ci_pair(prefix(open, num), nl);
    let len = seq![0int, 1, 0];
    let mode = seq![0int, 1, 1, 0];
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(literal(open, num, nl, yes, no), s, t) by {
        fact_ci(h, s, t);
        match (h(s), h(t)) {
            (R::Ok(n, v), R::Ok(m, w)) => {
                lemma_at(v, w, len);
                lemma_at(v, w, mode);
                lemma_none(at(v, mode), at(w, mode));
                match at(v, len) { V::N(k) => { ci_take(k); lemma_then(take(k), s, t, n); }, _ => {} }
            }
            _ => {}
        }
    }
}
pub(crate) proof fn ci_attempt(p: P, k: int, q: P)
    requires ci(p), ci(q), fair(k),
    ensures ci(attempt(p, k, q)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(attempt(p, k, q), s, t) by {
        fact_ci(p, s, t);
        fact_ci(q, s, t);
        match (p(s), p(t)) { (R::Ok(n, v), R::Ok(m, w)) => { lemma_vf(k, v, w); assert(accepts(k, v) == accepts(k, w)); }, _ => {} }
    }
}
pub(crate) proof fn ci_choose_by(p: P, k: int, a: P, b: P)
    requires ci(p), ci(a), ci(b), fair(k),
    ensures ci(choose_by(p, k, a, b)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(choose_by(p, k, a, b), s, t) by {
        fact_ci(p, s, t);
        fact_ci(a, s, t);
        fact_ci(b, s, t);
        match (p(s), p(t)) { (R::Ok(n, v), R::Ok(m, w)) => { assert(accepts(k, v) == accepts(k, w)); }, _ => {} }
    }
}
pub(crate) proof fn ci_tagged(p: P, q: P)
    requires ci(p), ci(q),
    ensures ci(tagged(p, q)),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| nc(s, t) implies #[trigger] ci_at(tagged(p, q), s, t) by {
        fact_ci(p, s, t);
        match p(s) { R::Ok(n, v) => lemma_then(q, s, t, n), _ => {} }
    }
}
