//! The terms of `parsers.rs` as Verus text: a specification function per parser, and proofs of its contract.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use crate::{
    lost,
    parsers::{fname, Arg, Gen, T},
};

#[derive(Clone, Copy, PartialEq, Debug)]
struct Fa {
    nolit: bool,
    pos: bool,
    numeral: bool,
}

pub struct Em<'g, 'a> {
    g: &'g Gen<'a>,
    fa: BTreeMap<String, Fa>,
    sh: BTreeMap<(String, bool), Option<bool>>,
    dn: BTreeMap<(String, bool), bool>,
    rank: HashMap<String, usize>,
    tables: Vec<Vec<bool>>,
    /// emit the contracts about letter case
    case: bool,
    /// closures that judge
    judges: BTreeSet<usize>,
}

/// Closures of which it is known that the case of letters does not change what they accept; the texts are part of the
/// trusted base of unit `case`.
fn fair(text: &str) -> bool {
    let test = |m: &str| text.strip_prefix("if ").and_then(|t| t.split_once('.')).is_some_and(|(x, r)| x.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') && r == m);
    let ignoring_case = text.strip_prefix("if ").and_then(|t| t.split_once(".eq_ignore_ascii_case(")).is_some_and(|(x, r)| {
        let lit = r.trim_start_matches('b');
        x.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') && lit.starts_with('"') && lit.ends_with("\")") && lit.matches('"').count() == 2
    });
    ignoring_case
        || test("is_some()")
        || test("is_none()")
        || ["map_res NonZeroU32::try_from", "map_res NonZeroU64::try_from", "map_res from_utf8", "map_opt |date|date"].contains(&text)
        // grammars closed under letter case, and contents
        || ["matchLiteral::try_from(data){", "match(date,time,zone){", "ifletOk(entry)=Entry::try_from(astring){", "map_res |input|_base64.decode(input)"].iter().any(|p| text.starts_with(p))
        || (text.starts_with("map_res |input:&[u8]|") && text.contains("_base64.decode("))
}

fn bytes(t: &[u8]) -> String {
    if t.is_empty() {
        return "Seq::<u8>::empty()".into();
    }
    format!("seq![{}]", t.iter().map(|b| format!("{b:#04x}u8")).collect::<Vec<_>>().join(", "))
}
fn tame(t: &[bool]) -> Option<bool> {
    if t[10] || t[13] {
        None
    } else {
        Some(!t[0x7b])
    }
}
fn fits(t: &[u8], a: bool) -> Option<bool> {
    if t.iter().any(|b| *b == 10 || *b == 13) {
        return None;
    }
    let mut s = a;
    for b in t {
        match b {
            0x22 => s = true,
            0x7b => s = false,
            _ => {}
        }
    }
    Some(s)
}

/// A comparison with a text that has letters.
fn exact(text: &str) -> bool {
    text.strip_prefix("if ").and_then(|t| t.split_once("==")).is_some_and(|(x, r)| {
        let lit = r.trim().trim_start_matches('b');
        x.trim().bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') && lit.starts_with('"') && lit.ends_with('"') && lit.matches('"').count() == 2 && lit.bytes().any(|b| b.is_ascii_alphabetic())
    })
}

impl<'g, 'a> Em<'g, 'a> {
    pub fn new(g: &'g Gen<'a>, case: bool) -> Self {
        let mut e = Em { case, judges: BTreeSet::new(), g, fa: BTreeMap::new(), sh: BTreeMap::new(), dn: BTreeMap::new(), rank: HashMap::new(), tables: vec![] };
        for k in g.defs.keys() {
            e.fa.insert(k.clone(), Fa { nolit: true, pos: true, numeral: true });
            for a in [false, true] {
                e.sh.insert((k.clone(), a), Some(true));
                e.dn.insert((k.clone(), a), true);
            }
        }
        loop {
            let mut changed = false;
            for (k, d) in &g.defs {
                let f = e.facets(&d.term);
                if e.fa[k] != f {
                    e.fa.insert(k.clone(), f);
                    changed = true;
                }
                for a in [false, true] {
                    let s = e.shape(&d.term, a);
                    if e.sh[&(k.clone(), a)] != s {
                        e.sh.insert((k.clone(), a), s);
                        changed = true;
                    }
                    let s = e.done(&d.term, a);
                    if e.dn[&(k.clone(), a)] != s {
                        e.dn.insert((k.clone(), a), s);
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        // calls with the same number must descend in rank
        for k in g.defs.keys() {
            e.set_rank(k, &mut vec![]);
        }
        e
    }
    fn set_rank(&mut self, k: &str, stack: &mut Vec<String>) -> usize {
        if let Some(r) = self.rank.get(k) {
            return *r;
        }
        if stack.iter().any(|s| s == k) {
            // no measure: the verifier will say so
            return 0;
        }
        stack.push(k.to_string());
        let mut cs = vec![];
        calls(&self.g.defs[k].term, &mut cs);
        let mut r = 0;
        for (c, a) in cs {
            if !matches!(a, Arg::Pred | Arg::Over(_)) && self.g.defs.contains_key(&c) {
                r = r.max(self.set_rank(&c, stack) + 1);
            }
        }
        stack.pop();
        self.rank.insert(k.to_string(), r);
        r
    }

    /// Does it reach itself?
    fn loops(&self, k: &str) -> bool {
        let mut seen = BTreeSet::new();
        let mut todo = vec![k.to_string()];
        while let Some(x) = todo.pop() {
            let mut cs = vec![];
            calls(&self.g.defs[&x].term, &mut cs);
            for (c, _) in cs {
                if c == k {
                    return true;
                }
                if self.g.defs.contains_key(&c) && seen.insert(c.clone()) {
                    todo.push(c);
                }
            }
        }
        false
    }

    // ----- what the lemmas will give

    fn facets(&self, t: &T) -> Fa {
        let f = |nolit, pos| Fa { nolit, pos, numeral: false };
        match t {
            T::Tag(t, _) => f(true, !t.is_empty()),
            T::Run(_) | T::Until(_) | T::Success(_) | T::Escaped(..) => f(true, false),
            T::Run1(_) | T::OneOf(_) | T::Fail | T::Error | T::Crlf | T::CrlfRelaxed => f(true, true),
            T::RunMN(m, n, _) => f(true, *m > 0 && m <= n),
            T::Map(x, _) | T::Filter(x, ..) | T::Recognize(x) | T::Cut(x) => {
                let x = self.facets(x);
                f(x.nolit, x.pos)
            }
            T::Dec(x, m) => {
                let y = self.facets(x);
                let digital = matches!(&**x, T::Run1(t) if t.iter().enumerate().all(|(b, c)| !c || (b as u8).is_ascii_digit()));
                Fa { nolit: y.nolit, pos: y.pos, numeral: digital && *m <= u32::MAX as u128 }
            }
            T::Opt(x) | T::Peek(x) | T::Many0(x) => f(self.facets(x).nolit, false),
            T::Alt(x, y) | T::Attempt(x, _, y) => {
                let (x, y) = (self.facets(x), self.facets(y));
                f(x.nolit && y.nolit, x.pos && y.pos)
            }
            T::Pair(x, y) | T::Tagged(x, y) => {
                let (x, y) = (self.facets(x), self.facets(y));
                f(x.nolit && y.nolit, x.pos || y.pos)
            }
            T::More(x, y) => f(self.facets(x).nolit && self.facets(y).nolit, false),
            T::Unless(_, y) => f(self.facets(y).nolit, false),
            T::ManyMN(l, h, x) => f(self.facets(x).nolit, *l > 0 && h >= l),
            T::Literal(..) => f(false, true),
            T::Choose(p, _, x, y) => {
                let (p, x, y) = (self.facets(p), self.facets(x), self.facets(y));
                f(p.nolit && x.nolit && y.nolit, x.pos && y.pos)
            }
            T::Call(k, _) => self.fa.get(k).copied().unwrap_or(f(false, false)),
            T::Without(..) => f(false, false),
            _ => f(false, false),
        }
    }
    fn shape(&self, t: &T, a: bool) -> Option<bool> {
        match t {
            T::Tag(t, _) => fits(t, a),
            T::Run(t) | T::Run1(t) | T::RunMN(_, _, t) => Some(tame(t)? && a),
            T::OneOf(t) => fits(t, a).map(|_| false),
            T::Success(_) => Some(a),
            T::Fail | T::Error => Some(true),
            T::Map(x, _) | T::Filter(x, ..) | T::Dec(x, _) | T::Recognize(x) | T::Cut(x) => self.shape(x, a),
            T::Opt(x) => Some(self.shape(x, a)? && a),
            T::Peek(x) => self.shape(x, a).map(|_| a),
            T::Alt(x, y) | T::Attempt(x, _, y) => Some(self.shape(x, a)? & self.shape(y, a)?),
            T::Pair(x, y) | T::Tagged(x, y) => {
                let m = self.shape(x, a)?;
                self.shape(y, m)
            }
            T::Many0(x) => {
                if !a || self.shape(x, a)? {
                    self.shape(x, a)?;
                    Some(a)
                } else {
                    self.shape(x, false)?;
                    Some(false)
                }
            }
            T::More(s, x) => {
                let m = self.shape(s, a)?;
                let c = self.shape(x, m)?;
                if !a || c {
                    Some(a)
                } else {
                    let m = self.shape(s, false)?;
                    self.shape(x, m)?;
                    Some(false)
                }
            }
            T::Unless(_, y) => Some(self.shape(y, a)? && a),
            T::Escaped(x, c, y) => {
                let ok = matches!(&**x, T::Run1(t) if tame(t).is_some()) && matches!(&**y, T::OneOf(t) if fits(t, false).is_some()) && *c != 10 && *c != 13;
                if ok {
                    Some(false)
                } else {
                    None
                }
            }
            T::Literal(o, n, nl, ..) => {
                if self.facets(n).numeral && o.last() == Some(&0x7b) && matches!(**nl, T::Crlf | T::CrlfRelaxed) {
                    Some(true)
                } else {
                    None
                }
            }
            T::Choose(p, _, x, y) => {
                self.shape(p, a)?;
                Some(self.shape(x, a)? & self.shape(y, a)?)
            }
            T::Call(k, _) => self.sh.get(&(k.clone(), a)).copied().flatten(),
            _ => None,
        }
    }
    /// A run of bytes among which are line breaks.
    fn culprit(&self, t: &T) -> Option<Vec<bool>> {
        match t {
            T::Run(c) | T::Run1(c) | T::RunMN(_, _, c) => (c[10] || c[13]).then(|| c.clone()),
            T::Map(x, _) | T::Filter(x, ..) | T::Dec(x, _) | T::Recognize(x) | T::Cut(x) | T::Opt(x) | T::Peek(x) | T::Many0(x) | T::ManyMN(_, _, x) => self.culprit(x),
            T::Alt(x, y) | T::Attempt(x, _, y) | T::Pair(x, y) | T::Tagged(x, y) | T::More(x, y) | T::Unless(x, y) | T::Escaped(x, _, y) => self.culprit(x).or_else(|| self.culprit(y)),
            T::Choose(p, _, x, y) => self.culprit(p).or_else(|| self.culprit(x)).or_else(|| self.culprit(y)),
            _ => None,
        }
    }
    fn done(&self, t: &T, a: bool) -> bool {
        match t {
            T::Crlf | T::CrlfRelaxed => a,
            T::Fail | T::Error => true,
            T::Map(x, _) | T::Filter(x, ..) | T::Cut(x) => self.done(x, a),
            T::Alt(x, y) => self.done(x, a) && self.done(y, a),
            T::Pair(x, y) | T::Tagged(x, y) => self.shape(x, a).is_some_and(|m| self.done(y, m)),
            T::Call(k, _) => self.dn.get(&(k.clone(), a)).copied().unwrap_or(false),
            _ => false,
        }
    }

    // ----- text

    fn table(&mut self, t: &[bool]) -> usize {
        if let Some(i) = self.tables.iter().position(|x| x == t) {
            return i;
        }
        self.tables.push(t.to_vec());
        self.tables.len() - 1
    }
    /// Whose value it is.
    fn made(&mut self, t: &T, g: &str) -> String {
        match t {
            T::Map(x, k) => format!("    made_vmap({}, {k}, {g});\n", self.text(x)),
            T::Filter(x, k, h) => format!("    made_filter({}, {k}, {h}, {g});\n", self.text(x)),
            T::Alt(x, y) => {
                let p = self.made(x, g);
                let q = self.made(y, g);
                format!("{p}{q}    made_alt({}, {}, {g});\n", self.text(x), self.text(y))
            }
            T::Call(k, _) => {
                let d = lower_leaf(&self.g.defs[k].term);
                let p = self.made(&d, g);
                format!("    {}\n{p}    assert({} == {});\n", reveal(&fname(k), false), self.text(t), self.text(&d))
            }
            _ => "    assert(false); // soft: another shape\n".into(),
        }
    }
    fn single(&mut self, t: &T, g: &str) -> String {
        match t {
            T::Tag(..) => format!("    within_tag({}, {g});\n", bytes_of(t)),
            T::Alt(x, y) => {
                let p = self.single(x, g);
                let q = self.single(y, g);
                format!("{p}{q}    within_alt({}, {}, {g});\n", self.text(x), self.text(y))
            }
            _ => "    assert(false); // soft: another shape\n".into(),
        }
    }
    fn arg(&self, k: &str, a: &Arg) -> String {
        if !self.g.defs.get(k).is_some_and(|d| d.param) {
            return String::new();
        }
        match a {
            Arg::Const(n) => format!("{n}"),
            Arg::Param => "n".into(),
            Arg::Pred => "(n - 1) as nat".into(),
            Arg::Over(x) => x.clone(),
            Arg::None => lost(format!("{k}: no recursion argument")),
        }
    }
    /// The term, with the texts of its parts.
    fn head(&mut self, t: &T, sub: &mut dyn FnMut(&mut Self, &T) -> String) -> String {
        match t {
            T::Tag(t, nc) => format!("tag({}, {nc})", bytes(t)),
            T::Run(c) => format!("take_while(cls_{}())", self.table(c)),
            T::Run1(c) => format!("take_while1(cls_{}())", self.table(c)),
            T::RunMN(m, n, c) => format!("take_while_m_n({m}, {n}, cls_{}())", self.table(c)),
            T::OneOf(t) => format!("one_of({})", bytes(t)),
            T::Until(t) => format!("take_until({})", bytes(t)),
            T::Success(k) => format!("success({k})"),
            T::Fail => "failure()".into(),
            T::Error => "error()".into(),
            T::Crlf => "crlf()".into(),
            T::CrlfRelaxed => "crlf_relaxed()".into(),
            T::Pair(x, y) => format!("pair({}, {})", sub(self, x), sub(self, y)),
            T::Alt(x, y) => format!("alt({}, {})", sub(self, x), sub(self, y)),
            T::Tagged(x, y) => format!("tagged({}, {})", sub(self, x), sub(self, y)),
            T::More(x, y) => format!("more({}, {})", sub(self, x), sub(self, y)),
            T::Unless(x, y) => format!("unless_err({}, {})", sub(self, x), sub(self, y)),
            T::Map(x, k) => format!("vmap({}, {k})", sub(self, x)),
            T::Filter(x, k, h) => format!("filter({}, {k}, {h})", sub(self, x)),
            T::Dec(x, m) => format!("decimal({}, {m})", sub(self, x)),
            T::Opt(x) => format!("opt({})", sub(self, x)),
            T::Peek(x) => format!("peek({})", sub(self, x)),
            T::Recognize(x) => format!("recognize({})", sub(self, x)),
            T::Cut(x) => format!("cut({})", sub(self, x)),
            T::Many0(x) => format!("many0({})", sub(self, x)),
            T::ManyMN(l, h, x) => format!("many_m_n({l}, {h}, {})", sub(self, x)),
            T::Escaped(x, c, y) => format!("escaped({}, {c}, {})", sub(self, x), sub(self, y)),
            T::Literal(o, n, l, y, no) => format!("literal({}, {}, {}, {y}, {no})", bytes(o), sub(self, n), sub(self, l)),
            T::Attempt(x, k, y) => format!("attempt({}, {k}, {})", sub(self, x), sub(self, y)),
            T::Choose(p, k, x, y) => format!("choose_by({}, {k}, {}, {})", sub(self, p), sub(self, x), sub(self, y)),
            T::Call(k, a) => format!("{}({})", fname(k), self.arg(k, a)),
            T::Without(n, _) => format!("without({})", n.bytes().fold(7u64, |h, b| (h * 31 + b as u64) % 1000003)),
            _ => lost(format!("term {t:?}")),
        }
    }
    fn text(&mut self, t: &T) -> String {
        self.head(t, &mut |s, t| s.text(t))
    }

    pub fn emit(&mut self) -> Vec<(String, String, String, usize)> {
        let mut out = vec![];
        let keys = self.g.order.clone();
        // parsers whose framing matters
        let mut framed = BTreeSet::new();
        let mut todo: Vec<(String, bool)> = keys.iter().filter(|k| k.ends_with("command::command")).map(|k| (k.clone(), true)).collect();
        // and the numbers of literals
        for k in &keys {
            let mut v = vec![];
            literals(&self.g.defs[k].term, &mut v);
            v.iter().for_each(|n| self.demand(n, false, &mut todo));
        }
        while let Some((k, a)) = todo.pop() {
            if framed.insert((k.clone(), a)) {
                let t = self.g.defs[&k].term.clone();
                if self.dn[&(k.clone(), a)] {
                    self.demand_dn(&t, a, &mut todo);
                } else {
                    self.demand(&t, a, &mut todo);
                }
            }
        }
        for k in &keys {
            let d = &self.g.defs[k];
            let (param, guard, term, file, line, panics) = (d.param, d.guard, d.term.clone(), d.file.clone(), d.line, d.panics.clone());
            let n = fname(k);
            let label = format!("{file}: {}", k.rsplit("::").next().unwrap());
            let sig = if param { "n: nat" } else { "" };
            let call = format!("{n}({})", if param { "n" } else { "" });
            let dec = if param {
                format!("    decreases n, {}nat,\n", self.rank[k])
            } else if self.loops(k) {
                "    decreases 0nat, // nothing bounds this recursion\n".to_string()
            } else {
                String::new()
            };
            let mut shown = reveal(&n, param);
            if param {
                // the functions it recurs through
                let mut cs = vec![];
                calls(&term, &mut cs);
                let mut cs: Vec<String> = cs.into_iter().map(|c| c.0).filter(|c| c != k && self.g.defs.get(c).is_some_and(|d| d.param)).collect();
                cs.sort();
                cs.dedup();
                cs.iter().for_each(|c| shown += &format!(" {}", reveal(&fname(c), true)));
            }
            let text = self.text(&term);
            let body = if guard { format!("if n == 0 {{ failure() }} else {{ {text} }}") } else { text.clone() };
            out.push((n.clone(), format!("#[verifier::opaque]\nspec fn {n}({sig}) -> P\n{dec}{{\n    {body}\n}}\n"), label.clone(), line));
            let wrap = |b: &str, f: &str| if guard { format!("    if n == 0 {{\n        {f}_failure();\n    }} else {{\n{b}    }}\n") } else { b.to_string() };
            if self.case {
                let mut p = Proof::default();
                let v = self.caseless(&term, &mut p);
                let b = wrap(&format!("{}    assert({call} == {v});\n", p.text), "ci");
                out.push((format!("c_{n}"), format!("proof fn c_{n}({sig})\n    requires contents_alike(),\n    ensures ci({call}),\n{dec}{{\n    {shown}\n{b}}}\n"), label.clone(), line));
                continue;
            }
            let wrap = |b: &str| wrap(b, "good");
            let fa = self.fa[k];
            // contract: verdicts
            let mut modes = vec![];
            let mut p = Proof::default();
            let v = self.good(&term, &mut p, &mut modes);
            let mut ens = format!("good({call})");
            if fa.nolit {
                ens += &format!(", nolit({call})");
            }
            if fa.pos {
                ens += &format!(", pos({call})");
            }
            if fa.numeral {
                ens += &format!(", numeral({call})");
            }
            for (i, (o, y, no)) in modes.iter().enumerate() {
                let _ = o;
                out.push((
                    format!("m_{n}_{i}"),
                    format!("/// a literal with a plus is non-synchronizing, one without is synchronizing\nproof fn m_{n}_{i}()\n    ensures {y}, !{no},\n{{\n}}\n"),
                    label.clone(),
                    line,
                ));
            }
            let mut b = p.text.clone();
            for (i, _) in modes.iter().enumerate() {
                b = format!("    m_{n}_{i}();\n{b}");
            }
            if fa.numeral {
                if let T::Dec(x, m) = &term {
                    if let T::Run1(c) = &**x {
                        let c = self.table(c);
                        b += &format!("    assert(digital(cls_{c}()));\n    numeral_decimal(cls_{c}(), {m});\n");
                    }
                }
            }
            let b = wrap(&format!("{b}    assert({call} == {v});\n"));
            out.push((format!("g_{n}"), format!("proof fn g_{n}({sig})\n    ensures {ens},\n{dec}{{\n{HIDE}    {}\n{b}}}\n", shown), label.clone(), line));
            // contract: framing
            for a in [true, false] {
                if !framed.contains(&(k.clone(), a)) {
                    continue;
                }
                let mut p = Proof::default();
                let v = self.good(&term, &mut p, &mut vec![]);
                let ens = if self.dn[&(k.clone(), a)] {
                    self.prove_dn(&term, a, &mut p);
                    format!("dn({call}, {a})")
                } else {
                    match self.prove_sh(&term, a, &mut p) {
                        Some(b) => format!("sh({call}, {a}, {b})"),
                        None => {
                            match self.culprit(&term) {
                                Some(c) => {
                                    let c = self.table(&c);
                                    p.text += &format!("    assert(tame(cls_{c}(), false)); // the parser takes bytes beyond the line\n");
                                }
                                None => p.text += "    assert(false); // soft: no framing is known for this parser\n",
                            }
                            format!("sh({call}, {a}, false)")
                        }
                    }
                };
                let mut b = p.text.clone();
                for (i, _) in modes.iter().enumerate() {
                    b = format!("    m_{n}_{i}();\n{b}");
                }
                let b = wrap(&format!("{b}    assert({call} == {v});\n"));
                let s = if a { "s" } else { "u" };
                out.push((format!("{s}_{n}"), format!("proof fn {s}_{n}({sig})\n    ensures {ens},\n{dec}{{\n{HIDE}    {}\n{b}}}\n", shown), label.clone(), line));
            }
            // the tag of a request for a literal
            if k.ends_with("command::command") {
                let mut q = Proof::default();
                let b = match &term {
                    T::Map(x, site) if matches!(**x, T::Tagged(..)) && *site >= 3 => {
                        let T::Tagged(x, y) = &**x else { unreachable!() };
                        let u = self.good(x, &mut q, &mut vec![]);
                        let y = self.text(y);
                        format!("{}    let y = {y};\n    fact_tagged({u}, y, {site}, s, t);\n    assert({call} == vmap(tagged({u}, y), {site}));\n", q.text)
                    }
                    _ => "    assert(false); // soft: no tag is filled in\n".into(),
                };
                out.push((
                    format!("t_{n}"),
                    format!("proof fn t_{n}(s: Seq<u8>, t: Seq<u8>)\n    ensures\n        {call}(s) matches R::Lit(i, m, g) ==> tag_of(g) is Some && ({call}(s + t) matches R::Ok(j, v) ==> tag_of(g) == Some(vf(0, under(v)))),\n{{\n    {shown}\n{b}}}\n"),
                    label.clone(),
                    line,
                ));
            }
            // no panic where a value is unwrapped
            let mut b = String::new();
            let mut ens = vec![];
            let mut seen = BTreeSet::new();
            for (kind, t) in &panics {
                let t = lower_leaf(t);
                let x = self.text(&t);
                if !seen.insert((kind.clone(), x.clone())) {
                    continue;
                }
                let (head, arg) = kind.split_once(':').unwrap_or((kind, ""));
                let nums: Vec<u128> = arg.split(',').filter_map(|x| x.parse().ok()).collect();
                match head {
                    "made" => {
                        let g = format!("k_{n}_{}", ens.len());
                        out.push((g.clone(), format!("spec fn {g}() -> spec_fn(int) -> bool {{ |k: int| {} }}\n", nums.iter().map(|k| format!("k == {k}")).collect::<Vec<_>>().join(" || ")), label.clone(), line));
                        ens.push(format!("made({x}, {g}())"));
                        b += &self.made(&t, &format!("{g}()"));
                        continue;
                    }
                    "reached" => {
                        ens.push(format!("made({x}, none_made())"));
                        b += "    assert(false); // an arm that is unreachable!() is for a value this can be\n";
                        continue;
                    }
                    "bytes" => {
                        let mut c = vec![false; 256];
                        nums.iter().for_each(|k| c[*k as usize] = true);
                        let c = self.table(&c);
                        ens.push(format!("within({x}, cls_{c}()), one({x})"));
                        b += &self.single(&t, &format!("cls_{c}()"));
                        continue;
                    }
                    "atleast" => {
                        let c: Vec<bool> = (0..256u128).map(|k| k >= nums[0]).collect();
                        let c = self.table(&c);
                        ens.push(format!("within({x}, cls_{c}())"));
                        match &t {
                            T::RunMN(l, h, k) => {
                                let k = self.table(k);
                                b += &format!("    within_take_while_m_n({l}, {h}, cls_{k}(), cls_{c}());\n")
                            }
                            _ => b += "    assert(false); // soft: another shape\n",
                        }
                        continue;
                    }
                    "small" => {
                        ens.push(format!("small({x}, {arg})"));
                        let mut d = t.clone();
                        while let T::Call(k, _) = &d {
                            if self.g.defs[k].param || self.g.defs[k].guard {
                                break;
                            }
                            b += &format!("    {}\n", reveal(&fname(k), false));
                            d = lower_leaf(&self.g.defs[k].term);
                        }
                        let dt = self.text(&d);
                        match &d {
                            T::Dec(y, most) if matches!(**y, T::RunMN(..)) => {
                                let T::RunMN(l, h, c) = &**y else { unreachable!() };
                                let c = self.table(c);
                                b += &format!("    assert(digital(cls_{c}()));\n    small_decimal({l}, {h}, cls_{c}(), {most}, {arg});\n    assert({x} == {dt});\n");
                            }
                            _ => b += "    assert(false); // soft: another shape\n",
                        }
                        continue;
                    }
                    "last" => {
                        ens.push("forall|l: int| l > 0 ==> 0 <= #[trigger] less_one(l) < l".into());
                        continue;
                    }
                    "init" => {
                        ens.push("forall|l: int| l >= 0 ==> 0 <= #[trigger] less_one(l) <= l".into());
                        continue;
                    }
                    _ => {}
                }
                ens.push(match kind.as_str() {
                    "some" => format!("nonempty({x})"),
                    "two" | "one" | "filled" => format!("{kind}({x})"),
                    "ascii" => format!("within({x}, g_ascii())"),
                    g => format!("within({x}, {g}())"),
                });
                let class = if kind == "ascii" { "g_ascii()".to_string() } else { format!("{kind}()") };
                match (kind.as_str(), &t) {
                    ("one", T::RunMN(l, h, c)) => {
                        let c = self.table(c);
                        b += &format!("    one_take_while_m_n({l}, {h}, cls_{c}());\n")
                    }
                    ("some", T::Pair(..)) => {
                        if let T::Pair(p, q) = &t {
                            b += &format!("    nonempty_pair({}, {});\n", self.text(p), self.text(q));
                        }
                    }
                    ("two", T::ManyMN(l, h, p)) => {
                        b += &format!("    two_many_m_n({l}, {h}, {});\n", self.text(p));
                    }
                    // may be empty
                    ("some", T::Unless(..) | T::Many0(..) | T::Opt(..)) | ("two", T::Pair(..) | T::Unless(..) | T::Many0(..)) | ("filled", T::Run(..)) => {}
                    ("one" | "some" | "two", _) => b += "    assert(false); // soft: another shape\n",
                    ("filled", T::Run1(c)) => {
                        let c = self.table(c);
                        b += &format!("    within_take_while1(cls_{c}(), cls_{c}());\n")
                    }
                    ("filled", T::RunMN(l, h, c)) => {
                        let c = self.table(c);
                        b += &format!("    within_take_while_m_n({l}, {h}, cls_{c}(), cls_{c}());\n")
                    }
                    (_, T::Run1(c)) => {
                        let c = self.table(c);
                        b += &format!("    within_take_while1(cls_{c}(), {class});\n")
                    }
                    (_, T::Run(c)) => {
                        let c = self.table(c);
                        b += &format!("    within_take_while(cls_{c}(), {class});\n")
                    }
                    (_, T::RunMN(l, h, c)) => {
                        let c = self.table(c);
                        b += &format!("    within_take_while_m_n({l}, {h}, cls_{c}(), {class});\n")
                    }
                    (_, T::Escaped(p, c, q)) if matches!((&**p, &**q), (T::Run1(_), T::OneOf(_))) => {
                        if let (T::Run1(k), T::OneOf(o)) = (&**p, &**q) {
                            let k = self.table(k);
                            b += &format!("    assert(all_in({o}, {class})) by (compute);\n    within_escaped(cls_{k}(), {c}, {o}, {class});\n", o = bytes(o));
                        }
                    }
                    _ => b += "    assert(false); // soft: another shape\n",
                }
            }
            if !ens.is_empty() {
                out.push((format!("a_{n}"), format!("proof fn a_{n}({sig})\n    ensures {},\n{{\n{b}}}\n", ens.join(", ")), label.clone(), line));
            }
        }
        // classes of bytes
        let mut cls = String::new();
        for (i, t) in self.tables.iter().enumerate() {
            let mut rs = vec![];
            let mut x = 0;
            while x < 256 {
                if t[x] {
                    let s = x;
                    while x < 256 && t[x] {
                        x += 1;
                    }
                    rs.push(if s == x - 1 { format!("b == {s:#04x}") } else { format!("{s:#04x} <= b <= {:#04x}", x - 1) });
                } else {
                    x += 1;
                }
            }
            if rs.is_empty() {
                rs.push("false".into());
            }
            cls += &format!("spec fn cls_{i}() -> C {{ |b: u8| {} }}\n", rs.join(" || "));
        }
        if self.case {
            let fs: Vec<String> = std::iter::once(2).chain(self.judges.iter().copied()).map(|k| format!("    &&& fair({k}) // {}\n", if k == 2 { "str::parse of what is not digits" } else { self.g.sites[k - 3].0.split('\n').next().unwrap() })).collect();
            cls += &format!("/// Contents that are judged by a closure: alike if they differ in letter case only.\nspec fn contents_alike() -> bool {{\n{}}}\n", fs.concat());
        }
        out.insert(0, ("classes".into(), cls, "classes of bytes".into(), 0));
        out
    }

    fn demand(&self, t: &T, a: bool, out: &mut Vec<(String, bool)>) {
        match t {
            T::Call(k, _) => out.push((k.clone(), a)),
            T::Map(x, _) | T::Filter(x, ..) | T::Dec(x, _) | T::Recognize(x) | T::Cut(x) | T::Opt(x) | T::Peek(x) => self.demand(x, a, out),
            T::Alt(x, y) | T::Attempt(x, _, y) => {
                self.demand(x, a, out);
                self.demand(y, a, out);
            }
            T::Pair(x, y) | T::Tagged(x, y) => {
                self.demand(x, a, out);
                if let Some(m) = self.shape(x, a) {
                    self.demand(y, m, out);
                }
            }
            T::Many0(x) => {
                self.demand(x, a, out);
                if a && self.shape(x, a) != Some(true) {
                    self.demand(x, false, out);
                }
            }
            T::More(s, x) => {
                for a in [a, false] {
                    self.demand(s, a, out);
                    if let Some(m) = self.shape(s, a) {
                        self.demand(x, m, out);
                        if !a || self.shape(x, m) == Some(true) {
                            break;
                        }
                    }
                }
            }
            T::Unless(_, y) => self.demand(y, a, out),
            T::Literal(_, n, ..) => self.demand(n, false, out),
            T::Choose(p, _, x, y) => {
                self.demand(p, a, out);
                self.demand(x, a, out);
                self.demand(y, a, out);
            }
            _ => {}
        }
    }
    fn demand_dn(&self, t: &T, a: bool, out: &mut Vec<(String, bool)>) {
        match t {
            T::Call(k, _) => out.push((k.clone(), a)),
            T::Map(x, _) | T::Filter(x, ..) | T::Cut(x) => self.demand_dn(x, a, out),
            T::Alt(x, y) => {
                self.demand_dn(x, a, out);
                self.demand_dn(y, a, out);
            }
            T::Pair(x, y) | T::Tagged(x, y) => {
                self.demand(x, a, out);
                if let Some(m) = self.shape(x, a) {
                    self.demand_dn(y, m, out);
                }
            }
            _ => {}
        }
    }

    // ----- proofs

    fn var(&mut self, t: &T, p: &mut Proof) -> (String, bool) {
        let mut sub = |s: &mut Self, t: &T| {
            let x = s.text(t);
            p.vars.get(&x).cloned().unwrap_or_else(|| panic!("no variable for {x}"))
        };
        let h = self.head(t, &mut sub);
        let x = self.text(t);
        if let Some(v) = p.vars.get(&x) {
            return (v.clone(), false);
        }
        let v = format!("x{}", p.vars.len());
        p.text += &format!("    let {v} = {h};\n");
        p.vars.insert(x, v.clone());
        (v, true)
    }

    /// `good` and what goes with it, bottom up.
    fn good(&mut self, t: &T, p: &mut Proof, modes: &mut Vec<(String, bool, bool)>) -> String {
        let subs: Vec<String> = match t {
            T::Pair(x, y) | T::Alt(x, y) | T::Tagged(x, y) | T::More(x, y) | T::Unless(x, y) | T::Escaped(x, _, y) | T::Attempt(x, _, y) => {
                vec![self.good(x, p, modes), self.good(y, p, modes)]
            }
            T::Map(x, _) | T::Filter(x, ..) | T::Dec(x, _) | T::Opt(x) | T::Peek(x) | T::Recognize(x) | T::Cut(x) | T::Many0(x) | T::ManyMN(_, _, x) => {
                vec![self.good(x, p, modes)]
            }
            T::Literal(_, n, l, ..) => vec![self.good(n, p, modes), self.good(l, p, modes)],
            T::Choose(q, _, x, y) => vec![self.good(q, p, modes), self.good(x, p, modes), self.good(y, p, modes)],
            _ => vec![],
        };
        let (v, new) = self.var(t, p);
        if !new {
            return v;
        }
        let s = |i: usize| subs[i].clone();
        let l = match t {
            T::Tag(t, nc) => {
                let mut l = format!("good_tag({}, {nc});", bytes(t));
                if !t.is_empty() {
                    l += &format!(" pos_tag({}, {nc});", bytes(t));
                }
                l
            }
            T::Run(c) => format!("good_take_while(cls_{}());", self.table(c)),
            T::Run1(c) => format!("good_take_while1(cls_{}());", self.table(c)),
            T::RunMN(m, n, c) => format!("good_take_while_m_n({m}, {n}, cls_{}());", self.table(c)),
            T::OneOf(t) => format!("good_one_of({});", bytes(t)),
            T::Until(t) => format!("good_take_until({});", bytes(t)),
            T::Success(k) => format!("good_success({k});"),
            T::Fail => "good_failure();".into(),
            T::Error => "good_error();".into(),
            T::Crlf => "newline_crlf(); pos_newline(crlf());".into(),
            T::CrlfRelaxed => "newline_crlf_relaxed(); pos_newline(crlf_relaxed());".into(),
            T::Pair(..) => format!("good_pair({}, {});", s(0), s(1)),
            T::Alt(..) => format!("good_alt({}, {});", s(0), s(1)),
            T::Tagged(..) => format!("good_tagged({}, {});", s(0), s(1)),
            T::More(..) => format!("good_more({}, {});", s(0), s(1)),
            T::Unless(x, y) => {
                let w = self.waits(x, y);
                format!("{w} good_unless_err({}, {});", s(0), s(1))
            }
            T::Map(_, k) => format!("good_vmap({}, {k});", s(0)),
            T::Filter(_, k, h) => format!("good_filter({}, {k}, {h});", s(0)),
            T::Dec(_, m) => format!("good_decimal({}, {m});", s(0)),
            T::Opt(_) => format!("good_opt({});", s(0)),
            T::Peek(_) => format!("good_peek({});", s(0)),
            T::Recognize(_) => format!("good_recognize({});", s(0)),
            T::Cut(_) => format!("good_cut({});", s(0)),
            T::Many0(_) => format!("good_many0({});", s(0)),
            T::ManyMN(a, b, _) => format!("good_many_m_n({a}, {b}, {});", s(0)),
            T::Escaped(_, c, _) => format!("good_escaped({}, {c}, {});", s(0), s(1)),
            T::Literal(o, n, _, y, no) => {
                modes.push((bytes(o), *y, *no));
                let mut pre = format!("assert(opening({})) by (compute); ", bytes(o));
                // the number must stay within its line
                if let T::Call(k, a) = &**n {
                    pre += &format!("u_{}({}); ", fname(k), self.arg(k, a));
                }
                format!("{pre}good_literal({}, {}, {}, {y}, {no});", bytes(o), s(0), s(1))
            }
            T::Attempt(x, k, y) => {
                let w = self.waits(x, y);
                format!("{w} good_attempt({}, {k}, {});", s(0), s(1))
            }
            T::Choose(_, k, ..) => format!("good_choose_by({}, {k}, {}, {});", s(0), s(1), s(2)),
            T::Call(k, a) => format!("g_{}({});", fname(k), self.arg(k, a)),
            T::Without(..) => format!("no_contract({v});"),
            _ => lost(format!("term {t:?}")),
        };
        p.text += &format!("    {l}\n");
        v
    }

    /// `ci`, bottom up.
    fn caseless(&mut self, t: &T, p: &mut Proof) -> String {
        let subs: Vec<String> = match t {
            T::Pair(x, y) | T::Alt(x, y) | T::Tagged(x, y) | T::More(x, y) | T::Unless(x, y) | T::Escaped(x, _, y) | T::Attempt(x, _, y) | T::Literal(_, x, y, ..) => {
                vec![self.caseless(x, p), self.caseless(y, p)]
            }
            T::Map(x, _) | T::Filter(x, ..) | T::Dec(x, _) | T::Opt(x) | T::Peek(x) | T::Recognize(x) | T::Cut(x) | T::Many0(x) | T::ManyMN(_, _, x) => {
                vec![self.caseless(x, p)]
            }
            T::Choose(q, _, x, y) => vec![self.caseless(q, p), self.caseless(x, p), self.caseless(y, p)],
            _ => vec![],
        };
        let (v, new) = self.var(t, p);
        if !new {
            return v;
        }
        let s = |i: usize| subs[i].clone();
        let plain = |t: &[u8]| {
            if t.iter().any(u8::is_ascii_alphabetic) {
                format!("assert(letterless({})); /* read in one spelling only */", bytes(t))
            } else {
                format!("assert(letterless({})) by (compute);", bytes(t))
            }
        };
        let l = match t {
            T::Tag(t, true) => format!("ci_tag({}, true);", bytes(t)),
            T::Tag(t, false) => format!("{} ci_tag({}, false);", plain(t), bytes(t)),
            T::Run(c) => format!("assert(cased(cls_{0}())); ci_take_while(cls_{0}());", self.table(c)),
            T::Run1(c) => format!("assert(cased(cls_{0}())); ci_take_while1(cls_{0}());", self.table(c)),
            T::RunMN(m, n, c) => format!("assert(cased(cls_{0}())); ci_take_while_m_n({m}, {n}, cls_{0}());", self.table(c)),
            T::OneOf(t) => format!("{} ci_one_of({});", plain(t), bytes(t)),
            T::Until(t) => format!("{} ci_take_until({});", plain(t), bytes(t)),
            T::Success(k) => format!("ci_success({k});"),
            T::Fail => "ci_failure();".into(),
            T::Error => "ci_error();".into(),
            T::Crlf => "ci_crlf();".into(),
            T::CrlfRelaxed => "ci_crlf_relaxed();".into(),
            T::Pair(..) => format!("ci_pair({}, {});", s(0), s(1)),
            T::Alt(..) => format!("ci_alt({}, {});", s(0), s(1)),
            T::Tagged(..) => format!("ci_tagged({}, {});", s(0), s(1)),
            T::More(..) => format!("ci_more({}, {});", s(0), s(1)),
            T::Unless(..) => format!("ci_unless_err({}, {});", s(0), s(1)),
            T::Map(_, k) => format!("ci_vmap({}, {k});", s(0)),
            T::Filter(_, k, h) => format!("{} ci_filter({}, {k}, {h});", self.judge(*k), s(0)),
            T::Dec(_, m) => format!("ci_decimal({}, {m});", s(0)),
            T::Opt(_) => format!("ci_opt({});", s(0)),
            T::Peek(_) => format!("ci_peek({});", s(0)),
            T::Recognize(_) => format!("ci_recognize({});", s(0)),
            T::Cut(_) => format!("ci_cut({});", s(0)),
            T::Many0(_) => format!("ci_many0({});", s(0)),
            T::ManyMN(a, b, _) => format!("ci_many_m_n({a}, {b}, {});", s(0)),
            T::Escaped(_, c, _) => format!("ci_escaped({}, {c}, {});", s(0), s(1)),
            T::Literal(o, _, _, y, no) => format!("{} ci_literal({}, {}, {}, {y}, {no});", plain(o), bytes(o), s(0), s(1)),
            T::Attempt(_, k, _) => format!("{} ci_attempt({}, {k}, {});", self.judge(*k), s(0), s(1)),
            T::Choose(_, k, ..) => format!("{} ci_choose_by({}, {k}, {}, {});", self.judge(*k), s(0), s(1), s(2)),
            T::Call(k, a) => format!("c_{}({});", fname(k), self.arg(k, a)),
            _ => "assert(false); // soft: nothing is known of letter case here".into(),
        };
        p.text += &format!("    {l}\n");
        v
    }
    fn judge(&mut self, k: usize) -> String {
        if k >= 3 && self.g.sites.get(k - 3).is_some_and(|s| fair(&s.0)) {
            self.judges.insert(k);
            String::new()
        } else if k >= 3 && self.g.sites.get(k - 3).is_some_and(|s| exact(&s.0)) {
            format!("assert(fair({k})); /* compared in one spelling only */")
        } else {
            "assert(false); /* soft: a closure of which it is not known whether letter case matters */".into()
        }
    }

    /// Lemmas for: where `x` has no verdict, neither has `y`.
    fn waits(&mut self, x: &T, y: &T) -> String {
        if x == y {
            return format!("waits_same({});", self.text(x));
        }
        if let T::Recognize(x) = x {
            let w = self.waits(x, y);
            return format!("{w} waits_recognize({}, {});", self.text(x), self.text(y));
        }
        match y {
            T::Pair(q, r) => {
                let w = self.waits(x, q);
                format!("{w} waits_first({}, {}, {});", self.text(x), self.text(q), self.text(r))
            }
            T::Map(q, k) => {
                let w = self.waits(x, q);
                format!("{w} waits_vmap({}, {}, {k});", self.text(x), self.text(q))
            }
            T::Filter(q, k, h) => {
                let w = self.waits(x, q);
                format!("{w} waits_filter({}, {}, {k}, {h});", self.text(x), self.text(q))
            }
            T::Alt(q, r) => {
                let w = self.waits(x, q);
                format!("{w} waits_alt({}, {}, {});", self.text(x), self.text(q), self.text(r))
            }
            T::Call(k, Arg::None) => {
                let t = self.g.defs[k].term.clone();
                let w = self.waits(x, &t);
                format!("{} {w}", reveal(&fname(k), false))
            }
            _ => "assert(false); /* soft: nothing is known of when this waits */".into(),
        }
    }

    fn v(&mut self, t: &T, p: &Proof) -> String {
        let x = self.text(t);
        p.vars[&x].clone()
    }
    fn prove_sh(&mut self, t: &T, a: bool, p: &mut Proof) -> Option<bool> {
        let r = self.shape(t, a)?;
        let x = self.v(t, p);
        if !p.shs.insert((x.clone(), a)) {
            return Some(r);
        }
        let l = match t {
            T::Tag(t, nc) => format!("assert(fits({}, {a}, {r})) by (compute); sh_tag({}, {nc}, {a}, {r});", bytes(t), bytes(t)),
            T::Run(c) | T::Run1(c) | T::RunMN(_, _, c) => {
                let q = tame(c).unwrap();
                let c = self.table(c);
                match t {
                    T::Run(_) => format!("assert(tame(cls_{c}(), {q})); sh_take_while(cls_{c}(), {q}, {a});"),
                    T::Run1(_) => format!("assert(tame(cls_{c}(), {q})); sh_take_while1(cls_{c}(), {q}, {a});"),
                    T::RunMN(m, n, _) => format!("assert(tame(cls_{c}(), {q})); sh_take_while_m_n({m}, {n}, cls_{c}(), {q}, {a});"),
                    _ => unreachable!(),
                }
            }
            T::OneOf(t) => format!("assert(plain_all({})) by (compute); sh_one_of({}, {a});", bytes(t), bytes(t)),
            T::Success(k) => format!("sh_success({k}, {a});"),
            T::Fail => format!("good_failure(); assert(sh({x}, {a}, true));"),
            T::Error => format!("good_error(); assert(sh({x}, {a}, true));"),
            T::Map(y, k) => {
                self.prove_sh(y, a, p)?;
                format!("sh_vmap({}, {k}, {a}, {r});", self.v(y, p))
            }
            T::Filter(y, k, h) => {
                self.prove_sh(y, a, p)?;
                format!("sh_filter({}, {k}, {h}, {a}, {r});", self.v(y, p))
            }
            T::Dec(y, m) => {
                self.prove_sh(y, a, p)?;
                format!("sh_decimal({}, {m}, {a}, {r});", self.v(y, p))
            }
            T::Recognize(y) => {
                self.prove_sh(y, a, p)?;
                format!("sh_recognize({}, {a}, {r});", self.v(y, p))
            }
            T::Cut(y) => {
                self.prove_sh(y, a, p)?;
                format!("sh_cut({}, {a}, {r});", self.v(y, p))
            }
            T::Opt(y) => {
                let b = self.prove_sh(y, a, p)?;
                format!("sh_opt({}, {a}, {b});", self.v(y, p))
            }
            T::Peek(y) => {
                let b = self.prove_sh(y, a, p)?;
                format!("sh_peek({}, {a}, {b});", self.v(y, p))
            }
            T::Alt(y, z) => {
                let b = self.prove_sh(y, a, p)?;
                let c = self.prove_sh(z, a, p)?;
                format!("sh_alt({}, {}, {a}, {b}, {c});", self.v(y, p), self.v(z, p))
            }
            T::Attempt(y, k, z) => {
                let b = self.prove_sh(y, a, p)?;
                let c = self.prove_sh(z, a, p)?;
                format!("sh_attempt({}, {k}, {}, {a}, {b}, {c});", self.v(y, p), self.v(z, p))
            }
            T::Pair(y, z) => {
                let b = self.prove_sh(y, a, p)?;
                self.prove_sh(z, b, p)?;
                format!("sh_pair({}, {}, {a}, {b}, {r});", self.v(y, p), self.v(z, p))
            }
            T::Tagged(y, z) => {
                let b = self.prove_sh(y, a, p)?;
                self.prove_sh(z, b, p)?;
                format!("sh_tagged({}, {}, {a}, {b}, {r});", self.v(y, p), self.v(z, p))
            }
            T::Many0(y) => {
                let b = self.prove_sh(y, a, p)?;
                if !a || b {
                    format!("sh_many0({}, {a}, {b});", self.v(y, p))
                } else {
                    let b = self.prove_sh(y, false, p)?;
                    format!("sh_many0({}, false, {b}); sh_weak({x}, false, false, true, false);", self.v(y, p))
                }
            }
            T::More(s, y) => {
                let b = self.prove_sh(s, a, p)?;
                let c = self.prove_sh(y, b, p)?;
                if !a || c {
                    format!("sh_more({}, {}, {a}, {b}, {c});", self.v(s, p), self.v(y, p))
                } else {
                    let b = self.prove_sh(s, false, p)?;
                    let c = self.prove_sh(y, b, p)?;
                    format!("sh_more({}, {}, false, {b}, {c}); sh_weak({x}, false, false, true, false);", self.v(s, p), self.v(y, p))
                }
            }
            T::Unless(y, z) => {
                let b = self.prove_sh(z, a, p)?;
                format!("sh_unless_err({}, {}, {a}, {b});", self.v(y, p), self.v(z, p))
            }
            T::Escaped(y, c, z) => {
                self.prove_sh(y, false, p)?;
                self.prove_sh(z, false, p)?;
                let (T::Run1(k), T::OneOf(o)) = (&**y, &**z) else { return None };
                let q = tame(k)?;
                let k = self.table(k);
                format!(
                    "linear_take_while1(cls_{k}(), {q}); linear_one_of({}); sh_escaped({}, {c}, {}, {a});",
                    bytes(o),
                    self.v(y, p),
                    self.v(z, p)
                )
            }
            T::Literal(..) => format!("assert(sh({x}, {a}, true));"),
            T::Choose(q, k, y, z) => {
                let d = self.prove_sh(q, a, p)?;
                let b = self.prove_sh(y, a, p)?;
                let c = self.prove_sh(z, a, p)?;
                format!("sh_choose_by({}, {k}, {}, {}, {a}, {d}, {b}, {c});", self.v(q, p), self.v(y, p), self.v(z, p))
            }
            T::Call(k, g) => format!("{}_{}({});", if a { "s" } else { "u" }, fname(k), self.arg(k, g)),
            _ => return None,
        };
        p.text += &format!("    {l}\n");
        Some(r)
    }
    fn prove_dn(&mut self, t: &T, a: bool, p: &mut Proof) {
        let x = self.v(t, p);
        let l = match t {
            T::Crlf | T::CrlfRelaxed => format!("dn_newline({x});"),
            T::Fail => format!("good_failure(); assert(dn({x}, {a}));"),
            T::Error => format!("good_error(); assert(dn({x}, {a}));"),
            T::Map(y, k) => {
                self.prove_dn(y, a, p);
                format!("dn_vmap({}, {k}, {a});", self.v(y, p))
            }
            T::Filter(y, k, h) => {
                self.prove_dn(y, a, p);
                format!("dn_filter({}, {k}, {h}, {a});", self.v(y, p))
            }
            T::Cut(y) => {
                self.prove_dn(y, a, p);
                format!("dn_cut({}, {a});", self.v(y, p))
            }
            T::Alt(y, z) => {
                self.prove_dn(y, a, p);
                self.prove_dn(z, a, p);
                format!("dn_alt({}, {}, {a});", self.v(y, p), self.v(z, p))
            }
            T::Pair(y, z) | T::Tagged(y, z) => {
                let b = self.prove_sh(y, a, p).unwrap_or(false);
                self.prove_dn(z, b, p);
                let f = if matches!(t, T::Pair(..)) { "dn_pair" } else { "dn_tagged" };
                format!("{f}({}, {}, {a}, {b});", self.v(y, p), self.v(z, p))
            }
            T::Call(k, g) => format!("{}_{}({});", if a { "s" } else { "u" }, fname(k), self.arg(k, g)),
            _ => "assert(false); // soft: no end of message".into(),
        };
        p.text += &format!("    {l}\n");
    }
}

const HIDE: &str = "";

fn reveal(n: &str, param: bool) -> String {
    if param {
        format!("reveal_with_fuel({n}, 2);")
    } else {
        format!("reveal({n});")
    }
}

fn bytes_of(t: &T) -> String {
    match t {
        T::Tag(b, _) => bytes(b),
        _ => unreachable!(),
    }
}
fn lower_leaf(t: &T) -> T {
    crate::parsers::lower(t.clone())
}

fn literals(t: &T, out: &mut Vec<T>) {
    match t {
        T::Literal(_, n, ..) => out.push((**n).clone()),
        T::Pair(x, y) | T::Alt(x, y) | T::Tagged(x, y) | T::More(x, y) | T::Unless(x, y) | T::Escaped(x, _, y) | T::Attempt(x, _, y) => {
            literals(x, out);
            literals(y, out);
        }
        T::Map(x, _) | T::Filter(x, ..) | T::Dec(x, _) | T::Opt(x) | T::Peek(x) | T::Recognize(x) | T::Cut(x) | T::Many0(x) | T::ManyMN(_, _, x) => literals(x, out),
        T::Choose(p, _, x, y) => {
            literals(p, out);
            literals(x, out);
            literals(y, out);
        }
        _ => {}
    }
}

fn calls(t: &T, out: &mut Vec<(String, Arg)>) {
    match t {
        T::Call(k, a) => out.push((k.clone(), a.clone())),
        T::Pair(x, y) | T::Alt(x, y) | T::Tagged(x, y) | T::More(x, y) | T::Unless(x, y) | T::Escaped(x, _, y) | T::Attempt(x, _, y) | T::Literal(_, x, y, ..) => {
            calls(x, out);
            calls(y, out);
        }
        T::Map(x, _) | T::Filter(x, ..) | T::Dec(x, _) | T::Opt(x) | T::Peek(x) | T::Recognize(x) | T::Cut(x) | T::Many0(x) | T::ManyMN(_, _, x) => calls(x, out),
        T::Choose(p, _, x, y) => {
            calls(p, out);
            calls(x, out);
            calls(y, out);
        }
        _ => {}
    }
}

#[derive(Default)]
struct Proof {
    text: String,
    vars: HashMap<String, String>,
    shs: BTreeSet<(String, bool)>,
}
