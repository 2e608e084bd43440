//! `//@ parsers ROOT..`: the nom parsers that the roots reach, as terms over the combinators of proofs/parse.inc, and
//! for each parser the proof that it meets its contract, one lemma per combinator.
//!
//! What is dropped: the values that closures compute. A closure is the name (`site`) of a pure function; where it may
//! reject (`map_res`, `map_opt`, `verify`, a final check) `accepts(site, value)` says whether it does. Predicates on
//! bytes are evaluated for all 256 bytes.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    fs,
};

use syn::{Expr, Item, Pat, Stmt};

use crate::{lost, norm, tr, Cfg};

type Res<X> = Result<X, String>;

#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    None,
    Const(u64),
    Param,
    Pred,
    /// some other expression over the limit
    Over(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Tag(Vec<u8>, bool),
    Run(Vec<bool>),
    Run1(Vec<bool>),
    RunMN(u64, u64, Vec<bool>),
    OneOf(Vec<u8>),
    Until(Vec<u8>),
    Success(usize),
    Fail,
    Error,
    Crlf,
    CrlfRelaxed,
    Tuple(Vec<T>),
    Preceded(Box<T>, Box<T>),
    Terminated(Box<T>, Box<T>),
    Delimited(Box<T>, Box<T>, Box<T>),
    SepPair(Box<T>, Box<T>, Box<T>),
    Pair(Box<T>, Box<T>),
    Map(Box<T>, usize),
    Filter(Box<T>, usize, bool),
    Dec(Box<T>, u128),
    Opt(Box<T>),
    Peek(Box<T>),
    Recognize(Box<T>),
    Cut(Box<T>),
    AltN(Vec<T>),
    Alt(Box<T>, Box<T>),
    Many0(Box<T>),
    Many1(Box<T>),
    SepList0(Box<T>, Box<T>),
    SepList1(Box<T>, Box<T>),
    More(Box<T>, Box<T>),
    Unless(Box<T>, Box<T>),
    ManyMN(u64, u64, Box<T>),
    Escaped(Box<T>, u8, Box<T>),
    Literal(Vec<u8>, Box<T>, Box<T>, bool, bool),
    Attempt(Box<T>, usize, Box<T>),
    Choose(Box<T>, usize, Box<T>, Box<T>),
    Tagged(Box<T>, Box<T>),
    Call(String, Arg),
    /// a parser without a contract: what follows the input decides (`complete`)
    Without(String, Vec<T>),
}
fn b(t: T) -> Box<T> {
    Box::new(t)
}

struct Module {
    file: String,
    uses: HashMap<String, String>,
    fns: HashMap<String, syn::ItemFn>,
    consts: HashMap<String, Expr>,
}

pub struct Def {
    pub term: T,
    pub param: bool,
    pub guard: bool,
    pub file: String,
    pub line: usize,
    pub panics: Vec<(String, T)>,
}

/// What may panic in the code of a parser and is not stated as an obligation.
pub struct Gen<'a> {
    repo: &'a str,
    cfg: &'a Cfg,
    mods: HashMap<String, Module>,
    pub defs: BTreeMap<String, Def>,
    pub order: Vec<String>,
    stack: Vec<String>,
    pub sites: Vec<(String, Expr)>,
    panics: Vec<(String, T)>,
    pub unchecked: Vec<String>,
    here: String,
}

#[derive(Clone)]
struct Env {
    module: String,
    parsers: HashMap<String, T>,
    /// name of the recursion parameter
    param: Option<String>,
    preds: HashMap<String, Vec<bool>>,
}

#[derive(Clone, Debug)]
enum Sym {
    Leaf(usize),
    Tuple(Vec<Sym>),
    Mapped(usize, Box<Sym>),
    Any,
}

fn use_tree(t: &syn::UseTree, pre: &str, out: &mut HashMap<String, String>) {
    let j = |s: String| if pre.is_empty() { s } else { format!("{pre}::{s}") };
    match t {
        syn::UseTree::Path(p) => use_tree(&p.tree, &j(p.ident.to_string()), out),
        syn::UseTree::Name(n) if n.ident == "self" => {
            out.insert(pre.rsplit("::").next().unwrap().to_string(), pre.to_string());
        }
        syn::UseTree::Name(n) => {
            out.insert(n.ident.to_string(), j(n.ident.to_string()));
        }
        syn::UseTree::Rename(n) => {
            out.insert(n.rename.to_string(), j(n.ident.to_string()));
        }
        syn::UseTree::Group(g) => g.items.iter().for_each(|t| use_tree(t, pre, out)),
        syn::UseTree::Glob(_) => {}
    }
}

fn path_of(p: &syn::Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

fn ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.path.segments.len() == 1 => Some(p.path.segments[0].ident.to_string()),
        Expr::Paren(p) => ident(&p.expr),
        Expr::Reference(r) => ident(&r.expr),
        Expr::Group(p) => ident(&p.expr),
        _ => None,
    }
}
fn pat_ident(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) => Some(i.ident.to_string()),
        Pat::Type(t) => pat_ident(&t.pat),
        Pat::Paren(t) => pat_ident(&t.pat),
        Pat::Reference(t) => pat_ident(&t.pat),
        _ => None,
    }
}

/// Does the expression mention one of the names, or leave the function?
fn mentions(e: &impl quote::ToTokens, names: &[&str]) -> bool {
    fn go(t: proc_macro2::TokenStream, names: &[&str]) -> bool {
        t.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Ident(i) => names.contains(&i.to_string().as_str()),
            proc_macro2::TokenTree::Group(g) => go(g.stream(), names),
            _ => false,
        })
    }
    go(e.to_token_stream(), names)
}
fn has_try(e: &impl quote::ToTokens) -> bool {
    fn go(t: proc_macro2::TokenStream) -> bool {
        t.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Punct(p) => p.as_char() == '?',
            proc_macro2::TokenTree::Group(g) => go(g.stream()),
            _ => false,
        })
    }
    go(e.to_token_stream())
}

fn module_of(file: &str) -> String {
    let f = file.strip_suffix(".rs").unwrap();
    if f == "lib" {
        return "crate".into();
    }
    let mut p = vec!["crate".to_string()];
    for s in f.split('/') {
        p.push(if s == "move" { "raw_move".into() } else { s.to_string() });
    }
    p.join("::")
}

impl<'a> Gen<'a> {
    pub fn new(repo: &'a str, cfg: &'a Cfg) -> Self {
        let mut mods = HashMap::new();
        let src = format!("{repo}/imap-codec/src");
        let mut files = vec![];
        fn walk(d: &str, rel: &str, out: &mut Vec<String>) {
            let mut es: Vec<_> = fs::read_dir(d).unwrap_or_else(|e| lost(format!("{d}: {e}"))).map(|e| e.unwrap()).collect();
            es.sort_by_key(|e| e.file_name());
            for e in es {
                let n = e.file_name().into_string().unwrap();
                if e.file_type().unwrap().is_dir() {
                    walk(&format!("{d}/{n}"), &format!("{rel}{n}/"), out);
                } else if n.ends_with(".rs") {
                    out.push(format!("{rel}{n}"));
                }
            }
        }
        walk(&src, "", &mut files);
        let mut add = |name: String, path: String| {
            let text = crate::read(&format!("{repo}/{path}"));
            let f = syn::parse_file(&text).unwrap_or_else(|e| lost(format!("{path}: {e}")));
            let mut m = Module { file: path, uses: HashMap::new(), fns: HashMap::new(), consts: HashMap::new() };
            for i in f.items {
                if !tr::cfg_ok(tr::item_attrs(&i), cfg) {
                    continue;
                }
                match i {
                    Item::Use(u) => use_tree(&u.tree, "", &mut m.uses),
                    Item::Fn(mut f) => {
                        syn::visit_mut::VisitMut::visit_item_fn_mut(&mut Strip(cfg), &mut f);
                        m.fns.insert(f.sig.ident.to_string(), f);
                    }
                    Item::Const(c) => {
                        m.consts.insert(c.ident.to_string(), *c.expr);
                    }
                    Item::Mod(md) => {
                        // indicators of imap-types
                        if let Some((_, items)) = md.content {
                            let mut n = Module { file: m.file.clone(), uses: HashMap::new(), fns: HashMap::new(), consts: HashMap::new() };
                            for i in items {
                                if !tr::cfg_ok(tr::item_attrs(&i), cfg) {
                                    continue;
                                }
                                match i {
                                    Item::Use(u) => use_tree(&u.tree, "", &mut n.uses),
                                    Item::Fn(mut f) => {
                                        syn::visit_mut::VisitMut::visit_item_fn_mut(&mut Strip(cfg), &mut f);
                                        n.fns.insert(f.sig.ident.to_string(), f);
                                    }
                                    Item::Const(c) => {
                                        n.consts.insert(c.ident.to_string(), *c.expr);
                                    }
                                    _ => {}
                                }
                            }
                            mods.insert(format!("{name}::{}", md.ident), n);
                        }
                    }
                    _ => {}
                }
            }
            mods.insert(name, m);
        };
        for f in files {
            add(module_of(&f), format!("imap-codec/src/{f}"));
        }
        add("imap_types::utils".into(), "imap-types/src/utils.rs".into());
        Gen { repo, cfg, mods, defs: BTreeMap::new(), order: vec![], stack: vec![], sites: vec![], panics: vec![], unchecked: vec![], here: String::new() }
    }

    fn site(&mut self, text: String, e: &Expr) -> usize {
        if let Some(i) = self.sites.iter().position(|s| s.0 == text) {
            return i + 3;
        }
        self.sites.push((text, e.clone()));
        self.sites.len() + 2
    }

    fn resolve(&self, module: &str, path: &str) -> String {
        let (first, rest) = path.split_once("::").map(|(a, r)| (a, format!("::{r}"))).unwrap_or((path, String::new()));
        if first == "crate" {
            return path.to_string();
        }
        if first == "self" {
            return format!("{module}{rest}");
        }
        if first == "super" {
            return format!("{}{rest}", module.rsplit_once("::").map(|x| x.0).unwrap_or(module));
        }
        let m = &self.mods[module];
        if rest.is_empty() && m.fns.contains_key(first) {
            return format!("{module}::{first}");
        }
        if let Some(u) = m.uses.get(first) {
            return format!("{}{rest}", self.resolve_abs(module, u));
        }
        path.to_string()
    }
    fn resolve_abs(&self, module: &str, u: &str) -> String {
        if let Some(r) = u.strip_prefix("super::") {
            format!("{}::{r}", module.rsplit_once("::").map(|x| x.0).unwrap_or(module))
        } else if let Some(r) = u.strip_prefix("self::") {
            format!("{module}::{r}")
        } else {
            u.to_string()
        }
    }
    fn find(&self, full: &str) -> Option<(String, syn::ItemFn)> {
        let (m, f) = full.rsplit_once("::")?;
        if let Some(md) = self.mods.get(m) {
            if let Some(x) = md.fns.get(f) {
                return Some((m.to_string(), x.clone()));
            }
            // a re-export
            if let Some(u) = md.uses.get(f) {
                let u = self.resolve_abs(m, u);
                if u != full {
                    return self.find(&u);
                }
            }
        }
        None
    }

    // ----- constants and predicates

    fn text(&self, env: &Env, e: &Expr) -> Res<Vec<u8>> {
        match e {
            Expr::Lit(l) => match &l.lit {
                syn::Lit::Str(s) => Ok(s.value().into_bytes()),
                syn::Lit::ByteStr(s) => Ok(s.value()),
                syn::Lit::Char(c) if c.value().is_ascii() => Ok(vec![c.value() as u8]),
                syn::Lit::Byte(c) => Ok(vec![c.value()]),
                _ => Err(format!("text {}", norm(e))),
            },
            Expr::Paren(p) => self.text(env, &p.expr),
            Expr::Reference(p) => self.text(env, &p.expr),
            Expr::Index(i) if norm(&i.index) == ".." => self.text(env, &i.expr),
            Expr::MethodCall(m) if m.args.is_empty() && ["as_ref", "as_bytes", "as_slice"].contains(&m.method.to_string().as_str()) => self.text(env, &m.receiver),
            Expr::Path(p) => {
                let full = self.resolve(&env.module, &path_of(&p.path));
                let (m, n) = match full.rsplit_once("::") {
                    Some((m, n)) => (m.to_string(), n.to_string()),
                    None => (env.module.clone(), full.clone()),
                };
                match self.mods.get(&m).and_then(|m| m.consts.get(&n)) {
                    Some(c) => self.text(env, c),
                    None => Err(format!("text {full}")),
                }
            }
            _ => Err(format!("text {}", norm(e))),
        }
    }
    fn number(&self, env: &Env, e: &Expr) -> Res<u64> {
        match e {
            Expr::Lit(l) => match &l.lit {
                syn::Lit::Int(i) => i.base10_parse().map_err(|e| e.to_string()),
                _ => Err("number".into()),
            },
            Expr::Paren(p) => self.number(env, &p.expr),
            Expr::Path(p) => {
                let t = path_of(&p.path);
                if t == "usize::MAX" {
                    return Ok(u64::MAX);
                }
                let full = self.resolve(&env.module, &t);
                let (m, n) = full.rsplit_once("::").unwrap_or((&env.module, &full));
                match self.mods.get(m).and_then(|m| m.consts.get(n)) {
                    Some(c) => self.number(env, c),
                    None => Err(format!("number {t}")),
                }
            }
            _ => Err(format!("number {}", norm(e))),
        }
    }

    fn table(&self, env: &Env, e: &Expr) -> Res<Vec<bool>> {
        if let Some(n) = ident(e) {
            if let Some(t) = env.preds.get(&n) {
                return Ok(t.clone());
            }
        }
        (0..=255u8).map(|x| self.pred(&env.module, e, x, 0)).collect()
    }
    fn pred(&self, module: &str, f: &Expr, x: u8, depth: usize) -> Res<bool> {
        if depth > 20 {
            return Err("predicate too deep".into());
        }
        match f {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let n = pat_ident(&c.inputs[0]).ok_or("predicate parameter")?;
                self.ev(module, &c.body, &HashMap::from([(n, x as i64)]), depth)?.bool()
            }
            Expr::Paren(p) => self.pred(module, &p.expr, x, depth),
            Expr::Reference(p) => self.pred(module, &p.expr, x, depth),
            Expr::Path(p) => self.pred_fn(&self.resolve(module, &path_of(&p.path)), x, depth),
            _ => Err(format!("predicate {}", norm(f))),
        }
    }
    fn pred_fn(&self, full: &str, x: u8, depth: usize) -> Res<bool> {
        Ok(match full {
            "abnf_core::is_alpha" | "nom::character::is_alphabetic" => x.is_ascii_alphabetic(),
            "abnf_core::is_digit" | "nom::character::is_digit" => x.is_ascii_digit(),
            "nom::character::is_alphanumeric" => x.is_ascii_alphanumeric(),
            "abnf_core::is_ctl" => x <= 0x1f || x == 0x7f,
            "abnf_core::is_char" => (0x01..=0x7f).contains(&x),
            "abnf_core::is_cr" => x == 13,
            "abnf_core::is_lf" => x == 10,
            "abnf_core::is_dquote" => x == b'"',
            _ => {
                let (m, f) = self.find(full).ok_or(format!("predicate {full}"))?;
                if f.sig.inputs.len() != 1 {
                    return Err(format!("predicate {full}"));
                }
                let n = match &f.sig.inputs[0] {
                    syn::FnArg::Typed(t) => pat_ident(&t.pat).ok_or("predicate parameter")?,
                    _ => return Err("predicate".into()),
                };
                let blk = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: (*f.block).clone() });
                self.ev(&m, &blk, &HashMap::from([(n, x as i64)]), depth + 1)?.bool()?
            }
        })
    }
    fn ev(&self, module: &str, e: &Expr, env: &HashMap<String, i64>, depth: usize) -> Res<Pv> {
        let bad = || Err(format!("predicate expression {}", norm(e)));
        Ok(match e {
            Expr::Paren(p) => self.ev(module, &p.expr, env, depth)?,
            Expr::Group(p) => self.ev(module, &p.expr, env, depth)?,
            Expr::Reference(p) => self.ev(module, &p.expr, env, depth)?,
            Expr::Return(r) => self.ev(module, r.expr.as_ref().ok_or("return")?, env, depth)?,
            Expr::Block(bl) => {
                let mut env = env.clone();
                for s in &bl.block.stmts {
                    match s {
                        Stmt::Expr(e, None) => return self.ev(module, e, &env, depth),
                        Stmt::Expr(Expr::Return(r), _) => return self.ev(module, r.expr.as_ref().ok_or("return")?, &env, depth),
                        Stmt::Expr(Expr::If(i), _) => {
                            // `if c { return x; }`
                            if self.ev(module, &i.cond, &env, depth)?.bool()? {
                                if let [Stmt::Expr(Expr::Return(r), _)] = &i.then_branch.stmts[..] {
                                    return self.ev(module, r.expr.as_ref().ok_or("return")?, &env, depth);
                                }
                                return bad();
                            }
                        }
                        Stmt::Local(l) => {
                            let n = pat_ident(&l.pat).ok_or("let")?;
                            let v = match self.ev(module, &l.init.as_ref().ok_or("let")?.expr, &env, depth)? {
                                Pv::Int(i) => i,
                                Pv::Bool(b) => b as i64 + 1000,
                            };
                            env.insert(n, v);
                        }
                        Stmt::Macro(m) if norm(m).starts_with("debug_assert") => {}
                        _ => return bad(),
                    }
                }
                return bad();
            }
            Expr::If(i) => {
                if self.ev(module, &i.cond, env, depth)?.bool()? {
                    let blk = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
                    self.ev(module, &blk, env, depth)?
                } else {
                    self.ev(module, &i.else_branch.as_ref().ok_or("else")?.1, env, depth)?
                }
            }
            Expr::Unary(u) => match u.op {
                syn::UnOp::Not(_) => Pv::Bool(!self.ev(module, &u.expr, env, depth)?.bool()?),
                syn::UnOp::Deref(_) => self.ev(module, &u.expr, env, depth)?,
                _ => return bad(),
            },
            Expr::Cast(c) => self.ev(module, &c.expr, env, depth)?,
            Expr::Lit(l) => match &l.lit {
                syn::Lit::Byte(b) => Pv::Int(b.value() as i64),
                syn::Lit::Char(b) => Pv::Int(b.value() as i64),
                syn::Lit::Int(b) => Pv::Int(b.base10_parse().map_err(|_| "int")?),
                syn::Lit::Bool(b) => Pv::Bool(b.value),
                _ => return bad(),
            },
            Expr::Path(p) => match env.get(&path_of(&p.path)) {
                Some(i) if *i >= 1000 => Pv::Bool(*i > 1000),
                Some(i) => Pv::Int(*i),
                None => {
                    let full = self.resolve(module, &path_of(&p.path));
                    let (m, n) = match full.rsplit_once("::") {
                        Some((m, n)) => (m.to_string(), n.to_string()),
                        None => (module.to_string(), full.clone()),
                    };
                    match self.mods.get(&m).and_then(|m| m.consts.get(&n)) {
                        Some(c) => self.ev(&m, c, &HashMap::new(), depth + 1)?,
                        None => return bad(),
                    }
                }
            },
            Expr::Binary(x) => {
                let l = self.ev(module, &x.left, env, depth)?;
                match x.op {
                    syn::BinOp::And(_) => return Ok(Pv::Bool(l.bool()? && self.ev(module, &x.right, env, depth)?.bool()?)),
                    syn::BinOp::Or(_) => return Ok(Pv::Bool(l.bool()? || self.ev(module, &x.right, env, depth)?.bool()?)),
                    _ => {}
                }
                let r = self.ev(module, &x.right, env, depth)?;
                let (a, c) = match (l, r) {
                    (Pv::Int(a), Pv::Int(c)) => (a, c),
                    (Pv::Bool(a), Pv::Bool(c)) => (a as i64, c as i64),
                    _ => return bad(),
                };
                Pv::Bool(match x.op {
                    syn::BinOp::Eq(_) => a == c,
                    syn::BinOp::Ne(_) => a != c,
                    syn::BinOp::Lt(_) => a < c,
                    syn::BinOp::Le(_) => a <= c,
                    syn::BinOp::Gt(_) => a > c,
                    syn::BinOp::Ge(_) => a >= c,
                    syn::BinOp::BitAnd(_) => return Ok(Pv::Int(a & c)),
                    syn::BinOp::BitOr(_) => return Ok(Pv::Int(a | c)),
                    _ => return bad(),
                })
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if c.args.len() == 1 {
                        if let Pv::Int(i) = self.ev(module, &c.args[0], env, depth)? {
                            return Ok(Pv::Bool(self.pred_fn(&self.resolve(module, &path_of(&p.path)), i as u8, depth + 1)?));
                        }
                    }
                }
                return bad();
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if name == "contains" && m.args.len() == 1 {
                    let x = match self.ev(module, &m.args[0], env, depth)? {
                        Pv::Int(i) => i,
                        _ => return bad(),
                    };
                    let mut r = &*m.receiver;
                    while let Expr::Paren(p) = r {
                        r = &p.expr;
                    }
                    match r {
                        Expr::Range(r) => {
                            let lo = match &r.start {
                                Some(s) => self.ev(module, s, env, depth)?.int()?,
                                None => 0,
                            };
                            let hi = match &r.end {
                                Some(s) => self.ev(module, s, env, depth)?.int()?,
                                None => 256,
                            };
                            let closed = matches!(r.limits, syn::RangeLimits::Closed(_));
                            return Ok(Pv::Bool(lo <= x && (x < hi || closed && x == hi)));
                        }
                        Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(s), .. }) => return Ok(Pv::Bool(s.value().iter().any(|b| *b as i64 == x))),
                        Expr::Array(a) => {
                            for e in &a.elems {
                                if self.ev(module, e, env, depth)?.int()? == x {
                                    return Ok(Pv::Bool(true));
                                }
                            }
                            return Ok(Pv::Bool(false));
                        }
                        _ => return bad(),
                    }
                }
                let x = self.ev(module, &m.receiver, env, depth)?.int()? as u8;
                Pv::Bool(match name.as_str() {
                    "is_ascii_digit" => x.is_ascii_digit(),
                    "is_ascii_alphabetic" => x.is_ascii_alphabetic(),
                    "is_ascii_alphanumeric" => x.is_ascii_alphanumeric(),
                    "is_ascii_control" => x.is_ascii_control(),
                    "is_ascii_graphic" => x.is_ascii_graphic(),
                    "is_ascii_punctuation" => x.is_ascii_punctuation(),
                    "is_ascii_uppercase" => x.is_ascii_uppercase(),
                    "is_ascii_lowercase" => x.is_ascii_lowercase(),
                    "is_ascii_hexdigit" => x.is_ascii_hexdigit(),
                    "is_ascii_whitespace" => x.is_ascii_whitespace(),
                    "is_ascii" => x.is_ascii(),
                    "to_owned" | "clone" => return Ok(Pv::Int(x as i64)),
                    _ => return bad(),
                })
            }
            Expr::Match(m) => {
                let x = self.ev(module, &m.expr, env, depth)?.int()?;
                for a in &m.arms {
                    if self.pm(module, &a.pat, x)? {
                        let mut env = env.clone();
                        if let Some(n) = pat_ident(&a.pat) {
                            env.insert(n, x);
                        }
                        if let Some((_, g)) = &a.guard {
                            if !self.ev(module, g, &env, depth)?.bool()? {
                                continue;
                            }
                        }
                        return self.ev(module, &a.body, &env, depth);
                    }
                }
                return bad();
            }
            Expr::Macro(m) if m.mac.path.is_ident("matches") => {
                let p = |i: syn::parse::ParseStream| {
                    let e: Expr = i.parse()?;
                    let _: syn::Token![,] = i.parse()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    if i.peek(syn::Token![,]) {
                        let _: syn::Token![,] = i.parse()?;
                    }
                    Ok((e, p))
                };
                let (e, p) = syn::parse::Parser::parse2(p, m.mac.tokens.clone()).map_err(|e| e.to_string())?;
                let x = self.ev(module, &e, env, depth)?.int()?;
                Pv::Bool(self.pm(module, &p, x)?)
            }
            _ => return bad(),
        })
    }
    fn pm(&self, module: &str, p: &Pat, x: i64) -> Res<bool> {
        let env = HashMap::new();
        Ok(match p {
            Pat::Wild(_) => true,
            Pat::Ident(i) if i.subpat.is_none() => true,
            Pat::Paren(p) => self.pm(module, &p.pat, x)?,
            Pat::Or(o) => {
                for c in &o.cases {
                    if self.pm(module, c, x)? {
                        return Ok(true);
                    }
                }
                false
            }
            Pat::Lit(l) => self.ev(module, &Expr::Lit(l.clone()), &env, 0)?.int()? == x,
            Pat::Range(r) => {
                let lo = match &r.start {
                    Some(s) => self.ev(module, s, &env, 0)?.int()?,
                    None => 0,
                };
                let hi = match &r.end {
                    Some(s) => self.ev(module, s, &env, 0)?.int()?,
                    None => 256,
                };
                lo <= x && (x < hi || matches!(r.limits, syn::RangeLimits::Closed(_)) && x == hi)
            }
            _ => return Err(format!("predicate pattern {}", norm(p))),
        })
    }

    // ----- parsers

    /// A parser by name.
    fn named(&mut self, full: &str, env: &Env) -> Res<T> {
        let dig: Vec<bool> = (0..=255u8).map(|x| x.is_ascii_digit()).collect();
        let alpha: Vec<bool> = (0..=255u8).map(|x| x.is_ascii_alphabetic()).collect();
        Ok(match full {
            "abnf_core::streaming::sp" => T::Tag(b" ".to_vec(), false),
            "abnf_core::streaming::dquote" => T::Tag(b"\"".to_vec(), false),
            "abnf_core::streaming::crlf" | "nom::character::streaming::crlf" => T::Crlf,
            "abnf_core::streaming::crlf_relaxed" => T::CrlfRelaxed,
            "nom::character::streaming::digit1" => T::Run1(dig),
            "nom::character::streaming::digit0" => T::Run(dig),
            "nom::character::streaming::alpha1" => T::Run1(alpha),
            "nom::character::streaming::alpha0" => T::Run(alpha),
            _ if full.contains("::complete::") => T::Without(full.into(), vec![]),
            _ => {
                let (m, f) = self.find(full).ok_or(format!("parser {full}"))?;
                let ps = byte_params(&f);
                if ps != (1, 0) {
                    return Err(format!("parser {full}"));
                }
                let _ = env;
                let key = format!("{m}::{}", f.sig.ident);
                self.define(&key)?;
                T::Call(key, Arg::None)
            }
        })
    }

    fn arg(&self, env: &Env, e: &Expr) -> Res<Arg> {
        if let Some(n) = ident(e) {
            if Some(&n) == env.param.as_ref() {
                return Ok(Arg::Param);
            }
        }
        if let Some(p) = &env.param {
            let t = norm(e);
            if t == format!("{p}.saturating_sub(1)") || t == format!("{p}-1") {
                return Ok(Arg::Pred);
            }
        }
        match self.number(env, e) {
            Ok(n) => Ok(Arg::Const(n)),
            Err(m) => self.over(env, e).map(Arg::Over).ok_or(m),
        }
    }
    /// An expression over the limit of recursion, as a natural number.
    fn over(&self, env: &Env, e: &Expr) -> Option<String> {
        if let Ok(n) = self.number(env, e) {
            return Some(format!("{n}nat"));
        }
        match e {
            Expr::Path(_) => (ident(e) == env.param && env.param.is_some()).then(|| "n".to_string()),
            Expr::Paren(p) => self.over(env, &p.expr),
            Expr::Binary(b) => {
                let (x, y) = (self.over(env, &b.left)?, self.over(env, &b.right)?);
                Some(match b.op {
                    syn::BinOp::Add(_) => format!("({x} + {y}) as nat"),
                    syn::BinOp::Mul(_) => format!("({x} * {y}) as nat"),
                    syn::BinOp::Div(_) => format!("({x} / {y}) as nat"),
                    syn::BinOp::Sub(_) => format!("(if {x} >= {y} {{ ({x} - {y}) as nat }} else {{ 0nat }})"),
                    _ => return None,
                })
            }
            Expr::MethodCall(m) if m.args.len() == 1 => {
                let (x, y) = (self.over(env, &m.receiver)?, self.over(env, &m.args[0])?);
                Some(match m.method.to_string().as_str() {
                    "saturating_sub" => format!("(if {x} >= {y} {{ ({x} - {y}) as nat }} else {{ 0nat }})"),
                    "saturating_add" => format!("({x} + {y}) as nat"),
                    "max" => format!("(if {x} >= {y} {{ {x} }} else {{ {y} }})"),
                    "min" => format!("(if {x} <= {y} {{ {x} }} else {{ {y} }})"),
                    _ => return None,
                })
            }
            _ => None,
        }
    }

    fn parser(&mut self, e: &Expr, env: &Env) -> Res<T> {
        match e {
            Expr::Paren(p) => self.parser(&p.expr, env),
            Expr::Group(p) => self.parser(&p.expr, env),
            Expr::Reference(p) => self.parser(&p.expr, env),
            Expr::MethodCall(m) if m.method == "clone" && m.args.is_empty() => self.parser(&m.receiver, env),
            Expr::Block(bl) if bl.block.stmts.len() == 1 => match &bl.block.stmts[0] {
                Stmt::Expr(e, None) => self.parser(e, env),
                _ => Err("block".into()),
            },
            Expr::Path(p) => {
                let n = path_of(&p.path);
                if let Some(t) = env.parsers.get(&n) {
                    return Ok(t.clone());
                }
                let full = self.resolve(&env.module, &n);
                self.named(&full, env)
            }
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let n = pat_ident(&c.inputs[0]).ok_or("closure parameter")?;
                let stmts = match &*c.body {
                    Expr::Block(bl) => bl.block.stmts.clone(),
                    x => vec![Stmt::Expr(x.clone(), None)],
                };
                self.body(&stmts, env.clone(), vec![], n.clone(), n)
            }
            Expr::Call(c) => {
                let path = match &*c.func {
                    Expr::Path(p) => path_of(&p.path),
                    Expr::Paren(p) => match &*p.expr {
                        Expr::Path(p) => path_of(&p.path),
                        _ => return Err(format!("call {}", norm(e))),
                    },
                    _ => return Err(format!("call {}", norm(e))),
                };
                let full = self.resolve(&env.module, &path);
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                self.combinator(&full, &args, env)
            }
            _ => Err(format!("parser {}", norm(e))),
        }
    }

    fn combinator(&mut self, full: &str, args: &[Expr], env: &Env) -> Res<T> {
        let need = |n: usize| if args.len() == n { Ok(()) } else { Err(format!("{full}: {} arguments", args.len())) };
        let bt = |t: T| b(t);
        Ok(match full {
            "nom::bytes::streaming::tag" => T::Tag(self.text(env, &args[0])?, false),
            "nom::bytes::streaming::tag_no_case" => T::Tag(self.text(env, &args[0])?, true),
            "nom::character::streaming::char" => T::Tag(self.text(env, &args[0])?, false),
            "nom::bytes::streaming::take_while" => T::Run(self.table(env, &args[0])?),
            "nom::bytes::streaming::take_while1" => T::Run1(self.table(env, &args[0])?),
            "nom::bytes::streaming::take_till" => T::Run(self.table(env, &args[0])?.into_iter().map(|x| !x).collect()),
            "nom::bytes::streaming::take_till1" => T::Run1(self.table(env, &args[0])?.into_iter().map(|x| !x).collect()),
            "nom::bytes::streaming::is_a" => {
                let t = self.text(env, &args[0])?;
                T::Run1((0..=255u8).map(|x| t.contains(&x)).collect())
            }
            "nom::bytes::streaming::is_not" => {
                let t = self.text(env, &args[0])?;
                T::Run1((0..=255u8).map(|x| !t.contains(&x)).collect())
            }
            "nom::bytes::streaming::take_while_m_n" => {
                need(3)?;
                T::RunMN(self.number(env, &args[0])?, self.number(env, &args[1])?, self.table(env, &args[2])?)
            }
            "nom::character::streaming::one_of" => T::OneOf(self.text(env, &args[0])?),
            "nom::bytes::streaming::take_until" => T::Until(self.text(env, &args[0])?),
            "nom::bytes::streaming::escaped" => {
                need(3)?;
                let c = self.text(env, &args[1])?;
                if c.len() != 1 {
                    return Err("escaped".into());
                }
                T::Escaped(bt(self.parser(&args[0], env)?), c[0], bt(self.parser(&args[2], env)?))
            }
            "nom::combinator::success" => {
                let s = self.site(format!("success {}", norm(&args[0])), &args[0]);
                T::Success(s)
            }
            "nom::combinator::fail" => T::Error,
            "nom::branch::alt" => T::AltN(self.list(&args[0], env)?),
            "nom::sequence::tuple" => T::Tuple(self.list(&args[0], env)?),
            "nom::sequence::pair" => {
                need(2)?;
                T::Tuple(vec![self.parser(&args[0], env)?, self.parser(&args[1], env)?])
            }
            "nom::sequence::preceded" => {
                need(2)?;
                T::Preceded(bt(self.parser(&args[0], env)?), bt(self.parser(&args[1], env)?))
            }
            "nom::sequence::terminated" => {
                need(2)?;
                T::Terminated(bt(self.parser(&args[0], env)?), bt(self.parser(&args[1], env)?))
            }
            "nom::sequence::delimited" => {
                need(3)?;
                T::Delimited(bt(self.parser(&args[0], env)?), bt(self.parser(&args[1], env)?), bt(self.parser(&args[2], env)?))
            }
            "nom::sequence::separated_pair" => {
                need(3)?;
                T::SepPair(bt(self.parser(&args[0], env)?), bt(self.parser(&args[1], env)?), bt(self.parser(&args[2], env)?))
            }
            "nom::combinator::opt" => T::Opt(bt(self.parser(&args[0], env)?)),
            "nom::combinator::peek" => T::Peek(bt(self.parser(&args[0], env)?)),
            "nom::combinator::recognize" => T::Recognize(bt(self.parser(&args[0], env)?)),
            "nom::combinator::cut" => T::Cut(bt(self.parser(&args[0], env)?)),
            "nom::combinator::complete" => T::Without(full.into(), vec![self.parser(&args[0], env)?]),
            "nom::multi::many0" => T::Many0(bt(self.parser(&args[0], env)?)),
            "nom::multi::many1" => T::Many1(bt(self.parser(&args[0], env)?)),
            "nom::multi::many_m_n" => {
                need(3)?;
                T::ManyMN(self.number(env, &args[0])?, self.number(env, &args[1])?, bt(self.parser(&args[2], env)?))
            }
            "nom::multi::separated_list0" => T::SepList0(bt(self.parser(&args[0], env)?), bt(self.parser(&args[1], env)?)),
            "nom::multi::separated_list1" => T::SepList1(bt(self.parser(&args[0], env)?), bt(self.parser(&args[1], env)?)),
            "nom::combinator::value" => {
                need(2)?;
                let p = self.parser(&args[1], env)?;
                self.scan_panics(&args[0], &HashMap::new());
                let s = self.site(format!("value {}", norm(&args[0])), &args[0]);
                T::Map(bt(p), s)
            }
            "nom::combinator::map" => {
                need(2)?;
                let p = self.parser(&args[0], env)?;
                self.map(p, &args[1])
            }
            "nom::combinator::map_res" | "nom::combinator::map_opt" | "nom::combinator::verify" => {
                need(2)?;
                let p = self.parser(&args[0], env)?;
                if full == "nom::combinator::map_res" {
                    if let Some(max) = parses(&args[1]) {
                        return Ok(T::Dec(bt(p), max));
                    }
                }
                self.closure_panics(&args[1], &p);
                let s = self.site(format!("{} {}", full.rsplit("::").next().unwrap(), norm(&args[1])), &args[1]);
                T::Filter(bt(p), s, false)
            }
            _ if full.contains("::complete::") => {
                // the end of the input counts as the end of the text
                let mut ps = vec![];
                for a in args {
                    if let Ok(p) = self.parser(a, env) {
                        ps.push(p);
                    }
                }
                T::Without(full.into(), ps)
            }
            _ => {
                let (m, f) = self.find(full).ok_or(format!("combinator {full}"))?;
                let (bytes, nums) = byte_params(&f);
                if bytes != 0 || args.len() != f.sig.inputs.len() {
                    return Err(format!("combinator {full}"));
                }
                if self.stack.len() > 60 {
                    return Err(format!("recursion through {full}"));
                }
                // a function that returns a parser: its body, with the arguments in place
                let mut inner = Env { module: m.clone(), parsers: HashMap::new(), param: None, preds: HashMap::new() };
                let mut outer_arg = Arg::None;
                for (p, a) in f.sig.inputs.iter().zip(args) {
                    let syn::FnArg::Typed(t) = p else { return Err("self".into()) };
                    let n = pat_ident(&t.pat).ok_or("parameter")?;
                    if norm(&t.ty) == "usize" || norm(&t.ty) == "u32" || norm(&t.ty) == "u8" {
                        outer_arg = self.arg(env, a)?;
                        inner.param = Some(n);
                    } else if let Ok(t) = self.parser(a, env) {
                        inner.parsers.insert(n, t);
                    } else {
                        inner.preds.insert(n, self.table(env, a)?);
                    }
                }
                if nums > 1 {
                    return Err(format!("combinator {full}: parameters"));
                }
                self.stack.push(full.to_string());
                let stmts: Vec<Stmt> = f.block.stmts.iter().filter(|s| !matches!(s, Stmt::Item(_))).cloned().collect();
                let r = match &stmts[..] {
                    [Stmt::Expr(e, None)] => self.parser(e, &inner),
                    _ => Err(format!("combinator {full}: body")),
                };
                self.stack.pop();
                subst_arg(r?, &outer_arg)
            }
        })
    }

    fn list(&mut self, e: &Expr, env: &Env) -> Res<Vec<T>> {
        match e {
            Expr::Tuple(t) => t.elems.iter().map(|e| self.parser(e, env)).collect(),
            Expr::Paren(p) => Ok(vec![self.parser(&p.expr, env)?]),
            e => Ok(vec![self.parser(e, env)?]),
        }
    }

    fn map(&mut self, p: T, f: &Expr) -> T {
        self.closure_panics(f, &p);
        if let Expr::Closure(c) = f {
            let n = c.inputs.first().and_then(pat_ident);
            let mut body = &*c.body;
            while let Expr::Block(bl) = body {
                match &bl.block.stmts[..] {
                    [Stmt::Expr(e, None)] => body = e,
                    _ => break,
                }
            }
            if let Some(n) = n {
                let t = norm(body);
                if t == format!("from_utf8({n}).unwrap()") || t == format!("std::str::from_utf8({n}).unwrap()") || t == format!("str::from_utf8({n}).unwrap()") {
                    return p;
                }
            }
        }
        let s = self.site(format!("map {}", norm(f)), f);
        T::Map(b(p), s)
    }

    /// Where the code of a closure can panic: stated as an obligation on what it is applied to, or noted as unchecked.
    fn closure_panics(&mut self, f: &Expr, p: &T) {
        if let Expr::Closure(c) = f {
            let mut leaves = vec![];
            let sh = shape(p, &mut leaves);
            let mut binds = HashMap::new();
            if let Some(i) = c.inputs.first() {
                bind(i, &sh, &leaves, &mut binds);
            }
            self.scan_panics(&c.body, &binds);
        }
    }
    fn scan_panics(&mut self, e: &Expr, binds: &HashMap<String, (T, bool)>) {
        struct V<'b> {
            binds: HashMap<String, (T, bool)>,
            defs: &'b BTreeMap<String, Def>,
            sites: &'b [(String, Expr)],
            /// what is not empty here
            filled: Vec<String>,
            out: Vec<(String, T)>,
            bad: Vec<String>,
        }
        impl<'b> V<'b> {
            /// The largest value, if its parts are numbers that are parsed.
            fn most(&self, e: &Expr, small: &mut Vec<(String, T)>) -> Option<u128> {
                match e {
                    Expr::Paren(p) => self.most(&p.expr, small),
                    Expr::Cast(c) if norm(&c.ty) == "i32" => self.most(&c.expr, small),
                    Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(n), .. }) => n.base10_parse().ok(),
                    Expr::Binary(b) if norm(&b.op) == "+" => self.most(&b.left, small)?.checked_add(self.most(&b.right, small)?),
                    Expr::Binary(b) if norm(&b.op) == "*" => self.most(&b.left, small)?.checked_mul(self.most(&b.right, small)?),
                    Expr::Path(_) => {
                        let t = self.leaf(e)?;
                        let mut d = &t;
                        if let T::Call(k, _) = d {
                            d = &self.defs.get(k)?.term;
                        }
                        let T::Dec(_, max) = d else { return None };
                        small.push((format!("small:{max}"), t.clone()));
                        Some(*max)
                    }
                    _ => None,
                }
            }
            /// The closures whose value it is.
            fn origins(&self, t: &T, out: &mut BTreeSet<usize>, depth: usize) -> bool {
                match t {
                    T::Map(_, k) | T::Filter(_, k, _) if *k >= 3 => {
                        out.insert(*k);
                        true
                    }
                    T::Alt(x, y) => self.origins(x, out, depth) && self.origins(y, out, depth),
                    T::AltN(v) => v.iter().all(|t| self.origins(t, out, depth)),
                    T::Call(k, _) => depth < 9 && self.defs.get(k).is_some_and(|d| !d.param && !d.guard && self.origins(&d.term, out, depth + 1)),
                    _ => false,
                }
            }
            /// The bytes it can be.
            fn single(t: &T, out: &mut BTreeSet<u8>) -> bool {
                match t {
                    T::Tag(b, false) if b.len() == 1 => {
                        out.insert(b[0]);
                        true
                    }
                    T::Alt(x, y) => Self::single(x, out) && Self::single(y, out),
                    T::AltN(v) => v.iter().all(|t| Self::single(t, out)),
                    _ => false,
                }
            }
            /// No arm that is `unreachable!()` is reached: what is matched on is the value of closures (or one of the
            /// bytes) that other arms are for.
            fn unreached(&mut self, m: &syn::ExprMatch) -> bool {
                let Some(t) = self.leaf(&m.expr) else { return false };
                let dead = |a: &syn::Arm| matches!(&*a.body, Expr::Macro(x) if path_of(&x.mac.path) == "unreachable");
                let (mut live, mut gone) = (BTreeSet::new(), BTreeSet::new());
                let mut rest = false;
                for a in &m.arms {
                    let mut h = BTreeSet::new();
                    let any = !pat_heads(&a.pat, &mut h);
                    if dead(a) {
                        gone.extend(h);
                        rest |= any;
                    } else if a.guard.is_none() && !rest {
                        live.extend(h.difference(&gone).cloned().collect::<Vec<_>>());
                        if any {
                            return false;
                        }
                    }
                }
                let mut bytes = BTreeSet::new();
                let (kind, have) = if Self::single(&t, &mut bytes) {
                    (format!("bytes:{}", bytes.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(",")), bytes.iter().map(|b| format!("'{}'", *b as char)).collect::<BTreeSet<_>>())
                } else {
                    let mut o = BTreeSet::new();
                    if !self.origins(&t, &mut o, 0) || o.is_empty() {
                        return false;
                    }
                    let mut have = BTreeSet::new();
                    if !o.iter().all(|k| heads(&self.sites[k - 3].1, &mut have)) {
                        return false;
                    }
                    (format!("made:{}", o.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(",")), have)
                };
                let hit = |h: &String| gone.contains(h) || rest && !live.contains(h);
                if have.iter().any(hit) {
                    // one that is always built
                    let mut o = BTreeSet::new();
                    self.origins(&t, &mut o, 0);
                    let built = o.iter().any(|k| {
                        let mut one = BTreeSet::new();
                        heads(&self.sites[k - 3].1, &mut one) && one.len() == 1 && one.iter().any(hit)
                    });
                    if built {
                        self.out.push(("reached:".into(), t));
                    }
                    return built;
                }
                self.out.push((kind, t));
                true
            }
            fn with<R>(&mut self, p: &Pat, t: &T, f: impl FnOnce(&mut Self) -> R) -> R {
                let mut leaves = vec![];
                let sh = shape(t, &mut leaves);
                let mut b = HashMap::new();
                bind(p, &sh, &leaves, &mut b);
                let old = self.binds.clone();
                self.binds.extend(b);
                let r = f(self);
                self.binds = old;
                r
            }
            fn leaf(&self, e: &Expr) -> Option<T> {
                let n = ident(e)?;
                self.binds.get(&n).filter(|x| x.1).map(|x| x.0.clone())
            }
            fn invariant(&mut self, ty: &str, t: Option<T>, text: String) {
                let kinds: &[&str] = match ty {
                    "Vec1" => &["some"],
                    "Vec2" => &["two"],
                    "Atom" => &["filled", "g_atom"],
                    "AtomExt" => &["filled", "g_atom_ext"],
                    "Tag" => &["filled", "g_tag"],
                    "Text" => &["filled", "g_text"],
                    "ListCharString" => &["filled", "g_list"],
                    "Quoted" => &["g_text"],
                    _ => &[],
                };
                match t {
                    Some(t) if !kinds.is_empty() => self.out.extend(kinds.iter().map(|k| (k.to_string(), t.clone()))),
                    _ => self.bad.push(text),
                }
            }
        }
        impl<'ast, 'b> syn::visit::Visit<'ast> for V<'b> {
            fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
                if m.arms.iter().any(|a| matches!(&*a.body, Expr::Macro(x) if path_of(&x.mac.path) == "unreachable")) && self.unreached(m) {
                    syn::visit::visit_expr(self, &m.expr);
                    for a in &m.arms {
                        if !matches!(&*a.body, Expr::Macro(_)) {
                            syn::visit::visit_arm(self, a);
                        }
                    }
                    return;
                }
                syn::visit::visit_expr_match(self, m);
            }
            fn visit_expr_if(&mut self, i: &'ast syn::ExprIf) {
                if let Expr::Let(l) = &*i.cond {
                    if let (Pat::TupleStruct(p), Some(T::Opt(t))) = (&*l.pat, self.leaf(&l.expr)) {
                        if path_of(&p.path) == "Some" && p.elems.len() == 1 {
                            self.with(&p.elems[0], &t, |v| syn::visit::visit_block(v, &i.then_branch));
                            if let Some((_, e)) = &i.else_branch {
                                syn::visit::visit_expr(self, e);
                            }
                            return;
                        }
                    }
                }
                if let Some(x) = nonempty_first(&i.cond) {
                    self.filled.push(x);
                    syn::visit::visit_expr(self, &i.cond);
                    syn::visit::visit_block(self, &i.then_branch);
                    self.filled.pop();
                    if let Some((_, e)) = &i.else_branch {
                        syn::visit::visit_expr(self, e);
                    }
                    return;
                }
                syn::visit::visit_expr_if(self, i);
            }
            fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
                let op = norm(&b.op);
                if op == "-" {
                    // a digit
                    if let (Expr::Index(i), Expr::Lit(syn::ExprLit { lit: syn::Lit::Byte(c), .. })) = (&*b.left, &*b.right) {
                        if let (Some(t), "0") = (self.leaf(&i.expr), norm(&i.index).as_str()) {
                            self.out.push((format!("atleast:{}", c.value()), t));
                            return syn::visit::visit_expr_binary(self, b);
                        }
                    }
                }
                if ["+", "-", "*", "/", "%", "<<", ">>", "+=", "-=", "*=", "/=", "%="].contains(&op.as_str()) {
                    // small numbers
                    if !matches!(op.as_str(), "+" | "*") {
                        self.bad.push(norm(b));
                    } else {
                        let mut small = vec![];
                        match self.most(&Expr::Binary(b.clone()), &mut small) {
                            Some(m) if m <= i32::MAX as u128 => self.out.extend(small),
                            _ => self.bad.push(norm(b)),
                        }
                        return;
                    }
                }
                if op == "&&" {
                    if let Some(x) = nonempty_first(&b.left) {
                        syn::visit::visit_expr(self, &b.left);
                        self.filled.push(x);
                        syn::visit::visit_expr(self, &b.right);
                        self.filled.pop();
                        return;
                    }
                }
                syn::visit::visit_expr_binary(self, b);
            }
            fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
                let n = m.method.to_string();
                if let ("map", [Expr::Path(p)]) = (n.as_str(), &m.args.iter().cloned().collect::<Vec<_>>()[..]) {
                    if norm(p) == "NaiveDate::unvalidated" {
                        // a date of a year of four digits (Kani, c15: it is valid)
                        if let Expr::Call(c) = &*m.receiver {
                            if let (true, Some(Expr::MethodCall(y))) = (norm(&c.func).ends_with("NaiveDate::from_ymd_opt"), c.args.first()) {
                                if let (true, Some(t)) = (y.method == "into", self.leaf(&y.receiver)) {
                                    self.out.push(("small:9999".into(), t));
                                    return syn::visit::visit_expr(self, &m.receiver);
                                }
                            }
                        }
                    }
                    if let Some(ty) = norm(p).strip_suffix("::unvalidated") {
                        // of an option
                        let t = match self.leaf(&m.receiver) {
                            Some(T::Opt(t)) => Some(*t),
                            _ => None,
                        };
                        let t = t.map(|t| match t {
                            T::Preceded(_, t) | T::Terminated(t, _) | T::Delimited(_, t, _) => *t,
                            t => t,
                        });
                        self.invariant(ty, t, norm(m));
                        return syn::visit::visit_expr(self, &m.receiver);
                    }
                }
                if n == "unwrap" || n == "expect" {
                    match &*m.receiver {
                        Expr::Call(c) if c.args.len() == 1 => {
                            let f = norm(&c.func);
                            // a text that can be quoted (unit core: it is taken)
                            if f == "IString::try_from" && matches!(&c.args[0], Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) if l.value().bytes().all(|b| (0x20..0x7f).contains(&b))) {
                                return;
                            }
                            if f.ends_with("from_utf8") {
                                if let Some(t) = self.leaf(&c.args[0]) {
                                    self.out.push(("ascii".into(), t));
                                    return;
                                }
                            }
                            if f == "Vec1::try_from" {
                                if let Some(t) = self.leaf(&c.args[0]) {
                                    self.out.push(("some".into(), t));
                                    return;
                                }
                            }
                        }
                        Expr::MethodCall(i) if i.method == "try_into" => {
                            if let Some(t) = self.leaf(&i.receiver) {
                                self.out.push(("some".into(), t));
                                return;
                            }
                        }
                        _ => {}
                    }
                    self.bad.push(norm(m));
                }
                syn::visit::visit_expr_method_call(self, m);
            }
            // values of types with an invariant
            fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
                let f = norm(&c.func);
                if let (Some(ty), 1) = (f.strip_suffix("::unvalidated"), c.args.len()) {
                    let ty = ty.rsplit("::").next().unwrap_or(ty);
                    let mut a = &c.args[0];
                    loop {
                        match a {
                            Expr::Call(i) if i.args.len() == 1 && ["Cow::Borrowed", "Cow::Owned", "unescape_quoted", "from_utf8", "std::str::from_utf8", "str::from_utf8"].contains(&norm(&i.func).as_str()) => a = &i.args[0],
                            Expr::MethodCall(m) if ["unwrap", "into", "to_vec"].contains(&m.method.to_string().as_str()) => a = &m.receiver,
                            Expr::Paren(p) => a = &p.expr,
                            _ => break,
                        }
                    }
                    let fixed = matches!(a, Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) if !l.value().is_empty() && l.value().bytes().all(|b| (0x20..0x7f).contains(&b)) && ty == "Text");
                    if !fixed && ty != "CodeOther" {
                        let t = self.leaf(a);
                        self.invariant(ty, t, norm(c));
                    }
                    return syn::visit::visit_expr(self, &c.args[0]);
                }
                syn::visit::visit_expr_call(self, c);
            }
            fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
                if norm(p).ends_with("::unvalidated") {
                    self.bad.push(norm(p));
                }
            }
            fn visit_expr_index(&mut self, i: &'ast syn::ExprIndex) {
                if norm(&i.index) == "0" {
                    if let Some(t) = self.leaf(&i.expr) {
                        self.out.push(("one".into(), t));
                        return;
                    }
                }
                let x = norm(&i.expr);
                let ix = norm(&i.index);
                if ix == ".." || ix == format!("..{x}.len().saturating_sub(1)") || ix == format!("{x}.len().saturating_sub(1)") && self.filled.contains(&x) {
                    if ix != ".." {
                        self.out.push((if ix.starts_with("..") { "init" } else { "last" }.into(), T::Fail));
                    }
                    return;
                }
                self.bad.push(norm(i));
            }
            fn visit_macro(&mut self, m: &'ast syn::Macro) {
                let n = path_of(&m.path);
                if n == "assert_eq" {
                    let args = syn::parse::Parser::parse2(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated, m.tokens.clone());
                    if let Ok(a) = args {
                        if a.len() == 2 && norm(&a[1]) == "1" {
                            if let Expr::MethodCall(c) = &a[0] {
                                if c.method == "len" {
                                    if let Some(t) = self.leaf(&c.receiver) {
                                        self.out.push(("one".into(), t));
                                        return;
                                    }
                                }
                            }
                        }
                    }
                    self.bad.push(norm(m));
                } else if ["unreachable", "panic", "assert", "todo", "unimplemented", "assert_ne"].contains(&n.as_str()) {
                    self.bad.push(norm(m));
                }
            }
        }
        let mut v = V { binds: binds.clone(), defs: &self.defs, sites: &self.sites, filled: vec![], out: vec![], bad: vec![] };
        syn::visit::Visit::visit_expr(&mut v, e);
        let (out, bad) = (v.out, v.bad);
        for x in out {
            if !self.panics.contains(&x) {
                self.panics.push(x);
            }
        }
        for x in bad {
            let x = format!("{}: {x}", self.here);
            if !self.unchecked.contains(&x) {
                self.unchecked.push(x);
            }
        }
    }

    // ----- functions

    /// `P(cur)`: the parser applied to the current input.
    fn applied(&mut self, e: &Expr, env: &Env, cur: &str) -> Option<Res<T>> {
        match e {
            Expr::Paren(p) => self.applied(&p.expr, env, cur),
            Expr::Call(c) => {
                if c.args.is_empty() || ident(&c.args[0]).as_deref() != Some(cur) {
                    return None;
                }
                if c.args.len() == 1 {
                    return Some(self.parser(&c.func, env));
                }
                if c.args.len() == 2 {
                    if let Expr::Path(p) = &*c.func {
                        let full = self.resolve(&env.module, &path_of(&p.path));
                        return Some((|| {
                            let (m, f) = self.find(&full).ok_or(format!("function {full}"))?;
                            if byte_params(&f) != (1, 1) {
                                return Err(format!("function {full}"));
                            }
                            let a = self.arg(env, &c.args[1])?;
                            let key = format!("{m}::{}", f.sig.ident);
                            self.define(&key)?;
                            Ok(T::Call(key, a))
                        })());
                    }
                }
                None
            }
            Expr::MethodCall(m) if m.method == "parse" && m.args.len() == 1 && ident(&m.args[0]).as_deref() == Some(cur) => Some(self.parser(&m.receiver, env)),
            _ => None,
        }
    }

    fn body(&mut self, stmts: &[Stmt], mut env: Env, mut seq: Vec<T>, mut cur: String, input: String) -> Res<T> {
        let plain = plainer(stmts);
        let stmts = &plain[..];
        let mut binds: HashMap<String, (T, bool)> = HashMap::new();
        let mut header: Option<(Vec<T>, HashMap<String, Sym>)> = None;
        let mut i = 0;
        while i < stmts.len() {
            let s = &stmts[i];
            i += 1;
            let names = [cur.as_str(), input.as_str()];
            match s {
                Stmt::Item(_) => {}
                Stmt::Macro(m) => {
                    let t = path_of(&m.mac.path);
                    if !(t.starts_with("log::") || t.starts_with("debug_assert")) {
                        return Err(format!("macro {t}"));
                    }
                }
                Stmt::Local(l) => {
                    let init = l.init.as_ref().ok_or("let without value")?;
                    if init.diverge.is_some() {
                        return Err("let else".into());
                    }
                    if let Expr::Try(t) = &*init.expr {
                        if let Some(p) = self.applied(&t.expr, &env, &cur) {
                            let p = p?;
                            let mut pat = &l.pat;
                            while let Pat::Type(t) = pat {
                                pat = &t.pat;
                            }
                            let Pat::Tuple(tp) = pat else { return Err(format!("pattern {}", norm(pat))) };
                            if tp.elems.len() != 2 {
                                return Err(format!("pattern {}", norm(pat)));
                            }
                            if matches!(tp.elems[0], Pat::Wild(_)) {
                                // a look ahead that decides how to go on
                                let [Stmt::Expr(Expr::If(x), None)] = &stmts[i..] else { return Err("look ahead".into()) };
                                if mentions(&x.cond, &names) || has_try(&x.cond) {
                                    return Err("look ahead".into());
                                }
                                let k = self.site(format!("if {}", norm(&x.cond)), &x.cond);
                                let els = &x.else_branch.as_ref().ok_or("look ahead")?.1;
                                let y = self.body(&x.then_branch.stmts, env.clone(), vec![], cur.clone(), input.clone())?;
                                let n = self.body(&[Stmt::Expr((**els).clone(), None)], env.clone(), vec![], cur.clone(), input.clone())?;
                                seq.push(T::Choose(b(p), k, b(y), b(n)));
                                return Ok(tuple(seq));
                            }
                            let rem = pat_ident(&tp.elems[0]).ok_or(format!("pattern {}", norm(pat)))?;
                            let mut leaves = vec![];
                            let sh = shape(&p, &mut leaves);
                            bind(&tp.elems[1], &sh, &leaves, &mut binds);
                            let mut syms = HashMap::new();
                            bind_sym(&tp.elems[1], &sh, &mut syms);
                            header = Some((leaves, syms));
                            seq.push(p);
                            cur = rem;
                            continue;
                        }
                        return Err(format!("statement {}", norm(l)));
                    }
                    if let Some(n) = pat_ident(&l.pat) {
                        if let Ok(p) = self.parser(&init.expr, &env) {
                            env.parsers.insert(n, p);
                            continue;
                        }
                    }
                    // a statement about values
                    if has_try(&init.expr) || mentions(&init.expr, &names) || mentions(&init.expr, &["return"]) {
                        return Err(match self.parser(&init.expr, &env) {
                            Err(e) => e,
                            _ => format!("statement {}", norm(l)),
                        });
                    }
                    // a parser that is not understood would be bound here
                    if matches!(&*init.expr, Expr::Closure(_)) || looks_like_parser(self, &env, &init.expr) {
                        return Err(self.parser(&init.expr, &env).err().unwrap_or_default());
                    }
                    self.scan_panics(&init.expr, &binds);
                }
                Stmt::Expr(e, semi) => {
                    let last = i == stmts.len();
                    if let Expr::If(x) = e {
                        // the limit of recursion
                        if let (Some(p), true) = (&env.param, seq.is_empty()) {
                            if norm(&x.cond) == format!("{p}==0") && x.else_branch.is_none() && hard(&x.then_branch) {
                                let rest = self.body(&stmts[i..], env.clone(), seq, cur, input)?;
                                return Ok(T::Tuple(vec![T::Call("#guard".into(), Arg::Param), rest]));
                            }
                        }
                        if let Expr::Let(lt) = &*x.cond {
                            // an attempt
                            if let (Some(p), true, false) = (self.applied(&lt.expr, &env, &cur), x.else_branch.is_none(), last) {
                                let p = p?;
                                let (rem, ok) = ok_pat(&lt.pat).ok_or("if let")?;
                                let [Stmt::Expr(Expr::If(y), _)] = &x.then_branch.stmts[..] else { return Err("if let".into()) };
                                if y.else_branch.is_some() || mentions(&y.cond, &names) || mentions(&y.cond, &[&rem]) || has_try(&y.cond) {
                                    return Err("if let".into());
                                }
                                let [Stmt::Expr(Expr::Return(r), _)] = &y.then_branch.stmts[..] else { return Err("if let".into()) };
                                let r = r.expr.as_ref().ok_or("if let")?;
                                if ok_leaf(r, &rem).is_none() {
                                    return Err("if let".into());
                                }
                                let _ = ok;
                                let k = self.site(format!("if {}", norm(&y.cond)), &y.cond);
                                let rest = self.body(&stmts[i..], env.clone(), vec![], cur.clone(), input.clone())?;
                                seq.push(T::Attempt(b(p), k, b(rest)));
                                return Ok(tuple(seq));
                            }
                        }
                        // a literal
                        if norm(&x.cond) == format!("{cur}.is_empty()") && !last {
                            let lit = literal_error(&x.then_branch).ok_or("literal")?;
                            let (leaves, syms) = header.take().ok_or("literal")?;
                            if seq.len() != 1 || x.else_branch.is_some() {
                                return Err("literal".into());
                            }
                            let (open, num, nl, yes, no) = self.literal(&leaves, &syms, &lit)?;
                            // the data
                            let Stmt::Local(l) = &stmts[i] else { return Err("literal data".into()) };
                            let init = l.init.as_ref().ok_or("literal data")?;
                            let Expr::Try(t) = &*init.expr else { return Err("literal data".into()) };
                            let Expr::Call(c) = &*t.expr else { return Err("literal data".into()) };
                            let Expr::Call(tk) = &*c.func else { return Err("literal data".into()) };
                            let Expr::Path(tp) = &*tk.func else { return Err("literal data".into()) };
                            if self.resolve(&env.module, &path_of(&tp.path)) != "nom::bytes::streaming::take"
                                || tk.args.len() != 1
                                || ident(&tk.args[0]).as_deref() != Some(&lit.0)
                                || c.args.len() != 1
                                || ident(&c.args[0]).as_deref() != Some(&cur)
                            {
                                return Err("literal data".into());
                            }
                            let Pat::Tuple(tp) = &l.pat else { return Err("literal data".into()) };
                            cur = pat_ident(&tp.elems[0]).ok_or("literal data")?;
                            i += 1;
                            seq = vec![T::Literal(open, b(num), b(nl), yes, no)];
                            continue;
                        }
                    }
                    if last && semi.is_none() {
                        return self.finish(e, &env, seq, &cur, &input, &binds);
                    }
                    if let Expr::Return(r) = e {
                        if last {
                            return self.finish(r.expr.as_ref().ok_or("return")?, &env, seq, &cur, &input, &binds);
                        }
                    }
                    if has_try(e) || mentions(e, &names) || mentions(e, &["return"]) {
                        return Err(format!("statement {}", norm(e)));
                    }
                    self.scan_panics(e, &binds);
                }
            }
        }
        Err("no result".into())
    }

    fn literal(&mut self, leaves: &[T], syms: &HashMap<String, Sym>, lit: &(String, String)) -> Res<(Vec<u8>, T, T, bool, bool)> {
        let [T::Tag(open, false), num, T::Opt(plus), T::Tag(close, false), nl] = leaves else { return Err(format!("literal header {leaves:?}")) };
        if **plus != T::Tag(b"+".to_vec(), false) || close != b"}" {
            return Err("literal header".into());
        }
        if !matches!(syms.get(&lit.0), Some(Sym::Leaf(1))) {
            return Err("literal length".into());
        }
        let k = match syms.get(&lit.1) {
            Some(Sym::Mapped(k, x)) if matches!(**x, Sym::Leaf(2)) => *k,
            _ => return Err("literal mode".into()),
        };
        let f = self.sites[k - 3].1.clone();
        let Expr::Closure(c) = &f else { return Err("literal mode".into()) };
        let n = c.inputs.first().and_then(pat_ident).ok_or("literal mode")?;
        let yes = mode(&c.body, &n, true)?;
        let no = mode(&c.body, &n, false)?;
        Ok((open.clone(), num.clone(), nl.clone(), yes, no))
    }

    fn finish(&mut self, e: &Expr, env: &Env, mut seq: Vec<T>, cur: &str, input: &str, binds: &HashMap<String, (T, bool)>) -> Res<T> {
        if let Some(p) = self.applied(e, env, cur) {
            seq.push(p?);
            return Ok(tuple(seq));
        }
        match e {
            Expr::Paren(p) => return self.finish(&p.expr, env, seq, cur, input, binds),
            Expr::Return(r) => return self.finish(r.expr.as_ref().ok_or("return")?, env, seq, cur, input, binds),
            Expr::Block(bl) => return self.body(&bl.block.stmts, env.clone(), seq, cur.into(), input.into()),
            Expr::Match(m) => {
                if let Some(p) = self.applied(&m.expr, env, cur) {
                    let p = p?;
                    tag_shape(m, binds).ok_or("match on a parser")?;
                    let k = self.site(format!("match {}", norm(m)), e);
                    let first = tuple(seq);
                    return Ok(T::Map(b(T::Tagged(b(first), b(p))), k));
                }
            }
            _ => {}
        }
        let mut kinds = BTreeSet::new();
        leaves(e, cur, input, &mut kinds)?;
        self.scan_panics(e, binds);
        let k = self.site(norm(e), e);
        let t = if seq.is_empty() { None } else { Some(tuple(seq)) };
        let kinds: Vec<_> = kinds.into_iter().collect();
        Ok(match (&kinds[..], t) {
            (["ok"], Some(t)) => T::Map(b(t), k),
            (["ok"], None) => T::Success(k),
            (["hard"], None) => T::Fail,
            (["soft"], None) => T::Error,
            (["hard", "ok"], Some(t)) => T::Filter(b(t), k, true),
            (["ok", "soft"], Some(t)) => T::Filter(b(t), k, false),
            _ => return Err(format!("result {}", norm(e))),
        })
    }

    pub fn define(&mut self, key: &str) -> Res<()> {
        if self.defs.contains_key(key) || self.stack.iter().any(|s| s == key) {
            return Ok(());
        }
        let (m, f) = self.find(key).ok_or(format!("function {key}"))?;
        let mut input = None;
        let mut param = None;
        for a in &f.sig.inputs {
            let syn::FnArg::Typed(t) = a else { return Err("self".into()) };
            let n = pat_ident(&t.pat).ok_or("parameter")?;
            match norm(&t.ty).replace("'a", "").as_str() {
                "&[u8]" => input = Some(n),
                "usize" => param = Some(n),
                x => return Err(format!("{key}: parameter {x}")),
            }
        }
        let input = input.ok_or(format!("{key}: no input"))?;
        let env = Env { module: m.clone(), parsers: HashMap::new(), param: param.clone(), preds: HashMap::new() };
        self.stack.push(key.to_string());
        let saved = std::mem::take(&mut self.panics);
        let here = std::mem::replace(&mut self.here, format!("{}: {}", self.mods[&m].file, f.sig.ident));
        let t = self.body(&f.block.stmts, env, vec![], input.clone(), input);
        let panics = std::mem::replace(&mut self.panics, saved);
        self.here = here;
        self.stack.pop();
        let t = t.map_err(|e| if e.contains(" in ") { e } else { format!("{e} in {key}") })?;
        let (guard, t) = match t {
            T::Tuple(v) if v.len() == 2 && v[0] == T::Call("#guard".into(), Arg::Param) => (true, v[1].clone()),
            t => (false, t),
        };
        let line = f.sig.ident.span().start().line;
        self.defs.insert(key.to_string(), Def { term: lower(t), param: param.is_some(), guard, file: self.mods[&m].file.clone(), line, panics });
        self.order.push(key.to_string());
        Ok(())
    }

    // ----- decoders

    /// `impl Decoder for X`: what `decode` makes of each result of its parser.
    pub fn decoder(&mut self, codec: &str) -> Res<String> {
        let module = "crate::codec::decode".to_string();
        let file = self.mods[&module].file.clone();
        let text = crate::read(&format!("{}/{file}", self.repo));
        let f = syn::parse_file(&text).map_err(|e| e.to_string())?;
        let im = f
            .items
            .iter()
            .find_map(|i| match i {
                Item::Impl(im) if norm(&im.self_ty) == codec && im.trait_.as_ref().is_some_and(|t| norm(&t.1) == "Decoder") => Some(im.clone()),
                _ => None,
            })
            .ok_or(format!("impl Decoder for {codec}"))?;
        let mut m = im
            .items
            .iter()
            .find_map(|i| match i {
                syn::ImplItem::Fn(f) if f.sig.ident == "decode" => Some(f.clone()),
                _ => None,
            })
            .ok_or("decode")?;
        syn::visit_mut::VisitMut::visit_impl_item_fn_mut(&mut Strip(self.cfg), &mut m);
        let input = m.sig.inputs.iter().find_map(|a| if let syn::FnArg::Typed(t) = a { pat_ident(&t.pat) } else { None }).ok_or("decode")?;
        let env = Env { module, parsers: HashMap::new(), param: None, preds: HashMap::new() };
        let [Stmt::Expr(Expr::Match(mt), None)] = &m.block.stmts[..] else { return Err(format!("{codec}::decode")) };
        let T::Call(key, Arg::None) = self.applied(&mt.expr, &env, &input).ok_or("decode")?? else { return Err("decode".into()) };
        let any = |n: &str| Sv::Var(n.into());
        let err = |k: &str, kind: Sv| Sv::Ctor("Err".into(), vec![("0".into(), Sv::Ctor(k.into(), vec![("0".into(), Sv::Ctor("IMAPParseError".into(), vec![("input".into(), any("input")), ("kind".into(), kind)]))]))]);
        let cases = [
            ("R::Ok(n, v)", Sv::Ctor("Ok".into(), vec![("0".into(), Sv::Tuple(vec![any("rem"), any("msg")]))])),
            ("R::Inc", Sv::Ctor("Err".into(), vec![("0".into(), Sv::Ctor("Incomplete".into(), vec![("0".into(), any("needed"))]))])),
            ("R::Err", err("Error", Sv::Other)),
            ("R::Fail", err("Failure", Sv::Other)),
            ("R::Lit(n, m, g)", err("Failure", Sv::Ctor("Literal".into(), vec![("tag".into(), any("tag")), ("length".into(), any("length")), ("mode".into(), any("mode"))]))),
        ];
        let name = codec.strip_suffix("Codec").unwrap_or(codec).to_string();
        let mut o = format!("/// `{file}`: `impl Decoder for {codec}`\nspec fn dec_{name}(s: Seq<u8>) -> D {{\n    match {}()(s) {{\n", fname(&key));
        for (pat, v) in cases {
            let r = run_match(mt, &v, &HashMap::new())?;
            o.push_str(&format!("        {pat} => {r},\n"));
        }
        o.push_str("    }\n}\n");
        // the parser behind the decoder, by name
        o.push_str(&format!("spec fn root_{name}() -> P {{ {}() }}\n", fname(&key)));
        Ok(o)
    }
}

enum Pv {
    Int(i64),
    Bool(bool),
}
impl Pv {
    fn bool(self) -> Res<bool> {
        match self {
            Pv::Bool(b) => Ok(b),
            _ => Err("not a bool".into()),
        }
    }
    fn int(self) -> Res<i64> {
        match self {
            Pv::Int(b) => Ok(b),
            _ => Err("not a number".into()),
        }
    }
}

#[derive(Clone, Debug)]
enum Sv {
    Ctor(String, Vec<(String, Sv)>),
    Tuple(Vec<Sv>),
    Var(String),
    /// some error kind that is not `Literal`
    Other,
}

fn run_match(m: &syn::ExprMatch, v: &Sv, env: &HashMap<String, Sv>) -> Res<String> {
    for a in &m.arms {
        if a.guard.is_some() {
            return Err("guard in decode".into());
        }
        let mut e2 = env.clone();
        if sv_match(&a.pat, v, &mut e2)? {
            return run_body(&a.body, &e2);
        }
    }
    Err("decode: no arm".into())
}
fn sv_match(p: &Pat, v: &Sv, env: &mut HashMap<String, Sv>) -> Res<bool> {
    let uncertain = |p: &Pat| Err(format!("pattern {}", norm(p)));
    Ok(match p {
        Pat::Wild(_) => true,
        Pat::Paren(p) => sv_match(&p.pat, v, env)?,
        Pat::Reference(p) => sv_match(&p.pat, v, env)?,
        Pat::Ident(i) if i.subpat.is_none() => {
            env.insert(i.ident.to_string(), v.clone());
            true
        }
        Pat::Or(o) => {
            for c in &o.cases {
                if sv_match(c, v, env)? {
                    return Ok(true);
                }
            }
            false
        }
        Pat::Tuple(t) => match v {
            Sv::Tuple(vs) if vs.len() == t.elems.len() => {
                for (p, v) in t.elems.iter().zip(vs) {
                    if !sv_match(p, v, env)? {
                        return Ok(false);
                    }
                }
                true
            }
            _ => return uncertain(p),
        },
        Pat::TupleStruct(t) => {
            let n = t.path.segments.last().unwrap().ident.to_string();
            match v {
                Sv::Ctor(c, f) if *c == n && f.len() == t.elems.len() => {
                    for (p, v) in t.elems.iter().zip(f) {
                        if !sv_match(p, &v.1, env)? {
                            return Ok(false);
                        }
                    }
                    true
                }
                Sv::Ctor(c, _) if *c == n && t.elems.len() == 1 && matches!(t.elems[0], Pat::Rest(_)) => true,
                Sv::Ctor(c, _) if *c != n => false,
                _ => return uncertain(p),
            }
        }
        Pat::Struct(s) => {
            let n = s.path.segments.last().unwrap().ident.to_string();
            match v {
                Sv::Ctor(c, f) if *c == n => {
                    for fp in &s.fields {
                        let syn::Member::Named(m) = &fp.member else { return uncertain(p) };
                        let Some(x) = f.iter().find(|x| *m == x.0) else { return uncertain(p) };
                        if !sv_match(&fp.pat, &x.1, env)? {
                            return Ok(false);
                        }
                    }
                    true
                }
                Sv::Ctor(..) => false,
                Sv::Other if n == "Literal" => false,
                _ => return uncertain(p),
            }
        }
        Pat::Path(_) => match v {
            Sv::Ctor(..) => false,
            _ => return uncertain(p),
        },
        _ => return uncertain(p),
    })
}
fn run_body(e: &Expr, env: &HashMap<String, Sv>) -> Res<String> {
    let is = |e: &Expr, n: &str| ident(e).and_then(|i| env.get(&i).cloned()).is_some_and(|v| matches!(v, Sv::Var(x) if x == n));
    match e {
        Expr::Block(bl) if bl.block.stmts.len() == 1 => {
            if let Stmt::Expr(e, None) = &bl.block.stmts[0] {
                return run_body(e, env);
            }
        }
        Expr::Paren(p) => return run_body(&p.expr, env),
        Expr::Match(m) => {
            let mut x = &*m.expr;
            let mut path = vec![];
            while let Expr::Field(f) = x {
                path.push(norm(&f.member));
                x = &f.base;
            }
            let mut v = ident(x).and_then(|n| env.get(&n).cloned()).ok_or("decode: match")?;
            for p in path.iter().rev() {
                v = match v {
                    Sv::Ctor(_, f) => f.into_iter().find(|f| f.0 == *p).ok_or("decode: field")?.1,
                    _ => return Err("decode: field".into()),
                };
            }
            return run_match(m, &v, env);
        }
        Expr::Call(c) if c.args.len() == 1 => {
            let f = norm(&c.func);
            if f == "Ok" {
                if let Expr::Tuple(t) = &c.args[0] {
                    if t.elems.len() == 2 && is(&t.elems[0], "rem") && is(&t.elems[1], "msg") {
                        return Ok("D::Ok(n, v)".into());
                    }
                }
            }
            if f == "Err" {
                match &c.args[0] {
                    Expr::Path(p) => {
                        let n = p.path.segments.last().unwrap().ident.to_string();
                        if n == "Incomplete" {
                            return Ok("D::Inc".into());
                        }
                        if n == "Failed" {
                            return Ok("D::Failed".into());
                        }
                    }
                    Expr::Struct(s) if s.path.segments.last().unwrap().ident == "LiteralFound" && s.rest.is_none() => {
                        let (mut len, mut md, mut tag) = (None, "None".to_string(), None);
                        for f in &s.fields {
                            let n = norm(&f.member);
                            match n.as_str() {
                                "length" if is(&f.expr, "length") => len = Some(()),
                                "mode" if is(&f.expr, "mode") => md = "Some(m)".into(),
                                "tag" => match &f.expr {
                                    Expr::MethodCall(c) if (c.method == "expect" || c.method == "unwrap") && is(&c.receiver, "tag") => tag = Some(()),
                                    _ => return Err("decode: tag".into()),
                                },
                                _ => return Err(format!("decode: {n}")),
                            }
                        }
                        len.ok_or("decode: length")?;
                        return Ok(match tag {
                            None => format!("D::Lit(n, {md}, None)"),
                            Some(()) => format!("match tag_of(g) {{ Some(t) => D::Lit(n, {md}, Some(t)), None => D::Panic }}"),
                        });
                    }
                    _ => {}
                }
            }
        }
        _ => {}
    }
    Err(format!("decode: {}", norm(e)))
}

struct Strip<'a>(&'a Cfg);
impl syn::visit_mut::VisitMut for Strip<'_> {
    fn visit_block_mut(&mut self, bl: &mut syn::Block) {
        bl.stmts.retain(|s| match s {
            Stmt::Local(l) => tr::cfg_ok(&l.attrs, self.0),
            Stmt::Expr(e, _) => tr::cfg_ok(attrs_of(e), self.0),
            Stmt::Macro(m) => tr::cfg_ok(&m.attrs, self.0),
            Stmt::Item(i) => tr::cfg_ok(tr::item_attrs(i), self.0),
        });
        syn::visit_mut::visit_block_mut(self, bl);
    }
    fn visit_expr_call_mut(&mut self, c: &mut syn::ExprCall) {
        c.args = std::mem::take(&mut c.args).into_iter().filter(|e| tr::cfg_ok(attrs_of(e), self.0)).collect();
        syn::visit_mut::visit_expr_call_mut(self, c);
    }
    fn visit_expr_tuple_mut(&mut self, c: &mut syn::ExprTuple) {
        c.elems = std::mem::take(&mut c.elems).into_iter().filter(|e| tr::cfg_ok(attrs_of(e), self.0)).collect();
        syn::visit_mut::visit_expr_tuple_mut(self, c);
    }
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        m.arms.retain(|a| tr::cfg_ok(&a.attrs, self.0));
        syn::visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_attribute_mut(&mut self, _: &mut syn::Attribute) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        clear_attrs(e);
    }
}
fn attrs_of(e: &Expr) -> &[syn::Attribute] {
    match e {
        Expr::Call(x) => &x.attrs,
        Expr::Path(x) => &x.attrs,
        Expr::Closure(x) => &x.attrs,
        Expr::Block(x) => &x.attrs,
        Expr::If(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        Expr::Return(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::Tuple(x) => &x.attrs,
        Expr::Lit(x) => &x.attrs,
        Expr::Paren(x) => &x.attrs,
        Expr::Reference(x) => &x.attrs,
        Expr::Struct(x) => &x.attrs,
        _ => &[],
    }
}
fn clear_attrs(e: &mut Expr) {
    match e {
        Expr::Call(x) => x.attrs.clear(),
        Expr::Path(x) => x.attrs.clear(),
        Expr::Closure(x) => x.attrs.clear(),
        Expr::Block(x) => x.attrs.clear(),
        Expr::If(x) => x.attrs.clear(),
        Expr::Match(x) => x.attrs.clear(),
        Expr::Macro(x) => x.attrs.clear(),
        Expr::Return(x) => x.attrs.clear(),
        Expr::MethodCall(x) => x.attrs.clear(),
        Expr::Tuple(x) => x.attrs.clear(),
        Expr::Lit(x) => x.attrs.clear(),
        Expr::Paren(x) => x.attrs.clear(),
        Expr::Reference(x) => x.attrs.clear(),
        Expr::Struct(x) => x.attrs.clear(),
        _ => {}
    }
}

/// (parameters of type `&[u8]`, of type `usize`)
fn byte_params(f: &syn::ItemFn) -> (usize, usize) {
    let mut r = (0, 0);
    for a in &f.sig.inputs {
        if let syn::FnArg::Typed(t) = a {
            match norm(&t.ty).replace("'a", "").as_str() {
                "&[u8]" => r.0 += 1,
                "usize" => r.1 += 1,
                _ => {}
            }
        }
    }
    r
}

fn looks_like_parser(g: &Gen, env: &Env, e: &Expr) -> bool {
    match e {
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => g.resolve(&env.module, &path_of(&p.path)).starts_with("nom::"),
            _ => false,
        },
        _ => false,
    }
}

fn tuple(mut seq: Vec<T>) -> T {
    if seq.len() == 1 {
        seq.pop().unwrap()
    } else {
        T::Tuple(seq)
    }
}

fn subst_arg(t: T, a: &Arg) -> T {
    let f = |t: Box<T>| b(subst_arg(*t, a));
    match t {
        T::Call(k, Arg::Param) => T::Call(k, a.clone()),
        T::Call(k, Arg::Pred) => match a {
            Arg::Const(n) => T::Call(k, Arg::Const(n.saturating_sub(1))),
            Arg::Param => T::Call(k, Arg::Pred),
            _ => lost(format!("recursion argument of {k}")),
        },
        T::Tuple(v) => T::Tuple(v.into_iter().map(|t| subst_arg(t, a)).collect()),
        T::AltN(v) => T::AltN(v.into_iter().map(|t| subst_arg(t, a)).collect()),
        T::Preceded(x, y) => T::Preceded(f(x), f(y)),
        T::Terminated(x, y) => T::Terminated(f(x), f(y)),
        T::Delimited(x, y, z) => T::Delimited(f(x), f(y), f(z)),
        T::SepPair(x, y, z) => T::SepPair(f(x), f(y), f(z)),
        T::Map(x, k) => T::Map(f(x), k),
        T::Filter(x, k, h) => T::Filter(f(x), k, h),
        T::Opt(x) => T::Opt(f(x)),
        T::Peek(x) => T::Peek(f(x)),
        T::Recognize(x) => T::Recognize(f(x)),
        T::Cut(x) => T::Cut(f(x)),
        T::Many0(x) => T::Many0(f(x)),
        T::Many1(x) => T::Many1(f(x)),
        T::SepList0(x, y) => T::SepList0(f(x), f(y)),
        T::SepList1(x, y) => T::SepList1(f(x), f(y)),
        T::ManyMN(l, h, x) => T::ManyMN(l, h, f(x)),
        t => t,
    }
}

/// `str::parse::<uN>`: the largest value.
fn parses(e: &Expr) -> Option<u128> {
    let t = norm(e);
    for (n, m) in [("u8", u8::MAX as u128), ("u16", u16::MAX as u128), ("u32", u32::MAX as u128), ("u64", u64::MAX as u128)] {
        if t == format!("str::parse::<{n}>") || t == format!("{n}::from_str") {
            return Some(m);
        }
        if let Expr::Closure(c) = e {
            if let Some(x) = c.inputs.first().and_then(pat_ident) {
                if norm(&c.body) == format!("{x}.parse::<{n}>()") {
                    return Some(m);
                }
            }
        }
    }
    None
}

fn shape(t: &T, out: &mut Vec<T>) -> Sym {
    match t {
        T::Tuple(v) => Sym::Tuple(v.iter().map(|t| shape(t, out)).collect()),
        T::Preceded(x, y) => {
            shape(x, out);
            shape(y, out)
        }
        T::Terminated(x, y) => {
            let r = shape(x, out);
            shape(y, out);
            r
        }
        T::Delimited(x, y, z) => {
            shape(x, out);
            let r = shape(y, out);
            shape(z, out);
            r
        }
        T::SepPair(x, y, z) => {
            let l = shape(x, out);
            shape(y, out);
            Sym::Tuple(vec![l, shape(z, out)])
        }
        T::Map(x, k) => Sym::Mapped(*k, Box::new(shape(x, out))),
        t => {
            out.push(t.clone());
            Sym::Leaf(out.len() - 1)
        }
    }
}
/// `!x.is_empty()`, or it and more.
fn nonempty_first(e: &Expr) -> Option<String> {
    match e {
        Expr::Paren(p) => nonempty_first(&p.expr),
        Expr::Binary(b) if norm(&b.op) == "&&" => nonempty_first(&b.left),
        Expr::Unary(u) if norm(&u.op) == "!" => match &*u.expr {
            Expr::MethodCall(m) if m.method == "is_empty" && ident(&m.receiver).is_some() => ident(&m.receiver),
            _ => None,
        },
        _ => None,
    }
}
/// The constructor of a path, if it is one.
fn ctor(p: &syn::Path) -> Option<String> {
    let l = p.segments.last()?.ident.to_string();
    (p.segments.len() == 2 && p.segments.iter().all(|s| s.ident.to_string().starts_with(char::is_uppercase)) && p.segments[0].ident != "Self").then_some(l)
}
/// The constructors of a pattern; false: others as well.
fn pat_heads(p: &Pat, out: &mut BTreeSet<String>) -> bool {
    match p {
        Pat::Paren(p) => pat_heads(&p.pat, out),
        Pat::Or(o) => o.cases.iter().fold(true, |a, p| pat_heads(p, out) && a),
        Pat::TupleStruct(t) if t.elems.iter().all(|p| matches!(p, Pat::Wild(_) | Pat::Ident(_) | Pat::Rest(_))) => ctor(&t.path).map(|c| out.insert(c)).is_some(),
        Pat::Struct(t) if t.rest.is_some() || t.fields.iter().all(|f| matches!(*f.pat, Pat::Wild(_) | Pat::Ident(_))) => ctor(&t.path).map(|c| out.insert(c)).is_some(),
        Pat::Path(t) => ctor(&t.path).map(|c| out.insert(c)).is_some(),
        Pat::Lit(syn::ExprLit { lit: syn::Lit::Char(_), .. }) => {
            out.insert(norm(p));
            true
        }
        _ => false,
    }
}
/// The constructors its value can have; false: unknown.
fn heads(e: &Expr, out: &mut BTreeSet<String>) -> bool {
    match e {
        Expr::Paren(p) => heads(&p.expr, out),
        Expr::Closure(c) => heads(&c.body, out),
        Expr::Path(p) => ctor(&p.path).map(|c| out.insert(c)).is_some(),
        Expr::Struct(s) => ctor(&s.path).map(|c| out.insert(c)).is_some(),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) if norm(p) == "Ok" && c.args.len() == 1 => match &c.args[0] {
                Expr::Tuple(t) if t.elems.len() == 2 => heads(&t.elems[1], out),
                _ => false,
            },
            Expr::Path(p) => ctor(&p.path).map(|c| out.insert(c)).is_some(),
            _ => false,
        },
        Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(x, None)) if heads(x, out)),
        Expr::If(i) => {
            matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(x, None)) if heads(x, out)) && i.else_branch.as_ref().is_some_and(|(_, x)| heads(x, out))
        }
        Expr::Match(m) => m.arms.iter().all(|a| heads(&a.body, out)),
        _ => false,
    }
}
fn bind_sym(p: &Pat, s: &Sym, out: &mut HashMap<String, Sym>) {
    match (p, s) {
        (Pat::Type(t), s) => bind_sym(&t.pat, s, out),
        (Pat::Paren(t), s) => bind_sym(&t.pat, s, out),
        (Pat::Ident(i), s) => {
            out.insert(i.ident.to_string(), s.clone());
        }
        (Pat::Tuple(t), Sym::Tuple(v)) if t.elems.len() == v.len() => t.elems.iter().zip(v).for_each(|(p, s)| bind_sym(p, s, out)),
        (Pat::Tuple(t), _) => t.elems.iter().for_each(|p| bind_sym(p, &Sym::Any, out)),
        _ => {}
    }
}
/// Variables and the parser whose value they are (false: some function of it).
fn bind(p: &Pat, s: &Sym, leaves: &[T], out: &mut HashMap<String, (T, bool)>) {
    let mut syms = HashMap::new();
    bind_sym(p, s, &mut syms);
    for (n, s) in syms {
        match s {
            Sym::Leaf(i) => {
                out.insert(n, (leaves[i].clone(), true));
            }
            _ => {
                out.insert(n, (T::Fail, false));
            }
        }
    }
}

/// `return Err(nom::Err::Failure(..))` and nothing else, not about a literal.
fn hard(bl: &syn::Block) -> bool {
    let [Stmt::Expr(Expr::Return(r), _)] = &bl.stmts[..] else { return false };
    r.expr.as_ref().is_some_and(|e| is_err(e, "Failure") && !mentions(e, &["Literal"]))
}
fn is_err(e: &Expr, kind: &str) -> bool {
    match e {
        Expr::Call(c) if norm(&c.func) == "Err" && c.args.len() == 1 => match &c.args[0] {
            Expr::Call(k) => norm(&k.func).ends_with(&format!("Err::{kind}")),
            _ => false,
        },
        _ => false,
    }
}
fn literal_error(bl: &syn::Block) -> Option<(String, String)> {
    let [Stmt::Expr(Expr::Return(r), _)] = &bl.stmts[..] else { return None };
    let e = r.expr.as_ref()?;
    if !is_err(e, "Failure") {
        return None;
    }
    struct F(Option<(String, String)>);
    impl<'ast> syn::visit::Visit<'ast> for F {
        fn visit_expr_struct(&mut self, s: &'ast syn::ExprStruct) {
            if s.path.segments.last().unwrap().ident == "Literal" {
                let get = |n: &str| s.fields.iter().find(|f| norm(&f.member) == n).and_then(|f| ident(&f.expr));
                if get("tag").as_deref() == Some("None") && s.fields.len() == 3 {
                    if let (Some(l), Some(m)) = (get("length"), get("mode")) {
                        self.0 = Some((l, m));
                    }
                }
            }
            syn::visit::visit_expr_struct(self, s);
        }
    }
    let mut f = F(None);
    syn::visit::Visit::visit_expr(&mut f, e);
    f.0
}
/// Is the mode non-synchronizing, given whether there is a plus?
fn mode(e: &Expr, n: &str, some: bool) -> Res<bool> {
    match e {
        Expr::Paren(p) => mode(&p.expr, n, some),
        Expr::Block(bl) if bl.block.stmts.len() == 1 => match &bl.block.stmts[0] {
            Stmt::Expr(e, None) => mode(e, n, some),
            _ => Err("mode".into()),
        },
        Expr::Path(p) => match p.path.segments.last().unwrap().ident.to_string().as_str() {
            "NonSync" => Ok(true),
            "Sync" => Ok(false),
            _ => Err("mode".into()),
        },
        Expr::Match(m) if ident(&m.expr).as_deref() == Some(n) => {
            for a in &m.arms {
                if a.guard.is_some() {
                    return Err("mode".into());
                }
                let hit = match &a.pat {
                    Pat::Wild(_) => true,
                    Pat::TupleStruct(t) => t.path.is_ident("Some") && some,
                    Pat::Ident(i) if i.ident == "None" => !some,
                    Pat::Path(p) => p.path.is_ident("None") && !some,
                    _ => return Err("mode".into()),
                };
                if hit {
                    return mode(&a.body, n, some);
                }
            }
            Err("mode".into())
        }
        Expr::If(i) => {
            let c = norm(&i.cond);
            let v = if c == format!("{n}.is_some()") || c == format!("letSome(_)={n}") {
                some
            } else if c == format!("{n}.is_none()") {
                !some
            } else {
                return Err("mode".into());
            };
            if v {
                mode(&Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() }), n, some)
            } else {
                mode(&i.else_branch.as_ref().ok_or("mode")?.1, n, some)
            }
        }
        Expr::MethodCall(m) if ["unwrap_or", "map_or", "unwrap_or_else", "map_or_else"].contains(&m.method.to_string().as_str()) => {
            let call = |e: &Expr| match e {
                Expr::Closure(c) => mode(&c.body, n, some),
                e => mode(e, n, some),
            };
            let name = m.method.to_string();
            if name.starts_with("map_or") {
                if ident(&m.receiver).as_deref() != Some(n) || m.args.len() != 2 {
                    return Err("mode".into());
                }
                return call(&m.args[if some { 1 } else { 0 }]);
            }
            if !some {
                return call(&m.args[0]);
            }
            match &*m.receiver {
                Expr::MethodCall(mm) if mm.method == "map" && ident(&mm.receiver).as_deref() == Some(n) => call(&mm.args[0]),
                _ => Err("mode".into()),
            }
        }
        _ => Err("mode".into()),
    }
}

/// `Ok((rem, v))`
fn ok_leaf<'e>(e: &'e Expr, rem: &str) -> Option<&'e Expr> {
    match e {
        Expr::Call(c) if norm(&c.func) == "Ok" && c.args.len() == 1 => match &c.args[0] {
            Expr::Tuple(t) if t.elems.len() == 2 && ident(&t.elems[0]).as_deref() == Some(rem) && !mentions(&t.elems[1], &[rem]) && !has_try(&t.elems[1]) => Some(&t.elems[1]),
            _ => None,
        },
        _ => None,
    }
}
fn ok_pat(p: &Pat) -> Option<(String, Pat)> {
    match p {
        Pat::TupleStruct(t) if t.path.is_ident("Ok") && t.elems.len() == 1 => match &t.elems[0] {
            Pat::Tuple(t) if t.elems.len() == 2 => Some((pat_ident(&t.elems[0])?, t.elems[1].clone())),
            _ => None,
        },
        _ => None,
    }
}

/// Is the arm `Err(e) => Err(e)` (or `return Err(e)`)?
fn passes(a: &syn::Arm, ret: bool) -> bool {
    let Pat::TupleStruct(t) = &a.pat else { return false };
    if !t.path.is_ident("Err") || a.guard.is_some() || t.elems.len() != 1 {
        return false;
    }
    let Some(e) = pat_ident(&t.elems[0]) else { return false };
    let b = norm(&a.body);
    let b = b.strip_prefix('{').and_then(|b| b.strip_suffix('}')).unwrap_or(&b);
    let b = b.trim_end_matches(';');
    b == format!("returnErr({e})") || (!ret && b == format!("Err({e})"))
}

/// The same statements with fewer ways of writing them:
/// `match p(i) { Ok(x) => x, Err(e) => return Err(e) }` is `p(i)?`;
/// `match p(i) { Ok((r, x)) => B, Err(e) => Err(e) }` at the end is `let (r, x) = p(i)?; B`;
/// `let (r, x) = match p(i) { Ok(o) => o, Err(mut e) => { S; return Err(e) } }; B` is `match p(i) { Ok((r, x)) => B, Err(mut e) => { S; Err(e) } }`;
/// `let r = p(i);` used once, directly after, is `p(i)` there;
/// `let _ = v;` for a value without effect is nothing.
fn plainer(stmts: &[Stmt]) -> Vec<Stmt> {
    let mut out: Vec<Stmt> = vec![];
    let mut i = 0;
    while i < stmts.len() {
        let s = stmts[i].clone();
        i += 1;
        match &s {
            Stmt::Local(l) if l.init.as_ref().is_some_and(|x| x.diverge.is_none()) => {
                let init = &l.init.as_ref().unwrap().expr;
                if matches!(l.pat, Pat::Wild(_)) && effectless(init) {
                    continue;
                }
                if let Expr::Match(m) = &**init {
                    if m.arms.len() == 2 {
                        let same = match &m.arms[0].pat {
                            Pat::TupleStruct(t) if t.path.is_ident("Ok") && t.elems.len() == 1 && m.arms[0].guard.is_none() => norm(&t.elems[0]) == norm(&m.arms[0].body),
                            _ => false,
                        };
                        if same && passes(&m.arms[1], true) {
                            let (e, pat) = (&m.expr, &l.pat);
                            if let Ok(n) = syn::parse2::<Stmt>(quote::quote!(let #pat = #e ?;)) {
                                out.push(n);
                                continue;
                            }
                        }
                        if let (true, Pat::TupleStruct(_), Expr::Block(bl), [Stmt::Expr(rest, None)]) = (same, &m.arms[1].pat, &*m.arms[1].body, &stmts[i..]) {
                            if let Some((Stmt::Expr(Expr::Return(r), _), init)) = bl.block.stmts.split_last() {
                                let (e, pat, ep, r) = (&m.expr, &l.pat, &m.arms[1].pat, &r.expr);
                                if let Ok(n) = syn::parse2::<Expr>(quote::quote!(match #e { Ok(#pat) => #rest, #ep => { #(#init)* #r } })) {
                                    out.push(Stmt::Expr(n, None));
                                    return out;
                                }
                            }
                        }
                    }
                }
                // a result kept for the next statement
                if let (Some(n), Expr::Call(_), Some(Stmt::Expr(Expr::If(x), semi))) = (pat_ident(&l.pat), &**init, stmts.get(i)) {
                    if let Expr::Let(lt) = &*x.cond {
                        let once = stmts[i + 1..].iter().all(|s| !mentions(s, &[&n])) && !mentions(&x.then_branch, &[&n]) && x.else_branch.as_ref().is_none_or(|e| !mentions(&e.1, &[&n]));
                        if once && ident(&lt.expr).as_deref() == Some(&n) && !matches!(&*lt.expr, Expr::Reference(_)) {
                            let mut x = x.clone();
                            let mut lt = lt.clone();
                            lt.expr = init.clone();
                            x.cond = Box::new(Expr::Let(lt));
                            out.push(Stmt::Expr(Expr::If(x), *semi));
                            i += 1;
                            continue;
                        }
                    }
                }
                out.push(s);
            }
            Stmt::Expr(Expr::Match(m), None) if i == stmts.len() && m.arms.len() == 2 && passes(&m.arms[1], false) && m.arms[0].guard.is_none() => {
                let (e, body) = (&m.expr, &m.arms[0].body);
                match &m.arms[0].pat {
                    Pat::TupleStruct(t) if t.path.is_ident("Ok") && t.elems.len() == 1 && matches!(t.elems[0], Pat::Tuple(_)) => {
                        let pat = &t.elems[0];
                        match syn::parse2::<Stmt>(quote::quote!(let #pat = #e ?;)) {
                            Ok(n) => {
                                out.push(n);
                                out.push(Stmt::Expr((**body).clone(), None));
                            }
                            _ => out.push(s.clone()),
                        }
                    }
                    _ => out.push(s.clone()),
                }
            }
            _ => out.push(s),
        }
    }
    out
}
/// Names, literals, lengths: nothing happens.
fn effectless(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Reference(r) => effectless(&r.expr),
        Expr::Paren(r) => effectless(&r.expr),
        Expr::Tuple(t) => t.elems.iter().all(effectless),
        Expr::MethodCall(m) => m.args.is_empty() && ["len", "is_empty"].contains(&m.method.to_string().as_str()) && effectless(&m.receiver),
        _ => false,
    }
}

/// The results of an expression that decides by values alone.
fn leaves(e: &Expr, cur: &str, input: &str, out: &mut BTreeSet<&'static str>) -> Res<()> {
    let names = [cur, input];
    let pure = |e: &Expr| if has_try(e) || mentions(e, &names) || mentions(e, &["return"]) { Err(format!("expression {}", norm(e))) } else { Ok(()) };
    let block = |bl: &syn::Block, out: &mut BTreeSet<&'static str>| -> Res<()> {
        for (i, s) in bl.stmts.iter().enumerate() {
            match s {
                Stmt::Expr(e, None) if i + 1 == bl.stmts.len() => return leaves(e, cur, input, out),
                Stmt::Expr(Expr::Return(r), _) if i + 1 == bl.stmts.len() => return leaves(r.expr.as_ref().ok_or("return")?, cur, input, out),
                Stmt::Expr(e, _) => pure(e)?,
                Stmt::Local(l) => {
                    let init = l.init.as_ref().ok_or("let")?;
                    if init.diverge.is_some() {
                        return Err("let else".into());
                    }
                    pure(&init.expr)?
                }
                Stmt::Macro(m) if path_of(&m.mac.path).starts_with("log::") => {}
                _ => return Err("statement".into()),
            }
        }
        Err("no result".into())
    };
    if ok_leaf(e, cur).is_some() {
        if mentions(ok_leaf(e, cur).unwrap(), &names) {
            return Err("input in a value".into());
        }
        out.insert("ok");
        return Ok(());
    }
    if is_err(e, "Failure") && !mentions(e, &["Literal"]) {
        out.insert("hard");
        return Ok(());
    }
    if is_err(e, "Error") && !mentions(e, &["Literal"]) {
        out.insert("soft");
        return Ok(());
    }
    match e {
        Expr::Paren(p) => leaves(&p.expr, cur, input, out),
        Expr::Return(r) => leaves(r.expr.as_ref().ok_or("return")?, cur, input, out),
        Expr::Block(bl) => block(&bl.block, out),
        Expr::If(i) => {
            pure(&i.cond)?;
            block(&i.then_branch, out)?;
            leaves(&i.else_branch.as_ref().ok_or("if without else")?.1, cur, input, out)
        }
        Expr::Match(m) => {
            pure(&m.expr)?;
            for a in &m.arms {
                if let Some((_, g)) = &a.guard {
                    pure(g)?;
                }
                leaves(&a.body, cur, input, out)?;
            }
            Ok(())
        }
        _ => Err(format!("result {}", norm(e))),
    }
}

/// `match body(remaining) { Ok(..) => Ok(..), Err(mut e) => { fill in the tag of a literal; Err(e) } }`
fn tag_shape(m: &syn::ExprMatch, binds: &HashMap<String, (T, bool)>) -> Option<()> {
    if m.arms.len() != 2 {
        return None;
    }
    let (rem, _) = ok_pat(&m.arms[0].pat)?;
    ok_leaf(&m.arms[0].body, &rem)?;
    let Pat::TupleStruct(t) = &m.arms[1].pat else { return None };
    if !t.path.is_ident("Err") || m.arms.iter().any(|a| a.guard.is_some()) {
        return None;
    }
    let err = pat_ident(&t.elems[0])?;
    let Expr::Block(bl) = &*m.arms[1].body else { return None };
    let [Stmt::Expr(Expr::If(a), _), Stmt::Expr(r, None)] = &bl.block.stmts[..] else { return None };
    if norm(r) != format!("Err({err})") || a.else_branch.is_some() {
        return None;
    }
    let Expr::Let(l) = &*a.cond else { return None };
    if norm(&l.expr).trim_start_matches("&mut") != err {
        return None;
    }
    let mut v = None;
    let pats: Vec<&Pat> = match &*l.pat {
        Pat::Or(o) => o.cases.iter().collect(),
        p => vec![p],
    };
    let mut fail = false;
    for p in pats {
        let Pat::TupleStruct(t) = p else { return None };
        let n = t.path.segments.last()?.ident.to_string();
        if n == "Failure" {
            fail = true;
        } else if n != "Error" {
            return None;
        }
        v = Some(pat_ident(&t.elems[0])?);
    }
    let v = v?;
    let [Stmt::Expr(Expr::If(c), _)] = &a.then_branch.stmts[..] else { return None };
    let Expr::Let(l) = &*c.cond else { return None };
    if !fail || c.else_branch.is_some() || norm(&l.expr).trim_start_matches("&mut") != format!("{v}.kind") {
        return None;
    }
    let Pat::Struct(s) = &*l.pat else { return None };
    if s.path.segments.last()?.ident != "Literal" || s.fields.len() != 1 || s.rest.is_none() || norm(&s.fields[0].member) != "tag" {
        return None;
    }
    let tag = pat_ident(&s.fields[0].pat)?;
    let [Stmt::Expr(Expr::Assign(x), _)] = &c.then_branch.stmts[..] else { return None };
    if norm(&x.left) != format!("*{tag}") {
        return None;
    }
    let Expr::Call(c) = &*x.right else { return None };
    if norm(&c.func) != "Some" || !binds.contains_key(&ident(&c.args[0])?) {
        return None;
    }
    Some(())
}

/// Down to the combinators that have lemmas.
pub fn lower(t: T) -> T {
    let f = |t: Box<T>| b(lower(*t));
    fn pairs(mut v: Vec<T>) -> T {
        let x = lower(v.remove(0));
        if v.is_empty() {
            x
        } else {
            T::Pair(b(x), b(pairs(v)))
        }
    }
    fn alts(mut v: Vec<T>) -> T {
        let x = lower(v.remove(0));
        if v.is_empty() {
            x
        } else {
            T::Alt(b(x), b(alts(v)))
        }
    }
    match t {
        T::Tuple(v) => pairs(v),
        T::AltN(v) => alts(v),
        T::Preceded(x, y) => T::Map(b(T::Pair(f(x), f(y))), 1),
        T::Terminated(x, y) => T::Map(b(T::Pair(f(x), f(y))), 0),
        T::Delimited(x, y, z) => T::Map(b(T::Pair(f(x), b(T::Map(b(T::Pair(f(y), f(z))), 0)))), 1),
        T::SepPair(x, y, z) => T::Pair(f(x), b(T::Map(b(T::Pair(f(y), f(z))), 1))),
        T::Many1(x) => {
            let x = f(x);
            T::Pair(x.clone(), b(T::Many0(x)))
        }
        T::SepList1(s, x) => {
            let x = f(x);
            T::Pair(x.clone(), b(T::More(f(s), x)))
        }
        T::SepList0(s, x) => {
            let x = f(x);
            T::Unless(x.clone(), b(T::Pair(x.clone(), b(T::More(f(s), x)))))
        }
        T::Map(x, k) => T::Map(f(x), k),
        T::Filter(x, k, h) => T::Filter(f(x), k, h),
        T::Dec(x, m) => T::Dec(f(x), m),
        T::Opt(x) => T::Opt(f(x)),
        T::Peek(x) => T::Peek(f(x)),
        T::Recognize(x) => T::Recognize(f(x)),
        T::Cut(x) => T::Cut(f(x)),
        T::Many0(x) => T::Many0(f(x)),
        T::ManyMN(l, h, x) => T::ManyMN(l, h, f(x)),
        T::Escaped(x, c, y) => T::Escaped(f(x), c, f(y)),
        T::Literal(o, n, l, y, no) => T::Literal(o, f(n), f(l), y, no),
        T::Attempt(x, k, y) => T::Attempt(f(x), k, f(y)),
        T::Choose(x, k, y, z) => T::Choose(f(x), k, f(y), f(z)),
        T::Tagged(x, y) => T::Tagged(f(x), f(y)),
        T::Without(n, v) => T::Without(n, v.into_iter().map(lower).collect()),
        t => t,
    }
}

pub fn fname(key: &str) -> String {
    format!("p_{}", key.strip_prefix("crate::").unwrap_or(key).replace("extensions::", "").replace("::", "_"))
}
