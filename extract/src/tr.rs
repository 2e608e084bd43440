//! Transformations of the parsed code. Each is meaning preserving or routes a call to a wrapper with an assumed contract.
use proc_macro2::{TokenStream, TokenTree};
use quote::{quote, ToTokens};
use syn::{
    parse_quote,
    visit_mut::{self, VisitMut},
    Attribute, Expr, Item, Pat, Stmt,
};

use crate::{lost, norm, norm_s, Cfg, FnSpec};

pub fn rewrite_directive(s: &mut FnSpec, w: &str, rest: &str) {
    match w {
        // wrap METHOD=FUNC:own|ref|mut
        "wrap" => {
            for x in rest.split_whitespace() {
                let (m, f) = x.split_once('=').unwrap();
                let (f, mode) = f.rsplit_once(':').unwrap();
                s.wraps.retain(|w| w.0 != m);
                s.wraps.push((m.into(), f.into(), mode.into()));
            }
        }
        "path" => {
            for x in rest.split(";;") {
                let (m, f) = x.split_once("=>").unwrap();
                s.paths.push((norm_s(m), f.trim().into()));
            }
        }
        // refwrap E=>F: an explicit dereferencing conversion, `&E` becomes `F(&E)`
        "refwrap" => {
            let (m, f) = rest.split_once("=>").unwrap();
            s.refs.push((norm_s(m), f.trim().into()));
        }
        // callarg F K M: the K-th argument of a call of F goes through the method M
        "callarg" => {
            let p: Vec<&str> = rest.split_whitespace().collect();
            s.callargs.push((norm_s(p[0]), p[1].parse().unwrap(), p[2].to_string()));
        }
        "optmatch" => s.optmatch.extend(rest.split_whitespace().map(String::from)),
        _ => unreachable!(),
    }
}

pub fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

pub fn cfg_ok(attrs: &[Attribute], cfg: &Cfg) -> bool {
    attrs.iter().filter(|a| a.path().is_ident("cfg")).all(|a| match a.parse_args::<syn::Meta>() {
        Ok(m) => eval(&m, cfg),
        Err(_) => true,
    })
}

fn eval(m: &syn::Meta, cfg: &Cfg) -> bool {
    let list = |l: &syn::MetaList| {
        l.parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated).map(|p| p.into_iter().collect::<Vec<_>>()).unwrap_or_default()
    };
    match m {
        syn::Meta::Path(p) => {
            if p.is_ident("debug_assertions") {
                cfg.debug
            } else {
                false // test, fuzzing, ...
            }
        }
        syn::Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                let v = norm(&nv.value).trim_matches('"').to_string();
                (cfg.all_features && v != "arbitrary" && v != "serde" && v != "fuzz" && v != "arbitrary_simplified") || cfg.features.contains(&v)
            } else {
                false
            }
        }
        syn::Meta::List(l) => {
            let v = list(l);
            if l.path.is_ident("not") {
                !v.iter().all(|m| eval(m, cfg))
            } else if l.path.is_ident("any") {
                v.iter().any(|m| eval(m, cfg))
            } else {
                v.iter().all(|m| eval(m, cfg))
            }
        }
    }
}

// ---- macro_rules with parameters `$x:ty` only, one arm

pub fn expand_item_macros(macros: &[syn::ItemMacro], cfg: &Cfg, items: &mut Vec<Item>) {
    let mut out = vec![];
    for it in items.drain(..) {
        if let Item::Macro(m) = &it {
            if m.ident.is_none() {
                if let Some(def) = macros.iter().find(|d| d.ident.as_ref().is_some_and(|i| m.mac.path.is_ident(i))) {
                    if let Some(new) = expand(def, m.mac.tokens.clone()) {
                        if let Ok(f) = syn::parse2::<syn::File>(new) {
                            for i in f.items {
                                if cfg_ok(item_attrs(&i), cfg) {
                                    out.push(i);
                                }
                            }
                            continue;
                        }
                    }
                }
            }
        }
        out.push(it);
    }
    *items = out;
}

fn expand(def: &syn::ItemMacro, args: TokenStream) -> Option<TokenStream> {
    let toks: Vec<TokenTree> = def.mac.tokens.clone().into_iter().collect();
    let (TokenTree::Group(pat), TokenTree::Group(body)) = (toks.first()?, toks.get(3)?) else { return None };
    // parameter names
    let p: Vec<TokenTree> = pat.stream().into_iter().collect();
    let mut names = vec![];
    let mut i = 0;
    while i < p.len() {
        if let TokenTree::Punct(d) = &p[i] {
            if d.as_char() == '$' {
                if let Some(TokenTree::Ident(n)) = p.get(i + 1) {
                    names.push(n.to_string());
                    i += 4;
                    continue;
                }
                return None;
            }
        }
        i += 1;
    }
    // arguments separated by top-level commas outside angle brackets
    let mut vals = vec![TokenStream::new()];
    let mut depth = 0i32;
    for t in args {
        if let TokenTree::Punct(c) = &t {
            match c.as_char() {
                '<' => depth += 1,
                '>' => depth -= 1,
                ',' if depth == 0 => {
                    vals.push(TokenStream::new());
                    continue;
                }
                _ => {}
            }
        }
        vals.last_mut().unwrap().extend([t]);
    }
    if vals.last().is_some_and(|v| v.is_empty()) {
        vals.pop();
    }
    if vals.len() != names.len() {
        return None;
    }
    Some(subst(body.stream(), &names, &vals))
}

fn subst(s: TokenStream, names: &[String], vals: &[TokenStream]) -> TokenStream {
    let v: Vec<TokenTree> = s.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(n)) = v.get(i + 1) {
                    if let Some(k) = names.iter().position(|x| n == x) {
                        out.extend(vals[k].clone());
                        i += 2;
                        continue;
                    }
                }
                out.extend([v[i].clone()]);
            }
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), names, vals));
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

// ---- items

struct Clean<'a> {
    cfg: &'a Cfg,
}

fn vis(cfg: &Cfg) -> syn::Visibility {
    if cfg.public { parse_quote!(pub) } else { syn::Visibility::Inherited }
}

fn drop_attrs(a: &mut Vec<Attribute>) {
    a.clear();
}

impl VisitMut for Clean<'_> {
    fn visit_fields_named_mut(&mut self, f: &mut syn::FieldsNamed) {
        f.named = std::mem::take(&mut f.named).into_iter().filter(|x| cfg_ok(&x.attrs, self.cfg)).collect();
        for x in &mut f.named {
            drop_attrs(&mut x.attrs);
            x.vis = vis(self.cfg);
        }
        visit_mut::visit_fields_named_mut(self, f);
    }
    fn visit_fields_unnamed_mut(&mut self, f: &mut syn::FieldsUnnamed) {
        f.unnamed = std::mem::take(&mut f.unnamed).into_iter().filter(|x| cfg_ok(&x.attrs, self.cfg)).collect();
        for x in &mut f.unnamed {
            drop_attrs(&mut x.attrs);
            x.vis = vis(self.cfg);
        }
        visit_mut::visit_fields_unnamed_mut(self, f);
    }
    fn visit_item_enum_mut(&mut self, e: &mut syn::ItemEnum) {
        e.variants = std::mem::take(&mut e.variants).into_iter().filter(|x| cfg_ok(&x.attrs, self.cfg)).collect();
        for v in &mut e.variants {
            drop_attrs(&mut v.attrs);
        }
        visit_mut::visit_item_enum_mut(self, e);
        for v in &mut e.variants {
            for f in &mut v.fields {
                f.vis = syn::Visibility::Inherited;
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => cfg_ok(&l.attrs, self.cfg),
            Stmt::Expr(e, _) => cfg_ok(expr_attrs(e), self.cfg),
            Stmt::Macro(m) => cfg_ok(&m.attrs, self.cfg),
            Stmt::Item(Item::Fn(_)) => false, // hoisted
            Stmt::Item(i) => cfg_ok(item_attrs(i), self.cfg),
        });
        for s in &mut b.stmts {
            match s {
                Stmt::Local(l) => drop_attrs(&mut l.attrs),
                Stmt::Macro(m) => drop_attrs(&mut m.attrs),
                _ => {}
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        m.arms.retain(|a| cfg_ok(&a.attrs, self.cfg));
        // `&P` among patterns that match through the reference, with nothing bound in P, is P
        let through = m.arms.iter().any(|a| matches!(a.pat, Pat::Path(_) | Pat::TupleStruct(_) | Pat::Struct(_)));
        for a in &mut m.arms {
            drop_attrs(&mut a.attrs);
            if let (true, Pat::Reference(r)) = (through, &a.pat) {
                if matches!(*r.pat, Pat::Path(_)) {
                    a.pat = (*r.pat).clone();
                }
            }
        }
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_pat_struct_mut(&mut self, p: &mut syn::PatStruct) {
        p.fields = std::mem::take(&mut p.fields).into_iter().filter(|x| cfg_ok(&x.attrs, self.cfg)).collect();
        for x in &mut p.fields {
            drop_attrs(&mut x.attrs);
        }
        visit_mut::visit_pat_struct_mut(self, p);
    }
    fn visit_expr_struct_mut(&mut self, p: &mut syn::ExprStruct) {
        p.fields = std::mem::take(&mut p.fields).into_iter().filter(|x| cfg_ok(&x.attrs, self.cfg)).collect();
        for x in &mut p.fields {
            drop_attrs(&mut x.attrs);
        }
        visit_mut::visit_expr_struct_mut(self, p);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::Block(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::If(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::Return(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        Expr::Try(x) => &x.attrs,
        Expr::ForLoop(x) => &x.attrs,
        Expr::While(x) => &x.attrs,
        Expr::Loop(x) => &x.attrs,
        _ => &[],
    }
}

/// The metas of `serde(..)`, directly or by `cfg_attr(feature = "serde", ..)`, and whether Deserialize is derived.
fn serde_attrs(attrs: &[Attribute]) -> Result<(Vec<syn::Meta>, bool), String> {
    let list = |l: &syn::MetaList| l.parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated).map_err(|e| e.to_string());
    let (mut out, mut derived) = (vec![], false);
    for a in attrs {
        let mut todo = vec![];
        match &a.meta {
            syn::Meta::List(l) if l.path.is_ident("cfg_attr") => {
                let mut m = list(l)?.into_iter();
                let cond = m.next().map(|c| norm(&c)).unwrap_or_default();
                if cond == "feature=\"serde\"" {
                    todo.extend(m);
                } else if norm(l).contains("serde") {
                    return Err(format!("serde under {cond}"));
                }
            }
            m => todo.push(m.clone()),
        }
        for m in todo {
            if let syn::Meta::List(l) = &m {
                if l.path.is_ident("serde") {
                    out.extend(list(l)?);
                } else if l.path.is_ident("derive") {
                    derived |= list(l)?.iter().any(|m| m.path().segments.last().is_some_and(|s| s.ident == "Deserialize"));
                }
            }
        }
    }
    Ok((out, derived))
}

/// What `#[derive(Deserialize)]` does with what it reads: the conversion named by `try_from`/`from`, otherwise the fields as
/// they are (or as `deserialize_with` gives them).
pub fn deserializer(s: &syn::ItemStruct, contract: &str, back: &str, generics: impl Fn(&str) -> Option<String>) -> Result<String, String> {
    let text = |m: &syn::Meta| match m {
        syn::Meta::NameValue(nv) => Ok(norm_spaced(&nv.value).trim_matches('"').to_string()),
        m => Err(format!("serde({})", norm(m))),
    };
    let (metas, derived) = serde_attrs(&s.attrs)?;
    if !derived {
        return Err("does not derive Deserialize".into());
    }
    let (mut conv, mut into) = (None, None);
    for m in &metas {
        match m.path().get_ident().map(|i| i.to_string()).as_deref() {
            Some("try_from") => conv = Some((true, text(m)?)),
            Some("from") => conv = Some((false, text(m)?)),
            Some("into") => into = Some(text(m)?),
            Some("tag" | "content" | "rename_all" | "rename" | "deny_unknown_fields" | "transparent") => {}
            _ => return Err(format!("serde({})", norm(m))),
        }
    }
    if into.is_some() {
        return Err("serde(into)".into());
    }
    // parameters that the attribute leaves out
    if let Some((_, x)) = &mut conv {
        if let Some(g) = generics(x) {
            x.push_str(&g);
        }
    }
    let g = &s.generics;
    let (params, args, wh) = g.split_for_impl();
    let (id, args) = (&s.ident, args.to_token_stream().to_string());
    let mut params = params.to_token_stream().to_string();
    if let Some((fallible, x)) = conv {
        let body = if fallible {
            format!("match <{id}{args} as TryFrom<{x}>>::try_from(x) {{\n        Ok(v) => Some(v),\n        Err(_) => None,\n    }}")
        } else {
            format!("Some(<{id}{args} as From<{x}>>::from(x))")
        };
        let lifetime = if x.contains("'a") && !params.contains("'a") { "<'a>".to_string() } else { params };
        return Ok(format!("fn de_{id}{lifetime}(x: {x}) -> (r: Option<{id}{args}>) {}\n{contract}{back}{{\n    {body}\n}}", wh.to_token_stream()));
    }
    let mut back = back;
    if !s.fields.iter().any(|f| serde_attrs(&f.attrs).is_ok_and(|m| !m.0.is_empty())) {
        back = "";
    }
    let (mut sig, mut pre, mut vals) = (vec![], String::new(), vec![]);
    for (k, f) in s.fields.iter().enumerate() {
        let mut with = None;
        for m in serde_attrs(&f.attrs)?.0 {
            match m.path().get_ident().map(|i| i.to_string()).as_deref() {
                Some("deserialize_with") => with = Some(text(&m)?),
                Some("rename") => {}
                _ => return Err(format!("serde({})", norm(&m))),
            }
        }
        let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or(k.to_string());
        if let Some(w) = with {
            let p = format!("D{k}: serde::de::Deserializer<'de>");
            params = if params.is_empty() { format!("<'de, {p}>") } else { format!("<'de, {}, {p}>", params.trim().trim_start_matches('<').trim_end_matches('>').trim().trim_end_matches(',')) };
            sig.push(format!("x{k}: D{k}"));
            pre.push_str(&format!("    let x{k} = match {w}(x{k}) {{\n        Ok(v) => v,\n        Err(_) => return None,\n    }};\n"));
        } else {
            sig.push(format!("x{k}: {}", norm_spaced(&f.ty)));
        }
        vals.push(format!("{n}: x{k}"));
    }
    Ok(format!("fn de_{id}{params}({}) -> (r: Option<{id}{args}>) {}\n{contract}{back}{{\n{pre}    Some({id} {{ {} }})\n}}", sig.join(", "), wh.to_token_stream(), vals.join(", ")))
}

/// Whether a type that derives Deserialize is read part by part, without a word on any part.
pub fn plain_serde(x: &Item, known: &[&str]) -> Result<usize, String> {
    let (id, fields): (_, Vec<(&[Attribute], Vec<&[Attribute]>)>) = match x {
        Item::Struct(s) => (&s.ident, vec![(&s.attrs, s.fields.iter().map(|f| &f.attrs[..]).collect())]),
        Item::Enum(e) => (
            &e.ident,
            std::iter::once((&e.attrs[..], vec![])).chain(e.variants.iter().map(|v| (&v.attrs[..], v.fields.iter().map(|f| &f.attrs[..]).collect()))).collect(),
        ),
        Item::Impl(im) if im.trait_.as_ref().is_some_and(|t| ["Deserialize", "Serialize"].iter().any(|n| t.1.segments.last().unwrap().ident == n)) => {
            return Err(format!("{} implements Serialize or Deserialize itself", norm(&im.self_ty)));
        }
        _ => return Ok(0),
    };
    if known.contains(&id.to_string().as_str()) {
        return Ok(0);
    }
    let mut derived = false;
    for (k, (own, parts)) in fields.iter().enumerate() {
        let (metas, d) = serde_attrs(own)?;
        derived |= d;
        let ok = |m: &syn::Meta| k == 0 && ["tag", "content"].iter().any(|n| m.path().is_ident(n));
        if let Some(m) = metas.iter().find(|m| !ok(m)) {
            return Err(format!("{id}: serde({})", norm(m)));
        }
        for p in parts {
            if let Some(m) = serde_attrs(p)?.0.first() {
                return Err(format!("{id}: serde({})", norm(m)));
            }
        }
    }
    Ok(derived as usize)
}

fn norm_spaced<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

pub fn print_item(i: &Item, cfg: &Cfg, opts: &str, spec: &FnSpec) -> String {
    let mut i = i.clone();
    Clean { cfg }.visit_item_mut(&mut i);
    match &mut i {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = vis(cfg);
        }
        Item::Enum(s) => {
            s.attrs.clear();
            s.vis = vis(cfg);
        }
        Item::Const(s) => {
            s.attrs.clear();
            s.vis = vis(cfg);
        }
        Item::Type(s) => {
            s.attrs.clear();
            s.vis = vis(cfg);
        }
        _ => {}
    }
    let mut rw = Rewrite { spec, loops: 0, closures: 0, breaks: 0 };
    rw.visit_item_mut(&mut i);
    let t = prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![i] });
    format!("{}{}", if opts.is_empty() { String::new() } else { format!("{opts}\n") }, t)
}

pub fn impl_header(im: &syn::ItemImpl) -> String {
    let mut im = im.clone();
    im.attrs.clear();
    im.items.clear();
    let t = prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![Item::Impl(im)] });
    t.trim().trim_end_matches('}').trim().trim_end_matches('{').trim().to_string()
}

// ---- expressions

struct Rewrite<'a> {
    spec: &'a FnSpec,
    loops: usize,
    closures: usize,
    breaks: usize,
}

fn marker(name: &str) -> Stmt {
    let id = quote::format_ident!("{}", name);
    parse_quote!(#id!();)
}

/// `&p` or tuples of such at the head of a `for`: bind by reference, then dereference.
fn deref_pat(p: &Pat, n: &mut usize, lets: &mut Vec<Stmt>) -> Pat {
    match p {
        Pat::Reference(r) => {
            let id = quote::format_ident!("vx_r{}", *n);
            *n += 1;
            let inner = &r.pat;
            lets.push(parse_quote!(let #inner = *#id;));
            parse_quote!(#id)
        }
        Pat::Tuple(t) => {
            let v: Vec<Pat> = t.elems.iter().map(|e| deref_pat(e, n, lets)).collect();
            parse_quote!((#(#v),*))
        }
        p => p.clone(),
    }
}

impl Rewrite<'_> {
    fn loop_body(&mut self, k: usize, b: &mut syn::Block) {
        if self.spec.loops.contains_key(&k) {
            b.stmts.insert(0, marker(&format!("__VX_LOOP_{k}_START")));
            // end marker only where the end of the body is reached by falling through
            if !self.spec.loops[&k].end.trim().is_empty() {
                if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() {
                    if semi.is_none() {
                        *semi = Some(Default::default());
                    }
                }
                b.stmts.push(marker(&format!("__VX_LOOP_{k}_END")));
            }
        }
    }
}

impl VisitMut for Rewrite<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // `loop` with a value: a variable assigned before the break
        let mut out = vec![];
        let n = b.stmts.len();
        for (i, s) in b.stmts.drain(..).enumerate() {
            match s {
                Stmt::Local(l) if matches!(&l.init, Some(x) if x.diverge.is_none() && matches!(&*x.expr, Expr::Loop(l) if has_break_value(l))) && matches!(&l.pat, Pat::Ident(_)) => {
                    let Pat::Ident(p) = &l.pat else { unreachable!() };
                    let id = &p.ident;
                    let mut e = *l.init.as_ref().unwrap().expr.clone();
                    BreakTo(id.clone()).visit_expr_loop_mut(if let Expr::Loop(l) = &mut e { l } else { unreachable!() });
                    out.push(parse_quote!(let #id;));
                    out.push(Stmt::Expr(e, None));
                }
                Stmt::Expr(Expr::Loop(mut l), None) if i + 1 == n && has_break_value(&l) => {
                    let id = quote::format_ident!("vx_b{}", self.breaks);
                    self.breaks += 1;
                    BreakTo(id.clone()).visit_expr_loop_mut(&mut l);
                    out.push(parse_quote!(let #id;));
                    out.push(Stmt::Expr(Expr::Loop(l), None));
                    out.push(Stmt::Expr(parse_quote!(#id), None));
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
        // after-loop markers
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            let k = match &s {
                Stmt::Expr(Expr::ForLoop(f), _) => start_marker(&f.body),
                Stmt::Expr(Expr::While(f), _) => start_marker(&f.body),
                Stmt::Expr(Expr::Loop(f), _) => start_marker(&f.body),
                _ => None,
            };
            let mut s = s;
            if let Some(k) = k {
                if self.spec.loops.get(&k).is_some_and(|l| l.hoist) {
                    // the iterated value gets a name
                    if let Stmt::Expr(Expr::ForLoop(f), _) = &mut s {
                        let (id, e) = (quote::format_ident!("vx_e{}", k), &f.expr);
                        out.push(parse_quote!(let #id = #e;));
                        *f.expr = parse_quote!(#id);
                    }
                }
                if self.spec.loops.get(&k).is_some_and(|l| !l.before.trim().is_empty()) {
                    out.push(marker(&format!("__VX_LOOP_{k}_BEFORE")));
                }
            }
            out.push(s);
            if let Some(k) = k {
                if self.spec.loops.get(&k).is_some_and(|l| !l.after.trim().is_empty()) {
                    out.push(marker(&format!("__VX_LOOP_{k}_AFTER")));
                }
            }
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.spec.formats {
            if let Expr::Macro(m) = &*e {
                if m.mac.path.is_ident("format") {
                    *e = format_calls(m.mac.tokens.clone());
                }
            }
        }
        if self.spec.lift || self.spec.texts {
            if let Expr::Macro(m) = &*e {
                if m.mac.path.is_ident("write") {
                    *e = write_calls(m.mac.tokens.clone(), self.spec.texts);
                }
            }
        }
        if self.spec.texts {
            if let Expr::Match(m) = &*e {
                if let Some(new) = match_bytes(m) {
                    *e = new;
                }
            }
        }
        if let Some((ctor, push)) = &self.spec.mapcollect {
            let mut new: Option<Expr> = None;
            if let Expr::MethodCall(c) = &*e {
                if c.method == "collect" {
                    if let Expr::MethodCall(m) = &*c.receiver {
                        if let (true, Some(Expr::Closure(k))) = (m.method == "map", m.args.first()) {
                            if k.inputs.len() == 1 {
                                let ctor: Expr = syn::parse_str(ctor).unwrap();
                                let push = quote::format_ident!("{}", push);
                                let (r, p, b) = (&m.receiver, &k.inputs[0], &k.body);
                                new = Some(parse_quote!({ let mut vx_c = #ctor; for #p in #r { vx_c.#push(#b); } vx_c }));
                            }
                        }
                    }
                }
            }
            if let Some(n) = new {
                *e = n;
            }
        }
        if self.spec.guards {
            if let Expr::Match(m) = &*e {
                let n = m.arms.iter().take_while(|a| a.guard.is_some()).count();
                if n > 0 && m.arms[n..].iter().all(|a| a.guard.is_none()) && matches!(&*m.expr, Expr::Path(_) | Expr::Field(_)) {
                    let s = &m.expr;
                    let rest = &m.arms[n..];
                    let mut new: Expr = parse_quote!(match #s { #(#rest)* });
                    for a in m.arms[..n].iter().rev() {
                        let (p, g, b) = (&a.pat, &a.guard.as_ref().unwrap().1, &a.body);
                        new = parse_quote!(if (match &*#s { #p => #g, _ => false }) { match #s { #p => #b, _ => vx_unreachable() } } else { #new });
                    }
                    *e = new;
                }
            }
        }
        if let Expr::ForLoop(f) = &*e {
            if self.spec.loops.get(&self.loops).is_some_and(|l| l.popfront) {
                // a queue is consumed from its front
                let (id, p, b, x) = (quote::format_ident!("vx_q{}", self.loops), &f.pat, &f.body, &f.expr);
                *e = parse_quote!({ let mut #id = #x; while let Some(#p) = #id.pop_front() #b });
            }
        }
        if let Expr::Closure(c) = e {
            let k = self.closures;
            self.closures += 1;
            if self.spec.closures.contains_key(&k) {
                let m = marker(&format!("__VX_CLOSURE_{k}"));
                let b = &c.body;
                *c.body = parse_quote!({ #m #b });
            }
        }
        match e {
            Expr::ForLoop(f) => {
                let k = self.loops;
                self.loops += 1;
                let (mut n, mut lets) = (0, vec![]);
                let p = deref_pat(&f.pat, &mut n, &mut lets);
                if !lets.is_empty() {
                    *f.pat = p;
                    lets.append(&mut f.body.stmts);
                    f.body.stmts = lets;
                }
                // `for x in &mut c` over a list: one element after the other
                let c = match &*f.expr {
                    Expr::Reference(r) if r.mutability.is_some() => Some((*r.expr).clone()),
                    Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => Some((*m.receiver).clone()),
                    _ => None,
                };
                if let Some(c @ (Expr::Path(_) | Expr::Field(_))) = c {
                    let (i, p) = (quote::format_ident!("vx_i{}", k), &f.pat);
                    f.body.stmts.insert(0, parse_quote!(let #p = &mut #c[#i];));
                    *f.expr = parse_quote!(0..#c.len());
                    *f.pat = parse_quote!(#i);
                }
                visit_mut::visit_expr_for_loop_mut(self, f);
                if self.spec.loops.get(&k).is_some_and(|l| l.via_iter) {
                    // `for x in &c` / `for x in c` with c a reference: by definition `c.iter()`
                    let e = match &*f.expr {
                        Expr::Reference(r) if r.mutability.is_none() => Some((*r.expr).clone()),
                        Expr::Path(p) => Some(Expr::Path(p.clone())),
                        Expr::Field(p) => Some(Expr::Field(p.clone())),
                        _ => None,
                    };
                    if let Some(e) = e {
                        *f.expr = parse_quote!(#e.iter());
                    }
                }
                self.loop_body(k, &mut f.body);
                return;
            }
            Expr::While(f) => {
                let k = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_while_mut(self, f);
                self.loop_body(k, &mut f.body);
                return;
            }
            Expr::Loop(f) => {
                let k = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_loop_mut(self, f);
                self.loop_body(k, &mut f.body);
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if let Some((_, f, mode)) = self.spec.wraps.iter().find(|w| w.0 == name) {
                    let f: TokenStream = f.parse().unwrap();
                    let r = &m.receiver;
                    let a = &m.args;
                    Some(match mode.as_str() {
                        "own" => parse_quote!(#f(#r, #a)),
                        "ref" => parse_quote!(#f(&#r, #a)),
                        "mut" => parse_quote!(#f(&mut #r, #a)),
                        // the method of the same type under the name of a trait that carries its contract
                        "method" => parse_quote!(#r.#f(#a)),
                        _ => panic!("wrap mode {mode}"),
                    })
                } else if self.spec.optmatch.contains(&name) && m.args.len() == 1 {
                    let r = &m.receiver;
                    match &m.args[0] {
                        Expr::Closure(c) if c.inputs.len() == 1 => {
                            let (p, b) = (&c.inputs[0], &c.body);
                            match name.as_str() {
                                "and_then" => Some(parse_quote!(match #r { Some(#p) => #b, None => None })),
                                "map" => Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None })),
                                "map_err" => Some(parse_quote!(match #r { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#b) })),
                                _ => None,
                            }
                        }
                        // a variant or function by its name
                        Expr::Path(p) if name == "map_err" => Some(parse_quote!(match #r { Ok(vx_v) => Ok(vx_v), Err(vx_e) => Err(#p(vx_e)) })),
                        _ => None,
                    }
                } else {
                    None
                }
            }
            Expr::Call(c) if self.spec.callargs.iter().any(|x| x.0 == norm(&c.func)) => {
                let c = c.clone();
                let (_, k, m) = self.spec.callargs.iter().find(|x| x.0 == norm(&c.func)).unwrap();
                let mut c = c;
                if let Some(a) = c.args.iter_mut().nth(*k) {
                    let (m, old) = (quote::format_ident!("{}", m), a.clone());
                    *a = parse_quote!(#old.#m());
                }
                Some(Expr::Call(c))
            }
            Expr::Reference(r) if r.mutability.is_none() && self.spec.refs.iter().any(|x| x.0 == norm(&r.expr)) => {
                let f: Expr = syn::parse_str(&self.spec.refs.iter().find(|x| x.0 == norm(&r.expr)).unwrap().1).unwrap();
                Some(parse_quote!(#f(#r)))
            }
            Expr::Path(p) => {
                let s = norm(&*p);
                self.spec.paths.iter().find(|x| x.0 == s).map(|x| syn::parse_str::<Expr>(&x.1).unwrap())
            }
            Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) if self.spec.lift => {
                let id = quote::format_ident!("vx_b{}", lifted(&LIFTED_BYTES, b.value()));
                Some(parse_quote!(#id()))
            }
            Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(b), .. }) if self.spec.lift => {
                let id = quote::format_ident!("vx_s{}", lifted(&LIFTED_STRS, b.value()));
                Some(parse_quote!(#id()))
            }
            // b"..." is the array of its bytes
            Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) => {
                let v = b.value();
                Some(parse_quote!(&[#(#v),*]))
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

struct BreakTo(syn::Ident);
impl VisitMut for BreakTo {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
            Expr::Break(b) if b.label.is_none() => {
                if let Some(v) = &b.expr {
                    let id = &self.0;
                    *e = parse_quote!({ #id = #v; break; });
                }
            }
            e => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn has_break_value(l: &syn::ExprLoop) -> bool {
    struct F(bool);
    impl VisitMut for F {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
                Expr::Break(b) if b.label.is_none() && b.expr.is_some() => self.0 = true,
                e => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    let mut f = F(false);
    f.visit_block_mut(&mut l.body.clone());
    f.0
}

fn start_marker(b: &syn::Block) -> Option<usize> {
    match b.stmts.first() {
        Some(Stmt::Macro(m)) => {
            let n = norm(&m.mac.path);
            n.strip_prefix("__VX_LOOP_")?.strip_suffix("_START")?.parse().ok()
        }
        _ => None,
    }
}

pub fn print_fn(mut f: syn::ItemFn, spec: &FnSpec, cfg: &Cfg, label: &str) -> String {
    let mut filled;
    let mut spec = spec;
    if let Some(d) = &spec.loop_default {
        // loops without an invariant of their own
        let n = {
            let mut c = f.clone();
            Clean { cfg }.visit_item_fn_mut(&mut c);
            let mut rw = Rewrite { spec, loops: 0, closures: 0, breaks: 0 };
            rw.visit_block_mut(&mut c.block);
            rw.loops
        };
        filled = spec.clone();
        // broadcast lemmas hold in the loops as well
        let mut d = d.clone();
        d.start = spec.start.lines().filter(|l| l.trim().starts_with("broadcast use")).map(|l| format!("{l}\n")).collect();
        for k in 0..n {
            filled.loops.entry(k).or_insert_with(|| d.clone());
        }
        spec = &filled;
    }
    f.attrs.clear();
    f.vis = syn::Visibility::Inherited;
    Clean { cfg }.visit_item_fn_mut(&mut f);
    if let Some(r) = &spec.rename {
        f.sig.ident = quote::format_ident!("{}", r);
    }
    let mut rw = Rewrite { spec, loops: 0, closures: 0, breaks: 0 };
    if !spec.external {
        rw.visit_block_mut(&mut f.block);
        for (k, _) in &spec.loops {
            if *k >= rw.loops {
                lost(format!("{label}: loop {k} not found"));
            }
        }
        if rw.loops != spec.loops.len() {
            lost(format!("{label}: {} loops, {} expected", rw.loops, spec.loops.len()));
        }
        if !spec.end.trim().is_empty() {
            if let Some(Stmt::Expr(e, None)) = f.block.stmts.last().cloned() {
                f.block.stmts.pop();
                f.block.stmts.push(parse_quote!(let vx_ret = #e;));
                f.block.stmts.push(marker("__VX_END"));
                f.block.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
            } else {
                f.block.stmts.push(marker("__VX_END"));
            }
        }
    }
    let mut head = f.clone();
    head.block = parse_quote!({ __VX_BODY!(); });
    let ht = unparse_fn(&head);
    let mut sig = ht.split("__VX_BODY").next().unwrap().trim_end().trim_end_matches('{').trim_end().to_string();
    if let Some(s) = &spec.sig {
        sig = s.clone();
    } else if let Some(r) = &spec.ret {
        match &f.sig.output {
            syn::ReturnType::Type(_, t) => {
                let ty = t.to_token_stream().to_string();
                // cut at the arrow that starts the return type
                let ins = f.sig.inputs.to_token_stream().to_string();
                let _ = ins;
                let at = find_arrow(&sig).unwrap_or_else(|| lost(format!("{label}: return type")));
                let wher = f.sig.generics.where_clause.as_ref().map(|w| w.to_token_stream().to_string()).unwrap_or_default();
                sig = format!("{} -> ({r}: {ty}) {wher}", sig[..at].trim_end());
            }
            _ => lost(format!("{label}: no return value")),
        }
    }
    // type of the variable that stands for the value of a final `loop`
    if let Some(Stmt::Expr(Expr::Path(p), None)) = f.block.stmts.last() {
        let name = norm(p);
        if name.starts_with("vx_b") {
            let ty: Option<syn::Type> = match (&spec.sig, &f.sig.output) {
                (Some(s), _) => s.rfind("->").and_then(|i| s[i + 2..].trim().trim_start_matches('(').split_once(':')).and_then(|x| syn::parse_str(x.1.trim().strip_suffix(')').unwrap_or(x.1)).ok()),
                (None, syn::ReturnType::Type(_, t)) => Some((**t).clone()),
                _ => None,
            };
            if let Some(ty) = ty {
                for s in &mut f.block.stmts {
                    if let Stmt::Local(l) = s {
                        if norm(&l.pat) == name && l.init.is_none() {
                            let id = quote::format_ident!("{}", name);
                            *s = parse_quote!(let #id: #ty;);
                        }
                    }
                }
            }
        }
    }
    let bt = unparse_fn(&{
        let mut b = f.clone();
        b.sig = parse_quote!(fn vx_body());
        b
    });
    let body = bt.trim().strip_prefix("fn vx_body()").unwrap().trim().to_string();
    let mut body = if spec.external { format!("#[verifier::external_body] {body}") } else { body };
    // markers to text
    for (k, l) in &spec.loops {
        body = replace_marker(&body, &format!("__VX_LOOP_{k}_END"), &l.end);
        body = replace_marker(&body, &format!("__VX_LOOP_{k}_AFTER"), &l.after);
        body = replace_marker(&body, &format!("__VX_LOOP_{k}_BEFORE"), &l.before);
        body = loop_header(&body, *k, l, label);
    }
    body = replace_marker(&body, "__VX_END", &spec.end);
    for (k, h) in &spec.closures {
        let m = format!("__VX_CLOSURE_{k}!();");
        let Some(at) = body.find(&m) else { lost(format!("{label}: closure {k} not found")) };
        let open = body[..at].rfind('{').unwrap();
        let bar2 = body[..open].rfind('|').unwrap();
        let bar1 = body[..bar2].rfind('|').unwrap();
        body = format!("{}{h} {{{}", &body[..bar1], &body[at + m.len()..]);
    }
    if !spec.start.trim().is_empty() {
        body = format!("{{\n{}\n{}", spec.start.trim_end(), &body[1..]);
    }
    format!("{}{}\n{}{}\n", spec.attrs, sig, spec.contract, body)
}

fn find_arrow(sig: &str) -> Option<usize> {
    // the arrow after the parameter list
    let mut depth = 0i32;
    let b = sig.as_bytes();
    let mut i = sig.find('(')?;
    while i < b.len() {
        match b[i] {
            b'(' => depth += 1,
            b')' => {
                depth -= 1;
                if depth == 0 {
                    return sig[i..].find("->").map(|x| x + i);
                }
            }
            _ => {}
        }
        i += 1;
    }
    None
}

fn replace_marker(body: &str, m: &str, text: &str) -> String {
    body.replace(&format!("{m}!();"), text.trim_end())
}

/// Puts the invariants between the head of loop k and its `{`.
fn loop_header(body: &str, k: usize, l: &crate::LoopSpec, label: &str) -> String {
    let m = format!("__VX_LOOP_{k}_START!();");
    let Some(at) = body.find(&m) else { lost(format!("{label}: loop {k} head")) };
    let open = body[..at].rfind('{').unwrap();
    let mut head = body[..open].trim_end().to_string();
    if let Some(it) = &l.iter {
        // name the ghost iterator: `for P in E` -> `for P in it: E`
        let line = head.rfind("for ").unwrap_or_else(|| lost(format!("{label}: loop {k} is no for loop")));
        let inn = head[line..].find(" in ").unwrap_or_else(|| lost(format!("{label}: loop {k} is no for loop"))) + line + 4;
        head = format!("{}{it}: {}", &head[..inn], &head[inn..]);
    }
    format!("{head}\n{}{{\n{}\n{}", l.inv, l.start.trim_end(), &body[at + m.len()..])
}

fn unparse_fn(f: &syn::ItemFn) -> String {
    prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![Item::Fn(f.clone())] })
}

#[allow(dead_code)]
fn _q() -> TokenStream {
    quote!()
}

// ---- literals and `write!`

thread_local! {
    static LIFTED_BYTES: std::cell::RefCell<Vec<Vec<u8>>> = Default::default();
    static LIFTED_STRS: std::cell::RefCell<Vec<String>> = Default::default();
}
fn lifted<T: PartialEq>(t: &'static std::thread::LocalKey<std::cell::RefCell<Vec<T>>>, v: T) -> usize {
    t.with(|t| {
        let mut t = t.borrow_mut();
        match t.iter().position(|x| *x == v) {
            Some(k) => k,
            None => {
                t.push(v);
                t.len() - 1
            }
        }
    })
}

/// One function per literal, with the facts about it that Verus then proves.
pub fn literals(exactly: bool) -> String {
    let mut o = String::new();
    LIFTED_BYTES.with(|t| {
        for (k, b) in t.borrow().iter().enumerate() {
            let seq = b.iter().map(|x| format!("{x}u8")).collect::<Vec<_>>().join(", ");
            let text = !b.iter().any(|x| b"\r\n{".contains(x));
            let exact = !text || b.iter().any(|x| b"}\"+~".contains(x)) || b.is_empty();
            let (mut ens, mut pr) = (String::new(), String::new());
            if text {
                ens.push_str("safe(r@), ");
                pr.push_str(&format!("assert(safe_rec(s)) by (compute_only); lemma_safe_rec(s); "));
            }
            if exact {
                ens.push_str(&format!("r@ == seq![{seq}], "));
            }
            if let Some(p) = b.strip_suffix(b"\r\n").filter(|p| !p.iter().any(|x| b"\r\n{".contains(x))) {
                let p = p.iter().map(|x| format!("{x}u8")).collect::<Vec<_>>().join(", ");
                ens.push_str("ends_line(r@), ");
                pr.push_str(&format!("assert(safe_rec(seq![{p}])) by (compute_only); lemma_safe_rec(seq![{p}]); assert(r@.take(r@.len() - 2) =~= seq![{p}]);"));
            }
            if b.len() == 1 {
                ens.push_str("r@.len() == 1, ");
            }
            let s2 = format!("seq![{seq}]");
            if exactly {
                (ens, pr) = (format!("r@ == {s2}, "), String::new());
            }
            let pr = pr.replace("(s)", &format!("({s2})"));
            o.push_str(&format!("// {:?}\nfn vx_b{k}() -> (r: &'static [u8])\n    ensures {ens}\n{{\n    let r: &'static [u8] = &[{seq}];\n    proof {{ assert(r@ =~= {s2}); {pr} }}\n    r\n}}\n", String::from_utf8_lossy(b)));
        }
    });
    LIFTED_STRS.with(|t| {
        for (k, b) in t.borrow().iter().enumerate() {
            let seq = b.chars().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(", ");
            let text = b.is_ascii() && !b.chars().any(|x| "\r\n{".contains(x));
            let s2 = format!("seq![{seq}]");
            let exact = if b.chars().count() <= 4 { format!("r@ == {s2}, ") } else { String::new() };
            let (ens, pr) = if exactly {
                (format!("r@ == {s2}"), String::new())
            } else if text {
                (format!("{exact}safe(encode_utf8(r@))"), format!("assert(ascii_rec({s2})) by (compute); lemma_ascii_rec({s2});"))
            } else {
                (format!("{exact}true"), String::new())
            };
            o.push_str(&format!("fn vx_s{k}() -> (r: &'static str)\n    ensures {ens}\n{{\n    proof {{ reveal_strlit({b:?}); assert({b:?}@ =~= {s2}); {pr} }}\n    {b:?}\n}}\n"));
        }
    });
    o
}

/// `format!("a{x}b{}", y)` puts a, x, b and y one after the other into a new text.
fn format_calls(tokens: TokenStream) -> Expr {
    let args = syn::parse::Parser::parse2(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated, tokens).unwrap_or_else(|_| lost("format! arguments"));
    let args: Vec<Expr> = args.into_iter().collect();
    let Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(f), .. })) = args.first() else { lost("format! without a format string") };
    let f: Vec<char> = f.value().chars().collect();
    let (mut k, mut next) = (0, 1);
    let mut calls: Vec<Expr> = vec![];
    while k < f.len() {
        match f[k] {
            '{' if f.get(k + 1) != Some(&'{') => {
                let end = f[k..].iter().position(|c| *c == '}').unwrap_or_else(|| lost("format! format")) + k;
                let name: String = f[k + 1..end].iter().collect();
                let arg: Expr = if name.is_empty() {
                    next += 1;
                    args.get(next - 1).cloned().unwrap_or_else(|| lost("format! arguments"))
                } else {
                    syn::parse_str::<syn::Ident>(&name).map(|i| parse_quote!(#i)).unwrap_or_else(|_| lost("format! specification"))
                };
                calls.push(parse_quote!(vx_f.vx_put(&#arg)));
                k = end + 1;
            }
            c => {
                calls.push(parse_quote!(vx_f.vx_char(#c)));
                k += if c == '{' || c == '}' { 2 } else { 1 };
            }
        }
    }
    parse_quote!({ let mut vx_f = vx_text(); #(#calls;)* vx_f })
}

/// `write!(t, "a{x}b{}", y)` writes a, x, b and y one after the other.
fn write_calls(tokens: TokenStream, texts: bool) -> Expr {
    let args = syn::parse::Parser::parse2(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated, tokens).unwrap_or_else(|_| lost("write! arguments"));
    let args: Vec<Expr> = args.into_iter().collect();
    let Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(f), .. })) = args.get(1) else { lost("write! without a format string") };
    let t = &args[0];
    let f: Vec<char> = f.value().chars().collect();
    let (mut lit, mut k, mut next) = (String::new(), 0, 2);
    let mut calls: Vec<Expr> = vec![];
    let flush = |lit: &mut String, t: &Expr, calls: &mut Vec<Expr>| {
        if texts && !lit.is_empty() {
            let b = syn::LitStr::new(lit, proc_macro2::Span::call_site());
            calls.push(parse_quote!(#t.write_str(#b)));
            lit.clear();
        }
        if !lit.is_empty() {
            let b = syn::LitByteStr::new(lit.as_bytes(), proc_macro2::Span::call_site());
            calls.push(parse_quote!(#t.write_all(#b)));
            lit.clear();
        }
    };
    while k < f.len() {
        match f[k] {
            '{' | '}' if f.get(k + 1) == Some(&f[k]) => {
                lit.push(f[k]);
                k += 2;
            }
            '{' => {
                let end = f[k..].iter().position(|c| *c == '}').unwrap_or_else(|| lost("write! format")) + k;
                let name: String = f[k + 1..end].iter().collect();
                let (name, debug) = match name.strip_suffix(":?").or(name.strip_suffix(":#?")) {
                    Some(n) => (n.to_string(), true),
                    None => (name, false),
                };
                let arg: Expr = if name.is_empty() {
                    next += 1;
                    args.get(next - 1).cloned().unwrap_or_else(|| lost("write! arguments"))
                } else {
                    syn::parse_str::<syn::Ident>(&name).map(|i| parse_quote!(#i)).or_else(|_| syn::parse_str::<Expr>(&name).ok().filter(|_| name == "self").ok_or(())).unwrap_or_else(|_| lost("write! format specification"))
                };
                flush(&mut lit, t, &mut calls);
                let put = quote::format_ident!("{}", if debug { "vx_debug" } else { "vx_put" });
                calls.push(if norm(&arg) == "self" { parse_quote!(#t.#put(self)) } else { parse_quote!(#t.#put(&#arg)) });
                k = end + 1;
            }
            c => {
                lit.push(c);
                k += 1;
            }
        }
    }
    flush(&mut lit, t, &mut calls);
    let Some(last) = calls.pop() else { return parse_quote!(Ok(())) };
    if calls.is_empty() {
        return last;
    }
    parse_quote!({ #(#calls?;)* #last })
}

/// `match e { b"a" | b"b" => X, _ => Y }` compares with one after the other.
fn match_bytes(m: &syn::ExprMatch) -> Option<Expr> {
    fn keys(p: &syn::Pat) -> Option<Vec<Vec<u8>>> {
        match p {
            syn::Pat::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) => Some(vec![b.value()]),
            syn::Pat::Or(o) => Some(o.cases.iter().map(keys).collect::<Option<Vec<_>>>()?.concat()),
            syn::Pat::Paren(p) => keys(&p.pat),
            _ => None,
        }
    }
    keys(&m.arms.first()?.pat)?;
    let (last, arms) = m.arms.split_last()?;
    let mut new: Expr = match &last.pat {
        syn::Pat::Wild(_) => (*last.body).clone(),
        syn::Pat::Ident(i) => {
            let b = &last.body;
            parse_quote!({ let #i = vx_k; #b })
        }
        _ => lost("match on byte strings"),
    };
    for a in arms.iter().rev() {
        let Some(k) = keys(&a.pat) else { lost("match on byte strings") };
        let tests: Vec<Expr> = k.iter().map(|v| parse_quote!(vx_is_bytes(vx_k, &[#(#v),*]))).collect();
        let b = &a.body;
        let guard: Vec<&Expr> = a.guard.iter().map(|g| &*g.1).collect();
        new = parse_quote!(if (#(#tests)||*) #(&& #guard)* { #b } else { #new });
    }
    let e = &m.expr;
    Some(parse_quote!(match #e { vx_k => #new }))
}
