//! vextract TEMPLATE REPO OUT
//!
//! Builds a Verus file from a template and the current source of the repository. Lines of the template are copied;
//! directives (`//@ ...`) pull an item out of the source and put contracts, loop invariants and proof hints around
//! the code. The code itself is the parsed source, printed again. See the template directives in DESIGN.md.
//!
//! Exit 3: an item, function or loop named by the template does not exist in the source (proof lost).
mod emit;
mod parsers;
mod tr;
use std::{collections::HashMap, fs, process::exit};

use quote::ToTokens;
use syn::{ImplItem, Item};

pub fn lost(msg: impl AsRef<str>) -> ! {
    println!("LOST {}", msg.as_ref());
    exit(3)
}

pub fn norm(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().split_whitespace().collect::<Vec<_>>().join("")
}
pub fn norm_s(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join("")
}

#[derive(Default, Clone)]
pub struct Cfg {
    pub features: Vec<String>,
    pub debug: bool,
    pub all_features: bool,
    pub public: bool,
    pub lift: bool,
}

struct Src {
    items: Vec<Item>,
}

/// `FILE [MORE..]`: the items of FILE, with the macros of FILE and MORE expanded.
fn load(repo: &str, files: &str, cfg: &Cfg) -> Src {
    let (file, more) = files.split_once(' ').unwrap_or((files, ""));
    let p = format!("{repo}/{file}");
    let text = read(&p);
    let f = syn::parse_file(&text).unwrap_or_else(|e| lost(format!("{p}: {e}")));
    let mut items = vec![];
    flatten(f.items, cfg, &mut items);
    let mut macros: Vec<syn::ItemMacro> = items.iter().filter_map(|i| if let Item::Macro(m) = i { Some(m.clone()) } else { None }).collect();
    for m in more.split_whitespace() {
        let p = format!("{repo}/{m}");
        let text = read(&p);
        let f = syn::parse_file(&text).unwrap_or_else(|e| lost(format!("{p}: {e}")));
        macros.extend(f.items.into_iter().filter_map(|i| if let Item::Macro(m) = i { Some(m) } else { None }));
    }
    tr::expand_item_macros(&macros, cfg, &mut items);
    Src { items }
}

/// Raw identifiers get an ordinary name.
pub fn read(p: &str) -> String {
    let t = fs::read_to_string(p).unwrap_or_else(|e| lost(format!("{p}: {e}")));
    let mut o = String::new();
    let mut rest = t.as_str();
    while let Some(i) = rest.find("r#") {
        let before = rest[..i].chars().last().is_some_and(|c| c.is_alphanumeric() || c == '_' || c == 'b');
        let after = rest[i + 2..].chars().next().is_some_and(|c| c.is_ascii_lowercase());
        o.push_str(&rest[..i]);
        o.push_str(if !before && after { "raw_" } else { "r#" });
        rest = &rest[i + 2..];
    }
    o + rest
}

fn flatten(from: Vec<Item>, cfg: &Cfg, to: &mut Vec<Item>) {
    for i in from {
        if !tr::cfg_ok(tr::item_attrs(&i), cfg) {
            continue;
        }
        if let Item::Mod(m) = i {
            if let Some((_, items)) = m.content {
                flatten(items, cfg, to);
            }
        } else {
            // functions inside functions are functions next to them
            struct Inner<'a>(Vec<Item>, &'a Cfg);
            impl syn::visit_mut::VisitMut for Inner<'_> {
                fn visit_stmt_mut(&mut self, s: &mut syn::Stmt) {
                    if let syn::Stmt::Item(i @ Item::Fn(_)) = s {
                        if tr::cfg_ok(tr::item_attrs(i), self.1) {
                            self.0.push(i.clone());
                        }
                    }
                    syn::visit_mut::visit_stmt_mut(self, s);
                }
            }
            let mut i = i;
            let mut v = Inner(vec![], cfg);
            syn::visit_mut::VisitMut::visit_item_mut(&mut v, &mut i);
            to.push(i);
            to.append(&mut v.0);
        }
    }
}

/// Sections of a function directive.
#[derive(Default, Clone)]
pub struct FnSpec {
    pub name: String,
    pub ret: Option<String>,
    pub contract: String,
    pub start: String,
    pub end: String,
    pub loops: HashMap<usize, LoopSpec>,
    pub wraps: Vec<(String, String, String)>,
    pub paths: Vec<(String, String)>,
    pub optmatch: Vec<String>,
    pub refs: Vec<(String, String)>,
    pub callargs: Vec<(String, usize, String)>,
    pub mapcollect: Option<(String, String)>,
    pub closures: HashMap<usize, String>,
    pub rename: Option<String>,
    pub sig: Option<String>,
    pub attrs: String,
    pub external: bool,
    pub guards: bool,
    /// `format!` becomes a sequence of pushes
    pub formats: bool,
    /// literals become calls of functions with contracts, `write!` becomes a sequence of writes
    pub lift: bool,
    /// `write!` becomes a sequence of `write_str`, a match on byte strings a sequence of comparisons
    pub texts: bool,
    pub loop_default: Option<LoopSpec>,
}
#[derive(Default, Clone)]
pub struct LoopSpec {
    pub iter: Option<String>,
    pub via_iter: bool,
    pub hoist: bool,
    pub popfront: bool,
    pub inv: String,
    pub start: String,
    pub end: String,
    pub after: String,
    pub before: String,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (tpl, repo, out) = (&a[1], &a[2], &a[3]);
    let dir = std::path::Path::new(tpl).parent().unwrap().to_path_buf();
    // `include FILE pub`: its functions are visible outside the module
    fn include(dir: &std::path::Path, p: &std::path::Path, public: bool, text: &mut String) {
        for line in fs::read_to_string(p).unwrap().lines() {
            if let Some(inc) = line.trim().strip_prefix("//@ include ") {
                let (inc, public) = inc.trim().strip_suffix(" pub").map(|i| (i, true)).unwrap_or((inc.trim(), false));
                include(dir, &dir.join(inc.trim()), public, text);
            } else {
                if public && line.starts_with("spec fn ") {
                    text.push_str("pub(crate) open ");
                } else if public && line.starts_with("proof fn ") {
                    text.push_str("pub(crate) ");
                }
                text.push_str(line);
                text.push('\n');
            }
        }
    }
    let mut text = String::new();
    include(&dir, std::path::Path::new(tpl), false, &mut text);
    let mut cfg = Cfg::default();
    let mut cur: Option<Src> = None;
    let mut cur_file = String::new();
    let mut o = Out::default();
    let mut global = FnSpec::default();
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    let mut cur_impl: Option<syn::ItemImpl> = None;
    let mut impl_pool: Vec<syn::ItemImpl> = vec![];
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim();
        let Some(d) = t.strip_prefix("//@") else {
            o.push(l);
            i += 1;
            continue;
        };
        let d = d.trim();
        let (w, rest) = d.split_once(' ').unwrap_or((d, ""));
        let rest = rest.trim();
        match w {
            "cfg" => {
                for x in rest.split_whitespace() {
                    match x {
                        "debug" => cfg.debug = true,
                        "all-features" => cfg.all_features = true,
                        "public" => cfg.public = true,
                        "lift" => {
                            cfg.lift = true;
                            global.lift = true;
                        }
                        "texts" => global.texts = true,
                        f => cfg.features.push(f.to_string()),
                    }
                }
                i += 1;
            }
            "file" => {
                cur = Some(load(repo, rest, &cfg));
                cur_file = rest.split(' ').next().unwrap().to_string();
                i += 1;
            }
            "wrap" | "path" | "optmatch" | "refwrap" | "callarg" => {
                tr::rewrite_directive(&mut global, w, rest);
                i += 1;
            }
            "struct" | "enum" | "const" | "trait" | "static" | "use" => {
                let (name, opts) = rest.split_once(' ').unwrap_or((rest, ""));
                let it = find_item(cur.as_ref().unwrap(), w, name).unwrap_or_else(|| lost(format!("{cur_file}: {w} {name} not found")));
                o.code(&tr::print_item(it, &cfg, opts, &global), &format!("{cur_file}: {w} {name}"), 0);
                i += 1;
            }
            "impl" => {
                // `impl HEADER {` : header text is compared (without spaces) with the source's
                let head = rest.trim_end_matches('{').trim();
                let (find, print) = head.split_once("=>").unwrap_or((head, head));
                impl_pool = cur
                    .as_ref()
                    .unwrap()
                    .items
                    .iter()
                    .filter_map(|x| if let Item::Impl(im) = x { Some(im.clone()) } else { None })
                    .filter(|im| impl_matches(im, find.trim()))
                    .collect();
                if impl_pool.is_empty() {
                    lost(format!("{cur_file}: impl {head} not found"));
                }
                cur_impl = Some(impl_pool[0].clone());
                let h = if print.trim() == head { tr::impl_header(&impl_pool[0]) } else { print.trim().to_string() };
                o.push(&format!("{h} {{"));
                for it in &impl_pool[0].items {
                    if let ImplItem::Type(t) = it {
                        if impl_pool[0].trait_.is_some() && h.split_whitespace().any(|w| w == "for") {
                            let mut t = t.clone();
                            t.attrs.clear();
                            o.push(&t.to_token_stream().to_string());
                        }
                    }
                }
                i += 1;
            }
            // made TYPE FN..: in the current file, values of the tuple struct TYPE are made in these functions only
            "made" => {
                let w: Vec<&str> = rest.split_whitespace().collect();
                struct Made<'a>(&'a str, &'a [&'a str], Vec<String>, Vec<String>);
                impl<'ast> syn::visit::Visit<'ast> for Made<'_> {
                    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
                        self.2.push(f.sig.ident.to_string());
                        syn::visit::visit_item_fn(self, f);
                        self.2.pop();
                    }
                    fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
                        self.2.push(f.sig.ident.to_string());
                        syn::visit::visit_impl_item_fn(self, f);
                        self.2.pop();
                    }
                    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
                        if p.path.segments.last().is_some_and(|s| s.ident == self.0) && !self.2.iter().any(|f| self.1.contains(&f.as_str())) {
                            self.3.push(self.2.last().cloned().unwrap_or_default());
                        }
                    }
                }
                let mut v = Made(w[0], &w[1..], vec![], vec![]);
                for x in &cur.as_ref().unwrap().items {
                    syn::visit::Visit::visit_item(&mut v, x);
                }
                if let Some(f) = v.3.first() {
                    lost(format!("{cur_file}: {} is made in {f} too", w[0]));
                }
                i += 1;
            }
            // sole TYPE COUNTER FN..: values of TYPE are made and changed, and COUNTER is used, in these functions only
            "sole" => {
                let w: Vec<&str> = rest.split_whitespace().collect();
                let (ty, counter, fns) = (w[0], w[1], &w[2..]);
                let src = cur.as_ref().unwrap();
                let mut bad = vec![];
                for x in &src.items {
                    let text = norm(x);
                    match x {
                        Item::Struct(s) if s.ident == ty => {
                            for a in s.attrs.iter().filter(|a| a.path().is_ident("derive")) {
                                for t in ["Clone", "Copy", "Default"] {
                                    if norm(a).contains(t) {
                                        bad.push(format!("{ty} derives {t}"));
                                    }
                                }
                            }
                        }
                        Item::Static(s) if s.ident == counter => {
                            let t = norm(&s.ty);
                            if !["AtomicUsize", "AtomicU64"].iter().any(|x| t.ends_with(x)) {
                                bad.push(format!("{counter} is a {t}"));
                            }
                        }
                        Item::Impl(im) if norm(&im.self_ty) == ty => {
                            let known = im.trait_.as_ref().is_none_or(|t| norm(&t.1).ends_with("Debug"));
                            let all = im.items.iter().all(|f| matches!(f, ImplItem::Fn(f) if im.trait_.is_some() || fns.contains(&f.sig.ident.to_string().as_str())));
                            if !known || !all {
                                lost(format!("{cur_file}: more is done with {ty}"));
                            }
                        }
                        _ if text.contains(counter) || text.contains(&format!("{ty}{{")) => lost(format!("{cur_file}: more is done with {counter} or {ty}")),
                        _ => {}
                    }
                }
                o.code(&format!("proof fn sole_{ty}()\n{{\n{}}}", bad.iter().map(|b| format!("    assert(false); // {b}\n")).collect::<String>()), &format!("{cur_file}: {ty}"), 0);
                i += 1;
            }
            // secrets TYPE FILE..: what holds a TYPE prints itself by derive only, and TYPE by its Debug only
            "secrets" => {
                let w: Vec<&str> = rest.split_whitespace().collect();
                let files: Vec<Src> = w[1..].iter().map(|f| load(repo, f, &cfg)).collect();
                let holds = |t: String| t.contains(&format!("{}<", w[0]));
                let mut holders = vec![];
                for x in files.iter().flat_map(|f| &f.items) {
                    match x {
                        Item::Struct(s) if s.fields.iter().any(|f| holds(norm(&f.ty))) => holders.push(s.ident.to_string()),
                        Item::Enum(e) if e.variants.iter().any(|v| v.fields.iter().any(|f| holds(norm(&f.ty)))) => holders.push(e.ident.to_string()),
                        _ => {}
                    }
                }
                for x in files.iter().flat_map(|f| &f.items) {
                    let Item::Impl(im) = x else { continue };
                    let Some(ident) = (if let syn::Type::Path(p) = &*im.self_ty { p.path.segments.last().map(|s| s.ident.to_string()) } else { None }) else { continue };
                    let fmt = im.trait_.is_some() && im.items.iter().any(|f| matches!(f, ImplItem::Fn(f) if f.sig.ident == "fmt"));
                    if fmt && (holders.contains(&ident) || ident == w[0] && !norm(&im.trait_.as_ref().unwrap().1).ends_with("Debug")) {
                        lost(format!("{ident} prints itself"));
                    }
                }
                o.push(&format!("// hold a {}: {}\n", w[0], holders.join(", ")));
                i += 1;
            }
            // deser TYPE .. enddeser: what serde's derive makes of its input (`x`, or a field each), under the contract between;
            // what follows `//@ back` is said of the input of a conversion
            "deser" => {
                let (mut contract, mut back) = (String::new(), String::new());
                let mut at_back = false;
                i += 1;
                while lines[i].trim() != "//@ enddeser" {
                    at_back |= lines[i].trim() == "//@ back";
                    let contract = if at_back { &mut back } else { &mut contract };
                    contract.push_str(&format!("{}\n", lines[i]));
                    i += 1;
                }
                i += 1;
                let Some(Item::Struct(s)) = find_item(cur.as_ref().unwrap(), "struct", rest) else { lost(format!("{cur_file}: struct {rest} not found")) };
                let generics = |x: &str| match find_item(cur.as_ref().unwrap(), "struct", x) {
                    Some(Item::Struct(s)) => Some(s.generics.split_for_impl().1.to_token_stream().to_string()),
                    _ => None,
                };
                match tr::deserializer(s, &contract, &back, generics) {
                    Ok(t) => o.code(&t, &format!("{cur_file}: serde of {rest}"), s.ident.span().start().line),
                    Err(e) => lost(format!("{cur_file}: {rest}: {e}")),
                }
            }
            // plainserde TYPE..: no other type that derives Deserialize has anything but a tag said about its parts
            "plainserde" => {
                let known: Vec<&str> = rest.split_whitespace().collect();
                let files = sources(repo, "imap-types/src");
                let mut n = 0;
                for f in &files {
                    let src = load(repo, f, &cfg);
                    for x in &src.items {
                        match tr::plain_serde(x, &known) {
                            Ok(k) => n += k,
                            Err(e) => lost(format!("{f}: {e}")),
                        }
                    }
                }
                o.push(&format!("// {n} types\n"));
                i += 1;
            }
            // onlyimpls TRAIT TYPE..: both crates implement TRAIT for these only; onlyfn NAME: one function has this name
            "onlyimpls" | "onlyfn" => {
                let words: Vec<&str> = rest.split_whitespace().collect();
                let mut n = 0;
                for f in sources(repo, "imap-types/src").iter().chain(&sources(repo, "imap-codec/src")) {
                    for x in &load(repo, f, &cfg).items {
                        let named = |i: &syn::Ident| (i == words[0]) as usize;
                        match x {
                            Item::Impl(im) if w == "onlyimpls" => {
                                if im.trait_.as_ref().is_some_and(|t| t.1.segments.last().unwrap().ident == words[0]) {
                                    let ty = norm(&im.self_ty);
                                    let id = ty.split('<').next().unwrap();
                                    if !words[1..].contains(&id) {
                                        lost(format!("{f}: {} for {id}", words[0]));
                                    }
                                }
                            }
                            Item::Impl(im) => n += im.items.iter().map(|f| if let ImplItem::Fn(f) = f { named(&f.sig.ident) } else { 0 }).sum::<usize>(),
                            Item::Trait(t) => n += t.items.iter().map(|f| if let syn::TraitItem::Fn(f) = f { named(&f.sig.ident) } else { 0 }).sum::<usize>(),
                            Item::Fn(f) => n += named(&f.sig.ident),
                            _ => {}
                        }
                    }
                }
                if w == "onlyfn" && n != 1 {
                    lost(format!("{n} functions {rest}"));
                }
                i += 1;
            }
            "items" => {
                for name in rest.split_whitespace() {
                    let src = cur.as_ref().unwrap();
                    // `NAME?`: only under some features
                    let (name, opt) = name.strip_suffix('?').map(|n| (n, true)).unwrap_or((name, false));
                    let it = ["struct", "enum", "type"].iter().find_map(|k| find_item(src, k, name));
                    if opt && it.is_none() {
                        continue;
                    }
                    let it = it.unwrap_or_else(|| lost(format!("{cur_file}: {name} not found")));
                    o.code(&tr::print_item(it, &cfg, "", &global), &format!("{cur_file}: {name}"), 0);
                }
                i += 1;
            }
            // impls TRAIT [skip T..]: every implementation of TRAIT in the file, each function under the same directives
            "impls" => {
                let mut w = rest.split_whitespace();
                let tr_name = w.next().unwrap().to_string();
                let skip: Vec<String> = w.skip(1).map(String::from).collect();
                let mut spec = global.clone();
                let (mut default, mut per): (String, Vec<(Vec<String>, String)>) = Default::default();
                let mut sec = "start";
                i += 1;
                loop {
                    let t = lines[i].trim();
                    i += 1;
                    if let Some(d) = t.strip_prefix("//@") {
                        let d = d.trim();
                        let (w, rest) = d.split_once(' ').unwrap_or((d, ""));
                        match w {
                            "endimpls" => break,
                            "wrap" | "path" | "optmatch" | "refwrap" | "callarg" => tr::rewrite_directive(&mut spec, w, rest),
                            "attr" => spec.attrs.push_str(&format!("{rest}\n")),
                            "start" => sec = "start",
                            "loops" => {
                                sec = "loops";
                                spec.loop_default = Some(LoopSpec { via_iter: true, ..Default::default() });
                            }
                            "default" => default = rest.to_string(),
                            "kind" => {
                                let (a, b) = rest.split_once("=>").unwrap();
                                per.push((a.split_whitespace().map(String::from).collect(), b.trim().to_string()));
                            }
                            _ => panic!("unknown directive {d}"),
                        }
                        continue;
                    }
                    let line = format!("{}\n", lines[i - 1]);
                    if sec == "start" {
                        spec.start.push_str(&line)
                    } else {
                        spec.loop_default.as_mut().unwrap().inv.push_str(&line)
                    }
                }
                let src = cur.as_ref().unwrap();
                for x in &src.items {
                    let Item::Impl(im) = x else { continue };
                    if !im.trait_.as_ref().is_some_and(|(_, p, _)| p.segments.last().unwrap().ident == tr_name) {
                        continue;
                    }
                    let ty = norm(&im.self_ty);
                    let id: String = ty.split('<').next().unwrap().rsplit("::").next().unwrap().to_string();
                    if skip.contains(&id) || skip.contains(&ty) {
                        continue;
                    }
                    o.push(&format!("{} {{", tr::impl_header(im)));
                    o.push(per.iter().find(|p| p.0.contains(&id)).map(|p| p.1.as_str()).unwrap_or(&default));
                    for f in &im.items {
                        if let ImplItem::Fn(f) = f {
                            let func = syn::ItemFn { attrs: vec![], vis: syn::Visibility::Inherited, sig: f.sig.clone(), block: Box::new(f.block.clone()) };
                            let label = format!("{cur_file}: {ty}::{}", f.sig.ident);
                            o.code(&tr::print_fn(func, &spec, &cfg, &label), &label, f.sig.ident.span().start().line);
                        }
                    }
                    o.push("}");
                }
            }
            // the functions that stand for the literals met so far
            "literals" => {
                o.push(&tr::literals(rest == "exact"));
                i += 1;
            }
            // parsers [case] KEY..: the parsers reached from the roots, and their contracts (with `case`, those about letter case)
            "parsers" => {
                let mut g = parsers::Gen::new(repo, &cfg);
                let (case, rest) = match rest.strip_prefix("case ") {
                    Some(r) => (true, r),
                    None => (false, rest),
                };
                for k in rest.split_whitespace() {
                    if let Err(e) = g.define(k) {
                        lost(format!("{k}: {e}"));
                    }
                }
                // modules are checked in parallel
                const PER: usize = 12;
                let mut n = 0;
                let mut open = false;
                for (name, text, label, line) in emit::Em::new(&g, case).emit() {
                    if name.starts_with("p_") {
                        if n % PER == 0 {
                            if open {
                                o.push("}");
                            }
                            open = true;
                            o.push(&format!("use m{}::*;\nmod m{} {{\nuse super::*;\n", n / PER, n / PER));
                        }
                        n += 1;
                    }
                    let t = if open { text.replace("\nspec fn", "\npub(crate) open spec fn") } else { text };
                    let t = if open { t.strip_prefix("spec fn").map(|r| format!("pub(crate) open spec fn{r}")).unwrap_or(t) } else { t };
                    let t = t.strip_prefix("proof fn").map(|r| format!("pub(crate) proof fn{r}")).unwrap_or(t.clone()).replace("\nproof fn", "\npub(crate) proof fn");
                    o.code(&t, &label, line);
                }
                if open {
                    o.push("}");
                }
                i += 1;
                while let Some(ds) = lines.get(i).and_then(|l| l.trim().strip_prefix("//@ decoders ")) {
                    for d in ds.split_whitespace() {
                        match g.decoder(d) {
                            Ok(t) => o.code(&t, &format!("imap-codec/src/codec/decode.rs: {d}::decode"), 0),
                            Err(e) => lost(format!("{d}: {e}")),
                        }
                    }
                    i += 1;
                }
                for u in &g.unchecked {
                    o.push(&format!("// UNCHECKED {}", u.replace('\n', " ")));
                }
            }
            "endimpl" => {
                cur_impl = None;
                o.push("}");
                i += 1;
            }
            "fn" => {
                let mut spec = global.clone();
                let (n, r) = rest.split_once("->").unwrap_or((rest, ""));
                spec.name = n.trim().to_string();
                if !r.trim().is_empty() {
                    spec.ret = Some(r.trim().to_string());
                }
                i += 1;
                let mut sec = "contract".to_string();
                loop {
                    if i >= lines.len() {
                        panic!("unterminated fn {}", spec.name)
                    }
                    let t = lines[i].trim();
                    i += 1;
                    if let Some(d) = t.strip_prefix("//@") {
                        let d = d.trim();
                        let (w, rest) = d.split_once(' ').unwrap_or((d, ""));
                        match w {
                            "endfn" => break,
                            "wrap" | "path" | "optmatch" | "refwrap" | "callarg" => tr::rewrite_directive(&mut spec, w, rest),
                            "attr" => spec.attrs.push_str(&format!("{rest}\n")),
                            "sig" => spec.sig = Some(rest.to_string()),
                            "as" => spec.rename = Some(rest.to_string()),
                            "external" => spec.external = true,
                            "loops" => {
                                sec = "loops".into();
                                spec.loop_default = Some(LoopSpec { via_iter: true, ..Default::default() });
                            }
                            // match guards over mutable bindings: test first, then bind
                            "guards" => spec.guards = true,
                            "formats" => spec.formats = true,
                            // mapcollect CTOR PUSH: `it.map(|p| e).collect()` is a loop that pushes e onto CTOR
                            "mapcollect" => {
                                let (c, p) = rest.trim().rsplit_once(' ').unwrap();
                                spec.mapcollect = Some((c.to_string(), p.to_string()));
                            }
                            // closure K HEAD: parameter types and contract for the K-th closure
                            "closure" => {
                                let (k, h) = rest.trim().split_once(' ').unwrap();
                                spec.closures.insert(k.parse().unwrap(), h.to_string());
                            }
                            "start" | "end" => sec = w.to_string(),
                            "loop" => {
                                let p: Vec<&str> = rest.split_whitespace().collect();
                                let k: usize = p[0].parse().unwrap();
                                let e = spec.loops.entry(k).or_default();
                                sec = format!("{} {k}", p[1]);
                                if p[1] == "inv" && p.contains(&"popfront") {
                                    e.popfront = true;
                                } else if p[1] == "inv" && p.len() > 2 {
                                    e.iter = Some(p[2].to_string());
                                    e.via_iter = p.contains(&"iter");
                                    e.hoist = p.contains(&"hoist");
                                }
                            }
                            _ => panic!("unknown directive {d}"),
                        }
                        continue;
                    }
                    let line = format!("{}\n", lines[i - 1]);
                    let (s, k) = sec.split_once(' ').unwrap_or((&sec, ""));
                    match s {
                        "contract" => spec.contract.push_str(&line),
                        "loops" => spec.loop_default.as_mut().unwrap().inv.push_str(&line),
                        "start" if k.is_empty() => spec.start.push_str(&line),
                        "end" if k.is_empty() => spec.end.push_str(&line),
                        _ => {
                            let e = spec.loops.get_mut(&k.parse::<usize>().unwrap()).unwrap();
                            match s {
                                "inv" => e.inv.push_str(&line),
                                "start" => e.start.push_str(&line),
                                "end" => e.end.push_str(&line),
                                "after" => e.after.push_str(&line),
                                "before" => e.before.push_str(&line),
                                _ => panic!("section {sec}"),
                            }
                        }
                    }
                }
                let (func, line, in_trait) = match &cur_impl {
                    Some(_) => impl_pool
                        .iter()
                        .find_map(|im| {
                            im.items.iter().find_map(|x| match x {
                                ImplItem::Fn(f) if f.sig.ident == spec.name && tr::cfg_ok(&f.attrs, &cfg) => Some((
                                    syn::ItemFn { attrs: vec![], vis: syn::Visibility::Inherited, sig: f.sig.clone(), block: Box::new(f.block.clone()) },
                                    f.sig.ident.span().start().line,
                                    im.trait_.is_some(),
                                )),
                                _ => None,
                            })
                        })
                        .unwrap_or_else(|| lost(format!("{cur_file}: fn {} not found", spec.name))),
                    None => cur
                        .as_ref()
                        .unwrap()
                        .items
                        .iter()
                        .find_map(|x| match x {
                            Item::Fn(f) if f.sig.ident == spec.name => Some((f.clone(), f.sig.ident.span().start().line, false)),
                            // provided by a trait
                            Item::Trait(t) => t.items.iter().find_map(|x| match x {
                                syn::TraitItem::Fn(f) if f.sig.ident == spec.name => f.default.clone().map(|b| {
                                    let g = syn::ItemFn { attrs: vec![], vis: syn::Visibility::Inherited, sig: f.sig.clone(), block: Box::new(b) };
                                    (g, f.sig.ident.span().start().line, true)
                                }),
                                _ => None,
                            }),
                            _ => None,
                        })
                        .unwrap_or_else(|| lost(format!("{cur_file}: fn {} not found", spec.name))),
                };
                let _ = in_trait;
                let label = format!("{cur_file}: {}{}", cur_impl.as_ref().map(|i| format!("{}::", norm(&i.self_ty))).unwrap_or_default(), spec.name);
                let code = tr::print_fn(func, &spec, &cfg, &label);
                o.code(&code, &label, line);
            }
            _ => panic!("unknown directive {d}"),
        }
    }
    fs::write(out, o.text).unwrap();
    let mut map = String::new();
    for (a, b, l, line) in o.map {
        map.push_str(&format!("{a}\t{b}\t{l}\t{line}\n"));
    }
    fs::write(format!("{out}.map"), map).unwrap();
}

/// The Rust files under a directory of the repository.
fn sources(repo: &str, dir: &str) -> Vec<String> {
    fn walk(d: &std::path::Path, to: &mut Vec<std::path::PathBuf>) {
        for e in fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, to);
            } else if p.extension().is_some_and(|x| x == "rs") {
                to.push(p);
            }
        }
    }
    let mut v = vec![];
    walk(&std::path::Path::new(repo).join(dir), &mut v);
    v.sort();
    v.iter().map(|p| p.strip_prefix(repo).unwrap().to_str().unwrap().to_string()).collect()
}

fn find_item<'a>(s: &'a Src, kind: &str, name: &str) -> Option<&'a Item> {
    s.items.iter().find(|i| match (kind, i) {
        ("struct", Item::Struct(x)) => x.ident == name,
        ("enum", Item::Enum(x)) => x.ident == name,
        ("const", Item::Const(x)) => x.ident == name,
        ("static", Item::Static(x)) => x.ident == name,
        ("trait", Item::Trait(x)) => x.ident == name,
        ("type", Item::Type(x)) => x.ident == name,
        _ => false,
    })
}

fn impl_matches(im: &syn::ItemImpl, find: &str) -> bool {
    // `Type` or `Trait for Type`, compared without spaces and without impl generics
    let ty = norm(&im.self_ty);
    let tr = im.trait_.as_ref().map(|(_, p, _)| norm(p));
    match find.split_once(" for ") {
        Some((t, s)) => tr.as_deref() == Some(norm_s(t).as_str()) && ty == norm_s(s),
        None => tr.is_none() && ty == norm_s(find),
    }
}

#[derive(Default)]
struct Out {
    text: String,
    n: usize,
    map: Vec<(usize, usize, String, usize)>,
}
impl Out {
    fn push(&mut self, l: &str) {
        self.text.push_str(l);
        self.text.push('\n');
        self.n += 1 + l.matches('\n').count();
    }
    fn code(&mut self, t: &str, label: &str, line: usize) {
        let a = self.n + 1;
        self.push(t.trim_end());
        self.map.push((a, self.n, label.to_string(), line));
    }
}
