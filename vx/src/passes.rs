use crate::overlay::*;
use crate::FnReport;
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use syn::parse::Parser;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub fn norm<T: ToTokens>(t: &T) -> String {
    norm_ts(t.to_token_stream())
}
fn norm_ts(t: TokenStream) -> String {
    t.to_string().split_whitespace().collect::<Vec<_>>().join("")
}
fn norm_str(s: &str) -> String {
    match s.parse::<TokenStream>() {
        Ok(t) => norm_ts(t),
        Err(_) => s.split_whitespace().collect(),
    }
}
fn rng<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

#[derive(Default)]
struct Edits {
    v: Vec<(usize, usize, String)>,
}
impl Edits {
    fn rep(&mut self, s: usize, e: usize, t: impl Into<String>) {
        self.v.push((s, e, t.into()));
    }
    fn ins(&mut self, s: usize, t: impl Into<String>) {
        self.v.push((s, s, t.into()));
    }
    fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    /// Apply; edits nested inside a replaced range are dropped (a later
    /// iteration of the pass picks them up).
    fn apply(mut self, src: &str) -> (String, bool) {
        // stable sort: insertions at the same place keep their order
        self.v.sort_by_key(|x| (x.0, x.1 > x.0));
        let mut out = String::new();
        let mut pos = 0;
        let mut dropped = false;
        for (s, e, t) in self.v {
            if s < pos {
                dropped = true;
                continue;
            }
            out.push_str(&src[pos..s]);
            out.push_str(&t);
            pos = e;
        }
        out.push_str(&src[pos..]);
        (out, dropped)
    }
}

fn parse_fn(src: &str) -> Result<syn::ImplItemFn, String> {
    syn::parse_str::<syn::ImplItemFn>(src).map_err(|e| format!("parse: {} in\n{}", e, src))
}

pub struct SourceFile {
    pub path: String,
    pub text: String,
    pub file: syn::File,
}

fn attrs_of(ts: TokenStream) -> Vec<syn::Attribute> {
    let p = |input: syn::parse::ParseStream| {
        let a = syn::Attribute::parse_outer(input)?;
        let _: TokenStream = input.parse()?;
        Ok(a)
    };
    p.parse2(ts).unwrap_or_default()
}

fn cfg_eval(m: &syn::Meta, feats: &BTreeSet<String>) -> bool {
    match m {
        syn::Meta::Path(p) => {
            let s = norm(p);
            matches!(s.as_str(), "unix" | "debug_assertions")
        }
        syn::Meta::NameValue(nv) => {
            let k = norm(&nv.path);
            let v = norm(&nv.value);
            let v = v.trim_matches('"');
            match k.as_str() {
                "feature" => feats.contains(v),
                "target_os" => v == "linux",
                "target_family" => v == "unix",
                _ => false,
            }
        }
        syn::Meta::List(l) => {
            let k = norm(&l.path);
            let inner = syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated
                .parse2(l.tokens.clone())
                .map(|p| p.into_iter().collect::<Vec<_>>())
                .unwrap_or_default();
            match k.as_str() {
                "not" => !inner.iter().all(|x| cfg_eval(x, feats)),
                "all" => inner.iter().all(|x| cfg_eval(x, feats)),
                "any" => inner.iter().any(|x| cfg_eval(x, feats)),
                _ => false,
            }
        }
    }
}
fn attr_enabled(a: &syn::Attribute, feats: &BTreeSet<String>) -> Option<bool> {
    if a.path().is_ident("cfg") {
        if let syn::Meta::List(l) = &a.meta {
            if let Ok(m) = syn::parse2::<syn::Meta>(l.tokens.clone()) {
                return Some(cfg_eval(&m, feats));
            }
        }
    }
    None
}
fn enabled(attrs: &[syn::Attribute], feats: &BTreeSet<String>) -> bool {
    attrs.iter().all(|a| attr_enabled(a, feats).unwrap_or(true))
}

impl SourceFile {
    pub fn load(p: &Path) -> Result<SourceFile, String> {
        let text = std::fs::read_to_string(p).map_err(|e| format!("{}: {}", p.display(), e))?;
        let file = syn::parse_file(&text).map_err(|e| format!("{}: {}", p.display(), e))?;
        Ok(SourceFile { path: p.display().to_string(), text, file })
    }
    fn items<'a>(&'a self) -> Vec<&'a syn::Item> {
        fn go<'a>(v: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
            for i in v {
                out.push(i);
                if let syn::Item::Mod(m) = i {
                    if let Some((_, c)) = &m.content {
                        go(c, out);
                    }
                }
            }
        }
        let mut o = vec![];
        go(&self.file.items, &mut o);
        o
    }
    pub fn list(&self) -> Vec<String> {
        let mut o = vec![];
        for i in self.items() {
            match i {
                syn::Item::Fn(f) => o.push(f.sig.ident.to_string()),
                syn::Item::Impl(im) => {
                    for x in &im.items {
                        if let syn::ImplItem::Fn(f) = x {
                            o.push(format!("{}::{}", norm(&im.self_ty), f.sig.ident));
                        }
                    }
                }
                syn::Item::Trait(im) => {
                    for x in &im.items {
                        if let syn::TraitItem::Fn(f) = x {
                            o.push(format!("{}::{}", im.ident, f.sig.ident));
                        }
                    }
                }
                _ => (),
            }
        }
        o
    }
    /// source text of a function (without attributes), and its 1-based line
    pub fn find_fn(
        &self,
        ty: Option<&str>,
        tr: Option<&str>,
        name: &str,
        feats: &BTreeSet<String>,
    ) -> Option<(String, usize)> {
        for i in self.items() {
            match i {
                syn::Item::Fn(f) if ty.is_none() && f.sig.ident == name && enabled(&f.attrs, feats) => {
                    let s = rng(&f.vis).0.min(rng(&f.sig).0);
                    let s = if matches!(f.vis, syn::Visibility::Inherited) { rng(&f.sig).0 } else { s };
                    let e = rng(&f.block).1;
                    return Some((self.text[s..e].to_string(), f.sig.span().start().line));
                }
                syn::Item::Impl(im) if ty.is_some() => {
                    if !enabled(&im.attrs, feats) {
                        continue;
                    }
                    let self_ty = norm(&im.self_ty);
                    let base = self_ty.split('<').next().unwrap_or("").to_string();
                    if base != ty.unwrap() && self_ty != ty.unwrap() {
                        continue;
                    }
                    let trn = im.trait_.as_ref().map(|t| norm(&t.1));
                    match (tr, &trn) {
                        (Some(a), Some(b)) if norm_str(a) == *b => (),
                        (None, None) => (),
                        (Some("*"), _) => (),
                        _ => continue,
                    }
                    for x in &im.items {
                        if let syn::ImplItem::Fn(f) = x {
                            if f.sig.ident == name && enabled(&f.attrs, feats) {
                                let s = if matches!(f.vis, syn::Visibility::Inherited) {
                                    rng(&f.sig).0
                                } else {
                                    rng(&f.vis).0
                                };
                                let e = rng(&f.block).1;
                                return Some((self.text[s..e].to_string(), f.sig.span().start().line));
                            }
                        }
                    }
                }
                syn::Item::Trait(im) if ty == Some(&im.ident.to_string()) => {
                    for x in &im.items {
                        if let syn::TraitItem::Fn(f) = x {
                            if f.sig.ident == name && enabled(&f.attrs, feats) {
                                if let Some(b) = &f.default {
                                    let s = rng(&f.sig).0;
                                    let e = rng(b).1;
                                    return Some((self.text[s..e].to_string(), f.sig.span().start().line));
                                }
                            }
                        }
                    }
                }
                _ => (),
            }
        }
        None
    }
    pub fn consts_used(&self, text: &str) -> Vec<String> {
        let names: BTreeMap<String, ()> = self
            .items()
            .iter()
            .filter_map(|i| match i {
                syn::Item::Const(c) => Some((c.ident.to_string(), ())),
                syn::Item::Static(c) if matches!(c.mutability, syn::StaticMutability::None) => None,
                _ => None,
            })
            .collect();
        let mut out = vec![];
        if names.is_empty() {
            return out;
        }
        fn walk(ts: TokenStream, names: &BTreeMap<String, ()>, out: &mut Vec<String>) {
            for t in ts {
                match t {
                    proc_macro2::TokenTree::Ident(i) => {
                        let s = i.to_string();
                        if names.contains_key(&s) && !out.contains(&s) {
                            out.push(s);
                        }
                    }
                    proc_macro2::TokenTree::Group(g) => walk(g.stream(), names, out),
                    _ => (),
                }
            }
        }
        if let Ok(ts) = text.parse::<TokenStream>() {
            walk(ts, &names, &mut out);
        }
        out
    }
    pub fn struct_expr(&self, f: &str, ty: &str) -> Result<String, String> {
        struct V<'a> {
            ty: &'a str,
            r: Option<(usize, usize)>,
        }
        impl<'a, 'ast> Visit<'ast> for V<'a> {
            fn visit_expr_struct(&mut self, e: &'ast syn::ExprStruct) {
                if (norm(&e.path) == self.ty || norm(&e.path) == "Self") && self.r.is_none() {
                    self.r = Some(rng(e));
                }
                visit::visit_expr_struct(self, e);
            }
        }
        let mut v = V { ty, r: None };
        for i in self.items() {
            if let syn::Item::Fn(g) = i {
                if g.sig.ident == f {
                    v.visit_item_fn(g);
                }
            }
            if let syn::Item::Impl(im) = i {
                if norm(&im.self_ty) == ty {
                    for m in &im.items {
                        if let syn::ImplItem::Fn(g) = m {
                            if g.sig.ident == f {
                                v.visit_impl_item_fn(g);
                            }
                        }
                    }
                }
            }
        }
        v.r.map(|(s, e)| self.text[s..e].to_string()).ok_or_else(|| "struct expression not found".into())
    }
    /// names of all methods defined for `ty` in inherent impls, and free fns
    fn find_any(&self, ty: Option<&str>, name: &str, feats: &BTreeSet<String>) -> Option<String> {
        self.find_fn(ty, None, name, feats).map(|x| x.0)
    }
}

// ---------------------------------------------------------------- types

/// `bitflags! { .. pub struct NAME: BITS { const A = expr; .. } }`
fn bitflags_type(m: &syn::Macro, t: &TypeItem) -> Option<String> {
    let toks: Vec<proc_macro2::TokenTree> = m.tokens.clone().into_iter().collect();
    let p = toks.iter().position(|x| x.to_string() == "struct")?;
    if toks.get(p + 1)?.to_string() != t.name {
        return None;
    }
    let bits = toks.get(p + 3)?.to_string();
    let body = match toks.last()? {
        proc_macro2::TokenTree::Group(g) => g.stream(),
        _ => return None,
    };
    let mut out = format!("{}\npub struct {} {{ pub bits: {} }}\nimpl {} {{\n", t.attrs, t.name, bits, t.name);
    let mut cur: Vec<String> = vec![];
    for x in body {
        let x = x.to_string();
        if x == ";" {
            if let Some(c) = cur.iter().position(|y| y == "const") {
                out.push_str(&format!("    pub const {}: {} = {} {{ bits: {} }};\n", cur[c + 1], t.name, t.name, cur[c + 3..].join(" ").replace("< <", "<<")));
            }
            cur.clear();
        } else {
            cur.push(x);
        }
    }
    out.push_str("}\n");
    Some(out)
}

/// R26: the macros of a file, word for word, except that `$crate::` paths lead into the unit and macros are called
/// by their names alone
pub fn extract_macros(sf: &SourceFile, ov: &Overlay) -> String {
    let mut out = String::new();
    for i in sf.items() {
        let syn::Item::Macro(m) = i else { continue };
        let (Some(id), true) = (&m.ident, m.mac.path.is_ident("macro_rules")) else { continue };
        if !enabled(&m.attrs, &ov.features) {
            continue;
        }
        let t = m.mac.tokens.to_string();
        let body = match (t.is_empty(), m.mac.delimiter.span().join().byte_range()) {
            (false, r) if sf.text[r.clone()].starts_with(['{', '(', '[']) => sf.text[r].to_string(),
            _ => continue,
        };
        let mut text = String::new();
        let mut rest = body.as_str();
        while let Some(p) = rest.find("$crate::") {
            text.push_str(&rest[..p]);
            rest = &rest[p + 8..];
            let n = rest.find(|c: char| !c.is_alphanumeric() && c != '_').unwrap_or(rest.len());
            if !rest[n..].starts_with('!') {
                text.push_str("crate::");
            }
        }
        text.push_str(rest);
        out.push_str(&format!("macro_rules! {} {}\n", id, text));
        if !text.ends_with('}') {
            out.push_str(";\n");
        }
    }
    out
}
pub fn macros_line(sf: &SourceFile) -> usize {
    sf.items().iter().find_map(|i| if let syn::Item::Macro(m) = i { m.ident.as_ref().map(|x| x.span().start().line) } else { None }).unwrap_or(0)
}

pub fn extract_type(sf: &SourceFile, t: &TypeItem, ov: &Overlay) -> Result<String, String> {
    for i in sf.items() {
        match i {
            syn::Item::Macro(m) if m.mac.path.is_ident("bitflags") => {
                if let Some(x) = bitflags_type(&m.mac, t) {
                    return Ok(x);
                }
            }
            syn::Item::Struct(s) if s.ident == t.name && enabled(&s.attrs, &ov.features) => {
                let mut out = String::new();
                if !t.attrs.is_empty() {
                    out.push_str(&t.attrs);
                    out.push('\n');
                }
                let g = norm(&s.generics);
                out.push_str(&format!("pub struct {}{} ", s.ident, g));
                match &s.fields {
                    syn::Fields::Named(n) => {
                        out.push_str("{\n");
                        for f in &n.named {
                            if !enabled(&f.attrs, &ov.features) {
                                continue;
                            }
                            let id = f.ident.as_ref().unwrap().to_string();
                            if let Some(only) = &t.only {
                                if !only.contains(&id) {
                                    continue;
                                }
                            }
                            let (a, b) = rng(&f.ty);
                            let mut ty = sf.text[a..b].to_string();
                            if let Some((_, r)) = t.fields.iter().find(|x| x.0 == id) {
                                if r == "-" {
                                    continue;
                                }
                                ty = r.clone();
                            } else {
                                ty = map_types_str(&ty, ov);
                            }
                            out.push_str(&format!("    pub {}: {},\n", id, ty));
                        }
                        out.push_str("}\n");
                    }
                    syn::Fields::Unnamed(u) => {
                        let v: Vec<String> = u
                            .unnamed
                            .iter()
                            .map(|f| {
                                let (a, b) = rng(&f.ty);
                                format!("pub {}", map_types_str(&sf.text[a..b], ov))
                            })
                            .collect();
                        out.push_str(&format!("({});\n", v.join(", ")));
                    }
                    _ => out.push_str(";\n"),
                }
                return Ok(out);
            }
            syn::Item::Enum(s) if s.ident == t.name && enabled(&s.attrs, &ov.features) => {
                let mut out = String::new();
                if !t.attrs.is_empty() {
                    out.push_str(&t.attrs);
                    out.push('\n');
                }
                out.push_str(&format!("pub enum {}{} {{\n", s.ident, norm(&s.generics)));
                for v in &s.variants {
                    if !enabled(&v.attrs, &ov.features) {
                        continue;
                    }
                    if let Some(only) = &t.only {
                        if !only.contains(&v.ident.to_string()) {
                            continue;
                        }
                    }
                    out.push_str(&format!("    {}", v.ident));
                    match &v.fields {
                        syn::Fields::Named(n) => {
                            out.push_str(" { ");
                            for f in &n.named {
                                let (a, b) = rng(&f.ty);
                                out.push_str(&format!(
                                    "{}: {}, ",
                                    f.ident.as_ref().unwrap(),
                                    map_types_str(&sf.text[a..b], ov)
                                ));
                            }
                            out.push_str("}");
                        }
                        syn::Fields::Unnamed(n) => {
                            out.push('(');
                            for f in &n.unnamed {
                                let (a, b) = rng(&f.ty);
                                out.push_str(&format!("{}, ", map_types_str(&sf.text[a..b], ov)));
                            }
                            out.push(')');
                        }
                        syn::Fields::Unit => (),
                    }
                    if let Some((_, d)) = &v.discriminant {
                        let (a, b) = rng(d);
                        out.push_str(&format!(" = {}", &sf.text[a..b]));
                    }
                    out.push_str(",\n");
                }
                out.push_str("}\n");
                return Ok(out);
            }
            syn::Item::Const(c) if c.ident == t.name && enabled(&c.attrs, &ov.features) => {
                let (a, b) = rng(&c.ty);
                let (x, y) = rng(&c.expr);
                return Ok(format!(
                    "pub const {}: {} = {};\n",
                    c.ident,
                    map_types_str(&sf.text[a..b], ov),
                    &sf.text[x..y]
                ));
            }
            syn::Item::Type(c) if c.ident == t.name && enabled(&c.attrs, &ov.features) => {
                let (a, b) = rng(&c.ty);
                return Ok(format!("pub type {} = {};\n", c.ident, map_types_str(&sf.text[a..b], ov)));
            }
            syn::Item::Macro(m) if norm(&m.mac.path).ends_with("bitflags") => {
                // struct NAME: T { const A = e; ... }
                let toks = m.mac.tokens.clone();
                let p = |input: syn::parse::ParseStream| {
                    let _ = syn::Attribute::parse_outer(input)?;
                    let _: syn::Visibility = input.parse()?;
                    let _: syn::Token![struct] = input.parse()?;
                    let id: syn::Ident = input.parse()?;
                    let _: syn::Token![:] = input.parse()?;
                    let ty: syn::Type = input.parse()?;
                    let body;
                    syn::braced!(body in input);
                    let mut cs = vec![];
                    while !body.is_empty() {
                        let at = syn::Attribute::parse_outer(&body)?;
                        let _: syn::Token![const] = body.parse()?;
                        let n: syn::Ident = body.parse()?;
                        let _: syn::Token![=] = body.parse()?;
                        let e: syn::Expr = body.parse()?;
                        let _: syn::Token![;] = body.parse()?;
                        cs.push((at, n, e));
                    }
                    let _: TokenStream = input.parse()?;
                    Ok((id, ty, cs))
                };
                if let Ok((id, ty, cs)) = p.parse2(toks) {
                    if id == t.name {
                        let tyn = norm(&ty);
                        let mut out = String::new();
                        if !t.attrs.is_empty() {
                            out.push_str(&t.attrs);
                            out.push('\n');
                        }
                        out.push_str(&format!("pub struct {} {{ pub bits: {} }}\nimpl {} {{\n", id, tyn, id));
                        for (at, n, e) in cs {
                            if !enabled(&at, &ov.features) {
                                continue;
                            }
                            let (x, y) = rng(&e);
                            out.push_str(&format!(
                                "    pub const {}: {} = {} {{ bits: {} }};\n",
                                n, id, id, &sf.text[x..y]
                            ));
                        }
                        out.push_str("}\n");
                        return Ok(out);
                    }
                }
            }
            _ => (),
        }
    }
    Err("not found".into())
}

fn map_types_str(ty: &str, ov: &Overlay) -> String {
    let src = format!("type X = {};", ty);
    let mut cur = src;
    for _ in 0..8 {
        let Ok(it) = syn::parse_str::<syn::ItemType>(&cur) else { return ty.to_string() };
        let mut v = TypeV { ov, ed: Edits::default(), n: 0 };
        v.visit_type(&it.ty);
        if v.ed.is_empty() {
            break;
        }
        cur = v.ed.apply(&cur).0;
    }
    cur["type X = ".len()..].trim_end_matches(';').to_string()
}

struct TypeV<'a> {
    ov: &'a Overlay,
    ed: Edits,
    n: usize,
}
impl<'a, 'ast> Visit<'ast> for TypeV<'a> {
    fn visit_type(&mut self, t: &'ast syn::Type) {
        let n = norm(t);
        for (a, b) in &self.ov.types {
            if norm_str(a) == n {
                let (s, e) = rng(t);
                self.ed.rep(s, e, b.clone());
                self.n += 1;
                return;
            }
        }
        visit::visit_type(self, t);
    }
}

// ---------------------------------------------------------------- passes

struct CfgV<'a> {
    feats: &'a BTreeSet<String>,
    src: &'a str,
    ed: Edits,
    n: usize,
}
impl<'a> CfgV<'a> {
    /// returns true if node removed
    fn node(&mut self, ts: TokenStream, start: usize, end: usize) -> bool {
        let at = attrs_of(ts);
        if at.is_empty() {
            return false;
        }
        if !enabled(&at, self.feats) {
            let mut e = end;
            let rest = &self.src[end..];
            let t = rest.trim_start();
            if t.starts_with(',') {
                e = end + (rest.len() - t.len()) + 1;
            }
            self.ed.rep(start, e, "");
            self.n += 1;
            return true;
        }
        for a in &at {
            let (s, e) = rng(a);
            self.ed.rep(s, e, "");
            self.n += 1;
        }
        false
    }
}
impl<'a, 'ast> Visit<'ast> for CfgV<'a> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let (a, b) = rng(s);
        if self.node(s.to_token_stream(), a, b) {
            return;
        }
        visit::visit_stmt(self, s);
    }
    fn visit_arm(&mut self, s: &'ast syn::Arm) {
        let (a, b) = rng(s);
        if self.node(s.to_token_stream(), a, b) {
            return;
        }
        visit::visit_arm(self, s);
    }
    fn visit_field_value(&mut self, s: &'ast syn::FieldValue) {
        let (a, b) = rng(s);
        if self.node(s.to_token_stream(), a, b) {
            return;
        }
        visit::visit_field_value(self, s);
    }
    fn visit_fn_arg(&mut self, s: &'ast syn::FnArg) {
        let (a, b) = rng(s);
        if self.node(s.to_token_stream(), a, b) {
            return;
        }
        visit::visit_fn_arg(self, s);
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        if m.mac.path.is_ident("cfg") {
            if let Ok(x) = syn::parse2::<syn::Meta>(m.mac.tokens.clone()) {
                let (a, b) = rng(m);
                self.ed.rep(a, b, if cfg_eval(&x, self.feats) { "true" } else { "false" });
                self.n += 1;
            }
        }
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        visit::visit_local(self, l)
    }
}

fn fix<F>(mut src: String, mut f: F) -> Result<(String, usize), String>
where
    F: FnMut(&str, &syn::ImplItemFn) -> (Edits, usize),
{
    let mut total = 0;
    for _ in 0..40 {
        let p = parse_fn(&src)?;
        let (ed, n) = f(&src, &p);
        if ed.is_empty() {
            return Ok((src, total));
        }
        total += n;
        src = ed.apply(&src).0;
    }
    Err("pass does not converge".into())
}

/// R25: one lock guard after the other is given a name, read and written through its field `v`, and released by
/// `vx_unlock` where its scope ends. A lock that has been dealt with is called `vx_lock`.
struct GuardV<'a> {
    ov: &'a Overlay,
    src: &'a str,
    k: usize,
    done: bool,
    ed: Edits,
    lost: Vec<String>,
}
impl<'a> GuardV<'a> {
    fn is_lock(&self, e: &syn::Expr) -> bool {
        if let syn::Expr::MethodCall(m) = e {
            if m.method == "lock" && m.args.is_empty() {
                if let syn::Expr::Path(p) = &*m.receiver {
                    return p.path.segments.last().map(|x| self.ov.guards.contains(&x.ident.to_string())).unwrap_or(false);
                }
            }
        }
        false
    }
    fn find(&self, s: &syn::Stmt) -> Vec<(usize, usize)> {
        struct F<'b, 'a> {
            g: &'b GuardV<'a>,
            v: Vec<(usize, usize)>,
        }
        impl<'b, 'a, 'ast> Visit<'ast> for F<'b, 'a> {
            fn visit_expr(&mut self, e: &'ast syn::Expr) {
                if self.g.is_lock(e) {
                    self.v.push(rng(e));
                }
                visit::visit_expr(self, e);
            }
        }
        let mut f = F { g: self, v: vec![] };
        f.visit_stmt(s);
        f.v
    }
}
/// uses of a guard: by name, or by where the lock call is
struct GuardUseV<'b> {
    name: Option<String>,
    at: Option<(usize, usize)>,
    to: String,
    ed: &'b mut Edits,
    ok: usize,
    exits: usize,
    released: bool,
    src: &'b str,
}
impl<'b> GuardUseV<'b> {
    fn is(&self, e: &syn::Expr) -> bool {
        if let syn::Expr::Paren(p) = e {
            return self.is(&p.expr);
        }
        if let (Some(n), syn::Expr::Path(p)) = (&self.name, e) {
            return p.path.is_ident(n);
        }
        self.at == Some(rng(e))
    }
}
impl<'b, 'ast> Visit<'ast> for GuardUseV<'b> {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && self.is(&u.expr) => {
                let (s, x) = rng(e);
                self.ed.rep(s, x, format!("{}.v", self.to));
                self.ok += 1;
                return;
            }
            syn::Expr::MethodCall(m) if self.is(&m.receiver) => {
                let (s, x) = rng(&*m.receiver);
                self.ed.rep(s, x, format!("{}.v", self.to));
                self.ok += 1;
                for a in &m.args {
                    self.visit_expr(a);
                }
                return;
            }
            syn::Expr::Call(c) if c.args.len() == 1 && self.is(&c.args[0]) => {
                let (s, x) = rng(&*c.func);
                let f = &self.src[s..x];
                if f == "drop" || f.ends_with("::drop") {
                    self.ed.rep(s, x, "vx_unlock");
                    self.released = true;
                    return;
                }
            }
            syn::Expr::Return(_) | syn::Expr::Try(_) | syn::Expr::Break(_) | syn::Expr::Continue(_) => {
                if !self.released {
                    self.exits += 1;
                }
            }
            syn::Expr::Closure(_) if self.name.is_some() => return,
            _ => (),
        }
        visit::visit_expr(self, e);
    }
}
impl<'a, 'ast> Visit<'ast> for GuardV<'a> {
    fn visit_block(&mut self, b: &'ast syn::Block) {
        visit::visit_block(self, b);
        if self.done {
            return;
        }
        for (i, st) in b.stmts.iter().enumerate() {
            let at = self.find(st);
            if at.is_empty() {
                continue;
            }
            self.done = true;
            let (ls, le) = at[0];
            let call = self.src[ls..le].to_string();
            let call = format!("{}vx_lock()", &call[..call.rfind("lock").unwrap()]);
            // let [mut] g = X.lock();
            if let syn::Stmt::Local(l) = st {
                if let (syn::Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    if rng(&*init.expr) == (ls, le) {
                        let name = pi.ident.to_string();
                        if pi.mutability.is_none() {
                            self.ed.ins(rng(pi).0, "mut ");
                        }
                        self.ed.rep(ls, le, call);
                        let mut u = GuardUseV { name: Some(name.clone()), at: None, to: name.clone(), ed: &mut self.ed, ok: 0, exits: 0, released: false, src: self.src };
                        for s in &b.stmts[i + 1..] {
                            u.visit_stmt(s);
                        }
                        let (released, exits) = (u.released, u.exits);
                        if exits > 0 {
                            self.lost.push(format!("guard {} may be released by leaving its scope early", name));
                        }
                        if !released {
                            match b.stmts.last() {
                                Some(syn::Stmt::Expr(x, None)) if i + 1 < b.stmts.len() => {
                                    let (s, e) = rng(x);
                                    self.ed.ins(s, format!("let vx_r{} = ", self.k));
                                    self.ed.ins(e, format!("; vx_unlock({}); vx_r{}", name, self.k));
                                }
                                _ => {
                                    let (_, e) = rng(b);
                                    self.ed.ins(e - 1, format!(" vx_unlock({}); ", name));
                                }
                            }
                        }
                        return;
                    }
                }
            }
            // a guard without a name: to the end of the statement
            let g = format!("vx_g{}", self.k);
            let (ss, se) = rng(st);
            let mut cond = None;
            let mut tail = false;
            if let syn::Stmt::Expr(x, semi) = st {
                if let syn::Expr::If(f) = x {
                    let (cs, ce) = rng(&*f.cond);
                    if cs <= ls && le <= ce && !matches!(&*f.cond, syn::Expr::Let(_)) {
                        cond = Some((cs, ce));
                    }
                }
                tail = semi.is_none();
            }
            let mut u = GuardUseV { name: None, at: Some((ls, le)), to: g.clone(), ed: &mut self.ed, ok: 0, exits: 0, released: false, src: self.src };
            u.visit_stmt(st);
            let (ok, exits) = (u.ok, u.exits);
            if ok != 1 || exits > 0 && cond.is_none() || at.len() > 1 {
                self.lost.push(format!("lock {} used in a way that is not covered", call));
            }
            self.ed.ins(ss, format!("let mut {} = {}; ", g, call));
            match cond {
                Some((cs, ce)) => {
                    // the condition's guard is released before the branches run
                    let c = self.src[cs..ce].to_string();
                    let (c0, _) = {
                        let mut e2 = Edits::default();
                        for (s, e, t) in self.ed.v.iter() {
                            if *s >= cs && *e <= ce {
                                e2.rep(*s - cs, *e - cs, t.clone());
                            }
                        }
                        e2.apply(&c)
                    };
                    self.ed.v.retain(|(s, e, _)| !(*s >= cs && *e <= ce && *s < *e));
                    self.ed.ins(ss, format!("let vx_c{} = {}; vx_unlock({}); ", self.k, c0, g));
                    self.ed.rep(cs, ce, format!("vx_c{}", self.k));
                }
                None if tail => {
                    self.ed.ins(ss, format!("let vx_r{} = ", self.k));
                    self.ed.ins(se, format!("; vx_unlock({}); vx_r{}", g, self.k));
                }
                None => self.ed.ins(se, format!(" vx_unlock({});", g)),
            }
            return;
        }
    }
}

struct MacroV<'a> {
    ov: &'a Overlay,
    local: &'a [(String, String)],
    src: &'a str,
    ed: Edits,
    n: usize,
}
fn split_args(ts: TokenStream) -> Vec<(usize, usize)> {
    // top-level comma separated pieces
    let mut out = vec![];
    let mut cur: Option<(usize, usize)> = None;
    for t in ts {
        if let proc_macro2::TokenTree::Punct(p) = &t {
            if p.as_char() == ',' {
                if let Some(c) = cur.take() {
                    out.push(c);
                }
                continue;
            }
        }
        let r = t.span().byte_range();
        cur = Some(match cur {
            None => (r.start, r.end),
            Some((a, _)) => (a, r.end),
        });
    }
    if let Some(c) = cur {
        out.push(c);
    }
    out
}
impl<'a> MacroV<'a> {
    fn mac(&mut self, m: &syn::Macro, s: usize, e: usize, semi: bool) {
        let name = m.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
        let args = split_args(m.tokens.clone());
        let a = |i: usize| self.src[args[i].0..args[i].1].to_string();
        let mapping = self
            .local
            .iter()
            .chain(self.ov.macros.iter())
            .find(|x| x.0 == name)
            .map(|x| x.1.clone());
        let r = if let Some(mp) = mapping {
            if mp == "keep" {
                return;
            }
            // template: $1 $2 … args, $* all
            let mut t = mp.clone();
            for i in (0..args.len()).rev() {
                t = t.replace(&format!("${}", i), &a(i));
            }
            t
        } else {
            match name.as_str() {
                "assert" | "debug_assert" if !args.is_empty() => format!("vx_assert({})", a(0)),
                "assert_eq" | "debug_assert_eq" if args.len() >= 2 => format!("vx_assert(({}) == ({}))", a(0), a(1)),
                "assert_ne" | "debug_assert_ne" if args.len() >= 2 => format!("vx_assert(({}) != ({}))", a(0), a(1)),
                "panic" | "unreachable" | "todo" | "unimplemented" => "vx_unreachable()".to_string(),
                "matches" if args.len() == 2 => format!("(match {} {{ {} => true, _ => false }})", a(0), a(1)),
                "println" | "eprintln" | "print" | "eprint" if args.len() <= 1 => "vx_print()".to_string(),
                "println" if args.len() == 2 && a(0) == "\"{}\"" => format!("vx_println(&{})", a(1)),
                "format" => "vx_format()".to_string(),
                // crossterm's queue!: the commands one after the other, until one fails
                "queue" if args.len() >= 2 => {
                    let mut t = String::new();
                    for i in (1..args.len()).rev() {
                        let c = format!("vx_queue(&mut {}, {})", a(0), a(i));
                        t = if t.is_empty() { c } else { format!("match {} {{ Ok(_) => {}, Err(e) => Err(e) }}", c, t) };
                    }
                    format!("({})", t)
                }
                // write!(out, "text{}text", x): the pieces one after the other
                "write" if args.len() >= 2 && a(1).starts_with('"') && a(1).matches("{}").count() == args.len() - 2 && a(1).matches('{').count() == args.len() - 2 => {
                    let l = a(1);
                    let ps: Vec<&str> = l[1..l.len() - 1].split("{}").collect();
                    let mut v = vec![];
                    for (i, x) in ps.iter().enumerate() {
                        if !x.is_empty() {
                            v.push(format!("vx_write(&mut {}, \"{}\")", a(0), x));
                        }
                        if i + 1 < ps.len() {
                            v.push(format!("vx_write_disp(&mut {}, {})", a(0), a(i + 2)));
                        }
                    }
                    let mut t = v.pop().unwrap_or("Ok(())".into());
                    while let Some(c) = v.pop() {
                        t = format!("match {} {{ Ok(_) => {}, Err(e) => Err(e) }}", c, t);
                    }
                    format!("({})", t)
                }
                "liso" => "vx_liso()".to_string(),
                _ => return,
            }
        };
        let _ = semi;
        self.ed.rep(s, e, r);
        self.n += 1;
    }
}
impl<'a, 'ast> Visit<'ast> for MacroV<'a> {
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        let (s, e) = rng(&m.mac);
        self.mac(&m.mac, s, e, false);
    }
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
        let (s, e) = rng(&m.mac);
        self.mac(&m.mac, s, e, true);
        if m.semi_token.is_none() {
            // a macro statement in tail position stays an expression
        }
    }
}

struct RefCellV<'a> {
    ov: &'a Overlay,
    src: &'a str,
    ed: Edits,
    n: usize,
}
impl<'a> RefCellV<'a> {
    fn is_borrow(&self, e: &syn::Expr) -> Option<String> {
        if let syn::Expr::MethodCall(m) = e {
            if m.method == "borrow_mut" || m.method == "borrow" {
                let r = norm(&m.receiver);
                if self.ov.refcells.iter().any(|x| norm_str(x) == r) {
                    let (a, b) = rng(&m.receiver);
                    return Some(self.src[a..b].to_string());
                }
            }
        }
        None
    }
}
impl<'a, 'ast> Visit<'ast> for RefCellV<'a> {
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let (syn::Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
            if let Some(r) = self.is_borrow(&init.expr) {
                let (s, e) = rng(l);
                self.ed.rep(s, e, format!("let {} = &mut {};", pi.ident, r));
                self.n += 1;
                return;
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if let Some(r) = self.is_borrow(&m.receiver) {
            let (s, e) = rng(&m.receiver);
            self.ed.rep(s, e, r);
            self.n += 1;
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        if let Some(r) = self.is_borrow(e) {
            let (s, t) = rng(e);
            self.ed.rep(s, t, format!("(&mut {})", r));
            self.n += 1;
            return;
        }
        visit::visit_expr(self, e);
    }
}

/// `&mut term` for a `term` bound by the RefCell pass -> `&mut *term`
struct ReborrowV {
    names: BTreeSet<String>,
    ed: Edits,
}
impl<'ast> Visit<'ast> for ReborrowV {
    fn visit_expr_reference(&mut self, r: &'ast syn::ExprReference) {
        if r.mutability.is_some() {
            if let syn::Expr::Path(p) = &*r.expr {
                if let Some(i) = p.path.get_ident() {
                    if self.names.contains(&i.to_string()) {
                        let (s, e) = rng(&*r.expr);
                        self.ed.rep(s, e, format!("*{}", i));
                    }
                }
            }
        }
        visit::visit_expr_reference(self, r);
    }
}

fn fn_text_uses_self(body: &syn::Block) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_path(&mut self, p: &'ast syn::Path) {
            if p.is_ident("self") {
                self.0 = true;
            }
            visit::visit_path(self, p);
        }
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            fn has(ts: TokenStream) -> bool {
                ts.into_iter().any(|t| match t {
                    proc_macro2::TokenTree::Ident(i) => i == "self",
                    proc_macro2::TokenTree::Group(g) => has(g.stream()),
                    _ => false,
                })
            }
            if has(m.tokens.clone()) {
                self.0 = true;
            }
        }
    }
    let mut v = V(false);
    v.visit_block(body);
    v.0
}

/// Inline uncontracted helpers defined in the same impl / file (R8).
struct InlineV<'a> {
    sf: &'a SourceFile,
    f: &'a FnItem,
    ov: &'a Overlay,
    contracted: &'a BTreeSet<String>,
    ed: Edits,
    n: usize,
    names: Vec<String>,
    stack_try: Vec<bool>,
    failed: Vec<String>,
    src: &'a str,
    depth: usize,
    locals: BTreeSet<String>,
}
impl<'a> InlineV<'a> {
    fn try_inline(
        &mut self,
        name: &str,
        ty: Option<&str>,
        recv: Option<&syn::Expr>,
        args: Vec<&syn::Expr>,
        s: usize,
        e: usize,
        in_try: bool,
    ) {
        let qual = match ty {
            Some(t) => format!("{}::{}", t, name),
            None => name.to_string(),
        };
        if self.contracted.contains(&qual) || self.ov.provides.contains(name) || name == self.f.name {
            return;
        }
        let Some(text) = self.sf.find_any(ty, name, &self.ov.features) else { return };
        let Ok(g) = parse_fn(&text) else { return };
        // strip cfg in the helper first
        let text = match pass_cfg(text.clone(), &self.ov.features) {
            Ok(x) => x.0,
            Err(_) => text,
        };
        let g = parse_fn(&text).unwrap_or(g);
        struct Chk {
            ret: bool,
            q: bool,
            depth: usize,
        }
        impl<'ast> Visit<'ast> for Chk {
            fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
                if self.depth == 0 {
                    self.ret = true;
                }
                visit::visit_expr_return(self, r);
            }
            fn visit_expr_try(&mut self, r: &'ast syn::ExprTry) {
                if self.depth == 0 {
                    self.q = true;
                }
                visit::visit_expr_try(self, r);
            }
            fn visit_expr_closure(&mut self, r: &'ast syn::ExprClosure) {
                self.depth += 1;
                visit::visit_expr_closure(self, r);
                self.depth -= 1;
            }
        }
        let mut c = Chk { ret: false, q: false, depth: 0 };
        c.visit_block(&g.block);
        if c.ret || (c.q && !in_try) {
            self.failed.push(format!("helper {} cannot be inlined", qual));
            return;
        }
        let mut has_self = false;
        let mut pats = vec![];
        let mut tys = vec![];
        let plain_ty = |t: &syn::Type| -> bool {
            struct G(bool);
            impl<'ast> Visit<'ast> for G {
                fn visit_type_impl_trait(&mut self, _: &'ast syn::TypeImplTrait) {
                    self.0 = true;
                }
            }
            let mut x = G(false);
            x.visit_type(t);
            !x.0
        };
        for a in &g.sig.inputs {
            match a {
                syn::FnArg::Receiver(_) => has_self = true,
                syn::FnArg::Typed(t) => {
                    let (x, y) = rng(&*t.pat);
                    pats.push(text[x..y].to_string());
                    let (x, y) = rng(&*t.ty);
                    if g.sig.generics.params.is_empty() && plain_ty(&t.ty) {
                        tys.push(Some(text[x..y].to_string()));
                    } else {
                        tys.push(None);
                    }
                }
            }
        }
        let mut args = args;
        if has_self {
            match recv {
                Some(r) => {
                    if norm(r) != "self" {
                        self.failed.push(format!("helper {} called on something else than self", qual));
                        return;
                    }
                }
                None => {
                    // Self::helper(self, ..)
                    if args.is_empty() || norm(args[0]) != "self" {
                        self.failed.push(format!("helper {} receiver", qual));
                        return;
                    }
                    args.remove(0);
                }
            }
        }
        if args.len() != pats.len() {
            self.failed.push(format!("helper {} arity", qual));
            return;
        }
        let mut lets = String::new();
        if pats.len() == 1 {
            let (x, y) = rng(args[0]);
            let at = &self.src[x..y];
            let same = at == pats[0];
            if !(same && tys[0].is_none()) {
                match &tys[0] {
                    Some(t) => lets.push_str(&format!("let {}: {} = {}; ", pats[0], t, at)),
                    None => lets.push_str(&format!("let {} = {}; ", pats[0], at)),
                }
            }
        } else if pats.len() > 1 {
            // evaluate all the arguments before binding any parameter
            for (i, a) in args.iter().enumerate() {
                let (x, y) = rng(*a);
                match &tys[i] {
                    Some(t) => lets.push_str(&format!("let vx_a{}_{}: {} = {}; ", self.depth, i, t, &self.src[x..y])),
                    None => lets.push_str(&format!("let vx_a{}_{} = {}; ", self.depth, i, &self.src[x..y])),
                }
            }
            for (i, p) in pats.iter().enumerate() {
                lets.push_str(&format!("let {} = vx_a{}_{}; ", p, self.depth, i));
            }
        }
        let (x, y) = rng(&g.block);
        let body = &text[x..y];
        // the type of the result, where it cannot be told from the text
        let rt = match &g.sig.output {
            syn::ReturnType::Type(_, t) if g.sig.generics.params.is_empty() && plain_ty(t) => {
                let (a, b) = rng(&**t);
                let k = &text[a..b];
                if k.contains('\'') || k.contains('&') || !(k.starts_with("LifeOrDeath") || k.contains("Result") || k.starts_with("Option")) {
                    None
                } else {
                    Some(k.to_string())
                }
            }
            _ => None,
        };
        match rt {
            Some(k) => self.ed.rep(s, e, format!("({{ {} let vx_r{}: {} = {}; vx_r{} }})", lets, self.depth, k, body, self.depth)),
            None => self.ed.rep(s, e, format!("({{ {} {} }})", lets, body)),
        }
        self.n += 1;
        self.names.push(qual);
    }
}
impl<'a, 'ast> Visit<'ast> for InlineV<'a> {
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
        self.stack_try.push(true);
        visit::visit_expr_try(self, t);
        self.stack_try.pop();
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        let in_try = *self.stack_try.last().unwrap_or(&false);
        match e {
            syn::Expr::MethodCall(m) if norm(&m.receiver) == "self" => {
                let (s, t) = rng(e);
                let ty = self.f.ty.clone();
                if ty.is_some() {
                    self.try_inline(
                        &m.method.to_string(),
                        ty.as_deref(),
                        Some(&m.receiver),
                        m.args.iter().collect(),
                        s,
                        t,
                        in_try,
                    );
                }
            }
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
                    let (s, t) = rng(e);
                    if segs.len() == 1 && !self.locals.contains(&segs[0]) {
                        self.try_inline(&segs[0], None, None, c.args.iter().collect(), s, t, in_try);
                    } else if segs.len() == 2 && (segs[0] == "Self" || Some(&segs[0]) == self.f.ty.as_ref()) {
                        let ty = self.f.ty.clone();
                        if ty.is_some() {
                            self.try_inline(&segs[1], ty.as_deref(), None, c.args.iter().collect(), s, t, in_try);
                        }
                    }
                }
            }
            _ => (),
        }
        let is_try = matches!(e, syn::Expr::Try(_));
        if !is_try {
            self.stack_try.push(false);
        }
        visit::visit_expr(self, e);
        if !is_try {
            self.stack_try.pop();
        }
    }
}

struct SelfDropV<'a> {
    noself: &'a BTreeSet<String>,
    src: &'a str,
    ed: Edits,
    n: usize,
}
impl<'a, 'ast> Visit<'ast> for SelfDropV<'a> {
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if norm(&m.receiver) == "self" && self.noself.contains(&m.method.to_string()) {
            let (s, _) = rng(&*m.receiver);
            let (_, e) = rng(&m.method);
            self.ed.rep(s, e, format!("Self::{}", m.method));
            self.n += 1;
        }
        visit::visit_expr_method_call(self, m);
        let _ = self.src;
    }
}

struct SubV<'a> {
    src: &'a str,
    ed: Edits,
    n: usize,
}
impl<'a> SubV<'a> {
    fn conv(&self, i: &syn::ExprIndex) -> Option<String> {
        if let syn::Expr::Range(r) = &*i.index {
            let (a, b) = rng(&*i.expr);
            let base = &self.src[a..b];
            let t = |e: &Option<Box<syn::Expr>>| {
                e.as_ref().map(|x| {
                    let (a, b) = rng(&**x);
                    self.src[a..b].to_string()
                })
            };
            let (s, e) = (t(&r.start), t(&r.end));
            let closed = matches!(r.limits, syn::RangeLimits::Closed(_));
            return Some(match (s, e) {
                (Some(s), None) => format!("{}.vx_from({})", base, s),
                (None, Some(e)) if !closed => format!("{}.vx_to({})", base, e),
                (None, Some(e)) => format!("{}.vx_to(({})+1)", base, e),
                (Some(s), Some(e)) if !closed => format!("{}.vx_range({}, {})", base, s, e),
                (Some(s), Some(e)) => format!("{}.vx_range({}, ({})+1)", base, s, e),
                (None, None) => format!("{}.vx_from(0)", base),
            });
        }
        None
    }
}
impl<'a, 'ast> Visit<'ast> for SubV<'a> {
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        // R14: text += &other  (the only += that takes a reference here)
        if matches!(b.op, syn::BinOp::AddAssign(_)) {
            if let syn::Expr::Reference(r) = &*b.right {
                let whole = rng(b);
                let l = rng(&*b.left);
                let rr = rng(r);
                let rt = match &*r.expr {
                    syn::Expr::Index(i) => self.conv(i),
                    _ => None,
                }
                .unwrap_or_else(|| self.src[rr.0..rr.1].to_string());
                self.ed.rep(whole.0, whole.1, format!("vx_push_str(&mut {}, {})", &self.src[l.0..l.1], rt));
                self.n += 1;
                return;
            }
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_reference(&mut self, r: &'ast syn::ExprReference) {
        if r.mutability.is_none() {
            if let syn::Expr::Index(i) = &*r.expr {
                if let Some(t) = self.conv(i) {
                    let (s, e) = rng(r);
                    self.ed.rep(s, e, t);
                    self.n += 1;
                    return;
                }
            }
        } else if let syn::Expr::Index(i) = &*r.expr {
            if self.conv(i).is_some() {
                // &mut x[a..b]
                let t = self.conv(i).unwrap();
                let t = t.replacen(".vx_from(", ".vx_from_mut(", 1);
                let t = t.replacen(".vx_to(", ".vx_to_mut(", 1);
                let t = t.replacen(".vx_range(", ".vx_range_mut(", 1);
                let (s, e) = rng(r);
                self.ed.rep(s, e, t);
                self.n += 1;
                return;
            }
        }
        visit::visit_expr_reference(self, r);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if let syn::Expr::Index(i) = &*m.receiver {
            if let Some(t) = self.conv(i) {
                let (s, e) = rng(&*m.receiver);
                self.ed.rep(s, e, t);
                self.n += 1;
                return;
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_index(&mut self, i: &'ast syn::ExprIndex) {
        if let Some(t) = self.conv(i) {
            let (s, e) = rng(i);
            self.ed.rep(s, e, format!("(*{})", t));
            self.n += 1;
            return;
        }
        visit::visit_expr_index(self, i);
    }
}

struct RenameV<'a> {
    ov: &'a Overlay,
    ed: Edits,
    n: usize,
}
impl<'a, 'ast> Visit<'ast> for RenameV<'a> {
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let name = m.method.to_string();
        // R13: (a..=b).contains(&x)
        if name == "contains" && m.args.len() == 1 {
            let mut rcv = &*m.receiver;
            while let syn::Expr::Paren(p) = rcv {
                rcv = &p.expr;
            }
            if let (syn::Expr::Range(r), syn::Expr::Reference(x)) = (rcv, &m.args[0]) {
                if matches!(&*x.expr, syn::Expr::Path(_) | syn::Expr::Field(_) | syn::Expr::Lit(_))
                    || matches!(&*x.expr, syn::Expr::Index(i) if matches!(&*i.expr, syn::Expr::Path(_) | syn::Expr::Field(_)) && matches!(&*i.index, syn::Expr::Path(_) | syn::Expr::Lit(_)))
                {
                    let x = norm(&x.expr);
                    let mut c = vec![];
                    if let Some(a) = &r.start {
                        c.push(format!("{} <= {}", norm(a), x));
                    }
                    if let Some(b) = &r.end {
                        let op = if matches!(r.limits, syn::RangeLimits::Closed(_)) { "<=" } else { "<" };
                        c.push(format!("{} {} {}", x, op, norm(b)));
                    }
                    let (s, e) = rng(m);
                    self.ed.rep(s, e, format!("({})", c.join(" && ")));
                    self.n += 1;
                    return;
                }
            }
        }
        // R17: out.write_all(b"ASCII")
        if name == "write_all" && m.args.len() == 1 && !self.ov.methods.iter().any(|x| x.0 == name) {
            if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) = &m.args[0] {
                let v = b.value();
                if v.iter().all(|x| *x < 0x80) {
                    let t: String = v.iter().map(|x| if (0x20..0x7f).contains(x) && *x != b'"' && *x != b'\\' { (*x as char).to_string() } else { format!("\\x{:02X}", x) }).collect();
                    let (s, e) = rng(m);
                    let r = norm(&m.receiver);
                    let x = self.ov.paths.iter().find(|x| x.0 == "vx_write").and_then(|x| extra(&x.1)).map(|x| format!("{}, ", x.1)).unwrap_or_default();
                    self.ed.rep(s, e, format!("vx_write({}&mut {}, \"{}\")", x, r, t));
                    self.n += 1;
                    return;
                }
            }
        }
        // (`NAME ~TEXT`: only if TEXT occurs in the arguments)
        let args: String = m.args.iter().map(|a| norm(a)).collect();
        let hit = |k: &str| match k.split_once(" ~") {
            Some((k, t)) => k == name && args.contains(&norm_str(t)),
            None => k == name,
        };
        if let Some((_, b)) = self.ov.methods.iter().find(|x| hit(&x.0)) {
            if b.ends_with(')') && !b.contains("(+") {
                // (the arguments are dropped, or others given)
                let (s, _) = rng(&m.method);
                let (_, e) = rng(m);
                self.ed.rep(s, e, b.clone());
                self.n += 1;
                self.visit_expr(&m.receiver);
                return;
            }
            if let Some(i) = b.rfind('.') {
                // (the receiver is replaced, too)
                if norm(&m.receiver) != norm_str(&b[..i]) {
                    let (s, _) = rng(&m.receiver);
                    let (_, e) = rng(&m.method);
                    self.ed.rep(s, e, b.clone());
                    self.n += 1;
                    for a in &m.args {
                        self.visit_expr(a);
                    }
                    return;
                }
                visit::visit_expr_method_call(self, m);
                return;
            }
            let (s, e) = rng(&m.method);
            let b = b.clone();
            if let Some((b, x)) = extra(&b) {
                // (an additional first argument)
                self.ed.rep(s, e, b);
                let o = m.paren_token.span.open().byte_range();
                self.ed.rep(o.start, o.end, if m.args.is_empty() { format!("({}", x) } else { format!("({}, ", x) });
            } else {
                self.ed.rep(s, e, b);
            }
            self.n += 1;
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        let n = norm(&c.func);
        if let Some((b, x)) = self.ov.paths.iter().find(|x| norm_str(&x.0) == n).and_then(|x| extra(&x.1)) {
            // (a call with an additional first argument)
            let (s, e) = rng(&c.func);
            self.ed.rep(s, e, b);
            let o = c.paren_token.span.open().byte_range();
            self.ed.rep(o.start, o.end, if c.args.is_empty() { format!("({}", x) } else { format!("({}, ", x) });
            self.n += 1;
            for a in &c.args {
                self.visit_expr(a);
            }
            return;
        }
        // (a call of which the overlay drops or names the arguments)
        if let syn::Expr::Path(p) = &*c.func {
            let n = norm(p);
            if let Some((_, b)) = self.ov.paths.iter().find(|x| norm_str(&x.0) == n) {
                if b.ends_with(')') && !b.contains("(+") {
                    let (s, e) = rng(c);
                    self.ed.rep(s, e, b.clone());
                    self.n += 1;
                    return;
                }
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_lit(&mut self, l: &'ast syn::ExprLit) {
        // (ASCII byte strings as the bytes of a text)
        if let syn::Lit::ByteStr(b) = &l.lit {
            if let Some((_, f)) = self.ov.paths.iter().find(|x| x.0 == "b\"\"") {
                let v = b.value();
                if v.iter().all(|x| *x < 0x80) {
                    let t: String = v.iter().map(|x| if (0x20..0x7f).contains(x) && *x != b'"' && *x != b'\\' { (*x as char).to_string() } else { format!("\\x{:02X}", x) }).collect();
                    let (s, e) = rng(l);
                    self.ed.rep(s, e, format!("{}(\"{}\")", f, t));
                    self.n += 1;
                    return;
                }
            }
        }
        visit::visit_expr_lit(self, l);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        let n = norm(p);
        if let Some((_, b)) = self.ov.paths.iter().find(|x| norm_str(&x.0) == n) {
            let (s, e) = rng(p);
            self.ed.rep(s, e, b.clone());
            self.n += 1;
            return;
        }
        visit::visit_path(self, p);
    }
    fn visit_type(&mut self, t: &'ast syn::Type) {
        let n = norm(t);
        for (a, b) in &self.ov.types {
            if norm_str(a) == n {
                let (s, e) = rng(t);
                self.ed.rep(s, e, b.clone());
                self.n += 1;
                return;
            }
        }
        visit::visit_type(self, t);
    }
}

/// `name(+extra)`: the name and the additional argument
fn extra(b: &str) -> Option<(String, String)> {
    let i = b.find("(+")?;
    Some((b[..i].to_string(), b[i + 2..].strip_suffix(')')?.to_string()))
}

struct LoopV {
    n: usize,
    kinds: Vec<String>,
    found: Vec<(usize, LoopInfo)>,
}
#[derive(Clone)]
#[allow(dead_code)]
struct LoopInfo {
    kind: &'static str,
    whole: (usize, usize),
    body: (usize, usize),
}
impl<'ast> Visit<'ast> for LoopV {
    fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
        self.add("while", rng(w), rng(&w.body));
        visit::visit_expr_while(self, w);
    }
    fn visit_expr_loop(&mut self, w: &'ast syn::ExprLoop) {
        self.add("loop", rng(w), rng(&w.body));
        visit::visit_expr_loop(self, w);
    }
    fn visit_expr_for_loop(&mut self, w: &'ast syn::ExprForLoop) {
        self.add("for", rng(w), rng(&w.body));
        visit::visit_expr_for_loop(self, w);
    }
}
impl LoopV {
    fn new() -> Self {
        LoopV { n: 0, kinds: vec![], found: vec![] }
    }
    fn add(&mut self, k: &'static str, whole: (usize, usize), body: (usize, usize)) {
        self.kinds.push(k.to_string());
        self.found.push((self.n, LoopInfo { kind: k, whole, body }));
        self.n += 1;
    }
}

struct ForV<'a> {
    src: &'a str,
    ed: Edits,
    n: usize,
    ord: usize,
}
impl<'a, 'ast> Visit<'ast> for ForV<'a> {
    fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
        self.ord += 1;
        visit::visit_expr_while(self, w);
    }
    fn visit_expr_loop(&mut self, w: &'ast syn::ExprLoop) {
        self.ord += 1;
        visit::visit_expr_loop(self, w);
    }
    fn visit_expr_for_loop(&mut self, w: &'ast syn::ExprForLoop) {
        let k = self.ord;
        self.ord += 1;
        let (s, _) = rng(w);
        let (pa, pb) = rng(&*w.pat);
        let (ea, eb) = rng(&*w.expr);
        let (ba, bb) = rng(&w.body);
        let label = match &w.label {
            Some(l) => format!("{} ", norm(l)),
            None => String::new(),
        };
        // R24: `&x` within the pattern is `x`, taken from behind the reference in the body
        struct RefV(Vec<(usize, usize, String)>);
        impl<'ast> Visit<'ast> for RefV {
            fn visit_pat_reference(&mut self, r: &'ast syn::PatReference) {
                if let syn::Pat::Ident(i) = &*r.pat {
                    if i.by_ref.is_none() && i.subpat.is_none() && i.mutability.is_none() {
                        let (a, b) = rng(r);
                        self.0.push((a, b, i.ident.to_string()));
                    }
                }
            }
        }
        let mut rv = RefV(vec![]);
        rv.visit_pat(&w.pat);
        let mut pat = self.src[pa..pb].to_string();
        let mut lets = String::new();
        for (a, b, n) in rv.0.iter().rev() {
            pat.replace_range(a - pa..b - pa, n);
            lets.push_str(&format!(" let {} = *{};", n, n));
        }
        self.ed.ins(ba + 1, &lets);
        self.ed.rep(
            s,
            ba,
            format!(
                "{{ let mut vx_it{} = vx_iter({}); {}loop {{ match vx_it{}.next() {{ Some({}) => ",
                k,
                &self.src[ea..eb],
                label,
                k,
                pat
            ),
        );
        self.ed.ins(bb, ", None => break } } }");
        self.n += 1;
        visit::visit_block(self, &w.body);
    }
}

struct LocalsV {
    v: Vec<String>,
}
impl<'ast> Visit<'ast> for LocalsV {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        let s = p.ident.to_string();
        // constants / unit variants in patterns are not bindings
        if s.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
            self.v.push(s);
        }
        visit::visit_pat_ident(self, p);
    }
}

struct CallsV {
    v: Vec<String>,
}
impl<'ast> Visit<'ast> for CallsV {
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        self.v.push(m.method.to_string());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, m: &'ast syn::ExprCall) {
        self.v.push(norm(&m.func));
        visit::visit_expr_call(self, m);
    }
}

pub fn pass_cfg(src: String, feats: &BTreeSet<String>) -> Result<(String, usize), String> {
    fix(src, |s, f| {
        let mut v = CfgV { feats, src: s, ed: Edits::default(), n: 0 };
        v.visit_signature(&f.sig);
        v.visit_block(&f.block);
        (v.ed, v.n)
    })
}

fn word_replace(text: &str, map: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let mut word = String::new();
    let flush = |out: &mut String, word: &mut String| {
        if let Some(r) = map.get(word) {
            // field accesses keep their name
            if out.ends_with('.') {
                out.push_str(word);
            } else {
                out.push_str(r);
            }
        } else {
            out.push_str(word);
        }
        word.clear();
    };
    for c in text.chars() {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
        } else {
            flush(&mut out, &mut word);
            out.push(c);
        }
    }
    flush(&mut out, &mut word);
    out
}

struct AnchorV<'a> {
    ed: Edits,
    src: &'a str,
    hints: Vec<(String, String, bool)>,
    counts: BTreeMap<String, usize>,
    // stack of (start,end,kind) of enclosing statements; kind: 's' stmt, 't' tail expr, 'a' arm expr
    stack: Vec<(usize, usize, char)>,
    closure_no: usize,
    closures: &'a [(usize, String, String)],
    closures_done: BTreeSet<usize>,
    arms: usize,
}
impl<'a> AnchorV<'a> {
    fn call(&mut self, name: &str) {
        let k = {
            let c = self.counts.entry(name.to_string()).or_insert(0);
            let k = *c;
            *c += 1;
            k
        };
        for wh in ["before", "after"] {
            let key = format!("call {} {} {}", name, k, wh);
            let mut idx = None;
            let any = format!("call {} * {}", name, wh);
            for (n, h) in self.hints.iter().enumerate() {
                if h.0 == key || h.0 == any {
                    idx = Some(n);
                }
            }
            if let Some(n) = idx {
                if let Some(&(s, e, kind)) = self.stack.last() {
                    let t = self.hints[n].1.clone();
                    self.hints[n].2 = true;
                    match (kind, wh) {
                        ('s', "before") | ('t', "before") => self.ed.ins(s, format!("{}\n", t)),
                        ('s', _) => self.ed.ins(e, format!("\n{}\n", t)),
                        ('t', _) => {
                            self.ed.ins(s, "let vx_tail = ");
                            self.ed.ins(e, format!(";\n{}\nvx_tail", t));
                        }
                        ('a', "before") => {
                            self.ed.ins(s, format!("{{\n{}\n", t));
                            self.ed.ins(e, " }");
                        }
                        (_, _) => {
                            self.ed.ins(s, "{ let vx_arm = ");
                            self.ed.ins(e, format!(";\n{}\nvx_arm }}", t));
                        }
                    }
                }
            }
        }
    }
}
impl<'a, 'ast> Visit<'ast> for AnchorV<'a> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let (a, b) = rng(s);
        let kind = match s {
            syn::Stmt::Expr(e, None) => match e {
                syn::Expr::If(_) | syn::Expr::While(_) | syn::Expr::Loop(_) | syn::Expr::Match(_)
                | syn::Expr::ForLoop(_) | syn::Expr::Block(_) => 's',
                _ => 't',
            },
            _ => 's',
        };
        self.stack.push((a, b, kind));
        // let NAME anchors
        if let syn::Stmt::Local(l) = s {
            let mut lv = LocalsV { v: vec![] };
            lv.visit_pat(&l.pat);
            for n in lv.v {
                let k = {
                    let c = self.counts.entry(format!("let {}", n)).or_insert(0);
                    let k = *c;
                    *c += 1;
                    k
                };
                for wh in ["before", "after"] {
                    let key = format!("let {} {} {}", n, k, wh);
                    for h in self.hints.iter_mut() {
                        if h.0 == key {
                            h.2 = true;
                            if wh == "before" {
                                self.ed.ins(a, format!("{}\n", h.1));
                            } else {
                                self.ed.ins(b, format!("\n{}\n", h.1));
                            }
                        }
                    }
                }
            }
        }
        visit::visit_stmt(self, s);
        self.stack.pop();
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        self.visit_pat(&a.pat);
        if let Some((_, g)) = &a.guard {
            self.visit_expr(g);
        }
        let pat = match &a.guard {
            Some((_, g)) => format!("{}if{}", norm(&a.pat), norm(&**g)),
            None => norm(&a.pat),
        };
        let pat0 = norm(&a.pat);
        let (s, e) = rng(&*a.body);
        let k = {
            let c = self.counts.entry(format!("arm {}", pat)).or_insert(0);
            let k = *c;
            *c += 1;
            k
        };
        let mut pre = String::new();
        for h in self.hints.iter_mut() {
            if let Some(p) = h.0.strip_prefix("arm ") {
                let (p, want) = match p.rfind(" #") {
                    Some(i) => (&p[..i], p[i + 2..].trim().parse::<usize>().unwrap_or(0)),
                    None => (p, 0),
                };
                let np: String = p.split_whitespace().collect();
                if (np == pat || np == pat0) && want == k && !h.2 {
                    h.2 = true;
                    pre.push_str(&h.1);
                    pre.push('\n');
                }
            }
        }
        self.arms += 1;
        if !pre.is_empty() {
            self.ed.ins(s, format!("{{\n{}\n", pre));
        }
        if matches!(&*a.body, syn::Expr::Block(_)) {
            self.visit_expr(&a.body);
        } else {
            self.stack.push((s, e, 'a'));
            self.visit_expr(&a.body);
            self.stack.pop();
        }
        if !pre.is_empty() {
            self.ed.ins(e, " }");
        }
    }
    fn visit_expr_break(&mut self, m: &'ast syn::ExprBreak) {
        self.call("break");
        visit::visit_expr_break(self, m);
    }
    fn visit_expr_continue(&mut self, m: &'ast syn::ExprContinue) {
        self.call("continue");
        visit::visit_expr_continue(self, m);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        self.call(&m.method.to_string());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, m: &'ast syn::ExprCall) {
        self.call(&norm(&m.func));
        visit::visit_expr_call(self, m);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let k = self.closure_no;
        self.closure_no += 1;
        if let Some((_, hdr, spec)) = self.closures.iter().find(|x| x.0 == k) {
            self.closures_done.insert(k);
            let (s, _) = rng(c);
            let (bs, be) = rng(&*c.body);
            // parameters: keep the source's names, take the types of the overlay
            let names: Vec<String> = c
                .inputs
                .iter()
                .map(|p| match p {
                    syn::Pat::Type(t) => {
                        let (x, y) = rng(&*t.pat);
                        self.src[x..y].to_string()
                    }
                    p => {
                        let (x, y) = rng(p);
                        self.src[x..y].to_string()
                    }
                })
                .collect();
            let mut parts = hdr.split("->");
            let ptypes = parts
                .next()
                .unwrap_or("")
                .trim();
            let ptypes: Vec<String> = ptypes
                .strip_prefix('(')
                .and_then(|x| x.strip_suffix(')'))
                .unwrap_or(ptypes)
                .split(';')
                .map(|x| x.trim().to_string())
                .filter(|x| !x.is_empty())
                .collect();
            let ret = parts.next().unwrap_or("").trim().to_string();
            let mut ps = vec![];
            let mut spec = spec.clone();
            // R23: a pattern is taken apart within the body
            let mut lets = String::new();
            for (i, n) in names.iter().enumerate() {
                let simple = n.chars().all(|c| c.is_alphanumeric() || c == '_');
                let whole = format!("vx_p{}", i);
                let n = if simple {
                    n
                } else {
                    lets.push_str(&format!("let {} = {}; ", n, whole));
                    &whole
                };
                let t = ptypes.get(i).cloned().unwrap_or_default();
                if t.is_empty() {
                    ps.push(n.clone());
                } else {
                    ps.push(format!("{}: {}", n, t));
                }
                spec = spec.replace(&format!("${}", i), n);
            }
            let mv = if c.capture.is_some() { "move " } else { "" };
            let is_block = matches!(&*c.body, syn::Expr::Block(_));
            self.ed.rep(
                s,
                bs,
                format!(
                    "{}|{}|{}\n{}{}{}",
                    mv,
                    ps.join(", "),
                    if ret.is_empty() { String::new() } else { format!(" -> {}", ret) },
                    spec,
                    if is_block && lets.is_empty() { "" } else { "{ " },
                    lets
                ),
            );
            if !is_block || !lets.is_empty() {
                self.ed.ins(be, " }");
            }
        }
        self.visit_expr(&c.body);
    }
}

pub fn extract_fn(
    sf: &SourceFile,
    f: &FnItem,
    ov: &Overlay,
    contracted: &BTreeSet<String>,
    base: Option<&(Vec<String>, Vec<String>)>,
    trusted: bool,
    rep: &mut FnReport,
) -> Result<String, String> {
    let (src, line) = sf
        .find_fn(f.ty.as_deref(), f.tr.as_deref(), &f.name, &ov.features)
        .ok_or_else(|| format!("{} not found in {}", f.qual(), sf.path))?;
    rep.src_line = line;
    rep.src_lines = src.lines().count();
    let bump = |rep: &mut FnReport, k: &str, n: usize| {
        if n > 0 {
            *rep.rules.entry(k.to_string()).or_insert(0) += n;
        }
    };
    let (mut src, n) = pass_cfg(src, &ov.features)?;
    bump(rep, "R1-cfg/attrs", n);
    // R11: a part of a function (a closure body) as a function of its own
    if let Some(part) = &f.part {
        let p = parse_fn(&src)?;
        let mut w = part.split_whitespace();
        let kind = w.next().unwrap_or("");
        let sel = w.next().unwrap_or("0").to_string();
        // (closure ~TEXT: the innermost closure in which TEXT occurs)
        let text = sel.strip_prefix('~').map(|x| x.to_string());
        let k: usize = sel.parse().unwrap_or(0);
        let body = match kind {
            "closure" => {
                struct C {
                    k: usize,
                    n: usize,
                    r: Option<(usize, usize, bool)>,
                    text: Option<String>,
                    src: String,
                }
                impl<'ast> Visit<'ast> for C {
                    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
                        let hit = match &self.text {
                            Some(t) => {
                                let (a, b) = rng(&*c.body);
                                self.src[a..b].contains(t.as_str())
                            }
                            None => self.n == self.k,
                        };
                        if hit {
                            let (a, b) = rng(&*c.body);
                            self.r = Some((a, b, matches!(&*c.body, syn::Expr::Block(_))));
                        }
                        self.n += 1;
                        visit::visit_expr_closure(self, c);
                    }
                }
                let mut c = C { k, n: 0, r: None, text: text.clone(), src: src.clone() };
                c.visit_block(&p.block);
                let (a, b, isb) = c.r.ok_or_else(|| format!("closure {} of {} not found", sel, f.name))?;
                if isb {
                    src[a..b].to_string()
                } else {
                    format!("{{ {} }}", &src[a..b])
                }
            }
            "loop" => {
                let mut lv = LoopV::new();
                lv.visit_block(&p.block);
                let i = lv.found.iter().find(|x| x.0 == k).ok_or_else(|| format!("loop {} not found", k))?.1.clone();
                format!("{{ {} }}", &src[i.whole.0..i.whole.1])
            }
            "from" => {
                // (the statements from the first one on in which TEXT occurs)
                let t = text.clone().unwrap_or_default();
                let i = p.block.stmts.iter().position(|x| { let (a, b) = rng(x); src[a..b].contains(t.as_str()) }).ok_or_else(|| format!("{} not found in {}", t, f.name))?;
                let (a, _) = rng(&p.block.stmts[i]);
                let (_, b) = rng(p.block.stmts.last().unwrap());
                format!("{{ {} }}", &src[a..b])
            }
            x => return Err(format!("unknown part {}", x)),
        };
        src = format!("fn {}() {}", f.emit_name.as_ref().unwrap_or(&f.name), body);
        bump(rep, "R11-part", 1);
    }
    // R15 async: what a future does when it is awaited, as a call; a block given to block_on, as a block
    {
        struct AsyncV {
            ed: Edits,
            n: usize,
            err: bool,
        }
        struct RetV(bool);
        impl<'ast> Visit<'ast> for RetV {
            fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
                self.0 = true;
            }
            fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
                self.0 = true;
            }
            fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
        }
        impl<'ast> Visit<'ast> for AsyncV {
            fn visit_expr_await(&mut self, a: &'ast syn::ExprAwait) {
                let (s, e) = rng(&a.await_token);
                self.ed.rep(s, e, "vx_await()");
                self.n += 1;
                visit::visit_expr_await(self, a);
            }
            fn visit_expr_async(&mut self, a: &'ast syn::ExprAsync) {
                let (s, _) = rng(a);
                let (b, _) = rng(&a.block);
                self.ed.rep(s, b, "");
                self.n += 1;
                let mut r = RetV(false);
                r.visit_block(&a.block);
                self.err |= r.0;
                visit::visit_expr_async(self, a);
            }
        }
        let p = parse_fn(&src)?;
        let mut v = AsyncV { ed: Edits::default(), n: 0, err: false };
        v.visit_block(&p.block);
        if v.err {
            return Err("return or ? in an async block".into());
        }
        if let Some(a) = &p.sig.asyncness {
            let (s, e) = rng(a);
            v.ed.rep(s, e, "");
            v.n += 1;
        }
        bump(rep, "R15-async", v.n);
        src = v.ed.apply(&src).0;
    }
    // R16 reference patterns in match arms
    {
        struct RefPatV {
            ed: Edits,
            n: usize,
        }
        impl<'ast> Visit<'ast> for RefPatV {
            fn visit_arm(&mut self, a: &'ast syn::Arm) {
                let alts: Vec<&syn::Pat> = match &a.pat {
                    syn::Pat::Or(o) => o.cases.iter().collect(),
                    p => vec![p],
                };
                if alts.iter().all(|p| matches!(p, syn::Pat::Reference(_))) {
                    let mut lv = LocalsV { v: vec![] };
                    lv.visit_pat(alts[0]);
                    if lv.v.is_empty() || a.guard.is_none() {
                        for p in &alts {
                            if let syn::Pat::Reference(r) = p {
                                let (s, _) = rng(*p);
                                let (b, _) = rng(&*r.pat);
                                self.ed.rep(s, b, "");
                            }
                        }
                        self.n += 1;
                        if !lv.v.is_empty() {
                            let (s, e) = rng(&*a.body);
                            let t: String = lv.v.iter().map(|x| format!("let {} = *{}; ", x, x)).collect();
                            self.ed.ins(s, format!("{{ {}", t));
                            self.ed.ins(e, " }");
                        }
                    }
                }
                visit::visit_arm(self, a);
            }
        }
        let p = parse_fn(&src)?;
        let mut v = RefPatV { ed: Edits::default(), n: 0 };
        v.visit_block(&p.block);
        bump(rep, "R16-refpat", v.n);
        src = v.ed.apply(&src).0;
    }
    // R18 a match on byte strings, as comparisons
    {
        struct BytesV {
            ed: Edits,
            n: usize,
        }
        fn lits(p: &syn::Pat) -> Option<Vec<Vec<u8>>> {
            match p {
                syn::Pat::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) => Some(vec![b.value()]),
                syn::Pat::Paren(p) => lits(&p.pat),
                syn::Pat::Or(o) => {
                    let mut v = vec![];
                    for c in &o.cases {
                        v.extend(lits(c)?);
                    }
                    Some(v)
                }
                _ => None,
            }
        }
        impl<'ast> Visit<'ast> for BytesV {
            fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
                let n = m.arms.len();
                if n >= 2
                    && m.arms.iter().all(|a| a.guard.is_none())
                    && m.arms[..n - 1].iter().all(|a| lits(&a.pat).is_some())
                    && matches!(m.arms[n - 1].pat, syn::Pat::Wild(_))
                {
                    let (s, e) = rng(m);
                    let (xs, xe) = rng(&*m.expr);
                    self.ed.rep(s, xs, "{ let vx_m = ");
                    let mut at = xe;
                    let mut lead = "; if ";
                    for a in &m.arms {
                        let (bs, be) = rng(&*a.body);
                        let t = match lits(&a.pat) {
                            Some(ls) => {
                                let c: Vec<String> = ls
                                    .iter()
                                    .map(|l| {
                                        let mut c = format!("vx_m.len() == {}", l.len());
                                        for (i, b) in l.iter().enumerate() {
                                            c.push_str(&format!(" && vx_m[{}] == {}u8", i, b));
                                        }
                                        format!("({})", c)
                                    })
                                    .collect();
                                format!("{}{} {{ ", lead, c.join(" || "))
                            }
                            None => " } else { ".to_string(),
                        };
                        self.ed.rep(at, bs, t);
                        at = be;
                        lead = " } else if ";
                    }
                    self.ed.rep(at, e, " } }");
                    self.n += 1;
                }
                visit::visit_expr_match(self, m);
            }
        }
        let p = parse_fn(&src)?;
        let mut v = BytesV { ed: Edits::default(), n: 0 };
        v.visit_block(&p.block);
        bump(rep, "R18-bytes", v.n);
        src = v.ed.apply(&src).0;
    }
    // R19 and_then, map, filter of an Option with a closure in place, as matches
    if !ov.optlit.is_empty() {
        struct OptV<'a> {
            ov: &'a Overlay,
            src: &'a str,
            ed: Edits,
            n: usize,
        }
        impl<'a, 'ast> Visit<'ast> for OptV<'a> {
            fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
                let name = m.method.to_string();
                if self.ov.optlit.contains(&name) && m.args.len() == 1 {
                    if let syn::Expr::Closure(c) = &m.args[0] {
                        struct RetV(bool);
                        impl<'ast> Visit<'ast> for RetV {
                            fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
                                self.0 = true;
                            }
                            fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
                                self.0 = true;
                            }
                        }
                        let mut r = RetV(false);
                        r.visit_expr(&c.body);
                        let simple = c.inputs.len() == 1 && matches!(c.inputs[0], syn::Pat::Ident(_) | syn::Pat::Wild(_) | syn::Pat::Tuple(_));
                        if !r.0 && simple {
                            let t = |x: (usize, usize)| self.src[x.0..x.1].to_string();
                            let (rv, p, b) = (t(rng(&*m.receiver)), t(rng(&c.inputs[0])), t(rng(&*c.body)));
                            let (s, e) = rng(m);
                            let x = match name.as_str() {
                                "and_then" => format!("(match {} {{ Some({}) => {{ {} }} None => None }})", rv, p, b),
                                "map" => format!("(match {} {{ Some({}) => Some({{ {} }}), None => None }})", rv, p, b),
                                "filter" => format!("(match {} {{ Some(vx_f) => if {{ let {} = &vx_f; {} }} {{ Some(vx_f) }} else {{ None }}, None => None }})", rv, p, b),
                                _ => return,
                            };
                            self.ed.rep(s, e, x);
                            self.n += 1;
                            return;
                        }
                    }
                }
                visit::visit_expr_method_call(self, m);
            }
        }
        let (s, n) = fix(src, |s, p| {
            let mut v = OptV { ov, src: s, ed: Edits::default(), n: 0 };
            v.visit_block(&p.block);
            (v.ed, v.n)
        })?;
        src = s;
        bump(rep, "R19-optlit", n);
    }
    // R20 a loop with a value: the value is put aside before the break
    {
        struct LoopValV {
            ed: Edits,
            n: usize,
            k: usize,
        }
        struct BrkV<'b> {
            ed: &'b mut Edits,
            var: String,
            n: usize,
        }
        impl<'b, 'ast> Visit<'ast> for BrkV<'b> {
            fn visit_expr_break(&mut self, b: &'ast syn::ExprBreak) {
                if let (None, Some(x)) = (&b.label, &b.expr) {
                    let (s, e) = rng(b);
                    let (xs, xe) = rng(&**x);
                    self.ed.rep(s, xs, format!("{{ {} = Some(", self.var));
                    self.ed.rep(xe, e, "); break }");
                    self.n += 1;
                }
            }
            fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) {}
            fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) {}
            fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) {}
            fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
        }
        impl<'ast> Visit<'ast> for LoopValV {
            fn visit_local(&mut self, l: &'ast syn::Local) {
                if let Some(init) = &l.init {
                    if let syn::Expr::Loop(x) = &*init.expr {
                        let var = format!("vx_b{}", self.k);
                        let mut b = BrkV { ed: &mut self.ed, var: var.clone(), n: 0 };
                        b.visit_block(&x.body);
                        if b.n > 0 {
                            self.n += 1;
                            self.k += 1;
                            let (s, e) = rng(l);
                            let (xs, xe) = rng(x);
                            let (ps, pe) = rng(&l.pat);
                            let _ = ps;
                            self.ed.rep(s, xs, format!("let mut {} = None; ", var));
                            self.ed.rep(xe, e, format!(" let @P{}@ = match {} {{ Some(vx_v) => vx_v, None => vx_unreachable() }};", pe, var));
                        }
                    }
                }
                visit::visit_local(self, l);
            }
        }
        let p = parse_fn(&src)?;
        let mut v = LoopValV { ed: Edits::default(), n: 0, k: 0 };
        v.visit_block(&p.block);
        if v.n > 0 {
            // (the patterns, by where they end)
            struct PatV<'a> {
                src: &'a str,
                m: BTreeMap<String, String>,
            }
            impl<'a, 'ast> Visit<'ast> for PatV<'a> {
                fn visit_local(&mut self, l: &'ast syn::Local) {
                    let (s, e) = rng(&l.pat);
                    self.m.insert(format!("@P{}@", e), self.src[s..e].to_string());
                    visit::visit_local(self, l);
                }
            }
            let mut pv = PatV { src: &src, m: BTreeMap::new() };
            pv.visit_block(&p.block);
            let m = pv.m;
            let n = v.n;
            src = v.ed.apply(&src).0;
            for (a, b) in m {
                src = src.replace(&a, &b);
            }
            bump(rep, "R20-loopval", n);
        }
    }
    // R6 macros
    let (s, n) = fix(src, |s, p| {
        let mut v = MacroV { ov, local: &f.macros, src: s, ed: Edits::default(), n: 0 };
        v.visit_block(&p.block);
        (v.ed, v.n)
    })?;
    src = s;
    bump(rep, "R6-macro", n);
    // R15 once more: what was in a macro
    {
        struct AwaitV(Edits, usize);
        impl<'ast> Visit<'ast> for AwaitV {
            fn visit_expr_await(&mut self, a: &'ast syn::ExprAwait) {
                let (s, e) = rng(&a.await_token);
                self.0.rep(s, e, "vx_await()");
                self.1 += 1;
                visit::visit_expr_await(self, a);
            }
        }
        let p = parse_fn(&src)?;
        let mut v = AwaitV(Edits::default(), 0);
        v.visit_block(&p.block);
        bump(rep, "R15-async", v.1);
        src = v.0.apply(&src).0;
    }
    // R8 inlining of uncontracted helpers (bounded depth)
    let mut depth = 0;
    loop {
        let p = parse_fn(&src)?;
        let mut lv = LocalsV { v: vec![] };
        for a in &p.sig.inputs {
            lv.visit_fn_arg(a);
        }
        lv.visit_block(&p.block);
        let mut v = InlineV {
            sf,
            f,
            ov,
            contracted,
            ed: Edits::default(),
            n: 0,
            names: vec![],
            stack_try: vec![],
            failed: vec![],
            src: &src,
            depth,
            locals: lv.v.into_iter().collect(),
        };
        v.visit_block(&p.block);
        let names = v.names.clone();
        let failed = v.failed.clone();
        if v.ed.is_empty() || depth > 6 {
            for x in failed {
                rep.lost.push(x);
            }
            break;
        }
        let (ed, n) = (v.ed, v.n);
        src = ed.apply(&src).0;
        bump(rep, "R8-inline", n);
        rep.inlined.extend(names);
        depth += 1;
        // inlined text may contain macros again
        let (s, _) = fix(src, |s, p| {
            let mut v = MacroV { ov, local: &f.macros, src: s, ed: Edits::default(), n: 0 };
            v.visit_block(&p.block);
            (v.ed, v.n)
        })?;
        src = s;
    }
    // R3 RefCell erasure
    if !ov.refcells.is_empty() {
        let mut names = BTreeSet::new();
        {
            let p = parse_fn(&src)?;
            struct N<'a> {
                rv: RefCellV<'a>,
                names: BTreeSet<String>,
            }
            impl<'a, 'ast> Visit<'ast> for N<'a> {
                fn visit_local(&mut self, l: &'ast syn::Local) {
                    if let (syn::Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                        if self.rv.is_borrow(&init.expr).is_some() {
                            self.names.insert(pi.ident.to_string());
                        }
                    }
                    visit::visit_local(self, l);
                }
            }
            let mut v = N { rv: RefCellV { ov, src: &src, ed: Edits::default(), n: 0 }, names: BTreeSet::new() };
            v.visit_block(&p.block);
            names.extend(v.names);
        }
        let (s, n) = fix(src, |s, p| {
            let mut v = RefCellV { ov, src: s, ed: Edits::default(), n: 0 };
            v.visit_block(&p.block);
            (v.ed, v.n)
        })?;
        src = s;
        bump(rep, "R3-refcell", n);
        if !names.is_empty() {
            let p = parse_fn(&src)?;
            let mut v = ReborrowV { names, ed: Edits::default() };
            v.visit_block(&p.block);
            src = v.ed.apply(&src).0;
        }
    }
    // R25 lock guards: released where their scope ends
    if !ov.guards.is_empty() {
        let mut k = 0;
        for _ in 0..40 {
            let p = parse_fn(&src)?;
            let mut v = GuardV { ov, src: &src, k, done: false, ed: Edits::default(), lost: vec![] };
            v.visit_block(&p.block);
            let (done, ed, lost) = (v.done, v.ed, v.lost);
            rep.lost.extend(lost);
            if !done {
                break;
            }
            k += 1;
            src = ed.apply(&src).0;
        }
        bump(rep, "R25-guard", k);
    }
    // receivers
    let noself: BTreeSet<String> = ov
        .items
        .iter()
        .filter_map(|i| match i {
            Item::Fn(g) if g.noself && g.ty == f.ty => Some(g.name.clone()),
            _ => None,
        })
        .collect();
    if !noself.is_empty() {
        let (s, n) = fix(src, |s, p| {
            let mut v = SelfDropV { noself: &noself, src: s, ed: Edits::default(), n: 0 };
            v.visit_block(&p.block);
            (v.ed, v.n)
        })?;
        src = s;
        bump(rep, "R3-noself", n);
    }
    // renames
    {
        let p = parse_fn(&src)?;
        let mut v = RenameV { ov, ed: Edits::default(), n: 0 };
        v.visit_signature(&p.sig);
        v.visit_block(&p.block);
        let n = v.n;
        src = v.ed.apply(&src).0;
        bump(rep, "R7-rename", n);
    }
    if !ov.nosub {
        let (s, n) = fix(src, |s, p| {
            let mut v = SubV { src: s, ed: Edits::default(), n: 0 };
            v.visit_block(&p.block);
            (v.ed, v.n)
        })?;
        src = s;
        bump(rep, "R10-subrange", n);
    }
    // R21 comparisons, as functions with contracts
    if f.eqs {
        struct EqV<'a> {
            src: &'a str,
            ed: Edits,
            n: usize,
        }
        fn lit(e: &syn::Expr) -> bool {
            match e {
                syn::Expr::Lit(_) => true,
                syn::Expr::Paren(p) => lit(&p.expr),
                syn::Expr::Unary(u) => lit(&u.expr),
                _ => false,
            }
        }
        impl<'a, 'ast> Visit<'ast> for EqV<'a> {
            fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
                let name = match b.op {
                    syn::BinOp::Eq(_) => "vx_eq",
                    syn::BinOp::Ne(_) => "vx_ne",
                    _ => "",
                };
                if !name.is_empty() && !lit(&b.left) && !lit(&b.right) {
                    let (s, e) = rng(b);
                    let (ls, le) = rng(&*b.left);
                    let (rs, re) = rng(&*b.right);
                    self.ed.rep(s, e, format!("{}(&{}, &{})", name, &self.src[ls..le], &self.src[rs..re]));
                    self.n += 1;
                    return;
                }
                visit::visit_expr_binary(self, b);
            }
        }
        let (s, n) = fix(src, |s, p| {
            let mut v = EqV { src: s, ed: Edits::default(), n: 0 };
            v.visit_block(&p.block);
            (v.ed, v.n)
        })?;
        src = s;
        bump(rep, "R21-eq", n);
    }
    for (a, b) in &f.subs {
        if src.contains(a.as_str()) {
            src = src.replace(a.as_str(), b);
            bump(rep, "R12-sub", 1);
        } else {
            rep.lost.push(format!("sub {:?} not found", a));
        }
    }
    // skeleton
    {
        let p = parse_fn(&src)?;
        let mut lv = LoopV::new();
        lv.visit_block(&p.block);
        rep.loops = lv.kinds;
        let mut lo = LocalsV { v: vec![] };
        for a in &p.sig.inputs {
            lo.visit_fn_arg(a);
        }
        lo.visit_block(&p.block);
        rep.locals = lo.v;
        let mut cv = CallsV { v: vec![] };
        cv.visit_block(&p.block);
        cv.v.sort();
        cv.v.dedup();
        rep.calls = cv.v;
    }
    let mut rename: BTreeMap<String, String> = BTreeMap::new();
    if let Some((bl, blo)) = base {
        if *bl != rep.loops {
            rep.skeleton_changed = true;
        }
        if *blo != rep.locals && blo.len() == rep.locals.len() {
            let mut ok = true;
            for (a, b) in blo.iter().zip(rep.locals.iter()) {
                if let Some(x) = rename.get(a) {
                    if x != b {
                        ok = false;
                    }
                } else {
                    rename.insert(a.clone(), b.clone());
                }
            }
            rename.retain(|a, b| a != b);
            // renaming must not capture
            if !ok {
                rename.clear();
            }
            rep.renamed = !rename.is_empty();
        }
    }
    // (lines that end in `//? NAME` are kept if the text has such a word)
    let words: BTreeSet<String> = src.split(|c: char| !c.is_alphanumeric() && c != '_').map(|x| x.to_string()).collect();
    let rn = |t: &str| {
        let t = if rename.is_empty() { t.to_string() } else { word_replace(t, &rename) };
        if !t.contains("//? ") {
            return t;
        }
        t.lines().filter(|l| l.split_once("//? ").map_or(true, |x| words.contains(x.1.trim()))).collect::<Vec<_>>().join("\n")
    };
    // R4 for loops
    let (s, n) = {
        let mut cur = src;
        let mut total = 0;
        loop {
            let p = parse_fn(&cur)?;
            let mut v = ForV { src: &cur, ed: Edits::default(), n: 0, ord: 0 };
            v.visit_block(&p.block);
            if v.ed.is_empty() {
                break (cur, total);
            }
            total += v.n;
            cur = v.ed.apply(&cur).0;
        }
    };
    src = s;
    bump(rep, "R4-for", n);
    // loops: contracts
    {
        let p = parse_fn(&src)?;
        let mut lv = LoopV::new();
        lv.visit_block(&p.block);
        let mut ed = Edits::default();
        for (k, t) in &f.loops {
            match lv.found.iter().find(|x| x.0 == *k) {
                Some((_, i)) => ed.ins(i.body.0, format!("\n{}\n", rn(t))),
                None => rep.lost.push(format!("loop {}", k)),
            }
        }
        if lv.found.len() > f.loops.len() && base.is_none() {
            // authoring: loops without contract are visible in the report
        }
        // hints in loops; insertion of loop clauses breaks parsing, so
        // compute all edits against the same text
        let hints: Vec<(String, String, bool)> =
            f.hints.iter().map(|(a, t)| (a.clone(), rn(t), false)).collect();
        let mut av = AnchorV {
            ed,
            src: &src,
            hints,
            counts: BTreeMap::new(),
            stack: vec![],
            closure_no: 0,
            closures: &f.closures,
            closures_done: BTreeSet::new(),
            arms: 0,
        };
        av.visit_block(&p.block);
        for (k, _, _) in &f.closures {
            if !av.closures_done.contains(k) {
                rep.lost.push(format!("closure {}", k));
            }
        }
        let (bs, be) = rng(&p.block);
        // string literals: make their characters known to the verifier
        {
            struct LitV {
                v: BTreeSet<String>,
            }
            impl<'ast> Visit<'ast> for LitV {
                fn visit_expr_lit(&mut self, l: &'ast syn::ExprLit) {
                    if let syn::Lit::Str(s) = &l.lit {
                        // (format strings stay opaque)
                        if !s.value().contains('{') {
                            self.v.insert(s.token().to_string());
                        }
                    }
                }
            }
            let mut v = LitV { v: BTreeSet::new() };
            v.visit_block(&p.block);
            if !v.v.is_empty() && !trusted {
                let t: String = v.v.iter().map(|x| format!("reveal_strlit({}); ", x)).collect();
                let t = format!(" proof {{ {}}}", t);
                // (`hide` has to come first)
                let mut hides = String::new();
                for h in av.hints.iter_mut() {
                    if h.0 == "start" {
                        let mut rest = String::new();
                        for l in h.1.lines() {
                            if rest.is_empty() && l.trim_start().starts_with("hide(") { hides.push_str(l); } else { rest.push_str(l); rest.push('\n'); }
                        }
                        h.1 = rest;
                    }
                }
                av.ed.ins(bs + 1, format!("{}{}", hides, t));
                for (_, i) in &lv.found {
                    av.ed.ins(i.body.0 + 1, t.clone());
                }
            }
        }
        for h in av.hints.iter_mut() {
            let w: Vec<&str> = h.0.split_whitespace().collect();
            match w.as_slice() {
                ["start"] => {
                    av.ed.ins(bs + 1, format!("\n{}\n", h.1));
                    h.2 = true;
                }
                ["end"] => {
                    let pos = match p.block.stmts.last() {
                        // (a block-like statement at the end of a function without a result)
                        Some(syn::Stmt::Expr(
                            syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Loop(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Block(_),
                            None,
                        )) if matches!(p.sig.output, syn::ReturnType::Default) => be - 1,
                        Some(s @ syn::Stmt::Expr(_, None)) => rng(s).0,
                        _ => be - 1,
                    };
                    av.ed.ins(pos, format!("{}\n", h.1));
                    h.2 = true;
                }
                ["loop", k, wh] => {
                    let k: usize = k.parse().unwrap_or(usize::MAX);
                    if let Some((_, i)) = lv.found.iter().find(|x| x.0 == k) {
                        h.2 = true;
                        match *wh {
                            "start" => av.ed.ins(i.body.0 + 1, format!("\n{}\n", h.1)),
                            "end" => av.ed.ins(i.body.1 - 1, format!("\n{}\n", h.1)),
                            "before" => av.ed.ins(i.whole.0, format!("{}\n", h.1)),
                            "after" => av.ed.ins(i.whole.1, format!("\n{}\n", h.1)),
                            _ => h.2 = false,
                        }
                    }
                }
                _ => (),
            }
            if !h.2 && !h.0.contains(" * ") {
                rep.lost.push(format!("hint {}", h.0));
            }
        }
        src = av.ed.apply(&src).0;
        // (the text is no longer plain Rust from here on)
        // signature
        let sig_end = bs; // unchanged by edits, which are all inside the block
        let sig_text = src[..sig_end].to_string();
        let body = src[sig_end..].to_string();
        let new_sig = match &f.sig {
            Some(s) => format!("pub fn {}{}", f.emit_name.as_ref().unwrap_or(&f.name), s),
            None => {
                let mut ed = Edits::default();
                if let syn::ReturnType::Type(_, t) = &p.sig.output {
                    let (a, b) = rng(&**t);
                    ed.rep(a, b, format!("({}: {})", f.ret, &sig_text[a..b]));
                }
                if let Some(syn::FnArg::Receiver(r)) = p.sig.inputs.first() {
                    let (a, b) = rng(r);
                    if f.noself && !fn_text_uses_self(&p.block) {
                        let mut b = b;
                        let rest = &sig_text[b..];
                        let t = rest.trim_start();
                        if t.starts_with(',') {
                            b += rest.len() - t.len() + 1;
                        }
                        ed.rep(a, b, "");
                    } else if f.mutself && norm(r) == "&self" {
                        ed.rep(a, b, "&mut self");
                    }
                }
                if let Some(n) = &f.emit_name {
                    let (a, b) = rng(&p.sig.ident);
                    ed.rep(a, b, n.clone());
                }
                if let Some(g) = &f.generics {
                    let (_, b) = rng(&p.sig.ident);
                    ed.ins(b, g.clone());
                }
                let s = ed.apply(&sig_text).0;
                let s = s.trim_start();
                let s = s
                    .strip_prefix("pub(crate)")
                    .or_else(|| s.strip_prefix("pub"))
                    .unwrap_or(s)
                    .trim_start()
                    .to_string();
                format!("pub {}", s)
            }
        };
        let mut out = String::new();
        out.push_str(&format!("// --- {} ({}:{})\n", f.qual(), f.file, line));
        if trusted {
            out.push_str("#[verifier::external_body]\n");
        }
        if !f.attrs.is_empty() {
            out.push_str(&f.attrs);
            out.push('\n');
        }
        out.push_str(new_sig.trim_end());
        out.push('\n');
        // the spec text is not alpha-renamed except for parameters
        out.push_str(&rn(&f.spec));
        if trusted {
            out.push_str("{ unimplemented!() }\n");
        } else {
            out.push_str(&body);
            out.push('\n');
        }
        src = out;
    }
    Ok(src)
}
