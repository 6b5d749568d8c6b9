//! Applies the real derive (derive_builder_core::builder_for_struct) to items and
//! reports what it generated as facts: a map from keys to values, see
//! ../../../spec/Surface.tla for the vocabulary.  Reads lines {"id", "src"}.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;

// ------------------------------------------------------------ canonical text
fn push_tokens(ts: TokenStream, out: &mut String, prev_word: &mut bool) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if !a.is_empty() {
                    *prev_word = false;
                }
                out.push_str(a);
                push_tokens(g.stream(), out, prev_word);
                out.push_str(b);
                if !b.is_empty() {
                    *prev_word = false;
                }
            }
            TokenTree::Ident(i) => {
                if *prev_word {
                    out.push(' ');
                }
                out.push_str(&i.to_string());
                *prev_word = true;
            }
            TokenTree::Literal(l) => {
                if *prev_word {
                    out.push(' ');
                }
                out.push_str(&l.to_string());
                *prev_word = true;
            }
            TokenTree::Punct(p) => {
                if p.as_char() == '\'' && *prev_word {
                    out.push(' ');
                }
                out.push(p.as_char());
                *prev_word = false;
            }
        }
    }
}
fn tx<T: ToTokens>(t: &T) -> String {
    let mut s = String::new();
    let mut w = false;
    push_tokens(t.to_token_stream(), &mut s, &mut w);
    s
}

/// Reduces every path that leads into the library or the standard library to its last segment.
struct Short;
impl VisitMut for Short {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        syn::visit_mut::visit_path_mut(self, p);
        let std = p.segments.iter().any(|s| s.ident == "export")
            || p.segments
                .first()
                .map_or(false, |s| p.segments.len() > 1 && (s.ident == "std" || s.ident == "core" || s.ident == "alloc"));
        let lib = p.segments.last().map_or(false, |s| s.ident == "UninitializedFieldError");
        if std || lib {
            let last = p.segments.last().unwrap().clone();
            p.leading_colon = None;
            p.segments = std::iter::once(last).collect();
        }
    }
}
fn short_ty(t: &syn::Type) -> String {
    let mut t = t.clone();
    Short.visit_type_mut(&mut t);
    tx(&t)
}
fn short_path(p: &syn::Path) -> String {
    let mut p = p.clone();
    Short.visit_path_mut(&mut p);
    tx(&p)
}
fn short_bound(b: &syn::TypeParamBound) -> String {
    let mut b = b.clone();
    Short.visit_type_param_bound_mut(&mut b);
    tx(&b)
}

// ------------------------------------------------------------------ generics
type Facts = Map<String, Value>;
fn put(f: &mut Facts, k: String, v: impl Into<String>) {
    f.insert(k, Value::String(v.into()));
}
fn all_bounds(g: &syn::Generics) -> Vec<(String, syn::TypeParamBound)> {
    let mut o = vec![];
    for p in &g.params {
        match p {
            syn::GenericParam::Type(t) => {
                for b in &t.bounds {
                    o.push((t.ident.to_string(), b.clone()))
                }
            }
            syn::GenericParam::Lifetime(l) => {
                for b in &l.bounds {
                    o.push((tx(&l.lifetime), syn::TypeParamBound::Lifetime(b.clone())))
                }
            }
            _ => (),
        }
    }
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            match p {
                syn::WherePredicate::Type(t) => {
                    let pre = t.lifetimes.as_ref().map(|l| tx(l)).unwrap_or_default();
                    for b in &t.bounds {
                        o.push((pre.clone() + &tx(&t.bounded_ty), b.clone()))
                    }
                }
                syn::WherePredicate::Lifetime(l) => {
                    for b in &l.bounds {
                        o.push((tx(&l.lifetime), syn::TypeParamBound::Lifetime(b.clone())))
                    }
                }
                _ => (),
            }
        }
    }
    o
}
fn generics(f: &mut Facts, pre: &str, g: &syn::Generics) {
    let mut params = vec![];
    for p in &g.params {
        match p {
            syn::GenericParam::Type(t) => {
                params.push(t.ident.to_string());
                if let Some(d) = &t.default {
                    put(f, format!("{}:d:{}", pre, t.ident), tx(d));
                }
            }
            syn::GenericParam::Lifetime(l) => params.push(tx(&l.lifetime)),
            syn::GenericParam::Const(c) => {
                params.push(format!("const {}:{}", c.ident, tx(&c.ty)));
                if let Some(d) = &c.default {
                    put(f, format!("{}:d:{}", pre, c.ident), tx(d));
                }
            }
        }
    }
    put(f, format!("{}:params", pre), params.join(","));
    for (s, b) in all_bounds(g) {
        put(f, format!("{}:b:{}:{}", pre, s, short_bound(&b)), "1");
    }
}

// --------------------------------------------------------------- classifiers
fn generic_args(seg: &syn::PathSegment) -> Vec<syn::Type> {
    match &seg.arguments {
        syn::PathArguments::AngleBracketed(a) => a
            .args
            .iter()
            .filter_map(|a| match a {
                syn::GenericArgument::Type(t) => Some(t.clone()),
                _ => None,
            })
            .collect(),
        _ => vec![],
    }
}
fn from_library(p: &syn::Path) -> bool {
    p.segments.iter().any(|s| s.ident == "export") || (p.leading_colon.is_some() && p.segments[0].ident == "core")
}
/// A slot: the library's Option / PhantomData around a type, or the type itself.
fn slot_ty(t: &syn::Type) -> String {
    if let syn::Type::Path(p) = t {
        let last = p.path.segments.last().unwrap();
        let args = generic_args(last);
        if from_library(&p.path) && args.len() == 1 {
            if last.ident == "Option" {
                return format!("option:{}", tx(&args[0]));
            }
            if last.ident == "PhantomData" {
                return format!("phantom:{}", tx(&args[0]));
            }
        }
    }
    format!("precise:{}", tx(t))
}
fn bound_of(b: &syn::TypeParamBound, name: &str) -> Option<syn::Type> {
    match b {
        syn::TypeParamBound::Trait(t) => {
            let last = t.path.segments.last().unwrap();
            if last.ident == name {
                generic_args(last).into_iter().next()
            } else {
                None
            }
        }
        _ => None,
    }
}
fn classify_arg(sig: &syn::Signature, ty: &syn::Type) -> String {
    let bounds = all_bounds(&sig.generics);
    let is_param = |n: &str| sig.generics.type_params().any(|p| p.ident == n);
    let extended = |n: &str| {
        bounds
            .iter()
            .find(|(_, b)| bound_of(b, "Extend").map_or(false, |t| tx(&t) == n))
            .map(|(s, _)| s.clone())
    };
    let mut own: Vec<syn::TypeParamBound> = vec![];
    let name = tx(ty);
    if let syn::Type::ImplTrait(i) = ty {
        own.extend(i.bounds.iter().cloned());
    } else if is_param(&name) {
        own.extend(bounds.iter().filter(|(s, _)| *s == name).map(|(_, b)| b.clone()));
        if let Some(c) = extended(&name) {
            return format!("item:{}", c);
        }
    } else {
        return format!("exact:{}", name);
    }
    for b in &own {
        if let Some(t) = bound_of(b, "TryInto") {
            return format!("tryinto:{}", tx(&t));
        }
        if let Some(t) = bound_of(b, "Into") {
            let n = tx(&t);
            if is_param(&n) {
                if let Some(c) = extended(&n) {
                    return format!("iteminto:{}", c);
                }
            }
            return format!("into:{}", n);
        }
    }
    format!("other:{}", name)
}
fn result_parts(t: &syn::Type) -> Option<(syn::Type, syn::Type)> {
    if let syn::Type::Path(p) = t {
        let last = p.path.segments.last()?;
        let a = generic_args(last);
        if last.ident == "Result" && a.len() == 2 {
            return Some((a[0].clone(), a[1].clone()));
        }
    }
    None
}
fn self_text(t: &syn::Type, this: &str) -> String {
    let s = tx(t);
    if s == this {
        return "Self".into();
    }
    if s == format!("&mut {}", this) {
        return "&mut Self".into();
    }
    s
}
fn classify_ret(sig: &syn::Signature, this: &str) -> String {
    let t = match &sig.output {
        syn::ReturnType::Default => return "()".into(),
        syn::ReturnType::Type(_, t) => t,
    };
    match result_parts(t) {
        Some((a, b)) => {
            let e = match &b {
                syn::Type::Path(p)
                    if p.path.segments.last().unwrap().ident == "Error"
                        && (p.qself.is_some()
                            || sig.generics.type_params().any(|q| p.path.segments[0].ident == q.ident)) =>
                {
                    "_::Error".to_string()
                }
                b => tx(b),
            };
            format!("Result<{},{}>", self_text(&a, this), e)
        }
        None => self_text(t, this),
    }
}
fn recv(sig: &syn::Signature) -> String {
    match sig.inputs.first() {
        Some(syn::FnArg::Receiver(r)) => match (&r.reference, &r.mutability) {
            (Some(_), Some(_)) => "&mut self".into(),
            (Some(_), None) => "&self".into(),
            (None, _) => "self".into(),
        },
        _ => "none".into(),
    }
}
fn attr_list(attrs: &[syn::Attribute]) -> Value {
    Value::Array(attrs.iter().map(|a| Value::String(tx(&a.meta))).collect())
}
/// Notes that an item has documentation, and the words in it.
fn documented(f: &mut Facts, key: String, attrs: &[syn::Attribute]) {
    for a in attrs {
        if let syn::Meta::NameValue(syn::MetaNameValue { path, value, .. }) = &a.meta {
            if path.is_ident("doc") {
                put(f, format!("doc:{}", key), "1");
                if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(text), .. }) = value {
                    for w in text.value().split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| !w.is_empty()) {
                        put(f, format!("says:{}:{}", key, w), "1");
                    }
                }
            }
        }
    }
}

// -------------------------------------------------------------- crate prefix
struct Roots(Vec<String>);
const KEYWORDS: &[&str] = &[
    "impl", "return", "mut", "for", "dyn", "ref", "in", "match", "as", "let", "if", "else", "where", "move", "const", "pub", "fn",
    "enum", "struct", "type", "break", "loop", "while", "unsafe", "static", "use",
];
fn prefix(lead: bool, idents: &[String]) -> String {
    let mut s = if lead { "::".to_string() } else { String::new() };
    s.push_str(&idents.join("::"));
    s
}
impl Roots {
    fn scan(&mut self, ts: TokenStream) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut lead = false;
        let mut ids: Vec<String> = vec![];
        let mut i = 0;
        while i < toks.len() {
            let colons = |i: usize| {
                matches!(toks.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ':' && p.spacing() == proc_macro2::Spacing::Joint)
                    && matches!(toks.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() == ':')
            };
            match &toks[i] {
                TokenTree::Ident(id) if KEYWORDS.contains(&&id.to_string()[..]) => i += 1,
                TokenTree::Ident(id) => {
                    let n = id.to_string();
                    if n == "export" || n == "UninitializedFieldError" {
                        if !ids.is_empty() {
                            self.0.push(prefix(lead, &ids));
                        }
                    }
                    ids.push(n);
                    i += 1;
                    if colons(i) {
                        i += 2;
                        continue;
                    }
                }
                TokenTree::Group(g) => {
                    self.scan(g.stream());
                    i += 1;
                }
                _ if colons(i) => {
                    ids.clear();
                    lead = true;
                    i += 2;
                    continue;
                }
                _ => i += 1,
            }
            ids.clear();
            lead = false;
        }
    }
}

// ------------------------------------------------------------ normal bodies
/// Drops blocks around a single expression and parentheses, so that `{ { x } }` reads `x`.
struct Unwrap;
impl VisitMut for Unwrap {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        loop {
            let inner = match e {
                syn::Expr::Block(b) if b.attrs.is_empty() && b.label.is_none() => match &b.block.stmts[..] {
                    [syn::Stmt::Expr(x, None)] => x.clone(),
                    _ => break,
                },
                syn::Expr::Paren(p) if p.attrs.is_empty() => (*p.expr).clone(),
                syn::Expr::Group(p) if p.attrs.is_empty() => (*p.expr).clone(),
                _ => break,
            };
            *e = inner;
        }
    }
}
struct Literals<'a>(&'a mut Map<String, Value>);
impl<'ast> Visit<'ast> for Literals<'_> {
    fn visit_expr_struct(&mut self, e: &'ast syn::ExprStruct) {
        for f in &e.fields {
            if let syn::Member::Named(n) = &f.member {
                let mut x = f.expr.clone();
                Unwrap.visit_expr_mut(&mut x);
                self.0.insert(format!("init:{}:{}", e.path.segments.last().unwrap().ident, n), Value::String(tx(&x)));
            }
        }
    }
}
fn body(f: &syn::ImplItemFn) -> String {
    let mut f = f.clone();
    for s in f.block.stmts.iter_mut() {
        Unwrap.visit_stmt_mut(s);
    }
    tx(&f)
}

// ------------------------------------------------------------------ the facts
fn is_compile_error(i: &syn::Item) -> bool {
    matches!(i, syn::Item::Macro(m) if m.mac.path.segments.last().map_or(false, |s| s.ident == "compile_error"))
}
fn head(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => String::new(),
    }
}
fn facts(file: &syn::File, ts: TokenStream) -> (Facts, Map<String, Value>, Map<String, Value>) {
    let mut f = Facts::new();
    let mut attrs = Map::new();
    let mut bodies = Map::new();
    let mut roots = Roots(vec![]);
    roots.scan(ts);
    for r in roots.0 {
        put(&mut f, format!("xp:{}", r), "1");
    }
    let inherent: Vec<&syn::ItemImpl> = file
        .items
        .iter()
        .filter_map(|i| match i {
            syn::Item::Impl(m) if m.trait_.is_none() => Some(m),
            _ => None,
        })
        .collect();
    let structs: Vec<&syn::ItemStruct> = file
        .items
        .iter()
        .filter_map(|i| match i {
            syn::Item::Struct(s) => Some(s),
            _ => None,
        })
        .collect();
    let st = structs
        .iter()
        .find(|s| inherent.iter().any(|i| head(&i.self_ty) == s.ident.to_string()))
        .or_else(|| structs.first());
    let bname = st.map(|s| s.ident.to_string()).unwrap_or_default();
    if let Some(s) = st {
        put(&mut f, format!("struct:{}", s.ident), "1");
        put(&mut f, "struct:vis".into(), tx(&s.vis));
        let names: Vec<String> =
            s.fields.iter().map(|x| x.ident.as_ref().map(|i| i.to_string()).unwrap_or_default()).collect();
        put(&mut f, "struct:fields".into(), names.join(","));
        generics(&mut f, "sg", &s.generics);
        for a in s.attrs.iter().filter(|a| a.path().is_ident("derive")) {
            let l = a.parse_args_with(syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated);
            let mut seen = HashMap::new();
            for p in l.into_iter().flatten() {
                let n = p.segments.last().unwrap().ident.to_string();
                *seen.entry(n).or_insert(0) += 1;
            }
            for (n, c) in seen {
                let k = format!("derive:{}", n);
                let have = f.get(&k).and_then(|v| v.as_str().map(|s| s.parse::<i32>().unwrap_or(0))).unwrap_or(0);
                put(&mut f, k, (have + c).to_string());
            }
        }
        attrs.insert("struct".into(), attr_list(&s.attrs));
        documented(&mut f, "struct".into(), &s.attrs);
        for x in &s.fields {
            let id = x.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
            put(&mut f, format!("slot:{}:vis", id), tx(&x.vis));
            put(&mut f, format!("slot:{}:ty", id), slot_ty(&x.ty));
            attrs.insert(format!("slot:{}", id), attr_list(&x.attrs));
            documented(&mut f, format!("slot:{}", id), &x.attrs);
            bodies.insert(format!("slot:{}", id), Value::String(tx(x)));
        }
    }
    let mut first = true;
    for m in &inherent {
        if head(&m.self_ty) != bname {
            continue;
        }
        let this = tx(&m.self_ty);
        if first {
            put(&mut f, "ig:self".into(), this.clone());
            generics(&mut f, "ig", &m.generics);
            attrs.insert("impl".into(), attr_list(&m.attrs));
            first = false;
        }
        for it in &m.items {
            if let syn::ImplItem::Fn(func) = it {
                let sig = &func.sig;
                let k = format!("fn:{}", sig.ident);
                if f.contains_key(&k) {
                    put(&mut f, k.clone(), "twice");
                } else {
                    put(&mut f, k.clone(), "1");
                }
                put(&mut f, format!("{}:vis", k), tx(&func.vis));
                put(&mut f, format!("{}:recv", k), recv(sig));
                let args: Vec<&syn::Type> = sig
                    .inputs
                    .iter()
                    .filter_map(|a| match a {
                        syn::FnArg::Typed(t) => Some(&*t.ty),
                        _ => None,
                    })
                    .collect();
                let arg = match args[..] {
                    [] => "none".to_string(),
                    [t] => classify_arg(sig, t),
                    _ => "many".to_string(),
                };
                put(&mut f, format!("{}:arg", k), arg);
                put(&mut f, format!("{}:ret", k), classify_ret(sig, &this));
                attrs.insert(k.clone(), attr_list(&func.attrs));
                documented(&mut f, k.clone(), &func.attrs);
                bodies.insert(k.clone(), Value::String(body(func)));
                Literals(&mut bodies).visit_block(&func.block);
            }
        }
    }
    let en = file.items.iter().find_map(|i| match i {
        syn::Item::Enum(e) => Some(e),
        _ => None,
    });
    if let Some(e) = en {
        put(&mut f, format!("enum:{}", e.ident), "1");
        put(&mut f, "enum:vis".into(), tx(&e.vis));
        for v in &e.variants {
            let t: Vec<String> = v.fields.iter().map(|x| short_ty(&x.ty)).collect();
            put(&mut f, format!("ev:{}", v.ident), t.join(","));
            documented(&mut f, format!("ev:{}", v.ident), &v.attrs);
        }
        attrs.insert("enum".into(), attr_list(&e.attrs));
        documented(&mut f, "enum".into(), &e.attrs);
        for a in e.attrs.iter() {
            if a.path().is_ident("non_exhaustive") {
                put(&mut f, "enum:non_exhaustive".into(), "1");
            }
        }
    }
    for i in &file.items {
        if let syn::Item::Impl(m) = i {
            if let Some((_, p, _)) = &m.trait_ {
                let t = short_path(p);
                let h = head(&m.self_ty);
                if h == bname && t == "Default" {
                    put(&mut f, "impl:Default".into(), "1");
                    put(&mut f, "dg:self".into(), tx(&m.self_ty));
                    generics(&mut f, "dg", &m.generics);
                    attrs.insert("dimpl".into(), attr_list(&m.attrs));
                } else if Some(&h) == en.map(|e| e.ident.to_string()).as_ref() {
                    put(&mut f, format!("ei:{}", t), "1");
                }
            }
        }
    }
    (f, attrs, bodies)
}

fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default()
    })
}
fn hash(s: &str) -> String {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    format!("{:x}", h.finish())
}
/// `__none{..}` as the invisible group that a macro_rules macro leaves around a fragment.
fn grouped(ts: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let marked = matches!(out.last(), Some(TokenTree::Ident(i)) if i == "__none");
                let inner = grouped(g.stream());
                if marked {
                    out.pop();
                }
                let d = if marked { Delimiter::None } else { g.delimiter() };
                let mut n = proc_macro2::Group::new(d, inner);
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            t => out.push(t),
        }
    }
    out.into_iter().collect()
}
fn parse(src: &str) -> syn::Result<syn::DeriveInput> {
    syn::parse2(grouped(src.parse()?))
}
fn expand(src: &str) -> Value {
    let ast = match quiet(|| parse(src)) {
        Ok(Ok(a)) => a,
        Ok(Err(e)) => return json!({"outcome": "unparsable", "why": e.to_string(), "facts": {}, "attrs": {}, "bodies": {}, "same": true}),
        Err(e) => return json!({"outcome": "unparsable", "why": e, "facts": {}, "attrs": {}, "bodies": {}, "same": true}),
    };
    let run = |ast: syn::DeriveInput| quiet(move || derive_builder_core::builder_for_struct(ast));
    let a = match run(ast.clone()) {
        Ok(t) => t,
        Err(e) => return json!({"outcome": "panic", "why": e, "facts": {"outcome": "panic"}, "attrs": {}, "bodies": {}, "same": true}),
    };
    let text = tx(&a);
    let same = run(ast).map(|b| tx(&b) == text).unwrap_or(false);
    let file = match syn::parse2::<syn::File>(a.clone()) {
        Ok(f) => f,
        Err(e) => {
            return json!({"outcome": "garbage", "why": format!("{}: {}", e, a), "facts": {"outcome": "garbage"}, "attrs": {},
                          "bodies": {}, "same": same})
        }
    };
    let errs: Vec<String> = file
        .items
        .iter()
        .filter(|i| is_compile_error(i))
        .map(|i| match i {
            syn::Item::Macro(m) => tx(&m.mac.tokens),
            _ => String::new(),
        })
        .collect();
    let outcome = match (errs.len(), file.items.len() - errs.len()) {
        (0, 0) => "nothing",
        (0, _) => "items",
        (_, 0) => "errors",
        _ => "mixed",
    };
    let (mut f, attrs, bodies) = facts(&file, a);
    put(&mut f, "outcome".into(), outcome);
    json!({"outcome": outcome, "why": errs.join(" | "), "facts": f, "attrs": attrs, "bodies": bodies, "same": same, "text": hash(&text)})
}

/// usage: expander INPUT OUTPUT.  Writes a line {"start": id} before and the report after each item, so that
/// the caller can tell which item a crash or a hang belongs to.
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let lines: Vec<Value> = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap())
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
        .collect();
    let out = std::sync::Mutex::new(std::fs::File::create(&args[2]).unwrap());
    let put = |v: Value| {
        let s = format!("{}\n", v);
        out.lock().unwrap().write_all(s.as_bytes()).unwrap();
    };
    let n = 8.min(lines.len().max(1));
    std::thread::scope(|s| {
        for k in 0..n {
            let (lines, put) = (&lines, &put);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    for l in lines.iter().skip(k).step_by(n) {
                        put(json!({"start": l["id"]}));
                        let mut v = expand(l["src"].as_str().unwrap());
                        v["id"] = l["id"].clone();
                        put(v);
                    }
                })
                .unwrap();
        }
    });
}
