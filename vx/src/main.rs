//! vx: mechanical extraction of Rust items from /repo/src into Verus input.
//!
//! usage: vx CONFIG.json OUT.json
//!
//! The configuration names source files, the module each of them becomes, and
//! per function the contract text to attach.  Every rewrite is listed in
//! /verif/DESIGN.md ("What the extraction does").
use proc_macro2::{LineColumn, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, FnArg, ImplItem, Item, Pat, Stmt};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cfg: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
    let mut out = Vec::new();
    let mut monos: Vec<(String, String, syn::TraitItemFn)> = vec![];
    for f in cfg["files"].as_array().unwrap() {
        let path = f["path"].as_str().unwrap();
        let module = f["module"].as_str().unwrap();
        let src = match std::fs::read_to_string(path) {
            Ok(s) => s,
            Err(e) => {
                out.push(json!({"module": module, "path": path, "error": e.to_string()}));
                continue;
            }
        };
        let file = match syn::parse_file(&src) {
            Ok(f) => f,
            Err(e) => {
                out.push(json!({"module": module, "path": path, "error": e.to_string()}));
                continue;
            }
        };
        let mut cx = Cx {
            cfg: &cfg,
            module: module.to_string(),
            pieces: vec![],
            errors: vec![],
            monos: std::mem::take(&mut monos),
            over: None,
        };
        cx.items(&file.items, "");
        monos = std::mem::take(&mut cx.monos);
        out.push(json!({"module": module, "path": path, "pieces": cx.pieces, "errors": cx.errors}));
    }
    std::fs::write(&args[2], serde_json::to_string_pretty(&json!({ "files": out })).unwrap()).unwrap();
}

struct Cx<'a> {
    cfg: &'a Value,
    module: String,
    pieces: Vec<Value>,
    errors: Vec<String>,
    /// default methods of traits that are repeated in every impl, as rustc instantiates them
    monos: Vec<(String, String, syn::TraitItemFn)>,
    over: Option<Value>,
}

/// normalised name of a type: no spaces, no lifetimes
fn norm(t: &impl ToTokens) -> String {
    let mut s = String::new();
    fn go(ts: TokenStream, s: &mut String) {
        let mut skip = false;
        for t in ts {
            match t {
                TokenTree::Punct(p) if p.as_char() == '\'' => skip = true,
                TokenTree::Ident(i) => {
                    if skip {
                        skip = false;
                        s.push_str("'_");
                    } else {
                        s.push_str(&i.to_string())
                    }
                }
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        _ => ("", ""),
                    };
                    s.push_str(a);
                    go(g.stream(), s);
                    s.push_str(b);
                }
                t => s.push_str(&t.to_string()),
            }
        }
    }
    go(t.to_token_stream(), &mut s);
    s.replace("<'_>", "").replace("&'_", "&").replace("'_,", "")
}

fn cfg_active(attrs: &[syn::Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("test") {
            return false;
        }
        if a.path().is_ident("cfg") {
            let s = a.meta.to_token_stream().to_string().replace(' ', "");
            if s.contains("test") {
                return false;
            }
            if s.contains("feature=\"serde") {
                return false;
            }
        }
    }
    true
}

fn derives(attrs: &[syn::Attribute]) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            if let syn::Meta::List(l) = &a.meta {
                for t in l.tokens.clone() {
                    if let TokenTree::Ident(i) = t {
                        r.insert(i.to_string());
                    }
                }
            }
        }
    }
    r
}

fn lines(a: LineColumn, b: LineColumn) -> Value {
    json!([a.line, b.line])
}

impl<'a> Cx<'a> {
    fn sidecar(&self, id: &str) -> Option<&'a Value> {
        self.cfg["fns"].get(id)
    }
    fn piece(&mut self, kind: &str, id: &str, text: String, extra: Value) {
        let mut m = Map::new();
        m.insert("kind".into(), json!(kind));
        m.insert("id".into(), json!(id));
        m.insert("text".into(), json!(text));
        if let Value::Object(o) = extra {
            for (k, v) in o {
                m.insert(k, v);
            }
        }
        self.pieces.push(Value::Object(m));
    }
    fn mono_for(&self, tr: &Option<(Option<syn::Token![!]>, syn::Path, syn::Token![for])>, name: &str) -> Option<(String, syn::TraitItemFn)> {
        let (_, p, _) = tr.as_ref()?;
        self.monos.iter().find(|(_, t, f)| p.segments.last().unwrap().ident == t.as_str() && f.sig.ident == name).map(|(a, _, c)| (a.clone(), c.clone()))
    }
    fn mono_sidecar(&self, of: &str) -> Value {
        let mut o = self.sidecar(of).cloned().unwrap_or(json!({}));
        if let Some(m) = o.as_object_mut() {
            m.remove("ensures");
            m.remove("requires");
        }
        o
    }
    fn dropped(&self, id: &str) -> bool {
        self.cfg["drop"].as_array().map_or(false, |d| d.iter().any(|x| x.as_str() == Some(id)))
    }

    fn items(&mut self, items: &[Item], _prefix: &str) {
        // local macro_rules!: expand the simple item macros (component_impl!, event_impl!)
        let mut macros: BTreeMap<String, TokenStream> = BTreeMap::new();
        for it in items {
            match it {
                Item::Macro(m) => {
                    if let Some(id) = &m.ident {
                        macros.insert(id.to_string(), m.mac.tokens.clone());
                    } else {
                        let name = norm(&m.mac.path);
                        match macros.get(&name).map(|b| expand(b.clone(), m.mac.tokens.clone())) {
                            Some(Ok(ts)) => match syn::parse2::<syn::File>(ts) {
                                Ok(f) => {
                                    self.items(&f.items, "");
                                }
                                Err(e) => self.errors.push(format!("macro {name}: {e}")),
                            },
                            Some(Err(e)) => self.errors.push(format!("macro {name}: {e}")),
                            None => self.errors.push(format!("unknown item macro {name}")),
                        }
                    }
                }
                _ => self.item(it),
            }
        }
    }

    fn item(&mut self, it: &Item) {
        let m = self.module.clone();
        match it {
            Item::Use(u) => {
                if !cfg_active(&u.attrs) {
                    return;
                }
                let s = norm(&u.tree);
                let ext = ["std::", "core::", "nom::", "chrono::", "serde::", "uuid::", "pretty_assertions::", "chrono_tz::", "iso8601::"];
                if ext.iter().any(|e| s.starts_with(e)) {
                    return;
                }
                let tree = &u.tree;
                self.piece("use", &s, format!("#[allow(unused_imports)] pub use {};", quote!(#tree)), json!({}));
            }
            Item::Const(c) => {
                if !cfg_active(&c.attrs) {
                    return;
                }
                let id = format!("{m}::{}", c.ident);
                if self.dropped(&id) {
                    return;
                }
                let sc = self.sidecar(&id);
                if let Some(t) = sc.and_then(|s| s["replace"].as_str()) {
                    self.piece("const", &id, t.to_string(), json!({"src": norm(&c.expr)}));
                    return;
                }
                let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                let mut ty = t.to_token_stream().to_string();
                if norm(t).contains("&str") {
                    ty = norm(t).replace("&str", "&'static str");
                }
                self.piece("const", &id, format!("pub const {i}: {ty} = {};", quote!(#e)), json!({"src": norm(e)}));
            }
            Item::Struct(s) => {
                if !cfg_active(&s.attrs) {
                    return;
                }
                let id = format!("{m}::{}", s.ident);
                if self.dropped(&id) {
                    return;
                }
                let d = derives(&s.attrs);
                let mut s2 = s.clone();
                s2.attrs.clear();
                s2.vis = parse_quote!(pub);
                for f in s2.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                }
                let mut fx = Fix::new(self.cfg, &Value::Null);
                fx.visit_item_struct_mut(&mut s2);
                let mut text = String::new();
                if let Some(a) = self.sidecar(&id).and_then(|s| s["attr"].as_str()) {
                    text.push_str(a);
                    text.push('\n');
                }
                if d.contains("Copy") {
                    text.push_str("#[derive(core::clone::Clone, Copy)]\n");
                }
                text.push_str(&pretty(&s2.to_token_stream()));
                let (ig, tg, wc) = s2.generics.split_for_impl();
                let name = &s2.ident;
                if d.contains("Clone") {
                    text.push_str(&format!(
                        "\nimpl {} Clone for {}{} {} {{ #[verifier::external_body] fn x_clone(&self) -> (r: Self) {{ unimplemented!() }} }}",
                        quote!(#ig), name, quote!(#tg), quote!(#wc)
                    ));
                }
                if d.contains("Default") {
                    let fields: Vec<String> = s2
                        .fields
                        .iter()
                        .enumerate()
                        .map(|(i, f)| match &f.ident {
                            Some(n) => n.to_string(),
                            None => i.to_string(),
                        })
                        .collect();
                    let tys: Vec<String> = s2.fields.iter().map(|f| { let t = &f.ty; quote!(#t).to_string() }).collect();
                    let spec = fields.iter().zip(&tys).map(|(f, t)| format!("<{t} as Default>::is_default(r.{f})")).collect::<Vec<_>>().join(" && ");
                    let body = fields.iter().map(|f| format!("{f}: Default::x_default()")).collect::<Vec<_>>().join(", ");
                    text.push_str(&format!(
                        "\nimpl {} Default for {}{} {} {{ open spec fn is_default(r: Self) -> bool {{ {spec} }} fn x_default() -> (r: Self) {{ {name} {{ {body} }} }} }}",
                        quote!(#ig), name, quote!(#tg), quote!(#wc)
                    ));
                }
                self.piece("type", &id, text, json!({}));
            }
            Item::Enum(e) => {
                if !cfg_active(&e.attrs) {
                    return;
                }
                let id = format!("{m}::{}", e.ident);
                if self.dropped(&id) {
                    return;
                }
                let d = derives(&e.attrs);
                let mut e2 = e.clone();
                e2.attrs.clear();
                e2.vis = parse_quote!(pub);
                for v in e2.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
                let fieldless = e2.variants.iter().all(|v| v.fields.is_empty());
                let mut text = String::new();
                if d.contains("Copy") {
                    text.push_str("#[derive(core::clone::Clone, Copy)]\n");
                }
                let mut fx = Fix::new(self.cfg, &Value::Null);
                fx.visit_item_enum_mut(&mut e2);
                text.push_str(&pretty(&e2.to_token_stream()));
                let (ig, tg, wc) = e2.generics.split_for_impl();
                let name = &e2.ident;
                if d.contains("Clone") {
                    text.push_str(&format!(
                        "\nimpl {} Clone for {}{} {} {{ #[verifier::external_body] fn x_clone(&self) -> (r: Self) {{ unimplemented!() }} }}",
                        quote!(#ig), name, quote!(#tg), quote!(#wc)
                    ));
                }
                if d.contains("PartialEq") && fieldless {
                    text.push_str(&format!("\nimpl XEq<{name}> for {name} {{ open spec fn eq_rel(&self, o: &{name}) -> bool {{ *self == *o }} #[verifier::external_body] fn x_eq(&self, o: &{name}) -> (r: bool) {{ unimplemented!() }} }}"));
                }
                self.piece("type", &id, text, json!({}));
            }
            Item::Type(t) => {
                if !cfg_active(&t.attrs) {
                    return;
                }
                let mut t2 = t.clone();
                t2.attrs.clear();
                t2.vis = parse_quote!(pub);
                let mut fx = Fix::new(self.cfg, &Value::Null);
                fx.visit_item_type_mut(&mut t2);
                self.piece("type", &format!("{m}::{}", t.ident), pretty(&t2.to_token_stream()), json!({}));
            }
            Item::Fn(f) => {
                if !cfg_active(&f.attrs) {
                    return;
                }
                let id = format!("{m}::{}", f.sig.ident);
                if self.dropped(&id) {
                    return;
                }
                let (t, extra) = self.function(&id, &f.attrs, Some(&f.vis), &f.sig, Some(&f.block), false, f.span());
                self.piece("fn", &id, t, extra);
            }
            Item::Impl(i) => self.item_impl(i),
            Item::Trait(t) => {
                if !cfg_active(&t.attrs) {
                    return;
                }
                let id = format!("{m}::{}", t.ident);
                if self.dropped(&id) {
                    return;
                }
                let sc = self.sidecar(&id);
                let (ig, _tg, wc) = t.generics.split_for_impl();
                let sup = &t.supertraits;
                let colon = if sup.is_empty() { "" } else { ":" };
                let mut supt = quote!(#sup).to_string();
                if let Some(s) = sc.and_then(|s| s["super"].as_str()) {
                    supt = s.to_string();
                }
                self.piece("open", &id, format!("pub trait {} {} {} {} {} {{", t.ident, quote!(#ig), if supt.is_empty() { colon } else { ":" }, supt, quote!(#wc)), json!({}));
                if let Some(s) = sc.and_then(|s| s["inject"].as_str()) {
                    self.piece("inject", &id, s.to_string(), json!({}));
                }
                for x in &t.items {
                    match x {
                        syn::TraitItem::Fn(f) => {
                            if !cfg_active(&f.attrs) {
                                continue;
                            }
                            let fid = format!("{id}::{}", f.sig.ident);
                            if self.dropped(&fid) {
                                continue;
                            }
                            let mono = f.default.is_some() && self.sidecar(&fid).map_or(false, |s| s["mono"].is_string());
                            if mono {
                                self.monos.push((fid.clone(), t.ident.to_string(), f.clone()));
                                let mut o = self.sidecar(&fid).unwrap().clone();
                                o.as_object_mut().unwrap().remove("decreases");
                                self.over = Some(o);
                            }
                            let (t, extra) = self.function(&fid, &f.attrs, None, &f.sig, if mono { None } else { f.default.as_ref() }, true, f.span());
                            self.piece("fn", &fid, t, extra);
                        }
                        syn::TraitItem::Type(t) => {
                            self.piece("other", "type", t.to_token_stream().to_string(), json!({}));
                        }
                        _ => self.errors.push(format!("trait item in {id}")),
                    }
                }
                self.piece("close", &id, "}".into(), json!({}));
            }
            Item::Mod(md) => {
                if !cfg_active(&md.attrs) {
                    return;
                }
                if let Some((_, items)) = &md.content {
                    let save = self.module.clone();
                    self.module = format!("{save}::{}", md.ident);
                    self.piece("open", &self.module.clone(), format!("pub mod {} {{ use vstd::prelude::*; use crate::shim::*; use crate::spec::*; use crate::model::*;", md.ident), json!({}));
                    self.items(items, "");
                    self.piece("close", &self.module.clone(), "}".into(), json!({}));
                    self.module = save;
                }
            }
            Item::Macro(_) => {}
            x => self.errors.push(format!("item not extracted: {}", &norm(x)[..60.min(norm(x).len())])),
        }
    }

    fn item_impl(&mut self, i: &syn::ItemImpl) {
        if !cfg_active(&i.attrs) {
            return;
        }
        let m = self.module.clone();
        let ty = norm(&i.self_ty);
        let id = match &i.trait_ {
            Some((_, p, _)) => format!("{m}::{} for {ty}", norm(p)),
            None => format!("{m}::{ty}"),
        };
        if self.dropped(&id) {
            return;
        }
        let is_trait = i.trait_.is_some();
        let sc = self.sidecar(&id);
        let mut i2 = i.clone();
        let mut fx = Fix::new(self.cfg, &Value::Null);
        fx.visit_type_mut(&mut i2.self_ty);
        fx.visit_generics_mut(&mut i2.generics);
        if let Some((_, p, _)) = &mut i2.trait_ {
            fx.visit_path_mut(p);
        }
        let (ig, _tg, wc) = i2.generics.split_for_impl();
        let st = &i2.self_ty;
        let head = match sc.and_then(|s| s["head"].as_str()) {
            Some(h) => h.to_string(),
            None => match &i2.trait_ {
                Some((_, p, _)) => {
                    let mut p = p.clone();
                    // fmt::Display -> Display etc.
                    if p.segments.len() > 1 && ["fmt", "std", "core", "ops"].iter().any(|x| p.segments[0].ident == x) {
                        let last = p.segments.last().unwrap().clone();
                        p = syn::Path { leading_colon: None, segments: [last].into_iter().collect() };
                    }
                    format!("impl {} {} for {} {} {{", quote!(#ig), quote!(#p), quote!(#st), quote!(#wc))
                }
                None => format!("impl {} {} {} {{", quote!(#ig), quote!(#st), quote!(#wc)),
            },
        };
        self.piece("open", &id, head, json!({}));
        if let Some(s) = sc.and_then(|s| s["inject"].as_str()) {
            self.piece("inject", &id, s.to_string(), json!({}));
        } else if let Some((_, p, _)) = &i2.trait_ {
            // a stand-in trait whose meaning for this type is not specified
            let last = p.segments.last().unwrap();
            let arg = match &last.arguments {
                syn::PathArguments::AngleBracketed(a) => a.args.to_token_stream().to_string(),
                _ => String::new(),
            };
            let d = match last.ident.to_string().as_str() {
                "From" => format!("from_rel(t: {arg}, r: Self)"),
                "Into" => format!("into_rel(self, r: {arg})"),
                "TryFrom" => format!("try_from_rel(t: {arg}, r: Result<Self, Self::Error>)"),
                "TryInto" => format!("try_into_rel(self, r: Result<{arg}, Self::Error>)"),
                "FromStr" => "from_str_rel(s: Seq<char>, r: Result<Self, Self::Err>)".to_string(),
                "Default" => "is_default(r: Self)".to_string(),
                "Display" => "shows(&self, s: Seq<char>)".to_string(),
                "AsRef" => format!("as_ref_rel(&self, r: &{arg})"),
                _ => String::new(),
            };
            if !d.is_empty() {
                self.piece("inject", &id, format!("open spec fn {d} -> bool {{ true }}"), json!({}));
            }
        }
        for x in &i.items {
            match x {
                ImplItem::Fn(f) => {
                    if !cfg_active(&f.attrs) {
                        continue;
                    }
                    let fid = format!("{id}::{}", f.sig.ident);
                    if self.dropped(&fid) {
                        continue;
                    }
                    let of = self.mono_for(&i.trait_, &f.sig.ident.to_string());
                    if let (Some((of, _)), None) = (&of, self.sidecar(&fid)) {
                        self.over = Some(self.mono_sidecar(of));
                    }
                    let (t, mut extra) = self.function(&fid, &f.attrs, Some(&f.vis), &f.sig, Some(&f.block), is_trait, f.span());
                    if let Some((of, _)) = of {
                        extra["of"] = json!(of);
                    }
                    self.piece("fn", &fid, t, extra);
                }
                ImplItem::Type(t) => {
                    let mut t2 = t.clone();
                    let mut fx = Fix::new(self.cfg, &Value::Null);
                    fx.visit_type_mut(&mut t2.ty);
                    self.piece("other", "type", t2.to_token_stream().to_string(), json!({}));
                }
                ImplItem::Const(c) => {
                    self.piece("other", "const", c.to_token_stream().to_string(), json!({}));
                }
                _ => self.errors.push(format!("impl item in {id}")),
            }
        }
        let given: BTreeSet<String> = i.items.iter().filter_map(|x| match x { ImplItem::Fn(f) => Some(f.sig.ident.to_string()), _ => None }).collect();
        for (of, tr, f) in self.monos.clone() {
            let name = f.sig.ident.to_string();
            if i.trait_.as_ref().map_or(false, |(_, p, _)| p.segments.last().unwrap().ident == tr.as_str()) && !given.contains(&name) {
                let fid = format!("{id}::{name}");
                self.over = Some(self.mono_sidecar(&of));
                let (t, mut extra) = self.function(&fid, &f.attrs, None, &f.sig, f.default.as_ref(), true, f.span());
                extra["of"] = json!(of);
                self.piece("fn", &fid, t, extra);
            }
        }
        self.piece("close", &id, "}".into(), json!({}));
    }

    /// text of one function with its contract, plus facts about it
    fn function(&mut self, id: &str, _attrs: &[syn::Attribute], _vis: Option<&syn::Visibility>, sig: &syn::Signature, block: Option<&syn::Block>, in_trait: bool, span: proc_macro2::Span) -> (String, Value) {
        let nul = Value::Null;
        let over = self.over.take();
        let sc = over.as_ref().or(self.sidecar(id)).unwrap_or(&nul);
        let known = over.is_some() || self.sidecar(id).is_some();
        let mut sig = sig.clone();
        let mut fx = Fix::new(self.cfg, sc);
        fx.fn_name = sig.ident.to_string();
        let mut pre: Vec<Stmt> = vec![];
        // patterns in arguments: (key, val): (A, B)  ->  vx_argN: (A, B); let (key, val) = vx_argN;
        for (n, a) in sig.inputs.iter_mut().enumerate() {
            match a {
                FnArg::Typed(t) => {
                    if let Pat::Ident(pi) = &mut *t.pat {
                        if pi.mutability.is_some() && pi.by_ref.is_none() {
                            let i = pi.ident.clone();
                            pi.mutability = None;
                            pre.push(parse_quote!(let mut #i = #i;));
                        }
                    } else if let Pat::Wild(_) = &*t.pat {
                        let nm = syn::Ident::new(&format!("vx_arg{n}"), t.pat.span());
                        *t.pat = parse_quote!(#nm);
                    } else {
                        let nm = syn::Ident::new(&format!("vx_arg{n}"), t.pat.span());
                        let p = (*t.pat).clone();
                        *t.pat = parse_quote!(#nm);
                        pre.push(parse_quote!(let #p = #nm;));
                    }
                }
                FnArg::Receiver(_) => {}
            }
        }
        // impl Trait in argument position is a type parameter
        let mut tps: Vec<syn::GenericParam> = vec![];
        for (n, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = a {
                if let syn::Type::ImplTrait(it) = &*t.ty {
                    let nm = syn::Ident::new(&format!("VxA{n}"), t.pat.span());
                    let b = &it.bounds;
                    tps.push(parse_quote!(#nm: #b));
                    t.ty = parse_quote!(#nm);
                }
            }
        }
        sig.generics.params.extend(tps);
        if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
            if r.reference.is_none() && r.mutability.is_some() {
                r.mutability = None;
                fx.self_mut = true;
            }
        }
        fx.visit_signature_mut(&mut sig);
        let mut body_text = None;
        let mut callees: BTreeSet<String> = BTreeSet::new();
        let mut shape = json!({});
        if let Some(b) = block {
            let mut b = b.clone();
            fx.visit_block_mut(&mut b);
            let mut stmts = pre;
            if fx.self_mut {
                stmts.insert(0, parse_quote!(let mut vx_self = self;));
            }
            stmts.extend(b.stmts);
            b.stmts = stmts;
            hints(&mut b, sc, &mut fx);
            collect_callees(&b.to_token_stream(), &mut callees);
            shape = json!({"loops": fx.loops, "closures": fx.closures, "literals": fx.literals});
            let mut t = pretty(&b.to_token_stream());
            t = subst(t, &fx.subst);
            body_text = Some(t);
        }
        let mut text = String::new();
        if let Some(a) = sc["attr"].as_str() {
            text.push_str(a);
            text.push('\n');
        }
        let mut name = sc["name"].as_str().map(|s| s.to_string()).unwrap_or(sig.ident.to_string());
        if let Some(n) = self.cfg["assoc"].get(&name).and_then(|v| v.as_str()) {
            name = n.to_string();
        } else if sig.receiver().is_some() {
            if let Some(n) = self.cfg["methods"].get(&name).and_then(|v| v.as_str()) {
                name = n.to_string();
            }
        }
        let g = &sig.generics;
        let (ig, _, wc) = g.split_for_impl();
        let inputs = &sig.inputs;
        // the result is called r in contracts, vx_r if there is a parameter r
        let rn = if sig.inputs.iter().any(|a| matches!(a, FnArg::Typed(t) if norm(&t.pat) == "r")) { "vx_r" } else { "r" };
        let ret = match (&sig.output, sc["ret_type"].as_str()) {
            (_, Some(t)) => format!(" -> ({rn}: {t})"),
            (syn::ReturnType::Default, _) => String::new(),
            (syn::ReturnType::Type(_, t), _) => format!(" -> ({rn}: {})", quote!(#t)),
        };
        let igs = sc["generics"].as_str().map(|s| s.to_string()).unwrap_or(quote!(#ig).to_string());
        let ins = sc["args"].as_str().map(|s| s.to_string()).unwrap_or(quote!(#inputs).to_string());
        let mut wcs = quote!(#wc).to_string();
        if let Some(w) = sc["where"].as_str() {
            wcs = format!("where {w}");
        }
        let vis = if in_trait { "" } else { "pub " };
        let head = format!("{vis}fn {name}{igs}({ins}){ret} {wcs}");
        let mut contract = String::new();
        for k in ["requires", "ensures", "decreases"] {
            if let Some(c) = sc[k].as_str() {
                contract.push_str(&format!("\n    {k}\n        {}", c.trim().trim_end_matches(',')));
                contract.push(',');
            }
        }
        if let Some(c) = sc["no_unwind"].as_str() {
            contract.push_str(&format!("\n    {c}"));
        }
        text.push_str(&head);
        text.push_str(&contract);
        let sig_text = text.clone();
        match &body_text {
            Some(b) => {
                text.push('\n');
                text.push_str(b);
            }
            None => text.push(';'),
        }
        let extra = json!({
            "sig": sig_text, "body": body_text, "known": known, "callees": callees, "shape": shape,
            "lines": lines(span.start(), span.end()),
            "problems": fx.problems,
            "has_self": sig.receiver().is_some(),
            "in_trait": in_trait,
        });
        (text, extra)
    }
}

fn collect_callees(ts: &TokenStream, out: &mut BTreeSet<String>) {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => collect_callees(&g.stream(), out),
            TokenTree::Ident(id) => {
                let mut j = i + 1;
                // skip turbofish
                if matches!(v.get(j), Some(TokenTree::Punct(p)) if p.as_char() == ':')
                    && matches!(v.get(j + 1), Some(TokenTree::Punct(p)) if p.as_char() == ':')
                    && matches!(v.get(j + 2), Some(TokenTree::Punct(p)) if p.as_char() == '<')
                {
                    let mut depth = 0;
                    j += 2;
                    while let Some(t) = v.get(j) {
                        if let TokenTree::Punct(p) = t {
                            if p.as_char() == '<' {
                                depth += 1
                            }
                            if p.as_char() == '>' {
                                depth -= 1
                            }
                        }
                        j += 1;
                        if depth == 0 {
                            break;
                        }
                    }
                }
                if matches!(v.get(j), Some(TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis) {
                    out.insert(id.to_string());
                }
            }
            _ => {}
        }
    }
}

/// placeholder identifiers `vx_subst_N` are replaced by raw Verus text
fn subst(mut t: String, s: &[(String, String)]) -> String {
    // the token printer may put spaces between the tokens of `name!();`
    for _ in 0..3 {
        for (k, v) in s {
            let mut out = String::new();
            let mut rest = t.as_str();
            while let Some(i) = rest.find(k.as_str()) {
                out.push_str(&rest[..i]);
                rest = &rest[i + k.len()..];
                for want in ['!', '(', ')', ';'] {
                    let r = rest.trim_start();
                    if let Some(r2) = r.strip_prefix(want) {
                        rest = r2;
                    }
                }
                out.push_str(v);
                out.push(' ');
            }
            out.push_str(rest);
            t = out;
        }
    }
    t
}

fn pretty(ts: &TokenStream) -> String {
    fn go(ts: TokenStream, out: &mut String, ind: usize) {
        let mut prev_joint = true;
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        proc_macro2::Delimiter::None => ("", ""),
                    };
                    if !prev_joint {
                        out.push(' ');
                    }
                    out.push_str(a);
                    if a == "{" {
                        let ind = ind + 4;
                        out.push('\n');
                        out.push_str(&" ".repeat(ind));
                        go(g.stream(), out, ind);
                        out.push('\n');
                        out.push_str(&" ".repeat(ind - 4));
                        out.push('}');
                    } else {
                        go(g.stream(), out, ind);
                        out.push_str(b);
                    }
                    prev_joint = false;
                }
                TokenTree::Punct(p) => {
                    if p.as_char() == '\'' {
                        out.push(' ');
                    }
                    out.push(p.as_char());
                    prev_joint = p.spacing() == proc_macro2::Spacing::Joint;
                    if p.as_char() == ';' {
                        out.push('\n');
                        out.push_str(&" ".repeat(ind));
                        prev_joint = true;
                    } else if !prev_joint {
                        out.push(' ');
                        prev_joint = true;
                    }
                }
                t => {
                    let s = t.to_string();
                    if !prev_joint {
                        out.push(' ');
                    }
                    out.push_str(&s);
                    prev_joint = false;
                }
            }
        }
    }
    let mut s = String::new();
    go(ts.clone(), &mut s, 0);
    s
}

// ---------------------------------------------------------------- macro_rules

fn expand(rules: TokenStream, args: TokenStream) -> Result<TokenStream, String> {
    // single rule, parameters separated by commas, no repetitions
    let v: Vec<TokenTree> = rules.into_iter().collect();
    let (pat, body) = match (&v.get(0), &v.get(3)) {
        (Some(TokenTree::Group(p)), Some(TokenTree::Group(b))) => (p.stream(), b.stream()),
        _ => return Err("unsupported macro_rules".into()),
    };
    let mut names = vec![];
    let pv: Vec<TokenTree> = pat.into_iter().collect();
    let mut k = 0;
    while k < pv.len() {
        if let TokenTree::Punct(p) = &pv[k] {
            if p.as_char() == '$' {
                names.push(pv[k + 1].to_string());
                k += 4;
                continue;
            }
        }
        k += 1;
    }
    let mut vals: Vec<TokenStream> = vec![TokenStream::new()];
    for t in args {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ',' => vals.push(TokenStream::new()),
            _ => vals.last_mut().unwrap().extend([t]),
        }
    }
    if vals.len() < names.len() {
        return Err("macro arity".into());
    }
    let map: BTreeMap<String, TokenStream> = names.into_iter().zip(vals).collect();
    fn go(ts: TokenStream, map: &BTreeMap<String, TokenStream>) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Punct(p) if p.as_char() == '$' && i + 1 < v.len() => {
                    if let Some(x) = map.get(&v[i + 1].to_string()) {
                        out.extend(x.clone());
                        i += 2;
                        continue;
                    }
                    out.extend([v[i].clone()]);
                }
                TokenTree::Group(g) => {
                    let mut ng = proc_macro2::Group::new(g.delimiter(), go(g.stream(), map));
                    ng.set_span(g.span());
                    out.extend([TokenTree::Group(ng)]);
                }
                t => out.extend([t.clone()]),
            }
            i += 1;
        }
        out
    }
    Ok(go(body, &map))
}

// ---------------------------------------------------------------- rewriting

struct Fix<'a> {
    cfg: &'a Value,
    sc: &'a Value,
    loops: usize,
    closures: usize,
    literals: usize,
    counters: BTreeMap<String, usize>,
    subst: Vec<(String, String)>,
    problems: Vec<String>,
    self_mut: bool,
    fn_name: String,
}

impl<'a> Fix<'a> {
    fn new(cfg: &'a Value, sc: &'a Value) -> Self {
        Fix { cfg, sc, loops: 0, closures: 0, literals: 0, counters: BTreeMap::new(), subst: vec![], problems: vec![], self_mut: false, fn_name: String::new() }
    }
    fn raw(&mut self, text: String) -> syn::Ident {
        let k = format!("vx_subst_{}_", self.subst.len());
        self.subst.push((k.clone(), text));
        syn::Ident::new(&k, proc_macro2::Span::call_site())
    }
    fn raw_stmt(&mut self, text: String) -> Stmt {
        let k = self.raw(text);
        parse_quote!(#k!();)
    }
    fn count(&mut self, k: &str) -> usize {
        let c = self.counters.entry(k.to_string()).or_insert(0);
        *c += 1;
        *c - 1
    }
    fn loop_spec(&mut self, n: usize, auto: &str, dflt_dec: Option<&str>) -> syn::Ident {
        let s = &self.sc["loops"][n.to_string()];
        let mut t = String::new();
        let inv = s["invariant"].as_str().unwrap_or("").trim().trim_end_matches(',').to_string();
        let mut invs = vec![];
        if !auto.is_empty() {
            invs.push(auto.to_string());
        }
        if !inv.is_empty() {
            invs.push(inv);
        }
        if !invs.is_empty() {
            t.push_str(&format!("\ninvariant {},", invs.join(",\n  ")));
        }
        if let Some(e) = s["invariant_except_break"].as_str() {
            t.push_str(&format!("\ninvariant_except_break {},", e.trim().trim_end_matches(',')));
        }
        if let Some(e) = s["ensures"].as_str() {
            t.push_str(&format!("\nensures {},", e.trim().trim_end_matches(',')));
        }
        match s["decreases"].as_str().or(dflt_dec) {
            Some(d) => t.push_str(&format!("\ndecreases {},\n", d.trim().trim_end_matches(','))),
            None => {}
        }
        self.raw(t)
    }

    fn fmt_args(&mut self, toks: TokenStream, suffix: &str) -> Result<(Vec<Expr>, Expr), String> {
        // EXPR*, "format", args...
        let parser = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
        let args = syn::parse::Parser::parse2(parser, toks).map_err(|e| e.to_string())?;
        let args: Vec<Expr> = args.into_iter().collect();
        let pos = args
            .iter()
            .position(|a| matches!(a, Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(_), .. })))
            .ok_or("no format literal")?;
        let fmt = match &args[pos] {
            Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value() + suffix,
            _ => unreachable!(),
        };
        let mut rest: Vec<Expr> = args[pos + 1..].to_vec();
        for r in rest.iter_mut() {
            self.visit_expr_mut(r);
        }
        let mut lead: Vec<Expr> = args[..pos].to_vec();
        for r in lead.iter_mut() {
            self.visit_expr_mut(r);
        }
        let mut parts: Vec<Expr> = vec![];
        let mut lit = String::new();
        let mut it = fmt.chars().peekable();
        let mut next = 0;
        while let Some(c) = it.next() {
            match c {
                '{' => {
                    if it.peek() == Some(&'{') {
                        it.next();
                        lit.push('{');
                        continue;
                    }
                    let mut name = String::new();
                    loop {
                        match it.next() {
                            Some('}') => break,
                            Some(c) => name.push(c),
                            None => return Err("bad format".into()),
                        }
                    }
                    if name.contains(':') {
                        return Err(format!("format spec {name}"));
                    }
                    if !lit.is_empty() {
                        self.literals += 1;
                        let l = std::mem::take(&mut lit);
                        parts.push(parse_quote!(x_lit(#l)));
                    }
                    let e: Expr = if name.is_empty() {
                        let e = rest.get(next).cloned().ok_or("missing format arg")?;
                        next += 1;
                        e
                    } else if let Ok(n) = name.parse::<usize>() {
                        rest.get(n).cloned().ok_or("missing format arg")?
                    } else {
                        let found = rest.iter().find_map(|a| match a {
                            Expr::Assign(a) if norm(&a.left) == name => Some((*a.right).clone()),
                            _ => None,
                        });
                        match found {
                            Some(e) => e,
                            None => {
                                let i = syn::Ident::new(&name, proc_macro2::Span::call_site());
                                parse_quote!(#i)
                            }
                        }
                    };
                    parts.push(parse_quote!(x_disp(&(#e))));
                }
                '}' => {
                    it.next();
                    lit.push('}');
                }
                c => lit.push(c),
            }
        }
        if !lit.is_empty() {
            self.literals += 1;
            parts.push(parse_quote!(x_lit(#lit)));
        }
        let mut e: Expr = if parts.is_empty() { parse_quote!(x_lit("")) } else { parts.remove(0) };
        for p in parts {
            e = parse_quote!(x_cat(#e, #p));
        }
        Ok((lead, e))
    }

    fn lit_pat(p: &Pat) -> bool {
        match p {
            Pat::Lit(l) => matches!(l.lit, syn::Lit::Str(_)),
            Pat::Or(o) => o.cases.iter().any(Self::lit_pat),
            Pat::Tuple(t) => t.elems.iter().any(Self::lit_pat),
            Pat::TupleStruct(t) => t.elems.iter().any(Self::lit_pat),
            Pat::Reference(r) => Self::lit_pat(&r.pat),
            Pat::Paren(r) => Self::lit_pat(&r.pat),
            _ => false,
        }
    }
    /// expand or-patterns that contain string literals
    fn alternatives(p: &Pat) -> Vec<Pat> {
        if !Self::lit_pat(p) {
            return vec![p.clone()];
        }
        match p {
            Pat::Or(o) => o.cases.iter().flat_map(Self::alternatives).collect(),
            Pat::Paren(r) => Self::alternatives(&r.pat),
            Pat::Tuple(t) => {
                let mut acc: Vec<Vec<Pat>> = vec![vec![]];
                for e in &t.elems {
                    let alts = Self::alternatives(e);
                    acc = acc.into_iter().flat_map(|a| alts.iter().map(move |x| { let mut a = a.clone(); a.push(x.clone()); a })).collect();
                }
                acc.into_iter().map(|v| parse_quote!((#(#v),*))).collect()
            }
            Pat::TupleStruct(t) => {
                let mut acc: Vec<Vec<Pat>> = vec![vec![]];
                for e in &t.elems {
                    let alts = Self::alternatives(e);
                    acc = acc.into_iter().flat_map(|a| alts.iter().map(move |x| { let mut a = a.clone(); a.push(x.clone()); a })).collect();
                }
                let path = &t.path;
                acc.into_iter().map(|v| parse_quote!(#path(#(#v),*))).collect()
            }
            x => vec![x.clone()],
        }
    }
    fn replace_lits(&mut self, p: &mut Pat, guards: &mut Vec<Expr>) {
        match p {
            Pat::Lit(l) => {
                if let syn::Lit::Str(s) = &l.lit {
                    let n = syn::Ident::new(&format!("vx_l{}", self.literals), proc_macro2::Span::call_site());
                    self.literals += 1;
                    guards.push(parse_quote!(x_streq(#n, #s)));
                    *p = parse_quote!(#n);
                }
            }
            Pat::Tuple(t) => t.elems.iter_mut().for_each(|e| self.replace_lits(e, guards)),
            Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|e| self.replace_lits(e, guards)),
            Pat::Reference(r) => self.replace_lits(&mut r.pat, guards),
            _ => {}
        }
    }

    /// match with string literals in its patterns, as a chain of conditions
    fn fix_match(&mut self, m: &syn::ExprMatch) -> Expr {
        let scrut = &m.expr;
        let simple = m.arms.iter().all(|a| Self::alternatives(&a.pat).iter().all(|p| matches!(p, Pat::Lit(_) | Pat::Wild(_) | Pat::Ident(_))));
        if simple {
            let mut chain: Option<Expr> = None;
            for a in m.arms.iter().rev() {
                let body = &a.body;
                let mut conds: Vec<Expr> = vec![];
                let mut bind: Option<Stmt> = None;
                let mut wild = false;
                for p in Self::alternatives(&a.pat) {
                    match p {
                        Pat::Lit(l) => {
                            self.literals += 1;
                            let l = l.lit;
                            conds.push(parse_quote!(x_streq(vx_scrut, #l)))
                        }
                        Pat::Wild(_) => wild = true,
                        Pat::Ident(i) => {
                            // constants are upper case, bindings are not
                            let id = &i.ident;
                            if id.to_string().chars().next().unwrap().is_uppercase() {
                                conds.push(parse_quote!(x_streq(vx_scrut, #id)));
                            } else {
                                bind = Some(parse_quote!(let #id = vx_scrut;));
                                wild = true;
                            }
                        }
                        _ => unreachable!(),
                    }
                }
                let guard = a.guard.as_ref().map(|g| &g.1);
                let cond: Option<Expr> = if wild {
                    guard.map(|g| parse_quote!(#g))
                } else {
                    let mut it = conds.into_iter();
                    let mut c = it.next().unwrap();
                    for x in it {
                        c = parse_quote!(#c || #x);
                    }
                    Some(match guard {
                        Some(g) => parse_quote!((#c) && #g),
                        None => c,
                    })
                };
                let b: syn::Block = match bind {
                    Some(s) => parse_quote!({ #s #body }),
                    None => parse_quote!({ #body }),
                };
                chain = Some(match (cond, chain) {
                    (None, _) => parse_quote!(#b),
                    (Some(c), Some(rest)) => parse_quote!(if #c #b else { #rest }),
                    (Some(c), None) => parse_quote!(if #c #b else { x_unreachable() }),
                });
            }
            let chain = chain.unwrap();
            parse_quote!({ let vx_scrut: &str = #scrut; #chain })
        } else {
            let mut arms: Vec<syn::Arm> = vec![];
            for a in &m.arms {
                for p in Self::alternatives(&a.pat) {
                    let mut p = p.clone();
                    let mut guards = vec![];
                    self.replace_lits(&mut p, &mut guards);
                    if let Some((_, g)) = &a.guard {
                        guards.push((**g).clone());
                    }
                    let body = &a.body;
                    let mut it = guards.into_iter();
                    match it.next() {
                        None => arms.push(parse_quote!(#p => #body,)),
                        Some(mut c) => {
                            for x in it {
                                c = parse_quote!(#c && #x);
                            }
                            arms.push(parse_quote!(#p if #c => #body,))
                        }
                    }
                }
            }
            parse_quote!(match #scrut { #(#arms)* })
        }
    }
}

fn closure_parts(e: &Expr) -> Option<(Pat, Expr)> {
    match e {
        Expr::Closure(c) if c.inputs.len() == 1 => {
            match &c.inputs[0] {
                // an annotated parameter: the annotation may be what decides a type
                Pat::Type(t) if !matches!(&*t.ty, syn::Type::Infer(_)) => {
                    let b = &c.body;
                    Some((parse_quote!(vx_v), parse_quote!({ let #t = vx_v; #b })))
                }
                Pat::Type(t) => Some(((*t.pat).clone(), (*c.body).clone())),
                p => Some((p.clone(), (*c.body).clone())),
            }
        }
        _ => None,
    }
}

struct HasReturn(bool);
impl<'ast> syn::visit::Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true
    }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}
fn has_return(e: &Expr) -> bool {
    let mut h = HasReturn(false);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0
}

impl<'a> VisitMut for Fix<'a> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }

    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // nested items and use statements
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Item(Item::Use(u)) => {
                    out.push(Stmt::Item(Item::Use(u)));
                }
                Stmt::Item(Item::Const(c)) => {
                    let (i, t, e) = (c.ident, c.ty, c.expr);
                    out.push(parse_quote!(let #i: #t = #e;));
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let mac = m.mac.clone();
            let mut e: Expr = Expr::Macro(syn::ExprMacro { attrs: vec![], mac });
            let semi = m.semi_token;
            self.visit_expr_mut(&mut e);
            *s = Stmt::Expr(e, semi);
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        // impl FnMut(I) -> IResult<I, O, E>  is  impl Parser<I, O, E>
        if let syn::Type::ImplTrait(it) = t {
            if let Some(syn::TypeParamBound::Trait(b)) = it.bounds.first() {
                let last = b.path.segments.last().unwrap();
                if let (true, syn::PathArguments::Parenthesized(a)) = (last.ident == "FnMut" || last.ident == "Fn", &last.arguments) {
                    if let syn::ReturnType::Type(_, o) = &a.output {
                        if let syn::Type::Path(p) = &**o {
                            let l = p.path.segments.last().unwrap();
                            if let (true, syn::PathArguments::AngleBracketed(g)) = (l.ident == "IResult", &l.arguments) {
                                let args = &g.args;
                                *t = parse_quote!(impl Parser<#args>);
                            }
                        }
                    }
                }
            }
        }
    }

    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        // std::fmt::Result, fmt::Error, std::collections::..: last segment, shim type of that name
        let full: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let f = full.join("::");
        if let Some(r) = self.cfg["paths"].get(&f).and_then(|v| v.as_str()) {
            let np: syn::Path = syn::parse_str(r).unwrap();
            let args = p.segments.last().unwrap().arguments.clone();
            *p = np;
            if matches!(p.segments.last().unwrap().arguments, syn::PathArguments::None) {
                p.segments.last_mut().unwrap().arguments = args;
            }
        }
        if let Some(r) = self.sc["paths"].get(&f).and_then(|v| v.as_str()) {
            let np: syn::Path = syn::parse_str(r).unwrap();
            let args = p.segments.last().unwrap().arguments.clone();
            *p = np;
            if matches!(p.segments.last().unwrap().arguments, syn::PathArguments::None) {
                p.segments.last_mut().unwrap().arguments = args;
            }
        }
        if self.self_mut && f == "self" {
            *p = parse_quote!(vx_self);
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // --- before descending
        match e {
            Expr::Match(m) => {
                if m.arms.iter().any(|a| Self::lit_pat(&a.pat)) {
                    let ne = self.fix_match(m);
                    *e = ne;
                    self.visit_expr_mut(e);
                    return;
                }
            }
            Expr::ForLoop(f) => {
                let n = self.loops;
                self.loops += 1;
                let mut it = (*f.expr).clone();
                self.visit_expr_mut(&mut it);
                let mut body = f.body.clone();
                self.visit_block_mut(&mut body);
                let itn = syn::Ident::new(&format!("vx_it{n}"), proc_macro2::Span::call_site());
                let auto = format!("vx_it{n}.rem().len() <= vx_seq{n}.len(), vx_it{n}.rem() == vx_seq{n}.skip(vx_seq{n}.len() - vx_it{n}.rem().len())");
                let spec = self.loop_spec(n, &auto, Some(&format!("vx_it{n}.rem().len()")));
                let gh = self.raw_stmt(format!("let ghost vx_seq{n} = vx_it{n}.rem();"));
                let mut pre: Vec<Stmt> = vec![];
                if let Some(t) = self.sc["hints"]["loop_pre"][n.to_string()].as_str() {
                    pre.push(self.raw_stmt(t.to_string()));
                }
                let mut pro: Vec<Stmt> = vec![];
                if let Some(t) = self.sc["hints"]["loop_start"][n.to_string()].as_str() {
                    pro.push(self.raw_stmt(t.to_string()));
                }
                let mut epi: Vec<Stmt> = vec![];
                if let Some(t) = self.sc["hints"]["loop_end"][n.to_string()].as_str() {
                    epi.push(self.raw_stmt(t.to_string()));
                }
                let pat = &f.pat;
                let ghc = self.raw_stmt(format!("let ghost vx_cur{n} = vx_it{n}.rem();"));
                // a trailing expression of the body has type ()
                let mut bstmts = body.stmts.clone();
                if let Some(Stmt::Expr(_, semi)) = bstmts.last_mut() {
                    if semi.is_none() {
                        *semi = Some(Default::default());
                    }
                }
                *e = Expr::Verbatim(quote!({
                    let mut #itn = x_into_iter(#it);
                    #gh
                    #(#pre)*
                    while #itn.x_has_next() #spec!() {
                        #ghc
                        let vx_item = #itn.x_take_next();
                        #(#pro)*
                        match vx_item { #pat => { #(#bstmts)* } }
                        #(#epi)*
                    }
                }));
                return;
            }
            Expr::While(w) => {
                let n = self.loops;
                self.loops += 1;
                let spec = self.loop_spec(n, "", None);
                if let Expr::Let(l) = &*w.cond {
                    let pat = (*l.pat).clone();
                    let mut ex = (*l.expr).clone();
                    self.visit_expr_mut(&mut ex);
                    let mut body = w.body.clone();
                    self.visit_block_mut(&mut body);
                    let (pro, epi) = self.loop_hints(n);
                    let mut bstmts = body.stmts.clone();
                    if let Some(Stmt::Expr(_, semi)) = bstmts.last_mut() {
                        if semi.is_none() {
                            *semi = Some(Default::default());
                        }
                    }
                    let nn = syn::Ident::new(&format!("vx_n{n}"), proc_macro2::Span::call_site());
                    let mut hd: Vec<Stmt> = vec![];
                    if let Some(t) = self.sc["hints"]["loop_head"][n.to_string()].as_str() {
                        hd.push(self.raw_stmt(t.to_string()));
                    }
                    *e = Expr::Verbatim(quote!(loop #spec!() {
                        #(#hd)*
                        let #nn = #ex;
                        #(#pro)*
                        match #nn { #pat => { #(#bstmts)* #(#epi)* } _ => { break; } }
                    }));
                    return;
                }
                let mut cond = (*w.cond).clone();
                self.visit_expr_mut(&mut cond);
                let mut body = w.body.clone();
                self.visit_block_mut(&mut body);
                let (pro, epi) = self.loop_hints(n);
                let mut bstmts = body.stmts.clone();
                if let Some(Stmt::Expr(_, semi)) = bstmts.last_mut() {
                    if semi.is_none() {
                        *semi = Some(Default::default());
                    }
                }
                *e = Expr::Verbatim(quote!(while #cond #spec!() { #(#pro)* #(#bstmts)* #(#epi)* }));
                return;
            }
            Expr::Loop(w) => {
                let n = self.loops;
                self.loops += 1;
                let spec = self.loop_spec(n, "", None);
                let mut body = w.body.clone();
                self.visit_block_mut(&mut body);
                let (pro, epi) = self.loop_hints(n);
                let bstmts = &body.stmts;
                *e = Expr::Verbatim(quote!(loop #spec!() { #(#pro)* #(#bstmts)* #(#epi)* }));
                return;
            }
            Expr::Reference(r) => {
                // &x[a..b]
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(rg) = &*ix.index {
                        let mut base = (*ix.expr).clone();
                        self.visit_expr_mut(&mut base);
                        let mut a: Option<Expr> = rg.start.as_ref().map(|x| (**x).clone());
                        let mut b: Option<Expr> = rg.end.as_ref().map(|x| (**x).clone());
                        if let Some(a) = &mut a {
                            self.visit_expr_mut(a)
                        }
                        if let Some(b) = &mut b {
                            self.visit_expr_mut(b)
                        }
                        if matches!(rg.limits, syn::RangeLimits::HalfOpen(_)) {
                            *e = match (a, b) {
                                (Some(a), Some(b)) => parse_quote!(x_slice(#base, #a, #b)),
                                (Some(a), None) => parse_quote!(x_slice_from(#base, #a)),
                                (None, Some(b)) => parse_quote!(x_slice(#base, 0, #b)),
                                (None, None) => parse_quote!(x_slice_from(#base, 0)),
                            };
                            return;
                        }
                        self.problems.push("inclusive slice".into());
                    }
                }
            }
            Expr::Macro(m) => {
                let name = norm(&m.mac.path);
                let toks = m.mac.tokens.clone();
                match name.as_str() {
                    "write" | "write_crlf" | "writeln" => {
                        let sfx = match name.as_str() {
                            "write" => "",
                            "writeln" => "\n",
                            _ => "\r\n",
                        };
                        match self.fmt_args(toks, sfx) {
                            Ok((lead, txt)) if lead.len() == 1 => {
                                let w = &lead[0];
                                *e = parse_quote!(#w.x_write_str(#txt));
                            }
                            Ok(_) => self.problems.push("write! without target".into()),
                            Err(er) => self.problems.push(format!("{name}!: {er}")),
                        }
                        return;
                    }
                    "format" => {
                        match self.fmt_args(toks, "") {
                            Ok((_, txt)) => *e = txt,
                            Err(er) => self.problems.push(format!("format!: {er}")),
                        }
                        return;
                    }
                    "print" | "println" | "print_crlf" | "eprintln" | "eprint" | "dbg" => {
                        *e = parse_quote!(x_print());
                        return;
                    }
                    "vec" => {
                        let parser = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
                        if let Ok(args) = syn::parse::Parser::parse2(parser, toks) {
                            let mut args: Vec<Expr> = args.into_iter().collect();
                            for a in args.iter_mut() {
                                self.visit_expr_mut(a);
                            }
                            *e = parse_quote!(vec![#(#args),*]);
                        }
                        return;
                    }
                    "matches" => {
                        return;
                    }
                    n if n.starts_with("vx_subst_") => return,
                    n => self.problems.push(format!("macro {n}!")),
                }
                return;
            }
            _ => {}
        }

        // --- map.entry(k).and_modify(|v| b).or_insert(e), map.entry(k).or_insert(e) and its relatives
        if let Expr::MethodCall(mc) = e {
            let entry_of = |x: &Expr| -> Option<(Expr, Expr)> {
                match x {
                    Expr::MethodCall(m) if m.method == "entry" && m.args.len() == 1 => Some(((*m.receiver).clone(), m.args[0].clone())),
                    _ => None,
                }
            };
            let dflt: Option<Expr> = match (mc.method.to_string().as_str(), mc.args.len()) {
                ("or_insert", 1) => Some(mc.args[0].clone()),
                ("or_insert_with", 1) => match closure_parts(&mc.args[0]) {
                    Some((_, b)) => Some(b),
                    None => { let f = &mc.args[0]; Some(parse_quote!(#f())) }
                },
                ("or_default", 0) => Some(parse_quote!(Default::default())),
                _ => None,
            };
            let dflt = match (&dflt, &mc.args.first()) {
                (_, Some(Expr::Closure(c))) if mc.method == "or_insert_with" => Some((*c.body).clone()),
                _ => dflt,
            };
            if let Some(d) = dflt {
                if let Some((m, k)) = entry_of(&mc.receiver) {
                    let mut x: Expr = parse_quote!(#m.x_entry_or(#k, #d));
                    self.visit_expr_mut(&mut x);
                    *e = x;
                    return;
                }
                if let Expr::MethodCall(am) = &*mc.receiver {
                    if let (true, Some((m, k)), Some((p, b))) = (am.method == "and_modify", entry_of(&am.receiver), am.args.first().and_then(closure_parts)) {
                        let mut x: Expr = parse_quote!({
                            let vx_k = #k;
                            let vx_f = match #m.get_mut(&vx_k) { Some(#p) => { #b; true } None => false };
                            let vx_e = #d;
                            if !vx_f { #m.insert(vx_k, vx_e); }
                        });
                        self.visit_expr_mut(&mut x);
                        *e = x;
                        return;
                    }
                }
            }
        }

        // --- Option combinators inlined by their definition, where the sidecar says so
        if let Expr::MethodCall(mc) = e {
            let name = mc.method.to_string();
            self.visit_expr_mut(&mut mc.receiver);
            let n = self.count(&name);
            let how = self.sc["inline"][format!("{name}#{n}")]
                .as_str()
                .or_else(|| self.sc["inline"][&name].as_str())
                .or_else(|| self.cfg["inline"][&name].as_str())
                .unwrap_or("")
                .to_string();
            if !how.is_empty() && how != "no" {
                let recv = (*mc.receiver).clone();
                let mut args: Vec<Expr> = mc.args.iter().cloned().collect();
                let apply = |fx: &mut Self, f: &Expr, v: Expr| -> (Pat, Expr) {
                    match closure_parts(f) {
                        Some((p, b)) => {
                            if has_return(&b) {
                                fx.problems.push(format!("return inside closure of {name}"));
                            }
                            let mut b = b;
                            fx.visit_expr_mut(&mut b);
                            (p, b)
                        }
                        None => {
                            let mut f = f.clone();
                            fx.visit_expr_mut(&mut f);
                            (parse_quote!(vx_v), parse_quote!(#f(#v)))
                        }
                    }
                };
                let v: Expr = parse_quote!(vx_v);
                let r: Option<Expr> = match (how.as_str(), name.as_str(), args.len()) {
                    ("option", "map", 1) => {
                        let (p, b) = apply(self, &args[0].clone(), v);
                        Some(Expr::Verbatim(quote!((match #recv { Some(#p) => Some(#b), None => None }))))
                    }
                    ("option", "and_then", 1) => {
                        let (p, b) = apply(self, &args[0].clone(), v);
                        Some(Expr::Verbatim(quote!((match #recv { Some(#p) => #b, None => None }))))
                    }
                    ("option", "or_else", 1) => {
                        let b = match &args[0] {
                            Expr::Closure(c) if c.inputs.is_empty() => {
                                if has_return(&c.body) {
                                    self.problems.push("return inside closure of or_else".into());
                                }
                                let mut b = (*c.body).clone();
                                self.visit_expr_mut(&mut b);
                                b
                            }
                            f => {
                                let f = f.clone();
                                parse_quote!(#f())
                            }
                        };
                        Some(Expr::Verbatim(quote!((match #recv { Some(vx_v) => Some(vx_v), None => #b }))))
                    }
                    ("option", "unwrap_or", 1) => {
                        self.visit_expr_mut(&mut args[0]);
                        let a = &args[0];
                        Some(Expr::Verbatim(quote!((match #recv { Some(vx_v) => vx_v, None => #a }))))
                    }
                    ("option", "ok_or", 1) => {
                        self.visit_expr_mut(&mut args[0]);
                        let a = &args[0];
                        Some(Expr::Verbatim(quote!((match #recv { Some(vx_v) => Ok(vx_v), None => Err(#a) }))))
                    }
                    ("option", "unwrap_or_default", 0) => Some(Expr::Verbatim(quote!((match #recv { Some(vx_v) => vx_v, None => Default::x_default() })))),
                    ("option", "flatten", 0) => Some(Expr::Verbatim(quote!((match #recv { Some(vx_v) => vx_v, None => None })))),
                    ("option", "transpose", 0) => Some(Expr::Verbatim(quote!((match #recv { Some(Ok(vx_v)) => Ok(Some(vx_v)), Some(Err(vx_e)) => Err(vx_e), None => Ok(None) })))),
                    ("result", "ok", 0) => Some(Expr::Verbatim(quote!((match #recv { Ok(vx_v) => Some(vx_v), Err(_) => None })))),
                    ("result", "map", 1) => {
                        let (p, b) = apply(self, &args[0].clone(), v);
                        Some(Expr::Verbatim(quote!((match #recv { Ok(#p) => Ok(#b), Err(vx_e) => Err(vx_e) }))))
                    }
                    ("result", "map_err", 1) => {
                        let (p, b) = apply(self, &args[0].clone(), v);
                        Some(Expr::Verbatim(quote!((match #recv { Ok(vx_o) => Ok(vx_o), Err(#p) => Err(#b) }))))
                    }
                    ("result", "and_then", 1) => {
                        let (p, b) = apply(self, &args[0].clone(), v);
                        Some(Expr::Verbatim(quote!((match #recv { Ok(#p) => #b, Err(vx_e) => Err(vx_e) }))))
                    }
                    _ => None,
                };
                match r {
                    Some(x) => {
                        *e = x;
                        return;
                    }
                    None => self.problems.push(format!("cannot inline {name}")),
                }
            }
            if let Some(t) = &mut mc.turbofish {
                self.visit_angle_bracketed_generic_arguments_mut(t);
            }
            for a in mc.args.iter_mut() {
                // a constructor used as a function
                if let (true, Expr::Path(p)) = (name == "map", &*a) {
                    let up = |x: Option<&syn::PathSegment>| x.map_or(false, |s| s.ident.to_string().starts_with(char::is_uppercase));
                    let k = p.path.segments.len();
                    if k >= 2 && up(p.path.segments.iter().nth(k - 1)) && up(p.path.segments.iter().nth(k - 2)) {
                        *a = parse_quote!(|vx_x| #p(vx_x));
                    }
                }
                self.visit_expr_mut(a);
            }
            if let Some(r) = self.sc["methods"].get(&name).or_else(|| self.cfg["methods"].get(&name)).and_then(|v| v.as_str()) {
                mc.method = syn::Ident::new(r, mc.method.span());
            }
            if let Some(extra) = self.sc["extra_args"].get(format!("{name}#{n}")).and_then(|v| v.as_str()) {
                let k = self.raw(extra.to_string());
                mc.args.push(Expr::Verbatim(quote!(#k!())));
            }
            return;
        }

        if let Expr::Closure(c) = e {
            let n = self.closures;
            self.closures += 1;
            let mut body = (*c.body).clone();
            self.visit_expr_mut(&mut body);
            let mut inputs: Vec<Pat> = c.inputs.iter().cloned().collect();
            let ann = &self.sc["closures"][n.to_string()];
            if let Some(t) = ann.as_str() {
                let mv = c.capture.map(|_| "move ").unwrap_or("");
                let mut pre: Vec<Stmt> = vec![];
                // the annotation names the parameters vx_p0, vx_p1, ...; bind the source patterns to them
                for (k, p) in inputs.iter().enumerate() {
                    let pn = syn::Ident::new(&format!("vx_p{k}"), proc_macro2::Span::call_site());
                    let p = match p {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    pre.push(parse_quote!(let #p = #pn;));
                }
                let head = self.raw(format!("{mv}{t}"));
                *e = Expr::Verbatim(quote!(#head!() { #(#pre)* #body }));
            } else {
                for p in inputs.iter_mut() {
                    self.visit_pat_mut(p);
                }
                let mv = c.capture;
                *e = Expr::Verbatim(quote!(#mv |#(#inputs),*| { #body }));
            }
            return;
        }

        let comb_call = matches!(e, Expr::Call(c) if matches!(&*c.func, Expr::Call(_)));
        visit_mut::visit_expr_mut(self, e);

        // --- after descending
        match e {
            Expr::Call(c) => {
                let fname = norm(&c.func);
                let short = fname.rsplit("::").next().unwrap().split('<').next().unwrap().to_string();
                let n = self.count(&format!("call {short}"));
                if let Some(extra) = self.sc["extra_args"].get(format!("{short}#{n}")).and_then(|v| v.as_str()) {
                    let k = self.raw(extra.to_string());
                    c.args.push(Expr::Verbatim(quote!(#k!())));
                }
                // parser combinators: comb(..)(input)  ->  comb(..).parse(input)
                if comb_call {
                    let f = &c.func;
                    let a = &c.args;
                    *e = parse_quote!(#f.x_parse(#a));
                    return;
                }
                // the arguments of a call named by a proof hint
                if let Some(t) = self.sc["hints"]["call"].get(format!("{short}#{n}")).and_then(|v| v.as_str()) {
                    let t = t.to_string();
                    let mut lets: Vec<Expr> = vec![];
                    for (k, a) in c.args.iter_mut().enumerate() {
                        let nm = syn::Ident::new(&format!("vx_a{k}"), proc_macro2::Span::call_site());
                        lets.push(Expr::Verbatim(quote!(let #nm = #a;)));
                        *a = parse_quote!(#nm);
                    }
                    let h = self.raw(t);
                    let c = c.clone();
                    *e = Expr::Verbatim(quote!({ #(#lets)* #h!(); #c }));
                } else if let Some(t) = self.sc["hints"]["called"].get(format!("{short}#{n}")).and_then(|v| v.as_str()) {
                    let h = self.raw(t.to_string());
                    let c = c.clone();
                    *e = Expr::Verbatim(quote!({ let vx_r = #c; #h!(); vx_r }));
                }
            }
            Expr::Binary(b) => {
                let is_num = |x: &Expr| matches!(x, Expr::Lit(l) if matches!(l.lit, syn::Lit::Int(_) | syn::Lit::Char(_) | syn::Lit::Bool(_)));
                let (l, r) = (&b.left, &b.right);
                if is_num(l) || is_num(r) {
                    return;
                }
                match b.op {
                    syn::BinOp::Eq(_) => *e = parse_quote!(x_eq(&(#l), &(#r))),
                    syn::BinOp::Ne(_) => *e = parse_quote!((!x_eq(&(#l), &(#r)))),
                    _ => {}
                }
            }
            Expr::Unary(u) => {
                if matches!(u.op, syn::UnOp::Neg(_)) && !matches!(&*u.expr, Expr::Lit(_)) {
                    let x = &u.expr;
                    *e = parse_quote!(x_neg(#x));
                }
            }
            Expr::Path(p) => {
                if let Some(t) = self.sc["values"].get(norm(&p.path)).and_then(|v| v.as_str()) {
                    let k = self.raw(t.to_string());
                    *e = Expr::Verbatim(quote!(#k!()));
                    return;
                }
                // Type::from(..) and the like name the stand-in traits
                if p.path.segments.len() > 1 {
                    let last = p.path.segments.last_mut().unwrap();
                    if let Some(n) = self.cfg["assoc"].get(last.ident.to_string()).and_then(|v| v.as_str()) {
                        last.ident = syn::Ident::new(n, last.ident.span());
                    }
                }
            }
            Expr::Lit(l) => {
                if let syn::Lit::Str(_) = l.lit {
                    self.literals += 1;
                }
            }
            _ => {}
        }
    }
}

impl<'a> Fix<'a> {
    fn loop_hints(&mut self, n: usize) -> (Vec<Stmt>, Vec<Stmt>) {
        let mut pro: Vec<Stmt> = vec![];
        if let Some(t) = self.sc["hints"]["loop_start"][n.to_string()].as_str() {
            pro.push(self.raw_stmt(t.to_string()));
        }
        let mut epi: Vec<Stmt> = vec![];
        if let Some(t) = self.sc["hints"]["loop_end"][n.to_string()].as_str() {
            epi.push(self.raw_stmt(t.to_string()));
        }
        (pro, epi)
    }
}

/// proof text at entry, exit and after named lets
fn hints(b: &mut syn::Block, sc: &Value, fx: &mut Fix) {
    let mut out: Vec<Stmt> = vec![];
    if fx.literals > 0 && sc["nolits"].is_null() {
        let t = "proof { crate::lits::all(); }".to_string();
        out.push(fx.raw_stmt(t));
    }
    if let Some(t) = sc["hints"]["entry"].as_str() {
        out.push(fx.raw_stmt(t.to_string()));
    }
    let n = b.stmts.len();
    for (k, s) in b.stmts.drain(..).enumerate() {
        let mut name = None;
        if let Stmt::Local(l) = &s {
            let p = match &l.pat {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            name = Some(norm(&p));
        }
        let last = k + 1 == n;
        // a chain of method calls at the end, one call per statement
        let mut s = s;
        if last && sc["chain"].is_string() {
            if let Stmt::Expr(e, None) = &s {
                let mut e = e.clone();
                let mut lets: Vec<Expr> = vec![];
                while let Expr::MethodCall(mc) = &e {
                    if !matches!(&*mc.receiver, Expr::MethodCall(_) | Expr::Path(_)) {
                        break;
                    }
                    let r = (*mc.receiver).clone();
                    lets.push(e.clone());
                    e = r;
                }
                lets.reverse();
                let m = lets.len();
                for (j, l) in lets.into_iter().enumerate() {
                    let mut l = l;
                    if j > 0 {
                        if let Expr::MethodCall(mc) = &mut l {
                            let prev = syn::Ident::new(&format!("vx_c{}", j - 1), proc_macro2::Span::call_site());
                            mc.receiver = parse_quote!(#prev);
                        }
                    }
                    if j + 1 == m {
                        s = Stmt::Expr(l, None);
                    } else {
                        let name = syn::Ident::new(&format!("vx_c{j}"), proc_macro2::Span::call_site());
                        out.push(Stmt::Expr(Expr::Verbatim(quote!(let #name = #l;)), None));
                    }
                }
            }
        }
        if last && sc["hints"]["exit"].is_string() {
            if let Stmt::Expr(e, None) = &s {
                let t = sc["hints"]["exit"].as_str().unwrap().to_string();
                out.push(Stmt::Expr(Expr::Verbatim(quote!(let vx_ret = #e;)), None));
                out.push(fx.raw_stmt(t));
                out.push(Stmt::Expr(parse_quote!(vx_ret), None));
                continue;
            }
        }
        let ends = last && matches!(&s, Stmt::Expr(e, Some(_)) if !matches!(e, Expr::Return(_)));
        out.push(s);
        if ends {
            // a function without a value
            if let Some(t) = sc["hints"]["exit"].as_str() {
                out.push(fx.raw_stmt(t.to_string()));
            }
        }
        if let Some(n) = name {
            if let Some(t) = sc["hints"]["after"][&n].as_str() {
                out.push(fx.raw_stmt(t.to_string()));
            }
        }
    }
    b.stmts = out;
}
