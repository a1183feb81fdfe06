//! Mechanical extraction of functions and types from the repository's current
//! sources, for verification. Reads a unit configuration, parses the named
//! source files, applies the rewrites described in DESIGN.md and prints all
//! resulting items as JSON.

mod inline;
mod print;
mod rewrite;
mod scope;

use proc_macro2::Span;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use syn::spanned::Spanned;
use syn::*;

pub struct Config {
    pub features: Vec<String>,
    /// canonical path prefix -> replacement path
    pub paths: BTreeMap<String, String>,
    pub options: Value,
}

impl Config {
    pub fn opt_list(&self, key: &str) -> Vec<String> {
        self.options[key].as_array().map(|a| {
            a.iter().map(|v| v.as_str().unwrap().to_string()).collect()
        }).unwrap_or_default()
    }
}

pub fn toks<T: ToTokens>(t: &T) -> String {
    print::flat(t.to_token_stream())
}

/// Evaluate a cfg predicate with the configured features; `test` and unknown
/// predicates other than unix are false.
fn cfg_eval(meta: &Meta, features: &[String]) -> bool {
    match meta {
        Meta::Path(p) => p.is_ident("unix"),
        Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                    return features.contains(&s.value());
                }
            }
            false
        }
        Meta::List(l) => {
            let inner = l.parse_args_with(
                punctuated::Punctuated::<Meta, Token![,]>::parse_terminated
            ).unwrap_or_default();
            if l.path.is_ident("not") {
                !inner.iter().any(|m| cfg_eval(m, features))
            } else if l.path.is_ident("all") {
                inner.iter().all(|m| cfg_eval(m, features))
            } else if l.path.is_ident("any") {
                inner.iter().any(|m| cfg_eval(m, features))
            } else {
                false
            }
        }
    }
}

pub fn cfg_on(attrs: &[Attribute], features: &[String]) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            if let Meta::List(l) = &a.meta {
                if let Ok(m) = l.parse_args::<Meta>() {
                    return cfg_eval(&m, features);
                }
            }
            false
        } else {
            true
        }
    })
}

/// Collect `use` declarations as name -> full path.
fn collect_use(tree: &UseTree, prefix: &mut Vec<String>, map: &mut BTreeMap<String, String>) {
    match tree {
        UseTree::Path(p) => {
            prefix.push(p.ident.to_string());
            collect_use(&p.tree, prefix, map);
            prefix.pop();
        }
        UseTree::Name(n) => {
            let name = n.ident.to_string();
            if name == "self" {
                if let Some(last) = prefix.last() {
                    map.insert(last.clone(), prefix.join("::"));
                }
            } else {
                let mut full = prefix.clone();
                full.push(name.clone());
                map.insert(name, full.join("::"));
            }
        }
        UseTree::Rename(r) => {
            let mut full = prefix.clone();
            if r.ident != "self" {
                full.push(r.ident.to_string());
            }
            map.insert(r.rename.to_string(), full.join("::"));
        }
        UseTree::Group(g) => {
            for t in &g.items {
                collect_use(t, prefix, map);
            }
        }
        UseTree::Glob(_) => {}
    }
}

pub fn collect_item_use(u: &ItemUse, map: &mut BTreeMap<String, String>) {
    collect_use(&u.tree, &mut Vec::new(), map);
}

fn lines(s: Span) -> Value {
    json!([s.start().line, s.end().line])
}

struct Ctx<'a> {
    cfg: &'a Config,
    file: String,
    module: String,
    uses: BTreeMap<String, String>,
    locals: Vec<String>,
    helpers: &'a BTreeMap<String, inline::Helper>,
    out: Vec<Value>,
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = Vec::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Meta::List(l) = &a.meta {
                if let Ok(ps) = l.parse_args_with(
                    punctuated::Punctuated::<Path, Token![,]>::parse_terminated)
                {
                    for p in ps {
                        v.push(p.segments.last().unwrap().ident.to_string());
                    }
                }
            }
        }
    }
    v
}

impl<'a> Ctx<'a> {
    fn rewriter(&self) -> rewrite::Rewriter<'a> {
        rewrite::Rewriter::new(self.cfg, self.uses.clone(), self.locals.clone(), self.helpers)
    }

    fn items(&mut self, items: &[Item]) {
        for it in items {
            self.item(it);
        }
    }

    fn func(&mut self, imp: Option<&ItemImpl>, trait_name: Option<String>,
            sig: &Signature, block: &Block, span: Span, key: String)
    {
        let mut sig = sig.clone();
        let mut block = block.clone();
        let mut rw = self.rewriter();
        rw.caller = Some(sig.clone());
        rw.signature(&mut sig);
        rw.block(&mut block);
        if imp.is_none() {
            if let Some(w) = self.cfg.options["worlds"][&sig.ident.to_string()].as_array() {
                for x in w {
                    let id = Ident::new(x[0].as_str().unwrap(), Span::call_site());
                    let ty: Type = parse_str(x[1].as_str().unwrap()).expect("parameter type");
                    sig.inputs.push(parse_quote!(#id: #ty));
                }
            }
        }
        let info = scope::analyse(&sig, &block);
        let mut inputs = Vec::new();
        for a in &sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    inputs.push(json!({"self": true, "ref": r.reference.is_some(),
                        "mut": r.mutability.is_some(), "text": toks(r),
                        "typed": r.colon_token.is_some()}));
                }
                FnArg::Typed(t) => {
                    let (name, mutable) = match &*t.pat {
                        Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()),
                        p => (toks(p), false),
                    };
                    inputs.push(json!({"self": false, "name": name, "mut": mutable,
                                       "pat": toks(&*t.pat), "ty": toks(&*t.ty)}));
                }
            }
        }
        let output = match &sig.output {
            ReturnType::Default => Value::Null,
            ReturnType::Type(_, t) => json!(toks(&**t)),
        };
        let impl_v = match imp {
            None => Value::Null,
            Some(i) => {
                let mut i2 = i.clone();
                rw.generics(&mut i2.generics);
                rw.ty(&mut i2.self_ty);
                let tr = i.trait_.as_ref().map(|(_, p, _)| {
                    let mut t = Type::Path(TypePath { qself: None, path: p.clone() });
                    rw.ty(&mut t);
                    toks(&t)
                });
                json!({
                    "generics": toks(&i2.generics.params),
                    "where": i2.generics.where_clause.as_ref()
                        .map(|w| toks(&w.predicates)).unwrap_or_default(),
                    "self_ty": toks(&*i2.self_ty),
                    "trait": tr,
                })
            }
        };
        let tparams: Vec<Value> = sig.generics.params.iter().map(|p| match p {
            GenericParam::Type(t) => json!({"kind": "type", "name": t.ident.to_string(), "text": toks(p)}),
            GenericParam::Lifetime(t) => json!({"kind": "lifetime", "name": t.lifetime.to_string(), "text": toks(p)}),
            GenericParam::Const(t) => json!({"kind": "const", "name": t.ident.to_string(), "text": toks(p)}),
        }).collect();
        self.out.push(json!({
            "kind": "fn",
            "key": key,
            "module": self.module,
            "name": sig.ident.to_string(),
            "impl": impl_v,
            "trait_default": trait_name,
            "generics": tparams,
            "where": sig.generics.where_clause.as_ref()
                .map(|w| toks(&w.predicates)).unwrap_or_default(),
            "inputs": inputs,
            "output": output,
            "body": print::block(&block),
            "loops": info.loops,
            "calls": info.calls,
            "method_calls": info.method_calls,
            "has_return": info.has_return,
            "has_try": info.has_try,
            "stmts": block.stmts.len(),
            "literals": rw.literals.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(),
            "unsupported": rw.unsupported,
            "rewrites": rw.applied,
            "file": self.file,
            "lines": lines(span),
        }));
    }

    fn item(&mut self, it: &Item) {
        let feats = &self.cfg.features;
        match it {
            Item::Fn(f) => {
                if !cfg_on(&f.attrs, feats) { return; }
                let key = format!("{}::{}", self.module, f.sig.ident);
                self.func(None, None, &f.sig, &f.block, f.span(), key);
            }
            Item::Impl(i) => {
                if !cfg_on(&i.attrs, feats) { return; }
                let self_name = match &*i.self_ty {
                    Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    t => toks(t),
                };
                let prefix = match &i.trait_ {
                    None => format!("{}::{}", self.module, self_name),
                    Some((_, p, _)) => {
                        let mut t = Type::Path(TypePath { qself: None, path: p.clone() });
                        self.rewriter().ty(&mut t);
                        let mut st = (*i.self_ty).clone();
                        self.rewriter().ty(&mut st);
                        let sn = match &st {
                            Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                            t => toks(t).replace(' ', ""),
                        };
                        format!("{}::<{} for {}>", self.module, toks(&t).replace(' ', ""), sn)
                    }
                };
                for ii in &i.items {
                    if let ImplItem::Fn(f) = ii {
                        if !cfg_on(&f.attrs, feats) { continue; }
                        let key = format!("{}::{}", prefix, f.sig.ident);
                        self.func(Some(i), None, &f.sig, &f.block, f.span(), key);
                    }
                }
            }
            Item::Trait(t) => {
                if !cfg_on(&t.attrs, feats) { return; }
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        if !cfg_on(&f.attrs, feats) { continue; }
                        let key = format!("{}::{}::{}", self.module, t.ident, f.sig.ident);
                        if let Some(b) = &f.default {
                            self.func(None, Some(t.ident.to_string()), &f.sig, b, f.span(), key);
                        }
                    }
                }
            }
            Item::Struct(s) => {
                if !cfg_on(&s.attrs, feats) { return; }
                let mut s2 = s.clone();
                let mut rw = self.rewriter();
                rw.generics(&mut s2.generics);
                let mut fields = Vec::new();
                for f in s2.fields.iter_mut() {
                    if !cfg_on(&f.attrs, feats) { continue; }
                    rw.ty(&mut f.ty);
                    fields.push(json!({"name": f.ident.as_ref().map(|i| i.to_string()),
                                       "ty": toks(&f.ty)}));
                }
                self.out.push(json!({
                    "kind": "struct", "key": format!("{}::{}", self.module, s.ident),
                    "module": self.module,
                    "name": s.ident.to_string(), "generics": toks(&s2.generics.params),
                    "where": s2.generics.where_clause.as_ref().map(|w| toks(&w.predicates)).unwrap_or_default(),
                    "tuple": matches!(s.fields, Fields::Unnamed(_)),
                    "unit": matches!(s.fields, Fields::Unit),
                    "fields": fields, "derives": derives(&s.attrs),
                    "unsupported": rw.unsupported,
                    "file": self.file, "lines": lines(s.span()),
                }));
            }
            Item::Type(t) => {
                if !cfg_on(&t.attrs, feats) { return; }
                let mut t2 = t.clone();
                let mut rw = self.rewriter();
                rw.generics(&mut t2.generics);
                rw.ty(&mut t2.ty);
                self.out.push(json!({
                    "kind": "alias", "key": format!("{}::{}", self.module, t.ident),
                    "module": self.module,
                    "name": t.ident.to_string(), "generics": toks(&t2.generics.params),
                    "ty": toks(&t2.ty), "unsupported": rw.unsupported,
                    "file": self.file, "lines": lines(t.span()),
                }));
            }
            Item::Enum(e) => {
                if !cfg_on(&e.attrs, feats) { return; }
                let mut e2 = e.clone();
                let mut rw = self.rewriter();
                rw.generics(&mut e2.generics);
                let mut variants = Vec::new();
                for v in e2.variants.iter_mut() {
                    if !cfg_on(&v.attrs, feats) { continue; }
                    let mut fields = Vec::new();
                    for f in v.fields.iter_mut() {
                        rw.ty(&mut f.ty);
                        fields.push(json!({"name": f.ident.as_ref().map(|i| i.to_string()),
                                           "ty": toks(&f.ty)}));
                    }
                    variants.push(json!({"name": v.ident.to_string(), "fields": fields}));
                }
                self.out.push(json!({
                    "kind": "enum", "key": format!("{}::{}", self.module, e.ident),
                    "module": self.module,
                    "name": e.ident.to_string(), "generics": toks(&e2.generics.params),
                    "where": e2.generics.where_clause.as_ref().map(|w| toks(&w.predicates)).unwrap_or_default(),
                    "variants": variants, "derives": derives(&e.attrs),
                    "unsupported": rw.unsupported,
                    "file": self.file, "lines": lines(e.span()),
                }));
            }
            Item::Const(c) => {
                if !cfg_on(&c.attrs, feats) { return; }
                self.constant(&c.ident, &c.ty, &c.expr, c.span());
            }
            Item::Static(c) => {
                if !cfg_on(&c.attrs, feats) { return; }
                self.constant(&c.ident, &c.ty, &c.expr, c.span());
            }
            Item::Mod(m) => {
                if !cfg_on(&m.attrs, feats) { return; }
                if let Some((_, items)) = &m.content {
                    let items = items.clone();
                    self.items(&items);
                }
            }
            _ => {}
        }
    }

    fn constant(&mut self, ident: &Ident, ty: &Type, expr: &Expr, span: Span) {
        let mut rw = self.rewriter();
        let mut ty = ty.clone();
        let mut expr = expr.clone();
        rw.ty(&mut ty);
        rw.expr(&mut expr);
        self.out.push(json!({
            "kind": "const", "key": format!("{}::{}", self.module, ident),
            "module": self.module, "name": ident.to_string(),
            "ty": toks(&ty), "expr": toks(&expr),
            "literals": rw.literals.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(),
            "unsupported": rw.unsupported,
            "file": self.file, "lines": lines(span),
        }));
    }
}

fn local_names(items: &[Item], features: &[String]) -> Vec<String> {
    let mut v = Vec::new();
    for it in items {
        match it {
            Item::Fn(f) if cfg_on(&f.attrs, features) => v.push(f.sig.ident.to_string()),
            Item::Struct(s) if cfg_on(&s.attrs, features) => v.push(s.ident.to_string()),
            Item::Enum(s) if cfg_on(&s.attrs, features) => v.push(s.ident.to_string()),
            Item::Const(s) if cfg_on(&s.attrs, features) => v.push(s.ident.to_string()),
            Item::Static(s) if cfg_on(&s.attrs, features) => v.push(s.ident.to_string()),
            Item::Trait(s) if cfg_on(&s.attrs, features) => v.push(s.ident.to_string()),
            Item::Type(s) if cfg_on(&s.attrs, features) => v.push(s.ident.to_string()),
            _ => {}
        }
    }
    v
}

fn collect_helpers(items: &[Item], uses: &BTreeMap<String, String>, cfg: &Config,
                   wanted: &[String], out: &mut BTreeMap<String, inline::Helper>)
{
    let mut add = |sig: &Signature, block: &Block, method: bool| {
        let name = sig.ident.to_string();
        let free = format!("fn:{}", name);
        if !method && wanted.contains(&free) {
            out.insert(free, inline::Helper {
                sig: sig.clone(), block: block.clone(), uses: uses.clone(), method,
            });
        }
        if wanted.contains(&name) {
            out.insert(name, inline::Helper {
                sig: sig.clone(), block: block.clone(), uses: uses.clone(), method,
            });
        }
    };
    for it in items {
        match it {
            Item::Fn(f) if cfg_on(&f.attrs, &cfg.features) => add(&f.sig, &f.block, false),
            Item::Impl(i) if cfg_on(&i.attrs, &cfg.features) => {
                for ii in &i.items {
                    if let ImplItem::Fn(f) = ii {
                        if cfg_on(&f.attrs, &cfg.features) {
                            add(&f.sig, &f.block, true);
                        }
                    }
                }
            }
            Item::Trait(t) if cfg_on(&t.attrs, &cfg.features) => {
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        if let Some(b) = &f.default {
                            add(&f.sig, b, true);
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 3 {
        eprintln!("usage: extract CONFIG.json REPO");
        std::process::exit(2);
    }
    let conf: Value = serde_json::from_str(
        &std::fs::read_to_string(&args[1]).expect("read config")
    ).expect("parse config");
    let cfg = Config {
        features: conf["features"].as_array().unwrap().iter()
            .map(|v| v.as_str().unwrap().to_string()).collect(),
        paths: conf["paths"].as_object().unwrap().iter()
            .map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect(),
        options: conf.clone(),
    };
    let mut all = Vec::new();
    let mut errors = Vec::new();
    let mut parsed = Vec::new();
    for f in conf["files"].as_array().unwrap() {
        let module = f[0].as_str().unwrap().to_string();
        let rel = f[1].as_str().unwrap().to_string();
        let path = format!("{}/{}", args[2], rel);
        let text = match std::fs::read_to_string(&path) {
            Ok(t) => t,
            Err(e) => { errors.push(format!("{}: {}", rel, e)); continue; }
        };
        let file = match syn::parse_file(&text) {
            Ok(f) => f,
            Err(e) => { errors.push(format!("{}: {}", rel, e)); continue; }
        };
        let mut uses = BTreeMap::new();
        for it in &file.items {
            if let Item::Use(u) = it {
                if cfg_on(&u.attrs, &cfg.features) {
                    collect_item_use(u, &mut uses);
                }
            }
        }
        let locals = local_names(&file.items, &cfg.features);
        parsed.push((rel, module, uses, locals, file));
    }
    let wanted = cfg.opt_list("inline");
    let mut helpers = BTreeMap::new();
    for (_, _, uses, _, file) in &parsed {
        collect_helpers(&file.items, uses, &cfg, &wanted, &mut helpers);
    }
    for (rel, module, uses, locals, file) in parsed {
        let mut ctx = Ctx { cfg: &cfg, file: rel, module, uses, locals, helpers: &helpers, out: Vec::new() };
        ctx.items(&file.items);
        all.append(&mut ctx.out);
    }
    println!("{}", serde_json::to_string(&json!({"items": all, "errors": errors})).unwrap());
}
