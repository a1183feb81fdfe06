//! The mechanical rewrites applied to extracted code. Every rewrite is either
//! a desugaring given by the language reference, a renaming of an external
//! path to its stand-in, or drops something listed in DESIGN.md.

use crate::inline::{self, Helper};
use crate::{cfg_on, collect_item_use, toks, Config};
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

const LOG_MACROS: &[&str] = &[
    "debug", "warn", "trace", "info", "error", "log",
    "debugv", "warnv", "tracev", "infov", "errorv", "fatal", "fatalv",
];

pub struct Rewriter<'a> {
    cfg: &'a Config,
    uses: BTreeMap<String, String>,
    locals: Vec<String>,
    pub unsupported: Vec<String>,
    pub applied: BTreeMap<String, usize>,
    pub literals: BTreeMap<String, Vec<u8>>,
    closures: BTreeMap<String, ExprClosure>,
    tmp: usize,
    loops: usize,
    pin_erase: bool,
    extern_roots: Vec<String>,
    run_methods: Vec<String>,
    eager_fns: Vec<String>,
    macros: BTreeMap<String, String>,
    method_map: BTreeMap<String, String>,
    option_recv: Vec<String>,
    helpers: &'a BTreeMap<String, Helper>,
    depth: usize,
    num_params: Vec<String>,
    pub caller: Option<Signature>,
    /// locals that are the standard output, and whether by reference
    stdouts: BTreeMap<String, bool>,
    /// functions with further parameters for what they do to the outside
    worlds: BTreeMap<String, Vec<String>>,
    /// methods with such an argument
    world_methods: BTreeMap<String, String>,
    /// constants that are texts
    text_consts: BTreeMap<String, String>,
}

fn is_pure(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Tuple(t) => t.elems.iter().all(is_pure),
        Expr::Paren(p) => is_pure(&p.expr),
        Expr::Group(p) => is_pure(&p.expr),
        Expr::Unary(u) => !matches!(u.op, UnOp::Deref(_)) && is_pure(&u.expr),
        Expr::Reference(r) => is_pure(&r.expr),
        Expr::Cast(c) => is_pure(&c.expr),
        Expr::Block(b) => b.block.stmts.is_empty(),
        Expr::Call(c) => {
            if let Expr::Path(p) = &*c.func {
                let last = p.path.segments.last().unwrap().ident.to_string();
                matches!(last.as_str(), "black_box" | "identity" | "size_of" | "drop")
                    && c.args.iter().all(|a| is_pure(a) && !matches!(a, Expr::Path(_)))
            } else {
                false
            }
        }
        _ => false,
    }
}

fn is_literal_only(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => false,
        Expr::Reference(r) => is_literal_only(&r.expr),
        Expr::Tuple(t) => t.elems.iter().all(is_literal_only),
        Expr::Call(_) => is_pure(e),
        Expr::Binary(b) => is_literal_only(&b.left) && is_literal_only(&b.right),
        _ => is_pure(e),
    }
}

impl<'a> Rewriter<'a> {
    pub fn new(cfg: &'a Config, uses: BTreeMap<String, String>, locals: Vec<String>,
               helpers: &'a BTreeMap<String, Helper>) -> Self {
        let map = |key: &str| -> BTreeMap<String, String> {
            cfg.options[key].as_object().map(|o| {
                o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect()
            }).unwrap_or_default()
        };
        Rewriter {
            cfg, uses, locals,
            unsupported: Vec::new(),
            applied: BTreeMap::new(),
            literals: BTreeMap::new(),
            closures: BTreeMap::new(),
            tmp: 0,
            loops: 0,
            pin_erase: cfg.options["pin_erase"].as_bool().unwrap_or(false),
            extern_roots: cfg.opt_list("extern_roots"),
            run_methods: cfg.opt_list("run_methods"),
            eager_fns: cfg.opt_list("eager_fns"),
            macros: map("macros"),
            method_map: map("methods"),
            option_recv: cfg.opt_list("option_recv"),
            helpers,
            depth: 0,
            num_params: Vec::new(),
            caller: None,
            stdouts: BTreeMap::new(),
            worlds: cfg.options["worlds"].as_object().map(|o| {
                o.iter().map(|(k, v)| (k.clone(), v.as_array().unwrap().iter()
                    .map(|x| x[0].as_str().unwrap().to_string()).collect())).collect()
            }).unwrap_or_default(),
            world_methods: map("world_methods"),
            text_consts: map("text_consts"),
        }
    }

    /// The pattern with constants that are texts as literals, if it has any.
    fn text_pat(&self, p: &Pat) -> Option<Pat> {
        match p {
            Pat::Path(x) => {
                let t = LitStr::new(self.text_consts.get(&self.full_path(&x.path))?, Span::call_site());
                Some(Pat::Lit(parse_quote!(#t)))
            }
            Pat::Paren(x) => self.text_pat(&x.pat),
            Pat::Tuple(t) => {
                let mut t = t.clone();
                let mut any = false;
                for q in &mut t.elems {
                    if let Some(n) = self.text_pat(q) { *q = n; any = true; }
                }
                if any { Some(Pat::Tuple(t)) } else { None }
            }
            Pat::Or(o) => {
                let mut o = o.clone();
                let mut any = false;
                for q in &mut o.cases {
                    if let Some(n) = self.text_pat(q) { *q = n; any = true; }
                }
                if any { Some(Pat::Or(o)) } else { None }
            }
            _ => None,
        }
    }

    /// The parameters added to the function being rewritten.
    fn world(&self) -> Vec<String> {
        self.caller.as_ref().and_then(|c| self.worlds.get(&c.ident.to_string()).cloned()).unwrap_or_default()
    }

    /// Is this the standard output, and if so, a reference to it?
    fn is_stdout(&self, e: &Expr) -> Option<bool> {
        if !self.world().iter().any(|w| w == "vp_so") {
            return None;
        }
        match e {
            Expr::Paren(p) => self.is_stdout(&p.expr),
            Expr::Group(p) => self.is_stdout(&p.expr),
            Expr::Call(c) if c.args.is_empty() => match &*c.func {
                Expr::Path(p) if self.full_path(&p.path) == "std::io::stdout" => Some(false),
                _ => None,
            },
            Expr::MethodCall(m) if m.method == "lock" && m.args.is_empty() => self.is_stdout(&m.receiver).map(|_| false),
            Expr::Reference(r) if r.mutability.is_some() => match self.is_stdout(&r.expr) {
                Some(false) => Some(true),
                _ => None,
            },
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.stdouts.get(&i.to_string()).copied()),
            _ => None,
        }
    }

    fn full_path(&self, path: &Path) -> String {
        let segs: Vec<String> = path.segments.iter().map(|s| s.ident.to_string()).collect();
        let mut full = match self.uses.get(&segs[0]) {
            Some(u) => u.split("::").map(|s| s.to_string()).collect::<Vec<_>>(),
            None => vec![segs[0].clone()],
        };
        full.extend(segs[1..].iter().cloned());
        full.join("::")
    }

    fn is_text_const(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.qself.is_none()
            && self.text_consts.contains_key(&self.full_path(&p.path)))
    }

    /// The values shown by a format-like macro.
    fn shown_values(&mut self, tokens: TokenStream) -> Option<Expr> {
        let args = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(tokens).ok()?;
        let mut it = args.into_iter();
        let tpl = match it.next() {
            None => String::new(),
            Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(),
            _ => return None,
        };
        let mut vals: Vec<Expr> = Vec::new();
        for a in it {
            vals.push(match a { Expr::Assign(x) => *x.right, a => a });
        }
        let mut rest = tpl.replace("{{", "").replace("}}", "");
        while let Some(i) = rest.find('{') {
            let end = rest[i..].find('}')? + i;
            let name = rest[i + 1..end].split(':').next().unwrap().to_string();
            if let Ok(id) = parse_str::<Ident>(&name) {
                vals.push(parse_quote!(#id));
            }
            rest = rest[end + 1..].to_string();
        }
        let v = self.fresh("l");
        self.note("text line");
        Some(parse_quote!({ let mut #v = VpLine::new(); #(#v.show(&(#vals));)* #v }))
    }

    fn note(&mut self, what: &str) {
        *self.applied.entry(what.to_string()).or_insert(0) += 1;
    }

    fn bad(&mut self, what: String) {
        if !self.unsupported.contains(&what) {
            self.unsupported.push(what);
        }
    }

    fn fresh(&mut self, base: &str) -> Ident {
        self.tmp += 1;
        format_ident!("vp_{}{}", base, self.tmp)
    }

    /// Bounds by operator traits become the bound `VpNum`; the function's
    /// compound assignments become calls of its methods.
    fn numeric_generics(&mut self, g: &mut Generics) {
        let is_op = |b: &TypeParamBound| match b {
            TypeParamBound::Trait(t) => {
                let n = t.path.segments.last().unwrap().ident.to_string();
                ["AddAssign", "ShlAssign", "MulAssign", "BitOrAssign", "SubAssign"].contains(&n.as_str())
            }
            _ => false,
        };
        let mut found = Vec::new();
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                if t.bounds.iter().any(is_op) {
                    t.bounds = parse_quote!(VpNum);
                    found.push(t.ident.to_string());
                }
            }
        }
        if let Some(w) = g.where_clause.as_mut() {
            for p in w.predicates.iter_mut() {
                if let WherePredicate::Type(t) = p {
                    if t.bounds.iter().any(is_op) {
                        t.bounds = parse_quote!(VpNum);
                        found.push(toks(&t.bounded_ty));
                    }
                }
            }
        }
        if !found.is_empty() {
            self.note("operator traits");
        }
        self.num_params = found;
    }

    pub fn signature(&mut self, sig: &mut Signature) {
        self.numeric_generics(&mut sig.generics);
        sig.unsafety = None;
        sig.constness = None;
        if sig.asyncness.is_some() {
            self.bad("async fn".into());
        }
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Receiver(r) => {
                    r.attrs.clear();
                    if self.pin_erase && r.colon_token.is_some() {
                        let t = toks(&*r.ty).replace(' ', "");
                        if t == "Pin<&mutSelf>" || t.ends_with("Pin<&mutSelf>") {
                            *r = parse_quote!(&mut self);
                            self.note("pin receiver");
                        }
                    }
                }
                FnArg::Typed(t) => t.attrs.clear(),
            }
        }
        self.visit_signature_mut(sig);
    }

    pub fn block(&mut self, b: &mut Block) {
        self.visit_block_mut(b);
    }

    pub fn ty(&mut self, t: &mut Type) {
        self.visit_type_mut(t);
    }

    pub fn expr(&mut self, e: &mut Expr) {
        self.visit_expr_mut(e);
    }

    pub fn generics(&mut self, g: &mut Generics) {
        self.visit_generics_mut(g);
    }

    fn lit_bytes(&mut self, bytes: Vec<u8>) -> Expr {
        let name = if bytes.is_empty() {
            "vp_lit_empty".to_string()
        } else {
            format!("vp_lit_{}", bytes.iter().map(|b| format!("{:02x}", b)).collect::<String>())
        };
        let id = Ident::new(&name, Span::call_site());
        self.literals.insert(name, bytes);
        self.note("byte string literal");
        parse_quote!(#id())
    }

    fn lit_str(&mut self, s: &str) -> Expr {
        let name = if s.is_empty() {
            "vp_str_empty".to_string()
        } else {
            format!("vp_str_{}", s.bytes().map(|b| format!("{:02x}", b)).collect::<String>())
        };
        let id = Ident::new(&name, Span::call_site());
        self.literals.insert(name, s.bytes().collect());
        parse_quote!(#id())
    }

    /// Expand a format-like macro into pushes on a string stand-in.
    fn format_expr(&mut self, tokens: TokenStream) -> Option<Expr> {
        let args = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(tokens).ok()?;
        let mut it = args.into_iter();
        let tpl = match it.next()? {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let rest: Vec<Expr> = it.collect();
        let mut pos = 0;
        let v = self.fresh("s");
        let mut stmts: Vec<Stmt> = vec![parse_quote!(let mut #v = VpString::new();)];
        let mut lit = String::new();
        let cs: Vec<char> = tpl.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            let c = cs[i];
            if c == '{' && i + 1 < cs.len() && cs[i + 1] == '{' {
                lit.push('{');
                i += 2;
            } else if c == '}' && i + 1 < cs.len() && cs[i + 1] == '}' {
                lit.push('}');
                i += 2;
            } else if c == '{' {
                let end = (i..cs.len()).find(|j| cs[*j] == '}')?;
                let inner: String = cs[i + 1..end].iter().collect();
                i = end + 1;
                if !lit.is_empty() {
                    let l = self.lit_bytes(lit.clone().into_bytes());
                    stmts.push(parse_quote!(#v.push_lit(#l);));
                    lit.clear();
                }
                let (name, spec) = match inner.find(':') {
                    Some(p) => (inner[..p].to_string(), inner[p + 1..].to_string()),
                    None => (inner.clone(), String::new()),
                };
                let arg: Expr = if name.is_empty() {
                    let a = rest.get(pos)?.clone();
                    pos += 1;
                    a
                } else if let Ok(n) = name.parse::<usize>() {
                    rest.get(n)?.clone()
                } else {
                    parse_str::<Expr>(&name).ok()?
                };
                if spec.is_empty() {
                    stmts.push(parse_quote!(#v.push_display(&(#arg));));
                } else if spec == "?" {
                    stmts.push(parse_quote!(#v.push_debug(&(#arg));));
                } else if spec.ends_with('x') && spec.starts_with('0')
                    && spec[1..spec.len() - 1].parse::<usize>().is_ok()
                {
                    let w = spec[1..spec.len() - 1].parse::<usize>().unwrap();
                    stmts.push(parse_quote!(#v.push_hex(#arg, #w);));
                } else {
                    let m = Ident::new(&format!("push_spec_{}", spec.bytes()
                        .map(|b| format!("{:02x}", b)).collect::<String>()), Span::call_site());
                    stmts.push(parse_quote!(#v.#m(&(#arg));));
                }
            } else {
                lit.push(c);
                i += 1;
            }
        }
        if !lit.is_empty() {
            let l = self.lit_bytes(lit.into_bytes());
            stmts.push(parse_quote!(#v.push_lit(#l);));
        }
        stmts.push(Stmt::Expr(parse_quote!(#v), None));
        self.note("format macro");
        Some(parse_quote!({ #(#stmts)* }))
    }

    /// Expand a macro call to an expression; None if the macro is dropped.
    fn expand(&mut self, mac: &Macro) -> Option<Expr> {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        if LOG_MACROS.contains(&name.as_str()) {
            self.note("log macro dropped");
            return None;
        }
        let exprs = |ts: TokenStream| {
            Punctuated::<Expr, Token![,]>::parse_terminated.parse2(ts)
                .map(|p| p.into_iter().collect::<Vec<_>>())
        };
        match name.as_str() {
            "assert" | "debug_assert" => {
                if let Ok(a) = exprs(mac.tokens.clone()) {
                    let c = &a[0];
                    self.note("assertion");
                    return Some(parse_quote!(vp_assert(#c)));
                }
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                if let Ok(a) = exprs(mac.tokens.clone()) {
                    let (l, r) = (&a[0], &a[1]);
                    self.note("assertion");
                    return Some(if name.ends_with("eq") {
                        parse_quote!(vp_assert((#l) == (#r)))
                    } else {
                        parse_quote!(vp_assert((#l) != (#r)))
                    });
                }
            }
            "unreachable" | "panic" | "unimplemented" | "todo" => {
                self.note("assertion");
                return Some(parse_quote!(vp_panic()));
            }
            "matches" => {
                let p = |input: parse::ParseStream<'_>| {
                    let e: Expr = input.parse()?;
                    let _: Token![,] = input.parse()?;
                    let pat = Pat::parse_multi_with_leading_vert(input)?;
                    let guard = if input.peek(Token![if]) {
                        let _: Token![if] = input.parse()?;
                        Some(input.parse::<Expr>()?)
                    } else {
                        None
                    };
                    let _: Option<Token![,]> = input.parse()?;
                    Ok((e, pat, guard))
                };
                if let Ok((e, pat, guard)) = p.parse2(mac.tokens.clone()) {
                    self.note("matches macro");
                    let g = guard.map(|g| quote!(if #g));
                    return Some(parse_quote!(match #e { #pat #g => true, _ => false }));
                }
            }
            "vec" => {
                if mac.tokens.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                let has_semi = mac.tokens.clone().into_iter().any(|t| matches!(&t,
                    TokenTree::Punct(p) if p.as_char() == ';'));
                if has_semi {
                    let p = |input: parse::ParseStream<'_>| {
                        let e: Expr = input.parse()?;
                        let _: Token![;] = input.parse()?;
                        let n: Expr = input.parse()?;
                        Ok((e, n))
                    };
                    if let Ok((e, n)) = p.parse2(mac.tokens.clone()) {
                        return Some(parse_quote!(vp_vec_fill(#e, #n)));
                    }
                } else if let Ok(a) = exprs(mac.tokens.clone()) {
                    let f = format_ident!("vp_vec{}", a.len());
                    return Some(parse_quote!(#f(#(#a),*)));
                }
            }
            "format" => {
                if let Some(e) = self.format_expr(mac.tokens.clone()) {
                    return Some(e);
                }
            }
            "println" | "print" if self.world().iter().any(|w| w == "vp_so") => {
                if let Some(e) = self.shown_values(mac.tokens.clone()) {
                    let nl = name == "println";
                    return Some(parse_quote!(vp_so.line(#e, #nl)));
                }
            }
            "writeln" | "write" => {
                let p = |input: parse::ParseStream<'_>| {
                    let e: Expr = input.parse()?;
                    let _: Option<Token![,]> = input.parse()?;
                    Ok((e, input.parse::<TokenStream>()?))
                };
                if let Ok((to, rest)) = p.parse2(mac.tokens.clone()) {
                    if self.is_stdout(&to).is_some() {
                        if let Some(e) = self.shown_values(rest) {
                            let nl = name == "writeln";
                            return Some(parse_quote!(vp_so.try_line(#e, #nl)));
                        }
                    }
                }
            }
            "println" | "print" => {
                if let Some(e) = self.format_expr(mac.tokens.clone()) {
                    return Some(parse_quote!(vp_println(#e)));
                }
            }
            "cfg" => {
                if let Ok(m) = parse2::<Meta>(mac.tokens.clone()) {
                    let on = crate::cfg_eval(&m, &self.cfg.features);
                    return Some(parse_quote!(#on));
                }
            }
            _ => {
                if let Some(r) = self.macros.get(&name).cloned() {
                    return Some(parse_str(&r).expect("macro replacement"));
                }
            }
        }
        self.bad(format!("macro {}!", name));
        Some(parse_quote!(vp_unsupported()))
    }

    /// Replace a path by its stand-in, given its full name.
    fn map_path(&mut self, path: &mut Path, bound: bool) {
        let segs: Vec<String> = path.segments.iter().map(|s| s.ident.to_string()).collect();
        let first = segs[0].clone();
        let mut full: Vec<String>;
        let mut prefix_len = 1; // count of original segments replaced by prefix
        if first == "crate" || first == "super" || (first == "self" && segs.len() > 1) {
            full = segs[1..].to_vec();
            prefix_len = 2;
            if full.is_empty() {
                return;
            }
            full.splice(0..1, vec!["crate".to_string(), segs[1].clone()]);
        } else if let Some(u) = self.uses.get(&first) {
            if bound && segs.len() == 1 && self.locals.contains(&first) {
                return;
            }
            full = u.split("::").map(|s| s.to_string()).collect();
            full.extend(segs[1..].iter().cloned());
        } else if self.locals.contains(&first) {
            full = vec!["crate".to_string()];
            full.extend(segs.iter().cloned());
        } else {
            full = segs.clone();
        }
        let orig: Vec<PathSegment> = path.segments.iter().cloned().collect();
        // canonical "crate::X" for own items
        for n in (1..=full.len()).rev() {
            let key = full[..n].join("::");
            if let Some(rep) = self.cfg.paths.get(&key).cloned() {
                let tail = full.len() - n;
                let mut newp: Punctuated<PathSegment, Token![::]> = Punctuated::new();
                for r in rep.trim_end_matches("()").split("::") {
                    newp.push(PathSegment {
                        ident: Ident::new(r, Span::call_site()),
                        arguments: PathArguments::None,
                    });
                }
                // arguments of the last replaced segment
                let idx = orig.len() as isize - tail as isize - 1;
                if idx >= 0 {
                    let a = orig[idx as usize].arguments.clone();
                    if let Some(l) = newp.last_mut() {
                        l.arguments = a;
                    }
                }
                for s in &orig[orig.len() - tail..] {
                    newp.push(s.clone());
                }
                if newp.len() != orig.len() || newp.iter().zip(orig.iter())
                    .any(|(a, b)| a.ident != b.ident)
                {
                    self.note("path stand-in");
                }
                path.segments = newp;
                path.leading_colon = None;
                return;
            }
        }
        if full[0] == "crate" {
            // own item: use its plain name
            let mut newp: Punctuated<PathSegment, Token![::]> = Punctuated::new();
            for s in &orig[prefix_len - 1..] {
                newp.push(s.clone());
            }
            path.segments = newp;
            path.leading_colon = None;
            return;
        }
        if full.len() > 1 && self.extern_roots.contains(&full[0]) {
            self.bad(format!("path {}", full.join("::")));
        }
    }

    /// The configured stand-in of exactly this path.
    fn lookup(&self, path: &Path) -> Option<String> {
        let segs: Vec<String> = path.segments.iter().map(|s| s.ident.to_string()).collect();
        let mut full = match self.uses.get(&segs[0]) {
            Some(u) => u.split("::").map(|s| s.to_string()).collect::<Vec<_>>(),
            None => vec![segs[0].clone()],
        };
        full.extend(segs[1..].iter().cloned());
        self.cfg.paths.get(&full.join("::")).cloned()
    }

    /// `X[a..b]` as a method call.
    fn range_call(&mut self, e: &Expr, mutable: bool) -> Expr {
        let (x, r) = range_index(e).unwrap();
        self.note("range index");
        let name = |n: &str| Ident::new(&format!("vp_{}{}", n, if mutable { "_mut" } else { "" }),
                                        Span::call_site());
        let x = match &x {
            Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_) => x,
            _ => parse_quote!((#x)),
        };
        let end: Option<Expr> = r.end.as_ref().map(|b| match r.limits {
            RangeLimits::HalfOpen(_) => (**b).clone(),
            RangeLimits::Closed(_) => parse_quote!((#b) + 1),
        });
        match (&r.start, &end) {
            (Some(a), Some(b)) => { let n = name("range"); parse_quote!(#x.#n(#a, #b)) }
            (Some(a), None) => { let n = name("range_from"); parse_quote!(#x.#n(#a)) }
            (None, Some(b)) => { let n = name("range_to"); parse_quote!(#x.#n(#b)) }
            (None, None) => { let n = name("range_full"); parse_quote!(#x.#n()) }
        }
    }

    /// A match on string or byte string literals, or tuples of them, as a
    /// chain of comparisons.
    fn match_literals(&mut self, m: &ExprMatch) -> Option<Expr> {
        let mut lets: Vec<Stmt> = Vec::new();
        let mut vars: Vec<Ident> = Vec::new();
        let tuple = m.arms.iter().any(|a| has_tuple(&a.pat));
        match &*m.expr {
            Expr::Tuple(t) if tuple => for x in &t.elems {
                let v = self.fresh("m");
                lets.push(parse_quote!(let #v = #x;));
                vars.push(v);
            },
            _ if tuple => return None,
            x => {
                let v = self.fresh("m");
                lets.push(parse_quote!(let #v = #x;));
                vars.push(v);
            }
        }
        let feats = self.cfg.features.clone();
        let mut out: Option<Expr> = None;
        for a in m.arms.iter().rev() {
            if !cfg_on(&a.attrs, &feats) { continue; }
            let body = &a.body;
            let (cond, bind) = pat_cond(&a.pat, &vars)?;
            let cond: Option<Expr> = match (cond, &a.guard) {
                (c, None) => c,
                (None, Some((_, g))) if bind.is_empty() => Some(parse_quote!(#g)),
                (Some(c), Some((_, g))) if bind.is_empty() => Some(parse_quote!((#c) && (#g))),
                (None, Some((_, g))) => Some(parse_quote!({ #(#bind)* #g })),
                (Some(c), Some((_, g))) => Some(parse_quote!((#c) && ({ #(#bind)* #g }))),
            };
            out = Some(match cond {
                None => parse_quote!({ #(#bind)* #body }),
                Some(c) => {
                    let o = out?;
                    parse_quote!(if #c { #(#bind)* #body } else { #o })
                }
            });
        }
        let o = out?;
        self.note("literal match");
        Some(parse_quote!({ #(#lets)* #o }))
    }

    /// Apply a callable (closure, path or known closure name) to argument text.
    fn apply(&mut self, f: &Expr, arg: Expr) -> Option<(Pat, Expr)> {
        match f {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let mut pat = c.inputs[0].clone();
                if let Pat::Type(t) = &pat {
                    pat = (*t.pat).clone();
                }
                Some((pat, (*c.body).clone()))
            }
            Expr::Reference(r) => self.apply(&r.expr, arg),
            Expr::Paren(r) => self.apply(&r.expr, arg),
            Expr::Path(p) => {
                if let Some(id) = p.path.get_ident() {
                    if let Some(c) = self.closures.get(&id.to_string()).cloned() {
                        return self.apply(&Expr::Closure(c), arg);
                    }
                }
                let name = p.path.segments.last().unwrap().ident.to_string();
                let is_var = p.path.segments.len() == 1 && !self.locals.contains(&name)
                    && !self.uses.contains_key(&name)
                    && name.chars().next().unwrap().is_lowercase();
                if is_var {
                    return None;
                }
                Some((parse_quote!(#arg), parse_quote!(#f(#arg))))
            }
            _ => None,
        }
    }

    /// Find `break value` statements that target the given loop and turn them
    /// into assignments.
    fn break_values(&mut self, body: &mut Block, label: Option<&Label>) -> Option<Ident> {
        struct B<'l> {
            label: Option<&'l Label>,
            depth: usize,
            var: Ident,
            found: bool,
        }
        impl<'l> VisitMut for B<'l> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                match e {
                    Expr::Closure(_) => {}
                    Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                        self.depth += 1;
                        visit_mut::visit_expr_mut(self, e);
                        self.depth -= 1;
                    }
                    Expr::Break(b) => {
                        let ours = match (&b.label, self.label) {
                            (None, _) => self.depth == 0,
                            (Some(l), Some(our)) => l.ident == our.name.ident,
                            _ => false,
                        };
                        if ours {
                            if let Some(v) = b.expr.take() {
                                let var = &self.var;
                                let lab = b.label.clone();
                                self.found = true;
                                *e = parse_quote!({ #var = #v; break #lab; });
                                return;
                            }
                        }
                        visit_mut::visit_expr_mut(self, e);
                    }
                    _ => visit_mut::visit_expr_mut(self, e),
                }
            }
        }
        let var = self.fresh("brk");
        let mut b = B { label, depth: 0, var: var.clone(), found: false };
        b.visit_block_mut(body);
        if b.found {
            self.note("break value");
            Some(var)
        } else {
            None
        }
    }

    fn mark_loop(&mut self, body: &mut Block) -> LitInt {
        let n = self.loops;
        self.loops += 1;
        let lit = LitInt::new(&n.to_string(), Span::call_site());
        body.stmts.insert(0, parse_quote!(__vp_loop!(#lit);));
        lit
    }

    /// Inline a call of a helper function, if `e` is one.
    fn inline_call(&mut self, e: &Expr, in_try: bool) -> Option<Expr> {
        if self.helpers.is_empty() || self.depth > 8 {
            return None;
        }
        let caller = self.caller.clone()?;
        let (name, recv, args): (String, Option<Expr>, Vec<Expr>) = match e {
            Expr::MethodCall(m) => (m.method.to_string(), Some((*m.receiver).clone()),
                                    m.args.iter().cloned().collect()),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => (p.path.segments.last()?.ident.to_string(), None,
                                  c.args.iter().cloned().collect()),
                _ => return None,
            },
            _ => return None,
        };
        let free = match e {
            Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 1),
            _ => false,
        };
        let h = match self.helpers.get(&format!("fn:{}", name)) {
            Some(h) if free => h,
            _ => self.helpers.get(&name)?,
        };
        if caller.ident == h.sig.ident {
            return None;
        }
        self.tmp += 1;
        let n = self.tmp;
        match inline::call(h, recv.as_ref(), &args, in_try, &caller, n) {
            Some(mut x) => {
                let saved = self.uses.clone();
                for (k, v) in &h.uses {
                    self.uses.entry(k.clone()).or_insert(v.clone());
                }
                self.depth += 1;
                self.visit_expr_mut(&mut x);
                self.depth -= 1;
                self.uses = saved;
                self.note("helper inlined");
                Some(x)
            }
            None => {
                if !in_try {
                    self.bad(format!("helper {} not inlinable", name));
                }
                None
            }
        }
    }

    /// A view of a buffer's unused part taken before a loop and used in that
    /// loop only is taken in each turn instead.
    fn view_into_loop(&mut self, stmts: &mut Vec<Stmt>) {
        let mut i = 0;
        while i < stmts.len() {
            let name = match &stmts[i] {
                Stmt::Local(Local { pat: Pat::Ident(id), init: Some(init), .. })
                    if init.diverge.is_none() && mentions(&init.expr, "chunk_mut") => id.ident.to_string(),
                _ => {
                    i += 1;
                    continue;
                }
            };
            let users: Vec<usize> = (i + 1..stmts.len()).filter(|j| mentions(&stmts[*j], &name)).collect();
            if users.len() == 1 {
                let view = stmts[i].clone();
                let e = match &mut stmts[users[0]] {
                    Stmt::Expr(Expr::Return(r), _) => r.expr.as_deref_mut(),
                    Stmt::Expr(Expr::Assign(a), _) => Some(&mut *a.right),
                    Stmt::Expr(e, _) => Some(e),
                    Stmt::Local(l) => l.init.as_mut().map(|i| &mut *i.expr),
                    _ => None,
                };
                if let Some(Expr::Loop(l)) = e {
                    l.body.stmts.insert(0, view);
                    stmts.remove(i);
                    self.note("buffer view taken in each turn of a loop");
                    continue;
                }
            }
            i += 1;
        }
    }

    fn let_else(&mut self, l: &mut Local) {
        // let PAT = E else { D };  =>  let (vars) = match E { PAT => (vars), _ => D };
        let init = l.init.as_mut().unwrap();
        let (_, div) = init.diverge.take().unwrap();
        let pat = l.pat.clone();
        let mut names = Vec::new();
        collect_pat(&pat, &mut names);
        let vars: Vec<Ident> = names.iter().map(|(i, _)| i.clone()).collect();
        let muts: Vec<TokenStream> = names.iter()
            .map(|(i, m)| if *m { quote!(mut #i) } else { quote!(#i) }).collect();
        let e = init.expr.clone();
        // bindings inside keep their modes except `mut`
        let mut pat2 = pat.clone();
        struct NoMut;
        impl VisitMut for NoMut {
            fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
                if p.by_ref.is_none() {
                    p.mutability = None;
                }
                visit_mut::visit_pat_ident_mut(self, p);
            }
        }
        NoMut.visit_pat_mut(&mut pat2);
        let newl: Stmt = if vars.len() == 1 {
            let v = &vars[0];
            let m = &muts[0];
            parse_quote!(let #m = match #e { #pat2 => #v, _ => #div };)
        } else {
            parse_quote!(let (#(#muts),*) = match #e { #pat2 => (#(#vars),*), _ => #div };)
        };
        if let Stmt::Local(nl) = newl {
            *l = nl;
        }
        self.note("let-else");
    }
}

pub fn collect_pat(p: &Pat, out: &mut Vec<(Ident, bool)>) {
    match p {
        Pat::Ident(i) => {
            let s = i.ident.to_string();
            if s.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
                out.push((i.ident.clone(), i.mutability.is_some() && i.by_ref.is_none()));
            }
            if let Some((_, sp)) = &i.subpat {
                collect_pat(sp, out);
            }
        }
        Pat::Tuple(t) => t.elems.iter().for_each(|p| collect_pat(p, out)),
        Pat::TupleStruct(t) => t.elems.iter().for_each(|p| collect_pat(p, out)),
        Pat::Struct(s) => s.fields.iter().for_each(|f| collect_pat(&f.pat, out)),
        Pat::Reference(r) => collect_pat(&r.pat, out),
        Pat::Paren(r) => collect_pat(&r.pat, out),
        Pat::Type(t) => collect_pat(&t.pat, out),
        Pat::Slice(s) => s.elems.iter().for_each(|p| collect_pat(p, out)),
        Pat::Or(o) => if let Some(p) = o.cases.first() { collect_pat(p, out) },
        _ => {}
    }
}

fn strip_casts(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Cast(c) => {
            if matches!(&*c.ty, Type::Ptr(_)) {
                match strip_casts(&c.expr) {
                    Some(i) => Some(i),
                    None => Some((*c.expr).clone()),
                }
            } else {
                None
            }
        }
        Expr::Paren(p) => strip_casts(&p.expr),
        Expr::Group(p) => strip_casts(&p.expr),
        _ => None,
    }
}

/// Whether an identifier occurs among the tokens.
fn mentions<T: ToTokens>(t: &T, name: &str) -> bool {
    fn within(ts: TokenStream, name: &str) -> bool {
        ts.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Ident(i) => i == name,
            proc_macro2::TokenTree::Group(g) => within(g.stream(), name),
            _ => false,
        })
    }
    within(t.to_token_stream(), name)
}

fn peel(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => peel(&p.expr),
        Expr::Group(p) => peel(&p.expr),
        Expr::Reference(r) => peel(&r.expr),
        _ => e,
    }
}

fn range_index(e: &Expr) -> Option<(Expr, ExprRange)> {
    if let Expr::Index(i) = e {
        let mut x = &*i.index;
        while let Expr::Paren(p) = x {
            x = &p.expr;
        }
        if let Expr::Range(r) = x {
            return Some(((*i.expr).clone(), r.clone()));
        }
    }
    None
}

/// Whether a pattern has a string literal in it.
fn has_lit(p: &Pat) -> bool {
    match p {
        Pat::Lit(l) => matches!(l.lit, Lit::Str(_) | Lit::ByteStr(_)),
        Pat::Or(o) => o.cases.iter().any(has_lit),
        Pat::Paren(p) => has_lit(&p.pat),
        Pat::Tuple(t) => t.elems.iter().any(has_lit),
        _ => false,
    }
}

fn has_tuple(p: &Pat) -> bool {
    match p {
        Pat::Or(o) => o.cases.iter().any(has_tuple),
        Pat::Paren(p) => has_tuple(&p.pat),
        Pat::Tuple(_) => true,
        _ => false,
    }
}

/// Condition under which the variables match a pattern of string literals,
/// and what it binds.
fn pat_cond(p: &Pat, vars: &[Ident]) -> Option<(Option<Expr>, Vec<Stmt>)> {
    match p {
        Pat::Wild(_) => Some((None, vec![])),
        Pat::Paren(p) => pat_cond(&p.pat, vars),
        Pat::Or(o) => {
            let mut cond: Option<Expr> = None;
            for c in &o.cases {
                let (x, b) = pat_cond(c, vars)?;
                if !b.is_empty() { return None; }
                let x = x?;
                cond = Some(match cond {
                    None => x,
                    Some(p) => parse_quote!(#p || #x),
                });
            }
            Some((cond.map(|c| parse_quote!((#c))), vec![]))
        }
        Pat::Tuple(t) if t.elems.len() == vars.len() => {
            let mut cond: Option<Expr> = None;
            let mut bind = Vec::new();
            for (q, v) in t.elems.iter().zip(vars) {
                if has_tuple(q) { return None; }
                let (x, b) = pat_cond(q, std::slice::from_ref(v))?;
                bind.extend(b);
                if let Some(x) = x {
                    cond = Some(match cond {
                        None => x,
                        Some(p) => parse_quote!(#p && #x),
                    });
                }
            }
            Some((cond, bind))
        }
        Pat::Lit(l) if vars.len() == 1 => {
            let v = &vars[0];
            match &l.lit {
                Lit::Str(l) => Some((Some(parse_quote!(vp_str_eq(#v, #l))), vec![])),
                Lit::ByteStr(l) => Some((Some(parse_quote!(vp_bytes_eq(#v, #l))), vec![])),
                _ => None,
            }
        }
        Pat::Ident(i) if vars.len() == 1 && i.subpat.is_none() => {
            let (id, v) = (&i.ident, &vars[0]);
            Some((None, vec![parse_quote!(let #id = #v;)]))
        }
        _ => None,
    }
}

fn is_bytes_operand(e: &Expr) -> bool {
    match peel(e) {
        Expr::Lit(ExprLit { lit: Lit::ByteStr(_), .. }) => true,
        Expr::Index(i) => matches!(&*i.index, Expr::Range(_)),
        _ => false,
    }
}

fn is_str_operand(e: &Expr) -> bool {
    matches!(peel(e), Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
}

impl<'a> VisitMut for Rewriter<'a> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let saved_uses = self.uses.clone();
        let saved_closures = self.closures.clone();
        let mut stmts = std::mem::take(&mut b.stmts);
        self.view_into_loop(&mut stmts);
        let mut out: Vec<Stmt> = Vec::new();
        for mut s in stmts {
            let feats = self.cfg.features.clone();
            let on = match &s {
                Stmt::Local(l) => cfg_on(&l.attrs, &feats),
                Stmt::Macro(m) => cfg_on(&m.attrs, &feats),
                Stmt::Item(Item::Use(u)) => cfg_on(&u.attrs, &feats),
                Stmt::Item(Item::Static(u)) => cfg_on(&u.attrs, &feats),
                Stmt::Item(Item::Const(u)) => cfg_on(&u.attrs, &feats),
                Stmt::Expr(e, _) => {
                    let attrs: &[Attribute] = match e {
                        Expr::Block(x) => &x.attrs,
                        Expr::If(x) => &x.attrs,
                        Expr::Match(x) => &x.attrs,
                        Expr::MethodCall(x) => &x.attrs,
                        Expr::Call(x) => &x.attrs,
                        Expr::Assign(x) => &x.attrs,
                        Expr::Unsafe(x) => &x.attrs,
                        Expr::Return(x) => &x.attrs,
                        Expr::Try(x) => &x.attrs,
                        _ => &[],
                    };
                    cfg_on(attrs, &feats)
                }
                _ => true,
            };
            if !on {
                self.note("cfg'd out statement");
                continue;
            }
            match &mut s {
                Stmt::Item(Item::Use(u)) => {
                    collect_item_use(u, &mut self.uses);
                    continue;
                }
                Stmt::Item(Item::Static(st)) => {
                    let (i, t, e) = (&st.ident, &st.ty, &st.expr);
                    s = parse_quote!(let #i : #t = #e;);
                    self.note("local static");
                }
                Stmt::Item(Item::Const(st)) => {
                    let (i, t, e) = (&st.ident, &st.ty, &st.expr);
                    s = parse_quote!(let #i : #t = #e;);
                    self.note("local static");
                }
                Stmt::Item(_) => {
                    self.bad("nested item".into());
                    continue;
                }
                Stmt::Macro(m) => {
                    let mac = m.mac.clone();
                    if ["__vp_loop", "__vp_pre", "__vp_post"].iter().any(|n| mac.path.is_ident(n)) {
                        out.push(s);
                        continue;
                    }
                    let semi = m.semi_token;
                    match self.expand(&mac) {
                        None => continue,
                        Some(e) => {
                            let is_block_ret = matches!(e, Expr::Return(_));
                            s = Stmt::Expr(e, if semi.is_some() || is_block_ret {
                                Some(Default::default())
                            } else {
                                None
                            });
                        }
                    }
                }
                _ => {}
            }
            // effect free statements
            match &s {
                Stmt::Expr(e, Some(_)) if is_literal_only(e) => {
                    self.note("effect free statement");
                    continue;
                }
                Stmt::Local(l) => {
                    if let (Pat::Wild(_), Some(i)) = (&l.pat, &l.init) {
                        if is_literal_only(&i.expr) && i.diverge.is_none() {
                            self.note("effect free statement");
                            continue;
                        }
                    }
                }
                _ => {}
            }
            if let Stmt::Local(l) = &mut s {
                if l.init.as_ref().map(|i| i.diverge.is_some()).unwrap_or(false) {
                    self.let_else(l);
                }
                let bound = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
                if let (Pat::Ident(id), Some(init)) = (bound, &l.init) {
                    if let Some(by_ref) = self.is_stdout(&init.expr) {
                        self.stdouts.insert(id.ident.to_string(), by_ref);
                        self.note("standard output as parameter");
                        continue;
                    }
                }
                if let (Pat::Ident(id), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = peel(&init.expr) {
                        self.closures.insert(id.ident.to_string(), c.clone());
                        self.note("named closure inlined");
                        continue;
                    }
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
        self.uses = saved_uses;
        self.closures = saved_closures;
    }

    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        let feats = self.cfg.features.clone();
        let arms = std::mem::take(&mut m.arms);
        m.arms = arms.into_iter().filter(|a| cfg_on(&a.attrs, &feats)).collect();
        visit_mut::visit_expr_match_mut(self, m);
        for a in m.arms.iter_mut() {
            if a.comma.is_none() {
                a.comma = Some(Default::default());
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre-order replacements
        if let Expr::Try(t) = e {
            let inner = (*t.expr).clone();
            if let Some(x) = self.inline_call(&inner, true) {
                *e = x;
                return;
            }
        }
        if let Some(x) = self.inline_call(&e.clone(), false) {
            *e = x;
            return;
        }
        loop {
            match e {
                Expr::Macro(m) => {
                    let mac = m.mac.clone();
                    if ["__vp_loop", "__vp_pre", "__vp_post"].iter().any(|n| mac.path.is_ident(n)) {
                        return;
                    }
                    *e = match self.expand(&mac) {
                        Some(x) => x,
                        None => parse_quote!({}),
                    };
                    continue;
                }
                Expr::Unsafe(u) => {
                    let mut b = u.block.clone();
                    if b.stmts.len() == 1 {
                        if let Stmt::Expr(inner, None) = &mut b.stmts[0] {
                            let inner = inner.clone();
                            *e = inner;
                            self.note("unsafe block");
                            continue;
                        }
                    }
                    *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                    self.note("unsafe block");
                    continue;
                }
                Expr::Call(_) | Expr::MethodCall(_) | Expr::Path(_) if self.is_stdout(e).is_some() => {
                    *e = match self.is_stdout(e) {
                        Some(true) => parse_quote!(vp_so),
                        _ => parse_quote!((*vp_so)),
                    };
                    self.note("standard output as parameter");
                    return;
                }
                Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.get_ident()
                        .map(|i| self.worlds.contains_key(&i.to_string())).unwrap_or(false)) => {
                    if let Expr::Path(p) = &*c.func {
                        let w = self.worlds[&p.path.get_ident().unwrap().to_string()].clone();
                        let has = c.args.iter().any(|a| toks(a).starts_with("vp_"));
                        if !has {
                            for x in w {
                                let id = Ident::new(&x, Span::call_site());
                                c.args.push(parse_quote!(#id));
                            }
                        }
                    }
                }
                Expr::Path(p) if p.qself.is_none() && self.text_consts.contains_key(&self.full_path(&p.path)) => {
                    let t = LitStr::new(&self.text_consts[&self.full_path(&p.path)], Span::call_site());
                    *e = parse_quote!(#t);
                    self.note("text constant");
                    continue;
                }
                Expr::Path(p) if p.qself.is_none() => {
                    // a constant whose stand-in is a function
                    if let Some(rep) = self.lookup(&p.path) {
                        if rep.ends_with("()") {
                            let f: Path = parse_str(rep.trim_end_matches("()")).unwrap();
                            *e = parse_quote!(#f());
                            self.note("path stand-in");
                            return;
                        }
                    }
                }
                Expr::Reference(r) if range_index(&r.expr).is_some() => {
                    let m = r.mutability.is_some();
                    *e = self.range_call(&r.expr.clone(), m);
                    continue;
                }
                Expr::Index(_) if range_index(e).is_some() => {
                    *e = self.range_call(&e.clone(), false);
                    continue;
                }
                Expr::Match(m) if !self.text_consts.is_empty()
                    && m.arms.iter().any(|a| self.text_pat(&a.pat).is_some()) =>
                {
                    let mut m = m.clone();
                    for a in &mut m.arms {
                        if let Some(p) = self.text_pat(&a.pat) { a.pat = p; }
                    }
                    self.note("text constant");
                    *e = Expr::Match(m);
                    continue;
                }
                Expr::Match(m) if m.arms.iter().any(|a| has_lit(&a.pat)) => {
                    let m = m.clone();
                    if let Some(x) = self.match_literals(&m) {
                        *e = x;
                        continue;
                    }
                }
                Expr::Cast(c) if toks(&*c.ty) == "f64" => {
                    let x = &c.expr;
                    *e = parse_quote!(vp_as_f64(#x));
                    self.note("float");
                    continue;
                }
                Expr::Cast(c) if toks(&*c.ty) == "u64" && toks(&*c.expr).contains("as f64") => {
                    let x = &c.expr;
                    *e = parse_quote!(vp_f64_as_u64(#x));
                    self.note("float");
                    continue;
                }
                Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => {
                    let t = format!("vp_f64_{}", f.base10_digits().replace('.', "_"));
                    let id = Ident::new(&t, Span::call_site());
                    *e = parse_quote!(#id());
                    self.note("float");
                    return;
                }
                Expr::Reference(r) => {
                    // &mut *(X as *mut ..) => X
                    if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*r.expr {
                        if let Some(inner) = strip_casts(expr) {
                            *e = inner;
                            self.note("spare capacity pointer cast");
                            continue;
                        }
                    }
                }
                Expr::ForLoop(f) => {
                    // adapters of the iterated expression move into the body
                    if let Expr::MethodCall(m) = &*f.expr {
                        let (r, pat, body, label) = (&m.receiver, &f.pat, &f.body, &f.label);
                        let stmts = &body.stmts;
                        if m.method == "map" && m.args.len() == 1 {
                            if let Expr::Closure(c) = peel(&m.args[0]) {
                                if c.inputs.len() == 1 {
                                    let (cp, cb) = (&c.inputs[0], &c.body);
                                    *e = parse_quote!(#label for #cp in #r { let #pat = #cb; #(#stmts)* });
                                    self.note("for over map");
                                    continue;
                                }
                            }
                        }
                        if m.method == "enumerate" && m.args.is_empty() {
                            if let Pat::Tuple(t) = &**pat {
                                if t.elems.len() == 2 {
                                    let (a, b) = (&t.elems[0], &t.elems[1]);
                                    let n = self.fresh("n");
                                    *e = parse_quote!({
                                        let mut #n: usize = 0;
                                        #label for #b in #r { let #a = #n; #n += 1; #(#stmts)* }
                                    });
                                    self.note("for over enumerate");
                                    continue;
                                }
                            }
                        }
                    }
                    let it = self.fresh("it");
                    let (pat, ex, body, label) = (&f.pat, &f.expr, &f.body, &f.label);
                    *e = parse_quote!({
                        let mut #it = (#ex).vp_into_iter();
                        #label loop {
                            match #it.next() {
                                Some(#pat) => #body,
                                None => break,
                            }
                        }
                    });
                    self.note("for loop");
                    continue;
                }
                Expr::While(w) => {
                    if let Expr::Let(l) = &*w.cond {
                        let (pat, ex, body, label) = (&l.pat, &l.expr, &w.body, &w.label);
                        *e = parse_quote!(#label loop {
                            match #ex {
                                #pat => #body,
                                _ => break,
                            }
                        });
                        self.note("while let");
                        continue;
                    }
                    let (c, body, label) = (&w.cond, &w.body, &w.label);
                    let stmts = &body.stmts;
                    *e = parse_quote!(#label loop {
                        if !(#c) { break; }
                        #(#stmts)*
                    });
                    self.note("while");
                    continue;
                }
                Expr::MethodCall(m) => {
                    let name = m.method.to_string();
                    if let Some(w) = self.world_methods.get(&name).cloned() {
                        let id = Ident::new(&w, Span::call_site());
                        if self.world().contains(&w) && m.args.last().map(|a| toks(a) != w).unwrap_or(true) {
                            m.args.push(parse_quote!(#id));
                            self.note("archive as parameter");
                        }
                    }
                    if (name == "starts_with" || name == "ends_with") && m.args.len() == 1 {
                        m.method = Ident::new(&format!("vp_{}", name), m.method.span());
                        self.note("starts_with, ends_with");
                        continue;
                    }
                    if name == "sum" && m.args.is_empty() {
                        if let Expr::MethodCall(f) = &*m.receiver {
                            if f.method == "map" && f.args.len() == 1 {
                                if let Expr::Closure(c) = peel(&f.args[0]) {
                                    if c.inputs.len() == 1 {
                                        let (r, pat, body) = (&f.receiver, &c.inputs[0], &c.body);
                                        let n = self.fresh("n");
                                        *e = parse_quote!({
                                            let mut #n = 0;
                                            for #pat in #r { #n += #body; }
                                            #n
                                        });
                                        self.note("map sum");
                                        continue;
                                    }
                                }
                            }
                        }
                    }
                    if name == "count" && m.args.is_empty() {
                        if let Expr::MethodCall(f) = &*m.receiver {
                            if f.method == "filter" && f.args.len() == 1 {
                                if let Expr::Closure(c) = peel(&f.args[0]) {
                                    if c.inputs.len() == 1 {
                                        let (r, pat, body) = (&f.receiver, &c.inputs[0], &c.body);
                                        let n = self.fresh("n");
                                        let x = self.fresh("x");
                                        *e = parse_quote!({
                                            let mut #n: usize = 0;
                                            for #x in #r {
                                                let #pat = &#x;
                                                if #body { #n += 1; }
                                            }
                                            #n
                                        });
                                        self.note("filter count");
                                        continue;
                                    }
                                }
                            }
                        }
                    }
                    if (name == "any" || name == "all") && m.args.len() == 1
                        && matches!(&*m.receiver, Expr::MethodCall(_))
                    {
                        if let Expr::Closure(c) = peel(&m.args[0]) {
                            if c.inputs.len() == 1 {
                                let (r, pat, body) = (&m.receiver, &c.inputs[0], &c.body);
                                let n = self.fresh("n");
                                *e = if name == "any" {
                                    parse_quote!({
                                        let mut #n: bool = false;
                                        for #pat in #r { if #body { #n = true; } }
                                        #n
                                    })
                                } else {
                                    parse_quote!({
                                        let mut #n: bool = true;
                                        for #pat in #r { if !(#body) { #n = false; } }
                                        #n
                                    })
                                };
                                self.note("any, all");
                                continue;
                            }
                        }
                    }
                    if name == "map_err" && m.args.len() == 1 {
                        let a: Expr = parse_quote!(vp_e);
                        let f = m.args[0].clone();
                        if let Some((pat, body)) = self.apply(&f, a) {
                            let r = &m.receiver;
                            *e = parse_quote!(match #r { Ok(vp_v) => Ok(vp_v), Err(#pat) => Err(#body) });
                            self.note("map_err");
                            continue;
                        }
                    }
                    if (name == "and_then" || name == "map" || name == "unwrap_or_else"
                        || name == "map_or" || name == "filter" || name == "is_some_and")
                        && m.args.last().map(|a| matches!(peel(a), Expr::Closure(_) | Expr::Path(_)))
                            .unwrap_or(false)
                    {
                        let recv_m = match &*m.receiver {
                            Expr::MethodCall(rm) => rm.method.to_string(),
                            _ => String::new(),
                        };
                        let f = m.args.last().unwrap().clone();
                        let by_body = match peel(&f) {
                            Expr::Closure(c) if name == "and_then" => result_kind(&c.body),
                            _ => None,
                        };
                        let is_opt = by_body.unwrap_or_else(|| {
                            self.option_recv.contains(&recv_m)
                                || matches!(recv_m.as_str(), "last" | "first" | "get" | "next" | "pop" | "take"
                                    | "checked_add" | "checked_sub" | "checked_mul" | "split_first" | "split_last")
                        });
                        let r = m.receiver.clone();
                        let a: Expr = parse_quote!(vp_a);
                        if name == "unwrap_or_else" {
                            if let Expr::Closure(c) = peel(&f) {
                                let body = &c.body;
                                if c.inputs.is_empty() {
                                    *e = parse_quote!(match #r { Some(vp_v) => vp_v, None => #body });
                                } else {
                                    let p = &c.inputs[0];
                                    *e = parse_quote!(match #r { Ok(vp_v) => vp_v, Err(#p) => #body });
                                }
                                self.note("combinator");
                                continue;
                            }
                        } else if let Some((pat, body)) = self.apply(&f, a) {
                            let new: Option<Expr> = match (name.as_str(), is_opt) {
                                ("and_then", true) => Some(parse_quote!(match #r { Some(#pat) => #body, None => None })),
                                ("and_then", false) => Some(parse_quote!(match #r { Ok(#pat) => #body, Err(vp_e) => Err(vp_e) })),
                                ("map", true) => Some(parse_quote!(match #r { Some(#pat) => Some(#body), None => None })),
                                ("map", false) => Some(parse_quote!(match #r { Ok(#pat) => Ok(#body), Err(vp_e) => Err(vp_e) })),
                                ("is_some_and", _) => Some(parse_quote!(match #r { Some(#pat) => #body, None => false })),
                                ("map_or", true) => {
                                    let d = m.args[0].clone();
                                    Some(parse_quote!(match #r { Some(#pat) => #body, None => #d }))
                                }
                                _ => None,
                            };
                            if let Some(n) = new {
                                *e = n;
                                self.note("combinator");
                                continue;
                            }
                        }
                    }
                    if (name == "map_or_else" && m.args.len() == 2) || (name == "or_else" && m.args.len() == 1) {
                        if let Expr::Closure(c) = peel(&m.args[0]) {
                            let r = m.receiver.clone();
                            let none: Expr = (*c.body).clone();
                            let err = c.inputs.first().cloned();
                            let some = if name == "or_else" { None } else {
                                let f = m.args[1].clone();
                                self.apply(&f, parse_quote!(vp_a))
                            };
                            let new: Option<Expr> = match (some, err) {
                                (Some((pat, body)), None) => Some(parse_quote!(match #r { Some(#pat) => #body, None => #none })),
                                (Some((pat, body)), Some(ep)) => Some(parse_quote!(match #r { Ok(#pat) => #body, Err(#ep) => #none })),
                                (None, None) if name == "or_else" => Some(parse_quote!(match #r { Some(vp_v) => Some(vp_v), None => #none })),
                                (None, Some(ep)) if name == "or_else" => Some(parse_quote!(match #r { Ok(vp_v) => Ok(vp_v), Err(#ep) => #none })),
                                _ => None,
                            };
                            if let Some(n) = new {
                                *e = n;
                                self.note("combinator");
                                continue;
                            }
                        }
                    }
                    if (name == "is_ok_and" || name == "is_none_or") && m.args.len() == 1 {
                        let f = m.args[0].clone();
                        if let Some((pat, body)) = self.apply(&f, parse_quote!(vp_a)) {
                            let r = m.receiver.clone();
                            *e = if name == "is_ok_and" {
                                parse_quote!(match #r { Ok(#pat) => #body, Err(_) => false })
                            } else {
                                parse_quote!(match #r { Some(#pat) => #body, None => true })
                            };
                            self.note("combinator");
                            continue;
                        }
                    }
                    if name == "then" && m.args.len() == 1 {
                        if let Expr::Closure(c) = peel(&m.args[0]) {
                            if c.inputs.is_empty() {
                                let (r, body) = (&m.receiver, &c.body);
                                *e = parse_quote!(if #r { Some(#body) } else { None });
                                self.note("combinator");
                                continue;
                            }
                        }
                    }
                    if name == "then_some" && m.args.len() == 1 {
                        let (r, v) = (&m.receiver, &m.args[0]);
                        let x = self.fresh("x");
                        *e = parse_quote!({ let #x = #v; if #r { Some(#x) } else { None } });
                        self.note("combinator");
                        continue;
                    }
                    if name == "for_each" && m.args.len() == 1 {
                        if let Expr::Closure(c) = peel(&m.args[0]) {
                            if c.inputs.len() == 1 {
                                let (r, pat, body) = (&m.receiver, &c.inputs[0], &c.body);
                                *e = parse_quote!(for #pat in #r { #body; });
                                self.note("for_each");
                                continue;
                            }
                        }
                    }
                    if name == "fold" && m.args.len() == 2 {
                        if let Expr::Closure(c) = peel(&m.args[1]) {
                            if c.inputs.len() == 2 {
                                let (r, init, acc, pat, body) = (&m.receiver, &m.args[0], &c.inputs[0], &c.inputs[1], &c.body);
                                let n = self.fresh("n");
                                *e = parse_quote!({
                                    let mut #n = #init;
                                    for #pat in #r { let #acc = #n; #n = #body; }
                                    #n
                                });
                                self.note("fold");
                                continue;
                            }
                        }
                    }
                    if name == "try_for_each" && m.args.len() == 1 {
                        if let Expr::Closure(c) = peel(&m.args[0]) {
                            if c.inputs.len() == 1 {
                                let (r, pat, body) = (&m.receiver, &c.inputs[0], &c.body);
                                let n = self.fresh("n");
                                *e = parse_quote!({
                                    let mut #n = Ok(());
                                    for #pat in #r {
                                        match #body { Ok(_) => {} Err(vp_e) => { #n = Err(vp_e); break; } }
                                    }
                                    #n
                                });
                                self.note("try_for_each");
                                continue;
                            }
                        }
                    }
                    if (name == "ok_or" && m.args.len() == 1)
                        || (name == "ok_or_else" && m.args.len() == 1)
                    {
                        let r = m.receiver.clone();
                        let mut d = m.args[0].clone();
                        if name == "ok_or_else" {
                            if let Expr::Closure(c) = peel(&d) {
                                d = (*c.body).clone();
                            } else {
                                d = parse_quote!(#d());
                            }
                        }
                        *e = parse_quote!(match #r { Some(vp_v) => Ok(vp_v), None => Err(#d) });
                        self.note("combinator");
                        continue;
                    }
                    if name == "expect" && m.args.len() == 1 {
                        let r = &m.receiver;
                        *e = parse_quote!(#r.vp_unwrap());
                        self.note("expect");
                        continue;
                    }
                    if self.run_methods.contains(&name) && m.args.len() == 1 {
                        if let Expr::Closure(c) = peel(&m.args[0]) {
                            let body = c.body.clone();
                            let r = m.receiver.clone();
                            let mm = format_ident!("vp_{}", name);
                            *e = parse_quote!({ #r.#mm(); #body });
                            self.note("closure run in place");
                            continue;
                        }
                    }
                    if self.pin_erase && name == "get_mut" && m.args.is_empty() {
                        *e = (*m.receiver).clone();
                        self.note("pin erased");
                        continue;
                    }
                    if let Some(new) = self.method_map.get(&name).cloned() {
                        m.method = Ident::new(&new, Span::call_site());
                    }
                }
                Expr::Call(c) => {
                    if let Expr::Path(p) = &*c.func {
                        let last2: Vec<String> = p.path.segments.iter().rev().take(2)
                            .map(|s| s.ident.to_string()).collect();
                        if self.pin_erase && last2.len() == 2 && last2[0] == "new" && last2[1] == "Pin" {
                            let a = c.args[0].clone();
                            *e = a;
                            self.note("pin erased");
                            continue;
                        }
                        if self.eager_fns.contains(&last2[0]) && c.args.len() == 1 {
                            if let Expr::Closure(cl) = peel(&c.args[0]) {
                                let body = cl.body.clone();
                                c.args[0] = *body;
                                self.note("closure run in place");
                                continue;
                            }
                        }
                        if last2.len() == 2 && last2[0] == "from" && self.num_params.contains(&last2[1]) {
                            let t = Ident::new(&last2[1], Span::call_site());
                            let a = &c.args[0];
                            *e = parse_quote!(#t::vp_num(#a));
                            continue;
                        }
                        // call of a named closure
                        if let Some(id) = p.path.get_ident() {
                            if let Some(cl) = self.closures.get(&id.to_string()).cloned() {
                                let pats: Vec<Pat> = cl.inputs.iter().map(|p| match p {
                                    Pat::Type(t) => (*t.pat).clone(),
                                    p => p.clone(),
                                }).collect();
                                let args: Vec<Expr> = c.args.iter().cloned().collect();
                                let body = &cl.body;
                                *e = parse_quote!({ #(let #pats = #args;)* #body });
                                continue;
                            }
                        }
                    }
                }
                Expr::Binary(b) if !self.num_params.is_empty() && matches!(b.op,
                    BinOp::AddAssign(_) | BinOp::ShlAssign(_) | BinOp::MulAssign(_)
                    | BinOp::BitOrAssign(_) | BinOp::SubAssign(_)) =>
                {
                    let f = Ident::new(match b.op {
                        BinOp::AddAssign(_) => "vp_add",
                        BinOp::ShlAssign(_) => "vp_shl",
                        BinOp::MulAssign(_) => "vp_mul",
                        BinOp::BitOrAssign(_) => "vp_or",
                        _ => "vp_sub",
                    }, Span::call_site());
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(#l = (#l).#f(#r));
                    continue;
                }
                Expr::Binary(b) => {
                    let eq = matches!(b.op, BinOp::Eq(_));
                    let ne = matches!(b.op, BinOp::Ne(_));
                    if (eq || ne) && (is_bytes_operand(&b.left) || is_bytes_operand(&b.right)) {
                        let (l, r) = (&b.left, &b.right);
                        *e = if eq {
                            parse_quote!(vp_bytes_eq(#l, #r))
                        } else {
                            parse_quote!(!vp_bytes_eq(#l, #r))
                        };
                        self.note("byte comparison");
                        continue;
                    }
                    if (eq || ne) && (is_str_operand(&b.left) || is_str_operand(&b.right)
                        || self.is_text_const(&b.left) || self.is_text_const(&b.right)) {
                        let (l, r) = (&b.left, &b.right);
                        *e = if eq {
                            parse_quote!(vp_str_eq(#l, #r))
                        } else {
                            parse_quote!(!vp_str_eq(#l, #r))
                        };
                        self.note("string comparison");
                        continue;
                    }
                }
                Expr::Loop(l) => {
                    let mut body = l.body.clone();
                    let label = l.label.clone();
                    if let Some(var) = self.break_values(&mut body, label.as_ref()) {
                        *e = parse_quote!({ let #var; #label loop #body #var });
                        continue;
                    }
                }
                Expr::Lit(ExprLit { lit: Lit::ByteStr(bs), .. }) => {
                    let v = bs.value();
                    *e = self.lit_bytes(v);
                    return;
                }
                Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                    let v = s.value();
                    *e = self.lit_str(&v);
                    return;
                }
                Expr::Async(_) | Expr::Await(_) => {
                    self.bad("async".into());
                    return;
                }
                Expr::Closure(_) => {
                    self.bad("closure".into());
                }
                Expr::Group(g) => {
                    *e = (*g.expr).clone();
                    continue;
                }
                _ => {}
            }
            break;
        }
        if let Expr::Loop(l) = e {
            let breaks = has_break(&l.body, l.label.as_ref());
            let lit = self.mark_loop(&mut l.body);
            visit_mut::visit_expr_mut(self, e);
            *e = if breaks { parse_quote!({ __vp_pre!(#lit); #e __vp_post!(#lit); }) }
                 else { parse_quote!({ __vp_pre!(#lit); #e }) };
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_macro_mut(&mut self, _m: &mut Macro) {}

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        // `&X` of a variant or literal binds nothing
        if let Pat::Reference(r) = p {
            if r.mutability.is_none() && matches!(&*r.pat, Pat::Path(_) | Pat::Lit(_)) {
                *p = (*r.pat).clone();
                self.note("reference patterns");
            }
        }
    }

    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        let feats = self.cfg.features.clone();
        let fields = std::mem::take(&mut s.fields);
        s.fields = fields.into_iter().filter(|f| cfg_on(&f.attrs, &feats)).collect();
        visit_mut::visit_expr_struct_mut(self, s);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        self.map_path(p, true);
        visit_mut::visit_path_mut(self, p);
    }
}

/// Whether a loop is left by a `break` of its own.
fn has_break(body: &Block, label: Option<&Label>) -> bool {
    struct B<'l> { label: Option<&'l Label>, depth: usize, found: bool }
    impl<'l, 'ast> syn::visit::Visit<'ast> for B<'l> {
        fn visit_expr(&mut self, e: &'ast Expr) {
            match e {
                Expr::Closure(_) => {}
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                    self.depth += 1;
                    syn::visit::visit_expr(self, e);
                    self.depth -= 1;
                }
                Expr::Break(b) => {
                    if match (&b.label, self.label) {
                        (None, _) => self.depth == 0,
                        (Some(l), Some(our)) => l.ident == our.name.ident,
                        _ => false,
                    } { self.found = true; }
                    syn::visit::visit_expr(self, e);
                }
                _ => syn::visit::visit_expr(self, e),
            }
        }
    }
    let mut b = B { label, depth: 0, found: false };
    syn::visit::Visit::visit_block(&mut b, body);
    b.found
}

impl<'a> ToTokens for Rewriter<'a> {
    fn to_tokens(&self, _: &mut TokenStream) {}
}

/// Whether an expression ends in an `Option` (true) or a `Result` (false).
fn result_kind(e: &Expr) -> Option<bool> {
    match peel(e) {
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => match p.path.segments.last()?.ident.to_string().as_str() {
                "Some" => Some(true),
                "Ok" | "Err" => Some(false),
                _ => None,
            },
            _ => None,
        },
        Expr::Path(p) if p.path.is_ident("None") => Some(true),
        Expr::If(i) => block_kind(&i.then_branch)
            .or_else(|| i.else_branch.as_ref().and_then(|(_, e)| result_kind(e))),
        Expr::Block(b) => block_kind(&b.block),
        Expr::Match(m) => m.arms.iter().find_map(|a| result_kind(&a.body)),
        _ => None,
    }
}

fn block_kind(b: &Block) -> Option<bool> {
    match b.stmts.last()? {
        Stmt::Expr(e, None) => result_kind(e),
        _ => None,
    }
}
