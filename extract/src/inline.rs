//! Inlining of helper functions that have no contract of their own.
//!
//! A call is replaced by the callee's body. Early exits of the callee (`?`
//! and `return`) are turned into nested matches and conditionals, or kept
//! where the call is itself followed by `?` and both functions have the same
//! error type. Anything else makes the function not inlinable.

use crate::toks;
use std::collections::BTreeMap;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper {
    pub sig: Signature,
    pub block: Block,
    pub uses: BTreeMap<String, String>,
    pub method: bool,
}

struct Exits {
    any: bool,
    ret_ok: bool,
}

impl<'ast> Visit<'ast> for Exits {
    fn visit_expr_try(&mut self, t: &'ast ExprTry) {
        self.any = true;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
        self.any = true;
        let is_err = match &r.expr {
            Some(e) => toks(&**e).starts_with("Err "),
            None => false,
        };
        if !is_err {
            self.ret_ok = true;
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_item(&mut self, _: &'ast Item) {}
    fn visit_macro(&mut self, m: &'ast Macro) {
        if has_exit(m.tokens.clone()) {
            self.any = true;
            self.ret_ok = true;
        }
    }
}

fn has_exit(ts: proc_macro2::TokenStream) -> bool {
    use proc_macro2::TokenTree;
    ts.into_iter().any(|t| match t {
        TokenTree::Punct(p) => p.as_char() == '?',
        TokenTree::Ident(i) => i == "return",
        TokenTree::Group(g) => has_exit(g.stream()),
        _ => false,
    })
}

fn exits_expr(e: &Expr) -> bool {
    let mut x = Exits { any: false, ret_ok: false };
    x.visit_expr(e);
    x.any
}

fn exits_stmt(s: &Stmt) -> bool {
    let mut x = Exits { any: false, ret_ok: false };
    x.visit_stmt(s);
    x.any
}

fn diverges(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(i), _)) => {
            diverges(&i.then_branch) && match &i.else_branch {
                Some((_, e)) => match &**e {
                    Expr::Block(b) => diverges(&b.block),
                    _ => false,
                },
                None => false,
            }
        }
        _ => false,
    }
}

/// Turn a function body into an expression without early exits.
fn cps(stmts: &[Stmt]) -> Option<Expr> {
    let (s, rest) = match stmts.split_first() {
        None => return Some(parse_quote!(())),
        Some(x) => x,
    };
    match s {
        Stmt::Expr(Expr::Return(r), _) => {
            return match &r.expr {
                Some(e) => tail(e),
                None => Some(parse_quote!(())),
            };
        }
        Stmt::Expr(e, None) if rest.is_empty() => return tail(e),
        _ => {}
    }
    if !exits_stmt(s) {
        let r = cps(rest)?;
        return Some(parse_quote!({ #s #r }));
    }
    match s {
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            if init.diverge.is_some() {
                return None;
            }
            if let Expr::Try(t) = &*init.expr {
                if exits_expr(&t.expr) {
                    return None;
                }
                let (e, p) = (&t.expr, &l.pat);
                let r = cps(rest)?;
                return Some(parse_quote!(match #e { Ok(#p) => #r, Err(vp_e) => Err(vp_e.into()) }));
            }
            None
        }
        Stmt::Expr(Expr::Try(t), _) => {
            if exits_expr(&t.expr) {
                return None;
            }
            let e = &t.expr;
            let r = cps(rest)?;
            Some(parse_quote!(match #e { Ok(_) => #r, Err(vp_e) => Err(vp_e.into()) }))
        }
        Stmt::Expr(Expr::If(i), _) => {
            if exits_expr(&i.cond) {
                return None;
            }
            let c = &i.cond;
            if diverges(&i.then_branch) {
                let a = cps(&i.then_branch.stmts)?;
                let mut els: Vec<Stmt> = Vec::new();
                if let Some((_, e)) = &i.else_branch {
                    match &**e {
                        Expr::Block(b) => els.extend(b.block.stmts.iter().cloned()),
                        e => els.push(Stmt::Expr(e.clone(), Some(Default::default()))),
                    }
                    if let Some(Stmt::Expr(_, semi)) = els.last_mut() {
                        *semi = Some(Default::default());
                    }
                }
                els.extend(rest.iter().cloned());
                let b = cps(&els)?;
                return Some(parse_quote!(if #c { #a } else { #b }));
            }
            None
        }
        _ => None,
    }
}

fn tail(e: &Expr) -> Option<Expr> {
    if !exits_expr(e) {
        return Some(e.clone());
    }
    match e {
        Expr::Block(b) => cps(&b.block.stmts),
        Expr::If(i) => {
            if exits_expr(&i.cond) {
                return None;
            }
            let c = &i.cond;
            let a = cps(&i.then_branch.stmts)?;
            let b = tail(&i.else_branch.as_ref()?.1)?;
            Some(parse_quote!(if #c { #a } else { #b }))
        }
        Expr::Match(m) => {
            if exits_expr(&m.expr) {
                return None;
            }
            let mut m2 = m.clone();
            for a in m2.arms.iter_mut() {
                let b = tail(&a.body)?;
                *a.body = parse_quote!({ #b });
            }
            Some(Expr::Match(m2))
        }
        Expr::Call(c) if c.args.len() == 1 && toks(&*c.func) == "Ok" => {
            if let Expr::Try(t) = &c.args[0] {
                if !exits_expr(&t.expr) {
                    let e = &t.expr;
                    return Some(parse_quote!(match #e { Ok(vp_v) => Ok(vp_v), Err(vp_e) => Err(vp_e.into()) }));
                }
            }
            None
        }
        _ => None,
    }
}

struct SelfTo(Ident);
impl VisitMut for SelfTo {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" {
            *i = self.0.clone();
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let id = self.0.to_string();
        let t = toks(&m.tokens);
        if t.contains("self") {
            let t: String = t.split(' ').map(|w| if w == "self" { id.clone() } else { w.to_string() })
                .collect::<Vec<_>>().join(" ");
            if let Ok(ts) = t.parse() {
                m.tokens = ts;
            }
        }
    }
}

struct CallTo {
    name: String,
    closure: ExprClosure,
}
impl VisitMut for CallTo {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if toks(&*c.func) == self.name {
                let pats: Vec<&Pat> = self.closure.inputs.iter().collect();
                let args: Vec<&Expr> = c.args.iter().collect();
                let body = &self.closure.body;
                *e = parse_quote!({ #(let #pats = #args;)* #body });
            }
        }
    }
}

/// Early exits go through the error type of the helper.
struct Convert(Type);
impl VisitMut for Convert {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(_) = e { return; }
        visit_mut::visit_expr_mut(self, e);
        let t = &self.0;
        match e {
            // a system error converts as it is
            Expr::Try(_) if toks(t).ends_with("io :: Error") => {}
            Expr::Try(x) => {
                let x = &x.expr;
                *e = parse_quote!((match #x {
                    Ok(vp_v) => Ok(vp_v),
                    Err(vp_e) => { let vp_h: #t = vp_e.into(); Err(vp_h) }
                })?);
            }
            Expr::Return(r) => {
                if let Some(Expr::Call(c)) = r.expr.as_deref() {
                    let v = &c.args[0];
                    *e = parse_quote!(return { let vp_h: #t = #v; Err(vp_h.into()) });
                }
            }
            _ => {}
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

fn err_type(sig: &Signature) -> Option<String> {
    if let ReturnType::Type(_, t) = &sig.output {
        if let Type::Path(p) = &**t {
            let s = p.path.segments.last()?;
            if s.ident == "Result" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    return Some(toks(a.args.last()?));
                }
            }
        }
    }
    None
}

/// Expression equivalent to calling `h` with the given arguments. With
/// `in_try`, the expression stands for the call followed by `?`.
pub fn call(h: &Helper, recv: Option<&Expr>, args: &[Expr], in_try: bool,
            caller: &Signature, n: usize) -> Option<Expr>
{
    let mut block = h.block.clone();
    let mut binds: Vec<Stmt> = Vec::new();
    let mut inputs = h.sig.inputs.iter();
    let mut args: Vec<Expr> = args.to_vec();
    if h.method {
        if let Some(FnArg::Receiver(r)) = h.sig.inputs.first() {
            inputs.next();
            let re: Expr = match recv {
                Some(e) => e.clone(),
                None => {
                    if args.is_empty() {
                        return None;
                    }
                    let a = args.remove(0);
                    if toks(&a) != "self" {
                        return None;
                    }
                    a
                }
            };
            if toks(&re) != "self" {
                let id = Ident::new(&format!("vp_self{}", n), proc_macro2::Span::call_site());
                let b: Expr = if r.reference.is_some() {
                    if r.mutability.is_some() { parse_quote!(&mut #re) } else { parse_quote!(&#re) }
                } else {
                    re
                };
                binds.push(parse_quote!(let #id = #b;));
                SelfTo(id).visit_block_mut(&mut block);
            }
        } else if recv.is_some() {
            return None;
        }
    } else if recv.is_some() {
        return None;
    }
    let params: Vec<&FnArg> = inputs.collect();
    if params.len() != args.len() {
        return None;
    }
    let generic: Vec<String> = h.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
    let mut late: Vec<Stmt> = Vec::new();
    for (i, (p, a)) in params.iter().zip(args.iter()).enumerate() {
        let p = match p {
            FnArg::Typed(p) => p,
            _ => return None,
        };
        let bare = match a {
            Expr::Reference(r) => &*r.expr,
            e => e,
        };
        if let Expr::Closure(c) = bare {
            let mut v = CallTo { name: toks(&*p.pat), closure: c.clone() };
            v.visit_block_mut(&mut block);
            continue;
        }
        let t = Ident::new(&format!("vp_arg{}_{}", n, i), proc_macro2::Span::call_site());
        let ty = &p.ty;
        let tt = toks(&**ty);
        let simple = !tt.contains("impl ") && !tt.contains('\'')
            && !generic.iter().any(|g| tt.split(' ').any(|w| w == g));
        if simple {
            binds.push(parse_quote!(let #t: #ty = #a;));
        } else if tt.starts_with("& mut ") {
            binds.push(parse_quote!(let #t: &mut _ = #a;));
        } else {
            binds.push(parse_quote!(let #t = #a;));
        }
        let pat = &p.pat;
        late.push(parse_quote!(let #pat = #t;));
    }
    binds.extend(late);
    let mut ex = Exits { any: false, ret_ok: false };
    ex.visit_block(&block);
    if !ex.any {
        let e: Expr = parse_quote!({ #(#binds)* #block });
        return Some(if in_try { parse_quote!((#e)?) } else { e });
    }
    if in_try {
        let same = match (err_type(&h.sig), err_type(caller)) {
            (Some(a), Some(b)) => a == b,
            _ => false,
        };
        let converts = match (err_type(&h.sig), err_type(caller)) {
            (Some(a), Some(_)) => !same && !a.contains("Self")
                && !generic.iter().any(|g| a.split(' ').any(|w| w == g)),
            _ => false,
        };
        if (same || converts) && !ex.ret_ok {
            // keep the early exits, unwrap the final value
            if converts {
                let t = parse_str(&err_type(&h.sig)?).ok()?;
                Convert(t).visit_block_mut(&mut block);
            }
            if let Some(Stmt::Expr(t, None)) = block.stmts.last().cloned() {
                let l = block.stmts.len();
                let new: Option<Expr> = match &t {
                    Expr::Call(c) if c.args.len() == 1 && toks(&*c.func) == "Ok" => Some(c.args[0].clone()),
                    Expr::Call(_) | Expr::MethodCall(_) | Expr::Path(_) => Some(parse_quote!((#t)?)),
                    _ => None,
                };
                if let Some(e) = new {
                    block.stmts[l - 1] = Stmt::Expr(e, None);
                    return Some(parse_quote!({ #(#binds)* #block }));
                }
            }
        }
    }
    let body = cps(&block.stmts)?;
    let v = Ident::new(&format!("vp_ret{}", n), proc_macro2::Span::call_site());
    let e: Expr = match &h.sig.output {
        ReturnType::Type(_, t) => {
            let tt = toks(&**t);
            if tt.contains('\'') || tt.contains("Self") || tt.contains("impl ")
                || generic.iter().any(|g| tt.split(' ').any(|w| w == g))
            {
                parse_quote!({ #(#binds)* let #v = #body; #v })
            } else {
                parse_quote!({ #(#binds)* let #v: #t = #body; #v })
            }
        }
        ReturnType::Default => parse_quote!({ #(#binds)* #body }),
    };
    Some(if in_try { parse_quote!((#e)?) } else { e })
}
