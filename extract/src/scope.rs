//! Which variables are visible at each loop, how they were introduced, and
//! which functions are called.

use crate::toks;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use syn::visit::{self, Visit};
use syn::*;

#[derive(Clone)]
struct Var {
    name: String,
    mutable: bool,
    ty: Option<String>,
    init: Option<String>,
    from: &'static str,
}

#[derive(Default)]
pub struct Info {
    pub loops: Vec<Value>,
    pub calls: Vec<String>,
    pub method_calls: Vec<String>,
    pub has_return: bool,
    pub has_try: bool,
}

struct V {
    scopes: Vec<Vec<Var>>,
    loops: Vec<Value>,
    calls: BTreeSet<String>,
    methods: BTreeSet<String>,
    has_return: bool,
    has_try: bool,
    stack: Vec<u64>,
}

fn pat_vars(p: &Pat, from: &'static str, init: Option<String>, ty: Option<String>, out: &mut Vec<Var>) {
    match p {
        Pat::Ident(i) => {
            let s = i.ident.to_string();
            if s.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
                out.push(Var { name: s, mutable: i.mutability.is_some(), ty, init, from });
            }
        }
        Pat::Type(t) => pat_vars(&t.pat, from, init, Some(toks(&*t.ty)), out),
        _ => {
            let mut v = Vec::new();
            crate::rewrite::collect_pat(p, &mut v);
            for (i, m) in v {
                out.push(Var { name: i.to_string(), mutable: m, ty: None,
                               init: init.as_ref().map(|s| format!("PAT {} = {}", toks(p), s)), from });
            }
        }
    }
}

impl V {
    fn visible(&self) -> Vec<Value> {
        let mut seen = BTreeSet::new();
        let mut out = Vec::new();
        for s in self.scopes.iter().rev() {
            for v in s.iter().rev() {
                if seen.insert(v.name.clone()) {
                    out.push(json!({"name": v.name, "mut": v.mutable, "ty": v.ty,
                                    "init": v.init, "from": v.from}));
                }
            }
        }
        out
    }
}

impl<'ast> Visit<'ast> for V {
    fn visit_block(&mut self, b: &'ast Block) {
        self.scopes.push(Vec::new());
        visit::visit_block(self, b);
        self.scopes.pop();
    }

    fn visit_local(&mut self, l: &'ast Local) {
        if let Some(i) = &l.init {
            self.visit_expr(&i.expr);
        }
        let init = l.init.as_ref().map(|i| {
            let mut s = toks(&*i.expr);
            s.truncate(300);
            s
        });
        let mut v = Vec::new();
        pat_vars(&l.pat, "let", init, None, &mut v);
        self.scopes.last_mut().unwrap().extend(v);
    }

    fn visit_arm(&mut self, a: &'ast Arm) {
        let mut v = Vec::new();
        pat_vars(&a.pat, "arm", None, None, &mut v);
        self.scopes.push(v);
        visit::visit_arm(self, a);
        self.scopes.pop();
    }

    fn visit_expr_if(&mut self, i: &'ast ExprIf) {
        self.scopes.push(Vec::new());
        self.visit_expr(&i.cond);
        if let Expr::Let(l) = &*i.cond {
            let mut v = Vec::new();
            pat_vars(&l.pat, "iflet", Some(toks(&*l.expr)), None, &mut v);
            self.scopes.last_mut().unwrap().extend(v);
        }
        self.visit_block(&i.then_branch);
        self.scopes.pop();
        if let Some((_, e)) = &i.else_branch {
            self.visit_expr(e);
        }
    }

    fn visit_expr_loop(&mut self, l: &'ast ExprLoop) {
        let mut id = self.loops.len() as u64;
        if let Some(Stmt::Macro(m)) = l.body.stmts.first() {
            if let Ok(n) = m.mac.parse_body::<LitInt>() {
                id = n.base10_parse().unwrap();
            }
        }
        let vis = self.visible();
        let text = toks(&l.body);
        self.loops.push(json!({"id": id, "vars": vis, "parents": self.stack.clone(),
                               "text": text}));
        self.stack.push(id);
        visit::visit_expr_loop(self, l);
        self.stack.pop();
    }

    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.calls.insert(toks(&p.path).replace(' ', ""));
        }
        visit::visit_expr_call(self, c);
    }

    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
        self.methods.insert(c.method.to_string());
        visit::visit_expr_method_call(self, c);
    }

    fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
        self.has_return = true;
        visit::visit_expr_return(self, r);
    }

    fn visit_expr_try(&mut self, r: &'ast ExprTry) {
        self.has_try = true;
        visit::visit_expr_try(self, r);
    }
}

pub fn analyse(sig: &Signature, block: &Block) -> Info {
    let mut params = Vec::new();
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(_) => params.push(Var {
                name: "self".into(), mutable: false, ty: Some("Self".into()), init: None, from: "param" }),
            FnArg::Typed(t) => pat_vars(&t.pat, "param", None, Some(toks(&*t.ty)), &mut params),
        }
    }
    let mut v = V {
        scopes: vec![params], loops: Vec::new(), calls: BTreeSet::new(),
        methods: BTreeSet::new(), has_return: false, has_try: false, stack: Vec::new(),
    };
    v.visit_block(block);
    Info {
        loops: v.loops,
        calls: v.calls.into_iter().collect(),
        method_calls: v.methods.into_iter().collect(),
        has_return: v.has_return,
        has_try: v.has_try,
    }
}
