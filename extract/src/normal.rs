//! Loop forms that mean the same are put into one form before anything else
//! looks at the source: `loop { if C { break; } REST }` (no label, no other
//! value break) becomes `while !(C) { REST }`.  The prover learns `C` after a
//! `while` loop but not after the `loop`.  A closure that takes a tuple apart in
//! its parameter does so by a `let` instead (the prover knows no patterns there).
//! `let mut go = true; while go { REST; go = E; }`, where `go` is not used otherwise,
//! becomes `loop { REST; if !(E) { break; } }` (and so with `done` the other way round).
use crate::{apply, base_of, Edit, Src};
use syn::spanned::Spanned;
use syn::visit::Visit;

struct N {
    edits: Vec<Edit>,
    base: usize,
    n: usize,
    text: String,
}

struct ValueBreak(bool);
impl<'x> Visit<'x> for ValueBreak {
    fn visit_expr_closure(&mut self, _: &'x syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'x syn::Item) {}
    fn visit_expr_loop(&mut self, _: &'x syn::ExprLoop) {}
    fn visit_expr_break(&mut self, b: &'x syn::ExprBreak) {
        if b.expr.is_some() {
            self.0 = true;
        }
    }
}

fn has_let(e: &syn::Expr) -> bool {
    struct L(bool);
    impl<'x> Visit<'x> for L {
        fn visit_expr_let(&mut self, _: &'x syn::ExprLet) {
            self.0 = true;
        }
    }
    let mut l = L(false);
    l.visit_expr(e);
    l.0
}

fn only_break(b: &syn::Block) -> bool {
    if b.stmts.len() != 1 {
        return false;
    }
    match &b.stmts[0] {
        syn::Stmt::Expr(syn::Expr::Break(x), _) => x.expr.is_none() && x.label.is_none(),
        _ => false,
    }
}

/// how often the name occurs, and whether a loop of this level is continued
struct Uses<'s> {
    name: &'s str,
    uses: usize,
    depth: usize,
    continued: bool,
}
impl<'x, 's> Visit<'x> for Uses<'s> {
    fn visit_ident(&mut self, i: &'x proc_macro2::Ident) {
        if i == self.name {
            self.uses += 1;
        }
    }
    fn visit_macro(&mut self, m: &'x syn::Macro) {
        // as text, whatever it is
        if m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == self.name) {
            self.uses += 1;
        }
    }
    fn visit_expr_closure(&mut self, c: &'x syn::ExprClosure) {
        self.depth += 1;
        syn::visit::visit_expr_closure(self, c);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, l: &'x syn::ExprLoop) {
        self.depth += 1;
        syn::visit::visit_expr_loop(self, l);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, l: &'x syn::ExprWhile) {
        self.depth += 1;
        syn::visit::visit_expr_while(self, l);
        self.depth -= 1;
    }
    fn visit_expr_for_loop(&mut self, l: &'x syn::ExprForLoop) {
        self.depth += 1;
        syn::visit::visit_expr_for_loop(self, l);
        self.depth -= 1;
    }
    fn visit_expr_continue(&mut self, c: &'x syn::ExprContinue) {
        if self.depth == 0 || c.label.is_some() {
            self.continued = true;
        }
    }
}

fn ident_of(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        syn::Expr::Paren(p) => ident_of(&p.expr),
        _ => None,
    }
}

impl N {
    fn flagged(&mut self, b: &syn::Block) {
        for (k, pair) in b.stmts.windows(2).enumerate() {
            let (l, w) = match (&pair[0], &pair[1]) {
                (syn::Stmt::Local(l), syn::Stmt::Expr(syn::Expr::While(w), _)) if w.label.is_none() => (l, w),
                _ => continue,
            };
            let name = match &l.pat {
                syn::Pat::Ident(i) if i.mutability.is_some() && i.by_ref.is_none() && i.subpat.is_none() => i.ident.to_string(),
                _ => continue,
            };
            let init = match &l.init {
                Some(syn::LocalInit { expr, diverge: None, .. }) => match &**expr {
                    syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Bool(b), .. }) => b.value,
                    _ => continue,
                },
                _ => continue,
            };
            let on = match &*w.cond {
                syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => ident_of(&u.expr).map(|i| (i, false)),
                e => ident_of(e).map(|i| (i, true)),
            };
            if on != Some((name.clone(), init)) {
                continue;
            }
            let a = match w.body.stmts.last() {
                Some(syn::Stmt::Expr(syn::Expr::Assign(a), Some(_))) if ident_of(&a.left) == Some(name.clone()) => a,
                _ => continue,
            };
            let mut u = Uses { name: &name, uses: 0, depth: 0, continued: false };
            for s in &b.stmts[k..] {
                if let syn::Stmt::Expr(syn::Expr::While(x), _) = s {
                    if std::ptr::eq(x, w) {
                        u.visit_block(&x.body);
                        continue;
                    }
                }
                u.depth = 1;
                u.visit_stmt(s);
                u.depth = 0;
            }
            // where it is declared and where it is assigned
            if u.uses != 2 || u.continued {
                continue;
            }
            let r = |s: proc_macro2::Span| {
                let r = s.byte_range();
                (r.start - self.base, r.end - self.base)
            };
            let (ls, le) = r(l.span());
            let (ws, _) = r(w.while_token.span());
            let (_, ce) = r(w.cond.span());
            let (fs, _) = r(a.span());
            let (es, ee) = r(a.right.span());
            let (_, fe) = r(w.body.stmts.last().unwrap().span());
            self.edits.push(Edit { start: ls, end: le, text: String::new(), order: 0 });
            self.edits.push(Edit { start: ws, end: ce, text: "loop".into(), order: 0 });
            self.edits.push(Edit { start: fs, end: es, text: if init { "if !(".into() } else { "if (".into() }, order: 0 });
            self.edits.push(Edit { start: ee, end: fe, text: ") { break; }".into(), order: 0 });
            self.n += 1;
        }
    }
}

impl<'ast> Visit<'ast> for N {
    fn visit_block(&mut self, b: &'ast syn::Block) {
        self.flagged(b);
        syn::visit::visit_block(self, b);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let r = |s: proc_macro2::Span| {
            let r = s.byte_range();
            (r.start - self.base, r.end - self.base)
        };
        let mut lets = String::new();
        let mut edits = vec![];
        for (k, p) in c.inputs.iter().enumerate() {
            if let syn::Pat::Tuple(_) = p {
                let (s, e) = r(p.span());
                lets.push_str(&format!("let {} = __p{};", &self.text[s..e], k));
                edits.push(Edit { start: s, end: e, text: format!("__p{}", k), order: 0 });
            }
        }
        if !edits.is_empty() {
            let (bs, be) = r(c.body.span());
            edits.push(Edit { start: bs, end: bs, text: format!("{{ {} ", lets), order: -1 });
            edits.push(Edit { start: be, end: be, text: " }".into(), order: 99 });
            self.edits.append(&mut edits);
            self.n += 1;
        }
        syn::visit::visit_expr_closure(self, c);
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        syn::visit::visit_expr_loop(self, l);
        if l.label.is_some() {
            return;
        }
        let f = match l.body.stmts.first() {
            Some(syn::Stmt::Expr(syn::Expr::If(f), _)) => f,
            _ => return,
        };
        if f.else_branch.is_some() || has_let(&f.cond) || !only_break(&f.then_branch) {
            return;
        }
        let mut v = ValueBreak(false);
        v.visit_block(&l.body);
        if v.0 {
            return;
        }
        let r = |s: proc_macro2::Span| {
            let r = s.byte_range();
            (r.start - self.base, r.end - self.base)
        };
        let (ls, _) = r(l.loop_token.span());
        let (cs, ce) = r(f.cond.span());
        let (_, fe) = r(l.body.stmts[0].span());
        self.edits.push(Edit { start: ls, end: cs, text: "while !(".into(), order: 0 });
        self.edits.push(Edit { start: ce, end: fe, text: ") {".into(), order: 0 });
        self.n += 1;
    }
}

pub fn normal(text: &str, full: &str) -> Result<(String, usize), String> {
    let file = syn::parse_file(text).map_err(|e| format!("{}: does not parse: {}", full, e))?;
    let src = Src { path: full.to_string(), text: text.to_string(), file };
    let mut d = N { edits: vec![], base: base_of(&src), n: 0, text: text.to_string() };
    d.visit_file(&src.file);
    Ok((apply(text, 0, text.len(), &d.edits), d.n))
}
