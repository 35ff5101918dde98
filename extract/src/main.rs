//! Mechanical extractor: copies items and functions out of /repo's current
//! source into a Verus unit, adding contracts from the unit template.
//!
//! usage: extract REPO TEMPLATE OUT.rs REPORT.json [--canary]
//!
//! See /verif/DESIGN.md ("Extraction") for the exact list of what it drops or
//! rewrites.  Exit 0: written.  Exit 3: an anchor is missing (report says so).
use proc_macro2::{Span, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::Visit;

mod desync;
mod normal;

#[derive(Clone, Debug)]
struct Edit {
    start: usize,
    end: usize,
    text: String,
    order: i32,
}

struct Src {
    path: String,
    text: String,
    file: syn::File,
}

fn rng(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

fn load(repo: &str, path: &str, pre: &[(String, String)], seq: Option<&BTreeSet<String>>, rep: &mut Report) -> Result<Src, String> {
    let full = format!("{}/{}", repo, path);
    let mut text = std::fs::read_to_string(&full).map_err(|e| format!("{}: {}", full, e))?;
    for (a, b) in pre {
        let (t, n) = subst(&text, a, b);
        if n > 0 {
            rep.substs.push(format!("{} => {} ({}x, before parsing)", a, b, n));
        }
        text = t;
    }
    let (t, n) = normal::normal(&text, &full)?;
    if n > 0 {
        rep.substs.push(format!("{}: loop {{ if C {{ break; }} .. }} => while !(C) {{ .. }} ({}x)", path, n));
        text = t;
    }
    if let Some(shared) = seq {
        let (t, n) = desync::desync(&text, &full, shared)?;
        rep.substs.push(format!("{}: concurrency notation removed, format! texts left open ({}x)", path, n));
        text = t;
    }
    let file = syn::parse_file(&text).map_err(|e| {
        if let Ok(d) = std::env::var("EXTRACT_DUMP") {
            let _ = std::fs::write(d, &text);
        }
        format!("{}: does not parse: {}", full, e)
    })?;
    // byte_range is relative to a global source map in proc-macro2 fallback:
    // compute the base from the first token if needed.
    Ok(Src { path: path.to_string(), text, file })
}

/// proc-macro2's fallback spans are offset by the files parsed before; compute
/// offset of this file by locating a known token.
fn base_of(src: &Src) -> usize {
    // the first item/attr token's line/col gives its byte offset in the text
    let ts: TokenStream = quote::ToTokens::to_token_stream(&src.file);
    let first = ts.into_iter().next();
    if let Some(t) = first {
        let sp = match &t {
            TokenTree::Group(g) => g.span_open(),
            o => o.span(),
        };
        let lc = sp.start();
        let mut off = 0;
        for (i, l) in src.text.split_inclusive('\n').enumerate() {
            if i + 1 == lc.line {
                let mut chars = l.char_indices();
                let b = chars.nth(lc.column).map(|x| x.0).unwrap_or(l.len());
                off += b;
                break;
            }
            off += l.len();
        }
        let r = sp.byte_range();
        return r.start.wrapping_sub(off);
    }
    0
}

fn apply(text: &str, start: usize, end: usize, edits: &[Edit]) -> String {
    let mut es: Vec<Edit> = edits
        .iter()
        .filter(|e| e.start >= start && e.end <= end)
        .cloned()
        .collect();
    es.sort_by(|a, b| (a.start, a.order, a.end).cmp(&(b.start, b.order, b.end)));
    let mut out = String::new();
    let mut pos = start;
    for e in es {
        if e.start < pos {
            // nested inside an already replaced region: drop, unless pure insert at pos
            continue;
        }
        out.push_str(&text[pos..e.start]);
        out.push_str(&e.text);
        pos = e.end;
    }
    out.push_str(&text[pos..end]);
    out
}

#[derive(Default, Clone, Debug)]
struct FnSpec {
    name: String,
    external: bool,
    ret: Option<String>,
    spec: String,
    loops: BTreeMap<usize, String>,
    loop_start: BTreeMap<usize, String>,
    loop_end: BTreeMap<usize, String>,
    loop_after: BTreeMap<usize, String>,
    loop_before: BTreeMap<usize, String>,
    loop_iter: BTreeMap<usize, String>,
    closures: BTreeMap<usize, (String, String)>,
    start: String,
    tail: String,
    before_call: Vec<(String, usize, String)>,
    after_call: Vec<(String, usize, String)>,
    before_ret: Vec<(usize, String)>,
    expect_loops: Option<usize>,
    attrs: Vec<String>,
    optional: bool,
    noasync: bool,
    ignore_closures: bool,
    /// what the rewritten text must contain for the contract to be decidable
    needs: Vec<String>,
}

const LOG_MACROS: &[&str] = &["trace", "debug", "info", "warn", "error"];

struct BodyVisitor<'a> {
    base: usize,
    text: &'a str,
    spec: &'a FnSpec,
    edits: Vec<Edit>,
    loops: usize,
    closures: usize,
    open: usize,
    calls: HashMap<String, usize>,
    stmt_stack: Vec<(usize, usize)>,
    callees: BTreeSet<String>,
    problems: Vec<String>,
    rets: usize,
    in_impl_self: Option<String>,
}

impl<'a> BodyVisitor<'a> {
    fn r(&self, s: Span) -> (usize, usize) {
        let (a, b) = rng(s);
        (a - self.base, b - self.base)
    }
    fn ins(&mut self, at: usize, text: String, order: i32) {
        self.edits.push(Edit { start: at, end: at, text, order });
    }
    fn loop_common(&mut self, n: usize, whole: Span, body: &syn::Block) {
        let (ws, we) = self.r(whole);
        let (bs, _) = self.r(body.brace_token.span.open());
        let (_, be) = self.r(body.brace_token.span.close());
        if let Some(t) = self.spec.loops.get(&n) {
            let t = format!("\n{}\n", t);
            self.ins(bs, t, 0);
        }
        if let Some(t) = self.spec.loop_start.get(&n) {
            let t = format!("\n{}\n", t);
            self.ins(bs + 1, t, 0);
        }
        if let Some(t) = self.spec.loop_end.get(&n) {
            let t = format!("\n{}\n", t);
            self.ins(be - 1, t, 0);
        }
        if let Some(t) = self.spec.loop_after.get(&n) {
            let t = format!("\n{}\n", t);
            self.ins(we, t, 0);
        }
        if let Some(t) = self.spec.loop_before.get(&n) {
            let t = format!("\n{}\n", t);
            self.ins(ws, t, 0);
        }
    }
    fn note_call(&mut self, name: &str, _span: Span) {
        let k = *self.calls.get(name).unwrap_or(&0);
        self.calls.insert(name.to_string(), k + 1);
        let before: Vec<String> = self
            .spec
            .before_call
            .iter()
            .filter(|(n, i, _)| n == name && *i == k)
            .map(|x| x.2.clone())
            .collect();
        let after: Vec<String> = self
            .spec
            .after_call
            .iter()
            .filter(|(n, i, _)| n == name && *i == k)
            .map(|x| x.2.clone())
            .collect();
        if let Some(&(s, e)) = self.stmt_stack.last() {
            for t in before {
                self.ins(s, format!("\n{}\n", t), 5);
            }
            for t in after {
                self.ins(e, format!("\n{}\n", t), 5);
            }
        }
    }
}

fn is_simple_spec_expr(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(_) | syn::Expr::Lit(_) => true,
        syn::Expr::Field(f) => is_simple_spec_expr(&f.base),
        syn::Expr::Paren(p) => is_simple_spec_expr(&p.expr),
        syn::Expr::Unary(u) => is_simple_spec_expr(&u.expr),
        syn::Expr::Reference(u) => is_simple_spec_expr(&u.expr),
        syn::Expr::Binary(b) => is_simple_spec_expr(&b.left) && is_simple_spec_expr(&b.right),
        _ => false,
    }
}

fn plain_body(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            syn::Stmt::Expr(x, None) => plain_body(x),
            _ => e,
        },
        syn::Expr::Paren(p) => plain_body(&p.expr),
        _ => e,
    }
}

/// a value built from names, fields and constructors only
fn is_plain_value(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(p) => p.qself.is_none(),
        syn::Expr::Lit(l) => !matches!(l.lit, syn::Lit::Int(_) | syn::Lit::Float(_) | syn::Lit::Str(_) | syn::Lit::ByteStr(_)),
        syn::Expr::Field(f) => is_plain_value(&f.base),
        syn::Expr::Paren(p) => is_plain_value(&p.expr),
        syn::Expr::Tuple(t) => t.elems.iter().all(is_plain_value),
        syn::Expr::Struct(s) => s.rest.is_none() && s.fields.iter().all(|f| is_plain_value(&f.expr)),
        syn::Expr::Call(k) => {
            k.args.iter().all(is_plain_value)
                && matches!(&*k.func, syn::Expr::Path(p) if p.qself.is_none() && (looks_like_ctor(&p.path) && p.path.segments.len() >= 2 || p.path.is_ident("Some")))
        }
        _ => false,
    }
}

fn is_bool_expr(e: &syn::Expr) -> bool {
    use syn::BinOp::*;
    match e {
        syn::Expr::Paren(p) => is_bool_expr(&p.expr),
        syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Not(_)),
        syn::Expr::Binary(b) => matches!(
            b.op,
            Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) | And(_) | Or(_)
        ),
        _ => false,
    }
}

fn looks_like_ctor(p: &syn::Path) -> bool {
    if p.segments.len() < 1 {
        return false;
    }
    let last = p.segments.last().unwrap().ident.to_string();
    if !last.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) {
        return false;
    }
    // constants are all upper case
    !last.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) || last.len() == 1
}

impl<'a, 'ast> Visit<'ast> for BodyVisitor<'a> {
    fn visit_item(&mut self, i: &'ast syn::Item) {
        // `use` inside bodies is dropped (the unit is flat)
        if let syn::Item::Use(_) = i {
            let (s, e) = self.r(i.span());
            self.edits.push(Edit { start: s, end: e, text: String::new(), order: 0 });
        }
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let r = self.r(s.span());
        self.stmt_stack.push(r);
        // drop log macro statements
        if let syn::Stmt::Macro(m) = s {
            if let Some(id) = m.mac.path.segments.last() {
                if LOG_MACROS.contains(&id.ident.to_string().as_str()) {
                    self.edits.push(Edit { start: r.0, end: r.1, text: "{}".into(), order: 0 });
                }
            }
        }
        syn::visit::visit_stmt(self, s);
        self.stmt_stack.pop();
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        // let X = loop { .. break E; .. };  =>  let X; loop { .. { X = E; break; } .. };
        if let (syn::Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
            if let syn::Expr::Loop(lp) = &*init.expr {
                struct B(Vec<(Span, Span)>);
                impl<'x> Visit<'x> for B {
                    fn visit_expr_loop(&mut self, _: &'x syn::ExprLoop) {}
                    fn visit_expr_while(&mut self, _: &'x syn::ExprWhile) {}
                    fn visit_expr_for_loop(&mut self, _: &'x syn::ExprForLoop) {}
                    fn visit_expr_closure(&mut self, _: &'x syn::ExprClosure) {}
                    fn visit_expr_break(&mut self, b: &'x syn::ExprBreak) {
                        if let (Some(e), None) = (&b.expr, &b.label) {
                            self.0.push((b.span(), e.span()));
                        }
                        syn::visit::visit_expr_break(self, b);
                    }
                }
                let mut bs = B(vec![]);
                bs.visit_block(&lp.body);
                if !bs.0.is_empty() && pi.by_ref.is_none() {
                    let name = pi.ident.to_string();
                    let (is, _) = self.r(l.pat.span());
                    let (ls, _) = self.r(lp.span());
                    let (_, lend) = self.r(l.span());
                    let mu = if pi.mutability.is_some() { "mut " } else { "" };
                    self.edits.push(Edit { start: is, end: ls, text: format!("brk_{}; ", name), order: -9 });
                    self.ins(lend, format!(" let {}{} = brk_{};", mu, name, name), 1);
                    for (b, e) in bs.0 {
                        let (b0, b1) = self.r(b);
                        let (e0, _) = self.r(e);
                        self.edits.push(Edit { start: b0, end: e0, text: format!("{{ brk_{} = ", name), order: 0 });
                        self.ins(b1, "; break; }".into(), 90);
                    }
                }
            }
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        if let Some(id) = m.mac.path.segments.last() {
            if LOG_MACROS.contains(&id.ident.to_string().as_str()) {
                let (s, e) = self.r(m.span());
                self.edits.push(Edit { start: s, end: e, text: "()".into(), order: 0 });
            }
        }
    }
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let (s, e) = self.r(a.span());
        self.edits.push(Edit { start: s, end: e, text: String::new(), order: 0 });
    }
    fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
        let n = self.loops;
        self.loops += 1;
        self.loop_common(n, w.span(), &w.body);
        syn::visit::visit_expr_while(self, w);
    }
    fn visit_expr_loop(&mut self, w: &'ast syn::ExprLoop) {
        let n = self.loops;
        self.loops += 1;
        self.loop_common(n, w.span(), &w.body);
        syn::visit::visit_expr_loop(self, w);
    }
    fn visit_expr_for_loop(&mut self, w: &'ast syn::ExprForLoop) {
        let n = self.loops;
        self.loops += 1;
        self.loop_common(n, w.span(), &w.body);
        if let Some(name) = self.spec.loop_iter.get(&n) {
            let (s, _) = self.r(w.expr.span());
            let t = format!("{}: ", name);
            self.ins(s, t, 0);
        }
        // for x in X.values() => for x in X.values_vec()
        if let syn::Expr::MethodCall(mc) = &*w.expr {
            if mc.method == "values" && mc.args.is_empty() {
                let (ms, me) = self.r(mc.method.span());
                self.edits.push(Edit { start: ms, end: me, text: "values_vec".into(), order: 0 });
            }
        }
        // `A..=B` has no specification: `A..(B) + 1` (which must not overflow)
        if let syn::Expr::Range(rg) = &*w.expr {
            if let (syn::RangeLimits::Closed(d), Some(e)) = (&rg.limits, &rg.end) {
                let (ds, de) = self.r(d.span());
                self.edits.push(Edit { start: ds, end: de, text: "..(".into(), order: 0 });
                let (_, ee) = self.r(e.span());
                self.ins(ee, ") + 1".into(), 50);
            }
        }
        syn::visit::visit_expr_for_loop(self, w);
    }
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        // comparison of two subslices
        let sub = |e: &syn::Expr| matches!(e, syn::Expr::Index(i) if matches!(&*i.index, syn::Expr::Range(_)));
        let neg = matches!(b.op, syn::BinOp::Ne(_));
        if (neg || matches!(b.op, syn::BinOp::Eq(_))) && sub(&b.left) && sub(&b.right) {
            let (ls, _) = self.r(b.left.span());
            let (_, re) = self.r(b.right.span());
            let (os, oe) = self.r(b.op.span());
            self.ins(ls, format!("{}slice_eq(&", if neg { "!" } else { "" }), -3);
            self.edits.push(Edit { start: os, end: oe, text: ", &".into(), order: 0 });
            self.ins(re, ")".into(), 100);
        }
        syn::visit::visit_expr_binary(self, b);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let n = self.closures;
        self.closures += 1;
        let (_, head_end) = self.r(c.or2_token.span());
        let (bs, be) = self.r(c.body.span());
        let is_block = matches!(&*c.body, syn::Expr::Block(b) if b.label.is_none());
        for (k, p) in c.inputs.iter().enumerate() {
            let wild = match p {
                syn::Pat::Wild(_) => Some(p.span()),
                syn::Pat::Type(t) if matches!(&*t.pat, syn::Pat::Wild(_)) => Some(t.pat.span()),
                _ => None,
            };
            if let Some(sp) = wild {
                let (s, e) = self.r(sp);
                self.edits.push(Edit { start: s, end: e, text: format!("_p{}", k), order: 0 });
            }
        }
        let mut stated = false;
        // a closure that only builds a value states so by itself
        if self.spec.closures.get(&n).is_none()
            && matches!(c.output, syn::ReturnType::Default)
            && matches!(plain_body(&c.body), syn::Expr::Struct(_) | syn::Expr::Tuple(_))
            && is_plain_value(plain_body(&c.body))
        {
            let (vs, ve) = self.r(plain_body(&c.body).span());
            let body = self.text[vs..ve].to_string();
            self.ins(bs, format!(" -> (__r: _) ensures equal(__r, {}) {{ ", body), -1);
            self.ins(be, " }".into(), 99);
            stated = true;
        } else if self.spec.closures.get(&n).is_none() && matches!(c.output, syn::ReturnType::Default) {
            let ctor = match &*c.body {
                syn::Expr::Path(p) if p.qself.is_none() && p.path.segments.len() >= 2 && looks_like_ctor(&p.path) => Some(&p.path),
                syn::Expr::Call(k) if k.args.iter().all(|a| matches!(a, syn::Expr::Path(q) if q.path.segments.len() == 1)) => match &*k.func {
                    syn::Expr::Path(p) if p.qself.is_none() && p.path.segments.len() >= 2 && looks_like_ctor(&p.path) => Some(&p.path),
                    _ => None,
                },
                _ => None,
            };
            if let Some(path) = ctor {
                let (ps, pe) = self.r(path.span());
                let ty = self.text[ps..pe].rsplitn(2, "::").nth(1).unwrap_or("Self").to_string();
                let body = self.text[bs..be].to_string();
                self.ins(bs, format!(" -> (__r: {}) ensures __r == {} {{ ", ty, body), -1);
                self.ins(be, " }".into(), 99);
                stated = true;
            }
        }
        if let Some((ret, sp)) = self.spec.closures.get(&n) {
            // replace any declared return type
            let arrow_end = match &c.output {
                syn::ReturnType::Default => head_end,
                syn::ReturnType::Type(_, t) => self.r(t.span()).1,
            };
            self.edits.push(Edit {
                start: head_end,
                end: arrow_end,
                text: format!(" -> ({})\n{}\n", ret, sp),
                order: 0,
            });
            if !is_block {
                self.ins(bs, " { ".into(), -1);
                self.ins(be, " }".into(), 99);
            }
        } else if matches!(c.output, syn::ReturnType::Default)
            && is_bool_expr(&c.body)
            && is_simple_spec_expr(&c.body)
        {
            let body = self.text[bs..be].to_string();
            self.ins(
                head_end,
                format!(" -> (__r: bool) ensures __r == ({}) {{ ", body),
                0,
            );
            self.ins(be, " }".into(), 99);
        } else if !stated {
            self.open += 1;
        }
        // statements inside closures anchor in the enclosing statement
        syn::visit::visit_expr_closure(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let name = m.method.to_string();
        if let syn::Expr::Path(p) = &*m.receiver {
            if p.path.is_ident("self") {
                self.callees.insert(name.clone());
            }
        }
        self.note_call(&name, m.span());
        if name == "any" || name == "all" {
            // X.keys().any(F) => X.keys_any(F)
            if let syn::Expr::MethodCall(inner) = &*m.receiver {
                let iname = inner.method.to_string();
                if (iname == "keys" || iname == "values") && inner.args.is_empty() {
                    let (_, re) = self.r(inner.receiver.span());
                    let (_, me) = self.r(m.method.span());
                    self.edits.push(Edit { start: re, end: me, text: format!(".{}_{}", iname, name), order: 0 });
                }
            }
        }
        if name == "find" {
            // X.values_mut().find(F) => X.values_find(F)
            if let syn::Expr::MethodCall(inner) = &*m.receiver {
                let iname = inner.method.to_string();
                if (iname == "values_mut" || iname == "values") && inner.args.is_empty() {
                    let (_, re) = self.r(inner.receiver.span());
                    let (_, me) = self.r(m.method.span());
                    self.edits.push(Edit { start: re, end: me, text: ".values_find".into(), order: 0 });
                }
            }
        }
        if name == "collect" {
            if let syn::Expr::MethodCall(inner) = &*m.receiver {
                let iname = inner.method.to_string();
                let (_, we) = self.r(m.span());
                // X.values().collect() => X.values_vec()
                if iname == "values" && inner.args.is_empty() {
                    let (_, re) = self.r(inner.receiver.span());
                    self.edits.push(Edit { start: re, end: we, text: ".values_vec()".into(), order: 0 });
                }
                // X.iter().flat_map(F).collect() => flat_map_concat(&X, F)
                if iname == "flat_map" && inner.args.len() == 1 {
                    if let syn::Expr::MethodCall(it) = &*inner.receiver {
                        if it.method == "iter" {
                            let (rs, re) = self.r(it.receiver.span());
                            let (fs, fe) = self.r(inner.args[0].span());
                            self.ins(rs, "flat_map_concat(&".into(), -3);
                            self.edits.push(Edit { start: re, end: fs, text: ", ".into(), order: 0 });
                            self.edits.push(Edit { start: fe, end: we, text: ")".into(), order: 100 });
                        }
                    }
                }
            }
        }
        // eta-expand enum constructors used as function values
        for a in m.args.iter() {
            if let syn::Expr::Path(p) = a {
                if p.path.is_ident("Some") && matches!(name.as_str(), "map" | "and_then") {
                    let (s, e) = self.r(p.span());
                    self.edits.push(Edit { start: s, end: e, text: "|__e| -> (__r: Option<_>) ensures __r == Some(__e) { Some(__e) }".into(), order: 0 });
                }
                if p.qself.is_none() && p.path.segments.last().unwrap().ident.to_string().starts_with(|c: char| c.is_uppercase()) && p.path.segments.len() >= 2
                    && matches!(name.as_str(), "map" | "map_err" | "and_then" | "unwrap_or_else" | "or_else")
                {
                    let (s, e) = self.r(p.span());
                    let full = self.text[s..e].to_string();
                    let ty = full.rsplitn(2, "::").nth(1).unwrap_or("Self").to_string();
                    self.edits.push(Edit {
                        start: s,
                        end: e,
                        text: format!("|__e| -> (__r: {}) ensures __r == {}(__e) {{ {}(__e) }}", ty, full, full),
                        order: 0,
                    });
                }
            }
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let last = p.path.segments.last().unwrap().ident.to_string();
            if p.path.segments.len() == 1
                || (p.path.segments.len() == 2
                    && (p.path.segments[0].ident == "Self"
                        || Some(p.path.segments[0].ident.to_string()) == self.in_impl_self))
            {
                self.callees.insert(last.clone());
            }
            self.note_call(&last, c.span());
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        let k = self.rets;
        self.rets += 1;
        if let Some(&(s, _)) = self.stmt_stack.last() {
            let ts: Vec<String> =
                self.spec.before_ret.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect();
            for t in ts {
                self.ins(s, format!("\n{}\n", t), 5);
            }
        }
        syn::visit::visit_expr_return(self, r);
    }
}

struct Report {
    fns: Vec<String>,
    functions: Vec<String>,
    uncontracted: Vec<String>,
    problems: Vec<String>,
    external: Vec<String>,
    contracted: usize,
    clauses: usize,
    files: BTreeSet<String>,
    substs: Vec<String>,
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","))
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn impl_key(i: &syn::ItemImpl) -> String {
    let ty = quote::ToTokens::to_token_stream(&*i.self_ty).to_string();
    match &i.trait_ {
        Some((_, p, _)) => {
            format!("{} for {}", norm(&quote::ToTokens::to_token_stream(p).to_string()), norm(&ty))
        }
        None => norm(&ty),
    }
}

/// a key without generics names the type (and trait) whatever their parameters
fn impl_matches(i: &syn::ItemImpl, key: &str) -> bool {
    let k = impl_key(i);
    if norm(&k) == norm(key) {
        return true;
    }
    let bare = |s: &str| {
        let mut d = 0;
        let mut o = String::new();
        for c in s.chars() {
            match c {
                '<' => d += 1,
                '>' => d -= 1,
                c if d == 0 => o.push(c),
                _ => {}
            }
        }
        norm(&o)
    };
    !key.contains('<') && bare(&k) == norm(key)
}

fn has_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg")
            && quote::ToTokens::to_token_stream(&a.meta).to_string().replace(' ', "").contains("(test)")
    })
}

fn strip_attrs_edits(attrs: &[syn::Attribute], base: usize, edits: &mut Vec<Edit>) {
    for a in attrs {
        let (s, e) = rng(a.span());
        edits.push(Edit { start: s - base, end: e - base, text: String::new(), order: -5 });
    }
}

fn vis_edit(v: &syn::Visibility, next: usize, base: usize, edits: &mut Vec<Edit>) {
    match v {
        syn::Visibility::Inherited => edits.push(Edit {
            start: next,
            end: next,
            text: "pub ".into(),
            order: -2,
        }),
        v => {
            let (s, e) = rng(v.span());
            edits.push(Edit { start: s - base, end: e - base, text: "pub".into(), order: -2 })
        }
    }
}

/// a helper without a contract whose text the verifier does not take: left out (and its
/// callers are then out of reach too)
fn is_dropped(text: &str, demoted: &BTreeSet<String>) -> bool {
    text.lines().find_map(|l| l.strip_prefix("// @FN ")).map_or(false, |f| demoted.contains(f.trim()))
}

/// names a function throughout: FILE#IMPL#NAME, without blanks
fn fid_of(path: &str, key: &str, name: &str) -> String {
    format!("{}#{}#{}", path, key, name).split_whitespace().collect()
}

struct FnView<'a> {
    vis: Option<&'a syn::Visibility>,
    attrs: &'a [syn::Attribute],
    sig: &'a syn::Signature,
    block: &'a syn::Block,
}

fn emit_fn(
    src: &Src,
    base: usize,
    f: FnView,
    spec: &FnSpec,
    contracted: bool,
    trait_impl: bool,
    self_ty: Option<String>,
    canary: bool,
    rep: &mut Report,
) -> (String, BTreeSet<String>) {
    let mut v = BodyVisitor {
        base,
        text: &src.text,
        spec,
        edits: vec![],
        loops: 0,
        closures: 0,
        open: 0,
        calls: HashMap::new(),
        stmt_stack: vec![],
        callees: BTreeSet::new(),
        problems: vec![],
        rets: 0,
        in_impl_self: self_ty,
    };
    v.visit_block(f.block);
    let loops = v.loops;
    let closures = v.closures;
    let open = v.open;
    let mut edits = std::mem::take(&mut v.edits);
    let callees = std::mem::take(&mut v.callees);
    let calls = std::mem::take(&mut v.calls);
    let mut problems = std::mem::take(&mut v.problems);
    let rets = v.rets;
    let fid = fid_of(&src.path, v.in_impl_self.as_deref().unwrap_or(""), &f.sig.ident.to_string());
    let fname = fid.clone();
    if let Some(n) = spec.expect_loops {
        if n != loops {
            problems.push(format!("{}: {} loops, expected {}", fname, loops, n));
        }
    }
    let maxloop = [&spec.loops, &spec.loop_start, &spec.loop_end, &spec.loop_after, &spec.loop_before, &spec.loop_iter]
        .iter()
        .filter_map(|m| m.keys().max().cloned())
        .max();
    if let Some(m) = maxloop {
        if m >= loops {
            problems.push(format!("{}: loop {} not found", fname, m));
        }
        if spec.expect_loops.is_none() && spec.loops.len() != loops {
            problems.push(format!("{}: {} loops but {} invariants", fname, loops, spec.loops.len()));
        }
    } else if loops > 0 && contracted && !spec.external {
        problems.push(format!("{}: {} loops without invariants", fname, loops));
    }
    if let Some(m) = spec.closures.keys().max() {
        if *m >= closures {
            problems.push(format!("{}: closure {} not found", fname, m));
        }
    }
    for (n, i, _) in spec.before_call.iter().chain(spec.after_call.iter()) {
        if *calls.get(n).unwrap_or(&0) <= *i {
            problems.push(format!("{}: call {} #{} not found", fname, n, i));
        }
    }
    for t in &spec.needs {
        let r = rng(f.block.span());
        if !src.text[r.0 - base..r.1 - base].contains(t.as_str()) {
            problems.push(format!("{}: no `{}` in its rewritten text", fname, t));
        }
    }
    for (i, _) in &spec.before_ret {
        if *i >= rets {
            problems.push(format!("{}: return #{} not found", fname, i));
        }
    }
    rep.problems.extend(problems);

    let sig_start = rng(f.sig.span()).0 - base;
    let start = match f.vis {
        Some(syn::Visibility::Inherited) | None => sig_start,
        Some(v) => rng(v.span()).0 - base,
    };
    let end = rng(f.block.brace_token.span.close()).1 - base;
    let bopen = rng(f.block.brace_token.span.open()).0 - base;
    if !trait_impl {
        if let Some(vis) = f.vis {
            vis_edit(vis, sig_start, base, &mut edits);
        }
    }
    if spec.noasync {
        if let Some(a) = &f.sig.asyncness {
            let (s, e) = rng(a.span());
            edits.push(Edit { start: s - base, end: e - base, text: String::new(), order: 0 });
        }
    }
    // the verifier wants a name for every parameter
    for (k, a) in f.sig.inputs.iter().enumerate() {
        if let syn::FnArg::Typed(t) = a {
            if let syn::Pat::Wild(_) = &*t.pat {
                let (s, e) = rng(t.pat.span());
                edits.push(Edit { start: s - base, end: e - base, text: format!("_p{}", k), order: 0 });
            }
        }
    }
    // name the result
    if let Some(rn) = &spec.ret {
        match &f.sig.output {
            syn::ReturnType::Type(_, t) => {
                let (s, e) = rng(t.span());
                let tt = src.text[s - base..e - base].to_string();
                edits.push(Edit { start: s - base, end: e - base, text: format!("({}: {})", rn, tt), order: 0 });
            }
            syn::ReturnType::Default => {
                let e = rng(f.sig.paren_token.span.close()).1 - base;
                edits.push(Edit { start: e, end: e, text: format!(" -> ({}: ())", rn), order: 0 });
            }
        }
    }
    if !spec.spec.trim().is_empty() {
        edits.push(Edit { start: bopen, end: bopen, text: format!("\n{}\n", spec.spec), order: 0 });
    }
    let mut st = String::new();
    if canary && contracted && !spec.external {
        st.push_str(" assert(false); /*CANARY*/ ");
    }
    st.push_str(&spec.start);
    if !st.trim().is_empty() {
        edits.push(Edit { start: bopen + 1, end: bopen + 1, text: format!("\n{}\n", st), order: 0 });
    }
    if !spec.tail.trim().is_empty() {
        let at = match f.block.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) => rng(e.span()).0 - base,
            _ => end - 1,
        };
        edits.push(Edit { start: at, end: at, text: format!("\n{}\n", spec.tail), order: 50 });
    }
    if spec.external {
        // an assumed contract: the body is not looked at
        edits.retain(|e| e.end <= bopen + 0);
        edits.push(Edit { start: bopen, end, text: "{ unimplemented!() }".into(), order: 90 });
    }
    let mut out = String::new();
    out.push_str(&format!("// @FN {}\n", fid));
    if spec.external {
        out.push_str("#[verifier::external_body]\n");
        rep.external.push(fid.clone());
    }
    for a in &spec.attrs {
        out.push_str(a);
        out.push('\n');
    }
    let _ = f.attrs;
    out.push_str(&apply(&src.text, start, end, &edits));
    out.push_str("\n// @ENDFN\n");
    rep.fns.push(format!(
        "{{\"id\":{},\"contracted\":{},\"external\":{},\"open\":{},\"calls\":{}}}",
        json_str(&fid),
        contracted,
        spec.external,
        open,
        json_list(&callees.iter().cloned().collect::<Vec<_>>())
    ));
    let line = src.text[..start].matches('\n').count() + 1;
    rep.functions.push(format!(
        "{}:{}:{}{}",
        src.path,
        line,
        f.sig.ident,
        if spec.external { " (external_body)" } else if contracted { "" } else { " (no contract)" }
    ));
    if contracted && !spec.external {
        rep.contracted += 1;
    }
    (out, callees)
}

fn emit_item(src: &Src, base: usize, name: &str, keep: &[String], extra: &str) -> Result<String, String> {
    // "private": the fields keep no visibility (a type invariant needs that)
    let (private, extra) = match extra.strip_prefix("private") {
        Some(r) => (true, r.trim()),
        None => (false, extra),
    };
    for it in &src.file.items {
        let mut edits = vec![];
        match it {
            syn::Item::Struct(s) if s.ident == name => {
                strip_attrs_edits(&s.attrs, base, &mut edits);
                vis_edit(&s.vis, rng(s.struct_token.span()).0 - base, base, &mut edits);
                for f in s.fields.iter() {
                    strip_attrs_edits(&f.attrs, base, &mut edits);
                    let nx = match &f.ident {
                        Some(i) => rng(i.span()).0 - base,
                        None => rng(f.ty.span()).0 - base,
                    };
                    if private {
                        if !matches!(f.vis, syn::Visibility::Inherited) {
                            let (a, b) = rng(f.vis.span());
                            edits.push(Edit { start: a - base, end: b - base, text: String::new(), order: -2 });
                        }
                        continue;
                    }
                    vis_edit(&f.vis, nx, base, &mut edits);
                }
                let (a, b) = rng(s.span());
                return Ok(with_derive(&s.attrs, keep, extra, apply(&src.text, a - base, b - base, &edits)));
            }
            syn::Item::Enum(s) if s.ident == name => {
                strip_attrs_edits(&s.attrs, base, &mut edits);
                vis_edit(&s.vis, rng(s.enum_token.span()).0 - base, base, &mut edits);
                for v in &s.variants {
                    strip_attrs_edits(&v.attrs, base, &mut edits);
                    for f in v.fields.iter() {
                        strip_attrs_edits(&f.attrs, base, &mut edits);
                    }
                }
                let (a, b) = rng(s.span());
                return Ok(with_derive(&s.attrs, keep, extra, apply(&src.text, a - base, b - base, &edits)));
            }
            syn::Item::Type(s) if s.ident == name => {
                strip_attrs_edits(&s.attrs, base, &mut edits);
                vis_edit(&s.vis, rng(s.type_token.span()).0 - base, base, &mut edits);
                let (a, b) = rng(s.span());
                return Ok(apply(&src.text, a - base, b - base, &edits));
            }
            syn::Item::Const(s) if s.ident == name => {
                strip_attrs_edits(&s.attrs, base, &mut edits);
                vis_edit(&s.vis, rng(s.const_token.span()).0 - base, base, &mut edits);
                let (a, b) = rng(s.span());
                return Ok(apply(&src.text, a - base, b - base, &edits));
            }
            syn::Item::Trait(s) if s.ident == name => {
                strip_attrs_edits(&s.attrs, base, &mut edits);
                vis_edit(&s.vis, rng(s.trait_token.span()).0 - base, base, &mut edits);
                let (a, b) = rng(s.span());
                return Ok(apply(&src.text, a - base, b - base, &edits));
            }
            _ => {}
        }
    }
    Err(format!("{}: item {} not found", src.path, name))
}

fn with_derive(attrs: &[syn::Attribute], keep: &[String], extra: &str, body: String) -> String {
    let mut kept = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                if let Some(i) = m.path.segments.last() {
                    let i = i.ident.to_string();
                    if keep.contains(&i) {
                        kept.push(i);
                    }
                }
                Ok(())
            });
        }
    }
    let mut o = String::new();
    if !extra.is_empty() {
        o.push_str(extra);
        o.push('\n');
    }
    if !kept.is_empty() {
        let _ = writeln!(o, "#[derive({})]", kept.join(", "));
    }
    o.push_str(body.trim());
    o.push('\n');
    o
}

/// whitespace-insensitive textual substitution
fn subst(text: &str, from: &str, to: &str) -> (String, usize) {
    let pat: Vec<char> = from.chars().filter(|c| !c.is_whitespace()).collect();
    if pat.is_empty() {
        return (text.to_string(), 0);
    }
    let chars: Vec<(usize, char)> = text.char_indices().collect();
    let mut out = String::new();
    let mut i = 0;
    let mut n = 0;
    let isid = |c: char| c.is_alphanumeric() || c == '_';
    while i < chars.len() {
        let mut j = i;
        let mut k = 0;
        if chars[i].1 == pat[0] && !(isid(pat[0]) && i > 0 && isid(chars[i - 1].1)) {
            while j < chars.len() && k < pat.len() {
                if chars[j].1.is_whitespace() {
                    if k == 0 { break; }
                    j += 1;
                    continue;
                }
                if chars[j].1 == pat[k] {
                    j += 1;
                    k += 1;
                } else {
                    break;
                }
            }
        }
        if k == pat.len() && !(isid(pat[k - 1]) && j < chars.len() && isid(chars[j].1)) {
            out.push_str(to);
            i = j;
            n += 1;
        } else {
            out.push(chars[i].1);
            i += 1;
        }
    }
    (out, n)
}

fn parse_fn_spec(head: &str, lines: &[String]) -> FnSpec {
    let mut s = FnSpec::default();
    let mut it = head.split_whitespace();
    s.name = it.next().unwrap_or("").to_string();
    for o in it {
        match o {
            "external" => s.external = true,
            "optional" => s.optional = true,
            "noasync" => s.noasync = true,
            "ignore_closures" => s.ignore_closures = true,
            o if o.starts_with("loops=") => s.expect_loops = o[6..].parse().ok(),
            _ => {}
        }
    }
    let mut cur: Vec<String> = vec![];
    let mut sec = String::from("spec");
    let flush = |s: &mut FnSpec, sec: &str, cur: &mut Vec<String>| {
        let t = cur.join("\n");
        cur.clear();
        let mut w = sec.split_whitespace();
        match w.next().unwrap_or("") {
            "ret" => {
                s.ret = w.next().map(|x| x.to_string());
                s.spec = t;
            }
            "spec" => s.spec.push_str(&t),
            "attr" => s.attrs.push(sec[4..].trim().to_string()),
            "needs" => {
                s.needs.push(sec[5..].trim().to_string());
                s.spec.push_str(&t)
            }
            "loop" => {
                let n: usize = w.next().unwrap().parse().unwrap();
                match w.next() {
                    None => { s.loops.insert(n, t); }
                    Some("start") => { s.loop_start.insert(n, t); }
                    Some("end") => { s.loop_end.insert(n, t); }
                    Some("after") => { s.loop_after.insert(n, t); }
                    Some("before") => { s.loop_before.insert(n, t); }
                    Some("iter") => { s.loop_iter.insert(n, w.next().unwrap().to_string()); }
                    Some(x) => panic!("loop {}", x),
                }
            }
            "closure" => {
                let n: usize = w.next().unwrap().parse().unwrap();
                let rest = sec.splitn(3, ' ').nth(2).unwrap_or("").trim();
                let rest = rest.strip_prefix('(').and_then(|r| r.strip_suffix(')')).unwrap_or(rest).to_string();
                // keep balanced parens
                s.closures.insert(n, (rest, t));
            }
            "start" => s.start = t,
            "tail" => s.tail = t,
            "before" | "after" => {
                let which = sec.split_whitespace().next().unwrap().to_string();
                let what = w.next().unwrap().to_string();
                let n: usize = w.next().unwrap_or("0").parse().unwrap();
                if what == "return" {
                    s.before_ret.push((n, t));
                } else if which == "before" {
                    s.before_call.push((what, n, t));
                } else {
                    s.after_call.push((what, n, t));
                }
            }
            "" => {}
            x => panic!("unknown section {}", x),
        }
    };
    for l in lines {
        if let Some(r) = l.trim_start().strip_prefix("//@ ") {
            flush(&mut s, &sec, &mut cur);
            sec = r.trim().to_string();
        } else {
            cur.push(l.clone());
        }
    }
    flush(&mut s, &sec, &mut cur);
    s
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (repo, template, out_path, rep_path) = (&args[1], &args[2], &args[3], &args[4]);
    let canary = args.iter().any(|a| a == "--canary");
    // functions whose bodies the verifier cannot take in their current form:
    // their contract is then assumed (and reported so by the caller)
    let demoted: BTreeSet<String> = args
        .iter()
        .filter_map(|a| a.strip_prefix("--external="))
        .flat_map(|a| a.split(';').map(|x| x.to_string()).collect::<Vec<_>>())
        .collect();
    let tdir = std::path::Path::new(template).parent().unwrap().to_path_buf();
    // resolve //@ include
    fn read_lines(p: &std::path::Path, dir: &std::path::Path) -> Vec<String> {
        let mut out = vec![];
        let t = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{}: {}", p.display(), e));
        for l in t.lines() {
            if let Some(r) = l.trim().strip_prefix("//@ include ") {
                out.extend(read_lines(&dir.join(r.trim()), dir));
            } else {
                out.push(l.to_string());
            }
        }
        out
    }
    let lines = read_lines(std::path::Path::new(template), &tdir);
    let mut rep = Report {
        functions: vec![],
        uncontracted: vec![],
        fns: vec![],
        problems: vec![],
        external: vec![],
        contracted: 0,
        clauses: 0,
        files: BTreeSet::new(),
        substs: vec![],
    };
    let mut out = String::new();
    let mut missing: Vec<String> = vec![];
    let mut srcs: HashMap<String, (Src, usize)> = HashMap::new();
    let mut cur_src = String::new();
    let mut substs: Vec<(String, String)> = vec![];
    let mut presubsts: Vec<(String, String)> = vec![];
    let mut seq = false;
    let mut shared: BTreeSet<String> = BTreeSet::new();
    let mut keep: Vec<String> = vec!["Clone".into(), "Copy".into()];
    // current impl: (index of item in file, key, fns emitted)
    let mut cur_impl: Option<(usize, String)> = None;
    // constants of inherent impls: each once, however many blocks there are
    let mut consts_done: BTreeSet<String> = BTreeSet::new();
    let mut emitted: HashMap<String, BTreeSet<String>> = HashMap::new(); // per impl key or "" for free fns
    let mut callees_of: HashMap<String, BTreeSet<String>> = HashMap::new();
    let mut alias: HashMap<String, String> = HashMap::new();
    // everything the unit gives a contract somewhere: (file, type, function)
    let bare_type = |key: &str| -> String {
        let k = key.split(" as ").next().unwrap().split(" for ").last().unwrap();
        norm(k.split('<').next().unwrap())
    };
    let mut declared: BTreeSet<(String, String, String)> = BTreeSet::new();
    {
        let (mut f, mut t) = (String::new(), String::new());
        for l in lines.iter() {
            if let Some(c) = l.trim_start().strip_prefix("//@ ") {
                let c = c.trim();
                if let Some(r) = c.strip_prefix("src ") {
                    f = r.trim().to_string();
                } else if let Some(r) = c.strip_prefix("impl ") {
                    t = bare_type(r.trim());
                } else if c == "endimpl" {
                    t = String::new();
                } else if let Some(r) = c.strip_prefix("fn ") {
                    if let Some(n) = r.split_whitespace().next() {
                        declared.insert((f.clone(), t.clone(), n.to_string()));
                    }
                }
            }
        }
    }
    let mut i = 0;
    let do_sub = |t: String, substs: &Vec<(String, String)>, rep: &mut Report| {
        let mut t = t;
        for (a, b) in substs {
            let (n, k) = subst(&t, a, b);
            if k > 0 {
                let e = format!("{} => {}", a, b);
                if !rep.substs.contains(&e) {
                    rep.substs.push(e);
                }
            }
            t = n;
        }
        t
    };
    while i < lines.len() {
        let l = lines[i].clone();
        i += 1;
        let cmd = match l.trim_start().strip_prefix("//@ ") {
            Some(c) => c.trim().to_string(),
            None => {
                out.push_str(&l);
                out.push('\n');
                continue;
            }
        };
        let (word, rest) = match cmd.find(' ') {
            Some(p) => (cmd[..p].to_string(), cmd[p + 1..].trim().to_string()),
            None => (cmd.clone(), String::new()),
        };
        match word.as_str() {
            "src" => {
                cur_src = rest.clone();
                if !srcs.contains_key(&rest) {
                    // "FILE in FN": the items declared inside the body of FN
                    let (path, inside) = match rest.find(" in ") {
                        Some(p) => (rest[..p].trim().to_string(), Some(rest[p + 4..].trim().to_string())),
                        None => (rest.clone(), None),
                    };
                    match load(repo, &path, &std::mem::take(&mut presubsts), if seq { Some(&shared) } else { None }, &mut rep) {
                        Ok(mut s) => {
                            let b = base_of(&s);
                            if let Some(f) = inside {
                                let mut items = vec![];
                                for it in &s.file.items {
                                    if let syn::Item::Fn(x) = it {
                                        if x.sig.ident == f.as_str() {
                                            for st in &x.block.stmts {
                                                if let syn::Stmt::Item(i) = st {
                                                    items.push(i.clone());
                                                }
                                            }
                                        }
                                    }
                                }
                                s.file.items = items;
                            }
                            rep.files.insert(path.clone());
                            srcs.insert(rest.clone(), (s, b));
                        }
                        Err(e) => {
                            missing.push(e);
                        }
                    }
                }
            }
            "subst" => {
                let mut p = rest.splitn(2, "=>");
                let a = p.next().unwrap().trim().to_string();
                let b = p.next().unwrap_or("").trim().to_string();
                substs.push((a, b));
            }
            "unsubst" => substs.clear(),
            "sequential" => seq = rest != "off",
            // "//@ shared TYPE": methods taking `&self` take `&mut self`
            "shared" => shared.extend(rest.split_whitespace().map(|x| x.to_string())),
            // applied to the text of the next `src` before it is parsed
            "presubst" => {
                let mut p = rest.splitn(2, "=>");
                let a = p.next().unwrap().trim().to_string();
                let b = p.next().unwrap_or("").trim().to_string();
                presubsts.push((a, b));
            }
            "keep" => keep = rest.split(',').map(|s| s.trim().to_string()).collect(),
            "item" => {
                let mut p = rest.splitn(2, ' ');
                let name = p.next().unwrap().to_string();
                let extra = p.next().unwrap_or("").to_string();
                match srcs.get(&cur_src) {
                    Some((s, b)) => match emit_item(s, *b, &name, &keep, &extra) {
                        Ok(t) => {
                            let t = do_sub(t, &substs, &mut rep);
                            out.push_str(&t)
                        }
                        Err(e) => missing.push(e),
                    },
                    None => missing.push(format!("{}: item {}", cur_src, name)),
                }
            }
            "impl" => {
                // "//@ impl KEY [as HEADER]"
                let (key, header) = match rest.find(" as ") {
                    Some(p) => (rest[..p].trim().to_string(), Some(rest[p + 4..].trim().to_string())),
                    None => (rest.clone(), None),
                };
                let mut found = None;
                if let Some((s, base)) = srcs.get(&cur_src) {
                    // which fns does this block want? choose the impl containing the first one
                    let mut want = None;
                    let mut j = i;
                    while j < lines.len() {
                        let t = lines[j].trim_start();
                        if let Some(r) = t.strip_prefix("//@ fn ") {
                            want = r.split_whitespace().next().map(|x| x.to_string());
                            break;
                        }
                        if t.starts_with("//@ endimpl") {
                            break;
                        }
                        j += 1;
                    }
                    for (n, it) in s.file.items.iter().enumerate() {
                        if let syn::Item::Impl(im) = it {
                            if has_cfg_test(&im.attrs) {
                                continue;
                            }
                            if impl_matches(im, &key) {
                                let has = want.as_ref().map(|w| {
                                    im.items.iter().any(|x| matches!(x, syn::ImplItem::Fn(f) if f.sig.ident == w.as_str()))
                                });
                                if found.is_none() || has == Some(true) {
                                    found = Some(n);
                                    if has != Some(false) {
                                        break;
                                    }
                                }
                            }
                        }
                    }
                    if let Some(n) = found {
                        if let syn::Item::Impl(im) = &s.file.items[n] {
                            let st = rng(im.span()).0 - base;
                            let op = rng(im.brace_token.span.open()).0 - base;
                            let mut edits = vec![];
                            strip_attrs_edits(&im.attrs, *base, &mut edits);
                            let inherent = header.as_ref().map(|h| !h.contains(" for ")).unwrap_or(false);
                            let h = match header {
                                Some(h) => h,
                                None => apply(&s.text, st, op, &edits),
                            };
                            let h = do_sub(h, &substs, &mut rep);
                            out.push_str(h.trim());
                            out.push_str(" {\n");
                            // associated types / consts
                            for x in &im.items {
                                match x {
                                    syn::ImplItem::Type(t) if !inherent => {
                                        let (a, b) = rng(t.span());
                                        out.push_str(&do_sub(s.text[a - base..b - base].to_string(), &substs, &mut rep));
                                        out.push('\n');
                                    }
                                    syn::ImplItem::Const(c)
                                        if (inherent || im.trait_.is_none())
                                            && !matches!(c.expr, syn::Expr::Call(_))
                                            && consts_done.insert(format!("{}#{}#{}", cur_src, key, c.ident)) =>
                                    {
                                        let (a, b) = rng(c.span());
                                        let mut edits = vec![];
                                        strip_attrs_edits(&c.attrs, *base, &mut edits);
                                        let t = apply(&s.text, a - base, b - base, &edits);
                                        out.push_str(&do_sub(t, &substs, &mut rep));
                                        out.push('\n');
                                    }
                                    _ => {}
                                }
                            }
                        }
                    }
                }
                match found {
                    Some(n) => cur_impl = Some((n, key)),
                    None => {
                        missing.push(format!("{}: impl {} not found", cur_src, key));
                        out.push_str("impl Missing__ {\n");
                        cur_impl = Some((usize::MAX, key));
                    }
                }
            }
            "endimpl" => {
                // add uncontracted helper methods that the emitted ones call
                let mut after_impl = String::new();
                if let Some((n, key)) = cur_impl.take() {
                    if n != usize::MAX {
                        let (s, base) = srcs.get(&cur_src).unwrap();
                        let k = format!("{}#{}", cur_src, key);
                        let is_trait = key.contains(" for ");
                        loop {
                            emitted.entry(k.clone()).or_default();
                            let done: BTreeSet<String> = emitted
                                .iter()
                                .filter(|(kk, _)| **kk == k || (is_trait && kk.starts_with(&format!("{}#", cur_src))))
                                .flat_map(|x| x.1.iter().cloned())
                                .collect();
                            let want = callees_of.entry(k.clone()).or_default().clone();
                            let mut add = None;
                            for it in s.file.items.iter() {
                                if let syn::Item::Impl(im) = it {
                                    if im.trait_.is_some() || !impl_matches(im, key.split(" for ").last().unwrap()) {
                                        continue;
                                    }
                                    for x in &im.items {
                                        if let syn::ImplItem::Fn(f) = x {
                                            let nm = f.sig.ident.to_string();
                                            if want.contains(&nm) && !done.contains(&nm) && !has_cfg_test(&f.attrs) && !alias.contains_key(&format!("{}::{}", key, nm)) && !alias.contains_key(&nm) && !declared.contains(&(cur_src.clone(), bare_type(&key), nm.clone())) {
                                                let st = rng(im.span()).0 - *base;
                                                let op = rng(im.brace_token.span.open()).0 - *base;
                                                let mut he = vec![];
                                                strip_attrs_edits(&im.attrs, *base, &mut he);
                                                add = Some((f.clone(), apply(&s.text, st, op, &he)));
                                            }
                                        }
                                    }
                                }
                            }
                            match add {
                                None => break,
                                Some((f, header)) => {
                                    let spec = FnSpec { name: f.sig.ident.to_string(), ..Default::default() };
                                    let (t, c) = emit_fn(
                                        s,
                                        *base,
                                        FnView { vis: Some(&f.vis), attrs: &f.attrs, sig: &f.sig, block: &f.block },
                                        &spec,
                                        false,
                                        false,
                                        None,
                                        false,
                                        &mut rep,
                                    );
                                    emitted.get_mut(&k).unwrap().insert(f.sig.ident.to_string());
                                    if is_dropped(&t, &demoted) {
                                        continue;
                                    }
                                    rep.uncontracted.push(format!("{}::{}", key, f.sig.ident));
                                    let t = do_sub(t, &substs, &mut rep);
                                    if is_trait {
                                        // inherent helper of a trait impl
                                        let h = do_sub(header, &substs, &mut rep);
                                        after_impl.push_str(&format!("{} {{\n{}}}\n", h.trim(), t));
                                    } else {
                                        out.push_str(&t);
                                    }
                                    emitted.get_mut(&k).unwrap().insert(f.sig.ident.to_string());
                                    callees_of.get_mut(&k).unwrap().extend(c);
                                }
                            }
                        }
                        // free functions called
                        let want = callees_of.get(&k).cloned().unwrap_or_default();
                        callees_of.entry(format!("{}#", cur_src)).or_default().extend(want);
                    }
                }
                out.push_str("}\n");
                out.push_str(&after_impl);
            }
            // "//@ known NAME": NAME is provided by the unit itself (a shim)
            "known" => {
                for n in rest.split_whitespace() {
                    alias.insert(n.to_string(), String::new());
                }
            }
            "endsrc" => {
                // add uncontracted free helper functions of the current file
                if let Some((s, base)) = srcs.get(&cur_src) {
                    let k = format!("{}#", cur_src);
                    loop {
                        let done = emitted.entry(k.clone()).or_default().clone();
                        let want = callees_of.entry(k.clone()).or_default().clone();
                        let mut add = None;
                        for it in s.file.items.iter() {
                            if let syn::Item::Fn(f) = it {
                                let nm = f.sig.ident.to_string();
                                if want.contains(&nm) && !done.contains(&nm) && !has_cfg_test(&f.attrs) && !alias.contains_key(&nm) && !declared.contains(&(cur_src.clone(), String::new(), nm.clone())) {
                                    add = Some(f.clone());
                                }
                            }
                        }
                        match add {
                            None => break,
                            Some(f) => {
                                let spec = FnSpec { name: f.sig.ident.to_string(), ..Default::default() };
                                let (t, c) = emit_fn(
                                    s,
                                    *base,
                                    FnView { vis: Some(&f.vis), attrs: &f.attrs, sig: &f.sig, block: &f.block },
                                    &spec,
                                    false,
                                    false,
                                    None,
                                    false,
                                    &mut rep,
                                );
                                emitted.get_mut(&k).unwrap().insert(f.sig.ident.to_string());
                                if is_dropped(&t, &demoted) {
                                    continue;
                                }
                                rep.uncontracted.push(format!("{}", f.sig.ident));
                                let t = do_sub(t, &substs, &mut rep);
                                out.push_str(&t);
                                emitted.get_mut(&k).unwrap().insert(f.sig.ident.to_string());
                                callees_of.get_mut(&k).unwrap().extend(c);
                            }
                        }
                    }
                }
            }
            "fn" => {
                let mut body = vec![];
                while i < lines.len() && lines[i].trim() != "//@ end" {
                    body.push(lines[i].clone());
                    i += 1;
                }
                i += 1;
                let mut spec = parse_fn_spec(&rest, &body);
                let fkey = cur_impl.as_ref().map(|x| x.1.clone()).unwrap_or_default();
                if demoted.contains(&fid_of(&cur_src, &fkey, &spec.name)) {
                    let keep_spec = std::mem::take(&mut spec);
                    spec = FnSpec {
                        name: keep_spec.name,
                        ret: keep_spec.ret,
                        spec: keep_spec.spec,
                        attrs: keep_spec.attrs,
                        noasync: keep_spec.noasync,
                        external: true,
                        ..Default::default()
                    };
                }
                rep.clauses += spec.spec.matches(',').count();
                let mut ok = false;
                if let Some((s, base)) = srcs.get(&cur_src) {
                    match &cur_impl {
                        Some((n, key)) => {
                            let mut cands: Vec<&syn::ItemImpl> = vec![];
                            if *n != usize::MAX {
                                if let syn::Item::Impl(im) = &s.file.items[*n] {
                                    cands.push(im);
                                }
                            }
                            for it in s.file.items.iter() {
                                if let syn::Item::Impl(im) = it {
                                    if impl_matches(im, key) && !has_cfg_test(&im.attrs) {
                                        cands.push(im);
                                    }
                                }
                            }
                            'o: for im in cands {
                                for x in &im.items {
                                    if let syn::ImplItem::Fn(f) = x {
                                        if f.sig.ident == spec.name.as_str() && !has_cfg_test(&f.attrs) {
                                            let (t, c) = emit_fn(
                                                s,
                                                *base,
                                                FnView { vis: Some(&f.vis), attrs: &f.attrs, sig: &f.sig, block: &f.block },
                                                &spec,
                                                true,
                                                im.trait_.is_some(),
                                                Some(key.clone()),
                                                canary,
                                                &mut rep,
                                            );
                                            let t = do_sub(t, &substs, &mut rep);
                                            out.push_str(&t);
                                            let k = format!("{}#{}", cur_src, key);
                                            emitted.entry(k.clone()).or_default().insert(spec.name.clone());
                                            callees_of.entry(k).or_default().extend(c);
                                            ok = true;
                                            break 'o;
                                        }
                                    }
                                }
                            }
                        }
                        None => {
                            for it in s.file.items.iter() {
                                if let syn::Item::Fn(f) = it {
                                    if f.sig.ident == spec.name.as_str() && !has_cfg_test(&f.attrs) {
                                        let (t, c) = emit_fn(
                                            s,
                                            *base,
                                            FnView { vis: Some(&f.vis), attrs: &f.attrs, sig: &f.sig, block: &f.block },
                                            &spec,
                                            true,
                                            false,
                                            None,
                                            canary,
                                            &mut rep,
                                        );
                                        let t = do_sub(t, &substs, &mut rep);
                                        out.push_str(&t);
                                        let k = format!("{}#", cur_src);
                                        emitted.entry(k.clone()).or_default().insert(spec.name.clone());
                                        callees_of.entry(k).or_default().extend(c);
                                        ok = true;
                                    }
                                }
                            }
                        }
                    }
                }
                if !ok && !spec.optional {
                    missing.push(fid_of(&cur_src, &fkey, &spec.name));
                }
            }
            _ => {
                eprintln!("unknown directive: {}", l);
                std::process::exit(2);
            }
        }
    }
    let out = unraw(&out);
    std::fs::write(out_path, &out).unwrap();
    let files: Vec<String> = rep.files.iter().cloned().collect();
    let j = format!(
        "{{\"fns\":[{}],\"functions\":{},\"uncontracted\":{},\"problems\":{},\"missing\":{},\"external\":{},\"contracted\":{},\"files\":{},\"substitutions\":{}}}\n",
        rep.fns.join(","),
        json_list(&rep.functions),
        json_list(&rep.uncontracted),
        json_list(&rep.problems),
        json_list(&missing),
        json_list(&rep.external),
        rep.contracted,
        json_list(&files),
        json_list(&rep.substs)
    );
    std::fs::write(rep_path, j).unwrap();
    if !missing.is_empty() {
        std::process::exit(3);
    }
}

/// Verus hands raw identifiers to the solver unescaped (`type#` is not an SMT
/// symbol), so `r#name` becomes `raw_name` throughout
fn unraw(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = String::with_capacity(s.len());
    let mut i = 0;
    while i < b.len() {
        let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
        if b[i] == b'r' && i + 2 < b.len() && b[i + 1] == b'#'
            && (b[i + 2].is_ascii_alphabetic() || b[i + 2] == b'_')
            && (i == 0 || !word(b[i - 1]))
        {
            o.push_str("raw_");
            i += 2;
        } else {
            let n = s[i..].chars().next().unwrap().len_utf8();
            o.push_str(&s[i..i + n]);
            i += n;
        }
    }
    o
}
