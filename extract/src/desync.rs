//! `//@ sequential`: the text of the same steps with the concurrency notation
//! taken out.  DESIGN.md ("Extraction") lists every rewrite and what it means.
use crate::{apply, base_of, rng, Edit, Src};
use std::collections::BTreeSet;
use syn::spanned::Spanned;
use syn::visit::Visit;

struct D<'t> {
    edits: Vec<Edit>,
    base: usize,
    text: &'t str,
    n: usize,
    /// types whose `&self` methods become `&mut self`
    shared: &'t BTreeSet<String>,
    in_shared: bool,
    uniq: usize,
    /// locals bound to a lock guard
    guards: BTreeSet<String>,
}

fn is_place(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(_) => true,
        syn::Expr::Field(f) => is_place(&f.base),
        syn::Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}

fn last_seg(t: &syn::Type) -> Option<(&syn::PathSegment, String)> {
    if let syn::Type::Path(p) = t {
        if let Some(l) = p.path.segments.last() {
            return Some((l, l.ident.to_string()));
        }
    }
    None
}

/// the only type argument
fn arg_of(s: &syn::PathSegment) -> Option<&syn::Type> {
    if let syn::PathArguments::AngleBracketed(ab) = &s.arguments {
        if let (1, Some(syn::GenericArgument::Type(t))) = (ab.args.len(), ab.args.last()) {
            return Some(t);
        }
    }
    None
}

impl<'t> D<'t> {
    fn cut(&mut self, a: usize, b: usize, t: &str) {
        self.n += 1;
        self.edits.push(Edit { start: a - self.base, end: b - self.base, text: t.into(), order: 0 });
    }
    fn put(&mut self, at: usize, t: &str, order: i32) {
        self.edits.push(Edit { start: at - self.base, end: at - self.base, text: t.into(), order });
    }
    fn src(&self, s: proc_macro2::Span) -> String {
        let (a, b) = rng(s);
        self.text[a - self.base..b - self.base].to_string()
    }
    /// `Arc<Mutex<T>>` => `T`
    fn strip_type(&mut self, t: &syn::Type, prefix: &str) -> bool {
        let (s, e) = rng(t.span());
        let mut cur = t;
        let mut hit = false;
        while let Some((seg, name)) = last_seg(cur) {
            if name != "Arc" && name != "Mutex" {
                break;
            }
            match arg_of(seg) {
                Some(x) => cur = x,
                None => break,
            }
            hit = true;
        }
        if hit {
            let (xs, xe) = rng(cur.span());
            self.cut(s, xs, prefix);
            self.cut(xe, e, "");
        }
        hit
    }
    /// applies function value `f` (a path or a one-argument closure) to the
    /// variable `v`: text edits around `f`
    fn open_close(&mut self, f: &syn::Expr, v: &str) {
        let (s, e) = rng(f.span());
        match f {
            syn::Expr::Closure(c) if c.inputs.len() == 1 => {
                let (bs, be) = rng(c.body.span());
                let pat = self.src(c.inputs[0].span());
                self.cut(s, bs, &format!("{{ let {} = {}; ", pat, v));
                self.put(be, " }", -60);
            }
            _ => {
                self.put(e, &format!("({})", v), -60);
            }
        }
    }
    /// `X.drain(..)`
    fn drain_all<'e>(e: &'e syn::Expr) -> Option<&'e syn::ExprMethodCall> {
        if let syn::Expr::MethodCall(m) = e {
            if m.method == "drain" && m.args.len() == 1 {
                if let syn::Expr::Range(r) = &m.args[0] {
                    if r.start.is_none() && r.end.is_none() {
                        return Some(m);
                    }
                }
            }
        }
        None
    }
    fn rewrite_drain(&mut self, m: &syn::ExprMethodCall) {
        let (rs, re) = rng(m.receiver.span());
        let (_, me) = rng(m.span());
        if is_place(&m.receiver) {
            self.put(rs, "drained(&mut ", -20);
            self.cut(re, me, ")");
        } else if matches!(strip_await(&m.receiver), syn::Expr::MethodCall(k) if k.method == "lock" || k.method == "hold") {
            self.put(rs, "drained(", -20);
            self.cut(re, me, ")");
        } else {
            self.cut(re, me, "");
        }
    }
}

/// a function value that can be written out in place: no `return` or `?` of its own
fn inlines(f: &syn::Expr) -> bool {
    struct R(bool);
    impl<'x> Visit<'x> for R {
        fn visit_expr_return(&mut self, _: &'x syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'x syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'x syn::ExprClosure) {}
        fn visit_item(&mut self, _: &'x syn::Item) {}
    }
    match f {
        syn::Expr::Closure(c) => {
            let mut r = R(false);
            r.visit_expr(&c.body);
            c.inputs.len() == 1 && !r.0
        }
        syn::Expr::Path(_) => true,
        _ => false,
    }
}

fn strip_await(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Await(a) => strip_await(&a.base),
        syn::Expr::Paren(p) => strip_await(&p.expr),
        e => e,
    }
}

impl<'t, 'ast> Visit<'ast> for D<'t> {
    /// tests are not extracted
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
        if m.attrs.iter().any(|a| a.path().is_ident("cfg") && a.meta.require_list().map_or(false, |l| l.tokens.to_string() == "test")) {
            return;
        }
        syn::visit::visit_item_mod(self, m);
    }
    fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
        let was = self.in_shared;
        self.in_shared = i.trait_.is_none()
            && matches!(last_seg(&i.self_ty), Some((_, n)) if self.shared.contains(&n));
        syn::visit::visit_item_impl(self, i);
        self.in_shared = was;
    }
    fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
        // `mut self`: the body works on a local of that value
        if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first() {
            if let (None, Some(m)) = (&r.reference, &r.mutability) {
                struct S(Vec<proc_macro2::Span>);
                impl<'x> Visit<'x> for S {
                    fn visit_path(&mut self, p: &'x syn::Path) {
                        if p.is_ident("self") {
                            self.0.push(p.segments[0].ident.span());
                        }
                        syn::visit::visit_path(self, p);
                    }
                    fn visit_item(&mut self, _: &'x syn::Item) {}
                }
                let (a, b) = rng(m.span());
                self.cut(a, b, "");
                let (_, open) = rng(f.block.brace_token.span.open());
                self.cut(open, open, " let mut __me = self;");
                let mut v = S(vec![]);
                v.visit_block(&f.block);
                for sp in v.0 {
                    let (a, b) = rng(sp);
                    self.cut(a, b, "__me");
                }
            }
        }
        syn::visit::visit_impl_item_fn(self, f);
    }
    /// a handle of something shared is used through `&mut`
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let (syn::Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
            if matches!(strip_await(&i.expr), syn::Expr::MethodCall(m) if (m.method == "lock" || m.method == "hold") && m.args.is_empty()) {
                self.guards.insert(p.ident.to_string());
            }
            if p.mutability.is_none() && matches!(&*i.expr, syn::Expr::MethodCall(m) if m.method == "split" && m.args.is_empty()) {
                let (s, _) = rng(p.ident.span());
                self.cut(s, s, "mut ");
            }
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_signature(&mut self, g: &'ast syn::Signature) {
        if let Some(a) = &g.asyncness {
            let (s, e) = rng(a.span());
            self.cut(s, e, "");
        }
        if let syn::ReturnType::Type(_, t) = &g.output {
            if let Some((l, n)) = last_seg(t) {
                if n == "BoxFuture" {
                    if let syn::PathArguments::AngleBracketed(ab) = &l.arguments {
                        if let Some(x) = ab.args.last() {
                            let (s, e) = rng(t.span());
                            let (xs, xe) = rng(x.span());
                            self.cut(s, xs, "");
                            self.cut(xe, e, "");
                        }
                    }
                }
            }
        }
        for a in g.inputs.iter() {
            match a {
                syn::FnArg::Receiver(r) => {
                    if self.in_shared && r.mutability.is_none() {
                        if let Some((amp, _)) = &r.reference {
                            let (_, e) = rng(amp.span());
                            self.cut(e, e, "mut ");
                        }
                    }
                }
                syn::FnArg::Typed(t) => {
                    self.strip_type(&t.ty, "&mut ");
                }
            }
        }
        syn::visit::visit_signature(self, g);
    }
    fn visit_item_struct(&mut self, s: &'ast syn::ItemStruct) {
        for f in s.fields.iter() {
            self.strip_type(&f.ty, "");
        }
    }
    fn visit_expr_await(&mut self, a: &'ast syn::ExprAwait) {
        let (_, b) = rng(a.base.span());
        let (_, e) = rng(a.span());
        self.cut(b, e, "");
        syn::visit::visit_expr_await(self, a);
    }
    fn visit_expr_async(&mut self, x: &'ast syn::ExprAsync) {
        let (s, _) = rng(x.span());
        let (bs, _) = rng(x.block.span());
        self.cut(s, bs, "");
        syn::visit::visit_expr_async(self, x);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        if let Some(m) = D::drain_all(&l.expr) {
            self.rewrite_drain(m);
            self.visit_expr(&m.receiver);
            self.visit_pat(&l.pat);
            self.visit_block(&l.body);
            return;
        }
        syn::visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let n = p.path.segments.len();
            let two = if n >= 2 {
                format!("{}::{}", p.path.segments[n - 2].ident, p.path.segments[n - 1].ident)
            } else {
                String::new()
            };
            let (s, e) = rng(c.span());
            // drop(GUARD): nothing is locked
            if n == 1 && p.path.segments[0].ident == "drop" && c.args.len() == 1 {
                if let syn::Expr::Path(g) = &c.args[0] {
                    if g.path.get_ident().map_or(false, |i| self.guards.contains(&i.to_string())) {
                        self.cut(s, e, "()");
                        return;
                    }
                }
            }
            // poll_fn(|ctx| P): asked once, and it must be ready then
            if p.path.segments[n - 1].ident == "poll_fn" && c.args.len() == 1 && inlines(&c.args[0]) {
                if let syn::Expr::Closure(k) = &c.args[0] {
                    let pat = self.src(k.inputs[0].span());
                    let (bs, be) = rng(k.body.span());
                    self.cut(s, bs, &format!("ready_now({{ let {} = &mut poll_context(); ", pat));
                    self.cut(be, e, " })");
                    self.visit_expr(&k.body);
                    return;
                }
            }
            if two == "Arc::clone" && c.args.len() == 1 {
                if let syn::Expr::Reference(r) = &c.args[0] {
                    let (xs, xe) = rng(r.expr.span());
                    let head = if matches!(&*r.expr, syn::Expr::Path(p) if p.path.segments.len() == 1) { "&mut *" } else { "&mut " };
                    self.cut(s, xs, head);
                    self.cut(xe, e, "");
                    self.visit_expr(&r.expr);
                    return;
                }
            }
            if (two == "Arc::new" || two == "Mutex::new") && c.args.len() == 1 {
                let (xs, xe) = rng(c.args[0].span());
                self.cut(s, xs, "");
                self.cut(xe, e, "");
                self.visit_expr(&c.args[0]);
                return;
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let (ms, me) = rng(m.span());
        let (_, re) = rng(m.receiver.span());
        let name = m.method.to_string();
        match name.as_str() {
            "boxed" if m.args.is_empty() && matches!(&*m.receiver, syn::Expr::Async(_)) => {
                self.cut(re, me, "");
            }
            "lock" if m.args.is_empty() => {
                let ident = matches!(&*m.receiver, syn::Expr::Path(p) if p.path.segments.len() == 1);
                if ident {
                    self.cut(re, me, "");
                } else {
                    self.put(ms, "(&mut ", -10);
                    self.cut(re, me, ")");
                }
            }
            // R.map(A).unwrap_or_else(B)
            "unwrap_or_else" if m.args.len() == 1 => {
                if let syn::Expr::MethodCall(k) = &*m.receiver {
                    if k.method == "map" && k.args.len() == 1 && inlines(&k.args[0]) && inlines(&m.args[0]) {
                        let (ks, _) = rng(k.span());
                        let (_, kre) = rng(k.receiver.span());
                        let (a0, a1) = rng(k.args[0].span());
                        let (b0, b1) = rng(m.args[0].span());
                        self.put(ks, "(match ", -15);
                        self.cut(kre, a0, " { Ok(__t) => ");
                        self.cut(a1, b0, ", Err(__e) => ");
                        self.cut(b1, me, " })");
                        self.open_close(&k.args[0], "__t");
                        self.open_close(&m.args[0], "__e");
                        self.visit_expr(&k.receiver);
                        for f in [&k.args[0], &m.args[0]] {
                            if let syn::Expr::Closure(c) = f {
                                self.visit_expr(&c.body);
                            }
                        }
                        return;
                    }
                }
            }
            // S.retain(|v| BODY)
            "retain" if m.args.len() == 1 && inlines(&m.args[0]) => {
                if let syn::Expr::Closure(c) = &m.args[0] {
                    if c.inputs.len() == 1 {
                        self.uniq += 1;
                        let pat = self.src(c.inputs[0].span());
                        let (bs, be) = rng(c.body.span());
                        self.put(ms, "{ let __set = ", -15);
                        let lead = if is_place(&m.receiver) { Some(()) } else { None };
                        if lead.is_some() {
                            self.put(ms, "&mut ", -14);
                        }
                        self.cut(re, bs, &format!("; let mut __old = take_all(__set); while __old.len() > 0 {{ let __v = next_of(&mut __old); let __keep = {{ let {} = &__v; ", pat));
                        self.cut(be, me, " }; if __keep { __set.insert(__v); } } }");
                                self.visit_expr(&m.receiver);
                        self.visit_expr(&c.body);
                        return;
                    }
                }
            }
            "collect" if m.args.is_empty() => {
                if let Some(d) = D::drain_all(&m.receiver) {
                    self.cut(re, me, "");
                    self.rewrite_drain(d);
                    self.visit_expr(&d.receiver);
                    return;
                }
                if let syn::Expr::MethodCall(k) = &*m.receiver {
                    if k.method == "map" && D::drain_all(&k.receiver).is_some() {
                        self.cut(re, me, "");
                    }
                }
            }
            // X.drain(..).map(|p| BODY)
            "map" if m.args.len() == 1 && inlines(&m.args[0]) => {
                if let (Some(d), syn::Expr::Closure(c)) = (D::drain_all(&m.receiver), &m.args[0]) {
                    if c.inputs.len() == 1 {
                        let pat = self.src(c.inputs[0].span());
                        let (bs, be) = rng(c.body.span());
                        self.put(ms, "{ let __in = ", -25);
                        self.rewrite_drain(d);
                        self.cut(re, bs, &format!("; let mut __out = Vec::new(); for {} in __in {{ let __v = ", pat));
                        self.cut(be, me, "; __out.push(__v); } __out }");
                                self.visit_expr(&d.receiver);
                        self.visit_expr(&c.body);
                        return;
                    }
                }
            }
            "drain" => {
                if let Some(d) = D::drain_all(&syn::Expr::MethodCall(m.clone())) {
                    let _ = d;
                    self.rewrite_drain(m);
                    self.visit_expr(&m.receiver);
                    return;
                }
            }
            _ => {}
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        self.mac(&m.mac, m.span());
    }
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
        self.mac(&m.mac, m.mac.span());
    }
}

impl<'t> D<'t> {
    fn mac(&mut self, m: &syn::Macro, span: proc_macro2::Span) {
        let (s, e) = rng(span);
        let last = m.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
        if last == "format" {
            self.cut(s, e, "fmt_opaque()");
        } else if last == "join" && m.path.segments.len() == 2 {
            // tokio::join!(A, B) => (A, B)
            let args = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated);
            if let Ok(args) = args {
                let (d, _) = rng(m.delimiter.span().open());
                self.cut(s, d, "");
                for a in args.iter() {
                    self.visit_expr(a);
                }
            }
        }
    }
}

pub fn desync(text: &str, full: &str, shared: &BTreeSet<String>) -> Result<(String, usize), String> {
    let file = syn::parse_file(text).map_err(|e| format!("{}: does not parse: {}", full, e))?;
    let src = Src { path: full.to_string(), text: text.to_string(), file };
    let mut d = D {
        edits: vec![],
        base: base_of(&src),
        text,
        n: 0,
        shared,
        in_shared: false,
        uniq: 0,
        guards: BTreeSet::new(),
    };
    d.visit_file(&src.file);
    Ok((apply(text, 0, text.len(), &d.edits), d.n))
}
