//! Loops written in an equivalent form, so that the contract finds the loop it speaks about. Every rewriting keeps the meaning of
//! the code; a case that is not recognised is left as it is.
use crate::normal::mentions;
use quote::quote;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn p2<T: parse::Parse>(t: proc_macro2::TokenStream) -> T {
    parse2(t).unwrap()
}
fn ident_of(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        Expr::Paren(p) => ident_of(&p.expr),
        _ => None,
    }
}
fn int_lit(e: &Expr) -> Option<u64> {
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => i.base10_parse().ok(),
            _ => None,
        },
        _ => None,
    }
}
/// how a name is used in a piece of code
#[derive(Default)]
struct Uses<'n> {
    name: &'n str,
    assigned: usize,
    continues: usize,
    rebound: bool,
}
impl<'a, 'n> Visit<'a> for Uses<'n> {
    fn visit_expr(&mut self, e: &'a Expr) {
        let is = |x: &Expr| ident_of(x).as_deref() == Some(self.name);
        match e {
            Expr::Assign(a) if is(&a.left) => self.assigned += 1,
            Expr::Binary(b) if is(&b.left) && matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitXorAssign(_)) => self.assigned += 1,
            Expr::Assign(a) if matches!(&*a.left, Expr::Tuple(_)) && mentions(quote!(#a), self.name) => self.assigned += 1,
            Expr::Reference(r) if r.mutability.is_some() && is(&r.expr) => self.assigned += 1,
            Expr::Continue(_) => self.continues += 1,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if mentions(m.tokens.clone(), self.name) && m.tokens.to_string().contains('=') {
            self.assigned += 1;
        }
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        if p.ident == self.name {
            self.rebound = true;
        }
        visit::visit_pat_ident(self, p);
    }
}
fn uses<'n>(stmts: &[Stmt], name: &'n str) -> Uses<'n> {
    let mut u = Uses { name, ..Default::default() };
    for s in stmts {
        u.visit_stmt(s);
    }
    u
}
fn let_mut(s: &Stmt) -> Option<(String, Expr)> {
    let Stmt::Local(l) = s else { return None };
    let p = match &l.pat {
        Pat::Type(t) => &*t.pat,
        p => p,
    };
    let (Pat::Ident(p), Some(i)) = (p, &l.init) else { return None };
    if p.mutability.is_none() || p.by_ref.is_some() || i.diverge.is_some() {
        return None;
    }
    Some((p.ident.to_string(), (*i.expr).clone()))
}
/// `i += 1;` (or `i = i + 1;`)
fn bump(s: &Stmt, op: char) -> Option<String> {
    let Stmt::Expr(e, _) = s else { return None };
    match e {
        Expr::Binary(b) if int_lit(&b.right) == Some(1) && ((op == '+' && matches!(b.op, BinOp::AddAssign(_))) || (op == '-' && matches!(b.op, BinOp::SubAssign(_)))) => ident_of(&b.left),
        Expr::Assign(a) => match &*a.right {
            Expr::Binary(b) if int_lit(&b.right) == Some(1) && ident_of(&b.left) == ident_of(&a.left) && ((op == '+' && matches!(b.op, BinOp::Add(_))) || (op == '-' && matches!(b.op, BinOp::Sub(_)))) => ident_of(&a.left),
            _ => None,
        },
        _ => None,
    }
}

/// a bound that a loop body cannot change: a literal, an immutable name, or the length of something whose length the body leaves alone
fn steady(e: &Expr, body: &[Stmt], muts: &dyn Fn(&str) -> bool) -> bool {
    match e {
        Expr::Paren(p) => steady(&p.expr, body, muts),
        Expr::Lit(_) => true,
        Expr::Path(_) => ident_of(e).map_or(false, |n| !muts(&n) && !uses(body, &n).rebound),
        Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() => {
            let Some(n) = ident_of(&m.receiver) else { return false };
            struct L<'n> {
                name: &'n str,
                bad: bool,
            }
            impl<'a, 'n> Visit<'a> for L<'n> {
                fn visit_expr(&mut self, e: &'a Expr) {
                    let is = |x: &Expr| ident_of(x).as_deref() == Some(self.name);
                    match e {
                        Expr::MethodCall(m) if is(&m.receiver) => {
                            if !["swap", "iter", "iter_mut", "contains", "len", "get", "first", "last", "is_empty"].contains(&m.method.to_string().as_str()) {
                                self.bad = true;
                            }
                            for a in &m.args {
                                self.visit_expr(a);
                            }
                            return;
                        }
                        Expr::Index(i) if is(&i.expr) => {
                            self.visit_expr(&i.index);
                            return;
                        }
                        e if is(e) => self.bad = true,
                        Expr::Macro(m) if mentions(m.mac.tokens.clone(), self.name) => self.bad = true,
                        _ => {}
                    }
                    visit::visit_expr(self, e);
                }
            }
            let mut l = L { name: &n, bad: false };
            for s in body {
                l.visit_stmt(s);
            }
            !l.bad && !uses(body, &n).rebound
        }
        _ => false,
    }
}

/// the kind of each loop, in order
pub fn kinds(b: &Block) -> Vec<String> {
    struct K(Vec<String>);
    impl<'a> Visit<'a> for K {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::ForLoop(l) => self.0.push(
                    match &*l.expr {
                        Expr::Range(_) => "range",
                        Expr::MethodCall(m) if m.method == "enumerate" => "enum",
                        _ => "iter",
                    }
                    .into(),
                ),
                Expr::While(_) => self.0.push("while".into()),
                Expr::Loop(_) => self.0.push("loop".into()),
                _ => {}
            }
            visit::visit_expr(self, e);
        }
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut k = K(vec![]);
    k.visit_block(b);
    k.0
}

/// names bound as mutable, and parameters behind `&mut`
fn mutable_names(sig: &Signature, b: &Block) -> Vec<String> {
    struct M(Vec<String>);
    impl<'a> Visit<'a> for M {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            if p.mutability.is_some() || p.by_ref.is_some() {
                self.0.push(p.ident.to_string());
            }
            visit::visit_pat_ident(self, p);
        }
    }
    let mut m = M(vec![]);
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            m.visit_pat(&t.pat);
            if let (Type::Reference(r), Pat::Ident(p)) = (&*t.ty, &*t.pat) {
                if r.mutability.is_some() {
                    m.0.push(p.ident.to_string());
                }
            }
        }
    }
    m.visit_block(b);
    m.0
}

/// whether the statements use the name as bound outside them (a closure parameter of that name is another variable)
fn free(stmts: &[Stmt], name: &str) -> bool {
    struct F<'n> {
        name: &'n str,
        hit: bool,
    }
    impl<'a, 'n> Visit<'a> for F<'n> {
        fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
            let ps = &c.inputs;
            if !mentions(quote!(#ps), self.name) {
                self.visit_expr(&c.body);
            }
        }
        fn visit_ident(&mut self, i: &'a Ident) {
            self.hit |= i == self.name;
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            self.hit |= mentions(m.tokens.clone(), self.name);
        }
    }
    let mut f = F { name, hit: false };
    for s in stmts {
        f.visit_stmt(s);
    }
    f.hit
}

/// `for p in &mut v[a..]` or `v[a..].iter_mut()` becomes `v.iter_mut().skip(a)`, after a check that the slice exists
fn tail_slice(b: &mut Block, at: usize) -> bool {
    let Stmt::Expr(Expr::ForLoop(l), _) = &b.stmts[at] else { return false };
    let (x, how) = match &*l.expr {
        Expr::Reference(r) => (&*r.expr, if r.mutability.is_some() { "iter_mut" } else { "iter" }),
        Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter_mut" => (&*m.receiver, "iter_mut"),
        Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter" => (&*m.receiver, "iter"),
        _ => return false,
    };
    let Expr::Index(i) = x else { return false };
    let Expr::Range(r) = &*i.index else { return false };
    if r.end.is_some() || ident_of(&i.expr).is_none() {
        return false;
    }
    let Some(a) = r.start.as_ref().filter(|a| int_lit(a).is_some() || ident_of(a).is_some()) else { return false };
    let (v, how, label, pat, body) = (&i.expr, Ident::new(how, proc_macro2::Span::call_site()), &l.label, &l.pat, &l.body);
    let check: Stmt = p2(quote!(let _ = &#v[#a..];));
    let new: Stmt = p2(quote!(#label for #pat in #v.#how().skip(#a) #body));
    b.stmts[at] = new;
    b.stmts.insert(at, check);
    true
}
/// `for p in [a, b] { B }` over a few names or constants becomes B once for each
fn unroll(b: &mut Block, at: usize) -> bool {
    let Stmt::Expr(Expr::ForLoop(l), _) = &b.stmts[at] else { return false };
    let mut e = &*l.expr;
    loop {
        match e {
            Expr::Reference(r) if r.mutability.is_none() => e = &r.expr,
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "iter" || m.method == "into_iter") => e = &m.receiver,
            _ => break,
        }
    }
    let by_ref = match &*l.expr {
        Expr::Array(_) => false,
        Expr::MethodCall(m) => m.method == "iter",
        _ => true,
    };
    let Expr::Array(a) = e else { return false };
    fn plain(e: &Expr) -> bool {
        match e {
            Expr::Path(_) | Expr::Lit(_) => true,
            Expr::Field(f) => plain(&f.base),
            Expr::Reference(r) => r.mutability.is_none() && plain(&r.expr),
            Expr::Paren(p) => plain(&p.expr),
            _ => false,
        }
    }
    let body = &l.body;
    let text = quote!(#body);
    if l.label.is_some() || a.elems.len() > 8 || !a.elems.iter().all(plain) || mentions(text.clone(), "break") || mentions(text, "continue") {
        return false;
    }
    let (pat, stmts) = (&l.pat, &l.body.stmts);
    let new: Vec<Stmt> = a.elems.iter().map(|x| if by_ref { p2(quote!({ let #pat = &#x; #(#stmts)* })) } else { p2(quote!({ let #pat = #x; #(#stmts)* })) }).collect();
    b.stmts.splice(at..at + 1, new);
    true
}
struct Slices(bool);
impl VisitMut for Slices {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut i = 0;
        while i < b.stmts.len() {
            self.0 |= tail_slice(b, i) || unroll(b, i);
            i += 1;
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

struct Rewrite<'a> {
    muts: &'a [String],
    hit: bool,
}
impl<'a> VisitMut for Rewrite<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut i = 0;
        while i < b.stmts.len() {
            if self.counter(b, i) || self.count_while(b, i) || self.while_next(b, i)  {
                self.hit = true;
                i = 0;
                continue;
            }
            i += 1;
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
impl<'a> Rewrite<'a> {
    /// `let mut i = 0; for p in E { B; i += 1; }` becomes `for (i, p) in E.enumerate() { B }`
    fn counter(&mut self, b: &mut Block, at: usize) -> bool {
        let Some((name, init)) = let_mut(&b.stmts[at]) else { return false };
        if int_lit(&init) != Some(0) {
            return false;
        }
        let Some(k) = (at + 1..b.stmts.len()).find(|k| { let s = &b.stmts[*k]; mentions(quote!(#s), &name) }) else { return false };
        let Stmt::Expr(Expr::ForLoop(l), _) = &b.stmts[k] else { return false };
        let n = l.body.stmts.len();
        if n < 2 || bump(&l.body.stmts[n - 1], '+').as_deref() != Some(&name) {
            return false;
        }
        let u = uses(&l.body.stmts[..n - 1], &name);
        let (rest, pat, ex) = (&b.stmts[k + 1..], &l.pat, &l.expr);
        if u.assigned + u.continues > 0 || u.rebound || free(rest, &name) || mentions(quote!(#pat #ex), &name) {
            return false;
        }
        let source: Expr = match &*l.expr {
            Expr::Reference(r) if r.mutability.is_none() => { let x = &r.expr; p2(quote!(#x.iter())) }
            Expr::Reference(r) => { let x = &r.expr; p2(quote!(#x.iter_mut())) }
            Expr::MethodCall(m) => Expr::MethodCall(m.clone()),
            _ => return false,
        };
        let (label, body, id) = (&l.label, &l.body.stmts[..n - 1], Ident::new(&name, proc_macro2::Span::call_site()));
        let new: Stmt = p2(quote!(#label for (#id, #pat) in #source.enumerate() { #(#body)* }));
        b.stmts[k] = new;
        b.stmts.remove(at);
        true
    }
    /// `let mut i = A; while i < E { B; i += 1; }` becomes `for i in A..E { B }`;
    /// `let mut i = E; while i > 0 { i -= 1; B }`, with i not otherwise used, becomes `for _ in 0..E { B }`
    fn count_while(&mut self, b: &mut Block, at: usize) -> bool {
        let Some((name, init)) = let_mut(&b.stmts[at]) else { return false };
        let Some(k) = (at + 1..b.stmts.len()).find(|k| { let s = &b.stmts[*k]; mentions(quote!(#s), &name) }) else { return false };
        let Stmt::Expr(Expr::While(l), _) = &b.stmts[k] else { return false };
        let rest = &b.stmts[k + 1..];
        if free(rest, &name) {
            return false;
        }
        let Expr::Binary(c) = &*l.cond else { return false };
        let n = l.body.stmts.len();
        if n < 2 {
            return false;
        }
        let bound = |e: &Expr, body: &[Stmt]| steady(e, body, &|x| self.muts.iter().any(|m| m == x));
        let (is_l, is_r) = (ident_of(&c.left).as_deref() == Some(&name), ident_of(&c.right).as_deref() == Some(&name));
        let up = match &c.op {
            BinOp::Lt(_) | BinOp::Ne(_) if is_l => Some(&c.right),
            BinOp::Gt(_) | BinOp::Ne(_) if is_r => Some(&c.left),
            _ => None,
        };
        let label = &l.label;
        let new: Option<Stmt> = if let (Some(e), true) = (up, bump(&l.body.stmts[n - 1], '+').as_deref() == Some(&name)) {
            let body = &l.body.stmts[..n - 1];
            let u = uses(body, &name);
            // with != the loop only ends at the bound if it starts at or below it
            let ends = !matches!(c.op, BinOp::Ne(_)) || int_lit(&init) == Some(0);
            let between = &b.stmts[at + 1..k];
            if u.assigned + u.continues > 0 || u.rebound || !ends || !bound(e, body) || !(int_lit(&init).is_some() || bound(&init, between)) {
                None
            } else {
                let id = Ident::new(&name, proc_macro2::Span::call_site());
                Some(p2(quote!(#label for #id in #init..#e { #(#body)* })))
            }
        } else {
            let down = (is_l && int_lit(&c.right) == Some(0) && matches!(c.op, BinOp::Gt(_) | BinOp::Ne(_))) || (is_r && int_lit(&c.left) == Some(0) && matches!(c.op, BinOp::Lt(_) | BinOp::Ne(_)));
            let at_first = bump(&l.body.stmts[0], '-').as_deref() == Some(&name);
            let at_last = bump(&l.body.stmts[n - 1], '-').as_deref() == Some(&name);
            let body = if at_first { &l.body.stmts[1..] } else { &l.body.stmts[..n - 1] };
            let between = &b.stmts[at + 1..k];
            if !down || at_first == at_last || mentions(quote!(#(#body)*), &name) || (at_last && uses(body, &name).continues > 0) || !(int_lit(&init).is_some() || bound(&init, between)) {
                None
            } else {
                Some(p2(quote!(#label for _ in 0..#init { #(#body)* })))
            }
        };
        let Some(new) = new else { return false };
        b.stmts[k] = new;
        b.stmts.remove(at);
        true
    }
    /// `while let Some(p) = it.next() { B }` becomes `for p in it { B }` where `it` is not used again
    fn while_next(&mut self, b: &mut Block, at: usize) -> bool {
        let Stmt::Expr(Expr::While(l), _) = &b.stmts[at] else { return false };
        let Expr::Let(c) = &*l.cond else { return false };
        let Pat::TupleStruct(t) = &*c.pat else { return false };
        let Expr::MethodCall(m) = &*c.expr else { return false };
        if !t.path.is_ident("Some") || t.elems.len() != 1 || m.method != "next" || !m.args.is_empty() {
            return false;
        }
        let Some(name) = ident_of(&m.receiver) else { return false };
        let (body, rest) = (&l.body, &b.stmts[at + 1..]);
        if mentions(quote!(#body #(#rest)*), &name) {
            return false;
        }
        // the iterator is bound in this block, so nothing outside uses it either
        if !b.stmts[..at].iter().any(|s| let_mut(s).map_or(false, |(n, _)| n == name)) {
            return false;
        }
        let (label, p, id) = (&l.label, &t.elems[0], Ident::new(&name, proc_macro2::Span::call_site()));
        let new: Stmt = p2(quote!(#label for #p in #id #body));
        b.stmts[at] = new;
        true
    }
}

/// `for i in 0..X.len() { .. X[i] .. }` over an X that cannot change becomes `for (i, x) in X.iter().enumerate() { .. *x .. }`,
/// for the loops the contract knows in that form.
struct Enumerate<'a> {
    muts: &'a [String],
    lens: Vec<(String, String)>,
    want: &'a [String],
    k: usize,
    hit: bool,
}
impl<'a> VisitMut for Enumerate<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) {
            let k = self.k;
            self.k += 1;
            if self.want.get(k).map_or(false, |w| w == "enum") {
                if let Expr::ForLoop(l) = e {
                    if let Some(n) = self.convert(l) {
                        *e = n;
                        self.hit = true;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
impl<'a> Enumerate<'a> {
    fn convert(&self, l: &ExprForLoop) -> Option<Expr> {
        let Expr::Range(r) = &*l.expr else { return None };
        if r.start.as_ref().and_then(|s| int_lit(s)) != Some(0) || !matches!(r.limits, RangeLimits::HalfOpen(_)) {
            return None;
        }
        let Pat::Ident(p) = &*l.pat else { return None };
        let i = p.ident.to_string();
        let x = match &**r.end.as_ref()? {
            Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() => ident_of(&m.receiver)?,
            e => {
                let n = ident_of(e)?;
                self.lens.iter().find(|(a, _)| *a == n)?.1.clone()
            }
        };
        let u = uses(&l.body.stmts, &i);
        if self.muts.contains(&x) || u.assigned > 0 || u.rebound || uses(&l.body.stmts, &x).rebound {
            return None;
        }
        struct At<'n> {
            x: &'n str,
            i: &'n str,
            n: usize,
        }
        impl<'n> At<'n> {
            fn is(&self, e: &Expr) -> bool {
                matches!(e, Expr::Index(k) if ident_of(&k.expr).as_deref() == Some(self.x) && ident_of(&k.index).as_deref() == Some(self.i))
            }
        }
        impl<'n> VisitMut for At<'n> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Reference(r) = e {
                    if r.mutability.is_none() && self.is(&r.expr) {
                        *e = parse_quote!(vx_item);
                        self.n += 1;
                        return;
                    }
                }
                if self.is(e) {
                    *e = parse_quote!((*vx_item));
                    self.n += 1;
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
            fn visit_item_mut(&mut self, _: &mut Item) {}
        }
        let mut body = l.body.clone();
        let mut a = At { x: &x, i: &i, n: 0 };
        a.visit_block_mut(&mut body);
        if a.n == 0 {
            return None;
        }
        // `let p = vx_item;` at the start names the item
        let mut pat: Pat = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: Ident::new("vx_item", proc_macro2::Span::call_site()), subpat: None });
        if let Some(Stmt::Local(q)) = body.stmts.first() {
            if let (Pat::Ident(q), Some(init)) = (&q.pat, &q.init) {
                if q.mutability.is_none() && q.by_ref.is_none() && ident_of(&init.expr).as_deref() == Some("vx_item") && a.n == 1 {
                    pat = Pat::Ident(q.clone());
                    body.stmts.remove(0);
                }
            }
        }
        let (label, xi, ii) = (&l.label, Ident::new(&x, proc_macro2::Span::call_site()), &p.ident);
        Some(p2(quote!(#label for (#ii, #pat) in #xi.iter().enumerate() #body)))
    }
}
/// `let n = X.len();` with n and X immutable and bound once
fn lens(b: &Block, muts: &[String]) -> Vec<(String, String)> {
    struct N {
        out: Vec<(String, String)>,
        bound: Vec<String>,
    }
    impl<'a> Visit<'a> for N {
        fn visit_local(&mut self, l: &'a Local) {
            if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                if let Expr::MethodCall(m) = &*i.expr {
                    if m.method == "len" && m.args.is_empty() {
                        if let Some(x) = ident_of(&m.receiver) {
                            self.out.push((p.ident.to_string(), x));
                        }
                    }
                }
            }
            visit::visit_local(self, l);
        }
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.bound.push(p.ident.to_string());
        }
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut n = N { out: vec![], bound: vec![] };
    n.visit_block(b);
    let bound = n.bound;
    n.out.retain(|(a, x)| bound.iter().filter(|y| *y == a).count() == 1 && !bound.contains(x) && !muts.contains(a) && !muts.contains(x));
    n.out
}

/// A final `SOURCE.map(|p| E).find(|q| C)` is the loop it stands for, where the contract knows a loop.
fn find_loop(b: &mut Block) -> bool {
    let Some(Stmt::Expr(Expr::MethodCall(m), None)) = b.stmts.last() else { return false };
    if m.method != "find" || m.args.len() != 1 {
        return false;
    }
    let Expr::Closure(c) = &m.args[0] else { return false };
    let Expr::MethodCall(f) = &*m.receiver else { return false };
    if f.method != "map" || f.args.len() != 1 || c.inputs.len() != 1 {
        return false;
    }
    let Expr::Closure(g) = &f.args[0] else { return false };
    if g.inputs.len() != 1 {
        return false;
    }
    let (src, gp, ge, cp, ce) = (&f.receiver, &g.inputs[0], &g.body, &c.inputs[0], &c.body);
    let returns = |e: &Expr| mentions(quote!(#e), "return") || quote!(#e).to_string().contains('?');
    if returns(ge) || returns(ce) {
        return false;
    }
    let strip = |e: &Expr| -> Expr {
        match e {
            Expr::Paren(p) if matches!(&*p.expr, Expr::Range(_)) => (*p.expr).clone(),
            e => e.clone(),
        }
    };
    let src = strip(src);
    let new: Vec<Stmt> = vec![
        p2(quote!(for #gp in #src {
            let vx_found = #ge;
            let vx_hit = { let #cp = &vx_found; #ce };
            if vx_hit {
                return Some(vx_found);
            }
        })),
        Stmt::Expr(parse_quote!(None), None),
    ];
    b.stmts.pop();
    b.stmts.extend(new);
    true
}

/// comparison with a constant of Ordering
struct OrderingEq(bool);
impl VisitMut for OrderingEq {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Binary(b) = e else { return };
        let eq = match b.op {
            BinOp::Eq(_) => true,
            BinOp::Ne(_) => false,
            _ => return,
        };
        let is = |x: &Expr| match x {
            Expr::Path(p) if p.path.segments.len() >= 2 => {
                let v: Vec<String> = p.path.segments.iter().rev().take(2).map(|s| s.ident.to_string()).collect();
                v[1] == "Ordering" && ["Less", "Equal", "Greater"].contains(&v[0].as_str())
            }
            _ => false,
        };
        let (c, v) = if is(&b.right) { (&b.right, &b.left) } else if is(&b.left) { (&b.left, &b.right) } else { return };
        let Expr::Path(c) = &**c else { return };
        let last = c.path.segments.last().unwrap().ident.to_string();
        let m = Ident::new(
            match (last.as_str(), eq) {
                ("Equal", true) => "is_eq",
                ("Equal", false) => "is_ne",
                ("Less", true) => "is_lt",
                ("Less", false) => "is_ge",
                ("Greater", true) => "is_gt",
                _ => "is_le",
            },
            proc_macro2::Span::call_site(),
        );
        *e = match &**v {
            Expr::MethodCall(_) | Expr::Call(_) | Expr::Path(_) | Expr::Paren(_) => p2(quote!(#v.#m())),
            v => p2(quote!((#v).#m())),
        };
        self.0 = true;
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// `base`: the kinds of the loops the contract knows
pub fn rewrite(sig: &Signature, b: &mut Block, base: Option<&Vec<String>>) -> bool {
    let mut oe = OrderingEq(false);
    oe.visit_block_mut(b);
    let mut hit = false;
    if base.map_or(false, |k| k.len() > kinds(b).len()) {
        hit |= find_loop(b);
    }
    let muts = mutable_names(sig, b);
    let mut r = Rewrite { muts: &muts, hit: false };
    if base.map_or(false, |k| *k != kinds(b)) {
        r.visit_block_mut(b);
    }
    hit |= r.hit;
    if let Some(k) = base {
        let mut en = Enumerate { muts: &muts, lens: lens(b, &muts), want: k, k: 0, hit: false };
        en.visit_block_mut(b);
        hit |= en.hit;
    }
    let mut sl = Slices(false);
    sl.visit_block_mut(b);
    hit | oe.0 | sl.0
}
