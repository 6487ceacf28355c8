//! Lowering rules. Every rule that fires is recorded in `drops` and reported in the evidence.
use quote::quote;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Lower {
    pub panics: bool,
    pub mutself: bool,
    pub lits: BTreeSet<String>,
    pub drops: BTreeSet<String>,
    /// restructurings a proof may fail over although the code is right
    pub soft: Vec<String>,
    pub errors: Vec<String>,
    pub nloops: usize,
    pub nclos: usize,
    /// the closures of the function as the contract knows them, as they are, and which is which
    pub clo_base: Option<Vec<(String, Vec<String>)>>,
    pub clo_seen: Vec<(String, Vec<String>)>,
    pub clo_map: Vec<Option<usize>>,
    pub auto_inv: BTreeMap<usize, (String, String)>,
    pub opts: BTreeSet<String>,
    /// closing hints on every way out (used when the plain extraction is not accepted)
    pub deep: bool,
    byval_mut_self: bool,
    /// parameters of type Population, which derefs to a slice
    derefs: BTreeSet<String>,
    /// hint keys of the overlay
    pub hints: BTreeSet<String>,
    tmp: usize,
    unit: bool,
}

pub fn lit_name(l: &str) -> String {
    format!("vx_lit_{}", l.replace('.', "_").replace('-', "m").replace('+', "p"))
}

/// Emits the function returning a float literal. The spec value is exact when the literal is a short dyadic decimal.
pub fn lit_fn(l: &str) -> String {
    let (num, den, exact) = dyadic(l);
    let n = lit_name(l);
    if exact {
        format!(
            "#[verifier::external_body] pub fn {n}() -> (r: F64) ensures r == f_lit({num}, {den}), fv(r) == FV::Fin({num}real / {den}real) {{ unimplemented!() }}\n"
        )
    } else {
        format!("#[verifier::external_body] pub fn {n}() -> (r: F64) ensures r == f_lit({num}, {den}) {{ unimplemented!() }}\n")
    }
}

fn dyadic(l: &str) -> (String, String, bool) {
    let t = l.trim_end_matches("f64").trim_end_matches('_').replace('_', "");
    if t.contains('e') || t.contains('E') {
        // an opaque literal: encode the text as a number pair that identifies it
        let code: u128 = t.bytes().fold(7u128, |a, b| (a * 257 + b as u128) % 1_000_000_000_039);
        return (code.to_string(), "0".into(), false);
    }
    let (i, f) = t.split_once('.').unwrap_or((&t, ""));
    let f = f.trim_end_matches('0');
    let den = 10u128.pow(f.len() as u32);
    let num: u128 = format!("{}{}", if i.is_empty() { "0" } else { i }, f).parse().unwrap_or(0);
    let g = gcd(num.max(1), den);
    let (n, d) = if num == 0 { (0, 1) } else { (num / g, den / g) };
    (n.to_string(), d.to_string(), d.is_power_of_two() && n < (1 << 52))
}
fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 { a } else { gcd(b, a % b) }
}

fn pe<T: syn::parse::Parse>(t: proc_macro2::TokenStream) -> T {
    syn::parse2(t.clone()).unwrap_or_else(|e| panic!("vx internal parse: {} in {}", e, t))
}

fn closure_parts(e: &Expr) -> Option<(Vec<Pat>, Expr)> {
    match e {
        Expr::Closure(c) => Some((c.inputs.iter().cloned().collect(), (*c.body).clone())),
        _ => None,
    }
}

fn mcall<'a>(e: &'a Expr, name: &str) -> Option<(&'a Expr, Vec<&'a Expr>)> {
    match strip(e) {
        Expr::MethodCall(m) if m.method == name => Some((&m.receiver, m.args.iter().collect())),
        _ => None,
    }
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

struct HasReturn(bool);
impl<'a> syn::visit::Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn has_return(e: &Expr) -> bool {
    let mut h = HasReturn(false);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0
}

impl Lower {
    pub fn new(panics: bool, mutself: bool) -> Self {
        Lower {
            panics,
            mutself,
            lits: Default::default(),
            drops: Default::default(),
            errors: vec![],
            nloops: 0,
            nclos: 0,
            clo_base: None,
            clo_seen: vec![],
            clo_map: vec![],
            auto_inv: Default::default(),
            opts: Default::default(),
            deep: false,
            hints: Default::default(),
            byval_mut_self: false,
            derefs: Default::default(),
            tmp: 0,
            unit: false,
            soft: vec![],
        }
    }
    fn drop_note(&mut self, s: &str) {
        self.drops.insert(s.to_string());
    }
    fn err(&mut self, s: &str) {
        self.errors.push(format!("unsupported: {}", s));
    }

    pub fn ty(&mut self, t: &mut Type) {
        TypeLower { drops: &mut self.drops }.visit_type_mut(t);
    }
    pub fn path(&mut self, p: &mut Path) {
        TypeLower { drops: &mut self.drops }.visit_path_mut(p);
    }
    pub fn generics(&mut self, g: &mut Generics) {
        TypeLower { drops: &mut self.drops }.visit_generics_mut(g);
        strip_bounds(g);
    }
    pub fn sig(&mut self, s: &mut Signature) {
        self.unit = matches!(s.output, ReturnType::Default);
        TypeLower { drops: &mut self.drops }.visit_signature_mut(s);
        strip_bounds(&mut s.generics);
        let cbs: Vec<String> = self.opts.iter().filter_map(|o| o.strip_prefix("callback:").map(|x| x.to_string())).collect();
        for cb in cbs {
            self.callback_sig(s, &cb);
        }
        for a in s.inputs.iter_mut() {
            match a {
                FnArg::Receiver(r) => {
                    r.attrs.clear();
                    if r.reference.is_none() && r.mutability.is_some() && r.colon_token.is_none() {
                        self.byval_mut_self = true;
                        *a = pe(quote!(self));
                        continue;
                    }
                    if self.mutself && r.reference.is_some() && r.mutability.is_none() {
                        self.drops.insert("RefCell: interior mutability made explicit (&self becomes &mut self); double-borrow panics are not modelled".into());
                        *a = pe(quote!(&mut self));
                    }
                }
                FnArg::Typed(t) => {
                    t.attrs.clear();
                    let mut ty = &*t.ty;
                    while let Type::Reference(r) = ty {
                        ty = &r.elem;
                    }
                    if let (Type::Path(tp), Pat::Ident(pi)) = (ty, &*t.pat) {
                        if tp.path.segments.last().map_or(false, |x| x.ident == "Population") {
                            self.derefs.insert(pi.ident.to_string());
                        }
                    }
                    // underscore-prefixed parameters get their underscore stripped so contracts can name them
                    if let Pat::Ident(p) = &mut *t.pat {
                        p.mutability = p.mutability.take();
                    }
                }
            }
        }
    }

    /// A callback parameter `c: F` with `F: FnMut(&X) -> bool` becomes `c: &mut F` with `F: VxCallback<X>`, which logs its calls.
    fn callback_sig(&mut self, s: &mut Signature, cb: &str) {
        let mut tparam = None;
        for a in s.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                if let (Pat::Ident(pi), Type::Path(tp)) = (&mut *t.pat, &*t.ty) {
                    if pi.ident == cb {
                        tparam = tp.path.get_ident().map(|i| i.to_string());
                        pi.mutability = None;
                        let ty = &t.ty;
                        *t.ty = pe(quote!(&mut #ty));
                    }
                }
            }
        }
        let Some(tparam) = tparam else { self.err("callback parameter not found"); return };
        fn fix(bounds: &mut punctuated::Punctuated<TypeParamBound, Token![+]>) {
            for b in bounds.iter_mut() {
                if let TypeParamBound::Trait(t) = b {
                    let l = t.path.segments.last().unwrap();
                    if l.ident == "FnMut" {
                        if let PathArguments::Parenthesized(a) = &l.arguments {
                            if let Some(Type::Reference(r)) = a.inputs.first() {
                                let x = &r.elem;
                                *b = pe(quote!(VxCallback<#x>));
                            }
                        }
                    }
                }
            }
        }
        for p in s.generics.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                if t.ident == tparam { fix(&mut t.bounds); }
            }
        }
        if let Some(w) = &mut s.generics.where_clause {
            for p in w.predicates.iter_mut() {
                if let WherePredicate::Type(t) = p {
                    let b = &t.bounded_ty;
                    if quote!(#b).to_string() == tparam { fix(&mut t.bounds); }
                }
            }
        }
        self.drop_note("the callback closure becomes a trait object-like parameter whose calls are logged (its own state is left open)");
    }

    pub fn body(&mut self, b: &mut Block) {
        strip_attrs(b);
        for o in self.opts.clone() {
            if let Some(cb) = o.strip_prefix("callback:") {
                CallbackCall(cb.to_string()).visit_block_mut(b);
            }
        }
        StmtHints { hints: &self.hints, seen: Default::default() }.visit_block_mut(b);
        CallHints { hints: &self.hints, seen: Default::default() }.visit_block_mut(b);
        if !self.derefs.is_empty() {
            let mut d = DerefVars { names: &self.derefs, hit: false };
            d.visit_block_mut(b);
            if d.hit {
                self.drop_note("slice operations on a Population go through its Deref implementation, written .deref()");
            }
        }
        if self.opts.contains("closure_rng") {
            self.drop_note("a draw inside a closure (the closure mutably captures the generator) becomes an arbitrary value from the same range, not entered in the draw log");
            ClosureRng { depth: 0 }.visit_block_mut(b);
        }
        StructPass(self).visit_block_mut(b);
        self.clo_seen = Closures::of(b);
        self.clo_map = (0..self.clo_seen.len()).map(Some).collect();
        if let Some(base) = self.clo_base.clone() {
            if base != self.clo_seen {
                self.align_closures(b, &base);
            }
        }
        let mut n = Number { loops: 0, clos: 0 };
        n.visit_block_mut(b);
        self.nloops = n.loops;
        self.nclos = n.clos;
        TypeLower { drops: &mut self.drops }.visit_block_mut(b);
        ExprPass(self).visit_block_mut(b);
        // what was inside macros is now visible
        TypeLower { drops: &mut self.drops }.visit_block_mut(b);
        RefPat { n: 0 }.visit_block_mut(b);
        if self.byval_mut_self {
            self.drop_note("`mut self` is bound to a mutable variable at the start of the body");
            SelfVar.visit_block_mut(b);
            b.stmts.insert(0, pe(quote!(let mut vx_self = self;)));
        }
        // hints at start and tail
        if self.unit {
            if let Some(Stmt::Expr(e, semi @ None)) = b.stmts.last_mut() {
                if matches!(e, Expr::MethodCall(_) | Expr::Call(_) | Expr::Assign(_) | Expr::If(_) | Expr::Match(_) | Expr::Block(_)) {
                    *semi = Some(Default::default());
                }
            }
        }
        let has_tail = matches!(b.stmts.last(), Some(Stmt::Expr(e, None)) if !matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)));
        let tail: Stmt = pe(quote!(vx_hint!("tail");));
        if self.deep {
            // every way out of the function gets the closing hint
            ReturnHints.visit_block_mut(b);
            deep_tail(b);
        } else if has_tail {
            let at = b.stmts.len() - 1;
            b.stmts.insert(at, tail);
        } else {
            b.stmts.push(tail);
        }
        b.stmts.insert(0, pe(quote!(vx_hint!("start");)));
    }
}

struct ReturnHints;
impl VisitMut for ReturnHints {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Closure(_)) {
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(_) = e {
            *e = pe(quote!({ vx_hint!("tail"); #e }));
        }
    }
}
fn deep_tail(b: &mut Block) {
    match b.stmts.last_mut() {
        Some(Stmt::Expr(Expr::If(i), None)) if i.else_branch.is_some() => {
            deep_tail(&mut i.then_branch);
            if let Some((_, e)) = &mut i.else_branch {
                if !matches!(**e, Expr::Block(_)) {
                    let x = (**e).clone();
                    **e = pe(quote!({ #x }));
                }
                if let Expr::Block(eb) = &mut **e {
                    deep_tail(&mut eb.block);
                }
            }
        }
        Some(Stmt::Expr(Expr::Match(m), None)) => {
            for a in &mut m.arms {
                if !matches!(*a.body, Expr::Block(_)) {
                    let x = (*a.body).clone();
                    *a.body = pe(quote!({ #x }));
                }
                if let Expr::Block(eb) = &mut *a.body {
                    deep_tail(&mut eb.block);
                }
            }
        }
        Some(Stmt::Expr(Expr::Block(eb), None)) => deep_tail(&mut eb.block),
        Some(Stmt::Expr(Expr::Return(_), _)) => {}
        Some(Stmt::Expr(e, None)) if !matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)) => {
            let at = b.stmts.len() - 1;
            b.stmts.insert(at, pe(quote!(vx_hint!("tail");)));
        }
        _ => b.stmts.push(pe(quote!(vx_hint!("tail");))),
    }
}

fn strip_bounds(g: &mut Generics) {
    let keep = |b: &TypeParamBound| {
        let s = quote!(#b).to_string();
        !(s == "Send" || s == "Sync")
    };
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.bounds = t.bounds.iter().filter(|b| keep(b)).cloned().collect();
            if t.bounds.is_empty() {
                t.colon_token = None;
            }
        }
    }
    if let Some(w) = &mut g.where_clause {
        let mut np = punctuated::Punctuated::new();
        for p in w.predicates.iter() {
            if let WherePredicate::Type(t) = p {
                let mut t = t.clone();
                t.bounds = t.bounds.iter().filter(|b| keep(b)).cloned().collect();
                if t.bounds.is_empty() {
                    continue;
                }
                np.push(WherePredicate::Type(t));
            } else {
                np.push(p.clone());
            }
        }
        w.predicates = np;
    }
}

fn strip_attrs(b: &mut Block) {
    struct A;
    impl VisitMut for A {
        fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
            a.clear();
        }
    }
    A.visit_block_mut(b);
}

struct ClosureRng {
    depth: usize,
}
impl VisitMut for ClosureRng {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let clo = matches!(e, Expr::Closure(_));
        if clo {
            self.depth += 1;
        }
        visit_mut::visit_expr_mut(self, e);
        if clo {
            self.depth -= 1;
        }
        if self.depth > 0 {
            if let Some((_, a)) = mcall(e, "gen_range") {
                let a = a[0];
                *e = pe(quote!(vx_untracked_gen_range(#a)));
            }
        }
    }
}

/// "call NAME k": the result of the k-th call of method NAME is bound to vx_v_NAME_k, and the hint runs right after the call.
struct CallHints<'a> {
    hints: &'a BTreeSet<String>,
    seen: BTreeMap<String, usize>,
}
impl<'a> VisitMut for CallHints<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let key = match e {
            Expr::MethodCall(m) => Some(m.method.to_string()),
            _ => None,
        };
        visit_mut::visit_expr_mut(self, e);
        let Some(n) = key else { return };
        let k = self.seen.entry(n.clone()).or_insert(0);
        let kk = *k;
        *k += 1;
        let h = format!("call {} {}", n, kk);
        if self.hints.contains(&h) {
            let v = quote::format_ident!("vx_v_{}_{}", n, kk);
            let x = e.clone();
            *e = pe(quote!({ let #v = #x; vx_hint!(#h); #v }));
        }
    }
}

/// Hint points next to statements: "before|after NAME k" for the k-th statement calling method or function NAME,
/// "after let NAME k" and "after set NAME k" for the k-th binding of / assignment to NAME.
struct StmtHints<'a> {
    hints: &'a BTreeSet<String>,
    seen: BTreeMap<String, usize>,
}
impl<'a> VisitMut for StmtHints<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for mut s in b.stmts.drain(..) {
            let key = match &s {
                Stmt::Local(l) => match &l.pat {
                    Pat::Ident(i) => Some(format!("let {}", i.ident)),
                    Pat::Type(t) => match &*t.pat { Pat::Ident(i) => Some(format!("let {}", i.ident)), _ => None },
                    _ => None,
                },
                Stmt::Expr(e, Some(_)) => match strip(e) {
                    Expr::MethodCall(m) => Some(m.method.to_string()),
                    Expr::Call(c) => path_last(&c.func),
                    Expr::Assign(a) => path_last(&a.left).map(|n| format!("set {}", n)),
                    _ => None,
                },
                _ => None,
            };
            let Some(key) = key else {
                visit_mut::visit_stmt_mut(self, &mut s);
                out.push(s);
                continue;
            };
            let k = self.seen.entry(key.clone()).or_insert(0);
            let kk = *k;
            *k += 1;
            let (be, af) = (format!("before {} {}", key, kk), format!("after {} {}", key, kk));
            if self.hints.contains(&be) {
                out.push(pe(quote!(vx_hint!(#be);)));
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            let bi = format!("bind {} {}", key, kk);
            if self.hints.contains(&bi) {
                if let Stmt::Expr(Expr::MethodCall(m), _) = &mut s {
                    if let Some(a) = m.args.last_mut() {
                        let v = quote::format_ident!("vx_bind_{}_{}", key, kk);
                        out.push(pe(quote!(let #v = #a;)));
                        out.push(pe(quote!(vx_hint!(#bi);)));
                        *a = pe(quote!(#v));
                    }
                }
            }
            out.push(s);
            if self.hints.contains(&af) {
                out.push(pe(quote!(vx_hint!(#af);)));
            }
        }
        b.stmts = out;
    }
}

// ------------------------------------------------------------------ types
struct TypeLower<'a> {
    drops: &'a mut BTreeSet<String>,
}
impl<'a> VisitMut for TypeLower<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if let Some(seg) = p.path.segments.last() {
                if seg.ident == "RefCell" {
                    if let PathArguments::AngleBracketed(a) = &seg.arguments {
                        if let Some(GenericArgument::Type(x)) = a.args.first() {
                            self.drops.insert("RefCell<T> is read as T".into());
                            *t = x.clone();
                        }
                    }
                }
            }
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.first().map_or(false, |s| s.ident == "f64") {
            self.drops.insert("f64 is read as F64, an abstract type whose operations are specified by the prelude".into());
            p.segments.first_mut().unwrap().ident = Ident::new("F64", proc_macro2::Span::call_site());
        }
        if p.segments.first().map_or(false, |s| s.ident == "f32") {
            self.drops.insert("f32 is read as F32, an abstract type of which nothing is known".into());
            p.segments.first_mut().unwrap().ident = Ident::new("F32", proc_macro2::Span::call_site());
        }
        if p.segments.len() == 3 && p.segments[0].ident == "std" && p.segments[1].ident == "f64" {
            let last = p.segments.last().unwrap().clone();
            let mut q: Path = parse_quote!(F64);
            q.segments.push(last);
            *p = q;
        }
        if p.segments.last().map_or(false, |s| s.ident == "SmallRng") {
            p.segments.last_mut().unwrap().ident = Ident::new("VxRng", proc_macro2::Span::call_site());
        }
    }
}

// ------------------------------------------------------------------ closures
/// The closures of a body in the order of their numbers: what each is (the method it is given to, or the name it is bound to)
/// and its parameters as they are called after numbering.
#[derive(Default)]
struct Closures {
    out: Vec<(String, Vec<String>)>,
    what: Option<String>,
}
impl Closures {
    fn of(b: &Block) -> Vec<(String, Vec<String>)> {
        let mut c = Closures::default();
        c.visit_block(b);
        let mut n: HashMap<String, usize> = HashMap::new();
        for (w, _) in c.out.iter_mut() {
            let k = n.entry(w.clone()).or_insert(0);
            *k += 1;
            w.push_str(&format!(".{}", *k - 1));
        }
        c.out
    }
}
fn clo_param(i: usize, p: &Pat) -> String {
    match p {
        Pat::Ident(pi) if pi.subpat.is_none() && pi.by_ref.is_none() => pi.ident.to_string(),
        Pat::Type(pt) => match &*pt.pat {
            Pat::Ident(pi) => pi.ident.to_string(),
            _ => format!("vx_p{}", i),
        },
        Pat::Wild(_) => format!("vx_u{}", i),
        _ => format!("vx_p{}", i),
    }
}
impl<'a> Visit<'a> for Closures {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.visit_expr(&m.receiver);
        for a in &m.args {
            self.what = Some(m.method.to_string());
            self.visit_expr(a);
        }
        self.what = None;
    }
    fn visit_local(&mut self, l: &'a Local) {
        if let Some(i) = &l.init {
            if let (Pat::Ident(_), Expr::Closure(_)) = (&l.pat, &*i.expr) {
                self.what = Some("let".into());
            }
            self.visit_expr(&i.expr);
            self.what = None;
            if let Some((_, d)) = &i.diverge {
                self.visit_expr(d);
            }
        }
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        let w = self.what.take().unwrap_or("other".into());
        self.out.push((w, c.inputs.iter().enumerate().map(|(i, p)| clo_param(i, p)).collect()));
        self.visit_expr(&c.body);
    }
    fn visit_expr(&mut self, e: &'a Expr) {
        if !matches!(e, Expr::Closure(_)) {
            self.what = None;
        }
        visit::visit_expr(self, e);
    }
    fn visit_item(&mut self, _: &'a Item) {}
}
/// Renames the parameters of the closures in the order of their numbers.
struct CloParams<'a> {
    k: usize,
    want: &'a [Option<Vec<String>>],
}
impl<'a> VisitMut for CloParams<'a> {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let want = self.want[self.k].clone();
        self.k += 1;
        if let Some(w) = want.filter(|w| w.len() == c.inputs.len()) {
            let mut pre: Vec<Stmt> = vec![];
            for (i, p) in c.inputs.iter_mut().enumerate() {
                if clo_param(i, p) == w[i] {
                    continue;
                }
                let n = Ident::new(&w[i], proc_macro2::Span::call_site());
                let (pat, ty) = match p.clone() {
                    Pat::Type(pt) => ((*pt.pat).clone(), Some(pt.ty)),
                    q => (q, None),
                };
                if !matches!(pat, Pat::Wild(_)) {
                    pre.push(pe(quote!(let #pat = #n;)));
                }
                *p = match ty {
                    Some(t) => Pat::Type(PatType { attrs: vec![], pat: Box::new(pe_pat(quote!(#n))), colon_token: Default::default(), ty: t }),
                    None => pe_pat(quote!(#n)),
                };
            }
            if !pre.is_empty() {
                let body = (*c.body).clone();
                c.body = Box::new(match body {
                    Expr::Block(mut b) if b.label.is_none() => {
                        for (i, s) in pre.into_iter().enumerate() {
                            b.block.stmts.insert(i, s);
                        }
                        Expr::Block(b)
                    }
                    e => pe(quote!({ #(#pre)* #e })),
                });
            }
        }
        self.visit_expr_mut(&mut c.body);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
impl Lower {
    /// Brings the closures to the numbers and parameter names the contract knows them by.
    fn align_closures(&mut self, b: &mut Block, base: &[(String, Vec<String>)]) {
        let cur = self.clo_seen.clone();
        let same_shape = cur.len() == base.len() && cur.iter().zip(base).all(|(a, b)| a.1.len() == b.1.len());
        let keys_match = cur.iter().filter(|c| base.iter().any(|b| b.0 == c.0)).count();
        let map: Vec<Option<usize>> = cur
            .iter()
            .enumerate()
            .map(|(i, c)| {
                let k = base.iter().position(|b| b.0 == c.0 && b.1.len() == c.1.len());
                match k {
                    Some(k) => Some(k),
                    // a closure used otherwise, in the same place
                    None if same_shape && (keys_match + 1 >= cur.len()) => Some(i).filter(|i| !cur.iter().any(|c| c.0 == base[*i].0)),
                    None => None,
                }
            })
            .collect();
        let want: Vec<Option<Vec<String>>> = map
            .iter()
            .enumerate()
            .map(|(i, m)| {
                m.map(|k| base[k].1.clone()).filter(|w| {
                    // a new name that is not already this parameter's must be unknown to the closure
                    w.iter().enumerate().all(|(j, n)| *n == cur[i].1[j] || !clo_mentions(b, i, j, n))
                })
            })
            .collect();
        CloParams { k: 0, want: &want }.visit_block_mut(b);
        self.clo_map = map;
    }
}
/// Whether closure i mentions the name n, apart from binding it in the pattern of its parameter j.
fn clo_mentions(b: &Block, i: usize, j: usize, n: &str) -> bool {
    struct F<'b> {
        k: usize,
        i: usize,
        j: usize,
        n: &'b str,
        hit: bool,
    }
    fn has(t: proc_macro2::TokenStream, n: &str) -> bool {
        t.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == n)
    }
    impl<'a, 'b> Visit<'a> for F<'b> {
        fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
            if self.k == self.i {
                let body = &c.body;
                let own = c.inputs.iter().enumerate().any(|(k, p)| k == self.j && has(quote!(#p), self.n));
                let others = c.inputs.iter().enumerate().any(|(k, p)| k != self.j && has(quote!(#p), self.n));
                self.hit = others || (!own && has(quote!(#body), self.n));
            }
            self.k += 1;
            self.visit_expr(&c.body);
        }
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut f = F { k: 0, i, j, n, hit: false };
    f.visit_block(b);
    f.hit
}

// ------------------------------------------------------------------ numbering
struct Number {
    loops: usize,
    clos: usize,
}
impl Number {
    fn mark_loop(&mut self, b: &mut Block) {
        let k = Literalu(self.loops);
        self.loops += 1;
        let k = k.lit();
        // make the last expression a statement so that hints can follow it
        if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() {
            if semi.is_none() {
                *semi = Some(Default::default());
            }
        }
        b.stmts.insert(0, pe(quote!(vx_loop!(#k);)));
    }
}
struct Literalu(usize);
impl Literalu {
    fn lit(&self) -> proc_macro2::Literal {
        proc_macro2::Literal::usize_unsuffixed(self.0)
    }
}
impl VisitMut for Number {
    fn visit_expr_for_loop_mut(&mut self, l: &mut ExprForLoop) {
        self.visit_expr_mut(&mut l.expr);
        self.mark_loop(&mut l.body);
        self.visit_block_mut(&mut l.body);
    }
    fn visit_expr_while_mut(&mut self, l: &mut ExprWhile) {
        self.mark_loop(&mut l.body);
        self.visit_expr_mut(&mut l.cond);
        self.visit_block_mut(&mut l.body);
    }
    fn visit_expr_loop_mut(&mut self, l: &mut ExprLoop) {
        self.mark_loop(&mut l.body);
        self.visit_block_mut(&mut l.body);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let k = Literalu(self.clos).lit();
        self.clos += 1;
        let body = (*c.body).clone();
        // patterns in parameters become let bindings
        let mut pre: Vec<Stmt> = vec![];
        for (i, p) in c.inputs.iter_mut().enumerate() {
            match p {
                Pat::Ident(pi) if pi.subpat.is_none() && pi.by_ref.is_none() => {}
                Pat::Type(pt) if matches!(&*pt.pat, Pat::Ident(_)) => {}
                Pat::Wild(_) => {
                    let n = quote::format_ident!("vx_u{}", i);
                    *p = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: n, subpat: None });
                }
                _ => {
                    let n = quote::format_ident!("vx_p{}", i);
                    let (pat, ty) = match p.clone() {
                        Pat::Type(pt) => ((*pt.pat).clone(), Some(pt.ty)),
                        q => (q, None),
                    };
                    pre.push(pe(quote!(let #pat = #n;)));
                    *p = match ty {
                        Some(t) => Pat::Type(PatType { attrs: vec![], pat: Box::new(pe_pat(quote!(#n))), colon_token: Default::default(), ty: t }),
                        None => pe_pat(quote!(#n)),
                    };
                }
            }
        }
        let mut blk: Block = match body {
            Expr::Block(b) if b.label.is_none() => b.block,
            e => pe(quote!({ #e })),
        };
        for (i, s) in pre.into_iter().enumerate() {
            blk.stmts.insert(i, s);
        }
        blk.stmts.insert(0, pe(quote!(vx_clo!(#k);)));
        c.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk }));
        self.visit_expr_mut(&mut c.body);
    }
}
fn pe_pat(t: proc_macro2::TokenStream) -> Pat {
    use syn::parse::Parser;
    Pat::parse_single.parse2(t).unwrap()
}

// ------------------------------------------------------------------ structural pass
struct StructPass<'a>(&'a mut Lower);

impl<'a> StructPass<'a> {
    fn fresh(&mut self, p: &str) -> Ident {
        self.0.tmp += 1;
        quote::format_ident!("vx_{}_{}", p, self.0.tmp)
    }

    /// `for PAT in ITER BODY`, with flat_map / map / filter adapters inlined.
    fn mk_for(&mut self, pat: Pat, iter: &Expr, body: Block, inline: bool) -> Expr {
        if let Some((recv, args)) = mcall(iter, "flat_map") {
            if let Some((ps, y)) = args.get(0).and_then(|a| closure_parts(a)) {
                if ps.len() == 1 && !has_return(&y) {
                    self.0.drop_note("flat_map in a loop header becomes a nested loop");
                    let y = match y {
                        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                            Stmt::Expr(e, None) => e.clone(),
                            _ => Expr::Block(b.clone()),
                        },
                        y => y,
                    };
                    let inner = self.mk_for(pat, &y, body, true);
                    return self.mk_for(ps[0].clone(), recv, pe(quote!({ #inner })), true);
                }
            }
        }
        if inline {
            if let Some((recv, args)) = mcall(iter, "map") {
                if let Some((ps, y)) = args.get(0).and_then(|a| closure_parts(a)) {
                    if ps.len() == 1 && !has_return(&y) {
                        self.0.drop_note("map in a loop header becomes a let at the start of the loop body");
                        let stmts = &body.stmts;
                        let b2: Block = pe(quote!({ let #pat = #y; #(#stmts)* }));
                        return self.mk_for(ps[0].clone(), recv, b2, true);
                    }
                }
            }
        }
        pe(quote!(for #pat in #iter #body))
    }

    /// extend/par_extend with a mapped source becomes a push loop
    fn extend_loop(&mut self, target: &Expr, arg: &Expr) -> Option<Expr> {
        let (src, init, pats, body) = if let Some((src, a)) = mcall(arg, "map_init") {
            let (ps, body) = closure_parts(a.get(1)?)?;
            (src.clone(), Some(a[0].clone()), ps, body)
        } else if let Some((src, a)) = mcall(arg, "map") {
            let (ps, body) = closure_parts(a.get(0)?)?;
            (src.clone(), None, ps, body)
        } else {
            return None;
        };
        if has_return(&body) {
            return None;
        }
        // source
        let mut src = strip(&src).clone();
        loop {
            if let Some((r, a)) = mcall(&src, "into_par_iter").or(mcall(&src, "into_iter")) {
                if a.is_empty() {
                    src = strip(r).clone();
                    continue;
                }
            }
            break;
        }
        let (mut pre, count, item): (Vec<Stmt>, Expr, Option<Ident>) = match &src {
            Expr::Call(c) => {
                let f = match &*c.func { Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => return None };
                if (f == "repeatn" || f == "repeat_n") && c.args.len() == 2 {
                    let v = &c.args[0];
                    let n = &c.args[1];
                    let vi = self.fresh("v");
                    let ni = self.fresh("n");
                    (vec![pe(quote!(let #vi = #v;)), pe(quote!(let #ni = #n;))], pe(quote!(0..#ni)), Some(vi))
                } else {
                    return None;
                }
            }
            Expr::Range(_) => (vec![], src.clone(), None),
            _ => return None,
        };
        self.0.drop_note("(par_)extend of a mapped source becomes a sequential push loop; the worker state of map_init is arbitrary for every item (rayon: scheduling and state sharing dropped)");
        let mut stmts: Vec<Stmt> = vec![];
        let mut pi = 0;
        if let Some(init) = init {
            let st = self.fresh("state");
            let e: Expr = match &init {
                Expr::Closure(c) if c.inputs.is_empty() => (*c.body).clone(),
                Expr::Path(p) => pe(quote!(#p())),
                _ => return None,
            };
            let plain = match &e {
                Expr::Call(c) => c.args.is_empty() && matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident == "rng"),
                Expr::MethodCall(m) => m.method == "pull",
                _ => false,
            };
            if !plain {
                self.0.soft.push("a worker state other than a generator".into());
            }
            stmts.push(pe(quote!(let mut #st = vx_worker_state(#e);)));
            let p = &pats[0];
            stmts.push(pe(quote!(let #p = &mut #st;)));
            pi = 1;
        }
        let lp: Pat = match &item {
            Some(v) => {
                let p = pats.get(pi)?;
                if !matches!(p, Pat::Wild(_)) {
                    stmts.push(pe(quote!(let #p = vx_clone_of(&#v);)));
                }
                pe_pat(quote!(_))
            }
            None => pats.get(pi)?.clone(),
        };
        stmts.push(pe(quote!(let vx_item = #body;)));
        stmts.push(pe(quote!(#target.push(vx_item);)));
        let f: Expr = pe(quote!(for #lp in #count { #(#stmts)* }));
        pre.push(Stmt::Expr(f, None));
        Some(pe(quote!({ #(#pre)* })))
    }

    fn rewrite(&mut self, e: &Expr) -> Option<Expr> {
        if let Expr::ForLoop(l) = e {
            // for P in M.values_mut() { P.remove(&X); }
            if let Some((m, a)) = mcall(&l.expr, "values_mut") {
                if a.is_empty() && l.body.stmts.len() == 1 {
                    if let (Pat::Ident(p), Stmt::Expr(b, _)) = (&*l.pat, &l.body.stmts[0]) {
                        if let Some((r, a)) = mcall(b, "remove") {
                            let rs = quote!(#r).to_string();
                            if rs == p.ident.to_string() {
                                let x = a[0];
                                self.0.drop_note("a loop removing one element from every set of a map becomes one call (vx_values_mut_remove)");
                                return Some(pe(quote!({ vx_values_mut_remove(&mut #m, #x); vx_hint!("after values_mut"); })));
                            }
                        }
                    }
                }
            }
            if mcall(&l.expr, "flat_map").is_some() || mcall(&l.expr, "map").is_some() {
                let f = self.mk_for((*l.pat).clone(), &l.expr, l.body.clone(), true);
                return Some(f);
            }
            return None;
        }
        let Expr::MethodCall(m) = e else { return None };
        let args: Vec<&Expr> = m.args.iter().collect();
        match m.method.to_string().as_str() {
            "for_each" => {
                let (ps, body) = closure_parts(args[0])?;
                if ps.len() != 1 || has_return(&body) {
                    return None;
                }
                self.0.drop_note("for_each becomes a for loop");
                let b: Block = match body {
                    Expr::Block(b) => b.block,
                    e => pe(quote!({ #e; })),
                };
                let recv = par_to_seq(&m.receiver);
                Some(self.mk_for(ps[0].clone(), &recv, b, true))
            }
            "for_each_with" => {
                let (ps, body) = closure_parts(args[1])?;
                if ps.len() != 2 || has_return(&body) {
                    return None;
                }
                self.0.drop_note("for_each_with becomes a sequential for loop; the value handed along is shared by all items and must stay unchanged (rayon scheduling dropped)");
                let v = self.fresh("v");
                let (p0, p1, a0) = (&ps[0], &ps[1], args[0]);
                let b: Block = pe(quote!({ let #p0 = &#v; #body; }));
                let recv = par_to_seq(&m.receiver);
                let f = self.mk_for(p1.clone(), &recv, b, true);
                Some(pe(quote!({ let #v = #a0; #f })))
            }
            "par_extend" | "extend" if args.len() == 1 => self.extend_loop(&m.receiver, args[0]),
            _ => None,
        }
    }
}

fn par_to_seq(e: &Expr) -> Expr {
    let mut e = e.clone();
    struct R;
    impl VisitMut for R {
        fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
            self.visit_expr_mut(&mut m.receiver);
            let n = m.method.to_string();
            let r = match n.as_str() {
                "par_iter_mut" => "iter_mut",
                "par_iter" => "iter",
                "into_par_iter" => "into_iter",
                _ => return,
            };
            m.method = Ident::new(r, m.method.span());
        }
    }
    R.visit_expr_mut(&mut e);
    e
}

impl<'a> VisitMut for StructPass<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(n) = self.rewrite(e) {
            *e = n;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Expr(e, semi) = s {
            if let Some(n) = self.rewrite(e) {
                *e = n;
                if matches!(e, Expr::ForLoop(_) | Expr::Block(_)) {
                    *semi = None;
                } else if semi.is_none() {
                    // a call in statement position
                    *semi = Some(Default::default());
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

// ------------------------------------------------------------------ reference patterns in let
/// `let (i, &x) = e;` becomes `let (i, vx_r0) = e; let x = *vx_r0;`
struct RefPat {
    n: usize,
}
impl RefPat {
    fn split(&mut self, p: &mut Pat, out: &mut Vec<(Pat, Ident)>) {
        match p {
            Pat::Reference(r) => {
                let id = quote::format_ident!("vx_r{}", self.n);
                self.n += 1;
                out.push(((*r.pat).clone(), id.clone()));
                *p = pe_pat(quote!(#id));
            }
            Pat::Tuple(t) => t.elems.iter_mut().for_each(|q| self.split(q, out)),
            Pat::Paren(t) => self.split(&mut t.pat, out),
            _ => {}
        }
    }
}
impl VisitMut for RefPat {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for s in b.stmts.drain(..) {
            let mut queue = vec![s];
            while let Some(mut s) = queue.pop() {
                let mut more = vec![];
                if let Stmt::Local(l) = &mut s {
                    if l.init.as_ref().map_or(false, |i| i.diverge.is_none()) {
                        self.split(&mut l.pat, &mut more);
                    }
                }
                out.push(s);
                for (p, id) in more.into_iter().rev() {
                    queue.push(pe(quote!(let #p = *#id;)));
                }
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
}

// ------------------------------------------------------------------ expression pass
struct ExprPass<'a>(&'a mut Lower);

const RENAME: &[(&str, &str)] = &[
    ("iter", "vx_iter"),
    ("par_iter", "vx_iter"),
    ("into_iter", "vx_into_it"),
    ("into_par_iter", "vx_into_it"),
    ("copied", "vx_copied"),
    ("cloned", "vx_copied"),
    ("windows", "vx_windows"),
    ("contains", "vx_contains"),
    ("extend", "vx_extend"),
    ("par_extend", "vx_extend"),
    ("extend_from_slice", "vx_extend_from_slice"),
    ("retain", "vx_retain"),
    ("dedup", "vx_dedup"),
    ("first", "vx_first"),
    ("last", "vx_last"),
    ("choose", "vx_choose"),
    ("shuffle", "vx_shuffle"),
    ("copy_from_slice", "vx_copy_from_slice"),
    ("clone_from_slice", "vx_copy_from_slice"),
    ("rotate_right", "vx_rotate_right"),
    ("rotate_left", "vx_rotate_left"),
    ("reverse", "vx_reverse"),
    ("swap", "vx_swap"),
    ("clone", "vx_clone"),
    ("to_vec", "vx_to_vec"),
    ("to_owned", "vx_to_vec"),
    ("sort_by", "vx_sort_by"),
    ("sort_unstable_by", "vx_sort_by"),
    ("par_sort_by", "vx_sort_by"),
    ("par_sort_unstable_by", "vx_sort_by"),
    ("try_into", "vx_try_into"),
    ("reserve", "vx_reserve"),
    ("truncate", "vx_truncate"),
    ("split_at", "vx_split_at"),
    ("unwrap_or_default", "vx_unwrap_or_default"),
    ("get", "vx_get"),
];

fn is_float_lit(e: &Expr) -> bool {
    matches!(strip(e), Expr::Lit(ExprLit { lit: Lit::Float(_), .. }))
}

const FLOAT_INTS: &[&str] = &["u8", "u16", "u32", "u64", "i32", "i64", "isize"];
/// Is this (already lowered) operand of a cast a floating-point number? Decided by its form.
fn floaty(e: &Expr) -> bool {
    match strip(e) {
        Expr::Call(c) => {
            let f = path_last(&c.func).unwrap_or_default();
            f.starts_with("vx_lit_") || f.starts_with("vx_f64_") || f == "vx_as_f64" || f == "vx_as_f32" || f == "vx_f32_lit" || f.ends_with("interpolate_f64")
        }
        Expr::Binary(b) => floaty(&b.left) || floaty(&b.right),
        Expr::Unary(u) => floaty(&u.expr),
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            ["sqrt", "exp", "floor", "ceil", "round", "trunc", "abs", "vx_gen_f64", "fitness", "ln", "log2", "powi", "powf", "value"].contains(&n.as_str()) && (n != "abs" || floaty(&m.receiver)) || (n == "vx_max" || n == "vx_min" || n == "clamp") && (floaty(&m.receiver) || m.args.iter().any(floaty))
        }
        _ => false,
    }
}

fn path_last(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => Some(p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")),
        _ => None,
    }
}

/// Arithmetic in single precision, told by a cast to f32 in it: its literals are single precision too.
fn single(e: &Expr) -> bool {
    match e {
        Expr::Binary(b) => single(&b.left) || single(&b.right),
        Expr::Paren(p) => single(&p.expr),
        Expr::Unary(u) => single(&u.expr),
        Expr::MethodCall(m) => ["sqrt", "floor", "ceil", "round", "exp", "min", "max"].contains(&m.method.to_string().as_str()) && (single(&m.receiver) || m.args.iter().any(single)),
        Expr::Cast(c) => {
            let t = &c.ty;
            quote!(#t).to_string() == "F32"
        }
        _ => false,
    }
}
fn mark_single(e: &mut Expr) {
    match e {
        Expr::Binary(b) => {
            mark_single(&mut b.left);
            mark_single(&mut b.right);
        }
        Expr::Paren(p) => mark_single(&mut p.expr),
        Expr::Unary(u) => mark_single(&mut u.expr),
        Expr::MethodCall(m) => {
            mark_single(&mut m.receiver);
            m.args.iter_mut().for_each(mark_single);
        }
        Expr::Lit(l) => {
            if let Lit::Float(f) = &l.lit {
                if f.suffix().is_empty() {
                    l.lit = Lit::Float(LitFloat::new(&format!("{}f32", f.base10_digits()), f.span()));
                }
            }
        }
        _ => {}
    }
}
fn has_call(e: &Expr, n: &str) -> bool {
    match e {
        Expr::MethodCall(m) => m.method == n || has_call(&m.receiver, n),
        Expr::Paren(p) => has_call(&p.expr, n),
        _ => false,
    }
}

impl<'a> ExprPass<'a> {
    fn lower_for(&mut self, l: &ExprForLoop, after: bool) -> Expr {
        let _ = after;
        let ord = {
            let s = match &l.body.stmts[0] {
                Stmt::Macro(m) => m.mac.tokens.to_string(),
                _ => unreachable!(),
            };
            s.trim().parse::<usize>().unwrap()
        };
        let k = quote::format_ident!("vx_k{}", ord);
        let s = quote::format_ident!("vx_s{}", ord);
        let mark = &l.body.stmts[0];
        let rest = &l.body.stmts[1..];
        let pat = &*l.pat;
        let label = &l.label;
        let before = format!("before loop {}", ord);
        let aft = format!("after loop {}", ord);
        // iter_mut forms
        let mut e = strip(&l.expr).clone();
        let mut skip: Option<Expr> = None;
        let mut skip_before_enum = true;
        let mut enumerate = false;
        let mut base: Option<Expr> = None;
        let mut take: Option<Expr> = None;
        if let Some((r, a)) = mcall(&e, "take") {
            if has_call(r, "iter_mut") && !has_call(r, "skip") {
                take = Some(a[0].clone());
                e = r.clone();
            }
        }
        loop {
            if let Some((r, a)) = mcall(&e, "iter_mut") {
                if a.is_empty() {
                    base = Some(r.clone());
                }
                break;
            } else if let Some((r, _)) = mcall(&e, "enumerate") {
                if enumerate {
                    break;
                }
                enumerate = true;
                e = r.clone();
            } else if let Some((r, a)) = mcall(&e, "skip") {
                if skip.is_some() {
                    break;
                }
                skip = Some(a[0].clone());
                skip_before_enum = enumerate; // seen enumerate already (outer) => skip happens before
                e = r.clone();
            } else if let Expr::Reference(r) = &e {
                if r.mutability.is_some() {
                    base = Some((*r.expr).clone());
                }
                break;
            } else {
                break;
            }
        }
        if let Some(base) = base {
            self.0.drop_note("a loop over iter_mut() becomes an index loop borrowing one element at a time");
            let c0: Expr = skip.clone().unwrap_or_else(|| pe(quote!(0)));
            let cur = quote::format_ident!("vx_c{}", ord);
            let idx: Expr = if enumerate && skip.is_some() && skip_before_enum { pe(quote!(#cur - #c0)) } else { pe(quote!(#cur)) };
            let (ip, ep): (Option<Pat>, Pat) = if enumerate {
                match pat {
                    Pat::Tuple(t) if t.elems.len() == 2 => (Some(t.elems[0].clone()), t.elems[1].clone()),
                    _ => {
                        self.0.err("enumerate pattern");
                        (None, pat.clone())
                    }
                }
            } else {
                (None, pat.clone())
            };
            let ib: Vec<Stmt> = ip.into_iter().map(|p| pe(quote!(let #p = #idx;))).collect();
            let bt = quote!(#base).to_string().replace(' ', "");
            if let Some(t) = take {
                let h = quote::format_ident!("vx_h{}", ord);
                self.0.auto_inv.insert(ord, (format!("{h} <= {bt}@.len(),"), format!("{h} - vx_k{ord}")));
                return pe(quote!({
                    let #h: usize = (#t).vx_min(#base.len());
                    let mut #k: usize = #c0;
                    vx_hint!(#before);
                    #label while #k < #h {
                        #mark
                        let #cur: usize = #k;
                        #k = #k + 1;
                        #(#ib)*
                        let #ep = &mut #base[#cur];
                        #(#rest)*
                    }
                    vx_hint!(#aft);
                }));
            }
            self.0.auto_inv.insert(
                ord,
                (String::new(), format!("{}@.len() - vx_k{}", bt, ord)),
            );
            return pe(quote!({
                let mut #k: usize = #c0;
                vx_hint!(#before);
                #label while #k < #base.len() {
                    #mark
                    let #cur: usize = #k;
                    #k = #k + 1;
                    #(#ib)*
                    let #ep = &mut #base[#cur];
                    #(#rest)*
                }
                vx_hint!(#aft);
            }));
        }
        // a half-open range that does not start at 0: the loop counter is the value itself
        if let Expr::Range(r) = strip(&l.expr) {
            if let (Some(lo), Some(hi), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                if quote!(#lo).to_string() != "0" && quote!(#lo).to_string() != "0usize" {
                    let h = quote::format_ident!("vx_h{}", ord);
                    self.0.auto_inv.insert(ord, (String::new(), format!("{} - {}", h, k)));
                    return pe(quote!({
                        let mut #k: usize = #lo;
                        let #h: usize = #hi;
                        vx_hint!(#before);
                        #label while #k < #h {
                            #mark
                            let #pat: usize = #k;
                            #k = #k + 1;
                            #(#rest)*
                        }
                        vx_hint!(#aft);
                    }));
                }
            }
        }
        let mut it = (*l.expr).clone();
        let mut arr: Option<Stmt> = None;
        {
            let mut r = &mut it;
            loop {
                match r {
                    Expr::MethodCall(m) => r = &mut *m.receiver,
                    Expr::Paren(p) => r = &mut *p.expr,
                    _ => break,
                }
            }
            if let Expr::Array(_) = r {
                let v = quote::format_ident!("vx_arr{}", ord);
                let a = r.clone();
                arr = Some(pe(quote!(let #v = #a;)));
                *r = pe(quote!(#v));
            }
        }
        self.0.drop_note("for loops become index loops over the sequence of items (Iterator protocol dropped)");
        self.0.auto_inv.insert(
            ord,
            (format!("vx_k{ord} <= vx_s{ord}@.len(),"), format!("vx_s{ord}@.len() - vx_k{ord}")),
        );
        let bind: Option<Stmt> = match pat {
            Pat::Wild(_) => Some(pe(quote!(let _vx_w = #s.vx_at(#k);))),
            _ => Some(pe(quote!(let #pat = #s.vx_at(#k);))),
        };
        pe(quote!({
            #arr
            let #s = vx_loop_source(#it);
            let mut #k: usize = 0;
            vx_hint!(#before);
            #label while #k < #s.vx_count() {
                #mark
                #bind
                #k = #k + 1;
                #(#rest)*
            }
            vx_hint!(#aft);
        }))
    }
}

impl<'a> VisitMut for ExprPass<'a> {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // macros in statement position: assert!, debug_assert! ...
        if let Stmt::Macro(m) = s {
            if let Some(n) = self.macro_expr(&m.mac) {
                *s = Stmt::Expr(n, Some(Default::default()));
            }
        }
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Expr(e, semi) = s {
            // blocks produced from loops need no semicolon
            if matches!(e, Expr::Block(_)) {
                *semi = semi.take();
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(n) = self.macro_expr(&m.mac) {
                *e = n;
            }
        }
        // slice indexing with ..= before generic range lowering
        if let Expr::Index(ix) = e {
            if let Expr::Range(r) = strip(&ix.index) {
                if matches!(r.limits, RangeLimits::Closed(_)) {
                    let st = r.start.clone();
                    let en = r.end.clone();
                    self.0.drop_note("slicing with a..=b is written a..(b + 1)");
                    *ix.index = pe(quote!(#st..(#en + 1)));
                }
            }
        }
        if single(e) {
            mark_single(e);
        }
        // contains on a literal range
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            // RefCell borrow
            if (n == "borrow" || n == "borrow_mut") && m.args.is_empty() {
                self.0.drop_note("RefCell::borrow/borrow_mut are dropped (run-time borrow checks not modelled)");
                let r = (*m.receiver).clone();
                *e = r;
                self.visit_expr_mut(e);
                return;
            }
            if n == "take" && m.args.len() == 1 {
                if let Some((r, a)) = mcall(&m.receiver, "sample_iter") {
                    let (d, cnt) = (a[0].clone(), m.args[0].clone());
                    self.0.drop_note("sample_iter(d).take(n) becomes one call drawing n values");
                    *e = pe(quote!(#r.vx_sample_take(#d, #cnt)));
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
            // M.entry(K).or_insert_with(HashSet::new).extend(V)
            if n == "extend" {
                if let Some((r, _)) = mcall(&m.receiver, "or_insert_with").or(mcall(&m.receiver, "or_default")) {
                    if let Some((map, a)) = mcall(r, "entry") {
                        let k = a[0].clone();
                        let v = m.args[0].clone();
                        self.0.drop_note("map.entry(k).or_insert_with(HashSet::new).extend(v) becomes one call (vx_entry_extend)");
                        *e = pe(quote!(vx_entry_extend(&mut #map, #k, #v)));
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // mutable sub-slices
        fn sub_mut(x: &Expr) -> Option<Expr> {
            if let Expr::Index(ix) = strip(x) {
                if matches!(strip(&ix.index), Expr::Range(_)) {
                    let (b, r) = (&ix.expr, &ix.index);
                    return Some(pe(quote!(#b.vx_sub_mut(#r))));
                }
            }
            None
        }
        if let Expr::MethodCall(m) = e {
            const MUT: &[&str] = &["reverse", "rotate_left", "rotate_right", "shuffle", "copy_from_slice", "clone_from_slice", "swap", "iter_mut"];
            if MUT.contains(&m.method.to_string().as_str()) {
                if let Some(n) = sub_mut(&m.receiver) {
                    self.0.drop_note("a mutable sub-slice a[i..j] is written a.vx_sub_mut(i..j)");
                    *m.receiver = n;
                }
            }
        }
        if let Expr::Reference(r) = e {
            if r.mutability.is_some() {
                if let Some(n) = sub_mut(&r.expr) {
                    self.0.drop_note("a mutable sub-slice a[i..j] is written a.vx_sub_mut(i..j)");
                    *e = n;
                }
            }
        }
        let new: Option<Expr> = match e {
            Expr::ForLoop(l) => Some(self.lower_for(&l.clone(), true)),
            Expr::While(w) => {
                // hints around while loops
                let ord = loop_ord(&w.body);
                let before = format!("before loop {}", ord);
                let aft = format!("after loop {}", ord);
                if let Expr::Let(l) = &*w.cond {
                    self.0.drop_note("while let becomes loop { match .. { .. => .., _ => break } }");
                    let (p, x) = (&l.pat, &l.expr);
                    let mark = &w.body.stmts[0];
                    let rest = &w.body.stmts[1..];
                    let label = &w.label;
                    Some(pe(quote!({ vx_hint!(#before); #label loop { #mark match #x { #p => { #(#rest)* } _ => { break; } } } vx_hint!(#aft); })))
                } else {
                    let w = w.clone();
                    Some(pe(quote!({ vx_hint!(#before); #w vx_hint!(#aft); })))
                }
            }
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) if f.suffix() == "f32" => {
                let code: u64 = f.base10_digits().bytes().fold(7u64, |a, b| (a * 257 + b as u64) % 1_000_000_007);
                Some(pe(quote!(vx_f32_lit(#code))))
            }
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => {
                let t = f.base10_digits().to_string();
                let n = quote::format_ident!("{}", lit_name(&t));
                self.0.lits.insert(t);
                Some(pe(quote!(#n())))
            }
            Expr::Cast(c) => {
                let ty = &c.ty;
                let t = quote!(#ty).to_string();
                let x = &c.expr;
                if t == "F64" {
                    Some(pe(quote!(vx_as_f64(#x))))
                } else if t == "usize" {
                    Some(pe(quote!(vx_as_usize(#x))))
                } else if t == "F32" {
                    Some(pe(quote!(vx_as_f32(#x))))
                } else if FLOAT_INTS.contains(&t.as_str()) && floaty(x) {
                    let f = quote::format_ident!("vx_float_as_{}", t);
                    Some(pe(quote!(#f(#x))))
                } else {
                    None
                }
            }
            Expr::Path(p) if p.path.segments.len() >= 2 && p.path.segments[p.path.segments.len() - 2].ident == "F64" => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                if ["INFINITY", "NEG_INFINITY", "NAN", "EPSILON", "MAX", "MIN", "MIN_POSITIVE"].contains(&n.as_str()) {
                    let f = quote::format_ident!("vx_f64_{}", n.to_lowercase());
                    Some(pe(quote!(#f())))
                } else {
                    None
                }
            }
            Expr::Binary(b) => {
                let op = match b.op {
                    BinOp::AddAssign(_) => Some(quote!(+)),
                    BinOp::SubAssign(_) => Some(quote!(-)),
                    BinOp::MulAssign(_) => Some(quote!(*)),
                    BinOp::DivAssign(_) => Some(quote!(/)),
                    BinOp::RemAssign(_) => Some(quote!(%)),
                    _ => None,
                };
                op.map(|o| {
                    let (l, r) = (&b.left, &b.right);
                    pe(quote!(#l = #l #o (#r)))
                })
            }
            Expr::Range(r) if matches!(r.limits, RangeLimits::Closed(_)) && r.start.is_some() && r.end.is_some() => {
                let (s, x) = (&r.start, &r.end);
                Some(pe(quote!(RangeIncl::new(#s, #x))))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let turbofish = m.turbofish.clone();
                let recv = m.receiver.clone();
                if n == "unwrap" && m.args.is_empty() && self.0.panics {
                    m.method = quote::format_ident!("vx_unwrap_or_panic");
                    None
                } else if n == "gen_range" && self.0.panics {
                    m.method = quote::format_ident!("vx_gen_range_or_panic");
                    None
                } else if n == "gen" {
                    self.0.drop_note("rng.gen::<f64>() is specified as a draw from [0, 1)");
                    Some(pe(quote!(#recv.vx_gen_f64())))
                } else if n == "into" && m.args.is_empty() && self.0.opts.iter().any(|o| o.starts_with("into:")) {
                    let t = self.0.opts.iter().find_map(|o| o.strip_prefix("into:")).unwrap();
                    let ty: syn::Type = syn::parse_str(t).unwrap();
                    self.0.drop_note("x.into() is written as the From conversion it stands for");
                    Some(pe(quote!(#ty::from(#recv))))
                } else if n == "pull" {
                    Some(pe(quote!(#recv.vx_pull())))
                } else if n == "collect" {
                    match turbofish {
                        Some(t) => {
                            let ts = t.args.first().unwrap();
                            let s = quote!(#ts).to_string();
                            if s.starts_with("Vec") || s == "_" {
                                Some(pe(quote!(#recv.vx_collect())))
                            } else {
                                Some(pe(quote!(<#ts>::from_iter(#recv))))
                            }
                        }
                        None => Some(pe(quote!(#recv.vx_collect()))),
                    }
                } else if n == "clamp" && m.args.len() == 2 && !floaty(&recv) && !m.args.iter().any(floaty) {
                    m.method = quote::format_ident!("vx_clamp");
                    None
                } else if n == "max" && m.args.len() == 1 {
                    m.method = quote::format_ident!("vx_max");
                    None
                } else if n == "min" && m.args.len() == 1 {
                    m.method = quote::format_ident!("vx_min");
                    None
                } else if n == "sum" && turbofish.is_some() {
                    m.turbofish = None;
                    None
                } else {
                    if let Some((_, to)) = RENAME.iter().find(|(a, _)| *a == n) {
                        m.method = Ident::new(to, m.method.span());
                    }
                    None
                }
            }
            Expr::Call(c) => {
                let f = path_last(&c.func).unwrap_or_default();
                match f.as_str() {
                    "RefCell::new" => Some(c.args[0].clone()),
                    "Vec::from_iter" => {
                        let a = &c.args[0];
                        Some(pe(quote!(#a.vx_collect())))
                    }
                    "std::iter::once" | "iter::once" | "once" => {
                        let a = &c.args[0];
                        Some(pe(quote!(vx_once(#a))))
                    }
                    "std::iter::repeat_with" => None,
                    _ => None,
                }
            }
            Expr::Index(ix) => {
                // map indexing: m[&k]
                if let Expr::Reference(r) = strip(&ix.index) {
                    if r.mutability.is_none() {
                        let (m, k) = (&ix.expr, &ix.index);
                        self.0.drop_note("map[&k] is written vx_map_index(&map, &k)");
                        Some(pe(quote!((*vx_map_index(&#m, #k)))))
                    } else {
                        None
                    }
                } else if let Expr::Path(p) = strip(&ix.index) {
                    // map[k] with a reference variable cannot be told apart from slice indexing; handled by overlay option
                    let nm = quote!(#p).to_string();
                    if self.0.opts.contains(&format!("mapindex:{}", nm)) {
                        let (m, k) = (&ix.expr, &ix.index);
                        Some(pe(quote!((*vx_map_index(&#m, #k)))))
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            Expr::Loop(l) => {
                let ord = loop_ord(&l.body);
                let before = format!("before loop {}", ord);
                let aft = format!("after loop {}", ord);
                let l = l.clone();
                if self.0.opts.contains("loopvalue") { None } else {
                    Some(pe(quote!({ vx_hint!(#before); #l vx_hint!(#aft); })))
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

fn loop_ord(b: &Block) -> usize {
    match &b.stmts[0] {
        Stmt::Macro(m) if m.mac.path.is_ident("vx_loop") => m.mac.tokens.to_string().trim().parse().unwrap(),
        _ => usize::MAX,
    }
}

impl<'a> ExprPass<'a> {
    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok();
        let panic_fn: Expr = if self.0.panics { pe(quote!(vx_rejects())) } else { pe(quote!(vx_panic())) };
        match name.as_str() {
            "assert" | "debug_assert" => {
                let a = args?;
                let c = a.first()?;
                self.0.drop_note("assert!(c) becomes if !(c) { panic }, where reaching the panic is an obligation");
                Some(pe(quote!(if !(#c) { #panic_fn })))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args?;
                let (x, y) = (&a[0], &a[1]);
                Some(pe(quote!(if !(#x == #y) { #panic_fn })))
            }
            "assert_ne" | "debug_assert_ne" => {
                let a = args?;
                let (x, y) = (&a[0], &a[1]);
                Some(pe(quote!(if #x == #y { #panic_fn })))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(panic_fn),
            "vec" => {
                // vec![x; n] / vec![a, b]
                if let Ok(r) = m.parse_body_with(|i: syn::parse::ParseStream| {
                    let x: Expr = i.parse()?;
                    let _: Token![;] = i.parse()?;
                    let n: Expr = i.parse()?;
                    Ok((x, n))
                }) {
                    let (mut x, mut n) = r;
                    TypeLower { drops: &mut self.0.drops }.visit_expr_mut(&mut x);
                    TypeLower { drops: &mut self.0.drops }.visit_expr_mut(&mut n);
                    return Some(pe(quote!(vx_vec_from_elem(#x, #n))));
                }
                None
            }
            "matches" | "vx_loop" | "vx_clo" | "vx_hint" => None,
            "println" | "eprintln" | "dbg" => Some(pe(quote!(()))),
            other => {
                self.0.err(&format!("macro {}!", other));
                None
            }
        }
    }
}

#[allow(dead_code)]
fn unused(e: &Expr) -> bool {
    is_float_lit(e)
}

struct CallbackCall(String);
impl VisitMut for CallbackCall {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.0)) {
                let (f, a) = (&c.func, &c.args);
                *e = pe(quote!(#f.vx_call(#a)));
            }
        }
    }
}

struct SelfVar;
impl VisitMut for SelfVar {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = pe(quote!(vx_self));
            }
        }
    }
}

/// Auto-deref of a Population to the slice of its individuals, made explicit.
struct DerefVars<'a> {
    names: &'a BTreeSet<String>,
    hit: bool,
}
const SLICE_METHODS: &[&str] = &["len", "is_empty", "iter", "par_iter", "first", "last", "get", "contains", "to_vec", "windows", "split_at", "to_owned", "choose"];
impl<'a> DerefVars<'a> {
    fn named(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.names.contains(&i.to_string())))
    }
}
impl<'a> VisitMut for DerefVars<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Index(i) if self.named(&i.expr) => {
                let x = i.expr.clone();
                i.expr = pe(quote!(#x.deref()));
                self.hit = true;
            }
            Expr::MethodCall(m) if self.named(&m.receiver) && SLICE_METHODS.contains(&m.method.to_string().as_str()) => {
                let x = m.receiver.clone();
                m.receiver = pe(quote!(#x.deref()));
                self.hit = true;
            }
            _ => {}
        }
    }
}
