//! Normalisation before lowering: constants are replaced by their values, helpers that are not under contract are inlined at
//! their calls, and local names are brought back to the names the contracts use. All three keep the meaning of the code;
//! where a case is not covered the text is left as it is (and the verifier then does not accept it).
use crate::{find_impl_fn, Index};
use proc_macro2::{TokenStream, TokenTree};
use quote::quote;
use std::collections::{BTreeSet, HashMap};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Scope<'a> {
    pub ix: &'a Index,
    /// the functions of the unit: (owner: type, trait or "", name)
    pub unit: &'a BTreeSet<(String, String)>,
    pub ty: String,
    pub tr: String,
}

struct Helper {
    sig: Signature,
    block: Block,
}

fn single(p: &Path) -> Option<String> {
    let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    match s.as_slice() {
        [x] => Some(x.clone()),
        [a, x] if a == "super" || a == "crate" || a == "self" => Some(x.clone()),
        _ => None,
    }
}

impl<'a> Scope<'a> {
    fn free(&self, n: &str, locals: &HashMap<String, ItemFn>) -> Option<Helper> {
        if let Some(f) = locals.get(n) {
            return Some(Helper { sig: f.sig.clone(), block: (*f.block).clone() });
        }
        if self.unit.contains(&(String::new(), n.to_string())) {
            return None;
        }
        let (f, _) = self.ix.fns.get(n)?;
        Some(Helper { sig: f.sig.clone(), block: (*f.block).clone() })
    }
    fn method_of(&self, ty: &str, n: &str) -> Option<Helper> {
        if self.unit.contains(&(ty.to_string(), n.to_string())) {
            return None;
        }
        let impls = self.ix.impls.get(&(String::new(), ty.to_string()))?;
        let (_, f, _) = find_impl_fn(impls, n)?;
        Some(Helper { sig: f.sig.clone(), block: f.block.clone() })
    }
    /// `self.n(..)` or `Self::n(..)` in the current scope
    fn own(&self, n: &str) -> Option<Helper> {
        if !self.ty.is_empty() {
            // a method of one of the type's trait impls that is under contract takes precedence
            if self.unit.contains(&(self.ty.clone(), n.to_string())) {
                return None;
            }
            return self.method_of(&self.ty, n);
        }
        if !self.tr.is_empty() {
            if self.unit.contains(&(self.tr.clone(), n.to_string())) {
                return None;
            }
            let (t, _) = self.ix.traits.get(&self.tr)?;
            // a default method nobody overrides
            for ((tr, _), impls) in &self.ix.impls {
                if *tr == self.tr && find_impl_fn(impls, n).is_some() {
                    return None;
                }
            }
            return t.items.iter().find_map(|i| match i {
                TraitItem::Fn(f) if f.sig.ident == n => f.default.as_ref().map(|b| Helper { sig: f.sig.clone(), block: b.clone() }),
                _ => None,
            });
        }
        None
    }
    /// a method only one type of the crate has, inherently
    fn unique(&self, n: &str) -> Option<Helper> {
        // names the standard types have too
        if ["is_empty", "len", "iter", "iter_mut", "contains", "push", "pop", "insert", "remove", "get", "get_mut", "first", "last", "next", "clone", "min", "max", "take", "swap", "replace", "clear", "extend", "append", "sort", "reverse", "fill", "start", "end", "borrow", "borrow_mut", "as_ref", "as_mut", "eq", "ne", "lt", "le", "gt", "ge", "cmp", "count", "sum", "map", "filter", "find", "position", "any", "all", "is_some", "is_none", "unwrap", "get_or_insert", "floor", "sqrt", "abs"].contains(&n) {
            return None;
        }
        let mut found = None;
        for ((tr, ty), impls) in &self.ix.impls {
            if find_impl_fn(impls, n).is_some() {
                if !tr.is_empty() || found.is_some() || self.unit.contains(&(ty.clone(), n.to_string())) {
                    return None;
                }
                found = self.method_of(ty, n);
            }
        }
        if self.ix.traits.values().any(|(t, _)| t.items.iter().any(|i| matches!(i, TraitItem::Fn(f) if f.sig.ident == n))) {
            return None;
        }
        found
    }
}

struct Returns(bool);
impl<'a> Visit<'a> for Returns {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn returns_block(b: &Block) -> bool {
    let mut r = Returns(false);
    r.visit_block(b);
    r.0
}

/// `if c { return x; } rest` at the top of a block becomes `if c { x } else { rest }`.
fn no_early_returns(b: &mut Block) {
    // trailing `return x;` or `return x`
    match b.stmts.last().cloned() {
        Some(Stmt::Expr(Expr::Return(r), _)) => {
            b.stmts.pop();
            if let Some(e) = r.expr {
                b.stmts.push(Stmt::Expr(*e, None));
            }
        }
        Some(Stmt::Expr(Expr::If(mut i), semi)) if semi.is_none() => {
            no_early_returns(&mut i.then_branch);
            if let Some((_, e)) = &mut i.else_branch {
                if let Expr::Block(eb) = &mut **e {
                    no_early_returns(&mut eb.block);
                }
            }
            b.stmts.pop();
            b.stmts.push(Stmt::Expr(Expr::If(i), None));
        }
        Some(Stmt::Expr(Expr::Match(mut m), None)) => {
            for a in &mut m.arms {
                match &mut *a.body {
                    Expr::Block(eb) => no_early_returns(&mut eb.block),
                    Expr::Return(r) => {
                        if let Some(e) = r.expr.take() {
                            a.body = e;
                        }
                    }
                    _ => {}
                }
            }
            b.stmts.pop();
            b.stmts.push(Stmt::Expr(Expr::Match(m), None));
        }
        _ => {}
    }
    for k in 0..b.stmts.len() {
        let Stmt::Expr(Expr::If(i), _) = &b.stmts[k] else { continue };
        if i.else_branch.is_some() || !matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) {
            continue;
        }
        let mut i = i.clone();
        no_early_returns(&mut i.then_branch);
        let mut rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(k + 1) };
        no_early_returns(&mut rest);
        b.stmts.pop();
        i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rest }))));
        b.stmts.push(Stmt::Expr(Expr::If(i), None));
        return;
    }
}

/// Replaces the helper's own type parameters by `_` in types.
struct Holes(BTreeSet<String>);
impl VisitMut for Holes {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.get_ident().map_or(false, |i| self.0.contains(&i.to_string())) {
                *t = parse2(quote!(_));
                return;
            }
        }
        if let Type::Reference(r) = t {
            r.lifetime = None;
        }
        if let Type::ImplTrait(_) = t {
            *t = parse2(quote!(_));
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
}
fn parse2<T: syn::parse::Parse>(t: TokenStream) -> T {
    syn::parse2(t.clone()).unwrap_or_else(|e| panic!("vx normal: {} in {}", e, t))
}

/// Does the token stream mention the identifier?
pub fn mentions(t: TokenStream, n: &str) -> bool {
    t.into_iter().any(|x| match x {
        TokenTree::Ident(i) => i == n,
        TokenTree::Group(g) => mentions(g.stream(), n),
        _ => false,
    })
}

struct SelfTo(Expr);
impl VisitMut for SelfTo {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.0.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}

/// the variable a place is part of
fn root_of(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root_of(&f.base),
        Expr::Paren(p) => root_of(&p.expr),
        _ => None,
    }
}
/// A name bound to a borrow of a place, replaced by the place where it is dereferenced, and by the borrow elsewhere.
struct Deref<'a>(&'a str, &'a Expr, &'a Expr);
impl<'a> Deref<'a> {
    fn is(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.qself.is_none() && p.path.is_ident(self.0))
    }
}
impl<'a> VisitMut for Deref<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.is(&u.expr) => {
                *e = self.1.clone();
                return;
            }
            Expr::Field(f) if self.is(&f.base) => {
                f.base = Box::new(self.1.clone());
                return;
            }
            Expr::Index(f) if self.is(&f.expr) => {
                f.expr = Box::new(self.1.clone());
            }
            Expr::MethodCall(m) if self.is(&m.receiver) => {
                m.receiver = Box::new(self.1.clone());
            }
            _ => {}
        }
        if self.is(e) {
            *e = self.2.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let Ok(mut a) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) else { return };
        for x in a.iter_mut() {
            self.visit_expr_mut(x);
        }
        m.tokens = quote!(#a);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

struct Inline<'a> {
    sc: &'a Scope<'a>,
    locals: HashMap<String, ItemFn>,
    depth: usize,
    tail: bool,
    used: BTreeSet<String>,
}

impl<'a> Inline<'a> {
    fn expand(&mut self, h: Helper, recv: Option<&Expr>, args: Vec<Expr>, tail: bool, name: &str) -> Option<Expr> {
        if self.depth >= 4 {
            return None;
        }
        let mut block = h.block.clone();
        if !tail {
            search_loop(&mut block);
            no_early_returns(&mut block);
            if returns_block(&block) {
                return None;
            }
        }
        let mut gens: BTreeSet<String> = h.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        // a type parameter of the same name as the caller's keeps its name inside the body
        let mut holes = Holes(std::mem::take(&mut gens));
        let mut lets: Vec<TokenStream> = vec![];
        let mut args = args;
        let mut inputs = h.sig.inputs.iter().peekable();
        let mut recv = recv.cloned();
        if let Some(FnArg::Receiver(_)) = inputs.peek() {
            inputs.next();
            if recv.is_none() {
                // Type::method(receiver, ...)
                if args.is_empty() {
                    return None;
                }
                let mut r = args.remove(0);
                if let Expr::Reference(rr) = &r {
                    r = (*rr.expr).clone();
                }
                recv = Some(r);
            }
            let r = recv.unwrap();
            if !is_place(&r) {
                return None;
            }
            let is_self = matches!(&r, Expr::Path(p) if p.path.is_ident("self"));
            if !is_self {
                SelfTo(r).visit_block_mut(&mut block);
                if mentions(quote!(#block), "self") {
                    return None;
                }
            }
        } else if recv.is_some() {
            return None;
        }
        let params: Vec<&PatType> = inputs.filter_map(|a| match a { FnArg::Typed(t) => Some(t), _ => None }).collect();
        if params.len() != args.len() {
            return None;
        }
        let names: Vec<Option<String>> = params.iter().map(|p| match &*p.pat { Pat::Ident(i) => Some(i.ident.to_string()), _ => None }).collect();
        // arguments are evaluated before any parameter is bound
        let conflict = (0..args.len()).any(|i| {
            let a = &args[i];
            (0..i).any(|j| names[j].as_ref().map_or(true, |n| mentions(quote!(#a), n)))
        });
        let mut srcs: Vec<TokenStream> = vec![];
        if conflict {
            for (i, a) in args.iter().enumerate() {
                let same = matches!(a, Expr::Path(p) if p.path.get_ident().map(|x| x.to_string()) == names[i]);
                if same {
                    srcs.push(quote!(#a));
                    continue;
                }
                let t = quote::format_ident!("vx_arg{}_{}", self.depth, i);
                lets.push(quote!(let #t = #a;));
                srcs.push(quote!(#t));
            }
        } else {
            srcs = args.iter().map(|a| quote!(#a)).collect();
        }
        for (i, p) in params.iter().enumerate() {
            let (src, pat) = (&srcs[i], &p.pat);
            let mutable = matches!(&**pat, Pat::Ident(x) if x.mutability.is_some());
            if !mutable && names[i].as_deref() == Some(src.to_string().as_str()) {
                continue;
            }
            if matches!(&args[i], Expr::Closure(_)) {
                return None;
            }
            // a mutable borrow of a place: the parameter is that place
            if let (false, false, Some(name), Expr::Reference(r)) = (mutable, conflict, &names[i], &args[i]) {
                let root = root_of(&r.expr);
                let mut bound = Binders::default();
                bound.visit_block(&block);
                let taken = |n: &String| bound.0.contains(n) || names.iter().enumerate().any(|(j, m)| j != i && m.as_ref() == Some(n));
                if r.mutability.is_some() && root.as_ref().map_or(false, |n| !taken(n)) && !bound.0.contains(name) {
                    Deref(name, &r.expr, &args[i]).visit_block_mut(&mut block);
                    continue;
                }
            }
            let mut ty = (*p.ty).clone();
            holes.visit_type_mut(&mut ty);
            if matches!(ty, Type::Infer(_)) {
                lets.push(quote!(let #pat = #src;));
            } else {
                lets.push(quote!(let #pat: #ty = #src;));
            }
        }
        holes.visit_block_mut(&mut block);
        let stmts = &block.stmts;
        let e: Expr = parse2(quote!({ #(#lets)* #(#stmts)* }));
        self.used.insert(name.to_string());
        let mut e = e;
        self.depth += 1;
        if let Expr::Block(b) = &mut e {
            let t = std::mem::replace(&mut self.tail, tail);
            self.block(&mut b.block);
            self.tail = t;
        }
        self.depth -= 1;
        // a block without bindings around a single expression is that expression
        if let Expr::Block(b) = &e {
            if let [Stmt::Expr(x, None)] = b.block.stmts.as_slice() {
                return Some(parse2(quote!((#x))));
            }
        }
        Some(e)
    }
    fn call(&mut self, e: &mut Expr, tail: bool) {
        let new = match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return };
                if p.qself.is_some() {
                    return;
                }
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if let Some(n) = single(&p.path) {
                    self.sc.free(&n, &self.locals).and_then(|h| self.expand(h, None, args, tail, &n))
                } else if segs.len() == 2 {
                    let n = &segs[1];
                    let h = if segs[0] == "Self" { self.sc.own(n) } else { self.sc.method_of(&segs[0], n).filter(|h| segs[0] == self.sc.ty || matches!(h.sig.inputs.first(), Some(FnArg::Receiver(_))) || !mentions({ let b = &h.block; let s = &h.sig; quote!(#s #b) }, "Self")) };
                    h.and_then(|h| self.expand(h, None, args, tail, n))
                } else {
                    None
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                let is_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                let h = if is_self { self.sc.own(&n) } else { self.sc.unique(&n) };
                let r = (*m.receiver).clone();
                h.and_then(|h| self.expand(h, Some(&r), args, tail, &n))
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
    fn block(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        let tail = self.tail;
        for (k, s) in b.stmts.iter_mut().enumerate() {
            self.tail = tail && k + 1 == n && matches!(s, Stmt::Expr(_, None));
            self.visit_stmt_mut(s);
        }
        self.tail = tail;
    }
}
impl<'a> VisitMut for Inline<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.block(b);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let tail = self.tail;
        match e {
            // tail position goes through blocks, if and match
            Expr::Block(b) => {
                self.block(&mut b.block);
                return;
            }
            Expr::If(i) => {
                self.tail = false;
                self.visit_expr_mut(&mut i.cond);
                self.tail = tail;
                self.block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail = tail;
                    self.visit_expr_mut(x);
                }
                self.tail = tail;
                return;
            }
            Expr::Match(m) => {
                self.tail = false;
                self.visit_expr_mut(&mut m.expr);
                for a in &mut m.arms {
                    if let Some((_, g)) = &mut a.guard {
                        self.tail = false;
                        self.visit_expr_mut(g);
                    }
                    self.tail = tail;
                    self.visit_expr_mut(&mut a.body);
                }
                self.tail = tail;
                return;
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.tail = false;
                    self.visit_expr_mut(x);
                }
                self.tail = tail;
                return;
            }
            _ => {}
        }
        self.tail = false;
        visit_mut::visit_expr_mut(self, e);
        self.call(e, tail);
        self.tail = tail;
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // assert!(cond, ..): look inside the condition
        let n = m.path.segments.last().unwrap().ident.to_string();
        if n == "assert" || n == "debug_assert" {
            if let Ok(mut xs) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                let t = std::mem::replace(&mut self.tail, false);
                for x in xs.iter_mut() {
                    self.visit_expr_mut(x);
                }
                self.tail = t;
                if !self.used.is_empty() {
                    m.tokens = quote!(#xs);
                }
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// Constants become their values.
struct Consts<'a> {
    sc: &'a Scope<'a>,
    locals: HashMap<String, Expr>,
    hit: bool,
}
impl<'a> VisitMut for Consts<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e {
            if p.qself.is_some() {
                return;
            }
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let v = if let Some(n) = single(&p.path) {
                self.locals.get(&n).cloned().or_else(|| self.sc.ix.consts.get(&(String::new(), n)).cloned())
            } else if segs.len() == 2 {
                let t = if segs[0] == "Self" { if self.sc.ty.is_empty() { &self.sc.tr } else { &self.sc.ty } } else { &segs[0] };
                self.sc.ix.consts.get(&(t.clone(), segs[1].clone())).cloned()
            } else {
                None
            };
            if let Some(v) = v {
                self.hit = true;
                *e = match v {
                    Expr::Lit(_) => v,
                    _ => parse2(quote!((#v))),
                };
                visit_mut::visit_expr_mut(self, e);
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(mut xs) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            let h = std::mem::replace(&mut self.hit, false);
            for x in xs.iter_mut() {
                self.visit_expr_mut(x);
            }
            if self.hit {
                m.tokens = quote!(#xs);
            }
            self.hit |= h;
        }
    }
}

/// Names bound in a function body, in order of first occurrence.
#[derive(Default)]
struct Binders(Vec<String>);
impl<'a> Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') && !self.0.contains(&n) {
            self.0.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_item(&mut self, _: &'a Item) {}
}
pub fn binders(sig: &Signature, b: &Block) -> Vec<String> {
    let mut v = Binders::default();
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            v.visit_pat(&t.pat);
        }
    }
    v.0.push("|".into());
    v.visit_block(b);
    v.0
}

/// For names bound by a plain `let`, a fingerprint of the first initialiser, blind to the names of locals.
pub fn inits(sig: &Signature, b: &Block) -> HashMap<String, String> {
    struct V<'a>(HashMap<String, String>, &'a [String]);
    fn blind(t: TokenStream, locals: &[String], o: &mut String) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Group(g) => {
                    o.push_str(&format!("{:?}", g.delimiter()));
                    blind(g.stream(), locals, o);
                    o.push(';');
                }
                proc_macro2::TokenTree::Ident(i) if locals.contains(&i.to_string()) => o.push_str("_ "),
                x => o.push_str(&format!("{} ", x)),
            }
        }
    }
    impl<'a> Visit<'a> for V<'_> {
        fn visit_local(&mut self, l: &'a Local) {
            let p = match &l.pat {
                Pat::Type(t) => &*t.pat,
                p => p,
            };
            if let (Pat::Ident(p), Some(i)) = (p, &l.init) {
                let e = &i.expr;
                let mut o = String::new();
                blind(quote!(#e), self.1, &mut o);
                let h = o.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
                self.0.entry(p.ident.to_string()).or_insert(format!("{:08x}", h as u32));
            }
            visit::visit_local(self, l);
        }
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let names = binders(sig, b);
    let mut v = V(HashMap::new(), &names);
    v.visit_block(b);
    v.0
}

/// `loop { if c { break; } rest }` becomes `while !c { rest }`.
struct LoopToWhile(bool);
impl VisitMut for LoopToWhile {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Loop(l) = e else { return };
        // let go = c; if !go { break; }
        if let [Stmt::Local(c), Stmt::Expr(Expr::If(i), _), rest @ ..] = l.body.stmts.as_slice() {
            if let (Pat::Ident(p), Some(init)) = (&c.pat, &c.init) {
                let name = p.ident.to_string();
                let (t, eb) = (&i.then_branch, i.else_branch.as_ref().map(|x| &x.1));
                if init.diverge.is_none() && !mentions(quote!(#t #eb #(#rest)*), &name) {
                    let x = &init.expr;
                    let used = match &*i.cond {
                        Expr::Path(q) if q.path.is_ident(&name) => Some(parse2::<Expr>(quote!((#x)))),
                        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) && matches!(&*u.expr, Expr::Path(q) if q.path.is_ident(&name)) => Some(parse2(quote!(!(#x)))),
                        _ => None,
                    };
                    if let Some(c) = used {
                        l.body.stmts.remove(0);
                        if let Some(Stmt::Expr(Expr::If(i), _)) = l.body.stmts.first_mut() {
                            i.cond = Box::new(c);
                        }
                    }
                }
            }
        }
        let Some(Stmt::Expr(Expr::If(i), _)) = l.body.stmts.first() else { return };
        let plain_break = |b: &Block| {
            b.stmts.len() == 1 && matches!(&b.stmts[0], Stmt::Expr(Expr::Break(x), _) if x.expr.is_none() && (x.label.is_none() || x.label == l.label.as_ref().map(|q| q.name.clone())))
        };
        let has_let = |c: &Expr| quote!(#c).to_string().starts_with("let ");
        if has_let(&i.cond) || !plain_break(&i.then_branch) {
            return;
        }
        let cond: Expr = match &*i.cond {
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => match &*u.expr {
                Expr::Paren(p) => (*p.expr).clone(),
                x => x.clone(),
            },
            c => parse2(quote!(!(#c))),
        };
        let mut rest: Vec<Stmt> = l.body.stmts[1..].to_vec();
        if let Some((_, eb)) = &i.else_branch {
            let mut v: Vec<Stmt> = match &**eb {
                Expr::Block(b) => b.block.stmts.clone(),
                x => vec![Stmt::Expr(x.clone(), None)],
            };
            if !rest.is_empty() {
                if let Some(Stmt::Expr(x, semi @ None)) = v.last_mut() {
                    if !matches!(x, Expr::If(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Match(_) | Expr::Block(_)) {
                        *semi = Some(Default::default());
                    }
                }
                v = vec![parse2(quote!({ #(#v)* }))];
            }
            v.append(&mut rest);
            rest = v;
        }
        let label = &l.label;
        *e = parse2(quote!(#label while #cond { #(#rest)* }));
        self.0 = true;
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// In a loop body, `if c { A; continue; } rest` becomes `if c { A } else { rest }` (`if !c { rest }` when A is empty),
/// and `let P = e else { continue; }; rest` becomes `if let P = e { rest }`.
struct NoContinue(bool);
impl NoContinue {
    fn own(e: &Stmt, label: &Option<Label>) -> bool {
        matches!(e, Stmt::Expr(Expr::Continue(x), _) if x.label.is_none() || x.label == label.as_ref().map(|q| q.name.clone()))
    }
    fn body(&mut self, b: &mut Block, label: &Option<Label>) {
        let Some(k) = b.stmts.iter().position(|s| match s {
            Stmt::Expr(Expr::If(i), _) => i.else_branch.is_none() && i.then_branch.stmts.last().map_or(false, |s| Self::own(s, label)),
            Stmt::Local(l) => match l.init.as_ref().and_then(|i| i.diverge.as_ref()) {
                Some((_, d)) => matches!(&**d, Expr::Block(d) if d.block.stmts.len() == 1 && Self::own(&d.block.stmts[0], label)),
                None => false,
            },
            _ => false,
        }) else { return };
        let mut rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(k + 1) };
        if let Some(Stmt::Expr(x, semi @ None)) = rest.stmts.last_mut() {
            if !matches!(x, Expr::If(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Match(_) | Expr::Block(_)) {
                *semi = Some(Default::default());
            }
        }
        self.body(&mut rest, label);
        let new: Expr = match b.stmts.pop().unwrap() {
            Stmt::Expr(Expr::If(mut i), _) => {
                i.then_branch.stmts.pop();
                let (c, a) = (&i.cond, &i.then_branch);
                if !a.stmts.is_empty() || quote!(#c).to_string().contains("let ") {
                    if rest.stmts.is_empty() { parse2(quote!(if #c #a)) } else { parse2(quote!(if #c #a else #rest)) }
                } else {
                    let c: Expr = match &*i.cond {
                        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => (*u.expr).clone(),
                        c @ (Expr::MethodCall(_) | Expr::Call(_) | Expr::Path(_) | Expr::Paren(_) | Expr::Field(_) | Expr::Index(_)) => parse2(quote!(!#c)),
                        c => parse2(quote!(!(#c))),
                    };
                    parse2(quote!(if #c #rest))
                }
            }
            Stmt::Local(l) => {
                let i = l.init.unwrap();
                let (p, e) = (&l.pat, &i.expr);
                parse2(quote!(if let #p = #e #rest))
            }
            _ => unreachable!(),
        };
        b.stmts.push(Stmt::Expr(new, None));
        self.0 = true;
    }
}
impl VisitMut for NoContinue {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(l) => { let q = l.label.clone(); self.body(&mut l.body, &q) }
            Expr::While(l) => { let q = l.label.clone(); self.body(&mut l.body, &q) }
            Expr::Loop(l) => { let q = l.label.clone(); self.body(&mut l.body, &q) }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// `let a = X.borrow();` with no other borrowing of cells while `a` lives: `a` is written `X.borrow()`.
struct BorrowAlias(bool);
impl VisitMut for BorrowAlias {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut i = 0;
        while i < b.stmts.len() {
            let found = match &b.stmts[i] {
                Stmt::Local(l) => match (&l.pat, &l.init) {
                    (Pat::Ident(p), Some(init)) if p.by_ref.is_none() && p.subpat.is_none() && init.diverge.is_none() => match &*init.expr {
                        Expr::MethodCall(m) if m.args.is_empty() && (m.method == "borrow" || m.method == "borrow_mut") && is_place(&m.receiver) => Some((p.ident.to_string(), (*init.expr).clone(), m.method == "borrow")),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, e, shared)) = found {
                let rest = &b.stmts[i + 1..];
                let text = quote!(#(#rest)*);
                let rebound = {
                    let blk: Block = parse2(quote!({ #text }));
                    let mut v = Binders::default();
                    v.visit_block(&blk);
                    v.0.contains(&name)
                };
                if !rebound && !borrows(text.clone(), shared) && !mentions(text, "drop") {
                    b.stmts.remove(i);
                    let mut sub = Subst(&name, &e);
                    for s in b.stmts[i..].iter_mut() {
                        sub.visit_stmt_mut(s);
                    }
                    self.0 = true;
                    continue;
                }
            }
            i += 1;
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
/// Whether the text may borrow a cell (mutably, if `shared` borrows are harmless): a borrow_mut (or borrow), or `self` used other than through a field.
fn borrows(t: TokenStream, shared: bool) -> bool {
    let v: Vec<TokenTree> = t.into_iter().collect();
    for (i, x) in v.iter().enumerate() {
        match x {
            TokenTree::Group(g) => {
                if borrows(g.stream(), shared) {
                    return true;
                }
            }
            TokenTree::Ident(d) if d == "borrow_mut" || d == "try_borrow_mut" || d == "replace" || (!shared && (d == "borrow" || d == "try_borrow")) => {
                if matches!(v.get(i + 1), Some(TokenTree::Group(_))) {
                    return true;
                }
            }
            TokenTree::Ident(d) if d == "self" => {
                let field = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() == '.') && matches!(v.get(i + 2), Some(TokenTree::Ident(_))) && !matches!(v.get(i + 3), Some(TokenTree::Group(_)));
                if !field {
                    return true;
                }
            }
            _ => {}
        }
    }
    false
}
struct Subst<'a>(&'a str, &'a Expr);
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.is_ident(self.0) {
                *e = self.1.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// `let x: T = e.collect();` becomes `let x: T = e.collect::<T>();`
struct Collect;
impl VisitMut for Collect {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        let (Pat::Type(t), Some(i)) = (&l.pat, &mut l.init) else { return };
        let Expr::MethodCall(m) = &mut *i.expr else { return };
        if m.method == "collect" && m.turbofish.is_none() && m.args.is_empty() {
            let t = &t.ty;
            m.turbofish = Some(parse2(quote!(::<#t>)));
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// `c.then(|| x)` becomes `if c { Some(x) } else { None }`; `c.then_some(x)` likewise, with x evaluated either way.
struct Then(bool);
impl VisitMut for Then {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::MethodCall(m) = e else { return };
        if m.args.len() != 1 {
            return;
        }
        let c = &m.receiver;
        let new: Expr = match (m.method.to_string().as_str(), &m.args[0]) {
            ("then", Expr::Closure(f)) if f.inputs.is_empty() => {
                let x = &f.body;
                if mentions(quote!(#x), "return") {
                    return;
                }
                parse2(quote!(if #c { Some(#x) } else { None }))
            }
            ("then_some", x) => parse2(quote!({ let (vx_c, vx_x) = (#c, #x); if vx_c { Some(vx_x) } else { None } })),
            _ => return,
        };
        *e = new;
        self.0 = true;
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// `if c { BODY }` as the last statement of a function without a result, or `if c { short } else { BODY }` as its result,
/// where the contract knows an early return: `if !c { return; } BODY`.
fn early_return(sig: &Signature, b: &mut Block) -> bool {
    let unit = matches!(sig.output, ReturnType::Default);
    let Some(Stmt::Expr(Expr::If(i), None | Some(_))) = b.stmts.last() else { return false };
    let i = i.clone();
    let cond = &i.cond;
    if has_let(cond) {
        return false;
    }
    let not: Expr = match &*i.cond {
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => (*u.expr).clone(),
        c @ (Expr::MethodCall(_) | Expr::Call(_) | Expr::Path(_) | Expr::Paren(_) | Expr::Field(_) | Expr::Index(_)) => parse2(quote!(!#c)),
        c => parse2(quote!(!(#c))),
    };
    let (first, body): (Stmt, Block) = match &i.else_branch {
        None if unit => (parse2(quote!(if #not { return; })), i.then_branch.clone()),
        Some((_, e)) => {
            let Expr::Block(e) = &**e else { return false };
            let (short, long, c) = if i.then_branch.stmts.len() <= e.block.stmts.len() { (&i.then_branch, &e.block, (*i.cond).clone()) } else { (&e.block, &i.then_branch, not) };
            let stmts = &short.stmts;
            let first: Stmt = match stmts.as_slice() {
                [Stmt::Expr(x, None)] if !unit => parse2(quote!(if #c { return #x; })),
                _ if unit => parse2(quote!(if #c { #(#stmts)* return; })),
                _ => return false,
            };
            (first, long.clone())
        }
        _ => return false,
    };
    b.stmts.pop();
    b.stmts.push(first);
    b.stmts.extend(body.stmts);
    true
}
fn has_let(e: &Expr) -> bool {
    struct L(bool);
    impl<'a> Visit<'a> for L {
        fn visit_expr_let(&mut self, _: &'a ExprLet) {
            self.0 = true;
        }
    }
    let mut l = L(false);
    l.visit_expr(e);
    l.0
}

/// A vector made empty before a loop, cleared at the end of its body and not used after it: cleared at the start of the body.
fn clear_first(b: &mut Block) -> bool {
    for k in 0..b.stmts.len() {
        let Stmt::Expr(Expr::While(w), _) = &b.stmts[k] else { continue };
        let Some(Stmt::Expr(Expr::MethodCall(m), Some(_))) = w.body.stmts.last() else { continue };
        let Expr::Path(v) = &*m.receiver else { continue };
        let Some(name) = v.path.get_ident().map(|i| i.to_string()) else { continue };
        if m.method != "clear" || w.label.is_some() {
            continue;
        }
        let c = &w.cond;
        let after = &b.stmts[k + 1..];
        let body = &w.body.stmts;
        let text = quote!(#(#body)*);
        if mentions(quote!(#c #(#after)*), &name) || mentions(text.clone(), "continue") || mentions(text, "return") {
            continue;
        }
        let empty = |s: &Stmt| match s {
            Stmt::Local(l) => match (&l.pat, &l.init) {
                (Pat::Ident(p), Some(i)) if p.ident == name => {
                    let t = { let x = &i.expr; quote!(#x).to_string() };
                    t.starts_with("Vec :: with_capacity (") || t == "Vec :: new ()"
                }
                _ => false,
            },
            _ => false,
        };
        let Some(at) = b.stmts[..k].iter().rposition(empty) else { continue };
        let between = &b.stmts[at + 1..k];
        if mentions(quote!(#(#between)*), &name) {
            continue;
        }
        let Stmt::Expr(Expr::While(w), _) = &mut b.stmts[k] else { unreachable!() };
        let s = w.body.stmts.pop().unwrap();
        w.body.stmts.insert(0, s);
        return true;
    }
    false
}

/// `|a, b| f(a, b)` becomes `f`; `s.iter().any(|x| *x == e)` becomes `s.contains(&e)` where the contract knows no `any`.
struct Eta<'a>(bool, &'a [String]);
impl<'a> VisitMut for Eta<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            let mut found = None;
            if m.method == "any" && m.args.len() == 1 && !self.1.iter().any(|c| c.starts_with("any.")) {
                let (Expr::MethodCall(it), Expr::Closure(c)) = (&*m.receiver, &m.args[0]) else { return };
                if it.method != "iter" || !it.args.is_empty() || c.inputs.len() != 1 {
                    return;
                }
                let (name, by_value) = match &c.inputs[0] {
                    Pat::Ident(p) => (p.ident.to_string(), false),
                    Pat::Reference(r) => match &*r.pat {
                        Pat::Ident(p) => (p.ident.to_string(), true),
                        _ => return,
                    },
                    _ => return,
                };
                let Expr::Binary(b) = &*c.body else { return };
                if !matches!(b.op, BinOp::Eq(_)) {
                    return;
                }
                // the element and, at the same level of reference, the value it is compared with
                let strip = |x: &Expr| -> Option<bool> {
                    match x {
                        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && !by_value => matches!(&*u.expr, Expr::Path(p) if p.path.is_ident(&name)).then_some(true),
                        Expr::Path(p) if p.path.is_ident(&name) => Some(by_value),
                        _ => None,
                    }
                };
                let (l, r) = (b.left.clone(), b.right.clone());
                let recv = it.receiver.clone();
                for (x, y) in [(&l, &r), (&r, &l)] {
                    if mentions(quote!(#y), &name) {
                        continue;
                    }
                    let r = &recv;
                    let new: Expr = match (strip(x), &**y) {
                        (Some(true), y) => parse2(quote!(#r.contains(&#y))),
                        (Some(false), Expr::Reference(_)) => parse2(quote!(#r.contains(#y))),
                        _ => continue,
                    };
                    found = Some(new);
                    break;
                }
            }
            if let Some(new) = found {
                *e = new;
                self.0 = true;
            }
            return;
        }
        let Expr::Closure(c) = e else { return };
        if c.inputs.is_empty() || c.capture.is_some() {
            return;
        }
        let Expr::Call(f) = &*c.body else { return };
        let Expr::Path(p) = &*f.func else { return };
        let names: Vec<String> = c.inputs.iter().filter_map(|i| match i { Pat::Ident(i) if i.mutability.is_none() && i.by_ref.is_none() => Some(i.ident.to_string()), _ => None }).collect();
        let args: Vec<String> = f.args.iter().map(|a| quote!(#a).to_string()).collect();
        if names.len() == c.inputs.len() && names == args && p.path.segments.len() == 1 && p.path.get_ident().map_or(false, |i| i.to_string().starts_with(|c: char| c.is_lowercase())) {
            *e = (*f.func).clone();
            self.0 = true;
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// `for p in &s { v.push(p.clone()); }` becomes `v.extend(s.iter().cloned());` (also with `s.iter()`, and `*p` for `copied`).
struct PushLoop(bool);
impl VisitMut for PushLoop {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        let Stmt::Expr(Expr::ForLoop(l), _) = s else { return };
        if l.label.is_some() || l.body.stmts.len() != 1 {
            return;
        }
        let Stmt::Expr(Expr::MethodCall(m), _) = &l.body.stmts[0] else { return };
        let Pat::Ident(p) = &*l.pat else { return };
        if m.method != "push" || m.args.len() != 1 || !is_place(&m.receiver) {
            return;
        }
        let p = p.ident.to_string();
        let x = &m.args[0];
        let how = match quote!(#x).to_string() {
            t if t == format!("{p} . clone ()") => Ident::new("cloned", proc_macro2::Span::call_site()),
            t if t == format!("* {p}") => Ident::new("copied", proc_macro2::Span::call_site()),
            _ => return,
        };
        let source: Expr = match &*l.expr {
            Expr::Reference(r) if r.mutability.is_none() => (*r.expr).clone(),
            Expr::MethodCall(c) if c.method == "iter" && c.args.is_empty() => (*c.receiver).clone(),
            _ => return,
        };
        let v = &m.receiver;
        *s = parse2(quote!(#v.extend(#source.iter().#how());));
        self.0 = true;
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// A loop that returns at the first hit, at the end of a function, becomes the search it spells out:
/// `for (i, p) in E.enumerate() { if c { return Some(i); } } None` is `E.position(|p| c)`, and
/// `for p in E { if c { return true; } } false` is `E.any(|p| c)`.
fn search_loop(b: &mut Block) -> bool {
    let n = b.stmts.len();
    if n < 2 {
        return false;
    }
    let (Stmt::Expr(Expr::ForLoop(l), _), Stmt::Expr(tail, None)) = (&b.stmts[n - 2], &b.stmts[n - 1]) else { return false };
    if l.label.is_some() || l.body.stmts.len() != 1 {
        return false;
    }
    let Stmt::Expr(Expr::If(i), _) = &l.body.stmts[0] else { return false };
    if i.else_branch.is_some() || i.then_branch.stmts.len() != 1 {
        return false;
    }
    let Stmt::Expr(Expr::Return(r), _) = &i.then_branch.stmts[0] else { return false };
    let Some(r) = &r.expr else { return false };
    let (rs, ts) = (quote!(#r).to_string(), quote!(#tail).to_string());
    let c = &i.cond;
    let cs = quote!(#c).to_string();
    if cs.starts_with("let ") || cs.contains("return") || cs.contains('?') {
        return false;
    }
    let Expr::MethodCall(m) = &*l.expr else { return false };
    let new: Option<Expr> = if ts == "None" && m.method == "enumerate" && m.args.is_empty() {
        match &*l.pat {
            Pat::Tuple(t) if t.elems.len() == 2 => match &t.elems[0] {
                Pat::Ident(k) if rs == format!("Some ({})", k.ident) && !mentions(quote!(#c), &k.ident.to_string()) => {
                    let (p, e) = (&t.elems[1], &m.receiver);
                    Some(parse2(quote!(#e.position(|#p| #c))))
                }
                _ => None,
            },
            _ => None,
        }
    } else if ts == "false" && rs == "true" {
        let (p, e) = (&l.pat, &l.expr);
        Some(parse2(quote!(#e.any(|#p| #c))))
    } else {
        None
    };
    let Some(new) = new else { return false };
    b.stmts.truncate(n - 2);
    b.stmts.push(Stmt::Expr(new, None));
    true
}

/// number of `return`s, of `%` operators, and of loops, in a body
#[derive(Default)]
pub struct Counts(pub usize, pub usize, pub usize);
impl<'a> Visit<'a> for Counts {
    fn visit_expr(&mut self, e: &'a Expr) {
        if matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) {
            self.2 += 1;
        }
        visit::visit_expr(self, e);
    }
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.0 += 1;
        visit::visit_expr_return(self, r);
    }
    fn visit_bin_op(&mut self, o: &'a BinOp) {
        if matches!(o, BinOp::Rem(_)) {
            self.1 += 1;
        }
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        let r = self.0;
        visit::visit_expr_closure(self, c);
        self.0 = r;
    }
}
pub fn counts(b: &Block) -> Counts {
    let mut c = Counts::default();
    c.visit_block(b);
    c
}

struct Rename<'a>(&'a HashMap<String, String>);
impl<'a> Rename<'a> {
    fn ident(&self, i: &Ident) -> Option<Ident> {
        self.0.get(&i.to_string()).map(|n| Ident::new(n, i.span()))
    }
    fn tokens(&self, t: TokenStream) -> TokenStream {
        let mut after_dot = false;
        t.into_iter()
            .map(|x| {
                let y = match &x {
                    TokenTree::Ident(i) if !after_dot => self.ident(i).map(TokenTree::Ident).unwrap_or(x.clone()),
                    TokenTree::Group(g) => {
                        let mut n = proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream()));
                        n.set_span(g.span());
                        TokenTree::Group(n)
                    }
                    _ => x.clone(),
                };
                after_dot = matches!(&x, TokenTree::Punct(p) if p.as_char() == '.');
                y
            })
            .collect()
    }
}
impl<'a> VisitMut for Rename<'a> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            if let Some(n) = self.ident(&p.path.segments[0].ident) {
                p.path.segments[0].ident = n;
            }
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.ident(&p.ident) {
            p.ident = n;
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            if let Member::Named(n) = &f.member {
                if self.0.contains_key(&n.to_string()) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            if let Member::Named(n) = &f.member {
                if self.0.contains_key(&n.to_string()) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// Which current names stand for which recorded names: names that differ, matched between common neighbours in the order of binding.
fn matching(base: &[String], cur: &[String]) -> HashMap<String, String> {
    // longest common subsequence of names
    let (n, m) = (base.len(), cur.len());
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            l[i][j] = if base[i] == cur[j] { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) };
        }
    }
    let mut out = HashMap::new();
    let (mut i, mut j) = (0, 0);
    let (mut gb, mut gc): (Vec<&String>, Vec<&String>) = (vec![], vec![]);
    let flush = |gb: &mut Vec<&String>, gc: &mut Vec<&String>, out: &mut HashMap<String, String>| {
        let b: Vec<&&String> = gb.iter().filter(|x| !cur.contains(x)).collect();
        let c: Vec<&&String> = gc.iter().filter(|x| !base.contains(x)).collect();
        if b.len() == c.len() {
            for (b, c) in b.iter().zip(&c) {
                out.insert(c.to_string(), b.to_string());
            }
        }
        gb.clear();
        gc.clear();
    };
    while i < n && j < m {
        if base[i] == cur[j] {
            flush(&mut gb, &mut gc, &mut out);
            i += 1;
            j += 1;
        } else if l[i + 1][j] >= l[i][j + 1] {
            gb.push(&base[i]);
            i += 1;
        } else {
            gc.push(&cur[j]);
            j += 1;
        }
    }
    gb.extend(&base[i..]);
    gc.extend(&cur[j..]);
    flush(&mut gb, &mut gc, &mut out);
    out
}

pub struct Report {
    pub inlined: Vec<String>,
    pub consts: bool,
    pub loops: bool,
    pub flow: bool,
    pub renamed: Vec<(String, String)>,
}

pub fn normalise(sig: &mut Signature, block: &mut Block, sc: &Scope, names: Option<&Vec<String>>, base_returns: Option<usize>, base_loops: Option<&Vec<String>>, base_clos: &[String]) -> Report {
    // constants and functions declared inside the body
    let mut lc: HashMap<String, Expr> = HashMap::new();
    let mut lf: HashMap<String, ItemFn> = HashMap::new();
    block.stmts.retain(|s| match s {
        Stmt::Item(Item::Const(c)) => {
            lc.insert(c.ident.to_string(), (*c.expr).clone());
            false
        }
        Stmt::Item(Item::Fn(f)) => {
            lf.insert(f.sig.ident.to_string(), f.clone());
            false
        }
        _ => true,
    });
    let mut inl = Inline { sc, locals: lf, depth: 0, tail: true, used: Default::default() };
    inl.block(block);
    let inlined: Vec<String> = inl.used.into_iter().collect();
    let mut ba = BorrowAlias(false);
    ba.visit_block_mut(block);
    Collect.visit_block_mut(block);
    let mut th = Then(false);
    th.visit_block_mut(block);
    let early = base_returns.map_or(false, |n| counts(block).0 < n) && early_return(sig, block);
    let mut lw = LoopToWhile(false);
    lw.visit_block_mut(block);
    let cleared = clear_first(block);
    let mut eta = Eta(false, base_clos);
    eta.visit_block_mut(block);
    let mut nc = NoContinue(false);
    nc.visit_block_mut(block);
    let mut pl = PushLoop(false);
    pl.visit_block_mut(block);
    let rewritten = crate::loops::rewrite(sig, block, base_loops);
    let searched = search_loop(block);
    let mut cs = Consts { sc, locals: lc, hit: false };
    cs.visit_block_mut(block);
    let consts = cs.hit;
    let mut renamed = vec![];
    if let Some(base) = names {
        let cur = binders(sig, block);
        let base_inits: HashMap<&str, &str> = base.iter().filter_map(|x| x.split_once('~')).collect();
        let base: Vec<String> = base.iter().map(|x| x.split('~').next().unwrap().to_string()).collect();
        if base != cur {
            let mut m = matching(&base, &cur);
            // a name initialised otherwise is another variable
            let cur_inits = inits(sig, block);
            m.retain(|from, to| match (cur_inits.get(from), base_inits.get(to.as_str())) {
                (Some(a), Some(b)) => a == b,
                _ => true,
            });
            // capture-free: the new name occurs nowhere in the function
            m.retain(|_, to| !mentions(quote!(#sig #block), to));
            if !m.is_empty() {
                let mut r = Rename(&m);
                r.visit_signature_mut(sig);
                r.visit_block_mut(block);
                renamed = m.into_iter().collect();
            }
        }
    }
    Report { inlined, consts, renamed, flow: ba.0 || th.0 || early || cleared || eta.0, loops: lw.0 || nc.0 || pl.0 || rewritten || searched }
}
