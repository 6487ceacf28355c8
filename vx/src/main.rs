//! vx: mechanical extraction of functions from /repo/src into a Verus file.
//! See /verif/DESIGN.md, section "Extraction", for the list of lowering rules and what they drop.
mod loops;
mod lower;
mod normal;
mod print;

use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::*;

#[derive(Default)]
pub struct Index {
    pub fns: HashMap<String, (ItemFn, String)>,
    pub structs: HashMap<String, (ItemStruct, String)>,
    pub enums: HashMap<String, (ItemEnum, String)>,
    pub traits: HashMap<String, (ItemTrait, String)>,
    /// (trait name or "", self type name) -> impls
    pub impls: HashMap<(String, String), Vec<(ItemImpl, String)>>,
    /// (type, trait or "", name) -> value
    pub consts: HashMap<(String, String), Expr>,
}

fn has_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && quote::quote!(#a).to_string().contains("test")
    })
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_name(&r.elem),
        _ => quote::quote!(#t).to_string(),
    }
}

fn index_items(ix: &mut Index, items: Vec<Item>, file: &str) {
    for it in items {
        match it {
            Item::Fn(f) => {
                if !has_cfg_test(&f.attrs) {
                    ix.fns.insert(f.sig.ident.to_string(), (f, file.into()));
                }
            }
            Item::Const(c) => {
                ix.consts.insert((String::new(), c.ident.to_string()), (*c.expr).clone());
            }
            Item::Struct(s) => {
                ix.structs.insert(s.ident.to_string(), (s, file.into()));
            }
            Item::Enum(s) => {
                ix.enums.insert(s.ident.to_string(), (s, file.into()));
            }
            Item::Trait(s) => {
                for i in &s.items {
                    if let TraitItem::Const(c) = i {
                        if let Some((_, e)) = &c.default { ix.consts.insert((s.ident.to_string(), c.ident.to_string()), e.clone()); }
                    }
                }
                ix.traits.insert(s.ident.to_string(), (s, file.into()));
            }
            Item::Impl(i) => {
                let tr = i
                    .trait_
                    .as_ref()
                    .map(|(_, p, _)| p.segments.last().unwrap().ident.to_string())
                    .unwrap_or_default();
                // From<X> for Y: include the generic argument to distinguish
                let tr = if tr == "From" || tr == "TryFrom" || tr == "RandomIndividual" {
                    let p = &i.trait_.as_ref().unwrap().1;
                    if let PathArguments::AngleBracketed(a) = &p.segments.last().unwrap().arguments {
                        let a0 = a.args.first().unwrap();
                        format!("{}<{}>", tr, match a0 { GenericArgument::Type(t) => type_name(t), _ => String::new() })
                    } else {
                        tr
                    }
                } else {
                    tr
                };
                let ty = type_name(&i.self_ty);
                for it in &i.items {
                    if let ImplItem::Const(c) = it { ix.consts.insert((ty.clone(), c.ident.to_string()), c.expr.clone()); }
                }
                ix.impls.entry((tr, ty)).or_default().push((i, file.into()));
            }
            Item::Mod(m) => {
                if !has_cfg_test(&m.attrs) {
                    if let Some((_, items)) = m.content {
                        index_items(ix, items, file);
                    }
                }
            }
            _ => {}
        }
    }
}

fn walk(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    es.sort();
    for e in es {
        if e.is_dir() {
            walk(&e, out)
        } else if e.extension().map_or(false, |x| x == "rs") {
            out.push(e)
        }
    }
}

pub fn lost(msg: &str) -> ! {
    eprintln!("VX-LOST: {}", msg);
    std::process::exit(3)
}

#[derive(Default, Clone, Debug)]
pub struct Overlay {
    pub spec: String,
    pub ret: String,
    pub where_: String,
    pub generics: String,
    pub params: String,
    pub attrs: String,
    pub loops: BTreeMap<usize, String>,
    pub clos: BTreeMap<usize, String>,
    pub at: BTreeMap<String, String>,
    pub opts: BTreeSet<String>,
    pub rename: Option<String>,
    pub requires_loops: Option<usize>,
    pub used: std::cell::RefCell<BTreeSet<String>>,
}

enum Dir {
    /// these default methods of the trait are overridden nowhere in the crate
    Sole(String, Vec<String>),
    Raw(String),
    Prelude(String),
    Struct(String, Vec<String>),
    Enum(String, Vec<String>),
    Impl { tr: String, ty: String, inherent: bool },
    Trait(String, Vec<String>),
    End,
    Fn(String, Overlay),
}

fn parse_contract(text: &str, path: &str) -> Vec<Dir> {
    let mut out = vec![];
    let mut lines = text.lines().peekable();
    while let Some(line) = lines.next() {
        let l = line.trim();
        if !l.starts_with("%%") {
            if l.is_empty() || l.starts_with("//") {
                continue;
            }
            panic!("{}: text outside directive: {}", path, l);
        }
        let mut body: Vec<String> = vec![];
        while let Some(n) = lines.peek() {
            if n.trim_start().starts_with("%%") {
                break;
            }
            body.push(lines.next().unwrap().to_string());
        }
        let ws: Vec<&str> = l[2..].split_whitespace().collect();
        match ws[0] {
            "raw" => out.push(Dir::Raw(body.join("\n"))),
            "prelude" => {
                for w in &ws[1..] {
                    out.push(Dir::Prelude(w.to_string()))
                }
            }
            "struct" => out.push(Dir::Struct(ws[1].into(), ws[2..].iter().map(|s| s.to_string()).collect())),
            "sole" => out.push(Dir::Sole(ws[1].into(), ws[2..].iter().map(|s| s.to_string()).collect())),
            "enum" => out.push(Dir::Enum(ws[1].into(), ws[2..].iter().map(|s| s.to_string()).collect())),
            "trait" => out.push(Dir::Trait(ws[1].into(), ws[2..].iter().map(|s| s.to_string()).collect())),
            "impl" => {
                let inherent = ws.contains(&"as_inherent");
                if ws.len() >= 4 && ws[2] == "for" {
                    out.push(Dir::Impl { tr: ws[1].into(), ty: ws[3].into(), inherent })
                } else {
                    out.push(Dir::Impl { tr: String::new(), ty: ws[1].into(), inherent: true })
                }
            }
            "end" => out.push(Dir::End),
            "fn" => {
                let mut o = Overlay { ret: "r".into(), ..Default::default() };
                for w in &ws[2..] {
                    if let Some(r) = w.strip_prefix("as=") {
                        o.rename = Some(r.into());
                    } else {
                        o.opts.insert(w.to_string());
                    }
                }
                let mut cur: Option<String> = None;
                let mut buf: Vec<String> = vec![];
                let flush = |cur: &Option<String>, buf: &mut Vec<String>, o: &mut Overlay| {
                    let t = buf.join("\n");
                    buf.clear();
                    let Some(c) = cur else {
                        if !t.trim().is_empty() { o.spec = t; }
                        return;
                    };
                    let cw: Vec<&str> = c.split_whitespace().collect();
                    match cw[0] {
                        "spec" => o.spec = t,
                        "attr" => o.attrs = t,
                        "where" => o.where_ = t,
                        "generics" => o.generics = t,
                        "params" => o.params = t,
                        "ret" => o.ret = cw[1].into(),
                        "loop" => {
                            o.loops.insert(cw[1].parse().unwrap(), t);
                        }
                        "clo" => {
                            o.clos.insert(cw[1].parse().unwrap(), t);
                        }
                        "nloops" => o.requires_loops = Some(cw[1].parse().unwrap()),
                        "at" => {
                            o.at.insert(cw[1..].join(" "), t);
                        }
                        x => panic!("unknown sub-directive @{}", x),
                    }
                };
                for b in body {
                    let t = b.trim_start();
                    if let Some(r) = t.strip_prefix('@') {
                        flush(&cur, &mut buf, &mut o);
                        cur = Some(r.to_string());
                    } else {
                        buf.push(b);
                    }
                }
                flush(&cur, &mut buf, &mut o);
                out.push(Dir::Fn(ws[1].into(), o));
            }
            x => panic!("{}: unknown directive {}", path, x),
        }
    }
    out
}

/// `%%include name` inserts contracts/inc/name.vx
fn include_all(path: &str) -> String {
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let dir = if dir.ends_with("inc") { dir } else { dir.join("inc") };
    let mut out = String::new();
    for l in t.lines() {
        if let Some(n) = l.strip_prefix("%%include ") {
            out += &include_all(dir.join(format!("{}.vx", n.trim())).to_str().unwrap());
        } else {
            out += l;
            out.push('\n');
        }
    }
    out
}

struct Ctx {
    ix: Index,
    /// functions of the unit: (owner, name)
    unit: BTreeSet<(String, String)>,
    /// names bound in the functions as the contracts know them
    names: HashMap<String, Vec<String>>,
    /// number of `return`s and `%` in them
    counts: HashMap<String, (usize, usize, usize)>,
    mods: bool,
    soft: Vec<String>,
    seen_names: BTreeMap<String, Vec<String>>,
    /// the closures of the functions, as the contracts know them and as they are
    clos: HashMap<String, Vec<(String, Vec<String>)>>,
    /// the kinds of the loops, as the contracts know them
    kinds: HashMap<String, Vec<String>>,
    seen_clos: BTreeMap<String, Vec<(String, Vec<String>)>>,
    lits: BTreeSet<String>,
    drops: BTreeSet<String>,
    fns: Vec<(String, String, String, String, bool)>, // name, file, mode, emitted name, guarded
}

fn ts<T: quote::ToTokens>(t: &T) -> String {
    print::tokens(quote::quote!(#t), &Overlay::default())
}

/// Replaces `Self::X` by the associated type of the impl.
struct AssocSubst(HashMap<String, Type>);
impl visit_mut::VisitMut for AssocSubst {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(x) = self.0.get(&p.path.segments[1].ident.to_string()) {
                    *t = x.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

fn emit_generics(g: &Generics, extra: &str) -> String {
    if let Some(r) = extra.trim().strip_prefix('=') {
        return if r.trim().is_empty() { String::new() } else { format!("<{}>", r.trim()) };
    }
    let mut parts: Vec<String> = g.params.iter().map(|p| ts(p)).collect();
    if !extra.trim().is_empty() {
        parts.push(extra.trim().to_string());
    }
    if parts.is_empty() { String::new() } else { format!("<{}>", parts.join(", ")) }
}

fn emit_where(g: &Generics, extra: &str) -> String {
    let mut parts: Vec<String> = vec![];
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            let s = ts(p);
            if s.trim_end().ends_with(':') {
                continue;
            }
            parts.push(s);
        }
    }
    if !extra.trim().is_empty() {
        parts.push(extra.trim().trim_end_matches(',').to_string());
    }
    if parts.is_empty() { String::new() } else { format!("\n    where {}", parts.join(", ")) }
}

fn emit_fn(cx: &mut Ctx, sig: &Signature, block: Option<&Block>, o: &Overlay, file: &str, owner: &str, in_trait: bool, is_pub: bool) -> String {
    let name = sig.ident.to_string();
    let full = if owner.is_empty() { name.clone() } else { format!("{}::{}", owner, name) };
    let (ty, tr) = if in_trait { (String::new(), owner.to_string()) } else { (owner.trim_start_matches('<').split(" as ").next().unwrap().to_string(), String::new()) };
    let (mut nsig, mut nblock) = (sig.clone(), block.cloned().unwrap_or(Block { brace_token: Default::default(), stmts: vec![] }));
    let c0 = normal::counts(&nblock);
    let inits = normal::inits(&nsig, &nblock);
    let mut seen: Vec<String> = normal::binders(&nsig, &nblock).into_iter().map(|n| match inits.get(&n) { Some(h) => format!("{n}~{h}"), None => n }).collect();
    seen.push(format!("#{}", c0.0));
    seen.push(format!("%{}", c0.1));
    seen.push(format!("&{}", c0.2));
    seen.push(format!("@{}", loops::kinds(&nblock).join(",")));
    cx.seen_names.insert(full.clone(), seen);
    let rep = {
        let sc = normal::Scope { ix: &cx.ix, unit: &cx.unit, ty, tr };
        normal::normalise(&mut nsig, &mut nblock, &sc, cx.names.get(&full), cx.counts.get(&full).map(|c| c.0), cx.kinds.get(&full), &cx.clos.get(&full).map_or(vec![], |v| v.iter().map(|c| c.0.clone()).collect::<Vec<String>>()))
    };
    for h in &rep.inlined { cx.drops.insert(format!("{}: the helper {} is inlined at its call", full, h)); }
    if rep.loops { cx.drops.insert(format!("{}: a loop is written in an equivalent form (loop with a leading break as while; a loop returning at the first hit as position or any; a continue as the other branch of its if; a loop that only pushes copies as extend; a counted while, a counter beside an iteration, a while-let over next, an index loop or map-find as the for loop they stand for)", full)); }
    if rep.flow { cx.drops.insert(format!("{}: control flow is written in an equivalent form (a final if as an early return; a vector cleared at the end of a loop body as cleared at its start; a closure that only forwards as the function; any with an equality as contains; then and then_some as if; a bound borrow of a cell as the borrow itself)", full)); }
    if rep.consts { cx.drops.insert(format!("{}: constants are replaced by their values", full)); }
    for (a, b) in &rep.renamed { cx.drops.insert(format!("{}: the name {} is written {}", full, a, b)); }
    let c1 = normal::counts(&nblock);
    let (mut deep, mut mods) = (false, false);
    if let Some((r, m, l)) = cx.counts.get(&full) {
        deep = c1.0 > *r;
        mods = c1.1 > *m;
        if c1.2 > *l && !o.opts.contains("panics") && !o.opts.contains("assume") && !o.opts.contains("declare") {
            cx.soft.push(format!("{}: a loop the contract says nothing about (it knows {}, the function has {})", full, l, c1.2));
        }
    }
    if mods { cx.mods = true; }
    let sig = &nsig;
    let block = block.map(|_| &nblock);
    let assume = o.opts.contains("assume");
    let declare = o.opts.contains("declare");
    let mut lw = lower::Lower::new(o.opts.contains("panics"), o.opts.contains("mutself"));
    for op in &o.opts {
        if op.starts_with("lower:") {
            lw.opts.insert(op[6..].to_string());
        }
    }
    let mut sig = sig.clone();
    lw.sig(&mut sig);
    if declare || (assume && in_trait) {
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(pi) = &mut *t.pat {
                    pi.mutability = None;
                }
            }
        }
    }
    let mut s = String::new();
    if !o.attrs.trim().is_empty() {
        s += &format!("{}\n", o.attrs.trim());
    }
    if assume && !in_trait {
        s += "#[verifier::external_body]\n";
    } else if !declare && !o.opts.contains("nodecreases") && !in_trait {
        s += "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n";
    } else if !declare && in_trait && block.is_some() && !assume {
        s += "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n";
    }
    if o.opts.contains("nodecreases") {
        s += "#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n";
    }
    if is_pub && !in_trait {
        s += "pub ";
    }
    let ins: Vec<String> = sig.inputs.iter().map(|a| ts(a)).collect();
    let ins = if o.params.trim().is_empty() { ins.join(", ") } else { o.params.trim().to_string() };
    let fname = o.rename.clone().unwrap_or(name.clone());
    s += &format!("fn {}{}({})", fname, emit_generics(&sig.generics, &o.generics), ins);
    if let ReturnType::Type(_, t) = &sig.output {
        s += &format!(" -> ({}: {})", o.ret, ts(&**t));
    }
    s += &emit_where(&sig.generics, &o.where_);
    s += "\n";
    s += o.spec.trim_end();
    s += "\n";
    let mode;
    let mut guarded = false;
    if declare || (assume && in_trait) {
        s += ";\n";
        mode = "declared";
    } else if assume {
        s += "{ unimplemented!() }\n";
        mode = "assumed";
    } else {
        let Some(b) = block else { lost(&format!("{} has no body", full)) };
        let mut b = b.clone();
        lw.deep = deep;
        lw.clo_base = cx.clos.get(&full).cloned();
        lw.hints = o.at.keys().cloned().collect();
        lw.body(&mut b);
        if let Some(e) = lw.errors.first() {
            lost(&format!("{}: {}", full, e));
        }
        for k in o.loops.keys() {
            if *k >= lw.nloops {
                lost(&format!("{}: loop {} not found (function has {})", full, k, lw.nloops));
            }
        }
        if let Some(n) = o.requires_loops {
            if n != lw.nloops {
                lost(&format!("{}: expected {} loops, found {}", full, n, lw.nloops));
            }
        }
        for k in o.clos.keys() {
            if !lw.clo_map.contains(&Some(*k)) {
                // the contract of a closure that is gone is not needed; remembered, since a proof may fail for want of it
                cx.soft.push(format!("{}: closure {} not found (function has {})", full, k, lw.nclos));
            }
        }
        if let Some(base) = &lw.clo_base {
            for (w, _) in base {
                if !lw.clo_seen.iter().any(|c| c.0 == *w) {
                    cx.soft.push(format!("{}: the closure {} is not there", full, w));
                }
            }
        }
        cx.seen_clos.insert(full.clone(), lw.clo_seen.clone());
        let mut o2 = o.clone();
        o2.clos = lw.clo_map.iter().enumerate().filter_map(|(i, m)| m.and_then(|k| o.clos.get(&k)).map(|t| (i, t.clone()))).collect();
        for (k, extra) in &lw.auto_inv {
            o2.at.insert(format!("loop {} auto", k), extra.0.clone());
            if !extra.1.is_empty() {
                o2.at.insert(format!("loop {} dec", k), extra.1.clone());
            }
        }
        if !o.opts.contains("panics") && !o.opts.contains("noguard") {
            let t = o2.at.entry("tail".into()).or_default();
            t.push_str(" /*VXGUARD*/");
            guarded = true;
        }
        s += &print::block(&b, &o2);
        mode = "verified";
    }
    cx.lits.extend(lw.lits);
    cx.drops.extend(lw.drops);
    cx.soft.extend(lw.soft.iter().map(|x| format!("{}: {}", full, x)));
    cx.fns.push((full, file.to_string(), mode.to_string(), fname, guarded));
    s
}

fn find_impl_fn<'a>(impls: &'a [(ItemImpl, String)], name: &str) -> Option<(&'a ItemImpl, &'a ImplItemFn, &'a str)> {
    for (i, f) in impls {
        for it in &i.items {
            if let ImplItem::Fn(g) = it {
                if g.sig.ident == name {
                    return Some((i, g, f));
                }
            }
        }
    }
    None
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let repo = get("--repo").unwrap();
    let unit = get("--unit").unwrap();
    let prelude = get("--prelude").unwrap();
    let out = get("--out").unwrap();
    let mut files = vec![];
    walk(std::path::Path::new(&repo).join("src").as_path(), &mut files);
    let mut ix = Index::default();
    for f in &files {
        let t = std::fs::read_to_string(f).unwrap();
        let rel = f.strip_prefix(&repo).unwrap().to_string_lossy().to_string();
        match syn::parse_file(&t) {
            Ok(x) => index_items(&mut ix, x.items, &rel),
            Err(e) => lost(&format!("{} does not parse: {}", rel, e)),
        }
    }
    let text = include_all(&unit);
    let dirs = parse_contract(&text, &unit);
    let mut unit_fns = BTreeSet::new();
    {
        let mut owner = String::new();
        for d in &dirs {
            match d {
                Dir::Impl { ty, .. } => owner = ty.clone(),
                Dir::Trait(t, _) => owner = t.clone(),
                Dir::End => owner.clear(),
                Dir::Fn(n, _) => {
                    unit_fns.insert((owner.clone(), n.clone()));
                }
                _ => {}
            }
        }
    }
    let names: HashMap<String, Vec<String>> = get("--names")
        .or(Some(format!("{}/../names.txt", prelude)))
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|t| t.lines().filter_map(|l| l.split_once('\t').map(|(a, b)| (a.to_string(), b.split(' ').map(|x| x.to_string()).collect()))).collect())
        .unwrap_or_default();
    let mut names = names;
    let mut clos: HashMap<String, Vec<(String, Vec<String>)>> = HashMap::new();
    names.retain(|k, v| match k.strip_prefix("closures of ") {
        Some(f) => {
            clos.insert(f.to_string(), v.iter().filter_map(|x| x.split_once(':')).map(|(w, p)| (w.to_string(), p.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect())).collect());
            false
        }
        None => true,
    });
    let mut counts = HashMap::new();
    let mut kinds = HashMap::new();
    for (k, v) in names.iter_mut() {
        let get = |c: char| v.iter().find_map(|x| x.strip_prefix(c)).and_then(|x| x.parse().ok()).unwrap_or(0usize);
        counts.insert(k.clone(), (get('#'), get('%'), get('&')));
        kinds.insert(k.clone(), v.iter().find_map(|x| x.strip_prefix('@')).map(|x| x.split(',').filter(|y| !y.is_empty()).map(|y| y.to_string()).collect::<Vec<_>>()).unwrap_or_default());
        v.retain(|x| !x.starts_with(['#', '%', '&', '@']));
    }
    let mut cx = Ctx { ix, unit: unit_fns, names, counts, mods: false, soft: vec![], seen_names: Default::default(), kinds, clos, seen_clos: Default::default(), lits: Default::default(), drops: Default::default(), fns: vec![] };
    let mut body = String::new();
    let mut preludes: Vec<String> = vec![];
    enum Scope {
        None,
        Impl { tr: String, ty: String, inherent: bool, opened: bool },
        Trait(String),
    }
    let mut sc = Scope::None;
    for d in dirs {
        match d {
            Dir::Prelude(p) => preludes.push(p),
            Dir::Raw(t) => {
                body += &t;
                body += "\n";
            }
            Dir::Sole(t, names) => {
                for ((tr, ty), impls) in &cx.ix.impls {
                    if *tr == t {
                        for n in &names {
                            if find_impl_fn(impls, n).is_some() {
                                lost(&format!("{} overrides {}::{}, which is not under contract here", ty, t, n));
                            }
                        }
                    }
                }
            }
            Dir::Struct(n, opts) => {
                let Some((s, _)) = cx.ix.structs.get(&n) else { lost(&format!("struct {}", n)) };
                let mut s = s.clone();
                let mut lw = lower::Lower::new(false, false);
                let mut o = String::new();
                for op in &opts {
                    if let Some(a) = op.strip_prefix("attr=") {
                        o += &format!("#[{}]\n", a);
                    }
                }
                for f in s.fields.iter_mut() {
                    lw.ty(&mut f.ty);
                }
                lw.generics(&mut s.generics);
                o += &format!("pub struct {}{} {} {{\n", n, emit_generics(&s.generics, ""), emit_where(&s.generics, ""));
                for f in &s.fields {
                    let fname = f.ident.as_ref().unwrap().to_string();
                    if opts.iter().any(|x| x == &format!("drop={}", fname)) {
                        continue;
                    }
                    o += &format!("    pub {}: {},\n", fname, ts(&f.ty));
                }
                o += "}\n";
                body += &o;
            }
            Dir::Enum(n, opts) => {
                let Some((s, _)) = cx.ix.enums.get(&n) else { lost(&format!("enum {}", n)) };
                let mut lw = lower::Lower::new(false, false);
                let mut o = String::new();
                for op in &opts {
                    if let Some(a) = op.strip_prefix("attr=") {
                        o += &format!("#[{}]\n", a);
                    }
                }
                o += &format!("pub enum {}{} {{\n", n, emit_generics(&s.generics, ""));
                for v in &s.variants {
                    let mut v = v.clone();
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        lw.ty(&mut f.ty);
                        f.attrs.clear();
                    }
                    o += &format!("    {},\n", ts(&v));
                }
                o += "}\n";
                body += &o;
            }
            Dir::Trait(n, opts) => {
                let Some((s, _)) = cx.ix.traits.get(&n) else { lost(&format!("trait {}", n)) };
                let mut s = s.clone();
                let mut lw = lower::Lower::new(false, false);
                lw.generics(&mut s.generics);
                let mut sup: Vec<String> = s.supertraits.iter().map(|b| ts(b)).filter(|b| b != "Send" && b != "Sync").collect();
                for op in &opts {
                    if let Some(a) = op.strip_prefix("super=") {
                        sup.push(a.into());
                    }
                }
                body += &format!(
                    "pub trait {}{}{}{} {{\n",
                    n,
                    emit_generics(&s.generics, ""),
                    if sup.is_empty() { String::new() } else { format!(": {}", sup.join(" + ")) },
                    emit_where(&s.generics, "")
                );
                for it in &mut s.items {
                    if let TraitItem::Type(t) = it {
                        t.attrs.clear();
                        let mut bounds: Vec<String> = t.bounds.iter().map(|b| ts(b)).filter(|b| b != "Send" && b != "Sync").collect();
                        bounds.dedup();
                        body += &format!("    type {}: {};\n", t.ident, bounds.join(" + "));
                    }
                }
                sc = Scope::Trait(n);
            }
            Dir::Impl { tr, ty, inherent } => {
                sc = Scope::Impl { tr, ty, inherent, opened: false };
            }
            Dir::End => {
                match &sc {
                    Scope::Impl { opened: false, .. } => {}
                    _ => body += "}\n",
                }
                sc = Scope::None;
            }
            Dir::Fn(n, o) => match &mut sc {
                Scope::None => {
                    let Some((f, file)) = cx.ix.fns.get(&n).cloned() else { lost(&format!("fn {}", n)) };
                    body += &emit_fn(&mut cx, &f.sig, Some(&f.block), &o, &file, "", false, true);
                }
                Scope::Trait(t) => {
                    let t = t.clone();
                    let (s, file) = cx.ix.traits.get(&t).cloned().unwrap();
                    let Some(f) = s.items.iter().find_map(|i| match i {
                        TraitItem::Fn(f) if f.sig.ident == n => Some(f.clone()),
                        _ => None,
                    }) else {
                        lost(&format!("fn {}::{}", t, n))
                    };
                    body += &emit_fn(&mut cx, &f.sig, f.default.as_ref(), &o, &file, &t, true, false);
                }
                Scope::Impl { tr, ty, inherent, opened } => {
                    let key = (tr.clone(), ty.clone());
                    let Some(impls) = cx.ix.impls.get(&key).cloned() else { lost(&format!("impl {} for {}", tr, ty)) };
                    let Some((im, f, file)) = find_impl_fn(&impls, &n) else { lost(&format!("fn {}::{}", ty, n)) };
                    if !*opened {
                        let mut im2 = im.clone();
                        let mut lw = lower::Lower::new(false, false);
                        lw.generics(&mut im2.generics);
                        lw.ty(&mut im2.self_ty);
                        let head = if *inherent || tr.is_empty() {
                            String::new()
                        } else {
                            let (_, p, _) = im2.trait_.as_mut().unwrap();
                            lw.path(p);
                            format!("{} for ", ts(p))
                        };
                        body += &format!("impl{} {}{}{} {{\n", emit_generics(&im2.generics, ""), head, ts(&*im2.self_ty), emit_where(&im2.generics, ""));
                        if !head.is_empty() {
                            for it in &im2.items {
                                if let ImplItem::Type(t) = it {
                                    let mut t = t.clone();
                                    t.attrs.clear();
                                    lw.ty(&mut t.ty);
                                    body += &format!("    {}\n", ts(&t));
                                }
                            }
                        }
                        *opened = true;
                    }
                    let in_trait_impl = !(*inherent || tr.is_empty());
                    let owner = if tr.is_empty() { ty.clone() } else { format!("<{} as {}>", ty, tr) };
                    let (mut sig, mut block, file) = (f.sig.clone(), f.block.clone(), file.to_string());
                    if !in_trait_impl && !tr.is_empty() {
                        let mut m: HashMap<String, Type> = im.items.iter().filter_map(|i| match i { ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())), _ => None }).collect();
                        if tr == "DerefMut" {
                            // Target is declared in the Deref impl
                            for (d, _) in cx.ix.impls.get(&("Deref".to_string(), ty.clone())).into_iter().flatten() {
                                m.extend(d.items.iter().filter_map(|i| match i { ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())), _ => None }));
                            }
                        }
                        let mut v = AssocSubst(m);
                        visit_mut::VisitMut::visit_signature_mut(&mut v, &mut sig);
                        visit_mut::VisitMut::visit_block_mut(&mut v, &mut block);
                    }
                    body += &emit_fn(&mut cx, &sig, Some(&block), &o, &file, &owner, false, !in_trait_impl);
                }
            },
        }
    }
    let mut o = String::new();
    o += "// GENERATED by /verif/vx from /repo/src on every run; do not edit.\n";
    o += "#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_assignments, non_snake_case, unused_parens, unused_braces, unreachable_code)]\n";
    o += "use vstd::prelude::*;\n";
    o += &std::fs::read_to_string(format!("{}/uses.rs", prelude)).unwrap();
    o += "verus! {\n";
    for p in &preludes {
        o += &format!("// ---- prelude {}\n", p);
        o += &std::fs::read_to_string(format!("{}/{}.rs", prelude, p)).unwrap();
    }
    // Verus allows one module-level broadcast use: collect them
    let mut bc: Vec<String> = vec![];
    for l in o.lines().chain(body.lines()) {
        if let Some(r) = l.trim().strip_prefix("//%broadcast ") {
            if !bc.contains(&r.trim().to_string()) { bc.push(r.trim().to_string()) }
        }
    }
    if cx.mods {
        o += "pub mod vx_mod { use vstd::prelude::*; pub broadcast proof fn vx_mod_cyclic(a: int, n: int) requires 0 <= a <= n, n > 0 ensures #[trigger] (a % n) == (if a < n { a } else { 0int }) { if a < n { vstd::arithmetic::div_mod::lemma_small_mod(a as nat, n as nat) } else { vstd::arithmetic::div_mod::lemma_mod_self_0(n) } } }\n";
        bc.push("vx_mod::vx_mod_cyclic".into());
    }
    if !bc.is_empty() {
        o += &format!("broadcast use {{{}}};\n", bc.join(", "));
    }
    o += "// ---- literals\n";
    for l in &cx.lits {
        o += &lower::lit_fn(l);
    }
    o += "// ---- unit\n";
    o += &body;
    o += "\nfn vx_vacuity_guard() { assert(false); }\n";
    o += "} // verus!\nfn main() {}\n";
    if let Some(g) = get("--guards") {
        std::fs::write(&g, o.replace("/*VXGUARD*/", "proof { assert(false); }")).unwrap();
    }
    std::fs::write(&out, o.replace("/*VXGUARD*/", "")).unwrap();
    // map
    let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"");
    let mut m = String::from("{\"functions\":[");
    m += &cx.fns.iter().map(|(n, f, mo, e, g)| format!("{{\"name\":\"{}\",\"file\":\"{}\",\"mode\":\"{}\",\"emitted\":\"{}\",\"guarded\":{}}}", esc(n), esc(f), mo, esc(e), g)).collect::<Vec<_>>().join(",");
    m += "],\"drops\":[";
    m += &cx.drops.iter().map(|d| format!("\"{}\"", esc(d))).collect::<Vec<_>>().join(",");
    m += "],\"soft\":[";
    m += &cx.soft.iter().map(|d| format!("\"{}\"", esc(d))).collect::<Vec<_>>().join(",");
    m += "]}";
    if let Some(p) = get("--dump-names") {
        let t: String = cx.seen_names.iter().map(|(k, v)| format!("{}\t{}\n", k, v.join(" "))).collect();
        let t = t + &cx.seen_clos.iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| format!("closures of {}\t{}\n", k, v.iter().map(|(w, p)| format!("{}:{}", w, p.join(","))).collect::<Vec<_>>().join(" "))).collect::<String>();
        std::fs::write(p, t).unwrap();
    }
    std::fs::write(format!("{}.json", out), m).unwrap();
}
