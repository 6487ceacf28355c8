use crate::Overlay;
use proc_macro2::{Delimiter, Group, Spacing, TokenStream, TokenTree};
use syn::Block;

/// Prints a block; the marker macros vx_loop!(k), vx_clo!(k), vx_hint!(...) are replaced by overlay text.
pub fn block(b: &Block, o: &Overlay) -> String {
    let t = quote::quote!(#b);
    let mut s = String::new();
    stream(t, o, &mut s, 0);
    s.push('\n');
    s
}

pub fn tokens(t: TokenStream, o: &Overlay) -> String {
    let mut s = String::new();
    stream(t, o, &mut s, 0);
    s.trim().to_string()
}

fn nl(s: &mut String, ind: usize) {
    while s.ends_with(' ') {
        s.pop();
    }
    s.push('\n');
    for _ in 0..ind {
        s.push_str("    ");
    }
}

/// If the stream starts with NAME ! ( ARGS ) ; returns (ARGS text, rest)
fn marker(ts: &[TokenTree], name: &str) -> Option<String> {
    match (ts.get(0), ts.get(1), ts.get(2)) {
        (Some(TokenTree::Ident(i)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g)))
            if i == name && p.as_char() == '!' =>
        {
            Some(g.stream().to_string())
        }
        _ => None,
    }
}

fn brace(g: &Group, o: &Overlay, s: &mut String, ind: usize) {
    let ts: Vec<TokenTree> = g.stream().into_iter().collect();
    let mut rest = &ts[..];
    let mut end_hint = String::new();
    let mut start_hint = String::new();
    if let Some(k) = marker(rest, "vx_loop") {
        let k: usize = k.trim().parse().unwrap();
        rest = &rest[4..];
        let mut spec = o.loops.get(&k).cloned().unwrap_or_default();
        if let Some(auto) = o.at.get(&format!("loop {} auto", k)) {
            // auto invariants first
            if spec.trim_start().starts_with("invariant") {
                let body = spec.trim_start();
                let cut = if body.starts_with("invariant_except_break") { None } else { Some("invariant".len()) };
                spec = match cut {
                    Some(c) => format!("invariant {}\n{}", auto, &body[c..]),
                    None => format!("invariant {}\n{}", auto, body),
                };
            } else {
                spec = format!("invariant {}\n{}", auto, spec);
            }
        }
        if !spec.contains("decreases") {
            if let Some(d) = o.at.get(&format!("loop {} dec", k)) {
                let mut sp = spec.trim_end().to_string();
                if sp.ends_with("invariant") {
                    sp.truncate(sp.len() - "invariant".len());
                    sp = sp.trim_end().to_string();
                }
                spec = format!("{}{}\n decreases {}", sp, if sp.ends_with(',') || sp.is_empty() { "" } else { "," }, d);
            }
        }
        s.push('\n');
        s.push_str(&spec);
        nl(s, ind);
        start_hint = o.at.get(&format!("loop {} start", k)).cloned().unwrap_or_default();
        end_hint = o.at.get(&format!("loop {} end", k)).cloned().unwrap_or_default();
    } else if let Some(k) = marker(rest, "vx_clo") {
        let k: usize = k.trim().parse().unwrap();
        rest = &rest[4..];
        if let Some(c) = o.clos.get(&k) {
            s.push(' ');
            s.push_str(c.trim());
            s.push(' ');
        }
    }
    s.push('{');
    if !rest.is_empty() || !start_hint.is_empty() || !end_hint.is_empty() {
        nl(s, ind + 1);
        if !start_hint.trim().is_empty() {
            s.push_str(&start_hint);
            nl(s, ind + 1);
        }
        stream_slice(rest, o, s, ind + 1);
        if !end_hint.trim().is_empty() {
            nl(s, ind + 1);
            s.push_str(&end_hint);
        }
        nl(s, ind);
    }
    s.push('}');
}

fn stream(t: TokenStream, o: &Overlay, s: &mut String, ind: usize) {
    let v: Vec<TokenTree> = t.into_iter().collect();
    stream_slice(&v, o, s, ind);
}

fn stream_slice(v: &[TokenTree], o: &Overlay, s: &mut String, ind: usize) {
    let mut i = 0;
    while i < v.len() {
        if let Some(k) = marker(&v[i..], "vx_hint") {
            let key = k.trim().trim_matches('"').to_string();
            if let Some(t) = o.at.get(&key) {
                s.push_str(t);
                nl(s, ind);
            }
            i += 3;
            if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') {
                i += 1;
            }
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    brace(g, o, s, ind);
                    // newline after a block unless followed by else / . / , / ; / ) / ?
                    let cont = match v.get(i + 1) {
                        Some(TokenTree::Ident(id)) => id == "else",
                        Some(TokenTree::Punct(_)) => true,
                        None => true,
                        _ => false,
                    };
                    if cont { s.push(' ') } else { nl(s, ind) }
                }
                Delimiter::Parenthesis => {
                    s.push('(');
                    stream(g.stream(), o, s, ind);
                    while s.ends_with(' ') { s.pop(); }
                    s.push(')');
                    s.push(' ');
                }
                Delimiter::Bracket => {
                    s.push('[');
                    stream(g.stream(), o, s, ind);
                    while s.ends_with(' ') { s.pop(); }
                    s.push(']');
                    s.push(' ');
                }
                Delimiter::None => stream(g.stream(), o, s, ind),
            },
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if matches!(c, ',' | ';' | '.' | '?' | ':') && s.ends_with(' ') && !s.ends_with("  ") {
                    // tighten
                    let keep = c == ':' || c == '.';
                    if !keep || c == '.' || c == ':' {
                        let t = s.trim_end_matches(' ').len();
                        // keep `.. ` ranges after keywords like `..` safe: only tighten when the previous char is not an operator
                        let prev = s[..t].chars().last().unwrap_or(' ');
                        if prev.is_alphanumeric() || matches!(prev, '_' | ')' | ']' | '}' | '>' | '"') {
                            s.truncate(t);
                        }
                    }
                }
                s.push(c);
                if c == ';' {
                    if i + 1 < v.len() { nl(s, ind); }
                } else if c == ',' && ind > 0 && false {
                    nl(s, ind);
                } else if p.spacing() == Spacing::Alone {
                    let tight = c == '.' || (c == '\'' ) || (c == '&' && false);
                    if !tight { s.push(' '); }
                    if c == '.' {
                        // range `a .. b` has joint dots; a lone dot is a field/method access
                    }
                }
            }
            TokenTree::Ident(id) => {
                s.push_str(&id.to_string());
                s.push(' ');
            }
            TokenTree::Literal(l) => {
                s.push_str(&l.to_string());
                s.push(' ');
            }
        }
        i += 1;
    }
}
