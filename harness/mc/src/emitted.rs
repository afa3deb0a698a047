//! Reads the type definitions out of emitted code.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::HashMap;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Def {
    Unit,
    Tuple(Vec<String>),
    Rec(Vec<(String, String)>),
    Enum(Vec<(String, String)>),
    Alias(String),
}

/// The definitions; and what each one holds without a box in between.
pub struct Types(pub HashMap<String, Def>, HashMap<String, Vec<String>>);

/// Every identifier outside of `Box<...>`.
fn direct(s: TokenStream, out: &mut Vec<String>) {
    let mut depth = 0;
    let mut boxed = false;
    for t in s {
        match t {
            TokenTree::Ident(i) if i == "Box" => boxed = true,
            TokenTree::Punct(p) if p.as_char() == '<' && (boxed || depth > 0) => {
                depth += 1;
                boxed = false;
            }
            TokenTree::Punct(p) if p.as_char() == '>' && depth > 0 => depth -= 1,
            _ if depth > 0 => {}
            TokenTree::Ident(i) => out.push(i.to_string()),
            TokenTree::Group(g) => direct(g.stream(), out),
            _ => {}
        }
    }
}

/// The type a list of tokens names: boxes are looked through.
fn ty(t: &[TokenTree]) -> Option<String> {
    let ids: Vec<String> = t
        .iter()
        .filter_map(|t| match t {
            TokenTree::Ident(i) => Some(i.to_string()),
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => ty(&g.stream().into_iter().collect::<Vec<_>>()),
            _ => None,
        })
        .filter(|s| !["pub", "Box", "std", "boxed", "alloc", "chewed", "self", "crate"].contains(&s.as_str()))
        .collect();
    if ids.len() == 1 {
        ids.into_iter().next()
    } else {
        None
    }
}

/// The parts between commas, without attributes.
fn split(s: TokenStream) -> Vec<Vec<TokenTree>> {
    let mut out = vec![vec![]];
    let mut attribute = false;
    for t in s {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ',' => out.push(vec![]),
            TokenTree::Punct(p) if p.as_char() == '#' => attribute = true,
            TokenTree::Group(g) if attribute && g.delimiter() == Delimiter::Bracket => attribute = false,
            _ => out.last_mut().unwrap().push(t),
        }
    }
    if out.last().unwrap().is_empty() {
        out.pop();
    }
    out
}

fn fields(s: TokenStream) -> Option<Vec<(String, String)>> {
    split(s)
        .into_iter()
        .map(|f| {
            let c = f.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ':'))?;
            match &f[c.checked_sub(1)?] {
                TokenTree::Ident(i) => Some((i.to_string(), ty(&f[c + 1..])?)),
                _ => None,
            }
        })
        .collect()
}

pub fn read(code: &str) -> Result<Types, String> {
    let ts: Vec<TokenTree> = code.parse::<TokenStream>().map_err(|e| e.to_string())?.into_iter().collect();
    let mut m = HashMap::new();
    let mut held = HashMap::new();
    let id = |k: usize| match ts.get(k) {
        Some(TokenTree::Ident(i)) => i.to_string(),
        _ => String::new(),
    };
    for k in 0..ts.len() {
        let what = id(k);
        let name = id(k + 1);
        let def = match (what.as_str(), ts.get(k + 2)) {
            ("struct", Some(TokenTree::Punct(p))) if p.as_char() == ';' => Some(Def::Unit),
            ("struct", Some(TokenTree::Group(g))) if g.delimiter() == Delimiter::Parenthesis => split(g.stream()).iter().map(|t| ty(t)).collect::<Option<_>>().map(Def::Tuple),
            ("struct", Some(TokenTree::Group(g))) if g.delimiter() == Delimiter::Brace => fields(g.stream()).map(Def::Rec),
            ("enum", Some(TokenTree::Group(g))) => split(g.stream())
                .into_iter()
                .map(|v| match v.len() {
                    2 => match (&v[0], &v[1]) {
                        (TokenTree::Ident(i), TokenTree::Group(g)) => Some((i.to_string(), ty(&g.stream().into_iter().collect::<Vec<_>>())?)),
                        _ => None,
                    },
                    _ => None,
                })
                .collect::<Option<_>>()
                .map(Def::Enum),
            ("type", Some(TokenTree::Punct(p))) if p.as_char() == '=' => {
                let e = ts[k..].iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ';')).ok_or("no ; after a type")?;
                ty(&ts[k + 3..k + e]).map(Def::Alias)
            }
            ("struct", _) | ("enum", _) => None,
            _ => continue,
        };
        let mut d = Vec::new();
        match ts.get(k + 2) {
            Some(TokenTree::Group(g)) => direct(g.stream(), &mut d),
            _ => direct(ts[k + 2..].iter().take_while(|t| !matches!(t, TokenTree::Punct(p) if p.as_char() == ';')).cloned().collect(), &mut d),
        }
        held.insert(name.clone(), d);
        let def = def.ok_or_else(|| format!("cannot read the definition of {}", name))?;
        if m.insert(name.clone(), def).is_some() {
            return Err(format!("type {} is defined twice", name));
        }
    }
    Ok(Types(m, held))
}

impl Types {
    /// Follows aliases.
    pub fn resolve(&self, n: &str) -> String {
        let mut n = n.to_string();
        for _ in 0..1000 {
            match self.0.get(&n) {
                Some(Def::Alias(m)) => n = m.clone(),
                _ => break,
            }
        }
        n
    }

    /// May a value have to hold one of its own type without a box? (Fields and variants that are
    /// called like a type may be taken for one.)
    pub fn endless(&self) -> bool {
        // 0: not seen, 1: on the way, 2: done
        fn go<'a>(t: &'a Types, n: &'a str, state: &mut HashMap<&'a str, u8>) -> bool {
            match state.get(n) {
                Some(1) => return true,
                Some(_) => return false,
                None => {}
            }
            let Some((n, d)) = t.1.get_key_value(n) else { return false };
            state.insert(n, 1);
            let r = d.iter().any(|m| go(t, m, state));
            state.insert(n, 2);
            r
        }
        let mut state = HashMap::new();
        self.1.keys().any(|n| go(self, n, &mut state))
    }
}
