//! Attribute macros of pyo3 without effect: they keep the item, drop pyo3's helper attributes, and write down what those
//! said, so that it can be read from the compiled program: `__pysig__<type>__<name>` holds the default values of a
//! signature, `__pyattrs__<kind>__<type>` the helper attributes and the names they stand at.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

const HELPERS: &[&str] = &["new", "pyo3", "getter", "setter", "staticmethod", "classmethod", "classattr", "args", "pyfn"];

#[derive(Default)]
struct Seen {
    pending: Vec<(String, TokenStream)>,
    attrs: Vec<(String, String, String)>,
    sigs: Vec<(String, TokenStream)>,
}

impl Seen {
    fn at(&mut self, name: &str) {
        for (h, a) in self.pending.drain(..) {
            if let Some(s) = signature(a.clone()) {
                self.sigs.push((name.to_string(), s));
            } else {
                self.attrs.push((name.to_string(), h, a.to_string()));
            }
        }
    }
}

/// an attribute (the group after `#`): its name and its arguments
fn attr(g: &Group) -> (String, TokenStream) {
    let mut name = String::new();
    for t in g.stream() {
        match t {
            TokenTree::Ident(i) => name = i.to_string(),
            TokenTree::Punct(p) if p.as_char() == ':' => {},
            TokenTree::Group(h) => return (name, h.stream()),
            _ => break,
        }
    }
    (name, TokenStream::new())
}

/// drops pyo3's helper attributes and notes them
fn clean(ts: TokenStream, seen: &mut Seen) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
            if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket {
                let (n, a) = attr(g);
                if HELPERS.contains(&n.as_str()) {
                    seen.pending.push((n, a));
                    i += 2;
                    continue;
                }
            }
        }
        match &v[i] {
            TokenTree::Ident(id) => {
                let s = id.to_string();
                if s == "fn" || s == "struct" || s == "enum" || s == "const" {
                    if let Some(TokenTree::Ident(name)) = v.get(i + 1) {
                        seen.at(&name.to_string());
                    }
                } else if v.get(i + 1).map(|t| t.to_string()) == Some(":".to_string()) {
                    seen.at(&s);
                }
                out.push(v[i].clone());
            },
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace || g.delimiter() == Delimiter::Parenthesis => {
                let mut h = Group::new(g.delimiter(), clean(g.stream(), seen));
                h.set_span(g.span());
                out.push(TokenTree::Group(h));
            },
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

/// the list behind `signature =`
fn signature(args: TokenStream) -> Option<TokenStream> {
    let v: Vec<TokenTree> = args.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        if let TokenTree::Ident(id) = t {
            if id.to_string() == "signature" {
                if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                    return Some(g.stream());
                }
            }
        }
    }
    None
}

fn split(ts: TokenStream) -> Vec<Vec<TokenTree>> {
    let mut r = vec![vec![]];
    let mut depth = 0;
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            match p.as_char() {
                '<' => depth += 1,
                '>' => depth -= 1,
                ',' if depth <= 0 => {
                    r.push(vec![]);
                    continue;
                },
                _ => {},
            }
        }
        r.last_mut().unwrap().push(t);
    }
    r.retain(|x| !x.is_empty());
    r
}

/// the types of the parameters of a function in a list of tokens
fn params(ts: TokenStream, name: &str) -> Option<Vec<(String, String)>> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Ident(id) if id.to_string() == "fn" => {
                if v.get(i + 1).map(|x| x.to_string()) == Some(name.to_string()) {
                    for u in &v[i + 2..] {
                        if let TokenTree::Group(g) = u {
                            if g.delimiter() == Delimiter::Parenthesis {
                                let mut r = vec![];
                                for p in split(g.stream()) {
                                    let c = p.iter().position(|t| t.to_string() == ":");
                                    if let Some(c) = c {
                                        let n = p[..c].last().unwrap().to_string();
                                        let ty: TokenStream = p[c + 1..].iter().cloned().collect();
                                        r.push((n, ty.to_string()));
                                    }
                                }
                                return Some(r);
                            }
                        }
                    }
                }
            },
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                if let Some(r) = params(g.stream(), name) {
                    return Some(r);
                }
            },
            _ => {},
        }
    }
    None
}

/// the name of the type or function an item is about
fn subject(ts: TokenStream) -> String {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        if let TokenTree::Ident(id) = t {
            if ["impl", "struct", "enum", "fn"].contains(&id.to_string().as_str()) {
                for u in &v[i + 1..] {
                    if let TokenTree::Ident(n) = u {
                        return n.to_string();
                    }
                }
            }
        }
    }
    "x".to_string()
}

fn keep(kind: &str, item: TokenStream, args: TokenStream) -> TokenStream {
    let mut seen = Seen::default();
    let of = subject(item.clone());
    seen.pending.push((kind.to_string(), args));
    if kind == "pymethods" {
        seen.at(&of);
    }
    let out = clean(item, &mut seen);
    let mut extra = String::new();
    for (name, sig) in &seen.sigs {
        let ps = params(out.clone(), name).unwrap_or_default();
        let mut body = String::from("()");
        for p in split(sig.clone()).iter().rev() {
            let n = p[0].to_string();
            let ty = match ps.iter().find(|(m, _)| *m == n) {
                Some((_, t)) => t,
                None => continue,
            };
            let e: TokenStream = p.iter().skip(2).cloned().collect();
            let d = if p.len() > 2 {
                format!("::core::option::Option::Some::<{ty}>({e})")
            } else {
                "::core::option::Option::None::<()>".to_string()
            };
            body = format!("(\"{n}\", {d}, {body})");
        }
        extra.push_str(&format!(
            "#[allow(unused, non_snake_case, clippy::all)] pub fn __pysig__{of}__{name}() {{ ::pyo3::__defaults({body}) }}\n"
        ));
    }
    let mut body = String::from("()");
    for (name, h, a) in seen.attrs.iter().rev() {
        body = format!("({name:?}, {h:?}, {a:?}, {body})");
    }
    extra.push_str(&format!(
        "#[allow(unused, non_snake_case, clippy::all)] pub fn __pyattrs__{kind}__{of}() {{ ::pyo3::__defaults({body}) }}\n"
    ));
    let mut r = out;
    r.extend(extra.parse::<TokenStream>().unwrap());
    r
}

#[proc_macro_attribute]
pub fn pyclass(args: TokenStream, item: TokenStream) -> TokenStream {
    keep("pyclass", item, args)
}
#[proc_macro_attribute]
pub fn pymethods(args: TokenStream, item: TokenStream) -> TokenStream {
    keep("pymethods", item, args)
}
#[proc_macro_attribute]
pub fn pyfunction(args: TokenStream, item: TokenStream) -> TokenStream {
    keep("pyfunction", item, args)
}
#[proc_macro_attribute]
pub fn pymodule(args: TokenStream, item: TokenStream) -> TokenStream {
    keep("pymodule", item, args)
}
