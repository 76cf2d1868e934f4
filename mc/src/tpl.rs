//! RFC 6570 section 3 over materialised values.
use crate::rfc::{encode, triplet, Enc};
use serde_json::Value as J;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Undef,
    Str(String),
    List(Vec<String>),
    Assoc(Vec<(String, String)>),
}
pub type Env = Vec<(String, Val)>;

pub fn s(v: &str) -> Val {
    Val::Str(v.into())
}
pub fn l(v: &[&str]) -> Val {
    Val::List(v.iter().map(|x| x.to_string()).collect())
}
pub fn m(v: &[(&str, &str)]) -> Val {
    Val::Assoc(v.iter().map(|(k, x)| (k.to_string(), x.to_string())).collect())
}
pub fn env(v: &[(&str, Val)]) -> Env {
    v.iter().map(|(n, x)| (n.to_string(), x.clone())).collect()
}

pub fn look<'a>(env: &'a Env, name: &str) -> &'a Val {
    env.iter().find(|(n, _)| n == name).map_or(&Val::Undef, |x| &x.1)
}

/// Environment to and from JSON, for replays. Lists are arrays, associative arrays `{"": [[k, v]…]}`.
pub fn to_json(env: &Env) -> String {
    J::Array(
        env.iter()
            .map(|(n, v)| {
                let v = match v {
                    Val::Undef => J::Null,
                    Val::Str(s) => s.clone().into(),
                    Val::List(l) => l.clone().into(),
                    Val::Assoc(m) => serde_json::json!({ "": m }),
                };
                serde_json::json!([n, v])
            })
            .collect(),
    )
    .to_string()
}
pub fn from_json(t: &str) -> Env {
    let st = |v: &J| v.as_str().unwrap().to_string();
    let v: J = serde_json::from_str(t).unwrap();
    v.as_array()
        .unwrap()
        .iter()
        .map(|e| {
            let x = match &e[1] {
                J::Null => Val::Undef,
                J::String(s) => Val::Str(s.clone()),
                J::Array(a) => Val::List(a.iter().map(st).collect()),
                o => Val::Assoc(o[""].as_array().unwrap().iter().map(|p| (st(&p[0]), st(&p[1]))).collect()),
            };
            (st(&e[0]), x)
        })
        .collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mod {
    None,
    Prefix(usize),
    Explode,
}
#[derive(Debug, PartialEq)]
pub enum Part<'a> {
    Lit(&'a str),
    Expr(Option<char>, Vec<(&'a str, Mod)>),
}

/// Splits a valid template.
pub fn parse(t: &str) -> Vec<Part<'_>> {
    let mut out = Vec::new();
    let mut rest = t;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix('{') {
            let end = r.find('}').expect("valid template");
            let mut body = &r[..end];
            rest = &r[end + 1..];
            let op = body.chars().next().filter(|c| "+#./;?&".contains(*c));
            if op.is_some() {
                body = &body[1..];
            }
            let vars = body
                .split(',')
                .map(|v| {
                    if let Some(n) = v.strip_suffix('*') {
                        (n, Mod::Explode)
                    } else if let Some((n, k)) = v.split_once(':') {
                        (n, Mod::Prefix(k.parse().expect("valid template")))
                    } else {
                        (v, Mod::None)
                    }
                })
                .collect();
            out.push(Part::Expr(op, vars));
        } else {
            let end = rest.find('{').unwrap_or(rest.len());
            out.push(Part::Lit(&rest[..end]));
            rest = &rest[end..];
        }
    }
    out
}

pub fn variables(t: &str) -> Vec<&str> {
    parse(t)
        .into_iter()
        .flat_map(|p| match p {
            Part::Lit(_) => Vec::new(),
            Part::Expr(_, v) => v.into_iter().map(|x| x.0).collect(),
        })
        .collect()
}

/// The table in RFC 6570 Appendix A: first, sep, named, ifemp, allow reserved.
fn table(op: Option<char>) -> (&'static str, &'static str, bool, &'static str, bool) {
    match op {
        None => ("", ",", false, "", false),
        Some('+') => ("", ",", false, "", true),
        Some('.') => (".", ".", false, "", false),
        Some('/') => ("/", "/", false, "", false),
        Some(';') => (";", ";", true, "", false),
        Some('?') => ("?", "&", true, "=", false),
        Some('&') => ("&", "&", true, "=", false),
        Some('#') => ("#", ",", false, "", true),
        _ => unreachable!(),
    }
}

/// Splits a value into the units a prefix length counts: characters, except that where triplets
/// are kept, a triplet (or a run of triplets encoding one character) is one unit.
pub fn units(v: &str, reserved: bool) -> Vec<&str> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < v.len() {
        let mut n = v[i..].chars().next().unwrap().len_utf8();
        if reserved && triplet(&v.as_bytes()[i..]).is_some() {
            n = 3;
            let mut bytes = Vec::new();
            for k in 0..4 {
                match v.as_bytes().get(i + 3 * k..).and_then(triplet) {
                    Some(b) => bytes.push(b),
                    None => break,
                }
                if std::str::from_utf8(&bytes).is_ok() {
                    n = 3 * bytes.len();
                    break;
                }
            }
        }
        out.push(&v[i..i + n]);
        i += n;
    }
    out
}

fn enc(v: &str, reserved: bool, iri: bool) -> String {
    if !reserved {
        return encode(Enc::Unreserve, v, iri);
    }
    let mut o = String::new();
    let mut i = 0;
    while i < v.len() {
        let n = if triplet(&v.as_bytes()[i..]).is_some() {
            o.push_str(&v[i..i + 3]);
            3
        } else {
            let n = v[i..].chars().next().unwrap().len_utf8();
            o.push_str(&encode(Enc::Any, &v[i..i + n], iri));
            n
        };
        i += n;
    }
    o
}

/// `None` when a prefix modifier is applied to a (non-empty) composite value.
pub fn expand(t: &str, env: &Env, iri: bool) -> Option<String> {
    let mut out = String::new();
    for p in parse(t) {
        let (op, vars) = match p {
            Part::Lit(x) => {
                for c in x.chars() {
                    if c.is_ascii() {
                        out.push(c)
                    } else {
                        out.push_str(&encode(Enc::Any, c.encode_utf8(&mut [0; 4]), iri))
                    }
                }
                continue;
            }
            Part::Expr(op, vars) => (op, vars),
        };
        let (first, sep, named, ifemp, reserved) = table(op);
        let mut pieces = Vec::new();
        for (name, modifier) in vars {
            let one = |name: &str, v: &str| match v {
                "" => format!("{name}{ifemp}"),
                _ => format!("{name}={}", enc(v, reserved, iri)),
            };
            match (look(env, name), modifier) {
                (Val::Undef, _) => {}
                (Val::List(v), _) if v.is_empty() => {}
                (Val::Assoc(v), _) if v.is_empty() => {}
                (Val::Str(v), _) => {
                    let cut: String = match modifier {
                        Mod::Prefix(n) => units(v, reserved).into_iter().take(n).collect(),
                        _ => v.clone(),
                    };
                    pieces.push(if named { one(name, &cut) } else { enc(&cut, reserved, iri) })
                }
                (_, Mod::Prefix(_)) => return None,
                (Val::List(v), Mod::Explode) => {
                    pieces.extend(v.iter().map(|x| if named { one(name, x) } else { enc(x, reserved, iri) }))
                }
                (Val::Assoc(v), Mod::Explode) => pieces.extend(v.iter().map(|(k, x)| {
                    let k = enc(k, reserved, iri);
                    if named { one(&k, x) } else { format!("{k}={}", enc(x, reserved, iri)) }
                })),
                (Val::List(v), Mod::None) => {
                    let j = v.iter().map(|x| enc(x, reserved, iri)).collect::<Vec<_>>().join(",");
                    pieces.push(if named { format!("{name}={j}") } else { j })
                }
                (Val::Assoc(v), Mod::None) => {
                    let j = v.iter().flat_map(|(k, x)| [k, x]).map(|x| enc(x, reserved, iri)).collect::<Vec<_>>().join(",");
                    pieces.push(if named { format!("{name}={j}") } else { j })
                }
            }
        }
        if !pieces.is_empty() {
            out.push_str(first);
            out.push_str(&pieces.join(sep));
        }
    }
    Some(out)
}

/// The library's own context holding `env`.
pub fn simple(env: &Env) -> iri_string::template::simple_context::SimpleContext {
    use iri_string::template::simple_context::Value as V;
    let mut c = iri_string::template::simple_context::SimpleContext::new();
    for (n, v) in env {
        c.insert(n.as_str(), match v {
            Val::Undef => V::Undefined,
            Val::Str(s) => V::String(s.clone()),
            Val::List(l) => V::List(l.clone()),
            Val::Assoc(m) => V::Assoc(m.clone()),
        });
    }
    c
}
