//! Literal models of the RFC 3986 / 3987 algorithms. Independent of the code under test.

use crate::grammar::{is_iprivate, is_sub_delim, is_unreserved, valid, K};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Parts<'a> {
    pub scheme: Option<&'a str>,
    pub authority: Option<&'a str>,
    pub path: &'a str,
    pub query: Option<&'a str>,
    pub fragment: Option<&'a str>,
}

/// RFC 3986 appendix B: `^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?`
pub fn split(s: &str) -> Parts<'_> {
    let (s, fragment) = cut(s, '#');
    let (s, query) = cut(s, '?');
    let (scheme, s) = match s.find([':', '/']) {
        Some(i) if i > 0 && s[i..].starts_with(':') => (Some(&s[..i]), &s[i + 1..]),
        _ => (None, s),
    };
    let (authority, path) = match s.strip_prefix("//") {
        Some(r) => {
            let e = r.find('/').unwrap_or(r.len());
            (Some(&r[..e]), &r[e..])
        }
        None => (None, s),
    };
    Parts { scheme, authority, path, query, fragment }
}

fn cut(s: &str, c: char) -> (&str, Option<&str>) {
    match s.find(c) {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    }
}

/// RFC 3986 section 5.3.
pub fn recompose(scheme: Option<&str>, authority: Option<&str>, path: &str, query: Option<&str>, fragment: Option<&str>) -> String {
    let mut o = String::new();
    if let Some(x) = scheme {
        o.push_str(x);
        o.push(':');
    }
    if let Some(x) = authority {
        o.push_str("//");
        o.push_str(x);
    }
    o.push_str(path);
    if let Some(x) = query {
        o.push('?');
        o.push_str(x);
    }
    if let Some(x) = fragment {
        o.push('#');
        o.push_str(x);
    }
    o
}

/// Length of the dots (`.` or `%2e`) forming a dot segment (1 or 2 dots) at the start of `s`,
/// if the segment ends there.
fn dot_segment(s: &str) -> Option<(usize, usize)> {
    let mut n = 0;
    let mut i = 0;
    while i < s.len() && !s[i..].starts_with('/') {
        let rest = &s[i..];
        if rest.starts_with('.') {
            i += 1;
        } else if rest.len() >= 3 && rest.is_char_boundary(3) && rest[..3].eq_ignore_ascii_case("%2e") {
            i += 3;
        } else {
            return None;
        }
        n += 1;
    }
    (n == 1 || n == 2).then_some((n, i))
}

/// RFC 3986 section 5.2.4, reading `%2e` in dot segments as a dot.
pub fn remove_dot_segments(path: &str) -> String {
    let mut input = path.to_string();
    let mut out = String::new();
    while !input.is_empty() {
        if let Some((_, len)) = dot_segment(&input) {
            // A. and D.
            let rest = &input[len..];
            input = rest.strip_prefix('/').unwrap_or(rest).to_string();
        } else if let Some((n, len)) = input.strip_prefix('/').and_then(dot_segment) {
            // B. and C.
            let rest = &input[1 + len..];
            input = if rest.is_empty() { "/".to_string() } else { rest.to_string() };
            if n == 2 {
                out.truncate(out.rfind('/').unwrap_or(0));
            }
        } else {
            // E.
            let start = usize::from(input.starts_with('/'));
            let end = input[start..].find('/').map_or(input.len(), |i| i + start);
            out.push_str(&input[..end]);
            input = input[end..].to_string();
        }
    }
    out
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Owned {
    pub scheme: String,
    pub authority: Option<String>,
    pub path: String,
    pub query: Option<String>,
    pub fragment: Option<String>,
    /// Dot segments were removed on the way.
    pub removed: bool,
}

impl Owned {
    /// The result cannot be written by plain recomposition.
    pub fn escapes(&self) -> bool {
        self.removed && self.authority.is_none() && self.path.starts_with("//")
    }
    pub fn text(&self) -> String {
        let path = if self.escapes() { format!("/.{}", self.path) } else { self.path.clone() };
        recompose(Some(&self.scheme), self.authority.as_deref(), &path, self.query.as_deref(), self.fragment.as_deref())
    }
}

/// RFC 3986 section 5.2.2 (strict). `base` has no fragment.
pub fn resolve(base: &str, reference: &str) -> Owned {
    let b = split(base);
    let r = split(reference);
    let own = |x: Option<&str>| x.map(str::to_string);
    let (scheme, authority, path, query, removed);
    if let Some(s) = r.scheme {
        scheme = s;
        authority = r.authority;
        path = remove_dot_segments(r.path);
        query = r.query;
        removed = true;
    } else {
        scheme = b.scheme.unwrap();
        if r.authority.is_some() {
            authority = r.authority;
            path = remove_dot_segments(r.path);
            query = r.query;
            removed = true;
        } else {
            authority = b.authority;
            if r.path.is_empty() {
                path = b.path.to_string();
                query = r.query.or(b.query);
                removed = false;
            } else {
                let merged = if r.path.starts_with('/') {
                    r.path.to_string()
                } else if b.authority.is_some() && b.path.is_empty() {
                    format!("/{}", r.path)
                } else {
                    format!("{}{}", &b.path[..b.path.rfind('/').map_or(0, |i| i + 1)], r.path)
                };
                path = remove_dot_segments(&merged);
                query = r.query;
                removed = true;
            }
        }
    }
    Owned { scheme: scheme.into(), authority: own(authority), path, query: own(query), fragment: own(r.fragment), removed }
}

pub fn hex(b: u8) -> Option<u8> {
    (b as char).to_digit(16).map(|d| d as u8)
}

/// The byte written by the triplet at the start of `s`.
pub fn triplet(s: &[u8]) -> Option<u8> {
    match s {
        [b'%', a, b, ..] => Some(hex(*a)? << 4 | hex(*b)?),
        _ => None,
    }
}

/// Percent-encoding and hex-case normalization: decode what is unreserved in the spec.
pub fn pct_norm(s: &str, iri: bool) -> String {
    let mut out = String::new();
    let mut i = 0;
    let b = s.as_bytes();
    while i < b.len() {
        let mut run = Vec::new();
        while let Some(x) = triplet(&b[i..]) {
            run.push(x);
            i += 3;
        }
        if run.is_empty() {
            let c = s[i..].chars().next().unwrap();
            out.push(c);
            i += c.len_utf8();
            continue;
        }
        let mut k = 0;
        while k < run.len() {
            let c = (1..=4).find_map(|n| std::str::from_utf8(run.get(k..k + n)?).ok()?.chars().next());
            match c {
                Some(c) if is_unreserved(c, iri) => {
                    out.push(c);
                    k += c.len_utf8();
                }
                _ => {
                    out.push_str(&format!("%{:02X}", run[k]));
                    k += 1;
                }
            }
        }
    }
    out
}

/// `(userinfo, host, port)` of a valid authority.
pub fn authority(a: &str) -> (Option<&str>, &str, Option<&str>) {
    let (user, hp) = match a.find('@') {
        Some(i) => (Some(&a[..i]), &a[i + 1..]),
        None => (None, a),
    };
    // A colon inside a bracketed literal does not start a port.
    let from = hp.rfind(']').map_or(0, |i| i + 1);
    match hp[from..].find(':') {
        Some(i) => (user, &hp[..from + i], Some(&hp[from + i + 1..])),
        None => (user, hp, None),
    }
}

pub fn is_reg_name_host(host: &str) -> bool {
    !host.starts_with('[') && !valid(K::Ipv4, false, host)
}

/// All characters, written plainly or percent-encoded, are ASCII.
pub fn ascii_only(s: &str) -> bool {
    let b = s.as_bytes();
    b.is_ascii() && (0..b.len()).all(|i| triplet(&b[i..]).is_none_or(|x| x < 0x80))
}

fn lower_plain(s: &str) -> String {
    // Lowercases letters outside triplets.
    let b = s.as_bytes();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if triplet(&b[i..]).is_some() {
            out.push_str(&s[i..i + 3]);
            i += 3;
        } else {
            let c = s[i..].chars().next().unwrap();
            out.push(c.to_ascii_lowercase());
            i += c.len_utf8();
        }
    }
    out
}

/// Normal form of a host and port. An empty port loses its colon.
pub fn norm_authority(a: &str, iri: bool) -> String {
    let (user, host, port) = authority(a);
    let mut o = String::new();
    if let Some(u) = user {
        o.push_str(&pct_norm(u, iri));
        o.push('@');
    }
    let h = pct_norm(host, iri);
    o.push_str(&if ascii_only(host) { lower_plain(&h) } else { h });
    if let Some(p) = port.filter(|p| !p.is_empty()) {
        o.push(':');
        o.push_str(p);
    }
    o
}

/// Normal form of an IRI given by components.
pub fn normalize_parts(p: &Owned, iri: bool, preserve: bool) -> Owned {
    let path = if preserve && p.authority.is_none() && !p.path.starts_with('/') {
        (pct_norm(&p.path, iri), false)
    } else {
        (remove_dot_segments(&pct_norm(&p.path, iri)), true)
    };
    Owned {
        scheme: p.scheme.to_ascii_lowercase(),
        authority: p.authority.as_deref().map(|a| norm_authority(a, iri)),
        path: path.0,
        query: p.query.as_deref().map(|q| pct_norm(q, iri)),
        fragment: p.fragment.as_deref().map(|q| pct_norm(q, iri)),
        removed: path.1,
    }
}

pub fn owned(s: &str) -> Owned {
    let p = split(s);
    let own = |x: Option<&str>| x.map(str::to_string);
    Owned {
        scheme: p.scheme.expect("scheme").to_string(),
        authority: own(p.authority),
        path: p.path.to_string(),
        query: own(p.query),
        fragment: own(p.fragment),
        removed: false,
    }
}

/// Syntax-based normalization of a string with a scheme.
pub fn normalize(s: &str, iri: bool, preserve: bool) -> Owned {
    normalize_parts(&owned(s), iri, preserve)
}

/// WHATWG URL: percent-decode.
pub fn decode(b: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        match triplet(&b[i..]) {
            Some(x) => {
                out.push(x);
                i += 3;
            }
            None => {
                out.push(b[i]);
                i += 1;
            }
        }
    }
    out
}

/// The IRI to URI mapping: every non-ASCII character becomes triplets.
pub fn to_uri(s: &str) -> String {
    let mut o = String::new();
    for &b in s.as_bytes() {
        if b < 0x80 {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{b:02X}"));
        }
    }
    o
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Enc {
    RegName,
    User,
    Password,
    Segment,
    Path,
    Query,
    Fragment,
    Unreserve,
    Any,
}
pub const ENCS: &[Enc] =
    &[Enc::RegName, Enc::User, Enc::Password, Enc::Segment, Enc::Path, Enc::Query, Enc::Fragment, Enc::Unreserve, Enc::Any];

/// May `c` stand for itself in the context?
pub fn permitted(e: Enc, c: char, iri: bool) -> bool {
    let plain = is_unreserved(c, iri);
    let pchar = plain || is_sub_delim(c) || c == ':' || c == '@';
    match e {
        Enc::RegName => plain || is_sub_delim(c),
        // The first colon of a userinfo separates user and password, and is documented to be
        // encoded in both.
        Enc::User | Enc::Password => plain || is_sub_delim(c),
        Enc::Segment => pchar,
        Enc::Path => pchar || c == '/',
        Enc::Query => pchar || c == '/' || c == '?' || (iri && is_iprivate(c)),
        Enc::Fragment => pchar || c == '/' || c == '?',
        Enc::Unreserve => plain,
        Enc::Any => plain || is_sub_delim(c) || crate::grammar::is_gen_delim(c) || (iri && is_iprivate(c)),
    }
}

pub fn encode(e: Enc, s: &str, iri: bool) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if permitted(e, c, iri) {
            o.push(c);
        } else {
            for b in c.encode_utf8(&mut [0; 4]).bytes() {
                o.push_str(&format!("%{b:02X}"));
            }
        }
    }
    o
}

/// The non-empty-or-empty password range of a reference: between the first colon of the user
/// information and the `@`.
pub fn password(s: &str) -> Option<std::ops::Range<usize>> {
    let a = split(s).authority?;
    let off = a.as_ptr() as usize - s.as_ptr() as usize;
    let u = authority(a).0?;
    let c = u.find(':')?;
    Some(off + c + 1..off + u.len())
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn rfc3986_5_4() {
        let b = "http://a/b/c/d;p?q";
        for (r, e) in [
            ("g:h", "g:h"), ("g", "http://a/b/c/g"), ("./g", "http://a/b/c/g"), ("g/", "http://a/b/c/g/"),
            ("/g", "http://a/g"), ("//g", "http://g"), ("?y", "http://a/b/c/d;p?y"), ("g?y", "http://a/b/c/g?y"),
            ("#s", "http://a/b/c/d;p?q#s"), ("g#s", "http://a/b/c/g#s"), ("g?y#s", "http://a/b/c/g?y#s"),
            (";x", "http://a/b/c/;x"), ("g;x", "http://a/b/c/g;x"), ("g;x?y#s", "http://a/b/c/g;x?y#s"),
            ("", "http://a/b/c/d;p?q"), (".", "http://a/b/c/"), ("./", "http://a/b/c/"), ("..", "http://a/b/"),
            ("../", "http://a/b/"), ("../g", "http://a/b/g"), ("../..", "http://a/"), ("../../", "http://a/"),
            ("../../g", "http://a/g"), ("../../../g", "http://a/g"), ("/./g", "http://a/g"), ("/../g", "http://a/g"),
            ("g.", "http://a/b/c/g."), ("..g", "http://a/b/c/..g"), ("./../g", "http://a/b/g"),
            ("g/./h", "http://a/b/c/g/h"), ("g;x=1/../y", "http://a/b/c/y"), ("g?y/../x", "http://a/b/c/g?y/../x"),
            ("http:g", "http:g"),
        ] {
            assert_eq!(resolve(b, r).text(), e);
        }
        assert_eq!(normalize("eXAMPLE://a/./b/../b/%63/%7bfoo%7d", false, false).text(), "example://a/b/c/%7Bfoo%7D");
        assert_eq!(normalize("foo:/..//x", false, false).text(), "foo:/.//x");
    }
}
