//! C28: rejections give one and the same, true reason at every entry point.
//!
//! For every rejected text of the bounded spaces: the errors of all entry points are collected and
//! compared, the source is handed back, and what the displayed reason claims is decided by the
//! grammar automata. Template errors carry a position: the text before it must lead to a state of
//! the template automaton from which acceptance can still be reached.

use std::fmt::Display;
use std::net::IpAddr;

use iri_string::build::{Buildable, Builder, Built};
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::context::{Context, DynamicContext, VarName, Visitor};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;
use iri_string::validate as v;
use mc::builder::{Auth, Host, Port, Set, Target, User, TARGETS};
use mc::en::{lang, product, strings};
use mc::grammar::{dfa, valid, Dfa, K};
use mc::report::{hash, par, run, Ctx};
use serde::de::value::{BorrowedStrDeserializer, Error as DeError, StrDeserializer, StringDeserializer};
use serde::de::{Deserialize, IntoDeserializer};

type R = Result<(), String>;

/// Where the components of a text stand when read as the given kind.
struct Read<'a> {
    scheme: Option<&'a str>,
    authority: Option<&'a str>,
    path: &'a str,
    query: Option<&'a str>,
    fragment: Option<&'a str>,
}

fn read(k: K, s: &str) -> Read<'_> {
    let (scheme, rest) = match s.split_once(':') {
        Some((a, b)) if k != K::RelRef && valid(K::Scheme, false, a) => (Some(a), b),
        _ => (None, s),
    };
    let (rest, fragment) = rest.split_once('#').map_or((rest, None), |(a, b)| (a, Some(b)));
    let (rest, query) = rest.split_once('?').map_or((rest, None), |(a, b)| (a, Some(b)));
    let (authority, path) = match rest.strip_prefix("//") {
        Some(a) => {
            let n = a.find('/').unwrap_or(a.len());
            (Some(&a[..n]), &a[n..])
        }
        None => (None, rest),
    };
    Read { scheme, authority, path, query, fragment }
}

fn user_host(a: &str) -> (Option<&str>, &str) {
    a.split_once('@').map_or((None, a), |(u, h)| (Some(u), h))
}

/// Whether the reason displayed for rejecting `s` as a `k` is true.
fn is_true(k: K, iri: bool, s: &str, reason: &str) -> bool {
    let own = |name: &str| reason == format!("invalid IRI: invalid {name}");
    match k {
        K::Scheme => return own("scheme"),
        K::Userinfo => return own("userinfo"),
        K::Host => return own("host"),
        K::RegName => return own("reg-name"),
        K::Port => return own("port"),
        K::Path | K::Segment => return own("path"),
        K::Query => return own("query"),
        K::Fragment => return own("fragment"),
        _ => {}
    }
    let reason = reason.strip_prefix("invalid IRI: ").unwrap_or("");
    let all = || if k == K::Authority { Read { scheme: None, authority: Some(s), path: "", query: None, fragment: None } } else { read(k, s) };
    let r = all();
    let needs_scheme = matches!(k, K::Iri | K::AbsIri);
    match reason {
        "invalid scheme" => needs_scheme && s.contains(':') && r.scheme.is_none(),
        "expected an absolute IRI but got a relative IRI" => needs_scheme && r.scheme.is_none(),
        "expected a relative IRI but got an absolute IRI" => k == K::RelRef && s.split_once(':').is_some_and(|(a, _)| valid(K::Scheme, false, a)),
        "invalid userinfo" => r.authority.and_then(|a| user_host(a).0).is_some_and(|u| !valid(K::Userinfo, iri, u)),
        "invalid host" => r.authority.is_some_and(|a| {
            let h = user_host(a).1;
            h.contains('@') || !valid(K::Authority, iri, h)
        }),
        "invalid port" => r.authority.is_some_and(|a| {
            user_host(a).1.rsplit_once(':').is_some_and(|(_, p)| !valid(K::Port, iri, p))
        }),
        "invalid path" => {
            !valid(K::Path, iri, r.path) || r.scheme.is_none() && r.authority.is_none() && r.path.split('/').next().is_some_and(|x| x.contains(':'))
        }
        "invalid query" => r.query.is_some_and(|q| !valid(K::Query, iri, q)),
        "invalid fragment" => r.fragment.is_some_and(|f| !valid(K::Fragment, iri, f)),
        "unexpected fragment" => k == K::AbsIri && r.fragment.is_some(),
        _ => false,
    }
}

/// What the entry points say.
#[derive(Default)]
struct Said(Vec<(&'static str, String, String)>);
impl Said {
    fn add<E: Display + std::fmt::Debug>(&mut self, how: &'static str, e: Option<E>) -> R {
        let e = e.ok_or_else(|| format!("{how} does not reject"))?;
        self.0.push((how, e.to_string(), format!("{e:?}")));
        Ok(())
    }
    /// Deserializers only hand on the message.
    fn message(&mut self, how: &'static str, e: Option<DeError>) -> R {
        let e = e.ok_or_else(|| format!("{how} does not reject"))?;
        let debug = self.0[0].2.clone();
        self.0.push((how, e.to_string(), debug));
        Ok(())
    }
    fn judge(&self) -> Result<&str, String> {
        let (first, reason, debug) = &self.0[0];
        for (how, r, d) in &self.0[1..] {
            if (r, d) != (reason, debug) {
                return Err(format!("{first} says {reason:?} ({debug}), {how} says {r:?} ({d})"));
            }
        }
        Ok(reason)
    }
}

/// A failed owned construction: equal error, and the source.
macro_rules! owned {
    ($said:expr, $how:literal, $s:expr, $r:expr) => {
        match $r {
            Ok(_) => return Err(concat!($how, " does not reject").into()),
            Err(e) => {
                $said.add($how, Some(e.validation_error()))?;
                if e.to_string() != e.validation_error().to_string() || e.clone().to_string() != e.to_string() {
                    return Err(format!("the creation error says {e}, its cause {}", e.validation_error()));
                }
                if e.clone().into_source() != $s || e.into_source() != $s {
                    return Err(concat!($how, " does not hand back the source").into());
                }
            }
        }
    };
}

macro_rules! forms {
    ($said:expr, $s:expr, $b:ty, $o:ty) => {{
        let s: &str = $s;
        $said.add("TryFrom<&str>", <&$b>::try_from(s).err())?;
        $said.add("TryFrom<&[u8]>", <&$b>::try_from(s.as_bytes()).err())?;
        $said.add("owned TryFrom<&str>", <$o>::try_from(s).err())?;
        $said.add("owned TryFrom<&[u8]>", <$o>::try_from(s.as_bytes()).err())?;
        $said.add("FromStr", s.parse::<$o>().err())?;
        owned!($said, "owned TryFrom<String>", s, <$o>::try_from(s.to_string()));
        let d = BorrowedStrDeserializer::<DeError>::new(s);
        $said.message("borrowed deserialization", <&$b>::deserialize(d).err())?;
        let d: StrDeserializer<'_, DeError> = s.into_deserializer();
        $said.message("deserialization", <$o>::deserialize(d).err())?;
        let d: StringDeserializer<DeError> = s.to_string().into_deserializer();
        $said.message("deserialization of an owned text", <$o>::deserialize(d).err())?;
    }};
}

macro_rules! narrow {
    ($s:expr, $k:expr, $iri:expr, $S:ty, $b:ident => $tb:ident $to:ident) => {
        if let Ok(x) = $b::<$S>::new($s) {
            let mut said = Said::default();
            said.add("the conversion", <&$tb<$S>>::try_from(x).err())?;
            match $to::<$S>::try_from(x.to_owned()) {
                Ok(_) => return Err("the owned conversion does not fail".into()),
                Err(e) => {
                    said.add("the owned conversion", Some(e.validation_error()))?;
                    if e.into_source().as_str() != $s {
                        return Err("the owned conversion does not hand back the source".into());
                    }
                }
            }
            let reason = said.judge()?;
            if !is_true($k, $iri, $s, reason) {
                return Err(format!("converting {} {:?} to {}: {reason:?} is not true", stringify!($b), $s, stringify!($tb)));
            }
        }
    };
}

fn verify<S: Spec>(ctx: &Ctx, k: K, iri: bool, s: &str, forms: bool) -> R {
    let mut said = Said::default();
    macro_rules! typed {
        ($b:ident, $o:ident) => {{
            said.add("new", $b::<S>::new(s).err())?;
            if forms {
                forms!(said, s, $b<S>, $o<S>);
            }
        }};
    }
    let e = match k {
        K::Scheme => v::scheme(s).err(),
        K::Userinfo => v::userinfo::<S>(s).err(),
        K::Host => v::host::<S>(s).err(),
        K::RegName => v::reg_name::<S>(s).err(),
        K::Port => v::port(s).err(),
        K::Authority => v::authority::<S>(s).err(),
        K::Path => v::path::<S>(s).err(),
        K::Segment => v::path_segment::<S>(s).err(),
        K::Query => v::query::<S>(s).err(),
        K::Fragment => v::fragment::<S>(s).err(),
        K::Iri => v::iri::<S>(s).err(),
        K::AbsIri => v::absolute_iri::<S>(s).err(),
        K::RelRef => v::relative_ref::<S>(s).err(),
        K::IriRef => v::iri_reference::<S>(s).err(),
        _ => unreachable!(),
    };
    said.add("the validator", e)?;
    match k {
        K::Query => {
            typed!(RiQueryStr, RiQueryString);
            said.add("from_prefixed", RiQueryStr::<S>::from_prefixed(&format!("?{s}")).err())?;
        }
        K::Fragment => {
            typed!(RiFragmentStr, RiFragmentString);
            said.add("from_prefixed", RiFragmentStr::<S>::from_prefixed(&format!("#{s}")).err())?;
        }
        K::Iri => typed!(RiStr, RiString),
        K::AbsIri => typed!(RiAbsoluteStr, RiAbsoluteString),
        K::RelRef => typed!(RiRelativeStr, RiRelativeString),
        K::IriRef => typed!(RiReferenceStr, RiReferenceString),
        _ => {}
    }
    let reason = said.judge()?;
    ctx.outcome(hash(reason) ^ hash(k.name()));
    if !is_true(k, iri, s, reason) {
        return Err(format!("{} {s:?}: {reason:?} is not true", k.name()));
    }
    match k {
        K::Iri => narrow!(s, k, iri, S, RiReferenceStr => RiStr RiString),
        K::AbsIri => {
            narrow!(s, k, iri, S, RiReferenceStr => RiAbsoluteStr RiAbsoluteString);
            narrow!(s, k, iri, S, RiStr => RiAbsoluteStr RiAbsoluteString);
        }
        K::RelRef => narrow!(s, k, iri, S, RiReferenceStr => RiRelativeStr RiRelativeString),
        _ => {}
    }
    Ok(())
}

fn check(ctx: &Ctx, k: K, iri: bool, s: &str, forms: bool) {
    if dfa(k, iri).accepts(s) {
        return;
    }
    ctx.case(&["text", k.name(), if iri { "iri" } else { "uri" }, s], || {
        if iri {
            verify::<IriSpec>(ctx, k, iri, s, forms)
        } else {
            verify::<UriSpec>(ctx, k, iri, s, forms)
        }
    });
    ctx.nontrivial(hash(s) ^ hash(k.name()));
}

fn verify_bytes(b: &[u8]) -> R {
    if std::str::from_utf8(b).is_ok() {
        return Ok(());
    }
    let mut said = Said::default();
    macro_rules! one {
        ($($b:ident $o:ident)*) => {$(
            said.add(concat!(stringify!($b), "<IriSpec>"), <&$b<IriSpec>>::try_from(b).err())?;
            said.add(concat!(stringify!($o), "<IriSpec>"), $o::<IriSpec>::try_from(b).err())?;
            said.add(concat!(stringify!($b), "<UriSpec>"), <&$b<UriSpec>>::try_from(b).err())?;
            said.add(concat!(stringify!($o), "<UriSpec>"), $o::<UriSpec>::try_from(b).err())?;
        )*};
    }
    one!(RiStr RiString RiAbsoluteStr RiAbsoluteString RiRelativeStr RiRelativeString
         RiReferenceStr RiReferenceString RiQueryStr RiQueryString RiFragmentStr RiFragmentString);
    let reason = said.judge()?;
    if reason != "invalid IRI: invalid utf-8 bytes" {
        return Err(format!("{b:?} is rejected for {reason:?}"));
    }
    let mut said = Said::default();
    said.add("template", <&UriTemplateStr>::try_from(b).err())?;
    said.add("owned template", UriTemplateString::try_from(b).err())?;
    let (reason, at) = position(said.judge()?)?;
    if reason != "invalid utf-8 byte sequence" || at > b.len() || std::str::from_utf8(&b[..at]).is_err() {
        return Err(format!("template {b:?} is rejected for {reason:?} at {at}"));
    }
    Ok(())
}

fn position(e: &str) -> Result<(&str, usize), String> {
    e.strip_prefix("invalid URI template: ")
        .and_then(|e| e.strip_suffix("-th byte)"))
        .and_then(|e| e.rsplit_once(" (at "))
        .and_then(|(r, n)| Some((r, n.parse().ok()?)))
        .ok_or_else(|| format!("a template error displayed as {e:?}"))
}

/// Whether a text leading to this state can be completed.
fn alive(d: &Dfa) -> Vec<bool> {
    let mut live: Vec<bool> = (0..d.n).map(|q| d.accept[q]).collect();
    loop {
        let next: Vec<bool> = (0..d.n).map(|q| live[q] || (0..d.nclass).any(|c| live[d.trans[q * d.nclass + c] as usize])).collect();
        if next == live {
            return live;
        }
        live = next;
    }
}

fn verify_template(ctx: &Ctx, s: &str) -> R {
    use std::sync::OnceLock;
    static LIVE: OnceLock<Vec<bool>> = OnceLock::new();
    let d = dfa(K::Template, false);
    let live = LIVE.get_or_init(|| alive(d));
    let mut said = Said::default();
    said.add("new", UriTemplateStr::new(s).err())?;
    forms!(said, s, UriTemplateStr, UriTemplateString);
    let (reason, at) = position(said.judge()?)?;
    ctx.outcome(hash(reason) ^ at as u64);
    if !s.is_char_boundary(at) {
        return Err(format!("{s:?}: the position {at} is not in the text or inside a character"));
    }
    let q = s[..at].chars().fold(0, |q, c| d.step(q, c));
    if !live[q] {
        return Err(format!("{s:?}: the position {at} is after the fault ({reason})"));
    }
    let rest = &s[at..];
    // The expression that contains the position.
    let inside = s[..at].rfind('{').filter(|&o| !s[o..at].contains('}'));
    let truth = match reason {
        "expression not closed" => rest.starts_with('{') && !rest.contains('}') || inside.is_some() && !rest.contains('}'),
        "invalid character" => inside.is_none() && rest.chars().next().is_some_and(|c| !live[d.step(q, c)]),
        "invalid percent-encoded triplets" => {
            let t = s[..at].rfind('%').filter(|p| at - p < 3).unwrap_or(at);
            let t = &s.as_bytes()[t..];
            t.first() == Some(&b'%') && !(t.len() > 2 && t[1].is_ascii_hexdigit() && t[2].is_ascii_hexdigit())
        }
        "unsupported operator" => s[..at].ends_with('{') && rest.starts_with(['=', ',', '!', '@', '|']),
        "invalid expression" => inside.is_some_and(|o| {
            let body = s[o + 1..].split('}').next().unwrap_or("");
            !d.accepts(&format!("{{{body}}}"))
        }),
        _ => false,
    };
    if !truth {
        return Err(format!("{s:?}: {reason:?} at {at} is not true"));
    }
    Ok(())
}

fn check_template(ctx: &Ctx, s: &str) {
    if !dfa(K::Template, false).accepts(s) {
        ctx.case(&["template", s], || verify_template(ctx, s));
        ctx.nontrivial(hash(s));
    }
}

/// The kinds of value by the first letter of the name.
struct Ctxt;
impl Context for Ctxt {
    fn visit<V: Visitor>(&self, v: V) -> V::Result {
        use iri_string::template::context::{AssocVisitor, ListVisitor};
        use std::ops::ControlFlow;
        match v.var_name().as_str().as_bytes()[0] {
            b's' => v.visit_string("x y"),
            b'l' => {
                let mut l = v.visit_list();
                match l.visit_item("1") {
                    ControlFlow::Break(r) => r,
                    _ => l.finish(),
                }
            }
            b'a' => {
                let mut a = v.visit_assoc();
                match a.visit_entry("k", "v") {
                    ControlFlow::Break(r) => r,
                    _ => a.finish(),
                }
            }
            b'e' => v.visit_list().finish(),
            b'f' => v.visit_assoc().finish(),
            _ => v.visit_undefined(),
        }
    }
}
struct Dynamic;
impl DynamicContext for Dynamic {
    fn visit_dynamic<V: Visitor>(&mut self, v: V) -> V::Result {
        Ctxt.visit(v)
    }
}
/// Takes so many bytes, piece by piece.
struct Limited(usize);
impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(std::fmt::Error)?;
        Ok(())
    }
}

/// An expansion that fails tells where: at the specification of the variable, or, if the output
/// fails, at the piece of the template being expanded.
fn verify_expansion(ctx: &Ctx, t: &str) -> R {
    let t = UriTemplateStr::new(t).map_err(|e| e.to_string())?;
    let s = t.as_str();
    let fixed = t.expand::<UriSpec, _>(&Ctxt).map(|x| x.to_string()).map_err(|e| e.to_string());
    let mut out = String::new();
    let dynamic = t.expand_dynamic::<UriSpec, _, _>(&mut out, &mut Dynamic).map_err(|e| e.to_string());
    match (&fixed, &dynamic) {
        (Ok(a), Ok(())) if *a == out => {}
        (Err(a), Err(b)) if a == b => {}
        _ => return Err(format!("{s:?}: expand gives {fixed:?}, expand_dynamic {dynamic:?} and {out:?}")),
    }
    // Specifications that cannot be expanded, and where each piece starts.
    let mut bad = Vec::new();
    let mut starts = Vec::new();
    let mut i = 0;
    while i < s.len() {
        if !s[i..].starts_with('{') {
            starts.push(i);
            i += s[i..].find('{').unwrap_or(s.len() - i);
            continue;
        }
        let end = i + s[i..].find('}').unwrap();
        let mut at = i + 1 + usize::from(b"+#./;?&".contains(&s.as_bytes()[i + 1]));
        for spec in s[at..end].split(',') {
            starts.push(at);
            if spec.contains(':') && matches!(spec.as_bytes()[0], b'l' | b'a') {
                bad.push(at);
            }
            at += spec.len() + 1;
        }
        i = end + 1;
    }
    let first = bad.first().copied();
    let got = match &fixed {
        Ok(_) => None,
        Err(e) => {
            let (reason, at) = position(e)?;
            if reason != "unexpected value type for the variable" {
                return Err(format!("{s:?} is not expanded for {reason:?}"));
            }
            Some(at)
        }
    };
    // Empty lists are undefined, but a prefix on them may be refused as well.
    if got != first && !(got.is_some_and(|at| matches!(s.as_bytes()[at], b'e' | b'f')) && starts.contains(&got.unwrap())) {
        return Err(format!("{s:?}: refused at {got:?}, the first such specification is at {first:?}"));
    }
    if fixed.is_ok() {
        macro_rules! typed {
            ($($S:ty: $($o:ident)*),*) => {$($(
                let x = $o::<$S>::try_from(t.expand::<$S, _>(&Ctxt).map_err(|e| e.to_string())?);
                if let Err(e) = x {
                    let text = t.expand::<$S, _>(&Ctxt).map_err(|e| e.to_string())?.to_string();
                    let mut said = Said::default();
                    said.add("parsing", text.parse::<$o<$S>>().err())?;
                    said.add("conversion of the expansion", Some(e.validation_error()))?;
                    said.judge().map_err(|e| format!("{s:?}: {e}"))?;
                    if e.into_source() != text {
                        return Err(format!("{s:?}: {} does not hand back the expansion", stringify!($o)));
                    }
                }
            )*)*};
        }
        typed!(UriSpec: RiString RiAbsoluteString RiReferenceString RiRelativeString, IriSpec: RiString RiAbsoluteString RiReferenceString RiRelativeString);
        for n in 0..out.len() {
            let r = t.expand_dynamic::<UriSpec, _, _>(&mut Limited(n), &mut Dynamic);
            let e = r.err().ok_or_else(|| format!("{s:?} expanded to {out:?} fits in {n} bytes"))?;
            let (reason, at) = position(&e.to_string()).map(|(r, at)| (r.to_string(), at))?;
            ctx.outcome(hash(&reason) ^ (at + n * 0x1000) as u64);
            if reason != "failed to write to the backend writer" || !starts.contains(&at) {
                return Err(format!("{s:?}: the writer failing after {n} bytes is reported as {reason:?} at {at}"));
            }
            // All before that piece has been written.
            let before = UriTemplateStr::new(&s[..at]).map(|t| t.expand::<UriSpec, _>(&Ctxt).unwrap().to_string().len());
            if before.is_ok_and(|b| b > n) {
                return Err(format!("{s:?}: the writer failing after {n} bytes is reported at {at}"));
            }
        }
    }
    Ok(())
}

fn build<'a, T: ?Sized + Buildable<'a>>(b: &Builder<'a>) -> Option<String>
where
    Built<'a, T>: Display,
{
    b.clone().build::<T>().err().map(|e| e.to_string())
}

fn ser(set: &Set) -> String {
    format!("{set:?}")
}

fn verify_set<S: Spec>(set: &Set, iri: bool) -> R {
    let b = set.builder();
    for &t in TARGETS {
        let e = match t {
            Target::Ref => build::<RiReferenceStr<S>>(&b),
            Target::Iri => build::<RiStr<S>>(&b),
            Target::Abs => build::<RiAbsoluteStr<S>>(&b),
            Target::Rel => build::<RiRelativeStr<S>>(&b),
        };
        let Some(e) = e else { continue };
        let needs = matches!(t, Target::Iri | Target::Abs);
        let au = set.auth;
        let alone = |a: Auth| Set { scheme: Some("s"), auth: Some(a), ..Set::default() }.expect(Target::Iri, iri).is_some();
        let truth = match e.strip_prefix("invalid IRI: ").unwrap_or("") {
            "invalid scheme" => set.scheme.map_or(needs, |s| !valid(K::Scheme, iri, s)),
            "expected an absolute IRI but got a relative IRI" => needs && set.scheme.is_none(),
            "expected a relative IRI but got an absolute IRI" => t == Target::Rel && set.scheme.is_some(),
            "unexpected fragment" => t == Target::Abs && set.fragment.is_some(),
            "invalid userinfo" => au.is_some_and(|a| !alone(Auth { user: a.user, ..Auth::default() })),
            "invalid host" => au.is_some_and(|a| !alone(Auth { host: a.host, ..Auth::default() })),
            "invalid port" => au.is_some_and(|a| !alone(Auth { port: a.port, ..Auth::default() })),
            "invalid path" => {
                // With every other component replaced by a valid one of the same presence.
                let probe = Set {
                    scheme: set.scheme.map(|_| "s"),
                    auth: au.map(|_| Auth::default()),
                    path: set.path,
                    normalize: set.normalize,
                    ..Set::default()
                };
                probe.expect(Target::Ref, iri).is_none()
            }
            "invalid query" => set.query.is_some_and(|q| !valid(K::Query, iri, q)),
            "invalid fragment" => set.fragment.is_some_and(|f| !valid(K::Fragment, iri, f)),
            _ => false,
        };
        if !truth {
            return Err(format!("building {set:?} as {t:?} (IRI: {iri}): {e:?} is not true"));
        }
    }
    Ok(())
}

const SCHEMES: &[Option<&str>] = &[None, Some("s"), Some("1"), Some("")];
const USERS: &[User] = &[User::None, User::Direct("u"), User::Direct("u@"), User::Pair("u:", None), User::Pair("u", Some("[")), User::Pair("u", Some("p"))];
const HOSTS: &[&str] = &["h", "", "[::1]", "[", "h:1", "h/", "\u{E9}", "%4"];
const PORTS: &[Port] = &[Port::None, Port::Int(80), Port::Text(""), Port::Text("a")];
const PATHS: &[&str] = &["", "/", "//", "a", "a:b", ":", "/..//a", "a/..//b", "[", "/%", "\u{E9}", "a?", "./a:b"];
const QUERIES: &[Option<&str>] = &[None, Some("q"), Some("#"), Some("\u{E000}")];
const FRAGS: &[Option<&str>] = &[None, Some("f"), Some("#"), Some("%")];

fn set_at(i: &[usize]) -> Set<'static> {
    let mut auths: Vec<Option<Auth>> = vec![None];
    for &user in USERS {
        for host in HOSTS.iter().map(|h| Host::Name(h)).chain([Host::Ip(IpAddr::from([1, 2, 3, 4]))]) {
            for &port in PORTS {
                auths.push(Some(Auth { user, host, port }));
            }
        }
    }
    Set { scheme: SCHEMES[i[0]], auth: auths[i[1]], path: PATHS[i[2]], query: QUERIES[i[3]], fragment: FRAGS[i[4]], normalize: i[5] == 1 }
}

const KS: [K; 14] = [
    K::Scheme, K::Userinfo, K::Host, K::RegName, K::Port, K::Authority, K::Path, K::Segment, K::Query, K::Fragment, K::Iri, K::AbsIri, K::RelRef, K::IriRef,
];
const TOKENS: &[&str] = &["a", "1", ":", "/", "?", "#", "@", "[", "]", "[::]", "%41", "%", "\u{E9}", "\u{E000}", "\u{FFFE}", ".", "|", "//"];
const TPL: &[&str] = &["a", "{", "}", "+", "!", ",", ":", "*", "1", "0", "%", "%41", "\u{E9}", ".", "|", "\u{FFFE}"];

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one rejected text (or refused expansion or build) at one kind, every entry point; nontrivial = rejected");
    let thorough = ctx.thorough;
    ctx.phase("token strings", || {
        strings(TOKENS, if thorough { 5 } else { 4 }, |s| {
            for k in KS {
                for iri in [true, false] {
                    check(ctx, k, iri, s, s.len() < 6 || thorough);
                }
            }
        });
    });
    ctx.phase("a character in every state", || {
        let chars = mc::spaces::chars(if thorough { 1 } else { 0 });
        let jobs: Vec<(K, bool, String, Vec<String>)> = KS
            .iter()
            .flat_map(|&k| [(k, true), (k, false)])
            .flat_map(|(k, iri)| {
                let d = dfa(k, iri);
                ctx.states(d.n as u64);
                d.access().into_iter().map(move |a| (k, iri, a, d.completions()))
            })
            .collect();
        par(jobs.len(), |j| {
            let (k, iri, acc, fin) = &jobs[j];
            let d = dfa(*k, *iri);
            let q = d.run(0, acc);
            for &c in &chars {
                ctx.transitions(1);
                let s = format!("{acc}{c}");
                check(ctx, *k, *iri, &s, true);
                check(ctx, *k, *iri, &format!("{s}{}", fin[d.step(q, c)]), false);
                check(ctx, *k, *iri, &format!("{s}{}", fin[q]), false);
            }
        });
    });
    ctx.phase("one fault in a full reference", || {
        let chars = mc::spaces::chars(if thorough { 1 } else { 0 });
        let base = "S1://u%41:p@h.x:80/a/%C3%A9;b?q=1/?#f%00/?";
        let cuts: Vec<usize> = (0..=base.len()).collect();
        par(cuts.len(), |i| {
            let (a, b) = base.split_at(cuts[i]);
            for c in &chars {
                for s in [format!("{a}{c}{b}"), format!("{a}{c}{}", b.get(1..).unwrap_or(""))] {
                    for k in [K::Iri, K::AbsIri, K::RelRef, K::IriRef] {
                        check(ctx, k, true, &s, false);
                        check(ctx, k, false, &s, true);
                    }
                    let s = s.trim_start_matches("S1:").to_string();
                    check(ctx, K::RelRef, true, &s, true);
                    check(ctx, K::IriRef, false, &s, true);
                }
            }
        });
    });
    ctx.phase("long texts", || {
        let lens = mc::gens::lens(thorough);
        par(lens.len(), |i| {
            for unit in ["a", "%41", "\u{E9}", "1", "{a}", "/"] {
                let run = unit.repeat(lens[i]);
                for bad in ["|", "%", "[", "#a#", "\u{FFFE}", "{", "}"] {
                    let s = format!("{run}{bad}");
                    for k in KS {
                        check(ctx, k, true, &s, true);
                        check(ctx, k, false, &format!("{bad}{run}"), true);
                    }
                    for p in ["s:", "//", "s:/", "?", "#", "s://u@"] {
                        for k in [K::Iri, K::AbsIri, K::RelRef, K::IriRef] {
                            check(ctx, k, true, &format!("{p}{s}"), false);
                            check(ctx, k, false, &format!("{p}{s}"), true);
                        }
                    }
                    check_template(ctx, &s);
                    check_template(ctx, &format!("{{{s}"));
                    check_template(ctx, &format!("{{{s}}}"));
                    check_template(ctx, &format!("{run}{{{bad}}}{run}"));
                }
            }
        });
    });
    ctx.phase("bytes", || {
        let t: &[u8] = &[b'a', b':', b'{', b'}', b'%', 0xC3, 0xA9, 0xE3, 0x81, 0xFF, 0xED, 0xF0, 0x90];
        for n in 1..=if thorough { 6 } else { 5 } {
            product(&vec![t.len(); n], |i| {
                let b: Vec<u8> = i.iter().map(|&x| t[x]).collect();
                if std::str::from_utf8(&b).is_err() {
                    let hex: String = b.iter().map(|x| format!("{x:02x}")).collect();
                    ctx.case(&["bytes", &hex], || verify_bytes(&b));
                }
            });
        }
    });
    ctx.phase("templates", || {
        strings(TPL, if thorough { 6 } else { 5 }, |s| check_template(ctx, s));
        let d = dfa(K::Template, false);
        let (acc, fin) = (d.access(), d.completions());
        let chars = mc::spaces::chars(1);
        par(d.n, |q| {
            for &c in &chars {
                let s = format!("{}{c}", acc[q]);
                check_template(ctx, &s);
                check_template(ctx, &format!("{s}{}", fin[q]));
                check_template(ctx, &format!("x\u{E9}{{a}}{s}{}", fin[d.step(q, c)]));
            }
        });
    });
    ctx.phase("variable names", || {
        strings(&["a", ".", "%", "4", "\u{E9}", "_", "-"], 6, |s| {
            if VarName::new(s).is_err() {
                ctx.case(&["name", s], || verify_name(s));
            }
        });
    });
    ctx.phase("expansions", || {
        let t: &[&str] = &["x", "\u{E9}", "{", "}", "+", "?", ",", "s", "l", "a", "u", "ll", "e", ":2", "*", "f"];
        lang(dfa(K::Template, false), t, if thorough { 7 } else { 6 }, |s| {
            ctx.case(&["expansion", s], || verify_expansion(ctx, s));
        });
    });
    ctx.phase("builds", || {
        let na = 1 + USERS.len() * (HOSTS.len() + 1) * PORTS.len();
        product(&[SCHEMES.len(), na, PATHS.len(), QUERIES.len(), FRAGS.len(), 2], |i| {
            let set = set_at(i);
            let case: Vec<String> = std::iter::once("set".to_string()).chain(i.iter().map(ToString::to_string)).chain([ser(&set)]).collect();
            let case: Vec<&str> = case.iter().map(String::as_str).collect();
            ctx.case(&case, || {
                verify_set::<IriSpec>(&set, true)?;
                verify_set::<UriSpec>(&set, false)
            });
        });
    });
}

fn verify_name(s: &str) -> R {
    let e = VarName::new(s).err().ok_or("accepted")?;
    let (_, at) = position(&e.to_string()).map(|(r, at)| (r.to_string(), at))?;
    let d = dfa(K::VarName, false);
    if !s.is_char_boundary(at) || !alive(d)[s[..at].chars().fold(0, |q, c| d.step(q, c))] {
        return Err(format!("variable name {s:?} is refused at {at}"));
    }
    Ok(())
}

fn replay(ctx: &Ctx, c: &[String]) -> R {
    match c[0].as_str() {
        "text" => {
            let k = K::from_name(&c[1]);
            if c[2] == "iri" {
                verify::<IriSpec>(ctx, k, true, &c[3], true)
            } else {
                verify::<UriSpec>(ctx, k, false, &c[3], true)
            }
        }
        "bytes" => {
            let b: Vec<u8> = (0..c[1].len() / 2).map(|i| u8::from_str_radix(&c[1][2 * i..2 * i + 2], 16).unwrap()).collect();
            verify_bytes(&b)
        }
        "template" => verify_template(ctx, &c[1]),
        "name" => verify_name(&c[1]),
        "expansion" => verify_expansion(ctx, &c[1]),
        _ => {
            let i: Vec<usize> = c[1..7].iter().map(|x| x.parse().unwrap()).collect();
            let set = set_at(&i);
            verify_set::<IriSpec>(&set, true)?;
            verify_set::<UriSpec>(&set, false)
        }
    }
}

fn main() {
    run("C28", "model_checking", explore, replay)
}
