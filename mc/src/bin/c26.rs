//! C26: formatting parameters never corrupt what is displayed.
//!
//! Enumerated: every combination of alignment, width, precision, sign and flags within the bounds,
//! applied to every value displayed from every text. Whatever the parameters, the output is the text
//! displayed without them, either as it is or padded and truncated as a whole like any text.

use std::fmt::Display;

use iri_string::build::Builder;
use iri_string::percent_encode::PercentEncoded;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::context::{Context, VarName, Visitor};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;
use mc::builder::{Auth, Host, Port, Set, User, TARGETS};
use mc::gens;
use mc::grammar::{dfa, K};
use mc::report::{hash, par, run, Ctx};
use mc::shows;
use mc::tpl::{self, Env};

type R = Result<(), String>;

const WIDTHS: &[usize] = &[1, 2, 3, 7, 60];
const PRECISIONS: &[usize] = &[0, 1, 2, 5];

/// Displays the value with every combination of parameters, and `p` in the same way.
fn flags(d: &dyn Display, p: &str, f: &mut dyn FnMut(&dyn Display, String, String) -> R) -> R {
    macro_rules! each {
        ($($spec:literal)*) => {$(
            f(&$spec, format!($spec, d), format!($spec, p))?;
        )*};
    }
    each!("{}" "{:+}" "{:-}" "{:#}" "{:+#}");
    for &w in WIDTHS {
        macro_rules! wide {
            ($($spec:literal)*) => {$(
                f(&format_args!("{} w={w}", $spec), format!($spec, d, w = w), format!($spec, p, w = w))?;
            )*};
        }
        wide!("{:w$}" "{:<w$}" "{:^w$}" "{:*>w$}" "{:+#0w$}");
        for &n in PRECISIONS {
            macro_rules! both {
                ($($spec:literal)*) => {$(
                    f(&format_args!("{} w={w} p={n}", $spec), format!($spec, d, w = w, n = n), format!($spec, p, w = w, n = n))?;
                )*};
            }
            both!("{:w$.n$}" "{:é^w$.n$}");
        }
    }
    for &n in PRECISIONS {
        f(&format_args!("p={n}"), format!("{d:.n$}"), format!("{p:.n$}"))?;
    }
    Ok(())
}

fn value(ctx: Option<&Ctx>, name: &str, d: &dyn Display) -> R {
    if name.ends_with("debug") {
        // Derived debug output hands the parameters on to each field.
        return Ok(());
    }
    let plain = d.to_string();
    let mut n = 0;
    flags(d, &plain, &mut |how, got, whole| {
        n += 1;
        if got == plain || got == whole {
            return Ok(());
        }
        Err(format!("{name} displayed with {how}: {got:?}, not {plain:?} nor {whole:?}"))
    })?;
    if let Some(ctx) = ctx {
        ctx.states(1);
        ctx.transitions(n);
        ctx.outcome(hash(&plain));
        ctx.nontrivial(hash(name) ^ hash(&plain).rotate_left(19));
    }
    Ok(())
}

/// Values whose own output depends on the parameters.
struct Numbers;
impl Context for Numbers {
    fn visit<V: Visitor>(&self, v: V) -> V::Result {
        use iri_string::template::context::{AssocVisitor, ListVisitor};
        use std::ops::ControlFlow;
        match v.var_name().as_str() {
            "s" => v.visit_string(12),
            "e" => v.visit_string(""),
            "l" => {
                let mut l = v.visit_list();
                for x in [0, -7] {
                    if let ControlFlow::Break(r) = l.visit_item(x) {
                        return r;
                    }
                }
                l.finish()
            }
            "m" => {
                let mut m = v.visit_assoc();
                for (k, x) in [(1, 2.5), (3, 4.0)] {
                    if let ControlFlow::Break(r) = m.visit_entry(k, x) {
                        return r;
                    }
                }
                m.finish()
            }
            _ => v.visit_undefined(),
        }
    }
}

fn template<S: Spec>(ctx: Option<&Ctx>, t: &str, env: &Env) -> R {
    let c = tpl::simple(env);
    let tmpl = UriTemplateStr::new(t).map_err(|e| format!("template rejected: {e}"))?;
    value(ctx, "template", &tmpl)?;
    value(ctx, "owned template", &UriTemplateString::from(tmpl))?;
    match tmpl.expand::<S, _>(&c) {
        Ok(e) => value(ctx, "expansion", &e)?,
        Err(e) => value(ctx, "error", &e)?,
    }
    if let Ok(e) = tmpl.expand::<S, _>(&Numbers) {
        value(ctx, "expansion of numbers", &e)?;
    }
    for v in tmpl.variables() {
        if VarName::new(v.as_str()).is_err() {
            return Err(format!("variable name {v:?} rejected"));
        }
    }
    Ok(())
}

fn reference<S: Spec>(ctx: Option<&Ctx>, s: &str) -> R {
    shows::reference::<S>(s, &mut |n, d| value(ctx, n, d))?;
    if let Ok(r) = RiReferenceStr::<S>::new(s) {
        let m = r.mask_password();
        value(ctx, "replaced by a signed number", &m.replace_password(-1.5))?;
        value(ctx, "replaced by the masked IRI", &m.replace_password(r.mask_password()))?;
    }
    if let Err(e) = RiReferenceString::<S>::try_from(s.to_string()) {
        value(ctx, "owned error", &e)?;
    }
    if let Err(e) = RiAbsoluteStr::<S>::new(s) {
        value(ctx, "error", &e)?;
    }
    if let Err(e) = UriTemplateString::try_from(s.to_string()) {
        value(ctx, "template error", &e)?;
    }
    Ok(())
}

fn encoded<S: Spec>(ctx: Option<&Ctx>, s: &str) -> R {
    shows::encoded::<S>(s, &mut |n, d| value(ctx, n, d))?;
    value(ctx, "encoded number", &PercentEncoded::<_, S>::unreserve(s.len()))?;
    value(ctx, "encoded negative", &PercentEncoded::<_, S>::characters(-0.25))
}

fn auths() -> Vec<Option<Auth<'static>>> {
    let mut v = vec![None];
    let users = [
        User::None, User::Direct(""), User::Direct("u"), User::Direct("u%7e:p:q"), User::Pair("u", None), User::Pair("", Some("")),
        User::Pair("u%c3%a9", Some("p%41:")),
    ];
    let hosts = [
        Host::Name(""), Host::Name("H%41"), Host::Name("[::1A]"), Host::Ip([1, 22, 0, 255].into()),
        Host::Ip([0u16, 0, 0, 0, 0, 0, 0, 1].into()), Host::Ip([0x2001u16, 0xdb8, 1, 2, 3, 4, 5, 6].into()), Host::Ip([0u16, 0, 0, 0, 0, 0xffff, 0x102, 0x304].into()),
    ];
    for user in users {
        for host in hosts {
            for port in [Port::None, Port::Small(7), Port::Int(8080), Port::Text(""), Port::Text("0080")] {
                v.push(Some(Auth { user, host, port }));
            }
        }
    }
    v
}

fn apply<'a>(s: &Set<'a>) -> Builder<'a> {
    let mut b = Builder::new();
    if let Some(x) = s.scheme {
        b.scheme(x);
    }
    if let Some(a) = s.auth {
        match a.user {
            User::None => {}
            User::Direct(u) => b.userinfo(u),
            User::Pair(u, p) => b.userinfo((u, p)),
        }
        match a.host {
            Host::Name(h) => b.host(h),
            Host::Ip(h) => b.ip_address(h),
        }
        match a.port {
            Port::None => b.unset_port(),
            Port::Small(n) => b.port(n),
            Port::Int(n) => b.port(n),
            Port::Text(p) => b.port(p),
        }
    }
    b.path(s.path);
    if let Some(x) = s.query {
        b.query(x);
    }
    if let Some(x) = s.fragment {
        b.fragment(x);
    }
    if s.normalize {
        b.normalize();
    }
    b
}

fn built<S: Spec>(ctx: Option<&Ctx>, i: usize) -> R {
    let auths = auths();
    let (scheme, i) = ([None, Some("s"), Some("S+")][i % 3], i / 3);
    let (path, i) = (["", "/", "/a%7e/../%2e/B", "a/%c3", "/..//x"][i % 5], i / 5);
    let ((query, fragment), i) = ([(None, None), (Some(""), Some("")), (Some("q%7e"), Some("f%e3%81"))][i % 3], i / 3);
    let (normalize, i) = (i % 2 == 1, i / 2);
    let s = Set { scheme, auth: auths[i], path, query, fragment, normalize };
    let b = apply(&s);
    macro_rules! each {
        ($($t:ident)*) => {$(
            match b.clone().build::<$t<S>>() {
                Ok(x) => value(ctx, concat!(stringify!($t), " built"), &x)?,
                Err(e) => value(ctx, "error", &e)?,
            }
        )*};
    }
    debug_assert_eq!(TARGETS.len(), 4);
    each!(RiReferenceStr RiStr RiAbsoluteStr RiRelativeStr);
    Ok(())
}

fn run_case(ctx: Option<&Ctx>, c: &[&str]) -> R {
    let iri = c[1] == "iri";
    match (c[0], iri) {
        ("ref", false) => reference::<UriSpec>(ctx, c[2]),
        ("ref", true) => reference::<IriSpec>(ctx, c[2]),
        ("enc", false) => encoded::<UriSpec>(ctx, c[2]),
        ("enc", true) => encoded::<IriSpec>(ctx, c[2]),
        ("built", false) => built::<UriSpec>(ctx, c[2].parse().unwrap()),
        ("built", true) => built::<IriSpec>(ctx, c[2].parse().unwrap()),
        (_, false) => template::<UriSpec>(ctx, c[2], &tpl::from_json(c[3])),
        (_, true) => template::<IriSpec>(ctx, c[2], &tpl::from_json(c[3])),
    }
}

fn check(ctx: &Ctx, kind: &str, s: &str) {
    for spec in ["uri", "iri"] {
        if kind == "ref" && spec == "uri" && !s.is_ascii() {
            continue;
        }
        let c = [kind, spec, s];
        ctx.case(&c, || run_case(Some(ctx), &c));
    }
}

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one text or one set of builder settings with every value displayed from it; states = displayed values, transitions = formattings with one combination of parameters; every value is non-trivial (some parameters would change a plain text)");
    let t = ctx.thorough;
    ctx.phase("references: component products", || {
        gens::Refs {
            schemes: vec![None, Some("A1+")],
            auths: gens::authorities(
                &[None, Some(""), Some("u:"), Some("u:p:\u{e9}"), Some("%c3%a9:%41%2f")],
                &["", "H.x", "[::1A]", "%41\u{e9}"],
                &[None, Some(""), Some("80")],
            ),
            paths: gens::paths(&["/", "a", "..", "%2e", "\u{E9}", "%61"], if t { 3 } else { 2 }, true),
            queries: vec![None, Some("q\u{E000}%7e")],
            frags: vec![None, Some("f/%e3%81%82\u{3042}")],
        }
        .each(|s| check(ctx, "ref", s));
    });
    ctx.phase("references: token strings", || {
        let toks = ["a", ":", "/", "?", "#", "@", "..", "%2E", "%41", "\u{e9}", "[::1A]"];
        mc::en::lang(dfa(K::IriRef, true), &toks, if t { 6 } else { 4 }, |s| check(ctx, "ref", s));
        // Texts that are rejected: their errors are displayed.
        mc::en::strings(&["%", "[", "{", "a:", "//"], 3, |s| check(ctx, "ref", s));
    });
    ctx.phase("references: characters in every component", || mc::spaces::each_char(if t { 1 } else { 0 }, &|s| check(ctx, "ref", s)));
    ctx.phase("references: long components", || gens::long_refs(if t { &[9, 59, 60, 61, 129] } else { &[17, 59, 61] }, |s| check(ctx, "ref", s)));
    ctx.phase("built values", || {
        par(auths().len() * 3 * 5 * 3 * 2, |i| check(ctx, "built", &i.to_string()));
    });
    ctx.phase("encoded texts", || {
        let toks = ["a", "%", "/", "\u{e9}", "\u{10FFFF}", "%41", " ", "~"];
        mc::en::strings(&toks, if t { 6 } else { 4 }, |s| check(ctx, "enc", s));
    });
    ctx.phase("references: triplet sequences", || gens::triplet_refs(t, |s| check(ctx, "ref", s)));
    ctx.phase("encoded texts: triplet sequences", || gens::triplets(t, |s| check(ctx, "enc", s)));
    let e = tpl::env(&[
        ("s", tpl::s("x\u{e9}%41/%")),
        ("e", tpl::s("")),
        ("l", tpl::l(&["p%", "", "q"])),
        ("m", tpl::m(&[("k", "\u{e9}"), ("", "")])),
    ]);
    let j = tpl::to_json(&e);
    let tcheck = |x: &str| {
        for spec in ["uri", "iri"] {
            let c = ["tpl", spec, x, &j];
            ctx.case(&c, || run_case(Some(ctx), &c));
        }
    };
    ctx.phase("templates", || {
        let ops = ["", "+", "#", ".", "/", ";", "?", "&"];
        let specs = ["s", "s:2", "s*", "e", "l", "l*", "l:1", "m", "m*", "u"];
        for n in 1..=if t { 4 } else { 3 } {
            let mut sizes = vec![specs.len(); n];
            sizes.push(ops.len());
            mc::en::product(&sizes, |i| {
                let list: Vec<&str> = i[..n].iter().map(|&k| specs[k]).collect();
                tcheck(&format!("{{{}{}}}", ops[i[n]], list.join(",")));
            });
        }
        let parts = ["{s}", "{e}", "{+s:3}", "{?m*,e}", "{#l*}", "x", "\u{e9}y", "%41", "{u}"];
        mc::en::strings(&parts, if t { 4 } else { 3 }, |x| tcheck(x));
    });
    ctx.assume("parameters: 5 widths, 4 precisions, 3 alignments, fill, sign, zero and alternate flags; derived debug output is left out");
}

fn replay(_: &Ctx, c: &[String]) -> R {
    run_case(None, &c.iter().map(String::as_str).collect::<Vec<_>>())
}

fn main() {
    run("C26", "exploration", explore, replay)
}
