//! C06: syntax-based normalization.

use iri_string::format::{ToDedicatedString, ToStringFallible};
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;
use mc::grammar::{valid, K};
use mc::report::{hash, run, Ctx};
use mc::rfc::{normalize, resolve};

type R = Result<(), String>;

fn eq(what: &str, s: &str, got: &str, want: &str) -> R {
    if got != want {
        return Err(format!("{what} of {s:?}: {got:?}, expected {want:?}"));
    }
    Ok(())
}

fn verify<S: Spec>(s: &str, iri: bool) -> R {
    let i = RiStr::<S>::new(s).map_err(|e| format!("valid IRI {s:?} rejected: {e}"))?;
    let want = normalize(s, iri, false).text();
    let keep = normalize(s, iri, true).text();
    eq("normalize", s, &i.normalize().to_string(), &want)?;
    eq("preserving normalize", s, &i.normalize_but_preserve_authorityless_relative_path().to_string(), &keep)?;
    eq("normalize to owned", s, i.normalize().to_dedicated_string().as_str(), &want)?;
    eq("owned normalize", s, i.to_owned().normalize().to_dedicated_string().as_str(), &want)?;
    eq("preserving after default", s, &i.normalize().and_normalize_but_preserve_authorityless_relative_path().to_string(), &keep)?;
    eq("default after preserving", s, &i.normalize_but_preserve_authorityless_relative_path().and_normalize().to_string(), &want)?;
    let mut n = i.normalize();
    n.enable_normalization_preserving_authorityless_relative_path();
    eq("enable preserving", s, &n.to_string(), &keep)?;
    n.enable_normalization();
    eq("enable", s, &n.to_string(), &want)?;
    for t in [&want, &keep] {
        if !valid(K::Iri, iri, t) {
            return Err(format!("model error: {s:?} normalizes to invalid {t:?}"));
        }
    }
    if let Ok(a) = RiAbsoluteStr::<S>::new(s) {
        eq("absolute normalize", s, &a.normalize().to_string(), &want)?;
        eq("absolute preserving normalize", s, &a.normalize_but_preserve_authorityless_relative_path().to_string(), &keep)?;
        eq("absolute normalize to owned", s, a.normalize().to_dedicated_string().as_str(), &want)?;
    }
    Ok(())
}

fn verify_resolve<S: Spec>(base: &str, reference: &str, iri: bool) -> R {
    let b = RiAbsoluteStr::<S>::new(base).map_err(|e| format!("valid base {base:?} rejected: {e}"))?;
    let r = RiReferenceStr::<S>::new(reference).map_err(|e| format!("valid reference {reference:?} rejected: {e}"))?;
    let plain = resolve(base, reference);
    let want = normalize(&plain.text(), iri, false).text();
    eq("resolve and normalize", reference, &r.resolve_against(b).and_normalize().to_string(), &want).map_err(|e| format!("{e} (base {base:?})"))?;
    let owned = r.resolve_against(b).and_normalize().to_dedicated_string();
    eq("resolve and normalize", reference, owned.as_str(), &want)
}

/// Every form in which a normalized value is offered.
fn verify_forms<S: Spec>(s: &str, iri: bool) -> R {
    let (want, keep) = (normalize(s, iri, false).text(), normalize(s, iri, true).text());
    macro_rules! forms {
        ($t:ident, $o:ident) => {
            if let Ok(i) = $t::<S>::new(s) {
                let o = i.to_owned();
                for (what, n, want) in [
                    ("normalize", i.normalize(), &want),
                    ("preserving", i.normalize_but_preserve_authorityless_relative_path(), &keep),
                    ("owned normalize", o.normalize(), &want),
                    ("owned preserving", o.normalize_but_preserve_authorityless_relative_path(), &keep),
                    ("then normalize", i.normalize().and_normalize(), &want),
                    ("then preserving", o.normalize().and_normalize_but_preserve_authorityless_relative_path(), &keep),
                    ("preserving, then preserving", o.normalize_but_preserve_authorityless_relative_path().and_normalize_but_preserve_authorityless_relative_path(), &keep),
                ] {
                    let what = format!("{what} ({})", stringify!($t));
                    eq(&what, s, &n.to_string(), want)?;
                    eq(&what, s, n.try_to_string().ok().as_deref().unwrap_or("no memory"), want)?;
                    eq(&what, s, &format!("{n}"), want)?;
                    eq(&what, s, $o::<S>::from(&n).as_str(), want)?;
                    eq(&what, s, n.try_to_dedicated_string().ok().as_ref().map_or("no memory", |x| x.as_str()), want)?;
                    eq(&what, s, n.to_dedicated_string().as_str(), want)?;
                    eq(&what, s, $o::<S>::from(n).as_str(), want)?;
                }
            }
        };
    }
    forms!(RiStr, RiString);
    forms!(RiAbsoluteStr, RiAbsoluteString);
    Ok(())
}

fn check(ctx: &Ctx, s: &str) {
    ctx.case(&["iri", s], || verify::<IriSpec>(s, true));
    if s.is_ascii() {
        ctx.case(&["uri", s], || verify::<UriSpec>(s, false));
    }
    let n = normalize(s, true, false).text();
    if n != s {
        ctx.nontrivial(hash(s));
    }
    ctx.outcome(hash(&n));
}

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one valid IRI normalized in every offered way, compared with the literal RFC 3986 6.2.2 / RFC 3987 5.3.2 model; nontrivial = normalization changes it");
    mc::spaces::normal(ctx, &|s| check(ctx, s));
    ctx.phase("every form of a normalized value", || {
        let t: &[&str] = &["/", "A", "..", "%7E", "%c3%a9", "\u{c9}", "?", "#", ":", "@", "[::A]"];
        mc::en::strings(t, if ctx.thorough { 6 } else { 4 }, |x| {
            let s = format!("S:{x}");
            if valid(K::Iri, true, &s) {
                ctx.case(&["iforms", &s], || verify_forms::<IriSpec>(&s, true));
                if s.is_ascii() {
                    ctx.case(&["uforms", &s], || verify_forms::<UriSpec>(&s, false));
                }
            }
        });
    });
    ctx.phase("resolve and normalize", || {
        let bases = ["s:", "S:a/b", "s:a/../..//b", "s://H:", "s:/%2e/a/", "s://h/a//%41?q%7e", "s:a/%2e%2E//x", "s:/.//x", "s:..//a"];
        let t: &[&str] = &["/", "A", "..", "%2e", "%41", "?", "#", "%c3%A9", ":"];
        mc::en::strings(t, if ctx.thorough { 7 } else { 5 }, |r| {
            if valid(K::IriRef, false, r) {
                for b in bases {
                    ctx.case(&["riri", b, r], || verify_resolve::<IriSpec>(b, r, true));
                    ctx.case(&["ruri", b, r], || verify_resolve::<UriSpec>(b, r, false));
                }
            }
        });
    });
}

fn replay(_: &Ctx, c: &[String]) -> R {
    match c[0].as_str() {
        "iri" => verify::<IriSpec>(&c[1], true),
        "uri" => verify::<UriSpec>(&c[1], false),
        "iforms" => verify_forms::<IriSpec>(&c[1], true),
        "uforms" => verify_forms::<UriSpec>(&c[1], false),
        "riri" => verify_resolve::<IriSpec>(&c[1], &c[2], true),
        _ => verify_resolve::<UriSpec>(&c[1], &c[2], false),
    }
}

fn main() {
    run("C06", "exploration", explore, replay)
}
