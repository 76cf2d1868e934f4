//! C08: RFC 3986 normalizability.

use iri_string::build::Builder;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;
use mc::grammar::{valid, K};
use mc::report::{hash, run, Ctx};
use mc::rfc::{normalize, recompose, resolve, split, Owned};

type R = Result<(), String>;

/// `ok` is the library's answer, `text` the produced string.
fn judge(what: &str, m: &Owned, ok: bool, text: &str) -> R {
    if ok == m.escapes() {
        return Err(format!("{what}: reported {}, but the result {}", if ok { "normalizable" } else { "not normalizable" },
            if ok { "has no RFC 3986 form" } else { "has one" }));
    }
    let plain = recompose(Some(&m.scheme), m.authority.as_deref(), &m.path, m.query.as_deref(), m.fragment.as_deref());
    if ok != (text == plain) {
        return Err(format!("{what}: produced {text:?}, plain RFC 3986 result {plain:?}, reported normalizable: {ok}"));
    }
    Ok(())
}

fn verify<S: Spec>(s: &str, iri: bool) -> R {
    let i = RiStr::<S>::new(s).map_err(|e| format!("valid IRI {s:?} rejected: {e}"))?;
    let m = normalize(s, iri, false);
    let n = i.normalize();
    judge(&format!("{s:?}"), &m, i.ensure_rfc3986_normalizable().is_ok(), &n.to_string())?;
    judge(&format!("normalizing {s:?}"), &m, n.ensure_rfc3986_normalizable().is_ok(), &n.to_string())?;
    if let Ok(a) = RiAbsoluteStr::<S>::new(s) {
        let n = a.normalize();
        judge(&format!("absolute {s:?}"), &m, a.ensure_rfc3986_normalizable().is_ok(), &n.to_string())?;
        judge(&format!("normalizing absolute {s:?}"), &m, n.ensure_rfc3986_normalizable().is_ok(), &n.to_string())?;
    }
    let p = split(s);
    if p.authority.is_some() || p.path.starts_with('/') {
        // The preserving mode removes dot segments from such paths as well.
        let n = i.normalize_but_preserve_authorityless_relative_path();
        judge(&format!("preserving {s:?}"), &m, n.ensure_rfc3986_normalizable().is_ok(), &n.to_string())?;
    }
    // A built IRI with normalization.
    let mut b = Builder::from(i);
    b.normalize();
    let built = b.build::<RiStr<S>>().map_err(|e| format!("cannot rebuild {s:?}: {e}"))?;
    judge(&format!("building {s:?}"), &m, built.ensure_rfc3986_normalizable().is_ok(), &built.to_string())?;
    let built = b_ref::<S>(i).map_err(|e| format!("cannot rebuild {s:?}: {e}"))?;
    judge(&format!("building reference {s:?}"), &m, built.1, &built.0)?;
    Ok(())
}

fn b_ref<S: Spec>(i: &RiStr<S>) -> Result<(String, bool), String> {
    let mut b = Builder::from(i);
    b.normalize();
    let built = b.build::<RiReferenceStr<S>>().map_err(|e| e.to_string())?;
    Ok((built.to_string(), built.ensure_rfc3986_normalizable().is_ok()))
}

fn verify_pair<S: Spec>(base: &str, reference: &str, iri: bool) -> R {
    let b = RiAbsoluteStr::<S>::new(base).map_err(|e| format!("valid base {base:?} rejected: {e}"))?;
    let r = RiReferenceStr::<S>::new(reference).map_err(|e| format!("valid reference {reference:?} rejected: {e}"))?;
    let m = resolve(base, reference);
    let n = FixedBaseResolver::new(b).resolve(r);
    judge(&format!("resolving {reference:?} against {base:?}"), &m, n.ensure_rfc3986_normalizable().is_ok(), &n.to_string())?;
    let mut full = normalize(&m.text(), iri, false);
    if m.escapes() {
        // The plain result of the whole operation is that of the plain resolution result.
        full.removed = true;
    }
    let n = n.and_normalize();
    judge(&format!("resolving and normalizing {reference:?} against {base:?}"), &full, n.ensure_rfc3986_normalizable().is_ok(), &n.to_string())
}

/// A built reference without a scheme.
fn verify_rel<S: Spec>(s: &str, iri: bool) -> R {
    let r = RiRelativeStr::<S>::new(s).map_err(|e| format!("valid relative reference {s:?} rejected: {e}"))?;
    let p = split(s);
    let removes = p.authority.is_none() && p.path.starts_with('/');
    let m = normalize(&format!("x:{s}"), iri, false);
    let bad = removes && m.escapes();
    for norm in [false, true] {
        let mut b = Builder::from(r);
        if norm {
            b.normalize();
        }
        let x = b.clone().build::<RiRelativeStr<S>>().map_err(|e| format!("cannot rebuild {s:?}: {e}"))?;
        let y = b.build::<RiReferenceStr<S>>().map_err(|e| format!("cannot rebuild {s:?}: {e}"))?;
        for (ok, text) in [(x.ensure_rfc3986_normalizable().is_ok(), x.to_string()), (y.ensure_rfc3986_normalizable().is_ok(), y.to_string())] {
            if ok == bad {
                return Err(format!("building {s:?} (normalized: {norm}): reported normalizable: {ok}"));
            }
            if norm && removes && bad != text.starts_with("/.//") {
                return Err(format!("building {s:?} normalized: {text:?}"));
            }
        }
    }
    Ok(())
}

fn check_rel(ctx: &Ctx, s: &str) {
    ctx.case(&["irel", s], || verify_rel::<IriSpec>(s, true));
    if s.is_ascii() {
        ctx.case(&["urel", s], || verify_rel::<UriSpec>(s, false));
    }
    ctx.nontrivial(hash(s));
}

fn check(ctx: &Ctx, s: &str) {
    ctx.case(&["iri", s], || verify::<IriSpec>(s, true));
    if s.is_ascii() {
        ctx.case(&["uri", s], || verify::<UriSpec>(s, false));
    }
    let m = normalize(s, true, false);
    if m.authority.is_none() {
        ctx.nontrivial(hash(s));
        ctx.outcome(hash(&m.path));
    }
}

fn check_pair(ctx: &Ctx, b: &str, r: &str) {
    ctx.case(&["riri", b, r], || verify_pair::<IriSpec>(b, r, true));
    if b.is_ascii() && r.is_ascii() && valid(K::AbsIri, false, b) && valid(K::IriRef, false, r) {
        ctx.case(&["ruri", b, r], || verify_pair::<UriSpec>(b, r, false));
    }
    if split(b).authority.is_none() {
        ctx.nontrivial(hash(b) ^ hash(r).rotate_left(17));
    }
}

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one valid IRI or (base, reference) pair, every normalizability query on it against the model; nontrivial = no authority");
    ctx.phase("dot segments", || mc::spaces::dotted(ctx.thorough, &|s| check(ctx, s)));
    ctx.phase("slashes and dots", || {
        mc::en::strings(&["/", "a", "..", ".", "%2E", "%2f", "?", "#"], if ctx.thorough { 8 } else { 6 }, |p| {
            for pre in ["s:", "s:/", "s:/..", "s://"] {
                let t = format!("{pre}{p}");
                if valid(K::Iri, false, &t) {
                    check(ctx, &t);
                }
            }
        });
    });
    ctx.phase("relative references", || {
        mc::en::strings(&["/", "a", "..", ".", "%2E", "?", "#"], if ctx.thorough { 9 } else { 6 }, |p| {
            for pre in ["", "/", "//"] {
                let t = format!("{pre}{p}");
                if valid(K::RelRef, true, &t) {
                    check_rel(ctx, &t);
                }
            }
        });
    });
    ctx.phase("every kind of character", || {
        let chars = mc::spaces::chars(if ctx.thorough { 2 } else { 1 });
        mc::report::par(64, |k| {
            for &c in chars.iter().skip(k).step_by(64) {
                for t in [
                    format!("s:/{c}/..//b"),
                    format!("s:{c}/..//b"),
                    format!("s:/..//{c}"),
                    format!("s:/{c}/.{c}/../..//?{c}"),
                    format!("s://{c}/..//b"),
                    format!("s:/.//{c}#{c}"),
                ] {
                    if valid(K::Iri, true, &t) {
                        check(ctx, &t);
                    }
                }
            }
        });
    });
    ctx.phase("many segments", || {
        mc::spaces::long_dotted(ctx.thorough, &["s:", "s:/", "s://h/", "s:a/"], &|s| {
            if valid(K::Iri, true, s) {
                check(ctx, s);
            }
        });
        mc::spaces::long_dotted(ctx.thorough, &["", "/", "//h/", "a/"], &|s| {
            if valid(K::RelRef, true, s) {
                check_rel(ctx, s);
            }
        });
    });
    mc::spaces::pairs(ctx, &|b, r| check_pair(ctx, b, r));
    ctx.phase("inherited base paths", || {
        mc::en::strings(&["/", "a", "..", ".", "%2e"], if ctx.thorough { 7 } else { 6 }, |p| {
            for pre in ["s:", "s://h"] {
                let b = format!("{pre}{p}");
                if valid(K::AbsIri, false, &b) {
                    for r in ["", "?", "#f", "?q#"] {
                        check_pair(ctx, &b, r);
                    }
                }
            }
        });
    });
}

fn replay(_: &Ctx, c: &[String]) -> R {
    match c[0].as_str() {
        "iri" => verify::<IriSpec>(&c[1], true),
        "uri" => verify::<UriSpec>(&c[1], false),
        "irel" => verify_rel::<IriSpec>(&c[1], true),
        "urel" => verify_rel::<UriSpec>(&c[1], false),
        "riri" => verify_pair::<IriSpec>(&c[1], &c[2], true),
        _ => verify_pair::<UriSpec>(&c[1], &c[2], false),
    }
}

fn main() {
    run("C08", "exploration", explore, replay)
}
