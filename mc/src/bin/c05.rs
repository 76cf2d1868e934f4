//! C05: reference resolution.

use iri_string::format::ToDedicatedString;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;
use mc::grammar::{valid, K};
use mc::report::{hash, run, Ctx};
use mc::rfc::{resolve, split};

fn verify<S: Spec>(base: &str, reference: &str, iri: bool) -> Result<(), String> {
    let b = RiAbsoluteStr::<S>::new(base).map_err(|e| format!("valid base {base:?} rejected: {e}"))?;
    let r = RiReferenceStr::<S>::new(reference).map_err(|e| format!("valid reference {reference:?} rejected: {e}"))?;
    let model = resolve(base, reference);
    let want = model.text();
    let resolver = FixedBaseResolver::new(b);
    let got = resolver.resolve(r).to_string();
    if got != want {
        return Err(format!("{reference:?} against {base:?}: {got:?}, expected {want:?}"));
    }
    if !valid(K::Iri, iri, &got) {
        return Err(format!("{reference:?} against {base:?}: {got:?} is not a valid IRI"));
    }
    let p = split(&got);
    let path = if model.escapes() { format!("/.{}", model.path) } else { model.path.clone() };
    if p.path != path || p.authority != model.authority.as_deref() || p.query != model.query.as_deref() || p.fragment != model.fragment.as_deref() {
        return Err(format!("{reference:?} against {base:?}: {got:?} does not re-parse to the resolved components"));
    }
    let other = |what: &str, t: &str| if t == want { Ok(()) } else { Err(format!("{what}: {reference:?} against {base:?}: {t:?}, expected {want:?}")) };
    other("resolve_against", &r.resolve_against(b).to_string())?;
    let owned: RiString<S> = r.resolve_against(b).to_dedicated_string();
    other("to_dedicated_string", owned.as_str())?;
    other("From<Normalized>", RiString::<S>::from(&resolver.resolve(r)).as_str())?;
    if let Ok(r) = RiRelativeStr::<S>::new(reference) {
        other("relative resolve_against", &r.resolve_against(b).to_string())?;
    } else if let Ok(r) = RiStr::<S>::new(reference) {
        other("absolute reference", &resolver.resolve(r.as_ref()).to_string())?;
    }
    Ok(())
}

fn check(ctx: &Ctx, base: &str, reference: &str) {
    ctx.case(&["iri", base, reference], || verify::<IriSpec>(base, reference, true));
    if base.is_ascii() && reference.is_ascii() && valid(K::AbsIri, false, base) && valid(K::IriRef, false, reference) {
        ctx.case(&["uri", base, reference], || verify::<UriSpec>(base, reference, false));
    }
    if split(reference).scheme.is_none() {
        ctx.nontrivial(hash(base) ^ hash(reference).rotate_left(17));
    }
    ctx.outcome(hash(reference) ^ hash(base));
}

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one valid (base, reference) pair resolved in every offered way, compared with the literal RFC 3986 5.2 algorithm; nontrivial = the reference is relative");
    mc::spaces::pairs(ctx, &|b, r| check(ctx, b, r));
    ctx.phase("characters in every component", || {
        mc::spaces::each_char(if ctx.thorough { 2 } else { 1 }, &|s| {
            for b in ["s:", "S://h/a/b?q", "s:a/..//b"] {
                check(ctx, b, s);
            }
            if valid(K::AbsIri, true, s) {
                for r in ["", "?q", "..", "//h", "x/./y#f"] {
                    check(ctx, s, r);
                }
            }
        });
    });
    ctx.phase("absolute references", || {
        mc::spaces::dotted(ctx.thorough, &|r| check(ctx, "x://y/z?q", r));
    });
    ctx.phase("relative references", || {
        // The same paths as a relative reference over a base with a path.
        mc::en::strings(&["/", "a", ".", "..", "%2e", "?", "#", ":"], if ctx.thorough { 8 } else { 6 }, |r| {
            if valid(K::IriRef, false, r) {
                for b in ["s:", "s:a/b", "s://h", "s:/a/b?q", "s://h/a//b"] {
                    check(ctx, b, r);
                }
            }
        });
    });
}

fn replay(_: &Ctx, c: &[String]) -> Result<(), String> {
    if c[0] == "iri" {
        verify::<IriSpec>(&c[1], &c[2], true)
    } else {
        verify::<UriSpec>(&c[1], &c[2], false)
    }
}

fn main() {
    run("C05", "exploration", explore, replay)
}
