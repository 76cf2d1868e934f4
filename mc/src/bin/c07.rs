//! C07: idempotence of normalization and exactness of the normalizedness predicates.

use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;
use mc::report::{hash, run, Ctx};
use mc::rfc::normalize;

type R = Result<(), String>;

fn flag(what: &str, s: &str, got: bool, want: bool) -> R {
    if got != want {
        return Err(format!("{what} of {s:?}: {got}, expected {want}"));
    }
    Ok(())
}

/// All predicates of one IRI against the library's own normalizer and the reference model.
fn predicates<S: Spec>(s: &str, iri: bool) -> Result<(String, String), String> {
    let i = RiStr::<S>::new(s).map_err(|e| format!("IRI {s:?} rejected: {e}"))?;
    let m = normalize(s, iri, false);
    let k = normalize(s, iri, true);
    let n = i.normalize().to_string();
    let p = i.normalize_but_preserve_authorityless_relative_path().to_string();
    flag("is_normalized", s, i.is_normalized(), n == s)?;
    flag("is_normalized (model)", s, i.is_normalized(), m.text() == s)?;
    let strict = m.text() == s && !m.escapes();
    flag("is_normalized_rfc3986", s, i.is_normalized_rfc3986(), strict)?;
    flag("is_normalized_but_authorityless_relative_path_preserved", s, i.is_normalized_but_authorityless_relative_path_preserved(), p == s)?;
    flag("preserving predicate (model)", s, p == s, k.text() == s)?;
    let o = i.to_owned();
    flag("owned is_normalized", s, o.is_normalized(), n == s)?;
    if let Ok(a) = RiAbsoluteStr::<S>::new(s) {
        flag("absolute is_normalized", s, a.is_normalized(), n == s)?;
        flag("absolute is_normalized_rfc3986", s, a.is_normalized_rfc3986(), strict)?;
        flag("absolute preserving predicate", s, a.is_normalized_but_authorityless_relative_path_preserved(), p == s)?;
    }
    Ok((n, p))
}

fn verify<S: Spec>(s: &str, iri: bool) -> R {
    let (n, p) = predicates::<S>(s, iri)?;
    let (nn, _) = predicates::<S>(&n, iri).map_err(|e| format!("after normalizing {s:?}: {e}"))?;
    if nn != n {
        return Err(format!("normalizing {s:?} gives {n:?}, normalizing that gives {nn:?}"));
    }
    let (_, pp) = predicates::<S>(&p, iri).map_err(|e| format!("after normalizing {s:?}: {e}"))?;
    if pp != p {
        return Err(format!("preserving normalization of {s:?} gives {p:?}, and then {pp:?}"));
    }
    Ok(())
}

fn check(ctx: &Ctx, s: &str) {
    ctx.case(&["iri", s], || verify::<IriSpec>(s, true));
    if s.is_ascii() {
        ctx.case(&["uri", s], || verify::<UriSpec>(s, false));
    }
    let n = normalize(s, true, false).text();
    if n == s {
        ctx.nontrivial(hash(s));
    }
    ctx.outcome(hash(&n));
}

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one valid IRI: all predicates on it and on its normal forms, and normalizing the normal forms; nontrivial = it is already normalized");
    mc::spaces::normal(ctx, &|s| check(ctx, s));
}

fn replay(_: &Ctx, c: &[String]) -> R {
    if c[0] == "iri" {
        verify::<IriSpec>(&c[1], true)
    } else {
        verify::<UriSpec>(&c[1], false)
    }
}

fn main() {
    run("C07", "exploration", explore, replay)
}
