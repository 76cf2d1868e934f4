//! C02: the component getters are the generic-syntax decomposition, and recompose to the input.

use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;
use mc::gens;
use mc::grammar::{dfa, valid, K};
use mc::report::{hash, run, Ctx};
use mc::rfc::{recompose, split, Parts};

fn cmp(what: &str, s: &str, got: Parts<'_>, want: Parts<'_>) -> Result<(), String> {
    if got != want {
        return Err(format!("{what} of {s:?}: getters give {got:?}, expected {want:?}"));
    }
    let r = recompose(got.scheme, got.authority, got.path, got.query, got.fragment);
    if r != s {
        return Err(format!("{what} of {s:?}: components recompose to {r:?}"));
    }
    Ok(())
}

fn typed<'a>(what: &str, s: &str, a: Option<&'a str>, b: Option<&'a str>) -> Result<Option<&'a str>, String> {
    if a != b {
        return Err(format!("{what} of {s:?}: typed getter gives {a:?}, string getter gives {b:?}"));
    }
    Ok(b)
}

fn verify<S: Spec>(s: &str, iri: bool) -> Result<(), String> {
    let want = split(s);
    let r = RiReferenceStr::<S>::new(s).map_err(|e| format!("valid reference {s:?} rejected: {e}"))?;
    let owned = r.to_owned();
    for r in [r, &*owned] {
        cmp("reference", s, Parts {
            scheme: r.scheme_str(),
            authority: r.authority_str(),
            path: r.path_str(),
            query: typed("query", s, r.query().map(|x| x.as_str()), r.query_str())?,
            fragment: typed("fragment", s, r.fragment().map(|x| x.as_str()), r.fragment_str())?,
        }, want)?;
    }
    if want.scheme.is_some() {
        let r = RiStr::<S>::new(s).map_err(|e| format!("valid IRI {s:?} rejected: {e}"))?;
        cmp("IRI", s, Parts {
            scheme: Some(r.scheme_str()),
            authority: r.authority_str(),
            path: r.path_str(),
            query: typed("query", s, r.query().map(|x| x.as_str()), r.query_str())?,
            fragment: typed("fragment", s, r.fragment().map(|x| x.as_str()), r.fragment_str())?,
        }, want)?;
        if want.fragment.is_none() {
            let r = RiAbsoluteStr::<S>::new(s).map_err(|e| format!("valid absolute IRI {s:?} rejected: {e}"))?;
            cmp("absolute IRI", s, Parts {
                scheme: Some(r.scheme_str()),
                authority: r.authority_str(),
                path: r.path_str(),
                query: typed("query", s, r.query().map(|x| x.as_str()), r.query_str())?,
                fragment: None,
            }, want)?;
            let f = FixedBaseResolver::new(r);
            if f.base() != r {
                return Err(format!("resolver base of {s:?} is {:?}", f.base()));
            }
            cmp("resolver base", s, Parts {
                scheme: Some(f.scheme_str()),
                authority: f.authority_str(),
                path: f.path_str(),
                query: typed("query", s, f.query().map(|x| x.as_str()), f.query_str())?,
                fragment: None,
            }, want)?;
        }
    } else {
        let r = RiRelativeStr::<S>::new(s).map_err(|e| format!("valid relative reference {s:?} rejected: {e}"))?;
        cmp("relative reference", s, Parts {
            scheme: None,
            authority: r.authority_str(),
            path: r.path_str(),
            query: typed("query", s, r.query().map(|x| x.as_str()), r.query_str())?,
            fragment: typed("fragment", s, r.fragment().map(|x| x.as_str()), r.fragment_str())?,
        }, want)?;
    }
    // The component values must be valid component values, too.
    for (k, v) in [(K::Scheme, want.scheme), (K::Authority, want.authority), (K::Path, Some(want.path)),
                   (K::Query, want.query), (K::Fragment, want.fragment)] {
        if v.is_some_and(|v| !valid(k, iri, v)) {
            return Err(format!("model error: component {k:?} of {s:?} is not valid"));
        }
    }
    Ok(())
}

fn check(ctx: &Ctx, s: &str) {
    if valid(K::IriRef, true, s) {
        ctx.case(&["iri", s], || verify::<IriSpec>(s, true));
        let p = split(s);
        ctx.outcome(hash(&format!("{:?}{:?}{:?}{:?}{:?}", p.scheme.map(str::len), p.authority.map(str::len), p.path.len(), p.query.map(str::len), p.fragment.map(str::len))));
        if s.len() > 1 {
            ctx.nontrivial(hash(s));
        }
    }
    if s.is_ascii() && valid(K::IriRef, false, s) {
        ctx.case(&["uri", s], || verify::<UriSpec>(s, false));
    }
}

const TOKENS: &[&str] = &["a", ":", "/", "?", "#", "@", ".", "\u{E9}", "%2F", "[::]"];

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one valid reference, all getters of every type that accepts it compared with the Appendix B decomposition; nontrivial = longer than one byte");
    let max = if ctx.thorough { 9 } else { 7 };
    ctx.phase("token strings", || {
        let n = mc::en::lang(dfa(K::IriRef, true), TOKENS, max, |s| check(ctx, s));
        ctx.count("prefixes visited", n);
    });
    let refs = gens::full_refs(if ctx.thorough { 3 } else { 2 });
    ctx.phase("component products", || refs.each(|s| check(ctx, s)));
    ctx.phase("characters in every component", || mc::spaces::each_char(if ctx.thorough { 2 } else { 1 }, &|s| check(ctx, s)));
    let lens = gens::lens(ctx.thorough);
    ctx.phase("long components", || gens::long_refs(&lens, |s| check(ctx, s)));
}

fn replay(_: &Ctx, c: &[String]) -> Result<(), String> {
    if c[0] == "iri" {
        verify::<IriSpec>(&c[1], true)
    } else {
        verify::<UriSpec>(&c[1], false)
    }
}

fn main() {
    run("C02", "exploration", explore, replay)
}
