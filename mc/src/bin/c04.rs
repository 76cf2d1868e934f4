//! C04: every conversion edge between the string types, from every text.

use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;
use mc::gens;
use mc::grammar::{dfa, valid, K};
use mc::report::{hash, run, Ctx};
use mc::rfc::split;
use std::borrow::Cow;
use std::rc::Rc;
use std::sync::Arc;

type R = Result<(), String>;

fn eq(what: &str, got: Option<&str>, want: Option<&str>) -> R {
    if got != want {
        return Err(format!("{what}: got {got:?}, expected {want:?}"));
    }
    Ok(())
}

/// Conversions every pair (borrowed, owned) of the same syntax offers.
macro_rules! same {
    ($b:ident, $o:ident, $S:ty, $s:expr) => {{
        let s: &str = $s;
        let b = <$b<$S>>::new(s).map_err(|e| format!("{} rejects valid {s:?}: {e}", stringify!($b)))?;
        let n = stringify!($b);
        eq(n, Some(AsRef::<str>::as_ref(b)), Some(s))?;
        eq(n, Some(<&str>::from(b)), Some(s))?;
        eq(n, Some(AsRef::<$b<$S>>::as_ref(b).as_str()), Some(s))?;
        let o: $o<$S> = b.to_owned();
        eq(n, Some(o.as_str()), Some(s))?;
        eq(n, Some(o.as_slice().as_str()), Some(s))?;
        eq(n, Some(AsRef::<$b<$S>>::as_ref(&o).as_str()), Some(s))?;
        eq(n, Some(AsRef::<str>::as_ref(&o)), Some(s))?;
        eq(n, Some($o::<$S>::from(b).as_str()), Some(s))?;
        let x: Box<$b<$S>> = b.into();
        eq(n, Some(x.as_str()), Some(s))?;
        let x: Rc<$b<$S>> = b.into();
        eq(n, Some(x.clone().as_str()), Some(s))?;
        let x: Arc<$b<$S>> = b.into();
        eq(n, Some(x.clone().as_str()), Some(s))?;
        let x: Cow<'_, $b<$S>> = b.into();
        eq(n, Some(x.as_str()), Some(s))?;
        eq(n, Some(x.into_owned().as_str()), Some(s))?;
        let x: Cow<'_, $b<$S>> = o.clone().into();
        eq(n, Some(x.as_str()), Some(s))?;
        let x: Box<$b<$S>> = o.clone().into();
        eq(n, Some(x.as_str()), Some(s))?;
        let mut y = o.clone();
        y.shrink_to_fit();
        eq(n, Some(y.as_str()), Some(s))?;
        let x: String = o.into();
        eq(n, Some(&x), Some(s))?;
        // SAFETY: just validated.
        eq(n, Some(unsafe { $b::<$S>::new_unchecked(s) }.as_str()), Some(s))?;
        // SAFETY: just validated.
        eq(n, Some(unsafe { $o::<$S>::new_unchecked(x) }.as_str()), Some(s))?;
        eq(n, Some(&b.len().to_string()), Some(&s.len().to_string()))?;
        eq(n, Some(&b.is_empty().to_string()), Some(&s.is_empty().to_string()))?;
    }};
}

/// Widening from `$f` to `$t` (always possible) and narrowing back (when valid).
macro_rules! edge {
    ($f:ident, $fo:ident, $t:ident, $to:ident, $S:ty, $s:expr, $narrow:expr) => {{
        let s: &str = $s;
        let n = concat!(stringify!($f), " -> ", stringify!($t));
        let m = concat!(stringify!($t), " -> ", stringify!($f));
        if $narrow {
            let f = <$f<$S>>::new(s).map_err(|e| format!("{} rejects valid {s:?}: {e}", stringify!($f)))?;
            eq(n, Some(AsRef::<$t<$S>>::as_ref(f).as_str()), Some(s))?;
            eq(n, Some(<&$t<$S>>::from(f).as_str()), Some(s))?;
            let fo = f.to_owned();
            eq(n, Some(AsRef::<$t<$S>>::as_ref(&fo).as_str()), Some(s))?;
            eq(n, Some($to::<$S>::from(fo).as_str()), Some(s))?;
        }
        if let Ok(t) = <$t<$S>>::new(s) {
            let want = if $narrow { Some(s) } else { None };
            eq(m, <&$f<$S>>::try_from(t).ok().map(|x| x.as_str()), want)?;
            match $fo::<$S>::try_from(t.to_owned()) {
                Ok(x) => eq(m, Some(x.as_str()), want)?,
                Err(e) => {
                    eq(m, None, want)?;
                    eq("returned source", Some(e.into_source().as_str()), Some(s))?;
                }
            }
        }
    }};
}

fn verify<S: Spec>(s: &str, iri: bool) -> R {
    let p = split(s);
    let has_scheme = p.scheme.is_some();
    let absolute = has_scheme && p.fragment.is_none();
    same!(RiReferenceStr, RiReferenceString, S, s);
    if has_scheme {
        same!(RiStr, RiString, S, s);
    } else {
        same!(RiRelativeStr, RiRelativeString, S, s);
    }
    if absolute {
        same!(RiAbsoluteStr, RiAbsoluteString, S, s);
    }
    edge!(RiStr, RiString, RiReferenceStr, RiReferenceString, S, s, has_scheme);
    edge!(RiRelativeStr, RiRelativeString, RiReferenceStr, RiReferenceString, S, s, !has_scheme);
    edge!(RiAbsoluteStr, RiAbsoluteString, RiReferenceStr, RiReferenceString, S, s, absolute);
    edge!(RiAbsoluteStr, RiAbsoluteString, RiStr, RiString, S, s, absolute);

    let r = RiReferenceStr::<S>::new(s).unwrap();
    let (y, n) = if has_scheme { (Some(s), None) } else { (None, Some(s)) };
    let side = |r: Result<&str, &str>, y, n| {
        eq("to_iri etc.", r.ok(), y)?;
        eq("to_iri etc.", r.err(), n)
    };
    side(r.to_iri().map(|x| x.as_str()).map_err(|x| x.as_str()), y, n)?;
    side(r.to_relative_iri().map(|x| x.as_str()).map_err(|x| x.as_str()), n, y)?;
    side(r.to_owned().into_iri().as_ref().map(|x| x.as_str()).map_err(|x| x.as_str()), y, n)?;
    side(r.to_owned().into_relative_iri().as_ref().map(|x| x.as_str()).map_err(|x| x.as_str()), n, y)?;

    // Fragments.
    let body = &s[..p.fragment.map_or(s.len(), |f| s.len() - f.len() - 1)];
    if has_scheme {
        let i = RiStr::<S>::new(s).unwrap();
        let (a, f) = i.to_absolute_and_fragment();
        eq("to_absolute_and_fragment", Some(a.as_str()), Some(body))?;
        eq("to_absolute_and_fragment", f.map(|x| x.as_str()), p.fragment)?;
        eq("to_absolute", Some(i.to_absolute().as_str()), Some(body))?;
        let (a, f) = i.to_owned().into_absolute_and_fragment();
        eq("into_absolute_and_fragment", Some(a.as_str()), Some(body))?;
        eq("into_absolute_and_fragment", f.as_ref().map(|x| x.as_str()), p.fragment)?;
        eq("into_absolute", Some(i.to_owned().into_absolute().as_str()), Some(body))?;
        if !valid(K::AbsIri, iri, a.as_str()) || f.is_some_and(|f| !valid(K::Fragment, iri, f.as_str())) {
            return Err("the parts of the fragment split are not valid".into());
        }
    }
    for f in [None, Some(""), Some("x"), Some("%41/?:@")] {
        let frag = f.map(|f| RiFragmentStr::<S>::new(f).unwrap());
        let mut want = body.to_string();
        if let Some(f) = f {
            want.push('#');
            want.push_str(f);
        }
        let mut o = r.to_owned();
        o.set_fragment(frag);
        eq("set_fragment", Some(o.as_str()), Some(&want))?;
        if has_scheme {
            let mut o = RiStr::<S>::new(s).unwrap().to_owned();
            o.set_fragment(frag);
            eq("set_fragment", Some(o.as_str()), Some(&want))?;
        } else {
            let mut o = RiRelativeStr::<S>::new(s).unwrap().to_owned();
            o.set_fragment(frag);
            eq("set_fragment", Some(o.as_str()), Some(&want))?;
        }
        if !valid(K::IriRef, iri, &want) {
            return Err(format!("model error: {want:?}"));
        }
    }
    Ok(())
}

/// URI <-> IRI.
macro_rules! cross {
    ($u:ident, $uo:ident, $i:ident, $io:ident, $s:expr) => {{
        let s: &str = $s;
        let n = concat!(stringify!($i), " / ", stringify!($u));
        if let Ok(i) = <$i>::new(s) {
            let want = if s.is_ascii() { Some(s) } else { None };
            eq(n, i.as_uri().map(|x| x.as_str()), want)?;
            match i.to_owned().try_into_uri() {
                Ok(x) => eq(n, Some(x.as_str()), want)?,
                Err(x) => {
                    eq(n, None, want)?;
                    eq(n, Some(x.as_str()), Some(s))?;
                }
            }
            eq(n, <$u>::new(s).ok().map(|x| x.as_str()), want)?;
        }
        if let Ok(u) = <$u>::new(s) {
            eq(n, Some(AsRef::<$i>::as_ref(u).as_str()), Some(s))?;
            eq(n, Some(AsRef::<$i>::as_ref(&u.to_owned()).as_str()), Some(s))?;
            eq(n, Some(<$io>::from(u.to_owned()).as_str()), Some(s))?;
        }
    }};
}

fn verify_cross(s: &str) -> R {
    cross!(UriReferenceStr, UriReferenceString, IriReferenceStr, IriReferenceString, s);
    cross!(UriStr, UriString, IriStr, IriString, s);
    cross!(UriAbsoluteStr, UriAbsoluteString, IriAbsoluteStr, IriAbsoluteString, s);
    cross!(UriRelativeStr, UriRelativeString, IriRelativeStr, IriRelativeString, s);
    cross!(UriQueryStr, UriQueryString, IriQueryStr, IriQueryString, s);
    cross!(UriFragmentStr, UriFragmentString, IriFragmentStr, IriFragmentString, s);
    Ok(())
}

fn verify_qf<S: Spec>(s: &str) -> R {
    if RiQueryStr::<S>::new(s).is_ok() {
        same!(RiQueryStr, RiQueryString, S, s);
    }
    if RiFragmentStr::<S>::new(s).is_ok() {
        same!(RiFragmentStr, RiFragmentString, S, s);
    }
    Ok(())
}

fn check(ctx: &Ctx, s: &str) {
    if valid(K::IriRef, true, s) {
        ctx.case(&["iri", s], || verify::<IriSpec>(s, true));
        let p = split(s);
        ctx.outcome(hash(&format!("{:?}{:?}", p.scheme, p.fragment)));
        if p.scheme.is_some() || p.fragment.is_some() {
            ctx.nontrivial(hash(s));
        }
    }
    if s.is_ascii() && valid(K::IriRef, false, s) {
        ctx.case(&["uri", s], || verify::<UriSpec>(s, false));
    }
    ctx.case(&["cross", s], || verify_cross(s));
}

fn check_qf(ctx: &Ctx, s: &str) {
    ctx.case(&["qf", s], || {
        verify_qf::<UriSpec>(s)?;
        verify_qf::<IriSpec>(s)?;
        verify_cross(s)
    });
}

const TOKENS: &[&str] = &["a", ":", "/", "?", "#", "@", ".", "\u{E9}", "%2F", "[::]"];

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one text, all conversions out of every type that accepts it (and the rejected ones); nontrivial = has a scheme or a fragment");
    let max = if ctx.thorough { 8 } else { 6 };
    ctx.phase("token strings", || {
        let n = mc::en::lang(dfa(K::IriRef, true), TOKENS, max, |s| check(ctx, s));
        ctx.count("prefixes visited", n);
    });
    let refs = gens::full_refs(if ctx.thorough { 2 } else { 1 });
    ctx.phase("component products", || refs.each(|s| check(ctx, s)));
    ctx.phase("queries and fragments", || {
        let t: &[&str] = &["a", "?", "#", "/", "%41", "%", "\u{E9}", "\u{E000}", "[", ":"];
        mc::en::strings(t, if ctx.thorough { 6 } else { 5 }, |s| check_qf(ctx, s));
    });
    ctx.phase("characters in every component", || mc::spaces::each_char(if ctx.thorough { 2 } else { 1 }, &|s| check(ctx, s)));
    let lens = gens::lens(ctx.thorough);
    ctx.phase("long components", || gens::long_refs(&lens, |s| check(ctx, s)));
}

fn replay(_: &Ctx, c: &[String]) -> R {
    match c[0].as_str() {
        "iri" => verify::<IriSpec>(&c[1], true),
        "uri" => verify::<UriSpec>(&c[1], false),
        "cross" => verify_cross(&c[1]),
        _ => {
            verify_qf::<UriSpec>(&c[1])?;
            verify_qf::<IriSpec>(&c[1])?;
            verify_cross(&c[1])
        }
    }
}

fn main() {
    run("C04", "exploration", explore, replay)
}
