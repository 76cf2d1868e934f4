//! C15: password masking and removal.

use iri_string::build::Builder;
use iri_string::format::{ToDedicatedString, ToStringFallible};
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;
use mc::gens;
use mc::grammar::{dfa, valid, K};
use mc::report::{hash, run, Ctx};
use mc::rfc::{authority, password, split};
use std::cell::RefCell;

type R = Result<(), String>;

fn eq(what: &str, got: &str, want: &str) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

const ALTS: &[&str] = &["", "***", ":@/?#", "\u{E9}%"];

macro_rules! one {
    ($s:expr, $b:ident, $S:ty, $masked:expr, $pw:expr) => {{
        let (s, masked): (&str, &str) = ($s, $masked);
        let pw: Option<std::ops::Range<usize>> = $pw;
        let n = concat!(stringify!($b), " mask");
        if let Ok(i) = $b::<$S>::new(s) {
            let m = i.mask_password();
            eq(n, &m.to_string(), masked)?;
            eq(n, &m.try_to_string().map_err(|e| e.to_string())?, masked)?;
            eq(n, &format!("{m:?}"), &format!("<{masked}>"))?;
            let d = m.to_dedicated_string();
            eq(n, d.as_str(), masked)?;
            eq(n, m.try_to_dedicated_string().map_err(|e| e.to_string())?.as_str(), masked)?;
            // The trimmed value has no password left.
            eq(n, &d.mask_password().to_string(), masked)?;
            if $b::<$S>::new(masked).is_err() {
                return Err(format!("{n}: {masked:?} is not valid"));
            }
            for alt in ALTS {
                let want = match &pw {
                    Some(r) => format!("{}{alt}{}", &s[..r.start], &s[r.end..]),
                    None => s.to_string(),
                };
                let n = concat!(stringify!($b), " replace_password");
                let x = m.replace_password(*alt);
                eq(n, &x.to_string(), &want)?;
                eq(n, &format!("{x:?}"), &format!("<{want}>"))?;
                let calls = RefCell::new(Vec::new());
                let x = m.replace_password_with(|p| {
                    calls.borrow_mut().push(p.to_string());
                    *alt
                });
                eq(n, &x.to_string(), &want)?;
                eq(n, &x.to_string(), &want)?;
                eq(n, &format!("{x:?}"), &format!("<{want}>"))?;
                let calls = calls.into_inner();
                let want: Vec<String> = pw.iter().map(|r| s[r.clone()].to_string()).collect();
                if calls != want {
                    return Err(format!("{n}: replacer called with {calls:?}, expected {want:?}"));
                }
            }
            let (all, nonempty) = match &pw {
                Some(r) => (format!("{}{}", &s[..r.start - 1], &s[r.end..]), masked.to_string()),
                None => (s.to_string(), s.to_string()),
            };
            let mut o = i.to_owned();
            o.remove_password_inline();
            eq(concat!(stringify!($b), " remove_password_inline"), o.as_str(), &all)?;
            eq("after removal", &o.mask_password().to_string(), &all)?;
            o.remove_nonempty_password_inline();
            eq("after removal", o.as_str(), &all)?;
            let mut o = i.to_owned();
            o.remove_nonempty_password_inline();
            eq(concat!(stringify!($b), " remove_nonempty_password_inline"), o.as_str(), &nonempty)?;
            o.remove_password_inline();
            eq("after both removals", o.as_str(), &all)?;
        }
    }};
}

fn verify<S: Spec>(s: &str) -> R {
    let pw = password(s);
    let masked = match &pw {
        Some(r) => format!("{}{}", &s[..r.start], &s[r.end..]),
        None => s.to_string(),
    };
    one!(s, RiReferenceStr, S, &masked, pw.clone());
    one!(s, RiStr, S, &masked, pw.clone());
    one!(s, RiAbsoluteStr, S, &masked, pw.clone());
    one!(s, RiRelativeStr, S, &masked, pw.clone());
    // A builder's debug output is the same for every non-empty password.
    if let Some(r) = pw.filter(|r| !r.is_empty()) {
        let other = format!("{}zzz{}", &s[..r.start], &s[r.end..]);
        let (a, b) = (RiReferenceStr::<S>::new(s), RiReferenceStr::<S>::new(&other));
        let (Ok(a), Ok(b)) = (a, b) else { return Err(format!("{other:?} is rejected")) };
        let (a, b) = (format!("{:?}", Builder::from(a)), format!("{:?}", Builder::from(b)));
        eq("debug output of the builder", &a, &b)?;
        // The same userinfo given as user and password.
        let au = split(s).authority.unwrap();
        let u = authority(au).0.unwrap();
        let (user, p) = u.split_once(':').unwrap();
        let dbg = |p: &str, some: bool| {
            let mut b = Builder::new();
            if some {
                b.userinfo((user, Some(p)));
            } else {
                b.userinfo((user, p));
            }
            let built = format!("{:?}", b.clone().build::<RiReferenceStr<S>>());
            format!("{b:?}{built}")
        };
        eq("debug output of the builder", &dbg(p, false), &dbg("zzz", false))?;
        eq("debug output of the builder", &dbg(p, true), &dbg("zzz", true))?;
    }
    Ok(())
}

fn check(ctx: &Ctx, s: &str) {
    if valid(K::IriRef, true, s) {
        ctx.case(&["iri", s], || verify::<IriSpec>(s));
        if password(s).is_some() {
            ctx.nontrivial(hash(s));
        }
        ctx.outcome(hash(&format!("{:?}", password(s))));
    }
    if s.is_ascii() && valid(K::IriRef, false, s) {
        ctx.case(&["uri", s], || verify::<UriSpec>(s));
    }
}

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one reference, every masking, replacing and removing operation of every type; nontrivial = a password is present");
    let thorough = ctx.thorough;
    ctx.phase("token strings", || {
        let t: &[&str] = &["a", ":", "/", "//", "?", "#", "@", "\u{E9}", "%3A", "[::]"];
        mc::en::lang(dfa(K::IriRef, true), t, if thorough { 7 } else { 5 }, |s| check(ctx, s));
    });
    ctx.phase("words in the authority", || {
        let t: &[&str] = &[":", "@", "p", "/", "%40", "\u{E9}", "[::1]", "#"];
        mc::en::strings(t, if thorough { 8 } else { 6 }, |w| {
            for pre in ["//", "s://", "s:", "s:/", "/a//", "s:a//"] {
                check(ctx, &format!("{pre}{w}"));
            }
        });
    });
    ctx.phase("component products", || gens::full_refs(if thorough { 2 } else { 1 }).each(|s| check(ctx, s)));
    ctx.phase("a slash pair after the authority", || {
        let mut r = gens::full_refs(1);
        r.paths = ["", "/", "//u:p@h", "/a//b:c@d/", "/:@", "///"].map(String::from).to_vec();
        r.queries = vec![None, Some("//x:y@z"), Some(":@")];
        r.frags = vec![None, Some("//x:y@z"), Some(":@")];
        r.schemes = vec![None, Some("s"), Some("a.b")];
        r.each(|s| check(ctx, s));
        // Without an authority nothing is a password.
        r.auths = vec![None];
        r.paths = ["a//u:p@h", "/a//u:p@h", "a:b@c", ":p@h", "/:p@h", "u:p@h//x:y@z"].map(String::from).to_vec();
        r.each(|s| check(ctx, s));
    });
    ctx.phase("characters in every component", || mc::spaces::each_char(if thorough { 2 } else { 1 }, &|s| check(ctx, s)));
    ctx.phase("long components", || gens::long_refs(&gens::lens(thorough), |s| check(ctx, s)));
}

fn replay(_: &Ctx, c: &[String]) -> R {
    if c[0] == "iri" {
        verify::<IriSpec>(&c[1])
    } else {
        verify::<UriSpec>(&c[1])
    }
}

fn main() {
    run("C15", "exploration", explore, replay)
}
