//! C03: authority components.

use iri_string::components::AuthorityComponents;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;
use mc::gens;
use mc::grammar::{dfa, valid, K};
use mc::report::{hash, run, Ctx};
use mc::rfc::{authority, is_reg_name_host, split};

fn one(what: &str, s: &str, got: Option<AuthorityComponents<'_>>) -> Result<(), String> {
    let want = split(s).authority;
    let (a, c) = match (want, got) {
        (None, None) => return Ok(()),
        (Some(a), Some(c)) => (a, c),
        (w, g) => return Err(format!("{what} {s:?}: authority {w:?} but components {:?}", g.map(|c| c.host()))),
    };
    let want = authority(a);
    let got = (c.userinfo(), c.host(), c.port());
    if got != want {
        return Err(format!("{what} {s:?}: (userinfo, host, port) = {got:?}, expected {want:?}"));
    }
    let mut j = String::new();
    if let Some(u) = got.0 {
        j += u;
        j.push('@');
    }
    j += got.1;
    if let Some(p) = got.2 {
        j.push(':');
        j += p;
    }
    if j != a {
        return Err(format!("{what} {s:?}: components join to {j:?}"));
    }
    let reg = is_reg_name_host(got.1).then_some(got.1);
    if c.reg_name() != reg {
        return Err(format!("{what} {s:?}: reg_name() = {:?}, expected {reg:?}", c.reg_name()));
    }
    Ok(())
}

fn verify<S: Spec>(s: &str) -> Result<(), String> {
    let r = RiReferenceStr::<S>::new(s).map_err(|e| format!("valid reference {s:?} rejected: {e}"))?;
    one("from_iri", s, AuthorityComponents::from_iri(r))?;
    one("reference", s, r.authority_components())?;
    if let Ok(r) = RiStr::<S>::new(s) {
        one("IRI", s, r.authority_components())?;
    }
    if let Ok(r) = RiAbsoluteStr::<S>::new(s) {
        one("absolute IRI", s, r.authority_components())?;
    }
    if let Ok(r) = RiRelativeStr::<S>::new(s) {
        one("relative reference", s, r.authority_components())?;
    }
    Ok(())
}

fn check(ctx: &Ctx, s: &str) {
    if valid(K::IriRef, true, s) {
        ctx.case(&["iri", s], || verify::<IriSpec>(s));
        if let Some(a) = split(s).authority {
            ctx.nontrivial(hash(s));
            ctx.outcome(hash(a));
        }
    }
    if s.is_ascii() && valid(K::IriRef, false, s) {
        ctx.case(&["uri", s], || verify::<UriSpec>(s));
    }
}

/// An authority in all surroundings.
fn around(ctx: &Ctx, a: &str) {
    if !valid(K::Authority, true, a) {
        return;
    }
    for (pre, post) in [("//", ""), ("s://", "/"), ("//", "/@:/p"), ("s://", "?@:x"), ("s://", "#a@b:1"), ("//", "/x?@#:")] {
        check(ctx, &format!("{pre}{a}{post}"));
    }
}

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one valid reference, the authority components of every type that accepts it compared with the RFC 3986 3.2 split; nontrivial = has an authority");
    let tokens: &[&str] = &["a", ":", "@", "1", ".", "[::1]", "[v1.:]", "%40", "\u{E9}", "1.2.3.4", "!"];
    let max = if ctx.thorough { 7 } else { 6 };
    ctx.phase("authority token strings", || {
        mc::en::lang(dfa(K::Authority, true), tokens, max, |a| around(ctx, a));
    });
    ctx.phase("IPv6 literals", || {
        let t: &[&str] = &["1:", "abcd:", "::", "1", "1.2.3.4", "255.249.1.10"];
        mc::en::strings(t, if ctx.thorough { 8 } else { 6 }, |x| {
            if valid(K::Host, false, &format!("[{x}]")) {
                for (u, p) in [("", ""), ("u:p@", ""), ("", ":"), ("@", ":80")] {
                    around(ctx, &format!("{u}[{x}]{p}"));
                }
            }
        });
    });
    ctx.phase("IPv4-like names", || {
        let mut parts: Vec<String> = ["0", "9", "10", "99", "100", "199", "200", "249", "250", "255", "256", "260", "300", "01", "00", "1000", "", "a", "%31", "x1"]
            .map(String::from).to_vec();
        if ctx.thorough {
            parts.extend((0..300).map(|x| x.to_string()));
            parts.sort();
            parts.dedup();
        }
        let few: Vec<String> = ["0", "10", "255", "256", "01", "", "a"].map(String::from).to_vec();
        let n = few.len();
        mc::en::product(&[parts.len(), n, n, n, 4], |i| {
            let mut o = vec![few[i[1]].as_str(), &few[i[2]], &few[i[3]]];
            o.insert(i[4], &parts[i[0]]);
            for tail in ["", ".", ".1"] {
                let h = format!("{}{tail}", o.join("."));
                check(ctx, &format!("//{h}"));
                check(ctx, &format!("s://u@{h}:1"));
            }
        });
        for n in 0..=8 {
            for t in ["1", "1.", "255."] {
                check(ctx, &format!("//{}", t.repeat(n)));
            }
        }
    });
    let refs = gens::full_refs(if ctx.thorough { 2 } else { 1 });
    ctx.phase("component products", || refs.each(|s| check(ctx, s)));
    ctx.phase("characters in every component", || mc::spaces::each_char(if ctx.thorough { 2 } else { 1 }, &|s| check(ctx, s)));
    let lens = gens::lens(ctx.thorough);
    ctx.phase("long components", || gens::long_refs(&lens, |s| check(ctx, s)));
}

fn replay(_: &Ctx, c: &[String]) -> Result<(), String> {
    if c[0] == "iri" {
        verify::<IriSpec>(&c[1])
    } else {
        verify::<UriSpec>(&c[1])
    }
}

fn main() {
    run("C03", "exploration", explore, replay)
}
