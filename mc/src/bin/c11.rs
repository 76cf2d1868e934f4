//! C11: mapping of IRIs to URIs.

use iri_string::convert::MappedToUri;
use iri_string::format::{ToDedicatedString, ToStringFallible};
use iri_string::types::*;
use mc::gens;
use mc::grammar::{dfa, valid, K};
use mc::report::{hash, par, run, Ctx};
use mc::rfc::to_uri;

type R = Result<(), String>;

fn eq(what: &str, got: &str, want: &str) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

macro_rules! map {
    ($i:ident, $io:ident, $u:ident, $uo:ident, $k:expr, $s:expr, $want:expr) => {{
        let (s, want): (&str, &str) = ($s, $want);
        let ok = valid($k, true, s);
        let n = stringify!($i);
        match <$i>::new(s) {
            Err(_) if !ok => {}
            Err(_) => return Err(format!("{n}: {s:?} rejected")),
            Ok(_) if !ok => return Err(format!("{n}: {s:?} accepted")),
            Ok(i) => {
                eq(n, &i.encode_to_uri().to_string(), want)?;
                eq(n, &MappedToUri::from(i).to_string(), want)?;
                eq(n, &i.encode_to_uri().try_to_string().map_err(|e| e.to_string())?, want)?;
                let d: $uo = i.encode_to_uri().to_dedicated_string();
                eq(n, d.as_str(), want)?;
                eq(n, i.encode_to_uri().try_to_dedicated_string().map_err(|e| e.to_string())?.as_str(), want)?;
                let o: $io = i.to_owned();
                eq(n, &MappedToUri::from(&o).to_string(), want)?;
                let mut x = o.clone();
                x.encode_to_uri_inline();
                eq(n, x.as_str(), want)?;
                // Encoding again, or again lazily, changes nothing.
                x.encode_to_uri_inline();
                eq(n, x.as_str(), want)?;
                eq(n, &x.encode_to_uri().to_string(), want)?;
                let mut x = o.clone();
                x.try_encode_to_uri_inline().map_err(|e| e.to_string())?;
                eq(n, x.as_str(), want)?;
                // Spare capacity must not show up in the result.
                let mut big = String::with_capacity(s.len() * 3 + 7);
                big.push_str(s);
                let mut x = <$io>::try_from(big).map_err(|_| "owned value rejected")?;
                x.encode_to_uri_inline();
                eq(n, x.as_str(), want)?;
                eq(n, o.clone().encode_into_uri().as_str(), want)?;
                eq(n, o.clone().try_encode_into_uri().map_err(|e| e.to_string())?.as_str(), want)?;
                // Valid as the URI type.
                if !valid($k, false, want) || <$u>::new(want).is_err() {
                    return Err(format!("{n}: {want:?} is not a valid URI of that kind"));
                }
                // A URI maps to itself.
                let u = <$u>::new(want).unwrap();
                eq(n, &MappedToUri::from(u).to_string(), want)?;
                eq(n, &MappedToUri::from(&u.to_owned()).to_string(), want)?;
                let ascii = s.is_ascii();
                match (i.as_uri(), ascii) {
                    (Some(x), true) => eq(n, x.as_str(), s)?,
                    (None, false) => {}
                    (x, _) => return Err(format!("{n}::as_uri of {s:?}: {x:?}")),
                }
                match (o.try_into_uri(), ascii) {
                    (Ok(x), true) => eq(n, x.as_str(), s)?,
                    (Err(x), false) => eq(n, x.as_str(), s)?,
                    (x, _) => return Err(format!("{n}::try_into_uri of {s:?}: {x:?}")),
                }
            }
        }
    }};
}

/// Undoes the mapping: decodes the introduced triplets, at the places of the non-ASCII characters.
fn undo(s: &str, mapped: &str) -> Option<Vec<u8>> {
    let (mut out, mut m) = (Vec::new(), mapped.as_bytes());
    for &b in s.as_bytes() {
        let n = if b < 0x80 { 1 } else { 3 };
        let (h, t) = m.split_at_checked(n)?;
        out.push(if n == 1 { h[0] } else { mc::rfc::triplet(h)? });
        m = t;
    }
    m.is_empty().then_some(out)
}

fn verify(s: &str) -> R {
    let want = &to_uri(s);
    map!(IriReferenceStr, IriReferenceString, UriReferenceStr, UriReferenceString, K::IriRef, s, want);
    map!(IriStr, IriString, UriStr, UriString, K::Iri, s, want);
    map!(IriAbsoluteStr, IriAbsoluteString, UriAbsoluteStr, UriAbsoluteString, K::AbsIri, s, want);
    map!(IriRelativeStr, IriRelativeString, UriRelativeStr, UriRelativeString, K::RelRef, s, want);
    map!(IriQueryStr, IriQueryString, UriQueryStr, UriQueryString, K::Query, s, want);
    map!(IriFragmentStr, IriFragmentString, UriFragmentStr, UriFragmentString, K::Fragment, s, want);
    if undo(s, want).as_deref() != Some(s.as_bytes()) {
        return Err(format!("{want:?} does not decode back to {s:?}"));
    }
    Ok(())
}

fn check(ctx: &Ctx, s: &str) {
    ctx.case(&["iri", s], || verify(s));
    if !s.is_ascii() {
        ctx.nontrivial(hash(s));
        ctx.outcome(hash(&to_uri(s)));
    }
}

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one text mapped through every form of every type that accepts it; nontrivial = has non-ASCII characters");
    let thorough = ctx.thorough;
    // One, two, three and four byte characters, triplets, private characters.
    let t: &[&str] = &["a", ":", "/", "?", "#", "@", "%C3", "\u{E9}", "\u{3042}", "\u{E000}", "\u{1F600}"];
    ctx.phase("token strings", || {
        let n = mc::en::lang(dfa(K::IriRef, true), t, if thorough { 7 } else { 5 }, |s| check(ctx, s));
        ctx.count("prefixes visited", n);
    });
    ctx.phase("queries and fragments", || mc::en::strings(&t[5..], if thorough { 6 } else { 5 }, |s| check(ctx, s)));
    ctx.phase("every character", || {
        par(0x1100, |k| {
            for cp in k * 256..(k + 1) * 256 {
                if let Some(c) = char::from_u32(cp as u32) {
                    check(ctx, &format!("{c}"));
                    if thorough {
                        check(ctx, &format!("s:?a{c}b"));
                    }
                }
            }
        });
    });
    // The encoder works through runs of non-ASCII bytes by chunks.
    ctx.phase("runs of non-ASCII characters", || {
        let max = if thorough { 140 } else { 70 };
        let us = ["\u{E9}", "\u{3042}", "\u{1F600}"];
        mc::en::product(&[max, 3, 3, 4, 3], |i| {
            let (n, u, v) = (i[0], us[i[1]], us[i[2]]);
            let pre = ["", "a", "s:/", "//\u{E9}/"][i[3]];
            let post = ["", "z", "?\u{E9}#\u{E9}"][i[4]];
            check(ctx, &format!("{pre}{}{v}{post}", u.repeat(n)));
            if i[3] < 2 {
                check(ctx, &format!("{pre}{}a{}{post}", u.repeat(n), v.repeat(n / 2)));
            }
        });
    });
    ctx.phase("mixed words", || mc::en::strings(&["a", "\u{E9}", "\u{3042}", "\u{1F600}"], if thorough { 10 } else { 8 }, |s| check(ctx, s)));
    ctx.phase("component products", || gens::full_refs(if thorough { 2 } else { 1 }).each(|s| check(ctx, s)));
    ctx.phase("characters in every component", || mc::spaces::each_char(if thorough { 2 } else { 1 }, &|s| check(ctx, s)));
    ctx.phase("long components", || gens::long_refs(&gens::lens(thorough), |s| check(ctx, s)));
}

fn replay(_: &Ctx, c: &[String]) -> R {
    verify(&c[1])
}

fn main() {
    run("C11", "exploration", explore, replay)
}
