//! C09: percent-encoding.

use iri_string::percent_encode::{PercentEncoded, PercentEncodedForIri, PercentEncodedForUri};
use iri_string::spec::{IriSpec, Spec, UriSpec};
use mc::en::{deliveries, strings};
use mc::grammar::{valid, K};
use mc::report::{hash, par, run, Ctx};
use mc::rfc::{decode, encode, Enc, ENCS};
use std::fmt::Display;

type R = Result<(), String>;

fn lib<S: Spec, T: Display>(e: Enc, v: T) -> PercentEncoded<T, S> {
    match e {
        Enc::RegName => PercentEncoded::from_reg_name(v),
        Enc::User => PercentEncoded::from_user(v),
        Enc::Password => PercentEncoded::from_password(v),
        Enc::Segment => PercentEncoded::from_path_segment(v),
        Enc::Path => PercentEncoded::from_path(v),
        Enc::Query => PercentEncoded::from_query(v),
        Enc::Fragment => PercentEncoded::from_fragment(v),
        Enc::Unreserve => PercentEncoded::unreserve(v),
        Enc::Any => PercentEncoded::characters(v),
    }
}

fn one<S: Spec>(s: &str, iri: bool) -> R {
    for &e in ENCS {
        let want = encode(e, s, iri);
        let got = lib::<S, _>(e, s).to_string();
        if got != want {
            return Err(format!("{e:?} encoding of {s:?}: {got:?}, expected {want:?}"));
        }
        if decode(got.as_bytes()) != s.as_bytes() {
            return Err(format!("{e:?} encoding of {s:?}: {got:?} does not decode back"));
        }
        // The text is usable where the context says, at its place in a whole reference.
        let k = match e {
            Enc::RegName => Some((K::Authority, got.clone())),
            Enc::User | Enc::Password => Some((K::Userinfo, got.clone())),
            Enc::Segment => Some((K::Segment, got.clone())),
            Enc::Path => Some((K::Path, got.clone())),
            Enc::Query => Some((K::Query, got.clone())),
            Enc::Fragment => Some((K::Fragment, got.clone())),
            Enc::Unreserve => Some((K::Segment, got.clone())),
            Enc::Any => None,
        };
        if let Some((k, t)) = k {
            if !valid(k, iri, &t) {
                return Err(format!("{e:?} encoding of {s:?}: {t:?} is not allowed there"));
            }
        }
    }
    Ok(())
}

fn verify(s: &str) -> R {
    one::<UriSpec>(s, false)?;
    one::<IriSpec>(s, true)?;
    if PercentEncodedForUri::from_query(s).to_string() != encode(Enc::Query, s, false) {
        return Err(format!("PercentEncodedForUri of {s:?}"));
    }
    if PercentEncodedForIri::from_query(s).to_string() != encode(Enc::Query, s, true) {
        return Err(format!("PercentEncodedForIri of {s:?}"));
    }
    Ok(())
}

fn verify_split(s: &str) -> R {
    for &e in ENCS {
        for iri in [false, true] {
            let want = encode(e, s, iri);
            deliveries(s, &mut |v| {
                let got = if iri { lib::<IriSpec, _>(e, v).to_string() } else { lib::<UriSpec, _>(e, v).to_string() };
                if got != want {
                    return Err(format!("{e:?} encoding of {s:?}: {got:?}, expected {want:?}"));
                }
                Ok(())
            })?;
        }
    }
    Ok(())
}

fn check(ctx: &Ctx, s: &str) {
    ctx.case(&["text", s], || verify(s));
    let o = encode(Enc::Unreserve, s, true);
    ctx.outcome(hash(&o));
    if o != s {
        ctx.nontrivial(hash(s));
    }
}

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one text in all nine contexts and both specs (or all its write splits); nontrivial = something needs encoding");
    ctx.phase("every character", || {
        par(0x1100, |k| {
            for cp in k * 256..(k + 1) * 256 {
                if let Some(c) = char::from_u32(cp as u32) {
                    check(ctx, c.encode_utf8(&mut [0; 4]));
                    if ctx.thorough || cp < 0x1000 {
                        check(ctx, &format!("a{c}%"));
                        check(ctx, &format!("%4{c}"));
                    }
                }
            }
        });
    });
    ctx.phase("pairs of ASCII characters", || {
        par(128, |i| {
            for j in 0..128u8 {
                check(ctx, &format!("{}{}", i as u8 as char, j as char));
            }
        });
    });
    let t: &[&str] = &["a", "%", "4", "1", "/", ":", "@", "?", "#", " ", "\u{E9}", "\u{E000}", "\u{10FFFE}", "[", "\u{0}"];
    ctx.phase("token strings", || strings(t, if ctx.thorough { 6 } else { 4 }, |s| check(ctx, s)));
    ctx.phase("write splits", || {
        let t: &[&str] = &["a", "%", "4", "/", ":", "\u{E9}", "\u{E000}", "\u{1F600}"];
        strings(t, if ctx.thorough { 6 } else { 4 }, |s| {
            ctx.case(&["split", s], || verify_split(s));
            ctx.nontrivial(hash(s));
        });
    });
    ctx.phase("long texts", || {
        for n in 1..if ctx.thorough { 600 } else { 300 } {
            for u in ["a", "%", "\u{E9}", "a/", "\u{1F600}%"] {
                check(ctx, &u.repeat(n));
            }
        }
    });
    ctx.phase("characters inside runs", || {
        let chars = mc::spaces::chars(if ctx.thorough { 1 } else { 0 });
        let ns: &[usize] = if ctx.thorough { &[1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128] } else { &[1, 2, 3, 7, 8, 15, 16, 17] };
        par(chars.len(), |k| {
            let c = chars[k];
            for u in ["a", "%", "/", "\u{E9}", "\u{E000}", "-41"] {
                for &a in ns {
                    for &b in ns {
                        check(ctx, &format!("{}{c}{}", u.repeat(a), u.repeat(b)));
                    }
                }
            }
        });
    });
    ctx.phase("two characters", || {
        let chars = mc::spaces::chars(0);
        par(chars.len(), |k| {
            for &d in chars.iter().filter(|&&d| ctx.thorough || !d.is_ascii() || d as u32 % 5 == 2) {
                check(ctx, &format!("{}{d}", chars[k]));
            }
        });
    });
    ctx.phase("long texts in two and three writes", || {
        let units = ["a", "%", "\u{E9}", "a/", "\u{1F600}%", ":@a", "%41", "\u{E000}x"];
        let max = if ctx.thorough { 140 } else { 70 };
        par(units.len() * max, |k| {
            let s = units[k / max].repeat(k % max + 1);
            if s.len() <= 4 * max {
                ctx.case(&["cuts", &s], || verify_cuts(&s));
                ctx.nontrivial(hash(&s));
            }
        });
    });
}

struct Pieces<'a>(&'a [&'a str]);
impl Display for Pieces<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.iter().try_for_each(|p| f.write_str(p))
    }
}

/// Every way to write a text in two pieces, and in three with a short piece first, in the middle or
/// last.
fn verify_cuts(s: &str) -> R {
    let at: Vec<usize> = (0..=s.len()).filter(|&i| s.is_char_boundary(i)).collect();
    for &e in ENCS {
        for iri in [false, true] {
            let want = encode(e, s, iri);
            let one = |p: &[&str]| {
                let v = Pieces(p);
                let got = if iri { lib::<IriSpec, _>(e, &v).to_string() } else { lib::<UriSpec, _>(e, &v).to_string() };
                if got != want {
                    return Err(format!("{e:?} encoding of {p:?}: {got:?}, expected {want:?}"));
                }
                Ok(())
            };
            for (k, &i) in at.iter().enumerate() {
                one(&[&s[..i], &s[i..]])?;
                let j = at[(k + 1).min(at.len() - 1)];
                one(&[&s[..i], &s[i..j], &s[j..]])?;
                one(&[&s[..at[1]], &s[at[1]..i.max(at[1])], &s[i.max(at[1])..]])?;
            }
        }
    }
    Ok(())
}

fn replay(_: &Ctx, c: &[String]) -> R {
    if c[0] == "text" {
        verify(&c[1])
    } else if c[0] == "cuts" {
        verify_cuts(&c[1])
    } else {
        verify_split(&c[1])
    }
}

fn main() {
    run("C09", "exploration", explore, replay)
}
