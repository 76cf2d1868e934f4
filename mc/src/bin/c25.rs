//! C25: the operations compose: laws between operations, checked without any reference
//! implementation.
//!
//! Enumerated: every pair of a base and a reference, every single reference and every pair of
//! templates with every environment within the bounds; on each, every law.

use iri_string::build::Builder;
use iri_string::convert::MappedToUri;
use iri_string::format::ToDedicatedString;
use iri_string::normalize::Normalized;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::UriTemplateStr;
use iri_string::types::*;
use mc::grammar::{dfa, valid, K};
use mc::report::{hash, par, run, Ctx};
use mc::tpl::{self, Env};

type R = Result<(), String>;

fn same(law: &str, a: &str, b: &str) -> R {
    if a != b {
        return Err(format!("{law}: {a:?} and {b:?}"));
    }
    Ok(())
}

fn iri<S: Spec>(s: &str) -> Result<&RiStr<S>, String> {
    RiStr::<S>::new(s).map_err(|e| format!("{s:?} is not a valid IRI: {e}"))
}
fn reference<S: Spec>(s: &str) -> Result<&RiReferenceStr<S>, String> {
    RiReferenceStr::<S>::new(s).map_err(|e| format!("{s:?} is not a valid reference: {e}"))
}
fn absolute<S: Spec>(s: &str) -> Result<&RiAbsoluteStr<S>, String> {
    RiAbsoluteStr::<S>::new(s).map_err(|e| format!("{s:?} is not a valid absolute IRI: {e}"))
}
fn to_uri<S: Spec>(s: &str) -> Result<String, String> {
    Ok(MappedToUri::from(reference::<S>(s)?).to_string())
}
fn normalize<S: Spec>(s: &str) -> Result<String, String> {
    Ok(iri::<S>(s)?.normalize().to_string())
}
fn preserve<S: Spec>(s: &str) -> Result<String, String> {
    Ok(iri::<S>(s)?.normalize_but_preserve_authorityless_relative_path().to_string())
}
fn mask<S: Spec>(s: &str) -> Result<String, String> {
    Ok(reference::<S>(s)?.mask_password().to_string())
}
fn resolve<S: Spec>(b: &str, r: &str) -> Result<String, String> {
    Ok(reference::<S>(r)?.resolve_against(absolute::<S>(b)?).to_string())
}

/// Every history of at most three mode selections (two or one for longer texts), by value or in
/// place: the last one applies, and with none the start does.
fn modes<'a, S: Spec>(start: &dyn Fn() -> Normalized<'a, RiStr<S>>, first: &str, full: &str, preserving: &str) -> R {
    const K: usize = 4;
    let max = match first.len() {
        0..=9 => 3,
        10..=16 => 2,
        _ => 1,
    };
    for len in 0..=max {
        for mut code in 0..K.pow(len) {
            let (mut n, mut want, mut how) = (start(), first, String::new());
            for _ in 0..len {
                n = match code % K {
                    0 => n.and_normalize(),
                    1 => n.and_normalize_but_preserve_authorityless_relative_path(),
                    2 => {
                        n.enable_normalization();
                        n
                    }
                    _ => {
                        n.enable_normalization_preserving_authorityless_relative_path();
                        n
                    }
                };
                want = if code % K % 2 == 0 { full } else { preserving };
                how.push(['F', 'P', 'f', 'p'][code % K]);
                code /= K;
            }
            same(&format!("mode selections {how:?}"), &n.to_string(), want)?;
        }
    }
    Ok(())
}

fn pair<S: Spec>(b: &str, r: &str) -> R {
    let (base, re) = (absolute::<S>(b)?, reference::<S>(r)?);
    let t = re.resolve_against(base);
    let x = t.to_string();
    same("resolving and normalizing in one step or two", &t.and_normalize().to_string(), &normalize::<S>(&x)?)?;
    let preserving = re.resolve_against(base).and_normalize_but_preserve_authorityless_relative_path().to_string();
    modes::<S>(&|| re.resolve_against(base), &x, &normalize::<S>(&x)?, &preserving)?;
    // Preserving relative paths keeps the dot segments of a merged relative path; everywhere else
    // the two steps and the single one agree.
    same("normalizing fully after resolving and preserving relative paths", &normalize::<S>(&preserving)?, &normalize::<S>(&x)?)?;
    let ix = iri::<S>(&x)?;
    let rooted = re.path_str().starts_with('/') || (re.scheme_str().is_none() && base.path_str().starts_with('/'));
    if ix.authority_str().is_some() || rooted {
        same("resolving and preserving where nothing is to be preserved", &preserving, &normalize::<S>(&x)?)?;
    } else if re.scheme_str().is_some() {
        same("resolving an IRI and preserving relative paths", &preserving, &preserve::<S>(re.as_str())?)?;
    } else if re.path_str().is_empty() {
        same("resolving and preserving in one step or two", &preserving, &preserve::<S>(&x)?)?;
    }
    let again = resolve::<S>("z://y/x/w?v", &x)?;
    if re.scheme_str().is_some() || re.authority_str().is_some() || !re.path_str().is_empty() {
        same("a resolved IRI resolved again", &again, &x)?;
    } else {
        // The base path was taken over as it is; its dot segments go now.
        same("a resolved IRI resolved again and again", &resolve::<S>("z://y/x/w?v", &again)?, &again)?;
    }
    same("resolving before or after mapping to a URI", &to_uri::<S>(&x)?, &resolve::<UriSpec>(&to_uri::<S>(b)?, &to_uri::<S>(r)?)?)?;
    same("resolving before or after masking the password", &mask::<S>(&x)?, &resolve::<S>(&mask::<S>(b)?, &mask::<S>(r)?)?)?;
    // The fragment is carried over and changes nothing else.
    let mut bare: RiReferenceString<S> = re.to_owned();
    bare.set_fragment(None);
    let y = resolve::<S>(b, bare.as_str())?;
    match re.fragment() {
        Some(f) => same("resolving without the fragment", &format!("{y}#{f}"), &x)?,
        None => same("resolving without a fragment", &y, &x)?,
    }
    // A normalized base scheme and host only shows in the scheme and host.
    same("resolving for URIs or IRIs", &resolve::<IriSpec>(b, r)?, &x)?;
    let mut builder = Builder::from(iri::<S>(&x)?);
    same("rebuilding a resolved IRI", &builder.clone().build::<RiStr<S>>().map_err(|e| e.to_string())?.to_string(), &x)?;
    builder.normalize();
    same("normalizing while rebuilding", &builder.build::<RiStr<S>>().map_err(|e| e.to_string())?.to_string(), &normalize::<S>(&x)?)
}

fn single<S: Spec>(s: &str) -> R {
    let r = reference::<S>(s)?;
    let mut cut: RiReferenceString<S> = r.to_owned();
    cut.remove_password_inline();
    same("masking after removing the password", &mask::<S>(cut.as_str())?, cut.as_str())?;
    same("masking twice", &mask::<S>(&mask::<S>(s)?)?, &mask::<S>(s)?)?;
    let mut a: RiReferenceString<S> = reference::<S>(&mask::<S>(s)?)?.to_owned();
    a.remove_password_inline();
    same("removing the password before or after masking", a.as_str(), cut.as_str())?;
    let mut nonempty: RiReferenceString<S> = r.to_owned();
    nonempty.remove_nonempty_password_inline();
    nonempty.remove_password_inline();
    same("removing the nonempty password first", nonempty.as_str(), cut.as_str())?;
    same("masking before or after mapping to a URI", &to_uri::<S>(&mask::<S>(s)?)?, &mask::<UriSpec>(&to_uri::<S>(s)?)?)?;
    same("mapping to a URI twice", &to_uri::<UriSpec>(&to_uri::<S>(s)?)?, &to_uri::<S>(s)?)?;
    let Ok(i) = RiStr::<S>::new(s) else { return Ok(()) };
    let n = normalize::<S>(s)?;
    same("masking before or after normalizing", &mask::<S>(&n)?, &normalize::<S>(&mask::<S>(s)?)?)?;
    same("removing the password before or after normalizing", &normalize::<S>(cut.as_str())?, {
        let mut x: RiReferenceString<S> = reference::<S>(&n)?.to_owned();
        x.remove_password_inline();
        &x.as_str().to_string()
    })?;
    let u = normalize::<UriSpec>(&to_uri::<S>(s)?)?;
    same("normalizing the IRI before mapping and normalizing it", &normalize::<UriSpec>(&to_uri::<S>(&n)?)?, &u)?;
    let p = i.normalize_but_preserve_authorityless_relative_path().to_string();
    same("normalizing fully after preserving relative paths", &normalize::<S>(&p)?, &n)?;
    same(
        "preserving relative paths after normalizing fully",
        &iri::<S>(&n)?.normalize_but_preserve_authorityless_relative_path().to_string(),
        &n,
    )?;
    same("masking before or after preserving normalization", &mask::<S>(&p)?, &preserve::<S>(&mask::<S>(s)?)?)?;
    same("removing the password before or after preserving normalization", &preserve::<S>(cut.as_str())?, {
        let mut x: RiReferenceString<S> = reference::<S>(&p)?.to_owned();
        x.remove_password_inline();
        &x.as_str().to_string()
    })?;
    same(
        "preserving normalization of the IRI before mapping it",
        &preserve::<UriSpec>(&to_uri::<S>(&p)?)?,
        &preserve::<UriSpec>(&to_uri::<S>(s)?)?,
    )?;
    modes::<S>(&|| i.normalize(), &n, &n, &p)?;
    modes::<S>(&|| i.normalize_but_preserve_authorityless_relative_path(), &p, &n, &p)?;
    // The fragment is normalized on its own.
    let (abs, frag) = i.to_owned().into_absolute_and_fragment();
    let mut rejoined: RiString<S> = abs.normalize().to_dedicated_string().into();
    let only = frag.map(|f| normalize::<S>(&format!("s:#{}", f.as_str()))).transpose()?;
    rejoined.set_fragment(only.as_ref().map(|f| RiFragmentStr::<S>::new(&f[3..]).unwrap()));
    same("normalizing the fragment apart", rejoined.as_str(), &n)?;
    let mut rejoined: RiString<S> = abs.normalize_but_preserve_authorityless_relative_path().to_dedicated_string().into();
    rejoined.set_fragment(only.as_ref().map(|f| RiFragmentStr::<S>::new(&f[3..]).unwrap()));
    same("preserving normalization of the fragment apart", rejoined.as_str(), &p)?;
    // As an IRI, a URI has the normal form its URI form decodes to.
    if s.is_ascii() {
        same("normalizing as an IRI and then as a URI", &normalize::<UriSpec>(&to_uri::<IriSpec>(&normalize::<IriSpec>(s)?)?)?, &normalize::<UriSpec>(s)?)?;
    }
    Ok(())
}

fn expand<S: Spec>(t: &str, c: &iri_string::template::simple_context::SimpleContext) -> Result<Option<String>, String> {
    let t = UriTemplateStr::new(t).map_err(|e| format!("{t:?} is not a valid template: {e}"))?;
    Ok(t.expand::<S, _>(c).ok().map(|e| e.to_string()))
}

fn encode_nonascii(s: &str) -> String {
    s.chars()
        .map(|c| if c.is_ascii() { c.to_string() } else { c.to_string().bytes().map(|b| format!("%{b:02X}")).collect() })
        .collect()
}

fn templates(t: &str, u: &str, env: &Env) -> R {
    let c = tpl::simple(env);
    let both = format!("{t}{u}");
    for uri in [true, false] {
        let e = |x: &str| if uri { expand::<UriSpec>(x, &c) } else { expand::<IriSpec>(x, &c) };
        let apart = match (e(t)?, e(u)?) {
            (Some(x), Some(y)) => Some(x + &y),
            _ => None,
        };
        if e(&both)? != apart {
            return Err(format!("expanding a concatenation: {:?}, apart {apart:?}", e(&both)?));
        }
    }
    let (x, y) = (expand::<UriSpec>(&both, &c)?, expand::<IriSpec>(&both, &c)?);
    if x != y.as_deref().map(encode_nonascii) {
        return Err(format!("expanding as a URI {x:?}, as an IRI {y:?}"));
    }
    Ok(())
}

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one pair of base and reference, one reference, or one pair of templates with an environment, on which every law is checked; non-trivial = a law relates different texts (relative reference, non-normalized or non-ASCII text, two non-empty templates)");
    let t = ctx.thorough;
    let pair_case = |b: &str, r: &str| {
        ctx.case(&["pair iri", b, r], || pair::<IriSpec>(b, r));
        if b.is_ascii() && r.is_ascii() {
            ctx.case(&["pair uri", b, r], || pair::<UriSpec>(b, r));
        }
        ctx.nontrivial(hash(b) ^ hash(r).rotate_left(17));
        ctx.outcome(hash(r));
    };
    let one_case = |s: &str| {
        if !valid(K::IriRef, true, s) {
            return;
        }
        ctx.case(&["single iri", s], || single::<IriSpec>(s));
        if s.is_ascii() {
            ctx.case(&["single uri", s], || single::<UriSpec>(s));
        }
        ctx.nontrivial(hash(s));
    };
    ctx.phase("pairs: products", || {
        let mut bases = Vec::new();
        for p in mc::gens::paths(&["/", "b", "..", "%2E", "\u{e9}"], if t { 4 } else { 3 }, true) {
            for pre in ["s:", "S:", "s://u:p@H", "s://:@\u{e9}:", "s://"] {
                for q in ["", "?", "?q/../%7e"] {
                    bases.push(format!("{pre}{p}{q}"));
                }
            }
        }
        let mut refs = Vec::new();
        for p in mc::gens::paths(&["/", "r", "..", "%2e", "\u{e9}:"], if t { 3 } else { 2 }, true) {
            for pre in ["", "s:", "T:", "//", "//u:w%3a@G:80", "//:@g"] {
                for q in ["", "?", "?y", "#", "#f%7e", "?#\u{e9}"] {
                    refs.push(format!("{pre}{p}{q}"));
                }
            }
        }
        bases.retain(|b| valid(K::AbsIri, true, b));
        refs.retain(|r| valid(K::IriRef, true, r));
        par(bases.len(), |i| refs.iter().for_each(|r| pair_case(&bases[i], r)));
    });
    ctx.phase("pairs: merged segments", || {
        mc::spaces::segment_paths(if t { 9 } else { 7 }, &["..", "%2e"], |segs| {
            for cut in 0..segs.len() {
                let (b, r) = segs.split_at(cut);
                let r = r.join("/");
                for pre in ["s:", "s:/", "s://h/"] {
                    let base = format!("{pre}{}/", b.join("/"));
                    if valid(K::AbsIri, false, &base) && valid(K::IriRef, false, &r) {
                        pair_case(&base, &r);
                    }
                }
            }
        });
    });
    ctx.phase("references: token strings", || {
        let toks = ["a", "B", ":", "/", "?", "#", "@", "..", "%2E", "%c3%A9", "\u{e9}", "1", "[::A]", "%c3", "%41", "\u{E000}"];
        mc::en::lang(dfa(K::IriRef, true), &toks, if t { 7 } else { 6 }, one_case);
    });
    ctx.phase("references: products", || {
        mc::gens::Refs {
            schemes: vec![None, Some("s"), Some("A1+")],
            auths: mc::gens::authorities(
                &[None, Some(""), Some("u:"), Some(":p"), Some("u%3a:p:\u{e9}"), Some("%c3%a9:%41%2f")],
                &["", "H.x", "[::A]", "1.2.3.4", "%41\u{e9}", "%4A%c3%A9", "%2E"],
                &[None, Some(""), Some("80")],
            ),
            paths: mc::gens::paths(&["/", "A", "..", "%2e", "\u{E9}", "%61"], if t { 4 } else { 3 }, true),
            queries: vec![None, Some("q\u{E000}%7e%ee%80%80")],
            frags: vec![None, Some(""), Some("f/%e3%81%82\u{3042}")],
        }
        .each(one_case);
    });
    ctx.phase("references: characters in every component", || mc::spaces::each_char(if t { 2 } else { 1 }, &one_case));
    ctx.phase("references: long components", || mc::gens::long_refs(&[7, 33, 300, 1025, 65537], one_case));
    ctx.phase("references: triplet sequences", || mc::gens::triplet_refs(t, one_case));
    let envs: Vec<Env> = vec![
        tpl::env(&[("s", tpl::s("x\u{e9}%41/%")), ("e", tpl::s("")), ("l", tpl::l(&["p%", "", "\u{E000}q"])), ("m", tpl::m(&[("k", "\u{e9}"), ("", "")]))]),
        tpl::env(&[("s", tpl::s("%c3%a9%E3%81")), ("e", tpl::l(&[])), ("l", tpl::l(&["\u{10FFFF}"])), ("m", tpl::m(&[("\u{e9}=&", "/,")]))]),
        tpl::env(&[("s", tpl::s("\u{FFFF}a b")), ("e", tpl::m(&[])), ("l", tpl::s("~")), ("m", tpl::s("!"))]),
    ];
    ctx.phase("templates", || {
        let ops = ["", "+", "#", ".", "/", ";", "?", "&"];
        let specs = ["s", "s:2", "e", "l", "l*", "m", "m*", "u", "s,e", "e,s", "u,l*,s:3", "m,u"];
        let mut parts: Vec<String> = ["", "x", "%41", "\u{e9}", "\u{E000}y", "'", "%c3%a9"].iter().map(|x| x.to_string()).collect();
        for o in ops {
            for s in specs {
                parts.push(format!("{{{o}{s}}}"));
            }
        }
        par(parts.len() * parts.len() * envs.len(), |i| {
            let (a, b, e) = (&parts[i / (parts.len() * envs.len())], &parts[i / envs.len() % parts.len()], &envs[i % envs.len()]);
            let j = tpl::to_json(e);
            for (a, b) in [(a.clone(), b.clone()), (format!("\u{e9}{a}"), format!("{b}\u{E000}")), (format!("{b}{a}"), format!("{a}%42"))] {
                ctx.case(&["templates", &a, &b, &j], || templates(&a, &b, e));
                ctx.nontrivial(hash(&a) ^ hash(&b).rotate_left(11) ^ i as u64 % 3);
            }
        });
    });
}

fn replay(_: &Ctx, c: &[String]) -> R {
    match c[0].as_str() {
        "pair iri" => pair::<IriSpec>(&c[1], &c[2]),
        "pair uri" => pair::<UriSpec>(&c[1], &c[2]),
        "single iri" => single::<IriSpec>(&c[1]),
        "single uri" => single::<UriSpec>(&c[1]),
        _ => templates(&c[1], &c[2], &tpl::from_json(&c[3])),
    }
}

fn main() {
    run("C25", "exploration", explore, replay)
}
