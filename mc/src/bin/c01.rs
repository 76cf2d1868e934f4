//! C01: every validator and string type decides exactly the RFC grammar.
//!
//! Model: minimal DFA of each ABNF production. Exploration of the implementation: for every DFA
//! state (by access string), every input class and every bounded continuation, all members of the
//! state's characterization set (W-method conformance testing), all code points / class boundaries
//! in every state, and all token strings up to a length.

use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;
use iri_string::validate as v;
use mc::grammar::{dfa, Dfa, K, KINDS};
use mc::report::{hash, par, run, Ctx};

fn both<T: ?Sized + AsRef<str>, E: std::fmt::Debug>(s: &str, a: bool, b: Result<&T, E>) -> Result<bool, String> {
    if let Ok(t) = &b {
        if t.as_ref() != s {
            return Err(format!("construction altered the text: {:?}", t.as_ref()));
        }
    }
    if a != b.is_ok() {
        return Err(format!("validator says {a}, string type says {}", b.is_ok()));
    }
    Ok(a)
}

fn accepts<S: Spec>(k: K, s: &str) -> Result<bool, String> {
    match k {
        K::Scheme => Ok(v::scheme(s).is_ok()),
        K::Userinfo => Ok(v::userinfo::<S>(s).is_ok()),
        K::Host => Ok(v::host::<S>(s).is_ok()),
        K::RegName => Ok(v::reg_name::<S>(s).is_ok()),
        K::Port => Ok(v::port(s).is_ok()),
        K::Authority => Ok(v::authority::<S>(s).is_ok()),
        K::Path => Ok(v::path::<S>(s).is_ok()),
        K::Segment => Ok(v::path_segment::<S>(s).is_ok()),
        K::Query => both(s, v::query::<S>(s).is_ok(), RiQueryStr::<S>::new(s)),
        K::Fragment => both(s, v::fragment::<S>(s).is_ok(), RiFragmentStr::<S>::new(s)),
        K::Iri => both(s, v::iri::<S>(s).is_ok(), RiStr::<S>::new(s)),
        K::AbsIri => both(s, v::absolute_iri::<S>(s).is_ok(), RiAbsoluteStr::<S>::new(s)),
        K::RelRef => both(s, v::relative_ref::<S>(s).is_ok(), RiRelativeStr::<S>::new(s)),
        K::IriRef => both(s, v::iri_reference::<S>(s).is_ok(), RiReferenceStr::<S>::new(s)),
        _ => unreachable!(),
    }
}

/// The remaining ways to construct a value.
macro_rules! forms {
    ($s:expr, $want:expr, $b:ident, $o:ident, $S:ty) => {{
        let s: &str = $s;
        let mut got: Vec<(&str, Option<String>)> = Vec::new();
        got.push(("TryFrom<&str>", <&$b<$S>>::try_from(s).ok().map(|x| x.as_str().to_string())));
        got.push(("TryFrom<&[u8]>", <&$b<$S>>::try_from(s.as_bytes()).ok().map(|x| x.as_str().to_string())));
        got.push(("owned TryFrom<&str>", $o::<$S>::try_from(s).ok().map(|x| x.as_str().to_string())));
        got.push(("owned TryFrom<&[u8]>", $o::<$S>::try_from(s.as_bytes()).ok().map(|x| x.as_str().to_string())));
        got.push(("FromStr", s.parse::<$o<$S>>().ok().map(|x| x.as_str().to_string())));
        match $o::<$S>::try_from(s.to_string()) {
            Ok(x) => got.push(("owned TryFrom<String>", Some(x.as_str().to_string()))),
            Err(e) => {
                if e.into_source() != s {
                    return Err("into_source() differs from the input".into());
                }
                got.push(("owned TryFrom<String>", None))
            }
        }
        for (n, g) in got {
            let want = if $want { Some(s) } else { None };
            if g.as_deref() != want {
                return Err(format!("{n} gives {g:?}, the grammar requires {want:?}"));
            }
        }
    }};
}

fn all_forms<S: Spec>(k: K, s: &str, want: bool) -> Result<(), String> {
    match k {
        K::Query => {
            forms!(s, want, RiQueryStr, RiQueryString, S);
            prefixed(s, want, '?', RiQueryStr::<S>::from_prefixed(&format!("?{s}")).map(|x| x.as_str()).ok())?;
            if !s.starts_with('?') {
                prefixed(s, false, '?', RiQueryStr::<S>::from_prefixed(s).map(|x| x.as_str()).ok())?;
            }
        }
        K::Fragment => {
            forms!(s, want, RiFragmentStr, RiFragmentString, S);
            prefixed(s, want, '#', RiFragmentStr::<S>::from_prefixed(&format!("#{s}")).map(|x| x.as_str()).ok())?;
            if !s.starts_with('#') {
                prefixed(s, false, '#', RiFragmentStr::<S>::from_prefixed(s).map(|x| x.as_str()).ok())?;
            }
        }
        K::Iri => forms!(s, want, RiStr, RiString, S),
        K::AbsIri => forms!(s, want, RiAbsoluteStr, RiAbsoluteString, S),
        K::RelRef => forms!(s, want, RiRelativeStr, RiRelativeString, S),
        K::IriRef => forms!(s, want, RiReferenceStr, RiReferenceString, S),
        _ => {}
    }
    Ok(())
}

fn prefixed(s: &str, want: bool, c: char, got: Option<&str>) -> Result<(), String> {
    if got != if want { Some(s) } else { None } {
        return Err(format!("from_prefixed with {c:?} gives {got:?}"));
    }
    Ok(())
}

fn check(ctx: &Ctx, d: &Dfa, k: K, iri: bool, s: &str, forms: bool) {
    let spec = if iri { "iri" } else { "uri" };
    ctx.case(&["str", spec, k.name(), s], || verify(d, k, iri, s, forms));
}

fn verify(d: &Dfa, k: K, iri: bool, s: &str, forms: bool) -> Result<(), String> {
    let want = d.accepts(s);
    let got = if iri { accepts::<IriSpec>(k, s) } else { accepts::<UriSpec>(k, s) }?;
    if got != want {
        return Err(format!("{} {} {s:?}: grammar says {want}, implementation says {got}", if iri { "IRI" } else { "URI" }, k.name()));
    }
    if forms {
        if iri {
            all_forms::<IriSpec>(k, s, want)?;
        } else {
            all_forms::<UriSpec>(k, s, want)?;
        }
    }
    Ok(())
}

fn bytes_case<S: Spec>(b: &[u8]) -> Result<(), String> {
    let text = std::str::from_utf8(b).ok();
    macro_rules! one {
        ($($b:ident $o:ident),*) => {$({
            let want = text.filter(|t| $b::<S>::new(t).is_ok());
            let got = <&$b<S>>::try_from(b).ok().map(|x| x.as_str());
            let own = $o::<S>::try_from(b).ok();
            if got != want || own.as_ref().map(|x| x.as_str()) != want {
                return Err(format!("{} from bytes {b:?}: {got:?} / {own:?}, from text: {want:?}", stringify!($b)));
            }
        })*};
    }
    one!(RiStr RiString, RiAbsoluteStr RiAbsoluteString, RiRelativeStr RiRelativeString,
         RiReferenceStr RiReferenceString, RiQueryStr RiQueryString, RiFragmentStr RiFragmentString);
    Ok(())
}

const BYTES: &[u8] = &[b'a', b':', b'#', b'/', 0xE3, 0x81, 0x82, 0xC3, 0xA9, 0xFF, 0xED, 0xF0, 0x90];

const TOKENS: &[&str] = &[
    "a", "B", "1", ":", "/", "?", "#", "@", "[", "]", "[::]", "[v1.a]", "%41", "%", "%4", "%e3%81%82", "\u{E9}",
    "\u{E000}", "\u{FFFE}", ".", "-", "1.2.3.4", "256", "&", " ", "|", "\u{0}", "\u{10FFFF}",
];

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one string given to one validator and the corresponding string types; states/transitions are those of the minimal grammar automata, every transition is driven into the implementation");
    let pairs: Vec<(K, bool)> = KINDS.iter().flat_map(|&k| [(k, false), (k, true)]).collect();
    let mut jobs = Vec::new();
    for &(k, iri) in &pairs {
        let d = dfa(k, iri);
        ctx.states(d.n as u64);
        ctx.transitions((d.n * d.nclass) as u64);
        for q in 0..d.n {
            jobs.push((k, iri, q));
        }
    }
    let pre: Vec<_> = pairs
        .iter()
        .map(|&(k, iri)| {
            let d = dfa(k, iri);
            let w = d.char_set();
            let sets = d.state_sets(&w);
            ctx.count("characterization strings", w.len() as u64);
            (d, d.access(), w, sets)
        })
        .collect();
    let look = |k: K, iri: bool| &pre[pairs.iter().position(|&p| p == (k, iri)).unwrap()];
    let depth = if ctx.thorough { 2 } else { 1 };
    ctx.phase("conformance (access x class^k x characterization)", || {
        par(jobs.len(), |j| {
            let (k, iri, q) = jobs[j];
            let (d, acc, w, sets) = look(k, iri);
            // Full characterization set right after the access string.
            for x in w {
                check(ctx, d, k, iri, &format!("{}{x}", acc[q]), true);
            }
            extend(ctx, d, k, iri, q, &mut acc[q].clone(), depth + 1, w, sets);
        });
    });
    ctx.phase("characters in every state", || {
        par(jobs.len(), |j| {
            let (k, iri, q) = jobs[j];
            let (d, acc, w, sets) = look(k, iri);
            let mut one = |c: char| {
                let mut s = acc[q].clone();
                s.push(c);
                let t = d.step(q, c);
                let n = s.len();
                for &i in &sets[t] {
                    s.push_str(&w[i]);
                    check(ctx, d, k, iri, &s, false);
                    s.truncate(n);
                }
            };
            // All of ASCII and Latin-1 and both sides of every class boundary.
            (0..0x100u32).filter_map(char::from_u32).for_each(&mut one);
            for &(a, _) in &d.intervals {
                for c in [a.wrapping_sub(2), a.wrapping_sub(1), a, a + 1] {
                    if c >= 0x100 {
                        char::from_u32(c).map(&mut one);
                    }
                }
            }
        });
    });
    ctx.phase("all code points in representative states", || {
        let done: Vec<Vec<String>> = pre.iter().map(|p| p.0.completions()).collect();
        // One state per distinct row of the transition table over non-ASCII classes.
        par(pairs.len() * 17, |j| {
            let (k, iri) = pairs[j / 17];
            let plane = (j % 17) as u32;
            let (d, acc, ..) = look(k, iri);
            let mut seen: Vec<Vec<bool>> = Vec::new();
            for q in 0..d.n {
                let dead = d.run(0, "\u{0}");
                let row: Vec<bool> = (0..d.nclass)
                    .filter(|&c| ctx.thorough || !d.rep(c).is_ascii())
                    .map(|c| d.next(q, c) != dead)
                    .collect();
                if seen.contains(&row) && !(ctx.thorough && d.n <= 64) {
                    continue;
                }
                seen.push(row);
                // Continue to the nearest accepting state so that acceptance is observable.
                let mut s = acc[q].clone();
                let n = s.len();
                let fin = &done[j / 17];
                for c in (plane * 0x10000..(plane + 1) * 0x10000).filter_map(char::from_u32) {
                    s.push(c);
                    let t = d.step(q, c);
                    s.push_str(&fin[t]);
                    check(ctx, d, k, iri, &s, false);
                    s.truncate(n);
                }
            }
        });
    });
    ctx.phase("repetitions", || {
        let lens: Vec<usize> = if ctx.thorough { (1..=70).collect() } else { vec![3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65] };
        par(jobs.len(), |j| {
            let (k, iri, q) = jobs[j];
            let (d, acc, w, sets) = look(k, iri);
            for c in 0..d.nclass {
                for &n in &lens {
                    let mut s = acc[q].clone();
                    (0..n).for_each(|_| s.push(d.rep(c)));
                    let t = d.run(0, &s);
                    let m = s.len();
                    for &i in &sets[t] {
                        s.push_str(&w[i]);
                        check(ctx, d, k, iri, &s, false);
                        s.truncate(m);
                    }
                }
            }
        });
    });
    // Where a unit can be repeated, every character inside a run of it, and long runs.
    ctx.phase("characters inside runs", || {
        let (before, after): (&[usize], &[usize]) = if ctx.thorough {
            (&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65], &[0, 1, 2, 6, 7, 8, 9, 15, 16, 17, 31, 32, 64])
        } else {
            (&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17], &[0, 1, 7, 8, 16])
        };
        let long: &[usize] = if ctx.thorough {
            &[127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537]
        } else {
            &[127, 128, 129, 255, 256, 257, 512, 1000, 1024, 1025, 4096, 65536]
        };
        par(jobs.len(), |j| {
            let (k, iri, q) = jobs[j];
            let (d, acc, w, sets) = look(k, iri);
            for u in ["a", "1", "/", "\u{e9}", "%41"] {
                if d.run(q, u) != q || d.run(q, "") == d.run(0, "\u{0}") {
                    continue;
                }
                let mut chars: Vec<char> = (0..0x100u32).filter_map(char::from_u32).collect();
                chars.extend(d.intervals.iter().flat_map(|&(a, _)| [a.wrapping_sub(1), a]).filter(|&c| c >= 0x100).filter_map(char::from_u32));
                for &a in before {
                    let mut s = acc[q].clone() + &u.repeat(a);
                    let n = s.len();
                    for &c in &chars {
                        for &b in after {
                            s.push(c);
                            s.push_str(&u.repeat(b));
                            check(ctx, d, k, iri, &s, false);
                            s.truncate(n);
                        }
                    }
                }
                for &a in long {
                    let s = acc[q].clone() + &u.repeat(a);
                    for &i in &sets[q] {
                        check(ctx, d, k, iri, &format!("{s}{}", w[i]), true);
                    }
                    for c in ["[", "#", "?", ":", "@", "%", "\u{e9}", "\u{E000}", " "] {
                        for b in [1, 9, a / 2, a] {
                            check(ctx, d, k, iri, &format!("{s}{c}{}", u.repeat(b)), false);
                        }
                    }
                }
            }
        });
    });
    ctx.phase("token strings", || {
        let max = if ctx.thorough { 5 } else { 3 };
        mc::en::strings(TOKENS, max, |s| {
            for &(k, iri) in &pairs {
                let d = look(k, iri).0;
                check(ctx, d, k, iri, s, s.len() < 24);
            }
            ctx.outcome(hash(s));
        });
    });
    ctx.phase("addresses", || {
        let parts: Vec<String> = (0..=300).map(|n| n.to_string())
            .chain(["00", "01", "007", "", "1000", "1a", "%31", "0x1"].map(String::from)).collect();
        let few = ["0", "9", "10", "99", "100", "199", "200", "249", "250", "255", "256", "260", "01", "", "a"];
        par(parts.len() * 4, |j| {
            let (p, pos) = (&parts[j / 4], j % 4);
            for a in few { for b in few { for c in few {
                let mut o = vec![a, b, c];
                o.insert(pos, p);
                let host = o.join(".");
                for (pre, post, ks) in [("", "", [K::Host, K::Authority]), ("//", "", [K::RelRef, K::IriRef]),
                                        ("[::", "]", [K::Host, K::Authority]), ("x://", ":1/", [K::Iri, K::AbsIri])] {
                    let s = format!("{pre}{host}{post}");
                    for k in ks {
                        check(ctx, look(k, false).0, k, false, &s, false);
                    }
                }
            }}}
        });
        let toks: &[&str] = &["1:", "abcd:", "1", "::", ":", "12345", "1.2.3.4"];
        let max = if ctx.thorough { 9 } else { 7 };
        mc::en::strings(toks, max, |s| {
            let h = format!("[{s}]");
            check(ctx, look(K::Host, false).0, K::Host, false, &h, false);
        });
    });
    ctx.phase("bytes", || {
        let max = if ctx.thorough { 5 } else { 4 };
        let n = BYTES.len();
        for len in 0..=max {
            mc::en::product(&vec![n; len], |idx| {
                let b: Vec<u8> = idx.iter().map(|&i| BYTES[i]).collect();
                for iri in [false, true] {
                    let spec = if iri { "iri" } else { "uri" };
                    ctx.case(&["bytes", spec, &format!("{b:?}")], || {
                        if iri { bytes_case::<IriSpec>(&b) } else { bytes_case::<UriSpec>(&b) }
                    });
                }
            });
        }
    });
    ctx.assume("beyond the driven strings, the implementation's acceptance is an automaton with at most `k` (quick 1, thorough 2) more states than the grammar's minimal automaton (W-method fault model), or depends on repetition counts up to the listed ones");
}

/// Visits `access · class^0..=depth`, checking the landing state's characterization strings.
#[allow(clippy::too_many_arguments)]
fn extend(ctx: &Ctx, d: &Dfa, k: K, iri: bool, q: usize, s: &mut String, depth: usize, w: &[String], sets: &[Vec<usize>]) {
    let n = s.len();
    for &i in &sets[q] {
        s.push_str(&w[i]);
        check(ctx, d, k, iri, s, false);
        s.truncate(n);
    }
    if depth == 0 {
        return;
    }
    for c in 0..d.nclass {
        s.push(d.rep(c));
        extend(ctx, d, k, iri, d.next(q, c), s, depth - 1, w, sets);
        s.truncate(n);
    }
}

fn replay(_: &Ctx, c: &[String]) -> Result<(), String> {
    let iri = c[1] == "iri";
    if c[0] == "bytes" {
        let b: Vec<u8> = serde_json::from_str(&c[2]).unwrap();
        return if iri { bytes_case::<IriSpec>(&b) } else { bytes_case::<UriSpec>(&b) };
    }
    let k = K::from_name(&c[2]);
    verify(dfa(k, iri), k, iri, &c[3], true)
}

fn main() {
    run("C01", "model_checking", explore, replay)
}
