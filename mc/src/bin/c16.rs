//! C16: templates and variable names are accepted exactly by the RFC 6570 grammar.
//!
//! Model: minimal DFAs of `URI-Template` (erratum 6937, reserved operators excluded) and `varname`.
//! The implementation is driven through every transition, every bounded continuation with
//! distinguishing suffixes, every character in every state, repetitions, token strings and bytes.

use iri_string::template::context::VarName;
use iri_string::template::{UriTemplateStr, UriTemplateString};
use mc::grammar::{dfa, Dfa, K};
use mc::report::{hash, par, run, Ctx};

const KS: [K; 2] = [K::Template, K::VarName];

fn verify(k: K, s: &str, forms: bool) -> Result<(), String> {
    let want = dfa(k, false).accepts(s);
    let got = match k {
        K::VarName => match VarName::new(s) {
            Ok(v) if v.as_str() != s => return Err(format!("text altered: {:?}", v.as_str())),
            v => v.is_ok(),
        },
        _ => match UriTemplateStr::new(s) {
            Ok(t) if t.as_str() != s => return Err(format!("text altered: {:?}", t.as_str())),
            t => t.is_ok(),
        },
    };
    if got != want {
        return Err(format!("{} {s:?}: grammar says {want}, implementation says {got}", k.name()));
    }
    if k == K::VarName || !forms {
        return Ok(());
    }
    let mut all: Vec<(&str, Option<String>)> = vec![
        ("TryFrom<&str>", <&UriTemplateStr>::try_from(s).ok().map(|x| x.as_str().to_string())),
        ("TryFrom<&[u8]>", <&UriTemplateStr>::try_from(s.as_bytes()).ok().map(|x| x.to_string())),
        ("owned TryFrom<&str>", UriTemplateString::try_from(s).ok().map(|x| x.to_string())),
        ("owned TryFrom<&[u8]>", UriTemplateString::try_from(s.as_bytes()).ok().map(String::from)),
        ("FromStr", s.parse::<UriTemplateString>().ok().map(|x| x.as_slice().to_string())),
    ];
    match UriTemplateString::try_from(s.to_string()) {
        Ok(x) => all.push(("owned TryFrom<String>", Some(String::from(x)))),
        Err(e) => {
            let _ = (e.to_string(), e.validation_error().to_string());
            if e.into_source() != s {
                return Err("into_source() differs from the input".into());
            }
            all.push(("owned TryFrom<String>", None));
        }
    }
    for (n, g) in all {
        if g.as_deref() != want.then_some(s) {
            return Err(format!("{n} gives {g:?}, the grammar requires {want}"));
        }
    }
    if let Ok(t) = UriTemplateStr::new(s) {
        let mut twice = UriTemplateString::from(t);
        twice.append(t);
        twice.shrink_to_fit();
        if twice.as_str() != format!("{s}{s}") || UriTemplateStr::new(twice.as_str()).is_err() {
            return Err(format!("append gives {:?}", twice.as_str()));
        }
        if (t.len(), t.is_empty()) != (s.len(), s.is_empty()) {
            return Err("len/is_empty".into());
        }
    }
    Ok(())
}

fn bytes_case(b: &[u8]) -> Result<(), String> {
    let want = std::str::from_utf8(b).ok().filter(|t| UriTemplateStr::new(t).is_ok());
    let got = <&UriTemplateStr>::try_from(b).ok().map(|x| x.as_str());
    let own = UriTemplateString::try_from(b).ok();
    if got != want || own.as_ref().map(|x| x.as_str()) != want {
        return Err(format!("from bytes {b:?}: {got:?} / {own:?}, from text {want:?}"));
    }
    Ok(())
}

fn check(ctx: &Ctx, k: K, s: &str, forms: bool) {
    ctx.case(&["str", k.name(), s], || verify(k, s, forms));
}

fn extend(ctx: &Ctx, d: &Dfa, k: K, q: usize, s: &mut String, depth: usize, w: &[String], sets: &[Vec<usize>]) {
    let n = s.len();
    for &i in &sets[q] {
        s.push_str(&w[i]);
        check(ctx, k, s, false);
        s.truncate(n);
    }
    if depth > 0 {
        for c in 0..d.nclass {
            s.push(d.rep(c));
            extend(ctx, d, k, d.next(q, c), s, depth - 1, w, sets);
            s.truncate(n);
        }
    }
}

const TOKENS: &[&str] = &[
    "a", "9", "0", "_", ".", "{", "}", "+", "=", "!", ",", ":", "*", "%", "%e9", "'", "\u{e9}", "-", " ", "?", "/", "\u{e000}",
];
const INNER: &[&str] = &["a", ".", ",", ":", "*", "1", "0", "999", "%4", "%41", "+", "}", "{", "\u{e9}", "|", "x_"];
const BYTES: &[u8] = &[b'a', b'{', b'}', b'%', b'4', 0xE3, 0x81, 0x82, 0xC3, 0xA9, 0xFF, 0xED, 0xF0, 0x90];

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one string given to one validator and all its constructors; states/transitions are those of the minimal grammar automata, every transition is driven into the implementation");
    let pre: Vec<_> = KS
        .iter()
        .map(|&k| {
            let d = dfa(k, false);
            ctx.states(d.n as u64);
            ctx.transitions((d.n * d.nclass) as u64);
            let w = d.char_set();
            let sets = d.state_sets(&w);
            ctx.count("characterization strings", w.len() as u64);
            (k, d, d.access(), w, sets, d.completions())
        })
        .collect();
    let jobs: Vec<(usize, usize)> = (0..2).flat_map(|i| (0..pre[i].1.n).map(move |q| (i, q))).collect();
    let depth = if ctx.thorough { 5 } else { 4 };
    ctx.phase("conformance (access x class^k x characterization)", || {
        // Split by the first class for parallelism.
        let jobs: Vec<_> = jobs.iter().flat_map(|&(i, q)| (0..pre[i].1.nclass).map(move |c| (i, q, c))).collect();
        par(jobs.len(), |j| {
            let (i, q, c) = jobs[j];
            let (k, d, acc, w, sets, _) = &pre[i];
            if c == 0 {
                for x in w {
                    check(ctx, *k, &format!("{}{x}", acc[q]), true);
                }
            }
            let mut s = acc[q].clone();
            s.push(d.rep(c));
            extend(ctx, d, *k, d.next(q, c), &mut s, depth - 1, w, sets);
        });
    });
    ctx.phase("characters in every state", || {
        par(jobs.len() * 17, |j| {
            let (i, q) = jobs[j / 17];
            let plane = (j % 17) as u32;
            let (k, d, acc, w, sets, fin) = &pre[i];
            let one = |c: char, all: bool| {
                let mut s = acc[q].clone();
                s.push(c);
                let t = d.step(q, c);
                let n = s.len();
                if all {
                    for &x in &sets[t] {
                        s.push_str(&w[x]);
                        check(ctx, *k, &s, true);
                        s.truncate(n);
                    }
                } else {
                    s.push_str(&fin[t]);
                    check(ctx, *k, &s, false);
                }
            };
            if plane == 0 {
                (0..0x100u32).filter_map(char::from_u32).for_each(|c| one(c, true));
            }
            for &(a, _) in &d.intervals {
                for c in [a.wrapping_sub(2), a.wrapping_sub(1), a, a + 1] {
                    if c >= 0x100 && c >> 16 == plane {
                        if let Some(c) = char::from_u32(c) {
                            one(c, true);
                        }
                    }
                }
            }
            // All code points in the start state, and inside an expression.
            if ctx.thorough || q == 0 {
                (plane * 0x10000..(plane + 1) * 0x10000).filter_map(char::from_u32).for_each(|c| one(c, false));
            }
        });
    });
    ctx.phase("repetitions", || {
        let lens: Vec<usize> = if ctx.thorough { (1..=70).collect() } else { vec![3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65] };
        par(jobs.len(), |j| {
            let (i, q) = jobs[j];
            let (k, d, acc, w, sets, _) = &pre[i];
            for c in 0..d.nclass {
                for &n in &lens {
                    let mut s = acc[q].clone();
                    (0..n).for_each(|_| s.push(d.rep(c)));
                    let t = d.run(0, &s);
                    let m = s.len();
                    for &x in &sets[t] {
                        s.push_str(&w[x]);
                        check(ctx, *k, &s, false);
                        s.truncate(m);
                    }
                }
            }
        });
    });
    // Where a unit can be repeated, every character inside a run of it, and long runs.
    ctx.phase("characters inside runs", || {
        let ns: &[usize] = if ctx.thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65] } else { &[0, 1, 2, 7, 8, 9, 15, 16, 17, 33] };
        let long: &[usize] = if ctx.thorough {
            &[127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 513, 999, 1000, 1024, 1025, 4096, 9999, 10000, 65535, 65536, 65537]
        } else {
            &[127, 128, 129, 255, 256, 257, 1024, 10000, 65536]
        };
        par(jobs.len(), |j| {
            let (i, q) = jobs[j];
            let (k, d, acc, w, sets, fin) = &pre[i];
            for u in ["a", "1", "\u{e9}", "%41", "x.", ",v", ",v:10", ",v*", ",a,b.c:3", "{v}", "{+a,b*}", "{#v}/", "'"] {
                if d.run(q, u) != q || d.run(q, "") == d.run(0, "}") {
                    continue;
                }
                let mut chars: Vec<char> = (0..0x100u32).filter_map(char::from_u32).collect();
                chars.extend(d.intervals.iter().flat_map(|&(a, _)| [a.wrapping_sub(1), a]).filter(|&c| c >= 0x100).filter_map(char::from_u32));
                for &a in ns {
                    let s = acc[q].clone() + &u.repeat(a);
                    for &c in &chars {
                        for &b in ns {
                            let mut t = s.clone();
                            t.push(c);
                            t += &u.repeat(b);
                            t += &fin[d.run(0, &t)];
                            check(ctx, *k, &t, false);
                        }
                    }
                }
                for &a in long {
                    let s = acc[q].clone() + &u.repeat(a);
                    for &x in &sets[q] {
                        check(ctx, *k, &format!("{s}{}", w[x]), true);
                    }
                    for c in ["{", "}", ",", ":", "*", "%", "\u{e9}", "\u{E000}", " ", "|"] {
                        for b in [1, 9, a / 2, a] {
                            let t = format!("{s}{c}{}", u.repeat(b));
                            check(ctx, *k, &(t.clone() + &fin[d.run(0, &t)]), true);
                        }
                    }
                }
            }
        });
    });
    ctx.phase("token strings", || {
        mc::en::strings(TOKENS, if ctx.thorough { 6 } else { 5 }, |s| {
            check(ctx, K::Template, s, s.len() < 5);
            check(ctx, K::VarName, s, false);
            ctx.outcome(hash(s));
        });
        mc::en::strings(INNER, if ctx.thorough { 6 } else { 5 }, |s| {
            check(ctx, K::Template, &format!("{{{s}}}"), false);
            check(ctx, K::Template, &format!("b{{;{s}}}%41"), false);
        });
    });
    ctx.phase("max lengths", || {
        par(11_000, |n| {
            for s in [format!("{{a:{n}}}"), format!("{{a:{n:04}}}"), format!("{{a:{n:05}}}"), format!("{{a:{n}*}}"), format!("{{a:{n}"), format!("{{a,b:{n},c*}}")] {
                check(ctx, K::Template, &s, false);
            }
        });
        for s in ["+1", "-1", "1_0", "\u{661}", "65536", "65537", "70000", "4294967297", "18446744073709551617", "1e1", "0x1", " 1"] {
            check(ctx, K::Template, &format!("{{a:{s}}}"), true);
        }
    });
    ctx.phase("bytes", || {
        let n = BYTES.len();
        for len in 0..=if ctx.thorough { 6 } else { 5 } {
            mc::en::product(&vec![n; len], |idx| {
                let b: Vec<u8> = idx.iter().map(|&i| BYTES[i]).collect();
                ctx.case(&["bytes", &format!("{b:?}")], || bytes_case(&b));
            });
        }
    });
    ctx.assume("beyond the driven strings, the implementation's acceptance is an automaton with at most `k` (quick 4, thorough 5) more states than the grammar's minimal automaton (W-method fault model), or depends on repetition counts up to the listed ones");
}

fn replay(_: &Ctx, c: &[String]) -> Result<(), String> {
    if c[0] == "bytes" {
        return bytes_case(&serde_json::from_str::<Vec<u8>>(&c[1]).unwrap());
    }
    verify(K::from_name(&c[1]), &c[2], true)
}

fn main() {
    run("C16", "model_checking", explore, replay)
}
