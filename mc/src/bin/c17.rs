//! C17: expansion equals RFC 6570 section 3.
//!
//! Reference: `mc::tpl`, the pseudo code of RFC 6570 Appendix A over materialised values.
//! Enumerated: every operator x modifier x value shape, every list of variable specifications and
//! every template (language of the grammar automaton) within the bounds, every code point as value
//! and literal, every one- and two-byte triplet sequence under prefix modifiers.

use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::simple_context::{SimpleContext, Value};
use iri_string::template::UriTemplateStr;
use iri_string::types::*;
use mc::grammar::{dfa, K};
use mc::report::{hash, par, run, Ctx};
use mc::tpl::{self, Env, Val};

pub fn simple(env: &Env) -> SimpleContext {
    let mut c = SimpleContext::new();
    for (n, v) in env {
        let v = match v {
            Val::Undef => Value::Undefined,
            Val::Str(s) => Value::String(s.clone()),
            Val::List(l) => Value::List(l.clone()),
            Val::Assoc(m) => Value::Assoc(m.clone()),
        };
        c.insert(n.as_str(), v);
    }
    c
}

fn judge<S: Spec>(t: &str, env: &Env, iri: bool, c: &SimpleContext, full: bool) -> Result<Option<String>, String> {
    let want = tpl::expand(t, env, iri);
    let tmpl = UriTemplateStr::new(t).map_err(|e| format!("template rejected: {e}"))?;
    let e = tmpl.expand::<S, _>(c);
    let got = e.as_ref().ok().map(|e| e.to_string());
    if got != want {
        return Err(format!("expansion gives {got:?}, RFC 6570 {want:?}"));
    }
    if !full {
        return Ok(want);
    }
    let dynamic = tmpl.expand_dynamic_to_string::<S, _>(&mut c.clone()).ok();
    if dynamic != want {
        return Err(format!("dynamic expansion gives {dynamic:?}, RFC 6570 {want:?}"));
    }
    let vars: Vec<&str> = tmpl.variables().map(|v| v.as_str()).collect();
    if vars != tpl::variables(t) {
        return Err(format!("variables() gives {vars:?}"));
    }
    if let (true, Some(w)) = (e.is_ok(), &want) {
        macro_rules! conv {
            ($($t:ident $k:ident),*) => {$({
                let ok = dfa(K::$k, iri).accepts(w);
                let got = $t::<S>::try_from(tmpl.expand::<S, _>(c).unwrap()).map(|x| x.as_str().to_string()).map_err(|e| e.into_source());
                match got {
                    Ok(x) if !ok || x != *w => return Err(format!("converted into {} as {x:?}", stringify!($t))),
                    Err(e) if ok || e != *w => return Err(format!("not converted into {}", stringify!($t))),
                    _ => {}
                }
            })*};
        }
        conv!(RiReferenceString IriRef, RiString Iri, RiAbsoluteString AbsIri, RiRelativeString RelRef);
    }
    Ok(want)
}

fn check(ctx: &Ctx, t: &str, env: &Env, full: bool) {
    let j = tpl::to_json(env);
    let c = simple(env);
    for (spec, iri) in [("uri", false), ("iri", true)] {
        ctx.case(&["t", spec, t, &j], || {
            let r = if iri { judge::<IriSpec>(t, env, iri, &c, full) } else { judge::<UriSpec>(t, env, iri, &c, full) }?;
            if !env.is_empty() {
                ctx.nontrivial(hash(t) ^ hash(&j).rotate_left(17) ^ u64::from(iri));
            }
            ctx.outcome(hash(r.as_deref().unwrap_or("<error>")));
            Ok(())
        });
    }
}

const OPS: &[&str] = &["", "+", "#", ".", "/", ";", "?", "&"];
const MODS: &[&str] = &["", ":1", ":2", ":3", ":4", ":7", ":10", ":9999", "*"];

/// Value building blocks: every class of character and every kind of (partial) triplet.
const V: &[&str] = &["a", "%", "%4", "%41", "%C3%A9", "%c3", "%e3%81", "\u{e9}", "\u{10FFFF}", "/", " ", "~", "\u{E000}", "=", "{"];
const W: &[&str] = &["", "a", "\u{e9}", "%41", "%", "/", "%C3%A9", " "];

const TOKENS: &[&str] =
    &["{", "}", "a", "b", "l", "m", "n", "u", ",", "*", ":1", ":2", "+", "#", ".", "/", ";", "?", "&", "%41", "\u{e9}"];

fn fixed() -> Env {
    tpl::env(&[
        ("a", tpl::s("\u{e9}%C3%A9/%!")),
        ("b", tpl::s("")),
        ("l", tpl::l(&["x", "", "\u{e9}?"])),
        ("m", tpl::m(&[("k", "v"), ("\u{e9}", ""), ("", "%41")])),
        ("n", tpl::l(&[])),
        ("aa", tpl::s("two")),
        ("a.b", tpl::s("dotted")),
        ("%41", tpl::s("triplet")),
        ("a%41", tpl::l(&["p"])),
    ])
}

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one (template, variable assignment, spec), non-trivial when some variable is defined");
    let t = ctx.thorough;
    ctx.phase("strings: operator x modifier x value", || {
        mc::en::strings(V, if t { 4 } else { 3 }, |v| {
            let e = vec![("v".to_string(), tpl::s(v))];
            for op in OPS {
                for m in MODS {
                    check(ctx, &format!("{{{op}v{m}}}"), &e, v.len() < 6);
                }
            }
        });
    });
    ctx.phase("lists: operator x modifier x members", || {
        let max = 4;
        for n in 0..=max {
            mc::en::product(&vec![W.len(); n], |i| {
                let e = vec![("v".to_string(), Val::List(i.iter().map(|&k| W[k].to_string()).collect()))];
                for op in OPS {
                    for m in ["", "*", ":1", ":9"] {
                        check(ctx, &format!("{{{op}v{m}}}"), &e, n < 3);
                    }
                }
            });
        }
    });
    ctx.phase("associative arrays: operator x modifier x entries", || {
        let keys = ["k", "", "\u{e9}", "%41", "/=", "%"];
        let vals = ["v", "", "\u{e9}", "%2F", "&,"];
        let max = if t { 3 } else { 2 };
        for n in 0..=max {
            mc::en::product(&vec![keys.len() * vals.len(); n], |i| {
                let m = i.iter().map(|&k| (keys[k % keys.len()].to_string(), vals[k / keys.len()].to_string())).collect();
                let e = vec![("v".to_string(), Val::Assoc(m))];
                for op in OPS {
                    for m in ["", "*", ":1", ":9999"] {
                        check(ctx, &format!("{{{op}v{m}}}"), &e, n < 2);
                    }
                }
            });
        }
    });
    ctx.phase("variable lists", || {
        let e = tpl::env(&[
            ("s", tpl::s("x\u{e9}%41/")),
            ("e", tpl::s("")),
            ("l", tpl::l(&["p", "q"])),
            ("o", tpl::l(&[""])),
            ("m", tpl::m(&[("k", "v"), ("j", "")])),
            ("n", tpl::l(&[])),
            ("z", tpl::m(&[])),
        ]);
        let specs = [
            "s", "s:1", "s:2", "s*", "e", "e:1", "e*", "l", "l*", "l:1", "o", "o*", "m", "m*", "m:3", "n", "n*", "n:1", "z", "z*", "z:2", "u", "u*", "u:1",
        ];
        for n in 1..=if t { 4 } else { 3 } {
            let mut sizes = vec![specs.len(); n];
            sizes.push(OPS.len());
            mc::en::product(&sizes, |i| {
                let list: Vec<&str> = i[..n].iter().map(|&k| specs[k]).collect();
                check(ctx, &format!("{{{}{}}}", OPS[i[n]], list.join(",")), &e, true);
            });
        }
    });
    ctx.phase("template language", || {
        let e = fixed();
        let d = dfa(K::Template, false);
        let nodes = mc::en::lang(d, TOKENS, if t { 6 } else { 5 }, |s| check(ctx, s, &e, true));
        ctx.count("prefix-tree nodes of the template language", nodes);
    });
    ctx.phase("consecutive expressions and literals", || {
        let e = fixed();
        let parts = [
            "{a}", "{b}", "{u}", "{+a:2}", "{#l*}", "{?m*}", "{&b}", "{;n}", "{/l}", "{.m}", "x", "\u{e9}", "%41", "'", "{u,a}", "{?b,u,l*}", "{m:1}", "\u{E000}", "{%41}", "{a.b}", "{a%41*}",
        ];
        mc::en::strings(&parts, if t { 5 } else { 4 }, |s| check(ctx, s, &e, true));
    });
    ctx.phase("every code point as value, member, key and literal", || {
        let lit = dfa(K::Template, false);
        par(0x110, |p| {
            for c in (p as u32 * 0x1000..(p as u32 + 1) * 0x1000).filter_map(char::from_u32) {
                let s = c.to_string();
                let e = vec![("v".to_string(), tpl::s(&s)), ("w".to_string(), Val::Assoc(vec![(s.clone(), s.clone())]))];
                check(ctx, "{v}{+v:1}{?w*}{#w}", &e, false);
                if t || p < 2 {
                    for x in ["{;v:1}", "{&w}", "{/w*}", "{+w*}"] {
                        check(ctx, x, &e, true);
                    }
                }
                if lit.accepts(&s) {
                    check(ctx, &format!("{s}{{v:1}}"), &e, false);
                }
            }
        });
    });
    ctx.phase("prefix lengths over triplet sequences", || {
        par(0x100, |a| {
            for b in 0..0x100usize {
                for s in [format!("%{a:02X}%{b:02x}z"), format!("%{a:02x}\u{e9}%{b:02X}")] {
                    let e = vec![("v".to_string(), tpl::s(&s))];
                    for x in ["{+v:1}", "{#v:2}", "{+v}", "{v:2}"] {
                        check(ctx, x, &e, false);
                    }
                }
            }
        });
        // All UTF-8 shaped byte sequences at the boundaries of the encoding, with a suffix.
        let bs: &[u8] = &[0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF];
        for n in 1..=if t { 5 } else { 4 } {
            mc::en::product(&vec![bs.len(); n], |i| {
                let s: String = i.iter().map(|&k| format!("%{:02x}", bs[k])).collect::<String>() + "%z";
                let e = vec![("v".to_string(), tpl::s(&s))];
                for k in [1, 2, 3] {
                    check(ctx, &format!("{{+v:{k}}}"), &e, false);
                }
            });
        }
    });
    ctx.phase("long values", || {
        let lens: Vec<usize> = (1..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 999, 1000, 4095, 4096, 9998, 9999, 10000, 10001]).collect();
        par(lens.len(), |i| {
            for u in ["a", "\u{e9}", "\u{10FFFF}", "%41", "%C3%A9", "%ff", "%"] {
                let e = vec![("v".to_string(), tpl::s(&u.repeat(lens[i])))];
                for k in lens.iter().filter(|&&k| k < 10000) {
                    check(ctx, &format!("{{+v:{k}}}"), &e, false);
                    check(ctx, &format!("{{;v:{k}}}"), &e, false);
                }
            }
        });
    });
    ctx.phase("many variables, expressions, members and characters", || {
        let lens = mc::gens::lens(t);
        let lens: Vec<usize> = lens.into_iter().filter(|&n| n <= if t { 4100 } else { 1030 }).collect();
        par(lens.len() * OPS.len(), |j| {
            let (n, op) = (lens[j / OPS.len()], OPS[j % OPS.len()]);
            let go = |x: &str, e: &Env| check(ctx, x, e, n < 300);
            let name = |i: usize| format!("v{i}");
            // Which of the variables are defined, and with what.
            let mixed = [tpl::s("x"), Val::Undef, tpl::l(&["p", ""]), tpl::s(""), tpl::m(&[("k", "\u{e9}")]), tpl::l(&[]), tpl::s("\u{e9}%C3%A9")];
            let alone = |at: usize| -> Env { vec![(name(at), tpl::s("\u{e9}"))] };
            let envs: Vec<Env> = vec![
                (0..n).map(|i| (name(i), tpl::s("1"))).collect(),
                (0..n).map(|i| (name(i), mixed[i % mixed.len()].clone())).collect(),
                alone(0),
                alone(n / 2),
                alone(n - 1),
            ];
            for e in &envs {
                for m in ["", "*"] {
                    let all: Vec<String> = (0..n).map(|i| name(i) + m).collect();
                    go(&format!("{{{op}{}}}", all.join(",")), e);
                    if n <= 600 {
                        go(&all.iter().map(|v| format!("{{{op}{v}}}")).collect::<String>(), e);
                        go(&all.iter().map(|v| format!("{{{op}{v}}}'\u{e9}")).collect::<String>(), e);
                    }
                }
            }
            let same = vec!["v0"; n].join(",");
            go(&format!("{{{op}{same}}}{{{op}v0:1}}"), &envs[4]);
            // Long names and literals.
            for u in ["a", "A_9", "a.b", "%41", "%c3%A9"] {
                let long = if u == "a.b" { vec!["a"; n].join(".") } else { u.repeat(n) };
                for v in [tpl::s("x"), tpl::s(""), tpl::l(&["x", "", "y"]), tpl::m(&[("k", "v"), ("", "")])] {
                    let e = vec![(long.clone(), v)];
                    for m in ["", "*", ":1"] {
                        go(&format!("{{{op}{long}{m}}}"), &e);
                    }
                    go(&format!("{{{op}b,{long}*,{long}x,{long}}}"), &e);
                }
            }
            for u in ["a", "\u{e9}", "%41", "/", "\u{10FFFD}", "\u{E000}", "a\u{e9}%C3%A9"] {
                let long = u.repeat(n);
                let e = vec![("v".to_string(), tpl::s("\u{e9}")), ("l".to_string(), tpl::l(&["a", "b"]))];
                go(&long, &e);
                go(&format!("{{{op}v}}{long}"), &e);
                go(&format!("{long}{{{op}u}}{long}{{{op}u,l*,v:1}}{long}"), &e);
                // The same as value, member, key, and entry.
                let w = vec![
                    ("s".to_string(), tpl::s(&long)),
                    ("l".to_string(), tpl::l(&["", &long, "x"])),
                    ("m".to_string(), tpl::m(&[("k", &long), (&long, "")])),
                ];
                for x in ["s", "s:1", "s:9", "s:999", "s*", "l", "l*", "m", "m*", "s,l*,m*,s"] {
                    go(&format!("{{{op}{x}}}"), &w);
                }
            }
            // Many members.
            for (k, item) in ["a", "", "\u{e9}", "/%41"].into_iter().enumerate() {
                let list = |f: &dyn Fn(usize) -> &'static str| Val::List((0..n).map(|i| f(i).to_string()).collect());
                let assoc = |f: &dyn Fn(usize) -> &'static str| {
                    Val::Assoc((0..n).map(|i| (if k % 2 == 0 { format!("k{i}") } else { "".into() }, f(i).to_string())).collect())
                };
                let e = vec![
                    ("l".to_string(), list(&|_| item)),
                    ("m".to_string(), assoc(&|_| item)),
                    ("i".to_string(), list(&|i| if i + 1 == n { item } else { "x" })),
                    ("j".to_string(), assoc(&|i| if i == 0 { item } else { "x" })),
                ];
                for x in ["l", "l*", "m", "m*", "i", "i*", "j", "j*", "u,l*,u,m*", "i,j"] {
                    go(&format!("{{{op}{x}}}"), &e);
                }
            }
        });
    });
    ctx.assume("values are materialised strings inserted into SimpleContext; other deliveries of the same values are explored by C18");
}

fn replay(_: &Ctx, c: &[String]) -> Result<(), String> {
    let env = tpl::from_json(&c[3]);
    let s = simple(&env);
    if c[1] == "iri" {
        judge::<IriSpec>(&c[2], &env, true, &s, true).map(drop)
    } else {
        judge::<UriSpec>(&c[2], &env, false, &s, true).map(drop)
    }
}

fn main() {
    run("C17", "exploration", explore, replay)
}
