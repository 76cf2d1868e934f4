//! C19: output failures and buffer limits are reported and never corrupt the output.
//!
//! Fault enumeration: for every displayable value derived from every text, every write is failed,
//! once permanently and once transiently (only that write fails, so a value that ignores the error
//! shows), and every slice size up to the whole output is tried.

use std::fmt::{self, Display, Write};

use iri_string::format::{try_append_to_string, write_to_slice, ToStringFallible};
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::context::{Context, DynamicContext, Visitor};
use iri_string::template::simple_context::SimpleContext;
use iri_string::template::UriTemplateStr;
use mc::gens;
use mc::grammar::{dfa, K};
use mc::report::{hash, run, Ctx};
use mc::shows;
use mc::tpl::{self, Env};

/// Fails write number `at`, and later ones too if `permanent`.
struct Faulty {
    out: String,
    n: usize,
    at: usize,
    permanent: bool,
}
impl Write for Faulty {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let k = self.n;
        self.n += 1;
        if k == self.at || (self.permanent && k > self.at) {
            return Err(fmt::Error);
        }
        self.out.push_str(s);
        Ok(())
    }
}

fn judge(name: &str, d: &dyn Display, full: &str, writes: usize) -> Result<(), String> {
    for at in 0..writes {
        for permanent in [true, false] {
            let mut w = Faulty { out: String::new(), n: 0, at, permanent };
            if write!(w, "{d}").is_ok() {
                return Err(format!("{name}: failure of write {at} (permanent: {permanent}) not reported"));
            }
            if !full.starts_with(&w.out) {
                return Err(format!("{name}: failing at write {at} (permanent: {permanent}) left {:?}, not a prefix of {full:?}", w.out));
            }
        }
    }
    let n = full.len();
    for size in 0..=n + 2 {
        if size > 90 && size + 4 < n {
            continue;
        }
        let mut buf = vec![0xFFu8; size];
        let r = write_to_slice(&mut buf, &d).map(str::to_string);
        match r {
            Ok(s) if size < n || s != full => return Err(format!("{name}: a slice of {size} bytes gives {s:?} for {full:?}")),
            Err(_) if size >= n => return Err(format!("{name}: {full:?} not written to a slice of {size} bytes")),
            Err(_) => {
                let end = buf.iter().position(|&b| b == 0xFF).unwrap_or(size);
                if !full.as_bytes().starts_with(&buf[..end]) || buf[end..].iter().any(|&b| b != 0xFF) {
                    return Err(format!("{name}: a slice of {size} bytes was left with {:?}", String::from_utf8_lossy(&buf)));
                }
            }
            Ok(_) => {}
        }
    }
    let mut s = String::from("\u{e9}-");
    try_append_to_string(&mut s, &d).map_err(|e| e.to_string())?;
    if s != format!("\u{e9}-{full}") {
        return Err(format!("{name}: appended as {s:?}"));
    }
    if d.try_to_string().map_err(|e| e.to_string())? != full {
        return Err(format!("{name}: try_to_string differs from {full:?}"));
    }
    Ok(())
}

/// Runs `judge` on every value, returning the number of writes failed.
fn value(ctx: Option<&Ctx>, name: &str, d: &dyn Display) -> Result<(), String> {
    let mut w = Faulty { out: String::new(), n: 0, at: usize::MAX, permanent: false };
    write!(w, "{d}").map_err(|_| format!("{name}: spurious failure"))?;
    let full = w.out;
    if full != d.to_string() {
        return Err(format!("{name}: to_string differs from {full:?}"));
    }
    if let Some(ctx) = ctx {
        ctx.transitions(2 * w.n as u64 + full.len() as u64);
        ctx.states(1);
        ctx.outcome(hash(&full));
        if w.n > 1 {
            ctx.nontrivial(hash(name) ^ hash(&full).rotate_left(23));
        }
    }
    judge(name, d, &full, w.n)
}

struct Counted<'a> {
    inner: &'a SimpleContext,
    log: String,
}
impl DynamicContext for Counted<'_> {
    fn visit_dynamic<V: Visitor>(&mut self, v: V) -> V::Result {
        if !self.log.ends_with('v') {
            self.log.push('v');
        }
        self.inner.visit(v)
    }
    fn on_expansion_start(&mut self) {
        self.log.push('<')
    }
    fn on_expansion_end(&mut self) {
        self.log.push('>')
    }
}

fn template<S: Spec>(ctx: Option<&Ctx>, t: &str, env: &Env) -> Result<(), String> {
    let c = tpl::simple(env);
    let tmpl = UriTemplateStr::new(t).map_err(|e| format!("template rejected: {e}"))?;
    value(ctx, "template", &tmpl)?;
    value(ctx, "owned template", &tmpl.to_owned())?;
    let full = match tmpl.expand::<S, _>(&c) {
        Ok(e) => {
            value(ctx, "expansion", &e)?;
            Some(e.to_string())
        }
        Err(e) => {
            value(ctx, "error", &e)?;
            None
        }
    };
    let mut d = Counted { inner: &c, log: String::new() };
    let mut w = Faulty { out: String::new(), n: 0, at: usize::MAX, permanent: false };
    let r = tmpl.expand_dynamic::<S, _, _>(&mut w, &mut d);
    if r.is_ok() != full.is_some() || full.as_ref().is_some_and(|f| *f != w.out) {
        return Err(format!("dynamic expansion {r:?} gives {:?}, static {full:?}", w.out));
    }
    let (all, n) = (w.out, w.n);
    for at in 0..n {
        for permanent in [true, false] {
            d.log.clear();
            let mut w = Faulty { out: String::new(), n: 0, at, permanent };
            if tmpl.expand_dynamic::<S, _, _>(&mut w, &mut d).is_ok() {
                return Err(format!("dynamic expansion: failure of write {at} (permanent: {permanent}) not reported"));
            }
            if !all.starts_with(&w.out) {
                return Err(format!("dynamic expansion: failing at write {at} left {:?}, not a prefix of {all:?}", w.out));
            }
            if d.log != "<v>" && d.log != "<>" {
                return Err(format!("dynamic expansion: failing at write {at}, the context was notified as {:?}", d.log));
            }
        }
    }
    Ok(())
}

fn run_case(ctx: Option<&Ctx>, c: &[&str]) -> Result<(), String> {
    let f: shows::Visit<'_> = &mut |n, d| value(ctx, n, d);
    let iri = c[1] == "iri";
    match (c[0], iri) {
        ("ref", false) => shows::reference::<UriSpec>(c[2], f),
        ("ref", true) => shows::reference::<IriSpec>(c[2], f),
        ("enc", false) => shows::encoded::<UriSpec>(c[2], f),
        ("enc", true) => shows::encoded::<IriSpec>(c[2], f),
        (_, false) => template::<UriSpec>(ctx, c[2], &tpl::from_json(c[3])),
        (_, true) => template::<IriSpec>(ctx, c[2], &tpl::from_json(c[3])),
    }
}

fn check(ctx: &Ctx, kind: &str, s: &str) {
    for spec in ["uri", "iri"] {
        if kind == "ref" && spec == "uri" && !s.is_ascii() {
            continue;
        }
        let c = [kind, spec, s];
        ctx.case(&c, || run_case(Some(ctx), &c));
    }
}

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one text with every value displayed from it; states = displayed values, transitions = failed writes and slice sizes; a value is non-trivial when it is written in more than one piece");
    let t = ctx.thorough;
    ctx.phase("references: component products", || {
        gens::Refs {
            schemes: vec![None, Some("s"), Some("A1+")],
            auths: gens::authorities(
                &[None, Some(""), Some("u:"), Some("u:p:\u{e9}"), Some("%c3%a9:%41%2f")],
                &["", "H.x", "[::1A]", "1.2.3.4", "%41\u{e9}"],
                &[None, Some(""), Some("80")],
            ),
            paths: gens::paths(&["/", "a", "..", "%2e", "\u{E9}", "%61"], if t { 3 } else { 2 }, true),
            queries: vec![None, Some(""), Some("q\u{E000}%7e")],
            frags: vec![None, Some("f/%e3%81%82\u{3042}")],
        }
        .each(|s| check(ctx, "ref", s));
    });
    ctx.phase("references: characters in every component", || mc::spaces::each_char(if t { 1 } else { 0 }, &|s| check(ctx, "ref", s)));
    ctx.phase("references: long components", || {
        gens::long_refs(if t { &[8, 9, 17, 33, 64, 65, 129, 301, 1025] } else { &[17, 65, 301] }, |s| check(ctx, "ref", s));
    });
    ctx.phase("references: token strings", || {
        let toks = ["a", ":", "/", "?", "#", "@", "..", ".", "%2E", "%41", "\u{e9}", "1", "[::1A]"];
        mc::en::lang(dfa(K::IriRef, true), &toks, if t { 6 } else { 4 }, |s| check(ctx, "ref", s));
    });
    ctx.phase("encoded texts", || {
        let toks = ["a", "%", "/", ":", "\u{e9}", "\u{10FFFF}", "%41", " ", "\u{0}", "~"];
        mc::en::strings(&toks, if t { 6 } else { 4 }, |s| check(ctx, "enc", s));
    });
    ctx.phase("references: triplet sequences", || gens::triplet_refs(t, |s| check(ctx, "ref", s)));
    ctx.phase("encoded texts: triplet sequences", || gens::triplets(t, |s| check(ctx, "enc", s)));
    let e = tpl::env(&[
        ("s", tpl::s("x\u{e9}%41/%")),
        ("e", tpl::s("")),
        ("l", tpl::l(&["p%", "", "q"])),
        ("m", tpl::m(&[("k", "\u{e9}"), ("", "")])),
        ("n", tpl::l(&[])),
    ]);
    let j = tpl::to_json(&e);
    let tcheck = |x: &str| {
        for spec in ["uri", "iri"] {
            ctx.case(&["tpl", spec, x, &j], || match spec {
                "uri" => template::<UriSpec>(Some(ctx), x, &e),
                _ => template::<IriSpec>(Some(ctx), x, &e),
            });
        }
    };
    ctx.phase("templates: variable lists", || {
        let ops = ["", "+", "#", ".", "/", ";", "?", "&"];
        let specs = ["s", "s:2", "s*", "e", "e:1", "l", "l*", "l:1", "m", "m*", "n", "u"];
        for n in 1..=if t { 4 } else { 3 } {
            let mut sizes = vec![specs.len(); n];
            sizes.push(ops.len());
            mc::en::product(&sizes, |i| {
                let list: Vec<&str> = i[..n].iter().map(|&k| specs[k]).collect();
                tcheck(&format!("{{{}{}}}", ops[i[n]], list.join(",")));
            });
        }
    });
    ctx.phase("templates: consecutive parts", || {
        let parts = ["{s}", "{e}", "{+s:3}", "{l:1}", "{?m*,e}", "{#l*}", "x", "\u{e9}y", "%41", "\u{E000}", "{u}", "{;u,e,l*}"];
        mc::en::strings(&parts, if t { 5 } else { 3 }, |x| tcheck(x));
    });
    ctx.assume("a destination that fails a write has not consumed any of that write; displayed values supplied by the user do not fail on their own");
}

fn replay(_: &Ctx, c: &[String]) -> Result<(), String> {
    run_case(None, &c.iter().map(String::as_str).collect::<Vec<_>>())
}

fn main() {
    run("C19", "fault_enumeration", explore, replay)
}
