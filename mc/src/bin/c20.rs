//! C20: fallible-allocation APIs report allocation failure and leave values intact.
//!
//! Fault enumeration: the process allocator is replaced by one that fails the n-th allocation
//! (allocation or growth) a thread makes while armed. Every fallible operation is run on every value
//! of the space with n = 0, 1, … until it completes without reaching the n-th allocation.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::Display;

use iri_string::build::Builder;
use iri_string::convert::MappedToUri;
use iri_string::format::{try_append_to_string, ToDedicatedString, ToStringFallible};
use iri_string::template::UriTemplateStr;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;
use mc::gens;
use mc::grammar::{dfa, K};
use mc::report::{hash, run, Ctx};
use mc::shows;
use mc::tpl::{self, Env};

thread_local! {
    /// Allocations left until one fails; negative when not armed.
    static LEFT: Cell<i64> = const { Cell::new(-1) };
    static FAILED: Cell<bool> = const { Cell::new(false) };
}

struct Alloc;
fn refuse() -> bool {
    LEFT.try_with(|l| match l.get() {
        n if n < 0 => false,
        0 => {
            l.set(-1);
            let _ = FAILED.try_with(|f| f.set(true));
            true
        }
        n => {
            l.set(n - 1);
            false
        }
    })
    .unwrap_or(false)
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Alloc = Alloc;

struct Disarm;
impl Drop for Disarm {
    fn drop(&mut self) {
        let _ = LEFT.try_with(|l| l.set(-1));
    }
}

/// Runs `f` with its `n`-th allocation failing; also tells whether it got that far.
fn failing<T>(n: i64, f: impl FnOnce() -> T) -> (T, bool) {
    FAILED.with(|x| x.set(false));
    let _d = Disarm;
    LEFT.with(|l| l.set(n));
    let r = f();
    LEFT.with(|l| l.set(-1));
    (r, FAILED.with(|x| x.get()))
}

/// Every failing allocation of an operation without a receiver. `op` gives the text or an error.
fn pure(ctx: Option<&Ctx>, name: &str, want: &str, mut op: impl FnMut() -> Result<String, ()>) -> Result<(), String> {
    for n in 0..1000 {
        let (r, failed) = failing(n, &mut op);
        match r {
            Err(()) if !failed => return Err(format!("{name}: allocation error although no allocation failed")),
            Ok(s) if failed => return Err(format!("{name}: allocation {n} failed but the result is {s:?}")),
            Ok(s) if s != want => return Err(format!("{name}: result {s:?}, infallible form {want:?}")),
            _ => {}
        }
        if let Some(ctx) = ctx {
            ctx.transitions(1);
            if failed {
                ctx.nontrivial(hash(name) ^ hash(want).rotate_left(21) ^ n as u64);
            }
        }
        if !failed {
            return Ok(());
        }
    }
    Err(format!("{name}: does not finish"))
}

fn displayed(ctx: Option<&Ctx>, name: &str, d: &dyn Display) -> Result<(), String> {
    let full = d.to_string();
    if let Some(ctx) = ctx {
        ctx.states(1);
        ctx.outcome(hash(&full));
    }
    pure(ctx, &format!("{name}: try_to_string"), &full, || d.try_to_string().map_err(drop))?;
    // Appending keeps what was there, followed by as much as could be appended.
    for spare in [0, 1, 5] {
        for n in 0..1000 {
            let mut dest = String::with_capacity(3 + spare);
            dest.push_str("\u{e9}-");
            let (r, failed) = failing(n, || try_append_to_string(&mut dest, &d).is_ok());
            if r == failed {
                return Err(format!("{name}: try_append_to_string gives success={r} with allocation {n} failed={failed}"));
            }
            match dest.strip_prefix("\u{e9}-") {
                Some(x) if !failed && x == full => {}
                Some(x) if failed && full.starts_with(x) => {}
                _ => return Err(format!("{name}: try_append_to_string left {dest:?}")),
            }
            if !failed {
                break;
            }
        }
    }
    Ok(())
}

/// Every failing allocation of an in-place edit, from values of several capacities. `op` returns
/// what it returned (`Err` for an allocation error).
fn edit<T, R: PartialEq + std::fmt::Debug>(
    ctx: Option<&Ctx>,
    name: &str,
    s: &str,
    make: impl Fn(String) -> T,
    text: impl Fn(&T) -> String,
    fallible: impl Fn(&mut T) -> Result<R, ()>,
    infallible: impl Fn(&mut T) -> R,
) -> Result<(), String> {
    let fresh = |spare: usize| {
        let mut x = String::with_capacity(s.len() + spare);
        x.push_str(s);
        make(x)
    };
    let mut model = fresh(0);
    let want_r = infallible(&mut model);
    let want = text(&model);
    for spare in [0, 1, 2, 3, 8, 40] {
        for n in 0..1000 {
            let mut v = fresh(spare);
            let (r, failed) = failing(n, || fallible(&mut v));
            let now = text(&v);
            let place = format!("{name} with {spare} spare bytes, allocation {n} failed={failed}");
            match r {
                Err(()) if !failed => return Err(format!("{place}: allocation error")),
                Ok(_) if failed => return Err(format!("{place}: no error, value {now:?}")),
                Err(()) if now != s => return Err(format!("{place}: value changed to {now:?}")),
                Ok(r) if now != want || r != want_r => {
                    return Err(format!("{place}: gives {now:?} and {r:?}, infallible form {want:?} and {want_r:?}"))
                }
                _ => {}
            }
            if let Some(ctx) = ctx {
                ctx.transitions(1);
                if failed {
                    ctx.nontrivial(hash(name) ^ hash(s).rotate_left(21) ^ n as u64 ^ (spare as u64) << 32);
                }
            }
            if !failed {
                break;
            }
            // The operation succeeds when tried again.
            if fallible(&mut v).as_ref() != Ok(&want_r) || text(&v) != want {
                return Err(format!("{place}: trying again gives {:?}, expected {want:?}", text(&v)));
            }
        }
    }
    Ok(())
}

const NEW_HOSTS: &[&str] = &["", "a", "longer.example.com", "[::1A]", "1.2.3.4", "bad/host", "%41%42%43%44%45", "\u{e9}\u{e9}\u{e9}"];

fn dedicated<S: Spec>(ctx: Option<&Ctx>, s: &str) -> Result<(), String> {
    macro_rules! ded {
        ($name:expr, $v:expr) => {{
            let v = $v;
            let want = v.to_dedicated_string();
            if want.as_str() != v.to_string() {
                return Err(format!("{}: to_dedicated_string gives {want:?}", $name));
            }
            pure(ctx, $name, want.as_str(), || match v.try_to_dedicated_string() {
                Ok(x) => Ok(x.into()),
                Err(_) => Err(()),
            })?;
        }};
    }
    macro_rules! common {
        ($b:ident, $o:ident) => {
            if let Ok(r) = $b::<S>::new(s) {
                let n = stringify!($b);
                ded!(&format!("{n} masked"), r.mask_password());
                ded!(&format!("{n} to URI"), MappedToUri::from(r));
                for normalize in [false, true] {
                    let mut b = Builder::from(r);
                    if normalize {
                        b.normalize();
                    }
                    if let Ok(x) = b.build::<$b<S>>() {
                        ded!(&format!("{n} built"), x);
                    }
                }
                for h in NEW_HOSTS {
                    edit(
                        ctx,
                        &format!("{n} replace_host {h:?}"),
                        s,
                        |t| $o::<S>::try_from(t).unwrap(),
                        |v| v.as_str().to_string(),
                        |v| v.try_replace_host(h).map(|x| x.map(<[u8]>::len_of)).map_err(drop),
                        |v| v.replace_host(h).map(<[u8]>::len_of),
                    )?;
                    edit(
                        ctx,
                        &format!("{n} replace_host_reg_name {h:?}"),
                        s,
                        |t| $o::<S>::try_from(t).unwrap(),
                        |v| v.as_str().to_string(),
                        |v| v.try_replace_host_reg_name(h).map(|x| x.map(<[u8]>::len_of)).map_err(drop),
                        |v| v.replace_host_reg_name(h).map(<[u8]>::len_of),
                    )?;
                }
            }
        };
    }
    common!(RiReferenceStr, RiReferenceString);
    common!(RiStr, RiString);
    common!(RiAbsoluteStr, RiAbsoluteString);
    common!(RiRelativeStr, RiRelativeString);
    if let Ok(r) = RiStr::<S>::new(s) {
        ded!("normalized", r.normalize());
        ded!("normalized, relative paths preserved", r.normalize_but_preserve_authorityless_relative_path());
    }
    if let Ok(r) = RiAbsoluteStr::<S>::new(s) {
        ded!("absolute normalized", r.normalize());
        ded!("absolute normalized, relative paths preserved", r.normalize_but_preserve_authorityless_relative_path());
    }
    if let Ok(r) = RiReferenceStr::<S>::new(s) {
        for b in shows::BASES {
            let base = RiAbsoluteStr::<S>::new(b).unwrap();
            ded!("resolved", r.resolve_against(base));
            ded!("resolved and normalized", r.resolve_against(base).and_normalize());
        }
    }
    Ok(())
}

/// The replaced part returned by an edit, compared by its length (none of it is kept alive).
trait LenOf {
    fn len_of(s: &str) -> usize;
}
impl LenOf for [u8] {
    fn len_of(s: &str) -> usize {
        s.len()
    }
}

fn mapping(ctx: Option<&Ctx>, s: &str) -> Result<(), String> {
    macro_rules! map {
        ($b:ident, $o:ident) => {
            if let Ok(r) = $b::new(s) {
                let n = stringify!($b);
                edit(
                    ctx,
                    &format!("{n} encode_to_uri_inline"),
                    s,
                    |t| $o::try_from(t).unwrap(),
                    |v| v.as_str().to_string(),
                    |v| v.try_encode_to_uri_inline().map_err(drop),
                    |v| v.encode_to_uri_inline(),
                )?;
                let want = r.encode_to_uri().to_string();
                for spare in [0, 1, 7, 60] {
                    pure(ctx, &format!("{n} encode_into_uri"), &want, || {
                        // Building the value is not part of the operation.
                        let left = LEFT.with(|l| l.replace(-1));
                        let mut t = String::with_capacity(s.len() + spare);
                        t.push_str(s);
                        let v = $o::try_from(t).unwrap();
                        LEFT.with(|l| l.set(left));
                        v.try_encode_into_uri().map(String::from).map_err(drop)
                    })?;
                }
            }
        };
    }
    map!(IriReferenceStr, IriReferenceString);
    map!(IriStr, IriString);
    map!(IriAbsoluteStr, IriAbsoluteString);
    map!(IriRelativeStr, IriRelativeString);
    map!(IriQueryStr, IriQueryString);
    map!(IriFragmentStr, IriFragmentString);
    Ok(())
}

fn template<S: Spec>(ctx: Option<&Ctx>, t: &str, env: &Env) -> Result<(), String> {
    let c = tpl::simple(env);
    let tmpl = UriTemplateStr::new(t).map_err(|e| format!("template rejected: {e}"))?;
    displayed(ctx, "template", &tmpl)?;
    match tmpl.expand::<S, _>(&c) {
        Ok(e) => displayed(ctx, "expansion", &e),
        Err(e) => displayed(ctx, "error", &e),
    }
}

fn run_case(ctx: Option<&Ctx>, spec: &str, kind: &str, s: &str, env: &str) -> Result<(), String> {
    let f: shows::Visit<'_> = &mut |n, d| displayed(ctx, n, d);
    match (kind, spec == "iri") {
        ("ref", false) => {
            shows::reference::<UriSpec>(s, f)?;
            dedicated::<UriSpec>(ctx, s)
        }
        ("ref", true) => {
            shows::reference::<IriSpec>(s, f)?;
            dedicated::<IriSpec>(ctx, s)?;
            mapping(ctx, s)
        }
        ("tpl", false) => template::<UriSpec>(ctx, s, &tpl::from_json(env)),
        ("tpl", true) => template::<IriSpec>(ctx, s, &tpl::from_json(env)),
        (_, false) => shows::encoded::<UriSpec>(s, f),
        (_, true) => shows::encoded::<IriSpec>(s, f),
    }
}

fn check(ctx: &Ctx, kind: &str, s: &str) {
    for spec in ["uri", "iri"] {
        if kind == "ref" && spec == "uri" && !s.is_ascii() {
            continue;
        }
        ctx.case(&[kind, spec, s], || run_case(Some(ctx), spec, kind, s, ""));
    }
}

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one text with every fallible operation on it; states = displayed values, transitions = operation runs with one allocation failing (or the completing run); a run is non-trivial when an allocation failed in it");
    let t = ctx.thorough;
    ctx.phase("component products", || {
        gens::Refs {
            schemes: vec![None, Some("s"), Some("A1+")],
            auths: gens::authorities(
                &[None, Some("u:"), Some("u:p:\u{e9}"), Some("%c3%a9:%41%2f")],
                &["", "H.x", "[::1A]", "1.2.3.4", "%41\u{e9}"],
                &[None, Some(""), Some("80")],
            ),
            paths: gens::paths(&["/", "a", "..", "%2e", "\u{E9}"], if t { 3 } else { 2 }, true),
            queries: vec![None, Some("q\u{E000}%7e")],
            frags: vec![None, Some("f/%e3%81%82\u{3042}")],
        }
        .each(|s| check(ctx, "ref", s));
    });
    ctx.phase("references: characters in every component", || mc::spaces::each_char(if t { 1 } else { 0 }, &|s| check(ctx, "ref", s)));
    ctx.phase("long components", || {
        gens::long_refs(if t { &[3, 8, 15, 16, 17, 31, 33, 64, 200, 513, 4097, 65537] } else { &[9, 40, 301, 4097, 65537] }, |s| check(ctx, "ref", s));
    });
    ctx.phase("token strings", || {
        let toks = ["a", ":", "/", "?", "#", "@", "..", "%2E", "%c3%a9", "\u{e9}", "1", "[::1A]"];
        mc::en::lang(dfa(K::IriRef, true), &toks, if t { 6 } else { 4 }, |s| check(ctx, "ref", s));
    });
    ctx.phase("triplet sequences", || gens::triplet_refs(t, |s| check(ctx, "ref", s)));
    ctx.phase("encoded triplet sequences", || gens::triplets(t, |s| check(ctx, "enc", s)));
    ctx.phase("encoded texts", || {
        let toks = ["a", "%", "/", "\u{e9}", "\u{10FFFF}", "%41", " "];
        mc::en::strings(&toks, if t { 6 } else { 4 }, |s| check(ctx, "enc", s));
    });
    let e = tpl::env(&[
        ("s", tpl::s("x\u{e9}%41/%")),
        ("e", tpl::s("")),
        ("w", tpl::s(&"\u{e9}%4 a".repeat(60))),
        ("l", tpl::l(&["p%", "", "q"])),
        ("m", tpl::m(&[("k", "\u{e9}"), ("", "")])),
        ("n", tpl::l(&[])),
    ]);
    let j = tpl::to_json(&e);
    let tcheck = |x: &str| {
        for spec in ["uri", "iri"] {
            ctx.case(&["tpl", spec, x, &j], || run_case(Some(ctx), spec, "tpl", x, &j));
        }
    };
    ctx.phase("templates", || {
        let ops = ["", "+", "#", ".", "/", ";", "?", "&"];
        let specs = ["s", "s:2", "e", "w:200", "w", "l", "l*", "m", "m*", "n", "u", "l:1"];
        for n in 1..=if t { 3 } else { 2 } {
            let mut sizes = vec![specs.len(); n];
            sizes.push(ops.len());
            mc::en::product(&sizes, |i| {
                let list: Vec<&str> = i[..n].iter().map(|&k| specs[k]).collect();
                tcheck(&format!("{{{}{}}}", ops[i[n]], list.join(",")));
            });
        }
        let parts = ["{s}", "{e}", "{+s:3}", "{l:1}", "{?m*,e}", "x", "\u{e9}y", "%41", "{u}"];
        mc::en::strings(&parts, if t { 4 } else { 3 }, |x| tcheck(x));
    });
    ctx.assume("a refused allocation is a null return of the global allocator; values displayed by the user do not allocate");
}

fn replay(_: &Ctx, c: &[String]) -> Result<(), String> {
    run_case(None, &c[1], &c[0], &c[2], c.get(3).map_or("", String::as_str))
}

fn main() {
    run("C20", "fault_enumeration", explore, replay)
}
