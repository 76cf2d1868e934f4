//! C24: every operation returns, with a bounded stack, and without the heap where none is needed.
//!
//! Enumerated: pumped families `u vⁿ w` for every prefix, every pumped word of at most two tokens and
//! every suffix, each driven through every operation of the crate on threads with a small stack and
//! under a watchdog; every short text likewise. The process allocator counts the allocations made
//! while an operation that is offered without the `alloc` feature runs; none is allowed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::{Display, Write};

use iri_string::build::Builder;
use iri_string::components::AuthorityComponents;
use iri_string::format::{write_to_slice, ToDedicatedString};
use iri_string::percent_encode::decode::decode_whatwg_bytes;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;
use iri_string::validate;
use mc::report::{hash, par_stack, run, Ctx};
use mc::shows;
use mc::tpl::{self, Env};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}
struct Alloc;
fn note() {
    let _ = ON.try_with(|on| {
        if on.get() {
            let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        }
    });
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note();
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Alloc = Alloc;

/// The stack of a thread that runs the cases. The longest pumped texts have several thousand
/// repetitions: a recursion over any of them does not fit.
const STACK: usize = 64 << 10;

/// Is this the build that does not optimize?
fn is_unoptimized() -> bool {
    static IS: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *IS.get_or_init(|| std::env::current_exe().is_ok_and(|p| p.parent().is_some_and(|d| d.ends_with("o0"))))
}
fn stack() -> usize {
    if is_unoptimized() {
        2 * STACK
    } else {
        STACK
    }
}

type R = Result<(), String>;

struct Off;
impl Drop for Off {
    fn drop(&mut self) {
        ON.with(|o| o.set(false));
    }
}

/// Runs an operation that must not allocate.
fn free<T>(name: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    COUNT.with(|c| c.set(0));
    let r = {
        let _off = Off;
        ON.with(|o| o.set(true));
        f()
    };
    match COUNT.with(|c| c.get()) {
        0 => Ok(r),
        n => Err(format!("{name}: {n} heap allocations")),
    }
}

/// Takes and drops every write.
struct Sink {
    bytes: usize,
    writes: usize,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.bytes += s.len();
        self.writes += 1;
        Ok(())
    }
}

fn show(name: &str, d: &dyn Display) -> R {
    let mut w = Sink { bytes: 0, writes: 0 };
    free(name, || write!(w, "{d}"))?.map_err(|_| format!("{name}: error although no write failed"))
}

fn parse<S: Spec>(s: &str, n: &mut usize) -> R {
    macro_rules! each {
        ($($t:ident)*) => {$(
            let ok = free(concat!(stringify!($t), "::new"), || {
                let a = $t::<S>::new(s).is_ok();
                let b = <&$t<S>>::try_from(s.as_bytes()).is_ok();
                assert_eq!(a, b);
                a
            })?;
            *n += usize::from(ok);
        )*};
    }
    each!(RiReferenceStr RiStr RiAbsoluteStr RiRelativeStr RiQueryStr RiFragmentStr);
    *n += free("validate", || {
        [
            validate::iri::<S>(s), validate::iri_reference::<S>(s), validate::absolute_iri::<S>(s), validate::relative_ref::<S>(s),
            validate::scheme(s), validate::authority::<S>(s), validate::host::<S>(s), validate::reg_name::<S>(s), validate::port(s),
            validate::userinfo::<S>(s), validate::path::<S>(s), validate::path_segment::<S>(s), validate::query::<S>(s),
            validate::fragment::<S>(s),
        ]
        .iter()
        .filter(|r| r.is_ok())
        .count()
    })?;
    Ok(())
}

fn borrowed<S: Spec>(s: &str) -> R {
    macro_rules! parts {
        ($($t:ident)*) => {$(
            if let Ok(r) = $t::<S>::new(s) {
                free(concat!(stringify!($t), " accessors"), || {
                    let c = (r.scheme_str().is_some(), r.authority_str().is_some(), r.path_str().len(), r.query_str().is_some());
                    let a = r.authority_components().map(|a| (a.host(), a.port(), a.userinfo(), a.reg_name()));
                    let h = {
                        use std::hash::{Hash, Hasher};
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        r.hash(&mut h);
                        h.finish()
                    };
                    (c, a, r == s, r.partial_cmp(s), h)
                })?;
            }
        )*};
    }
    macro_rules! opt {
        ($t:ident, $($m:ident)*) => {
            if let Ok(r) = $t::<S>::new(s) {
                $( free(concat!(stringify!($t), "::", stringify!($m)), || { let _ = r.$m(); })?; )*
            }
        };
    }
    macro_rules! common {
        ($($t:ident)*) => {$( if let Ok(r) = $t::<S>::new(s) {
            free(concat!(stringify!($t), " components"), || {
                let _ = r.authority_components();
                let _ = r.path_str();
                let _ = r.query();
                let _ = r.mask_password();
                let _ = r.len();
            })?;
        })*};
    }
    common!(RiReferenceStr RiStr RiAbsoluteStr RiRelativeStr);
    parts!(RiReferenceStr);
    opt!(RiStr, scheme_str authority_str path_str query_str fragment is_normalized is_normalized_rfc3986
        is_normalized_but_authorityless_relative_path_preserved ensure_rfc3986_normalizable to_absolute to_absolute_and_fragment);
    opt!(RiAbsoluteStr, scheme_str authority_str path_str query_str is_normalized is_normalized_rfc3986
        is_normalized_but_authorityless_relative_path_preserved ensure_rfc3986_normalizable);
    opt!(RiReferenceStr, fragment to_iri to_relative_iri);
    opt!(RiRelativeStr, fragment);
    if let Ok(r) = RiReferenceStr::<S>::new(s) {
        free("AuthorityComponents::from_iri", || AuthorityComponents::from_iri(r).is_some())?;
        free("resolve_against", || {
            let b = RiAbsoluteStr::<S>::new("s://h/a/b?q").unwrap();
            r.resolve_against(b).ensure_rfc3986_normalizable().is_ok()
        })?;
        // Formatting a reference to a buffer that is too small and to one that is not.
        let mut buf = [0u8; 64];
        free("write_to_slice", || write_to_slice(&mut buf, &r).is_ok())?;
    }
    Ok(())
}

fn decoded(s: &[u8]) -> R {
    free("percent-decoding", || {
        let d = decode_whatwg_bytes(s);
        d.to_bytes().is_some() as usize + d.bytes_fragments().count()
    })?;
    let d = decode_whatwg_bytes(s);
    let _ = (d.into_bytes(), d.into_string());
    Ok(())
}

/// Operations on owned values and those giving new values. They may allocate.
fn owned<S: Spec>(s: &str, deep: bool) -> R {
    macro_rules! edits {
        ($($b:ident $o:ident)*) => {$(
            if let Ok(r) = $b::<S>::new(s) {
                for h in ["x", "[::1]", "%41\u{e9}"] {
                    let mut v: $o<S> = r.to_owned();
                    let _ = v.replace_host(h);
                    v.remove_password_inline();
                    let _ = v.replace_host_reg_name(h);
                }
                let mut v: $o<S> = r.to_owned();
                v.remove_nonempty_password_inline();
                let _ = r.mask_password().to_dedicated_string();
                let mut b = Builder::from(r);
                let _ = b.clone().build::<$b<S>>().map(|x| x.to_dedicated_string());
                b.normalize();
                if deep {
                    let _ = b.build::<$b<S>>().map(|x| x.to_dedicated_string());
                }
            }
        )*};
    }
    edits!(RiReferenceStr RiReferenceString RiStr RiString RiAbsoluteStr RiAbsoluteString RiRelativeStr RiRelativeString);
    if let Ok(r) = RiReferenceStr::<S>::new(s) {
        let mut o: RiReferenceString<S> = r.to_owned();
        o.set_fragment(Some(RiFragmentStr::new("long-fragment").unwrap()));
        o.set_fragment(None);
        let mut u = IriReferenceString::try_from(s.to_string()).unwrap();
        u.encode_to_uri_inline();
        let _ = u.try_into_uri();
    }
    if let Ok(r) = RiStr::<S>::new(s) {
        let (a, f) = r.to_owned().into_absolute_and_fragment();
        let mut i = RiString::<S>::from(a);
        i.set_fragment(f.as_deref());
        if i.as_str() != s {
            return Err(format!("split and rejoined as {:.100?}", i.as_str()));
        }
        if deep {
            let _ = r.normalize().to_dedicated_string();
        }
    }
    Ok(())
}

fn reference<S: Spec>(s: &str, deep: bool) -> R {
    let mut n = 0;
    parse::<S>(s, &mut n)?;
    if n == 0 {
        return Ok(());
    }
    borrowed::<S>(s)?;
    owned::<S>(s, deep)?;
    shows::reference::<S>(s, &mut |n, d| {
        if n.contains("the encoded password") {
            // The replacement given by the caller allocates.
            return Ok(());
        }
        if !deep && (n.ends_with("debug") || n.contains("against x") || n.contains("against y") || n.contains("and normalized")) {
            return Ok(());
        }
        show(n, d)
    })
}

fn text<S: Spec>(s: &str) -> R {
    decoded(s.as_bytes())?;
    shows::encoded::<S>(s, &mut |n, d| show(n, d))
}

fn template<S: Spec>(t: &str, env: &Env) -> R {
    let ok = free("template validation", || UriTemplateStr::new(t).is_ok())?;
    if !ok {
        return Ok(());
    }
    let tmpl = UriTemplateStr::new(t).unwrap();
    free("variables", || tmpl.variables().map(|v| v.as_str().len()).sum::<usize>())?;
    show("template", &tmpl)?;
    let mut c = tpl::simple(env);
    let mut w = Sink { bytes: 0, writes: 0 };
    let r = free("expansion", || tmpl.expand::<S, _>(&c).map(|e| write!(w, "{e}").is_ok()).unwrap_or(true))?;
    if !r {
        return Err("expansion: error although no write failed".into());
    }
    let mut w2 = Sink { bytes: 0, writes: 0 };
    let _ = free("dynamic expansion", || tmpl.expand_dynamic::<S, _, _>(&mut w2, &mut c).is_ok())?;
    if (w2.bytes, w2.writes) != (w.bytes, w.writes) {
        return Err(format!("dynamic expansion: {} bytes in {} writes, static {} in {}", w2.bytes, w2.writes, w.bytes, w.writes));
    }
    let mut o = UriTemplateString::try_from(t).unwrap();
    o.append(tmpl);
    let _ = o.expand_dynamic_to_string::<S, _>(&mut c);
    Ok(())
}

fn pump(u: &str, v: &str, n: usize, w: &str) -> String {
    let mut s = String::with_capacity(u.len() + v.len() * n + w.len());
    s.push_str(u);
    for _ in 0..n {
        s.push_str(v);
    }
    s.push_str(w);
    s
}

fn values(u: &str, v: &str, n: usize, w: &str) -> Env {
    let x = pump(u, v, n, w);
    vec![
        ("v".into(), tpl::s(&x)),
        ("l".into(), tpl::Val::List(vec![v.to_string(); n])),
        ("m".into(), tpl::Val::Assoc(vec![(v.to_string(), w.to_string()); n])),
        ("x".into(), tpl::Val::List(vec![x.clone()])),
        ("y".into(), tpl::Val::Assoc(vec![(x.clone(), x)])),
    ]
}

const EXPANDED: &[&str] = &["{v}", "{+v}", "{v:9999}", "{#v:3000}", "{l}", "{+l*}", "{?l*}", "{m}", "{;m*}", "{&m*}", "{x*}", "{.y}", "{?y*}", "{/v,l*,m*,v}"];

fn run_case(kind: &str, spec: &str, u: &str, v: &str, n: usize, w: &str, deep: bool) -> R {
    let uri = spec == "uri";
    let s = pump(u, v, n, w);
    match (kind, uri) {
        ("ref", true) => reference::<UriSpec>(&s, deep),
        ("ref", false) => reference::<IriSpec>(&s, deep),
        ("text", true) => text::<UriSpec>(&s),
        ("text", false) => text::<IriSpec>(&s),
        ("template", _) => {
            let e = values("a", "\u{e9}", 3, "");
            template::<UriSpec>(&s, &e)?;
            template::<IriSpec>(&s, &e)
        }
        _ => {
            let e = values(u, v, n, w);
            EXPANDED.iter().try_for_each(|t| if uri { template::<UriSpec>(t, &e) } else { template::<IriSpec>(t, &e) })
        }
    }
}

fn check(ctx: &Ctx, kind: &str, u: &str, v: &str, n: usize, w: &str, deep: bool) {
    let (num, d) = (n.to_string(), if deep { "deep" } else { "" });
    for spec in ["uri", "iri"] {
        if spec == "uri" && (kind == "template" || kind == "ref" && !(u.is_ascii() && v.is_ascii() && w.is_ascii())) {
            continue;
        }
        let build = if is_unoptimized() { "unoptimized" } else { "" };
        ctx.case(&[kind, spec, u, v, &num, w, d, build], || run_case(kind, spec, u, v, n, w, deep));
        if n > 1 {
            ctx.nontrivial(hash(kind) ^ hash(u).rotate_left(7) ^ hash(v).rotate_left(13) ^ hash(w).rotate_left(29) ^ n as u64);
        }
    }
    ctx.outcome(hash(v) ^ hash(u).rotate_left(9));
}

/// All words of one or two tokens.
fn words(t: &[&str]) -> Vec<String> {
    let mut r: Vec<String> = t.iter().map(|x| x.to_string()).collect();
    for a in t {
        for b in t {
            if a != b {
                r.push(format!("{a}{b}"));
            }
        }
    }
    r
}

fn families(ctx: &Ctx, kind: &str, us: &[&str], vs: &[String], ws: &[&str], n: usize, deep: bool) {
    par_stack(stack(), us.len() * vs.len() * ws.len(), |i| {
        let (u, v, w) = (us[i / (vs.len() * ws.len())], &vs[i / ws.len() % vs.len()], ws[i % ws.len()]);
        check(ctx, kind, u, v, n, w, deep);
    });
}

/// The unoptimized build of this check, next to the directory of the optimized one.
fn unoptimized() -> std::path::PathBuf {
    let me = std::env::current_exe().unwrap();
    me.parent().unwrap().with_file_name("o0").join("c24")
}

/// Runs in the unoptimized build.
fn explore_unoptimized(ctx: &Ctx) {
    ctx.rule("the pumped families in a build where no call is turned into a jump");
    let t = ctx.thorough;
    let own = |v: &[&str]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
    let n = if t { 4000 } else { 2000 };
    ctx.phase("pumped references", || {
        let vs = own(&["a", ".", "..", "%2e", "%41", "%c3%a9", "%e3%81", "\u{e9}", ":", "@", "?", "1"]);
        families(ctx, "ref", &["", "s:", "s:/", "//", "s://h/", "//u:", "//[v1.", "?", "#"], &vs, &["", "@h", "]"], n, false);
        let vs = own(&["/", "a/", "../", "./", "a/../", "/a"]);
        families(ctx, "ref", &["", "s:", "s:/", "s://h/"], &vs, &["", ".."], n, false);
    });
    ctx.phase("pumped texts", || {
        let vs = own(&["a", "%", "%41", "%c3", "\u{e9}", " ", "%zz", "a%"]);
        families(ctx, "text", &["", "%"], &vs, &["", "%4"], n, true);
    });
    ctx.phase("pumped templates", || {
        let vs = own(&["a", "{v}", ",v", "%41", "\u{e9}", ".b", "a{v}", ",v*", "{?m,v:3}", "{u}", ",u"]);
        families(ctx, "template", &["", "{v", "{?v", "{u"], &vs, &["", "}", ":3}"], n, true);
    });
    ctx.phase("pumped values", || {
        let vs = own(&["a", "%", "%41", "%c3%a9", "%e3%81", "\u{e9}", "/", ""]);
        families(ctx, "value", &["", "%"], &vs, &["", "%c3"], n, true);
    });
}

fn explore(ctx: &Ctx) {
    if is_unoptimized() {
        return explore_unoptimized(ctx);
    }
    ctx.phase("unoptimized build", || {
        let mut c = std::process::Command::new(unoptimized());
        c.arg(if ctx.thorough { "thorough" } else { "quick" });
        match c.status().ok().and_then(|s| s.code()) {
            Some(0) => {
                // Its own evidence is replaced by ours; keep its count.
                let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
                let e = std::fs::read_to_string(format!("{root}/evidence/C24.json")).unwrap_or_default();
                let e: serde_json::Value = serde_json::from_str(&e).unwrap_or_default();
                ctx.count("cases of the unoptimized build", e["coverage"]["evaluations"].as_u64().unwrap_or(0));
            }
            Some(1) => {
                // It has reported what it found.
                std::process::exit(1)
            }
            code => {
                eprintln!("the unoptimized build ended with {code:?}");
                std::process::exit(2)
            }
        }
    });
    ctx.rule("one case = one text, literal or pumped (prefix, repeated word, number of repetitions, suffix), driven through every operation; non-trivial = pumped");
    let t = ctx.thorough;
    let toks = ["a", "/", ".", "..", "%2e", "%41", "%c3%a9", "%e3%81", "\u{e9}", ":", "@", "?", "#", "1", "//", "/../", "\u{10FFFF}"];
    let us = ["", "s:", "s:/", "//", "s://", "s://h/", "//u:", "//[", "//[v1.", "//[::", "?", "#", "a"];
    let ws = ["", "/..", "@h", "]", ":1", "/%2e%2e/x?#"];
    ctx.phase("pumped references", || {
        let vs = words(&toks);
        // Dot-segment removal takes quadratic time in the number of segments.
        let (slow, fast): (Vec<String>, Vec<String>) = vs.into_iter().partition(|v| v.contains('/'));
        families(ctx, "ref", &us, &fast, &ws, if t { 20_000 } else { 3000 }, false);
        families(ctx, "ref", &us, &slow, &ws, if t { 1500 } else { 300 }, true);
        let slow: Vec<String> = ["/", "a/", "../", "./", "a/../", "%2e/", "..//", "/a"].iter().map(|x| x.to_string()).collect();
        families(ctx, "ref", &["", "s:", "s:/", "//", "s://h/"], &slow, &["", "..", "?"], if t { 8000 } else { 3000 }, false);
    });
    ctx.phase("pumped texts", || {
        let toks = ["a", "%", "/", ":", "%41", "%c3", "\u{e9}", "\u{10FFFF}", " ", "~", "%e3%81", "\u{0}"];
        families(ctx, "text", &["", "%", "x"], &words(&toks), &["", "%", "%4"], if t { 50_000 } else { 4000 }, true);
    });
    ctx.phase("pumped templates", || {
        let toks = ["a", "{v}", ",v", "%41", "\u{e9}", ".b", ":1", "*", "{", "}", "{+l*}", "9", "{?m,v:3}", "\u{E000}", "%"];
        families(ctx, "template", &["", "{v", "{?v", "{v:", "{v*", "{"], &words(&toks), &["", "}", "*}", ":3}", "a"], if t { 20_000 } else { 3000 }, true);
    });
    ctx.phase("pumped values", || {
        let toks = ["a", "%", "%41", "%c3%a9", "%e3%81", "\u{e9}", "\u{10FFFF}", "/", "\u{0}", "%F0%9f"];
        families(ctx, "value", &["", "%", "%4"], &words(&toks), &["", "%", "%c3"], if t { 11_000 } else { 3100 }, true);
    });
    ctx.phase("short references", || {
        let toks = ["a", "/", ".", "%41", "%c3%a9", "\u{e9}", ":", "@", "?", "#", "1", "[::1]", "[", "%"];
        let max = if t { 6 } else { 5 };
        let n: usize = toks.len();
        par_stack(stack(), (0..=max).map(|k| n.pow(k)).sum(), |mut i| {
            let mut k = 0;
            while i >= n.pow(k) {
                i -= n.pow(k);
                k += 1;
            }
            let mut s = String::new();
            for _ in 0..k {
                s.push_str(toks[i % n]);
                i /= n;
            }
            check(ctx, "ref", &s, "", 0, "", true);
            check(ctx, "text", &s, "", 0, "", true);
        });
    });
    ctx.phase("characters in every place", || {
        let chars = mc::spaces::chars(if t { 1 } else { 0 });
        par_stack(stack(), chars.len(), |i| {
            let c = chars[i];
            for (a, b) in [
                ("", ""), ("a", "b"), ("s:", ""), ("s:/a/../", "/.."), ("s://", ""), ("s://u", "@h"), ("s://u:", "@h:1/"), ("//a", ":1"), ("//[", "]"),
                ("//[v1.", "]"), ("//h:", ""), ("?", "#"), ("s:?%4", "%"), ("#", "%c3"), ("%", ""), ("%4", "1"), ("%c3", "%a9"),
            ] {
                let x = format!("{a}{c}{b}");
                check(ctx, "ref", &x, "", 0, "", true);
                check(ctx, "text", &x, "", 0, "", true);
                check(ctx, "value", &x, "", 0, "", true);
            }
            for (a, b) in [("", ""), ("{", "}"), ("{v", "}"), ("{v:", "}"), ("{v:1", "}"), ("{+v", ",w*}"), ("a{?v}", ""), ("%", ""), ("%4", "{v}"), ("{%", "}"), ("{%4", "}"), ("{", "")] {
                check(ctx, "template", &format!("{a}{c}{b}"), "", 0, "", true);
            }
        });
    });
    ctx.phase("triplet sequences", || {
        // Characters cut short, overlong, out of range or private, up to the end of every component.
        let lead = [0x00, 0x2e, 0x41, 0x7f, 0x80, 0xc0, 0xc3, 0xe0, 0xe3, 0xed, 0xee, 0xef, 0xf0, 0xf3, 0xf4, 0xf5, 0xff];
        let follow = [0x41, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc3];
        let places = [("s:", ""), ("s://", ""), ("s://u:", "@h"), ("//a@", ":"), ("/a/", "/.."), ("?", ""), ("s:?", "#"), ("#", ""), ("a", "b")];
        let k = follow.len() + 1;
        let m = if t { k } else { 1 };
        par_stack(stack(), lead.len() * k * k * k * m, |mut i| {
            let mut x = format!("%{:02X}", lead[i % lead.len()]);
            i /= lead.len();
            for n in [k, k, k, m] {
                if i % n > 0 {
                    x += &format!("%{:02x}", follow[i % n - 1]);
                }
                i /= n;
            }
            for (a, b) in places {
                check(ctx, "ref", &format!("{a}{x}{b}"), "", 0, "", true);
            }
            check(ctx, "text", &x, "", 0, "", true);
            check(ctx, "value", &x, "", 0, "", true);
        });
    });
    ctx.phase("short templates", || {
        let toks = ["a", "{", "}", "v", ",", ":", "*", "1", "+", "?", "%41", "\u{e9}", "{v}", "{l*}"];
        let max = if t { 6 } else { 5 };
        let n: usize = toks.len();
        par_stack(stack(), (0..=max).map(|k| n.pow(k)).sum(), |mut i| {
            let mut k = 0;
            while i >= n.pow(k) {
                i -= n.pow(k);
                k += 1;
            }
            let mut s = String::new();
            for _ in 0..k {
                s.push_str(toks[i % n]);
                i /= n;
            }
            check(ctx, "template", &s, "", 0, "", true);
        });
    });
    ctx.assume("a case that does not finish within 40 s does not terminate; recursion over the input is seen when several thousand levels exceed 64 KiB of stack; contexts and replacements given by the caller do not allocate");
}

fn replay(_: &Ctx, c: &[String]) -> R {
    if c[7] == "unoptimized" && !is_unoptimized() {
        let file = std::env::args().nth(2).unwrap();
        return match std::process::Command::new(unoptimized()).args(["replay", &file]).status() {
            Ok(s) if s.success() => Ok(()),
            s => Err(format!("the unoptimized build ended with {s:?}")),
        };
    }
    let c = c.to_vec();
    std::thread::Builder::new()
        .stack_size(stack())
        .spawn(move || mc::report::guard(|| run_case(&c[0], &c[1], &c[2], &c[3], c[4].parse().unwrap(), &c[5], c[6] == "deep")))
        .unwrap()
        .join()
        .unwrap_or_else(|_| Err("panicked".into()))
}

fn main() {
    run("C24", "exploration", explore, replay)
}
