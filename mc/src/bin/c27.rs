//! C27: reading has no side effects.
//!
//! Every answer the crate gives for a text is first taken in a process that has done nothing else.
//! Then every bounded history of operations, every operation run in the middle of another one, every
//! operation abandoned at each of its writes, and every bounded schedule of two threads is executed
//! on the real code, each in a fresh process (a fork of a process that has done nothing else), and
//! every answer must be the one taken alone.

use std::cell::RefCell;
use std::fmt::{Display, Write as _};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Condvar, Mutex};

use iri_string::build::Builder;
use iri_string::convert::MappedToUri;
use iri_string::format::ToDedicatedString;
use iri_string::percent_encode::decode::{decode_whatwg_bytes, DecodedFragment};
use iri_string::percent_encode::PercentEncoded;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::simple_context::SimpleContext;
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;
use mc::report::{hash, par, run, Ctx};
use mc::shows::{self, Visit};
use mc::tpl;

type R = Result<(), String>;

const ALONE: &str = "MC_C27_ALONE";

const GROUPS: &[&str] = &["ref", "own", "look", "enc", "dec", "tpl"];
/// Several have the same length, so that they also share address and length; some start alike.
const TEXTS: &[&str] = &[
    "s://u:p@h/a",
    "{+s:3}{?m*}",
    "{+l:3}{?m*}",
    "s://u:p@h?a",
    "S://u:@H/..",
    "s://u:p@%7e",
    "x:/%7e/..//",
    "a\u{e9}%c3%A9/",
    "",
    "/a/./b//c?x",
    "//[::1]:8/%e3%81%82#%7e",
    "x:/..//c",
    "s://%C3%41/%e3%81",
    "%e3%81%82 \u{3042}",
    "s://h%41:080/%7e/../a%2e?q%3a",
    "s://\u{e9}:p\u{e9}@\u{e9}/\u{e9}",
    "x{s}{/l,s}\u{e9}{#m*}{u}",
    "a%2",
    "s://user:passwordpasswordpassword@host.example.com:8080/path/segments/that/are/long/./../enough?query=%41%7e&x=y#fragment-%e3%81%82-long",
];

fn env(text: &str) -> tpl::Env {
    tpl::env(&[("s", tpl::s(text)), ("l", tpl::l(&[text, "", "b"])), ("m", tpl::m(&[("k", text), ("%", "")]))])
}
const TEMPLATES: &[&str] = &["{s}", "{+s:3}", "{?m*,l}", "x{/l*}{#m}\u{e9}", "{;s:1}{u}{.l}"];

/// Calls `f` with every answer of one group of operations on a text.
fn values<S: Spec>(g: &str, s: &str, f: Visit<'_>) -> R {
    match g {
        "ref" => shows::reference::<S>(s, f),
        "enc" => shows::encoded::<S>(s, f),
        "own" => owned::<S>(s, f),
        "look" => look::<S>(s, f),
        "dec" => decoded(s, f),
        "tpl" => templates::<S>(s, f),
        _ => unreachable!(),
    }
}
fn of(g: &str, spec: &str, s: &str, f: Visit<'_>) -> R {
    match spec {
        "uri" => values::<UriSpec>(g, s, f),
        _ => values::<IriSpec>(g, s, f),
    }
}

/// Allocating conversions and changes made to copies.
fn owned<S: Spec>(s: &str, f: Visit<'_>) -> R {
    macro_rules! each {
        ($b:ident $o:ident) => {
            match $o::<S>::try_from(s.to_string()) {
                Err(e) => f(concat!(stringify!($o), " error"), &format_args!("{e:?} {e}"))?,
                Ok(x) => {
                    let r: &$b<S> = &x;
                    f(concat!(stringify!($o), " masked"), &r.mask_password().to_dedicated_string())?;
                    let mut y = x.clone();
                    y.remove_password_inline();
                    f(concat!(stringify!($o), " without password"), &y)?;
                    let mut y = x.clone();
                    y.remove_nonempty_password_inline();
                    f(concat!(stringify!($o), " without non-empty password"), &y)?;
                    for h in ["", "other.example", "[::2]"] {
                        let mut y = x.clone();
                        let old = format!("{:?}", y.replace_host(h));
                        f(concat!(stringify!($o), " with host"), &format_args!("{y} {old:?}"))?;
                    }
                    f(concat!(stringify!($o), " as text"), &String::from(x.clone()))?;
                    f(concat!(stringify!($o), " from built"), &match Builder::from(&x).build::<$b<S>>() {
                        Ok(b) => b.to_dedicated_string().to_string(),
                        Err(e) => e.to_string(),
                    })?;
                }
            }
        };
    }
    each!(RiReferenceStr RiReferenceString);
    each!(RiStr RiString);
    each!(RiAbsoluteStr RiAbsoluteString);
    each!(RiRelativeStr RiRelativeString);
    if let Ok(r) = RiReferenceStr::<S>::new(s) {
        for b in shows::BASES {
            let b = RiAbsoluteStr::<S>::new(b).unwrap();
            f("resolved, owned", &r.resolve_against(b).to_dedicated_string())?;
            f("resolved and normalized, owned", &r.resolve_against(b).and_normalize().to_dedicated_string())?;
        }
        let mut y = r.to_owned();
        y.set_fragment(Some(RiFragmentStr::new("new").unwrap()));
        f("with fragment", &y)?;
        y.set_fragment(None);
        f("without fragment", &y)?;
    }
    if let Ok(x) = RiString::<S>::try_from(s) {
        f("normalized, owned", &x.normalize().to_dedicated_string())?;
        let (a, h) = x.into_absolute_and_fragment();
        f("absolute and fragment", &format_args!("{a} {h:?}"))?;
        f("absolute, normalized, owned", &a.normalize_but_preserve_authorityless_relative_path().to_dedicated_string())?;
    }
    if let Ok(x) = IriReferenceString::try_from(s) {
        f("as URI", &x.encode_to_uri())?;
        let mut y = x.clone();
        y.encode_to_uri_inline();
        f("as URI, in place", &y)?;
        f("as URI, converted", &x.encode_into_uri())?;
    }
    Ok(())
}

fn look<S: Spec>(s: &str, f: Visit<'_>) -> R {
    macro_rules! valid {
        ($($t:ident)*) => {$(
            f(stringify!($t), &match $t::<S>::new(s) {
                Ok(x) => format!("ok {}", x.as_str() == s),
                Err(e) => format!("{e:?}"),
            })?;
        )*};
    }
    valid!(RiReferenceStr RiStr RiAbsoluteStr RiRelativeStr RiQueryStr RiFragmentStr);
    f("UriTemplateStr", &format_args!("{:?}", UriTemplateStr::new(s).map_err(|e| e.to_string())))?;
    if let Ok(r) = RiReferenceStr::<S>::new(s) {
        f("components", &format_args!(
            "{:?} {:?} {:?} {:?} {:?} {:?}",
            r.scheme_str(), r.authority_str(), r.path_str(), r.query_str(), r.fragment(), r.to_iri()
        ))?;
        if let Some(a) = r.authority_components() {
            f("authority", &format_args!("{:?} {:?} {:?}", a.userinfo(), a.host(), a.port()))?;
        }
        for other in ["", "s://u:p@h/a", "t"] {
            f("compared", &format_args!("{:?} {}", r.partial_cmp(other), r == other))?;
        }
    }
    if let Ok(r) = RiStr::<S>::new(s) {
        f("normal form", &format_args!(
            "{} {} {} {:?} {:?}",
            r.is_normalized(), r.is_normalized_rfc3986(), r.is_normalized_but_authorityless_relative_path_preserved(),
            r.ensure_rfc3986_normalizable(), r.normalize().ensure_rfc3986_normalizable()
        ))?;
        let (a, h) = r.to_absolute_and_fragment();
        f("split", &format_args!("{a:?} {h:?}"))?;
    }
    Ok(())
}

fn decoded(s: &str, f: Visit<'_>) -> R {
    let d = decode_whatwg_bytes(s.as_bytes());
    f("bytes", &format_args!("{:?}", d.into_bytes()))?;
    f("string", &format_args!("{:?}", d.into_string()))?;
    f("borrowed", &format_args!("{:?} {:?}", d.to_bytes(), d.not_yet_decoded()))?;
    let mut o = String::new();
    for x in d.bytes_fragments() {
        let _ = match x {
            DecodedFragment::Direct(b) => write!(o, "{b:?} "),
            x => write!(o, "{x:?} "),
        };
    }
    f("fragments", &o)
}

fn templates<S: Spec>(s: &str, f: Visit<'_>) -> R {
    let c = tpl::simple(&env(s));
    let mut all = TEMPLATES.to_vec();
    all.push(s);
    for t in all {
        let Ok(t) = UriTemplateStr::new(t) else { continue };
        f("template", &t)?;
        f("owned template", &UriTemplateString::from(t))?;
        f("variables", &format_args!("{:?}", t.variables().collect::<Vec<_>>()))?;
        match t.expand::<S, _>(&c) {
            Ok(e) => f("expansion", &e)?,
            Err(e) => f("error", &e)?,
        }
        f("expansion, dynamic", &format_args!("{:?}", t.expand_dynamic_to_string::<S, _>(&mut c.clone()).map_err(|e| e.to_string())))?;
    }
    Ok(())
}

/// Single operations on a text.
const FINE: usize = 52;
fn fine<S: Spec>(k: usize, s: &str, c: &SimpleContext) -> String {
    fn e<T: std::fmt::Debug, E: Display>(r: Result<T, E>) -> String {
        format!("{:?}", r.map_err(|e| e.to_string()))
    }
    fn b<T: Display>(x: T) -> String {
        x.to_string()
    }
    let skip = String::new();
    match k {
        0 => return e(RiReferenceStr::<S>::new(s)),
        1 => return e(RiStr::<S>::new(s)),
        2 => return e(RiAbsoluteStr::<S>::new(s)),
        3 => return e(RiRelativeStr::<S>::new(s)),
        4 => return e(RiQueryStr::<S>::new(s)),
        5 => return e(RiFragmentStr::<S>::new(s)),
        6 => return e(UriTemplateStr::new(s)),
        7 => return e(decode_whatwg_bytes(s.as_bytes()).into_string()),
        8 => return format!("{}", decode_whatwg_bytes(s.as_bytes()).bytes_fragments().count()),
        9 => return b(PercentEncoded::<_, S>::from_path(s)),
        10 => return b(PercentEncoded::<_, S>::unreserve(s)),
        11 => return b(PercentEncoded::<_, S>::characters(s)),
        12..=16 => {
            let Ok(t) = UriTemplateStr::new(s) else { return skip };
            return match k {
                12 => e(t.expand::<S, _>(c).map(b)),
                13 => e(t.expand_dynamic_to_string::<S, _>(&mut c.clone())),
                14 => format!("{:?}", t.variables().collect::<Vec<_>>()),
                15 => b(t),
                _ => t.expand::<S, _>(c).map_or(String::new(), |x| format!("{}", PercentEncoded::<_, S>::from_user(x))),
            };
        }
        _ => {}
    }
    let Ok(r) = RiReferenceStr::<S>::new(s) else { return skip };
    let base = |i: usize| RiAbsoluteStr::<S>::new(shows::BASES[i]).unwrap();
    match k {
        17 => return format!("{:?}", r.scheme_str()),
        18 => return format!("{:?}", r.authority_str()),
        19 => return format!("{:?}", r.path_str()),
        20 => return format!("{:?}", r.query_str()),
        21 => return format!("{:?}", r.fragment()),
        22 => return format!("{:?}", r.authority_components().map(|a| [a.userinfo().unwrap_or("-"), a.host(), a.port().unwrap_or("-")].map(String::from))),
        23 => return format!("{:?}", r.to_iri()),
        24 => return b(r.mask_password()),
        25 => return b(r.mask_password().replace_password("*")),
        26 => return b(MappedToUri::from(r)),
        27..=30 => return b(r.resolve_against(base(k - 27))),
        31..=34 => return b(r.resolve_against(base(k - 31)).and_normalize()),
        35 => return format!("{:?}", r.resolve_against(base(3)).ensure_rfc3986_normalizable()),
        36 => return e(Builder::from(r).build::<RiReferenceStr<S>>().map(b)),
        37 => {
            let mut x = Builder::from(r);
            x.normalize();
            return e(x.build::<RiReferenceStr<S>>().map(b));
        }
        38 => return format!("{:?}", r == "s://u:p@h/a"),
        39 => {
            let mut x = r.to_owned();
            x.remove_password_inline();
            return b(x);
        }
        40 => {
            let mut x = r.to_owned();
            let old = format!("{:?}", x.replace_host("n"));
            return format!("{x} {old}");
        }
        41 => {
            let mut x = r.to_owned();
            x.set_fragment(None);
            return b(x);
        }
        _ => {}
    }
    let Ok(i) = RiStr::<S>::new(s) else { return skip };
    match k {
        42 => b(i.normalize()),
        43 => b(i.normalize_but_preserve_authorityless_relative_path()),
        44 => format!("{}", i.is_normalized()),
        45 => format!("{}", i.is_normalized_rfc3986()),
        46 => format!("{}", i.is_normalized_but_authorityless_relative_path_preserved()),
        47 => format!("{:?}", i.ensure_rfc3986_normalizable()),
        48 => format!("{:?}", i.to_absolute_and_fragment()),
        49 => b(i.normalize().to_dedicated_string()),
        50 => b(FixedBaseResolver::new(i.to_absolute()).resolve(RiReferenceStr::new("../x").unwrap())),
        51 => b(FixedBaseResolver::new(i.to_absolute()).resolve(RiReferenceStr::new("?y").unwrap()).and_normalize()),
        _ => unreachable!(),
    }
}
fn fine_of(spec: &str, k: usize, s: &str, c: &SimpleContext) -> String {
    match spec {
        "uri" => fine::<UriSpec>(k, s, c),
        _ => fine::<IriSpec>(k, s, c),
    }
}

// ---------------------------------------------------------------------------------------------
// One fresh process per case.

/// The answers taken alone, by group, spec and text.
struct Alone(Vec<Vec<(String, String)>>, Vec<String>, SimpleContext);
fn fine_key(spec: &str, k: usize, s: &str) -> usize {
    let t = TEXTS.iter().position(|x| *x == s).unwrap();
    (t * 2 + usize::from(spec == "iri")) * FINE + k
}
fn key(g: &str, spec: &str, s: &str) -> usize {
    let g = GROUPS.iter().position(|x| *x == g).unwrap();
    let t = TEXTS.iter().position(|x| *x == s).unwrap();
    (g * 2 + usize::from(spec == "iri")) * TEXTS.len() + t
}
fn keys() -> impl Iterator<Item = (&'static str, &'static str, &'static str)> {
    GROUPS.iter().flat_map(|g| ["uri", "iri"].into_iter().flat_map(move |p| TEXTS.iter().map(move |t| (*g, p, *t))))
}

thread_local! {
    static PLACES: RefCell<Vec<&'static mut [u8; 256]>> = const { RefCell::new(Vec::new()) };
}
/// Puts a text at the same address as every other text of that depth.
fn place(depth: usize, s: &str) -> &'static str {
    PLACES.with(|p| {
        let mut p = p.borrow_mut();
        while p.len() <= depth {
            p.push(Box::leak(Box::new([0; 256])));
        }
        let b = p[depth].as_mut_ptr();
        // No text placed at this depth is used any more.
        unsafe {
            std::ptr::copy_nonoverlapping(s.as_ptr(), b, s.len());
            std::str::from_utf8_unchecked(std::slice::from_raw_parts(b, s.len()))
        }
    })
}

impl Alone {
    fn get(&self, g: &str, spec: &str, s: &str) -> &[(String, String)] {
        &self.0[key(g, spec, s)]
    }
    /// Asks for everything in a group and compares.
    fn check(&self, depth: usize, g: &str, spec: &str, s: &str) -> R {
        let want = self.get(g, spec, s);
        let mut i = 0;
        let mut out = String::new();
        of(g, spec, place(depth, s), &mut |name, d| {
            out.clear();
            let _ = write!(out, "{d}");
            let w = want.get(i).ok_or_else(|| format!("{g} {s:?}: an additional value {name}"))?;
            if w.0 != name || w.1 != out {
                return Err(format!("{g} of {s:?} ({spec}): {name} is {out:?}, but alone {} is {:?}", w.0, w.1));
            }
            i += 1;
            Ok(())
        })?;
        if i != want.len() {
            return Err(format!("{g} of {s:?} ({spec}): {i} values, but {} alone", want.len()));
        }
        Ok(())
    }
}

/// Runs `f` in a fork and returns what it wrote.
fn forked(f: impl FnOnce() -> String) -> Result<String, String> {
    unsafe {
        let mut fd = [0; 2];
        assert_eq!(libc::pipe(fd.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fd[0]);
            libc::alarm(60);
            let out = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "panicked".into());
            let mut file = std::fs::File::from_raw_fd(fd[1]);
            let ok = file.write_all(out.as_bytes()).is_ok();
            libc::_exit(i32::from(!ok));
        }
        libc::close(fd[1]);
        let mut out = String::new();
        let read = std::fs::File::from_raw_fd(fd[0]).read_to_string(&mut out);
        let mut status = 0;
        assert_eq!(libc::waitpid(pid, &mut status, 0), pid);
        if libc::WIFSIGNALED(status) {
            return Err(match libc::WTERMSIG(status) {
                libc::SIGALRM => "the operations did not return".into(),
                n => format!("killed by signal {n}"),
            });
        }
        read.map_err(|e| e.to_string())?;
        if status != 0 {
            return Err(format!("exit status {status}"));
        }
        Ok(out)
    }
}

/// Serves cases, each in a fork of this process, which itself runs no operation.
fn zygote(i: usize) -> ! {
    // Handing over between threads is cheaper on one processor.
    unsafe {
        let mut have: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&have), &mut have) == 0 {
            let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &have)).collect();
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET(cpus[i % cpus.len()], &mut set);
            libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    let c = tpl::simple(&env("x\u{e9}%41/%"));
    let mut singles = Vec::new();
    for t in TEXTS {
        for spec in ["uri", "iri"] {
            for k in 0..FINE {
                singles.push(forked(|| fine_of(spec, k, place(0, t), &c)).unwrap_or_else(|e| e));
            }
        }
    }
    let alone = Alone(
        keys()
            .map(|(g, spec, s)| {
                let out = forked(|| {
                    let mut v = Vec::new();
                    let r = of(g, spec, place(0, s), &mut |name, d| {
                        v.push((name.to_string(), d.to_string()));
                        Ok(())
                    });
                    assert!(r.is_ok());
                    serde_json::to_string(&v).unwrap()
                });
                let out = out.unwrap_or_else(|e| e);
                serde_json::from_str(&out).unwrap_or_else(|_| vec![("failed alone".to_string(), out)])
            })
            .collect(),
        singles,
        c,
    );
    println!("{}", serde_json::to_string(&(&alone.0, &alone.1)).unwrap());
    for line in std::io::stdin().lines() {
        let case: Vec<String> = serde_json::from_str(&line.unwrap()).unwrap();
        let case: Vec<&str> = case.iter().map(String::as_str).collect();
        let out = forked(|| {
            let mut n = (0, 0);
            let r = run_case(&alone, &case, &mut n);
            serde_json::to_string(&(r.err(), n.0, n.1)).unwrap()
        });
        let out = out.unwrap_or_else(|e| serde_json::to_string(&(Some(e), 0, 0)).unwrap());
        if out == "panicked" {
            println!("[\"panicked\",0,0]");
        } else {
            println!("{out}");
        }
    }
    std::process::exit(0)
}

struct Zygote {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
    alone: String,
}
impl Zygote {
    fn new(i: usize) -> Self {
        let mut child = Command::new(std::env::current_exe().unwrap())
            .env(ALONE, i.to_string())
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("start a process");
        let to = child.stdin.take().unwrap();
        let mut from = BufReader::new(child.stdout.take().unwrap());
        let mut alone = String::new();
        from.read_line(&mut alone).unwrap();
        Zygote { child, to, from, alone }
    }
    /// The error, if any, and the numbers of states and transitions.
    fn run(&mut self, case: &[&str]) -> (Option<String>, u64, u64) {
        let mut line = serde_json::to_string(case).unwrap();
        line.push('\n');
        self.to.write_all(line.as_bytes()).unwrap();
        line.clear();
        self.from.read_line(&mut line).unwrap();
        let v: serde_json::Value = serde_json::from_str(&line).unwrap_or_else(|_| panic!("answer {line:?}"));
        (v[0].as_str().map(String::from), v[1].as_u64().unwrap(), v[2].as_u64().unwrap())
    }
}
impl Drop for Zygote {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

// ---------------------------------------------------------------------------------------------
// Cases.

/// Calls `at(k)` before the k-th write; stops with an error when it returns false.
struct Hook<'a, F: FnMut(usize) -> bool> {
    out: &'a mut String,
    n: usize,
    at: F,
}
impl<F: FnMut(usize) -> bool> std::fmt::Write for Hook<'_, F> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let k = self.n;
        self.n += 1;
        if !(self.at)(k) {
            return Err(std::fmt::Error);
        }
        self.out.push_str(s);
        Ok(())
    }
}
/// Displays with a hook. Returns the number of writes and whether it succeeded.
fn hooked(d: &dyn Display, out: &mut String, at: impl FnMut(usize) -> bool) -> (usize, bool) {
    out.clear();
    let mut h = Hook { out, n: 0, at };
    let ok = write!(h, "{d}").is_ok();
    (h.n, ok)
}
/// Abandons displaying at the k-th write.
fn abandon(d: &dyn Display, k: usize, panics: bool) -> R {
    let mut out = String::new();
    let r = catch_unwind(AssertUnwindSafe(|| {
        hooked(d, &mut out, |n| {
            if n == k && panics {
                panic!("abandoned");
            }
            n != k
        })
    }));
    match r {
        Ok((n, true)) => Err(format!("displaying {n} pieces succeeded although piece {k} was refused")),
        _ => Ok(()),
    }
}

struct Nest<'a>(&'a str, &'a dyn Fn());
impl Display for Nest<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (self.1)();
        let k = (0..=self.0.len() / 2).rev().find(|k| self.0.is_char_boundary(*k)).unwrap();
        f.write_str(&self.0[..k])?;
        (self.1)();
        f.write_str(&self.0[k..])
    }
}

/// Calls user code in the middle: contexts, displayed values and password replacements.
fn callbacks<S: Spec>(s: &str, inner: &dyn Fn(), f: Visit<'_>) -> R {
    use iri_string::template::context::{AssocVisitor, Context, ListVisitor, Visitor};
    use std::ops::ControlFlow;
    let nest = Nest(s, inner);
    struct C<'a>(Nest<'a>);
    impl Context for C<'_> {
        fn visit<V: Visitor>(&self, v: V) -> V::Result {
            (self.0 .1)();
            match v.var_name().as_str() {
                "s" => v.visit_string(&self.0),
                "l" => {
                    let mut l = v.visit_list();
                    for _ in 0..2 {
                        (self.0 .1)();
                        if let ControlFlow::Break(r) = l.visit_item(&self.0) {
                            return r;
                        }
                    }
                    l.finish()
                }
                "m" => {
                    let mut m = v.visit_assoc();
                    for k in ["k", "%"] {
                        (self.0 .1)();
                        if let ControlFlow::Break(r) = m.visit_entry(k, &self.0) {
                            return r;
                        }
                    }
                    m.finish()
                }
                _ => v.visit_undefined(),
            }
        }
    }
    let mut c = C(Nest(s, inner));
    for t in TEMPLATES {
        let t = UriTemplateStr::new(t).unwrap();
        match t.expand::<S, _>(&c) {
            Ok(e) => f("expansion", &e)?,
            Err(e) => f("error", &e)?,
        }
        f("expansion, dynamic", &format_args!("{:?}", t.expand_dynamic_to_string::<S, _>(&mut c).map_err(|e| e.to_string())))?;
    }
    f("path", &PercentEncoded::<_, S>::from_path(&nest))?;
    f("characters", &PercentEncoded::<_, S>::characters(&nest))?;
    f("nested", &PercentEncoded::<_, S>::from_user(PercentEncoded::<_, S>::unreserve(&nest)))?;
    for r in ["s://u:p@h/a", "//:@"] {
        let r = RiReferenceStr::<S>::new(r).unwrap();
        f("replaced", &r.mask_password().replace_password(&nest))?;
        f("replaced with", &r.mask_password().replace_password_with(|p| {
            inner();
            p.len()
        }))?;
    }
    f("appended", &{
        let mut o = String::from("<");
        let r = iri_string::format::try_append_to_string(&mut o, &nest);
        format!("{o} {}", r.is_ok())
    })
}

/// Above this product of numbers of writes, only one preemption is explored.
const MANY: usize = 600;

/// The schedule of two threads: they hand over at the given numbers of writes.
struct Turn {
    state: Mutex<(usize, usize, Vec<usize>, [bool; 2])>,
    changed: Condvar,
}
impl Turn {
    /// `plan` lists, last first, how many writes happen before each preemption.
    fn new(first: usize, mut plan: Vec<usize>) -> Self {
        let left = plan.pop().unwrap_or(usize::MAX);
        Turn { state: Mutex::new((first, left, plan, [false; 2])), changed: Condvar::new() }
    }
    fn wait(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        while s.0 != me {
            s = self.changed.wait(s).unwrap();
        }
    }
    /// A point where the thread may be preempted.
    fn point(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        while s.1 == 0 {
            s.1 = s.2.pop().unwrap_or(usize::MAX);
            if !s.3[1 - me] {
                s.0 = 1 - me;
                self.changed.notify_all();
                while s.0 != me {
                    s = self.changed.wait(s).unwrap();
                }
            }
        }
        if s.1 != usize::MAX {
            s.1 -= 1;
        }
    }
    fn end(&self, me: usize) {
        let mut s = self.state.lock().unwrap_or_else(|e| e.into_inner());
        s.3[me] = true;
        s.0 = 1 - me;
        self.changed.notify_all();
    }
}
struct Ends<'a>(&'a Turn, usize);
impl Drop for Ends<'_> {
    fn drop(&mut self) {
        self.0.end(self.1);
    }
}
struct Share<T>(T);
// Only one thread runs at a time, and handing over synchronizes.
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}

/// All plans with at most `p` preemptions, for threads with `n` writes.
fn plans(n: [usize; 2], p: usize, mut f: impl FnMut(usize, &[usize]) -> R) -> R {
    fn go(plan: &mut Vec<usize>, me: usize, left: [usize; 2], p: usize, f: &mut dyn FnMut(&[usize]) -> R) -> R {
        f(plan)?;
        if p == 0 {
            return Ok(());
        }
        // Preempting after the last write is the same as ending.
        for k in 0..left[me] {
            let mut l = left;
            l[me] -= k;
            plan.push(k);
            go(plan, 1 - me, l, p - 1, f)?;
            plan.pop();
        }
        Ok(())
    }
    for first in 0..2 {
        go(&mut Vec::new(), first, n, p, &mut |plan| f(first, plan))?;
    }
    Ok(())
}

/// Runs the two bodies under every plan with at most `p` preemptions. Each body gets the function to
/// call before each write. Returns the number of schedules.
fn schedules(n: [usize; 2], p: usize, symmetric: bool, bodies: [&(dyn Fn(&dyn Fn()) -> R + Sync); 2]) -> Result<u64, String> {
    // Many writes: one preemption only.
    let p = if n[0] * n[1] > MANY { p.min(1) } else { p };
    let mut turns = Vec::new();
    plans(n, p, |first, plan| {
        if first == 0 || !symmetric {
            turns.push((Turn::new(first, plan.iter().rev().copied().collect()), first, plan.to_vec()));
        }
        Ok(())
    })?;
    let turns = &turns;
    let meet = &std::sync::Barrier::new(2);
    let errors: Vec<Vec<R>> = std::thread::scope(|sc| {
        let t = [0, 1].map(|me| {
            let body = bodies[me];
            sc.spawn(move || {
                let mut out = Vec::new();
                for (turn, ..) in turns {
                    meet.wait();
                    unsafe { libc::alarm(30) };
                    turn.wait(me);
                    let _end = Ends(turn, me);
                    out.push(catch_unwind(AssertUnwindSafe(|| body(&|| turn.point(me)))).unwrap_or_else(|_| Err("panicked".into())));
                }
                out
            })
        });
        t.map(|t| t.join().unwrap()).into()
    });
    for (i, (_, first, plan)) in turns.iter().enumerate() {
        for e in &errors {
            e[i].clone().map_err(|e| format!("{e} (thread {first} first, handing over after {plan:?} writes)"))?;
        }
    }
    Ok(turns.len() as u64)
}

fn same(g: &str, s: &str, name: &str, how: &str, got: &str, want: &str) -> R {
    if got == want {
        return Ok(());
    }
    Err(format!("{g} of {s:?}: {name} {how} is {got:?}, but alone it is {want:?}"))
}

fn run_case(alone: &Alone, c: &[&str], n: &mut (u64, u64)) -> R {
    match c[0] {
        // A history of operations.
        "seq" => {
            for x in c[1..].chunks(3) {
                alone.check(0, x[0], x[1], x[2])?;
                n.0 += 1;
                n.1 += alone.get(x[0], x[1], x[2]).len() as u64;
            }
            Ok(())
        }
        // A history of single operations.
        "fine" => {
            for (i, x) in c[2..].chunks(2).enumerate() {
                let k = x[0].parse().unwrap();
                let got = fine_of(c[1], k, place(0, x[1]), &alone.2);
                let want = &alone.1[fine_key(c[1], k, x[1])];
                n.0 += 1;
                n.1 += 1;
                if got != *want {
                    return Err(format!("operation {k} on {:?} gives {got:?} as number {i} of the history, but {want:?} alone", x[1]));
                }
            }
            Ok(())
        }
        // An operation in the middle of another one.
        "nest" => {
            let (a, b) = (&c[1..4], &c[4..7]);
            let want = alone.get(a[0], a[1], a[2]);
            let mut i = 0;
            let mut err = Ok(());
            let mut out = String::new();
            of(a[0], a[1], place(0, a[2]), &mut |name, d| {
                let (w, _) = hooked(d, &mut out, |_| {
                    if err.is_ok() {
                        err = alone.check(1, b[0], b[1], b[2]);
                    }
                    true
                });
                n.0 += 1;
                n.1 += w as u64;
                std::mem::replace(&mut err, Ok(()))?;
                i += 1;
                same(a[0], a[2], name, "with other operations between its writes", &out, &want[i - 1].1)
            })
        }
        // Operations inside the user code called in the middle of another one.
        "call" => {
            let (spec, s, b) = (c[1], c[2], &c[3..6]);
            let err = RefCell::new(Ok(()));
            let inner = || {
                if err.borrow().is_ok() {
                    *err.borrow_mut() = alone.check(1, b[0], b[1], b[2]);
                }
            };
            let mut plain = Vec::new();
            let f = |v: Visit<'_>, inner: &dyn Fn()| match spec {
                "uri" => callbacks::<UriSpec>(place(0, s), inner, v),
                _ => callbacks::<IriSpec>(place(0, s), inner, v),
            };
            f(&mut |_, d| {
                plain.push(d.to_string());
                Ok(())
            }, &|| ())?;
            let mut i = 0;
            f(&mut |name, d| {
                let got = d.to_string();
                i += 1;
                n.0 += 1;
                n.1 += 1;
                err.borrow().clone()?;
                same("call", s, name, "with other operations inside", &got, &plain[i - 1])
            }, &inner)?;
            err.into_inner()
        }
        // Abandoned at every write.
        "stop" => {
            let (a, b) = (&c[1..4], &c[4..7]);
            let want = alone.get(a[0], a[1], a[2]);
            let mut i = 0;
            let mut out = String::new();
            of(a[0], a[1], place(0, a[2]), &mut |name, d| {
                let (w, _) = hooked(d, &mut out, |_| true);
                for k in 0..w {
                    for panics in [false, true] {
                        abandon(d, k, panics).map_err(|e| format!("{} of {:?}: {name}: {e}", a[0], a[2]))?;
                        n.1 += 1;
                        let got = d.to_string();
                        same(a[0], a[2], name, &format!("after abandoning it at write {k}"), &got, &want[i].1)?;
                    }
                }
                n.0 += 1;
                i += 1;
                alone.check(1, b[0], b[1], b[2])
            })?;
            alone.check(0, b[0], b[1], b[2])
        }
        // Histories of one object.
        "self" => {
            let (a, max) = (&c[1..4], c[4].parse::<usize>().unwrap());
            let want = alone.get(a[0], a[1], a[2]);
            let mut i = 0;
            let mut out = String::new();
            of(a[0], a[1], place(0, a[2]), &mut |name, d| {
                let plain = &want[i].1;
                i += 1;
                n.0 += 1;
                let (w, _) = hooked(d, &mut out, |_| true);
                let mid = w / 2;
                let ops: &[(&str, &dyn Fn() -> R)] = &[
                    ("displayed", &|| same(a[0], a[2], name, "displayed again", &d.to_string(), plain)),
                    ("abandoned early", &|| abandon(d, 0, false)),
                    ("abandoned midway", &|| abandon(d, mid, false)),
                    ("abandoned late", &|| abandon(d, w - 1, false)),
                    ("abandoned by a panic", &|| abandon(d, mid, true)),
                    ("displayed in itself", &|| {
                        let mut inner = Ok(());
                        let mut out = String::new();
                        hooked(d, &mut out, |_| {
                            if inner.is_ok() {
                                inner = same(a[0], a[2], name, "displayed inside itself", &d.to_string(), plain);
                            }
                            true
                        });
                        inner?;
                        same(a[0], a[2], name, "displayed around itself", &out, plain)
                    }),
                    ("written to a short slice", &|| {
                        let mut b = vec![0; plain.len()];
                        if let Some(short) = plain.len().checked_sub(1) {
                            if iri_string::format::write_to_slice(&mut b[..short], &d).is_ok() {
                                return Err(format!("{name} fits into {short} bytes"));
                            }
                        }
                        let got = iri_string::format::write_to_slice(&mut b, &d).map_err(|e| format!("{name}: {e}"))?;
                        same(a[0], a[2], name, "written to a slice", got, plain)
                    }),
                ];
                if w == 0 {
                    return Ok(());
                }
                for len in 1..=max {
                    for h in 0..ops.len().pow(len as u32) {
                        let mut h = h;
                        let mut done = Vec::new();
                        for _ in 0..len {
                            let (what, op) = ops[h % ops.len()];
                            h /= ops.len();
                            done.push(what);
                            n.1 += 1;
                            op().map_err(|e| format!("{e} (history: {done:?})"))?;
                        }
                        let got = d.to_string();
                        same(a[0], a[2], name, &format!("after {done:?}"), &got, plain)?;
                    }
                }
                Ok(())
            })
        }
        // One object used by operations in any order.
        "object" => object(c[1], c[2], c[3], c[4].parse().unwrap(), n),
        // Two threads displaying the same object, all schedules.
        "share" => {
            let (a, p) = (&c[1..4], c[4].parse().unwrap());
            let want = alone.get(a[0], a[1], a[2]);
            let mut i = 0;
            let mut out = String::new();
            of(a[0], a[1], place(0, a[2]), &mut |name, d| {
                let plain = &want[i].1;
                i += 1;
                n.0 += 1;
                let (w, _) = hooked(d, &mut out, |_| true);
                let d = Share(d);
                let body = |point: &dyn Fn()| {
                    let d = &d;
                    let mut out = String::new();
                    hooked(d.0, &mut out, |_| {
                        point();
                        true
                    });
                    same(a[0], a[2], name, "displayed by two threads", &out, plain)
                };
                n.1 += schedules([w, w], p, true, [&body, &body])?;
                Ok(())
            })
        }
        // Two threads, each displaying a value of its own, all schedules.
        "threads" => {
            let (a, b, p, stride, i) = (&c[1..4], &c[4..7], c[7].parse().unwrap(), c[8].parse::<usize>().unwrap(), c[9].parse::<usize>().unwrap());
            let want = [alone.get(a[0], a[1], a[2]), alone.get(b[0], b[1], b[2])];
            let steps = [a, b];
            let body = |me: usize, i: usize, point: &dyn Fn()| {
                let mut k = 0;
                let c = steps[me];
                let mut out = String::new();
                of(c[0], c[1], place(0, c[2]), &mut |name, d| {
                    k += 1;
                    if k - 1 != i {
                        return Ok(());
                    }
                    hooked(d, &mut out, |_| {
                        point();
                        true
                    });
                    same(c[0], c[2], name, "displayed while another thread displays", &out, &want[me][i].1)
                })
            };
            let writes = |me: usize, i: usize| {
                let n = std::cell::Cell::new(0);
                body(me, i, &|| n.set(n.get() + 1))?;
                Ok::<usize, String>(n.get())
            };
            for j in (i % stride..want[1].len()).step_by(stride) {
                let w = [writes(0, i)?, writes(1, j)?];
                n.0 += 1;
                n.1 += schedules(w, p, false, [&|y| body(0, i, y), &|y| body(1, j, y)])?;
            }
            Ok(())
        }
        _ => unreachable!(),
    }
}

/// Every history of operations that share one object.
fn object(kind: &str, spec: &str, s: &str, max: usize, n: &mut (u64, u64)) -> R {
    match spec {
        "uri" => object_of::<UriSpec>(kind, s, max, n),
        _ => object_of::<IriSpec>(kind, s, max, n),
    }
}
fn histories(kind: &str, s: &str, max: usize, n: &mut (u64, u64), ops: &[&dyn Fn() -> String], fresh: &dyn Fn(usize) -> String) -> R {
    let want: Vec<String> = (0..ops.len()).map(fresh).collect();
    n.0 += 1;
    for len in 1..=max {
        for h in 0..ops.len().pow(len as u32) {
            let mut x = h;
            let mut done = Vec::new();
            for _ in 0..len {
                let k = x % ops.len();
                x /= ops.len();
                n.1 += 1;
                done.push(k);
                let got = ops[k]();
                if got != want[k] {
                    return Err(format!("{kind} for {s:?}: operation {k} gives {got:?} in the history {done:?}, but {:?} on a fresh object", want[k]));
                }
            }
        }
    }
    Ok(())
}
const REFS: &[&str] = &["", "../x?y", "//v:q@i/%7e", "t:a/../b", "#f", "?", "b:c"];
fn object_of<S: Spec>(kind: &str, s: &str, max: usize, n: &mut (u64, u64)) -> R {
    macro_rules! all {
        // Operations on `$o`, built by `$make`.
        ($o:ident = $make:expr; $($e:expr),* $(,)?) => {{
            let $o = $make;
            let ops: &[&dyn Fn() -> String] = &[$(&|| $e),*];
            histories(kind, s, max, n, ops, &|k| {
                let $o = $make;
                let ops: &[&dyn Fn() -> String] = &[$(&|| $e),*];
                ops[k]()
            })
        }};
    }
    match kind {
        "resolver" => {
            let Ok(b) = RiAbsoluteStr::<S>::new(s) else { return Ok(()) };
            let r = |i: usize| RiReferenceStr::<S>::new(REFS[i]).unwrap();
            all!(o = FixedBaseResolver::new(b);
                o.resolve(r(0)).to_string(), o.resolve(r(1)).to_string(), o.resolve(r(2)).and_normalize().to_string(),
                o.resolve(r(3)).and_normalize_but_preserve_authorityless_relative_path().to_string(),
                o.resolve(r(4)).to_dedicated_string().to_string(), o.resolve(r(5)).to_string(),
                format!("{:?}", o.resolve(r(6)).ensure_rfc3986_normalizable()),
                format!("{} {} {:?} {:?} {:?}", o.base(), o.scheme_str(), o.authority_str(), o.path_str(), o.query_str()),
                format!("{o:?}"), FixedBaseResolver::resolve(&{ o }, r(1)).to_string(),
            )
        }
        "template" => {
            let Ok(t) = UriTemplateStr::new(s) else { return Ok(()) };
            let c: Vec<SimpleContext> = ["", "a", "%41\u{e9}"].iter().map(|x| tpl::simple(&env(x))).collect();
            let none = SimpleContext::new();
            all!(o = t.to_owned();
                format!("{:?}", o.expand::<S, _>(&c[0]).map(|x| x.to_string()).map_err(|e| e.to_string())),
                format!("{:?}", o.expand::<S, _>(&c[1]).map(|x| x.to_string()).map_err(|e| e.to_string())),
                format!("{:?}", o.expand::<IriSpec, _>(&c[2]).map(|x| x.to_string()).map_err(|e| e.to_string())),
                format!("{:?}", o.expand::<UriSpec, _>(&c[2]).map(|x| x.to_string()).map_err(|e| e.to_string())),
                format!("{:?}", o.expand::<S, _>(&none).map(|x| x.to_string()).map_err(|e| e.to_string())),
                format!("{:?}", o.expand_dynamic_to_string::<S, _>(&mut c[1].clone()).map_err(|e| e.to_string())),
                format!("{:?}", o.variables().collect::<Vec<_>>()),
                format!("{o} {o:?}"), o.clone().to_string(),
            )
        }
        "context" => {
            all!(o = tpl::simple(&env(s));
                UriTemplateStr::new(TEMPLATES[0]).unwrap().expand::<S, _>(&o).unwrap().to_string(),
                UriTemplateStr::new(TEMPLATES[1]).unwrap().expand::<S, _>(&o).unwrap().to_string(),
                UriTemplateStr::new(TEMPLATES[2]).unwrap().expand::<S, _>(&o).unwrap().to_string(),
                UriTemplateStr::new(TEMPLATES[3]).unwrap().expand::<S, _>(&o).unwrap().to_string(),
                UriTemplateStr::new(TEMPLATES[4]).unwrap().expand::<S, _>(&o).unwrap().to_string(),
                format!("{:?}", UriTemplateStr::new("{m:1}").unwrap().expand::<S, _>(&o).map(|x| x.to_string()).map_err(|e| e.to_string())),
                format!("{:?}", UriTemplateStr::new("{s}{l:1}").unwrap().expand_dynamic_to_string::<S, _>(&mut o.clone()).map_err(|e| e.to_string())),
                format!("{o:?}"), format!("{:?}", o.get(iri_string::template::context::VarName::new("s").unwrap())),
            )
        }
        "builder" => {
            let Ok(r) = RiReferenceStr::<S>::new(s) else { return Ok(()) };
            macro_rules! b {
                ($o:ident $t:ident) => {
                    match $o.clone().build::<$t<S>>() {
                        Ok(x) => x.to_string(),
                        Err(e) => e.to_string(),
                    }
                };
            }
            all!(o = Builder::from(r);
                b!(o RiReferenceStr), b!(o RiStr), b!(o RiAbsoluteStr), b!(o RiRelativeStr), format!("{o:?}"),
                { let mut c = o.clone(); c.normalize(); b!(c RiReferenceStr) },
                { let mut c = o.clone(); c.scheme("zz"); b!(c RiStr) },
                { let mut c = o.clone(); c.host("zz"); b!(c RiStr) },
                { let mut c = o.clone(); c.path("/%zz"); b!(c RiReferenceStr) },
            )
        }
        "mask" => {
            let Ok(r) = RiReferenceStr::<S>::new(s) else { return Ok(()) };
            all!(o = r.mask_password();
                o.to_string(), o.replace_password("*").to_string(), o.replace_password("").to_string(),
                o.replace_password_with(|p| p.len()).to_string(), o.replace_password_with(|p| p.to_uppercase()).to_string(),
                format!("{o:?}"), o.to_dedicated_string().to_string(),
            )
        }
        "normalized" => {
            let Ok(r) = RiStr::<S>::new(s) else { return Ok(()) };
            all!(o = r.normalize();
                o.to_string(),
                format!("{:?}", o.ensure_rfc3986_normalizable()), format!("{o:?}"), o.to_dedicated_string().to_string(),
                format!("{o:60}"),
            )
        }
        "decoder" => {
            all!(o = decode_whatwg_bytes(s.as_bytes());
                format!("{:?}", o.into_bytes()), format!("{:?}", o.into_string()), format!("{:?}", o.to_bytes()),
                format!("{:?}", o.not_yet_decoded()), format!("{}", o.bytes_fragments().count()),
                format!("{:?}", o.bytes_fragments().next()), format!("{:?}", { let mut i = o.bytes_fragments(); i.next(); i.not_yet_decoded().len() }),
            )
        }
        "encoder" => {
            all!(o = PercentEncoded::<_, S>::from_path(s);
                o.to_string(), o.to_string(), format!("{o:?}"), PercentEncoded::<_, S>::from_user(&o).to_string(),
                PercentEncoded::<_, S>::characters(o.clone()).to_string(),
            )
        }
        _ => unreachable!(),
    }
}

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one fresh process executing one history, nesting, abandonment or all schedules of two threads; states = operations, objects or pairs of values, transitions = answers, writes or schedules");
    let t = ctx.thorough;
    let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).min(32);
    let pool: Vec<Mutex<Zygote>> = {
        let made = Mutex::new(Vec::new());
        par(threads, |i| {
            let z = Zygote::new(i);
            made.lock().unwrap().push(Mutex::new(z));
        });
        made.into_inner().unwrap()
    };
    ctx.phase("answers of other processes", || {
        for z in &pool[1..] {
            ctx.case(&["process"], || match z.lock().unwrap().alone == pool[0].lock().unwrap().alone {
                true => Ok(()),
                false => Err("two processes give different answers".into()),
            });
        }
    });
    let (answers, singles): (Vec<Vec<(String, String)>>, Vec<String>) = serde_json::from_str(&pool[0].lock().unwrap().alone).expect("answers");
    for (i, out) in singles.iter().enumerate() {
        ctx.outcome(hash(out) ^ (i as u64) << 32);
    }
    for (name, out) in answers.iter().flatten() {
        ctx.outcome(hash(out) ^ hash(name).rotate_left(7));
    }
    ctx.count("answers", answers.iter().map(Vec::len).sum::<usize>() as u64);
    let all: Vec<_> = keys().collect();
    for (i, k) in all.iter().enumerate() {
        assert_eq!(i, key(k.0, k.1, k.2));
    }
    // Leaves one worker per thread of `par`.
    let go = |case: &[&str]| {
        if ctx.stop() {
            return;
        }
        ctx.case(case, || {
            let mut z = loop {
                if let Some(z) = pool.iter().find_map(|z| z.try_lock().ok()) {
                    break z;
                }
                std::thread::yield_now();
            };
            let (e, states, transitions) = z.run(case);
            ctx.states(states);
            ctx.transitions(transitions);
            e.map_or(Ok(()), Err)
        });
    };
    ctx.phase("histories of two operations", || {
        par(all.len() * all.len(), |i| {
            let (a, b) = (all[i % all.len()], all[i / all.len()]);
            go(&["seq", a.0, a.1, a.2, b.0, b.1, b.2]);
        });
    });
    ctx.phase("histories of two single operations", || {
        let n = TEXTS.len() * FINE;
        par(n * n, |i| {
            let (a, b) = (i % n, i / n);
            for spec in &["iri", "uri"][..if t { 2 } else { 1 }] {
                let (x, y) = (TEXTS[a / FINE], TEXTS[b / FINE]);
                if !t && a % FINE != b % FINE && (a / FINE > 8 || b / FINE > 8) {
                    continue;
                }
                if singles[fine_key(spec, a % FINE, x)].is_empty() || singles[fine_key(spec, b % FINE, y)].is_empty() {
                    // Not applicable.
                    continue;
                }
                go(&["fine", spec, &(a % FINE).to_string(), x, &(b % FINE).to_string(), y]);
            }
        });
    });
    ctx.phase("histories of one single operation on three texts", || {
        let n = if t { TEXTS.len() } else { 9 };
        par(n * n * n * FINE, |i| {
            let (x, y, z, k) = (TEXTS[i % n], TEXTS[i / n % n], TEXTS[i / n / n % n], i / n / n / n);
            for spec in ["uri", "iri"] {
                if [x, y, z].iter().all(|s| !singles[fine_key(spec, k, s)].is_empty()) {
                    let k = k.to_string();
                    go(&["fine", spec, &k, x, &k, y, &k, z]);
                }
            }
        });
    });
    let iri: Vec<_> = all.iter().filter(|k| k.1 == "iri").copied().collect();
    let few: Vec<_> = iri.iter().filter(|k| TEXTS[..if t { 8 } else { 4 }].contains(&k.2)).copied().collect();
    ctx.phase("histories of three operations", || {
        let n = few.len();
        par(n * n * n, |i| {
            let (a, b, c) = (few[i % n], few[i / n % n], few[i / n / n]);
            go(&["seq", a.0, a.1, a.2, b.0, b.1, b.2, c.0, c.1, c.2]);
        });
    });
    ctx.phase("operations in the middle of another", || {
        let (a, b) = if t { (&all, &all) } else { (&iri, &few) };
        par(a.len() * b.len(), |i| {
            let (x, y) = (a[i % a.len()], b[i / a.len()]);
            go(&["nest", x.0, x.1, x.2, y.0, y.1, y.2]);
        });
    });
    ctx.phase("operations inside user code", || {
        par(2 * TEXTS.len() * all.len(), |i| {
            let y = all[i / 2 / TEXTS.len()];
            go(&["call", ["uri", "iri"][i % 2], TEXTS[i / 2 % TEXTS.len()], y.0, y.1, y.2]);
        });
    });
    ctx.phase("abandoned operations", || {
        let (a, b) = if t { (&all, &all) } else { (&all, &few) };
        par(a.len() * b.len(), |i| {
            let (x, y) = (a[i % a.len()], b[i / a.len()]);
            go(&["stop", x.0, x.1, x.2, y.0, y.1, y.2]);
        });
    });
    ctx.phase("histories of one value", || {
        par(all.len(), |i| {
            let x = all[i];
            let max = if t { 4 } else { 3 } - usize::from(x.2.len() > 60);
            go(&["self", x.0, x.1, x.2, &max.to_string()]);
        });
    });
    ctx.phase("histories of one object", || {
        let kinds = ["resolver", "template", "context", "builder", "mask", "normalized", "decoder", "encoder"];
        par(kinds.len() * 2 * TEXTS.len(), |i| {
            go(&["object", kinds[i % kinds.len()], ["uri", "iri"][i / kinds.len() % 2], TEXTS[i / kinds.len() / 2], if t { "5" } else { "4" }]);
        });
    });
    let p = if t { "3" } else { "2" };
    let dis = |g: &str| ["ref", "enc", "tpl"].contains(&g);
    ctx.phase("two threads, one value", || {
        par(all.len(), |i| {
            let x = all[i];
            if dis(x.0) {
                go(&["share", x.0, x.1, x.2, p]);
            }
        });
    });
    ctx.phase("two threads, two values", || {
        let v: Vec<_> = iri.iter().filter(|k| dis(k.0) && TEXTS[..if t { 6 } else { 4 }].contains(&k.2)).collect();
        par(v.len() * v.len(), |i| {
            let (x, y) = (v[i % v.len()], v[i / v.len()]);
            for k in 0..answers[key(x.0, x.1, x.2)].len() {
                go(&["threads", x.0, x.1, x.2, y.0, y.1, y.2, p, if t { "11" } else { "23" }, &k.to_string()]);
            }
        });
    });
    ctx.assume("threads are preempted at the writes of the displayed values and nowhere else");
}

fn replay(_: &Ctx, c: &[String]) -> R {
    let mut z = Zygote::new(0);
    if c[0] == "process" {
        return if Zygote::new(1).alone == z.alone { Ok(()) } else { Err("two processes give different answers".into()) };
    }
    z.run(&c.iter().map(String::as_str).collect::<Vec<_>>()).0.map_or(Ok(()), Err)
}

fn main() {
    if let Ok(i) = std::env::var(ALONE) {
        zygote(i.parse().unwrap());
    }
    run("C27", "model_checking", explore, replay)
}
