//! C13: histories of builder operations, and normalization of built values.

use iri_string::build::{Builder, PortBuilder, UserinfoBuilder};
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;
use mc::builder::{judge, Auth, Host, Port, Set, Target, User};
use mc::grammar::{valid, K};
use mc::report::{hash, par, run, Ctx};
use mc::rfc::{authority, split};
use std::collections::HashMap;

type R = Result<(), String>;

#[derive(Clone, Copy, Debug)]
enum Op {
    Scheme(Option<&'static str>),
    UnsetAuthority,
    User(User<'static>),
    Host(Host<'static>),
    Port(Port<'static>),
    /// Port given as an owned string's reference, a port builder, and so on.
    PortVia(u8, &'static str),
    UserVia(u8, &'static str),
    Path(&'static str),
    Query(Option<&'static str>),
    Fragment(Option<&'static str>),
    Normalize(bool),
}

fn own(s: &'static str) -> &'static String {
    // A handful of values, kept for the whole run.
    use std::sync::{Mutex, OnceLock};
    static M: OnceLock<Mutex<HashMap<&'static str, &'static String>>> = OnceLock::new();
    M.get_or_init(Default::default).lock().unwrap().entry(s).or_insert_with(|| Box::leak(Box::new(s.to_string())))
}

/// Applies an operation to the model.
fn model(s: &mut Set<'static>, op: Op) {
    match op {
        Op::Scheme(x) => s.scheme = x,
        Op::UnsetAuthority => s.auth = None,
        Op::User(u) => s.auth.get_or_insert_with(Auth::default).user = u,
        Op::Host(h) => s.auth.get_or_insert_with(Auth::default).host = h,
        Op::Port(p) => s.auth.get_or_insert_with(Auth::default).port = p,
        Op::PortVia(_, p) => s.auth.get_or_insert_with(Auth::default).port = Port::Text(p),
        Op::UserVia(_, u) => s.auth.get_or_insert_with(Auth::default).user = User::Direct(u),
        Op::Path(p) => s.path = p,
        Op::Query(q) => s.query = q,
        Op::Fragment(f) => s.fragment = f,
        Op::Normalize(n) => s.normalize = n,
    }
}

/// Applies an operation to the builder.
fn apply(b: &mut Builder<'static>, op: Op) {
    match op {
        Op::Scheme(Some(x)) => b.scheme(x),
        Op::Scheme(None) => b.unset_scheme(),
        Op::UnsetAuthority => b.unset_authority(),
        Op::User(User::None) => b.unset_userinfo(),
        Op::User(User::Direct(u)) => b.userinfo(u),
        Op::User(User::Pair(u, Some(p))) => b.userinfo((u, p)),
        Op::User(User::Pair(u, None)) => b.userinfo((u, None)),
        Op::Host(Host::Name(h)) => b.host(h),
        Op::Host(Host::Ip(a)) => b.ip_address(a),
        Op::Port(Port::None) => b.unset_port(),
        Op::Port(Port::Small(n)) => b.port(n),
        Op::Port(Port::Int(n)) => b.port(n),
        Op::Port(Port::Text(p)) => b.port(p),
        Op::PortVia(0, p) => b.port(own(p)),
        Op::PortVia(_, p) => b.port(PortBuilder::from(p)),
        Op::UserVia(0, u) => b.userinfo(own(u)),
        Op::UserVia(_, u) => b.userinfo(UserinfoBuilder::from(u)),
        Op::Path(p) => b.path(p),
        Op::Query(Some(q)) => b.query(q),
        Op::Query(None) => b.unset_query(),
        Op::Fragment(Some(q)) => b.fragment(q),
        Op::Fragment(None) => b.unset_fragment(),
        Op::Normalize(true) => b.normalize(),
        Op::Normalize(false) => b.unset_normalize(),
    }
}

/// The operations that explore the whole model state space.
const OPS: &[Op] = &[
    Op::Scheme(Some("S")),
    Op::Scheme(None),
    Op::UnsetAuthority,
    Op::User(User::None),
    Op::User(User::Direct("u:%70")),
    Op::User(User::Pair("u", None)),
    Op::User(User::Pair("", Some(""))),
    Op::Host(Host::Name("")),
    Op::Host(Host::Name("H%7e")),
    Op::Host(Host::Ip(std::net::IpAddr::V6(std::net::Ipv6Addr::LOCALHOST))),
    Op::Port(Port::None),
    Op::Port(Port::Text("")),
    Op::Port(Port::Int(8080)),
    Op::Path(""),
    Op::Path("/a/../%7e"),
    Op::Path("a/.."),
    Op::Path("//x"),
    Op::Path("a:b"),
    Op::Query(None),
    Op::Query(Some("")),
    Op::Query(Some("%7e")),
    Op::Fragment(None),
    Op::Fragment(Some("")),
    Op::Fragment(Some("%7e")),
    Op::Normalize(true),
    Op::Normalize(false),
];
/// More argument kinds and invalid values, for bounded histories.
const MORE: &[Op] = &[
    Op::Scheme(Some("")),
    Op::User(User::Direct("")),
    Op::User(User::Pair("u:", Some("p"))),
    Op::User(User::Pair("u", Some("%3a:p"))),
    Op::UserVia(0, "u:p"),
    Op::UserVia(1, "u"),
    Op::Host(Host::Name("[")),
    Op::Host(Host::Name("\u{C9}X")),
    Op::Host(Host::Ip(std::net::IpAddr::V4(std::net::Ipv4Addr::LOCALHOST))),
    Op::Port(Port::Text("x")),
    Op::Port(Port::Small(7)),
    Op::PortVia(0, "0080"),
    Op::PortVia(1, ""),
    Op::Path("/"),
    Op::Path("/..//"),
    Op::Path("\u{E9}/.."),
    Op::Path("/["),
    Op::Query(Some("\u{E000}")),
    Op::Query(Some("#")),
    Op::Fragment(Some("%")),
];
const STARTS: &[&str] = &["", "s:", "S://u:p@H:80/a/..?q#f", "//@:", "//h", "a/../b?#", "/.//x", "s:a:b#", "?q", "s://[::1A]:"];

fn op(i: usize) -> Op {
    if i < OPS.len() { OPS[i] } else { MORE[i - OPS.len()] }
}

/// Settings read from an existing reference.
fn model_from(s: &'static str) -> Set<'static> {
    let p = split(s);
    Set {
        scheme: p.scheme,
        auth: p.authority.map(|a| {
            let (u, h, p) = authority(a);
            Auth { user: u.map_or(User::None, User::Direct), host: Host::Name(h), port: p.map_or(Port::None, Port::Text) }
        }),
        path: p.path,
        query: p.query,
        fragment: p.fragment,
        normalize: false,
    }
}

fn start(i: usize) -> Option<(Builder<'static>, Set<'static>)> {
    let s = STARTS[i];
    if i == 0 {
        return Some((Builder::new(), Set::default()));
    }
    let r = IriReferenceStr::new(s).ok()?;
    Some((Builder::from(r), model_from(s)))
}

fn judge2(set: &Set<'static>, b: &Builder<'static>) -> R {
    judge::<IriSpec>(set, b, true, false)?;
    judge::<UriSpec>(set, b, false, false)
}

fn verify_history(from: usize, ops: &[usize]) -> R {
    let Some((mut b, mut m)) = start(from) else { return Ok(()) };
    for &o in ops {
        apply(&mut b, op(o));
        model(&mut m, op(o));
    }
    judge2(&m, &b)
}

fn case_of(from: usize, ops: &[usize]) -> Vec<String> {
    std::iter::once("history".to_string()).chain(std::iter::once(from.to_string())).chain(ops.iter().map(|o| o.to_string())).collect()
}

fn run_history(ctx: &Ctx, from: usize, ops: &[usize], m: &Set<'static>, b: &Builder<'static>) {
    let c = case_of(from, ops);
    let c: Vec<&str> = c.iter().map(String::as_str).collect();
    ctx.case(&c, || judge2(m, b).map_err(|e| format!("{e} after {:?} then {:?}", STARTS[from], ops.iter().map(|&o| op(o)).collect::<Vec<_>>())));
    ctx.transitions(1);
}

/// Every history of at most `left` further operations.
fn histories(ctx: &Ctx, from: usize, n: usize, left: usize, ops: &mut Vec<usize>, m: &Set<'static>, b: &Builder<'static>) {
    if left == 0 {
        return;
    }
    for o in 0..n {
        let (mut b, mut m) = (b.clone(), *m);
        apply(&mut b, op(o));
        model(&mut m, op(o));
        ops.push(o);
        run_history(ctx, from, ops, &m, &b);
        histories(ctx, from, n, left - 1, ops, &m, &b);
        ops.pop();
    }
}

/// Explores the whole state space of the model over `OPS`; every transition is executed on a
/// builder that reached the source state by the discovered history.
fn state_space(ctx: &Ctx, from: usize) {
    let Some((b, m)) = start(from) else { return };
    let mut seen: HashMap<Set<'static>, ()> = HashMap::new();
    let mut level = vec![(m, b, Vec::<usize>::new())];
    seen.insert(m, ());
    while !level.is_empty() {
        let next = std::sync::Mutex::new(Vec::new());
        par(level.len(), |i| {
            let (m, b, path) = &level[i];
            for o in 0..OPS.len() {
                let (mut b, mut m) = (b.clone(), *m);
                apply(&mut b, OPS[o]);
                model(&mut m, OPS[o]);
                let mut p = path.clone();
                p.push(o);
                run_history(ctx, from, &p, &m, &b);
                next.lock().unwrap().push((m, b, p));
            }
        });
        let mut next = next.into_inner().unwrap();
        next.sort_by(|a, b| a.2.cmp(&b.2));
        level = next.into_iter().filter(|(m, _, _)| seen.insert(*m, ()).is_none()).collect();
    }
    ctx.states(seen.len() as u64);
    ctx.count("model states", seen.len() as u64);
}

/// Rebuilding an existing value, plainly and normalized, from every type.
fn verify_rebuild<S: Spec>(s: &str, iri: bool) -> R {
    let p = split(s);
    let set = Set {
        scheme: p.scheme,
        auth: p.authority.map(|a| {
            let (u, h, p) = authority(a);
            Auth { user: u.map_or(User::None, User::Direct), host: Host::Name(h), port: p.map_or(Port::None, Port::Text) }
        }),
        path: p.path,
        query: p.query,
        fragment: p.fragment,
        normalize: false,
    };
    let r = RiReferenceStr::<S>::new(s).map_err(|e| format!("{s:?} rejected: {e}"))?;
    let owned = r.to_owned();
    let mut all = vec![Builder::from(r), Builder::from(&owned)];
    let (i, a, l);
    if let Ok(x) = RiStr::<S>::new(s) {
        all.push(Builder::from(x));
        i = x.to_owned();
        all.push(Builder::from(&i));
    }
    if let Ok(x) = RiAbsoluteStr::<S>::new(s) {
        all.push(Builder::from(x));
        a = x.to_owned();
        all.push(Builder::from(&a));
    }
    if let Ok(x) = RiRelativeStr::<S>::new(s) {
        all.push(Builder::from(x));
        l = x.to_owned();
        all.push(Builder::from(&l));
    }
    if set.expect(Target::Ref, iri).as_deref() != Some(s) {
        return Err(format!("model of {s:?} is wrong"));
    }
    for (k, mut b) in all.into_iter().enumerate() {
        judge::<S>(&set, &b, iri, false).map_err(|e| format!("{e} (from form {k} of {s:?})"))?;
        b.normalize();
        judge::<S>(&Set { normalize: true, ..set }, &b, iri, false).map_err(|e| format!("{e} (from form {k} of {s:?})"))?;
        if k > 1 {
            continue;
        }
        b.unset_normalize();
        judge::<S>(&set, &b, iri, false).map_err(|e| format!("{e} (from form {k} of {s:?})"))?;
    }
    Ok(())
}

/// Normalizing while building equals normalizing what is built.
fn verify_norm<S: Spec>(s: &str, iri: bool) -> R {
    let p = split(s);
    let r = RiReferenceStr::<S>::new(s).map_err(|e| format!("{s:?} rejected: {e}"))?;
    let mut b = Builder::from(r);
    b.normalize();
    let got = b.build::<RiReferenceStr<S>>().map_err(|e| format!("{s:?} cannot be built normalized: {e}"))?.to_string();
    let set = Set { auth: None, scheme: p.scheme, path: p.path, query: p.query, fragment: p.fragment, normalize: true };
    let host;
    let set = match p.authority {
        None => set,
        Some(a) => {
            host = authority(a);
            Set {
                auth: Some(Auth { user: host.0.map_or(User::None, User::Direct), host: Host::Name(host.1), port: host.2.map_or(Port::None, Port::Text) }),
                ..set
            }
        }
    };
    let want = set.expect(Target::Ref, iri);
    if want.as_deref() != Some(&got) {
        return Err(format!("{s:?} built normalized: got {got:?}, expected {want:?}"));
    }
    if !valid(K::IriRef, iri, &got) {
        return Err(format!("{s:?} built normalized: {got:?} is not valid"));
    }
    if p.scheme.is_some() {
        let n = RiStr::<S>::new(s).map_err(|e| e.to_string())?.normalize().to_string();
        if n != got {
            return Err(format!("{s:?} built normalized: {got:?}, normalized {n:?}"));
        }
    }
    Ok(())
}

fn check_rebuild(ctx: &Ctx, s: &str) {
    if valid(K::IriRef, true, s) {
        ctx.case(&["iri", s], || verify_rebuild::<IriSpec>(s, true));
    }
    if s.is_ascii() && valid(K::IriRef, false, s) {
        ctx.case(&["uri", s], || verify_rebuild::<UriSpec>(s, false));
    }
    ctx.outcome(hash(s));
}

fn check_norm(ctx: &Ctx, s: &str) {
    if valid(K::IriRef, true, s) {
        ctx.case(&["inorm", s], || verify_norm::<IriSpec>(s, true));
    }
    if s.is_ascii() && valid(K::IriRef, false, s) {
        ctx.case(&["unorm", s], || verify_norm::<UriSpec>(s, false));
    }
}

fn explore(ctx: &Ctx) {
    ctx.rule("model: the settings record; one trace = one history of operations executed on a builder, then built as all four types in both specs");
    let thorough = ctx.thorough;
    ctx.phase("state space", || {
        for from in 0..if thorough { STARTS.len() } else { 1 } {
            state_space(ctx, from);
        }
    });
    ctx.phase("bounded histories", || {
        let n = OPS.len() + MORE.len();
        let depth = if thorough { 4 } else { 3 };
        par(n, |o| {
            let (mut b, mut m) = start(0).unwrap();
            apply(&mut b, op(o));
            model(&mut m, op(o));
            let mut ops = vec![o];
            run_history(ctx, 0, &ops, &m, &b);
            histories(ctx, 0, n, depth - 1, &mut ops, &m, &b);
        });
        par(STARTS.len() * n, |k| {
            let (from, o) = (k / n, k % n);
            let Some((mut b, mut m)) = start(from) else { return };
            apply(&mut b, op(o));
            model(&mut m, op(o));
            let mut ops = vec![o];
            run_history(ctx, from, &ops, &m, &b);
            histories(ctx, from, n, depth - 2, &mut ops, &m, &b);
        });
    });
    ctx.phase("rebuilding references", || {
        let t: &[&str] = &["a", ":", "/", "?", "#", "@", ".", "\u{E9}", "%7e"];
        mc::en::lang(mc::grammar::dfa(K::IriRef, true), t, if thorough { 7 } else { 5 }, |s| check_rebuild(ctx, s));
        mc::gens::full_refs(1).each(|s| check_rebuild(ctx, s));
        mc::gens::long_refs(&mc::gens::lens(thorough), |s| check_rebuild(ctx, s));
    });
    ctx.phase("normalizing relative references", || {
        mc::en::strings(&["/", "a", ".", "%2E", "..", ":", "?"], if thorough { 9 } else { 6 }, |p| {
            for pre in ["", "//", "//H", "s:", "s://h"] {
                check_norm(ctx, &format!("{pre}{p}"));
            }
        });
        mc::gens::long_refs(&mc::gens::lens(thorough), |s| check_norm(ctx, s));
        mc::spaces::long_dotted(thorough, &["", "/", "//h/"], &|s| check_norm(ctx, s));
    });
    ctx.phase("characters in every component", || {
        mc::spaces::each_char(if thorough { 2 } else { 1 }, &|s| {
            check_rebuild(ctx, s);
            check_norm(ctx, s);
        })
    });
    mc::spaces::normal(ctx, &|s| {
        check_norm(ctx, s);
        if thorough {
            if let Some(i) = s.find(':') {
                check_norm(ctx, &s[i + 1..]);
            }
        }
    });
}

fn replay(_: &Ctx, c: &[String]) -> R {
    match c[0].as_str() {
        "iri" => verify_rebuild::<IriSpec>(&c[1], true),
        "uri" => verify_rebuild::<UriSpec>(&c[1], false),
        "inorm" => verify_norm::<IriSpec>(&c[1], true),
        "unorm" => verify_norm::<UriSpec>(&c[1], false),
        _ => {
            let n: Vec<usize> = c[1..].iter().map(|x| x.parse().unwrap()).collect();
            verify_history(n[0], &n[1..])
        }
    }
}

fn main() {
    run("C13", "model_checking", explore, replay)
}
