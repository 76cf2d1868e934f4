//! C12: which component sets the builder accepts, and what it writes.

use iri_string::spec::{IriSpec, UriSpec};
use mc::builder::{judge, Auth, Host, Port, Set, Target, User};
use mc::en::{product, strings};
use mc::report::{hash, par, run, Ctx};
use std::net::IpAddr;

type R = Result<(), String>;

fn enc(x: Option<&str>) -> String {
    x.map_or("-".into(), |x| format!("={x}"))
}
fn dec(s: &str) -> Option<&str> {
    s.strip_prefix('=')
}

/// Text form of the settings, for replay.
fn ser(s: &Set) -> Vec<String> {
    let mut v = vec![enc(s.scheme), s.path.to_string(), enc(s.query), enc(s.fragment), s.normalize.to_string()];
    if let Some(a) = s.auth {
        v.extend(match a.user {
            User::None => ["none".to_string(), "-".into(), "-".into()],
            User::Direct(u) => ["direct".into(), u.into(), "-".into()],
            User::Pair(u, p) => ["pair".into(), u.into(), enc(p)],
        });
        v.extend(match a.host {
            Host::Name(h) => ["name".to_string(), h.into()],
            Host::Ip(a) => ["ip".into(), a.to_string()],
        });
        v.extend(match a.port {
            Port::None => ["none".to_string(), "-".into()],
            Port::Small(n) => ["u8".into(), n.to_string()],
            Port::Int(n) => ["u16".into(), n.to_string()],
            Port::Text(p) => ["text".into(), p.into()],
        });
    }
    v
}

fn de(c: &[String]) -> Set<'_> {
    let mut s = Set { scheme: dec(&c[0]), path: &c[1], query: dec(&c[2]), fragment: dec(&c[3]), normalize: c[4] == "true", auth: None };
    if c.len() > 5 {
        s.auth = Some(Auth {
            user: match c[5].as_str() {
                "none" => User::None,
                "direct" => User::Direct(&c[6]),
                _ => User::Pair(&c[6], dec(&c[7])),
            },
            host: if c[8] == "name" { Host::Name(&c[9]) } else { Host::Ip(c[9].parse().unwrap()) },
            port: match c[10].as_str() {
                "none" => Port::None,
                "u8" => Port::Small(c[11].parse().unwrap()),
                "u16" => Port::Int(c[11].parse().unwrap()),
                _ => Port::Text(&c[11]),
            },
        });
    }
    s
}

fn verify(s: &Set) -> R {
    judge::<IriSpec>(s, &s.builder(), true, true)?;
    judge::<UriSpec>(s, &s.builder(), false, true)
}

fn check(ctx: &Ctx, s: &Set) {
    let c = ser(s);
    let c: Vec<&str> = c.iter().map(String::as_str).collect();
    ctx.case(&c, || verify(s));
    let e = s.expect(Target::Ref, true);
    if let Some(e) = e {
        ctx.outcome(hash(&e));
        ctx.nontrivial(hash(&c.join("\n")));
    }
}

const SCHEMES: &[Option<&str>] =
    &[None, Some("s"), Some("S+-.9"), Some(""), Some("1"), Some("s:"), Some("s/"), Some("\u{E9}"), Some("%41"), Some("-s"), Some("s@h")];
const USERS: &[User] = &[
    User::None, User::Direct(""), User::Direct("u"), User::Direct(":"), User::Direct("u:p:%41"), User::Direct("u@"), User::Direct("\u{E9}"),
    User::Direct("%4"), User::Direct("u/"), User::Pair("", None), User::Pair("u", None), User::Pair("u", Some("")), User::Pair("", Some("p")),
    User::Pair("u", Some("p:q")), User::Pair("u:", None), User::Pair("u:x", Some("p")), User::Pair("u", Some("p@")), User::Pair("u#", Some("p")),
    User::Pair("\u{E9}", Some("\u{E9}")), User::Pair("u%", Some("41")), User::Pair("u", Some("[")),
];
const HOSTS: &[&str] = &[
    "", "h", "H%4a.", "[::1A]", "[::]:80", "[v1.a:]", "[::", "::1", "h:80", "u@h", "h/", "h?", "h#", "\u{E9}", "%E9", "%", "1.2.3.4", "[1.2.3.4]", "h h",
    "[::1%25a]", "a;b=,", "\u{E000}",
];
const IPS: &[&str] = &["0.0.0.0", "1.2.3.4", "255.255.255.255", "::", "::1", "1:2:3:4:5:6:7:8", "::ffff:1.2.3.4", "fe80::", "::1.2.3.4"];
const PORTS: &[Port] = &[
    Port::None, Port::Small(0), Port::Small(255), Port::Int(0), Port::Int(65535), Port::Text(""), Port::Text("0"), Port::Text("080"),
    Port::Text("999999999999999999999"), Port::Text("a"), Port::Text("-1"), Port::Text("+1"), Port::Text(":80"), Port::Text("8 "), Port::Text("\u{0661}"),
];
const PATHS: &[&str] = &[
    "", "/", "//", "///", "a", "a/", "/a", "//a", "/.//a", "/..//a", "..//a", "a/..//b", "a/../..", "a:b", "a:", ":", "/a:b", "./a:b", "../a:b", "a/b:c",
    "..", ".", "%2e%2E/", "//%2E%2e//", "?", "a?", "a#", "/#", "%", "/%4", "/%41", "/%7e%3a%2f", "[", "/]", " ", "\u{E9}", "/\u{E9}:", "\u{E9}:",
    "\u{E000}", "//h/..", "/%2E//", "%3a", "@", "a@b:c/", "/\u{0}", "*+,;=!$&'()",
];
const QUERIES: &[Option<&str>] = &[None, Some(""), Some("q"), Some("/?:@"), Some("#"), Some("%"), Some("%5a%5A"), Some("\u{E9}\u{E000}"), Some("["), Some("%e9")];
const FRAGS: &[Option<&str>] = &[None, Some(""), Some("f"), Some("/?:@"), Some("#"), Some("%"), Some("%5a"), Some("\u{E9}"), Some("\u{E000}")];

fn auths(full: bool) -> Vec<Option<Auth<'static>>> {
    let mut v = vec![None];
    let hosts: Vec<Host> = HOSTS.iter().map(|h| Host::Name(h)).chain(IPS.iter().map(|i| Host::Ip(i.parse::<IpAddr>().unwrap()))).collect();
    if full {
        for &user in USERS {
            for &host in &hosts {
                for &port in PORTS {
                    v.push(Some(Auth { user, host, port }));
                }
            }
        }
    } else {
        for &user in USERS {
            v.push(Some(Auth { user, host: Host::Name("h"), port: Port::None }));
        }
        for &host in &hosts {
            v.push(Some(Auth { user: User::None, host, port: Port::None }));
        }
        for &port in PORTS {
            v.push(Some(Auth { user: User::None, host: Host::Name(""), port }));
        }
    }
    v
}

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one component set built as all four types in both specs; nontrivial = accepted as a reference");
    let thorough = ctx.thorough;
    let few = auths(false);
    let all = auths(true);
    ctx.phase("all combinations of scheme, authority, path, query, fragment", || {
        let (a, q, f): (Vec<_>, Vec<_>, Vec<_>) = if thorough {
            (few.clone(), QUERIES.to_vec(), FRAGS.to_vec())
        } else {
            (few.iter().copied().step_by(2).collect(), vec![None, Some(""), Some("/?:@"), Some("#")], vec![None, Some(""), Some("#")])
        };
        product(&[2, SCHEMES.len(), a.len(), PATHS.len(), q.len(), f.len()], |i| {
            check(ctx, &Set { normalize: i[0] == 1, scheme: SCHEMES[i[1]], auth: a[i[2]], path: PATHS[i[3]], query: q[i[4]], fragment: f[i[5]] });
        });
    });
    ctx.phase("all authorities", || {
        let paths = if thorough { PATHS } else { &PATHS[..6] };
        product(&[2, 2, all.len(), paths.len()], |i| {
            check(ctx, &Set { normalize: i[0] == 1, scheme: SCHEMES[i[1]], auth: all[i[2]], path: paths[i[3]], ..Set::default() });
        });
    });
    ctx.phase("queries and fragments", || {
        product(&[2, 2, QUERIES.len(), FRAGS.len(), PATHS.len()], |i| {
            check(ctx, &Set { normalize: i[0] == 1, scheme: SCHEMES[i[1]], query: QUERIES[i[2]], fragment: FRAGS[i[3]], path: PATHS[i[4]], auth: None });
        });
    });
    ctx.phase("all paths", || {
        strings(&["/", "a", ":", "..", ".", "%2E", "\u{E9}", "?"], if thorough { 8 } else { 6 }, |path| {
            for scheme in [None, Some("s")] {
                for auth in [None, Some(Auth::default()), Some(Auth { host: Host::Name("H"), ..Auth::default() })] {
                    for normalize in [false, true] {
                        check(ctx, &Set { scheme, auth, path, normalize, query: None, fragment: None });
                    }
                }
            }
        });
    });
    ctx.phase("every character in every component", || {
        par(0x1100, |k| {
            for cp in k * 256..(k + 1) * 256 {
                let Some(c) = char::from_u32(cp as u32) else { continue };
                // C01 decides every character for the component validators themselves.
                let low = cp & 0xFFFF;
                let edge = [0, 0xD800, 0xE000, 0xF900, 0xFDD0, 0xFDF0, 0xFFF0, 0x10000].iter().any(|e| low.abs_diff(*e) < 3);
                if !(thorough || cp < 0x300 || edge || cp.abs_diff(0xE1000) < 3 || cp % 251 == 0) {
                    continue;
                }
                let plain = c.to_string();
                let after = format!("a{c}");
                let vs = [plain.as_str(), after.as_str()];
                for v in &vs[..if thorough || cp < 0x300 { 2 } else { 1 }] {
                    let v: &str = v;
                    let base = Set { scheme: Some("s"), ..Set::default() };
                    let with = |user, host, port| Set { auth: Some(Auth { user, host, port }), ..base };
                    let h = Host::Name("h");
                    for s in [
                        Set { scheme: Some(v), ..base },
                        with(User::Direct(v), h, Port::None),
                        with(User::Pair(v, None), h, Port::None),
                        with(User::Pair("", Some(v)), h, Port::None),
                        with(User::None, Host::Name(v), Port::None),
                        with(User::None, h, Port::Text(v)),
                        Set { path: v, ..base },
                        Set { path: v, ..Set::default() },
                        Set { query: Some(v), ..base },
                        Set { fragment: Some(v), ..base },
                    ] {
                        if thorough || cp < 0x300 {
                            check(ctx, &s);
                            check(ctx, &Set { normalize: true, ..s });
                        } else {
                            check(ctx, &Set { normalize: cp % 2 == 1, ..s });
                        }
                    }
                }
            }
        });
    });
    ctx.phase("values with several reserved characters", || {
        strings(&["a", ":", "@", "/", "[", "]", "%", "4", "#", "\u{E9}"], if thorough { 5 } else { 3 }, |v| {
            let base = Set { scheme: Some("s"), ..Set::default() };
            let with = |user, host, port| Set { auth: Some(Auth { user, host, port }), ..base };
            let h = Host::Name("h");
            for s in [
                Set { scheme: Some(v), ..base },
                with(User::Direct(v), h, Port::None),
                with(User::Pair(v, None), h, Port::None),
                with(User::Pair(v, Some("")), h, Port::None),
                with(User::Pair("", Some(v)), h, Port::None),
                with(User::None, Host::Name(v), Port::None),
                with(User::None, h, Port::Text(v)),
                with(User::Direct(v), Host::Name(v), Port::Text(v)),
                Set { query: Some(v), ..base },
                Set { fragment: Some(v), ..base },
                Set { query: Some(v), fragment: Some(v), path: v, ..Set::default() },
            ] {
                check(ctx, &s);
                check(ctx, &Set { normalize: true, ..s });
            }
        });
    });
    ctx.phase("every kind of host", || {
        let hosts = mc::gens::host_texts(thorough);
        par(hosts.len(), |i| {
            let host = Host::Name(&hosts[i]);
            for (scheme, user, port) in [(None, User::None, Port::None), (Some("s"), User::Pair("u", Some("p")), Port::Int(80)), (Some("s"), User::Direct(""), Port::Text(""))] {
                for normalize in [false, true] {
                    check(ctx, &Set { scheme, normalize, auth: Some(Auth { user, host, port }), ..Set::default() });
                }
            }
        });
    });
    ctx.phase("long components", || {
        let lens: Vec<usize> = mc::gens::lens(thorough).into_iter().filter(|&n| n <= if thorough { 9000 } else { 4100 }).collect();
        let units = ["a", "1", "\u{E9}", "%41", "%7e", "%c3%a9", ":", "/", "a/", "../", "\u{10FFFD}", "A", "."];
        let lits = ["[v1.", "[v", "[::", "[1:"];
        par(lens.len() * units.len(), |j| {
            let (n, u) = (lens[j / units.len()], units[j % units.len()]);
            if n > 1100 && u.contains('/') {
                return;
            }
            let run = u.repeat(n);
            for (pre, post) in [("", ""), ("s", ""), ("", "\u{E9}"), ("/", "%"), ("/x", ":"), ("", "[")] {
                if n > 300 && !(pre.is_empty() && post.is_empty() || pre == "/") {
                    continue;
                }
                let v = format!("{pre}{run}{post}");
                let v = v.as_str();
                let base = Set { scheme: Some("s"), ..Set::default() };
                let with = |user, host, port| Set { auth: Some(Auth { user, host, port }), ..base };
                let h = Host::Name("h");
                for s in [
                    Set { scheme: Some(v), ..base },
                    Set { scheme: Some(v), ..with(User::Pair("u", Some("p")), h, Port::Int(80)) },
                    with(User::Direct(v), h, Port::None),
                    with(User::Pair(v, None), h, Port::Text("80")),
                    with(User::Pair(v, Some("p")), h, Port::None),
                    with(User::Pair("u", Some(v)), h, Port::None),
                    with(User::Pair(v, Some(v)), Host::Name(v), Port::Text(v)),
                    with(User::None, Host::Name(v), Port::None),
                    with(User::Direct("u:p"), Host::Name(v), Port::Small(9)),
                    with(User::None, h, Port::Text(v)),
                    Set { path: v, ..base },
                    Set { path: v, ..Set::default() },
                    Set { path: v, query: Some("q"), fragment: Some("f"), ..with(User::None, h, Port::None) },
                    Set { query: Some(v), ..base },
                    Set { query: Some(v), path: "a", ..Set::default() },
                    Set { query: Some(v), fragment: Some(v), path: "/a", ..Set::default() },
                    Set { fragment: Some(v), ..base },
                    Set { fragment: Some(v), query: Some("q"), path: "/a", ..with(User::None, h, Port::None) },
                ] {
                    check(ctx, &s);
                    check(ctx, &Set { normalize: true, ..s });
                }
            }
            for p in lits {
                for end in ["]", ""] {
                    let v = format!("{p}{run}{end}");
                    let s = Set { auth: Some(Auth { host: Host::Name(&v), ..Auth::default() }), ..Set::default() };
                    check(ctx, &s);
                    check(ctx, &Set { normalize: true, ..s });
                }
            }
        });
    });
    ctx.phase("every zero pattern of an address", || {
        let vals = [1u16, 0xA, 0x10, 0x100, 0x1000, 0xFFFF, 0x1A2B];
        par(256 * vals.len(), |j| {
            let (mask, x) = (j / vals.len(), vals[j % vals.len()]);
            let groups: [u16; 8] = std::array::from_fn(|i| if mask >> i & 1 == 1 { x } else { 0 });
            let v6 = std::net::Ipv6Addr::from(groups);
            let mut all = vec![IpAddr::V6(v6)];
            if mask < 16 {
                let b = (x & 0xFF) as u8;
                all.push(IpAddr::V4(std::array::from_fn::<u8, 4, _>(|i| if mask >> i & 1 == 1 { b } else { 0 }).into()));
                all.push(IpAddr::V4(std::array::from_fn::<u8, 4, _>(|i| if mask >> i & 1 == 1 { 255 } else { b }).into()));
            }
            for ip in all {
                for (user, port) in [(User::None, Port::None), (User::Direct("u:"), Port::Text("")), (User::Pair("u", Some("p")), Port::Int(65535))] {
                    for scheme in [None, Some("s")] {
                        for normalize in [false, true] {
                            check(ctx, &Set { scheme, normalize, auth: Some(Auth { user, host: Host::Ip(ip), port }), ..Set::default() });
                        }
                    }
                }
            }
        });
        par(256, |b| {
            for at in 0..4 {
                let mut o = [10u8, 0, 200, 99];
                o[at] = b as u8;
                check(ctx, &Set { auth: Some(Auth { host: Host::Ip(IpAddr::from(o)), ..Auth::default() }), ..Set::default() });
            }
        });
    });
    ctx.phase("every port number", || {
        par(65536, |n| {
            let s = Set { scheme: Some("s"), auth: Some(Auth { port: Port::Int(n as u16), ..Auth::default() }), ..Set::default() };
            check(ctx, &s);
            if n < 256 {
                let mut s = s;
                s.auth.as_mut().unwrap().port = Port::Small(n as u8);
                check(ctx, &s);
            }
        });
    });
}

fn replay(_: &Ctx, c: &[String]) -> R {
    verify(&de(c))
}

fn main() {
    run("C12", "exploration", explore, replay)
}
