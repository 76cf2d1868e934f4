//! C14: histories of in-place edits and consuming conversions.

use iri_string::format::ToDedicatedString;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;
use mc::en::lang;
use mc::gens;
use mc::grammar::{dfa, valid, K};
use mc::report::{hash, par, run, Ctx};
use mc::rfc::{authority, is_reg_name_host, normalize, password, resolve, split, to_uri};
use std::collections::HashSet;
use std::sync::Mutex;

type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Kind {
    Ref,
    Iri,
    Abs,
    Rel,
}
impl Kind {
    fn k(self) -> K {
        match self {
            Kind::Ref => K::IriRef,
            Kind::Iri => K::Iri,
            Kind::Abs => K::AbsIri,
            Kind::Rel => K::RelRef,
        }
    }
}
const KINDS: &[Kind] = &[Kind::Ref, Kind::Iri, Kind::Abs, Kind::Rel];

/// What the model knows: the type and the text.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct St {
    iri: bool,
    kind: Kind,
    text: String,
}

#[derive(Clone, Copy, Debug)]
enum Op<'a> {
    SetFragment(Option<&'a str>),
    RemovePassword,
    RemoveNonemptyPassword,
    ReplaceHost(&'a str),
    TryReplaceHost(&'a str),
    ReplaceRegName(&'a str),
    TryReplaceRegName(&'a str),
    EncodeInline,
    EncodeInto,
    TryIntoUri,
    IntoIriSpec,
    Normalize,
    NormalizePreserving,
    Mask,
    Resolve(&'a str),
    /// Reference to the absolute or relative kind, or back.
    Narrow,
    Widen,
    DropFragment,
    SplitFragment,
}

const OPS: &[Op<'static>] = &[
    Op::SetFragment(None),
    Op::SetFragment(Some("")),
    Op::SetFragment(Some("f")),
    Op::SetFragment(Some("/?:@//")),
    Op::SetFragment(Some("\u{E9}")),
    Op::RemovePassword,
    Op::RemoveNonemptyPassword,
    Op::ReplaceHost(""),
    Op::ReplaceHost("h"),
    Op::ReplaceHost("[::1A]"),
    Op::ReplaceHost("1.2.3.4"),
    Op::ReplaceHost("\u{E9}.%c3"),
    Op::ReplaceHost("h:1"),
    Op::ReplaceHost("[::"),
    Op::TryReplaceHost("H.long.example"),
    Op::TryReplaceHost("u@h"),
    Op::ReplaceRegName("reg"),
    Op::ReplaceRegName("[v1.x]"),
    Op::ReplaceRegName("a/b"),
    Op::TryReplaceRegName(""),
    Op::TryReplaceRegName("\u{E9}"),
    Op::TryReplaceRegName("9.9.9.9"),
    Op::EncodeInline,
    Op::EncodeInto,
    Op::TryIntoUri,
    Op::IntoIriSpec,
    Op::Normalize,
    Op::NormalizePreserving,
    Op::Mask,
    Op::Resolve("b://x:y@B:/p/q?r"),
    Op::Resolve("b:p/q"),
    Op::Narrow,
    Op::Widen,
    Op::DropFragment,
    Op::SplitFragment,
];

impl Op<'_> {
    /// The arguments of a recorded counterexample.
    fn name(self) -> String {
        let (n, a) = match self {
            Op::SetFragment(f) => return format!("SetFragment\t{}", f.map_or("-".into(), |f| format!("#{f}"))),
            Op::ReplaceHost(h) => ("ReplaceHost", h),
            Op::TryReplaceHost(h) => ("TryReplaceHost", h),
            Op::ReplaceRegName(h) => ("ReplaceRegName", h),
            Op::TryReplaceRegName(h) => ("TryReplaceRegName", h),
            Op::Resolve(b) => ("Resolve", b),
            o => return format!("{o:?}"),
        };
        format!("{n}\t{a}")
    }
}
fn op_of(s: &str) -> Op<'_> {
    match s.split_once('\t') {
        Some(("SetFragment", f)) => Op::SetFragment(f.strip_prefix('#')),
        Some(("ReplaceHost", h)) => Op::ReplaceHost(h),
        Some(("TryReplaceHost", h)) => Op::TryReplaceHost(h),
        Some(("ReplaceRegName", h)) => Op::ReplaceRegName(h),
        Some(("TryReplaceRegName", h)) => Op::TryReplaceRegName(h),
        Some(("Resolve", b)) => Op::Resolve(b),
        _ => *OPS.iter().find(|o| o.name() == s).expect("operation"),
    }
}

/// Result of an operation in the model: the next state and what the operation returns.
/// `None` when the operation is not offered for the type.
fn model(s: &St, op: Op) -> Option<(St, String)> {
    let p = split(&s.text);
    let plain = |text: String| Some((St { text, ..s.clone() }, String::new()));
    match op {
        Op::SetFragment(f) => {
            if s.kind == Kind::Abs || f.is_some_and(|f| !valid(K::Fragment, s.iri, f)) {
                return None;
            }
            plain(mc::rfc::recompose(p.scheme, p.authority, p.path, p.query, f))
        }
        Op::RemovePassword | Op::RemoveNonemptyPassword => match password(&s.text) {
            None => plain(s.text.clone()),
            Some(r) => {
                let from = if matches!(op, Op::RemovePassword) { r.start - 1 } else { r.start };
                plain(format!("{}{}", &s.text[..from], &s.text[r.end..]))
            }
        },
        Op::ReplaceHost(h) | Op::TryReplaceHost(h) | Op::ReplaceRegName(h) | Op::TryReplaceRegName(h) => {
            let reg = matches!(op, Op::ReplaceRegName(_) | Op::TryReplaceRegName(_));
            let no = Some((s.clone(), "None".to_string()));
            let Some(a) = p.authority else { return no };
            let (u, old, port) = authority(a);
            if !valid(K::Host, s.iri, h) || (reg && !is_reg_name_host(old)) {
                return no;
            }
            let mut a = u.map_or(String::new(), |u| format!("{u}@"));
            a += h;
            if let Some(x) = port {
                a += &format!(":{x}");
            }
            let text = mc::rfc::recompose(p.scheme, Some(&a), p.path, p.query, p.fragment);
            Some((St { text, ..s.clone() }, format!("{:?}", Some(h))))
        }
        Op::EncodeInline => s.iri.then(|| (St { text: to_uri(&s.text), ..s.clone() }, String::new())),
        Op::EncodeInto => s.iri.then(|| (St { text: to_uri(&s.text), iri: false, ..s.clone() }, String::new())),
        Op::TryIntoUri => s.iri.then(|| (St { iri: !s.text.is_ascii(), ..s.clone() }, String::new())),
        Op::IntoIriSpec => (!s.iri).then(|| (St { iri: true, ..s.clone() }, String::new())),
        Op::Normalize | Op::NormalizePreserving => {
            if !matches!(s.kind, Kind::Iri | Kind::Abs) {
                return None;
            }
            plain(normalize(&s.text, s.iri, matches!(op, Op::NormalizePreserving)).text())
        }
        Op::Mask => match password(&s.text) {
            None => plain(s.text.clone()),
            Some(r) => plain(format!("{}{}", &s.text[..r.start], &s.text[r.end..])),
        },
        Op::Resolve(base) => {
            if !matches!(s.kind, Kind::Ref | Kind::Rel) {
                return None;
            }
            Some((St { iri: s.iri, kind: Kind::Iri, text: resolve(base, &s.text).text() }, String::new()))
        }
        Op::Narrow => {
            let kind = match s.kind {
                Kind::Ref if p.scheme.is_some() => Kind::Iri,
                Kind::Ref => Kind::Rel,
                Kind::Iri if p.fragment.is_none() => Kind::Abs,
                k => k,
            };
            Some((St { kind, ..s.clone() }, String::new()))
        }
        Op::Widen => {
            let kind = match s.kind {
                Kind::Abs => Kind::Iri,
                Kind::Iri | Kind::Rel | Kind::Ref => Kind::Ref,
            };
            Some((St { kind, ..s.clone() }, String::new()))
        }
        Op::DropFragment => {
            (s.kind == Kind::Iri).then(|| (St { kind: Kind::Abs, text: mc::rfc::recompose(p.scheme, p.authority, p.path, p.query, None), ..s.clone() }, String::new()))
        }
        Op::SplitFragment => (s.kind == Kind::Iri).then(|| {
            (St { kind: Kind::Abs, text: mc::rfc::recompose(p.scheme, p.authority, p.path, p.query, None), ..s.clone() }, format!("{:?}", p.fragment))
        }),
    }
}

/// A library value of any of the owned types.
enum V<S: Spec> {
    Ref(RiReferenceString<S>),
    Iri(RiString<S>),
    Abs(RiAbsoluteString<S>),
    Rel(RiRelativeString<S>),
}

macro_rules! each {
    ($v:expr, $x:ident => $e:expr) => {
        match $v {
            V::Ref($x) => $e,
            V::Iri($x) => $e,
            V::Abs($x) => $e,
            V::Rel($x) => $e,
        }
    };
}
macro_rules! rewrap {
    ($v:expr, $x:ident => $e:expr) => {
        match $v {
            V::Ref($x) => V::Ref($e),
            V::Iri($x) => V::Iri($e),
            V::Abs($x) => V::Abs($e),
            V::Rel($x) => V::Rel($e),
        }
    };
}

impl<S: Spec> V<S> {
    fn new(kind: Kind, s: &str) -> Option<Self> {
        let s = s.to_string();
        Some(match kind {
            Kind::Ref => V::Ref(s.try_into().ok()?),
            Kind::Iri => V::Iri(s.try_into().ok()?),
            Kind::Abs => V::Abs(s.try_into().ok()?),
            Kind::Rel => V::Rel(s.try_into().ok()?),
        })
    }
    fn text(&self) -> &str {
        each!(self, x => x.as_str())
    }
    fn kind(&self) -> Kind {
        match self {
            V::Ref(_) => Kind::Ref,
            V::Iri(_) => Kind::Iri,
            V::Abs(_) => Kind::Abs,
            V::Rel(_) => Kind::Rel,
        }
    }
    /// An operation offered for both specs.
    fn apply(mut self, op: Op) -> Result<(Self, String), String> {
        let mut ret = String::new();
        match op {
            Op::SetFragment(f) => {
                let f = f.map(|f| RiFragmentStr::<S>::new(f).unwrap());
                match &mut self {
                    V::Ref(x) => x.set_fragment(f),
                    V::Iri(x) => x.set_fragment(f),
                    V::Rel(x) => x.set_fragment(f),
                    V::Abs(_) => unreachable!(),
                }
            }
            Op::RemovePassword => each!(&mut self, x => x.remove_password_inline()),
            Op::RemoveNonemptyPassword => each!(&mut self, x => x.remove_nonempty_password_inline()),
            Op::ReplaceHost(h) => ret = each!(&mut self, x => format!("{:?}", x.replace_host(h))),
            Op::TryReplaceHost(h) => ret = each!(&mut self, x => format!("{:?}", x.try_replace_host(h).map_err(|e| e.to_string())?)),
            Op::ReplaceRegName(h) => ret = each!(&mut self, x => format!("{:?}", x.replace_host_reg_name(h))),
            Op::TryReplaceRegName(h) => ret = each!(&mut self, x => format!("{:?}", x.try_replace_host_reg_name(h).map_err(|e| e.to_string())?)),
            Op::Normalize => {
                self = match self {
                    V::Iri(x) => V::Iri(x.normalize().to_dedicated_string()),
                    V::Abs(x) => V::Abs(x.normalize().to_dedicated_string()),
                    x => x,
                }
            }
            Op::NormalizePreserving => {
                self = match self {
                    V::Iri(x) => V::Iri(x.normalize_but_preserve_authorityless_relative_path().to_dedicated_string()),
                    V::Abs(x) => V::Abs(x.normalize_but_preserve_authorityless_relative_path().to_dedicated_string()),
                    x => x,
                }
            }
            Op::Mask => self = rewrap!(self, x => x.mask_password().to_dedicated_string()),
            Op::Resolve(b) => {
                let b = RiAbsoluteStr::<S>::new(b).unwrap();
                self = match self {
                    V::Ref(x) => V::Iri(x.resolve_against(b).to_dedicated_string()),
                    V::Rel(x) => V::Iri(x.resolve_against(b).to_dedicated_string()),
                    x => x,
                }
            }
            Op::Narrow => {
                self = match self {
                    V::Ref(x) => match x.into_iri() {
                        Ok(i) => V::Iri(i),
                        Err(r) => V::Rel(r),
                    },
                    V::Iri(x) => match RiAbsoluteString::try_from(x) {
                        Ok(a) => V::Abs(a),
                        Err(e) => V::Iri(e.into_source()),
                    },
                    x => x,
                }
            }
            Op::Widen => {
                self = match self {
                    V::Abs(x) => V::Iri(x.into()),
                    V::Iri(x) => V::Ref(x.into()),
                    V::Rel(x) => V::Ref(x.into()),
                    V::Ref(x) => V::Ref(x),
                }
            }
            Op::DropFragment => {
                self = match self {
                    V::Iri(x) => V::Abs(x.into_absolute()),
                    x => x,
                }
            }
            Op::SplitFragment => {
                self = match self {
                    V::Iri(x) => {
                        let (a, f) = x.into_absolute_and_fragment();
                        ret = format!("{:?}", f.as_ref().map(|f| f.as_str()));
                        V::Abs(a)
                    }
                    x => x,
                }
            }
            _ => unreachable!(),
        }
        Ok((self, ret))
    }
}

enum W {
    I(V<IriSpec>),
    U(V<UriSpec>),
}

impl W {
    fn new(s: &St) -> Option<W> {
        Some(if s.iri { W::I(V::new(s.kind, &s.text)?) } else { W::U(V::new(s.kind, &s.text)?) })
    }
    fn state(&self) -> St {
        match self {
            W::I(v) => St { iri: true, kind: v.kind(), text: v.text().to_string() },
            W::U(v) => St { iri: false, kind: v.kind(), text: v.text().to_string() },
        }
    }
    fn apply(self, op: Op) -> Result<(W, String), String> {
        let none = String::new();
        Ok(match (self, op) {
            (W::I(mut v), Op::EncodeInline) => {
                each!(&mut v, x => x.encode_to_uri_inline());
                (W::I(v), none)
            }
            (W::I(v), Op::EncodeInto) => (W::U(rewrap!(v, x => x.encode_into_uri())), none),
            (W::I(v), Op::TryIntoUri) => {
                macro_rules! t {
                    ($x:expr, $k:ident) => {
                        match $x.try_into_uri() {
                            Ok(u) => W::U(V::$k(u)),
                            Err(i) => W::I(V::$k(i)),
                        }
                    };
                }
                let w = match v {
                    V::Ref(x) => t!(x, Ref),
                    V::Iri(x) => t!(x, Iri),
                    V::Abs(x) => t!(x, Abs),
                    V::Rel(x) => t!(x, Rel),
                };
                (w, none)
            }
            (W::U(v), Op::IntoIriSpec) => (W::I(rewrap!(v, x => x.into())), none),
            (W::I(v), op) => {
                let (v, r) = v.apply(op)?;
                (W::I(v), r)
            }
            (W::U(v), op) => {
                let (v, r) = v.apply(op)?;
                (W::U(v), r)
            }
        })
    }
}

/// Executes the operation on the value and compares with the model.
fn step(w: W, before: &St, op: Op) -> Result<(W, St), String> {
    let (want, want_ret) = model(before, op).expect("offered");
    let (w, ret) = w.apply(op)?;
    let got = w.state();
    if got != want {
        return Err(format!("{op:?} on {before:?}: {got:?}, expected {want:?}"));
    }
    if ret != want_ret {
        return Err(format!("{op:?} on {before:?} returned {ret}, expected {want_ret}"));
    }
    if !valid(got.kind.k(), got.iri, &got.text) {
        return Err(format!("{op:?} on {before:?}: {:?} is not valid for its type", got.text));
    }
    if W::new(&got).is_none() {
        return Err(format!("{op:?} on {before:?}: {:?} is rejected by its own type", got.text));
    }
    Ok((w, got))
}

fn verify(start: &St, ops: &[Op]) -> R {
    let mut w = W::new(start).ok_or_else(|| format!("{start:?} is rejected"))?;
    let mut s = start.clone();
    for &o in ops {
        (w, s) = step(w, &s, o)?;
    }
    Ok(())
}

fn case_of(s: &St, ops: &[Op]) -> Vec<String> {
    let mut v = vec![if s.iri { "iri" } else { "uri" }.to_string(), format!("{:?}", s.kind), s.text.clone()];
    v.extend(ops.iter().map(|o| o.name()));
    v
}

fn check(ctx: &Ctx, s: &St, ops: &[Op]) {
    let c = case_of(s, ops);
    let c: Vec<&str> = c.iter().map(String::as_str).collect();
    ctx.case(&c, || verify(s, ops).map_err(|e| format!("{e} (history {ops:?} from {s:?})")));
    ctx.transitions(1);
}

/// All types and specs the text is valid for.
fn states_of(text: &str) -> Vec<St> {
    let mut v = Vec::new();
    for iri in [true, false] {
        if iri || text.is_ascii() {
            for &kind in KINDS {
                if valid(kind.k(), iri, text) {
                    v.push(St { iri, kind, text: text.to_string() });
                }
            }
        }
    }
    v
}

/// Breadth-first search over the model from the given start; one real execution per transition.
fn closure(ctx: &Ctx, starts: Vec<St>) {
    let mut seen: HashSet<St> = starts.iter().cloned().collect();
    let mut level = starts;
    let mut depth = 0;
    while !level.is_empty() && !ctx.stop() {
        depth += 1;
        let next = Mutex::new(Vec::new());
        par(level.len(), |i| {
            let s = &level[i];
            let mut out = Vec::new();
            for o in 0..OPS.len() {
                if let Some((t, _)) = model(s, OPS[o]) {
                    check(ctx, s, &[OPS[o]]);
                    if t != *s {
                        ctx.outcome(hash(&format!("{t:?}")));
                        out.push(t);
                    }
                }
            }
            next.lock().unwrap().extend(out);
        });
        level = next.into_inner().unwrap().into_iter().filter(|t| seen.insert(t.clone())).collect();
    }
    ctx.states(seen.len() as u64);
    ctx.count("closure depth", depth);
}

/// All histories up to a depth, on one value.
fn histories(ctx: &Ctx, start: &St, s: &St, left: usize, ops: &mut Vec<Op<'static>>) {
    if left == 0 {
        // Checks every step on the way.
        check(ctx, start, ops);
        return;
    }
    for o in 0..OPS.len() {
        if let Some((t, _)) = model(s, OPS[o]) {
            ops.push(OPS[o]);
            histories(ctx, start, &t, left - 1, ops);
            ops.pop();
        }
    }
}

/// Hosts of every kind and texts that are nearly one, most of them not valid.
fn explore(ctx: &Ctx) {
    ctx.rule("model: (spec, type, text); one trace = a history of edits executed on one library value and compared after every edit");
    let thorough = ctx.thorough;
    let mut starts = Vec::new();
    let mut refs = gens::full_refs(1);
    refs.auths = if thorough {
        gens::authorities(gens::USERS, gens::HOSTS, &[None, Some(""), Some("80")])
    } else {
        gens::authorities(&gens::USERS[..7], &["", "H", "[::1A]", "1.2.3.4", "\u{E9}"], &[None, Some(""), Some("80")])
    };
    refs.schemes = vec![None, Some("S")];
    refs.paths = ["", "/", "/@:/", "a:b", "/a/../%2e//", "a/../..//x", "//", "\u{E9}", "/%c3%A9"].map(String::from).to_vec();
    refs.queries = vec![None, Some("/?:@")];
    refs.frags = vec![None, Some("x//y:z@")];
    let all = Mutex::new(Vec::new());
    refs.each(|s| {
        let v = states_of(s);
        all.lock().unwrap().extend(v);
    });
    starts.extend(all.into_inner().unwrap());
    starts.sort_by(|a, b| (&a.text, a.iri, a.kind as u8).cmp(&(&b.text, b.iri, b.kind as u8)));
    starts.dedup();
    ctx.phase("closure of the start values under edits", || closure(ctx, starts));
    ctx.phase("one edit of every short reference", || {
        let t: &[&str] = &["a", ":", "/", "//", "?", "#", "@", "\u{E9}", "[::]", "1"];
        lang(dfa(K::IriRef, true), t, if thorough { 7 } else { 5 }, |s| {
            for st in states_of(s) {
                for o in 0..OPS.len() {
                    if model(&st, OPS[o]).is_some() {
                        check(ctx, &st, &[OPS[o]]);
                    }
                }
            }
        });
    });
    ctx.phase("histories", || {
        let texts = ["//u:p@h:80", "s://u:p:q@[::1A]:/a?b#c", "s:a/b", "//@", "a", "s://:@\u{E9}:/\u{E9}?#", "//u@1.2.3.4/..//#x", "s:/..//a"];
        let sts: Vec<St> = texts.iter().flat_map(|t| states_of(t)).collect();
        let d = if thorough { 4 } else { 3 };
        let jobs: Vec<(usize, usize)> = (0..sts.len()).flat_map(|i| (0..OPS.len()).map(move |o| (i, o))).collect();
        par(jobs.len(), |j| {
            let (i, o) = jobs[j];
            if let Some((t, _)) = model(&sts[i], OPS[o]) {
                histories(ctx, &sts[i], &t, d - 1, &mut vec![OPS[o]]);
            }
        });
    });
    ctx.phase("every kind of host, replaced and replacing", || {
        let mut hosts = gens::host_texts(thorough);
        for c in mc::spaces::chars(if thorough { 1 } else { 0 }) {
            hosts.extend([format!("{c}"), format!("a{c}"), format!("[v1.{c}]")]);
        }
        hosts.sort();
        hosts.dedup();
        let few = ["", "reg", "9.9.9.9", "[::1A]", "\u{E9}", "h:1"];
        par(hosts.len(), |i| {
            let h = &hosts[i];
            for (pre, post) in [("s://", "/p"), ("//u:p@", ":80?q#f"), ("//", "")] {
                for st in states_of(&format!("{pre}{h}{post}")) {
                    for new in few {
                        check(ctx, &st, &[Op::ReplaceHost(new)]);
                        check(ctx, &st, &[Op::ReplaceRegName(new)]);
                        check(ctx, &st, &[Op::TryReplaceRegName(new)]);
                    }
                }
            }
            for text in ["//h", "s://u:p@reg:80/p", "s://9.9.9.9?", "//[::1A]:", "s:p", "\u{E9}"] {
                for st in states_of(text) {
                    for op in [Op::ReplaceHost(h), Op::TryReplaceHost(h), Op::ReplaceRegName(h), Op::TryReplaceRegName(h)] {
                        check(ctx, &st, &[op]);
                    }
                    // The replaced host is the one that counts afterwards.
                    check(ctx, &st, &[Op::ReplaceHost(h), Op::TryReplaceRegName("r"), Op::RemovePassword, Op::ReplaceHost("[v1.:]")]);
                }
            }
        });
    });
    ctx.phase("characters in every component", || {
        mc::spaces::each_char(1, &|s| {
            for st in states_of(s) {
                for o in 0..OPS.len() {
                    if model(&st, OPS[o]).is_some() {
                        check(ctx, &st, &[OPS[o]]);
                    }
                }
            }
        });
    });
    ctx.phase("long components", || {
        gens::long_refs(&if thorough { gens::lens(false) } else { vec![7, 8, 9, 15, 16, 17, 31, 33, 63, 65, 301, 4097, 65537] }, |s| {
            for st in states_of(s) {
                for o in 0..OPS.len() {
                    if model(&st, OPS[o]).is_some() {
                        check(ctx, &st, &[OPS[o]]);
                    }
                }
            }
        });
    });
}

fn replay(_: &Ctx, c: &[String]) -> R {
    let kind = *KINDS.iter().find(|k| format!("{k:?}") == c[1]).unwrap();
    let s = St { iri: c[0] == "iri", kind, text: c[2].clone() };
    let ops: Vec<Op> = c[3..].iter().map(|x| op_of(x)).collect();
    verify(&s, &ops)
}

fn main() {
    run("C14", "model_checking", explore, replay)
}
