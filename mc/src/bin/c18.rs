//! C18: expansion does not depend on how values are delivered; dynamic contexts are notified exactly.
//!
//! The environment's nondeterminism is enumerated: every way a `Display` value can split its text
//! into writes (with and without empty writes), every visitor entry point and ready-made value
//! type, static and dynamic contexts, and for dynamic contexts every write that can fail.

use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt;
use std::ops::ControlFlow;

use iri_string::impl_template_context_naive;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::context::{visit_value_naive, AssocVisitor, Context, DynamicContext, ListVisitor, VarName, VisitPurpose, Visitor};
use iri_string::template::simple_context::{SimpleContext, Value};
use iri_string::template::UriTemplateStr;
use mc::grammar::{dfa, K};
use mc::report::{hash, par, run, Ctx};
use mc::tpl::{self, Env, Val};

/// How a text writes itself.
#[derive(Clone, Copy)]
struct Text<'a> {
    text: &'a str,
    mode: u8,
    mask: u64,
}
const MODES: u8 = 5;
/// Writes of `mask` characters each.
const CHUNKS: u8 = 5;

impl fmt::Display for Text<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        use fmt::Write;
        match self.mode {
            0 => f.write_str(self.text),
            1 | 2 => {
                let empties = self.mode == 2;
                let mut start = 0;
                for (k, (pos, _)) in self.text.char_indices().skip(1).enumerate() {
                    if self.mask >> (k % 64) & 1 == 1 {
                        if empties {
                            f.write_str("")?;
                        }
                        f.write_str(&self.text[start..pos])?;
                        start = pos;
                    }
                }
                if empties {
                    f.write_str("")?;
                }
                f.write_str(&self.text[start..])?;
                if empties {
                    f.write_str("")?;
                }
                Ok(())
            }
            3 => self.text.chars().try_for_each(|c| f.write_char(c)),
            CHUNKS => {
                let mut rest = self.text;
                while !rest.is_empty() {
                    let end = rest.char_indices().nth(self.mask as usize).map_or(rest.len(), |x| x.0);
                    f.write_str(&rest[..end])?;
                    rest = &rest[end..];
                }
                Ok(())
            }
            _ => f.write_fmt(format_args!("{}{}", self.text, "")),
        }
    }
}

/// Bits of a split mask a text uses.
fn width(t: &str) -> u32 {
    t.chars().count().saturating_sub(1) as u32
}
fn total(v: &Val) -> u32 {
    match v {
        Val::Undef => 0,
        Val::Str(s) => width(s),
        Val::List(l) => l.iter().map(|x| width(x)).sum(),
        Val::Assoc(m) => m.iter().map(|(k, x)| width(k) + width(x)).sum(),
    }
}

/// A context delivering `env` in a given way.
struct Custom<'a> {
    env: &'a Env,
    text: u8,
    shape: u8,
    mask: u64,
}
const SHAPES: u8 = 7;

impl Context for Custom<'_> {
    fn visit<V: Visitor>(&self, v: V) -> V::Result {
        let mut at = 0;
        let mut t = |text| {
            let r = Text { text, mode: self.text, mask: if self.text == CHUNKS { self.mask } else { self.mask.rotate_right(at % 64) } };
            at += width(text);
            r
        };
        let name = v.var_name();
        let val = tpl::look(self.env, name.as_str());
        match val {
            Val::Undef => match self.shape {
                0 => v.visit_undefined(),
                1 => visit_value_naive(v, ()),
                2 => visit_value_naive(v, None::<&str>),
                3 => v.visit_list().finish(),
                4 => v.visit_assoc().finish(),
                5 => v.visit_list_direct(None::<&str>),
                _ => v.visit_assoc_direct(None::<(&str, &str)>),
            },
            Val::Str(s) => match self.shape {
                1 => visit_value_naive(v, s.as_str()),
                2 => visit_value_naive(v, s),
                3 => visit_value_naive(v, Some(Cow::Borrowed(s.as_str()))),
                4 => visit_value_naive(v, Some(Some(Box::<str>::from(s.as_str())))),
                _ => v.visit_string(t(s)),
            },
            Val::List(l) => {
                let d: Vec<Text> = l.iter().map(|x| t(x)).collect();
                match self.shape {
                    0 => {
                        let mut lv = v.visit_list();
                        for x in &d {
                            if let ControlFlow::Break(r) = lv.visit_item(x) {
                                return r;
                            }
                        }
                        lv.finish()
                    }
                    1 => v.visit_list().visit_items_and_finish(d),
                    2 => v.visit_list_direct(d.iter()),
                    3 => visit_value_naive(v, d),
                    4 => visit_value_naive(v, d.as_slice()),
                    5 => visit_value_naive(v, Some(&d)),
                    _ => match &d[..] {
                        [] => visit_value_naive(v, [0u8; 0]),
                        [a] => visit_value_naive(v, [a]),
                        [a, b] => visit_value_naive(v, [a, b]),
                        [a, b, c] => visit_value_naive(v, [a, b, c]),
                        _ => v.visit_list_direct(d.into_iter().collect::<std::collections::VecDeque<_>>()),
                    },
                }
            }
            Val::Assoc(m) => {
                let d: Vec<(Text, Text)> = m.iter().map(|(k, x)| (t(k), t(x))).collect();
                match self.shape {
                    0 => {
                        let mut av = v.visit_assoc();
                        for (k, x) in &d {
                            if let ControlFlow::Break(r) = av.visit_entry(k, x) {
                                return r;
                            }
                        }
                        av.finish()
                    }
                    1 => v.visit_assoc().visit_entries_and_finish(d),
                    // Keys whose order is the given order.
                    3 => visit_value_naive(v, Ordered::map(&d)),
                    4 if d.len() < 2 => visit_value_naive(v, d.iter().map(|(k, x)| (k.text, x)).collect::<HashMap<_, _>>()),
                    5 => visit_value_naive(v, Some(Ordered::map(&d))),
                    _ => v.visit_assoc_direct(d.iter().map(|(k, x)| (k, x))),
                }
            }
        }
    }
}

/// A key ordered by its position.
struct Ordered<'a>(usize, Text<'a>);
impl<'a> Ordered<'a> {
    fn map<'b>(d: &'b [(Text<'a>, Text<'a>)]) -> BTreeMap<Ordered<'a>, &'b Text<'a>> {
        d.iter().enumerate().map(|(i, (k, x))| (Ordered(i, *k), x)).collect()
    }
}
impl fmt::Display for Ordered<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.1.fmt(f)
    }
}
impl PartialEq for Ordered<'_> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Ordered<'_> {}
impl PartialOrd for Ordered<'_> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ordered<'_> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}

#[derive(Debug, PartialEq, Clone)]
enum Ev {
    Start,
    End,
    Visit(String, bool),
}
/// A dynamic context recording what happens to it.
struct Logged<'a> {
    inner: Custom<'a>,
    log: Vec<Ev>,
}
impl DynamicContext for Logged<'_> {
    fn visit_dynamic<V: Visitor>(&mut self, v: V) -> V::Result {
        let expand = v.purpose() == VisitPurpose::Expand;
        self.log.push(Ev::Visit(v.var_name().as_str().into(), expand));
        self.inner.visit(v)
    }
    fn on_expansion_start(&mut self) {
        self.log.push(Ev::Start)
    }
    fn on_expansion_end(&mut self) {
        self.log.push(Ev::End)
    }
}

/// A writer that fails at the `left`-th write (and keeps failing).
struct Failing {
    out: String,
    left: usize,
}
impl fmt::Write for Failing {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.left == 0 {
            return Err(fmt::Error);
        }
        self.left -= 1;
        self.out.push_str(s);
        Ok(())
    }
}

fn simple(env: &Env) -> SimpleContext {
    let mut c = SimpleContext::new();
    for (n, v) in env {
        c.insert(n.as_str(), value(v));
    }
    c
}
fn value(v: &Val) -> Value {
    match v {
        Val::Undef => Value::Undefined,
        Val::Str(s) => Value::String(s.clone()),
        Val::List(l) => Value::List(l.clone()),
        Val::Assoc(m) => Value::Assoc(m.clone()),
    }
}

/// What the events of one expansion must be. `failed` allows the visits to stop early.
fn events(log: &[Ev], vars: &[&str], failed: bool) -> Result<(), String> {
    let bad = |e: &str| Err(format!("{e}; events {log:?}"));
    if log.first() != Some(&Ev::Start) || log.last() != Some(&Ev::End) {
        return bad("expansion not enclosed in start and end");
    }
    let mid = &log[1..log.len() - 1];
    let mut expanded = Vec::new();
    let mut checked = Vec::new();
    for e in mid {
        match e {
            Ev::Visit(n, true) => expanded.push(n.as_str()),
            Ev::Visit(n, false) => checked.push(n.as_str()),
            _ => return bad("start or end notified twice"),
        }
    }
    if !failed && expanded != vars || !vars.starts_with(&expanded) {
        return bad("variables not visited once each, in template order");
    }
    if !vars.starts_with(&checked) {
        return bad("variables not type-checked in template order");
    }
    Ok(())
}

/// `faults`: also fail every write of a dynamic expansion.
fn judge<S: Spec>(t: &str, env: &Env, iri: bool, text: u8, shape: u8, mask: u64, faults: bool) -> Result<String, String> {
    let want = tpl::expand(t, env, iri);
    let tmpl = UriTemplateStr::new(t).map_err(|e| format!("template rejected: {e}"))?;
    let c = Custom { env, text, shape, mask };
    let got = tmpl.expand::<S, _>(&c).ok().map(|e| e.to_string());
    if got != want {
        return Err(format!("custom context gives {got:?}, expected {want:?}"));
    }
    if mask == 0 {
        // The same through the ready-made context, and as a dynamic context.
        let mut s = simple(env);
        let got = tmpl.expand::<S, _>(&s).ok().map(|e| e.to_string());
        if got != want {
            return Err(format!("simple context gives {got:?}, expected {want:?}"));
        }
        let mut out = String::new();
        let got = tmpl.expand_dynamic::<S, _, _>(&mut out, &mut s).ok().map(|_| out);
        if got != want {
            return Err(format!("simple context gives {got:?} dynamically, expected {want:?}"));
        }
    }
    let vars = tpl::variables(t);
    let mut d = Logged { inner: c, log: Vec::new() };
    let got = tmpl.expand_dynamic_to_string::<S, _>(&mut d).ok();
    if got != want {
        return Err(format!("dynamic context gives {got:?}, expected {want:?}"));
    }
    events(&d.log, &vars, want.is_none())?;
    if !faults {
        return Ok(want.unwrap_or_default());
    }
    // Again on the same context: the notifications are per expansion.
    d.log.clear();
    let mut w = Failing { out: String::new(), left: usize::MAX };
    let again = tmpl.expand_dynamic::<S, _, _>(&mut w, &mut d).ok().map(|_| w.out.clone());
    if again != want {
        return Err(format!("second dynamic expansion gives {again:?}, expected {want:?}"));
    }
    events(&d.log, &vars, want.is_none())?;
    let full = w.out;
    for k in 0..usize::MAX - w.left {
        d.log.clear();
        let mut f = Failing { out: String::new(), left: k };
        if tmpl.expand_dynamic::<S, _, _>(&mut f, &mut d).is_ok() {
            return Err(format!("failure of write {k} not reported"));
        }
        if !full.starts_with(&f.out) {
            return Err(format!("failing at write {k} left {:?}, not a prefix of {full:?}", f.out));
        }
        events(&d.log, &vars, true).map_err(|e| format!("failing at write {k}: {e}"))?;
    }
    Ok(full)
}

fn check(ctx: &Ctx, t: &str, env: &Env, text: u8, shape: u8, mask: u64, faults: bool) {
    let how = format!("{text} {shape} {mask} {faults}");
    let j = tpl::to_json(env);
    for (spec, iri) in [("uri", false), ("iri", true)] {
        ctx.case(&["t", spec, t, &j, &how], || {
            let r = if iri {
                judge::<IriSpec>(t, env, iri, text, shape, mask, faults)
            } else {
                judge::<UriSpec>(t, env, iri, text, shape, mask, faults)
            }?;
            if !r.is_empty() && (text, shape) != (0, 0) {
                ctx.nontrivial(hash(t) ^ hash(&j).rotate_left(17) ^ hash(&how).rotate_left(31) ^ u64::from(iri));
            }
            ctx.outcome(hash(&r));
            Ok(())
        });
    }
}

fn splits(ctx: &Ctx, t: &str, v: Val, faults: bool) {
    let n = total(&v);
    let e = vec![("v".to_string(), v)];
    for mask in 0..1u64 << n {
        for text in [1, 2] {
            check(ctx, t, &e, text, 0, mask, faults && mask == (1 << n) - 1);
        }
    }
}

struct Naive {
    set: BTreeSet<i32>,
    hset: HashSet<u8>,
    map: BTreeMap<&'static str, i64>,
    hmap: HashMap<char, f32>,
    arr: [char; 3],
    some: Option<u128>,
    none: Option<i8>,
    unit: (),
    min: i128,
    own: String,
    cow: Cow<'static, str>,
    boxed: Box<str>,
    nested: Option<Option<Vec<&'static str>>>,
    ignored: u8,
    text: &'static str,
}
impl_template_context_naive! {
    Naive {
        set, hset, map, hmap, arr, some, none, unit, min, own, cow, boxed, nested, text: "renamed.x", ignored => ignore,
    }
}
fn ignore<V: Visitor>(v: V, _: &u8) -> V::Result {
    v.visit_undefined()
}
struct Tup(u8, &'static str);
impl_template_context_naive! { Tup { 0: "first", 1: "second" } }

fn naive() -> (Naive, Env) {
    let n = Naive {
        set: BTreeSet::from([3, -1, 2]),
        hset: HashSet::from([7]),
        map: BTreeMap::from([("z", 1), ("a/", -5)]),
        hmap: HashMap::from([('\u{e9}', 1.5)]),
        arr: ['x', '%', '\u{e9}'],
        some: Some(u128::MAX),
        none: None,
        unit: (),
        min: i128::MIN,
        own: "o%41\u{e9}".into(),
        cow: Cow::Borrowed("c/d"),
        boxed: "b d".into(),
        nested: Some(Some(vec!["n", ""])),
        ignored: 1,
        text: "\u{e9}e",
    };
    let e = tpl::env(&[
        ("set", tpl::l(&["-1", "2", "3"])),
        ("hset", tpl::l(&["7"])),
        ("map", tpl::m(&[("a/", "-5"), ("z", "1")])),
        ("hmap", tpl::m(&[("\u{e9}", "1.5")])),
        ("arr", tpl::l(&["x", "%", "\u{e9}"])),
        ("some", tpl::s(&u128::MAX.to_string())),
        ("min", tpl::s(&i128::MIN.to_string())),
        ("own", tpl::s("o%41\u{e9}")),
        ("cow", tpl::s("c/d")),
        ("boxed", tpl::s("b d")),
        ("nested", tpl::l(&["n", ""])),
        ("renamed.x", tpl::s("\u{e9}e")),
    ]);
    (n, e)
}

fn naive_case<S: Spec>(t: &str, iri: bool) -> Result<(), String> {
    let (n, e) = naive();
    let want = tpl::expand(t, &e, iri);
    let tmpl = UriTemplateStr::new(t).map_err(|e| e.to_string())?;
    let got = tmpl.expand::<S, _>(&n).ok().map(|x| x.to_string());
    if got != want {
        return Err(format!("naive context gives {got:?}, expected {want:?}"));
    }
    let got = tmpl.expand_dynamic_to_string::<S, _>(&mut { n }).ok();
    if got != want {
        return Err(format!("naive context gives {got:?} dynamically, expected {want:?}"));
    }
    Ok(())
}

/// Integers of every type, at their extremes.
fn int_case(i: usize) -> Result<(), String> {
    let mut k = 0;
    macro_rules! ints {
        ($($t:ty),*) => {$(
            for v in [<$t>::MIN, 0 as $t, <$t>::MAX, 42 as $t] {
                struct One($t);
                impl_template_context_naive! { One { 0: "v" } }
                if k == i {
                    let e = tpl::env(&[("v", tpl::s(&v.to_string()))]);
                    for t in ["{v}", "{+v:2}", "{;v:3}", "{?v*}", "{#v}"] {
                        let got = UriTemplateStr::new(t).unwrap().expand::<UriSpec, _>(&One(v)).map(|x| x.to_string()).ok();
                        if got != tpl::expand(t, &e, false) {
                            return Err(format!("{} {v} in {t}: {got:?}", stringify!($t)));
                        }
                    }
                }
                k += 1;
            }
        )*};
    }
    ints!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
    if i >= k {
        let t = UriTemplateStr::new("{first,second}{?second:1,first,third}").unwrap();
        let got = t.expand::<UriSpec, _>(&Tup(9, "ab")).map(|x| x.to_string()).ok();
        if got.as_deref() != Some("9,ab?second=a&first=9") {
            return Err(format!("tuple context gives {got:?}"));
        }
    }
    Ok(())
}

/// Histories of a `SimpleContext`.
fn history(ops: &[usize]) -> Result<(), String> {
    let mut c = SimpleContext::new();
    let mut model: BTreeMap<&str, Val> = BTreeMap::new();
    for &o in ops {
        let (k, v): (&str, Val) = match o {
            0 => ("a", tpl::s("1")),
            1 => ("a", tpl::l(&["x", "y"])),
            2 => ("a", Val::Undef),
            3 => ("b.c", tpl::m(&[("k", "v")])),
            4 => ("b.c", tpl::s("")),
            5 => ("%41", tpl::s("up")),
            6 => ("A", tpl::s("plain")),
            7 => ("not valid", tpl::s("ignored")),
            8 => ("", tpl::s("ignored")),
            _ => {
                c.clear();
                model.clear();
                continue;
            }
        };
        c.insert(k, value(&v));
        if v == Val::Undef {
            model.remove(k);
        } else if !k.is_empty() && k != "not valid" {
            model.insert(k, v);
        }
    }
    let env: Env = model.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    for n in ["a", "b.c", "%41", "A", "b"] {
        let got = c.get(VarName::new(n).unwrap()).map(|v| format!("{v:?}"));
        let want = model.get(n).map(|v| format!("{:?}", value(v)));
        if got != want {
            return Err(format!("get({n}) gives {got:?}, expected {want:?}"));
        }
    }
    for t in ["{a,b.c,%41,A,b}", "{?a*,b.c*,%41:1,A*}", "{#b.c}"] {
        let got = UriTemplateStr::new(t).unwrap().expand::<IriSpec, _>(&c).unwrap().to_string();
        let want = tpl::expand(t, &env, true).unwrap();
        if got != want {
            return Err(format!("{t} gives {got:?}, expected {want:?}"));
        }
        let got = UriTemplateStr::new(t).unwrap().expand::<IriSpec, _>(&c.clone()).unwrap().to_string();
        if got != want {
            return Err(format!("{t} gives {got:?} from a clone, expected {want:?}"));
        }
    }
    Ok(())
}

const OPS: &[&str] = &["", "+", "#", ".", "/", ";", "?", "&"];

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one (template, assignment, delivery) with all its dynamic re-expansions and failing writes; non-trivial when the expansion is non-empty and the delivery is not the default one");
    let t = ctx.thorough;
    ctx.phase("write splits of strings", || {
        let alphabet = ["a", "%", "C", "3", "\u{e9}", "/"];
        mc::en::strings(&alphabet, if t { 6 } else { 5 }, |s| {
            for (i, op) in OPS.iter().enumerate() {
                for m in ["", ":1", ":2", ":3"] {
                    // The operators differ in their tables, not in how they read values.
                    if i % 4 == 1 || s.chars().count() < 4 {
                        splits(ctx, &format!("{{{op}v{m}}}"), tpl::s(s), s.len() < 4);
                    }
                }
            }
        });
    });
    ctx.phase("write splits of percent-encoded characters", || {
        let mut texts = Vec::new();
        for core in ["%C3%A9", "%e3%81%82", "%F0%9F%98%80", "%E3%81", "%e3%81%C3", "%80%BF", "%F0%9F%98", "%41%42", "%C3\u{e9}%A9", "%%41", "%4%C3%A9"] {
            for pre in ["", "a", "%", "\u{e9}"] {
                for post in ["", "z", "%", "%4"] {
                    let s = format!("{pre}{core}{post}");
                    if width(&s) <= if t { 13 } else { 11 } {
                        texts.push(s);
                    }
                }
            }
        }
        par(texts.len(), |i| {
            for x in ["{+v}", "{+v:1}", "{#v:2}", "{+v:3}", "{v:4}"] {
                splits(ctx, x, tpl::s(&texts[i]), false);
            }
        });
    });
    ctx.phase("write splits of composite values", || {
        let w = ["", "a", "%C3%A9", "\u{e9}/", "%4", "bc"];
        for n in 1..=if t { 3 } else { 2 } {
            mc::en::product(&vec![w.len(); n], |i| {
                let list: Vec<String> = i.iter().map(|&k| w[k].to_string()).collect();
                if list.iter().map(|x| width(x)).sum::<u32>() > 10 {
                    return;
                }
                for op in ["", "+", ";", "?"] {
                    for m in ["", "*"] {
                        let t = format!("{{{op}v{m}}}");
                        splits(ctx, &t, Val::List(list.clone()), true);
                        if n == 2 {
                            splits(ctx, &t, Val::Assoc(vec![(list[0].clone(), list[1].clone())]), true);
                        }
                        if n == 3 {
                            splits(ctx, &t, Val::Assoc(vec![(list[0].clone(), list[1].clone()), (list[2].clone(), list[0].clone())]), true);
                        }
                    }
                }
            });
        }
    });
    let e = tpl::env(&[
        ("s", tpl::s("x\u{e9}%41/")),
        ("e", tpl::s("")),
        ("l", tpl::l(&["p%", "", "q"])),
        ("m", tpl::m(&[("k", "\u{e9}"), ("", "")])),
        ("n", tpl::l(&[])),
        ("z", tpl::m(&[])),
    ]);
    ctx.phase("variable lists x context kinds x failing writes", || {
        let specs = ["s", "s:2", "s*", "e", "e:1", "l", "l*", "l:1", "m", "m*", "m:3", "n", "n*", "n:2", "z", "z*", "u", "u:1"];
        for n in 1..=if t { 3 } else { 2 } {
            let mut sizes = vec![specs.len(); n];
            sizes.extend([OPS.len(), MODES as usize, SHAPES as usize]);
            mc::en::product(&sizes, |i| {
                let list: Vec<&str> = i[..n].iter().map(|&k| specs[k]).collect();
                let x = format!("{{{}{}}}", OPS[i[n]], list.join(","));
                let (text, shape) = (i[n + 1] as u8, i[n + 2] as u8);
                // Split everywhere.
                let mask = if text == 1 || text == 2 { u64::MAX } else { 0 };
                check(ctx, &x, &e, text, shape, mask, true);
            });
        }
    });
    ctx.phase("templates x context kinds x failing writes", || {
        let parts = ["{s}", "{e}", "{+s:3}", "{l:1}", "{?m*,e}", "{#l*}", "{;u,e}", "x", "\u{e9}y", "%41", "{n}", "{/s,u,s}"];
        mc::en::strings(&parts, if t { 5 } else { 4 }, |x| {
            for shape in 0..SHAPES {
                let text = shape % MODES;
                check(ctx, x, &e, text, shape, if text == 1 || text == 2 { u64::MAX } else { 0 }, true);
            }
        });
        let toks = ["{", "}", "s", "l", "m", "u", ",", "*", ":1", "+", "?", "#", "%41", "\u{e9}"];
        mc::en::lang(dfa(K::Template, false), &toks, if t { 7 } else { 5 }, |x| {
            check(ctx, x, &e, 2, 0, u64::MAX, true);
        });
    });
    ctx.phase("long values", || {
        let mut lens = mc::gens::lens(t);
        lens.extend([300, 511, 512, 513, 1024, 1025, 4097]);
        if t {
            lens.extend([65535, 65536, 65537]);
        }
        par(lens.len() * OPS.len(), |j| {
            let (n, op) = (lens[j / OPS.len()], OPS[j % OPS.len()]);
            let item = |i: usize| ["a", "", "\u{e9}/", "%41"][i % 4].to_string();
            let e: Env = [
                ("l".to_string(), Val::List((0..n).map(item).collect())),
                ("m".to_string(), Val::Assoc((0..n).map(|i| (format!("{}{}", item(i), i), item(i + 1))).collect())),
                ("s".to_string(), Val::Str((0..n).map(item).collect())),
            ]
            .to_vec();
            for v in ["l", "l*", "m", "m*", "s", "s:3", "s:9999"] {
                for shape in 0..SHAPES {
                    let text = shape % MODES;
                    check(ctx, &format!("{{{op}{v}}}"), &e, text, shape, 0x5555_5555_5555_5555, n < 12);
                }
            }
        });
    });
    ctx.phase("chunked writes of long strings", || {
        let lens: Vec<usize> = mc::gens::lens(t).into_iter().filter(|&n| n <= if t { 1100 } else { 513 }).collect();
        let units = ["a", "\u{e9}", "%C3%A9", "%41", "%", "\u{10FFFD}/", "a\u{e9}%e3%81%82%4"];
        par(lens.len() * units.len(), |j| {
            let (n, u) = (lens[j / units.len()], units[j % units.len()]);
            let s: String = u.chars().cycle().take(n).collect();
            let sizes = (1..=if t { 70 } else { 17 }).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512]);
            for k in sizes.filter(|&k| k < n as u64) {
                let last = n.saturating_sub(1).clamp(1, 9999);
                let e = vec![("s".to_string(), tpl::s(&s)), ("l".to_string(), tpl::l(&["", &s])), ("m".to_string(), tpl::m(&[(&s, &s)]))];
                for x in ["{s}", "{+s}", &format!("{{s:{last}}}"), &format!("{{+s:{last}}}"), &format!("{{#s:{}}}", n.div_ceil(2)), "{;s:7}", "{?l*}", "{+m*}"] {
                    check(ctx, x, &e, CHUNKS, 0, k, false);
                }
            }
        });
    });
    ctx.phase("ready-made value types", || {
        let names = ["set", "hset", "map", "hmap", "arr", "some", "none", "unit", "min", "own", "cow", "boxed", "nested", "ignored", "renamed.x", "text", "nosuch"];
        mc::en::product(&[names.len(), names.len(), OPS.len(), 3, 3], |i| {
            let m = ["", "*", ":2"];
            let x = format!("{{{}{}{},{}{}}}", OPS[i[2]], names[i[0]], m[i[3]], names[i[1]], m[i[4]]);
            for iri in [false, true] {
                ctx.case(&["naive", if iri { "iri" } else { "uri" }, &x], || {
                    ctx.nontrivial(hash(&x) ^ u64::from(iri));
                    if iri { naive_case::<IriSpec>(&x, iri) } else { naive_case::<UriSpec>(&x, iri) }
                });
            }
        });
        for i in 0..49 {
            ctx.case(&["int", &i.to_string()], || int_case(i));
        }
    });
    ctx.phase("histories of the ready-made context", || {
        for n in 0..=if t { 7 } else { 5 } {
            mc::en::product(&vec![10; n], |i| {
                let s: String = i.iter().map(|k| char::from(b'0' + *k as u8)).collect();
                ctx.case(&["history", &s], || history(i));
            });
        }
    });
    ctx.assume("values split their text at character boundaries (fmt::Write takes &str) and display the same text on every visit, as the Context documentation requires");
}

fn replay(_: &Ctx, c: &[String]) -> Result<(), String> {
    match c[0].as_str() {
        "naive" if c[1] == "iri" => naive_case::<IriSpec>(&c[2], true),
        "naive" => naive_case::<UriSpec>(&c[2], false),
        "int" => int_case(c[1].parse().unwrap()),
        "history" => history(&c[1].bytes().map(|b| (b - b'0') as usize).collect::<Vec<_>>()),
        _ => {
            let env = tpl::from_json(&c[3]);
            let h: Vec<&str> = c[4].split(' ').collect();
            let (t, s, m, f) = (h[0].parse().unwrap(), h[1].parse().unwrap(), h[2].parse().unwrap(), h[3] == "true");
            if c[1] == "iri" {
                judge::<IriSpec>(&c[2], &env, true, t, s, m, f).map(drop)
            } else {
                judge::<UriSpec>(&c[2], &env, false, t, s, m, f).map(drop)
            }
        }
    }
}

fn main() {
    run("C18", "exploration", explore, replay)
}
