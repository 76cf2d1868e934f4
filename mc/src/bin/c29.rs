//! C29: template contexts and owned templates are plain values.
//!
//! Every history of operations up to a depth is executed on the real objects and on a model (a list
//! of name-value pairs; a text). After the last operation of each history every object made on the
//! way is compared with its model: lookups, expansions, comparisons, variable lists.

use std::borrow::{Borrow, Cow};
use std::rc::Rc;
use std::sync::Arc;

use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::context::{Context, VarName, Visitor};
use iri_string::template::simple_context::{SimpleContext, Value};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use mc::en::product;
use mc::grammar::{valid, K};
use mc::report::{hash, run, Ctx};
use mc::tpl::{self, Env, Val};

type R = Result<(), String>;

/// Names used as keys; not all are variable names.
const NAMES: &[&str] = &["a", "A", "a.b", "%4a", "%4A", "", "a-", "\u{E9}", "a.", "%4"];
/// The ones inserted in the longest histories.
const FEW: usize = 5;

fn values() -> Vec<Val> {
    vec![
        Val::Undef,
        tpl::s("x"),
        tpl::l(&[]),
        tpl::l(&["p", "q%"]),
        tpl::m(&[("k", "\u{E9}"), ("k", "")]),
        tpl::s(""),
        tpl::m(&[]),
    ]
}
/// The values used in the longest histories.
const MAIN: usize = 5;

/// Where everything can be seen.
const VIEWS: &[&str] = &["{a}{?A,a.b*}{&%4a,%4A*}", "{a:1}{#A:1,%4a}", "{;a.b:2}{/%4A:1}", "-{b}{+a.b,A}"];

#[derive(Clone, Copy, Debug)]
enum Op {
    /// Name, value.
    Insert(usize, usize),
    /// A string value through `From<&str>` and `From<String>`.
    Text(usize, bool),
    Clear,
    /// Goes on with a copy; the original stays.
    Copy,
    /// Goes on with another context made before.
    Switch,
    /// Overwrites the current context with a copy of another one.
    CloneFrom,
}

fn ops(full: bool) -> Vec<Op> {
    let (n, v) = if full { (NAMES.len(), values().len()) } else { (FEW, MAIN) };
    let mut o = Vec::new();
    for i in 0..n {
        for j in 0..v {
            o.push(Op::Insert(i, j));
        }
    }
    o.push(Op::Insert(NAMES.len() - 2, 1));
    o.push(Op::Insert(NAMES.len() - 2, 0));
    o.extend([Op::Text(0, true), Op::Text(1, false), Op::Clear, Op::Copy, Op::Switch, Op::CloneFrom]);
    o
}

fn real(v: &Val) -> Value {
    match v {
        Val::Undef => Value::Undefined,
        Val::Str(s) => Value::String(s.clone()),
        Val::List(l) => Value::List(l.clone()),
        Val::Assoc(m) => Value::Assoc(m.clone()),
    }
}
fn back(v: Option<&Value>) -> Option<Val> {
    v.map(|v| match v {
        Value::Undefined => Val::Undef,
        Value::String(s) => Val::Str(s.clone()),
        Value::List(l) => Val::List(l.clone()),
        Value::Assoc(m) => Val::Assoc(m.clone()),
    })
}

/// The model of an insertion.
fn put(env: &mut Env, name: &str, v: Val) -> Option<Val> {
    if !valid(K::VarName, false, name) {
        return None;
    }
    let at = env.iter().position(|(n, _)| n == name);
    let old = at.map(|i| env.remove(i).1);
    if v != Val::Undef {
        env.push((name.into(), v));
    }
    old
}

fn see<S: Spec>(c: &SimpleContext, env: &Env, iri: bool, t: &str) -> R {
    let want = tpl::expand(t, env, iri);
    let tmpl = UriTemplateStr::new(t).map_err(|e| format!("template rejected: {e}"))?;
    let got = tmpl.expand::<S, _>(c).ok().map(|e| e.to_string());
    if got != want {
        return Err(format!("{t:?} expands to {got:?}, expected {want:?} for {env:?}"));
    }
    Ok(())
}

/// Everything that can be asked of a context.
fn compare(c: &SimpleContext, env: &Env, all: bool) -> R {
    for name in NAMES.iter().chain(&["b", "a.a"]) {
        let got = match VarName::new(name) {
            Ok(n) => {
                if n.as_str() != *name {
                    return Err(format!("the name {name:?} reads {:?}", n.as_str()));
                }
                back(c.get(n))
            }
            Err(_) => None,
        };
        let want = env.iter().find(|(n, _)| n == name).map(|x| x.1.clone());
        if got != want {
            return Err(format!("{name:?} holds {got:?}, expected {want:?}"));
        }
    }
    for t in VIEWS {
        see::<UriSpec>(c, env, false, t)?;
        if all {
            see::<IriSpec>(c, env, true, t)?;
        }
    }
    Ok(())
}

fn history(ctx: &Ctx, ops: &[Op]) -> R {
    let vals = values();
    let mut made: Vec<(SimpleContext, Env)> = vec![(SimpleContext::new(), Vec::new())];
    let mut cur = 0;
    for op in ops {
        let mut answer: Option<(Option<Val>, Option<Val>)> = None;
        match *op {
            Op::Insert(n, v) => {
                let (c, e) = &mut made[cur];
                let got = c.insert(NAMES[n], real(&vals[v]));
                answer = Some((back(got.as_ref()), put(e, NAMES[n], vals[v].clone())));
            }
            Op::Text(n, owned) => {
                let (c, e) = &mut made[cur];
                let got = if owned { c.insert(NAMES[n].to_string(), "t/u".to_string()) } else { c.insert(NAMES[n].to_string(), "t/u") };
                answer = Some((back(got.as_ref()), put(e, NAMES[n], tpl::s("t/u"))));
            }
            Op::Clear => {
                made[cur].0.clear();
                made[cur].1.clear();
            }
            Op::Copy => {
                let next = made[cur].clone();
                made.push(next);
                cur = made.len() - 1;
            }
            Op::Switch => cur = (cur + 1) % made.len(),
            Op::CloneFrom => {
                let (c, e) = made[(cur + 1) % made.len()].clone();
                made[cur].0.clone_from(&c);
                made[cur].1 = e;
            }
        }
        if let Some((got, want)) = answer {
            if got != want {
                return Err(format!("{op:?} says {got:?}, expected {want:?}"));
            }
        }
    }
    for (c, e) in &made {
        compare(c, e, ops.len() < 4)?;
        ctx.outcome(hash(&format!("{e:?}")));
    }
    ctx.states(1);
    ctx.transitions(ops.len() as u64);
    Ok(())
}

// Owned templates.

const PIECES: &[&str] = &["", "a", "{x}", "%41", "\u{E9}", "{?x*,y}", "{+u:2}", "{#l*,x}", "{.x}", "\u{1F600}{x:3}", "{l:1}", "&"];

#[derive(Clone, Copy, Debug)]
enum Top {
    Append(usize),
    /// Appends a copy of itself.
    Twice,
    Shrink,
    /// Goes on with a copy; the original stays.
    Copy,
    Switch,
    /// Through another form and back.
    Through(u8),
}

fn tops() -> Vec<Top> {
    let mut o: Vec<Top> = (0..PIECES.len()).map(Top::Append).collect();
    o.extend([Top::Twice, Top::Shrink, Top::Copy, Top::Switch]);
    o.extend((0..8).map(Top::Through));
    o
}

struct World;
impl Context for World {
    fn visit<V: Visitor>(&self, v: V) -> V::Result {
        let n = v.var_name().as_str();
        match env().iter().find(|x| x.0 == n).map(|x| x.1.clone()) {
            Some(Val::Str(s)) => v.visit_string(s),
            Some(Val::List(l)) => {
                use iri_string::template::context::ListVisitor;
                v.visit_list().visit_items_and_finish(l)
            }
            _ => v.visit_undefined(),
        }
    }
}
fn env() -> Env {
    tpl::env(&[("x", tpl::s("v \u{E9}%41")), ("l", tpl::l(&["1", "", "/"]))])
}

fn through(t: UriTemplateString, how: u8) -> Result<UriTemplateString, String> {
    let bad = |e: &dyn std::fmt::Display| format!("form {how} rejects: {e}");
    Ok(match how {
        0 => UriTemplateString::try_from(String::from(t)).map_err(|e| bad(&e))?,
        1 => {
            let b: Box<UriTemplateStr> = t.into();
            (*b).to_owned()
        }
        2 => {
            let c: Cow<'_, UriTemplateStr> = t.into();
            c.into_owned()
        }
        3 => {
            let c: Cow<'_, UriTemplateStr> = t.as_slice().into();
            c.into_owned()
        }
        4 => {
            let a: Arc<UriTemplateStr> = t.as_slice().into();
            let b = a.clone();
            drop(a);
            UriTemplateString::from(&*b)
        }
        5 => {
            let a: Rc<UriTemplateStr> = t.as_slice().into();
            let b = a.clone();
            drop(a);
            b.as_str().parse().map_err(|e: iri_string::template::Error| bad(&e))?
        }
        6 => {
            let b: Box<UriTemplateStr> = t.as_slice().into();
            UriTemplateString::try_from(b.as_str().as_bytes()).map_err(|e| bad(&e))?
        }
        _ => UriTemplateString::try_from(AsRef::<str>::as_ref(&t)).map_err(|e| bad(&e))?,
    })
}

fn expect<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    if got != want {
        return Err(format!("{what} is {got:?}, expected {want:?}"));
    }
    Ok(())
}

fn compare_template(t: &UriTemplateString, m: &[&str]) -> R {
    let text: String = m.concat();
    let s: &str = &text;
    expect("the text", t.as_str(), s)?;
    expect("AsRef", AsRef::<str>::as_ref(t), s)?;
    expect("Borrow", Borrow::<str>::borrow(t), s)?;
    expect("the borrowed template", Borrow::<UriTemplateStr>::borrow(t).as_str(), s)?;
    expect("the slice", t.as_slice().as_str(), s)?;
    expect("the display", t.to_string(), text.clone())?;
    expect("the length", (t.len(), t.is_empty()), (s.len(), s.is_empty()))?;
    if t.capacity() < t.len() {
        return Err("less capacity than text".into());
    }
    if !valid(K::Template, false, s) {
        return Err(format!("{s:?} is not a template"));
    }
    let fresh = UriTemplateString::try_from(s).map_err(|e| format!("{s:?} rejected: {e}"))?;
    if *t != fresh || t.as_slice() != fresh.as_slice() || *t != *s || t.cmp(&fresh) != std::cmp::Ordering::Equal {
        return Err(format!("{s:?} differs from the same text made at once"));
    }
    expect("the debug form", format!("{t:?}"), format!("{fresh:?}"))?;
    // The variables are those of the pieces.
    let want: Vec<&str> = m.iter().flat_map(|p| tpl::variables(p)).collect();
    let got: Vec<&str> = t.variables().map(|v| v.as_str()).collect();
    expect("the variables", &got, &want)?;
    let mut it = t.variables();
    for k in 0..=want.len() {
        let rest: Vec<&str> = it.clone().map(|v| v.as_str()).collect();
        expect("the rest of the variables", &rest[..], &want[k..])?;
        expect("the next variable", it.next().map(|v| v.as_str()), want.get(k).copied())?;
    }
    expect("after the last variable", it.next().map(|v| v.as_str()), None)?;
    // The expansion is that of the pieces.
    whole::<UriSpec>(t, m, false)?;
    whole::<IriSpec>(t, m, true)
}

fn whole<S: Spec>(t: &UriTemplateString, m: &[&str], iri: bool) -> R {
    let env = env();
    let want: Option<String> = m.iter().map(|p| tpl::expand(p, &env, iri)).collect();
    let got = t.expand::<S, _>(&World).ok().map(|e| e.to_string());
    expect("the expansion", &got, &want)?;
    let parts: Option<String> = m.iter().map(|p| UriTemplateStr::new(p).ok()?.expand::<S, _>(&World).ok().map(|e| e.to_string())).collect();
    expect("the expansion", &got, &parts)
}

fn template_history(ctx: &Ctx, ops: &[Top]) -> R {
    let mut made: Vec<(UriTemplateString, Vec<&str>)> = vec![(UriTemplateString::default(), Vec::new())];
    let mut cur = 0;
    for op in ops {
        match *op {
            Top::Append(i) => {
                let (t, m) = &mut made[cur];
                t.append(UriTemplateStr::new(PIECES[i]).map_err(|e| format!("{:?} rejected: {e}", PIECES[i]))?);
                m.push(PIECES[i]);
            }
            Top::Twice => {
                let (t, m) = &mut made[cur];
                let u = t.clone();
                t.append(&u);
                let n = m.clone();
                m.extend(n);
            }
            Top::Shrink => made[cur].0.shrink_to_fit(),
            Top::Copy => {
                let next = made[cur].clone();
                made.push(next);
                cur = made.len() - 1;
            }
            Top::Switch => cur = (cur + 1) % made.len(),
            Top::Through(how) => {
                let t = std::mem::take(&mut made[cur].0);
                made[cur].0 = through(t, how)?;
            }
        }
    }
    for (t, m) in &made {
        compare_template(t, m)?;
        ctx.outcome(hash(t.as_str()));
    }
    ctx.states(1);
    ctx.transitions(ops.len() as u64);
    Ok(())
}

fn explore(ctx: &Ctx) {
    let thorough = ctx.thorough;
    ctx.rule("every sequence of operations on a context (insertions of every kind of value under valid, invalid and look-alike names, clearing, copying) and on an owned template (appending, copying, going through every other form) up to the depth, each history executed from the start on real objects and a map / text model; every object compared with its model at the end of every history");
    ctx.assume("the reference expander and the automata of templates and names (C16, C17) are right");
    for (name, full, depth) in [("contexts, all names and values", true, if thorough { 4 } else { 3 }), ("contexts, long", false, if thorough { 5 } else { 4 })] {
        let o = ops(full);
        ctx.phase(name, || {
            for d in 0..=depth {
                product(&vec![o.len(); d], |i| {
                    let h: Vec<Op> = i.iter().map(|&k| o[k]).collect();
                    let c: Vec<String> = std::iter::once(if full { "all".to_string() } else { "few".into() }).chain(i.iter().map(ToString::to_string)).collect();
                    let c: Vec<&str> = c.iter().map(String::as_str).collect();
                    ctx.case(&c, || history(ctx, &h));
                });
            }
        });
    }
    let o = tops();
    ctx.phase("owned templates", || {
        for d in 0..=if thorough { 5 } else { 4 } {
            product(&vec![o.len(); d], |i| {
                let h: Vec<Top> = i.iter().map(|&k| o[k]).collect();
                let c: Vec<String> = std::iter::once("template".to_string()).chain(i.iter().map(ToString::to_string)).collect();
                let c: Vec<&str> = c.iter().map(String::as_str).collect();
                ctx.case(&c, || template_history(ctx, &h));
            });
        }
    });
    // Any text as a name: looked up exactly when it is a variable name.
    ctx.phase("names", || {
        let t: &[&str] = &["a", "A", "_", "0", ".", "%41", "%4", "%", "-", ":", "*", ",", "{", "}", " ", "\u{E9}"];
        mc::en::strings(t, if thorough { 5 } else { 4 }, |s| {
            ctx.case(&["name", s], || name(ctx, s));
        });
    });
}

fn name(ctx: &Ctx, s: &str) -> R {
    let ok = valid(K::VarName, false, s);
    let mut c = SimpleContext::new();
    let mut e: Env = Vec::new();
    for v in [tpl::s("1"), tpl::s("2"), Val::Undef, Val::Undef, tpl::l(&["3"])] {
        let got = back(c.insert(s, real(&v)).as_ref());
        expect("the replaced value", got, put(&mut e, s, v))?;
    }
    expect("the lookup", VarName::new(s).ok().map(|n| back(c.get(n))), if ok { Some(Some(tpl::l(&["3"]))) } else { None })?;
    compare(&c, &e, false)?;
    if ok {
        for t in [format!("{{{s}}}"), format!("{{?{s}*}}"), format!("{{{s},{s}}}")] {
            see::<UriSpec>(&c, &e, false, &t)?;
        }
        ctx.states(1);
    }
    Ok(())
}

fn replay(ctx: &Ctx, c: &[String]) -> R {
    let i = || c[1..].iter().map(|x| x.parse::<usize>().unwrap());
    match c[0].as_str() {
        "name" => name(ctx, &c[1]),
        "template" => {
            let o = tops();
            template_history(ctx, &i().map(|k| o[k]).collect::<Vec<_>>())
        }
        full => {
            let o = ops(full == "all");
            history(ctx, &i().map(|k| o[k]).collect::<Vec<_>>())
        }
    }
}

fn main() {
    run("C29", "model_checking", explore, replay)
}
