//! C23: no history of safe operations breaks memory safety or produces an invalid value.
//!
//! The same histories on live values run natively (every value judged by the grammar automata,
//! every allocation accounted for) and, for a smaller bound, in the Miri interpreter, which
//! monitors every memory access; both runs must see the same texts.

use mc::grammar::{valid, K};
use mc::report::{hash, par, run, Ctx};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

#[path = "../../../miri/src/work.rs"]
#[allow(dead_code)]
mod work;
use work::{execute, Log, EDITS, FORMS, TEMPLATE_OPS};

thread_local! {
    static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
}
struct Counting;
fn count(blocks: i64, bytes: i64) {
    let _ = LIVE.try_with(|l| {
        let (a, b) = l.get();
        l.set((a + blocks, b + bytes));
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(1, l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-1, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(0, n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

fn kind(name: &str) -> Option<K> {
    Some(match name {
        "Ref" => K::IriRef,
        "Iri" => K::Iri,
        "Abs" => K::AbsIri,
        "Rel" => K::RelRef,
        "Query" => K::Query,
        "Fragment" => K::Fragment,
        "template" => K::Template,
        _ => return None,
    })
}

/// Runs a case natively and judges everything it produced.
fn native(case: &[&str]) -> Result<Log, String> {
    let before = LIVE.with(Cell::get);
    let mut log = Log(Vec::new());
    execute(case, &mut log);
    let again = log;
    for (ty, iri, s) in &again.0 {
        if std::str::from_utf8(s.as_bytes()).is_err() {
            return Err(format!("a text of type {ty} is not UTF-8: {:?}", s.as_bytes()));
        }
        if let Some(k) = kind(ty) {
            if !valid(k, *iri && k != K::Template, s) {
                return Err(format!("{s:?} is not a valid {} {ty}", if *iri { "IRI" } else { "URI" }));
            }
        }
    }
    let d = again.digest();
    drop(again);
    let after = LIVE.with(Cell::get);
    if after != before {
        return Err(format!("{} blocks and {} bytes are still allocated after every value was dropped", after.0 - before.0, after.1 - before.1));
    }
    // The log itself was freed above; run again for the caller.
    let mut log = Log(Vec::new());
    execute(case, &mut log);
    if log.digest() != d {
        return Err("running the same case again gives other texts".into());
    }
    Ok(log)
}

/// An interpreter process answering one case at a time.
struct Worker {
    child: Child,
    input: ChildStdin,
    output: BufReader<ChildStdout>,
}

fn miri() -> Command {
    let root = std::env::var("MC_CFG").unwrap_or_else(|_| "/verif".into());
    let mut c = Command::new("cargo");
    c.args(["+nightly", "miri", "run", "--offline", "--quiet", "--manifest-path"]).arg(format!("{root}/miri/Cargo.toml"));
    // Build settings meant for other builds must not reach the interpreter.
    c.env_clear();
    for k in ["PATH", "HOME", "CARGO_HOME", "RUSTUP_HOME", "TMPDIR"] {
        if let Ok(v) = std::env::var(k) {
            c.env(k, v);
        }
    }
    c.env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-strict-provenance");
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    c
}

impl Worker {
    fn start() -> Worker {
        let mut child = miri().spawn().expect("cargo miri");
        let mut w = Worker { input: child.stdin.take().unwrap(), output: BufReader::new(child.stdout.take().unwrap()), child };
        let mut line = String::new();
        let _ = w.output.read_line(&mut line);
        if line != "ready\n" {
            eprintln!("the interpreter does not start: {}", w.error());
            std::process::exit(2);
        }
        w
    }
    /// The digest, or what went wrong.
    fn ask(&mut self, case: &[&str]) -> Result<u64, String> {
        let sent = writeln!(self.input, "{}", case.join("\u{1F}")).and_then(|_| self.input.flush());
        let mut line = String::new();
        if sent.is_ok() {
            let _ = self.output.read_line(&mut line);
        }
        match line.trim_end().split_once(' ') {
            Some(("D", d)) => Ok(u64::from_str_radix(d, 16).unwrap()),
            Some(("P", m)) => Err(format!("panicked in the interpreter: {m}")),
            _ => Err(self.error()),
        }
    }
    /// What the interpreter complained about when it ended.
    fn error(&mut self) -> String {
        let mut e = String::new();
        let _ = self.child.stderr.take().map(|mut s| s.read_to_string(&mut e));
        let _ = self.child.wait();
        let Some(first) = e.lines().find(|l| l.starts_with("error")) else {
            // Not a verdict: something outside ended it.
            eprintln!("the interpreter ended: {e}");
            std::process::exit(2);
        };
        let at: Vec<&str> = e.lines().filter(|l| l.contains("src/types") || l.contains("src/template") || l.contains("/src/")).take(6).map(str::trim).collect();
        format!("{first} [{}]", at.join("; "))
    }
    /// Ends the process; it reports leaks now.
    fn finish(mut self) -> Result<(), String> {
        let _ = writeln!(self.input, "end");
        let _ = self.input.flush();
        let mut rest = String::new();
        let _ = self.output.read_to_string(&mut rest);
        let mut e = String::new();
        let _ = self.child.stderr.take().map(|mut s| s.read_to_string(&mut e));
        match self.child.wait() {
            Ok(s) if s.success() => Ok(()),
            _ => match e.lines().find(|l| l.starts_with("error")) {
                Some(l) => Err(l.to_string()),
                None => {
                    eprintln!("the interpreter ended: {e}");
                    std::process::exit(2);
                }
            },
        }
    }
}

/// Both executions of a case.
fn both(w: &mut Worker, case: &[&str]) -> Result<(), String> {
    let n = native(case)?.digest();
    let m = w.ask(case)?;
    if n != m {
        return Err("the interpreter sees other texts than the native run".into());
    }
    Ok(())
}

type Case = Vec<String>;
fn case(words: &[&str]) -> Case {
    words.iter().map(|w| w.to_string()).collect()
}

const TEXTS: &[(&str, &[&str])] = &[
    ("Ref", &["s://u:p@h\u{E9}:80/a/../b?q#f", "//u:p@h?q#f", "p\u{E9}", "", "s://:@:"]),
    ("Iri", &["S://u:p@H:/%7e/./b?q\u{E9}#f", "s:a/../b", "s://u:@[::1A]?#", "s:"]),
    ("Abs", &["s://u:p@h/x/../y?q\u{E9}", "s://@h:", "a:/%41"]),
    ("Rel", &["//u:p@h\u{E9}:1/..?q#f", "a/b?#", "?q", ""]),
    ("Query", &["q=\u{E9}&%41", "", "\u{E000}/?"]),
    ("Fragment", &["f\u{E9}/?%41", ""]),
];
const TEMPLATES: &[&str] = &["x{a}{?b*,c}{+a:2}", "\u{E9}{#c*}%41{/nosuch}", "", "{&b,b:3}"];

fn starts() -> Vec<(&'static str, &'static str, &'static str)> {
    let mut v = Vec::new();
    for (k, ts) in TEXTS {
        for t in *ts {
            v.push(("iri", *k, *t));
            if t.is_ascii() {
                v.push(("uri", *k, *t));
            }
        }
    }
    v
}

fn ops() -> Vec<&'static str> {
    FORMS.iter().chain(EDITS).copied().collect()
}

/// The cases for the interpreter.
fn interpreted(thorough: bool) -> Vec<Case> {
    let mut v = Vec::new();
    let all = starts();
    for (s, k, t) in &all {
        for o in ops() {
            v.push(case(&["live", s, k, t, o]));
        }
    }
    // One rich value of every type and spec.
    let rich: Vec<_> = if thorough {
        all.clone()
    } else {
        TEXTS.iter().map(|(k, t)| ("iri", *k, t[0])).collect()
    };
    for (s, k, t) in &rich {
        for e in EDITS {
            for f in if thorough { FORMS } else { &FORMS[..8] } {
                v.push(case(&["live", s, k, t, e, f]));
                v.push(case(&["live", s, k, t, f, e]));
            }
            if thorough {
                for e2 in EDITS {
                    v.push(case(&["live", s, k, t, e, e2]));
                }
            }
        }
    }
    for t in TEMPLATES {
        for o in TEMPLATE_OPS {
            v.push(case(&["template", t, o]));
            if thorough || *t == TEMPLATES[0] && *o != "expand" {
                for p in ["append", "box", "cow-to-mut", "shrink"] {
                    v.push(case(&["template", t, p, o]));
                }
            }
        }
    }
    for t in texts(thorough) {
        v.push(case(&["read", &t]));
    }
    for b in byte_strings(if thorough { 2 } else { 1 }) {
        v.push(case(&["bytes", &b]));
    }
    v
}

fn texts(thorough: bool) -> Vec<String> {
    let mut v: Vec<String> = starts().into_iter().map(|x| x.2.to_string()).collect();
    v.extend(["//[v1.a]:1", "//1.2.3.4", "?\u{E000}", "#\u{10FFFD}", "%F0%9F%98%80", "%C3", "\u{1F600}\u{1F600}\u{1F600}\u{1F600}\u{1F600}\u{1F600}", "[", "%zz", "a b"].map(String::from));
    if thorough {
        v.extend(mc::en::collect(&["a", ":", "/", "?", "#", "@", "\u{E9}", "%C3", "[::]"], 3));
    }
    v.sort();
    v.dedup();
    v
}

/// Bytes that are not all UTF-8, in hexadecimal.
fn byte_strings(n: usize) -> Vec<String> {
    let unit = ["61", "25", "c3", "a9", "f0", "ff", "00", "7b", "3a", "256666", "254333", "edb080"];
    let mut v = vec![String::new()];
    let mut last = v.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|s| unit.iter().map(move |u| format!("{s}{u}"))).collect();
        v.extend(last.clone());
    }
    v
}

fn one(ctx: &Ctx, c: &[&str]) {
    ctx.case(c, || {
        let log = native(c)?;
        if c.len() > 4 {
            ctx.nontrivial(hash(&c.join("\u{1F}")));
        }
        ctx.outcome(log.digest());
        Ok(())
    });
    ctx.transitions(c.len().saturating_sub(4) as u64);
}

fn sequences(ctx: &Ctx, prefix: &mut Vec<&str>, ops: &[&'static str], left: usize) {
    if left == 0 || ctx.stop() {
        one(ctx, prefix);
        return;
    }
    for o in ops {
        prefix.push(o);
        sequences(ctx, prefix, ops, left - 1);
        prefix.pop();
    }
}

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one history on a live value (or all reads of one text); non-trivial when it has at least one operation");
    let t = ctx.thorough;
    // Nothing that is initialised once may be allocated inside a measured case.
    for (k, iri) in [("Ref", true), ("Iri", true), ("Abs", true), ("Rel", true), ("Query", true), ("Fragment", true)] {
        valid(kind(k).unwrap(), iri, "");
        valid(kind(k).unwrap(), false, "");
    }
    valid(K::Template, false, "");
    let ops = ops();
    ctx.phase("histories of operations on live values, natively", || {
        let st = starts();
        for n in 1..=if t { 4 } else { 3 } {
            // The longest histories from the richest values only.
            let st: Vec<_> = st.iter().filter(|s| n < 4 || s.2.len() > 18).collect();
            par(st.len() * ops.len(), |j| {
                let (s, o) = (st[j / ops.len()], ops[j % ops.len()]);
                sequences(ctx, &mut vec!["live", s.0, s.1, s.2, o], &ops, n - 1);
            });
        }
    });
    ctx.phase("histories of templates, natively", || {
        for n in 1..=if t { 4 } else { 3 } {
            par(TEMPLATES.len() * TEMPLATE_OPS.len(), |j| {
                let (x, o) = (TEMPLATES[j / TEMPLATE_OPS.len()], TEMPLATE_OPS[j % TEMPLATE_OPS.len()]);
                sequences(ctx, &mut vec!["template", x, o], TEMPLATE_OPS, n - 1);
            });
        }
    });
    ctx.phase("reads of every short text, natively", || {
        let tokens = ["a", ":", "/", "//", "?", "#", "@", "\u{E9}", "\u{E000}", "%C3", "%a", "[::]", "1", "{", "}"];
        mc::en::strings(&tokens, if t { 6 } else { 4 }, |s| one(ctx, &["read", s]));
        mc::spaces::each_char(if t { 1 } else { 0 }, &|s| one(ctx, &["read", s]));
        let b = byte_strings(if t { 5 } else { 4 });
        par(b.len(), |i| one(ctx, &["bytes", &b[i]]));
    });
    if ctx.failed() {
        return;
    }
    ctx.phase("histories in the interpreter", || {
        // Builds the worker.
        let _ = Worker::start().finish();
        let cases = interpreted(t);
        let n = std::thread::available_parallelism().map_or(8, |n| n.get()).min(16);
        let next = Mutex::new(0);
        par(n, |i| {
            let mut w = Worker::start();
            loop {
                let k = {
                    let mut k = next.lock().unwrap();
                    *k += 1;
                    *k - 1
                };
                if k >= cases.len() || ctx.failed() {
                    break;
                }
                let c: Vec<&str> = cases[k].iter().map(String::as_str).collect();
                let mut dead = false;
                ctx.case(&c, || {
                    let r = both(&mut w, &c);
                    dead = r.is_err();
                    match r {
                        Err(e) if e.contains("unsupported operation") => {
                            // The interpreter cannot tell.
                            ctx.count("cases the interpreter does not support", 1);
                            Ok(())
                        }
                        r => r,
                    }
                });
                ctx.count("interpreted cases", 1);
                ctx.transitions(1);
                if dead {
                    if ctx.failed() {
                        return;
                    }
                    w = Worker::start();
                }
            }
            if let Err(e) = w.finish() {
                if !ctx.failed() {
                    ctx.fail(&["shard", &i.to_string()], format!("at the end of the interpreted histories: {e}"));
                }
            }
        });
    });
    ctx.assume("Miri's monitors (Stacked Borrows, strict provenance, validity, leaks) decide undefined behaviour of the interpreted executions");
}

fn replay(ctx: &Ctx, c: &[String]) -> Result<(), String> {
    let c: Vec<&str> = c.iter().map(String::as_str).collect();
    let mut w = Worker::start();
    if c[0] == "shard" {
        for x in interpreted(ctx.thorough) {
            let x: Vec<&str> = x.iter().map(String::as_str).collect();
            both(&mut w, &x)?;
        }
    } else {
        both(&mut w, &c)?;
    }
    w.finish()
}

fn main() {
    run("C23", "exploration", explore, replay)
}
