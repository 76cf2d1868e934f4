//! C21: the same behaviour under every feature set and build profile.
//!
//! The configuration space (heap level x memchr x serde x debug assertions) is enumerated in full:
//! each configuration is a separate build of `/verif/cfg`. Every build evaluates the same
//! enumerated inputs; the results, digested per batch, have to agree between all configurations
//! that offer the operation, and no operation may panic. A differing batch is narrowed down to the
//! first differing input and operation.

use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;

use mc::grammar::{dfa, valid, K};
use mc::report::{hash, run, Ctx};

type R = Result<(), String>;
const GROUPS: usize = 5;
const GROUP: [&str; GROUPS] = ["basic", "alloc", "std", "serde", "serde with alloc"];
const BATCH: usize = 400;

#[derive(Clone, Debug)]
struct Config {
    features: Vec<&'static str>,
    plain: bool,
}
impl Config {
    fn name(&self) -> String {
        format!("{}{}", if self.plain { "plain" } else { "checked" }, self.features.iter().map(|f| format!("-{f}")).collect::<String>())
    }
    fn dir(&self) -> String {
        format!("{}/cfg/target/{}", root(), self.name())
    }
    fn exe(&self) -> String {
        format!("{}/{}/cfg", self.dir(), if self.plain { "plain" } else { "release" })
    }
    fn has(&self, group: usize) -> bool {
        let f = |n| self.features.contains(&n);
        match group {
            0 => true,
            1 => f("alloc") || f("std"),
            2 => f("std"),
            3 => f("serde"),
            _ => f("serde") && (f("alloc") || f("std")),
        }
    }
}

/// Where the sources are.
fn root() -> String {
    std::env::var("MC_CFG").unwrap_or_else(|_| "/verif".into())
}

fn configs(all: bool) -> Vec<Config> {
    let mut out = Vec::new();
    for plain in [false, true] {
        for heap in [None, Some("alloc"), Some("std")] {
            for memchr in [false, true] {
                for serde in [false, true] {
                    let mut features: Vec<&str> = heap.into_iter().collect();
                    if memchr {
                        features.push("memchr");
                    }
                    if serde {
                        features.push("serde");
                    }
                    if all || !plain || features.is_empty() || features.len() == 3 {
                        out.push(Config { features, plain });
                    }
                }
            }
        }
    }
    out
}

fn build(configs: &[Config]) {
    let queue = Mutex::new(configs.to_vec());
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let Some(c) = queue.lock().unwrap().pop() else { break };
                let mut cmd = Command::new("cargo");
                cmd.args(["build", "--offline", "--quiet", "--jobs", "2", "--manifest-path"]);
                cmd.arg(format!("{}/cfg/Cargo.toml", root())).args(["--target-dir", &c.dir()]);
                cmd.args(["--features", &c.features.join(",")]);
                cmd.args(["--profile", if c.plain { "plain" } else { "release" }]);
                let out = cmd.output().expect("cargo");
                if !out.status.success() {
                    eprintln!("cannot build {}:\n{}", c.name(), String::from_utf8_lossy(&out.stderr));
                    std::process::exit(2);
                }
            });
        }
    });
}

struct Worker {
    child: Child,
}
impl Worker {
    fn new(c: &Config) -> Self {
        let child = Command::new(c.exe()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("worker");
        Worker { child }
    }
    fn send(&mut self, data: &[u8]) -> bool {
        self.child.stdin.as_mut().unwrap().write_all(data).is_ok()
    }
    /// Reads an answer; `None` if the worker died or does not answer in time.
    fn read(&mut self, n: usize, secs: i32) -> Option<Vec<u8>> {
        let o = self.child.stdout.as_mut().unwrap();
        let mut buf = vec![0; n];
        let mut at = 0;
        while at < n {
            let mut p = libc::pollfd { fd: o.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, secs * 1000) } <= 0 {
                return None;
            }
            match o.read(&mut buf[at..]) {
                Ok(k) if k > 0 => at += k,
                _ => return None,
            }
        }
        Some(buf)
    }
    fn dump(&mut self, i: &Input) -> Option<String> {
        let mut d = Vec::new();
        frame(b'D', i, &mut d);
        if !self.send(&d) {
            return None;
        }
        let n = self.read(4, 20)?;
        let n = u32::from_le_bytes(n.try_into().unwrap());
        Some(String::from_utf8(self.read(n as usize, 20)?).unwrap())
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        _ = self.child.kill();
        _ = self.child.wait();
    }
}

type Input = (u8, String);

fn frame(cmd: u8, i: &Input, out: &mut Vec<u8>) {
    out.extend([cmd, i.0]);
    out.extend((i.1.len() as u32).to_le_bytes());
    out.extend(i.1.as_bytes());
}

/// Results of one input in one configuration: (group, label, value), or how it failed.
fn results(c: &Config, i: &Input) -> Result<Vec<(usize, String, String)>, String> {
    let d = Worker::new(c).dump(i).ok_or_else(|| format!("{}: the operations crash or do not return", c.name()))?;
    let mut v = Vec::new();
    for x in d.split('\u{2}').filter(|x| !x.is_empty()) {
        let mut p = x.splitn(3, '\u{1}');
        let (Some(g), Some(l), Some(t)) = (p.next(), p.next(), p.next()) else { continue };
        if l.starts_with("panic after") {
            return Err(format!("{}: {} operations, {l}: {t}", c.name(), GROUP[g.parse::<usize>().unwrap()]));
        }
        v.push((g.parse().unwrap(), l.to_string(), t.to_string()));
    }
    Ok(v)
}

/// Evaluates one input everywhere.
fn verify(configs: &[Config], i: &Input) -> R {
    let all: Vec<_> = configs.iter().map(|c| results(c, i)).collect();
    let mut base: [Option<(&Config, Vec<_>)>; GROUPS] = [const { None }; GROUPS];
    for (c, r) in configs.iter().zip(all) {
        let r = r?;
        for (g, slot) in base.iter_mut().enumerate().filter(|(g, _)| c.has(*g)) {
            let mine: Vec<_> = r.iter().filter(|x| x.0 == g).map(|x| (x.1.clone(), x.2.clone())).collect();
            match slot {
                None => *slot = Some((c, mine)),
                Some((b, want)) if *want != mine => {
                    let k = want.iter().zip(&mine).position(|(a, b)| a != b).unwrap_or(want.len().min(mine.len()));
                    return Err(format!("{}: {:?}, {}: {:?}", b.name(), want.get(k), c.name(), mine.get(k)));
                }
                _ => {}
            }
        }
    }
    Ok(())
}

/// Values over which the parts of a builder input range.
fn builders(thorough: bool, add: &(dyn Fn(u8, String) + Sync)) {
    let opt = |k: &str, v: &[&str]| -> Vec<String> {
        std::iter::once(String::new()).chain(v.iter().map(|x| format!("{k}\u{1f}{x}"))).collect()
    };
    let scheme = opt("s", &["s", "A1", "1", ""]);
    let mut user = opt("u", &["", "U:%41", "@"]);
    user.extend(opt("U", &["u p", "U%7e \u{e9}", "a:b c"]).split_off(1));
    user.push("V\u{1f}u".into());
    user.push("u\u{1f}x\u{1e}-u".into());
    let host = opt("h", &["", "H", "[::1A]", "1.2.3.4", "\u{c9}%c3%a9", "a/b"]);
    let mut port = opt("P", &["", "080", "x"]);
    port.push("i\u{1f}65535".into());
    port.push("i\u{1f}1\u{1e}-i".into());
    let paths = ["", "/", "//a", "a:b", "a/../b", "/.././%2e//x", "..//a", "\u{e9}%41%2f", "?", "./a:b"];
    let path: Vec<String> = paths.iter().map(|p| format!("p\u{1f}{p}")).collect();
    let query = opt("q", &["", "Q%7e", "#"]);
    let frag = opt("f", &["", "%c3%A9"]);
    let norm = ["", "n", "n\u{1e}-n", "-a\u{1e}n"].map(String::from).to_vec();
    let lists: [&[String]; 8] = [&scheme, &user, &host, &port, &path, &query, &frag, &norm];
    // All pairs of values of two settings over two backgrounds; in depth, all triples.
    let backgrounds = [[0; 8], [1, 2, 2, 2, 4, 2, 2, 1], [1, 0, 0, 0, 6, 1, 1, 1]];
    let dims = 8;
    for bg in backgrounds {
        for a in 0..dims {
            for b in 0..a {
                for c in 0..if thorough { b } else { 1.min(b) } {
                    mc::en::product(&[lists[a].len(), lists[b].len(), if thorough { lists[c].len() } else { 2 }], |i| {
                        let mut x = bg;
                        x[a] = i[0];
                        x[b] = i[1];
                        x[c] = i[2];
                        let parts: Vec<&str> = x.iter().zip(lists).map(|(&i, l)| l[i].as_str()).filter(|s| !s.is_empty()).collect();
                        add(b'b', parts.join("\u{1e}"));
                    });
                }
            }
        }
    }
}

fn inputs(ctx: &Ctx) -> Vec<Input> {
    let t = ctx.thorough;
    let all = Mutex::new(Vec::<Input>::new());
    let add = |k: u8, s: String| all.lock().unwrap().push((k, s));
    // Validation of arbitrary strings.
    mc::en::strings(&["a", "1", ":", "/", "?", "#", "@", "[", "]", "%41", "%", ".", "\u{e9}", "{", "}", " "], if t { 5 } else { 4 }, |s| add(b'v', s.into()));
    for c in (0..0x3000).chain(0xD700..0xE100).chain((1..=0x10).flat_map(|p| p * 0x10000 - 4..p * 0x10000 + 4)).filter_map(char::from_u32) {
        for s in [format!("{c}"), format!("a:{c}"), format!("{{{c}}}"), format!("//a{c}")] {
            if s.chars().all(|c| !matches!(c, '\u{1}'..='\u{2}' | '\u{1e}'..='\u{1f}')) {
                add(b'v', s.clone());
                add(b'e', s);
            }
        }
    }
    // References.
    let mut refs = mc::gens::full_refs(1);
    if !t {
        refs.schemes.retain(|s| *s != Some("A1+-."));
        refs.paths.retain(|p| !["a", "@", "/"].contains(&p.as_str()));
    }
    refs.auths = mc::gens::authorities(&[None, Some(""), Some("u:"), Some("u:p:q"), Some("\u{E9}:%41")], &["", "H", "[::1A]", "1.2.3.4", "1.2.3", "%c3%A9"], &[None, Some(""), Some("80")]);
    refs.queries = vec![None, Some("/?:@\u{E000}")];
    refs.frags = vec![None, Some("/?:@")];
    refs.each(|s| {
        if valid(K::IriRef, true, s) {
            add(b'r', s.into());
        }
    });
    mc::en::strings(&["a", ":", "/", "?", "#", "@", "%2e", ".", "%c3%A9", "\u{e9}", "[::]"], if t { 5 } else { 4 }, |s| {
        if valid(K::IriRef, true, s) {
            add(b'r', s.into());
        }
    });
    mc::spaces::each_char(0, &|s| {
        if s.chars().all(|c| !matches!(c, '\u{1}'..='\u{2}' | '\u{1e}'..='\u{1f}')) {
            add(b'r', s.into());
        }
    });
    // Delimiters at every place in long texts: vector search and fallback see every alignment.
    let max = if t { 140 } else { 72 };
    let units: &[&str] = if t { &["a", "\u{e9}", "%41"] } else { &["a", "\u{e9}"] };
    for u in units {
        for n in (0..max).step_by(if t { 1 } else { 3 }) {
            for k in 0..=n {
                let (x, y) = (u.repeat(k), u.repeat(n - k));
                for d in ["/", "?", "#", "@", ":", "//"] {
                    for pre in ["s://", "", "s:"] {
                        let r = format!("{pre}{x}{d}{y}");
                        if k % 3 == 0 || d != "//" {
                            add(if valid(K::IriRef, true, &r) && (k + n) % 5 == 0 { b'r' } else { b'v' }, r);
                        }
                    }
                }
                for d in ["%", "%4", "%4a", "%%41", "%C3%A9"] {
                    add(b'e', format!("{x}{d}{y}"));
                }
                add(b't', format!("{x}{{v}}{y}\u{1e}v\u{1f}s\u{1f}{x}%41{y}"));
                add(b't', format!("{{a{}.b:{}}}{{+{y}v:{k},v}}\u{1e}v\u{1f}s\u{1f}{x}%41{y}", "x".repeat(k), n.max(1)));
            }
        }
    }
    mc::gens::long_refs(&mc::gens::lens(t).into_iter().filter(|n| t || n % 8 < 2).collect::<Vec<_>>(), |s| add(b'r', s.into()));
    // Resolution.
    let bases = ["s:", "s:a/b", "s:/a/../b/", "S://u:p@H:/%2e/c//d?q", "s:a", "s:/..//x", "s://[::1A]", "s:%2e%2E/\u{e9}"];
    mc::en::strings(&["a", "/", "..", ".", "%2E", "?", "#", ":", "\u{e9}", "%7e"], if t { 5 } else { 4 }, |s| {
        if valid(K::IriRef, true, s) {
            bases.iter().for_each(|b| add(b'p', format!("{b}\u{1e}{s}")));
        }
    });
    for n in 1..=if t { 12 } else { 9 } {
        mc::en::product(&vec![if n < 7 { 3 } else { 2 }; n], |i| {
            let s: Vec<&str> = i.iter().map(|&k| ["a", "..", ""][k]).collect();
            let s = s.join("/");
            add(b'p', format!("s:/x/y\u{1e}{s}"));
            add(b'p', format!("s:{s}/z\u{1e}../x"));
            add(b'r', format!("s:{s}"));
        });
    }
    // Encoding.
    mc::en::strings(&["%", "4", "a", "%C3", "%a9", "\u{e9}", "\u{E000}", "\u{10FFFF}", "/", ":", "@", "~", " "], if t { 5 } else { 4 }, |s| add(b'e', s.into()));
    // Templates.
    let env = "\u{1e}a\u{1f}s\u{1f}\u{e9}%C3%A9/%!\u{1e}b\u{1f}s\u{1f}\u{1e}l\u{1f}l\u{1f}x\u{1f}\u{1f}\u{e9}?\u{1e}m\u{1f}m\u{1f}k\u{1f}%41\u{1f}\u{e9}\u{1f}\u{1e}n\u{1f}l\u{1e}o\u{1f}m\u{1f}k\u{1f}v";
    let tokens = ["{", "}", "a", "b", "l", "m", "o", "u", ",", "*", ":1", ":2", "+", "#", ".", ";", "?", "&", "%41", "\u{e9}"];
    mc::en::lang(dfa(K::Template, false), &tokens, if t { 5 } else { 4 }, |s| add(b't', format!("{s}{env}")));
    mc::en::strings(&["a", "%", "%4", "%41", "%C3%A9", "%c3", "\u{e9}", "/", " ", "="], if t { 4 } else { 3 }, |s| {
        for x in ["{v}{+v}{#v:1}{;v:2}{?v*}", "{v:1}{+v:2}{+v:3}{/v}{.v}{&v:9}"] {
            add(b't', format!("{x}\u{1e}v\u{1f}s\u{1f}{s}"));
            add(b't', format!("{x}\u{1e}v\u{1f}l\u{1f}{s}\u{1f}{s}"));
            add(b't', format!("{}\u{1e}v\u{1f}m\u{1f}{s}\u{1f}{s}", x.replace(":", "*:").replace("*:1", "*").replace("*:2", "").replace("*:3", "").replace("*:9", "*")));
        }
    });
    builders(t, &add);
    let mut v = all.into_inner().unwrap();
    v.sort();
    v.dedup();
    // Neighbouring inputs in different batches, so that all kinds are spread over the run.
    v
}

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one input evaluated under one configuration (every operation the configuration offers); all configurations offering an operation have to give the same result, without a panic; nontrivial = distinct inputs");
    let configs = configs(ctx.thorough);
    let t = std::time::Instant::now();
    build(&configs);
    eprintln!("[C21] built {} configurations, {:.1}s", configs.len(), t.elapsed().as_secs_f64());
    ctx.count("configurations", configs.len() as u64);
    let inputs = inputs(ctx);
    for i in &inputs {
        ctx.nontrivial(hash(&i.1) ^ u64::from(i.0));
    }
    for k in [b'v', b'r', b'p', b'e', b't', b'b'] {
        ctx.count(&format!("inputs: {}", match k { b'v' => "validation", b'r' => "references", b'p' => "resolution", b'e' => "encoding", b't' => "templates", _ => "builder" }), inputs.iter().filter(|i| i.0 == k).count() as u64);
    }
    for i in inputs.iter().step_by(inputs.len() / 12 + 1) {
        ctx.sample(format!("{} {:?}", char::from(i.0), i.1));
    }
    let batches: Vec<&[Input]> = inputs.chunks(BATCH).collect();
    eprintln!("[C21] {} inputs", inputs.len());
    // Digests of every batch under every configuration; `None` where the worker failed.
    type Digest = Option<([u64; GROUPS], u64)>;
    let results: Vec<Vec<Digest>> = std::thread::scope(|s| {
        let run_config = |c: Config| {
            let batches = &batches;
            move || {
                let mut w = Worker::new(&c);
                let mut out = Vec::with_capacity(batches.len());
                for b in batches {
                    let mut data = Vec::new();
                    b.iter().for_each(|i| frame(b'I', i, &mut data));
                    data.push(b'F');
                    let a = if w.send(&data) { w.read(8 * (GROUPS + 1), 60) } else { None };
                    if a.is_none() {
                        w = Worker::new(&c);
                        if out.iter().filter(|x: &&Digest| x.is_none()).count() > 3 {
                            break;
                        }
                    }
                    out.push(a.map(|a| {
                        let n = |k: usize| u64::from_le_bytes(a[8 * k..8 * k + 8].try_into().unwrap());
                        (std::array::from_fn(n), n(GROUPS))
                    }));
                }
                out
            }
        };
        let hs: Vec<_> = configs.iter().map(|c| s.spawn(run_config(c.clone()))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut suspicious = 0;
    for (k, b) in batches.iter().enumerate() {
        let mut bad = false;
        let mut want: [Option<u64>; GROUPS] = [None; GROUPS];
        for (c, r) in configs.iter().zip(&results) {
            match r.get(k).copied().flatten() {
                None => bad = true,
                Some((d, panics)) => {
                    bad |= panics > 0;
                    for g in (0..GROUPS).filter(|g| c.has(*g)) {
                        bad |= *want[g].get_or_insert(d[g]) != d[g];
                        ctx.outcome(d[g]);
                    }
                }
            }
        }
        ctx.evals.fetch_add((b.len() * configs.len()) as u64, std::sync::atomic::Ordering::Relaxed);
        if bad && suspicious < 4 {
            suspicious += 1;
            let mut found = false;
            mc::report::par(b.len(), |j| {
                let i = &b[j];
                let kind = char::from(i.0).to_string();
                if let Err(e) = verify(&configs, i) {
                    ctx.fail(&[&kind, &i.1], e);
                }
            });
            found |= ctx.failed();
            if !found {
                let names: Vec<String> = configs.iter().map(Config::name).collect();
                ctx.fail(&["batch", &b[0].1, &b[b.len() - 1].1], format!("results of a batch differ between {names:?}, but not for any single input"));
            }
        }
    }
    ctx.assume("results are compared through 64-bit FNV digests per batch of 400 inputs");
    ctx.assume("operations reachable only through configuration-specific types (standard IP addresses, hash maps, serde) are compared among the configurations that have them");
}

fn replay(_: &Ctx, c: &[String]) -> R {
    let configs = configs(true);
    build(&configs);
    if c[0] == "batch" {
        return Err("rerun the exploration".into());
    }
    verify(&configs, &(c[0].as_bytes()[0], c[1].clone()))
}

fn main() {
    run("C21", "exploration", explore, replay)
}
