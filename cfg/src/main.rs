//! Evaluates public operations under one configuration of the library and digests the results.
//!
//! Frames on stdin: `I kind len payload` evaluates an input into the digests, `F` prints and resets
//! the digests, `D kind len payload` prints the labelled results of one input.

use std::fmt::{Display, Write as _};
use std::io::{BufReader, BufWriter, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

mod alloc_ops;
mod core_ops;
mod serde_ops;
#[path = "../../mc/src/shows.rs"]
mod shows;
/// What `shows` needs.
mod en {
    use std::fmt::Write;
    pub struct Chars<'a>(pub &'a str);
    impl std::fmt::Display for Chars<'_> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.0.chars().try_for_each(|c| f.write_char(c))
        }
    }
}

/// Groups of operations available in different configurations.
pub const GROUPS: usize = 5;
pub const CORE: usize = 0;
pub const ALLOC: usize = 1;
pub const STD: usize = 2;
pub const SERDE: usize = 3;
pub const SERDE_ALLOC: usize = 4;

struct Fnv(u64);
impl std::fmt::Write for Fnv {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ u64::from(b)).wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}

/// Receives labelled results.
pub struct Out {
    digest: [Fnv; GROUPS],
    panics: u64,
    dump: Option<String>,
    group: usize,
    label: String,
}

impl Out {
    pub fn put(&mut self, label: &str, v: &dyn Display) {
        self.label.clear();
        self.label.push_str(label);
        let h = &mut self.digest[self.group];
        write!(h, "{label}\u{1}{v}\u{2}").unwrap();
        if let Some(d) = &mut self.dump {
            write!(d, "{}\u{1}{label}\u{1}{v}\u{2}", self.group).unwrap();
        }
    }
    pub fn dbg(&mut self, label: &str, v: &dyn std::fmt::Debug) {
        self.put(label, &shows::Dbg(v));
    }
    /// Runs the operations of a group, noting a panic.
    pub fn group(&mut self, g: usize, f: impl FnOnce(&mut Self)) {
        self.group = g;
        if catch_unwind(AssertUnwindSafe(|| f(self))).is_err() {
            self.panics += 1;
            let m = MSG.with(|m| m.borrow().clone());
            let l = format!("panic after {}", self.label);
            self.put(&l, &m);
        }
    }
}

thread_local! {
    static MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn eval(o: &mut Out, kind: u8, p: &str) {
    o.group(CORE, |o| core_ops::run(o, kind, p));
    #[cfg(feature = "alloc")]
    o.group(ALLOC, |o| alloc_ops::run(o, kind, p));
    #[cfg(feature = "std")]
    o.group(STD, |o| alloc_ops::run_std(o, kind, p));
    #[cfg(feature = "serde")]
    o.group(SERDE, |o| serde_ops::run(o, kind, p));
    #[cfg(all(feature = "serde", feature = "alloc"))]
    o.group(SERDE_ALLOC, |o| serde_ops::run_alloc(o, kind, p));
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}");
        MSG.with(|s| *s.borrow_mut() = m);
    }));
    let mut i = BufReader::with_capacity(1 << 20, std::io::stdin());
    let mut w = BufWriter::new(std::io::stdout());
    let fresh = || [(); GROUPS].map(|_| Fnv(0xcbf29ce484222325));
    let mut o = Out { digest: fresh(), panics: 0, dump: None, group: 0, label: String::new() };
    let mut buf = Vec::new();
    let mut cmd = [0];
    while i.read_exact(&mut cmd).is_ok() {
        if cmd[0] == b'F' {
            for d in &o.digest {
                w.write_all(&d.0.to_le_bytes()).unwrap();
            }
            w.write_all(&o.panics.to_le_bytes()).unwrap();
            w.flush().unwrap();
            o.digest = fresh();
            o.panics = 0;
            continue;
        }
        let mut kind = [0];
        let mut len = [0; 4];
        i.read_exact(&mut kind).unwrap();
        i.read_exact(&mut len).unwrap();
        buf.resize(u32::from_le_bytes(len) as usize, 0);
        i.read_exact(&mut buf).unwrap();
        let text = std::str::from_utf8(&buf).unwrap();
        if cmd[0] == b'D' {
            o.dump = Some(String::new());
            eval(&mut o, kind[0], text);
            let d = o.dump.take().unwrap();
            w.write_all(&(d.len() as u32).to_le_bytes()).unwrap();
            w.write_all(d.as_bytes()).unwrap();
            w.flush().unwrap();
        } else {
            eval(&mut o, kind[0], text);
        }
    }
}
