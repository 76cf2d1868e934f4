//! Exhaustive enumerators.
use crate::report::par;

/// Visits every concatenation of at most `max` tokens (in parallel over prefixes).
pub fn strings(tokens: &[&str], max: usize, f: impl Fn(&str) + Sync) {
    let n = tokens.len();
    let split = max.min(2);
    // Shorter strings than the split depth.
    for len in 0..split {
        let mut idx = vec![0; len];
        loop {
            let s: String = idx.iter().map(|&i| tokens[i]).collect();
            f(&s);
            if !step(&mut idx, n) {
                break;
            }
        }
    }
    par(n.pow(split as u32), |p| {
        let mut buf = String::new();
        let mut q = p;
        for _ in 0..split {
            buf.push_str(tokens[q % n]);
            q /= n;
        }
        dfs(tokens, max - split, &mut buf, &f);
    });
}

fn dfs(tokens: &[&str], left: usize, buf: &mut String, f: &impl Fn(&str)) {
    f(buf);
    if left == 0 {
        return;
    }
    for t in tokens {
        let l = buf.len();
        buf.push_str(t);
        dfs(tokens, left - 1, buf, f);
        buf.truncate(l);
    }
}

/// Visits every concatenation of at most `max` tokens that the automaton accepts, skipping
/// prefixes it can no longer accept. Returns the number of visited prefixes (tree nodes).
pub fn lang(d: &crate::grammar::Dfa, tokens: &[&str], max: usize, f: impl Fn(&str) + Sync) -> u64 {
    let dead: Vec<bool> = {
        let fin = d.completions();
        (0..d.n).map(|q| fin[q].is_empty() && !d.accept[q]).collect()
    };
    let nodes = std::sync::atomic::AtomicU64::new(0);
    let split = max.min(3);
    let n = tokens.len();
    struct V<'a, F> {
        d: &'a crate::grammar::Dfa,
        dead: &'a [bool],
        tokens: &'a [&'a str],
        f: &'a F,
    }
    impl<F: Fn(&str) + Sync> V<'_, F> {
        fn go(&self, q: usize, left: usize, buf: &mut String) -> u64 {
            if self.dead[q] {
                return 0;
            }
            if self.d.accept[q] {
                (self.f)(buf);
            }
            let mut n = 1;
            if left > 0 {
                for t in self.tokens {
                    let l = buf.len();
                    buf.push_str(t);
                    n += self.go(self.d.run(q, t), left - 1, buf);
                    buf.truncate(l);
                }
            }
            n
        }
    }
    let v = V { d, dead: &dead, tokens, f: &f };
    for len in 0..split {
        let mut idx = vec![0; len];
        loop {
            let s: String = idx.iter().map(|&i| tokens[i]).collect();
            nodes.fetch_add(v.go(d.run(0, &s), 0, &mut s.clone()), std::sync::atomic::Ordering::Relaxed);
            if !step(&mut idx, n) {
                break;
            }
        }
    }
    par(n.pow(split as u32), |p| {
        let mut buf = String::new();
        let mut q = p;
        for _ in 0..split {
            buf.push_str(tokens[q % n]);
            q /= n;
        }
        let k = v.go(d.run(0, &buf), max - split, &mut buf);
        nodes.fetch_add(k, std::sync::atomic::Ordering::Relaxed);
    });
    nodes.into_inner()
}

fn step(idx: &mut [usize], n: usize) -> bool {
    for d in idx.iter_mut() {
        *d += 1;
        if *d < n {
            return true;
        }
        *d = 0;
    }
    false
}

/// Visits every tuple of indices below the given sizes.
pub fn product(sizes: &[usize], f: impl Fn(&[usize]) + Sync) {
    let total: usize = sizes.iter().product();
    const CHUNK: usize = 256;
    par(total.div_ceil(CHUNK), |c| {
        let mut idx = vec![0; sizes.len()];
        for k in c * CHUNK..((c + 1) * CHUNK).min(total) {
            let mut q = k;
            for (d, s) in idx.iter_mut().zip(sizes) {
                *d = q % s;
                q /= s;
            }
            f(&idx);
        }
    });
}

/// All concatenations of at most `max` tokens, collected.
pub fn collect(tokens: &[&str], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        for i in from..to {
            for t in tokens {
                out.push(format!("{}{}", out[i], t));
            }
        }
        from = to;
    }
    out
}

/// All ways to cut `s` at character boundaries into consecutive non-empty pieces.
pub fn cuts(s: &str, f: &mut dyn FnMut(&[&str])) {
    let bounds: Vec<usize> = s.char_indices().map(|(i, _)| i).skip(1).collect();
    for mask in 0..1u64 << bounds.len() {
        let mut pieces = Vec::new();
        let mut start = 0;
        for (b, &pos) in bounds.iter().enumerate() {
            if mask >> b & 1 == 1 {
                pieces.push(&s[start..pos]);
                start = pos;
            }
        }
        pieces.push(&s[start..]);
        f(&pieces);
    }
}

/// Displays given pieces one write at a time, as a value whose own output is split.
pub struct Pieces<'a>(pub &'a [&'a str]);

impl std::fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.iter().try_for_each(|p| f.write_str(p))
    }
}

/// Displays a string one character at a time.
pub struct Chars<'a>(pub &'a str);

impl std::fmt::Display for Chars<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        use std::fmt::Write;
        self.0.chars().try_for_each(|c| f.write_char(c))
    }
}

/// Every way to cut `s` into pieces, and each with empty writes in between.
pub fn deliveries(s: &str, f: &mut dyn FnMut(&dyn std::fmt::Display) -> Result<(), String>) -> Result<(), String> {
    let mut r = Ok(());
    cuts(s, &mut |p| {
        if r.is_ok() {
            r = f(&Pieces(p)).map_err(|e| format!("{e} (written as {p:?})"));
        }
        if r.is_ok() {
            let mut q = vec![""];
            for x in p {
                q.push(x);
                q.push("");
            }
            r = f(&Pieces(&q)).map_err(|e| format!("{e} (written as {q:?})"));
        }
    });
    r?;
    f(&Chars(s)).map_err(|e| format!("{e} (written by characters)"))?;
    f(&format_args!("{s}")).map_err(|e| format!("{e} (written by formatting)"))
}
