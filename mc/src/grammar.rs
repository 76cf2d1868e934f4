//! RFC 3986 / 3987 / 6570 grammars as explicit finite automata.
//!
//! The ABNF is written down with combinators, compiled to an NFA over character classes,
//! determinised and minimised. Nothing here is derived from the code under test.

use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::sync::OnceLock;

pub type Ranges = Vec<(u32, u32)>;

#[derive(Clone, Debug)]
pub enum G {
    Set(Ranges),
    Seq(Vec<G>),
    Alt(Vec<G>),
    Star(Box<G>),
}

fn set(parts: &[&[(u32, u32)]]) -> G {
    G::Set(parts.concat())
}
fn ch(c: char) -> G {
    G::Set(vec![(c as u32, c as u32)])
}
fn lit(s: &str) -> G {
    G::Seq(s.chars().map(ch).collect())
}
fn seq(v: Vec<G>) -> G {
    G::Seq(v)
}
fn alt(v: Vec<G>) -> G {
    G::Alt(v)
}
fn star(g: G) -> G {
    G::Star(Box::new(g))
}
fn plus(g: G) -> G {
    seq(vec![g.clone(), star(g)])
}
fn opt(g: G) -> G {
    alt(vec![g, seq(vec![])])
}
/// `min*max(g)`
fn rep(g: &G, min: usize, max: usize) -> G {
    let mut out = seq(vec![]);
    for i in (0..max).rev() {
        let more = seq(vec![g.clone(), out]);
        out = if i >= min { opt(more) } else { more };
    }
    out
}

const fn one(c: char) -> (u32, u32) {
    (c as u32, c as u32)
}
pub const ALPHA: &[(u32, u32)] = &[('A' as u32, 'Z' as u32), ('a' as u32, 'z' as u32)];
pub const DIGIT: &[(u32, u32)] = &[('0' as u32, '9' as u32)];
pub const HEXDIG: &[(u32, u32)] = &[('0' as u32, '9' as u32), ('A' as u32, 'F' as u32), ('a' as u32, 'f' as u32)];
pub const UNRESERVED_PUNCT: &[(u32, u32)] = &[one('-'), one('.'), one('_'), one('~')];
pub const SUB_DELIMS: &[(u32, u32)] = &[
    one('!'), one('$'), one('&'), one('\''), one('('), one(')'), one('*'), one('+'), one(','), one(';'), one('='),
];
pub const GEN_DELIMS: &[(u32, u32)] = &[one(':'), one('/'), one('?'), one('#'), one('['), one(']'), one('@')];
pub const UCSCHAR: &[(u32, u32)] = &[
    (0xA0, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFEF),
    (0x10000, 0x1FFFD), (0x20000, 0x2FFFD), (0x30000, 0x3FFFD), (0x40000, 0x4FFFD),
    (0x50000, 0x5FFFD), (0x60000, 0x6FFFD), (0x70000, 0x7FFFD), (0x80000, 0x8FFFD),
    (0x90000, 0x9FFFD), (0xA0000, 0xAFFFD), (0xB0000, 0xBFFFD), (0xC0000, 0xCFFFD),
    (0xD0000, 0xDFFFD), (0xE1000, 0xEFFFD),
];
pub const IPRIVATE: &[(u32, u32)] = &[(0xE000, 0xF8FF), (0xF0000, 0xFFFFD), (0x100000, 0x10FFFD)];

pub fn within(c: char, set: &[(u32, u32)]) -> bool {
    set.iter().any(|&(a, b)| (a..=b).contains(&(c as u32)))
}
pub fn is_ucschar(c: char) -> bool {
    within(c, UCSCHAR)
}
pub fn is_iprivate(c: char) -> bool {
    within(c, IPRIVATE)
}
/// `unreserved` / `iunreserved`
pub fn is_unreserved(c: char, iri: bool) -> bool {
    within(c, ALPHA) || within(c, DIGIT) || within(c, UNRESERVED_PUNCT) || (iri && is_ucschar(c))
}
pub fn is_sub_delim(c: char) -> bool {
    within(c, SUB_DELIMS)
}
pub fn is_gen_delim(c: char) -> bool {
    within(c, GEN_DELIMS)
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum K {
    Scheme, Userinfo, Host, RegName, Ipv4, Port, Authority, Path, Segment, Query, Fragment,
    Iri, AbsIri, RelRef, IriRef, Template, VarName,
}
pub const KINDS: &[K] = &[
    K::Scheme, K::Userinfo, K::Host, K::RegName, K::Port, K::Authority, K::Path, K::Segment, K::Query, K::Fragment,
    K::Iri, K::AbsIri, K::RelRef, K::IriRef,
];
impl K {
    pub fn name(self) -> &'static str {
        match self {
            K::Scheme => "scheme", K::Userinfo => "userinfo", K::Host => "host", K::RegName => "reg-name",
            K::Ipv4 => "IPv4address", K::Port => "port", K::Authority => "authority", K::Path => "path",
            K::Segment => "segment", K::Query => "query", K::Fragment => "fragment", K::Iri => "IRI",
            K::AbsIri => "absolute-IRI", K::RelRef => "relative-ref", K::IriRef => "IRI-reference",
            K::Template => "URI-Template", K::VarName => "varname",
        }
    }
    pub fn from_name(s: &str) -> K {
        *KINDS.iter().chain(&[K::Ipv4, K::Template, K::VarName]).find(|k| k.name() == s).expect("kind")
    }
}

/// The ABNF. `iri` selects RFC 3987 over RFC 3986.
pub fn abnf(k: K, iri: bool) -> G {
    let ucs: &[(u32, u32)] = if iri { UCSCHAR } else { &[] };
    let private: &[(u32, u32)] = if iri { IPRIVATE } else { &[] };
    let hex = || set(&[HEXDIG]);
    let digit = || set(&[DIGIT]);
    let pct = || seq(vec![ch('%'), hex(), hex()]);
    let unres_set: Vec<(u32, u32)> = [ALPHA, DIGIT, UNRESERVED_PUNCT, ucs].concat();
    let unres_ascii: Vec<(u32, u32)> = [ALPHA, DIGIT, UNRESERVED_PUNCT].concat();
    let colon_at: &[(u32, u32)] = &[one(':'), one('@')];
    let colon: &[(u32, u32)] = &[one(':')];
    let at: &[(u32, u32)] = &[one('@')];
    let slash_q: &[(u32, u32)] = &[one('/'), one('?')];
    let pchar = || alt(vec![set(&[&unres_set, SUB_DELIMS, colon_at]), pct()]);
    let segment = || star(pchar());
    let segment_nz = || plus(pchar());
    let segment_nz_nc = || plus(alt(vec![set(&[&unres_set, SUB_DELIMS, at]), pct()]));
    let path_abempty = || star(seq(vec![ch('/'), segment()]));
    let path_absolute = || seq(vec![ch('/'), opt(seq(vec![segment_nz(), path_abempty()]))]);
    let path_noscheme = || seq(vec![segment_nz_nc(), path_abempty()]);
    let path_rootless = || seq(vec![segment_nz(), path_abempty()]);
    let scheme = || seq(vec![set(&[ALPHA]), star(set(&[ALPHA, DIGIT, &[one('+'), one('-'), one('.')]]))]);
    let userinfo = || star(alt(vec![set(&[&unres_set, SUB_DELIMS, colon]), pct()]));
    let reg_name = || star(alt(vec![set(&[&unres_set, SUB_DELIMS]), pct()]));
    let dec_octet = || {
        alt(vec![
            digit(),
            seq(vec![G::Set(vec![('1' as u32, '9' as u32)]), digit()]),
            seq(vec![ch('1'), digit(), digit()]),
            seq(vec![ch('2'), G::Set(vec![('0' as u32, '4' as u32)]), digit()]),
            seq(vec![lit("25"), G::Set(vec![('0' as u32, '5' as u32)])]),
        ])
    };
    let ipv4 = || seq(vec![dec_octet(), ch('.'), dec_octet(), ch('.'), dec_octet(), ch('.'), dec_octet()]);
    let h16 = rep(&hex(), 1, 4);
    let h16c = seq(vec![h16.clone(), ch(':')]);
    let ls32 = alt(vec![seq(vec![h16.clone(), ch(':'), h16.clone()]), ipv4()]);
    let pre = |n: usize| opt(seq(vec![rep(&h16c, 0, n), h16.clone()]));
    let ipv6 = || {
        alt(vec![
            seq(vec![rep(&h16c, 6, 6), ls32.clone()]),
            seq(vec![lit("::"), rep(&h16c, 5, 5), ls32.clone()]),
            seq(vec![pre(0), lit("::"), rep(&h16c, 4, 4), ls32.clone()]),
            seq(vec![pre(1), lit("::"), rep(&h16c, 3, 3), ls32.clone()]),
            seq(vec![pre(2), lit("::"), rep(&h16c, 2, 2), ls32.clone()]),
            seq(vec![pre(3), lit("::"), h16c.clone(), ls32.clone()]),
            seq(vec![pre(4), lit("::"), ls32.clone()]),
            seq(vec![pre(5), lit("::"), h16.clone()]),
            seq(vec![pre(6), lit("::")]),
        ])
    };
    let ipvfuture = || {
        seq(vec![
            set(&[&[one('v'), one('V')]]),
            plus(hex()),
            ch('.'),
            plus(set(&[&unres_ascii, SUB_DELIMS, colon])),
        ])
    };
    let host = || alt(vec![seq(vec![ch('['), alt(vec![ipv6(), ipvfuture()]), ch(']')]), ipv4(), reg_name()]);
    let port = || star(digit());
    let authority =
        || seq(vec![opt(seq(vec![userinfo(), ch('@')])), host(), opt(seq(vec![ch(':'), port()]))]);
    let query = || star(alt(vec![set(&[&unres_set, SUB_DELIMS, colon_at, slash_q, private]), pct()]));
    let fragment = || star(alt(vec![set(&[&unres_set, SUB_DELIMS, colon_at, slash_q]), pct()]));
    let auth_path = || seq(vec![lit("//"), authority(), path_abempty()]);
    let hier_part = || alt(vec![auth_path(), path_absolute(), path_rootless(), seq(vec![])]);
    let relative_part = || alt(vec![auth_path(), path_absolute(), path_noscheme(), seq(vec![])]);
    let q = || opt(seq(vec![ch('?'), query()]));
    let f = || opt(seq(vec![ch('#'), fragment()]));
    let iri_g = || seq(vec![scheme(), ch(':'), hier_part(), q(), f()]);
    let rel = || seq(vec![relative_part(), q(), f()]);
    match k {
        K::Scheme => scheme(),
        K::Userinfo => userinfo(),
        K::Host => host(),
        K::RegName => reg_name(),
        K::Ipv4 => ipv4(),
        K::Port => port(),
        K::Authority => authority(),
        // `path` as a component value: any of the path productions.
        K::Path => alt(vec![path_abempty(), path_absolute(), path_noscheme(), path_rootless(), seq(vec![])]),
        K::Segment => segment(),
        K::Query => query(),
        K::Fragment => fragment(),
        K::Iri => iri_g(),
        K::AbsIri => seq(vec![scheme(), ch(':'), hier_part(), q()]),
        K::RelRef => rel(),
        K::IriRef => alt(vec![iri_g(), rel()]),
        K::VarName => varname(),
        K::Template => template(),
    }
}

// RFC 6570 section 2.
fn varname() -> G {
    let varchar = || {
        alt(vec![
            set(&[ALPHA, DIGIT, &[one('_')]]),
            seq(vec![ch('%'), set(&[HEXDIG]), set(&[HEXDIG])]),
        ])
    };
    seq(vec![varchar(), star(seq(vec![opt(ch('.')), varchar()]))])
}

fn template() -> G {
    // Erratum 6937: `'` is a literal. Non-ASCII literals: see `LITERAL_NON_ASCII` in the check.
    let mut literal: Ranges = Vec::new();
    for c in 0x21..0x7Fu32 {
        if !"\"%<>\\^`{|}".contains(char::from_u32(c).unwrap()) {
            literal.push((c, c));
        }
    }
    literal.extend(UCSCHAR);
    literal.extend(IPRIVATE);
    let literals = alt(vec![G::Set(literal), seq(vec![ch('%'), set(&[HEXDIG]), set(&[HEXDIG])])]);
    let op = set(&[&[one('+'), one('#'), one('.'), one('/'), one(';'), one('?'), one('&')]]);
    let maxlen = seq(vec![G::Set(vec![('1' as u32, '9' as u32)]), rep(&set(&[DIGIT]), 0, 3)]);
    let varspec = seq(vec![varname(), opt(alt(vec![seq(vec![ch(':'), maxlen]), ch('*')]))]);
    let list = seq(vec![varspec.clone(), star(seq(vec![ch(','), varspec]))]);
    let expr = seq(vec![ch('{'), opt(op), list, ch('}')]);
    star(alt(vec![literals, expr]))
}

/// A minimal complete DFA over character classes.
pub struct Dfa {
    /// `(start, class)` of maximal intervals of code points, sorted.
    pub intervals: Vec<(u32, u16)>,
    pub nclass: usize,
    /// Interval list per class.
    pub members: Vec<Vec<(u32, u32)>>,
    ascii: [u16; 128],
    /// `trans[q * nclass + class]`
    pub trans: Vec<u16>,
    pub accept: Vec<bool>,
    /// Start state is always 0.
    pub n: usize,
}

fn collect_sets(g: &G, out: &mut Vec<Ranges>) {
    match g {
        G::Set(r) => {
            if !out.contains(r) {
                out.push(r.clone())
            }
        }
        G::Seq(v) | G::Alt(v) => v.iter().for_each(|x| collect_sets(x, out)),
        G::Star(x) => collect_sets(x, out),
    }
}

#[derive(Default)]
struct Nfa {
    eps: Vec<Vec<usize>>,
    /// (set index, target)
    edge: Vec<Option<(usize, usize)>>,
}
impl Nfa {
    fn node(&mut self) -> usize {
        self.eps.push(Vec::new());
        self.edge.push(None);
        self.eps.len() - 1
    }
    /// Builds a fragment from `from`, returning its end node.
    fn build(&mut self, g: &G, from: usize, sets: &[Ranges]) -> usize {
        match g {
            G::Set(r) => {
                let i = sets.iter().position(|x| x == r).unwrap();
                let a = self.node();
                let b = self.node();
                self.eps[from].push(a);
                self.edge[a] = Some((i, b));
                b
            }
            G::Seq(v) => v.iter().fold(from, |f, x| self.build(x, f, sets)),
            G::Alt(v) => {
                let end = self.node();
                for x in v {
                    let s = self.node();
                    self.eps[from].push(s);
                    let e = self.build(x, s, sets);
                    self.eps[e].push(end);
                }
                end
            }
            G::Star(x) => {
                let hub = self.node();
                self.eps[from].push(hub);
                let e = self.build(x, hub, sets);
                self.eps[e].push(hub);
                let end = self.node();
                self.eps[hub].push(end);
                end
            }
        }
    }
    fn closure(&self, s: impl IntoIterator<Item = usize>) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        let mut stack: Vec<usize> = s.into_iter().collect();
        while let Some(x) = stack.pop() {
            if out.insert(x) {
                stack.extend(&self.eps[x]);
            }
        }
        out
    }
}

const MAXCP: u32 = 0x110000;

impl Dfa {
    pub fn compile(g: &G, minus: Option<&G>) -> Dfa {
        let mut sets = Vec::new();
        collect_sets(g, &mut sets);
        if let Some(m) = minus {
            collect_sets(m, &mut sets);
        }
        // Partition the scalar values by set membership (surrogates are not characters).
        let mut cuts: BTreeSet<u32> = [0, 0x80, 0xD800, 0xE000, MAXCP].into();
        for s in &sets {
            for &(a, b) in s {
                cuts.insert(a);
                cuts.insert(b + 1);
            }
        }
        let cuts: Vec<u32> = cuts.into_iter().collect();
        let mut sigs: BTreeMap<Vec<bool>, u16> = BTreeMap::new();
        let mut intervals = Vec::new();
        let mut members: Vec<Vec<(u32, u32)>> = Vec::new();
        let mut class_sets: Vec<Vec<bool>> = Vec::new();
        for w in cuts.windows(2) {
            let (a, b) = (w[0], w[1]);
            let mut sig: Vec<bool> = sets.iter().map(|s| s.iter().any(|&(x, y)| x <= a && a <= y)).collect();
            // ASCII and non-ASCII are kept apart, as implementations treat them differently.
            sig.push(a < 0x80);
            let id = *sigs.entry(sig.clone()).or_insert_with(|| {
                members.push(Vec::new());
                class_sets.push(sig);
                (members.len() - 1) as u16
            });
            intervals.push((a, id));
            if a != 0xD800 {
                members[id as usize].push((a, b - 1));
            }
        }
        // A class consisting of surrogates only cannot occur: U+D800.. shares the "nothing matches" class.
        let nclass = members.len();
        let mut nfa = Nfa::default();
        let start = nfa.node();
        let end = nfa.build(g, start, &sets);
        let minus_end = minus.map(|m| nfa.build(m, start, &sets));
        let init = nfa.closure([start]);
        let mut ids: HashMap<BTreeSet<usize>, usize> = HashMap::from([(init.clone(), 0)]);
        let mut todo = VecDeque::from([init]);
        let mut trans: Vec<u16> = Vec::new();
        let mut accept = Vec::new();
        while let Some(q) = todo.pop_front() {
            accept.push(q.contains(&end) && minus_end.is_none_or(|e| !q.contains(&e)));
            for c in 0..nclass {
                let next = nfa.closure(q.iter().filter_map(|&x| nfa.edge[x]).filter(|e| class_sets[c][e.0]).map(|e| e.1));
                let n = ids.len();
                let id = *ids.entry(next.clone()).or_insert_with(|| {
                    todo.push_back(next);
                    n
                });
                trans.push(id as u16);
            }
        }
        // Moore minimisation.
        let n = accept.len();
        let mut block: Vec<usize> = accept.iter().map(|&a| usize::from(a)).collect();
        loop {
            let mut map: HashMap<Vec<usize>, usize> = HashMap::new();
            let mut next = vec![0; n];
            for q in 0..n {
                let mut key = vec![block[q]];
                key.extend((0..nclass).map(|c| block[trans[q * nclass + c] as usize]));
                let l = map.len();
                next[q] = *map.entry(key).or_insert(l);
            }
            let done = map.len() == block.iter().collect::<BTreeSet<_>>().len();
            block = next;
            if done {
                break;
            }
        }
        let m = block.iter().max().unwrap() + 1;
        let mut mtrans = vec![0u16; m * nclass];
        let mut maccept = vec![false; m];
        for q in 0..n {
            maccept[block[q]] = accept[q];
            for c in 0..nclass {
                mtrans[block[q] * nclass + c] = block[trans[q * nclass + c] as usize] as u16;
            }
        }
        assert_eq!(block[0], 0);
        let mut ascii = [0u16; 128];
        let mut d = Dfa { intervals, nclass, members, ascii, trans: mtrans, accept: maccept, n: m };
        for (c, slot) in ascii.iter_mut().enumerate() {
            *slot = d.class_slow(c as u32);
        }
        d.ascii = ascii;
        d
    }
    fn class_slow(&self, c: u32) -> u16 {
        let i = self.intervals.partition_point(|x| x.0 <= c) - 1;
        self.intervals[i].1
    }
    pub fn class(&self, c: char) -> usize {
        usize::from(if c.is_ascii() { self.ascii[c as usize] } else { self.class_slow(c as u32) })
    }
    pub fn step(&self, q: usize, c: char) -> usize {
        usize::from(self.trans[q * self.nclass + self.class(c)])
    }
    pub fn next(&self, q: usize, class: usize) -> usize {
        usize::from(self.trans[q * self.nclass + class])
    }
    pub fn run(&self, q: usize, s: &str) -> usize {
        s.chars().fold(q, |q, c| self.step(q, c))
    }
    pub fn accepts(&self, s: &str) -> bool {
        self.accept[self.run(0, s)]
    }
    /// One character of each class.
    pub fn rep(&self, class: usize) -> char {
        let (a, b) = self.members[class][0];
        // Prefer a readable character.
        char::from_u32(if a == 0 { b.min(0x20) } else { a }).unwrap()
    }
    /// Shortest access string (over class representatives) of each state.
    pub fn access(&self) -> Vec<String> {
        let mut out: Vec<Option<String>> = vec![None; self.n];
        out[0] = Some(String::new());
        let mut todo = VecDeque::from([0]);
        while let Some(q) = todo.pop_front() {
            for c in 0..self.nclass {
                let t = self.next(q, c);
                if out[t].is_none() {
                    out[t] = Some(format!("{}{}", out[q].as_ref().unwrap(), self.rep(c)));
                    todo.push_back(t);
                }
            }
        }
        out.into_iter().map(|x| x.expect("reachable")).collect()
    }
    /// For each state, a shortest suffix leading to acceptance (empty for the dead state).
    pub fn completions(&self) -> Vec<String> {
        let mut out: Vec<Option<String>> = self.accept.iter().map(|&a| a.then(String::new)).collect();
        loop {
            let mut changed = false;
            let prev = out.clone();
            for q in 0..self.n {
                for c in 0..self.nclass {
                    if let (None, Some(r)) = (&out[q], &prev[self.next(q, c)]) {
                        out[q] = Some(format!("{}{r}", self.rep(c)));
                        changed = true;
                    }
                }
            }
            if !changed {
                return out.into_iter().map(Option::unwrap_or_default).collect();
            }
        }
    }
    /// A shortest string accepted from exactly one of `a`, `b`.
    fn distinguish(&self, a: usize, b: usize) -> Option<String> {
        let mut seen = BTreeSet::from([(a, b)]);
        let mut todo = VecDeque::from([(a, b, String::new())]);
        while let Some((a, b, s)) = todo.pop_front() {
            if self.accept[a] != self.accept[b] {
                return Some(s);
            }
            for c in 0..self.nclass {
                let (x, y) = (self.next(a, c), self.next(b, c));
                if x != y && seen.insert((x, y)) {
                    todo.push_back((x, y, format!("{s}{}", self.rep(c))));
                }
            }
        }
        None
    }
    /// A characterization set: its members tell every two states apart.
    pub fn char_set(&self) -> Vec<String> {
        let mut w = vec![String::new()];
        loop {
            let mut groups: HashMap<Vec<bool>, usize> = HashMap::new();
            let mut added = false;
            for q in 0..self.n {
                let key: Vec<bool> = w.iter().map(|s| self.accept[self.run(q, s)]).collect();
                if let Some(&p) = groups.get(&key) {
                    w.push(self.distinguish(p, q).expect("minimal"));
                    added = true;
                    break;
                }
                groups.insert(key, q);
            }
            if !added {
                return w;
            }
        }
    }
    /// For each state, a subset of `w` telling it apart from all others.
    pub fn state_sets(&self, w: &[String]) -> Vec<Vec<usize>> {
        let sig: Vec<Vec<bool>> =
            (0..self.n).map(|q| w.iter().map(|s| self.accept[self.run(q, s)]).collect()).collect();
        (0..self.n)
            .map(|q| {
                let mut open: Vec<usize> = (0..self.n).filter(|&p| p != q).collect();
                let mut chosen = Vec::new();
                while !open.is_empty() {
                    let best = (0..w.len())
                        .max_by_key(|&i| open.iter().filter(|&&p| sig[p][i] != sig[q][i]).count())
                        .unwrap();
                    open.retain(|&p| sig[p][best] == sig[q][best]);
                    chosen.push(best);
                }
                if chosen.is_empty() {
                    chosen.push(0);
                }
                chosen
            })
            .collect()
    }
}

/// The compiled grammar of a production.
pub fn dfa(k: K, iri: bool) -> &'static Dfa {
    static CACHE: OnceLock<Vec<OnceLock<Dfa>>> = OnceLock::new();
    let cache = CACHE.get_or_init(|| (0..64).map(|_| OnceLock::new()).collect());
    cache[k as usize * 2 + usize::from(iri)].get_or_init(|| {
        // Section 3.2.2: what matches IPv4address is an address and not a registered name.
        let minus = (k == K::RegName).then(|| abnf(K::Ipv4, iri));
        Dfa::compile(&abnf(k, iri), minus.as_ref())
    })
}

pub fn valid(k: K, iri: bool, s: &str) -> bool {
    dfa(k, iri).accepts(s)
}
