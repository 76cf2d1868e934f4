//! Input spaces shared by several checks.
use crate::en::{collect, product};
use crate::grammar::{valid, K};

/// A product space of references: every choice of one value per component.
pub struct Refs {
    pub schemes: Vec<Option<&'static str>>,
    pub auths: Vec<Option<String>>,
    pub paths: Vec<String>,
    pub queries: Vec<Option<&'static str>>,
    pub frags: Vec<Option<&'static str>>,
}

/// Authorities: every combination of userinfo, host and port samples.
pub fn authorities(users: &[Option<&str>], hosts: &[&str], ports: &[Option<&str>]) -> Vec<Option<String>> {
    let mut out = vec![None];
    for u in users {
        for h in hosts {
            for p in ports {
                let mut s = String::new();
                if let Some(u) = u {
                    s.push_str(u);
                    s.push('@');
                }
                s.push_str(h);
                if let Some(p) = p {
                    s.push(':');
                    s.push_str(p);
                }
                out.push(Some(s));
            }
        }
    }
    out
}

pub const USERS: &[Option<&str>] =
    &[None, Some(""), Some("u"), Some(":"), Some("u:"), Some(":p"), Some("u:p"), Some("u:p:q"), Some("a%40:%3A"), Some("\u{E9}:\u{E9}")];
pub const HOSTS: &[&str] =
    &["", "h", "H.x", "[::1A]", "[v1.A:bC]", "[::1.2.3.4]", "1.2.3.4", "1.2.3.256", "1.2.3", "%41", "\u{E9}", "%C3%A9", "a;b=,"];
pub const PORTS: &[Option<&str>] = &[None, Some(""), Some("0"), Some("080"), Some("99999")];

pub fn paths(tokens: &[&str], max: usize, iri: bool) -> Vec<String> {
    let mut v: Vec<String> = collect(tokens, max).into_iter().filter(|p| valid(K::Path, iri, p)).collect();
    v.sort();
    v.dedup();
    v
}

impl Refs {
    pub fn len(&self) -> usize {
        self.schemes.len() * self.auths.len() * self.paths.len() * self.queries.len() * self.frags.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn each(&self, f: impl Fn(&str) + Sync) {
        let sizes = [self.frags.len(), self.queries.len(), self.paths.len(), self.auths.len(), self.schemes.len()];
        product(&sizes, |i| {
            f(&crate::rfc::recompose(
                self.schemes[i[4]],
                self.auths[i[3]].as_deref(),
                &self.paths[i[2]],
                self.queries[i[1]],
                self.frags[i[0]],
            ))
        });
    }
}

pub fn full_refs(path_len: usize) -> Refs {
    Refs {
        schemes: vec![None, Some("s"), Some("A1+-.")],
        auths: authorities(USERS, HOSTS, PORTS),
        paths: paths(&["/", "a", ":", "@", "..", "%2f", "\u{E9}"], path_len, true),
        queries: vec![None, Some(""), Some("q"), Some("/?:@\u{E000}")],
        frags: vec![None, Some(""), Some("f"), Some("/?:@")],
    }
}

/// Strings putting a run of `n` ordinary characters into every component, with every combination
/// of present components (for the longest runs: alone, with a scheme or path, with all others).
pub fn long_refs(lens: &[usize], f: impl Fn(&str) + Sync) {
    let unit: &[(&str, &[&str])] = &[
        ("scheme", &["a", "b1"]),
        ("user", &["u", "\u{E9}", "%41"]),
        ("host", &["h", "\u{E9}", "%41"]),
        ("port", &["1"]),
        ("path", &["p", "/", "\u{E9}", "%41", "p/"]),
        ("query", &["q", "\u{E9}", "%41", "?"]),
        ("fragment", &["f", "\u{E9}", "%41", "?"]),
    ];
    crate::report::par(lens.len() * 7 * 128, |j| {
        let (n, j) = (lens[j / (7 * 128)], j % (7 * 128));
        let (which, mask) = (j / 128, j % 128);
        if mask >> which & 1 == 0 {
            return;
        }
        // The longest values: alone, and with every other component.
        if n > 300 && mask != 127 && mask != 1 << which && mask != 1 | 1 << which && mask != 16 | 1 << which {
            return;
        }
        for u in unit[which].1 {
            // Dot-segment removal takes quadratic time in the number of segments.
            if n > 5000 && u.contains('/') {
                continue;
            }
            let val = |i: usize, short: &str| -> Option<String> {
                (mask >> i & 1 == 1).then(|| if i == which { u.repeat(n) } else { short.to_string() })
            };
            let (sc, us, ho, po, pa, qu, fr) =
                (val(0, "s"), val(1, "u:p"), val(2, "h"), val(3, "80"), val(4, "p/q"), val(5, "q"), val(6, "f"));
            let auth = (us.is_some() || ho.is_some() || po.is_some()).then(|| {
                let mut a = String::new();
                if let Some(x) = &us {
                    a += x;
                    a.push('@');
                }
                a += ho.as_deref().unwrap_or("");
                if let Some(x) = &po {
                    a.push(':');
                    a += x;
                }
                a
            });
            let mut path = pa.unwrap_or_default();
            if auth.is_some() && !path.is_empty() && !path.starts_with('/') {
                path.insert(0, '/');
            }
            let s = crate::rfc::recompose(sc.as_deref(), auth.as_deref(), &path, qu.as_deref(), fr.as_deref());
            if valid(K::IriRef, true, &s) {
                f(&s);
            }
        }
    });
}

pub fn lens(thorough: bool) -> Vec<usize> {
    if thorough {
        (1..=80)
            .chain([127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048])
            .chain([2049, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 65535, 65536, 65537])
            .collect()
    } else {
        (1..=18)
            .chain([23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257])
            .chain([511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 4097, 65537])
            .collect()
    }
}

/// References with percent-encoded characters cut short, overlong, out of range or private in every
/// component, up to its end and followed by other characters.
pub fn triplet_refs(deep: bool, f: impl Fn(&str) + Sync) {
    triplets(deep, |x| {
        for (a, b) in [
            ("s:", ""), ("s://", ""), ("s://u:", "@h"), ("//a@", ":"), ("/a/", "/.."), ("?", ""), ("s:?", "#"), ("#", ""), ("a", "b"),
            ("s:/", "/x"), ("s://H", "h:1"),
        ] {
            f(&format!("{a}{x}{b}"));
        }
    });
}

/// Sequences of percent-encoded bytes around every boundary of UTF-8.
pub fn triplets(deep: bool, f: impl Fn(&str) + Sync) {
    let lead: &[u8] = if deep {
        &[0x00, 0x2e, 0x41, 0x7f, 0x80, 0xc0, 0xc2, 0xc3, 0xe0, 0xe3, 0xed, 0xee, 0xef, 0xf0, 0xf3, 0xf4, 0xf5, 0xff]
    } else {
        &[0x2e, 0x41, 0x80, 0xc3, 0xe3, 0xee, 0xf0, 0xff]
    };
    let follow: &[u8] = if deep { &[0x41, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc3] } else { &[0x41, 0x81, 0x9f, 0xc3] };
    let k = follow.len() + 1;
    crate::report::par(lead.len() * k * k * k, |mut i| {
        let mut x = format!("%{:02X}", lead[i % lead.len()]);
        i /= lead.len();
        let mut ended = false;
        for _ in 0..3 {
            if i % k > 0 {
                // Every sequence once.
                if ended {
                    return;
                }
                x += &format!("%{:02x}", follow[i % k - 1]);
            } else {
                ended = true;
            }
            i /= k;
        }
        f(&x);
    });
}

/// Texts, valid or not, of every kind of host.
pub fn host_texts(thorough: bool) -> Vec<String> {
    let mut v = Vec::new();
    // Every octet value in every place, with and without leading zeros.
    for place in 0..4 {
        for n in (0..=1001).map(|n| n.to_string()).chain((0..=256).flat_map(|n| [format!("0{n}"), format!("00{n}")])) {
            let mut o = ["1", "22", "0", "255"].map(String::from);
            o[place] = n;
            v.push(o.join("."));
        }
    }
    for n in 0..6 {
        v.push(vec!["1"; n].join("."));
        v.push(format!("{}.", vec!["25"; n].join(".")));
        v.push(format!(".{}", vec!["25"; n].join(".")));
    }
    // Every IPv6 shape: groups before and after the gap, and an IPv4 tail.
    for a in 0..9 {
        for b in 0..9 {
            for v4 in ["", "1.2.3.4", "1.2.3.256"] {
                for gap in ["::", ":"] {
                    let (x, y) = (vec!["1"; a].join(":"), vec!["Ab0"; b].join(":"));
                    let sep = if b > 0 && !v4.is_empty() { ":" } else { "" };
                    v.push(format!("[{x}{gap}{y}{sep}{v4}]"));
                }
            }
        }
    }
    v.extend(collect(&["[", "]", ":", "v", "1", ".", "a"], if thorough { 7 } else { 5 }));
    let extra = collect(&["a", "%41", "%c3", "%", "\u{E9}", "!", "@", "/", "1", ".", "\u{E000}", " "], if thorough { 5 } else { 3 });
    v.extend(extra);
    v.sort();
    v.dedup();
    v
}
