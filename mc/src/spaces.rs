//! Input spaces for resolution and normalization (C05-C08).
use crate::en::{collect, product, strings};
use crate::gens::{authorities, paths};
use crate::grammar::{valid, K};
use crate::report::{par, Ctx};

/// Segment names by position, so that a wrong segment cannot go unnoticed.
pub const NAMES: &[&str] = &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p"];

/// Every sequence of `n` segments drawn from an ordinary name, the empty segment and the given
/// dot segments, joined by slashes.
pub fn segment_paths(n: usize, dots: &[&str], f: impl Fn(&[&str]) + Sync) {
    let k = dots.len() + 2;
    product(&vec![k; n], |idx| {
        let segs: Vec<&str> = idx
            .iter()
            .enumerate()
            .map(|(i, &c)| match c {
                0 => NAMES[i % NAMES.len()],
                1 => "",
                c => dots[c - 2],
            })
            .collect();
        f(&segs);
    });
}

/// Every spelling of a dot segment, and segments that nearly are one.
pub const DOTTY: &[&str] = &[
    ".", "..", "%2e", "%2E", ".%2e", ".%2E", "%2e.", "%2E.", "%2e%2e", "%2e%2E", "%2E%2e", "%2E%2E", "...", "%2e..", "..%2E", "%2e%2e%2E",
    ".a", "a.", "..a", "%2f", "%2e%2f", ".%2", "%2e%2d", "%2d", "%2f.", "%20%2e", "%2ea", "\u{E9}.", ".\u{E9}", "%2e:", "~", "", "a",
];

/// Pairs (base, reference).
pub fn pairs(ctx: &Ctx, f: &(dyn Fn(&str, &str) + Sync)) {
    let thorough = ctx.thorough;
    ctx.phase("component products", || {
        let bp = paths(&["/", "b", "..", "c:d"], if thorough { 4 } else { 3 }, true);
        let mut bases = Vec::new();
        for s in ["s", "B1"] {
            for a in authorities(&[None, Some("u:p")], &["", "H", "[::1]"], &[None, Some("")]) {
                for p in &bp {
                    for q in [None, Some(""), Some("q/..")] {
                        let t = crate::rfc::recompose(Some(s), a.as_deref(), p, q, None);
                        if valid(K::AbsIri, true, &t) {
                            bases.push(t);
                        }
                    }
                }
            }
        }
        let mut refs = Vec::new();
        for s in [None, Some("s"), Some("t")] {
            for a in [None, Some(""), Some("g"), Some("u@G:")] {
                for p in &paths(&["/", "r", ".", "..", "\u{E9}:"], if thorough { 3 } else { 2 }, true) {
                    for q in [None, Some(""), Some("y")] {
                        for fr in [None, Some(""), Some("f")] {
                            let t = crate::rfc::recompose(s, a, p, q, fr);
                            if valid(K::IriRef, true, &t) {
                                refs.push(t);
                            }
                        }
                    }
                }
            }
        }
        bases.sort();
        bases.dedup();
        refs.sort();
        refs.dedup();
        let bases: Vec<_> = if thorough { bases } else { bases.into_iter().enumerate().filter(|(i, _)| i % 3 != 1).map(|(_, b)| b).collect() };
        par(bases.len(), |i| refs.iter().for_each(|r| f(&bases[i], r)));
    });
    ctx.phase("path pairs", || {
        let bases = collect(&["/", "a", "..", "."], if thorough { 6 } else { 4 });
        let tails = collect(&["/", "x", ".", "%2e"], if thorough { 6 } else { 5 });
        par(bases.len() * 2, |i| {
            let b = format!("{}{}", ["s:", "s://"][i % 2], bases[i / 2]);
            if valid(K::AbsIri, false, &b) {
                for r in &tails {
                    if valid(K::IriRef, false, r) {
                        f(&b, r);
                    }
                }
            }
        });
    });
    ctx.phase("merged segment sequences", || {
        let total = if thorough { 10 } else { 8 };
        for n in 2..=total {
            segment_paths(n, &["..", "."], |segs| {
                for cut in 0..n {
                    let (b, r) = segs.split_at(cut);
                    let r = r.join("/");
                    if !valid(K::IriRef, false, &r) || r.starts_with('/') {
                        continue;
                    }
                    for pre in ["s:", "s:/", "s://h/"] {
                        let mut base = format!("{pre}{}", b.join("/"));
                        if cut > 0 {
                            base.push_str("/z");
                        }
                        if valid(K::AbsIri, false, &base) {
                            f(&base, &r);
                        }
                    }
                }
            });
        }
    });
    ctx.phase("long merged sequences", || {
        // Beyond the queue length of the dot segment remover on both sides.
        let (lo, hi) = if thorough { (11, 13) } else { (9, 11) };
        for n in lo..=hi {
            product(&vec![2; n], |idx| {
                let segs: Vec<&str> = idx.iter().enumerate().map(|(i, &c)| if c == 0 { NAMES[i % 16] } else { ".." }).collect();
                for cut in [0, 1, n / 2, n - 1] {
                    let (b, r) = segs.split_at(cut);
                    for pre in ["s:", "s:/", "s://h/"] {
                        let mut base = format!("{pre}{}", b.join("/"));
                        if cut > 0 {
                            base.push_str("/z");
                        }
                        for tail in ["", "/", "//y", "/./"] {
                            f(&base, &format!("{}{tail}", r.join("/")));
                        }
                    }
                }
            });
        }
    });
    ctx.phase("long paths", || {
        const N: &[usize] = &[0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 513];
        let n: Vec<usize> = N.iter().copied().chain(if thorough { vec![1000, 1023, 1024, 1025] } else { vec![] }).collect();
        par(n.len() * n.len(), |j| {
            let (a, b) = (n[j / n.len()], n[j % n.len()]);
            if !thorough && a > 130 && b > 130 && a != b && a != b + 1 {
                return;
            }
            for u in ["a/", "/", "./", "../", "%2e/", "a/../", "\u{E9}/"] {
                for v in ["../", "%2E./", "./", "a/", "/", "b/.%2e/"] {
                    let r = v.repeat(b);
                    for pre in ["s:/", "s://h/", "s:a/"] {
                        for tail in ["", "z", "..", "z?q#f"] {
                            f(&format!("{pre}{}{}", u.repeat(a), "w?b"), &format!("{r}{tail}"));
                        }
                    }
                }
            }
        });
        let longs: &[usize] = if thorough { &[1023, 1024, 1025, 4097, 65537] } else { &[300, 1025, 4097, 65537] };
        par(longs.len(), |j| {
            for u in ["a", "\u{E9}", "%41", "%2e"] {
                let x = u.repeat(longs[j]);
                let sc = "a".repeat(longs[j]);
                for b in ["s:".to_string(), format!("s:/{x}"), format!("s://{x}"), format!("s://h/a/{x}"), format!("s://h/{x}/b?{x}"), format!("{sc}:/a/b")] {
                    for r in ["", "?", "#f", "x", "../x", "//h", "/x", "?q"] {
                        f(&b, r);
                        f(&b, &format!("{r}{x}"));
                        f(&b, &format!("./{x}/{r}"));
                    }
                }
            }
        });
    });
    ctx.phase("dot segment spellings", || {
        par(DOTTY.len() * DOTTY.len(), |i| {
            let (x, y) = (DOTTY[i / DOTTY.len()], DOTTY[i % DOTTY.len()]);
            for z in ["", "..", "%2E", "q", "/"] {
                for base in ["s:", "s:a/b/c", "s:/a/b/c", "s://h", "s://h/a/b/c", "s:/%2E/b/%2e%2e/c/", "s:%2e/%2E./c/d"] {
                    for r in [format!("{x}/{y}/{z}"), format!("/{x}/{y}/{z}"), format!("{x}/{y}"), x.to_string(), format!("s:{x}/{y}/{z}"), format!("//g/{x}/{y}")] {
                        if valid(K::IriRef, true, &r) {
                            f(base, &r);
                        }
                    }
                }
            }
        });
    });
}

/// Absolute IRIs whose paths exercise dot segment removal.
pub fn dotted(thorough: bool, f: &(dyn Fn(&str) + Sync)) {
    let max = if thorough { 10 } else { 8 };
    for n in 1..=max {
        segment_paths(n, &["..", "."], |segs| {
            let p = segs.join("/");
            for pre in ["s:", "s:/", "s://h/"] {
                let t = format!("{pre}{p}");
                if valid(K::Iri, false, &t) {
                    f(&t);
                }
            }
        });
    }
    let (lo, hi) = if thorough { (11, 16) } else { (9, 13) };
    for n in lo..=hi {
        product(&vec![2; n], |idx| {
            let segs: Vec<&str> = idx.iter().enumerate().map(|(i, &c)| if c == 0 { NAMES[i % 16] } else { ".." }).collect();
            let p = segs.join("/");
            for pre in ["s:", "s:/", "s://h/"] {
                for tail in ["", "/", "//y", "/./"] {
                    f(&format!("{pre}{p}{tail}"));
                }
            }
        });
    }
    par(DOTTY.len() * DOTTY.len(), |i| {
        let (x, y) = (DOTTY[i / DOTTY.len()], DOTTY[i % DOTTY.len()]);
        for z in DOTTY {
            for pre in ["s:", "s:/", "s:a/b/", "s://h/", "s:/../%2e/"] {
                let t = format!("{pre}{x}/{y}/{z}");
                if valid(K::Iri, true, &t) {
                    f(&t);
                }
            }
        }
    });
    strings(&["/", "a", ".", "%2E", "..", ":"], if thorough { 9 } else { 7 }, |p| {
        for pre in ["s:", "s://h"] {
            let t = format!("{pre}{p}");
            if valid(K::Iri, false, &t) {
                f(&t);
            }
        }
    });
}

/// Paths with many segments and dot segments, behind each of the given beginnings.
pub fn long_dotted(thorough: bool, pres: &[&str], f: &(dyn Fn(&str) + Sync)) {
    let lens: Vec<usize> = crate::gens::lens(thorough).into_iter().filter(|&n| n <= if thorough { 1030 } else { 520 }).collect();
    let ups = ["a/", "/", "./", "\u{E9}/", "%2e/", "b//", "../"];
    par(lens.len() * ups.len(), |j| {
        let (n, up) = (lens[j / ups.len()], ups[j % ups.len()]);
        for m in [0, 1, n - 1, n, n + 1, 2 * n] {
            for down in ["../", "%2E./"] {
                let body = up.repeat(n) + &down.repeat(m);
                for tail in ["", "/", "/x", "//x", "x", "..", "./", "?q#f"] {
                    for pre in pres {
                        f(&format!("{pre}{body}{tail}"));
                    }
                }
            }
        }
    });
}

/// Absolute IRIs exercising every rule of syntax-based normalization.
pub fn normal(ctx: &Ctx, f: &(dyn Fn(&str) + Sync)) {
    let thorough = ctx.thorough;
    let iri = |t: &str| {
        if valid(K::Iri, true, t) {
            f(t)
        }
    };
    // Places a component value can be put into.
    let slots: &[(&str, &str)] = &[
        ("s:", ""), ("s:/", ""), ("s:/a/", "/.."), ("s://", ""), ("s://u@", ""), ("s://", "@h"), ("s://u:", "@h"), ("s://h", ":80"), ("s://", ":"),
        ("s:?", ""), ("s:#", ""), ("s://h/", "?#"), ("s:a", ""), ("s://[v1.", "]"),
    ];
    ctx.phase("component products", || {
        let mut refs = crate::gens::full_refs(if thorough { 2 } else { 1 });
        refs.schemes = vec![Some("s"), Some("A1+-.")];
        refs.each(|s| iri(s));
    });
    ctx.phase("dot segments", || dotted(thorough, f));
    ctx.phase("many segments", || long_dotted(thorough, &["s:", "s:/", "s://h/", "s:a/"], &iri));
    ctx.phase("one triplet", || {
        // Every byte, both hex cases per digit, in every slot, with neighbours.
        product(&[256, 4, slots.len(), 6], |i| {
            let (b, case, (pre, post), n) = (i[0], i[1], slots[i[2]], i[3]);
            let hi = format!("{:x}", b >> 4);
            let lo = format!("{:x}", b & 15);
            let hi = if case & 1 == 1 { hi.to_uppercase() } else { hi };
            let lo = if case & 2 == 2 { lo.to_uppercase() } else { lo };
            let t = format!("%{hi}{lo}");
            let v = match n {
                0 => t,
                1 => format!("A{t}"),
                2 => format!("{t}Z"),
                3 => format!("{t}{t}"),
                4 => format!("\u{E9}{t}A"),
                _ => format!("{t}%5B{t}"),
            };
            iri(&format!("{pre}{v}{post}"));
        });
    });
    ctx.phase("every character, plain and encoded", || {
        let step = 0x110000 / 64;
        par(64, |k| {
            for cp in k * step..(k + 1) * step {
                let Some(c) = char::from_u32(cp as u32) else { continue };
                let enc: String = c.encode_utf8(&mut [0; 4]).bytes().map(|b| format!("%{b:02X}")).collect();
                let few = if thorough { slots } else { &[("s:", ""), ("s://", ":1"), ("s:?", ""), ("s:#", ""), ("s://", "@h")][..] };
                for (pre, post) in few {
                    iri(&format!("{pre}{enc}{post}"));
                    iri(&format!("{pre}{c}{post}"));
                    if thorough || c.is_ascii() || pre.ends_with('/') {
                        iri(&format!("{pre}{}{post}", enc.to_lowercase()));
                        iri(&format!("{pre}B{c}B{post}"));
                    }
                }
                if !thorough && c.is_ascii() {
                    for (pre, post) in slots {
                        iri(&format!("{pre}{c}{post}"));
                    }
                }
            }
        });
    });
    ctx.phase("triplet sequences", || {
        // Every lead byte with continuation bytes around every boundary.
        let follow: &[u8] = &[0x00, 0x41, 0x2E, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC3, 0xE3, 0xF0, 0xFF];
        let k = follow.len() + 1;
        let m = if thorough { k } else { 1 };
        product(&[256, k, k, k, m], |i| {
            let mut t = format!("%{:02X}", i[0]);
            for &j in &i[1..] {
                if j > 0 {
                    t.push_str(&format!("%{:02x}", follow[j - 1]));
                }
            }
            for (pre, post) in &[("s:", ""), ("s://X", "x"), ("s:", "%41"), ("s://", "")][..if thorough { 4 } else { 2 }] {
                iri(&format!("{pre}{t}{post}"));
            }
        });
    });
    ctx.phase("token strings", || {
        let t: &[&str] = &["A", "%41", "%2f", "%c3", "%A9", "%E3%81", "%82", "\u{E9}", "%F0%9f%98", "%80", "%7e", "%zz"];
        let max = if thorough { 6 } else { 4 };
        strings(&t[..11], max, |x| {
            for (pre, post) in slots {
                iri(&format!("{pre}{x}{post}"));
            }
        });
    });
    ctx.phase("hosts and ports", || {
        let t: &[&str] = &["H", "a", ".", "1", "%4a", "%c3%a9", "\u{C9}", "%2E", "@", ":", "%C3"];
        strings(t, if thorough { 7 } else { 6 }, |x| {
            for pre in ["s://", "S2://U%75:"] {
                iri(&format!("{pre}{x}"));
            }
        });
    });
    ctx.phase("bracketed hosts", || {
        let t: &[&str] = &["A", "f", "1", ":", "::", ".", "v", "V", "1.2.3.4"];
        strings(t, if thorough { 8 } else { 6 }, |x| {
            if valid(K::Host, true, &format!("[{x}]")) {
                for (pre, post) in [("s://[", "]"), ("s://U@[", "]:80"), ("s://[", "]:/A")] {
                    iri(&format!("{pre}{x}{post}"));
                }
            }
        });
    });
    ctx.phase("long components", || {
        let lens = crate::gens::lens(thorough);
        crate::gens::long_refs(&lens, |s| iri(s));
    });
}

/// Characters to be put into texts. Level 0: ASCII, Latin-1, both ends of every range the grammars
/// and UTF-8 tell apart, a character for each lead byte and for each last byte, and all those that
/// Unicode calls space, that change the case or the length with it, or look like a delimiter. Level 1: further,
/// every character of at most two bytes and three of each group sharing all but the last byte.
/// Level 2: every character.
pub fn chars(level: u8) -> Vec<char> {
    let mut v: Vec<u32> = (0..0x100).collect();
    v.extend([0x7FF, 0x800, 0xD7FF, 0xE000, 0xF8FF, 0xF900, 0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0xFFEF, 0xFFF0, 0xFFFD, 0xE0FFF, 0xE1000, 0x2028, 0x200E, 0xFEFF]);
    for plane in 0..=0x10 {
        v.extend([plane << 16, (plane << 16) + 0xFFFD, (plane << 16) + 0xFFFE, (plane << 16) + 0xFFFF]);
    }
    v.extend((0x2000..=0x206F).chain(0xFF01..=0xFF21).chain(0xFB00..=0xFB06));
    v.extend([0x130, 0x131, 0x149, 0x17F, 0x1C5, 0x1F0, 0x390, 0x3A3, 0x3C2, 0x587, 0x1E9E, 0x1FFC, 0x212A, 0x212B, 0x23A, 0x23E]);
    v.extend([0x1680, 0x180E, 0x3000, 0x3002, 0xFF41, 0xFF61, 0x300, 0x301, 0x660, 0x966, 0x2160, 0x2460, 0x2215, 0x2236, 0x29F8, 0xFE52]);
    v.extend([0xAC00, 0x1100, 0x4E00, 0x9FFF, 0x10400, 0x1D400, 0x1D7CE, 0x1F600, 0x1F1E6]);
    v.extend((0..32).map(|k| k << 6 | 0x29));
    v.extend((0..16).map(|k| k << 12 | 0x829));
    v.extend((0..17).map(|k| k << 16 | 0x829));
    v.extend((0..64).map(|k| 0x3040 | k));
    if level > 0 {
        v.extend(0..0x800);
        v.extend((0x20..0x110000 / 64).flat_map(|k| [k * 64, k * 64 + 0x2A, k * 64 + 63]));
    }
    if level > 1 {
        v = (0..0x110000).collect();
    }
    v.sort_unstable();
    v.dedup();
    v.into_iter().filter_map(char::from_u32).collect()
}

/// Each of those characters in every component of a reference, alone and with neighbours; only
/// valid IRI references are passed on.
pub fn each_char(level: u8, f: &(dyn Fn(&str) + Sync)) {
    let chars = chars(level);
    par(64, |k| {
        for &c in chars.iter().skip(k).step_by(64) {
            for t in [
                format!("{c}"),
                format!("//{c}"),
                format!("//{c}@h"),
                format!("//u:{c}@h:1/a"),
                format!("//h{c}h:1"),
                format!("s:{c}"),
                format!("s:/a/../{c}//b"),
                format!("s://u{c}:p{c}p@h{c}:80/{c}a/../b{c}?{c}%C3#{c}"),
                format!("s://@{c}:?{c}#x{c}"),
                format!("?{c}"),
                format!("#{c}"),
            ] {
                if valid(K::IriRef, true, &t) {
                    f(&t);
                }
            }
        }
    });
}
