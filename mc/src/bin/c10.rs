//! C10: percent-decoding.

use iri_string::percent_encode::decode::{decode_whatwg_bytes, DecodedFragment};
use mc::report::{hash, par, run, Ctx};
use mc::rfc::{decode, triplet};
use std::borrow::Cow;

type R = Result<(), String>;

/// Byte strings are recorded as hexadecimal.
fn to_hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn from_hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn verify(b: &[u8]) -> R {
    let want = decode(b);
    let d = decode_whatwg_bytes(b);
    let err = |what: &str, got: &[u8]| Err(format!("{what} of {:?}: {:?}, expected {:?}", String::from_utf8_lossy(b), String::from_utf8_lossy(got), String::from_utf8_lossy(&want)));
    if d.not_yet_decoded() != b {
        return err("not_yet_decoded", d.not_yet_decoded());
    }
    let got = d.into_bytes();
    if *got != want[..] {
        return err("into_bytes", &got);
    }
    let plain = (0..b.len()).all(|i| triplet(&b[i..]).is_none());
    match d.to_bytes() {
        Some(x) if plain && x == b && x.as_ptr() == b.as_ptr() => {}
        None if !plain => {}
        x => return Err(format!("to_bytes of {:?}: {x:?}", String::from_utf8_lossy(b))),
    }
    if matches!(got, Cow::Borrowed(_)) != plain {
        return Err(format!("into_bytes of {:?} is {} although decoding is{} needed", String::from_utf8_lossy(b), if plain { "owned" } else { "borrowed" }, if plain { " not" } else { "" }));
    }
    match (d.into_string(), String::from_utf8(want.clone())) {
        (Ok(x), Ok(y)) if x == y => {}
        (Err(x), Err(y)) if x == y => {}
        (x, y) => return Err(format!("into_string of {:?}: {x:?}, expected {y:?}", String::from_utf8_lossy(b))),
    }
    // The fragments and the remaining input partition the source.
    let mut it = d.bytes_fragments();
    let mut pos = 0;
    let mut out = Vec::new();
    loop {
        if it.not_yet_decoded() != &b[pos..] {
            return err("fragments: remaining input", it.not_yet_decoded());
        }
        let again = it.clone();
        let Some(f) = it.next() else { break };
        if again.clone().next() != Some(f) {
            return Err("a cloned iterator disagrees".into());
        }
        match f {
            DecodedFragment::Direct(x) => {
                if x.is_empty() || x.contains(&b'%') || !b[pos..].starts_with(x) {
                    return err("direct fragment", x);
                }
                pos += x.len();
                out.extend_from_slice(x);
            }
            DecodedFragment::DecodedByte(x) => {
                if triplet(&b[pos..]) != Some(x) {
                    return err("decoded byte", &[x]);
                }
                pos += 3;
                out.push(x);
            }
            DecodedFragment::StrayPercent => {
                if b[pos] != b'%' || triplet(&b[pos..]).is_some() {
                    return err("stray percent", b"%");
                }
                pos += 1;
                out.push(b'%');
            }
        }
    }
    if pos != b.len() || out != want {
        return err("fragments", &out);
    }
    if it.next().is_some() {
        return Err("the iterator continues after its end".into());
    }
    Ok(())
}

fn check(ctx: &Ctx, b: &[u8]) {
    ctx.case(&[&to_hex(b)], || verify(b));
    let o = decode(b);
    if o != b {
        ctx.nontrivial(hash(&to_hex(b)));
    }
    ctx.outcome(hash(&to_hex(&o)));
}

fn words(alphabet: &[u8], max: usize, f: impl Fn(&[u8]) + Sync) {
    let n = alphabet.len();
    for len in 0..=max {
        let total = n.pow(len as u32);
        par(total.div_ceil(4096), |c| {
            let mut w = vec![0; len];
            for k in c * 4096..((c + 1) * 4096).min(total) {
                let mut q = k;
                for x in &mut w {
                    *x = alphabet[q % n];
                    q /= n;
                }
                f(&w);
            }
        });
    }
}

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one byte string decoded in all forms; nontrivial = decoding changes it");
    ctx.phase("all short byte strings", || {
        let all: Vec<u8> = (0..=255).collect();
        words(&all, if ctx.thorough { 3 } else { 2 }, |w| check(ctx, w));
    });
    ctx.phase("all pairs of bytes after a percent sign", || {
        par(65536, |k| {
            let (x, y) = ((k >> 8) as u8, k as u8);
            check(ctx, &[b'%', x, y]);
            check(ctx, &[b'a', b'%', x, y, b'z']);
            check(ctx, &[b'%', b'4', b'1', b'%', x, y]);
            check(ctx, &[b'%', b'%', x, y, b'%', b'4', b'1']);
        });
    });
    ctx.phase("words over percent signs and digits", || {
        words(b"%4aG", if ctx.thorough { 11 } else { 9 }, |w| check(ctx, w));
        words(b"%2F\xC3x", if ctx.thorough { 9 } else { 7 }, |w| check(ctx, w));
    });
    ctx.phase("decoded text validity", || {
        // Triplets forming every UTF-8 boundary case.
        let bytes: &[u8] = &[0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC1, 0xC2, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5];
        words(bytes, if ctx.thorough { 5 } else { 4 }, |w| {
            let t: String = w.iter().map(|b| format!("%{b:02x}")).collect();
            check(ctx, t.as_bytes());
            check(ctx, format!("{t}%").as_bytes());
        });
    });
    ctx.phase("long strings", || {
        for n in 0..if ctx.thorough { 700 } else { 300 } {
            for u in [&b"a"[..], b"%", b"%4", b"%41", b"a%", b"%a%41", b"\xFF"] {
                let w = u.repeat(n);
                check(ctx, &w);
                check(ctx, &[&w[..], b"%41"].concat());
                check(ctx, &[&w[..], b"%4"].concat());
            }
        }
    });
    ctx.phase("bytes after a percent sign, inside runs", || {
        let ns: &[usize] = if ctx.thorough { &[1, 2, 3, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 128] } else { &[1, 6, 7, 8, 15, 16, 31, 32] };
        par(65536, |k| {
            let (x, y) = ((k >> 8) as u8, k as u8);
            let near = |b: u8| b.is_ascii_hexdigit() || b"%/:@G`gz\x00\x7f\x80\xb0\xc1\xff".contains(&b);
            if !near(x) || !near(y) {
                return;
            }
            for u in [&b"a"[..], b"%", b"%4", b"%41", b"%zz", b"\xe3\x81\x82"] {
                for &a in ns {
                    for b in [0, 1, 2, 8, 17] {
                        check(ctx, &[&u.repeat(a)[..], &[b'%', x, y], &u.repeat(b)[..]].concat());
                    }
                }
            }
        });
    });
    ctx.phase("up to three triplets at any place", || {
        let max = if ctx.thorough { 48 } else { 24 };
        par(max * max, |k| {
            let (a, b) = (k / max, k % max);
            for c in (0..max).step_by(if ctx.thorough { 1 } else { 3 }) {
                for (t, u) in [("%41", "x"), ("%", "4"), ("%e3", "%"), ("%81", "a"), ("%4", "1")] {
                    check(ctx, [&u.repeat(a), t, &u.repeat(b), t, &u.repeat(c), t].concat().as_bytes());
                    check(ctx, [&u.repeat(a), t, &u.repeat(b), "%c3", &u.repeat(c)].concat().as_bytes());
                }
            }
        });
    });
}

fn replay(_: &Ctx, c: &[String]) -> R {
    verify(&from_hex(&c[0]))
}

fn main() {
    run("C10", "exploration", explore, replay)
}
