//! C22: comparison, hashing, ordering, copying and serialization follow the text.
//!
//! Oracle: the same operation on the underlying `str`. Enumerated: all ordered pairs of texts of a
//! set closed under the interesting relations (prefixes, case and percent-encoding variants,
//! delimiters around the ASCII letters, multi-byte characters), for every pair of types with a
//! comparison and every combination of specs; every text for copying, look-ups, parsing and
//! serialization, and every text of the bounded spaces, valid or not, for deserialization.

use std::borrow::{Borrow, Cow};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::Arc;

use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;
use mc::grammar::{valid, K};
use mc::report::{hash, par, run, Ctx};

type R = Result<(), String>;

/// Records exactly what is fed to a hasher.
#[derive(Default, PartialEq, Debug)]
struct Rec(Vec<Vec<u8>>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.to_vec());
    }
}
fn recorded<T: Hash + ?Sized>(t: &T) -> (Rec, u64) {
    let mut r = Rec::default();
    t.hash(&mut r);
    let mut d = DefaultHasher::new();
    t.hash(&mut d);
    (r, d.finish())
}

fn cmp<A: PartialOrd<B> + ?Sized, B: PartialOrd<A> + ?Sized>(n: &str, a: &A, b: &B, want: Ordering) -> R {
    let back = want.reverse();
    let ok = (a == b) == want.is_eq()
        && (a != b) == want.is_ne()
        && (b == a) == want.is_eq()
        && (b != a) == want.is_ne()
        && a.partial_cmp(b) == Some(want)
        && b.partial_cmp(a) == Some(back)
        && (a < b) == want.is_lt()
        && (a <= b) == want.is_le()
        && (a > b) == want.is_gt()
        && (a >= b) == want.is_ge()
        && (b < a) == back.is_lt()
        && (b <= a) == back.is_le()
        && (b > a) == back.is_gt()
        && (b >= a) == back.is_ge();
    if ok {
        return Ok(());
    }
    Err(format!("{n}: equality {}/{}, order {:?}/{:?}, expected {want:?} like the texts", a == b, b == a, a.partial_cmp(b), b.partial_cmp(a)))
}
fn total<A: Ord + ?Sized>(n: &str, a: &A, b: &A, want: Ordering) -> R {
    if a.cmp(b) != want || b.cmp(a) != want.reverse() {
        return Err(format!("{n}: total order {:?}, expected {want:?}", a.cmp(b)));
    }
    Ok(())
}

/// The owned and copy-on-write forms of a text under one type.
macro_rules! form {
    ($name:ident, $slice:ident, $owned:ident) => {
        struct $name<S: Spec + 'static> {
            o: $owned<S>,
            b: Cow<'static, $slice<S>>,
        }
        impl<S: Spec + 'static> $name<S> {
            fn new(s: &'static str) -> Option<Self> {
                Some(Self { o: $owned::<S>::try_from(s).ok()?, b: Cow::Borrowed($slice::<S>::new(s).ok()?) })
            }
        }
    };
}
form!(Reference, RiReferenceStr, RiReferenceString);
form!(Normal, RiStr, RiString);
form!(Absolute, RiAbsoluteStr, RiAbsoluteString);
form!(Relative, RiRelativeStr, RiRelativeString);
form!(Query, RiQueryStr, RiQueryString);
form!(Fragment, RiFragmentStr, RiFragmentString);

struct Forms<S: Spec + 'static> {
    re: Option<Reference<S>>,
    no: Option<Normal<S>>,
    ab: Option<Absolute<S>>,
    rl: Option<Relative<S>>,
    qu: Option<Query<S>>,
    fr: Option<Fragment<S>>,
}
impl<S: Spec + 'static> Forms<S> {
    fn new(s: &'static str) -> Self {
        Forms { re: Reference::new(s), no: Normal::new(s), ab: Absolute::new(s), rl: Relative::new(s), qu: Query::new(s), fr: Fragment::new(s) }
    }
}
struct Text {
    s: &'static str,
    string: String,
    cow: Cow<'static, str>,
    cow_owned: Cow<'static, str>,
    iri: Forms<IriSpec>,
    uri: Forms<UriSpec>,
    t: Option<(UriTemplateString, &'static UriTemplateStr)>,
}
impl Text {
    fn new(s: &'static str) -> Self {
        Text {
            s,
            string: s.into(),
            cow: Cow::Borrowed(s),
            cow_owned: Cow::Owned(s.into()),
            iri: Forms::new(s),
            uri: Forms::new(s),
            t: UriTemplateStr::new(s).ok().map(|t| (t.to_owned(), t)),
        }
    }
}

/// Comparisons with plain text.
macro_rules! plain {
    ($x:expr, $slice:ident, $y:expr, $want:expr, $n:expr) => {{
        let (x, y) = (&$x, $y);
        let (o, b): (&_, &_) = (&x.o, &*x.b);
        let n = concat!($n, " and text");
        cmp(n, b, y.s, $want)?;
        cmp(n, b, &y.s, $want)?;
        cmp(n, &b, y.s, $want)?;
        cmp(n, b, &y.cow, $want)?;
        cmp(n, &b, &y.cow_owned, $want)?;
        cmp(n, o, y.s, $want)?;
        cmp(n, o, &y.s, $want)?;
        cmp(n, o, &y.cow, $want)?;
        cmp(n, o, &y.cow_owned, $want)?;
        cmp(n, o, &y.string, $want)?;
    }};
}
/// Comparisons within a type, possibly across specs.
macro_rules! same {
    ($x:expr, $y:expr, $want:expr, $n:expr) => {{
        let (x, y) = (&$x, &$y);
        let (o, b) = (&x.o, &*x.b);
        let (p, c) = (&y.o, &*y.b);
        cmp($n, o, p, $want)?;
        cmp($n, &b, c, $want)?;
        cmp($n, b, p, $want)?;
        cmp($n, &b, p, $want)?;
        cmp($n, &b, &y.b, $want)?;
        cmp($n, &x.b, p, $want)?;
    }};
}
/// Comparisons between two types, possibly across specs.
macro_rules! cross {
    ($x:expr, $y:expr, $want:expr, $n:expr) => {{
        let (x, y) = (&$x, &$y);
        let (o, b) = (&x.o, &*x.b);
        let (p, c) = (&y.o, &*y.b);
        cmp($n, b, c, $want)?;
        cmp($n, &b, c, $want)?;
        cmp($n, b, &c, $want)?;
        cmp($n, b, &y.b, $want)?;
        cmp($n, &b, &y.b, $want)?;
        cmp($n, &x.b, c, $want)?;
        cmp($n, &x.b, &c, $want)?;
        cmp($n, b, p, $want)?;
        cmp($n, &b, p, $want)?;
        cmp($n, &x.b, p, $want)?;
        cmp($n, o, c, $want)?;
        cmp($n, o, &c, $want)?;
        cmp($n, o, &y.b, $want)?;
        cmp($n, o, p, $want)?;
    }};
}
macro_rules! both {
    ($m:ident, $x:expr, $y:expr, $want:expr, $n:expr) => {
        if let (Some(x), Some(y)) = (&$x, &$y) {
            $m!(*x, *y, $want, $n)
        }
    };
}

fn forms<S: Spec + 'static, T: Spec + 'static>(x: &Forms<S>, y: &Forms<T>, w: Ordering) -> R {
    both!(same, x.re, y.re, w, "references");
    both!(same, x.no, y.no, w, "IRIs");
    both!(same, x.ab, y.ab, w, "absolute IRIs");
    both!(same, x.rl, y.rl, w, "relative references");
    both!(same, x.qu, y.qu, w, "queries");
    both!(same, x.fr, y.fr, w, "fragments");
    both!(cross, x.ab, y.no, w, "absolute IRI and IRI");
    both!(cross, x.ab, y.re, w, "absolute IRI and reference");
    both!(cross, x.no, y.re, w, "IRI and reference");
    both!(cross, x.rl, y.re, w, "relative reference and reference");
    Ok(())
}

/// Comparisons within a type and spec, and with plain text.
fn one<S: Spec + 'static>(x: &Forms<S>, z: &Forms<S>, y: &Text, w: Ordering) -> R {
    macro_rules! each {
        ($($f:ident $slice:ident $n:expr),*) => {$(
            if let Some(x) = &x.$f {
                plain!(*x, $slice, y, w, $n);
                if let Some(z) = &z.$f {
                    cmp($n, &*x.b, &*z.b, w)?;
                    total($n, &*x.b, &*z.b, w)?;
                    total($n, &x.o, &z.o, w)?;
                    total($n, &x.b, &z.b, w)?;
                    if (recorded(&x.o) == recorded(&z.o)) != w.is_eq() {
                        return Err(format!("hash of {} does not follow equality", $n));
                    }
                }
            }
        )*};
    }
    each!(re RiReferenceStr "reference", no RiStr "IRI", ab RiAbsoluteStr "absolute IRI", rl RiRelativeStr "relative reference", qu RiQueryStr "query", fr RiFragmentStr "fragment");
    Ok(())
}

fn verify_pair(x: &Text, y: &Text) -> R {
    let w = x.s.cmp(y.s);
    forms(&x.iri, &y.iri, w)?;
    forms(&x.iri, &y.uri, w)?;
    forms(&x.uri, &y.iri, w)?;
    forms(&x.uri, &y.uri, w)?;
    one(&x.iri, &y.iri, y, w)?;
    one(&x.uri, &y.uri, y, w)?;
    if let Some((o, b)) = &x.t {
        let n = "template and text";
        cmp(n, *b, y.s, w)?;
        cmp(n, *b, &y.s, w)?;
        cmp(n, b, y.s, w)?;
        cmp(n, *b, &y.cow, w)?;
        cmp(n, b, &y.cow_owned, w)?;
        cmp(n, o, y.s, w)?;
        cmp(n, o, &y.s, w)?;
        cmp(n, o, &y.cow, w)?;
        cmp(n, o, &y.string, w)?;
        if let Some((p, c)) = &y.t {
            cmp("templates", o, p, w)?;
            cmp("templates", *b, *c, w)?;
            total("templates", o, p, w)?;
            total("templates", *b, *c, w)?;
            if (recorded(o) == recorded(p)) != w.is_eq() || (recorded(*b) == recorded(*c)) != w.is_eq() {
                return Err("hash of templates does not follow equality".into());
            }
        }
    }
    Ok(())
}

fn text(what: &str, got: &str, want: &str) -> R {
    if got != want {
        return Err(format!("{what}: {got:?}, expected {want:?}"));
    }
    Ok(())
}

/// Copies, views, hashes, parses and serializes one text as one type.
macro_rules! single {
    ($slice:ty, $owned:ty, $s:expr, $ok:expr) => {{
        let (s, ok): (&str, bool) = ($s, $ok);
        let n = stringify!($owned);
        // A text is deserialized exactly if it is valid.
        let json = serde_json::to_string(s).unwrap();
        let escaped: String = format!("\"{}\"", s.encode_utf16().map(|u| format!("\\u{u:04x}")).collect::<String>());
        let spaced = format!(" \n{json} ");
        let got: Vec<(&str, Option<String>)> = vec![
            ("from JSON", serde_json::from_str::<$owned>(&json).ok().map(String::from)),
            ("from escaped JSON", serde_json::from_str::<$owned>(&escaped).ok().map(String::from)),
            ("from JSON with spaces", serde_json::from_str::<$owned>(&spaced).ok().map(String::from)),
            ("from a JSON value", serde_json::from_value::<$owned>(serde_json::Value::String(s.into())).ok().map(String::from)),
            ("from a reader", serde_json::from_reader::<_, $owned>(json.as_bytes()).ok().map(String::from)),
            ("inside a list", serde_json::from_str::<Vec<$owned>>(&format!("[{json}]")).ok().map(|mut v| String::from(v.remove(0)))),
            ("as a key", serde_json::from_str::<HashMap<$owned, u8>>(&format!("{{{json}:1}}")).ok().map(|v| String::from(v.into_keys().next().unwrap()))),
            ("parsed", s.parse::<$owned>().ok().map(String::from)),
        ];
        for (how, g) in got {
            if g.as_deref() != ok.then_some(s) {
                return Err(format!("{n} {how}: {g:?}, construction accepts: {ok}"));
            }
        }
        // Borrowed values need text that can be borrowed.
        let plain = format!("\"{s}\"");
        if plain == json {
            let b: Option<&$slice> = serde_json::from_str(&json).ok();
            if b.map(|b| b.as_str()) != ok.then_some(s) {
                return Err(format!("{n} borrowed from JSON: {b:?}, construction accepts: {ok}"));
            }
            let list = format!("[{json}]");
            let b: Option<Vec<&$slice>> = serde_json::from_str(&list).ok();
            if b.is_some() != ok {
                return Err(format!("{n} list borrowed from JSON: {b:?}, construction accepts: {ok}"));
            }
        }
        if ok {
            let b = <$slice>::new(s).map_err(|e| format!("{n} rejects {s:?}: {e}"))?;
            let o = <$owned>::try_from(s).map_err(|e| format!("{n} rejects {s:?}: {e}"))?;
            text("serialized", &serde_json::to_string(&o).unwrap(), &json)?;
            text("borrowed serialized", &serde_json::to_string(b).unwrap(), &json)?;
            if serde_json::to_value(&o).unwrap() != serde_json::Value::String(s.into()) {
                return Err("serialized as something other than a string".into());
            }
            text("key serialized", &serde_json::to_string(&HashMap::from([(&o, 1)])).unwrap(), &format!("{{{json}:1}}"))?;
            text("displayed", &o.to_string(), s)?;
            text("borrowed displayed", &b.to_string(), s)?;
            text("displayed through a reference", &format!("<{}|{}>", &&o, &b), &format!("<{s}|{s}>"))?;
            text("as_str", o.as_str(), s)?;
            text("as slice", o.as_slice().as_str(), s)?;
            text("dereferenced", (*o).as_str(), s)?;
            text("as_ref", AsRef::<str>::as_ref(&o), s)?;
            text("borrowed as_ref", AsRef::<str>::as_ref(b), s)?;
            text("as_ref of its own type", AsRef::<$slice>::as_ref(&o).as_str(), s)?;
            text("as_ref of its own type", AsRef::<$slice>::as_ref(b).as_str(), s)?;
            text("borrow", Borrow::<str>::borrow(&o), s)?;
            text("borrow", Borrow::<$slice>::borrow(&o).as_str(), s)?;
            text("into str", <&str>::from(b), s)?;
            text("to_owned", b.to_owned().as_str(), s)?;
            text("owned from", <$owned>::from(b).as_str(), s)?;
            text("clone", o.clone().as_str(), s)?;
            text("into String", &String::from(o.clone()), s)?;
            text("into Box", Box::<$slice>::from(o.clone()).as_str(), s)?;
            text("into Box", Box::<$slice>::from(b).as_str(), s)?;
            text("into Rc", Rc::<$slice>::from(b).as_str(), s)?;
            text("into Arc", Arc::<$slice>::from(b).as_str(), s)?;
            text("into Cow", Cow::<$slice>::from(o.clone()).as_str(), s)?;
            text("into Cow", Cow::<$slice>::from(b).as_str(), s)?;
            text("out of Cow", Cow::<$slice>::from(b).into_owned().as_str(), s)?;
            text("from String", <$owned>::try_from(s.to_string()).map_err(|e| e.to_string())?.as_str(), s)?;
            text("from bytes", <$owned>::try_from(s.as_bytes()).map_err(|e| e.to_string())?.as_str(), s)?;
            let mut shrunk = <$owned>::try_from({
                let mut t = String::with_capacity(s.len() + 50);
                t.push_str(s);
                t
            })
            .map_err(|e| e.to_string())?;
            shrunk.shrink_to_fit();
            text("shrunk", shrunk.as_str(), s)?;
            if b.len() != s.len() || b.is_empty() != s.is_empty() || o.len() != s.len() || o.capacity() < s.len() {
                return Err(format!("{n}: length {} of {s:?}", b.len()));
            }
            let h = recorded(s);
            if recorded(&o) != h || recorded(b) != h || recorded(&Cow::<$slice>::from(b)) != h || recorded(&Box::<$slice>::from(b)) != h {
                return Err(format!("{n}: hash differs from the text's: {:?}", recorded(&o)));
            }
            for other in [s.to_uppercase(), format!("{s}a"), s[..s.len() - s.chars().last().map_or(0, char::len_utf8)].to_string()] {
                let mut hm = HashMap::new();
                let mut bm = BTreeMap::new();
                let mut bs = HashSet::new();
                if let Ok(x) = <$owned>::try_from(other.as_str()) {
                    hm.insert(x.clone(), 0);
                    bm.insert(x.clone(), 0);
                    bs.insert(Box::<$slice>::from(x));
                }
                hm.insert(o.clone(), 1);
                bm.insert(o.clone(), 1);
                bs.insert(Box::<$slice>::from(b));
                let found = hm.get::<str>(s) == Some(&1) && hm.get::<$slice>(b) == Some(&1) && bm.get::<str>(s) == Some(&1)
                    && bm.get::<$slice>(b) == Some(&1) && bs.contains(b) && hm.len() == bm.len() && hm.len() == bs.len();
                let sorted: Vec<&str> = bm.keys().map(|k| k.as_str()).collect();
                if !found || !sorted.windows(2).all(|w| w[0] < w[1]) {
                    return Err(format!("{n}: look-up of {s:?} by text or slice fails in maps of {hm:?}"));
                }
            }
        }
    }};
}

fn verify_text(s: &str) -> R {
    for iri in [true, false] {
        macro_rules! types {
            ($S:ty; $($slice:ident $owned:ident $k:ident),*) => {{$( single!($slice<$S>, $owned<$S>, s, valid(K::$k, iri, s)); )*}};
        }
        macro_rules! spec {
            ($S:ty) => {
                types!($S; RiReferenceStr RiReferenceString IriRef, RiStr RiString Iri, RiAbsoluteStr RiAbsoluteString AbsIri,
                    RiRelativeStr RiRelativeString RelRef, RiQueryStr RiQueryString Query, RiFragmentStr RiFragmentString Fragment)
            };
        }
        if iri {
            spec!(IriSpec)
        } else {
            spec!(UriSpec)
        }
    }
    single!(UriTemplateStr, UriTemplateString, s, valid(K::Template, false, s));
    Ok(())
}

/// Anything but a string is not deserialized.
fn verify_json(j: &str) -> R {
    fn not<T: Debug>(j: &str, r: Result<T, serde_json::Error>) -> R {
        r.map_or(Ok(()), |x| Err(format!("{j} is deserialized as {x:?}")))
    }
    macro_rules! types {
        ($($t:ty),*) => {$( not(j, serde_json::from_str::<$t>(j))?; )*};
    }
    types!(
        IriReferenceString, IriString, IriAbsoluteString, IriRelativeString, IriQueryString, IriFragmentString, UriReferenceString, UriString,
        UriAbsoluteString, UriRelativeString, UriQueryString, UriFragmentString, UriTemplateString
    );
    types!(&IriReferenceStr, &IriStr, &IriAbsoluteStr, &IriRelativeStr, &IriQueryStr, &IriFragmentStr, &UriReferenceStr, &UriTemplateStr);
    Ok(())
}

fn explore(ctx: &Ctx) {
    ctx.rule("one case = one ordered pair of texts under every pair of comparable types and specs, or one text under every copying, look-up, parsing and (de)serialization form; nontrivial = the text or pair is valid for some type");
    let t = ctx.thorough;
    ctx.phase("all pairs of texts", || {
        let mut texts = mc::en::collect(&["a", "A", ":", "/", "?", "#", "%41", "\u{e9}", "~"], if t { 4 } else { 3 });
        texts.extend(mc::en::collect(&["s:", "S:", "%c3%a9", "%C3%A9", "\u{E000}", "\u{10FFFF}", "b", "{x}"], 2));
        texts.extend((1..40).map(|n| format!("s://{}", "a".repeat(n))));
        texts.sort();
        texts.dedup();
        texts.retain(|s| valid(K::IriRef, true, s) || valid(K::Query, true, s) || valid(K::Template, false, s));
        let texts: Vec<Text> = texts.into_iter().map(|s| Text::new(s.leak())).collect();
        ctx.states(texts.len() as u64);
        let tx = Shared(&texts);
        par(texts.len(), |i| {
            let texts = tx.get();
            let x = &texts[i];
            for y in texts {
                ctx.case(&["pair", x.s, y.s], || verify_pair(x, y));
                ctx.transitions(1);
            }
            ctx.nontrivial(hash(x.s));
            ctx.outcome(recorded(x.s).1);
        });
    });
    let single = |s: &str| {
        ctx.case(&["text", s], || verify_text(s));
        if valid(K::IriRef, true, s) || valid(K::Template, false, s) {
            ctx.nontrivial(hash(s) ^ 1);
        }
        ctx.outcome(hash(s));
    };
    ctx.phase("token strings", || {
        mc::en::strings(&["a", "S", ":", "/", "?", "#", "[", "]", "@", "%41", "%", "\u{e9}", "{", "}", "\"", "\\"], if t { 5 } else { 4 }, single)
    });
    ctx.phase("every character", || {
        par(0x110, |p| {
            for c in (p as u32 * 0x1000..(p as u32 + 1) * 0x1000).filter_map(char::from_u32) {
                if !t && p > 3 && c as u32 & 0xFFFF < 0xFF00 && c as u32 % 16 != 0 {
                    continue;
                }
                single(&format!("{c}"));
                single(&format!("s:{c}"));
            }
        })
    });
    ctx.phase("component products", || {
        let mut r = mc::gens::full_refs(1);
        r.schemes = vec![None, Some("A1+-.")];
        if !t {
            r.auths = r.auths.into_iter().step_by(7).collect();
        }
        r.each(single)
    });
    ctx.phase("long texts", || {
        mc::gens::long_refs(&mc::gens::lens(t).into_iter().filter(|n| t || n % 5 < 2).collect::<Vec<_>>(), single);
    });
    ctx.phase("other JSON values", || {
        for j in ["null", "true", "0", "-1.5", "[]", "{}", "[\"s:a\"]", "{\"s:a\":\"s:b\"}", "", "\"", "\"s:", "[115,58,97]", "\"\\ud800\"", "{\"iri\":\"s:a\"}", "\"s:a\" \"s:b\"", "s:a"] {
            ctx.case(&["json", j], || verify_json(j));
        }
    });
}

/// The texts are only read.
struct Shared<'a>(&'a Vec<Text>);
unsafe impl Sync for Shared<'_> {}
impl<'a> Shared<'a> {
    fn get(&self) -> &'a Vec<Text> {
        self.0
    }
}

fn replay(_: &Ctx, c: &[String]) -> R {
    match c[0].as_str() {
        "pair" => {
            let t = |s: &String| Text::new(s.clone().leak());
            verify_pair(&t(&c[1]), &t(&c[2]))
        }
        "text" => verify_text(&c[1]),
        _ => verify_json(&c[1]),
    }
}

fn main() {
    run("C22", "exploration", explore, replay)
}
