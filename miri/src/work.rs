//! Histories on live values, run both natively and under the Miri interpreter (C23).
//!
//! A case is a list of words. `execute` runs it and returns every text it saw, in order.

use iri_string::build::Builder;
use iri_string::components::AuthorityComponents;
use iri_string::convert::MappedToUri;
use iri_string::format::{write_to_slice, ToDedicatedString, ToStringFallible};
use iri_string::percent_encode::decode::decode_whatwg_bytes;
use iri_string::percent_encode::{PercentEncodedForIri, PercentEncodedForUri};
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::simple_context::{SimpleContext, Value};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;
use std::borrow::{Borrow, Cow};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

/// What a case saw: (type, IRI?, text). Types without a grammar are "text".
pub struct Log(pub Vec<(&'static str, bool, String)>);

impl Log {
    fn put(&mut self, ty: &'static str, iri: bool, s: &str) {
        self.0.push((ty, iri, s.to_string()));
    }
    fn text(&mut self, s: &str) {
        self.put("text", false, s);
    }
    pub fn digest(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for (t, i, s) in &self.0 {
            for b in t.bytes().chain([u8::from(*i), 0]).chain(s.bytes()).chain([0xff]) {
                h = (h ^ u64::from(b)).wrapping_mul(0x100000001b3);
            }
        }
        h
    }
}

/// A value of any of the string types.
pub enum V<S: Spec> {
    Ref(RiReferenceString<S>),
    Iri(RiString<S>),
    Abs(RiAbsoluteString<S>),
    Rel(RiRelativeString<S>),
    Query(RiQueryString<S>),
    Fragment(RiFragmentString<S>),
}

macro_rules! each {
    ($v:expr, $x:ident => $e:expr) => {
        match $v {
            V::Ref($x) => $e,
            V::Iri($x) => $e,
            V::Abs($x) => $e,
            V::Rel($x) => $e,
            V::Query($x) => $e,
            V::Fragment($x) => $e,
        }
    };
}
macro_rules! rewrap {
    ($v:expr, $x:ident => $e:expr) => {
        match $v {
            V::Ref($x) => V::Ref($e),
            V::Iri($x) => V::Iri($e),
            V::Abs($x) => V::Abs($e),
            V::Rel($x) => V::Rel($e),
            V::Query($x) => V::Query($e),
            V::Fragment($x) => V::Fragment($e),
        }
    };
}
/// For the operations that queries and fragments do not have.
macro_rules! refs {
    ($v:expr, $x:ident => $e:expr, $or:expr) => {
        match $v {
            V::Ref($x) => $e,
            V::Iri($x) => $e,
            V::Abs($x) => $e,
            V::Rel($x) => $e,
            V::Query(_) | V::Fragment(_) => $or,
        }
    };
}

pub const KINDS: &[&str] = &["Ref", "Iri", "Abs", "Rel", "Query", "Fragment"];

/// Changes of form that keep the text.
pub const FORMS: &[&str] = &[
    "clone", "box", "rc", "arc", "cow-owned", "cow-borrowed", "cow-to-mut", "string", "spare-string", "bytes", "shrink", "parse",
    "unchecked", "map-key", "write-slice", "boxed-then-owned",
];
/// Changes of text or type.
pub const EDITS: &[&str] = &[
    "set-fragment none", "set-fragment empty", "set-fragment f", "set-fragment long", "remove-password", "remove-nonempty-password",
    "replace-host empty", "replace-host long", "replace-host bad", "replace-reg-name r", "encode-inline", "encode-into", "into-uri",
    "into-iri", "normalize", "normalize-preserving", "mask", "replace-password", "mapped", "resolve", "narrow", "widen", "drop-fragment",
    "split-fragment", "to-query", "to-fragment", "rebuild", "fixed-base",
];

/// Operations on templates.
pub const TEMPLATE_OPS: &[&str] = &[
    "clone", "box", "boxed-then-owned", "rc", "arc", "cow-owned", "cow-borrowed", "cow-to-mut", "string", "spare-string", "bytes", "shrink",
    "parse", "unchecked", "map-key", "write-slice", "append", "expand",
];

impl<S: Spec> V<S> {
    pub fn new(kind: &str, s: String) -> Option<Self> {
        Some(match kind {
            "Ref" => V::Ref(s.try_into().ok()?),
            "Iri" => V::Iri(s.try_into().ok()?),
            "Abs" => V::Abs(s.try_into().ok()?),
            "Rel" => V::Rel(s.try_into().ok()?),
            "Query" => V::Query(s.try_into().ok()?),
            "Fragment" => V::Fragment(s.try_into().ok()?),
            _ => return None,
        })
    }
    pub fn kind(&self) -> &'static str {
        match self {
            V::Ref(_) => "Ref",
            V::Iri(_) => "Iri",
            V::Abs(_) => "Abs",
            V::Rel(_) => "Rel",
            V::Query(_) => "Query",
            V::Fragment(_) => "Fragment",
        }
    }
    pub fn text(&self) -> &str {
        each!(self, x => x.as_str())
    }

    fn form(mut self, op: &str, log: &mut Log) -> Self {
        macro_rules! t {
            ($O:ident, $B:ident, $x:ident) => {{
                type B<S> = $B<S>;
                type O<S> = $O<S>;
                match op {
                    "clone" => {
                        let y = $x.clone();
                        drop($x);
                        y
                    }
                    "box" => {
                        let b: Box<B<S>> = $x.into();
                        log.text(b.as_str());
                        O::<S>::from(&*b)
                    }
                    "boxed-then-owned" => {
                        let b: Box<B<S>> = $x.as_slice().into();
                        drop($x);
                        log.text(b.as_str());
                        B::<S>::to_owned(&b)
                    }
                    "rc" => {
                        let a: Rc<B<S>> = $x.as_slice().into();
                        drop($x);
                        let b = a.clone();
                        drop(a);
                        log.text(b.as_str());
                        let w = Rc::downgrade(&b);
                        let o = O::<S>::from(&*b);
                        drop(b);
                        assert!(w.upgrade().is_none());
                        o
                    }
                    "arc" => {
                        let a: Arc<B<S>> = $x.as_slice().into();
                        drop($x);
                        let b = a.clone();
                        drop(a);
                        log.text(b.as_str());
                        let w = Arc::downgrade(&b);
                        let o = O::<S>::from(&*b);
                        drop(b);
                        assert!(w.upgrade().is_none());
                        o
                    }
                    "cow-owned" => {
                        let c: Cow<'_, B<S>> = $x.into();
                        log.text(c.as_str());
                        let c2 = c.clone();
                        drop(c);
                        c2.into_owned()
                    }
                    "cow-borrowed" => {
                        let c: Cow<'_, B<S>> = $x.as_slice().into();
                        let o = c.into_owned();
                        drop($x);
                        o
                    }
                    "cow-to-mut" => {
                        let mut c: Cow<'_, B<S>> = $x.as_slice().into();
                        c.to_mut().shrink_to_fit();
                        let o = c.into_owned();
                        drop($x);
                        o
                    }
                    "string" => {
                        let s: String = $x.into();
                        O::<S>::try_from(s).unwrap()
                    }
                    "spare-string" => {
                        let mut s: String = $x.into();
                        s.reserve(s.len() + 50);
                        O::<S>::try_from(s).unwrap()
                    }
                    "bytes" => {
                        let s: String = $x.into();
                        let v = s.into_bytes();
                        let b = <&B<S>>::try_from(&v[..]).unwrap();
                        log.text(b.as_str());
                        O::<S>::try_from(&v[..]).unwrap()
                    }
                    "parse" => {
                        let b = B::<S>::new($x.as_str()).unwrap();
                        let o: O<S> = b.as_str().parse().unwrap();
                        drop($x);
                        o
                    }
                    "unchecked" => {
                        let s: String = $x.into();
                        // SAFETY: just taken out of a valid value.
                        let b = unsafe { B::<S>::new_unchecked(&s) };
                        log.text(b.as_str());
                        // SAFETY: as above.
                        unsafe { O::<S>::new_unchecked(s) }
                    }
                    "map-key" => {
                        let mut m: HashMap<O<S>, u8, std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>> = HashMap::default();
                        let probe = $x.clone();
                        m.insert($x, 7);
                        assert_eq!(m.get::<str>(probe.borrow()), Some(&7));
                        assert_eq!(m.get::<B<S>>(probe.as_slice()), Some(&7));
                        m.into_iter().next().unwrap().0
                    }
                    "write-slice" => {
                        let mut buf = vec![0u8; $x.as_str().len()];
                        let s = write_to_slice(&mut buf, &$x).unwrap();
                        log.text(s);
                        $x
                    }
                    _ => unreachable!(),
                }
            }};
        }
        if op == "shrink" {
            each!(&mut self, x => x.shrink_to_fit());
            let n = each!(&self, x => x.capacity());
            assert!(n >= self.text().len());
            return self;
        }
        match self {
            V::Ref(x) => V::Ref(t!(RiReferenceString, RiReferenceStr, x)),
            V::Iri(x) => V::Iri(t!(RiString, RiStr, x)),
            V::Abs(x) => V::Abs(t!(RiAbsoluteString, RiAbsoluteStr, x)),
            V::Rel(x) => V::Rel(t!(RiRelativeString, RiRelativeStr, x)),
            V::Query(x) => V::Query(t!(RiQueryString, RiQueryStr, x)),
            V::Fragment(x) => V::Fragment(t!(RiFragmentString, RiFragmentStr, x)),
        }
    }

    /// An edit offered for both specs. Edits a type does not have leave the value alone.
    fn edit(mut self, op: &str, log: &mut Log, iri: bool) -> Self {
        let word = op.split_once(' ');
        match word {
            Some(("set-fragment", f)) => {
                let f = match f {
                    "none" => None,
                    "empty" => Some(""),
                    "f" => Some("f"),
                    _ => Some("a-fragment-longer-than-any-spare-capacity-of-the-buffer"),
                };
                let f = f.map(|f| RiFragmentStr::<S>::new(f).unwrap());
                match &mut self {
                    V::Ref(x) => x.set_fragment(f),
                    V::Iri(x) => x.set_fragment(f),
                    V::Rel(x) => x.set_fragment(f),
                    _ => {}
                }
                return self;
            }
            Some((w, h)) => {
                let h = match h {
                    "empty" => "",
                    "long" => "a.host.longer.than.any.spare.capacity.of.the.buffer.example",
                    "bad" => "a/b",
                    _ => "r",
                };
                let r = if w == "replace-host" {
                    refs!(&mut self, x => x.replace_host(h).map(String::from), None)
                } else {
                    refs!(&mut self, x => x.try_replace_host_reg_name(h).unwrap().map(String::from), None)
                };
                log.text(r.as_deref().unwrap_or("(none)"));
                return self;
            }
            None => {}
        }
        match op {
            "remove-password" => refs!(&mut self, x => x.remove_password_inline(), ()),
            "remove-nonempty-password" => refs!(&mut self, x => x.remove_nonempty_password_inline(), ()),
            "normalize" => {
                self = match self {
                    V::Iri(x) => V::Iri(x.normalize().to_dedicated_string()),
                    V::Abs(x) => V::Abs(x.normalize().to_dedicated_string()),
                    x => x,
                }
            }
            "normalize-preserving" => {
                self = match self {
                    V::Iri(x) => V::Iri(x.normalize_but_preserve_authorityless_relative_path().to_dedicated_string()),
                    V::Abs(x) => V::Abs(x.normalize_but_preserve_authorityless_relative_path().to_dedicated_string()),
                    x => x,
                }
            }
            "mask" => {
                self = match self {
                    V::Ref(x) => V::Ref(x.mask_password().to_dedicated_string()),
                    V::Iri(x) => V::Iri(x.mask_password().to_dedicated_string()),
                    V::Abs(x) => V::Abs(x.mask_password().to_dedicated_string()),
                    V::Rel(x) => V::Rel(x.mask_password().to_dedicated_string()),
                    x => x,
                }
            }
            "replace-password" => {
                let t = refs!(&self, x => x.mask_password().replace_password("***").try_to_string().unwrap(), String::new());
                log.text(&t);
            }
            "resolve" => {
                let b = RiAbsoluteStr::<S>::new("b://x:y@B:/p/q?r").unwrap();
                self = match self {
                    V::Ref(x) => V::Iri(x.resolve_against(b).to_dedicated_string()),
                    V::Rel(x) => V::Iri(x.resolve_against(b).to_dedicated_string()),
                    x => x,
                }
            }
            "fixed-base" => {
                if let V::Abs(b) = &self {
                    let r = FixedBaseResolver::new(b.as_slice());
                    log.put("Abs", iri, r.base().as_str());
                    if let Some(q) = r.query() {
                        log.put("Query", iri, q.as_str());
                    }
                    for t in ["", "../x?y#z", "//H/./", "?q"] {
                        let t = RiReferenceStr::<S>::new(t).unwrap();
                        if let Ok(x) = r.resolve(t).try_to_dedicated_string() {
                            log.put("Iri", iri, x.as_str());
                        }
                    }
                }
            }
            "narrow" => {
                self = match self {
                    V::Ref(x) => match x.into_iri() {
                        Ok(i) => V::Iri(i),
                        Err(r) => V::Rel(r),
                    },
                    V::Iri(x) => match RiAbsoluteString::try_from(x) {
                        Ok(a) => V::Abs(a),
                        Err(e) => V::Iri(e.into_source()),
                    },
                    x => x,
                }
            }
            "widen" => {
                self = match self {
                    V::Abs(x) => V::Iri(x.into()),
                    V::Iri(x) => V::Ref(x.into()),
                    V::Rel(x) => V::Ref(x.into()),
                    x => x,
                }
            }
            "drop-fragment" => {
                self = match self {
                    V::Iri(x) => V::Abs(x.into_absolute()),
                    x => x,
                }
            }
            "split-fragment" => {
                self = match self {
                    V::Iri(x) => {
                        let (a, f) = x.into_absolute_and_fragment();
                        if let Some(f) = f {
                            log.put("Fragment", iri, f.as_str());
                        }
                        V::Abs(a)
                    }
                    x => x,
                }
            }
            "to-query" => {
                let q = refs!(&self, x => x.query().map(|q| q.to_owned()), None);
                if let Some(q) = q {
                    self = V::Query(q);
                }
            }
            "to-fragment" => {
                let f = match &self {
                    V::Ref(x) => x.fragment().map(|f| f.to_owned()),
                    V::Iri(x) => x.fragment().map(|f| f.to_owned()),
                    V::Rel(x) => x.fragment().map(|f| f.to_owned()),
                    _ => None,
                };
                if let Some(f) = f {
                    self = V::Fragment(f);
                }
            }
            "rebuild" => {
                macro_rules! t {
                    ($x:ident, $B:ident) => {{
                        let mut b = Builder::from($x.as_slice());
                        b.port("8080");
                        match b.clone().build::<$B<S>>() {
                            Ok(x) => {
                                log.text(&x.to_string());
                                x.into()
                            }
                            Err(_) => $x.clone(),
                        }
                    }};
                }
                self = match self {
                    V::Ref(x) => V::Ref(t!(x, RiReferenceStr)),
                    V::Iri(x) => V::Iri(t!(x, RiStr)),
                    V::Abs(x) => V::Abs(t!(x, RiAbsoluteStr)),
                    V::Rel(x) => V::Rel(t!(x, RiRelativeStr)),
                    x => x,
                }
            }
            "mapped" => {
                let t = each!(&self, x => MappedToUri::from(x.as_slice()).to_dedicated_string().into());
                let t: String = t;
                log.put(self.kind(), false, &t);
            }
            _ => unreachable!("{op}"),
        }
        self
    }
}

pub enum W {
    I(V<IriSpec>),
    U(V<UriSpec>),
}

impl W {
    pub fn new(iri: bool, kind: &str, s: String) -> Option<W> {
        Some(if iri { W::I(V::new(kind, s)?) } else { W::U(V::new(kind, s)?) })
    }
    fn state(&self, log: &mut Log) {
        match self {
            W::I(v) => log.put(v.kind(), true, v.text()),
            W::U(v) => log.put(v.kind(), false, v.text()),
        }
    }
    fn apply(self, op: &str, log: &mut Log) -> W {
        if FORMS.contains(&op) {
            return match self {
                W::I(v) => W::I(v.form(op, log)),
                W::U(v) => W::U(v.form(op, log)),
            };
        }
        match (self, op) {
            (W::I(mut v), "encode-inline") => {
                each!(&mut v, x => x.encode_to_uri_inline());
                W::I(v)
            }
            (W::I(v), "encode-into") => {
                each!(&v, x => log.put("text", false, x.encode_to_uri().to_dedicated_string().as_str()));
                W::U(rewrap!(v, x => x.encode_into_uri()))
            }
            (W::I(v), "into-uri") => {
                each!(&v, x => if let Some(u) = x.as_uri() {
                    log.text(u.as_str());
                });
                macro_rules! t {
                    ($x:expr, $k:ident) => {
                        match $x.try_into_uri() {
                            Ok(u) => W::U(V::$k(u)),
                            Err(i) => W::I(V::$k(i)),
                        }
                    };
                }
                match v {
                    V::Ref(x) => t!(x, Ref),
                    V::Iri(x) => t!(x, Iri),
                    V::Abs(x) => t!(x, Abs),
                    V::Rel(x) => t!(x, Rel),
                    V::Query(x) => t!(x, Query),
                    V::Fragment(x) => t!(x, Fragment),
                }
            }
            (w, "encode-inline" | "encode-into" | "into-uri") => w,
            (W::U(v), "into-iri") => W::I(rewrap!(v, x => x.into())),
            (w, "into-iri") => w,
            (W::I(v), op) => W::I(v.edit(op, log, true)),
            (W::U(v), op) => W::U(v.edit(op, log, false)),
        }
    }
}

/// Everything that can be read from a text.
fn read<S: Spec>(s: &str, iri: bool, log: &mut Log) {
    macro_rules! common {
        ($x:ident) => {{
            log.text($x.path_str());
            for t in [$x.authority_str(), $x.query_str()] {
                log.text(t.unwrap_or("(none)"));
            }
            if let Some(q) = $x.query() {
                log.put("Query", iri, q.as_str());
            }
            if let Some(a) = $x.authority_components() {
                for t in [a.userinfo(), Some(a.host()), a.reg_name(), a.port()] {
                    log.text(t.unwrap_or("(none)"));
                }
            }
            log.put("text", false, &format!("{}", $x.mask_password()));
            log.put("text", false, &MappedToUri::from($x).to_string());
        }};
    }
    if let Ok(x) = RiReferenceStr::<S>::new(s) {
        log.put("Ref", iri, x.as_str());
        common!(x);
        if let Some(a) = AuthorityComponents::from_iri(x) {
            log.text(a.host());
        }
        match x.to_iri() {
            Ok(i) => log.put("Iri", iri, i.as_str()),
            Err(r) => log.put("Rel", iri, r.as_str()),
        }
        if let Some(f) = x.fragment() {
            log.put("Fragment", iri, f.as_str());
        }
        let c: Cow<'_, RiReferenceStr<S>> = x.into();
        log.text(c.as_str());
    }
    if let Ok(x) = RiStr::<S>::new(s) {
        log.put("Iri", iri, x.as_str());
        common!(x);
        let (a, f) = x.to_absolute_and_fragment();
        log.put("Abs", iri, a.as_str());
        if let Some(f) = f {
            log.put("Fragment", iri, f.as_str());
        }
        log.put("Abs", iri, x.to_absolute().as_str());
        log.put("text", false, &x.normalize().to_string());
    }
    if let Ok(x) = RiAbsoluteStr::<S>::new(s) {
        log.put("Abs", iri, x.as_str());
        common!(x);
    }
    if let Ok(x) = RiRelativeStr::<S>::new(s) {
        log.put("Rel", iri, x.as_str());
        common!(x);
        if let Some(f) = x.fragment() {
            log.put("Fragment", iri, f.as_str());
        }
    }
    if let Ok(x) = RiQueryStr::<S>::new(s) {
        log.put("Query", iri, x.as_str());
    }
    if let Ok(x) = RiQueryStr::<S>::from_prefixed(s) {
        log.put("Query", iri, x.as_str());
    }
    if let Ok(x) = RiFragmentStr::<S>::new(s) {
        log.put("Fragment", iri, x.as_str());
    }
    if let Ok(x) = RiFragmentStr::<S>::from_prefixed(s) {
        log.put("Fragment", iri, x.as_str());
    }
}

fn coders(s: &str, log: &mut Log) {
    log.text(&PercentEncodedForUri::from_path(s).to_string());
    log.text(&PercentEncodedForIri::from_query(s).to_string());
    log.text(&PercentEncodedForUri::unreserve(s).to_string());
    let d = decode_whatwg_bytes(s.as_bytes());
    if let Ok(t) = d.into_string() {
        log.text(&t);
    }
    log.text(&String::from_utf8_lossy(&d.into_bytes()));
}

fn template_form(x: UriTemplateString, op: &str, log: &mut Log) -> UriTemplateString {
    match op {
        "clone" => {
            let y = x.clone();
            drop(x);
            y
        }
        "box" => {
            let b: Box<UriTemplateStr> = x.into();
            log.text(b.as_str());
            UriTemplateString::from(&*b)
        }
        "boxed-then-owned" => {
            let b: Box<UriTemplateStr> = x.as_slice().into();
            drop(x);
            UriTemplateStr::to_owned(&b)
        }
        "rc" => {
            let a: Rc<UriTemplateStr> = x.as_slice().into();
            drop(x);
            let b = a.clone();
            drop(a);
            let w = Rc::downgrade(&b);
            let o = UriTemplateString::from(&*b);
            drop(b);
            assert!(w.upgrade().is_none());
            o
        }
        "arc" => {
            let a: Arc<UriTemplateStr> = x.as_slice().into();
            drop(x);
            let b = a.clone();
            drop(a);
            let w = Arc::downgrade(&b);
            let o = UriTemplateString::from(&*b);
            drop(b);
            assert!(w.upgrade().is_none());
            o
        }
        "cow-owned" => {
            let c: Cow<'_, UriTemplateStr> = x.into();
            let d = c.clone();
            drop(c);
            d.into_owned()
        }
        "cow-borrowed" => {
            let c: Cow<'_, UriTemplateStr> = x.as_slice().into();
            c.into_owned()
        }
        "cow-to-mut" => {
            let mut c: Cow<'_, UriTemplateStr> = x.as_slice().into();
            c.to_mut().append(UriTemplateStr::new("/{+z}").unwrap());
            c.into_owned()
        }
        "string" => UriTemplateString::try_from(String::from(x)).unwrap(),
        "spare-string" => {
            let mut s = String::from(x);
            s.reserve(s.len() + 50);
            UriTemplateString::try_from(s).unwrap()
        }
        "bytes" => {
            let v = String::from(x).into_bytes();
            log.text(<&UriTemplateStr>::try_from(&v[..]).unwrap().as_str());
            UriTemplateString::try_from(&v[..]).unwrap()
        }
        "shrink" => {
            let mut x = x;
            x.shrink_to_fit();
            assert!(x.capacity() >= x.as_str().len());
            x
        }
        "parse" => x.as_str().parse().unwrap(),
        "unchecked" => {
            let s = String::from(x);
            // SAFETY: just taken out of a valid value.
            log.text(unsafe { UriTemplateStr::new_unchecked(&s) }.as_str());
            // SAFETY: as above.
            unsafe { UriTemplateString::new_unchecked(s) }
        }
        "map-key" => {
            assert!(Borrow::<UriTemplateStr>::borrow(&x) == Borrow::<str>::borrow(&x));
            x
        }
        "write-slice" => {
            let mut buf = vec![0u8; x.as_str().len()];
            log.text(write_to_slice(&mut buf, &x).unwrap());
            x
        }
        "append" => {
            let mut x = x;
            let y = x.clone();
            x.append(&y);
            x
        }
        "expand" => {
            let mut c = SimpleContext::new();
            c.insert("a", "v\u{E9} /%41");
            c.insert("b", Value::List(["1", "", "\u{3B1}"].map(String::from).to_vec()));
            c.insert("c", Value::Assoc(vec![("k".into(), "v".into()), (String::new(), "?".into())]));
            for v in x.variables() {
                log.text(v.as_str());
            }
            if let Ok(e) = x.expand::<UriSpec, _>(&c) {
                log.text(&e.to_string());
            }
            if let Ok(e) = x.expand::<IriSpec, _>(&c) {
                log.text(&e.to_string());
            }
            let mut w = String::new();
            if x.expand_dynamic::<UriSpec, _, _>(&mut w, &mut c.clone_dynamic()).is_ok() {
                log.text(&w);
            }
            x
        }
        _ => unreachable!("{op}"),
    }
}

/// A dynamic context backed by a ready-made one.
struct Dynamic(SimpleContext);
trait CloneDynamic {
    fn clone_dynamic(&self) -> Dynamic;
}
impl CloneDynamic for SimpleContext {
    fn clone_dynamic(&self) -> Dynamic {
        Dynamic(self.clone())
    }
}
impl iri_string::template::context::DynamicContext for Dynamic {
    fn visit_dynamic<V: iri_string::template::context::Visitor>(&mut self, v: V) -> V::Result {
        use iri_string::template::context::Context;
        self.0.visit(v)
    }
}

/// Runs a case, handing every observation to the log.
pub fn execute(case: &[&str], log: &mut Log) {
    match case {
        ["live", spec, kind, text, ops @ ..] => {
            let iri = *spec == "iri";
            let mut w = W::new(iri, kind, text.to_string()).expect("valid start");
            for op in ops {
                w = w.apply(op, log);
                w.state(log);
            }
        }
        ["read", text] => {
            // A buffer of exactly the length of the text: reads past the end are out of bounds.
            let b: Box<str> = (*text).into();
            read::<IriSpec>(&b, true, log);
            read::<UriSpec>(&b, false, log);
            coders(&b, log);
            if let Ok(t) = UriTemplateStr::new(&b) {
                log.text(t.as_str());
            }
        }
        ["template", text, ops @ ..] => {
            let mut x = UriTemplateString::try_from(text.to_string()).expect("valid start");
            for op in ops {
                x = template_form(x, op, log);
                log.put("template", false, x.as_str());
            }
        }
        ["bytes", hex] => {
            let v: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
            log.text(&format!("{}", <&IriReferenceStr>::try_from(&v[..]).is_ok()));
            log.text(&format!("{}", IriReferenceString::try_from(&v[..]).is_ok()));
            log.text(&format!("{}", <&UriTemplateStr>::try_from(&v[..]).is_ok()));
            let d = decode_whatwg_bytes(&v);
            log.text(&String::from_utf8_lossy(&d.into_bytes()));
            log.text(&format!("{:?}", d.into_string().ok()));
        }
        _ => panic!("unknown case {case:?}"),
    }
}
