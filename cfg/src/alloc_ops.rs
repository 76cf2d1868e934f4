//! Operations that need heap allocation.
#![cfg(feature = "alloc")]
use crate::core_ops::{both, builder, cut, Dynamic, Env};
use crate::Out;
use iri_string::convert::MappedToUri;
use iri_string::format::{try_append_to_string, ToDedicatedString, ToStringFallible};
use iri_string::percent_encode::decode::decode_whatwg_bytes;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::simple_context::{SimpleContext, Value};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;
use std::borrow::Cow;

pub fn run(o: &mut Out, kind: u8, p: &str) {
    match kind {
        b'v' => both(o, p, valid::<IriSpec>, valid::<UriSpec>),
        b'r' => {
            both(o, p, reference::<IriSpec>, reference::<UriSpec>);
            mapping(o, p);
        }
        b'p' => both(o, p, pair::<IriSpec>, pair::<UriSpec>),
        b'e' => encoded(o, p),
        b't' => both(o, p, template::<IriSpec>, template::<UriSpec>),
        b'b' => both(o, p, built::<IriSpec>, built::<UriSpec>),
        _ => unreachable!(),
    }
}

fn valid<S: Spec>(o: &mut Out, s: &str) {
    macro_rules! types {
        ($($t:ident)*) => {$({
            let n = stringify!($t);
            match $t::<S>::try_from(s.to_string()) {
                Ok(x) => o.put(n, &x),
                Err(e) => {
                    o.put(n, &e);
                    o.put(n, &e.into_source());
                }
            }
            o.dbg(n, &$t::<S>::try_from(s).map_err(|e| e.to_string()));
            o.dbg(n, &s.parse::<$t<S>>().ok());
        })*};
    }
    types!(RiReferenceString RiString RiAbsoluteString RiRelativeString RiQueryString RiFragmentString);
    o.dbg("template", &UriTemplateString::try_from(s.to_string()).map_err(|e| e.to_string()));
}

const HOSTS: &[&str] = &["", "new", "longer.example.com", "[::1]", "1.2.3.4", "bad/host", "%41", "\u{e9}"];

fn reference<S: Spec>(o: &mut Out, s: &str) {
    macro_rules! edits {
        ($($b:ident $t:ident),*) => {$(
            if let Ok(x) = $t::<S>::try_from(s) {
                let n = stringify!($t);
                o.put(n, &x.mask_password().to_dedicated_string());
                let mut y = x.clone();
                y.remove_password_inline();
                o.put(n, &y);
                let mut y = x.clone();
                y.remove_nonempty_password_inline();
                o.put(n, &y);
                for h in HOSTS {
                    let mut y = x.clone();
                    let r = y.replace_host(h).map(|s| s.to_string());
                    o.dbg(n, &(r, y));
                    let mut y = x.clone();
                    let r = y.try_replace_host_reg_name(h).ok().map(|s| s.map(|s| s.to_string()));
                    o.dbg(n, &(r, y));
                }
                o.dbg(n, &Cow::from(x.as_slice()));
                o.dbg(n, &Box::<$b<S>>::from(x.as_slice()));
                o.put(n, &x.try_to_string().unwrap());
                o.put(n, &MappedToUri::from(&x).to_dedicated_string());
                o.dbg(n, &(x == *s, s.partial_cmp(x.as_str())));
            }
        )*};
    }
    edits!(RiReferenceStr RiReferenceString, RiStr RiString, RiAbsoluteStr RiAbsoluteString, RiRelativeStr RiRelativeString);
    if let Ok(x) = RiString::<S>::try_from(s) {
        o.put("normalized", &x.normalize().to_dedicated_string());
        o.dbg("split", &x.clone().into_absolute_and_fragment());
        o.dbg("absolute", &x.clone().into_absolute());
        let f = RiFragmentStr::new("new").unwrap();
        for f in [None, Some(f)] {
            let mut y = x.clone();
            y.set_fragment(f);
            o.put("fragment", &y);
        }
    }
    if let Ok(x) = RiReferenceString::<S>::try_from(s) {
        o.dbg("into IRI", &x.clone().into_iri());
        o.dbg("into relative", &x.clone().into_relative_iri());
        let mut y = x.clone();
        y.set_fragment(None);
        o.put("fragment", &y);
    }
    if let Ok(mut x) = RiRelativeString::<S>::try_from(s) {
        x.set_fragment(Some(RiFragmentStr::new("x").unwrap()));
        o.put("fragment", &x);
    }
}

fn mapping(o: &mut Out, s: &str) {
    macro_rules! types {
        ($($t:ident)*) => {$(
            if let Ok(x) = $t::try_from(s) {
                let n = stringify!($t);
                let mut y = x.clone();
                y.encode_to_uri_inline();
                o.put(n, &y);
                o.put(n, &x.clone().encode_into_uri());
                o.dbg(n, &x.try_into_uri());
            }
        )*};
    }
    types!(IriReferenceString IriString IriAbsoluteString IriRelativeString IriQueryString IriFragmentString);
}

fn pair<S: Spec>(o: &mut Out, p: &str) {
    let x = cut(p);
    let (Ok(b), Ok(r)) = (RiAbsoluteStr::<S>::new(x[0]), RiReferenceStr::<S>::new(x[1])) else { return };
    o.put("resolved", &r.resolve_against(b).to_dedicated_string());
    o.put("normalized", &r.resolve_against(b).and_normalize().to_dedicated_string());
    let mut t = String::from("x");
    try_append_to_string(&mut t, &r.resolve_against(b)).unwrap();
    o.put("appended", &t);
}

fn encoded(o: &mut Out, s: &str) {
    let d = decode_whatwg_bytes(s.as_bytes());
    o.dbg("decoded", &d.into_bytes());
    o.dbg("decoded text", &d.into_string());
}

fn template<S: Spec>(o: &mut Out, p: &str) {
    let x = cut(p);
    let Ok(t) = UriTemplateStr::new(x[0]) else { return };
    let env = Env::new(&x[1..]);
    let mut c = SimpleContext::new();
    for v in &env.0 {
        let val = match v[1] {
            "s" => Value::String(v[2].into()),
            "l" => Value::List(v[2..].iter().map(|x| x.to_string()).collect()),
            _ => Value::Assoc(v[2..].chunks(2).map(|c| (c[0].to_string(), c[1].to_string())).collect()),
        };
        c.insert(v[0], val);
    }
    match t.expand::<S, _>(&c) {
        Ok(e) => {
            o.put("expanded", &e);
            o.dbg("as reference", &RiReferenceString::<S>::try_from(e).map_err(|e| e.into_source()));
        }
        Err(e) => o.dbg("not expanded", &e),
    }
    let mut d = Dynamic(env, String::new());
    let r = t.expand_dynamic_to_string::<S, _>(&mut d);
    o.dbg("dynamic", &(r, d.1));
}

fn built<S: Spec>(o: &mut Out, p: &str) {
    let b = builder(p);
    macro_rules! types {
        ($($t:ident)*) => {$(
            if let Ok(x) = b.clone().build::<$t<S>>() {
                o.put(stringify!($t), &x.to_dedicated_string());
                o.put(stringify!($t), &x.try_to_string().unwrap());
            }
        )*};
    }
    types!(RiReferenceStr RiStr RiAbsoluteStr RiRelativeStr);
}

#[cfg(feature = "std")]
pub fn run_std(o: &mut Out, kind: u8, p: &str) {
    use std::collections::HashMap;
    use iri_string::template::context::{visit_value_naive, Context, Visitor};
    use std::error::Error;
    match kind {
        b'b' => {
            let mut b = builder(p);
            for a in ["1.2.3.4", "::1"] {
                b.ip_address(a.parse::<std::net::IpAddr>().unwrap());
                o.dbg("IP address", &b.clone().build::<IriReferenceStr>().map(|x| x.to_string()));
            }
        }
        b'v' => {
            if let Err(e) = IriStr::new(p) {
                o.dbg("source", &e.source().map(|e| e.to_string()));
            }
            if let Err(e) = UriTemplateString::try_from(p.to_string()) {
                o.dbg("source", &(&e as &dyn Error).source().map(|e| e.to_string()));
            }
        }
        b't' => {
            struct Maps<'a>(HashMap<&'a str, HashMap<&'a str, &'a str>>);
            impl Context for Maps<'_> {
                fn visit<V: Visitor>(&self, v: V) -> V::Result {
                    let x = self.0.get(v.var_name().as_str());
                    visit_value_naive(v, x)
                }
            }
            let x = cut(p);
            let Ok(t) = UriTemplateStr::new(x[0]) else { return };
            let m = Env::new(&x[1..]).0.iter().filter(|v| v[1] == "m" && v.len() == 4).map(|v| (v[0], HashMap::from([(v[2], v[3])]))).collect();
            o.dbg("maps", &t.expand::<IriSpec, _>(&Maps(m)).map(|e| e.to_string()));
        }
        _ => {}
    }
}
