//! Operations available in every configuration.
use crate::shows;
use crate::Out;
use iri_string::build::Builder;
use iri_string::components::AuthorityComponents;
use iri_string::format::write_to_slice;
use iri_string::percent_encode::decode::decode_whatwg_bytes;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::context::{Context, DynamicContext, VarName, VisitPurpose, Visitor};
use iri_string::template::UriTemplateStr;
use iri_string::types::*;
use iri_string::validate;

pub fn both(o: &mut Out, p: &str, i: fn(&mut Out, &str), u: fn(&mut Out, &str)) {
    i(o, p);
    u(o, p);
}

pub fn run(o: &mut Out, kind: u8, p: &str) {
    match kind {
        b'v' => both(o, p, valid::<IriSpec>, valid::<UriSpec>),
        b'r' => both(o, p, reference::<IriSpec>, reference::<UriSpec>),
        b'p' => both(o, p, pair::<IriSpec>, pair::<UriSpec>),
        b'e' => both(o, p, encoded::<IriSpec>, encoded::<UriSpec>),
        b't' => both(o, p, template::<IriSpec>, template::<UriSpec>),
        b'b' => both(o, p, built::<IriSpec>, built::<UriSpec>),
        _ => unreachable!(),
    }
}

fn valid<S: Spec>(o: &mut Out, s: &str) {
    macro_rules! types {
        ($($t:ident)*) => {$({
            let r = $t::<S>::new(s);
            let n = stringify!($t);
            match r {
                Ok(x) => o.put(n, &x),
                Err(e) => { o.put(n, &e); o.dbg(n, &e); }
            }
            o.put(n, &<&$t<S>>::try_from(s.as_bytes()).is_ok());
        })*};
    }
    types!(RiReferenceStr RiStr RiAbsoluteStr RiRelativeStr RiQueryStr RiFragmentStr);
    o.dbg("prefixed query", &RiQueryStr::<S>::from_prefixed(s).map_err(|e| e.to_string()));
    o.dbg("prefixed fragment", &RiFragmentStr::<S>::from_prefixed(s).map_err(|e| e.to_string()));
    macro_rules! parts {
        ($($f:ident)*) => {$( o.dbg(stringify!($f), &validate::$f::<S>(s)); )*};
    }
    parts!(iri iri_reference absolute_iri relative_ref authority host reg_name userinfo path path_segment query fragment);
    o.dbg("scheme", &validate::scheme(s));
    o.dbg("port", &validate::port(s));
    o.dbg("template", &UriTemplateStr::new(s).map_err(|e| e.to_string()));
    o.dbg("variable name", &VarName::new(s).map_err(|e| e.to_string()));
}

fn authority(o: &mut Out, n: &str, a: Option<AuthorityComponents<'_>>) {
    o.dbg(n, &a.map(|a| (a.userinfo(), a.host(), a.reg_name(), a.port())));
}

fn reference<S: Spec>(o: &mut Out, s: &str) {
    shows::reference::<S>(s, &mut |n, d| {
        // There are no owned types without heap allocation.
        if !n.contains("owned") {
            o.put(n, d);
        }
        Ok(())
    })
    .unwrap();
    let mut buf = [0; 40];
    let mut slice = |o: &mut Out, n: &str, d: &dyn std::fmt::Display| o.dbg(n, &write_to_slice(&mut buf, &d));
    if let Ok(r) = RiReferenceStr::<S>::new(s) {
        o.dbg("parts", &(r.scheme_str(), r.authority_str(), r.path_str(), r.query_str(), r.fragment_str(), r.query(), r.fragment()));
        authority(o, "authority", r.authority_components());
        o.dbg("to IRI", &r.to_iri());
        o.dbg("to relative", &r.to_relative_iri());
        slice(o, "slice", &r.mask_password());
        o.dbg("IRI of", &(<&RiStr<S>>::try_from(r).is_ok(), <&RiAbsoluteStr<S>>::try_from(r).is_ok(), <&RiRelativeStr<S>>::try_from(r).is_ok()));
    }
    macro_rules! absolute {
        ($t:ident) => {
            if let Ok(r) = $t::<S>::new(s) {
                let n = stringify!($t);
                o.dbg(n, &(r.scheme_str(), r.authority_str(), r.path_str(), r.query_str(), r.query()));
                authority(o, n, r.authority_components());
                o.dbg(n, &(r.is_normalized(), r.is_normalized_rfc3986(), r.is_normalized_but_authorityless_relative_path_preserved()));
                o.dbg(n, &r.ensure_rfc3986_normalizable().map_err(|e| e.to_string()));
                o.dbg(n, &r.normalize().ensure_rfc3986_normalizable());
                slice(o, n, &r.normalize());
            }
        };
    }
    absolute!(RiStr);
    absolute!(RiAbsoluteStr);
    if let Ok(r) = RiStr::<S>::new(s) {
        o.dbg("absolute and fragment", &(r.to_absolute_and_fragment(), r.to_absolute(), r.fragment_str()));
    }
    if let Ok(r) = RiRelativeStr::<S>::new(s) {
        o.dbg("relative", &(r.authority_str(), r.path_str(), r.query_str(), r.fragment_str(), r.query(), r.fragment()));
        authority(o, "relative", r.authority_components());
    }
    if let Ok(r) = IriReferenceStr::new(s) {
        o.dbg("as URI", &r.as_uri());
        o.put("encoded", &r.encode_to_uri());
    }
}

pub fn cut(p: &str) -> Vec<&str> {
    p.split('\u{1e}').collect()
}

fn pair<S: Spec>(o: &mut Out, p: &str) {
    let x = cut(p);
    let (Ok(b), Ok(r)) = (RiAbsoluteStr::<S>::new(x[0]), RiReferenceStr::<S>::new(x[1])) else { return };
    let y = r.resolve_against(b);
    o.put("resolved", &y);
    o.dbg("resolved, normalizable", &y.ensure_rfc3986_normalizable());
    let z = FixedBaseResolver::new(b).resolve(r).and_normalize();
    o.put("normalized", &z);
    o.dbg("normalized, normalizable", &z.ensure_rfc3986_normalizable());
    o.put("preserving", &r.resolve_against(b).and_normalize_but_preserve_authorityless_relative_path());
    o.dbg("order", &(b.partial_cmp(r), b == r));
    let mut buf = [0; 24];
    o.dbg("slice", &write_to_slice(&mut buf, &y));
}

fn encoded<S: Spec>(o: &mut Out, s: &str) {
    shows::encoded::<S>(s, &mut |n, d| {
        o.put(n, d);
        Ok(())
    })
    .unwrap();
    let d = decode_whatwg_bytes(s.as_bytes());
    o.dbg("bytes", &d.to_bytes());
    o.dbg("fragments", &d.bytes_fragments().map(|f| format!("{f:?}")).collect::<Vec<_>>());
    let mut it = d.bytes_fragments();
    let mut rest = vec![it.not_yet_decoded().len()];
    while it.next().is_some() {
        rest.push(it.not_yet_decoded().len());
    }
    o.dbg("rests", &rest);
}

/// Variables of the form `name US kind US text…`.
#[derive(Clone)]
pub struct Env<'a>(pub Vec<Vec<&'a str>>);
impl<'a> Env<'a> {
    pub fn new(x: &[&'a str]) -> Self {
        Env(x.iter().map(|v| v.split('\u{1f}').collect()).collect())
    }
}
impl Context for Env<'_> {
    fn visit<V: Visitor>(&self, v: V) -> V::Result {
        let name = v.var_name();
        match self.0.iter().find(|x| x[0] == name.as_str()) {
            None => v.visit_undefined(),
            Some(x) => match x[1] {
                "s" => v.visit_string(x[2]),
                "l" => v.visit_list_direct(&x[2..]),
                _ => v.visit_assoc_direct(x[2..].chunks(2).map(|c| (c[0], c[1]))),
            },
        }
    }
}

/// Records how it is used.
pub struct Dynamic<'a>(pub Env<'a>, pub String);
impl DynamicContext for Dynamic<'_> {
    fn on_expansion_start(&mut self) {
        self.1 += "<";
    }
    fn on_expansion_end(&mut self) {
        self.1 += ">";
    }
    fn visit_dynamic<V: Visitor>(&mut self, v: V) -> V::Result {
        self.1 += if v.purpose() == VisitPurpose::Expand { "!" } else { "?" };
        self.1 += v.var_name().as_str();
        self.0.visit(v)
    }
}

fn template<S: Spec>(o: &mut Out, p: &str) {
    let x = cut(p);
    let t = match UriTemplateStr::new(x[0]) {
        Ok(t) => t,
        Err(e) => return o.dbg("template", &e),
    };
    o.dbg("template", &t);
    o.dbg("variables", &t.variables().map(|v| v.as_str()).collect::<Vec<_>>());
    let env = Env::new(&x[1..]);
    match t.expand::<S, _>(&env) {
        Ok(e) => o.put("expanded", &e),
        Err(e) => o.put("not expanded", &e),
    }
    let mut d = Dynamic(env, String::new());
    let mut text = String::new();
    let r = t.expand_dynamic::<S, _, _>(&mut text, &mut d);
    o.dbg("dynamic", &(r, text, d.1));
}

/// Settings `key US value` in order.
pub fn builder<'a>(p: &'a str) -> Builder<'a> {
    let mut b = Builder::new();
    for x in cut(p) {
        let (k, v) = x.split_once('\u{1f}').unwrap_or((x, ""));
        match k {
            "s" => b.scheme(v),
            "u" => b.userinfo(v),
            "U" => b.userinfo(v.split_once(' ').unwrap_or((v, ""))),
            "V" => b.userinfo((v, None)),
            "h" => b.host(v),
            "P" => b.port(v),
            "i" => b.port(v.parse::<u16>().unwrap()),
            "p" => b.path(v),
            "q" => b.query(v),
            "f" => b.fragment(v),
            "n" => b.normalize(),
            "-s" => b.unset_scheme(),
            "-a" => b.unset_authority(),
            "-u" => b.unset_userinfo(),
            "-i" => b.unset_port(),
            "-q" => b.unset_query(),
            "-f" => b.unset_fragment(),
            "-n" => b.unset_normalize(),
            _ => {}
        }
    }
    b
}

fn built<S: Spec>(o: &mut Out, p: &str) {
    let b = builder(p);
    o.dbg("builder", &b);
    macro_rules! types {
        ($($t:ident)*) => {$( match b.clone().build::<$t<S>>() {
            Ok(x) => {
                o.put(stringify!($t), &x);
                o.dbg(stringify!($t), &x.ensure_rfc3986_normalizable());
            }
            Err(e) => { o.put(stringify!($t), &e); o.dbg(stringify!($t), &e) }
        } )*};
    }
    types!(RiReferenceStr RiStr RiAbsoluteStr RiRelativeStr);
}
