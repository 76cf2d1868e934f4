//! Every displayable value the crate derives from a text.
use std::fmt::{Debug, Display};

use iri_string::build::Builder;
use iri_string::convert::MappedToUri;
use iri_string::percent_encode::PercentEncoded;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::Spec;
use iri_string::types::*;

/// Shows the debug output of a value.
pub struct Dbg<'a>(pub &'a dyn Debug);
impl Display for Dbg<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

pub type Visit<'a> = &'a mut dyn FnMut(&str, &dyn Display) -> Result<(), String>;

pub const BASES: &[&str] = &["s:", "s://u:p@H/a/%2e/b?q", "x:/..//c", "y:a/b"];

/// Calls `f` with every value displayed from a reference text.
pub fn reference<S: Spec>(s: &str, f: Visit<'_>) -> Result<(), String> {
    macro_rules! common {
        ($t:ident) => {
            if let Ok(r) = $t::<S>::new(s) {
                let n = stringify!($t);
                f(n, &r)?;
                f(&format!("{n} owned"), &r.to_owned())?;
                f(&format!("{n} debug"), &Dbg(&r))?;
                f(&format!("{n} to URI"), &MappedToUri::from(r))?;
                let m = r.mask_password();
                f(&format!("{n} masked"), &m)?;
                f(&format!("{n} masked debug"), &Dbg(&m))?;
                f(&format!("{n} replaced"), &m.replace_password("${\u{e9}}"))?;
                f(&format!("{n} replaced by number"), &m.replace_password_with(|p| p.len()))?;
                f(&format!("{n} replaced by the encoded password"), &m.replace_password_with(|p| PercentEncoded::<_, S>::unreserve(p.to_string())))?;
                f(&format!("{n} replaced debug"), &Dbg(&m.replace_password("x")))?;
                f(&format!("{n} replaced, alternate debug"), &format_args!("{:#?}", m.replace_password('y')))?;
            }
        };
    }
    common!(RiReferenceStr);
    common!(RiStr);
    common!(RiAbsoluteStr);
    common!(RiRelativeStr);
    macro_rules! normal {
        ($t:ident) => {
            if let Ok(r) = $t::<S>::new(s) {
                let n = stringify!($t);
                f(&format!("{n} normalized"), &r.normalize())?;
                f(&format!("{n} normalized, relative paths preserved"), &r.normalize_but_preserve_authorityless_relative_path())?;
                f(&format!("{n} normalized debug"), &Dbg(&r.normalize()))?;
            }
        };
    }
    normal!(RiStr);
    normal!(RiAbsoluteStr);
    macro_rules! text {
        ($t:ident) => {
            if let Ok(r) = $t::<S>::new(s) {
                let n = stringify!($t);
                f(n, &r)?;
                f(&format!("{n} owned debug"), &Dbg(&r.to_owned()))?;
                f(&format!("{n} to URI"), &MappedToUri::from(r))?;
            }
        };
    }
    text!(RiQueryStr);
    text!(RiFragmentStr);
    if let Ok(r) = RiReferenceStr::<S>::new(s) {
        for b in BASES {
            let base = RiAbsoluteStr::<S>::new(b).unwrap();
            f(&format!("resolved against {b}"), &r.resolve_against(base))?;
            f(&format!("resolved against {b} and normalized"), &FixedBaseResolver::new(base).resolve(r).and_normalize())?;
        }
        macro_rules! built {
            ($t:ident) => {{
                let mut b = Builder::from(r);
                if let Ok(x) = b.clone().build::<$t<S>>() {
                    f(concat!(stringify!($t), " built"), &x)?;
                }
                b.normalize();
                if let Ok(x) = b.build::<$t<S>>() {
                    f(concat!(stringify!($t), " built and normalized"), &x)?;
                    f(concat!(stringify!($t), " built debug"), &Dbg(&x))?;
                }
            }};
        }
        built!(RiReferenceStr);
        built!(RiStr);
        built!(RiAbsoluteStr);
        built!(RiRelativeStr);
        f("builder debug", &Dbg(&Builder::from(r)))?;
        f("resolver debug", &Dbg(&r.authority_components()))?;
    }
    Ok(())
}

/// Calls `f` with every way to percent-encode a text.
pub fn encoded<S: Spec>(s: &str, f: Visit<'_>) -> Result<(), String> {
    let chars = crate::en::Chars(s);
    f("reg-name", &PercentEncoded::<_, S>::from_reg_name(s))?;
    f("user", &PercentEncoded::<_, S>::from_user(s))?;
    f("password", &PercentEncoded::<_, S>::from_password(s))?;
    f("path segment", &PercentEncoded::<_, S>::from_path_segment(s))?;
    f("path", &PercentEncoded::<_, S>::from_path(s))?;
    f("query", &PercentEncoded::<_, S>::from_query(s))?;
    f("fragment", &PercentEncoded::<_, S>::from_fragment(s))?;
    f("unreserve", &PercentEncoded::<_, S>::unreserve(s))?;
    f("characters", &PercentEncoded::<_, S>::characters(s))?;
    f("path, by characters", &PercentEncoded::<_, S>::from_path(&chars))?;
    f("characters, by characters", &PercentEncoded::<_, S>::characters(&chars))?;
    f("nested", &PercentEncoded::<_, S>::from_user(PercentEncoded::<_, S>::from_path(s)))?;
    f("decoded debug", &Dbg(&iri_string::percent_encode::decode::decode_whatwg_bytes(s.as_bytes())))?;
    Ok(())
}
