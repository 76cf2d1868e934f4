//! Model of the IRI builder: the last value of each setting decides everything.
use crate::grammar::{valid, K};
use crate::rfc::{normalize_parts, recompose, split, Owned};
use iri_string::build::{Buildable, Builder, Built};
use iri_string::format::{ToDedicatedString, ToStringFallible};
use iri_string::spec::Spec;
use iri_string::types::*;
use std::net::IpAddr;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub enum User<'a> {
    #[default]
    None,
    Direct(&'a str),
    Pair(&'a str, Option<&'a str>),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Host<'a> {
    Name(&'a str),
    Ip(IpAddr),
}
impl Default for Host<'_> {
    fn default() -> Self {
        Host::Name("")
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub enum Port<'a> {
    #[default]
    None,
    Small(u8),
    Int(u16),
    Text(&'a str),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Auth<'a> {
    pub user: User<'a>,
    pub host: Host<'a>,
    pub port: Port<'a>,
}
/// The settings in force.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Set<'a> {
    pub scheme: Option<&'a str>,
    pub auth: Option<Auth<'a>>,
    pub path: &'a str,
    pub query: Option<&'a str>,
    pub fragment: Option<&'a str>,
    pub normalize: bool,
}

impl Auth<'_> {
    pub fn text(&self) -> String {
        let mut o = String::new();
        match self.user {
            User::None => {}
            User::Direct(u) => o += &format!("{u}@"),
            User::Pair(u, None) => o += &format!("{u}@"),
            User::Pair(u, Some(p)) => o += &format!("{u}:{p}@"),
        }
        match self.host {
            Host::Name(h) => o += h,
            Host::Ip(IpAddr::V4(a)) => o += &a.to_string(),
            Host::Ip(IpAddr::V6(a)) => o += &format!("[{a}]"),
        }
        match self.port {
            Port::None => {}
            Port::Small(n) => o += &format!(":{n}"),
            Port::Int(n) => o += &format!(":{n}"),
            Port::Text(p) => o += &format!(":{p}"),
        }
        o
    }
    fn valid(&self, iri: bool) -> bool {
        let user = match self.user {
            User::None => true,
            User::Direct(u) => valid(K::Userinfo, iri, u),
            User::Pair(u, p) => !u.contains(':') && valid(K::Userinfo, iri, u) && p.is_none_or(|p| valid(K::Userinfo, iri, p)),
        };
        let host = match self.host {
            Host::Name(h) => valid(K::Host, iri, h),
            Host::Ip(_) => true,
        };
        let port = match self.port {
            Port::Text(p) => p.bytes().all(|b| b.is_ascii_digit()),
            _ => true,
        };
        user && host && port
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Target {
    Ref,
    Iri,
    Abs,
    Rel,
}
pub const TARGETS: &[Target] = &[Target::Ref, Target::Iri, Target::Abs, Target::Rel];

impl<'a> Set<'a> {
    /// The text to be built, if it can be.
    pub fn expect(&self, t: Target, iri: bool) -> Option<String> {
        match t {
            Target::Ref => {}
            Target::Iri => _ = self.scheme?,
            Target::Abs if self.fragment.is_some() => return None,
            Target::Abs => _ = self.scheme?,
            Target::Rel if self.scheme.is_some() => return None,
            Target::Rel => {}
        }
        let ok = |k, x: Option<&str>| x.is_none_or(|x| valid(k, iri, x));
        if !(ok(K::Scheme, self.scheme) && self.auth.is_none_or(|a| a.valid(iri)) && valid(K::Path, iri, self.path)
            && ok(K::Query, self.query) && ok(K::Fragment, self.fragment))
        {
            return None;
        }
        let auth = self.auth.map(|a| a.text());
        let plain = recompose(self.scheme, auth.as_deref(), self.path, self.query, self.fragment);
        let p = split(&plain);
        let same = p.scheme == self.scheme && p.authority == auth.as_deref() && p.path == self.path
            && p.query == self.query && p.fragment == self.fragment && valid(K::IriRef, iri, &plain);
        if !self.normalize {
            return same.then_some(plain);
        }
        // A path beginning with two slashes gets the `/.` prefix.
        if !(same || self.auth.is_none() && self.path.starts_with("//")) {
            return None;
        }
        let whole = Owned {
            scheme: self.scheme.unwrap_or("x").into(),
            authority: auth,
            path: self.path.into(),
            query: self.query.map(Into::into),
            fragment: self.fragment.map(Into::into),
            removed: false,
        };
        // A relative path that begins the reference keeps its dot segments.
        let n = normalize_parts(&whole, iri, self.scheme.is_none());
        let t = n.text();
        Some(if self.scheme.is_none() { t["x:".len()..].to_string() } else { t })
    }

    pub fn builder(&self) -> Builder<'a> {
        let mut b = Builder::new();
        if let Some(x) = self.scheme {
            b.scheme(x);
        }
        if let Some(a) = self.auth {
            match a.user {
                User::None => {}
                User::Direct(u) => b.userinfo(u),
                User::Pair(u, Some(p)) => b.userinfo((u, p)),
                User::Pair(u, None) => b.userinfo((u, None)),
            }
            match a.host {
                Host::Name(h) => b.host(h),
                Host::Ip(a) => b.ip_address(a),
            }
            match a.port {
                Port::None => {}
                Port::Small(p) => b.port(p),
                Port::Int(p) => b.port(p),
                Port::Text(p) => b.port(p),
            }
        }
        b.path(self.path);
        if let Some(x) = self.query {
            b.query(x);
        }
        if let Some(x) = self.fragment {
            b.fragment(x);
        }
        if self.normalize {
            b.normalize();
        }
        b
    }
}

fn compare(got: Option<(String, Option<String>)>, want: Option<String>, what: &str) -> Result<(), String> {
    match (got, want) {
        (None, None) => Ok(()),
        (Some((g, None)), Some(w)) if g == w => Ok(()),
        (Some((g, Some(other))), Some(_)) => Err(format!("{what}: displayed as {g:?} but converted to {other:?}")),
        (g, w) => Err(format!("{what}: got {:?}, expected {w:?}", g.map(|g| g.0))),
    }
}

/// Builds as `T` in all forms; the second value is a form that differs, if any.
fn build_as<'a, T, O>(b: &Builder<'a>, full: bool) -> Option<(String, Option<String>)>
where
    T: ?Sized + Buildable<'a>,
    Built<'a, T>: std::fmt::Display + ToDedicatedString<Target = O>,
    O: AsRef<str> + From<Built<'a, T>> + for<'x> From<&'x Built<'a, T>>,
{
    let built = b.clone().build::<T>().ok()?;
    let s = built.to_string();
    let mut forms = Vec::new();
    if full {
        forms.push(built.clone().to_string());
        forms.push(built.try_to_string().ok()?);
        forms.push(built.to_dedicated_string().as_ref().to_string());
        forms.push(O::from(&built).as_ref().to_string());
        forms.push(O::from(built).as_ref().to_string());
    } else {
        forms.push(built.to_dedicated_string().as_ref().to_string());
    }
    let bad = forms.into_iter().find(|f| *f != s);
    Some((s, bad))
}

/// Compares what `b` builds with the settings, for every target type.
pub fn judge<S: Spec>(set: &Set, b: &Builder<'_>, iri: bool, full: bool) -> Result<(), String> {
    for &t in TARGETS {
        let got = match t {
            Target::Ref => build_as::<RiReferenceStr<S>, RiReferenceString<S>>(b, full),
            Target::Iri => build_as::<RiStr<S>, RiString<S>>(b, full),
            Target::Abs => build_as::<RiAbsoluteStr<S>, RiAbsoluteString<S>>(b, full),
            Target::Rel => build_as::<RiRelativeStr<S>, RiRelativeString<S>>(b, full),
        };
        let want = set.expect(t, iri);
        if let Some(w) = &want {
            let k = match t {
                Target::Ref => K::IriRef,
                Target::Iri => K::Iri,
                Target::Abs => K::AbsIri,
                Target::Rel => K::RelRef,
            };
            if !valid(k, iri, w) {
                return Err(format!("{w:?} is not valid as {t:?}"));
            }
        }
        compare(got, want, &format!("{t:?} of {set:?} (IRI: {iri})"))?;
    }
    Ok(())
}
