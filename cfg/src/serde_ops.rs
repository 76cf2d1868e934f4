//! Operations that need `serde`.
#![cfg(feature = "serde")]
use crate::Out;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::UriTemplateStr;
use iri_string::types::*;
use serde::de::value::{BorrowedStrDeserializer, Error};
use serde::{Deserialize, Serialize};

/// Shows a value through its serialization.
struct Ser<'a, T: ?Sized>(&'a T);
impl<T: Serialize + ?Sized> std::fmt::Display for Ser<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.serialize(f)
    }
}

pub fn run(o: &mut Out, kind: u8, p: &str) {
    match kind {
        b'v' | b'r' => {
            borrowed::<IriSpec>(o, p);
            borrowed::<UriSpec>(o, p);
        }
        _ => {}
    }
}

fn borrowed<S: Spec>(o: &mut Out, s: &str) {
    macro_rules! types {
        ($($t:ident)*) => {$({
            let n = stringify!($t);
            let r = <&$t<S>>::deserialize(BorrowedStrDeserializer::<Error>::new(s)).ok();
            o.dbg(n, &r);
            if let Some(r) = r {
                o.put(n, &Ser(r));
            }
        })*};
    }
    types!(RiReferenceStr RiStr RiAbsoluteStr RiRelativeStr RiQueryStr RiFragmentStr);
    let r = <&UriTemplateStr>::deserialize(BorrowedStrDeserializer::<Error>::new(s)).ok();
    o.dbg("template", &r);
    if let Some(r) = r {
        o.put("template", &Ser(r));
    }
}

#[cfg(feature = "alloc")]
pub fn run_alloc(o: &mut Out, kind: u8, p: &str) {
    use iri_string::template::UriTemplateString;
    use serde::de::value::StrDeserializer;
    fn owned<S: Spec>(o: &mut Out, s: &str) {
        macro_rules! types {
            ($($t:ident)*) => {$({
                let n = stringify!($t);
                let r = $t::<S>::deserialize(StrDeserializer::<Error>::new(s)).ok();
                o.dbg(n, &r);
                if let Some(r) = r {
                    o.put(n, &Ser(&r));
                }
            })*};
        }
        types!(RiReferenceString RiString RiAbsoluteString RiRelativeString RiQueryString RiFragmentString);
        let r = UriTemplateString::deserialize(StrDeserializer::<Error>::new(s)).ok();
        o.dbg("template", &r);
        if let Some(r) = r {
            o.put("template", &Ser(&r));
        }
    }
    if let b'v' | b'r' = kind {
        owned::<IriSpec>(o, p);
        owned::<UriSpec>(o, p);
    }
}
