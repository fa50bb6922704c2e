//! Hexadecimal text: every conversion agrees on two lower-case digits per byte.
use crate::vp;
use std::borrow::Cow;
use std::convert::TryFrom;
use std::io::Write;
use std::rc::Rc;
use std::str::FromStr;
use std::sync::Arc;
use tedium::error::HexConvError;
use tedium::hexstring::HexString;
use tedium::{Builder, MemoBuilder, StrictBuilder, Target};

/// the value of one hexadecimal digit
pub fn digit(b: u8) -> Option<u8> {
    if b >= b'0' && b <= b'9' {
        Some(b - b'0')
    } else if b >= b'a' && b <= b'f' {
        Some(b - b'a' + 10)
    } else if b >= b'A' && b <= b'F' {
        Some(b - b'A' + 10)
    } else {
        None
    }
}

/// the byte two digits stand for
pub fn pair(s: &str, j: usize) -> Option<u8> {
    let hi = digit(s.as_bytes()[2 * j]);
    let lo = digit(s.as_bytes()[2 * j + 1]);
    match (hi, lo) {
        (Some(hi), Some(lo)) => Some(hi * 16 + lo),
        _ => None,
    }
}

/// the lower-case digit for 0..=15
pub fn glyph(n: u8) -> u8 {
    if n < 10 {
        b'0' + n
    } else {
        b'a' + (n - 10)
    }
}

/// the text of these bytes
fn text_of(v: &[u8], s: &str) {
    vp::holds("length", s.len() == 2 * v.len());
    let j: usize = vp::any();
    vp::assume(j < v.len());
    vp::instance(j);
    vp::holds("high-digit", s.as_bytes()[2 * j] == glyph(v[j] / 16));
    vp::holds("low-digit", s.as_bytes()[2 * j + 1] == glyph(v[j] % 16));
    vp::reached("end");
}

pub fn p23_to_hex(v: Vec<u8>) {
    vp::total("no-panic");
    let h = HexString::from(v.clone());
    let s = h.to_hex();
    vp::partial();
    text_of(&v, &s);
}

macro_rules! shown {
    ($($name:ident : $T:ty),* $(,)?) => {$(
        pub fn $name(v: Vec<u8>) {
            let mut b = <$T>::create();
            b.push_all(&v);
            let s = b.into_hex();
            text_of(&v, &s);
        }
    )*}
}
shown! { p23_strict: StrictBuilder, p23_memo: MemoBuilder }

/// reading text back: what is accepted, what the bytes are, what is refused
fn read_of(s: &str, j: usize, r: Result<HexString, HexConvError>) {
    let at = vp::stop();
    match r {
        Ok(h) => {
            vp::holds("length", h.len() * 2 == s.len());
            vp::assume(j < h.len());
            vp::instance(j);
            vp::holds("byte", pair(s, j) == Some(h.as_bytes()[j]));
            vp::reached("accepted");
        }
        Err(HexConvError::OddParity(t)) => {
            vp::holds("odd", s.len() % 2 == 1);
            vp::same("odd-text", t.as_str(), s);
            vp::reached("odd");
        }
        Err(HexConvError::NonHex(t)) => {
            vp::holds("even", s.len() % 2 == 0);
            vp::holds("within", at < s.len() / 2);
            vp::holds("not-hexadecimal", pair(s, at).is_none());
            vp::same("bad-text", t.as_str(), s);
            vp::reached("bad");
        }
    }
}

macro_rules! reads {
    ($($name:ident, $s:ident : $T:ty, $r:expr;)*) => {$(
        pub fn $name($s: $T, j: usize) {
            let text: String = String::from(&*$s);
            vp::total("no-panic");
            let r: Result<HexString, HexConvError> = $r;
            vp::partial();
            read_of(&text, j, r);
        }
    )*}
}
reads! {
    p23_from_str, s: &str, HexString::from_hex(s);
    p23_from_string, s: String, HexString::from_hex(&s);
    p23_parse, s: &str, HexString::from_str(s);
    p23_try_str, s: &str, HexString::try_from(s);
    p23_try_string, s: String, HexString::try_from(s);
    p23_try_box, s: Box<str>, HexString::try_from(s);
    p23_try_rc, s: Rc<str>, HexString::try_from(s);
    p23_try_arc, s: Arc<str>, HexString::try_from(s);
    p23_try_cow, s: Cow<'_, str>, HexString::try_from(s);
}

/// comparing with text: equal exactly when the text spells these bytes
fn cmp_of(v: &[u8], s: &str, j: usize, r: bool) {
    let at = vp::stop();
    if r {
        vp::holds("length", s.len() == 2 * v.len());
        vp::assume(j < v.len());
        vp::instance(j);
        vp::holds("byte", pair(s, j) == Some(v[j]));
        vp::reached("equal");
    } else if s.len() == 2 * v.len() {
        vp::holds("within", at < v.len());
        vp::holds("differs", pair(s, at) != Some(v[at]));
        vp::reached("different");
    }
}

macro_rules! compares {
    ($($name:ident, $h:ident, $s:ident : $T:ty, $r:expr;)*) => {$(
        pub fn $name(v: Vec<u8>, $s: $T, j: usize) {
            let $h = HexString::from(v.clone());
            vp::total("no-panic");
            let r: bool = $r;
            vp::partial();
            cmp_of(&v, &*$s, j, r);
        }
    )*}
}
compares! {
    p23_eq_hex, h, s: &str, h.eq_hex(s);
    p23_eq_str, h, s: &str, h == s;
    p23_str_eq, h, s: &str, s == h;
    p23_eq_string, h, s: String, h == s;
    p23_string_eq, h, s: String, s == h;
    p23_eq_cow, h, s: Cow<'_, str>, h == s;
    p23_cow_eq, h, s: Cow<'_, str>, s == h;
}

/// conversions from byte containers keep the bytes
macro_rules! keeps {
    ($($name:ident, $v:ident, $mk:expr;)*) => {$(
        pub fn $name($v: Vec<u8>) {
            keeps!(@body $v, $mk)
        }
    )*};
    (@body $v:ident, $mk:expr) => {{
        let h: HexString = { let $v = $v.clone(); $mk };
        vp::same("bytes", h.as_bytes(), &$v[..]);
        vp::holds("len", h.len() == $v.len());
        vp::holds("is-empty", h.is_empty() == $v.is_empty());
        vp::reached("end");
    }};
}
macro_rules! keeps_array {
    ($($name:ident, $v:ident, $mk:expr;)*) => {$(
        pub fn $name<const K: usize>($v: [u8; K]) {
            vp::assume(K <= isize::MAX as usize);
            keeps!(@body $v, $mk)
        }
    )*};
}
keeps! {
    p23_vec, v, HexString::from(v);
    p23_slice, v, HexString::from(v.as_slice());
    p23_boxed, v, HexString::from(v.into_boxed_slice());
    p23_rc, v, HexString::from(Rc::<[u8]>::from(v));
    p23_arc, v, HexString::from(Arc::<[u8]>::from(v));
    p23_cow, v, HexString::from(Cow::Borrowed(v.as_slice()));
    p23_cow_owned, v, HexString::from(Cow::<[u8]>::Owned(v));
    p23_from_vec, v, HexString::from_vec(v);
    p23_from_bytes, v, HexString::from_bytes(v);
    p23_clone_from_bytes, v, HexString::clone_from_bytes(&v);
    p23_collect, v, v.into_iter().collect();
    p23_collect_refs, v, v.iter().collect();
}
keeps_array! {
    p23_array, v, HexString::from(v);
    p23_array_ref, v, HexString::from(&v);
    p23_array_box, v, HexString::from(Box::new(v));
    p23_array_rc, v, HexString::from(Rc::new(v));
    p23_array_arc, v, HexString::from(Arc::new(v));
    p23_array_cow, v, HexString::from(Cow::Borrowed(&v));
}

/// every accessor shows the same bytes
pub fn p23_access(v: Vec<u8>) {
    let mut h = HexString::from(v.clone());
    vp::same("as-vec", h.as_vec(), &v);
    vp::same("as-ref", AsRef::<[u8]>::as_ref(&h), &v[..]);
    vp::same("as-mut", &*AsMut::<[u8]>::as_mut(&mut h), &v[..]);
    vp::same("as-mut-bytes", &*h.as_mut_bytes(), &v[..]);
    vp::same("as-mut-vec", &*h.as_mut_vec(), &v);
    vp::same("iter", h.iter().as_slice(), &v[..]);
    vp::same("iter-ref", (&h).into_iter().as_slice(), &v[..]);
    vp::same("into-inner", &h.clone().into_inner(), &v);
    vp::same("into-iter", h.clone().into_iter().as_slice(), &v[..]);
    let w: Vec<u8> = h.into();
    vp::same("into-vec", &w, &v);
    vp::reached("end");
}

/// what is added goes at the end
pub fn p23_append(v: Vec<u8>, w: Vec<u8>) {
    let mut all = v.clone();
    all.extend_from_slice(&w);
    let mut h = HexString::from(v.clone());
    h.extend(w.clone());
    vp::same("extend", h.as_vec(), &all);
    let mut h = HexString::from(v.clone());
    h.extend(w.iter());
    vp::same("extend-refs", h.as_vec(), &all);
    let mut h = HexString::from(v.clone());
    match h.write(&w) {
        Ok(n) => {
            vp::holds("write-count", n == w.len());
            vp::same("write", h.as_vec(), &all);
        }
        Err(_) => vp::never("write-fails"),
    }
    vp::holds("new", HexString::new().is_empty() && HexString::default().is_empty());
    vp::reached("end");
}
