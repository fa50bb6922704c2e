//! P05: derived codecs; P07: the enumerations the `cstyle!` and `data!` macros generate.
use crate::codec::{law_count, law_length, law_roundtrip, law_roundtrip_greedy};
use crate::vp;
use crate::wire::law_canonical;
use std::convert::TryFrom;
use tedium::conv::EncodeLength;
use tedium::*;

fn cat(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = Vec::new();
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}

// ---------------------------------------------------------------- derived structs
#[derive(Encode, Decode, Estimable)]
pub struct Unit;
#[derive(Encode, Decode, Estimable)]
pub struct Empty();
#[derive(Encode, Decode, Estimable)]
pub struct Hollow {}
#[derive(Encode, Decode, Estimable)]
pub struct One(pub u16);
#[derive(Encode, Decode, Estimable)]
pub struct OneVar(pub Dynamic<u8, Bytes>);
#[derive(Encode, Decode, Estimable)]
pub struct OneNamed {
    pub a: u32,
}
#[derive(Encode, Decode, Estimable)]
pub struct OneNamedVar {
    pub a: Option<u16>,
}
#[derive(Encode, Decode, Estimable)]
pub struct Two(pub u8, pub u16);
#[derive(Encode, Decode, Estimable)]
pub struct TwoVar(pub Option<u8>, pub u16);
#[derive(Encode, Decode, Estimable)]
pub struct Three {
    pub z: u8,
    pub y: bool,
    pub x: i32,
}
#[derive(Encode, Decode, Estimable)]
pub struct ThreeVar {
    pub z: Dynamic<u8, Bytes>,
    pub y: u16,
    pub x: Option<u8>,
}
#[derive(Encode, Decode, Estimable)]
pub struct Many(pub u8, pub u16, pub u32, pub i64, pub bool, pub i8, pub u30, pub i31, pub f64, pub FixedBytes<3>, pub i16, pub ());
#[derive(Encode, Decode, Estimable)]
pub struct ManyVar(pub u8, pub Option<u16>, pub u8, pub Dynamic<u16, Bytes>, pub u8, pub AutoBox<u32>, pub FixSeq<u8, 2>, pub u64);
#[derive(Encode, Decode, Estimable)]
pub struct Record {
    pub h: u8,
    pub g: u16,
    pub f: u32,
    pub e: i64,
    pub d: RangedInt<u8, 1, 9>,
    pub c: i8,
    pub b: u30,
    pub a: FixedString<2>,
}
#[derive(Encode, Decode, Estimable)]
pub struct RecordVar {
    pub e: u8,
    pub a: Dynamic<u8, Sequence<u16>>,
    pub d: One,
    pub b: TwoVar,
    pub c: Three,
    pub r#type: u16,
}
/// the last field takes the rest of its context
#[derive(Encode, Decode, Estimable)]
pub struct Greedy {
    pub a: u8,
    pub rest: Sequence<u16>,
}
#[derive(Encode, Decode, Estimable)]
pub struct GreedyTuple(pub u8, pub u8, pub Bytes);
/// equal types: only the order tells the fields apart
#[derive(Encode, Decode, Estimable)]
pub struct Alike(pub u8, pub u8, pub u8, pub u8);
#[derive(Encode, Decode, Estimable)]
pub struct AlikeNamed {
    pub d: u16,
    pub c: u16,
    pub b: u16,
    pub a: u16,
}
// FixedLength derived directly
#[derive(Encode, Decode, FixedLength)]
pub struct Fixed0;
#[derive(Encode, Decode, FixedLength)]
pub struct Fixed0T();
#[derive(Encode, Decode, FixedLength)]
pub struct Fixed0N {}
#[derive(Encode, Decode, FixedLength)]
pub struct Fixed1(pub u16);
#[derive(Encode, Decode, FixedLength)]
pub struct Fixed3(pub u16, pub u8, pub u64);
#[derive(Encode, Decode, FixedLength)]
pub struct FixedNamed {
    pub c: u16,
    pub b: bool,
    pub a: i64,
    pub d: u8,
}

macro_rules! derived {
    ($m:ident, $t:ty, $rt:ident, |$x:ident| [$($f:expr),*]) => {
        pub mod $m {
            use super::*;
            pub fn p05_layout($x: &$t) {
                let parts: &[&[u8]] = &[$(&$f.to_bytes()[..]),*];
                vp::same("fields in declaration order", &$x.to_bytes()[..], &cat(parts)[..]);
                vp::reached("end");
            }
            pub fn p05_count<U: Target>(x: &$t, u: &mut U) {
                law_count(x, u)
            }
            pub fn p05_length(x: &$t) {
                law_length(x)
            }
            pub fn p05_back<P: Parser>(x: &$t, p: &mut P) {
                $rt(x, p)
            }
            pub fn p05_accept<P: Parser>(p: &mut P) {
                law_canonical::<$t, P>(p, |_| true)
            }
        }
    };
}
macro_rules! fixed {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn p05_len(x: &$t) {
                vp::holds("fixed length", <$t as FixedLength>::LEN == x.to_bytes().len());
                vp::reached("end");
            }
        }
    };
}
pub mod derives {
    use super::*;
    derived!(unit, Unit, law_roundtrip, |_x| []);
    derived!(empty, Empty, law_roundtrip, |_x| []);
    derived!(hollow, Hollow, law_roundtrip, |_x| []);
    derived!(one, One, law_roundtrip, |x| [x.0]);
    derived!(one_var, OneVar, law_roundtrip, |x| [x.0]);
    derived!(one_named, OneNamed, law_roundtrip, |x| [x.a]);
    derived!(one_named_var, OneNamedVar, law_roundtrip, |x| [x.a]);
    derived!(two, Two, law_roundtrip, |x| [x.0, x.1]);
    derived!(two_var, TwoVar, law_roundtrip, |x| [x.0, x.1]);
    derived!(three, Three, law_roundtrip, |x| [x.z, x.y, x.x]);
    derived!(three_var, ThreeVar, law_roundtrip, |x| [x.z, x.y, x.x]);
    derived!(many, Many, law_roundtrip, |x| [x.0, x.1, x.2, x.3, x.4, x.5, x.6, x.7, x.8, x.9, x.10, x.11]);
    derived!(many_var, ManyVar, law_roundtrip, |x| [x.0, x.1, x.2, x.3, x.4, x.5, x.6, x.7]);
    derived!(record, Record, law_roundtrip, |x| [x.h, x.g, x.f, x.e, x.d, x.c, x.b, x.a]);
    derived!(record_var, RecordVar, law_roundtrip, |x| [x.e, x.a, x.d, x.b, x.c, x.r#type]);
    derived!(greedy, Greedy, law_roundtrip_greedy, |x| [x.a, x.rest]);
    derived!(greedy_tuple, GreedyTuple, law_roundtrip_greedy, |x| [x.0, x.1, x.2]);
    derived!(alike, Alike, law_roundtrip, |x| [x.0, x.1, x.2, x.3]);
    derived!(alike_named, AlikeNamed, law_roundtrip, |x| [x.d, x.c, x.b, x.a]);
    derived!(fixed0, Fixed0, law_roundtrip, |_x| []);
    derived!(fixed0_tuple, Fixed0T, law_roundtrip, |_x| []);
    derived!(fixed0_named, Fixed0N, law_roundtrip, |_x| []);
    derived!(fixed1, Fixed1, law_roundtrip, |x| [x.0]);
    derived!(fixed3, Fixed3, law_roundtrip, |x| [x.0, x.1, x.2]);
    derived!(fixed_named, FixedNamed, law_roundtrip, |x| [x.c, x.b, x.a, x.d]);
}
pub mod lens {
    use super::*;
    fixed!(unit, Unit);
    fixed!(empty, Empty);
    fixed!(hollow, Hollow);
    fixed!(fixed0, Fixed0);
    fixed!(fixed0_tuple, Fixed0T);
    fixed!(fixed0_named, Fixed0N);
    fixed!(fixed1, Fixed1);
    fixed!(fixed3, Fixed3);
    fixed!(fixed_named, FixedNamed);
}

// ---------------------------------------------------------------- generated enumerations
pub mod simple {
    tedium::cstyle!(Byte, u8, { Zero = 0, Five = 5, Last = 255 });
    tedium::cstyle!(Wide, u16, { Low = 1, High = 0x0102, Top = 65535, Mid = 300 });
    tedium::cstyle!(Single, u8, { Only = 7 });
}
pub mod sums {
    use tedium::*;
    tedium::data! { Byte, u8, byte, {
        0 => Nothing,
        1 => Pair (pub u16, pub bool),
        9 => Named { pub b: u8, pub a: u32 },
        255 => Text (pub Dynamic<u8, Bytes>),
    } }
    tedium::data! { Wide, u16, wide, {
        3 => Short (pub u8),
        0x0103 => Long { pub v: u64, pub w: Option<u8> },
        2 => Void (),
    } }
    tedium::data! { Outer, u8, outer, {
        4 => Inner (pub Byte),
        6 => Other (pub super::super::simple::Wide),
    } }
}

macro_rules! enumeration {
    ($m:ident, $t:ty, $b:ty, [$($tag:literal => $name:literal),*]) => {
        pub mod $m {
            use super::*;
            type E = $t;
            fn valid(x: $b) -> bool {
                $(x == $tag ||)* false
            }
            /// the tag set, asked in every way
            pub fn p07_tags(x: $b) {
                vp::total("panics");
                vp::holds("is_valid_tag", E::is_valid_tag(x) == valid(x));
                vp::holds("get_name", E::get_name(x).is_some() == valid(x));
                vp::reached("end");
            }
            pub fn p07_names() {
                vp::total("panics");
                $(vp::holds("name", match E::get_name($tag) { Some(s) => s == $name, None => false });)*
                let all: Vec<$b> = E::iter_tags().collect();
                let want: &[$b] = &[$($tag),*];
                vp::same("iter_tags", &all[..], want);
                vp::reached("end");
            }
            pub fn p07_tagval(x: &E) {
                vp::total("panics");
                let t = x.get_tagval();
                vp::holds("tag of a value", valid(t) && E::is_valid_tag(t));
                vp::reached("end");
            }
            /// the encoding starts with the tag
            pub fn p07_layout(x: &E) {
                let t = x.get_tagval().to_be_bytes();
                let b = x.to_bytes();
                vp::holds("tag first", b.len() >= t.len());
                vp::same("tag", &b[..t.len()], &t[..]);
                vp::reached("end");
            }
            pub fn p07_count<U: Target>(x: &E, u: &mut U) {
                law_count(x, u)
            }
            pub fn p07_length(x: &E) {
                law_length(x)
            }
            pub fn p07_back<P: Parser>(x: &E, p: &mut P) {
                law_roundtrip(x, p)
            }
            pub fn p07_accept<P: Parser>(p: &mut P) {
                law_canonical::<E, P>(p, |x| valid(x.get_tagval()))
            }
            /// what starts with no tag is refused, whatever follows
            pub fn p07_refuse<P: Parser>(p: &mut P, x: $b) {
                vp::assume(!valid(x));
                let rest: Vec<u8> = vp::any();
                vp::load(p, &x.to_be_bytes()[..], &rest);
                vp::total("panics");
                vp::holds("refused", E::parse(p).is_err());
                vp::reached("end");
            }
        }
    };
}
macro_rules! cstyle_more {
    ($m:ident, $t:ty, $b:ty, [$($tag:literal => $v:ident),*]) => {
        pub mod $m {
            use super::*;
            type E = $t;
            pub fn p07_try_from(x: $b) {
                vp::total("panics");
                match E::try_from(x) {
                    Ok(v) => {
                        vp::holds("tag", v.get_tagval() == x);
                        vp::holds("valid", E::is_valid_tag(x));
                        vp::reached("ok");
                    }
                    Err(_) => {
                        vp::holds("refused only without tag", !E::is_valid_tag(x));
                        vp::reached("err");
                    }
                }
            }
            pub fn p07_variants() {
                vp::total("panics");
                $(
                    vp::holds("tag of variant", E::$v.get_tagval() == $tag);
                    vp::holds("discriminant", E::$v as $b == $tag);
                    vp::holds("variant of tag", matches!(E::try_from($tag), Ok(E::$v)));
                )*
                vp::reached("end");
            }
            pub fn p07_only_tag(x: E) {
                vp::same("encoding", &x.to_bytes()[..], &x.get_tagval().to_be_bytes()[..]);
                vp::holds("fixed length", <E as FixedLength>::LEN == std::mem::size_of::<$b>());
                vp::reached("end");
            }
        }
    };
}
pub mod enums {
    use super::*;
    enumeration!(simple_byte, simple::Byte, u8, [0 => "Zero", 5 => "Five", 255 => "Last"]);
    enumeration!(simple_wide, simple::Wide, u16, [1 => "Low", 0x0102 => "High", 65535 => "Top", 300 => "Mid"]);
    enumeration!(simple_single, simple::Single, u8, [7 => "Only"]);
    enumeration!(sum_byte, sums::Byte, u8, [0 => "Nothing", 1 => "Pair", 9 => "Named", 255 => "Text"]);
    enumeration!(sum_wide, sums::Wide, u16, [3 => "Short", 0x0103 => "Long", 2 => "Void"]);
    enumeration!(sum_outer, sums::Outer, u8, [4 => "Inner", 6 => "Other"]);
    pub mod more {
        use super::*;
        cstyle_more!(simple_byte, simple::Byte, u8, [0 => Zero, 5 => Five, 255 => Last]);
        cstyle_more!(simple_wide, simple::Wide, u16, [1 => Low, 0x0102 => High, 65535 => Top, 300 => Mid]);
        cstyle_more!(simple_single, simple::Single, u8, [7 => Only]);
    }
    pub mod payloads {
        use super::*;
        pub fn p07_byte(x: &sums::Byte) {
            use sums::Byte as E;
            let (t, b) = match x {
                E::Nothing(y) => (0u8, y.to_bytes()),
                E::Pair(y) => (1, y.to_bytes()),
                E::Named(y) => (9, y.to_bytes()),
                E::Text(y) => (255, y.to_bytes()),
            };
            vp::holds("tag of variant", x.get_tagval() == t);
            vp::same("tag and payload", &x.to_bytes()[..], &cat(&[&[t], &b[..]])[..]);
            vp::reached("end");
        }
        pub fn p07_wide(x: &sums::Wide) {
            use sums::Wide as E;
            let (t, b) = match x {
                E::Short(y) => (3u16, y.to_bytes()),
                E::Long(y) => (0x0103, y.to_bytes()),
                E::Void(y) => (2, y.to_bytes()),
            };
            vp::holds("tag of variant", x.get_tagval() == t);
            vp::same("tag and payload", &x.to_bytes()[..], &cat(&[&t.to_be_bytes()[..], &b[..]])[..]);
            vp::reached("end");
        }
        /// payload structs encode their fields in declaration order
        pub fn p07_pair(x: &sums::byte::Pair) {
            vp::same("fields", &x.to_bytes()[..], &cat(&[&x.0.to_bytes()[..], &x.1.to_bytes()[..]])[..]);
            vp::reached("end");
        }
        pub fn p07_named(x: &sums::byte::Named) {
            vp::same("fields", &x.to_bytes()[..], &cat(&[&x.b.to_bytes()[..], &x.a.to_bytes()[..]])[..]);
            vp::reached("end");
        }
    }
}
