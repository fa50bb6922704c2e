//! P28: equality, order, hashing and cloning of containers.
use crate::vp;
use std::hash::{Hash, Hasher};
use tedium::*;

fn hashes<A: Hash + ?Sized, B: Hash + ?Sized, H: Hasher + Clone>(a: &A, b: &B, h: H) {
    let (mut g, mut k) = (h.clone(), h);
    a.hash(&mut g);
    b.hash(&mut k);
    vp::same("hash", &g, &k);
    vp::reached("end");
}

/// `$w` compares as its content, given by `$f` from a value of `$i`
macro_rules! content {
    ($m:ident, $w:ty, $i:ty, |$x:ident| $f:expr) => {
        pub mod $m {
            use super::*;
            fn make($x: &$i) -> $w { $f }
            pub fn p28_eq(a: $i, b: $i) {
                vp::total("panics");
                vp::holds("eq", (make(&a) == make(&b)) == (a == b));
                vp::holds("ne", (make(&a) != make(&b)) == (a != b));
                vp::holds("clone", make(&a).clone() == make(&a));
                vp::same("clone value", &make(&a).clone(), &make(&a));
                vp::reached("end");
            }
            pub fn p28_order(a: $i, b: $i) {
                vp::total("panics");
                vp::same("partial_cmp", &make(&a).partial_cmp(&make(&b)), &a.partial_cmp(&b));
                vp::reached("end");
            }
            pub fn p28_hash<H: Hasher + Clone>(a: $i, b: $i, h: H) {
                vp::total("panics");
                let (x, y) = (make(&a), make(&b));
                vp::assume(x == y);
                hashes(&x, &y, h)
            }
        }
    };
}
macro_rules! total_order {
    ($m:ident, $i:ty, |$x:ident| $f:expr) => {
        pub mod $m {
            use super::*;
            fn make($x: &$i) -> impl Ord { $f }
            pub fn p28(a: $i, b: $i) {
                vp::total("panics");
                vp::same("cmp", &make(&a).cmp(&make(&b)), &a.cmp(&b));
                vp::reached("end");
            }
        }
    };
}
content!(dynamic_num, Dynamic<u8, i16>, i16, |x| Dynamic::from(*x));
content!(dynamic_bytes, Dynamic<u30, Vec<u8>>, Vec<u8>, |x| Dynamic::from(x.clone()));
content!(dynamic_option, Dynamic<u16, Option<i16>>, Option<i16>, |x| Dynamic::from(*x));
content!(autobox_num, AutoBox<i16>, i16, |x| AutoBox::new(*x));
content!(autobox_bytes, AutoBox<Vec<u8>>, Vec<u8>, |x| AutoBox::new(x.clone()));
content!(nullable_num, Nullable<i16>, Option<i16>, |x| Nullable::from(*x));
content!(vpadded, VPadded<i16, 3>, i16, |x| VPadded::new(*x));
content!(padded, Padded<i16, 3>, i16, |x| Padded::new(*x));
content!(bytes, Bytes, Vec<u8>, |x| Bytes::from(x.clone()));
content!(sequence, Sequence<i16>, Vec<i16>, |x| Sequence::from(x.clone()));
content!(hexstring, HexString, Vec<u8>, |x| HexString::from(x.clone()));
content!(natural, N, num_bigint::BigUint, |x| N::new(x.clone()));
content!(integer, Z, num_bigint::BigInt, |x| Z::new(x.clone()));
content!(fixed_bytes, FixedBytes<4>, [u8; 4], |x| FixedBytes::from_array(*x));
content!(fixed_string, FixedString<4>, [u8; 4], |x| FixedString::from(*x));

pub mod total {
    use super::*;
    total_order!(dynamic_num, i16, |x| Dynamic::<u8, i16>::from(*x));
    total_order!(dynamic_bytes, Vec<u8>, |x| Dynamic::<u30, Vec<u8>>::from(x.clone()));
    total_order!(dynamic_option, Option<i16>, |x| Dynamic::<u16, Option<i16>>::from(*x));
    total_order!(autobox_num, i16, |x| AutoBox::new(*x));
    total_order!(nullable_num, Option<i16>, |x| Nullable::<i16>::from(*x));
    total_order!(vpadded, i16, |x| VPadded::<i16, 3>::new(*x));
    total_order!(padded, i16, |x| Padded::<i16, 3>::new(*x));
    total_order!(bytes, Vec<u8>, |x| Bytes::from(x.clone()));
    total_order!(sequence, Vec<i16>, |x| Sequence::<i16>::from(x.clone()));
    total_order!(hexstring, Vec<u8>, |x| HexString::from(x.clone()));
    total_order!(natural, num_bigint::BigUint, |x| N::new(x.clone()));
    total_order!(integer, num_bigint::BigInt, |x| Z::new(x.clone()));
    total_order!(fixed_bytes, [u8; 4], |x| FixedBytes::from_array(*x));
}

/// enumerations made by data! and cstyle!: equal values hash alike, unequal tags differ
pub mod generated {
    use super::*;
    use crate::adts::simple::{Byte, Wide};
    macro_rules! one {
        ($m:ident, $t:ty) => {
            pub mod $m {
                use super::*;
                pub fn p28_hash<H: Hasher + Clone>(a: $t, b: $t, h: H) {
                    vp::total("panics");
                    vp::assume(a == b);
                    vp::holds("same tag", a.get_tagval() == b.get_tagval());
                    hashes(&a, &b, h)
                }
                pub fn p28_clone(a: $t) {
                    vp::total("panics");
                    let b = a.clone();
                    vp::holds("equal", a == b);
                    vp::same("value", &a, &b);
                    vp::reached("end");
                }
            }
        };
    }
    one!(byte, Byte);
    one!(wide, Wide);
}

pub mod bounded {
    use super::*;
    pub mod fix {
        use super::*;
        pub fn p28_eq<const K: usize>(a: Vec<i16>, b: Vec<i16>) {
            vp::total("panics");
            if let (Ok(x), Ok(y)) = (FixSeq::<i16, K>::try_from(&a[..]), FixSeq::<i16, K>::try_from(&b[..])) {
                vp::holds("eq", (x == y) == (a == b));
                vp::same("partial_cmp", &x.partial_cmp(&y), &a.partial_cmp(&b));
                vp::same("clone", &x.clone()[..], &a[..]);
                vp::reached("end");
            }
        }
        pub fn p28_hash<H: Hasher + Clone, const K: usize>(a: FixSeq<i16, K>, b: FixSeq<i16, K>, h: H) {
            vp::total("panics");
            vp::assume(a == b);
            hashes(&a, &b, h)
        }
    }
    pub mod lim {
        use super::*;
        pub fn p28_eq<const K: usize>(a: Vec<i16>, b: Vec<i16>) {
            vp::total("panics");
            if let (Ok(x), Ok(y)) = (LimSeq::<i16, K>::try_from(&a[..]), LimSeq::<i16, K>::try_from(&b[..])) {
                vp::holds("eq", (x == y) == (a == b));
                vp::same("partial_cmp", &x.partial_cmp(&y), &a.partial_cmp(&b));
                vp::same("cmp", &x.cmp(&y), &a.cmp(&b));
                vp::same("clone", &x.clone()[..], &a[..]);
                vp::reached("end");
            }
        }
        pub fn p28_hash<H: Hasher + Clone, const K: usize>(a: LimSeq<i16, K>, b: LimSeq<i16, K>, h: H) {
            vp::total("panics");
            vp::assume(a == b);
            hashes(&a, &b, h)
        }
    }
}

pub mod ranged {
    use super::*;
    type R<const A: i32, const B: i32> = RangedInt<u16, A, B>;
    fn sound(a: i32, b: i32) {
        use tedium::int::{MAX_OCAML_NATIVE_INT, MIN_OCAML_NATIVE_INT};
        vp::assume(MIN_OCAML_NATIVE_INT <= a && a <= b && b <= MAX_OCAML_NATIVE_INT);
    }
    pub mod int {
        use super::*;
        pub fn p28_order<const A: i32, const B: i32>(x: i32, y: i32) {
            sound(A, B);
            vp::total("panics");
            if let (Ok(r), Ok(s)) = (R::<A, B>::try_from_i32(x), R::<A, B>::try_from_i32(y)) {
                vp::holds("eq", (r == s) == (x == y));
                vp::same("cmp", &r.cmp(&s), &x.cmp(&y));
                vp::same("partial_cmp", &r.partial_cmp(&s), &x.partial_cmp(&y));
                vp::reached("end");
            }
        }
        pub fn p28_hash<H: Hasher + Clone, const A: i32, const B: i32>(r: R<A, B>, s: R<A, B>, h: H) {
            vp::total("panics");
            vp::assume(r == s);
            hashes(&r, &s, h)
        }
    }
    pub mod float {
        use super::*;
        pub fn p28<const A: u64, const B: u64>(x: f64, y: f64) {
            vp::total("panics");
            if let (Ok(r), Ok(s)) = (RangedFloat::<A, B>::try_from_f64(x), RangedFloat::<A, B>::try_from_f64(y)) {
                vp::holds("eq", (r == s) == (x == y));
                vp::holds("lt", (r < s) == (x < y));
                vp::holds("le", (r <= s) == (x <= y));
                vp::reached("end");
            }
        }
    }
}
