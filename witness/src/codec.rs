//! Laws of the binary codec, one instance per schema type.
use crate::vp;
use tedium::conv::len::Estimable;
use tedium::conv::{Decode, Encode, EncodeLength};
use tedium::{Parser, Target};

pub fn law_count<X: Encode, U: Target>(x: &X, u: &mut U) {
    let before = vp::written(u);
    let n = x.write_to(u);
    let after = vp::written(u);
    vp::assume(after.len() <= isize::MAX as usize);
    vp::holds("count", after.len() == before.len() + n);
    vp::holds("append", after.starts_with(&before));
    vp::reached("end");
}

pub fn law_roundtrip<X: Encode + Decode, P: Parser>(x: &X, p: &mut P) {
    let b = x.to_bytes();
    let tail: Vec<u8> = vp::any();
    law_back(x, &b, &tail, p)
}

/// for types that extend to the end of the window
pub fn law_roundtrip_greedy<X: Encode + Decode, P: Parser>(x: &X, p: &mut P) {
    let b = x.to_bytes();
    let tail: Vec<u8> = Vec::new();
    law_back(x, &b, &tail, p)
}

/// how many elements there are is only visible when none encodes to nothing
pub fn law_roundtrip_list<X: Encode + Decode, P: Parser>(x: &X, p: &mut P) {
    vp::sized();
    law_roundtrip_greedy(x, p)
}

pub fn law_roundtrip_fixed_list<X: Encode + Decode, P: Parser>(x: &X, p: &mut P) {
    vp::sized();
    law_roundtrip(x, p)
}

fn law_back<X: Encode + Decode, P: Parser>(x: &X, b: &[u8], tail: &[u8], p: &mut P) {
    vp::load(p, b, tail);
    let w = vp::windows(p);
    match X::parse(p) {
        Ok(y) => {
            vp::same("value", x, &y);
            vp::same("rest", &vp::ahead(p)[..], tail);
            vp::same("windows", &vp::windows(p), &w);
            vp::reached("end");
        }
        Err(_) => vp::never("rejected"),
    }
}

pub fn law_length<X: Encode + Estimable>(x: &X) {
    let n = x.to_bytes().len();
    vp::assume(n <= isize::MAX as usize);
    vp::holds("unknown", x.unknown() == n);
    vp::holds("estimate", x.estimate() == n);
    if let Some(k) = X::KNOWN {
        vp::holds("known", k == n);
    }
    vp::reached("end");
}

macro_rules! laws {
    ($m:ident, [$($g:tt)*], $t:ty) => { laws!($m, [$($g)*], $t, law_roundtrip, |_x| true); };
    ($m:ident, [$($g:tt)*], $t:ty, $rt:ident, $inv:expr) => {
        pub mod $m {
            use super::*;
            #[allow(unused_imports)]
            use tedium::*;
            pub fn p01<P: Parser, $($g)*>(x: &$t, p: &mut P) {
                let inv: fn(&$t) -> bool = $inv;
                vp::assume(inv(x));
                $rt(x, p)
            }
            pub fn p02<U: Target, $($g)*>(x: &$t, u: &mut U) {
                let inv: fn(&$t) -> bool = $inv;
                vp::assume(inv(x));
                law_count(x, u)
            }
            pub fn p03<$($g)*>(x: &$t) {
                let inv: fn(&$t) -> bool = $inv;
                vp::assume(inv(x));
                law_length(x)
            }
        }
    };
}

laws!(unit, [], ());
laws!(boolean, [], bool);
laws!(int_u8, [], u8);
laws!(int_i8, [], i8);
laws!(int_u16, [], u16);
laws!(int_i16, [], i16);
laws!(int_u32, [], u32);
laws!(int_i32, [], i32);
laws!(int_u64, [], u64);
laws!(int_i64, [], i64);
laws!(float, [], f64);
laws!(int_u30, [], u30);
laws!(int_i31, [], i31);
laws!(ranged_u8, [const A: i32, const B: i32], RangedInt<u8, A, B>);
laws!(ranged_i8, [const A: i32, const B: i32], RangedInt<i8, A, B>);
laws!(ranged_u16, [const A: i32, const B: i32], RangedInt<u16, A, B>);
laws!(ranged_i16, [const A: i32, const B: i32], RangedInt<i16, A, B>);
laws!(ranged_u32, [const A: i32, const B: i32], RangedInt<u32, A, B>);
laws!(ranged_i32, [const A: i32, const B: i32], RangedInt<i32, A, B>);
laws!(ranged_float, [const A: u64, const B: u64], RangedFloat<A, B>, law_roundtrip,
    |x| RangedFloat::<A, B>::MIN_F64 <= RangedFloat::<A, B>::MAX_F64 && *x.as_f64() >= RangedFloat::<A, B>::MIN_F64 && *x.as_f64() <= RangedFloat::<A, B>::MAX_F64);
laws!(fixed_bytes, [const K: usize], FixedBytes<K>);
laws!(fixed_string, [const K: usize], FixedString<K>);
laws!(bytes, [], Bytes, law_roundtrip_greedy, |_x| true);
laws!(vec_u8, [], Vec<u8>, law_roundtrip_greedy, |_x| true);
laws!(string, [], String, law_roundtrip_greedy, |_x| true);
laws!(option, [T: Encode + Decode + Estimable], Option<T>);
laws!(autobox, [T: Encode + Decode + Estimable], AutoBox<T>);
laws!(padded, [T: Encode + Decode + Estimable, const K: usize], Padded<T, K>);
laws!(vpadded, [T: Encode + Decode + Estimable, const K: usize], VPadded<T, K>, law_roundtrip_vpadded, |_x| true);
laws!(nullable, [T: Encode + Decode + Estimable], Nullable<T>, law_roundtrip_nullable, |_x| true);
laws!(dynamic_u8, [T: Encode + Decode + Estimable], Dynamic<u8, T>);
laws!(dynamic_u16, [T: Encode + Decode + Estimable], Dynamic<u16, T>);
laws!(dynamic_u30, [T: Encode + Decode + Estimable], Dynamic<u30, T>);
laws!(sequence, [T: Encode + Decode + Estimable], Sequence<T>, law_roundtrip_list, |_x| true);
laws!(lim_seq, [T: Encode + Decode + Estimable, const K: usize], LimSeq<T, K>, law_roundtrip_list, |x| x.len() <= K);
laws!(fix_seq, [T: Encode + Decode + Estimable, const K: usize], FixSeq<T, K>, law_roundtrip_fixed_list, |x| x.len() == K);

/// a `VPadded<_, N>` stops `N` bytes short of the end of its window
pub fn law_roundtrip_vpadded<T: Encode + Decode, P: Parser, const N: usize>(x: &tedium::VPadded<T, N>, p: &mut P) {
    let b = x.to_bytes();
    let tail: Vec<u8> = vp::any();
    vp::assume(tail.len() == N);
    law_back(x, &b, &tail, p)
}

/// an absent value is only distinguishable when present values are not empty
pub fn law_roundtrip_nullable<T: Encode + Decode, P: Parser>(x: &tedium::Nullable<T>, p: &mut P) {
    let b = x.to_bytes();
    let tail: Vec<u8> = Vec::new();
    vp::assume(x.is_none() || b.len() > 0);
    law_back(x, &b, &tail, p)
}
