//! P04: the byte layout of every schema type; P08: canonical decoding;
//! P25: all ways to encode agree.
use crate::vp;
use tedium::conv::len::Estimable;
use tedium::conv::{Decode, Encode, EncodeLength};
use tedium::hexstring::HexString;
use tedium::*;

macro_rules! layout {
    ($m:ident, [$($g:tt)*], $t:ty, $inv:expr, $spec:expr) => {
        pub mod $m {
            use super::*;
            pub fn p04<$($g)*>(x: &$t) {
                let inv: fn(&$t) -> bool = $inv;
                vp::assume(inv(x));
                let spec: fn(&$t) -> Vec<u8> = $spec;
                vp::same("layout", &x.to_bytes()[..], &spec(x)[..]);
                vp::reached("end");
            }
        }
    };
}

fn join(a: Vec<u8>, b: Vec<u8>) -> Vec<u8> {
    let mut v = a;
    v.extend_from_slice(&b);
    v
}

layout!(unit, [], (), |_| true, |_| Vec::new());
layout!(boolean, [], bool, |_| true, |x| if *x { vec![0xff] } else { vec![0x00] });
layout!(int_u8, [], u8, |_| true, |x| vec![*x]);
layout!(int_i8, [], i8, |_| true, |x| vec![*x as u8]);
layout!(int_u16, [], u16, |_| true, |x| x.to_be_bytes().to_vec());
layout!(int_i16, [], i16, |_| true, |x| x.to_be_bytes().to_vec());
layout!(int_u32, [], u32, |_| true, |x| x.to_be_bytes().to_vec());
layout!(int_i32, [], i32, |_| true, |x| x.to_be_bytes().to_vec());
layout!(int_u64, [], u64, |_| true, |x| x.to_be_bytes().to_vec());
layout!(int_i64, [], i64, |_| true, |x| x.to_be_bytes().to_vec());
layout!(float, [], f64, |_| true, |x| x.to_bits().to_be_bytes().to_vec());
layout!(int_u30, [], u30, |_| true, |x| x.to_underlying().to_be_bytes().to_vec());
layout!(int_i31, [], i31, |_| true, |x| x.to_underlying().to_be_bytes().to_vec());
layout!(ranged_u8, [const A: i32, const B: i32], RangedInt<u8, A, B>, |_| true, |x| vec![x.to_underlying()]);
layout!(ranged_i8, [const A: i32, const B: i32], RangedInt<i8, A, B>, |_| true, |x| vec![x.to_underlying() as u8]);
layout!(ranged_u16, [const A: i32, const B: i32], RangedInt<u16, A, B>, |_| true, |x| x.to_underlying().to_be_bytes().to_vec());
layout!(ranged_i16, [const A: i32, const B: i32], RangedInt<i16, A, B>, |_| true, |x| x.to_underlying().to_be_bytes().to_vec());
layout!(ranged_u32, [const A: i32, const B: i32], RangedInt<u32, A, B>, |_| true, |x| x.to_underlying().to_be_bytes().to_vec());
layout!(ranged_i32, [const A: i32, const B: i32], RangedInt<i32, A, B>, |_| true, |x| x.to_underlying().to_be_bytes().to_vec());
layout!(ranged_float, [const A: u64, const B: u64], RangedFloat<A, B>, |_| true, |x| x.as_f64().to_bits().to_be_bytes().to_vec());
layout!(fixed_bytes, [const K: usize], FixedBytes<K>, |_| true, |x| { let b: &[u8] = x.as_ref(); b.to_vec() });
layout!(fixed_string, [const K: usize], FixedString<K>, |_| true, |x| unsafe { x.as_str_unchecked() }.as_bytes().to_vec());
layout!(bytes, [], Bytes, |_| true, |x| { let b: &[u8] = x.as_ref(); b.to_vec() });
layout!(vec_u8, [], Vec<u8>, |_| true, |x| x.clone());
layout!(string, [], String, |_| true, |x| x.as_bytes().to_vec());
layout!(option, [T: Encode], Option<T>, |_| true, |x| match x {
    None => vec![0x00],
    Some(y) => join(vec![0xff], y.to_bytes()),
});
layout!(autobox, [T: Encode], AutoBox<T>, |_| true, |x| { let y: &T = x.as_ref(); y.to_bytes() });
layout!(padded, [T: Encode, const K: usize], Padded<T, K>, |_| true, |x| join(x.as_inner().to_bytes(), vec![0u8; K]));
layout!(vpadded, [T: Encode + Clone, const K: usize], VPadded<T, K>, |_| true, |x| x.clone().into_inner().to_bytes());
layout!(nullable, [T: Encode], Nullable<T>, |_| true, |x| match x.as_inner() {
    None => vec![],
    Some(y) => y.to_bytes(),
});
layout!(dynamic_u8, [T: EncodeLength], Dynamic<u8, T>, |x| { let y: &T = x.as_ref(); y.to_bytes().len() <= 0xff },
    |x| { let y: &T = x.as_ref(); let b = y.to_bytes(); join(vec![b.len() as u8], b) });
layout!(dynamic_u16, [T: EncodeLength], Dynamic<u16, T>, |x| { let y: &T = x.as_ref(); y.to_bytes().len() <= 0xffff },
    |x| { let y: &T = x.as_ref(); let b = y.to_bytes(); join((b.len() as u16).to_be_bytes().to_vec(), b) });
layout!(dynamic_u30, [T: EncodeLength], Dynamic<u30, T>, |x| { let y: &T = x.as_ref(); y.to_bytes().len() <= 0x3fff_ffff },
    |x| { let y: &T = x.as_ref(); let b = y.to_bytes(); join((b.len() as u32).to_be_bytes().to_vec(), b) });

fn all<T: Encode>(x: &[T]) -> Vec<u8> {
    let mut v = Vec::new();
    for e in x {
        v.extend_from_slice(&e.to_bytes());
    }
    v
}
layout!(sequence, [T: Encode], Sequence<T>, |_| true, |x| all(&x[..]));
layout!(lim_seq, [T: Encode, const K: usize], LimSeq<T, K>, |x| x.len() <= K, |x| all(&x[..]));
layout!(fix_seq, [T: Encode, const K: usize], FixSeq<T, K>, |x| x.len() == K, |x| all(&x[..]));

// ---------------------------------------------------------------- canonical decoding
/// whatever a decoder accepts is the encoding of what it returns
pub fn law_canonical<X: Encode + Decode, P: Parser>(p: &mut P, inv: fn(&X) -> bool) {
    let raw: Vec<u8> = vp::any();
    vp::load(p, &raw, &[]);
    let w = vp::windows(p);
    if let Ok(y) = X::parse(p) {
        vp::reached("accepted");
        vp::holds("domain", inv(&y));
        let mut b = y.to_bytes();
        b.extend_from_slice(&vp::ahead(p));
        vp::same("canonical", &b[..], &raw[..]);
        vp::same("windows", &vp::windows(p), &w);
        vp::reached("end");
    }
}

macro_rules! canon {
    ($m:ident, [$($g:tt)*], $t:ty, $inv:expr) => {
        pub mod $m {
            use super::super::*;
            pub fn p08<P: Parser, $($g)*>(p: &mut P) {
                law_canonical::<$t, P>(p, $inv)
            }
        }
    };
}
pub mod accept {
    canon!(unit, [], (), |_| true);
    canon!(boolean, [], bool, |_| true);
    canon!(int_u8, [], u8, |_| true);
    canon!(int_i8, [], i8, |_| true);
    canon!(int_u16, [], u16, |_| true);
    canon!(int_i16, [], i16, |_| true);
    canon!(int_u32, [], u32, |_| true);
    canon!(int_i32, [], i32, |_| true);
    canon!(int_u64, [], u64, |_| true);
    canon!(int_i64, [], i64, |_| true);
    canon!(float, [], f64, |_| true);
    canon!(int_u30, [], u30, |x| unsafe { x.to_underlying_unchecked() } <= 0x3fff_ffff);
    canon!(int_i31, [], i31, |x| unsafe { -0x4000_0000 <= x.to_underlying_unchecked() && x.to_underlying_unchecked() <= 0x3fff_ffff });
    canon!(ranged_u8, [const A: i32, const B: i32], RangedInt<u8, A, B>, |x| in_range(unsafe { x.to_underlying_unchecked() } as i64, A, B));
    canon!(ranged_i8, [const A: i32, const B: i32], RangedInt<i8, A, B>, |x| in_range(unsafe { x.to_underlying_unchecked() } as i64, A, B));
    canon!(ranged_u16, [const A: i32, const B: i32], RangedInt<u16, A, B>, |x| in_range(unsafe { x.to_underlying_unchecked() } as i64, A, B));
    canon!(ranged_i16, [const A: i32, const B: i32], RangedInt<i16, A, B>, |x| in_range(unsafe { x.to_underlying_unchecked() } as i64, A, B));
    canon!(ranged_u32, [const A: i32, const B: i32], RangedInt<u32, A, B>, |x| in_range(unsafe { x.to_underlying_unchecked() } as i64, A, B));
    canon!(ranged_i32, [const A: i32, const B: i32], RangedInt<i32, A, B>, |x| in_range(unsafe { x.to_underlying_unchecked() } as i64, A, B));
    canon!(ranged_float, [const A: u64, const B: u64], RangedFloat<A, B>, |x| *x.as_f64() >= RangedFloat::<A, B>::MIN_F64 && *x.as_f64() <= RangedFloat::<A, B>::MAX_F64);
    canon!(fixed_bytes, [const K: usize], FixedBytes<K>, |_| true);
    canon!(fixed_string, [const K: usize], FixedString<K>, |_| true);
    canon!(bytes, [], Bytes, |_| true);
    canon!(vec_u8, [], Vec<u8>, |_| true);
    canon!(option, [T: Encode + Decode], Option<T>, |_| true);
    canon!(autobox, [T: Encode + Decode], AutoBox<T>, |_| true);
    canon!(vpadded, [T: Encode + Decode, const K: usize], VPadded<T, K>, |_| true);
    canon!(nullable, [T: Encode + Decode], Nullable<T>, |_| true);
    canon!(dynamic_u8, [T: EncodeLength + Decode], Dynamic<u8, T>, |_| true);
    canon!(dynamic_u16, [T: EncodeLength + Decode], Dynamic<u16, T>, |_| true);
    canon!(dynamic_u30, [T: EncodeLength + Decode], Dynamic<u30, T>, |_| true);
    canon!(sequence, [T: Encode + Decode], Sequence<T>, |_| true);
    canon!(lim_seq, [T: Encode + Decode, const K: usize], LimSeq<T, K>, |x| x.len() <= K);
    canon!(fix_seq, [T: Encode + Decode, const K: usize], FixSeq<T, K>, |x| x.len() == K);
}

fn in_range(x: i64, a: i32, b: i32) -> bool {
    if a > 0 {
        // a positive lower bound is an offset: the stored value counts from it
        0 <= x && x <= b as i64 - a as i64
    } else {
        a as i64 <= x && x <= b as i64
    }
}

// ---------------------------------------------------------------- entry points
macro_rules! entry {
    ($m:ident, [$($g:tt)*], $t:ty, $inv:expr) => {
        pub mod $m {
            use super::super::*;
            pub fn p25<$($g)*>(x: &$t) {
                let inv: fn(&$t) -> bool = $inv;
                vp::assume(inv(x));
                law_entry(x)
            }
        }
    };
}

pub fn law_entry<X: EncodeLength>(x: &X) {
    let mut a: Vec<u8> = vp::any();
    let before = a.clone();
    let n = x.write_to(&mut a);
    let b = x.to_bytes();
    vp::assume(b.len() <= isize::MAX as usize && before.len() <= isize::MAX as usize - b.len());
    vp::same("write_to vs to_bytes", &a[..], &join(before.clone(), b.clone())[..]);
    let mut c = before.clone();
    x.write_to_vec(&mut c);
    vp::same("write_to_vec vs write_to", &c[..], &a[..]);
    vp::same("encode", &x.encode::<Vec<u8>>()[..], &b[..]);
    vp::holds("enc_len", x.enc_len() == b.len());
    vp::holds("count", n == b.len());
    vp::same("to_bytes_full", &x.to_bytes_full()[..], &b[..]);
    vp::same("hex target", &x.encode::<HexString>().into_inner()[..], &b[..]);
    vp::holds("counter", x.write_to(&mut <tedium::conv::target::ByteCounter as Target>::create()) == n);
    vp::reached("end");
}

pub mod entries {
    entry!(unit, [], (), |_| true);
    entry!(boolean, [], bool, |_| true);
    entry!(int_u8, [], u8, |_| true);
    entry!(int_i16, [], i16, |_| true);
    entry!(int_u32, [], u32, |_| true);
    entry!(int_i64, [], i64, |_| true);
    entry!(float, [], f64, |_| true);
    entry!(int_u30, [], u30, |_| true);
    entry!(int_i31, [], i31, |_| true);
    entry!(ranged_float, [const A: u64, const B: u64], RangedFloat<A, B>, |_| true);
    entry!(fixed_bytes, [const K: usize], FixedBytes<K>, |_| true);
    entry!(fixed_string, [const K: usize], FixedString<K>, |_| true);
    entry!(bytes, [], Bytes, |_| true);
    entry!(vec_u8, [], Vec<u8>, |_| true);
    entry!(string, [], String, |_| true);
    entry!(option, [T: Encode + Estimable], Option<T>, |_| true);
    entry!(autobox, [T: Encode + Estimable], AutoBox<T>, |_| true);
    entry!(padded, [T: Encode + Estimable, const K: usize], Padded<T, K>, |_| true);
    entry!(vpadded, [T: Encode + Estimable, const K: usize], VPadded<T, K>, |_| true);
    entry!(nullable, [T: Encode + Estimable], Nullable<T>, |_| true);
    entry!(dynamic_u8, [T: Encode + Estimable], Dynamic<u8, T>, |_| true);
    entry!(dynamic_u30, [T: Encode + Estimable], Dynamic<u30, T>, |_| true);
    entry!(sequence, [T: Encode + Estimable], Sequence<T>, |_| true);
    entry!(lim_seq, [T: Encode + Estimable, const K: usize], LimSeq<T, K>, |x| x.len() <= K);
    entry!(fix_seq, [T: Encode + Estimable, const K: usize], FixSeq<T, K>, |x| x.len() == K);
}

/// types that extend to the end of their context leave nothing of it behind
pub mod whole {
    use super::*;
    macro_rules! whole {
        ($m:ident, [$($g:tt)*], $t:ty) => {
            pub mod $m {
                use super::*;
                pub fn p08<P: Parser, $($g)*>(p: &mut P) {
                    if let Ok(_) = <$t as Decode>::parse(p) {
                        vp::holds("used up", vp::ahead(p).is_empty());
                        vp::reached("end");
                    }
                }
            }
        };
    }
    whole!(bytes, [], Bytes);
    whole!(vec_u8, [], Vec<u8>);
    whole!(string, [], String);
    whole!(sequence, [T: Decode], Sequence<T>);
    whole!(lim_seq, [T: Decode, const K: usize], LimSeq<T, K>);
}
