//! P14: decoding arbitrary input never panics, only ever takes bytes from the
//! front of the innermost window, and passes the failure of a component on.
use crate::vp;
use tedium::parse::error::{ParseError, TokenError};
use tedium::parse::{ParseResult, Parser};
use tedium::conv::Decode;
use tedium::*;

fn total<X: Decode, P: Parser>(p: &mut P, plain: bool) {
    let raw: Vec<u8> = vp::any();
    vp::load(p, &raw, &[]);
    let w = vp::windows(p);
    vp::total("panics");
    let r = X::parse(p);
    if r.is_err() {
        vp::reached("refused");
    }
    // where an arbitrary component failed, nothing is known about what it left,
    // and a failure inside a window leaves that window open
    if r.is_ok() || plain && vp::windows(p).len() == w.len() {
        let rest = vp::ahead(p);
        if rest.len() <= raw.len() {
            vp::same("takes from the front", &rest[..], &raw[raw.len() - rest.len()..]);
        } else {
            vp::never("more bytes than before");
        }
    }
    vp::reached("end");
}

macro_rules! total {
    ($m:ident, [$($g:tt)*], $t:ty) => { total!($m, [$($g)*], $t, true); };
    ($m:ident, [$($g:tt)*], $t:ty, $plain:expr) => {
        pub mod $m {
            use super::*;
            pub fn p14<P: Parser, $($g)*>(p: &mut P) {
                total::<$t, P>(p, $plain)
            }
        }
    };
}
pub mod input {
    use super::*;
    macro_rules! ranged {
        ($m:ident, $b:ty) => {
            pub mod $m {
                use super::*;
                pub fn p14<P: Parser, const A: i32, const B: i32>(p: &mut P) {
                    // ranges the library declares unsound may be refused at run time
                    vp::assume(-0x4000_0000 <= A && A <= B && B <= 0x3fff_ffff);
                    total::<RangedInt<$b, A, B>, P>(p, true)
                }
            }
        };
    }
    total!(unit, [], ());
    total!(boolean, [], bool);
    total!(int_u8, [], u8);
    total!(int_i16, [], i16);
    total!(int_u32, [], u32);
    total!(int_i64, [], i64);
    total!(float, [], f64);
    total!(int_u30, [], u30);
    total!(int_i31, [], i31);
    total!(string, [], String);
    total!(natural, [], N);
    total!(integer, [], Z);
    total!(fixed_bytes, [const K: usize], FixedBytes<K>);
    total!(fixed_string, [const K: usize], FixedString<K>);
    total!(bytes, [], Bytes);
    total!(vec_u8, [], Vec<u8>);
    total!(option, [T: Decode], Option<T>, false);
    total!(autobox, [T: Decode], AutoBox<T>, false);
    total!(padded, [T: Decode, const K: usize], Padded<T, K>, false);
    total!(vpadded, [T: Decode, const K: usize], VPadded<T, K>, false);
    total!(nullable, [T: Decode], Nullable<T>, false);
    total!(dynamic_u8, [T: Decode], Dynamic<u8, T>, false);
    total!(dynamic_u16, [T: Decode], Dynamic<u16, T>, false);
    total!(dynamic_u30, [T: Decode], Dynamic<u30, T>, false);
    total!(sequence, [T: Decode], Sequence<T>, false);
    pub mod lim_seq {
        use super::*;
        pub fn p14<P: Parser, T: Decode, const K: usize>(p: &mut P) {
            vp::assume(K < usize::MAX);
            total::<LimSeq<T, K>, P>(p, false)
        }
    }
    total!(fix_seq, [T: Decode, const K: usize], FixSeq<T, K>, false);
    ranged!(ranged_u8, u8);
    ranged!(ranged_i32, i32);
    total!(ranged_float, [const A: u64, const B: u64], RangedFloat<A, B>);
}

/// a component that cannot be decoded
pub struct Faulty;
impl Decode for Faulty {
    fn parse<P: Parser>(_: &mut P) -> ParseResult<Self> {
        Err(TokenError::InvalidBoolean(0x5a).into())
    }
}
fn fault<X>(r: ParseResult<X>) -> bool {
    matches!(r, Err(ParseError::Token(TokenError::InvalidBoolean(0x5a))))
}

macro_rules! faulty {
    ($m:ident, [$($g:tt)*], $t:ty, |$p:ident| $due:expr) => {
        pub mod $m {
            use super::*;
            pub fn p14<P: Parser, $($g)*>(p: &mut P) {
                let raw: Vec<u8> = vp::any();
                vp::load(p, &raw, &[]);
                vp::total("panics");
                let $p = &raw[..];
                let due = $due;
                let r = <$t>::parse(p);
                if due {
                    vp::holds("the failure is passed on", fault(r));
                    vp::reached("failed");
                }
                vp::reached("end");
            }
        }
    };
}
pub mod component {
    use super::*;
    faulty!(option, [], Option<Faulty>, |b| b.len() > 0 && b[0] == 0xff);
    faulty!(autobox, [], AutoBox<Faulty>, |_b| true);
    faulty!(padded, [const K: usize], Padded<Faulty, K>, |_b| true);
    faulty!(vpadded, [const K: usize], VPadded<Faulty, K>, |b| b.len() >= K);
    faulty!(nullable, [], Nullable<Faulty>, |b| b.len() > 0);
    faulty!(dynamic, [], Dynamic<u8, Faulty>, |b| b.len() > 0 && b[0] as usize <= b.len() - 1);
    faulty!(sequence, [], Sequence<Faulty>, |b| b.len() > 0);
    faulty!(lim_seq, [const K: usize], LimSeq<Faulty, K>, |b| b.len() > 0);
    faulty!(fix_seq, [const K: usize], FixSeq<Faulty, K>, |b| b.len() > 0 && K > 0);
}

/// structs and enumerations made by the derives and macros
pub mod generated {
    use super::*;
    use crate::adts::{simple, sums, Greedy, Many, ManyVar, Record, RecordVar};
    total!(simple_byte, [], simple::Byte);
    total!(simple_wide, [], simple::Wide);
    total!(sum_byte, [], sums::Byte);
    total!(sum_wide, [], sums::Wide);
    total!(sum_outer, [], sums::Outer);
    total!(many, [], Many);
    total!(many_var, [], ManyVar);
    total!(record, [], Record);
    total!(record_var, [], RecordVar);
    total!(greedy, [], Greedy);

    #[derive(tedium::Decode)]
    pub struct Middle {
        pub a: u16,
        pub b: Faulty,
        pub c: u8,
    }
    faulty!(middle, [], Middle, |b| b.len() > 1);
    #[derive(tedium::Decode)]
    pub struct Last(pub u8, pub Faulty);
    faulty!(last, [], Last, |b| b.len() > 0);
}
