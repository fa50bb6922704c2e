//! P24: arbitrary-precision naturals and integers.
use crate::vp;
use num_bigint::{BigInt, BigUint, Sign};
use tedium::conv::len::Estimable;
use tedium::parse::error::TokenError;
use tedium::*;

/// groups of seven bits, least significant first; every byte but the last has its high bit set
fn chained(got: &[u8], d: &[u8]) {
    let n = d.len();
    vp::holds("one byte per group", got.len() == n);
    vp::holds("last byte", got[n - 1] == d[n - 1]);
    let j: usize = vp::any();
    vp::assume(j < n - 1);
    vp::instance(j);
    vp::holds("continued byte", got[j] == d[j] + 0x80);
    vp::reached("continued");
}

pub mod natural {
    use super::*;
    pub mod layout {
        use super::*;
        pub fn p24(x: &BigUint) {
            vp::total("panics");
            let b = N(x.clone()).to_bytes();
            chained(&b[..], &x.to_radix_le(128)[..]);
        }
    }
    pub mod count {
        use super::*;
        pub fn p24<U: Target>(x: &BigUint, u: &mut U) {
            let before = vp::written(u);
            let n = N(x.clone()).write_to(u);
            let after = vp::written(u);
            vp::holds("count", after.len() == before.len() + n);
            vp::holds("append", after.starts_with(&before));
            vp::reached("end");
        }
    }
    pub mod length {
        use super::*;
        pub fn p24(x: &BigUint) {
            let v = N(x.clone());
            let n = v.to_bytes().len();
            vp::holds("unknown", v.unknown() == n);
            vp::holds("estimate", v.estimate() == n);
            vp::holds("no constant length", N::KNOWN.is_none());
            vp::reached("end");
        }
    }
    pub mod roundtrip {
        use super::*;
        pub fn p24<P: Parser>(x: &BigUint, tail: &[u8], p: &mut P) {
            vp::total("panics");
            let b = N(x.clone()).to_bytes();
            vp::load(p, &b[..], tail);
            match N::parse(p) {
                Ok(y) => {
                    vp::same("value", x, &y.0);
                    vp::same("rest", &vp::ahead(p)[..], tail);
                    vp::reached("end");
                }
                Err(_) => vp::never("rejected"),
            }
        }
    }
}

pub mod integer {
    use super::*;
    /// sign and low six bits in the first byte, then groups of seven bits
    fn groups(x: &BigInt) -> Vec<u8> {
        let m = x.magnitude();
        let neg: u8 = if x.sign() == Sign::Minus { 0x40 } else { 0 };
        let low: BigUint = m & BigUint::from(0x3fu8);
        let low = match u8::try_from(low) {
            Ok(b) => b,
            Err(_) => {
                vp::never("six bits");
                0
            }
        };
        let mut d = vec![low + neg];
        let rest: BigUint = m >> 6u32;
        if rest > BigUint::from(0u8) {
            d.extend_from_slice(&rest.to_radix_le(128)[..]);
        }
        d
    }
    pub mod layout {
        use super::*;
        pub fn p24(x: &BigInt) {
            vp::total("panics");
            let b = Z(x.clone()).to_bytes();
            chained(&b[..], &groups(x)[..]);
        }
    }
    pub mod count {
        use super::*;
        pub fn p24<U: Target>(x: &BigInt, u: &mut U) {
            let before = vp::written(u);
            let n = Z(x.clone()).write_to(u);
            let after = vp::written(u);
            vp::holds("count", after.len() == before.len() + n);
            vp::holds("append", after.starts_with(&before));
            vp::reached("end");
        }
    }
    pub mod length {
        use super::*;
        pub fn p24(x: &BigInt) {
            let v = Z(x.clone());
            let n = v.to_bytes().len();
            vp::holds("unknown", v.unknown() == n);
            vp::holds("estimate", v.estimate() == n);
            vp::holds("no constant length", Z::KNOWN.is_none());
            vp::reached("end");
        }
    }
    pub mod roundtrip {
        use super::*;
        pub fn p24<P: Parser>(x: &BigInt, tail: &[u8], p: &mut P) {
            vp::total("panics");
            let b = Z(x.clone()).to_bytes();
            vp::load(p, &b[..], tail);
            match Z::parse(p) {
                Ok(y) => {
                    vp::same("value", x, &y.0);
                    vp::same("rest", &vp::ahead(p)[..], tail);
                    vp::reached("end");
                }
                Err(_) => vp::never("rejected"),
            }
        }
    }
}

/// what is read is exactly the bytes up to the first one whose high bit is clear
fn delimited<P: Parser>(c: &[u8], p: &P) -> usize {
    let n = c.len() - vp::ahead(p).len();
    vp::holds("something read", 0 < n && n <= c.len());
    vp::same("rest", &vp::ahead(p)[..], &c[n..]);
    vp::holds("ends at a terminator", c[n - 1] < 0x80);
    let j: usize = vp::any();
    if j < n - 1 {
        vp::instance(j);
        vp::holds("stops at the first terminator", c[j] >= 0x80);
    }
    n
}

fn unfinished(c: &[u8], e: ParseError) {
    match e {
        ParseError::Token(TokenError::NonTerminating(_)) => {
            let j: usize = vp::any();
            vp::assume(j < c.len());
            vp::instance(j);
            vp::holds("no terminator", c[j] >= 0x80);
            vp::reached("unfinished");
        }
        _ => vp::never("kind of error"),
    }
}

fn value_of(c: &[u8]) -> BigUint {
    let mut d: Vec<u8> = Vec::new();
    for b in c {
        d.push(*b % 128);
    }
    match BigUint::from_radix_le(&d[..], 128) {
        Some(x) => x,
        None => {
            vp::never("digits");
            loop {}
        }
    }
}

pub mod decode {
    use super::*;
    pub mod natural {
        use super::*;
        pub fn p24<P: Parser>(c: &[u8], p: &mut P) {
            vp::total("panics");
            vp::load(p, c, &[]);
            match N::parse(p) {
                Ok(y) => {
                    let n = delimited(c, p);
                    vp::same("value", &y.0, &value_of(&c[..n]));
                    vp::reached("read");
                }
                Err(e) => unfinished(c, e),
            }
        }
    }
    pub mod integer {
        use super::*;
        pub fn p24<P: Parser>(c: &[u8], p: &mut P) {
            vp::total("panics");
            vp::load(p, c, &[]);
            match Z::parse(p) {
                Ok(y) => {
                    let n = delimited(c, p);
                    let low = BigUint::from(c[0] % 64);
                    let m = (value_of(&c[1..n]) << 6u32) + low;
                    let want = if c[0] & 0x40 == 0 { BigInt::from(m) } else { -BigInt::from(m) };
                    vp::same("value", &y.0, &want);
                    vp::reached("read");
                }
                Err(e) => unfinished(c, e),
            }
        }
    }
}

pub mod conversions {
    use super::*;
    pub mod keeps {
        use super::*;
        pub fn p24(x: &BigUint, y: &BigInt) {
            let n: N = x.clone().into();
            vp::same("natural", &n.0, x);
            vp::same("as_inner", n.as_inner(), x);
            vp::same("deref", &*n, x);
            vp::same("into_inner", &n.clone().into_inner(), x);
            vp::same("new", &N::new(x.clone()).0, x);
            vp::same("default", &N::default().0, &BigUint::from(0u8));
            let b: BigUint = n.into();
            vp::same("back", &b, x);
            vp::same("integer as_inner", Z(y.clone()).as_inner(), y);
            vp::same("integer deref", &*Z(y.clone()), y);
            vp::same("integer into_inner", &Z(y.clone()).into_inner(), y);
            vp::same("integer new", &Z::new(y.clone()).0, y);
            vp::same("integer default", &Z::default().0, &BigInt::from(0u8));
            let b: BigInt = Z(y.clone()).into();
            vp::same("integer back", &b, y);
            vp::reached("end");
        }
    }
    macro_rules! narrow {
        ($($m:ident: $S:ident($B:ident) -> $t:ty),*) => {$(
            pub mod $m {
                use super::*;
                pub fn p24(x: &$B) {
                    vp::total("panics");
                    let r: Result<$t, _> = <$t>::try_from($S(x.clone()));
                    let fits = *x >= $B::from(<$t>::MIN) && *x <= $B::from(<$t>::MAX);
                    match r {
                        Ok(v) => {
                            vp::holds("fits", fits);
                            vp::same("value", &$B::from(v), x);
                            vp::reached("fits");
                        }
                        Err(_) => {
                            vp::holds("does not fit", !fits);
                            vp::reached("does not fit");
                        }
                    }
                }
            }
        )*};
    }
    narrow!(n_u8: N(BigUint) -> u8, n_u16: N(BigUint) -> u16, n_u32: N(BigUint) -> u32, n_u64: N(BigUint) -> u64);
    narrow!(z_u8: Z(BigInt) -> u8, z_u16: Z(BigInt) -> u16, z_u32: Z(BigInt) -> u32, z_u64: Z(BigInt) -> u64);
    narrow!(z_i8: Z(BigInt) -> i8, z_i16: Z(BigInt) -> i16, z_i32: Z(BigInt) -> i32, z_i64: Z(BigInt) -> i64);
}
