//! P06: length-prefixed values.
use crate::vp;
use tedium::conv::EncodeLength;
use tedium::error::WidthError;
use tedium::*;

macro_rules! prefixed {
    ($m:ident, $s:ty, $i:ty, $w:literal, $max:literal) => {
        pub mod $m {
            use super::*;
            const W: usize = $w;
            const MAX: usize = $max;
            /// the announced number, as it stands in the first bytes
            fn head(raw: &[u8]) -> usize {
                let mut n = 0usize;
                let mut i = 0;
                while i < W {
                    n = n * 256 + raw[i] as usize;
                    i += 1;
                }
                n
            }

            /// the prefix that is written is the size of the payload written
            pub fn p06_written<T: EncodeLength>(x: &Dynamic<$s, T>, v: &mut Vec<u8>) {
                let before = v.len();
                let y: &T = x.as_ref();
                let payload = y.to_bytes();
                x.write_to(v);
                vp::holds("size", v.len() == before + W + payload.len());
                let mut b = [0u8; W];
                b.copy_from_slice(&v[before..before + W]);
                vp::holds("prefix", <$i>::from_be_bytes(b) as usize == payload.len());
                vp::same("payload", &v[before + W..], &payload[..]);
                vp::reached("end");
            }
            /// a payload that cannot be announced is never written
            pub fn p06_oversize<T: EncodeLength, U: Target>(x: &Dynamic<$s, T>, u: &mut U) {
                let y: &T = x.as_ref();
                vp::assume(y.to_bytes().len() > MAX);
                vp::holds("oversize", y.to_bytes().len() > 0);
                vp::reached("oversize");
                x.write_to(u);
                vp::never("written");
            }
            /// none within the limit is refused
            pub fn p06_writable<T: EncodeLength, U: Target>(x: &Dynamic<$s, T>, u: &mut U) {
                let y: &T = x.as_ref();
                vp::assume(y.to_bytes().len() <= MAX);
                vp::total("panics");
                let n = x.write_to(u);
                vp::holds("count", n == W + y.to_bytes().len());
                vp::reached("end");
            }
            /// asking for the prefix alone
            pub fn p06_prefix<T: EncodeLength>(x: &Dynamic<$s, T>) {
                let y: &T = x.as_ref();
                let n = y.to_bytes().len();
                vp::total("panics");
                match x.length_prefix() {
                    Ok(p) => {
                        vp::holds("prefix", Into::<usize>::into(p) == n);
                        vp::reached("ok");
                    }
                    Err(WidthError::TooWide { limit, actual }) => {
                        vp::holds("oversize", n > MAX);
                        vp::holds("limit", limit == MAX);
                        vp::holds("actual", actual == n);
                        vp::reached("too wide");
                    }
                    Err(_) => vp::never("other error"),
                }
            }
            /// bytes: exactly the announced ones, or an error
            pub fn p06_bytes<P: Parser>(p: &mut P) {
                let raw: Vec<u8> = vp::any();
                vp::load(p, &raw, &[]);
                let w = vp::windows(p);
                vp::total("panics");
                match Dynamic::<$s, Bytes>::parse(p) {
                    Ok(x) => {
                        let n = head(&raw);
                        let b: Vec<u8> = x.into_inner().into();
                        vp::same("content", &b[..], &raw[W..W + n]);
                        vp::same("rest", &vp::ahead(p)[..], &raw[W + n..]);
                        vp::same("windows", &vp::windows(p), &w);
                        vp::reached("ok");
                    }
                    Err(_) => {
                        if raw.len() >= W {
                            let n = head(&raw);
                            vp::holds("does not fit", n > MAX || n > raw.len() - W);
                            vp::reached("does not fit");
                        } else {
                            vp::reached("no prefix");
                        }
                    }
                }
            }
            /// a payload of a fixed size: the announced size must be that size
            pub fn p06_fixed<P: Parser>(p: &mut P) {
                let raw: Vec<u8> = vp::any();
                vp::load(p, &raw, &[]);
                vp::total("panics");
                match Dynamic::<$s, u32>::parse(p) {
                    Ok(x) => {
                        vp::holds("announced", head(&raw) == 4);
                        vp::same("content", &x.into_inner().to_be_bytes()[..], &raw[W..W + 4]);
                        vp::same("rest", &vp::ahead(p)[..], &raw[W + 4..]);
                        vp::reached("ok");
                    }
                    Err(_) => {
                        if raw.len() >= W {
                            vp::holds("wrong size", head(&raw) != 4 || raw.len() < W + 4);
                            vp::reached("wrong size");
                        }
                    }
                }
            }
            /// an empty payload
            pub fn p06_empty<P: Parser>(p: &mut P) {
                let raw: Vec<u8> = vp::any();
                vp::load(p, &raw, &[]);
                vp::total("panics");
                match Dynamic::<$s, ()>::parse(p) {
                    Ok(_) => {
                        vp::holds("announced", head(&raw) == 0);
                        vp::same("rest", &vp::ahead(p)[..], &raw[W..]);
                        vp::reached("ok");
                    }
                    Err(_) => {
                        if raw.len() >= W {
                            vp::holds("not empty", head(&raw) != 0);
                            vp::reached("not empty");
                        }
                    }
                }
            }
            /// a list of numbers: all of them, nothing else
            pub fn p06_list<P: Parser>(p: &mut P, j: usize) {
                let raw: Vec<u8> = vp::any();
                vp::load(p, &raw, &[]);
                match Dynamic::<$s, Sequence<u16>>::parse(p) {
                    Ok(x) => {
                        let n = head(&raw);
                        let l: Vec<u16> = x.into_inner().into_inner();
                        vp::holds("count", 2 * l.len() == n);
                        vp::assume(j < l.len());
                        vp::same("element", &l[j].to_be_bytes()[..], &raw[W + 2 * j..W + 2 * j + 2]);
                        vp::same("rest", &vp::ahead(p)[..], &raw[W + n..]);
                        vp::reached("ok");
                    }
                    Err(_) => {
                        if raw.len() >= W {
                            let n = head(&raw);
                            vp::holds("does not fit", n > MAX || n > raw.len() - W || n % 2 != 0);
                            vp::reached("does not fit");
                        }
                    }
                }
            }
            /// the inner announcement cannot reach past the outer one
            pub fn p06_nested<P: Parser>(p: &mut P) {
                let raw: Vec<u8> = vp::any();
                vp::load(p, &raw, &[]);
                let w = vp::windows(p);
                vp::total("panics");
                match Dynamic::<$s, Dynamic<u8, Bytes>>::parse(p) {
                    Ok(x) => {
                        let n = head(&raw);
                        let b: Vec<u8> = x.into_inner().into_inner().into();
                        vp::holds("inner fits exactly", n == 1 + raw[W] as usize);
                        vp::same("content", &b[..], &raw[W + 1..W + n]);
                        vp::same("rest", &vp::ahead(p)[..], &raw[W + n..]);
                        vp::same("windows", &vp::windows(p), &w);
                        vp::reached("ok");
                    }
                    Err(_) => {
                        if raw.len() > W {
                            let n = head(&raw);
                            vp::holds("does not fit", n > MAX || n > raw.len() - W || n != 1 + raw[W] as usize);
                            vp::reached("does not fit");
                        }
                    }
                }
            }
            /// reading the announcement alone
            pub fn p06_announced<P: Parser>(p: &mut P) {
                let raw: Vec<u8> = vp::any();
                vp::load(p, &raw, &[]);
                vp::total("panics");
                match <$s as tedium::dynamic::LenPref>::parse_as_usize(p) {
                    Ok(n) => {
                        vp::holds("number", n == head(&raw) && n <= MAX);
                        vp::same("rest", &vp::ahead(p)[..], &raw[W..]);
                        vp::reached("ok");
                    }
                    Err(_) => {
                        vp::holds("too short or too large", raw.len() < W || head(&raw) > MAX);
                        vp::reached("err");
                    }
                }
                vp::holds("max_len", <$s as tedium::dynamic::LenPref>::max_len() == MAX);
            }
        }
    };
}
prefixed!(dynamic_u8, u8, u8, 1, 0xff);
prefixed!(dynamic_u16, u16, u16, 2, 0xffff);
prefixed!(dynamic_u30, u30, u32, 4, 0x3fff_ffff);
