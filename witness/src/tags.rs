//! P31: closed sets of tags, tag words, and keyed lookup.
use crate::vp;
use tedium::parse::error::{ParseError, TagValidator, TokenError};
use tedium::parse::ParserExt;
use tedium::*;

/// every kind of tag set answers membership alike
macro_rules! sets {
    ($m:ident, $t:ty, $err:ident) => {
        pub mod $m {
            use super::*;
            fn law<V: TagValidator<$t>>(v: V, all: &[$t], x: $t) {
                vp::total("panics");
                vp::holds("is_valid", v.is_valid(x) == all.contains(&x));
                vp::holds("has_valid", v.has_valid() == (all.len() > 0));
                vp::same("into_valid", &v.into_valid()[..], all);
                vp::reached("end");
            }
            pub fn p31_array<const K: usize>(a: [$t; K], x: $t) {
                vp::assume(K <= 1 << 40);
                law(a, &a.to_vec()[..], x)
            }
            pub fn p31_array_ref<const K: usize>(a: &[$t; K], x: $t) {
                vp::assume(K <= 1 << 40);
                law(a, &a[..], x)
            }
            pub fn p31_slice(a: &[$t], x: $t) {
                law(a, a, x)
            }
            pub fn p31_vec(a: Vec<$t>, x: $t) {
                let all = a.clone();
                law(a, &all[..], x)
            }
            pub fn p31_vec_ref(a: &Vec<$t>, x: $t) {
                law(a, &a[..], x)
            }
            /// one tag is read; exactly the tags of the set are let through
            pub fn p31_take<P: Parser>(p: &mut P, valid: &[$t]) {
                let raw: Vec<u8> = vp::any();
                vp::load(p, &raw, &[]);
                let w = vp::windows(p);
                vp::total("panics");
                const N: usize = std::mem::size_of::<$t>();
                match p.take_tagword::<(), $t, _>(valid) {
                    Ok(t) => {
                        vp::holds("valid", valid.contains(&t));
                        vp::same("next bytes", &raw[..N], &t.to_be_bytes()[..]);
                        vp::same("rest", &vp::ahead(p)[..], &raw[N..]);
                        vp::same("windows", &vp::windows(p), &w);
                        vp::reached("ok");
                    }
                    Err(e) => {
                        if raw.len() >= N {
                            let mut b = [0u8; N];
                            b.copy_from_slice(&raw[..N]);
                            let t = <$t>::from_be_bytes(b);
                            vp::holds("refused", !valid.contains(&t));
                            if valid.len() > 0 {
                                vp::holds("told why", matches!(e, ParseError::Token(TokenError::$err(_))));
                            }
                            vp::reached("not a tag");
                        } else {
                            vp::reached("too short");
                        }
                    }
                }
            }
        }
    };
}
sets!(tag_u8, u8, InvalidTagU8);
sets!(tag_u16, u16, InvalidTagU16);
sets!(tag_u32, u32, InvalidTagU30);

/// the first entry with the key is found, and only that
macro_rules! lookup {
    ($m:ident, $k:literal, $v:literal) => {
        pub mod $m {
            use super::*;
            const KEY: usize = $k;
            const VAL: usize = $v;
            pub fn p31_lookup<P: Parser + ParserExt>(p: &mut P, key: &[u8; KEY], j: usize) {
                let raw: Vec<u8> = vp::any();
                vp::load(p, &raw, &[]);
                let w = vp::windows(p);
                vp::total("panics");
                let r = p.fast_kv_search::<[u8; KEY], [u8; VAL], _, KEY, VAL>(key, |x| x);
                let rest = vp::ahead(p);
                match r {
                    Ok(Some(v)) => {
                        let at = raw.len() - rest.len();
                        vp::holds("an entry", at >= KEY + VAL && at % (KEY + VAL) == 0);
                        vp::same("key", &raw[at - VAL - KEY..at - VAL], &key[..]);
                        vp::same("value", &raw[at - VAL..at], &v[..]);
                        vp::same("rest", &rest[..], &raw[at..]);
                        vp::same("windows", &vp::windows(p), &w);
                        vp::assume(j < at / (KEY + VAL) - 1);
                        vp::instance(j);
                        vp::holds("first", raw[j * (KEY + VAL)..j * (KEY + VAL) + KEY] != key[..]);
                        vp::reached("found");
                    }
                    Ok(None) => {
                        vp::holds("searched all", rest.len() == 0);
                        vp::holds("whole entries", raw.len() % (KEY + VAL) == 0);
                        vp::same("windows", &vp::windows(p), &w);
                        vp::assume(j < raw.len() / (KEY + VAL));
                        vp::instance(j);
                        vp::holds("none", raw[j * (KEY + VAL)..j * (KEY + VAL) + KEY] != key[..]);
                        vp::reached("none");
                    }
                    Err(_) => {
                        vp::holds("only for a torn entry", raw.len() % (KEY + VAL) != 0);
                        vp::reached("torn");
                    }
                }
            }
        }
    };
}
lookup!(lookup_2_1, 2, 1);
lookup!(lookup_1_1, 1, 1);
lookup!(lookup_1_4, 1, 4);
lookup!(lookup_3_2, 3, 2);
lookup!(lookup_4_1, 4, 1);
