//! P33: decoding a whole input.
use crate::vp;
use std::borrow::Cow;
use tedium::conv::error::DecodeError;
use tedium::conv::{Decode, DecodeResult};
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::cleanup::LeftoverState;
use tedium::parse::{byteparser::ByteParser, memoparser::MemoParser, sliceparser::SliceParser};
use tedium::*;

const STRICT: bool = cfg!(feature = "check_complete_parse");

/// what `try_decode` made of `b`, against parsing the same bytes with `p`
fn agrees<T: Decode, P: Parser>(b: &[u8], got: DecodeResult<T>, p: &mut P) {
    match T::parse(p) {
        Ok(want) => {
            let r = p.remainder();
            if STRICT && r > 0 {
                match got {
                    Err(DecodeError::NonEmpty(LeftoverState::Windowless(v))) => {
                        vp::same("leftover", &v[..], &b[b.len() - r..]);
                        vp::reached("leftover");
                    }
                    _ => vp::never("leftover bytes not reported"),
                }
            } else {
                match got {
                    Ok(v) => {
                        vp::same("value", &v, &want);
                        vp::reached("decoded");
                    }
                    Err(_) => vp::never("refused"),
                }
            }
        }
        Err(_) => match got {
            Err(DecodeError::Parse(_)) => vp::reached("malformed"),
            _ => vp::never("malformed input accepted"),
        },
    }
}

fn success<T>(r: DecodeResult<T>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => {
            vp::never("decoded");
            loop {}
        }
    }
}

macro_rules! whole {
    ($($m:ident: $t:ty),*) => {$(
        pub mod $m {
            use super::*;
            pub mod byte {
                use super::*;
                pub fn p33(b: &[u8]) {
                    vp::total("panics");
                    agrees::<$t, _>(b, <$t>::try_decode::<&[u8], ByteParser>(b), &mut ByteParser::from_buffer(b.into()))
                }
            }
            pub mod memo {
                use super::*;
                pub fn p33(b: &[u8]) {
                    vp::total("panics");
                    agrees::<$t, _>(b, <$t>::try_decode::<&[u8], MemoParser>(b), &mut MemoParser::from_buffer(b.into()))
                }
            }
            pub mod slice {
                use super::*;
                pub fn p33(b: &[u8]) {
                    vp::total("panics");
                    agrees::<$t, _>(b, <$t>::try_decode::<&[u8], SliceParser>(b), &mut SliceParser::from_buffer(b.into()))
                }
            }
            pub mod decode {
                use super::*;
                pub fn p33(b: &[u8]) {
                    let got = <$t>::decode(b);
                    vp::same("value", &got, &success(<$t>::try_decode::<&[u8], ByteParser>(b)));
                    vp::reached("end");
                }
            }
            pub mod decode_memo {
                use super::*;
                pub fn p33(b: &[u8]) {
                    let got = <$t>::decode_memo(b);
                    vp::same("value", &got, &success(<$t>::try_decode::<&[u8], MemoParser>(b)));
                    vp::reached("end");
                }
            }
            pub mod no_panic {
                use super::*;
                pub fn p33(b: &[u8]) {
                    vp::assume(<$t>::try_decode::<&[u8], ByteParser>(b).is_ok());
                    vp::total("panics");
                    let x = <$t>::decode(b);
                    let y = <$t>::decode_memo(b);
                    vp::same("both parsers", &x, &y);
                    vp::reached("end");
                }
            }
        }
    )*};
}
whole!(nothing: (), byte_: u8, word: u16, bytes: Vec<u8>, option: Option<u16>, prefixed: Dynamic<u8, Vec<u8>>, fixed: FixedBytes<3>, boolean: bool);

/// the bytes an input form stands for
fn stands_for(buf: &VecBuffer, want: &[u8]) {
    vp::total("panics");
    vp::holds("len", buf.len() == want.len());
    vp::holds("is_empty", buf.is_empty() == want.is_empty());
    vp::same("bytes", buf.get_slice(0, buf.len()), want);
    vp::reached("end");
}

pub mod input {
    use super::*;
    pub mod slice {
        use super::*;
        pub fn p33(b: &[u8]) {
            stands_for(&b.into(), b);
            let s: SliceBuffer = b.into();
            vp::same("slice buffer", s.as_slice(), b);
            vp::same("into_slice", s.into_slice(), b);
            vp::same("new", SliceBuffer::new(b).as_slice(), b);
        }
    }
    pub mod vector {
        use super::*;
        pub fn p33(b: Vec<u8>) { stands_for(&b.clone().into(), &b[..]); }
    }
    pub mod array {
        use super::*;
        pub fn p33<const K: usize>(b: [u8; K]) {
            vp::assume(K <= isize::MAX as usize);
            stands_for(&b.into(), &b[..]);
        }
    }
    pub mod array_ref {
        use super::*;
        pub fn p33<const K: usize>(b: &[u8; K]) {
            vp::assume(K <= isize::MAX as usize);
            stands_for(&b.into(), &b[..]);
        }
    }
    pub mod hex {
        use super::*;
        pub fn p33(h: HexString) { stands_for(&h.clone().into(), h.as_bytes()); }
    }
}

/// text (read as hexadecimal instead where `implicit_hexstring` is enabled)
#[cfg(not(feature = "implicit_hexstring"))]
pub mod text {
    use super::*;
    fn text(got: Result<VecBuffer, DecodeError>, s: &str) {
        vp::total("panics");
        match got {
            Ok(buf) => stands_for(&buf, s.as_bytes()),
            Err(_) => vp::never("text refused"),
        }
    }
    fn conv<T: TryInto<VecBuffer>>(t: T) -> Result<VecBuffer, DecodeError>
    where
        DecodeError: From<T::Error>,
    {
        Ok(t.try_into()?)
    }
    pub mod text_ref { use super::*; pub fn p33(s: &str) { text(conv(s), s) } }
    pub mod text_owned { use super::*; pub fn p33(s: String) { text(conv(s.clone()), &s[..]) } }
    pub mod text_owned_ref { use super::*; pub fn p33(s: String) { text(conv(&s), &s[..]) } }
    pub mod text_cow { use super::*; pub fn p33(s: &str) { text(conv(Cow::Borrowed(s)), s) } }
    /// decoding text is decoding its bytes
    pub mod decoded {
        use super::*;
        pub fn p33(s: &str) {
            vp::total("panics");
            agrees::<u16, _>(s.as_bytes(), u16::try_decode::<&str, ByteParser>(s), &mut ByteParser::from_buffer(s.as_bytes().into()))
        }
    }
}
