//! P16 - P18, P29, P30: the types that restrict or wrap values.
use crate::vp;
use tedium::int::{MAX_OCAML_NATIVE_INT, MIN_OCAML_NATIVE_INT};
use tedium::*;

// ---------------------------------------------------------------- P17 ranged integers
/// a sound range
fn sound(a: i32, b: i32) {
    vp::assume(MIN_OCAML_NATIVE_INT <= a && a <= b && b <= MAX_OCAML_NATIVE_INT);
}
/// the least stored value
fn offset(a: i32) -> i128 {
    if a > 0 {
        a as i128
    } else {
        0
    }
}

macro_rules! ranged {
    ($m:ident, $b:ty) => {
        pub mod $m {
            use super::*;
            type R<const A: i32, const B: i32> = RangedInt<$b, A, B>;
            fn stored(a: i32, x: i128) -> bool {
                let x = x - offset(a);
                <$b>::MIN as i128 <= x && x <= <$b>::MAX as i128
            }
            fn inside(a: i32, b: i32, x: i128) -> bool {
                a as i128 <= x && x <= b as i128
            }
            fn is<const A: i32, const B: i32>(r: R<A, B>, x: i128) {
                vp::holds("in range", inside(A, B, x));
                vp::holds("value", r.to_i32() as i128 == x);
                vp::holds("underlying", r.to_underlying() as i128 == x - offset(A));
                vp::reached("end");
            }
            fn refused<const A: i32, const B: i32>(x: i128) {
                vp::holds("refused only out of range", !inside(A, B, x) || !stored(A, x));
                vp::reached("refused");
            }
            pub mod underlying {
                use super::*;
                pub fn p17<const A: i32, const B: i32>(x: $b) {
                    sound(A, B);
                    vp::total("panics");
                    match R::<A, B>::try_from_underlying(x) {
                        Ok(r) => is(r, x as i128 + offset(A)),
                        Err(_) => refused::<A, B>(x as i128 + offset(A)),
                    }
                }
                pub fn p17_or_panic<const A: i32, const B: i32>(x: $b) {
                    sound(A, B);
                    if inside(A, B, x as i128 + offset(A)) {
                        vp::total("panics");
                        is(R::<A, B>::from_underlying(x), x as i128 + offset(A))
                    } else {
                        vp::reached("end");
                        let _ = R::<A, B>::from_underlying(x);
                        vp::never("panics out of range");
                    }
                }
            }
            pub mod numeric {
                use super::*;
                pub fn p17<const A: i32, const B: i32>(x: i32) {
                    sound(A, B);
                    vp::total("panics");
                    match R::<A, B>::try_from_i32(x) {
                        Ok(r) => is(r, x as i128),
                        Err(_) => refused::<A, B>(x as i128),
                    }
                }
                pub fn p17_or_panic<const A: i32, const B: i32>(x: i32) {
                    sound(A, B);
                    if inside(A, B, x as i128) && stored(A, x as i128) {
                        vp::total("panics");
                        is(R::<A, B>::from_i32(x), x as i128)
                    } else {
                        vp::reached("end");
                        let _ = R::<A, B>::from_i32(x);
                        vp::never("panics out of range");
                    }
                }
            }
            pub mod extremes {
                use super::*;
                pub fn p17<const A: i32, const B: i32>() {
                    sound(A, B);
                    vp::assume(stored(A, A as i128) && stored(A, B as i128));
                    vp::total("panics");
                    is(R::<A, B>::min_val(), A as i128);
                    is(R::<A, B>::max_val(), B as i128);
                    is(R::<A, B>::default(), if A > 0 { A as i128 } else if B < 0 { B as i128 } else { 0 });
                }
            }
            pub mod from {
                use super::*;
                ranged!(@from u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
            }
        }
    };
    (@from $($s:ident),*) => {
        $(pub mod $s {
            use super::*;
            pub fn p17<const A: i32, const B: i32>(x: $s) {
                sound(A, B);
                vp::total("panics");
                match R::<A, B>::try_from(x) {
                    Ok(r) => is(r, x as i128),
                    Err(_) => refused::<A, B>(x as i128),
                }
            }
        })*
    };
}
pub mod ranges {
    use super::*;
    ranged!(by_u8, u8);
    ranged!(by_i8, i8);
    ranged!(by_u16, u16);
    ranged!(by_i16, i16);
    ranged!(by_u32, u32);
    ranged!(by_i32, i32);
}

macro_rules! into {
    ($b:ident => $($d:ident),* ; $($t:ident),*) => {
        pub mod $b {
            use super::*;
            $(pub mod $d {
                use super::*;
                pub fn p17<const A: i32, const B: i32>(x: $b) {
                    sound(A, B);
                    vp::total("panics");
                    if let Ok(r) = RangedInt::<$b, A, B>::try_from_underlying(x) {
                        vp::holds("same number", <$d as From<RangedInt<$b, A, B>>>::from(r) as i128 == x as i128 || (A > 0 && x as i128 > <$d>::MAX as i128));
                        vp::reached("end");
                    }
                }
            })*
            $(pub mod $t {
                use super::*;
                pub fn p17<const A: i32, const B: i32>(x: $b) {
                    sound(A, B);
                    vp::total("panics");
                    if let Ok(r) = RangedInt::<$b, A, B>::try_from_underlying(x) {
                        match <$t as TryFrom<RangedInt<$b, A, B>>>::try_from(r) {
                            Ok(y) => {
                                vp::holds("same number", y as i128 == x as i128);
                                vp::reached("end");
                            }
                            Err(_) => vp::holds("refused only when too large", (x as i128) < <$t>::MIN as i128 || x as i128 > <$t>::MAX as i128),
                        }
                    }
                }
            })*
        }
    };
}
pub mod unranged {
    use super::*;
    into!(u8 => u8, u16, i16, u32, i32, u64, i64, usize, isize; i8);
    into!(i8 => i8, i16, i32, i64, isize; u8, u16, u32, u64, usize);
    into!(i16 => i16, i32, i64, isize; i8, u8, u16, u32, u64, usize);
    into!(u16 => u32, i32, u64, i64, usize, isize; i8, u8, i16);
    into!(i32 => i32, i64, isize; i8, u8, i16, u16, u32, u64, usize);
    into!(u32 => u32, i32, u64, i64, usize, isize; i8, u8, i16, u16);
}

// ---------------------------------------------------------------- P18 ranged floats
pub mod floats {
    use super::*;
    type R<const A: u64, const B: u64> = RangedFloat<A, B>;
    fn inside<const A: u64, const B: u64>(x: f64) -> bool {
        let (a, b) = (f64::from_bits(A), f64::from_bits(B));
        a <= b && x >= a && x <= b
    }
    fn is<const A: u64, const B: u64>(r: R<A, B>, x: f64) {
        vp::holds("in range", inside::<A, B>(x));
        vp::holds("value", r.as_f64().to_bits() == x.to_bits());
        vp::holds("conversion", f64::from(r).to_bits() == x.to_bits());
        vp::holds("stays valid", matches!(r.get_validated(), Ok(y) if y.to_bits() == x.to_bits()));
        vp::reached("end");
    }
    pub mod checked {
        use super::*;
        pub fn p18<const A: u64, const B: u64>(x: f64) {
            vp::total("panics");
            match R::<A, B>::try_from_f64(x) {
                Ok(r) => is(r, x),
                Err(_) => vp::holds("refused only out of range", !inside::<A, B>(x)),
            }
        }
    }
    pub mod try_from_f64 {
        use super::*;
        pub fn p18<const A: u64, const B: u64>(x: f64) {
            vp::total("panics");
            match R::<A, B>::try_from(x) {
                Ok(r) => is(r, x),
                Err(_) => vp::holds("refused only out of range", !inside::<A, B>(x)),
            }
        }
    }
    pub mod try_from_f32 {
        use super::*;
        pub fn p18<const A: u64, const B: u64>(x: f32) {
            vp::total("panics");
            match R::<A, B>::try_from(x) {
                Ok(r) => is(r, x as f64),
                Err(_) => vp::holds("refused only out of range", !inside::<A, B>(x as f64)),
            }
        }
    }
    pub mod or_panic {
        use super::*;
        pub fn p18<const A: u64, const B: u64>(x: f64) {
            let (a, b) = (f64::from_bits(A), f64::from_bits(B));
            if x >= a && x <= b {
                vp::assume(a <= b);
                vp::total("panics");
                is(R::<A, B>::from_f64(x), x);
            } else {
                vp::reached("end");
                let _ = R::<A, B>::from_f64(x);
                vp::never("panics out of range");
            }
        }
    }
    pub mod prevalidate {
        use super::*;
        pub fn p18<const A: u64, const B: u64>(x: f64) {
            vp::total("panics");
            match R::<A, B>::prevalidate_f64(x) {
                Ok(y) => {
                    vp::holds("in range", inside::<A, B>(x) && x.to_bits() == y.to_bits());
                    vp::reached("end");
                }
                Err(_) => vp::holds("refused only out of range", !inside::<A, B>(x)),
            }
        }
    }
    pub mod default {
        use super::*;
        pub fn p18<const A: u64, const B: u64>() {
            let (a, b) = (f64::from_bits(A), f64::from_bits(B));
            vp::assume(a <= b);
            vp::total("panics");
            let x = *R::<A, B>::default().as_f64();
            vp::holds("in range", x >= a && x <= b);
            if a <= 0.0 && 0.0 <= b {
                vp::holds("zero", x == 0.0);
            }
            vp::reached("end");
        }
    }
    pub mod bounds {
        use super::*;
        pub fn p18<const A: u64, const B: u64>() {
            vp::total("panics");
            vp::holds("least", R::<A, B>::MIN.as_f64().to_bits() == A && R::<A, B>::MIN_F64.to_bits() == A);
            vp::holds("greatest", R::<A, B>::MAX.as_f64().to_bits() == B && R::<A, B>::MAX_F64.to_bits() == B);
            vp::reached("end");
        }
    }
}

// ---------------------------------------------------------------- P29 exact-width bytes and strings
pub mod widths {
    use super::*;
    use tedium::error::WidthError;
    fn wrong<const K: usize>(e: WidthError, n: usize) {
        match e {
            WidthError::WrongWidth { exact, actual } => vp::holds("reported width", exact == K && actual == n && n != K),
            _ => vp::never("kind of error"),
        }
        vp::reached("refused");
    }
    fn bytes<const K: usize>(x: FixedBytes<K>, b: &[u8]) {
        vp::holds("width", b.len() == K && x.len() == K);
        vp::same("bytes", &x.bytes()[..], b);
        vp::same("to_array", &x.to_array()[..], b);
        vp::same("to_vec", &x.to_vec()[..], b);
        vp::same("as_ref", <FixedBytes<K> as AsRef<[u8]>>::as_ref(&x), b);
        vp::same("as_ref array", &<FixedBytes<K> as AsRef<[u8; K]>>::as_ref(&x)[..], b);
        vp::same("borrow", <FixedBytes<K> as std::borrow::Borrow<[u8]>>::borrow(&x), b);
        vp::same("into array", &<[u8; K]>::from(x)[..], b);
        vp::same("into vec", &Vec::<u8>::from(x)[..], b);
        vp::reached("end");
    }
    fn string<const K: usize>(x: FixedString<K>, b: &[u8]) {
        vp::holds("width", b.len() == K && x.len() == K);
        vp::same("bytes", &x.to_bytes()[..], b);
        vp::reached("end");
    }
    pub mod bytes_try_from_slice {
        use super::*;
        pub fn p29<const K: usize>(b: &[u8]) {
            vp::total("panics");
            match FixedBytes::<K>::try_from_slice(b) {
                Ok(x) => bytes(x, b),
                Err(e) => wrong::<K>(e, b.len()),
            }
        }
    }
    pub mod bytes_try_from {
        use super::*;
        pub fn p29<const K: usize>(b: &[u8]) {
            vp::total("panics");
            match FixedBytes::<K>::try_from(b) {
                Ok(x) => bytes(x, b),
                Err(_) => vp::holds("refused only for another width", b.len() != K),
            }
        }
    }
    pub mod bytes_from {
        use super::*;
        pub fn p29<const K: usize>(b: [u8; K]) {
            vp::total("panics");
            bytes(FixedBytes::from_array(b), &b[..]);
            bytes(FixedBytes::from_array_ref(&b), &b[..]);
            bytes(FixedBytes::from(b), &b[..]);
            bytes(FixedBytes::from(&b), &b[..]);
            let mut y = FixedBytes::from(b);
            *y.bytes_mut() = b;
            bytes(y, &b[..]);
        }
    }
    pub mod bytes_default {
        use super::*;
        pub fn p29() {
            vp::total("panics");
            bytes(FixedBytes::<3>::default(), &[0u8; 3][..]);
            bytes(FixedBytes::<20>::default(), &[0u8; 20][..]);
        }
    }
    pub mod string_unchecked {
        use super::*;
        pub fn p29<const K: usize>(b: [u8; K]) {
            vp::assume(K <= isize::MAX as usize);
            vp::total("panics");
            let x = unsafe { FixedString::from_array_unchecked(&b) };
            string(x, &b[..]);
            vp::holds("valid", x.is_valid_utf8() == std::str::from_utf8(&b[..]).is_ok());
            if x.is_valid_utf8() {
                vp::same("text", unsafe { x.as_str_unchecked() }.as_bytes(), &b[..]);
            }
            vp::reached("end");
        }
    }
    pub mod string_try_from_bytes {
        use super::*;
        pub fn p29<const K: usize>(b: &[u8]) {
            vp::total("panics");
            match FixedString::<K>::try_from_bytes(b) {
                Ok(x) => string(x, b),
                Err(e) => wrong::<K>(e, b.len()),
            }
        }
        pub fn p29_slice<const K: usize>(b: &[u8]) {
            vp::total("panics");
            match FixedString::<K>::try_from(b) {
                Ok(x) => string(x, b),
                Err(e) => wrong::<K>(e, b.len()),
            }
        }
    }
    pub mod string_try_from_str {
        use super::*;
        pub fn p29<const K: usize>(b: &str) {
            vp::total("panics");
            match FixedString::<K>::try_from(b) {
                Ok(x) => string(x, b.as_bytes()),
                Err(e) => wrong::<K>(e, b.len()),
            }
        }
        pub fn p29_parse<const K: usize>(b: &str) {
            vp::total("panics");
            match <FixedString<K> as std::str::FromStr>::from_str(b) {
                Ok(x) => string(x, b.as_bytes()),
                Err(e) => wrong::<K>(e, b.len()),
            }
        }
        pub fn p29_owned<const K: usize>(b: String) {
            vp::total("panics");
            let c = b.clone();
            match FixedString::<K>::try_from(b) {
                Ok(x) => string(x, c.as_bytes()),
                Err(e) => wrong::<K>(e, c.len()),
            }
        }
    }
    pub mod string_from {
        use super::*;
        pub fn p29<const K: usize>(b: [u8; K]) {
            vp::total("panics");
            string(FixedString::from(b), &b[..]);
            string(FixedString::from(&b), &b[..]);
            if let Ok(x) = FixedString::try_from_array(&b) {
                string(x, &b[..]);
                vp::holds("valid", x.is_valid_utf8());
            }
        }
    }
}

// ---------------------------------------------------------------- P16 bounded sequences
pub mod bounded {
    use super::*;
    use tedium::error::LengthError;

    pub mod lim_from_vec {
        use super::*;
        pub fn p16<T: Clone, const K: usize>(v: Vec<T>) {
            let w = v.clone();
            if v.len() <= K {
                vp::total("panics");
            }
            let s = LimSeq::<T, K>::from_vec(v);
            vp::holds("bound", w.len() <= K && s.len() <= K);
            vp::same("elements", &s[..], &w[..]);
            vp::same("into_vec", &s.into_vec()[..], &w[..]);
            vp::reached("end");
        }
    }
    pub mod lim_try_from_vec {
        use super::*;
        pub fn p16<T: Clone, const K: usize>(v: Vec<T>) {
            vp::total("panics");
            let w = v.clone();
            match LimSeq::<T, K>::try_from(v) {
                Ok(s) => {
                    vp::holds("bound", s.len() <= K);
                    vp::same("elements", &Vec::from(s)[..], &w[..]);
                    vp::reached("end");
                }
                Err(LengthError::TooLong { limit, actual }) => vp::holds("refused only when too long", w.len() > K && limit == K && actual == w.len()),
                Err(_) => vp::never("kind of error"),
            }
        }
    }
    pub mod lim_try_from_slice {
        use super::*;
        pub fn p16<T: Clone, const K: usize>(w: &[T]) {
            vp::total("panics");
            match LimSeq::<T, K>::try_from(w) {
                Ok(s) => {
                    vp::holds("bound", s.len() <= K);
                    vp::same("elements", &s[..], w);
                    vp::reached("end");
                }
                Err(LengthError::TooLong { limit, actual }) => vp::holds("refused only when too long", w.len() > K && limit == K && actual == w.len()),
                Err(_) => vp::never("kind of error"),
            }
        }
    }
    pub mod lim_collect {
        use super::*;
        pub fn p16<T: Clone, const K: usize>(v: Vec<T>) {
            let w = v.clone();
            if v.len() <= K {
                vp::total("panics");
            }
            let s: LimSeq<T, K> = v.into_iter().collect();
            vp::holds("bound", s.len() <= K);
            vp::same("elements", &s[..], &w[..]);
            vp::reached("end");
        }
    }
    pub mod lim_extend {
        use super::*;
        pub fn p16<T: Clone, const K: usize>(a: Vec<T>, v: Vec<T>) {
            vp::assume(a.len() <= K);
            let mut w = a.clone();
            w.extend_from_slice(&v[..]);
            let mut s = LimSeq::<T, K>::from_vec(a);
            if w.len() <= K {
                vp::total("panics");
            }
            s.extend(v);
            vp::holds("bound", s.len() <= K);
            vp::same("elements", &s[..], &w[..]);
            vp::reached("end");
        }
    }
    pub mod fix_try_from_vec {
        use super::*;
        pub fn p16<T: Clone, const K: usize>(v: Vec<T>) {
            vp::total("panics");
            let w = v.clone();
            match FixSeq::<T, K>::try_from(v) {
                Ok(s) => {
                    vp::holds("bound", s.len() <= K);
                    vp::same("elements", &Vec::from(s)[..], &w[..]);
                    vp::reached("end");
                }
                Err(LengthError::TooLong { limit, actual }) => vp::holds("refused only when too long", w.len() > K && limit == K && actual == w.len()),
                Err(_) => vp::never("kind of error"),
            }
        }
    }
    pub mod fix_try_from_slice {
        use super::*;
        pub fn p16<T: Clone, const K: usize>(w: &[T]) {
            vp::total("panics");
            match FixSeq::<T, K>::try_from(w) {
                Ok(s) => {
                    vp::holds("exact", s.len() == K);
                    vp::same("elements", &s[..], w);
                    vp::reached("end");
                }
                Err(LengthError::WrongLength { exact, actual }) => vp::holds("refused only for another length", w.len() != K && exact == K && actual == w.len()),
                Err(_) => vp::never("kind of error"),
            }
        }
    }
    pub mod fix_collect {
        use super::*;
        pub fn p16<T: Clone, const K: usize>(v: Vec<T>) {
            let w = v.clone();
            if v.len() <= K {
                vp::total("panics");
            }
            let s: FixSeq<T, K> = v.into_iter().collect();
            vp::holds("bound", s.len() <= K);
            vp::same("elements", &s[..], &w[..]);
            vp::reached("end");
        }
    }
    pub mod fix_extend {
        use super::*;
        pub fn p16<T: Clone, const K: usize>(a: Vec<T>, v: Vec<T>) {
            vp::assume(a.len() <= K);
            let mut w = a.clone();
            w.extend_from_slice(&v[..]);
            let mut s: FixSeq<T, K> = match FixSeq::try_from(a) {
                Ok(s) => s,
                Err(_) => return,
            };
            if w.len() <= K {
                vp::total("panics");
            }
            s.extend(v);
            vp::holds("bound", s.len() <= K);
            vp::same("elements", &s[..], &w[..]);
            vp::reached("end");
        }
    }
    pub mod lim_encode {
        use super::*;
        pub fn p16<T: Encode, U: Target, const K: usize>(s: LimSeq<T, K>, u: &mut U) {
            let _ = s.write_to(u);
            vp::holds("only within the bound", s.len() <= K);
            vp::reached("end");
        }
    }
    pub mod fix_encode {
        use super::*;
        pub fn p16<T: Encode, U: Target, const K: usize>(s: FixSeq<T, K>, u: &mut U) {
            let _ = s.write_to(u);
            vp::holds("only at the exact length", s.len() == K);
            vp::reached("end");
        }
    }
    pub mod lim_decode {
        use super::*;
        pub fn p16<T: Decode, P: Parser, const K: usize>(p: &mut P) {
            if let Ok(s) = LimSeq::<T, K>::parse(p) {
                vp::holds("bound", s.len() <= K);
                vp::holds("no element left behind", vp::ahead(p).is_empty());
                vp::reached("end");
            }
        }
    }
    pub mod fix_decode {
        use super::*;
        pub fn p16<T: Decode, P: Parser, const K: usize>(p: &mut P) {
            if let Ok(s) = FixSeq::<T, K>::parse(p) {
                vp::holds("exact", s.len() == K);
                vp::reached("end");
            }
        }
    }
    pub mod empty {
        use super::*;
        pub fn p16<T: Clone, const K: usize>() {
            vp::total("panics");
            vp::holds("LimSeq", LimSeq::<T, K>::new().is_empty() && LimSeq::<T, K>::default().is_empty());
            vp::holds("FixSeq", FixSeq::<T, K>::new().is_empty() && FixSeq::<T, K>::default().is_empty());
            vp::holds("Sequence", Sequence::<T>::new().is_empty() && Sequence::<T>::default().is_empty());
            vp::reached("end");
        }
    }
    macro_rules! walks {
        ($m:ident, $t:ty, |$v:ident| $make:expr) => {
            pub mod $m {
                use super::*;
                fn make<T: Clone, const K: usize>($v: &Vec<T>) -> $t { $make }
                pub fn p16<T: Clone, const K: usize>(v: Vec<T>) {
                    vp::assume(v.len() == K);
                    vp::total("panics");
                    let w = v.clone();
                    let s = make::<T, K>(&v);
                    let mut seen = Vec::new();
                    for x in &s {
                        seen.push(x.clone());
                    }
                    vp::same("by reference", &seen[..], &w[..]);
                    let mut all = Vec::new();
                    for x in s {
                        all.push(x);
                    }
                    vp::same("by value", &all[..], &w[..]);
                    vp::reached("end");
                }
                pub fn p16_views<T: Clone, const K: usize>(v: Vec<T>) {
                    vp::assume(v.len() == K);
                    vp::total("panics");
                    let w = v.clone();
                    let mut s = make::<T, K>(&v);
                    vp::same("deref", &s[..], &w[..]);
                    {
                        let d: &mut [T] = &mut s;
                        vp::same("deref_mut", &d[..], &w[..]);
                        if !d.is_empty() {
                            d[0] = vp::any::<T>();
                            vp::same("rest", &d[1..], &w[1..]);
                        }
                    }
                    vp::holds("length", s.len() == w.len());
                    if !w.is_empty() {
                        vp::same("others", &s[1..], &w[1..]);
                    }
                    vp::reached("end");
                }
            }
        };
    }
    walks!(lim_walk, LimSeq<T, K>, |v| unsafe { LimSeq::from_vec_unchecked(v.clone()) });
    walks!(fix_walk, FixSeq<T, K>, |v| match FixSeq::try_from(v.clone()) { Ok(x) => x, Err(_) => loop {} });
    walks!(seq_walk, Sequence<T>, |v| Sequence::from_vec(v.clone()));
    pub mod seq_views {
        use super::*;
        pub fn p16<T: Clone>(v: Vec<T>, i: usize) {
            vp::assume(i < v.len());
            vp::total("panics");
            let w = v.clone();
            let mut s = Sequence::from(v);
            vp::same("index", &s[i], &w[i]);
            vp::same("as_mut_slice", &s.as_mut_slice()[..], &w[..]);
            vp::same("as_mut", &<Sequence<T> as AsMut<[T]>>::as_mut(&mut s)[..], &w[..]);
            let mut seen = Vec::new();
            for x in &mut s {
                seen.push(x.clone());
            }
            vp::same("by mutable reference", &seen[..], &w[..]);
            vp::same("kept", &s[..], &w[..]);
            vp::reached("end");
        }
    }
    pub mod seq_collect {
        use super::*;
        pub fn p16<T: Clone>(v: Vec<T>) {
            vp::total("panics");
            let w = v.clone();
            let s: Sequence<T> = v.into_iter().collect();
            vp::same("elements", &s[..], &w[..]);
            vp::same("into_inner", &s.into_inner()[..], &w[..]);
            vp::reached("end");
        }
    }
    pub mod seq_extend {
        use super::*;
        pub fn p16<T: Clone>(a: Vec<T>, v: Vec<T>) {
            vp::total("panics");
            let mut w = a.clone();
            w.extend_from_slice(&v[..]);
            let mut s = Sequence::from_vec(a);
            s.extend(v);
            vp::same("elements", &s[..], &w[..]);
            vp::same("slice", s.as_slice(), &w[..]);
            vp::same("as_ref", <Sequence<T> as AsRef<[T]>>::as_ref(&s), &w[..]);
            vp::same("into vec", &Vec::from(s)[..], &w[..]);
            vp::reached("end");
        }
    }
}

// ---------------------------------------------------------------- P30 transparent wrappers
pub mod wrappers {
    use super::*;
    pub mod nullable {
        use super::*;
        pub fn p30<T: Clone>(x: Option<T>) {
            vp::total("panics");
            let n = Nullable::from(x.clone());
            vp::holds("presence", n.is_some() == x.is_some() && n.is_none() == x.is_none());
            vp::same("as_inner", n.as_inner(), &x);
            vp::same("into option", &Option::<T>::from(n.clone()), &x);
            vp::same("into_inner", &n.into_inner(), &x);
            let d: Nullable<T> = Nullable::default();
            vp::holds("default", d.is_none());
            vp::reached("end");
        }
        pub fn p30_mut<T: Clone>(x: Option<T>, y: Option<T>) {
            vp::total("panics");
            let mut n = Nullable::from(y.clone());
            vp::same("before", n.as_mut_inner(), &y);
            *n.as_mut_inner() = x.clone();
            vp::same("as_mut_inner", &n.into_inner(), &x);
            vp::reached("end");
        }
        pub fn p30_value<T: Clone>(x: T) {
            vp::total("panics");
            let n: Nullable<T> = Nullable::from(x.clone());
            vp::same("value", &n.into_inner(), &Some(x));
            vp::reached("end");
        }
    }
    pub mod padded {
        use super::*;
        pub fn p30<T: Clone, const K: usize>(x: T) {
            vp::total("panics");
            let n = Padded::<T, K>::new(x.clone());
            vp::holds("padding", n.padding() == K && Padded::<T, K>::PADDING == K);
            vp::same("as_inner", n.as_inner(), &x);
            vp::same("into_inner", &n.into_inner(), &x);
            vp::same("from", &Padded::<T, K>::from(x.clone()).into_inner(), &x);
            vp::same("with_padding", &Padded::<T, 0>::with_padding::<K>(x.clone()).into_inner(), &x);
            let mut m = Padded::<T, K>::from(vp::any::<T>());
            *m.as_mut_inner() = x.clone();
            vp::same("as_mut_inner", &m.into_inner(), &x);
            vp::reached("end");
        }
    }
    pub mod vpadded {
        use super::*;
        pub fn p30<T: Clone, const K: usize>(x: T) {
            vp::total("panics");
            vp::same("new", &VPadded::<T, K>::new(x.clone()).into_inner(), &x);
            vp::same("from", &VPadded::<T, K>::from(x.clone()).into_inner(), &x);
            vp::reached("end");
        }
    }
    pub mod dynamic {
        use super::*;
        pub fn p30<T: Clone>(x: T) {
            vp::total("panics");
            vp::same("new", &Dynamic::<u16, T>::new(x.clone()).into_inner(), &x);
            let mut d = Dynamic::<u16, T>::from(vp::any::<T>());
            *d.as_mut() = x.clone();
            vp::same("as_ref", d.as_ref(), &x);
            vp::same("borrow", <Dynamic<u16, T> as std::borrow::Borrow<T>>::borrow(&d), &x);
            vp::same("into_inner", &d.into_inner(), &x);
            vp::reached("end");
        }
    }
    pub mod autobox {
        use super::*;
        pub fn p30<T: Clone>(x: T) {
            vp::total("panics");
            let b = AutoBox::new(x.clone());
            vp::same("as_inner", b.as_inner(), &x);
            vp::same("as_ref", <AutoBox<T> as AsRef<T>>::as_ref(&b), &x);
            vp::same("as_ref box", &**<AutoBox<T> as AsRef<Box<T>>>::as_ref(&b), &x);
            vp::same("into_inner", &b.into_inner(), &x);
            let c = AutoBox::from(Box::new(x.clone()));
            vp::same("into_box", &*c.into_box(), &x);
            let e = AutoBox::from_boxed(Box::new(x.clone()));
            vp::same("from_boxed", &e.into_inner(), &x);
            let mut f = AutoBox::new(vp::any::<T>());
            *f.as_mut_inner() = x.clone();
            vp::same("as_mut_inner", f.as_inner(), &x);
            let mut g = AutoBox::new(vp::any::<T>());
            *<AutoBox<T> as AsMut<T>>::as_mut(&mut g) = x.clone();
            vp::same("as_mut", g.as_inner(), &x);
            let d = AutoBox::from(x.clone());
            vp::same("from", d.as_inner(), &x);
            vp::reached("end");
        }
        pub fn p30_more<T: Clone + Default>(x: T) {
            vp::total("panics");
            let mut h = AutoBox::new(vp::any::<T>());
            *h.as_mut_boxed() = Box::new(x.clone());
            vp::same("as_mut_boxed", h.as_inner(), &x);
            let c = h.clone();
            vp::same("clone", c.as_inner(), &x);
            vp::same("cloned", h.as_inner(), &x);
            vp::same("default", &AutoBox::<T>::default().into_inner(), &T::default());
            vp::reached("end");
        }
    }
    pub mod bytes {
        use super::*;
        pub fn p30<const K: usize>(v: Vec<u8>, a: [u8; K]) {
            vp::total("panics");
            let b = Bytes::from_vec(v.clone());
            vp::same("deref", &b[..], &v[..]);
            vp::same("as_ref", <Bytes as AsRef<[u8]>>::as_ref(&b), &v[..]);
            vp::same("into_vec", &b.into_vec()[..], &v[..]);
            vp::same("from slice", &Bytes::from(&v[..]).into_vec()[..], &v[..]);
            vp::same("from vec", &Vec::<u8>::from(Bytes::from(v.clone()))[..], &v[..]);
            vp::same("from array", &Bytes::from(a).into_vec()[..], &a[..]);
            vp::same("from array ref", &Bytes::from(&a).into_vec()[..], &a[..]);
            vp::reached("end");
        }
        pub fn p30_owned<const K: usize>(v: Vec<u8>, a: [u8; K]) {
            vp::total("panics");
            let mut m = a.clone();
            vp::same("from array mut", &Bytes::from(&mut m).into_vec()[..], &a[..]);
            vp::same("array kept", &m[..], &a[..]);
            let mut w = v.clone();
            vp::same("from slice mut", &Bytes::from(&mut w[..]).into_vec()[..], &v[..]);
            vp::same("slice kept", &w[..], &v[..]);
            vp::same("from box", &Bytes::from(v.clone().into_boxed_slice()).into_vec()[..], &v[..]);
            vp::same("into box", &Box::<[u8]>::from(Bytes::from(v.clone()))[..], &v[..]);
            vp::same("into_inner", &Bytes::from(v.clone()).into_vec()[..], &v[..]);
            vp::reached("end");
        }
        pub fn p30_mut(v: Vec<u8>, w: Vec<u8>) {
            vp::total("panics");
            let mut b = Bytes::from(w.clone());
            *<Bytes as AsMut<Vec<u8>>>::as_mut(&mut b) = v.clone();
            vp::same("as_mut", &<Bytes as AsRef<Vec<u8>>>::as_ref(&b)[..], &v[..]);
            let mut c = Bytes::from(w.clone());
            {
                let s: &mut [u8] = &mut c;
                vp::same("deref_mut", &s[..], &w[..]);
            }
            {
                let s: &mut [u8] = <Bytes as AsMut<[u8]>>::as_mut(&mut c);
                vp::same("as_mut slice", &s[..], &w[..]);
            }
            vp::same("unchanged", &c[..], &w[..]);
            vp::reached("end");
        }
        pub fn p30_iter(v: Vec<u8>) {
            vp::total("panics");
            let b = Bytes::from(v.clone());
            let mut seen = Vec::new();
            for x in &b {
                seen.push(*x);
            }
            vp::same("iter", &seen[..], &v[..]);
            let mut all = Vec::new();
            for x in b {
                all.push(x);
            }
            vp::same("into_iter", &all[..], &v[..]);
            vp::reached("end");
        }
        pub fn p30_iter_mut(v: Vec<u8>, w: u8) {
            vp::total("panics");
            let mut b = Bytes::from(v.clone());
            let mut seen = Vec::new();
            for x in &mut b {
                seen.push(*x);
            }
            vp::same("iter_mut", &seen[..], &v[..]);
            vp::same("kept", &b[..], &v[..]);
            for x in &mut b {
                *x = w;
            }
            vp::same("written", &b[..], &vec![w; v.len()][..]);
            vp::reached("end");
        }
        pub fn p30_new() {
            vp::total("panics");
            vp::holds("new", Bytes::new().is_empty());
            vp::holds("default", Bytes::default().is_empty());
            vp::reached("end");
        }
        pub fn p30_collect(v: Vec<u8>, w: Vec<u8>) {
            vp::total("panics");
            let mut b: Bytes = v.iter().copied().collect();
            vp::same("collect", &b[..], &v[..]);
            let mut all = v.clone();
            all.extend_from_slice(&w[..]);
            b.extend(w);
            vp::same("extend", &b[..], &all[..]);
            vp::reached("end");
        }
    }
}
