//! P34: text shown for values.
use crate::vp;
use std::fmt::{Binary, Debug, Display, Formatter, FormattingOptions, LowerHex, Octal, UpperHex};
use tedium::*;

fn display<T: Display + ?Sized>(x: &T, o: FormattingOptions) -> String {
    let mut s = String::new();
    vp::holds("succeeds", x.fmt(&mut Formatter::new(&mut s, o)).is_ok());
    s
}
fn debug<T: Debug + ?Sized>(x: &T, o: FormattingOptions) -> String {
    let mut s = String::new();
    vp::holds("succeeds", x.fmt(&mut Formatter::new(&mut s, o)).is_ok());
    s
}

/// shown exactly as its content, whatever the formatting options
macro_rules! like {
    ($m:ident, $i:ty, |$x:ident| $f:expr, $as:expr) => {
        pub mod $m {
            use super::*;
            pub fn p34($x: $i, o: FormattingOptions) {
                vp::total("panics");
                let content = $as;
                let w = $f;
                vp::same("text", &display(&w, o), &display(&content, o));
                vp::reached("end");
            }
        }
    };
}
like!(dynamic, i16, |x| Dynamic::<u8, i16>::from(x), x);
like!(dynamic_string, String, |x| Dynamic::<u30, String>::from(x), x.clone());
like!(autobox, u32, |x| AutoBox::<u32>::new(x), x);
like!(natural, num_bigint::BigUint, |x| N::new(x), x.clone());
like!(integer, num_bigint::BigInt, |x| Z::new(x), x.clone());

/// text of bytes in base 16
fn hex(b: &[u8]) -> String {
    HexString::from(b.to_vec()).to_hex()
}
pub mod hexstring {
    use super::*;
    pub fn p34(x: Vec<u8>) {
        vp::total("panics");
        let text = display(&HexString::from(x.clone()), FormattingOptions::new());
        vp::same("text", &text, &hex(&x));
        vp::reached("end");
    }
}
pub mod fixed_bytes {
    use super::*;
    pub fn p34(x: [u8; 5]) {
        vp::total("panics");
        let mut s = String::new();
        let ok = LowerHex::fmt(&FixedBytes::<5>::from_array(x), &mut Formatter::new(&mut s, FormattingOptions::new())).is_ok();
        vp::holds("succeeds", ok);
        vp::same("text", &s, &hex(&x));
        vp::reached("end");
    }
    pub fn p34_more<const K: usize>(x: [u8; K]) {
        vp::assume(K <= isize::MAX as usize);
        vp::total("panics");
        let mut s = String::new();
        let ok = LowerHex::fmt(&FixedBytes::<K>::from_array(x), &mut Formatter::new(&mut s, FormattingOptions::new())).is_ok();
        vp::holds("succeeds", ok);
        vp::same("text", &s, &hex(&x));
        vp::reached("end");
    }
}
pub mod ranged {
    use super::*;
    macro_rules! based {
        ($id:ident, $tr:ident, $i:ty) => {
            pub fn $id<const A: i32, const B: i32>(x: RangedInt<$i, A, B>, o: FormattingOptions) {
                vp::assume(-0x4000_0000 <= A && A <= B && B <= 0x3fff_ffff);
                let n = x.to_i32();
                let (mut s, mut t) = (String::new(), String::new());
                vp::holds("succeeds", $tr::fmt(&x, &mut Formatter::new(&mut s, o)).is_ok());
                vp::holds("succeeds", $tr::fmt(&n, &mut Formatter::new(&mut t, o)).is_ok());
                vp::same("text", &s, &t);
                vp::reached("end");
            }
        };
    }
    based!(p34_x, LowerHex, i16);
    based!(p34_upper, UpperHex, i16);
    based!(p34_b, Binary, u8);
    based!(p34_o, Octal, u16);
    based!(p34_wide, LowerHex, i32);
}

/// the diagnostic text of a wrapper is that of its content
macro_rules! diagnosed {
    ($m:ident, $i:ty, |$x:ident| $f:expr) => {
        pub mod $m {
            use super::*;
            pub fn p34($x: $i, o: FormattingOptions) {
                vp::total("panics");
                let content = $x.clone();
                let w = $f;
                vp::same("text", &debug(&w, o), &debug(&content, o));
                vp::reached("end");
            }
        }
    };
}
pub mod diagnostic {
    use super::*;
    diagnosed!(autobox, u32, |x| AutoBox::<u32>::new(x));
    pub mod dynamic {
        use super::*;
        macro_rules! announced {
            ($id:ident, $s:ty, $i:ty, $sfx:expr) => {
                pub fn $id(x: $i) {
                    vp::total("panics");
                    let mut want = String::from("[");
                    want.push_str(&display(&tedium::conv::EncodeLength::enc_len(&x), FormattingOptions::new()));
                    want.push_str($sfx);
                    want.push_str(" bytes|");
                    want.push_str(&debug(&x, FormattingOptions::new()));
                    want.push(']');
                    let d = Dynamic::<$s, $i>::from(x);
                    vp::same("text", &debug(&d, FormattingOptions::new()), &want);
                    vp::reached("end");
                }
            };
        }
        announced!(p34_u8, u8, u64, <u8 as tedium::dynamic::LenPref>::suffix());
        announced!(p34_u30, u30, String, "u30");
    }
    diagnosed!(vpadded, i16, |x| VPadded::<i16, 3>::new(x));
    macro_rules! number {
        ($m:ident, $w:ident($i:ty), $mark:expr) => {
            pub mod $m {
                use super::*;
                pub fn p34(x: $i) {
                    vp::total("panics");
                    let mut want = String::from($mark);
                    want.push('(');
                    want.push_str(&display(&x, FormattingOptions::new()));
                    want.push(')');
                    vp::same("text", &debug(&$w::new(x), FormattingOptions::new()), &want);
                    vp::reached("end");
                }
            }
        };
    }
    number!(natural, N(num_bigint::BigUint), "\u{2115}");
    number!(integer, Z(num_bigint::BigInt), "\u{2124}");
}
pub mod fixed_string {
    use super::*;
    pub fn p34(x: [u8; 6], o: FormattingOptions) {
        let text = String::from_utf8_lossy(&x).into_owned();
        vp::same("text", &display(&FixedString::<6>::from(x), o), &display(&text, o));
        vp::reached("end");
    }
}
/// bytes grouped as they were written
pub mod groups {
    use super::*;
    fn text(gs: &[&[u8]]) -> String {
        let mut r = String::from("[|");
        for g in gs {
            r.push_str(&hex(g));
            r.push('|');
        }
        r.push(']');
        r
    }
    macro_rules! grouped {
        ($m:ident, [$($x:ident),*]) => {
            pub mod $m {
                use super::*;
                fn made($($x: &[u8]),*) -> MemoBuilder {
                    #[allow(unused_mut)]
                    let mut t = MemoBuilder::new();
                    $( t.push_all($x); t.resolve(); )*
                    t
                }
                pub fn p34($($x: Vec<u8>),*) {
                    vp::total("panics");
                    let t = made($(&$x[..]),*);
                    vp::same("text", &display(&t, FormattingOptions::new()), &text(&[$(&$x[..]),*]));
                    vp::reached("end");
                }
                pub fn p34_final($($x: Vec<u8>),*) {
                    vp::total("panics");
                    let t = made($(&$x[..]),*).finalize();
                    vp::same("text", &display(&t, FormattingOptions::new()), &text(&[$(&$x[..]),*]));
                    vp::reached("end");
                }
            }
        };
    }
    grouped!(none, []);
    grouped!(one, [a]);
    grouped!(two, [a, b]);
    grouped!(three, [a, b, c]);
    /// the group being written is shown like the others
    pub fn p34_open(a: Vec<u8>, b: Vec<u8>) {
        vp::total("panics");
        let mut t = MemoBuilder::new();
        t.push_all(&a);
        t.resolve();
        t.push_all(&b);
        vp::same("text", &display(&t, FormattingOptions::new()), &text(&[&a[..], &b[..]]));
        vp::reached("end");
    }
}
