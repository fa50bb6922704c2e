//! P27: the buffers under the parsers hold exactly the bytes they were made of
//! and hand out exactly the bytes asked for, or panic.
use crate::vp;
use std::borrow::Cow;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::*;

/// the contents, through the checked accessor
fn all(b: &VecBuffer) -> &[u8] {
    b.get_slice(0, b.len())
}

macro_rules! made {
    ($m:ident [$($g:tt)*] $s:ty, |$x:ident| $want:expr) => {
        pub mod $m {
            use super::*;
            pub fn p27<'a, $($g)*>($x: $s) {
                vp::total("panics");
                let want: Vec<u8> = $want;
                let b = VecBuffer::from($x);
                vp::holds("length", b.len() == want.len());
                vp::holds("is_empty", b.is_empty() == (want.len() == 0));
                vp::same("contents", all(&b), &want[..]);
                vp::reached("end");
            }
        }
    };
}
pub mod made {
    use super::*;
    made!(of_vec [] Vec<u8>, |x| x.clone());
    made!(of_slice [] &'a [u8], |x| x.to_vec());
    made!(of_hex [] HexString, |x| x.as_bytes().to_vec());
    pub mod of_array {
        use super::*;
        pub fn p27<const K: usize>(x: [u8; K]) {
            vp::assume(K <= isize::MAX as usize);
            vp::total("panics");
            let b = VecBuffer::from(x);
            vp::holds("length", b.len() == K);
            vp::same("contents", all(&b), &x[..]);
            vp::reached("end");
        }
    }
    pub mod of_array_ref {
        use super::*;
        pub fn p27<const K: usize>(x: &[u8; K]) {
            vp::assume(K <= isize::MAX as usize);
            vp::total("panics");
            let b = VecBuffer::from(x);
            vp::holds("length", b.len() == K);
            vp::same("contents", all(&b), &x[..]);
            vp::reached("end");
        }
    }
    #[cfg(not(feature = "implicit_hexstring"))]
    made!(of_str [] &'a str, |x| x.as_bytes().to_vec());
    #[cfg(not(feature = "implicit_hexstring"))]
    made!(of_string [] String, |x| x.as_bytes().to_vec());
    #[cfg(not(feature = "implicit_hexstring"))]
    made!(of_string_ref [] &'a String, |x| x.as_bytes().to_vec());
    #[cfg(not(feature = "implicit_hexstring"))]
    made!(of_cow [] Cow<'a, str>, |x| x.as_bytes().to_vec());
    pub mod of_view {
        use super::*;
        pub fn p27(x: &[u8]) {
            vp::total("panics");
            let b = SliceBuffer::from(x);
            let c = SliceBuffer::new(x);
            vp::holds("length", b.len() == x.len() && c.len() == x.len());
            vp::holds("is_empty", b.is_empty() == (x.len() == 0));
            vp::same("as_slice", b.as_slice(), x);
            vp::same("new", c.as_slice(), x);
            vp::same("into_slice", b.into_slice(), x);
            vp::reached("end");
        }
        pub fn p27_static(x: &'static [u8]) {
            vp::total("panics");
            vp::same("from_static", SliceBuffer::from_static(x).as_slice(), x);
            vp::reached("end");
        }
    }
}

pub mod owned {
    use super::*;
    pub mod get_slice {
        use super::*;
        pub fn p27(x: Vec<u8>, ix: usize, n: usize) {
            let b = VecBuffer::from(x.clone());
            vp::assume(ix <= x.len() && n <= x.len() - ix);
            vp::total("panics");
            vp::same("bytes", b.get_slice(ix, n), &x[ix..ix + n]);
            vp::same("afterwards", all(&b), &x[..]);
            vp::reached("end");
        }
        pub fn p27_outside(x: Vec<u8>, ix: usize, n: usize) {
            let b = VecBuffer::from(x.clone());
            vp::assume(ix > x.len() || n > x.len() - ix);
            vp::holds("outside", true);
            vp::reached("outside");
            b.get_slice(ix, n);
            vp::never("bytes outside the buffer");
        }
        pub fn p27_unchecked(x: Vec<u8>, ix: usize, n: usize) {
            let b = VecBuffer::from(x.clone());
            vp::assume(ix <= x.len() && n <= x.len() - ix);
            vp::total("panics");
            vp::same("bytes", unsafe { b.get_slice_unchecked(ix, n) }, &x[ix..ix + n]);
            vp::reached("end");
        }
    }
    pub mod get_byte {
        use super::*;
        pub fn p27(x: Vec<u8>, ix: usize) {
            let b = VecBuffer::from(x.clone());
            vp::assume(ix < x.len());
            vp::total("panics");
            vp::holds("byte", b.get_byte(ix) == x[ix]);
            vp::holds("unchecked", unsafe { b.get_byte_unchecked(ix) } == x[ix]);
            vp::same("afterwards", all(&b), &x[..]);
            vp::reached("end");
        }
        pub fn p27_outside(x: Vec<u8>, ix: usize) {
            let b = VecBuffer::from(x.clone());
            vp::assume(ix >= x.len());
            vp::holds("outside", true);
            vp::reached("outside");
            b.get_byte(ix);
            vp::never("a byte outside the buffer");
        }
    }
}

pub mod view {
    use super::*;
    pub mod take {
        use super::*;
        pub fn p27(x: &[u8], n: usize) {
            let b = SliceBuffer::new(x);
            vp::assume(n <= x.len());
            vp::total("panics");
            let (h, t) = b.take(n);
            vp::same("taken", h, &x[..n]);
            vp::same("left", t.as_slice(), &x[n..]);
            vp::same("afterwards", b.as_slice(), x);
            let (h, t) = unsafe { b.take_unchecked(n) };
            vp::same("taken unchecked", h, &x[..n]);
            vp::same("left unchecked", t.as_slice(), &x[n..]);
            vp::reached("end");
        }
        pub fn p27_outside(x: &[u8], n: usize) {
            let b = SliceBuffer::new(x);
            vp::assume(n > x.len());
            vp::holds("outside", true);
            vp::reached("outside");
            b.take(n);
            vp::never("bytes outside the buffer");
        }
    }
    pub mod split {
        use super::*;
        pub fn p27(x: &[u8], n: usize) {
            let b = SliceBuffer::new(x);
            vp::assume(n <= x.len());
            vp::total("panics");
            let (h, t) = b.split(n);
            vp::same("head", h.as_slice(), &x[..n]);
            vp::same("tail", t.as_slice(), &x[n..]);
            vp::same("afterwards", b.as_slice(), x);
            let (h, t) = unsafe { b.split_unchecked(n) };
            vp::same("head unchecked", h.as_slice(), &x[..n]);
            vp::same("tail unchecked", t.as_slice(), &x[n..]);
            vp::reached("end");
        }
        pub fn p27_outside(x: &[u8], n: usize) {
            let b = SliceBuffer::new(x);
            vp::assume(n > x.len());
            vp::holds("outside", true);
            vp::reached("outside");
            b.split(n);
            vp::never("bytes outside the buffer");
        }
    }
    pub mod cut_first {
        use super::*;
        pub fn p27(x: &[u8]) {
            let b = SliceBuffer::new(x);
            vp::total("panics");
            match b.cut_first() {
                Some((h, t)) => {
                    vp::holds("first", x.len() > 0 && h == x[0]);
                    vp::same("rest", t.as_slice(), &x[1..]);
                    vp::reached("cut");
                }
                None => {
                    vp::holds("nothing to cut", x.len() == 0);
                    vp::reached("empty");
                }
            }
            vp::same("afterwards", b.as_slice(), x);
            vp::reached("end");
        }
        pub fn p27_unchecked(x: &[u8]) {
            vp::assume(x.len() > 0);
            let b = SliceBuffer::new(x);
            vp::total("panics");
            let (h, t) = unsafe { b.cut_first_unchecked() };
            vp::holds("first", h == x[0]);
            vp::same("rest", t.as_slice(), &x[1..]);
            vp::reached("end");
        }
    }
}
