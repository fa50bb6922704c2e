//! P09 - P12, P22: the three parsers of the library, in every state reachable
//! by opening up to three windows around arbitrary consumed and pending bytes.
//!
//! A state is described by its pending spans, innermost first: the bytes left
//! in the innermost window, then what is left around it in the enclosing
//! window, and so on out to the buffer.
use crate::vp;
use tedium::parse::error::WindowError;
use tedium::parse::ParserExt;
use tedium::*;

pub fn ok<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => {
            vp::never("accepted");
            loop {}
        }
    }
}

/// what an operation left pending in the innermost window
pub enum After {
    /// same windows, these bytes pending in the innermost one
    Rest(Vec<u8>),
    /// one more window with these bytes pending inside, and these around it
    Opened(Vec<u8>, Vec<u8>),
    /// the innermost window is gone
    Closed,
}
use After::*;

macro_rules! cat {
    ($($x:expr),*) => {{
        let mut v: Vec<u8> = Vec::new();
        $(v.extend_from_slice(&$x[..]);)*
        v
    }};
}

pub fn level<P: Parser>(p: &mut P, t: &[u8]) {
    vp::holds("remainder", p.remainder() == t.len());
    vp::holds("position", p.view_len() - p.offset() == t.len());
    let got = ok(p.take_dynamic(t.len()));
    vp::same("pending bytes", &got[..], t);
    vp::holds("nothing beyond", p.remainder() == 0);
}

pub fn bottom<P: Parser>(p: &mut P) {
    match p.enforce_target() {
        Err(ParseError::Window(WindowError::CloseWithoutWindow)) => vp::reached("drained"),
        _ => vp::never("no window left"),
    }
}

/// the pending bytes come out window by window, then no window is left
macro_rules! drain {
    ($p:expr, $t:expr) => {
        level(&mut $p, &$t[..]);
        bottom(&mut $p);
    };
    ($p:expr, $t:expr, $($r:expr),+) => {
        level(&mut $p, &$t[..]);
        ok($p.enforce_target());
        drain!($p, $($r),+);
    };
}

macro_rules! depths {
    ($P:ty, $id:ident, [$($g:tt)*], $op:expr) => {
        pub mod d0 {
            use super::*;
            pub fn $id<$($g)*>(a: &[u8], t0: &[u8]) {
                let buf = cat!(a, t0);
                let mut p = <$P>::from_buffer((&buf[..]).into());
                ok(p.consume(a.len()).map(|_| ()));
                vp::total("panics");
                match $op(&mut p, t0, 0) {
                    Rest(r) => { drain!(p, r); }
                    Opened(i, o) => { drain!(p, i, o); }
                    Closed => vp::never("window closed"),
                }
                vp::holds("nothing left", p.consume(1).is_err() && p.remainder() == 0);
                vp::reached("end");
            }
        }
        pub mod d1 {
            use super::*;
            pub fn $id<$($g)*>(a: &[u8], b: &[u8], t0: &[u8], t1: &[u8]) {
                let buf = cat!(a, b, t0, t1);
                let mut p = <$P>::from_buffer((&buf[..]).into());
                ok(p.consume(a.len()).map(|_| ()));
                ok(p.set_fit(b.len() + t0.len()));
                ok(p.consume(b.len()).map(|_| ()));
                vp::total("panics");
                match $op(&mut p, t0, 1) {
                    Rest(r) => { drain!(p, r, t1); }
                    Opened(i, o) => { drain!(p, i, o, t1); }
                    Closed => { drain!(p, t1); }
                }
                vp::reached("end");
            }
        }
        pub mod d2 {
            use super::*;
            pub fn $id<$($g)*>(a: &[u8], b: &[u8], c: &[u8], t0: &[u8], t1: &[u8], t2: &[u8]) {
                let buf = cat!(a, b, c, t0, t1, t2);
                let mut p = <$P>::from_buffer((&buf[..]).into());
                ok(p.consume(a.len()).map(|_| ()));
                ok(p.set_fit(b.len() + c.len() + t0.len() + t1.len()));
                ok(p.consume(b.len()).map(|_| ()));
                ok(p.set_fit(c.len() + t0.len()));
                ok(p.consume(c.len()).map(|_| ()));
                vp::total("panics");
                match $op(&mut p, t0, 2) {
                    Rest(r) => { drain!(p, r, t1, t2); }
                    Opened(i, o) => { drain!(p, i, o, t1, t2); }
                    Closed => { drain!(p, t1, t2); }
                }
                vp::reached("end");
            }
        }
    };
}

/// one operation of one property, for every parser and depth
macro_rules! law {
    ($m:ident, $id:ident, [$($g:tt)*], $op:expr) => {
        pub mod $m {
            use super::*;
            pub mod byte { use super::*; depths!(ByteParser, $id, [$($g)*], $op); }
            pub mod memo { use super::*; depths!(MemoParser, $id, [$($g)*], $op); }
            pub mod slice { use super::*; depths!(SliceParser, $id, [$($g)*], $op); }
        }
    };
}

// ---------------------------------------------------------------- P09 consumption
/// `n` bytes are asked for: delivered in order when pending, otherwise refused
/// with nothing consumed
fn took(t: &[u8], n: usize, r: Option<&[u8]>) -> After {
    match r {
        Some(got) => {
            vp::holds("available", n <= t.len());
            vp::same("bytes", got, &t[..n]);
            vp::reached("delivered");
            Rest(t[n..].to_vec())
        }
        None => {
            vp::holds("refused only when short", n > t.len());
            vp::reached("refused");
            Rest(t.to_vec())
        }
    }
}

fn exceeds<T>(r: Result<T, ParseError>) -> Option<T> {
    match r {
        Ok(x) => Some(x),
        Err(ParseError::Window(WindowError::ConsumeWouldExceedLimit { .. })) => None,
        Err(_) => {
            vp::never("kind of error");
            None
        }
    }
}

fn consume<P: ParserExt>(p: &mut P, t: &[u8], _d: usize) -> After {
    let n: usize = vp::any();
    let r = exceeds(p.consume(n).map(|s| s.to_vec()));
    took(t, n, r.as_deref())
}
fn byte<P: ParserExt>(p: &mut P, t: &[u8], _d: usize) -> After {
    let r = exceeds(p.consume_byte()).map(|b| vec![b]);
    took(t, 1, r.as_deref())
}
fn arr<P: ParserExt, const K: usize>(p: &mut P, t: &[u8], _d: usize) -> After {
    let r = exceeds(p.consume_arr::<K>()).map(|b| b.to_vec());
    took(t, K, r.as_deref())
}
fn fixed<P: ParserExt, const K: usize>(p: &mut P, t: &[u8], _d: usize) -> After {
    let r = exceeds(p.take_fixed::<K>()).map(|b| b.to_vec());
    took(t, K, r.as_deref())
}
fn dynamic<P: ParserExt>(p: &mut P, t: &[u8], _d: usize) -> After {
    let n: usize = vp::any();
    let r = exceeds(p.take_dynamic(n));
    took(t, n, r.as_deref())
}
macro_rules! taker {
    ($f:ident, $t:ty) => {
        fn $f<P: ParserExt>(p: &mut P, t: &[u8], _d: usize) -> After {
            let r = exceeds(p.$f()).map(|b| b.to_be_bytes().to_vec());
            took(t, std::mem::size_of::<$t>(), r.as_deref())
        }
    };
}
taker!(take_u8, u8);
taker!(take_i8, i8);
taker!(take_u16, u16);
taker!(take_i16, i16);
taker!(take_u32, u32);
taker!(take_i32, i32);
taker!(take_u64, u64);
taker!(take_i64, i64);
taker!(take_f64, f64);

law!(op_consume, p09, [], consume);
law!(op_byte, p09, [], byte);
law!(op_arr, p09, [const K: usize], arr::<_, K>);
law!(op_fixed, p09, [const K: usize], fixed::<_, K>);
law!(op_dynamic, p09, [], dynamic);
law!(op_u8, p09, [], take_u8);
law!(op_i8, p09, [], take_i8);
law!(op_u16, p09, [], take_u16);
law!(op_i16, p09, [], take_i16);
law!(op_u32, p09, [], take_u32);
law!(op_i32, p09, [], take_i32);
law!(op_u64, p09, [], take_u64);
law!(op_i64, p09, [], take_i64);
law!(op_f64, p09, [], take_f64);

// ---------------------------------------------------------------- P10 opening windows
fn set_fit<P: ParserExt>(p: &mut P, t: &[u8], _d: usize) -> After {
    let n: usize = vp::any();
    match p.set_fit(n) {
        Ok(()) => {
            vp::holds("fits", n <= t.len());
            vp::reached("opened");
            Opened(t[..n].to_vec(), t[n..].to_vec())
        }
        Err(ParseError::Window(
            WindowError::OpenWouldExceedBuffer { .. } | WindowError::OpenWouldExceedWindow { .. },
        )) => {
            vp::holds("refused only when too large", n > t.len());
            vp::reached("refused");
            Rest(t.to_vec())
        }
        Err(_) => {
            vp::never("kind of error");
            Rest(t.to_vec())
        }
    }
}
law!(op_set_fit, p10, [], set_fit);

// ---------------------------------------------------------------- P11 closing windows
fn enforce<P: ParserExt>(p: &mut P, t: &[u8], d: usize) -> After {
    match p.enforce_target() {
        Ok(()) => {
            vp::holds("closed only when open and used up", d > 0 && t.is_empty());
            Closed
        }
        Err(ParseError::Window(WindowError::CloseWithoutWindow)) => {
            vp::holds("no window", d == 0);
            Rest(t.to_vec())
        }
        Err(ParseError::Window(WindowError::CloseWithResidue { residual })) => {
            vp::holds("residue", d > 0 && !t.is_empty() && residual == t.len());
            Rest(t.to_vec())
        }
        Err(_) => {
            vp::never("kind of error");
            Rest(t.to_vec())
        }
    }
}
fn test<P: ParserExt>(p: &mut P, t: &[u8], d: usize) -> After {
    match p.test_target() {
        Ok(b) => vp::holds("agrees with enforce_target", b == (d > 0 && t.is_empty())),
        Err(_) => vp::never("test_target failed"),
    }
    Rest(t.to_vec())
}
law!(op_enforce, p11, [], enforce);
law!(op_test, p11, [], test);

// ---------------------------------------------------------------- P12 skipping
fn skip<P: ParserExt>(p: &mut P, t: &[u8], _d: usize) -> After {
    let n: usize = vp::any();
    match p.skip(n) {
        Ok(k) => {
            vp::holds("as many as fit", k == usize::min(n, t.len()));
            Rest(t[k..].to_vec())
        }
        Err(_) => {
            vp::never("skip failed");
            Rest(t.to_vec())
        }
    }
}
fn skip_exactly<P: ParserExt>(p: &mut P, t: &[u8], _d: usize) -> After {
    let n: usize = vp::any();
    match exceeds(p.skip_exactly(n)) {
        Some(()) => {
            vp::holds("available", n <= t.len());
            Rest(t[n..].to_vec())
        }
        None => {
            vp::holds("refused only when short", n > t.len());
            Rest(t.to_vec())
        }
    }
}
law!(op_skip, p12, [], skip);
law!(op_skip_exactly, p12, [], skip_exactly);

/// the payload length announced by the big-endian prefix of `w` bytes
fn announced(t: &[u8], w: usize) -> usize {
    if w == 1 {
        t[0] as usize
    } else if w == 2 {
        u16::from_be_bytes([t[0], t[1]]) as usize
    } else {
        u32::from_be_bytes([t[0], t[1], t[2], t[3]]) as usize
    }
}
macro_rules! prefixed {
    ($m:ident, $l:ty, $w:expr) => {
        pub mod $m {
            use super::*;
            fn prefix<P: ParserExt>(p: &mut P, t: &[u8], _d: usize) -> After {
                match p.process_prefix::<$l>() {
                    Ok(n) => {
                        vp::holds("prefix present", t.len() >= $w);
                        vp::holds("announced", n == announced(t, $w));
                        vp::holds("payload present", n <= t.len() - $w);
                        vp::reached("opened");
                        Opened(t[$w..$w + n].to_vec(), t[$w + n..].to_vec())
                    }
                    Err(_) => {
                        if t.len() < $w {
                            vp::reached("no prefix");
                            return Rest(t.to_vec());
                        }
                        let n = announced(t, $w);
                        vp::holds("refused only when short", n > 0x3fff_ffff || n > t.len() - $w);
                        vp::reached("refused");
                        Rest(t[$w..].to_vec())
                    }
                }
            }
            fn skip<P: ParserExt>(p: &mut P, t: &[u8], _d: usize) -> After {
                match p.skip_dynamic::<$l>() {
                    Ok(n) => {
                        vp::holds("prefix present", t.len() >= $w);
                        vp::holds("announced", n == announced(t, $w));
                        vp::holds("payload present", n <= t.len() - $w);
                        vp::reached("skipped");
                        Rest(t[$w + n..].to_vec())
                    }
                    Err(_) => {
                        if t.len() < $w {
                            vp::reached("no prefix");
                            return Rest(t.to_vec());
                        }
                        let n = announced(t, $w);
                        vp::holds("refused only when short", n > 0x3fff_ffff || n > t.len() - $w);
                        vp::reached("refused");
                        Rest(t[$w..].to_vec())
                    }
                }
            }
            law!(op_prefix, p12, [], prefix);
            law!(op_skip_dynamic, p12, [], skip);
        }
    };
}
prefixed!(prefix_u8, u8, 1);
prefixed!(prefix_u16, u16, 2);
prefixed!(prefix_u30, u30, 4);

// ---------------------------------------------------------------- P22 what is left over
use tedium::parse::cleanup::LeftoverState;

/// `spans` are the bytes pending in each open window, then those pending in
/// the buffer around them
fn leftover(r: tedium::parse::cleanup::CleanupResult, all: &[u8], lens: Vec<usize>, last: usize) {
    match r {
        Err(_) => vp::never("cleanup failed"),
        Ok(s) => {
            vp::holds("len", s.len() == all.len());
            vp::holds("is_empty", s.is_empty() == all.is_empty());
            match s {
                LeftoverState::Empty => {
                    vp::holds("empty", all.is_empty() && lens.is_empty());
                    vp::reached("empty");
                }
                LeftoverState::Windowless(v) => {
                    vp::holds("windowless", lens.is_empty() && !all.is_empty());
                    vp::same("bytes", &v[..], all);
                    vp::reached("windowless");
                }
                LeftoverState::Windowed(w) => {
                    vp::holds("windowed", !lens.is_empty());
                    let (b, l) = w.into_parts();
                    vp::same("bytes", &b[..], all);
                    let mut want = lens;
                    if last > 0 {
                        want.push(last);
                    }
                    vp::same("spans", &l[..], &want[..]);
                    vp::reached("windowed");
                }
            }
        }
    }
    vp::reached("end");
}

macro_rules! cleanups {
    ($P:ty) => {
        use super::*;
        pub mod d0 {
            use super::*;
            pub fn p22(a: &[u8], t0: &[u8]) {
                let buf = cat!(a, t0);
                let mut p = <$P>::from_buffer((&buf[..]).into());
                ok(p.consume(a.len()).map(|_| ()));
                vp::total("panics");
                leftover(p.cleanup(), t0, Vec::new(), t0.len());
            }
        }
        pub mod d1 {
            use super::*;
            pub fn p22(a: &[u8], b: &[u8], t0: &[u8], t1: &[u8]) {
                let buf = cat!(a, b, t0, t1);
                let mut p = <$P>::from_buffer((&buf[..]).into());
                ok(p.consume(a.len()).map(|_| ()));
                ok(p.set_fit(b.len() + t0.len()));
                ok(p.consume(b.len()).map(|_| ()));
                vp::total("panics");
                leftover(p.cleanup(), &cat!(t0, t1)[..], vec![t0.len()], t1.len());
            }
        }
        pub mod d2 {
            use super::*;
            pub fn p22(a: &[u8], b: &[u8], c: &[u8], t0: &[u8], t1: &[u8], t2: &[u8]) {
                let buf = cat!(a, b, c, t0, t1, t2);
                let mut p = <$P>::from_buffer((&buf[..]).into());
                ok(p.consume(a.len()).map(|_| ()));
                ok(p.set_fit(b.len() + c.len() + t0.len() + t1.len()));
                ok(p.consume(b.len()).map(|_| ()));
                ok(p.set_fit(c.len() + t0.len()));
                ok(p.consume(c.len()).map(|_| ()));
                vp::total("panics");
                leftover(p.cleanup(), &cat!(t0, t1, t2)[..], vec![t0.len(), t1.len()], t2.len());
            }
        }
    };
}
pub mod cleaning {
    use super::*;
    pub mod byte { cleanups!(ByteParser); }
    pub mod memo { cleanups!(MemoParser); }
    pub mod slice { cleanups!(SliceParser); }
}

// ---------------------------------------------------------------- P09 byte-wise reading
fn next<P: ParserExt + Iterator<Item = u8>>(p: &mut P, t: &[u8], _d: usize) -> After {
    let r = Iterator::next(p).map(|b| vec![b]);
    took(t, 1, r.as_deref())
}
fn take_bool<P: ParserExt>(p: &mut P, t: &[u8], _d: usize) -> After {
    match p.take_bool() {
        Ok(b) => {
            vp::holds("available", !t.is_empty());
            vp::holds("value", t[0] == if b { 0xff } else { 0x00 });
            vp::reached("delivered");
            Rest(t[1..].to_vec())
        }
        Err(ParseError::Token(tedium::parse::error::TokenError::InvalidBoolean(x))) => {
            vp::holds("offending byte", !t.is_empty() && t[0] == x && x != 0 && x != 0xff);
            vp::reached("invalid");
            Rest(t[1..].to_vec())
        }
        Err(_) => {
            vp::holds("refused only when short", t.is_empty());
            vp::reached("refused");
            Rest(t.to_vec())
        }
    }
}
fn until<P: ParserExt>(p: &mut P, t: &[u8], _d: usize) -> After {
    let stop: u8 = vp::any();
    match p.take_self_terminating(|b| b == stop) {
        Ok(v) => {
            vp::holds("something taken", 0 < v.len() && v.len() <= t.len());
            vp::same("bytes", &v[..], &t[..v.len()]);
            vp::holds("ends at the terminator", v[v.len() - 1] == stop);
            let j: usize = vp::any();
            vp::assume(j < v.len() - 1);
            vp::instance(j);
            vp::holds("stops at the first terminator", t[j] != stop);
            vp::reached("terminated");
            Rest(t[v.len()..].to_vec())
        }
        Err(ParseError::Token(tedium::parse::error::TokenError::NonTerminating(v))) => {
            vp::same("all bytes", &v[..], t);
            let j: usize = vp::any();
            vp::assume(j < t.len());
            vp::instance(j);
            vp::holds("no terminator", t[j] != stop);
            vp::reached("unterminated");
            Rest(Vec::new())
        }
        Err(_) => {
            vp::never("kind of error");
            Rest(t.to_vec())
        }
    }
}
law!(op_next, p09, [], next);
law!(op_bool, p09, [], take_bool);
pub mod op_until {
    use super::*;
    pub mod byte { use super::*; depths!(ByteParser, p09, [], until); }
}

// ---------------------------------------------------------------- P22 the leftover itself
pub mod left_over {
    use super::*;
    pub mod fresh {
        use super::*;
        pub fn p22() {
            vp::total("panics");
            vp::holds("new", matches!(LeftoverState::new(), LeftoverState::Empty));
            vp::holds("default", matches!(LeftoverState::default(), LeftoverState::Empty));
            vp::holds("len", LeftoverState::new().len() == 0);
            vp::holds("is_empty", LeftoverState::new().is_empty());
            vp::reached("end");
        }
    }
    pub mod measure {
        use super::*;
        pub fn p22(s: LeftoverState) {
            vp::total("panics");
            let (n, e) = (s.len(), s.is_empty());
            let k = match s {
                LeftoverState::Empty => 0,
                LeftoverState::Windowless(v) => v.len(),
                LeftoverState::Windowed(w) => w.into_inner().len(),
            };
            vp::holds("len", n == k);
            vp::holds("is_empty", e == (k == 0));
            vp::reached("end");
        }
    }
    pub mod append {
        use super::*;
        pub fn p22_none(v: Vec<u8>) {
            let mut t = v.clone();
            let mut s = LeftoverState::Empty;
            vp::total("panics");
            s.append(&mut t);
            vp::holds("emptied", t.is_empty());
            match s {
                LeftoverState::Windowless(g) => vp::same("bytes", &g[..], &v[..]),
                _ => vp::never("windowless"),
            }
            vp::reached("end");
        }
        pub fn p22_windowless(u: Vec<u8>, v: Vec<u8>) {
            let mut t = v.clone();
            let mut s = LeftoverState::Windowless(u.clone());
            vp::total("panics");
            s.append(&mut t);
            vp::holds("emptied", t.is_empty());
            match s {
                LeftoverState::Windowless(g) => vp::same("bytes", &g[..], &cat!(&u[..], &v[..])[..]),
                _ => vp::never("windowless"),
            }
            vp::reached("end");
        }
        pub fn p22_windowed(s: LeftoverState, v: Vec<u8>) {
            if let LeftoverState::Windowed(w) = s {
                vp::assume(w.is_balanced());
                let mut t = v.clone();
                let mut x = w.clone();
                let mut tv = v.clone();
                x.append_current(&mut tv);
                let (xb, xs) = x.into_parts();
                let mut s = LeftoverState::Windowed(w);
                vp::total("panics");
                s.append(&mut t);
                vp::holds("emptied", t.is_empty());
                match s {
                    LeftoverState::Windowed(g) => {
                        let (gb, gs) = g.into_parts();
                        vp::same("bytes", &gb[..], &xb[..]);
                        vp::same("spans", &gs[..], &xs[..]);
                    }
                    _ => vp::never("windowed"),
                }
                vp::reached("end");
            }
        }
    }
    pub mod escape {
        use super::*;
        fn spans(s: LeftoverState, b: &[u8], l: &[usize]) {
            match s {
                LeftoverState::Windowed(g) => {
                    let (gb, gs) = g.into_parts();
                    vp::same("bytes", &gb[..], b);
                    vp::same("spans", &gs[..], l);
                }
                _ => vp::never("windowed"),
            }
            vp::reached("end");
        }
        pub fn p22_none() {
            let mut s = LeftoverState::Empty;
            vp::total("panics");
            s.escape_context();
            spans(s, &[], &[0]);
        }
        pub fn p22_windowless(u: Vec<u8>) {
            let mut s = LeftoverState::Windowless(u.clone());
            vp::total("panics");
            s.escape_context();
            spans(s, &u[..], &[u.len()]);
        }
        pub fn p22_windowed(s: LeftoverState) {
            if let LeftoverState::Windowed(w) = s {
                vp::assume(w.is_balanced());
                let mut x = w.clone();
                x.split_force();
                let (xb, xs) = x.into_parts();
                let mut s = LeftoverState::Windowed(w);
                vp::total("panics");
                s.escape_context();
                spans(s, &xb[..], &xs[..]);
            }
        }
    }
}

/// any number of windows around the same bytes
macro_rules! deep {
    ($P:ty) => {
        deep!($P, p10_deep, |p, t| { level(&mut p, t); });
        deep!($P, p09_deep, |p, t, _d| {
            let n: usize = vp::any();
            let r = exceeds(p.consume(n).map(|s| s.to_vec()));
            if let Rest(r) = took(t, n, r.as_deref()) {
                level(&mut p, &r[..]);
            }
        });
        deep!($P, p12_deep, |p, t, d| {
            if let Rest(r) = skip(&mut p, t, d) {
                level(&mut p, &r[..]);
            }
        });
        deep!($P, p11_deep, |p, t, d, z| {
            vp::holds("opened", ok(p.test_target()) == t.is_empty());
            ok(p.consume(t.len()).map(|_| ()));
            vp::holds("closes", p.enforce_target().is_ok());
            for _ in 0..d {
                vp::holds("closes", p.enforce_target().is_ok());
            }
            vp::holds("no window left", !ok(p.test_target()));
            level(&mut p, z);
            bottom(&mut p);
        });
        deep!($P, p22_deep, |p, t, d, z| {
            let mut lens = vec![t.len()];
            for _ in 0..d {
                lens.push(0);
            }
            leftover(p.cleanup(), &cat!(t, z)[..], lens, z.len());
        });
    };
    ($P:ty, $id:ident, |$p:ident, $t:ident| $op:block) => { deep!($P, $id, |$p, $t, _d, _z| $op); };
    ($P:ty, $id:ident, |$p:ident, $t:ident, $d:ident| $op:block) => { deep!($P, $id, |$p, $t, $d, _z| $op); };
    ($P:ty, $id:ident, |$p:ident, $t:ident, $d:ident, $z:ident| $op:block) => {
        #[allow(unused_mut)]
        pub fn $id(a: &[u8], $t: &[u8], $z: &[u8], $d: usize) {
            let buf = cat!(a, $t, $z);
            let mut $p = <$P>::from_buffer((&buf[..]).into());
            ok($p.consume(a.len()).map(|_| ()));
            ok($p.set_fit($t.len()));
            for _ in 0..$d {
                ok($p.set_fit($t.len()));
            }
            vp::total("panics");
            $op
            vp::reached("end");
        }
    };
}
pub mod deeper {
    use super::*;
    pub mod byte { use super::*; deep!(ByteParser); }
    pub mod memo { use super::*; deep!(MemoParser); }
    pub mod slice { use super::*; deep!(SliceParser); }
}
