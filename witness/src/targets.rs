//! P19 - P21: targets, builders and the spans they record.
use crate::vp;
use std::io::Write;
use tedium::conv::target::ByteCounter;
use tedium::parse::cleanup::LeftoverState;
use tedium::*;

fn content<T: Clone>(t: &T) -> Vec<u8>
where
    Vec<u8>: From<T>,
{
    Vec::from(t.clone())
}

// ---------------------------------------------------------------- P19 targets
/// what a target starts from
pub trait Start<T> {
    fn start(self) -> T;
}
impl<T> Start<T> for T {
    fn start(self) -> T {
        self
    }
}
/// a memo builder with up to two groups, the last of which may still be open
pub struct Groups(Vec<u8>, bool, Vec<u8>, bool);
impl Start<MemoBuilder> for Groups {
    fn start(self) -> MemoBuilder {
        let mut t = MemoBuilder::from(self.0);
        if self.1 {
            t.resolve();
            t.push_all(&self.2);
        }
        if self.3 {
            t.resolve();
        }
        t
    }
}
macro_rules! target {
    ($m:ident, $t:ty, $s:ty) => {
        pub mod $m {
            use super::*;
            type S = $s;
            fn grown(old: &[u8], more: &[u8], t: &$t) {
                let mut all = old.to_vec();
                all.extend_from_slice(more);
                vp::same("content", &content(t)[..], &all[..]);
                vp::reached("end");
            }
            pub mod push_one {
                use super::*;
                pub fn p19(t: S, b: u8) {
                    vp::total("panics");
                    let mut t: $t = t.start();
                    let old = content(&t);
                    vp::holds("count", t.push_one(b) == 1);
                    grown(&old[..], &[b], &t);
                }
            }
            pub mod push_many {
                use super::*;
                pub fn p19<const K: usize>(t: S, b: [u8; K]) {
                    vp::assume(K <= isize::MAX as usize);
                    vp::total("panics");
                    let mut t: $t = t.start();
                    let old = content(&t);
                    vp::holds("count", t.push_many(b) == K);
                    grown(&old[..], &b[..], &t);
                }
            }
            pub mod push_all {
                use super::*;
                pub fn p19(t: S, b: &[u8]) {
                    vp::total("panics");
                    let mut t: $t = t.start();
                    let old = content(&t);
                    vp::holds("count", t.push_all(b) == b.len());
                    grown(&old[..], b, &t);
                }
            }
            pub mod resolve {
                use super::*;
                pub fn p19(t: S) {
                    vp::total("panics");
                    let mut t: $t = t.start();
                    let old = content(&t);
                    t.resolve();
                    vp::holds("resolve_zero", t.resolve_zero() == 0);
                    grown(&old[..], &[], &t);
                }
            }
            pub mod anticipate {
                use super::*;
                pub fn p19(t: S, n: usize) {
                    let mut t: $t = t.start();
                    let old = content(&t);
                    t.anticipate(n);
                    grown(&old[..], &[], &t);
                }
            }
            pub mod create {
                use super::*;
                pub fn p19() {
                    vp::total("panics");
                    let t = <$t as Target>::create();
                    grown(&[], &[], &t);
                }
            }
        }
    };
}
/// targets that also are `io::Write`rs
macro_rules! writer {
    ($m:ident, $t:ty, $s:ty) => {
        pub mod $m {
            use super::*;
            pub fn p19(t: $s, b: &[u8]) {
                vp::total("panics");
                let mut t: $t = t.start();
                let mut all = content(&t);
                all.extend_from_slice(b);
                vp::holds("written", matches!(t.write(b), Ok(n) if n == b.len()));
                vp::holds("flush", t.flush().is_ok());
                vp::same("content", &content(&t)[..], &all[..]);
                vp::reached("end");
            }
        }
    };
}
pub mod targets {
    use super::*;
    target!(vector, Vec<u8>, Vec<u8>);
    target!(hex, HexString, HexString);
    target!(strict, StrictBuilder, StrictBuilder);
    target!(memo, MemoBuilder, Groups);
    pub mod counter {
        use super::*;
        pub fn p19<const K: usize>(b: u8, a: [u8; K], s: &[u8], n: usize) {
            vp::total("panics");
            let mut t = <ByteCounter as Target>::create();
            t.anticipate(n);
            vp::holds("one", t.push_one(b) == 1);
            vp::holds("many", t.push_many(a) == K);
            vp::holds("all", t.push_all(s) == s.len());
            t.resolve();
            vp::holds("resolve_zero", t.resolve_zero() == 0);
            vp::reached("end");
        }
    }
    pub mod writers {
        use super::*;
        writer!(hex, HexString, HexString);
        writer!(strict, StrictBuilder, StrictBuilder);
        writer!(memo, MemoBuilder, Groups);
    }
}

// ---------------------------------------------------------------- P20 builders
macro_rules! builder {
    ($m:ident, $t:ty, $seg:expr) => {
        pub mod $m {
            use super::*;
            fn is(t: $t, b: &[u8]) {
                vp::holds("len", Builder::len(&t) == b.len());
                vp::holds("is_empty", Builder::is_empty(&t) == (b.len() == 0));
                vp::same("into_vec", &t.clone().into_vec()[..], b);
                vp::same("into", &Vec::<u8>::from(t.clone())[..], b);
                let last: Vec<u8> = t.finalize().into();
                vp::same("finalize", &last[..], b);
                vp::reached("end");
            }
            pub mod any {
                use super::*;
                pub fn p20(t: $t) {
                    vp::total("panics");
                    let b = content(&t);
                    is(t, &b[..])
                }
            }
            pub mod word {
                use super::*;
                pub fn p20(b: u8) {
                    vp::total("panics");
                    is(<$t as Builder>::word(b), &[b])
                }
            }
            pub mod words {
                use super::*;
                pub fn p20<const K: usize>(b: [u8; K]) {
                    vp::total("panics");
                    is(<$t as Builder>::words(b), &b[..])
                }
            }
            pub mod empty {
                use super::*;
                pub fn p20() {
                    vp::total("panics");
                    is(<$t as Builder>::empty(), &[])
                }
            }
            pub mod promote {
                use super::*;
                pub fn p20(b: Vec<u8>) {
                    vp::total("panics");
                    let f: fn(Vec<u8>) -> <$t as Builder>::Segment = $seg;
                    is(<$t as Builder>::promote(f(b.clone())), &b[..])
                }
            }
            pub mod from_vec {
                use super::*;
                pub fn p20(b: Vec<u8>) {
                    vp::total("panics");
                    is(<$t>::from(b.clone()), &b[..])
                }
            }
            pub mod from_slice {
                use super::*;
                pub fn p20(b: &[u8]) {
                    vp::total("panics");
                    is(<$t>::from(b), b)
                }
            }
            pub mod into_bin {
                use super::*;
                pub fn p20(t: $t) {
                    vp::total("panics");
                    let b = content(&t);
                    match t.into_bin() {
                        Ok(s) => {
                            vp::same("text", s.as_bytes(), &b[..]);
                            vp::reached("end");
                        }
                        Err(_) => vp::holds("refused only when not text", std::str::from_utf8(&b[..]).is_err()),
                    }
                }
            }
            pub mod encoded {
                use super::*;
                /// a value encoded to a builder
                pub fn p20<T: Encode, U: Target>(x: T, u: &mut U) {
                    let t: $t = x.encode();
                    let old = vp::written(u);
                    let _ = x.write_to(u);
                    let new = vp::written(u);
                    let mut all = old.clone();
                    all.extend_from_slice(&content(&t)[..]);
                    vp::same("encoding", &new[..], &all[..]);
                    vp::reached("end");
                }
            }
        }
    };
}
pub mod builders {
    use super::*;
    builder!(strict, StrictBuilder, StrictBuilder::from);
    builder!(memo, MemoBuilder, |v| v);
    pub mod strict_borrow {
        use super::*;
        pub fn p20(b: Vec<u8>) {
            vp::total("panics");
            let t = StrictBuilder::from(b.clone());
            vp::same("borrow", <StrictBuilder as std::borrow::Borrow<[u8]>>::borrow(&t), &b[..]);
            vp::reached("end");
        }
    }
    pub mod memo_new {
        use super::*;
        pub fn p20() {
            vp::total("panics");
            let t = MemoBuilder::new();
            vp::holds("empty", Builder::is_empty(&t) && t.into_vec().len() == 0);
            vp::holds("default", Builder::is_empty(&MemoBuilder::default()));
            vp::reached("end");
        }
    }
}

// ---------------------------------------------------------------- P21 spans
pub mod spans {
    use super::*;
    /// all laws about recorded spans start from any balanced one
    macro_rules! law {
        ($m:ident, ($w:ident $(, $x:ident : $t:ty)*), $b:ident, $s:ident, $live:ident, $body:block, $wb:expr, $ws:expr) => {
            pub mod $m {
                use super::*;
                pub fn p21(start: LeftoverState $(, $x: $t)*) {
                    #[allow(unused_mut)]
                    if let LeftoverState::Windowed(mut $w) = start {
                        vp::assume($w.is_balanced());
                        let ($b, $s) = $w.clone().into_parts();
                        let mut c = $w.clone();
                        c.split_force();
                        // the last span is still open
                        let $live = c.into_parts().1.len() == $s.len();
                        vp::assume(!$live || $s[$s.len() - 1] <= $b.len());
                        let (wb, ws): (Vec<u8>, Vec<usize>) = ($wb, $ws);
                        vp::total("panics");
                        $body
                        vp::holds("balanced", $w.is_balanced());
                        vp::holds("len", $w.len() == wb.len());
                        vp::same("into_inner", &$w.clone().into_inner()[..], &wb[..]);
                        let (gb, gs) = $w.into_parts();
                        vp::same("bytes", &gb[..], &wb[..]);
                        vp::same("spans", &gs[..], &ws[..]);
                        vp::reached("end");
                    }
                }
            }
        };
    }
    fn plus(b: &[u8], c: &[u8]) -> Vec<u8> {
        let mut r = b.to_vec();
        r.extend_from_slice(c);
        r
    }
    /// the spans after `n` further elements have been recorded
    fn more(s: &[usize], live: bool, n: usize) -> Vec<usize> {
        let mut r = s.to_vec();
        if live {
            let i = s.len() - 1;
            r[i] = s[i] + n;
        } else {
            r.push(n);
        }
        r
    }
    law!(nothing, (w), b, s, live, { let _ = live; }, b.clone(), s.clone());
    law!(split, (w), b, s, live, { let _ = live; w.split(); }, b.clone(), s.clone());
    law!(split_twice, (w), b, s, live, { let _ = live; w.split(); w.split(); }, b.clone(), s.clone());
    law!(split_force, (w), b, s, live, { w.split_force(); }, b.clone(), if live { s.clone() } else { let mut r = s.clone(); r.push(0); r });
    law!(cleave, (w), b, s, live, { let _ = live; w.cleave(); }, b.clone(), { let mut r = s.clone(); r.push(0); r });
    law!(push, (w, x: u8), b, s, live, { w.push_current(x); }, plus(&b, &[x]), more(&s, live, 1));
    law!(push_after_split, (w, x: u8), b, s, live, { let _ = live; w.split(); w.push_current(x); }, plus(&b, &[x]), more(&s, false, 1));
    law!(extend_slice, (w, v: Vec<u8>), b, s, live, { w.extend_current_from_slice(&v); }, plus(&b, &v), more(&s, live, v.len()));
    law!(extend, (w, v: Vec<u8>), b, s, live, { w.extend_current(v.clone()); }, plus(&b, &v), more(&s, live, v.len()));
    law!(append, (w, v: Vec<u8>), b, s, live, { let mut t = v.clone(); w.append_current(&mut t); vp::holds("emptied", t.is_empty()); }, plus(&b, &v), more(&s, live, v.len()));
    pub mod concat {
        use super::*;
        pub fn p21(l: LeftoverState, r: LeftoverState) {
            if let (LeftoverState::Windowed(mut a), LeftoverState::Windowed(mut b)) = (l, r) {
                vp::assume(a.is_balanced());
                vp::assume(b.is_balanced());
                let (ab, mut spans) = a.clone().into_parts();
                let (bb, bs) = b.clone().into_parts();
                let bytes = plus(&ab, &bb);
                spans.extend_from_slice(&bs[..]);
                vp::total("panics");
                a.concat(&mut b);
                vp::holds("balanced", a.is_balanced() && b.is_balanced());
                vp::holds("emptied", b.is_empty());
                let (gb, gs) = a.into_parts();
                vp::same("bytes", &gb[..], &bytes[..]);
                vp::same("spans", &gs[..], &spans[..]);
                vp::reached("end");
            }
        }
    }
    pub mod contiguous {
        use super::*;
        pub fn p21(l: LeftoverState) {
            if let LeftoverState::Windowed(w) = l {
                vp::total("panics");
                let s = w.clone().into_parts().1;
                vp::holds("contiguous", w.is_contiguous() == (s.len() <= 1));
                vp::holds("empty", w.is_empty() == (s.is_empty() && w.len() == 0));
                vp::reached("end");
            }
        }
    }
    pub mod iterate {
        use super::*;
        /// the slices handed out are the recorded spans
        pub fn p21(l: LeftoverState) {
            if let LeftoverState::Windowed(w) = l {
                vp::assume(w.is_balanced());
                let (b, s) = w.clone().into_parts();
                let mut it = w.spans();
                match it.next() {
                    Some(x) => {
                        vp::holds("first", s.len() > 0 && x.len() == s[0]);
                        vp::same("first bytes", x, &b[..s[0]]);
                        vp::reached("some");
                    }
                    None => {
                        vp::holds("none", s.len() == 0);
                        vp::reached("none");
                    }
                }
            }
        }
        pub fn p21_back(l: LeftoverState) {
            if let LeftoverState::Windowed(w) = l {
                vp::assume(w.is_balanced());
                let (b, s) = w.clone().into_parts();
                let mut it = w.spans();
                match it.next_back() {
                    Some(x) => {
                        vp::holds("last", s.len() > 0 && x.len() == s[s.len() - 1]);
                        vp::same("last bytes", x, &b[b.len() - s[s.len() - 1]..]);
                        vp::reached("some");
                    }
                    None => {
                        vp::holds("none", s.len() == 0);
                        vp::reached("none");
                    }
                }
            }
        }
    }
    // builders record what was written between two resolutions as one span: equal histories
    // of grouping give equal builders, however the bytes of a group were pushed
    pub mod builder_grouping {
        use super::*;
        pub fn p21<const K: usize>(t: Groups, a: [u8; K]) {
            vp::assume(K <= isize::MAX as usize);
            vp::total("panics");
            let t: MemoBuilder = t.start();
            let (mut x, mut y, mut z) = (t.clone(), t.clone(), t);
            x.push_many(a);
            y.push_all(&a[..]);
            let _ = z.write(&a[..]);
            vp::same("push_many is push_all", &x, &y);
            vp::same("push_many is write", &x, &z);
            vp::reached("end");
        }
        pub fn p21_bytes(t: Groups, a: u8, b: u8) {
            vp::total("panics");
            let t: MemoBuilder = t.start();
            let (mut x, mut y) = (t.clone(), t);
            x.push_many([a, b]);
            y.push_one(a);
            y.push_one(b);
            vp::same("push_one twice is push_many", &x, &y);
            vp::reached("end");
        }
        pub fn p21_resolve(t: Groups) {
            vp::total("panics");
            let t: MemoBuilder = t.start();
            let (mut x, mut y, mut z) = (t.clone(), t.clone(), t);
            x.resolve();
            y.resolve();
            y.resolve();
            let _ = z.flush();
            vp::same("resolving twice", &x, &y);
            vp::same("flushing", &x, &z);
            vp::reached("end");
        }
        /// the spans of a finished builder are those of the groups
        pub fn p21_groups(v: Vec<u8>, w: Vec<u8>) {
            vp::total("panics");
            let mut x = MemoBuilder::new();
            x.push_all(&v);
            x.resolve();
            x.push_all(&w);
            let mut y = MemoBuilder::promote(v);
            y.resolve();
            y.push_all(&w);
            vp::same("promoted", &x.clone().finalize().clone(), &y.finalize());
            let mut z = MemoBuilder::new();
            z.push_all(&x.clone().into_vec());
            vp::same("same bytes", &x.into_vec()[..], &z.into_vec()[..]);
            vp::reached("end");
        }
    }
}

// ---------------------------------------------------------------- P21 the vector itself
#[cfg(feature = "expose_internal")]
pub mod split_vec {
    use super::*;
    use tedium::internal::SplitVec;
    fn j(b: &[u16], c: &[u16]) -> Vec<u16> {
        let mut r = b.to_vec();
        r.extend_from_slice(c);
        r
    }
    pub mod made {
        use super::*;
        pub fn p21_new() {
            vp::total("panics");
            let w = SplitVec::<u8>::new();
            vp::holds("empty", w.is_empty() && w.len() == 0 && w.is_balanced() && w.is_contiguous());
            let (b, s) = w.into_parts();
            vp::holds("parts", b.is_empty() && s.is_empty());
            vp::reached("end");
        }
        pub fn p21_from_vec(v: Vec<u16>) {
            vp::total("panics");
            let w = SplitVec::from_vec(v.clone());
            vp::holds("balanced", w.is_balanced() && w.is_contiguous());
            let f: SplitVec<u16> = v.clone().into();
            vp::same("as_ref", &AsRef::<Vec<u16>>::as_ref(&w)[..], &v[..]);
            let back: Vec<u16> = w.clone().into();
            vp::same("back", &back[..], &v[..]);
            let (b, s) = w.into_parts();
            vp::same("elements", &b[..], &v[..]);
            vp::same("spans", &s[..], &[v.len()][..]);
            let (b, s) = f.into_parts();
            vp::same("converted elements", &b[..], &v[..]);
            vp::same("converted spans", &s[..], &[v.len()][..]);
            vp::reached("end");
        }
    }
    pub mod collected {
        use super::*;
        pub fn p21_two(v: Vec<u16>, u: Vec<u16>) {
            vp::total("panics");
            let w: SplitVec<u16> = [v.clone(), u.clone()].into_iter().collect();
            vp::holds("balanced", w.is_balanced());
            let (b, s) = w.into_parts();
            vp::same("elements", &b[..], &j(&v, &u)[..]);
            vp::same("spans", &s[..], &[v.len(), u.len()][..]);
            vp::reached("end");
        }
        pub fn p21_extended(v: Vec<u16>, u: Vec<u16>, x: Vec<u16>) {
            vp::total("panics");
            let mut w = SplitVec::from_vec(x.clone());
            w.extend([v.clone(), u.clone()]);
            vp::holds("balanced", w.is_balanced());
            let (b, s) = w.into_parts();
            vp::same("elements", &b[..], &j(&j(&x, &v), &u)[..]);
            vp::same("spans", &s[..], &[x.len(), v.len(), u.len()][..]);
            vp::reached("end");
        }
    }
    pub mod compared {
        use super::*;
        pub fn p21(l: SplitVec<u16>, r: SplitVec<u16>) {
            vp::assume(l.is_balanced() && r.is_balanced());
            vp::total("panics");
            let (lb, ls) = l.clone().into_parts();
            let (rb, rs) = r.clone().into_parts();
            if l == r {
                vp::same("elements", &lb[..], &rb[..]);
                vp::same("spans", &ls[..], &rs[..]);
            }
            vp::reached("end");
        }
    }
}
