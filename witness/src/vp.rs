//! Markers recognised by the analyser.  Nothing in this crate is ever run: the
//! functions below only name specification points inside type-checked programs.

/// proof obligation: `b` holds whenever control gets here
#[inline(never)]
pub fn holds(_id: &'static str, _b: bool) {}

/// proof obligation: the two values are equal
#[inline(never)]
pub fn same<T: ?Sized>(_id: &'static str, _a: &T, _b: &T) {}

/// proof obligation: control never gets here
#[inline(never)]
pub fn never(_id: &'static str) {}

/// control must be able to get here (guards against vacuous proofs)
#[inline(never)]
pub fn reached(_id: &'static str) {}

/// restricts the paths under analysis
#[inline(never)]
pub fn assume(_b: bool) {}

/// from here on a panic is a violation
#[inline(never)]
pub fn total(_id: &'static str) {}

/// panics are no longer violations
#[inline(never)]
pub fn partial() {}

/// an arbitrary value
#[inline(never)]
pub fn any<T>() -> T {
    loop {}
}

/// everything written so far to an abstract target
#[inline(never)]
pub fn written<U>(_u: &U) -> Vec<u8> {
    loop {}
}

/// what an abstract parser still sees inside its innermost window
#[inline(never)]
pub fn ahead<P>(_p: &P) -> Vec<u8> {
    loop {}
}

/// puts an abstract parser in front of `content ++ tail` (within one window)
#[inline(never)]
pub fn load<P>(_p: &mut P, _content: &[u8], _tail: &[u8]) {}

/// identity of the stack of windows open on an abstract parser
#[inline(never)]
pub fn windows<P>(_p: &P) -> Vec<usize> {
    loop {}
}

/// uses, at this index, what every pass over a preceding loop has established
#[inline(never)]
pub fn instance(_j: usize) {}

/// values of the element types under analysis never encode to nothing (must come first)
#[inline(never)]
pub fn sized() {}

/// the iteration at which the last loop left off
#[inline(never)]
pub fn stop() -> usize {
    0
}
