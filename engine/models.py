"""Transfer functions for the standard library and num-bigint primitives."""
import re
from .terms import *
from . import terms as TM
from . import seqs, ints, values
from .seqs import NeedSplit, length, cat, mk, EMPTY
from .values import TY, canon, val_eq, mkagg, UNIT
from .interp import Out, State, Undecided, short, is_closure

EXACT = {}
FAM = []

ITER = 'core::slice::iter::Iter'
ITERMUT = 'core::slice::iter::IterMut'
INTOITER = 'alloc::vec::into_iter::IntoIter'
ORD = 'core::cmp::Ordering'


def model(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def family(rx):
    def d(f):
        FAM.append((re.compile('(?:' + rx + r')\Z'), f))
        return f
    return d


class C:
    """one call being modelled"""
    __slots__ = ('I', 'st', 'c', 'args', 'dty', 'span', 'atys', 'm')

    def __init__(self, I_, st, c, args, dty, span, atys, m=None):
        self.I, self.st, self.c, self.args, self.dty, self.span, self.atys, self.m = \
            I_, st, c, args, dty, span, atys, m

    def ret(self, v, st=None):
        return [Out('ret', st or self.st, v)]

    def panic(self, why, st=None):
        fr = self.I.stack[-1][0] if self.I.stack else '?'
        return [Out('panic', st or self.st, None, (why, fr, self.span, self.I.callchain()))]

    def ub(self, why, st=None):
        fr = self.I.stack[-1][0] if self.I.stack else '?'
        return [Out('ub', st or self.st, None, (why, fr, self.span, self.I.callchain()))]

    def get(self, i):
        """value behind reference argument i"""
        return self.I.read_ref(self.st, self.args[i])

    def getq(self, i):
        v = self.args[i]
        n = 0
        while v.op != 'seq' and n < 6:
            if v.op in ('mref', 'sref', 'oref'):
                v = self.I.read_ref(self.st, v)
            elif v.op == 'agg' and v.args[0] == 'box':
                v = v.args[2]
            elif v.op == 'agg' and v.args[0] == 'alloc::borrow::Cow':
                v = v.args[2]
            else:
                return None
            n += 1
        return v if v.op == 'seq' else None

    def put(self, i, v):
        self.I.write_ref(self.st, self.args[i], v)

    def fork(self, cond):
        """[(truth, state)] for both feasible truth values"""
        out = []
        for s in self.st.assume(cond):
            out.append((True, s.copy()))
        for s in self.st.assume(bnot(cond)):
            out.append((False, s.copy()))
        return out

    def targ(self, i=0):
        a = self.c.get('rargs') or self.c.get('args') or []
        ts = [x['t'] for x in a if isinstance(x, dict) and 't' in x]
        return ts[i] if i < len(ts) else None

    def unk(self, why=''):
        return canon(T('unk', fresh_id(), why or short(self.c['def'])), self.dty)


_famc = {}


def find(name):
    f = EXACT.get(name)
    if f:
        return f, None
    r = _famc.get(name)
    if r is None:
        r = (None, None)
        for rx, g in FAM:
            m = rx.match(name)
            if m:
                r = (g, m)
                break
        _famc[name] = r
    return r


def lookup(I_, st, c, args, dty, span, atys):
    if I_.hooks:
        r = I_.hooks.call(I_, st, c, args, dty, span, atys)
        if r is not None:
            return r
    for name in (c.get('rdef'), c['def']):
        if not name:
            continue
        f, m = find(name)
        if f:
            r = f(C(I_, st, c, args, dty, span, atys, m))
            if r is not None:
                return r
    return None


def contract(I_, st, c, args, dty, span, atys):
    if I_.hooks:
        return I_.hooks.contract(I_, st, c, args, dty, span, atys)
    return None


# ------------------------------------------------------------------ panics
@family(r'core::panicking::.*')
def _(k):
    why = 'panic'
    n = k.c['def'].split('::')[-1]
    if n in ('panic', 'panic_fmt', 'panic_nounwind', 'panic_nounwind_fmt', 'panic_display', 'panic_str_2015',
             'unreachable_display', 'panic_explicit'):
        why = 'panic'
    else:
        why = n
    return k.panic(why)


@model('core::option::expect_failed', 'core::option::unwrap_failed', 'core::result::unwrap_failed',
       'core::result::unwrap_failed::unwrap_failed_inner', 'core::slice::index::slice_index_fail',
       'core::slice::index::slice_start_index_len_fail', 'core::slice::index::slice_end_index_len_fail',
       'core::slice::index::slice_index_order_fail', 'alloc::alloc::handle_alloc_error',
       'alloc::raw_vec::capacity_overflow', 'alloc::raw_vec::handle_error',
       'core::slice::copy_from_slice_impl::len_mismatch_fail', 'core::str::slice_error_fail')
def _(k):
    return k.panic(k.c['def'].split('::')[-1])


@family(r'.*::precondition_check')
def _(k):
    return k.ret(UNIT)


@model('core::hint::unreachable_unchecked', 'core::intrinsics::unreachable')
def _(k):
    return k.ub('unreachable_unchecked')


@model('core::hint::assert_unchecked', 'core::intrinsics::assume')
def _(k):
    out = []
    for t, s in k.fork(k.args[0]):
        out += k.ret(UNIT, s) if t else k.ub('assume violated', s)
    return out


@model('core::intrinsics::likely', 'core::intrinsics::unlikely', 'core::hint::black_box', 'core::intrinsics::black_box')
def _(k):
    return k.ret(k.args[0])


@model('core::intrinsics::cold_path', 'alloc::alloc::__rust_dealloc', 'core::mem::forget', 'core::mem::drop', 'core::ptr::drop_in_place')
def _(k):
    return k.ret(UNIT)


@model('core::intrinsics::size_of', 'core::intrinsics::align_of', 'core::intrinsics::size_of_val',
       'core::intrinsics::align_of_val', 'core::mem::size_of', 'core::mem::align_of')
def _(k):
    t = k.targ()
    y = TY[t] if t is not None else {}
    if k.c['def'].endswith('size_of') and y.get('k') in ('int', 'uint', 'float'):
        return k.ret(I(y['bits'] // 8))
    if k.c['def'].endswith('size_of') and y.get('k') == 'bool':
        return k.ret(ONE)
    return k.ret(canon(T('layout', short(k.c['def']), y.get('s', '')), k.dty))


@model('core::any::type_name', 'core::any::type_name_of_val')
def _(k):
    t = k.targ()
    return k.ret(canon(T('typename', TY[t]['s'] if t is not None else ''), k.dty))


# ------------------------------------------------------------------ formatting
FMT = 'core::fmt::Formatter'
FMTTR = ('Display', 'Debug', 'LowerHex', 'UpperHex', 'Octal', 'Binary', 'LowerExp', 'UpperExp', 'Pointer')


@family(r'core::fmt::rt::Argument::.*|core::fmt::Arguments::(?!.*as_statically_known_str).*|core::fmt::rt::.*')
def _(k):
    return k.ret(T('fmtarg', k.c['def'], *k.args, *[k.I.const(k.st, c) for c in shower(k)]))


def shower(k):
    """the formatting function an argument is made with"""
    if not k.c['def'].split('::')[-1].startswith('new_') or k.c.get('key') not in k.I.p.raw:
        return []
    for b in k.I.p.raw[k.c['key']]['blocks']:
        for x in b['s']:
            if x[0] == '=' and x[2][0] == 'cast' and 'ReifyFnPointer' in x[2][1] and x[2][2][0] == 'k' and x[2][2][1].get('k') == 'fn':
                return [x[2][2][1]]
    return []


@family(r'std::io::stdio::(_print|_eprint)')
def _(k):
    return k.ret(UNIT)


def fmtfields():
    """(type, index of the options, index of the buffer) of a Formatter"""
    for i, y in enumerate(TY):
        if isinstance(y, dict) and y.get('def') == FMT:
            fs = [f['n'] for f in y['v'][0]['f']]
            return i, fs.index('options'), fs.index('buf')
    return None


def sink(k, st, r):
    """(reference to the text a Formatter or fmt::Write reference writes to, its formatting options)"""
    for _ in range(6):
        v = k.I.read_ref(st, r)
        if v.op == 'seq':
            return r, None
        if v.op == 'agg' and v.args[0] == FMT:
            w, o = fmtparts(v)
            r2, _o = sink(k, st, w)
            return (r2, o) if r2 is not None else (None, None)
        if v.op not in ('mref', 'oref'):
            return None, None
        r = v
    return None, None


def fmtparts(v):
    a, b = v.args[2:4]
    return (b, a) if b.op in ('mref', 'oref') else (a, b)


def append(k, st, r, q):
    st = st.copy()
    k.I.write_ref(st, r, cat(k.I.read_ref(st, r), q))
    return [Out('ret', st, ok(UNIT))]


def options(o):
    """(flags, width, precision) when known"""
    if o is None or o.op != 'agg' or len(o.args) != 5:
        return None
    xs = [const_of(x) for x in o.args[2:]]
    return None if None in xs else xs


def plain(o):
    x = options(o)
    return x is not None and not x[0] & 0x18000000


@family(r'(?:core::fmt::Formatter::<.*|<core::fmt::Formatter<.*> as core::fmt::Write>)::(write_str|pad|write_char|write_fmt)')
def _(k):
    r, o = sink(k, k.st, k.args[0])
    if r is None:
        return k.ret(canon(T('unk', fresh_id(), 'fmtres'), k.dty))
    how = k.m.group(1)
    if how == 'write_fmt':
        x = emit(k, k.st, r, k.args[1])
        if x is not None:
            return x
    elif how == 'write_char':
        c = k.args[1]
        if c.op == 'lin' and k.st.F.ask(band(le(ZERO, c), le(c, I(127)))) is True:
            return append(k, k.st, r, mk([seqs.u(c)]))
    else:
        q = k.getq(1)
        if q is not None and (how == 'write_str' or plain(o)):
            return append(k, k.st, r, q)
        if q is not None:
            return append(k, k.st, r, seqs.whole(T('padded', seqs.norm(q, k.st.F), o)))
    return append(k, k.st, r, seqs.whole(T('unk', fresh_id(), 'fmt')))


@family(r'core::fmt::Formatter::<.*::(?!new\Z|options\Z|alternate\Z|width\Z|precision\Z|fill\Z|align\Z|sign_plus\Z|sign_minus\Z|sign_aware_zero_pad\Z|with_options\Z).*')
def _(k):
    r, o = sink(k, k.st, k.args[0])
    if r is not None:
        append(k, k.st, r, EMPTY)
        k.st = append(k, k.st, r, seqs.whole(T('unk', fresh_id(), 'fmt')))[0].st
        if 'debug_' not in k.c['def'] or k.c['def'].endswith('_finish'):
            return k.ret(ok(UNIT))
    return k.ret(canon(T('unk', fresh_id(), 'fmtres'), k.dty))


@family(r'.* as core::fmt::(?:%s)>::fmt|core::fmt::.*::<impl core::fmt::(?:%s) for .*>::fmt|core::fmt::(?:%s)::fmt' % (('|'.join(FMTTR),) * 3))
def _(k):
    """text of a value whose formatting is not part of this codebase: a function
    of the value, its type and the formatting options"""
    name = k.c.get('rdef') or k.c['def']
    tr = (k.c.get('trait') or '').split('::')[-1]
    if tr not in FMTTR or len(k.args) != 2:
        return None
    if k.c.get('rk') != 'unresolved' and re.match(r'<?(tedium|vpwit|witness)\b', name):
        return None
    a = k.c.get('args') or []
    if not a or 't' not in a[0]:
        return None
    y = TY[a[0]['t']]
    if y['k'] == 'ref' or y.get('def') == values.BOX:
        return None
    if k.c.get('rk') != 'unresolved' and y['k'] not in ('int', 'uint', 'float', 'bool', 'char', 'str') and \
            not name.startswith(('<alloc::string::', '<num_big', 'num_big', '<str ')) and y.get('def') not in values.BIG:
        return None
    r, o = sink(k, k.st, k.args[1])
    if r is None:
        return k.ret(canon(T('unk', fresh_id(), 'fmtres'), k.dty))
    v = k.args[0]
    n = 0
    while v.op in ('sref', 'mref', 'oref') and n < 6:
        v = k.I.read_ref(k.st, v)
        n += 1
    v = k.st.F.subst(v)
    if v.op == 'seq' and tr == 'Display':
        if plain(o):
            return append(k, k.st, r, v)
        return append(k, k.st, r, seqs.whole(T('padded', seqs.norm(v, k.st.F), o)))
    x = options(o)
    if x is not None and tr in ('LowerHex', 'UpperHex') and v.op == 'lin' and y['k'] == 'uint' and y['bits'] == 8:
        ds = hexdigits(k.st, v, tr == 'LowerHex', x[0], x[1] if x[0] & 0x08000000 else None)
        if ds is not None:
            return [z for s, d in ds for z in append(k, s, r, d)]
    t = y['s']
    if y['k'] in ('int', 'uint') and (tr == 'Display' or v.op == 'lin' and k.st.F.ask(le(ZERO, v)) is True):
        t = 'number'
    return append(k, k.st, r, seqs.whole(T('shown', tr, t, v, o)))


def emit(k, st, r, a):
    """write a formatted-text description to the text behind r; None when it is not understood"""
    ps = pieces(k, st, a)
    ff = fmtfields()
    if ps is None or ff is None:
        return None
    live, done = [Out('ret', st.copy(), ok(UNIT))], []
    for p in ps:
        nxt = []
        for o in live:
            if p[0] == 'text':
                nxt += append(k, o.st, r, p[1])
                continue
            _, x, flags, width = p
            s = o.st.copy()
            slot = ('fmt', fresh_id())
            opt = mkagg('core::fmt::FormattingOptions', 0, [I(flags), I(width or 0), ZERO])
            fs = [None, None]
            fs[ff[1]], fs[ff[2]] = opt, r
            s.store[slot] = mkagg(FMT, 0, fs)
            for z in k.I.invoke(s, k.I._cl[x.args[-1].args[1]], [x.args[1], T('mref', slot, ())], k.dty if restype(k) else None, k.span, [None, None]):
                if z.kind != 'ret':
                    done.append(z)
                    continue
                d = values.discr_of(z.val, z.st.F, None) if z.val is not None and z.val.op == 'agg' else None
                v = z.val.args[1] if z.val.op == 'agg' else None
                if v == 0:
                    nxt.append(z)
                elif v == 1:
                    done.append(z)
                else:
                    return None
        live = nxt
    return live + done


def restype(k):
    y = TY[k.dty] if k.dty is not None else {}
    return y.get('def') == 'core::result::Result'


def pieces(k, st, a):
    """[('text', seq) | ('arg', fmtarg, flags, width)]"""
    if a.op != 'fmtarg':
        return None
    last = a.args[0].split('::')[-1]
    if last in ('from_str', 'from_str_nonconst', 'new_const'):
        q = k.I.read_ref(st, a.args[1]) if a.args[1].op in ('sref', 'mref', 'oref') else a.args[1]
        return [('text', q)] if q.op == 'seq' else None
    if last != 'new' or len(a.args) < 3:
        return None
    F = st.F
    q = k.I.read_ref(st, a.args[1])
    n = const_of(length(q)) if q.op == 'seq' else None
    if n is None:
        return None
    bs = [const_of(seqs.index(q, I(i), F)) for i in range(n)]
    av = k.I.read_ref(st, a.args[2])
    if None in bs or av.op != 'seq' or const_of(length(av)) is None:
        return None
    av = [seqs.index(av, I(i), F) for i in range(const_of(length(av)))]
    out = []
    i = nxt = 0
    while i < n and bs[i]:
        b = bs[i]
        i += 1
        if b <= 0x80:
            if b == 0x80:
                b = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(('text', mk([seqs.u(I(x)) for x in bs[i:i + b]])))
            i += b
            continue
        if b & 0xf0 != 0xc0:
            return None
        flags, width = 0x60000020, None
        if b & 1:
            flags = sum(bs[i + j] << (8 * j) for j in range(4))
            i += 4
        if b & 2:
            width = bs[i] | bs[i + 1] << 8
            i += 2
        if b & 4:
            return None
        if b & 8:
            nxt = bs[i] | bs[i + 1] << 8
            i += 2
        if nxt >= len(av) or av[nxt].op != 'fmtarg' or av[nxt].args[-1].op != 'fn':
            return None
        out.append(('arg', av[nxt], flags, width))
        nxt += 1
    return out


@model('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def _(k):
    st = k.st.copy()
    slot = ('fmt', fresh_id())
    st.store[slot] = EMPTY
    r = emit(k, st, T('mref', slot, ()), k.args[0])
    if r is not None:
        return [o if o.kind != 'ret' else Out('ret', o.st, o.st.store[slot]) for o in r]
    s = T('fmt', *k.args)
    return k.ret(canon(s, k.dty))


@model('core::fmt::write', '<alloc::string::String as core::fmt::Write>::write_fmt')
def _(k):
    r, _o = sink(k, k.st, k.args[0])
    return emit(k, k.st, r, k.args[1]) if r is not None else None


@family(r'core::fmt::Arguments::.*as_statically_known_str')
def _(k):
    return k.ret(NONE)


def hexdigits(st, v, lower, flags, width):
    """[(state, text)] of a byte in base 16, bare or zero-padded to two digits"""
    if flags & 0x0fe00000 & ~0x09000000:
        return None
    if st.F.ask(band(le(ZERO, v), le(v, I(255)))) is not True:
        return None
    if width is not None and not (width == 2 and flags & 0x01000000):
        return None
    al = 87 if lower else 55
    out = []
    hi, lo = ints.div(v, 16), ints.mod(v, 16)

    def digit(s, d):
        return [(y, seqs.u(add(d, I(48)))) for y in s.assume(le(d, I(9)))] + \
               [(y, seqs.u(add(d, I(al)))) for y in s.assume(le(I(10), d))]
    for s, a in digit(st, hi):
        for s2, b in digit(s, lo):
            if width is None:
                for y in s2.assume(eqi(hi, ZERO)):
                    out.append((y, mk([b])))
                for y in s2.assume(bnot(eqi(hi, ZERO))):
                    out.append((y, mk([a, b])))
            else:
                out.append((s2, mk([a, b])))
    return out


# ------------------------------------------------------------------ mem / ptr
@model('core::mem::swap', 'core::intrinsics::typed_swap_nonoverlapping')
def _(k):
    a, b = k.get(0), k.get(1)
    k.put(0, b)
    k.put(1, a)
    return k.ret(UNIT)


@model('core::mem::replace')
def _(k):
    a = k.get(0)
    k.put(0, k.args[1])
    return k.ret(a)


@model('core::ptr::read', 'core::ptr::const_ptr::<impl *const T>::read', 'core::ptr::mut_ptr::<impl *mut T>::read',
       'core::intrinsics::read_via_copy')
def _(k):
    if k.args[0].op in ('mref', 'sref', 'oref'):
        return k.ret(k.get(0))


@model('core::ptr::write', 'core::ptr::mut_ptr::<impl *mut T>::write', 'core::intrinsics::write_via_move')
def _(k):
    if k.args[0].op in ('mref', 'oref'):
        k.put(0, k.args[1])
        return k.ret(UNIT)


@model('core::ptr::non_null::NonNull::<T>::as_ref', 'core::ptr::non_null::NonNull::<T>::as_ptr',
       'core::ptr::non_null::NonNull::<T>::new_unchecked', 'core::ptr::non_null::NonNull::<T>::as_mut',
       'core::ptr::unique::Unique::<T>::as_ptr', 'core::ptr::const_ptr::<impl *const T>::cast',
       'core::ptr::mut_ptr::<impl *mut T>::cast', 'core::ptr::const_ptr::<impl *const T>::cast_mut',
       'core::ptr::mut_ptr::<impl *mut T>::cast_const')
def _(k):
    v = k.args[0]
    if v.op == 'mref':
        w = k.get(0)
        if w.op in ('mref', 'sref', 'oref') and 'NonNull' in k.c['def'] and k.c['def'].endswith(('as_ref', 'as_mut')):
            v = w
    elif v.op == 'sref' and k.c['def'].endswith('as_ref') and v.args[0].op in ('mref', 'sref'):
        v = v.args[0]
    return k.ret(v)


@model('core::slice::raw::from_raw_parts', 'core::slice::raw::from_raw_parts_mut', 'core::slice::from_raw_parts')
def _(k):
    q = k.getq(0)
    if q is not None:
        n = k.args[1]
        r = k.st.F.ask(le(n, length(q)))
        if r is True:
            return k.ret(sref(seqs.slice_(q, ZERO, n, k.st.F)))
    return k.ret(k.unk())


# ------------------------------------------------------------------ clone / convert / default
@model('core::clone::Clone::clone')
def _(k):
    rd = k.c.get('rdef')
    if k.c.get('rk') == 'unresolved' or rd is None or not k.c.get('key'):
        return k.ret(k.get(0))
    return None


@family(r'<alloc::vec::Vec<T, A> as core::clone::Clone>::clone|<alloc::string::String as core::clone::Clone>::clone|'
        r'core::clone::impls::.*::clone|<alloc::boxed::Box<.*> as core::clone::Clone>::clone|'
        r'<core::marker::PhantomData<T> as core::clone::Clone>::clone|<num_bigint::.* as core::clone::Clone>::clone|'
        r'core::array::<impl core::clone::Clone for \[T; N\]>::clone|<core::slice::iter::Iter<.*> as core::clone::Clone>::clone|'
        r'<alloc::vec::into_iter::IntoIter<.*> as core::clone::Clone>::clone|'
        r'<arrayvec::.* as core::clone::Clone>::clone|<core::.* as core::clone::Clone>::clone')
def _(k):
    return k.ret(k.get(0))


@model('core::convert::From::from', 'core::convert::Into::into')
def _(k):
    a = k.c.get('args') or []
    if len(a) == 2 and a[0] == a[1]:
        return k.ret(k.args[0])
    # Vec/String/Box conversions that keep the elements
    if k.c.get('key') and not _seqish(k):
        return None
    return _conv(k)


def _seqish(k):
    y = TY[k.dty] if k.dty is not None else {}
    return y.get('k') == 'adt' and (y['def'] in values.SEQ_ADTS or y['def'] == values.BOX)


def _conv(k):
    y = TY[k.dty] if k.dty is not None else {}
    v = k.args[0]
    if y.get('k') != 'adt':
        return None
    d = y['def']
    if d in values.SEQ_ADTS:
        q = k.getq(0)
        if q is not None:
            return k.ret(q)
    if d == values.BOX:
        e = values.first_ty(y)
        ek = TY[e]['k'] if e is not None else ''
        if ek in ('slice', 'str'):
            q = k.getq(0)
            if q is not None:
                return k.ret(T('agg', 'box', 0, q))
        return None
    if d in values.BIG and v.op == 'lin':
        return k.ret(v)
    return None


@family(r'alloc::vec::<impl core::convert::From<.*> for alloc::vec::Vec<.*>>::from|'
        r'<alloc::vec::Vec<.*> as core::convert::From<.*>>::from|'
        r'<alloc::string::String as core::convert::From<.*>>::from|'
        r'alloc::string::<impl core::convert::From<alloc::string::String> for alloc::vec::Vec<u8>>::from|'
        r'alloc::slice::<impl \[T\]>::(to_vec|into_vec|to_owned|to_vec_in)|alloc::slice::<impl alloc::borrow::ToOwned for \[T\]>::to_owned|'
        r'alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned|alloc::str::<impl str>::(to_owned|into_string)|'
        r'alloc::string::String::(from_str|into_bytes)|<str as alloc::string::SpecToString>::spec_to_string|'
        r'<T as alloc::slice::<impl \[T\]>::to_vec_in::ConvertVec>::to_vec|alloc::slice::hack::to_vec|'
        r'alloc::borrow::ToOwned::to_owned')
def _(k):
    q = k.getq(0)
    if q is not None:
        return k.ret(q)


@family(r'.*::ToString>::to_string|alloc::string::ToString::to_string')
def _(k):
    q = k.getq(0)
    if q is not None and k.atys and k.atys[0] is not None:
        y = TY[k.atys[0]]
        while y['k'] == 'ref':
            y = TY[y['e']]
        if y['k'] == 'str' or y.get('def') == 'alloc::string::String':
            return k.ret(q)
    return None


@family(r'<alloc::boxed::Box<.*> as core::convert::From<.*>>::from|alloc::boxed::convert::<impl core::convert::From<.*> for alloc::boxed::Box<\[T\].*>>::from|'
        r'alloc::vec::Vec::<T, A>::into_boxed_slice|alloc::string::String::into_boxed_str')
def _(k):
    q = k.getq(0)
    y = TY[k.dty] if k.dty is not None else {}
    e = values.first_ty(y)
    if q is not None and e is not None and TY[e]['k'] in ('slice', 'str'):
        return k.ret(T('agg', 'box', 0, q))
    if y.get('def') == values.BOX:
        return k.ret(T('agg', 'box', 0, k.args[0]))


@model('alloc::boxed::Box::<T>::new', 'alloc::boxed::box_new', 'alloc::boxed::Box::<T, A>::new_in')
def _(k):
    return k.ret(T('agg', 'box', 0, k.args[0]))


@family(r'<alloc::(?:rcs::)?(?:rc::Rc|sync::Arc|arc::Arc)<.*> as core::convert::From<.*>>::from')
def _(k):
    q = k.getq(0)
    e = values.first_ty(TY[k.dty]) if k.dty is not None else None
    if q is not None and e is not None and TY[e]['k'] in ('slice', 'str'):
        return k.ret(T('agg', 'box', 0, q))


@family(r'alloc::(?:rcs::)?(?:rc::Rc|sync::Arc|arc::Arc)::<T>::new')
def _(k):
    return k.ret(T('agg', 'box', 0, k.args[0]))


@family(r'<alloc::(?:rcs::)?(?:rc::Rc|sync::Arc|arc::Arc)<T, A> as core::(?:ops::deref::Deref|convert::AsRef<.*>|borrow::Borrow<.*>)>::\w+')
def _(k):
    v = k.get(0)
    if v.op == 'agg' and v.args[0] == 'box':
        return k.ret(sref(v.args[2]))


@family(r"core::slice::iter::Iter::<'a, T>::as_slice|alloc::vec::into_iter::IntoIter::<T, A>::as_slice")
def _(k):
    v = k.get(0)
    if v.op == 'agg' and v.args[0] in (ITER, INTOITER) and len(v.args) == 3 and v.args[2].op == 'seq':
        return k.ret(sref(v.args[2]))


@model('alloc::boxed::Box::<T, A>::into_inner')
def _(k):
    v = k.args[0]
    if v.op == 'agg' and v.args[0] == 'box':
        return k.ret(v.args[2])


@family(r'<alloc::boxed::Box<T, A> as core::(convert::AsRef|borrow::Borrow|ops::deref::Deref|convert::AsMut|borrow::BorrowMut|ops::deref::DerefMut).*')
def _(k):
    a = k.args[0]
    if a.op == 'mref':
        v = k.get(0)
        if v.op == 'agg' and v.args[0] == 'box':
            return k.ret(T('mref', a.args[0], a.args[1] + (('box',),)))
    v = k.get(0)
    if v.op == 'agg' and v.args[0] == 'box':
        return k.ret(sref(v.args[2]))


@model('alloc::boxed::box_new_uninit')
def _(k):
    return k.ret(k.unk())


@model('alloc::boxed::Box::<T>::new_uninit', 'alloc::boxed::Box::<[T]>::new_uninit_slice')
def _(k):
    return k.ret(T('agg', 'box', 0, T('uninit', fresh_id())))


@model('alloc::boxed::box_assume_init_into_vec_unsafe', 'alloc::boxed::Box::<core::mem::maybe_uninit::MaybeUninit<T>>::assume_init')
def _(k):
    v = k.args[0]
    while v.op in ('agg', 'union'):
        # the initialised field of MaybeUninit (its only other field is `()`)
        v = v.args[0] if v.op == 'union' else v.args[-1]
    if v.op == 'seq':
        return k.ret(v)


IDENT = (r'<alloc::vec::Vec<T, A> as core::(ops::deref::Deref|ops::deref::DerefMut|convert::AsRef<.*>|convert::AsMut<.*>|borrow::Borrow<.*>|borrow::BorrowMut<.*>)>::\w+|'
         r'alloc::vec::Vec::<T, A>::(as_slice|as_mut_slice|as_ptr|as_mut_ptr|leak)|'
         r'alloc::slice::<impl core::borrow::Borrow(Mut)?<\[T\]> for alloc::vec::Vec<T, A>>::\w+|'
         r'alloc::str::<impl core::borrow::Borrow(Mut)?<str> for alloc::string::String>::\w+|'
         r'<alloc::string::String as core::(ops::deref::Deref|ops::deref::DerefMut|convert::AsRef<.*>|borrow::Borrow<.*>)>::\w+|'
         r'alloc::string::String::(as_str|as_bytes|as_mut_str|as_mut_vec)|core::str::<impl str>::(as_bytes|as_ptr|as_bytes_mut)|'
         r'core::str::<impl core::convert::AsRef<.*> for str>::as_ref|core::str::<impl core::convert::AsRef<\[u8\]> for str>::as_ref|'
         r'core::slice::<impl core::convert::AsRef<\[T\]> for \[T\]>::as_ref|<\[T\] as core::convert::AsRef<\[T\]>>::as_ref|'
         r'<\[T; N\] as core::convert::As(Ref|Mut)<\[T\]>>::as_(ref|mut)|core::array::<impl core::convert::As(Ref|Mut)<\[T\]> for \[T; N\]>::as_\w+|'
         r'core::array::<impl core::borrow::Borrow(Mut)?<\[T\]> for \[T; N\]>::\w+|'
         r'core::array::<impl \[T; N\]>::(as_slice|as_mut_slice)|core::slice::<impl \[T\]>::(as_ptr|as_mut_ptr)|'
         r'core::str::converts::from_utf8_unchecked|alloc::string::String::from_utf8_unchecked|'
         r'core::array::<impl core::convert::AsRef<\[T\]> for \[T; N\]>::as_ref|'
         r'<T as core::borrow::Borrow(Mut)?<T>>::\w+|core::borrow::<impl core::borrow::Borrow<T> for .*>::borrow|'
         r'<arrayvec::.* as core::ops::deref::Deref(Mut)?>::\w+|arrayvec::.*::(as_slice|as_mut_slice|as_ptr)|'
         r'core::array::iter::.*IntoIterator.*XX')


@family(IDENT)
def _(k):
    return k.ret(k.args[0])


@model('core::convert::AsRef::as_ref', 'core::ops::deref::Deref::deref', 'core::borrow::Borrow::borrow',
       'core::convert::AsMut::as_mut', 'core::ops::deref::DerefMut::deref_mut')
def _(k):
    if k.c.get('rk') != 'unresolved':
        return None
    v = k.get(0)
    if v.op == 'seq':
        return k.ret(k.args[0])
    return None


@family(r'<(\w+) as core::default::Default>::default')
def _(k):
    n = k.m.group(1)
    if n in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'char'):
        return k.ret(ZERO)
    if n == 'bool':
        return k.ret(FALSE)
    if n in ('f64', 'f32'):
        return k.ret(T('fconst', 0, 64 if n == 'f64' else 32))
    return None


@family(r'<num_bigint::.* as core::default::Default>::default|num_bigint::.*Zero.*::zero|<num_bigint::.* as num_traits::identities::Zero>::zero')
def _(k):
    return k.ret(ZERO)


# ------------------------------------------------------------------ Vec
@family(r'alloc::vec::Vec::<T>::(new|with_capacity)|alloc::vec::Vec::<T, A>::(new_in|with_capacity_in)|alloc::string::String::(new|with_capacity)|'
        r'<alloc::vec::Vec<T> as core::default::Default>::default|<alloc::string::String as core::default::Default>::default|'
        r'core::slice::<impl core::default::Default for &\[T\]>::default|<&\[T\] as core::default::Default>::default|'
        r'arrayvec::.*ArrayVec::<.*>::new|<arrayvec::.* as core::default::Default>::default')
def _(k):
    y = TY[k.dty] if k.dty is not None else {}
    if y.get('k') == 'ref':
        return k.ret(sref(EMPTY))
    return k.ret(EMPTY)


LENF = (r'(alloc::vec::Vec::<T, A>|core::slice::<impl \[T\]>|core::str::<impl str>|alloc::string::String|arrayvec::.*ArrayVec::<.*>|'
        r'alloc::collections::vec_deque::VecDeque::<T, A>|<arrayvec::.*>)::')


@family(LENF + r'len')
def _(k):
    q = k.getq(0)
    if q is not None:
        return k.ret(length(q))
    return k.ret(canon(T('len', k.get(0)), k.dty))


@family(LENF + r'is_empty')
def _(k):
    q = k.getq(0)
    if q is not None:
        return k.ret(le0(length(q)))


@family(LENF + r'(capacity|remaining_capacity)')
def _(k):
    t = T('sym', fresh_id(), 'cap')
    v = canon(t, k.dty)
    q = k.getq(0)
    if q is not None and k.m.group(2) == 'capacity':
        r = k.st.assume(le(length(q), v))
        return [Out('ret', s, v) for s in r]
    return k.ret(v)


@family(LENF + r'(reserve|reserve_exact|shrink_to_fit|shrink_to)')
def _(k):
    return k.ret(UNIT)


@family(LENF + r'(push|push_unchecked|push_mut|push_within_capacity|push_str)')
def _(k):
    q = k.getq(0)
    if q is None:
        return None
    op = k.m.group(2)
    if 'arrayvec' in k.c['def'] and op == 'push':
        return None
    if op == 'push_str':
        k.put(0, cat(q, k.getq(1)))
    else:
        n = length(q)
        if k.args[1].op == 'lin' and 'String' in k.c['def']:
            k.put(0, cat(q, T('seq', T('utf8c', k.args[1])))) if not k.st.F.ent_le(sub(k.args[1], I(127))) else k.put(0, mk([q, seqs.u(k.args[1])]))
            return k.ret(UNIT)
        k.put(0, mk([q, seqs.u(k.args[1])]))
        if op == 'push_mut':
            return k.ret(T('mref', k.args[0].args[0], k.args[0].args[1] + (('i', n),)))
    return k.ret(UNIT)


@family(LENF + r'pop')
def _(k):
    q = k.getq(0)
    if q is None:
        return None
    out = []
    for e, s in k.fork(le0(length(q))):
        if e:
            out += k.ret(NONE, s)
        else:
            r = seqs.unsnoc(q, s.F)
            k.I.write_ref(s, k.args[0], r[0])
            out += k.ret(some(r[1]), s)
    return out


@family(LENF + r'clear')
def _(k):
    k.put(0, EMPTY)
    return k.ret(UNIT)


@family(LENF + r'truncate')
def _(k):
    q = k.getq(0)
    if q is None:
        return None
    out = []
    for e, s in k.fork(le(length(q), k.args[1])):
        if not e:
            k.I.write_ref(s, k.args[0], seqs.slice_(q, ZERO, k.args[1], s.F))
        out += k.ret(UNIT, s)
    return out


@family(LENF + r'set_len')
def _(k):
    q = k.getq(0)
    out = []
    for e, s in k.fork(le(k.args[1], length(q))):
        if e:
            k.I.write_ref(s, k.args[0], seqs.slice_(q, ZERO, k.args[1], s.F))
            out += k.ret(UNIT, s)
        else:
            out += k.ub('set_len beyond initialised elements', s)
    return out


@family(LENF + r'append')
def _(k):
    a, b = k.getq(0), k.getq(1)
    if a is None or b is None:
        return None
    k.put(0, cat(a, b))
    k.put(1, EMPTY)
    return k.ret(UNIT)


@family(LENF + r'(extend_from_slice|try_extend_from_slice)|'
        r'<alloc::vec::Vec<T, A> as alloc::vec::spec_extend::SpecExtend<&\'a T, core::slice::iter::Iter<\'a, T>>>::spec_extend')
def _(k):
    a, b = k.getq(0), k.getq(1)
    if b is None and k.args[1].op == 'agg' and k.args[1].args[0] == ITER:
        b = k.args[1].args[2]
    if a is None or b is None:
        return None
    if 'try_' in k.c['def']:
        return None
    k.put(0, cat(a, b))
    return k.ret(UNIT)


@family(LENF + r'insert')
def _(k):
    q = k.getq(0)
    if q is None or k.args[1].op != 'lin':
        return None
    out = []
    for e, s in k.fork(le(k.args[1], length(q))):
        if e:
            a, b = seqs.cut(q, k.args[1], s.F)
            k.I.write_ref(s, k.args[0], mk(list(a.args) + [seqs.u(k.args[2])] + list(b.args)))
            out += k.ret(UNIT, s)
        else:
            out += k.panic('insert index out of bounds', s)
    return out


@family(LENF + r'(remove|swap_remove)')
def _(k):
    q = k.getq(0)
    if q is None or k.args[1].op != 'lin':
        return None
    out = []
    for e, s in k.fork(lt(k.args[1], length(q))):
        if e:
            a, b = seqs.cut(q, k.args[1], s.F)
            x, rest = seqs.uncons(b, s.F)
            if k.m.group(2) == 'remove':
                nq = cat(a, rest)
            else:
                if s.F.ask(le0(length(rest))) is None:
                    raise NeedSplit(le0(length(rest)))
                if s.F.ask(le0(length(rest))):
                    nq = a
                else:
                    r2, l = seqs.unsnoc(rest, s.F)
                    nq = mk(list(a.args) + [seqs.u(l)] + list(r2.args))
            k.I.write_ref(s, k.args[0], nq)
            out += k.ret(x, s)
        else:
            out += k.panic('remove index out of bounds', s)
    return out


@family(LENF + r'split_off')
def _(k):
    q = k.getq(0)
    if q is None:
        return None
    out = []
    for e, s in k.fork(le(k.args[1], length(q))):
        if e:
            a, b = seqs.cut(q, k.args[1], s.F)
            k.I.write_ref(s, k.args[0], a)
            out += k.ret(b, s)
        else:
            out += k.panic('split_off out of bounds', s)
    return out


@family(LENF + r'(resize|resize_with)')
def _(k):
    q = k.getq(0)
    if q is None or k.m.group(2) != 'resize':
        return None
    out = []
    n = k.args[1]
    for e, s in k.fork(le(n, length(q))):
        if e:
            k.I.write_ref(s, k.args[0], seqs.slice_(q, ZERO, n, s.F))
        else:
            k.I.write_ref(s, k.args[0], mk(list(q.args) + [T('rep', k.args[2], sub(n, length(q)))]))
        out += k.ret(UNIT, s)
    return out


@model('alloc::vec::from_elem', '<T as alloc::vec::spec_from_elem::SpecFromElem>::from_elem',
       '<u8 as alloc::vec::spec_from_elem::SpecFromElem>::from_elem')
def _(k):
    return k.ret(mk([T('rep', k.args[0], k.args[1])]))


@family(LENF + r'(first|last|first_mut|last_mut|split_first|split_last)')
def _(k):
    q = k.getq(0)
    if q is None:
        return None
    op = k.m.group(2)
    out = []
    for e, s in k.fork(le0(length(q))):
        if e:
            out += k.ret(NONE, s)
            continue
        if op.endswith('_mut'):
            ix = ZERO if op == 'first_mut' else sub(length(q), ONE)
            r = elem_ref(k, s, ix)
            if r is None:
                return None
            out += k.ret(some(r), s)
        elif op == 'first':
            out += k.ret(some(sref(seqs.uncons(q, s.F)[0])), s)
        elif op == 'last':
            out += k.ret(some(sref(seqs.unsnoc(q, s.F)[1])), s)
        elif op == 'split_first':
            x, r = seqs.uncons(q, s.F)
            out += k.ret(some(tup(sref(x), sref(r))), s)
        else:
            r, x = seqs.unsnoc(q, s.F)
            out += k.ret(some(tup(sref(x), sref(r))), s)
    return out


def seq_loc(k, s, a):
    """mutable location of the sequence behind reference a"""
    n = 0
    while n < 6:
        if a.op == 'oref':
            loc = k.I.deref(s, None, a)
            a = T('mref', loc[1], loc[2])
        if a.op != 'mref':
            return None
        v = k.I.read_ref(s, a)
        if v.op == 'seq':
            return a
        if v.op == 'agg' and v.args[0] == 'box':
            a = T('mref', a.args[0], a.args[1] + (('box',),))
        else:
            a = v
        n += 1
    return None


def elem_ref(k, s, ix):
    r = seq_loc(k, s, k.args[0])
    if r is None:
        return None
    return T('mref', r.args[0], r.args[1] + (('i', s.F.subst(ix)),))


def range_of(k, a, n):
    """(lo, hi) lins for a range argument, plus extra validity condition"""
    if a.op == 'lin':
        return None
    if a.op == 'agg':
        nm = a.args[0].split('::')[-1] if isinstance(a.args[0], str) else ''
        f = a.args[2:]
        if nm == 'Range':
            return f[0], f[1]
        if nm == 'RangeTo':
            return ZERO, f[0]
        if nm == 'RangeFrom':
            return f[0], n
        if nm == 'RangeFull':
            return ZERO, n
        if nm == 'RangeInclusive':
            return f[0], add(f[1], ONE)
        if nm == 'RangeToInclusive':
            return ZERO, add(f[0], ONE)
    return None


@family(r'(core::slice::index::<impl core::ops::index::Index(?:Mut)?<.*> for \[T\]>|<alloc::vec::Vec<T, A> as core::ops::index::Index(?:Mut)?<I>>|'
        r'core::array::<impl core::ops::index::Index(?:Mut)?<I> for \[T; N\]>|<.* as core::slice::index::SliceIndex<.*>>|core::str::traits::<impl core::slice::index::SliceIndex<str> for .*>|'
        r'core::slice::<impl \[T\]>|core::str::traits::<impl core::ops::index::Index<I> for str>|'
        r'<alloc::string::String as core::ops::index::Index<.*>>|core::str::<impl str>|core::slice::index::<impl core::slice::index::SliceIndex<.*> for .*>|'
        r'core::slice::index::SliceIndex)::'
        r'(index|index_mut|get|get_mut|get_unchecked|get_unchecked_mut)')
def _(k):
    op = k.m.group(2)
    a, ix = k.args[0], k.args[1]
    if 'SliceIndex' in k.m.group(1):
        a, ix = ix, a
    sa = list(k.args)
    k.args = [a, ix]
    q = k.getq(0)
    if q is None:
        k.args = sa
        return None
    isstr = 'str' in k.m.group(1).split('SliceIndex')[-1] and ('str>' in k.m.group(1) or 'for str' in k.m.group(1) or 'impl str' in k.m.group(1) or 'String' in k.m.group(1))
    n = length(q)
    mutl = None
    if op.endswith('mut'):
        mutl = seq_loc(k, k.st, a)
        if mutl is None:
            k.args = sa
            return None
    if ix.op == 'lin':
        cond = lt(ix, n)
        lo = None
    else:
        r = range_of(k, ix, n)
        if r is None:
            k.args = sa
            return None
        lo, hi = r
        cond = band(le(lo, hi), le(hi, n))
    out = []
    for e, s in k.fork(cond):
        if e:
            if mutl is not None:
                p = (('i', s.F.subst(ix)),) if lo is None else (('ss', s.F.subst(lo), s.F.subst(hi)),)
                v = T('mref', mutl.args[0], mutl.args[1] + p)
            elif lo is None:
                try:
                    v = sref(seqs.index(q, ix, s.F))
                except NeedSplit as ns:
                    raise NeedSplit(ns.cond)
            else:
                v = sref(seqs.slice_(q, lo, hi, s.F))
            if isstr and lo is not None:
                # char boundaries
                for b, s2 in forkst(s, band(boundary(q, lo, s.F), boundary(q, hi, s.F))):
                    if b:
                        out += k.ret(some(v) if op.startswith('get') and 'unchecked' not in op else v, s2)
                    elif op.startswith('get') and 'unchecked' not in op:
                        out += k.ret(NONE, s2)
                    else:
                        out += k.panic('str slice not on a char boundary', s2)
                continue
            out += k.ret(some(v) if op in ('get', 'get_mut') else v, s)
        elif op in ('get', 'get_mut'):
            out += k.ret(NONE, s)
        elif 'unchecked' in op:
            out += k.ub(op + ' out of bounds', s)
        else:
            out += k.panic('index out of bounds', s)
    return out


def forkst(s, cond):
    return [(True, x.copy()) for x in s.assume(cond)] + [(False, x.copy()) for x in s.assume(bnot(cond))]


def boundary(q, i, F):
    if F.ask(le0(i)) or F.ask(eqi(i, length(q))):
        return TRUE
    return bor(le0(i), le(length(q), i), batom(T('charboundary', q, i)))


@family(LENF + r'(split_at|split_at_mut|split_at_unchecked|split_at_checked|split_at_mut_unchecked)')
def _(k):
    q = k.getq(0)
    if q is None:
        return None
    op = k.m.group(2)
    out = []
    for e, s in k.fork(le(k.args[1], length(q))):
        if e:
            if 'mut' in op:
                r = seq_loc(k, s, k.args[0])
                if r is None:
                    return None
                m = s.F.subst(k.args[1])
                v = tup(T('mref', r.args[0], r.args[1] + (('ss', ZERO, m),)),
                        T('mref', r.args[0], r.args[1] + (('ss', m, length(q)),)))
            else:
                a, b = seqs.cut(q, k.args[1], s.F)
                v = tup(sref(a), sref(b))
            out += k.ret(some(v) if op.endswith('_checked') and 'un' not in op else v, s)
        elif op == 'split_at_checked':
            out += k.ret(NONE, s)
        elif 'unchecked' in op:
            out += k.ub(op + ' out of bounds', s)
        else:
            out += k.panic('split_at out of bounds', s)
    return out


@family(LENF + r'(copy_from_slice|clone_from_slice)')
def _(k):
    a, b = k.getq(0), k.getq(1)
    if a is None or b is None:
        return None
    out = []
    for e, s in k.fork(eqi(length(a), length(b))):
        if e:
            k.I.write_ref(s, k.args[0], b)
            out += k.ret(UNIT, s)
        else:
            out += k.panic('copy_from_slice length mismatch', s)
    return out


@family(LENF + r'fill')
def _(k):
    q = k.getq(0)
    if q is None:
        return None
    k.put(0, mk([T('rep', k.args[1], length(q))]))
    return k.ret(UNIT)


@family(LENF + r'(concat|join)')
def _(k):
    q = k.getq(0)
    if q is None or k.m.group(2) != 'concat':
        return None
    r = flatten(q)
    if r is None:
        return None
    return k.ret(r)


def flatten(q):
    """concatenation of a sequence of sequences"""
    out = []
    for p in q.args:
        if p.op == 'u' and p.args[0].op == 'seq':
            out.extend(p.args[0].args)
        elif p.op == 'u' and p.args[0].op == 'sref' and p.args[0].args[0].op == 'seq':
            out.extend(p.args[0].args[0].args)
        elif p.op == 'sub':
            s, lo, hi = p.args
            e = seqs.elem(s, atom(seqs.bv(0)))
            while e.op == 'sref':
                e = e.args[0]
            if e.op != 'seq':
                return None
            kk = seqs.bvdepth(e)
            body = seqs.elem(s, atom(seqs.bv(kk)))
            while body.op == 'sref':
                body = body.args[0]
            out.append(T('for', kk, lo, hi, body))
        elif p.op == 'for':
            kk, lo, hi, body = p.args
            r = flatten(body)
            if r is None:
                return None
            out.append(T('for', kk, lo, hi, r))
        elif p.op == 'rep' and p.args[0].op == 'seq':
            kk = seqs.bvdepth(p.args[0])
            out.append(T('for', kk, ZERO, p.args[1], p.args[0]))
        else:
            return None
    return mk(out)


@family(LENF + r'(contains)')
def _(k):
    q = k.getq(0)
    if q is None or k.args[1].op == 'agg':
        return None
    if 'str' in k.c['def']:
        return None
    x = k.get(1)
    conds = []
    for p in q.args:
        if p.op == 'u':
            conds.append(val_eq(p.args[0], x, k.st.F))
        elif p.op == 'be':
            for i in range(p.args[0]):
                conds.append(val_eq(seqs.byte_of(p.args[0], i, p.args[1]), x, k.st.F))
        elif p.op == 'rep':
            conds.append(band(le(ONE, p.args[1]), val_eq(p.args[0], x, k.st.F)))
        else:
            return k.ret(batom(T('contains', q, x)))
    return k.ret(bor(*conds))


@family(LENF + r'(starts_with|ends_with)')
def _(k):
    a, b = k.getq(0), k.getq(1)
    if a is None or b is None:
        return None
    out = []
    for e, s in k.fork(le(length(b), length(a))):
        if not e:
            out += k.ret(FALSE, s)
        else:
            if k.m.group(2) == 'starts_with':
                h = seqs.cut(a, length(b), s.F)[0]
            else:
                h = seqs.cut(a, sub(length(a), length(b)), s.F)[1]
            out += k.ret(val_eq(h, b, s.F), s)
    return out


@family(r'alloc::vec::Vec::<T, A>::drain|alloc::string::String::drain')
def _(k):
    q = k.getq(0)
    r = range_of(k, k.args[1], length(q)) if q is not None else None
    if r is None:
        return None
    lo, hi = r
    out = []
    for e, s in k.fork(band(le(lo, hi), le(hi, length(q)))):
        if e:
            a, bc = seqs.cut(q, lo, s.F)
            b, c = seqs.cut(bc, sub(hi, lo), s.F)
            k.I.write_ref(s, k.args[0], cat(a, c))
            out += k.ret(agg(INTOITER, 0, b), s)
        else:
            out += k.panic('drain out of bounds', s)
    return out


# ------------------------------------------------------------------ equality / order
SEQEQ = (r'<alloc::vec::Vec<T, A1> as core::cmp::PartialEq<.*>>::(eq|ne)|alloc::vec::partial_eq::<impl core::cmp::PartialEq<.*> for .*>::(eq|ne)|'
         r'<A as core::slice::cmp::SlicePartialEq<B>>::(equal|equal_same_length)|core::slice::cmp::<impl core::cmp::PartialEq<.*> for \[T\]>::(eq|ne)|'
         r'core::array::equality::<impl core::cmp::PartialEq<.*> for .*>::(eq|ne)|<T as core::array::equality::SpecArrayEq<U, N>>::(spec_eq|spec_ne)|'
         r'<alloc::string::String as core::cmp::PartialEq.*>::(eq|ne)|core::str::traits::<impl core::cmp::PartialEq for str>::(eq|ne)|'
         r'alloc::string::<impl core::cmp::PartialEq<.*> for .*>::(eq|ne)|core::slice::cmp::SlicePartialEq::equal(_same_length)?|'
         r'<arrayvec::.* as core::cmp::PartialEq.*>::(eq|ne)')


@family(SEQEQ)
def _(k):
    a, b = k.getq(0), k.getq(1)
    if a is None or b is None:
        if k.c['def'].endswith('SliceEq'):
            return None
        a, b = k.get(0), k.get(1)
    e = val_eq(a, b, k.st.F)
    last = (k.c.get('rdef') or k.c['def']).split('::')[-1]
    return k.ret(bnot(e) if last in ('ne', 'spec_ne') else e)


@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def _(k):
    if k.c.get('rk') == 'unresolved':
        a, b = k.get(0), k.get(1)
        e = val_eq(a, b, k.st.F)
        return k.ret(e if k.c['name'] == 'eq' else bnot(e))
    return None


@family(r'core::cmp::impls::<impl core::cmp::PartialEq(?:<.*>)? for (\w+|\(\)|!)>::(eq|ne)')
def _(k):
    a, b = k.get(0), k.get(1)
    if a.op == 'lin' and b.op == 'lin' or values.is_bool(a) and values.is_bool(b):
        e = val_eq(a, b, k.st.F)
        return k.ret(e if k.m.group(2) == 'eq' else bnot(e))
    return None


@family(r'<num_bigint::.* as core::cmp::PartialEq.*>::(eq|ne)')
def _(k):
    e = val_eq(k.get(0), k.get(1), k.st.F)
    return k.ret(e if k.m.group(1) == 'eq' else bnot(e))


@family(r'core::cmp::impls::<impl core::cmp::(Ord|PartialOrd)(?:<.*>)? for (\w+)>::(cmp|partial_cmp|lt|le|gt|ge)|<num_bigint::\w+::(\w+) as core::cmp::(?:Ord|PartialOrd).*>::(cmp|partial_cmp)')
def _(k):
    a, b = k.get(0), k.get(1)
    op = k.m.group(3) or k.m.group(5)
    if a.op != 'lin' or b.op != 'lin':
        return None
    if op == 'lt':
        return k.ret(lt(a, b))
    if op == 'le':
        return k.ret(le(a, b))
    if op == 'gt':
        return k.ret(lt(b, a))
    if op == 'ge':
        return k.ret(le(b, a))
    o = k.I.ordering(k.st, a, b)
    return k.ret(o if op == 'cmp' else some(o))


LEXORD = (r'(?:core::slice::cmp::<impl core::cmp::(?:Ord|PartialOrd) for \[T\]>|<alloc::vec::Vec<T, A\d?> as core::cmp::(?:Ord|PartialOrd)(?:<.*>)?>|'
          r'core::array::<impl core::cmp::(?:Ord|PartialOrd) for \[T; N\]>|core::str::traits::<impl core::cmp::(?:Ord|PartialOrd) for str>|'
          r'<alloc::string::String as core::cmp::(?:Ord|PartialOrd)>|<arrayvec::.* as core::cmp::(?:Ord|PartialOrd)>)::(cmp|partial_cmp|lt|le|gt|ge)')


@family(LEXORD)
def _(k):
    """lexicographic order: the sign of an unknown difference, zero exactly for equal sequences"""
    a, b = k.getq(0), k.getq(1)
    if a is None or b is None:
        return None
    op = k.m.group(1)
    F = k.st.F
    a, b = F.subst(seqs.norm(a, F)), F.subst(seqs.norm(b, F))
    out = []
    for same, s in k.fork(values.val_eq(a, b, F)):
        if same:
            d = ZERO
            outs = [s]
        else:
            x, y = seqs._ord(a, b)
            t = T('lexdiff', x, y)
            TM.INFO.setdefault(t, (-1, 1))
            d = atom(t)
            outs = [z.copy() for z in s.assume(bnot(eqi(d, ZERO)))]
            if x is not a:
                d = scale(d, -1)
        for z in outs:
            if op in ('lt', 'le', 'gt', 'ge'):
                c = {'lt': lt(d, ZERO), 'le': le(d, ZERO), 'gt': lt(ZERO, d), 'ge': le(ZERO, d)}[op]
                out += k.ret(c, z)
                continue
            for neg, w in [(n, w.copy()) for n in (True, False) for w in z.assume(lt(d, ZERO) if n else le(ZERO, d))]:
                o = agg(ORD, 0 if neg else 1 if same else 2)
                out += k.ret(o if op == 'cmp' else some(o), w)
    return out


@family(r'core::cmp::Ord::(max|min)|core::cmp::(max|min)|core::cmp::impls::<impl core::cmp::Ord for \w+>::(max|min)|core::intrinsics::integer_(max|min)')
def _(k):
    a, b = k.args
    if a.op != 'lin' or b.op != 'lin':
        return None
    op = [g for g in k.m.groups() if g][0]
    out = []
    for e, s in k.fork(le(a, b)):
        if op == 'min':
            out += k.ret(a if e else b, s)
        else:
            out += k.ret(b if e else a, s)
    return out


@model('core::intrinsics::three_way_compare')
def _(k):
    a, b = k.args
    if a.op != 'lin' or b.op != 'lin':
        return None
    return k.ret(k.I.ordering(k.st, a, b))


@model('core::intrinsics::select_unpredictable', 'core::hint::select_unpredictable')
def _(k):
    if not values.is_bool(k.args[0]):
        return None
    return [o for e, s in k.fork(k.args[0]) for o in k.ret(k.args[1 if e else 2], s)]


@family(r'core::intrinsics::saturating_(add|sub)')
def _(k):
    y = TY[k.dty]
    if y.get('s') not in ITY or any(x.op != 'lin' for x in k.args):
        return None
    lo, hi = ints.trange(*ITY[y['s']])
    r = add(*k.args) if k.m.group(1) == 'add' else sub(*k.args)
    out = []
    for big, s in k.fork(lt(I(hi), r)):
        for small, z in [(None, s)] if big else [(e, w) for w0 in [s] for e, w in forkst(w0, lt(r, I(lo)))]:
            out += k.ret(I(hi) if big else I(lo) if small else r, z)
    return out


@family(r'core::intrinsics::(ctpop|ctlz|ctlz_nonzero|cttz|cttz_nonzero|bitreverse|bswap)')
def _(k):
    """no theory of bit counting: equal arguments give equal results, no more"""
    y = TY[k.dty]
    if y.get('s') not in ITY or any(x.op != 'lin' for x in k.args):
        return None
    bits = ITY[y['s']][0]
    t = T('intfn', y['s'], k.m.group(1), *k.args)
    if 'ct' in k.m.group(1):
        TM.INFO.setdefault(t, (0, bits))
    return k.ret(canon(t, k.dty))


# ------------------------------------------------------------------ iterators
@family(LENF + r'(iter|iter_mut)|core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &(?:\'a )?(?:mut )?\[T\]>::into_iter|'
        r'<&(?:\'a )?(?:mut )?alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter|'
        r'core::array::<impl core::iter::traits::collect::IntoIterator for &(?:\'a )?(?:mut )?\[T; N\]>::into_iter|'
        r'alloc::vec::<impl core::iter::traits::collect::IntoIterator for &.*>::into_iter|<&.*arrayvec.* as core::iter::traits::collect::IntoIterator>::into_iter')
def _(k):
    q = k.getq(0)
    if q is None:
        return None
    y = TY[k.dty] if k.dty is not None else {}
    if y.get('def') == ITERMUT or k.m.group(2) == 'iter_mut':
        r = seq_loc(k, k.st, k.args[0])
        if r is None:
            return None
        return k.ret(T('agg', ITERMUT, 0, r, ZERO, length(q)))
    return k.ret(T('agg', ITER, 0, q))


@family(r'<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter|'
        r'core::array::iter::<impl core::iter::traits::collect::IntoIterator for \[T; N\]>::into_iter|'
        r'<alloc::boxed::Box<\[I\], A> as core::iter::traits::collect::IntoIterator>::into_iter|<arrayvec::.* as core::iter::traits::collect::IntoIterator>::into_iter')
def _(k):
    q = k.getq(0)
    if q is None:
        return None
    return k.ret(T('agg', INTOITER, 0, q))


@family(r'<core::slice::iter::Iter(?:Mut)?<.*> as core::iter::traits::.*>::(next|next_back|size_hint|len|is_empty|count|nth|last|nth_back|advance_by)|'
        r'<alloc::vec::into_iter::IntoIter<.*> as core::iter::traits::.*>::(next|next_back|size_hint|len|is_empty|count|nth|last|nth_back|advance_by)|'
        r'<alloc::vec::drain::Drain<.*> as core::iter::traits::.*>::(next|next_back|size_hint|len|is_empty|count|nth|last|nth_back|advance_by)|'
        r'<core::array::iter::IntoIter<.*> as core::iter::traits::.*>::(next|next_back|size_hint|len|is_empty|count|nth|last|nth_back|advance_by)|'
        r'<arrayvec::.*IntoIter<.*> as core::iter::traits::.*>::(next|next_back|size_hint|len|is_empty|count|nth|last|nth_back|advance_by)')
def _(k):
    op = [g for g in k.m.groups() if g][0]
    it = k.get(0) if op not in ('count', 'last') else k.args[0]
    if it.op != 'agg' or it.args[0] not in (ITER, ITERMUT, INTOITER):
        return None
    if it.args[0] == ITERMUT:
        return iter_mut(k, it, op)
    q = it.args[2]
    wrap_ = (lambda x: sref(x)) if it.args[0] == ITER else (lambda x: x)
    if op == 'size_hint':
        return k.ret(tup(length(q), some(length(q))))
    if op in ('len', 'count'):
        return k.ret(length(q))
    if op == 'is_empty':
        return k.ret(le0(length(q)))
    nm = it.args[0]
    out = []
    if op in ('next', 'next_back', 'last'):
        for e, s in k.fork(le0(length(q))):
            if e:
                if op != 'last':
                    k.I.write_ref(s, k.args[0], T('agg', nm, 0, EMPTY))
                out += k.ret(NONE, s)
            elif op == 'next':
                x, r = seqs.uncons(q, s.F)
                k.I.write_ref(s, k.args[0], T('agg', nm, 0, r))
                out += k.ret(some(wrap_(x)), s)
            else:
                r, x = seqs.unsnoc(q, s.F)
                if op != 'last':
                    k.I.write_ref(s, k.args[0], T('agg', nm, 0, r))
                out += k.ret(some(wrap_(x)), s)
        return out
    n = k.args[1]
    if op in ('nth', 'nth_back'):
        for e, s in k.fork(lt(n, length(q))):
            if e:
                if op == 'nth':
                    _, b = seqs.cut(q, n, s.F)
                    x, r = seqs.uncons(b, s.F)
                else:
                    a, _ = seqs.cut(q, sub(length(q), n), s.F)
                    r, x = seqs.unsnoc(a, s.F)
                k.I.write_ref(s, k.args[0], T('agg', nm, 0, r))
                out += k.ret(some(wrap_(x)), s)
            else:
                k.I.write_ref(s, k.args[0], T('agg', nm, 0, EMPTY))
                out += k.ret(NONE, s)
        return out
    if op == 'advance_by':
        for e, s in k.fork(le(n, length(q))):
            if e:
                _, b = seqs.cut(q, n, s.F)
                k.I.write_ref(s, k.args[0], T('agg', nm, 0, b))
                out += k.ret(ok(UNIT), s)
            else:
                k.I.write_ref(s, k.args[0], T('agg', nm, 0, EMPTY))
                out += k.ret(err(sub(n, length(q))), s)
        return out
    return None


def iter_mut(k, it, op):
    base, lo, hi = it.args[2], it.args[3], it.args[4]
    if op == 'size_hint':
        n = sub(hi, lo)
        return k.ret(tup(n, some(n)))
    if op in ('len', 'count'):
        return k.ret(sub(hi, lo))
    out = []
    if op in ('next', 'next_back'):
        for e, s in k.fork(le(hi, lo)):
            if e:
                out += k.ret(NONE, s)
            elif op == 'next':
                k.I.write_ref(s, k.args[0], T('agg', ITERMUT, 0, base, add(lo, ONE), hi))
                out += k.ret(some(T('mref', base.args[0], base.args[1] + (('i', s.F.subst(lo)),))), s)
            else:
                h = sub(hi, ONE)
                k.I.write_ref(s, k.args[0], T('agg', ITERMUT, 0, base, lo, h))
                out += k.ret(some(T('mref', base.args[0], base.args[1] + (('i', s.F.subst(h)),))), s)
        return out
    return None


@family(r'<core::ops::range::Range<A> as core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator)>::(next|next_back)|core::iter::range::<impl core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator) for core::ops::range::Range<A>>::(next|next_back)')
def _(k):
    op = k.m.group(1) or k.m.group(2)
    it = k.get(0)
    if it.op != 'agg':
        it = values.expand(it)
    if it is None or it.op != 'agg' or it.args[2].op != 'lin':
        return None
    lo, hi = it.args[2], it.args[3]
    out = []
    for e, s in k.fork(lt(lo, hi)):
        if not e:
            out += k.ret(NONE, s)
        elif op == 'next':
            k.I.write_ref(s, k.args[0], T('agg', it.args[0], 0, add(lo, ONE), hi))
            out += k.ret(some(lo), s)
        else:
            k.I.write_ref(s, k.args[0], T('agg', it.args[0], 0, lo, sub(hi, ONE)))
            out += k.ret(some(sub(hi, ONE)), s)
    return out


@family(r'<(?:core::slice::iter::Iter(?:Mut)?|alloc::vec::into_iter::IntoIter|core::array::iter::IntoIter)<.*> as core::iter::traits::iterator::Iterator>::(\w+)')
def _(k):
    # specialised bodies use raw pointers: analyse the generic default instead
    if k.m.group(1) == '__iterator_get_unchecked':
        return unchecked_item(k)
    d = k.c.get('dkey')
    if d and k.I.p.fn(d) is not None:
        return k.I.call_fn(d, k.args, k.st, k.span)
    return None


@model('core::iter::traits::iterator::Iterator::__iterator_get_unchecked')
def unchecked_item(k):
    it = k.get(0)
    if it.op != 'agg' or it.args[0] not in (ITER, ITERMUT, INTOITER) or k.args[1].op != 'lin':
        return None
    nm, i = it.args[0], k.args[1]
    n = sub(it.args[4], it.args[3]) if nm == ITERMUT else length(it.args[2])
    out = []
    for e, s in k.fork(lt(i, n)):
        if not e:
            out += k.ub('element beyond the end of an iterator', s)
        elif nm == ITERMUT:
            b = it.args[2]
            out += k.ret(T('mref', b.args[0], b.args[1] + (('i', s.F.subst(add(it.args[3], i))),)), s)
        else:
            x = seqs.index(it.args[2], i, s.F)
            out += k.ret(sref(x) if nm == ITER else x, s)
    return out


# collecting and extending: the textbook loop, analysed like any other
def synth(I_, kind, c):
    """synthetic MIR for from_iter / extend over an arbitrary iterator"""
    nx = c.get('next')
    ii = c.get('into_iter')
    ity = c.get('iterty')
    if nx is None:
        return None
    name = c.get('rdef') or c['def']
    by_ref = re.search(r"Extend<&'?\w* ?\w+>", name) is not None
    key = 'synth:%s:%s' % (kind, name) + str(id(nx))
    fn = I_.p.fns.get(key)
    if fn is not None:
        return key
    ot = c.get('rett') if c.get('rett') is not None else nx.get('rett')
    # locals: 0 ret, 1 (vec ref | iter), 2 iter, 3 it, 4 opt, 5 discr, 6 vec, 7 unit, 8 &mut it, 9 &mut vec
    usize = values.ty_by_name('usize')
    unit = values.ty_by_name('()')
    isz = values.ty_by_name('isize') or usize
    push = {'k': 'fn', 'def': 'alloc::vec::Vec::<T, A>::push', 'name': 'push', 'args': [], 'rk': 'item'}
    new = {'k': 'fn', 'def': 'alloc::vec::Vec::<T>::new', 'name': 'new', 'args': [], 'rk': 'item'}
    src = 1 if kind == 'collect' else 2
    B0 = []
    blocks = []

    def blk(s, t):
        blocks.append({'s': s, 't': t, 'sp': None})
    # 0: it = into_iter(iter)
    if ii is not None:
        blk([], ['call', ['k', ii], [['m', [src, []]]], [3, []], 1, None])
    else:
        blk([['=', [3, []], ['use', ['m', [src, []]]]]], ['goto', 1])
    if kind == 'collect':
        blk([], ['call', ['k', new], [], [6, []], 2, None])
    else:
        blk([], ['goto', 2])
    # 2: loop head
    blk([['=', [8, []], ['ref', True, [3, []]]]], ['call', ['k', nx], [['m', [8, []]]], [4, []], 3, ot])
    blk([['=', [5, []], ['discr', [4, []]]]], ['switch', ['m', [5, []]], isz, [['0', 6], ['1', 4]], None])
    el = None
    ref = [['=', [9, []], ['ref', True, [6, []]]]] if kind == 'collect' else [['=', [9, []], ['use', ['c', [1, []]]]]]
    blk(ref, ['call', ['k', push], [['m', [9, []]], ['m', [4, [['v', 1], ['f', 0, elt_of(ot)]] + ([['d']] if by_ref else [])]]], [7, []], 5, unit])
    blk([], ['goto', 2])
    blk([['=', [0, []], ['use', ['m', [6, []]]]]] if kind == 'collect' else [], ['ret'])
    rty = reft(ity)
    locs = [None, None, None, ity, ot, isz, None, unit, None, None]
    from .interp import Fn
    j = {'def': 'core::iter::' + kind, 'blocks': blocks, 'locals': locs, 'argc': 1 if kind == 'collect' else 2, 'spread': None, 'span': ''}
    I_.p.fns[key] = Fn(key, j)
    return key


def reft(t):
    return None


def elt_of(t):
    if t is None:
        return None
    return values.first_ty(TY[t])


def direct_items(k, st, v):
    """the elements an iterator value will yield, when that is immediate"""
    if v.op == 'agg':
        if v.args[0] == INTOITER:
            return v.args[2]
        if v.args[0] == ITER:
            return None
    if v.op == 'seq':
        return v
    return None


@family(r'.*::from_iter|core::iter::traits::collect::FromIterator::from_iter')
def _(k):
    y = TY[k.dty] if k.dty is not None else {}
    if y.get('def') not in ('alloc::vec::Vec', ARRAYVEC):
        return None
    q = direct_items(k, k.st, k.args[0])
    if q is not None:
        return bounded(k, y, k.ret(q), lambda o: o.val)
    key = synth(k.I, 'collect', k.c)
    if key is None:
        return None
    return bounded(k, y, k.I.call_fn(key, [k.args[0]], k.st, k.span), lambda o: o.val)


ARRAYVEC = 'arrayvec::arrayvec::ArrayVec'


def bounded(k, y, outs, get):
    """an ArrayVec panics instead of growing beyond its capacity"""
    if y.get('def') != ARRAYVEC:
        return outs
    cap = [a for a in y.get('args') or [] if 't' not in a]
    cap = values.arrlen(cap[0].get('c') if 'c' in cap[0] else cap[0])
    res = []
    for o in outs:
        if o.kind != 'ret':
            res.append(o)
            continue
        q = get(o)
        n = length(q) if q is not None and q.op == 'seq' else None
        if n is None:
            raise Undecided('contents of an ArrayVec')
        for s in o.st.assume(le(n, cap)):
            res.append(Out('ret', s.copy(), o.val, o.info))
        for s in o.st.assume(lt(cap, n)):
            res += k.panic('ArrayVec: capacity exceeded', s.copy())
    return res


@family(r'.*::(extend|spec_extend|extend_trusted|extend_desugared)|core::iter::traits::collect::Extend::extend')
def _(k):
    q = k.getq(0)
    y = TY[k.atys[0]] if k.atys and k.atys[0] is not None else {}
    if y.get('k') == 'ref':
        y = TY[y['e']]
    if q is None or y.get('def') not in ('alloc::vec::Vec', ARRAYVEC):
        return None
    now = lambda o: k.I.read_ref(o.st, k.args[0])
    x = direct_items(k, k.st, k.args[1])
    if x is None and k.args[1].op in ('sref',) and k.args[1].args[0].op == 'seq':
        x = k.args[1].args[0]
    if x is not None:
        k.put(0, cat(q, x))
        return bounded(k, y, k.ret(UNIT), now)
    key = synth(k.I, 'extend', k.c)
    if key is None:
        return None
    return bounded(k, y, [Out(o.kind, o.st, UNIT if o.kind == 'ret' else o.val, o.info)
                          for o in k.I.call_fn(key, [k.args[0], k.args[1]], k.st, k.span)], now)


# ------------------------------------------------------------------ integers
ITY = {n: (b, s) for n, b, s in (
    ('u8', 8, False), ('u16', 16, False), ('u32', 32, False), ('u64', 64, False), ('u128', 128, False), ('usize', 64, False),
    ('i8', 8, True), ('i16', 16, True), ('i32', 32, True), ('i64', 64, True), ('i128', 128, True), ('isize', 64, True))}


@family(r'core::num::<impl (\w+)>::(\w+)')
def _(k):
    n, op = k.m.group(1), k.m.group(2)
    if n not in ITY:
        return None
    bits, sg = ITY[n]
    lo, hi = ints.trange(bits, sg)
    F = k.st.F
    a = k.args[0] if k.args else None
    w = bits // 8
    if op == 'to_be_bytes':
        return k.ret(mk([seqs.be(w, F.subst(a), F)]))
    if op in ('to_le_bytes', 'to_ne_bytes'):
        return k.ret(mk([seqs.u(seqs.byte_of(w, w - 1 - i, a)) for i in range(w)]))
    if op == 'from_be_bytes':
        q = k.getq(0)
        if q is None:
            return None
        return k.ret(seqs.frombe(w, sg, seqs.norm(q, F), F))
    if op in ('from_le_bytes', 'from_ne_bytes'):
        q = k.getq(0)
        if q is None:
            return None
        return k.ret(seqs.frombe(w, sg, mk([seqs.u(seqs.index(q, I(i), F)) for i in reversed(range(w))]), F))
    if op in ('swap_bytes', 'to_be', 'from_be'):
        return k.ret(seqs.frombe(w, sg, mk([seqs.u(seqs.byte_of(w, w - 1 - i, a)) for i in range(w)])))
    m = re.match(r'(checked|wrapping|saturating|overflowing|unchecked|strict)_(add|sub|mul|neg|add_signed|sub_unsigned|add_unsigned)\Z', op)
    if m:
        b = k.args[1] if len(k.args) > 1 else None
        o = m.group(2)
        if o == 'neg':
            r = scale(a, -1)
        elif o.startswith('add'):
            r = add(a, b)
        elif o.startswith('sub'):
            r = sub(a, b)
        else:
            r = mul(a, b)
            k.I.mul_axioms(r)
        kind = m.group(1)
        if kind == 'wrapping':
            return k.ret(ints.wrap(r, bits, sg, F))
        if kind == 'unchecked':
            out = []
            for e, s in k.fork(band(le(I(lo), r), le(r, I(hi)))):
                out += k.ret(r, s) if e else k.ub('unchecked arithmetic overflow', s)
            return out
        out = []
        for s in k.st.assume(le(I(hi + 1), r)):
            if kind == 'checked':
                out += k.ret(NONE, s)
            elif kind == 'saturating':
                out += k.ret(I(hi), s)
            elif kind == 'strict':
                out += k.panic('overflow', s)
            else:
                out += k.ret(tup(ints.wrap(r, bits, sg, s.F), TRUE), s)
        for s0 in k.st.assume(le(r, I(hi))):
            for s in s0.assume(le(r, I(lo - 1))):
                if kind == 'checked':
                    out += k.ret(NONE, s)
                elif kind == 'saturating':
                    out += k.ret(I(lo), s)
                elif kind == 'strict':
                    out += k.panic('overflow', s)
                else:
                    out += k.ret(tup(ints.wrap(r, bits, sg, s.F), TRUE), s)
            for s in s0.assume(le(I(lo), r)):
                if kind == 'checked':
                    out += k.ret(some(r), s)
                elif kind in ('saturating', 'strict'):
                    out += k.ret(r, s)
                else:
                    out += k.ret(tup(r, FALSE), s)
        return out
    if op in ('wrapping_shl', 'unchecked_shl', 'wrapping_shr', 'unchecked_shr') and const_of(k.args[1]) is not None:
        c = const_of(k.args[1]) % bits
        if 'shl' in op:
            return k.ret(ints.wrap(scale(a, 1 << c), bits, sg, F))
        return k.ret(ints.div(a, 1 << c))
    if op in ('min_value',):
        return k.ret(I(lo))
    if op in ('max_value',):
        return k.ret(I(hi))
    if op == 'abs_diff':
        out = []
        for e, s in k.fork(le(a, k.args[1])):
            out += k.ret(sub(k.args[1], a) if e else sub(a, k.args[1]), s)
        return out
    if op in ('checked_div', 'checked_rem', 'div_ceil', 'next_multiple_of', 'is_multiple_of') and const_of(k.args[1]) and const_of(k.args[1]) > 0 and not sg:
        c = const_of(k.args[1])
        if op == 'checked_div':
            return k.ret(some(ints.div(a, c)))
        if op == 'checked_rem':
            return k.ret(some(ints.mod(a, c)))
        if op == 'div_ceil':
            return k.ret(ints.div(add(a, I(c - 1)), c))
        if op == 'is_multiple_of':
            return k.ret(eq0(ints.mod(a, c)))
        return None
    if op == 'pow' and const_of(k.args[1]) is not None and const_of(a) is not None:
        v = const_of(a) ** const_of(k.args[1])
        if lo <= v <= hi:
            return k.ret(I(v))
        return k.panic('overflow')
    if op in ('is_ascii_digit', 'is_ascii_hexdigit', 'is_ascii') and n == 'u8':
        x = k.get(0)
        if op == 'is_ascii':
            return k.ret(le(x, I(127)))
        cs = [band(le(I(48), x), le(x, I(57)))]
        if op == 'is_ascii_hexdigit':
            cs += [band(le(I(65), x), le(x, I(70))), band(le(I(97), x), le(x, I(102)))]
        return k.ret(bor(*cs))
    if op == 'from_str_radix':
        q = k.getq(0)
        return from_radix(k, q, const_of(k.args[1]), bits, sg)
    if op in ('unsigned_abs', 'abs') and sg:
        out = []
        for e, s in k.fork(le(ZERO, a)):
            if e:
                out += k.ret(a, s)
            else:
                out += k.ret(scale(a, -1), s)
        return out
    if k.c.get('key'):
        return None
    # any other pure integer function: uninterpreted
    if all(x.op == 'lin' for x in k.args):
        return k.ret(canon(T('intfn', n, op, *k.args), k.dty))
    return None


def from_radix(k, q, radix, bits, sg):
    """u8::from_str_radix on a two-character string, exactly as documented"""
    n = None
    if q is not None:
        n = const_of(k.st.F.subst(length(q)))
    if q is None or n is None or radix != 16 or n > 4:
        return k.ret(canon(T('fromradix', q if q is not None else UNIT, I(radix or 0)), k.dty))
    F = k.st.F
    bs = [seqs.index(q, I(i), F) for i in range(n)]
    out = []
    pend = [(k.st, 0, ZERO, n > 0)]
    if n == 0:
        return k.ret(canon(T('fromradixerr', q), k.dty))
    states = [(k.st, ZERO, 0)]
    # optional sign
    res = []

    def digits(st, i, acc, cnt):
        if i == n:
            if cnt == 0:
                res.append((st, None))
            else:
                res.append((st, acc))
            return
        b = bs[i]
        rest = [st]
        for lo, hi, off in ((48, 57, 48), (65, 70, 55), (97, 102, 87)):
            nr = []
            for s in rest:
                c = band(le(I(lo), b), le(b, I(hi)))
                for s2 in s.assume(c):
                    digits(s2, i + 1, add(scale(acc, 16), sub(b, I(off))), cnt + 1)
                nr.extend(s.assume(bnot(c)))
            rest = nr
        for s in rest:
            res.append((s, None))

    for s in k.st.assume(eqi(bs[0], I(43))):
        digits(s, 1, ZERO, 0)
    for s in k.st.assume(bnot(eqi(bs[0], I(43)))):
        digits(s, 0, ZERO, 0)
    hi = ints.trange(bits, sg)[1]
    for s, v in res:
        if v is None:
            e = canon(T('sym', fresh_id(), 'ParseIntError'), None)
            out += k.ret(err(e), s)
        else:
            out += k.ret(ok(v), s)
    return out


@family(r'<(\w+) as num_integer::Integer>::(div_ceil|div_floor|div_rem|is_even|is_odd|mod_floor)')
def _(k):
    a = k.get(0)
    if a.op != 'lin':
        return None
    op = k.m.group(2)
    if op in ('is_even', 'is_odd'):
        r = eq0(ints.mod(a, 2))
        return k.ret(r if op == 'is_even' else bnot(r))
    c = const_of(k.get(1))
    if c is None or c <= 0:
        return None
    if op == 'div_ceil':
        return k.ret(ints.div(add(a, I(c - 1)), c))
    if op == 'div_floor':
        return k.ret(ints.div(a, c))
    if op == 'mod_floor':
        return k.ret(ints.mod(a, c))
    return None


# ------------------------------------------------------------------ floats
@family(r'core::(?:f64|num|f32)::<impl f(64|32)>::(\w+)|std::f64::<impl f(64|32)>::(\w+)')
def _(k):
    op = k.m.group(2) or k.m.group(4)
    bits = int(k.m.group(1) or k.m.group(3))
    a = k.args[0] if k.args else None
    w = bits // 8
    if op == 'to_bits':
        return k.ret(fbits(a, bits))
    if op == 'from_bits':
        return k.ret(ffrom(a, bits))
    if op == 'to_be_bytes':
        return k.ret(mk([seqs.be(w, fbits(a, bits))]))
    if op == 'from_be_bytes':
        q = k.getq(0)
        return k.ret(ffrom(seqs.frombe(w, False, q), bits))
    if op in ('to_le_bytes', 'to_ne_bytes'):
        b = fbits(a, bits)
        return k.ret(mk([seqs.u(seqs.byte_of(w, w - 1 - i, b)) for i in range(w)]))
    if op in ('from_le_bytes', 'from_ne_bytes'):
        q = k.getq(0)
        return k.ret(ffrom(seqs.frombe(w, False, mk([seqs.u(seqs.index(q, I(i), k.st.F)) for i in reversed(range(w))])), bits))
    if op == 'is_nan':
        return k.ret(bnot(feq(a, a)))
    if op in ('is_finite', 'is_infinite'):
        hi = 0x7ff0000000000000 if bits == 64 else 0x7f800000
        pos, neg = T('fconst', hi, bits), T('fconst', hi | 1 << (bits - 1), bits)
        if op == 'is_infinite':
            return k.ret(bor(feq(a, pos), feq(a, neg)))
        return k.ret(band(batom(T('fcmp', 'Lt', neg, a)), batom(T('fcmp', 'Lt', a, pos))))
    if op in ('max', 'min') and len(k.args) == 2:
        b = k.args[1]
        out = []
        for na, s in k.fork(bnot(feq(a, a))):
            if na:
                out += k.ret(b, s)
                continue
            lt_ = batom(T('fcmp', 'Lt', a, b) if op == 'max' else T('fcmp', 'Lt', b, a))
            for less, t in forkst(s, lt_):
                if less:
                    out += k.ret(b, t)
                    continue
                for same, u in forkst(t, feq(a, b)):
                    # which zero is returned for 0.0 and -0.0 is left open
                    out += k.ret(a, u.copy())
                    if same and a is not b:
                        out += k.ret(b, u)
        return out
    if op == 'clamp':
        return None if k.c.get('key') else k.ret(T('fclamp', *k.args))
    if op in ('total_cmp', 'classify', 'is_normal', 'is_subnormal', 'is_sign_positive', 'is_sign_negative'):
        return k.ret(canon(T('unk', fresh_id(), 'float ' + op), k.dty))
    v = T('ffn', op, *k.args)
    y = TY[k.dty] if k.dty is not None else {}
    return k.ret(canon(v, k.dty))


def feq(a, b):
    return batom(T('fcmp', 'Eq', *seqs._ord(a, b)))


def fbits(x, bits):
    if x.op == 'fconst':
        return I(x.args[0])
    if x.op == 'ffrom' and x.args[1] == bits:
        return x.args[0]
    t = T('fbits', x)
    TM.INFO.setdefault(t, (0, (1 << bits) - 1))
    return atom(t)


def ffrom(l, bits):
    c = const_of(l)
    if c is not None:
        return T('fconst', c, bits)
    s = ints.single(l)
    if s is not None and s.op == 'fbits':
        return s.args[0]
    return T('ffrom', l, bits)


# ------------------------------------------------------------------ strings
def utf8(q):
    w = seqs.unwrap_whole(q)
    if w is not None:
        t = TM.TYP.get(w)
        if t is not None and (TY[t]['k'] == 'str' or TY[t].get('def') == 'alloc::string::String'):
            return TRUE
    if not q.args:
        return TRUE
    if all(p.op == 'u' and const_of(p.args[0]) is not None and const_of(p.args[0]) < 128 for p in q.args):
        return TRUE
    return batom(T('utf8', q))


@family(r'alloc::string::String::from_utf8|core::str::converts::from_utf8|core::str::<impl str>::from_utf8')
def _(k):
    q = k.getq(0)
    if q is None:
        return None
    out = []
    isref = k.args[0].op != 'seq'
    for e, s in k.fork(utf8(seqs.norm(q, k.st.F))):
        if e:
            out += k.ret(ok(sref(q) if isref else q), s)
        else:
            y = TY[k.dty] if k.dty is not None else {}
            et = None
            a = [x['t'] for x in y.get('args') or [] if 't' in x]
            if len(a) > 1:
                et = a[1]
            out += k.ret(err(canon(T('utf8err', q), et)), s)
    return out


@model('alloc::string::String::from_utf8_lossy')
def _(k):
    q = k.getq(0)
    if q is None:
        return None
    out = []
    for e, s in k.fork(utf8(seqs.norm(q, k.st.F))):
        if e:
            out += k.ret(agg('alloc::borrow::Cow', 0, sref(q)), s)
        else:
            t = T('lossy', q)
            TM.TYP.setdefault(t, values.ty_by_name('alloc::string::String'))
            TM.ELTY.setdefault(t, values.U8())
            out += k.ret(agg('alloc::borrow::Cow', 1, seqs.whole(t)), s)
    return out


@family(r'alloc::borrow::Cow::<.*>::into_owned')
def _(k):
    q = k.getq(0)
    if q is not None:
        return k.ret(q)


@family(r'<alloc::borrow::Cow<.*> as core::(?:ops::deref::Deref|convert::AsRef<.*>|borrow::Borrow<.*>)>::\w+')
def _(k):
    v = k.get(0)
    if v.op == 'agg':
        x = v.args[2]
        return k.ret(x if x.op in ('sref', 'mref') else sref(x))


@family(r'core::(?:str|slice)::<impl (?:str|\[T\])>::(starts_with|ends_with|strip_prefix|strip_suffix)')
def _(k):
    """affixes: a text or slice, or one ASCII character"""
    q, w = k.getq(0), k.getq(1)
    if w is None and k.args[1].op == 'lin':
        c = k.st.F.subst(k.args[1])
        if const_of(c) is not None and 0 <= const_of(c) < 128:
            w = mk([seqs.u(c)])
    if q is None or w is None:
        return k.ret(k.unk())
    op, n, m = k.m.group(1), length(w), length(q)
    front = op in ('starts_with', 'strip_prefix')
    out = []
    for fits, s in k.fork(le(n, m)):
        if not fits:
            out += k.ret(FALSE if op.endswith('with') else NONE, s)
            continue
        part = seqs.slice_(q, ZERO, n, s.F) if front else seqs.slice_(q, sub(m, n), m, s.F)
        eq = values.val_eq(part, w, s.F)
        if op.endswith('with'):
            out += k.ret(eq, s)
            continue
        for same in (True, False):
            for z in s.assume(eq if same else bnot(eq)):
                z = z.copy()
                rest = seqs.slice_(q, n, m, z.F) if front else seqs.slice_(q, ZERO, sub(m, n), z.F)
                out += k.ret(some(sref(rest)) if same else NONE, z)
    return out


@family(r'core::str::<impl str>::(trim|trim_start|trim_end|trim_matches|trim_start_matches|trim_end_matches|trim_left|trim_right)|'
        r'core::slice::ascii::<impl \[u8\]>::(trim_ascii|trim_ascii_start|trim_ascii_end)|core::str::<impl str>::(trim_ascii|trim_ascii_start|trim_ascii_end)')
def _(k):
    op = [g for g in k.m.groups() if g][0]
    q = k.getq(0)
    if q is None or len(q.args) != 1 or q.args[0].op != 'sub' or seqs.unwrap_whole(q) is None:
        return k.ret(k.unk())
    # an arbitrary text: anything from none to all of it may be cut off
    n = length(q)
    st = k.st
    lo, hi = ZERO, n
    pat = k.args[1] if len(k.args) > 1 else UNIT
    conds = []
    if not op.endswith(('start', 'left', 'start_matches')):
        hi = atom(T('trimmed', 'end', q, op, pat))
        conds += [le(hi, n), le(ZERO, hi)]
    if not op.endswith(('end', 'right', 'end_matches')):
        lo = atom(T('trimmed', 'start', q, op, pat))
        conds += [le(lo, hi), le(ZERO, lo)]
    out = []
    for s in st.assume(band(*conds)):
        out += k.ret(sref(seqs.slice_(q, lo, hi, s.F)), s)
    return out


@family(r'core::str::<impl str>::(find|rfind|replace|contains|split_once|rsplit_once|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase)')
def _(k):
    return k.ret(k.unk())


@model('core::str::<impl str>::is_char_boundary')
def _(k):
    q = k.getq(0)
    if q is None:
        return None
    return k.ret(boundary(q, k.args[1], k.st.F))


@model('core::str::<impl str>::is_ascii', 'core::slice::ascii::<impl [u8]>::is_ascii')
def _(k):
    return k.ret(batom(T('isascii', k.getq(0))))


# ------------------------------------------------------------------ array conversions
@family(r'core::array::<impl core::convert::TryFrom<&(?:\'a )?(?:mut )?\[T\]> for (?:&(?:\'a )?(?:mut )?)?\[T; N\]>::try_from|'
        r'<\[T; N\] as core::convert::TryFrom<alloc::vec::Vec<T, A>>>::try_from|alloc::vec::<impl core::convert::TryFrom<alloc::vec::Vec<T, A>> for \[T; N\]>::try_from|'
        r'<alloc::boxed::Box<\[T; N\]> as core::convert::TryFrom<.*>>::try_from')
def _(k):
    q = k.getq(0)
    if q is None:
        return None
    y = TY[k.dty]
    a = [x['t'] for x in y.get('args') or [] if 't' in x]
    ok_t = a[0]
    arr = TY[ok_t]
    isref = arr['k'] == 'ref'
    if isref:
        arr = TY[arr['e']]
    if arr['k'] != 'array':
        return None
    n = values.arrlen(arr.get('n'))
    out = []
    for e, s in k.fork(eqi(length(q), n)):
        if e:
            if isref:
                out += k.ret(ok(k.args[0] if k.args[0].op in ('sref', 'mref') else sref(q)), s)
            else:
                out += k.ret(ok(q), s)
        else:
            if k.args[0].op == 'seq':
                out += k.ret(err(q), s)
            else:
                out += k.ret(err(canon(T('sym', fresh_id(), 'TryFromSliceError'), a[1] if len(a) > 1 else None)), s)
    return out


@model('core::array::from_fn')
def _(k):
    return None


# ------------------------------------------------------------------ io::Write for Vec
@family(r'.*<impl core::io::write::Write for alloc::vec::Vec<u8, A>>::(write|write_all|flush)|<alloc::vec::Vec<u8, A> as .*Write>::(write|write_all|flush)')
def _(k):
    op = k.m.group(1) or k.m.group(2)
    if op == 'flush':
        return k.ret(ok(UNIT))
    a, b = k.getq(0), k.getq(1)
    if a is None or b is None:
        return None
    k.put(0, cat(a, b))
    return k.ret(ok(length(b) if op == 'write' else UNIT))


# ------------------------------------------------------------------ num-bigint
def isbig(i):
    return i is not None and TY[i].get('def') in values.BIG


@family(r'num_bigint::biguint::BigUint::bits|num_bigint::bigint::BigInt::bits')
def _(k):
    x = k.get(0)
    if x.op != 'lin':
        return None
    x = k.st.F.subst(x)
    if 'bigint::BigInt' in k.c['def']:
        out = []
        for e, s in k.fork(le(ZERO, x)):
            out += bits_of(k, x if e else scale(x, -1), s)
        return out
    return bits_of(k, x, k.st)


def bits_term(x):
    """number of significant bits of the (positive) natural x, as a linear form"""
    c = const_of(x)
    if c is not None:
        return I(max(c, 0).bit_length())
    n = ints.low_zero(x)
    if n:
        return add(I(n), bits_term(ints.div(x, 1 << n)))
    a = ints.single(x)
    if a is not None and a.op == 'div' and a.args[1] & (a.args[1] - 1) == 0:
        return sub(bits_term(a.args[0]), I(a.args[1].bit_length() - 1))
    t = T('bits', x)
    TM.INFO.setdefault(t, (0, 1 << 50))
    return atom(t)


def bits_cases(x, st):
    """[(is x zero, its bit count, state)] for a natural x"""
    out = []
    if const_of(x) is not None:
        return [(const_of(x) == 0, bits_term(x), st)]
    n = bits_term(x)
    # bits(x) = 0 exactly for zero
    for s in st.assume(le0(x)):
        y = ints.single(x)
        if y is not None and y.op == 'div':
            for s2 in s.assume(le(n, ZERO)):
                out.append((True, ZERO, s2))
            continue
        if n.op == 'lin' and ints.single(n) is not None:
            for s2 in s.assume(eqi(n, ZERO)):
                out.append((True, ZERO, s2))
            continue
        out.append((True, ZERO, s))
    for s in st.assume(le(ONE, x)):
        for s2 in s.assume(le(ONE, n)):
            out.append((False, n, s2))
    return out


def bits_of(k, x, st):
    out = []
    for z, n, s in bits_cases(x, st):
        out += k.ret(n, s)
    return out


# The base-128 digits of a natural, least significant first and none for zero,
# are the sequence symbol rad(x).
def rad(x):
    c = const_of(x)
    if c is not None:
        ds = []
        while c > 0:
            ds.append(seqs.u(I(c & 127)))
            c >>= 7
        return T('pack', mk(ds))
    t = T('rad', x)
    if t not in TM.ELTY:
        TM.ELTY[t] = values.U8()
        TM.LEN[t] = ints.div(add(bits_term(x), I(6)), 7)
    return t


from .facts import REBUILD as _RB
_RB['rad'] = lambda x: rad(x)


def digits(x):
    """digits of a positive natural, as a sequence"""
    if ints.low_zero(x) and const_of(x) is None:
        r = rad(ints.div(x, 128))
        return mk([seqs.u(ints.mod(x, 128)), seqs.whole(r)])
    return seqs.whole(rad(x))


def undigits(q, F):
    """the natural whose base-128 digits are q, or None when not all are digits"""
    q = seqs.norm(q, F)
    if not all(alldigits(z, F) for z in q.args):
        return None
    p = q.args[-1] if q.args else None
    if p is not None and p.op == 'sub' and p.args[0].op == 'rad' and F.ask(eqi(p.args[2], seqs.slen(p.args[0]))) is True:
        q = mk(list(q.args[:-1]) + [T('sub', p.args[0], p.args[1], seqs.slen(p.args[0]))])
    return _rb_undigits(q)


def isdigit(x, F):
    lo, hi = ints.interval(F.subst(x))
    if lo is not None and hi is not None and 0 <= lo and hi <= 127:
        return True
    return F.ent_le(scale(x, -1)) and F.ent_le(sub(x, I(127)))


def alldigits(p, F):
    if p.op == 'u':
        return p.args[0].op == 'lin' and isdigit(p.args[0], F)
    if p.op == 'rep':
        return p.args[0].op == 'lin' and isdigit(p.args[0], F)
    if p.op == 'sub':
        return p.args[0].op == 'rad' or p.args[0].op == 'pack' and all(alldigits(z, F) for z in p.args[0].args[0].args)
    if p.op == 'for':
        return all(alldigits(z, F) for z in p.args[3].args)
    return False


def _rb_undigits(q):
    ps = q.args
    r = ZERO
    w = 1
    while ps and ps[0].op == 'u':
        r = add(r, scale(ps[0].args[0] if ps[0].args[0].op == 'lin' else atom(ps[0].args[0]), w))
        w *= 128
        ps = ps[1:]
    if not ps:
        return r
    p = ps[0]
    if len(ps) == 1 and p.op == 'sub' and p.args[0].op == 'rad' and const_of(p.args[1]) is not None and \
            p.args[2] is seqs.slen(p.args[0]):
        return add(r, scale(ints.div(p.args[0].args[0], 128 ** const_of(p.args[1])), w))
    t = T('undigits', mk(ps))
    TM.INFO.setdefault(t, (0, None))
    return add(r, scale(atom(t), w))


_RB['undigits'] = _rb_undigits
SIGN = 'num_bigint::bigint::Sign'


@family(r'num_bigint::(?:biguint::BigUint|bigint::BigInt)::(to_radix_le|from_radix_le|into_parts|from_biguint|sign|magnitude|to_biguint)')
def _(k):
    op = k.m.group(1)
    big = 'bigint::BigInt' in k.c['def']
    if op == 'from_biguint':
        s, x = k.args
        if s.op != 'agg' or x.op != 'lin':
            return None
        return k.ret((scale(x, -1), ZERO, x)[s.args[1]])
    if op == 'from_radix_le':
        if big or const_of(k.args[1]) != 128:
            return None
        q = k.getq(0)
        if q is None:
            return None
        v = undigits(k.st.F.subst(q), k.st.F)
        return None if v is None else k.ret(some(v))
    x = k.get(0) if k.args[0].op in ('mref', 'sref', 'oref') else k.args[0]
    if x.op != 'lin':
        return None
    x = k.st.F.subst(x)
    out = []
    if op == 'to_radix_le':
        if big or const_of(k.args[1]) != 128:
            return None
        for z, n, s in bits_cases(x, k.st):
            if z:
                out += k.ret(mk([seqs.u(ZERO)]), s)
                continue
            d = digits(s.F.subst(x))
            last = d.args[-1] if d.args else None
            if len(d.args) > 1 and last.op == 'sub' and last.args[0].op == 'rad':
                for z2, n2, s2 in bits_cases(last.args[0].args[0], s):
                    out += k.ret(mk(d.args[:1]) if z2 else d, s2)
                continue
            out += k.ret(d, s)
        return out
    if not big:
        return None
    if op == 'to_biguint':
        for e, s in k.fork(le(ZERO, x)):
            out += k.ret(some(x) if e else NONE, s)
        return out
    for sg, c, m in ((0, le(x, I(-1)), scale(x, -1)), (1, eqi(x, ZERO), ZERO), (2, le(ONE, x), x)):
        for s in k.st.assume(c):
            sv = agg(SIGN, sg)
            out += k.ret(tup(sv, m) if op == 'into_parts' else sv if op == 'sign' else sref(m), s)
    return out


@family(r'num_bigint::.*TryFrom<.*> for (\w+)>::try_from|num_bigint::.*ToPrimitive for .*>::to_(\w+)')
def _(k):
    n = k.m.group(1) or k.m.group(2)
    v = k.args[0]
    if v.op in ('sref', 'mref'):
        v = k.get(0)
    if n not in ITY or v.op != 'lin':
        return None
    lo, hi = ints.trange(*ITY[n])
    out = []
    for e, s in k.fork(band(le(I(lo), v), le(v, I(hi)))):
        if k.m.group(1):
            out += k.ret(ok(v) if e else err(canon(T('sym', fresh_id(), 'TryFromBigIntError'), None)), s)
        else:
            out += k.ret(some(v) if e else NONE, s)
    return out


@family(r'num_bigint::.*From<(?:\w+|num_bigint::biguint::BigUint)> for num_bigint::(?:biguint|bigint)::Big\w+>::from')
def _(k):
    v = k.args[0]
    if v.op == 'lin':
        return k.ret(v)


@family(r'num_bigint::.*core::ops::(?:arith|bit)::(\w+?)(Assign)?(?:<.*>)? for (?:&.*)?num_bigint::.*>::\w+|<(?:&.*)?num_bigint::\w+::Big\w+ as core::ops::(?:arith|bit)::(\w+?)(Assign)?(?:<.*>)?>::\w+')
def _(k):
    op, asg = k.m.group(1) or k.m.group(3), k.m.group(2) or k.m.group(4)
    a = k.args[0]
    av = k.get(0) if a.op in ('mref', 'sref', 'oref') else a
    b = k.args[1] if len(k.args) > 1 else None
    if b is not None and b.op in ('mref', 'sref', 'oref'):
        b = k.get(1)
    if av.op != 'lin' or (b is not None and b.op != 'lin'):
        return None
    F = k.st.F
    r = None
    if op == 'Add':
        r = add(av, b)
    elif op == 'Sub':
        r = sub(av, b)
    elif op == 'Mul':
        r = mul(av, b)
    elif op == 'Neg':
        r = scale(av, -1)
    elif op == 'Shl' and const_of(b) is not None:
        r = scale(av, 1 << const_of(b))
    elif op == 'Shr' and const_of(b) is not None:
        r = ints.div(av, 1 << const_of(b))
    elif op == 'BitOr':
        for x, z in ((av, b), (b, av)):
            kz = ints.low_zero(z)
            if kz and F.ent_le(sub(x, I((1 << kz) - 1))) and F.ent_le(scale(x, -1)):
                r = add(x, z)
                break
    elif op == 'BitAnd' and const_of(b) is not None:
        c = const_of(b)
        if (c & (c + 1)) == 0:
            r = ints.mod(av, c + 1)
    if r is None:
        t = T('bigop', op, av, b)
        TM.INFO.setdefault(t, (0, None))
        r = atom(t)
    if asg:
        k.put(0, r)
        return k.ret(UNIT)
    return k.ret(r)


# ------------------------------------------------------------------ hashing
HASHED = re.compile(r'core::hash::impls::<impl core::hash::Hash for (?!&)|<alloc::vec::Vec<|core::array::|<alloc::string::String|core::option::Option|<num_bigint')


@family(r'core::hash::impls::<impl core::hash::Hash for (.*)>::hash(_slice)?|<alloc::vec::Vec<T, A> as core::hash::Hash>::hash|core::array::<impl core::hash::Hash for \[T; N\]>::hash|'
        r'<alloc::string::String as core::hash::Hash>::hash|<alloc::boxed::Box<T, A> as core::hash::Hash>::hash|<num_bigint::.* as core::hash::Hash>::hash|core::hash::Hash::hash|'
        r'core::hash::Hasher::write_\w+|core::mem::discriminant.*hash')
def _(k):
    if k.c['def'] == 'core::hash::Hash::hash' and k.c.get('rk') != 'unresolved' and not HASHED.match(k.c.get('rdef') or ''):
        return None
    if 'Hasher' in k.c['def']:
        h, v = k.args[0], k.args[1]
    else:
        v = k.args[0]
        n = 0
        while v.op in ('sref', 'mref', 'oref') and n < 5:
            v = k.I.read_ref(k.st, v)
            n += 1
        h = k.args[1]
    while v.op == 'agg' and v.args[0] == 'box':
        v = v.args[2]
    cur = k.I.read_ref(k.st, h)
    k.I.write_ref(k.st, h, T('hashed', cur, k.st.F.subst(v)))
    return k.ret(UNIT)


# ------------------------------------------------------------------ calls through Fn traits
@model('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
def _(k):
    v = k.args[0]
    rest = k.args[1:]
    if len(rest) == 1 and rest[0].op == 'agg' and rest[0].args[0] == 'tuple':
        rest = list(rest[0].args[2:])
    elif len(rest) == 1 and k.atys and k.atys[1] is not None and TY[k.atys[1]]['k'] == 'tuple':
        e = values.expand(rest[0])
        rest = list(e.args[2:]) if e is not None else rest
    n = 0
    w = v
    while w.op in ('sref', 'mref') and n < 4:
        x = k.I.read_ref(k.st, w)
        if is_closure(x):
            break
        w = x
        n += 1
    if is_closure(w) or w.op == 'fn' or (w.op in ('mref', 'sref')) or (w.op == 'agg' and w.args[0] == 'box'):
        return k.I.call_value(k.st, w, rest, k.dty, k.span)
    if w.op == 'fnty':
        return None
    if k.I.hooks:
        r = k.I.hooks.call_opaque(k.I, k.st, w, rest, k.dty)
        if r is not None:
            return r
    return None


@family(r'core::ops::function::impls::<impl core::ops::function::Fn\w* for &.*>::call\w*')
def _(k):
    return EXACT['core::ops::function::FnOnce::call_once'](k)


# iterator internals of BTree/Hash etc. are not modelled: unknown
@family(r'core::iter::traits::iterator::Iterator::(next|size_hint)')
def _(k):
    return None
