"""Sequence values (Vec, arrays, slices, str, String): concatenations of parts.

  u(x)               one element
  sub(s, lo, hi)     elements lo..hi of the opaque sequence s
  rep(x, n)          n copies of x
  enc(x)             the bytes some encoder emits for the opaque value x
  be(w, x)           w-byte big-endian image of the integer x
  for(k, lo, hi, S)  concatenation of S[bv_k := i] for lo <= i < hi
"""
from .terms import *
from . import terms as TM

MAXLEN = 1 << 47


class NeedSplit(Exception):
    """the abstract state must be partitioned on this condition first"""

    def __init__(self, cond):
        self.cond = cond


# ---------------------------------------------------------------- lengths
def slen(s):
    """length of an opaque sequence"""
    l = TM.LEN.get(s)
    if l is not None:
        return l
    if s.op == 'pack':
        return length(s.args[0])
    a = T('len', s)
    if a not in TM.INFO:
        TM.INFO[a] = (0, MAXLEN)
    return atom(a)


MINENC = [0]      # least length of an element's encoding (1 where a root says so)
KNOWNLEN = {}    # type name -> fixed encoded length, while a root is analysed


def enclen(x):
    if x.op == 'dec':
        return length(x.args[1])
    if KNOWNLEN:
        i = TM.TYP.get(x)
        if i is not None:
            k = KNOWNLEN.get(tyname(i))
            if k is not None:
                return k
    a = T('enclen', x)
    TM.INFO[a] = (MINENC[0], MAXLEN)
    return atom(a)


def reg_len(t, old):
    """length of a renamed opaque sequence"""
    l = TM.LEN[old]
    if const_of(l) is not None or all(a.op == 'cparam' for a, _ in l.args[1]):
        TM.LEN[t] = l


def tyname(i):
    from .values import TY
    return TY[i]['s']


def plen(p):
    o = p.op
    if o == 'u':
        return ONE
    if o == 'sub':
        return sub(p.args[2], p.args[1])
    if o == 'rep':
        return p.args[1]
    if o == 'enc':
        return enclen(p.args[0])
    if o == 'be':
        return I(p.args[0])
    if o == 'for':
        k, lo, hi, body = p.args
        return bigsum(k, lo, hi, length(body))
    raise AssertionError(o)


_len = {}


def length(q):
    r = _len.get(q)
    if r is None:
        r = ZERO
        for p in q.args:
            r = add(r, plen(p))
        _len[q] = r
    return r


def bv(k):
    return T('bv', k)


def inst(body, k, idx):
    from .loops import ren
    return ren(body, {bv(k): idx}, {})


def bvdepth(t):
    """number of bound-variable levels used inside t"""
    from .facts import subt
    d = 0
    for x in subt(t):
        if x.op == 'for':
            d = max(d, x.args[0] + 1)
        elif x.op == 'S':
            d = max(d, x.args[0] + 1)
    return d


def bigsum(k, lo, hi, body):
    """sum of body[bv_k := i] for lo <= i < hi  (as S(hi) - S(lo))"""
    c = const_of(body)
    n = sub(hi, lo)
    if c is not None:
        return scale(n, c)
    from .facts import subt
    r = scale(n, body.args[0])
    for a, co in body.args[1]:
        if bv(k) in subt(a):
            if a.op == 'bv':
                # sum of i: keep opaque through S as well
                pass
            r = add(r, scale(sub(S(k, a, hi), S(k, a, lo)), co))
            pair(k, a, lo, hi)
        else:
            r = add(r, scale(mul(atom(a), n), co))
    return r


def S(k, a, x):
    """antiderivative: sum of a[bv_k := i] for 0 <= i < x"""
    c = x.args[0]
    base = T('lin', 0, x.args[1])
    if not x.args[1] and not (0 <= c <= 64):
        return atom(T('S', k, a, x))
    r = ZERO
    if x.args[1]:
        t = T('S', k, a, base)
        if t not in TM.INFO:
            lo, hi = TM.INFO.get(a, (None, None))
            TM.INFO[t] = (0 if lo is not None and lo >= 0 else None, None)
        r = atom(t)
    if -64 <= c <= 64:
        for j in range(min(c, 0), max(c, 0)):
            v = inst(atom(a), k, add(base, I(j)))
            r = add(r, v if c > 0 else scale(v, -1))
        return r
    return atom(T('S', k, a, x))


def pair(k, a, lo, hi):
    rlo, rhi = TM.INFO.get(a, (None, None))
    n = sub(hi, lo)
    d = sub(S(k, a, hi), S(k, a, lo))
    cs = []
    if rlo is not None:
        cs.append(sub(scale(n, rlo), d))
    if rhi is not None:
        cs.append(sub(d, scale(n, rhi)))
    for x, _ in d.args[1]:
        if x.op == 'S':
            old = TM.AXIOMS.get(x, ())
            TM.AXIOMS[x] = old + tuple(c for c in cs if c not in old)


# ---------------------------------------------------------------- building
EMPTY = T('seq')


def elem(s, i):
    """element i of the opaque sequence s"""
    if s.op == 'pack':
        v = try_index(s.args[0], i)
        if v is not None:
            return v
    if s.op == 'rad':
        t = T('elt', s, i)
        if t not in TM.INFO:
            TM.INFO[t] = (0, 127)
            c = const_of(i)
            if c is not None and 0 <= c < 64:
                from . import ints
                TM.DEFS[t] = ints.mod(ints.div(s.args[0], 128 ** c), 128)
        return atom(t)
    return canon(T('elt', s, i), TM.ELTY.get(s))


def canon(t, ty):
    raise NotImplementedError  # replaced by values.canon


def set_canon(f):
    global canon
    canon = f


def unwrap_elt(x):
    """(s, i) when x is element i of an opaque sequence"""
    if x.op == 'lin':
        if x.args[0] == 0 and len(x.args[1]) == 1 and x.args[1][0][1] == 1:
            x = x.args[1][0][0]
        else:
            return None
    elif x.op == 'b':
        x = x.args[0]
    elif x.op == 'sref':
        y = unwrap_deref(x.args[0])
        if y is None:
            return None
        x = y
    elif x.op in ('seq', 'agg'):
        y = unwrap_whole(x)
        if y is None:
            return None
        x = y
    if x.op == 'elt':
        return x.args[0], x.args[1]
    return None


def unwrap_deref(v):
    """the opaque reference whose target is v"""
    if v.op == 'lin':
        if v.args[0] == 0 and len(v.args[1]) == 1 and v.args[1][0][1] == 1:
            v = v.args[1][0][0]
        else:
            return None
    elif v.op == 'b':
        v = v.args[0]
    elif v.op in ('seq', 'agg'):
        v = unwrap_whole(v)
        if v is None:
            return None
    if v.op == 'deref':
        return v.args[0]
    return None


def unwrap_whole(v):
    """the opaque term a container value was materialised from"""
    if v.op == 'seq':
        if len(v.args) == 1:
            p = v.args[0]
            if p.op == 'sub' and p.args[1] is ZERO and p.args[2] is slen(p.args[0]):
                return p.args[0]
    elif v.op == 'agg' and v.args[0] == 'box':
        x = v.args[2]
        if x.op == 'lin' and x.args[0] == 0 and len(x.args[1]) == 1 and x.args[1][0][1] == 1:
            x = x.args[1][0][0]
        if x.op == 'unbox':
            return x.args[0]
        y = unwrap_whole(x)
        if y is not None and y.op == 'unbox':
            return y.args[0]
    return None


def u(x):
    if x.op == 'agg' or x.op == 'seq' or x.op == 'lin' or x.op == 'b' or x.op == 'sref' or x.op == 'elt':
        e = unwrap_elt(x)
        if e is not None:
            return T('sub', e[0], e[1], add(e[1], ONE))
    return T('u', x)


def mk(parts):
    """normalising constructor"""
    out = []
    for p in parts:
        if p.op == 'seq':
            for q in p.args:
                _push(out, q)
        else:
            _push(out, p)
    return T('seq', *out)


def _push(out, p):
    o = p.op
    if o == 'sub':
        s, lo, hi = p.args
        if lo is hi:
            return
        if s.op == 'pack' and lo is ZERO and hi is slen(s):
            for q in s.args[0].args:
                _push(out, q)
            return
        if out and out[-1].op == 'sub' and out[-1].args[0] is s and out[-1].args[2] is lo:
            q = out.pop()
            _push(out, T('sub', s, q.args[1], hi))
            return
    elif o == 'rep':
        x, n = p.args
        if n is ZERO:
            return
        if n is ONE:
            _push(out, u(x))
            return
        if out and out[-1].op == 'rep' and out[-1].args[0] is x:
            q = out.pop()
            out.append(T('rep', x, add(q.args[1], n)))
            return
        if out and out[-1].op == 'u' and out[-1].args[0] is x:
            out.pop()
            _push(out, T('rep', x, add(ONE, n)))
            return
    elif o == 'u':
        x = p.args[0]
        # bytes of a big-endian image written one at a time
        b = as_byte(x)
        if b is not None and b[1] == b[0] - 1:
            w, i, v = b
            ok_ = len(out) >= w - 1
            if ok_:
                for j in range(w - 1):
                    q = out[len(out) - (w - 1) + j]
                    bb = as_byte(q.args[0]) if q.op == 'u' else None
                    if bb is None or bb[0] != w or bb[1] != j or bb[2] is not v:
                        ok_ = False
                        break
            if ok_:
                del out[len(out) - (w - 1):]
                _push(out, be(w, v))
                return
        if out and out[-1].op == 'rep' and out[-1].args[0] is x:
            q = out.pop()
            out.append(T('rep', x, add(q.args[1], ONE)))
            return
        if out and out[-1].op == 'u' and out[-1].args[0] is x:
            out.pop()
            out.append(T('rep', x, I(2)))
            return
    elif o == 'enc':
        if p.args[0].op == 'dec':
            # a value read from bytes is canonically encoded by them
            for q in p.args[0].args[1].args:
                _push(out, q)
            return
    elif o == 'for':
        k, lo, hi, body = p.args
        if lo is hi or not body.args:
            return
        n = const_of(sub(hi, lo))
        if n == 1:
            for q in inst(body, k, lo).args:
                _push(out, q)
            return
        sp = piecewise(k, lo, hi, body)
        if sp is not None:
            for q in sp:
                _push(out, q)
            return
        if len(body.args) == 1:
            q = body.args[0]
            if q.op == 'sub':
                s, a, b = q.args
                d = sub(a, atom(bv(k)))
                if const_of(sub(b, a)) == 1 and not _has_bv(d, k) and not _has_bv(s, k):
                    _push(out, T('sub', s, add(lo, d), add(hi, d)))
                    return
                if not _has_bv(s, k) and inst(a, k, add(atom(bv(k)), ONE)) is b:
                    # consecutive pieces of one sequence
                    _push(out, T('sub', s, inst(a, k, lo), inst(a, k, hi)))
                    return
            if q.op == 'u' and not _has_bv(q, k):
                _push(out, T('rep', q.args[0], sub(hi, lo)))
                return
        if out and out[-1].op == 'for' and out[-1].args[0] == k and out[-1].args[3] is body and out[-1].args[2] is lo:
            q = out.pop()
            _push(out, T('for', k, q.args[1], hi, body))
            return
        # body[hi] following for(lo, hi, body) is absorbed by the caller (absorb)
    elif o == 'be':
        if p.args[0] == 0:
            return
    out.append(p)
    if len(out) >= 2 and o != 'for':
        absorb(out)


def piecewise(k, lo, hi, body):
    """a pass over every element of a concatenation, as passes over its parts"""
    from .facts import subt
    es = [x for x in subt(body) if x.op == 'elt' and x.args[0].op == 'pack' and x.args[1] is atom(bv(k))]
    if len(es) != 1:
        return None
    q = es[0].args[0].args[0]
    if len(q.args) < 2:
        return None
    bs = [ZERO]
    for p in q.args:
        bs.append(add(bs[-1], plen(p)))
    if lo not in bs or hi not in bs:
        return None
    i, j = bs.index(lo), len(bs) - 1 - bs[::-1].index(hi)
    if i >= j:
        return None
    from .loops import ren
    out = []
    for n in range(i, j):
        p, b, e = q.args[n], bs[n], bs[n + 1]
        if p.op == 'u':
            out.extend(ren(body, {es[0]: p.args[0], bv(k): b}, {}).args)
        elif p.op == 'rep':
            out.append(T('for', k, b, e, ren(body, {es[0]: p.args[0]}, {})))
        elif p.op == 'sub':
            v = elem(p.args[0], add(p.args[1], sub(atom(bv(k)), b)))
            out.append(T('for', k, b, e, ren(body, {es[0]: v}, {})))
        elif p.op == 'for' and len(p.args[3].args) == 1 and length(p.args[3]) is ONE:
            f = inst(p.args[3], p.args[0], add(p.args[1], sub(atom(bv(k)), b))).args
            if len(f) != 1 or f[0].op not in ('u', 'sub'):
                return None
            v = f[0].args[0] if f[0].op == 'u' else elem(f[0].args[0], f[0].args[1])
            out.append(T('for', k, b, e, ren(body, {es[0]: v}, {})))
        else:
            return None
    return out


def absorb(out):
    """for(lo,hi,S) ++ S[hi]  ->  for(lo,hi+1,S)"""
    for back in range(1, 5):
        i = len(out) - 1 - back
        if i < 0:
            return
        q = out[i]
        if q.op == 'for':
            k, lo, hi, body = q.args
            if len(body.args) == back and inst(body, k, hi).args == tuple(out[i + 1:]):
                del out[i:]
                out.append(T('for', k, lo, add(hi, ONE), body))
            return


def _has_bv(t, k):
    from .facts import subt
    return bv(k) in subt(t)


def one(x):
    return mk([u(x)])


def cat(*qs):
    return mk(qs)


def whole(s):
    return mk([T('sub', s, ZERO, slen(s))])


def opaque(s):
    """an opaque symbol standing for the sequence q"""
    w = unwrap_whole(s)
    return w if w is not None else T('pack', s)


def as_byte(x):
    """(w, i, v) when x is byte i of the big-endian image of v"""
    if x.op == 'lin' and x.args[0] == 0 and len(x.args[1]) == 1 and x.args[1][0][1] == 1:
        a = x.args[1][0][0]
        if a.op == 'byte':
            return a.args
    return None


def byte_of(w, i, v):
    c = const_of(v)
    if c is not None:
        return I((c >> (8 * (w - 1 - i))) & 0xff)
    a = T('byte', w, i, v)
    TM.INFO.setdefault(a, (0, 255))
    return atom(a)


def be(w, v, F=None):
    """canonical part for the w-byte big-endian image of v"""
    c = const_of(v)
    if c is not None:
        return mk([u(I((c >> (8 * (w - 1 - i))) & 0xff)) for i in range(w)])
    if w == 1:
        from .ints import wrap
        return mk([u(wrap(v, 8, False, F))])
    if v.args[0] == 0 and len(v.args[1]) == 1 and v.args[1][0][1] == 1:
        a = v.args[1][0][0]
        if a.op == 'frombe' and a.args[0] == w:
            return a.args[1]
        if a.op == 'wrap' and a.args[1] >= 8 * w:
            return be(w, a.args[0], F)
    # the image only depends on the value modulo 2^(8w)
    m = 1 << (8 * w)
    if v.args[0] < -(m // 2) or v.args[0] >= m:
        v = T('lin', v.args[0] % m, v.args[1])
    return T('be', w, v)


def frombe(w, signed, q, F=None):
    """integer denoted by w big-endian bytes"""
    from .ints import wrap
    bits = 8 * w
    if len(q.args) == 1 and q.args[0].op == 'be' and q.args[0].args[0] == w:
        return wrap(q.args[0].args[1], bits, signed, F)
    if w == 1 and len(q.args) == 1 and q.args[0].op == 'u':
        return wrap(q.args[0].args[0], 8, signed, F)
    if w == 1 and len(q.args) == 1 and q.args[0].op == 'sub':
        return wrap(elem(q.args[0].args[0], q.args[0].args[1]), 8, signed, F)
    if all(p.op == 'u' and const_of(p.args[0]) is not None for p in q.args) and len(q.args) == w:
        n = 0
        for p in q.args:
            n = n * 256 + const_of(p.args[0])
        return wrap(I(n), bits, signed, F)
    if len(q.args) == 1 and q.args[0].op == 'rep' and const_of(q.args[0].args[0]) is not None:
        n = 0
        for _ in range(w):
            n = n * 256 + const_of(q.args[0].args[0])
        return wrap(I(n), bits, signed, F)
    a = T('frombe', w, q)
    if a not in TM.INFO:
        TM.INFO[a] = (0, (1 << bits) - 1)
        xs = byte_list(w, q)
        if xs is not None:
            d = atom(a)
            for i, x in enumerate(xs):
                d = sub(d, scale(x, 1 << (8 * (w - 1 - i))))
            TM.AXIOMS[a] = (d, scale(d, -1))
    return wrap(atom(a), bits, signed, F)


def byte_list(w, q):
    """the w bytes of a short sequence, when each has a name"""
    xs = []
    for p in q.args:
        n = const_of(plen(p)) if p.op in ('u', 'sub', 'rep') else None
        if n is None or len(xs) + n > w:
            return None
        for j in range(n):
            e = elem(p.args[0], add(p.args[1], I(j))) if p.op == 'sub' else p.args[0]
            xs.append(e if e.op == 'lin' else atom(e))
    return xs if len(xs) == w else None


# ---------------------------------------------------------------- rebuilding
def _rb_sub(s, lo, hi):
    return mk([T('sub', s, lo, hi)])


def _install():
    from .facts import REBUILD
    REBUILD['seq'] = lambda *ps: mk(ps)
    REBUILD['sub'] = _rb_sub
    REBUILD['u'] = lambda x: mk([u(x)])
    REBUILD['rep'] = lambda x, n: mk([T('rep', x, n)])
    REBUILD['for'] = lambda k, lo, hi, b: mk([T('for', k, lo, hi, b)])
    REBUILD['be'] = lambda w, v: mk([be(w, v)])
    REBUILD['S'] = lambda k, a, x: S(k, _aslone(a), x)
    REBUILD['byte'] = lambda w, i, v: byte_of(w, i, v)
    REBUILD['frombe'] = lambda w, q: frombe(w, False, q)
    REBUILD['enclen'] = lambda x: enclen(x)
    REBUILD['enc'] = lambda x: mk([T('enc', x)])
    REBUILD['len'] = _rb_len
    REBUILD['elt'] = _rb_elt


def _rb_len(s):
    if s.op in ('seq',):
        return length(s)
    return slen(s)


def _rb_elt(s, i):
    return elem(s, i)


def _aslone(a):
    if a.op == 'lin':
        if a.args[0] == 0 and len(a.args[1]) == 1 and a.args[1][0][1] == 1:
            return a.args[1][0][0]
        return T('intval', a)
    return a


# ---------------------------------------------------------------- reading
def split_on(F, b):
    r = F.ask(b)
    if r is None:
        raise NeedSplit(F.subst(b))
    return r


def norm(q, F):
    q = F.subst(q)
    out = []
    for p in q.args:
        if p.op in ('sub', 'for', 'rep') and F.ent_le(plen(p)):
            continue
        out.append(p)
    if len(out) != len(q.args):
        q = mk(out)
    return q


def cut(q, pos, F):
    """(q[..pos], q[pos..]); may ask for a split of the abstract state"""
    pos = F.subst(pos)
    q = norm(q, F)
    if pos is ZERO:
        return EMPTY, q
    ps = list(q.args)
    acc = ZERO
    L = []
    for i, p in enumerate(ps):
        n = plen(p)
        end = add(acc, n)
        if F.ask_eq(sub(pos, acc)) is True:
            return mk(ps[:i]), mk(ps[i:])
        if split_on(F, le(end, pos)):
            acc = end
            continue
        # acc < pos < end  (or pos == acc)
        d = F.subst(sub(pos, acc))
        if F.ask_eq(d) is None:
            raise NeedSplit(eq0(d))
        if F.ask_eq(d):
            return mk(ps[:i]), mk(ps[i:])
        a, b = cut_part(p, d, F)
        return mk(ps[:i] + [a]), mk([b] + ps[i + 1:])
    return q, EMPTY


def cut_part(p, d, F):
    o = p.op
    if o == 'sub':
        s, lo, hi = p.args
        m = add(lo, d)
        return mk([T('sub', s, lo, m)]), mk([T('sub', s, m, hi)])
    if o == 'rep':
        return mk([T('rep', p.args[0], d)]), mk([T('rep', p.args[0], sub(p.args[1], d))])
    if o == 'be':
        c = const_of(d)
        w, v = p.args
        if c is None:
            for j in range(1, w):
                if F.ask_eq(sub(d, I(j))) is None:
                    raise NeedSplit(eqi(d, I(j)))
        xs = [u(byte_of(w, i, v)) for i in range(w)]
        return T('seq', *xs[:c]), T('seq', *xs[c:])
    if o == 'for':
        k, lo, hi, body = p.args
        n = length(body)
        if n is ONE:
            m = add(lo, d)
            return mk([T('for', k, lo, m, body)]), mk([T('for', k, m, hi, body)])
        # split off the first iteration and retry
        first = inst(body, k, lo)
        rest = T('for', k, add(lo, ONE), hi, body)
        fl = length(first)
        if split_on(F, le(fl, d)):
            if F.ask_eq(sub(fl, d)) is True:
                return first, mk([rest])
            if split_on(F, eqi(fl, d)):
                return first, mk([rest])
            if const_of(d) is not None:
                a, b = cut(mk([rest]), sub(d, fl), F)
                return cat(first, a), b
        else:
            a, b = cut(first, d, F)
            return a, cat(b, mk([rest]))
    # not divisible: fall back to an opaque image of this part
    s = T('pack', T('seq', p))
    n = plen(p)
    return mk([T('sub', s, ZERO, d)]), mk([T('sub', s, d, n)])


def slice_(q, lo, hi, F):
    a, b = cut(q, hi, F)
    if lo is ZERO:
        return a
    return cut(a, lo, F)[1]


def try_index(q, i):
    """syntactic lookup"""
    acc = ZERO
    for p in q.args:
        d = const_of(sub(i, acc))
        n = plen(p)
        if d is not None and d >= 0:
            if p.op == 'sub' and p is q.args[-1]:
                return elem(p.args[0], add(p.args[1], I(d)))
            if p.op == 'u' and d == 0:
                return p.args[0]
            if p.op == 'be' and d < p.args[0]:
                return byte_of(p.args[0], d, p.args[1])
        acc = add(acc, n)
    return None


def index(q, i, F):
    """element i (0 <= i < length is assumed to hold)"""
    i = F.subst(i)
    q = norm(q, F)
    acc = ZERO
    n = len(q.args)
    for j, p in enumerate(q.args):
        end = add(acc, plen(p))
        if j < n - 1 and split_on(F, le(end, i)):
            acc = end
            continue
        d = F.subst(sub(i, acc))
        return part_index(p, d, F)
    return None


def part_index(p, d, F):
    o = p.op
    if o == 'u':
        return p.args[0]
    if o == 'sub':
        return elem(p.args[0], add(p.args[1], d))
    if o == 'rep':
        return p.args[0]
    if o == 'be':
        w, v = p.args
        c = const_of(d)
        if c is None:
            for j in range(w):
                if F.ask_eq(sub(d, I(j))) is None:
                    raise NeedSplit(eqi(d, I(j)))
            c = const_of(F.subst(d))
            if c is None:
                c = 0
        return byte_of(w, c, v)
    if o == 'for':
        k, lo, hi, body = p.args
        if length(body) is ONE:
            b = inst(body, k, add(lo, d))
            return part_index(b.args[0], ZERO, F) if b.args else None
        n = const_of(length(body))
        if n is not None and n > 1:
            from . import ints
            i, r = F.subst(ints.div(d, n)), const_of(F.subst(ints.mod(d, n)))
            if r is not None:
                return index(inst(body, k, add(lo, i)), I(r), F)
        a, b = cut_part(p, d, F) if const_of(d) != 0 else (EMPTY, mk([p]))
        if b.args and b.args[0].op == 'for':
            k, lo, hi, body = b.args[0].args
            if split_on(F, lt(lo, hi)):
                first = inst(body, k, lo)
                return index(first, ZERO, F)
        elif b.args:
            return part_index(b.args[0], ZERO, F)
    s = T('pack', T('seq', p))
    x = T('elt', s, d)
    TM.INFO.setdefault(x, (0, 255)) if o == 'enc' else None
    if o == 'enc':
        return atom(x)
    return x


def uncons(q, F):
    """first element and rest, for a sequence known to be non-empty"""
    q = norm(q, F)
    while q.args:
        p = q.args[0]
        n = plen(p)
        if F.ent_le(sub(ONE, n)):
            x = part_index(p, ZERO, F)
            if const_of(n) == 1:
                rest = EMPTY
            else:
                _, rest = cut_part(p, ONE, F)
            return x, mk([rest] + list(q.args[1:]))
        if split_on(F, le0(n)):
            q = norm(mk(q.args[1:]), F)
            continue
        continue
    return None


def unsnoc(q, F):
    q = norm(q, F)
    while q.args:
        p = q.args[-1]
        n = plen(p)
        if F.ent_le(sub(ONE, n)):
            x = part_index(p, sub(n, ONE), F)
            if const_of(n) == 1:
                rest = EMPTY
            else:
                rest, _ = cut_part(p, sub(n, ONE), F)
            return mk(list(q.args[:-1]) + [rest]), x
        if split_on(F, le0(n)):
            q = norm(mk(q.args[:-1]), F)
    return None


def update(q, i, x, F):
    """q with element i replaced"""
    a, b = cut(q, i, F)
    r = uncons(b, F)
    if r is None:
        return a
    return mk(list(a.args) + [u(x)] + list(r[1].args))


# ---------------------------------------------------------------- equality
EACH = [None]    # what the recorded passes of loops say about one index
STUCK = []       # pairs of comprehensions found neither equal nor different


def seq_eq(a, b, F, veq):
    """condition (bool term) under which the two sequences are equal"""
    a = norm(a, F)
    b = norm(b, F)
    conds = []
    while True:
        if a is b:
            return band(*conds)
        # strip equal suffix parts as well
        while a.args and b.args and a.args[-1] is b.args[-1]:
            a = T('seq', *a.args[:-1])
            b = T('seq', *b.args[:-1])
        if a is b:
            return band(*conds)
        d = F.ask_eq(F.subst(sub(length(a), length(b))))
        if d is False:
            return FALSE
        if not a.args or not b.args:
            return band(eqi(length(a), length(b)), *conds)
        p, q = a.args[0], b.args[0]
        if p is q:
            a = T('seq', *a.args[1:])
            b = T('seq', *b.args[1:])
            continue
        # empty heads
        np_, nq = plen(p), plen(q)
        if p.op == 'sub' and q.op == 'sub' and p.args[0] is q.args[0]:
            same = F.ask_eq(sub(p.args[1], q.args[1]))
            if same:
                n = _min(np_, nq, F)
                if n is None:
                    if d is True and len(a.args) == 1 and len(b.args) == 1:
                        a = b
                        continue
                    return band(eqi(length(a), length(b)), T('b', T('seqeq', *_ord(a, b))), *conds)
                if n is ZERO:
                    pass
                a = cut(a, n, F)[1]
                b = cut(b, n, F)[1]
                continue
        if p.op == 'for' and q.op == 'for' and p.args[3] is q.args[3] and F.ask_eq(sub(p.args[1], q.args[1])):
            n = _min(p.args[2], q.args[2], F)
            if n is not None:
                k, lo = p.args[0], p.args[1]
                ra = [T('for', k, n, p.args[2], p.args[3])] + list(a.args[1:])
                rb = [T('for', k, n, q.args[2], q.args[3])] + list(b.args[1:])
                a, b = norm(mk(ra), F), norm(mk(rb), F)
                continue
        if p.op == 'enc' and q.op == 'enc':
            c = veq(p.args[0], q.args[0])
            if F.ask(c) is True:
                a = T('seq', *a.args[1:])
                b = T('seq', *b.args[1:])
                continue
        if p.op == 'rep' and q.op == 'rep':
            c = veq(p.args[0], q.args[0])
            n = _min(np_, nq, F)
            if n is not None:
                if F.ask(c) is not True:
                    if not F.ent_le(sub(ONE, n)):
                        return band(eqi(length(a), length(b)), T('b', T('seqeq', *_ord(a, b))), *conds)
                    conds.append(c)
                a = cut(a, n, F)[1]
                b = cut(b, n, F)[1]
                continue
        if p.op == 'be' and q.op == 'be' and p.args[0] == q.args[0]:
            dd = sub(p.args[1], q.args[1])
            m = 1 << (8 * p.args[0])
            if F.ask_eq(dd) is True:
                a = T('seq', *a.args[1:])
                b = T('seq', *b.args[1:])
                continue
            conds.append(T('b', T('beeq', p.args[0], *_ord(p.args[1], q.args[1]))) if F.ask_eq(dd) is None else
                         (FALSE if F.ent_le(add(dd, I(-(m - 1)))) and F.ent_le(sub(I(-(m - 1)), dd)) else
                          T('b', T('beeq', p.args[0], *_ord(p.args[1], q.args[1])))))
            a = T('seq', *a.args[1:])
            b = T('seq', *b.args[1:])
            continue
        if p.op == 'for' and q.op == 'for' and F.ask_eq(sub(p.args[1], q.args[1])) and F.ask_eq(sub(p.args[2], q.args[2])):
            # pointwise
            j = T('sym', fresh_id(), 'i')
            ba, bb = inst(p.args[3], p.args[0], atom(j)), inst(q.args[3], q.args[0], atom(j))
            g = F.assume(band(le(p.args[1], atom(j)), lt(atom(j), p.args[2])))
            if EACH[0] is not None and any(x.op == 'pick' for y in (ba, bb) for x in TM.subterms(y)):
                g = EACH[0](g, atom(j))
            if all(h.ask(seq_eq(ba, bb, h, veq)) is True for h in g):
                a = T('seq', *a.args[1:])
                b = T('seq', *b.args[1:])
                continue
            if STUCK is not None and length(ba) is length(bb):
                STUCK.append((atom(j), p.args[1], p.args[2], ba, bb))
        if (p.op == 'be') != (q.op == 'be'):
            # big-endian image against other bytes: compare the integers
            (w, v), o_, r_ = (p.args, b, a) if p.op == 'be' else (q.args, a, b)
            if F.ent_le(sub(I(w), length(o_))) and F.ent_le(scale(v, -1)) and F.ent_le(add(v, I(1 - (1 << (8 * w))))) \
                    and o_.args[0].op != 'u':
                x, o_ = cut(o_, I(w), F)
                c = eqi(frombe(w, False, x, F), v)
                r = F.ask(c)
                if r is False:
                    return FALSE
                if r is not True:
                    conds.append(c)
                a, b = o_, T('seq', *r_.args[1:])
                continue
        # element against anything with a known first element
        if F.ent_le(sub(ONE, np_)) and F.ent_le(sub(ONE, nq)) and (
                p.op == 'u' or q.op == 'u' or _short(p) or _short(q) or const_of(np_) is not None and const_of(nq) is not None
                and p.op != 'enc' and q.op != 'enc'):
            x, ra = uncons(a, F)
            y, rb = uncons(b, F)
            c = veq(x, y)
            if c is FALSE or F.ask(c) is False:
                return FALSE
            if c is not TRUE and F.ask(c) is not True:
                conds.append(c)
            a, b = ra, rb
            continue
        # lengths decide emptiness
        for n in (np_, nq):
            if not F.ent_le(sub(ONE, n)) and const_of(n) is None and n.args[1]:
                r = F.ask(le0(n))
                if r is None and (p.op in ('sub', 'for', 'rep')) and (q.op in ('u', 'be')):
                    if d is True:
                        raise NeedSplit(le0(F.subst(n)))
        return band(eqi(length(a), length(b)), T('b', T('seqeq', *_ord(a, b))), *conds)


def _short(p):
    return p.op == 'rep' and const_of(p.args[1]) is not None and const_of(p.args[1]) <= 16


def _ord(a, b):
    return (a, b) if a.id <= b.id else (b, a)


def _min(x, y, F):
    if F.ent_le(sub(x, y)):
        return x
    if F.ent_le(sub(y, x)):
        return y
    return None
