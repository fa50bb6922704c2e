"""Machine-integer operations over linear forms."""
from math import gcd
from .terms import *
from . import terms as TM
from .facts import REBUILD, rng


def trange(bits, signed):
    if signed:
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return 0, (1 << bits) - 1


def interval(l):
    lo = hi = l.args[0]
    for a, k in l.args[1]:
        al, ah = rng(a)
        if k < 0:
            al, ah = ah, al
        lo = None if lo is None or al is None else lo + k * al
        hi = None if hi is None or ah is None else hi + k * ah
    return lo, hi


def wrapc(c, bits, signed):
    c &= (1 << bits) - 1
    if signed and c >> (bits - 1):
        c -= 1 << bits
    return c


def single(l):
    if l.args[0] == 0 and len(l.args[1]) == 1 and l.args[1][0][1] == 1:
        return l.args[1][0][0]
    return None


def wrap(l, bits, signed, F=None):
    """value of l reduced into the given machine type"""
    if F is not None:
        l = F.subst(l)
    c = const_of(l)
    if c is not None:
        return I(wrapc(c, bits, signed))
    lo, hi = interval(l)
    tlo, thi = trange(bits, signed)
    if lo is not None and hi is not None and tlo <= lo and hi <= thi:
        return l
    a = single(l)
    if a is not None and a.op == 'wrap' and a.args[1] >= bits:
        lo, hi = interval(a.args[0])
        if lo is not None and hi is not None and tlo <= lo and hi <= thi:
            return a.args[0]
    if F is not None and F.ent_le(sub(I(tlo), l)) and F.ent_le(sub(l, I(thi))):
        return l
    # strip inner wraps that do not matter, and whole multiples of the modulus
    m = 1 << bits
    r = I(l.args[0])
    ch = False
    for a, k in l.args[1]:
        if a.op == 'wrap' and a.args[1] >= bits:
            r = add(r, scale(a.args[0], k))
            ch = True
        elif k % m == 0:
            ch = True
        else:
            r = add(r, scale(atom(a), k))
    if ch:
        return wrap(r, bits, signed, F)
    if not (tlo <= l.args[0] <= thi):
        return wrap(T('lin', wrapc(l.args[0], bits, signed), l.args[1]), bits, signed, F)
    if F is not None:
        # off by exactly one modulus
        for d in (m, -m):
            l2 = add(l, I(d))
            if F.ent_le(sub(I(tlo), l2)) and F.ent_le(sub(l2, I(thi))):
                return l2
    t = T('wrap', l, bits, signed)
    if t not in TM.INFO:
        TM.INFO[t] = (tlo, thi)
        if lo is not None and hi is not None:
            # t = l - m*q for the number q of times the range was left
            q = T('wq', l, bits, signed)
            TM.INFO[q] = ((lo - tlo) // m, (hi - tlo) // m)
            TM.DEFS[t] = sub(l, scale(atom(q), m))
    return atom(t)


REBUILD['wrap'] = lambda l, b, s: wrap(l, b, s)


def div(l, c):
    """floor division by a positive constant"""
    k = const_of(l)
    if k is not None:
        return I(k // c)
    if c == 1:
        return l
    # pull out exact multiples
    q = I(l.args[0] // c)
    r = I(l.args[0] % c)
    for a, k in l.args[1]:
        if k % c == 0:
            q = add(q, scale(atom(a), k // c))
        else:
            r = add(r, scale(atom(a), k))
    k = const_of(r)
    if k is not None:
        return add(q, I(k // c))
    g = c
    for a, k in r.args[1]:
        g = gcd(g, k)
    if g > 1:
        # floor((g*y + d) / (g*m)) = floor((y + floor(d/g)) / m)
        return add(q, div(T('lin', r.args[0] // g, tuple((a, k // g) for a, k in r.args[1])), c // g))
    lo, hi = interval(r)
    if lo is not None and hi is not None and lo // c == hi // c:
        return add(q, I(lo // c))
    s = single(r)
    if s is not None and s.op == 'div':
        # floor(floor(x/a)/b) = floor(x/(ab))
        return add(q, div(s.args[0], s.args[1] * c))
    t = T('div', r, c)
    if t not in TM.INFO:
        TM.INFO[t] = (None if lo is None else lo // c, None if hi is None else hi // c)
        a = atom(t)
        # c*t <= r <= c*t + c-1
        TM.AXIOMS[t] = (sub(scale(a, c), r), sub(r, add(scale(a, c), I(c - 1))))
    return add(q, atom(t))


REBUILD['div'] = lambda l, c: div(l, c)


def mod(l, c):
    return sub(l, scale(div(l, c), c))


def runs(mask):
    """maximal runs of ones as (lo, hi) bit positions"""
    out = []
    i = 0
    while mask >> i:
        if (mask >> i) & 1:
            j = i
            while (mask >> j) & 1:
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


def and_const(l, m, bits):
    """l & m for 0 <= l < 2^bits"""
    m &= (1 << bits) - 1
    r = ZERO
    for lo, hi in runs(m):
        # bits lo..hi of l
        t = scale(div(l, 1 << lo), 1 << lo)
        if hi < bits:
            t = sub(t, scale(div(l, 1 << hi), 1 << hi))
        r = add(r, t)
    return r


def low_zero(l):
    """number of trailing zero bits every value of l has"""
    g = abs(l.args[0])
    from math import gcd
    for a, k in l.args[1]:
        g = gcd(g, k)
    if g == 0:
        return 64
    return (g & -g).bit_length() - 1
