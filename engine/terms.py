"""Hash-consed value-numbering terms.

Every abstract value is an interned Term, so structural equality is identity.
Integers are kept as linear forms over opaque atoms ('lin'), byte/element
sequences as concatenations of parts ('seq'), everything else as constructor
applications.
"""
import itertools

class Term:
    __slots__ = ('op', 'args', 'id', 'fresh', 'unk')

    def __repr__(self):
        return show(self)


_tab = {}
_ids = itertools.count()


def T(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = next(_ids)
        fr = 0
        un = op in ('uninit', 'const', 'intfn')
        if op == 'sym' or op == 'unk':
            fr = args[0] if isinstance(args[0], int) else 0
            un = op == 'unk'
        for a in args:
            if type(a) is Term:
                if a.fresh > fr:
                    fr = a.fresh
                un = un or a.unk
            elif type(a) is tuple:
                for x in a:
                    if type(x) is tuple:
                        x = x[0]
                    if type(x) is Term:
                        if x.fresh > fr:
                            fr = x.fresh
                        un = un or x.unk
        t.fresh = fr
        t.unk = un
        _tab[k] = t
    return t


_fresh = itertools.count(1)
INFO = {}     # opaque term -> (lo, hi) range | other facts
TYP = {}      # opaque term -> type index
LEN = {}      # opaque sequence symbol -> lin length
ELTY = {}     # opaque sequence symbol -> element type index
AXIOMS = {}   # atom -> list of constraints (lin<=0) always valid
DEFS = {}      # atom -> linear form it always equals


def fresh_id():
    return next(_fresh)


def sym(name, ty=None):
    t = T('sym', next(_fresh), name)
    if ty is not None:
        TYP[t] = ty
    return t


def unk(why=''):
    return T('unk', next(_fresh), why)


def tainted(t):
    return t.unk


# ---------------------------------------------------------------- linear ints
def lin(c=0, items=()):
    return T('lin', c, tuple(items))


_ic = {}


def I(n):
    t = _ic.get(n)
    if t is None:
        t = _ic[n] = T('lin', n, ())
    return t


ZERO = I(0)
ONE = I(1)


def atom(t):
    """integer value denoted by an opaque term"""
    if t.op == 'lin':
        return t
    return T('lin', 0, ((t, 1),))


def is_lin(t):
    return type(t) is Term and t.op == 'lin'


def const_of(t):
    if t.op == 'lin' and not t.args[1]:
        return t.args[0]
    return None


def _mk(c, d):
    its = sorted(((a, k) for a, k in d.items() if k), key=lambda p: p[0].id)
    return T('lin', c, tuple(its))


def add(a, b):
    if not a.args[1]:
        if a.args[0] == 0:
            return b
        return T('lin', a.args[0] + b.args[0], b.args[1])
    if not b.args[1]:
        if b.args[0] == 0:
            return a
        return T('lin', a.args[0] + b.args[0], a.args[1])
    d = dict(a.args[1])
    for x, k in b.args[1]:
        d[x] = d.get(x, 0) + k
    return _mk(a.args[0] + b.args[0], d)


def scale(a, k):
    if k == 0:
        return ZERO
    if k == 1:
        return a
    return T('lin', a.args[0] * k, tuple((x, c * k) for x, c in a.args[1]))


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    # distribute over linear forms, keeping products of atoms opaque
    d = {}
    r = ZERO
    c1, i1 = a.args
    c2, i2 = b.args
    r = add(scale(T('lin', 0, i2), c1), scale(T('lin', 0, i1), c2))
    r = add(r, I(c1 * c2))
    for x, k in i1:
        for y, m in i2:
            p, q = (x, y) if x.id <= y.id else (y, x)
            r = add(r, scale(atom(T('mul', p, q)), k * m))
    return r


# ---------------------------------------------------------------- booleans
TRUE = T('true')
FALSE = T('false')


def B(b):
    return TRUE if b else FALSE


def le0(l):
    c = const_of(l)
    if c is not None:
        return B(c <= 0)
    return T('le0', l)


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), ONE))


def eq0(l):
    c = const_of(l)
    if c is not None:
        return B(c == 0)
    if l.args[1][0][1] < 0:
        l = scale(l, -1)
    return T('eq0', l)


def eqi(a, b):
    return eq0(sub(a, b))


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == 'le0':
        return le0(sub(ONE, b.args[0]))
    if b.op == 'and':
        return bor(*[bnot(x) for x in b.args])
    if b.op == 'or':
        return band(*[bnot(x) for x in b.args])
    return T('not', b)


def _flat(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            out.extend(x.args)
        else:
            out.append(x)
    return out


def band(*xs):
    out = []
    for x in _flat('and', xs):
        if x is FALSE:
            return FALSE
        if x is not TRUE and x not in out:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T('and', *out)


def bor(*xs):
    out = []
    for x in _flat('or', xs):
        if x is TRUE:
            return TRUE
        if x is not FALSE and x not in out:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return T('or', *out)


def batom(t):
    """boolean denoted by an opaque term"""
    return T('b', t)


# ---------------------------------------------------------------- misc values
def agg(name, variant, *fields):
    return T('agg', name, variant, *fields)


def fields(t):
    return t.args[2:]


UNIT = agg('tuple', 0)


def tup(*xs):
    return agg('tuple', 0, *xs)


OPT = 'core::option::Option'
RES = 'core::result::Result'
NONE = agg(OPT, 0)


def some(x):
    return agg(OPT, 1, x)


def ok(x):
    return agg(RES, 0, x)


def err(x):
    return agg(RES, 1, x)


def sref(v):
    return T('sref', v)


# ---------------------------------------------------------------- traversal
def children(t):
    for a in t.args:
        if type(a) is Term:
            yield a
        elif type(a) is tuple:
            for x in a:
                if type(x) is Term:
                    yield x
                elif type(x) is tuple:
                    for y in x:
                        if type(y) is Term:
                            yield y


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return seen


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if type(t) is not Term:
        return str(t)
    if d > 12:
        return '…'
    o, a = t.op, t.args
    if o == 'lin':
        out = []
        for x, k in a[1]:
            sx = show(x, d + 1)
            out.append(sx if k == 1 else '-' + sx if k == -1 else '%d*%s' % (k, sx))
        if a[0] or not out:
            out.append(str(a[0]))
        s = '+'.join(out).replace('+-', '-')
        return s if len(out) == 1 else '(' + s + ')'
    if o == 'sym':
        return '%s#%d' % (a[1], a[0])
    if o == 'unk':
        return '?%s#%d' % (a[1], a[0])
    if o == 'fld':
        return '%s.%s%s' % (show(a[0], d + 1), ('v%d.' % a[1]) if a[1] else '', a[2])
    if o == 'agg':
        n = str(a[0]).split('::')[-1]
        fs = ', '.join(show(x, d + 1) for x in a[2:])
        if n == 'tuple':
            return '(' + fs + ')'
        if a[0] == OPT:
            return 'Some(%s)' % fs if a[1] else 'None'
        if a[0] == RES:
            return ('Err(%s)' if a[1] else 'Ok(%s)') % fs
        return '%s/%d{%s}' % (n, a[1], fs)
    if o == 'seq':
        return '[' + ' ++ '.join(show(x, d + 1) for x in a) + ']'
    if o == 'sub':
        return '%s[%s..%s]' % tuple(show(x, d + 1) for x in a)
    if o == 'sref':
        return '&' + show(a[0], d + 1)
    if o == 'le0':
        return show(a[0], d + 1) + '<=0'
    if o == 'eq0':
        return show(a[0], d + 1) + '==0'
    return '%s(%s)' % (o, ', '.join(show(x, d + 1) for x in a))
