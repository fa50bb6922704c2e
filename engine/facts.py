"""The numeric/boolean part of the abstract state.

A linear-relations domain over opaque atoms: equalities in solved form,
inequalities `l <= 0`, disequalities, plus known truth values of opaque
boolean atoms.  Inclusion tests are decided by interval reasoning and, when
that is not enough, by Fourier-Motzkin projection with integer tightening.
"""
import struct
from math import gcd
from .terms import *
from . import terms as TM
from . import seqs

MAXC = 260
MAXV = 22


class Facts:
    __slots__ = ('eqs', 'ins', 'neq', 'bools', 'key', '_sub', '_ent', 'imp')

    def __init__(self):
        self.eqs = {}
        self.ins = ()
        self.neq = ()
        self.bools = {}
        self.imp = ()
        self._sub = {}
        self._ent = {}

    def copy(self):
        f = Facts.__new__(Facts)
        f.eqs = self.eqs
        f.ins = self.ins
        f.neq = self.neq
        f.bools = self.bools
        f.imp = self.imp
        f._sub = self._sub
        f._ent = {}
        return f

    # ------------------------------------------------------------ rewriting
    def subst(self, t):
        if not self.eqs:
            return t
        return rewrite(t, self.eqs, self._sub)

    # ------------------------------------------------------------ asking
    def ask(self, b):
        """True / False / None"""
        b = self.subst(b)
        return self._ask(b)

    def _ask(self, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        op = b.op
        if op == 'le0':
            if self.ent_le(b.args[0]):
                return True
            if self.ent_le(sub(ONE, b.args[0])):
                return False
            return None
        if op == 'eq0':
            return self.ask_eq(b.args[0])
        if op == 'not':
            r = self._ask(b.args[0])
            return None if r is None else (not r)
        if op == 'and':
            r = True
            for x in b.args:
                y = self._ask(x)
                if y is False:
                    return False
                if y is None:
                    r = None
            return r
        if op == 'or':
            r = False
            for x in b.args:
                y = self._ask(x)
                if y is True:
                    return True
                if y is None:
                    r = None
            return r
        if op == 'b':
            r = self.bools.get(b)
            if r is None and b.args[0].op == 'fcmp':
                known = [(x.args[0], v) for x, v in self.bools.items() if x.args[0].op == 'fcmp']
                if not float_ok(known + [(b.args[0], True)]):
                    return False
                if not float_ok(known + [(b.args[0], False)]):
                    return True
            return r
        return None

    def ask_eq(self, l):
        c = const_of(l)
        if c is not None:
            return c == 0
        for n in self.neq:
            if n is l or scale(n, -1) is l:
                return False
        g = 0
        for _, k in l.args[1]:
            g = gcd(g, k)
        if g > 1 and l.args[0] % g:
            return False
        a = self.ent_le(l)
        b = self.ent_le(scale(l, -1))
        if a and b:
            return True
        if self.ent_le(sub(ONE, l)) or self.ent_le(add(l, ONE)):
            return False
        return None

    # ------------------------------------------------------------ bounds
    def ent_le(self, l):
        """is l <= 0 entailed?"""
        c = const_of(l)
        if c is not None:
            return c <= 0
        r = self._ent.get(l)
        if r is None:
            r = self._ent[l] = self._entails(l)
        return r

    def _entails(self, l):
        if l in self.ins:
            return True
        # interval
        hi = l.args[0]
        for a, k in l.args[1]:
            lo_, hi_ = rng(a)
            b = hi_ if k > 0 else lo_
            if b is None:
                hi = None
                break
            hi += k * b
        if hi is not None and hi <= 0:
            return True
        # single-constraint subsumption
        for c in self.ins:
            if c.args[1] == l.args[1] and c.args[0] >= l.args[0]:
                return True
        return self.infeasible([sub(ONE, l)])

    def infeasible(self, extra):
        cons = list(extra)
        seen = set()
        work = []
        for l in extra:
            for a, _ in l.args[1]:
                if a not in seen:
                    seen.add(a)
                    work.append((a, 0))
        pend = [c for c in self.ins]
        used = set()
        out = list(extra)
        defs = []
        depth_cap = 6
        while work:
            a, d = work.pop()
            if d > depth_cap:
                continue
            lo, hi = rng(a)
            if lo is not None:
                out.append(add(I(lo), scale(atom(a), -1)))
            if hi is not None:
                out.append(add(atom(a), I(-hi)))
            new = []
            for ax in axioms(a):
                ax = self.subst(ax)
                if ax not in used:
                    used.add(ax)
                    new.append(ax)
            rest = []
            for c in pend:
                if any(x is a for x, _ in c.args[1]):
                    new.append(c)
                else:
                    rest.append(c)
            pend = rest
            for c in new:
                cc = const_of(c)
                if cc is not None:
                    if cc > 0:
                        return True
                    continue
                out.append(c)
                for x, _ in c.args[1]:
                    if x not in seen:
                        seen.add(x)
                        work.append((x, d + 1))
            df = TM.DEFS.get(a)
            if df is not None:
                defs.append((a, df))
                for x, _ in df.args[1]:
                    if x not in seen:
                        seen.add(x)
                        work.append((x, d + 1))
        out.extend(self.sums(seen))
        for a, df in sorted(defs, key=lambda p: -p[0].id):
            out = [replace_atom(c, a, df) for c in out]
        return fm(out)

    def sums(self, seen):
        """partial sums of the same non-negative summand are ordered like
        their bounds"""
        g = {}
        for a in seen:
            if a.op == 'S':
                lo, _ = rng(a.args[1])
                if lo is not None and lo >= 0:
                    g.setdefault(a.args[:2], []).append(a)
        out = []
        for (k, body), l in g.items():
            if len(l) < 2 or len(l) > 5:
                continue
            for p in l:
                for q in l:
                    if p is q:
                        continue
                    x, y = p.args[2], q.args[2]
                    if self.ent_le(add(sub(x, y), ONE)):
                        v = seqs.inst(atom(body), k, x)
                        out.append(sub(add(atom(p), v), atom(q)))
                    elif self.ent_le(sub(x, y)):
                        out.append(sub(atom(p), atom(q)))
        return out

    # ------------------------------------------------------------ assuming
    def assume(self, b):
        """list of refined fact sets (empty when contradictory)"""
        b = self.subst(b)
        r = self._ask(b)
        if r is True:
            return [self]
        if r is False:
            return []
        op = b.op
        if op == 'and':
            fs = [self]
            for x in b.args:
                fs = [g for f in fs for g in f.assume(x)]
            return fs
        if op == 'or':
            out = []
            base = [self]
            for x in b.args:
                for f in base:
                    out.extend(f.assume(x))
                base = [g for f in base for g in f.assume(bnot(x))]
            return out
        if op == 'le0':
            return self.add_le(b.args[0])
        if op == 'eq0':
            return self.add_eq(b.args[0])
        if op == 'not' and b.args[0].op == 'eq0':
            return self.add_ne(b.args[0].args[0])
        f = self.copy()
        f.bools = dict(self.bools)
        if op == 'not':
            f.bools[b.args[0]] = False
        else:
            f.bools[b] = True
        return f.fire()

    def assume1(self, b):
        r = self.assume(b)
        if not r:
            return None
        assert len(r) == 1
        return r[0]

    def fire(self):
        """apply pending implications whose antecedent became known"""
        if not self.imp:
            return [self]
        keep = []
        todo = []
        for p, q in self.imp:
            r = self.ask(p)
            if r is True:
                todo.append(q)
            elif r is None:
                keep.append((p, q))
        if not todo:
            return [self]
        f = self.copy()
        f.imp = tuple(keep)
        fs = [f]
        for q in todo:
            fs = [h for g in fs for h in g.assume(q)]
        return fs

    def implies(self, p, q):
        r = self.ask(p)
        if r is True:
            return self.assume(q)
        if r is False:
            return [self]
        f = self.copy()
        f.imp = self.imp + ((p, q),)
        return [f]

    def add_le(self, l):
        l = tighten(l)
        if self.ent_le(scale(l, -1)):
            return self.add_eq(l)
        f = self.copy()
        f.ins = tuple(c for c in self.ins if c.args[1] != l.args[1]) + (l,)
        # disequalities sharpened by the new bound
        return f.sharpen(l)

    def sharpen(self, l):
        f = self
        vs = set(a for a, _ in l.args[1])
        for n in f.neq:
            if any(a in vs for a, _ in n.args[1]):
                if f.ent_le(n):
                    g = f.copy()
                    g.neq = tuple(x for x in f.neq if x is not n)
                    return g.assume(le0(add(n, ONE)))
                if f.ent_le(scale(n, -1)):
                    g = f.copy()
                    g.neq = tuple(x for x in f.neq if x is not n)
                    return g.assume(le0(sub(ONE, n)))
        return f.fire()

    def add_ne(self, l):
        if self.ent_le(l):
            return self.assume(le0(add(l, ONE)))
        if self.ent_le(scale(l, -1)):
            return self.assume(le0(sub(ONE, l)))
        f = self.copy()
        f.neq = self.neq + (l,)
        return f.fire()

    def add_eq(self, l):
        g = 0
        for _, k in l.args[1]:
            g = gcd(g, k)
        if g > 1:
            if l.args[0] % g:
                return []
            l = T('lin', l.args[0] // g, tuple((a, k // g) for a, k in l.args[1]))
        # pick an atom with unit coefficient; prefer the freshest, never one
        # that occurs inside another atom of the same equation
        cand = None
        for a, k in l.args[1]:
            if k in (1, -1):
                inside = any(b is not a and a in subt(b) for b, _ in l.args[1])
                if inside:
                    continue
                p = (prio(a), a.fresh, a.id)
                if cand is None or p > cand[0]:
                    cand = (p, a, k)
        if cand is None:
            f = self.copy()
            f.ins = self.ins + (tighten(l), tighten(scale(l, -1)))
            return f.fire()
        _, a, k = cand
        # a = -(l - k a)/k
        rest = sub(l, scale(atom(a), k))
        val = scale(rest, -1 if k == 1 else 1)
        f = Facts()
        one = {a: val}
        memo = {}
        f.eqs = {x: rewrite(v, one, memo) for x, v in self.eqs.items()}
        f.eqs[a] = val
        f.bools = {}
        f.imp = self.imp
        bytes_ = [c for x, v in f.eqs.items() if x.op == 'frombe' and v is not self.eqs.get(x) for c in frombe_bytes(x, v)]
        new = []
        lo, hi = rng(a)
        if lo is not None:
            new.append(sub(I(lo), val))
        if hi is not None:
            new.append(sub(val, I(hi)))
        for c in axioms(a):
            new.append(c)
        pend = bytes_
        if a in TM.DEFS:
            pend.append(eq0(sub(val, TM.DEFS[a])))
        nn = []
        for c in self.ins:
            c2 = rewrite(c, one, memo)
            if c2 is c:
                nn.append(c)
            else:
                new.append(c2)
        f.ins = tuple(nn)
        for n in self.neq:
            n2 = rewrite(n, one, memo)
            if n2 is n:
                f.neq = f.neq + (n,)
            else:
                pend.append(bnot(eq0(n2)))
        for b, v in self.bools.items():
            b2 = rewrite(b, one, memo)
            if b2 is b:
                f.bools[b] = v
            else:
                pend.append(b2 if v else bnot(b2))
        # equalities whose left-hand atom mentions a
        for x in list(f.eqs):
            if x is not a and a in subt(x):
                x2 = rewrite(x, one, memo)
                v = f.eqs.pop(x)
                f._sub = {}
                if x2 is not x:
                    pend.append(eq0(sub(tolin(x2), v)))
        f._sub = {}
        fs = [f]
        for c in new:
            fs = [h for g in fs for h in g.assume(le0(c))]
        for b in pend:
            fs = [h for g in fs for h in g.assume(b)]
        return [h for g in fs for h in g.fire()]

    def consistent(self):
        return not any(self.infeasible([c]) for c in self.ins)

    def atoms(self):
        out = set()
        for c in self.ins:
            out.update(a for a, _ in c.args[1])
        return out

    def describe(self):
        out = ['%s = %s' % (show(a), show(v)) for a, v in self.eqs.items()]
        out += ['%s <= 0' % show(c) for c in self.ins]
        out += ['%s != 0' % show(c) for c in self.neq]
        out += [('' if v else 'not ') + show(b) for b, v in self.bools.items()]
        return '; '.join(out)


_fok = {}


def float_ok(lits):
    """can these comparisons of floats hold together?

    A true comparison means that neither side is NaN; a term of which nothing
    of the kind is known may be NaN, which satisfies every false comparison.
    The others are totally ordered."""
    key = frozenset(lits)
    r = _fok.get(key)
    if r is None:
        r = _fok[key] = _float_ok(key)
    return r


def _widened(x):
    # widening a float keeps its order (and NaN)
    while x.op == 'ftof' and x.args[1] == 64:
        x = x.args[0]
    return x


def _float_ok(lits):
    num = {}
    lits = [(c.args[0], _widened(c.args[1]), _widened(c.args[2]), v) for c, v in lits]
    for _, a, b, v in lits:
        if v:
            num.update((x, len(num)) for x in (a, b) if x not in num)
    const = {}
    for _, a, b, v in lits:
        for x in (a, b):
            if x.op == 'fconst':
                d = struct.unpack('>d', struct.pack('>Q', x.args[0]))[0] if x.args[1] == 64 else struct.unpack('>f', struct.pack('>I', x.args[0]))[0]
                if d == d:
                    const[x] = d
                    num.setdefault(x, len(num))
                elif v:
                    return False
    n = len(num)
    for x in num:
        num[x] = list(num).index(x)
    NO, LE, LT = 0, 1, 2
    g = [[NO] * n for _ in range(n)]
    ne = []

    def edge(a, b, k):
        g[a][b] = max(g[a][b], k)
    for op, a, b, v in lits:
        if a not in num or b not in num:
            continue
        i, j = num[a], num[b]
        if op == 'Lt':
            edge(i, j, LT) if v else edge(j, i, LE)
        elif op == 'Le':
            edge(i, j, LE) if v else edge(j, i, LT)
        elif v:
            edge(i, j, LE)
            edge(j, i, LE)
        else:
            ne.append((i, j))
    for a, x in const.items():
        for b, y in const.items():
            if x < y:
                edge(num[a], num[b], LT)
            elif x == y:
                edge(num[a], num[b], LE)
    for k in range(n):
        for i in range(n):
            if g[i][k]:
                for j in range(n):
                    if g[k][j]:
                        edge(i, j, max(g[i][k], g[k][j]))
    if any(g[i][i] == LT for i in range(n)):
        return False
    return not any(i == j or g[i][j] and g[j][i] for i, j in ne)


def frombe_bytes(x, v):
    """the bytes of a big-endian integer whose value became known"""
    c = const_of(v)
    if c is None:
        return []
    w, q = x.args
    xs = seqs.byte_list(w, q)
    if xs is None:
        return []
    return [eq0(sub(e, I((c >> (8 * (w - 1 - i))) & 255))) for i, e in enumerate(xs)]


def tolin(t):
    return t if t.op == 'lin' else atom(t)


_subt = {}


def subt(t):
    s = _subt.get(t)
    if s is None:
        s = _subt[t] = subterms(t)
    return s


def replace_atom(c, a, v):
    for x, k in c.args[1]:
        if x is a:
            return add(sub(c, scale(atom(a), k)), scale(v, k))
    return c


def prio(a):
    # eliminate introduced counters before input atoms
    return {'sym': 2, 'unk': 3, 'pick': 4}.get(a.op, 1)


def rng(a):
    r = TM.INFO.get(a)
    if r is None:
        return (None, None)
    return r


def axioms(a):
    return TM.AXIOMS.get(a, ())


def tighten(l):
    g = 0
    for _, k in l.args[1]:
        g = gcd(g, k)
    if g > 1:
        # sum g*k x + c <= 0  <=>  sum k x <= floor(-c/g)
        c = -((-l.args[0]) // g)
        return T('lin', c, tuple((a, k // g) for a, k in l.args[1]))
    return l


def fm(cons):
    """is the conjunction of l <= 0 infeasible over the integers (sound, incomplete)?"""
    cur = {}

    def put(d, vec, c):
        o = d.get(vec)
        if o is None or o < c:
            d[vec] = c
            neg = tuple((a, -k) for a, k in vec)
            o2 = d.get(neg)
            if o2 is not None and o2 + max(c, o if o is not None else c) > 0:
                return True
        return False

    for l in cons:
        if not l.args[1]:
            if l.args[0] > 0:
                return True
            continue
        l = tighten(l)
        if put(cur, l.args[1], l.args[0]):
            return True
    steps = 0
    while cur:
        pos = {}
        neg = {}
        big = set()
        for vec in cur:
            for a, k in vec:
                if k not in (1, -1):
                    big.add(a)
                if k > 0:
                    pos[a] = pos.get(a, 0) + 1
                else:
                    neg[a] = neg.get(a, 0) + 1
        vs = set(pos) | set(neg)
        best = None
        for a in vs:
            p, n = pos.get(a, 0), neg.get(a, 0)
            cost = p * n - p - n
            # unit coefficients first: the elimination is then exact
            key = (a in big, cost, a.id)
            if best is None or key < best[0]:
                best = (key, a)
        a = best[1]
        if pos.get(a, 0) * neg.get(a, 0) > 1600 or steps > 60:
            return False
        steps += 1
        P = []
        N = []
        nxt = {}
        for vec, c in cur.items():
            k = 0
            for x, kk in vec:
                if x is a:
                    k = kk
                    break
            if k == 0:
                nxt[vec] = c
            elif k > 0:
                P.append((k, vec, c))
            else:
                N.append((-k, vec, c))
        for kp, vp, cp in P:
            for kn, vn, cn in N:
                g = gcd(kp, kn)
                mp, mn = kn // g, kp // g
                d = {}
                for x, k in vp:
                    if x is not a:
                        d[x] = k * mp
                for x, k in vn:
                    if x is not a:
                        d[x] = d.get(x, 0) + k * mn
                c = cp * mp + cn * mn
                its = sorted(((x, k) for x, k in d.items() if k), key=lambda q: q[0].id)
                if not its:
                    if c > 0:
                        return True
                    continue
                g = 0
                for _, k in its:
                    g = gcd(g, k)
                if g > 1:
                    its = [(x, k // g) for x, k in its]
                    c = -((-c) // g)
                if put(nxt, tuple(its), c):
                    return True
        if len(nxt) > 1500:
            return False
        cur = nxt
    return False


# ---------------------------------------------------------------- rewriting
REBUILD = {}


def rewrite(t, m, memo):
    """replace atoms by linear values everywhere inside t"""
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args:
        return t
    st = subt(t)
    hit = False
    if len(m) < len(st):
        for a in m:
            if a in st:
                hit = True
                break
    else:
        for a in st:
            if a in m:
                hit = True
                break
    if not hit:
        memo[t] = t
        return t
    op = t.op
    if op == 'lin':
        r = I(t.args[0])
        for a, k in t.args[1]:
            v = m.get(a)
            if v is None:
                v = rewrite(a, m, memo)
                v = v if v.op == 'lin' else atom(v)
            else:
                v = rewrite(v, m, memo)
            r = add(r, scale(v, k))
    elif t in m:
        r = rewrite(m[t], m, memo)
    else:
        args = []
        for a in t.args:
            if type(a) is Term:
                args.append(rewrite(a, m, memo))
            elif type(a) is tuple:
                args.append(tuple(
                    rewrite(x, m, memo) if type(x) is Term else
                    tuple(rewrite(y, m, memo) if type(y) is Term else y for y in x) if type(x) is tuple else x
                    for x in a))
            else:
                args.append(a)
        r = rebuild(t, op, args)
    memo[t] = r
    return r


def rebuild(old, op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    t = T(op, *args)
    if t is not old:
        # carry side tables over to the renamed opaque term
        if old in TM.INFO and t not in TM.INFO:
            TM.INFO[t] = TM.INFO[old]
        if old in TM.TYP and t not in TM.TYP:
            TM.TYP[t] = TM.TYP[old]
        if old in TM.ELTY and t not in TM.ELTY:
            TM.ELTY[t] = TM.ELTY[old]
        if old in TM.LEN and t not in TM.LEN:
            seqs.reg_len(t, old)
    return t


REBUILD['le0'] = le0
REBUILD['mul'] = lambda a, b: mul(a if a.op == 'lin' else atom(a), b if b.op == 'lin' else atom(b))
REBUILD['eq0'] = eq0
REBUILD['not'] = bnot
REBUILD['and'] = band
REBUILD['or'] = bor

seqs._install()
