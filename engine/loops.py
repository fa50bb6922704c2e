"""Loop summaries.

A loop whose exit tests are all decided is walked iteration by iteration.  Any
other loop is replaced by an inductive description of its header state after J
iterations: every modified slot is generalised to a closed form in J (counter,
consumed suffix, accumulated concatenation) and the description is accepted
only once one abstract iteration started from it ends in the same description
at J+1.  Slots with no closed form become unknown (tainted) values.
"""
import time
from .terms import *
from . import terms as TM
from . import seqs, values, ints
from .ints import single
from .seqs import NeedSplit
from .facts import rewrite, subt, Facts
from .values import val_eq, TY

CNT = ('cnt',)
UNROLL_MIXED = 10
UNROLL_PURE = 80
UNROLL_WIDTH = 16     # branching loops are walked for a few iterations only
UNROLL_DEEP = 6
UNROLL_OPEN = 3       # iterations followed past an undecided exit test


EXACT = 3              # passes followed exactly when a loop has no summary


def summarise(I, fn, fid, h, body, st, peeled=0):
    if I.loop_nest:
        return summarise_(I, fn, fid, h, body, st, peeled)
    snap = I.snapshot()
    I.loop_nest += 1
    try:
        return summarise_(I, fn, fid, h, body, st, peeled)
    except BaseException:
        I.restore(snap)      # nothing found on the way to no answer counts
        raise
    finally:
        I.loop_nest -= 1


def first_passes(I, fn, fid, h, body, st):
    """the runs of a loop that end within a few passes, exactly as they are"""
    done, cur = [], [st]
    for n in range(EXACT + 1):
        nxt = []
        for c in cur:
            back, rest = one_pass(I, fn, fid, h, body, c)
            done.extend(rest)
            nxt.extend(o.st for o in back)
        cur = nxt
        if not cur or len(cur) > 8:
            break
    return done


def summarise_(I, fn, fid, h, body, st, peeled=0):
    live = fn.live()[h]
    gone = [k for k in st.store if k[0] == fid and type(k[1]) is int and k[1] not in live]
    if gone:
        st = st.copy()
        for k in gone:      # left over from before: nothing reads it
            del st.store[k]
    if peeled == 0:
        snap = I.snapshot()
        r = unroll(I, fn, fid, h, body, st)
        if r is not None:
            return r
        I.restore(snap)
    I.loops_done += 1
    return induct(I, fn, fid, h, body, st, peeled)


def localise(backs, jid, J):
    """choices made in iteration J are named by their order, so that the same
    choice has the same name in every pass over the body"""
    for o in backs:
        m = {}
        for v in o.st.store.values():
            for x in subt(v):
                if x.op == 'sym' and len(x.args) == 3 and x.args[0] > jid and x not in m:
                    k = T('sk', T('skid', jid, x.args[1], x.args[2]), atom(J))
                    for tab in (TM.INFO, TM.TYP, TM.ELTY, TM.LEN):
                        if x in tab and k not in tab:
                            tab[k] = tab[x]
                    m[x] = k
        if m:
            memo = {}
            o.st.F = ren_facts(o.st.F, m, memo)
            for s in list(o.st.store):
                o.st.store[s] = ren(o.st.store[s], m, memo)


def one_pass(I, fn, fid, h, body, st):
    st = st.copy()
    st.store.pop(CNT, None)
    outs = I.region(fn, fid, h, st, body, h, True)
    back = [o for o in outs if o.kind == 'edge' and o.val == h]
    for o in back:
        o.st.store.pop(CNT, None)
    rest = [o for o in outs if not (o.kind == 'edge' and o.val == h)]
    return back, rest


def unroll(I, fn, fid, h, body, st):
    """walk a loop whose trip count the abstract state decides"""
    done = []
    cur = [st]
    mixed = 0
    width = 0
    open_ = 0
    for n in range(UNROLL_PURE):
        nxt = []
        for c in cur:
            back, rest = one_pass(I, fn, fid, h, body, c)
            done.extend(rest)
            if not back:
                continue
            if any(o.kind == 'edge' for o in rest):
                # an undecided exit test: worth following only if the loop runs out soon
                open_ += 1
                if n >= UNROLL_OPEN:
                    return None
            if rest:
                mixed += 1
                if mixed > UNROLL_MIXED:
                    return None
            nxt.extend(o.st for o in back)
        if not nxt:
            return done
        width = max(width, len(nxt))
        if open_ and len(nxt) > UNROLL_OPEN:
            return None
        if len(nxt) > UNROLL_WIDTH or (width > 1 and n > UNROLL_DEEP):
            return None
        cur = nxt
    return None


class Phi:
    __slots__ = ('sym', 'kind', 'v0', 'dead')

    def __init__(self, sym, kind, v0):
        self.sym, self.kind, self.v0, self.dead = sym, kind, v0, False


class Loop:
    def __init__(self, I, fn, fid, h, body, st, J):
        self.I, self.fn, self.fid, self.h, self.body, self.st, self.J = I, fn, fid, h, body, st, J
        self.deltas = {}     # common increments -> shared phi
        self.phis = {}       # sym -> Phi
        self.tmpl = {}       # slot -> template term (over J and phi symbols)
        self.picks = False
        self.moduli = set()  # phis standing for a value before reduction

    # ------------------------------------------------------------ guessing
    def phi(self, kind, v0, ty=None):
        s = T('sym', fresh_id(), 'phi')
        self.phis[s] = Phi(s, kind, v0)
        if kind == 'lin':
            TM.INFO[s] = (None, None)
            return atom(s)
        if kind == 'bool':
            return batom(s)
        if kind == 'app':
            self.elty(s, v0)
            return seqs.cat(v0, seqs.whole(s))
        if kind == 'seq':
            self.elty(s, v0)
            return seqs.whole(s)
        if ty is not None:
            TM.TYP[s] = ty
        elif TM.TYP.get(v0) is not None:
            TM.TYP[s] = TM.TYP[v0]
        return s

    def elty(self, s, q):
        for p in q.args:
            if p.op == 'sub' and TM.ELTY.get(p.args[0]) is not None:
                TM.ELTY[s] = TM.ELTY[p.args[0]]
                return

    def generic(self, v0, ty=None):
        if v0.op == 'lin':
            return self.phi('lin', v0)
        if values.is_bool(v0):
            return self.phi('bool', v0)
        if v0.op == 'seq':
            return self.phi('seq', v0)
        if v0.op == 'agg' and (len(v0.args) > 2) and self.single_variant(v0):
            return T('agg', v0.args[0], v0.args[1], *[self.generic(x) for x in v0.args[2:]])
        if v0.op == 'sref':
            return sref(self.generic(v0.args[0]))
        if v0.op == 'uninit':
            return v0
        return self.phi('val', v0, ty)

    def single_variant(self, v):
        n = v.args[0]
        if n in ('tuple', 'box', 'ghostU', 'ghostP') or type(n) is tuple:
            return True
        for y in TY:
            if y.get('def') == n:
                return len(y.get('v') or ()) == 1
        return n.split('::')[-1] in ('Iter', 'IterMut', 'IntoIter', 'Range')

    def guess(self, v0, v1, ty=None):
        J = atom(self.J)
        if v0 is v1:
            return v0
        if v0.op == 'uninit' or v1.op == 'uninit':
            return T('uninit', ('loop', fresh_id()))
        if v0.op == 'lin' and v1.op == 'lin':
            d = const_of(sub(v1, v0))
            if d is not None:
                return add(v0, scale(J, d))
            return self.shifted(v0, v1)
        if v0.op == 'agg' and v1.op == 'agg' and v0.args[:2] == v1.args[:2] and len(v0.args) == len(v1.args):
            return T('agg', v0.args[0], v0.args[1], *[self.guess(a, b) for a, b in zip(v0.args[2:], v1.args[2:])])
        if v0.op == 'sref' and v1.op == 'sref':
            return sref(self.guess(v0.args[0], v1.args[0]))
        if v0.op == 'mref' and v1.op == 'mref' and v0.args[0] == v1.args[0] and len(v0.args[1]) == len(v1.args[1]):
            path = []
            for a, b in zip(v0.args[1], v1.args[1]):
                if a == b:
                    path.append(a)
                elif a[0] == 'i' and b[0] == 'i':
                    d = const_of(sub(b[1], a[1]))
                    if d is None:
                        return self.phi('val', v0, ty)
                    path.append(('i', add(a[1], scale(J, d))))
                else:
                    return self.phi('val', v0, ty)
            return T('mref', v0.args[0], tuple(path))
        if v0.op == 'seq' and v1.op == 'seq':
            return self.guess_seq(v0, v1)
        return self.generic(v0, ty)

    def shifted(self, v0, v1):
        """v0 plus an accumulated increment shared by all slots advancing alike"""
        d = sub(v1, v0)
        if not any(x.op in ('sym', 'unk') and len(x.args) == 3 and type(x.args[0]) is int and x.args[0] > self.base for x in subt(d)):
            return self.phi('lin', v0)
        if d not in self.deltas:
            self.deltas[d] = self.phi('lin', ZERO)
        return add(v0, self.deltas[d])

    def guess_seq(self, v0, v1):
        F = self.st.F
        J = atom(self.J)
        # something was appended
        if len(v1.args) >= len(v0.args):
            n0 = len(v0.args)
            if v1.args[:n0] == v0.args or (n0 and self.prefix(v0, v1)):
                return self.phi('app', v0)
            if n0 and len(v1.args) > n0:
                # put in front of, or among, what was there
                i = 0
                while i < n0 and v1.args[i] is v0.args[i]:
                    i += 1
                if v1.args[i - n0:] == v0.args[i:]:
                    return seqs.cat(self.phi('app', T('seq', *v0.args[:i])), T('seq', *v0.args[i:]))
        # the same parts with shifted bounds
        if len(v0.args) == len(v1.args):
            ps = []
            for p, q in zip(v0.args, v1.args):
                r = self.guess_part(p, q)
                if r is None:
                    ps = None
                    break
                ps.append(r)
            if ps is not None:
                return T('seq', *ps)
        # one head part disappeared while the next starts generalising is not
        # describable from a single step
        if len(v0.args) == len(v1.args) + 1 and v0.args[1:] == v1.args:
            return self.phi('seq', v0)
        return self.phi('seq', v0)

    def prefix(self, v0, v1):
        try:
            a, _ = seqs.cut(v1, seqs.length(v0), self.st.F)
        except NeedSplit:
            return False
        return a is v0

    def guess_part(self, p, q):
        J = atom(self.J)
        if p is q:
            return p
        if p.op != q.op:
            return None

        def g(a, b):
            d = const_of(sub(b, a))
            if d is None:
                x = self.shifted(a, b)
                return None if x.args[0] == 0 and len(x.args[1]) == 1 and a is not ZERO else x
            return add(a, scale(J, d))
        if p.op == 'sub' and p.args[0] is q.args[0]:
            a, b = g(p.args[1], q.args[1]), g(p.args[2], q.args[2])
            if a is not None and b is not None:
                return T('sub', p.args[0], a, b)
        if p.op == 'for' and p.args[0] == q.args[0] and p.args[3] is q.args[3]:
            a, b = g(p.args[1], q.args[1]), g(p.args[2], q.args[2])
            if a is not None and b is not None:
                return T('for', p.args[0], a, b, p.args[3])
        if p.op == 'rep' and p.args[0] is q.args[0]:
            a = g(p.args[1], q.args[1])
            if a is not None:
                return T('rep', p.args[0], a)
        if p.op == 'u':
            x = self.guess(p.args[0], q.args[0])
            return T('u', x)
        return None

    # ------------------------------------------------------------ matching
    def at(self, t, j):
        return ren(t, {self.J: j}, {})

    def match(self, t, v, F, rec):
        """does v equal template t at J+1?  Returns the (possibly weakened)
        template; phi recurrences are collected in rec"""
        if t.op == 'uninit':
            return t
        if not self.has_phi(t):
            want = self.at(t, add(atom(self.J), ONE))
            if want is v or F.subst(want) is F.subst(v):
                return t
            try:
                if F.ask(val_eq(want, v, F)) is True:
                    return t
            except NeedSplit:
                pass
            if t.op == 'agg' and v.op == 'agg' and t.args[:2] == v.args[:2] and len(t.args) == len(v.args):
                pass
            else:
                return None
        if t.op == 'lin':
            w = wrapped(t)
            if w is not None and v.op == 'lin':
                s = self.single_phi(w.args[0])
                if s is not None:
                    # equal up to a multiple of the modulus is enough
                    s, r = s
                    x = wrapped(v)
                    y = unwrapped(x.args[0] if x is not None and x.args[1] >= w.args[1] else v, w.args[1])
                    rec.setdefault(s, []).append((sub(y, self.at(r, add(atom(self.J), ONE))), F))
                    return t
            s = self.single_phi(t)
            if s is not None and v.op == 'lin':
                s, r = s
                rec.setdefault(s, []).append((sub(v, self.at(r, add(atom(self.J), ONE))), F))
                return t
            return None
        if t.op == 'b' and t.args[0] in self.phis:
            rec.setdefault(t.args[0], []).append((v, F))
            return t
        if t in self.phis:
            rec.setdefault(t, []).append((v, F))
            return t
        if t.op == 'agg':
            if v.op == 'agg' and t.args[:2] == v.args[:2] and len(t.args) == len(v.args):
                out = []
                for a, b in zip(t.args[2:], v.args[2:]):
                    r = self.match(a, b, F, rec)
                    out.append(r if r is not None else ('weak', a))
                if any(type(x) is tuple for x in out):
                    out = [self.weaken(x[1]) if type(x) is tuple else x for x in out]
                return T('agg', t.args[0], t.args[1], *out)
            return None
        if t.op == 'sref' and v.op == 'sref':
            r = self.match(t.args[0], v.args[0], F, rec)
            return sref(r if r is not None else self.weaken(t.args[0]))
        if t.op == 'seq' and v.op == 'seq':
            s = self.seq_phi(t)
            if s is not None:
                rec.setdefault(s, []).append((v, F))
                return t
            s, m = self.seq_front(t)
            if s is not None:
                if v.args[-m:] != t.args[-m:]:
                    return None
                rec.setdefault(s, []).append((T('seq', *v.args[:-m]), F))
                return t
            if len(t.args) == len(v.args):
                ok_ = True
                for p, q in zip(t.args, v.args):
                    if p.op == 'u' and q.op == 'u':
                        if self.match(p.args[0], q.args[0], F, rec) is not p.args[0]:
                            ok_ = False
                    elif not self.has_phi(p):
                        want = self.at(T('seq', p), add(atom(self.J), ONE))
                        if want is not T('seq', q) and F.ask(val_eq(want, T('seq', q), F)) is not True:
                            ok_ = False
                    elif p.op == 'sub' and q.op == 'sub' and p.args[0] is q.args[0]:
                        r1 = {}
                        if self.match(p.args[1], q.args[1], F, r1) is p.args[1] and \
                                self.match(p.args[2], q.args[2], F, r1) is p.args[2]:
                            for k_, vs in r1.items():
                                rec.setdefault(k_, []).extend(vs)
                        else:
                            ok_ = False
                    else:
                        ok_ = False
                if ok_:
                    return t
        return None

    def weaken(self, t):
        """a fresh unconstrained template in place of t"""
        z = self.at0(t)
        return self.generic(z)

    def at0(self, t):
        t = ren(t, {self.J: ZERO}, {})
        m2 = {}
        for s in list(self.phis):
            if s in subt(t):
                p = self.phis[s]
                if p.kind == 'app':
                    m2[s] = None
                else:
                    m2[s] = p.v0
        if m2:
            return self.plug(t, {s: (self.phis[s].v0 if self.phis[s].kind != 'app' else seqs.EMPTY) for s in m2})
        return t

    def plug(self, t, m):
        """replace phi symbols by values (kind-aware)"""
        return plug(t, m)

    def has_phi(self, t):
        st = subt(t)
        return any(s in st for s in self.phis)

    def single_phi(self, t):
        """(phi, rest) for a template phi + rest"""
        ps = [(a, k) for a, k in t.args[1] if a in self.phis]
        if len(ps) == 1 and ps[0][1] == 1:
            r = sub(t, atom(ps[0][0]))
            if not self.has_phi(r):
                return ps[0][0], r
        return None

    def seq_front(self, t):
        """the phi growing in front of a fixed rest"""
        for i, p in enumerate(t.args[:-1]):
            if p.op == 'sub' and p.args[0] in self.phis:
                s = p.args[0]
                rest = T('seq', *t.args[i + 1:])
                if self.phis[s].kind == 'app' and self.phis[s].v0 is T('seq', *t.args[:i]) and \
                        not self.has_phi(rest) and self.J not in subt(rest):
                    return s, len(rest.args)
                break
        return None, 0

    def seq_phi(self, t):
        if not t.args:
            return None
        p = t.args[-1]
        if p.op == 'sub' and p.args[0] in self.phis:
            s = p.args[0]
            k = self.phis[s].kind
            if k == 'seq' and len(t.args) == 1:
                return s
            if k == 'app' and T('seq', *t.args[:-1]) is self.phis[s].v0:
                return s
        return None


def wrapped(l):
    """the machine reduction a value consists of"""
    if l.args[0] == 0 and len(l.args[1]) == 1 and l.args[1][0][1] == 1 and l.args[1][0][0].op == 'wrap':
        return l.args[1][0][0]
    return None


def unwrapped(l, bits):
    r = I(l.args[0])
    for a, k in l.args[1]:
        r = add(r, scale(a.args[0] if a.op == 'wrap' and a.args[1] >= bits else atom(a), k))
    return r


def modular(L, s, vs):
    """the machine type an accumulator with no closed form is reduced to"""
    if L.phis[s].kind != 'lin':
        return None
    found = None
    for v, _ in vs:
        if v is atom(s):
            continue
        w = wrapped(v)
        if w is None or found not in (None, w.args[1:]):
            return None
        found = w.args[1:]
    return found


def plug(t, m):
    """substitute phi symbols: lin/bool atoms, sequence symbols and plain values"""
    lin_map = {}
    seq_map = {}
    for s, v in m.items():
        if v.op == 'seq':
            seq_map[s] = v
        elif values.is_bool(v):
            seq_map[s] = v
        elif v.op == 'lin':
            lin_map[s] = v
        else:
            seq_map[s] = v
    return _plug(t, lin_map, seq_map, {})


def _plug(t, lm, sm, memo):
    r = memo.get(t)
    if r is not None:
        return r
    st = subt(t)
    if not any(s in st for s in lm) and not any(s in st for s in sm):
        return t
    op = t.op
    if t in sm:
        return sm[t]
    if op == 'lin':
        r = I(t.args[0])
        for a, k in t.args[1]:
            v = lm.get(a)
            if v is None:
                v = _plug(a, lm, sm, memo)
                if v.op != 'lin':
                    v = atom(v)
            r = add(r, scale(v, k))
    elif op == 'b' and t.args[0] in sm and values.is_bool(sm[t.args[0]]):
        r = sm[t.args[0]]
    elif op == 'len' and t.args[0] in sm and sm[t.args[0]].op == 'seq':
        r = seqs.length(sm[t.args[0]])
    elif op == 'elt' and t.args[0] in sm and sm[t.args[0]].op == 'seq':
        q = sm[t.args[0]]
        i = _plug(t.args[1], lm, sm, memo)
        r = seqs.try_index(q, i)
        if r is None:
            s = seqs.opaque(q)
            r = seqs.elem(s, i)
    elif op == 'sub' and t.args[0] in sm and sm[t.args[0]].op == 'seq':
        q = sm[t.args[0]]
        lo = _plug(t.args[1], lm, sm, memo)
        hi = _plug(t.args[2], lm, sm, memo)
        if lo is ZERO and hi is seqs.length(q):
            r = q
        else:
            r = seqs.mk([T('sub', seqs.opaque(q), lo, hi)])
    else:
        from .facts import rebuild
        args = []
        for a in t.args:
            if type(a) is Term:
                args.append(_plug(a, lm, sm, memo))
            elif type(a) is tuple:
                args.append(tuple(_plug(x, lm, sm, memo) if type(x) is Term else
                                  tuple(_plug(y, lm, sm, memo) if type(y) is Term else y for y in x)
                                  if type(x) is tuple else x for x in a))
            else:
                args.append(a)
        r = rebuild(t, op, args)
    memo[t] = r
    return r


# -------------------------------------------------------------------- closing
def skolem(t, jid, J, idx):
    """value of the iteration-local term t in iteration idx"""
    m = {J: idx}
    for x in subt(t):
        if x.op in ('sym', 'unk') and type(x.args[0]) is int and x.args[0] > jid:
            k = T('sk', x, idx if idx.op != 'lin' else idx)
            for tab in (TM.INFO, TM.TYP, TM.ELTY, TM.LEN):
                if x in tab and k not in tab:
                    tab[k] = tab[x]
            m[x] = k
    return ren(t, m, {})


def ren(t, m, memo):
    r = memo.get(t)
    if r is not None:
        return r
    st = subt(t)
    if not any(s in st for s in m):
        return t
    if t in m:
        v = m[t]
        return v
    op = t.op
    if op == 'lin':
        r = I(t.args[0])
        for a, k in t.args[1]:
            v = ren(a, m, memo)
            r = add(r, scale(v if v.op == 'lin' else atom(v), k))
    else:
        from .facts import rebuild
        args = []
        for a in t.args:
            if type(a) is Term:
                args.append(ren(a, m, memo))
            elif type(a) is tuple:
                args.append(tuple(ren(x, m, memo) if type(x) is Term else
                                  tuple(ren(y, m, memo) if type(y) is Term else y for y in x)
                                  if type(x) is tuple else x for x in a))
            else:
                args.append(a)
        r = rebuild(t, op, args)
    memo[t] = r
    return r


def locals_of(t, jid):
    return any(x.op in ('sym', 'unk') and type(x.args[0]) is int and x.args[0] > jid for x in subt(t))


def bvfree(t):
    k = 0
    for x in subt(t):
        if x.op in ('for', 'S'):
            k = max(k, x.args[0] + 1)
        elif x.op == 'bv':
            k = max(k, x.args[0] + 1)
    return k


def close_lin(v0, d, J, jid):
    c = const_of(d)
    if c is not None:
        return add(v0, scale(atom(J), c))
    if J not in subt(d) and not locals_of(d, jid):
        return add(v0, mul(d, atom(J)))
    k = bvfree(d)
    body = skolem(d, jid, J, atom(seqs.bv(k)))
    return add(v0, seqs.bigsum(k, ZERO, atom(J), body))


def close_app(R, J, jid):
    k = bvfree(R)
    body = skolem(R, jid, J, atom(seqs.bv(k)))
    return seqs.mk([T("for", k, ZERO, atom(J), body)])


# -------------------------------------------------------------------- driver
def changed_slots(st, backs):
    out = {}
    for o in backs:
        for s, v in o.st.store.items():
            v0 = st.store.get(s)
            if v0 is None:
                continue
            if v0 is not v:
                out[s] = True
    return list(out)


def ghostify(st, backs):
    """an opaque value that the body treats as an abstract target or parser is
    one from the start"""
    from . import hooks as H
    new = None
    for o in backs:
        for s, v in o.st.store.items():
            v0 = st.store.get(s)
            if v0 is None or v.op != 'agg' or v.args[0] not in (H.GU, H.GP) or v0.op in ('agg', 'seq'):
                continue
            if new is None:
                new = st.copy()
            new.store[s] = H.as_ghost_u(v0) if v.args[0] == H.GU else H.as_ghost_p(v0)
    return new or st


def slot_type(fn, fid, s):
    if s[0] == fid:
        return fn.locals[s[1]]
    return None


def induct(I, fn, fid, h, body, st, peeled):
    from .interp import Out, State, newfacts
    snap0 = I.snapshot()
    snap_id = fresh_id()
    entry = st
    backs0, rest0 = one_pass(I, fn, fid, h, body, st)
    if not backs0:
        return rest0
    snap1 = I.snapshot()
    if peeled < 2 and len(backs0) <= 2 and all(odd_first(st, o.st) for o in backs0):
        outs = list(rest0)
        for o in backs0:
            outs.extend(summarise(I, fn, fid, h, body, o.st, peeled + 1))
        return outs
    st = ghostify(st, backs0)
    jid = fresh_id()
    J = T('sym', jid, 'J')
    TM.INFO[J] = (0, None)
    L = Loop(I, fn, fid, h, body, st, J)
    L.base = snap_id
    slots = changed_slots(st, backs0)
    for s in slots:
        v0 = st.store[s]
        ty = slot_type(fn, fid, s)
        cands = [L.guess(st.F.subst(v0), o.st.F.subst(o.st.store[s]), ty) for o in backs0 if s in o.st.store]
        g = cands[0]
        if any(c is not g for c in cands[1:]):
            a = g if not L.has_phi(g) else None
            if a is None and v0.op == 'seq' and all(L.seq_phi(c) is not None and L.phis[L.seq_phi(c)].kind == 'app' for c in cands):
                g = cands[0]
            elif not all(c is g for c in cands):
                g = merge_t(L, v0, cands, ty)
        L.tmpl[s] = g
    for s in st.store:
        if any(s not in o.st.store for o in backs0) and s not in L.tmpl:
            L.tmpl[s] = T('uninit', s)
    invs = []
    cand_done = False
    spec = 0
    for rnd in range(14):
        H = State(dict(st.store), st.F, st.trail)
        for s, t in L.tmpl.items():
            if t.op == 'uninit':
                H.store.pop(s, None)
            else:
                H.store[s] = t
        # structural candidates: ranges are not inverted
        if rnd == 0:
            invs = [c for c in shape_cands(L) if holds_at_entry(L, st, c)]
        states = [H]
        for c in invs:
            states = [y for x in states for y in x.assume(c)]
        if len(states) != 1:
            if not states:
                I.restore(snap1)
                return rest0
            return give_up(I, fn, fid, h, body, entry, snap0, 'case-split invariant')
        H = states[0]
        I.restore(snap0)
        backs, rest = one_pass(I, fn, fid, h, body, H)
        localise(backs, jid, J)
        if L.picks:
            for o in backs:
                define_picks(L, o, jid)
        # ---- slots
        new_t = {}
        rec = {}
        weak = False
        for o in backs:
            for s in o.st.store:
                if s not in L.tmpl:
                    v0 = st.store.get(s)
                    if v0 is not None and o.st.store[s] is not H.store.get(s):
                        L.tmpl[s] = L.generic(v0, slot_type(fn, fid, s))
                        weak = True
        if not weak and L.phis and len(backs) > 1 and spec < 4:
            # let the iterations that fit the description determine its
            # recurrences before giving up on those that do not
            fit, misfit = {}, False
            for o in backs:
                r1 = {}
                if all(t.op == 'uninit' or (s in o.st.store and
                                            L.match(t, o.st.F.subst(o.st.store[s]), o.st.F, r1) is t)
                       for s, t in L.tmpl.items()):
                    for s, vs in r1.items():
                        fit.setdefault(s, []).extend(vs)
                else:
                    misfit = True
            if misfit and fit:
                spec += 1
                sol = {}
                for s, p in L.phis.items():
                    if s in fit:
                        r = solve(L, p, fit[s], jid)
                        if r is not None:
                            sol[s] = r
                if sol:
                    for s in list(L.tmpl):
                        L.tmpl[s] = plug(L.tmpl[s], sol)
                    invs = [c for c in shape_cands(L) if holds_at_entry(L, st, c)]
                    for s in sol:
                        L.phis.pop(s, None)
                    continue
        for s, t in list(L.tmpl.items()):
            for o in backs:
                if t.op == 'uninit':
                    break
                v = o.st.store.get(s)
                if v is None:
                    L.tmpl[s] = t = T('uninit', s)
                    weak = True
                    break
                v = o.st.F.subst(v)
                m = L.match(t, v, o.st.F, rec)
                if m is None:
                    L.tmpl[s] = t = L.weaken_typed(t, slot_type(fn, fid, s))
                    weak = True
                elif m is not t:
                    L.tmpl[s] = t = m
                    weak = True
        if weak:
            continue
        # ---- invariants
        drop = [c for c in invs if not all(o.st.F.ask(L.at(c, add(atom(J), ONE))) is True for o in backs)] if not rec else []
        # ---- recurrences
        sol = {}
        stuck = []
        for s, p in L.phis.items():
            if p.dead or s not in rec:
                continue
            r = solve(L, p, rec[s], jid)
            if r is None:
                stuck.append(s)
            else:
                sol[s] = r
        if sol:
            # substitute in dependency order: solutions mention no phi
            for s in list(L.tmpl):
                L.tmpl[s] = plug(L.tmpl[s], sol)
            invs = [c for c in shape_cands(L) if holds_at_entry(L, st, c)]
            for s in sol:
                L.phis.pop(s, None)
            continue
        if stuck and peeled < 2 and len(backs0) <= 3 and any(settles(L, L.phis[s], rec[s]) for s in stuck):
            outs = list(rest0)
            I.restore(snap1)
            for o in backs0:
                outs.extend(summarise(I, fn, fid, h, body, o.st, peeled + 1))
            return outs
        if drop:
            invs = [c for c in invs if c not in drop]
            continue
        if not cand_done:
            cand_done = True
            extra = guard_cands(L, st, H, backs, jid)
            extra = [c for c in extra if c not in invs]
            extra += phi_cands(L, stuck, st)
            if extra:
                invs = invs + extra
                continue
        bad = [c for c in invs if not all(o.st.F.ask(next_inv(L, c, o, rec)) is True for o in backs)]
        if bad:
            invs = [c for c in invs if c not in bad]
            continue
        mods = {}
        for s in stuck:
            w = modular(L, s, rec[s]) if s not in L.moduli else None
            if w is not None:
                x = L.phi('lin', L.phis[s].v0)
                L.moduli.add(single(x))
                mods[s] = ints.wrap(x, *w)
        if mods:
            for s in list(L.tmpl):
                L.tmpl[s] = plug(L.tmpl[s], mods)
            for s in mods:
                L.phis.pop(s, None)
            invs = [c for c in shape_cands(L) if holds_at_entry(L, st, c)]
            cand_done = False
            continue
        if stuck:
            # no closed form: these become unknown values, and the pass is
            # judged once more with them
            m = {s: taint(s, L.phis[s]) for s in stuck}
            kinds = [L.phis[s].kind for s in stuck]
            memo = {}
            H2 = State({k: ren(v, m, memo) for k, v in H.store.items()}, None, H.trail)
            H2.F = ren_facts(H.F, m, memo)
            I.restore(snap0)
            for k in kinds:
                I.loop_fail.append((fn.j['def'], h, k))
            _, outs = one_pass(I, fn, fid, h, body, H2)
            return outs + first_passes(I, fn, fid, h, body, entry)
        record_passes(rest, H, backs, jid, J)
        for o in rest:
            o.st.store[('stop',)] = atom(J)
        return rest
    return give_up(I, fn, fid, h, body, entry, snap0, 'no fixpoint')


def odd_first(st, st2):
    """this pass consumed the single element in front of, or behind, a regular run"""
    def walk(a, b):
        if a is b:
            return False
        if a.op == 'seq' and b.op == 'seq':
            ps = a.args
            return len(ps) > 1 and (ps[0].op == 'u' and ps[1].op in ('for', 'rep') and b.args == ps[1:] or
                                    ps[-1].op == 'u' and ps[-2].op in ('for', 'rep') and b.args == ps[:-1])
        if a.op == b.op and a.op in ('agg', 'sref') and len(a.args) == len(b.args):
            return any(walk(x, y) for x, y in zip(a.args, b.args) if type(x) is Term and type(y) is Term)
        return False
    return any(walk(st.F.subst(v), st2.F.subst(st2.store[s])) for s, v in st.store.items()
               if s in st2.store and st2.store[s] is not v)


def record_passes(rest, H, backs, jid, J):
    """what each completed pass I < J has established, for use at an index
    named by the specification"""
    from .interp import newfacts
    alts = []
    whole = True
    for o in backs:
        c = TRUE
        for b in newfacts(o.st.F, H.F):
            if not any(x.op in ('sym', 'unk', 'phi') and x is not J and type(x.args[0]) is int and x.args[0] > jid for x in subt(b)):
                c = band(c, b)
            else:
                whole = False
        alts.append(c)
    c = FALSE
    for x in alts:
        c = bor(c, x)
    if c is TRUE:
        return
    for o in rest:
        o.st.store[('each', jid)] = T('each', J, c, whole)


def instantiate(st, j):
    """states in which every recorded pass is taken at index j"""
    states = [st]
    used = False
    for k, v in list(st.store.items()):
        if k[0] != 'each':
            continue
        J, c, whole = v.args
        if not st.F.ask(le0(add(sub(j, tolin_(J)), ONE))) or not st.F.ask(le0(scale(j, -1))):
            continue
        b = ren(c, {J: j}, {})
        used = used or whole
        if whole:
            old = st.store.get(('at', k[1]))
            st.store[('at', k[1])] = T('at', j, *(old.args if old is not None else ()))
        states = [y for x in states for y in x.assume(b)]
    if not used:
        for x in states:
            # less may be known here than the code establishes
            old = x.store.get(('vague',))
            x.store[('vague',)] = T('vague', j, *(old.args if old is not None else ()))
    return states


def elements_of(t):
    return [x for x in subt(t) if x.op == 'elt']


def overlooked(st, b):
    """may a recorded pass say more about the elements b mentions than was
    used? -- not when it never reaches them"""
    F = st.F
    want = elements_of(b)
    if any(x.op in ('app', 'pick', 'sk', 'bv', 'frombe') for x in subt(b)):
        return True
    for k, v in st.store.items():
        if k[0] != 'each':
            continue
        J, c, whole = v.args
        for y in elements_of(c):
            q = y.args[1]
            al = dict(q.args[1]).get(J, 0) if q.op == 'lin' else 0
            for x in want:
                if x.args[0] is not y.args[0]:
                    continue
                if q.op != 'lin' or any(J in subt(a) for a, _ in q.args[1] if a is not J):
                    return True
                p = x.args[1]
                lo = F.subst(ren(q, {J: ZERO}, {}))
                hi = F.subst(ren(q, {J: sub(tolin_(J), ONE)}, {}))
                if al < 0:
                    lo, hi = hi, lo
                p = p if p.op == 'lin' else atom(p)
                if F.ask(le0(add(sub(p, lo), ONE))) is True or F.ask(le0(add(sub(hi, p), ONE))) is True:
                    continue
                return True
    return False


def picks_of(st, b):
    """loop-chosen elements an obligation depends on: indices per loop, and
    whether one of them is not at a definite index"""
    found = {}
    loose = False
    F = st.F
    ts = [b] + list(F.ins) + list(F.neq) + list(F.bools)
    for a, v in F.eqs.items():
        ts += [a, v]
    for t in ts:
        if t.op in ('lin', 'le0', 'eq0', 'b', 'not', 'and', 'or', 'pick') or t.args:
            for x in subt(t):
                if x.op == 'pick':
                    if any(y.op == 'bv' for y in subt(x)):
                        loose = True
                    else:
                        found.setdefault(x.args[0], set()).add(x.args[3])
    return found, loose


def settle_picks(st, b):
    """states in which what the loops established about every element the
    obligation mentions is taken into account; None when it cannot be"""
    found, loose = picks_of(st, b)
    if loose:
        return None
    states = [st]
    for jid in sorted(found):
        v = st.store.get(('each', jid))
        if v is None or not v.args[2]:
            return None
        J, c, whole = v.args
        for j in sorted(found[jid], key=lambda t: t.id):
            if st.store.get(('at', jid)) is not None and j in st.store[('at', jid)].args:
                continue
            if st.F.ask(le0(add(sub(j, tolin_(J)), ONE))) is not True or st.F.ask(le0(scale(j, -1))) is not True:
                return None
            states = [y for x in states for y in x.assume(ren(c, {J: j}, {}))]
    return [s for s in states if s.F.consistent()]


def refine(s, b):
    """states left of s once what every recorded pass established is used at
    the indices the obligation suggests; None where nothing can be said"""
    keys = [k for k in s.store if k[0] == 'each']
    if not keys:
        return [s]
    states = [s]
    known = set()
    F = s.F
    for t in [b] + list(F.ins) + list(F.neq) + list(F.bools) + [x for e in F.eqs.items() for x in e]:
        known.update(x for x in subt(t) if x.op not in ('lin', 'sym', 'arg', 'cparam'))
    todo = []
    for k in keys:
        J, c, whole = s.store[k].args
        cands = [ZERO, sub(tolin_(J), ONE)]
        for x in subt(b):
            if x.op == 'lin' and len(x.args[1]) <= 2 and x is not ZERO:
                cands.append(x)
                cands += [atom(a) for a, _ in x.args[1]]
        for l in list(s.F.neq) + [le_ for le_ in s.F.ins if len(le_.args[1]) <= 2]:
            cands += [atom(a) for a, _ in l.args[1] if a.op in ('sym', 'cparam', 'len')]
        own = [x for x in subt(c) if x.op not in ('lin', 'sym', 'le0', 'eq0', 'b', 'not', 'and', 'or') and J in subt(x)]
        seen = set()
        for j in cands[:24]:
            j = s.F.subst(j)
            if j in seen or j.unk or any(x.op == 'bv' for x in subt(j)):
                continue
            seen.add(j)
            if s.F.ask(le0(add(sub(j, tolin_(J)), ONE))) is not True or s.F.ask(le0(scale(j, -1))) is not True:
                continue
            near = not own or any(s.F.subst(ren(x, {J: j}, {})) in known for x in own)
            todo.append((0 if near else 1, len(todo), J, c, j))
    t0 = time.time()
    for far, _, J, c, j in sorted(todo, key=lambda t: t[:2]):
        # what mentions nothing in sight is tried while it is cheap
        if far and (time.time() - t0 > 1 or len(states) > 8):
            break
        e = ren(c, {J: j}, {})
        nxt = [y for x in states for y in x.assume(e)]
        if far and len(nxt) > 24:
            break
        states = [x for x in nxt if x.F.consistent()]
        if not states or len(states) > 24:
            break
    return states


def tolin_(t):
    return t if t.op == 'lin' else atom(t)


def merge_t(L, v0, cands, ty):
    """one description for what several iterations suggest; a closed form
    suggested by any of them is tried first, since the others may be its
    special cases"""
    c0 = cands[0]
    if all(c is c0 for c in cands):
        return c0
    for c in cands:
        if c is not v0 and c.op != 'uninit' and not L.has_phi(c):
            return c
    if all(c.op == v0.op == 'sref' for c in cands):
        return sref(merge_t(L, v0.args[0], [c.args[0] for c in cands], None))
    if v0.op == 'agg' and all(c.op == 'agg' and c.args[:2] == v0.args[:2] and len(c.args) == len(v0.args) for c in cands):
        return T('agg', v0.args[0], v0.args[1], *[merge_t(L, v0.args[i], [c.args[i] for c in cands], None)
                                                  for i in range(2, len(v0.args))])
    if v0.op == 'seq' and v0.args and all(c.op == 'seq' and len(c.args) == len(v0.args) and
                                          all(p is q or p.op == q.op == 'u' for p, q in zip(c.args, v0.args)) for c in cands):
        return T('seq', *[p if p.op != 'u' else T('u', merge_t(L, p.args[0], [c.args[i].args[0] for c in cands], None))
                          for i, p in enumerate(v0.args)])
    return L.generic(v0, ty)


def _weaken_typed(self, t, ty):
    z = self.at0(t)
    return self.generic(z, ty)


Loop.weaken_typed = _weaken_typed


def next_inv(L, c, o, rec):
    """c with J+1 and the phi values at the end of the iteration"""
    m = {}
    for s, vs in rec.items():
        for v, F in vs:
            if F is o.st.F:
                p = L.phis.get(s)
                if p is not None and p.kind == 'lin':
                    m[s] = v
                elif p is not None and p.kind == 'seq':
                    m[s] = v
                elif p is not None and p.kind == 'app':
                    try:
                        m[s] = seqs.cut(v, seqs.length(p.v0), F)[1]
                    except NeedSplit:
                        pass
    c = L.at(c, add(atom(L.J), ONE))
    return plug(c, m) if m else c


def solve(L, p, vs, jid):
    """closed form of a phi from its recurrence, or None"""
    J = L.J
    if p.kind == 'lin':
        d = None
        for v, F in vs:
            x = sub(v, atom(p.sym))
            if L.has_phi(x):
                return None
            if d is None:
                d = x
            elif d is not x:
                return None
        return close_lin(p.v0, d, J, jid)
    if p.kind == 'app':
        head = seqs.cat(p.v0, seqs.whole(p.sym))
        n = len(head.args)
        xs = []
        for v, F in vs:
            if v.args[:n] == head.args:
                x = T('seq', *v.args[n:])
            elif F.ask(le(seqs.slen(p.sym), ZERO)) is True:
                try:        # nothing appended so far
                    a, x = seqs.cut(v, seqs.length(p.v0), F)
                except NeedSplit:
                    return None
                if a is not p.v0:
                    return None
            else:
                return None
            if L.has_phi(x):
                return None
            xs.append((x, F))
        # paths that are special cases of another one are described by it
        for R, _ in xs:
            if all(x is R or seqs.norm(x, F) is seqs.norm(R, F) for x, F in xs):
                break
        else:
            R = chosen(L, p, [x for x, _ in xs], jid)
            if R is None:
                return None
            L.picks = True
        return close_app(R, J, jid)
    if p.kind == 'seq':
        r = pointwise(L, p, vs, jid)
        if r is not None:
            return r
        r = appended(L, p, vs, jid)
        if r is not None:
            return r
        # consumption of the front: phi' = phi[d..]
        d = None
        for v, F in vs:
            if len(v.args) == 1 and v.args[0].op == 'sub' and v.args[0].args[0] is p.sym and \
                    v.args[0].args[2] is seqs.slen(p.sym):
                x = v.args[0].args[1]
            else:
                return None
            if L.has_phi(x) or (d is not None and d is not x):
                return None
            d = x
        off = close_lin(ZERO, d, J, jid)
        s = seqs.opaque(p.v0)
        return T('seq', T('sub', s, off, seqs.length(p.v0)))
    if p.kind in ('val', 'bool'):
        v, F = vs[0]
        if all(x is v for x, _ in vs) and v is p.v0:
            return v
    return None


def appended(L, p, vs, jid):
    """every pass appends the same function of J"""
    h = T('sub', p.sym, ZERO, seqs.slen(p.sym))
    for v, F in vs:
        if len(v.args) > 1 and v.args[0] is h:
            break
    else:
        return None
    if not all(x is v or seqs.norm(x, F) is seqs.norm(v, F) for x, F in vs):
        return None
    R = T('seq', *v.args[1:])
    if L.has_phi(R):
        return None
    return seqs.cat(p.v0, close_app(R, L.J, jid))


def pointwise(L, p, vs, jid):
    """pass J replaces element J by a function of that element alone"""
    J = L.J
    n = seqs.length(p.v0)
    for v, F in vs:
        ps = v.args
        if len(ps) == 3 and ps[0] is T('sub', p.sym, ZERO, atom(J)) and ps[1].op == 'u' and ps[2].op == 'sub' and \
                ps[2].args[0] is p.sym and ps[2].args[1] is add(atom(J), ONE):
            break
    else:
        return None
    if not all(x is v or seqs.norm(x, F) is seqs.norm(v, F) for x, F in vs):
        return None
    s = seqs.opaque(p.v0)
    e = T('elt', p.sym, atom(J))
    g = ren(seqs.mk([T('u', ps[1].args[0])]), {e: seqs.elem(s, atom(J))}, {})
    if L.has_phi(g) or locals_of(g, jid) or len(g.args) != 1:
        return None
    k = bvfree(g)
    body = ren(g, {J: atom(seqs.bv(k))}, {})
    return seqs.mk([T('for', k, ZERO, atom(J), body), T('sub', s, atom(J), n)])


def chosen(L, p, xs, jid):
    """what pass J appends when that depends on the path taken: as many
    elements on every path, each a function of J"""
    n = len(xs[0].args)
    if n == 0 or any(len(x.args) != n or any(y.op != 'u' for y in x.args) for x in xs):
        return None
    out = []
    for i in range(n):
        vs = [x.args[i].args[0] for x in xs]
        if all(v is vs[0] for v in vs) and not locals_of(vs[0], jid):
            out.append(T('u', vs[0]))
        elif all(v.op == 'lin' for v in vs):
            t = T('pick', jid, p.sym.args[0], i, atom(L.J))
            rs = [ints_interval(v) for v in vs]
            lo = [r[0] for r in rs]
            hi = [r[1] for r in rs]
            TM.INFO[t] = (None if None in lo else min(lo), None if None in hi else max(hi))
            if TM.ELTY.get(p.sym) is not None:
                ty = TY[TM.ELTY[p.sym]]
                if ty['k'] in ('uint', 'int'):
                    r = values.int_range(ty)
                    TM.INFO[t] = (max(x for x in (TM.INFO[t][0], r[0]) if x is not None),
                                  min(x for x in (TM.INFO[t][1], r[1]) if x is not None))
            out.append(T('u', atom(t)))
        else:
            return None
    return T('seq', *out)


def ints_interval(v):
    from . import ints
    return ints.interval(v)


def define_picks(L, o, jid):
    """equate this pass's elements with the functions of J that name them"""
    todo = []

    def walk(t, v):
        if t.op == 'seq' and v.op == 'seq' and t.args and t.args[-1].op == 'for' and \
                any(x.op == 'pick' and x.args[0] == jid for x in subt(t.args[-1])):
            n = len(t.args)
            tail = v.args[n:]
            k, lo, hi, body = t.args[-1].args
            want = seqs.inst(body, k, atom(L.J))
            if v.args[:n] == t.args and len(tail) == len(want.args) and all(x.op == 'u' for x in tail):
                for a, b in zip(want.args, tail):
                    if a.args[0] is not b.args[0] and a.args[0].op == 'lin' and b.args[0].op == 'lin':
                        todo.append(eqi(a.args[0], b.args[0]))
        elif t.op == v.op and t.op in ('agg', 'sref') and len(t.args) == len(v.args):
            for a, b in zip(t.args, v.args):
                if type(a) is Term and type(b) is Term:
                    walk(a, b)
    for s, t in L.tmpl.items():
        if s in o.st.store and t.op != 'uninit':
            walk(t, o.st.store[s])
    for b in todo:
        r = o.st.assume(b)
        if len(r) != 1:
            return
        o.st = r[0]


def settles(L, p, vs):
    """the recurrence takes one value from the first iteration on"""
    if p.kind not in ('val', 'bool', 'lin'):
        return False
    v, F = vs[0]
    return all(x is v for x, _ in vs) and not L.has_phi(v) and L.J not in subt(v)


def taint(s, p):
    t = T('unk', fresh_id(), 'loop')
    for tab in (TM.INFO, TM.TYP, TM.ELTY, TM.LEN):
        if s in tab:
            tab[t] = tab[s]
    return t


def taint_out(o, m):
    from .interp import Out, State
    memo = {}
    st = State({k: ren(v, m, memo) for k, v in o.st.store.items()}, None, o.st.trail)
    st.F = ren_facts(o.st.F, m, memo)
    v = o.val
    if type(v) is Term:
        v = ren(v, m, memo)
    return Out(o.kind, st, v, o.info)


def ren_facts(F, m, memo):
    f = Facts()
    f.eqs = {}
    for a, v in F.eqs.items():
        a2 = ren(a, m, memo)
        f.eqs[a2] = ren(v, m, memo)
    f.ins = tuple(ren(c, m, memo) for c in F.ins)
    f.neq = tuple(ren(c, m, memo) for c in F.neq)
    f.bools = {ren(b, m, memo): v for b, v in F.bools.items()}
    f.imp = tuple((ren(a, m, memo), ren(b, m, memo)) for a, b in F.imp)
    return f


def shape_cands(L):
    out = []
    seen = set()
    for s, t in L.tmpl.items():
        if t.op == 'uninit':
            continue
        for x in subt(t):
            c = None
            if x.op == 'sub' or x.op == 'for':
                lo, hi = (x.args[1], x.args[2])
                c = le(lo, hi)
            elif x.op == 'rep':
                c = le(ZERO, x.args[1])
            elif x.op == 'agg' and isinstance(x.args[0], str) and x.args[0].split('::')[-1] == 'Range' and \
                    x.args[2].op == 'lin' and x.args[3].op == 'lin':
                c = le(x.args[2], x.args[3])
            elif x.op == 'agg' and isinstance(x.args[0], str) and x.args[0].endswith('IterMut') and len(x.args) == 5 and x.args[3].op == 'lin':
                c = le(x.args[3], x.args[4])
            elif x.op == 'lin' and x.args[1] and (x is t or t.op == 'agg') and countdown(L, x):
                c = le(ZERO, x)
            if c is not None and c is not TRUE and c not in seen and any(b.op == 'bv' for b in subt(c)) is False:
                seen.add(c)
                out.append(c)
    return out


def countdown(L, x):
    return any((a is L.J and type(k) is int and k < 0) or (a in L.phis and len(x.args[1]) == 1 and k == 1) for a, k in x.args[1])


def holds_at_entry(L, st, c):
    z = L.at0(c)
    return st.F.ask(z) is True


def guard_cands(L, st, H, backs, jid):
    """facts established by every iteration, shifted to the next header"""
    from .interp import newfacts
    out = []
    if not backs:
        return out
    J = L.J
    for b in newfacts(backs[0].st.F, H.F):
        if locals_of(b, jid + 0) and not only_phi(L, b, jid):
            continue
        if L.has_phi(b) or J not in subt(b):
            continue
        if not all(o.st.F.ask(b) is True for o in backs[1:]):
            continue
        if b.op == 'not' and b.args[0].op == 'eq0':
            # passing only while J differs from a bound keeps J on its side
            x = b.args[0].args[0]
            if abs(dict(x.args[1]).get(J, 0)) == 1:
                for c in (le0(x), le0(scale(x, -1))):
                    if holds_at_entry(L, st, c):
                        out.append(c)
            continue
        c = L.at(b, sub(atom(J), ONE))
        if c.op in ('le0', 'eq0') and holds_at_entry(L, st, c):
            out.append(c)
    return out[:12]


def only_phi(L, b, jid):
    return all(x in L.phis or not (x.op in ('sym', 'unk') and type(x.args[0]) is int and x.args[0] > jid) for x in subt(b))


def phi_cands(L, stuck, st):
    out = []
    for s in stuck:
        p = L.phis[s]
        if p.kind == 'lin':
            out.append(le(p.v0, atom(s)))
            out.append(le(atom(s), p.v0))
            if st.F.ask(le(ZERO, p.v0)) is True:
                out.append(le(ZERO, atom(s)))
            for c in st.F.ins:
                # bounds known for the initial value
                vs = dict(c.args[1])
                if len(p.v0.args[1]) == 1 and p.v0.args[1][0][0] in vs:
                    a, k = p.v0.args[1][0]
                    if k == 1:
                        kk = vs[a]
                        r = add(sub(c, scale(p.v0, kk)), scale(atom(s), kk))
                        out.append(le0(r))
        elif p.kind in ('seq', 'app'):
            n = seqs.length(p.v0) if p.kind == 'seq' else ZERO
            out.append(le(seqs.slen(s), n))
            out.append(le(n, seqs.slen(s)))
    return [c for c in out if c not in (TRUE, FALSE)]


def give_up(I, fn, fid, h, body, entry, snap, why):
    """no summary: the runs of a few passes are judged, the others are not"""
    I.restore(snap)
    I.loop_fail.append((fn.j['def'], h, why))
    o = I.hooks.obl('every run of a loop')
    o.und += 1
    o.details.append(('undecided', 'loop in %s: %s' % (fn.j['def'], why), []))
    return first_passes(I, fn, fid, h, body, entry)
