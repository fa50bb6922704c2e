"""Specification points and contracts.

* `witness::vp::*` calls are obligations / assumptions of the specification.
* Methods of the library's own traits on a *type parameter* are given their
  contract: an abstract Target is a byte sequence, an abstract Parser a byte
  sequence with a stack of windows, `T: Encode` emits the bytes enc(x),
  `T: Decode` either rejects, or reads some bytes, and recovers x from enc(x).
"""
from .terms import *
from . import terms as TM
from . import seqs, values, ints
from .seqs import NeedSplit, length, cat, mk, EMPTY
from .values import TY, canon, val_eq, UNIT
from .interp import Out, Undecided
from . import loops

GU = 'ghostU'
GP = 'ghostP'


def as_ghost_u(v):
    if v.op == 'agg' and v.args[0] == GU:
        return v
    if v.op == 'seq':
        return agg(GU, 0, v)
    s = T('ghostbytes', v)
    TM.ELTY.setdefault(s, values.U8())
    return agg(GU, 0, seqs.whole(s))


def as_ghost_p(v):
    if v.op == 'agg' and v.args[0] == GP:
        return v
    rest = T('gp_rest', v)
    TM.ELTY.setdefault(rest, values.U8())
    off = T('gp_off', v)
    TM.INFO.setdefault(off, (0, seqs.MAXLEN))
    rem = T('gp_rem', v)
    TM.INFO.setdefault(rem, (0, seqs.MAXLEN))
    if rem not in TM.AXIOMS:
        TM.AXIOMS[rem] = (sub(atom(rem), seqs.slen(rest)),)
    stack = T('gp_stack', v)
    TM.ELTY.setdefault(stack, values.ty_by_name('usize'))
    return agg(GP, 0, seqs.whole(rest), atom(off), add(atom(off), atom(rem)), seqs.whole(stack))


class NeedCase(Exception):
    def __init__(self, ty):
        self.ty = ty


class SkipCase(Exception):
    pass


class Obl:
    __slots__ = ('key', 'ok', 'bad', 'und', 'paths', 'details')

    def __init__(self, key):
        self.key = key
        self.ok = self.bad = self.und = 0
        self.details = []


class Hooks:
    def __init__(self, root, known):
        self.root = root
        self.known = known          # type name -> None | lin
        self.obls = {}
        self.reached = {}
        self.assumed = 0
        self.big_ok = False
        self.stopped = None

    def snapshot(self):
        return ({k: (o.ok, o.bad, o.und, len(o.details)) for k, o in self.obls.items()}, dict(self.reached))

    def restore(self, snap):
        for k in list(self.obls):
            if k not in snap[0]:
                del self.obls[k]
            else:
                o = self.obls[k]
                o.ok, o.bad, o.und, n = snap[0][k]
                del o.details[n:]
        self.reached = dict(snap[1])

    def cutting(self, st, q, k, n=0):
        """split q at position k in every way the state allows"""
        try:
            q = seqs.norm(q, st.F)
            if q.args and q.args[0].op == 'sub' and st.F.ent_le(sub(k, seqs.plen(q.args[0]))):
                # within the first piece: no need to know whether all of it
                a, r = seqs.cut_part(q.args[0], st.F.subst(k), st.F)
                return [(st, a, mk([r] + list(q.args[1:])))]
            a, r = seqs.cut(q, k, st.F)
            return [(st, a, r)]
        except NeedSplit as e:
            if n > 8:
                raise Undecided('cut of a parsed prefix')
            return [x for s in st.assume(e.cond) + st.assume(bnot(e.cond)) for x in self.cutting(s, q, k, n + 1)]

    # ------------------------------------------------------------ obligations
    def obl(self, oid):
        o = self.obls.get(oid)
        if o is None:
            o = self.obls[oid] = Obl(oid)
        return o

    def check(self, I_, st, oid, b, stuck=()):
        o = self.obl(oid)
        b = st.F.subst(b)
        r = st.F.ask(b)
        if r is True:
            o.ok += 1
            return
        if r is None:
            neg = st.assume(bnot(b))
            neg = [s for s in neg if s.F.consistent()]
            if not neg:
                o.ok += 1
                return
        else:
            neg = [st]
            if not st.F.consistent():
                o.ok += 1
                return
        if o.bad >= 3:
            o.und += 1          # further paths to the same obligation add nothing
            return
        neg2 = []
        for s in neg:
            r = loops.settle_picks(s, b)
            if r is None:
                neg2.append(part(st, b) or apart(s, stuck) or (s, False))
            else:
                neg2 += [(y, True) for x in r for y in loops.refine(x, b)]
        if not neg2:
            o.ok += 1
            return
        for s, definite in neg2:
            if definite and not tainted_state(s, b):
                break
        else:
            o.und += 1
            o.details.append(('undecided', show(b)[:600], trail(I_, s)))
            return
        o.bad += 1
        o.details.append(('violated', show(b)[:1500], trail(I_, s), s.F.describe()[:3000]))

    # ------------------------------------------------------------ dispatch
    def call(self, I_, st, c, args, dty, span, atys):
        d = c['def']
        if d.startswith('witness::vp::'):
            return self.vp(I_, st, d[13:], c, args, dty)
        if c.get('trait', '').startswith('tedium::') or c.get('rk') == 'unresolved':
            return self.trait_call(I_, st, c, args, dty, span)
        return None

    def strval(self, I_, st, a):
        v = I_.read_ref(st, a)
        return ''.join(chr(const_of(seqs.index(v, I(i), st.F))) for i in range(const_of(length(v))))

    def vp(self, I_, st, name, c, args, dty):
        ret = lambda v=UNIT, s=st: [Out('ret', s, v)]
        if name == 'holds':
            self.check(I_, st, self.strval(I_, st, args[0]), args[1])
            return ret()
        if name == 'same':
            a = I_.read_ref(st, args[1])
            b = I_.read_ref(st, args[2])
            oid = self.strval(I_, st, args[0])
            seqs.EACH[0] = lambda g, j: [y.F for h in g for y in loops.instantiate(st.with_facts(h), j) if y.F.consistent()]
            del seqs.STUCK[:]
            try:
                e = self.eq(I_, st, a, b)
            finally:
                seqs.EACH[0] = None
            self.check(I_, st, oid, e, list(seqs.STUCK))
            return ret()
        if name == 'never':
            self.check(I_, st, self.strval(I_, st, args[0]), FALSE)
            return []
        if name == 'reached':
            oid = self.strval(I_, st, args[0])
            self.reached[oid] = self.reached.get(oid, 0) + 1
            return ret()
        if name == 'assume':
            self.assumed += 1
            return [Out('ret', s, UNIT) for s in st.assume(args[0])]
        if name == 'sized':
            seqs.MINENC[0] = 1
            return ret()
        if name == 'instance':
            return [Out('ret', s, UNIT) for s in loops.instantiate(st, args[0])]
        if name == 'stop':
            j = st.store.get(('stop',))
            if j is None:
                j = atom(T('unk', fresh_id(), 'stop'))
                TM.INFO[j.args[1][0][0]] = (0, seqs.MAXLEN)
            return ret(j)
        if name == 'total':
            st.store[('total',)] = T('flag', self.strval(I_, st, args[0]))
            return ret()
        if name == 'partial':
            st.store.pop(('total',), None)
            return ret()
        if name == 'any':
            return ret(canon(T('sym', fresh_id(), 'any'), dty))
        if name == 'written':
            g = self.ghost_u(I_, st, args[0])
            return ret(g.args[2])
        if name == 'ahead':
            g = self.ghost_p(I_, st, args[0])
            rest, off, lim, stack = g.args[2:]
            a, _ = seqs.cut(rest, sub(lim, off), st.F)
            return ret(a)
        if name == 'windows':
            g = self.ghost_p(I_, st, args[0])
            rest, off, lim, stack = g.args[2:]
            return ret(mk([stack, seqs.u(lim)]))
        if name == 'load':
            g = self.ghost_p(I_, st, args[0])
            rest, off, lim, stack = g.args[2:]
            a = I_.read_ref(st, args[1])
            b = I_.read_ref(st, args[2])
            n = add(length(a), length(b))
            ex = seqs.whole(newseq('beyond'))
            out = []
            for s in st.assume(le(n, I((1 << 63) - 1))):     # no buffer is larger
                I_.write_ref(s, args[0], agg(GP, 0, cat(a, b, ex), off, add(off, n), stack))
                out += ret(UNIT, s)
            return out
        raise Undecided('unknown marker ' + name)

    def eq(self, I_, st, a, b, d=0):
        a = self.strip(I_, st, a)
        b = self.strip(I_, st, b)
        return val_eq(a, b, st.F)

    def strip(self, I_, st, v):
        n = 0
        while v.op in ('mref', 'sref', 'oref') and n < 6:
            v = I_.read_ref(st, v)
            n += 1
        return v

    # ------------------------------------------------------------ ghosts
    def ghost_u(self, I_, st, ref):
        v = I_.read_ref(st, ref)
        g = as_ghost_u(v)
        if g is not v and v.op != 'seq' and ref.op in ('mref', 'oref'):
            I_.write_ref(st, ref, g)
        return g

    def ghost_p(self, I_, st, ref):
        v = I_.read_ref(st, ref)
        g = as_ghost_p(v)
        if g is not v and ref.op in ('mref', 'oref'):
            I_.write_ref(st, ref, g)
        return g

    # ------------------------------------------------------------ constants
    def const(self, I_, st, c):
        d = c['def']
        if d in ('tedium::conv::len::Estimable::KNOWN', 'tedium::conv::len::FixedLength::LEN') and not c.get('rdef'):
            t = c['args'][0]['t']
            k = self.known_of(t)
            if d.endswith('LEN'):
                if k is None:
                    raise SkipCase()
                return k
            return NONE if k is None else some(k)
        return None

    def known_of(self, t):
        n = TY[t]['s']
        if n not in self.known:
            raise NeedCase(n)
        return self.known[n]

    # ------------------------------------------------------------ trait contracts
    def contract(self, I_, st, c, args, dty, span, atys):
        return None

    def selfty(self, c):
        for a in c.get('args') or []:
            if 't' in a:
                return a['t']
        return None

    def is_param(self, t):
        return t is not None and TY[t]['k'] in ('param', 'alias')

    def trait_call(self, I_, st, c, args, dty, span):
        if c.get('rk') != 'unresolved':
            return None
        t = self.selfty(c)
        if not self.is_param(t):
            return None
        tr = c.get('trait') or ''
        n = c['name']
        if tr == 'tedium::conv::target::Target':
            return self.target(I_, st, n, c, args, dty)
        if tr in ('tedium::parse::Parser', 'tedium::parse::ParserExt'):
            return self.parser(I_, st, n, c, args, dty)
        if tr == 'tedium::conv::Encode' and n == 'write_to':
            return self.encode(I_, st, c, args, dty, span)
        if tr == 'tedium::conv::Decode' and n == 'parse':
            return self.decode(I_, st, c, args, dty)
        if tr == 'tedium::conv::len::Estimable' and n in ('unknown', 'estimate'):
            self.known_of(t)
            x = I_.read_ref(st, args[0])
            return [Out('ret', st, seqs.enclen(self.val(x, t)))]
        if tr == 'tedium::conv::EncodeLength' and n == 'enc_len':
            x = I_.read_ref(st, args[0])
            return [Out('ret', st, seqs.enclen(self.val(x, t)))]
        if tr in ('core::cmp::PartialOrd', 'core::cmp::Ord') and n in ('cmp', 'partial_cmp', 'lt', 'le', 'gt', 'ge'):
            a, b = I_.read_ref(st, args[0]), I_.read_ref(st, args[1])
            return [Out('ret', st, canon(T(n, a, b), dty))]
        if tr == 'core::default::Default':
            return [Out('ret', st, canon(T('default', TY[t]['s']), dty))]
        return None

    def val(self, x, t):
        if t is not None and x.op not in ('agg', 'lin', 'seq', 'sref', 'mref', 'oref'):
            TM.TYP.setdefault(x, t)
        return x

    def encode(self, I_, st, c, args, dty, span=None):
        t = self.selfty(c)
        x = st.F.subst(self.val(I_.read_ref(st, args[0]), t))
        n = seqs.enclen(x)
        ut = [a['t'] for a in c['args'] if 't' in a][1]
        y = TY[ut]
        p = mk([T('enc', x)])
        if self.is_param(ut):
            g = self.ghost_u(I_, st, args[1])
            I_.write_ref(st, args[1], agg(GU, 0, cat(g.args[2], p)))
        elif y.get('def') == 'alloc::vec::Vec':
            v = I_.read_ref(st, args[1])
            I_.write_ref(st, args[1], cat(v, p))
        elif y.get('def', '').endswith('io::util::Sink'):
            pass
        else:
            # a concrete target: hand the bytes to its own push_all
            k = self.method_of(I_, ut, 'tedium::conv::target::Target', 'push_all')
            if k is None:
                return None
            return [Out('ret', o.st, n) if o.kind == 'ret' else o
                    for o in I_.call_fn(k, [args[1], sref(p)], st, span)]
        return [Out('ret', st, n)]

    def method_of(self, I_, t, trait, name):
        """the body implementing trait::name for the concrete type t"""
        pre = '<%s as %s>::%s' % (TY[t]['s'], trait, name)
        return pre if I_.p.fn(pre) is not None else None

    def target(self, I_, st, n, c, args, dty):
        if n == 'create':
            return [Out('ret', st, agg(GU, 0, EMPTY))]
        if n in ('push_one', 'push_many', 'push_all'):
            g = self.ghost_u(I_, st, args[0])
            if n == 'push_one':
                q = seqs.one(args[1])
            elif n == 'push_many':
                q = args[1]
            else:
                q = I_.read_ref(st, args[1])
            if q.op != 'seq':
                raise Undecided('push of a non-sequence')
            I_.write_ref(st, args[0], agg(GU, 0, cat(g.args[2], q)))
            return [Out('ret', st, length(q))]
        if n == 'anticipate':
            return [Out('ret', st, UNIT)]
        return None

    def perr(self, dty):
        a = [x['t'] for x in TY[dty].get('args') or [] if 't' in x]
        return err(canon(T('sym', fresh_id(), 'ParseError'), a[1] if len(a) > 1 else None))

    def parser(self, I_, st, n, c, args, dty):
        if n in ('offset', 'view_len', 'consume_byte', 'consume', 'set_fit', 'test_target', 'enforce_target', 'skip', 'skip_exactly'):
            g = self.ghost_p(I_, st, args[0])
            rest, off, lim, stack = g.args[2:]
            rem = sub(lim, off)
        else:
            return None
        if n in ('offset', 'view_len'):
            o = T('gofs', off)
            TM.INFO.setdefault(o, (0, seqs.MAXLEN))
            return [Out('ret', st, atom(o) if n == 'offset' else add(atom(o), rem))]
        out = []
        if n in ('consume_byte', 'consume'):
            k = ONE if n == 'consume_byte' else args[1]
            for s in st.assume(le(k, rem)):
                s = s.copy()
                a, r = seqs.cut(rest, k, s.F)
                I_.write_ref(s, args[0], agg(GP, 0, r, add(off, k), lim, stack))
                if n == 'consume_byte':
                    out.append(Out('ret', s, ok(seqs.index(a, ZERO, s.F))))
                else:
                    out.append(Out('ret', s, ok(sref(a))))
            for s in st.assume(lt(rem, k)):
                out.append(Out('ret', s.copy(), self.perr(dty)))
            return out
        if n in ('skip', 'skip_exactly'):
            k = args[1]
            for s in st.assume(le(k, rem)):
                s = s.copy()
                I_.write_ref(s, args[0], agg(GP, 0, seqs.cut(rest, k, s.F)[1], add(off, k), lim, stack))
                out.append(Out('ret', s, ok(UNIT if n == 'skip_exactly' else k)))
            for s in st.assume(lt(rem, k)):
                s = s.copy()
                if n == 'skip_exactly':
                    out.append(Out('ret', s, self.perr(dty)))
                else:
                    I_.write_ref(s, args[0], agg(GP, 0, seqs.cut(rest, rem, s.F)[1], lim, lim, stack))
                    out.append(Out('ret', s, ok(rem)))
            return out
        if n == 'set_fit':
            k = args[1]
            for s in st.assume(le(k, rem)):
                s = s.copy()
                I_.write_ref(s, args[0], agg(GP, 0, rest, off, add(off, k), mk([stack, seqs.u(lim)])))
                out.append(Out('ret', s, ok(UNIT)))
            for s in st.assume(lt(rem, k)):
                out.append(Out('ret', s.copy(), self.perr(dty)))
            return out
        own = bool(stack.args) and stack.args[-1].op == 'u'
        if n == 'enforce_target':
            if not own:
                # closes a window this code did not open
                self.check(I_, st, 'foreign-window', FALSE)
                return []
            for s in st.assume(eq0(rem)):
                s = s.copy()
                I_.write_ref(s, args[0], agg(GP, 0, rest, off, stack.args[-1].args[0], T('seq', *stack.args[:-1])))
                out.append(Out('ret', s, ok(UNIT)))
            for s in st.assume(bnot(eq0(rem))):
                out.append(Out('ret', s.copy(), self.perr(dty)))
            return out
        if n == 'test_target':
            if own:
                return [Out('ret', st, ok(eq0(rem)))]
            d = batom(T('gp_windowed', stack))
            return [Out('ret', st, ok(band(d, eq0(rem))))]
        return None

    def decode(self, I_, st, c, args, dty):
        t = self.selfty(c)
        pt = [a['t'] for a in c['args'] if 't' in a][1]
        if not self.is_param(pt):
            return None
        g = self.ghost_p(I_, st, args[0])
        rest, off, lim, stack = g.args[2:]
        rem = sub(lim, off)
        out = []
        q = seqs.norm(rest, st.F)
        if q.args and q.args[0].op == 'for':
            k, lo, hi, body = q.args[0].args
            r = st.F.ask(lt(lo, hi))
            if r is None:
                raise NeedSplit(lt(lo, hi))
            if r:
                first = seqs.inst(body, k, lo)
                q = mk(list(first.args) + [T('for', k, add(lo, ONE), hi, body)] + list(q.args[1:]))
        if q.args and q.args[0].op == 'enc' and self.same_type(q.args[0].args[0], t):
            x = q.args[0].args[0]
            n = seqs.enclen(x)
            for s in st.assume(le(n, rem)):
                s = s.copy()
                I_.write_ref(s, args[0], agg(GP, 0, T('seq', *q.args[1:]), add(off, n), lim, stack))
                out.append(Out('ret', s, ok(x)))
            for s in st.assume(lt(rem, n)):
                s = s.copy()
                self.lost(I_, s, args[0], off, lim)
                out.append(Out('ret', s, self.perr(dty)))
            return out
        # arbitrary input: the value is a function of the bytes it is read from
        kn = self.known.get(TY[t]['s'])
        if kn is not None:
            k = kn
        else:
            k = atom(seqs_count(st))
        for s0 in st.assume(le(k, rem)):
            for s, a, r in self.cutting(s0, rest, k):
                s = s.copy()
                I_.write_ref(s, args[0], agg(GP, 0, r, add(off, k), lim, stack))
                out.append(Out('ret', s, ok(canon(T('dec', TY[t]['s'], a), t))))
        s = st.copy()
        self.lost(I_, s, args[0], off, lim)
        out.append(Out('ret', s, self.perr(dty)))
        return out

    def lost(self, I_, s, ref, off, lim):
        """after a failed nested parse nothing is promised about the parser"""
        v = T('sym', fresh_id(), 'failed_parser')
        I_.write_ref(s, ref, v)

    def same_type(self, x, t):
        i = TM.TYP.get(x)
        return i is None or i == t or TY[i]['s'] == TY[t]['s']

    def call_opaque(self, I_, st, v, args, dty):
        f = v
        while f.op in ('sref', 'mref') :
            f = I_.read_ref(st, f)
        a = [st.F.subst(x) for x in args]
        if any(x.op in ('mref', 'oref') for x in a):
            return None
        return [Out('ret', st, canon(T('app', f, *a), dty))]

    def big(self, k, op):
        return None


def seqs_count(st):
    """how much a decoder reads: one choice, numbered along the path"""
    n = const_of(st.store.get(('cnt',), ZERO))
    st.store[('cnt',)] = I(n + 1)
    s = T('sym', fresh_id(), 'consumed', n)
    TM.INFO[s] = (1, seqs.MAXLEN)
    return s


def newseq(name):
    s = T('sym', fresh_id(), name)
    TM.ELTY[s] = values.U8()
    return s


def tainted_state(st, b):
    if b.unk or ('vague',) in st.store and loops.overlooked(st, b):
        return True
    F = st.F
    for c in F.ins:
        if c.unk:
            return True
    for c in F.neq:
        if c.unk:
            return True
    for a, v in F.eqs.items():
        if a.unk or v.unk:
            return True
    for x in F.bools:
        if x.unk:
            return True
    return False


def trail(I_, st):
    return list(st.trail[-14:]) + [short_key(k) for k, _ in I_.stack[-6:]]


def short_key(k):
    return k.split('@')[0]


def apart(st, stuck):
    """a state in which two comprehensions of st differ at some index"""
    for j, lo, hi, a, b in stuck:
        for s in st.assume(band(le(lo, j), le(add(j, ONE), hi))):
            for x in loops.instantiate(s, j):
                c = x.F.subst(seqs.seq_eq(a, b, x.F, lambda p, q: val_eq(p, q, x.F)))
                for y in x.assume(bnot(c)):
                    if not y.F.consistent():
                        continue
                    r = loops.settle_picks(y, c)
                    if r and not tainted_state(r[0], c):
                        return r[0], True
    return None


def part(st, b):
    """a state in which a conjunct of b that depends on no loop fails"""
    if b.op != 'and':
        return None
    for c in b.args:
        if any(x.op in ('pick', 'sk', 'bv') for x in TM.subterms(c)):
            continue
        for s in st.assume(bnot(c)):
            if not s.F.consistent():
                continue
            r = loops.settle_picks(s, c)
            if r and not tainted_state(r[0], c):
                return r[0], True
    return None
