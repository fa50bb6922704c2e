"""Abstract interpreter for dumped MIR.

Functions are analysed by context-sensitive inlining over an abstract state
(store of value-numbered terms x linear/boolean facts), partitioned at
undecided branches.  Loops are summarised by inferred inductive invariants
(loops.py); they are only unrolled when every exit test is already decided by
the abstract state.
"""
import sys
from .terms import *
from . import terms as TM
from . import seqs, ints, values
from .seqs import NeedSplit
from .facts import Facts
from .values import TY, canon, field, set_field, mkagg, discr_of, val_eq, UNIT

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class Undecided(Exception):
    """the analysis lost precision in a way that prevents any verdict"""


class CompileError(Exception):
    """a constant that does not evaluate: the instantiation does not build"""


class State:
    __slots__ = ('store', 'F', 'trail', 'depth')

    def __init__(self, store=None, F=None, trail=()):
        self.store = store if store is not None else {}
        self.F = F if F is not None else Facts()
        self.trail = trail

    def copy(self):
        return State(dict(self.store), self.F, self.trail)

    def with_facts(self, F):
        if F is self.F:
            return self
        return State(dict(self.store), F, self.trail)

    def assume(self, b):
        """refined copies of this state"""
        return [self.with_facts(f) for f in self.F.assume(b)]


class Fn:
    """control-flow graph with natural-loop information"""

    def __init__(self, key, j):
        self.key = key
        self.j = j
        self.blocks = j['blocks']
        self.locals = j['locals']
        self.argc = j['argc']
        self._loops = None
        self._live = None

    def succ(self, b):
        blk = self.blocks[b]
        if blk is None:
            return []
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[3]] + ([t[4]] if t[4] is not None else [])
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        return []

    def live(self):
        """block -> locals whose value on entry may still be used; those with
        their address taken always count"""
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        use, defs, always = [None] * n, [None] * n, {0}
        for b, blk in enumerate(self.blocks):
            if blk is None:
                continue
            u, d = set(), set()
            for x in list(blk['s']) + [blk['t']]:
                dst = x[1] if x[0] == '=' else x[3] if x[0] == 'call' else None
                whole = dst is not None and not dst[1]
                src = [y for y in x if y is not dst or not whole]
                used = set()
                places(src, used)
                if x[0] == '=' and x[2][0] in ('ref', 'reborrow') and not any(e[0] == 'd' for e in x[2][2][1]):
                    always.add(x[2][2][0])
                u |= used - d
                if whole:
                    d.add(dst[0])
            use[b], defs[b] = u, d
        live = [set() for _ in range(n)]
        work = True
        while work:
            work = False
            for b in range(n - 1, -1, -1):
                if use[b] is None:
                    continue
                out = set()
                for s in self.succ(b):
                    out |= live[s]
                new = use[b] | (out - defs[b])
                if new != live[b]:
                    live[b] = new
                    work = True
        self._live = [x | always for x in live]
        return self._live

    def loops(self):
        """header -> set of blocks"""
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        # iterative DFS for back edges (MIR control flow is reducible)
        color = {}
        order = []
        back = []
        st = [(0, iter(self.succ(0)))]
        color[0] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1
                    st.append((s, iter(self.succ(s))))
                    break
                if color[s] == 1:
                    back.append((b, s))
            else:
                color[b] = 2
                order.append(b)
                st.pop()
        pred = {}
        for b in color:
            for s in self.succ(b):
                pred.setdefault(s, []).append(b)
        loops = {}
        for t, h in back:
            body = loops.setdefault(h, {h})
            w = [t]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(pred.get(x, ()))
        self._loops = loops
        return loops


def places(x, out):
    """locals mentioned anywhere in a piece of MIR"""
    if not isinstance(x, (list, tuple)):
        return
    if len(x) == 2 and type(x[0]) is int and isinstance(x[1], list):
        out.add(x[0])
        for e in x[1]:
            if e and e[0] == 'i':
                out.add(e[1])
        return
    for y in x:
        places(y, out)


def mentions(t, op):
    if isinstance(t, Term):
        return t.op == op or any(mentions(x, op) for x in t.args)
    if isinstance(t, tuple):
        return any(mentions(x, op) for x in t)
    return False


class Program:
    def __init__(self, j):
        self.j = j
        self.fns = {}
        self.raw = j['fns']
        self.wrapping = bool(j.get('wrapping'))
        values.reset(j['types'])
        self.by_def = {}
        for k, f in self.raw.items():
            self.by_def.setdefault(f['def'], []).append(k)
        self.roots = j['roots']
        self.impls = j['impls']

    def fn(self, key):
        f = self.fns.get(key)
        if f is None:
            r = self.raw.get(key)
            if r is None:
                return None
            f = self.fns[key] = Fn(key, r)
        return f


class Out:
    __slots__ = ('kind', 'st', 'val', 'info')

    def __init__(self, kind, st, val=None, info=None):
        self.kind = kind
        self.st = st
        self.val = val
        self.info = info


class UbFound(Exception):
    """the statement under analysis has no defined meaning in this state"""


class Interp:
    def __init__(self, prog, models, budget=400000):
        self.p = prog
        self.models = models
        self.frame = 0
        self.stack = []          # (key, span) of active calls
        self.budget = budget
        self.steps = 0
        self.unknown_calls = {}
        self.analysed = set()
        self.unsafe_calls = set()
        self.obls = []
        self.loops_done = 0
        self.loop_fail = []
        self.loop_nest = 0
        self.hooks = None
        self.callsites = 0

    # ------------------------------------------------------------ places
    def slot(self, st, s):
        v = st.store.get(s)
        if v is None:
            v = T('uninit', s)
        return v

    def resolve(self, st, fid, fn, place):
        """-> (loc, type) with loc = ('s', slot, path) | ('v', value)"""
        local, proj = place
        loc = ('s', (fid, local), ())
        t = fn.locals[local]
        variant = 0
        for e in proj:
            k = e[0]
            if k == 'd':
                v = self.load_loc(st, loc)
                y = TY[t] if t is not None else {}
                loc = self.deref(st, loc, v)
                if y.get('k') == 'ptr' and TY[y['e']]['k'] == 'array':
                    self.fits(st, loc, TY[y['e']])
                if y.get('k') in ('ref', 'ptr'):
                    t = y['e']
                elif y.get('k') == 'adt' and y['def'] == values.BOX:
                    t = values.first_ty(y)
                else:
                    t = None
            elif k == 'v':
                variant = e[1]
                continue
            elif k == 'f':
                tyi = e[2]
                v = self.load_loc(st, loc)
                if v.op == 'agg' and v.args[0] == 'box':
                    # raw parts of a Box: the pointer itself
                    if loc[0] == 's':
                        loc = ('v', T('mref', loc[1], loc[2] + (('box',),)))
                    else:
                        loc = ('v', sref(v.args[2]))
                elif v.op in ('mref', 'sref', 'oref') and t is not None and TY[t]['k'] == 'adt':
                    loc = ('v', v)
                elif loc[0] == 's':
                    loc = ('s', loc[1], loc[2] + (('f', variant, e[1], tyi, t),))
                else:
                    self.note_type(v, t)
                    loc = ('v', field(v, variant, e[1], tyi))
                t = tyi
                variant = 0
            elif k == 'i':
                ix = self.load_loc(st, ('s', (fid, e[1]), ()))
                loc = self.index_loc(st, loc, ix)
                t = TY[t]['e'] if t is not None else None
            elif k == 'ci':
                off, _min, fe = e[1], e[2], e[3]
                v = self.load_loc(st, loc)
                if fe:
                    ix = sub(self.vlen(v), I(off))
                else:
                    ix = I(off)
                loc = self.index_loc(st, loc, ix)
                t = TY[t]['e'] if t is not None else None
            elif k == 'ss':
                v = self.load_loc(st, loc)
                lo = I(e[1])
                hi = sub(self.vlen(v), I(e[2])) if e[3] else I(e[2])
                if loc[0] == 's':
                    loc = ('s', loc[1], loc[2] + (('ss', lo, hi),))
                else:
                    loc = ('v', seqs.slice_(v, lo, hi, st.F))
            else:
                loc = ('v', unk('place ' + str(k)))
        return loc, t

    def fits(self, st, loc, y):
        """memory read as an array through a raw pointer holds that many elements"""
        q = self.load_loc(st, loc)
        if q.op == 'seq' and y.get('n') is not None:
            ok = le(values.arrlen(y['n']), seqs.length(q))
            r = st.F.ask(ok)
            if r is None:
                raise NeedSplit(st.F.subst(ok))
            if not r:
                raise UbFound('array read beyond its allocation')

    def note_type(self, v, t):
        if t is not None and v.op not in ('agg', 'lin', 'seq', 'sref', 'mref', 'true', 'false'):
            TM.TYP.setdefault(v, t)

    def vlen(self, v):
        if v.op == 'seq':
            return seqs.length(v)
        return atom(T('len', v))

    def deref(self, st, loc, v):
        if v.op == 'mref':
            return ('s', v.args[0], v.args[1])
        if v.op == 'sref':
            return ('v', v.args[0])
        if v.op == 'agg' and v.args[0] == 'box':
            if loc[0] == 's':
                return ('s', loc[1], loc[2] + (('box',),))
            return ('v', v.args[2])
        if v.op == 'oref':
            # opaque &mut: give it a slot on first use
            s = ('o', v.args[0].id)
            if s not in st.store:
                i = TM.TYP.get(v.args[0])
                e = TY[i]['e'] if i is not None else None
                st.store[s] = canon(T('deref', v.args[0]), e)
            return ('s', s, ())
        if v.op == 'agg' and len(v.args) >= 3 and v.args[2].op in ('mref', 'sref', 'oref'):
            return self.deref(st, loc, v.args[2])
        return ('v', canon(T('deref', v), self.pointee(v)))

    def pointee(self, v):
        i = TM.TYP.get(v)
        if i is not None and TY[i]['k'] in ('ref', 'ptr'):
            return TY[i]['e']
        return None

    def index_loc(self, st, loc, ix):
        if loc[0] == 's':
            return ('s', loc[1], loc[2] + (('i', ix),))
        v = loc[1]
        if v.op == 'seq':
            return ('v', seqs.index(v, ix, st.F))
        return ('v', T('idx', v, ix))

    def load_loc(self, st, loc):
        if loc[0] == 'v':
            return loc[1]
        v = self.slot(st, loc[1])
        for e in loc[2]:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        k = e[0]
        if k == 'f':
            if v.op not in ('agg', 'lin', 'seq', 'sref', 'mref') and e[4] is not None:
                TM.TYP.setdefault(v, e[4])
            return field(v, e[1], e[2], e[3])
        if k == 'box':
            if v.op == 'agg' and v.args[0] == 'box':
                return v.args[2]
            return canon(T('unbox', v), None)
        if k == 'i':
            if v.op == 'seq':
                r = seqs.index(v, e[1], st.F)
                return r if r is not None else unk('index')
            return T('idx', v, e[1])
        if k == 'ss':
            if v.op == 'seq':
                return seqs.slice_(v, e[1], e[2], st.F)
            return unk('subslice')
        raise AssertionError(k)

    def store_loc(self, st, loc, x):
        if loc[0] != 's':
            # memory we cannot name: nothing known about any of it survives
            raise Undecided('write through an unknown pointer')
        s, path = loc[1], loc[2]
        if not path:
            st.store[s] = x
            return
        st.store[s] = self.put(st, self.slot(st, s), path, x)

    def put(self, st, v, path, x):
        e = path[0]
        rest = path[1:]
        k = e[0]
        if k == 'f':
            if v.op == 'uninit':
                # field-wise initialisation
                i = e[4]
                n = None
                if i is not None:
                    y = TY[i]
                    if y['k'] == 'tuple':
                        n, nm = len(y['e']), 'tuple'
                    elif y['k'] == 'adt' and y.get('v'):
                        n, nm = len(y['v'][e[1]]['f']), y['def']
                if n is None:
                    return unk('partial init')
                v = T('agg', nm, e[1], *[T('uninit', (v.args[0], j)) for j in range(n)])
            if rest:
                if v.op not in ('agg', 'lin', 'seq', 'sref', 'mref') and e[4] is not None:
                    TM.TYP.setdefault(v, e[4])
                x = self.put(st, field(v, e[1], e[2], e[3]), rest, x)
            return set_field(v, e[1], e[2], x, e[4])
        if k == 'box':
            if v.op == 'agg' and v.args[0] == 'box':
                return T('agg', 'box', 0, self.put(st, v.args[2], rest, x) if rest else x)
            return T('agg', 'box', 0, self.put(st, canon(T('unbox', v), None), rest, x) if rest else x)
        if k == 'i':
            if v.op != 'seq':
                return unk('indexed store')
            if rest:
                old = seqs.index(v, e[1], st.F)
                x = self.put(st, old, rest, x)
            return seqs.update(v, e[1], x, st.F)
        if k == 'ss':
            if v.op != 'seq':
                return unk('subslice store')
            a, bc = seqs.cut(v, e[1], st.F)
            b, c = seqs.cut(bc, sub(e[2], e[1]), st.F)
            nb = self.put(st, b, rest, x) if rest else x
            if nb.op != 'seq':
                return unk('subslice store')
            return seqs.cat(a, nb, c)
        raise AssertionError(k)

    # references as values -----------------------------------------------
    def read_ref(self, st, r):
        """value behind a reference value"""
        return self.load_loc(st, self.deref(st, ('v', r), r))

    def write_ref(self, st, r, x):
        if r.op == 'agg' and len(r.args) >= 3 and r.args[0] != 'box':
            r = r.args[2]
        self.store_loc(st, self.deref(st, ('v', r), r), x)
        return True

    # ------------------------------------------------------------ operands
    def const(self, st, c):
        k = c['k']
        if k == 'int':
            y = TY[c['t']]
            v = int(c['v'])
            if y['k'] == 'bool':
                return B(v)
            if y['k'] in ('int', 'uint', 'char'):
                if y['k'] == 'int':
                    v = ints.wrapc(v, y['bits'], True)
                return I(v)
            if y['k'] == 'float':
                return T('fconst', v, y['bits'])
            return I(v)
        if k == 'fn':
            return T('fn', c.get('key') or c.get('rdef') or c['def'], self.intern_const(c))
        if k == 'zst':
            return self.zst(c['t'])
        if k == 'str':
            b = c['v'].encode()
            return sref(seqs.mk([seqs.u(I(x)) for x in b]))
        if k == 'bytes':
            return sref(seqs.mk([seqs.u(I(x)) for x in c['v']]))
        if k == 'ref':
            return sref(self.const(st, c['v']))
        if k == 'array':
            e = TY[c['t']].get('e')
            ey = TY[e] if e is not None else {}
            return seqs.mk([seqs.u(self.const_elem(st, x, ey)) for x in c['v']])
        if k == 'agg':
            y = TY[c['t']]
            fs = [self.const(st, x) for x in c['f']]
            if y['k'] == 'tuple':
                return T('agg', 'tuple', 0, *fs)
            if y.get('def') == 'alloc::vec::Vec' and len(fs) == 2 and fs[1] is ZERO:
                return seqs.EMPTY
            if y.get('def') == 'alloc::string::String' and fs and fs[0].op == 'seq':
                return fs[0]
            if y['k'] == 'adt':
                v = c.get('variant')
                return T('agg', y['def'], v if v is not None else 0, *fs)
            if y['k'] == 'array':
                return seqs.mk([seqs.u(x) for x in fs])
            return UNIT if not fs else T('agg', y['s'], 0, *fs)
        if k == 'cparam':
            a = values.cparam(c['n'])
            y = TY[c['t']] if c.get('t') is not None else {}
            if y.get('k') in ('int', 'uint'):
                aa = ints.single(a)
                if y['k'] == 'int' or y['bits'] != 64:
                    aa = T('cparam', c['n'], y['s'])
                    TM.INFO.setdefault(aa, values.int_range(y))
                    a = atom(aa)
            return a
        if k == 'uneval':
            return self.uneval(st, c)
        if k == 'opaque':
            return canon(T('const', c.get('s', ''), c.get('t')), c.get('t'))
        return unk('const ' + k)

    def const_elem(self, st, x, ey):
        if isinstance(x, dict):
            return self.const(st, x)
        if ey.get('k') == 'int':
            return I(ints.wrapc(int(x), ey['bits'], True))
        return I(int(x))

    def zst(self, t):
        y = TY[t]
        if y['k'] == 'tuple':
            return UNIT
        if y['k'] == 'closure':
            return T('agg', ('closure', y['def'], t), 0)
        if y['k'] == 'adt':
            if y.get('v') and len(y['v']) == 1:
                fs = [self.zst(f['t']) for f in y['v'][0]['f']]
                return T('agg', y['def'], 0, *fs)
            return T('agg', y['def'], 0)
        if y['k'] == 'fndef':
            return T('fnty', t)
        if y['k'] == 'array':
            return seqs.EMPTY
        return T('zst', t)

    def intern_const(self, c):
        k = id(c)
        t = self._cn.get(k)
        if t is None:
            self._cn[k] = t = len(self._cl)
            self._cl.append(c)
        return t

    _cn = {}
    _cl = []

    def uneval(self, st, c):
        if self.hooks:
            r = self.hooks.const(self, st, c)
            if r is not None:
                return r
        key = c.get('key')
        if key and self.p.fn(key) is not None:
            outs = self.call_fn(key, [], st.copy(), None)
            rets = [o for o in outs if o.kind == 'ret']
            if len(rets) == 1 and len(outs) == 1:
                return rets[0].val
            if len(rets) > 1 or len(outs) > 1:
                # constant whose value depends on symbolic constants: partition
                for o in rets:
                    for b in newfacts(o.st.F, st.F):
                        if st.F.ask(b) is None:
                            raise NeedSplit(b)
                if len(rets) >= 1:
                    return rets[0].val
                raise CompileError(c['def'])
            if not rets:
                raise CompileError(c['def'])
        args = tuple(self.argname(a) for a in c.get('args') or ())
        t = T('constof', c['def'], args)
        return canon(t, c.get('t'))

    def argname(self, a):
        if isinstance(a, dict) and 't' in a:
            return TY[a['t']]['s']
        return str(a)

    def operand(self, st, fid, fn, o):
        k = o[0]
        if k in ('c', 'm'):
            loc, t = self.resolve(st, fid, fn, o[1])
            v = self.load_loc(st, loc)
            if v.op not in ('agg', 'lin', 'seq', 'sref', 'mref') and t is not None:
                TM.TYP.setdefault(v, t)
            return v
        if k == 'k':
            return self.const(st, o[1])
        if k == 'rt':
            return FALSE
        return unk('operand')

    def op_type(self, fn, o):
        if o[0] in ('c', 'm'):
            return self.place_type(fn, o[1])
        if o[0] == 'k':
            return o[1].get('t')
        return None

    def place_type(self, fn, place):
        t = fn.locals[place[0]]
        for e in place[1]:
            if t is None and e[0] != 'f':
                continue
            y = TY[t] if t is not None else {}
            if e[0] == 'd':
                t = y.get('e') if y.get('k') in ('ref', 'ptr') else values.first_ty(y)
            elif e[0] == 'f':
                t = e[2]
            elif e[0] in ('i', 'ci'):
                t = y.get('e')
        return t

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fid, fn, rv, dty):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fid, fn, rv[1])
        if k in ('ref', 'reborrow'):
            mut, place = rv[1], rv[2]
            loc, t = self.resolve(st, fid, fn, place)
            y = TY[dty] if dty is not None else {}
            if y.get('k') in ('ref', 'ptr'):
                mut = bool(y.get('m'))
            if loc[0] == 's':
                if mut:
                    return T('mref', loc[1], loc[2])
                v = self.load_loc(st, loc)
                return sref(v)
            v = loc[1]
            if v.op == 'deref':
                return T('oref', v.args[0]) if mut else sref(v)
            return sref(v)
        if k == 'repeat':
            x = self.operand(st, fid, fn, rv[1])
            n = values.arrlen(rv[2]) if not isinstance(rv[2], list) else values.arrlen(rv[2][0])
            return seqs.mk([T('rep', x, n)])
        if k == 'cast':
            return self.cast(st, fid, fn, rv, dty)
        if k == 'bin':
            a = self.operand(st, fid, fn, rv[2])
            b = self.operand(st, fid, fn, rv[3])
            return self.binop(st, rv[1], a, b, self.op_type(fn, rv[2]), self.op_type(fn, rv[3]))
        if k == 'un':
            a = self.operand(st, fid, fn, rv[2])
            t = self.op_type(fn, rv[2])
            return self.unop(st, rv[1], a, t)
        if k == 'discr':
            loc, t = self.resolve(st, fid, fn, rv[1])
            v = self.load_loc(st, loc)
            if v.op == 'agg' and v.args[0] == 'box':
                return ZERO
            d = discr_of(v, st.F, t)
            if v.op == 'uninit' and values.only_variant(t) is not None:
                d = I(values.only_variant(t))     # zero-sized: never stored
            c = const_of(d)
            if c is not None and dty is not None and TY[dty]['k'] == 'int':
                d = I(ints.wrapc(c, TY[dty]['bits'], True))
            return d
        if k == 'agg':
            kind = rv[1]
            xs = [self.operand(st, fid, fn, o) for o in rv[2]]
            if kind[0] == 'adt':
                if kind[1] in values.PTR_ADTS and xs:
                    return xs[0]
                if kind[3] is not None:
                    return T('union', xs[0])
                if kind[1] == 'core::mem::manually_drop::ManuallyDrop':
                    return T('agg', kind[1], 0, *xs)
                return mkagg(kind[1], kind[2], xs)
            if kind[0] == 'tuple':
                return mkagg('tuple', 0, xs) if xs else UNIT
            if kind[0] == 'array':
                return seqs.mk([seqs.u(x) for x in xs])
            if kind[0] == 'closure':
                return T('agg', ('closure', kind[1], dty), 0, *xs)
            return unk('agg')
        if k == 'other' and len(rv) > 1 and 'Len' in str(rv[1]):
            return unk('len')
        return canon(T('unk', fresh_id(), 'rvalue ' + k), dty)

    def cast(self, st, fid, fn, rv, dty):
        kind, o = rv[1], rv[2]
        v = self.operand(st, fid, fn, o)
        to = rv[3] if len(rv) > 3 else dty
        y = TY[to]
        src = self.op_type(fn, o)
        sy = TY[src] if src is not None else {}
        if kind == 'IntToInt':
            if values.is_bool(v):
                r = st.F.ask(v)
                if r is None:
                    raise NeedSplit(st.F.subst(v))
                v = I(1 if r else 0)
            if v.op != 'lin':
                v = atom(v)
            if y['k'] in ('int', 'uint'):
                return ints.wrap(v, y['bits'], y['k'] == 'int', st.F)
            if y['k'] == 'char':
                return v
            return v
        if kind in ('PtrToPtr', 'BoxDerefTransmute') or kind.startswith('PointerCoercion') or kind == 'FnPtrToPtr':
            return v
        if kind == 'Transmute':
            if v.op in ('mref', 'sref', 'oref'):
                if y['k'] in ('int', 'uint'):
                    return canon(T('addr', v), to)
                return v
            if v.op == 'seq' and y['k'] in ('slice', 'array', 'str', 'adt', 'ref'):
                return v
            if v.op == 'seq' and y['k'] in ('int', 'uint'):
                return canon(T('unk', fresh_id(), 'transmute'), to)
            if sy.get('k') == y['k'] and y['k'] in ('int', 'uint'):
                return ints.wrap(v, y['bits'], y['k'] == 'int', st.F)
            if {sy.get('k'), y['k']} <= {'int', 'uint'}:
                return ints.wrap(v, y['bits'], y['k'] == 'int', st.F)
            if v.op == 'lin' and y['k'] == 'float' and sy.get('k') in ('int', 'uint') and sy['bits'] == y['bits']:
                from .models import ffrom
                return ffrom(ints.wrap(v, y['bits'], False, st.F), y['bits'])
            if sy.get('k') == 'float' and y['k'] in ('int', 'uint') and sy['bits'] == y['bits']:
                from .models import fbits
                b = fbits(v, y['bits'])
                return b if y['k'] == 'uint' else ints.wrap(b, y['bits'], True, st.F)
            if v.op == 'agg' and v.args[0] == 'box' and y.get('def') == 'alloc::boxed::Box':
                return v
            return canon(T('transmute', v, to), to)
        if kind == 'IntToFloat':
            return T('itof', v, y['bits'])
        if kind == 'FloatToInt':
            t = T('ftoi', v, y['s'])
            return canon(t, to)
        if kind == 'FloatToFloat':
            if sy.get('bits') == y.get('bits'):
                return v
            return T('ftof', v, y['bits'])
        if kind.startswith('PointerExpose') or kind.startswith('PointerWithExposed'):
            return canon(T('unk', fresh_id(), 'address'), to)
        return canon(T('castop', kind, v, to), to)

    def binop(self, st, op, a, b, ta, tb):
        F = st.F
        y = TY[ta] if ta is not None else {'k': '?'}
        if y['k'] == 'float':
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return self.fcmp(op, a, b)
            return T('fop', op, a, b)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if values.is_bool(a) or values.is_bool(b):
                e = values.iff(a, b)
                if op == 'Eq':
                    return e
                if op == 'Ne':
                    return bnot(e)
                if op == 'Lt':
                    return band(bnot(a), b)
                if op == 'Le':
                    return bor(bnot(a), b)
                if op == 'Gt':
                    return band(a, bnot(b))
                return bor(a, bnot(b))
            if a.op in ('mref', 'sref', 'oref') or b.op in ('mref', 'sref', 'oref'):
                if op in ('Eq', 'Ne'):
                    e = TRUE if a is b and a.op == 'mref' else batom(T('ptrcmp', 'Eq', *seqs._ord(a, b)))
                    if a.op in ('mref', 'sref', 'oref') and b.op in ('mref', 'sref', 'oref'):
                        # one address holds one value
                        x, z = self.read_ref(st, a), self.read_ref(st, b)
                        if x.op == z.op:
                            e = band(e, values.val_eq(x, z, F))
                    return e if op == 'Eq' else bnot(e)
                return batom(T('ptrcmp', op, a, b))
            if a.op != 'lin':
                a = atom(a)
            if b.op != 'lin':
                b = atom(b)
            if op == 'Eq':
                return eqi(a, b)
            if op == 'Ne':
                return bnot(eqi(a, b))
            if op == 'Lt':
                return lt(a, b)
            if op == 'Le':
                return le(a, b)
            if op == 'Gt':
                return lt(b, a)
            return le(b, a)
        if values.is_bool(a) and values.is_bool(b):
            if op == 'BitAnd':
                return band(a, b)
            if op == 'BitOr':
                return bor(a, b)
            if op == 'BitXor':
                return bnot(values.iff(a, b))
        if op == 'Cmp':
            return self.ordering(st, a, b)
        if op == 'Offset':
            return unk('ptr offset')
        if a.op != 'lin':
            a = atom(a)
        if b.op != 'lin':
            b = atom(b)
        a, b = F.subst(a), F.subst(b)
        if y['k'] not in ('int', 'uint'):
            return T('binop', op, a, b)
        bits, sg = y['bits'], y['k'] == 'int'
        lo, hi = ints.trange(bits, sg)
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked',
                  'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            o = op[:3]
            r = add(a, b) if o == 'Add' else sub(a, b) if o == 'Sub' else mul(a, b)
            if o == 'Mul':
                self.mul_axioms(r)
            if op.endswith('WithOverflow'):
                ov = bor(le(r, I(lo - 1)), le(I(hi + 1), r))
                q = F.ask(ov)
                if q is None:
                    raise NeedSplit(ov)
                return tup(ints.wrap(r, bits, sg, F) if q else r, B(q))
            if op.endswith('Unchecked'):
                return r
            return ints.wrap(r, bits, sg, F)
        if op in ('Div', 'Rem'):
            c = const_of(b)
            if c is not None and c > 0:
                if not F.ent_le(scale(a, -1)):
                    if F.ask(le(ZERO, a)) is None:
                        raise NeedSplit(le(ZERO, a))
                    if F.ask(le(ZERO, a)) is False:
                        q = scale(ints.div(scale(a, -1), c), -1)
                        return q if op == 'Div' else sub(a, scale(q, c))
                q = ints.div(a, c)
                return q if op == 'Div' else sub(a, scale(q, c))
            t = T('binop', op, a, b)
            TM.INFO.setdefault(t, (0, hi) if not sg else (lo, hi))
            if not sg and t not in TM.AXIOMS:
                if op == 'Rem':
                    TM.AXIOMS[t] = (sub(atom(t), sub(b, ONE)), sub(atom(t), a))
                else:
                    TM.AXIOMS[t] = (sub(atom(t), a),)
            return atom(t)
        cb = const_of(b)
        if op in ('Shl', 'ShlUnchecked') and cb is not None:
            return ints.wrap(scale(a, 1 << (cb % bits)), bits, sg, F)
        if op in ('Shr', 'ShrUnchecked') and cb is not None:
            return ints.div(a, 1 << (cb % bits))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            ca = const_of(a)
            if ca is not None and cb is None:
                a, b, ca, cb = b, a, cb, ca
            if sg:
                if cb is not None and not F.ent_le(scale(a, -1)):
                    # work on the unsigned image
                    ua = ints.wrap(a, bits, False, F)
                    r = self.bitop(op, ua, ints.wrapc(cb, bits, False), bits, F)
                    return ints.wrap(r, bits, True, F)
            if cb is not None and (not sg or cb >= 0):
                return self.bitop(op, a, cb, bits, F)
            if op in ('BitOr', 'BitXor', 'BitAnd') and not sg:
                for x, z in ((a, b), (b, a)):
                    k = ints.low_zero(z)
                    if k and F.ent_le(sub(x, I((1 << k) - 1))):
                        return ZERO if op == 'BitAnd' else add(x, z)
        t = T('binop', op, *((a, b) if op in ('Shl', 'Shr') else seqs._ord(a, b)))
        TM.INFO.setdefault(t, (lo, hi))
        return atom(t)

    def mul_axioms(self, r):
        for t, k in r.args[1]:
            if t.op == 'mul' and t not in TM.INFO:
                x, y = t.args
                xl, xh = TM.INFO.get(x, (None, None))
                yl, yh = TM.INFO.get(y, (None, None))
                if xl is not None and yl is not None and xl >= 0 and yl >= 0:
                    TM.INFO[t] = (xl * yl, None if xh is None or yh is None else xh * yh)
                else:
                    TM.INFO[t] = (None, None)

    def bitop(self, op, a, c, bits, F):
        if op == 'BitAnd':
            return F.subst(ints.and_const(a, c, bits))
        m = ints.and_const(a, c, bits)
        if op == 'BitOr':
            return F.subst(sub(add(a, I(c)), m))
        return F.subst(sub(add(a, I(c)), scale(m, 2)))

    def ordering(self, st, a, b):
        n = 'core::cmp::Ordering'
        if a.op != 'lin' or b.op != 'lin':
            return canon(T('cmp', a, b), values.ty_by_name('core::cmp::Ordering'))
        r = st.F.ask(lt(a, b))
        if r is None:
            raise NeedSplit(st.F.subst(lt(a, b)))
        if r:
            return agg(n, 0)
        r = st.F.ask(eqi(a, b))
        if r is None:
            raise NeedSplit(st.F.subst(eqi(a, b)))
        return agg(n, 1 if r else 2)

    def fcmp(self, op, a, b):
        # a<b and b>a are one fact; keep NaN-correct (no negation identities)
        if op == 'Gt':
            return batom(T('fcmp', 'Lt', b, a))
        if op == 'Ge':
            return batom(T('fcmp', 'Le', b, a))
        if op == 'Ne':
            return bnot(batom(T('fcmp', 'Eq', *seqs._ord(a, b))))
        if op == 'Eq':
            return batom(T('fcmp', 'Eq', *seqs._ord(a, b)))
        return batom(T('fcmp', op, a, b))

    def unop(self, st, op, a, t):
        if op == 'Not':
            if values.is_bool(a):
                return bnot(a)
            y = TY[t]
            if y['k'] == 'uint':
                return sub(I((1 << y['bits']) - 1), a)
            if y['k'] == 'int':
                return sub(I(-1), a)
        if op == 'Neg':
            y = TY[t]
            if y['k'] == 'float':
                return T('fneg', a)
            return ints.wrap(scale(a, -1), y['bits'], True, st.F)
        if op == 'PtrMetadata':
            if a.op in ('mref', 'sref', 'oref'):
                v = self.read_ref(st, a)
                if v.op == 'seq':
                    return seqs.length(v)
            return canon(T('unk', fresh_id(), 'metadata'), values.ty_by_name('usize'))
        return unk('unop')

    # ------------------------------------------------------------ execution
    def tick(self, n=1):
        self.steps += n
        if self.steps > self.budget:
            raise Budget()

    def call_fn(self, key, args, st, span):
        fn = self.p.fn(key)
        if fn is None:
            raise Undecided('no body for ' + key)
        if len(self.stack) > 90 or sum(1 for k, _ in self.stack if k == key) > 3:
            raise Undecided('recursion in ' + key)
        self.analysed.add(key)
        self.frame += 1
        fid = self.frame
        st = st.copy()
        j = fn.j
        if j.get('spread') is not None and j.get('spread'):
            sp = j['spread']
            # last formal is a tuple of the remaining actuals
            if len(args) >= sp:
                args = args[:sp - 1] + [T('agg', 'tuple', 0, *args[sp - 1:])] if len(args) != fn.argc or not (
                    args[sp - 1].op == 'agg' and args[sp - 1].args[0] == 'tuple') else args
        for i, a in enumerate(args):
            st.store[(fid, i + 1)] = a
        self.stack.append((key, span))
        try:
            outs = self.region(fn, fid, 0, st, None, None)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            s = o.st
            if o.kind == 'ret':
                if o.val is None:
                    o.val = s.store.get((fid, 0), UNIT)
            ks = [k for k in s.store if k[0] == fid]
            for k in ks:
                del s.store[k]
            res.append(o)
        return merge(res)

    def region(self, fn, fid, entry, st, body, header, first=True):
        """run from entry; leaves at returns, or at edges out of body / to header"""
        outs = []
        work = [(entry, st, first)]
        loops = fn.loops()
        while work:
            b, st, fst = work.pop()
            if body is not None and (b not in body or (b == header and not fst)):
                outs.append(Out('edge', st, b))
                continue
            if b in loops and not (b == header and fst):
                from . import loops as L
                for o in L.summarise(self, fn, fid, b, loops[b], st):
                    if o.kind == 'edge':
                        work.append((o.val, o.st, False))
                    else:
                        outs.append(o)
                continue
            for o in self.block(fn, fid, b, st):
                if o.kind == 'goto':
                    work.append((o.val, o.st, False))
                else:
                    outs.append(o)
            if len(work) + len(outs) > 6000:
                raise Budget()
        return outs

    def block(self, fn, fid, b, st):
        blk = fn.blocks[b]
        if blk is None:
            return []
        self.tick()
        st = st.copy()
        states = [st]
        for s in blk['s']:
            nxt = []
            for x in states:
                nxt.extend([x] if isinstance(x, Out) else self.split_retry(x, lambda y: self.stmt(fn, fid, s, y)))
            states = nxt
        outs = []
        for x in states:
            if isinstance(x, Out):
                outs.append(x)
            else:
                outs.extend(self.split_retry(x, lambda y: self.term(fn, fid, blk, y)))
        return outs

    def snapshot(self):
        return (self.hooks.snapshot(), dict(self.unknown_calls), len(self.loop_fail))

    def restore(self, snap):
        self.hooks.restore(snap[0])
        self.unknown_calls = dict(snap[1])
        del self.loop_fail[snap[2]:]

    def split_retry(self, st, f, limit=48):
        """run f on st, partitioning st whenever f asks for it"""
        out = []
        work = [(st, 0)]
        while work:
            x, n = work.pop()
            try:
                r = f(x.copy())
            except NeedSplit as e:
                if n > limit:
                    raise Undecided('split limit')
                parts = x.assume(e.cond) + x.assume(bnot(e.cond))
                if len(parts) == 1 and parts[0].F is x.F:
                    raise Undecided('useless split on ' + show(e.cond))
                for p in parts:
                    work.append((p, n + 1))
                continue
            except UbFound as e:
                r = [Out('ub', x, None, (str(e), self.stack[-1][0] if self.stack else '?', '', self.callchain()))]
            out.extend(r)
        return out

    def stmt(self, fn, fid, s, st):
        if s[0] == '=':
            dty = self.place_type(fn, s[1])
            v = self.rvalue(st, fid, fn, s[2], dty)
            loc, _ = self.resolve(st, fid, fn, s[1])
            self.store_loc(st, loc, v)
            return [st]
        if s[0] == 'assume':
            # whoever assumes promises: the other states have no defined meaning
            v = self.operand(st, fid, fn, s[1])
            return st.assume(v) + [Out('ub', x, None, ('assumption violated', fn.j['def'], s[2] if len(s) > 2 else '', self.callchain()))
                                   for x in st.assume(bnot(v))]
        if s[0] == 'sd':
            return [st]
        return [st]

    def term(self, fn, fid, blk, st):
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return [Out('goto', st, t[1])]
        if k == 'ret':
            return [Out('ret', st, st.store.get((fid, 0), UNIT))]
        if k == 'drop':
            return self.drop(st, fid, fn, t)
        if k == 'switch':
            return self.switch(st, fid, fn, t, blk.get('sp') or blk.get('spx'))
        if k == 'assert':
            c = self.operand(st, fid, fn, t[1])
            if not t[2]:
                c = bnot(c)
            if t[3][0] == 'rtcheck' and mentions(c, 'addr'):
                # compiler-inserted validity check of a pointer that is known to
                # come from an allocation: never null, always aligned
                return [Out('goto', st, t[4])]
            if self.p.wrapping and t[3][0] == 'overflow':
                # sums taken by the standard library, over at most the bytes in memory
                return [Out('goto', s, t[4]) for s in st.assume(c)]
            outs = [Out('goto', s, t[4]) for s in st.assume(c)]
            for s in st.assume(bnot(c)):
                outs.append(Out('panic', s, None, (t[3][0], fn.j['def'], blk.get('sp') or blk.get('spx'), self.callchain())))
            return outs
        if k == 'call':
            return self.call(st, fid, fn, t, blk)
        if k == 'unreachable':
            return [Out('unreach', st, None, ('unreachable', fn.j['def'], blk.get('sp'), self.callchain()))]
        return []

    def callchain(self):
        return tuple(k for k, _ in self.stack)

    def drop(self, st, fid, fn, t):
        return [Out('goto', st, t[2])]

    def switch(self, st, fid, fn, t, sp=None):
        outs = self.switch_(st, fid, fn, t)
        if len(outs) > 1 and sp:
            for o in outs:
                o.st = State(o.st.store, o.st.F, (o.st.trail + ('%s -> bb%d' % (sp, o.val),))[-40:])
        return outs

    def switch_(self, st, fid, fn, t):
        v = self.operand(st, fid, fn, t[1])
        y = TY[t[2]]
        outs = []
        if values.is_bool(v) or y['k'] == 'bool':
            if not values.is_bool(v):
                v = batom(v)
            rest = st
            for val, bb in t[3]:
                c = v if int(val) else bnot(v)
                for s in st.assume(c):
                    outs.append(Out('goto', s, bb))
            vals = {int(x[0]) for x in t[3]}
            if t[4] is not None:
                for x in (0, 1):
                    if x not in vals:
                        for s in st.assume(v if x else bnot(v)):
                            outs.append(Out('goto', s, t[4]))
            return outs
        if v.op != 'lin':
            v = atom(v)
        neg = TRUE
        rest = [st]
        for val, bb in t[3]:
            n = int(val)
            if y['k'] == 'int':
                n = ints.wrapc(n, y['bits'], True)
            c = eqi(v, I(n))
            nr = []
            for r in rest:
                for s in r.assume(c):
                    outs.append(Out('goto', s, bb))
                nr.extend(r.assume(bnot(c)))
            rest = nr
        if t[4] is not None:
            for r in rest:
                outs.append(Out('goto', r, t[4]))
        return outs

    # ------------------------------------------------------------ calls
    def call(self, st, fid, fn, t, blk):
        f, argops, dest, target, dty = t[1], t[2], t[3], t[4], t[5] if len(t) > 5 else None
        args = [self.operand(st, fid, fn, a) for a in argops]
        self.callsites += 1
        if f[0] == 'k' and f[1]['k'] == 'fn':
            c = f[1]
            if c.get('unsafe'):
                self.unsafe_calls.add((self.stack[-1][0] if self.stack else '?', c.get('rdef') or c['def']))
            outs = self.invoke(st, c, args, dty, blk.get('sp'), [self.op_type(fn, a) for a in argops])
        else:
            v = self.operand(st, fid, fn, f)
            outs = self.call_value(st, v, args, dty, blk.get('sp'))
        res = []
        for o in outs:
            if o.kind == 'ret':
                if target is None:
                    # diverging call that the model let return
                    continue
                loc, _ = self.resolve(o.st, fid, fn, dest)
                val = o.val
                if val.op not in ('agg', 'lin', 'seq', 'sref', 'mref') and dty is not None:
                    TM.TYP.setdefault(val, dty)
                self.store_loc(o.st, loc, val)
                res.append(Out('goto', o.st, target))
            else:
                res.append(o)
        return res

    def invoke(self, st, c, args, dty, span, atys=None):
        """call the function described by constant c"""
        name = c.get('rdef') or c['def']
        if c.get('ctor') is not None or c.get('ctorof') is not None:
            m = self.ctor(c, args, dty)
            if m is not None:
                return [Out('ret', st, m)]
        r = self.models.lookup(self, st, c, args, dty, span, atys)
        if r is not None:
            return r
        key = c.get('key')
        if key and self.p.fn(key) is not None and c.get('rk') != 'unresolved':
            return self.call_fn(key, args, st, span)
        r = self.models.contract(self, st, c, args, dty, span, atys)
        if r is not None:
            return r
        for kk in ('key', 'dkey'):
            key = c.get(kk)
            if key and self.p.fn(key) is not None:
                return self.call_fn(key, args, st, span)
        return self.havoc(st, c, args, dty, atys)

    def ctor(self, c, args, dty):
        y = TY[dty] if dty is not None else {}
        if y.get('k') == 'adt':
            return mkagg(y['def'], c.get('variant') or 0, args)
        return None

    def havoc(self, st, c, args, dty, atys=None):
        name = c.get('rdef') or c['def']
        self.unknown_calls[name] = self.unknown_calls.get(name, 0) + 1
        for a in args:
            self.havoc_ref(st, a)
        v = canon(T('unk', fresh_id(), short(name)), dty)
        return [Out('ret', st, v)]

    def havoc_ref(self, st, a, d=0):
        if a.op in ('mref', 'oref'):
            old = self.read_ref(st, a)
            i = TM.TYP.get(old)
            self.write_ref(st, a, retype(old, 'havoc'))
        elif a.op == 'agg' and d < 4:
            for x in a.args[2:]:
                if type(x) is Term:
                    self.havoc_ref(st, x, d + 1)

    def call_value(self, st, v, args, dty, span):
        """call a closure / fn item value with an argument list"""
        if v.op in ('sref', 'mref', 'oref'):
            inner = self.read_ref(st, v)
            if is_closure(inner):
                return self.call_closure(st, v, inner, args, dty, span)
            return self.call_value(st, inner, args, dty, span)
        if is_closure(v):
            return self.call_closure(st, None, v, args, dty, span)
        if v.op == 'fn':
            return self.invoke(st, self._cl[v.args[1]], list(args), dty, span)
        if v.op == 'agg' and v.args[0] == 'box':
            return self.call_value(st, v.args[2], args, dty, span)
        if self.hooks:
            r = self.hooks.call_opaque(self, st, v, args, dty)
            if r is not None:
                return r
        self.unknown_calls['fn value'] = self.unknown_calls.get('fn value', 0) + 1
        return [Out('ret', st, canon(T('unk', fresh_id(), 'fnvalue'), dty))]

    def closure_key(self, cl):
        _, d, t = cl
        ks = self.p.by_def.get(d) or []
        if len(ks) == 1:
            return ks[0]
        want = TY[t]['s'] if t is not None else None
        best = None
        for k in ks:
            f = self.p.raw[k]
            l1 = f['locals'][1] if len(f['locals']) > 1 else None
            if l1 is not None:
                y = l1
                if TY[y]['k'] in ('ref',):
                    y = TY[y]['e']
                if y == t:
                    return k
        return ks[0] if ks else None

    def call_closure(self, st, ref, clv, args, dty, span):
        key = self.closure_key(clv.args[0])
        if key is None:
            self.unknown_calls['closure'] = self.unknown_calls.get('closure', 0) + 1
            return [Out('ret', st, canon(T('unk', fresh_id(), 'closure'), dty))]
        f = self.p.fn(key)
        env_ty = TY[f.locals[1]]
        if env_ty['k'] == 'ref':
            if ref is not None and ref.op == 'mref':
                # keep identity so that by-value captured state is updated
                return self.call_fn(key, [ref] + list(args), st, span)
            s = ('cl', fresh_id())
            if env_ty.get('m'):
                st = st.copy()
                st.store[s] = clv
                return self.call_fn(key, [T('mref', s, ())] + list(args), st, span)
            return self.call_fn(key, [sref(clv)] + list(args), st, span)
        return self.call_fn(key, [clv] + list(args), st, span)


def is_closure(v):
    return v.op == 'agg' and type(v.args[0]) is tuple and v.args[0][0] == 'closure'


def short(n):
    return n.split('::')[-1]


def retype(old, why):
    """an unknown value of the same shape"""
    u_ = T('unk', fresh_id(), why)
    if old.op == 'lin':
        return atom(u_)
    if values.is_bool(old):
        return batom(u_)
    if old.op == 'seq':
        e = None
        return seqs.whole(u_)
    i = TM.TYP.get(old)
    if i is not None:
        return canon(u_, i)
    return u_


def newfacts(F, G):
    """facts of F not in G, as bool terms"""
    out = []
    for a, v in F.eqs.items():
        if a not in G.eqs:
            out.append(eq0(sub(atom(a), v)))
    for c in F.ins:
        if c not in G.ins:
            out.append(le0(c))
    for c in F.neq:
        if c not in G.neq:
            out.append(bnot(eq0(c)))
    for b, v in F.bools.items():
        if b not in G.bools:
            out.append(b if v else bnot(b))
    return out


def merge(outs):
    """join outcomes that agree on store and value"""
    return outs
