"""Analysis of one specification function."""
import time, traceback
from .terms import *
from . import terms as TM
from . import seqs, values, models, loops, hooks as H
from .interp import Interp, Program, State, Out, Undecided, Budget, CompileError
from .facts import Facts
from .values import TY, canon
from .seqs import NeedSplit


class RootResult:
    def __init__(self, root):
        self.root = root
        self.obls = {}        # id -> [ok, bad, und]
        self.bad = []         # (id, details)
        self.und = []
        self.reached = {}
        self.steps = 0
        self.callsites = 0
        self.loops = 0
        self.analysed = set()
        self.unsafe_calls = set()
        self.unknown = {}
        self.loop_fail = []
        self.cases = 0
        self.error = None
        self.time = 0
        self.paths = 0


def reset_tables():
    pass


def run_case(prog, key, known, budget):
    seqs.KNOWNLEN.clear()
    seqs.MINENC[0] = 0
    for n, k in known.items():
        if k is not None:
            seqs.KNOWNLEN[n] = k
    seqs._len.clear()
    I_ = Interp(prog, models, budget)
    hk = H.Hooks(key, known)
    I_.hooks = hk
    fn = prog.fn(key)
    st = State()
    args = []
    for i in range(fn.argc):
        args.append(canon(T('arg', i, key), fn.locals[i + 1]))
    try:
        outs = I_.call_fn(key, args, st, None)
    except (Undecided, Budget, NeedSplit, RecursionError) as e:
        # what was judged before the analysis stopped stands
        hk.stopped = e
        return I_, hk, []
    for o in outs:
        if o.kind == 'ub':
            hk.obl('no-ub')
            mark(I_, hk, 'no-ub', o)
        elif o.kind == 'panic':
            f = o.st.store.get(('total',))
            if f is not None:
                mark(I_, hk, f.args[0], o)
        elif o.kind == 'unreach':
            mark(I_, hk, 'no-unreachable', o)
    return I_, hk, outs


def mark(I_, hk, oid, o):
    ob = hk.obl(oid)
    if not o.st.F.consistent():
        return
    where = '%s in %s at %s' % (o.info[0], o.info[1].split('@')[0], o.info[2])
    chain = [H.short_key(k) for k in o.info[3]] if len(o.info) > 3 else []
    if H.tainted_state(o.st, TRUE):
        ob.und += 1
        ob.details.append(('undecided', where, chain))
    else:
        ob.bad += 1
        ob.details.append(('violated', where, list(o.st.trail[-14:]) + chain, o.st.F.describe()[:3000]))


def run_root(prog, key, budget=400000):
    r = RootResult(key)
    t0 = time.time()
    todo = [{}]
    while todo:
        known = todo.pop()
        try:
            I_, hk, outs = run_case(prog, key, known, budget)
        except H.NeedCase as e:
            a = dict(known)
            a[e.ty] = None
            b = dict(known)
            k = T('sym', fresh_id(), 'LEN_' + e.ty)
            TM.INFO[k] = (1, 1 << 40)
            b[e.ty] = atom(k)
            todo += [a, b]
            if not seqs.MINENC[0]:
                c = dict(known)
                c[e.ty] = ZERO
                todo.append(c)
            continue
        except (H.SkipCase, CompileError):
            continue
        except (Undecided, Budget, NeedSplit, RecursionError) as e:
            r.error = '%s: %s' % (type(e).__name__, e.cond if isinstance(e, NeedSplit) else e)
            continue
        except Exception as e:
            r.error = 'internal: ' + traceback.format_exc()[-1200:]
            continue
        e = hk.stopped
        if e is not None:
            r.error = '%s: %s' % (type(e).__name__, e.cond if isinstance(e, NeedSplit) else e)
        r.cases += 1
        r.steps += I_.steps
        r.callsites += I_.callsites
        r.loops += I_.loops_done
        r.analysed |= I_.analysed
        r.unsafe_calls |= I_.unsafe_calls
        r.paths += len(outs)
        for n, c in I_.unknown_calls.items():
            r.unknown[n] = r.unknown.get(n, 0) + c
        r.loop_fail += I_.loop_fail
        for oid, o in hk.obls.items():
            x = r.obls.setdefault(oid, [0, 0, 0])
            x[0] += o.ok
            x[1] += o.bad
            x[2] += o.und
            for d in o.details:
                (r.bad if d[0] == 'violated' else r.und).append((oid,) + d)
        for k, v in hk.reached.items():
            r.reached[k] = r.reached.get(k, 0) + v
    r.time = time.time() - t0
    return r
