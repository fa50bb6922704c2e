"""Typed abstract values: materialisation, projection, update and equality."""
from .terms import *
from . import terms as TM
from . import seqs, ints
from .seqs import NeedSplit

TY = []          # type table of the analysed program
BIG = {'num_bigint::biguint::BigUint': (0, None), 'num_bigint::bigint::BigInt': (None, None)}
SEQ_ADTS = {'alloc::vec::Vec', 'alloc::string::String', 'alloc::collections::vec_deque::VecDeque',
            'arrayvec::ArrayVec', 'arrayvec::arrayvec::ArrayVec', 'smallvec::SmallVec'}
PTR_ADTS = {'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull'}
BOX = 'alloc::boxed::Box'


def ty(i):
    return TY[i] if i is not None else {'k': 'other', 's': '?'}


def int_range(t):
    return ints.trange(t['bits'], t['k'] == 'int')


def is_int(t):
    return t['k'] in ('int', 'uint', 'char')


def canon(t, i):
    """canonical value denoted by the opaque term t of type i"""
    if t.op in ('lin', 'agg', 'seq', 'sref', 'mref'):
        return t
    if i is None:
        return t
    y = TY[i]
    k = y['k']
    TM.TYP.setdefault(t, i)
    if k in ('int', 'uint'):
        if t not in TM.INFO:
            TM.INFO[t] = int_range(y)
        return atom(t)
    if k == 'char':
        TM.INFO.setdefault(t, (0, 0x10ffff))
        return atom(t)
    if k == 'bool':
        return batom(t)
    if k == 'ref':
        # lifetime-bound view of something unknown
        if y.get('m'):
            return T('oref', t)
        return sref(canon(T('deref', t), y['e']))
    if k == 'tuple':
        es = y.get('e') or []
        if not es:
            return UNIT
        return t
    if k == 'array':
        TM.ELTY.setdefault(t, y['e'])
        n = y.get('n')
        TM.LEN.setdefault(t, arrlen(n))
        return seqs.whole(t)
    if k == 'slice':
        TM.ELTY.setdefault(t, y['e'])
        return seqs.whole(t)
    if k == 'str':
        TM.ELTY.setdefault(t, U8())
        return seqs.whole(t)
    if k == 'adt':
        d = y['def']
        if d in BIG:
            TM.INFO.setdefault(t, BIG[d])
            return atom(t)
        if d in SEQ_ADTS:
            e = None
            if d == 'alloc::string::String':
                e = U8()
            else:
                e = first_ty(y)
            TM.ELTY.setdefault(t, e)
            return seqs.whole(t)
        if d == BOX:
            return T('agg', 'box', 0, canon(T('unbox', t), first_ty(y)))
        if d == 'core::marker::PhantomData':
            return agg(d, 0)
        if y.get('adt') == 'struct':
            if y.get('v') and not y['v'][0]['f']:
                return agg(d, 0)
    return t


seqs.set_canon(canon)


def first_ty(y):
    for a in y.get('args') or []:
        if isinstance(a, dict) and 't' in a:
            return a['t']
    return None


_u8 = None


def U8():
    global _u8
    if _u8 is None:
        for i, y in enumerate(TY):
            if y['k'] == 'uint' and y.get('bits') == 8 and y['s'] == 'u8':
                _u8 = i
                break
    return _u8


def reset(types):
    global _u8
    TY[:] = types
    _u8 = None
    _bys.clear()


_bys = {}


def ty_by_name(s):
    if not _bys:
        for i, y in enumerate(TY):
            _bys.setdefault(y['s'], i)
    return _bys.get(s)


def cparam(n):
    a = T('cparam', n)
    TM.INFO.setdefault(a, (0, (1 << 64) - 1))
    return atom(a)


def arrlen(n):
    if n is None:
        return atom(T('sym', fresh_id(), 'n'))
    if isinstance(n, int):
        return I(n)
    if isinstance(n, dict):
        if n['k'] in ('param', 'cparam'):
            a = T('cparam', n['n'])
            TM.INFO.setdefault(a, (0, (1 << 64) - 1))
            return atom(a)
        if 'v' in n:
            return I(int(n['v']))
        a = T('constexpr', str(n.get('s') or n.get('def') or n))
        TM.INFO.setdefault(a, (0, seqs.MAXLEN))
        return atom(a)
    if isinstance(n, str):
        try:
            return I(int(n))
        except ValueError:
            return cparam(n)
    return atom(T('constexpr', str(n)))


def adt_variants(t):
    i = TM.TYP.get(t)
    if i is None:
        return None
    y = TY[i]
    if y['k'] == 'adt':
        return y.get('v')
    return None


def discr_of(v, F, tyi=None):
    """discriminant value (linear term)"""
    if v.op == 'agg':
        vs = variants_of_name(v.args[0], tyi)
        if vs is not None and v.args[1] < len(vs):
            d = vs[v.args[1]].get('d')
            if d is not None:
                return I(int(d))
        return I(v.args[1])
    if v.op == 'lin':
        return v
    if tyi is not None:
        TM.TYP.setdefault(v, tyi)
    vs = adt_variants(v)
    a = T('discr', v)
    if vs:
        n = len(vs)
        if a not in TM.INFO:
            TM.INFO[a] = (0, n - 1)
        ds = [int(x['d']) if x.get('d') is not None else j for j, x in enumerate(vs)]
        if ds == list(range(n)):
            return atom(a)
        for j in range(n):
            r = F.ask(eqi(atom(a), I(j)))
            if r:
                return I(ds[j])
            if r is None:
                raise NeedSplit(eqi(atom(a), I(j)))
    return atom(a)


def only_variant(t):
    """discriminant of the single inhabited variant of a type, if there is one"""
    y = TY[t] if t is not None else {}
    if y.get('k') != 'adt' or not y.get('v'):
        return None

    def empty(i):
        z = TY[i] if i is not None else {}
        return z.get('k') == 'never' or z.get('k') == 'adt' and z.get('adt') == 'enum' and z.get('v') == []
    vs = [v for v in y['v'] if not any(empty(f['t']) for f in v['f'])]
    return int(vs[0]['d']) if len(vs) == 1 and len(y['v']) > 1 else None


def variants_of_name(name, tyi):
    if tyi is not None and TY[tyi]['k'] == 'adt':
        return TY[tyi].get('v')
    return None


def variant_index(v, F):
    """variant of an enum value, or None if unknown"""
    if v.op == 'agg':
        return v.args[1]
    return const_of(F.subst(atom(T('discr', v))))


def discr_atom(v):
    a = T('discr', v)
    vs = adt_variants(v)
    if a not in TM.INFO and vs:
        TM.INFO[a] = (0, len(vs) - 1)
    return atom(a)


def mkagg(name, variant, fs, tyi=None):
    """aggregate with eta-collapse of fully re-read opaque structs"""
    if name == 'core::slice::iter::Iter' and len(fs) == 3 and fs[0].op == 'sref' and fs[0].args[0].op == 'seq':
        return agg(name, variant, fs[0].args[0])      # an inlined slice::iter()
    if name == 'alloc::vec::Vec' and len(fs) == 2 and fs[1] is I(0):
        return seqs.EMPTY                             # an inlined Vec::new()
    if name == 'alloc::string::String' and len(fs) == 1:
        if fs[0].op == 'seq':
            return fs[0]
        if fs[0].op == 'agg' and fs[0].args[0] == 'alloc::vec::Vec' and fs[0].args[-1] is I(0):
            return seqs.EMPTY
    if fs:
        b = fldbase(fs[0], variant, 0)
        if b is not None and b.op != 'elt_none' and TM.TYP.get(b) is not None:
            y = TY[TM.TYP[b]]
            nm = 'tuple' if y['k'] == 'tuple' else y.get('def')
            if nm == name and (y['k'] == 'tuple' or len(y.get('v') or ()) == 1) and \
                    all(fldbase(f, variant, j) is b for j, f in enumerate(fs)):
                if y['k'] != 'adt' or len(y['v'][0]['f']) == len(fs):
                    return b
    return agg(name, variant, *fs)


def fldbase(x, variant, j):
    if x.op == 'lin':
        if x.args[0] == 0 and len(x.args[1]) == 1 and x.args[1][0][1] == 1:
            x = x.args[1][0][0]
        else:
            return None
    elif x.op == 'b':
        x = x.args[0]
    elif x.op == 'sref':
        y = seqs.unwrap_deref(x.args[0])
        if y is None:
            return None
        x = y
    elif x.op == 'oref':
        x = x.args[0]
    elif x.op in ('seq', 'agg'):
        y = seqs.unwrap_whole(x)
        if y is None:
            return None
        x = y
    if x.op == 'fld' and x.args[1] == variant and x.args[2] == j:
        return x.args[0]
    return None


def field(v, variant, i, tyi):
    """read field i of the given variant"""
    if v.op == 'agg':
        if v.args[1] != variant or 2 + i >= len(v.args):
            return canon(T('unk', fresh_id(), 'badfield'), tyi)
        return v.args[2 + i]
    if v.op in ('mref', 'oref'):
        return v          # pointer newtypes
    if v.op == 'sref':
        return v
    if v.op in ('seq', 'lin', 'b', 'true', 'false', 'fn'):
        return canon(T('unk', fresh_id(), 'field of ' + v.op), tyi)
    return canon(T('fld', v, variant, i), tyi)


def expand(v, variant=0):
    """opaque struct -> aggregate of its fields"""
    i = TM.TYP.get(v)
    if i is None:
        return None
    y = TY[i]
    if y['k'] == 'tuple':
        es = y.get('e') or []
        return T('agg', 'tuple', 0, *[canon(T('fld', v, 0, j), e) for j, e in enumerate(es)])
    if y['k'] == 'closure':
        return None
    if y['k'] == 'adt' and y.get('v'):
        vs = y['v']
        if variant >= len(vs):
            return None
        return T('agg', y['def'], variant, *[canon(T('fld', v, variant, j), f['t']) for j, f in enumerate(vs[variant]['f'])])
    return None


def set_field(v, variant, i, x, tyi=None):
    if v.op != 'agg':
        if tyi is not None:
            TM.TYP.setdefault(v, tyi)
        e = expand(v, variant)
        if e is None:
            return T('unk', fresh_id(), 'setfield')
        v = e
    fs = list(v.args[2:])
    if i >= len(fs):
        return T('unk', fresh_id(), 'setfield')
    fs[i] = x
    return mkagg(v.args[0], v.args[1], fs)


# ---------------------------------------------------------------- equality
def val_eq(a, b, F, depth=0):
    """bool term: condition under which a and b are equal"""
    if a is b:
        return TRUE
    a2, b2 = F.subst(a), F.subst(b)
    if a2 is b2:
        return TRUE
    a, b = a2, b2
    if a.op == 'lin' and b.op == 'lin':
        return eqi(a, b)
    if is_bool(a) and is_bool(b):
        return iff(a, b)
    if a.op == 'sref' and b.op == 'sref':
        return val_eq(a.args[0], b.args[0], F, depth + 1)
    if a.op == 'seq' and b.op == 'seq':
        return seqs.seq_eq(a, b, F, lambda x, y: val_eq(x, y, F, depth + 1))
    if a.op == 'hashed' and b.op == 'hashed':
        return band(val_eq(a.args[0], b.args[0], F, depth + 1), val_eq(a.args[1], b.args[1], F, depth + 1))
    if depth > 40:
        return batom(T('eq', *seqs._ord(a, b)))
    if a.op == 'agg' and b.op == 'agg':
        if a.args[0] != b.args[0] or len(a.args) != len(b.args):
            if a.args[0] == b.args[0] and a.args[1] != b.args[1]:
                return FALSE
            return batom(T('eq', *seqs._ord(a, b)))
        if a.args[1] != b.args[1]:
            return FALSE
        return band(*[val_eq(x, y, F, depth + 1) for x, y in zip(a.args[2:], b.args[2:])])
    if b.op == 'agg' and a.op != 'agg':
        a, b = b, a
    if a.op == 'agg' and b.op not in ('seq', 'lin', 'sref', 'mref'):
        if a.args[0] == 'box':
            i = TM.TYP.get(b)
            e = first_ty(TY[i]) if i is not None else None
            return val_eq(a.args[2], canon(T('unbox', b), e), F, depth + 1)
        vs = adt_variants(b)
        i = TM.TYP.get(b)
        if vs is not None or (i is not None and TY[i]['k'] == 'tuple'):
            conds = []
            if vs is not None and len(vs) > 1:
                c = eqi(discr_atom(b), I(a.args[1]))
                r = F.ask(c)
                if r is False:
                    return FALSE
                conds.append(c)
            e = expand(b, a.args[1])
            if e is not None and len(e.args) == len(a.args):
                return band(*(conds + [val_eq(x, y, F, depth + 1) for x, y in zip(a.args[2:], e.args[2:])]))
    # two opaque values: try their (finitely many) structure
    if a.op != 'agg' and b.op != 'agg':
        ta, tb = TM.TYP.get(a), TM.TYP.get(b)
        if ta is not None and ta == tb and TY[ta]['k'] == 'adt':
            va, vb = variant_index(a, F), variant_index(b, F)
            if va is not None and vb is not None and va != vb:
                return FALSE
            if va is not None and va == vb and adt_variants(a) and not adt_variants(a)[va]['f']:
                return TRUE
            vs = adt_variants(a)
            if vs and depth < 4 and len(vs) <= 3 and all(x.get('d') is None or int(x['d']) == n for n, x in enumerate(vs)):
                conds = []
                da, db = discr_atom(a), discr_atom(b)
                if len(vs) > 1:
                    conds.append(eqi(da, db))
                for n in range(len(vs)):
                    if va is not None and n != va or vb is not None and n != vb:
                        continue
                    x, y = expand(a, n), expand(b, n)
                    if x is None or y is None or len(x.args) != len(y.args):
                        break
                    c = band(*[val_eq(p, q, F, depth + 1) for p, q in zip(x.args[2:], y.args[2:])])
                    if c is TRUE:
                        continue
                    conds.append(c if len(vs) == 1 or va is not None or vb is not None
                                 else bor(bnot(eqi(da, I(n))), c))
                else:
                    return band(*conds)
    return batom(T('eq', *seqs._ord(a, b)))


def is_bool(t):
    return t.op in ('true', 'false', 'b', 'le0', 'eq0', 'not', 'and', 'or')


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return bnot(b)
    if b is FALSE:
        return bnot(a)
    return bor(band(a, b), band(bnot(a), bnot(b)))
