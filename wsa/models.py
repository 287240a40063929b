"""Models of library functions (core/alloc/std containers, iterators, byte I/O, formatting)."""
from .terms import *
from .state import *
from .facts import strip_generics

TM = {}     # 'Trait::method'
PM = {}     # generic-free path


def tm(*names):
    def d(f):
        for n in names:
            TM[n] = f
        return f
    return d


def pm(*names):
    def d(f):
        for n in names:
            PM[n] = f
        return f
    return d


def ret(st, v):
    return [('ret', st, v)]


class Call:
    """everything about a call a model may need"""
    __slots__ = ('ip', 'st', 'depth', 'callee', 'args', 'dty', 'line', 'path')

    def __init__(self, ip, st, depth, callee, args, dty, line, path):
        self.ip = ip
        self.st = st
        self.depth = depth
        self.callee = callee
        self.args = args
        self.dty = dty
        self.line = line
        self.path = path

    def targs(self):
        return self.callee.get('args') or []

    def rargs(self):
        return self.callee.get('rargs') or self.callee.get('args') or []

    def read(self, p):
        if not (isinstance(p, tuple) and p[0] == 'p'):
            raise Unsupported('pointer expected: %s' % (str(p)[:80],))
        return self.ip.read(self.st, p[1], p[2])

    def write(self, p, v):
        self.ip.write(self.st, p[1], p[2], v)

    def some(self, v, t=None):
        return ('en', t if t is not None else self.dty, 1, (v,))

    def none(self, t=None):
        return ('en', t if t is not None else self.dty, 0, ())

    def ok(self, v, t=None):
        return ('en', t if t is not None else self.dty, 0, (v,))

    def err(self, v, t=None):
        return ('en', t if t is not None else self.dty, 1, (v,))

    def fieldty(self, t, vi, fi):
        return self.ip.field_types(t, vi)[fi]

    def split_states(self, conss):
        """[(state, index)] for the alternatives that are feasible"""
        out = []
        for i, cs in enumerate(conss):
            s = self.st.copy()
            s.nsplit += 1
            if all(s.assume(c) for c in cs) and not s.infeasible():
                out.append((s, i))
        return out


def unit(c):
    return ('st', c.dty, ())


UNIT = ('st', None, ())


def deref_all(c, p):
    """follow references to references"""
    while True:
        v = c.read(p)
        if isinstance(v, tuple) and v and v[0] == 'p':
            p = v
            continue
        return p, v


def runsplit(st, f):
    """runs f(state) -> list, re-running on refined states when a decision is missing"""
    res = []
    stack = [st]
    n = 0
    while stack:
        s = stack.pop()
        pre = s.copy()
        n += 1
        if n > 3000:
            raise Unsupported('too many splits')
        try:
            res.extend(f(s))
        except Split as e:
            for a in e.alts:
                x = pre.copy()
                x.nsplit += 1
                if all(x.assume(q) for q in a) and not x.infeasible():
                    stack.append(x)
    return res


# ---------------------------------------------------------------------- identity like functions

GUARDS = ('std::sync::poison::mutex::MutexGuard', 'std::sync::poison::rwlock::RwLockReadGuard', 'std::sync::poison::rwlock::RwLockWriteGuard',
          'core::cell::Ref', 'core::cell::RefMut', 'std::sync::lazy_lock::LazyLock')


@tm('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut')
def m_deref(c):
    p = c.args[0]
    if not (isinstance(p, tuple) and p[0] == 'p'):
        return NotImplemented
    t = c.ip.w.types[c.dty]
    e = c.ip.w.types[t['e']] if t['k'] in ('ref', 'ptr') else None
    v = c.read(p)
    want = e['k'] if e else None
    if isinstance(v, tuple) and v and v[0] == 'sy' and e and c.callee['name'].startswith('deref') and c.ip.w.types[v[1]].get('path', '') in GUARDS:
        # the object behind a lock or a checked borrow
        return ret(c.st, ('p', ('d', ('behind', v[2]), t['e']), (), c.ip.sym_meta(t['e'], ('behind', v[2]))))
    # references to references
    while isinstance(v, tuple) and v and v[0] == 'p' and c.callee['name'] in ('as_ref', 'as_mut'):
        if v[3] and v[3][0] in ('len',):
            return ret(c.st, v)
        p, v = v, c.read(v)
    if isinstance(v, tuple) and v:
        if v[0] == 'p' and c.callee['name'] in ('deref', 'deref_mut', 'borrow', 'borrow_mut'):
            if v[3] is None and e and e['k'] in ('slice', 'str', 'dyn') and False:
                pass
            if e and e['k'] == 'dyn' and v[3] is None:
                return NotImplemented
            return ret(c.st, v)
        if v[0] in ('vec', 'bm'):
            if p[3] and p[3][0] == 'len':
                return ret(c.st, p)
            if want in ('slice', 'str') or want is None:
                return ret(c.st, ('p', p[1], p[2], ('len', 0, seqlen(v[2]))))
            return ret(c.st, ('p', p[1], p[2], None))
        st_ = c.targs() and c.ip.w.types[c.targs()[0]]
        if st_ and st_['k'] == 'adt' and st_['path'] == 'alloc::borrow::Cow' or is_cow(c, v):
            vi = c.ip.variant_of(c.st, v)
            f = c.ip.enum_fields(c.st, v, vi)
            if vi == 0:
                return ret(c.st, f[0])
            if v[0] == 'sy':
                c.write(p, ('en', v[1], 1, f))
            o = f[0]
            if o[0] in ('vec', 'bm'):
                return ret(c.st, ('p', p[1], p[2] + (('v', 1), 0), ('len', 0, seqlen(o[2]))))
            return ret(c.st, ('p', p[1], p[2] + (('v', 1), 0), None))
    if e is not None and st_same(c, v, t['e']):
        return ret(c.st, ('p', p[1], p[2], None))
    if c.callee['kind'] == 'unresolved' and e is not None and e['k'] == 'dyn':
        return ret(c.st, ('p', p[1], p[2], ('dyn', None)))
    return NotImplemented


def st_same(c, v, t):
    return isinstance(v, tuple) and len(v) > 1 and v[0] in ('st', 'sy', 'en', 'et') and v[1] == t


def is_cow(c, v):
    if v[0] in ('en', 'sy') and isinstance(v[1], int):
        x = c.ip.w.types[v[1]]
        return x['k'] == 'adt' and x['path'] == 'alloc::borrow::Cow'
    return False


@tm('Clone::clone')
def m_clone(c):
    p = c.args[0]
    w = c.ip.w
    t = w.types[c.dty]
    # types of this workspace implement Clone themselves: derived code is analysed, unless it is only a copy
    f = c.callee.get('fn')
    if f is not None and f in w.fns and w.fns[f]['crate'].startswith('websocket'):
        return NotImplemented
    if t['k'] in ('ref',):
        return ret(c.st, c.read(p))
    if p[3] and p[3][0] == 'len':
        segs, e = c.ip.seq_of(c.st, p)
        return ret(c.st, ('vec', e, segs))
    return clone_val(c, c.read(p), c.dty)


def clone_val(c, v, t):
    x = c.ip.w.types[t]
    if isinstance(v, tuple) and v and v[0] == 'p' and (x.get('box') or x.get('path') == 'alloc::boxed::Box'):
        inner = c.read(v)
        if v[3] and v[3][0] == 'len':
            inner = ('vec', c.ip.seq_of(c.st, v)[1], c.ip.seq_of(c.st, v)[0])
        cell = c.ip.alloc(c.st, inner)
        return ret(c.st, ('p', cell, (), v[3] if not (v[3] and v[3][0] == 'len') else ('len', 0, v[3][2])))
    if isinstance(v, tuple) and v and v[0] == 'bm':
        return ret(c.st, ('bm', v[1], v[2], anon(('fr', c.st.fresh(), 'rem'))))
    return ret(c.st, v)


@tm('ToOwned::to_owned', 'ToString::to_string')
def m_toowned(c):
    p = c.args[0]
    if c.callee['name'] == 'to_string':
        return to_string(c, p)
    v = c.read(p)
    if p[3] and p[3][0] == 'len' or isinstance(v, tuple) and v[0] in ('vec', 'bm'):
        segs, e = c.ip.seq_of(c.st, p)
        return ret(c.st, ('vec', e, segs))
    return ret(c.st, v)


@pm('alloc::str::<impl str>::to_lowercase', 'alloc::str::<impl str>::to_uppercase', 'alloc::str::<impl str>::to_ascii_lowercase',
    'core::str::<impl str>::to_ascii_lowercase', 'alloc::str::<impl str>::to_ascii_uppercase')
def m_case(c):
    segs, e = c.ip.seq_of(c.st, c.args[0])
    segs = seqnorm(segs)
    up = 'upper' in c.callee['name']
    if all(g[0] == 'k' for g in segs):
        b = b''.join(g[1] for g in segs)
        return ret(c.st, ('vec', e, bytes_seq(b.upper() if up else b.lower())))
    nm = ('case', 'U' if up else 'L', segs)
    return ret(c.st, ('vec', e, (('s', nm, 0, lenof(nm)),)))


@pm('core::mem::replace')
def m_replace(c):
    old = c.read(c.args[0])
    c.write(c.args[0], c.args[1])
    return ret(c.st, old)


@pm('core::mem::swap')
def m_swap(c):
    a, b = c.read(c.args[0]), c.read(c.args[1])
    c.write(c.args[0], b)
    c.write(c.args[1], a)
    return ret(c.st, unit(c))


@pm('core::mem::take')
def m_take(c):
    old = c.read(c.args[0])
    v = default_of(c, c.dty)
    if v is None:
        return NotImplemented
    c.write(c.args[0], v)
    return ret(c.st, old)


def default_of(c, t):
    x = c.ip.w.types[t]
    if c.ip.int_range(t):
        return 0
    if x['k'] == 'adt':
        if x['path'] in ('alloc::vec::Vec',):
            return ('vec', x['args'][0], ())
        if x['path'] == 'alloc::string::String':
            return ('vec', c.ip.tu8, ())
        if x['path'] == 'bytes::bytes::BytesMut':
            return ('bm', c.ip.tu8, (), 0)
        if x['path'] == 'core::option::Option':
            return ('en', t, 0, ())
    if x['k'] == 'array' and isinstance(x['n'], int) and x['n'] <= 64:
        d = default_of(c, x['e'])
        if d is not None:
            if x['e'] == c.ip.tu8:
                return ('vec', x['e'], bytes_seq(b'\0' * x['n']))
            return ('vec', x['e'], tuple(('1', d) for _ in range(x['n'])))
    if x['k'] == 'tuple':
        fs = [default_of(c, f) for f in x['f']]
        if all(f is not None for f in fs):
            return ('st', t, tuple(fs))
    return None


@tm('Default::default')
def m_default(c):
    f = c.callee.get('fn')
    if f is not None and f in c.ip.w.fns and c.ip.w.fns[f]['crate'].startswith('websocket'):
        return NotImplemented
    v = default_of(c, c.dty)
    return NotImplemented if v is None else ret(c.st, v)


@pm('core::mem::drop', 'core::mem::forget', 'core::hint::black_box')
def m_drop(c):
    return ret(c.st, unit(c))


@pm('core::intrinsics::cold_path', 'core::intrinsics::assert_inhabited', 'core::intrinsics::assume')
def m_nop(c):
    return ret(c.st, unit(c))


@pm('core::hint::must_use')
def m_id(c):
    return ret(c.st, c.args[0])


@pm('core::intrinsics::is_val_statically_known')
def m_zero(c):
    return ret(c.st, 0)


@tm('Into::into', 'From::from')
def m_into(c):
    v = c.args[0]
    w = c.ip.w
    ta = c.targs()
    d = w.types[c.dty]
    if ta and ta[0] == c.dty and (len(ta) == 1 or ta[1] == c.dty) and len(ta) > 1:
        return ret(c.st, v)
    # integer widening
    if c.ip.int_range(c.dty) and is_num(v):
        return ret(c.st, v)
    if isinstance(v, tuple) and v and d['k'] == 'adt':
        if d['path'] in ('alloc::string::String', 'alloc::vec::Vec'):
            if v[0] == 'p':
                segs, e = c.ip.seq_of(c.st, v)
                return ret(c.st, ('vec', e, segs))
            if v[0] in ('vec', 'bm'):
                return ret(c.st, ('vec', v[1], v[2]))
        if d['path'] == 'alloc::borrow::Cow' and (v[0] in ('p', 'vec') or v[0] == 'vec'):
            if v[0] == 'p':
                if v[3] is None:
                    # &Vec / &String
                    inner = c.read(v)
                    if isinstance(inner, tuple) and inner[0] == 'vec':
                        v = ('p', v[1], v[2], ('len', 0, seqlen(inner[2])))
                return ret(c.st, ('en', c.dty, 0, (v,)))
            return ret(c.st, ('en', c.dty, 1, (v,)))
        if d['path'] == 'alloc::boxed::Box':
            e = w.types[d['args'][0]]
            if e['k'] == 'dyn' and ta:
                src = ta[1] if c.callee['name'] == 'from' and len(ta) > 1 else ta[0]
                if v[0] == 'p' and v[3] and v[3][0] == 'len':
                    segs, _ = c.ip.seq_of(c.st, v)
                    cell = c.ip.alloc(c.st, ('ob', 'strerr', segs))
                    return ret(c.st, ('p', cell, (), ('dyn', None)))
                if v[0] == 'vec':
                    cell = c.ip.alloc(c.st, ('ob', 'strerr', v[2]))
                    return ret(c.st, ('p', cell, (), ('dyn', None)))
                cell = c.ip.alloc(c.st, v)
                return ret(c.st, ('p', cell, (), ('dyn', src)))
            cell = c.ip.alloc(c.st, v)
            return ret(c.st, ('p', cell, (), None))
        if d['path'] == 'core::io::error::Error' or d['path'] == 'std::io::error::Error':
            if v[0] in ('en', 'et'):
                return ret(c.st, ('ob', 'ioerr', v, None))
        if d['path'] == 'core::option::Option' and ta:
            src = ta[1] if c.callee['name'] == 'from' and len(ta) > 1 else ta[0]
            if src != c.dty:
                return ret(c.st, ('en', c.dty, 1, (v,)))
    return NotImplemented


@tm('TryFrom::try_from', 'TryInto::try_into')
def m_tryfrom(c):
    v = c.args[0]
    x = c.ip.w.types[c.dty]
    okt = c.ip.field_types(c.dty, 0)[0]
    ot = c.ip.w.types[okt]
    if is_num(v):
        r = c.ip.int_range(okt)
        if r and c.st.truth(mk_le(sub(r[0], v))) and c.st.truth(mk_le(sub(v, r[1]))):
            return ret(c.st, c.ok(v))
        if r:
            return ret(c.st, c.err(('sy', c.ip.field_types(c.dty, 1)[0], 'tryfrom')))
    if isinstance(v, tuple) and ot['k'] == 'array' and isinstance(ot['n'], int) and v[0] in ('p', 'vec'):
        segs, e = c.ip.seq_of(c.st, v) if v[0] == 'p' else (v[2], v[1])
        n = seqlen(segs)
        if c.st.truth(mk_eq(sub(n, ot['n']))):
            return ret(c.st, c.ok(('vec', e, explode(c, segs, ot['n'], e))))
        return ret(c.st, c.err(('sy', c.ip.field_types(c.dty, 1)[0], 'tryfrom')))
    if isinstance(v, tuple) and ot['k'] == 'ref' and v[0] == 'p' and c.ip.w.types[ot['e']]['k'] == 'array':
        segs, e = c.ip.seq_of(c.st, v)
        n = c.ip.w.types[ot['e']]['n']
        if c.st.truth(mk_eq(sub(seqlen(segs), n))):
            return ret(c.st, c.ok(v))
        return ret(c.st, c.err(('sy', c.ip.field_types(c.dty, 1)[0], 'tryfrom')))
    return NotImplemented


def explode(c, segs, n, ety):
    """explicit elements when n is a small constant"""
    n = c.st.concrete(n) if not isinstance(n, int) else n
    if n is None or n > 64:
        return segs
    out = []
    for i in range(n):
        out.append(('1', c.ip.seq_at(c.st, segs, i, ety)))
    return tuple(out)


@tm('PartialEq::eq', 'PartialEq::ne')
def m_eq(c):
    f = c.callee.get('fn')
    w = c.ip.w
    if f is not None and f in w.fns and w.fns[f]['crate'].startswith('websocket'):
        # a type of this workspace: look at what its implementation does
        return NotImplemented
    a, b = c.args
    inner = payload_eq(c, a, b)
    if inner is not None:
        return inner
    try:
        r = val_eq(c, a, b)
    except Unsupported:
        if f is not None and f in w.fns:
            return NotImplemented
        raise
    return ret(c.st, r if c.callee['name'] == 'eq' else c_not(r))


def payload_eq(c, a, b):
    """equality of options of types of this workspace: their own implementation decides about the content"""
    ip, st = c.ip, c.st

    def value(v):
        while isinstance(v, tuple) and v and v[0] == 'p' and not (v[3] and v[3][0] == 'len'):
            v = c.read(v)
        return v
    a, b = value(a), value(b)
    if not all(isinstance(v, tuple) and v and v[0] in ('en', 'sy') and isinstance(v[1], int) and ip.w.types[v[1]].get('path') == 'core::option::Option' for v in (a, b)):
        return None
    t = ip.field_types(a[1], 1)[0]
    while ip.w.types[t]['k'] == 'ref':
        t = ip.w.types[t]['e']
    f = find_impl(ip, 'PartialEq', 'eq', t)
    if f is None or not f['crate'].startswith('websocket'):
        return None
    va, vb = ip.variant_of(st, a), ip.variant_of(st, b)
    no = c.callee['name'] != 'eq'
    if va != vb or va == 0:
        return ret(st, int((va == vb) != no))
    ps = []
    for v, vi in ((a, va), (b, vb)):
        x = ip.enum_fields(st, v, vi)[0]
        while isinstance(x, tuple) and x and x[0] == 'p' and isinstance(c.read(x), tuple) and c.read(x)[:1] == ('p',):
            x = c.read(x)
        ps.append(x if isinstance(x, tuple) and x and x[0] == 'p' else ('p', ip.alloc(st, x), (), None))
    outs = ip.exec_fn(f, ps, st, c.depth + 1)
    if not no:
        return outs
    return [('ret', o[1], c_not(o[2])) if o[0] == 'ret' else o for o in outs]


def val_eq(c, a, b):
    """condition a == b, looking through references"""
    ip, st = c.ip, c.st
    if a == b and not (isinstance(a, tuple) and a and a[0] == 'sy' and False):
        return 1
    if isinstance(a, tuple) and a and a[0] == 'p':
        if a[3] and a[3][0] == 'len':
            sa = ip.seq_of(st, a)
            sb = seq_val(c, b)
            return seq_eq(c, sa[0], sb[0], sa[1])
        return val_eq(c, ip.read(st, a[1], a[2]), b)
    if isinstance(b, tuple) and b and b[0] == 'p':
        return val_eq(c, b, a)
    if is_num(a) and is_num(b):
        return ip.compare(st, 'Eq', a, b)
    if isinstance(a, tuple) and a[0] == 'C' or isinstance(b, tuple) and b[0] == 'C':
        return ip.compare(st, 'Eq', a, b)
    if is_num(a) or is_num(b):
        raise Unsupported('eq number/other')
    # Cow
    for x, y in ((a, b), (b, a)):
        if x[0] in ('en', 'sy') and is_cow(c, x):
            vi = ip.variant_of(st, x)
            return val_eq(c, ip.enum_fields(st, x, vi)[0], y)
    if a[0] in ('vec', 'bm') and b[0] in ('vec', 'bm'):
        return seq_eq(c, a[2], b[2], a[1])
    for x in (a, b):
        if x[:2] == ('ob', 'status'):
            from .urls import number_of
            return ip.compare(st, 'Eq', number_of(ip, st, a), number_of(ip, st, b))
        if x[0] in ('st', 'sy') and isinstance(x[1], int) and ip.w.types[x[1]].get('path') == 'unicase::UniCase':
            from .http import ci_eq, text_of
            return ci_eq(text_of(c, a), text_of(c, b))
    if a[0] == 'st' and b[0] == 'st' and len(a[2]) == len(b[2]):
        r = 1
        for x, y in zip(a[2], b[2]):
            r = ip.bool_op(st, 'BitAnd', r, val_eq(c, x, y)) if r != 0 else 0
        return r
    if a[0] in ('et', 'en') and b[0] in ('et', 'en'):
        if a[0] == 'et' or b[0] == 'et':
            ta = tab(a[2], a[3]) if a[0] == 'et' else a[2]
            tb = tab(b[2], b[3]) if b[0] == 'et' else b[2]
            return mk_eq(sub(ta, tb))
        if a[2] != b[2]:
            return 0
        r = 1
        for x, y in zip(a[3], b[3]):
            r = ip.bool_op(st, 'BitAnd', r, val_eq(c, x, y)) if r != 0 else 0
        return r
    if a[0] == 'sy' or b[0] == 'sy':
        s = a if a[0] == 'sy' else b
        x = ip.w.types[s[1]]
        if x['k'] == 'adt' and x['adt'] == 'enum':
            va, vb = ip.variant_of(st, a), ip.variant_of(st, b)
            if va != vb:
                return 0
            r = 1
            for p, q in zip(ip.enum_fields(st, a, va), ip.enum_fields(st, b, vb)):
                r = ip.bool_op(st, 'BitAnd', r, val_eq(c, p, q)) if r != 0 else 0
            return r
        k = sorted([a, b], key=repr)
        return boolf(('eqv', k[0], k[1]))
    if a[0] == 'ob' and b[0] == 'ob':
        k = sorted([a, b], key=repr)
        return boolf(('eqv', k[0], k[1]))
    raise Unsupported('eq of %s / %s' % (a[0], b[0]))


def seq_val(c, v):
    if v[0] == 'p':
        return c.ip.seq_of(c.st, v)
    if v[0] in ('vec', 'bm'):
        return v[2], v[1]
    if v[0] in ('en', 'sy') and is_cow(c, v):
        vi = c.ip.variant_of(c.st, v)
        return seq_val(c, c.ip.enum_fields(c.st, v, vi)[0])
    raise Unsupported('sequence value')


def explicit(segs):
    out = []
    for g in segs:
        if g[0] == '1':
            out.append(g[1])
        elif g[0] == 'k':
            out.extend(g[1])
        elif g[0] == 's' and isinstance(g[3], int) and g[3] <= 64:
            for i in range(g[3]):
                out.append(elem_u8(g[1], add(g[2], i)))
        else:
            return None
    return out


def cased(a):
    """(direction, text) if a is a whole text with its case mapped"""
    if len(a) == 1 and a[0][0] == 's' and a[0][2] == 0 and isinstance(a[0][1], tuple) and a[0][1] and a[0][1][0] == 'case' and a[0][3] == lenof(a[0][1]):
        return a[0][1][1:]
    return None


def cased_eq(a, b):
    """equality with a text mapped to one case is equality ignoring the case"""
    from .http import ci_eq, flat
    x, y = cased(a), cased(b)
    if x is None and y is None:
        return None
    if x is not None and y is not None:
        return ci_eq(x[1], y[1]) if x[0] == y[0] else None
    (d, t), o = (x, b) if x is not None else (y, a)
    f = flat(o)
    if f is None:
        return None
    if f != (f.upper() if d == 'U' else f.lower()):
        return 0
    return ci_eq(t, o)


def seq_eq(c, a, b, ety):
    st = c.st
    a, b = seqnorm(st.nf(a)), seqnorm(st.nf(b))
    if a == b:
        return 1
    r = cased_eq(a, b)
    if r is not None:
        return r
    la, lb = seqlen(a), seqlen(b)
    r = st.prove(mk_eq(sub(la, lb)))
    if r is False:
        return 0
    u8 = ety == c.ip.tu8
    if all(g[0] == 'k' for g in a) and all(g[0] == 'k' for g in b):
        return 0
    if r is None and (la == 0 or lb == 0):
        return mk_eq(sub(la, lb))
    xa = explicit(a) if u8 or all(g[0] in '1k' for g in a) else None
    xb = explicit(b) if u8 or all(g[0] in '1k' for g in b) else None
    if r is True and xa is not None and xb is not None:
        res = 1
        for x, y in zip(xa, xb):
            q = val_eq(c, x, y)
            res = c.ip.bool_op(st, 'BitAnd', res, q)
            if res == 0:
                return 0
        return res
    for x, y in ((a, b), (b, a)):
        # a scheme that is none of the known ones
        if len(x) == 1 and x[0][0] == 'o' and isinstance(x[0][1], tuple) and x[0][1][0] == 'url' and x[0][1][2] == 'scheme' and all(g[0] == 'k' for g in y):
            from .urls import KNOWN
            if b''.join(g[1] for g in y) in KNOWN:
                return 0
    k = sorted([a, b], key=repr)
    # strip common prefix cheaply
    return boolf(('seqeq', k[0], k[1]))


@tm('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_ord(c):
    f = c.callee.get('fn')
    w = c.ip.w
    if f is not None and f in w.fns and w.fns[f]['crate'].startswith('websocket'):
        return NotImplemented
    a, b = num_of(c, c.args[0]), num_of(c, c.args[1])
    return ret(c.st, c.ip.compare(c.st, {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[c.callee['name']], a, b))


def num_of(c, v):
    while isinstance(v, tuple) and v and v[0] == 'p':
        v = c.read(v)
    if is_num(v):
        return v
    if v[0] == 'st' and len(v[2]) == 1:
        return num_of(c, v[2][0])
    if v[0] in ('en', 'et', 'sy'):
        x = c.ip.w.types[v[1]]
        if x['k'] == 'adt' and x['adt'] == 'enum' and all(not y[2] for y in x['variants']):
            if v[0] == 'en':
                return v[2]
            if v[0] == 'et':
                return tab(v[2], v[3])
    raise Unsupported('number expected')


@tm('Ord::min', 'Ord::max')
def m_minmax(c):
    a, b = c.args
    if not (is_num(a) and is_num(b)):
        return NotImplemented
    le = c.st.truth(mk_le(sub(a, b)))
    mn = c.callee['name'] == 'min'
    return ret(c.st, a if le == mn else b)


@pm('core::cmp::min', 'core::cmp::max')
def m_minmax2(c):
    return m_minmax(c)


@tm('Ord::cmp', 'PartialOrd::partial_cmp')
def m_cmp(c):
    try:
        a, b = num_of(c, c.args[0]), num_of(c, c.args[1])
    except Unsupported:
        return NotImplemented
    t = c.dty
    if c.callee['name'] == 'partial_cmp':
        t = c.ip.field_types(c.dty, 1)[0]
    if c.st.truth(mk_eq(sub(a, b))):
        v = ('en', t, 1, ())
    elif c.st.truth(mk_le(sub(a, b))):
        v = ('en', t, 0, ())
    else:
        v = ('en', t, 2, ())
    if t != c.dty:
        v = c.some(v)
    return ret(c.st, v)


# ---------------------------------------------------------------------- integers

def int_method(name):
    return ['core::num::<impl %s>::%s' % (t, name) for t in ('u8', 'u16', 'u32', 'u64', 'usize', 'u128', 'i32', 'i64', 'isize')]


@pm(*int_method('wrapping_add'), *int_method('wrapping_sub'), *int_method('wrapping_mul'))
def m_wrapping(c):
    op = c.callee['name'].split('_')[1]
    a, b = c.args
    r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else c.ip.num_mul(c.st, a, b)
    return ret(c.st, c.ip.wrap(c.st, r, c.dty))


@pm(*int_method('checked_add'), *int_method('checked_sub'), *int_method('checked_mul'))
def m_checked(c):
    op = c.callee['name'].split('_')[1]
    a, b = c.args
    r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else c.ip.num_mul(c.st, a, b)
    t = c.fieldty(c.dty, 1, 0)
    lo, hi = c.ip.int_range(t)
    if c.st.truth(mk_le(sub(lo, r))) and c.st.truth(mk_le(sub(r, hi))):
        return ret(c.st, c.some(r))
    return ret(c.st, c.none())


@pm(*int_method('saturating_add'), *int_method('saturating_sub'), *int_method('saturating_mul'), 'core::intrinsics::saturating_add', 'core::intrinsics::saturating_sub')
def m_saturating(c):
    op = c.callee['name'].split('_')[1]
    a, b = c.args
    r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else c.ip.num_mul(c.st, a, b)
    lo, hi = c.ip.int_range(c.dty)
    if not c.st.truth(mk_le(sub(lo, r))):
        return ret(c.st, lo)
    if not c.st.truth(mk_le(sub(r, hi))):
        return ret(c.st, hi)
    return ret(c.st, r)


@pm(*int_method('to_be_bytes'), *int_method('to_le_bytes'), *int_method('to_ne_bytes'))
def m_tobytes(c):
    n = c.ip.w.types[c.dty]['n']
    bs = [c.ip.byte_of(c.st, c.args[0], n - 1 - i) for i in range(n)]
    if 'be' not in c.callee['name']:
        bs.reverse()
    return ret(c.st, ('vec', c.ip.tu8, tuple(('1', b) for b in bs)))


@pm(*int_method('from_be_bytes'), *int_method('from_le_bytes'), *int_method('from_ne_bytes'))
def m_frombytes(c):
    bs = explicit(c.args[0][2])
    if bs is None:
        return NotImplemented
    if 'be' not in c.callee['name']:
        bs.reverse()
    return ret(c.st, c.ip.from_bytes(bs))


@pm(*int_method('swap_bytes'))
def m_swapb(c):
    n = c.ip.w.types[c.dty]['bits'] // 8
    bs = [c.ip.byte_of(c.st, c.args[0], i) for i in range(n)]
    return ret(c.st, c.ip.from_bytes(bs))


# ---------------------------------------------------------------------- boxes

@pm('alloc::boxed::Box::new', 'alloc::rc::Rc::new', 'alloc::sync::Arc::new')
def m_box(c):
    cell = c.ip.alloc(c.st, c.args[0])
    return ret(c.st, ('p', cell, (), None))


@pm('alloc::boxed::Box::new_uninit')
def m_boxu(c):
    cell = ('h', c.st.fresh())
    c.st.mem[cell] = ('ob', 'uninit')
    return ret(c.st, ('p', cell, (), None))


@pm('alloc::boxed::box_assume_init_into_vec_unsafe', 'alloc::slice::<impl [T]>::into_vec')
def m_boxvec(c):
    p = c.args[0]
    v = c.read(p)
    while isinstance(v, tuple) and v[0] == 'st' and len(v[2]) == 1:
        v = v[2][0]
    if isinstance(v, tuple) and v[0] == 'vec':
        if c.ip.tu8 == v[1]:
            return ret(c.st, ('vec', v[1], seqnorm(ones_to_k(v[2]))))
        return ret(c.st, v)
    raise Unsupported('into_vec of %s' % (str(v)[:60],))


# ---------------------------------------------------------------------- vectors and slices

def mk_seq(c, segs, ety=None):
    return ('vec', c.ip.tu8 if ety is None else ety, segs)


@pm('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity', 'alloc::string::String::new', 'alloc::string::String::with_capacity',
    'alloc::vec::Vec::with_capacity_in', 'alloc::vec::Vec::new_in')
def m_vnew(c):
    t = c.ip.w.types[c.dty]
    e = t['args'][0] if t['path'] == 'alloc::vec::Vec' else c.ip.tu8
    if 'with_capacity' in c.callee['name']:
        c.st.ev = c.st.ev + (('prealloc', c.args[0], elem_size(c, e)),)
        # capacity overflow: more than isize::MAX bytes
        k = c.args[0]
        sz = elem_size(c, e)
        cond = mk_le(sub(mul(k, sz), ISIZE)) if sz else 1
        r = c.st.prove(cond)
        if r is not True:
            out = []
            s = c.st.copy()
            if all(s.assume(q) for q in c.st.alts(cond)[1]) and not s.infeasible():
                out.append(('panic', s, (c.path, 'capacity overflow', c.line)))
            if r is None and all(c.st.assume(q) for q in c.st.alts(cond)[0]):
                out.append(('ret', c.st, ('vec', e, ())))
            return out
    return ret(c.st, ('vec', e, ()))


def elem_size(c, e):
    x = c.ip.w.types[e]
    if x['k'] == 'int':
        return x['bits'] // 8
    if x['k'] == 'tuple' and not x['f']:
        return 0
    return 8


@pm('alloc::vec::Vec::push', 'alloc::string::String::push')
def m_push(c):
    p = c.args[0]
    v = c.read(p)
    x = c.args[1]
    if 'String' in c.path:
        if isinstance(x, int) and x < 128:
            x = x
        elif isinstance(x, int):
            b = chr(x).encode()
            c.write(p, c.ip.with_segs(v, seqnorm(v[2] + bytes_seq(b))))
            return ret(c.st, unit(c))
        else:
            raise Unsupported('push char')
    g = ('k', bytes([x])) if isinstance(x, int) and v[1] == c.ip.tu8 else ('1', x)
    c.write(p, c.ip.with_segs(v, seqnorm(v[2] + (g,))))
    return ret(c.st, unit(c))


@pm('alloc::vec::Vec::extend_from_slice', 'alloc::string::String::push_str', 'bytes::bytes::BytesMut::extend_from_slice', 'bytes::bytes::Bytes::extend_from_slice')
def m_extend(c):
    p = c.args[0]
    v = c.read(p)
    segs, _ = c.ip.seq_of(c.st, c.args[1])
    v2 = c.ip.with_segs(v, seqnorm(v[2] + segs))
    if v[0] == 'bm':
        v2 = v2[:3] + (bm_left(c, v, seqlen(segs)),)
    c.write(p, v2)
    return ret(c.st, unit(c))


def bm_left(c, v, n):
    """remaining capacity after a growing append"""
    if c.st.prove(mk_le(sub(n, v[3]))) is True:
        return sub(v[3], n)
    return anon(('fr', c.st.fresh(), 'rem'))


@pm('alloc::vec::Vec::append')
def m_append(c):
    a, b = c.args
    va, vb = c.read(a), c.read(b)
    c.write(a, c.ip.with_segs(va, seqnorm(va[2] + vb[2])))
    c.write(b, c.ip.with_segs(vb, ()))
    return ret(c.st, unit(c))


@pm('alloc::vec::Vec::reserve', 'alloc::string::String::reserve', 'alloc::vec::Vec::reserve_exact', 'alloc::vec::Vec::shrink_to_fit', 'alloc::string::String::shrink_to_fit')
def m_reserve(c):
    return ret(c.st, unit(c))


@pm('alloc::vec::Vec::clear', 'alloc::string::String::clear', 'bytes::bytes::BytesMut::clear')
def m_clear(c):
    v = c.read(c.args[0])
    if v[0] == 'bm':
        c.write(c.args[0], ('bm', v[1], (), add(v[3], seqlen(v[2]))))
    else:
        c.write(c.args[0], c.ip.with_segs(v, ()))
    return ret(c.st, unit(c))


@pm('alloc::vec::Vec::truncate', 'bytes::bytes::BytesMut::truncate', 'alloc::string::String::truncate')
def m_truncate(c):
    v = c.read(c.args[0])
    n = seqlen(v[2])
    if c.st.truth(mk_le(sub(n, c.args[1]))):
        return ret(c.st, unit(c))
    a, _ = c.ip.cut(c.st, v[2], c.args[1])
    if v[0] == 'bm':
        c.write(c.args[0], ('bm', v[1], a, add(v[3], sub(n, c.args[1]))))
    else:
        c.write(c.args[0], c.ip.with_segs(v, a))
    return ret(c.st, unit(c))


@pm('bytes::bytes::BytesMut::unsplit')
def m_unsplit(c):
    v, o = c.read(c.args[0]), c.args[1]
    c.write(c.args[0], ('bm', v[1], seqnorm(v[2] + o[2]), anon(('fr', c.st.fresh(), 'rem'))))
    return ret(c.st, unit(c))


@pm('bytes::bytes::Bytes::slice', 'bytes::bytes::Bytes::slice_from', 'bytes::bytes::Bytes::slice_to')
def m_bytes_slice(c):
    v = c.read(c.args[0])
    n = seqlen(v[2])
    k = c.callee['name']
    a, b = (c.args[1], c.args[2]) if k == 'slice' else (c.args[1], n) if k == 'slice_from' else (0, c.args[1])
    if not c.st.truth(mk_le(sub(a, b))) or not c.st.truth(mk_le(sub(b, n))):
        return [('panic', c.st, (c.path, 'slice out of range', c.line))]
    _, x = c.ip.cut(c.st, v[2], a)
    x, _ = c.ip.cut(c.st, x, sub(b, a))
    return ret(c.st, ('vec', v[1], x))


@pm('alloc::vec::Vec::resize', 'bytes::bytes::BytesMut::resize')
def m_resize(c):
    v = c.read(c.args[0])
    n = seqlen(v[2])
    new = c.args[1]
    if c.st.truth(mk_le(sub(new, n))):
        a, _ = c.ip.cut(c.st, v[2], new)
    else:
        a = seqnorm(v[2] + (('m', c.args[2], sub(new, n)),))
    c.st.ev = c.st.ev + (('prealloc', new, elem_size(c, v[1])),)
    c.write(c.args[0], c.ip.with_segs(v, a))
    return ret(c.st, unit(c))


@pm('alloc::vec::from_elem')
def m_fromelem(c):
    t = c.ip.w.types[c.dty]
    e = t['args'][0]
    c.st.ev = c.st.ev + (('prealloc', c.args[1], elem_size(c, e)),)
    n = c.args[1]
    x = c.args[0]
    out = []
    cond = mk_le(sub(mul(n, elem_size(c, e)), ISIZE))
    r = c.st.prove(cond)
    if r is not True:
        s = c.st.copy()
        if all(s.assume(q) for q in c.st.alts(cond)[1]) and not s.infeasible():
            out.append(('panic', s, (c.path, 'capacity overflow', c.line)))
        if r is False or not all(c.st.assume(q) for q in c.st.alts(cond)[0]):
            return out
    if isinstance(x, int) and isinstance(n, int) and n <= 4096 and e == c.ip.tu8:
        return out + ret(c.st, ('vec', e, bytes_seq(bytes([x]) * n)))
    return out + ret(c.st, ('vec', e, seqnorm((('m', x, n),))))


@pm('alloc::vec::Vec::pop')
def m_pop(c):
    v = c.read(c.args[0])
    n = seqlen(v[2])
    if c.st.truth(mk_eq(n)):
        return ret(c.st, c.none())
    a, b = c.ip.cut(c.st, v[2], sub(n, 1))
    x = c.ip.seq_at(c.st, b, 0, v[1])
    c.write(c.args[0], c.ip.with_segs(v, a))
    return ret(c.st, c.some(x))


@pm('alloc::vec::Vec::remove', 'alloc::vec::Vec::swap_remove')
def m_remove(c):
    v = c.read(c.args[0])
    n = seqlen(v[2])
    i = c.args[1]
    cond = mk_le(add(sub(i, n), 1))
    if not c.st.truth(cond):
        return [('panic', c.st, (c.path, 'remove index', c.line))]
    a, b = c.ip.cut(c.st, v[2], i)
    x = c.ip.seq_at(c.st, b, 0, v[1])
    _, d = c.ip.cut(c.st, b, 1)
    if c.callee['name'] == 'swap_remove':
        m = sub(sub(n, i), 1)
        if c.st.truth(mk_le(sub(1, m))):
            f, l = c.ip.cut(c.st, d, sub(m, 1))
            d = l + f
    c.write(c.args[0], c.ip.with_segs(v, seqnorm(a + d)))
    return ret(c.st, x)


@pm('alloc::vec::Vec::insert')
def m_insert(c):
    v = c.read(c.args[0])
    n = seqlen(v[2])
    i = c.args[1]
    if not c.st.truth(mk_le(sub(i, n))):
        return [('panic', c.st, (c.path, 'insert index', c.line))]
    a, b = c.ip.cut(c.st, v[2], i)
    c.write(c.args[0], c.ip.with_segs(v, seqnorm(a + (('1', c.args[2]),) + b)))
    return ret(c.st, unit(c))


@pm('alloc::vec::Vec::split_off')
def m_splitoff(c):
    v = c.read(c.args[0])
    if not c.st.truth(mk_le(sub(c.args[1], seqlen(v[2])))):
        return [('panic', c.st, (c.path, 'split_off index', c.line))]
    a, b = c.ip.cut(c.st, v[2], c.args[1])
    c.write(c.args[0], c.ip.with_segs(v, a))
    return ret(c.st, ('vec', v[1], b))


@pm('alloc::vec::Vec::drain')
def m_drain(c):
    v = c.read(c.args[0])
    r = range_of(c, c.args[1], seqlen(v[2]))
    lo, hi = r
    if not (c.st.truth(mk_le(sub(lo, hi))) and c.st.truth(mk_le(sub(hi, seqlen(v[2]))))):
        return [('panic', c.st, (c.path, 'drain range', c.line))]
    a, b = c.ip.cut(c.st, v[2], lo)
    m, d = c.ip.cut(c.st, b, sub(hi, lo))
    c.write(c.args[0], c.ip.with_segs(v, seqnorm(a + d)))
    return ret(c.st, ('it', 'seq', v[1], m, 0, seqlen(m)))


@pm('alloc::vec::Vec::len', 'core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'alloc::string::String::len',
    'bytes::bytes::BytesMut::len', 'bytes::bytes::Bytes::len')
def m_len(c):
    return ret(c.st, c.st.nf(ptr_len(c, c.args[0])))


def ptr_len(c, p):
    if not (isinstance(p, tuple) and p[0] == 'p'):
        raise Unsupported('len of non pointer')
    if p[3] and p[3][0] == 'len':
        return p[3][2]
    v = c.read(p)
    if isinstance(v, tuple) and v[0] == 'p':
        return ptr_len(c, v)
    if isinstance(v, tuple) and v[0] == 'it':
        raise Unsupported('iterator length')
    return seqlen(c.ip.segs(v))


@pm('alloc::vec::Vec::is_empty', 'core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty', 'alloc::string::String::is_empty',
    'bytes::bytes::BytesMut::is_empty')
def m_isempty(c):
    return ret(c.st, mk_eq(c.st.nf(ptr_len(c, c.args[0]))))


@pm('alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice', 'alloc::string::String::as_str', 'alloc::string::String::as_bytes',
    'core::str::<impl str>::as_bytes', 'alloc::string::String::as_mut_str', 'core::str::<impl str>::as_bytes_mut',
    'core::array::<impl [T; N]>::as_slice')
def m_asslice(c):
    p = c.args[0]
    if p[3] and p[3][0] == 'len':
        return ret(c.st, p)
    return ret(c.st, ('p', p[1], p[2], ('len', 0, ptr_len(c, p))))


@pm('core::str::converts::from_utf8_unchecked', 'core::str::from_utf8_unchecked')
def m_utf8u(c):
    return ret(c.st, c.args[0])


@pm('alloc::string::String::into_bytes', 'alloc::string::String::from_utf8_unchecked', 'alloc::vec::Vec::into_boxed_slice')
def m_same(c):
    if c.callee['name'] == 'into_boxed_slice':
        cell = c.ip.alloc(c.st, c.args[0])
        return ret(c.st, ('p', cell, (), ('len', 0, seqlen(c.args[0][2]))))
    return ret(c.st, c.args[0])


def utf8_cond(c, segs):
    segs = seqnorm(ones_to_k(seqnorm(c.st.nf(segs))))
    if c.st.prove(mk_eq(seqlen(segs))) is True:
        return 1
    if all(g[0] == 'k' for g in segs):
        try:
            b''.join(g[1] for g in segs).decode()
            return 1
        except UnicodeDecodeError:
            return 0
    if all(g[0] == 's' and isinstance(g[1], tuple) and g[1] and g[1][0] in ('utf8', 'token') or g[0] == 'k' and is_utf8(g[1]) for g in segs):
        return 1
    return boolf(('utf8', segs))


def is_utf8(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


@pm('core::str::converts::from_utf8', 'core::str::<impl str>::from_utf8', 'core::str::from_utf8')
def m_fromutf8(c):
    segs, e = c.ip.seq_of(c.st, c.args[0])
    if c.st.truth(utf8_cond(c, segs)):
        return ret(c.st, c.ok(c.args[0]))
    et = c.ip.field_types(c.dty, 1)[0]
    return ret(c.st, c.err(('sy', et, ('utf8err', seqnorm(c.st.nf(segs))))))


@pm('alloc::string::String::from_utf8')
def m_sfromutf8(c):
    v = c.args[0]
    if c.st.truth(utf8_cond(c, v[2])):
        return ret(c.st, c.ok(v))
    et = c.ip.field_types(c.dty, 1)[0]
    return ret(c.st, c.err(('ob', 'fromutf8', v, et)))


@pm('alloc::string::FromUtf8Error::utf8_error')
def m_utf8error(c):
    v = c.read(c.args[0])
    if v[0] == 'ob':
        return ret(c.st, ('sy', c.dty, ('utf8err', seqnorm(c.st.nf(v[2][2])))))
    return ret(c.st, ('sy', c.dty, ('utf8error', v)))


@pm('alloc::string::FromUtf8Error::as_bytes')
def m_utf8bytes(c):
    v = c.read(c.args[0])
    if v[0] == 'ob':
        segs = v[2][2]
        return ret(c.st, ('p', ('c', v[2]), (), ('len', 0, seqlen(segs))))
    return NotImplemented


@pm('alloc::string::FromUtf8Error::into_bytes')
def m_utf8into(c):
    v = c.args[0]
    if v[0] == 'ob':
        return ret(c.st, v[2])
    return NotImplemented


@pm('alloc::string::String::from_utf8_lossy')
def m_lossy(c):
    segs, e = c.ip.seq_of(c.st, c.args[0])
    if c.st.truth(utf8_cond(c, segs)):
        return ret(c.st, ('en', c.dty, 0, (c.args[0],)))
    nm = ('lossy', seqnorm(c.st.nf(segs)))
    return ret(c.st, ('en', c.dty, 1, (('vec', e, (('s', nm, 0, lenof(nm)),)),)))


@pm('alloc::slice::<impl [T]>::to_vec', 'core::slice::<impl [T]>::to_vec', 'bytes::bytes::BytesMut::to_vec')
def m_tovec(c):
    segs, e = c.ip.seq_of(c.st, c.args[0])
    return ret(c.st, ('vec', e, segs))


@pm('alloc::slice::<impl [T]>::concat')
def m_concat(c):
    segs, e = c.ip.seq_of(c.st, c.args[0])
    out = ()
    ety = c.ip.tu8
    for g in segs:
        if g[0] != '1':
            raise Unsupported('concat of opaque')
        s, ety = seq_val(c, g[1])
        out += s
    return ret(c.st, ('vec', ety, seqnorm(out)))


@pm('core::slice::<impl [T]>::clone_from_slice', 'core::slice::<impl [T]>::copy_from_slice')
def m_copyfrom(c):
    d, s = c.args
    ss, _ = c.ip.seq_of(c.st, s)
    n = ptr_len(c, d)
    if not c.st.truth(mk_eq(sub(n, seqlen(ss)))):
        return [('panic', c.st, (c.path, 'copy_from_slice length', c.line))]
    v = c.read(d)
    off = d[3][1] if d[3] and d[3][0] == 'len' else 0
    a, b = c.ip.cut(c.st, v[2], off)
    _, e = c.ip.cut(c.st, b, n)
    full = seqnorm(a + ss + e)
    # arrays keep explicit elements
    if isinstance(seqlen(full), int) and seqlen(full) <= 64 and v[0] == 'vec':
        full = explode(c, full, seqlen(full), v[1])
    c.write(d, c.ip.with_segs(v, full))
    return ret(c.st, unit(c))


@pm('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut')
def m_first(c):
    p = c.args[0]
    n = ptr_len(c, p)
    if c.st.truth(mk_eq(n)):
        return ret(c.st, c.none())
    off = p[3][1] if p[3] and p[3][0] == 'len' else 0
    i = add(off, 0 if 'first' in c.callee['name'] else sub(n, 1))
    return ret(c.st, c.some(('p', p[1], p[2] + (('i', i),), None)))


def range_of(c, r, n):
    """(lo, hi) of a range value over a sequence of length n"""
    t = c.ip.w.types[r[1]]
    nm = t['path'].split('::')[-1]
    f = r[2] if r[0] == 'st' else None
    if r[0] == 'sy':
        f = c.ip.expand(r)[2]
    if nm == 'Range':
        return f[0], f[1]
    if nm == 'RangeFrom':
        return f[0], n
    if nm == 'RangeTo':
        return 0, f[0]
    if nm == 'RangeFull':
        return 0, n
    if nm == 'RangeInclusive':
        return f[0], add(f[1], 1)
    if nm == 'RangeToInclusive':
        return 0, add(f[0], 1)
    raise Unsupported('range ' + nm)


def slice_range(c, p, r):
    """-> (ok condition holds) new pointer or None when out of range"""
    p2, v = p, None
    n = ptr_len(c, p)
    lo, hi = range_of(c, r, n)
    if not c.st.truth(mk_le(sub(lo, hi))) or not c.st.truth(mk_le(sub(hi, n))):
        return None
    off = p[3][1] if p[3] and p[3][0] == 'len' else 0
    return ('p', p[1], p[2], ('len', add(off, lo), sub(hi, lo)))


@tm('Index::index', 'IndexMut::index_mut')
def m_index(c):
    p, i = c.args
    if not (isinstance(p, tuple) and p[0] == 'p'):
        return NotImplemented
    v = c.read(p)
    if not (isinstance(v, tuple) and v[0] in ('vec', 'bm')):
        return NotImplemented
    if is_num(i):
        n = ptr_len(c, p)
        if not c.st.truth(mk_le(add(sub(i, n), 1))):
            return [('panic', c.st, (c.path, 'index out of range', c.line))]
        off = p[3][1] if p[3] and p[3][0] == 'len' else 0
        return ret(c.st, ('p', p[1], p[2] + (('i', add(off, i)),), None))
    q = slice_range(c, p, i)
    if q is None:
        return [('panic', c.st, (c.path, 'slice index out of range', c.line))]
    return ret(c.st, q)


@pm('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut', 'core::str::<impl str>::get')
def m_get(c):
    p, i = c.args
    if is_num(i):
        n = ptr_len(c, p)
        if not c.st.truth(mk_le(add(sub(i, n), 1))):
            return ret(c.st, c.none())
        off = p[3][1] if p[3] and p[3][0] == 'len' else 0
        return ret(c.st, c.some(('p', p[1], p[2] + (('i', add(off, i)),), None)))
    q = slice_range(c, p, i)
    if q is None:
        return ret(c.st, c.none())
    return ret(c.st, c.some(q))


@pm('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut', 'core::str::<impl str>::split_at')
def m_splitat(c):
    p, i = c.args
    n = ptr_len(c, p)
    if not c.st.truth(mk_le(sub(i, n))):
        return [('panic', c.st, (c.path, 'split_at', c.line))]
    off = p[3][1] if p[3] and p[3][0] == 'len' else 0
    return ret(c.st, ('st', c.dty, (('p', p[1], p[2], ('len', off, i)), ('p', p[1], p[2], ('len', add(off, i), sub(n, i))))))


@pm('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def m_splitfirst(c):
    p = c.args[0]
    n = ptr_len(c, p)
    if c.st.truth(mk_eq(n)):
        return ret(c.st, c.none())
    tt = c.ip.field_types(c.dty, 1)[0]
    off = p[3][1] if p[3] and p[3][0] == 'len' else 0
    if 'first' in c.callee['name']:
        return ret(c.st, c.some(('st', tt, (('p', p[1], p[2] + (('i', off),), None), ('p', p[1], p[2], ('len', add(off, 1), sub(n, 1)))))))
    return ret(c.st, c.some(('st', tt, (('p', p[1], p[2] + (('i', add(off, sub(n, 1))),), None), ('p', p[1], p[2], ('len', off, sub(n, 1)))))))


@pm('core::slice::<impl [T]>::starts_with', 'core::slice::<impl [T]>::ends_with')
def m_starts(c):
    a, _ = c.ip.seq_of(c.st, c.args[0])
    b, e = c.ip.seq_of(c.st, c.args[1])
    la, lb = seqlen(a), seqlen(b)
    if not c.st.truth(mk_le(sub(lb, la))):
        return ret(c.st, 0)
    if c.callee['name'] == 'starts_with':
        p, _ = c.ip.cut(c.st, a, lb)
    else:
        _, p = c.ip.cut(c.st, a, sub(la, lb))
    return ret(c.st, seq_eq(c, p, b, e))


@pm('core::slice::<impl [T]>::contains')
def m_contains(c):
    segs, e = c.ip.seq_of(c.st, c.args[0])
    x = c.args[1]
    xs = explicit(segs) if all(g[0] in '1k' for g in segs) else None
    if xs is None:
        return NotImplemented
    for y in xs:
        if c.st.truth(val_eq(c, x, y)):
            return ret(c.st, 1)
    return ret(c.st, 0)


@pm('core::slice::<impl [T]>::fill')
def m_fill(c):
    p = c.args[0]
    v = c.read(p)
    n = ptr_len(c, p)
    off = p[3][1] if p[3] and p[3][0] == 'len' else 0
    a, b = c.ip.cut(c.st, v[2], off)
    _, d = c.ip.cut(c.st, b, n)
    c.write(p, c.ip.with_segs(v, seqnorm(a + (('m', c.args[1], n),) + d)))
    return ret(c.st, unit(c))


# ---------------------------------------------------------------------- io errors

def io_err_ty(c):
    """type id of io::Error from a Result type"""
    return c.ip.field_types(c.dty, 1)[0]


def mk_ioerr(c, kind_name, msg=None):
    """an io::Error with a known kind"""
    k = kind_value(c, kind_name)
    return ('ob', 'ioerr', k, msg)


def kind_type(c):
    for i, t in enumerate(c.ip.w.types):
        if t['k'] == 'adt' and t['path'].endswith('io::error::ErrorKind'):
            return i
    raise Unsupported('ErrorKind')


def kind_value(c, name):
    t = kind_type(c)
    for i, v in enumerate(c.ip.w.types[t]['variants']):
        if v[0] == name:
            return ('en', t, i, ())
    raise Unsupported('ErrorKind::' + name)


@pm('core::io::error::<impl core::io::error::Error>::new', 'std::io::error::Error::new', 'core::io::error::Error::new', 'alloc::io::error::<impl core::io::error::Error>::new')
def m_ionew(c):
    return ret(c.st, ('ob', 'ioerr', c.args[0], freeze_payload(c, c.args[1])))


@pm('alloc::io::error::<impl core::io::error::Error>::other', 'core::io::error::<impl core::io::error::Error>::other')
def m_ioother(c):
    return ret(c.st, mk_ioerr(c, 'Other', freeze_payload(c, c.args[0])))


def freeze_payload(c, v):
    try:
        if isinstance(v, tuple) and v[0] == 'p':
            x = c.read(v)
            if isinstance(x, tuple) and x[0] in ('vec', 'bm'):
                return ('msg', c.ip.seq_of(c.st, v)[0])
            return ('val', x)
    except Unsupported:
        return ('val', 'unknown')
    return ('val', v)


@pm('core::io::error::Error::kind', 'std::io::error::Error::kind')
def m_iokind(c):
    v = c.read(c.args[0])
    if v[0] == 'ob' and v[1] == 'ioerr':
        return ret(c.st, v[2])
    if v[0] == 'sy':
        n = len(c.ip.w.types[c.dty]['variants'])
        return ret(c.st, ('et', c.dty, ('f', ('kind', v[2]), n), tuple(range(n))))
    raise Unsupported('io error kind')


# ---------------------------------------------------------------------- byte input / output

def fresh_name(c, what):
    return ('fr', c.st.fresh(), what)


def stream_id(v):
    return v[2] if v[0] == 'sy' else v


def find_impl(ip, trait_tail, method, ty):
    """function instance of <ty as Trait>::method in the facts"""
    cache = ip.__dict__.setdefault('_impls', {})
    if not cache:
        for f in ip.w.fns.values():
            if f.get('impl_trait') and not f.get('promoted'):
                cache.setdefault((f['impl_trait'].split('::')[-1].split('<')[0], f['name']), []).append(f)
    for f in cache.get((trait_tail, method), []):
        if f.get('argc') and self_ty(ip, f) == ty:
            return f
    return None


def self_ty(ip, f):
    t = f['locals'][1]
    x = ip.w.types[t]
    if x['k'] in ('ref', 'ptr'):
        return x['e']
    return t


def src_read_exact(c, p, n):
    """read exactly n bytes through reader pointer p: [(state, segs or None, error)]"""
    ip, st = c.ip, c.st
    v = ip.read(st, p[1], p[2])
    if isinstance(v, tuple):
        if v[0] == 'p':
            if v[3] and v[3][0] == 'len':
                # &[u8]
                have = v[3][2]
                if st.truth(mk_le(sub(n, have))):
                    segs = ip.seq_of(st, ('p', v[1], v[2], ('len', v[3][1], n)))[0]
                    ip.write(st, p[1], p[2], ('p', v[1], v[2], ('len', add(v[3][1], n), sub(have, n))))
                    return [(st, segs, None)]
                ip.write(st, p[1], p[2], ('p', v[1], v[2], ('len', add(v[3][1], have), 0)))
                return [(st, None, mk_ioerr(c, 'UnexpectedEof'))]
            return src_read_exact(c, v, n)
        if v[0] == 'ob' and v[1] == 'cursor':
            segs, pos = cursor_segs(c, v)
            have = sub(seqlen(segs), pos)
            if st.truth(mk_le(sub(n, have))):
                out = ip.subseq(st, segs, pos, n)
                ip.write(st, p[1], p[2], ('ob', 'cursor', v[2], add(pos, n)))
                return [(st, out, None)]
            ip.write(st, p[1], p[2], ('ob', 'cursor', v[2], seqlen(segs)))
            return [(st, None, mk_ioerr(c, 'UnexpectedEof'))]
        if v[0] == 'ob' and v[1] == 'take':
            lim = v[3]
            if st.truth(mk_le(sub(n, lim))):
                ip.write(st, p[1], p[2], ('ob', 'take', v[2], sub(lim, n)))
                cell = ip.alloc(st, v[2])
                res = src_read_exact(c, ('p', cell, (), None), n)
                return res
            return [(st, None, mk_ioerr(c, 'UnexpectedEof'))]
        if v[0] == 'ob' and v[1] == 'br':
            return br_read_exact(c, p, v, n)
        if v[0] == 'sy':
            x = ip.w.types[v[1]]
            if x['k'] == 'adt' and x.get('local') and False:
                raise Unsupported('read of workspace type')
            sid = stream_id(v)
            # success
            s2 = st.copy()
            s2.nsplit += 1
            st.nsplit += 1
            pos = st.pos.get(('rd', sid), 0)
            st.pos[('rd', sid)] = add(pos, n)
            st.ev = st.ev + (('rd', sid, n),)
            segs = (('s', ('stream', sid), pos, n),)
            s2.ev = s2.ev + (('rd!', sid, n),)
            e = ('sy', None, ('rderr', sid, pos))
            return [(st, segs, None), (s2, None, e)]
    raise Unsupported('read from %s' % (str(v)[:80],))


def cursor_segs(c, v):
    q = v[2]
    if isinstance(q, tuple) and q[0] == 'p':
        return c.ip.seq_of(c.st, q)[0], v[3]
    return c.ip.segs(q), v[3]


def br_read_exact(c, p, v, n):
    raise Unsupported('read from buffered reader')


def typed_err(c, e, t):
    if isinstance(e, tuple) and e[0] == 'sy' and e[1] is None:
        return ('sy', t, e[2])
    return e


@tm('ReadBytesExt::read_u8', 'ReadBytesExt::read_u16', 'ReadBytesExt::read_u32', 'ReadBytesExt::read_u64', 'ReadBytesExt::read_i8')
def m_readint(c):
    n = {'u8': 1, 'i8': 1, 'u16': 2, 'u32': 4, 'u64': 8}[c.callee['name'][5:]]
    le = any('LittleEndian' in c.ip.w.ts(t) for t in c.targs() if isinstance(t, int))
    out = []
    for s, segs, e in src_read_exact(c, c.args[0], n):
        if segs is None:
            out.append(('ret', s, c.err(typed_err(c, e, c.fieldty(c.dty, 1, 0)))))
        else:
            bs = [c.ip.seq_at(s, segs, i, c.ip.tu8) for i in range(n)]
            if le:
                bs.reverse()
            out.append(('ret', s, c.ok(c.ip.from_bytes(bs))))
    return out


@tm('Read::read_exact')
def m_readexact(c):
    f = c.callee.get('fn')
    p, b = c.args
    n = ptr_len(c, b)
    out = []
    for s, segs, e in src_read_exact(c, p, n):
        if segs is None:
            # contents of the buffer are unspecified
            bv = c.ip.read(s, b[1], b[2])
            junk = fresh_from(s, 'junk')
            store_slice(c, s, b, (('s', junk, 0, n),))
            out.append(('ret', s, c.err(typed_err(c, e, c.fieldty(c.dty, 1, 0)))))
        else:
            store_slice(c, s, b, segs)
            out.append(('ret', s, c.ok(('st', None, ()))))
    return out


def fresh_from(s, what):
    return ('fr', s.fresh(), what)


def store_slice(c, s, p, segs):
    v = c.ip.read(s, p[1], p[2])
    if isinstance(v, tuple) and v[0] == 'p':
        return store_slice(c, s, v, segs)
    if p[3] and p[3][0] == 'len':
        a, b = c.ip.cut(s, v[2], p[3][1])
        _, d = c.ip.cut(s, b, p[3][2])
        full = seqnorm(a + segs + d)
    else:
        full = seqnorm(segs)
    n = seqlen(full)
    if isinstance(n, int) and n <= 64:
        c2 = Call(c.ip, s, c.depth, c.callee, c.args, c.dty, c.line, c.path)
        full = explode(c2, full, n, v[1])
    c.ip.write(s, p[1], p[2], c.ip.with_segs(v, full))


@tm('Read::take')
def m_taker(c):
    return ret(c.st, ('ob', 'take', c.args[0], c.args[1]))


@tm('Read::by_ref', 'Write::by_ref', 'Iterator::by_ref')
def m_byref(c):
    return ret(c.st, c.args[0])


@tm('Read::read_to_end')
def m_readtoend(c):
    p, b = c.args
    v = c.read(p)
    st, ip = c.st, c.ip
    lim = None
    src = p
    if isinstance(v, tuple) and v[0] == 'ob' and v[1] == 'take':
        lim = v[3]
        cell = ip.alloc(st, v[2])
        src = ('p', cell, (), None)
    q, sv = deref_reader(c, src)
    bv = c.read(b)
    okt = c.dty
    if sv[0] == 'sy':
        sid = stream_id(sv)
        pos = st.pos.get(('rd', sid), 0)
        out = []
        et = c.fieldty(c.dty, 1, 0)
        base = ('stream', sid)
        s2 = st.copy()
        s3 = st.copy()
        for s in (st, s2, s3):
            s.nsplit += 1
        if lim is not None and st.assume(('le', sub(lim, MAXLEN))):
            # everything asked for (more than isize::MAX bytes cannot arrive in memory)
            st.pos[('rd', sid)] = add(pos, lim)
            st.ev = st.ev + (('rd', sid, lim),)
            ip.write(st, b[1], b[2], ip.with_segs(bv, seqnorm(bv[2] + (('s', base, pos, lim),))))
            out.append(('ret', st, c.ok(lim)))
        # the stream ended before
        k = anon(('fr', s2.fresh(), 'short', sid))
        if lim is None or s2.assume(('le', add(sub(k, lim), 1))):
            s2.pos[('rd', sid)] = add(pos, k)
            s2.ev = s2.ev + (('rdeof', sid, k),)
            ip.write(s2, b[1], b[2], ip.with_segs(bv, seqnorm(bv[2] + (('s', base, pos, k),))))
            out.append(('ret', s2, c.ok(k)))
        s3.ev = s3.ev + (('rd!', sid, lim if lim is not None else 0),)
        e = ('sy', et, ('rderr', sid, pos))
        junk = fresh_from(s3, 'junk')
        ip.write(s3, b[1], b[2], ip.with_segs(bv, bv[2] + (('s', junk, 0, lenof(junk)),)))
        out.append(('ret', s3, c.err(e)))
        return out
    if sv[0] == 'p' and sv[3] and sv[3][0] == 'len' or sv[0] == 'ob' and sv[1] == 'cursor':
        if sv[0] == 'p':
            segs = ip.seq_of(st, sv)[0]
            pos = 0
        else:
            segs, pos = cursor_segs(c, sv)
        have = sub(seqlen(segs), pos)
        n = have
        if lim is not None and st.truth(mk_le(sub(lim, have))):
            n = lim
        part = ip.subseq(st, segs, pos, n)
        if sv[0] == 'p':
            ip.write(st, q[1], q[2], ('p', sv[1], sv[2], ('len', add(sv[3][1], n), sub(have, n))))
        else:
            ip.write(st, q[1], q[2], ('ob', 'cursor', sv[2], add(pos, n)))
        ip.write(st, b[1], b[2], ip.with_segs(bv, seqnorm(bv[2] + part)))
        return ret(st, c.ok(n))
    return NotImplemented


def deref_reader(c, p):
    """-> (pointer to the cell of the innermost reader, its value)"""
    while True:
        v = c.read(p)
        if isinstance(v, tuple) and v[0] == 'p' and not (v[3] and v[3][0] == 'len'):
            p = v
            continue
        return p, v


@tm('Read::read')
def m_read(c):
    f = c.callee.get('fn')
    if f is not None and f in c.ip.w.fns and c.ip.w.fns[f]['crate'].startswith('websocket'):
        return NotImplemented
    q, v = deref_reader(c, c.args[0])
    if v[0] == 'sy':
        sid = stream_id(v)
        n = ptr_len(c, c.args[1])
        s2 = c.st.copy()
        c.st.nsplit += 1
        s2.nsplit += 1
        pos = c.st.pos.get(('rd', sid), 0)
        k = anon(('fr', c.st.fresh(), 'read', sid))
        out = []
        et = c.fieldty(c.dty, 1, 0)
        if c.st.assume(('le', sub(k, n))):
            b = c.args[1]
            off = b[3][1] if b[3] and b[3][0] == 'len' else 0
            bv = c.ip.read(c.st, b[1], b[2])
            junkseg = c.ip.subseq(c.st, c.ip.segs(bv), add(off, k), sub(n, k)) if False else None
            c.st.pos[('rd', sid)] = add(pos, k)
            c.st.ev = c.st.ev + (('read', sid, n, k, buf_id(b)),)
            try:
                a, rest = c.ip.cut(c.st, bv[2], off)
                mid, tail = c.ip.cut(c.st, rest, n)
                keep = fresh_from(c.st, 'old')
                c.ip.write(c.st, b[1], b[2], c.ip.with_segs(bv, seqnorm(a + (('s', ('stream', sid), pos, k), ('s', keep, 0, sub(n, k))) + tail)))
            except (Unsupported, Split):
                pass
            out.append(('ret', c.st, c.ok(k)))
        s2.ev = s2.ev + (('read!', sid, n),)
        out.append(('ret', s2, c.err(('sy', et, ('rderr', sid, pos)))))
        return out
    if v[0] == 'p' or v[0] == 'ob' and v[1] == 'cursor':
        n = ptr_len(c, c.args[1])
        segs, pos = (c.ip.seq_of(c.st, v)[0], 0) if v[0] == 'p' else cursor_segs(c, v)
        have = sub(seqlen(segs), pos)
        k = n if c.st.truth(mk_le(sub(n, have))) else have
        part = c.ip.subseq(c.st, segs, pos, k)
        if v[0] == 'p':
            c.ip.write(c.st, q[1], q[2], ('p', v[1], v[2], ('len', add(v[3][1], k), sub(have, k))))
        else:
            c.ip.write(c.st, q[1], q[2], ('ob', 'cursor', v[2], add(pos, k)))
        b = c.args[1]
        off = b[3][1] if b[3] and b[3][0] == 'len' else 0
        store_slice(c, c.st, ('p', b[1], b[2], ('len', off, k)), part)
        return ret(c.st, c.ok(k))
    return NotImplemented


def buf_id(p):
    return (p[1], p[2], p[3])


@pm('core::io::cursor::Cursor::new', 'std::io::cursor::Cursor::new')
def m_cursor(c):
    return ret(c.st, ('ob', 'cursor', c.args[0], 0))


@pm('core::io::cursor::Cursor::position', 'std::io::cursor::Cursor::position')
def m_cursorpos(c):
    return ret(c.st, c.read(c.args[0])[3])


@pm('core::io::cursor::Cursor::set_position')
def m_cursorset(c):
    v = c.read(c.args[0])
    c.write(c.args[0], ('ob', 'cursor', v[2], c.args[1]))
    return ret(c.st, unit(c))


@pm('core::io::cursor::Cursor::into_inner', 'core::io::cursor::Cursor::get_ref')
def m_cursorinner(c):
    if c.callee['name'] == 'get_ref':
        return NotImplemented
    return ret(c.st, c.args[0][2])


def sink_write_all(c, p, segs):
    """write all of segs: [(state, None | error)]"""
    ip, st = c.ip, c.st
    v = ip.read(st, p[1], p[2])
    if isinstance(v, tuple):
        if v[0] == 'p' and not (v[3] and v[3][0] == 'len'):
            return sink_write_all(c, v, segs)
        if v[0] == 'vec':
            ip.write(st, p[1], p[2], ip.with_segs(v, seqnorm(v[2] + segs)))
            return [(st, None)]
        if v[0] == 'ob' and v[1] == 'bmw':
            q = v[2]
            if q is not None and q[0] == 'p':
                while True:
                    b = ip.read(st, q[1], q[2])
                    if b[0] == 'p':
                        q = b
                        continue
                    break
            n = seqlen(segs)
            if st.truth(mk_le(sub(n, b[3]))):
                ip.write(st, q[1], q[2], ('bm', b[1], seqnorm(b[2] + segs), sub(b[3], n)))
                return [(st, None)]
            a, _ = ip.cut(st, segs, b[3])
            ip.write(st, q[1], q[2], ('bm', b[1], seqnorm(b[2] + a), 0))
            return [(st, mk_ioerr(c, 'WriteZero'))]
        if v[0] == 'sy':
            sid = stream_id(v)
            s2 = st.copy()
            st.nsplit += 1
            s2.nsplit += 1
            st.ev = st.ev + (('wr', sid, segs),)
            s2.ev = s2.ev + (('wr!', sid, segs),)
            return [(st, None), (s2, ('sy', None, ('wrerr', sid, len(st.ev))))]
    raise Unsupported('write to %s' % (str(v)[:80],))


def dyn_target(c, p):
    """resolve a &mut dyn Write pointing to a workspace type to its implementation"""
    if isinstance(p, tuple) and p[0] == 'p' and p[3] and p[3][0] == 'dyn' and p[3][1] is not None:
        x = c.ip.w.types[p[3][1]]
        if x['k'] == 'adt' and x['path'].startswith('websocket'):
            return True
    return False


def write_all_to(c, p, segs):
    """Write::write_all on whatever p designates: [(kind, state, None | error | info)]"""
    q = p
    while isinstance(q, tuple) and q[0] == 'p':
        if dyn_target(c, q):
            m = None
            for k, x in c.ip.w.vt.get(q[3][1], {}).items():
                if k.endswith('Write::write_all') and 'fmt' not in k:
                    m = x
            if m is None:
                raise Unsupported('write_all of dyn workspace writer')
            return write_all_via(c, m, ('p', q[1], q[2], None), segs)
        v = c.read(q)
        if isinstance(v, tuple) and v[0] == 'p' and not (v[3] and v[3][0] == 'len'):
            q = v
            continue
        break
    return [('ret', s, e) for s, e in sink_write_all(c, q, segs)]


def write_all_via(c, m, self_ptr, segs):
    cell = ('c', ('vec', c.ip.tu8, segs))
    b = ('p', cell, (), ('len', 0, seqlen(segs)))
    out = []
    for o in c.ip.call(c.st, c.depth, m, [self_ptr, b], None, c.line):
        if o[0] != 'ret':
            out.append(o)
            continue
        _, s, v = o
        vi = c.ip.variant_of(s, v)
        out.append(('ret', s, None if vi == 0 else c.ip.enum_fields(s, v, 1)[0]))
    return out


def io_unit(c, res):
    out = []
    for o in res:
        if o[0] != 'ret':
            out.append(o)
        elif o[2] is None:
            out.append(('ret', o[1], c.ok(('st', c.fieldty(c.dty, 0, 0), ()))))
        else:
            out.append(('ret', o[1], c.err(typed_err(c, o[2], c.fieldty(c.dty, 1, 0)))))
    return out


@tm('Write::write_all')
def m_writeall(c):
    p, b = c.args
    if c.callee['kind'] == 'virtual' and dyn_target(c, p):
        return NotImplemented
    f = c.callee.get('fn')
    v = c.read(p)
    if f is not None and f in c.ip.w.fns and isinstance(v, tuple) and v[0] in ('st', 'sy') and v[1] is not None:
        x = c.ip.w.types[v[1]]
        if x['k'] == 'adt' and x['path'].startswith('websocket'):
            return NotImplemented
    segs, _ = c.ip.seq_of(c.st, b)
    return io_unit(c, write_all_to(c, p, segs))


@tm('WriteBytesExt::write_u8', 'WriteBytesExt::write_u16', 'WriteBytesExt::write_u32', 'WriteBytesExt::write_u64')
def m_writeint(c):
    n = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8}[c.callee['name'][6:]]
    le = any('LittleEndian' in c.ip.w.ts(t) for t in c.targs() if isinstance(t, int))
    v = c.args[1]
    bs = [c.ip.byte_of(c.st, v, n - 1 - i) for i in range(n)]
    if le:
        bs.reverse()
    segs = seqnorm(ones_to_k(tuple(('1', b) for b in bs)))
    return io_unit(c, write_all_to(c, c.args[0], segs))


@tm('Write::write')
def m_write(c):
    if c.callee['kind'] == 'virtual' and dyn_target(c, c.args[0]):
        return NotImplemented
    f = c.callee.get('fn')
    if f is not None and f in c.ip.w.fns and c.ip.w.fns[f]['crate'].startswith('websocket'):
        return NotImplemented
    p, b = c.args
    while True:
        v = c.read(p)
        if isinstance(v, tuple) and v[0] == 'p' and not (v[3] and v[3][0] == 'len'):
            p = v
            continue
        break
    segs, _ = c.ip.seq_of(c.st, b)
    n = seqlen(segs)
    if v[0] == 'vec':
        c.write(p, c.ip.with_segs(v, seqnorm(v[2] + segs)))
        return ret(c.st, c.ok(n))
    if v[0] == 'ob' and v[1] == 'bmw':
        q = v[2]
        while True:
            bm = c.read(q)
            if bm[0] == 'p':
                q = bm
                continue
            break
        if c.st.truth(mk_le(sub(n, bm[3]))):
            c.write(q, ('bm', bm[1], seqnorm(bm[2] + segs), sub(bm[3], n)))
            return ret(c.st, c.ok(n))
        a, _ = c.ip.cut(c.st, segs, bm[3])
        c.write(q, ('bm', bm[1], seqnorm(bm[2] + a), 0))
        return ret(c.st, c.ok(bm[3]))
    if v[0] == 'sy':
        sid = stream_id(v)
        s2 = c.st.copy()
        c.st.nsplit += 1
        s2.nsplit += 1
        k = anon(('fr', c.st.fresh(), 'written', sid))
        out = []
        if c.st.assume(('le', sub(k, n))):
            c.st.ev = c.st.ev + (('write', sid, segs, k),)
            out.append(('ret', c.st, c.ok(k)))
        s2.ev = s2.ev + (('write!', sid, segs),)
        out.append(('ret', s2, c.err(('sy', c.fieldty(c.dty, 1, 0), ('wrerr', sid, len(s2.ev))))))
        return out
    return NotImplemented


@tm('Write::flush')
def m_flush(c):
    f = c.callee.get('fn')
    if c.callee['kind'] == 'virtual' and dyn_target(c, c.args[0]):
        return NotImplemented
    if f is not None and f in c.ip.w.fns and c.ip.w.fns[f]['crate'].startswith('websocket'):
        return NotImplemented
    q, v = deref_reader(c, c.args[0])
    if v[0] == 'sy':
        sid = stream_id(v)
        s2 = c.st.copy()
        c.st.nsplit += 1
        s2.nsplit += 1
        c.st.ev = c.st.ev + (('flush', sid),)
        s2.ev = s2.ev + (('flush!', sid),)
        return [('ret', c.st, c.ok(('st', c.fieldty(c.dty, 0, 0), ()))),
                ('ret', s2, c.err(('sy', c.fieldty(c.dty, 1, 0), ('flerr', sid, len(s2.ev)))))]
    return ret(c.st, c.ok(('st', c.fieldty(c.dty, 0, 0), ())))


# bytes

@tm('BufMut::remaining_mut')
def m_remaining(c):
    p, v = deref_all(c, c.args[0])
    if v[0] == 'bm':
        return ret(c.st, v[3])
    return NotImplemented


@tm('BufMut::writer')
def m_writer(c):
    a = c.args[0]
    return ret(c.st, ('ob', 'bmw', a))


@tm('BufMut::put_slice', 'BufMut::put')
def m_put(c):
    p, v = deref_all(c, c.args[0])
    if v[0] != 'bm' or c.callee['name'] == 'put' and c.args[1][0] != 'p':
        return NotImplemented
    segs, _ = c.ip.seq_of(c.st, c.args[1])
    if not c.st.truth(mk_le(sub(seqlen(segs), v[3]))):
        return [('panic', c.st, (c.path, 'put beyond capacity', c.line))]
    c.write(p, ('bm', v[1], seqnorm(v[2] + segs), sub(v[3], seqlen(segs))))
    return ret(c.st, unit(c))


@pm('bytes::bytes::BytesMut::reserve')
def m_bmreserve(c):
    v = c.read(c.args[0])
    n = c.args[1]
    c.st.ev = c.st.ev + (('prealloc', n, 1),)
    if c.st.prove(mk_le(sub(n, v[3]))) is not True:
        extra = anon(('fr', c.st.fresh(), 'rem'))
        c.write(c.args[0], ('bm', v[1], v[2], add(n, extra)))
    return ret(c.st, unit(c))


@pm('bytes::bytes::BytesMut::capacity')
def m_bmcap(c):
    v = c.read(c.args[0])
    return ret(c.st, add(seqlen(v[2]), v[3]))


@pm('bytes::bytes::BytesMut::new', 'bytes::bytes::BytesMut::with_capacity')
def m_bmnew(c):
    return ret(c.st, ('bm', c.ip.tu8, (), c.args[0] if c.args else 0))


@pm('bytes::bytes::BytesMut::split_to', 'bytes::bytes::BytesMut::split_off', 'bytes::bytes::Bytes::split_to')
def m_splitto(c):
    v = c.read(c.args[0])
    n = c.args[1]
    if not c.st.truth(mk_le(sub(n, seqlen(v[2])))):
        return [('panic', c.st, (c.path, 'split_to beyond length', c.line))]
    a, b = c.ip.cut(c.st, v[2], n)
    if c.callee['name'] == 'split_to':
        c.write(c.args[0], c.ip.with_segs(v, b))
        return ret(c.st, ('bm', v[1], a, 0) if c.ip.w.types[c.dty]['path'].endswith('BytesMut') else ('vec', v[1], a))
    c.write(c.args[0], ('bm', v[1], a, 0))
    return ret(c.st, ('bm', v[1], b, v[3]))


@pm('bytes::bytes::BytesMut::advance')
def m_advance(c):
    v = c.read(c.args[0])
    n = c.args[1]
    if not c.st.truth(mk_le(sub(n, seqlen(v[2])))):
        return [('panic', c.st, (c.path, 'advance beyond length', c.line))]
    _, b = c.ip.cut(c.st, v[2], n)
    c.write(c.args[0], c.ip.with_segs(v, b))
    return ret(c.st, unit(c))


@tm('Buf::advance')
def m_bufadvance(c):
    return m_advance(c)


@pm('bytes::bytes::BytesMut::take')
def m_bmtake(c):
    v = c.read(c.args[0])
    c.write(c.args[0], ('bm', v[1], (), v[3]))
    return ret(c.st, ('bm', v[1], v[2], 0))


@pm('bytes::bytes::BytesMut::freeze')
def m_freeze(c):
    return ret(c.st, ('vec', c.args[0][1], c.args[0][2]))


# ---------------------------------------------------------------------- random

def draw(c, ty):
    """a value of a type, freshly drawn"""
    nm = ('fr', c.st.fresh(), 'random')
    c.st.ev = c.st.ev + (('random', nm),)
    x = c.ip.w.types[ty]
    if x['k'] == 'int' and not x['signed'] and x['bits'] in (16, 32, 64):
        r = 0
        for i in range(x['bits'] // 8):
            r = add(r, mul(ident(('f', (nm, i), 256)), 256 ** i))
        return r
    return c.ip.sym(ty, nm)


@pm('rand::random')
def m_random(c):
    return ret(c.st, draw(c, c.dty))


@pm('rand::rngs::thread::thread_rng', 'rand::rngs::os::OsRng::new', 'rand_os::OsRng::new', 'rand::rngs::thread::ThreadRng::default', 'rand::rngs::entropy::EntropyRng::new')
def m_rng(c):
    v = c.ip.sym(c.dty, ('rng', 'fresh'))
    x = c.ip.w.types[c.dty]
    if x.get('path', '').endswith('Result'):
        return [('ret', c.st, c.ok(c.ip.sym(x['args'][0], ('rng', 'fresh'))))]
    return ret(c.st, v)


@tm('FromEntropy::from_entropy', 'SeedableRng::from_rng', 'SeedableRng::from_seed', 'SeedableRng::seed_from_u64')
def m_seed(c):
    n = c.callee['name']
    if n == 'from_entropy':
        return ret(c.st, c.ip.sym(c.dty, ('rng', 'fresh')))
    if n == 'from_rng':
        return NotImplemented
    return ret(c.st, c.ip.sym(c.dty, ('rng', 'seeded')))


def rng_kind(c, p):
    """fresh: the operating system's or the thread's generator, or one seeded from it; otherwise the prefix of the names of its values"""
    t = next(x for x in c.rargs() if isinstance(x, int))
    while True:
        x = c.ip.w.types[t]
        if x['k'] in ('ref', 'ptr'):
            t = x['e']
        else:
            break
    if x.get('path', '').split('::')[-1] in ('ThreadRng', 'OsRng', 'EntropyRng'):
        return 'fresh'
    v = c.read(p)
    while isinstance(v, tuple) and v[0] == 'p':
        v = c.read(v)
    if isinstance(v, tuple) and v[0] == 'sy' and isinstance(v[2], tuple) and v[2] and v[2][0] == 'rng':
        return v[2][1]
    return 'rng'


@tm('Rng::gen', 'RngCore::next_u32', 'RngCore::next_u64')
def m_gen(c):
    k = rng_kind(c, c.args[0])
    if k == 'fresh':
        return ret(c.st, draw(c, c.dty))
    return ret(c.st, c.ip.sym(c.dty, ('foreign', k, c.st.fresh())))


@tm('RngCore::fill_bytes', 'RngCore::try_fill_bytes', 'Rng::fill', 'Rng::try_fill')
def m_fill_bytes(c):
    k = rng_kind(c, c.args[0])
    d = c.args[1]
    if c.callee['name'].endswith('fill') and not (d[3] and d[3][0] == 'len'):
        v = c.read(d)
        if v[0] != 'vec':
            raise Unsupported('fill of %s' % v[0])
        n = seqlen(v[2])
    else:
        n = ptr_len(c, d)
    nm = ('fr', c.st.fresh(), 'random') if k == 'fresh' else ('foreign', k, c.st.fresh())
    if k == 'fresh':
        c.st.ev = c.st.ev + (('random', nm),)
    v = c.read(d)
    if v[1] != c.ip.tu8:
        raise Unsupported('fill of elements')
    off = d[3][1] if d[3] and d[3][0] == 'len' else 0
    a, b = c.ip.cut(c.st, v[2], off)
    _, e = c.ip.cut(c.st, b, n)
    new = tuple(('1', c.ip.sym(c.ip.tu8, (nm, i))) for i in range(n)) if isinstance(n, int) and n <= 64 else (('s', nm, 0, n),)
    c.write(d, c.ip.with_segs(v, seqnorm(a + new + e)))
    if c.callee['name'].startswith('try'):
        return ret(c.st, c.ok(('st', c.ip.field_types(c.dty, 0)[0], ())))
    return ret(c.st, unit(c))


@pm('std::thread::local::LocalKey::with')
def m_local_key(c):
    t = next(x for x in c.targs() if isinstance(x, int))
    key = ('tls', c.args[0][1][1] if isinstance(c.args[0], tuple) and c.args[0][0] == 'p' else c.args[0])
    return c.ip.call_value(c.st, c.depth, c.args[1], [('p', ('d', key, t), (), c.ip.sym_meta(t, key))], c.dty)


# ---------------------------------------------------------------------- panics

@pm('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::panic_nounwind_fmt', 'core::option::expect_failed',
    'core::option::unwrap_failed', 'core::result::unwrap_failed', 'core::result::unwrap_failed::unwrap_failed_inner', 'core::panicking::unreachable_display',
    'core::slice::index::slice_index_fail', 'core::panicking::panic_display', 'core::panicking::panic_explicit', 'std::rt::panic_fmt',
    'core::panicking::panic_bounds_check', 'core::panicking::assert_failed', 'core::slice::copy_from_slice_impl::len_mismatch_fail',
    'std::panicking::begin_panic', 'core::panicking::panic_nounwind', 'core::panicking::panic_str_2015', 'core::panicking::assert_failed_inner')
def m_panic(c):
    return [('panic', c.st, (c.path, 'panic', c.line))]


@pm('core::option::Option::unwrap', 'core::option::Option::expect', 'core::result::Result::unwrap', 'core::result::Result::expect', 'core::option::Option::unwrap_unchecked')
def m_unwrap(c):
    v = c.args[0]
    vi = c.ip.variant_of(c.st, v)
    isopt = 'Option' in c.path
    good = 1 if isopt else 0
    if vi == good:
        return ret(c.st, c.ip.enum_fields(c.st, v, vi)[0])
    return [('panic', c.st, (c.path, c.callee['name'], c.line))]


# ---------------------------------------------------------------------- formatting

@pm('core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_lower_hex',
    'core::fmt::rt::Argument::new_upper_hex', 'core::fmt::rt::Argument::new_lower_exp')
def m_arg(c):
    t = c.rargs()
    t = [x for x in t if isinstance(x, int)]
    return ret(c.st, ('ob', 'arg', c.callee['name'][4:], c.args[0], t[-1] if t else None))


@pm('core::fmt::Arguments::new')
def m_args(c):
    tmpl = template(c, c.args[0])
    av = c.read(c.args[1])
    items = [g[1] for g in av[2]]
    return ret(c.st, ('ob', 'args', tmpl, tuple(items)))


@pm('core::fmt::Arguments::from_str', 'core::fmt::Arguments::from_str_nonconst')
def m_argsstr(c):
    segs, _ = c.ip.seq_of(c.st, c.args[0])
    return ret(c.st, ('ob', 'args', (('lit', segs),), ()))


def template(c, p):
    v = c.read(p)
    b = explicit(v[2])
    if b is None:
        raise Unsupported('format template')
    out = []
    i = 0
    arg = 0
    while i < len(b):
        x = b[i]
        if x == 0:
            break
        if x < 0x80:
            out.append(('lit', bytes_seq(b[i + 1:i + 1 + x])))
            i += 1 + x
        elif x == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            out.append(('lit', bytes_seq(b[i + 3:i + 3 + n])))
            i += 3 + n
        else:
            i += 1
            fl = None
            if x & 1:
                fl = tuple(b[i:i + 4])
                i += 4
            if x & 2:
                i += 2
            if x & 4:
                i += 2
            if x & 8:
                arg = b[i] | b[i + 1] << 8
                i += 2
            out.append(('arg', arg, (x & 7, fl)))
            arg += 1
    return tuple(out)


def render_args(c, a, cont):
    """render an Arguments object; returns [(state, segs)]"""
    states = [(c.st, ())]
    for it in a[2]:
        nxt = []
        for s, segs in states:
            if it[0] == 'lit':
                nxt.append((s, segs + it[1]))
            else:
                arg = a[3][it[1]]
                for s2, out in render(c, s, arg):
                    nxt.append((s2, segs + out))
        states = nxt
    return [(s, seqnorm(x)) for s, x in states]


def render(c, s, arg):
    kind, p, t = arg[2], arg[3], arg[4]
    c2 = Call(c.ip, s, c.depth, c.callee, c.args, c.dty, c.line, c.path)
    return render_val(c2, kind, p, t)


def render_val(c, kind, p, t):
    """-> [(state, segs)]"""
    ip, s = c.ip, c.st
    while True:
        x = ip.w.types[t] if t is not None else None
        v = ip.read(s, p[1], p[2])
        if x and x['k'] == 'ref' and isinstance(v, tuple) and v[0] == 'p':
            t = x['e']
            p = v
            continue
        break
    if isinstance(v, tuple) and v and v[0] == 'p' and not (x and x['k'] == 'ptr'):
        # reference or box
        if v[3] and v[3][0] == 'len':
            p = v
            v = ip.read(s, p[1], p[2])
    if kind == 'display':
        if isinstance(v, tuple) and v[0] in ('vec',) and v[1] == ip.tu8:
            return [(s, ip.seq_of(s, p)[0])]
        if isinstance(v, tuple) and is_cow(c, v):
            vi = ip.variant_of(s, v)
            f = ip.enum_fields(s, v, vi)[0]
            return [(s, seq_val(c, f)[0])]
        if isinstance(v, int) and x and x['k'] == 'int':
            return [(s, bytes_seq(str(v).encode()))]
        if isinstance(v, int) and x and x['k'] == 'char' and v < 128:
            return [(s, bytes_seq(bytes([v])))]
        if x and x.get('path') == 'hyper::header::common::location::Location' and isinstance(v, tuple):
            return [(s, ip.expand(v)[2][0][2])]
        from .http import known_text
        kt = known_text(ip, v) if isinstance(v, tuple) and v[0] in ('en', 'et') else None
        if kt is not None:
            return [(s, bytes_seq(kt))]
        f = find_impl(ip, 'Display', 'fmt', t)
        if f is not None:
            cell = ip.alloc(s, ('vec', ip.tu8, ()))
            fm = ip.alloc(s, ('ob', 'fmt', ('p', cell, (), None)))
            outs = ip.exec_fn(f, [('p', p[1], p[2], None), ('p', fm, (), None)], s, c.depth + 1)
            res = []
            for o in outs:
                if o[0] == 'ret':
                    res.append((o[1], o[1].mem[cell][2]))
                else:
                    raise Unsupported('display: %s' % (o[2],))
            return res
    nm = ('disp', kind, v)
    return [(s, (('o', nm, lenof(nm)),))]


def to_string(c, p):
    t = [x for x in c.targs() if isinstance(x, int)]
    out = []
    for s, segs in render_val(c, 'display', p, t[0] if t else None):
        out.append(('ret', s, ('vec', c.ip.tu8, segs)))
    return out


@pm('alloc::fmt::format')
def m_format(c):
    a = c.args[0]
    if a[0] != 'ob':
        raise Unsupported('format arguments')
    return [('ret', s, ('vec', c.ip.tu8, segs)) for s, segs in render_args(c, a, None)]


def fmt_target(c, p):
    """formatter pointer -> pointer to the underlying writer"""
    v = c.read(p)
    if isinstance(v, tuple) and v[0] == 'ob' and v[1] == 'fmt':
        return v[2]
    if isinstance(v, tuple) and v[0] == 'p':
        return fmt_target(c, v)
    if isinstance(v, tuple) and v[0] == 'sy':
        # an opaque formatter of the caller: give it a buffer
        cell = ('fmtbuf', p[1])
        if cell not in c.st.mem:
            c.st.mem[cell] = ('vec', c.ip.tu8, ())
        return ('p', cell, (), None)
    return p


@pm('core::fmt::Formatter::write_str', 'core::fmt::Formatter::pad')
@tm('Write::write_str')
def m_writestr(c):
    q = fmt_target(c, c.args[0])
    segs, _ = c.ip.seq_of(c.st, c.args[1])
    v = c.read(q)
    if v[0] != 'vec':
        raise Unsupported('write_str target')
    c.write(q, c.ip.with_segs(v, seqnorm(v[2] + segs)))
    return ret(c.st, c.ok(('st', c.fieldty(c.dty, 0, 0), ())))


@pm('core::fmt::Formatter::write_char')
@tm('Write::write_char')
def m_writechar(c):
    q = fmt_target(c, c.args[0])
    v = c.read(q)
    x = c.args[1]
    if not (isinstance(x, int) and x < 128):
        raise Unsupported('write_char')
    c.write(q, c.ip.with_segs(v, seqnorm(v[2] + bytes_seq([x]))))
    return ret(c.st, c.ok(('st', c.fieldty(c.dty, 0, 0), ())))


@pm('core::fmt::Formatter::write_fmt', 'core::fmt::write')
def m_writefmt(c):
    q = fmt_target(c, c.args[0])
    a = c.args[1]
    out = []
    for s, segs in render_args(c, a, None):
        v = c.ip.read(s, q[1], q[2])
        if v[0] != 'vec':
            raise Unsupported('write_fmt target')
        c.ip.write(s, q[1], q[2], c.ip.with_segs(v, seqnorm(v[2] + segs)))
        out.append(('ret', s, c.ok(('st', c.fieldty(c.dty, 0, 0), ()))))
    return out


@tm('Write::write_fmt')
def m_iowritefmt(c):
    """std::io::Write::write_fmt: every formatted piece is written; modelled as consecutive writes"""
    a = c.args[1]
    p = c.args[0]
    v = c.read(p)
    if isinstance(v, tuple) and v[0] == 'ob' and v[1] == 'fmt':
        return m_writefmt(c)
    out = []
    for s, segs in render_args(c, a, None):
        c2 = Call(c.ip, s, c.depth, c.callee, c.args, c.dty, c.line, c.path)

        def go(s3, segs=segs):
            c3 = Call(c.ip, s3, c.depth, c.callee, c.args, c.dty, c.line, c.path)
            r = []
            for s4, e in sink_write_all(c3, p, segs):
                if e is None:
                    r.append(('ret', s4, c.ok(('st', c.fieldty(c.dty, 0, 0), ()))))
                else:
                    r.append(('ret', s4, c.err(typed_err(c, e, c.fieldty(c.dty, 1, 0)))))
            return r
        out.extend(runsplit(s, go))
    return out


@tm('Display::fmt')
def m_dispfmt(c):
    f = c.callee.get('fn')
    if f is not None and f in c.ip.w.fns and c.ip.w.fns[f]['crate'].startswith('websocket'):
        return NotImplemented
    t = [x for x in c.targs() if isinstance(x, int)]
    q = fmt_target(c, c.args[1])
    out = []
    for s, segs in render_val(c, 'display', c.args[0], t[0] if t else None):
        v = c.ip.read(s, q[1], q[2])
        c.ip.write(s, q[1], q[2], c.ip.with_segs(v, seqnorm(v[2] + segs)))
        out.append(('ret', s, c.ok(('st', c.fieldty(c.dty, 0, 0), ()))))
    return out


# ---------------------------------------------------------------------- strings

@pm('core::str::<impl str>::trim', 'core::str::<impl str>::trim_start', 'core::str::<impl str>::trim_end', 'core::str::<impl str>::trim_matches')
def m_trim(c):
    p = c.args[0]
    segs, e = c.ip.seq_of(c.st, p)
    segs = seqnorm(segs)
    if all(g[0] == 'k' for g in segs):
        b = b''.join(g[1] for g in segs)
        if c.callee['name'] == 'trim':
            return ret(c.st, c.ip.const_seq(bytes_seq(b.strip())))
    nm = ('trim', c.callee['name'], segs)
    # trimming what cannot have surrounding white space
    if len(segs) == 1 and segs[0][0] == 's' and isinstance(segs[0][1], tuple) and segs[0][1] and segs[0][1][0] in ('token', 'trim'):
        return ret(c.st, p)
    cell = ('c', ('vec', e, (('s', nm, 0, lenof(nm)),)))
    return ret(c.st, ('p', cell, (), ('len', 0, lenof(nm))))


@pm('core::str::<impl str>::split', 'core::str::<impl str>::splitn', 'core::str::<impl str>::rsplitn', 'core::str::<impl str>::split_whitespace')
def m_split(c):
    nm = c.callee['name']
    p = c.args[0]
    n = None
    pat = None
    if nm == 'splitn' or nm == 'rsplitn':
        n, pat = c.args[1], c.args[2]
    elif nm == 'split':
        pat = c.args[1]
    if isinstance(pat, tuple) and pat[0] == 'p':
        pat = ('str', seqnorm(c.ip.seq_of(c.st, pat)[0]))
    return ret(c.st, ('it', 'strsplit', nm, p, pat, n, 0))


@pm('core::str::<impl str>::parse')
def m_parse(c):
    t = c.fieldty(c.dty, 0, 0)
    segs = seqnorm(c.ip.seq_of(c.st, c.args[0])[0])
    f = None
    for g in c.ip.w.fns.values():
        if g.get('name') == 'from_str' and g.get('impl_trait') and g['impl_trait'].endswith('FromStr') and not g.get('promoted') and c.ip.field_types(g['locals'][0], 0)[0] == t:
            f = g
    if f is not None:
        return c.ip.exec_fn(f, [c.args[0]], c.st, c.depth + 1)
    if c.st.truth(boolf(('parse', c.ip.w.ts(t), segs))):
        return ret(c.st, c.ok(c.ip.sym(t, ('parsed', segs))))
    return ret(c.st, c.err(('sy', c.fieldty(c.dty, 1, 0), ('parseerr', segs))))


# ---------------------------------------------------------------------- entry

class Models:
    def __init__(self):
        self.extra = {}      # path or trait::method -> function(Call), analysis specific
        self.seen = {}
        self.unmodelled = {}
        from . import iters, http, urls, strings, text  # noqa: registers models

    def named_const(self, ip, st, c):
        return None

    def drop(self, ip, st, depth, place, ty, fn):
        return

    def call_opaque(self, ip, st, depth, f, args, dty):
        raise Unsupported('call of opaque function value')

    def call(self, ip, st, depth, callee, args, dty, line):
        path = callee.get('_p')
        if path is None:
            path = strip_generics(callee.get('rpath') or callee.get('path') or '')
            callee['_p'] = path
            tr = callee.get('trait')
            callee['_t'] = (tr.split('::')[-1].split('<')[0] + '::' + callee['name']) if tr else None
            callee['_b'] = strip_generics(callee.get('path') or '')
        t = callee['_t']
        c = Call(ip, st, depth, callee, args, dty, line, path)
        for k in (path, callee['_b'], t):
            if k is None:
                continue
            m = self.extra.get(k)
            if m is not None:
                r = m(c)
                if r is not NotImplemented:
                    return r
        for k, tb in ((path, PM), (t, TM), (callee['_b'], PM)):
            if k is None:
                continue
            m = tb.get(k)
            if m is not None:
                r = m(c)
                if r is not NotImplemented:
                    self.seen[k] = self.seen.get(k, 0) + 1
                    return r
        # function traits
        if t in ('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once') and callee['kind'] != 'ctor':
            tup = args[1]
            if isinstance(tup, tuple) and tup[0] == 'sy':
                tup = ip.expand(tup)
            return ip.call_value(st, depth, args[0], list(tup[2]), dty)
        return NotImplemented
