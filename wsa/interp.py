"""Disjunctive abstract interpreter of MIR: path partitioned values, joins on finite atoms, loop generalisation."""
import heapq, os, traceback
from .terms import *
from .state import *
from .facts import strip_generics

U8 = {'u8'}


class Out(Exception):
    pass


def dedup(outs):
    return outs


def div_parts(v, n):
    """(q, r) with v = n*q + r and the terms of r small where that is possible"""
    c, d = parts(v)
    q, r = c // n, c % n
    for a, k in d.items():
        if k % n == 0:
            q = add(q, build(0, {a: k // n}))
        elif a[0] == 'tab':
            vals = [k * x for x in a[2]]
            q = add(q, tab(a[1], tuple(x // n for x in vals)))
            r = add(r, tab(a[1], tuple(x % n for x in vals)))
        else:
            r = add(r, build(0, {a: k}))
    return q, r


def has_pointer(v):
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == 'p' and isinstance(v[1], tuple) and v[1] and v[1][0] in ('l', 'h', 'd', 'c'):
            return True
        return any(has_pointer(x) for x in v)
    return False


class Interp:
    def __init__(self, world, models=None, summaries=None):
        self.w = world
        self.models = models
        self.soft = set()       # library functions called without a model
        self.summ = summaries or {}
        self.dry = 0
        self.steps = 0
        self.maxsteps = 3000000
        self.fn_seen = {}
        self.calls_seen = {}
        self.havocs = {}
        self.trace = None
        self.loop_backs = []
        self.unroll = (8, 6)
        self.extra_exits = 60
        self.generalised = 0
        self.loopev = {}
        self.tu8 = None
        for i, t in enumerate(world.types):
            if t['k'] == 'int' and t['s'] == 'u8':
                self.tu8 = i

    # ------------------------------------------------------------------ symbolic values

    def int_range(self, t):
        x = self.w.types[t]
        k = x['k']
        if k == 'bool':
            return 0, 1
        if k == 'char':
            return 0, 0x10FFFF
        if k == 'int':
            b = x['bits']
            if x['signed']:
                return -(1 << (b - 1)), (1 << (b - 1)) - 1
            return 0, (1 << b) - 1
        return None

    def sym(self, t, name):
        x = self.w.types[t]
        k = x['k']
        if k == 'bool':
            return boolf(name)
        if k == 'int':
            if x['bits'] == 8 and not x['signed']:
                if isinstance(name, tuple) and name and name[0] == 'el':
                    return elem_u8(name[1], name[2])
                return ident(('f', name, 256))
            lo, hi = self.int_range(t)
            return anon(name, lo, hi)
        if k == 'char':
            return anon(name, 0, 0x10FFFF)
        if k in ('ref', 'ptr'):
            e = x['e']
            return ('p', ('d', name, e), (), self.sym_meta(e, name))
        if k == 'array':
            n = x['n']
            if isinstance(n, int) and n <= 64:
                return ('vec', x['e'], tuple(('1', self.sym(x['e'], (name, i))) for i in range(n)))
            return ('vec', x['e'], (('s', name, 0, n if isinstance(n, int) else lenof(name)),))
        if k == 'slice':
            return ('vec', x['e'], (('s', name, 0, lenof(name)),))
        if k == 'str':
            return ('vec', self.tu8, (('s', name, 0, lenof(name)),))
        if k == 'tuple':
            if not x['f']:
                return ('st', t, ())
            return ('sy', t, name)
        if k == 'adt':
            p = x['path']
            if p in ('alloc::vec::Vec',):
                return ('vec', x['args'][0], (('s', name, 0, lenof(name)),))
            if p == 'alloc::string::String':
                return ('vec', self.tu8, (('s', name, 0, lenof(name)),))
            if p == 'bytes::bytes::BytesMut':
                return ('bm', self.tu8, (('s', name, 0, lenof(name)),), anon(('rem', name)))
            if x.get('box') or p == 'alloc::boxed::Box':
                e = x['args'][0]
                return ('p', ('d', name, e), (), self.sym_meta(e, name))
            if p in ('core::ptr::non_null::NonNull', 'core::ptr::unique::Unique'):
                e = x['args'][0]
                return ('p', ('d', name, e), (), self.sym_meta(e, name))
            if x['adt'] == 'enum':
                vs = x['variants']
                if len(vs) == 1:
                    return ('en', t, 0, tuple(self.sym(ft, (name, 'v', 0, i)) for i, (_, ft) in enumerate(vs[0][2])))
                if vs and all(not v[2] for v in vs) and len(vs) <= 256:
                    return ('et', t, ('f', ('disc', name), len(vs)), tuple(range(len(vs))))
                return ('sy', t, name)
            if x['adt'] == 'struct' and x['variants'] and not x['variants'][0][2] and x.get('local', False):
                return ('st', t, ())
            return ('sy', t, name)
        if k == 'fndef':
            return ('fn', t)
        if k == 'closure':
            if not x['up']:
                return ('st', t, ())
            return ('sy', t, name)
        return ('sy', t, name)

    def sym_meta(self, e, name):
        y = self.w.types[e]
        if y['k'] in ('slice', 'str'):
            return ('len', 0, lenof(name))
        if y['k'] == 'dyn':
            return ('dyn', None)
        return None

    def field_types(self, t, vi=None):
        x = self.w.types[t]
        k = x['k']
        if k == 'tuple':
            return x['f']
        if k == 'closure':
            return x['up']
        if k == 'adt':
            vs = x['variants']
            if not vs:
                raise Unsupported('fields of ' + x['s'])
            return [ft for _, ft in vs[vi or 0][2]]
        raise Unsupported('fields of ' + x['s'])

    def sym_field(self, v, i, vi=None):
        """field of a lazy symbolic value"""
        t, name = v[1], v[2]
        x = self.w.types[t]
        if x['k'] in ('param', 'alias', 'opaque', 'dyn', 'other', 'never'):
            raise Unsupported('field of ' + x['s'])
        if isinstance(name, tuple) and name and name[0] == 'clone':
            name = name[1]
        fts = self.field_types(t, vi)
        if vi is not None:
            return self.sym(fts[i], (name, 'v', vi, i))
        return self.sym(fts[i], (name, '.', i))

    def expand(self, v):
        """lazy struct to explicit struct"""
        if v[0] == 'sy':
            t = v[1]
            x = self.w.types[t]
            if x['k'] == 'adt' and x['adt'] == 'enum':
                raise Unsupported('expand enum')
            fts = self.field_types(t)
            return ('st', t, tuple(self.sym_field(v, i) for i in range(len(fts))))
        return v

    # ------------------------------------------------------------------ memory

    def cell_value(self, st, cell):
        v = st.mem.get(cell)
        if v is None:
            if cell[0] == 'd':
                v = self.sym(cell[2], cell[1])
                st.mem[cell] = v
            elif cell[0] == 'c':
                return cell[1]
            else:
                raise Unsupported('read of uninitialised cell %r' % (cell,))
        return v

    def read(self, st, cell, path):
        v = self.cell_value(st, cell)
        i = 0
        n = len(path)
        while i < n:
            s = path[i]
            if isinstance(s, int):
                k = v[0] if isinstance(v, tuple) else None
                if k == 'st' or k == 'en':
                    try:
                        v = v[2][s] if k == 'st' else v[3][s]
                    except IndexError:
                        raise Unsupported('field %d of %r' % (s, v[:2]))
                    if v is None:
                        raise Unsupported('moved field')
                elif k == 'sy':
                    v = self.sym_field(v, s)
                elif k == 'p':
                    pass
                else:
                    raise Unsupported('field of %s' % (str(v)[:80],))
            elif s[0] == 'v':
                k = v[0]
                if k == 'en':
                    if v[2] != s[1]:
                        raise Unsupported('wrong variant')
                elif k == 'sy':
                    i += 1
                    if i < n:
                        v = self.sym_field(v, path[i], s[1])
                elif k == 'et':
                    pass
                elif k == 'st':
                    # tables of enums with payload (merged)
                    raise Unsupported('variant of struct')
                else:
                    if v[:2] == ('ob', 'status'):
                        i += 2
                        v = v[3]
                        continue
                    raise Unsupported('variant of %s' % (str(v)[:80],))
            elif s[0] == 'h':
                v = v[3][s[1]][2]
            else:
                v = self.index(st, v, s[1])
            i += 1
        return v

    def write(self, st, cell, path, val):
        if not path:
            st.mem[cell] = val
            return
        st.mem[cell] = self.update(st, self.cell_value(st, cell) if (cell in st.mem or cell[0] in 'dc') else None, path, 0, val)

    def update(self, st, v, path, i, val):
        if i == len(path):
            return val
        s = path[i]
        if isinstance(s, int):
            if v is None:
                raise Unsupported('partial init')
            if v[0] == 'p':
                return self.update(st, v, path, i + 1, val)
            if v[:2] == ('ob', 'uninit') and all(isinstance(x, int) for x in path[i:]):
                return val      # storage behind MaybeUninit and ManuallyDrop
            if v[0] == 'sy':
                v = self.expand(v)
            if v[0] == 'st':
                f = list(v[2])
                f[s] = self.update(st, f[s], path, i + 1, val)
                return ('st', v[1], tuple(f))
            if v[0] == 'en':
                f = list(v[3])
                f[s] = self.update(st, f[s], path, i + 1, val)
                return ('en', v[1], v[2], tuple(f))
            raise Unsupported('update of %s' % (v[0],))
        if s[0] == 'v':
            if v[0] == 'sy':
                t = v[1]
                fts = self.field_types(t, s[1])
                v = ('en', t, s[1], tuple(self.sym_field(v, j, s[1]) for j in range(len(fts))))
            if v[0] == 'en' and v[2] == s[1]:
                return self.update(st, v, path, i + 1, val)
            raise Unsupported('update of variant')
        if s[0] == 'h':
            o = v[3][s[1]]
            o = (o[0], o[1], self.update(st, o[2], path, i + 1, val))
            return v[:3] + (v[3][:s[1]] + (o,) + v[3][s[1] + 1:],)
        if s[0] == 'i':
            segs = self.segs(v)
            if i + 1 < len(path):
                val = self.update(st, self.index(st, v, s[1]), path, i + 1, val)
            a, rest = self.cut(st, segs, s[1])
            _, b = self.cut(st, rest, 1)
            return self.with_segs(v, seqnorm(a + (('1', val),) + b))
        raise Unsupported('update path')

    def segs(self, v):
        if isinstance(v, tuple) and v[0] in ('vec', 'bm'):
            return v[2]
        raise Unsupported('not a sequence: %s' % (str(v)[:80],))

    def with_segs(self, v, segs):
        return v[:2] + (segs,) + v[3:]

    def elty(self, v):
        return v[1]

    def index(self, st, v, off):
        segs = self.segs(v)
        return self.seq_at(st, segs, off, v[1])

    def elem(self, g, off, ety):
        """element at offset off (inside) of segment g"""
        t = g[0]
        if t == '1':
            return g[1]
        if t == 'k':
            if isinstance(off, int):
                return g[1][off]
            return elem_u8(('seqv', (g,)), off)
        if t == 's':
            if isinstance(g[1], tuple) and g[1] and g[1][0] == 'seqv':
                r = try_index(g[1][1], add(g[2], off))
                if r is not None:
                    return r
            return self.sym(ety, ('el', g[1], add(g[2], off)))
        if t == 'm':
            return subst(g[1], {IDX: off})
        return self.sym(ety, ('el', ('ot', g[1]), off))

    def seq_at(self, st, segs, off, ety):
        off = st.nf(off)
        c = st.concrete(off)
        if c is not None:
            off = c
        rest = off
        for g in segs:
            n = st.nf(seglen(g))
            lt = st.prove(mk_le(add(sub(rest, n), 1)))
            if lt is None:
                if g[0] != '1' or not all(h[0] == '1' for h in segs):
                    if g[0] == '1' or g[0] == 'k':
                        # table lookup in explicit sequence
                        pass
                    else:
                        raise Split(st.alts(mk_le(add(sub(rest, n), 1))))
                # all explicit: table if the offset is a finite function
                t = one_tab(off) if is_L(off) else None
                vals = []
                okc = True
                for h in segs:
                    if h[0] == '1':
                        vals.append(h[1])
                    elif h[0] == 'k':
                        vals.extend(h[1])
                    else:
                        okc = False
                if okc and t:
                    if all(isinstance(x, int) for x in vals):
                        return tab(t[0], tuple(vals[i] if 0 <= i < len(vals) else 0 for i in t[1]))
                    if ety == self.tu8:
                        return tab(('f', ('el', ('seqv', segs), off), 256), tuple(range(256)))
                    st.split_atom(t[0])
                if okc and ety == self.tu8:
                    return tab(('f', ('el', ('seqv', segs), off), 256), tuple(range(256)))
                raise Split(st.alts(mk_le(add(sub(rest, n), 1))))
            if lt:
                return self.elem(g, rest, ety)
            rest = st.nf(sub(rest, n))
        raise Unsupported('index outside of sequence')

    def cut(self, st, segs, off):
        """split a sequence at an offset; may need to decide"""
        off = st.nf(off)
        c = st.concrete(off)
        if c is not None:
            off = c
        a = []
        rest = off
        for i, g in enumerate(segs):
            if rest == 0:
                return tuple(a), tuple(segs[i:])
            n = st.nf(seglen(g))
            d = sub(rest, n)
            if d == 0 or st.prove(mk_eq(d)) is True:
                a.append(g)
                return tuple(a), tuple(segs[i + 1:])
            ge = st.prove(mk_le(neg(d)))
            if ge is None:
                raise Split(st.alts(mk_le(neg(d))))
            if ge:
                a.append(g)
                rest = st.nf(d)
                continue
            # inside g
            t = g[0]
            if t == 'k' and isinstance(rest, int):
                return tuple(a) + (('k', g[1][:rest]),), (('k', g[1][rest:]),) + tuple(segs[i + 1:])
            if t == 'k':
                g = ('s', ('seqv', (g,)), 0, n)
                t = 's'
            if t == 's':
                return (tuple(a) + (('s', g[1], g[2], rest),),
                        (('s', g[1], add(g[2], rest), sub(n, rest)),) + tuple(segs[i + 1:]))
            if t == 'm':
                return (tuple(a) + (('m', g[1], rest),),
                        (('m', subst(g[1], {IDX: add(atom(IDX), rest)}), sub(n, rest)),) + tuple(segs[i + 1:]))
            if t == 'o':
                b = ('seqv', (g,))
                return (tuple(a) + (('s', b, 0, rest),), (('s', b, rest, sub(n, rest)),) + tuple(segs[i + 1:]))
            raise Unsupported('cut')
        if rest == 0 or st.prove(mk_eq(rest)) is True:
            return tuple(a), ()
        raise Unsupported('cut outside of sequence: %s' % (rest,))

    def subseq(self, st, segs, off, n):
        _, b = self.cut(st, segs, off)
        a, _ = self.cut(st, b, n)
        return a

    # pointers to sequences

    def seq_of(self, st, p):
        """(segments, element type) seen through a slice / str / vec pointer"""
        if not (isinstance(p, tuple) and p and p[0] == 'p'):
            raise Unsupported('sequence pointer: %s' % (str(p)[:100],))
        v = self.read(st, p[1], p[2])
        if isinstance(v, tuple) and v[0] == 'p':   # reference to a reference
            return self.seq_of(st, v)
        segs = self.segs(v)
        m = p[3]
        if m and m[0] == 'len':
            if m[1] == 0 and st.nf(sub(m[2], seqlen(segs))) == 0:
                return segs, v[1]
            return self.subseq(st, segs, m[1], m[2]), v[1]
        return segs, v[1]

    def alloc(self, st, v, tag='h'):
        c = (tag, st.fresh())
        st.mem[c] = v
        return c

    def slice_ptr(self, cell, path, segs):
        return ('p', cell, path, ('len', 0, seqlen(segs)))

    def const_seq(self, segs, ety=None):
        v = ('vec', ety if ety is not None else self.tu8, segs)
        return ('p', ('c', v), (), ('len', 0, seqlen(segs)))

    # ------------------------------------------------------------------ places & operands

    def loc(self, st, depth, pl):
        """place -> (cell, path, meta)"""
        cell = ('l', depth, pl[0])
        path = ()
        meta = None
        for s in pl[1:]:
            if s == '*':
                v = self.read(st, cell, path)
                if not (isinstance(v, tuple) and v[0] == 'p'):
                    raise Unsupported('deref of %s' % (str(v)[:80],))
                _, cell, path, meta = v
                continue
            k = s[0]
            if k == 'f':
                cur = None
                try:
                    cur = self.read(st, cell, path)
                except Unsupported:
                    cur = None
                if isinstance(cur, tuple) and cur and cur[0] == 'p':
                    pass
                else:
                    path = path + (s[1],)
                meta = None
            elif k == 'd':
                path = path + (('v', s[1]),)
            elif k == 'i':
                ix = self.read(st, ('l', depth, s[1]), ())
                if meta and meta[0] == 'len':
                    ix = add(ix, meta[1])
                path = path + (('i', ix),)
                meta = None
            elif k == 'c':
                base = meta[1] if meta and meta[0] == 'len' else 0
                if s[3]:
                    if meta and meta[0] == 'len':
                        n = meta[2]
                    else:
                        n = seqlen(self.segs(self.read(st, cell, path)))
                    ix = sub(n, s[1])
                else:
                    ix = s[1]
                path = path + (('i', add(base, ix)),)
                meta = None
            elif k == 's':
                if meta and meta[0] == 'len':
                    base, n = meta[1], meta[2]
                else:
                    base, n = 0, seqlen(self.segs(self.read(st, cell, path)))
                if s[3]:
                    m = sub(sub(n, s[1]), s[2])
                else:
                    m = s[2] - s[1]
                meta = ('len', add(base, s[1]), m)
            else:
                raise Unsupported('projection %r' % (s,))
        return cell, path, meta

    def opval(self, st, depth, op):
        k = op[0]
        if k == 'cp' or k == 'mv':
            pl = op[1]
            if len(pl) == 1:
                c = ('l', depth, pl[0])
                v = st.mem.get(c)
                if v is None:
                    v = self.cell_value(st, c)
                if k == 'mv':
                    del st.mem[c]
                return v
            cell, path, meta = self.loc(st, depth, pl)
            v = self.read(st, cell, path)
            return v
        if k == 'k':
            return self.const(st, op[1])
        if k == 'rt':
            return 1
        raise Unsupported('operand %r' % (op,))

    def const(self, st, c):
        k = c['k']
        if k == 'int':
            v = c['v']
            if isinstance(v, str):
                v = int(v)
            r = self.int_range(c['ty'])
            if r is None:
                t = self.w.types[c['ty']]
                if t['k'] == 'adt' and t['adt'] == 'enum':
                    for i, (_, d, _f) in enumerate(t['variants']):
                        if d == v:
                            return ('en', c['ty'], i, ())
                if t['k'] in ('ptr', 'ref'):
                    return ('sy', c['ty'], ('rawptr', v))
            elif r[0] < 0 and v > r[1]:
                v -= (r[1] - r[0] + 1)
            return v
        if k == 'str' or k == 'bytes':
            b = c['v']
            if isinstance(b, str):
                b = list(b.encode())
            segs = bytes_seq(b)
            t = self.w.types[c['ty']]
            v = ('vec', self.tu8, segs)
            if t['k'] in ('ref', 'ptr'):
                e = self.w.types[t['e']]
                if e['k'] == 'array':
                    return ('p', ('c', v), (), None)
                return ('p', ('c', v), (), ('len', 0, len(b)))
            return v
        if k == 'zst':
            return self.zst(c['ty'])
        if k == 'fn':
            return ('fn', c['ty'])
        if k == 'agg':
            t = self.w.types[c['ty']]
            fs = tuple(self.const(st, x) for x in c['f'])
            if t['k'] in ('array', 'slice'):
                return ('vec', t['e'], seqnorm(ones_to_k(tuple(('1', x) for x in fs))) if t['e'] == self.tu8 else tuple(('1', x) for x in fs))
            if t['k'] == 'adt' and t['adt'] == 'enum':
                return ('en', c['ty'], c['variant'], fs)
            if t['k'] == 'adt' and t['path'] in ('alloc::vec::Vec',):
                return ('vec', t['args'][0], ())
            if t['k'] == 'adt' and t['path'] == 'alloc::string::String':
                return ('vec', self.tu8, ())
            return ('st', c['ty'], fs)
        if k == 'ref':
            v = self.const(st, c['v'])
            t = self.w.types[c['ty']]
            meta = None
            if t['k'] in ('ref', 'ptr') and self.w.types[t['e']]['k'] in ('slice', 'str'):
                meta = ('len', 0, seqlen(v[2]))
            return ('p', ('c', v), (), meta)
        if k == 'named':
            v = self.models.named_const(self, st, c) if self.models else None
            if v is not None:
                return v
            return self.const(st, c['v'])
        if k == 'promoted':
            return self.promoted(st, c)
        if k == 'static':
            # shared state that may change: any value of its type
            return ('p', ('d', ('static', c['path']), c['e']), (), self.sym_meta(c['e'], ('static', c['path'])))
        return self.sym(c['ty'], ('const', c.get('path', self.w.ts(c['ty']))))

    def promoted(self, st, c):
        fid = c['fn'] if 'fn' in c else c['v'] if isinstance(c['v'], int) else c['v'].get('fn')
        fn = self.w.fns[fid]
        s = State()
        outs = self.exec_fn(fn, [], s, 500)
        if len(outs) != 1 or outs[0][0] != 'ret':
            raise Unsupported('promoted')
        _, s2, v = outs[0]
        return self.freeze(s2, v)

    def freeze(self, s, v):
        """make pointers into a finished constant state self contained"""
        if isinstance(v, tuple):
            if v and v[0] == 'p':
                inner = self.read(s, v[1], v[2])
                return ('p', ('c', self.freeze(s, inner)), (), v[3])
            if v and v[0] in ('st',):
                return (v[0], v[1], tuple(self.freeze(s, x) for x in v[2]))
            if v and v[0] == 'en':
                return (v[0], v[1], v[2], tuple(self.freeze(s, x) for x in v[3]))
            if v and v[0] == 'vec':
                return ('vec', v[1], tuple(('1', self.freeze(s, g[1])) if g[0] == '1' else g for g in v[2]))
        return v

    def zst(self, t):
        x = self.w.types[t]
        k = x['k']
        if k == 'fndef':
            return ('fn', t)
        if k == 'tuple':
            return ('st', t, tuple(self.zst(f) for f in x['f']))
        if k == 'closure':
            return ('st', t, tuple(self.zst(f) for f in x['up']))
        if k == 'array':
            return ('vec', x['e'], ())
        if k == 'adt':
            if x['adt'] == 'enum':
                return ('en', t, 0, ())
            vs = x['variants']
            return ('st', t, tuple(self.zst(ft) for _, ft in vs[0][2]) if vs else ())
        return ('sy', t, ('zst', x['s']))

    # ------------------------------------------------------------------ rvalues

    def rvalue(self, st, depth, rv, dty):
        k = rv[0]
        if k == 'use':
            return self.opval(st, depth, rv[1])
        if k == 'ref':
            pl = rv[2]
            cell, path, meta = self.loc(st, depth, pl)
            if len(pl) > 1 and (pl[-1] == '*' or (pl[-1][0] == 's' and meta)):
                return ('p', cell, path, meta)
            return ('p', cell, path, self.unsized_meta(st, cell, path, meta, dty))
        if k == 'agg':
            kind = rv[1]
            ty = rv[2] if rv[2] is not None else dty
            ops = tuple(self.opval(st, depth, o) for o in rv[3])
            if kind == 'array':
                e = ty
                segs = tuple(('1', x) for x in ops)
                return ('vec', e, seqnorm(ones_to_k(segs)) if e == self.tu8 else segs)
            if kind in ('tuple', 'closure'):
                return ('st', ty, ops)
            if kind == 'adt':
                t = self.w.types[ty]
                if t['adt'] == 'enum':
                    return ('en', ty, rv[4] or 0, ops)
                return ('st', ty, ops)
            if kind == 'rawptr':
                p = ops[0]
                if isinstance(p, tuple) and p[0] == 'p':
                    if is_num(ops[1]):
                        m = p[3]
                        off = m[1] if m and m[0] == 'len' else 0
                        return ('p', p[1], p[2], ('len', off, ops[1]))
                    return p
            raise Unsupported('aggregate ' + kind)
        if k == 'bin':
            a = self.opval(st, depth, rv[2])
            b = self.opval(st, depth, rv[3])
            return self.binop(st, rv[1], a, b, rv[4], dty)
        if k == 'un':
            a = self.opval(st, depth, rv[2])
            if rv[1] == 'Not':
                t = self.w.types[rv[3]]
                if t['k'] == 'bool':
                    return c_not(a)
                return self.not_int(st, a, rv[3])
            if rv[1] == 'Neg':
                return neg(a)
            if rv[1] == 'PtrMetadata':
                if isinstance(a, tuple) and a[0] == 'p':
                    if a[3] and a[3][0] == 'len':
                        return a[3][2]
                    if a[3] is None:
                        return ('st', None, ())
                raise Unsupported('ptr metadata')
            raise Unsupported('unop ' + rv[1])
        if k == 'cast':
            v = self.opval(st, depth, rv[2])
            return self.cast(st, rv[1], v, rv[4], rv[3])
        if k == 'discr':
            cell, path, meta = self.loc(st, depth, rv[1])
            return self.discr(st, self.read(st, cell, path))
        if k == 'repeat':
            v = self.opval(st, depth, rv[1])
            n = rv[2]
            t = self.w.types[dty]
            if isinstance(n, str):
                n = int(n)
            if isinstance(v, int) and t['e'] == self.tu8:
                return ('vec', t['e'], bytes_seq([v] * n))
            if n <= 64:
                return ('vec', t['e'], tuple(('1', v) for _ in range(n)))
            return ('vec', t['e'], (('m', v, n),))
        raise Unsupported('rvalue ' + k)

    def unsized_meta(self, st, cell, path, meta, dty):
        x = self.w.types[dty] if dty is not None else None
        if x and x['k'] in ('ref', 'ptr'):
            e = self.w.types[x['e']]
            if e['k'] in ('slice', 'str'):
                v = self.read(st, cell, path)
                if isinstance(v, tuple) and v[0] in ('vec', 'bm'):
                    return ('len', 0, seqlen(v[2]))
        return None

    def discr(self, st, v):
        if v[0] == 'en':
            x = self.w.types[v[1]]
            if x['k'] != 'adt':
                return v[2]
            return x['variants'][v[2]][1]
        if v[0] == 'et':
            vs = self.w.types[v[1]]['variants']
            return tab(v[2], tuple(vs[i][1] for i in v[3]))
        if v[0] == 'sy':
            x = self.w.types[v[1]]
            if x['k'] == 'adt' and x['adt'] == 'enum':
                vs = x['variants']
                nm = v[2]
                if isinstance(nm, tuple) and nm and nm[0] == 'clone':
                    nm = nm[1]
                return tab(('f', ('disc', nm), len(vs)), tuple(y[1] for y in vs))
        if v[:2] == ('ob', 'status'):
            return self.w.types[v[2]]['variants'][self.variant_of(st, v)][1]
        raise Unsupported('discriminant of %s' % (str(v)[:80],))

    def variant_of(self, st, v):
        """variant index, splitting if undecided"""
        if v[0] == 'en':
            return v[2]
        if v[0] == 'et':
            t = tab(v[2], v[3])
            if isinstance(t, int):
                return t
            x = st.tabval(t)
            if isinstance(x, int):
                return x
            self.split_tab(st, t)
        if v[0] == 'sy':
            x = self.w.types[v[1]]
            if x['k'] == 'adt' and x['adt'] == 'enum':
                nm = v[2]
                if isinstance(nm, tuple) and nm and nm[0] == 'clone':
                    nm = nm[1]
                f = ('f', ('disc', nm), len(x['variants']))
                m = st.dom.get(f, (1 << f[2]) - 1)
                if m & (m - 1) == 0:
                    return m.bit_length() - 1
                st.split_atom(f)
        if v[:2] == ('ob', 'status'):
            from .urls import status_variant
            return status_variant(self, st, v)
        raise Unsupported('variant of %s' % (str(v)[:80],))

    def split_tab(self, st, v):
        """split on the values of a table"""
        f, vals = one_tab(v)
        m = st.dom.get(f, (1 << f[2]) - 1)
        groups = {}
        for i, x in enumerate(vals):
            if m >> i & 1:
                groups[x] = groups.get(x, 0) | 1 << i
        raise Split([[('dom', f, g)] for g in groups.values()])

    def enum_fields(self, st, v, vi):
        if v[0] == 'en':
            return v[3]
        if v[0] == 'et':
            return ()
        if v[:2] == ('ob', 'status'):
            return (v[3],)
        fts = self.field_types(v[1], vi)
        return tuple(self.sym_field(v, i, vi) for i in range(len(fts)))

    def wrap_ok(self, st, v, t):
        lo, hi = self.int_range(t)
        return lo, hi

    def binop(self, st, op, a, b, t, dty):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(st, op, a, b)
        if op == 'Cmp':
            raise Unsupported('Cmp')
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked',
                  'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            if not (is_num(a) and is_num(b)):
                raise Unsupported('arith on %s' % (str(a)[:40],))
            if op[:3] == 'Add':
                r = add(a, b)
            elif op[:3] == 'Sub':
                r = sub(a, b)
            else:
                r = self.num_mul(st, a, b)
            lo, hi = self.int_range(t)
            if op.endswith('WithOverflow'):
                # a - b below zero / a + b above max
                cl = mk_le(sub(lo, r))
                ch = mk_le(sub(r, hi))
                okl = st.prove(cl)
                okh = st.prove(ch)
                if okl and okh:
                    ov = 0
                elif okl is False or okh is False:
                    ov = 1
                elif okl:
                    ov = c_not(ch)
                elif okh:
                    ov = c_not(cl)
                else:
                    ov = c_not(cl) if st.truth(ch) else 1
                return ('st', dty, (r, ov))
            if op in ('Add', 'Sub', 'Mul'):
                return self.wrap(st, r, t)
            return r
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if self.w.tk(t) == 'bool':
                return self.bool_op(st, op, a, b)
            return self.bit_op(st, op, a, b, t)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            return self.shift(st, op[:3], a, b, t)
        if op in ('Div', 'Rem'):
            bc = st.concrete(b)
            if bc is None or bc == 0:
                raise Unsupported('division by unknown')
            return self.divrem(st, op, a, bc)
        if op == 'Offset':
            if isinstance(a, tuple) and a[0] == 'p' and is_num(b):
                m = a[3]
                if m and m[0] == 'len':
                    off, n = m[1], m[2]
                else:
                    off, n = 0, seqlen(self.segs(self.read(st, a[1], a[2])))
                return ('p', a[1], a[2], ('len', add(off, b), sub(n, b)))
            raise Unsupported('pointer offset')
        raise Unsupported('binop ' + op)

    def wrap(self, st, r, t):
        lo, hi = self.int_range(t)
        if isinstance(r, int):
            n = hi - lo + 1
            return (r - lo) % n + lo
        l, h = st.bounds(r)
        if l >= lo and h <= hi:
            return r
        x = one_tab(r)
        n = hi - lo + 1
        if x:
            return tab(x[0], tuple((y - lo) % n + lo for y in x[1]))
        if st.prove_le(sub(lo, r)) and st.prove_le(sub(r, hi)):
            return r
        return ('L', 0, ((('op', 'wrap', r, n, (lo, hi)), 1),))

    def num_mul(self, st, a, b):
        ca, cb = st.concrete(a), st.concrete(b)
        if ca is not None:
            return mul(b, ca)
        if cb is not None:
            return mul(a, cb)
        ta, tb = one_tab(a), one_tab(b)
        if ta and tb:
            if ta[0] == tb[0]:
                return tab(ta[0], tuple(x * y for x, y in zip(ta[1], tb[1])))
        if ta and len(set(ta[1])) <= 16:
            self.split_tab(st, a)
        if tb and len(set(tb[1])) <= 16:
            self.split_tab(st, b)
        la, ha = st.bounds(a)
        lb, hb = st.bounds(b)
        ps = [la * lb, la * hb, ha * lb, ha * hb]
        x = sorted([a, b], key=repr)
        return ('L', 0, ((('op', 'mul', x[0], x[1], (min(ps), max(ps))), 1),))

    def divrem(self, st, op, a, n):
        if isinstance(a, int):
            return a // n if op == 'Div' else a % n
        lo, hi = self.upper(st, a, (n - 1,))
        if op == 'Rem':
            if 0 <= lo and hi < n:
                return a
            t = one_tab(a)
            if t:
                return tab(t[0], tuple(x % n for x in t[1]))
            if lo >= 0:
                # multiples of n do not matter
                rs = div_parts(a, n)[1]
                if rs != a:
                    l, h = self.upper(st, rs, (n - 1,))
                    if l >= 0:
                        return rs if h < n else self.divrem(st, op, rs, n)
            if n <= 64 and lo >= 0:
                return mk_mod(a, n)
            return ('L', 0, ((('op', 'rem', a, n, (0, n - 1)), 1),))
        t = one_tab(a)
        if t:
            return tab(t[0], tuple(x // n for x in t[1]))
        if lo >= 0 and hi < n:
            return 0
        c, d = parts(a)
        if c % n == 0 and all(k % n == 0 for k in d.values()):
            return build(c // n, {x: k // n for x, k in d.items()})
        # split into divisible part and small rest
        q, rs = div_parts(a, n)
        l, h = self.upper(st, rs, (n - 1,))
        if l >= 0 and h < n:
            return q
        return ('L', 0, ((('op', 'div', a, n, (lo // n, hi // n)), 1),))

    def bool_op(self, st, op, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int):
                if op == 'BitAnd':
                    return y if x else 0
                if op == 'BitOr':
                    return 1 if x else y
                return c_not(y) if x else y
        if a == b:
            return a if op != 'BitXor' else 0
        if is_L(a) and is_L(b):
            ta, tb = one_tab(a), one_tab(b)
            if ta and tb and ta[0] == tb[0]:
                f = {'BitAnd': lambda p, q: p & q, 'BitOr': lambda p, q: p | q, 'BitXor': lambda p, q: p ^ q}[op]
                return tab(ta[0], tuple(f(p, q) for p, q in zip(ta[1], tb[1])))
        t = 1 if st.truth(a) else 0
        return self.bool_op(st, op, t, b)

    def ones(self, st, v):
        """mask of bits that can be set"""
        if isinstance(v, int):
            return v
        t = one_tab(v)
        if t:
            m = st.dom.get(t[0])
            r = 0
            for i, x in enumerate(t[1]):
                if m is None or m >> i & 1:
                    r |= x
            return r
        lo, hi = self.upper(st, v)
        if lo < 0:
            return -1
        if hi <= 65535 and len(v[2]) and all(a[0] != 'tab' for a, _ in v[2]):
            return (1 << hi.bit_length()) - 1
        # sum of scaled parts with disjoint bits
        r = v[1]
        for a, k in v[2]:
            l, h = atom_range(a, st)
            if k < 0 or l < 0 or k & (k - 1):
                return (1 << hi.bit_length()) - 1
            if a[0] == 'tab':
                o = 0
                m = st.dom.get(a[1])
                for i, x in enumerate(a[2]):
                    if m is None or m >> i & 1:
                        o |= x
            else:
                o = (1 << h.bit_length()) - 1
            o *= k
            if r & o:
                return (1 << hi.bit_length()) - 1
            r |= o
        return r

    def bit_op(self, st, op, a, b, t):
        if isinstance(a, int) and isinstance(b, int):
            return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
        if op == 'BitAnd' and b in (1, 3, 7, 15) and isinstance(a, tuple) and a[0] == 'p':
            return 0    # alignment test of a reference or box
        if not (is_num(a) and is_num(b)):
            raise Unsupported('bit op %s %s' % (str(a)[:200], str(b)[:200]))
        a = st.tabval(st.nf(a))
        b = st.tabval(st.nf(b))
        if isinstance(a, int) and isinstance(b, int):
            return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
        fn = {'BitAnd': lambda p, q: p & q, 'BitOr': lambda p, q: p | q, 'BitXor': lambda p, q: p ^ q}[op]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int):
                tt = one_tab(y)
                if tt:
                    return tab(tt[0], tuple(fn(p, x) for p in tt[1]))
                if op == 'BitAnd' and x == 0:
                    return 0
                if op != 'BitAnd' and x == 0:
                    return y
                o = self.ones(st, y)
                if op == 'BitAnd' and o >= 0:
                    if o & x == 0:
                        return 0
                    if o & ~x == 0:
                        return y
                    if x & (x + 1) == 0:
                        return self.divrem(st, 'Rem', y, x + 1)
                    # high mask
                if op in ('BitOr', 'BitXor') and o >= 0 and o & x == 0:
                    return add(y, x)
        ta = one_tab(a) if is_L(a) else None
        tb = one_tab(b) if is_L(b) else None
        if ta and tb and ta[0] == tb[0]:
            return tab(ta[0], tuple(fn(p, q) for p, q in zip(ta[1], tb[1])))
        oa, ob = self.ones(st, a), self.ones(st, b)
        if oa >= 0 and ob >= 0 and oa & ob == 0:
            if op == 'BitAnd':
                return 0
            return add(a, b)
        if a == b:
            return 0 if op == 'BitXor' else a
        if op == 'BitXor':
            r = mk_xor((a, b), INF)
            q = r[2][0][0] if is_L(r) and r[1] == 0 and len(r[2]) == 1 else None
            if not (q and q[0] == 'op' and q[1] == 'xor'):
                return r
            if len(q[2]) == 2 and isinstance(q[2][1], int):
                return self.bit_op(st, op, q[2][0], q[2][1], t) if (a, b) != q[2] and (b, a) != q[2] else r
            os = [self.ones(st, v) for v in q[2]]
            if any(o < 0 for o in os):
                return r
            return mk_xor((a, b), (1 << max(max(os).bit_length(), 1)) - 1)
        # split the smaller table
        cands = []
        if ta:
            cands.append((len(set(ta[1])), a))
        if tb:
            cands.append((len(set(tb[1])), b))
        cands.sort(key=lambda c: c[0])
        if cands and cands[0][0] <= 16:
            self.split_tab(st, cands[0][1])
        x = sorted([a, b], key=repr)
        hi = (1 << max(oa.bit_length(), ob.bit_length(), 1)) - 1 if oa >= 0 and ob >= 0 else INF
        return ('L', 0, ((('op', op, x[0], x[1], (0, hi)), 1),))

    def not_int(self, st, a, t):
        lo, hi = self.int_range(t)
        if lo < 0:
            return sub(-1, a)
        return sub(hi, a)

    def shift(self, st, op, a, b, t):
        c = st.concrete(b)
        if c is None:
            tb = one_tab(b) if is_L(b) else None
            if tb and len(set(tb[1])) <= 16:
                self.split_tab(st, b)
            raise Unsupported('shift amount')
        if op == 'Shl':
            return self.wrap(st, mul(a, 1 << c), t)
        if isinstance(a, int):
            return a >> c
        lo, hi = st.bounds(a)
        if lo < 0:
            raise Unsupported('signed shift')
        return self.divrem(st, 'Div', a, 1 << c)

    def compare(self, st, op, a, b):
        if isinstance(a, tuple) and a and a[0] == 'C' or isinstance(b, tuple) and b and b[0] == 'C':
            # boolean comparison
            if op in ('Eq', 'Ne'):
                if not isinstance(b, int):
                    a, b = b, a
                if not isinstance(b, int):
                    b = 1 if st.truth(b) else 0
                r = a if b else c_not(a)
                return r if op == 'Eq' else c_not(r)
            raise Unsupported('order on bools')
        if is_num(a) and is_num(b):
            d = sub(a, b)
            if op == 'Eq':
                return mk_eq(d)
            if op == 'Ne':
                return c_not(mk_eq(d))
            if op == 'Le':
                return mk_le(d)
            if op == 'Lt':
                return mk_le(add(d, 1))
            if op == 'Ge':
                return mk_le(neg(d))
            return mk_le(sub(1, d))
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'p' and b[0] == 'p' and op in ('Eq', 'Ne'):
            if a == b:
                return 1 if op == 'Eq' else 0
        if op in ('Eq', 'Ne') and b == 0 and isinstance(a, tuple) and a[0] == 'p':
            return 1 if op == 'Ne' else 0
        raise Unsupported('compare %s' % (str(a)[:60],))

    def cast(self, st, kind, v, to, frm):
        if kind.startswith('IntToInt'):
            if isinstance(v, tuple) and v[0] == 'C':
                return 1 if st.truth(v) else 0
            if isinstance(v, tuple) and v[0] in ('en', 'et'):
                return self.discr(st, v)
            lo, hi = self.int_range(to)
            if isinstance(v, int):
                n = hi - lo + 1
                return (v - lo) % n + lo
            v = st.nf(v)
            l, h = st.bounds(v)
            if l >= lo and h <= hi:
                return v
            x = one_tab(v)
            n = hi - lo + 1
            if x:
                return tab(x[0], tuple((y - lo) % n + lo for y in x[1]))
            if st.prove_le(sub(lo, v)) and st.prove_le(sub(v, hi)):
                return v
            if lo == 0:
                return self.low_bits(st, v, hi.bit_length())
            return ('L', 0, ((('op', 'wrap', v, n, (lo, hi)), 1),))
        if 'Unsize' in kind:
            if isinstance(v, tuple) and v[0] == 'p':
                f = self.w.types[frm]
                t = self.w.types[to]
                te = self.pointee(to)
                fe = self.pointee(frm)
                if te is None or fe is None:
                    return v
                if self.w.tk(te) == 'dyn':
                    if self.w.tk(fe) == 'dyn':
                        return v
                    return ('p', v[1], v[2], ('dyn', fe))
                if self.w.tk(te) == 'slice' and self.w.tk(fe) == 'array':
                    n = self.w.types[fe]['n']
                    if not isinstance(n, int):
                        n = seqlen(self.segs(self.read(st, v[1], v[2])))
                    return ('p', v[1], v[2], ('len', 0, n))
                return v
            return v
        if kind in ('PtrToPtr', 'Transmute', 'BoxDerefTransmute') or 'Pointer' in kind or kind == 'Subtype':
            if is_num(v):
                r = self.int_range(to)
                if r is None:
                    t = self.w.types[to]
                    if t['k'] == 'adt' and t['adt'] == 'enum':
                        return self.enum_from_discr(st, v, to)
                    raise Unsupported('transmute to ' + t['s'])
                return v
            if isinstance(v, tuple) and v[0] in ('en', 'et') and self.int_range(to):
                return self.discr(st, v)
            if isinstance(v, tuple) and v[0] == 'p':
                return v
            if isinstance(v, tuple) and v[0] == 'fn':
                return v
            # newtype / same representation
            return v
        raise Unsupported('cast ' + kind)

    def enum_from_discr(self, st, v, t):
        vs = self.w.types[t]['variants']
        ix = {y[1]: i for i, y in enumerate(vs)}
        c = st.concrete(v)
        if c is not None and c in ix:
            return ('en', t, ix[c], ())
        tt = one_tab(v) if is_L(v) else None
        if tt:
            return ('et', t, tt[0], tuple(ix.get(x, 0) for x in tt[1]))
        raise Unsupported('enum from number')

    def low_bits(self, st, v, bits):
        n = 1 << bits
        if isinstance(v, int):
            return v % n
        # drop multiples of n
        _, r = div_parts(v, n)
        l, h = self.upper(st, r, (n - 1,))
        if l >= 0 and h < n:
            return r
        return ('L', 0, ((('op', 'low', r, bits, (0, n - 1)), 1),))

    def pointee(self, t):
        x = self.w.types[t]
        if x['k'] in ('ref', 'ptr'):
            return x['e']
        if x['k'] == 'adt' and x['args']:
            a = x['args'][0]
            return a if isinstance(a, int) else None
        return None

    def byte_of(self, st, v, k):
        """byte k (0 = least significant) of a number"""
        if isinstance(v, int):
            return (v >> (8 * k)) & 255
        v = st.nf(v)
        t = one_tab(v)
        if t:
            return tab(t[0], tuple((x >> (8 * k)) & 255 for x in t[1]))
        c, d = parts(v)
        lo, hi = self.upper(st, v)
        if lo >= 0 and c >= 0:
            # sum of pieces living in disjoint bytes
            buckets = {}
            good = True
            for a, q in d.items():
                l, h = atom_range(a, st)
                if l < 0 or q < 0:
                    good = False
                    break
                b = 0
                while q % 256 == 0:
                    q //= 256
                    b += 1
                if a[0] == 'tab' and q == 1:
                    vs = a[2]
                    while any(vs) and all(x % 256 == 0 for x in vs):
                        vs = tuple(x // 256 for x in vs)
                        b += 1
                    if vs is not a[2]:
                        y = tab(a[1], vs)
                        if is_L(y) and y[1] == 0 and len(y[2]) == 1 and y[2][0][1] == 1:
                            a = y[2][0][0]
                            h = max(vs)
                        else:
                            good = False
                            break
                if q * h > 255 and not (q == 1):
                    good = False
                    break
                buckets.setdefault(b, []).append((a, q, q * h))
            if good and c == 0:
                ok = True
                for b, l in buckets.items():
                    if sum(x[2] for x in l) > 255:
                        ok = False
                if ok:
                    return build(0, {a: q for a, q, _ in buckets.get(k, [])})
        if lo >= 0 and hi < (1 << (8 * k)):
            return 0
        if k == 0 and lo >= 0 and hi < 256:
            return v
        return ('L', 0, ((('op', 'byte', v, k, (0, 255)), 1),))

    def upper(self, st, v, extra=()):
        """bounds, also by proof: whether v stays below one of a few limits"""
        lo, hi = st.bounds(v)
        ks = sorted({127, 255, 65535} | set(extra))
        if hi <= ks[0]:
            return lo, hi
        for k in ks:
            if k < hi and st.prove(mk_le(sub(v, k))) is True:
                return lo, k
        return lo, hi

    def simp(self, st, v):
        r = v[1]
        for a, k in v[2]:
            x = ('L', 0, ((a, 1),))
            if a[0] == 'op' and a[1] == 'byte':
                y = self.simp(st, a[2]) if is_L(a[2]) else a[2]
                x = self.byte_of(st, y, a[3])
            elif a[0] == 'op' and a[1] in ('BitAnd', 'BitOr', 'BitXor') and len(a) == 5:
                p, q = (self.simp(st, y) if is_L(y) else y for y in (a[2], a[3]))
                x = self.bit_op(st, a[1], p, q, None)
            r = add(r, mul(x, k))
        return r

    def from_bytes(self, bs):
        """big endian number from byte values"""
        n = len(bs)
        # bytes of one value in order
        q = None
        for i, b in enumerate(bs):
            if is_L(b) and b[1] == 0 and len(b[2]) == 1 and b[2][0][1] == 1 and b[2][0][0][0] == 'op' and b[2][0][0][1] == 'byte':
                o = b[2][0][0]
                if o[3] != n - 1 - i or (q is not None and q != o[2]):
                    q = None
                    break
                q = o[2]
            else:
                q = None
                break
        if q is not None:
            return q
        r = 0
        for b in bs:
            r = add(mul(r, 256), b)
        return r

    # ------------------------------------------------------------------ execution

    def exec_fn(self, fn, args, st, depth):
        if depth > 70 and depth < 500 or depth > 540:
            raise Unsupported('depth')
        key = fn['path']
        self.fn_seen[key] = self.fn_seen.get(key, 0) + 1
        argc = fn['argc']
        if fn.get('spread') is not None and len(args) != argc:
            raise Unsupported('spread args')
        if len(args) != argc:
            raise Unsupported('arity %s %d %d' % (fn['path'], len(args), argc))
        for i, a in enumerate(args):
            st.mem[('l', depth, i + 1)] = a
        outs, exits = self.exec_region(fn, depth, [(0, st)], None, None)
        res = []
        for o in outs:
            if o[0] == 'ret':
                s = o[1]
                rv = s.mem.get(('l', depth, 0))
                if rv is None:
                    rv = self.unit_or_missing(fn)
                if depth != 500:        # the state of a promoted constant only lives until it is frozen
                    for c in [c for c in s.mem if c[0] == 'l' and c[1] >= depth]:
                        del s.mem[c]
                res.append(('ret', s, rv))
            else:
                res.append(o)
        if len(res) > 1:
            res = self.merge_outs(res)
        return res

    def unit_or_missing(self, fn):
        t = fn['locals'][0]
        x = self.w.types[t]
        if x['k'] == 'tuple' and not x['f']:
            return ('st', t, ())
        if x['k'] in ('adt', 'closure', 'fndef'):
            return self.zst(t)
        return ('st', t, ())

    def merge_outs(self, outs):
        rets = [o for o in outs if o[0] == 'ret']
        rest = [o for o in outs if o[0] != 'ret']
        if len(rets) < 2 or len(rets) > 60:
            return outs
        RV = ('ret#',)
        sts = []
        for _, s, v in rets:
            s.mem[RV] = v
            sts.append(s)
        sts = self.merge(sts)
        res = []
        for s in sts:
            v = s.mem.pop(RV)
            res.append(('ret', s, v))
        return res + rest

    def exec_region(self, fn, depth, entries, region, header):
        """runs from entries [(block, state)]; within `region` (a loop body) when given.
        returns (outs, exits): outs = ret/panic/unk outcomes, exits = [(block, state)] leaving the region or
        arriving at the loop header"""
        rpo, loops = self.w.flow(fn)
        work = []
        cnt = 0
        pend = {}
        for b, s in entries:
            pend.setdefault(b, []).append(s)
        for b in pend:
            heapq.heappush(work, (rpo[b], b))
        outs = []
        exits = []
        first = True
        while work:
            _, b = heapq.heappop(work)
            sts = pend.pop(b, None)
            if not sts:
                continue
            if len(sts) > 1 or b in loops:
                for l in self.w.live(fn)[b]:
                    for x in sts:
                        x.mem.pop(('l', depth, l), None)
            if len(sts) > 1:
                sts = self.merge(sts)
            for st in sts:
                if b in loops and not (header == b):
                    # inner or outermost loop entered from outside
                    o2, e2 = self.run_loop(fn, depth, b, loops[b], st)
                    outs.extend(o2)
                    nxt = e2
                else:
                    nxt = self.exec_block(fn, depth, b, st, outs)
                for nb, ns in nxt:
                    if region is not None and (nb == header or nb not in region):
                        for l in self.w.live(fn)[nb]:
                            ns.mem.pop(('l', depth, l), None)
                        exits.append((nb, ns))
                        continue
                    if nb not in pend:
                        pend[nb] = []
                        heapq.heappush(work, (rpo[nb], nb))
                    pend[nb].append(ns)
        return outs, exits

    def exec_block(self, fn, depth, b, st, outs):
        """executes one block; returns list of (next block, state)"""
        blk = fn['blocks'][b]
        if blk is None:
            return []
        stmts, term = blk[0], blk[1]
        res = []
        stack = [(st, 0)]
        while stack:
            s, i = stack.pop()
            self.steps += 1
            if self.steps > self.maxsteps:
                raise RuntimeError('analysis budget exceeded in ' + fn['path'])
            try:
                split = None
                while i < len(stmts):
                    x = stmts[i]
                    k = x[0]
                    if k == '=':
                        rv = x[2]
                        pre = None
                        if rv[0] in ('bin', 'cast', 'un') or self.has_index(x):
                            pre = s.copy()
                        try:
                            self.assign(fn, depth, s, x)
                        except Split as e:
                            if pre is None:
                                raise Unsupported('split without copy')
                            self.push_alts(pre, e, stack, i)
                            split = True
                            break
                    elif k == 'dead':
                        s.mem.pop(('l', depth, x[1]), None)
                    elif k == 'sd':
                        cell, path, _ = self.loc(s, depth, x[1])
                        v = self.read(s, cell, path)
                        self.write(s, cell, path, ('en', v[1], x[2], v[3] if v[0] == 'en' else ()))
                    i += 1
                if split:
                    continue
                pre = s.copy()
                try:
                    res.extend(self.exec_term(fn, depth, term, s, outs, blk[2] if len(blk) > 2 else None))
                except Split as e:
                    self.push_alts(pre, e, stack, i)
            except Unsupported as e:
                self.note_unk(fn, str(e))
                outs.append(('unk', s, (fn['path'], str(e))))
            except (KeyError, TypeError, IndexError, AttributeError, ValueError, AssertionError, RecursionError) as e:
                if os.environ.get('WSA_TRACE'):
                    traceback.print_exc()
                msg = '%s: %s' % (type(e).__name__, str(e)[:200])
                self.note_unk(fn, msg)
                outs.append(('unk', s, (fn['path'], msg)))
        return res

    def has_index(self, x):
        for pl in (x[1],):
            if len(pl) > 1 and any(p != '*' and p[0] in ('i', 'c', 's') for p in pl[1:]):
                return True
        rv = x[2]
        if rv[0] in ('use', 'ref', 'discr'):
            pl = rv[1] if rv[0] == 'discr' else (rv[2] if rv[0] == 'ref' else (rv[1][1] if rv[1][0] in ('cp', 'mv') else []))
            return len(pl) > 1
        return False

    def push_alts(self, pre, e, stack, i):
        for a in e.alts:
            s = pre.copy()
            s.nsplit += 1
            good = True
            for c in a:
                if not s.assume(c):
                    good = False
                    break
            if good and not s.infeasible():
                stack.append((s, i))

    def note_unk(self, fn, msg):
        if not self.dry:
            k = (fn['path'], msg[:160])
            self.havocs[k] = self.havocs.get(k, 0) + 1

    def assign(self, fn, depth, st, x):
        pl = x[1]
        dty = fn['locals'][pl[0]] if len(pl) == 1 else self.place_ty(fn, pl)
        v = self.rvalue(st, depth, x[2], dty)
        if len(pl) == 1:
            st.mem[('l', depth, pl[0])] = v
        else:
            self.store(st, depth, pl, v, fn)

    def place_ty(self, fn, pl):
        t = fn['locals'][pl[0]]
        for s in pl[1:]:
            if s == '*':
                t = self.pointee(t)
            elif s[0] == 'f':
                t = s[2]
            elif s[0] in ('i', 'c'):
                x = self.w.types[t]
                t = x.get('e')
            if t is None:
                return None
        return t

    def store(self, st, depth, pl, v, fn=None):
        cell, path, meta = self.loc(st, depth, pl)
        if path and cell[0] == 'l' and cell not in st.mem and fn is not None:
            # field by field initialisation of an aggregate
            t = fn['locals'][cell[2]] if cell[1] == depth else None
            x = self.w.types[t] if t is not None else None
            if x and x['k'] in ('tuple', 'closure') or x and x['k'] == 'adt' and x['adt'] == 'struct':
                st.mem[cell] = ('st', t, tuple(None for _ in self.field_types(t)))
        self.write(st, cell, path, v)

    # ---- terminators

    def exec_term(self, fn, depth, term, st, outs, line):
        k = term[0]
        if k == 'goto':
            return [(term[1], st)]
        if k == 'switch':
            v = self.opval(st, depth, term[1])
            if isinstance(v, tuple) and v[0] == 'C':
                v0 = v
                t = st.truth(v0)
                v = 1 if t else 0
            v = st.nf(v)
            if isinstance(v, int):
                for x, b in term[2]:
                    if self.canon(x, term[4]) == v:
                        return [(b, st)]
                return [(term[3], st)]
            res = []
            tb = one_tab(v)
            if tb:
                f, vals = tb
                m = st.dom.get(f, (1 << f[2]) - 1)
                used = 0
                groups = {}
                targets = {self.canon(x, term[4]): b for x, b in term[2]}
                for i, x in enumerate(vals):
                    if m >> i & 1:
                        b = targets.get(x, term[3])
                        groups[b] = groups.get(b, 0) | 1 << i
                items = list(groups.items())
                if len(items) == 1:
                    return [(items[0][0], st)]
                for b, g in items:
                    s = st.copy()
                    s.nsplit += 1
                    if s.assume(('dom', f, g)):
                        res.append((b, s))
                return res
            cur = st
            for x, b in term[2]:
                c = mk_eq(sub(v, self.canon(x, term[4])))
                r = cur.prove(c)
                if r is True:
                    res.append((b, cur))
                    return res
                if r is False:
                    continue
                al = cur.alts(c)
                s = cur.copy()
                s.nsplit += 1
                if all(s.assume(q) for q in al[0]) and not s.infeasible():
                    res.append((b, s))
                n = cur.copy()
                n.nsplit += 1
                if not all(n.assume(q) for q in al[1]) or n.infeasible():
                    return res
                cur = n
            if term[3] is not None:
                res.append((term[3], cur))
            return res
        if k == 'ret':
            outs.append(('ret', st, None))
            return []
        if k == 'unreachable':
            if not st.infeasible():
                outs.append(('unk', st, (fn['path'], 'unreachable reached')))
            return []
        if k == 'drop':
            if self.models:
                self.models.drop(self, st, depth, term[1], term[3] if len(term) > 3 else None, fn)
            return [(term[2], st)]
        if k == 'assert':
            c = self.opval(st, depth, term[1])
            exp = 1 if term[2] else 0
            if isinstance(c, tuple) and c[0] != 'C' and not is_L(c):
                raise Unsupported('assert condition')
            r = st.prove(c)
            if r is None:
                al = st.alts(c)
                bad = al[1] if exp else al[0]
                good = al[0] if exp else al[1]
                s = st.copy()
                if all(s.assume(q) for q in bad) and not s.infeasible():
                    outs.append(('panic', s, (fn['path'], 'assert:' + str(term[3]), term[5] if len(term) > 5 else line)))
                g = st
                g.nsplit += 1
                if all(g.assume(q) for q in good) and not g.infeasible():
                    return [(term[4], g)]
                return []
            if r == bool(exp):
                return [(term[4], st)]
            outs.append(('panic', st, (fn['path'], 'assert:' + str(term[3]), term[5] if len(term) > 5 else line)))
            return []
        if k == 'call':
            return self.exec_call(fn, depth, term, st, outs)
        raise Unsupported('terminator ' + k)

    def canon(self, x, t):
        if isinstance(x, str):
            x = int(x)
        r = self.int_range(t)
        if r and r[0] < 0 and x > r[1]:
            x -= r[1] - r[0] + 1
        return x

    def exec_call(self, fn, depth, term, st, outs):
        callee, args, dest, target, line = term[1], term[2], term[3], term[4], term[5] if len(term) > 5 else None
        av = [self.opval(st, depth, a) for a in args]
        self.cur_line = line
        self.cur_fn = fn
        dty = fn['locals'][dest[0]] if len(dest) == 1 else self.place_ty(fn, dest)
        if callee['kind'] == 'ptr':
            f = self.opval(st, depth, callee['op']) if 'op' in callee else None
            res = self.call_value(st, depth, f, av, dty)
        else:
            res = self.call(st, depth, callee, av, dty, line)
        out = []
        for o in res:
            if o[0] == 'ret':
                if target is None:
                    continue
                s, v = o[1], o[2]
                if len(dest) == 1:
                    s.mem[('l', depth, dest[0])] = v
                else:
                    self.store(s, depth, dest, v, fn)
                out.append((target, s))
            else:
                outs.append(o)
        return out

    def call(self, st, depth, callee, args, dty, line=None):
        """-> list of ('ret', state, value) / ('panic', ..) / ('unk', ..)"""
        r = self.models.call(self, st, depth, callee, args, dty, line)
        if r is not NotImplemented:
            return r
        kind = callee['kind']
        if kind == 'ctor':
            ty, vi = callee['ctor'] if callee.get('ctor') else (dty, None)
            x = self.w.types[ty]
            if x['k'] == 'adt' and x['adt'] == 'enum':
                return [('ret', st, ('en', ty, vi or 0, tuple(args)))]
            return [('ret', st, ('st', ty, tuple(args)))]
        if kind == 'virtual':
            p = args[0]
            if isinstance(p, tuple) and p[0] == 'p' and p[3] and p[3][0] == 'dyn' and p[3][1] is not None:
                m = self.w.vt.get(p[3][1], {}).get(callee['trait'] + '::' + callee['name'])
                if m is not None:
                    return self.call(st, depth, m, [('p', p[1], p[2], None)] + list(args[1:]), dty, line)
            raise Unsupported('virtual call %s::%s' % (callee.get('trait'), callee.get('name')))
        f = callee.get('fn')
        if f is not None and f in self.w.fns:
            fn = self.w.fns[f]
            if kind.startswith('shim') and 'blocks' not in fn:
                raise Unsupported('shim')
            if fn.get('spread') is not None and len(args) == 2 and fn['argc'] != 2:
                pass
            return self.exec_fn(fn, args, st, depth + 1)
        return self.foreign(st, callee, args, dty)

    def foreign(self, st, callee, args, dty):
        """a call of a library function that has no model: any result and any change of what it can reach,
        when all of that is plain data; the check reports the call as not modelled"""
        name = callee.get('rpath') or callee.get('path')
        bad = Unsupported('call of %s' % (name,))
        ins = callee.get('ins')
        if ins is None or len(ins) != len(args) or dty is None or self.w.types[dty]['k'] == 'never' or not self.plain(dty, 0):
            raise bad
        changed = []
        for a, t in zip(args, ins):
            x = self.w.types[t]
            if not self.plain(t, 0):
                raise bad
            if x['k'] in ('ref', 'ptr'):
                if x['k'] == 'ref' and not x.get('mut'):
                    continue
                if not (isinstance(a, tuple) and a[0] == 'p') or self.w.types[x['e']]['k'] in ('slice', 'str', 'dyn') or a[1][0] == 'c':
                    raise bad
                changed.append((a, x['e']))
            elif has_pointer(a):
                raise bad
        n = st.fresh()
        for i, (a, e) in enumerate(changed):
            if has_pointer(self.read(st, a[1], a[2])):
                raise bad
            self.write(st, a[1], a[2], self.sym(e, ('foreign', strip_generics(name), n, i)))
        self.soft.add(name)
        return [('ret', st, self.sym(dty, ('foreign', strip_generics(name), n)))]

    def plain(self, t, d):
        """types without I/O objects, unknown types or code"""
        x = self.w.types[t]
        k = x['k']
        if d > 8:
            return True
        if k in ('bool', 'int', 'char', 'str', 'float', 'never', 'fndef'):
            return True
        if k in ('ref', 'ptr', 'array', 'slice'):
            return self.plain(x['e'], d + 1)
        if k == 'tuple':
            return all(self.plain(y, d + 1) for y in x['f'])
        if k == 'closure':
            return not x['up']
        if k == 'adt':
            p = x['path']
            if p.startswith(('std::net', 'std::fs', 'std::io', 'std::os', 'std::sys', 'std::process', 'std::thread::Join')) or p.split('::')[0] not in ('core', 'alloc', 'std', 'rand', 'rand_core', 'getrandom', 'byteorder', 'sha1', 'base64', 'time', 'unicase', 'url'):
                return False
            return all(self.plain(y, d + 1) for y in x.get('args', ()) if isinstance(y, int))
        return False

    def fn_ret(self, c):
        """type a function item returns, when it is known"""
        f = c.get('fn')
        if f is not None and f in self.w.fns and 'locals' in self.w.fns[f]:
            return self.w.fns[f]['locals'][0]
        ta = [t for t in c.get('args') or [] if isinstance(t, int)]
        if c.get('trait', '').endswith(('convert::Into', 'convert::From')) and len(ta) == 2:
            return ta[1] if c['trait'].endswith('Into') else ta[0]
        return None

    def call_value(self, st, depth, f, args, dty=None):
        """call a function value with untupled args"""
        if isinstance(f, tuple) and f[0] == 'p':
            v = self.read(st, f[1], f[2])
            if isinstance(v, tuple) and v[0] == 'p' or isinstance(v, tuple) and v[0] == 'fn':
                return self.call_value(st, depth, v, args, dty)
            t = v[1]
            x = self.w.types[t]
            if x['k'] == 'closure':
                return self.call_closure(st, depth, x, f, v, args)
            raise Unsupported('call through pointer to %s' % (x['s'],))
        if isinstance(f, tuple) and f[0] == 'fn':
            x = self.w.types[f[1]]
            if x['k'] == 'fndef':
                if dty is None:
                    dty = self.fn_ret(x['callee'])
                return self.call(st, depth, x['callee'], list(args), dty, None)
            raise Unsupported('call of %s' % x['s'])
        if isinstance(f, tuple) and f[0] in ('st', 'sy'):
            x = self.w.types[f[1]]
            if x['k'] == 'closure':
                return self.call_closure(st, depth, x, None, f, args)
            if x['k'] == 'fndef':
                if dty is None:
                    dty = self.fn_ret(x['callee'])
                return self.call(st, depth, x['callee'], list(args), dty, None)
            if f[0] == 'sy':
                return self.models.call_opaque(self, st, depth, f, args, dty)
        raise Unsupported('call of value %s' % (str(f)[:80],))

    def call_closure(self, st, depth, x, ptr, v, args):
        fid = x['fn']
        if fid is None or fid not in self.w.fns:
            raise Unsupported('closure body')
        fn = self.w.fns[fid]
        t1 = fn['locals'][1]
        if self.w.tk(t1) in ('ref', 'ptr'):
            if ptr is None:
                c = self.alloc(st, v)
                ptr = ('p', c, (), None)
            self_arg = ('p', ptr[1], ptr[2], None)
        else:
            self_arg = v
        if fn.get('spread') is not None:
            raise Unsupported('closure spread')
        return self.exec_fn(fn, [self_arg] + list(args), st, depth + 1)

    # ------------------------------------------------------------------ joins

    def merge(self, sts):
        """join states that differ in the domain of one finite atom only"""
        if len(sts) < 2:
            return sts
        out = []
        for s in sts:
            done = False
            for i in range(len(out)):
                m = self.join(out[i], s)
                if m is not None:
                    out[i] = m
                    done = True
                    break
            if not done:
                out.append(s)
        # second round: joins may enable joins
        if len(out) < len(sts) and len(out) > 1:
            return self.merge(out)
        return out

    def join(self, a, b):
        if a.facts != b.facts or a.ev != b.ev or a.nes != b.nes or a.sub != b.sub or a.iv != b.iv:
            return None
        if a.pos.keys() != b.pos.keys():
            return None
        f = None
        if a.dom != b.dom:
            ks = [k for k in set(a.dom) | set(b.dom) if a.dom.get(k) != b.dom.get(k)]
            if len(ks) != 1:
                return None
            f = ks[0]
            full = (1 << f[2]) - 1
            ma, mb = a.dom.get(f, full), b.dom.get(f, full)
        mem = {}
        if f is None:
            if a.mem == b.mem and a.pos == b.pos:
                return a
            return None
        if ma & mb:
            # overlapping: only identical values
            if a.mem != b.mem or a.pos != b.pos:
                return None
            r = a.copy()
            m = ma | mb
            if m == full:
                r.dom.pop(f, None)
            else:
                r.dom[f] = m
            return r
        try:
            ks = set(a.mem) | set(b.mem)
            for k in ks:
                va, vb = a.mem.get(k), b.mem.get(k)
                if va is vb or va == vb:
                    mem[k] = va
                elif va is None or vb is None:
                    if k[0] == 'd':
                        mem[k] = self.jv(va if va is not None else self.sym(k[2], k[1]), vb if vb is not None else self.sym(k[2], k[1]), f, ma, mb)
                    elif k[0] == 'l':
                        continue     # dead on one side: cannot be used after the join
                    else:
                        continue
                else:
                    mem[k] = self.jv(va, vb, f, ma, mb)
            pos = {k: (a.pos[k] if a.pos[k] == b.pos[k] else self.jv(a.pos[k], b.pos[k], f, ma, mb)) for k in a.pos}
        except Unsupported:
            return None
        r = a.copy()
        r.mem = mem
        r.pos = pos
        m = ma | mb
        if m == full:
            r.dom.pop(f, None)
        else:
            r.dom[f] = m
        r.n = max(a.n, b.n)
        r.nsplit = max(a.nsplit, b.nsplit)
        return r

    def tabof(self, v, f):
        if isinstance(v, int):
            return (v,) * f[2]
        if is_L(v):
            t = one_tab(v)
            if t and t[0] == f:
                return tuple(t[1])
        return None

    def jv(self, x, y, f, ma, mb):
        if x == y:
            return x
        if is_num(x) and is_num(y):
            tx, ty = self.tabof(x, f), self.tabof(y, f)
            if tx is not None and ty is not None:
                return tab(f, tuple(tx[i] if ma >> i & 1 else ty[i] for i in range(f[2])))
            # numbers with a common symbolic part
            d = sub(x, y)
            if isinstance(d, int):
                return add(y, tab(f, tuple(d if ma >> i & 1 else 0 for i in range(f[2]))))
            raise Unsupported('join')
        if isinstance(x, tuple) and isinstance(y, tuple):
            ex, ey = self.etab(x, f), self.etab(y, f)
            if ex and ey and x[1] == y[1]:
                vs = tuple(ex[i] if ma >> i & 1 else ey[i] for i in range(f[2]))
                return ('et', x[1], f, vs)
            if x and y and x[0] == y[0]:
                k = x[0]
                if k == 'st' and x[1] == y[1] and len(x[2]) == len(y[2]):
                    return ('st', x[1], tuple(self.jv(p, q, f, ma, mb) for p, q in zip(x[2], y[2])))
                if k == 'en' and x[1] == y[1] and x[2] == y[2]:
                    return ('en', x[1], x[2], tuple(self.jv(p, q, f, ma, mb) for p, q in zip(x[3], y[3])))
                if k == 'vec' and x[1] == y[1] and len(x[2]) == len(y[2]) and all(g[0] == h[0] == '1' or g == h for g, h in zip(x[2], y[2])):
                    return ('vec', x[1], tuple(g if g == h else ('1', self.jv(g[1], h[1], f, ma, mb)) for g, h in zip(x[2], y[2])))
        raise Unsupported('join')

    def etab(self, v, f):
        if v and v[0] == 'en' and not v[3]:
            x = self.w.types[v[1]]
            if x['k'] == 'adt' and all(not y[2] for y in x['variants']):
                return (v[2],) * f[2]
        if v and v[0] == 'et' and v[2] == f:
            return v[3]
        return None

    # ------------------------------------------------------------------ loops

    def run_loop(self, fn, depth, h, body, st):
        key = (fn['path'], depth, h)

        def step(s):
            outs, exits = self.exec_region(fn, depth, [(h, s)], body, h)
            backs = [x for b, x in exits if b == h]
            ex = [(b, x) for b, x in exits if b != h]
            return backs, ex, outs
        return self.solve_loop(st, step, key)

    def solve_loop(self, st, step, key):
        """-> (outs, exits)"""
        outs = []
        exits = []
        cur = [st]
        rounds = 0
        steps = 0
        saved = None
        # exact unrolling while cheap
        while cur:
            if len(cur) == 1 and rounds > 0 and saved is not None and cur[0].nsplit == saved.nsplit:
                if rounds > 400:
                    break
            elif steps > self.unroll[0] or len(cur) > self.unroll[1]:
                break
            nxt = []
            saved = cur[0]
            for s in cur:
                b, e, o = step(s.copy())
                steps += 1 if not (len(cur) == 1 and b and b[0].nsplit == s.nsplit) else 0
                nxt.extend(b)
                exits.extend(e)
                outs.extend(o)
            cur = self.merge(nxt)
            rounds += 1
            if rounds == 1:
                snap1 = ([c.copy() for c in cur], list(exits), list(outs))
        if not cur:
            return outs, exits
        # give up unrolling: restart after the first iteration and generalise
        more = (exits[len(snap1[1]):], outs[len(snap1[2]):])
        cur, exits, outs = snap1
        exact = True
        gens = []
        for s in cur:
            if any(self.covered(g, s) for g in gens):
                continue
            self.generalised += 1
            g = self.generalise(s, step, key)
            gens.append(g)
            b, e, o = step(g[0].copy())
            exits.extend(e)
            outs.extend(o)
            exact = exact and not self.inexact(g[0])
        if not exact and not self.dry and len(more[0]) + len(more[1]) <= self.extra_exits:
            # the exact first iterations as well: what they reach is reached by the program
            exits.extend(more[0])
            outs.extend(more[1])
        return outs, exits

    def inexact(self, s):
        from .witness import over
        return any(over(v) for v in s.mem.values())

    def covered(self, g, s):
        """is state s an instance of the generalised state g (any iteration)"""
        try:
            return self.instance(g, s, None)
        except Unsupported:
            return False

    def generalise(self, s, step, key):
        """s: state at the loop head. returns (G, kappa, modes, tmpl)"""
        from .loops import Generaliser
        return Generaliser(self, s, step, key).run()

    def instance(self, g, s, k):
        from .loops import match_state
        return match_state(self, g, s, k) is None
