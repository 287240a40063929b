"""Reference notions shared by the property specifications."""
from .terms import *
from .state import *


def byte(base, i):
    return elem_u8(base, i)


def fmap(b, fn):
    """apply a python function to a byte valued term over one finite atom"""
    if isinstance(b, int):
        return fn(b)
    f, vals = one_tab(b)
    return tab(f, tuple(fn(x) for x in vals))


def be(bs):
    r = 0
    for b in bs:
        r = add(mul(r, 256), b)
    return r


def lt(a, b):
    return mk_le(add(sub(a, b), 1))


def le(a, b):
    return mk_le(sub(a, b))


def eqc(a, b):
    return mk_eq(sub(a, b))


class Hdr:
    """RFC 6455 section 5.2 header read from an opaque byte sequence at an offset"""

    def __init__(self, base, off=0):
        self.b = lambda i: elem_u8(base, add(off, i))
        b0, b1 = self.b(0), self.b(1)
        self.b0, self.b1 = b0, b1
        self.l7 = fmap(b1, lambda x: x & 127)
        self.is16 = fmap(b1, lambda x: int(x & 127 == 126))
        self.is64 = fmap(b1, lambda x: int(x & 127 == 127))
        self.masked = fmap(b1, lambda x: x >> 7)
        self.ctrl = fmap(b0, lambda x: int(x & 8 != 0))
        self.fin = fmap(b0, lambda x: x >> 7)
        self.op = fmap(b0, lambda x: x & 15)
        self.top = fmap(b0, lambda x: x & 0xF0)
        self.len16 = be([self.b(i) for i in (2, 3)])
        self.len64 = be([self.b(i) for i in range(2, 10)])
        self.conds = [self.is16, self.is64, self.masked]

    def resolve(self, i16, i64, m):
        """(extended bytes, length, mask offset, header length) for a decided class"""
        ext = 2 if i16 else 8 if i64 else 0
        ln = self.len16 if i16 else self.len64 if i64 else self.l7
        mo = 2 + ext
        return ext, ln, mo, mo + (4 if m else 0)

    def invalid_conds(self, i16, i64):
        """conditions any of which makes the header invalid"""
        c = []
        _, ln, _, _ = self.resolve(i16, i64, 0)
        if i16:
            c.append(le(ln, 125))
        if i64:
            c.append(le(ln, 65535))
        return c, ln


def masked(key, start, segs):
    """the bytes of segs xored with the four key bytes, the first one with key byte start"""
    out = ()
    p = start
    kb = seqnorm(key)
    if len(kb) == 1 and kb[0][0] == 's':
        kel = lambda i: elem_u8(kb[0][1], add(kb[0][2], i))
    else:
        base = ('seqv', tuple(('1', elem_u8(('seqv', key), i)) for i in range(4)))
        kel = lambda i: elem_u8(base, i)
    for g in seqnorm(segs):
        n = seglen(g)
        if isinstance(n, int) and n <= 16:
            for i in range(n):
                b = try_index((g,), i)
                out += (('1', mk_xor((b, kel(mk_mod(add(p, i), 4))), 255)),)
        else:
            if g[0] == 's':
                b = elem_u8(g[1], add(g[2], atom(IDX)))
            elif g[0] == 'm':
                b = g[1]
            else:
                b = elem_u8(('seqv', (g,)), atom(IDX))
            out += (('m', mk_xor((b, kel(mk_mod(add(p, atom(IDX)), 4))), 255), n),)
        p = mk_mod(add(p, n), 4)
    return out


def stream_name(p):
    """the name under which the analysis logs the effects on the stream behind a pointer or value"""
    while p[0] == 'p':
        c = p[1]
        if c[0] == 'd':
            return c[1]
        raise Unsupported('stream behind %s' % (str(p)[:60],))
    if p[0] == 'sy':
        return p[2]
    raise Unsupported('stream %s' % (str(p)[:60],))


def final(ip, st, ptr):
    """expanded struct value behind a pointer at the end of a path"""
    v = ip.read(st, ptr[1], ptr[2])
    return expand(ip, v)


def expand(ip, v):
    if isinstance(v, tuple) and v and v[0] == 'sy':
        t = ip.w.types[v[1]]
        if t['k'] == 'adt' and t['adt'] == 'struct' or t['k'] in ('tuple', 'closure'):
            n = len(ip.field_types(v[1]))
            return ('st', v[1], tuple(ip.sym_field(v, i) for i in range(n)))
    return v
