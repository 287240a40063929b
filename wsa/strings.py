"""Models of text operations of the standard library. Conditions on unknown text are atoms ('pred', operation, text, pattern) which the search for members evaluates."""
from .terms import *
from .state import *
from .models import *
from .models import pm, ret, unit
from .http import flat

S = 'core::str::<impl str>::'


def pattern(c, v):
    """bytes of a pattern that is a char or a text"""
    if isinstance(v, int):
        return chr(v).encode()
    n = 0
    while isinstance(v, tuple) and v and v[0] == 'p' and n < 4:
        if v[3] and v[3][0] == 'len':
            return flat(c.ip.seq_of(c.st, v)[0])
        w = c.read(v)
        if isinstance(w, tuple) and w and w[0] == 'vec':
            return flat(w[2])
        v = w
        n += 1
    if isinstance(v, int):
        return chr(v).encode()
    return None


def pred(c, kind, segs, pat):
    b = flat(segs)
    if b is not None:
        return 1 if run(kind, b, pat) else 0
    return boolf(('pred', kind, seqnorm(segs), pat))


def run(kind, b, pat):
    return {'contains': lambda: pat in b, 'starts_with': lambda: b.startswith(pat), 'ends_with': lambda: b.endswith(pat)}[kind]()


@pm(S + 'starts_with', S + 'ends_with', S + 'contains')
def m_test(c):
    pat = pattern(c, c.args[1])
    if pat is None:
        return NotImplemented
    segs, _ = c.ip.seq_of(c.st, c.args[0])
    k = c.callee['name']
    if k != 'contains' and not any(g[0] == 'o' for g in segs):
        n, m = seqlen(segs), len(pat)
        if not c.st.truth(mk_le(sub(m, n))):
            return ret(c.st, 0)
        a, b = c.ip.cut(c.st, segs, m if k == 'starts_with' else sub(n, m))
        return ret(c.st, seq_eq(c, a if k == 'starts_with' else b, bytes_seq(pat), c.ip.tu8))
    return ret(c.st, pred(c, k, segs, pat))


def part_of(c, p, off, n):
    o = p[3][1] if p[3] and p[3][0] == 'len' else 0
    return ('p', p[1], p[2], ('len', add(o, off), n))


@pm(S + 'strip_prefix', S + 'strip_suffix')
def m_strip(c):
    pat = pattern(c, c.args[1])
    if pat is None:
        return NotImplemented
    p = c.args[0]
    segs, _ = c.ip.seq_of(c.st, p)
    n, m = seqlen(segs), len(pat)
    if not c.st.truth(mk_le(sub(m, n))):
        return ret(c.st, c.none())
    front = c.callee['name'] == 'strip_prefix'
    a, b = c.ip.cut(c.st, segs, m if front else sub(n, m))
    if not c.st.truth(seq_eq(c, a if front else b, bytes_seq(pat), c.ip.tu8)):
        return ret(c.st, c.none())
    return ret(c.st, c.some(part_of(c, p, m if front else 0, sub(n, m))))


@pm(S + 'trim_start_matches', S + 'trim_end_matches', S + 'trim_left_matches', S + 'trim_right_matches', S + 'trim_matches')
def m_trimm(c):
    pat = pattern(c, c.args[1])
    if not pat:
        return NotImplemented
    p = c.args[0]
    segs, _ = c.ip.seq_of(c.st, p)
    k = c.callee['name']
    off, n, m = 0, seqlen(segs), len(pat)
    if any(g[0] == 'o' for g in segs):
        # opaque text: the same, or a shorter one
        ends = [e for e in ('starts_with', 'ends_with') if not (e == 'starts_with' and ('end' in k or 'right' in k) or e == 'ends_with' and ('start' in k or 'left' in k))]
        if not any([c.st.truth(pred(c, e, segs, pat)) for e in ends]):
            return ret(c.st, p)
        nm = ('trimmed', k, seqnorm(segs), pat)
        l = anon(('len', nm))
        for x in c.st.alts(mk_le(sub(add(l, m), n)))[0]:
            c.st.assume(x)
        return ret(c.st, ('p', c.ip.alloc(c.st, ('vec', c.ip.tu8, (('o', nm, l),))), (), ('len', 0, l)))
    for front in (True, False):
        if front and ('end' in k or 'right' in k) or not front and ('start' in k or 'left' in k):
            continue
        b = flat(segs)
        for i in range(64):
            if b is None and i > 2:
                raise Unsupported('trimming unknown text')
            if not c.st.truth(mk_le(sub(m, n))):
                break
            x, y = c.ip.cut(c.st, segs, m if front else sub(n, m))
            if not c.st.truth(seq_eq(c, x if front else y, bytes_seq(pat), c.ip.tu8)):
                break
            segs = y if front else x
            b = flat(segs)
            if front:
                off = add(off, m)
            n = sub(n, m)
    return ret(c.st, part_of(c, p, off, n))


@pm('std::net::tcp::TcpStream::try_clone')
def m_tryclone(c):
    v = c.read(c.args[0])
    f = ('f', ('try_clone', len(c.st.ev), v if v[0] != 'sy' else v[2]), 2)
    m = c.st.dom.get(f, 3)
    if m == 3:
        c.st.split_atom(f)
    if m == 1:
        return ret(c.st, c.err(c.ip.sym(c.fieldty(c.dty, 1, 0), ('try_clone', 'e'))))
    return ret(c.st, c.ok(v))
