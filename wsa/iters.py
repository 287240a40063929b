"""Native iterators: every std iterator is a value ('it', kind, ...); consumers run through the loop engine."""
from .terms import *
from .state import *
from .models import *
from .models import TM, PM


def to_iter(c, v):
    """IntoIterator on a value"""
    ip = c.ip
    if isinstance(v, tuple) and v:
        if v[0] == 'it':
            return v
        if v[0] == 'p':
            x = c.read(v)
            if isinstance(x, tuple) and x[0] in ('vec', 'bm'):
                off = v[3][1] if v[3] and v[3][0] == 'len' else 0
                n = ptr_len(c, v)
                return ('it', 'slice', v[1], v[2], off, add(off, n))
            if isinstance(x, tuple) and x[0] == 'p':
                return to_iter(c, x)
            if isinstance(x, tuple) and x[0] == 'it':
                return ('it', 'ref', v)
            if isinstance(x, tuple) and x[0] in ('en', 'sy') and ip.w.types[x[1]].get('path') == 'core::option::Option':
                vi = ip.variant_of(c.st, x)
                if vi == 0:
                    return ('it', 'once', None)
                if x[0] == 'sy':
                    c.write(v, ('en', x[1], 1, ip.enum_fields(c.st, x, 1)))
                return ('it', 'once', ('p', v[1], v[2] + (('v', 1), 0), None))
            if isinstance(x, tuple) and x[0] == 'sy':
                return ('it', 'opqref', v)
        if v[0] in ('vec', 'bm'):
            return ('it', 'seq', v[1], v[2], 0, seqlen(v[2]))
        if v[0] == 'st':
            x = ip.w.types[v[1]] if v[1] is not None else None
            if x and x['k'] == 'adt':
                n = x['path'].split('::')[-1]
                if n == 'Range':
                    return ('it', 'range', v[2][0], v[2][1])
                if n == 'RangeFrom':
                    return ('it', 'range', v[2][0], INF)
                if n == 'RangeInclusive':
                    return ('it', 'range', v[2][0], add(v[2][1], 1))
        if v[0] in ('en', 'sy') and v[1] is not None:
            x = ip.w.types[v[1]]
            if x['k'] == 'adt' and x['path'] == 'core::option::Option':
                vi = ip.variant_of(c.st, v)
                return ('it', 'once', ip.enum_fields(c.st, v, 1)[0] if vi == 1 else None)
            if v[0] == 'sy' and x['k'] in ('param', 'alias', 'opaque'):
                return ('it', 'opq', v[2], 0, lenof(('items', v[2])))
    return None


@tm('IntoIterator::into_iter')
def m_intoiter(c):
    f = c.callee.get('fn')
    it = to_iter(c, c.args[0])
    if it is None:
        return NotImplemented
    if it[1] == 'opq':
        # element type from the destination
        return ret(c.st, it)
    return ret(c.st, it)


@pm('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def m_iter(c):
    return ret(c.st, to_iter(c, c.args[0]))


@pm('core::option::Option::iter')
def m_optiter(c):
    return ret(c.st, to_iter(c, c.args[0]))


@pm('core::str::<impl str>::bytes')
def m_bytes(c):
    return ret(c.st, ('it', 'cloned', to_iter(c, c.args[0])))


@pm('core::slice::<impl [T]>::windows')
def m_windows(c):
    it = to_iter(c, c.args[0])
    return ret(c.st, ('it', 'windows', it[2], it[3], it[4], it[5], c.args[1]))


@pm('core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_mut', 'core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::chunks_exact_mut')
def m_chunks(c):
    it = to_iter(c, c.args[0])
    return ret(c.st, ('it', 'chunks', it[2], it[3], it[4], it[5], c.args[1], 'exact' in c.callee['name']))


@pm('core::iter::sources::once::once')
def m_once(c):
    return ret(c.st, ('it', 'once', c.args[0]))


@pm('core::iter::sources::empty::empty')
def m_empty(c):
    return ret(c.st, ('it', 'once', None))


@pm('core::iter::sources::repeat::repeat')
def m_repeat(c):
    return ret(c.st, ('it', 'repeat', c.args[0]))


def adapter(kind):
    def f(c):
        it = to_iter(c, c.args[0])
        if it is None:
            return NotImplemented
        return ret(c.st, ('it', kind, it) + tuple(c.args[1:]))
    return f


def closure_cell(c, f):
    """keeps a closure in memory so that it can mutate its captures"""
    return ('p', c.ip.alloc(c.st, f), (), None)


def fadapter(kind):
    def f(c):
        it = to_iter(c, c.args[0])
        if it is None:
            return NotImplemented
        return ret(c.st, ('it', kind, it, closure_cell(c, c.args[1])))
    return f


for _n in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'map_while', 'inspect', 'flat_map'):
    TM['Iterator::' + _n] = fadapter(_n)
for _n in ('cloned', 'copied'):
    TM['Iterator::' + _n] = adapter('cloned')
TM['Iterator::take'] = adapter('take')
TM['Iterator::skip'] = adapter('skip')
TM['Iterator::step_by'] = adapter('step_by')
TM['Iterator::peekable'] = lambda c: ret(c.st, ('it', 'peek', to_iter(c, c.args[0]), 0, None))
TM['Iterator::fuse'] = lambda c: ret(c.st, to_iter(c, c.args[0]))
TM['Iterator::enumerate'] = lambda c: ret(c.st, ('it', 'enum', to_iter(c, c.args[0]), 0))
TM['Iterator::rev'] = adapter('rev')


@tm('Iterator::cycle')
def m_cycle(c):
    it = to_iter(c, c.args[0])
    # indexable iterators: position counted modulo the length
    return ret(c.st, ('it', 'cycle', it, 0))


@tm('Iterator::zip')
def m_zip(c):
    a, b = to_iter(c, c.args[0]), to_iter(c, c.args[1])
    if a is None or b is None:
        return NotImplemented
    return ret(c.st, ('it', 'zip', a, b))


@tm('Iterator::chain')
def m_chain(c):
    a, b = to_iter(c, c.args[0]), to_iter(c, c.args[1])
    if a is None or b is None:
        return NotImplemented
    return ret(c.st, ('it', 'chain', a, b, 0))


def item_type(c):
    """item type of the call's iterator if the destination tells"""
    return None


class Ctx(Call):
    pass


def at(c, s):
    return Call(c.ip, s, c.depth, c.callee, c.args, c.dty, c.line, c.path)


def inext(c, s, it, ity=None):
    """-> [('ret', state, new iterator, item or None)] or other outcomes ('panic'/'unk', state, info)"""
    ip = c.ip
    k = it[1]
    if k == 'slice':
        pos, end = it[4], it[5]
        if not s.truth(mk_le(add(sub(pos, end), 1))):
            return [('ret', s, it, None)]
        return [('ret', s, it[:4] + (add(pos, 1), end), ('p', it[2], it[3] + (('i', pos),), None))]
    if k == 'seq':
        pos, end = it[4], it[5]
        if not s.truth(mk_le(add(sub(pos, end), 1))):
            return [('ret', s, it, None)]
        v = ip.seq_at(s, it[3], pos, it[2])
        return [('ret', s, it[:4] + (add(pos, 1), end), v)]
    if k == 'range':
        if not s.truth(mk_le(add(sub(it[2], it[3]), 1))):
            return [('ret', s, it, None)]
        return [('ret', s, ('it', 'range', add(it[2], 1), it[3]), it[2])]
    if k == 'once':
        return [('ret', s, ('it', 'once', None), it[2])]
    if k == 'repeat':
        return [('ret', s, it, it[2])]
    if k == 'ref':
        p = it[2]
        inner = ip.read(s, p[1], p[2])
        out = []
        for o in inext(c, s, inner, ity):
            if o[0] == 'ret':
                ip.write(o[1], p[1], p[2], o[2])
                out.append(('ret', o[1], it, o[3]))
            else:
                out.append(o)
        return out
    if k == 'windows':
        pos, end, n = it[4], it[5], it[6]
        if not s.truth(mk_le(sub(add(pos, n), end))):
            return [('ret', s, it, None)]
        return [('ret', s, it[:4] + (add(pos, 1), end, n), ('p', it[2], it[3], ('len', pos, n)))]
    if k == 'chunks':
        pos, end, n, ex = it[4:8]
        if s.truth(mk_le(sub(add(pos, n), end))):
            return [('ret', s, it[:4] + (add(pos, n),) + it[5:], ('p', it[2], it[3], ('len', pos, n)))]
        if ex or s.truth(mk_eq(sub(end, pos))):
            return [('ret', s, it, None)]
        return [('ret', s, it[:4] + (end,) + it[5:], ('p', it[2], it[3], ('len', pos, sub(end, pos))))]
    if k == 'opq':
        if not s.truth(mk_le(add(sub(it[3], it[4]), 1))):
            return [('ret', s, it, None)]
        t = ity if ity is not None else c.ip.tu8
        return [('ret', s, ('it', 'opq', it[2], add(it[3], 1), it[4]), ip.sym(t, ('el', ('items', it[2]), it[3])))]
    if k == 'cloned':
        out = []
        for o in inext(c, s, it[2], None):
            if o[0] == 'ret':
                v = o[3]
                if v is not None:
                    v = ip.read(o[1], v[1], v[2])
                out.append(('ret', o[1], ('it', 'cloned', o[2]), v))
            else:
                out.append(o)
        return out
    if k == 'enum':
        out = []
        for o in inext(c, s, it[2], None):
            if o[0] == 'ret':
                out.append(('ret', o[1], ('it', 'enum', o[2], add(it[3], 1) if o[3] is not None else it[3]),
                            None if o[3] is None else ('st', None, (it[3], o[3]))))
            else:
                out.append(o)
        return out
    if k == 'zip':
        out = []
        for o in inext(c, s, it[2], None):
            if o[0] != 'ret':
                out.append(o)
                continue
            if o[3] is None:
                out.append(('ret', o[1], ('it', 'zip', o[2], it[3]), None))
                continue
            for q in inext(c, o[1], it[3], None):
                if q[0] != 'ret':
                    out.append(q)
                else:
                    out.append(('ret', q[1], ('it', 'zip', o[2], q[2]), None if q[3] is None else ('st', None, (o[3], q[3]))))
        return out
    if k == 'chain':
        out = []
        if it[4] == 0:
            for o in inext(c, s, it[2], None):
                if o[0] != 'ret':
                    out.append(o)
                elif o[3] is not None:
                    out.append(('ret', o[1], ('it', 'chain', o[2], it[3], 0), o[3]))
                else:
                    for q in inext(c, o[1], it[3], None):
                        if q[0] != 'ret':
                            out.append(q)
                        else:
                            out.append(('ret', q[1], ('it', 'chain', o[2], q[2], 1), q[3]))
            return out
        for q in inext(c, s, it[3], None):
            out.append(q if q[0] != 'ret' else ('ret', q[1], ('it', 'chain', it[2], q[2], 1), q[3]))
        return out
    if k == 'take':
        if s.truth(mk_eq(it[3])):
            return [('ret', s, it, None)]
        out = []
        for o in inext(c, s, it[2], None):
            out.append(o if o[0] != 'ret' else ('ret', o[1], ('it', 'take', o[2], sub(it[3], 1)), o[3]))
        return out
    if k == 'skip':
        inner = it[2]
        n = it[3]
        if inner[1] in ('slice', 'seq') and n != 0:
            pos, end = inner[4], inner[5]
            if s.truth(mk_le(sub(add(pos, n), end))):
                inner = inner[:4] + (add(pos, n), end)
            else:
                inner = inner[:4] + (end, end)
            n = 0
        cn = s.concrete(n)
        if cn is None or cn > 64:
            raise Unsupported('skip')
        states = [(s, inner)]
        out = []
        for _ in range(cn):
            nx = []
            for s2, i2 in states:
                for o in inext(c, s2, i2, None):
                    if o[0] != 'ret':
                        out.append(o)
                    elif o[3] is None:
                        out.append(('ret', o[1], ('it', 'skip', o[2], 0), None))
                    else:
                        nx.append((o[1], o[2]))
            states = nx
        for s2, i2 in states:
            for o in inext(c, s2, i2, None):
                out.append(o if o[0] != 'ret' else ('ret', o[1], ('it', 'skip', o[2], 0), o[3]))
        return out
    if k == 'cycle':
        inner = it[2]
        if inner[1] in ('slice', 'seq', 'cloned'):
            base = inner[2] if inner[1] == 'cloned' else inner
            n = s.concrete(sub(base[5], base[4]))
            if n is None or n == 0 or n > 64:
                raise Unsupported('cycle over unknown length')
            idx = add(base[4], mk_mod(it[3], n))
            if base[1] == 'slice':
                v = ('p', base[2], base[3] + (('i', idx),), None)
                if inner[1] == 'cloned':
                    v = ip.read(s, v[1], v[2])
            else:
                v = ip.seq_at(s, base[3], idx, base[2])
            return [('ret', s, ('it', 'cycle', inner, add(it[3], 1)), v)]
        raise Unsupported('cycle')
    if k == 'map':
        out = []
        for o in inext(c, s, it[2], None):
            if o[0] != 'ret':
                out.append(o)
            elif o[3] is None:
                out.append(('ret', o[1], ('it', 'map', o[2], it[3]), None))
            else:
                for q in callf(c, o[1], it[3], [o[3]]):
                    if q[0] != 'ret':
                        out.append(q)
                    else:
                        out.append(('ret', q[1], ('it', 'map', o[2], it[3]), q[2]))
        return out
    if k in ('filter', 'filter_map', 'take_while', 'map_while', 'skip_while', 'inspect'):
        out = []
        for o in inext(c, s, it[2], None):
            if o[0] != 'ret':
                out.append(o)
                continue
            if o[3] is None:
                out.append(('ret', o[1], ('it', k, o[2]) + it[3:], None))
                continue
            if k in ('filter', 'take_while', 'skip_while', 'inspect'):
                a = ('p', ip.alloc(o[1], o[3]), (), None)
            else:
                a = o[3]
            for q in callf(c, o[1], it[3], [a]):
                if q[0] != 'ret':
                    out.append(q)
                    continue
                if k == 'inspect':
                    out.append(('ret', q[1], ('it', k, o[2]) + it[3:], o[3]))
                    continue

                def dec(s2, q=q, o=o):
                    r = q[2]
                    if k in ('filter', 'take_while', 'skip_while'):
                        t = s2.truth(r)
                        if k == 'take_while':
                            return [('ret', s2, ('it', k, o[2]) + it[3:], o[3] if t else None)]
                        if t == (k == 'filter'):
                            if k == 'skip_while':
                                return [('ret', s2, o[2], o[3])]
                            return [('ret', s2, ('it', k, o[2]) + it[3:], o[3])]
                        return [('more', s2, ('it', k, o[2]) + it[3:], None)]
                    vi = ip.variant_of(s2, r)
                    if vi == 1:
                        return [('ret', s2, ('it', k, o[2]) + it[3:], ip.enum_fields(s2, r, 1)[0])]
                    if k == 'map_while':
                        return [('ret', s2, ('it', k, o[2]) + it[3:], None)]
                    return [('more', s2, ('it', k, o[2]) + it[3:], None)]
                for x in runsplit(q[1], dec):
                    if x[0] == 'more':
                        out.append(('skip', x[1], x[2]))
                    else:
                        out.append(x)
        return out
    if k == 'peek':
        if it[3]:
            return [('ret', s, ('it', 'peek', it[2], 0, None), it[4])]
        out = []
        for o in inext(c, s, it[2], None):
            out.append(o if o[0] != 'ret' else ('ret', o[1], ('it', 'peek', o[2], 0, None), o[3]))
        return out
    if k == 'rev':
        return iback(c, s, it)
    if k == 'texts':
        if not it[2]:
            return [('ret', s, it, None)]
        return [('ret', s, ('it', 'texts', it[2][1:]), it[2][0])]
    if k == 'strsplit':
        return split_next(c, s, it)
    raise Unsupported('iterator ' + k)


def iback(c, s, it):
    inner = it[2]
    if inner[1] in ('slice', 'seq'):
        pos, end = inner[4], inner[5]
        if not s.truth(mk_le(add(sub(pos, end), 1))):
            return [('ret', s, it, None)]
        e = sub(end, 1)
        v = ('p', inner[2], inner[3] + (('i', e),), None) if inner[1] == 'slice' else c.ip.seq_at(s, inner[3], e, inner[2])
        return [('ret', s, ('it', 'rev', inner[:5] + (e,)), v)]
    if inner[1] == 'range':
        if not s.truth(mk_le(add(sub(inner[2], inner[3]), 1))):
            return [('ret', s, it, None)]
        e = sub(inner[3], 1)
        return [('ret', s, ('it', 'rev', ('it', 'range', inner[2], e)), e)]
    if inner[1] == 'cloned':
        out = []
        for o in iback(c, s, ('it', 'rev', inner[2])):
            v = o[3]
            if v is not None:
                v = c.ip.read(o[1], v[1], v[2])
            out.append(('ret', o[1], ('it', 'rev', ('it', 'cloned', o[2][2])), v))
        return out
    if inner[1] == 'texts':
        if not inner[2]:
            return [('ret', s, it, None)]
        return [('ret', s, ('it', 'rev', ('it', 'texts', inner[2][:-1])), inner[2][-1])]
    if inner[1] == 'windows':
        pos, end, n = inner[4], inner[5], inner[6]
        if not s.truth(mk_le(sub(add(pos, n), end))):
            return [('ret', s, it, None)]
        return [('ret', s, ('it', 'rev', inner[:5] + (sub(end, 1), n)), ('p', inner[2], inner[3], ('len', sub(end, n), n)))]
    raise Unsupported('rev of ' + inner[1])


def split_next(c, s, it):
    """pieces of a text split at a pattern.  A constant text is split exactly; otherwise pieces are opaque."""
    _, _, nm, p, pat, n, pos = it
    segs = seqnorm(s.nf(c.ip.seq_of(s, p)[0]))
    if all(g[0] == 'k' for g in segs) and (isinstance(pat, int) or pat and pat[0] == 'str' and all(g[0] == 'k' for g in pat[1])):
        b = b''.join(g[1] for g in segs)
        d = bytes([pat]) if isinstance(pat, int) else b''.join(g[1] for g in pat[1])
        cn = s.concrete(n) if n is not None else None
        pieces = b.split(d) if n is None else (b.split(d, cn - 1) if cn else [])
        if pos >= len(pieces):
            return [('ret', s, it, None)]
        return [('ret', s, it[:6] + (pos + 1,), c.ip.const_seq(bytes_seq(pieces[pos])))]
    if isinstance(pat, int) and nm in ('splitn', 'split') and is_text(segs, pat):
        # text of known structure: tokens without the separator and constant pieces
        pieces = [[]]
        cn = s.concrete(n) if n is not None else None
        if cn == 0:
            return [('ret', s, it, None)]
        for g in segs:
            if g[0] == 'k':
                for x in g[1]:
                    if x == pat and (cn is None or len(pieces) < cn):
                        pieces.append([])
                    else:
                        pieces[-1].append(('k', bytes([x])))
            else:
                pieces[-1].append(g)
        if pos >= len(pieces):
            return [('ret', s, it, None)]
        q = seqnorm(tuple(pieces[pos]))
        return [('ret', s, it[:6] + (pos + 1,), ('p', ('c', ('vec', c.ip.tu8, q)), (), ('len', 0, seqlen(q))))]
    name = ('piece', nm, segs, pat, n)
    cnt = ('pieces', nm, segs, pat, n)
    lo = 0 if n is not None or nm == 'split_whitespace' else 1
    ncount = anon(('len', cnt), lo, MAXLEN)
    if n is not None:
        cn = s.concrete(n)
        if cn is not None:
            ncount = anon(('len', cnt), min(1, cn), cn)
            if cn == min(1, cn):
                ncount = cn
    if not s.truth(mk_le(add(sub(pos, ncount), 1))):
        return [('ret', s, it, None)]
    if n is not None and s.concrete(n) == 1:
        return [('ret', s, it[:6] + (add(pos, 1),), p)]
    x = ('el', name, pos)
    cell = ('c', ('vec', c.ip.tu8, (('s', x, 0, lenof(x)),)))
    return [('ret', s, it[:6] + (add(pos, 1),), ('p', cell, (), ('len', 0, lenof(x))))]


def is_text(segs, sep):
    for g in segs:
        if g[0] == 'k':
            continue
        if g[0] == 's' and isinstance(g[1], tuple) and g[1] and g[1][0] == 'token' and sep in g[1][1]:
            continue
        return False
    return True


def callf(c, s, fp, args):
    return c.ip.call_value(s, c.depth, fp, args, None)


def inext_full(c, s, it, ity=None):
    """inext, but a filter that drops an element keeps going (through the loop engine when needed)"""
    out = []
    todo = [(s, it, 0)]
    while todo:
        s1, i1, n = todo.pop()

        def go(s2, i1=i1):
            return inext(c, s2, i1, ity)
        for o in runsplit(s1, go):
            if o[0] == 'skip':
                if n > 40:
                    raise Unsupported('filter skipping forever')
                todo.append((o[1], o[2], n + 1))
            else:
                out.append(o)
    return out


def opt_item_ty(c):
    return c.ip.field_types(c.dty, 1)[0]


@tm('Iterator::next', 'DoubleEndedIterator::next_back')
def m_next(c):
    p = c.args[0]
    v = c.read(p)
    while isinstance(v, tuple) and v[0] == 'p':
        p = v
        v = c.read(p)
    if isinstance(v, tuple) and v[0] == 'st' and v[1] is not None:
        w = to_iter(c, v)
        if w is None:
            return NotImplemented
        c.write(p, w)
        v = w
    if isinstance(v, tuple) and v[0] == 'sy' and c.callee['kind'] == 'unresolved':
        v = ('it', 'opq', v[2], 0, lenof(('items', v[2])))
    if not (isinstance(v, tuple) and v[0] == 'it'):
        return NotImplemented
    ity = opt_item_ty(c)
    if c.callee['name'] == 'next_back':
        res = [(o[0], o[1], o[2][2], o[3]) for o in iback(c, c.st, ('it', 'rev', v))]
    elif v[1] in ('filter', 'filter_map', 'skip_while'):
        res = inext_full(c, c.st, v, ity)
    else:
        res = inext(c, c.st, v, ity)
        fin = []
        for o in res:
            if o[0] == 'skip':
                fin.extend(inext_full(c, o[1], o[2], ity))
            else:
                fin.append(o)
        res = fin
    out = []
    for o in res:
        if o[0] != 'ret':
            out.append(o)
            continue
        c.ip.write(o[1], p[1], p[2], o[2])
        if o[3] is None:
            out.append(('ret', o[1], c.none()))
        else:
            x = o[3]
            if isinstance(x, tuple) and x[0] == 'st' and x[1] is None:
                x = ('st', ity, x[2])
            out.append(('ret', o[1], c.some(x)))
    return out


@pm('core::iter::adapters::peekable::Peekable::peek')
def m_peek(c):
    p = c.args[0]
    v = c.read(p)
    if v[3]:
        x = v[4]
    else:
        res = inext_full(c, c.st, v[2])
        out = []
        for o in res:
            if o[0] != 'ret':
                out.append(o)
                continue
            c.ip.write(o[1], p[1], p[2], ('it', 'peek', o[2], 1, o[3]))
            out.append(('ret', o[1], c.none() if o[3] is None else c.some(('p', c.ip.alloc(o[1], o[3]), (), None))))
        return out
    return ret(c.st, c.none() if x is None else c.some(('p', c.ip.alloc(c.st, x), (), None)))


# ---- consumers

def consume(c, it, acc, body, done, ity=None, keep=False):
    """runs body(call, state, acc, item) -> [('go'|'stop', state, acc-or-result)] over every item.
    done(state, acc) -> result value.  Loops over unknown lengths are generalised."""
    ip = c.ip
    uid = c.st.fresh()
    CI, CA = ('n', uid, 'it'), ('n', uid, 'acc')
    c.st.mem[CI] = it
    c.st.mem[CA] = acc

    def step(s):
        backs, exits, outs = [], [], []

        def go(s2):
            r = []
            i2 = s2.mem[CI]
            for o in inext(c, s2, i2, ity):
                if o[0] == 'skip':
                    o[1].mem[CI] = o[2]
                    r.append(('back', o[1], None))
                elif o[0] != 'ret':
                    r.append(o)
                elif o[3] is None:
                    o[1].mem[CI] = o[2]
                    r.append(('exit', o[1], None))
                else:
                    o[1].mem[CI] = o[2]
                    x = o[3]
                    if isinstance(x, tuple) and x[0] == 'st' and x[1] is None and ity is not None:
                        x = ('st', ity, x[2])

                    def inner(s3, x=x):
                        q = []
                        for b in body(at(c, s3), s3, s3.mem[CA], x):
                            if b[0] == 'go':
                                b[1].mem[CA] = b[2]
                                q.append(('back', b[1], None))
                            elif b[0] == 'stop':
                                b[1].mem[CA] = b[2]
                                q.append(('stop', b[1], None))
                            else:
                                q.append(b)
                        return q
                    r.extend(runsplit(o[1], inner))
            return r
        for o in runsplit(s, go):
            if o[0] == 'back':
                backs.append(o[1])
            elif o[0] in ('exit', 'stop'):
                exits.append((o[0], o[1]))
            else:
                outs.append(o)
        return backs, exits, outs
    outs, exits = ip.solve_loop(c.st, step, ('consume', uid, c.callee['name']))
    res = list(outs)
    groups = {'exit': [], 'stop': []}
    for k, s in exits:
        groups[k].append(s)
    for k, l in groups.items():
        for s in (l if keep and k == 'stop' else ip.merge(l)):
            a = s.mem.pop(CA)
            i = s.mem.pop(CI)
            if k == 'exit':
                res.append(('ret', s, done(s, a), i))
            else:
                res.append(('ret', s, a, i))
    return res


def strip4(outs):
    return [o[:3] for o in outs]


def self_iter(c):
    v = c.args[0]
    if isinstance(v, tuple) and v[0] == 'p' and c.ip.w.types[c.callee['args'][0]]['k'] != 'ref' and False:
        return None
    if isinstance(v, tuple) and v[0] == 'p':
        x = c.read(v)
        if isinstance(x, tuple) and x[0] == 'it':
            return ('it', 'ref', v)
    return to_iter(c, v)


@tm('Iterator::collect', 'FromIterator::from_iter')
def m_collect(c):
    it = self_iter(c)
    if it is None:
        return NotImplemented
    x = c.ip.w.types[c.dty]
    if x['k'] == 'adt' and x['path'] == 'core::result::Result':
        vt = c.ip.field_types(c.dty, 0)[0]
        y = c.ip.w.types[vt]
        if y.get('path') != 'alloc::vec::Vec':
            return NotImplemented

        def body(c2, s, acc, item):
            vi = c2.ip.variant_of(s, item)
            f = c2.ip.enum_fields(s, item, vi)[0]
            if vi == 0:
                return [('go', s, ('vec', y['args'][0], seqnorm(acc[2] + (('1', f),))))]
            return [('stop', s, c.err(f))]
        return strip4(consume(c, it, ('vec', y['args'][0], ()), body, lambda s, a: c.ok(a)))
    if x['k'] == 'adt' and x['path'] in ('alloc::vec::Vec', 'alloc::string::String'):
        e = x['args'][0] if x['path'] == 'alloc::vec::Vec' else c.ip.tu8
        # whole sequences
        if it[1] == 'cloned' and it[2][1] == 'slice' and c.ip.w.types[e]['k'] != 'param':
            i = it[2]
            segs = c.ip.seq_of(c.st, ('p', i[2], i[3], ('len', i[4], sub(i[5], i[4]))))[0]
            return ret(c.st, ('vec', e, segs))
        if it[1] == 'seq' and x['path'] == 'alloc::vec::Vec':
            return ret(c.st, ('vec', e, c.ip.subseq(c.st, it[3], it[4], sub(it[5], it[4]))))

        def body(c2, s, acc, item):
            if x['path'] == 'alloc::string::String' and not is_num(item):
                return [('go', s, ('vec', e, seqnorm(acc[2] + seq_val(c2, item)[0])))]
            g = ('1', item)
            if isinstance(item, int) and e == c.ip.tu8:
                g = ('k', bytes([item]))
            return [('go', s, ('vec', e, seqnorm(acc[2] + (g,))))]
        return strip4(consume(c, it, ('vec', e, ()), body, lambda s, a: a, e))
    return NotImplemented


@tm('Extend::extend')
def m_extend_iter(c):
    p = c.args[0]
    v = c.read(p)
    if not (isinstance(v, tuple) and v[0] in ('vec', 'bm')):
        return NotImplemented
    it = to_iter(c, c.args[1])
    if it is None:
        return NotImplemented
    if it[1] == 'seq':
        c.write(p, c.ip.with_segs(v, seqnorm(v[2] + c.ip.subseq(c.st, it[3], it[4], sub(it[5], it[4])))))
        return ret(c.st, unit(c))
    src = it[2] if it[1] == 'cloned' else it
    if src[1] == 'slice' and (it[1] == 'cloned' or v[1] == c.ip.tu8):
        segs = c.ip.seq_of(c.st, ('p', src[2], src[3], ('len', src[4], sub(src[5], src[4]))))[0]
        c.write(p, c.ip.with_segs(v, seqnorm(v[2] + segs)))
        return ret(c.st, unit(c))

    def body(c2, s, acc, item):
        if isinstance(item, tuple) and item[0] == 'p' and v[1] == c.ip.tu8:
            item = c2.read(item)
        g = ('1', item)
        if isinstance(item, int) and v[1] == c.ip.tu8:
            g = ('k', bytes([item]))
        cur = c2.ip.read(s, p[1], p[2])
        c2.ip.write(s, p[1], p[2], c2.ip.with_segs(cur, seqnorm(cur[2] + (g,))))
        return [('go', s, acc)]
    return strip4(consume(c, it, 0, body, lambda s, a: unit(c), v[1] if v[1] != c.ip.tu8 else None))


def numval(c, s, v):
    while isinstance(v, tuple) and v[0] == 'p':
        v = c.ip.read(s, v[1], v[2])
    return v


@tm('Iterator::sum')
def m_sum(c):
    it = self_iter(c)
    if it is None:
        return NotImplemented
    lo, hi = c.ip.int_range(c.dty)
    mem = [True]

    def body(c2, s, acc, item):
        x = numval(c2, s, item)
        r = add(acc, x)
        if mem_size(x) and mem[0]:
            # sizes of distinct collections: together they fit the address space
            if hi >= MEMSUM:
                s.assume(('le', sub(r, MEMSUM)))
                return [('go', s, r)]
        mem[0] = False
        cond = mk_le(sub(r, hi))
        q = s.prove(cond)
        if q is True:
            return [('go', s, r)]
        s2 = s.copy()
        out = []
        al = s.alts(cond)
        if all(s2.assume(x) for x in al[1]) and not s2.infeasible():
            out.append(('panic', s2, (c.path, 'sum overflow', c.line)))
        if q is None and all(s.assume(x) for x in al[0]):
            out.append(('go', s, r))
        return out
    def done(s, a):
        if mem[0] and hi >= MEMSUM and not isinstance(a, int):
            s.assume(('le', sub(a, MEMSUM)))
        return a
    return strip4(consume(c, it, 0, body, done))


def mem_size(x):
    if isinstance(x, int):
        return 0 <= x < 256
    return is_L(x) and 0 <= x[1] < 256 and all(a[0] == 'a' and isinstance(a[1], tuple) and a[1][0] == 'len' and 0 < k < 256 for a, k in x[2])


@tm('Iterator::count')
def m_count(c):
    it = self_iter(c)
    if it is None:
        return NotImplemented
    if it[1] in ('slice', 'seq'):
        return ret(c.st, sub(it[5], it[4]))
    return strip4(consume(c, it, 0, lambda c2, s, a, x: [('go', s, add(a, 1))], lambda s, a: a))


@tm('ExactSizeIterator::len')
def m_exlen(c):
    v = c.read(c.args[0])
    if v[0] == 'it' and v[1] in ('slice', 'seq'):
        return ret(c.st, sub(v[5], v[4]))
    return NotImplemented


def pred(stop_on, result_stop, result_end):
    def f(c):
        it = self_iter(c)
        if it is None:
            return NotImplemented
        fp = closure_cell(c, c.args[1])

        def body(c2, s, acc, item):
            out = []
            for q in callf(c2, s, fp, [item]):
                if q[0] != 'ret':
                    out.append(q)
                    continue

                def dec(s2, q=q):
                    if s2.truth(q[2]) == stop_on:
                        return [('stop', s2, result_stop)]
                    return [('go', s2, acc)]
                out.extend(runsplit(q[1], dec))
            return out
        res = consume(c, it, 0, body, lambda s, a: result_end)
        return put_back(c, it, res)
    return f


def put_back(c, it, res):
    out = []
    for o in res:
        if o[0] == 'ret':
            out.append(('ret', o[1], o[2]))
        else:
            out.append(o)
    return out


TM['Iterator::any'] = pred(True, 1, 0)
TM['Iterator::all'] = pred(False, 0, 1)


def spots(c, s, it):
    """[(index of the element, condition numbers that must be <= 0 for it to be there, element)] for elements that start where constant bytes start"""
    while it[1] == 'ref':
        it = c.ip.read(s, it[2][1], it[2][2])
    if it[1] == 'enum':
        return [(add(it[3], i), q, ('st', None, (add(it[3], i), x))) for i, q, x in spots(c, s, it[2])]
    if it[1] not in ('windows', 'slice'):
        return []
    pos, end = it[4], it[5]
    n = it[6] if it[1] == 'windows' else 1
    try:
        v = c.ip.read(s, it[2], it[3])
        segs = v[2] if isinstance(v, tuple) and v[0] in ('vec', 'bm') else ()
    except Unsupported:
        return []
    out, off = [], 0
    for g in segs:
        if g[0] == 'k':
            x = ('p', it[2], it[3], ('len', off, n)) if it[1] == 'windows' else ('p', it[2], it[3] + (('i', off),), None)
            out.append((sub(off, pos), [sub(pos, off), sub(add(off, n), end)], x))
        off = add(off, seglen(g))
    return out


def searched(c, it, fp, outs, index, unhit, byref=False):
    """outcomes of a search: at elements passed over the predicate is false.  index(result): position of the hit or None; unhit(state, closure result)"""
    cs = spots(c, c.st, it)
    if not cs:
        return outs
    for i, conds, x in cs:
        res = []
        for o in outs:
            if o[0] != 'ret':
                res.append(o)
                continue
            hit = index(o)

            def f(s, o=o):
                for q in conds:
                    if not s.truth(mk_le(q)):
                        return [('ret', s) + o[2:]]
                if hit is not None and not s.truth(mk_le(add(sub(i, hit), 1))):
                    return [('ret', s) + o[2:]]
                r = []
                for q in callf(c, s, fp, [('p', c.ip.alloc(s, x), (), None) if byref else x]):
                    if q[0] == 'ret':
                        r.extend(runsplit(q[1], lambda s2, q=q: [('ret', s2) + o[2:]] if unhit(s2, q[2]) else []))
                return r
            res.extend(runsplit(o[1], f))
        outs = res
    return outs


@tm('Iterator::position', 'Iterator::rposition')
def m_position(c):
    it = self_iter(c)
    if it is None:
        return NotImplemented
    fp = closure_cell(c, c.args[1])
    rev = c.callee['name'] == 'rposition'
    acc0 = 0
    if rev:
        i = it
        while i[1] == 'ref':
            i = c.ip.read(c.st, i[2][1], i[2][2])
        while i[1] == 'cloned':
            i = i[2]
        if i[1] not in ('windows', 'slice', 'seq'):
            return NotImplemented
        acc0 = sub(i[5], i[4])
        if i[1] == 'windows':
            acc0 = add(sub(acc0, i[6]), 1) if c.st.truth(mk_le(sub(i[6], acc0))) else 0
        while it[1] == 'ref':
            it = c.ip.read(c.st, it[2][1], it[2][2])
    first, n0 = it, c.ip.generalised

    def body(c2, s, acc, item):
        out = []
        for q in callf(c2, s, fp, [item]):
            if q[0] != 'ret':
                out.append(q)
                continue

            def dec(s2, q=q):
                if s2.truth(q[2]):
                    return [('stop', s2, c.some(sub(acc, 1) if rev else acc))]
                return [('go', s2, add(acc, -1 if rev else 1))]
            out.extend(runsplit(q[1], dec))
        return out
    st0 = c.st.copy()
    outs = consume(c, ('it', 'rev', it) if rev else it, acc0, body, lambda s, a: c.none(), keep=True)
    if not rev:
        outs = searched(at(c, st0), first, fp, outs, lambda o: o[2][3][0] if o[2][2] == 1 else None, lambda s, v: not s.truth(v))
        if spots(at(c, st0), st0, first):
            c.ip.generalised = n0
    return strip4(outs)


@tm('Iterator::find', 'Iterator::find_map')
def m_find(c):
    it = self_iter(c)
    if it is None:
        return NotImplemented
    fp = closure_cell(c, c.args[1])
    fm = c.callee['name'] == 'find_map'

    def body(c2, s, acc, item):
        out = []
        a = item if fm else ('p', c2.ip.alloc(s, item), (), None)
        for q in callf(c2, s, fp, [a]):
            if q[0] != 'ret':
                out.append(q)
                continue

            def dec(s2, q=q):
                if fm:
                    vi = c2.ip.variant_of(s2, q[2])
                    if vi == 1:
                        return [('stop', s2, c.some(c2.ip.enum_fields(s2, q[2], 1)[0]))]
                    return [('go', s2, acc)]
                if s2.truth(q[2]):
                    return [('stop', s2, c.some(item))]
                return [('go', s2, acc)]
            out.extend(runsplit(q[1], dec))
        return out
    st0 = c.st.copy()
    n0 = c.ip.generalised
    outs = consume(c, it, 0, body, lambda s, a: c.none(), keep=True)
    if not fm and it[1] == 'enum':
        # the index of the hit is part of the item found
        outs = searched(at(c, st0), it, fp, outs, lambda o: o[2][3][0][2][0] if o[2][2] == 1 else None, lambda s, v: not s.truth(v), True)
        if spots(at(c, st0), st0, it):
            c.ip.generalised = n0
    return strip4(outs)


@tm('Iterator::fold')
def m_fold(c):
    it = self_iter(c)
    if it is None:
        return NotImplemented
    fp = closure_cell(c, c.args[2])

    def body(c2, s, acc, item):
        out = []
        for q in callf(c2, s, fp, [acc, item]):
            out.append(q if q[0] != 'ret' else ('go', q[1], q[2]))
        return out
    return strip4(consume(c, it, c.args[1], body, lambda s, a: a))


@tm('Iterator::for_each')
def m_foreach(c):
    it = self_iter(c)
    if it is None:
        return NotImplemented
    fp = closure_cell(c, c.args[1])

    def body(c2, s, acc, item):
        out = []
        for q in callf(c2, s, fp, [item]):
            out.append(q if q[0] != 'ret' else ('go', q[1], acc))
        return out
    return strip4(consume(c, it, 0, body, lambda s, a: unit(c)))


@tm('Iterator::try_for_each', 'Iterator::try_fold')
def m_tryfold(c):
    v = c.args[0]
    it = self_iter(c)
    if it is None:
        return NotImplemented
    isfold = c.callee['name'] == 'try_fold'
    fp = closure_cell(c, c.args[2] if isfold else c.args[1])
    init = c.args[1] if isfold else ('st', None, ())
    okv = 0
    x = c.ip.w.types[c.dty]
    if x.get('path') not in ('core::result::Result', 'core::option::Option', 'core::ops::control_flow::ControlFlow'):
        return NotImplemented
    good = 1 if x['path'] == 'core::option::Option' else 0

    def body(c2, s, acc, item):
        out = []
        for q in callf(c2, s, fp, [acc, item] if isfold else [item]):
            if q[0] != 'ret':
                out.append(q)
                continue

            def dec(s2, q=q):
                vi = c2.ip.variant_of(s2, q[2])
                if vi == good:
                    return [('go', s2, c2.ip.enum_fields(s2, q[2], vi)[0])]
                return [('stop', s2, ('en', c.dty, vi, c2.ip.enum_fields(s2, q[2], vi)))]
            out.extend(runsplit(q[1], dec))
        return out
    return strip4(consume(c, it, init, body, lambda s, a: ('en', c.dty, good, (a,))))


@tm('Iterator::last')
def m_last(c):
    it = self_iter(c)
    if it is None:
        return NotImplemented
    if it[1] in ('slice', 'seq'):
        n = sub(it[5], it[4])
        if c.st.truth(mk_eq(n)):
            return ret(c.st, c.none())
        e = sub(it[5], 1)
        return ret(c.st, c.some(('p', it[2], it[3] + (('i', e),), None) if it[1] == 'slice' else c.ip.seq_at(c.st, it[3], e, it[2])))
    return NotImplemented


@tm('Iterator::nth')
def m_nth(c):
    p = c.args[0]
    v = c.read(p)
    if isinstance(v, tuple) and v[0] == 'it' and v[1] in ('slice', 'seq'):
        pos = add(v[4], c.args[1])
        if not c.st.truth(mk_le(add(sub(pos, v[5]), 1))):
            c.write(p, v[:4] + (v[5], v[5]))
            return ret(c.st, c.none())
        c.write(p, v[:4] + (add(pos, 1), v[5]))
        return ret(c.st, c.some(('p', v[2], v[3] + (('i', pos),), None) if v[1] == 'slice' else c.ip.seq_at(c.st, v[3], pos, v[2])))
    if isinstance(v, tuple) and v[0] == 'it':
        n = c.st.concrete(c.args[1])
        if n is None or n > 32:
            return NotImplemented
        states = [(c.st, v)]
        out = []
        for i in range(n + 1):
            nx = []
            for s, i2 in states:
                for o in inext_full(c, s, i2, opt_item_ty(c)):
                    if o[0] != 'ret':
                        out.append(o)
                    elif o[3] is None or i == n:
                        c.ip.write(o[1], p[1], p[2], o[2])
                        out.append(('ret', o[1], c.none() if o[3] is None else c.some(o[3])))
                    else:
                        nx.append((o[1], o[2]))
            states = nx
        return out
    return NotImplemented
