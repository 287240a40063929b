"""Text of known structure: constant bytes and tokens, i.e. non-empty texts of unknown letters, digits and other characters that are neither white space nor separators.
Operations of the standard library on such text are exact."""
from .terms import *
from .state import *
from .models import *
from .models import pm, tm, ret, find_impl, PM, TM
from .strings import S, pattern
from .http import flat

SEPARATORS = tuple(b'()<>@,;:\\"/[]?={}')
SPACE = b' \t\r\n\x0b\x0c'
ALPHABET = b'abyzABYZ01789-_.!'


def token(name, lo=1):
    b = ('token', SEPARATORS, name)
    return ('s', b, 0, anon(('len', b), lo, 4096))


def text(*parts):
    return seqnorm(tuple(('k', p) if isinstance(p, bytes) else p for p in parts if p != b''))


def is_token(g):
    return g[0] == 's' and isinstance(g[1], tuple) and bool(g[1]) and g[1][0] == 'token' and g[2] == 0


def structured(segs):
    return all(g[0] == 'k' or is_token(g) for g in segs) and any(is_token(g) for g in segs)


def items(segs):
    out = []
    for g in segs:
        if g[0] == 'k':
            out.extend(g[1])
        else:
            out.append(g)
    return out


def join(xs):
    return seqnorm(tuple(('k', bytes([x])) if isinstance(x, int) else x for x in xs))


def of(c, p):
    """items of the text if its structure is known"""
    try:
        segs = seqnorm(c.st.nf(c.ip.seq_of(c.st, p)[0]))
    except Unsupported:
        return None
    return items(segs) if structured(segs) else None


def outside(pat):
    """every byte of the pattern can occur outside tokens only"""
    return bool(pat) and all(x in SEPARATORS or x in SPACE for x in pat)


def occurrences(xs, pat):
    i = 0
    while i + len(pat) <= len(xs):
        if xs[i:i + len(pat)] == list(pat):
            yield i
            i += len(pat)
        else:
            i += 1


def slice_(c, p, xs, i, j):
    """pointer to the items i..j of the text"""
    off = p[3][1] if p[3] and p[3][0] == 'len' else 0
    return ('p', p[1], p[2], ('len', add(off, seqlen(join(xs[:i]))), seqlen(join(xs[i:j]))))


def wrap(name, f):
    old = PM.get(S + name)

    def g(c):
        p = c.args[0]
        xs = of(c, p) if isinstance(p, tuple) and p and p[0] == 'p' else None
        if xs is not None:
            r = f(c, p, xs)
            if r is not NotImplemented:
                return r
        return old(c) if old else NotImplemented
    PM[S + name] = g


def trim(start, end):
    def f(c, p, xs):
        i, j = 0, len(xs)
        while start and i < j and isinstance(xs[i], int) and xs[i] in SPACE:
            i += 1
        while end and i < j and isinstance(xs[j - 1], int) and xs[j - 1] in SPACE:
            j -= 1
        return ret(c.st, slice_(c, p, xs, i, j))
    return f


def trim_matches(start, end):
    def f(c, p, xs):
        pat = pattern(c, c.args[1])
        if pat is None or not outside(pat):
            return NotImplemented
        n = len(pat)
        i, j = 0, len(xs)
        while start and j - i >= n and xs[i:i + n] == list(pat):
            i += n
        while end and j - i >= n and xs[j - n:j] == list(pat):
            j -= n
        return ret(c.st, slice_(c, p, xs, i, j))
    return f


for _n, _s, _e in (('trim', 1, 1), ('trim_start', 1, 0), ('trim_end', 0, 1), ('trim_left', 1, 0), ('trim_right', 0, 1)):
    wrap(_n, trim(_s, _e))
for _n, _s, _e in (('trim_matches', 1, 1), ('trim_start_matches', 1, 0), ('trim_end_matches', 0, 1), ('trim_left_matches', 1, 0), ('trim_right_matches', 0, 1)):
    wrap(_n, trim_matches(_s, _e))


def find(c, p, xs):
    pat = pattern(c, c.args[1])
    if pat is None or not outside(pat):
        return NotImplemented
    l = list(occurrences(xs, pat))
    if c.callee['name'] == 'contains':
        return ret(c.st, 1 if l else 0)
    if not l:
        return ret(c.st, c.none())
    i = l[-1] if c.callee['name'] == 'rfind' else l[0]
    return ret(c.st, c.some(seqlen(join(xs[:i]))))


def edge(c, p, xs):
    pat = pattern(c, c.args[1])
    if pat is None or not outside(pat):
        return NotImplemented
    n = len(pat)
    front = c.callee['name'] in ('starts_with', 'strip_prefix')
    r = (xs[:n] if front else xs[-n:]) == list(pat)
    if c.callee['name'] in ('starts_with', 'ends_with'):
        return ret(c.st, 1 if r else 0)
    if not r:
        return ret(c.st, c.none())
    return ret(c.st, c.some(slice_(c, p, xs, n, len(xs)) if front else slice_(c, p, xs, 0, len(xs) - n)))


def once(c, p, xs):
    pat = pattern(c, c.args[1])
    if pat is None or not outside(pat):
        return NotImplemented
    l = list(occurrences(xs, pat))
    if not l:
        return ret(c.st, c.none())
    i = l[-1] if c.callee['name'] == 'rsplit_once' else l[0]
    pair = ('st', c.ip.field_types(c.dty, 1)[0], (slice_(c, p, xs, 0, i), slice_(c, p, xs, i + len(pat), len(xs))))
    return ret(c.st, c.some(pair))


def split(c, p, xs):
    nm = c.callee['name']
    n = None
    if nm in ('splitn', 'rsplitn'):
        n, pv = c.st.concrete(c.args[1]), c.args[2]
        if n is None:
            return NotImplemented
    elif nm in ('split_whitespace', 'split_ascii_whitespace'):
        pv = None
    else:
        pv = c.args[1]
    cuts = []
    if pv is None:
        cuts = [(i, 1) for i, x in enumerate(xs) if isinstance(x, int) and x in SPACE]
    else:
        pat = pattern(c, pv)
        if pat is None or not outside(pat):
            return NotImplemented
        cuts = [(i, len(pat)) for i in occurrences(xs, pat)]
    if n == 0:
        return ret(c.st, ('it', 'texts', ()))
    if nm == 'rsplitn':
        cuts = cuts[len(cuts) - (n - 1):] if n - 1 < len(cuts) else cuts
    elif n is not None:
        cuts = cuts[:n - 1]
    out, i = [], 0
    for j, k in cuts:
        out.append((i, j))
        i = j + k
    out.append((i, len(xs)))
    if pv is None:
        out = [(i, j) for i, j in out if i < j]
    if nm == 'split_terminator' and out[-1][0] == out[-1][1]:
        out.pop()
    if nm in ('rsplit', 'rsplitn', 'rsplit_terminator'):
        out.reverse()
    return ret(c.st, ('it', 'texts', tuple(slice_(c, p, xs, i, j) for i, j in out)))


for _n in ('find', 'rfind', 'contains'):
    wrap(_n, find)
for _n in ('starts_with', 'ends_with', 'strip_prefix', 'strip_suffix'):
    wrap(_n, edge)
for _n in ('split_once', 'rsplit_once'):
    wrap(_n, once)
for _n in ('split', 'splitn', 'rsplit', 'rsplitn', 'split_terminator', 'split_whitespace', 'split_ascii_whitespace'):
    wrap(_n, split)


# ---------------------------------------------------------------------- hyper::header::parsing

HP = 'hyper::header::parsing::'


def lines(c, p):
    """texts of the raw header lines"""
    segs = seqnorm(c.ip.seq_of(c.st, p)[0])
    if not all(g[0] == '1' for g in segs):
        raise Unsupported('raw header lines')
    return [g[1] for g in segs]


def parse_as(c, st, t, p):
    """outcomes of <t as FromStr>::from_str"""
    x = c.ip.w.types[t]
    if x['k'] == 'adt' and x['path'] == 'alloc::string::String':
        return [('ok', st, ('vec', c.ip.tu8, seqnorm(c.ip.seq_of(st, p)[0])))]
    f = None
    for g in c.ip.w.fns.values():
        if g.get('name') == 'from_str' and g.get('impl_trait') and g['impl_trait'].endswith('FromStr') and not g.get('promoted') and c.ip.field_types(g['locals'][0], 0)[0] == t:
            f = g
    if f is None:
        raise Unsupported('FromStr of ' + c.ip.w.ts(t))
    out = []
    for o in c.ip.exec_fn(f, [p], st, c.depth + 1):
        if o[0] != 'ret':
            out.append(o)
            continue

        def pick(s, o=o):
            vi = c.ip.variant_of(s, o[2])
            return [(('ok', 'err')[vi], s, c.ip.enum_fields(s, o[2], vi)[0])]
        out.extend(runsplit(o[1], pick))
    return out


def hyper_error(c, name='Header'):
    et = c.ip.field_types(c.dty, 1)[0]
    for i, (n, _, fs) in enumerate(c.ip.w.types[et]['variants']):
        if n == name:
            return c.err(('en', et, i, ()))
    raise Unsupported('hyper error')


@pm(HP + 'from_one_raw_str')
def m_one(c):
    ls = lines(c, c.args[0])
    if len(ls) != 1 or c.st.truth(mk_eq(seqlen(ls[0][2]))):
        return ret(c.st, hyper_error(c))
    t = c.ip.field_types(c.dty, 0)[0]
    p = ('p', c.ip.alloc(c.st, ls[0]), (), ('len', 0, seqlen(ls[0][2])))
    out = []
    for o in parse_as(c, c.st, t, p):
        if o[0] in ('panic', 'unk'):
            out.append(o)
        else:
            out.append(('ret', o[1], c.ok(o[2]) if o[0] == 'ok' else hyper_error(c)))
    return out


@pm(HP + 'from_comma_delimited')
def m_comma(c):
    vt = c.ip.field_types(c.dty, 0)[0]
    t = [x for x in c.ip.w.types[vt]['args'] if isinstance(x, int)][0]
    done = [(c.st, ())]
    bad = []
    for l in lines(c, c.args[0]):
        segs = seqnorm(l[2])
        if not (structured(segs) or all(g[0] == 'k' for g in segs)):
            raise Unsupported('list of unknown text')
        xs = items(segs)
        i = 0
        for j in list(occurrences(xs, b',')) + [len(xs)]:
            piece = xs[i:j]
            i = j + 1
            while piece and isinstance(piece[0], int) and piece[0] in SPACE:
                piece = piece[1:]
            while piece and isinstance(piece[-1], int) and piece[-1] in SPACE:
                piece = piece[:-1]
            if not piece:
                continue
            q = join(piece)
            nxt = []
            for st, acc in done:
                p = ('p', c.ip.alloc(st, ('vec', c.ip.tu8, q)), (), ('len', 0, seqlen(q)))
                for o in parse_as(c, st, t, p):
                    if o[0] in ('panic', 'unk'):
                        bad.append(o)
                    else:
                        nxt.append((o[1], acc + (o[2],) if o[0] == 'ok' else acc))
            done = nxt
    return bad + [('ret', st, c.ok(('vec', t, tuple(('1', v) for v in acc)))) for st, acc in done]


@pm(HP + 'fmt_comma_delimited')
def m_fmtcomma(c):
    segs = seqnorm(c.ip.seq_of(c.st, c.args[1])[0])
    if not all(g[0] == '1' for g in segs):
        raise Unsupported('printing a list of unknown length')
    x = c.ip.w.types[c.callee['args'][0]]
    t = c.callee['args'][0]
    done = [(c.st, ())]
    for i, g in enumerate(segs):
        nxt = []
        for st, acc in done:
            c2 = Call(c.ip, st, c.depth, c.callee, c.args, c.dty, c.line, c.path)
            cell = c.ip.alloc(st, g[1])
            for s, q in render_val(c2, 'display', ('p', cell, (), None), t):
                nxt.append((s, acc + ((('k', b', '),) if i else ()) + tuple(q)))
        done = nxt
    out = []
    for st, acc in done:
        c2 = Call(c.ip, st, c.depth, c.callee, c.args, c.dty, c.line, c.path)
        tgt = fmt_target(c2, c.args[0])
        v = c.ip.read(st, tgt[1], tgt[2])
        c.ip.write(st, tgt[1], tgt[2], ('vec', v[1], seqnorm(tuple(v[2]) + acc)))
        out.append(('ret', st, c.ok(UNIT)))
    return out


# ---------------------------------------------------------------------- lists and slices of known length

def window(c, p):
    """(value behind p, before, part, after)"""
    v = c.read(p)
    if p[3] and p[3][0] == 'len':
        a, b = c.ip.cut(c.st, v[2], p[3][1])
        m, e = c.ip.cut(c.st, b, p[3][2])
    else:
        a, m, e = (), v[2], ()
    return v, tuple(a), tuple(m), tuple(e)


def put(c, p, v, a, m, e):
    full = seqnorm(a + tuple(m) + e)
    n = seqlen(full)
    if isinstance(n, int) and n <= 64 and v[0] == 'vec':
        full = explode(c, full, n, v[1])
    c.write(p, c.ip.with_segs(v, full))


@pm('core::slice::<impl [T]>::reverse')
def m_reverse(c):
    v, a, m, e = window(c, c.args[0])
    xs = explicit(m)
    if xs is None:
        return NotImplemented
    put(c, c.args[0], v, a, tuple(('1', x) for x in reversed(xs)), e)
    return ret(c.st, UNIT)


@pm('core::slice::<impl [T]>::rotate_left', 'core::slice::<impl [T]>::rotate_right')
def m_rotate(c):
    v, a, m, e = window(c, c.args[0])
    n = seqlen(m)
    k = c.args[1]
    if not c.st.truth(mk_le(sub(k, n))):
        return [('panic', c.st, (c.path, 'rotate', c.line))]
    x, y = c.ip.cut(c.st, m, k if c.callee['name'] == 'rotate_left' else sub(n, k))
    put(c, c.args[0], v, a, tuple(y) + tuple(x), e)
    return ret(c.st, UNIT)


@pm('alloc::vec::Vec::dedup')
def m_dedup(c):
    v = c.read(c.args[0])
    xs = explicit(v[2])
    if xs is None or len(xs) > 8:
        return NotImplemented
    out = []
    for x in xs:
        if not out or not c.st.truth(val_eq(c, out[-1], x)):
            out.append(x)
    c.write(c.args[0], c.ip.with_segs(v, seqnorm(tuple(('1', x) for x in out))))
    return ret(c.st, UNIT)


def less(c, x, y):
    """x < y as texts"""
    a, b = c.st.nf(x), c.st.nf(y)
    if not (a[0] == b[0] == 'vec' and a[1] == b[1] == c.ip.tu8):
        raise Unsupported('order of values')
    if seqnorm(a[2]) == seqnorm(b[2]):
        return False
    p, q = flat(a[2]), flat(b[2])
    if p is not None and q is not None:
        return p < q
    if c.st.truth(val_eq(c, a, b)):
        return False
    k = ('less', seqnorm(a[2]), seqnorm(b[2]))
    r = ('less', seqnorm(b[2]), seqnorm(a[2]))
    f = ('f', ('disc', k), 2)
    g = ('f', ('disc', r), 2)
    m = c.st.dom.get(f, 3)
    if m == 3:
        w = c.st.dom.get(g, 3)
        if w != 3:
            return w == 1
        c.st.split_atom(f)
    return m == 2


@pm('alloc::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::sort_unstable')
def m_sort(c):
    v, a, m, e = window(c, c.args[0])
    xs = explicit(m)
    if xs is None or len(xs) > 6:
        return NotImplemented
    out = []
    for x in xs:
        i = len(out)
        while i and less(c, x, out[i - 1]):
            i -= 1
        out.insert(i, x)
    put(c, c.args[0], v, a, tuple(('1', x) for x in out), e)
    return ret(c.st, UNIT)


@pm('alloc::slice::<impl [T]>::join', 'alloc::slice::<impl [T]>::concat')
def m_join(c):
    segs, ety = c.ip.seq_of(c.st, c.args[0])
    xs = explicit(segs)
    if xs is None:
        return NotImplemented
    x = c.ip.w.types[c.dty]
    if x['k'] != 'adt' or x['path'] != 'alloc::string::String':
        return NotImplemented
    sep = seqnorm(c.ip.seq_of(c.st, c.args[1])[0]) if c.callee['name'] == 'join' else ()
    out = ()
    for i, y in enumerate(xs):
        out += (sep if i else ()) + tuple(seq_val(c, y)[0])
    return ret(c.st, ('vec', c.ip.tu8, seqnorm(out)))


@pm('alloc::str::<impl str>::replace', 'alloc::str::<impl str>::replacen')
def m_replace(c):
    if c.callee['name'] == 'replacen':
        n = c.st.concrete(c.args[3])
        if n is None:
            return NotImplemented
    else:
        n = -1
    a, b = pattern(c, c.args[1]), seqnorm(c.ip.seq_of(c.st, c.args[2])[0])
    if not a:
        return NotImplemented
    segs = seqnorm(c.st.nf(c.ip.seq_of(c.st, c.args[0])[0]))
    t = flat(segs)
    if t is not None:
        parts = t.split(a, n)
        out = ()
        for i, x in enumerate(parts):
            out += (b if i else ()) + ((('k', x),) if x else ())
        return ret(c.st, ('vec', c.ip.tu8, seqnorm(out)))
    xs = items(segs) if structured(segs) else None
    if xs is not None and outside(a):
        out, i = (), 0
        l = list(occurrences(xs, a))
        for j in l if n < 0 else l[:n]:
            out += tuple(join(xs[i:j])) + b
            i = j + len(a)
        return ret(c.st, ('vec', c.ip.tu8, seqnorm(out + tuple(join(xs[i:])))))
    fb = flat(b)
    if fb is None:
        return NotImplemented
    if fb == a:
        return ret(c.st, ('vec', c.ip.tu8, segs))
    if len(segs) == 1 and segs[0][0] == 's' and isinstance(segs[0][1], tuple) and segs[0][1][:1] == ('b64',) and any(not (chr(x).isalnum() and x < 128 or x in b'+/=') for x in a):
        return ret(c.st, ('vec', c.ip.tu8, segs))
    nm = ('replaced', a, fb, n, segs)
    return ret(c.st, ('vec', c.ip.tu8, (('s', nm, 0, seqlen(segs) if len(a) == len(fb) else lenof(nm)),)))


BC = ('base64::decode::decode_config', 'base64::decode_config')


@pm(*BC)
def m_b64dc(c):
    from .http import m_b64d, bytes_arg
    cfg = c.ip.expand(c.args[1])
    names = [n for n, _ in c.ip.w.types[cfg[1]]['variants'][0][2]]
    fs = dict(zip(names, cfg[2]))
    cs = c.ip.expand(fs['char_set'])
    v = c.ip.w.types[cs[1]]['variants'][cs[2]][0]
    bits = fs.get('decode_allow_trailing_bits', 0)
    if not isinstance(bits, int):
        raise Unsupported('base64 configuration')
    if v == 'Standard' and not bits:
        return m_b64d(c)
    segs = seqnorm(bytes_arg(c, c.args[0]))
    nm = ('b64dc', v, bits, segs)
    f = ('f', ('disc', nm), 2)
    m = c.st.dom.get(f, 3)
    if m == 3:
        c.st.split_atom(f)
    if m == 1:
        n2 = ('b64dcd', v, bits, segs)
        return ret(c.st, c.ok(('vec', c.ip.tu8, (('s', n2, 0, lenof(n2)),))))
    return ret(c.st, c.err(c.ip.sym(c.ip.w.types[c.dty]['args'][1], (nm, 'e'))))


@pm('base64::encode::encode_config', 'base64::encode_config')
def m_b64ec(c):
    from .http import m_b64, b64_seq, bytes_arg
    cfg = c.ip.expand(c.args[1])
    names = [n for n, _ in c.ip.w.types[cfg[1]]['variants'][0][2]]
    fs = dict(zip(names, cfg[2]))
    cs = c.ip.expand(fs['char_set'])
    v = c.ip.w.types[cs[1]]['variants'][cs[2]][0]
    if v == 'Standard' and fs['pad'] == 1:
        return m_b64(c)
    segs = seqnorm(bytes_arg(c, c.args[0]))
    n = seqlen(segs)
    if not isinstance(n, int) or fs['pad'] not in (0, 1):
        return NotImplemented
    nm = ('b64c', v, segs)
    if v == 'Standard':
        return ret(c.st, ('vec', c.ip.tu8, seqnorm(c.ip.cut(c.st, b64_seq(segs), (n * 4 + 2) // 3)[0])))
    return ret(c.st, ('vec', c.ip.tu8, (('s', nm, 0, (n + 2) // 3 * 4 if fs['pad'] else (n * 4 + 2) // 3),)))
