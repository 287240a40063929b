"""WebSocket headers parse and print faithfully"""
import itertools
from ..check import *
from ..terms import *
from ..models import runsplit, seq_eq
from ..senders import probe
from ..state import *
from ..upgrade import vname
from ..opaque import identical
from ..text import token, text, structured, items, join
from ..http import b64_seq, ci_eq, flat
from ..pure import each
from ..accepts import Dummy

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of the parsing and printing functions of every header type. Key and accept: any text, with the outcome of base64 decoding unknown. Version and '
               'origin: unknown non-empty tokens and texts close to 13. Lists and extensions: texts made of unknown tokens (any non-empty text without separators and white space) with every '
               'combination of up to three elements, up to two parameters each, with and without value, with further equals signs, empty values and white space; '
               'the parsed value must have exactly these names and values in order, and parsing what is printed must give the printed value.')
LL = 'websocket-base/src/header.rs:'
H = 'src/header/'
SIZED = {'key': 16, 'accept': 20}
NAMES = {'key': b'Sec-WebSocket-Key', 'accept': b'Sec-WebSocket-Accept', 'version': b'Sec-WebSocket-Version', 'protocol': b'Sec-WebSocket-Protocol',
         'extensions': b'Sec-WebSocket-Extensions', 'origin': b'Origin'}
TYPES = {'key': 'WebSocketKey', 'accept': 'WebSocketAccept', 'version': 'WebSocketVersion', 'protocol': 'WebSocketProtocol', 'extensions': 'WebSocketExtensions', 'origin': 'Origin'}


def at(h, f):
    return '%s%s.rs:%s::%s' % (H, h, TYPES[h], f)


def run(ctx):
    for h in NAMES:
        ctx.guard('modelled', at(h, 'header_name'), name, ctx, h)
    for h, n in SIZED.items():
        for p, where in ((h + '_from', at(h, 'from_str')), ('base_%s_from' % h, LL + TYPES[h] + '::from_str'), ('parse_' + h, at(h, 'parse_header'))):
            ctx.guard('modelled', where, sized, ctx, p, where, n)
        for p, where in (('print_' + h, at(h, 'fmt_header')), ('serialize_' + h, at(h, 'serialize'))):
            ctx.guard('modelled', where, printed_bytes, ctx, p, where, n)
        ctx.guard('modelled', at(h, 'fmt_header'), again, ctx, h, None)
    ctx.guard('modelled', at('key', 'from_array'), from_array, ctx)
    ctx.guard('modelled', at('version', 'parse_header'), version, ctx)
    for p in ('print_version', 'show_version'):
        ctx.guard('modelled', at('version', 'fmt_header'), printed_version, ctx, p)
    ctx.guard('modelled', at('origin', 'parse_header'), origin, ctx)
    for p in ('print_origin', 'show_origin'):
        ctx.guard('modelled', at('origin', 'fmt_header'), printed, ctx, p, at('origin', 'fmt_header'), [('Origin', ['a'])])
    ctx.guard('modelled', at('protocol', 'parse_header'), protocols, ctx)
    ctx.guard('modelled', at('extensions', 'parse_header'), extension_lists, ctx)
    ctx.guard('modelled', H + 'extensions.rs:Extension::from_str', extensions, ctx)
    for p in ('print_', 'show_'):
        ctx.guard('modelled', at('protocol', 'fmt_header'), printed_list, ctx, p + 'protocol', 'protocol')
        ctx.guard('modelled', at('extensions', 'fmt_header'), printed_list, ctx, p + 'extensions', 'extensions')
    ctx.guard('modelled', H + 'extensions.rs:Extension::fmt', printed_extension, ctx)
    for h in ('version', 'origin', 'protocol', 'extensions'):
        ctx.guard('modelled', at(h, 'fmt_header'), again, ctx, h, None)
    ctx.rules.append('key/accept: Ok iff base64 decodes to exactly 16/20 bytes, and then all of them in order; version: 13 iff the text is "13", otherwise the text; lists: every element in order; extension: name, parameters split at ";", value after the first "="')
    ctx.rules.append('print then parse is the identity; header_name is the RFC name (ASCII case ignored)')


# ---------------------------------------------------------------------- evaluation

def evaluate(ctx, p, where, inputs, judge):
    """runs the probe on the inputs (values; those behind references are stored) and judges each outcome judge(s, ip, w, r)"""
    w = ctx.world('probe')
    fn = probe(ctx, p)
    ip = ctx.interp('probe')
    ip.unroll = (4000, 400)
    args = ctx.args(ip, fn)
    st = State()
    vals = []
    n = 0
    for i, a in enumerate(args):
        v = inputs(ip, i, a)
        vals.append(v)
        if isinstance(a, tuple) and a[0] == 'p' and not (isinstance(v, tuple) and v[0] == 'p'):
            cell = ip.alloc(st, v)
            args[i] = ('p', cell, (), ('len', 0, seqlen(v[2])) if v[0] == 'vec' else None)
        else:
            args[i] = v
    for k, s, r in ctx.run(ip, fn, args, st):
        if k == 'unk':
            ctx.undecided('modelled', where, '%s: %s' % (p, r))
        elif k == 'panic':
            ctx.refute('no-panic', 'panic', where, 'panics (%s at %s)' % (r[1], r[2]), s)
        else:
            n += 1
            runsplit(s, lambda s: judge(s, ip, w, r, vals) or [])
    if not n:
        ctx.undecided('coverage', where, p + ': no outcome')


def vec(ip, segs):
    return ('vec', ip.tu8, seqnorm(segs))


def raw(ip, a, ls):
    """raw header lines; a: the argument pointer"""
    t = line_type(ip)
    return ('vec', t, tuple(('1', vec(ip, l)) for l in ls))


def line_type(ip):
    for i, x in enumerate(ip.w.types):
        if x['k'] == 'adt' and x['path'] == 'alloc::vec::Vec' and x['args'] and x['args'][0] == ip.tu8:
            return i
    raise Unsupported('Vec<u8>')


def ok_err(ip, s, r):
    vi = ip.variant_of(s, r)
    return ('ok', 'err')[vi], ip.enum_fields(s, r, vi)[0]


def content(ip, v):
    """the text of a String value, or of a type around it"""
    v = ip.expand(v)
    while v[0] == 'st':
        v = ip.expand(v[2][0])
    return v[2]


def show_text(segs):
    return ''.join(g[1].decode('latin1') if g[0] == 'k' else '<%s>' % (g[1][2] if len(g[1]) > 2 else 'text',) for g in segs)


# ---------------------------------------------------------------------- names

def name(ctx, h):
    def judge(s, ip, w, r, vals):
        b = flat(ip.seq_of(s, r)[0])
        if b is None:
            raise Unsupported('header name')
        if b.lower() == NAMES[h].lower():
            ctx.ok('name')
        else:
            ctx.refute('name', 'name', at(h, 'header_name'), 'the header is named %r, not %r' % (b.decode(), NAMES[h].decode()), s)
    evaluate(ctx, 'name_' + h, at(h, 'header_name'), lambda ip, i, a: a, judge)


# ---------------------------------------------------------------------- key and accept

def sized(ctx, p, where, n):
    base = ('header-text',)
    txt = (('s', base, 0, anon(('len', base), 1, 4096)),)

    def judge(s, ip, w, r, vals):
        k, v = ok_err(ip, s, r)
        seen.add(k)
        dec = s.dom.get(('f', ('disc', ('b64d', txt)), 2), 3)
        nm = ('b64dec', txt)
        size = lenof(nm)
        if k == 'ok':
            if dec != 1:
                ctx.refute('base64', 'undecoded', where, 'a %d-byte value from a text that base64 does not decode' % n, s)
                return
            q = mk_eq(sub(size, n))
            if not s.truth(q):
                ctx.refute('size', 'size', where, 'accepted although it does not decode to exactly %d bytes' % n, s)
                return
            ctx.ok('size')
            ctx.equal('bytes', 'bytes', where, 'the bytes of the value', s, content(ip, v), (('s', nm, 0, n),), w)
        elif dec == 1:
            if s.truth(mk_eq(sub(size, n))):
                ctx.refute('accepts', 'refused', where, 'refused although it decodes to exactly %d bytes' % n, s)
            else:
                ctx.ok('accepts')
        elif dec == 3:
            ctx.undecided('accepts', where, 'refused before it is decoded')
        else:
            ctx.ok('accepts')
    seen = set()
    evaluate(ctx, p, where, lambda ip, i, a: raw(ip, a, [txt]) if p.startswith('parse') else vec(ip, txt), judge)
    if seen != {'ok', 'err'}:
        ctx.undecided('coverage', where, 'outcomes ' + ', '.join(sorted(seen)))


def value_bytes(n):
    return (('s', ('value-bytes',), 0, n),)


def sized_value(ip, t, n):
    """value of a header type around an array of n bytes"""
    x = ip.w.types[t]
    if x['k'] == 'array':
        return ('vec', ip.tu8, value_bytes(n))
    return ('st', t, tuple(sized_value(ip, f, n) for f in ip.field_types(t)))


def printed_bytes(ctx, p, where, n):
    evaluate(ctx, p, where, lambda ip, i, a: sized_value(ip, a[1][2], n),
             lambda s, ip, w, r, vals: ctx.equal('printed', 'printed', where, 'the text printed is not the base64 text of the %d bytes' % n, s, content(ip, r), b64_seq(value_bytes(n)), w) and None)


def from_array(ctx):
    where = at('key', 'from_array')
    for w, ip, args, vals, s, r in each(ctx, 'key_from_array', where):
        ctx.equal('bytes', 'bytes', where, 'the bytes of the key', s, content(ip, r), ip.expand(vals[0])[2], w)


# ---------------------------------------------------------------------- version and origin

VERSIONS = [b'13', b'12', b'8', b'130', b'013', b'+13', b'13 ', b' 13', b'0x13', b'13.0', b'1 3', b'13, 8', b'8, 13', b'13,13', b'\t13', b'0', b'7', b'14', b'31', b'1', b'3', b'113', b'13;', b'"13"', b'thirteen']


def version(ctx):
    where = at('version', 'parse_header')
    for t in [text(v) for v in VERSIONS] + [text(token('a')), text(b'13', token('a')), text(token('a'), b', 13'), text(token('a'), b'13')]:
        def judge(s, ip, w, r, vals, t=t):
            k, v = ok_err(ip, s, r)
            if k == 'err':
                ctx.refute('version', 'refused', where, 'the text %r is refused' % show_text(t), s)
                return
            vi = ip.variant_of(s, v)
            is13 = t == text(b'13')
            if vname(ip, v, vi) == 'WebSocket13':
                if is13:
                    ctx.ok('version')
                elif t == text(token('a')):
                    # a token may be 13
                    if s.prove(seq_eq(Dummy(ip, s), t, text(b'13'), ip.tu8)) is True:
                        ctx.ok('version')
                    else:
                        ctx.undecided('version', where, 'version 13 for an unknown token')
                else:
                    ctx.refute('version', 'taken', where, 'the text %r is taken for version 13' % show_text(t), s)
            else:
                if is13:
                    ctx.refute('version', 'missed', where, 'the text 13 is not taken for version 13', s)
                else:
                    ctx.equal('version', 'text', where, 'the text of the version is not kept', s, content(ip, ip.enum_fields(s, v, vi)[0]), t, w)
        evaluate(ctx, 'parse_version', where, lambda ip, i, a, t=t: raw(ip, a, [t]), judge)


def printed_version(ctx, p):
    where = at('version', 'fmt_header')

    def inputs(known):
        def f(ip, i, a):
            t = a[1][2]
            for vi, (n, _, fs) in enumerate(ip.w.types[t]['variants']):
                if (n == 'WebSocket13') == known:
                    return ('en', t, vi, tuple(vec(ip, text(token('a'))) for _ in fs))
        return f
    for known in (True, False):
        evaluate(ctx, p, where, inputs(known),
                 lambda s, ip, w, r, vals, known=known: ctx.equal('printed', 'printed', where, 'the text printed', s, content(ip, r), text(b'13' if known else token('a')), w) and None)


def origin(ctx):
    where = at('origin', 'parse_header')
    for t in (text(token('a')), text(token('a'), b'://', token('b'), b':80'), text(b'null'), text(token('a'), b' ', token('b')), text(token('a'), b', ', token('b')), text(b'HTTP://', token('a'), b'/')):
        def judge(s, ip, w, r, vals, t=t):
            k, v = ok_err(ip, s, r)
            if k == 'err':
                ctx.refute('origin', 'refused', where, 'the text %r is refused' % show_text(t), s)
            else:
                ctx.equal('origin', 'text', where, 'the text of the origin is not kept', s, content(ip, v), t, w)
        evaluate(ctx, 'parse_origin', where, lambda ip, i, a, t=t: raw(ip, a, [t]), judge)


def printed(ctx, p, where, cases):
    for _, toks in cases:
        evaluate(ctx, p, where, lambda ip, i, a: ('st', a[1][2], (vec(ip, text(token('a'), b' ', token('b'))),)),
                 lambda s, ip, w, r, vals: ctx.equal('printed', 'printed', where, 'the text printed', s, content(ip, r), text(token('a'), b' ', token('b')), w) and None)


# ---------------------------------------------------------------------- lists

def lists():
    """[(lines, names)]"""
    a, b, c = token('a'), token('b'), token('c')
    yield [text(a)], [a]
    for sep in (b', ', b',', b' , ', b',\t'):
        yield [text(a, sep, b)], [a, b]
        yield [text(a, sep, b, sep, c)], [a, b, c]
    yield [text(a), text(b)], [a, b]
    yield [text(a, b', ', b), text(c)], [a, b, c]
    yield [text(a), text(b, b',', c)], [a, b, c]
    yield [text(a, b', ', a)], [a, a]
    yield [text(b' ', a, b' ')], [a]
    yield [text(a, b',,', b, b',')], [a, b]


def protocols(ctx):
    where = at('protocol', 'parse_header')
    for ls, names in lists():
        def judge(s, ip, w, r, vals, ls=ls, names=names):
            k, v = ok_err(ip, s, r)
            d = ' / '.join(show_text(l) for l in ls)
            if k == 'err':
                ctx.refute('list', 'refused', where, 'the list %r is refused' % d, s)
                return
            els = content(ip, v)
            if len(els) != len(names) or any(g[0] != '1' for g in els):
                ctx.refute('list', 'count', where, '%r gives %d protocols' % (d, len(els)), s)
                return
            for g, nm in zip(els, names):
                ctx.equal('list', 'element', where, 'an element of %r' % d, s, content(ip, g[1]), (nm,), w)
        evaluate(ctx, 'parse_protocol', where, lambda ip, i, a, ls=ls: raw(ip, a, ls), judge)


# ---------------------------------------------------------------------- extensions

def params():
    """[(text of a parameter, name, value)]"""
    n, v, u = 'n', 'v', 'u'

    def f(i):
        n, v, u = token(('n', i)), token(('v', i)), token(('u', i))
        return [(text(n), n, None), (text(n, b'=', v), n, text(v)), (text(n, b'=', v, b'=', u), n, text(v, b'=', u)), (text(n, b'='), n, ()), (text(n, b' = ', v), n, text(v)),
                (text(n, b'==', v), n, text(b'=', v)), (text(n, b'=', v, b' ', u), n, text(v, b' ', u)), (text(n, b'=', v, b'='), n, text(v, b'=')), (text(n, b'="', v, b'"'), n, text(b'"', v, b'"'))]
    return f


def extension_texts(i=0, small=False):
    """[(text, name, [(name, value)])]"""
    P = params()
    e = token(('e', i))
    p1, p2 = P((i, 1)), P((i, 2))
    if small:
        p1, p2 = p1[:4], p2[:2]
    yield text(e), e, []
    for sep in ((b'; ',) if small else (b'; ', b';', b' ; ')):
        for t, n, v in p1:
            yield text(e, sep, *t), e, [(n, v)]
        for (t, n, v), (t2, n2, v2) in itertools.product(p1, p2):
            yield text(e, sep, *t, sep, *t2), e, [(n, v), (n2, v2)]


def same_extension(ctx, where, d, s, ip, w, x, e, ps):
    f = ip.expand(x)[2]
    fn = [n for n, _ in ip.w.types[x[1]]['variants'][0][2]]
    f = dict(zip(fn, f))
    ctx.equal('extension', 'name', where, 'the name of the extension %r' % d, s, content(ip, f['name']), (e,), w)
    els = ip.expand(f['params'])[2]
    if len(els) != len(ps) or any(g[0] != '1' for g in els):
        ctx.refute('extension', 'count', where, '%r gives %d parameters' % (d, len(els)), s)
        return
    for g, (n, v) in zip(els, ps):
        q = ip.expand(g[1])
        q = dict(zip([n_ for n_, _ in ip.w.types[q[1]]['variants'][0][2]], q[2]))
        ctx.equal('extension', 'parameter', where, 'the name of a parameter of %r' % d, s, content(ip, q['name']), (n,), w)
        vi = ip.variant_of(s, q['value'])
        if v is None or vi == 0:
            if (v is None) != (vi == 0):
                ctx.refute('extension', 'value', where, 'a parameter of %r %s a value' % (d, 'has no' if vi == 0 else 'gets'), s)
            else:
                ctx.ok('extension')
        else:
            ctx.equal('extension', 'value', where, 'the value of a parameter of %r' % d, s, content(ip, ip.enum_fields(s, q['value'], 1)[0]), v, w)


def extensions(ctx):
    where = H + 'extensions.rs:Extension::from_str'
    k = 0
    for t, e, ps in extension_texts():
        k += 1

        def judge(s, ip, w, r, vals, t=t, e=e, ps=ps):
            kd, v = ok_err(ip, s, r)
            if kd == 'err':
                ctx.refute('extension', 'refused', where, 'the text %r is refused' % show_text(t), s)
            else:
                same_extension(ctx, where, show_text(t), s, ip, w, v, e, ps)
        evaluate(ctx, 'extension_from', where, lambda ip, i, a, t=t: vec(ip, t), judge)
    ctx.samples.append('%s: %d shapes of text' % (where, k))


def extension_lists(ctx):
    where = at('extensions', 'parse_header')
    k = 0
    X = [list(extension_texts(i, True)) for i in range(2)]
    cases = [([x], [x]) for x in X[0]] + [([x, y], None) for x in X[0] for y in X[1]]
    for xs, _ in cases:
        for joined in ((True, False) if len(xs) == 2 and len(xs[0][2]) < 2 else (True,)):
            ls = [text(*(sum((tuple(x[0]) + (b', ',) for x in xs), ())[:-1]))] if joined else [x[0] for x in xs]
            k += 1

            def judge(s, ip, w, r, vals, ls=ls, xs=xs):
                d = ' / '.join(show_text(l) for l in ls)
                kd, v = ok_err(ip, s, r)
                if kd == 'err':
                    ctx.refute('list', 'refused', where, 'the list %r is refused' % d, s)
                    return
                els = content(ip, v)
                if len(els) != len(xs) or any(g[0] != '1' for g in els):
                    ctx.refute('list', 'count', where, '%r gives %d extensions' % (d, len(els)), s)
                    return
                for g, (_, e, ps) in zip(els, xs):
                    same_extension(ctx, where, d, s, ip, w, g[1], e, ps)
            evaluate(ctx, 'parse_extensions', where, lambda ip, i, a, ls=ls: raw(ip, a, ls), judge)
    ctx.samples.append('%s: %d lists' % (where, k))


# ---------------------------------------------------------------------- printing

def string_type(ip):
    for i, x in enumerate(ip.w.types):
        if x['k'] == 'adt' and x['path'] == 'alloc::string::String':
            return i
    raise Unsupported('String')


def extension_value(ip, t, e, ps):
    fs = ip.w.types[t]['variants'][0][2]
    out = []
    for n, ft in fs:
        if n == 'name':
            out.append(vec(ip, (e,)))
        else:
            pt = [x for x in ip.w.types[ft]['args'] if isinstance(x, int)][0]
            pf = ip.w.types[pt]['variants'][0][2]
            items = []
            for pn, pv in ps:
                q = []
                for n2, t2 in pf:
                    q.append(vec(ip, (pn,)) if n2 == 'name' else ('en', t2, 0, ()) if pv is None else ('en', t2, 1, (vec(ip, pv),)))
                items.append(('1', ('st', pt, tuple(q))))
            out.append(('vec', pt, tuple(items)))
    return ('st', t, tuple(out))


def extension_values(i=0):
    """[(name, parameters)] that survive printing and parsing"""
    for t, e, ps in extension_texts(i, True):
        yield e, ps


def extension_text(e, ps):
    parts = [e]
    for n, v in ps:
        parts += [b'; ', n] + ([b'='] + list(v) if v is not None else [])
    return text(*parts)


def tight(segs):
    """the text without optional white space around the separators of lists"""
    segs = seqnorm(segs)
    if not (structured(segs) or all(g[0] == 'k' for g in segs)):
        return segs
    xs, out = items(segs), []
    for i, x in enumerate(xs):
        if x in (32, 9):
            a = [y for y in xs[:i] if y not in (32, 9)][-1:]
            b = [y for y in xs[i:] if y not in (32, 9)][:1]
            if not a or not b or a[0] in (44, 59) or b[0] in (44, 59):
                continue
        out.append(x)
    return join(out)


def printed_extension(ctx):
    where = H + 'extensions.rs:Extension::fmt'
    for e, ps in extension_values():
        def judge(s, ip, w, r, vals, e=e, ps=ps):
            ctx.equal('printed', 'extension', where, 'the text printed', s, tight(content(ip, r)), tight(extension_text(e, ps)), w)
        evaluate(ctx, 'show_extension', where, lambda ip, i, a, e=e, ps=ps: extension_value(ip, a[1][2], e, ps), judge)

        def same(s, ip, w, r, vals, e=e, ps=ps):
            k, v = ok_err(ip, s, r)
            if k == 'err':
                ctx.refute('again', 'again', where, 'what is printed for %r cannot be parsed' % show_text(extension_text(e, ps)), s)
            else:
                same_extension(ctx, where, show_text(extension_text(e, ps)), s, ip, w, v, e, ps)
        evaluate(ctx, 'again_extension', where, lambda ip, i, a, e=e, ps=ps: extension_value(ip, a[1][2], e, ps), same)


def list_values(kind):
    if kind == 'protocol':
        toks = [token(x) for x in 'abc']
        for n in range(4):
            yield toks[:n]
        yield [toks[0], toks[0]]
    else:
        X = [list(extension_values(i)) for i in range(2)]
        yield []
        for x in X[0]:
            yield [x]
        for x in X[0][::2]:
            for y in X[1][::3]:
                yield [x, y]


def list_value(ip, t, kind, xs):
    vt = ip.field_types(t)[0]
    et = [x for x in ip.w.types[vt]['args'] if isinstance(x, int)][0]
    return ('st', t, (('vec', et, tuple(('1', vec(ip, (x,)) if kind == 'protocol' else extension_value(ip, et, *x)) for x in xs)),))


def printed_list(ctx, p, kind):
    where = at(kind, 'fmt_header')
    for xs in list_values(kind):
        want = []
        for i, x in enumerate(xs):
            want += ([b', '] if i else []) + ([x] if kind == 'protocol' else list(extension_text(*x)))
        evaluate(ctx, p, where, lambda ip, i, a, xs=xs: list_value(ip, a[1][2], kind, xs),
                 lambda s, ip, w, r, vals, want=want: ctx.equal('printed', 'printed', where, 'the text printed', s, tight(content(ip, r)), tight(text(*want)), w) and None)


def again(ctx, h, _):
    where = at(h, 'fmt_header')

    def values(ip, t):
        if h in SIZED:
            return [sized_value(ip, t, SIZED[h])]
        if h == 'origin':
            return [('st', t, (vec(ip, text(token('a'), b'://', token('b'))),))]
        if h == 'version':
            out = []
            for vi, (n, _, fs) in enumerate(ip.w.types[t]['variants']):
                if not fs:
                    out.append(('en', t, vi, ()))
                else:
                    out += [('en', t, vi, (vec(ip, text(x)),)) for x in (b'8', b'7, 8')]
            return out
        return [list_value(ip, t, h, xs) for xs in list_values(h)]
    w = ctx.world('probe')
    ip0 = ctx.interp('probe')
    a0 = ctx.args(ip0, probe(ctx, 'again_' + h))[0]
    for v in values(ip0, a0[1][2]):
        def judge(s, ip, w, r, vals, v=v):
            k, got = ok_err(ip, s, r)
            if k == 'err':
                ctx.refute('again', 'again', where, 'what is printed cannot be parsed', s)
            else:
                identical(ctx, 'again', 'again', where, 'the value printed and parsed again', s, ip, got, v, w)
        evaluate(ctx, 'again_' + h, where, lambda ip, i, a, v=v: v, judge)
