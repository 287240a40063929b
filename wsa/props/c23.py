"""The HTTP codecs take exactly one head from the buffer and write one completely"""
from ..check import *
from ..terms import *
from ..models import runsplit
from ..senders import probe
from ..state import *
from ..upgrade import names, vname
from ..opaque import identical

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of the four codec functions. Decoding: on a buffer of any length with unknown bytes, what is handed to the parser and what stays must together be the '
               'buffer, the head must end in an empty line, nothing may be consumed otherwise, and the outcome after consuming must be the parsed head or its error; when there is an empty '
               'line anywhere in a buffer of any length, the head must not end later; on every '
               'buffer of up to %d unknown bytes the head must in addition be the first one and must be found when there is one. Encoding: any start line, headers, '
               'buffer content and spare room; the bytes appended must be the start line, the headers and the empty line, all of them.')
SMALL = 9
EXPLANATION %= SMALL
END = b'\r\n\r\n'
SIDES = {'server': ('HttpServerCodec', 'parse_request'), 'client': ('HttpClientCodec', 'parse_response')}


def run(ctx):
    for side in sorted(SIDES):
        at = 'src/codec/http.rs:%s::' % SIDES[side][0]
        ctx.guard('modelled', at + 'decode', decode, ctx, side, at + 'decode', None)
        ctx.guard('modelled', at + 'decode', decode, ctx, side, at + 'decode', 'marked')
        for n in range(SMALL + 1):
            ctx.guard('modelled', at + 'decode', decode, ctx, side, at + 'decode', n)
        ctx.guard('modelled', at + 'encode', encode, ctx, side, at + 'encode')
    ctx.rules.append('decode: None => buffer untouched and no CRLFCRLF in it; otherwise parser input = bytes through the first CRLFCRLF, rest left, result = parser result')
    ctx.rules.append('encode: buffer afterwards = buffer before + start line + CRLF + headers + CRLF')


def small_buffer(n):
    def pre(ip, w, st, args):
        v = ('bm', ip.tu8, tuple(('1', ip.sym(ip.tu8, ('b', i))) for i in range(n)), anon(('rem', 'b')))
        st.mem[args[1][1]] = v
    return pre


def decode(ctx, side, at, n):
    w = ctx.world('probe')
    fn = probe(ctx, 'http_%s_decode' % side)
    ip = ctx.interp('probe')
    if isinstance(n, int):
        ip.unroll = (4000, 400)
    args = ctx.args(ip, fn)
    st = State()
    if n is None:
        st.mem[args[1][1]] = ip.sym(args[1][1][2], args[1][1][1])
    elif n == 'marked':
        a, b = ('before',), ('after',)
        st.mem[args[1][1]] = ('bm', ip.tu8, (('s', a, 0, lenof(a)), ('k', END), ('s', b, 0, lenof(b))), anon(('rem', 'b')))
    else:
        small_buffer(n)(ip, w, st, args)
    first = ip.expand(ip.read(st, args[1][1], args[1][2]))
    if first[0] == 'sy':
        raise Unsupported('buffer')
    seq = first[2]
    counts = {}
    for k, s, r in ctx.run(ip, fn, args, st):
        if k == 'unk':
            ctx.undecided('modelled', at, r)
            continue
        if k == 'panic':
            ctx.refute('no-panic', 'panic', at, 'panics (%s at %s); buffer of %s' % (r[1], r[2], n), s)
            continue
        runsplit(s, lambda s: judge(ctx, ip, w, side, at, n, s, args, r, seq, counts))
    want = {'ok', 'err'} if n == 'marked' else {'none', 'ok', 'err'} if n is None or n >= 4 else {'none'}
    if not want <= set(counts):
        ctx.undecided('coverage', at, 'outcomes %s for a buffer of %s bytes' % (counts, n))
    if n in (None, SMALL, 'marked'):
        ctx.samples.append('%s, buffer of %s bytes: %s' % (at, 'any number of' if n is None else 'any number of (with an empty line)' if n == 'marked' else n, counts))


def judge(ctx, ip, w, side, at, n, s, args, r, seq, counts):
    left = ip.expand(ip.read(s, args[1][1], args[1][2]))[2]
    xs = [e for e in s.ev if e[0] == 'x']
    vi = ip.variant_of(s, r)
    x = ip.enum_fields(s, r, vi)[0]
    first = None
    if isinstance(n, int):
        for p in range(n - 3):
            if all(s.truth(mk_eq(sub(seq[p + i][1], END[i]))) for i in range(4)):
                first = p
                break
    if not xs:
        if vi == 1 or ip.variant_of(s, x) == 1:
            ctx.refute('parsed', 'unparsed', at, 'an outcome although no head has been parsed', s)
            return []
        counts['none'] = counts.get('none', 0) + 1
        ctx.equal('waits', 'consumed', at, 'the buffer after a request for more data is not the buffer before', s, left, seq, w)
        if n == 'marked':
            beyond(ctx, ip, at, 'missed', 'asks for more data although the buffer has a complete head', s)
        elif n is not None:
            if first is None:
                ctx.ok('found')
            else:
                ctx.refute('found', 'missed', at, 'asks for more data although the buffer of %d bytes has a complete head (empty line at %d)' % (n, first), s)
        return []
    if len(xs) > 1:
        ctx.refute('parsed', 'twice', at, 'more than one head is parsed in one call', s)
        return []
    e = xs[0]
    if e[1] != SIDES[side][1]:
        ctx.refute('parsed', 'parser', at, 'the head is read by %s' % e[1], s)
        return []
    inner, buf, pos, cap = e[2][1]
    handed = e[2][3]
    if handed is None or cap != pos:
        raise Unsupported('parser input other than a slice, or already buffered')
    ctx.equal('split', 'split', at, 'what is parsed and what stays is not the buffer', s, seqnorm(handed + left), seq, w)
    m = seqlen(handed)
    short = mk_le(sub(m, 3))
    if s.truth(short):
        ctx.refute('head', 'short', at, 'fewer than four bytes are taken for a head', s)
    else:
        if n != 'marked':
            ctx.equal('head', 'end', at, 'the bytes taken do not end in an empty line', s, ip.subseq(s, handed, sub(m, 4), 4), bytes_seq(END), w)
        if n == 'marked':
            if s.truth(mk_le(sub(m, add(seqlen(seq[:1]), 4)))):
                ctx.ok('found')
            else:
                beyond(ctx, ip, at, 'later', 'what is taken goes beyond the first empty line', s)
        elif n is not None:
            if first is None:
                ctx.refute('found', 'invented', at, 'a head is taken from a buffer without an empty line', s)
            else:
                ctx.equal('found', 'first', at, 'the head does not end at the first empty line', s, m, first + 4, w)
    pv = ip.variant_of(s, e[3])
    got = ip.enum_fields(s, e[3], pv)[0]
    if pv == 0:
        counts['ok'] = counts.get('ok', 0) + 1
        if vi == 1:
            ctx.refute('result', 'ok-err', at, 'an error although the head was parsed', s)
        elif ip.variant_of(s, x) == 0:
            ctx.refute('result', 'ok-none', at, 'a parsed head is dropped: the call asks for more data', s)
        else:
            identical(ctx, 'result', 'value', at, 'the head returned is not the one parsed', s, ip, ip.enum_fields(s, x, 1)[0], got, w)
    else:
        counts['err'] = counts.get('err', 0) + 1
        if vi == 0:
            ctx.refute('result', 'err-ok', at, 'the head taken from the buffer cannot be parsed, but the call %s' % ('asks for more data' if ip.variant_of(s, x) == 0 else 'succeeds'), s)
        else:
            ev = ip.variant_of(s, x)
            if vname(ip, x, ev) != 'Http':
                ctx.refute('result', 'err-kind', at, 'a parse error is reported as ' + vname(ip, x, ev), s)
            else:
                identical(ctx, 'result', 'err', at, 'the error reported is not that of the parser', s, ip, ip.enum_fields(s, x, ev)[0], got, w)
    return []


def beyond(ctx, ip, at, key, msg, s):
    if ip.generalised:
        # the search is a loop whose earlier rounds are not remembered: only the small buffers decide
        ctx.samples.append(at + ': buffers of any size with an empty line not decided, only those of up to %d bytes' % SMALL)
    else:
        ctx.refute('found', key, at, msg, s)


def encode(ctx, side, at):
    w = ctx.world('probe')
    fn = probe(ctx, 'http_%s_encode' % side)
    ip = ctx.interp('probe')
    args = ctx.args(ip, fn)
    st = State()
    st.mem[args[2][1]] = ip.sym(args[2][1][2], args[2][1][1])
    item = names(None, ip, ip.expand(args[1]))
    before = ip.expand(ip.read(st, args[2][1], args[2][2]))[2]
    n = 0
    for k, s, r in ctx.run(ip, fn, args, st):
        if k == 'unk':
            ctx.undecided('modelled', at, r)
            continue
        if k == 'panic':
            ctx.refute('no-panic', 'panic', at, 'panics (%s at %s); buffer of %s' % (r[1], r[2], n), s)
            continue
        n += 1

        def one(s, r=r):
            if ip.variant_of(s, r) == 1:
                ctx.refute('encodes', 'error', at, 'writing to the buffer fails', s)
                return []
            subj = ip.expand(item['subject']) if side == 'client' else item['subject']
            line = [subj[2][0], b' ', subj[2][1], b' ', item['version']] if side == 'client' else [item['version'], b' ', subj]
            want = before
            for x in line + [b'\r\n', item['headers'], b'\r\n']:
                want = want + (bytes_seq(x) if isinstance(x, bytes) else display(ip, s, x))
            after = ip.expand(ip.read(s, args[2][1], args[2][2]))[2]
            ctx.equal('complete', 'bytes', at, 'the buffer after encoding', s, after, seqnorm(want), w)
            return []
        runsplit(s, one)
    if n < 1:
        ctx.undecided('coverage', at, 'no outcome')
    ctx.samples.append('%s: %d outcomes' % (at, n))


def display(ip, s, v):
    nm = ('disp', 'display', v)
    return (('o', nm, lenof(nm)),)
