"""Frame header decoding (RFC 6455 5.2)"""
from ..check import *
from ..spec import *
from ..terms import *

LEVEL = 'other'
EXPLANATION = ('Trace-partitioned abstract interpretation of read_header over a fully symbolic byte stream: every joined outcome '
               'is compared, in normal form, with the RFC 6455 layout (tables over each byte, linear forms for the lengths).')


def result(ctx, w, v):
    """('ok', value) / ('err', value)"""
    t = w.types[v[1]]
    n = t['variants'][v[2]][0]
    return {'Ok': 'ok', 'Err': 'err'}[n], v[3][0]


def fields(ctx, w, v):
    """name -> value of a struct value"""
    t = w.types[v[1]]
    return {n: x for (n, _), x in zip(t['variants'][0][2], v[2])}


def read_fail(st, sid):
    for e in st.ev:
        if e[0] in ('rd!', 'rdeof') and e[1] == sid:
            return e
    return None


def check_header_outcomes(ctx, w, ip, outs, sid, where, base=None, off=0, okvalue=None):
    """outs: outcomes of a header reader on stream sid"""
    h = Hdr(base or ('stream', sid), off)
    nok = nerr = nrd = 0
    for o in outs:
        k, st, v = o
        if k == 'unk':
            ctx.undecided('header/modelled', where, str(v))
            continue
        if k == 'panic':
            ctx.refute('header/no-panic', 'panic', where, 'panics (%s at %s)' % (v[1], v[2]), st)
            continue
        r, x = result(ctx, w, v)
        pos = st.pos.get(('rd', sid), 0)
        fail = read_fail(st, sid)
        need = 0
        for s, (i16, i64, m) in ctx.cases(st, *h.conds):
            ext, ln, mo, hl = h.resolve(i16, i64, m)
            if fail is not None:
                nrd += 1
                if r == 'ok':
                    ctx.refute('header/short-stream', 'ok-after-short', where, 'a header is returned although the stream ended inside it', s)
                    continue
                # a failing read must lie inside the header
                ctx.equal('header/reads-only-header', 'overread', where, 'a read reaches beyond the end of the header', s,
                          1 if s.prove(le(pos, hl)) is True else 0 if s.prove(le(pos, hl)) is False else 1, 1, w)
                continue
            inv = []
            nonmin = (le(ln, 125) if i16 else le(ln, 65535) if i64 else 0)
            for s2, (bad1, ctrl, long, fin) in ctx.cases(s, nonmin, h.ctrl, lt(125, ln), h.fin):
                invalid = bad1 or (ctrl and (long or not fin))
                if r == 'ok':
                    nok += 1
                    if invalid:
                        why = 'a non minimal length' if bad1 else 'a control frame longer than 125 bytes' if long else 'a fragmented control frame'
                        ctx.refute('header/rejects-invalid', 'accepts-' + why.replace(' ', '-'), where, 'accepts ' + why, s2)
                        continue
                    ctx.ok('header/rejects-invalid')
                    f = fields(ctx, w, x)
                    fl = f['flags']
                    bits = fl[2][0] if fl[0] == 'st' else None
                    ctx.equal('header/flags', 'flags', where, 'flags differ from the top four bits of the first byte', s2, bits, h.top, w)
                    ctx.equal('header/opcode', 'opcode', where, 'opcode differs from the low four bits of the first byte', s2, f['opcode'], h.op, w)
                    ctx.equal('header/length', 'length', where, 'length differs from the encoded length', s2, f['len'], ln, w)
                    ctx.equal('header/consumed', 'consumed', where, 'bytes consumed differ from the header length', s2, pos, hl, w)
                    mk = f['mask']
                    if mk[0] != 'en':
                        ctx.undecided('header/mask', where, 'mask value not resolved')
                        continue
                    some = mk[2] == 1
                    if some != bool(m):
                        ctx.refute('header/mask', 'mask-presence', where, 'mask key presence differs from the mask bit', s2)
                        continue
                    if m:
                        ctx.equal('header/mask', 'mask-key', where, 'mask key differs from the four bytes after the length', s2,
                                  mk[3][0][2], tuple(('1', h.b(mo + i)) for i in range(4)), w)
                    else:
                        ctx.ok('header/mask')
                else:
                    nerr += 1
                    if not invalid:
                        ctx.refute('header/accepts-valid', 'rejects-valid', where, 'rejects a valid header', s2)
                    else:
                        ctx.ok('header/accepts-valid')
    return nok, nerr, nrd


def run(ctx):
    w = ctx.world('base')
    fn = ctx.fn('base', 'read_header')
    ip = ctx.interp('base')
    outs = ctx.run(ip, fn, ctx.args(ip, fn))
    where = 'websocket-base/src/ws/util/header.rs:read_header'
    n = check_header_outcomes(ctx, w, ip, outs, ('arg', 0), where)
    ctx.rules.append('outcomes of read_header(stream) == RFC 6455 5.2 for every stream content and every point at which the stream may fail')
    ctx.samples.append('accepted classes %d, rejected classes %d, stream failures %d' % n)
    if min(n) < 1:
        ctx.undecided('header/coverage', where, 'some outcome class is missing %s' % (n,))
