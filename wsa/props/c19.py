"""Bytes received after the handshake are never lost or reordered"""
from ..check import *
from ..terms import *
from ..models import runsplit
from ..senders import probe
from ..opaque import identical
from ..pure import each
from ..upgrade import names
from ..http import framed
from .. import accepts
from ..client import connections
from ..frames import Sel, option
from ..handshakes import *

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of every step that hands a partly read stream on, with unknown stream, buffer content, position and end: pending upgrades, accepts, clients, '
               'codec exchange, split and into_stream. On every successful path the receiving side must hold the same stream and the same buffer, position and end, in their own places.')
CL = 'src/client/sync.rs:Client::'


def run(ctx):
    for name in sorted(ENTRIES):
        ctx.guard('modelled', ENTRIES[name][0], upgrade, ctx, name)
    accepts.accepts(ctx, ('bytes',))
    connections(ctx, ('bytes',))
    ctx.guard('modelled', 'websocket-base/src/ws/util/mod.rs:update_framed_codec', exchange, ctx)
    split(ctx, ('bytes',))
    ctx.guard('modelled', CL + 'into_stream', into_stream, ctx)
    ctx.rules.append('pending upgrade: stream and (buf, pos, cap) of the HTTP reader; connection: BufReader::from_parts of those; codec exchange: io, read and write buffer kept; split: reader gets the buffer')


def upgrade(ctx, name):
    n = 0
    for e in ends(ctx, name):
        if e.kind != 'ok':
            continue
        n += 1

        def judge(s):
            ip = e.ip
            v = e.value
            if e.how in ('aserver', 'tls-aserver'):
                v, addr = ip.expand(v)[2]
                src = [x for x in e.xs if x[1] == 'incoming'][0][3][1]
            f = names(None, ip, v)
            b = f['buffer']
            if e.how == 'hyper':
                rd = names(None, ip, e.request)
                r = reader_of(ip, s, e)
                identical(ctx, 'stream', 'stream', e.where, 'the stream of the upgrade', s, ip, f['stream'], r[0], e.w)
                o = option_of(e, b)
                if o is None:
                    ctx.refute('buffer', 'buffer-dropped', e.where, 'the unread bytes are dropped', s)
                else:
                    same_buffer(ctx, e, s, 'buffer', 'buffer', 'unread bytes of the upgrade', o, r[1:])
                return []
            identical(ctx, 'stream', 'stream', e.where, 'the stream of the upgrade', s, ip, f['stream'], e.stream, e.w)
            if e.how == 'pair':
                o = option_of(e, b)
                if o is not None:
                    fs = dict(buffer_fields(e, o))
                    if not (fs['pos'] == fs['cap']):
                        ctx.refute('buffer', 'buffer-invented', e.where, 'bytes that were never received are put in front of the stream', s)
                ctx.ok('buffer')
            elif e.how in ('sync', 'server', 'tls-server'):
                o = option_of(e, b)
                if o is None:
                    ctx.refute('buffer', 'buffer-dropped', e.where, 'the unread bytes are dropped', s)
                else:
                    same_buffer(ctx, e, s, 'buffer', 'buffer', 'unread bytes of the upgrade', o, e.buffer)
            else:
                same_buffer(ctx, e, s, 'buffer', 'buffer', 'unread bytes of the upgrade', b, e.buffer)
            return []
        runsplit(e.st, judge)
    if not n:
        ctx.undecided('coverage', ENTRIES[name][0], 'no upgrade')


def reader_of(ip, s, e):
    """(pointer to the stream, buf, pos, cap) of the reader inside a hyper request"""
    v = ip.expand(e.request)
    for x in v[2]:
        if isinstance(x, tuple) and x and x[0] == 'sy' and ip.w.types[x[1]].get('path', '').endswith('HttpReader'):
            t = [a for a in ip.w.types[x[1]]['args'] if isinstance(a, int)][0]
            p = ip.sym(t, (x[2], 'inner'))
            r0 = ip.expand(ip.read(State(), p[1], p[2]))
            return (('p', p[1], p[2] + (0,), None),) + tuple(r0[2][1:4])
    raise Unsupported('reader of the request')


def exchange(ctx):
    at = 'websocket-base/src/ws/util/mod.rs:update_framed_codec'
    for w, ip, args, vals, s, r in each(ctx, 'update_codec', at, depth=0):
        a, b = framed(ip, args[0]), framed(ip, r)
        for i, n in ((3, 'stream'), (5, 'read buffer'), (6, 'write buffer')):
            identical(ctx, 'exchange', 'exchange-' + n.replace(' ', '-'), at, 'the %s after the exchange of the codec' % n, s, ip, b[i], a[i], w)
        identical(ctx, 'exchange', 'exchange-codec', at, 'the codec after the exchange', s, ip, b[4], args[1], w)


def split(ctx, groups):
    """halves of a client made by the public constructor"""
    sel = Sel(ctx, groups)
    at = CL + 'split'

    def go():
        w = ctx.world('probe')
        new, sp = probe(ctx, 'new_client'), probe(ctx, 'client_split')
        n = 0
        ip = ctx.interp('probe')
        args = ctx.args(ip, new)
        for o in ip.exec_fn(new, args, State(), 0):
            if o[0] != 'ret':
                raise Unsupported('constructor')
            for o2 in ctx.run(ip, sp, [o[2]], o[1]):
                if o2[0] == 'unk':
                    ctx.undecided('modelled', at, str(o2[2])[:300])
                    continue
                if o2[0] == 'panic':
                    sel('bytes').refute('no-panic', 'panic', at, 'panics (%s at %s)' % (o2[2][1], o2[2][2]), o2[1])
                    continue
                n += 1
                runsplit(o2[1], lambda s: judge(ip, w, s, o2[2], args))
        if not n:
            ctx.undecided('coverage', at, 'no outcome')

    def judge(ip, w, s, v, args):
        from ..conn import build
        es = [e for e in s.ev if e[0] == 'x']
        if [e[1] for e in es] != ['stream-split']:
            ctx.undecided('modelled', at, 'operations %s' % ([e[1] for e in es],))
            return []
        r = es[0][3]
        ri, vi = ip.variant_of(s, r), ip.variant_of(s, v)
        B = sel('bytes')
        br = ip.expand(args[0])[2]
        identical(B, 'split/stream', 'split-of', at, 'what is split', s, ip, es[0][2][0], br[0], w)
        if ri != vi:
            B.refute('split/outcome', 'split-outcome', at, 'the split of the stream %s but that of the client %s' % (('succeeds', 'fails')[ri], ('succeeds', 'fails')[vi]), s)
            return []
        if vi == 1:
            return []
        sr, sw = ip.expand(ip.enum_fields(s, r, 0)[0])[2]
        rd, wr = ip.expand(ip.enum_fields(s, v, 0)[0])[2]
        rd, wr = names(None, ip, rd), names(None, ip, wr)
        got = ip.expand(rd['stream'])[2]
        for i, n, want in ((0, 'stream', sr), (1, 'buffer', br[1]), (2, 'position', br[2]), (3, 'end', br[3])):
            identical(B, 'split/reader', 'split-' + n, at, 'the reader half: ' + n, s, ip, got[i], want, w)
        identical(B, 'split/writer', 'split-writer', at, 'the writer half: stream', s, ip, wr['stream'], sw, w)
        for s2, snd in build(ctx, ip, s.copy(), 'new_sender', [args[2]]):
            identical(sel('out'), 'split/sender', 'split-sender', at, 'the writer half does not keep the role', s2, ip, wr['sender'], snd, w)
        from ..conn import compare
        groups_ = {0: (sel('in'), 'split/mask', 'the reader half does not keep the role'),
                   1: (sel('limit'), 'split/frame-limit', 'the reader half does not keep the frame limit'),
                   2: (sel('limit'), 'split/message-limit', 'the reader half does not keep the message limit'),
                   None: (sel('bytes'), 'split/receiver', 'the reader half does not keep the state of the receiver')}
        groups_ = {k: x for k, x in groups_.items() if not accepts.muted(x[0])}
        if groups_:
            compare(ctx, ip, s, rd['receiver'], 'new_receiver', [args[3], args[4], args[5]], groups_, at)
        return []
    ctx.guard('modelled', at, go)


def into_stream(ctx):
    at = CL + 'into_stream'
    w = ctx.world('probe')
    new, into = probe(ctx, 'new_client'), probe(ctx, 'client_into_stream')
    ip = ctx.interp('probe')
    args = ctx.args(ip, new)
    for o in ip.exec_fn(new, args, State(), 0):
        if o[0] != 'ret':
            raise Unsupported('constructor')
        for o2 in ctx.run(ip, into, [o[2]], o[1]):
            if o2[0] != 'ret':
                ctx.undecided('modelled', at, str(o2[2])[:300])
                continue

            def judge(s):
                br = ip.expand(args[0])[2]
                st, b = ip.expand(o2[2])[2]
                identical(ctx, 'into_stream', 'stream', at, 'the stream', s, ip, st, br[0], w)
                vi = ip.variant_of(s, b)
                if vi == 0:
                    # only right when nothing is unread
                    ctx.holds('into_stream', 'buffer-dropped', at, 'the unread bytes are dropped', s, mk_le(sub(br[3], br[2])))
                    return []
                got = ip.expand(ip.enum_fields(s, b, 1)[0])[2]
                for i, n in ((0, 'buffer'), (1, 'position'), (2, 'end')):
                    identical(ctx, 'into_stream', n, at, n, s, ip, got[i], br[i + 1], w)
                return []
            runsplit(o2[1], judge)
