"""Server side handshakes, from a stream or from a listener: what was established before they ended, and what they hand out (C19, C20, C21, C22)"""
from .check import *
from .terms import *
from .models import runsplit
from .senders import probe
from .http import hd, run_future, drive, outer, typ, framed
from .upgrade import names, ht, protocols, options, Attempt, violated, vname, WAYS, UP, KINDS
from .opaque import identical, ident_

SRV = 'src/server/'
# name -> (place, kind)
ENTRIES = {
    'into_ws': (WAYS['stream'][1], 'sync'), 'into_ws_pair': (WAYS['pair'][1], 'pair'), 'into_ws_hyper': (WAYS['hyper'][1], 'hyper'), 'into_ws_async': (WAYS['async'][1], 'async'),
    'server_accept': (SRV + 'sync.rs:WsServer<NoTlsAcceptor>::accept', 'server'), 'tls_server_accept': (SRV + 'sync.rs:WsServer<TlsAcceptor>::accept', 'tls-server'),
    'server_next': (SRV + 'sync.rs:WsServer<NoTlsAcceptor>::next', 'server'), 'tls_server_next': (SRV + 'sync.rs:WsServer<TlsAcceptor>::next', 'tls-server'),
    'async_incoming': (SRV + 'async.rs:WsServer<NoTlsAcceptor>::incoming', 'aserver'), 'async_tls_incoming': (SRV + 'async.rs:WsServer<TlsAcceptor>::incoming', 'tls-aserver'),
}
SHAPES = [(('WebSocket',), (b'upgrade',)), (None, (b'upgrade',)), (('H2c',), (b'upgrade',)), (('WebSocket',), None), (('WebSocket',), (b'x',))]


class End:
    """end of one handshake: kind ok/err, value, st, and what had been established: stream, request, buffer (values or None), failure"""


def ends(ctx, name):
    where, kind = ENTRIES[name]
    w = ctx.world('probe')
    fn = probe(ctx, name)
    for u, k in SHAPES:
        ip = ctx.interp('probe')
        ip.hfix = {ht(ip, 'upgrade'): None if u is None else protocols(ip, u), ht(ip, 'connection'): None if k is None else options(ip, k)}
        args = ctx.args(ip, fn)
        st = State()
        for o in ctx.run(ip, fn, args, st):
            outs = [o]
            if o[0] == 'ret' and kind in ('async', 'aserver', 'tls-aserver'):
                v = o[2]
                go = run_future if kind == 'async' else None
                outs = runsplit(o[1], (lambda s: run_future(ip, s, 0, v)) if kind == 'async' else (lambda s: drive(ip, s, v)))
            for o2 in outs:
                if o2[0] == 'unk':
                    ctx.undecided('modelled', where, str(o2[2])[:300])
                    continue
                if o2[0] == 'panic':
                    ctx.refute('no-panic', 'panic', where, 'panics (%s at %s)' % (o2[2][1], o2[2][2]), o2[1])
                    continue

                def pick(s):
                    e = End()
                    e.ip, e.w, e.st, e.where, e.name, e.how, e.u, e.k, e.args = ip, w, s, where, name, kind, u, k, args
                    if kind in ('async', 'aserver', 'tls-aserver'):
                        e.kind, e.value = o2[2]
                    else:
                        r = o2[2]
                        if name.endswith('_next'):
                            vi = ip.variant_of(s, r)
                            if vi != 1:
                                ctx.refute('iterates', 'ends', where, 'the iteration over connections ends', s)
                                return []
                            r = ip.enum_fields(s, r, 1)[0]
                        vi = ip.variant_of(s, r)
                        e.kind, e.value = ('ok', 'err')[vi], ip.enum_fields(s, r, vi)[0]
                    established(e)
                    return [e]
                for e in runsplit(o2[1], pick):
                    yield e


def outcome(e, ev):
    """(tag, value) of an operation event"""
    r = ev[3]
    if isinstance(r, tuple) and r and r[0] in ('ok', 'err', 'item', 'end'):
        return r
    vi = e.ip.variant_of(e.st, r)
    return ('ok', 'err')[vi], e.ip.enum_fields(e.st, r, vi)[0]


def established(e):
    ip, s = e.ip, e.st
    e.stream = e.request = e.buffer = e.failure = None
    e.stage = None
    e.xs = [x for x in s.ev if x[0] == 'x']
    e.tls = False
    e.addr = None
    if e.how in ('sync', 'async'):
        e.stream = e.args[0]
    elif e.how == 'pair':
        e.stream, e.request = e.args
        e.tcp = None
    elif e.how == 'hyper':
        e.request = e.args[0]
        f = names(None, ip, e.request)
    for x in e.xs:
        n = x[1]
        if n in ('listener-accept', 'incoming'):
            tag, v = outcome(e, x)
            if tag == 'err':
                e.stage, e.failure = n, v
                return
            if n == 'listener-accept':
                f = ip.expand(v)[2]
                v, e.addr = f
            e.stream = v
        elif n == 'tls-accept':
            e.tls = True
            e.tlsin = x[2]
            tag, v = outcome(e, x)
            if tag == 'err':
                e.stage, e.failure = n, v
                e.stream = None
                return
            e.stream = v
        elif n == 'parse_request':
            tag, v = outcome(e, x)
            e.from_ = x[2][1][0]
            e.buffer = x[2][2][1:4]
            if tag == 'err':
                e.stage, e.failure = n, v
                return
            e.request = v
        elif n == 'next':
            tag, v = outcome(e, x)
            e.from_ = x[2][0][3]
            e.buffer = x[2][1][5]
            if tag == 'err':
                e.stage, e.failure = n, v
                return
            if tag == 'end':
                e.stage = 'closed'
                return
            e.request = v
        elif n == 'phase':
            continue
        else:
            raise Unsupported('operation ' + n)
    if e.how in ('aserver', 'tls-aserver') and e.kind == 'err' and e.request is None and e.stage is None:
        e.stage = 'peer'
        e.stream = None


def contains(v, x):
    if v == x:
        return True
    if isinstance(v, tuple):
        return any(contains(y, x) for y in v)
    return False


def option_of(e, v):
    vi = e.ip.variant_of(e.st, v)
    return None if vi == 0 else e.ip.enum_fields(e.st, v, vi)[0]


def attempt(e):
    """the request in the form C14 judges"""
    a = Attempt()
    a.ip, a.w, a.st, a.u, a.k, a.request = e.ip, e.w, e.st, e.u, e.k, e.request
    a.way = 'hyper' if e.how == 'hyper' else 'stream'
    return a


def failed(e):
    """the four parts of a failed handshake, as values or None: stream, request, buffer, error"""
    ip = e.ip
    v = ip.expand(e.value)
    x = ip.w.types[v[1]]
    if x['k'] == 'adt' and x['path'].endswith('InvalidConnection'):
        f = names(None, ip, v)
        return option_of(e, f['stream']), option_of(e, f['parsed']), option_of(e, f['buffer']), f['error']
    p = v[2]
    if e.how == 'sync':
        return p[0], option_of(e, p[1]), option_of(e, p[2]), p[3]
    if e.how == 'pair':
        return p[0], p[1], None, p[2]
    if e.how == 'hyper':
        return None, p[0], None, p[1]
    return p[0], option_of(e, p[1]), p[2], p[3]


def buffer_fields(e, b):
    b = e.ip.expand(b)
    if b[0] == 'st' and e.ip.w.types[b[1]].get('path', '').endswith('Buffer'):
        f = names(None, e.ip, b)
        return [('buf', f['buf']), ('pos', f['pos']), ('cap', f['cap'])]
    return [('buffer', b)]


def same_buffer(ctx, e, s, name, key, msg, got, want):
    """got: Buffer value or BytesMut; want: (buf, pos, cap) or BytesMut value, None when there is none"""
    ip = e.ip
    if isinstance(want, tuple) and want and want[0] in ('bm', 'sy', 'vec'):
        identical(ctx, name, key, e.where, msg, s, ip, got, want, e.w)
        return
    for (n, v), x in zip(buffer_fields(e, got), want):
        identical(ctx, name, key + '-' + n, e.where, msg + ' (%s)' % n, s, ip, v, x, e.w)
