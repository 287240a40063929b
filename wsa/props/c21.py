"""Secure URLs and secure connects always use TLS, verified against the URL host"""
from ..check import *
from ..models import runsplit
from ..client import routes, bare, native
from ..handshakes import *

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of every connect call for ws, wss, http, https and unknown schemes, with and without host and port, unknown outcome of name resolution, TCP connect, '
               'default connector and TLS handshake; and of every listener based accept. On every path the sequence of operations is compared with the one required: address, then TLS '
               'with the given connector or acceptor on that very stream and for the host of the URL exactly when required, then the handshake on the stream TLS returned.')


def run(ctx):
    routes(ctx)
    for name in ('server_accept', 'tls_server_accept', 'server_next', 'tls_server_next', 'async_incoming', 'async_tls_incoming'):
        ctx.guard('modelled', ENTRIES[name][0], server, ctx, name)
    ctx.rules.append('secure == wss/https or *_secure; not secure == other schemes or *_insecure; secure => tls-connect(connector, host of URL, TCP stream) precedes the request, failure => Err; '
                     'secure server => tls-accept(acceptor, accepted stream) precedes reading the request')


def acceptor(e):
    """the acceptor the server was given"""
    srv = e.args[0]
    while srv[0] == 'p':
        srv = e.ip.read(State(), srv[1], srv[2])
    f = names(None, e.ip, e.ip.expand(srv))
    return f['ssl_acceptor']


def server(ctx, name):
    n = {'ok': 0, 'err': 0}
    secure = 'tls' in name

    def one(e, s):
        ip = e.ip
        xs = [x for x in s.ev if x[0] == 'x' and x[1] != 'phase']
        i = [k for k, x in enumerate(xs) if x[1] in ('parse_request', 'next')]
        t = [k for k, x in enumerate(xs) if x[1] == 'tls-accept']
        io = [x for x in s.ev if x[0] in ('wr', 'wr!', 'write', 'write!', 'rd', 'read')]
        if io:
            ctx.refute('server/tls', 'io', e.where, 'bytes are moved by the server itself before the request is handed out', s)
        if not secure:
            if t:
                ctx.refute('server/plain', 'tls', e.where, 'TLS on a plain server', s)
            else:
                ctx.ok('server/plain')
            return []
        if not t:
            if i or e.kind == 'ok':
                ctx.refute('server/tls', 'plain', e.where, 'the request is read without TLS', s)
            else:
                ctx.ok('server/tls')
            return []
        if len(t) > 1 or i and i[0] < t[0]:
            ctx.refute('server/tls', 'order', e.where, 'the request is read before TLS is established', s)
            return []
        x = xs[t[0]]
        a, st_ = x[2]
        a = native(ip, bare(ip, s, a))
        identical(ctx, 'server/tls', 'acceptor', e.where, 'the acceptor used', s, ip, a, native(ip, bare(ip, s, acceptor(e))), e.w)
        src = [y for y in xs[:t[0]] if y[1] in ('listener-accept', 'incoming')]
        if not src:
            ctx.refute('server/tls', 'source', e.where, 'TLS on something that was not accepted', s)
            return []
        tag, v = outcome(e, src[-1])
        if src[-1][1] == 'listener-accept':
            v = ip.expand(v)[2][0]
        identical(ctx, 'server/tls', 'stream', e.where, 'the stream TLS is made on', s, ip, bare(ip, s, st_), bare(ip, s, v), e.w)
        tag, v = outcome(e, x)
        if tag == 'err':
            if i or e.kind == 'ok':
                ctx.refute('server/tls', 'failure', e.where, 'goes on although TLS failed', s)
            else:
                ctx.ok('server/tls')
            return []
        if i:
            y = xs[i[0]]
            got = y[2][1][0] if y[1] == 'parse_request' else y[2][0][3]
            identical(ctx, 'server/tls', 'read-stream', e.where, 'the stream the request is read from', s, ip, bare(ip, s, got), bare(ip, s, v), e.w)
        ctx.ok('server/tls')
        return []
    for e in ends(ctx, name):
        n[e.kind] += 1
        runsplit(e.st, lambda s: one(e, s))
    for k in n:
        if not n[k]:
            ctx.undecided('coverage', ENTRIES[name][0], 'no outcome ' + k)
    ctx.samples.append('%s: %s' % (ENTRIES[name][0], n))
