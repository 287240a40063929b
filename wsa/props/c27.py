"""Reading, writing, splitting and shutdown act on the intended half"""
from ..check import *
from ..terms import *
from ..frames import variant, option
from ..opaque import identical, table, xs, event, pure, known
from ..pure import each
from .c01 import result

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of every method of the read/write pair, of split, shutdown and the socket options with the operations of the underlying streams '
               'opaque: on every path the events are the one operation asked for, on the intended half, with the given operands, and its result is returned unchanged.')
ST = 'websocket-base/src/stream.rs:'
C = 'src/client/sync.rs:Client::'
W = 'src/sender.rs:Writer::'
R = 'src/receiver.rs:Reader::'
READS = ('Read::read', 'Read::read_to_end', 'Read::read_to_string', 'Read::read_exact')
WRITES = ('Write::write', 'Write::write_all', 'Write::write_fmt', 'Write::flush', 'AsyncWrite::shutdown')
TCP = ('shutdown', 'set_nodelay', 'set_nonblocking', 'peer_addr', 'local_addr', 'try_clone')


def tcp_events():
    return {'std::net::tcp::TcpStream::' + n: event() for n in TCP}


def extra():
    d = table(events=READS + WRITES + ('Splittable::split',), pures=('AsTcpStream::as_tcp',))
    d['native_tls::TlsStream::get_ref'] = pure
    d.update(tcp_events())
    return d


def pairs(ctx):
    for name, half in (('read', 0), ('read_to_end', 0), ('read_to_string', 0), ('read_exact', 0), ('write', 1), ('write_all', 1), ('write_fmt', 1), ('flush', 1), ('shutdown', 1)):
        at = ST + 'ReadWritePair::' + name
        ctx.guard('modelled', at, pair, ctx, name, at, half)


def pair(ctx, name, at, half):
    for w, ip, args, vals, s, r in each(ctx, 'pair_' + name, at, extra=extra, depth=0):
        p = args[0]
        es = xs(s)
        bad = False
        for e in es:
            a = e[2][0]
            if a[0] == 'at' and a[1] == p[1] and a[2][:len(p[2]) + 1] == p[2] + (1 - half,):
                ctx.refute('half', 'wrong-half', at, '%s uses the other half' % e[1], s)
                bad = True
            elif not (a[0] == 'at' and a[1] == p[1] and a[2] == p[2] + (half,)):
                ctx.undecided('half', at, 'receiver of %s not resolved' % e[1])
                bad = True
        if bad:
            continue
        ctx.ok('half')
        if not es:
            ctx.refute('passes', 'nothing', at, 'nothing is done on the underlying half', s)
            continue
        if len(es) != 1 or es[0][1].split('::')[1] != name:
            kinds = {e[1].split('::')[1] for e in es}
            if name in ('flush', 'shutdown') and name not in kinds:
                ctx.refute('passes', 'other-operation', at, 'the half is asked for %s instead' % ', '.join(sorted(kinds)), s)
            else:
                ctx.undecided('passes', at, 'not a single %s' % name)
            continue
        e = es[0]
        if len(args) > 1:
            q = args[1]
            want = ('at', q[1], q[2]) if isinstance(q, tuple) and q[0] == 'p' else q
            if e[2][1] == want:
                ctx.ok('operand')
            else:
                ctx.undecided('operand', at, 'operand of %s not resolved' % e[1])
        identical(ctx, 'result', 'result', at, 'the result is not that of the half', s, ip, r, e[3], w)


def half_of(v):
    return v


def splits(ctx):
    at = ST + 'ReadWritePair::split'
    for w, ip, args, vals, s, r in each(ctx, 'pair_split', at, extra=extra, depth=0):
        k, x = result(ctx, w, r)
        if k != 'ok':
            ctx.refute('split', 'fails', at, 'splitting a pair fails', s)
            continue
        v = ip.expand(x)
        pr = ip.expand(vals[0])
        for i, n in ((0, 'reader'), (1, 'writer')):
            identical(ctx, 'split', n, at, 'the %s returned is not that of the pair' % n, s, ip, v[2][i], pr[2][i], w)
    at = ST + 'TcpStream::split'
    for w, ip, args, vals, s, r in each(ctx, 'tcp_split', at, extra=extra, depth=0):
        es = [e for e in xs(s) if e[1].endswith('try_clone')]
        if len(es) != 1 or len(xs(s)) != 1:
            ctx.refute('clone', 'clones', at, 'splitting does not clone the stream once', s)
            continue
        ci = variant_index(ip, s, es[0][3])
        for s1, vi in ci:
            k, x = result(ctx, w, r) if r[0] == 'en' else (None, None)
            if k is None:
                for s2, ri in variant_index(ip, s1, r):
                    k2 = 'ok' if ri == 0 else 'err'
                    x2 = ip.enum_fields(s2, r, ri)[0]
                    clone(ctx, w, ip, at, s2, vals[0], es[0], vi, k2, x2)
            else:
                clone(ctx, w, ip, at, s1, vals[0], es[0], vi, k, x)
    at = C + 'split'
    for w, ip, args, vals, s, r in each(ctx, 'client_split', at, extra=extra, depth=0):
        es = [e for e in xs(s) if e[1] == 'Splittable::split']
        if len(es) != 1 or len(xs(s)) != 1:
            ctx.refute('client-split', 'calls', at, 'the stream is not split exactly once', s)
            continue
        c = fields_of(ip, w, vals[0])
        br = ip.expand(c['stream'])
        identical(ctx, 'client-split', 'stream', at, 'something else than the stream of the client is split', s, ip, es[0][2][0], br[2][0], w)
        for s1, vi in variant_index(ip, s, es[0][3]):
            k, x = result(ctx, w, r)
            inner = ip.enum_fields(s1, es[0][3], vi)[0]
            if (k == 'ok') != (vi == 0):
                ctx.refute('client-split', 'outcome', at, 'the outcome is not that of splitting the stream', s1)
                continue
            if k == 'err':
                identical(ctx, 'client-split', 'error', at, 'the error is not that of splitting the stream', s1, ip, x, inner, w)
                continue
            pr = ip.expand(inner)
            v = ip.expand(x)
            rd, wr = fields_of(ip, w, v[2][0]), fields_of(ip, w, v[2][1])
            b2 = ip.expand(rd['stream'])
            identical(ctx, 'client-split', 'reader', at, 'the reader does not read from the reading half', s1, ip, b2[2][0], pr[2][0], w)
            identical(ctx, 'client-split', 'writer', at, 'the writer does not write to the writing half', s1, ip, wr['stream'], pr[2][1], w)
            for i, n in ((1, 'bytes'), (2, 'position'), (3, 'fill')):
                identical(ctx, 'client-split', 'buffer', at, 'the buffered %s are not handed to the reader' % n, s1, ip, b2[2][i], br[2][i], w)
            identical(ctx, 'client-split', 'receiver', at, 'the reader does not keep the state of the receiver', s1, ip, rd['receiver'], c['receiver'], w)
            identical(ctx, 'client-split', 'sender', at, 'the writer does not keep the sender', s1, ip, wr['sender'], c['sender'], w)


def clone(ctx, w, ip, at, s, orig, e, vi, k, x):
    inner = ip.enum_fields(s, e[3], vi)[0]
    if (k == 'ok') != (vi == 0):
        ctx.refute('clone', 'outcome', at, 'the outcome is not that of cloning', s)
    elif k == 'err':
        identical(ctx, 'clone', 'error', at, 'the error is not that of cloning', s, ip, x, inner, w)
    else:
        from ..opaque import ident_
        v = ip.expand(x)
        a, b = v[2]
        if all(ident_(ctx, ip, s, p, q) is True for p, q in ((a, inner), (b, orig))) or all(ident_(ctx, ip, s, p, q) is True for p, q in ((b, inner), (a, orig))):
            ctx.ok('clone')
        else:
            ctx.refute('clone', 'halves', at, 'the halves are not the stream and its clone', s)


def variant_index(ip, s, v):
    from ..models import runsplit
    return runsplit(s, lambda x: [(x, ip.variant_of(x, v))])


def fields_of(ip, w, v):
    v = ip.expand(v)
    return {n: x for (n, _), x in zip(w.types[v[1]]['variants'][0][2], v[2])}


SOCKET = [
    ('client_shutdown_sender', C + 'shutdown_sender', 'shutdown', 'Write'),
    ('client_shutdown_receiver', C + 'shutdown_receiver', 'shutdown', 'Read'),
    ('client_shutdown', C + 'shutdown', 'shutdown', 'Both'),
    ('writer_shutdown', W + 'shutdown', 'shutdown', 'Write'),
    ('writer_shutdown_all', W + 'shutdown_all', 'shutdown', 'Both'),
    ('reader_shutdown', R + 'shutdown', 'shutdown', 'Read'),
    ('reader_shutdown_all', R + 'shutdown_all', 'shutdown', 'Both'),
    ('client_peer_addr', C + 'peer_addr', 'peer_addr', None),
    ('client_local_addr', C + 'local_addr', 'local_addr', None),
    ('client_set_nodelay', C + 'set_nodelay', 'set_nodelay', 1),
    ('client_set_nonblocking', C + 'set_nonblocking', 'set_nonblocking', 1),
]


def within(p, cell, path):
    """does the reference p lead to something inside (or obtained from) the stream stored under cell"""
    if p[0] != 'at':
        return False
    if p[1] == cell and p[2][:len(path)] == path:
        return True
    nm = p[1][1] if len(p[1]) > 1 else None
    if isinstance(nm, tuple) and nm and nm[0] == 'call':
        return any(within(a, cell, path) for a in nm[2] if isinstance(a, tuple))
    return False


def sockets(ctx):
    for name, at, op, operand in SOCKET:
        ctx.guard('modelled', at, socket, ctx, name, at, op, operand)


def socket(ctx, name, at, op, operand):
    for w, ip, args, vals, s, r in each(ctx, name, at, extra=extra, depth=0):
        es = xs(s)
        if len(es) != 1:
            ctx.refute('socket', 'calls-%d' % len(es), at, '%d operations on the socket: %s' % (len(es), [e[1] for e in es]), s)
            continue
        e = es[0]
        if e[1].split('::')[-1] != op:
            ctx.refute('socket', 'operation', at, 'the socket is asked for %s' % e[1], s)
            continue
        c = fields_of(ip, w, vals[0])
        i = [n for n, _ in w.types[vals[0][1]]['variants'][0][2]].index('stream')
        if not within(e[2][0], args[0][1], args[0][2] + (i,)):
            ctx.undecided('socket', at, 'the socket operated on is not resolved')
            continue
        if isinstance(operand, str):
            h = e[2][1]
            if h[0] != 'en':
                ctx.undecided('operand', at, 'which halves not resolved')
            elif w.types[h[1]]['variants'][h[2]][0] != operand:
                ctx.refute('operand', 'halves', at, 'Shutdown::%s instead of Shutdown::%s' % (w.types[h[1]]['variants'][h[2]][0], operand), s)
            else:
                ctx.ok('operand')
        elif operand is not None:
            ctx.equal('operand', 'value', at, 'the option is not set to the given value', s, e[2][1], vals[operand], w)
        identical(ctx, 'socket-result', 'result', at, 'the result is not that of the socket', s, ip, r, e[3], w)


def views(ctx):
    """as_tcp and stream_ref lead to the stream itself; the writer handle writes to it"""
    for name, at in (('tcp_as_tcp', ST + 'TcpStream::as_tcp'), ('tls_as_tcp', ST + 'TlsStream::as_tcp'), ('box_as_tcp', ST + 'Box::as_tcp')):
        for w, ip, args, vals, s, r in each(ctx, name, at, extra=extra, depth=0):
            p = args[0]
            q = ('at', r[1], r[2])
            ok = within(q, p[1], p[2])
            if name == 'box_as_tcp' and not ok:
                v = ip.read(s, p[1], p[2])
                ok = v[0] == 'p' and within(q, v[1], v[2])
            if ok:
                ctx.ok('view')
            else:
                ctx.undecided('view', at, 'not resolved')
    at = C + 'stream_ref'
    for w, ip, args, vals, s, r in each(ctx, 'client_stream_ref', at, extra=extra, depth=0):
        i = [n for n, _ in w.types[vals[0][1]]['variants'][0][2]].index('stream')
        if within(('at', r[1], r[2]), args[0][1], args[0][2] + (i,)):
            ctx.ok('view')
        else:
            ctx.refute('view', 'stream', at, 'the reference is not to the stream of the client', s)
    for name, op in (('client_writer_flush', 'flush'), ('client_writer_write', 'write_all')):
        at = C + 'writer_mut'
        for w, ip, args, vals, s, r in each(ctx, name, at, extra=extra, depth=0):
            c = fields_of(ip, w, vals[0])
            inner = ip.expand(c['stream'])[2][0]
            es = [e for e in s.ev]
            if len(es) == 1 and es[0][0].rstrip('!') == {'flush': 'flush', 'write_all': 'wr'}[op] and es[0][1] == inner[2]:
                ctx.ok('view')
            elif any(e[1] != inner[2] for e in es if e[0] != 'x'):
                ctx.refute('view', 'writer', at, 'the writer handle is not the stream of the client', s)
            else:
                ctx.undecided('view', at, 'not resolved: %s' % [e[0] for e in es])


def run(ctx):
    pairs(ctx)
    ctx.guard('modelled', ST, splits, ctx)
    sockets(ctx)
    ctx.guard('modelled', ST, views, ctx)
    ctx.rules += ['each method of the pair: exactly one operation of that name, on the intended half, with the given operand; result returned unchanged',
                  'split returns the halves it was given (TCP: the stream and its clone); a client hands its stream, buffer, receiver and sender to the halves',
                  'shutdown and socket options: exactly one operation, on the socket of the stream, with the intended halves or the given value']
