"""The four ways of turning a connection into a pending upgrade, and what their outcomes are made of"""
import itertools
from .check import *
from .terms import *
from .models import runsplit
from .senders import probe
from .http import hd, hget, hsym, hraw, run_future, outer, typ, flat, text_of, ci_eq, hdiff
from .frames import variant
from .spec import *

UP = 'src/server/upgrade/'
WAYS = {
    'stream': ('into_ws', UP + 'sync.rs:IntoWs for S::into_ws'),
    'pair': ('into_ws_pair', UP + 'sync.rs:IntoWs for RequestStreamPair::into_ws'),
    'hyper': ('into_ws_hyper', UP + 'sync.rs:IntoWs for HyperRequest::into_ws'),
    'async': ('into_ws_async', UP + 'async.rs:IntoWs for S::into_ws'),
}
HH = 'hyper::header::common::'
TYPES = {
    'version': 'websocket::header::version::WebSocketVersion',
    'key': 'websocket::header::key::WebSocketKey',
    'accept': 'websocket::header::accept::WebSocketAccept',
    'protocol': 'websocket::header::protocol::WebSocketProtocol',
    'extensions': 'websocket::header::extensions::WebSocketExtensions',
    'origin': 'websocket::header::origin::Origin',
    'upgrade': HH + 'upgrade::Upgrade',
    'connection': HH + 'connection::Connection',
    'host': HH + 'host::Host',
    'auth': HH + 'authorization::Authorization',
    'location': HH + 'location::Location',
}


def names(obj, ip, v):
    """field name -> value of a struct"""
    v = ip.expand(v)
    return {n: x for (n, _), x in zip(ip.w.types[v[1]]['variants'][0][2], v[2])}


def ht(ip, name):
    t = typ(ip, TYPES[name])
    if t is None:
        # the type may have moved: by its last name
        last = TYPES[name].split('::')[-1]
        for i, x in enumerate(ip.w.types):
            if x['k'] == 'adt' and x['path'].endswith('::' + last):
                return i
        raise Unsupported('type ' + name)
    return t


def vi_of(ip, t, name):
    for i, v in enumerate(ip.w.types[t]['variants']):
        if v[0] == name:
            return i
    raise Unsupported('variant %s of %s' % (name, ip.w.ts(t)))


def vname(ip, v, vi):
    return ip.w.types[v[1]]['variants'][vi][0]


def string(ip, b):
    return ('vec', ip.tu8, bytes_seq(b)) if isinstance(b, bytes) else ('vec', ip.tu8, (('s', b, 0, lenof(b)),))


def protocols(ip, kinds):
    """Upgrade header with the given protocols: WebSocket, H2c, or bytes (unregistered name)"""
    ut = ht(ip, 'upgrade')
    pt = typ(ip, HH + 'upgrade::Protocol')
    nt = typ(ip, HH + 'upgrade::ProtocolName')
    els = []
    for i, k in enumerate(kinds):
        ver = ip.sym(ip.field_types(pt)[1], ('protover', i))
        if k == 'WebSocket':
            ver = ('en', ip.field_types(pt)[1], 0, ())
            n = ('en', nt, vi_of(ip, nt, 'WebSocket'), ())
        elif k == 'WebSocket/':
            n = ('en', nt, vi_of(ip, nt, 'WebSocket'), ())
            ver = ('en', ip.field_types(pt)[1], 1, (string(ip, ('protover', i)),))
        elif k in ('H2c', 'Tls', 'Http'):
            n = ('en', nt, vi_of(ip, nt, k), ())
        else:
            n = ('en', nt, vi_of(ip, nt, 'Unregistered'), (string(ip, ('proto', i)),))
        els.append(('st', pt, (n, ver)))
    return ('st', ut, (('vec', pt, tuple(('1', e) for e in els)),))


def options(ip, kinds):
    """Connection header with the given options: KeepAlive, Close, bytes or a name (ConnectionHeader)"""
    ct = ht(ip, 'connection')
    ot = typ(ip, HH + 'connection::ConnectionOption')
    cv = vi_of(ip, ot, 'ConnectionHeader')
    ut = ip.field_types(ot, cv)[0]
    els = []
    for i, k in enumerate(kinds):
        if k in ('KeepAlive', 'Close'):
            els.append(('en', ot, vi_of(ip, ot, k), ()))
        else:
            els.append(('en', ot, cv, (('st', ut, (string(ip, k if isinstance(k, bytes) else ('opt', i)),)),)))
    return ('st', ct, (('vec', ot, tuple(('1', e) for e in els)),))


UPGRADES = [None, (), ('WebSocket',), ('WebSocket/',), ('H2c',), ('?',), ('H2c', 'WebSocket'), ('WebSocket', 'H2c'), ('?', 'WebSocket'), ('H2c', '?'),
            ('H2c', 'H2c', 'WebSocket'), ('Tls', 'Http', 'H2c')]
CONNS = [None, (), ('KeepAlive',), ('Close',), (b'upgrade',), (b'Upgrade',), (b'UPGRADE',), (b'uPgRaDe',), (b'upgrades',), (b'',), (b'grade',), ('?',),
         ('KeepAlive', b'Upgrade'), (b'Upgrade', 'KeepAlive'), (b'x', b'upgrade'), ('?', '?'), ('Close', '?'), ('KeepAlive', b'x', b'UpGrade'), ('KeepAlive', 'Close', b'x')]


def shapes():
    """(protocols of Upgrade, options of Connection) to try"""
    for u in UPGRADES:
        yield u, (b'upgrade',)
    for k in CONNS:
        yield ('WebSocket',), k
    for u, k in itertools.product((None, (), ('H2c',)), (None, (), ('KeepAlive',), (b'x',))):
        yield u, k


class Attempt:
    """one outcome: kind 'ok'/'err', value, and what the connection was made of"""


def ways(ctx, way, u, k):
    """yields Attempt for every outcome of the way with the given Upgrade and Connection headers ('open': any)"""
    name, at = WAYS[way]
    w = ctx.world('probe')
    fn = probe(ctx, name)
    ip = ctx.interp('probe')
    fix = {}
    if u != 'open':
        fix[ht(ip, 'upgrade')] = None if u is None else protocols(ip, u)
    if k != 'open':
        fix[ht(ip, 'connection')] = None if k is None else options(ip, k)
    ip.hfix = fix
    args = ctx.args(ip, fn)
    outs = ctx.run(ip, fn, args, State())
    if way == 'async':
        res = []
        for o in outs:
            if o[0] == 'ret':
                v = o[2]
                for o2 in runsplit(o[1], lambda s: run_future(ip, s, 0, v)):
                    res.append(o2)
            else:
                res.append(o)
        outs = res
    for o in outs:
        if o[0] == 'unk':
            ctx.undecided('modelled', at, str(o[2])[:300])
            continue
        if o[0] == 'panic':
            ctx.refute('no-panic', 'panic', at, 'panics (%s at %s)' % (o[2][1], o[2][2]), o[1])
            continue
        a = Attempt()
        a.ctx, a.w, a.ip, a.at, a.way, a.st, a.args = ctx, w, ip, at, way, o[1], args
        if way == 'async':
            a.kind, a.value = o[2]
        else:
            vi = ip.variant_of(o[1], o[2])
            a.kind, a.value = ('ok', 'err')[vi], ip.enum_fields(o[1], o[2], vi)[0]
        a.u, a.k = u, k
        a.parse_error = None
        a.closed = False
        a.request = None
        es = [e for e in a.st.ev if e[0] == 'x']
        a.events = es
        if way == 'stream':
            a.stream = args[0]
            ps = [e for e in es if e[1] == 'parse_request']
            if len(ps) != 1 or len(es) != 1:
                ctx.undecided('modelled', at, 'the request is not read by one parse_request')
                continue
            r = ps[0][3]
            a.reader = ps[0][2][2]
            f = ('f', ('disc', r[2]), 2)
            m = a.st.dom.get(f, 3)
            if m == 3:
                ctx.undecided('modelled', at, 'outcome of parse_request not looked at')
                continue
            if m == 1:
                a.request = ip.enum_fields(a.st, r, 0)[0]
            else:
                a.parse_error = ip.enum_fields(a.st, r, 1)[0]
            a.buffer = a.reader[1:4]
        elif way == 'pair':
            a.stream, a.request = args
            a.buffer = None
        elif way == 'hyper':
            a.request = args[0]
            a.stream = a.buffer = None
        else:
            a.stream = args[0]
            ps = [e for e in es if e[1] == 'next']
            if len(ps) != 1 or len(es) != 1:
                ctx.undecided('modelled', at, 'the request is not read by one receive of the HTTP codec')
                continue
            tag, x = ps[0][3]
            a.framed = ps[0][2][1]
            a.buffer = a.framed[5]
            if tag == 'item':
                a.request = x
            elif tag == 'err':
                a.parse_error = x
            else:
                a.closed = True
        yield a


def parts(a):
    """(method, version, headers) of the request"""
    ip = a.ip
    if a.way == 'hyper':
        f = names(None, ip, a.request)
        return f['method'], f['version'], f['headers']
    f = names(None, ip, a.request)
    return ip.expand(f['subject'])[2][0], f['version'], f['headers']


KINDS = ('MethodNotGet', 'UnsupportedHttpVersion', 'UnsupportedWebsocketVersion', 'NoSecWsKeyHeader', 'NoUpgradeHeader', 'NoWsUpgradeHeader', 'NoConnectionHeader', 'NoWsConnectionHeader')


def violated(a, s, kind):
    """does the request violate the requirement with this error kind (may split)"""
    ip = a.ip
    m, v, h = parts(a)
    if kind == 'MethodNotGet':
        return vname(ip, m, ip.variant_of(s, m)) != 'Get'
    if kind == 'UnsupportedHttpVersion':
        return vname(ip, v, ip.variant_of(s, v)) in ('Http09', 'Http10')
    if kind == 'UnsupportedWebsocketVersion':
        x = hget(ip, s, h, ht(ip, 'version'))[0]
        return x is not None and vname(ip, x, ip.variant_of(s, x)) != 'WebSocket13'
    if kind == 'NoSecWsKeyHeader':
        return hget(ip, s, h, ht(ip, 'key'))[0] is None
    if kind == 'NoUpgradeHeader':
        return a.u is None
    if kind == 'NoWsUpgradeHeader':
        return a.u is not None and not any(p in ('WebSocket', 'WebSocket/') for p in a.u)
    if kind == 'NoConnectionHeader':
        return a.k is None
    if kind == 'NoWsConnectionHeader':
        if a.k is None:
            return False
        for i, o in enumerate(a.k):
            if isinstance(o, bytes) and o.lower() == b'upgrade':
                return False
            if o == '?' and s.truth(ci_eq((('s', ('opt', i), 0, lenof(('opt', i))),), bytes_seq(b'upgrade'))):
                return False
        return True
    raise Unsupported(kind)
